//! Sequence rules rewritten into productions.
use crate::gram::*;
use crate::sx;
use cfg_grammar::Cfg;
use cfg_sequence::{CfgSequenceExt, Separator, Sequence};
use cfg_sequence::destination::SequenceDestination;
use cfg_sequence::rewrite::SequencesToProductions;
use std::ops::Bound;

fn sep_of(kind: u64, s: u64) -> Separator {
    match kind {
        0 => Separator::Null,
        1 => Separator::Proper(sym(s)),
        2 => Separator::Trailing(sym(s)),
        _ => Separator::Liberal(sym(s)),
    }
}
/// is `w` a sequence of `start..=end` items with the given kind of separation?
fn expected(w: &[u64], item: u64, sep: u64, kind: u64, start: u64, end: Option<u64>) -> bool {
    let n = w.len() as u64;
    let within = |k: u64| k >= start && end.is_none_or(|e| k <= e);
    let alternates = w.iter().enumerate().fold(true, |a, (i, &x)| a & (x == if i % 2 == 0 { item } else { sep }));
    let items = w.iter().fold(true, |a, &x| a & (x == item));
    let proper = if n == 0 { within(0) } else { n % 2 == 1 && within(n.div_ceil(2)) };
    let trailing = n % 2 == 0 && within(n / 2);
    match kind {
        0 => within(n) & items,
        1 => proper & alternates,
        2 => trailing & alternates,
        _ => (proper || trailing) & alternates,
    }
}
/// 0 and 3 are left-hand sides, 1 an item, 2 a separator
fn base() -> Cfg {
    let mut c = Cfg::new();
    for _ in 0..4 { c.next_sym(None); }
    c
}
fn counts(lo: u64, hi: u64) -> (u64, Option<u64>) {
    let start = lo + sx::conc(sx::range(hi - lo + 1));
    // end: start..=hi or none
    let e = sx::conc(sx::range(hi - start + 2));
    (start, if e == 0 { None } else { Some(start + e - 1) })
}
// params: counts up to, word length up to, way of adding, limit (0: none)
entry! { fn sequences() {
    let (max, wl, how, limit) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
    let kind = sx::conc(sx::range(4));
    let (start, end) = counts(0, max);
    let item = 1 + sx::conc(sx::range(2));
    let mut c = base();
    if limit > 0 { c.limit_rhs_len(Some(limit as usize)); }
    let (s, e) = (start as u32, end.map(|e| e as u32));
    match how {
        0 => { c.sequence(sym(0)).inclusive(s, e).separator(sep_of(kind, 2)).rhs(sym(item)); }
        1 => {
            // two sequences in one builder; the separator does not carry over
            c.sequence(sym(0)).inclusive(s, e).separator(sep_of(kind, 2)).rhs(sym(item)).sequence(sym(3)).inclusive(s, e).rhs(sym(1));
        }
        _ => {
            // through a list of sequences
            let mut v = vec![];
            (&mut v).sequence(sym(0)).inclusive(s, e).separator(sep_of(kind, 2)).rhs(sym(item));
            (&mut v).add_sequence(Sequence { lhs: sym(3), rhs: sym(1), start: s, end: e, separator: Separator::Null, history: None });
            let mut p = SequencesToProductions::new(&mut c);
            for x in v { p.rewrite(x); }
        }
    }
    let h = G::of(&c);
    sx::check(h.ns <= 64, 1);
    let n = sx::conc(sx::range(wl + 1));
    let w: Vec<u64> = (0..n).map(|_| 1 + sx::range(2)).collect();
    let lhs = h.rules.iter().fold(0, |m, r| m | one(r.lhs)).count_ones() as usize;
    let d = h.derives(&w, 0b110, lhs);
    let want = expected(&w, item, 2, kind, start, end);
    sx::check(bit(d, 0) == want, 2);
    let want3 = how != 0 && expected(&w, 1, 2, 0, start, end);
    sx::check(bit(d, 3) == want3, 3);
    // items and separators get no rules
    sx::check(!bit(h.lhs_mask(), 1) & !bit(h.lhs_mask(), 2), 4);
    if limit > 0 { for r in &h.rules { sx::check(r.rhs.len() as u64 <= limit, 5); } }
    sx::cover(want & (n > 2), 1);
    sx::note(d & 9);
} }

/// The language of a symbol as sets of item counts, by first and last letter.
#[derive(Clone, Default, PartialEq)]
pub struct Lang { pub empty: bool, pub by: [Vec<(u64, u64)>; 4] } // index: first is a separator * 2 + last is a separator
pub const INF: u64 = 1 << 60;
pub fn norm(mut v: Vec<(u64, u64)>) -> Vec<(u64, u64)> {
    v.sort();
    let mut o: Vec<(u64, u64)> = vec![];
    for (a, b) in v {
        match o.last_mut() { Some(l) if a <= l.1.saturating_add(1) => l.1 = l.1.max(b), _ => o.push((a, b)) }
    }
    o
}
pub struct Eval<'a> { pub g: &'a G, pub item: u64, pub sep: Option<u64>, pub memo: Vec<Option<Lang>>, pub odd: bool, pub bad: bool }
impl Eval<'_> {
    fn letter(&self, s: u64) -> Option<Lang> {
        let mut l = Lang::default();
        if Some(s) == self.sep { l.by[3].push((0, 0)); Some(l) } else if s == self.item { l.by[0].push((1, 1)); Some(l) } else { None }
    }
    fn cat(&mut self, a: &Lang, b: &Lang) -> Lang {
        let mut o = Lang { empty: a.empty && b.empty, ..Default::default() };
        for i in 0..4 {
            if a.empty { o.by[i].extend(&b.by[i]); }
            if b.empty { o.by[i].extend(&a.by[i]); }
            for j in 0..4 {
                if a.by[i].is_empty() || b.by[j].is_empty() { continue; }
                let clash = (i & 1) == (j >> 1);
                if clash && self.sep.is_some() { self.bad = true; continue; }
                for &(p, q) in &a.by[i] { for &(r, s) in &b.by[j] { o.by[i & 2 | j & 1].push((p + r, (q + s).min(INF))); } }
            }
        }
        for v in &mut o.by { *v = norm(std::mem::take(v)); }
        o
    }
    fn union(a: &mut Lang, b: &Lang) {
        a.empty |= b.empty;
        for i in 0..4 { a.by[i].extend(&b.by[i]); a.by[i] = norm(std::mem::take(&mut a.by[i])); }
    }
    fn seq(&mut self, rhs: &[u64], depth: u64) -> Lang {
        let mut l = Lang { empty: true, ..Default::default() };
        for &s in rhs { let x = self.sym(s, depth + 1); l = self.cat(&l, &x); }
        l
    }
    pub fn sym(&mut self, s: u64, depth: u64) -> Lang {
        if let Some(l) = self.letter(s) { return l; }
        if let Some(l) = &self.memo[s as usize] { return l.clone(); }
        if depth > 300 { self.odd = true; return Lang::default(); }
        let mut l = Lang::default();
        let g = self.g;
        let mut more = vec![];
        for r in g.rules.iter().filter(|r| r.lhs == s) {
            match r.rhs.iter().position(|&x| x == s) {
                None => { let x = self.seq(&r.rhs, depth); Self::union(&mut l, &x); }
                Some(p) => more.push((p, r)),
            }
        }
        for (p, r) in more {
            // direct recursion at one end, which adds one item each time
            let rest: Vec<u64> = if p == 0 { r.rhs[1..].to_vec() } else { r.rhs[..p].to_vec() };
            if rest.contains(&s) || (p != 0 && p + 1 != r.rhs.len()) { self.odd = true; continue; }
            let x = self.seq(&rest, depth);
            let y = if p == 0 { self.cat(&l, &x) } else { self.cat(&x, &l) };
            let one = x.by.iter().flatten().all(|&i| i == (1, 1)) && !x.empty;
            let same = (0..4).all(|i| y.by[i].is_empty() || !l.by[i].is_empty());
            if !one || !same { self.odd = true; continue; }
            for v in &mut l.by { if let Some(f) = v.first().copied() { *v = vec![(f.0, INF)]; } }
        }
        self.memo[s as usize] = Some(l.clone());
        l
    }
}
// params: exponent: counts around 2^exponent and small ones
entry! { fn large() {
    let k = sx::param(0);
    let kind = sx::conc(sx::range(4));
    let near = |x: u64| { let d = sx::conc(sx::range(5)); ((1u64 << x) + d).saturating_sub(2).min(u32::MAX as u64) };
    let start = match sx::conc(sx::range(2)) { 0 => sx::conc(sx::range(3)), _ => near(k) };
    let end = match sx::conc(sx::range(3)) { 0 => None, 1 => Some(near(k)), _ => Some(near(k + 1).saturating_sub(1)) };
    sx::assume(end.is_none_or(|e| start <= e));
    let mut c = base();
    c.sequence(sym(0)).inclusive(start as u32, end.map(|e| e as u32)).separator(sep_of(kind, 2)).rhs(sym(1));
    let g = G::of(&c);
    let mut e = Eval { g: &g, item: 1, sep: if kind > 0 { Some(2) } else { None }, memo: vec![None; g.ns as usize], odd: false, bad: false };
    let l = e.sym(0, 0);
    sx::note(g.rules.len() as u64);
    // the evaluation understands only recursion that adds one item; other shapes are left to `sequences`
    if e.odd { return; }
    sx::cover(true, 1);
    sx::check(!e.bad, 11);
    let want = norm(if end == Some(0) { vec![] } else { vec![(start.max(1), end.unwrap_or(INF))] });
    let mut x = Lang { empty: start == 0, ..Default::default() };
    if kind != 2 { x.by[0] = want.clone(); }
    if kind >= 2 { x.by[1] = want; }
    sx::check(l == x, 12);
} }
/// The range forms of the builder and of `Sequence`. params: bound
entry! { fn ranges() {
    let m = sx::param(0);
    let (a, b) = (sx::u(32), sx::u(32));
    let _ = m;
    let form = sx::conc(sx::range(7));
    let (x, y) = (a as u32, b as u32);
    // non-empty ranges
    sx::assume(match form { 0 => a <= b, 1 => a < b, 2 | 5 => true, 3 => true, 4 => b > 0, 6 => a < b, _ => true });
    let q = Sequence { lhs: sym(0), rhs: sym(1), start: 7, end: Some(7), separator: Separator::Null, history: None };
    let mut v = vec![];
    let bl = (&mut v).sequence(sym(0)).separator(Separator::Trailing(sym(2)));
    let (q, want) = match form {
        0 => { bl.range(x..=y).rhs(sym(1)); (q.range(x..=y), (a, Some(b))) }
        1 => { bl.range(x..y).rhs(sym(1)); (q.range(x..y), (a, Some(b.wrapping_sub(1)))) }
        2 => { bl.range(x..).rhs(sym(1)); (q.range(x..), (a, None)) }
        3 => { bl.range(..=y).rhs(sym(1)); (q.range(..=y), (0, Some(b))) }
        4 => { bl.rhs_with_range(sym(1), ..y); (q.range(..y), (0, Some(b.wrapping_sub(1)))) }
        5 => { bl.rhs_with_range(sym(1), ..); (q.range(..), (0, None)) }
        _ => { bl.range((Bound::Excluded(x), Bound::Included(y))).rhs(sym(1)); (q.range((Bound::Excluded(x), Bound::Included(y))), (a + 1, Some(b))) }
    };
    for s in [q, v[0]] {
        sx::check(s.start as u64 == want.0, 21);
        sx::check(s.end.map(|e| e as u64) == want.1, 22);
        sx::check(s.lhs == sym(0) && s.rhs == sym(1), 23);
    }
    sx::check(v.len() == 1 && v[0].separator == Separator::Trailing(sym(2)), 24);
    sx::note(form);
} }
