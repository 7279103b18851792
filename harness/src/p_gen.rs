//! Weighted random generation driven by symbolic draws.
use crate::gram::*;
use crate::sx;
use cfg_generate::weighted::random::{ByteSource, GenRange, Limits, RandomGenError};
use cfg_generate::weighted::{NegativeRule, Random};
use cfg_grammar::Cfg;
use cfg_history::RootHistoryNode;
use cfg_history::earley::History;
use cfg_symbol::Symbol;
use std::cell::Cell;
use std::rc::Rc;

/// Numbers drawn from a fixed symbolic list: each draw is in the middle of one of `D` equal parts of the interval.
const D: u64 = 4;
#[derive(Clone)]
struct Draw { list: Rc<Vec<u64>>, at: usize, most: Rc<Cell<usize>> }
impl Draw {
    fn new(n: u64) -> Draw { Draw { list: Rc::new((0..n).map(|_| sx::range(D)).collect()), at: 0, most: Rc::new(Cell::new(0)) } }
}
impl GenRange for Draw {
    fn generate(&mut self, limit: f64) -> f64 {
        // runs that need more draws are outside the bounds
        if self.at >= self.list.len() { sx::assume(false); }
        let k = sx::conc(self.list[self.at]);
        self.at += 1;
        self.most.set(self.most.get().max(self.at));
        limit * (2 * k + 1) as f64 / (2 * D) as f64
    }
    fn mutate_start(&mut self, attempt: u64) { self.at += attempt as usize + 1; }
}
fn grammar(g: &G, w: &[Option<u64>]) -> Cfg {
    let mut c = G { ns: g.ns, nl: g.nl, rules: vec![] }.build();
    for (r, w) in g.rules.iter().zip(w) {
        let v: Vec<Symbol> = r.rhs.iter().map(|&s| sym(s)).collect();
        let mut h: History = RootHistoryNode::NoOp.into();
        h.weight = w.map(|w| w as u32 * 1000);
        c.rule(sym(r.lhs)).rhs_with_history(&v[..], h);
    }
    c
}
/// all left-hand sides derive some word
fn productive(g: &G) { sx::assume(g.lhs_mask() & !g.close_all(g.terminals()) == 0); }

// Which rule each draw picks: the leftmost derivation with rules picked in proportion to their weights.
// params: ns, nl, rules, minlen, maxlen, draws, terminals limit, top weight
entry! { fn generate() {
    let (ns, nl, r, lo, hi, n, limit, top) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5), sx::param(6), sx::param(7));
    let g = G::any(ns, nl, r, lo, hi);
    productive(&g);
    // none, or 0 to top - 1 (a thousandth of what histories store)
    let w: Vec<Option<u64>> = g.rules.iter().map(|_| match sx::conc(sx::range(top + 1)) { 0 => None, k => Some(k - 1) }).collect();
    // a rule can only be picked if it has some weight: every symbol is productive without rules of weight 0
    let live = G { ns, nl, rules: g.rules.iter().zip(&w).filter(|x| *x.1 != Some(0)).map(|x| x.0.clone()).collect() };
    sx::assume(live.lhs_mask() == g.lhs_mask() && g.lhs_mask() & !live.close_all(g.terminals()) == 0);
    let c = grammar(&g, &w);
    let mut d = Draw::new(n);
    let start = sx::conc(sx::range(ns));
    let to = |s: Symbol, _: &mut Draw| if val(s) == ns - 1 { None } else { Some((b'a' + val(s) as u8) as char) };
    let lim = if limit > 0 { Some(Limits { terminals: limit - 1, negative_rule_attempts: 0 }) } else { None };
    let got = c.random(sym(start), lim, &mut d, &[], to);
    // reference
    let term = g.terminals();
    let mut work = vec![start];
    let mut out = vec![];
    let mut at = 0;
    let mut over = false;
    while let Some(s) = work.pop() {
        let s = sx::conc(s);
        if bit(term, s) { out.push(s); if limit > 0 && out.len() as u64 > limit - 1 { over = true; break; } continue; }
        let own: Vec<usize> = (0..g.rules.len()).filter(|&i| g.rules[i].lhs == s).collect();
        let pick = if own.len() == 1 { own[0] } else {
            let total: u64 = own.iter().map(|&i| w[i].unwrap_or(1)).sum();
            let k = sx::conc(d.list[at]);
            at += 1;
            // the rule whose share of the interval holds the draw: sum before < total * (2k + 1) / 2D < sum after
            let mut sum = 0;
            let mut p = own[0];
            for &i in &own { let x = w[i].unwrap_or(1); if sum * 2 * D < total * (2 * k + 1) && total * (2 * k + 1) < (sum + x) * 2 * D { p = i; } sum += x; }
            p
        };
        work.extend(g.rules[pick].rhs.iter().rev());
    }
    match got {
        Ok((v, s)) => {
            sx::check(!over && v.len() == out.len(), 1);
            sx::check(v.iter().zip(&out).all(|(a, b)| val(*a) == *b), 2);
            let text: Vec<char> = out.iter().filter(|&&x| x != ns - 1).map(|&x| (b'a' + x as u8) as char).collect();
            sx::check(s == text, 3);
            sx::cover(v.len() > 1, 1);
            sx::note(v.len() as u64);
        }
        Err(e) => { sx::check(over && e == RandomGenError::LimitExceeded, 4); sx::cover(true, 2); sx::note(77); }
    }
    sx::check(d.at == at, 5);
} }

/// Negative rules: the output is derived with no marker standing right before its forbidden text.
// params: ns, nl, rules, minlen, maxlen, draws, forbidden text, attempts
entry! { fn negative() {
    let (ns, nl, r, lo, hi, n, forbidden, attempts) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5), sx::param(6), sx::param(7));
    // symbol ns is the marker, with an empty rule
    let mut g = G::any(ns + 1, nl, r, lo, hi);
    g.rules.push(Rule { lhs: ns, rhs: vec![] });
    productive(&g);
    let c = grammar(&g, &vec![None; g.rules.len()]);
    let mut d = Draw::new(n);
    // letters are the last symbols: a, b
    let chars = ["a", "b", "ab", "aa", "ba", "aab"][forbidden as usize];
    let letter = |s: u64| match ns - 1 - s { 0 => Some('b'), 1 => Some('a'), _ => None };
    let to = |s: Symbol, _: &mut Draw| letter(val(s));
    let lim = Some(Limits { terminals: 6, negative_rule_attempts: attempts });
    match c.random(sym(0), lim, &mut d, &[NegativeRule { sym: sym(ns), chars }], to) {
        Ok((v, s)) => {
            let out: Vec<u64> = v.iter().map(|&x| sx::conc(val(x))).collect();
            let text: Vec<char> = out.iter().filter_map(|&x| letter(x)).collect();
            sx::check(text == s && out.len() <= 6, 11);
            let term = g.terminals();
            sx::check(out.iter().all(|&x| bit(term, x)), 12);
            // where the marker may stand
            let k = out.len();
            let bad: Vec<char> = chars.chars().collect();
            let ok: Vec<bool> = (0..=k).map(|i| {
                let rest: Vec<char> = out[i..].iter().filter_map(|&x| letter(x)).collect();
                !rest.starts_with(&bad)
            }).collect();
            let lhs = g.lhs_mask().count_ones() as usize;
            let mut t = vec![vec![0u64; k + 1]; k + 1];
            for i in (0..=k).rev() {
                for j in i..=k {
                    if j == i + 1 { t[i][j] = one(out[i]); }
                    if j == i { t[i][j] = when(ok[i], one(ns)); }
                    for _ in 0..lhs { for q in &g.rules {
                        if q.lhs == ns { continue; }
                        let mut reach = vec![false; j + 1];
                        reach[i] = true;
                        for &s in &q.rhs { let mut next = vec![false; j + 1]; for p in i..=j { for e in p..=j { next[e] |= reach[p] & bit(t[p][e], s); } } reach = next; }
                        t[i][j] |= when(reach[j], one(q.lhs));
                    } }
                }
            }
            sx::check(bit(t[0][k], 0), 13);
            sx::cover(d.most.get() > d.at || k > 1, 1);
            sx::note(k as u64);
        }
        Err(RandomGenError::LimitExceeded) => sx::note(70),
        Err(_) => { sx::cover(true, 2); sx::note(71); }
    }
} }
/// With nothing but forbidden outputs the attempts run out; with one other output they do not matter.
// params: attempts up to
entry! { fn attempts() {
    let m = sx::param(0);
    let n = sx::conc(sx::range(m + 1));
    // S ::= N x; with a way out: S ::= N x | x
    let mut c = Cfg::new();
    let [s, neg, x] = c.sym();
    c.rule(neg).rhs([]);
    let out = sx::conc(sx::range(2)) == 1;
    c.rule(s).rhs([neg, x]);
    let mut g = Draw::new(4);
    if out { c.rule(s).rhs([x]); }
    let r = c.random(s, Some(Limits { terminals: 5, negative_rule_attempts: n }), &mut g, &[NegativeRule { sym: neg, chars: "x" }], |_, _| Some('x'));
    match r {
        Ok((v, t)) => { sx::check(out && v == [x] && t == ['x'], 21); sx::cover(true, 1); sx::note(1); }
        Err(e) => { sx::check(e == RandomGenError::NegativeRuleAttemptsExceeded, 22); sx::cover(true, 2); sx::note(2); }
    }
} }
/// Draws handed out in order whatever is taken back.
#[derive(Clone)]
struct Next { list: Rc<Vec<u64>>, at: Rc<Cell<usize>> }
impl GenRange for Next {
    fn generate(&mut self, limit: f64) -> f64 {
        let i = self.at.get();
        if i >= self.list.len() { sx::assume(false); }
        self.at.set(i + 1);
        limit * (2 * sx::conc(self.list[i]) + 1) as f64 / 4.0
    }
    fn mutate_start(&mut self, _: u64) {}
}
/// Progress is taken back at one place as often as the limit says, and no more.
// params: attempts up to
entry! { fn reversals() {
    let m = sx::param(0);
    let n = sx::conc(sx::range(m + 1));
    // S ::= N T, T ::= x | y, no x after N
    let mut c = Cfg::new();
    let [s, neg, t, x, y] = c.sym();
    c.rule(neg).rhs([]);
    c.rule(s).rhs([neg, t]);
    c.rule(t).rhs([x]).rhs([y]);
    let list: Vec<u64> = (0..=m).map(|_| sx::range(2)).collect();
    let mut d = Next { list: Rc::new(list.clone()), at: Rc::new(Cell::new(0)) };
    let r = c.random(s, Some(Limits { terminals: 5, negative_rule_attempts: n }), &mut d, &[NegativeRule { sym: neg, chars: "x" }], |s, _| if s == x { Some('x') } else { None });
    let found = list[..n as usize + 1].iter().position(|&k| sx::conc(k) == 1);
    match r {
        Ok((v, t)) => { sx::check(found.is_some() && v == [y] && t.is_empty(), 25); sx::cover(found.is_some_and(|i| i > 1), 1); sx::note(1); }
        Err(e) => { sx::check(found.is_none() && e == RandomGenError::NegativeRuleAttemptsExceeded, 26); sx::cover(true, 2); sx::note(2); }
    }
} }
/// Bytes as the source of draws. params: ns, nl, rules, minlen, maxlen, bytes
entry! { fn bytes() {
    let (ns, nl, r, lo, hi, n) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
    let g = G::any(ns, nl, r, lo, hi);
    productive(&g);
    // the last byte source element is followed by zeros, so that every symbol needs to end on its first rule
    let mut first = vec![];
    let mut seen = 0;
    for r in &g.rules { if !bit(seen, r.lhs) { first.push(r.clone()); } seen |= one(r.lhs); }
    let f = G { ns, nl, rules: first };
    sx::assume(g.lhs_mask() & !f.close_all(g.terminals()) == 0);
    let c = grammar(&g, &vec![None; g.rules.len()]);
    let b: Vec<u8> = (0..n).map(|_| [0u8, 1, 84, 127, 128, 171, 254, 255][sx::conc(sx::range(8)) as usize]).collect();
    let mut src = ByteSource::new(b.clone().into_iter());
    let Ok((v, _)) = c.random(sym(0), Some(Limits { terminals: 4, negative_rule_attempts: 0 }), &mut src, &[], |_, _| None) else { sx::note(5); return };
    let out: Vec<u64> = v.iter().map(|&x| val(x)).collect();
    let lhs = g.lhs_mask().count_ones() as usize;
    sx::check(out.len() <= 4 && bit(g.derives(&out, g.terminals(), lhs), 0), 31);
    // the same bytes give the same word
    let mut src = ByteSource::new(b.into_iter());
    let again = c.random(sym(0), None, &mut src, &[], |_, _| None);
    sx::check(again.is_ok_and(|x| x.0 == v), 32);
    sx::cover(out.len() > 1, 1);
    sx::note(out.len() as u64);
} }
