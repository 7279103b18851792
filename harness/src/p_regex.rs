//! Regular expressions as grammars.
use crate::gram::*;
use crate::p_seq::{Eval, INF, norm};
use crate::sx;
use cfg_grammar::Cfg;
use cfg_regexp_logic::CfgRegexpExt;

/// letters of the words: set of letters as a mask
const LETTERS: [char; 4] = ['a', 'g', '\u{e9}', '\u{1f600}'];
#[derive(Clone)]
enum Re { Set(u64), Cat(Vec<Re>), Alt(Vec<Re>), Rep(Box<Re>, u64, Option<u64>), Group(Box<Re>) }
const ATOMS: [(&str, u64); 13] = [("a", 1), ("g", 2), ("[ag]", 3), ("[^a]", 14), ("(?s:.)", 15), ("\u{e9}", 4), ("\u{1f600}", 8), ("[a-z]", 3), ("\\w", 7), (".", 15), ("(?i:G)", 2), ("\\PL", 8), ("[[:alpha:]&&[^g]]", 1)];
const REPS: [(&str, u64, Option<u64>); 10] = [("*", 0, None), ("+", 1, None), ("?", 0, Some(1)), ("{2}", 2, Some(2)), ("{1,3}", 1, Some(3)), ("{0,2}", 0, Some(2)), ("{2,}", 2, None), ("*?", 0, None), ("{0}", 0, Some(0)), ("{3,4}", 3, Some(4))];

/// any expression with `ops` operators
fn any(ops: u64, atoms: u64, reps: u64) -> Re {
    if ops == 0 { return Re::Set(sx::conc(sx::range(atoms))); }
    match sx::conc(sx::range(5)) {
        0 => Re::Group(Box::new(any(ops - 1, atoms, reps))),
        k @ (1 | 2) => {
            let left = sx::conc(sx::range(ops));
            let v = vec![any(left, atoms, reps), any(ops - 1 - left, atoms, reps)];
            if k == 1 { Re::Cat(v) } else { Re::Alt(v) }
        }
        3 => { let r = sx::conc(sx::range(reps)); Re::Rep(Box::new(any(ops - 1, atoms, reps)), r, None) }
        _ => { let v = vec![any(ops - 1, atoms, reps), Re::Cat(vec![])]; Re::Alt(if sx::conc(sx::range(2)) == 1 { v } else { v.into_iter().rev().collect() }) }
    }
}
fn text(r: &Re, o: &mut String) {
    match r {
        Re::Set(k) => o.push_str(ATOMS[*k as usize].0),
        Re::Cat(v) => for x in v { paren(x, o, matches!(x, Re::Alt(_))); },
        Re::Alt(v) => for (i, x) in v.iter().enumerate() { if i > 0 { o.push('|'); } text(x, o); },
        Re::Rep(x, k, _) => { paren(x, o, !matches!(**x, Re::Set(_) | Re::Group(_))); o.push_str(REPS[*k as usize].0); }
        Re::Group(x) => { o.push('('); text(x, o); o.push(')'); }
    }
}
fn paren(r: &Re, o: &mut String, p: bool) { if p { o.push_str("(?:"); text(r, o); o.push(')'); } else { text(r, o); } }
/// which spans of the word the expression matches: `m[i][j]`
fn spans(r: &Re, w: &[u64]) -> Vec<Vec<bool>> {
    let n = w.len();
    let empty = |t: bool| { let mut m = vec![vec![false; n + 1]; n + 1]; if t { for i in 0..=n { m[i][i] = true; } } m };
    let cat = |a: &Vec<Vec<bool>>, b: &Vec<Vec<bool>>| { let mut m = empty(false); for i in 0..=n { for k in i..=n { for j in k..=n { m[i][j] |= a[i][k] & b[k][j]; } } } m };
    let or = |a: &Vec<Vec<bool>>, b: &Vec<Vec<bool>>| { let mut m = a.clone(); for i in 0..=n { for j in i..=n { m[i][j] |= b[i][j]; } } m };
    match r {
        Re::Set(k) => { let mut m = empty(false); for i in 0..n { m[i][i + 1] = bit(ATOMS[*k as usize].1, w[i]); } m }
        Re::Cat(v) => v.iter().fold(empty(true), |m, x| cat(&m, &spans(x, w))),
        Re::Alt(v) => v.iter().fold(empty(false), |m, x| or(&m, &spans(x, w))),
        Re::Group(x) => spans(x, w),
        Re::Rep(x, k, _) => {
            let (_, lo, hi) = REPS[*k as usize];
            let x = spans(x, w);
            let mut m = empty(true);
            for _ in 0..lo { m = cat(&m, &x); }
            let mut all = m.clone();
            for _ in 0..hi.map_or(n as u64, |h| h - lo) { m = cat(&m, &x); all = or(&all, &m); }
            all
        }
    }
}
fn fuse(w: u64) -> Vec<u64> { let n = sx::conc(sx::range(w + 1)); (0..n).map(|_| sx::range(LETTERS.len() as u64)).collect() }
// params: operators, atoms, repetitions, word length up to
entry! { fn regexp() {
    let (ops, atoms, reps, wl) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
    let r = any(ops, atoms, reps);
    decide(&r, || fuse(wl));
} }
/// the grammar of an expression derives a word if and only if the expression matches it
fn decide(r: &Re, word: impl FnOnce() -> Vec<u64>) {
    let mut t = String::new();
    text(r, &mut t);
    let Ok((c, map)) = Cfg::from_regexp(&t) else { sx::fail(1); return };
    let g = G::of(&c);
    sx::check(g.ns <= 40 && c.roots().len() == 1, 2);
    // which letters a terminal stands for (a literal's class reaches one further, see C22; no letter is next to another)
    let mut sets = vec![0u64; g.ns as usize];
    for (class, &s) in &map.classes { for (a, b) in class.iter() { for (i, &l) in LETTERS.iter().enumerate() { if a <= l && l <= b { sets[val(s) as usize] |= one(i as u64); } } } }
    let classes = map.classes.values().fold(0, |m, &s| m | one(val(s)));
    sx::check(map.classes.len() as u32 == classes.count_ones(), 3);
    // terminals are the classes
    sx::check(g.lhs_mask() & classes == 0 && (g.rhs_mask() | one(val(c.roots()[0]))) & !g.lhs_mask() & !classes == 0, 4);
    let w = word();
    let m = spans(r, &w);
    let n = w.len();
    // the same as `G::spans`, with classes for letters
    let lhs = g.lhs_mask().count_ones() as usize;
    let mut tab = vec![vec![0u64; n + 1]; n + 1];
    let nul = g.nullable_n(lhs);
    for i in (0..=n).rev() {
        tab[i][i] = nul;
        for j in i + 1..=n {
            if j == i + 1 { for s in 0..g.ns { tab[i][j] |= when(bit(classes, s) & bit(sets[s as usize], w[i]), one(s)); } }
            for _ in 0..lhs { for q in &g.rules {
                let mut reach = vec![false; j + 1];
                reach[i] = true;
                for &s in &q.rhs { let mut next = vec![false; j + 1]; for p in i..=j { for e in p..=j { next[e] |= reach[p] & bit(tab[p][e], s); } } reach = next; }
                tab[i][j] |= when(reach[j], one(q.lhs));
            } }
        }
    }
    let got = bit(tab[0][n], val(c.roots()[0]));
    sx::check(got == m[0][n], 5);
    sx::cover(got & (n > 1), 1);
    sx::note(got as u64);
}
// Many parts next to each other, or many alternatives; one of them is any atom, repeated or not. params: parts, repetitions
entry! { fn regexp_wide() {
    let (n, reps) = (sx::param(0), sx::param(1));
    let alt = sx::conc(sx::range(2)) == 1;
    let p = [0, 1, n / 2, n - 1][sx::conc(sx::range(4)) as usize];
    let atom = Re::Set(sx::conc(sx::range(ATOMS.len() as u64)));
    let k = sx::conc(sx::range(reps + 1));
    let part = |i: u64| if i == p { if k == 0 { atom.clone() } else { Re::Rep(Box::new(atom.clone()), k - 1, None) } } else { Re::Set(i % 3) };
    // each alternative is told from the others by how often its letter stands there
    let r = if alt { Re::Alt((0..n).map(|i| Re::Cat((0..=i / 3).map(|_| part(i)).collect())).collect()) } else { Re::Cat((0..n).map(part).collect()) };
    decide(&r, || {
        // a word of the expression, with another letter at one place, and one more or less
        let mut w: Vec<u64> = if alt { vec![sx::range(4); (1 + sx::conc(sx::range(n / 3 + 2))) as usize] } else { (0..n).map(|i| i & 1).collect() };
        let q = [0, 1, w.len() as u64 / 2, w.len() as u64 - 1][sx::conc(sx::range(4)) as usize].min(w.len() as u64 - 1);
        w[q as usize] = sx::range(4);
        if !alt { match sx::conc(sx::range(3)) { 0 => (), 1 => { w.insert(p as usize, sx::range(4)); } _ => { w.remove(p as usize); } } }
        w
    });
} }
// A class repeated any number of times in a range of large numbers. params: exponent
entry! { fn regexp_count() {
    let k = sx::param(0);
    let near = |x: u64| ((1u64 << x) + sx::conc(sx::range(4))) - 2;
    let lo = match sx::conc(sx::range(2)) { 0 => sx::conc(sx::range(3)), _ => near(k) };
    let hi = match sx::conc(sx::range(3)) { 0 => None, 1 => Some(near(k)), _ => Some(near(k + 1)) };
    sx::assume(hi.is_none_or(|e| lo <= e));
    let t = match hi { None => format!("[ag]{{{lo},}}"), Some(e) if e == lo => format!("[ag]{{{lo}}}"), Some(e) => format!("[ag]{{{lo},{e}}}") };
    let Ok((c, map)) = Cfg::from_regexp(&t) else { sx::fail(21); return };
    let g = G::of(&c);
    sx::check(map.classes.len() <= 1 && c.roots().len() == 1, 22);
    // nothing can stand for a repetition of zero times
    let item = map.classes.values().next().map_or(1 << 20, |&s| val(s));
    let mut e = Eval { g: &g, item, sep: None, memo: vec![None; g.ns as usize], odd: false, bad: false };
    let l = e.sym(val(c.roots()[0]), 0);
    if e.odd { return; }
    sx::cover(true, 1);
    sx::check(l.empty == (lo == 0) && (1..4).all(|i| l.by[i].is_empty()), 23);
    sx::check(l.by[0] == norm(vec![(lo.max(1), hi.unwrap_or(INF))]), 24);
    sx::note(g.rules.len() as u64);
} }
// Text that is no regular expression is an error. params: none
entry! { fn not_regexp() {
    let bad = ["(", ")", "[", "*", "a{2,1}", "\\", "[z-a]", "(?P<x", "a**b|("];
    let t = bad[sx::conc(sx::range(bad.len() as u64)) as usize];
    let r = Cfg::from_regexp(t);
    sx::check(r.is_err(), 11);
    sx::note(1);
} }
