//! Minimal distances to dots of rules.
use crate::gram::*;
use crate::sx;
use cfg_classify::CfgClassifyExt;
use cfg_predict_distance::{DistanceDirection, MinimalDistance};

/// Distances are 8-bit numbers to keep the queries small; all real ones are far below the infinite one.
const INF: u8 = 100;
fn sel(c: bool, a: u8, b: u8) -> u8 { b ^ ((a ^ b) & 0u8.wrapping_sub(c as u8)) }
fn min(a: u8, b: u8) -> u8 { sel(a < b, a, b) }
fn at(t: &[u8], s: u64) -> u8 { t.iter().enumerate().fold(0, |a, (i, &v)| a | sel(s == i as u64, v, 0)) }
fn lower(t: &mut [u8], s: u64, v: u8) { for (i, x) in t.iter_mut().enumerate() { *x = sel((s == i as u64) & (v < *x), v, *x); } }

/// length of the shortest string derived from each symbol
fn lengths(g: &G) -> Vec<u8> {
    let term = g.terminals();
    let mut m: Vec<u8> = (0..g.ns).map(|s| sel(bit(term, s), 1, INF)).collect();
    for _ in 0..g.nl {
        for r in &g.rules {
            let sum = r.rhs.iter().fold(0, |a, &s| min(a + at(&m, s), INF));
            lower(&mut m, r.lhs, sum);
        }
    }
    m
}
/// Distance from every dot to the targets, going forward: through the rest of the rule, into the rules of a symbol
/// (if they hold a target), or past the end of the rule, to wherever its left-hand side occurs.
fn forward(g: &G, len: &[u8], targets: &[(usize, usize)]) -> Vec<Vec<u8>> {
    let hit = |r: usize, d: usize| targets.contains(&(r, d));
    let mut inside = vec![INF; g.ns as usize];
    let mut inner: Vec<Vec<u8>> = g.rules.iter().map(|r| vec![INF; r.rhs.len() + 1]).collect();
    for _ in 0..g.nl + 1 {
        for (i, r) in g.rules.iter().enumerate() {
            let mut cur = INF;
            for d in (0..=r.rhs.len()).rev() {
                if d < r.rhs.len() { cur = min(min(cur + at(len, r.rhs[d]), at(&inside, r.rhs[d])), INF); }
                if hit(i, d) { cur = 0; }
                inner[i][d] = min(inner[i][d], cur);
            }
            lower(&mut inside, r.lhs, cur);
        }
    }
    let mut after = vec![INF; g.ns as usize];
    let mut dist = inner;
    for _ in 0..g.nl + 1 {
        for (i, r) in g.rules.iter().enumerate() {
            let n = r.rhs.len();
            dist[i][n] = min(dist[i][n], at(&after, r.lhs));
            for d in (0..n).rev() {
                let c = min(dist[i][d + 1] + at(len, r.rhs[d]), INF);
                dist[i][d] = min(dist[i][d], c);
                let to = dist[i][d + 1];
                lower(&mut after, r.rhs[d], to);
            }
        }
    }
    dist
}
fn backward(g: &G, len: &[u8], targets: &[(usize, usize)]) -> Vec<Vec<u8>> {
    let rev = G { ns: g.ns, nl: g.nl, rules: g.rules.iter().map(|r| Rule { lhs: r.lhs, rhs: r.rhs.iter().rev().copied().collect() }).collect() };
    let t: Vec<_> = targets.iter().map(|&(r, d)| (r, g.rules[r].rhs.len() - d)).collect();
    let mut d = forward(&rev, len, &t);
    for v in &mut d { v.reverse(); }
    d
}
fn productive(g: &G) {
    let mut p = g.terminals();
    for _ in 0..g.nl { for r in &g.rules { let ok = r.rhs.iter().fold(true, |a, &s| a & bit(p, s)); p |= when(ok, one(r.lhs)); } }
    sx::assume(g.all_mask() & !p == 0);
}
// params: ns, nl, rules, minlen, maxlen, direction (0 forward, 1 backward, 2 both), number of dots, after asking for others
entry! { fn distances() {
    let (ns, nl, r, lo, hi, dir, nd) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5), sx::param(6));
    let g = G::any(ns, nl, r, lo, hi);
    productive(&g);
    let dots: Vec<(usize, usize)> = (0..nd).map(|_| {
        let i = sx::conc(sx::range(r)) as usize;
        (i, sx::conc(sx::range(g.rules[i].rhs.len() as u64 + 1)) as usize)
    }).collect();
    let c = g.build();
    let mut m = MinimalDistance::new(&c);
    // what was asked before does not matter
    if sx::param(7) == 1 {
        let i = sx::conc(sx::range(r)) as usize;
        let other = (i, sx::conc(sx::range(g.rules[i].rhs.len() as u64 + 1)) as usize);
        m.minimal_distances(&[other], if sx::conc(sx::range(2)) == 1 { DistanceDirection::Symmetric } else { DistanceDirection::Forward });
    }
    let d = m.minimal_distances(&dots, match dir { 0 => DistanceDirection::Forward, 1 => DistanceDirection::Backward, _ => DistanceDirection::Symmetric }).to_vec();
    sx::check(m.distances() == &d[..], 1);
    let len = lengths(&g);
    let f = if dir == 1 { vec![] } else { forward(&g, &len, &dots) };
    let b = if dir == 0 { vec![] } else { backward(&g, &len, &dots) };
    sx::check(d.len() == g.rules.len(), 2);
    let (mut ok, mut seen) = (true, false);
    for (i, row) in d.iter().enumerate() {
        sx::check(row.len() == g.rules[i].rhs.len() + 1, 3);
        for (k, x) in row.iter().enumerate() {
            let want = match dir { 0 => f[i][k], 1 => b[i][k], _ => min(f[i][k], b[i][k]) };
            ok &= match x { None => want == INF, Some(x) => *x == want as u32 };
            seen |= (want > 1) & (want < INF);
            sx::note(want as u64);
        }
    }
    sx::check(ok, 4);
    sx::cover(seen, 1);
} }
/// Recursive rules with distances. params: ns, nl, rules, minlen, maxlen
entry! { fn recursive_distances() {
    let (ns, nl, r, lo, hi) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
    let g = G::any(ns, nl, r, lo, hi);
    productive(&g);
    let c = g.build();
    let rec = c.recursion();
    let plain: Vec<_> = rec.recursive_rules().collect();
    let dist: Vec<_> = rec.minimal_distances().collect();
    sx::check(plain.len() == dist.len(), 11);
    // the dots before recursive symbols
    let mut reach: Vec<u64> = (0..ns).map(|s| g.rules.iter().fold(0, |m, r| m | r.rhs.iter().fold(0, |m, &x| m | when(r.lhs == s, one(x))))).collect();
    for _ in 0..ns { for s in 0..ns as usize { for t in 0..ns as usize { reach[s] |= when(bit(reach[s], t as u64), reach[t]); } } }
    let mut dots = vec![];
    let mut rules = vec![];
    for (i, r) in g.rules.iter().enumerate() {
        let mut any = false;
        for (k, &s) in r.rhs.iter().enumerate() {
            if bit(row(&reach, s), r.lhs) | (s == r.lhs) { dots.push((i, k)); any = true; }
        }
        if any { rules.push(i); }
    }
    let len = lengths(&g);
    let (f, b) = (forward(&g, &len, &dots), backward(&g, &len, &dots));
    sx::check(dist.len() == rules.len(), 12);
    for ((x, y), &i) in plain.iter().zip(&dist).zip(&rules) {
        sx::check(std::ptr::eq(x.rule, y.rule) && x.recursion == y.recursion && x.distances.is_none(), 13);
        let n = g.rules[i].rhs.len();
        let Some((p, q)) = y.distances else { sx::fail(14); return };
        for (v, w) in [(p, min(f[i][0], b[i][0])), (q, min(f[i][n], b[i][n]))] {
            sx::check(sx::ite(w == INF, u32::MAX as u64, w as u64) == v as u64, 15);
        }
        sx::note(p as u64);
    }
    sx::cover(!rules.is_empty(), 1);
} }
