//! FOLLOW sets.
use crate::gram::*;
use crate::p_first::sets;
use crate::sx;
use cfg_predict_sets::{CfgSetsExt, PredictSets};

/// follow[s], and the mask of symbols that can be followed by the end of input
pub fn follow(g: &G, nl: u64, roots: u64) -> (Vec<u64>, u64) {
    let nullable = g.nullable_n(nl as usize);
    let first = g.first_n(nl);
    let mut f = vec![0u64; g.ns as usize];
    let mut end = roots & g.lhs_mask();
    // what follows directly inside a rule
    for r in &g.rules {
        for i in 0..r.rhs.len() { let m = g.first_str(&first, nullable, &r.rhs[i + 1..]); row_or(&mut f, r.rhs[i], m); }
    }
    for _ in 0..nl {
        for r in &g.rules {
            let up = row(&f, r.lhs);
            let e = bit(end, r.lhs);
            let mut tail = true;
            for &s in r.rhs.iter().rev() {
                row_or(&mut f, s, when(tail, up));
                end |= when(tail & e, one(s));
                tail &= bit(nullable, s);
            }
        }
    }
    (f, end)
}
// params: ns, nl, rules, minlen, maxlen, roots
entry! { fn follow_sets() {
    let (ns, nl, r, lo, hi, nr) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let mut c = g.build();
    let roots: Vec<u64> = (0..nr).map(|_| sx::range(ns)).collect();
    c.set_roots(roots.iter().map(|&x| sym(x)).collect::<Vec<_>>());
    let real = c.follow_sets();
    let (keys, none, got) = sets(real.predict_sets(), ns);
    let lm = g.lhs_mask();
    let (f, end) = follow(&g, nl, roots.iter().fold(0, |m, &s| m | one(s)));
    sx::check(keys == lm, 1);
    sx::check(none == end & lm, 2);
    for s in 0..ns { sx::check(!bit(lm, s) | (got[s as usize] == f[s as usize]), 3); sx::note(got[s as usize]); }
    sx::cover(got.iter().fold(false, |a, &m| a | (m & (m.wrapping_sub(1)) != 0)), 1);
    sx::cover(none & none.wrapping_sub(1) != 0, 2);
    sx::note(keys);
    sx::note(none);
} }
