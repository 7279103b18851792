//! FIRST and LAST sets, and FIRST of a string.
use crate::gram::*;
use crate::sx;
use cfg_predict_sets::{CfgSetsExt, FirstSets, LastSets, PerSymbolSets, PredictSets};

/// (mask of keys, mask of keys with "none", list of sets)
pub fn sets(real: &PerSymbolSets, ns: u64) -> (u64, u64, Vec<u64>) {
    let mut got = vec![0u64; ns as usize];
    let (mut keys, mut none) = (0, 0);
    for (s, set) in real.iter() {
        keys |= one(val(*s));
        let mut m = 0;
        for &x in set.list.iter() {
            // sorted and without duplicates
            sx::check(one(val(x)) > m, 9);
            m |= one(val(x));
        }
        row_or(&mut got, val(*s), m);
        none |= when(set.has_none, one(val(*s)));
    }
    (keys, none, got)
}
fn compare(g: &G, real: &PerSymbolSets, ns: u64, nl: u64) {
    let nullable = g.nullable_n(nl as usize);
    let oracle = g.first_n(nl);
    let (keys, none, got) = sets(real, ns);
    let lm = g.lhs_mask();
    sx::check(keys == lm, 1);
    sx::check(none == nullable & lm, 2);
    for s in 0..ns {
        sx::check(!bit(lm, s) | (got[s as usize] == oracle[s as usize]), 3);
        sx::note(got[s as usize]);
    }
    sx::cover(nullable != 0, 1);
    sx::cover(got.iter().fold(false, |a, &m| a | (m & (m.wrapping_sub(1)) != 0)), 2);
    sx::note(keys);
    sx::note(none);
}
// params: ns, nl, rules, minlen, maxlen
entry! { fn first() {
    let (ns, nl, r, lo, hi) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let c = g.build();
    compare(&g, FirstSets::new(&c).predict_sets(), ns, nl);
} }
// params: ns, nl, rules, minlen, maxlen
entry! { fn last() {
    let (ns, nl, r, lo, hi) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
    let mut g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let c = g.build();
    let real = LastSets::new(&c);
    // the grammar itself is left alone
    let same = G::of(&c);
    for (a, b) in g.rules.iter().zip(&same.rules) { sx::check((a.lhs == b.lhs) & all_eq(&a.rhs, &b.rhs), 4); }
    for r in &mut g.rules { r.rhs.reverse(); }
    compare(&g, real.predict_sets(), ns, nl);
} }
// params: ns, nl, rules, minlen, maxlen, string length
entry! { fn first_string() {
    let (ns, nl, r, lo, hi, sl) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let c = g.build();
    let s = word(ns, sl);
    let real = c.first_sets().first_set_for_string(&s.iter().map(|&x| sym(x)).collect::<Vec<_>>());
    let nullable = g.nullable_n(nl as usize);
    let f = g.first_n(nl);
    let mut m = 0;
    for &x in real.list.iter() { sx::check(one(val(x)) > m, 9); m |= one(val(x)); }
    sx::check(m == g.first_str(&f, nullable, &s), 5);
    let all = s.iter().fold(true, |a, &x| a & bit(nullable, x));
    sx::check(real.has_none == all, 6);
    sx::cover(all, 3);
    sx::note(m);
    sx::note(all as u64);
} }
