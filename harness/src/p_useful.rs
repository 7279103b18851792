//! Usefulness of rules.
use crate::gram::*;
use crate::sx;
use cfg_classify::CfgClassifyExt;

fn reach(g: &G, from: u64, use_rule: impl Fn(&Rule) -> bool) -> u64 {
    let mut m = from;
    for _ in 0..g.nl {
        for r in &g.rules {
            let go = bit(m, r.lhs) & use_rule(r);
            for &s in &r.rhs { m |= when(go, one(s)); }
        }
    }
    m
}
// params: ns, nl, rules, minlen, maxlen, roots
entry! { fn useful() {
    let (ns, nl, r, lo, hi, nr) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
    let g = G::any(ns, nl, r, lo, hi);
    let mut c = g.build();
    let roots: Vec<u64> = (0..nr).map(|_| sx::range(ns)).collect();
    let rm = roots.iter().fold(0, |m, &s| m | one(s));
    let unused = g.all_mask() & !g.lhs_mask() & !g.rhs_mask();
    let prod = close_n(&g, g.terminals());
    let ok = |r: &Rule| r.rhs.iter().fold(true, |a, &s| a & bit(prod, s));
    let reachable = reach(&g, rm, |_| true) | unused;
    let rs: Vec<_> = roots.iter().map(|&x| sym(x)).collect();
    // roots can also be added one after another
    let u = if nr > 2 { let mut u = c.usefulness_with_roots(&rs[..1]); u.reachable(&rs[1..2]); u.reachable(&rs[2..]); u } else if nr > 1 { c.usefulness_with_roots(&rs) } else { c.set_roots(&rs); c.usefulness() };
    let mut right = true;
    for s in 0..ns { right &= u.productivity(sym(s)) == bit(prod | unused, s); }
    sx::check(right, 1);
    sx::check(u.all_productive() == (prod | unused == g.all_mask()), 2);
    sx::check(u.all_reachable() == (reachable == g.all_mask()), 3);
    sx::check(u.all_useful() == ((prod | unused) & reachable == g.all_mask()), 4);
    let mut useless = 0u64;
    let mut right = true;
    for (i, rule) in c.rules().enumerate() {
        let f = u.usefulness(rule).usefulness();
        right &= f.productive == ok(&g.rules[i]);
        right &= f.reachable == bit(reachable, g.rules[i].lhs);
        useless += !(f.productive & f.reachable) as u64;
    }
    sx::check(right, 5);
    let mut n = 0;
    for x in u.useless_rules(&c) {
        n += 1;
        sx::check(!(x.usefulness().productive & x.usefulness().reachable), 7);
    }
    sx::check(n == useless, 7);
    sx::cover(useless == 0, 1);
    sx::cover((useless != 0) & (useless < r), 2);
    sx::note(prod);
    sx::note(reachable);
    sx::note(n);
} }
fn close_n(g: &G, seed: u64) -> u64 {
    let mut m = seed;
    for _ in 0..g.nl { for r in &g.rules { let ok = r.rhs.iter().fold(true, |a, &s| a & bit(m, s)); m |= when(ok, one(r.lhs)); } }
    m
}
// params: ns, nl, rules, minlen, maxlen, roots, word length
entry! { fn proper() {
    let (ns, nl, r, lo, hi, nr, wl) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5), sx::param(6));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let mut c = g.build();
    let roots: Vec<u64> = (0..nr).map(|_| sx::range(nl)).collect();
    let rm = roots.iter().fold(0, |m, &s| m | one(s));
    c.set_roots(roots.iter().map(|&x| sym(x)).collect::<Vec<_>>());
    let was_proper = c.make_proper();
    let h = G::of(&c);
    let prod = close_n(&g, g.terminals());
    let ok = |r: &Rule| r.rhs.iter().fold(true, |a, &s| a & bit(prod, s));
    let reachable = reach(&g, rm, ok);
    // exactly the useful rules are left, in their order
    let mut k = 0;
    for r in &g.rules {
        let here = k < h.rules.len() && r.rhs.len() == h.rules[k].rhs.len() && (r.lhs == h.rules[k].lhs) & all_eq(&r.rhs, &h.rules[k].rhs);
        let useful = ok(r) & bit(reachable, r.lhs);
        if useful { sx::check(here, 1); k += 1; }
    }
    sx::check(k == h.rules.len(), 2);
    sx::check(was_proper == (k == g.rules.len()), 3);
    let w = word(ns, wl);
    let a = g.derives(&w, g.terminals(), nl as usize);
    let b = h.derives(&w, g.terminals(), nl as usize);
    sx::check(a & rm == b & rm, 4);
    sx::check(c.roots().len() as u64 == nr, 5);
    for (x, y) in c.roots().iter().zip(&roots) { sx::check(val(*x) == *y, 5); }
    // a second time there is nothing to do
    let again = c.make_proper();
    let hu = G::of(&c);
    sx::check(hu.rules.len() == k, 6);
    sx::check(again | (h.rules.len() == 0), 6);
    sx::cover(a & rm != 0, 1);
    sx::cover((k != g.rules.len()) & (k != 0), 2);
    sx::note(k as u64);
    sx::note(a & rm);
    sx::note(was_proper as u64);
} }
