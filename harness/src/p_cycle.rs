//! Cycles among unit derivations: detection, removal, rewriting.
use crate::gram::*;
use crate::sx;
use cfg_classify::cyclical::Cycles;
use cfg_grammar::WrappedRoot;

/// transitive closure of the unit rules (self-loops left out); rows of masks
pub fn unit(g: &G, nl: u64) -> Vec<u64> {
    let mut t = vec![0u64; g.ns as usize];
    let edges: Vec<(u64, u64)> = g.rules.iter().filter(|r| r.rhs.len() == 1).map(|r| (r.lhs, r.rhs[0])).collect();
    for _ in 0..nl {
        for &(a, b) in &edges { let m = when(a != b, one(b) | row(&t, b)); row_or(&mut t, a, m); }
    }
    t
}
fn rules_eq(a: &G, b: &[Rule], code: u32) {
    sx::check(a.rules.len() == b.len(), code);
    for (x, y) in a.rules.iter().zip(b) { sx::check((x.lhs == y.lhs) & all_eq(&x.rhs, &y.rhs), code); }
}
// params: ns, nl, rules, minlen, maxlen
entry! { fn cycle_find() {
    let (ns, nl, r, lo, hi) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let mut c = g.build();
    let t = unit(&g, nl);
    let cyclic = |r: &Rule| r.rhs.len() == 1 && bit(row(&t, r.rhs[0]), r.lhs);
    let mut any = false;
    for s in 0..ns { any |= bit(t[s as usize], s); }
    let mut kept = vec![];
    {
        let mut cy = Cycles::new(&c);
        let free = cy.cycle_free();
        sx::check(free == !any, 1);
        let mut n = 0;
        for (i, (rule, is)) in cy.classify().enumerate() {
            sx::check(is == cyclic(&g.rules[i]), 2);
            sx::check(val(rule.lhs) == g.rules[i].lhs, 2);
            if !is { kept.push(g.rules[i].clone()); }
            n += 1;
        }
        sx::check(n == g.rules.len(), 2);
        sx::check(cy.cycle_participants(true).count() == g.rules.len() - kept.len(), 3);
        let rest: Vec<Rule> = cy.cycle_participants(false).map(|r| Rule { lhs: val(r.lhs), rhs: r.rhs.iter().map(|&s| val(s)).collect() }).collect();
        sx::check(rest.len() == kept.len(), 3);
        for (x, y) in rest.iter().zip(&kept) { sx::check((x.lhs == y.lhs) & all_eq(&x.rhs, &y.rhs), 3); }
        sx::note(free as u64);
    }
    Cycles::new(&mut c).remove_cycles();
    rules_eq(&G::of(&c), &kept, 4);
    sx::check(Cycles::new(&c).cycle_free(), 5);
    sx::cover(any, 1);
    sx::note(kept.len() as u64);
} }
// params: ns, nl, rules, minlen, maxlen, word length
entry! { fn cycle_rewrite() {
    let (ns, nl, r, lo, hi, wl) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let mut c = g.build();
    let root = sx::range(nl);
    c.set_roots([sym(root)]);
    let last = sym(ns - 1);
    c.set_wrapped_roots(&[WrappedRoot { start_of_input: last, inner_root: sym(root), end_of_input: last, root: last }]);
    Cycles::new(&mut c).rewrite_cycles();
    sx::check(Cycles::new(&c).cycle_free(), 1);
    let h = G::of(&c);
    sx::check(h.ns == ns, 2);
    sx::check(c.roots().len() == 1, 3);
    let new_root = val(c.roots()[0]);
    sx::check(c.wrapped_roots().len() == 1 && val(c.wrapped_roots()[0].inner_root) == new_root, 7);
    let leaf = g.terminals();
    let w = word(ns, wl);
    let a = g.derives(&w, leaf, nl as usize);
    let b = h.derives(&w, leaf, nl as usize);
    sx::check(bit(a, root) == bit(b, new_root), 4);
    // symbols that kept their rules kept their language
    let hl = h.lhs_mask();
    sx::check(a & hl == b & hl, 5);
    // nothing is invented
    sx::check(hl & !g.lhs_mask() == 0, 6);
    sx::cover((new_root != root) & bit(a, root), 1);
    sx::note(a);
    sx::note(bit(b, new_root) as u64);
    sx::note(h.rules.len() as u64);
} }
