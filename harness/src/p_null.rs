//! binarize_and_eliminate_nulling_rules
use crate::gram::*;
use crate::sx;

/// params: ns, nl, rules, minlen, maxlen, word length
entry! { fn nulling() {
    let (ns, nl, r, lo, hi, wl) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let mut c = g.build();
    let n = c.binarize_and_eliminate_nulling_rules();
    check_null(&g, &c, &n, ns, nl, wl);
    // a second time there is nothing left to eliminate
    let before = G::of(&c);
    let n2 = c.binarize_and_eliminate_nulling_rules();
    let after = G::of(&c);
    sx::check(n2.rules().count() == 0, 7);
    sx::check(before.ns == after.ns && before.rules.len() == after.rules.len(), 8);
    for (x, y) in before.rules.iter().zip(&after.rules) { sx::check((x.lhs == y.lhs) & all_eq(&x.rhs, &y.rhs), 8); }
} }
fn check_null(g: &G, c: &cfg_grammar::Cfg, n: &cfg_grammar::Cfg, ns: u64, nl: u64, wl: u64) {
    let h = G::of(c);
    let z = G::of(n);
    let orig = g.all_mask();
    let fresh = h.ns - ns;
    for r in &h.rules { sx::check(r.rhs.len() >= 1 && r.rhs.len() <= 2, 1); }
    // the nulling grammar derives the empty string from exactly the nullable symbols
    let nullable = g.nullable_n(nl as usize);
    let zl = z.lhs_mask();
    let zn = z.nullable_n((nl + fresh) as usize);
    sx::check(zl & orig == nullable, 2);
    sx::check(zn == zl, 3);
    sx::check(z.rhs_mask() & !zl == 0, 4);
    // the language is preserved but for the empty string
    let term = g.terminals();
    sx::cover(nullable != 0, 1);
    let hl = h.lhs_mask();
    for len in 1..=wl {
        let w = word(ns, len);
        let a = g.derives(&w, term, nl as usize);
        let b = h.derives(&w, term, (nl + fresh) as usize) & orig;
        sx::check(a == b, 5);
        sx::cover((a & !term != 0) & (nullable != 0), 1 + len as u32);
        sx::note(a);
    }
    // no symbol that was a nonterminal is left as a leaf in a remaining rule, unless it was nulling
    sx::check(h.rhs_mask() & g.lhs_mask() & !hl & !nullable == 0, 6);
    sx::note(hl);
    sx::note(zl);
}
