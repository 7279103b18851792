//! LL(1) classification.
use crate::gram::*;
use crate::p_follow::follow;
use crate::sx;
use cfg_classify::CfgClassifyExt;
use cfg_classify::ll::LlNonterminalClass;

// params: ns, nl, rules, minlen, maxlen, roots
entry! { fn ll() {
    let (ns, nl, r, lo, hi, nr) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let mut c = g.build();
    let roots: Vec<u64> = (0..nr).map(|_| sx::range(nl)).collect();
    c.set_roots(roots.iter().map(|&x| sym(x)).collect::<Vec<_>>());
    let table = c.ll_parse_table();
    let classes = table.classify();
    // oracle: the lookaheads that select each rule (bit ns: end of input)
    let nullable = g.nullable_n(nl as usize);
    let first = g.first_n(nl);
    let (fol, end) = follow(&g, nl, roots.iter().fold(0, |m, &s| m | one(s)));
    let sel: Vec<u64> = g.rules.iter().map(|r| {
        let nul = r.rhs.iter().fold(true, |a, &x| a & bit(nullable, x));
        g.first_str(&first, nullable, &r.rhs) | when(nul, row(&fol, r.lhs) | when(bit(end, r.lhs), one(ns)))
    }).collect();
    let (mut present, mut conflict) = (0, 0);
    for i in 0..g.rules.len() {
        present |= when(sel[i] != 0, one(g.rules[i].lhs));
        for j in 0..i { conflict |= when((g.rules[i].lhs == g.rules[j].lhs) & (sel[i] & sel[j] != 0), one(g.rules[i].lhs)); }
    }
    for _ in 0..nl { for r in &g.rules { let any = r.rhs.iter().fold(false, |a, &x| a | bit(conflict, x)); conflict |= when(any, one(r.lhs)); } }
    let (mut keys, mut cf) = (0, 0);
    for (s, class) in classes.classes() {
        keys |= one(val(*s));
        cf |= when(*class == LlNonterminalClass::ContextFree, one(val(*s)));
    }
    sx::check(keys == present, 1);
    sx::check(cf == conflict & present, 2);
    sx::cover(conflict != 0, 1);
    sx::cover((conflict == 0) & (nullable != 0), 2);
    sx::note(keys);
    sx::note(cf);
} }
