//! limit_rhs_len / add_rule / extend: length bound, language, part count.
use crate::gram::*;
use crate::sx;
use cfg_grammar::{Cfg, CfgRule};
use cfg_history::RootHistoryNode;

fn bounded(c: &Cfg, limit: u64) {
    for r in c.rules() { sx::check(r.rhs.len() as u64 <= limit, 1); }
}
/// params: ns, nl, rules, minlen, maxlen, limit, word length
entry! { fn limit() {
    let (ns, nl, r, lo, hi, limit, wl) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5), sx::param(6));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let mut c = g.build();
    c.limit_rhs_len(Some(limit as usize));
    bounded(&c, limit);
    same_language(&g, &c, ns, nl, wl);
    // idempotent
    let before = G::of(&c);
    c.limit_rhs_len(Some(limit as usize));
    let after = G::of(&c);
    sx::check(before.rules.len() == after.rules.len() && before.ns == after.ns, 4);
    bounded(&c, limit);
} }
pub fn same_language(g: &G, c: &Cfg, ns: u64, nl: u64, wl: u64) {
    let h = G::of(c);
    let w = word(ns, wl);
    let leaf = g.all_mask();
    let fresh = (h.ns - ns) as usize;
    let a = g.derives(&w, leaf, nl as usize);
    let b = h.derives(&w, leaf, nl as usize + fresh) & leaf;
    sx::cover(a & !when(wl == 1, one(w[0])) != 0, 1);
    sx::check(a == b, 2);
    sx::note(a);
    sx::note(b);
    sx::note(h.rules.len() as u64);
}

/// The rule with its parts put back together: RHS symbols that are `fresh` are replaced by their definitions.
fn expand(h: &G, from: usize, ns: u64, s: u64, out: &mut Vec<u64>) {
    if s < ns { out.push(s); return; }
    let mut n = 0;
    for (k, r) in h.rules.iter().enumerate() {
        if k >= from && r.lhs == s { n += 1; for &x in &r.rhs { expand(h, from, ns, x, out); } }
    }
    sx::check(n == 1, 11);
}
// One rule added under a limit: bound, number of parts, and the parts put back together. The LHS and the RHS
// symbols are any symbols. params: ns, maxlen, maxlimit
entry! { fn split() {
    let (ns, hi, ml) = (sx::param(0), sx::param(1), sx::param(2));
    let len = sx::conc(sx::range(hi + 1));
    let limit = 2 + sx::conc(sx::range(ml - 1));
    let lhs = sx::range(ns);
    let rhs: Vec<u64> = word(ns, len);
    let rs: Vec<_> = rhs.iter().map(|&s| sym(s)).collect();
    let g = G { ns, nl: 1, rules: vec![] };
    let mut c = g.build();
    c.limit_rhs_len(Some(limit as usize));
    let parts = c.add_rule(CfgRule::new(sym(lhs), &rs[..], RootHistoryNode::NoOp.into()));
    let h = G::of(&c);
    bounded(&c, limit);
    sx::check(parts as usize == h.rules.len(), 12);
    // no fresh symbol is left undefined or unused, and the top rule has the given LHS
    sx::check(h.ns - ns == parts as u64 - 1, 13);
    let mut tops = 0;
    let mut all = vec![];
    for r in &h.rules {
        let is_part = r.lhs >= ns;
        if !is_part {
            tops += 1;
            sx::check(r.lhs == lhs, 14);
            for &x in &r.rhs { expand(&h, 0, ns, x, &mut all); }
        }
    }
    sx::check(tops == 1, 15);
    sx::check(all_eq(&all, &rhs), 16);
    sx::note(parts as u64);
    sx::note(h.ns);
    sx::cover(parts > 2, 1);
} }
// Rules added one by one, by the builder or from another grammar, with the limit changed in between.
// params: ns, nl, rules, minlen, maxlen, word length
entry! { fn limit_history() {
    let (ns, nl, r, lo, hi, wl) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let mut c = G { ns, nl, rules: vec![] }.build();
    let mut limit = None;
    for rule in &g.rules {
        match sx::conc(sx::range(3)) {
            0 => {}
            1 => { limit = Some(2); c.limit_rhs_len(Some(2)); }
            _ => { limit = Some(3); c.limit_rhs_len(Some(3)); }
        }
        let rs: Vec<_> = rule.rhs.iter().map(|&s| sym(s)).collect();
        let before = c.rules().count();
        if sx::conc(sx::range(2)) == 0 {
            let parts = c.add_rule(CfgRule::new(sym(rule.lhs), &rs[..], RootHistoryNode::NoOp.into()));
            sx::check(c.rules().count() == before + parts as usize, 21);
        } else {
            // the other grammar shares the symbols
            let mut o = Cfg::with_sym_source(c.sym_source().clone());
            o.rule(sym(rule.lhs)).rhs(&rs[..]);
            c.extend(&o);
        }
        if let Some(l) = limit { bounded(&c, l); }
    }
    same_language(&g, &c, ns, nl, wl);
    // lifting the limit changes no rule
    let n = c.rules().count();
    c.limit_rhs_len(None);
    sx::check(c.rules().count() == n, 22);
    same_language(&g, &c, ns, nl, wl);
} }
