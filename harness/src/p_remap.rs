//! Remap: reordering of symbols by a key, removal of unused symbols, composition of mappings.
use crate::gram::*;
use crate::sx;
use cfg_grammar::{Cfg, CfgRule};
use cfg_symbol::Symbol;
use cfg_symbol::intern::Mapping;
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;

/// The grammar's rules with their histories, compared as a multiset.
type Kept = Vec<(Rule, cfg_history::earley::History)>;
fn kept(c: &Cfg) -> Kept {
    c.rules().map(|r: &CfgRule| (Rule { lhs: val(r.lhs), rhs: r.rhs.iter().map(|&s| val(s)).collect() }, r.history)).collect()
}
fn same(a: &(Rule, cfg_history::earley::History), b: &(Rule, cfg_history::earley::History)) -> bool {
    a.0.rhs.len() == b.0.rhs.len() && ((a.0.lhs == b.0.lhs) & all_eq(&a.0.rhs, &b.0.rhs)) && a.1 == b.1
}
fn names(c: &Cfg) -> Vec<Option<String>> { (0..count(c)).map(|i| c.sym_source().original_name_of(sym(i)).map(|s| s.to_string())).collect() }

/// `to`: the new number of each old symbol
fn follows(before: &Cfg, after: &Cfg, to: &[u64], live: u64, code: u32) {
    let (a, b) = (kept(before), kept(after));
    sx::check(a.len() == b.len(), code);
    let a: Kept = a.into_iter().map(|(r, h)| (Rule { lhs: row(to, r.lhs), rhs: r.rhs.iter().map(|&s| row(to, s)).collect() }, h)).collect();
    for x in &a {
        let n = a.iter().filter(|y| same(x, y)).count();
        let m = b.iter().filter(|y| same(x, y)).count();
        sx::check(n == m, code);
    }
    let (r, s) = (before.roots(), after.roots());
    sx::check(r.len() == s.len(), code + 1);
    for (x, y) in r.iter().zip(s) { sx::check(row(to, val(*x)) == val(*y), code + 1); }
    let (r, s) = (before.wrapped_roots(), after.wrapped_roots());
    sx::check(r.len() == s.len(), code + 2);
    for (x, y) in r.iter().zip(s) {
        sx::check(row(to, val(x.inner_root)) == val(y.inner_root), code + 2);
        sx::check(row(to, val(x.root)) == val(y.root), code + 2);
        sx::check(row(to, val(x.start_of_input)) == val(y.start_of_input), code + 2);
        sx::check(row(to, val(x.end_of_input)) == val(y.end_of_input), code + 2);
    }
    let (n, m) = (names(before), names(after));
    for i in 0..n.len() {
        if !bit(live, i as u64) { continue; }
        let t = sx::conc(to[i]) as usize;
        sx::check(t < m.len() && n[i] == m[t], code + 3);
    }
}
/// the mapping is a permutation of 0..n, and its two halves are inverse
fn permutation(m: &Mapping, n: u64, code: u32) -> Vec<u64> {
    sx::check(m.to_internal.len() as u64 == n && m.to_external.len() as u64 == n, code);
    let mut seen = 0;
    let mut to = vec![];
    for (i, x) in m.to_internal.iter().enumerate() {
        let Some(x) = x else { sx::fail(code); return to };
        let t = val(*x);
        sx::check(t < n && !bit(seen, t), code);
        seen |= one(t);
        let back = m.to_external.iter().enumerate().fold(n, |a, (k, e)| sx::ite(k as u64 == t, val(*e), a));
        sx::check(back == i as u64, code + 1);
        to.push(t);
    }
    to
}
fn setup(g: &G, roots: u64, wrap: bool) -> Cfg {
    let mut c = Cfg::new();
    for i in 0..g.ns { c.next_sym(match i % 3 { 0 => Some("a".into()), 1 => Some("b".into()), _ => None }); }
    for r in &g.rules {
        let rhs: Vec<Symbol> = r.rhs.iter().map(|&s| sym(s)).collect();
        c.rule(sym(r.lhs)).rhs(&rhs[..]);
    }
    let roots: Vec<Symbol> = (0..roots).map(|_| sym(sx::range(g.nl))).collect();
    c.set_roots(&roots[..]);
    if wrap { c.wrap_input(); }
    c
}
// params: ns, nl, rules, minlen, maxlen, roots, wrap, times
entry! { fn reorder() {
    let (ns, nl, r, lo, hi, nr, wrap, times) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5), sx::param(6), sx::param(7));
    let g = G::any(ns, nl, r, lo, hi);
    let mut c = setup(&g, nr, wrap == 1);
    let before = c.clone();
    let n = count(&c);
    let mut last: Vec<u64> = vec![];
    let mut remap = c.remap();
    for _ in 0..times {
        // the order is given by symbolic keys; `rank` of equal keys is not fixed
        let keys: Vec<u64> = (0..n).map(|i| if i < ns { sx::range(ns) } else { sx::conc(i % 2) * ns }).collect();
        remap.reorder_symbols(|a, b| row(&keys, val(a)).cmp(&row(&keys, val(b))));
        last = keys;
    }
    let m = remap.get_mapping();
    let to = permutation(&m, n, 11);
    sx::check(count(&c) == n, 13);
    if times == 1 {
        // sorted by the keys
        for w in m.to_external.windows(2) { sx::check(row(&last, val(w[0])) <= row(&last, val(w[1])), 14); }
    }
    follows(&before, &c, &to, !0, 20);
    sx::cover(to[0] != 0, 1);
    for &t in &to { sx::note(t); }
} }

// params: ns, nl, rules, minlen, maxlen, wrap, reorder first
entry! { fn remove_unused() {
    let (ns, nl, r, lo, hi, wrap, first) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5), sx::param(6));
    let g = G::any(ns, nl, r, lo, hi);
    // the roots have rules, as removing a root would leave nothing to translate it to
    let mut c = setup(&g, if wrap > 0 { wrap } else { 0 }, false);
    for &x in c.roots() { sx::assume(bit(g.lhs_mask(), val(x))); }
    if wrap > 0 { c.wrap_input(); }
    let before = c.clone();
    let used = { let h = G::of(&before); h.lhs_mask() | h.rhs_mask() };
    let n = count(&c);
    let mut remap = c.remap();
    if first == 1 { remap.reorder_symbols(|a, b| b.cmp(&a)); }
    remap.remove_unused_symbols();
    let m = remap.get_mapping();
    let k = used.count_ones() as u64;
    sx::check(count(&c) == k, 31);
    // exactly the used symbols have numbers below the number of symbols
    let mut to = vec![];
    let mut seen = 0;
    for i in 0..n {
        let t = m.to_internal.get(i as usize).copied().flatten().map(val).unwrap_or(63);
        let u = bit(used, i);
        sx::check(u == (t < k), 32);
        sx::check(!u | !bit(seen, t), 33);
        seen |= when(u, one(t));
        let back = m.to_external.iter().enumerate().fold(n, |a, (q, e)| sx::ite(q as u64 == t, val(*e), a));
        sx::check(!u | (back == i), 34);
        to.push(t);
    }
    follows(&before, &c, &to, used, 40);
    let h = G::of(&c);
    sx::check(h.lhs_mask() | h.rhs_mask() == h.all_mask(), 35);
    sx::check(c.unused_symbols().iter().count() == 0, 36);
    sx::check(c.sym_source().names().len() as u64 == k, 37);
    // a new symbol is the next number
    let s = c.next_sym(Some("new".into()));
    sx::check(val(s) == k, 38);
    sx::check(c.sym_source().original_name_of(s) == Some("new"), 38);
    sx::cover(k < n, 1);
    sx::note(k);
    for &t in &to { sx::note(t); }
} }
/// Mapping::translate: the combination maps as one after the other. params: external, middle, internal symbols
entry! { fn translate() {
    let (e, k, i) = (sx::param(0), sx::param(1), sx::param(2));
    let opt = |n: u64| { let v = sx::range(n + 1); if v == n { None } else { Some(sym(v)) } };
    let mut a = Mapping::new(e as usize);
    for x in &mut a.to_internal { *x = opt(k); }
    for _ in 0..k { a.to_external.push(sym(sx::range(e))); }
    let mut b = Mapping::new(k as usize);
    for x in &mut b.to_internal { *x = opt(i); }
    for _ in 0..i { b.to_external.push(sym(sx::range(k))); }
    let old = a.clone();
    a.translate(&b);
    sx::check(a.to_internal.len() as u64 == e && a.to_external.len() as u64 == i, 51);
    for x in 0..e as usize {
        let want = match old.to_internal[x] { None => None, Some(y) => b.to_internal[y.usize()] };
        sx::check(a.to_internal[x] == want, 52);
    }
    for x in 0..i as usize { sx::check(a.to_external[x] == old.to_external[b.to_external[x].usize()], 53); }
    sx::note(a.to_external.iter().fold(0, |s, &x| s * 8 + val(x)));
} }
/// Many named symbols in a chain of rules, reordered by a symbolic key, one of them in no rule. params: symbols
entry! { fn remap_many() {
    let n = sx::param(0);
    let (k, gap) = (sx::conc(sx::range(8)), sx::conc(sx::range(8)) * (n / 8) + 2);
    let key = |i: u64| match k { 0 => n - i, 1 => i, 2 => i % 7, 3 => (i * 37) % n, 4 => i ^ 1, 5 => (i + n / 2) % n, 6 => i / 64, _ => 0 };
    let name = |i: u64| format!("n{}", i);
    let mut c = Cfg::new();
    for i in 0..n { c.next_sym(Some(name(i).into())); }
    let used: Vec<u64> = (0..n).filter(|&i| i != gap).collect();
    for w in used.windows(2) { c.rule(sym(w[0])).rhs([sym(w[1])]); }
    c.set_roots([sym(1), sym(n - 2)]);
    let mut remap = c.remap();
    remap.reorder_symbols(|a, b| key(val(a)).cmp(&key(val(b))));
    let remove = sx::conc(sx::range(2)) == 1;
    if remove { remap.remove_unused_symbols(); }
    let m = remap.get_mapping();
    let left = n - remove as u64;
    sx::check(c.num_syms() as u64 == left, 61);
    let to: Vec<u64> = m.to_internal.iter().map(|x| x.map_or(n, |x| x.usize() as u64)).collect();
    sx::check(to.len() as u64 == n && m.to_external.len() as u64 >= left, 62);
    for i in 0..n {
        if remove && i == gap { sx::check(to[i as usize] >= left, 64); continue; }
        sx::check(to[i as usize] < left && m.to_external[to[i as usize] as usize].usize() as u64 == i, 63);
        let s = m.to_internal[i as usize].unwrap();
        sx::check(c.sym_source().original_name_of(s) == Some(&name(i)[..]), 65);
    }
    if !remove { for w in m.to_external.windows(2) { sx::check(key(w[0].usize() as u64) <= key(w[1].usize() as u64), 66); } }
    let mut want: Vec<(u64, u64)> = used.windows(2).map(|w| (to[w[0] as usize], to[w[1] as usize])).collect();
    let mut got: Vec<(u64, u64)> = c.rules().map(|r| { sx::check(r.rhs.len() == 1, 67); (val(r.lhs), val(r.rhs[0])) }).collect();
    want.sort(); got.sort();
    sx::check(want == got, 67);
    sx::check(c.roots().iter().map(|&s| val(s)).eq([to[1], to[n as usize - 2]]), 68);
    sx::check(c.sym_source().names().len() as u64 == left, 69);
    sx::note(to[0]);
    sx::cover(remove, 1);
} }
