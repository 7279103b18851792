//! Operations on whole grammars: reversal, sorting, duplicates, comparison, wrapping, columns, text.
use crate::gram::*;
use crate::sx;
use cfg_grammar::Cfg;

fn rule_eq(a: &Rule, b: &Rule) -> bool { a.rhs.len() == b.rhs.len() && (a.lhs == b.lhs) & all_eq(&a.rhs, &b.rhs) }
/// how often the rule occurs
fn count(g: &G, r: &Rule) -> u64 { g.rules.iter().fold(0, |n, x| n + rule_eq(x, r) as u64) }
/// lexicographic order of (lhs, rhs), without branching
fn less_eq(a: &Rule, b: &Rule) -> bool {
    let mut lt = a.lhs < b.lhs;
    let mut eq = a.lhs == b.lhs;
    for i in 0..a.rhs.len().min(b.rhs.len()) {
        lt |= eq & (a.rhs[i] < b.rhs[i]);
        eq &= a.rhs[i] == b.rhs[i];
    }
    lt | (eq & (a.rhs.len() <= b.rhs.len()))
}
fn same_rules(h: &G, g: &G, code: u32) {
    sx::check(h.rules.len() == g.rules.len(), code);
    for (a, b) in h.rules.iter().zip(&g.rules) { sx::check(rule_eq(a, b), code); }
}
// params: ns, nl, rules, minlen, maxlen, word length
entry! { fn reversal() {
    let (ns, nl, r, lo, hi, wl) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl as usize;
    let mut c = g.build();
    c.reverse();
    let h = G::of(&c);
    let w = word(ns, wl);
    let mut v = w.clone();
    v.reverse();
    let leaf = g.terminals();
    let a = g.derives(&w, leaf, nl);
    let b = h.derives(&v, leaf, nl);
    sx::check(a == b, 1);
    sx::check(h.ns == ns, 1);
    sx::cover(a & !leaf != 0, 1);
    c.reverse();
    same_rules(&G::of(&c), &g, 2);
    sx::note(a);
} }
// params: ns, nl, rules, minlen, maxlen
entry! { fn sorting() {
    let (ns, nl, r, lo, hi) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
    let g = G::any(ns, nl, r, lo, hi);
    // removal of consecutive duplicates, in the given order
    let mut c = g.build();
    c.dedup();
    let h = G::of(&c);
    let mut k = 0;
    for i in 0..g.rules.len() {
        let dup = i > 0 && rule_eq(&g.rules[i], &g.rules[i - 1]);
        if !dup {
            sx::check(k < h.rules.len() && rule_eq(&h.rules[k], &g.rules[i]), 11);
            k += 1;
        }
    }
    sx::check(k == h.rules.len(), 12);
    // sorting: a sorted permutation
    let mut c = g.build();
    c.sort();
    let h = G::of(&c);
    sx::check(h.rules.len() == g.rules.len(), 13);
    for r in &g.rules { sx::check(count(&g, r) == count(&h, r), 14); }
    for w in h.rules.windows(2) { sx::check(less_eq(&w[0], &w[1]), 15); }
    // both: each rule once
    c.dedup();
    let d = G::of(&c);
    for r in &g.rules { sx::check(count(&d, r) == 1, 16); }
    let mut distinct = 0;
    for (i, r) in g.rules.iter().enumerate() {
        distinct += !g.rules[..i].iter().fold(false, |a, x| a | rule_eq(x, r)) as usize;
    }
    sx::check(d.rules.len() == distinct, 17);
    // sorting by a key keeps the order of equal keys
    let mut c = g.build();
    c.sort_by(|a, b| a.lhs.cmp(&b.lhs));
    let h = G::of(&c);
    for l in 0..g.nl {
        let mut i = 0;
        for r in &h.rules {
            if r.lhs == l {
                while i < g.rules.len() && g.rules[i].lhs != l { i += 1; }
                sx::check(i < g.rules.len() && rule_eq(&g.rules[i], r), 18);
                i += 1;
            }
        }
    }
    for w in h.rules.windows(2) { sx::check(w[0].lhs <= w[1].lhs, 18); }
    sx::cover(distinct < g.rules.len(), 1);
    sx::note(distinct as u64);
} }
// params: ns, nl, rules, minlen, maxlen
entry! { fn equivalence() {
    let (ns, nl, r, lo, hi) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
    let r1 = sx::conc(sx::range(r + 1));
    let r2 = sx::conc(sx::range(r + 1));
    let (a, b) = (G::any(ns, nl, r1, lo, hi), G::any(ns, nl, r2, lo, hi));
    let eq = a.rules.len() == b.rules.len() && a.rules.iter().zip(&b.rules).fold(true, |e, (x, y)| e & rule_eq(x, y));
    let (ca, cb) = (a.build(), b.build());
    sx::check(ca.equivalent(&cb) == eq, 21);
    sx::check(cb.equivalent(&ca) == eq, 21);
    sx::check(ca.equivalent(&ca.clone()), 22);
    sx::cover(eq & (r1 > 0), 1);
    sx::note(eq as u64);
} }
// params: ns, nl, rules, minlen, maxlen, roots, limit (0: none), word length
entry! { fn wrapping() {
    let (ns, nl, r, lo, hi, nr, limit, wl) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5), sx::param(6), sx::param(7));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl as usize;
    let mut c = g.build();
    if limit > 0 { c.limit_rhs_len(Some(limit as usize)); }
    let plain = G::of(&c);
    sx::check(c.is_empty() == (g.rules.len() == 0), 31);
    let roots: Vec<u64> = (0..nr).map(|_| sx::range(ns)).collect();
    sx::check(!c.has_roots(), 32);
    c.set_roots(roots.iter().map(|&s| sym(s)).collect::<Vec<_>>());
    sx::check(c.has_roots() == (nr > 0), 32);
    c.wrap_input();
    let h = G::of(&c);
    sx::check(c.wrapped_roots().len() as u64 == nr && c.roots().len() as u64 == nr, 33);
    // the rules that were there are untouched
    for (i, r) in plain.rules.iter().enumerate() { sx::check(i < h.rules.len() && rule_eq(&h.rules[i], r), 34); }
    let mut seen = g_mask(plain.ns);
    let fresh = (h.ns - ns) as usize;
    let w = word(ns, wl);
    let inner = g.derives(&w, g.terminals(), nl);
    for (i, x) in c.wrapped_roots().iter().enumerate() {
        let (root, start, end) = (val(x.root), val(x.start_of_input), val(x.end_of_input));
        sx::check(val(x.inner_root) == roots[i], 35);
        sx::check(val(c.roots()[i]) == root, 36);
        // three fresh symbols, each only once
        for s in [root, start, end] {
            sx::check((s >= plain.ns) & !bit(seen, s), 37);
            seen |= one(s);
        }
        sx::check(c.sym_source().original_name_of(x.root) == Some("root"), 38);
        // wrapped root derives start, the word, end exactly when the root derives the word
        let mut t = vec![start];
        t.extend(&w);
        t.push(end);
        let leaf = (h.all_mask() & !h.lhs_mask()) | g.terminals();
        let d = h.derives(&t, leaf, nl + fresh);
        sx::check(bit(d, root) == bit(inner, roots[i]), 39);
        sx::check(!bit(h.derives(&w, leaf, nl + fresh), root), 40);
        sx::cover(bit(d, root), 1);
    }
    // a wrapped grammar counts as empty while nothing but the wrapping is there
    if nr > 0 { sx::check(c.is_empty() == (g.rules.len() == 0), 41); }
    if nr > 0 && limit == 0 {
        let mut d = c.clone();
        d.limit_rhs_len(Some(2));
        sx::check(d.is_empty() == (g.rules.len() == 0), 44);
    }
    // wrapping other roots once more forgets the first wrapping
    let again = sx::range(ns);
    c.set_roots([sym(again)]);
    c.wrap_input();
    sx::check(c.wrapped_roots().len() == 1 && c.roots().len() == 1, 42);
    let x = c.wrapped_roots()[0];
    sx::check((val(x.inner_root) == again) & (val(x.root) >= h.ns) & (val(x.root) == val(c.roots()[0])), 43);
    sx::note(h.ns);
    sx::note(inner);
} }
fn g_mask(n: u64) -> u64 { if n >= 64 { !0 } else { (1 << n) - 1 } }
// params: ns, nl, rules, minlen, maxlen
entry! { fn columns() {
    let (ns, nl, r, lo, hi) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
    let g = G::any(ns, nl, r, lo, hi);
    let c = g.build();
    for col in 0..=hi as usize + 1 {
        let mut n = 0;
        for (i, d) in c.column(col).enumerate() {
            let rule = &g.rules[i];
            sx::check(val(d.lhs) == rule.lhs, 51);
            let pre = if col > 0 { rule.rhs.get(col - 1) } else { None };
            let post = rule.rhs.get(col);
            sx::check(d.predot.is_some() == pre.is_some() && d.postdot.is_some() == post.is_some(), 52);
            if let (Some(a), Some(b)) = (d.predot, pre) { sx::check(val(a) == *b, 53); }
            if let (Some(a), Some(b)) = (d.postdot, post) { sx::check(val(a) == *b, 54); }
            n += 1;
        }
        sx::check(n == g.rules.len(), 55);
    }
    // retain and clear
    let keep = sx::range(1 << r);
    let mut c2 = c.clone();
    let mut i = 0;
    c2.retain(|_| { i += 1; bit(keep, i - 1) });
    let h = G::of(&c2);
    let mut k = 0;
    for (i, r) in g.rules.iter().enumerate() {
        if bit(keep, i as u64) {
            sx::check(k < h.rules.len() && rule_eq(&h.rules[k], r), 56);
            k += 1;
        }
    }
    sx::check(k == h.rules.len(), 57);
    same_rules(&G::of(&c), &g, 58);
    c2.clear_rules();
    sx::check(c2.rules().count() == 0 && crate::gram::count(&c2) == ns, 59);
    sx::check(c2.is_empty(), 59);
    sx::note(k as u64);
} }
// The text of a grammar says which rules it has. params: ns (at most 10), nl, rules, minlen, maxlen, named
entry! { fn text() {
    let (ns, nl, r, lo, hi, named) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
    let g = G::any(ns, nl, r, lo, hi);
    let mut c = Cfg::new();
    let which = if named == 1 { sx::conc(sx::range(ns)) } else { ns };
    // numbers of two digits from the offset on, which is a multiple of ten
    let tens = offset() / 10;
    for _ in 0..offset() { c.next_sym(None); }
    for i in 0..ns { c.next_sym(if i == which { Some("nm".into()) } else { None }); }
    for r in &g.rules {
        let rhs: Vec<_> = r.rhs.iter().map(|&s| sym(s)).collect();
        c.rule(sym(r.lhs)).rhs(&rhs[..]);
    }
    let text = c.stringify_to_bnf();
    let mut at = 0;
    let b = text.as_bytes();
    let mut eat = |s: &[u8]| {
        let ok = at + s.len() <= b.len();
        sx::check(ok, 61);
        if ok { for (i, x) in s.iter().enumerate() { sx::check(b[at + i] == *x, 62); } at += s.len(); }
    };
    let mut symbol = |eat: &mut dyn FnMut(&[u8]), s: u64| {
        let d: &[u8] = &[b'0' + tens as u8, b'0' + s as u8];
        let d = &d[(tens == 0) as usize..];
        if named == 0 { eat(d); }
        else if s == which { eat(b"nm("); eat(d); eat(b")"); }
        else { eat(b"g"); eat(d); eat(b"("); eat(d); eat(b")"); }
    };
    for r in &g.rules {
        symbol(&mut eat, r.lhs);
        eat(b" ::= ");
        if r.rhs.is_empty() { eat(b"()"); }
        for (i, &s) in r.rhs.iter().enumerate() {
            if i > 0 { eat(b" ~ "); }
            symbol(&mut eat, s);
        }
        eat(b";\n");
    }
    sx::check(at == b.len(), 63);
    sx::note(at as u64);
} }
