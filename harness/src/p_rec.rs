//! Recursive rules, and the derivation matrices.
use crate::gram::*;
use crate::p_cycle::unit;
use crate::sx;
use cfg_classify::CfgClassifyExt;
use cfg_symbol_bit_matrix::CfgSymbolBitMatrixExt;

/// rows: symbols reachable in one or more derivation steps
pub fn reach(g: &G) -> Vec<u64> {
    let mut t = vec![0u64; g.ns as usize];
    for _ in 0..g.nl { for r in &g.rules { for &s in &r.rhs { let m = one(s) | row(&t, s); row_or(&mut t, r.lhs, m); } } }
    t
}
// params: ns, nl, rules, minlen, maxlen
entry! { fn recursion() {
    let (ns, nl, r, lo, hi) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
    let g = G::any(ns, nl, r, lo, hi);
    let c = g.build();
    let t = reach(&g);
    let rec = c.recursion();
    let mut got = rec.recursive_rules();
    let mut k = 0u64;
    for r in &g.rules {
        let d: Vec<bool> = r.rhs.iter().map(|&s| bit(row(&t, s), r.lhs)).collect();
        let n = d.len();
        let (left, right) = if n == 0 { (false, false) } else { (d[0], d[n - 1]) };
        let middle = if n < 3 { false } else { d[1..n - 1].iter().fold(false, |a, &b| a | b) };
        // the iterator yields exactly the recursive rules, in order
        if left | middle | right {
            match got.next() {
                None => sx::fail(1),
                Some(x) => {
                    sx::check((val(x.rule.lhs) == r.lhs) & all_eq(&x.rule.rhs.iter().map(|&s| val(s)).collect::<Vec<_>>(), &r.rhs), 2);
                    sx::check((x.recursion.left == left) & (x.recursion.middle == middle) & (x.recursion.right == right), 3);
                    sx::cover(x.recursion.middle, 2);
                }
            }
            k += 1;
        }
    }
    sx::check(got.next().is_none(), 4);
    sx::cover(k > 0, 1);
    sx::note(k);
} }
// params: ns, nl, rules, minlen, maxlen, kind
entry! { fn matrix() {
    let (ns, nl, r, lo, hi, kind) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
    let g = G::any(ns, nl, r, lo, hi);
    let c = g.build();
    let m: cfg_symbol_bit_matrix::SymbolBitMatrix = match kind {
        0 => c.direct_derivation_matrix().into(),
        1 => c.reachability_matrix().into(),
        2 => c.unit_derivation_matrix().into(),
        _ => c.reachability_matrix().reflexive().into(),
    };
    let mut want = match kind {
        0 => { let mut t = vec![0u64; ns as usize]; for r in &g.rules { for &s in &r.rhs { row_or(&mut t, r.lhs, one(s)); } } t }
        2 => unit(&g, g.nl),
        _ => reach(&g),
    };
    if kind == 3 { for s in 0..ns { want[s as usize] |= one(s); } }
    let n = (ns + offset()) as usize;
    sx::check(m.size() == (n, n), 1);
    for a in 0..ns {
        let mut got = 0;
        for b in 0..ns { got |= when(m[(sym(a), sym(b))], one(b)); }
        sx::check(got == want[a as usize], 2);
        let mut it = 0;
        for s in m.iter_row_syms(sym(a)) { it |= one(val(s)); }
        sx::check(it == got, 3);
        sx::note(got);
        sx::cover(got != 0, 1);
    }
} }
/// Exactly the square matrices are matrices over symbols, with the same bits. params: size up to
entry! { fn square() {
    use bit_matrix::BitMatrix;
    use cfg_symbol_bit_matrix::SymbolBitMatrix;
    let m = sx::param(0);
    let (rows, cols) = (1 + sx::conc(sx::range(m)), 1 + sx::conc(sx::range(m)));
    let mut b = BitMatrix::new(rows as usize, cols as usize);
    let bits = sx::range(1 << (rows * cols));
    for i in 0..rows { for j in 0..cols { b.set(i as usize, j as usize, bit(bits, i * cols + j)); } }
    match SymbolBitMatrix::try_from(b) {
        Err(()) => sx::check(rows != cols, 5),
        Ok(m) => {
            sx::check(rows == cols, 5);
            let mut got = 0;
            for i in 0..rows { for j in 0..cols { got |= when(m[(sym(i), sym(j))], one(i * cols + j)); } }
            sx::check(got == bits, 6);
            let b: BitMatrix = m.into();
            let mut got = 0;
            for i in 0..rows { for j in 0..cols { got |= when(b[(i as usize, j as usize)], one(i * cols + j)); } }
            sx::check(got == bits && b.size() == (rows as usize, cols as usize), 7);
            sx::cover(true, 1);
        }
    }
    sx::note(bits);
} }
