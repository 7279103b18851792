//! Symbol sets computed from a grammar, and operations on sets.
use crate::gram::*;
use crate::sx;
use cfg_grammar::SymbolBitSet;

/// stands for all the symbols below the offset
const PAD: u64 = 1 << 60;
fn pad() -> u64 { when(offset() > 0, PAD) }

fn is(set: &SymbolBitSet, want: u64, ns: u64, code: u32) {
    let o = offset();
    sx::check(set.space() as u64 == ns + o, code);
    let mut m = 0;
    for s in 0..ns { m |= when(set[sym(s)], one(s)); }
    sx::check(m == want & !PAD, code);
    for s in 0..o { sx::check(set[sym(s.wrapping_sub(o))] == (want & PAD != 0), code); }
}
fn of_mask(c: &cfg_grammar::Cfg, m: u64, ns: u64) -> SymbolBitSet {
    let mut s = SymbolBitSet::from_elem(c, false);
    for i in 0..ns { s.set(sym(i), bit(m, i)); }
    s
}
// params: ns, nl, rules, minlen, maxlen
entry! { fn sets() {
    let (ns, nl, r, lo, hi) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
    let g = G::any(ns, nl, r, lo, hi);
    let c = g.build();
    let all = g.all_mask() | pad();
    let nulling = g.rules.iter().filter(|r| r.rhs.is_empty()).fold(0, |m, r| m | one(r.lhs));
    let used = g.lhs_mask() | g.rhs_mask();
    is(&c.terminal_symbols(), g.terminals() | pad(), ns, 1);
    is(&c.nulling_symbols(), nulling, ns, 2);
    is(&c.unused_symbols(), all & !used, ns, 3);
    // each computation also on a set that held something else before
    let m = sx::range(1 << ns);
    let mut s = of_mask(&c, m, ns);
    is(&s, m, ns, 4);
    s.terminal(&c);
    is(&s, g.terminals() | pad(), ns, 5);
    let mut s = of_mask(&c, m, ns);
    s.used(&c);
    is(&s, used, ns, 6);
    let mut s = of_mask(&c, m, ns);
    s.unused(&c);
    is(&s, all & !used, ns, 7);
    // these add to, and take from, what was there
    let mut s = of_mask(&c, m, ns);
    s.nulling(&c);
    is(&s, m | nulling, ns, 8);
    let mut s = of_mask(&c, m, ns);
    s.productive(&c);
    is(&s, m | g.lhs_mask(), ns, 9);
    let mut s = of_mask(&c, m, ns);
    s.subtract_productive(&c);
    is(&s, m & !g.lhs_mask(), ns, 10);
    // and start from nothing, or everything, when there was no space
    let mut s = SymbolBitSet::new();
    s.productive(&c);
    is(&s, g.lhs_mask(), ns, 11);
    let mut s = SymbolBitSet::new();
    s.nulling(&c);
    is(&s, nulling, ns, 12);
    let mut s = SymbolBitSet::new();
    s.subtract_productive(&c);
    is(&s, all & !g.lhs_mask(), ns, 13);
    sx::cover((nulling != 0) & (all & !used != 0), 1);
    sx::note(used);
    sx::note(nulling);
} }
// params: ns
entry! { fn set_ops() {
    let ns = sx::param(0);
    let g = G { ns, nl: 0, rules: vec![] };
    let c = g.build();
    let all = g.all_mask() | pad();
    let (a, b) = (sx::range(1 << ns), sx::range(1 << ns));
    is(&SymbolBitSet::from_elem(&c, true), all, ns, 21);
    is(&SymbolBitSet::from_elem(&c, false), 0, ns, 21);
    let mut s = of_mask(&c, a, ns);
    s.negate();
    is(&s, all & !a, ns, 22);
    s.negate();
    is(&s, a, ns, 22);
    s.union(&of_mask(&c, b, ns));
    is(&s, a | b, ns, 23);
    sx::check(s.all() == ((a | b) == all), 24);
    s.reset(c.sym_source());
    is(&s, 0, ns, 25);
    s.set_all(c.sym_source());
    is(&s, all, ns, 25);
    let mut s = of_mask(&c, a, ns);
    s.reserve((ns + offset()) as usize + 2);
    is(&s, a, ns + 2, 26);
    s.reserve(1);
    is(&s, a, ns + 2, 26);
    // set changes one symbol
    let k = sx::range(ns);
    let v = sx::range(2);
    let mut s = of_mask(&c, a, ns);
    s.set(sym(k), v == 1);
    is(&s, (a & !one(k)) | when(v == 1, one(k)), ns, 27);
    // iteration: the members, ascending
    let s = of_mask(&c, a, ns);
    let mut m = 0;
    let mut last = None;
    for x in s.iter() {
        let x = val(x);
        sx::check(last.is_none_or(|l| l < x), 28);
        last = Some(x);
        m |= one(x);
    }
    sx::check(m == a, 29);
    sx::note(a);
    sx::note(b);
} }
