//! Transformations one after the other: every sequence of them keeps the language of the root.
use crate::gram::*;
use crate::sx;
use cfg_classify::CfgClassifyExt;
use cfg_classify::cyclical::Cycles;
use cfg_grammar::Cfg;
use cfg_symbol::Symbol;
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;

/// What became of the words of the root.
struct State {
    c: Cfg,
    /// the symbol that each original symbol is now; 63 if it is gone
    to: Vec<u64>,
    /// what stands before and after the words of the root
    before: Vec<u64>,
    after: Vec<u64>,
    backwards: bool,
    /// a limit of right-hand sides (0: none), no empty rules, no cycles from now on
    limit: u64,
    no_null: bool,
    no_cycle: bool,
}
const OPS: u64 = 10;
impl State {
    fn root(&self) -> u64 { val(self.c.roots()[0]) }
    fn renumber(&mut self, m: &[Option<Symbol>]) {
        let t: Vec<u64> = m.iter().map(|x| x.map_or(63, val)).collect();
        for v in [&mut self.to, &mut self.before, &mut self.after] { for x in v { *x = if t.is_empty() { 63 } else { sx::ite(*x == 63, 63, row(&t, *x)) }; } }
    }
    fn apply(&mut self, op: u64) {
        let c = &mut self.c;
        match op {
            0 | 1 => {
                let n = op + 2;
                // a limit that is already lower would be given up
                if self.limit == 0 || self.limit > n { c.limit_rhs_len(Some(n as usize)); self.limit = n; }
            }
            2 => { c.binarize_and_eliminate_nulling_rules(); self.limit = 2; self.no_null = true; self.no_cycle = false; }
            3 => { Cycles::new(c).rewrite_cycles(); self.no_cycle = true; }
            4 => { c.make_proper(); }
            5 => { c.sort(); c.dedup(); }
            6 => {
                c.reverse();
                self.backwards = !self.backwards;
                std::mem::swap(&mut self.before, &mut self.after);
            }
            7 => {
                c.wrap_input();
                let w = c.wrapped_roots()[0];
                self.before.insert(0, val(w.start_of_input));
                self.after.push(val(w.end_of_input));
            }
            8 => {
                // the last symbols first, then only those in use
                let mut remap = c.remap();
                remap.reorder_symbols(|a, b| b.cmp(&a));
                let m = remap.get_mapping();
                self.renumber(&m.to_internal);
                let h = G::of(&self.c);
                // a root without rules would go, too
                if bit(h.lhs_mask(), self.root()) {
                    let n = count(&self.c) as usize;
                    let mut remap = self.c.remap();
                    remap.remove_unused_symbols();
                    let m = remap.get_mapping();
                    sx::check(m.to_internal.len() == n, 1);
                    let k = count(&self.c);
                    let m: Vec<Option<Symbol>> = m.to_internal.iter().map(|x| x.filter(|&s| val(s) < k)).collect();
                    self.renumber(&m);
                }
            }
            _ => {
                // to another grammar over the same symbols
                let mut d = Cfg::with_sym_source(c.sym_source().clone());
                d.limit_rhs_len(if self.limit == 0 { None } else { Some(self.limit as usize) });
                d.extend(c);
                d.set_roots(c.roots());
                self.c = d;
            }
        }
    }
}
/// the transformations of step `i`: chosen freely, or the one the parameter names
fn step(param: u64) -> u64 { if param == 0 { sx::conc(sx::range(OPS)) } else { param - 1 } }

// params: ns, nl, rules, minlen, maxlen, steps, first step (1 + its number, 0: any), word length
entry! { fn pipeline() {
    let (ns, nl, r, lo, hi, steps, first, wl) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5), sx::param(6), sx::param(7));
    let ops: Vec<u64> = (0..steps).map(|i| step(if i == 0 { first } else { 0 })).collect();
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let root = sx::range(nl);
    let mut c = g.build();
    c.set_roots([sym(root)]);
    let mut s = State { c, to: (0..ns).collect(), before: vec![], after: vec![], backwards: false, limit: 0, no_null: false, no_cycle: false };
    let mut wrapped = 0;
    for &op in &ops {
        // wrapping makes three symbols, so that once is enough
        if op == 7 { wrapped += 1; sx::assume(wrapped < 2); }
        s.apply(op);
        sx::check(s.c.roots().len() == 1, 2);
    }
    let h = G::of(&s.c);
    let leaf = g.terminals();
    let w = word(ns, wl);
    let a = bit(g.derives(&w, leaf, nl as usize), root);
    let mut t: Vec<u64> = w.iter().map(|&x| row(&s.to, x)).collect();
    if s.backwards { t.reverse(); }
    let t: Vec<u64> = s.before.iter().copied().chain(t).chain(s.after.iter().copied()).collect();
    let mut now = 0;
    for (i, &x) in s.to.iter().enumerate() { now |= when(bit(leaf, i as u64) & (x != 63), one(x)); }
    for &x in s.before.iter().chain(&s.after) { now |= one(x); }
    let rounds = h.rules.len().min(h.ns as usize);
    // a word that has a symbol which is gone is not in the language
    let b = t.iter().all(|&x| x != 63) && bit(h.derives(&t, now, rounds), s.root());
    sx::check(a == b, 3);
    // what an earlier transformation promised holds still
    for r in &h.rules {
        sx::check(s.limit == 0 || r.rhs.len() as u64 <= s.limit, 4);
        sx::check(!s.no_null || !r.rhs.is_empty(), 5);
    }
    if s.no_cycle { sx::check(Cycles::new(&s.c).cycle_free(), 6); }
    // rules name symbols that exist
    sx::check((h.lhs_mask() | h.rhs_mask()) & !h.all_mask() == 0, 7);
    sx::cover(a, 1);
    sx::note(a as u64);
    sx::note(h.rules.len() as u64);
} }
