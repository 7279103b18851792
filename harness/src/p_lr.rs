//! LR(0) automaton.
use crate::gram::*;
use crate::sx;
use cfg_classify::CfgClassifyExt;
use cfg_classify::lr::{Lr0FsmBuilder, Lr0Items};

/// items as masks over (rule, dot): one mask of dots per rule
type Items = Vec<u64>;

/// `id`: number of the rule added for the start symbol
struct O<'a> { g: &'a G, start: u64, term: u64, id: usize }
impl O<'_> {
    fn rhs(&self, i: usize) -> Vec<u64> { if i == self.id { vec![self.start] } else if i < self.g.rules.len() { self.g.rules[i].rhs.clone() } else { vec![] } }
    fn closure(&self, it: &Items) -> Items {
        let mut it = it.clone();
        for _ in 0..self.g.nl {
            let mut post = 0;
            for i in 0..it.len() { for (d, &s) in self.rhs(i).iter().enumerate() { post |= when(bit(it[i], d as u64), one(s)); } }
            for (i, r) in self.g.rules.iter().enumerate() { it[i] |= when(bit(post, r.lhs), 1); }
        }
        it
    }
    fn advance(&self, it: &Items, t: u64) -> Items {
        (0..it.len()).map(|i| {
            let mut m = 0;
            for (d, &s) in self.rhs(i).iter().enumerate() { m |= when(bit(it[i], d as u64) & (s == t), one(d as u64 + 1)); }
            m
        }).collect()
    }
    fn real(&self, x: &Lr0Items) -> Items {
        let mut it = vec![0u64; self.id + 1];
        for (&id, item) in &x.map {
            sx::check((id as usize) < self.g.rules.len() || id as usize == self.id, 1);
            let rhs = self.rhs(id as usize);
            sx::check(all_eq(&rhs, &item.rhs.iter().map(|&s| val(s)).collect::<Vec<_>>()), 2);
            sx::check(item.dot as usize <= rhs.len(), 3);
            it[id as usize] |= one(item.dot as u64);
        }
        it
    }
}
fn any(it: &Items) -> bool { it.iter().fold(false, |a, &m| a | (m != 0)) }
fn collide(it: &Items) -> bool { it.iter().fold(false, |a, &m| a | (m & m.wrapping_sub(1) != 0)) }

// params: ns, nl, rules, minlen, maxlen, with collisions, automata made by one builder
entry! { fn lr0() {
    let (ns, nl, r, lo, hi, with, times) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5), sx::param(6));
    let g = G::any(ns, nl, r, lo, hi);
    let mut c = g.build();
    let mut b = c.lr0_fsm_builder();
    for i in 0..times { one_fsm(&g, &mut b, g.rules.len() + i as usize, ns, with); }
} }
fn one_fsm(g: &G, b: &mut Lr0FsmBuilder, n: usize, ns: u64, with: u64) {
    let start = sx::range(g.nl);
    let fsm = b.make_lr0_fsm(sym(start));
    let o = O { g, start, term: g.terminals(), id: n };
    let mut init = vec![0; n + 1];
    init[n] = 1;
    let init = o.closure(&init);
    sx::check(fsm.len() >= 1, 4);
    let states: Vec<Items> = fsm.iter().map(|s| o.real(&s.items)).collect();
    sx::check(all_eq(&states[0], &init), 5);
    let mut linked = vec![false; fsm.len()];
    linked[0] = true;
    for (i, node) in fsm.iter().enumerate() {
        let mut links = 0;
        for (&t, &to) in &node.link {
            sx::check((to as usize) < fsm.len(), 6);
            links |= one(val(t));
            linked[to as usize] = true;
        }
        sx::check(links & !o.term == 0, 7);
        for t in 0..ns {
            let k = o.advance(&states[i], t);
            let next = o.closure(&k);
            // known finding: items are keyed by their rule, one item per rule
            if with == 0 { sx::assume(!(bit(o.term, t) & collide(&next))); }
            if bit(o.term, t) & any(&k) {
                match node.link.get(&sym(t)) {
                    None => sx::fail(8),
                    Some(&to) => sx::check(all_eq(&states[to as usize], &next), 9),
                }
                sx::cover(true, 1);
            } else { sx::check(!bit(links, t), 10); }
        }
        for j in 0..i { sx::check(!all_eq(&states[i], &states[j]), 11); }
    }
    for l in linked { sx::check(l, 12); }
    sx::cover(fsm.len() > 2, 2);
    sx::note(fsm.len() as u64);
}
