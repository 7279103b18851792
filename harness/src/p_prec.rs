//! Precedenced rules.
use crate::gram::*;
use crate::sx;
use cfg_grammar::Cfg;
use cfg_grammar::precedenced_rule::{Associativity, PrecedencedRuleBuilder};
use cfg_symbol::Symbol;

enum Op { Alt(Vec<u64>), Lower, Assoc(u64) }

/// a symbolic history of builder calls; at most `lows` levels are added
fn ops(n: u64, maxlen: u64, ns: u64) -> Vec<Op> {
    (0..n).map(|_| match sx::conc(sx::range(5)) {
        0 => Op::Lower,
        k @ 1..=3 => Op::Assoc(k - 1),
        _ => { let l = sx::conc(sx::range(maxlen + 1)); Op::Alt((0..l).map(|_| sx::range(ns)).collect()) }
    }).collect()
}
fn run<'a>(mut b: PrecedencedRuleBuilder<'a>, ops: &[Op]) -> PrecedencedRuleBuilder<'a> {
    for o in ops {
        b = match o {
            Op::Lower => b.lower_precedence(),
            Op::Assoc(0) => b.associativity(Associativity::Left),
            Op::Assoc(1) => b.associativity(Associativity::Right),
            Op::Assoc(_) => b.associativity(Associativity::Group),
            Op::Alt(v) => { let v: Vec<Symbol> = v.iter().map(|&s| sym(s)).collect(); b.rhs(&v[..]) }
        };
    }
    b
}
/// the layered grammar that the calls describe; `first`: number of the first fresh symbol
fn layered(lhs: u64, first: u64, ops: &[Op], out: &mut Vec<Rule>) -> u64 {
    let levels = ops.iter().filter(|o| matches!(o, Op::Lower)).count() as u64;
    let top = first + levels;
    let (mut level, mut assoc) = (0, 0);
    for o in ops {
        match o {
            Op::Lower => { level += 1; out.push(Rule { lhs: first + level, rhs: vec![first + level - 1] }); }
            Op::Assoc(a) => assoc = *a,
            Op::Alt(v) => {
                let own = first + level;
                let tighter = if level == 0 { own } else { own - 1 };
                let mut rhs = v.clone();
                for i in 0..v.len() {
                    let before = v[..i].iter().fold(false, |a, &s| a | (s == lhs));
                    let after = v[i + 1..].iter().fold(false, |a, &s| a | (s == lhs));
                    let to = match assoc { 0 => sx::ite(before, tighter, own), 1 => sx::ite(after, tighter, own), _ => top };
                    rhs[i] = sx::ite(v[i] == lhs, to, v[i]);
                }
                out.push(Rule { lhs: own, rhs });
                assoc = 0;
            }
        }
    }
    out.push(Rule { lhs, rhs: vec![top] });
    top + 1
}
fn rule_eq(a: &Rule, b: &Rule) -> bool { a.rhs.len() == b.rhs.len() && (a.lhs == b.lhs) & all_eq(&a.rhs, &b.rhs) }
fn same(h: &G, want: &[Rule], code: u32) {
    sx::check(h.rules.len() == want.len(), code);
    for r in want {
        let n = want.iter().fold(0, |n, x| n + rule_eq(x, r) as u64);
        let m = h.rules.iter().fold(0, |n, x| n + rule_eq(x, r) as u64);
        sx::check(n == m, code + 1);
    }
}
// params: calls, RHS length up to, calls for a second precedenced rule
entry! { fn precedence() {
    let (n, maxlen, n2) = (sx::param(0), sx::param(1), sx::param(2));
    let mut c = Cfg::new();
    for _ in 0..4 { c.next_sym(None); }
    let a = ops(n, maxlen, 4);
    let b = ops(n2, maxlen, 4);
    let mut want = vec![];
    let next = layered(0, 4, &a, &mut want);
    let next = if n2 > 0 { layered(3, next, &b, &mut want) } else { next };
    let pb = run(c.precedenced_rule(sym(0)), &a);
    if n2 > 0 { run(pb.precedenced_rule(sym(3)), &b).rule(sym(1)).rhs([sym(2)]); } else { pb.rule(sym(1)).rhs([sym(2)]); }
    want.push(Rule { lhs: 1, rhs: vec![2] });
    sx::check(count(&c) == next, 1);
    let h = G::of(&c);
    same(&h, &want, 2);
    sx::cover(next > 5 && want.len() > 4, 1);
    for r in &h.rules { sx::note(r.lhs); for &s in &r.rhs { sx::note(s); } }
} }
/// One alternative on each of many levels; one of them is any, the others are binary.
// params: levels, length of the alternative up to
entry! { fn levels() {
    let (n, maxlen) = (sx::param(0), sx::param(1));
    let mut c = Cfg::new();
    for _ in 0..4 { c.next_sym(None); }
    let any = sx::conc(sx::range(n));
    let mut a = vec![];
    for i in 0..n {
        if i > 0 { a.push(Op::Lower); }
        if i == any {
            a.push(Op::Assoc(sx::conc(sx::range(3))));
            let l = sx::conc(sx::range(maxlen + 1));
            a.push(Op::Alt((0..l).map(|_| sx::range(2)).collect()));
        } else { a.push(Op::Alt(vec![0, 2, 0])); }
    }
    let mut want = vec![];
    let next = layered(0, 4, &a, &mut want);
    run(c.precedenced_rule(sym(0)), &a).rule(sym(1)).rhs([sym(2)]);
    want.push(Rule { lhs: 1, rhs: vec![2] });
    sx::check(count(&c) == next, 1);
    let h = G::of(&c);
    same(&h, &want, 2);
    sx::cover(any + 1 == n, 1);
    for r in &h.rules { sx::note(r.lhs); for &s in &r.rhs { sx::note(s); } }
} }
/// Operators of a symbolic number of levels: every operand order has one parse tree, the one with the declared grouping.
// params: levels, length of the word
entry! { fn one_parse() {
    let (levels, wl) = (sx::param(0), sx::param(1));
    // 0: E, 1: atom, 2..: binary operators, one per level
    let mut c = Cfg::new();
    for _ in 0..2 + levels { c.next_sym(None); }
    let right: Vec<bool> = (0..levels).map(|_| sx::conc(sx::range(2)) == 1).collect();
    let mut b = c.precedenced_rule(sym(0)).rhs([sym(1)]);
    for l in 0..levels {
        b = b.lower_precedence();
        if right[l as usize] { b = b.associativity(Associativity::Right); }
        b = b.rhs([sym(0), sym(2 + l), sym(0)]);
    }
    let _ = b.finalize();
    let g = G::of(&c);
    let w: Vec<u64> = (0..wl).map(|i| if i % 2 == 0 { 1 } else { 2 + sx::range(levels) }).collect();
    // number of parse trees of each span from each symbol; the grammar has unit rules only from looser to tighter levels
    let n = w.len();
    let mut t = vec![vec![vec![0u64; g.ns as usize]; n + 1]; n + 1];
    let leaf = g.terminals();
    // and, for each span and symbol, the position of the operator that is applied last (n: none)
    let mut root = vec![vec![vec![n as u64; g.ns as usize]; n + 1]; n + 1];
    for len in 1..=n {
        for i in 0..=n - len {
            let j = i + len;
            if len == 1 { for s in 0..g.ns { t[i][j][s as usize] = sx::ite(bit(leaf, s) & (w[i] == s), 1, 0); } }
            for r in &g.rules { if r.rhs.len() == 3 {
                for k in i + 1..j.saturating_sub(1) {
                    let x = sx::ite(w[k] == r.rhs[1], t[i][k][r.rhs[0] as usize] * t[k + 1][j][r.rhs[2] as usize], 0);
                    t[i][j][r.lhs as usize] += x;
                    let o = root[i][j][r.lhs as usize];
                    root[i][j][r.lhs as usize] = sx::ite(x > 0, k as u64, o);
                }
            } }
            for _ in 0..=levels + 1 {
                let mut add = vec![(0, 0); g.ns as usize];
                for r in &g.rules { if r.rhs.len() == 1 { add[r.lhs as usize] = (t[i][j][r.rhs[0] as usize], root[i][j][r.rhs[0] as usize]); } }
                // recomputed from the binary rules each time, so that nothing is counted twice
                let mut base = vec![(0, n as u64); g.ns as usize];
                for r in &g.rules { if r.rhs.len() == 3 {
                    for k in i + 1..j.saturating_sub(1) {
                        let x = sx::ite(w[k] == r.rhs[1], t[i][k][r.rhs[0] as usize] * t[k + 1][j][r.rhs[2] as usize], 0);
                        let b = &mut base[r.lhs as usize];
                        b.0 += x;
                        b.1 = sx::ite(x > 0, k as u64, b.1);
                    }
                } }
                for s in 0..g.ns as usize {
                    if len == 1 && bit(leaf, s as u64) { continue; }
                    t[i][j][s] = base[s].0 + add[s].0;
                    root[i][j][s] = sx::ite(add[s].0 > 0, add[s].1, base[s].1);
                }
            }
        }
    }
    sx::check(t[0][n][0] == 1, 11);
    // the operator applied last: of the loosest level that occurs, the last one if it is left associative, else the first
    let mut want = n as u64;
    for l in 0..levels {
        let mut at = n as u64;
        for k in 0..n {
            let here = k % 2 == 1 && w[k] == 2 + l;
            let take = here & (!right[l as usize] | (at == n as u64));
            at = sx::ite(take, k as u64, at);
        }
        want = sx::ite(at != n as u64, at, want);
    }
    sx::check(root[0][n][0] == want, 12);
    sx::cover(wl > 3, 1);
    sx::note(root[0][n][0]);
} }
