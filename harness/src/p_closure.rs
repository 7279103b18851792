//! rhs_closure (any / all) and rhs_closure_with_values
use crate::gram::*;
use crate::sx;
use cfg_grammar::{RhsPropertyMode, SymbolBitSet};

fn mask(s: &SymbolBitSet) -> u64 { (0..s.space() as u64 - offset()).fold(0, |m, x| m | when(s[sym(x)], one(x))) }
/// params: ns, nl, rules, minlen, maxlen, rounds
entry! { fn closure() {
    let (ns, nl, r, lo, hi) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let c = g.build();
    let all = sx::conc(sx::range(2)) == 1;
    // the same grammar is asked twice: no state may leak from the first question
    for round in 0..sx::param(5) {
        let mut seed = 0;
        let mut set = SymbolBitSet::from_elem(&c, false);
        for s in 0..ns {
            let b = if round == 0 { sx::range(2) == 1 } else { s == 0 };
            set.set(sym(s), b);
            seed |= when(b, one(s));
        }
        match (all, round) {
            (true, 0) => c.rhs_closure_for_all(&mut set),
            (false, 0) => c.rhs_closure_for_any(&mut set),
            (true, _) => c.rhs_closure(&mut set, RhsPropertyMode::All),
            (false, _) => c.rhs_closure(&mut set, RhsPropertyMode::Any),
        }
        let got = mask(&set);
        // rules with an empty RHS never fire: the property spreads from symbols
        let mut m = seed;
        for _ in 0..nl {
            for r in &g.rules {
                let ok = if all { !r.rhs.is_empty() & r.rhs.iter().fold(true, |a, &s| a & bit(m, s)) }
                         else { r.rhs.iter().fold(false, |a, &s| a | bit(m, s)) };
                m |= when(ok, one(r.lhs));
            }
        }
        sx::check(got == m, 1 + all as u32);
        sx::cover(m != seed, 1 + all as u32);
        sx::note(got);
    }
} }
/// params: ns, nl, rules, minlen, maxlen, weight bound
entry! { fn closure_values() {
    let (ns, nl, r, lo, hi, wb) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
    let g = G::any(ns, nl, r, lo, hi);
    let nl = g.nl;
    let mut c = g.build();
    const INF: u64 = 1 << 20;
    let mut v: Vec<Option<u32>> = vec![];
    let mut o: Vec<u64> = vec![];
    for s in 0..ns {
        // terminals have a weight; nonterminals have none
        if s >= nl { let x = sx::range(wb); v.push(Some(x as u32)); o.push(x); } else { v.push(None); o.push(INF); }
    }
    // nothing is known of the symbols below the offset
    let k = offset() as usize;
    let mut all = vec![None; k];
    all.extend(v);
    c.rhs_closure_with_values(&mut all);
    let v = all.split_off(k);
    for _ in 0..nl {
        for r in &g.rules {
            if r.rhs.is_empty() { continue; }
            let mut sum = 0;
            for &s in &r.rhs { sum += row(&o, s); }
            let sum = sx::ite(sum >= INF, INF, sum);
            for i in 0..nl { o[i as usize] = sx::ite((r.lhs == i) & (sum < o[i as usize]), sum, o[i as usize]); }
        }
    }
    for s in 0..ns as usize {
        match v[s] {
            Some(x) => { sx::check(x as u64 == o[s], 4); sx::note(x as u64); sx::cover(s < nl as usize, 1); }
            None => { sx::check(o[s] == INF, 5); sx::note(INF); }
        }
    }
} }
