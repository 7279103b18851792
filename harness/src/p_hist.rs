//! Histories of rules through transformations.
use crate::gram::*;
use crate::sx;
use cfg_classify::CfgClassifyExt;
use cfg_grammar::precedenced_rule::Associativity;
use cfg_grammar::{Cfg, CfgRule};
use cfg_history::earley::History;
use cfg_history::earley::rule_dot::RuleDot;
use cfg_history::{BinarizedRhsRange, HistoryNodeEliminateNulling, HistoryNodeRewriteSequence, HistoryNodeWeight, LinkedHistoryNode, RootHistoryNode};
use cfg_sequence::{CfgSequenceExt, Separator};
use cfg_symbol::Symbol;

/// any history whose original rule is known
fn history(ns: u64) -> History {
    let origin = sx::u(32);
    sx::assume(origin != 0xffff_ffff);
    let mut h: History = RootHistoryNode::Origin { origin: origin as usize }.into();
    sx::check(h.origin().id as u64 == origin && !h.origin().is_null(), 1);
    if sx::conc(sx::range(2)) == 1 { h.weight = Some(sx::u(32) as u32); }
    if sx::conc(sx::range(2)) == 1 {
        let prev = h;
        h = HistoryNodeRewriteSequence { prev, top: sx::conc(sx::range(2)) == 1, rhs: sym(sx::range(ns)), sep: Some(sym(sx::range(ns))) }.into();
        sx::check(h.weight == prev.weight && h.origin == prev.origin && h.dots == prev.dots && h.nullable == prev.nullable, 2);
    }
    if sx::conc(sx::range(2)) == 1 { h.dots = [RuleDot::new(sx::u(32) as u32, 0), RuleDot::none(), RuleDot::new(7, sx::u(32) as u32)]; }
    h
}
/// any origin and weight
fn simple() -> History {
    let mut h: History = RootHistoryNode::Origin { origin: sx::u(31) as usize }.into();
    h.weight = Some(sx::u(32) as u32);
    h
}
fn plain(ns: u64) -> Cfg { G { ns, nl: 1, rules: vec![] }.build() }
fn syms(v: &[u64]) -> Vec<Symbol> { v.iter().map(|&s| sym(s)).collect() }

// One rule with any history, added in any of five ways under any limit.
// params: ns, maxlen, max limit
entry! { fn history_limit() {
    let (ns, hi, ml) = (sx::param(0), sx::param(1), sx::param(2));
    let len = sx::conc(sx::range(hi + 1));
    let h = history(ns);
    let (lhs, w) = (sx::range(ns), word(ns, len));
    let rhs = syms(&w);
    // 0, 1: no limit
    let limit = sx::conc(sx::range(ml + 1));
    let mut c = plain(ns);
    let how = sx::conc(sx::range(5));
    if limit >= 2 && how < 4 { c.limit_rhs_len(Some(limit as usize)); }
    match how {
        0 => { c.add_rule(CfgRule::new(sym(lhs), &rhs[..], h)); }
        // the history counts for one right-hand side only
        1 => { c.rule(sym(lhs)).history(h).rhs(&rhs[..]).rhs([sym(0)]); }
        2 => { c.rule(sym(lhs)).rhs([sym(0)]).rhs_with_history(&rhs[..], h); }
        3 => { let mut o = Cfg::with_sym_source(c.sym_source().clone()); o.rule(sym(lhs)).rhs_with_history(&rhs[..], h); c.extend(&o); }
        _ => { c.rule(sym(lhs)).rhs_with_history(&rhs[..], h); if limit >= 2 { c.limit_rhs_len(Some(limit as usize)); } }
    }
    let default: History = RootHistoryNode::Rule { lhs: sym(lhs) }.into();
    let mut rules: Vec<CfgRule> = c.rules().cloned().collect();
    match how {
        1 => { let r = rules.pop().unwrap(); sx::check(r.history == default && r.rhs.len() == 1, 11); }
        2 => { let r = rules.remove(0); sx::check(r.history == default && r.rhs.len() == 1, 12); }
        _ => {}
    }
    let split = rules.len() > 1;
    let mut places = 0;
    sx::check(split == (limit >= 2 && len > limit), 13);
    for r in &rules {
        let top = val(r.lhs) < ns;
        let g = r.history;
        sx::check(g.weight == h.weight && g.nullable == h.nullable && g.sequence == h.sequence, 14);
        if !split || limit > 2 { sx::check(g == h, 15); }
        if top { sx::check(g.origin == h.origin, 16); }
        if !top && limit == 2 { sx::check(g.origin.is_null(), 17); }
        // the dots of helper rules are different positions in the rule that was split
        if !top && limit == 2 {
            let mut at = 0;
            for p in 1..len { at |= when(g.dot(1) == RuleDot::new(h.origin.id, p as u32), one(p)); }
            sx::check((at != 0) & (at & places == 0), 19);
            places |= at;
        }
        if top && split && limit == 2 { sx::check(g.dot(0) == RuleDot::new(h.origin.id, 0), 20); }
        sx::note(g.origin.id as u64);
    }
    // any number of further limits and reversals leaves histories alone
    let n = c.rules().count();
    let before: Vec<History> = c.rules().map(|r| r.history).collect();
    c.reverse();
    if limit >= 2 { c.limit_rhs_len(Some(limit as usize)); }
    let after: Vec<History> = c.rules().map(|r| r.history).collect();
    sx::check(n == after.len() && before == after, 18);
    sx::cover(split, 1);
} }

/// Nulling elimination records which symbol went away, and where. params: ns, nl, rules, minlen, maxlen
entry! { fn history_null() {
    let (ns, nl, r, lo, hi) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
    let g = G::any(ns, nl, r, lo, hi);
    let mut c = plain(ns);
    let w: Vec<u32> = g.rules.iter().map(|_| sx::u(32) as u32).collect();
    for (i, x) in g.rules.iter().enumerate() {
        let mut h: History = RootHistoryNode::Origin { origin: i + 1 }.into();
        h.weight = Some(w[i]);
        c.rule(sym(x.lhs)).rhs_with_history(syms(&x.rhs), h);
    }
    let nulling = c.binarize_and_eliminate_nulling_rules();
    let nullable = g.nullable();
    let mut some = false;
    for q in c.rules() {
        let (lhs, rhs): (u64, Vec<u64>) = (val(q.lhs), q.rhs.iter().map(|&s| val(s)).collect());
        let h = q.history;
        if lhs >= ns { sx::check(h.origin.is_null(), 21); }
        if let Some((s, right)) = h.nullable() {
            some = true;
            sx::check(rhs.len() == 1, 22);
            let s = val(s);
            if s < ns { sx::check(bit(nullable, s), 23); }
            let full = if right { [rhs[0], s] } else { [s, rhs[0]] };
            // the rule it was made from
            let i = h.origin().id as usize;
            if i >= 1 && i <= g.rules.len() {
                let x = &g.rules[i - 1];
                sx::check(lhs == x.lhs && h.weight == Some(w[i - 1]), 24);
                if x.rhs.len() == 2 { sx::check(all_eq(&full, &x.rhs), 25); } else {
                    // a part: it ends in the last symbol
                    sx::check(x.rhs.len() > 2 && full[1] == *x.rhs.last().unwrap() && full[0] >= ns, 26);
                }
            } else { sx::check(h.origin().is_null() && lhs >= ns, 27); }
        } else if lhs < ns {
            let i = h.origin().id as usize;
            sx::check(i >= 1 && i <= g.rules.len(), 28);
            let x = &g.rules[i - 1];
            sx::check(lhs == x.lhs && rhs.len() <= x.rhs.len(), 29);
            if h.weight.is_some() {
                // kept as it was
                sx::check(h.weight == Some(w[i - 1]), 30);
                if x.rhs.len() <= 2 { sx::check(all_eq(&rhs, &x.rhs), 31); }
            } else {
                // one half of a rule whose two symbols can both vanish
                sx::check(rhs.len() == 1 && x.rhs.len() >= 2, 32);
                if x.rhs.len() == 2 { sx::check((rhs[0] == x.rhs[0]) | (rhs[0] == x.rhs[1]), 33); }
            }
        }
        sx::note(h.origin.id as u64);
        sx::note(h.nullable.map_or(99, |(s, r)| val(s) * 2 + r as u64));
    }
    for q in nulling.rules() {
        let i = q.history.origin().id as usize;
        if val(q.lhs) < ns {
            sx::check(i >= 1 && i <= g.rules.len(), 34);
            sx::check(val(q.lhs) == g.rules[i - 1].lhs && q.rhs.len() <= g.rules[i - 1].rhs.len(), 35);
        } else { sx::check(q.history.origin().is_null(), 36); }
    }
    sx::cover(some, 1);
} }

/// Alternatives of precedenced rules keep their histories; glue rules have none. params: alternatives
entry! { fn history_prec() {
    let n = sx::param(0);
    let mut c = plain(3);
    let mut b = c.precedenced_rule(sym(0));
    let mut want: Vec<(usize, History)> = vec![];
    for i in 0..n {
        if sx::conc(sx::range(2)) == 1 { b = b.lower_precedence(); }
        match sx::conc(sx::range(4)) { 0 => {} 1 => b = b.associativity(Associativity::Left), 2 => b = b.associativity(Associativity::Right), _ => b = b.associativity(Associativity::Group) }
        let rhs = syms(&[sx::range(3), sx::range(3), 1, 1][..i as usize + 2]);
        match sx::conc(sx::range(4)) {
            3 => { let h = simple(); b = b.history(simple()).rhs_with_history(&rhs, h); want.push((rhs.len(), h)); }
            0 => { let h = simple(); b = b.rhs_with_history(&rhs, h); want.push((rhs.len(), h)); }
            1 => { let h = simple(); b = b.history(h).rhs(&rhs); want.push((rhs.len(), h)); }
            _ => { b = b.rhs(&rhs); want.push((rhs.len(), RootHistoryNode::Rule { lhs: sym(0) }.into())); }
        }
    }
    let b = b.finalize();
    let mut last = vec![];
    if sx::conc(sx::range(2)) == 1 { let h = simple(); b.rule(sym(2)).history(h).rhs([]); last.push(h); }
    for r in c.rules() {
        match r.rhs.len() {
            1 => sx::check(r.history.origin().is_null(), 41),
            0 => sx::check(r.history == last.pop().unwrap(), 42),
            // alternatives are told apart by their length
            l => { let x = want.iter().position(|x| x.0 == l).unwrap(); sx::check(r.history == want[x].1, 43); want.remove(x); }
        }
    }
    sx::check(want.is_empty() && last.is_empty(), 44);
    sx::note(c.rules().count() as u64);
} }

/// Every production of a sequence says which sequence it is part of, and whether it is the outermost one. params: counts up to
entry! { fn history_seq() {
    let m = sx::param(0);
    let mut c = plain(4);
    let k = sx::conc(sx::range(4));
    let start = sx::conc(sx::range(m + 1));
    let e = sx::conc(sx::range(m - start + 2));
    let end = if e == 0 { None } else { Some((start + e - 1) as u32) };
    let item = 1 + sx::conc(sx::range(2));
    let sep = match k { 0 => Separator::Null, 1 => Separator::Proper(sym(3)), 2 => Separator::Trailing(sym(3)), _ => Separator::Liberal(sym(3)) };
    let given = sx::conc(sx::range(2)) == 1;
    let h = if given { history(4) } else { RootHistoryNode::Rule { lhs: sym(0) }.into() };
    {
        let b = c.sequence(sym(0)).inclusive(start as u32, end).separator(sep);
        // the history counts for one sequence
        if given { if sx::conc(sx::range(2)) == 1 { b.history(h).rhs(sym(item)); } else { b.rhs_with_history(sym(item), Some(h)); } } else { b.rhs(sym(item)); }
    }
    let sep = if k == 0 { None } else { Some(sym(3)) };
    let mut tops = 0;
    for r in c.rules() {
        let top = val(r.lhs) < 4;
        tops += top as u64;
        let prev = if given || top { h } else { RootHistoryNode::NoOp.into() };
        let want: History = HistoryNodeRewriteSequence { prev, top, rhs: sym(item), sep }.into();
        sx::check(r.history.sequence == want.sequence, 51);
        sx::check(r.history.weight == want.weight && r.history.nullable == want.nullable, 52);
        if top { sx::check(val(r.lhs) == 0 && r.history.origin() == h.origin(), 53); }
        sx::note(r.history.origin.id as u64);
    }
    sx::check(tops > 0, 54);
    sx::cover(c.rules().count() > 3, 1);
} }

/// Cycle elimination, sorting, deduplication and reversal carry histories along. params: ns, nl, rules, minlen, maxlen
entry! { fn history_ops() {
    let (ns, nl, r, lo, hi) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
    let g = G::any(ns, nl, r, lo, hi);
    let mut c = plain(ns);
    for (i, x) in g.rules.iter().enumerate() { c.rule(sym(x.lhs)).rhs_with_history(syms(&x.rhs), RootHistoryNode::Origin { origin: i + 1 }.into()); }
    let kind = sx::conc(sx::range(4));
    let mut back = false;
    match kind {
        0 => { c.reverse(); back = true; }
        1 => c.sort(),
        2 => { c.sort(); c.dedup(); }
        _ => { c.make_proper(); }
    }
    let mut seen = 0u64;
    for q in c.rules() {
        let i = q.history.origin().id as usize;
        sx::check(i >= 1 && i <= g.rules.len() && !bit(seen, i as u64), 61);
        seen |= one(i as u64);
        let x = &g.rules[i - 1];
        let mut w: Vec<u64> = q.rhs.iter().map(|&s| val(s)).collect();
        if back { w.reverse(); }
        sx::check((val(q.lhs) == x.lhs) & all_eq(&w, &x.rhs), 62);
        sx::note(i as u64);
    }
} }

/// Single updates of any history. params: none
entry! { fn history_nodes() {
    let h = history(3);
    let (a, b) = (sym(sx::range(3)), sym(sx::range(3)));
    let which = match sx::conc(sx::range(3)) { 0 => BinarizedRhsRange::Left, 1 => BinarizedRhsRange::Right, n => BinarizedRhsRange::All(n as usize) };
    let g: History = HistoryNodeEliminateNulling { prev: h, rhs0: Some(a), rhs1: Some(b), which }.into();
    sx::check(g.origin == h.origin, 71);
    match which {
        BinarizedRhsRange::Left => sx::check(g.nullable() == Some((a, false)) && g.weight == h.weight && g.dots == h.dots && g.sequence == h.sequence, 72),
        BinarizedRhsRange::Right => sx::check(g.nullable() == Some((b, true)) && g.weight == h.weight && g.dots == h.dots && g.sequence == h.sequence, 73),
        _ => sx::check(g.nullable().is_none(), 74),
    }
    let k = [0.0, 0.5, 1.0, 2.25, 1000.0];
    let i = sx::conc(sx::range(5)) as usize;
    let g: History = HistoryNodeWeight { prev: h, weight: k[i] }.into();
    sx::check(g.weight == Some([0, 500, 1000, 2250, 1000000][i]), 75);
    sx::check(g.origin == h.origin && g.dots == h.dots && g.nullable == h.nullable && g.sequence == h.sequence, 76);
    // the builder applies an update to the default history
    let mut c = plain(2);
    c.rule(sym(0)).rhs_with_linked_history([sym(1)], LinkedHistoryNode::Weight { weight: k[i] });
    let r = c.rules().next().unwrap();
    sx::check(r.history.weight == g.weight && r.history.origin() == History::new(0).origin(), 77);
    for n in 0..5 { sx::check(h.dot(n) == if n < 3 { h.dots[n] } else { RuleDot::none() }, 78); }
    sx::note(g.origin.id as u64);
} }
