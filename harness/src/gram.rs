//! Symbolic grammars and branch-free reference semantics over bit masks.
use crate::sx;
use cfg_grammar::Cfg;
use cfg_symbol::Symbol;
use miniserde::de::Deserialize;

/// Symbols are numbered from the 10th parameter on: smaller ones exist and are never used.
pub fn offset() -> u64 { sx::param(9) }
/// The symbol with numeric value `n` (through the public deserializer; no fork).
pub fn sym(n: u64) -> Symbol {
    let n = n.wrapping_add(offset());
    let mut out: Option<Symbol> = None;
    if Deserialize::begin(&mut out).nonnegative(n).is_err() { sx::fail(9001); }
    out.unwrap()
}
/// its number, less the offset; unused symbols below the offset get numbers above 60
pub fn val(s: Symbol) -> u64 {
    let o = offset();
    if o == 0 { s.usize() as u64 } else { (s.usize() as u64).wrapping_sub(o) & 0xff }
}
/// number of symbols from the offset on
pub fn count(c: &Cfg) -> u64 { c.num_syms() as u64 - offset() }
/// `v` if `c`, else 0, without branching.
pub fn when(c: bool, v: u64) -> u64 { 0u64.wrapping_sub(c as u64) & v }
pub fn bit(m: u64, i: u64) -> bool { (m >> (i & 63)) & 1 == 1 }
pub fn one(i: u64) -> u64 { 1u64 << (i & 63) }

#[derive(Clone, Debug)]
pub struct Rule { pub lhs: u64, pub rhs: Vec<u64> }

/// A grammar as plain numbers (values may be symbolic; the shape is concrete).
#[derive(Clone, Debug)]
pub struct G {
    pub ns: u64,
    /// upper bound on the number of distinct LHS symbols
    pub nl: u64,
    pub rules: Vec<Rule>,
}

/// Row table indexed by symbol: `t[s]` with symbolic `s`.
pub fn row(t: &[u64], s: u64) -> u64 {
    let mut r = 0;
    for (i, &v) in t.iter().enumerate() { r |= when(s == i as u64, v); }
    r
}
pub fn row_or(t: &mut [u64], s: u64, v: u64) {
    for (i, x) in t.iter_mut().enumerate() { *x |= when(s == i as u64, v); }
}

impl G {
    /// A fresh symbolic grammar: `ns` symbols, LHS among the first `nl`, exactly the given RHS lengths.
    /// `nl` = 10 + k: the LHS symbols are concrete, rule i has LHS i mod k.
    pub fn fresh(ns: u64, nl: u64, lens: &[u64]) -> G {
        let rules = lens.iter().enumerate().map(|(i, &l)| {
            let lhs = if nl >= 10 { i as u64 % (nl - 10) } else { sx::range(nl) };
            let rhs = (0..l).map(|_| sx::range(ns)).collect();
            Rule { lhs, rhs }
        }).collect();
        G { ns, nl: if nl >= 10 { nl - 10 } else { nl }, rules }
    }
    /// Larger symbolic grammar: the seed chooses the LHS and length of every rule, and two symbols for every RHS position, which may be either.
    fn seeded(ns: u64, nl: u64, r: u64, lo: u64, hi: u64, seed: u64) -> G {
        let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let mut next = |n: u64| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 20) % n };
        let k = nl % 10;
        let rules = (0..r).map(|i| {
            let lhs = if nl >= 10 { i % k } else { next(k) };
            let rhs = (0..lo + next(hi - lo + 1)).map(|_| {
                let a = next(ns);
                let b = (a + 1 + next(ns - 1)) % ns;
                sx::ite(sx::range(2) == 0, a, b)
            }).collect();
            Rule { lhs, rhs }
        }).collect();
        G { ns, nl: k, rules }
    }
    /// A chain: symbol i has one rule, which mentions symbol i + 1 (the last one may mention the first), and otherwise either of two symbols; the first seeds list the rules from the top and from the bottom.
    fn chain(ns: u64, r: u64, lo: u64, hi: u64, seed: u64) -> G {
        let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let mut next = |n: u64| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 20) % n };
        let mut order: Vec<u64> = (0..r).collect();
        if seed % 3 == 2 { order.reverse(); }
        if seed % 3 == 0 { for i in 1..r as usize { order.swap(i, next(i as u64 + 1) as usize); } }
        let rules = order.iter().map(|&i| {
            let lo = if i + 1 < r { lo.max(1) } else { lo };
            let l = lo + next(hi - lo + 1);
            let at = if l > 0 { next(l) } else { 0 };
            let rhs = (0..l).map(|j| {
                let a = next(ns);
                let b = (a + 1 + next(ns - 1)) % ns;
                if j == at { if i + 1 < r { i + 1 } else { sx::ite(sx::range(2) == 0, r, 0) } } else { sx::ite(sx::range(2) == 0, a, b) }
            }).collect();
            Rule { lhs: i, rhs }
        }).collect();
        G { ns, nl: r, rules }
    }
    /// Symbolic grammar with `r` rules whose lengths are symbolic in `0..=maxlen` (forked).
    pub fn any(ns: u64, nl: u64, r: u64, minlen: u64, maxlen: u64) -> G {
        let shapes = sx::param(8);
        if shapes > 1000 { return G::chain(ns, r, minlen, maxlen, 1 + sx::conc(sx::range(shapes - 1000))); }
        if shapes > 0 { return G::seeded(ns, nl, r, minlen, maxlen, 1 + sx::conc(sx::range(shapes))); }
        let lens: Vec<u64> = (0..r).map(|_| minlen + sx::conc(sx::range(maxlen - minlen + 1))).collect();
        G::fresh(ns, nl, &lens)
    }
    pub fn build(&self) -> Cfg {
        let mut g = Cfg::new();
        for _ in 0..self.ns + offset() { g.next_sym(None); }
        for r in &self.rules {
            let rhs: Vec<Symbol> = r.rhs.iter().map(|&s| sym(s)).collect();
            g.rule(sym(r.lhs)).rhs(&rhs[..]);
        }
        g
    }
    pub fn of(g: &Cfg) -> G {
        G { ns: count(g), nl: count(g), rules: g.rules().map(|r| Rule { lhs: val(r.lhs), rhs: r.rhs.iter().map(|&s| val(s)).collect() }).collect() }
    }
    /// mask of symbols that are the LHS of some rule
    pub fn lhs_mask(&self) -> u64 { self.rules.iter().fold(0, |m, r| m | one(r.lhs)) }
    pub fn rhs_mask(&self) -> u64 { self.rules.iter().flat_map(|r| r.rhs.iter()).fold(0, |m, &s| m | one(s)) }
    pub fn all_mask(&self) -> u64 { if self.ns >= 64 { !0 } else { (1 << self.ns) - 1 } }
    pub fn terminals(&self) -> u64 { self.all_mask() & !self.lhs_mask() }
    /// least set containing `seed`, closed under "all RHS symbols in the set => LHS in the set"
    pub fn close_all(&self, seed: u64) -> u64 {
        let mut m = seed;
        for _ in 0..self.rules.len() {
            for r in &self.rules {
                let ok = r.rhs.iter().fold(true, |a, &s| a & bit(m, s));
                m |= when(ok, one(r.lhs));
            }
        }
        m
    }
    pub fn close_any(&self, seed: u64, from: impl Fn(&Rule) -> bool) -> u64 {
        let mut m = seed;
        for _ in 0..self.rules.len() {
            for r in &self.rules {
                let ok = r.rhs.iter().fold(false, |a, &s| a | bit(m, s)) & from(r);
                m |= when(ok, one(r.lhs));
            }
        }
        m
    }
    pub fn nullable(&self) -> u64 { self.close_all(0) }
    /// FIRST: for each symbol the mask of terminals a derivation can start with. Terminals map to themselves.
    pub fn first(&self) -> Vec<u64> {
        let nullable = self.nullable();
        let term = self.terminals();
        let mut f: Vec<u64> = (0..self.ns).map(|s| when(bit(term, s), one(s))).collect();
        for _ in 0..self.rules.len() {
            for r in &self.rules {
                let c = self.first_str(&f, nullable, &r.rhs);
                row_or(&mut f, r.lhs, c);
            }
        }
        f
    }
    /// the same, with the number of rounds given (at least the number of distinct LHS symbols)
    pub fn first_n(&self, rounds: u64) -> Vec<u64> {
        let nullable = self.nullable_n(rounds as usize);
        let term = self.terminals();
        let mut f: Vec<u64> = (0..self.ns).map(|s| when(bit(term, s), one(s))).collect();
        for _ in 0..rounds {
            for r in &self.rules {
                let c = self.first_str(&f, nullable, &r.rhs);
                row_or(&mut f, r.lhs, c);
            }
        }
        f
    }
    pub fn first_str(&self, f: &[u64], nullable: u64, s: &[u64]) -> u64 {
        let mut live = true;
        let mut c = 0;
        for &x in s {
            c |= when(live, row(f, x));
            live &= bit(nullable, x);
        }
        c
    }
}

/// Which symbols derive which spans of a word (CYK with empty and unit rules).
/// `t[i][j]` is the mask of symbols deriving `w[i..j]`.
pub type Spans = Vec<Vec<u64>>;

impl G {
    /// `leaf`: symbols that may stand for themselves in a word. `lhs_count`: upper bound on the number of
    /// distinct LHS symbols, i.e. on the rounds needed to reach the fixpoint in one span.
    pub fn spans(&self, w: &[u64], leaf: u64, lhs_count: usize) -> Spans {
        let leaves: Vec<u64> = w.iter().map(|&x| one(x) & leaf).collect();
        self.spans_over(&leaves, lhs_count)
    }
    /// the same for a word given by the symbols that may stand at each position
    pub fn spans_over(&self, leaves: &[u64], lhs_count: usize) -> Spans {
        let n = leaves.len();
        let mut t = vec![vec![0u64; n + 1]; n + 1];
        let nul = self.nullable_n(lhs_count);
        for i in (0..=n).rev() {
            t[i][i] = nul;
            for j in i + 1..=n {
                if j == i + 1 { t[i][j] = leaves[i]; }
                for _ in 0..lhs_count {
                    for r in &self.rules {
                        let ok = self.derives_str(&t, &r.rhs, i, j);
                        t[i][j] |= when(ok, one(r.lhs));
                    }
                }
            }
        }
        t
    }
    fn derives_str(&self, t: &Spans, rhs: &[u64], i: usize, j: usize) -> bool {
        let mut reach = vec![false; j + 1];
        reach[i] = true;
        for &s in rhs {
            let mut next = vec![false; j + 1];
            for p in i..=j { for q in p..=j { next[q] |= reach[p] & bit(t[p][q], s); } }
            reach = next;
        }
        reach[j]
    }
    pub fn nullable_n(&self, rounds: usize) -> u64 {
        let mut m = 0;
        for _ in 0..rounds {
            for r in &self.rules {
                let ok = r.rhs.iter().fold(true, |a, &s| a & bit(m, s));
                m |= when(ok, one(r.lhs));
            }
        }
        m
    }
    /// mask of symbols deriving the whole word
    pub fn derives(&self, w: &[u64], leaf: u64, lhs_count: usize) -> u64 { self.spans(w, leaf, lhs_count)[0][w.len()] }
}
/// A symbolic word over the first `ns` symbols, of the given length.
pub fn word(ns: u64, len: u64) -> Vec<u64> { (0..len).map(|_| sx::range(ns)).collect() }
pub fn all_eq(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() { return false; }
    a.iter().zip(b).fold(true, |x, (p, q)| x & (p == q))
}
