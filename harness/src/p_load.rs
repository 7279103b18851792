//! Loading of basic BNF text.
use crate::gram::*;
use crate::sx;
use cfg_grammar::Cfg;
use cfg_load::CfgLoadExt;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Id(String), Op, Semi, Pipe, Plus, Mul, L, R }
/// rules: LHS and items with repetition (0: none, 1: *, 2: +)
pub type Ast = Vec<(String, Vec<(String, u64)>)>;

/// the documented tokens; or line and column of the first character that starts none
pub fn lex(s: &[u8]) -> Result<Vec<Tok>, (u32, u32)> {
    let (mut i, mut line, mut col) = (0, 1, 1);
    let mut o = vec![];
    while i < s.len() {
        let from = i;
        match s[i] {
            b' ' | b'\t' | b'\n' => {}
            b';' => o.push(Tok::Semi),
            b'|' => o.push(Tok::Pipe),
            b'+' => o.push(Tok::Plus),
            b'*' => o.push(Tok::Mul),
            b'(' => o.push(Tok::L),
            b')' => o.push(Tok::R),
            b':' if i + 2 < s.len() && s[i + 1] == b':' && s[i + 2] == b'=' => { o.push(Tok::Op); i += 2; }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                while i + 1 < s.len() && (s[i + 1].is_ascii_alphanumeric() || s[i + 1] == b'_') { i += 1; }
                o.push(Tok::Id(String::from_utf8(s[from..=i].to_vec()).unwrap()));
            }
            _ => return Err((line, col)),
        }
        if s[i] == b'\n' { line += 1; col = 1; } else { col += (i - from + 1) as u32; }
        i += 1;
    }
    Ok(o)
}
/// rules `name ::= ;` and `name ::= alternative | alternative ...;`; alternatives are one or more of name, name*, name+, ()
pub fn parse(t: &[Tok]) -> Option<Ast> {
    let mut o = vec![];
    let mut i = 0;
    if t.is_empty() { return None; }
    while i < t.len() {
        let Tok::Id(lhs) = &t[i] else { return None };
        if t.get(i + 1) != Some(&Tok::Op) { return None; }
        i += 2;
        if t.get(i) == Some(&Tok::Semi) { o.push((lhs.clone(), vec![])); i += 1; continue; }
        loop {
            let mut alt = vec![];
            let mut n = 0;
            loop {
                match t.get(i) {
                    Some(Tok::Id(x)) => {
                        let rep = match t.get(i + 1) { Some(Tok::Mul) => 1, Some(Tok::Plus) => 2, _ => 0 };
                        alt.push((x.clone(), rep));
                        i += if rep > 0 { 2 } else { 1 };
                    }
                    Some(Tok::L) if t.get(i + 1) == Some(&Tok::R) => i += 2,
                    _ => break,
                }
                n += 1;
            }
            if n == 0 { return None; }
            o.push((lhs.clone(), alt));
            match t.get(i) { Some(Tok::Pipe) => i += 1, Some(Tok::Semi) => { i += 1; break } _ => return None }
        }
    }
    Some(o)
}
/// can `t` be continued to a grammar? (any grammar ends in a semicolon, so try what may be missing)
fn prefix(t: &[Tok]) -> bool {
    let id = || Tok::Id("z".into());
    let ends: [Vec<Tok>; 5] = [vec![], vec![Tok::Semi], vec![id(), Tok::Semi], vec![Tok::Op, Tok::Semi], vec![Tok::R, Tok::Semi]];
    t.is_empty() || ends.iter().any(|e| { let mut v = t.to_vec(); v.extend(e.clone()); parse(&v).is_some() })
}
/// the grammar the rules stand for, and its names
fn meaning(a: &Ast) -> (G, Vec<String>) {
    let mut names: Vec<String> = vec![];
    let mut num = |x: &String| match names.iter().position(|y| y == x) { Some(i) => i as u64, None => { names.push(x.clone()); names.len() as u64 - 1 } };
    let rules: Vec<(u64, Vec<(u64, u64)>)> = a.iter().map(|(l, r)| (num(l), r.iter().map(|(x, k)| (num(x), *k)).collect())).collect();
    let mut g = G { ns: names.len() as u64, nl: 0, rules: vec![] };
    for (l, r) in rules {
        let rhs = r.into_iter().map(|(x, k)| {
            if k == 0 { return x; }
            let f = g.ns;
            g.ns += 1;
            if k == 1 { g.rules.push(Rule { lhs: f, rhs: vec![] }); } else { g.rules.push(Rule { lhs: f, rhs: vec![x] }); }
            g.rules.push(Rule { lhs: f, rhs: vec![f, x] });
            f
        }).collect();
        g.rules.push(Rule { lhs: l, rhs });
    }
    (g, names)
}
fn lhs_count(g: &G) -> usize { g.rules.iter().fold(0, |m, r| m | one(r.lhs)).count_ones() as usize }
/// `c` has exactly the given names, and its named symbols derive what those of `a` derive
fn means(c: &Cfg, a: &Ast, wl: u64) {
    let (want, names) = meaning(a);
    let h = G::of(c);
    let mut to = vec![];
    let mut fresh = names.len() as u64;
    let mut found = 0;
    for s in 0..h.ns {
        match c.sym_source().original_name_of(sym(s)) {
            Some(n) => {
                let n: &str = n;
                match names.iter().position(|x| &x[..] == n) { Some(i) => { to.push(i as u64); found |= one(i as u64); } None => { sx::fail(11); return; } }
            }
            None => { to.push(fresh); fresh += 1; }
        }
    }
    sx::check(found == one(names.len() as u64) - 1 && h.ns - found.count_ones() as u64 == fresh - names.len() as u64, 12);
    let got = G { ns: fresh, nl: 0, rules: h.rules.iter().map(|r| Rule { lhs: to[r.lhs as usize], rhs: r.rhs.iter().map(|&s| to[s as usize]).collect() }).collect() };
    let named = one(names.len() as u64) - 1;
    let w = word(names.len() as u64, wl);
    let (x, y) = (got.derives(&w, named, lhs_count(&got)) & named, want.derives(&w, named, lhs_count(&want)) & named);
    sx::check(x == y, 13);
    sx::note(x);
    // the root is the first left-hand side, and rules are numbered as written
    sx::check(c.roots().len() == 1 && to[val(c.roots()[0]) as usize] == 0, 14);
    let mut k = 0;
    for (r, g) in c.rules().zip(&got.rules) {
        if g.lhs >= names.len() as u64 { continue; }
        k += 1;
        sx::check(r.history.origin().id == k && r.rhs.len() == a[k as usize - 1].1.len(), 15);
        sx::check(names[g.lhs as usize] == a[k as usize - 1].0, 16);
        for (&s, (n, rep)) in g.rhs.iter().zip(&a[k as usize - 1].1) { sx::check((s < names.len() as u64) == (*rep == 0) && (*rep > 0 || names[s as usize] == *n), 17); }
    }
    sx::check(k as usize == a.len(), 18);
}
pub fn load(text: &[u8], wl: u64) {
    let s = std::str::from_utf8(text).unwrap();
    let got = Cfg::load(s);
    let t = lex(text);
    match (got, t) {
        (Err(e), Err((l, c))) => { sx::check(e.line == l && e.col == c, 2); sx::note(1); }
        (Err(_), Ok(t)) => { sx::check(parse(&t).is_none(), 3); sx::note(2); }
        (Ok(_), Err(_)) => sx::fail(4),
        (Ok(c), Ok(t)) => match parse(&t) { Some(a) => { sx::cover(true, 1); means(&c, &a, wl) } None => sx::fail(5) },
    }
}
const HEAD: [&[u8]; 6] = [b"", b"a::=", b"a::=b", b"a::=b;", b"\nab ::= b\n |", b"a ::= b*c+ (); b :"];
// Any text of a given length after a fixed beginning. params: length, beginning
entry! { fn load_text() {
    let n = sx::param(0);
    let mut text = HEAD[sx::param(1) as usize].to_vec();
    for _ in 0..n {
        let c = match sx::conc(sx::range(17)) {
            0 => b'a' + sx::conc(sx::range(2)) as u8,
            1 => [b'Z', b'_'][sx::conc(sx::range(2)) as usize],
            2 => b'7',
            k @ 3..=14 => b":=;|+*() \n\t="[k as usize - 3],
            15 => {
                // any character of two bytes
                let (x, y) = (sx::u(8) as u8, sx::u(8) as u8);
                sx::assume((x >= 0xc2) & (x < 0xe0) & (y >= 0x80) & (y < 0xc0));
                text.push(x);
                y
            }
            _ => {
                // any other ASCII character
                let c = sx::u(8) as u8;
                sx::assume((c < 128) & !c.is_ascii_alphanumeric());
                sx::assume(b"_:;|+*() \n\t".iter().fold(true, |a, &x| a & (x != c)));
                c
            }
        };
        text.push(c);
    }
    load(&text, 1);
} }
// Each of the first 256 characters in several places. params: none
entry! { fn load_char() {
    let c = char::from_u32(sx::conc(sx::range(256)) as u32).unwrap();
    let text = match sx::conc(sx::range(6)) {
        0 => format!("{}::=b;", c),
        1 => format!("a{}::=b;", c),
        2 => format!("a ::= b\n\t{};", c),
        3 => format!("a ::= b{} c;\nb{}c ::= ;", c, c),
        4 => format!("a{}::= b;", c),
        _ => format!("a ::= b;{}c ::= a;", c),
    };
    load(text.as_bytes(), 1);
} }
// Any sequence of tokens, with white space or none between them. params: tokens, names, word length, white space
entry! { fn load_tokens() {
    let (n, names, wl, ws) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
    let mut text = vec![];
    let mut t = vec![];
    for _ in 0..n {
        let k = sx::conc(sx::range(7 + names));
        let (x, s): (Tok, &[u8]) = match k {
            0 => (Tok::Op, b"::="), 1 => (Tok::Semi, b";"), 2 => (Tok::Pipe, b"|"), 3 => (Tok::Plus, b"+"), 4 => (Tok::Mul, b"*"), 5 => (Tok::L, b"("), 6 => (Tok::R, b")"),
            7 => (Tok::Id("a".into()), b"a"), 8 => (Tok::Id("bc".into()), b"bc"), _ => (Tok::Id("g2".into()), b"g2"),
        };
        let need = matches!((&x, t.last()), (Tok::Id(_), Some(Tok::Id(_))));
        if ws == 1 && !t.is_empty() && !need { if sx::conc(sx::range(2)) == 1 { text.push(b'\n'); } } else if need { text.push([b' ', b'\t', b'\n'][sx::conc(sx::range(3)) as usize]); }
        text.extend(s);
        t.push(x);
        // what follows an impossible beginning does not matter
        if !prefix(&t) { break; }
    }
    load(&text, wl);
} }
// A text of many rules, with any tokens at one of three places in it. params: rules, tokens up to, word length, blanks and line ends between the rules
entry! { fn load_many() {
    let (n, k, wl, pad) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
    let mut text = String::new();
    let at = [1, n / 2, n - 1][sx::conc(sx::range(3)) as usize];
    for i in 0..n {
        let (x, y) = ((i + 1) % n, (i * i + 2) % n);
        text.push_str(&format!("rule_{i} ::= "));
        text.push_str(&match i % 5 { 0 => format!("rule_{x}* rule_{y}"), 1 => format!("rule_{x} | () | rule_{y}+ rule_{x}"), 2 => format!("rule_{y}+"), 3 => String::new(), _ => format!("rule_{y} rule_{x} rule_{x} |\tletter") });
        if i == at {
            for _ in 0..sx::conc(sx::range(k + 1)) {
                text.push_str([" *", " +", " | ", " () ", ";", " letter ", " rule_0", " ::= ", " $"][sx::conc(sx::range(9)) as usize]);
            }
        }
        text.push_str(";");
        for j in 0..pad { text.push_str(if j % 9 == 8 { "\n" } else { " " }); }
    }
    load(text.as_bytes(), wl);
} }
// Text written by to_bnf loads as the same grammar. params: ns, nl, rules, minlen, maxlen, named symbols
entry! { fn round_trip() {
    let (ns, nl, r, lo, hi, named) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
    let mut g = G::any(ns, nl, r, lo, hi);
    // the text depends on every symbol
    for r in &mut g.rules { r.lhs = sx::conc(r.lhs); for s in &mut r.rhs { *s = sx::conc(*s); } }
    let names = ["Start", "x_1", "Z", "_"];
    let mut c = Cfg::new();
    for i in 0..ns { c.next_sym(if i < named { Some(names[i as usize].into()) } else { None }); }
    for r in &g.rules { let v: Vec<_> = r.rhs.iter().map(|&s| sym(s)).collect(); c.rule(sym(r.lhs)).rhs(&v[..]); }
    let text = c.to_bnf();
    let Ok(d) = Cfg::load(&text) else { sx::fail(21); return };
    let h = G::of(&d);
    let name = |s: u64| if s < named { names[s as usize].to_string() } else { format!("g{}", s) };
    sx::check(h.rules.len() == g.rules.len(), 22);
    for (x, y) in g.rules.iter().zip(&h.rules) {
        let n = |s: u64| d.sym_source().name_of(sym(s)).to_string();
        sx::check(name(x.lhs) == n(y.lhs) && x.rhs.len() == y.rhs.len(), 23);
        for (&p, &q) in x.rhs.iter().zip(&y.rhs) { sx::check(name(p) == n(q), 24); }
    }
    // names are distinct
    let all: Vec<String> = (0..h.ns).map(|s| d.sym_source().name_of(sym(s)).to_string()).collect();
    for i in 0..all.len() { for j in 0..i { sx::check(all[i] != all[j], 25); } }
    sx::check(d.to_bnf() == text, 26);
    sx::check(n_used(&g) == h.ns, 27);
    sx::note(h.ns);
} }
fn n_used(g: &G) -> u64 { (g.lhs_mask() | g.rhs_mask()).count_ones() as u64 }
