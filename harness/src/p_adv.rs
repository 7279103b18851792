//! Loading of rich BNF text with a lexer.
use crate::gram::*;
use crate::sx;
use cfg_grammar::Cfg;
use cfg_load::CfgLoadAdvancedExt;
use cfg_load::advanced::AdvancedGrammar;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Id(String), Op, Semi, Pipe, Plus, Mul, Str(String), Lb, Rb, Lp, Rp, Gt, Lexer, Tilde }
/// a token with its line and column
pub type At = (Tok, u32, u32);
#[derive(Clone, Debug)]
pub enum Frag { Id(String, u64), Str(String), Call(String, usize, String, usize) }
/// a rule: LHS, its token, items, action
#[derive(Clone, Debug)]
pub struct R { lhs: String, at: usize, rhs: Vec<Frag>, action: Option<String> }

/// the tokens before the first character that starts none, and its line and column (none: a string without end)
pub fn lex(s: &str) -> (Vec<At>, Option<Option<(u32, u32)>>) {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut line, mut col) = (0, 1, 1);
    let mut o = vec![];
    while i < c.len() {
        let (from, l0, c0) = (i, line, col);
        let mut t = None;
        i += 1;
        match c[from] {
            ' ' | '\t' | '\n' => {}
            ';' => t = Some(Tok::Semi),
            '|' => t = Some(Tok::Pipe),
            '+' => t = Some(Tok::Plus),
            '*' => t = Some(Tok::Mul),
            '(' => t = Some(Tok::Lp),
            ')' => t = Some(Tok::Rp),
            '{' => t = Some(Tok::Lb),
            '}' => t = Some(Tok::Rb),
            '>' => t = Some(Tok::Gt),
            '~' => t = Some(Tok::Tilde),
            ':' if c[from..].starts_with(&[':', ':', '=']) => { i += 2; t = Some(Tok::Op) }
            '"' => {
                let mut v = String::new();
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' { i += 1; if i == c.len() { break; } }
                    v.push(c[i]);
                    i += 1;
                }
                if i >= c.len() { return (o, Some(None)); }
                i += 1;
                t = Some(Tok::Str(v));
            }
            x if x.is_ascii_alphabetic() || x == '_' => {
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1; }
                let v: String = c[from..i].iter().collect();
                t = Some(if v == "lexer" { Tok::Lexer } else { Tok::Id(v) });
            }
            _ => return (o, Some(Some((line, col)))),
        }
        for &x in &c[from..i] { if x == '\n' { line += 1; col = 1; } else { col += 1; } }
        if let Some(t) = t { o.push((t, l0, c0)); }
    }
    (o, None)
}
struct P<'a> { t: &'a [At], i: usize }
impl P<'_> {
    fn is(&self, t: &Tok) -> bool { self.t.get(self.i).map_or(false, |x| x.0 == *t) }
    fn eat(&mut self, t: &Tok) -> bool { let r = self.is(t); if r { self.i += 1; } r }
    fn need(&mut self, t: Tok) -> Option<()> { if self.eat(&t) { Some(()) } else { None } }
    fn id(&mut self) -> Option<String> { match self.t.get(self.i) { Some((Tok::Id(s), ..)) => { self.i += 1; Some(s.clone()) } _ => None } }
    fn string(&mut self) -> Option<String> { match self.t.get(self.i) { Some((Tok::Str(s), ..)) => { self.i += 1; Some(s.clone()) } _ => None } }
    fn rule(&mut self, o: &mut Vec<R>) -> Option<()> {
        let at = self.i;
        let lhs = self.id()?;
        self.need(Tok::Op)?;
        if self.eat(&Tok::Semi) { o.push(R { lhs, at, rhs: vec![], action: None }); return Some(()); }
        if self.eat(&Tok::Gt) {
            let a = self.id()?;
            self.need(Tok::Semi)?;
            o.push(R { lhs, at, rhs: vec![], action: Some(a) });
            return Some(());
        }
        loop {
            let mut rhs = vec![];
            loop {
                if let Some(s) = self.string() { rhs.push(Frag::Str(s)); } else {
                    let f = self.i;
                    let n = self.id()?;
                    if self.eat(&Tok::Lp) {
                        let at = self.i;
                        let s = self.string()?;
                        self.need(Tok::Rp)?;
                        rhs.push(Frag::Call(n, f, s, at));
                    } else {
                        let k = if self.eat(&Tok::Mul) { 1 } else if self.eat(&Tok::Plus) { 2 } else { 0 };
                        rhs.push(Frag::Id(n, k));
                    }
                }
                if !self.eat(&Tok::Tilde) { break; }
            }
            let action = if self.eat(&Tok::Gt) { Some(self.id()?) } else { None };
            o.push(R { lhs: lhs.clone(), at, rhs, action });
            if self.eat(&Tok::Semi) { return Some(()); }
            self.need(Tok::Pipe)?;
        }
    }
    fn start(&mut self, parser: &mut Vec<R>, lexer: &mut Vec<R>) -> Option<()> {
        loop {
            if self.eat(&Tok::Lexer) {
                self.need(Tok::Lb)?;
                self.rule(lexer)?;
                while !self.eat(&Tok::Rb) { self.rule(lexer)?; }
            } else { self.rule(parser)?; }
            if self.i == self.t.len() { return Some(()); }
        }
    }
}
/// rules outside and inside lexer blocks; or the number of the first token that cannot continue what is before it
pub fn parse(t: &[At]) -> Result<(Vec<R>, Vec<R>), usize> {
    let mut p = P { t, i: 0 };
    let (mut a, mut b) = (vec![], vec![]);
    match p.start(&mut a, &mut b) { Some(()) => Ok((a, b)), None => Err(p.i) }
}
const LETTERS: [char; 6] = ['x', 'q', '\\', ' ', '"', 'X'];
/// regular expressions and the words they stand for
const RE: [(&str, &[&str]); 4] = [("x", &["x"]), ("x|qq", &["x", "qq"]), ("q?x", &["x", "qx"]), ("(", &[])];

/// what is wrong with the rules first: line and column
fn wrong(t: &[At], a: &[R], b: &[R]) -> Option<(u32, u32)> {
    for (i, r) in a.iter().chain(b).enumerate() {
        if i >= a.len() && a.iter().any(|x| x.lhs == r.lhs) { return Some((t[r.at].1, t[r.at].2)); }
        for f in &r.rhs {
            if let Frag::Call(n, at, s, arg) = f {
                if n != "Regexp" { return Some((t[*at].1, t[*at].2)); }
                if s == "(" { return Some((t[*arg].1, t[*arg].2)); }
            }
        }
    }
    None
}
/// `l` means the rules `a` and lexer rules `b`
fn means(l: &AdvancedGrammar, a: &[R], b: &[R], wl: u64) {
    let mut names: Vec<String> = vec![];
    let mut strings: Vec<String> = vec![];
    for r in a.iter().chain(b) {
        if !names.contains(&r.lhs) { names.push(r.lhs.clone()); }
        for f in &r.rhs { match f {
            Frag::Id(n, _) => if !names.contains(n) { names.push(n.clone()); },
            Frag::Str(s) => if !strings.contains(s) { strings.push(s.clone()); },
            _ => {}
        } }
    }
    // symbols of the oracle: names, strings, letters, more
    let (n, m) = (names.len() as u64, strings.len() as u64);
    let seen = n + m;
    let letter = |c: char| seen + LETTERS.iter().position(|&x| x == c).unwrap_or(99) as u64;
    let mut g = G { ns: seen + LETTERS.len() as u64, nl: 0, rules: vec![] };
    for (i, s) in strings.iter().enumerate() { g.rules.push(Rule { lhs: n + i as u64, rhs: s.chars().map(letter).collect() }); }
    for r in a.iter().chain(b) {
        let rhs = r.rhs.iter().map(|f| match f {
            Frag::Str(s) => n + strings.iter().position(|x| x == s).unwrap() as u64,
            Frag::Id(x, k) => {
                let x = names.iter().position(|y| y == x).unwrap() as u64;
                if *k == 0 { return x; }
                let f = g.ns;
                g.ns += 1;
                g.rules.push(Rule { lhs: f, rhs: if *k == 1 { vec![] } else { vec![x] } });
                g.rules.push(Rule { lhs: f, rhs: vec![f, x] });
                f
            }
            Frag::Call(_, _, s, _) => {
                let f = g.ns;
                g.ns += 1;
                for w in RE.iter().find(|x| x.0 == s).unwrap().1 { g.rules.push(Rule { lhs: f, rhs: w.chars().map(letter).collect() }); }
                f
            }
        }).collect();
        g.rules.push(Rule { lhs: names.iter().position(|y| *y == r.lhs).unwrap() as u64, rhs });
    }
    let h = G::of(&l.cfg);
    // names and strings of the loaded grammar
    let mut to = vec![];
    for x in &names { match l.sym_map.get(x) { Some(&s) => { to.push(val(s)); let same = l.cfg.sym_source().original_name_of(s) == Some(&x[..]); sx::check(same, 11); } None => { sx::fail(12); return; } } }
    for i in 0..m { match l.sym_map.get(&format!("__lex{}", i)) { Some(&s) => to.push(val(s)), None => { sx::fail(13); return; } } }
    let used = to.iter().fold(0, |m, &s| m | one(s));
    sx::check(l.sym_map.len() as u64 == seen && used.count_ones() as u64 == seen && h.ns <= 60, 14);
    let classes = l.lexer_map.classes.values().fold(0, |m, &s| m | one(val(s)));
    sx::check(classes.count_ones() as usize == l.lexer_map.classes.len() && classes & (used | h.lhs_mask()) == 0, 15);
    // words of names and letters
    let mut stand: Vec<u64> = to.iter().map(|&s| one(s)).collect();
    for c in LETTERS {
        let mut k = 0;
        for (class, &s) in &l.lexer_map.classes { if class.iter().any(|(a, b)| a <= c && c <= b) { k |= one(val(s)); } }
        stand.push(k);
    }
    let w = word(seen + LETTERS.len() as u64, wl);
    let leaves: Vec<u64> = w.iter().map(|&x| row(&stand, x)).collect();
    let lc = |g: &G| g.lhs_mask().count_ones() as usize;
    let x = h.spans_over(&leaves, lc(&h))[0][wl as usize];
    let y = g.derives(&w, one(g.ns) - 1, lc(&g));
    let mut same = true;
    for (i, &s) in to.iter().enumerate() { same &= bit(x, s) == bit(y, i as u64); }
    sx::check(same, 16);
    sx::note(x);
    // root, lexemes, numbering of rules, actions
    let lexemes = b.iter().fold(0, |m, r| m | one(to[names.iter().position(|y| *y == r.lhs).unwrap()])) | to[n as usize..].iter().fold(0, |m, &s| m | one(s));
    let got = (0..h.ns).fold(0, |m, s| m | when(l.sbs[sym(s)], one(s)));
    let first = if a.is_empty() { &b[0].lhs } else { &a[0].lhs };
    let root = to[names.iter().position(|y| y == first).unwrap()];
    sx::check(got == lexemes && l.cfg.roots().len() == 1 && val(l.cfg.roots()[0]) == root, 17);
    let mut k = 0;
    let all: Vec<&R> = a.iter().chain(b).collect();
    for (r, q) in l.cfg.rules().zip(&h.rules) {
        let Some(i) = to[..n as usize].iter().position(|&s| s == q.lhs) else { continue };
        if k >= all.len() { sx::fail(18); return; }
        sx::check(names[i] == all[k].lhs && r.rhs.len() == all[k].rhs.len() && r.history.origin().id == k as u32 + 1, 19);
        sx::check(l.actions.get(&(k + 1)) == Some(&all[k].action), 20);
        k += 1;
    }
    sx::check(k == all.len() && l.actions.len() == k, 21);
}
fn load(text: &str, wl: u64) {
    let got = Cfg::load_advanced(text);
    let (t, bad) = lex(text);
    if let Some(at) = bad {
        let Err(e) = got else { sx::fail(1); return };
        // tokens before it may be impossible
        let at = match parse(&t) { Err(i) if i < t.len() => Some((t[i].1, t[i].2)), _ => at };
        sx::check(at.is_none() || at == Some((e.line, e.col)), 2);
        sx::note(1);
        return;
    }
    match parse(&t) {
        Err(i) => {
            let Err(e) = got else { sx::fail(3); return };
            sx::check(i >= t.len() || (t[i].1, t[i].2) == (e.line, e.col), 4);
            sx::note(2);
        }
        Ok((a, b)) => match wrong(&t, &a, &b) {
            Some(at) => {
                let Err(e) = got else { sx::fail(5); return };
                sx::check(at == (e.line, e.col), 6);
                sx::cover(true, 2);
                sx::note(3);
            }
            None => match got { Err(_) => sx::fail(7), Ok(l) => { sx::cover(true, 1); means(&l, &a, &b, wl) } }
        },
    }
}
const HEAD: [&str; 8] = ["", "a::=", "a::=\"x", "a::=b;", "\nb ::= a\n>", "a::=\"\\", "lexer{a::=\"x\";\n", "a ::=\n \"q\\"];
// Any text of a given length after a fixed beginning. params: length, beginning
entry! { fn adv_text() {
    let n = sx::param(0);
    let head = HEAD[sx::param(1) as usize];
    let mut text = head.as_bytes().to_vec();
    let in_string = head.contains('"') && !head.contains(';');
    for _ in 0..n {
        let c = match sx::conc(sx::range(18)) {
            k @ 0..=16 => b"axZ7:=;|+~>}\"\\ \n("[k as usize],
            // in a string every character is told apart
            _ if in_string => { text.push(0xc3); 0xa9 }
            _ => {
                // any character of two bytes
                let (x, y) = (sx::u(8) as u8, sx::u(8) as u8);
                sx::assume((x >= 0xc2) & (x < 0xe0) & (y >= 0x80) & (y < 0xc0));
                text.push(x);
                y
            }
        };
        text.push(c);
    }
    // words of strings are over the letters only
    let s = std::str::from_utf8(&text).unwrap();
    load(s, 0);
} }
// Each of the first 256 characters in several places. params: none
entry! { fn adv_char() {
    let c = char::from_u32(sx::conc(sx::range(256)) as u32).unwrap();
    let text = match sx::conc(sx::range(7)) {
        0 => format!("{}::=b;", c),
        1 => format!("a{}::=b;", c),
        2 => format!("a ::= b\n\t{};", c),
        3 => format!("a ::= b{}~ c;\nb{}c ::= ;", c, c),
        4 => format!("a ::= \"{}\";\n::", c),
        5 => format!("a ::= \"\\{}\"\n;;", c),
        _ => format!("lexer{}{{ a ::= \"x\"; }}{}c ::= a > b;", c, c),
    };
    load(&text, 1);
} }
// Tokens up to the first impossible one. params: tokens, names, word length, line breaks
entry! { fn adv_tokens() {
    let (n, names, wl, br) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
    let mut text = String::new();
    for i in 0..n {
        let k = sx::conc(sx::range(13 + names)) as usize;
        let s = ["::=", ";", "|", "+", "*", "~", ">", "{", "}", "(", ")", "lexer", "\"x\"", "a", "Regexp"][k];
        if i > 0 { text.push(if br == 1 && (k + i as usize) % 2 == 0 { '\n' } else { ' ' }); }
        text.push_str(s);
        let t = lex(&text).0;
        if let Err(i) = parse(&t) { if i < t.len() { break; } }
    }
    load(&text, wl);
} }
fn pick(n: u64) -> u64 { sx::conc(sx::range(n)) }
// kinds of items over 100 are strings only
const ITEMS: [&str; 12] = ["a", "b", "\"x\"", "l", "b*", "l+", "\"q\\x\"", "Regexp(\"x|qq\")", "\"\"", "Regexp(\"q?x\")", "Regexp(\"(\")", "Reg(\"x\")"];
const STRINGS: [&str; 9] = ["\"x\"", "\"x\\\\\"", "\"X\"", "\" x\"", "\"x \"", "\"\\\"\"", "\"qx\"", "\"xq\"", "\"\\x\""];
// Any texts of a given shape. params: rules, lexer rules, items per alternative up to, kinds of items, word length, layout, names of rules, alternatives up to
entry! { fn adv_meaning() {
    let (nr, nl, len, kinds, wl, lay, nn, na) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5), sx::param(6), sx::param(7));
    let rule = |lexer: bool| {
        let names: [&str; 3] = if lexer { ["l", "b", "c"] } else { ["a", "b", "l"] };
        let mut s = String::from(names[pick(nn) as usize]);
        s.push_str(" ::=");
        let alts = 1 + pick(na);
        for i in 0..alts {
            if i > 0 { s.push_str("\n|"); }
            let n = if alts > 1 { 1 + pick(len) } else { pick(len + 1) };
            for j in 0..n { if j > 0 { s.push('~'); } s.push(' '); s.push_str(if kinds > 100 { STRINGS[pick(kinds - 100) as usize] } else { ITEMS[pick(kinds) as usize] }); }
            if pick(2) == 1 { s.push_str(if i == 0 { " > act" } else { " > b" }); }
        }
        s.push_str(";\n");
        s
    };
    let p: Vec<String> = (0..nr).map(|_| rule(false)).collect();
    let l: Vec<String> = (0..nl).map(|_| rule(true)).collect();
    let mut text = String::new();
    let block = |v: &[String], o: &mut String| if !v.is_empty() { o.push_str("lexer {\n"); for s in v { o.push_str(s); } o.push_str("}\n"); };
    match lay {
        0 => { for s in &p { text.push_str(s); } block(&l, &mut text); }
        1 => { block(&l, &mut text); for s in &p { text.push_str(s); } }
        _ => { let k = (l.len() / 2).max(1).min(l.len()); block(&l[..k], &mut text); for s in &p { text.push_str(s); } block(&l[k..], &mut text); }
    }
    load(&text, wl);
} }
// A text of many rules and three lexer blocks, with any tokens at one of four places in it. params: rules, tokens up to, word length, blanks and line ends between the rules
entry! { fn adv_many() {
    let (n, k, wl, pad) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
    let mut text = String::new();
    let at = [1, n / 2, n - 1, n][sx::conc(sx::range(4)) as usize];
    let gap = |text: &mut String| for j in 0..pad { text.push_str(if j % 9 == 8 { "\n" } else { " " }); };
    let more = |text: &mut String| for _ in 0..sx::conc(sx::range(k + 1)) {
        text.push_str([" *", " +", " | ", " > act", ";", " ~ word_0", " ~ rule_0", " ~ \"qq\"", " ::= ", " $", " ~ Regexp(\"q?x\")", "} lexer {"][sx::conc(sx::range(12)) as usize]);
    };
    for i in 0..n {
        let (x, y) = ((i + 1) % n, (i * i + 2) % n);
        text.push_str(&format!("rule_{i} ::= "));
        text.push_str(&match i % 5 { 0 => format!("rule_{x}* ~ rule_{y} > first_{i}"), 1 => format!("rule_{x} | \"x\" | rule_{y}+ ~ word_1 > third"), 2 => format!("\"q\\\\x\" ~ rule_{y}+"), 3 => format!("> empty_{i}"), _ => format!("rule_{y} ~ word_2 ~ rule_{x} |\tRegexp(\"x\")") });
        if i == at { more(&mut text); }
        text.push(';');
        gap(&mut text);
        if i % 2 == 1 && i < 6 {
            text.push_str(&format!("lexer {{ word_{} ::= Regexp(\"{}\") ~ \"x\"; ", i / 2, ["x|qq", "q?x", "x"][i as usize / 2]));
            gap(&mut text);
            if i == 1 { text.push_str("spare ::= \"X\""); if at == n { more(&mut text); } text.push(';'); }
            text.push('}');
            gap(&mut text);
        }
    }
    load(&text, wl);
} }
