//! Character classes and the map from characters to the symbols of their classes.
use crate::gram::*;
use crate::sx;
use cfg_regexp_logic::{LexerClasses, LexerMap};
use regex_syntax::hir::{Class, ClassBytes, ClassBytesRange, ClassUnicode, ClassUnicodeRange};

const BASE: [u64; 6] = [0, 0x61, 0x7e, 0xfe, 0xd7fe, 0x10fffc];
/// a character near one of the first `w` places where something changes
fn near(w: u64, width: u64) -> char {
    let b = BASE[sx::conc(sx::range(w)) as usize];
    let v = b + sx::conc(sx::range(width));
    let v = if b == 0xd7fe && v >= 0xd800 { v + 0x800 } else { v };
    char::from_u32(v as u32).unwrap()
}
/// any character
fn any_char() -> char {
    let v = sx::u(21);
    sx::assume((v < 0xd800) | (v >= 0xe000) & (v <= 0x10ffff));
    char::from_u32(v as u32).unwrap()
}
/// ranges of a class, and the class; `lit`: the literal's character
struct C { ranges: Vec<(char, char)>, lit: Option<char>, class: LexerClasses }
fn class(w: u64, width: u64, kinds: u64) -> C {
    match sx::conc(sx::range(kinds)) {
        0 => { let (a, b) = (near(w, width), near(w, width)); sx::assume(a <= b);
            C { ranges: vec![(a, b)], lit: None, class: Class::Unicode(ClassUnicode::new([ClassUnicodeRange::new(a, b)])).into() } }
        1 => { let c = near(w, width); C { ranges: vec![(c, c)], lit: Some(c), class: c.into() } }
        2 => { let v: Vec<char> = (0..4).map(|_| near(w, width)).collect(); sx::assume(v[0] <= v[1] && v[1] <= v[2] && v[2] <= v[3]);
            C { ranges: vec![(v[0], v[1]), (v[2], v[3])], lit: None, class: Class::Unicode(ClassUnicode::new([ClassUnicodeRange::new(v[2], v[3]), ClassUnicodeRange::new(v[0], v[1])])).into() } }
        3 => { let (a, b) = (near(w.min(4), width), near(w.min(4), width)); sx::assume(a <= b && b as u32 <= 255);
            C { ranges: vec![(a, b)], lit: None, class: Class::Bytes(ClassBytes::new([ClassBytesRange::new(a as u32 as u8, b as u32 as u8)])).into() } }
        _ => { let c = near(w.min(4), width); sx::assume(c as u32 <= 255); C { ranges: vec![(c, c)], lit: Some(c), class: (c as u32 as u8).into() } }
    }
}
// params: classes, places, width, kinds of classes, fixed ranges one inside the other
entry! { fn lexer_map() {
    let (n, w, width, kinds) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
    let mut v: Vec<C> = (0..n).map(|_| class(w, width, kinds)).collect();
    for i in 0..sx::param(4) as u32 {
        let (a, b) = (char::from_u32(0x40 + 7 * i).unwrap(), char::from_u32(0x10f000 - i).unwrap());
        v.push(C { ranges: vec![(a, b)], lit: None, class: Class::Unicode(ClassUnicode::new([ClassUnicodeRange::new(a, b)])).into() });
    }
    let mut m = LexerMap::new();
    for (i, c) in v.iter().enumerate() {
        // what was computed before does not matter
        if i == 1 { m.classes.insert('b'.into(), sym(63)); m.compute(); m.classes.remove(&'b'.into()); }
        m.classes.insert(c.class.clone(), sym(i as u64));
    }
    m.compute();
    // every ASCII character in turn, and all others at once
    let other = any_char();
    sx::assume(other as u32 >= 128);
    // known finding: a literal's class reaches to the next character
    let skip = |ch: char| v.iter().fold(false, |a, c| a | c.lit.is_some_and(|l| (ch as u32 == l as u32 + 1) | (l == '\u{d7ff}') & (ch == '\u{e000}')));
    sx::assume(!skip(other));
    let mut all = 0u64;
    for k in 0..129 {
        let ch = if k == 128 { other } else { k as u8 as char };
        if k < 128 && skip(ch) { continue; }
        let mut mask = 0;
        let mut twice = false;
        for &s in m.get(ch) { twice |= bit(mask, val(s)); mask |= one(val(s)); }
        let mut want = 0;
        let mut live = 0;
        for (i, c) in v.iter().enumerate() {
            // of equal classes the last one counts
            if m.classes.get(&c.class) == Some(&sym(i as u64)) { live |= one(i as u64); }
            let inside = c.ranges.iter().fold(false, |a, r| a | (ch >= r.0) & (ch <= r.1));
            want |= when(inside, one(i as u64));
        }
        sx::check((mask == want & live) & !twice, 1);
        all = all.wrapping_mul(31).wrapping_add(mask);
        if k == 128 { sx::cover(mask != 0, 1); }
    }
    sx::note(all);
} }
// The same for characters one by one, without a symbolic one. params: classes, places, width, kinds of classes
entry! { fn lexer_chars() {
    let (n, w, width, kinds) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
    let v: Vec<C> = (0..n).map(|_| class(w, width, kinds)).collect();
    let mut m = LexerMap::new();
    for (i, c) in v.iter().enumerate() { m.classes.insert(c.class.clone(), sym(i as u64)); }
    m.compute();
    let (mut good, mut all) = (true, 0u64);
    for k in (0..0x140).chain(0x7f8..0x808).chain(0xd7f0..0xe008).chain(0xfff8..0x10008).chain(0x10fff0..0x110000) {
        let Some(ch) = char::from_u32(k) else { continue };
        if v.iter().any(|c| c.lit.is_some_and(|l| k == l as u32 + 1 || l == '\u{d7ff}' && k == 0xe000)) { continue; }
        let (mut want, mut mask, mut twice) = (0, 0, false);
        for &s in m.get(ch) { twice |= bit(mask, val(s)); mask |= one(val(s)); }
        for (i, c) in v.iter().enumerate() {
            // of equal classes the last one counts
            if m.classes.get(&c.class) == Some(&sym(i as u64)) && c.ranges.iter().any(|r| r.0 <= ch && ch <= r.1) { want |= one(i as u64); }
        }
        good &= mask == want && !twice;
        all = all.wrapping_mul(31).wrapping_add(mask);
    }
    sx::check(good, 21);
    sx::note(all);
} }
// A literal matches its own character only. params: places, width
entry! { fn literal_only() {
    let c = near(sx::param(0), sx::param(1));
    let mut m = LexerMap::new();
    m.classes.insert(c.into(), sym(0));
    m.compute();
    let ch = near(sx::param(0), sx::param(1));
    sx::check(m.get(ch).len() == (c == ch) as usize, 11);
    sx::note(m.get(ch).len() as u64);
} }
