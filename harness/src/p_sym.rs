//! Symbol sources: dense, distinct, fresh symbols and their names.
use crate::gram::*;
use crate::sx;
use cfg_symbol::{Symbol, SymbolPrimitive, SymbolSource};
use std::borrow::Cow;
use std::num::{NonZeroU8, NonZeroU16, NonZeroU32};

fn letter() -> (u64, String) {
    let c = sx::range(3);
    (c, String::from((b'a' + c as u8) as char))
}
fn name_is(s: &str, c: u64) -> bool { s.len() == 1 && s.as_bytes()[0] as u64 == b'a' as u64 + c }

// A history of operations on one source, against a list of names. params: operations, truncations allowed, look at the name map
entry! { fn source_history() {
    let (ops, truncs) = (sx::param(0), sx::param(1));
    let mut src = SymbolSource::<NonZeroU32>::new();
    let mut model: Vec<Option<u64>> = vec![];
    let mut left = truncs;
    for _ in 0..ops {
        let n = model.len();
        match sx::conc(sx::range(if left > 0 && n > 0 { 6 } else { 5 })) {
            0 => {
                let s = src.next_sym(None);
                sx::check(val(s) == n as u64, 1);
                model.push(None);
            }
            1 => {
                let (c, name) = letter();
                let s = src.next_sym(Some(Cow::Owned(name)));
                sx::check(val(s) == n as u64, 1);
                model.push(Some(c));
            }
            2 => {
                let s: [Symbol; 2] = src.sym();
                sx::check((val(s[0]) == n as u64) & (val(s[1]) == n as u64 + 1), 2);
                model.push(None);
                model.push(None);
            }
            3 => {
                let s = src.with_names([None, Some("b")]);
                sx::check((val(s[0]) == n as u64) & (val(s[1]) == n as u64 + 1), 3);
                model.push(None);
                model.push(Some(1));
            }
            4 => {
                let s: Vec<Symbol> = src.generate().take(2).collect();
                sx::check(s.len() == 2 && (val(s[0]) == n as u64) & (val(s[1]) == n as u64 + 1), 4);
                model.push(None);
                model.push(None);
            }
            _ => {
                left -= 1;
                let k = sx::conc(1 + sx::range(n as u64)) as usize;
                src.truncate(k);
                model.truncate(k);
            }
        }
        sx::check(src.num_syms() == model.len(), 5);
    }
    let names = src.names();
    sx::check(names.len() == model.len(), 6);
    for (i, m) in model.iter().enumerate() {
        let s = sym(i as u64);
        match m {
            None => {
                sx::check(src.original_name_of(s).is_none(), 7);
                sx::check(names[i].is_none(), 7);
                let want = format!("g{}", i);
                sx::check(*src.name_of(s) == *want, 8);
            }
            Some(c) => {
                let o = src.original_name_of(s);
                sx::check(o.is_some_and(|x| name_is(x, *c)), 9);
                sx::check(name_is(&src.name_of(s), *c), 9);
                sx::check(names[i].as_ref().is_some_and(|x| name_is(x, *c)), 9);
            }
        }
    }
    // a symbol that was truncated or never generated has no name
    let beyond = model.len() as u64 + sx::range(3);
    sx::check(src.original_name_of(sym(beyond)).is_none(), 10);
    sx::note(model.len() as u64);
    sx::cover(left < truncs, 2);
    if sx::param(2) == 0 { return; }
    // the name map holds exactly the names
    let map = src.name_map();
    let mut distinct = 0;
    for c in 0..3u64 {
        let has = model.iter().fold(false, |a, m| a | (m.is_some() && *m == Some(c)));
        let name = String::from((b'a' + c as u8) as char);
        let got = map.get(&*name).copied();
        if has {
            distinct += 1;
            sx::check(got.is_some(), 11);
            let i = got.map_or(!0, val);
            sx::check(i < model.len() as u64, 12);
            sx::check(model[sx::conc(i) as usize] == Some(c), 12);
        } else {
            sx::check(got.is_none(), 13);
        }
    }
    sx::check(map.len() == distinct, 14);
    sx::cover(distinct > 1, 1);
} }
/// `count` symbols one after the other, then truncation to any length of `window` lengths and one more symbol.
fn dense<T: SymbolPrimitive>(count: u64, window: u64) {
    let mut src = SymbolSource::<T>::new();
    for i in 0..count {
        sx::check(src.num_syms() as u64 == i, 21);
        let s = src.next_sym(None);
        sx::check(s.usize() as u64 == i, 22);
        let x: u32 = s.into();
        sx::check(x as u64 == i, 22);
    }
    sx::check(src.num_syms() as u64 == count, 23);
    let k = sx::conc(count - sx::range(window));
    src.truncate(k as usize);
    sx::check(src.num_syms() as u64 == k, 24);
    sx::check(src.names().len() as u64 == k, 24);
    if k < T::MAX as u64 - 1 {
        let s = src.next_sym(None);
        sx::check(s.usize() as u64 == k, 25);
    }
    sx::note(k);
}
// every symbol of the 8-bit space
entry! { fn dense_u8() { dense::<NonZeroU8>(sx::param(0), sx::param(1)); } }
entry! { fn dense_u16() { dense::<NonZeroU16>(sx::param(0), sx::param(1)); } }
entry! { fn dense_u32() { dense::<NonZeroU32>(sx::param(0), sx::param(1)); } }
// Symbols compare by numeric value. params: none
entry! { fn symbol_order() {
    let (a, b) = (sx::u(32), sx::u(32));
    sx::assume(a < u32::MAX as u64 && b < u32::MAX as u64);
    let (x, y) = (sym(a), sym(b));
    sx::check((x == y) == (a == b), 31);
    sx::check((x < y) == (a < b), 32);
    sx::check((x.cmp(&y) as i8) == (a.cmp(&b) as i8), 33);
    sx::check(val(Symbol::first()) == 0, 34);
    sx::check(<Symbol as Default>::default() == Symbol::first(), 35);
    sx::note((x < y) as u64);
} }
// the stream of fresh symbols. params: number
entry! { fn fresh_stream() {
    let n = sx::param(0);
    let k = sx::conc(sx::range(n));
    let s: Option<Symbol<NonZeroU8>> = SymbolSource::generate_fresh().nth(k as usize);
    sx::check(s.is_some_and(|s| s.usize() as u64 == k), 41);
    let mut src = SymbolSource::<NonZeroU8>::new();
    let t = src.generate().nth(k as usize);
    sx::check(t.is_some_and(|s| s.usize() as u64 == k), 42);
    sx::check(src.num_syms() as u64 == k + 1, 43);
    sx::note(k);
} }
