//! miniserde representations: symbols, sources, mappings, symbol sets.
use crate::gram::*;
use crate::sx;
use cfg_grammar::SymbolBitSet;
use cfg_symbol::intern::Mapping;
use cfg_symbol::{Symbol, SymbolName, SymbolPrimitive, SymbolSource};
use miniserde::de::Deserialize;
use miniserde::ser::{Fragment, Serialize};
use miniserde::json;
use nanoserde::{DeBin, SerBin};
use std::num::{NonZeroU8, NonZeroU16, NonZeroU32};

fn one_symbol<T: SymbolPrimitive>(max: u64) {
    let n = sx::u(64);
    let mut out: Option<Symbol<T>> = None;
    let ok = Deserialize::begin(&mut out).nonnegative(n).is_ok();
    sx::check(ok == (n < max), 1);
    sx::check(ok == out.is_some(), 2);
    if let Some(s) = out {
        sx::check(s.usize() as u64 == n, 3);
        match s.begin() {
            Fragment::U64(m) => sx::check(m == n, 4),
            _ => sx::fail(5),
        }
    }
    sx::cover(ok, 1);
    sx::cover(!ok, 2);
    sx::note(ok as u64);
}
entry! { fn symbol_u8() { one_symbol::<NonZeroU8>(u8::MAX as u64) } }
entry! { fn symbol_u16() { one_symbol::<NonZeroU16>(u16::MAX as u64) } }
entry! { fn symbol_u32() { one_symbol::<NonZeroU32>(u32::MAX as u64) } }
// Anything else than a number is refused. params: none
entry! { fn symbol_negative() {
    let n = sx::u(63);
    let mut out: Option<Symbol> = None;
    sx::check(Deserialize::begin(&mut out).negative(-1 - n as i64).is_err(), 6);
    sx::check(out.is_none(), 6);
    sx::check(Deserialize::begin(&mut out).null().is_err(), 7);
    sx::check(Deserialize::begin(&mut out).boolean(n & 1 == 1).is_err(), 7);
    sx::check(Deserialize::begin(&mut out).string("1").is_err(), 7);
    sx::check(out.is_none(), 7);
    sx::note(n);
} }
// JSON text of a symbol: numbers around the changes of length and width. params: how many at each
entry! { fn symbol_json() {
    let base = [0, 96, 250, 996, 9996, 65530, 99_996, 999_996, 9_999_996, 99_999_996, 999_999_996, 2_147_483_644, 4_294_967_280];
    let n = base[sx::conc(sx::range(base.len() as u64)) as usize] + sx::range(sx::param(0));
    let text = json::to_string(&sym(n));
    // the text is the decimal number
    let mut v = 0u64;
    for &b in text.as_bytes() {
        sx::check((b >= b'0') & (b <= b'9'), 11);
        v = v * 10 + (b - b'0') as u64;
    }
    sx::check(v == n, 12);
    match json::from_str::<Symbol>(&text) {
        Ok(s) => sx::check(val(s) == n, 13),
        Err(_) => sx::fail(14),
    }
    sx::note(n);
} }
// A symbol's name through JSON. params: characters
entry! { fn name_json() {
    let n = sx::param(0);
    // all of ASCII, control characters, quotes and backslashes included
    let cs: Vec<u64> = (0..n).map(|_| sx::range(128)).collect();
    let name: String = cs.iter().map(|&c| c as u8 as char).collect();
    let name = SymbolName::from(&name[..]);
    let text = json::to_string(&name);
    let Ok(back) = json::from_str::<SymbolName>(&text) else { sx::fail(21); return };
    sx::check(back.len() as u64 == n, 22);
    for (a, b) in back.as_bytes().iter().zip(&cs) { sx::check(*a as u64 == *b, 23); }
    sx::note(text.len() as u64);
} }
// params: external symbols, internal symbols
entry! { fn mapping_json() {
    let (e, i) = (sx::param(0), sx::param(1));
    let mut m = Mapping::new(e as usize);
    let mut te = vec![];
    let mut ti = vec![];
    for x in 0..e {
        let v = if sx::conc(sx::range(2)) == 1 { Some(sx::range(12)) } else { None };
        m.to_internal[x as usize] = v.map(sym);
        te.push(v);
    }
    for _ in 0..i { let v = sx::range(12); m.to_external.push(sym(v)); ti.push(v); }
    let text = json::to_string(&m);
    let Ok(back) = json::from_str::<Mapping>(&text) else { sx::fail(31); return };
    sx::check(back.to_internal.len() == te.len() && back.to_external.len() == ti.len(), 32);
    for (a, b) in back.to_internal.iter().zip(&te) {
        sx::check(a.is_some() == b.is_some(), 33);
        if let (Some(a), Some(b)) = (a, b) { sx::check(val(*a) == *b, 33); }
    }
    for (a, b) in back.to_external.iter().zip(&ti) { sx::check(val(*a) == *b, 34); }
    sx::note(text.len() as u64);
} }
// params: symbols
entry! { fn set_json() {
    let n = sx::param(0);
    let mut src = SymbolSource::<NonZeroU32>::new();
    for _ in 0..n { src.next_sym(None); }
    let mut set = SymbolBitSet::new();
    set.reset(&src);
    let m = sx::range(1 << n);
    for s in 0..n { set.set(sym(s), bit(m, s)); }
    let text = json::to_string(&set);
    let Ok(back) = json::from_str::<SymbolBitSet>(&text) else { sx::fail(41); return };
    sx::check(back.space() as u64 == n, 42);
    for s in 0..n { sx::check(back[sym(s)] == bit(m, s), 43); }
    sx::note(m);
} }
// A symbol in nanoserde's binary form: any four bytes at any offset. params: largest offset
entry! { fn symbol_bin() {
    let off = sx::conc(sx::range(sx::param(0) + 1)) as usize;
    let n = sx::u(32);
    let mut bytes = vec![0u8; off];
    for i in 0..4 { bytes.push((n >> (8 * i)) as u8); }
    // cut short, exact or followed by something
    let len = match sx::conc(sx::range(3)) { 0 => off + sx::conc(sx::range(4)) as usize, 1 => off + 4, _ => { bytes.push(7); off + 5 } };
    let mut at = off;
    match Symbol::<NonZeroU32>::de_bin(&mut at, &bytes[..len]) {
        Ok(s) => {
            sx::check(len >= off + 4 && at == off + 4, 51);
            sx::check((n != 0) & (val(s) + 1 == n), 52);
            let mut again = bytes[..off].to_vec();
            s.ser_bin(&mut again);
            sx::check(again.len() == off + 4 && again.iter().zip(&bytes).all(|(a, b)| a == b), 53);
            sx::cover(true, 1);
        }
        Err(_) => { sx::check((len < off + 4) | (n == 0), 54); sx::cover(true, 2); sx::cover(len >= off + 4, 3); }
    }
    sx::note(len as u64);
} }
// What histories are made of, as JSON and in binary form: any numbers. params: bytes 1, or JSON 0
entry! { fn ids() {
    use cfg_history::earley::{EventId, ExternalOrigin, MinimalDistance};
    let n = sx::u(32) as u32;
    macro_rules! check { ($t:ident $f:ident $code:literal) => {
        let x = $t { $f: n };
        if sx::param(0) == 1 {
            let bytes = x.serialize_bin();
            sx::check($t::deserialize_bin(&bytes).is_ok_and(|y| y.$f == n), $code);
        } else {
            // the numbers that JSON writes with different lengths, four of each
            let base = [0u32, 7, 96, 996, 9996, 99_996, 999_996, 9_999_996, 99_999_996, 999_999_996, 4_294_967_292];
            let n = base[sx::conc(sx::range(base.len() as u64)) as usize] + (n & 3);
            let x = $t { $f: n };
            sx::check(json::from_str::<$t>(&json::to_string(&x)).is_ok_and(|y| y.$f == n), $code);
        }
    } }
    match sx::conc(sx::range(3)) {
        0 => { check!(EventId id 61); }
        1 => { check!(ExternalOrigin id 62); }
        _ => { check!(MinimalDistance distance 63); }
    }
    sx::note(n as u64);
} }
