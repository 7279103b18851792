//! Byte-addressed copy-on-write memory with a per-byte symbolic overlay.
use crate::expr::*;
use std::rc::Rc;

pub const PSH: u32 = 9;
pub const PSZ: usize = 1 << PSH;
pub const GBASE: u64 = 0x0010_0000;
pub const HBASE: u64 = 0x4000_0000;
pub const SBASE: u64 = 0x8000_0000;
pub const FBASE: u64 = 0xC000_0000;

/// symbolic byte: 0 = concrete; else (expr << 8 | byte index)
type SB = u64;

#[derive(Clone)]
pub struct Page { pub b: [u8; PSZ], pub s: Option<Box<[SB; PSZ]>> }

#[derive(Clone, Default)]
pub struct Mem { r: [Vec<Option<Rc<Page>>>; 4] }

#[derive(Clone, Copy, Debug)]
pub struct Wild(pub u64);

pub enum Ld { C(u128), S(E) }

impl Mem {
    pub fn new() -> Self { Mem::default() }
    #[inline]
    fn page(&self, a: u64) -> Result<&Page, Wild> {
        let r = (a >> 30) as usize;
        if r >= 3 || a < 4096 { return Err(Wild(a)); }
        match self.r[r].get(((a & 0x3fff_ffff) >> PSH) as usize) {
            Some(Some(p)) => Ok(p),
            _ => Err(Wild(a)),
        }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Result<&mut Page, Wild> {
        let r = (a >> 30) as usize;
        if r >= 3 || a < 4096 { return Err(Wild(a)); }
        match self.r[r].get_mut(((a & 0x3fff_ffff) >> PSH) as usize) {
            Some(Some(p)) => Ok(Rc::make_mut(p)),
            _ => Err(Wild(a)),
        }
    }
    /// make [a, a+n) accessible
    pub fn map(&mut self, a: u64, n: u64) {
        let r = (a >> 30) as usize;
        assert!(r < 3, "address space exhausted");
        let first = ((a & 0x3fff_ffff) >> PSH) as usize;
        let last = (((a + n.max(1) - 1) & 0x3fff_ffff) >> PSH) as usize;
        let v = &mut self.r[r];
        if v.len() <= last { v.resize(last + 1, None); }
        for p in &mut v[first..=last] {
            if p.is_none() { *p = Some(Rc::new(Page { b: [0; PSZ], s: None })); }
        }
    }
    pub fn read(&self, pool: &mut Pool, a: u64, n: usize) -> Result<Ld, Wild> {
        let off = (a as usize) & (PSZ - 1);
        if off + n <= PSZ {
            let p = self.page(a)?;
            let conc = match &p.s { None => true, Some(s) => s[off..off + n].iter().all(|&x| x == 0) };
            if conc {
                if n == 8 { return Ok(Ld::C(u64::from_le_bytes(p.b[off..off + 8].try_into().unwrap()) as u128)); }
                let mut v = 0u128;
                for i in (0..n).rev() { v = (v << 8) | p.b[off + i] as u128; }
                return Ok(Ld::C(v));
            }
        }
        let mut bytes: Vec<Result<u8, SB>> = Vec::with_capacity(n);
        for i in 0..n { bytes.push(self.read_byte(a + i as u64)?); }
        if bytes.iter().all(|b| b.is_ok()) {
            let mut v = 0u128;
            for i in (0..n).rev() { v = (v << 8) | bytes[i].unwrap() as u128; }
            return Ok(Ld::C(v));
        }
        // whole expression?
        if let Err(s) = bytes[0] {
            let e = (s >> 8) as E;
            if s & 255 == 0 && bytes.iter().enumerate().all(|(i, b)| *b == Err(((e as u64) << 8) | i as u64)) {
                let w = pool.w(e);
                if w == 8 * n as u32 { return Ok(Ld::S(e)); }
                if w > 8 * n as u32 { return Ok(Ld::S(pool.extract(e, 8 * n as u32 - 1, 0))); }
            }
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let x = match bytes[i] {
                Ok(b) => pool.cst(b as u128, 8),
                Err(s) => { let e = (s >> 8) as E; let k = (s & 255) as u32; pool.extract(e, 8 * k + 7, 8 * k) }
            };
            acc = Some(match acc { None => x, Some(l) => pool.concat(x, l) });
        }
        let e = acc.unwrap();
        Ok(match pool.as_const(e) { Some(k) => Ld::C(k), None => Ld::S(e) })
    }
    #[inline]
    pub fn read_byte(&self, a: u64) -> Result<Result<u8, SB>, Wild> {
        let p = self.page(a)?;
        let off = (a as usize) & (PSZ - 1);
        Ok(match &p.s { Some(s) if s[off] != 0 => Err(s[off]), _ => Ok(p.b[off]) })
    }
    #[inline]
    pub fn write_byte(&mut self, a: u64, v: Result<u8, SB>) -> Result<(), Wild> {
        let p = self.page_mut(a)?;
        let off = (a as usize) & (PSZ - 1);
        match v {
            Ok(b) => { p.b[off] = b; if let Some(s) = &mut p.s { s[off] = 0; } }
            Err(x) => { p.s.get_or_insert_with(|| Box::new([0; PSZ]))[off] = x; }
        }
        Ok(())
    }
    pub fn write_c(&mut self, a: u64, n: usize, v: u128) -> Result<(), Wild> {
        let off = (a as usize) & (PSZ - 1);
        if off + n <= PSZ {
            let p = self.page_mut(a)?;
            p.b[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = &mut p.s { for x in &mut s[off..off + n] { *x = 0; } }
            return Ok(());
        }
        for i in 0..n { self.write_byte(a + i as u64, Ok((v >> (8 * i)) as u8))?; }
        Ok(())
    }
    pub fn write_s(&mut self, a: u64, n: usize, e: E) -> Result<(), Wild> {
        for i in 0..n { self.write_byte(a + i as u64, Err(((e as u64) << 8) | i as u64))?; }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Wild> {
        if n == 0 || dst == src { return Ok(()); }
        // chunked copy through a temporary when both ranges are page-concrete
        let mut tmp: Vec<u8> = Vec::with_capacity(n as usize);
        let mut any_sym = false;
        let mut i = 0u64;
        while i < n {
            let a = src + i;
            let off = (a as usize) & (PSZ - 1);
            let l = ((PSZ - off) as u64).min(n - i) as usize;
            let p = self.page(a)?;
            if let Some(s) = &p.s { if s[off..off + l].iter().any(|&x| x != 0) { any_sym = true; } }
            tmp.extend_from_slice(&p.b[off..off + l]);
            i += l as u64;
        }
        if !any_sym {
            return self.write_bytes(dst, &tmp);
        }
        let v: Result<Vec<_>, _> = (0..n).map(|i| self.read_byte(src + i)).collect();
        for (i, b) in v?.into_iter().enumerate() { self.write_byte(dst + i as u64, b)?; }
        Ok(())
    }
    pub fn write_bytes(&mut self, dst: u64, d: &[u8]) -> Result<(), Wild> {
        let mut i = 0usize;
        while i < d.len() {
            let a = dst + i as u64;
            let off = (a as usize) & (PSZ - 1);
            let l = (PSZ - off).min(d.len() - i);
            let p = self.page_mut(a)?;
            p.b[off..off + l].copy_from_slice(&d[i..i + l]);
            if let Some(s) = &mut p.s { for x in &mut s[off..off + l] { *x = 0; } }
            i += l;
        }
        Ok(())
    }
}
