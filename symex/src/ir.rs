//! Loads LLVM bitcode (through the LLVM C API of the toolchain's libLLVM) into a compact IR.
use crate::expr::*;
use crate::mem::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_void, CStr, CString};
use std::rc::Rc;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(ctx: P, buf: P, out: *mut P) -> c_int;
    fn LLVMGetModuleDataLayout(m: P) -> P;
    fn LLVMGetFirstGlobal(m: P) -> P;
    fn LLVMGetNextGlobal(g: P) -> P;
    fn LLVMGetFirstGlobalAlias(m: P) -> P;
    fn LLVMGetNextGlobalAlias(g: P) -> P;
    fn LLVMAliasGetAliasee(g: P) -> P;
    fn LLVMGlobalGetValueType(g: P) -> P;
    fn LLVMGetInitializer(g: P) -> P;
    fn LLVMIsDeclaration(g: P) -> c_int;
    fn LLVMGetAlignment(g: P) -> c_uint;
    fn LLVMGetValueName2(g: P, len: *mut usize) -> *const c_char;
    fn LLVMGetFirstFunction(m: P) -> P;
    fn LLVMGetNextFunction(f: P) -> P;
    fn LLVMCountParams(f: P) -> c_uint;
    fn LLVMGetParam(f: P, i: c_uint) -> P;
    fn LLVMGetFirstBasicBlock(f: P) -> P;
    fn LLVMGetNextBasicBlock(b: P) -> P;
    fn LLVMGetFirstInstruction(b: P) -> P;
    fn LLVMGetNextInstruction(i: P) -> P;
    fn LLVMGetInstructionOpcode(i: P) -> c_int;
    fn LLVMGetNumOperands(i: P) -> c_int;
    fn LLVMGetOperand(i: P, k: c_uint) -> P;
    fn LLVMTypeOf(v: P) -> P;
    fn LLVMGetTypeKind(t: P) -> c_int;
    fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    fn LLVMGetElementType(t: P) -> P;
    fn LLVMGetVectorSize(t: P) -> c_uint;
    fn LLVMGetArrayLength2(t: P) -> u64;
    fn LLVMCountStructElementTypes(t: P) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    fn LLVMOffsetOfElement(td: P, t: P, i: c_uint) -> c_ulonglong;
    fn LLVMABISizeOfType(td: P, t: P) -> c_ulonglong;
    fn LLVMStoreSizeOfType(td: P, t: P) -> c_ulonglong;
    fn LLVMABIAlignmentOfType(td: P, t: P) -> c_uint;
    fn LLVMIsAConstantInt(v: P) -> P;
    fn LLVMIsAConstantFP(v: P) -> P;
    fn LLVMIsAConstantPointerNull(v: P) -> P;
    fn LLVMIsAUndefValue(v: P) -> P;
    fn LLVMIsAConstantAggregateZero(v: P) -> P;
    fn LLVMIsAConstantDataSequential(v: P) -> P;
    fn LLVMIsAConstantArray(v: P) -> P;
    fn LLVMIsAConstantStruct(v: P) -> P;
    fn LLVMIsAConstantVector(v: P) -> P;
    fn LLVMIsAConstantExpr(v: P) -> P;
    fn LLVMIsAConstant(v: P) -> P;
    fn LLVMIsAFunction(v: P) -> P;
    fn LLVMIsAGlobalVariable(v: P) -> P;
    fn LLVMIsAGlobalAlias(v: P) -> P;
    fn LLVMIsAInlineAsm(v: P) -> P;
    fn LLVMIsABasicBlock(v: P) -> P;
    fn LLVMConstIntGetZExtValue(v: P) -> c_ulonglong;
    fn LLVMConstRealGetDouble(v: P, l: *mut c_int) -> f64;
    fn LLVMGetConstOpcode(v: P) -> c_int;
    fn LLVMGetElementAsConstant(v: P, i: c_uint) -> P;
    fn LLVMGetAsString(v: P, l: *mut usize) -> *const c_char;
    fn LLVMIsConstantString(v: P) -> c_int;
    fn LLVMPrintValueToString(v: P) -> *mut c_char;
    fn LLVMGetGEPSourceElementType(v: P) -> P;
    fn LLVMIsConditional(v: P) -> c_int;
    fn LLVMGetCondition(v: P) -> P;
    fn LLVMGetSuccessor(v: P, i: c_uint) -> P;
    fn LLVMGetNumSuccessors(v: P) -> c_uint;
    fn LLVMGetCalledValue(v: P) -> P;
    fn LLVMGetNumArgOperands(v: P) -> c_uint;
    fn LLVMGetNormalDest(v: P) -> P;
    fn LLVMCountIncoming(v: P) -> c_uint;
    fn LLVMGetIncomingValue(v: P, i: c_uint) -> P;
    fn LLVMGetIncomingBlock(v: P, i: c_uint) -> P;
    fn LLVMGetICmpPredicate(v: P) -> c_int;
    fn LLVMGetFCmpPredicate(v: P) -> c_int;
    fn LLVMGetNumIndices(v: P) -> c_uint;
    fn LLVMGetIndices(v: P) -> *const c_uint;
    fn LLVMGetNumMaskElements(v: P) -> c_uint;
    fn LLVMGetMaskValue(v: P, i: c_uint) -> c_int;
    fn LLVMGetAtomicRMWBinOp(v: P) -> c_int;
    fn LLVMGetAllocatedType(v: P) -> P;
    fn LLVMGetDebugLocLine(v: P) -> c_uint;
    fn LLVMGetDebugLocFilename(v: P, l: *mut c_uint) -> *const c_char;
    fn LLVMGetDebugLocDirectory(v: P, l: *mut c_uint) -> *const c_char;
}

/// Run-time value
#[derive(Clone, Debug)]
pub enum V { C(u64), S(E), B(Rc<u128>), A(Rc<Vec<V>>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Vec(u32, Box<Ty>), Agg(Vec<(u64, Ty)>), Other }

impl Ty {
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => n * t.bits(), _ => 0 }
    }
}

pub type Opd = u32; // register index, or CBIT | constant index
pub const CBIT: u32 = 1 << 31;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastOp { Trunc, ZExt, SExt, Bit, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FOp { Add, Sub, Mul, Div, Rem }

#[derive(Clone, Debug)]
pub enum Callee { Fun(u32), Ind(Opd), Asm }

#[derive(Clone, Debug)]
pub enum I {
    Alloca { d: u32, size: u64, align: u64, n: Option<Opd> },
    Load { d: u32, p: Opd, t: Ty },
    Store { v: Opd, p: Opd, t: Ty },
    Gep { d: u32, b: Opd, off: i64, terms: Box<[(Opd, i64, u32)]> },
    Bin { d: u32, op: Op, a: Opd, b: Opd, w: u32, lanes: u32 },
    Icmp { d: u32, p: Pred, a: Opd, b: Opd, w: u32, lanes: u32 },
    Cast { d: u32, op: CastOp, a: Opd, f: Ty, t: Ty },
    Select { d: u32, c: Opd, a: Opd, b: Opd, t: Ty, vc: bool },
    Br { t: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u32, cases: Box<[(u64, u32)]>, def: u32 },
    Ret { v: Option<Opd> },
    Unreachable,
    Call { d: u32, f: Callee, args: Box<[Opd]>, next: Option<u32>, rt: Ty, at: Box<[Ty]> },
    ExtractV { d: u32, a: Opd, idx: Box<[u32]> },
    InsertV { d: u32, a: Opd, v: Opd, idx: Box<[u32]> },
    ExtractE { d: u32, a: Opd, i: Opd },
    InsertE { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, n: u32, mask: Box<[i32]> },
    Fbin { d: u32, op: FOp, a: Opd, b: Opd, t: Ty },
    Fneg { d: u32, a: Opd, t: Ty },
    Fcmp { d: u32, p: i32, a: Opd, b: Opd, t: Ty },
    Rmw { d: u32, op: i32, p: Opd, v: Opd, t: Ty },
    CmpXchg { d: u32, p: Opd, c: Opd, n: Opd, t: Ty },
    Copy { d: u32, a: Opd },
    Nop,
    Unsupported(String),
}

pub struct Block { pub ins: Vec<I>, pub edges: Vec<(u32, Vec<(u32, Opd)>)>, pub locs: Vec<u32> }

pub struct Fun {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub consts: Vec<V>,
    pub blocks: Vec<Block>,
    pub decl: bool,
}

pub struct Module {
    pub funs: Vec<Fun>,
    pub by_name: HashMap<String, u32>,
    pub mem: Mem,
    pub locs: Vec<(String, u32)>,
}

struct Ld {
    td: P,
    gaddr: HashMap<P, u64>,
    fidx: HashMap<P, u32>,
    decl_null: std::collections::HashSet<P>,
    locs: Vec<(String, u32)>,
    locmap: HashMap<(String, u32), u32>,
}

fn name(v: P) -> String {
    unsafe { let mut l = 0; let p = LLVMGetValueName2(v, &mut l); String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).into_owned() }
}
fn print(v: P) -> String { unsafe { CStr::from_ptr(LLVMPrintValueToString(v)).to_string_lossy().into_owned() } }

impl Ld {
    unsafe fn ty(&self, t: P) -> Ty {
        match LLVMGetTypeKind(t) {
            0 => Ty::Void,
            2 => Ty::F32,
            3 => Ty::F64,
            8 => Ty::Int(LLVMGetIntTypeWidth(t)),
            12 => Ty::Ptr,
            13 => Ty::Vec(LLVMGetVectorSize(t), Box::new(self.ty(LLVMGetElementType(t)))),
            10 => Ty::Agg((0..LLVMCountStructElementTypes(t)).map(|i| (LLVMOffsetOfElement(self.td, t, i), self.ty(LLVMStructGetTypeAtIndex(t, i)))).collect()),
            11 => {
                let et = LLVMGetElementType(t);
                let sz = LLVMABISizeOfType(self.td, et);
                let n = LLVMGetArrayLength2(t);
                if n > 4096 { return Ty::Other; }
                let e = self.ty(et);
                Ty::Agg((0..n).map(|i| (i * sz, e.clone())).collect())
            }
            _ => Ty::Other,
        }
    }
    unsafe fn cval(&self, v: P) -> Result<V, String> {
        let t = LLVMTypeOf(v);
        if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() { return Ok(zero(&self.ty(t))); }
        if !LLVMIsAConstantInt(v).is_null() {
            let w = LLVMGetIntTypeWidth(t);
            if w <= 64 { return Ok(V::C(LLVMConstIntGetZExtValue(v) & mask(w))); }
            let s = print(v);
            let n = s.rsplit(' ').next().unwrap().to_string();
            let k = if let Some(x) = n.strip_prefix('-') { (x.parse::<u128>().unwrap()).wrapping_neg() } else { n.parse::<u128>().unwrap() };
            return Ok(V::B(Rc::new(k & mask128(w))));
        }
        if !LLVMIsAConstantFP(v).is_null() {
            let mut l = 0;
            let d = LLVMConstRealGetDouble(v, &mut l);
            return Ok(V::C(if LLVMGetTypeKind(t) == 2 { (d as f32).to_bits() as u64 } else { d.to_bits() }));
        }
        if !LLVMIsAConstantPointerNull(v).is_null() { return Ok(V::C(0)); }
        if !LLVMIsAFunction(v).is_null() {
            let i = self.fidx[&v];
            return Ok(V::C(if self.decl_null.contains(&v) { 0 } else { FBASE + 16 * i as u64 }));
        }
        if !LLVMIsAGlobalVariable(v).is_null() || !LLVMIsAGlobalAlias(v).is_null() {
            return self.gaddr.get(&v).map(|a| V::C(*a)).ok_or(format!("global {}", name(v)));
        }
        if !LLVMIsAConstantDataSequential(v).is_null() {
            let n = if LLVMGetTypeKind(t) == 13 { LLVMGetVectorSize(t) as u64 } else { LLVMGetArrayLength2(t) };
            let mut r = vec![];
            for i in 0..n { r.push(self.cval(LLVMGetElementAsConstant(v, i as u32))?); }
            return Ok(V::A(Rc::new(r)));
        }
        if !LLVMIsAConstantArray(v).is_null() || !LLVMIsAConstantStruct(v).is_null() || !LLVMIsAConstantVector(v).is_null() {
            let n = LLVMGetNumOperands(v);
            let mut r = vec![];
            for i in 0..n { r.push(self.cval(LLVMGetOperand(v, i as u32))?); }
            return Ok(V::A(Rc::new(r)));
        }
        if !LLVMIsAConstantExpr(v).is_null() {
            let o = |i: u32| -> Result<u64, String> { match self.cval(LLVMGetOperand(v, i))? { V::C(x) => Ok(x), _ => Err("cexpr".into()) } };
            let w = self.ty(t).bits();
            return Ok(V::C(mask(w) & match LLVMGetConstOpcode(v) {
                29 => {
                    let mut a = o(0)?;
                    let (off, terms) = self.gep(v, LLVMGetGEPSourceElementType(v))?;
                    a = a.wrapping_add(off as u64);
                    if !terms.is_empty() { return Err(format!("const gep {}", print(v))); }
                    a
                }
                39 | 40 | 41 | 30 => o(0)?,
                8 => o(0)?.wrapping_add(o(1)?),
                10 => o(0)?.wrapping_sub(o(1)?),
                25 => o(0)? ^ o(1)?,
                k => return Err(format!("const expr opcode {} {}", k, print(v))),
            }));
        }
        Err(format!("constant {}", print(v)))
    }
    /// (constant offset, [(index value, scale)])
    unsafe fn gep(&self, v: P, src: P) -> Result<(i64, Vec<(P, i64)>), String> {
        let n = LLVMGetNumOperands(v) as u32;
        let mut t = src;
        let mut off = 0i64;
        let mut terms = vec![];
        for k in 1..n {
            let ix = LLVMGetOperand(v, k);
            let c = if !LLVMIsAConstantInt(ix).is_null() { let w = LLVMGetIntTypeWidth(LLVMTypeOf(ix)); Some(sext(LLVMConstIntGetZExtValue(ix) & mask(w), w)) } else { None };
            if k > 1 && LLVMGetTypeKind(t) == 10 {
                let i = c.ok_or("gep struct idx")?;
                off += LLVMOffsetOfElement(self.td, t, i as u32) as i64;
                t = LLVMStructGetTypeAtIndex(t, i as u32);
                continue;
            }
            if k > 1 { t = LLVMGetElementType(t); }
            let sz = LLVMABISizeOfType(self.td, t) as i64;
            match c { Some(i) => off = off.wrapping_add(i.wrapping_mul(sz)), None => terms.push((ix, sz)) }
        }
        Ok((off, terms))
    }
    unsafe fn init(&self, mem: &mut Mem, a: u64, v: P) -> Result<(), String> {
        let t = LLVMTypeOf(v);
        if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() { return Ok(()); }
        if LLVMIsConstantString(v) != 0 {
            let mut l = 0;
            let p = LLVMGetAsString(v, &mut l);
            mem.write_bytes(a, std::slice::from_raw_parts(p as *const u8, l)).map_err(|e| format!("{:?}", e))?;
            return Ok(());
        }
        match LLVMGetTypeKind(t) {
            10 => { for i in 0..LLVMGetNumOperands(v) as u32 { self.init(mem, a + LLVMOffsetOfElement(self.td, t, i), LLVMGetOperand(v, i))?; } Ok(()) }
            11 | 13 => {
                let et = LLVMGetElementType(t);
                let sz = LLVMABISizeOfType(self.td, et);
                let n = if LLVMGetTypeKind(t) == 13 { LLVMGetVectorSize(t) as u64 } else { LLVMGetArrayLength2(t) };
                let seq = !LLVMIsAConstantDataSequential(v).is_null();
                for i in 0..n { self.init(mem, a + i * sz, if seq { LLVMGetElementAsConstant(v, i as u32) } else { LLVMGetOperand(v, i as u32) })?; }
                Ok(())
            }
            _ => {
                let sz = LLVMStoreSizeOfType(self.td, t) as usize;
                let k = match self.cval(v)? { V::C(x) => x as u128, V::B(x) => *x, _ => return Err("init".into()) };
                mem.write_c(a, sz, k).map_err(|e| format!("{:?}", e))
            }
        }
    }
    unsafe fn loc(&mut self, i: P) -> u32 {
        let line = LLVMGetDebugLocLine(i);
        if line == 0 { return 0; }
        let mut l = 0;
        let f = LLVMGetDebugLocFilename(i, &mut l);
        if f.is_null() { return 0; }
        let mut s = String::from_utf8_lossy(std::slice::from_raw_parts(f as *const u8, l as usize)).into_owned();
        if !s.starts_with('/') {
            let mut l = 0;
            let d = LLVMGetDebugLocDirectory(i, &mut l);
            if !d.is_null() && l > 0 { s = format!("{}/{}", String::from_utf8_lossy(std::slice::from_raw_parts(d as *const u8, l as usize)), s); }
        }
        if let Some(&k) = self.locmap.get(&(s.clone(), line)) { return k; }
        let k = self.locs.len() as u32;
        self.locs.push((s.clone(), line));
        self.locmap.insert((s, line), k);
        k
    }
}

pub fn zero(t: &Ty) -> V {
    match t {
        Ty::Vec(n, e) => V::A(Rc::new((0..*n).map(|_| zero(e)).collect())),
        Ty::Agg(f) => V::A(Rc::new(f.iter().map(|(_, e)| zero(e)).collect())),
        Ty::Int(w) if *w > 64 => V::B(Rc::new(0)),
        _ => V::C(0),
    }
}

pub fn load(path: &str) -> Module {
    unsafe {
        let ctx = LLVMContextCreate();
        let cp = CString::new(path).unwrap();
        let (mut buf, mut msg) = (std::ptr::null_mut(), std::ptr::null_mut());
        if LLVMCreateMemoryBufferWithContentsOfFile(cp.as_ptr(), &mut buf, &mut msg) != 0 { panic!("cannot read {}", path); }
        let mut m = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 { panic!("cannot parse {}", path); }
        let mut l = Ld { td: LLVMGetModuleDataLayout(m), gaddr: HashMap::new(), fidx: HashMap::new(), decl_null: Default::default(), locs: vec![("".into(), 0)], locmap: HashMap::new() };
        let mut mem = Mem::new();
        let mut a = GBASE;
        let mut g = LLVMGetFirstGlobal(m);
        let mut gl = vec![];
        while !g.is_null() {
            let t = LLVMGlobalGetValueType(g);
            let al = (LLVMGetAlignment(g) as u64).max(LLVMABIAlignmentOfType(l.td, t) as u64).max(1);
            a = (a + al - 1) / al * al;
            let sz = LLVMABISizeOfType(l.td, t).max(1);
            l.gaddr.insert(g, a);
            mem.map(a, sz + 16);
            gl.push((g, a));
            a += sz;
            g = LLVMGetNextGlobal(g);
        }
        let mut f = LLVMGetFirstFunction(m);
        let mut fl = vec![];
        while !f.is_null() {
            l.fidx.insert(f, fl.len() as u32);
            let n = name(f);
            if LLVMIsDeclaration(f) != 0 && print(f).contains("extern_weak") { l.decl_null.insert(f); }
            fl.push((f, n));
            f = LLVMGetNextFunction(f);
        }
        let mut al = LLVMGetFirstGlobalAlias(m);
        while !al.is_null() {
            let t = LLVMAliasGetAliasee(al);
            if let Ok(V::C(x)) = l.cval(t) { l.gaddr.insert(al, x); }
            al = LLVMGetNextGlobalAlias(al);
        }
        for (g, a) in gl {
            if LLVMIsDeclaration(g) != 0 { continue; }
            let i = LLVMGetInitializer(g);
            if let Err(e) = l.init(&mut mem, a, i) { eprintln!("warning: global {}: {}", name(g), e); }
        }
        let mut funs = vec![];
        let mut by_name = HashMap::new();
        for (k, (f, n)) in fl.iter().enumerate() {
            by_name.insert(n.clone(), k as u32);
            funs.push(load_fun(&mut l, *f, n.clone()));
        }
        Module { funs, by_name, mem, locs: l.locs }
    }
}

unsafe fn load_fun(l: &mut Ld, f: P, nm: String) -> Fun {
    let np = LLVMCountParams(f);
    let mut fun = Fun { name: nm, nparams: np, nregs: 0, consts: vec![], blocks: vec![], decl: LLVMIsDeclaration(f) != 0 };
    if fun.decl { return fun; }
    let mut regs: HashMap<P, u32> = HashMap::new();
    for i in 0..np { regs.insert(LLVMGetParam(f, i), i); }
    let mut n = np;
    let mut bbs: HashMap<P, u32> = HashMap::new();
    let mut list = vec![];
    let mut b = LLVMGetFirstBasicBlock(f);
    while !b.is_null() {
        bbs.insert(b, list.len() as u32);
        list.push(b);
        let mut i = LLVMGetFirstInstruction(b);
        while !i.is_null() { regs.insert(i, n); n += 1; i = LLVMGetNextInstruction(i); }
        b = LLVMGetNextBasicBlock(b);
    }
    fun.nregs = n;
    let mut cmap: HashMap<P, u32> = HashMap::new();
    let mut consts: Vec<V> = vec![];
    for (bi, &b) in list.iter().enumerate() {
        let mut blk = Block { ins: vec![], edges: vec![], locs: vec![] };
        let mut i = LLVMGetFirstInstruction(b);
        let mut lastloc = 0;
        while !i.is_null() {
            let lc = l.loc(i);
            if lc != 0 && lc != lastloc { blk.locs.push(lc); lastloc = lc; }
            let mut bad: Option<String> = None;
            let mut op = |v: P| -> Opd {
                if let Some(&r) = regs.get(&v) { return r; }
                if let Some(&c) = cmap.get(&v) { return CBIT | c; }
                if LLVMIsAConstant(v).is_null() { return CBIT | 0x7fff_ffff; }
                match l.cval(v) {
                    Ok(k) => { let c = consts.len() as u32; consts.push(k); cmap.insert(v, c); CBIT | c }
                    Err(e) => { bad = Some(e); CBIT | 0x7fff_ffff }
                }
            };
            let d = regs[&i];
            let o = |k: u32| LLVMGetOperand(i, k);
            let t = l.ty(LLVMTypeOf(i));
            let opc = LLVMGetInstructionOpcode(i);
            let lanes = |t: &Ty| if let Ty::Vec(n, e) = t { (*n, e.bits()) } else { (0, t.bits()) };
            let ins = match opc {
                1 => I::Ret { v: if LLVMGetNumOperands(i) > 0 { Some(op(o(0))) } else { None } },
                2 => if LLVMIsConditional(i) != 0 {
                    I::CondBr { c: op(LLVMGetCondition(i)), t: bbs[&LLVMGetSuccessor(i, 0)], f: bbs[&LLVMGetSuccessor(i, 1)] }
                } else { I::Br { t: bbs[&LLVMGetSuccessor(i, 0)] } },
                3 => {
                    let ns = LLVMGetNumSuccessors(i);
                    let mut cases = vec![];
                    for k in 1..ns { cases.push((LLVMConstIntGetZExtValue(o(2 * k)), bbs[&LLVMGetSuccessor(i, k)])); }
                    let w = l.ty(LLVMTypeOf(o(0))).bits();
                    for c in &mut cases { c.0 &= mask(w); }
                    I::Switch { v: op(o(0)), w, cases: cases.into(), def: bbs[&LLVMGetSuccessor(i, 0)] }
                }
                5 | 45 => {
                    let cv = LLVMGetCalledValue(i);
                    let na = LLVMGetNumArgOperands(i);
                    let callee = if !LLVMIsAFunction(cv).is_null() { Callee::Fun(l.fidx[&cv]) } else if !LLVMIsAInlineAsm(cv).is_null() { Callee::Asm } else { Callee::Ind(op(cv)) };
                    let mut args = vec![];
                    let mut at = vec![];
                    for k in 0..na {
                        let a = o(k);
                        let ty = LLVMTypeOf(a);
                        if LLVMGetTypeKind(ty) == 14 { args.push(CBIT | 0x7fff_ffff); at.push(Ty::Other); continue; } // metadata
                        args.push(op(a));
                        at.push(l.ty(ty));
                    }
                    I::Call { d, f: callee, args: args.into(), next: if opc == 5 { Some(bbs[&LLVMGetNormalDest(i)]) } else { None }, rt: t, at: at.into() }
                }
                7 => I::Unreachable,
                8 | 10 | 12 | 14 | 15 | 17 | 18 | 20..=25 => {
                    let (ln, w) = lanes(&t);
                    let bop = match opc { 8 => Op::Add, 10 => Op::Sub, 12 => Op::Mul, 14 => Op::UDiv, 15 => Op::SDiv, 17 => Op::URem, 18 => Op::SRem, 20 => Op::Shl, 21 => Op::LShr, 22 => Op::AShr, 23 => Op::And, 24 => Op::Or, _ => Op::Xor };
                    I::Bin { d, op: bop, a: op(o(0)), b: op(o(1)), w, lanes: ln }
                }
                9 | 11 | 13 | 16 | 19 => I::Fbin { d, op: match opc { 9 => FOp::Add, 11 => FOp::Sub, 13 => FOp::Mul, 16 => FOp::Div, _ => FOp::Rem }, a: op(o(0)), b: op(o(1)), t },
                66 => I::Fneg { d, a: op(o(0)), t },
                26 => {
                    let at = LLVMGetAllocatedType(i);
                    let sz = LLVMABISizeOfType(l.td, at);
                    let al = (LLVMGetAlignment(i) as u64).max(1);
                    let cnt = o(0);
                    let one = !LLVMIsAConstantInt(cnt).is_null() && LLVMConstIntGetZExtValue(cnt) == 1;
                    I::Alloca { d, size: sz, align: al, n: if one { None } else { Some(op(cnt)) } }
                }
                27 => I::Load { d, p: op(o(0)), t },
                28 => I::Store { v: op(o(0)), p: op(o(1)), t: l.ty(LLVMTypeOf(o(0))) },
                29 => match l.gep(i, LLVMGetGEPSourceElementType(i)) {
                    Ok((off, terms)) => {
                        let b0 = op(o(0));
                        let terms: Vec<_> = terms.into_iter().map(|(v, s)| (op(v), s, LLVMGetIntTypeWidth(LLVMTypeOf(v)))).collect();
                        I::Gep { d, b: b0, off, terms: terms.into() }
                    }
                    Err(e) => I::Unsupported(e),
                },
                30 | 31 | 32 | 33..=41 => {
                    let c = match opc { 30 => CastOp::Trunc, 31 => CastOp::ZExt, 32 => CastOp::SExt, 33 => CastOp::FpToUi, 34 => CastOp::FpToSi, 35 => CastOp::UiToFp, 36 => CastOp::SiToFp, 37 => CastOp::FpTrunc, 38 => CastOp::FpExt, 39 => { if t.bits() < 64 { CastOp::Trunc } else { CastOp::ZExt } } 40 => CastOp::ZExt, _ => CastOp::Bit };
                    let f = l.ty(LLVMTypeOf(o(0)));
                    I::Cast { d, op: c, a: op(o(0)), f, t }
                }
                42 => {
                    let (ln, w) = lanes(&l.ty(LLVMTypeOf(o(0))));
                    let p = match LLVMGetICmpPredicate(i) { 32 => Pred::Eq, 33 => Pred::Ne, 34 => Pred::Ugt, 35 => Pred::Uge, 36 => Pred::Ult, 37 => Pred::Ule, 38 => Pred::Sgt, 39 => Pred::Sge, 40 => Pred::Slt, _ => Pred::Sle };
                    I::Icmp { d, p, a: op(o(0)), b: op(o(1)), w, lanes: ln }
                }
                43 => I::Fcmp { d, p: LLVMGetFCmpPredicate(i), a: op(o(0)), b: op(o(1)), t: l.ty(LLVMTypeOf(o(0))) },
                44 => {
                    for k in 0..LLVMCountIncoming(i) {
                        let pb = bbs[&LLVMGetIncomingBlock(i, k)];
                        let v = op(LLVMGetIncomingValue(i, k));
                        match blk.edges.iter_mut().find(|e| e.0 == pb) {
                            Some(e) => if !e.1.iter().any(|x| x.0 == d) { e.1.push((d, v)) },
                            None => blk.edges.push((pb, vec![(d, v)])),
                        }
                    }
                    I::Nop
                }
                46 => { let vc = matches!(l.ty(LLVMTypeOf(o(0))), Ty::Vec(..)); I::Select { d, c: op(o(0)), a: op(o(1)), b: op(o(2)), t, vc } }
                50 => I::ExtractE { d, a: op(o(0)), i: op(o(1)) },
                51 => I::InsertE { d, a: op(o(0)), v: op(o(1)), i: op(o(2)) },
                52 => {
                    let n = if let Ty::Vec(n, _) = l.ty(LLVMTypeOf(o(0))) { n } else { 0 };
                    let mk: Vec<i32> = (0..LLVMGetNumMaskElements(i)).map(|k| LLVMGetMaskValue(i, k)).collect();
                    I::Shuffle { d, a: op(o(0)), b: op(o(1)), n, mask: mk.into() }
                }
                53 => { let ix = std::slice::from_raw_parts(LLVMGetIndices(i), LLVMGetNumIndices(i) as usize).to_vec(); I::ExtractV { d, a: op(o(0)), idx: ix.into() } }
                54 => { let ix = std::slice::from_raw_parts(LLVMGetIndices(i), LLVMGetNumIndices(i) as usize).to_vec(); I::InsertV { d, a: op(o(0)), v: op(o(1)), idx: ix.into() } }
                55 => I::Nop,
                56 => I::CmpXchg { d, p: op(o(0)), c: op(o(1)), n: op(o(2)), t: l.ty(LLVMTypeOf(o(1))) },
                57 => I::Rmw { d, op: LLVMGetAtomicRMWBinOp(i), p: op(o(0)), v: op(o(1)), t: l.ty(LLVMTypeOf(o(1))) },
                68 => I::Copy { d, a: op(o(0)) },
                k => I::Unsupported(format!("opcode {}", k)),
            };
            let ins = if let Some(e) = bad { I::Unsupported(e) } else { ins };
            blk.ins.push(ins);
            i = LLVMGetNextInstruction(i);
        }
        let _ = bi;
        // phis first: drop the leading Nops
        let k = blk.ins.iter().take_while(|x| matches!(x, I::Nop)).count();
        blk.ins.drain(..k);
        fun.blocks.push(blk);
    }
    fun.consts = consts;
    fun
}
