//! Symbolic interpreter: executes the bitcode, forking the state at every branch whose condition
//! is not decided by the path condition (decided by Z3).
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame { pub f: u32, pub b: u32, pub ip: u32, pub regs: Vec<V>, pub sp: u64, pub d: u32, pub next: Option<u32> }

#[derive(Clone)]
pub struct Model { pub id: u64, pub vals: Vec<u64> }

const NCLASS: usize = 80;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub top: Frame,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub inputs: Vec<(E, u32)>,
    pub fixed: u64,
    /// for each variable a superset of its feasible values (values below 64 only; 0: not known)
    pub dom: Vec<u64>,
    pub known: Vec<(E, u64)>,
    /// conditions already decided by the path condition (which only grows along a path)
    pub facts: FxMap<E, bool>,
    pub sp: u64,
    pub hp: u64,
    pub free: [u64; NCLASS],
    pub steps: u64,
    /// seconds spent on this path (inherited at forks)
    pub secs: f64,
    pub depth: u32,
    /// observable values of the path, digested at its end under the final model
    pub notes: Vec<Result<u64, E>>,
}

pub enum Stop {
    Done,
    Infeasible,
    Bad(String, Option<Vec<u64>>), // violation (message, model if it differs from the state's)
    Limit(String),
    Engine(String),
}
type R<T> = Result<T, Stop>;
impl From<Wild> for Stop { fn from(w: Wild) -> Stop { Stop::Bad(format!("wild memory access at {:#x}", w.0), None) } }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    None, Panic, Malloc, Calloc, Realloc, Free, Memalign, AlignedAlloc, Memcpy, Memset, Memcmp, Bcmp, Strlen, Nop, Zero,
    Abort, Syscall, Errno, Write, SxU, SxRange, SxAssume, SxCheck, SxFail, SxCover, SxNote, SxParam, SxConc, SxIte, SxIsSym,
    Umax, Umin, Smax, Smin, UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, UaddS, UsubS, SaddS, SsubS, Ctlz, Cttz, Ctpop, Bswap, Bitrev, Fshl, Fshr,
    Abs, Ucmp, Scmp, Expect, Trap, LoadRel, RedOr, RedAnd, RedAdd, RedXor, RedUmax, RedUmin, Fmath(u8), TlsAddr, Movmsk, Unknown, FpToUiSat, FpToSiSat, Memchr,
}

pub fn classify(name: &str, decl: bool) -> Ext {
    let pan = ["core9panicking", "unwrap_failed", "expect_failed", "slice_start_index_len_fail", "slice_end_index_len_fail",
        "slice_index_order_fail", "slice_error_fail", "handle_alloc_error", "capacity_overflow", "panic_already_", "panic_const",
        "rust_panic", "begin_panic", "rust_begin_unwind", "len_mismatch_fail", "panic_nounwind", "raw_vec12handle_error", "panic_access_error"];
    if pan.iter().any(|p| name.contains(p)) && !name.starts_with("sx_") { return Ext::Panic; }
    match name {
        "sx_u" => return Ext::SxU, "sx_range" => return Ext::SxRange, "sx_assume" => return Ext::SxAssume, "sx_check" => return Ext::SxCheck,
        "sx_fail" => return Ext::SxFail, "sx_cover" => return Ext::SxCover, "sx_note" => return Ext::SxNote, "sx_param" => return Ext::SxParam,
        "sx_conc" => return Ext::SxConc, "sx_ite" => return Ext::SxIte, "sx_is_sym" => return Ext::SxIsSym,
        _ => {}
    }
    // text written to the standard streams is not looked at
    if name.contains("3std2io5stdio6_print") || name.contains("3std2io5stdio7_eprint") { return Ext::Nop; }
    if !decl { return Ext::None; }
    match name {
        "malloc" => Ext::Malloc, "calloc" => Ext::Calloc, "realloc" => Ext::Realloc, "free" => Ext::Free, "posix_memalign" => Ext::Memalign,
        "aligned_alloc" => Ext::AlignedAlloc, "memcpy" | "memmove" => Ext::Memcpy, "memset" => Ext::Memset, "memcmp" => Ext::Memcmp, "bcmp" => Ext::Bcmp,
        "strlen" => Ext::Strlen, "abort" | "exit" | "_exit" => Ext::Abort, "syscall" => Ext::Syscall, "__errno_location" => Ext::Errno, "write" | "writev" => Ext::Write,
        "memchr" => Ext::Memchr,
        "getenv" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "pthread_self" | "__cxa_thread_atexit_impl" | "sched_yield" => Ext::Zero,
        _ if name.starts_with("llvm.") => {
            let n = &name[5..];
            let st = |p: &str| n.starts_with(p);
            if st("memcpy") || st("memmove") { Ext::Memcpy } else if st("memset") { Ext::Memset }
            else if st("lifetime") || st("assume") || st("experimental.noalias") || st("dbg") || st("x86.sse2.pause") || st("donothing") || st("prefetch") || st("invariant.") || st("sideeffect") { Ext::Nop }
            else if st("umax.") { Ext::Umax } else if st("umin.") { Ext::Umin } else if st("smax.") { Ext::Smax } else if st("smin.") { Ext::Smin }
            else if st("uadd.with") { Ext::UaddO } else if st("usub.with") { Ext::UsubO } else if st("umul.with") { Ext::UmulO }
            else if st("sadd.with") { Ext::SaddO } else if st("ssub.with") { Ext::SsubO } else if st("smul.with") { Ext::SmulO }
            else if st("uadd.sat") { Ext::UaddS } else if st("usub.sat") { Ext::UsubS } else if st("sadd.sat") { Ext::SaddS } else if st("ssub.sat") { Ext::SsubS }
            else if st("ctlz") { Ext::Ctlz } else if st("cttz") { Ext::Cttz } else if st("ctpop") { Ext::Ctpop } else if st("bswap") { Ext::Bswap } else if st("bitreverse") { Ext::Bitrev }
            else if st("fshl") { Ext::Fshl } else if st("fshr") { Ext::Fshr } else if st("abs.") { Ext::Abs } else if st("ucmp") { Ext::Ucmp } else if st("scmp") { Ext::Scmp }
            else if st("expect") { Ext::Expect } else if st("is.constant") { Ext::Zero } else if st("trap") || st("ubsantrap") || st("debugtrap") { Ext::Trap } else if st("load.relative") { Ext::LoadRel }
            else if st("vector.reduce.or") { Ext::RedOr } else if st("vector.reduce.and") { Ext::RedAnd } else if st("vector.reduce.add") { Ext::RedAdd } else if st("vector.reduce.xor") { Ext::RedXor }
            else if st("vector.reduce.umax") { Ext::RedUmax } else if st("vector.reduce.umin") { Ext::RedUmin }
            else if st("fptoui.sat") { Ext::FpToUiSat } else if st("fptosi.sat") { Ext::FpToSiSat }
            else if st("threadlocal.address") { Ext::TlsAddr } else if st("x86.sse2.pmovmskb") { Ext::Movmsk }
            else if st("fabs") { Ext::Fmath(0) } else if st("floor") { Ext::Fmath(1) } else if st("ceil") { Ext::Fmath(2) } else if st("sqrt") { Ext::Fmath(3) }
            else if st("trunc.") { Ext::Fmath(4) } else if st("round.") { Ext::Fmath(5) } else if st("log2") { Ext::Fmath(6) } else if st("log.") { Ext::Fmath(7) } else if st("exp.") { Ext::Fmath(8) } else if st("pow.") { Ext::Fmath(9) }
            else { Ext::Unknown }
        }
        _ => Ext::Unknown,
    }
}

pub struct Engine {
    pub m: &'static Module,
    pub ext: Vec<Ext>,
    pub pool: Pool,
    pub solver: Solver,
    pub work: Vec<State>,
    pub params: Vec<u64>,
    pub cov: Vec<Vec<bool>>,
    pub covers: std::collections::BTreeMap<u64, u64>,
    pub next_model: u64,
    pub max_steps: u64,
    pub path_secs: f64,
    pub deadline: Option<std::time::Instant>,
    tick: std::time::Instant,
    pub paths: u64,
    pub instrs: u64,
    pub forks: u64,
    pub checks: u64,
    pub forksites: std::collections::HashMap<(u32, u32, u32), u64>,
    pub recent: std::collections::VecDeque<Vec<u64>>,
    pub cache_hits: u64,
    pub refutations: u64,
    pub errno: u64,
}

fn opd<'a>(f: &'a Fun, regs: &'a [V], o: Opd) -> &'a V {
    if o & CBIT == 0 { &regs[o as usize] } else { &f.consts[(o & !CBIT) as usize] }
}

impl Engine {
    pub fn new(m: &'static Module, params: Vec<u64>) -> Engine {
        let ext = m.funs.iter().map(|f| classify(&f.name, f.decl)).collect();
        Engine {
            m, ext, pool: Pool::new(), solver: Solver::new(), work: vec![], params,
            cov: m.funs.iter().map(|f| vec![false; f.blocks.len()]).collect(), covers: Default::default(),
            next_model: 1, max_steps: 100_000_000, path_secs: 12.0, deadline: None, tick: std::time::Instant::now(), paths: 0, instrs: 0, forks: 0, checks: 0, forksites: Default::default(),
            recent: Default::default(), cache_hits: 0, refutations: 0, errno: 0,
        }
    }
    pub fn digest(&mut self, st: &State) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for n in &st.notes { let v = match n { Ok(v) => *v, Err(e) => self.eval(st, *e) as u64 }; h = (h ^ v).wrapping_mul(0x100000001b3); }
        h
    }
    pub fn reset_counts(&mut self) {
        self.instrs = 0; self.forks = 0; self.checks = 0; self.refutations = 0; self.covers.clear(); self.forksites.clear();
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let f = *self.m.by_name.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let fun = &self.m.funs[f as usize];
        let mut mem = self.m.mem.clone();
        mem.map(HBASE, 4096);
        mem.write_c(HBASE, 8, 0).unwrap(); // errno
        self.errno = HBASE;
        State {
            frames: vec![], top: Frame { f, b: 0, ip: 0, regs: vec![V::C(0); fun.nregs as usize], sp: SBASE, d: u32::MAX, next: None },
            mem, pc: vec![], model: Rc::new(Model { id: 0, vals: vec![] }), inputs: vec![], fixed: 0, dom: vec![], known: vec![], facts: Default::default(),
            sp: SBASE, hp: HBASE + 64, free: [0; NCLASS], steps: 0, secs: 0.0, depth: 0, notes: vec![],
        }
    }
    fn ex(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.pool.cst(*x as u128, w),
            V::B(x) => self.pool.cst(**x, w),
            V::S(e) => { debug_assert_eq!(self.pool.w(*e), w); *e }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn mkc(&self, k: u128, w: u32) -> V { if w > 64 { V::B(Rc::new(k)) } else { V::C(k as u64) } }
    fn norm(&mut self, st: &State, e: E) -> V {
        let n = &self.pool.n[e as usize];
        let w = n.w as u32;
        if n.op == Op::Const { let k = self.pool.as_const(e).unwrap(); return self.mkc(k, w); }
        if n.vars & !st.fixed == 0 {
            let k = self.eval(st, e);
            return self.mkc(k, w);
        }
        V::S(e)
    }
    fn eval(&mut self, st: &State, e: E) -> u128 {
        self.pool.set_model(st.model.id);
        self.pool.eval(e, &st.model.vals)
    }
    fn new_model(&mut self, vals: Vec<u64>) -> Rc<Model> {
        self.next_model += 1;
        self.recent.push_front(vals.clone());
        if self.recent.len() > 12 { self.recent.pop_back(); }
        Rc::new(Model { id: self.next_model, vals })
    }
    /// add a conjunct to the path condition, and keep the variable domains in step
    fn assume(&mut self, st: &mut State, e: E) {
        st.pc.push(e);
        let n = self.pool.n[e as usize];
        let vars = n.vars & !st.fixed;
        if vars == 0 || vars & (vars - 1) != 0 || vars >> 63 == 1 { return; }
        let i = vars.trailing_zeros() as usize;
        if i >= st.inputs.len() { return; }
        if st.dom.len() <= i { st.dom.resize(i + 1, 0); }
        if st.dom[i] == 0 {
            // a bound makes a domain
            if n.op == Op::Ult && n.a == st.inputs[i].0 { if let Some(k) = self.pool.as_const(n.b) { if k > 0 && k <= 64 { st.dom[i] = mask(k as u32); } } }
            return;
        }
        let mut vals = st.model.vals.clone();
        if vals.len() <= i { vals.resize(i + 1, 0); }
        let mut d = 0;
        for v in 0..64 {
            if st.dom[i] >> v & 1 == 1 { vals[i] = v; if self.pool.eval_tmp(e, &vals) != 0 { d |= 1 << v; } }
        }
        if d != 0 { st.dom[i] = d; }
        if d != 0 && d & (d - 1) == 0 { st.fixed |= 1 << i; }
    }
    /// true: e contradicts the path condition, because no assignment of its few small-domain variables
    /// satisfies it together with the conjuncts over the same variables
    fn refuted(&mut self, st: &State, e: E) -> bool {
        let mut vars = self.pool.n[e as usize].vars & !st.fixed;
        if vars == 0 || vars >> 63 == 1 { return false; }
        for _ in 0..3 {
            if self.refuted_in(st, e, vars) { return true; }
            // conjuncts that share a variable bring in their other variables
            let mut more = vars;
            for &a in &st.pc {
                let v = self.pool.n[a as usize].vars & !st.fixed;
                if v & vars != 0 && v & !vars != 0 && (v | more).count_ones() <= 8 { more |= v; }
            }
            if more == vars || more >> 63 == 1 { return false; }
            vars = more;
        }
        false
    }
    fn refuted_in(&mut self, st: &State, e: E, vars: u64) -> bool {
        let mut vs = vec![];
        let mut m = vars;
        while m != 0 {
            let i = m.trailing_zeros() as usize;
            m &= m - 1;
            let d = st.dom.get(i).copied().unwrap_or(0);
            if d == 0 { return false; }
            vs.push((i, d));
        }
        if vs.len() > 8 { return false; }
        // conjuncts over these variables only, each tested as soon as its last variable is assigned
        let mut level: Vec<Vec<E>> = vec![vec![]; vs.len()];
        let put = |p: &Pool, level: &mut Vec<Vec<E>>, a: E| {
            let v = p.n[a as usize].vars & !st.fixed;
            let l = (0..vs.len()).rev().find(|&k| v >> vs[k].0 & 1 == 1).unwrap();
            level[l].push(a);
        };
        for &a in &st.pc { let v = self.pool.n[a as usize].vars & !st.fixed; if v != 0 && v & !vars == 0 && v & (v - 1) != 0 { put(&self.pool, &mut level, a); } }
        put(&self.pool, &mut level, e);
        let mut vals = st.model.vals.clone();
        vals.resize(vals.len().max(st.inputs.len()), 0);
        let mut budget = 4000i32;
        let mut left = vec![0u64; vs.len()];
        let mut l = 0;
        left[0] = vs[0].1;
        loop {
            if left[l] == 0 { if l == 0 { break; } l -= 1; continue; }
            let v = left[l].trailing_zeros() as u64;
            left[l] &= left[l] - 1;
            vals[vs[l].0] = v;
            budget -= 1;
            if budget < 0 { return false; }
            self.pool.new_tmp();
            if level[l].iter().any(|&a| self.pool.eval_memo(a, &vals) == 0) { continue; }
            if l + 1 == vs.len() { return false; }
            l += 1;
            left[l] = vs[l].1;
        }
        self.refutations += 1;
        true
    }
    /// sat(pc /\ e)? -> model
    fn sat(&mut self, st: &State, e: E) -> R<Option<Vec<u64>>> {
        if self.refuted(st, e) { return Ok(None); }
        self.sat_z3(st, e)
    }
    fn sat_z3(&mut self, st: &State, e: E) -> R<Option<Vec<u64>>> {
        if let Some(k) = self.pool.as_const(e) {
            return Ok(if k == 0 { None } else { Some(st.model.vals.clone()) });
        }
        match self.solver.check(&self.pool, &st.pc, e, &st.inputs) {
            Res::Sat(v) => Ok(Some(v)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Limit("solver returned unknown".into())),
        }
    }
    fn after_eq(&mut self, st: &mut State, e: E) -> R<()> {
        // if e depends on one variable only, find out whether it is now fixed
        let vars = self.pool.n[e as usize].vars & !st.fixed;
        if vars != 0 && vars & (vars - 1) == 0 {
            let i = vars.trailing_zeros() as usize;
            if i < st.inputs.len() {
                let (x, w) = st.inputs[i];
                let v = self.eval(st, x);
                let k = self.pool.cst(v, w);
                let q = self.pool.bin(Op::Eq, x, k);
                let q = self.pool.not(q);
                if self.sat(st, q)?.is_none() { st.fixed |= 1 << i; }
            }
        }
        Ok(())
    }
    fn site(&mut self, st: &State) { *self.forksites.entry((st.top.f, st.top.b, st.top.ip)).or_default() += 1; self.forks += 1; }
    /// concretise e; other feasible values are explored by forked states that re-execute the instruction
    fn conc(&mut self, st: &mut State, e: E) -> R<u64> {
        if let Some(k) = self.pool.as_const(e) { return Ok(k as u64); }
        let v = self.eval(st, e) as u64;
        if self.pool.n[e as usize].vars & !st.fixed == 0 { return Ok(v); }
        if let Some(x) = st.known.iter().rev().find(|x| x.0 == e) { return Ok(x.1); }
        let w = self.pool.w(e);
        let k = self.pool.cst(v as u128, w);
        let eq = self.pool.bin(Op::Eq, e, k);
        let ne = self.pool.not(eq);
        if let Some(m) = self.sat(st, ne)? {
            self.site(st);
            let mut o = st.clone();
            self.assume(&mut o, ne);
            o.model = self.new_model(m);
            o.depth += 1;
            self.work.push(o);
            self.assume(st, eq);
            st.depth += 1;
        }
        st.known.push((e, v));
        self.after_eq(st, e)?;
        Ok(v)
    }
    fn cv(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v { V::C(x) => Ok(*x), V::S(e) => self.conc(st, *e), V::B(x) => Ok(**x as u64), _ => Err(Stop::Engine("cv aggregate".into())) }
    }
    /// candidate addresses of a symbolic pointer (None: too many -> concretised)
    fn addrs(&mut self, st: &mut State, e: E, limit: usize) -> R<Vec<u64>> {
        if let Some(x) = st.known.iter().rev().find(|x| x.0 == e) { return Ok(vec![x.1]); }
        let mut out = vec![];
        let mut v = self.eval(st, e) as u64;
        let mut excl = self.pool.cst(1, 1);
        loop {
            out.push(v);
            let k = self.pool.cst(v as u128, 64);
            let q = self.pool.bin(Op::Eq, e, k);
            let q = self.pool.not(q);
            excl = self.pool.bin(Op::And, excl, q);
            match self.sat(st, excl)? {
                None => break,
                Some(m) => {
                    if out.len() >= limit { let v = self.conc(st, e)?; return Ok(vec![v]); }
                    self.next_model += 1;
                    let id = self.next_model;
                    self.pool.set_model(id);
                    v = self.pool.eval(e, &m) as u64;
                    self.pool.set_model(u64::MAX - 1);
                }
            }
        }
        if out.len() == 1 { st.known.push((e, out[0])); }
        out.sort();
        Ok(out)
    }
    fn load(&mut self, st: &mut State, a: u64, t: &Ty) -> R<V> {
        match t {
            Ty::Vec(n, e) => {
                let eb = e.bits();
                if eb % 8 != 0 { return Err(Stop::Engine("load vector of i1".into())); }
                let mut r = vec![];
                for i in 0..*n { r.push(self.load(st, a + (i * eb / 8) as u64, e)?); }
                Ok(V::A(Rc::new(r)))
            }
            Ty::Agg(f) => { let mut r = vec![]; for (o, e) in f { r.push(self.load(st, a + o, e)?); } Ok(V::A(Rc::new(r))) }
            _ => {
                let w = t.bits();
                if w == 0 { return Err(Stop::Engine("load type".into())); }
                let n = ((w + 7) / 8) as usize;
                Ok(match st.mem.read(&mut self.pool, a, n)? {
                    Ld::C(k) => if w > 64 { V::B(Rc::new(k & mask128(w))) } else { V::C(k as u64 & mask(w)) },
                    Ld::S(e) => { let e = if w % 8 != 0 { self.pool.extract(e, w - 1, 0) } else { e }; self.norm(st, e) }
                })
            }
        }
    }
    fn store(&mut self, st: &mut State, a: u64, v: &V, t: &Ty) -> R<()> {
        match t {
            Ty::Vec(_, e) => {
                let eb = e.bits();
                if eb % 8 != 0 { return Err(Stop::Engine("store vector of i1".into())); }
                if let V::A(x) = v { for (i, y) in x.iter().enumerate() { self.store(st, a + (i as u64 * eb as u64 / 8), y, e)?; } }
                Ok(())
            }
            Ty::Agg(f) => { if let V::A(x) = v { for (y, (o, e)) in x.iter().zip(f) { self.store(st, a + o, y, e)?; } } Ok(()) }
            _ => {
                let w = t.bits();
                if w == 0 { return Err(Stop::Engine("store type".into())); }
                let n = ((w + 7) / 8) as usize;
                match v {
                    V::C(x) => st.mem.write_c(a, n, *x as u128)?,
                    V::B(x) => st.mem.write_c(a, n, **x)?,
                    V::S(e) => { let e = if w % 8 != 0 { self.pool.zext(*e, 8 * n as u32) } else { *e }; st.mem.write_s(a, n, e)? }
                    V::A(_) => return Err(Stop::Engine("store agg".into())),
                }
                Ok(())
            }
        }
    }
    fn bin(&mut self, st: &State, op: Op, a: &V, b: &V, w: u32) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let m = mask(w);
                let (x, y) = (*x, *y);
                return V::C(match op {
                    Op::Add => x.wrapping_add(y) & m,
                    Op::Sub => x.wrapping_sub(y) & m,
                    Op::Mul => x.wrapping_mul(y) & m,
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                    Op::LShr => if y >= w as u64 { 0 } else { x >> y },
                    _ => fold2(op, w, x as u128, y as u128) as u64,
                });
            }
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.pool.bin(op, x, y);
        self.norm(st, e)
    }
    fn icmp(&mut self, st: &State, p: Pred, a: &V, b: &V, w: u32) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let r = match p {
                    Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                    Pred::Sgt => sext(x, w) > sext(y, w), Pred::Sge => sext(x, w) >= sext(y, w), Pred::Slt => sext(x, w) < sext(y, w), Pred::Sle => sext(x, w) <= sext(y, w),
                };
                return V::C(r as u64);
            }
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let p_ = &mut self.pool;
        let e = match p {
            Pred::Eq => p_.bin(Op::Eq, x, y), Pred::Ne => { let e = p_.bin(Op::Eq, x, y); p_.not(e) }
            Pred::Ult => p_.bin(Op::Ult, x, y), Pred::Ule => p_.bin(Op::Ule, x, y), Pred::Ugt => p_.bin(Op::Ult, y, x), Pred::Uge => p_.bin(Op::Ule, y, x),
            Pred::Slt => p_.bin(Op::Slt, x, y), Pred::Sle => p_.bin(Op::Sle, x, y), Pred::Sgt => p_.bin(Op::Slt, y, x), Pred::Sge => p_.bin(Op::Sle, y, x),
        };
        self.norm(st, e)
    }
    fn sel(&mut self, st: &State, c: E, a: &V, b: &V, t: &Ty) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let r = (0..x.len()).map(|i| {
                    let et = match t { Ty::Vec(_, e) => (**e).clone(), Ty::Agg(f) => f[i].1.clone(), _ => Ty::Other };
                    self.sel(st, c, &x[i], &y[i], &et)
                }).collect();
                V::A(Rc::new(r))
            }
            _ => {
                let w = t.bits();
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let e = self.pool.ite(c, x, y);
                self.norm(st, e)
            }
        }
    }
    fn class(n: u64) -> (usize, u64) {
        let n = n.max(16);
        if n <= 512 { let c = (n + 15) / 16; (c as usize, c * 16) } else { let s = n.next_power_of_two(); (32 + s.trailing_zeros() as usize, s) }
    }
    fn malloc(&mut self, st: &mut State, n: u64, align: u64) -> R<u64> {
        if n > 1 << 26 { return Ok(0); }
        let (c, s) = Self::class(n + 16);
        if align <= 16 && st.free[c] != 0 {
            let a = st.free[c];
            let nx = match st.mem.read(&mut self.pool, a, 8)? { Ld::C(k) => k as u64, _ => return Err(Stop::Engine("free list".into())) };
            st.free[c] = nx;
            st.mem.write_c(a - 16, 8, n as u128)?;
            return Ok(a);
        }
        let mut a = st.hp + 16;
        let al = align.max(16);
        a = (a + al - 1) / al * al;
        st.mem.map(a - 16, s + 16);
        st.mem.write_c(a - 16, 8, n as u128)?;
        st.mem.write_c(a - 8, 8, if align <= 16 { c as u128 } else { 255 })?;
        st.hp = a - 16 + s;
        if st.hp - HBASE > 0x2000_0000 { return Err(Stop::Bad("heap limit exceeded (non-termination?)".into(), None)); }
        Ok(a)
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 { return Ok(()); }
        let c = match st.mem.read(&mut self.pool, a - 8, 8)? { Ld::C(k) => k as usize, _ => return Err(Stop::Engine("heap header".into())) };
        if c < NCLASS { st.mem.write_c(a, 8, st.free[c] as u128)?; st.free[c] = a; }
        Ok(())
    }
    fn heap_size(&mut self, st: &State, a: u64) -> R<u64> {
        match st.mem.read(&mut self.pool, a - 16, 8)? { Ld::C(k) => Ok(k as u64), _ => Err(Stop::Engine("heap header".into())) }
    }
    fn jump(&mut self, st: &mut State, t: u32) {
        let f = &self.m.funs[st.top.f as usize];
        let blk = &f.blocks[t as usize];
        let from = st.top.b;
        if let Some((_, mv)) = blk.edges.iter().find(|e| e.0 == from) {
            if mv.len() == 1 {
                let v = opd(f, &st.top.regs, mv[0].1).clone();
                st.top.regs[mv[0].0 as usize] = v;
            } else {
                let vals: Vec<V> = mv.iter().map(|(_, o)| opd(f, &st.top.regs, *o).clone()).collect();
                for ((d, _), v) in mv.iter().zip(vals) { st.top.regs[*d as usize] = v; }
            }
        }
        st.top.b = t;
        st.top.ip = 0;
        self.cov[st.top.f as usize][t as usize] = true;
    }
    /// decide a symbolic boolean, forking if both are feasible; `alt` is applied to the forked state
    fn branch(&mut self, st: &mut State, c: E, alt: impl FnOnce(&mut Engine, &mut State, bool)) -> R<bool> {
        let v = self.eval(st, c) != 0;
        if self.pool.n[c as usize].vars & !st.fixed == 0 { return Ok(v); }
        if let Some(&b) = st.facts.get(&c) { self.cache_hits += 1; debug_assert!(b == v); return Ok(b); }
        let nc = self.pool.not(c);
        let (yes, no) = if v { (c, nc) } else { (nc, c) };
        if let Some(m) = self.sat(st, no)? {
            self.site(st);
            let mut o = st.clone();
            self.assume(&mut o, no);
            o.model = self.new_model(m);
            o.depth += 1;
            o.facts.insert(c, !v);
            o.facts.insert(nc, v);
            alt(self, &mut o, !v);
            self.work.push(o);
            self.assume(st, yes);
            st.depth += 1;
            if self.pool.n[yes as usize].op == Op::Eq { self.after_eq(st, yes)?; }
        }
        st.facts.insert(c, v);
        st.facts.insert(nc, !v);
        Ok(v)
    }
    pub fn run(&mut self, st: &mut State) -> Stop {
        self.tick = std::time::Instant::now();
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }
    fn set(&self, st: &mut State, d: u32, v: V) { st.top.regs[d as usize] = v; st.top.ip += 1; }

    #[inline(never)]
    fn step(&mut self, st: &mut State) -> R<()> {
        let m = self.m;
        loop {
            st.steps += 1;
            self.instrs += 1;
            if st.steps & 0xfff == 0 {
                let now = std::time::Instant::now();
                st.secs += (now - self.tick).as_secs_f64();
                self.tick = now;
                if self.deadline.is_some_and(|d| now > d) { return Err(Stop::Limit("time limit within a path".into())); }
                if st.secs > self.path_secs { return Err(Stop::Bad("path time exceeded (non-termination?)".into(), None)); }
            }
            if st.steps > self.max_steps { return Err(Stop::Bad("step limit exceeded (non-termination?)".into(), None)); }
            let f = &m.funs[st.top.f as usize];
            let ins = &f.blocks[st.top.b as usize].ins[st.top.ip as usize];
            macro_rules! o { ($x:expr) => { opd(f, &st.top.regs, $x) } }
            match ins {
                I::Bin { d, op, a, b, w, lanes } => {
                    if *lanes == 0 {
                        let (x, y) = (o!(*a).clone(), o!(*b).clone());
                        let v = self.bin(st, *op, &x, &y, *w);
                        self.set(st, *d, v);
                    } else if let (V::A(x), V::A(y)) = (o!(*a).clone(), o!(*b).clone()) {
                        let r = (0..*lanes as usize).map(|i| self.bin(st, *op, &x[i], &y[i], *w)).collect();
                        self.set(st, *d, V::A(Rc::new(r)));
                    }
                }
                I::Icmp { d, p, a, b, w, lanes } => {
                    if *lanes == 0 {
                        let (x, y) = (o!(*a).clone(), o!(*b).clone());
                        let v = self.icmp(st, *p, &x, &y, *w);
                        self.set(st, *d, v);
                    } else if let (V::A(x), V::A(y)) = (o!(*a).clone(), o!(*b).clone()) {
                        let r = (0..*lanes as usize).map(|i| self.icmp(st, *p, &x[i], &y[i], *w)).collect();
                        self.set(st, *d, V::A(Rc::new(r)));
                    }
                }
                I::Load { d, p, t } => {
                    match o!(*p) {
                        V::C(a) => { let a = *a; let v = self.load(st, a, t)?; self.set(st, *d, v); }
                        V::S(e) => {
                            let e = *e;
                            let scalar = t.bits() > 0 && !matches!(t, Ty::Vec(..));
                            let c = if scalar { self.addrs(st, e, 32)? } else { vec![self.conc(st, e)?] };
                            let mut v = self.load(st, c[c.len() - 1], t)?;
                            let w = t.bits();
                            for &a in c[..c.len() - 1].iter().rev() {
                                let x = self.load(st, a, t)?;
                                let k = self.pool.cst(a as u128, 64);
                                let q = self.pool.bin(Op::Eq, e, k);
                                let (x, y) = (self.ex(&x, w), self.ex(&v, w));
                                let r = self.pool.ite(q, x, y);
                                v = self.norm(st, r);
                            }
                            self.set(st, *d, v);
                        }
                        _ => return Err(Stop::Engine("ptr".into())),
                    }
                }
                I::Store { v, p, t } => {
                    let x = o!(*v).clone();
                    match o!(*p) {
                        V::C(a) => { let a = *a; self.store(st, a, &x, t)?; }
                        V::S(e) => {
                            let e = *e;
                            let scalar = t.bits() > 0 && !matches!(t, Ty::Vec(..));
                            let c = if scalar { self.addrs(st, e, 32)? } else { vec![self.conc(st, e)?] };
                            if c.len() == 1 { self.store(st, c[0], &x, t)?; } else {
                                let w = t.bits();
                                for a in c {
                                    let old = self.load(st, a, t)?;
                                    let k = self.pool.cst(a as u128, 64);
                                    let q = self.pool.bin(Op::Eq, e, k);
                                    let (xe, ye) = (self.ex(&x, w), self.ex(&old, w));
                                    let r = self.pool.ite(q, xe, ye);
                                    let r = self.norm(st, r);
                                    self.store(st, a, &r, t)?;
                                }
                            }
                        }
                        _ => return Err(Stop::Engine("ptr".into())),
                    }
                    st.top.ip += 1;
                }
                I::Gep { d, b, off, terms } => {
                    let mut v = o!(*b).clone();
                    if let V::C(x) = &mut v { *x = x.wrapping_add(*off as u64); } else { v = self.bin(st, Op::Add, &v, &V::C(*off as u64), 64); }
                    for (ix, sc, iw) in terms.iter() {
                        match (o!(*ix), &mut v) {
                            (V::C(k), V::C(x)) => { *x = x.wrapping_add((sext(*k, *iw)).wrapping_mul(*sc) as u64); }
                            _ => {
                                let i = o!(*ix).clone();
                                let e = self.ex(&i, *iw);
                                let e = if *iw < 64 { self.pool.sext(e, 64) } else { e };
                                let s = self.pool.cst(*sc as u128, 64);
                                let t = self.pool.bin(Op::Mul, e, s);
                                let base = self.ex(&v, 64);
                                let r = self.pool.bin(Op::Add, base, t);
                                v = self.norm(st, r);
                            }
                        }
                    }
                    self.set(st, *d, v);
                }
                I::Cast { d, op, a, f: ft, t } => {
                    let v = o!(*a).clone();
                    let r = self.cast(st, *op, &v, ft, t)?;
                    self.set(st, *d, r);
                }
                I::Select { d, c, a, b, t, vc } => {
                    if *vc {
                        if let (V::A(cs), V::A(x), V::A(y)) = (o!(*c).clone(), o!(*a).clone(), o!(*b).clone()) {
                            let et = if let Ty::Vec(_, e) = t { (**e).clone() } else { Ty::Other };
                            let mut r = vec![];
                            for i in 0..x.len() { r.push(match &cs[i] { V::C(k) => if *k != 0 { x[i].clone() } else { y[i].clone() }, V::S(e) => self.sel(st, *e, &x[i], &y[i], &et), _ => return Err(Stop::Engine("sel".into())) }); }
                            self.set(st, *d, V::A(Rc::new(r)));
                        }
                    } else {
                        let v = match o!(*c) {
                            V::C(k) => if *k != 0 { o!(*a).clone() } else { o!(*b).clone() },
                            V::S(e) => { let e = *e; let (x, y) = (o!(*a).clone(), o!(*b).clone()); self.sel(st, e, &x, &y, t) }
                            _ => return Err(Stop::Engine("sel".into())),
                        };
                        self.set(st, *d, v);
                    }
                }
                I::Br { t } => self.jump(st, *t),
                I::CondBr { c, t, f: fb } => {
                    let v = match o!(*c) {
                        V::C(k) => *k != 0,
                        V::S(e) => { let e = *e; let (t, fb) = (*t, *fb); self.branch(st, e, |s, o, v| s.jump(o, if v { t } else { fb }))? }
                        _ => return Err(Stop::Engine("br".into())),
                    };
                    self.jump(st, if v { *t } else { *fb });
                }
                I::Switch { v, w, cases, def } => {
                    match o!(*v) {
                        V::C(k) => { let k = *k; let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def); self.jump(st, t); }
                        V::S(e) => {
                            let e = *e;
                            // group the cases by target, then fork per target
                            let mut groups: Vec<(u32, E)> = vec![];
                            let mut none = self.pool.cst(1, 1);
                            for (k, t) in cases.iter() {
                                let kk = self.pool.cst(*k as u128, *w);
                                let q = self.pool.bin(Op::Eq, e, kk);
                                let nq = self.pool.not(q);
                                none = self.pool.bin(Op::And, none, nq);
                                match groups.iter_mut().find(|g| g.0 == *t) { Some(g) => g.1 = self.pool.bin(Op::Or, g.1, q), None => groups.push((*t, q)) }
                            }
                            match groups.iter_mut().find(|g| g.0 == *def) { Some(g) => g.1 = self.pool.bin(Op::Or, g.1, none), None => groups.push((*def, none)) }
                            let mut mine = None;
                            let base = st.pc.len();
                            let mut nalt = 0;
                            for (t, q) in &groups {
                                if self.eval(st, *q) != 0 { mine = Some((*t, *q)); continue; }
                                if let Some(m) = { debug_assert_eq!(st.pc.len(), base); self.sat(st, *q)? } {
                                    self.site(st);
                                    let mut o = st.clone();
                                    self.assume(&mut o, *q);
                                    o.model = self.new_model(m);
                                    o.depth += 1;
                                    self.jump(&mut o, *t);
                                    self.work.push(o);
                                    nalt += 1;
                                }
                            }
                            let (t, q) = mine.unwrap();
                            if nalt > 0 { self.assume(st, q); st.depth += 1; if self.pool.n[q as usize].op == Op::Eq { self.after_eq(st, q)?; } }
                            self.jump(st, t);
                        }
                        _ => return Err(Stop::Engine("switch".into())),
                    }
                }
                I::Ret { v } => {
                    let r = v.map(|x| o!(x).clone());
                    st.sp = st.top.sp;
                    let (d, next) = (st.top.d, st.top.next);
                    match st.frames.pop() {
                        None => return Err(Stop::Done),
                        Some(fr) => { st.top = Rc::try_unwrap(fr).unwrap_or_else(|x| (*x).clone()); }
                    }
                    if let Some(r) = r { if d != u32::MAX { st.top.regs[d as usize] = r; } }
                    match next { Some(b) => self.jump(st, b), None => st.top.ip += 1 }
                }
                I::Call { d, f: callee, args, next, rt, at } => {
                    let fi = match callee {
                        Callee::Fun(i) => *i,
                        Callee::Ind(p) => {
                            let p = o!(*p).clone();
                            let a = self.cv(st, &p)?;
                            if a < FBASE || (a - FBASE) / 16 >= m.funs.len() as u64 { return Err(Stop::Bad(format!("call of non-function address {:#x}", a), None)); }
                            ((a - FBASE) / 16) as u32
                        }
                        Callee::Asm => { st.top.ip += 1; continue; }
                    };
                    let x = self.ext[fi as usize];
                    if x == Ext::None {
                        let g = &m.funs[fi as usize];
                        if st.frames.len() > 2000 { return Err(Stop::Bad("call stack limit exceeded (non-termination?)".into(), None)); }
                        let mut regs = Vec::with_capacity(g.nregs as usize);
                        for a in args.iter().take(g.nparams as usize) { regs.push(if a & !CBIT == 0x7fff_ffff { V::C(0) } else { o!(*a).clone() }); }
                        regs.resize(g.nregs as usize, V::C(0));
                        let fr = Frame { f: fi, b: 0, ip: 0, regs, sp: st.sp, d: if *rt == Ty::Void { u32::MAX } else { *d }, next: *next };
                        let old = std::mem::replace(&mut st.top, fr);
                        st.frames.push(Rc::new(old));
                        self.cov[fi as usize][0] = true;
                    } else {
                        let mut av: Vec<V> = Vec::with_capacity(args.len());
                        for a in args.iter() { av.push(if a & !CBIT == 0x7fff_ffff { V::C(0) } else { o!(*a).clone() }); }
                        let r = self.external(st, fi, x, &av, rt, at)?;
                        if let Some(v) = r { st.top.regs[*d as usize] = v; }
                        match next { Some(b) => self.jump(st, *b), None => st.top.ip += 1 }
                    }
                }
                I::Alloca { d, size, align, n } => {
                    let k = match n { None => 1, Some(x) => { let v = o!(*x).clone(); self.cv(st, &v)? } };
                    let a = (st.sp + align - 1) / align * align;
                    let sz = size * k;
                    st.mem.map(a, sz.max(1));
                    st.sp = a + sz.max(1);
                    if st.sp - SBASE > 0x0400_0000 { return Err(Stop::Bad("stack limit exceeded (non-termination?)".into(), None)); }
                    self.set(st, *d, V::C(a));
                }
                I::ExtractV { d, a, idx } => {
                    let mut v = o!(*a).clone();
                    for i in idx.iter() { v = match v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Engine("extractvalue".into())) }; }
                    self.set(st, *d, v);
                }
                I::InsertV { d, a, v, idx } => {
                    fn ins(x: &V, v: &V, idx: &[u32]) -> V {
                        if idx.is_empty() { return v.clone(); }
                        if let V::A(y) = x { let mut y = (**y).clone(); let k = idx[0] as usize; y[k] = ins(&y[k], v, &idx[1..]); V::A(Rc::new(y)) } else { x.clone() }
                    }
                    let r = ins(o!(*a), o!(*v), idx);
                    self.set(st, *d, r);
                }
                I::ExtractE { d, a, i } => {
                    let iv = o!(*i).clone();
                    let k = self.cv(st, &iv)? as usize;
                    let v = match opd(f, &st.top.regs, *a) { V::A(x) => x.get(k).cloned().unwrap_or(V::C(0)), _ => return Err(Stop::Engine("extractelement".into())) };
                    self.set(st, *d, v);
                }
                I::InsertE { d, a, v, i } => {
                    let iv = o!(*i).clone();
                    let k = self.cv(st, &iv)? as usize;
                    let mut x = match opd(f, &st.top.regs, *a) { V::A(x) => (**x).clone(), _ => return Err(Stop::Engine("insertelement".into())) };
                    x[k] = opd(f, &st.top.regs, *v).clone();
                    self.set(st, *d, V::A(Rc::new(x)));
                }
                I::Shuffle { d, a, b, n, mask } => {
                    if let (V::A(x), V::A(y)) = (o!(*a), o!(*b)) {
                        let r = mask.iter().map(|&k| if k < 0 { V::C(0) } else if (k as u32) < *n { x[k as usize].clone() } else { y[k as usize - *n as usize].clone() }).collect();
                        self.set(st, *d, V::A(Rc::new(r)));
                    }
                }
                I::Fbin { d, op, a, b, t } => {
                    let (x, y) = (o!(*a).clone(), o!(*b).clone());
                    if matches!(t, Ty::Vec(..)) { return Err(Stop::Engine("vector float".into())); }
                    let (x, y) = (self.cv(st, &x)?, self.cv(st, &y)?);
                    let r = if *t == Ty::F64 {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }).to_bits()
                    } else {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }).to_bits() as u64
                    };
                    self.set(st, *d, V::C(r));
                }
                I::Fneg { d, a, t } => {
                    let x = o!(*a).clone();
                    let x = self.cv(st, &x)?;
                    self.set(st, *d, V::C(if *t == Ty::F64 { x ^ (1 << 63) } else { x ^ (1 << 31) }));
                }
                I::Fcmp { d, p, a, b, t } => {
                    let (x, y) = (o!(*a).clone(), o!(*b).clone());
                    let (x, y) = (self.cv(st, &x)?, self.cv(st, &y)?);
                    let (x, y) = if *t == Ty::F64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => !un && x != y, 7 => !un, 8 => un, 9 => un || x == y, 10 => un || x > y, 11 => un || x >= y, 12 => un || x < y, 13 => un || x <= y, 14 => un || x != y, _ => true };
                    self.set(st, *d, V::C(r as u64));
                }
                I::Rmw { d, op, p, v, t } => {
                    let (p, v) = (o!(*p).clone(), o!(*v).clone());
                    let a = self.cv(st, &p)?;
                    let old = self.load(st, a, t)?;
                    let w = t.bits();
                    let new = match op {
                        0 => v, 1 => self.bin(st, Op::Add, &old, &v, w), 2 => self.bin(st, Op::Sub, &old, &v, w), 3 => self.bin(st, Op::And, &old, &v, w),
                        5 => self.bin(st, Op::Or, &old, &v, w), 6 => self.bin(st, Op::Xor, &old, &v, w),
                        _ => return Err(Stop::Engine("atomicrmw op".into())),
                    };
                    self.store(st, a, &new, t)?;
                    self.set(st, *d, old);
                }
                I::CmpXchg { d, p, c, n, t } => {
                    let (p, c, n) = (o!(*p).clone(), o!(*c).clone(), o!(*n).clone());
                    let a = self.cv(st, &p)?;
                    let old = self.load(st, a, t)?;
                    let eq = self.icmp(st, Pred::Eq, &old, &c, t.bits());
                    let k = self.cv(st, &eq)?;
                    if k != 0 { self.store(st, a, &n, t)?; }
                    self.set(st, *d, V::A(Rc::new(vec![old, V::C(k)])));
                }
                I::Copy { d, a } => { let v = o!(*a).clone(); self.set(st, *d, v); }
                I::Nop => st.top.ip += 1,
                I::Unreachable => return Err(Stop::Bad(format!("unreachable executed in {}", f.name), None)),
                I::Unsupported(s) => return Err(Stop::Engine(format!("unsupported instruction in {}: {}", f.name, s))),
            }
        }
    }

    fn cast(&mut self, st: &mut State, op: CastOp, v: &V, f: &Ty, t: &Ty) -> R<V> {
        if op != CastOp::Bit {
            if let (V::A(x), Ty::Vec(_, fe), Ty::Vec(_, te)) = (v, f, t) {
                let mut r = vec![];
                for y in x.iter() { r.push(self.cast(st, op, y, fe, te)?); }
                return Ok(V::A(Rc::new(r)));
            }
        }
        let (fw, tw) = (f.bits(), t.bits());
        Ok(match op {
            CastOp::Trunc => match v {
                V::C(x) => V::C(x & mask(tw)),
                V::B(x) => self.mkc(**x & mask128(tw), tw),
                V::S(e) => { let e = self.pool.extract(*e, tw - 1, 0); self.norm(st, e) }
                _ => return Err(Stop::Engine("trunc".into())),
            },
            CastOp::ZExt => match v {
                V::C(x) => self.mkc(*x as u128, tw),
                V::B(x) => V::B(x.clone()),
                V::S(e) => { let e = self.pool.zext(*e, tw); self.norm(st, e) }
                _ => return Err(Stop::Engine("zext".into())),
            },
            CastOp::SExt => match v {
                V::C(x) => if tw <= 64 { V::C(sext(*x, fw) as u64 & mask(tw)) } else { V::B(Rc::new(sext(*x, fw) as i128 as u128 & mask128(tw))) },
                V::B(x) => V::B(Rc::new(sext128(**x, fw) as u128 & mask128(tw))),
                V::S(e) => { let e = self.pool.sext(*e, tw); self.norm(st, e) }
                _ => return Err(Stop::Engine("sext".into())),
            },
            CastOp::Bit => {
                match (f, t) {
                    (Ty::Vec(_, fe), _) => {
                        let x = if let V::A(x) = v { x.clone() } else { return Err(Stop::Engine("bitcast".into())) };
                        let eb = fe.bits();
                        if let Ty::Vec(tn, te) = t { if te.bits() == eb { let _ = tn; return Ok(v.clone()); } }
                        // to one integer
                        let mut acc: Option<E> = None;
                        let all = x.iter().all(|y| matches!(y, V::C(_)));
                        let whole = if all && tw <= 128 {
                            let mut k = 0u128;
                            for y in x.iter().rev() { if let V::C(c) = y { k = (k << eb) | *c as u128; } }
                            self.mkc(k, tw)
                        } else {
                            if tw > 128 { return Err(Stop::Engine("wide bitcast".into())); }
                            for y in x.iter() { let e = self.ex(y, eb); acc = Some(match acc { None => e, Some(l) => self.pool.concat(e, l) }); }
                            let e = acc.unwrap();
                            self.norm(st, e)
                        };
                        if let Ty::Vec(..) = t { return self.cast(st, CastOp::Bit, &whole, &Ty::Int(tw), t); }
                        whole
                    }
                    (_, Ty::Vec(n, te)) => {
                        let eb = te.bits();
                        let mut r = vec![];
                        for i in 0..*n {
                            r.push(match v {
                                V::C(x) => V::C((x >> (i * eb)) & mask(eb)),
                                V::B(x) => self.mkc((**x >> (i * eb)) & mask128(eb), eb),
                                V::S(e) => { let y = self.pool.extract(*e, (i + 1) * eb - 1, i * eb); self.norm(st, y) }
                                _ => return Err(Stop::Engine("bitcast".into())),
                            });
                        }
                        V::A(Rc::new(r))
                    }
                    _ => v.clone(),
                }
            }
            CastOp::UiToFp | CastOp::SiToFp => {
                let x = self.cv(st, v)?;
                let d = if op == CastOp::UiToFp { if *t == Ty::F32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() } } else { let s = sext(x, fw); if *t == Ty::F32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() } };
                V::C(d)
            }
            CastOp::FpToUi => { let x = self.cv(st, v)?; let d = if *f == Ty::F64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 }; V::C(d as u64 & mask(tw)) }
            CastOp::FpToSi => { let x = self.cv(st, v)?; let d = if *f == Ty::F64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 }; V::C(d as i64 as u64 & mask(tw)) }
            CastOp::FpTrunc => { let x = self.cv(st, v)?; V::C((f64::from_bits(x) as f32).to_bits() as u64) }
            CastOp::FpExt => { let x = self.cv(st, v)?; V::C((f32::from_bits(x as u32) as f64).to_bits()) }
        })
    }

    fn lanes(&mut self, st: &mut State, x: Ext, a: &[V], rt: &Ty, at: &[Ty], fi: u32) -> R<Option<V>> {
        // element-wise application of a scalar intrinsic to vectors
        if let Ty::Vec(n, e) = rt {
            let mut r = vec![];
            for i in 0..*n as usize {
                let args: Vec<V> = a.iter().map(|v| if let V::A(y) = v { y[i].clone() } else { v.clone() }).collect();
                let ats: Vec<Ty> = at.iter().map(|t| if let Ty::Vec(_, e) = t { (**e).clone() } else { t.clone() }).collect();
                r.push(self.external(st, fi, x, &args, e, &ats)?.unwrap());
            }
            return Ok(Some(V::A(Rc::new(r))));
        }
        Ok(None)
    }

    fn external(&mut self, st: &mut State, fi: u32, x: Ext, a: &[V], rt: &Ty, at: &[Ty]) -> R<Option<V>> {
        if matches!(rt, Ty::Vec(..)) { if let Some(v) = self.lanes(st, x, a, rt, at, fi)? { return Ok(Some(v)); } }
        let w = at.get(0).map(|t| t.bits()).unwrap_or(0);
        macro_rules! sc { ($i:expr) => { { let v = a[$i].clone(); self.cv(st, &v)? } } }
        Ok(match x {
            Ext::Panic => {
                return Err(Stop::Bad(format!("panic: {}", self.m.funs[fi as usize].name), None));
            }
            Ext::Abort | Ext::Trap => return Err(Stop::Bad(format!("abort: {}", self.m.funs[fi as usize].name), None)),
            Ext::Nop => None,
            Ext::Zero => Some(V::C(0)),
            Ext::Expect | Ext::TlsAddr => Some(a[0].clone()),
            Ext::Malloc => { let n = sc!(0); Some(V::C(self.malloc(st, n, 16)?)) }
            Ext::Calloc => {
                let n = sc!(0).saturating_mul(sc!(1));
                let p = self.malloc(st, n, 16)?;
                if p != 0 { st.mem.write_bytes(p, &vec![0u8; n as usize])?; }
                Some(V::C(p))
            }
            Ext::Realloc => {
                let (p, n) = (sc!(0), sc!(1));
                if p == 0 { return Ok(Some(V::C(self.malloc(st, n, 16)?))); }
                let old = self.heap_size(st, p)?;
                if Self::class(n + 16).0 == Self::class(old + 16).0 { st.mem.write_c(p - 16, 8, n as u128)?; return Ok(Some(V::C(p))); }
                let q = self.malloc(st, n, 16)?;
                if q != 0 { st.mem.copy(q, p, n.min(old))?; self.free(st, p)?; }
                Some(V::C(q))
            }
            Ext::Free => { let p = sc!(0); self.free(st, p)?; None }
            Ext::Memalign => { let (o, al, n) = (sc!(0), sc!(1), sc!(2)); let p = self.malloc(st, n, al)?; st.mem.write_c(o, 8, p as u128)?; Some(V::C(0)) }
            Ext::AlignedAlloc => { let (al, n) = (sc!(0), sc!(1)); Some(V::C(self.malloc(st, n, al)?)) }
            Ext::Memcpy => { let n = sc!(2); if n > 0 { let (d, s) = (sc!(0), sc!(1)); st.mem.copy(d, s, n)?; } Some(a[0].clone()) }
            Ext::Memset => {
                let n = sc!(2);
                if n > 0 {
                    let d = sc!(0);
                    match &a[1] {
                        V::C(b) => st.mem.write_bytes(d, &vec![*b as u8; n as usize])?,
                        V::S(e) => { let e = if self.pool.w(*e) > 8 { self.pool.extract(*e, 7, 0) } else { *e }; for i in 0..n { st.mem.write_s(d + i, 1, e)?; } }
                        _ => return Err(Stop::Engine("memset".into())),
                    }
                }
                Some(a[0].clone())
            }
            Ext::Memcmp | Ext::Bcmp => {
                let n = sc!(2);
                if n == 0 { return Ok(Some(V::C(0))); }
                let (p, q) = (sc!(0), sc!(1));
                let one = self.pool.cst(1, 32);
                let zero = self.pool.cst(0, 32);
                let neg = self.pool.cst(0xffff_ffff, 32);
                let mut acc = zero;
                if x == Ext::Bcmp {
                    // wide equality, word by word
                    let mut all = self.pool.cst(1, 1);
                    let mut i = 0;
                    while i < n {
                        let l = (n - i).min(4) as usize;
                        let (u, v) = (st.mem.read(&mut self.pool, p + i, l)?, st.mem.read(&mut self.pool, q + i, l)?);
                        let f = |pool: &mut Pool, x: Ld| match x { Ld::C(k) => pool.cst(k, 8 * l as u32), Ld::S(e) => e };
                        let (u, v) = (f(&mut self.pool, u), f(&mut self.pool, v));
                        let e = self.pool.bin(Op::Eq, u, v);
                        all = self.pool.bin(Op::And, all, e);
                        i += l as u64;
                    }
                    let r = self.pool.ite(all, zero, one);
                    return Ok(Some(self.norm(st, r)));
                }
                for i in (0..n).rev() {
                    let (u, v) = (st.mem.read(&mut self.pool, p + i, 1)?, st.mem.read(&mut self.pool, q + i, 1)?);
                    let f = |pool: &mut Pool, x: Ld| match x { Ld::C(k) => pool.cst(k, 8), Ld::S(e) => e };
                    let (u, v) = (f(&mut self.pool, u), f(&mut self.pool, v));
                    let eq = self.pool.bin(Op::Eq, u, v);
                    let lt = self.pool.bin(Op::Ult, u, v);
                    let d = self.pool.ite(lt, neg, one);
                    acc = self.pool.ite(eq, acc, d);
                }
                Some(self.norm(st, acc))
            }
            Ext::Memchr => {
                let (p, c, n) = (sc!(0), sc!(1), sc!(2));
                for i in 0..n {
                    let b = self.load(st, p + i, &Ty::Int(8))?;
                    let b = self.cv(st, &b)?;
                    if b == c & 255 { return Ok(Some(V::C(p + i))); }
                }
                Some(V::C(0))
            }
            Ext::Strlen => {
                let p = sc!(0);
                let mut n = 0;
                loop { match st.mem.read(&mut self.pool, p + n, 1)? { Ld::C(0) => break, _ => n += 1 } }
                Some(V::C(n))
            }
            Ext::Errno => Some(V::C(self.errno)),
            Ext::Write => { Some(a[2].clone()) }
            Ext::Syscall => {
                let nr = sc!(0);
                if nr == 318 {
                    let (p, n) = (sc!(1), sc!(2));
                    st.mem.write_bytes(p, &vec![0x5a; n as usize])?;
                    return Ok(Some(V::C(n)));
                }
                Some(V::C(0))
            }
            // --- harness intrinsics
            Ext::SxU | Ext::SxRange => {
                let k = sc!(0);
                let idx = st.inputs.len() as u32;
                if idx >= 64 { return Err(Stop::Engine("more than 64 symbolic inputs".into())); }
                let bits = if x == Ext::SxU { k as u32 } else { (64 - (k.max(2) - 1).leading_zeros()).max(1) };
                if x == Ext::SxRange && k <= 1 { return Ok(Some(V::C(0))); }
                let v = self.pool.var(idx, bits);
                st.inputs.push((v, bits));
                let mut m = (*st.model).clone();
                while m.vals.len() < st.inputs.len() { m.vals.push(0); }
                st.model = self.new_model(m.vals);
                if st.dom.len() <= idx as usize { st.dom.resize(idx as usize + 1, 0); }
                if bits <= 6 { st.dom[idx as usize] = mask(1 << bits); }
                if x == Ext::SxRange && !k.is_power_of_two() {
                    let kk = self.pool.cst(k as u128, bits);
                    let q = self.pool.bin(Op::Ult, v, kk);
                    self.assume(st, q);
                }
                let e = self.pool.zext(v, 64);
                Some(V::S(e))
            }
            Ext::SxAssume => {
                match &a[0] {
                    V::C(k) => { if *k == 0 { return Err(Stop::Infeasible); } }
                    V::S(e) => {
                        let z = self.pool.cst(0, w);
                        let q = self.pool.bin(Op::Eq, *e, z);
                        let c = self.pool.not(q);
                        if self.eval(st, c) == 0 {
                            match self.sat(st, c)? { None => return Err(Stop::Infeasible), Some(m) => st.model = self.new_model(m) }
                        }
                        self.assume(st, c);
                    }
                    _ => return Err(Stop::Engine("assume".into())),
                }
                None
            }
            Ext::SxCheck => {
                self.checks += 1;
                let code = sc!(1);
                match &a[0] {
                    V::C(k) => if *k == 0 { return Err(Stop::Bad(format!("check {} failed", code), None)); },
                    V::S(e) => {
                        let z = self.pool.cst(0, w);
                        let q = self.pool.bin(Op::Eq, *e, z);
                        if st.facts.get(&q) == Some(&false) { self.cache_hits += 1; return Ok(None); }
                        if let Some(m) = self.sat_z3(st, q)? { return Err(Stop::Bad(format!("check {} failed", code), Some(m))); }
                        st.facts.insert(q, false);
                    }
                    _ => return Err(Stop::Engine("check".into())),
                }
                None
            }
            Ext::SxFail => { let code = sc!(0); return Err(Stop::Bad(format!("check {} failed", code), None)); }
            Ext::SxCover => {
                // vacuity witness: (condition, id)
                let id = sc!(1);
                let hit = match &a[0] {
                    V::C(k) => *k != 0,
                    V::S(e) => {
                        if self.covers.get(&id).copied().unwrap_or(0) > 0 { true } else {
                            let z = self.pool.cst(0, w);
                            let q = self.pool.bin(Op::Eq, *e, z);
                            let q = self.pool.not(q);
                            self.sat(st, q)?.is_some()
                        }
                    }
                    _ => false,
                };
                let c = self.covers.entry(id).or_default();
                if hit { *c += 1; }
                None
            }
            Ext::SxNote => {
                st.notes.push(match &a[0] { V::C(k) => Ok(*k), V::S(e) => Err(*e), _ => Ok(0) });
                None
            }
            Ext::SxParam => { let i = sc!(0) as usize; Some(V::C(self.params.get(i).copied().unwrap_or(0))) }
            Ext::SxConc => { let v = sc!(0); Some(V::C(v)) }
            Ext::SxIsSym => Some(V::C(matches!(a[0], V::S(_)) as u64)),
            Ext::SxIte => {
                match &a[0] {
                    V::C(k) => Some(if *k != 0 { a[1].clone() } else { a[2].clone() }),
                    V::S(e) => {
                        let z = self.pool.cst(0, w);
                        let q = self.pool.bin(Op::Eq, *e, z);
                        Some(self.sel(st, q, &a[2], &a[1], rt))
                    }
                    _ => None,
                }
            }
            // --- LLVM intrinsics
            Ext::Umax | Ext::Umin | Ext::Smax | Ext::Smin => {
                let p = match x { Ext::Umax => Pred::Ugt, Ext::Umin => Pred::Ult, Ext::Smax => Pred::Sgt, _ => Pred::Slt };
                let c = self.icmp(st, p, &a[0], &a[1], w);
                Some(match c { V::C(k) => if k != 0 { a[0].clone() } else { a[1].clone() }, V::S(e) => self.sel(st, e, &a[0], &a[1], rt), _ => return Err(Stop::Engine("minmax".into())) })
            }
            Ext::UaddO | Ext::UsubO | Ext::UmulO | Ext::SaddO | Ext::SsubO | Ext::SmulO => {
                let op = match x { Ext::UaddO | Ext::SaddO => Op::Add, Ext::UsubO | Ext::SsubO => Op::Sub, _ => Op::Mul };
                let signed = matches!(x, Ext::SaddO | Ext::SsubO | Ext::SmulO);
                let r = self.bin(st, op, &a[0], &a[1], w);
                let ov = if let (V::C(p), V::C(q)) = (&a[0], &a[1]) {
                    let o = if signed {
                        let (p, q) = (sext(*p, w) as i128, sext(*q, w) as i128);
                        let t = match op { Op::Add => p + q, Op::Sub => p - q, _ => p.wrapping_mul(q) };
                        t < -(1i128 << (w - 1)) || t > (1i128 << (w - 1)) - 1
                    } else {
                        let (p, q) = (*p as u128, *q as u128);
                        match op { Op::Add => p + q > mask128(w), Op::Sub => p < q, _ => p.checked_mul(q).map_or(true, |t| t > mask128(w)) }
                    };
                    V::C(o as u64)
                } else {
                    match x {
                        Ext::UaddO => { let e = self.icmp(st, Pred::Ult, &r, &a[0], w); e }
                        Ext::UsubO => self.icmp(st, Pred::Ult, &a[0], &a[1], w),
                        _ => {
                            if w > 64 { return Err(Stop::Engine("wide mul overflow".into())); }
                            let (p, q) = (self.ex(&a[0], w), self.ex(&a[1], w));
                            let ww = 2 * w;
                            let (p, q) = if signed { (self.pool.sext(p, ww), self.pool.sext(q, ww)) } else { (self.pool.zext(p, ww), self.pool.zext(q, ww)) };
                            let t = self.pool.bin(op, p, q);
                            let lo = self.pool.extract(t, w - 1, 0);
                            let back = if signed { self.pool.sext(lo, ww) } else { self.pool.zext(lo, ww) };
                            let e = self.pool.bin(Op::Eq, t, back);
                            let e = self.pool.not(e);
                            self.norm(st, e)
                        }
                    }
                };
                Some(V::A(Rc::new(vec![r, ov])))
            }
            Ext::UaddS | Ext::UsubS => {
                let op = if x == Ext::UaddS { Op::Add } else { Op::Sub };
                let r = self.bin(st, op, &a[0], &a[1], w);
                let (c, alt) = if x == Ext::UaddS { (self.icmp(st, Pred::Ult, &r, &a[0], w), V::C(mask(w))) } else { (self.icmp(st, Pred::Ult, &a[0], &a[1], w), V::C(0)) };
                Some(match c { V::C(k) => if k != 0 { alt } else { r }, V::S(e) => self.sel(st, e, &alt, &r, rt), _ => return Err(Stop::Engine("sat".into())) })
            }
            Ext::SaddS | Ext::SsubS => {
                let (p, q) = (sext(sc!(0), w) as i128, sext(sc!(1), w) as i128);
                let t = if x == Ext::SaddS { p + q } else { p - q };
                let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                Some(V::C(t.clamp(lo, hi) as u64 & mask(w)))
            }
            Ext::Ctlz | Ext::Cttz | Ext::Ctpop => match &a[0] {
                V::C(k) => Some(V::C(match x { Ext::Ctlz => (k.leading_zeros() - (64 - w)) as u64, Ext::Cttz => (k.trailing_zeros().min(w)) as u64, _ => k.count_ones() as u64 })),
                V::S(e) => {
                    let e = *e;
                    let mut acc = self.pool.cst(if x == Ext::Ctpop { 0 } else { w as u128 }, w);
                    for i in 0..w {
                        let bit = match x { Ext::Ctlz => i, Ext::Cttz => w - 1 - i, _ => i };
                        let b = self.pool.extract(e, bit, bit);
                        if x == Ext::Ctpop { let z = self.pool.zext(b, w); acc = self.pool.bin(Op::Add, acc, z); } else {
                            let k = self.pool.cst(if x == Ext::Ctlz { (w - 1 - bit) as u128 } else { bit as u128 }, w);
                            acc = self.pool.ite(b, k, acc);
                        }
                    }
                    Some(self.norm(st, acc))
                }
                V::B(k) => Some(V::B(Rc::new(match x { Ext::Ctlz => (k.leading_zeros() - (128 - w)) as u128, Ext::Cttz => k.trailing_zeros().min(w) as u128, _ => k.count_ones() as u128 }))),
                _ => return Err(Stop::Engine("ctz".into())),
            },
            Ext::Bswap => match &a[0] {
                V::C(k) => Some(V::C(k.swap_bytes() >> (64 - w))),
                V::S(e) => {
                    let e = *e;
                    let mut acc: Option<E> = None;
                    for i in 0..w / 8 { let b = self.pool.extract(e, 8 * i + 7, 8 * i); acc = Some(match acc { None => b, Some(h) => self.pool.concat(h, b) }); }
                    let r = acc.unwrap();
                    Some(self.norm(st, r))
                }
                _ => return Err(Stop::Engine("bswap".into())),
            },
            Ext::Bitrev => { let k = sc!(0); Some(V::C(k.reverse_bits() >> (64 - w))) }
            Ext::Fshl | Ext::Fshr => {
                let k = sc!(2) % w as u64;
                let s = V::C(k);
                let r = V::C(w as u64 - k);
                let (hi, lo) = if x == Ext::Fshl { (self.bin(st, Op::Shl, &a[0], &s, w), self.bin(st, Op::LShr, &a[1], &r, w)) } else { (self.bin(st, Op::Shl, &a[0], &r, w), self.bin(st, Op::LShr, &a[1], &s, w)) };
                Some(self.bin(st, Op::Or, &hi, &lo, w))
            }
            Ext::Abs => {
                let z = V::C(0);
                let neg = self.bin(st, Op::Sub, &z, &a[0], w);
                let c = self.icmp(st, Pred::Slt, &a[0], &z, w);
                Some(match c { V::C(k) => if k != 0 { neg } else { a[0].clone() }, V::S(e) => self.sel(st, e, &neg, &a[0], rt), _ => return Err(Stop::Engine("abs".into())) })
            }
            Ext::Ucmp | Ext::Scmp => {
                let rw = rt.bits();
                let p = if x == Ext::Ucmp { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(st, p, &a[0], &a[1], w);
                let gt = self.icmp(st, p, &a[1], &a[0], w);
                let (lt, gt) = (self.ex(&lt, 1), self.ex(&gt, 1));
                let (m1, one, zero) = (self.pool.cst(mask128(rw), rw), self.pool.cst(1, rw), self.pool.cst(0, rw));
                let y = self.pool.ite(gt, one, zero);
                let r = self.pool.ite(lt, m1, y);
                Some(self.norm(st, r))
            }
            Ext::LoadRel => {
                let (p, o) = (sc!(0), sc!(1));
                let v = self.load(st, p.wrapping_add(o), &Ty::Int(32))?;
                let k = self.cv(st, &v)?;
                Some(V::C(p.wrapping_add(sext(k, 32) as u64)))
            }
            Ext::RedOr | Ext::RedAnd | Ext::RedAdd | Ext::RedXor | Ext::RedUmax | Ext::RedUmin => {
                let v = if let V::A(v) = &a[0] { v.clone() } else { return Err(Stop::Engine("reduce".into())) };
                let ew = rt.bits();
                let mut acc = v[0].clone();
                for y in &v[1..] {
                    acc = match x {
                        Ext::RedOr => self.bin(st, Op::Or, &acc, y, ew), Ext::RedAnd => self.bin(st, Op::And, &acc, y, ew), Ext::RedAdd => self.bin(st, Op::Add, &acc, y, ew), Ext::RedXor => self.bin(st, Op::Xor, &acc, y, ew),
                        _ => { let e = if x == Ext::RedUmax { Ext::Umax } else { Ext::Umin }; self.external(st, fi, e, &[acc.clone(), y.clone()], rt, &[rt.clone(), rt.clone()])?.unwrap() }
                    };
                }
                Some(acc)
            }
            Ext::Movmsk => {
                let v = if let V::A(v) = &a[0] { v.clone() } else { return Err(Stop::Engine("movmsk".into())) };
                let mut acc: Option<E> = None;
                for y in v.iter() { let e = self.ex(y, 8); let b = self.pool.extract(e, 7, 7); acc = Some(match acc { None => b, Some(l) => self.pool.concat(b, l) }); }
                let r = acc.unwrap();
                let r = self.pool.zext(r, 32);
                Some(self.norm(st, r))
            }
            Ext::FpToUiSat | Ext::FpToSiSat => {
                let k = sc!(0);
                let d = if at[0] == Ty::F64 { f64::from_bits(k) } else { f32::from_bits(k as u32) as f64 };
                let rw = rt.bits();
                let r = if x == Ext::FpToUiSat { (d as u64).min(mask(rw)) } else { let (lo, hi) = (-(1i128 << (rw - 1)), (1i128 << (rw - 1)) - 1); (d as i64 as i128).clamp(lo, hi) as u64 & mask(rw) };
                Some(V::C(r))
            }
            Ext::Fmath(k) => {
                let p = sc!(0);
                let f64t = at[0] == Ty::F64;
                let d = if f64t { f64::from_bits(p) } else { f32::from_bits(p as u32) as f64 };
                let y = if k == 9 { let q = sc!(1); if f64t { f64::from_bits(q) } else { f32::from_bits(q as u32) as f64 } } else { 0.0 };
                let r = match k { 0 => d.abs(), 1 => d.floor(), 2 => d.ceil(), 3 => d.sqrt(), 4 => d.trunc(), 5 => d.round(), 6 => d.log2(), 7 => d.ln(), 8 => d.exp(), _ => d.powf(y) };
                Some(V::C(if f64t { r.to_bits() } else { (r as f32).to_bits() as u64 }))
            }
            Ext::Unknown | Ext::None => return Err(Stop::Engine(format!("unmodelled external function {}", self.m.funs[fi as usize].name))),
        })
    }
    pub fn model_of(&self, st: &State) -> Vec<u64> {
        let mut v = st.model.vals.clone();
        v.resize(st.inputs.len(), 0);
        v
    }
    pub fn where_am_i(&self, st: &State) -> String {
        let mut s = vec![self.m.funs[st.top.f as usize].name.clone()];
        for f in st.frames.iter().rev() { s.push(self.m.funs[f.f as usize].name.clone()); }
        s.join(" < ")
    }
}
