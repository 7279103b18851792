//! Z3 back end (system libz3, C API). One incremental solver whose assertion stack follows the
//! path condition of the state being executed.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let s = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", s);
    }
    std::process::abort();
}

pub enum Res { Sat(Vec<u64>), Unsat, Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub max: f64 }

pub struct Solver {
    ctx: P,
    s: P,
    bv: Vec<P>,   // expr -> bit-vector ast
    bo: Vec<P>,   // expr -> bool ast (width 1)
    stack: Vec<E>,
    pub st: Stats,
    pub dump: Option<std::fs::File>,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let l = CString::new(std::env::var("SX_LOGIC").unwrap_or("QF_BV".into())).unwrap();
            let s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), 200_000_000);
            Z3_solver_set_params(ctx, s, p);
            Solver { ctx, s, bv: vec![], bo: vec![], stack: vec![], st: Stats::default(), dump: None }
        }
    }
    fn boolean(&mut self, p: &Pool, e: E) -> P {
        if self.bo.len() <= e as usize { self.bo.resize(p.n.len(), std::ptr::null_mut()); }
        if !self.bo[e as usize].is_null() { return self.bo[e as usize]; }
        let n = p.n[e as usize];
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => if n.ko & 1 == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Not => { let x = self.boolean(p, n.a); Z3_mk_not(c, x) }
                Op::And => { let x = [self.boolean(p, n.a), self.boolean(p, n.b)]; Z3_mk_and(c, 2, x.as_ptr()) }
                Op::Or => { let x = [self.boolean(p, n.a), self.boolean(p, n.b)]; Z3_mk_or(c, 2, x.as_ptr()) }
                Op::Xor => { let x = self.boolean(p, n.a); let y = self.boolean(p, n.b); Z3_mk_not(c, Z3_mk_eq(c, x, y)) }
                Op::Ite => { let x = self.boolean(p, n.a); let y = self.boolean(p, n.b); let z = self.boolean(p, n.c); Z3_mk_ite(c, x, y, z) }
                Op::Eq if p.w(n.a) == 1 => { let x = self.boolean(p, n.a); let y = self.boolean(p, n.b); Z3_mk_eq(c, x, y) }
                Op::Eq => { let x = self.bits(p, n.a); let y = self.bits(p, n.b); Z3_mk_eq(c, x, y) }
                Op::Ult => { let x = self.bits(p, n.a); let y = self.bits(p, n.b); Z3_mk_bvult(c, x, y) }
                Op::Ule => { let x = self.bits(p, n.a); let y = self.bits(p, n.b); Z3_mk_bvule(c, x, y) }
                Op::Slt => { let x = self.bits(p, n.a); let y = self.bits(p, n.b); Z3_mk_bvslt(c, x, y) }
                Op::Sle => { let x = self.bits(p, n.a); let y = self.bits(p, n.b); Z3_mk_bvsle(c, x, y) }
                _ => { let x = self.bits(p, e); let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)); Z3_mk_eq(c, x, one) }
            }
        };
        self.bo[e as usize] = r;
        r
    }
    fn bits(&mut self, p: &Pool, e: E) -> P {
        if self.bv.len() <= e as usize { self.bv.resize(p.n.len(), std::ptr::null_mut()); }
        if !self.bv[e as usize].is_null() { return self.bv[e as usize]; }
        let n = p.n[e as usize];
        let c = self.ctx;
        let w = n.w as c_uint;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let v = p.as_const(e).unwrap();
                    let so = Z3_mk_bv_sort(c, w);
                    if w <= 64 { Z3_mk_unsigned_int64(c, v as u64, so) } else { let s = CString::new(format!("{}", v)).unwrap(); Z3_mk_numeral(c, s.as_ptr(), so) }
                }
                Op::Var => {
                    let s = CString::new(format!("v{}_{}", n.a, w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(p, e);
                    let so = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, so), Z3_mk_unsigned_int64(c, 0, so))
                }
                Op::Not => { let x = self.bits(p, n.a); Z3_mk_bvnot(c, x) }
                Op::Ite => { let x = self.boolean(p, n.a); let y = self.bits(p, n.b); let z = self.bits(p, n.c); Z3_mk_ite(c, x, y, z) }
                Op::Extract => { let x = self.bits(p, n.a); Z3_mk_extract(c, n.lo as c_uint + w - 1, n.lo as c_uint, x) }
                Op::ZExt => { let x = self.bits(p, n.a); Z3_mk_zero_ext(c, w - p.w(n.a), x) }
                Op::SExt => { let x = self.bits(p, n.a); Z3_mk_sign_ext(c, w - p.w(n.a), x) }
                op => {
                    let x = self.bits(p, n.a);
                    let y = self.bits(p, n.b);
                    let f = match op {
                        Op::Add => Z3_mk_bvadd, Op::Sub => Z3_mk_bvsub, Op::Mul => Z3_mk_bvmul, Op::UDiv => Z3_mk_bvudiv,
                        Op::URem => Z3_mk_bvurem, Op::SDiv => Z3_mk_bvsdiv, Op::SRem => Z3_mk_bvsrem, Op::And => Z3_mk_bvand,
                        Op::Or => Z3_mk_bvor, Op::Xor => Z3_mk_bvxor, Op::Shl => Z3_mk_bvshl, Op::LShr => Z3_mk_bvlshr,
                        Op::AShr => Z3_mk_bvashr, Op::Concat => Z3_mk_concat, _ => unreachable!(),
                    };
                    f(c, x, y)
                }
            }
        };
        self.bv[e as usize] = r;
        r
    }
    fn sync(&mut self, p: &Pool, pc: &[E]) {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && self.stack[k] == pc[k] { k += 1; }
        unsafe {
            if self.stack.len() > k { Z3_solver_pop(self.ctx, self.s, (self.stack.len() - k) as c_uint); self.stack.truncate(k); }
            for &e in &pc[k..] {
                let b = self.boolean(p, e);
                Z3_solver_push(self.ctx, self.s);
                Z3_solver_assert(self.ctx, self.s, b);
                self.stack.push(e);
            }
        }
    }
    /// Is  /\pc /\ extra  satisfiable?  `inputs` are the symbolic variables to read back.
    pub fn check(&mut self, p: &Pool, pc: &[E], extra: E, inputs: &[(E, u32)]) -> Res {
        let t0 = Instant::now();
        self.sync(p, pc);
        let x = self.boolean(p, extra);
        unsafe {
            Z3_solver_push(self.ctx, self.s);
            Z3_solver_assert(self.ctx, self.s, x);
            let r = Z3_solver_check(self.ctx, self.s);
            if let Some(f) = &mut self.dump {
                use std::io::Write;
                let x = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().into_owned();
                let _ = writeln!(f, "; expected {}\n(reset)\n{}\n(check-sat)", match r { 1 => "sat", -1 => "unsat", _ => "unknown" }, x);
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vals = vec![];
                    for &(e, _) in inputs {
                        let a = self.bits(p, e);
                        let mut o = std::ptr::null_mut();
                        let mut v = 0u64;
                        if !Z3_model_eval(self.ctx, m, a, true, &mut o) || !Z3_get_numeral_uint64(self.ctx, o, &mut v) { v = 0; }
                        vals.push(v);
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.st.sat += 1;
                    Res::Sat(vals)
                }
                -1 => { self.st.unsat += 1; Res::Unsat }
                _ => { self.st.unknown += 1; Res::Unknown }
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            let dt = t0.elapsed().as_secs_f64();
            self.st.queries += 1;
            self.st.time += dt;
            if dt > self.st.max { self.st.max = dt; }
            out
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) { unsafe { Z3_del_context(self.ctx) } }
}
