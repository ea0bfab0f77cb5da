//! Minimal libz3 binding: translate expressions, check satisfiability of conjunctions, read models.
#![allow(non_camel_case_types)]
use crate::expr::{Ctx, Op, E};
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat { Sat, Unsat, Unknown }

pub struct Z3 { c: P, s: P, bv: Vec<P>, bl: Vec<P> }

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, None);
            let s = match std::env::var("RSYM_SOLVER").as_deref() { Ok("qfbv") => { let l = CString::new("QF_BV").unwrap(); Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())) } Ok("def") => Z3_mk_solver(c), _ => Z3_mk_simple_solver(c) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), rlimit);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), 30_000);
            let t = CString::new("random_seed").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), 1);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, bv: vec![], bl: vec![] }
        }
    }
    pub fn set_timeout(&mut self, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, t.as_ptr()), ms);
            Z3_solver_set_params(self.c, self.s, p);
        }
    }
    fn keep(&self, a: P) -> P { unsafe { Z3_inc_ref(self.c, a); } a }

    fn var(&self, k: u64, w: u16) -> P {
        unsafe {
            let sort = Z3_mk_bv_sort(self.c, w as c_uint);
            let id = if k >= crate::expr::CANON_VAR { 1_000_000 + (k - crate::expr::CANON_VAR) as c_int } else { k as c_int };
            Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, id), sort)
        }
    }

    /// bit-vector term
    pub fn term(&mut self, cx: &Ctx, e: E) -> P {
        if self.bv.len() <= e as usize { self.bv.resize(cx.n.len(), std::ptr::null_mut()); }
        if !self.bv[e as usize].is_null() { return self.bv[e as usize]; }
        let n = *cx.node(e);
        let c = self.c;
        unsafe {
            let r = match n.op {
                Op::Const => Z3_mk_unsigned_int64(c, n.k, Z3_mk_bv_sort(c, n.w as c_uint)),
                Op::Var => self.var(n.k, n.w),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(cx, e);
                    let s = Z3_mk_bv_sort(c, 1);
                    let one = self.keep(Z3_mk_unsigned_int64(c, 1, s));
                    let zero = self.keep(Z3_mk_unsigned_int64(c, 0, s));
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Ite => { let x = self.boolean(cx, n.a); let y = self.term(cx, n.b); let z = self.term(cx, n.c); Z3_mk_ite(c, x, y, z) }
                Op::Extract => { let x = self.term(cx, n.a); Z3_mk_extract(c, (n.k + n.w as u64 - 1) as c_uint, n.k as c_uint, x) }
                Op::ZExt => { let x = self.term(cx, n.a); Z3_mk_zero_ext(c, (n.w - cx.w(n.a)) as c_uint, x) }
                Op::SExt => { let x = self.term(cx, n.a); Z3_mk_sign_ext(c, (n.w - cx.w(n.a)) as c_uint, x) }
                _ => {
                    let x = self.term(cx, n.a);
                    let y = self.term(cx, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            };
            self.keep(r);
            if self.bv.len() <= e as usize { self.bv.resize(cx.n.len(), std::ptr::null_mut()); }
            self.bv[e as usize] = r;
            r
        }
    }
    /// 1-bit expression as a Boolean
    pub fn boolean(&mut self, cx: &Ctx, e: E) -> P {
        if self.bl.len() <= e as usize { self.bl.resize(cx.n.len(), std::ptr::null_mut()); }
        if !self.bl[e as usize].is_null() { return self.bl[e as usize]; }
        let n = *cx.node(e);
        let c = self.c;
        unsafe {
            let r = match n.op {
                Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq => {
                    if cx.w(n.a) == 1 { let x = self.boolean(cx, n.a); let y = self.boolean(cx, n.b); Z3_mk_eq(c, x, y) }
                    else { let x = self.term(cx, n.a); let y = self.term(cx, n.b); Z3_mk_eq(c, x, y) }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.term(cx, n.a); let y = self.term(cx, n.b);
                    match n.op { Op::Ult => Z3_mk_bvult(c, x, y), Op::Ule => Z3_mk_bvule(c, x, y), Op::Slt => Z3_mk_bvslt(c, x, y), _ => Z3_mk_bvsle(c, x, y) }
                }
                Op::And => { let v = [self.boolean(cx, n.a), self.boolean(cx, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.boolean(cx, n.a), self.boolean(cx, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor => {
                    let x = self.boolean(cx, n.a);
                    if cx.is_const(n.b) == Some(1) { Z3_mk_not(c, x) } else { let y = self.boolean(cx, n.b); Z3_mk_xor(c, x, y) }
                }
                Op::Ite => { let x = self.boolean(cx, n.a); let y = self.boolean(cx, n.b); let z = self.boolean(cx, n.c); Z3_mk_ite(c, x, y, z) }
                _ => { let x = self.term(cx, e); let one = self.keep(Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); Z3_mk_eq(c, x, one) }
            };
            self.keep(r);
            if self.bl.len() <= e as usize { self.bl.resize(cx.n.len(), std::ptr::null_mut()); }
            self.bl[e as usize] = r;
            r
        }
    }
    /// Check the conjunction; on Sat the values of `vars` (index expressions) are returned.
    pub fn check(&mut self, cx: &Ctx, cs: &[E], vars: &[E], dump: Option<&mut String>) -> (Sat, Vec<u64>) {
        unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in cs { let b = self.boolean(cx, e); Z3_solver_assert(self.c, self.s, b); }
            if let Some(d) = dump {
                let p = Z3_solver_to_string(self.c, self.s);
                *d = std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned();
            }
            let r = Z3_solver_check(self.c, self.s);
            let mut out = vec![];
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    if m.is_null() { Sat::Unknown } else {
                        Z3_model_inc_ref(self.c, m);
                        for &v in vars {
                            let t = self.term(cx, v);
                            let mut o: P = std::ptr::null_mut();
                            let mut x = 0u64;
                            if Z3_model_eval(self.c, m, t, true, &mut o) { Z3_inc_ref(self.c, o); Z3_get_numeral_uint64(self.c, o, &mut x); }
                            out.push(x);
                        }
                        Z3_model_dec_ref(self.c, m);
                        Sat::Sat
                    }
                }
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            if Z3_get_error_code(self.c) != 0 { return (Sat::Unknown, vec![]); }
            (res, out)
        }
    }
}
