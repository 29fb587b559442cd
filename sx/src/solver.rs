//! Z3 back end: constraint slicing, query cache, model extraction.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_get_error_code(c: P) -> c_int;
}
extern "C" fn on_err(_c: P, e: c_int) { eprintln!("z3 error {e}"); std::process::abort() }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache_hits: u64, pub model_hits: u64, pub solver_ns: u64, pub max_ns: u64 }

pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

pub struct Solver {
    c: P, s: P, fallback: P,
    ast: Vec<P>,
    cache: HashMap<Box<[Eid]>, Option<std::rc::Rc<Vec<(u32, u64)>>>>,
    pub stats: Stats,
    sorts: Vec<P>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let l = CString::new("QF_BV").unwrap();
            let fallback = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, fallback);
            let t = CString::new("timeout").unwrap();
            let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), 2000);
            Z3_solver_set_params(c, s, p);
            let p2 = Z3_mk_params(c); Z3_params_inc_ref(c, p2);
            Z3_params_set_uint(c, p2, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, fallback, p2);
            let sorts = (0..=128).map(|w| if w == 0 { std::ptr::null_mut() } else { Z3_mk_bv_sort(c, w) }).collect();
            Solver { c, s, fallback, ast: vec![], cache: HashMap::new(), stats: Stats::default(), sorts }
        }
    }
    unsafe fn num(&self, k: u128, w: u32) -> P {
        if w <= 64 { Z3_mk_unsigned_int64(self.c, k as u64, self.sorts[w as usize]) }
        else {
            let h = Z3_mk_unsigned_int64(self.c, (k >> 64) as u64, self.sorts[w as usize - 64]);
            let l = Z3_mk_unsigned_int64(self.c, k as u64, self.sorts[64]);
            Z3_mk_concat(self.c, h, l)
        }
    }
    /// bit-vector sorted form
    unsafe fn bv(&mut self, x: &Ctx, e: Eid) -> P {
        let a = self.tr(x, e);
        if x.w(e) == 1 { Z3_mk_ite(self.c, a, self.num(1, 1), self.num(0, 1)) } else { a }
    }
    /// width-1 expressions translate to Bool, everything else to bit-vectors
    unsafe fn tr(&mut self, x: &Ctx, e: Eid) -> P {
        if self.ast.len() < x.nodes.len() { self.ast.resize(x.nodes.len(), std::ptr::null_mut()) }
        if !self.ast[e as usize].is_null() { return self.ast[e as usize] }
        let c = self.c;
        let w = x.w(e);
        let r = match x.n(e) {
            N::Const(k) => if w == 1 { if k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(k, w) },
            N::Var(i) => { let v = self.var(x, i); if w == 1 { Z3_mk_eq(c, v, self.num(1, 1)) } else { v } }
            N::Bin(op, a, b) if w == 1 && matches!(op, Op::And | Op::Or | Op::Xor) => {
                let p = self.tr(x, a); let q = self.tr(x, b);
                let v = [p, q];
                match op { Op::And => Z3_mk_and(c, 2, v.as_ptr()), Op::Or => Z3_mk_or(c, 2, v.as_ptr()), _ => if x.cv(b) == Some(1) { Z3_mk_not(c, p) } else { Z3_mk_xor(c, p, q) } }
            }
            N::Bin(op, a, b) => {
                let p = self.bv(x, a); let q = self.bv(x, b);
                let r = match op {
                    Op::Add => Z3_mk_bvadd(c, p, q), Op::Sub => Z3_mk_bvsub(c, p, q), Op::Mul => Z3_mk_bvmul(c, p, q),
                    Op::UDiv => Z3_mk_bvudiv(c, p, q), Op::SDiv => Z3_mk_bvsdiv(c, p, q), Op::URem => Z3_mk_bvurem(c, p, q), Op::SRem => Z3_mk_bvsrem(c, p, q),
                    Op::And => Z3_mk_bvand(c, p, q), Op::Or => Z3_mk_bvor(c, p, q), Op::Xor => Z3_mk_bvxor(c, p, q),
                    Op::Shl => Z3_mk_bvshl(c, p, q), Op::LShr => Z3_mk_bvlshr(c, p, q), Op::AShr => Z3_mk_bvashr(c, p, q),
                };
                if w == 1 { Z3_mk_eq(c, r, self.num(1, 1)) } else { r }
            }
            N::Eq(a, b) => { let p = self.tr(x, a); let q = self.tr(x, b); Z3_mk_eq(c, p, q) }
            N::Ult(a, b) => { let p = self.bv(x, a); let q = self.bv(x, b); Z3_mk_bvult(c, p, q) }
            N::Slt(a, b) => { let p = self.bv(x, a); let q = self.bv(x, b); Z3_mk_bvslt(c, p, q) }
            N::Ite(k, a, b) => { let kk = self.tr(x, k); let p = self.tr(x, a); let q = self.tr(x, b); Z3_mk_ite(c, kk, p, q) }
            N::Concat(a, b) => { let p = self.bv(x, a); let q = self.bv(x, b); Z3_mk_concat(c, p, q) }
            N::Extract(l, a) => { let p = self.bv(x, a); let r = Z3_mk_extract(c, l + w - 1, l, p); if w == 1 { Z3_mk_eq(c, r, self.num(1, 1)) } else { r } }
            N::ZExt(a) => { let p = self.bv(x, a); Z3_mk_zero_ext(c, w - x.w(a), p) }
            N::SExt(a) => { let p = self.bv(x, a); Z3_mk_sign_ext(c, w - x.w(a), p) }
        };
        self.ast[e as usize] = r;
        r
    }
    unsafe fn var(&mut self, x: &Ctx, i: u32) -> P {
        let w = x.vars[i as usize].1;
        Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), self.sorts[w as usize])
    }

    /// Satisfiability of the part of `pc` that shares variables (transitively)
    /// with `goal`, together with `goal`.
    pub fn check(&mut self, x: &mut Ctx, pc: &[Eid], goal: Eid) -> Res {
        if let Some(k) = x.cv(goal) { if k == 0 { return Res::Unsat } }
        let mut vs = *x.vs(goal);
        let mut used = vec![false; pc.len()];
        let mut slice: Vec<Eid> = vec![];
        loop {
            let mut ch = false;
            for (i, &e) in pc.iter().enumerate() {
                if used[i] { continue }
                let v = x.vs(e);
                if v.iter().zip(vs.iter()).any(|(a, b)| a & b != 0) {
                    used[i] = true; ch = true;
                    slice.push(e);
                    for k in 0..vs.len() { vs[k] |= v[k] }
                }
            }
            if !ch { break }
        }
        slice.push(goal);
        slice.sort_unstable();
        slice.dedup();
        let key: Box<[Eid]> = slice.into_boxed_slice();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return match r { None => Res::Unsat, Some(m) => Res::Sat((**m).clone()) };
        }
        self.stats.queries += 1;
        let t0 = Instant::now();
        let r = unsafe {
            let asts: Vec<P> = key.iter().map(|&e| self.tr(x, e)).collect();
            let mut s = self.s;
            Z3_solver_push(self.c, s);
            for &a in &asts { Z3_solver_assert(self.c, s, a) }
            let mut st = Z3_solver_check(self.c, s);
            if st == 0 {
                Z3_solver_pop(self.c, s, 1);
                s = self.fallback;
                Z3_solver_push(self.c, s);
                for &a in &asts { Z3_solver_assert(self.c, s, a) }
                st = Z3_solver_check(self.c, s);
            }
            let r = match st {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for i in 0..x.vars.len() {
                        if vs[i / 64] >> (i % 64) & 1 == 1 {
                            let v = self.var(x, i as u32);
                            let mut a = std::ptr::null_mut();
                            Z3_model_eval(self.c, m, v, true, &mut a);
                            let mut n = 0u64;
                            if !Z3_get_numeral_uint64(self.c, a, &mut n) { panic!("model value") }
                            out.push((i as u32, n));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.c, s, 1);
            let _ = Z3_get_error_code(self.c);
            r
        };
        let ns = t0.elapsed().as_nanos() as u64;
        self.stats.solver_ns += ns;
        self.stats.max_ns = self.stats.max_ns.max(ns);
        match &r {
            Res::Sat(m) => {
                self.stats.sat += 1;
                // every model is checked against the query by independent evaluation
                let mut mv = vec![0u64; x.vars.len()];
                for &(i, v) in m { mv[i as usize] = v }
                for &e in key.iter() { assert!(x.eval(e, &mv) == 1, "z3 model does not satisfy the query") }
                self.cache.insert(key, Some(std::rc::Rc::new(m.clone())));
            }
            Res::Unsat => { self.stats.unsat += 1; self.cache.insert(key, None); }
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }
}
