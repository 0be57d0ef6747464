//! Z3 back end: translation of terms, sliced queries, query cache.
use crate::expr::{self, FxMap, E, F, N};
use crate::ir::{B, P};
use std::os::raw::{c_char, c_uint, c_void};
use std::rc::Rc;
use std::time::{Duration, Instant};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solv = *mut c_void;
type Sym = *mut c_void;
type Mdl = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_mk_solver_for_logic(c: Ctx, l: Sym) -> Solv;
    fn Z3_mk_simple_solver(c: Ctx) -> Solv;
    fn Z3_solver_inc_ref(c: Ctx, s: Solv);
    fn Z3_solver_push(c: Ctx, s: Solv);
    fn Z3_solver_pop(c: Ctx, s: Solv, n: c_uint);
    fn Z3_solver_reset(c: Ctx, s: Solv);
    fn Z3_solver_assert(c: Ctx, s: Solv, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solv) -> i32;
    fn Z3_solver_check_assumptions(c: Ctx, s: Solv, n: c_uint, a: *const Ast) -> i32;
    fn Z3_solver_get_model(c: Ctx, s: Solv) -> Mdl;
    fn Z3_solver_set_params(c: Ctx, s: Solv, p: *mut c_void);
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: Sym, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: Mdl);
    fn Z3_model_dec_ref(c: Ctx, m: Mdl);
    fn Z3_model_eval(c: Ctx, m: Mdl, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Sym, ty: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, ty: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, m: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, m: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, m: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, m: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, m: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, m: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, m: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, m: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, m: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, m: Ast, a: Ast, n: c_uint) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, m: Ast, a: Ast, n: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_sort_32(c: Ctx) -> Sort;
    fn Z3_mk_fpa_sort_64(c: Ctx) -> Sort;
    fn Z3_get_full_version() -> *const c_char;
}

/// Result of a query: a (partial) model for the variables of the slice.
#[derive(Clone)]
pub enum Res {
    Sat(Rc<Vec<(u32, u8)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub reused: u64,
    /// queries decided by the second strategy
    pub second: u64,
    pub time: Duration,
    pub maxq: Duration,
}

pub struct Solver {
    c: Ctx,
    s: Solv,
    second: Solv,
    /// the second strategy for queries with floating point
    float: Solv,
    bools: FxMap<E, Ast>,
    bvs: FxMap<E, Ast>,
    cache: FxMap<Vec<E>, Res>,
    renames: FxMap<(E, Box<[u32]>), E>,
    pub st: Stats,
    timeout_ms: u32,
    since_reset: u32,
}

unsafe fn sym(c: Ctx, s: &str) -> Sym {
    let z = std::ffi::CString::new(s).unwrap();
    Z3_mk_string_symbol(c, z.as_ptr())
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            let mut s = Solver { c, s: std::ptr::null_mut(), second: std::ptr::null_mut(), float: std::ptr::null_mut(), bools: Default::default(), bvs: Default::default(), cache: Default::default(), renames: Default::default(), st: Stats::default(), timeout_ms, since_reset: 0 };
            s.fresh();
            s
        }
    }
    pub fn version() -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    unsafe fn fresh(&mut self) {
        let c = self.c;
        for k in 0..3 {
            let first = k == 0;
            let s = if first { Z3_mk_simple_solver(c) } else { Z3_mk_solver_for_logic(c, sym(c, if k == 1 { "QF_BV" } else { "QF_BVFP" })) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let ms = if first { self.timeout_ms.min(1500) } else { self.timeout_ms };
            Z3_params_set_uint(c, p, sym(c, "timeout"), ms);
            Z3_params_set_uint(c, p, sym(c, "random_seed"), 1);
            Z3_solver_set_params(c, s, p);
            if first {
                self.s = s;
            } else if k == 1 {
                self.second = s;
            } else {
                self.float = s;
            }
        }
        self.since_reset = 0;
    }

    fn isb(&self, e: E) -> bool {
        expr::width(e) == 1
    }
    /// 1-bit term as a Z3 Bool
    fn b(&mut self, e: E) -> Ast {
        if let Some(a) = self.bools.get(&e) {
            return *a;
        }
        let (n, _) = expr::node(e);
        let c = self.c;
        let r = unsafe {
            match n {
                N::Const(v) => {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                N::Cmp(p, x, y) => {
                    if self.isb(x) {
                        let (a, b) = (self.b(x), self.b(y));
                        match p {
                            P::Eq => Z3_mk_eq(c, a, b),
                            P::Ult => {
                                let na = Z3_mk_not(c, a);
                                Z3_mk_and(c, 2, [na, b].as_ptr())
                            }
                            P::Ule => {
                                let na = Z3_mk_not(c, a);
                                Z3_mk_or(c, 2, [na, b].as_ptr())
                            }
                            P::Slt => {
                                let nb = Z3_mk_not(c, b);
                                Z3_mk_and(c, 2, [a, nb].as_ptr())
                            }
                            P::Sle => {
                                let nb = Z3_mk_not(c, b);
                                Z3_mk_or(c, 2, [a, nb].as_ptr())
                            }
                            _ => unreachable!(),
                        }
                    } else {
                        let (a, b) = (self.v(x), self.v(y));
                        match p {
                            P::Eq => Z3_mk_eq(c, a, b),
                            P::Ult => Z3_mk_bvult(c, a, b),
                            P::Ule => Z3_mk_bvule(c, a, b),
                            P::Slt => Z3_mk_bvslt(c, a, b),
                            P::Sle => Z3_mk_bvsle(c, a, b),
                            _ => unreachable!(),
                        }
                    }
                }
                N::Bin(op, x, y) => {
                    let (a, b) = (self.b(x), self.b(y));
                    match op {
                        B::And | B::Mul => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        B::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        B::Xor | B::Add | B::Sub => {
                            if expr::is_const(y) == Some(1) {
                                Z3_mk_not(c, a)
                            } else {
                                Z3_mk_xor(c, a, b)
                            }
                        }
                        _ => panic!("1-bit {:?}", op),
                    }
                }
                N::Ite(k, x, y) => {
                    let (k, x, y) = (self.b(k), self.b(x), self.b(y));
                    Z3_mk_ite(c, k, x, y)
                }
                N::Fp(op, x, y) => {
                    let (a, b) = (self.flt(x), self.flt(y));
                    match op {
                        F::Lt => Z3_mk_fpa_lt(c, a, b),
                        F::Le => Z3_mk_fpa_leq(c, a, b),
                        F::Eq => Z3_mk_fpa_eq(c, a, b),
                        _ => panic!("1-bit {:?}", op),
                    }
                }
                _ => {
                    // extract and friends yield a 1-bit vector
                    let v = self.raw(e);
                    let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                    Z3_mk_eq(c, v, one)
                }
            }
        };
        self.bools.insert(e, r);
        r
    }
    /// any term as a Z3 bit-vector
    fn v(&mut self, e: E) -> Ast {
        if self.isb(e) {
            if let Some(a) = self.bvs.get(&e) {
                return *a;
            }
            let b = self.b(e);
            let r = unsafe {
                let s = Z3_mk_bv_sort(self.c, 1);
                let one = Z3_mk_unsigned_int64(self.c, 1, s);
                let zero = Z3_mk_unsigned_int64(self.c, 0, s);
                Z3_mk_ite(self.c, b, one, zero)
            };
            self.bvs.insert(e, r);
            return r;
        }
        self.raw(e)
    }
    fn fsort(&self, w: u32) -> Sort {
        unsafe {
            if w == 64 {
                Z3_mk_fpa_sort_64(self.c)
            } else {
                Z3_mk_fpa_sort_32(self.c)
            }
        }
    }
    /// IEEE bits as a Z3 floating point number
    fn flt(&mut self, e: E) -> Ast {
        let a = self.v(e);
        unsafe { Z3_mk_fpa_to_fp_bv(self.c, a, self.fsort(expr::width(e))) }
    }
    /// a floating point operation, as a bit-vector of width `w`
    fn fp(&mut self, op: F, x: E, y: E, w: u32) -> Ast {
        let c = self.c;
        unsafe {
            let ne = Z3_mk_fpa_rne(c);
            let r = match op {
                F::FromU => Z3_mk_fpa_to_fp_unsigned(c, ne, self.v(x), self.fsort(w)),
                F::FromS => Z3_mk_fpa_to_fp_signed(c, ne, self.v(x), self.fsort(w)),
                F::Cvt => Z3_mk_fpa_to_fp_float(c, ne, self.flt(x), self.fsort(w)),
                F::ToU => return Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), self.flt(x), w),
                F::ToS => return Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), self.flt(x), w),
                F::Add => Z3_mk_fpa_add(c, ne, self.flt(x), self.flt(y)),
                F::Sub => Z3_mk_fpa_sub(c, ne, self.flt(x), self.flt(y)),
                F::Mul => Z3_mk_fpa_mul(c, ne, self.flt(x), self.flt(y)),
                F::Div => Z3_mk_fpa_div(c, ne, self.flt(x), self.flt(y)),
                F::Sqrt => Z3_mk_fpa_sqrt(c, ne, self.flt(x)),
                F::Floor => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), self.flt(x)),
                F::Ceil => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), self.flt(x)),
                F::Trunc => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), self.flt(x)),
                F::Even => Z3_mk_fpa_round_to_integral(c, ne, self.flt(x)),
                F::Away => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), self.flt(x)),
                F::Lt | F::Le | F::Eq => unreachable!(),
            };
            let nan = self.num(if w == 64 { 0x7ff8 << 48 } else { 0x7fc0 << 16 }, w);
            Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, r), nan, Z3_mk_fpa_to_ieee_bv(c, r))
        }
    }
    fn num(&self, v: u128, w: u32) -> Ast {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let z = std::ffi::CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, z.as_ptr(), s)
            }
        }
    }
    fn raw(&mut self, e: E) -> Ast {
        if let Some(a) = self.bvs.get(&e) {
            if !self.isb(e) {
                return *a;
            }
        }
        let (n, w) = expr::node(e);
        let c = self.c;
        let r = unsafe {
            match n {
                N::Const(v) => self.num(v, w),
                N::Var(i) => {
                    let s = sym(c, &format!("b{}", i));
                    Z3_mk_const(c, s, Z3_mk_bv_sort(c, 8))
                }
                N::Bin(op, x, y) => {
                    let (mut a, mut b) = (self.v(x), self.v(y));
                    // arithmetic whose operands and result provably fit fewer bits
                    let ((_, xh), (yl, yh)) = (expr::range(x), expr::range(y));
                    let bits = |v: u128| 128 - v.leading_zeros();
                    let full = crate::ir::mask(u128::MAX, w);
                    let need = match op {
                        B::Add => xh.checked_add(yh).filter(|v| *v <= full).map(bits),
                        B::Mul => xh.checked_mul(yh).filter(|v| *v <= full).map(bits),
                        B::UDiv | B::URem if yl > 0 => Some(bits(xh.max(yh))),
                        _ => None,
                    };
                    let need = need.map(|k| k.max(bits(xh)).max(bits(yh)).max(1)).filter(|k| *k < w);
                    if let Some(k) = need {
                        a = Z3_mk_extract(c, k - 1, 0, a);
                        b = Z3_mk_extract(c, k - 1, 0, b);
                    }
                    let r = match op {
                        B::Add => Z3_mk_bvadd(c, a, b),
                        B::Sub => Z3_mk_bvsub(c, a, b),
                        B::Mul => Z3_mk_bvmul(c, a, b),
                        B::UDiv => Z3_mk_bvudiv(c, a, b),
                        B::SDiv => Z3_mk_bvsdiv(c, a, b),
                        B::URem => Z3_mk_bvurem(c, a, b),
                        B::SRem => Z3_mk_bvsrem(c, a, b),
                        B::Shl => Z3_mk_bvshl(c, a, b),
                        B::LShr => Z3_mk_bvlshr(c, a, b),
                        B::AShr => Z3_mk_bvashr(c, a, b),
                        B::And => Z3_mk_bvand(c, a, b),
                        B::Or => Z3_mk_bvor(c, a, b),
                        B::Xor => Z3_mk_bvxor(c, a, b),
                    };
                    match need {
                        Some(k) => Z3_mk_zero_ext(c, w - k, r),
                        None => r,
                    }
                }
                N::Cmp(..) => unreachable!(),
                N::Fp(op, x, y) => self.fp(op, x, y, w),
                N::Extract(x, lo) => {
                    let a = self.v(x);
                    Z3_mk_extract(c, lo + w - 1, lo, a)
                }
                N::Concat(h, l) => {
                    let (a, b) = (self.v(h), self.v(l));
                    Z3_mk_concat(c, a, b)
                }
                N::Zext(x) => {
                    let a = self.v(x);
                    Z3_mk_zero_ext(c, w - expr::width(x), a)
                }
                N::Sext(x) => {
                    let a = self.v(x);
                    Z3_mk_sign_ext(c, w - expr::width(x), a)
                }
                N::Ite(k, x, y) => {
                    let (k, x, y) = (self.b(k), self.v(x), self.v(y));
                    Z3_mk_ite(c, k, x, y)
                }
                N::Table(t, x) => {
                    let vals = expr::with(|a| a.tables[t as usize].clone());
                    let iw = expr::width(x);
                    let (lo, hi) = expr::range(x);
                    let step = 1usize << expr::known_tz(x).min(16);
                    let ia = self.v(x);
                    // runs of equal values, tested by upper bound
                    let mut runs: Vec<(usize, u64)> = vec![];
                    let mut i = (lo as usize + step - 1) / step * step;
                    while i < vals.len() && i as u128 <= hi {
                        if runs.last().map(|r| r.1 != vals[i]).unwrap_or(true) {
                            runs.push((i, vals[i]));
                        }
                        i += step;
                    }
                    if runs.is_empty() {
                        runs.push((0, vals[0]));
                    }
                    let mut r = self.num(runs.last().unwrap().1 as u128, w);
                    for k in (0..runs.len() - 1).rev() {
                        let lim = self.num(runs[k + 1].0 as u128, iw);
                        let cnd = Z3_mk_bvult(c, ia, lim);
                        let v = self.num(runs[k].1 as u128, w);
                        r = Z3_mk_ite(c, cnd, v, r);
                    }
                    r
                }
            }
        };
        if w != 1 {
            self.bvs.insert(e, r);
        }
        r
    }

    fn rename(&mut self, e: E, map: &FxMap<u32, u32>) -> E {
        let vs = expr::vars(e);
        if vs.iter().all(|v| map[v] == *v) {
            return e;
        }
        let to: Box<[u32]> = vs.iter().map(|v| map[v]).collect();
        if let Some(r) = self.renames.get(&(e, to.clone())) {
            return *r;
        }
        let (n, w) = expr::node(e);
        let r = match n {
            N::Const(_) => e,
            N::Var(v) => expr::var(map[&v]),
            N::Bin(op, a, b) => {
                let (a, b) = (self.rename(a, map), self.rename(b, map));
                expr::bin(op, a, b)
            }
            N::Cmp(p, a, b) => {
                let (a, b) = (self.rename(a, map), self.rename(b, map));
                expr::cmp(p, a, b)
            }
            N::Fp(op, a, b) => {
                let (a, b) = (self.rename(a, map), self.rename(b, map));
                expr::fp(op, a, b, w)
            }
            N::Extract(a, lo) => {
                let a = self.rename(a, map);
                expr::extract(a, lo, w)
            }
            N::Concat(a, b) => {
                let (a, b) = (self.rename(a, map), self.rename(b, map));
                expr::concat(a, b)
            }
            N::Zext(a) => {
                let a = self.rename(a, map);
                expr::zext(a, w)
            }
            N::Sext(a) => {
                let a = self.rename(a, map);
                expr::sextend(a, w)
            }
            N::Ite(c, a, b) => {
                let (c, a, b) = (self.rename(c, map), self.rename(a, map), self.rename(b, map));
                expr::ite(c, a, b)
            }
            N::Table(t, a) => {
                let a = self.rename(a, map);
                let v = expr::with(|x| (*x.tables[t as usize]).clone());
                expr::table(v, a, w)
            }
        };
        self.renames.insert((e, to), r);
        r
    }

    /// Is the conjunction satisfiable?  `cs` must already be the relevant slice.
    /// Queries are normalised by renaming their bytes in order, so that the same
    /// question about different input bytes is asked once.
    pub fn check(&mut self, cs: &[E]) -> Res {
        let mut vs: Vec<u32> = cs.iter().flat_map(|e| expr::vars(*e).to_vec()).collect();
        vs.sort_unstable();
        vs.dedup();
        if vs.iter().enumerate().all(|(i, v)| i as u32 == *v) {
            return self.check1(cs);
        }
        let map: FxMap<u32, u32> = vs.iter().enumerate().map(|(i, v)| (*v, i as u32)).collect();
        let rs: Vec<E> = cs.iter().map(|e| self.rename(*e, &map)).collect();
        match self.check1(&rs) {
            Res::Sat(m) => Res::Sat(Rc::new(m.iter().map(|(i, b)| (vs[*i as usize], *b)).collect())),
            r => r,
        }
    }

    fn check1(&mut self, cs: &[E]) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let res = unsafe {
            let c = self.c;
            let asts: Vec<Ast> = key.iter().map(|e| self.b(*e)).collect();
            Z3_solver_push(c, self.s);
            for a in &asts {
                Z3_solver_assert(c, self.s, *a);
            }
            let mut r = Z3_solver_check(c, self.s);
            let mut from = self.s;
            if r == 0 {
                // second opinion: plain bit-blasting
                from = if expr::FLT.get() { self.float } else { self.second };
                Z3_solver_reset(c, from);
                for a in &asts {
                    Z3_solver_assert(c, from, *a);
                }
                r = Z3_solver_check(c, from);
                self.st.second += 1;
            }
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, from);
                    Z3_model_inc_ref(c, m);
                    let mut vs: Vec<u32> = key.iter().flat_map(|e| expr::vars(*e).to_vec()).collect();
                    vs.sort_unstable();
                    vs.dedup();
                    let mut out = vec![];
                    for v in vs {
                        let t = self.v(expr::var(v));
                        let mut o: Ast = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(c, m, t, true, &mut o) {
                            Z3_get_numeral_uint64(c, o, &mut val);
                        }
                        out.push((v, val as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(Rc::new(out))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(c, self.s, 1);
            res
        };
        let dt = t0.elapsed();
        self.st.queries += 1;
        self.st.time += dt;
        self.st.maxq = self.st.maxq.max(dt);
        match res {
            Res::Sat(_) => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        if !matches!(res, Res::Unknown) {
            self.cache.insert(key, res.clone());
        }
        res
    }
}
