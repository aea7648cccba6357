//! Minimal binding to the Z3 C API: translate expressions, check, read back a model.

use crate::expr::{BuildFx, Exprs, Op, X};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, sym: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_dec_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("symx: z3 error {e}");
    std::process::abort();
}

/// deterministic solver budget per query (no timer thread: the process forks)
const RLIMIT_EASY: c_uint = 400_000;
const RLIMIT: c_uint = 60_000_000;

pub struct Z3 {
    c: P,
    solver: P,
    trans: HashMap<X, P, BuildFx>,
    guards: HashMap<Guard, P>,
    vars: HashMap<u32, P>,
    n_asserted: usize,
    fp: bool,
    pub queries: u64,
    pub hard: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
    pub longest: std::time::Duration,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Guard {
    Expr(X),
    NotExpr(X),
    Domain(u32, [u64; 4]),
}

pub enum Answer {
    Sat,
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let mut z = Z3 {
                c,
                solver: std::ptr::null_mut(),
                trans: HashMap::default(),
                guards: HashMap::new(),
                vars: HashMap::new(),
                n_asserted: 0,
                fp: false,
                queries: 0,
                hard: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: Default::default(),
                longest: Default::default(),
            };
            z.reset_solver();
            z
        }
    }

    pub fn reset_stats(&mut self) {
        self.queries = 0;
        self.hard = 0;
        self.sat = 0;
        self.unsat = 0;
        self.unknown = 0;
        self.time = Default::default();
        self.longest = Default::default();
    }

    fn reset_solver(&mut self) {
        unsafe {
            if !self.solver.is_null() {
                Z3_solver_dec_ref(self.c, self.solver);
            }
            self.solver = if self.fp {
                Z3_mk_solver(self.c)
            } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()))
            };
            Z3_solver_inc_ref(self.c, self.solver);
            self.limit(self.solver, RLIMIT_EASY);
            self.guards.clear();
            self.n_asserted = 0;
        }
    }

    unsafe fn limit(&self, solver: P, n: u32) {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("rlimit").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), n);
        Z3_solver_set_params(self.c, solver, p);
    }

    fn bool_to_bv(&self, b: P) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, 1);
            Z3_mk_ite(self.c, b, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s))
        }
    }
    fn bv_to_bool(&self, a: P) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, 1);
            Z3_mk_eq(self.c, a, Z3_mk_unsigned_int64(self.c, 1, s))
        }
    }
    fn fsort(&self, w: u32) -> P {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort(self.c, 8, 24)
            } else {
                Z3_mk_fpa_sort(self.c, 11, 53)
            }
        }
    }

    fn var(&mut self, id: u32) -> P {
        let c = self.c;
        *self.vars.entry(id).or_insert_with(|| unsafe {
            let n = CString::new(format!("v{id}")).unwrap();
            Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, 8))
        })
    }

    pub fn tr(&mut self, e: &Exprs, x: X) -> P {
        // iterative post-order: expression DAGs can be deep
        let mut stack = vec![(x, false)];
        while let Some((y, ready)) = stack.pop() {
            if self.trans.contains_key(&y) {
                continue;
            }
            let n = e.nodes[y as usize];
            if !ready && !matches!(n.op, Op::Const | Op::Var) {
                stack.push((y, true));
                stack.push((n.a, false));
                if !matches!(n.op, Op::Extract | Op::ZExt | Op::SExt | Op::Lut) {
                    stack.push((n.b, false));
                    if n.op == Op::Ite {
                        stack.push((n.c, false));
                    }
                }
                continue;
            }
            let p = self.tr1(e, y);
            self.trans.insert(y, p);
        }
        self.trans[&x]
    }

    fn num(&self, w: u32, v: u128) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }

    fn tr1(&mut self, e: &Exprs, x: X) -> P {
        let n = e.nodes[x as usize];
        let w = n.w as u32;
        let c = self.c;
        let g = |s: &Self, y: X| -> P { *s.trans.get(&y).expect("z3 child") };
        unsafe {
            match n.op {
                Op::Const => self.num(w, n.imm),
                Op::Var => self.var(n.imm as u32),
                Op::Add => Z3_mk_bvadd(c, g(self, n.a), g(self, n.b)),
                Op::Sub => Z3_mk_bvsub(c, g(self, n.a), g(self, n.b)),
                Op::Mul => Z3_mk_bvmul(c, g(self, n.a), g(self, n.b)),
                Op::UDiv => Z3_mk_bvudiv(c, g(self, n.a), g(self, n.b)),
                Op::URem => Z3_mk_bvurem(c, g(self, n.a), g(self, n.b)),
                Op::SDiv => Z3_mk_bvsdiv(c, g(self, n.a), g(self, n.b)),
                Op::SRem => Z3_mk_bvsrem(c, g(self, n.a), g(self, n.b)),
                Op::And => Z3_mk_bvand(c, g(self, n.a), g(self, n.b)),
                Op::Or => Z3_mk_bvor(c, g(self, n.a), g(self, n.b)),
                Op::Xor => Z3_mk_bvxor(c, g(self, n.a), g(self, n.b)),
                Op::Shl => Z3_mk_bvshl(c, g(self, n.a), g(self, n.b)),
                Op::LShr => Z3_mk_bvlshr(c, g(self, n.a), g(self, n.b)),
                Op::AShr => Z3_mk_bvashr(c, g(self, n.a), g(self, n.b)),
                Op::Eq => self.bool_to_bv(Z3_mk_eq(c, g(self, n.a), g(self, n.b))),
                Op::Ult => self.bool_to_bv(Z3_mk_bvult(c, g(self, n.a), g(self, n.b))),
                Op::Ule => self.bool_to_bv(Z3_mk_bvule(c, g(self, n.a), g(self, n.b))),
                Op::Slt => self.bool_to_bv(Z3_mk_bvslt(c, g(self, n.a), g(self, n.b))),
                Op::Sle => self.bool_to_bv(Z3_mk_bvsle(c, g(self, n.a), g(self, n.b))),
                Op::Concat => Z3_mk_concat(c, g(self, n.a), g(self, n.b)),
                Op::Extract => Z3_mk_extract(c, n.imm as u32 + w - 1, n.imm as u32, g(self, n.a)),
                Op::ZExt => Z3_mk_zero_ext(c, w - e.w(n.a), g(self, n.a)),
                Op::SExt => Z3_mk_sign_ext(c, w - e.w(n.a), g(self, n.a)),
                Op::Ite => Z3_mk_ite(c, self.bv_to_bool(g(self, n.a)), g(self, n.b), g(self, n.c)),
                Op::Lut => {
                    let t = &e.luts[n.imm as usize];
                    let iw = e.w(n.a);
                    let idx = g(self, n.a);
                    self.lut_tree(idx, iw, t, 0, t.len(), w)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    self.fp = true;
                    let s = self.fsort(w);
                    let a = Z3_mk_fpa_to_fp_bv(c, g(self, n.a), s);
                    let b = Z3_mk_fpa_to_fp_bv(c, g(self, n.b), s);
                    let r = Z3_mk_fpa_rne(c);
                    let v = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, r, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, r, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, r, a, b),
                        _ => Z3_mk_fpa_div(c, r, a, b),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, v)
                }
                Op::FLt | Op::FLe | Op::FEq => {
                    self.fp = true;
                    let s = self.fsort(e.w(n.a));
                    let a = Z3_mk_fpa_to_fp_bv(c, g(self, n.a), s);
                    let b = Z3_mk_fpa_to_fp_bv(c, g(self, n.b), s);
                    self.bool_to_bv(match n.op {
                        Op::FLt => Z3_mk_fpa_lt(c, a, b),
                        Op::FLe => Z3_mk_fpa_leq(c, a, b),
                        _ => Z3_mk_fpa_eq(c, a, b),
                    })
                }
                Op::FNan => {
                    self.fp = true;
                    let s = self.fsort(e.w(n.a));
                    self.bool_to_bv(Z3_mk_fpa_is_nan(c, Z3_mk_fpa_to_fp_bv(c, g(self, n.a), s)))
                }
                Op::FToUi | Op::FToSi => {
                    self.fp = true;
                    let s = self.fsort(e.w(n.a));
                    let a = Z3_mk_fpa_to_fp_bv(c, g(self, n.a), s);
                    let rtz = Z3_mk_fpa_rtz(c);
                    let nan = Z3_mk_fpa_is_nan(c, a);
                    let (lo, hi, lov, hiv, mid) = if n.op == Op::FToUi {
                        (
                            0.0,
                            2f64.powi(w as i32),
                            self.num(w, 0),
                            self.num(w, crate::expr::mask(w)),
                            Z3_mk_fpa_to_ubv(c, rtz, a, w),
                        )
                    } else {
                        (
                            -(2f64.powi(w as i32 - 1)),
                            2f64.powi(w as i32 - 1),
                            self.num(w, 1u128 << (w - 1)),
                            self.num(w, crate::expr::mask(w) >> 1),
                            Z3_mk_fpa_to_sbv(c, rtz, a, w),
                        )
                    };
                    let flo = Z3_mk_fpa_numeral_double(c, lo, s);
                    let fhi = Z3_mk_fpa_numeral_double(c, hi, s);
                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, fhi, a), hiv, mid);
                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, a, flo), lov, r);
                    Z3_mk_ite(c, nan, self.num(w, 0), r)
                }
                Op::UiToF | Op::SiToF => {
                    self.fp = true;
                    let s = self.fsort(w);
                    let r = Z3_mk_fpa_rne(c);
                    let v = if n.op == Op::UiToF {
                        Z3_mk_fpa_to_fp_unsigned(c, r, g(self, n.a), s)
                    } else {
                        Z3_mk_fpa_to_fp_signed(c, r, g(self, n.a), s)
                    };
                    Z3_mk_fpa_to_ieee_bv(c, v)
                }
                Op::FExt | Op::FTrunc => {
                    self.fp = true;
                    let (sa, sr) = (self.fsort(e.w(n.a)), self.fsort(w));
                    let a = Z3_mk_fpa_to_fp_bv(c, g(self, n.a), sa);
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, sr))
                }
                Op::FFloor | Op::FCeil | Op::FTruncI | Op::FRoundEven | Op::FRoundAway | Op::FSqrt => {
                    self.fp = true;
                    let s = self.fsort(w);
                    let a = Z3_mk_fpa_to_fp_bv(c, g(self, n.a), s);
                    let v = match n.op {
                        Op::FFloor => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), a),
                        Op::FCeil => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), a),
                        Op::FTruncI => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), a),
                        Op::FRoundEven => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rne(c), a),
                        Op::FRoundAway => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), a),
                        _ => Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), a),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, v)
                }
            }
        }
    }

    fn lut_tree(&self, idx: P, iw: u32, t: &[u128], lo: usize, hi: usize, w: u32) -> P {
        if t[lo..hi].iter().all(|v| *v == t[lo]) {
            return self.num(w, t[lo]);
        }
        let mid = (lo + hi) / 2;
        let l = self.lut_tree(idx, iw, t, lo, mid, w);
        let r = self.lut_tree(idx, iw, t, mid, hi, w);
        unsafe { Z3_mk_ite(self.c, Z3_mk_bvult(self.c, idx, self.num(iw, mid as u128)), l, r) }
    }

    fn formula(&mut self, e: &Exprs, g: &Guard) -> P {
        match g {
            Guard::Expr(x) => {
                let a = self.tr(e, *x);
                self.bv_to_bool(a)
            }
            Guard::NotExpr(x) => {
                let a = self.tr(e, *x);
                let b = self.bv_to_bool(a);
                unsafe { Z3_mk_not(self.c, b) }
            }
            Guard::Domain(v, d) => {
                let p = self.var(*v);
                let mut parts = Vec::new();
                let has = |i: usize| d[i >> 6] >> (i & 63) & 1 == 1;
                let mut i = 0;
                while i < 256 {
                    if !has(i) {
                        i += 1;
                        continue;
                    }
                    let s = i;
                    while i < 256 && has(i) {
                        i += 1;
                    }
                    let hi = i - 1;
                    unsafe {
                        let f = if s == hi {
                            Z3_mk_eq(self.c, p, self.num(8, s as u128))
                        } else {
                            let ab = [
                                Z3_mk_bvule(self.c, self.num(8, s as u128), p),
                                Z3_mk_bvule(self.c, p, self.num(8, hi as u128)),
                            ];
                            Z3_mk_and(self.c, 2, ab.as_ptr())
                        };
                        parts.push(f);
                    }
                }
                unsafe { Z3_mk_or(self.c, parts.len() as u32, parts.as_ptr()) }
            }
        }
    }

    /// Check the conjunction of `gs`; on sat fill `model` for every variable in `mask`.
    pub fn check(&mut self, e: &Exprs, gs: &[Guard], vars: u128, model: Option<&mut [u8]>) -> Answer {
        let t0 = std::time::Instant::now();
        if self.n_asserted > 60 {
            self.reset_solver();
        }
        let mut lits: Vec<P> = Vec::with_capacity(gs.len());
        // translate first: discovering floating point switches the solver
        let fp0 = self.fp;
        for g in gs {
            if let Guard::Expr(x) | Guard::NotExpr(x) = g {
                self.tr(e, *x);
            }
        }
        if self.fp != fp0 {
            self.reset_solver();
        }
        for g in gs {
            let l = match self.guards.get(g) {
                Some(&l) => l,
                None => unsafe {
                    let f = self.formula(e, g);
                    let n = CString::new(format!("g{}", self.n_asserted)).unwrap();
                    let l = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bool_sort(self.c));
                    Z3_solver_assert(self.c, self.solver, Z3_mk_implies(self.c, l, f));
                    self.n_asserted += 1;
                    self.guards.insert(g.clone(), l);
                    l
                },
            };
            lits.push(l);
        }
        self.queries += 1;
        let mut r = unsafe { Z3_solver_check_assumptions(self.c, self.solver, lits.len() as u32, lits.as_ptr()) };
        let mut hard = std::ptr::null_mut();
        if r == 0 {
            // too much for the incremental core: a solver of its own, with full preprocessing
            self.hard += 1;
            unsafe {
                let n = CString::new(if self.fp { "qffpbv" } else { "qfbv" }).unwrap();
                let t = Z3_mk_tactic(self.c, n.as_ptr());
                Z3_tactic_inc_ref(self.c, t);
                hard = Z3_mk_solver_from_tactic(self.c, t);
                Z3_solver_inc_ref(self.c, hard);
                Z3_tactic_dec_ref(self.c, t);
                self.limit(hard, RLIMIT);
            }
            for g in gs {
                let f = self.formula(e, g);
                unsafe { Z3_solver_assert(self.c, hard, f) };
            }
            r = unsafe { Z3_solver_check(self.c, hard) };
        }
        let used = if hard.is_null() { self.solver } else { hard };
        let ans = match r {
            1 => {
                self.sat += 1;
                if let Some(model) = model {
                    unsafe {
                        let m = Z3_solver_get_model(self.c, used);
                        Z3_model_inc_ref(self.c, m);
                        let mut vs = vars;
                        while vs != 0 {
                            let v = vs.trailing_zeros();
                            vs &= vs - 1;
                            let p = self.var(v);
                            let mut out: P = std::ptr::null_mut();
                            let mut val = 0u64;
                            if Z3_model_eval(self.c, m, p, true, &mut out)
                                && Z3_get_numeral_uint64(self.c, out, &mut val)
                            {
                                model[v as usize] = val as u8;
                            }
                        }
                        Z3_model_dec_ref(self.c, m);
                    }
                }
                Answer::Sat
            }
            -1 => {
                self.unsat += 1;
                Answer::Unsat
            }
            _ => {
                self.unknown += 1;
                Answer::Unknown
            }
        };
        if !hard.is_null() {
            unsafe { Z3_solver_dec_ref(self.c, hard) };
        }
        let dt = t0.elapsed();
        if dt.as_millis() > 300 && std::env::var_os("SYMX_SLOW").is_some() {
            eprintln!("slow query {:?} r={r} hard={} asserted={} guards={} fp={}", dt, !used.is_null() && used != self.solver, self.n_asserted, gs.len(), self.fp);
            for g in gs {
                let f = self.formula(e, g);
                unsafe { eprintln!("   {}", std::ffi::CStr::from_ptr(Z3_ast_to_string(self.c, f)).to_string_lossy().replace('\n', " ").replace("  ", " ")) };
            }
        }
        self.time += dt;
        self.longest = self.longest.max(dt);
        ans
    }
}
