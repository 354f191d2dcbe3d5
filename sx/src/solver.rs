//! z3 through its C API: the decision procedure behind every feasibility and assertion query.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, o: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string();
        eprintln!("sx: z3 error: {}", m);
        std::process::exit(3);
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub max: f64,
}

pub enum Answer {
    Unsat,
    /// values of the symbols occurring in the query
    Sat(Vec<(u32, u64)>),
    Unknown,
}

pub struct Solver {
    ctx: P,
    s: P,
    memo: Vec<P>,
    memo_b: Vec<P>,
    sorts: Vec<P>,
    cache: FxMap<Vec<Id>, Option<Vec<(u32, u64)>>>,
    pub stats: Stats,
    /// (smt2 text, was_sat) of sampled queries, for the cross-check with a second solver
    pub sampled: Vec<(String, bool)>,
    pub sample_every: u64,
}

pub fn z3_version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Solver {
                ctx,
                s,
                memo: vec![],
                memo_b: vec![],
                sorts: vec![std::ptr::null_mut(); 129],
                cache: Default::default(),
                stats: Default::default(),
                sampled: vec![],
                sample_every: 0,
            }
        }
    }
    fn sort(&mut self, w: u8) -> P {
        let i = w as usize;
        if self.sorts[i].is_null() {
            unsafe {
                self.sorts[i] = Z3_mk_bv_sort(self.ctx, w as c_uint);
                Z3_inc_ref(self.ctx, self.sorts[i]);
            }
        }
        self.sorts[i]
    }
    fn num(&mut self, w: u8, k: u128) -> P {
        unsafe {
            if w <= 64 {
                let s = self.sort(w);
                Z3_mk_unsigned_int64(self.ctx, k as u64, s)
            } else {
                let sh = self.sort(w - 64);
                let sl = self.sort(64);
                let h = Z3_mk_unsigned_int64(self.ctx, (k >> 64) as u64, sh);
                Z3_inc_ref(self.ctx, h);
                let l = Z3_mk_unsigned_int64(self.ctx, k as u64, sl);
                Z3_inc_ref(self.ctx, l);
                Z3_mk_concat(self.ctx, h, l)
            }
        }
    }
    /// as a z3 Bool (expression must have width 1)
    fn tb(&mut self, ar: &Arena, i: Id) -> P {
        if self.memo_b.len() < ar.nodes.len() {
            self.memo_b.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        if !self.memo_b[i as usize].is_null() {
            return self.memo_b[i as usize];
        }
        let n = ar.n(i);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.tb(ar, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And => {
                    let x = [self.tb(ar, n.a), self.tb(ar, n.b)];
                    Z3_mk_and(c, 2, x.as_ptr())
                }
                Op::Or => {
                    let x = [self.tb(ar, n.a), self.tb(ar, n.b)];
                    Z3_mk_or(c, 2, x.as_ptr())
                }
                Op::Ite => {
                    let a = self.tb(ar, n.a);
                    let b = self.tb(ar, n.b);
                    let d = self.tb(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    if ar.w(n.a) == 1 && n.op == Op::Eq {
                        let a = self.tb(ar, n.a);
                        let b = self.tb(ar, n.b);
                        Z3_mk_eq(c, a, b)
                    } else {
                        let a = self.tr(ar, n.a);
                        let b = self.tr(ar, n.b);
                        match n.op {
                            Op::Eq => Z3_mk_eq(c, a, b),
                            Op::Ult => Z3_mk_bvult(c, a, b),
                            Op::Ule => Z3_mk_bvule(c, a, b),
                            Op::Slt => Z3_mk_bvslt(c, a, b),
                            _ => Z3_mk_bvsle(c, a, b),
                        }
                    }
                }
                _ => {
                    let a = self.tr(ar, i);
                    let one = self.num(1, 1);
                    Z3_inc_ref(c, one);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.memo_b[i as usize] = r;
        r
    }
    /// as a z3 bit-vector
    fn tr(&mut self, ar: &Arena, i: Id) -> P {
        if self.memo.len() < ar.nodes.len() {
            self.memo.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        if !self.memo[i as usize].is_null() {
            return self.memo[i as usize];
        }
        let n = ar.n(i);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Sym => {
                    let s = self.sort(n.w);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), s)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Not => {
                    let a = self.tb(ar, i);
                    let one = self.num(1, 1);
                    Z3_inc_ref(c, one);
                    let zero = self.num(1, 0);
                    Z3_inc_ref(c, zero);
                    Z3_mk_ite(c, a, one, zero)
                }
                Op::Ite => {
                    let a = self.tb(ar, n.a);
                    let b = self.tr(ar, n.b);
                    let d = self.tr(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Extract => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a)
                }
                Op::ZExt => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                op => {
                    let a = self.tr(ar, n.a);
                    let b = self.tr(ar, n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.memo[i as usize] = r;
        r
    }

    /// Is the conjunction of `cs` satisfiable?
    pub fn check(&mut self, ar: &Arena, cs: &[Id]) -> Answer {
        let mut key: Vec<Id> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if key.binary_search(&Arena::FALSE).is_ok() {
            return Answer::Unsat;
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cached += 1;
            return match r {
                None => Answer::Unsat,
                Some(m) => Answer::Sat(m.clone()),
            };
        }
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_push(self.ctx, self.s);
            for &k in &key {
                let b = self.tb(ar, k);
                Z3_solver_assert(self.ctx, self.s, b);
            }
            let r = Z3_solver_check(self.ctx, self.s);
            if self.sample_every > 0 && r != 0 && self.stats.queries % self.sample_every == 0 && self.sampled.len() < 60 {
                let t = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().to_string();
                self.sampled.push((t, r == 1));
            }
            let ans = if r == -1 {
                self.stats.unsat += 1;
                self.cache.insert(key, None);
                Answer::Unsat
            } else if r == 1 {
                self.stats.sat += 1;
                let m = Z3_solver_get_model(self.ctx, self.s);
                Z3_model_inc_ref(self.ctx, m);
                let mut syms = vec![];
                collect_syms(ar, &key, &mut syms);
                let mut out = vec![];
                for (id, node) in syms {
                    let t = self.tr(ar, node);
                    let mut v: P = std::ptr::null_mut();
                    let mut u = 0u64;
                    if Z3_model_eval(self.ctx, m, t, true, &mut v) {
                        Z3_inc_ref(self.ctx, v);
                        Z3_get_numeral_uint64(self.ctx, v, &mut u);
                    }
                    out.push((id, u));
                }
                Z3_model_dec_ref(self.ctx, m);
                self.cache.insert(key, Some(out.clone()));
                Answer::Sat(out)
            } else {
                self.stats.unknown += 1;
                Answer::Unknown
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            ans
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max {
            self.stats.max = dt;
        }
        r
    }
}

pub fn collect_syms(ar: &Arena, roots: &[Id], out: &mut Vec<(u32, Id)>) {
    let mut seen: std::collections::HashSet<Id, std::hash::BuildHasherDefault<Fx>> = Default::default();
    let mut st: Vec<Id> = roots.to_vec();
    while let Some(i) = st.pop() {
        if !seen.insert(i) {
            continue;
        }
        let n = ar.n(i);
        match n.op {
            Op::Const => {}
            Op::Sym => out.push((n.k as u32, i)),
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => st.push(n.a),
            Op::Ite => {
                st.push(n.a);
                st.push(n.b);
                st.push(n.c);
            }
            _ => {
                st.push(n.a);
                st.push(n.b);
            }
        }
    }
}
