//! Z3 back end (C API).  Queries are conjunctions of 1-bit terms, restricted to the constraints
//! that share inputs with the queried condition.

use crate::expr::*;
use crate::ir::BinOp;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_error(_c: P, code: c_int) {
    panic!("z3 error code {}", code);
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time_us: u64,
    pub max_us: u64,
    pub crosschecked: u64,
}

pub enum Answer {
    Sat(Model),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    bv: HashMap<E, P>,
    bl: HashMap<E, P>,
    syms: HashMap<u32, P>,
    sorts: HashMap<u32, P>,
    params: P,
    cache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    pub st: Stats,
    logic: CString,
    pub dump: Option<String>,
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}", a, b, c)
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Solver {
                c,
                bv: HashMap::new(),
                bl: HashMap::new(),
                syms: HashMap::new(),
                sorts: HashMap::new(),
                params,
                cache: HashMap::new(),
                st: Stats::default(),
                logic: CString::new("QF_BV").unwrap(),
                dump: None,
            }
        }
    }

    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }

    fn sort(&mut self, w: u32) -> P {
        if let Some(s) = self.sorts.get(&w) {
            return *s;
        }
        let s = self.keep(unsafe { Z3_mk_bv_sort(self.c, w) });
        self.sorts.insert(w, s);
        s
    }
    /// Bit-vector and boolean translations, children first.
    fn prepare(&mut self, p: &Pool, e: E) {
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.bv.contains_key(&x) || self.bl.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = p.node(x);
            let ch: Vec<E> = match n.op {
                Op::Const | Op::Sym => vec![],
                Op::Extract | Op::ZExt | Op::SExt => vec![n.a],
                Op::Ite => vec![n.a, n.b, n.c],
                _ => vec![n.a, n.b],
            };
            let mut ready = true;
            for &k in &ch {
                if !self.bv.contains_key(&k) && !self.bl.contains_key(&k) {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            self.tr1(p, x, n);
            st.pop();
        }
    }
    fn get_bv(&mut self, e: E) -> P {
        if let Some(b) = self.bv.get(&e) {
            return *b;
        }
        let b = self.bl[&e];
        unsafe {
            let s = self.sort(1);
            let one = self.keep(Z3_mk_numeral(self.c, c"1".as_ptr(), s));
            let zero = self.keep(Z3_mk_numeral(self.c, c"0".as_ptr(), s));
            let r = self.keep(Z3_mk_ite(self.c, b, one, zero));
            self.bv.insert(e, r);
            r
        }
    }
    fn get_bl(&mut self, e: E) -> P {
        if let Some(b) = self.bl.get(&e) {
            return *b;
        }
        let b = self.bv[&e];
        unsafe {
            let s = self.sort(1);
            let one = self.keep(Z3_mk_numeral(self.c, c"1".as_ptr(), s));
            let r = self.keep(Z3_mk_eq(self.c, b, one));
            self.bl.insert(e, r);
            r
        }
    }
    fn tr1(&mut self, p: &Pool, e: E, n: Node) {
        let c = self.c;
        unsafe {
            if n.w == 1 {
                let r = match n.op {
                    Op::Const => Some(if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }),
                    Op::Eq => {
                        if p.width(n.a) == 1 {
                            let (a, b) = (self.get_bl(n.a), self.get_bl(n.b));
                            Some(Z3_mk_eq(c, a, b))
                        } else {
                            let (a, b) = (self.get_bv(n.a), self.get_bv(n.b));
                            Some(Z3_mk_eq(c, a, b))
                        }
                    }
                    Op::Ult => {
                        let (a, b) = (self.get_bv(n.a), self.get_bv(n.b));
                        Some(Z3_mk_bvult(c, a, b))
                    }
                    Op::Slt => {
                        let (a, b) = (self.get_bv(n.a), self.get_bv(n.b));
                        Some(Z3_mk_bvslt(c, a, b))
                    }
                    Op::Ite => {
                        let (x, a, b) = (self.get_bl(n.a), self.get_bl(n.b), self.get_bl(n.c));
                        Some(Z3_mk_ite(c, x, a, b))
                    }
                    Op::Bin(BinOp::Xor) => {
                        let a = self.get_bl(n.a);
                        if p.node(n.b).op == Op::Const {
                            Some(if p.node(n.b).k == 1 { Z3_mk_not(c, a) } else { a })
                        } else {
                            let b = self.get_bl(n.b);
                            Some(Z3_mk_xor(c, a, b))
                        }
                    }
                    Op::Bin(BinOp::And) => {
                        let v = [self.get_bl(n.a), self.get_bl(n.b)];
                        Some(Z3_mk_and(c, 2, v.as_ptr()))
                    }
                    Op::Bin(BinOp::Or) => {
                        let v = [self.get_bl(n.a), self.get_bl(n.b)];
                        Some(Z3_mk_or(c, 2, v.as_ptr()))
                    }
                    _ => None,
                };
                if let Some(r) = r {
                    let r = self.keep(r);
                    self.bl.insert(e, r);
                    return;
                }
            }
            let r = match n.op {
                Op::Const => {
                    let s = CString::new(n.k.to_string()).unwrap();
                    let so = self.sort(n.w);
                    Z3_mk_numeral(c, s.as_ptr(), so)
                }
                Op::Sym => {
                    let so = self.sort(n.w);
                    let r = Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), so);
                    self.keep(r);
                    self.syms.insert(n.a, r);
                    r
                }
                Op::Extract => {
                    let a = self.get_bv(n.a);
                    Z3_mk_extract(c, n.k as c_uint + n.w - 1, n.k as c_uint, a)
                }
                Op::ZExt => {
                    let a = self.get_bv(n.a);
                    Z3_mk_zero_ext(c, n.w - p.width(n.a), a)
                }
                Op::SExt => {
                    let a = self.get_bv(n.a);
                    Z3_mk_sign_ext(c, n.w - p.width(n.a), a)
                }
                Op::Concat => {
                    let (a, b) = (self.get_bv(n.a), self.get_bv(n.b));
                    Z3_mk_concat(c, a, b)
                }
                Op::Ite => {
                    let x = self.get_bl(n.a);
                    let (a, b) = (self.get_bv(n.b), self.get_bv(n.c));
                    Z3_mk_ite(c, x, a, b)
                }
                Op::Bin(o) => {
                    let (a, b) = (self.get_bv(n.a), self.get_bv(n.b));
                    match o {
                        BinOp::Add => Z3_mk_bvadd(c, a, b),
                        BinOp::Sub => Z3_mk_bvsub(c, a, b),
                        BinOp::Mul => Z3_mk_bvmul(c, a, b),
                        BinOp::UDiv => Z3_mk_bvudiv(c, a, b),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, a, b),
                        BinOp::URem => Z3_mk_bvurem(c, a, b),
                        BinOp::SRem => Z3_mk_bvsrem(c, a, b),
                        BinOp::And => Z3_mk_bvand(c, a, b),
                        BinOp::Or => Z3_mk_bvor(c, a, b),
                        BinOp::Xor => Z3_mk_bvxor(c, a, b),
                        BinOp::Shl => Z3_mk_bvshl(c, a, b),
                        BinOp::LShr => Z3_mk_bvlshr(c, a, b),
                        BinOp::AShr => Z3_mk_bvashr(c, a, b),
                    }
                }
                _ => unreachable!(),
            };
            let r = self.keep(r);
            self.bv.insert(e, r);
        }
    }

    /// Is pc /\ cond satisfiable?  `base` is a model of pc; the answer's model satisfies both.
    pub fn check(&mut self, p: &mut Pool, pc: &[E], cond: E, base: &Model) -> Answer {
        // slice
        let mut want: Vec<u32> = p.syms(cond).to_vec();
        let mut used = vec![false; pc.len()];
        let mut q = vec![cond];
        let mut pcs: Vec<SymSet> = Vec::with_capacity(pc.len());
        for &e in pc {
            pcs.push(p.syms(e));
        }
        loop {
            let mut changed = false;
            for i in 0..pc.len() {
                if used[i] {
                    continue;
                }
                if pcs[i].iter().any(|s| want.binary_search(s).is_ok()) {
                    used[i] = true;
                    q.push(pc[i]);
                    let before = want.len();
                    for s in pcs[i].iter() {
                        if let Err(pos) = want.binary_search(s) {
                            want.insert(pos, *s);
                        }
                    }
                    if want.len() != before {
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        q.sort_unstable();
        q.dedup();
        if let Some(r) = self.cache.get(&q) {
            self.st.cache_hits += 1;
            return match r {
                None => Answer::Unsat,
                Some(m) => {
                    let mut nm = base.clone();
                    for (s, k) in m.iter() {
                        nm.set(*s, *k);
                    }
                    Answer::Sat(nm)
                }
            };
        }
        for &e in &q {
            self.prepare(p, e);
        }
        let t0 = Instant::now();
        let res;
        let mut assign = vec![];
        unsafe {
            let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, self.logic.as_ptr()));
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_set_params(self.c, s, self.params);
            for &e in &q {
                let b = self.get_bl(e);
                Z3_solver_assert(self.c, s, b);
            }
            res = Z3_solver_check(self.c, s);
            if let Some(dir) = &self.dump {
                let txt = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(
                    format!("{}/q{}_{}.smt2", dir, std::process::id(), self.st.queries),
                    format!(
                        "(set-logic QF_BV)\n(set-info :status {})\n{}\n(check-sat)\n",
                        match res {
                            1 => "sat",
                            -1 => "unsat",
                            _ => "unknown",
                        },
                        txt
                    ),
                );
            }
            if res == 1 {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                for sid in &want {
                    let t = match self.syms.get(sid) {
                        Some(t) => *t,
                        None => continue,
                    };
                    let mut out: P = std::ptr::null_mut();
                    if Z3_model_eval(self.c, m, t, true, &mut out) {
                        Z3_inc_ref(self.c, out);
                        let str = CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_string_lossy().into_owned();
                        Z3_dec_ref(self.c, out);
                        assign.push((*sid, str.parse::<u128>().expect("numeral")));
                    }
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_dec_ref(self.c, s);
        }
        let dt = t0.elapsed().as_micros() as u64;
        self.st.queries += 1;
        self.st.time_us += dt;
        self.st.max_us = self.st.max_us.max(dt);
        match res {
            1 => {
                self.st.sat += 1;
                let a = Rc::new(assign);
                self.cache.insert(q.clone(), Some(a.clone()));
                let mut nm = base.clone();
                for (s, k) in a.iter() {
                    nm.set(*s, *k);
                }
                // the model must satisfy the query under our own evaluator (checks the translation)
                let mut memo = HashMap::new();
                for &e in &q {
                    if p.eval(e, &nm, &mut memo) != 1 {
                        panic!("solver model does not satisfy the query term (translation error)");
                    }
                }
                Answer::Sat(nm)
            }
            -1 => {
                self.st.unsat += 1;
                self.cache.insert(q, None);
                Answer::Unsat
            }
            _ => Answer::Unknown,
        }
    }
}
