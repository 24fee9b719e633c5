//! z3 (C API) back end: sliced queries over byte variables, with a query cache.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type Z = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: Z) -> Z;
    fn Z3_inc_ref(c: Z, a: Z);
    fn Z3_mk_solver_for_logic(c: Z, l: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_reset(c: Z, s: Z);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_solver_get_reason_unknown(c: Z, s: Z) -> *const c_char;
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, compl: bool, v: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, v: Z, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_bv_sort(c: Z, n: c_uint) -> Z;
    fn Z3_mk_const(c: Z, s: Z, t: Z) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, t: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: Z, h: extern "C" fn(Z, c_int));
}

extern "C" fn on_error(_c: Z, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::exit(3);
}

pub enum Sat {
    Sat(HashMap<u32, u8>),
    Unsat,
    Unknown(String),
}

pub struct Solver {
    c: Z,
    s: Z,
    ast: HashMap<Ex, Z>,
    bast: HashMap<Ex, Z>,
    sorts: HashMap<u32, Z>,
    cache: HashMap<Vec<Ex>, Option<HashMap<u32, u8>>>,
    /// per single-byte constraint, the byte values that satisfy it
    dom: HashMap<Ex, [u64; 4]>,
    pub byte_domain: u64,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_query: f64,
    pub dump: Option<String>,
    pub dumped: u32,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, on_error);
            let l = CString::new("QF_BV").unwrap();
            let sy = Z3_mk_string_symbol(c, l.as_ptr());
            let s = Z3_mk_solver_for_logic(c, sy);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver { c, s, ast: HashMap::new(), bast: HashMap::new(), sorts: HashMap::new(), cache: HashMap::new(), dom: HashMap::new(), byte_domain: 0, queries: 0, cache_hits: 0, sat: 0, unsat: 0, time: 0.0, max_query: 0.0, dump: None, dumped: 0 }
        }
    }
    fn tr(&mut self, e: Ex) -> Z {
        if let Some(z) = self.ast.get(&e) {
            return *z;
        }
        let (n, w) = node(e);
        let c = self.c;
        let z = unsafe {
            match n {
                Node::Const(v) => {
                    let s = CString::new(v.to_string()).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), self.sort(w))
                }
                Node::Sym(i) => {
                    let s = CString::new(format!("s{}", i)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sort(8))
                }
                Node::Extract(x, lo) => {
                    let a = self.tr(x);
                    Z3_mk_extract(c, lo + w - 1, lo, a)
                }
                Node::ZExt(x) => {
                    let a = self.tr(x);
                    Z3_mk_zero_ext(c, w - width(x), a)
                }
                Node::SExt(x) => {
                    let a = self.tr(x);
                    Z3_mk_sign_ext(c, w - width(x), a)
                }
                Node::Ite(k, x, y) => {
                    let kk = self.trb(k);
                    let a = self.tr(x);
                    let b = self.tr(y);
                    Z3_mk_ite(c, kk, a, b)
                }
                Node::Bin(op, x, y) => {
                    let (a, b) = if is_cmp(op) { (std::ptr::null_mut(), std::ptr::null_mut()) } else { (self.tr(x), self.tr(y)) };
                    match op {
                        Bop::And => Z3_mk_bvand(c, a, b),
                        Bop::Or => Z3_mk_bvor(c, a, b),
                        Bop::Xor => Z3_mk_bvxor(c, a, b),
                        Bop::Add => Z3_mk_bvadd(c, a, b),
                        Bop::Sub => Z3_mk_bvsub(c, a, b),
                        Bop::Mul => Z3_mk_bvmul(c, a, b),
                        Bop::UDiv => Z3_mk_bvudiv(c, a, b),
                        Bop::URem => Z3_mk_bvurem(c, a, b),
                        Bop::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Bop::SRem => Z3_mk_bvsrem(c, a, b),
                        Bop::Shl => Z3_mk_bvshl(c, a, b),
                        Bop::LShr => Z3_mk_bvlshr(c, a, b),
                        Bop::AShr => Z3_mk_bvashr(c, a, b),
                        Bop::Concat => Z3_mk_concat(c, a, b),
                        _ => {
                            let p = self.trb(e);
                            let one = self.tr(cst(1, 1));
                            let zero = self.tr(cst(1, 0));
                            Z3_mk_ite(c, p, one, zero)
                        }
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, z) };
        self.ast.insert(e, z);
        z
    }
    fn sort(&mut self, w: u32) -> Z {
        if let Some(z) = self.sorts.get(&w) {
            return *z;
        }
        let z = unsafe {
            let z = Z3_mk_bv_sort(self.c, w);
            Z3_inc_ref(self.c, z);
            z
        };
        self.sorts.insert(w, z);
        z
    }
    /// boolean translation of a 1-bit expression
    fn trb(&mut self, e: Ex) -> Z {
        if let Some(z) = self.bast.get(&e) {
            return *z;
        }
        let c = self.c;
        let z = match node(e).0 {
            Node::Bin(op, x, y) if is_cmp(op) => {
                let a = self.tr(x);
                let b = self.tr(y);
                unsafe {
                    match op {
                        Bop::Eq => Z3_mk_eq(c, a, b),
                        Bop::Ult => Z3_mk_bvult(c, a, b),
                        Bop::Ule => Z3_mk_bvule(c, a, b),
                        Bop::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
            }
            _ => {
                let one = self.tr(cst(1, 1));
                let a = self.tr(e);
                unsafe { Z3_mk_eq(c, a, one) }
            }
        };
        unsafe { Z3_inc_ref(c, z) };
        self.bast.insert(e, z);
        z
    }
    /// the constraints of `pc` transitively sharing a variable with `cond`
    fn slice(pc: &[Ex], cond: Ex) -> Vec<Ex> {
        let mut vs: HashSet<u32> = vars(cond).iter().cloned().collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let pv = vars(p);
                if pv.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    ch = true;
                    vs.extend(pv.iter().cloned());
                }
            }
            if !ch {
                break;
            }
        }
        let mut r: Vec<Ex> = pc.iter().zip(used).filter(|(_, u)| *u).map(|(p, _)| *p).collect();
        r.push(cond);
        r.sort();
        r.dedup();
        r
    }
    fn domain(&mut self, e: Ex, v: u32) -> [u64; 4] {
        if let Some(d) = self.dom.get(&e) {
            return *d;
        }
        let mut d = [0u64; 4];
        for k in 0..256usize {
            let mut memo = HashMap::new();
            if eval(e, &|i| if i == v { k as u8 } else { 0 }, &mut memo) == 1 {
                d[k / 64] |= 1 << (k % 64);
            }
        }
        self.dom.insert(e, d);
        d
    }
    /// Feasibility of a branch: like `decide`, but constraints over one byte are settled by
    /// intersecting the sets of byte values they allow.
    pub fn check(&mut self, pc: &[Ex], cond: Ex) -> Sat {
        if as_const(cond).is_none() && vars(cond).len() == 1 {
            let v = *vars(cond).iter().next().unwrap();
            let mut d = self.domain(cond, v);
            let mut own = true;
            for &p in pc {
                let pv = vars(p);
                if pv.contains(&v) {
                    if pv.len() == 1 {
                        let x = self.domain(p, v);
                        for i in 0..4 {
                            d[i] &= x[i];
                        }
                    } else {
                        own = false;
                    }
                }
            }
            if d == [0; 4] {
                self.byte_domain += 1;
                return Sat::Unsat;
            }
            if own {
                self.byte_domain += 1;
                let k = (0..256usize).find(|k| d[k / 64] >> (k % 64) & 1 == 1).unwrap();
                return Sat::Sat(HashMap::from([(v, k as u8)]));
            }
        }
        self.decide(pc, cond)
    }
    /// is `pc /\ cond` satisfiable?  The model covers the variables of the slice only.
    pub fn decide(&mut self, pc: &[Ex], cond: Ex) -> Sat {
        if let Some(v) = as_const(cond) {
            return if v == 1 { Sat::Sat(HashMap::new()) } else { Sat::Unsat };
        }
        let q = Self::slice(pc, cond);
        if let Some(r) = self.cache.get(&q) {
            self.cache_hits += 1;
            return match r {
                Some(m) => Sat::Sat(m.clone()),
                None => Sat::Unsat,
            };
        }
        // an unsatisfiable part settles the whole: first only what speaks of no other variables
        let own: HashSet<u32> = vars(cond).iter().cloned().collect();
        let part: Vec<Ex> = q.iter().cloned().filter(|e| vars(*e).iter().all(|v| own.contains(v))).collect();
        if part.len() < q.len() {
            let known = self.cache.get(&part).map(|r| r.is_none());
            let refuted = match known {
                Some(k) => k,
                None => matches!(self.solve(&part), Sat::Unsat),
            };
            if refuted {
                self.cache.insert(q, None);
                return Sat::Unsat;
            }
        }
        self.solve(&q)
    }
    fn solve(&mut self, q: &[Ex]) -> Sat {
        self.queries += 1;
        let t0 = Instant::now();
        let c = self.c;
        let asts: Vec<Z> = q.iter().map(|e| self.trb(*e)).collect();
        let mut vs: HashSet<u32> = HashSet::new();
        for e in q {
            vs.extend(vars(*e).iter().cloned());
        }
        let r = unsafe {
            Z3_solver_reset(c, self.s);
            for a in asts {
                Z3_solver_assert(c, self.s, a);
            }
            match Z3_solver_check(c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut h = HashMap::new();
                    for v in vs {
                        let a = self.tr(sym(v));
                        let mut out: Z = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(c, m, a, true, &mut out) && Z3_get_numeral_uint64(c, out, &mut u) {
                            h.insert(v, u as u8);
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    Sat::Sat(h)
                }
                -1 => Sat::Unsat,
                _ => {
                    let r = std::ffi::CStr::from_ptr(Z3_solver_get_reason_unknown(c, self.s)).to_string_lossy().to_string();
                    Sat::Unknown(r)
                }
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_query {
            self.max_query = dt;
        }
        match &r {
            Sat::Sat(m) => {
                self.sat += 1;
                // the evaluator and the solver must agree: a cheap cross-check of the translation
                let mut memo = HashMap::new();
                for e in q {
                    if eval(*e, &|i| m.get(&i).cloned().unwrap_or(0), &mut memo) != 1 {
                        eprintln!("evaluator disagrees with the solver model");
                        std::process::exit(3);
                    }
                }
                self.cache.insert(q.to_vec(), Some(m.clone()));
            }
            Sat::Unsat => {
                self.unsat += 1;
                self.cache.insert(q.to_vec(), None);
            }
            _ => {}
        }
        if self.dump.is_some() {
            self.dump_query(q, &r);
        }
        r
    }
    fn dump_query(&mut self, q: &[Ex], r: &Sat) {
        // SMT-LIB copies of a sample of queries for a second solver
        let n = self.queries;
        if !(n.is_power_of_two() || n % 97 == 0) || self.dumped >= 200 {
            return;
        }
        let ans = match r {
            Sat::Sat(_) => "sat",
            Sat::Unsat => "unsat",
            _ => return,
        };
        let mut vs: HashSet<u32> = HashSet::new();
        for e in q {
            vs.extend(vars(*e).iter().cloned());
        }
        let mut s = format!("; expected {}\n(set-logic QF_BV)\n", ans);
        for v in vs {
            s.push_str(&format!("(declare-const s{} (_ BitVec 8))\n", v));
        }
        let mut names: HashMap<Ex, String> = HashMap::new();
        for e in q {
            let n = smt(*e, &mut names, &mut s);
            s.push_str(&format!("(assert (= {} #b1))\n", n));
        }
        s.push_str("(check-sat)\n");
        let p = format!("{}/q{}.smt2", self.dump.as_ref().unwrap(), n);
        let _ = std::fs::write(p, s);
        self.dumped += 1;
    }
}

fn smt(e: Ex, names: &mut HashMap<Ex, String>, out: &mut String) -> String {
    if let Some(n) = names.get(&e) {
        return n.clone();
    }
    let (n, w) = node(e);
    let body = match n {
        Node::Const(v) => {
            let r = format!("(_ bv{} {})", v, w);
            names.insert(e, r.clone());
            return r;
        }
        Node::Sym(i) => {
            let r = format!("s{}", i);
            names.insert(e, r.clone());
            return r;
        }
        Node::Extract(x, lo) => format!("((_ extract {} {}) {})", lo + w - 1, lo, smt(x, names, out)),
        Node::ZExt(x) => format!("((_ zero_extend {}) {})", w - width(x), smt(x, names, out)),
        Node::SExt(x) => format!("((_ sign_extend {}) {})", w - width(x), smt(x, names, out)),
        Node::Ite(c, x, y) => {
            let (c, x, y) = (smt(c, names, out), smt(x, names, out), smt(y, names, out));
            format!("(ite (= {} #b1) {} {})", c, x, y)
        }
        Node::Bin(op, x, y) => {
            let (x, y) = (smt(x, names, out), smt(y, names, out));
            let o = match op {
                Bop::And => "bvand",
                Bop::Or => "bvor",
                Bop::Xor => "bvxor",
                Bop::Add => "bvadd",
                Bop::Sub => "bvsub",
                Bop::Mul => "bvmul",
                Bop::UDiv => "bvudiv",
                Bop::URem => "bvurem",
                Bop::SDiv => "bvsdiv",
                Bop::SRem => "bvsrem",
                Bop::Shl => "bvshl",
                Bop::LShr => "bvlshr",
                Bop::AShr => "bvashr",
                Bop::Concat => "concat",
                Bop::Eq => "=",
                Bop::Ult => "bvult",
                Bop::Ule => "bvule",
                Bop::Slt => "bvslt",
                Bop::Sle => "bvsle",
            };
            if is_cmp(op) {
                format!("(ite ({} {} {}) #b1 #b0)", o, x, y)
            } else {
                format!("({} {} {})", o, x, y)
            }
        }
    };
    let name = format!("e{}", e.0);
    out.push_str(&format!("(define-fun {} () (_ BitVec {}) {})\n", name, w, body));
    names.insert(e, name.clone());
    name
}
