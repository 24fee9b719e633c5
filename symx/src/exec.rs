//! Symbolic execution of LLVM IR: forks on every feasible outcome of a symbolic decision.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u32, u128),
    S(Ex),
    Agg(Rc<Vec<V>>),
}

fn mk(e: Ex) -> V {
    match node(e) {
        (Node::Const(c), w) => V::C(w, c),
        _ => V::S(e),
    }
}
impl V {
    fn ex(&self) -> Ex {
        match self {
            V::C(w, c) => cst(*w, *c),
            V::S(e) => *e,
            V::Agg(_) => panic!("aggregate used as a scalar"),
        }
    }
    fn w(&self) -> u32 {
        match self {
            V::C(w, _) => *w,
            V::S(e) => width(*e),
            V::Agg(_) => panic!("width of an aggregate"),
        }
    }
    fn agg(&self) -> &Rc<Vec<V>> {
        match self {
            V::Agg(v) => v,
            _ => panic!("scalar used as an aggregate"),
        }
    }
}
fn c(w: u32, v: u128) -> V {
    V::C(w, v & mask(w))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum B {
    C(u8),
    S(Ex),
    U,
}

#[derive(Clone)]
struct Obj {
    base: u64,
    bytes: Vec<B>,
    heap: bool,
    ro: bool,
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    block: u32,
    prev: u32,
    ip: usize,
    regs: Vec<V>,
    allocas: Vec<u64>,
    ret_dst: Option<u32>,
    ret_block: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    /// call stacks of the coroutines that are not running
    parked: Vec<Vec<Rc<Frame>>>,
    cur: usize,
    /// a panic ends its coroutine and the main one goes on
    panics_end: bool,
    mem: BTreeMap<u64, Rc<Obj>>,
    next_heap: u64,
    next_stack: u64,
    pc: Rc<Vec<Ex>>,
    known: Rc<HashMap<Ex, u128>>,
    model: Rc<HashMap<u32, u8>>,
    nsym: u32,
    log: Vec<V>,
    marks: Rc<Vec<String>>,
    chain: u32,
    steps: u64,
    depth: u32,
}

pub enum End {
    Done,
    Infeasible,
    Violation { kind: String, msg: String, at: String },
    Error(String),
}

enum Stop {
    End(End),
    Fork(Vec<State>),
}
type Res<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> Res<T> {
    Err(Stop::End(End::Error(s.into())))
}

pub struct Opts {
    pub max_paths: u64,
    pub max_steps: u64,
    pub max_total_steps: u64,
    pub max_time: f64,
    pub max_viol: usize,
    pub after_viol: f64,
    pub max_chain: u32,
    pub params: Vec<u64>,
    pub samples: usize,
    pub seed: u64,
}

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub at: String,
    pub bytes: Vec<u8>,
    pub trace: Vec<String>,
}

pub struct Sample {
    pub bytes: Vec<u8>,
    pub log: Vec<u64>,
    pub marks: Vec<String>,
}

pub struct Exec {
    pub m: Module,
    pub s: Solver,
    pub o: Opts,
    globals: BTreeMap<u64, Rc<Obj>>,
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub samples: Vec<Sample>,
    pub funcs: BTreeSet<String>,
    pub dbg_seen: HashSet<u32>,
    pub checks: u64,
    pub check_names: BTreeMap<String, u64>,
    pub checks_trivial: u64,
    pub uninit_loads: u64,
    pub max_sym: u32,
    pub depth_max: u32,
    suspected: bool,
    guesses: u32,
    gave_up: usize,
}

/// branches of one path after which an endless loop is suspected
const PROBE: u32 = 512;

fn is_panic(name: &str) -> bool {
    (name.contains("4core9panicking") || name.contains("3std9panicking") || name.contains("rust_begin_unwind") || name.contains("4core6option13unwrap_failed") || name.contains("4core6option13expect_failed") || name.contains("4core6result13unwrap_failed")) && !name.contains("panic_count") && !name.contains("9panicking9panicking")
}

impl Exec {
    pub fn new(m: Module, s: Solver, o: Opts) -> Self {
        let mut globals = BTreeMap::new();
        for g in &m.globals {
            if g.defined {
                globals.insert(g.addr, Rc::new(Obj { base: g.addr, bytes: g.init.iter().map(|b| B::C(*b)).collect(), heap: false, ro: g.constant }));
            } else {
                // external globals (environ and the like) read as zero
                globals.insert(g.addr, Rc::new(Obj { base: g.addr, bytes: vec![B::C(0); g.size.max(8) as usize], heap: false, ro: false }));
            }
        }
        Exec {
            m,
            s,
            o,
            globals,
            paths: 0,
            infeasible: 0,
            forks: 0,
            steps: 0,
            covers: BTreeMap::new(),
            violations: vec![],
            errors: vec![],
            samples: vec![],
            funcs: BTreeSet::new(),
            dbg_seen: HashSet::new(),
            checks: 0,
            check_names: BTreeMap::new(),
            checks_trivial: 0,
            uninit_loads: 0,
            max_sym: 0,
            depth_max: 0, suspected: false, guesses: 0, gave_up: 0,
        }
    }

    pub fn run(&mut self, entry: &str) {
        let f = match self.m.func(entry) {
            Ok(Some(f)) => f,
            Ok(None) => {
                self.errors.push(format!("no function {}", entry));
                return;
            }
            Err(e) => {
                self.errors.push(e);
                return;
            }
        };
        let fr = Frame { regs: vec![V::C(1, 0); f.nregs], f, block: 0, prev: 0, ip: 0, allocas: vec![], ret_dst: None, ret_block: None };
        let st = State {
            frames: vec![Rc::new(fr)],
            parked: vec![vec![]],
            cur: 0,
            panics_end: false,
            mem: BTreeMap::new(),
            next_heap: 0x1_0000_0000,
            next_stack: 0x7000_0000_0000,
            pc: Rc::new(vec![]),
            known: Rc::new(HashMap::new()),
            model: Rc::new(HashMap::new()),
            nsym: 0,
            log: vec![],
            marks: Rc::new(vec![]),
            chain: 0,
            steps: 0,
            depth: 0,
        };
        let t0 = Instant::now();
        let mut stack = vec![st];
        let mut stride = 1u64;
        let mut found: Option<f64> = None;
        while let Some(mut st) = stack.pop() {
            if self.paths >= self.o.max_paths {
                self.errors.push(format!("path limit {} reached", self.o.max_paths));
                return;
            }
            if t0.elapsed().as_secs_f64() > self.o.max_time {
                self.errors.push(format!("time limit {} s reached with {} open states", self.o.max_time, stack.len() + 1));
                return;
            }
            if let Some(t) = found {
                if t0.elapsed().as_secs_f64() > t + self.o.after_viol {
                    self.errors.push(format!("stopped {} s after the first violation", self.o.after_viol));
                    return;
                }
            }
            if self.steps > self.o.max_total_steps {
                self.errors.push("instruction limit reached".into());
                return;
            }
            let stop = self.run_state(&mut st);
            if found.is_none() && self.violations.iter().any(|v| v.kind != "suspect") {
                found = Some(t0.elapsed().as_secs_f64());
            }
            match stop {
                Stop::Fork(v) => {
                    self.forks += 1;
                    stack.extend(v);
                }
                Stop::End(e) => {
                    match e {
                        End::Done => {
                            self.paths += 1;
                            self.max_sym = self.max_sym.max(st.nsym);
                            self.depth_max = self.depth_max.max(st.depth);
                            if self.samples.len() < self.o.samples || self.paths % stride == 0 {
                                self.take_sample(&st);
                                if self.samples.len() > 2 * self.o.samples {
                                    // thin out
                                    let mut k = 0;
                                    self.samples.retain(|_| {
                                        k += 1;
                                        k % 2 == 1
                                    });
                                    stride *= 2;
                                }
                            }
                        }
                        End::Infeasible => self.infeasible += 1,
                        End::Violation { kind, msg, at } => {
                            self.paths += 1;
                            let hang = kind == "hang";
                            self.violation(&st, kind, msg, at, None);
                            if hang {
                                return;
                            }
                        }
                        End::Error(x) => {
                            let at = self.where_is(&st);
                            self.errors.push(format!("{} at {}", x, at));
                            if self.gave_up > 0 && !stack.is_empty() {
                                // elsewhere next: with the oldest open state, or one in the middle
                                let k = if self.gave_up % 2 == 1 { 0 } else { stack.len() / 2 };
                                let o = stack.remove(k);
                                stack.push(o);
                            }
                            if self.gave_up >= 64 || self.errors.len() > 5 + self.gave_up {
                                return;
                            }
                        }
                    }
                    if self.violations.iter().filter(|v| v.kind != "suspect").count() >= self.o.max_viol {
                        return;
                    }
                }
            }
        }
    }

    fn take_sample(&mut self, st: &State) {
        let m = st.model.clone();
        let bytes: Vec<u8> = (0..st.nsym).map(|i| m.get(&i).cloned().unwrap_or(0)).collect();
        let mut memo = HashMap::new();
        let log = st.log.iter().map(|v| eval(v.ex(), &|i| m.get(&i).cloned().unwrap_or(0), &mut memo) as u64).collect();
        self.samples.push(Sample { bytes, log, marks: (*st.marks).clone() });
    }

    fn violation(&mut self, st: &State, kind: String, msg: String, at: String, model: Option<&HashMap<u32, u8>>) {
        if self.violations.iter().any(|v| v.kind == kind && v.msg == msg && v.at == at) {
            return;
        }
        let mut m = (*st.model).clone();
        if let Some(x) = model {
            m.extend(x.iter().map(|(a, b)| (*a, *b)));
        }
        let bytes = (0..st.nsym).map(|i| m.get(&i).cloned().unwrap_or(0)).collect();
        let trace = st.frames.iter().rev().map(|f| format!("{} {}", f.f.name, self.loc_of(f))).collect();
        self.violations.push(Violation { kind, msg, at, bytes, trace });
    }

    fn loc_of(&self, f: &Frame) -> String {
        let b = &f.f.blocks[f.block as usize];
        let i = f.ip.min(b.len() - 1);
        self.m.loc(b[i].dbg)
    }
    fn where_is(&self, st: &State) -> String {
        match st.frames.last() {
            Some(f) => format!("{} [{}] block {} ip {}", f.f.name, self.loc_of(f), f.block, f.ip),
            None => "?".into(),
        }
    }

    fn run_state(&mut self, st: &mut State) -> Stop {
        loop {
            st.steps += 1;
            self.steps += 1;
            if st.steps > self.o.max_steps {
                let at = st.frames.last().map(|f| self.loc_of(f)).unwrap_or_default();
                return Stop::End(End::Violation { kind: "hang".into(), msg: "no end within the instruction limit of a path".into(), at });
            }
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    // ---- values -------------------------------------------------------------------------
    fn opv(&self, fr: &Frame, o: &Op) -> V {
        match o {
            Op::Reg(r) => fr.regs[*r as usize].clone(),
            Op::Int(w, v) => V::C(*w, *v),
            Op::Undef(t) => Self::zero_ty(t),
            Op::Agg(v) => V::Agg(Rc::new(v.iter().map(|x| self.opv(fr, x)).collect())),
        }
    }
    fn zero_ty(t: &Ty) -> V {
        if t.is_scalar() {
            V::C(t.bits(), 0)
        } else {
            V::Agg(Rc::new((0..t.nfields()).map(|i| Self::zero_ty(&t.elem(i))).collect()))
        }
    }
    fn val(&self, st: &State, o: &Op) -> V {
        let fr = st.frames.last().unwrap();
        self.opv(fr, o)
    }
    fn model_eval(&self, st: &State, e: Ex) -> u128 {
        let m = &st.model;
        let mut memo = HashMap::new();
        eval(e, &|i| m.get(&i).cloned().unwrap_or(0), &mut memo)
    }
    fn add_pc(st: &mut State, e: Ex) {
        if as_const(e) == Some(1) {
            return;
        }
        let pc = Rc::make_mut(&mut st.pc);
        // conjunctions are split so that slices stay small
        let mut todo = vec![e];
        while let Some(x) = todo.pop() {
            match node(x) {
                (Node::Const(1), 1) => {}
                (Node::Bin(Bop::And, a, b), 1) => {
                    todo.push(a);
                    todo.push(b);
                }
                (n, _) => {
                    if !pc.contains(&x) {
                        pc.push(x);
                    }
                    let k = Rc::make_mut(&mut st.known);
                    k.insert(x, 1);
                    k.insert(not(x), 0);
                    if let Node::Bin(Bop::Eq, a, b) = n {
                        if let Some(v) = as_const(b) {
                            k.insert(a, v);
                        }
                    }
                }
            }
        }
    }
    fn merge_model(st: &mut State, m: HashMap<u32, u8>) {
        let mm = Rc::make_mut(&mut st.model);
        mm.extend(m);
    }
    fn lookup(&self, st: &State, e: Ex) -> Ex {
        if let Some(v) = st.known.get(&e) {
            return cst(width(e), *v);
        }
        e
    }
    /// a concrete value for `v`, forking the state when several are feasible
    fn conc(&mut self, st: &mut State, v: &V) -> Res<u128> {
        let e = match v {
            V::C(_, x) => return Ok(*x),
            V::S(e) => *e,
            V::Agg(_) => return err("concretising an aggregate"),
        };
        if let Some(x) = st.known.get(&e) {
            return Ok(*x);
        }
        let x = self.model_eval(st, e);
        let eq = bin(Bop::Eq, e, cst(width(e), x));
        let ne = not(eq);
        match self.s.check(&st.pc, ne) {
            Sat::Unsat => {
                Rc::make_mut(&mut st.known).insert(e, x);
                st.chain = 0;
                Ok(x)
            }
            Sat::Unknown(r) => err(format!("solver: {}", r)),
            Sat::Sat(m) => {
                let mut a = st.clone();
                Self::add_pc(&mut a, eq);
                a.chain = 0;
                a.depth += 1;
                Rc::make_mut(&mut a.known).insert(e, x);
                let mut b = st.clone();
                Self::add_pc(&mut b, ne);
                Self::merge_model(&mut b, m);
                b.chain += 1;
                b.depth += 1;
                if b.chain > self.o.max_chain {
                    return err(format!("more than {} values for one symbolic address, size or count", self.o.max_chain));
                }
                Err(Stop::Fork(vec![b, a]))
            }
        }
    }
    /// decide a 1-bit condition; forks (re-executing the instruction) when both are feasible
    fn decide(&mut self, st: &mut State, v: &V) -> Res<bool> {
        let e = match v {
            V::C(_, x) => return Ok(*x & 1 == 1),
            V::S(e) => *e,
            _ => return err("condition is an aggregate"),
        };
        let e = self.lookup(st, e);
        if let Some(x) = as_const(e) {
            return Ok(x == 1);
        }
        let x = self.model_eval(st, e) == 1;
        let (this, other) = if x { (e, not(e)) } else { (not(e), e) };
        match self.s.check(&st.pc, other) {
            Sat::Unsat => {
                let k = Rc::make_mut(&mut st.known);
                k.insert(e, x as u128);
                Ok(x)
            }
            Sat::Unknown(r) => err(format!("solver: {}", r)),
            Sat::Sat(m) => {
                if st.depth > 0 && st.depth % PROBE == 0 {
                    self.probe(st, e)?;
                }
                let mut a = st.clone();
                Self::add_pc(&mut a, this);
                Rc::make_mut(&mut a.known).insert(e, x as u128);
                a.depth += 1;
                let mut b = st.clone();
                Self::add_pc(&mut b, other);
                Rc::make_mut(&mut b.known).insert(e, (!x) as u128);
                Self::merge_model(&mut b, m);
                b.depth += 1;
                Err(Stop::Fork(vec![b, a]))
            }
        }
    }

    /// A path with very many branches may be a loop that asks an unbounded input for its count.
    /// Ask the solver for an input on this path where the compared value is astronomically large
    /// and record it as a suspect: it counts only if the native run does not end on it.
    fn probe(&mut self, st: &mut State, e: Ex) -> Res<()> {
        if st.depth >= 2 * PROBE {
            self.gave_up += if self.suspected { 1000 } else { 1 };
            return err(format!("a path with more than {} branches", st.depth));
        }
        if self.suspected {
            return Ok(());
        }
        // the values compared in the condition, then the values the active calls work with
        let mut cand = vec![];
        let mut todo = vec![e];
        while let Some(x) = todo.pop() {
            if cand.len() >= 8 {
                break;
            }
            match node(x) {
                (_, w) if w >= 48 => cand.push(x),
                (Node::Bin(_, a, b), _) => todo.extend([a, b]),
                (Node::Extract(a, _), _) => todo.push(a),
                _ => {}
            }
        }
        let compared = cand.len();
        for f in st.frames.iter().rev() {
            for r in &f.regs {
                if let V::S(x) = r {
                    if width(*x) == 64 && cand.len() < 40 {
                        cand.push(*x);
                    }
                }
            }
        }
        let mut seen = HashSet::new();
        let mut n = 0u32;
        for (k, y) in cand.into_iter().enumerate() {
            let w = width(y);
            if as_const(y).is_some() || w > 64 || !seen.insert(y) || k >= compared && (n > 0 || self.guesses >= 6) {
                continue;
            }
            let big = bin(Bop::And, bin(Bop::Ult, cst(w, 1 << 40), y), bin(Bop::Ult, y, cst(w, 1 << 62)));
            if let Sat::Sat(m) = self.s.check(&st.pc, big) {
                if k < compared {
                    n += 1;
                } else {
                    self.guesses += 1;
                }
                let at = self.where_is(st);
                self.violation(st, "suspect".into(), format!("a loop repeated as often as an unbounded input says ({})", n + self.guesses), at, Some(&m));
            }
        }
        self.suspected = n > 0;
        Ok(())
    }

    // ---- memory -------------------------------------------------------------------------
    fn find(&self, st: &State, addr: u64, len: u64) -> Option<Rc<Obj>> {
        for m in [&st.mem, &self.globals] {
            if let Some((b, o)) = m.range(..=addr).next_back() {
                if addr - b + len <= o.bytes.len() as u64 {
                    return Some(o.clone());
                }
            }
        }
        None
    }
    fn memviol<T>(&self, st: &State, what: &str, addr: u64, len: u64) -> Res<T> {
        let at = self.where_is(st);
        Err(Stop::End(End::Violation { kind: "memory".into(), msg: format!("{} of {} bytes outside any live object", what, len), at: format!("{} addr {:#x}", at, addr) }))
    }
    fn read(&mut self, st: &State, addr: u64, len: u64) -> Res<Vec<B>> {
        if len == 0 {
            return Ok(vec![]);
        }
        match self.find(st, addr, len) {
            Some(o) => {
                let s = (addr - o.base) as usize;
                Ok(o.bytes[s..s + len as usize].to_vec())
            }
            None => self.memviol(st, "read", addr, len),
        }
    }
    fn write(&mut self, st: &mut State, addr: u64, data: &[B]) -> Res<()> {
        if data.is_empty() {
            return Ok(());
        }
        let len = data.len() as u64;
        let mut key = None;
        if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            if addr - b + len <= o.bytes.len() as u64 {
                key = Some(*b);
            }
        }
        if key.is_none() {
            if let Some((b, o)) = self.globals.range(..=addr).next_back() {
                if addr - b + len <= o.bytes.len() as u64 {
                    if o.ro {
                        return self.memviol(st, "write to constant memory", addr, len);
                    }
                    st.mem.insert(*b, o.clone());
                    key = Some(*b);
                }
            }
        }
        match key {
            Some(k) => {
                let o = Rc::make_mut(st.mem.get_mut(&k).unwrap());
                let s = (addr - k) as usize;
                o.bytes[s..s + data.len()].copy_from_slice(data);
                Ok(())
            }
            None => self.memviol(st, "write", addr, len),
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> u64 {
        let a = align.max(16);
        st.next_heap = (st.next_heap + a - 1) / a * a;
        let p = st.next_heap;
        st.next_heap += size + 32;
        st.mem.insert(p, Rc::new(Obj { base: p, bytes: vec![if zero { B::C(0) } else { B::U }; size as usize], heap: true, ro: false }));
        p
    }
    fn load(&mut self, st: &mut State, t: &Ty, addr: u64) -> Res<V> {
        if t.is_scalar() {
            let n = t.store_size();
            let b = self.read(st, addr, n)?;
            let w = t.bits();
            if b.iter().all(|x| matches!(x, B::C(_))) {
                let mut v = 0u128;
                for (i, x) in b.iter().enumerate() {
                    if let B::C(x) = x {
                        if i < 16 {
                            v |= (*x as u128) << (8 * i);
                        }
                    }
                }
                return Ok(c(w, v));
            }
            if b.iter().any(|x| *x == B::U) {
                self.uninit_loads += 1;
            }
            let bex = |x: &B| match x {
                B::C(v) => cst(8, *v as u128),
                B::S(e) => *e,
                B::U => cst(8, 0),
            };
            let mut e = bex(&b[b.len() - 1]);
            for x in b[..b.len() - 1].iter().rev() {
                e = bin(Bop::Concat, e, bex(x));
            }
            if width(e) > w {
                e = extract(e, 0, w);
            }
            Ok(mk(e))
        } else {
            if let Ty::Vector(n, et) = t {
                if et.bits() % 8 != 0 {
                    let it = Ty::Int(*n as u32 * et.bits());
                    let x = self.load(st, &it, addr)?;
                    return Ok(self.cast(CastK::Bitcast, &it, &x, t));
                }
            }
            let mut v = vec![];
            for i in 0..t.nfields() {
                let (o, ft) = t.field(i);
                v.push(self.load(st, &ft, addr + o)?);
            }
            Ok(V::Agg(Rc::new(v)))
        }
    }
    fn to_bytes(t: &Ty, v: &V) -> Vec<B> {
        let n = t.store_size() as usize;
        match v {
            V::C(_, x) => (0..n).map(|i| B::C(if i < 16 { (x >> (8 * i)) as u8 } else { 0 })).collect(),
            V::S(e) => {
                let w = width(*e);
                let full = if w as usize == n * 8 { *e } else { zext(*e, n as u32 * 8) };
                (0..n)
                    .map(|i| {
                        let x = extract(full, 8 * i as u32, 8);
                        match as_const(x) {
                            Some(v) => B::C(v as u8),
                            None => B::S(x),
                        }
                    })
                    .collect()
            }
            V::Agg(_) => panic!("to_bytes"),
        }
    }
    fn store(&mut self, st: &mut State, t: &Ty, v: &V, addr: u64) -> Res<()> {
        if t.is_scalar() {
            let b = Self::to_bytes(t, v);
            self.write(st, addr, &b)
        } else {
            if let Ty::Vector(n, et) = t {
                if et.bits() % 8 != 0 {
                    // packed, as the integer of the same width
                    let it = Ty::Int(*n as u32 * et.bits());
                    let x = self.cast(CastK::Bitcast, t, v, &it);
                    return self.store(st, &it, &x, addr);
                }
            }
            let a = v.agg().clone();
            for i in 0..t.nfields() {
                let (o, ft) = t.field(i);
                self.store(st, &ft, &a[i], addr + o)?;
            }
            Ok(())
        }
    }
    fn cstring(&mut self, st: &State, p: u64, n: u64) -> String {
        match self.read(st, p, n) {
            Ok(b) => b
                .iter()
                .map(|x| match x {
                    B::C(v) => *v as char,
                    _ => '?',
                })
                .collect(),
            Err(_) => "?".into(),
        }
    }

    // ---- operators ----------------------------------------------------------------------
    fn binop(&self, k: BinK, a: &V, b: &V) -> V {
        if let (V::Agg(x), V::Agg(y)) = (a, b) {
            return V::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.binop(k, p, q)).collect()));
        }
        let op = match k {
            BinK::Add => Bop::Add,
            BinK::Sub => Bop::Sub,
            BinK::Mul => Bop::Mul,
            BinK::UDiv => Bop::UDiv,
            BinK::SDiv => Bop::SDiv,
            BinK::URem => Bop::URem,
            BinK::SRem => Bop::SRem,
            BinK::Shl => Bop::Shl,
            BinK::LShr => Bop::LShr,
            BinK::AShr => Bop::AShr,
            BinK::And => Bop::And,
            BinK::Or => Bop::Or,
            BinK::Xor => Bop::Xor,
        };
        if let (V::C(w, x), V::C(_, y)) = (a, b) {
            return c(*w, fold(op, *w, *x, *y, *w));
        }
        mk(bin(op, a.ex(), b.ex()))
    }
    fn icmp(&self, p: Pred, a: &V, b: &V) -> V {
        if let (V::Agg(x), V::Agg(y)) = (a, b) {
            return V::Agg(Rc::new(x.iter().zip(y.iter()).map(|(m, n)| self.icmp(p, m, n)).collect()));
        }
        let (op, sw, neg) = match p {
            Pred::Eq => (Bop::Eq, false, false),
            Pred::Ne => (Bop::Eq, false, true),
            Pred::Ult => (Bop::Ult, false, false),
            Pred::Ule => (Bop::Ule, false, false),
            Pred::Ugt => (Bop::Ult, true, false),
            Pred::Uge => (Bop::Ule, true, false),
            Pred::Slt => (Bop::Slt, false, false),
            Pred::Sle => (Bop::Sle, false, false),
            Pred::Sgt => (Bop::Slt, true, false),
            Pred::Sge => (Bop::Sle, true, false),
        };
        let (x, y) = if sw { (b, a) } else { (a, b) };
        if let (V::C(w, m), V::C(_, n)) = (x, y) {
            let r = fold(op, *w, *m, *n, *w) == 1;
            return c(1, (r ^ neg) as u128);
        }
        let e = bin(op, x.ex(), y.ex());
        mk(if neg { not(e) } else { e })
    }
    fn select(&self, k: &V, a: &V, b: &V) -> V {
        match k {
            V::C(_, x) => {
                if *x & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            V::S(e) => match (a, b) {
                (V::Agg(x), V::Agg(y)) => V::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.select(k, p, q)).collect())),
                _ => mk(ite(*e, a.ex(), b.ex())),
            },
            V::Agg(ks) => {
                let (x, y) = (a.agg(), b.agg());
                V::Agg(Rc::new((0..ks.len()).map(|i| self.select(&ks[i], &x[i], &y[i])).collect()))
            }
        }
    }
    fn cast(&self, k: CastK, ft: &Ty, v: &V, tt: &Ty) -> V {
        if k == CastK::Bitcast {
            // flatten to bits, rebuild
            if ft.is_scalar() && tt.is_scalar() {
                return v.clone();
            }
            let flat = |t: &Ty, v: &V| -> Ex {
                if t.is_scalar() {
                    v.ex()
                } else {
                    let a = v.agg();
                    let mut e = a[a.len() - 1].ex();
                    for x in a[..a.len() - 1].iter().rev() {
                        e = bin(Bop::Concat, e, x.ex());
                    }
                    e
                }
            };
            let e = flat(ft, v);
            return if tt.is_scalar() {
                mk(e)
            } else {
                let w = tt.elem(0).bits();
                V::Agg(Rc::new((0..tt.nfields()).map(|i| mk(extract(e, i as u32 * w, w))).collect()))
            };
        }
        if let V::Agg(a) = v {
            return V::Agg(Rc::new(a.iter().enumerate().map(|(i, x)| self.cast(k, &ft.elem(i), x, &tt.elem(i))).collect()));
        }
        let w = tt.bits();
        match (k, v) {
            (CastK::SExt, V::C(fw, x)) => c(w, sext(*x, *fw) as u128),
            (_, V::C(_, x)) => c(w, *x),
            (_, V::S(e)) => {
                let fw = width(*e);
                if w == fw {
                    v.clone()
                } else if w < fw {
                    mk(extract(*e, 0, w))
                } else if k == CastK::SExt {
                    mk(sext_e(*e, w))
                } else {
                    mk(zext(*e, w))
                }
            }
            _ => unreachable!(),
        }
    }

    // ---- control ------------------------------------------------------------------------
    fn jump(&mut self, st: &mut State, b: u32) -> Res<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.prev = fr.block;
        fr.block = b;
        fr.ip = 0;
        // phis read their inputs simultaneously
        let f = fr.f.clone();
        let blk = &f.blocks[b as usize];
        let mut vals = vec![];
        let mut n = 0;
        for ins in blk {
            if let Ins::Phi(v) = &ins.ins {
                let o = match v.iter().find(|(_, p)| *p == fr.prev) {
                    Some((o, _)) => o,
                    None => return err("phi without an incoming value"),
                };
                let x = match o {
                    Op::Reg(r) => fr.regs[*r as usize].clone(),
                    o => self.opv(fr, o),
                };
                vals.push((ins.dst.unwrap(), x));
                n += 1;
            } else {
                break;
            }
        }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        for (d, x) in vals {
            fr.regs[d as usize] = x;
        }
        fr.ip = n;
        Ok(())
    }
    fn set(&self, st: &mut State, dst: Option<u32>, v: V) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if let Some(d) = dst {
            fr.regs[d as usize] = v;
        }
        fr.ip += 1;
    }

    fn step(&mut self, st: &mut State) -> Res<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.block as usize][fr.ip];
        if ins.dbg != 0 {
            self.dbg_seen.insert(ins.dbg);
        }
        let dst = ins.dst;
        match &ins.ins {
            Ins::Bin(k, a, b) => {
                let r = self.binop(*k, &self.val(st, a), &self.val(st, b));
                self.set(st, dst, r);
            }
            Ins::ICmp(p, a, b) => {
                let r = self.icmp(*p, &self.val(st, a), &self.val(st, b));
                self.set(st, dst, r);
            }
            Ins::Select(k, a, b) => {
                let kv = self.val(st, k);
                let kv = match kv {
                    V::S(e) => mk(self.lookup(st, e)),
                    x => x,
                };
                let (x, y) = (self.val(st, a), self.val(st, b));
                // indices, sizes and pointers are followed case by case, which keeps later
                // addresses concrete; narrower data stays symbolic
                if let (V::S(_), false) = (&kv, matches!(x, V::Agg(_))) {
                    if x.w() == 64 {
                        let k = self.decide(st, &kv)?;
                        self.set(st, dst, if k { x } else { y });
                        return Ok(());
                    }
                }
                let r = self.select(&kv, &x, &y);
                self.set(st, dst, r);
            }
            Ins::Cast(k, ft, a, tt) => {
                if let (CastK::ZExt, Ty::Int(1), Ty::Int(64)) = (k, ft, tt) {
                    let v = self.val(st, a);
                    if let V::S(_) = v {
                        let k = self.decide(st, &v)?;
                        self.set(st, dst, c(64, k as u128));
                        return Ok(());
                    }
                }
                let r = self.cast(*k, ft, &self.val(st, a), tt);
                self.set(st, dst, r);
            }
            Ins::Freeze(a) => {
                let r = self.val(st, a);
                self.set(st, dst, r);
            }
            Ins::Load(t, p) => {
                let pv = self.val(st, p);
                if let V::S(e) = &pv {
                    if t.is_scalar() && !st.known.contains_key(e) {
                        if let Some(v) = self.table_load(st, t, *e)? {
                            self.set(st, dst, v);
                            return Ok(());
                        }
                    }
                }
                let a = self.conc(st, &pv)? as u64;
                let v = self.load(st, t, a)?;
                self.set(st, dst, v);
            }
            Ins::Store(t, v, p) => {
                let pv = self.val(st, p);
                let a = self.conc(st, &pv)? as u64;
                let vv = self.val(st, v);
                self.store(st, t, &vv, a)?;
                self.set(st, None, c(1, 0));
            }
            Ins::Gep(b, off, dynv) => {
                let mut r = self.val(st, b);
                if let V::Agg(_) = r {
                    return err("vector getelementptr");
                }
                if *off != 0 {
                    r = self.binop(BinK::Add, &r, &c(64, *off as i128 as u128));
                }
                for (o, s) in dynv {
                    let iv = self.val(st, o);
                    let iv = if iv.w() < 64 { self.cast(CastK::SExt, &Ty::Int(iv.w()), &iv, &Ty::Int(64)) } else { iv };
                    let m = self.binop(BinK::Mul, &iv, &c(64, *s as i128 as u128));
                    r = self.binop(BinK::Add, &r, &m);
                }
                self.set(st, dst, r);
            }
            Ins::Alloca(size, align) => {
                let a = (*align).max(16);
                st.next_stack = (st.next_stack + a - 1) / a * a;
                let p = st.next_stack;
                st.next_stack += size + 32;
                st.mem.insert(p, Rc::new(Obj { base: p, bytes: vec![B::U; *size as usize], heap: false, ro: false }));
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push(p);
                self.set(st, dst, c(64, p as u128));
            }
            Ins::Phi(_) => return err("phi reached directly"),
            Ins::ExtractValue(a, ix) => {
                let mut v = self.val(st, a);
                for i in ix {
                    let x = v.agg()[*i as usize].clone();
                    v = x;
                }
                self.set(st, dst, v);
            }
            Ins::InsertValue(a, b, ix, _) => {
                let v = self.val(st, a);
                let x = self.val(st, b);
                fn ins(v: &V, x: V, ix: &[u32]) -> V {
                    if ix.is_empty() {
                        return x;
                    }
                    let mut a = (**v.agg()).clone();
                    a[ix[0] as usize] = ins(&a[ix[0] as usize].clone(), x, &ix[1..]);
                    V::Agg(Rc::new(a))
                }
                let r = ins(&v, x, ix);
                self.set(st, dst, r);
            }
            Ins::ExtractElement(a, i) => {
                let iv = self.val(st, i);
                let k = self.conc(st, &iv)? as usize;
                let v = self.val(st, a).agg()[k].clone();
                self.set(st, dst, v);
            }
            Ins::InsertElement(a, x, i) => {
                let iv = self.val(st, i);
                let k = self.conc(st, &iv)? as usize;
                let mut v = (**self.val(st, a).agg()).clone();
                v[k] = self.val(st, x);
                self.set(st, dst, V::Agg(Rc::new(v)));
            }
            Ins::Shuffle(a, b, m) => {
                let x = self.val(st, a);
                let y = self.val(st, b);
                let n = x.agg().len();
                let w = x.agg()[0].w();
                let v = m
                    .iter()
                    .map(|k| match k {
                        None => c(w, 0),
                        Some(k) if (*k as usize) < n => x.agg()[*k as usize].clone(),
                        Some(k) => y.agg()[*k as usize - n].clone(),
                    })
                    .collect();
                self.set(st, dst, V::Agg(Rc::new(v)));
            }
            Ins::AtomicRmw(k, p, v, t) => {
                let pv = self.val(st, p);
                let a = self.conc(st, &pv)? as u64;
                let old = self.load(st, t, a)?;
                let x = self.val(st, v);
                let new = match k.as_str() {
                    "xchg" => x,
                    "add" => self.binop(BinK::Add, &old, &x),
                    "sub" => self.binop(BinK::Sub, &old, &x),
                    "and" => self.binop(BinK::And, &old, &x),
                    "or" => self.binop(BinK::Or, &old, &x),
                    "xor" => self.binop(BinK::Xor, &old, &x),
                    "umax" => self.select(&self.icmp(Pred::Ugt, &old, &x), &old, &x),
                    "umin" => self.select(&self.icmp(Pred::Ult, &old, &x), &old, &x),
                    _ => return err(format!("atomicrmw {}", k)),
                };
                self.store(st, t, &new, a)?;
                self.set(st, dst, old);
            }
            Ins::CmpXchg(p, e, n, t) => {
                let pv = self.val(st, p);
                let a = self.conc(st, &pv)? as u64;
                let old = self.load(st, t, a)?;
                let eq = self.icmp(Pred::Eq, &old, &self.val(st, e));
                let ok = self.decide(st, &eq)?;
                if ok {
                    let nv = self.val(st, n);
                    self.store(st, t, &nv, a)?;
                }
                self.set(st, dst, V::Agg(Rc::new(vec![old, c(1, ok as u128)])));
            }
            Ins::Fence => self.set(st, None, c(1, 0)),
            Ins::Br(b) => self.jump(st, *b)?,
            Ins::CondBr(k, a, b) => {
                let kv = self.val(st, k);
                let x = self.decide(st, &kv)?;
                self.jump(st, if x { *a } else { *b })?;
            }
            Ins::Switch(v, d, cases) => {
                let vv = self.val(st, v);
                let t = self.switch(st, &vv, *d, cases)?;
                self.jump(st, t)?;
            }
            Ins::Ret(v) => {
                let rv = v.as_ref().map(|o| self.val(st, o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.remove(a);
                }
                if st.frames.is_empty() {
                    if st.cur != 0 {
                        return err("a coroutine returned");
                    }
                    return Err(Stop::End(End::Done));
                }
                let (rd, rb) = (fr.ret_dst, fr.ret_block);
                let up = Rc::make_mut(st.frames.last_mut().unwrap());
                if let (Some(d), Some(x)) = (rd, rv) {
                    up.regs[d as usize] = x;
                }
                match rb {
                    Some(b) => self.jump(st, b)?,
                    None => up.ip += 1,
                }
            }
            Ins::Unreachable => {
                let at = self.where_is(st);
                return Err(Stop::End(End::Violation { kind: "unreachable".into(), msg: "undefined behaviour: unreachable code reached".into(), at }));
            }
            Ins::Call { callee, args, ret, normal } => {
                let av: Vec<V> = args.iter().map(|a| self.val(st, a)).collect();
                let name = match callee {
                    Callee::Func(n) => n.clone(),
                    Callee::Indirect(o) => {
                        let pv = self.val(st, o);
                        let a = self.conc(st, &pv)? as u64;
                        match self.m.addrf.get(&a) {
                            Some(n) => n.clone(),
                            None => {
                                let at = self.where_is(st);
                                return Err(Stop::End(End::Violation { kind: "memory".into(), msg: format!("call through invalid pointer {:#x}", a), at }));
                            }
                        }
                    }
                    Callee::Asm(s) => {
                        // empty assembly is an optimisation barrier
                        if s.starts_with('|') || s.starts_with("pause") {
                            let r = av.get(0).cloned().unwrap_or(c(1, 0));
                            self.set(st, dst, r);
                            return Ok(());
                        }
                        return err(format!("inline assembly {:?}", s));
                    }
                };
                return self.call(st, &name, av, ret, dst, *normal);
            }
            Ins::LandingPad | Ins::Resume => return err("unwinding is not modelled"),
            Ins::Unsupported(s) => return err(format!("unsupported instruction: {}", s)),
        }
        Ok(())
    }

    /// load through a symbolic pointer into a small constant table: an if-then-else over its entries
    fn table_load(&mut self, st: &mut State, t: &Ty, e: Ex) -> Res<Option<V>> {
        let a = self.model_eval(st, e) as u64;
        let n = t.store_size();
        let o = match self.find(st, a, n) {
            Some(o) => o,
            None => return Ok(None),
        };
        let len = o.bytes.len() as u64;
        if len > 1024 || len < n {
            return Ok(None);
        }
        // is the pointer always inside this object?
        let lo = bin(Bop::Ult, e, cst(64, o.base as u128));
        let hi = bin(Bop::Ult, cst(64, (o.base + len - n) as u128), e);
        let out = bin(Bop::Or, lo, hi);
        match self.s.check(&st.pc, out) {
            Sat::Unsat => {}
            _ => return Ok(None),
        }
        let w = t.bits();
        let mut r: Option<Ex> = None;
        let step = if o.base % n == 0 && self.aligned(st, e, n) { n } else { 1 };
        let mut p = 0;
        while p + n <= len {
            let v = self.load(st, t, o.base + p)?;
            let ve = v.ex();
            r = Some(match r {
                None => ve,
                Some(x) => ite(bin(Bop::Eq, e, cst(64, (o.base + p) as u128)), ve, x),
            });
            p += step;
        }
        let _ = w;
        Ok(r.map(mk))
    }
    fn aligned(&mut self, st: &State, e: Ex, n: u64) -> bool {
        if n == 1 {
            return true;
        }
        let k = n.trailing_zeros();
        if !n.is_power_of_two() {
            return false;
        }
        let low = extract(e, 0, k);
        matches!(self.s.check(&st.pc, not(bin(Bop::Eq, low, cst(k, 0)))), Sat::Unsat)
    }

    fn switch(&mut self, st: &mut State, v: &V, d: u32, cases: &[(u128, u32)]) -> Res<u32> {
        let e = match v {
            V::C(_, x) => return Ok(cases.iter().find(|(k, _)| k == x).map(|(_, b)| *b).unwrap_or(d)),
            V::S(e) => self.lookup(st, *e),
            _ => return err("switch on an aggregate"),
        };
        if let Some(x) = as_const(e) {
            return Ok(cases.iter().find(|(k, _)| *k == x).map(|(_, b)| *b).unwrap_or(d));
        }
        let w = width(e);
        let mut groups: Vec<(u32, Ex)> = vec![];
        let mut none = cst(1, 1);
        for (k, b) in cases {
            let q = bin(Bop::Eq, e, cst(w, *k));
            none = bin(Bop::And, none, not(q));
            if *b == d {
                continue;
            }
            match groups.iter_mut().find(|(t, _)| t == b) {
                Some((_, x)) => *x = bin(Bop::Or, *x, q),
                None => groups.push((*b, q)),
            }
        }
        let mut dflt = none;
        for (k, b) in cases {
            if *b == d {
                dflt = bin(Bop::Or, dflt, bin(Bop::Eq, e, cst(w, *k)));
            }
        }
        groups.push((d, dflt));
        let mut out = vec![];
        let mut single = None;
        for (b, q) in groups {
            if self.model_eval(st, q) == 1 {
                let mut a = st.clone();
                Self::add_pc(&mut a, q);
                single = Some(b);
                out.push((a, b));
                continue;
            }
            match self.s.check(&st.pc, q) {
                Sat::Unsat => {}
                Sat::Unknown(r) => return err(format!("solver: {}", r)),
                Sat::Sat(m) => {
                    let mut a = st.clone();
                    Self::add_pc(&mut a, q);
                    Self::merge_model(&mut a, m);
                    out.push((a, b));
                }
            }
        }
        if out.len() == 1 {
            return Ok(single.unwrap());
        }
        let mut res = vec![];
        for (mut a, b) in out {
            a.depth += 1;
            match self.jump(&mut a, b) {
                Ok(()) => res.push(a),
                Err(e) => return Err(e),
            }
        }
        Err(Stop::Fork(res))
    }

    fn enter(&mut self, st: &mut State, f: Rc<Func>, args: Vec<V>, dst: Option<u32>, normal: Option<u32>) -> Res<()> {
        if st.frames.len() > 400 {
            return err("call depth");
        }
        let mut regs = vec![V::C(1, 0); f.nregs];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.nparams {
                regs[i] = a;
            }
        }
        if !self.funcs.contains(&f.name) {
            self.funcs.insert(f.name.clone());
        }
        st.frames.push(Rc::new(Frame { f, block: 0, prev: 0, ip: 0, regs, allocas: vec![], ret_dst: dst, ret_block: normal }));
        Ok(())
    }
    fn done(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, v: V) -> Res<()> {
        match normal {
            None => {
                self.set(st, dst, v);
                Ok(())
            }
            Some(b) => {
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                if let Some(d) = dst {
                    fr.regs[d as usize] = v;
                }
                self.jump(st, b)
            }
        }
    }

    fn panic_info(&mut self, st: &State, name: &str, av: &[V]) -> (String, String) {
        // the last pointer argument is the core::panic::Location {file, line, col}
        let mut at = String::new();
        for a in av.iter().rev() {
            if let V::C(64, p) = a {
                if let Ok(b) = self.read(st, *p as u64, 24) {
                    let g = |i: usize, n: usize| -> Option<u64> {
                        let mut v = 0u64;
                        for k in 0..n {
                            match b[i + k] {
                                B::C(x) => v |= (x as u64) << (8 * k),
                                _ => return None,
                            }
                        }
                        Some(v)
                    };
                    if let (Some(fp), Some(fl), Some(l), Some(cc)) = (g(0, 8), g(8, 8), g(16, 4), g(20, 4)) {
                        if fl > 0 && fl < 400 && l > 0 && l < 100000 {
                            let s = self.cstring(st, fp, fl.saturating_sub(1));
                            if s.contains(".rs") || s.contains('/') {
                                at = format!("{}:{}:{}", s.trim_end_matches('\0'), l, cc);
                                break;
                            }
                        }
                    }
                }
            }
        }
        let short = name.rsplit("9panicking").next().unwrap_or(name).to_string();
        (format!("panic ({})", short.trim_start_matches(|c: char| c.is_ascii_digit() || c == '_')), at)
    }

    fn call(&mut self, st: &mut State, name: &str, av: Vec<V>, ret: &Ty, dst: Option<u32>, normal: Option<u32>) -> Res<()> {
        if let Some(n) = name.strip_prefix("llvm.") {
            let v = self.intrinsic(st, n, &av, ret)?;
            return self.done(st, dst, normal, v);
        }
        if name == "vx_coro" {
            // a new coroutine that will run the given function; it never returns
            let p = self.conc(st, &av[0])? as u64;
            let f = match self.m.addrf.get(&p).cloned() {
                Some(n) => match self.m.func(&n) {
                    Ok(Some(f)) => f,
                    _ => return err("coroutine without a body"),
                },
                None => return err("coroutine through an invalid pointer"),
            };
            let mut regs = vec![V::C(1, 0); f.nregs];
            regs[0] = av[1].clone();
            self.funcs.insert(f.name.clone());
            st.parked.push(vec![Rc::new(Frame { f, block: 0, prev: 0, ip: 0, regs, allocas: vec![], ret_dst: None, ret_block: None })]);
            let k = st.parked.len() - 1;
            return self.done(st, dst, normal, c(64, k as u128));
        }
        if name == "vx_panics_end" {
            st.panics_end = true;
            return self.done(st, dst, normal, c(1, 0));
        }
        if name == "vx_switch" {
            let k = self.conc(st, &av[0])? as usize;
            if k >= st.parked.len() || k == st.cur {
                return err("switch to no coroutine");
            }
            self.done(st, dst, normal, c(1, 0))?;
            let old = st.cur;
            st.parked[old] = std::mem::take(&mut st.frames);
            st.frames = std::mem::take(&mut st.parked[k]);
            st.cur = k;
            if st.frames.is_empty() {
                return err("switch to a finished coroutine");
            }
            return Ok(());
        }
        if name == "syscall" {
            if let Some(V::C(_, 202)) = av.get(0) {
                // futexes are the harness's
                match self.m.func("th_futex") {
                    Ok(Some(f)) => return self.enter(st, f, av[1..4].to_vec(), dst, normal),
                    _ => return err("no th_futex"),
                }
            }
        }
        if let Some(n) = name.strip_prefix("vx_") {
            let v = self.vx(st, n, &av)?;
            return self.done(st, dst, normal, v);
        }
        if is_panic(name) && st.panics_end && st.cur != 0 {
            // the coroutine ends here, the main one goes on
            st.panics_end = false;
            st.parked[st.cur] = vec![];
            st.frames = std::mem::take(&mut st.parked[0]);
            st.cur = 0;
            return Ok(());
        }
        if is_panic(name) {
            let (mut msg, at) = self.panic_info(st, name, &av);
            if msg.is_empty() {
                msg = "panic".into();
            }
            let at = if at.is_empty() { self.where_is(st) } else { at };
            return Err(Stop::End(End::Violation { kind: "panic".into(), msg, at }));
        }
        if name.contains("3std2io5stdio6__print") || name.contains("3std2io5stdio7__eprint") || name.contains("5stdio6_print") || name.contains("5stdio7_eprint") {
            return self.done(st, dst, normal, c(1, 0));
        }
        if name.contains("8hash_one") || name.contains("hash_one") {
            // every key gets the same hash: the map's behaviour is then decided by key equality alone
            return self.done(st, dst, normal, c(64, 0x1234_5678_9abc_def0));
        }
        if name.contains("hashmap_random_keys") {
            return self.done(st, dst, normal, V::Agg(Rc::new(vec![c(64, 1), c(64, 2)])));
        }
        let f = self.m.func(name);
        match f {
            Err(e) => return err(e),
            Ok(Some(f)) => return self.enter(st, f, av, dst, normal),
            Ok(None) => {}
        }
        let v = self.external(st, name, &av, ret)?;
        self.done(st, dst, normal, v)
    }

    fn external(&mut self, st: &mut State, name: &str, av: &[V], ret: &Ty) -> Res<V> {
        let a: Vec<V> = av.to_vec();
        match name {
            "malloc" | "__rust_alloc" => {
                let n = self.conc(st, &a[0])? as u64;
                if n > 1 << 28 {
                    return Ok(c(64, 0));
                }
                Ok(c(64, self.alloc(st, n, 16, false) as u128))
            }
            "calloc" => {
                let n = self.conc(st, &a[0])?;
                let k = self.conc(st, &a[1])?;
                if n * k > 1 << 28 {
                    return Ok(c(64, 0));
                }
                Ok(c(64, self.alloc(st, (n * k) as u64, 16, true) as u128))
            }
            "realloc" => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                if n > 1 << 28 {
                    return Ok(c(64, 0));
                }
                let old = match st.mem.get(&p) {
                    Some(o) if o.heap => o.clone(),
                    _ => return self.memviol(st, "realloc of a dead pointer", p, n),
                };
                let q = self.alloc(st, n, 16, false);
                let k = (n as usize).min(old.bytes.len());
                let b = old.bytes[..k].to_vec();
                self.write(st, q, &b)?;
                st.mem.remove(&p);
                Ok(c(64, q as u128))
            }
            "free" => {
                let p = self.conc(st, &a[0])? as u64;
                if p == 0 {
                    return Ok(c(1, 0));
                }
                match st.mem.get(&p) {
                    Some(o) if o.heap => {
                        st.mem.remove(&p);
                        Ok(c(1, 0))
                    }
                    _ => self.memviol(st, "free of a dead pointer", p, 0),
                }
            }
            "posix_memalign" => {
                let pp = self.conc(st, &a[0])? as u64;
                let al = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as u64;
                if n > 1 << 28 {
                    return Ok(c(32, 12));
                }
                let p = self.alloc(st, n, al, false);
                self.store(st, &Ty::Ptr, &c(64, p as u128), pp)?;
                Ok(c(32, 0))
            }
            "bcmp" | "memcmp" => {
                let p = self.conc(st, &a[0])? as u64;
                let q = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as u64;
                let x = self.read(st, p, n)?;
                let y = self.read(st, q, n)?;
                let bex = |x: &B| match x {
                    B::C(v) => cst(8, *v as u128),
                    B::S(e) => *e,
                    B::U => cst(8, 0),
                };
                if name == "bcmp" {
                    let mut r = cst(1, 1);
                    for i in 0..n as usize {
                        r = bin(Bop::And, r, bin(Bop::Eq, bex(&x[i]), bex(&y[i])));
                    }
                    Ok(mk(zext(not(r), 32)))
                } else {
                    let mut r = cst(32, 0);
                    for i in (0..n as usize).rev() {
                        let (u, v) = (bex(&x[i]), bex(&y[i]));
                        let d = ite(bin(Bop::Ult, u, v), cst(32, 0xffff_ffff), cst(32, 1));
                        r = ite(bin(Bop::Eq, u, v), r, d);
                    }
                    Ok(mk(r))
                }
            }
            "memchr" => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[2])? as u64;
                let ch = self.conc(st, &a[1])? as u8;
                let x = self.read(st, p, n)?;
                let mut r = cst(64, 0);
                for i in (0..n as usize).rev() {
                    let e = match x[i] {
                        B::C(v) => cst(8, v as u128),
                        B::S(e) => e,
                        B::U => cst(8, 0),
                    };
                    r = ite(bin(Bop::Eq, e, cst(8, ch as u128)), cst(64, (p + i as u64) as u128), r);
                }
                Ok(mk(r))
            }
            "strlen" => {
                let p = self.conc(st, &a[0])? as u64;
                let mut n = 0;
                loop {
                    let b = self.read(st, p + n, 1)?;
                    match b[0] {
                        B::C(0) => return Ok(c(64, n as u128)),
                        B::C(_) => n += 1,
                        _ => return err("strlen of symbolic data"),
                    }
                }
            }
            "abort" | "_exit" | "exit" => {
                let at = self.where_is(st);
                Err(Stop::End(End::Violation { kind: "abort".into(), msg: format!("{} called", name), at }))
            }
            "write" => {
                let n = self.conc(st, &a[2])?;
                Ok(c(64, n))
            }
            "__errno_location" => {
                let p = 0x6fff_0000u64;
                if !st.mem.contains_key(&p) {
                    st.mem.insert(p, Rc::new(Obj { base: p, bytes: vec![B::C(0); 8], heap: false, ro: false }));
                }
                Ok(c(64, p as u128))
            }
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "sched_yield" | "close" | "pthread_self" => Ok(match ret {
                Ty::Void => c(1, 0),
                t => c(t.bits(), 0),
            }),
            "pthread_getspecific" | "getenv" => Ok(c(64, 0)),
            "getrandom" => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                let b: Vec<B> = (0..n).map(|i| B::C((i * 7 + 1) as u8)).collect();
                self.write(st, p, &b)?;
                Ok(c(64, n as u128))
            }
            "syscall" => {
                let k = self.conc(st, &a[0])?;
                match k {
                    318 => {
                        let p = self.conc(st, &a[1])? as u64;
                        let n = self.conc(st, &a[2])? as u64;
                        let b: Vec<B> = (0..n).map(|i| B::C((i * 7 + 1) as u8)).collect();
                        self.write(st, p, &b)?;
                        Ok(c(64, n as u128))
                    }
                    _ => err(format!("system call {}", k)),
                }
            }
            _ => err(format!("external function {}", name)),
        }
    }

    fn vx(&mut self, st: &mut State, n: &str, av: &[V]) -> Res<V> {
        match n {
            "sym" => {
                let p = self.conc(st, &av[0])? as u64;
                let l = self.conc(st, &av[1])? as u64;
                let b: Vec<B> = (0..l).map(|i| B::S(sym(st.nsym + i as u32))).collect();
                self.write(st, p, &b)?;
                st.nsym += l as u32;
                Ok(c(1, 0))
            }
            "param" => {
                let i = self.conc(st, &av[0])? as usize;
                Ok(c(64, self.o.params.get(i).cloned().unwrap_or(0) as u128))
            }
            "assume" => {
                let e = match &av[0] {
                    V::C(_, x) => {
                        return if *x & 1 == 1 { Ok(c(1, 0)) } else { Err(Stop::End(End::Infeasible)) };
                    }
                    V::S(e) => *e,
                    _ => return err("assume"),
                };
                let e = if width(e) > 1 { extract(e, 0, 1) } else { e };
                if self.model_eval(st, e) == 1 {
                    Self::add_pc(st, e);
                    return Ok(c(1, 0));
                }
                match self.s.check(&st.pc, e) {
                    Sat::Unsat => Err(Stop::End(End::Infeasible)),
                    Sat::Unknown(r) => err(format!("solver: {}", r)),
                    Sat::Sat(m) => {
                        Self::add_pc(st, e);
                        Self::merge_model(st, m);
                        Ok(c(1, 0))
                    }
                }
            }
            "check" => {
                let p = self.conc(st, &av[1])? as u64;
                let l = self.conc(st, &av[2])? as u64;
                let msg = self.cstring(st, p, l);
                self.checks += 1;
                *self.check_names.entry(msg.clone()).or_insert(0) += 1;
                let e = match &av[0] {
                    V::C(_, x) => {
                        self.checks_trivial += 1;
                        if *x & 1 == 1 {
                            return Ok(c(1, 0));
                        }
                        let at = self.where_is(st);
                        let _ = at;
                        return Err(Stop::End(End::Violation { kind: "check".into(), msg, at: String::new() }));
                    }
                    V::S(e) => *e,
                    _ => return err("check"),
                };
                let e = if width(e) > 1 { extract(e, 0, 1) } else { e };
                let e = self.lookup(st, e);
                let bad = not(e);
                // decide the conjuncts separately: smaller queries, same meaning
                let mut parts = vec![];
                let mut todo = vec![e];
                while let Some(x) = todo.pop() {
                    match node(x) {
                        (Node::Bin(Bop::And, a, b), 1) => {
                            todo.push(a);
                            todo.push(b);
                        }
                        _ => parts.push(x),
                    }
                }
                let mut failed = None;
                for x in parts {
                    match self.s.decide(&st.pc, not(x)) {
                        Sat::Unsat => {}
                        Sat::Unknown(r) => return err(format!("solver: {} (check {})", r, msg)),
                        Sat::Sat(m) => {
                            failed = Some(m);
                            break;
                        }
                    }
                }
                let _ = bad;
                match failed {
                    None => {
                        Rc::make_mut(&mut st.known).insert(e, 1);
                        Ok(c(1, 0))
                    }
                    Some(m) => {
                        self.violation(st, "check".into(), msg, String::new(), Some(&m));
                        // continue on the part where the check holds, if any
                        match self.s.check(&st.pc, e) {
                            Sat::Unsat => Err(Stop::End(End::Infeasible)),
                            Sat::Unknown(r) => err(format!("solver: {}", r)),
                            Sat::Sat(m2) => {
                                Self::add_pc(st, e);
                                Self::merge_model(st, m2);
                                Ok(c(1, 0))
                            }
                        }
                    }
                }
            }
            "cover" => {
                let p = self.conc(st, &av[0])? as u64;
                let l = self.conc(st, &av[1])? as u64;
                let msg = self.cstring(st, p, l);
                *self.covers.entry(msg.clone()).or_insert(0) += 1;
                Rc::make_mut(&mut st.marks).push(msg);
                Ok(c(1, 0))
            }
            "log" => {
                st.log.push(av[0].clone());
                Ok(c(1, 0))
            }
            "fork" => {
                // a concrete copy of the argument on every path
                let v = self.conc(st, &av[0])?;
                Ok(c(av[0].w(), v))
            }
            _ => err(format!("unknown harness function vx_{}", n)),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, av: &[V], ret: &Ty) -> Res<V> {
        let a: Vec<V> = av.to_vec();
        let base: &str = n;
        if base.starts_with("lifetime.") || base.starts_with("dbg.") || base.starts_with("assume") || base.starts_with("experimental.noalias") || base.starts_with("invariant.") || base.starts_with("prefetch") || base.starts_with("donothing") || base.starts_with("x86.sse2.pause") {
            return Ok(c(1, 0));
        }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let d = self.conc(st, &a[0])? as u64;
            let s = self.conc(st, &a[1])? as u64;
            let l = self.conc(st, &a[2])? as u64;
            let b = self.read(st, s, l)?;
            self.write(st, d, &b)?;
            return Ok(c(1, 0));
        }
        if base.starts_with("memset") {
            let d = self.conc(st, &a[0])? as u64;
            let l = self.conc(st, &a[2])? as u64;
            let b = Self::to_bytes(&Ty::Int(8), &a[1])[0];
            self.write(st, d, &vec![b; l as usize])?;
            return Ok(c(1, 0));
        }
        if base.starts_with("trap") || base.starts_with("ubsantrap") {
            let at = self.where_is(st);
            return Err(Stop::End(End::Violation { kind: "abort".into(), msg: "trap".into(), at }));
        }
        if base.starts_with("threadlocal.address") || base.starts_with("launder.") || base.starts_with("strip.") || base.starts_with("ssa.copy") {
            return Ok(a[0].clone());
        }
        if base.starts_with("expect") {
            return Ok(a[0].clone());
        }
        if base.starts_with("is.constant") {
            return Ok(c(1, 0));
        }
        // element-wise on vectors
        let mm = |p: Pred| -> V {
            let k = self.icmp(p, &a[0], &a[1]);
            self.select(&k, &a[0], &a[1])
        };
        if base.starts_with("umin.") {
            return Ok(mm(Pred::Ult));
        }
        if base.starts_with("umax.") {
            return Ok(mm(Pred::Ugt));
        }
        if base.starts_with("smin.") {
            return Ok(mm(Pred::Slt));
        }
        if base.starts_with("smax.") {
            return Ok(mm(Pred::Sgt));
        }
        if let Some(p) = base.find(".with.overflow") {
            let op = &base[..p];
            let w = a[0].w();
            let (x, y) = (a[0].clone(), a[1].clone());
            let signed = op.starts_with('s');
            let k = match &op[1..] {
                "add" => BinK::Add,
                "sub" => BinK::Sub,
                "mul" => BinK::Mul,
                _ => return err(format!("intrinsic {}", n)),
            };
            let r = self.binop(k, &x, &y);
            let o = match (signed, k) {
                (false, BinK::Add) => self.icmp(Pred::Ult, &r, &x),
                (false, BinK::Sub) => self.icmp(Pred::Ult, &x, &y),
                (true, BinK::Add) => {
                    let t = self.binop(BinK::And, &self.binop(BinK::Xor, &r, &x), &self.binop(BinK::Xor, &r, &y));
                    self.icmp(Pred::Slt, &t, &c(w, 0))
                }
                (true, BinK::Sub) => {
                    let t = self.binop(BinK::And, &self.binop(BinK::Xor, &x, &y), &self.binop(BinK::Xor, &r, &x));
                    self.icmp(Pred::Slt, &t, &c(w, 0))
                }
                _ => {
                    // multiplication: compute at double width
                    if w > 64 {
                        return err("wide multiply with overflow");
                    }
                    let (ft, tt) = (Ty::Int(w), Ty::Int(2 * w));
                    let ck = if signed { CastK::SExt } else { CastK::ZExt };
                    let p = self.binop(BinK::Mul, &self.cast(ck, &ft, &x, &tt), &self.cast(ck, &ft, &y, &tt));
                    let back = self.cast(ck, &ft, &self.cast(CastK::Trunc, &tt, &p, &ft), &tt);
                    self.icmp(Pred::Ne, &p, &back)
                }
            };
            return Ok(V::Agg(Rc::new(vec![r, o])));
        }
        if base.starts_with("uadd.sat") {
            let r = self.binop(BinK::Add, &a[0], &a[1]);
            let o = self.icmp(Pred::Ult, &r, &a[0]);
            let w = a[0].w();
            return Ok(self.select(&o, &c(w, mask(w)), &r));
        }
        if base.starts_with("usub.sat") {
            let r = self.binop(BinK::Sub, &a[0], &a[1]);
            let o = self.icmp(Pred::Ult, &a[0], &a[1]);
            let w = a[0].w();
            return Ok(self.select(&o, &c(w, 0), &r));
        }
        if base.starts_with("ucmp") || base.starts_with("scmp") {
            let w = ret.bits();
            let (lt, gt) = if base.starts_with('u') { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let l = self.icmp(lt, &a[0], &a[1]);
            let g = self.icmp(gt, &a[0], &a[1]);
            let r = self.select(&g, &c(w, 1), &c(w, 0));
            return Ok(self.select(&l, &c(w, mask(w)), &r));
        }
        if base.starts_with("bswap") {
            let w = a[0].w();
            return Ok(match &a[0] {
                V::C(_, x) => {
                    let mut r = 0u128;
                    for i in 0..w / 8 {
                        r |= ((x >> (8 * i)) & 0xff) << (w - 8 - 8 * i);
                    }
                    c(w, r)
                }
                v => {
                    let e = v.ex();
                    let mut r = extract(e, 0, 8);
                    for i in 1..w / 8 {
                        r = bin(Bop::Concat, r, extract(e, 8 * i, 8));
                    }
                    mk(r)
                }
            });
        }
        if base.starts_with("bitreverse") {
            let w = a[0].w();
            let e = a[0].ex();
            let mut r = extract(e, 0, 1);
            for i in 1..w {
                r = bin(Bop::Concat, r, extract(e, i, 1));
            }
            return Ok(mk(r));
        }
        if base.starts_with("ctlz") || base.starts_with("cttz") || base.starts_with("ctpop") {
            let f = |v: &V| -> V {
                let w = v.w();
                match v {
                    V::C(_, x) => {
                        let r = if base.starts_with("ctlz") {
                            x.leading_zeros() - (128 - w)
                        } else if base.starts_with("cttz") {
                            x.trailing_zeros().min(w)
                        } else {
                            x.count_ones()
                        };
                        c(w, r as u128)
                    }
                    v => {
                        let e = v.ex();
                        let mut r;
                        if base.starts_with("ctlz") {
                            r = cst(w, w as u128);
                            for i in 0..w {
                                r = ite(extract(e, i, 1), cst(w, (w - 1 - i) as u128), r);
                            }
                        } else if base.starts_with("cttz") {
                            r = cst(w, w as u128);
                            for i in (0..w).rev() {
                                r = ite(extract(e, i, 1), cst(w, i as u128), r);
                            }
                        } else {
                            r = cst(w, 0);
                            for i in 0..w {
                                let b = extract(e, i, 1);
                                r = bin(Bop::Add, r, if w > 1 { zext(b, w) } else { b });
                            }
                        }
                        mk(r)
                    }
                }
            };
            return Ok(match &a[0] {
                V::Agg(v) => V::Agg(Rc::new(v.iter().map(|x| f(x)).collect())),
                v => f(v),
            });
        }
        if base.starts_with("fshl") || base.starts_with("fshr") {
            let w = a[0].w();
            let left = base.starts_with("fshl");
            if let V::C(_, s) = &a[2] {
                let s = (*s % w as u128) as u32;
                let s = if left { s } else { (w - s) % w };
                if s == 0 {
                    return Ok(if left { a[0].clone() } else { a[1].clone() });
                }
                let hi = extract(a[0].ex(), 0, w - s);
                let lo = extract(a[1].ex(), w - s, s);
                return Ok(mk(bin(Bop::Concat, hi, lo)));
            }
            if w > 64 || !w.is_power_of_two() {
                return err("funnel shift by a symbolic amount");
            }
            let cc = bin(Bop::Concat, a[0].ex(), a[1].ex());
            let sh = bin(Bop::And, zext(a[2].ex(), 2 * w), cst(2 * w, w as u128 - 1));
            return Ok(mk(if left { extract(bin(Bop::Shl, cc, sh), w, w) } else { extract(bin(Bop::LShr, cc, sh), 0, w) }));
        }
        if base.starts_with("abs.") {
            let w = a[0].w();
            let neg = self.icmp(Pred::Slt, &a[0], &c(w, 0));
            let m = self.binop(BinK::Sub, &c(w, 0), &a[0]);
            return Ok(self.select(&neg, &m, &a[0]));
        }
        if base.starts_with("vector.reduce.") {
            let v = a[0].agg();
            let mut r = v[0].clone();
            for x in &v[1..] {
                r = if base.starts_with("vector.reduce.or") {
                    self.binop(BinK::Or, &r, x)
                } else if base.starts_with("vector.reduce.and") {
                    self.binop(BinK::And, &r, x)
                } else if base.starts_with("vector.reduce.add") {
                    self.binop(BinK::Add, &r, x)
                } else if base.starts_with("vector.reduce.xor") {
                    self.binop(BinK::Xor, &r, x)
                } else if base.starts_with("vector.reduce.umax") {
                    self.select(&self.icmp(Pred::Ugt, &r, x), &r, x)
                } else if base.starts_with("vector.reduce.umin") {
                    self.select(&self.icmp(Pred::Ult, &r, x), &r, x)
                } else {
                    return err(format!("intrinsic {}", n));
                };
            }
            return Ok(r);
        }
        err(format!("intrinsic {}", n))
    }
}

impl Exec {
    /// source lines and functions (inlined ones included) that were executed symbolically
    pub fn coverage(&self) -> (Vec<String>, Vec<String>) {
        let mut lines = BTreeSet::new();
        let mut fns = self.funcs.clone();
        for d in &self.dbg_seen {
            for (f, name, l) in self.m.loc_chain(*d) {
                if l != 0 && !f.contains("/rustc/") && !f.contains("/library/") && !f.contains(".cargo/registry") {
                    lines.insert(format!("{}:{}", f, l));
                }
                if !name.is_empty() {
                    fns.insert(name);
                }
            }
        }
        (lines.into_iter().collect(), fns.into_iter().collect())
    }
}
