//! Parser for the textual LLVM IR that rustc's llvm-dis prints.
use crate::expr::{mask, sext};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
    Opaque,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_))
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// bytes actually written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Array(_, t) => (t.size() * i as u64, (**t).clone()),
            Ty::Vector(_, t) => ((t.bits() as u64 * i as u64) / 8, (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("elem"),
        }
    }
}

/// Constants (fully resolved) and register operands.
#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    Int(u32, u128),
    Undef(Ty),
    Agg(Rc<Vec<Op>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinK, Op, Op),
    ICmp(Pred, Op, Op),
    Select(Op, Op, Op),
    Cast(CastK, Ty, Op, Ty),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Op, i64, Vec<(Op, i64)>),
    Alloca(u64, u64),
    Phi(Vec<(Op, u32)>),
    Call { callee: Callee, args: Vec<Op>, ret: Ty, normal: Option<u32> },
    ExtractValue(Op, Vec<u32>),
    InsertValue(Op, Op, Vec<u32>, Ty),
    ExtractElement(Op, Op),
    InsertElement(Op, Op, Op),
    Shuffle(Op, Op, Vec<Option<u32>>),
    AtomicRmw(String, Op, Op, Ty),
    CmpXchg(Op, Op, Op, Ty),
    Fence,
    Freeze(Op),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    LandingPad,
    Resume,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(String),
    Indirect(Op),
    Asm(String),
}

#[derive(Debug)]
pub struct Instr {
    pub dst: Option<u32>,
    pub ins: Ins,
    pub dbg: u32,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Vec<Instr>>,
    pub dbg: u32,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub init: Vec<u8>,
    pub defined: bool,
}

pub struct Module {
    pub funcs: HashMap<String, Rc<Func>>,
    pub bodies: HashMap<String, (usize, usize, usize)>, // name -> (header line, first, last)
    pub lines: Vec<String>,
    pub faddr: HashMap<String, u64>,
    pub addrf: HashMap<u64, String>,
    pub globals: Vec<Global>,
    pub gaddr: HashMap<String, u64>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
    pub meta: HashMap<u32, String>,
}

#[derive(Clone, PartialEq, Debug)]
enum T {
    W(String),   // word
    L(String),   // %local
    G(String),   // @global
    N(String),   // number
    S(Vec<u8>),  // "string"
    CS(Vec<u8>), // c"string"
    P(char),
    M(String), // !meta
    A,         // #attr
    NL,
    Ellipsis,
    End,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && (s[i + 1] as char).is_ascii_hexdigit() && (s[i + 2] as char).is_ascii_hexdigit() {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            r.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            r.push(b'\\');
            i += 2;
        } else {
            r.push(s[i]);
            i += 1;
        }
    }
    r
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex(line: &str, out: &mut Vec<T>) {
    let b = line.as_bytes();
    let mut i = 0;
    let quoted = |i: usize| -> (Vec<u8>, usize) {
        let mut j = i + 1;
        while b[j] != b'"' {
            j += 1;
        }
        (unescape(&b[i + 1..j]), j + 1)
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let (s, j);
                if b[i + 1] == b'"' {
                    let (q, k) = quoted(i + 1);
                    s = String::from_utf8_lossy(&q).to_string();
                    j = k;
                } else {
                    let mut k = i + 1;
                    while k < b.len() && is_id(b[k]) {
                        k += 1;
                    }
                    s = line[i + 1..k].to_string();
                    j = k;
                }
                out.push(if c == b'%' { T::L(s) } else { T::G(s) });
                i = j;
            }
            b'"' => {
                let (q, k) = quoted(i);
                out.push(T::S(q));
                i = k;
            }
            b'!' => {
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let (_, k) = quoted(i + 1);
                    out.push(T::M("str".into()));
                    i = k;
                } else {
                    let mut k = i + 1;
                    while k < b.len() && is_id(b[k]) {
                        k += 1;
                    }
                    out.push(T::M(line[i + 1..k].to_string()));
                    i = k;
                }
            }
            b'#' => {
                let mut k = i + 1;
                while k < b.len() && is_id(b[k]) {
                    k += 1;
                }
                out.push(T::A);
                i = k;
            }
            b'.' if line[i..].starts_with("...") => {
                out.push(T::Ellipsis);
                i += 3;
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let mut k = i + 1;
                while k < b.len() && (b[k].is_ascii_alphanumeric() || b[k] == b'.' || b[k] == b'+' || (b[k] == b'-' && b[k - 1] == b'e')) {
                    k += 1;
                }
                out.push(T::N(line[i..k].to_string()));
                i = k;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' {
                    let (q, k) = quoted(i + 1);
                    out.push(T::CS(q));
                    i = k;
                } else {
                    let mut k = i + 1;
                    while k < b.len() && is_id(b[k]) {
                        k += 1;
                    }
                    out.push(T::W(line[i..k].to_string()));
                    i = k;
                }
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
}

struct P<'a> {
    t: Vec<T>,
    i: usize,
    m: &'a Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn new(m: &'a Module) -> Self {
        P { t: vec![], i: 0, m, regs: HashMap::new(), blocks: HashMap::new() }
    }
    fn peek(&self) -> T {
        self.t.get(self.i).cloned().unwrap_or(T::End)
    }
    fn peek_at(&self, k: usize) -> T {
        self.t.get(self.i + k).cloned().unwrap_or(T::End)
    }
    fn next(&mut self) -> T {
        let r = self.peek();
        self.i += 1;
        r
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == T::P(c)
    }
    fn is_w(&self, s: &str) -> bool {
        matches!(self.peek(), T::W(x) if x == s)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, s: &str) -> bool {
        if self.is_w(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?} in {:?}", c, self.peek(), &self.t[self.i.saturating_sub(8)..(self.i + 3).min(self.t.len())]))
        }
    }
    fn exp_w(&mut self, c: &str) -> R<()> {
        if self.eat_w(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", c, self.peek()))
        }
    }
    fn skip_nl(&mut self) {
        while self.peek() == T::NL {
            self.i += 1;
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::End => return,
                _ => {}
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is_w("addrspace") {
                        self.i += 1;
                        self.skip_paren();
                    }
                    Ty::Ptr
                }
                "half" | "bfloat" => Ty::Float(16),
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "x86_fp80" => Ty::Float(80),
                "fp128" => Ty::Float(128),
                "metadata" => Ty::Meta,
                "label" => Ty::Meta,
                "token" => Ty::Meta,
                "opaque" => Ty::Opaque,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => return Err(format!("type word {}", w)),
            },
            T::L(n) => self.m.types.get(&n).cloned().ok_or(format!("type %{}", n))?,
            T::P('[') => {
                let n = self.num()? as u64;
                self.exp_w("x")?;
                let e = self.ty()?;
                self.exp_p(']')?;
                Ty::Array(n, Rc::new(e))
            }
            T::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let f = self.ty_list('}')?;
                    self.exp_p('>')?;
                    Ty::Struct(f, true)
                } else {
                    let n = self.num()? as u64;
                    self.exp_w("x")?;
                    let e = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vector(n, Rc::new(e))
                }
            }
            T::P('{') => Ty::Struct(self.ty_list('}')?, false),
            t => return Err(format!("type token {:?}", t)),
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.eat_p(end) {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(f);
            }
            self.exp_p(',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next() {
            T::N(s) => s.parse::<i128>().map_err(|e| format!("{} {}", s, e)),
            t => Err(format!("number {:?}", t)),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn gref(&self, n: &str) -> R<u64> {
        let mut n = n;
        while let Some(a) = self.m.aliases.get(n) {
            n = a;
        }
        if let Some(a) = self.m.gaddr.get(n) {
            return Ok(*a);
        }
        if let Some(a) = self.m.faddr.get(n) {
            return Ok(*a);
        }
        Err(format!("unknown global @{}", n))
    }
    fn zero(t: &Ty) -> Op {
        match t {
            Ty::Int(w) => Op::Int(*w, 0),
            Ty::Ptr => Op::Int(64, 0),
            Ty::Float(w) => Op::Int(*w, 0),
            _ => Op::Agg(Rc::new((0..t.nfields()).map(|i| Self::zero(&t.elem(i))).collect())),
        }
    }
    /// value of a known type
    fn val(&mut self, t: &Ty) -> R<Op> {
        match self.next() {
            T::L(n) => Ok(Op::Reg(self.reg(&n))),
            T::G(n) => Ok(Op::Int(64, self.gref(&n)? as u128)),
            T::N(s) => match t {
                Ty::Int(w) => {
                    let v = if s.starts_with('-') {
                        s.parse::<i128>().map_err(|e| format!("{} {}", s, e))? as u128
                    } else if let Ok(v) = s.parse::<u128>() {
                        v
                    } else {
                        return Err(format!("int {}", s));
                    };
                    Ok(Op::Int(*w, v & mask(*w)))
                }
                Ty::Float(w) => {
                    // hexadecimal or decimal float literal
                    let bits = if let Some(h) = s.strip_prefix("0x") {
                        let v = u64::from_str_radix(h, 16).map_err(|e| format!("{} {}", s, e))?;
                        if *w == 32 {
                            (f64::from_bits(v) as f32).to_bits() as u128
                        } else {
                            v as u128
                        }
                    } else {
                        let f: f64 = s.parse().map_err(|e| format!("{} {:?}", s, e))?;
                        if *w == 32 {
                            (f as f32).to_bits() as u128
                        } else {
                            f.to_bits() as u128
                        }
                    };
                    Ok(Op::Int(*w, bits))
                }
                _ => Err(format!("number {} for {:?}", s, t)),
            },
            T::CS(b) => Ok(Op::Agg(Rc::new(b.iter().map(|x| Op::Int(8, *x as u128)).collect()))),
            T::W(w) => match w.as_str() {
                "true" => Ok(Op::Int(1, 1)),
                "false" => Ok(Op::Int(1, 0)),
                "null" => Ok(Op::Int(64, 0)),
                "undef" | "poison" => Ok(Op::Undef(t.clone())),
                "none" => Ok(Op::Int(1, 0)),
                "zeroinitializer" => Ok(Self::zero(t)),
                "splat" => {
                    self.exp_p('(')?;
                    let et = self.ty()?;
                    let v = self.val(&et)?;
                    self.exp_p(')')?;
                    Ok(Op::Agg(Rc::new(vec![v; t.nfields()])))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        let inr = self.is_w("inrange");
                        self.i += 1;
                        if inr {
                            self.skip_paren();
                        }
                    }
                    self.exp_p('(')?;
                    let st = self.ty()?;
                    self.exp_p(',')?;
                    let (base, off, dynv) = self.gep_tail(&st, Some(')'))?;
                    if !dynv.is_empty() {
                        return Err("dynamic constant gep".into());
                    }
                    match base {
                        Op::Int(_, b) => Ok(Op::Int(64, (b.wrapping_add(off as i128 as u128)) & mask(64))),
                        _ => Err("constant gep base".into()),
                    }
                }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "addrspacecast" | "zext" | "sext" | "ptrtoaddr" => {
                    self.exp_p('(')?;
                    let ft = self.ty()?;
                    let v = self.val(&ft)?;
                    self.exp_w("to")?;
                    let tt = self.ty()?;
                    self.exp_p(')')?;
                    match v {
                        Op::Int(fw, x) => {
                            let x = if w == "sext" { sext(x, fw) as u128 } else { x };
                            Ok(Op::Int(tt.bits(), x & mask(tt.bits())))
                        }
                        Op::Undef(_) => Ok(Op::Undef(tt)),
                        _ => Err("constant cast".into()),
                    }
                }
                "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.exp_p('(')?;
                    let t1 = self.ty()?;
                    let a = self.val(&t1)?;
                    self.exp_p(',')?;
                    let t2 = self.ty()?;
                    let b = self.val(&t2)?;
                    self.exp_p(')')?;
                    match (a, b) {
                        (Op::Int(wd, a), Op::Int(_, b)) => {
                            let r = match w.as_str() {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                "xor" => a ^ b,
                                "and" => a & b,
                                "or" => a | b,
                                "mul" => a.wrapping_mul(b),
                                "shl" => a << b,
                                _ => a >> b,
                            };
                            Ok(Op::Int(wd, r & mask(wd)))
                        }
                        _ => Err("constant binop".into()),
                    }
                }
                _ => Err(format!("value word {}", w)),
            },
            T::P('{') => {
                let mut v = vec![];
                let mut i = 0;
                if self.eat_p('}') {
                    return Ok(Op::Agg(Rc::new(v)));
                }
                loop {
                    let et = self.ty()?;
                    v.push(self.val(&et)?);
                    i += 1;
                    let _ = i;
                    if self.eat_p('}') {
                        return Ok(Op::Agg(Rc::new(v)));
                    }
                    self.exp_p(',')?;
                }
            }
            T::P('[') => {
                let mut v = vec![];
                if self.eat_p(']') {
                    return Ok(Op::Agg(Rc::new(v)));
                }
                loop {
                    let et = self.ty()?;
                    v.push(self.val(&et)?);
                    if self.eat_p(']') {
                        return Ok(Op::Agg(Rc::new(v)));
                    }
                    self.exp_p(',')?;
                }
            }
            T::P('<') => {
                if self.is_p('{') {
                    let r = self.val(t)?;
                    self.exp_p('>')?;
                    return Ok(r);
                }
                let mut v = vec![];
                loop {
                    let et = self.ty()?;
                    v.push(self.val(&et)?);
                    if self.eat_p('>') {
                        return Ok(Op::Agg(Rc::new(v)));
                    }
                    self.exp_p(',')?;
                }
            }
            t => Err(format!("value token {:?}", t)),
        }
    }
    fn tv(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                T::W(w) => match w.as_str() {
                    "noundef" | "zeroext" | "signext" | "noalias" | "nonnull" | "readonly" | "writeonly" | "readnone" | "nocapture" | "returned" | "nofree" | "immarg" | "inreg" | "noext" | "dead_on_unwind" | "writable" | "swiftself" | "allocptr" | "allocalign" | "dead_on_return" | "noalias_addrspace" | "nest" => {
                        self.i += 1;
                        if self.is_p('(') {
                            self.skip_paren();
                        }
                    }
                    "align" => {
                        self.i += 1;
                        if self.is_p('(') {
                            self.skip_paren();
                        } else {
                            self.i += 1;
                        }
                    }
                    "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "sret" | "byval" | "byref" | "initializes" | "nofpclass" | "elementtype" | "preallocated" | "inalloca" | "memory" => {
                        self.i += 1;
                        if self.is_p('(') {
                            self.skip_paren();
                        }
                    }
                    _ => return,
                },
                T::S(_) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn gep_tail(&mut self, st: &Ty, end: Option<char>) -> R<(Op, i64, Vec<(Op, i64)>)> {
        let (_, base) = self.tv()?;
        let mut off = 0i64;
        let mut dynv = vec![];
        let mut cur = st.clone();
        let mut first = true;
        loop {
            if let Some(e) = end {
                if self.eat_p(e) {
                    break;
                }
            }
            if !self.is_p(',') {
                break;
            }
            if matches!(self.peek_at(1), T::M(_)) {
                break;
            }
            self.i += 1;
            self.eat_w("inrange");
            let (it, idx) = self.tv()?;
            if first {
                first = false;
                let s = cur.size() as i64;
                match idx {
                    Op::Int(w, v) => off = off.wrapping_add((sext(v, w) as i64).wrapping_mul(s)),
                    o => dynv.push((o, s)),
                }
            } else {
                match (&cur, idx) {
                    (Ty::Struct(..), Op::Int(_, v)) => {
                        let (o, t) = cur.field(v as usize);
                        off += o as i64;
                        cur = t;
                    }
                    (Ty::Array(_, t), idx) | (Ty::Vector(_, t), idx) => {
                        let s = t.size() as i64;
                        match idx {
                            Op::Int(w, v) => off = off.wrapping_add((sext(v, w) as i64).wrapping_mul(s)),
                            o => dynv.push((o, s)),
                        }
                        let t = (**t).clone();
                        cur = t;
                    }
                    _ => return Err("gep index".into()),
                }
            }
            let _ = it;
        }
        Ok((base, off, dynv))
    }
    fn label(&mut self) -> R<u32> {
        self.exp_w("label")?;
        match self.next() {
            T::L(n) => self.blocks.get(&n).cloned().ok_or(format!("label %{}", n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn skip_line(&mut self) -> u32 {
        // returns the !dbg number, if any
        let mut dbg = 0;
        loop {
            match self.peek() {
                T::NL | T::End => break,
                T::M(s) if s == "dbg" => {
                    if let T::M(n) = self.peek_at(1) {
                        dbg = n.parse().unwrap_or(0);
                    }
                    self.i += 1;
                }
                _ => self.i += 1,
            }
        }
        dbg
    }
    fn words(&mut self, ws: &[&str]) {
        while let T::W(w) = self.peek() {
            if ws.contains(&w.as_str()) {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn call(&mut self, invoke: bool) -> R<Ins> {
        loop {
            match self.peek() {
                T::W(w)
                    if [
                        "fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc", "preserve_nonecc", "tailcc", "cold", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "x86_64_sysvcc",
                    ]
                    .contains(&w.as_str()) =>
                {
                    self.i += 1
                }
                T::W(w) if w == "cc" => self.i += 2,
                _ => break,
            }
        }
        self.attrs();
        let ret = self.ty()?;
        if self.is_p('(') {
            self.skip_paren(); // function type
        }
        let callee = match self.next() {
            T::G(n) => {
                let mut n = n;
                while let Some(a) = self.m.aliases.get(&n) {
                    n = a.clone();
                }
                Callee::Func(n)
            }
            T::L(n) => Callee::Indirect(Op::Reg(self.reg(&n))),
            T::W(w) if w == "asm" => {
                self.words(&["sideeffect", "alignstack", "inteldialect", "unwind"]);
                let a = match self.next() {
                    T::S(s) => String::from_utf8_lossy(&s).to_string(),
                    t => return Err(format!("asm {:?}", t)),
                };
                self.exp_p(',')?;
                let b = match self.next() {
                    T::S(s) => String::from_utf8_lossy(&s).to_string(),
                    t => return Err(format!("asm {:?}", t)),
                };
                Callee::Asm(format!("{}|{}", a, b))
            }
            T::W(w) if w == "inttoptr" => {
                self.i -= 1;
                let v = self.val(&Ty::Ptr)?;
                let _ = w;
                Callee::Indirect(v)
            }
            T::W(w) if w == "null" || w == "undef" || w == "poison" => Callee::Asm("call null".into()),
            t => return Err(format!("callee {:?}", t)),
        };
        self.exp_p('(')?;
        let mut args = vec![];
        if !self.eat_p(')') {
            loop {
                let t = self.ty()?;
                if t == Ty::Meta {
                    // metadata argument: skip to , or )
                    let mut d = 0;
                    loop {
                        match self.peek() {
                            T::P('(') => d += 1,
                            T::P(')') if d > 0 => d -= 1,
                            T::P(')') | T::P(',') if d == 0 => break,
                            T::End => break,
                            _ => {}
                        }
                        self.i += 1;
                    }
                    args.push(Op::Int(64, 0));
                } else {
                    self.attrs();
                    args.push(self.val(&t)?);
                }
                if self.eat_p(')') {
                    break;
                }
                self.exp_p(',')?;
            }
        }
        let mut normal = None;
        if invoke {
            loop {
                if self.is_w("to") {
                    break;
                }
                if self.peek() == T::End {
                    return Err("invoke".into());
                }
                self.i += 1;
            }
            self.exp_w("to")?;
            normal = Some(self.label()?);
            self.skip_nl();
            self.exp_w("unwind")?;
            self.label()?;
        }
        Ok(Ins::Call { callee, args, ret, normal })
    }
    fn instr(&mut self) -> R<Instr> {
        let mut dst = None;
        if let T::L(n) = self.peek() {
            if self.peek_at(1) == T::P('=') {
                dst = Some(self.reg(&n));
                self.i += 2;
            }
        }
        let w = match self.next() {
            T::W(w) => w,
            t => return Err(format!("opcode {:?}", t)),
        };
        const FLAGS: [&str; 14] = ["nuw", "nsw", "exact", "disjoint", "inbounds", "nneg", "nusw", "samesign", "volatile", "nnan", "ninf", "nsz", "contract", "fast"];
        let bk = match w.as_str() {
            "add" => Some(BinK::Add),
            "sub" => Some(BinK::Sub),
            "mul" => Some(BinK::Mul),
            "udiv" => Some(BinK::UDiv),
            "sdiv" => Some(BinK::SDiv),
            "urem" => Some(BinK::URem),
            "srem" => Some(BinK::SRem),
            "shl" => Some(BinK::Shl),
            "lshr" => Some(BinK::LShr),
            "ashr" => Some(BinK::AShr),
            "and" => Some(BinK::And),
            "or" => Some(BinK::Or),
            "xor" => Some(BinK::Xor),
            _ => None,
        };
        let ins = if let Some(k) = bk {
            self.words(&FLAGS);
            let (t, a) = self.tv()?;
            self.exp_p(',')?;
            let b = self.val(&t)?;
            Ins::Bin(k, a, b)
        } else {
            match w.as_str() {
                "icmp" => {
                    self.words(&FLAGS);
                    let p = match self.next() {
                        T::W(w) => match w.as_str() {
                            "eq" => Pred::Eq,
                            "ne" => Pred::Ne,
                            "ugt" => Pred::Ugt,
                            "uge" => Pred::Uge,
                            "ult" => Pred::Ult,
                            "ule" => Pred::Ule,
                            "sgt" => Pred::Sgt,
                            "sge" => Pred::Sge,
                            "slt" => Pred::Slt,
                            "sle" => Pred::Sle,
                            _ => return Err(format!("pred {}", w)),
                        },
                        t => return Err(format!("pred {:?}", t)),
                    };
                    let (t, a) = self.tv()?;
                    self.exp_p(',')?;
                    let b = self.val(&t)?;
                    Ins::ICmp(p, a, b)
                }
                "select" => {
                    self.words(&FLAGS);
                    let (_, c) = self.tv()?;
                    self.exp_p(',')?;
                    let (_, a) = self.tv()?;
                    self.exp_p(',')?;
                    let (_, b) = self.tv()?;
                    Ins::Select(c, a, b)
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                    self.words(&FLAGS);
                    let (ft, a) = self.tv()?;
                    self.exp_w("to")?;
                    let tt = self.ty()?;
                    let k = match w.as_str() {
                        "trunc" => CastK::Trunc,
                        "zext" => CastK::ZExt,
                        "sext" => CastK::SExt,
                        "ptrtoint" | "ptrtoaddr" => CastK::PtrToInt,
                        "inttoptr" => CastK::IntToPtr,
                        _ => CastK::Bitcast,
                    };
                    Ins::Cast(k, ft, a, tt)
                }
                "load" => {
                    self.words(&["atomic", "volatile"]);
                    let t = self.ty()?;
                    self.exp_p(',')?;
                    let (_, p) = self.tv()?;
                    Ins::Load(t, p)
                }
                "store" => {
                    self.words(&["atomic", "volatile"]);
                    let (t, v) = self.tv()?;
                    self.exp_p(',')?;
                    let (_, p) = self.tv()?;
                    Ins::Store(t, v, p)
                }
                "getelementptr" => {
                    self.words(&FLAGS);
                    let st = self.ty()?;
                    self.exp_p(',')?;
                    let (b, o, d) = self.gep_tail(&st, None)?;
                    Ins::Gep(b, o, d)
                }
                "alloca" => {
                    let t = self.ty()?;
                    let mut n = 1u64;
                    let mut align = t.align();
                    while self.eat_p(',') {
                        if self.eat_w("align") {
                            align = self.num()? as u64;
                        } else if matches!(self.peek(), T::M(_)) {
                            break;
                        } else {
                            let (_, v) = self.tv()?;
                            match v {
                                Op::Int(_, v) => n = v as u64,
                                _ => return Err("dynamic alloca".into()),
                            }
                        }
                    }
                    Ins::Alloca(t.size() * n, align)
                }
                "phi" => {
                    let t = self.ty()?;
                    let mut v = vec![];
                    loop {
                        self.exp_p('[')?;
                        let x = self.val(&t)?;
                        self.exp_p(',')?;
                        let b = match self.next() {
                            T::L(n) => self.blocks.get(&n).cloned().ok_or(format!("phi label {}", n))?,
                            t => return Err(format!("phi {:?}", t)),
                        };
                        self.exp_p(']')?;
                        v.push((x, b));
                        if self.is_p(',') && self.peek_at(1) == T::P('[') {
                            self.i += 1;
                        } else {
                            break;
                        }
                    }
                    Ins::Phi(v)
                }
                "tail" | "musttail" | "notail" => {
                    self.exp_w("call")?;
                    self.call(false)?
                }
                "call" => self.call(false)?,
                "invoke" => self.call(true)?,
                "extractvalue" => {
                    let (_, a) = self.tv()?;
                    let mut ix = vec![];
                    while self.is_p(',') && matches!(self.peek_at(1), T::N(_)) {
                        self.i += 1;
                        ix.push(self.num()? as u32);
                    }
                    Ins::ExtractValue(a, ix)
                }
                "insertvalue" => {
                    let (t, a) = self.tv()?;
                    self.exp_p(',')?;
                    let (_, b) = self.tv()?;
                    let mut ix = vec![];
                    while self.is_p(',') && matches!(self.peek_at(1), T::N(_)) {
                        self.i += 1;
                        ix.push(self.num()? as u32);
                    }
                    Ins::InsertValue(a, b, ix, t)
                }
                "extractelement" => {
                    let (_, a) = self.tv()?;
                    self.exp_p(',')?;
                    let (_, i) = self.tv()?;
                    Ins::ExtractElement(a, i)
                }
                "insertelement" => {
                    let (_, a) = self.tv()?;
                    self.exp_p(',')?;
                    let (_, v) = self.tv()?;
                    self.exp_p(',')?;
                    let (_, i) = self.tv()?;
                    Ins::InsertElement(a, v, i)
                }
                "shufflevector" => {
                    let (_, a) = self.tv()?;
                    self.exp_p(',')?;
                    let (_, b) = self.tv()?;
                    self.exp_p(',')?;
                    let (mt, m) = self.tv()?;
                    let mk = match m {
                        Op::Agg(v) => v
                            .iter()
                            .map(|o| match o {
                                Op::Int(_, v) => Some(*v as u32),
                                _ => None,
                            })
                            .collect(),
                        Op::Undef(_) => vec![None; mt.nfields()],
                        _ => return Err("shuffle mask".into()),
                    };
                    Ins::Shuffle(a, b, mk)
                }
                "atomicrmw" => {
                    self.words(&["volatile"]);
                    let k = match self.next() {
                        T::W(w) => w,
                        t => return Err(format!("rmw {:?}", t)),
                    };
                    let (_, p) = self.tv()?;
                    self.exp_p(',')?;
                    let (t, v) = self.tv()?;
                    Ins::AtomicRmw(k, p, v, t)
                }
                "cmpxchg" => {
                    self.words(&["weak", "volatile"]);
                    let (_, p) = self.tv()?;
                    self.exp_p(',')?;
                    let (t, c) = self.tv()?;
                    self.exp_p(',')?;
                    let (_, n) = self.tv()?;
                    Ins::CmpXchg(p, c, n, t)
                }
                "fence" => Ins::Fence,
                "freeze" => {
                    let (_, a) = self.tv()?;
                    Ins::Freeze(a)
                }
                "br" => {
                    if self.is_w("label") {
                        Ins::Br(self.label()?)
                    } else {
                        let (_, c) = self.tv()?;
                        self.exp_p(',')?;
                        let a = self.label()?;
                        self.exp_p(',')?;
                        let b = self.label()?;
                        Ins::CondBr(c, a, b)
                    }
                }
                "switch" => {
                    let (t, v) = self.tv()?;
                    self.exp_p(',')?;
                    let d = self.label()?;
                    self.exp_p('[')?;
                    let mut c = vec![];
                    loop {
                        self.skip_nl();
                        if self.eat_p(']') {
                            break;
                        }
                        let (_, k) = self.tv()?;
                        self.exp_p(',')?;
                        let l = self.label()?;
                        match k {
                            Op::Int(_, k) => c.push((k, l)),
                            _ => return Err("switch case".into()),
                        }
                    }
                    let _ = t;
                    Ins::Switch(v, d, c)
                }
                "ret" => {
                    if self.is_w("void") {
                        self.i += 1;
                        Ins::Ret(None)
                    } else {
                        let (_, v) = self.tv()?;
                        Ins::Ret(Some(v))
                    }
                }
                "unreachable" => Ins::Unreachable,
                "landingpad" => {
                    // clauses may follow on their own lines
                    loop {
                        self.skip_line();
                        let save = self.i;
                        self.skip_nl();
                        if self.is_w("cleanup") || self.is_w("catch") || self.is_w("filter") {
                            continue;
                        }
                        self.i = save;
                        break;
                    }
                    Ins::LandingPad
                }
                "resume" => Ins::Resume,
                other => Ins::Unsupported(other.to_string()),
            }
        };
        let dbg = self.skip_line();
        Ok(Instr { dst, ins, dbg })
    }
}

fn const_bytes(o: &Op, t: &Ty, out: &mut [u8]) {
    match (o, t) {
        (Op::Undef(_), _) => {}
        (Op::Int(_, v), _) => {
            for i in 0..(t.store_size() as usize) {
                out[i] = if i < 16 { (v >> (8 * i)) as u8 } else { 0 };
            }
        }
        (Op::Agg(v), _) => {
            for (i, x) in v.iter().enumerate() {
                let (off, ft) = t.field(i);
                const_bytes(x, &ft, &mut out[off as usize..]);
            }
        }
        _ => panic!("const bytes"),
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read(path).map_err(|e| e.to_string())?;
        let text = String::from_utf8_lossy(&text).to_string();
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            funcs: HashMap::new(),
            bodies: HashMap::new(),
            lines: vec![],
            faddr: HashMap::new(),
            addrf: HashMap::new(),
            globals: vec![],
            gaddr: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
            meta: HashMap::new(),
        };
        let mut next_f = 0x0010_0000u64;
        let mut glines = vec![];
        let mut i = 0;
        // pass 1: types, functions, metadata
        let mut tlines = vec![];
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with('%') {
                tlines.push(i);
            } else if l.starts_with('@') {
                glines.push(i);
            } else if l.starts_with("define ") || l.starts_with("declare ") {
                let mut t = vec![];
                lex(l, &mut t);
                let name = t
                    .iter()
                    .find_map(|x| match x {
                        T::G(n) => Some(n.clone()),
                        _ => None,
                    })
                    .ok_or("function name")?;
                m.faddr.insert(name.clone(), next_f);
                m.addrf.insert(next_f, name.clone());
                next_f += 16;
                if l.starts_with("define ") {
                    let start = i + 1;
                    let mut j = start;
                    while lines[j] != "}" {
                        j += 1;
                    }
                    m.bodies.insert(name, (i, start, j));
                    i = j;
                }
            } else if l.starts_with('!') {
                if let Some(p) = l.find(" = ") {
                    if let Ok(n) = l[1..p].parse::<u32>() {
                        m.meta.insert(n, l[p + 3..].to_string());
                    }
                }
            }
            i += 1;
        }
        // named types may be forward-referencing: iterate
        for _ in 0..4 {
            for &k in &tlines {
                let mut p = P::new(&m);
                let mut t = vec![];
                lex(&lines[k], &mut t);
                p.t = t;
                let n = match p.next() {
                    T::L(n) => n,
                    _ => continue,
                };
                p.i += 2; // = type
                if let Ok(ty) = p.ty() {
                    m.types.insert(n, ty);
                }
            }
        }
        // pass 2: global addresses
        let mut next_g = 0x0100_0000u64;
        let mut pend: Vec<(usize, usize, Ty, Vec<T>)> = vec![];
        for &k in &glines {
            let mut t = vec![];
            lex(&lines[k], &mut t);
            let name = match &t[0] {
                T::G(n) => n.clone(),
                _ => continue,
            };
            let mut p = P::new(&m);
            p.t = t;
            p.i = 2;
            // skip linkage etc. up to global/constant/alias
            let mut kind = String::new();
            let mut external = false;
            while p.i < p.t.len() {
                match p.next() {
                    T::W(w) => {
                        if w == "external" || w == "extern_weak" {
                            external = true;
                        }
                        if w == "global" || w == "constant" || w == "alias" || w == "ifunc" {
                            kind = w;
                            break;
                        }
                        if p.is_p('(') {
                            p.skip_paren();
                        }
                    }
                    _ => {}
                }
            }
            if kind == "alias" {
                let tgt = p.t[p.i..]
                    .iter()
                    .find_map(|x| match x {
                        T::G(n) => Some(n.clone()),
                        _ => None,
                    })
                    .ok_or("alias")?;
                m.aliases.insert(name, tgt);
                continue;
            }
            let ty = p.ty()?;
            let (pi, pt) = (p.i, p.t);
            let size = ty.size();
            let mut align = ty.align().max(16);
            for (q, x) in pt.iter().enumerate() {
                if *x == T::W("align".into()) {
                    if let Some(T::N(n)) = pt.get(q + 1) {
                        align = align.max(n.parse().unwrap_or(1));
                    }
                }
            }
            next_g = (next_g + align - 1) / align * align;
            let addr = next_g;
            next_g += size.max(1) + 32;
            m.gaddr.insert(name.clone(), addr);
            let gi = m.globals.len();
            m.globals.push(Global { name, addr, size, constant: kind == "constant", init: vec![0; size as usize], defined: !external });
            if !external {
                pend.push((gi, pi, ty, pt));
            }
        }
        // pass 3: initialisers
        let mut inits = vec![];
        for (gi, pi, ty, pt) in pend {
            let mut p = P::new(&m);
            p.t = pt;
            p.i = pi;
            let v = p.val(&ty).map_err(|e| format!("global {}: {}", m.globals[gi].name, e))?;
            let mut b = vec![0u8; ty.size() as usize];
            const_bytes(&v, &ty, &mut b);
            inits.push((gi, b));
        }
        for (gi, b) in inits {
            m.globals[gi].init = b;
        }
        m.lines = lines;
        Ok(m)
    }
    /// parse a function body on demand
    pub fn func(&mut self, name: &str) -> R<Option<Rc<Func>>> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(Some(f.clone()));
        }
        let (h, s, e) = match self.bodies.get(name) {
            Some(x) => *x,
            None => return Ok(None),
        };
        let f = self.parse_func(name, h, s, e).map_err(|x| format!("in {}: {}", name, x))?;
        let f = Rc::new(f);
        self.funcs.insert(name.to_string(), f.clone());
        Ok(Some(f))
    }
    fn parse_func(&self, name: &str, h: usize, s: usize, e: usize) -> R<Func> {
        let mut p = P::new(self);
        lex(&self.lines[h], &mut p.t);
        // locate the name, then the parameters
        while !matches!(p.peek(), T::G(_)) {
            p.i += 1;
        }
        p.i += 1;
        p.exp_p('(')?;
        let mut nparams = 0;
        let mut auto = 0u32;
        if !p.eat_p(')') {
            loop {
                if p.peek() == T::Ellipsis {
                    p.i += 1;
                } else {
                    p.ty()?;
                    p.attrs();
                    if let T::L(n) = p.peek() {
                        p.i += 1;
                        p.reg(&n);
                    } else {
                        p.reg(&auto.to_string());
                    }
                    auto += 1;
                    nparams += 1;
                }
                if p.eat_p(')') {
                    break;
                }
                p.exp_p(',')?;
            }
        }
        let mut fdbg = 0;
        for k in p.i..p.t.len() {
            if p.t[k] == T::M("dbg".into()) {
                if let Some(T::M(n)) = p.t.get(k + 1) {
                    fdbg = n.parse().unwrap_or(0);
                }
            }
        }
        // block labels
        let mut toks = vec![];
        let mut cur: Vec<(usize, usize)> = vec![];
        let mut nblocks = 0u32;
        let mut started = false;
        for k in s..e {
            let l = &self.lines[k];
            let tl = l.trim_end();
            if tl.is_empty() {
                continue;
            }
            if !l.starts_with(' ') && !l.starts_with('\t') {
                // label
                let colon = if l.starts_with('"') {
                    let q = l[1..].find('"').unwrap() + 1;
                    q + 1
                } else {
                    l.find(':').ok_or(format!("label line {}", l))?
                };
                let n = l[..colon].trim_matches('"').to_string();
                p.blocks.insert(n, nblocks);
                nblocks += 1;
                started = true;
                cur.push((toks.len(), usize::MAX));
                continue;
            }
            if !started {
                p.blocks.insert(auto.to_string(), 0);
                nblocks = 1;
                started = true;
                cur.push((0, usize::MAX));
            }
            let tt = tl.trim_start();
            if tt.starts_with("#dbg_") {
                continue;
            }
            lex(l, &mut toks);
            toks.push(T::NL);
        }
        p.t = toks;
        p.i = 0;
        let mut blocks = vec![];
        for (bi, &(st, _)) in cur.iter().enumerate() {
            let en = if bi + 1 < cur.len() { cur[bi + 1].0 } else { p.t.len() };
            p.i = st;
            let mut v = vec![];
            loop {
                p.skip_nl();
                if p.i >= en {
                    break;
                }
                let at = p.i;
                match p.instr() {
                    Ok(i) => v.push(i),
                    Err(e) => {
                        // keep going: only an executed unsupported instruction matters
                        p.i = at;
                        let mut txt = String::new();
                        let mut k = at;
                        while k < p.t.len() && p.t[k] != T::NL && txt.len() < 200 {
                            txt.push_str(&format!("{:?} ", p.t[k]));
                            k += 1;
                        }
                        p.i = at;
                        let dst = match (p.peek(), p.peek_at(1)) {
                            (T::L(n), T::P('=')) => Some(p.reg(&n)),
                            _ => None,
                        };
                        p.skip_line();
                        v.push(Instr { dst, ins: Ins::Unsupported(format!("{} :: {}", e, txt)), dbg: 0 });
                    }
                }
            }
            blocks.push(v);
        }
        Ok(Func { name: name.to_string(), nparams, nregs: p.regs.len(), blocks, dbg: fdbg })
    }
}

// ---- debug locations (evidence and messages only) ------------------------------------------
fn meta_field(s: &str, k: &str) -> Option<String> {
    let pat = format!("{}: ", k);
    let mut from = 0;
    loop {
        let p = s[from..].find(&pat)? + from;
        let before = s[..p].chars().last();
        if matches!(before, Some('(') | Some(' ')) {
            let rest = &s[p + pat.len()..];
            if let Some(r) = rest.strip_prefix('"') {
                return Some(r[..r.find('"')?].to_string());
            }
            let e = rest.find(|c| c == ',' || c == ')').unwrap_or(rest.len());
            return Some(rest[..e].to_string());
        }
        from = p + 1;
    }
}

impl Module {
    fn mref(&self, s: &str, k: &str) -> Option<u32> {
        meta_field(s, k)?.strip_prefix('!')?.parse().ok()
    }
    /// (file, function, line) chain of a !dbg location, innermost first
    pub fn loc_chain(&self, id: u32) -> Vec<(String, String, u32)> {
        let mut r = vec![];
        let mut cur = Some(id);
        while let Some(i) = cur {
            let s = match self.meta.get(&i) {
                Some(s) => s,
                None => break,
            };
            let line = meta_field(s, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            let mut scope = self.mref(s, "scope");
            let mut fname = String::new();
            let mut file = String::new();
            for _ in 0..20 {
                let sc = match scope.and_then(|x| self.meta.get(&x)) {
                    Some(x) => x,
                    None => break,
                };
                if file.is_empty() {
                    if let Some(f) = self.mref(sc, "file").and_then(|x| self.meta.get(&x)) {
                        let d = meta_field(f, "directory").unwrap_or_default();
                        let n = meta_field(f, "filename").unwrap_or_default();
                        file = if n.starts_with('/') || d.is_empty() { n } else { format!("{}/{}", d, n) };
                    }
                }
                if sc.contains("DISubprogram") {
                    fname = meta_field(sc, "linkageName").or(meta_field(sc, "name")).unwrap_or_default();
                    break;
                }
                scope = self.mref(sc, "scope");
            }
            r.push((file, fname, line));
            cur = self.mref(s, "inlinedAt");
        }
        r
    }
    pub fn loc(&self, id: u32) -> String {
        if id == 0 {
            return String::new();
        }
        self.loc_chain(id).iter().map(|(f, _, l)| format!("{}:{}", f, l)).collect::<Vec<_>>().join(" < ")
    }
}
