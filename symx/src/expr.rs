//! Hash-consed bit-vector expressions with local simplification and an evaluator.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Ex(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bop {
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat, // a = high part, b = low part
    Eq,     // width 1
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Sym(u32), // 8-bit variable
    Bin(Bop, Ex, Ex),
    Extract(Ex, u32), // low bit; width from the node
    ZExt(Ex),
    SExt(Ex),
    Ite(Ex, Ex, Ex),
}

pub struct Arena {
    pub nodes: Vec<(Node, u32)>,
    map: HashMap<(Node, u32), Ex>,
    vars: Vec<Option<Rc<Vec<u32>>>>,
}

thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena { nodes: Vec::new(), map: HashMap::new(), vars: Vec::new() });
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

fn intern(n: Node, w: u32) -> Ex {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(e) = a.map.get(&(n, w)) {
            return *e;
        }
        let e = Ex(a.nodes.len() as u32);
        a.nodes.push((n, w));
        a.vars.push(None);
        a.map.insert((n, w), e);
        e
    })
}

pub fn node(e: Ex) -> (Node, u32) {
    AR.with(|a| a.borrow().nodes[e.0 as usize])
}
pub fn width(e: Ex) -> u32 {
    AR.with(|a| a.borrow().nodes[e.0 as usize].1)
}
pub fn arena_len() -> usize {
    AR.with(|a| a.borrow().nodes.len())
}

pub fn cst(w: u32, v: u128) -> Ex {
    assert!(w <= 128, "constant wider than 128 bits");
    intern(Node::Const(v & mask(w)), w)
}
pub fn sym(id: u32) -> Ex {
    intern(Node::Sym(id), 8)
}
pub fn as_const(e: Ex) -> Option<u128> {
    match node(e).0 {
        Node::Const(v) => Some(v),
        _ => None,
    }
}

/// Constant folding of a binary operator on `w`-bit operands.
pub fn fold(op: Bop, w: u32, a: u128, b: u128, wb: u32) -> u128 {
    let m = mask(w);
    match op {
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
        Bop::Add => a.wrapping_add(b) & m,
        Bop::Sub => a.wrapping_sub(b) & m,
        Bop::Mul => a.wrapping_mul(b) & m,
        Bop::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Bop::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Bop::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Bop::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Bop::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Bop::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Bop::AShr => {
            let s = if b >= w as u128 { w as u128 - 1 } else { b };
            ((sext(a, w) >> s) as u128) & m
        }
        Bop::Concat => (a << wb) | b,
        Bop::Eq => (a == b) as u128,
        Bop::Ult => (a < b) as u128,
        Bop::Ule => (a <= b) as u128,
        Bop::Slt => (sext(a, w) < sext(b, w)) as u128,
        Bop::Sle => (sext(a, w) <= sext(b, w)) as u128,
    }
}

pub fn is_cmp(op: Bop) -> bool {
    matches!(op, Bop::Eq | Bop::Ult | Bop::Ule | Bop::Slt | Bop::Sle)
}

pub fn not(e: Ex) -> Ex {
    // boolean / bitwise not
    let w = width(e);
    bin(Bop::Xor, e, cst(w, mask(w)))
}

pub fn bin(op: Bop, a: Ex, b: Ex) -> Ex {
    let (na, wa) = node(a);
    let (nb, wb) = node(b);
    if op != Bop::Concat {
        assert_eq!(wa, wb, "width mismatch in {:?}", op);
    }
    let w = match op {
        Bop::Concat => wa + wb,
        _ if is_cmp(op) => 1,
        _ => wa,
    };
    if let (Node::Const(x), Node::Const(y)) = (na, nb) {
        if w <= 128 {
            return cst(w, fold(op, wa, x, y, wb));
        }
    }
    // canonical order for commutative operators: constant on the right
    let comm = matches!(op, Bop::And | Bop::Or | Bop::Xor | Bop::Add | Bop::Mul | Bop::Eq);
    if comm {
        let swap = match (na, nb) {
            (Node::Const(_), Node::Const(_)) => false,
            (Node::Const(_), _) => true,
            (_, Node::Const(_)) => false,
            _ => a.0 > b.0,
        };
        if swap {
            return bin(op, b, a);
        }
    }
    if wa > 128 {
        return match op {
            Bop::Eq if a == b => cst(1, 1),
            _ => intern(Node::Bin(op, a, b), w),
        };
    }
    let m = mask(wa);
    if let Node::Const(c) = nb {
        match op {
            Bop::And => {
                if c == 0 {
                    return b;
                }
                if c == m {
                    return a;
                }
                // low mask: zext(extract)
                let tz = c.trailing_ones();
                if c == mask(tz) && tz < wa {
                    return zext(extract(a, 0, tz), wa);
                }
                // contiguous mask anywhere
                let lo = c.trailing_zeros();
                let sh = c >> lo;
                let n = sh.trailing_ones();
                if sh == mask(n) {
                    let mid = extract(a, lo, n);
                    let r = bin(Bop::Concat, mid, cst(lo, 0));
                    return zext(r, wa);
                }
            }
            Bop::Or => {
                if c == 0 {
                    return a;
                }
                if c == m {
                    return b;
                }
            }
            Bop::Xor => {
                if c == 0 {
                    return a;
                }
                if c == m {
                    // double negation, negation of comparisons
                    if let Node::Bin(Bop::Xor, x, y) = na {
                        if as_const(y) == Some(m) {
                            return x;
                        }
                    }
                    if wa == 1 {
                        match na {
                            Node::Bin(Bop::Ult, x, y) => return bin(Bop::Ule, y, x),
                            Node::Bin(Bop::Ule, x, y) => return bin(Bop::Ult, y, x),
                            Node::Bin(Bop::Slt, x, y) => return bin(Bop::Sle, y, x),
                            Node::Bin(Bop::Sle, x, y) => return bin(Bop::Slt, y, x),
                            _ => {}
                        }
                    }
                }
            }
            Bop::Add | Bop::Sub => {
                if c == 0 {
                    return a;
                }
                if op == Bop::Sub {
                    return bin(Bop::Add, a, cst(wa, (!c).wrapping_add(1)));
                }
                if let Node::Bin(Bop::Add, x, y) = na {
                    if let Some(d) = as_const(y) {
                        return bin(Bop::Add, x, cst(wa, c.wrapping_add(d)));
                    }
                }
            }
            Bop::Mul => {
                if c == 0 {
                    return b;
                }
                if c == 1 {
                    return a;
                }
                if c.is_power_of_two() {
                    return bin(Bop::Shl, a, cst(wa, c.trailing_zeros() as u128));
                }
            }
            Bop::UDiv => {
                if c == 1 {
                    return a;
                }
                if c.is_power_of_two() {
                    return bin(Bop::LShr, a, cst(wa, c.trailing_zeros() as u128));
                }
            }
            Bop::URem => {
                if c.is_power_of_two() {
                    return bin(Bop::And, a, cst(wa, c - 1));
                }
            }
            Bop::Shl => {
                if c == 0 {
                    return a;
                }
                if c >= wa as u128 {
                    return cst(wa, 0);
                }
                let c = c as u32;
                return bin(Bop::Concat, extract(a, 0, wa - c), cst(c, 0));
            }
            Bop::LShr => {
                if c == 0 {
                    return a;
                }
                if c >= wa as u128 {
                    return cst(wa, 0);
                }
                let c = c as u32;
                return zext(extract(a, c, wa - c), wa);
            }
            Bop::AShr => {
                if c == 0 {
                    return a;
                }
            }
            Bop::Eq => {
                match na {
                    Node::ZExt(x) => {
                        let wx = width(x);
                        if c > mask(wx) {
                            return cst(1, 0);
                        }
                        return bin(Bop::Eq, x, cst(wx, c));
                    }
                    Node::Bin(Bop::Concat, h, l) => {
                        let (hw, lw) = (width(h), width(l));
                        let eh = bin(Bop::Eq, h, cst(hw, c >> lw));
                        let el = bin(Bop::Eq, l, cst(lw, c & mask(lw)));
                        return bin(Bop::And, eh, el);
                    }
                    Node::Bin(Bop::Xor, x, y) => {
                        if let Some(d) = as_const(y) {
                            return bin(Bop::Eq, x, cst(wa, c ^ d));
                        }
                    }
                    Node::Bin(Bop::Add, x, y) => {
                        if let Some(d) = as_const(y) {
                            return bin(Bop::Eq, x, cst(wa, c.wrapping_sub(d)));
                        }
                    }
                    Node::Ite(cc, x, y) => {
                        let (kx, ky) = (as_const(x), as_const(y));
                        if kx.is_some() || ky.is_some() {
                            return ite(cc, bin(Bop::Eq, x, b), bin(Bop::Eq, y, b));
                        }
                    }
                    _ => {}
                }
                if wa == 1 {
                    return if c == 1 { a } else { not(a) };
                }
            }
            Bop::Ult => {
                if c == 0 {
                    return cst(1, 0);
                }
                if c == 1 {
                    return bin(Bop::Eq, a, cst(wa, 0));
                }
                if let Node::ZExt(x) = na {
                    let wx = width(x);
                    if c > mask(wx) {
                        return cst(1, 1);
                    }
                    return bin(Bop::Ult, x, cst(wx, c));
                }
            }
            Bop::Ule => {
                if c == m {
                    return cst(1, 1);
                }
                if let Node::ZExt(x) = na {
                    let wx = width(x);
                    if c >= mask(wx) {
                        return cst(1, 1);
                    }
                    return bin(Bop::Ule, x, cst(wx, c));
                }
            }
            _ => {}
        }
    }
    if let Node::Const(c) = na {
        match op {
            Bop::Shl | Bop::LShr | Bop::UDiv | Bop::URem if c == 0 => return a,
            Bop::Ult => {
                if c == m {
                    return cst(1, 0);
                }
                if let Node::ZExt(x) = nb {
                    let wx = width(x);
                    if c >= mask(wx) {
                        return cst(1, 0);
                    }
                    return bin(Bop::Ult, cst(wx, c), x);
                }
            }
            Bop::Ule => {
                if c == 0 {
                    return cst(1, 1);
                }
                if let Node::ZExt(x) = nb {
                    let wx = width(x);
                    if c > mask(wx) {
                        return cst(1, 0);
                    }
                    return bin(Bop::Ule, cst(wx, c), x);
                }
            }
            _ => {}
        }
    }
    if a == b {
        match op {
            Bop::And | Bop::Or => return a,
            Bop::Xor | Bop::Sub => return cst(wa, 0),
            Bop::Eq | Bop::Ule | Bop::Sle => return cst(1, 1),
            Bop::Ult | Bop::Slt => return cst(1, 0),
            _ => {}
        }
    }
    // (a ^ b) ^ b = a
    if op == Bop::Xor {
        if let Node::Bin(Bop::Xor, x, y) = na {
            if x == b {
                return y;
            }
            if y == b {
                return x;
            }
            if let (Some(p), Some(q)) = (as_const(y), as_const(b)) {
                return bin(Bop::Xor, x, cst(wa, p ^ q));
            }
        }
        if let Node::Bin(Bop::Xor, x, y) = nb {
            if x == a {
                return y;
            }
            if y == a {
                return x;
            }
        }
    }
    // bit-parallel operators distribute over concat / zext so byte assembly collapses
    if matches!(op, Bop::Or | Bop::Xor | Bop::Add) {
        if let Some(r) = merge_disjoint(a, b, na, nb, wa) {
            return r;
        }
    }
    if op == Bop::Eq && wa > 1 {
        if let (Node::ZExt(x), Node::ZExt(y)) = (na, nb) {
            if width(x) == width(y) {
                return bin(Bop::Eq, x, y);
            }
        }
        if let (Node::Bin(Bop::Concat, h1, l1), Node::Bin(Bop::Concat, h2, l2)) = (na, nb) {
            if width(l1) == width(l2) {
                return bin(Bop::And, bin(Bop::Eq, h1, h2), bin(Bop::Eq, l1, l2));
            }
        }
    }
    if op == Bop::Concat {
        // adjacent extracts of the same value merge
        if let (Node::Extract(x, lo1), Node::Extract(y, lo2)) = (na, nb) {
            if x == y && lo2 + wb == lo1 {
                return extract(x, lo2, wa + wb);
            }
        }
        if let Node::Const(0) = na {
            return zext(b, w);
        }
        if let (Node::Extract(x, lo1), Node::Bin(Bop::Concat, h, l)) = (na, nb) {
            // (x[..] ++ (x[..] ++ l))
            if let (Node::Extract(y, lo2), wh) = node(h) {
                if x == y && lo2 + wh == lo1 {
                    return bin(Bop::Concat, extract(x, lo2, wa + wh), l);
                }
            }
        }
        if let (Node::Const(c), Node::Bin(Bop::Concat, h, l)) = (na, nb) {
            if let (Node::Const(d), wh) = node(h) {
                if wa + wh <= 128 {
                    return bin(Bop::Concat, cst(wa + wh, (c << wh) | d), l);
                }
            }
        }
        // right-associate
        if let Node::Bin(Bop::Concat, h, l) = na {
            return bin(Bop::Concat, h, bin(Bop::Concat, l, b));
        }
        if let Node::ZExt(x) = na {
            let wx = width(x);
            return bin(Bop::Concat, cst(wa - wx, 0), bin(Bop::Concat, x, b));
        }
        // low parts already the low bits of a wider value: x[hi] ++ (whole y) where y = extract
    }
    intern(Node::Bin(op, a, b), w)
}

/// a | b (or ^, +) where the set bits cannot overlap: rebuild as a concatenation.
fn merge_disjoint(a: Ex, b: Ex, na: Node, nb: Node, w: u32) -> Option<Ex> {
    // number of known-zero low bits of one >= number of possibly non-zero low bits of the other
    let hi_zero = |n: Node| -> Option<u32> {
        // returns the position above which the value is known zero
        match n {
            Node::ZExt(x) => Some(width(x)),
            Node::Const(c) => Some(128 - c.leading_zeros()),
            _ => None,
        }
    };
    fn lo_zero_rec(n: Node, w: u32) -> u32 {
        match n {
            Node::Bin(Bop::Concat, h, l) => {
                let (nl, wl) = node(l);
                let z = lo_zero_rec(nl, wl);
                if z == wl {
                    let (nh, wh) = node(h);
                    wl + lo_zero_rec(nh, wh)
                } else {
                    z
                }
            }
            Node::ZExt(x) => {
                let (nx, wx) = node(x);
                let z = lo_zero_rec(nx, wx);
                if z == wx {
                    w
                } else {
                    z
                }
            }
            Node::Const(c) => {
                if c == 0 {
                    w
                } else {
                    c.trailing_zeros()
                }
            }
            _ => 0,
        }
    }
    let lo_zero = |n: Node| -> u32 { lo_zero_rec(n, w) };
    for (x, y, nx, ny) in [(a, b, na, nb), (b, a, nb, na)] {
        if let Some(h) = hi_zero(nx) {
            let l = lo_zero(ny);
            if h > 0 && l >= h && l < w {
                return Some(bin(Bop::Concat, extract(y, l, w - l), extract(x, 0, l)));
            }
        }
    }
    None
}

pub fn extract(e: Ex, lo: u32, w: u32) -> Ex {
    let (n, we) = node(e);
    assert!(lo + w <= we && w > 0, "extract {}+{} of {}", lo, w, we);
    if w == we {
        return e;
    }
    match n {
        Node::Const(c) => return cst(w, c >> lo),
        Node::Extract(x, l2) => return extract(x, lo + l2, w),
        Node::ZExt(x) => {
            let wx = width(x);
            if lo >= wx {
                return cst(w, 0);
            }
            if lo + w <= wx {
                return extract(x, lo, w);
            }
            return zext(extract(x, lo, wx - lo), w);
        }
        Node::SExt(x) => {
            let wx = width(x);
            if lo + w <= wx {
                return extract(x, lo, w);
            }
        }
        Node::Bin(Bop::Concat, h, l) => {
            let wl = width(l);
            if lo >= wl {
                return extract(h, lo - wl, w);
            }
            if lo + w <= wl {
                return extract(l, lo, w);
            }
            return bin(Bop::Concat, extract(h, 0, lo + w - wl), extract(l, lo, wl - lo));
        }
        Node::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), x, y) => {
            return bin(op, extract(x, lo, w), extract(y, lo, w));
        }
        Node::Bin(op @ (Bop::Add | Bop::Sub | Bop::Mul), x, y) if lo == 0 => {
            return bin(op, extract(x, 0, w), extract(y, 0, w));
        }
        Node::Ite(c, x, y) => {
            return ite(c, extract(x, lo, w), extract(y, lo, w));
        }
        _ => {}
    }
    intern(Node::Extract(e, lo), w)
}

pub fn zext(e: Ex, w: u32) -> Ex {
    let (n, we) = node(e);
    assert!(w >= we);
    if w == we {
        return e;
    }
    match n {
        Node::Const(c) if w <= 128 => return cst(w, c),
        Node::ZExt(x) => return zext(x, w),
        Node::Bin(Bop::Concat, h, l) => {
            if let (Node::Const(0), _) = node(h) {
                return zext(l, w);
            }
        }
        Node::Ite(c, x, y) if w <= 128 => {
            if as_const(x).is_some() && as_const(y).is_some() {
                return ite(c, zext(x, w), zext(y, w));
            }
        }
        _ => {}
    }
    intern(Node::ZExt(e), w)
}

pub fn sext_e(e: Ex, w: u32) -> Ex {
    let (n, we) = node(e);
    if w == we {
        return e;
    }
    match n {
        Node::Const(c) if w <= 128 => return cst(w, sext(c, we) as u128),
        Node::ZExt(x) => return zext(x, w),
        _ => {}
    }
    intern(Node::SExt(e), w)
}

pub fn ite(c: Ex, a: Ex, b: Ex) -> Ex {
    if let Some(v) = as_const(c) {
        return if v == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = width(a);
    assert_eq!(w, width(b));
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Bop::Or, c, b),
            (Some(0), None) => return bin(Bop::And, not(c), b),
            (None, Some(0)) => return bin(Bop::And, c, a),
            (None, Some(1)) => return bin(Bop::Or, not(c), a),
            _ => {}
        }
    }
    if let Node::Bin(Bop::Xor, x, y) = node(c).0 {
        if as_const(y) == Some(1) {
            return ite(x, b, a);
        }
    }
    intern(Node::Ite(c, a, b), w)
}

/// Variables (symbol ids) an expression depends on, sorted.
pub fn vars(e: Ex) -> Rc<Vec<u32>> {
    if let Some(v) = AR.with(|a| a.borrow().vars[e.0 as usize].clone()) {
        return v;
    }
    let r: Rc<Vec<u32>> = match node(e).0 {
        Node::Const(_) => Rc::new(vec![]),
        Node::Sym(i) => Rc::new(vec![i]),
        Node::Extract(x, _) | Node::ZExt(x) | Node::SExt(x) => vars(x),
        Node::Bin(_, x, y) => merge(&vars(x), &vars(y)),
        Node::Ite(c, x, y) => merge(&vars(c), &merge(&vars(x), &vars(y))),
    };
    AR.with(|a| a.borrow_mut().vars[e.0 as usize] = Some(r.clone()));
    r
}
fn merge(a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if a.is_empty() {
        return b.clone();
    }
    if b.is_empty() || a == b {
        return a.clone();
    }
    let mut v: Vec<u32> = a.iter().chain(b.iter()).cloned().collect();
    v.sort();
    v.dedup();
    Rc::new(v)
}

/// Evaluate under a byte assignment (missing symbols are 0).
pub fn eval(e: Ex, m: &dyn Fn(u32) -> u8, memo: &mut HashMap<Ex, u128>) -> u128 {
    let (n, w) = node(e);
    match n {
        Node::Const(c) => return c,
        Node::Sym(i) => return m(i) as u128,
        _ => {}
    }
    if let Some(v) = memo.get(&e) {
        return *v;
    }
    if w > 128 {
        panic!("eval of a value wider than 128 bits");
    }
    let r = match n {
        Node::Extract(x, lo) => {
            if width(x) > 128 {
                eval_wide_extract(x, lo, w, m, memo)
            } else {
                (eval(x, m, memo) >> lo) & mask(w)
            }
        }
        Node::ZExt(x) => eval(x, m, memo),
        Node::SExt(x) => (sext(eval(x, m, memo), width(x)) as u128) & mask(w),
        Node::Ite(c, x, y) => {
            if eval(c, m, memo) == 1 {
                eval(x, m, memo)
            } else {
                eval(y, m, memo)
            }
        }
        Node::Bin(op, x, y) => {
            let wx = width(x);
            if wx > 128 {
                // only Eq can reach here with wide operands
                let mut ok = true;
                let mut lo = 0;
                while lo < wx {
                    let n = (wx - lo).min(64);
                    if eval(extract(x, lo, n), m, memo) != eval(extract(y, lo, n), m, memo) {
                        ok = false;
                    }
                    lo += n;
                }
                assert!(op == Bop::Eq);
                ok as u128
            } else {
                fold(op, wx, eval(x, m, memo), eval(y, m, memo), width(y))
            }
        }
        _ => unreachable!(),
    };
    memo.insert(e, r);
    r
}
fn eval_wide_extract(x: Ex, lo: u32, w: u32, m: &dyn Fn(u32) -> u8, memo: &mut HashMap<Ex, u128>) -> u128 {
    // push the extraction through one level
    match node(x).0 {
        Node::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), a, b) => {
            let p = eval(extract(a, lo, w), m, memo);
            let q = eval(extract(b, lo, w), m, memo);
            fold(op, w, p, q, w)
        }
        n => panic!("wide extract of {:?}", n),
    }
}
