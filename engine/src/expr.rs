//! Hash-consed bit-vector expressions (width 1..=128) with local simplification.

use std::rc::Rc;

pub type Ref = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,  // a = high, b = low
    Extract, // aux = low bit
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Ref,
    pub b: Ref,
    pub c: Ref,
    pub k: u128, // constant value / var id / extract low bit
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Ref>,
    pub nvars: u32,
    pub var_w: Vec<u16>,
    vars_of: HashMap<Ref, Rc<Vec<u32>>>,
    extracts: HashMap<(Ref, u16, u16), Ref>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub fn eval_bin(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext(a, w);
            let n = if b >= w as u128 { w as u128 - 1 } else { b };
            ((s >> n) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

impl Exprs {
    pub fn new() -> Self {
        let mut e = Exprs {
            nodes: vec![],
            map: HashMap::default(),
            nvars: 0,
            var_w: vec![],
            vars_of: HashMap::default(), extracts: HashMap::default(),
        };
        // index 0 is reserved (0 means "concrete" in memory overlays)
        e.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
        e
    }
    fn mk(&mut self, n: Node) -> Ref {
        if let Some(r) = self.map.get(&n) {
            return *r;
        }
        let r = self.nodes.len() as Ref;
        self.nodes.push(n);
        self.map.insert(n, r);
        r
    }
    pub fn w(&self, r: Ref) -> u16 {
        self.nodes[r as usize].w
    }
    pub fn cst(&mut self, w: u16, k: u128) -> Ref {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn as_const(&self, r: Ref) -> Option<u128> {
        let n = &self.nodes[r as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn new_var(&mut self, w: u16) -> (Ref, u32) {
        let id = self.nvars;
        self.nvars += 1;
        self.var_w.push(w);
        let r = self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 });
        (r, id)
    }
    pub fn tru(&mut self) -> Ref {
        self.cst(1, 1)
    }
    pub fn not(&mut self, a: Ref) -> Ref {
        // only for width 1
        let n = self.nodes[a as usize];
        match n.op {
            Op::Ult => {
                // !(a<b) = b<=a
                return self.bin(Op::Ule, n.b, n.a);
            }
            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
            _ => {}
        }
        let one = self.cst(n.w, mask(n.w));
        self.bin(Op::Xor, a, one)
    }
    pub fn bin(&mut self, op: Op, a: Ref, b: Ref) -> Ref {
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        let w = na.w;
        debug_assert_eq!(na.w, nb.w, "{:?} {:?} {:?}", op, na, nb);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let ca = if na.op == Op::Const { Some(na.k) } else { None };
        let cb = if nb.op == Op::Const { Some(nb.k) } else { None };
        if let (Some(x), Some(y)) = (ca, cb) {
            let k = eval_bin(op, w, x, y);
            return self.cst(rw, k);
        }
        // commutative: constant to the right
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
            }
            _ => {}
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if na.op == Op::Add {
                        if let Some(x) = self.as_const(na.b) {
                            let k = self.cst(w, x.wrapping_add(y));
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    let k = self.cst(w, 0u128.wrapping_sub(y));
                    return self.bin(Op::Add, a, k);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => {
                if let Some(y) = cb {
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.cst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, k);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(w, y - 1);
                        return self.bin(Op::And, a, k);
                    }
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    // contiguous low mask -> zext(extract)
                    if y.wrapping_add(1).is_power_of_two() {
                        let lw = (128 - y.leading_zeros()) as u16;
                        if lw > 0 && lw < w {
                            let ex = self.extract(a, 0, lw);
                            return self.zext(ex, w);
                        }
                    }
                    // one run of bits
                    let lo = y.trailing_zeros() as u16;
                    let run = (y >> lo).trailing_ones() as u16;
                    if y >> lo >> run == 0 && (w <= 8 || run == 1) {
                        let e = self.extract(a, lo, run);
                        let z = self.cst(lo, 0);
                        let t = self.concat(e, z);
                        return self.zext(t, w);
                    }
                    // mask on a low-zext operand: restrict
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let y2 = y & mask(iw);
                        let k = self.cst(iw, y2);
                        let t = self.bin(Op::And, na.a, k);
                        return self.zext(t, w);
                    }
                    if na.op == Op::And {
                        if let Some(x) = self.as_const(na.b) {
                            let k = self.cst(w, x & y);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    let lo = y.trailing_zeros() as u16;
                    let run = (y >> lo).trailing_ones() as u16;
                    if y >> lo >> run == 0 && w <= 8 && w > 1 {
                        let mut r = self.cst(run, mask(run));
                        if lo > 0 {
                            let l = self.extract(a, 0, lo);
                            r = self.concat(r, l);
                        }
                        if lo + run < w {
                            let h = self.extract(a, lo + run, w - lo - run);
                            r = self.concat(h, r);
                        }
                        return r;
                    }
                }
                // disjoint assembly of bytes: zext(x) | concat(y, 0..)
                if let Some(r) = self.try_or_concat(a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    if na.op == Op::Xor {
                        if let Some(x) = self.as_const(na.b) {
                            let k = self.cst(w, x ^ y);
                            return self.bin(Op::Xor, na.a, k);
                        }
                    }
                    if w == 1 && y == 1 {
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let y = y as u16;
                    let lo = self.extract(a, 0, w - y);
                    let z = self.cst(y, 0);
                    return self.concat(lo, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let y = y as u16;
                    let hi = self.extract(a, y, w - y);
                    return self.zext(hi, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let y = if y >= w as u128 { w - 1 } else { y as u16 };
                    let hi = self.extract(a, y, w - y);
                    return self.sext_to(hi, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if w == 1 {
                    if let Some(y) = cb {
                        return if y == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(y) = cb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if y > mask(iw) {
                                return self.cst(1, 0);
                            }
                            let k = self.cst(iw, y);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let lo = y & mask(iw);
                            if (sext(lo, iw) as u128) & m != y {
                                return self.cst(1, 0);
                            }
                            let k = self.cst(iw, lo);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let kl = self.cst(lw, y);
                            let kh = self.cst(hw, y >> lw);
                            let l = self.bin(Op::Eq, na.b, kl);
                            let h = self.bin(Op::Eq, na.a, kh);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Ite => {
                            let t = self.as_const(na.b);
                            let f = self.as_const(na.c);
                            if let (Some(t), Some(f)) = (t, f) {
                                if t == y && f == y {
                                    return self.cst(1, 1);
                                }
                                if t == y {
                                    return na.a;
                                }
                                if f == y {
                                    return self.not(na.a);
                                }
                                return self.cst(1, 0);
                            }
                        }
                        Op::Add => {
                            if let Some(x) = self.as_const(na.b) {
                                let k = self.cst(w, y.wrapping_sub(x));
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(x) = self.as_const(na.b) {
                                let k = self.cst(w, y ^ x);
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if a > b {
                        return self.bin(Op::Eq, b, a);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.cst(1, 0);
                }
                if cb == Some(0) {
                    return self.cst(1, 0);
                }
                if ca == Some(m) {
                    return self.cst(1, 0);
                }
                if cb == Some(1) {
                    let z = self.cst(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if let Some(y) = cb {
                        if y > mask(iw) {
                            return self.cst(1, 1);
                        }
                        let k = self.cst(iw, y);
                        return self.bin(Op::Ult, na.a, k);
                    }
                    if nb.op == Op::ZExt && self.w(nb.a) == iw {
                        return self.bin(Op::Ult, na.a, nb.a);
                    }
                }
                if nb.op == Op::ZExt {
                    let iw = self.w(nb.a);
                    if let Some(x) = ca {
                        if x >= mask(iw) {
                            return self.cst(1, 0);
                        }
                        let k = self.cst(iw, x);
                        return self.bin(Op::Ult, k, nb.a);
                    }
                }
            }
            Op::Ule => {
                if a == b {
                    return self.cst(1, 1);
                }
                if ca == Some(0) || cb == Some(m) {
                    return self.cst(1, 1);
                }
                if let Some(y) = cb {
                    let k = self.cst(w, y + 1);
                    return self.bin(Op::Ult, a, k);
                }
                if let Some(x) = ca {
                    let k = self.cst(w, x - 1);
                    return self.bin(Op::Ult, k, b);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.cst(1, 0);
                }
                if na.op == Op::ZExt {
                    if let Some(y) = cb {
                        if sext(y, w) <= 0 {
                            return self.cst(1, 0);
                        }
                        return self.bin(Op::Ult, a, b);
                    }
                }
                if nb.op == Op::ZExt {
                    if let Some(x) = ca {
                        if sext(x, w) < 0 {
                            return self.cst(1, 1);
                        }
                        return self.bin(Op::Ult, a, b);
                    }
                }
            }
            Op::Sle => {
                if a == b {
                    return self.cst(1, 1);
                }
                let r = self.bin(Op::Slt, b, a);
                if let Some(k) = self.as_const(r) {
                    return self.cst(1, k ^ 1);
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
    }

    /// number of low bits known to be zero, structurally
    fn low_zero(&self, r: Ref) -> u16 {
        let n = &self.nodes[r as usize];
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    n.w
                } else {
                    (n.k.trailing_zeros() as u16).min(n.w)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                let z = self.low_zero(n.b);
                if z == lw {
                    lw + self.low_zero(n.a)
                } else {
                    z
                }
            }
            Op::ZExt => {
                let z = self.low_zero(n.a);
                if z == self.w(n.a) {
                    n.w
                } else {
                    z
                }
            }
            _ => 0,
        }
    }
    /// number of low bits that may be non-zero (everything above is structurally zero)
    fn active(&self, r: Ref) -> u16 {
        let n = &self.nodes[r as usize];
        match n.op {
            Op::Const => (128 - n.k.leading_zeros()) as u16,
            Op::ZExt => self.active(n.a),
            Op::Concat => {
                let h = self.active(n.a);
                if h == 0 {
                    self.active(n.b)
                } else {
                    h + self.w(n.b)
                }
            }
            _ => n.w,
        }
    }
    fn try_or_concat(&mut self, a: Ref, b: Ref) -> Option<Ref> {
        let w = self.w(a);
        let (hi, lo) = {
            let (aa, ab) = (self.active(a), self.active(b));
            if self.low_zero(b) >= aa && aa > 0 && aa < w {
                (b, a)
            } else if self.low_zero(a) >= ab && ab > 0 && ab < w {
                (a, b)
            } else {
                return None;
            }
        };
        let cut = self.active(lo);
        let h = self.extract(hi, cut, w - cut);
        let l = self.extract(lo, 0, cut);
        Some(self.concat(h, l))
    }

    pub fn extract(&mut self, a: Ref, lo: u16, w: u16) -> Ref {
        let n = self.nodes[a as usize];
        debug_assert!(lo + w <= n.w);
        if lo == 0 && w == n.w {
            return a;
        }
        if matches!(n.op, Op::Ite | Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul) {
            if let Some(r) = self.extracts.get(&(a, lo, w)) {
                return *r;
            }
            let r = self.extract1(a, lo, w);
            self.extracts.insert((a, lo, w), r);
            return r;
        }
        self.extract1(a, lo, w)
    }
    fn extract1(&mut self, a: Ref, lo: u16, w: u16) -> Ref {
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.k as u16 + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Ite => {
                let (c, x, y) = (n.a, n.b, n.c);
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let x2 = self.extract(x, lo, w);
                    let y2 = self.extract(y, lo, w);
                    return self.ite(c, x2, y2);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x2 = self.extract(n.a, lo, w);
                let y2 = self.extract(n.b, lo, w);
                return self.bin(n.op, x2, y2);
            }
            Op::Add | Op::Sub | Op::Mul => {
                if lo == 0 {
                    let x2 = self.extract(n.a, 0, w);
                    let y2 = self.extract(n.b, 0, w);
                    return self.bin(n.op, x2, y2);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: Ref, lo: Ref) -> Ref {
        let nh = self.nodes[hi as usize];
        let nl = self.nodes[lo as usize];
        let w = nh.w + nl.w;
        assert!(w <= 128, "concat too wide");
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.cst(w, (nh.k << nl.w) | nl.k);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(lo, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // extract(x,0,..) may have been reduced to a narrower form; handle x itself being low part
        if nl.op == Op::Concat {
            let nlh = self.nodes[nl.a as usize];
            if nh.op == Op::Extract && nlh.op == Op::Extract && nh.a == nlh.a && nh.k == nlh.k + nlh.w as u128 {
                let h = self.extract(nh.a, nlh.k as u16, nh.w + nlh.w);
                return self.concat(h, nl.b);
            }
        }
        // pieces of one choice put together again
        if nh.op == Op::Ite {
            if nl.op == Op::Ite && nl.a == nh.a {
                let x = self.concat(nh.b, nl.b);
                let y = self.concat(nh.c, nl.c);
                return self.ite(nh.a, x, y);
            }
            if nl.op == Op::Concat {
                let m = self.nodes[nl.a as usize];
                if m.op == Op::Ite && m.a == nh.a {
                    let t = self.concat(hi, nl.a);
                    if self.nodes[t as usize].op == Op::Ite {
                        return self.concat(t, nl.b);
                    }
                }
            }
        }
        if nh.op == Op::ZExt {
            let inner = nh.a;
            let c = self.concat(inner, lo);
            return self.zext(c, w);
        }
        // right-assoc -> left normal form: (a . b) . c kept as a . (b . c)
        if nh.op == Op::Concat {
            let t = self.concat(nh.b, lo);
            return self.concat(nh.a, t);
        }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn zext(&mut self, a: Ref, w: u16) -> Ref {
        let n = self.nodes[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => return self.cst(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                    let x = self.zext(n.b, w);
                    let y = self.zext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext_to(&mut self, a: Ref, w: u16) -> Ref {
        let n = self.nodes[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => return self.cst(w, sext(n.k, n.w) as u128),
            Op::SExt => return self.sext_to(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: Ref, t: Ref, f: Ref) -> Ref {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { t } else { f };
        }
        if t == f {
            return t;
        }
        let w = self.w(t);
        if w == 1 {
            match (self.as_const(t), self.as_const(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, f);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, t);
                }
                _ => {}
            }
        }
        let nc = self.nodes[c as usize];
        // ite(not c, t, f) -> ite(c, f, t)
        if nc.op == Op::Xor && nc.w == 1 && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, f, t);
        }
        // two values that differ in one bit: that bit is the choice
        if w > 1 {
            if let (Some(x), Some(y)) = (self.as_const(t), self.as_const(f)) {
                let d = x ^ y;
                if d.is_power_of_two() {
                    return self.splice(d.trailing_zeros() as u16, c, t, f);
                }
            } else if w == 8 {
                let ok = |n: &Node| matches!(n.op, Op::Const | Op::Concat | Op::ZExt);
                let (nt, nf) = (self.nodes[t as usize], self.nodes[f as usize]);
                if ok(&nt) && ok(&nf) {
                    let mut diff = vec![];
                    for i in 0..8 {
                        if self.extract(t, i, 1) != self.extract(f, i, 1) {
                            diff.push(i);
                        }
                    }
                    if diff.len() == 1 {
                        return self.splice(diff[0], c, t, f);
                    }
                }
            }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: t, c: f, k: 0 })
    }

    /// ite(c, t, f) for values that differ in bit i only
    fn splice(&mut self, i: u16, c: Ref, t: Ref, f: Ref) -> Ref {
        let w = self.w(t);
        let (x, y) = (self.extract(t, i, 1), self.extract(f, i, 1));
        let mut r = self.ite(c, x, y);
        if i > 0 {
            let l = self.extract(t, 0, i);
            r = self.concat(r, l);
        }
        if i + 1 < w {
            let h = self.extract(t, i + 1, w - i - 1);
            r = self.concat(h, r);
        }
        r
    }
    pub fn vars(&mut self, r: Ref) -> Rc<Vec<u32>> {
        if let Some(v) = self.vars_of.get(&r) {
            return v.clone();
        }
        let n = self.nodes[r as usize];
        let out: Rc<Vec<u32>> = match n.op {
            Op::Const => Rc::new(vec![]),
            Op::Var => Rc::new(vec![n.k as u32]),
            Op::Extract | Op::ZExt | Op::SExt => self.vars(n.a),
            Op::Ite => {
                let a = self.vars(n.a);
                let b = self.vars(n.b);
                let c = self.vars(n.c);
                let ab = merge(&a, &b);
                let abc = merge(&ab, &c);
                Rc::new(abc)
            }
            _ => {
                let a = self.vars(n.a);
                let b = self.vars(n.b);
                if a == b || b.is_empty() {
                    a
                } else if a.is_empty() {
                    b
                } else {
                    Rc::new(merge(&a, &b))
                }
            }
        };
        self.vars_of.insert(r, out.clone());
        out
    }

    pub fn eval(&self, r: Ref, m: &HashMap<u32, u128>, memo: &mut HashMap<Ref, u128>) -> u128 {
        let n = &self.nodes[r as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return *m.get(&(n.k as u32)).unwrap_or(&0),
            _ => {}
        }
        if let Some(v) = memo.get(&r) {
            return *v;
        }
        let v = match n.op {
            Op::Extract => (self.eval(n.a, m, memo) >> (n.k as u32)) & mask(n.w),
            Op::ZExt => self.eval(n.a, m, memo),
            Op::SExt => (sext(self.eval(n.a, m, memo), self.w(n.a)) as u128) & mask(n.w),
            Op::Concat => {
                let h = self.eval(n.a, m, memo);
                let l = self.eval(n.b, m, memo);
                (h << self.w(n.b)) | l
            }
            Op::Ite => {
                if self.eval(n.a, m, memo) != 0 {
                    self.eval(n.b, m, memo)
                } else {
                    self.eval(n.c, m, memo)
                }
            }
            op => {
                let a = self.eval(n.a, m, memo);
                let b = self.eval(n.b, m, memo);
                eval_bin(op, self.w(n.a), a, b)
            }
        };
        memo.insert(r, v);
        v
    }
}

fn merge(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut o = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            o.push(a[i]);
            i += 1;
        } else if a[i] > b[j] {
            o.push(b[j]);
            j += 1;
        } else {
            o.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    o.extend_from_slice(&a[i..]);
    o.extend_from_slice(&b[j..]);
    o
}

/// a fast hasher for the small keys used everywhere
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type HashMap<K, V> = std::collections::HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;

impl Exprs {
    pub fn show(&self, r: Ref, depth: u32) -> String {
        let n = self.nodes[r as usize];
        match n.op {
            Op::Const => format!("{}", n.k),
            Op::Var => format!("v{}:{}", n.k, n.w),
            _ if depth == 0 => format!("e{}", r),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!("ite({}, {}, {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
