//! Hash-consed bit-vector expressions with a simplifying builder and a native evaluator.

use std::collections::HashMap;

pub type X = u32; // expression reference

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,  // a = high, b = low
    Extract, // imm = low bit, width = result width
    ZExt,
    SExt,
    Ite,
    Lut, // a = index (any width), imm = table id
    // floating point; operands and results are the IEEE bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FLt,
    FLe,
    FEq,
    FNan,   // is-nan, width 1
    FToUi,  // saturating, nan -> 0
    FToSi,
    UiToF,
    SiToF,
    FExt,   // f32 -> f64
    FTrunc, // f64 -> f32
    FFloor,
    FCeil,
    FTruncI, // round toward zero
    FRoundEven,
    FRoundAway,
    FSqrt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: X,
    pub b: X,
    pub c: X,
    pub imm: u128,
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>, // set of variables each node depends on
    um: Vec<u128>,       // cheap unsigned upper bound
    map: HashMap<Node, X, BuildFx>,
    pub luts: Vec<Vec<u128>>,
    lut_map: HashMap<Vec<u128>, u32>,
    tables: HashMap<X, [u64; 4], BuildFx>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        if (i >> 64) != 0 {
            self.write_u64((i >> 64) as u64)
        }
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

/// Concrete semantics of the binary operators.
pub fn bin_eval(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sext128(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        _ => panic!("bin_eval {op:?}"),
    }
}

pub fn f_eval2(op: Op, w: u32, a: u128, b: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        match op {
            Op::FAdd => (x + y).to_bits() as u128,
            Op::FSub => (x - y).to_bits() as u128,
            Op::FMul => (x * y).to_bits() as u128,
            Op::FDiv => (x / y).to_bits() as u128,
            Op::FLt => (x < y) as u128,
            Op::FLe => (x <= y) as u128,
            Op::FEq => (x == y) as u128,
            _ => panic!(),
        }
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        match op {
            Op::FAdd => (x + y).to_bits() as u128,
            Op::FSub => (x - y).to_bits() as u128,
            Op::FMul => (x * y).to_bits() as u128,
            Op::FDiv => (x / y).to_bits() as u128,
            Op::FLt => (x < y) as u128,
            Op::FLe => (x <= y) as u128,
            Op::FEq => (x == y) as u128,
            _ => panic!(),
        }
    }
}

/// unary float ops; `aw` = operand width, `w` = result width
pub fn f_eval1(op: Op, aw: u32, w: u32, a: u128) -> u128 {
    let m = mask(w);
    let d = || -> f64 {
        if aw == 32 {
            f32::from_bits(a as u32) as f64
        } else {
            f64::from_bits(a as u64)
        }
    };
    match op {
        Op::FNan => d().is_nan() as u128,
        Op::FToUi => {
            let v = d();
            let v = if v.is_nan() { 0 } else { v as u128 };
            v.min(m)
        }
        Op::FToSi => {
            let v = d();
            if v.is_nan() {
                return 0;
            }
            let v = v as i128;
            let max = (mask(w) >> 1) as i128;
            let min = -max - 1;
            (v.clamp(min, max) as u128) & m
        }
        Op::UiToF => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::SiToF => {
            let v = sext128(a, aw);
            if w == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        Op::FExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        Op::FTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        Op::FFloor | Op::FCeil | Op::FTruncI | Op::FRoundEven | Op::FRoundAway | Op::FSqrt => {
            if w == 32 {
                let x = f32::from_bits(a as u32);
                match op {
                    Op::FFloor => x.floor(),
                    Op::FCeil => x.ceil(),
                    Op::FTruncI => x.trunc(),
                    Op::FRoundEven => x.round_ties_even(),
                    Op::FRoundAway => x.round(),
                    _ => x.sqrt(),
                }
                .to_bits() as u128
            } else {
                let x = f64::from_bits(a as u64);
                match op {
                    Op::FFloor => x.floor(),
                    Op::FCeil => x.ceil(),
                    Op::FTruncI => x.trunc(),
                    Op::FRoundEven => x.round_ties_even(),
                    Op::FRoundAway => x.round(),
                    _ => x.sqrt(),
                }
                .to_bits() as u128
            }
        }
        _ => panic!("f_eval1 {op:?}"),
    }
}

impl Exprs {
    pub fn new() -> Exprs {
        let mut e = Exprs {
            nodes: Vec::new(),
            vars: Vec::new(),
            um: Vec::new(),
            map: HashMap::default(),
            luts: Vec::new(),
            lut_map: HashMap::new(),
            tables: HashMap::default(),
        };
        // index 0 is reserved: "concrete" marker in memory
        e.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, imm: 0 });
        e.vars.push(0);
        e.um.push(0);
        e
    }

    fn mk(&mut self, n: Node) -> X {
        if let Some(&x) = self.map.get(&n) {
            return x;
        }
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => 1u128 << (n.imm as u32),
            _ => self.vars[n.a as usize] | self.vars[n.b as usize] | self.vars[n.c as usize],
        };
        let x = self.nodes.len() as X;
        let um = self.umax_of(&n).min(mask(n.w as u32));
        self.nodes.push(n);
        self.vars.push(vs);
        self.um.push(um);
        self.map.insert(n, x);
        x
    }

    pub fn w(&self, x: X) -> u32 {
        self.nodes[x as usize].w as u32
    }
    pub fn konst(&mut self, w: u32, v: u128) -> X {
        self.mk(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, imm: v & mask(w) })
    }
    pub fn var(&mut self, id: u32) -> X {
        assert!(id < 128, "more than 128 symbolic bytes");
        self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, imm: id as u128 })
    }
    pub fn as_const(&self, x: X) -> Option<u128> {
        let n = &self.nodes[x as usize];
        if n.op == Op::Const {
            Some(n.imm)
        } else {
            None
        }
    }
    pub fn bool(&mut self, b: bool) -> X {
        self.konst(1, b as u128)
    }
    pub fn not(&mut self, x: X) -> X {
        // one-bit negation
        debug_assert!(self.w(x) == 1);
        let one = self.konst(1, 1);
        self.bin(Op::Xor, x, one)
    }
    pub fn eq_const(&mut self, x: X, v: u128) -> X {
        let w = self.w(x);
        let k = self.konst(w, v);
        self.bin(Op::Eq, x, k)
    }

    /// Unsigned upper bound that is cheap to see syntactically.
    fn umax(&self, x: X) -> u128 {
        self.um[x as usize]
    }
    pub fn um(&self, x: X) -> u128 {
        self.um[x as usize]
    }
    fn umax_of(&self, n: &Node) -> u128 {
        match n.op {
            Op::Const => n.imm,
            Op::ZExt => self.umax(n.a),
            Op::And => self.umax(n.a).min(self.umax(n.b)),
            Op::LShr => match self.as_const(n.b) {
                Some(k) if k < 128 => self.umax(n.a) >> k,
                _ => self.umax(n.a),
            },
            Op::URem => match self.as_const(n.b) {
                Some(k) if k > 0 => k - 1,
                _ => mask(n.w as u32),
            },
            Op::UDiv => match self.as_const(n.b) {
                Some(k) if k > 0 => self.umax(n.a) / k,
                _ => mask(n.w as u32),
            },
            Op::Ite => self.umax(n.b).max(self.umax(n.c)),
            Op::Lut => self.luts[n.imm as usize].iter().copied().max().unwrap_or(0),
            Op::Add | Op::Mul => {
                let (p, q) = (self.umax(n.a), self.umax(n.b));
                let r = if n.op == Op::Add { p.checked_add(q) } else { p.checked_mul(q) };
                match r {
                    Some(v) if v <= mask(n.w as u32) => v,
                    _ => mask(n.w as u32),
                }
            }
            Op::Concat if n.w <= 128 => (self.umax(n.a) << self.w(n.b)) | mask(self.w(n.b)),
            _ => mask(n.w as u32),
        }
    }

    pub fn bin(&mut self, op: Op, a: X, b: X) -> X {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch in {op:?}");
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(rw, bin_eval(op, w, x, y));
        }
        let m = mask(w);
        // canonical order for commutative operators: constant on the right
        let (a, b, ca, cb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq if ca.is_some() || (cb.is_none() && a > b) => {
                (b, a, cb, ca)
            }
            _ => (a, b, ca, cb),
        };
        let na = self.nodes[a as usize];
        // divisions in no more bits than the operands need
        if op == Op::Mul && w > 8 && cb.is_none_or(|k| k > 1 && !k.is_power_of_two()) {
            let m = self.umax(a).checked_mul(self.umax(b)).unwrap_or(u128::MAX);
            let nw = (128 - m.leading_zeros()).max(1);
            if nw + 3 < w {
                let p = self.extract(a, 0, nw);
                let q = self.extract(b, 0, nw);
                let r = self.bin(op, p, q);
                return self.zext(r, w);
            }
        }
        if (op == Op::UDiv || op == Op::URem) && ca.is_none() && cb != Some(0) && w > 8 {
            let bits = |v: u128| 128 - v.leading_zeros();
            let nw = bits(self.umax(a)).max(bits(self.umax(b))).max(1);
            if nw + 3 < w {
                let p = self.extract(a, 0, nw);
                let q = self.extract(b, 0, nw);
                let r = self.bin(op, p, q);
                return self.zext(r, w);
            }
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let s = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, s);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    let s = self.konst(w, 0u128.wrapping_sub(k));
                    return self.bin(Op::Add, a, s);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
                if w == 1 {
                    return self.bin(Op::And, a, b);
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                    if k > 0 && self.umax(a) < k {
                        return self.konst(w, 0);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                    if k > 0 && self.umax(a) < k {
                        return a;
                    }
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if na.op == Op::And {
                        if let Some(k2) = self.as_const(na.b) {
                            let s = self.konst(w, k & k2);
                            return self.bin(Op::And, na.a, s);
                        }
                    }
                    // low mask that covers the whole operand
                    if (k + 1).is_power_of_two() {
                        if self.umax(a) <= k {
                            return a;
                        }
                        let lw = (k + 1).trailing_zeros();
                        let lo = self.extract(a, 0, lw);
                        return self.zext(lo, w);
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                // zext(lo) | (zext(hi) << k)  ==> concat
                if let Some(x) = self.or_concat(a, b) {
                    return x;
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.as_const(na.b) {
                            let s = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, s);
                        }
                    }
                    if w == 1 && k == 1 {
                        // push negation into comparisons
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl | Op::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = k as u32;
                    if op == Op::Shl {
                        let lo = self.extract(a, 0, w - k);
                        let z = self.konst(k, 0);
                        return self.concat(lo, z);
                    } else {
                        let hi = self.extract(a, k, w - k);
                        return self.zext(hi, w);
                    }
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let k = (k.min(w as u128 - 1)) as u32;
                    let hi = self.extract(a, k, w - k);
                    return self.sext(hi, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.bool(true);
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.bool(false);
                            }
                            return self.eq_const(na.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let kk = k & mask(iw);
                            if (sext128(kk, iw) as u128) & m != k {
                                return self.bool(false);
                            }
                            return self.eq_const(na.a, kk);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let h = self.eq_const(na.a, k >> lw);
                            let l = self.eq_const(na.b, k & mask(lw));
                            return self.bin(Op::And, h, l);
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(na.b) {
                                return self.eq_const(na.a, k.wrapping_sub(k2) & m);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(na.b) {
                                return self.eq_const(na.a, k ^ k2);
                            }
                        }
                        Op::Ite => {
                            let (t, f) = (self.as_const(na.b), self.as_const(na.c));
                            if t.is_some() || f.is_some() {
                                let et = self.eq_const(na.b, k);
                                let ef = self.eq_const(na.c, k);
                                return self.ite(na.a, et, ef);
                            }
                        }
                        _ => {
                            if self.umax(a) < k {
                                return self.bool(false);
                            }
                        }
                    }
                }
                let nb = self.nodes[b as usize];
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) {
                    return self.bool(false);
                }
                if let Some(k) = cb {
                    if self.umax(a) < k {
                        return self.bool(true);
                    }
                    if k == 1 {
                        return self.eq_const(a, 0);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.konst(iw, k); // k <= umax(a) <= mask(iw)
                        return self.bin(Op::Ult, na.a, kk);
                    }
                }
                if let Some(k) = ca {
                    if k == m {
                        return self.bool(false);
                    }
                    if self.umax(b) <= k {
                        return self.bool(false);
                    }
                    let nb = self.nodes[b as usize];
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        let kk = self.konst(iw, k);
                        return self.bin(Op::Ult, kk, nb.a);
                    }
                }
                let nb = self.nodes[b as usize];
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
            }
            Op::Ule => {
                if a == b || ca == Some(0) || cb == Some(m) {
                    return self.bool(true);
                }
                if let Some(k) = cb {
                    let kk = self.konst(w, k + 1);
                    return self.bin(Op::Ult, a, kk);
                }
                if let Some(k) = ca {
                    let kk = self.konst(w, k - 1);
                    return self.bin(Op::Ult, kk, b);
                }
                let nb = self.nodes[b as usize];
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ule, na.a, nb.a);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.bool(op == Op::Sle);
                }
                // both sides non-negative: unsigned comparison
                let half = m >> 1;
                if self.umax(a) <= half && self.umax(b) <= half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw as u16, a, b, c: 0, imm: 0 })
    }

    fn or_concat(&mut self, a: X, b: X) -> Option<X> {
        for (lo, hi) in [(a, b), (b, a)] {
            let (nl, nh) = (self.nodes[lo as usize], self.nodes[hi as usize]);
            // hi = concat(H, zeros k) or zext of it ; lo = zext(L) with w(L) <= k
            let (inner, w) = if nh.op == Op::ZExt { (nh.a, nh.w as u32) } else { (hi, nh.w as u32) };
            let ni = self.nodes[inner as usize];
            if ni.op != Op::Concat || nl.op != Op::ZExt {
                continue;
            }
            // split trailing zero part
            let k = self.w(ni.b);
            if self.as_const(ni.b) != Some(0) {
                continue;
            }
            let lw = self.w(nl.a);
            if lw > k {
                continue;
            }
            let l = self.zext(nl.a, k);
            let c = self.concat(ni.a, l);
            return Some(self.zext(c, w));
        }
        None
    }

    pub fn concat(&mut self, hi: X, lo: X) -> X {
        let (wh, wl) = (self.w(hi), self.w(lo));
        if let (Some(h), Some(l)) = (self.as_const(hi), self.as_const(lo)) {
            if wh + wl <= 128 {
                return self.konst(wh + wl, (h << wl) | l);
            }
        }
        if self.as_const(hi) == Some(0) {
            return self.zext(lo, wh + wl);
        }
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        // adjacent extracts of the same value
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.imm == nl.imm + wl as u128 {
            return self.extract(nh.a, nl.imm as u32, wh + wl);
        }
        // extract(x, lw, ..) ++ x[0..lw] where the low part was simplified away from an extract
        if nh.op == Op::Extract && nl.op == Op::Concat {
            let n2 = self.nodes[nl.a as usize];
            if n2.op == Op::Extract && n2.a == nh.a && nh.imm == n2.imm + n2.w as u128 {
                let top = self.extract(nh.a, n2.imm as u32, wh + n2.w as u32);
                return self.concat(top, nl.b);
            }
        }
        if nh.op == Op::Extract && nh.imm >= wl as u128 && self.nodes[nh.a as usize].op == Op::SExt {
            let from = nh.imm as u32 - wl;
            if self.extract(nh.a, from, wl) == lo {
                return self.extract(nh.a, from, wh + wl);
            }
        }
        if nh.op == Op::ZExt {
            let inner = self.concat(nh.a, lo);
            return self.zext(inner, wh + wl);
        }
        // constants on the low side: keep right-nested, merge neighbours
        if nl.op == Op::Concat {
            if let (Some(h), Some(l)) = (self.as_const(hi), self.as_const(nl.a)) {
                let k = self.konst(wh + self.w(nl.a), (h << self.w(nl.a)) | l);
                return self.concat(k, nl.b);
            }
        }
        // left-nested concat: rotate so the tree is right nested
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        self.mk(Node { op: Op::Concat, w: (wh + wl) as u16, a: hi, b: lo, c: 0, imm: 0 })
    }

    pub fn extract(&mut self, x: X, lo: u32, w: u32) -> X {
        let n = self.nodes[x as usize];
        if lo == 0 && w == n.w as u32 {
            return x;
        }
        debug_assert!(lo + w <= n.w as u32, "extract out of range");
        match n.op {
            Op::Const => self.konst(w, n.imm >> lo),
            Op::Extract => self.extract(n.a, lo + n.imm as u32, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.konst(w, 0)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let i = self.extract(n.a, lo, iw - lo);
                    self.zext(i, w)
                }
            }
            Op::SExt if lo + w <= self.w(n.a) => self.extract(n.a, lo, w),
            Op::SExt if lo == 0 => self.sext(n.a, w),
            Op::And | Op::Or | Op::Xor => {
                let p = self.extract(n.a, lo, w);
                let q = self.extract(n.b, lo, w);
                self.bin(n.op, p, q)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let p = self.extract(n.a, 0, w);
                let q = self.extract(n.b, 0, w);
                self.bin(n.op, p, q)
            }
            Op::Ite => {
                let p = self.extract(n.b, lo, w);
                let q = self.extract(n.c, lo, w);
                self.ite(n.a, p, q)
            }
            Op::Lut => {
                let t: Vec<u128> = self.luts[n.imm as usize].iter().map(|v| (v >> lo) & mask(w)).collect();
                self.lut(n.a, t, w)
            }
            _ => self.mk(Node { op: Op::Extract, w: w as u16, a: x, b: 0, c: 0, imm: lo as u128 }),
        }
    }

    pub fn zext(&mut self, x: X, w: u32) -> X {
        let n = self.nodes[x as usize];
        if n.w as u32 == w {
            return x;
        }
        match n.op {
            Op::Const => self.konst(w, n.imm),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Node { op: Op::ZExt, w: w as u16, a: x, b: 0, c: 0, imm: 0 }),
        }
    }

    pub fn sext(&mut self, x: X, w: u32) -> X {
        let n = self.nodes[x as usize];
        if n.w as u32 == w {
            return x;
        }
        match n.op {
            Op::Const => self.konst(w, sext128(n.imm, n.w as u32) as u128),
            Op::SExt => self.sext(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Node { op: Op::SExt, w: w as u16, a: x, b: 0, c: 0, imm: 0 }),
        }
    }

    pub fn ite(&mut self, c: X, t: X, f: X) -> X {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { t } else { f };
        }
        if t == f {
            return t;
        }
        let w = self.w(t);
        if w == 1 {
            match (self.as_const(t), self.as_const(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, f);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, t);
                }
                _ => {}
            }
        }
        let nc = self.nodes[c as usize];
        if nc.op == Op::Xor && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, f, t);
        }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: t, c: f, imm: 0 })
    }

    pub fn lut(&mut self, idx: X, table: Vec<u128>, w: u32) -> X {
        if let Some(k) = self.as_const(idx) {
            return self.konst(w, *table.get(k as usize).unwrap_or(&0));
        }
        if table.iter().all(|v| *v == table[0]) {
            return self.konst(w, table[0]);
        }
        let id = match self.lut_map.get(&table) {
            Some(&i) => i,
            None => {
                let i = self.luts.len() as u32;
                self.luts.push(table.clone());
                self.lut_map.insert(table, i);
                i
            }
        };
        self.mk(Node { op: Op::Lut, w: w as u16, a: idx, b: 0, c: 0, imm: id as u128 })
    }

    pub fn fbin(&mut self, op: Op, a: X, b: X) -> X {
        let w = self.w(a);
        let rw = if matches!(op, Op::FLt | Op::FLe | Op::FEq) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(rw, f_eval2(op, w, x, y));
        }
        if rw == 1 {
            // whole numbers small enough to be exact compare as integers
            if let (Some(x), Some(y)) = (self.whole(a), self.whole(b)) {
                return match op {
                    Op::FLt => self.bin(Op::Slt, x, y),
                    Op::FLe => self.bin(Op::Sle, x, y),
                    _ => self.bin(Op::Eq, x, y),
                };
            }
        }
        self.mk(Node { op, w: rw as u16, a, b, c: 0, imm: 0 })
    }

    /// The value of a float known to be a whole number of magnitude below 2^24, as 32 bits. It may be -0.
    fn whole(&mut self, x: X) -> Option<X> {
        let n = self.nodes[x as usize];
        match n.op {
            Op::Const => {
                let v = if n.w == 32 { f32::from_bits(n.imm as u32) as f64 } else { f64::from_bits(n.imm as u64) };
                if v.fract() == 0.0 && v.abs() < 16777216.0 {
                    Some(self.konst(32, v as i64 as i32 as u32 as u128))
                } else {
                    None
                }
            }
            Op::SiToF | Op::UiToF => {
                let (a, w) = (n.a, self.w(n.a));
                if self.umax(a) < (1 << 24) && (n.op == Op::UiToF || self.umax(a) < (1 << (w - 1))) {
                    return Some(if w >= 32 { self.extract(a, 0, 32) } else { self.zext(a, 32) });
                }
                let na = self.nodes[a as usize];
                if n.op == Op::SiToF && na.op == Op::SExt && self.w(na.a) <= 24 {
                    return Some(self.sext(na.a, 32));
                }
                None
            }
            Op::FExt => self.whole(n.a),
            _ => None,
        }
    }

    pub fn fun(&mut self, op: Op, a: X, rw: u32) -> X {
        if self.as_const(a).is_none() {
            match op {
                Op::FNan if matches!(self.nodes[a as usize].op, Op::SiToF | Op::UiToF) => return self.konst(1, 0),
                Op::FFloor | Op::FCeil | Op::FTruncI | Op::FRoundEven | Op::FRoundAway if self.whole(a).is_some() => return a,
                Op::FToSi if rw >= 32 => {
                    if let Some(i) = self.whole(a) {
                        return if rw == 32 { i } else { self.sext(i, rw) };
                    }
                }
                _ => {}
            }
        }
        if let Some(x) = self.as_const(a) {
            let aw = self.w(a);
            return self.konst(rw, f_eval1(op, aw, rw, x));
        }
        self.mk(Node { op, w: rw as u16, a, b: 0, c: 0, imm: 0 })
    }

    /// Evaluate under an assignment of the byte variables.
    pub fn eval(&self, x: X, model: &[u8], memo: &mut HashMap<X, u128, BuildFx>) -> u128 {
        let n = &self.nodes[x as usize];
        match n.op {
            Op::Const => return n.imm,
            Op::Var => return model[n.imm as usize] as u128,
            _ => {}
        }
        if let Some(&v) = memo.get(&x) {
            return v;
        }
        let w = n.w as u32;
        let v = match n.op {
            Op::Concat => {
                let lw = self.w(n.b);
                let h = self.eval(n.a, model, memo);
                let l = self.eval(n.b, model, memo);
                (h << lw) | l
            }
            Op::Extract => (self.eval(n.a, model, memo) >> n.imm) & mask(w),
            Op::ZExt => self.eval(n.a, model, memo),
            Op::SExt => (sext128(self.eval(n.a, model, memo), self.w(n.a)) as u128) & mask(w),
            Op::Ite => {
                if self.eval(n.a, model, memo) == 1 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::Lut => {
                let i = self.eval(n.a, model, memo);
                *self.luts[n.imm as usize].get(i as usize).unwrap_or(&0)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq => {
                let a = self.eval(n.a, model, memo);
                let b = self.eval(n.b, model, memo);
                f_eval2(n.op, self.w(n.a), a, b)
            }
            Op::FNan | Op::FToUi | Op::FToSi | Op::UiToF | Op::SiToF | Op::FExt | Op::FTrunc | Op::FFloor
            | Op::FCeil | Op::FTruncI | Op::FRoundEven | Op::FRoundAway | Op::FSqrt => {
                let a = self.eval(n.a, model, memo);
                f_eval1(n.op, self.w(n.a), w, a)
            }
            _ => {
                let a = self.eval(n.a, model, memo);
                let b = self.eval(n.b, model, memo);
                bin_eval(n.op, self.w(n.a), a, b)
            }
        };
        memo.insert(x, v);
        v
    }

    /// For a one-bit expression over exactly one byte variable: the set of values making it true.
    pub fn truth_table(&mut self, x: X) -> [u64; 4] {
        if let Some(t) = self.tables.get(&x) {
            return *t;
        }
        let vs = self.vars[x as usize];
        debug_assert!(vs.count_ones() == 1);
        let v = vs.trailing_zeros() as usize;
        let mut model = vec![0u8; v + 1];
        let mut t = [0u64; 4];
        // recursive structure sharing: compose from children when they are one-bit too
        let n = self.nodes[x as usize];
        if n.w == 1 && matches!(n.op, Op::And | Op::Or | Op::Xor) && self.w(n.a) == 1 {
            let get = |s: &mut Self, y: X| -> [u64; 4] {
                match s.as_const(y) {
                    Some(0) => [0; 4],
                    Some(_) => [u64::MAX; 4],
                    None => s.truth_table(y),
                }
            };
            let p = get(self, n.a);
            let q = get(self, n.b);
            for i in 0..4 {
                t[i] = match n.op {
                    Op::And => p[i] & q[i],
                    Op::Or => p[i] | q[i],
                    _ => p[i] ^ q[i],
                };
            }
        } else {
            let mut memo = HashMap::default();
            for val in 0..256usize {
                model[v] = val as u8;
                memo.clear();
                if self.eval(x, &model, &mut memo) == 1 {
                    t[val >> 6] |= 1 << (val & 63);
                }
            }
        }
        self.tables.insert(x, t);
        t
    }

    pub fn show(&self, x: X, depth: u32) -> String {
        let n = &self.nodes[x as usize];
        match n.op {
            Op::Const => format!("{:#x}:{}", n.imm, n.w),
            Op::Var => format!("v{}", n.imm),
            _ if depth == 0 => "..".into(),
            Op::Extract => format!("({})[{}+{}]", self.show(n.a, depth - 1), n.imm, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!(
                "ite({},{},{})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
