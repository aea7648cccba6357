//! Reader for textual LLVM IR (the subset rustc emits) and its pre-decoded form.

use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Box<Ty>),
    Vec(u32, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(self, Ty::Float | Ty::Double)
    }
    fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => (self.bits() as u64 / 8).next_power_of_two().max(1),
            Ty::Struct(v, packed) => {
                if *packed {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => (self.bits() as u64).div_ceil(8),
            Ty::Struct(v, packed) => {
                let mut o = 0u64;
                for t in v {
                    if !*packed {
                        o = o.div_ceil(t.align()) * t.align();
                    }
                    o += t.size();
                }
                if !*packed {
                    o = o.div_ceil(self.align()) * self.align();
                }
                o
            }
            _ => 0,
        }
    }
}

/// A first-class value: concrete, wide concrete, symbolic, or aggregate.
#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    W(Box<u128>),
    E(u32),
    A(Rc<Vec<V>>),
}

impl V {
    pub fn k(v: u128) -> V {
        if v <= u64::MAX as u128 {
            V::I(v as u64)
        } else {
            V::W(Box::new(v))
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fop {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FToUi,
    FToSi,
    UiToF,
    SiToF,
    FExt,
    FTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In {
    Nop,
    Memcpy,
    Memset,
    Assume,
    UMin,
    UMax,
    SMin,
    SMax,
    FshL,
    FshR,
    Cttz,
    Ctlz,
    Ctpop,
    Bswap,
    Bitrev,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    USubSat,
    UAddSat,
    SAddSat,
    SSubSat,
    Ucmp,
    Scmp,
    IsConst,
    Tls,
    FToUiSat,
    FToSiSat,
    Abs,
    Fabs,
    Round,
    Floor,
    Ceil,
    FTruncI,
    Sqrt,
    Libm1(u8),
    Libm2(u8),
    Trap,
    Expect,
    VReduceOr,
    Copysign,
    MinNum,
    MaxNum,
    RoundEven,
    Fma,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),        // defined function
    Ext(u32),       // external, index into Module::externs
    In(In, u32, u32), // intrinsic, result width, operand width
    Ind(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub moves: Box<[(u32, Opd)]>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Bop, u32, u32, Opd, Opd),
    VBin(Bop, u32, u32, u32, Opd, Opd), // op, lanes, lane width, dst
    Icmp(Pred, u32, u32, Opd, Opd),
    VIcmp(Pred, u32, u32, u32, Opd, Opd),
    Cast(Cast, u32, u32, u32, Opd), // from, to, dst
    VCast(Cast, u32, u32, u32, u32, Opd), // lanes, from, to, dst
    Mov(u32, Opd),
    Select(u32, u32, Opd, Opd, Opd), // w, dst
    VSelect(u32, u32, u32, Opd, Opd, Opd), // lanes, lane w, dst
    Load(u32, u32, Opd),  // w, dst, ptr
    Store(u32, Opd, Opd), // w, value, ptr
    Gep(u32, Opd, Opd, u32, u64), // dst, base, idx, idx width, scale
    Extract(u32, Opd, Box<[u32]>),
    Insert(u32, Opd, Opd, Box<[u32]>),
    FBin(Fop, u32, u32, Opd, Opd),
    FNeg(u32, u32, Opd),
    FCmp(&'static str, u32, u32, Opd, Opd),
    Call(Option<u32>, Callee, Box<[Opd]>, u32), // dst, callee, args, return width
    Ret(Option<Opd>),
    Br(Edge),
    CondBr(Opd, Edge, Edge),
    Switch(u32, Opd, Box<[(u128, u32)]>, Box<[Edge]>), // cases -> edge index, edge 0 = default
    Unreachable,
    Rmw(u8, u32, u32, Opd, Opd),              // op, w, dst, ptr, val
    CmpXchg(u32, u32, Opd, Opd, Opd),         // w, dst, ptr, cmp, new
    Alloca(u32, u32),                         // dst, offset
    ExtElt(u32, u32, u32, Opd, Opd),          // lanes, lw, dst, vec, idx
    InsElt(u32, u32, u32, Opd, Opd, Opd),     // lanes, lw, dst, vec, elt, idx
    Shuffle(u32, u32, u32, Opd, Opd, Box<[u32]>), // lanes of inputs, lw, dst
    Unsup(Rc<str>),
}

pub struct Code {
    pub insts: Vec<Inst>,
    pub nregs: u32,
    pub nparams: u32,
    pub frame: u32,
}

pub struct Func {
    pub name: String,
    start: usize,
    end: usize,
    pub noreturn: bool,
    pub code: Option<Rc<Code>>,
}

pub struct Global {
    pub name: String,
    pub constant: bool,
    init: usize, // offset of the text after the type keyword, 0 when external
    pub size: u64,
}

pub const FN_BASE: u64 = 0x7f00_0000_0000_0000;
pub const EXT_BASE: u64 = 0x7f80_0000_0000_0000;

pub struct Module {
    text: Vec<u8>,
    pub funcs: Vec<Func>,
    pub fn_by_name: HashMap<String, u32>,
    pub externs: Vec<String>,
    pub ext_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>, // global i has object id i + 1
    pub glob_by_name: HashMap<String, u32>,
}

struct Cur<'a> {
    t: &'a [u8],
    p: usize,
}

type R<T> = Result<T, String>;

impl<'a> Cur<'a> {
    fn ws(&mut self) {
        while self.p < self.t.len() && matches!(self.t[self.p], b' ' | b'\t' | b'\n' | b'\r') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.t.get(self.p).unwrap_or(&0)
    }
    fn raw(&self) -> u8 {
        *self.t.get(self.p).unwrap_or(&0)
    }
    fn eat(&mut self, s: &str) -> bool {
        let save = self.p;
        self.ws();
        if self.t[self.p..].starts_with(s.as_bytes()) {
            self.p += s.len();
            true
        } else {
            self.p = save;
            false
        }
    }
    fn need(&mut self, s: &str) -> R<()> {
        if self.eat(s) {
            Ok(())
        } else {
            Err(format!("expected `{s}` at `{}`", self.here()))
        }
    }
    fn here(&self) -> String {
        String::from_utf8_lossy(&self.t[self.p..(self.p + 60).min(self.t.len())]).into_owned()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let s = self.p;
        while self.p < self.t.len() && (self.t[self.p].is_ascii_alphanumeric() || matches!(self.t[self.p], b'_' | b'.'))
        {
            self.p += 1;
        }
        std::str::from_utf8(&self.t[s..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let s = {
            self.ws();
            self.p
        };
        let w = self.word();
        self.p = s;
        w
    }
    /// name after a sigil: identifier characters or a quoted string
    fn name(&mut self) -> String {
        if self.raw() == b'"' {
            self.p += 1;
            let s = self.p;
            while self.raw() != b'"' {
                self.p += 1;
            }
            let r = String::from_utf8_lossy(&self.t[s..self.p]).into_owned();
            self.p += 1;
            return r;
        }
        let s = self.p;
        while self.raw().is_ascii_alphanumeric() || matches!(self.raw(), b'_' | b'.' | b'$' | b'-') {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.t[s..self.p]).into_owned()
    }
    fn int(&mut self) -> R<i128> {
        self.ws();
        let neg = self.raw() == b'-';
        if neg {
            self.p += 1;
        }
        let s = self.p;
        let mut v: u128 = 0;
        while self.raw().is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.raw() - b'0') as u128);
            self.p += 1;
        }
        if s == self.p {
            return Err(format!("integer expected at `{}`", self.here()));
        }
        Ok(if neg { (v as i128).wrapping_neg() } else { v as i128 })
    }
    /// skip a balanced (...) group; cursor is on the parenthesis
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.raw() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.raw() != b'"' {
                        self.p += 1;
                    }
                }
                0 => return,
                _ => {}
            }
            self.p += 1;
        }
    }
    fn eol(&mut self) {
        while self.p < self.t.len() && self.t[self.p] != b'\n' {
            self.p += 1;
        }
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' => true,
            _ => {
                let w = self.peek_word();
                matches!(w, "void" | "ptr" | "float" | "double" | "metadata")
                    || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.peek() {
            b'{' => {
                self.p += 1;
                let mut v = vec![];
                while self.peek() != b'}' {
                    v.push(self.ty()?);
                    self.eat(",");
                }
                self.p += 1;
                Ok(Ty::Struct(v, false))
            }
            b'[' => {
                self.p += 1;
                let n = self.int()? as u64;
                self.need("x")?;
                let t = self.ty()?;
                self.need("]")?;
                Ok(Ty::Arr(n, Box::new(t)))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let t = self.ty()?;
                    self.need(">")?;
                    if let Ty::Struct(v, _) = t {
                        return Ok(Ty::Struct(v, true));
                    }
                    unreachable!()
                }
                let n = self.int()? as u32;
                self.need("x")?;
                let t = self.ty()?;
                self.need(">")?;
                Ok(Ty::Vec(n, Box::new(t)))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ok(Ty::Void),
                    "ptr" => Ok(Ty::Ptr),
                    "float" => Ok(Ty::Float),
                    "double" => Ok(Ty::Double),
                    "metadata" => Ok(Ty::Meta),
                    _ if w.starts_with('i') => w[1..].parse().map(Ty::Int).map_err(|_| format!("type {w}")),
                    _ => Err(format!("type expected, found `{w}` before `{}`", self.here())),
                }
            }
        }
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if !(c.is_ascii_lowercase()) {
                return;
            }
            let save = self.p;
            let w = self.word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint"
                | "inttoptr" | "splat" | "c" | "trunc" | "sub" | "add" | "bitcast" | "nan" | "qnan" | "inf" | "pinf" => {
                    self.p = save;
                    return;
                }
                _ if w.starts_with("f0x") => {
                    self.p = save;
                    return;
                }
                "align" => {
                    if self.raw() == b'(' {
                        self.skip_parens();
                    } else {
                        let _ = self.int();
                    }
                }
                _ => {
                    if self.raw() == b'(' {
                        self.skip_parens();
                    }
                }
            }
        }
    }
    fn ret_attrs(&mut self) {
        while !self.is_type_start() {
            let w = self.word();
            if w.is_empty() {
                return;
            }
            if w == "align" || w == "cc" {
                self.ws();
                if self.raw().is_ascii_digit() {
                    let _ = self.int();
                    continue;
                }
            }
            if self.raw() == b'(' {
                self.skip_parens();
            }
        }
    }
}

fn in_of(name: &str) -> Option<In> {
    let n = name.strip_prefix("llvm.")?;
    let has = |p: &str| n == p || (n.starts_with(p) && n.as_bytes()[p.len()] == b'.');
    let t: &[(&str, In)] = &[
        ("lifetime.start", In::Nop),
        ("lifetime.end", In::Nop),
        ("experimental.noalias.scope.decl", In::Nop),
        ("donothing", In::Nop),
        ("memcpy", In::Memcpy),
        ("memmove", In::Memcpy),
        ("memset", In::Memset),
        ("assume", In::Assume),
        ("umin", In::UMin),
        ("umax", In::UMax),
        ("smin", In::SMin),
        ("smax", In::SMax),
        ("fshl", In::FshL),
        ("fshr", In::FshR),
        ("cttz", In::Cttz),
        ("ctlz", In::Ctlz),
        ("ctpop", In::Ctpop),
        ("bswap", In::Bswap),
        ("bitreverse", In::Bitrev),
        ("uadd.with.overflow", In::UAddO),
        ("usub.with.overflow", In::USubO),
        ("umul.with.overflow", In::UMulO),
        ("sadd.with.overflow", In::SAddO),
        ("ssub.with.overflow", In::SSubO),
        ("smul.with.overflow", In::SMulO),
        ("usub.sat", In::USubSat),
        ("uadd.sat", In::UAddSat),
        ("sadd.sat", In::SAddSat),
        ("ssub.sat", In::SSubSat),
        ("ucmp", In::Ucmp),
        ("scmp", In::Scmp),
        ("is.constant", In::IsConst),
        ("threadlocal.address", In::Tls),
        ("fptoui.sat", In::FToUiSat),
        ("fptosi.sat", In::FToSiSat),
        ("abs", In::Abs),
        ("fabs", In::Fabs),
        ("round", In::Round),
        ("floor", In::Floor),
        ("ceil", In::Ceil),
        ("trunc", In::FTruncI),
        ("sqrt", In::Sqrt),
        ("sin", In::Libm1(0)),
        ("cos", In::Libm1(1)),
        ("log10", In::Libm1(2)),
        ("log2", In::Libm1(3)),
        ("log", In::Libm1(4)),
        ("exp", In::Libm1(5)),
        ("tan", In::Libm1(6)),
        ("acos", In::Libm1(7)),
        ("asin", In::Libm1(8)),
        ("atan", In::Libm1(9)),
        ("pow", In::Libm2(0)),
        ("powi", In::Libm2(1)),
        ("trap", In::Trap),
        ("expect", In::Expect),
        ("vector.reduce.or", In::VReduceOr),
        ("copysign", In::Copysign),
        ("minnum", In::MinNum),
        ("maxnum", In::MaxNum),
        ("minimumnum", In::MinNum),
        ("maximumnum", In::MaxNum),
        ("rint", In::RoundEven),
        ("nearbyint", In::RoundEven),
        ("roundeven", In::RoundEven),
        ("fma", In::Fma),
        ("fmuladd", In::Fma),
        ("exp2", In::Libm1(10)),
    ];
    t.iter().find(|(p, _)| has(p)).map(|(_, i)| *i)
}

struct FnCtx {
    regs: HashMap<String, u32>,
    frame: u32,
}

impl FnCtx {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read(path).map_err(|e| format!("{path}: {e}"))?;
        let mut m = Module {
            text: vec![],
            funcs: vec![],
            fn_by_name: HashMap::new(),
            externs: vec![],
            ext_by_name: HashMap::new(),
            globals: vec![],
            glob_by_name: HashMap::new(),
        };
        let mut noret: HashSet<String> = HashSet::new();
        let mut pend: Vec<(usize, Vec<String>)> = vec![];
        let mut p = 0;
        while p < text.len() {
            let e = text[p..].iter().position(|b| *b == b'\n').map(|i| p + i).unwrap_or(text.len());
            let line = &text[p..e];
            if line.starts_with(b"define") {
                let mut c = Cur { t: &text, p };
                while c.raw() != b'@' {
                    // quoted or parenthesised text before the name contains no '@'
                    c.p += 1;
                }
                c.p += 1;
                let name = c.name();
                c.skip_parens();
                let tail = String::from_utf8_lossy(&text[c.p..e]).into_owned();
                let groups = tail
                    .split_whitespace()
                    .filter(|w| w.starts_with('#'))
                    .map(|w| w.to_string())
                    .collect::<Vec<_>>();
                let inline_noret = tail.split_whitespace().any(|w| w == "noreturn");
                // body ends at a line that is just "}"
                let mut q = e + 1;
                loop {
                    let e2 = text[q..].iter().position(|b| *b == b'\n').map(|i| q + i).unwrap_or(text.len());
                    if &text[q..e2] == b"}" {
                        break;
                    }
                    q = e2 + 1;
                    if q >= text.len() {
                        return Err("unterminated function".into());
                    }
                }
                let id = m.funcs.len();
                m.fn_by_name.insert(name.clone(), id as u32);
                m.funcs.push(Func { name, start: p, end: q, noreturn: inline_noret, code: None });
                pend.push((id, groups));
                p = q + 2;
                continue;
            } else if line.starts_with(b"declare") {
                let mut c = Cur { t: &text, p };
                while c.raw() != b'@' {
                    c.p += 1;
                }
                c.p += 1;
                let name = c.name();
                let id = m.externs.len() as u32;
                m.ext_by_name.insert(name.clone(), id);
                m.externs.push(name);
            } else if line.starts_with(b"@") {
                let mut c = Cur { t: &text, p: p + 1 };
                let name = c.name();
                c.need("=")?;
                let mut constant = false;
                let mut external = false;
                let mut alias = false;
                loop {
                    let w = c.word();
                    match w {
                        "global" => break,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "alias" => {
                            alias = true;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        "" => return Err(format!("global syntax: {}", c.here())),
                        _ => {
                            if c.raw() == b'(' {
                                c.skip_parens();
                            }
                        }
                    }
                }
                if alias {
                    let _ = c.ty()?;
                    c.need(",")?;
                    let _ = c.ty()?;
                    c.need("@")?;
                    let tgt = c.name();
                    // resolved below: functions only
                    if let Some(&f) = m.fn_by_name.get(&tgt) {
                        m.fn_by_name.insert(name, f);
                    } else {
                        m.externs.push(format!("alias:{tgt}"));
                        m.ext_by_name.insert(name, m.externs.len() as u32 - 1);
                    }
                } else {
                    let init = c.p;
                    let t = c.ty()?;
                    let id = m.globals.len() as u32;
                    m.glob_by_name.insert(name.clone(), id);
                    m.globals.push(Global {
                        name,
                        constant,
                        init: if external { 0 } else { init },
                        size: t.size(),
                    });
                }
            } else if line.starts_with(b"attributes #") {
                let s = String::from_utf8_lossy(line);
                let id = s.split_whitespace().nth(1).unwrap().to_string();
                if s.split_whitespace().any(|w| w == "noreturn") {
                    noret.insert(id);
                }
            }
            p = e + 1;
        }
        for (id, gs) in pend {
            if gs.iter().any(|g| noret.contains(g)) {
                m.funcs[id].noreturn = true;
            }
        }
        m.text = text;
        Ok(m)
    }

    pub fn sym_addr(&self, name: &str) -> Option<u64> {
        if let Some(&g) = self.glob_by_name.get(name) {
            return Some(((g as u64) + 1) << 32);
        }
        if let Some(&f) = self.fn_by_name.get(name) {
            return Some(FN_BASE + f as u64 * 16);
        }
        if let Some(&x) = self.ext_by_name.get(name) {
            if matches!(name, "gettid" | "statx" | "__cxa_thread_atexit_impl" | "copy_file_range" | "getrandom" | "__pthread_get_minstack") {
                return Some(0); // weak symbols: take the fallback path
            }
            return Some(EXT_BASE + x as u64 * 16);
        }
        None
    }

    /// Initial bytes of a global.
    pub fn global_init(&self, g: u32) -> R<Vec<u8>> {
        let gl = &self.globals[g as usize];
        let mut out = vec![0u8; gl.size as usize];
        if gl.init == 0 {
            return Ok(out);
        }
        let mut c = Cur { t: &self.text, p: gl.init };
        let t = c.ty()?;
        self.flatten(&mut c, &t, &mut out, 0)?;
        Ok(out)
    }

    fn flatten(&self, c: &mut Cur, t: &Ty, out: &mut [u8], off: usize) -> R<()> {
        if c.eat("zeroinitializer") || c.eat("undef") || c.eat("poison") {
            return Ok(());
        }
        match t {
            Ty::Arr(_, et) => {
                if c.eat("c\"") {
                    let mut o = off;
                    while c.raw() != b'"' {
                        if c.raw() == b'\\' && c.t[c.p + 1] == b'\\' {
                            out[o] = b'\\';
                            c.p += 2;
                        } else if c.raw() == b'\\' {
                            let h = std::str::from_utf8(&c.t[c.p + 1..c.p + 3]).unwrap();
                            out[o] = u8::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            c.p += 3;
                        } else {
                            out[o] = c.raw();
                            c.p += 1;
                        }
                        o += 1;
                    }
                    c.p += 1;
                    return Ok(());
                }
                c.need("[")?;
                let mut o = off;
                while c.peek() != b']' {
                    let t2 = c.ty()?;
                    self.flatten(c, &t2, out, o)?;
                    o += et.size() as usize;
                    c.eat(",");
                }
                c.need("]")
            }
            Ty::Struct(ts, packed) => {
                if *packed {
                    c.need("<")?;
                }
                c.need("{")?;
                let mut o = off as u64;
                for t in ts {
                    if !*packed {
                        o = (o - off as u64).div_ceil(t.align()) * t.align() + off as u64;
                    }
                    let t2 = c.ty()?;
                    self.flatten(c, &t2, out, o as usize)?;
                    o += t.size();
                    c.eat(",");
                }
                c.need("}")?;
                if *packed {
                    c.need(">")?;
                }
                Ok(())
            }
            _ => {
                let v = self.konst(c, t)?;
                let v = match v {
                    V::I(x) => x as u128,
                    V::W(x) => *x,
                    _ => return Err("global init".into()),
                };
                let n = t.size() as usize;
                out[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
                Ok(())
            }
        }
    }

    fn konst(&self, c: &mut Cur, t: &Ty) -> R<V> {
        let p = c.peek();
        if p == b'@' {
            c.p += 1;
            let n = c.name();
            return self.sym_addr(&n).map(V::I).ok_or(format!("unknown symbol {n}"));
        }
        if p == b'<' {
            // vector literal
            c.p += 1;
            let mut v = 0u128;
            let mut sh = 0;
            while c.peek() != b'>' {
                let et = c.ty()?;
                let e = match self.konst(c, &et)? {
                    V::I(x) => x as u128,
                    V::W(x) => *x,
                    _ => return Err("vector literal".into()),
                };
                if sh >= 128 {
                    return Err("vector wider than 128 bits".into());
                }
                v |= e << sh;
                sh += et.bits();
                c.eat(",");
            }
            c.p += 1;
            return Ok(V::k(v));
        }
        if p == b'{' || p == b'[' {
            let close = if p == b'{' { b'}' } else { b']' };
            c.p += 1;
            let mut v = vec![];
            while c.peek() != close {
                let et = c.ty()?;
                v.push(self.konst(c, &et)?);
                c.eat(",");
            }
            c.p += 1;
            return Ok(V::A(Rc::new(v)));
        }
        if t.is_float() && (p == b'+' || p == b'-') && c.t[c.p + 1].is_ascii_lowercase() {
            c.p += 1;
            let neg = (p == b'-') as u64;
            let f = *t == Ty::Float;
            let v: u64 = match c.word() {
                "nan" | "qnan" => if f { 0x7fc00000 } else { 0x7ff8000000000000 },
                "inf" => if f { 0x7f800000 } else { 0x7ff0000000000000 },
                w => return Err(format!("float {w}")),
            };
            return Ok(V::I(v | neg << if f { 31 } else { 63 }));
        }
        if c.t[c.p..].starts_with(b"f0x") || c.t[c.p..].starts_with(b"0x") || (t.is_float() && (p == b'-' || p == b'+' || p.is_ascii_digit())) {
            let f0 = c.eat("f0x");
            if f0 || c.eat("0x") {
                let s = c.p;
                while c.raw().is_ascii_hexdigit() {
                    c.p += 1;
                }
                let h = u64::from_str_radix(std::str::from_utf8(&c.t[s..c.p]).unwrap(), 16).map_err(|e| e.to_string())?;
                if *t == Ty::Float && !f0 {
                    return Ok(V::I((f64::from_bits(h) as f32).to_bits() as u64));
                }
                return Ok(V::I(h));
            }
            let s = c.p;
            while c.raw().is_ascii_digit() || matches!(c.raw(), b'+' | b'-' | b'.' | b'e' | b'E') {
                c.p += 1;
            }
            let d: f64 =
                std::str::from_utf8(&c.t[s..c.p]).unwrap().parse().map_err(|_| format!("float at {}", c.here()))?;
            return Ok(V::I(if *t == Ty::Float { (d as f32).to_bits() as u64 } else { d.to_bits() }));
        }
        if p == b'-' || p.is_ascii_digit() {
            let v = c.int()? as u128;
            let w = t.bits();
            return Ok(V::k(v & crate::expr::mask(w)));
        }
        let w = c.word();
        match w {
            "true" => Ok(V::I(1)),
            "false" | "null" => Ok(V::I(0)),
            "nan" | "qnan" => Ok(V::I(if *t == Ty::Float { 0x7fc00000 } else { 0x7ff8000000000000 })),
            "inf" | "pinf" => Ok(V::I(if *t == Ty::Float { 0x7f800000 } else { 0x7ff0000000000000 })),
            "undef" | "poison" | "zeroinitializer" => Ok(zero_of(t)),
            "splat" => {
                c.need("(")?;
                let et = c.ty()?;
                let e = match self.konst(c, &et)? {
                    V::I(x) => x as u128,
                    V::W(x) => *x,
                    _ => return Err("splat".into()),
                };
                c.need(")")?;
                if let Ty::Vec(n, _) = t {
                    let lw = et.bits();
                    if n * lw > 128 {
                        return Err("vector wider than 128 bits".into());
                    }
                    let mut v = 0u128;
                    for i in 0..*n {
                        v |= e << (i * lw);
                    }
                    return Ok(V::k(v));
                }
                Err("splat type".into())
            }
            "getelementptr" => {
                loop {
                    let s = c.p;
                    let w = c.word();
                    if !matches!(w, "inbounds" | "nuw" | "nusw" | "inrange") {
                        c.p = s;
                        break;
                    }
                    if c.raw() == b'(' && w == "inrange" {
                        c.skip_parens();
                    }
                }
                c.need("(")?;
                let et = c.ty()?;
                c.need(",")?;
                let bt = c.ty()?;
                let b = self.konst(c, &bt)?;
                let mut addr = match b {
                    V::I(x) => x,
                    _ => return Err("gep base".into()),
                };
                let mut first = true;
                let mut cur = et;
                while c.eat(",") {
                    let it = c.ty()?;
                    let i = match self.konst(c, &it)? {
                        V::I(x) => crate::expr::sext128(x as u128, it.bits()) as i64,
                        _ => return Err("gep index".into()),
                    };
                    if first {
                        addr = addr.wrapping_add((cur.size() as i64).wrapping_mul(i) as u64);
                        first = false;
                    } else if let Ty::Arr(_, e) = cur {
                        addr = addr.wrapping_add((e.size() as i64).wrapping_mul(i) as u64);
                        cur = *e;
                    } else {
                        return Err("gep constant over struct".into());
                    }
                }
                c.need(")")?;
                Ok(V::I(addr))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                c.need("(")?;
                let t1 = c.ty()?;
                let v = self.konst(c, &t1)?;
                c.need("to")?;
                let t2 = c.ty()?;
                c.need(")")?;
                match v {
                    V::I(x) => Ok(V::k(x as u128 & crate::expr::mask(t2.bits()))),
                    v => Ok(v),
                }
            }
            "sub" | "add" => {
                loop {
                    let s = c.p;
                    let w = c.word();
                    if !matches!(w, "nuw" | "nsw") {
                        c.p = s;
                        break;
                    }
                }
                c.need("(")?;
                let t1 = c.ty()?;
                let a = self.konst(c, &t1)?;
                c.need(",")?;
                let t2 = c.ty()?;
                let b = self.konst(c, &t2)?;
                c.need(")")?;
                match (a, b) {
                    (V::I(a), V::I(b)) => {
                        let r = if w == "sub" { a.wrapping_sub(b) } else { a.wrapping_add(b) };
                        Ok(V::k(r as u128 & crate::expr::mask(t1.bits())))
                    }
                    _ => Err("constant arithmetic".into()),
                }
            }
            _ => Err(format!("constant `{w}` at `{}`", c.here())),
        }
    }

    fn opd(&self, c: &mut Cur, t: &Ty, f: &mut FnCtx) -> R<Opd> {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            return Ok(Opd::R(f.reg(n)));
        }
        Ok(Opd::K(self.konst(c, t)?))
    }

    fn topd(&self, c: &mut Cur, f: &mut FnCtx) -> R<(Ty, Opd)> {
        let t = c.ty()?;
        c.attrs();
        let o = self.opd(c, &t, f)?;
        Ok((t, o))
    }

    pub fn code(&mut self, id: u32) -> R<Rc<Code>> {
        if let Some(c) = &self.funcs[id as usize].code {
            return Ok(c.clone());
        }
        let code = Rc::new(self.decode(id).map_err(|e| format!("{}: {e}", self.funcs[id as usize].name))?);
        self.funcs[id as usize].code = Some(code.clone());
        Ok(code)
    }

    fn decode(&self, id: u32) -> R<Code> {
        let fu = &self.funcs[id as usize];
        let text = &self.text[fu.start..fu.end];
        let mut c = Cur { t: text, p: 0 };
        let mut f = FnCtx { regs: HashMap::new(), frame: 0 };
        while c.raw() != b'@' {
            c.p += 1;
        }
        c.p += 1;
        c.name();
        c.need("(")?;
        let mut nparams = 0;
        let mut unnamed = 0u32;
        while c.peek() != b')' {
            if c.eat("...") {
                continue;
            }
            let _ = c.ty()?;
            c.attrs();
            let n = if c.peek() == b'%' {
                c.p += 1;
                c.name()
            } else {
                unnamed.to_string()
            };
            if n.bytes().all(|b| b.is_ascii_digit()) {
                unnamed += 1;
            }
            let r = f.reg(n);
            debug_assert_eq!(r, nparams);
            nparams += 1;
            c.eat(",");
        }
        c.eol();
        // first pass: split into blocks
        struct Blk {
            label: String,
            phis: Vec<(u32, Vec<(Opd, String)>)>,
            insts: Vec<PInst>,
        }
        enum PInst {
            I(Inst),
            Br(String),
            CondBr(Opd, String, String),
            Switch(u32, Opd, Vec<(u128, String)>, String),
            Invoke(Box<Inst>, String),
        }
        let mut blocks: Vec<Blk> = vec![];
        let label_of = |c: &mut Cur| -> R<String> {
            c.need("label")?;
            c.need("%")?;
            Ok(c.name())
        };
        loop {
            c.ws();
            if c.p >= text.len() {
                break;
            }
            if c.raw() == b';' || c.raw() == b'#' {
                c.eol();
                continue;
            }
            // label?
            {
                let s = c.p;
                let n = c.name();
                if !n.is_empty() && c.raw() == b':' {
                    c.eol();
                    blocks.push(Blk { label: n, phis: vec![], insts: vec![] });
                    continue;
                }
                c.p = s;
            }
            if blocks.is_empty() {
                blocks.push(Blk { label: unnamed.to_string(), phis: vec![], insts: vec![] });
            }
            let mut dst = None;
            let line_start = c.p;
            if c.raw() == b'%' {
                c.p += 1;
                let n = c.name();
                c.need("=")?;
                dst = Some(n);
            }
            let b = blocks.last_mut().unwrap();
            let save = c.p;
            let op = c.word();
            match op {
                "phi" => {
                    let t = c.ty()?;
                    let mut v = vec![];
                    loop {
                        c.need("[")?;
                        let o = self.opd(&mut c, &t, &mut f)?;
                        c.need(",")?;
                        c.need("%")?;
                        let l = c.name();
                        c.need("]")?;
                        v.push((o, l));
                        if c.raw() != b',' {
                            break;
                        }
                        c.p += 1;
                        // attachments (", !dbg") end the list
                        if c.peek() == b'!' {
                            break;
                        }
                    }
                    let r = f.reg(dst.unwrap());
                    b.phis.push((r, v));
                    c.eol();
                    continue;
                }
                "br" => {
                    if c.peek_word() == "label" {
                        let l = label_of(&mut c)?;
                        b.insts.push(PInst::Br(l));
                    } else {
                        let (_, o) = self.topd(&mut c, &mut f)?;
                        c.need(",")?;
                        let t = label_of(&mut c)?;
                        c.need(",")?;
                        let e = label_of(&mut c)?;
                        b.insts.push(PInst::CondBr(o, t, e));
                    }
                    c.eol();
                    continue;
                }
                "switch" => {
                    let (t, o) = self.topd(&mut c, &mut f)?;
                    c.need(",")?;
                    let d = label_of(&mut c)?;
                    c.need("[")?;
                    let mut cs = vec![];
                    while c.peek() != b']' {
                        let t = c.ty()?;
                        let v = c.int()? as u128 & crate::expr::mask(t.bits());
                        c.need(",")?;
                        cs.push((v, label_of(&mut c)?));
                    }
                    c.need("]")?;
                    b.insts.push(PInst::Switch(t.bits(), o, cs, d));
                    c.eol();
                    continue;
                }
                "invoke" => {
                    let i = self.call(&mut c, dst.map(|n| f.reg(n)), &mut f)?;
                    // find "to label"
                    while !c.eat("to label %") {
                        c.p += 1;
                    }
                    let l = c.name();
                    c.eol();
                    // unwind label may be on the same or the next line; both are skipped
                    b.insts.push(PInst::Invoke(Box::new(i), l));
                    continue;
                }
                "unwind" | "cleanup" | "catch" | "filter" => {
                    c.eol();
                    continue;
                }
                _ => {}
            }
            c.p = save;
            let dreg = dst.map(|n| f.reg(n));
            let inst = match self.inst(&mut c, dreg, &mut f) {
                Ok(i) => i,
                Err(e) => {
                    c.p = line_start;
                    let s = c.p;
                    c.eol();
                    let l = String::from_utf8_lossy(&text[s..c.p.min(s + 160)]).into_owned();
                    Inst::Unsup(format!("{e} in `{l}`").into())
                }
            };
            b.insts.push(PInst::I(inst));
            c.eol();
        }
        // second pass: layout
        let mut pc_of: HashMap<&str, u32> = HashMap::new();
        let mut pc = 0u32;
        for b in &blocks {
            pc_of.insert(&b.label, pc);
            for i in &b.insts {
                pc += if matches!(i, PInst::Invoke(..)) { 2 } else { 1 };
            }
        }
        let by_label: HashMap<&str, usize> = blocks.iter().enumerate().map(|(i, b)| (b.label.as_str(), i)).collect();
        let edge = |from: &str, to: &str| -> R<Edge> {
            let tb = &blocks[*by_label.get(to).ok_or(format!("no block {to}"))?];
            let mut moves = vec![];
            for (r, v) in &tb.phis {
                let (o, _) = v.iter().find(|(_, l)| l == from).ok_or(format!("phi without edge {from}->{to}"))?;
                moves.push((*r, o.clone()));
            }
            Ok(Edge { pc: pc_of[to], moves: moves.into() })
        };
        let mut insts = Vec::with_capacity(pc as usize);
        for b in &blocks {
            for i in &b.insts {
                match i {
                    PInst::I(x) => insts.push(x.clone()),
                    PInst::Br(l) => insts.push(Inst::Br(edge(&b.label, l)?)),
                    PInst::CondBr(o, t, e) => {
                        insts.push(Inst::CondBr(o.clone(), edge(&b.label, t)?, edge(&b.label, e)?))
                    }
                    PInst::Switch(w, o, cs, d) => {
                        let mut edges = vec![edge(&b.label, d)?];
                        let mut idx: HashMap<&str, u32> = HashMap::new();
                        idx.insert(d, 0);
                        let mut cases = vec![];
                        for (v, l) in cs {
                            let k = match idx.get(l.as_str()) {
                                Some(&k) => k,
                                None => {
                                    edges.push(edge(&b.label, l)?);
                                    idx.insert(l, edges.len() as u32 - 1);
                                    edges.len() as u32 - 1
                                }
                            };
                            cases.push((*v, k));
                        }
                        cases.sort();
                        insts.push(Inst::Switch(*w, o.clone(), cases.into(), edges.into()));
                    }
                    PInst::Invoke(c, l) => {
                        insts.push((**c).clone());
                        insts.push(Inst::Br(edge(&b.label, l)?));
                    }
                }
            }
        }
        Ok(Code { insts, nregs: f.regs.len() as u32, nparams, frame: f.frame })
    }

    fn call(&self, c: &mut Cur, dst: Option<u32>, f: &mut FnCtx) -> R<Inst> {
        c.ret_attrs();
        let rt = c.ty()?;
        c.ws();
        if c.raw() == b'(' {
            c.skip_parens(); // explicit function type
        }
        let mut callee_name = None;
        let mut ind = None;
        let mut asm = false;
        match c.peek() {
            b'@' => {
                c.p += 1;
                callee_name = Some(c.name());
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                ind = Some(Opd::R(f.reg(n)));
            }
            _ => {
                if c.peek_word() == "asm" {
                    asm = true;
                    c.word();
                    while c.peek() != b'"' {
                        c.word();
                    }
                    for _ in 0..2 {
                        c.ws();
                        c.p += 1;
                        while c.raw() != b'"' {
                            c.p += 1;
                        }
                        c.p += 1;
                        c.eat(",");
                    }
                } else {
                    ind = Some(Opd::K(self.konst(c, &Ty::Ptr)?));
                }
            }
        }
        c.need("(")?;
        let mut args = vec![];
        let mut w0 = 0;
        let mut lanes = false;
        while c.peek() != b')' {
            let t = c.ty()?;
            if t == Ty::Meta {
                // metadata operand
                while !matches!(c.raw(), b',' | b')') {
                    if c.raw() == b'(' {
                        c.skip_parens();
                    } else {
                        c.p += 1;
                    }
                }
                args.push(Opd::K(V::I(0)));
            } else {
                c.attrs();
                if args.is_empty() {
                    w0 = t.bits();
                }
                if matches!(t, Ty::Vec(..)) {
                    lanes = true;
                }
                args.push(self.opd(c, &t, f)?);
            }
            c.eat(",");
        }
        c.need(")")?;
        let callee = if asm {
            Callee::Asm
        } else if let Some(n) = callee_name {
            if n.starts_with("llvm.") {
                match in_of(&n) {
                    Some(i) => {
                        if lanes && !matches!(i, In::VReduceOr | In::Nop) {
                            return Err(format!("vector intrinsic {n}"));
                        }
                        let rw = match &rt {
                            Ty::Struct(v, _) => v[0].bits(),
                            t => t.bits(),
                        };
                        Callee::In(i, rw, w0)
                    }
                    None => return Err(format!("intrinsic {n}")),
                }
            } else if let Some(&x) = self.fn_by_name.get(&n) {
                Callee::Fn(x)
            } else if let Some(&x) = self.ext_by_name.get(&n) {
                match self.externs[x as usize].strip_prefix("alias:") {
                    Some(t) => Callee::Fn(*self.fn_by_name.get(t).ok_or(format!("alias {t}"))?),
                    None => Callee::Ext(x),
                }
            } else {
                return Err(format!("unknown callee {n}"));
            }
        } else {
            Callee::Ind(ind.unwrap())
        };
        Ok(Inst::Call(dst, callee, args.into(), rt.bits()))
    }

    fn inst(&self, c: &mut Cur, dst: Option<u32>, f: &mut FnCtx) -> R<Inst> {
        let op = c.word().to_string();
        let d = dst.unwrap_or(u32::MAX);
        let flags = |c: &mut Cur| loop {
            let s = c.p;
            let w = c.word();
            if !matches!(
                w,
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan"
                    | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak"
            ) {
                c.p = s;
                break;
            }
        };
        let wide = |t: &Ty| -> R<()> {
            if t.bits() > 128 {
                Err("vector wider than 128 bits".into())
            } else {
                Ok(())
            }
        };
        let bop = |s: &str| -> Option<Bop> {
            Some(match s {
                "add" => Bop::Add,
                "sub" => Bop::Sub,
                "mul" => Bop::Mul,
                "udiv" => Bop::UDiv,
                "sdiv" => Bop::SDiv,
                "urem" => Bop::URem,
                "srem" => Bop::SRem,
                "and" => Bop::And,
                "or" => Bop::Or,
                "xor" => Bop::Xor,
                "shl" => Bop::Shl,
                "lshr" => Bop::LShr,
                "ashr" => Bop::AShr,
                _ => return None,
            })
        };
        if let Some(b) = bop(&op) {
            flags(c);
            let (t, x) = self.topd(c, f)?;
            c.need(",")?;
            let y = self.opd(c, &t, f)?;
            wide(&t)?;
            return Ok(match &t {
                Ty::Vec(n, e) => {
                    if matches!(b, Bop::And | Bop::Or | Bop::Xor) {
                        Inst::Bin(b, t.bits(), d, x, y)
                    } else {
                        Inst::VBin(b, *n, e.bits(), d, x, y)
                    }
                }
                _ => Inst::Bin(b, t.bits(), d, x, y),
            });
        }
        match op.as_str() {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags(c);
                let (t, x) = self.topd(c, f)?;
                c.need(",")?;
                let y = self.opd(c, &t, f)?;
                if !t.is_float() {
                    return Err("vector float".into());
                }
                let o = match op.as_str() {
                    "fadd" => Fop::Add,
                    "fsub" => Fop::Sub,
                    "fmul" => Fop::Mul,
                    "fdiv" => Fop::Div,
                    _ => Fop::Rem,
                };
                Ok(Inst::FBin(o, t.bits(), d, x, y))
            }
            "fneg" => {
                flags(c);
                let (t, x) = self.topd(c, f)?;
                if !t.is_float() {
                    return Err("vector float".into());
                }
                Ok(Inst::FNeg(t.bits(), d, x))
            }
            "icmp" => {
                flags(c);
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    o => return Err(format!("icmp {o}")),
                };
                let (t, x) = self.topd(c, f)?;
                c.need(",")?;
                let y = self.opd(c, &t, f)?;
                wide(&t)?;
                Ok(match &t {
                    Ty::Vec(n, e) => Inst::VIcmp(p, *n, e.bits(), d, x, y),
                    _ => Inst::Icmp(p, t.bits(), d, x, y),
                })
            }
            "fcmp" => {
                flags(c);
                let p = c.word();
                let ps: &'static str = [
                    "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno",
                ]
                .into_iter()
                .find(|x| *x == p)
                .ok_or("fcmp pred")?;
                let (t, x) = self.topd(c, f)?;
                c.need(",")?;
                let y = self.opd(c, &t, f)?;
                if !t.is_float() {
                    return Err("vector float".into());
                }
                Ok(Inst::FCmp(ps, t.bits(), d, x, y))
            }
            "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
                flags(c);
                let (t, x) = self.topd(c, f)?;
                c.need("to")?;
                let t2 = c.ty()?;
                wide(&t)?;
                wide(&t2)?;
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "fptoui" => Cast::FToUi,
                    "fptosi" => Cast::FToSi,
                    "uitofp" => Cast::UiToF,
                    "sitofp" => Cast::SiToF,
                    "fpext" => Cast::FExt,
                    _ => Cast::FTrunc,
                };
                Ok(match (&t, &t2) {
                    (Ty::Vec(n, a), Ty::Vec(_, b)) => {
                        if !matches!(k, Cast::Trunc | Cast::ZExt | Cast::SExt) {
                            return Err("vector float".into());
                        }
                        Inst::VCast(k, *n, a.bits(), b.bits(), d, x)
                    }
                    _ => Inst::Cast(k, t.bits(), t2.bits(), d, x),
                })
            }
            "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                let (t, x) = self.topd(c, f)?;
                c.need("to")?;
                let t2 = c.ty()?;
                wide(&t)?;
                if t.bits() != t2.bits() {
                    return Ok(Inst::Cast(
                        if t.bits() > t2.bits() { Cast::Trunc } else { Cast::ZExt },
                        t.bits(),
                        t2.bits(),
                        d,
                        x,
                    ));
                }
                Ok(Inst::Mov(d, x))
            }
            "freeze" => {
                let (_, x) = self.topd(c, f)?;
                Ok(Inst::Mov(d, x))
            }
            "select" => {
                flags(c);
                let (ct, cc) = self.topd(c, f)?;
                c.need(",")?;
                let (t, x) = self.topd(c, f)?;
                c.need(",")?;
                let (_, y) = self.topd(c, f)?;
                wide(&t)?;
                if let (Ty::Vec(n, _), Ty::Vec(_, e)) = (&ct, &t) {
                    return Ok(Inst::VSelect(*n, e.bits(), d, cc, x, y));
                }
                Ok(Inst::Select(t.bits(), d, cc, x, y))
            }
            "load" => {
                flags(c);
                let t = c.ty()?;
                c.need(",")?;
                let (_, p) = self.topd(c, f)?;
                wide(&t)?;
                if t.bits() == 0 {
                    return Err("aggregate load".into());
                }
                Ok(Inst::Load(t.bits(), d, p))
            }
            "store" => {
                flags(c);
                let (t, v) = self.topd(c, f)?;
                c.need(",")?;
                let (_, p) = self.topd(c, f)?;
                wide(&t)?;
                if t.bits() == 0 {
                    return Err("aggregate store".into());
                }
                Ok(Inst::Store(t.bits(), v, p))
            }
            "getelementptr" => {
                flags(c);
                let et = c.ty()?;
                c.need(",")?;
                let (_, b) = self.topd(c, f)?;
                c.need(",")?;
                let (it, i) = self.topd(c, f)?;
                if c.raw() == b',' {
                    let s = c.p;
                    c.p += 1;
                    if c.peek() != b'!' {
                        return Err("multi-index gep".into());
                    }
                    c.p = s;
                }
                Ok(Inst::Gep(d, b, i, it.bits(), et.size()))
            }
            "extractvalue" => {
                let (_, a) = self.topd(c, f)?;
                let mut ix = vec![];
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.int()? as u32);
                }
                Ok(Inst::Extract(d, a, ix.into()))
            }
            "insertvalue" => {
                let (_, a) = self.topd(c, f)?;
                c.need(",")?;
                let (_, v) = self.topd(c, f)?;
                let mut ix = vec![];
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.int()? as u32);
                }
                Ok(Inst::Insert(d, a, v, ix.into()))
            }
            "tail" | "musttail" | "notail" => {
                c.need("call")?;
                self.call(c, dst, f)
            }
            "call" => self.call(c, dst, f),
            "ret" => {
                let t = c.ty()?;
                if t == Ty::Void {
                    return Ok(Inst::Ret(None));
                }
                let o = self.opd(c, &t, f)?;
                Ok(Inst::Ret(Some(o)))
            }
            "unreachable" => Ok(Inst::Unreachable),
            "fence" => Ok(Inst::Mov(0, Opd::R(0))),
            "alloca" => {
                let t = c.ty()?;
                let mut al = 16;
                if c.eat(",") {
                    if c.eat("align") {
                        al = c.int()? as u32;
                    } else {
                        return Err("dynamic alloca".into());
                    }
                }
                let off = f.frame.div_ceil(al) * al;
                f.frame = off + (t.size() as u32).max(1);
                Ok(Inst::Alloca(d, off))
            }
            "atomicrmw" => {
                flags(c);
                let o = match c.word() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    x => return Err(format!("atomicrmw {x}")),
                };
                let (_, p) = self.topd(c, f)?;
                c.need(",")?;
                let (t, v) = self.topd(c, f)?;
                Ok(Inst::Rmw(o, t.bits(), d, p, v))
            }
            "cmpxchg" => {
                flags(c);
                let (_, p) = self.topd(c, f)?;
                c.need(",")?;
                let (t, a) = self.topd(c, f)?;
                c.need(",")?;
                let (_, b) = self.topd(c, f)?;
                Ok(Inst::CmpXchg(t.bits(), d, p, a, b))
            }
            "extractelement" => {
                let (t, v) = self.topd(c, f)?;
                c.need(",")?;
                let (_, i) = self.topd(c, f)?;
                wide(&t)?;
                if let Ty::Vec(n, e) = t {
                    return Ok(Inst::ExtElt(n, e.bits(), d, v, i));
                }
                Err("extractelement".into())
            }
            "insertelement" => {
                let (t, v) = self.topd(c, f)?;
                c.need(",")?;
                let (_, e) = self.topd(c, f)?;
                c.need(",")?;
                let (_, i) = self.topd(c, f)?;
                wide(&t)?;
                if let Ty::Vec(n, et) = t {
                    return Ok(Inst::InsElt(n, et.bits(), d, v, e, i));
                }
                Err("insertelement".into())
            }
            "shufflevector" => {
                let (t, a) = self.topd(c, f)?;
                c.need(",")?;
                let (_, b) = self.topd(c, f)?;
                c.need(",")?;
                let mt = c.ty()?;
                wide(&t)?;
                let n = match &mt {
                    Ty::Vec(n, _) => *n,
                    _ => return Err("mask".into()),
                };
                let mut m = vec![];
                if c.eat("zeroinitializer") {
                    m = vec![0; n as usize];
                } else if c.eat("<") {
                    while c.peek() != b'>' {
                        c.ty()?;
                        if c.eat("poison") || c.eat("undef") {
                            m.push(0);
                        } else {
                            m.push(c.int()? as u32);
                        }
                        c.eat(",");
                    }
                } else {
                    return Err("shuffle mask".into());
                }
                if let Ty::Vec(k, e) = t {
                    if n * e.bits() > 128 {
                        return Err("vector wider than 128 bits".into());
                    }
                    return Ok(Inst::Shuffle(k, e.bits(), d, a, b, m.into()));
                }
                Err("shufflevector".into())
            }
            _ => Err(format!("instruction {op}")),
        }
    }
}

fn zero_of(t: &Ty) -> V {
    match t {
        Ty::Struct(v, _) => V::A(Rc::new(v.iter().map(zero_of).collect())),
        Ty::Arr(n, t) => V::A(Rc::new((0..*n).map(|_| zero_of(t)).collect())),
        _ => V::I(0),
    }
}
