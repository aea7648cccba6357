//! C16-C18: constant folding, display, equality and hashing.
use crate::symx::*;
use dm::ast::*;
use dm::constants::*;
use std::hash::{Hash, Hasher};

fn term(t: Term) -> Expression {
    Expression::Base { term: Box::new(Spanned::new(Default::default(), t)), follow: Box::new([]) }
}

#[derive(Clone, Debug)]
enum M {
    Null,
    F(f32),
    S(String),
    R(String),
    P(&'static str),
}
use M::*;

impl M {
    fn expr(&self) -> Expression {
        term(match self {
            Null => Term::Null,
            F(f) => Term::Float(*f),
            S(s) => Term::String(s.clone()),
            R(s) => Term::Resource(s.clone()),
            P(p) => Term::Prefab(Box::new(Prefab::from(vec![(PathOp::Slash, Ident::from(*p))]))),
        })
    }
    fn truthy(&self) -> bool {
        match self {
            Null => false,
            F(f) => *f != 0.0,
            S(s) => !s.is_empty(),
            _ => true,
        }
    }
    fn equal(&self, o: &M) -> bool {
        match (self, o) {
            (Null, Null) => true,
            (F(a), F(b)) => a == b,
            (S(a), S(b)) => a == b,
            (R(a), R(b)) => a == b,
            (P(a), P(b)) => a == b,
            _ => false,
        }
    }
    fn is(&self, c: &Constant) -> bool {
        match (self, c) {
            (Null, Constant::Null(_)) => true,
            (F(a), Constant::Float(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (S(a), Constant::String(b)) => a.as_bytes() == b.as_bytes(),
            (R(a), Constant::Resource(b)) => a.as_bytes() == b.as_bytes(),
            (P(a), Constant::Prefab(b)) => b.vars.is_empty() && b.path.len() == 1 && b.path[0].as_str() == *a,
            _ => false,
        }
    }
}

const VALUES: [f32; 12] = [0.0, 2.0, -1.0, 2.5, -2.5, 7.0, 31.0, 32.0, 16777215.0, 16777216.0, 1e10, 0.1];

fn letters(n: usize) -> String {
    String::from_utf8(text(n, b"ab")).unwrap()
}

fn value(floats: u8) -> M {
    let len = if floats > 4 { 2 } else { 1 };
    match choice(5) {
        0 => Null,
        1 => F(VALUES[choice(floats)]),
        2 => S(letters(choice(len + 1))),
        3 => R(letters(choice(len))),
        _ => P(["obj", "mob"][choice(2)]),
    }
}

const OPS: [BinaryOp; 25] = [
    BinaryOp::Add, BinaryOp::Sub, BinaryOp::Mul, BinaryOp::Div, BinaryOp::Less, BinaryOp::Greater,
    BinaryOp::LessEq, BinaryOp::GreaterEq, BinaryOp::Eq, BinaryOp::NotEq, BinaryOp::And, BinaryOp::Or,
    BinaryOp::BitAnd, BinaryOp::BitXor, BinaryOp::BitOr, BinaryOp::LShift, BinaryOp::RShift,
    // with chosen numbers only
    BinaryOp::Pow, BinaryOp::Mod, BinaryOp::FloatMod, BinaryOp::LessOrGreater,
    BinaryOp::Equiv, BinaryOp::NotEquiv, BinaryOp::In, BinaryOp::To,
];

fn flag(b: bool) -> M {
    F(if b { 1.0 } else { 0.0 })
}
fn bits(x: u32) -> M {
    F((x & 0xff_ffff) as f32)
}

/// What DM makes of it; None: not a constant.
fn binary(op: BinaryOp, l: &M, r: &M) -> Option<M> {
    use BinaryOp::*;
    Some(match (op, l, r) {
        (Eq, l, r) => flag(l.equal(r)),
        (NotEq, l, r) => flag(!l.equal(r)),
        (And, l, r) => if l.truthy() { r.clone() } else { l.clone() },
        (Or, l, r) => if l.truthy() { l.clone() } else { r.clone() },
        (Add, S(a), S(b)) => S(format!("{a}{b}")),
        (op, F(a), F(b)) => {
            let (a, b) = (*a, *b);
            match op {
                Add => F(a + b),
                Sub => F(a - b),
                Mul => F(a * b),
                Div => F(a / b),
                Mod => F(a % b),
                FloatMod => F(a - (a / b).floor() * b),
                Pow => F(a.powf(b)),
                Less => flag(a < b),
                Greater => flag(a > b),
                LessEq => flag(a <= b),
                GreaterEq => flag(a >= b),
                BitAnd => bits(a as u32 & b as u32),
                BitOr => bits(a as u32 | b as u32),
                BitXor => bits(a as u32 ^ b as u32),
                LShift if b < 32.0 => bits((a as u32) << (b as u32)),
                RShift if b < 32.0 => bits((a as u32) >> (b as u32)),
                _ => return None,
            }
        }
        _ => return None,
    })
}

fn node(op: BinaryOp, l: &M, r: &M) -> Expression {
    Expression::BinaryOp { op, lhs: Box::new(l.expr()), rhs: Box::new(r.expr()) }
}

fn decide(e: Expression, want: Option<M>) {
    let got = e.simple_evaluate(Default::default());
    match (got, want) {
        (Ok(c), Some(m)) => {
            reach("ok");
            check("value", m.is(&c));
        }
        (Err(_), None) => reach("err"),
        (Ok(_), None) => check("not_constant", false),
        (Err(_), Some(_)) => check("constant", false),
    }
}

/// C16: operators on arbitrary numbers.
pub fn numbers() {
    let op = OPS[choice(17)];
    let (a, b) = (any_f32(), any_f32());
    assume(!a.is_nan() && !b.is_nan());
    if matches!(op, BinaryOp::BitAnd | BinaryOp::BitXor | BinaryOp::BitOr | BinaryOp::LShift | BinaryOp::RShift) {
        assume(a >= 0.0 && b >= 0.0 && a < 4294967296.0 && b < 4294967296.0);
        if matches!(op, BinaryOp::LShift | BinaryOp::RShift) {
            assume(b < 32.0);
        }
    }
    decide(node(op, &F(a), &F(b)), binary(op, &F(a), &F(b)));
}

/// C16: operators on every kind of value.
pub fn kinds() {
    let op = OPS[choice(25)];
    let (l, r) = (value(param(0) as u8), value(param(0) as u8));
    // shifts of negative amounts are not defined
    if let (BinaryOp::LShift | BinaryOp::RShift, F(a), F(b)) = (op, &l, &r) {
        assume(*a >= 0.0 && *b >= 0.0);
    }
    if let (BinaryOp::BitAnd | BinaryOp::BitOr | BinaryOp::BitXor, F(a), F(b)) = (op, &l, &r) {
        assume(*a >= 0.0 && *b >= 0.0);
    }
    decide(node(op, &l, &r), binary(op, &l, &r));
}

/// C16: unary operators, conditionals and parentheses around them.
pub fn nested() {
    let l = value(4);
    let mut e = l.expr();
    let mut want = Some(l);
    for _ in 0..param(0) {
        match choice(7) {
            0 => {
                let Expression::Base { term: t, follow } = e else { assume(false); return };
                let op = [UnaryOp::Not, UnaryOp::Neg, UnaryOp::BitNot, UnaryOp::PreIncr][choice(4)];
                let mut f = follow.into_vec();
                f.push(Spanned::new(Default::default(), Follow::Unary(op)));
                e = Expression::Base { term: t, follow: f.into() };
                want = match (op, want) {
                    (UnaryOp::Not, Some(v)) => Some(flag(!v.truthy())),
                    (UnaryOp::Neg, Some(F(f))) => Some(F(-f)),
                    (UnaryOp::BitNot, Some(F(f))) => {
                        assume(f >= 0.0);
                        Some(bits(!(f as u32)))
                    }
                    _ => None,
                };
            }
            1 => e = term(Term::Expr(Box::new(e))),
            2 | 3 => {
                // as the condition
                let (a, b) = (value(2), value(2));
                e = Expression::TernaryOp { cond: Box::new(e), if_: Box::new(a.expr()), else_: Box::new(b.expr()) };
                want = want.map(|v| if v.truthy() { a } else { b });
            }
            4 => {
                // as a branch; the other branch is not looked at
                let c = value(2);
                let junk = term(Term::Ident("x".into()));
                if choice(2) == 0 {
                    e = Expression::TernaryOp { cond: Box::new(c.expr()), if_: Box::new(e), else_: Box::new(junk) };
                    want = if c.truthy() { want } else { None };
                } else {
                    e = Expression::TernaryOp { cond: Box::new(c.expr()), if_: Box::new(junk), else_: Box::new(e) };
                    want = if c.truthy() { None } else { want };
                }
            }
            k => {
                let op = [BinaryOp::Add, BinaryOp::Sub, BinaryOp::Eq, BinaryOp::And, BinaryOp::Or][choice(5)];
                let o = value(2);
                let (l, r);
                if k == 5 {
                    (l, r) = (e, o.expr());
                    want = want.and_then(|w| binary(op, &w, &o));
                } else {
                    (l, r) = (o.expr(), e);
                    want = want.and_then(|w| binary(op, &o, &w));
                }
                e = Expression::BinaryOp { op, lhs: Box::new(l), rhs: Box::new(r) };
            }
        }
    }
    decide(e, want);
}

fn named(k: &'static str, v: Expression) -> Expression {
    Expression::AssignOp { op: AssignOp::Assign, lhs: Box::new(term(Term::Ident(k.into()))), rhs: Box::new(v) }
}
fn call(args: Vec<Expression>) -> Result<Constant, dm::DMError> {
    term(Term::Call("rgb".into(), args.into())).simple_evaluate(Default::default())
}
fn hex(out: &mut Vec<u8>, v: u8) {
    for d in [v >> 4, v & 15] {
        out.push(if d < 10 { b'0' + d } else { b'a' + d - 10 });
    }
}
fn same_text(c: &Constant, want: &[u8]) -> bool {
    matches!(c, Constant::String(s) if s.as_bytes() == want)
}

/// C16: rgb() with arguments in any order.
pub fn rgb() {
    let names: [[&'static str; 2]; 4] = [["r", "red"], ["g", "green"], ["b", "blue"], ["a", "alpha"]];
    let n = 3 + choice(2);
    let long = choice(2);
    let mut val = [0x1f, 0, 0xff, 0xa0];
    let expr = |val: &[u8; 4], i: usize| term(if param(0) == 0 { Term::Int(val[i] as i32) } else { Term::Float(val[i] as f32 + 0.5) });
    let mut left: Vec<usize> = (0..n).collect();
    let mut args = Vec::new();
    // that many by position, the rest by name in any order
    let by_position = choice(n as u8 + 1);
    for k in 0..param(1) as usize {
        val[(by_position + long + k) % n] = any_u8();
    }
    let mut space = choice(2) == 1;
    for i in 0..n {
        if i < by_position {
            left.remove(0);
            args.push(expr(&val, i));
            continue;
        }
        if space && choice(2) == 1 {
            space = false;
            args.push(named("space", term(Term::Int(0))));
        }
        let i = left.remove(choice(left.len() as u8));
        args.push(named(names[i][long], expr(&val, i)));
    }
    if space {
        args.push(named("space", term(Term::Int(0))));
    }
    let mut want = b"#".to_vec();
    for i in 0..n {
        hex(&mut want, val[i]);
    }
    match call(args) {
        Ok(c) => {
            reach("rgb");
            check("rgb", same_text(&c, &want));
        }
        Err(_) => check("rgb_accepted", false),
    }
}

/// C16: the other colour spaces at their corners.
pub fn rgb_spaces() {
    let hsl = choice(2) == 1;
    let hue = choice(7);
    let s = [0.0, 1.0][choice(2)];
    let v: f32 = [0.0, 0.5, 1.0][choice(3)];
    let third = if hsl { ["l", "luminance"] } else { ["v", "value"] };
    let long = choice(2);
    let exprs = [term(Term::Int(hue as i32 * 60)), term(Term::Float(s * 100.0)), term(Term::Float(v * 100.0))];
    let names = [["h", "hue"][long], ["s", "saturation"][long], third[long]];
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][choice(6)];
    let mut args: Vec<Expression> = Vec::new();
    match choice(3) {
        0 => args.extend(order.iter().map(|&i| named(names[i], exprs[i].clone()))),
        1 => {
            args.extend(order.iter().map(|&i| named(names[i], exprs[i].clone())));
            args.insert(choice(4), named("space", term(Term::Int(1 + hsl as i32))));
        }
        _ => {
            args.extend(exprs);
            args.push(named("space", term(Term::Int(1 + hsl as i32))));
        }
    }
    // the pure hue, then blended
    let pure = [[1.0, 0.0, 0.0], [1.0, 1.0, 0.0], [0.0, 1.0, 0.0], [0.0, 1.0, 1.0], [0.0, 0.0, 1.0], [1.0, 0.0, 1.0], [1.0, 0.0, 0.0f32]][hue];
    let mut want = b"#".to_vec();
    for p in pure {
        let c = if hsl { v + s * (p - 0.5) * (1.0 - (2.0 * v - 1.0).abs()) } else { v * (1.0 - s * (1.0 - p)) };
        hex(&mut want, (c * 255.0).round() as u8);
    }
    match call(args) {
        Ok(c) => {
            reach("spaces");
            log(hue as u64);
            check("spaces", same_text(&c, &want));
        }
        Err(_) => check("spaces_accepted", false),
    }
}

/// C16: rgb() with any arguments gives a colour or an error.
pub fn rgb_any() {
    let names = ["r", "green", "b", "h", "s", "v", "l", "c", "y", "a", "space", "x"];
    let n = choice(param(0) as u8 + 1);
    let mut args = Vec::new();
    for _ in 0..n {
        let v = term(match choice(4) {
            0 => Term::Int(choice(4) as i32),
            1 => Term::Int(255),
            2 => Term::Int(-1),
            _ => Term::String("".into()),
        });
        let k = choice(1 + names.len() as u8);
        args.push(if k == 0 { v } else { named(names[k - 1], v) });
    }
    match call(args) {
        Ok(Constant::String(c)) => {
            reach("ok");
            let c = c.as_bytes();
            check("colour", (c.len() == 7 || c.len() == 9) && c[0] == b'#' && c[1..].iter().all(|d| d.is_ascii_hexdigit()));
        }
        Ok(_) => check("colour", false),
        Err(_) => reach("err"),
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone)]
enum D {
    Leaf(M),
    List(Vec<(D, Option<D>)>),
    Fn(ConstFn, Vec<(D, Option<D>)>),
    Prefab(Vec<Ident>, Vec<(&'static str, D)>),
    New(Option<Box<D>>, Option<Vec<(D, Option<D>)>>),
}

fn args(v: &[(D, Option<D>)], flip: bool) -> Box<Arguments> {
    v.iter().map(|(k, x)| (k.build(flip), x.as_ref().map(|x| x.build(flip)))).collect()
}
fn same_args(a: &[(D, Option<D>)], b: &[(D, Option<D>)]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.0.equal(&y.0)
                && match (&x.1, &y.1) {
                    (None, None) => true,
                    (Some(p), Some(q)) => p.equal(q),
                    _ => false,
                }
        })
}

impl D {
    fn pop(path: &[Ident], vars: &[(&'static str, D)], flip: bool) -> Pop {
        let mut p = Pop::from(TreePath::from(path.to_vec()));
        for i in 0..vars.len() {
            let (k, v) = &vars[if flip { vars.len() - 1 - i } else { i }];
            p.vars.insert(Ident::from(*k), v.build(flip));
        }
        p
    }
    /// flip: insert the variables of prefabs in the opposite order
    fn build(&self, flip: bool) -> Constant {
        match self {
            D::Leaf(Null) => Constant::Null(if flip { Some(Box::new(["obj".into()])) } else { None }),
            D::Leaf(F(f)) => Constant::Float(*f),
            D::Leaf(S(s)) => Constant::string(s.clone()),
            D::Leaf(R(s)) => Constant::Resource(s.clone().into()),
            D::Leaf(P(p)) => Constant::Prefab(Box::new(Pop::from(TreePath::from(vec![Ident::from(*p)])))),
            D::List(v) => Constant::List(args(v, flip)),
            D::Fn(f, v) => Constant::Call(*f, args(v, flip)),
            D::Prefab(p, v) => Constant::Prefab(Box::new(D::pop(p, v, flip))),
            D::New(t, a) => Constant::New {
                type_: t.as_ref().map(|t| match &**t {
                    D::Prefab(p, v) => Box::new(D::pop(p, v, flip)),
                    _ => unreachable!(),
                }),
                args: a.as_ref().map(|a| args(a, flip)),
            },
        }
    }
    fn equal(&self, o: &D) -> bool {
        match (self, o) {
            (D::Leaf(a), D::Leaf(b)) => a.equal(b),
            (D::List(a), D::List(b)) => same_args(a, b),
            (D::Fn(f, a), D::Fn(g, b)) => f == g && same_args(a, b),
            (D::Prefab(p, v), D::Prefab(q, w)) => {
                p == q && v.len() == w.len() && v.iter().all(|(k, x)| w.iter().any(|(l, y)| k == l && x.equal(y)))
            }
            (D::New(t, a), D::New(u, b)) => {
                (match (t, u) {
                    (None, None) => true,
                    (Some(t), Some(u)) => t.equal(u),
                    _ => false,
                }) && match (a, b) {
                    (None, None) => true,
                    (Some(a), Some(b)) => same_args(a, b),
                    _ => false,
                }
            }
            _ => false,
        }
    }
}

/// sym: numbers arbitrary, else chosen
fn leaf(sym: bool) -> D {
    D::Leaf(match choice(4) {
        0 => Null,
        1 if sym => {
            let f = any_f32();
            assume(!f.is_nan());
            F(f)
        }
        1 => F([0.0, -2.5, 7.0, 123456.0, 1e10, 0.001, 1e-10][choice(param(3) as u8)]),
        2 => S(if sym { letters(choice(2)) } else { String::from_utf8(text(choice(param(1) as u8 + 1), b"a ,;=(){}/'")).unwrap() }),
        _ => R(if sym { letters(choice(2)) } else { String::from_utf8(text(choice(param(1) as u8 + 1), b"a ,;=(){}/\"")).unwrap() }),
    })
}
fn items(sym: bool, max: u8, depth: u8) -> Vec<(D, Option<D>)> {
    (0..choice(max + 1)).map(|_| (datum(sym, depth), if choice(2) == 1 { Some(leaf(sym)) } else { None })).collect()
}
fn prefab(sym: bool) -> D {
    let path = match choice(3) {
        0 => vec!["obj".into()],
        1 => vec!["obj".into(), "a".into()],
        _ => vec!["obja".into()],
    };
    let mut vars = Vec::new();
    for k in ["x", "name"] {
        if choice(2) == 1 {
            vars.push((k, leaf(sym)));
        }
    }
    D::Prefab(path, vars)
}
fn datum(sym: bool, depth: u8) -> D {
    if depth == 0 {
        return leaf(sym);
    }
    match choice(5) {
        0 => leaf(sym),
        1 => D::List(items(sym, param(2) as u8, depth - 1)),
        2 => D::Fn([ConstFn::Icon, ConstFn::Newlist, ConstFn::Vector][choice(3)], items(sym, 1, depth - 1)),
        3 => prefab(sym),
        _ => {
            let t = if choice(2) == 1 { Some(Box::new(prefab(sym))) } else { None };
            let a = if choice(2) == 1 { Some(items(sym, 1, depth - 1)) } else { None };
            D::New(t, a)
        }
    }
}

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn hash(c: &Constant) -> Vec<u8> {
    let mut r = Rec::default();
    c.hash(&mut r);
    r.0
}

fn opt<T>(k: usize, p: (T, T)) -> (Option<T>, Option<T>) {
    (if k & 1 != 0 { Some(p.0) } else { None }, if k & 2 != 0 { Some(p.1) } else { None })
}
/// one of two kinds
fn small() -> D {
    D::Leaf(if choice(2) == 1 { Null } else { S(letters(1)) })
}
fn item_pairs(depth: u8) -> (Vec<(D, Option<D>)>, Vec<(D, Option<D>)>) {
    let (mut a, mut b) = (Vec::new(), Vec::new());
    for _ in 0..choice(param(1) as u8 + 1) {
        let k = if depth == 0 && param(2) == 0 { (small(), small()) } else { pair(depth) };
        let v = match choice(4) {
            0 => (None, None),
            i => opt(i, (small(), small())),
        };
        a.push((k.0, v.0));
        b.push((k.1, v.1));
    }
    if choice(3) == 0 {
        a.push((D::Leaf(F(1.0)), None));
    }
    (a, b)
}
fn prefab_pairs() -> (D, D) {
    let path = || match choice(3) {
        0 => vec!["obj".into()],
        1 => vec!["obj".into(), "a".into()],
        _ => vec!["obja".into()],
    };
    let (p, q) = (path(), path());
    let (mut v, mut w) = (Vec::new(), Vec::new());
    for k in ["x", "name"] {
        let i = choice(4);
        let (x, y) = if i == 0 { (None, None) } else { opt(i, (small(), small())) };
        v.extend(x.map(|x| (k, x)));
        w.extend(y.map(|y| (k, y)));
    }
    (D::Prefab(p, v), D::Prefab(q, w))
}
fn pair(depth: u8) -> (D, D) {
    if depth == 0 {
        return (leaf(true), leaf(true));
    }
    match choice(6) {
        0 => (leaf(true), leaf(true)),
        1 => {
            let (a, b) = item_pairs(depth - 1);
            (D::List(a), D::List(b))
        }
        2 => {
            let f = || [ConstFn::Icon, ConstFn::Newlist][choice(2)];
            let (f, g) = (f(), f());
            let (a, b) = item_pairs(depth - 1);
            (D::Fn(f, a), D::Fn(g, b))
        }
        3 => prefab_pairs(),
        4 => {
            let i = choice(4);
            let t = if i == 0 { (None, None) } else { opt(i, (D::Prefab(vec!["a".into()], vec![("x", leaf(true))]), D::Prefab(vec!["a".into()], vec![("x", leaf(true))]))) };
            let j = choice(4);
            let a = if j == 0 { (None, None) } else { opt(j, item_pairs(depth - 1)) };
            (D::New(t.0.map(Box::new), a.0), D::New(t.1.map(Box::new), a.1))
        }
        _ => {
            let one = || match choice(8) {
                0 => D::Leaf(Null),
                1 => D::Leaf(F(0.0)),
                2 => D::Leaf(S(String::new())),
                3 => D::Leaf(R(String::new())),
                4 => D::List(vec![]),
                5 => D::Fn(ConstFn::Newlist, vec![]),
                6 => D::Prefab(vec![], vec![]),
                _ => D::New(None, None),
            };
            (one(), one())
        }
    }
}

/// C18: equality is by value and equal constants hash alike.
pub fn equality() {
    let (d, e) = pair(param(0) as u8);
    let (a, b) = (d.build(false), e.build(true));
    let eq = a == b;
    check("eq", eq == d.equal(&e));
    check("symmetric", eq == (b == a));
    check("reflexive", a == a);
    if eq {
        reach("equal");
        check("hash", hash(&a) == hash(&b));
    } else {
        reach("different");
    }
}

/// C18: numbers alone, every bit pattern.
pub fn equality_floats() {
    let (x, y) = (any_f32(), any_f32());
    let (a, b) = (Constant::Float(x), Constant::Float(y));
    check("eq", (a == b) == (x == y || (x.is_nan() && y.is_nan())));
    if a == b {
        reach("equal");
        check("hash", hash(&a) == hash(&b));
    }
}

struct Text<'a> {
    toks: Vec<&'a [u8]>,
    pos: usize,
}
impl<'a> Text<'a> {
    fn lex(t: &'a [u8]) -> Text<'a> {
        let mut toks = Vec::new();
        let mut i = 0;
        while i < t.len() {
            let b = i;
            i += 1;
            match t[b] {
                b' ' => continue,
                b'1' | b'2' => while i < t.len() && matches!(t[i], b'1' | b'2') {
                    i += 1
                },
                b'*' | b'<' if i < t.len() && t[i] == t[b] => i += 1,
                _ => {}
            }
            toks.push(&t[b..i]);
        }
        Text { toks, pos: 0 }
    }
    fn next(&mut self) -> Option<&'a [u8]> {
        self.pos += 1;
        self.toks.get(self.pos - 1).copied()
    }
    fn level(op: &[u8]) -> Option<usize> {
        Some(match op {
            b"**" => 3,
            b"*" => 2,
            b"<" => 1,
            b"<<" => 0,
            _ => return None,
        })
    }
    /// None: not an expression; Some(None): not constant
    fn expr(&mut self, min: usize) -> Option<Option<M>> {
        let mut l = self.unary()?;
        while let Some(k) = self.toks.get(self.pos).and_then(|op| Text::level(op)) {
            if k < min {
                break;
            }
            self.pos += 1;
            let r = self.expr(k + 1)?;
            let op = [BinaryOp::LShift, BinaryOp::Less, BinaryOp::Mul, BinaryOp::Pow][k];
            l = match (l, r) {
                (Some(l), Some(r)) => binary(op, &l, &r),
                _ => None,
            };
        }
        Some(l)
    }
    fn unary(&mut self) -> Option<Option<M>> {
        Some(match self.next()? {
            b"!" => self.unary()?.map(|v| flag(!v.truthy())),
            b"*" => {
                self.unary()?;
                None
            }
            b"(" => {
                if self.toks.get(self.pos) == Some(&&b")"[..]) {
                    self.pos += 1;
                    return Some(Some(Null));
                }
                let v = self.expr(0)?;
                if self.next()? != b")" {
                    return None;
                }
                v
            }
            n if n[0] == b'1' || n[0] == b'2' => {
                let mut v = 0.0f32;
                for d in n {
                    v = v * 10.0 + (d - b'0') as f32;
                }
                Some(F(v))
            }
            _ => return None,
        })
    }
}

/// C16: a text denotes the value of the expression it consists of, or none.
pub fn evaluated() {
    let mut t = text(param(0) as usize, b"12*<!() ");
    for c in &mut t {
        *c = concrete(*c as u64) as u8;
    }
    note(&t);
    // blanks at the start would be indentation
    assume(t[0] != b' ');
    let mut r = Text::lex(&t);
    let want = r.expr(0);
    let want = if r.pos >= r.toks.len() { want.flatten() } else { None };
    match (evaluate_str(Default::default(), &t), want) {
        (Ok(c), Some(m)) => {
            reach("ok");
            check("value", m.is(&c));
        }
        (Err(_), None) => reach("err"),
        (Ok(_), None) => check("not_constant", false),
        (Err(_), Some(_)) => check("constant", false),
    }
}

/// C17: strings and resources of every sort.
pub fn display_text() {
    let n = param(0);
    let mut t = String::new();
    let resource = choice(2) == 1;
    for _ in 0..n {
        if resource {
            t.push(of(b"ab .,;=(){}[]\"/@") as char);
            continue;
        }
        match choice(5) {
            0 => t.push(of(b"a ,;(){}/'@#") as char),
            1 => t.push('"'),
            2 => t.push('\n'),
            3 => t.push('}'),
            _ => {
                t.push('\\');
                t.push(of(b"\"\\n[") as char);
            }
        }
    }
    let c = if resource { Constant::Resource(t.into()) } else { Constant::string(t) };
    let s = c.to_string();
    note(s.as_bytes());
    match evaluate_str(Default::default(), s.as_bytes()) {
        Ok(back) => {
            reach(if resource { "resource" } else { "string" });
            check("same", back == c);
        }
        Err(_) => check("readable", false),
    }
}

/// Any number of up to `n` significant digits out of `abc` and any magnitude from 10^-12 to 10^12, or with few digits, from 10^-38 to 10^38.
pub fn some_number(n: u64, abc: &'static [u8]) -> f32 {
    let first = abc[1 + choice(abc.len() as u8 - 1)];
    let mut t = String::new();
    if choice(2) == 1 {
        t.push('-');
    }
    t.push(first as char);
    t.push('.');
    let wide = choice(2) == 1;
    for _ in 1..if wide { n.min(2) } else { n } {
        t.push(abc[choice(abc.len() as u8)] as char);
    }
    let e = if wide { choice(76) as i32 - 37 } else { choice(25) as i32 - 12 };
    t.push_str("0e");
    t.push_str(&e.to_string());
    t.parse().unwrap()
}

/// C17: numbers of up to six significant digits.
pub fn display_numbers() {
    let c = Constant::Float(some_number(param(0), b"0194"));
    let s = c.to_string();
    note(s.as_bytes());
    match evaluate_str(Default::default(), s.as_bytes()) {
        Ok(back) => {
            reach("number");
            check("same", back == c);
            log(s.len() as u64);
        }
        Err(_) => check("readable", false),
    }
}

/// C17: what is shown reads back as the same value.
pub fn display() {
    let d = datum(false, param(0) as u8);
    let c = d.build(false);
    let s = c.to_string();
    note(s.as_bytes());
    match evaluate_str(Default::default(), s.as_bytes()) {
        Ok(back) => {
            reach("display");
            let want = c.clone();
            check("same", back == want);
            check("same_text", back.to_string() == s);
        }
        Err(_) => check("readable", false),
    }
}
