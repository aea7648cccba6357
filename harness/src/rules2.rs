//! C28, C39-C41 on programs that hold many cases at once: the first choices fork the execution, the rest are
//! all tried within one program.
use crate::lint::{lint, of_type};
use crate::rules::{Expect, Src};
use crate::symx::*;
use dm::Context;

/// A source of choices: the first few fork the execution, the others count through all combinations.
pub struct Cases {
    lead: Vec<usize>,
    forks: usize,
    digits: Vec<(usize, usize)>,
    pos: usize,
}
impl Cases {
    pub fn new(forks: u64) -> Cases {
        Cases { lead: Vec::new(), forks: forks as usize, digits: Vec::new(), pos: 0 }
    }
    pub fn pick(&mut self, n: usize) -> usize {
        let p = self.pos;
        self.pos += 1;
        if p < self.forks {
            if p == self.lead.len() {
                self.lead.push(choice(n as u8));
            }
            return self.lead[p];
        }
        let d = p - self.forks;
        if d == self.digits.len() {
            self.digits.push((0, n));
        }
        self.digits[d].0
    }
    /// Goes to the next combination.
    pub fn next(&mut self) -> bool {
        self.digits.truncate(self.pos.saturating_sub(self.forks));
        self.pos = 0;
        while let Some(d) = self.digits.last_mut() {
            d.0 += 1;
            if d.0 < d.1 {
                return true;
            }
            self.digits.pop();
        }
        false
    }
}

const TYPES: [&str; 4] = ["/datum/a", "/datum/a/b", "/datum/a/b/d", "/datum/c"];

// ------------------------------------------------------------------------------------------------
// C41

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Unknown,
    Obj(usize),
    List(Option<usize>),
    Lists(usize),
}
use Ty::*;
impl Ty {
    fn element(self) -> Ty {
        match self {
            List(Some(t)) => Obj(t),
            Lists(t) => List(Some(t)),
            _ => Unknown,
        }
    }
}

fn members(s: &mut Src) {
    for t in TYPES {
        s.put(t);
    }
    for (t, n) in [(0, "a"), (1, "b"), (3, "c")] {
        s.put(&format!("{}/var/in_{n}", TYPES[t]));
        s.put(&format!("{}/proc/do_{n}()", TYPES[t]));
        s.put("\treturn 1");
    }
}

/// Accesses that tell whether an expression has a type, each with whether it is fine.
fn probe(want: &mut Expect, s: &mut Src, expr: &str, ty: Ty, call: bool) {
    const FIELDS: [&str; 3] = ["in_a", "in_b", "in_c"];
    const CALLS: [&str; 3] = ["do_a()", "do_b()", "do_c()"];
    let names = if call { CALLS } else { FIELDS };
    match ty {
        Unknown => {
            let l = s.put(&format!("\tx = {expr}.{}", names[0]));
            want.must.push((if call { "proc_call_static_type" } else { "field_access_static_type" }, l));
        }
        Obj(0) => {
            s.put(&format!("\tx = {expr}.{}", names[0]));
            let l = s.put(&format!("\tx = {expr}.{}", names[1]));
            want.must.push(("", l));
        }
        Obj(t) => {
            s.put(&format!("\tx = {expr}.{}", names[if t == 3 { 2 } else { 1 }]));
        }
        List(None) => {
            s.put(&format!("\tx = {expr}.{}", ["len", "Copy()"][call as usize]));
            let l = s.put(&format!("\tx = {expr}[1].in_b"));
            want.must.push(("field_access_static_type", l));
        }
        List(Some(_)) | Lists(_) => {
            s.put(&format!("\tx = {expr}.{}", ["len", "Copy()"][call as usize]));
            probe(want, s, &format!("{expr}[1]"), ty.element(), call);
        }
    }
}

/// Return types made of the parameters' types, called with arguments given in every way.
pub fn return_types() {
    let ctx = Context::default();
    let mut want = Expect::default();
    let many = param(0) as usize;
    lint(&ctx, || {
        const PARTS: [&str; 9] = ["/datum/c", "p", "q.type", "null", "p.type", "q[_].type", "p[_][_].type", "q", "/list/datum/a"];
        // text, its value if that is a type, its static type
        const ARGS: [(&str, Ty, Ty); 7] = [
            ("/datum/c", Obj(3), Unknown),
            ("a", Unknown, Obj(0)),
            ("llb", Unknown, Lists(1)),
            ("null", Unknown, Unknown),
            ("la", Unknown, List(Some(0))),
            ("/datum/a/b", Obj(1), Unknown),
            ("o", Unknown, Unknown),
        ];
        const ABSENT: (&str, Ty, Ty) = ("", Unknown, Unknown);
        let way = choice(7);
        let p = match way {
            4 | 6 => ABSENT,
            _ => ARGS[choice(7)],
        };
        let mut s = Src::default();
        members(&mut s);
        // an expression is four numbers: its form and up to three parts
        let mut exprs: Vec<[usize; 4]> = Vec::new();
        for a in 0..PARTS.len() {
            exprs.push([0, a, 0, 0]);
        }
        for form in 1..5 {
            for a in 0..PARTS.len().min(many + 2) {
                for b in 0..PARTS.len().min(many + 2) {
                    if form == 3 || form == 4 {
                        for c in 0..many.min(3) {
                            exprs.push([form, a, b, c]);
                        }
                    } else {
                        exprs.push([form, a, b, 0]);
                    }
                }
            }
        }
        for (k, e) in exprs.iter().enumerate() {
            let [a, b, c] = [PARTS[e[1]], PARTS[e[2]], PARTS[e[3]]];
            s.put(&format!("/proc/g{k}(p, q, r)"));
            s.put(&format!(
                "\tset SpacemanDMM_return_type = {}",
                match e[0] {
                    0 => a.to_owned(),
                    1 => format!("{a} || {b}"),
                    2 => format!("{a} && {b}"),
                    3 => format!("{a} ? {b} : {c}"),
                    _ => format!("({a} || {c}) && {b}"),
                }
            ));
        }
        s.put("/proc/t(datum/a/a, list/datum/a/la, list/list/datum/a/b/llb, o)");
        s.put("\tvar/x");
        for (k, e) in exprs.iter().enumerate() {
            let q = match way {
                5 | 6 => ABSENT,
                _ => ARGS[(k + e[1] * 3 + e[2] * 2) % 7],
            };
            let args = match way {
                0 => format!("{}, {}", p.0, q.0),
                1 => format!("{}, q = {}", p.0, q.0),
                2 => format!("p = {}, q = {}", p.0, q.0),
                3 => format!("q = {}, p = {}", q.0, p.0),
                4 => format!("q = {}", q.0),
                5 => p.0.to_owned(),
                _ => String::new(),
            };
            let part = |i: usize| match i {
                0 => Obj(3),
                1 => p.1,
                2 => q.2,
                3 => Unknown,
                4 => p.2,
                5 => q.2.element(),
                6 => p.2.element().element(),
                7 => q.1,
                _ => List(Some(0)),
            };
            let (a, b, c) = (part(e[1]), part(e[2]), part(e[3]));
            let or = |a, b| if a != Unknown { a } else { b };
            let and = |a, b| if a != Unknown { b } else { a };
            let ty = match e[0] {
                0 => a,
                1 => or(a, b),
                2 => and(a, b),
                3 => {
                    if a != Unknown {
                        b
                    } else {
                        c
                    }
                }
                _ => and(or(a, c), b),
            };
            probe(&mut want, &mut s, &format!("g{k}({args})"), ty, k % 2 == 1);
        }
        s.text
    });
    want.check(&ctx);
    check("as_many", ctx.errors().len() == want.must.len());
}

/// Accesses through chains of fields, calls and indexing, many to a program.
pub fn static_types() {
    let ctx = Context::default();
    let mut want = Expect::default();
    let steps = param(0);
    lint(&ctx, || {
        let mut s = Src::default();
        members(&mut s);
        s.put("/datum/a/var/datum/a/b/to_b");
        s.put("/datum/a/var/list/datum/a/b/bs");
        s.put("/datum/a/b/var/list/list/datum/c/cs");
        s.put("/datum/a/var/list/plain");
        for (name, params, ty) in [
            ("get_c", "", "/datum/c"),
            ("get_as", "", "/list/datum/a"),
            ("given", "what, other", "other"),
            ("same", "what", "what.type"),
            ("one_of", "datum/c/what, other", "other[_].type"),
            ("inner", "what", "what[_][_].type"),
            ("either", "what, other", "what || other.type"),
            ("both", "what, other", "what && other.type"),
        ] {
            s.put(&format!("/datum/a/proc/{name}({params})"));
            s.put(&format!("\tset SpacemanDMM_return_type = {ty}"));
        }
        s.put("/datum/a/proc/get()");
        s.put("\treturn new /datum/a");
        s.put("/var/datum/a/b/GB");
        s.put("/var/list/datum/c/GL");
        s.put("/proc/make(list/what)");
        s.put("\tset SpacemanDMM_return_type = what[_].type");
        const STARTS: [(&str, Ty); 30] = [
            ("a", Obj(0)),
            ("b", Obj(1)),
            ("u", Unknown),
            ("la", List(Some(0))),
            ("llb", Lists(1)),
            ("src", Obj(0)),
            ("GB", Obj(1)),
            ("global.GB", Obj(1)),
            ("p", Obj(2)),
            ("(a)", Obj(0)),
            ("to_b", Obj(1)),
            ("get_c()", Obj(3)),
            ("l", List(None)),
            ("(u ? a : u)", Obj(0)),
            ("(u ? u : a)", Unknown),
            ("(u ? u : la)", Unknown),
            ("(u ? la : a)", List(Some(0))),
            ("(la + u)", List(Some(0))),
            ("(llb | u)", Lists(1)),
            ("(u + la)", Unknown),
            ("(a || b)", Unknown),
            ("(u = b)", Obj(1)),
            ("(a = u)", Unknown),
            ("astype(u, /datum/a/b)", Obj(1)),
            ("astype(a)", Obj(0)),
            ("global.GL", List(Some(3))),
            ("make(llb)", List(Some(1))),
            ("global.make(la)", Obj(0)),
            ("(la - u - u)", List(Some(0))),
            ("(la * u)", Unknown),
        ];
        const STEPS: [&str; 25] = [
            "", "[1]", ".to_b", ".bs", ".get_c()", ".given(1, /datum/a/b)", ".same(b)", ".one_of(b, la)", ".plain", ".get()", ".get_as()", ".same(la)", ".cs", "?.to_b",
            ".given(other = /datum/c)", ".one_of(other = llb)", ".either(/datum/c, b)", ".either(null, b)", "?[1]", ".inner(llb)", ".inner(la)", ".both(null, b)",
            ".both(/datum/c, b)", ":to_b", ".given(1, other = /datum/c)",
        ];
        let mut c = Cases::new(param(1));
        s.put("/datum/a/proc/t(datum/a/b/d/p)");
        s.put("\tvar/datum/a/a");
        s.put("\tvar/datum/a/b/b");
        s.put("\tvar/u");
        s.put("\tvar/list/datum/a/la");
        s.put("\tvar/list/list/datum/a/b/llb");
        s.put("\tvar/list/l");
        s.put("\tvar/x");
        loop {
            let (start, mut ty) = STARTS[c.pick(STARTS.len())];
            let mut expr = start.to_owned();
            let mut bad: Vec<&'static str> = Vec::new();
            for _ in 0..steps {
                let step = c.pick(STEPS.len());
                if step == 0 {
                    break;
                }
                expr += STEPS[step];
                let on_a = matches!(ty, Obj(0..=2));
                ty = if step == 1 || step == 18 {
                    if let Obj(_) = ty {
                        bad.push("improper_index");
                        ty
                    } else {
                        ty.element()
                    }
                } else if step == 23 {
                    Unknown
                } else if on_a && (step != 12 || ty != Obj(0)) {
                    match step {
                        2 | 13 => Obj(1),
                        3 => List(Some(1)),
                        4 | 14 | 24 => Obj(3),
                        5 | 6 | 17 => Obj(1),
                        7 => Obj(0),
                        8 => List(None),
                        10 | 11 => List(Some(0)),
                        12 => Lists(3),
                        15 => List(Some(1)),
                        16 => Obj(3),
                        19 | 22 => Obj(1),
                        _ => Unknown,
                    }
                } else {
                    bad.push(match (ty, STEPS[step].ends_with(')')) {
                        (Unknown, true) => "proc_call_static_type",
                        (Unknown, false) => "field_access_static_type",
                        _ => "",
                    });
                    Unknown
                };
            }
            let from = s.lines + 1;
            for call in [false, true] {
                probe(&mut want, &mut s, &expr, ty, call);
            }
            for l in from..=s.lines {
                want.must.extend(bad.iter().map(|b| (*b, l)));
            }
            if !c.next() {
                break;
            }
        }
        s.text
    });
    want.check(&ctx);
    check("as_many", ctx.errors().len() == want.must.len());
}

// ------------------------------------------------------------------------------------------------
// C28, C39: every place where an expression can stand

const EXPRS: [&str; 72] = [
    "@", "(@)", "list(1, 2, 3, @)", "list(@ = 1)", "list(\"k\" = @)", "list(k = @, 2)", "pick(1, @)", "pick(@; 1, 2)", "pick(50; @, 2)", "pick(1, 50; @)", "a[@]", "l[@]", "a?[@]", "h(@)",
    "h(1, 2, @)", "h(p = @)", "global.h(@)", "(@ ? 1 : 2)", "(a ? @ : 2)", "(a ? 1 : @)", "\"[@]\"", "\"[1] [@] b\"", "(!@)", "(-@)", "(~@)", "(@ + 1)", "(1 - @)", "(a || @)",
    "(@ && a)", "(a in @)", "(@ in l)", "(b = @)", "(b += @)", "(b == @)", "(l[@] || 1)", "new /datum/a(@)", "new /datum/a(1, @)", "locate(@)", "(locate(/datum/a) in @)",
    "locate(@, 1, 1)", "call(@)(1)", "call(a)(@)", "call(a, @)(1)", "o.m(@)", "o.m(1, p = @)", "o:m(@)", "o?.m(@)", "o?:m(@)", "o:m(p = @)", "max(@, 1)", "istype(@, /datum)", "(a ** @)",
    "(@ & a)", "(a | @)", "o.m(1).m(@)", "o.o.m(@)", "(b << @)", "a[1][@]", "(a > @ ? a : 1)", "o[@]", "h(h(1), h(@))", "(a ? (b ? @ : 1) : 2)", "(a = (b = @))", "list(list(@))", "lo.m(@)", "lo?.m(1, @)", "new lo(@)",
    "new o.o(@)", "new /list(@)", "o.none(1, p = @)", "none(@)", "global.none(@)",
];
/// `#` is the expression; the last three run on their own.
const STMTS: [&str; 50] = [
    "\t#", "\tx = #", "\treturn #", "\tif(#)\n\t\tx = 1", "\tif(a)\n\t\tx = 1\n\telse if(#)\n\t\tx = 2", "\tif(a)\n\t\tx = 1\n\telse\n\t\tx = #", "\tif(a)\n\t\tx = 1\n\telse if(b)\n\t\tx = #\n\telse\n\t\tx = 1",
    "\twhile(#)\n\t\tx = 1", "\twhile(a)\n\t\tx = #", "\tdo\n\t\tx = 1\n\twhile(#)", "\tdo\n\t\tx = #\n\twhile(a)", "\tfor(x = #, a, x++)\n\t\tx = 1", "\tfor(var/y = #, a, x++)\n\t\tx = 1",
    "\tfor(x = 1, #, x++)\n\t\tx = 1", "\tfor(x = 1, a, x = #)\n\t\tx = 1", "\tfor(x = 1, a, x++)\n\t\tx = #", "\tfor(x in #)\n\t\tx = 1", "\tfor(var/y in #)\n\t\tx = 1", "\tfor(var/y in l)\n\t\tx = #",
    "\tfor(var/datum/y as anything in #)\n\t\tx = 1", "\tfor(var/y in # to 3)\n\t\tx = 1", "\tfor(var/y = # to 3)\n\t\tx = 1", "\tfor(var/y in 1 to #)\n\t\tx = 1", "\tfor(var/y in 1 to 9 step #)\n\t\tx = 1",
    "\tfor(var/y in 1 to 3)\n\t\tx = #", "\tfor(x in 1 to #)\n\t\tx = 1", "\tfor(x in # to 3)\n\t\tx = 1", "\tfor(x = # to 3)\n\t\tx = 1", "\tfor(var/k, v in #)\n\t\tx = 1", "\tfor(var/k, v in l)\n\t\tx = #",
    "\tfor()\n\t\tx = #", "\tswitch(#)\n\t\tif(1)\n\t\t\tx = 1", "\tswitch(a)\n\t\tif(1)\n\t\t\tx = 1\n\t\tif(2)\n\t\t\tx = #", "\tswitch(a)\n\t\tif(1)\n\t\t\tx = 1\n\t\telse\n\t\t\tx = #", "\tdel(#)", "\tthrow #",
    "\tCRASH(#)", "\tvar/y = #", "\tvar/datum/a/y = #", "\tvar/y = 1, w = #", "\tx += #", "\tlo:m(#)", "\tlabel:\n\t\tx = #", "\ttry\n\t\tx = #\n\tcatch\n\t\tx = 1", "\ttry\n\t\tx = 1\n\tcatch(var/e)\n\t\tx = #", "\tif(a)\n\t\tfor(var/y in l)\n\t\t\tif(b)\n\t\t\t\tx = #", "\tvar/list/y = list(1) + #",
    "\tspawn(#)\n\t\tx = 1", "\tspawn(1)\n\t\tx = #", "\tspawn(1)\n\t\tif(a)\n\t\t\tx = #",
];

/// A blocking call, a change or something harmless anywhere in a proc with a setting against it.
pub fn places() {
    let ctx = Context::default();
    // 0: blocking, 1: impure
    let pure = param(0) == 1;
    let nested = param(1) == 1;
    let mut procs: Vec<(u32, bool)> = Vec::new();
    lint(&ctx, || {
        let mut s = Src::default();
        s.put("/datum/a/var/datum/a/o");
        s.put("/datum/a/proc/m(q, p, r)");
        s.put("\tset SpacemanDMM_return_type = /datum/a");
        s.put("\treturn 1");
        s.put("/datum/a/proc/operator\\[](i)");
        s.put("\treturn i");
        s.put("/datum/a/New(q)");
        s.put("\treturn");
        s.put("/proc/h(q, p, r)");
        s.put("\treturn 1");
        s.put("/var/G = 1");
        let kind = choice(3);
        let bad = kind != 0;
        let mut c = Cases::new(1);
        loop {
            // each has its own, as each is reported once
            let k = procs.len();
            let callee = format!("z{k}()");
            let what = match kind {
                0 => "h()",
                1 => callee.as_str(),
                _ if pure => "(G = 1)",
                _ => "input()",
            };
            let (expr, stmt) = if nested {
                let outer = c.pick(EXPRS.len());
                let inner = c.pick(EXPRS.len());
                (EXPRS[outer].replace('@', &EXPRS[inner].replace('@', what)), (outer + inner) % 2)
            } else {
                let stmt = c.pick(STMTS.len());
                (EXPRS[c.pick(EXPRS.len())].replace('@', what), stmt)
            };
            if kind == 1 {
                s.put(&format!("/proc/{callee}"));
                s.put(if pure { "\tG = 2" } else { "\tsleep(1)" });
            }
            let line = s.put(&format!("/proc/c{k}()"));
            s.put(if pure { "\tset SpacemanDMM_should_be_pure = 1" } else { "\tset SpacemanDMM_should_not_sleep = 1" });
            s.put("\tvar/x");
            s.put("\tvar/a");
            s.put("\tvar/b");
            s.put("\tvar/k");
            s.put("\tvar/lo");
            s.put("\tvar/list/l");
            s.put("\tvar/datum/a/o");
            let text = STMTS[stmt].replace('#', &expr);
            s.lines += text.matches('\n').count() as u32;
            s.put(&text);
            procs.push((line, bad && (pure || stmt < STMTS.len() - 3)));
            if !c.next() {
                break;
            }
        }
        s.text
    });
    let found: Vec<u32> = of_type(&ctx, if pure { "must_be_pure" } else { "must_not_sleep" }).iter().map(|e| e.location().line).collect();
    for e in ctx.errors().iter() {
        if e.errortype().is_none() || found.contains(&e.location().line) {
            note(format!("{}: {e}", e.location().line).as_bytes());
        }
    }
    for &(line, bad) in &procs {
        let said = found.contains(&line);
        if said != bad {
            note(format!("proc at {line}").as_bytes());
        }
        check("found", said || !bad);
        check("real", !said || bad);
    }
    reach(if procs[0].1 { "bad" } else { "fine" });
}

/// Blocks of blocking calls and spawned blocks, nested in any way.
pub fn spawns() {
    let ctx = Context::default();
    let mut procs: Vec<(u32, bool)> = Vec::new();
    lint(&ctx, || {
        let mut s = Src::default();
        let mut c = Cases::new(3);
        let n = param(0);
        loop {
            let k = procs.len();
            s.put(&format!("/proc/z{k}()"));
            s.put("\tsleep(1)");
            let line = s.put(&format!("/proc/c{k}(a)"));
            s.put("\tset SpacemanDMM_should_not_sleep = 1");
            let mut bad = false;
            // for each block that is open, whether it is one that runs on its own
            let mut open: Vec<bool> = Vec::new();
            let mut must = false;
            for _ in 0..n {
                let what = c.pick(7);
                let tabs = "\t".repeat(open.len() + 1);
                if must && what == 6 {
                    // a block has something in it
                    s.put(&format!("{tabs}a = 1"));
                }
                must = false;
                match what {
                    0 => {
                        s.put(&format!("{tabs}a = 1"));
                    }
                    1 | 2 => {
                        s.put(&format!("{tabs}{}", ["sleep(1)", &format!("z{k}()")][what - 1]));
                        bad |= !open.contains(&true);
                    }
                    3..=5 => {
                        s.put(&format!("{tabs}{}", ["spawn(1)", "if(a)", "spawn()"][what - 3]));
                        open.push(what != 4);
                        must = true;
                    }
                    _ => {
                        open.pop();
                    }
                }
            }
            if must {
                s.put(&format!("{}a = 1", "\t".repeat(open.len() + 1)));
            }
            procs.push((line, bad));
            if !c.next() {
                break;
            }
        }
        s.text
    });
    let found: Vec<u32> = of_type(&ctx, "must_not_sleep").iter().map(|e| e.location().line).collect();
    for &(line, bad) in &procs {
        if found.contains(&line) != bad {
            note(format!("proc at {line}").as_bytes());
        }
        check("spawned", found.contains(&line) == bad);
        reach(if bad { "bad" } else { "fine" });
    }
    check("nothing_else", ctx.errors().iter().all(|e| e.errortype() == Some("must_not_sleep")));
}

/// A marked proc that reaches impure statements in the procs it calls, in any number and order.
pub fn pure_reach() {
    let ctx = Context::default();
    let mut want: Vec<(u32, u32)> = Vec::new();
    let mut ops: Vec<u32> = Vec::new();
    let mut discards: Vec<u32> = Vec::new();
    lint(&ctx, || {
        let mut s = Src::default();
        s.put("/var/G = 1");
        s.put("/proc/one()");
        s.put("\tset SpacemanDMM_should_be_pure = 1");
        s.put("\treturn 1");
        let mut c = Cases::new(3);
        let n = param(0);
        loop {
            // three procs, in a chain and with a loop at the end
            let k = s.lines;
            let mut root = 0;
            for p in 0..3 {
                let line = s.put(&format!("/proc/p{p}_{k}()"));
                if p == 0 {
                    s.put("\tset SpacemanDMM_should_be_pure = 1");
                    root = line;
                }
                let mut calls = false;
                s.put("\tvar/x");
                for _ in 0..if p == 1 { n } else { 2 } {
                    match c.pick(if p == 1 { 4 } else { 3 }) {
                        0 => {
                            // the last is called by none
                            let l = s.put("\tG = 1");
                            want.push((root, l));
                            ops.push(l);
                        }
                        1 => {
                            s.put(&format!("\tx = p{}_{k}()", p.max(1) % 2 + 1));
                            calls = true;
                        }
                        2 => {
                            s.put("\tx = one()");
                        }
                        _ => {
                            const DROPS: [&str; 5] = ["\tone()", "\tone()[1]", "\tone()[1][x]", "\tone()?[1]", "\tone()"];
                            let l = s.put(DROPS[(k as usize / 3) % 5]);
                            discards.push(l);
                        }
                    }
                }
                let _ = calls;
                if p == 0 {
                    s.put(&format!("\treturn p1_{k}()"));
                } else if p == 1 {
                    s.put(&format!("\treturn p2_{k}()"));
                }
            }
            if !c.next() {
                break;
            }
        }
        s.text
    });
    let errors = ctx.errors();
    let mut found: Vec<(u32, u32)> = Vec::new();
    for e in errors.iter() {
        if e.errortype() == Some("must_be_pure") {
            for n in e.notes() {
                if ops.binary_search(&n.location().line).is_ok() {
                    found.push((e.location().line, n.location().line));
                }
            }
        } else {
            check("discards_only", e.description().ends_with("discards return value") && discards.contains(&e.location().line));
            reach("discards");
        }
    }
    check("discards", errors.iter().filter(|e| e.errortype() != Some("must_be_pure")).count() == discards.len());
    found.sort();
    want.sort();
    if found != want {
        note(format!("{found:?} for {want:?}").as_bytes());
    }
    check("as_reached", found == want);
    reach(if want.is_empty() { "fine" } else { "bad" });
}

// ------------------------------------------------------------------------------------------------
// C40

/// Calls with up to three arguments, each by keyword or not, at two places, to a proc with overrides.
pub fn kwargs() {
    let ctx = Context::default();
    const PARAMS: [&[&str]; 5] = [&["a", "b"], &["a"], &[], &["b"], &["b", "a"]];
    const ARGS: [&str; 5] = ["1", "a = 1", "b = 1", "z = 1", "\"b\" = 1"];
    #[derive(Default)]
    struct Case {
        defs: Vec<(u32, usize)>,
        calls: Vec<(u32, Vec<usize>)>,
        on: usize,
    }
    let mut cases: Vec<Case> = Vec::new();
    lint(&ctx, || {
        let mut s = Src::default();
        let mut c = Cases::new(3);
        let n = param(0) as usize;
        loop {
            let k = cases.len();
            let mut case = Case::default();
            let ty = [format!("/datum/k{k}"), format!("/datum/k{k}/l"), format!("/datum/k{k}/l/m")];
            for t in 0..3 {
                let p = c.pick(if t == 0 { 4 } else { 5 });
                let line = s.put(&format!("{}{}/f({})", ty[t], if t == 0 { "/proc" } else { "" }, PARAMS[p].join(", ")));
                s.put("\treturn 1");
                case.defs.push((line, p));
            }
            case.on = k % 2;
            s.put(&format!("/proc/t{k}(o)"));
            s.put(&format!("\tvar{}/x = o", ty[case.on]));
            for i in 0..2 {
                let mut args = Vec::new();
                if i == 1 {
                    args.extend([&[][..], &[1], &[2], &[3], &[1, 0, 0], &[0, 2, 0]][c.pick(6)]);
                }
                for _ in 0..if i == 0 { n } else { 0 } {
                    let a = c.pick(ARGS.len() + 1);
                    if a == ARGS.len() {
                        break;
                    }
                    args.push(a);
                }
                // a keyword twice is another matter
                let keys = |w: &[usize]| args.iter().filter(|a| w.contains(a)).count() > 1;
                if keys(&[1]) || keys(&[2, 4]) || keys(&[3]) {
                    args.truncate(1);
                }
                let l = s.put(&format!("\tx.f({})", args.iter().map(|&a| ARGS[a]).collect::<Vec<_>>().join(", ")));
                case.calls.push((l, args));
            }
            cases.push(case);
            if !c.next() {
                break;
            }
        }
        s.text
    });
    let errors = ctx.errors();
    let bad: Vec<u32> = errors.iter().filter(|e| e.description().starts_with("bad keyword argument")).map(|e| e.location().line).collect();
    let late: Vec<u32> = errors.iter().filter(|e| e.description().starts_with("proc called with non-kwargs after kwargs")).map(|e| e.location().line).collect();
    // each override named in a report
    let mut over: Vec<u32> = Vec::new();
    let mut other = errors.len() - bad.len() - late.len();
    for e in errors.iter() {
        if e.errortype() == Some("override_missing_keyword_arg") {
            over.extend(e.notes().iter().map(|n| n.location().line));
            other -= 1;
        }
    }
    check("nothing_else", other == 0);
    for case in &cases {
        let has = |d: usize, k: &str| PARAMS[case.defs[d].1].contains(&k);
        const KEYS: [&str; 5] = ["", "a", "b", "z", "b"];
        for (line, args) in &case.calls {
            let unknown = args.iter().filter(|&&a| a != 0 && !has(case.on, KEYS[a])).count();
            check("unknown_keyword", bad.iter().filter(|l| *l == line).count() == unknown);
            let first = args.iter().position(|&a| a != 0).unwrap_or(args.len());
            let after = args[first..].iter().filter(|&&a| a == 0).count();
            check("positional_after_keyword", late.iter().filter(|l| *l == line).count() == after);
            reach(if unknown + after == 0 { "fine" } else { "reported" });
        }
        for d in 0..3 {
            let lacks = d > case.on && case.calls.iter().any(|(_, args)| args.iter().any(|&a| a != 0 && has(case.on, KEYS[a]) && !has(d, KEYS[a])));
            check("override_reported", over.contains(&case.defs[d].0) == lacks);
            if lacks {
                reach("override");
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// C26

const GLOBAL: usize = 9;
fn is_a(t: usize, of: usize) -> bool {
    t == of || t < 3 && of < 3 && t > of
}

/// Private, protected and final members used from different places, each program with many of them.
pub fn access() {
    let ctx = Context::default();
    let mut want = Expect::default();
    lint(&ctx, || {
        let mut s = Src::default();
        for t in TYPES {
            s.put(t);
        }
        // ways from a value to each type
        s.put("/datum/var/datum/a/to0");
        s.put("/datum/var/datum/a/b/to1");
        s.put("/datum/var/datum/a/b/d/to2");
        for t in 0..3 {
            s.put(&format!("/datum/proc/get{t}()"));
            s.put(&format!("\tset SpacemanDMM_return_type = {}", TYPES[t]));
        }
        let mut c = Cases::new(param(0));
        let mut k = 0;
        loop {
            let var = c.pick(2) == 0;
            // none, private, protected, final
            let flag = c.pick(4);
            // the type it belongs to
            let own = c.pick(3);
            // where there is an override, and whether it declares the variable anew
            let over = own + c.pick(3);
            let redeclares = var && over == own + 1 && c.pick(2) == 1;
            let from = [0, 1, 2, 3, GLOBAL][c.pick(5)];
            let on = own + c.pick(3 - own);
            let form = c.pick(12);
            k += 1;
            let fine = over < 3 && (form != 0 && form != 2 || is_a(from, own) && on == own) && (form != 1 || k % 2 == 0);
            if !fine {
                if c.next() {
                    continue;
                }
                break;
            }
            if var {
                s.put(TYPES[own]);
                s.put(&format!("\tvar/{}m{k} = 1", ["", "SpacemanDMM_private/", "SpacemanDMM_protected/", "SpacemanDMM_final/"][flag]));
            } else {
                s.put(&format!("{}/proc/{}m{k}(v)", TYPES[own], if flag == 3 { "final/" } else { "" }));
                match flag {
                    1 => s.put("\tset SpacemanDMM_private_proc = 1"),
                    2 => s.put("\tset SpacemanDMM_protected_proc = TRUE"),
                    _ => 0,
                };
                s.put("\treturn 1");
            }
            if over != own {
                let line;
                if var {
                    s.put(TYPES[over]);
                    line = s.put(&if redeclares { format!("\tvar/m{k} = 2") } else { format!("\tm{k} = 2") });
                } else {
                    line = s.put(&format!("{}/m{k}(v)", TYPES[over]));
                    s.put("\treturn 2");
                }
                match flag {
                    1 => want.must.push((if var { "private_var" } else { "private_proc" }, line)),
                    3 => want.must.push((if var { "final_var" } else { "must_not_override" }, line)),
                    _ => {}
                }
                if redeclares {
                    want.must.push(("", line));
                }
            }
            let m = format!("m{k}{}", if var { "" } else { "()" });
            s.put(&if from == GLOBAL { format!("/proc/t{k}(o)") } else { format!("{}/proc/t{k}(o)", TYPES[from]) });
            let receiver = if form == 0 || form == 2 { from } else { on };
            let ty = TYPES[on];
            let line = match form {
                0 => s.put(&format!("\treturn src.{m}")),
                2 => s.put(&format!("\treturn {m}")),
                3 => {
                    s.put(&format!("\tvar/list{ty}/x = o"));
                    s.put(&format!("\treturn x[1].{m}"))
                }
                4 => {
                    s.put(&format!("\tvar{ty}/x = o"));
                    s.put(&format!("\treturn x?.{m}"))
                }
                5 => {
                    s.put(&format!("\tvar{ty}/x = o"));
                    s.put(&if var { format!("\tx.{m} = 3") } else { format!("\tx.m{k}(v = 1)") })
                }
                6 => {
                    s.put(&format!("\tvar{ty}/x = o"));
                    s.put(&format!("\tif(o)\n\t\tfor(var/i in 1 to 3)\n\t\t\tif(x.{m} > i)\n\t\t\t\treturn"));
                    s.lines += 3;
                    s.lines - 1
                }
                7 => {
                    s.put("\tvar/datum/x = o");
                    s.put(&format!("\treturn x.to{on}.{m}"))
                }
                8 => {
                    s.put("\tvar/datum/x = o");
                    s.put(&format!("\treturn \"[x.get{on}().{m}]\""))
                }
                9 => s.put(&format!("\treturn astype(o, {ty}).{m}")),
                10 => {
                    s.put(&format!("\tvar{ty}/x = o"));
                    s.put(&format!("\treturn list(1, max(2, x.{m}))"))
                }
                11 => {
                    // no static check through `:`
                    s.put(&format!("\tvar{ty}/x = o"));
                    s.put(&format!("\treturn x:{m}"));
                    0
                }
                _ => {
                    s.put(&format!("\tvar{ty}/x = o"));
                    s.put(&format!("\treturn x.{m}"))
                }
            };
            let redeclared = redeclares && receiver > own;
            let private = flag == 1 && !redeclared && line != 0;
            let protected = flag == 2 && !redeclared && line != 0;
            let kind = if var { "private_var" } else { "private_proc" };
            if private && from != own {
                if var && form == 2 {
                    want.may.push((kind, line));
                } else {
                    want.must.push((kind, line));
                }
            } else if private && receiver != own {
                want.may.push((kind, line));
            }
            if protected && (from == GLOBAL || !is_a(from, own)) {
                want.must.push((if var { "protected_var" } else { "protected_proc" }, line));
            }
            if !c.next() {
                break;
            }
        }
        s.text
    });
    want.check(&ctx);
}

// ------------------------------------------------------------------------------------------------
// C27

/// Settings that bind overrides: along a chain of types with up to four definitions, two on one type included.
pub fn overrides() {
    #[derive(Default, Clone)]
    struct Def {
        ty: usize,
        line: u32,
        set: usize,
        calls: bool,
    }
    const SETS: [&str; 9] = [
        "",
        "SpacemanDMM_should_call_parent = 1",
        "SpacemanDMM_should_not_call_parent = 1",
        "SpacemanDMM_should_not_override = 1",
        "SpacemanDMM_should_call_parent = 0",
        "SpacemanDMM_should_not_call_parent = 0",
        "SpacemanDMM_can_be_redefined = 1",
        "SpacemanDMM_private_proc = 1",
        "final",
    ];
    const BODIES: [&str; 7] = [
        "\treturn 1",
        "\treturn ..()",
        "\tif(prob(5))\n\t\treturn 1 + ..()",
        "\tspawn(1)\n\t\t..(1)",
        "\tfor(var/i in 1 to 3)\n\t\tif(i)\n\t\t\tcontinue\n\t\treturn list(1, ..())",
        "\ttry\n\t\t. = ..()\n\tcatch\n\t\treturn 2",
        "\tvar/x = \"[..()]\"\n\treturn x",
    ];
    let ctx = Context::default();
    let mut want = Expect::default();
    let n = param(0) as usize;
    lint(&ctx, || {
        let mut s = Src::default();
        for t in TYPES {
            s.put(t);
        }
        let mut c = Cases::new(param(1));
        let mut k = 0;
        loop {
            k += 1;
            let mut defs: Vec<Def> = Vec::new();
            for i in 0..n {
                let set = c.pick(if i == 0 { 9 } else { param(2) as usize });
                // on the same type as the one before, or the next
                let ty = if i == 0 { 0 } else { defs[i - 1].ty + c.pick(2) };
                let calls = if i == 0 { 0 } else { c.pick(2) };
                if ty > 2 {
                    break;
                }
                let line = s.put(&match (i, set == 8) {
                    (0, false) => format!("{}/proc/f{k}()", TYPES[ty]),
                    (0, true) => format!("{}/proc/final/f{k}()", TYPES[ty]),
                    _ => format!("{}/f{k}()", TYPES[ty]),
                });
                if set != 0 && set != 8 {
                    s.put(&format!("\tset {}", SETS[set]));
                }
                let body = BODIES[if calls == 0 { 0 } else { 1 + k % (BODIES.len() - 1) }];
                s.lines += body.matches('\n').count() as u32;
                s.put(body);
                defs.push(Def { ty, line, set, calls: calls != 0 });
            }
            for (i, d) in defs.iter().enumerate().skip(1) {
                let above = |set: usize| defs[..i].iter().any(|a| a.set == set);
                if above(8) && d.set == 3 && d.ty == 0 {
                    // `final` counts for every definition on its type
                    want.may.push(("sets_directive_twice", d.line + 1));
                }
                if above(3) || above(8) {
                    want.must.push(("must_not_override", d.line));
                }
                if above(7) {
                    want.must.push(("private_proc", d.line));
                    // calling what may not be overridden
                    want.may.extend((1..6).map(|k| ("private_proc", d.line + k)));
                }
                if d.calls {
                    if defs[i - 1].set == 2 && d.set != 5 {
                        want.must.push(("must_not_call_parent", d.line));
                    }
                } else {
                    match defs[..=i].iter().rposition(|a| a.set == 1 || a.set == 4) {
                        Some(at) if defs[at].set == 1 && at != i => want.must.push(("must_call_parent", d.line)),
                        // whether a proc's own setting binds it as well is left open
                        Some(at) if defs[at].set == 1 => want.may.push(("must_call_parent", d.line)),
                        _ => {}
                    }
                }
                if defs[i - 1].ty == d.ty {
                    if above(6) || d.set == 6 {
                        reach("redefined");
                    } else {
                        want.must.push(("redefined_proc", d.line));
                    }
                }
            }
            if !c.next() {
                break;
            }
        }
        s.text
    });
    want.check(&ctx);
}

// ------------------------------------------------------------------------------------------------
// C42

/// Switches over rand() whose cases are any of the halves around its bounds, single, in ranges or several in one.
/// Params: choices that fork, highest bound of rand().
pub fn switch_halves() {
    let ctx = Context::default();
    let top = param(1) as i32;
    // the switch's line and whether a number is left out; the lines of its cases, and how many of them are never met
    let mut switches: Vec<(u32, bool)> = Vec::new();
    let mut cases: Vec<(u32, usize)> = Vec::new();
    lint(&ctx, || {
        let mut s = Src::default();
        let mut c = Cases::new(param(0));
        let text = |n: i32| match n {
            n if n % 2 == 0 => format!("{}", n / 2),
            n if n < 0 => format!("-{}.5", -n / 2),
            n => format!("{}.5", n / 2),
        };
        loop {
            let a = c.pick(top as usize + 1) as i32;
            let b = a + c.pick((top - a) as usize + 1) as i32;
            let one = a == 0 && c.pick(2) == 1;
            let joined = c.pick(2) == 1;
            let mut arms: Vec<(i32, i32, String)> = Vec::new();
            for _ in 0..2 {
                let lo = c.pick(2 * top as usize + 3) as i32 - 1;
                // 0: the single value
                let range = c.pick((2 * top + 3 - lo) as usize) as i32;
                let hi = lo + (range - 1).max(0);
                arms.push((lo, hi, if range == 0 { text(lo) } else { format!("{} to {}", text(lo), text(hi)) }));
            }
            s.put(&format!("/proc/c{}()", switches.len()));
            let line = s.put(&if one { format!("\tswitch(rand({b}))") } else { format!("\tswitch(rand({a}, {b}))") });
            let never = |i: usize| (arms[i].0 > 2 * b || arms[i].1 < 2 * a) as usize;
            if joined {
                let l = s.put(&format!("\t\tif({}, {})", arms[0].2, arms[1].2));
                cases.push((l, never(0) + never(1)));
                s.put("\t\t\tworld << 1");
            } else {
                for i in 0..2 {
                    let l = s.put(&format!("\t\tif({})", arms[i].2));
                    cases.push((l, never(i)));
                    s.put("\t\t\tworld << 1");
                }
            }
            switches.push((line, (a..=b).any(|v| !arms.iter().any(|m| m.0 <= 2 * v && 2 * v <= m.1))));
            if !c.next() {
                break;
            }
        }
        s.text
    });
    let mut gaps: Vec<u32> = Vec::new();
    let mut never: Vec<u32> = Vec::new();
    for e in ctx.errors().iter() {
        if e.description().starts_with("Switch branches on rand()") {
            gaps.push(e.location().line);
        } else {
            check("nothing_else", e.description().contains("will never trigger"));
            never.push(e.location().line);
        }
    }
    gaps.sort();
    never.sort();
    for &(line, open) in &switches {
        let said = gaps.binary_search(&line).is_ok();
        if said != open {
            note(format!("switch at {line}").as_bytes());
        }
        check("gap", said == open);
        reach(if open { "gap" } else { "covered" });
    }
    // a case is located at what follows its parenthesis
    let want: Vec<u32> = cases.iter().flat_map(|&(l, n)| std::iter::repeat(l + 1).take(n)).collect();
    if want != never {
        note(format!("{want:?} {never:?}").as_bytes());
    }
    check("never", want == never);
}
