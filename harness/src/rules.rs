//! C26, C27, C39: the rules that declarations place on others.
use crate::lint::lint;
use crate::rules2::Cases;
use crate::symx::*;
use dm::Context;

/// Source text under construction.
#[derive(Default)]
pub struct Src {
    pub text: String,
    pub lines: u32,
}
impl Src {
    /// Adds a line and gives its number.
    pub fn put(&mut self, line: &str) -> u32 {
        self.text.push_str(line);
        self.text.push('\n');
        self.lines += 1;
        self.lines
    }
}

/// What a check must report, and what it may.
#[derive(Default)]
pub struct Expect {
    pub must: Vec<(&'static str, u32)>,
    pub may: Vec<(&'static str, u32)>,
}
impl Expect {
    pub fn check(&self, ctx: &Context) {
        let errors = ctx.errors();
        let sorted = |mut v: Vec<(u32, String)>| {
            v.sort();
            v
        };
        let own = |v: &[(&'static str, u32)]| sorted(v.iter().map(|&(t, l)| (l, t.to_owned())).collect());
        let said = sorted(errors.iter().map(|e| (e.location().line, e.errortype().unwrap_or("").to_owned())).collect());
        let (must, may) = (own(&self.must), own(&self.may));
        for e in &must {
            if said.binary_search(e).is_err() {
                note(format!("{}: {} expected", e.0, e.1).as_bytes());
            }
            check("reported", said.binary_search(e).is_ok());
        }
        for e in errors.iter() {
            let at = e.location().line;
            let key = (at, e.errortype().unwrap_or("").to_owned());
            let known = must.binary_search(&key).is_ok() || may.binary_search(&key).is_ok();
            if !known {
                note(format!("{at}: {e}").as_bytes());
            }
            check("report_is_right", known);
        }
        reach(if self.must.is_empty() { "clean" } else { "reports" });
    }
}

const GLOBAL: usize = 9;
/// The types of the programs: a chain of three and one beside it.
const TYPES: [&str; 4] = ["/datum/a", "/datum/a/b", "/datum/a/b/d", "/datum/c"];
/// Whether one type is another or below it.
fn is_a(t: usize, of: usize) -> bool {
    t == of || t < 3 && of < 3 && t > of
}

/// Where each setting may stand and which values it takes.
pub fn settings() {
    let ctx = Context::default();
    let mut want = Expect::default();
    lint(&ctx, || {
        let mut s = Src::default();
        // name, can be set to false, must be at the definition, allowed on global procs
        const ALL: [(&str, bool, bool, bool); 9] = [
            ("should_not_override", false, false, false),
            ("should_call_parent", true, false, false),
            ("should_not_call_parent", true, false, false),
            ("private_proc", false, true, false),
            ("protected_proc", false, true, false),
            ("should_not_sleep", false, true, true),
            ("allowed_to_sleep", false, true, true),
            ("should_be_pure", false, true, true),
            ("can_be_redefined", false, false, false),
        ];
        let (name, off, at_definition, global) = ALL[choice(9)];
        const VALUES: [&str; 8] = ["1", "TRUE", "0", "FALSE", "2", "\"1\"", "null", "1.5"];
        let mut place = choice(4);
        let first = choice(8);
        let mut second = 0;
        if place == 0 {
            s.put("/proc/f()");
        } else {
            s.put("/datum/a/proc/f()");
            if place == 3 {
                second = choice(8);
            }
        }
        if place == 2 {
            s.put("\treturn 1");
            s.put("/datum/a/b/f()");
        }
        let mut set = false;
        for (i, v) in [first, second].into_iter().enumerate() {
            if i == 1 && place != 3 {
                break;
            }
            let line = s.put(&format!("\tset SpacemanDMM_{name} = {}", VALUES[v]));
            if place == 2 && at_definition {
                want.must.push(("", line));
            } else if v >= 4 {
                want.must.push(("invalid_lint_directive_value", line));
            } else if place == 0 && !global {
                want.must.push(("incompatible_directive", line));
            } else if v >= 2 && !off {
                want.must.push(("disabled_directive", line));
            } else if set {
                want.must.push(("sets_directive_twice", line));
            } else {
                set = true;
                if place == 2 && name == "should_call_parent" && v < 2 {
                    want.may.push(("must_call_parent", s.lines - 1));
                }
            }
        }
        s.put("\treturn 1");
        place = 0;
        let _ = place;
        s.text
    });
    want.check(&ctx);
}

// ------------------------------------------------------------------------------------------------
// C39: purity

/// What stands in a statement of a proc of /datum/a, and whether it changes anything outside of the proc.
const OPS: [(&str, bool); 32] = [
    ("x = 1", false),
    ("G = 1", true),
    ("m = 1", true),
    ("world << 1", true),
    ("x++", false),
    ("G++", true),
    ("m--", true),
    ("++m", true),
    ("--G", true),
    ("x += 1", false),
    ("G += 1", true),
    ("m |= 1", true),
    ("x = G", false),
    ("x = m + G", false),
    ("x = G << 1", false),
    ("x = (G = 1)", true),
    ("x = -(m++)", true),
    ("x = list(1, G++)", true),
    ("x = prob(5) ? (m = 1) : 2", true),
    ("x = prob(5) ? 1 : G++", true),
    ("x = prob(m *= 2)", true),
    ("x = \"[G = 1]\"", true),
    ("x = \"[G]\"", false),
    ("x = prob(5) || (G = 1)", true),
    ("global.G = 1", true),
    ("x = global.G", false),
    ("src.m = 1", true),
    ("global.G++", true),
    ("src.m <<= 1", true),
    ("x = src.m", false),
    ("K.m = 1", true),
    ("x = K.m + 1", false),
];
/// The statements around it; `*` stands for it.
const PLACES: [&str; 13] = [
    "\t*",
    "\tif(prob(5))\n\t\t*",
    "\tif(prob(5))\n\t\tx = 1\n\telse\n\t\t*",
    "\tfor(var/i in 1 to 3)\n\t\t*",
    "\twhile(prob(5))\n\t\t*",
    "\tswitch(x)\n\t\tif(1)\n\t\t\tx = 1\n\t\telse\n\t\t\t*",
    "\tdo\n\t\t*\n\twhile(prob(5))",
    "\ttry\n\t\t*\n\tcatch(var/e)\n\t\tx = e",
    "\tspawn(1)\n\t\t*",
    "\tfor(*, prob(5), x++)\n\t\tx = 1",
    "\tfor(x = 1, prob(5), *)\n\t\tx = 1",
    "\tswitch(x)\n\t\tif(1 to 3)\n\t\t\t*",
    "\ttry\n\t\tx = 1\n\tcatch(var/e)\n\t\tx = e\n\t\t*",
];

/// Any such statement anywhere in a marked proc, or in one that it calls.
pub fn pure_ops() {
    let ctx = Context::default();
    let mut want = Expect::default();
    lint(&ctx, || {
        let mut s = Src::default();
        s.put("/var/G = 0");
        for t in TYPES {
            s.put(t);
        }
        s.put("/datum/a/var/m = 0");
        s.put("/var/datum/a/K");
        let mut c = Cases::new(1);
        let mut k = 0;
        loop {
            k += 1;
            let (op, impure) = OPS[c.pick(OPS.len())];
            let place = PLACES[c.pick(PLACES.len())];
            let how = c.pick(5);
            let start = ["\tvar/x = 0", "\tvar/x", "\tvar/x = m", "\tvar/x = src.m"][c.pick(param(0) as usize)];
            // marked; called by a marked one; overrides a marked one; not marked; calls a marked one
            let other = match how {
                1 => {
                    let l = s.put(&format!("/datum/a/proc/p{k}()\n\tset SpacemanDMM_should_be_pure = 1\n\treturn f{k}()"));
                    s.lines += 2;
                    l
                }
                2 => {
                    s.put(&format!("/datum/proc/f{k}()\n\tset SpacemanDMM_should_be_pure = 1\n\treturn 1"));
                    s.lines += 2;
                    0
                }
                4 => {
                    s.put(&format!("/datum/a/proc/p{k}()\n\tset SpacemanDMM_should_be_pure = 1\n\treturn 1"));
                    s.lines += 2;
                    0
                }
                _ => 0,
            };
            let line = s.put(&if how == 2 { format!("/datum/a/f{k}()") } else { format!("/datum/a/proc/f{k}()") });
            if how == 0 {
                s.put("\tset SpacemanDMM_should_be_pure = 1");
            }
            s.put(start);
            let place = place.replace('*', op);
            s.lines += place.matches('\n').count() as u32;
            s.put(&place);
            s.put(&if how == 4 { format!("\treturn x + p{k}()") } else { "\treturn x".to_owned() });
            if impure {
                match how {
                    0 | 2 => want.must.push(("must_be_pure", line)),
                    1 => want.must.push(("must_be_pure", other)),
                    _ => {}
                }
            }
            if !c.next() {
                break;
            }
        }
        s.text
    });
    want.check(&ctx);
}

/// Global procs calling each other in any pattern, each marked or not.
pub fn pure_calls() {
    let ctx = Context::default();
    let n = param(0) as usize;
    let mut procs: Vec<(u32, bool, bool, u32, Vec<usize>)> = Vec::new();
    let mut discards: Vec<(u32, usize)> = Vec::new();
    lint(&ctx, || {
        const NAMES: [&str; 4] = ["p", "q", "r", "s"];
        let mut s = Src::default();
        s.put("/var/G = 0");
        for i in 0..n {
            let line = s.put(&format!("/proc/{}()", NAMES[i]));
            let marked = choice(2) == 1;
            if marked {
                s.put("\tset SpacemanDMM_should_be_pure = 1");
            }
            let (next, after) = ((i + 1) % n, (i + 2) % n);
            let mut calls = Vec::new();
            let mut op = 0;
            match choice(param(1) as u8) {
                0 => {
                    s.put("\treturn 1");
                }
                1 => op = s.put("\tG = 1"),
                2 => {
                    s.put(&format!("\treturn {}()", NAMES[next]));
                    calls.push(next);
                }
                3 => {
                    let l = s.put(&format!("\t{}()", NAMES[next]));
                    calls.push(next);
                    discards.push((l, next));
                }
                4 => {
                    s.put(&format!("\tvar/x = {}() + 1", NAMES[after]));
                    s.put(&format!("\treturn x + {}()", NAMES[next]));
                    calls.push(after);
                    calls.push(next);
                }
                5 => {
                    op = s.put("\tworld << 1");
                    s.put(&format!("\treturn {}()", NAMES[next]));
                    calls.push(next);
                }
                _ => {
                    s.put(&format!("\tif({}())", NAMES[after]));
                    let l = s.put(&format!("\t\t{}()", NAMES[next]));
                    calls.push(after);
                    calls.push(next);
                    discards.push((l, next));
                }
            }
            procs.push((line, marked, op != 0, op, calls));
        }
        s.text
    });
    let mut left: Vec<(u32, u32)> = Vec::new();
    for i in 0..n {
        if procs[i].1 {
            let mut seen = vec![i];
            let mut k = 0;
            while k < seen.len() {
                for &c in &procs[seen[k]].4 {
                    if !seen.contains(&c) {
                        seen.push(c);
                    }
                }
                k += 1;
            }
            left.extend(seen.iter().filter(|&&p| procs[p].2).map(|&p| (procs[i].0, procs[p].3)));
        }
    }
    reach(if left.is_empty() { "pure" } else { "impure" });
    for &(line, callee) in &discards {
        let said = ctx.errors().iter().any(|e| e.description().ends_with("discards return value") && e.location().line == line);
        check("discarded", said == procs[callee].1);
    }
    for e in ctx.errors().iter() {
        if e.errortype() == Some("must_be_pure") {
            let at = (e.location().line, e.notes().last().unwrap().location().line);
            check("impurity_real", left.contains(&at));
        } else {
            check("nothing_else", e.description().ends_with("discards return value") && discards.iter().any(|d| d.0 == e.location().line));
        }
    }
    for at in left {
        let said = ctx.errors().iter().any(|e| e.errortype() == Some("must_be_pure") && at == (e.location().line, e.notes().last().unwrap().location().line));
        check("impurity_reported", said);
    }
}

/// Calls on objects of a chain of types with overrides.
pub fn pure_dispatch() {
    let ctx = Context::default();
    let mut want = Expect::default();
    lint(&ctx, || {
        let mut s = Src::default();
        s.put("/var/G = 0");
        for t in TYPES {
            s.put(t);
        }
        // f is declared on /datum; each of the four types has none, a pure or an impure override
        s.put("/datum/proc/f()");
        let base = choice(2) == 1;
        s.put(if base { "\tG = 1" } else { "\treturn 1" });
        let mut over = [0; 4];
        for (t, o) in over.iter_mut().enumerate() {
            *o = choice(3);
            if *o != 0 {
                s.put(&format!("{}/f()", TYPES[t]));
                s.put(["", "\treturn 2", "\tG = 2"][*o]);
            }
        }
        let from = [GLOBAL, 1, 3][choice(3)];
        let on = choice(4);
        let own = choice(2) == 1;
        assume(!own || from != GLOBAL && on == 0);
        let line = s.put(&if from == GLOBAL { "/proc/t()".to_owned() } else { format!("{}/proc/t()", TYPES[from]) });
        s.put("\tset SpacemanDMM_should_be_pure = 1");
        let on = if own {
            s.put("\treturn f()");
            from
        } else {
            s.put(&format!("\tvar{}/x", TYPES[on]));
            s.put("\treturn x.f()");
            on
        };
        let chain = |t: usize| (0..=t).rev().filter(|&u| is_a(t, u)).find(|&u| over[u] != 0);
        let mut found = match chain(on) {
            Some(t) => over[t] == 2,
            None => base,
        };
        for t in 0..4 {
            found |= is_a(t, on) && over[t] == 2;
        }
        if found {
            want.must.push(("must_be_pure", line));
        }
        s.text
    });
    want.check(&ctx);
}

/// Settings with any whole number of 8 or 16 bits as their value.
pub fn setting_values() {
    let ctx = Context::default();
    let v = if param(0) == 0 { any_u8() as i8 as i32 } else { any_u16() as i16 as i32 };
    let mut which = 0;
    const NAMES: [&str; 16] = [
        "SpacemanDMM_should_call_parent",
        "SpacemanDMM_should_not_call_parent",
        "SpacemanDMM_should_not_override",
        "SpacemanDMM_private_proc",
        "SpacemanDMM_protected_proc",
        "SpacemanDMM_should_not_sleep",
        "SpacemanDMM_allowed_to_sleep",
        "SpacemanDMM_should_be_pure",
        "SpacemanDMM_can_be_redefined",
        "background",
        "waitfor",
        "hidden",
        "instant",
        "popup_menu",
        "invisibility",
        "name",
    ];
    let tree = crate::objtree::parse_with(
        &ctx,
        true,
        || {
            which = choice(16);
            format!("/datum/proc/f()\n\tset {} = 1000\n\treturn 1\n", NAMES[which])
        },
        |t| match t {
            dm::lexer::Token::Int(1000) => dm::lexer::Token::Int(v),
            t => t,
        },
    );
    dreamchecker::run(&ctx, &tree);
    let errors = ctx.errors();
    let kind = errors.first().and_then(|e| e.errortype());
    check("one_report", errors.len() <= 1);
    match which {
        0 | 1 => check("flag", (kind == Some("invalid_lint_directive_value")) == ((v != 0) & (v != 1))),
        2..=8 => {
            check("flag", (kind == Some("invalid_lint_directive_value")) == ((v != 0) & (v != 1)));
            check("cannot_be_off", (kind == Some("disabled_directive")) == (v == 0));
        }
        9..=13 => check("flag", (kind == Some("invalid_set_value")) == ((v != 0) & (v != 1))),
        14 => check("invisibility", (kind == Some("invalid_set_value")) == ((v < 0) | (v > 100))),
        _ => check("name", kind == Some("invalid_set_value")),
    }
    reach(if errors.is_empty() { "fine" } else { "reported" });
}
