//! C47-C49: constant conditions, doubtful expressions, names that mean nothing.
use crate::lint::lint;
use crate::rules::Src;
use crate::rules2::Cases;
use crate::symx::*;
use dm::{Context, DMError};

fn kind(e: &DMError) -> &'static str {
    const WORDS: [(&str, &str); 14] = [
        ("condition is always true", "always_true"),
        ("condition is always false", "always_false"),
        ("undefined var", "undefined"),
        ("undefined global var", "undefined"),
        ("undefined field", "undefined"),
        ("undefined proc", "undefined"),
        ("undefined global proc", "undefined"),
        ("which might not be an /atom", "maybe_iterable"),
        ("cannot be iterated", "not_iterable"),
        ("returning a value in a spawn", "spawn_return"),
        ("separated by ||", "or_case"),
        ("filter(", "filter"),
        ("filter() called", "filter"),
        ("filter() flag fields", "filter"),
    ];
    const TYPES: [&str; 6] = ["control_condition_static", "unreachable_code", "ambiguous_in_lhs", "ambiguous_not_bitwise", "no_operator_overload", "empty_find"];
    if let Some(w) = WORDS.iter().find(|w| e.description().contains(w.0)) {
        return w.1;
    }
    match e.errortype() {
        Some(t) => TYPES.iter().find(|k| **k == t).copied().unwrap_or("other"),
        None => "other",
    }
}

/// The reports are those that must be, each once, and some of those that may be.
fn exactly(ctx: &Context, must: &[(u32, &'static str)], may: &[(u32, &'static str)]) {
    let errors = ctx.errors();
    let mut may = may.to_vec();
    may.sort();
    let mut want: Vec<(u32, &str)> = must.to_vec();
    want.sort();
    let mut said: Vec<(u32, &str)> = errors.iter().map(|e| (e.location().line, kind(e))).filter(|k| may.binary_search(k).is_err()).collect();
    said.sort();
    if want != said {
        for w in want.iter().filter(|w| said.iter().filter(|s| s == w).count() != want.iter().filter(|s| s == w).count()).take(5) {
            note(format!("expected {w:?}").as_bytes());
        }
        for w in said.iter().filter(|w| said.iter().filter(|s| s == w).count() != want.iter().filter(|s| s == w).count()).take(5) {
            let e = errors.iter().find(|e| (e.location().line, kind(e)) == *w).unwrap();
            note(format!("reported {w:?} {e}").as_bytes());
        }
    }
    check("reports", want == said);
    reach(if must.is_empty() { "clean" } else { "reports" });
}

// ------------------------------------------------------------------------------------------------
// C47

#[derive(Clone)]
struct Cond {
    text: String,
    /// its truth for all values of the variables
    truth: Option<bool>,
    /// the truth is that of its parts, all of which have one
    plain: bool,
    /// a number, text, null or path
    literal: bool,
    /// a comparison or logical operation of two of these
    literals: bool,
    /// without variables
    constant: bool,
}

const LEAVES: [(&str, Option<bool>, bool, bool); 15] = [
    ("0", Some(false), true, true),
    ("1", Some(true), true, true),
    ("v", None, false, false),
    ("\"\"", Some(false), true, true),
    ("list()", Some(true), false, true),
    ("\"a\"", Some(true), true, true),
    ("null", Some(false), true, true),
    ("2.5", Some(true), true, true),
    ("0.0", Some(false), true, true),
    ("/datum/a", Some(true), true, true),
    ("new /datum/a", Some(true), false, true),
    ("\"[v]\"", None, false, false),
    ("\"[v]a\"", Some(true), false, false),
    ("f()", None, false, false),
    ("1e-30", Some(true), true, true),
];

fn leaf(c: &mut Cases, n: usize) -> Cond {
    let (text, truth, literal, constant) = LEAVES[c.pick(n)];
    Cond { text: text.to_owned(), truth, plain: truth.is_some(), literal, literals: false, constant }
}
fn not(a: Cond) -> Cond {
    Cond { text: format!("!{}", a.text), truth: a.truth.map(|t| !t), literal: false, literals: false, ..a }
}
fn parens(a: Cond) -> Cond {
    Cond { text: format!("({})", a.text), literal: false, literals: false, ..a }
}
fn binary(op: &str, a: Cond, b: Cond) -> Cond {
    let truth = match op {
        "&&" if a.truth == Some(false) || b.truth == Some(false) => Some(false),
        "||" if a.truth == Some(true) || b.truth == Some(true) => Some(true),
        "&&" => a.truth.and(b.truth),
        "||" => a.truth.and(b.truth),
        _ => None,
    };
    Cond {
        text: format!("{} {op} {}", a.text, b.text),
        truth,
        plain: truth.is_some() && a.plain && b.plain,
        literal: false,
        literals: a.literal && b.literal && op != "+",
        constant: a.constant && b.constant,
    }
}
fn condition(c: &mut Cases, form: usize) -> Cond {
    const OPS: [&str; 9] = ["&&", "||", "==", "!=", "<", ">", "<=", ">=", "+"];
    match form {
        0 => leaf(c, 15),
        1 => not(leaf(c, 15)),
        2 => not(not(leaf(c, 15))),
        3 => parens(leaf(c, 15)),
        4 => not(parens(leaf(c, 15))),
        5 => parens(not(leaf(c, 15))),
        6 => {
            let (a, b) = (leaf(c, 15), leaf(c, 15));
            binary(OPS[c.pick(9)], a, b)
        }
        7 => {
            let (a, b) = (not(leaf(c, 3)), leaf(c, 4));
            let (a, b) = if c.pick(2) == 0 { (a, b) } else { (b, a) };
            binary(OPS[c.pick(2)], a, b)
        }
        8 => {
            // all three, the logical operators binding as they do
            let (x, y, z) = (leaf(c, 3), leaf(c, 3), leaf(c, 3));
            let (o, p) = (OPS[c.pick(2)], OPS[c.pick(2)]);
            match c.pick(5) {
                0 => binary(p, parens(binary(o, x, y)), z),
                1 => binary(o, x, parens(binary(p, y, z))),
                2 => not(parens(binary(o, x, binary("&&", y, z)))),
                3 => binary(p, not(parens(binary(o, x, y))), z),
                _ if o == "||" && p == "&&" => binary(o, x, binary(p, y, z)),
                _ => binary(p, binary(o, x, y), z),
            }
        }
        9 => {
            let (x, y, z) = (leaf(c, 5), leaf(c, 5), leaf(c, 5));
            let truth = match x.truth {
                Some(true) => y.truth,
                Some(false) => z.truth,
                None if y.truth == z.truth => y.truth,
                None => None,
            };
            let plain = truth.is_some() && x.truth.is_some();
            let t = Cond { text: format!("{} ? {} : {}", x.text, y.text, z.text), truth, plain, literal: false, literals: false, constant: x.constant && y.constant && z.constant };
            if c.pick(2) == 0 { t } else { not(parens(t)) }
        }
        10 => {
            let y = leaf(c, 15);
            let (op, truth) = [("=", y.truth), ("+=", None), ("||=", None), ("&&=", None)][c.pick(4)];
            Cond { text: format!("v {op} {}", y.text), truth, plain: truth.is_some(), literal: false, literals: false, constant: false }
        }
        _ => {
            // what is not known of the part is not known of the whole
            let y = leaf(c, 15);
            let text = ["-@", "~@", "l[@]", "f(@)", "list(@)[1]", "-!@", "!-@", "v++ || @", "!l[@]"][c.pick(9)].replace('@', &y.text);
            let or = text.starts_with("v++");
            let truth = if or && y.truth == Some(true) { y.truth } else { None };
            Cond { text, truth, plain: false, literal: false, literals: false, constant: false }
        }
    }
}

fn judge(must: &mut Vec<(u32, &'static str)>, may: &mut Vec<(u32, &'static str)>, line: u32, c: &Cond, determinate: bool, constant: bool) {
    if constant && (c.literal || c.literals) {
        must.push((line, "control_condition_static"));
    } else if constant && c.constant {
        may.push((line, "control_condition_static"));
    }
    if let (true, Some(t)) = (determinate, c.truth) {
        let key = (line, if t { "always_true" } else { "always_false" });
        if c.plain {
            must.push(key);
        } else {
            may.push(key);
        }
    }
}

/// Params: choices that fork.
pub fn conditions() {
    let ctx = Context::default();
    let (mut must, mut may) = (Vec::new(), Vec::new());
    lint(&ctx, || {
        let mut s = Src::default();
        let mut c = Cases::new(param(0));
        s.put("/datum/a/var/a");
        s.put("/proc/f(a)");
        s.put("/proc/c(v, list/l)");
        loop {
            let form = c.pick(12);
            let place = c.pick(6);
            let cond = condition(&mut c, form);
            match place {
                0 => {
                    let l = s.put(&format!("\tif({})", cond.text));
                    s.put("\t\tf()");
                    judge(&mut must, &mut may, l, &cond, true, true);
                }
                1 => {
                    s.put("\tif(v)");
                    s.put("\t\tf()");
                    let l = s.put(&format!("\telse if({})", cond.text));
                    s.put("\t\tf()");
                    judge(&mut must, &mut may, l, &cond, true, true);
                }
                2 => {
                    let l = s.put(&format!("\tfor(v = 1; {}; v++)", cond.text));
                    s.put("\t\tf()");
                    judge(&mut must, &mut may, l, &cond, true, true);
                }
                3 => {
                    let l = s.put(&format!("\tswitch({})", cond.text));
                    s.put("\t\tif(1)");
                    s.put("\t\t\tf()");
                    judge(&mut must, &mut may, l, &cond, false, true);
                }
                4 => {
                    s.put(&format!("\twhile({})", cond.text));
                    s.put("\t\tf()");
                }
                _ => {
                    s.put("\tdo");
                    s.put("\t\tf()");
                    s.put(&format!("\twhile({})", cond.text));
                }
            }
            if !c.next() {
                break;
            }
        }
        s.text
    });
    may.retain(|k| !must.contains(k));
    // what is not a condition at all
    exactly(&ctx, &must, &may);
}

/// Statements around others.
const AROUND: [(&str, &str); 13] = [
    ("if(v)", ""),
    ("if(v)\n\tf()\nelse", ""),
    ("if(v)\n\tf()\nelse if(w)", ""),
    ("while(v)", ""),
    ("do", "while(v)"),
    ("for(v in l)", ""),
    ("for(v = 1; v; v++)", ""),
    ("for(var/i = 1 to 9)", ""),
    ("for(var/k, w in l)", ""),
    ("switch(v)\n\tif(1)\n\t\tf()\n\telse", ""),
    ("spawn(1)", ""),
    ("try", "catch\n\tf()"),
    ("try\n\tf()\ncatch", ""),
];
/// Puts lines within nested statements; gives the number of the first of them.
fn put_within(s: &mut Src, around: &[usize], lines: &[String]) -> u32 {
    let mut tabs = 1;
    for &a in around {
        for l in AROUND[a].0.split('\n') {
            s.put(&format!("{}{l}", "\t".repeat(tabs)));
        }
        tabs += 1 + (a == 9) as usize;
    }
    let first = s.lines + 1;
    for l in lines {
        s.put(&format!("{}{l}", "\t".repeat(tabs)));
    }
    for &a in around.iter().rev() {
        tabs -= 1 + (a == 9) as usize;
        for l in AROUND[a].1.split('\n').filter(|l| !l.is_empty()) {
            s.put(&format!("{}{l}", "\t".repeat(tabs)));
        }
    }
    first
}

/// Chains of conditions: what follows one that is always true is reported.
/// Params: choices that fork, arms at most, nesting.
pub fn chains() {
    let ctx = Context::default();
    let mut must = Vec::new();
    lint(&ctx, || {
        let mut s = Src::default();
        let mut c = Cases::new(param(0));
        s.put("/proc/f()");
        s.put("/proc/c(v, w, list/l)");
        loop {
            let around: Vec<usize> = (0..param(2)).map(|_| c.pick(13)).collect();
            let n = 1 + c.pick(param(1) as usize);
            let mut lines = Vec::new();
            let mut kinds = Vec::new();
            let mut always = false;
            for i in 0..n {
                let (t, truth, literal) = [("v", None, false), ("1", Some(true), true), ("0", Some(false), true), ("(!0)", Some(true), false), ("v && 0", None, false)][c.pick(5)];
                if literal {
                    kinds.push((lines.len(), "control_condition_static"));
                }
                if let Some(t) = truth {
                    kinds.push((lines.len(), if t { "always_true" } else { "always_false" }));
                }
                if always {
                    kinds.push((lines.len(), "unreachable_code"));
                }
                always |= truth == Some(true);
                lines.push(format!("{}if({t})", if i > 0 { "else " } else { "" }));
                lines.push("\tf()".into());
            }
            if c.pick(2) == 1 {
                lines.push("else".into());
                if always {
                    kinds.push((lines.len(), "unreachable_code"));
                }
                lines.push("\tf()".into());
                lines.push("\tf()".into());
            }
            let at = put_within(&mut s, &around, &lines);
            must.extend(kinds.into_iter().map(|(l, k)| (at + l as u32, k)));
            if !c.next() {
                break;
            }
        }
        s.text
    });
    exactly(&ctx, &must, &[]);
}

// ------------------------------------------------------------------------------------------------
// C48

/// Binary operators and how tightly they bind.
const BINARY: [(&str, u8); 26] = [
    ("&", 7), ("|", 5), ("^", 6), ("+", 11), ("==", 8), ("&&", 4), ("<<", 9), ("||", 3), ("-", 11), ("**", 13), ("*", 12), ("/", 12), ("%", 12), ("%%", 12), ("<", 10), ("<=", 10), (">", 10), (">=", 10), (">>", 9),
    ("!=", 8), ("~=", 8), ("~!", 8), ("<>", 8), ("<=>", 10), ("in", 0), ("=", 1),
];

/// Chains of operators: `!` on the left of a bitwise one.
/// Params: choices that fork, operators in a row, how many of them, nesting.
pub fn negated() {
    let ctx = Context::default();
    let mut must = Vec::new();
    lint(&ctx, || {
        let mut s = Src::default();
        let mut c = Cases::new(param(0));
        s.put("/proc/f(a)");
        s.put("/proc/c(v, w, list/l, a, b)");
        let n = param(1) as usize;
        loop {
            let around: Vec<usize> = (0..param(3)).map(|_| c.pick(13)).collect();
            let ops: Vec<usize> = (0..n).map(|_| c.pick(param(2) as usize)).collect();
            let mut text = String::new();
            let mut found = 0;
            for i in 0..=n {
                let few = i + 1 < n || n > 2;
                let (t, not) = [("a", false), ("!a", true), ("(!a)", false), ("!!a", true), ("-a", false), ("~a", false), ("!f(!a)", true), ("-!a", true), ("!a.b", true), ("!(a & b)", true), ("f(!a)", false)][if i == n { c.pick(2) } else { c.pick(if few { 3 } else { 11 }) }];
                let t = t.replace("a.b", "l.len");
                text.push_str(&t);
                if i < n {
                    let (op, p) = BINARY[ops[i]];
                    text.push_str(&format!(" {op} "));
                    // the left operand is this one alone
                    if not && ops[i] < 3 && (i == 0 || BINARY[ops[i - 1]].1 < p) {
                        found += 1;
                    }
                }
            }
            let place = ["v = (@)", "return @", "f(@)", "l[@] = 1", "if(@) f()", "v = w ? (@) : 1", "v = \"[@]\"", "v = list(@)"][c.pick(if n > 1 { 2 } else { 8 })];
            // nothing may follow a return
            let line = if place.starts_with("return") { format!("if(v) {place}") } else { place.to_owned() };
            let at = put_within(&mut s, &around, &[line.replace('@', &text)]);
            must.extend((0..found).map(|_| (at, "ambiguous_not_bitwise")));
            if place.starts_with("return") && around.contains(&10) {
                must.push((at, "spawn_return"));
            }
            if !c.next() {
                break;
            }
        }
        s.text
    });
    exactly(&ctx, &must, &[]);
}

/// Operators on the left of `in`.
/// Params: choices that fork.
pub fn in_lhs() {
    let ctx = Context::default();
    let mut must = Vec::new();
    lint(&ctx, || {
        let mut s = Src::default();
        let mut c = Cases::new(param(0));
        s.put("/datum/o/var/x");
        s.put("/datum/o/proc/m(a)");
        s.put("/proc/f(a)");
        s.put("/proc/c(v, w, list/l, a, b, datum/o/o)");
        loop {
            let unit = |c: &mut Cases, n: usize| [("a", false), ("!a", true), ("(!a)", false), ("-a", true), ("~a", true), ("a++", true), ("--a", true), ("o.x", false), ("l[a]", false), ("f(!a)", false), ("!o.x", true), ("!f(a)", true), ("o.m(-a)", false), ("\"[a]\"", false), ("-l[1]", true), ("l[1]++", true), ("1", false), ("new /datum/o", false), ("(a + b)", false)][c.pick(n)];
            let mut found = 0;
            let lhs = match c.pick(5) {
                0 => {
                    let (t, f) = unit(&mut c, 19);
                    found += f as u32;
                    t.to_owned()
                }
                1 => {
                    let op = BINARY[c.pick(24)].0;
                    // `!` before a bitwise operator is another matter
                    found += 1;
                    format!("{} {op} {}", ["a", "-a", "(!a)", "f(a)"][c.pick(4)], ["b", "!b", "(b)"][c.pick(3)])
                }
                2 => {
                    found += 1;
                    format!("{} {} b", ["a", "o.x", "l[a]"][c.pick(3)], ["=", "+=", "-=", "*=", "/=", "%=", "%%=", "&=", "|=", "^=", "<<=", ">>=", ":=", "&&=", "||="][c.pick(15)])
                }
                3 => {
                    found += 1;
                    ["a ? b : v", "!a ? b : v", "a ? !b : v", "a && b ? 1 : 2", "a || b && v", "a == 1 || b == 2", "v = a || b", "v = a ? b : w"][c.pick(8)].to_owned()
                }
                _ => {
                    // what was in something is in something
                    let (t, f) = unit(&mut c, 12);
                    found += 1 + f as u32;
                    format!("{t} in l")
                }
            };
            let text = format!("{lhs} in {}", ["l", "!l", "(a in l)", "l + w", "list(a, b)"][c.pick(5)]);
            let place = ["v = (@)", "if(@) f()", "f(@)", "v = l[@]", "while(@) f()", "v = w ? (@) : 1", "v = \"[@]\"", "v = !(@)"][c.pick(8)];
            let l = s.put(&format!("\t{}", place.replace('@', &text)));
            must.extend((0..found).map(|_| (l, "ambiguous_in_lhs")));
            if !c.next() {
                break;
            }
        }
        s.text
    });
    exactly(&ctx, &must, &[]);
}

/// `++` and `--` on values of every type.
/// Params: choices that fork, nesting.
pub fn overloads() {
    let ctx = Context::default();
    let mut must = Vec::new();
    lint(&ctx, || {
        let mut s = Src::default();
        let mut c = Cases::new(param(0));
        // which of the two each of /datum/a, the type below it and one beside declare
        let (up, down) = (choice(4), choice(4));
        for (i, t) in ["/datum/a", "/datum/a/b"].iter().enumerate() {
            s.put(t);
            s.put(&format!("\tvar/n{i}"));
            for (set, op) in [(up, "++"), (down, "--")] {
                if set >> i & 1 == 1 {
                    s.put(&format!("\tproc/operator{op}()"));
                }
            }
        }
        s.put("/datum/holder/var/datum/a/a");
        s.put("/datum/holder/var/datum/a/b/b");
        s.put("/datum/holder/var/list/datum/a/b/l");
        s.put("/datum/holder/var/n");
        s.put("/var/datum/a/ga");
        s.put("/datum/holder/proc/p()");
        s.put("\tset SpacemanDMM_return_type = /datum/a/b");
        s.put("/proc/f(a)");
        s.put("/proc/c(v, w, list/l, list/datum/a/la, datum/a/oa, datum/a/b/ob, datum/holder/h)");
        loop {
            let around: Vec<usize> = (0..param(1)).map(|_| c.pick(13)).collect();
            // 0, 1: the types, 2: neither a type nor a list, 3: a list, 4: another type
            const VALUES: [(&str, usize); 16] = [
                ("v", 2), ("oa", 0), ("ob", 1), ("h.a", 0), ("h.b", 1), ("l", 3), ("h.l[1]", 1), ("la[1]", 0), ("l[1]", 2), ("h.n", 2), ("h", 4), ("ga", 0), ("h.p()", 1), ("(ob)", 1), ("la", 3), ("h?.a", 0),
            ];
            let (value, ty) = VALUES[c.pick(16)];
            let op = c.pick(2);
            let text = [format!("{value}{}", ["++", "--"][op]), format!("{}{value}", ["++", "--"][op])][c.pick(2)].clone();
            let set = [up, down][op];
            let fine = match ty {
                0 => set & 1 == 1,
                1 => set != 0,
                2 => true,
                _ => false,
            };
            let place = ["@", "v = @", "f(@)", "v = w ? @ : 1", "v = 1 + @", "v = list(@)", "if(@) f()"][c.pick(7)];
            let at = put_within(&mut s, &around, &[place.replace('@', &text)]);
            if !fine {
                must.push((at, "no_operator_overload"));
            }
            if !c.next() {
                break;
            }
        }
        s.text
    });
    exactly(&ctx, &must, &[]);
}

/// Values in for loops, values returned from spawn, alternatives in a case, Find() without arguments.
/// Params: choices that fork, nesting.
pub fn statements() {
    let ctx = Context::default();
    let (mut must, mut may) = (Vec::new(), Vec::new());
    lint(&ctx, || {
        let mut s = Src::default();
        let mut c = Cases::new(param(0));
        s.put("/datum/a/var/a");
        s.put("/datum/a/proc/Find()");
        s.put("/obj/x/var/list/contained");
        s.put("/proc/f(a)");
        s.put("/proc/c(v, w, list/l, alist/al, datum/a/a, datum/d, atom/at, obj/x/x, mob/m, turf/t, atom/movable/am, client/cl, list/obj/x/lx, image/im, icon/ic)");
        loop {
            let around: Vec<usize> = (0..param(1)).map(|_| c.pick(13)).collect();
            let spawned = around.contains(&10);
            match c.pick(4) {
                0 => {
                    const IN: [(&str, u8); 24] = [
                        ("l", 0), ("v", 0), ("al", 0), ("x", 0), ("m", 0), ("t", 0), ("at", 0), ("am", 0), ("d", 1), ("a", 2), ("world", 0), ("x.contained", 0), ("lx", 0), ("lx[1]", 0), ("l[1]", 0), ("list(1)", 0),
                        ("m.contents", 0), ("l + 1", 0), ("f()", 0), ("im", 2), ("ic", 2), ("cl", 2), ("(a)", 2), ("v || a", 0),
                    ];
                    let (text, what) = IN[c.pick(24)];
                    let head = ["for(var/i in @)", "for(v in @)", "for(var/obj/x/i in @)", "for(var/i as mob in @)", "for(var/i, w in @)"][c.pick(5)];
                    let at = put_within(&mut s, &around, &[head.replace('@', text), "\tf()".into()]);
                    match what {
                        1 => must.push((at, "maybe_iterable")),
                        2 => must.push((at, "not_iterable")),
                        _ => {}
                    }
                }
                1 => {
                    let (text, value) = [("return", false), ("return 1", true), ("return v", true), ("return f()", true), ("return null", true)][c.pick(5)];
                    let lines: Vec<String> = match c.pick(4) {
                        0 => vec![format!("if(v)"), format!("\t{text}")],
                        1 => vec![format!("spawn"), "\tif(v)".into(), format!("\t\t{text}")],
                        // the spawn has ended
                        2 => vec![format!("spawn()"), "\tf()".into(), "if(v)".into(), format!("\t{text}")],
                        _ => vec![format!("spawn(1)"), "\tspawn(1)".into(), "\t\tf()".into(), "\tif(v)".into(), format!("\t\t{text}")],
                    };
                    let inside = spawned || lines[0].starts_with("spawn") && !lines[2].starts_with("if");
                    let at = put_within(&mut s, &around, &lines);
                    if value && inside {
                        must.push((at + lines.len() as u32 - 1, "spawn_return"));
                    }
                }
                2 => {
                    let (text, bad) = [("1", false), ("1 || 2", true), ("1, 2", false), ("1 || 2 || 3", true), ("1 to 2", false), ("(1 || 2)", false), ("1 && 2", false), ("\"a\" || \"b\"", true), ("1 | 2", false)][c.pick(9)];
                    let second = c.pick(2) as u32;
                    let mut lines: Vec<String> = vec!["switch(v)".into()];
                    for _ in 0..second {
                        lines.extend(["\tif(9)".into(), "\t\tf()".into()]);
                    }
                    lines.extend([format!("\tif({text})"), "\t\tf()".into()]);
                    let at = put_within(&mut s, &around, &lines);
                    if bad {
                        // a case is located at what follows its parenthesis
                        must.push((at + 2 * second + 2, "or_case"));
                    }
                }
                _ => {
                    let (text, bad) = [("l.Find()", true), ("l.Find(1)", false), ("l.Find(null)", false), ("a.Find()", false), ("lx.Find()", true), ("al.Find()", true), ("x.contained.Find()", true), ("l?.Find()", true), ("l.Find(Elem = 1)", false), ("l.Find(l.Find())", true)][c.pick(10)];
                    let place = ["@", "v = @", "if(@) f()", "f(@)", "v = l[@]"][c.pick(5)];
                    let at = put_within(&mut s, &around, &[place.replace('@', text)]);
                    if bad {
                        must.push((at, "empty_find"));
                    }
                }
            }
            if !c.next() {
                break;
            }
        }
        s.text
    });
    exactly(&ctx, &must, &may);
}

/// The filters of the language: their parameters, and which of these takes which flags.
type Filter = (&'static str, &'static [&'static str], &'static str, bool, bool, &'static [&'static str]);
const FILTERS: [Filter; 14] = [
    ("alpha", &["x", "y", "icon", "render_source", "flags"], "flags", false, true, &["MASK_INVERSE", "MASK_SWAP"]),
    ("angular_blur", &["x", "y", "size"], "", false, false, &[]),
    ("bloom", &["threshold", "size", "offset", "alpha"], "", false, false, &[]),
    ("blur", &["size"], "", false, false, &[]),
    ("color", &["color", "space"], "space", true, false, &["FILTER_COLOR_RGB", "FILTER_COLOR_HSV", "FILTER_COLOR_HSL", "FILTER_COLOR_HCY"]),
    ("displace", &["x", "y", "size", "icon", "render_source", "flags"], "flags", false, true, &["FILTER_OVERLAY"]),
    ("drop_shadow", &["x", "y", "size", "offset", "color"], "", false, false, &[]),
    ("layer", &["x", "y", "icon", "render_source", "flags", "color", "transform", "blend_mode"], "flags", true, true, &["FILTER_OVERLAY", "FILTER_UNDERLAY"]),
    ("motion_blur", &["x", "y"], "", false, false, &[]),
    ("outline", &["size", "color", "flags"], "flags", false, true, &["OUTLINE_SHARP", "OUTLINE_SQUARE"]),
    ("radial_blur", &["x", "y", "size"], "", false, false, &[]),
    ("rays", &["x", "y", "size", "color", "offset", "density", "threshold", "factor", "flags"], "flags", false, true, &["FILTER_OVERLAY", "FILTER_UNDERLAY"]),
    ("ripple", &["x", "y", "size", "repeat", "radius", "falloff", "flags"], "flags", false, true, &["WAVE_BOUNDED"]),
    ("wave", &["x", "y", "size", "offset", "flags"], "flags", false, true, &["WAVE_SIDEWAYS", "WAVE_BOUNDED"]),
];

/// Calls of filter().
/// Params: choices that fork.
pub fn filters() {
    let ctx = Context::default();
    let mut must = Vec::new();
    lint(&ctx, || {
        let mut s = Src::default();
        let mut c = Cases::new(param(0));
        s.put("/proc/f(a)");
        s.put("/proc/c(v, list/l)");
        const NAMES: [&str; 19] = ["x", "y", "size", "color", "offset", "flags", "icon", "render_source", "space", "transform", "blend_mode", "density", "threshold", "factor", "repeat", "radius", "falloff", "alpha", "name"];
        const FLAGS: [&str; 10] = ["MASK_INVERSE", "MASK_SWAP", "FILTER_COLOR_RGB", "FILTER_COLOR_HCY", "FILTER_OVERLAY", "FILTER_UNDERLAY", "OUTLINE_SHARP", "OUTLINE_SQUARE", "WAVE_BOUNDED", "WAVE_SIDEWAYS"];
        loop {
            let (kind, keys, flag, exclusive, zero, flags) = FILTERS[c.pick(14)];
            let (text, reports) = match c.pick(4) {
                0 => {
                    // any two parameters, before or after the type
                    let (a, b) = (c.pick(19), c.pick(19));
                    let (na, nb) = (NAMES[a], NAMES[b]);
                    let value = |n: &str| if n == flag { flags[0] } else { "1" };
                    let bad = |n: &str| n != "name" && !keys.contains(&n);
                    let t = if (a + b) % 2 == 0 { format!("filter(type = \"{kind}\", {na} = {}, {nb} = {})", value(na), value(nb)) } else { format!("filter({na} = {}, type = \"{kind}\", {nb} = {})", value(na), value(nb)) };
                    (t, if a == b { bad(na) as usize } else { bad(na) as usize + bad(nb) as usize })
                }
                1 if flag.is_empty() => (format!("filter(type = \"{kind}\")"), 0),
                1 => {
                    let (a, b) = (FLAGS[c.pick(10)], FLAGS[c.pick(10)]);
                    let bad = |n: &str| !flags.contains(&n) as usize;
                    let (t, n) = match c.pick(7) {
                        0 => (a.to_owned(), bad(a)),
                        1 => (format!("{a} | {b}"), if exclusive { 1 } else { bad(a) + bad(b) }),
                        2 => (format!("{a} | {b} | {}", flags[0]), if exclusive { 1 } else { bad(a) + bad(b) }),
                        3 => ("0".to_owned(), !zero as usize),
                        4 => (format!("{a} & {b}"), 1),
                        5 => (format!("~{a}"), 1),
                        _ => (["1", "\"a\"", "null"][a.len() % 3].to_owned(), 1),
                    };
                    (format!("filter(type = \"{kind}\", {flag} = {t})"), n)
                }
                2 => [
                    (format!("filter(\"{kind}\")"), 1),
                    ("filter()".to_owned(), 1),
                    ("filter(arglist(l))".to_owned(), 0),
                    (format!("filter(type = v)"), 1),
                    (format!("filter(type = 1)"), 1),
                    (format!("filter(type = \"{kind}s\")"), 1),
                    (format!("filter(type = \"\")"), 1),
                    (format!("filter(type = \"{kind}\")"), 0),
                    (format!("filter(size = 1)"), 1),
                    (format!("filter(\"type\" = \"{kind}\")"), 0),
                ][c.pick(10)].clone(),
                // one within another
                _ => [
                    (format!("filter(type = \"blur\", size = filter(type = \"{kind}s\"))"), 1),
                    (format!("filter(type = \"outline\", color = f(filter()))"), 1),
                    (format!("list(filter(type = \"{kind}\"), filter(v))"), 1),
                    (format!("f(1) || filter(type = \"{kind}\", nope = 1)"), 2),
                ][c.pick(4)].clone(),
            };
            let l = s.put(&format!("\tv = {text}"));
            if text.contains("nope") {
                must.push((l, "other"));
                must.push((l, "filter"));
            } else {
                must.extend((0..reports).map(|_| (l, "filter")));
            }
            if !c.next() {
                break;
            }
        }
        s.text
    });
    exactly(&ctx, &must, &[]);
}

// ------------------------------------------------------------------------------------------------
// C49

/// Names in nested blocks.
/// Params: choices that fork, entries of the blocks, kinds of them, places of a use.
pub fn names() {
    let ctx = Context::default();
    let mut must = Vec::new();
    lint(&ctx, || {
        let mut s = Src::default();
        let mut c = Cases::new(param(0));
        s.put("/proc/f(a)");
        let mut k = 0;
        loop {
            k += 1;
            s.put(&format!("/proc/c{k}(p, list/l)"));
            let mut scopes: Vec<Vec<&str>> = vec![vec![]];
            // what closes the block, in the line after it
            let mut ends: Vec<&str> = Vec::new();
            let mut empty = false;
            let place = PLACES[c.pick(param(3) as usize)];
            for _ in 0..param(1) {
                let what = c.pick(param(2) as usize);
                let tabs = "\t".repeat(scopes.len());
                let mut used = |s: &mut Src, scopes: &[Vec<&str>], text: &str, names: &[&'static str]| {
                    let l = s.put(&format!("{tabs}{text}"));
                    if text.contains("nope") {
                        must.push((l, "undefined"));
                    }
                    for n in names {
                        if !scopes.iter().any(|v| v.contains(n)) {
                            must.push((l, "undefined"));
                        }
                    }
                };
                let mut open: Option<(Vec<&str>, &str)> = None;
                match what {
                    0 => used(&mut s, &scopes, &place.replace('@', "x"), &["x"]),
                    1 => {
                        // one of a name in a block
                        if !scopes.last().unwrap().contains(&"x") {
                            s.put(&format!("{tabs}var/x = p"));
                            scopes.last_mut().unwrap().push("x");
                        } else {
                            s.put(&format!("{tabs}f()"));
                        }
                    }
                    2 if !empty && scopes.len() > 1 => {
                        scopes.pop();
                        let end = ends.pop().unwrap();
                        if !end.is_empty() {
                            let tabs = "\t".repeat(scopes.len());
                            for e in end.split('\n') {
                                s.put(&format!("{tabs}{e}"));
                            }
                        }
                    }
                    2 => used(&mut s, &scopes, &place.replace('@', "y"), &["y"]),
                    3 => {
                        used(&mut s, &scopes, "if(x)", &["x"]);
                        open = Some((vec![], ""));
                    }
                    4 => {
                        used(&mut s, &scopes, "for(var/x in l)", &[]);
                        open = Some((vec!["x"], ""));
                    }
                    5 => {
                        used(&mut s, &scopes, "for(var/x = y, p, p++)", &["y"]);
                        open = Some((vec!["x"], ""));
                    }
                    6 => {
                        if !scopes.last().unwrap().contains(&"y") {
                            used(&mut s, &scopes, "var/y = x", &["x"]);
                            scopes.last_mut().unwrap().push("y");
                        } else {
                            s.put(&format!("{tabs}f()"));
                        }
                    }
                    7 => {
                        used(&mut s, &scopes, "for(var/x, y in l)", &[]);
                        open = Some((vec!["x", "y"], ""));
                    }
                    8 => {
                        s.put(&format!("{tabs}try"));
                        open = Some((vec![], "catch(var/x)\n\tx++"));
                    }
                    9 => {
                        s.put(&format!("{tabs}try"));
                        s.put(&format!("{tabs}\tf()"));
                        s.put(&format!("{tabs}catch(var/y)"));
                        open = Some((vec!["y"], ""));
                    }
                    10 => {
                        used(&mut s, &scopes, "for(var/y = x to 9)", &["x"]);
                        open = Some((vec!["y"], ""));
                    }
                    11 => {
                        used(&mut s, &scopes, "while(y)", &["y"]);
                        open = Some((vec![], ""));
                    }
                    12 => {
                        s.put(&format!("{tabs}spawn(1)"));
                        open = Some((vec![], ""));
                    }
                    13 => {
                        s.put(&format!("{tabs}do"));
                        open = Some((vec![], "while(p)"));
                    }
                    14 => {
                        s.put(&format!("{tabs}if(p)"));
                        s.put(&format!("{tabs}\tvar/y"));
                        s.put(&format!("{tabs}\tf(y)"));
                        s.put(&format!("{tabs}else"));
                        open = Some((vec![], ""));
                    }
                    15 => {
                        used(&mut s, &scopes, "switch(x)", &["x"]);
                        s.put(&format!("{tabs}\tif(1)"));
                        s.put(&format!("{tabs}\t\tvar/x"));
                        s.put(&format!("{tabs}\t\tx = 1"));
                        s.put(&format!("{tabs}\tif(2)"));
                        s.put(&format!("{tabs}\t\tif(p)"));
                        let l = s.put(&format!("{tabs}\t\t\tx = 1"));
                        if !scopes.iter().any(|v| v.contains(&"x")) {
                            must.push((l, "undefined"));
                        }
                    }
                    _ => {
                        // later clauses of the loop know its variable
                        used(&mut s, &scopes, "for(var/x = 1; x < y; x += y)", &["y", "y"]);
                        open = Some((vec!["x"], ""));
                    }
                }
                empty = open.is_some();
                if let Some((vars, end)) = open {
                    scopes.push(vars);
                    ends.push(end);
                }
            }
            if empty {
                s.put(&format!("{}f()", "\t".repeat(scopes.len())));
            }
            while let Some(end) = ends.pop() {
                scopes.pop();
                if !end.is_empty() {
                    for e in end.split('\n') {
                        s.put(&format!("{}{e}", "\t".repeat(scopes.len())));
                    }
                }
            }
            // all are gone
            let l = s.put("\tx = y");
            for n in ["x", "y"] {
                if !scopes[0].contains(&n) {
                    must.push((l, "undefined"));
                }
            }
            if !c.next() {
                break;
            }
        }
        s.text
    });
    exactly(&ctx, &must, &[]);
}

/// Uses of a name.
const PLACES: [&str; 30] = [
    "@ = 1", "f(@)", "f(a = @)", "f(1, @)", "p = l[@]", "p = \"[@]\"", "p = list(@)", "p = list(\"a\" = @)", "p = -@", "@++", "p = p ? @ : 1", "p = p ? 1 : @", "p = @ ? 1 : 2", "p = 1 + @", "p += @", "p = p && @", "if(p) return @", "if(p) CRASH(@)", "if(p) throw @", "del @", "world << @",
    "p = new /list(@)", "p = pick(1, @)", "p = pick(@; 1)", "p = input(p) in @", "p = locate(p) in @", "p = call(@)(p)", "p = (p in @)", "sleep(@)", "p = nope(@)",
];

/// Names of members, globals and the language, in procs of types and global ones, and names of procs.
/// Params: choices that fork.
pub fn plain_names() {
    let ctx = Context::default();
    let mut must = Vec::new();
    lint(&ctx, || {
        let mut s = Src::default();
        let mut c = Cases::new(param(0));
        s.put("/var/g");
        s.put("/datum/a/var/va");
        s.put("/datum/a/b/var/vb");
        s.put("/datum/c/var/vc");
        s.put("/proc/f(a)");
        s.put("/proc/gp()");
        s.put("/datum/a/proc/pa()");
        s.put("/datum/a/b/proc/pb()");
        s.put("/datum/c/proc/pc()");
        // 0: global, 1: a, 2: b, 3: c
        const WHERE: [&str; 5] = ["/proc/t", "/datum/a/proc/t", "/datum/a/b/proc/t", "/datum/c/proc/t", "/datum/a/b/verb/t"];
        // name, whether it is found in each of these
        const ALL: [(&str, [bool; 4]); 34] = [
            ("g", [true; 4]), ("va", [false, true, true, false]), ("vb", [false, false, true, false]), ("vc", [false, false, false, true]), ("p", [true; 4]), ("src", [false, true, true, true]), ("usr", [true; 4]), ("args", [true; 4]),
            ("world", [true; 4]), ("global", [true; 4]), ("nope", [false; 4]), ("type", [true; 4]), ("tag", [false, true, true, true]), ("vars", [true; 4]), ("parent_type", [false, true, true, true]), (".", [true; 4]),
            ("global.g", [true; 4]), ("global.va", [false; 4]), ("global.nope", [false; 4]), ("g.va", [true; 4]),
            ("f()", [true; 4]), ("gp()", [true; 4]), ("pa()", [false, true, true, false]), ("pb()", [false, false, true, false]), ("pc()", [false, false, false, true]), ("nope()", [false; 4]), ("global.gp()", [true; 4]), ("global.pa()", [false; 4]),
            ("abs(1)", [true; 4]), ("va()", [false; 4]), ("gp", [false; 4]), ("::g", [true; 4]), ("::va", [false; 4]), ("::gp()", [true; 4]),
        ];
        let mut k = 0;
        loop {
            k += 1;
            let at = c.pick(5);
            let (name, found) = ALL[c.pick(34)];
            let place = PLACES[1 + c.pick(29)];
            s.put(&format!("{}{k}(p, list/l)", WHERE[at]));
            // of a value of no known type
            let name = if name == "g.va" { "p:va" } else { name };
            let l = s.put(&format!("\t{}", place.replace("@++", "f(@)").replace('@', name)));
            let known = found[[0, 1, 2, 3, 2][at]];
            if !known {
                must.push((l, "undefined"));
            }
            if place.contains("nope") {
                must.push((l, "undefined"));
            }
            if !c.next() {
                break;
            }
        }
        s.text
    });
    exactly(&ctx, &must, &[]);
}
