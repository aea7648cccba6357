//! C19, C20, C37: expressions, statements and arbitrary token streams.
use crate::symx::*;
use dm::Context;
use dm::annotation::AnnotationTree;
use dm::ast::*;
use dm::indents::IndentProcessor;
use dm::lexer::{Lexer, Punctuation, Token};
use dm::parser::Parser;

pub fn list<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    v.iter().map(f).collect::<Vec<_>>().join(" ")
}
pub fn path(p: &[(PathOp, Ident)]) -> String {
    p.iter().map(|(o, i)| format!("{o}{i}")).collect()
}
pub fn prefab(p: &Prefab) -> String {
    let mut s = path(&p.path);
    if !p.vars.is_empty() {
        s.push_str(&format!("{{{}}}", list(&p.vars, |(k, v)| format!("{k}={}", ex(v)))));
    }
    s
}
pub fn term(t: &Term) -> String {
    match t {
        Term::Null => "null".into(),
        Term::Int(i) => i.to_string(),
        Term::Float(f) => f.to_string(),
        Term::Ident(i) => i.to_string(),
        Term::String(s) => format!("\"{s}\""),
        Term::Resource(s) => format!("'{s}'"),
        Term::As(t) => format!("(as {t})"),
        Term::__PROC__ => "PROC".into(),
        Term::__TYPE__ => "TYPE".into(),
        Term::__IMPLIED_TYPE__ => "IMPLIED".into(),
        Term::Expr(e) => ex(e),
        Term::Prefab(p) => prefab(p),
        Term::InterpString(s, p) => format!("(interp \"{s}\" {})", list(p, |(e, s)| format!("{} \"{s}\"", e.as_ref().map_or("-".into(), ex)))),
        Term::Call(f, a) => format!("(call {f} {})", exs(a)),
        Term::SelfCall(a) => format!("(self {})", exs(a)),
        Term::ParentCall(a) => format!("(parent {})", exs(a)),
        Term::NewImplicit { args } => format!("(new {})", args.as_ref().map_or("-".into(), |a| exs(a))),
        Term::NewPrefab { prefab: p, args } => format!("(new {} {})", prefab(p), args.as_ref().map_or("-".into(), |a| exs(a))),
        Term::NewMiniExpr { expr, args } => {
            format!("(new {}{} {})", expr.ident, expr.fields.iter().map(|f| format!("{}{}", f.kind, f.ident)).collect::<String>(), args.as_ref().map_or("-".into(), |a| exs(a)))
        }
        Term::List(a) => format!("(list {})", exs(a)),
        Term::Input { args, input_type, in_list } => {
            format!("(input {} as {} in {})", exs(args), input_type.map_or("-".into(), |t| t.to_string()), in_list.as_ref().map_or("-".into(), |e| ex(e)))
        }
        Term::Locate { args, in_list } => format!("(locate {} in {})", exs(args), in_list.as_ref().map_or("-".into(), |e| ex(e))),
        Term::Pick(a) => format!("(pick {})", list(a, |(w, e)| format!("{};{}", w.as_ref().map_or("-".into(), ex), ex(e)))),
        Term::DynamicCall(a, b) => format!("(dyn {} / {})", exs(a), exs(b)),
        Term::ExternalCall { library, function, args } => format!("(ext {} {} {})", library.as_ref().map_or("-".into(), |e| ex(e)), ex(function), exs(args)),
        Term::GlobalIdent(i) => format!("::{i}"),
        Term::GlobalCall(i, a) => format!("(call ::{i} {})", exs(a)),
    }
}
pub fn exs(a: &[Expression]) -> String {
    list(a, ex)
}
pub fn ex(e: &Expression) -> String {
    match e {
        Expression::Base { term: t, follow } => {
            let mut s = term(&t.elem);
            for f in follow.iter() {
                s = match &f.elem {
                    Follow::Index(k, e) => format!("({}[] {s} {})", if *k == ListAccessKind::Safe { "?" } else { "" }, ex(e)),
                    Follow::Field(k, i) => format!("({k} {s} {i})"),
                    Follow::Call(k, i, a) => format!("({k}() {s} {i} {})", exs(a)),
                    Follow::Unary(UnaryOp::PostIncr) => format!("({s} ++)"),
                    Follow::Unary(UnaryOp::PostDecr) => format!("({s} --)"),
                    Follow::Unary(o) => format!("({} {s})", o.name()),
                    Follow::StaticField(i) => format!("(:: {s} {i})"),
                    Follow::ProcReference(i) => format!("(::() {s} {i})"),
                }
            }
            s
        }
        Expression::BinaryOp { op, lhs, rhs } => format!("({op} {} {})", ex(lhs), ex(rhs)),
        Expression::AssignOp { op, lhs, rhs } => format!("({} {} {})", if *op == AssignOp::AssignInto { ":=".into() } else { op.to_string() }, ex(lhs), ex(rhs)),
        Expression::TernaryOp { cond, if_, else_ } => format!("(? {} {} {})", ex(cond), ex(if_), ex(else_)),
    }
}

/// The expression a text consists of, if it is one.
pub fn expression(text: &str) -> Option<String> {
    let ctx = Context::default();
    let mut lexer = Lexer::new(&ctx, Default::default(), text.as_bytes());
    let mut ended = false;
    let e = dm::parser::parse_expression(&ctx, Default::default(), lexer.by_ref().inspect(|t| ended = t.token == Token::Punct(Punctuation::Newline)));
    let errors = ctx.errors().iter().any(|e| e.severity() == dm::Severity::Error);
    match e {
        Ok(e) if ended && !errors && lexer.remaining().is_empty() => Some(ex(&e)),
        _ => None,
    }
}

pub fn agree(got: Option<String>, want: Option<String>) {
    match (got, want) {
        (Some(g), Some(w)) => {
            reach("ok");
            if g != w {
                note(g.as_bytes());
                note(w.as_bytes());
            }
            check("structure", g == w);
        }
        (None, None) => reach("err"),
        (Some(_), None) => check("rejected", false),
        (None, Some(_)) => check("accepted", false),
    }
}

// operators, tightest first; `in` and the assignments are the loosest
const LEVELS: [&[&str]; 11] = [
    &["**"],
    &["*", "/", "%", "%%"],
    &["+", "-"],
    &["<", "<=", ">", ">=", "<=>"],
    &["<<", ">>"],
    &["==", "!=", "<>", "~=", "~!"],
    &["&"],
    &["^"],
    &["|"],
    &["&&"],
    &["||"],
];
const ASSIGN: [&str; 15] = ["=", "+=", "-=", "*=", "/=", "%=", "%%=", "&=", "|=", "^=", "<<=", ">>=", ":=", "&&=", "||="];

struct Ops<'a> {
    ops: &'a [&'a str],
    pos: usize,
}
impl Ops<'_> {
    fn peek(&self) -> &str {
        self.ops.get(self.pos).copied().unwrap_or("")
    }
    fn name(op: &str) -> &str {
        if op == "<>" { "!=" } else { op }
    }
    fn level(&mut self, k: usize) -> String {
        if k == 0 {
            // the operand after the operators so far
            return ((b'a' + self.pos as u8) as char).to_string();
        }
        let mut l = self.level(k - 1);
        while LEVELS[k - 1].contains(&self.peek()) {
            let op = Ops::name(self.peek()).to_owned();
            self.pos += 1;
            let r = self.level(k - 1);
            l = format!("({op} {l} {r})");
        }
        l
    }
    fn cond(&mut self) -> Option<String> {
        let c = self.level(LEVELS.len());
        if self.peek() != "?" {
            return Some(c);
        }
        self.pos += 1;
        let a = self.cond()?;
        if self.peek() != ":" {
            return None;
        }
        self.pos += 1;
        let b = self.cond()?;
        Some(format!("(? {c} {a} {b})"))
    }
    fn assign(&mut self) -> Option<String> {
        let l = self.cond()?;
        if !ASSIGN.contains(&self.peek()) {
            return Some(l);
        }
        let op = self.peek().to_owned();
        self.pos += 1;
        let r = self.assign()?;
        Some(format!("({op} {l} {r})"))
    }
    fn all(&mut self) -> Option<String> {
        let mut l = self.assign()?;
        while self.peek() == "in" {
            self.pos += 1;
            let r = self.assign()?;
            l = format!("(in {l} {r})");
        }
        if self.pos == self.ops.len() { Some(l) } else { None }
    }
}

/// C19: every sequence of binary operators groups by precedence.
pub fn ops() {
    let n = param(0) as usize;
    let mut pool: Vec<&str> = vec!["?", ":", "in"];
    if param(1) == 0 {
        pool.extend(LEVELS.iter().flat_map(|l| l.iter()));
        pool.extend(ASSIGN);
    } else {
        pool.extend(LEVELS.iter().map(|l| l[0]));
        pool.extend(["-", "=", "+="]);
    }
    let ops: Vec<&str> = (0..n).map(|_| pick(&pool)).collect();
    let mut text = "a".to_owned();
    for (i, o) in ops.iter().enumerate() {
        text.push_str(&format!(" {o} {}", (b'b' + i as u8) as char));
    }
    note(text.as_bytes());
    agree(expression(&text), Ops { ops: &ops, pos: 0 }.all());
}

/// C19: prefixes, postfixes, parentheses and the operator around them.
pub fn units() {
    fn unit(n: u8) -> (String, String) {
        let terms = [("a", "a"), ("1", "1"), ("\"s\"", "\"s\""), ("(a + 1)", "(+ a 1)"), ("f(a, 1)", "(call f a 1)"), ("..(a)", "(parent a)"), (".", "."), ("null", "null"), ("/a/b", "/a/b"), ("list(a = 1)", "(list (= a 1))"), ("::a", "::a"), ("::f(1)", "(call ::f 1)")];
        let (mut t, mut s) = terms[choice(terms.len() as u8)];
        let (mut text, mut shown) = (t.to_owned(), s.to_owned());
        // a path or a dot takes what follows for itself
        let plain = !matches!(t, "." | "/a/b");
        for _ in 0..if plain { choice(n + 1) } else { 0 } {
            (t, s) = [("++", "(# ++)"), ("--", "(# --)"), (".x", "(. # x)"), (":x", "(: # x)"), ("?.x", "(?. # x)"), ("?:x", "(?: # x)"), ("[1]", "([] # 1)"), ("?[a]", "(?[] # a)"), (".f(1)", "(.() # f 1)"), (":f()", "(:() # f )"), ("?.f()", "(?.() # f )"), ("::x", "(:: # x)"), ("::f()", "(::() # f)")][choice(13)];
            // a colon after a literal belongs to a conditional
            assume(!(t.starts_with(':') && !t.starts_with("::") && text.ends_with(['1', '"', '+', '-'])));
            assume(!(t.starts_with('.') && text.ends_with('1')));
            text.push_str(t);
            shown = s.replace('#', &shown);
        }
        for _ in 0..choice(n + 1) {
            let p = pick(&["-", "!", "~", "++", "--", "&", "*"]);
            text = format!("{p} {text}");
            shown = format!("({p} {shown})");
        }
        (text, shown)
    }
    let (t, s) = unit(param(0) as u8);
    let (text, shown) = match choice(4) {
        0 => (t, s),
        1 => (format!("{t} + z"), format!("(+ {s} z)")),
        2 => (format!("z ** {t}"), format!("(** z {s})")),
        _ => (format!("({t})[{t}]"), format!("([] {s} {s})")),
    };
    note(text.as_bytes());
    let got = expression(&text);
    agree(got, Some(shown));
}

/// C19: arguments, keeping their order, names and nesting.
pub fn arguments() {
    let n = param(0) as usize;
    let toks: Vec<&str> = (0..n).map(|_| pick(&["a", "1", ",", "=", "(", ")", "+"])).collect();
    let text = format!("f({})", toks.join(" "));
    note(text.as_bytes());
    struct R<'a>(Vec<&'a str>, usize);
    impl R<'_> {
        fn eat(&mut self, t: &str) -> bool {
            let ok = self.0.get(self.1) == Some(&t);
            self.1 += ok as usize;
            ok
        }
        fn args(&mut self) -> Option<String> {
            let mut out = Vec::new();
            loop {
                if self.eat(")") {
                    return Some(out.join(" "));
                }
                if self.eat(",") {
                    continue;
                }
                out.push(self.assign()?);
                if !(self.eat(",") || self.0.get(self.1) == Some(&")")) {
                    return None;
                }
            }
        }
        fn assign(&mut self) -> Option<String> {
            let mut l = self.unit()?;
            while self.eat("+") {
                l = format!("(+ {l} {})", self.unit()?);
            }
            if self.eat("=") {
                return Some(format!("(= {l} {})", self.assign()?));
            }
            Some(l)
        }
        fn unit(&mut self) -> Option<String> {
            if self.eat("1") {
                return Some("1".into());
            }
            if self.eat("(") {
                if self.eat(")") {
                    return Some("null".into());
                }
                let e = self.assign()?;
                return if self.eat(")") { Some(e) } else { None };
            }
            let name = if self.eat("f") { "f" } else { "a" };
            if name == "a" && !self.eat("a") {
                return None;
            }
            if self.eat("(") {
                return Some(format!("(call {name} {})", self.args()?));
            }
            Some(name.into())
        }
    }
    let plus2 = toks.windows(2).any(|w| w == ["+", "+"] || w == ["=", "="]);
    assume(!plus2);
    let mut all = vec!["f", "("];
    all.extend(&toks);
    all.push(")");
    let mut r = R(all, 0);
    let want = r.assign().filter(|_| r.1 == n + 3);
    agree(expression(&text), want);
}

/// C19: the forms with a grammar of their own.
pub fn forms() {
    let (at, av) = [("a", "a"), ("1 + b", "(+ 1 b)"), ("(c ? 1 : 2)", "(? c 1 2)"), ("\"s\"", "\"s\"")][choice(4)];
    let (bt, bv) = [("a", "a"), ("x.y", "(. x y)"), ("f(1, 2)", "(call f 1 2)")][choice(3)];
    let (text, shown) = match choice(20) {
        0 => (format!("new({at}, {bt})"), format!("(new {av} {bv})")),
        1 => (format!("new /obj/x({at})"), format!("(new /obj/x {av})")),
        2 => (format!("new /obj/x{{n = {at}; m = {bt}}}({bt})"), format!("(new /obj/x{{n={av} m={bv}}} {bv})")),
        3 => ("new x.y(1)".into(), "(new x.y 1)".into()),
        4 => ("new".into(), "(new -)".into()),
        5 => (format!("locate({at}) in {bt}"), format!("(locate {av} in {bv})")),
        6 => (format!("locate({at}, {bt}, 3)"), format!("(locate {av} {bv} 3 in -)")),
        7 => (format!("pick({at}; {bt}, 2)"), format!("(pick {av};{bv} -;2)")),
        8 => (format!("input({at}) as text|null in {bt}"), format!("(input {av} as text|null in {bv})")),
        9 => (format!("input({at})"), format!("(input {av} as - in -)")),
        10 => (format!("call({at}, {bt})(1)"), format!("(dyn {av} {bv} / 1)")),
        11 => (format!("call_ext({at}, {bt})(1)"), format!("(ext {av} {bv} 1)")),
        12 => (format!("call_ext({at})(1)"), format!("(ext - {av} 1)")),
        13 => (format!("\"x[{at}]y[{bt}]z\""), format!("(interp \"x\" {av} \"y\" {bv} \"z\")")),
        14 => (format!("\"[{at}][]\""), format!("(interp \"\" {av} \"\" - \"\")")),
        15 => (format!("list({at}, {bt} = 2,)"), format!("(list {av} (= {bv} 2))")),
        16 => (format!("/obj/x{{n = {at}}}"), format!("/obj/x{{n={av}}}")),
        17 => (format!("{bt} in {bt} to {bt}"), format!("(in {bv} (to {bv} {bv}))")),
        18 => (format!(".({at})"), format!("(self {av})")),
        _ => (format!("{bt} ? {at} : {bt} ? {at} : {bt}"), format!("(? {bv} {av} (? {bv} {av} {bv}))")),
    };
    note(text.as_bytes());
    agree(expression(&text), Some(shown));
}

// ------------------------------------------------------------------------------------------------
// statements

pub fn var(v: &VarStatement) -> String {
    format!("(var {}{} {})", v.var_type, v.name, v.value.as_ref().map_or("-".into(), ex))
}
pub fn opt(e: Option<String>) -> String {
    e.unwrap_or("-".into())
}
pub fn block(b: &[Spanned<Statement>]) -> String {
    format!("{{{}}}", list(b, |s| stmt(&s.elem)))
}
pub fn stmt(s: &Statement) -> String {
    match s {
        Statement::Expr(e) => ex(e),
        Statement::Return(e) => format!("(return {})", opt(e.as_ref().map(ex))),
        Statement::Throw(e) => format!("(throw {})", ex(e)),
        Statement::While { condition, block: b } => format!("(while {} {})", ex(condition), block(b)),
        Statement::DoWhile { block: b, condition } => format!("(do {} {})", block(b), ex(&condition.elem)),
        Statement::If { arms, else_arm } => {
            format!("(if {} else {})", list(arms, |(c, b)| format!("{} {}", ex(&c.elem), block(b))), opt(else_arm.as_ref().map(|b| block(b))))
        }
        Statement::ForInfinite { block: b } => format!("(forever {})", block(b)),
        Statement::ForLoop { init, test, inc, block: b } => {
            format!("(for {} {} {} {})", opt(init.as_ref().map(|s| stmt(s))), opt(test.as_ref().map(|e| ex(e))), opt(inc.as_ref().map(|s| stmt(s))), block(b))
        }
        Statement::ForList(f) => {
            format!("(each {}{} as {} in {} {})", opt(f.var_type.as_ref().map(|t| t.to_string())), f.name, opt(f.input_type.map(|t| t.to_string())), opt(f.in_list.as_ref().map(ex)), block(&f.block))
        }
        Statement::ForKeyValue(f) => format!("(pairs {}{} {} in {} {})", opt(f.var_type.as_ref().map(|t| t.to_string())), f.key, f.value, opt(f.in_list.as_ref().map(ex)), block(&f.block)),
        Statement::ForRange(f) => {
            format!("(range {}{} {} {} {} {})", opt(f.var_type.as_ref().map(|t| t.to_string())), f.name, ex(&f.start), ex(&f.end), opt(f.step.as_ref().map(ex)), block(&f.block))
        }
        Statement::Var(v) => var(v),
        Statement::Vars(v) => list(v, var),
        Statement::Setting { name, mode, value } => format!("(set {name} {mode} {})", ex(value)),
        Statement::Spawn { delay, block: b } => format!("(spawn {} {})", opt(delay.as_ref().map(ex)), block(b)),
        Statement::Switch { input, cases, default } => format!(
            "(switch {} {} else {})",
            ex(input),
            list(cases, |(w, b)| format!(
                "[{}] {}",
                list(&w.elem, |c| match c {
                    Case::Exact(e) => ex(e),
                    Case::Range(a, b) => format!("(to {} {})", ex(a), ex(b)),
                }),
                block(b)
            )),
            opt(default.as_ref().map(|b| block(b)))
        ),
        Statement::TryCatch { try_block, catch_params, catch_block } => {
            format!("(try {} [{}] {})", block(try_block), list(catch_params, |p| FormatTreePath(p).to_string()), block(catch_block))
        }
        Statement::Continue(l) => format!("(continue {})", opt(l.as_ref().map(|l| l.to_string()))),
        Statement::Break(l) => format!("(break {})", opt(l.as_ref().map(|l| l.to_string()))),
        Statement::Goto(l) => format!("(goto {l})"),
        Statement::Label { name, block: b } => format!("(label {name} {})", block(b)),
        Statement::Del(e) => format!("(del {})", ex(e)),
        Statement::Crash(e) => format!("(crash {})", opt(e.as_ref().map(ex))),
    }
}

/// Parses the body of /proc/f.
pub fn body(text: &str) -> Option<String> {
    let ctx = Context::default();
    let mut p = Parser::new(&ctx, IndentProcessor::new(&ctx, Lexer::new(&ctx, Default::default(), text.as_bytes())));
    p.enable_procs();
    let tree = p.parse_object_tree_without_builtins();
    if ctx.errors().iter().any(|e| e.severity() == dm::Severity::Error) {
        return None;
    }
    let root = tree.root();
    let f = root.get().procs.get("f")?;
    f.value.last()?.code.as_ref().map(|b| block(b))
}

struct Gen {
    text: String,
    lines: u8,
    count: u8,
    braces: bool,
}
impl Gen {
    fn tabs(&mut self, n: usize) {
        for _ in 0..n {
            self.text.push('\t');
        }
    }
    /// statements of a block at this depth, in one of three layouts
    fn block(&mut self, depth: usize, left: u8) -> String {
        let n = 1 + if left > 0 { choice(2) } else { 0 };
        if left == 0 && choice(2) == 1 {
            // on the same line
            let s = self.simple();
            return format!("{{{s}}}");
        }
        let braces = self.braces;
        self.text.push_str(if braces { " {\n" } else { "\n" });
        let mut out = Vec::new();
        for i in 0..n {
            out.push(self.stmt(depth + 1, if i == 0 { left.saturating_sub(1) } else { 0 }));
        }
        if braces {
            self.tabs(depth);
            self.text.push_str("}\n");
        }
        format!("{{{}}}", out.join(" "))
    }
    fn simple(&mut self) -> String {
        self.count += 1;
        let i = self.count;
        let forms = [
            (format!("x{i} = 1"), format!("(= x{i} 1)")),
            ("return".into(), "(return -)".into()),
            (format!("f(x{i})"), format!("(call f x{i})")),
        ];
        let (t, s) = forms[choice(3)].clone();
        self.text.push_str(&format!(" {t}\n"));
        s
    }
    fn line(&mut self) -> String {
        let (t, s) = [
            ("var/obj/a = 1", "(var obj/a 1)"),
            ("var/a, b = 2", "(var a -) (var b 2)"),
            ("var/static/L[3]", "(var static/list/L (new /list 3))"),
            ("return a", "(return a)"),
            ("break", "(break -)"),
            ("continue", "(continue -)"),
            ("del(a)", "(del a)"),
            ("throw a", "(throw a)"),
            ("CRASH(\"x\")", "(crash \"x\")"),
            ("goto l", "(goto l)"),
            ("set waitfor = 0", "(set waitfor = 0)"),
            ("set src in view()", "(set src in (call view ))"),
            ("a.b++", "((. a b) ++)"),
        ][choice(self.lines)];
        self.text.push_str(t);
        self.text.push('\n');
        s.into()
    }
    fn stmt(&mut self, depth: usize, left: u8) -> String {
        self.tabs(depth);
        if left == 0 {
            return self.line();
        }
        let k = choice(13);
        let heads = [
            ("while(a)", "(while a "),
            ("for()", "(forever "),
            ("for(var/i = 1, i < 2, i++)", "(for (var i 1) (< i 2) (i ++) "),
            ("for(i = 1; i < 2; i++)", "(for (= i 1) (< i 2) (i ++) "),
            ("for(var/obj/o in L)", "(each obj/o as - in L "),
            ("for(var/i in 1 to 3)", "(range i 1 3 - "),
            ("for(var/i = 3 to 1 step -1)", "(range i 3 1 (- 1) "),
            ("for(var/k, v in L)", "(pairs k v in L "),
            ("spawn(1)", "(spawn 1 "),
            ("spawn", "(spawn - "),
        ];
        if k < 10 {
            let (t, s) = heads[k];
            self.text.push_str(t);
            let b = self.block(depth, left - 1);
            return format!("{s}{b})");
        }
        match k {
            10 => {
                let n = 1 + choice(2);
                let mut s = String::from("(if");
                for i in 0..n {
                    if i > 0 {
                        self.tabs(depth);
                        self.text.push_str("else ");
                    }
                    self.text.push_str(&format!("if(c{i})"));
                    let b = self.block(depth, if i == 0 { left - 1 } else { 0 });
                    s.push_str(&format!(" c{i} {b}"));
                }
                let mut e = "-".to_owned();
                if choice(2) == 1 {
                    self.tabs(depth);
                    self.text.push_str("else");
                    e = self.block(depth, 0);
                }
                format!("{s} else {e})")
            }
            11 => {
                self.text.push_str(if self.braces { "switch(a) {\n" } else { "switch(a)\n" });
                let mut s = Vec::new();
                for i in 0..choice(3) {
                    self.tabs(depth + 1);
                    let (t, v) = [("if(1)", "[1]"), ("if(2, \"x\")", "[2 \"x\"]"), ("if(3 to 4, 5)", "[(to 3 4) 5]")][choice(3)];
                    self.text.push_str(t);
                    let b = self.block(depth + 1, if i == 0 { left - 1 } else { 0 });
                    s.push(format!("{v} {b}"));
                }
                let mut e = "-".to_owned();
                if s.is_empty() || choice(2) == 1 {
                    self.tabs(depth + 1);
                    self.text.push_str("else");
                    e = self.block(depth + 1, 0);
                }
                if self.braces {
                    self.tabs(depth);
                    self.text.push_str("}\n");
                }
                format!("(switch a {} else {e})", s.join(" "))
            }
            _ => {
                if choice(2) == 1 {
                    self.text.push_str("do");
                    let b = self.block(depth, left - 1);
                    self.tabs(depth);
                    self.text.push_str("while(a)\n");
                    format!("(do {b} a)")
                } else {
                    self.text.push_str("try");
                    let b = self.block(depth, left - 1);
                    self.tabs(depth);
                    let (t, v) = [("catch", ""), ("catch(var/exception/e)", "/var/exception/e")][choice(2)];
                    self.text.push_str(t);
                    let c = self.block(depth, 0);
                    format!("(try {b} [{v}] {c})")
                }
            }
        }
    }
}

/// C37: statements of every form, nested and followed by others.
pub fn statements() {
    let mut g = Gen { text: "/proc/f()\n".into(), lines: param(1) as u8, count: 0, braces: choice(2) == 1 };
    let a = g.stmt(1, param(0) as u8);
    g.lines = 2;
    let b = g.stmt(1, 0);
    note(g.text.as_bytes());
    agree(body(&g.text), Some(format!("{{{a} {b}}}")));
}

// ------------------------------------------------------------------------------------------------

const TOP: [&str; 26] = [
    "a", "b", "/", "var", "proc", "(", ")", "{", "}", "=", ";", ",", "1", "\"s\"", "[", "]", ".", ":", "...", "as", "in", "operator", "const", "global", "-", "\n\t",
];
const BODY: [&str; 40] = [
    "a", "1", "(", ")", "{", "}", "=", ";", ",", "[", "]", ".", ":", "..", "?", "+", "!", "/", "if", "else", "for", "while", "do", "switch", "try", "catch", "return", "var", "in", "to",
    "as", "set", "new", "pick", "locate", "input", "call", "\"[", "]\"", "goto",
];

/// C20: no stream of tokens stops the parser.
pub fn anything() {
    let n = param(0) as usize;
    let k = param(1);
    let pool: &[&str] = if k == 0 { &TOP } else { &BODY };
    let text: Vec<&str> = (0..n).map(|_| pick(pool)).collect();
    let text = text.join(" ");
    let text = match k {
        0 => text,
        1 => format!("/a/proc/f()\n\t{text}\n"),
        2 => format!("/a/proc/f()\n\tswitch(x)\n\t\tif(1)\n\t\t\t{text}\n"),
        3 => format!("/a/proc/f()\n\tfor({text})\n\t\ty\n"),
        4 => format!("/a/var/x = f({text})\n/b\n"),
        _ => format!("/a/proc/f({text})\n\ty\n/b\n"),
    };
    note(text.as_bytes());
    let ctx = Context::default();
    let input = IndentProcessor::new(&ctx, Lexer::new(&ctx, Default::default(), text.as_bytes()));
    let mut p = Parser::new(&ctx, input);
    if param(2) == 0 {
        p.enable_procs();
        let tree = p.parse_object_tree_without_builtins();
        let lines = 2 + text.bytes().filter(|&b| b == b'\n').count() as u32;
        for e in ctx.errors().iter() {
            check("error_in_file", e.location().line <= lines);
        }
        log(tree.iter_types().count() as u64);
    } else {
        let mut a = AnnotationTree::default();
        p.parse_annotations_only(&mut a);
        log(a.len() as u64);
        for (r, _) in a.iter() {
            // an empty range ends before it starts
            check("annotation_order", r.start <= r.end || r.start.pred() == r.end);
        }
    }
    reach(if ctx.errors().is_empty() { "ok" } else { "err" });
}

// ------------------------------------------------------------------------------------------------
// declarations

pub fn param_str(p: &Parameter) -> String {
    format!("{}{}{}{}{}", p.var_type, p.name, p.default.as_ref().map_or(String::new(), |e| format!("={}", ex(e))), p.input_type.map_or(String::new(), |t| format!(" as {t}")), p.in_list.as_ref().map_or(String::new(), |e| format!(" in {}", ex(e))))
}
pub fn input(t: InputType) -> String {
    if t.is_empty() { String::new() } else { t.to_string() }
}
pub fn type_str(t: &dm::objtree::Type) -> String {
    let mut s = String::new();
    for (k, v) in &t.vars {
        s.push_str(&format!("{k}: {}", v.declaration.as_ref().map_or("-".into(), |d| format!("{}{}", d.var_type, input(d.var_type.input_type)))));
        if let Some(e) = &v.value.expression {
            s.push_str(&format!(" = {}", ex(e)));
        }
        s.push('\n');
    }
    for (k, p) in &t.procs {
        for v in &p.value {
            s.push_str(&format!("{k}({})", list(&v.parameters, |p| param_str(p))));
            if let Some(d) = &p.declaration {
                s.push_str(&format!(" {}", d.kind));
                if d.flags.is_final() {
                    s.push_str(" final");
                }
                match &d.return_type {
                    ProcReturnType::InputType(t) => s.push_str(&format!(" {}", input(*t))),
                    ProcReturnType::TypePath(p) => s.push_str(&format!(" /{}", p.join("/"))),
                }
            }
            s.push_str(&format!(" {}\n", v.code.as_ref().map_or("-".into(), |b| block(b))));
        }
    }
    s
}

/// C38: each declaration form, in every place a declaration can stand.
pub fn decls() {
    // entry, and what it declares
    const FORMS: [(&str, &str); 46] = [
        ("var/x", "x: "),
        ("var/x = 1", "x:  = 1"),
        ("x = y + 1", "x: - = (+ y 1)"),
        ("var/const/x = 1", "x: const/ = 1"),
        ("var/static/x", "x: static/"),
        ("var/global/x", "x: static/"),
        ("var/tmp/obj/x", "x: tmp/obj/"),
        ("var/final/x = 2", "x: final/ = 2"),
        ("var/SpacemanDMM_final/x = 2", "x: final/ = 2"),
        ("var/SpacemanDMM_private/x", "x: SpacemanDMM_private/"),
        ("var/SpacemanDMM_protected/a/b/x", "x: SpacemanDMM_protected/a/b/"),
        ("var/static/const/x = 1", "x: static/const/ = 1"),
        ("var/list/x = list(1, 2)", "x: list/ = (list 1 2)"),
        ("var/x[]", "x: list/"),
        ("var/x[3]", "x: list/ = (new /list 3)"),
        ("var/x[3][n]", "x: list/ = (new /list 3 n)"),
        ("var/obj/x[] = list()", "x: list/obj/ = (list )"),
        ("var/x as num", "x: num"),
        ("var/x = 1 as num|text", "x: text|num = 1"),
        ("var/obj/x as obj|mob in list(1)", "x: obj/mob|obj|movable"),
        ("var{x; y = 1}", "x: \ny:  = 1"),
        ("var/obj{x; y = 1}", "x: obj/\ny: obj/ = 1"),
        ("var{const{x = 1; y = 2}}", "x: const/ = 1\ny: const/ = 2"),
        ("var{obj/x; mob{y; z}}", "x: obj/\ny: mob/\nz: mob/"),
        ("proc/f()", "f() proc  {}"),
        ("proc/f(a, b)", "f(a b) proc  {}"),
        ("f(a)", "f(a) {}"),
        ("verb/f()", "f() verb  {}"),
        ("proc/final/f()", "f() proc final  {}"),
        ("proc/f(a = 1, obj/b, var/c, list/d[], e as num, g as obj|mob in view(), ...)", "f(a=1 obj/b c list/list/d e as num g as mob|obj|movable in (call view ) ...) proc  {}"),
        ("proc/f() as num", "f() proc num {}"),
        ("proc/f() as /obj/x", "f() proc /obj/x {}"),
        ("proc/f(a) return a", "f(a) proc  {(return a)}"),
        ("proc/f(a) {return a}", "f(a) proc  {(return a)}"),
        ("proc/f() {a = 1; return a}", "f() proc  {(= a 1) (return a)}"),
        ("proc{f(); g(a) return 1; verb/h()}", ""),
        ("proc{f(); g(a) {return 1}}", "f() proc  {}\ng(a) proc  {(return 1)}"),
        ("proc/operator+(b)", "operator+(b) proc  {}"),
        ("proc/operator%%=(b)", "operator%%=(b) proc  {}"),
        ("proc/operator[](i)", "operator[](i) proc  {}"),
        ("proc/operator[]=(i, v)", "operator[]=(i v) proc  {}"),
        ("proc/operator/(b)", "operator/(b) proc  {}"),
        ("proc/operator<=>(b)", "operator<=>(b) proc  {}"),
        ("proc/operator\"\"()", "operator\"\"() proc  {}"),
        ("proc/operator:=(b)", "operator:=(b) proc  {}"),
        ("var/x = \"[y]\"", "x:  = (interp \"\" y \"\")"),
    ];
    let n = param(0) as usize;
    let mut text = String::new();
    let mut want = String::new();
    let place = choice(5);
    let (head, indent, tail) = [("", "", ""), ("/t\n", "\t", ""), ("/t {\n", "\t", "}\n"), ("/t\n\tu\n", "\t\t", "\tv\n"), ("", "/t/", "")][place];
    text.push_str(head);
    let mut used = Vec::new();
    for i in 0..n {
        let k = choice(FORMS.len() as u8);
        // each declares names of its own
        let rename = |s: &str| {
            let mut out = String::new();
            let b: Vec<char> = s.chars().collect();
            for j in 0..b.len() {
                out.push(b[j]);
                let word = |k: usize| b.get(k).is_some_and(|c| c.is_alphanumeric() || *c == '_');
                if "xyzfgh".contains(b[j]) && !word(j + 1) && (j == 0 || !word(j - 1)) {
                    out.push_str(&i.to_string());
                }
            }
            out
        };
        let (t, w) = FORMS[k];
        assume(!w.is_empty());
        if t.contains("operator") {
            assume(!used.contains(&k));
        }
        used.push(k);
        text.push_str(indent);
        text.push_str(&rename(t));
        text.push('\n');
        want.push_str(&rename(w));
        want.push('\n');
    }
    text.push_str(tail);
    note(text.as_bytes());
    let ctx = Context::default();
    let mut p = Parser::new(&ctx, IndentProcessor::new(&ctx, Lexer::new(&ctx, Default::default(), text.as_bytes())));
    p.enable_procs();
    let tree = p.parse_object_tree_without_builtins();
    let errors = ctx.errors().iter().any(|e| e.severity() == dm::Severity::Error);
    if errors {
        note(ctx.errors()[0].description().as_bytes());
    }
    check("no_error", !errors);
    let ty = if place == 0 { Some(tree.root()) } else { tree.find(if place == 3 { "/t/u" } else { "/t" }) };
    check("type", ty.is_some());
    let got = type_str(&ty.unwrap());
    // variables come before procs
    let (mut vars, mut procs) = (String::new(), String::new());
    for l in want.lines() {
        let s = if l.contains("{") { &mut procs } else { &mut vars };
        s.push_str(l);
        s.push('\n');
    }
    vars.push_str(&procs);
    if got != vars {
        note(got.as_bytes());
        note(vars.as_bytes());
    }
    check("declared", got == vars);
    check("nothing_else", tree.iter_types().count() == [1, 2, 2, 4, 2][place]);
    reach("ok");
}
