//! C12-C15: indentation, conditional compilation, macros, define history.
use crate::symx::*;
use dm::indents::IndentProcessor;
use dm::lexer::{Lexer, LocatedToken, Punctuation, Token};
use dm::preprocessor::Preprocessor;
use dm::{Context, Severity};

fn show(t: &Token) -> String {
    match t {
        Token::String(s) => format!("\"{s}\""),
        t => t.to_string(),
    }
}

fn failed(ctx: &Context) -> bool {
    ctx.errors().iter().any(|e| e.severity() == Severity::Error)
}

fn indent(ctx: &Context, text: &[u8]) -> Vec<String> {
    let mut out = Vec::new();
    for t in IndentProcessor::new(ctx, Lexer::new(ctx, Default::default(), text)) {
        check("no_blanks", !matches!(t.token, Token::Punct(Punctuation::Newline | Punctuation::Tab | Punctuation::Space)));
        out.push(show(&t.token));
        if out.len() > 8 * text.len() + 20 {
            check("terminates", false);
        }
    }
    out
}

/// Separators matter only between two things in one block.
fn normal(v: &[String]) -> Vec<&str> {
    let mut out: Vec<&str> = Vec::new();
    for t in v {
        let t = t.as_str();
        if t == ";" && matches!(out.last(), None | Some(&"{" | &"}" | &";")) {
            continue;
        }
        if t == "}" && out.last() == Some(&";") {
            out.pop();
        }
        out.push(t);
    }
    if out.last() == Some(&";") {
        out.pop();
    }
    out
}

/// C12: any outline written by indentation or braces gives that outline.
pub fn outline() {
    let n = param(0) as usize;
    let fill = param(1) as u8;
    let unit = [" ", "  ", "    ", "\t", "\t\t"][choice(5)];
    let nl = if choice(2) == 1 { "\r\n" } else { "\n" };
    let mut text = String::new();
    let mut want = Vec::new();
    let mut depth = 0;
    let mut braced: Vec<bool> = Vec::new();
    for i in 0..=n {
        let d = if i == n || i == 0 { 0 } else { choice((depth + 2).min(4) as u8) };
        if d > depth {
            let b = choice(2) == 1;
            if b {
                text.push_str(" {");
            }
            braced.push(b);
            want.push("{".to_owned());
        }
        text.push_str(if i > 0 { nl } else { "" });
        while d < depth {
            depth -= 1;
            if braced.pop() == Some(true) {
                for _ in 0..depth {
                    text.push_str(unit);
                }
                text.push_str("}");
                text.push_str(nl);
            }
            want.push("}".to_owned());
        }
        depth = d;
        if i == n {
            break;
        }
        // things that make no difference
        match choice(1 + fill) {
            1 => text.push_str(nl),
            2 => {
                text.push_str("\t   ");
                text.push_str(nl);
            }
            3 => {
                text.push_str("\t\t\t\t\t// comment");
                text.push_str(nl);
            }
            4 => {
                text.push_str(" /* a");
                text.push_str(nl);
                text.push_str("  b */");
                text.push_str(nl);
            }
            _ => {}
        }
        for _ in 0..depth {
            text.push_str(unit);
        }
        if !matches!(want.last().map(|x| x.as_str()), None | Some("{" | "}")) {
            want.push(";".to_owned());
        }
        let name = format!("x{i}");
        text.push_str(&name);
        want.push(name);
        match choice(1 + fill.min(3)) {
            1 => {
                text.push_str("(\n        a)");
                want.extend(["(", "a", ")"].map(|x| x.to_owned()));
            }
            2 => {
                text.push_str("\\\n        a");
                want.push("a".to_owned());
            }
            3 => {
                text.push_str("; y");
                want.extend([";", "y"].map(|x| x.to_owned()));
            }
            _ => {}
        }
    }
    note(text.as_bytes());
    let ctx = Context::default();
    let got = indent(&ctx, text.as_bytes());
    check("no_errors", ctx.errors().is_empty());
    check("outline", normal(&got) == want);
    log(got.len() as u64);
    reach("outline");
}

/// C12: whatever the text, tokens are kept in order, and blocks are closed.
pub fn balance() {
    let n = param(0) as usize;
    let t = text(n, b"\t \na{}();");
    note(&t);
    let ctx = Context::default();
    let got = indent(&ctx, &t);
    let mut depth = 0i32;
    let mut kept = Vec::new();
    for t in &got {
        match t.as_str() {
            "{" => depth += 1,
            "}" => {
                depth -= 1;
            }
            ";" => {}
            t => kept.push(t.to_owned()),
        }
        check("closed_once", depth >= 0 || failed(&ctx));
    }
    check("closed", depth == 0 || failed(&ctx));
    let given: Vec<String> = Lexer::new(&ctx, Default::default(), &t[..])
        .map(|t| show(&t.token))
        .filter(|t| matches!(t.as_bytes()[0], b'a' | b'(' | b')'))
        .collect();
    check("kept", kept == given);
    // explicit braces and separators survive
    for p in ["{", "}", ";"] {
        let g = t.iter().filter(|c| **c == p.as_bytes()[0]).count();
        check("explicit_kept", got.iter().filter(|t| *t == p).count() >= g);
    }
    log(got.len() as u64);
    reach(if failed(&ctx) { "err" } else { "ok" });
}

fn preprocess<'a>(ctx: &'a Context, text: &str) -> (Preprocessor<'a>, Vec<LocatedToken>) {
    let mut pp = Preprocessor::from_buffer(ctx, "a.dme".into(), text.to_owned());
    let mut out = Vec::new();
    while let Some(t) = pp.next() {
        out.push(t);
        if out.len() > 400 {
            check("terminates", false);
        }
    }
    (pp, out)
}

/// What is left without blanks and comments.
fn words(v: &[LocatedToken]) -> Vec<String> {
    v.iter().filter(|t| !t.token.is_whitespace()).map(|t| show(&t.token)).collect()
}

/// C13: the branches of conditionals that are taken.
pub fn conditions() {
    let n = param(0) as usize;
    let mut text = String::from("#define A 1\n");
    // (active, some branch was active, this is an else)
    let mut stack: Vec<(bool, bool)> = Vec::new();
    let (mut a, mut b) = (true, false);
    let mut want = Vec::new();
    let mut bad = false;
    for i in 0..n {
        let on = stack.iter().all(|x| x.0);
        let line = choice(13);
        match line {
            0 => {
                text.push_str("#ifdef A\n");
                stack.push((a, a));
            }
            1 => {
                text.push_str("#ifndef A\n");
                stack.push((!a, !a));
            }
            2 => {
                text.push_str("  # ifdef B // c\n");
                stack.push((b, b));
            }
            3 => {
                text.push_str("#if 1\n");
                stack.push((on, on));
            }
            4 => {
                text.push_str("#if 0 // c\n");
                stack.push((false, false));
            }
            5 => {
                text.push_str("#if defined(A) && !defined(B)\n");
                stack.push((on && a && !b, on && a && !b));
            }
            6 => {
                text.push_str("#elif defined(B)\n");
                match stack.last_mut() {
                    None => bad = true,
                    Some(x) => *x = (!x.1 && b, x.1 || b),
                }
            }
            7 => {
                text.push_str("#elif 1\n");
                match stack.last_mut() {
                    None => bad = true,
                    Some(x) => *x = (!x.1, true),
                }
            }
            8 => {
                text.push_str("#else\n");
                match stack.last_mut() {
                    None => bad = true,
                    Some(x) => *x = (!x.1, true),
                }
            }
            9 => {
                text.push_str("#endif\n");
                bad |= stack.pop().is_none();
            }
            10 => {
                text.push_str("#undef A\n");
                if on {
                    a = false;
                }
            }
            11 => {
                text.push_str("#define B(x) #x\n");
                if on {
                    b = true;
                }
            }
            _ => {
                text.push_str("/* c */ ");
            }
        }
        if param(1) == 0 || line == 12 {
            let name = format!("t{i}");
            text.push_str(&name);
            text.push_str("\n");
            if stack.iter().all(|x| x.0) {
                want.push(name);
            }
        }
    }
    let unmatched = bad;
    if !bad && choice(2) == 1 {
        // with every chain ended, the macros tell whether a skipped directive had an effect
        for _ in stack.drain(..) {
            text.push_str("#endif\n");
        }
        for (name, on) in [("A", a), ("B", b)] {
            text.push_str(&format!("#ifdef {name}\nhas{name}\n#endif\n"));
            if on {
                want.push(format!("has{name}"));
            }
        }
        reach("closed");
    }
    bad |= !stack.is_empty();
    note(text.as_bytes());
    let ctx = Context::default();
    let (_, out) = preprocess(&ctx, &text);
    check("branches", unmatched || words(&out) == want);
    check("errors", failed(&ctx) == bad);
    log(out.len() as u64);
    reach(if bad { "err" } else { "ok" });
}

// ------------------------------------------------------------------------------------------------
// macros

struct Macro {
    name: &'static str,
    /// None: not called with arguments
    params: Option<Vec<String>>,
    variadic: bool,
    body: Vec<String>,
}

fn lex(text: &[u8]) -> Vec<String> {
    let ctx = Context::default();
    Lexer::new(&ctx, Default::default(), text).filter(|t| !t.token.is_whitespace()).map(|t| show(&t.token)).collect()
}

fn is_name(t: &str) -> bool {
    let c = t.as_bytes()[0];
    c.is_ascii_alphabetic() || c == b'_'
}

fn is_int(t: &str) -> bool {
    t.as_bytes()[0].is_ascii_digit()
}

/// The body with the parameters replaced; None: a `#` that quotes no parameter.
fn replace(m: &Macro, params: &[String], args: &[Vec<String>]) -> Option<Vec<String>> {
    let value = |t: &str| params.iter().position(|p| p == t).map(|i| args[i].clone());
    let mut out: Vec<String> = Vec::new();
    let mut i = 0;
    while i < m.body.len() {
        let t = &m.body[i];
        i += 1;
        if t == "#" {
            let arg = value(m.body.get(i)?)?;
            i += 1;
            out.push(format!("\"{}\"", arg.join(" ")));
        } else if t == "##" {
            if let Some(next) = m.body.get(i) {
                i += 1;
                let named = is_name(next);
                let mut add = match value(next) {
                    Some(a) if named => a,
                    _ => vec![next.clone()],
                };
                let joins = named && out.last().is_some_and(|l| is_name(l)) && add.first().is_some_and(|f| is_name(f) || is_int(f));
                if joins {
                    let first = out.pop().unwrap();
                    add[0] = first + &add[0];
                }
                out.extend(add);
            }
        } else {
            match value(t) {
                Some(a) => out.extend(a),
                None => out.push(t.clone()),
            }
        }
    }
    Some(out)
}

/// The fully expanded line; Err: it is refused.
fn expand(macros: &[Macro], line: Vec<String>) -> Result<Vec<String>, ()> {
    let mut todo: std::collections::VecDeque<String> = line.into();
    let mut out = Vec::new();
    let mut steps = 0;
    while let Some(t) = todo.pop_front() {
        let m = match macros.iter().rev().find(|m| m.name == t) {
            None => {
                out.push(t);
                continue;
            }
            Some(m) => m,
        };
        steps += 1;
        assume(steps < 20);
        let params = match &m.params {
            None => {
                for b in m.body.iter().rev() {
                    todo.push_front(b.clone());
                }
                continue;
            }
            Some(p) => p,
        };
        if todo.front().map(|x| x.as_str()) != Some("(") {
            out.push(t);
            continue;
        }
        todo.pop_front();
        let mut args = vec![Vec::new()];
        let mut depth = 0;
        loop {
            let a = todo.pop_front().ok_or(())?;
            match a.as_str() {
                ")" if depth == 0 => break,
                // a variadic parameter takes the commas too
                "," if depth == 0 && !(m.variadic && args.len() == params.len()) => {
                    args.push(Vec::new());
                    continue;
                }
                "(" => depth += 1,
                ")" => depth -= 1,
                _ => {}
            }
            args.last_mut().unwrap().push(a);
        }
        if m.variadic && args.len() + 1 == params.len() {
            args.push(Vec::new());
        }
        if args.len() != params.len() {
            return Err(());
        }
        let body = replace(m, params, &args).ok_or(())?;
        for b in body.into_iter().rev() {
            todo.push_front(b);
        }
    }
    Ok(out)
}

fn squeeze(v: &[String]) -> Vec<String> {
    v.iter().map(|s| if s.starts_with('"') { s.replace(' ', "") } else { s.clone() }).collect()
}

fn run_macros(macros: &[Macro], text: &str, use_: &[u8]) {
    let mut text = text.to_owned();
    // on its own line, with a sentinel on the next
    text.push_str(std::str::from_utf8(use_).unwrap());
    text.push_str("\n.zz\n");
    note(text.as_bytes());
    let want = expand(macros, lex(use_));
    let ctx = Context::default();
    let (_, out) = preprocess(&ctx, &text);
    match want {
        Ok(mut w) => {
            w.extend([".", "zz"].map(|x| x.to_owned()));
            check("no_error", !failed(&ctx));
            check("expansion", squeeze(&words(&out)) == squeeze(&w));
            reach("ok");
        }
        Err(()) => {
            check("refused", failed(&ctx));
            reach("err");
        }
    }
    log(out.len() as u64);
}

/// C14: a macro with any body.
pub fn macro_body() {
    let n = param(0) as usize;
    let kind = choice(4);
    let mut body = Vec::new();
    for _ in 0..n {
        body.push(of(b"xya1#(,)+ "));
    }
    // a number running into a `#` is lexed as a malformed number
    for i in 1..n {
        assume(body[i - 1] != b'1' || body[i] != b'#');
    }
    // an argument
    let arg = pick(&["b", "b c", "2", "(b,c)", "+b"]);
    let (head, params, variadic, call): (&str, Option<Vec<&str>>, bool, String) = match kind {
        0 => ("#define F(x) ", Some(vec!["x"]), false, format!("F({arg})")),
        1 => ("#define F(x,y) ", Some(vec!["x", "y"]), false, format!("F({arg}, d)e")),
        2 => ("#define F(y...) ", Some(vec!["y"]), true, format!("F({arg}, d)")),
        _ => ("#define F ", None, false, "F e".to_owned()),
    };
    let mut text = head.as_bytes().to_vec();
    text.extend(&body);
    text.push(b'\n');
    let l = lex(&body);
    for i in 0..l.len() {
        // a `#` that would start a directive, or be pasted
        assume(l[i] != "#" || (kind != 3 && (i == 0 || l[i - 1] != "##")));
    }
    let m = Macro { name: "F", params: params.map(|p| p.iter().map(|x| x.to_string()).collect()), variadic, body: lex(&body) };
    run_macros(&[m], std::str::from_utf8(&text).unwrap(), call.as_bytes());
}

/// C14: macros that use each other, called with any arguments.
pub fn macro_args() {
    let n = param(0) as usize;
    let defs: [(&'static str, Option<&[&str]>, bool, &str); 5] = [
        ("K", None, false, "k"),
        ("P", None, false, "F"),
        ("F", Some(&["x"]), false, "[x]K"),
        ("G", Some(&["x", "y"]), false, "F(y) #x x##_y"),
        ("H", Some(&["x", "y"]), true, "G(K, (y)) x"),
    ];
    let mut macros = Vec::new();
    let mut text = String::new();
    for (name, params, variadic, body) in defs {
        text.push_str("#define ");
        text.push_str(name);
        if let Some(p) = params {
            text.push_str("(");
            text.push_str(&p.join(", "));
            text.push_str(if variadic { "..." } else { "" });
            text.push_str(")");
        }
        text.push_str(" ");
        text.push_str(body);
        text.push_str("\n");
        macros.push(Macro { name, params: params.map(|p| p.iter().map(|x| x.to_string()).collect()), variadic, body: lex(body.as_bytes()) });
    }
    let mut call = pick(&["F(", "G(", "H(", "P(", "a+"]).as_bytes().to_vec();
    for _ in 0..n {
        call.push(of(if param(1) == 0 { b"K,()a F" } else { b"(),a" }));
    }
    call.push(b')');
    run_macros(&macros, &text, &call);
}

/// C14: the definition in force is the latest one not undefined.
pub fn macro_stack() {
    let n = param(0) as usize;
    let mut text = String::new();
    let mut stacks: [Vec<usize>; 2] = [vec![], vec![]];
    let mut want = Vec::new();
    for i in 0..n {
        let which = choice(2);
        let name = ["A", "B"][which];
        match choice(3) {
            0 => {
                text.push_str(&format!("#define {name} v{i}\n"));
                stacks[which].push(i);
            }
            1 => {
                text.push_str(&format!("#undef {name}\n"));
                stacks[which].pop();
            }
            _ => {
                text.push_str(&format!("#ifdef {name}\ny{i}\n#endif\n"));
                if !stacks[which].is_empty() {
                    want.push(format!("y{i}"));
                }
            }
        }
        text.push_str(name);
        text.push_str("\n");
        want.push(stacks[which].last().map(|v| format!("v{v}")).unwrap_or(name.to_owned()));
    }
    note(text.as_bytes());
    let ctx = Context::default();
    let (pp, out) = preprocess(&ctx, &text);
    check("in_force", words(&out) == want);
    // the same holds for code read after this file
    let history = pp.finalize();
    let mut after = history.branch_at_end(&ctx);
    let id = after.push_file("b.dm".into(), &b"A B\n"[..]).ok().expect("read");
    let mut got = Vec::new();
    while let Some(t) = after.next() {
        check("file", t.location.file == id);
        got.push(t);
    }
    let want: Vec<String> = (0..2).map(|k| stacks[k].last().map(|v| format!("v{v}")).unwrap_or(["A", "B"][k].to_owned())).collect();
    check("at_end", words(&got) == want);
    log(out.len() as u64);
    reach("ok");
}

/// C15: for every line, the history knows the macros and branches in force there.
pub fn history() {
    let n = param(0) as usize;
    let mut text = String::new();
    let mut defs: [Vec<usize>; 2] = [vec![], vec![]];
    let mut ifs: Vec<(bool, bool)> = vec![];
    // state at the start of each line: definitions, and whether code is disabled
    let mut at: Vec<([Vec<usize>; 2], bool)> = vec![];
    let mut code: Vec<bool> = vec![];
    for i in 0..n {
        let off = ifs.iter().any(|x| !x.0);
        at.push((defs.clone(), off));
        code.push(false);
        match choice(8) {
            0 => {
                text.push_str(&format!("#define A v{i}\n"));
                if !off {
                    defs[0].push(i);
                }
            }
            1 => {
                text.push_str(&format!("#define B(x) v{i}\n"));
                if !off {
                    defs[1].push(i);
                }
            }
            2 => {
                text.push_str("#undef A\n");
                if !off {
                    defs[0].pop();
                }
            }
            3 => {
                text.push_str("#undef B\n");
                if !off {
                    defs[1].pop();
                }
            }
            4 => {
                text.push_str("#ifdef A\n");
                ifs.push((!defs[0].is_empty(), !defs[0].is_empty()));
            }
            5 => {
                text.push_str("#else\n");
                assume(!ifs.is_empty());
                let l = ifs.last_mut().unwrap();
                *l = (!l.1, true);
            }
            6 => {
                text.push_str("#endif\n");
                assume(!ifs.is_empty());
                ifs.pop();
            }
            _ => {
                text.push_str("code\n");
                *code.last_mut().unwrap() = true;
            }
        }
    }
    while !ifs.is_empty() {
        at.push((defs.clone(), ifs.iter().any(|x| !x.0)));
        code.push(false);
        text.push_str("#endif\n");
        ifs.pop();
    }
    at.push((defs.clone(), false));
    code.push(true);
    text.push_str("end\n");
    note(text.as_bytes());
    let ctx = Context::default();
    let (pp, _) = preprocess(&ctx, &text);
    let file = ctx.get_file("a.dme".as_ref()).unwrap();
    let line = below(at.len() as u8);
    let mut column = 0;
    if code[concrete(line as u64) as usize] {
        // nothing changes in the middle of a line of code
        column = any_u16();
    }
    let loc = dm::Location { file, line: line as u32 + 1, column };
    let off = pp.ifdef_history().range(interval_tree::range(loc, loc)).any(|(_, active)| !*active);
    let k = concrete(line as u64) as usize;
    check("disabled", off == at[k].1);
    let h = pp.finalize();
    for (w, name) in ["A", "B"].iter().enumerate() {
        let mut got: Vec<String> = Vec::new();
        for (r, (id, def)) in h.range(interval_tree::range(loc, loc)) {
            if id == name {
                check("starts_before", r.start < loc);
                got.push(def.substitution().iter().map(show).collect());
            }
        }
        let want: Vec<String> = at[k].0[w].iter().map(|v| format!("v{v}")).collect();
        check("macros", got == want);
    }
    log(off as u64);
    reach("ok");
}

// ------------------------------------------------------------------------------------------------
// anything

/// C13, C14: no text makes the preprocessor crash or loop.
pub fn anything() {
    let n = param(0) as usize;
    let pre = pick(&[
        "#", "#define ", "#define F(", "#define F(x) x\nF(", "#if ", "#undef ", "#include ", "#define F(x...) #x x##1\nF", "#ifdef A\n#e", "#warn ",
        "#define A \"x[\n]\" A ", "#pragma ",
    ]);
    let mut t = pre.as_bytes().to_vec();
    for _ in 0..n {
        t.push(of(b"F(,)\"[]#.x1\n \\"));
    }
    let t = String::from_utf8(t).unwrap();
    note(t.as_bytes());
    let ctx = Context::default();
    let (pp, out) = preprocess(&ctx, &t);
    let h = pp.finalize();
    let _ = h.branch_at_end(&ctx);
    log(out.len() as u64);
    reach(if failed(&ctx) { "err" } else { "ok" });
}

/// C13: an included file is read where it is included, once unless it says otherwise.
pub fn include() {
    let n = param(0) as usize;
    let kind = choice(4);
    let t = text(n, b"ab\n\t;");
    let mut inc: Vec<u8> = Vec::new();
    match kind {
        0 => {}
        1 => inc.extend(b"#pragma multiple\n"),
        2 => inc.extend(b"#define K k\n"),
        _ => inc.extend(b"#ifndef K\nK\n#endif\n"),
    }
    inc.extend(&t);
    let path = file_dm(&inc);
    let path = path.display();
    let times = choice(3);
    let mut root = String::from("K\n");
    let indent = choice(2);
    let body = lex(&t);
    let mut want = vec!["K".to_owned()];
    for i in 0..times {
        root.push_str(["", "\t"][indent]);
        root.push_str(&format!("#include \"{path}\"\nx{i} K\n"));
        if i == 0 || kind == 1 {
            if kind == 3 {
                want.push("K".into());
            }
            want.extend(body.iter().cloned());
        }
        want.push(format!("x{i}"));
        want.push(if kind == 2 { "k" } else { "K" }.into());
    }
    note(root.as_bytes());
    note(&inc);
    let ctx = Context::default();
    let (_, out) = preprocess(&ctx, &root);
    check("included", words(&out) == want);
    check("no_error", !failed(&ctx));
    check("warned", ctx.errors().is_empty() == (times < 2 || kind == 1));
    // an included file starts its own line, and locations are its own
    if times > 0 {
        let id = ctx.get_file(std::path::Path::new(&path.to_string())).expect("registered");
        let there: Vec<&LocatedToken> = out.iter().filter(|t| t.location.file == id && !t.token.is_whitespace()).collect();
        check("located", there.len() == (body.len() + (kind == 3) as usize) * (if kind == 1 { times } else { 1 }));
        let head = (kind != 0) as u32 + 2 * (kind == 3) as u32;
        for (t, w) in there.iter().rev().zip(body.iter().rev()) {
            check("same", show(&t.token) == *w);
            check("lines", t.location.line >= head + 1);
        }
    }
    log(out.len() as u64);
    reach("ok");
}
