//! C19, C37, C38: every part of every form, with expressions of every kind in it.
use crate::parse::*;
use crate::symx::*;

/// Expressions of every kind, and the trees they become.
const VALUES: [(&str, &str); 20] = [
    ("1", "1"),
    ("x", "x"),
    ("x + 1", "(+ x 1)"),
    ("\"s\"", "\"s\""),
    ("x ? 1 : 2", "(? x 1 2)"),
    ("f(1)", "(call f 1)"),
    ("x.y", "(. x y)"),
    ("-x", "(- x)"),
    ("/a/b", "/a/b"),
    ("null", "null"),
    ("x[1]", "([] x 1)"),
    ("list(1)", "(list 1)"),
    ("x == 2", "(== x 2)"),
    ("!x", "(! x)"),
    ("\"[x]\"", "(interp \"\" x \"\")"),
    ("2.5", "2.5"),
    ("x || y && z", "(|| x (&& y z))"),
    ("new /a(1)", "(new /a 1)"),
    ("..()", "(parent )"),
    ("'r'", "'r'"),
];

/// Fills in the numbered places: `#1` with an expression, `@1` with an operand.
fn fill(text: &str, shown: &str, n: usize, few: usize) -> (String, String) {
    let (mut text, mut shown) = (text.to_owned(), shown.to_owned());
    for i in 1..4 {
        if !text.contains(&format!("#{i}")) && !text.contains(&format!("@{i}")) {
            continue;
        }
        let (t, s) = VALUES[if i < 3 { choice(n as u8) } else { choice(few as u8) * 3 % VALUES.len() }];
        let operand = if t.contains(' ') || t.starts_with(['/', '-', '!']) { format!("({t})") } else { t.to_owned() };
        text = text.replace(&format!("#{i}"), t).replace(&format!("@{i}"), &operand);
        shown = shown.replace(&format!("#{i}"), s);
    }
    (text, shown)
}

const FORMS: [(&str, &str); 50] = [
    ("pick(#1)", "(pick -;#1)"),
    ("pick(#1; #2)", "(pick #1;#2)"),
    ("pick(#1, #2; #3)", "(pick -;#1 #2;#3)"),
    ("pick(#1; #2, #3)", "(pick #1;#2 -;#3)"),
    ("locate(#1)", "(locate #1 in -)"),
    ("locate(#1) in #2", "(locate #1 in #2)"),
    ("locate() in #1", "(locate  in #1)"),
    ("input(#1, #2) as text|null in #3", "(input #1 #2 as text|null in #3)"),
    ("input(#1) in #2", "(input #1 as - in #2)"),
    ("input(#1) as num", "(input #1 as num in -)"),
    ("new(#1, #2)", "(new #1 #2)"),
    ("new /p/q(#1, #2)", "(new /p/q #1 #2)"),
    ("new /p{n = #1; m = #2}(#3)", "(new /p{n=#1 m=#2} #3)"),
    ("new /p{n = #1}", "(new /p{n=#1} -)"),
    ("new v.w:z(#1)", "(new v.w:z #1)"),
    ("new v?.w?:z(#1)", "(new v?.w?:z #1)"),
    ("new v(#1, #2)", "(new v #1 #2)"),
    ("list(@1 = #2)", "(list (= #1 #2))"),
    ("list(#1, @2 = #3)", "(list #1 (= #2 #3))"),
    ("list(#1, #2, #3)", "(list #1 #2 #3)"),
    ("call(#1)(#2)", "(dyn #1 / #2)"),
    ("call(#1, #2)(#3)", "(dyn #1 #2 / #3)"),
    ("call_ext(#1, #2)(#3)", "(ext #1 #2 #3)"),
    ("call_ext(#1)(#2)", "(ext - #1 #2)"),
    ("f(#1, #2, #3)", "(call f #1 #2 #3)"),
    ("f(n = #1, #2)", "(call f (= n #1) #2)"),
    ("f(#1, n = #2)", "(call f #1 (= n #2))"),
    ("..(#1, #2)", "(parent #1 #2)"),
    (".(#1, #2)", "(self #1 #2)"),
    ("::f(#1, #2)", "(call ::f #1 #2)"),
    ("v.f(#1, #2)", "(.() v f #1 #2)"),
    ("v?.f(#1)", "(?.() v f #1)"),
    ("v:f(#1, #2)", "(:() v f #1 #2)"),
    ("v?:f(#1)", "(?:() v f #1)"),
    ("\"a[#1]b[#2]c\"", "(interp \"a\" #1 \"b\" #2 \"c\")"),
    ("\"[#1][#2]\"", "(interp \"\" #1 \"\" #2 \"\")"),
    ("\"[#1]b[]\"", "(interp \"\" #1 \"b\" - \"\")"),
    ("v[#1]", "([] v #1)"),
    ("v?[#1][#2]", "([] (?[] v #1) #2)"),
    ("(#1)", "#1"),
    ("(#1)[#2]", "([] #1 #2)"),
    ("@1 ? #2 : #3", "(? #1 #2 #3)"),
    ("@1 + @2 * @3", "(+ #1 (* #2 #3))"),
    ("@1 in @2", "(in #1 #2)"),
    ("@1 in @2 to @3", "(in #1 (to #2 #3))"),
    ("(v = #1)", "(= v #1)"),
    ("v[#1] = #2", "(= ([] v #1) #2)"),
    ("v.w += #1", "(+= (. v w) #1)"),
    ("/p{n = #1; m = #2}", "/p{n=#1 m=#2}"),
    ("v ||= #1", "(||= v #1)"),
];

/// C19: every form with every kind of expression in each of its places, in an expression.
/// Params: expressions tried in the first two places, in the third, surroundings.
pub fn slots() {
    let (t, s) = FORMS[choice(FORMS.len() as u8)];
    let (t, s) = fill(t, s, param(0) as usize, param(1) as usize);
    let (text, shown) = match choice(param(2) as u8) {
        0 => (t, s),
        1 => (format!("z + ({t})"), format!("(+ z {s})")),
        2 => (format!("g({t}, 1)"), format!("(call g {s} 1)")),
        _ => (format!("c ? ({t}) : ({t})"), format!("(? c {s} {s})")),
    };
    note(text.as_bytes());
    agree(expression(&text), Some(shown));
}

/// C19: accesses on accesses, within conditionals too.
/// Params: accesses, prefix operators.
pub fn chains() {
    const FOLLOWS: [(&str, &str); 12] = [
        (".x", "(. # x)"), (":x", "(: # x)"), ("?.x", "(?. # x)"), ("?:x", "(?: # x)"), ("[1]", "([] # 1)"), ("?[a]", "(?[] # a)"), (".f(1)", "(.() # f 1)"), (":f()", "(:() # f )"),
        ("?.f(a, 2)", "(?.() # f a 2)"), ("?:f()", "(?:() # f )"), ("++", "(# ++)"), ("::x", "(:: # x)"),
    ];
    let (b, s) = [("a", "a"), ("f(1)", "(call f 1)"), ("(a + 1)", "(+ a 1)")][choice(3)];
    let (mut text, mut shown) = (b.to_owned(), s.to_owned());
    // whether a colon belongs to a conditional after this
    let mut named = b == "a";
    let mut colon_after_unnamed = false;
    for _ in 0..choice(param(0) as u8 + 1) {
        let (t, s) = FOLLOWS[choice(12)];
        assume(!text.ends_with('+') || !t.starts_with(':') || t.starts_with("::"));
        let single = t.starts_with(':') && !t.starts_with("::");
        colon_after_unnamed |= single && !named;
        named &= !t.ends_with([')', ']']);
        text.push_str(t);
        shown = s.replace('#', &shown);
    }
    for _ in 0..choice(param(1) as u8 + 1) {
        let p = pick(&["-", "!", "~", "++", "--", "&", "*"]);
        text = format!("{p} {text}");
        shown = format!("({p} {shown})");
    }
    let k = choice(6);
    assume(!(colon_after_unnamed && matches!(k, 1 | 2 | 3)));
    let (text, shown) = match k {
        0 => (text, shown),
        1 => (format!("c ? {text} : d"), format!("(? c {shown} d)")),
        2 => (format!("c ? d : {text}"), format!("(? c d {shown})")),
        3 => (format!("c ? {text} + {text} : d"), format!("(? c (+ {shown} {shown}) d)")),
        4 => (format!("{text} ? c : d"), format!("(? {shown} c d)")),
        _ => (format!("c ? g({text}) : d"), format!("(? c (call g {shown}) d)")),
    };
    note(text.as_bytes());
    agree(expression(&text), Some(shown));
}

const HEADS: [(&str, &str); 67] = [
    ("if(#1)%", "(if #1 % else -)"),
    ("if(#1)%else if(#2)%", "(if #1 % #2 % else -)"),
    ("if(#1)%else if(#2)%else if(#3)%", "(if #1 % #2 % #3 % else -)"),
    ("if(#1)%else if(#2)%else%", "(if #1 % #2 % else %)"),
    ("while(#1)%", "(while #1 %)"),
    ("do%while(#1)\n", "(do % #1)"),
    ("for(#1; #2; #3)%", "(for #1 #2 #3 %)"),
    ("for(i = #1; #2; i++)%", "(for (= i #1) #2 (i ++) %)"),
    ("for(var/i = #1, #2, i += #3)%", "(for (var i #1) #2 (+= i #3) %)"),
    ("for(var/a/b/i = #1; #2; f(#3))%", "(for (var a/b/i #1) #2 (call f #3) %)"),
    ("for(; #1; #2)%", "(for - #1 #2 %)"),
    ("for(; #1; )%", "(for - #1 - %)"),
    ("for(#1; ; )%", "(for #1 - - %)"),
    ("for(;;)%", "(for - - - %)"),
    ("for(var/i = #1; #2; )%", "(for (var i #1) #2 - %)"),
    ("for(i = #1 to #2)%", "(range -i #1 #2 - %)"),
    ("for(i = #1 to #2 step #3)%", "(range -i #1 #2 #3 %)"),
    ("for(var/i = #1 to #2)%", "(range i #1 #2 - %)"),
    ("for(var/i = #1 to #2 step #3)%", "(range i #1 #2 #3 %)"),
    ("for(var/a/i in #1 to #2)%", "(range a/i #1 #2 - %)"),
    ("for(var/i in #1 to #2 step #3)%", "(range i #1 #2 #3 %)"),
    ("for(i in @1 to @2 step #3)%", "(range -i #1 #2 #3 %)"),
    ("for(i in #1)%", "(each -i as - in #1 %)"),
    ("for(var/i in #1)%", "(each i as - in #1 %)"),
    ("for(var/a/b/i in #1)%", "(each a/b/i as - in #1 %)"),
    ("for(var/a/i)%", "(each a/i as - in - %)"),
    ("for(i)%", "(each -i as - in - %)"),
    ("for(var/k, v in @1)%", "(pairs k v in #1 %)"),
    ("for(var/a/b/k, v in @1)%", "(pairs a/b/k v in #1 %)"),
    ("for(k, v in @1)%", "(pairs -k v in #1 %)"),
    ("spawn(#1)%", "(spawn #1 %)"),
    ("spawn()%", "(spawn - %)"),
    ("try%catch%", "(try % [] %)"),
    ("try%catch(e)%", "(try % [/e] %)"),
    ("try%catch(var/e)%", "(try % [/var/e] %)"),
    ("try%catch(var/a/e)%", "(try % [/var/a/e] %)"),
    ("try%catch(var/a/b/c/d/e)%", "(try % [/var/a/b/c/d/e] %)"),
    ("try%catch(a/b/e, d)%", "(try % [/a/b/e /d] %)"),
    ("l:%", "(label l %)"),
    ("return #1\n", "(return #1)"),
    ("throw #1\n", "(throw #1)"),
    ("del #1\n", "(del #1)"),
    ("CRASH(#1)\n", "(crash #1)"),
    ("CRASH()\n", "(crash -)"),
    ("set n = #1\n", "(set n = #1)"),
    ("set n in #1\n", "(set n in #1)"),
    ("break m\n", "(break m)"),
    ("continue m\n", "(continue m)"),
    ("goto m\n", "(goto m)"),
    ("v = #1\n", "(= v #1)"),
    ("v << @1\n", "(<< v #1)"),
    (". = #1\n", "(= . #1)"),
    ("f(#1, #2)\n", "(call f #1 #2)"),
    ("var/v = #1\n", "(var v #1)"),
    ("var/a/b/c/v = #1\n", "(var a/b/c/v #1)"),
    ("var/v = #1, w = #2\n", "(var v #1) (var w #2)"),
    ("var/a/v, b/w = #1, static/u\n", "(var a/v -) (var b/w #1) (var static/u -)"),
    ("var/v = #1 as num|text in #2\n", "(var v #1)"),
    ("var/v\\[#1]\n", "(var list/v (new /list #1))"),
    ("var/v\\[#1]\\[#2]\n", "(var list/v (new /list #1 #2))"),
    ("var/a/v\\[] = #1\n", "(var list/a/v #1)"),
    ("var/const/v = #1\n", "(var const/v #1)"),
    ("var/list/v = #1, w\n", "(var list/v #1) (var w -)"),
    ("var/static/a/v = #1\n", "(var static/a/v #1)"),
    ("for(i as obj in #1)%", "(each -i as obj in #1 %)"),
    ("for(var/a/i as area|turf in #1)%", "(each a/i as turf|area in #1 %)"),
    ("for(var/i as mob)%", "(each i as mob in - %)"),
];

/// C37: every statement form with every kind of expression in each of its places.
/// Params: expressions tried in the first two places, in the third.
pub fn heads() {
    let (t, s) = HEADS[choice(HEADS.len() as u8)];
    let (t, s) = fill(t, s, param(0) as usize, param(1) as usize);
    let t = t.replace('\\', "");
    let braces = choice(2) == 1;
    let block = if braces { " {\n\t\tq()\n\t}\n" } else { "\n\t\tq()\n" };
    let mut text = String::from("\t");
    for (i, part) in t.split('%').enumerate() {
        if i > 0 {
            text.push_str(block);
            if !part.is_empty() {
                text.push('\t');
            }
        }
        text.push_str(part);
    }
    let text = format!("/proc/f()\n{text}\tlast()\n");
    note(text.as_bytes());
    agree(body(&text), Some(format!("{{{} (call last )}}", s.replace('%', "{(call q )}"))));
}

/// C37: blocks of several statements in every statement that has a block.
/// Params: statements in the block at most, out of, the first statement form.
pub fn blocks() {
    const LINES: [(&str, &str); 12] = [
        ("continue", "(continue -)"),
        ("return", "(return -)"),
        ("m:\n#\ta = 1", "(label m {(= a 1)})"),
        ("break", "(break -)"),
        ("if(a)\n#\tb()", "(if a {(call b )} else -)"),
        ("var/i", "(var i -)"),
        ("do\n#\tb()\n#while(a)", "(do {(call b )} a)"),
        ("return 1", "(return 1)"),
        ("spawn\n#\tb()", "(spawn - {(call b )})"),
        ("a = 1; b = 2", "(= a 1) (= b 2)"),
        ("if(a) b()\n#else c()", "(if a {(call b )} else {(call c )})"),
        ("goto m", "(goto m)"),
    ];
    // % is the block in question, ^ another one
    const FORMS: [(&str, &str); 27] = [
        ("do%while(a)\n", "(do % a)"),
        ("while(a)%", "(while a %)"),
        ("for()%", "(forever %)"),
        ("for(var/i in a)%", "(each i as - in a %)"),
        ("for(var/i = 1; i; i++)%", "(for (var i 1) i (i ++) %)"),
        ("for(i = 1 to 2)%", "(range -i 1 2 - %)"),
        ("for(k, v in a)%", "(pairs -k v in a %)"),
        ("spawn(1)%", "(spawn 1 %)"),
        ("l:%", "(label l %)"),
        ("try%catch^", "(try % [] ^)"),
        ("try^catch%", "(try ^ [] %)"),
        ("try^catch(var/e)%", "(try ^ [/var/e] %)"),
        ("if(a)%", "(if a % else -)"),
        ("if(a)%else^", "(if a % else ^)"),
        ("if(a)^else%", "(if a ^ else %)"),
        ("if(a)^else if(b)%", "(if a ^ b % else -)"),
        ("if(a)^else if(b)%else^", "(if a ^ b % else ^)"),
        ("if(a)^else if(b)^else%", "(if a ^ b ^ else %)"),
        ("if(a)^else if(b)^else if(c)%", "(if a ^ b ^ c % else -)"),
        ("if(a)^else if(b)^else if(c)^else%", "(if a ^ b ^ c ^ else %)"),
        ("if(a)%else if(b)^else if(c)^else^", "(if a % b ^ c ^ else ^)"),
        ("switch(a){if(1)%}", "(switch a [1] % else -)"),
        ("switch(a){if(1)^if(2, 3)%}", "(switch a [1] ^ [2 3] % else -)"),
        ("switch(a){if(1)%if(2 to 3)^else^}", "(switch a [1] % [(to 2 3)] ^ else ^)"),
        ("switch(a){if(1)^if(2)^else%}", "(switch a [1] ^ [2] ^ else %)"),
        ("switch(a){if(1)^if(2)^if(3, 4, 5)%else^}", "(switch a [1] ^ [2] ^ [3 4 5] % else ^)"),
        ("switch(a){else%}", "(switch a  else %)"),
    ];
    let (t, s) = FORMS[choice(FORMS.len() as u8)];
    let braces = choice(2) == 1;
    let switch = t.starts_with("switch");
    // the depth of the statements in the block
    let depth = if switch { "\t\t\t" } else { "\t\t" };
    let head = &depth[1..];
    let n = choice(param(0) as u8 + 1);
    let mut lines = String::new();
    let mut shown = Vec::new();
    for _ in 0..n {
        let (t, s) = LINES[choice(param(1) as u8)];
        lines.push_str(&format!("{depth}{}\n", t.replace('#', depth)));
        shown.push(s);
    }
    let wrap = |lines: &str| {
        if lines.is_empty() { " ;\n".into() } else if braces { format!(" {{\n{lines}{head}}}\n") } else { format!("\n{lines}") }
    };
    let block = wrap(&lines);
    let other = wrap(&format!("{depth}q()\n"));
    let mut text = String::from("/proc/f()\n\t");
    let mut last = ' ';
    for c in t.chars() {
        // what follows a block starts a line
        if matches!(last, '%' | '^') && c != '}' {
            text.push_str(head);
        }
        match c {
            '%' => text.push_str(&block),
            '^' => text.push_str(&other),
            '{' if switch => text.push_str(if braces { " {\n\t\t" } else { "\n\t\t" }),
            '}' if switch => text.push_str(if braces { "\t}\n" } else { "" }),
            c => text.push(c),
        }
        last = c;
    }
    text.push_str("\tlast()\n");
    note(text.as_bytes());
    let want = s.replace('^', "{(call q )}").replace('%', &format!("{{{}}}", shown.join(" ")));
    agree(body(&text), Some(format!("{{{want} (call last )}}")));
}

// ------------------------------------------------------------------------------------------------
// declarations

/// Parses declarations, which should be without error, and shows each type with what it declares.
fn declared(text: &str) -> Vec<(String, String)> {
    note(text.as_bytes());
    let ctx = dm::Context::default();
    let mut p = dm::parser::Parser::new(&ctx, dm::indents::IndentProcessor::new(&ctx, dm::lexer::Lexer::new(&ctx, Default::default(), text.as_bytes())));
    p.enable_procs();
    let tree = p.parse_object_tree_without_builtins();
    let errors = ctx.errors().iter().any(|e| e.severity() == dm::Severity::Error);
    check("no_error", !errors);
    tree.iter_types().map(|t| (t.path.clone(), type_str(&t))).collect()
}
fn same(got: &str, want: &str) {
    if got != want {
        note(got.as_bytes());
        note(want.as_bytes());
    }
    check("declared", got == want);
    reach("ok");
}

const OPERATORS: [&str; 36] = [
    "%", "%=", "%%", "%%=", "&", "&=", "*", "**", "*=", "/", "/=", "+", "++", "+=", "-", "--", "-=", "<", "<<", "<<=", "<=", "<=>", ">", ">=", ">>", ">>=", "^", "^=", "|", "|=", "~", "~=", ":=", "[]", "[]=", "\"\"",
];

/// C38: every overloaded operator is the proc of its name.
pub fn operators() {
    let a = choice(36);
    let b = choice(36);
    assume(a != b);
    let (oa, ob) = (OPERATORS[a], OPERATORS[b]);
    let (t, absolute) = [(format!("/t\n\tproc/operator{oa}(x)\n\toperator{ob}(y)\n"), false), (format!("/t/proc/operator{oa}(x)\n/t/operator{ob}(y)\n"), true), (format!("/t {{proc {{operator{oa}(x); operator{ob}(y);}} }}\n"), false)][choice(3)].clone();
    let grouped = t.contains("proc {");
    let _ = absolute;
    let got = declared(&t);
    check("types", got.len() == 2);
    same(&got[1].1, &format!("operator{oa}(x) proc  {{}}\noperator{ob}(y){} {{}}\n", if grouped { " proc " } else { "" }));
}

/// C38: parameters with every part they can have.
/// Params: expressions tried.
pub fn parameters() {
    let one = |name: &str| {
        let lead = choice(2);
        let (tt, ts) = [("", ""), ("a/", "a/"), ("a/b/", "a/b/"), ("a/b/c/d/", "a/b/c/d/"), ("list/", "list/"), ("list/a/", "list/a/")][choice(6)];
        let (st, ss) = [("", ""), ("[]", "list/"), ("[3]", "list/")][choice(3)];
        let (v, vs) = match choice(param(0) as u8 + 1) {
            0 => (String::new(), String::new()),
            i => (format!(" = {}", VALUES[i - 1].0), format!("={}", VALUES[i - 1].1)),
        };
        let (it, is) = [("", ""), (" as num", " as num"), (" as obj|mob", " as mob|obj|movable"), (" as anything in w", " as anything in w"), (" in f(1, 2)", " in (call f 1 2)")][choice(5)];
        // without `as`, an `in` after a default is part of it
        assume(v.is_empty() || !it.starts_with(" in"));
        (format!("{}{tt}{name}{st}{v}{it}", ["", "var/"][lead]), format!("{ss}{ts}{name}{vs}{is}"))
    };
    let (t, s) = one("p");
    let others = [("q", "q"), ("a/b/q = 1", "a/b/q=1"), ("...", "...")];
    let (a, b) = others[choice(3)];
    let last = choice(2) == 1 || a == "...";
    let (text, shown) = if last { (format!("{t}, {a}"), format!("{s} {b}")) } else { (format!("{a}, {t}"), format!("{b} {s}")) };
    let got = declared(&format!("/t/proc/f({text})\n"));
    check("types", got.len() == 2);
    same(&got[1].1, &format!("f({shown}) proc  {{}}\n"));
}

/// C38: variables with every part they can have, in one path or split into blocks.
/// Params: expressions tried.
pub fn variables() {
    const FLAGS: [(&str, u8); 9] = [("", 0), ("static", 1), ("global", 1), ("const", 2), ("tmp", 4), ("final", 8), ("SpacemanDMM_final", 8), ("SpacemanDMM_private", 16), ("SpacemanDMM_protected", 32)];
    const SHOWN: [&str; 6] = ["static/", "const/", "tmp/", "final/", "SpacemanDMM_private/", "SpacemanDMM_protected/"];
    let (f1, b1) = FLAGS[choice(9)];
    let (f2, b2) = FLAGS[[0, 1, 3, 8][choice(4)]];
    let types: &[&str] = [&[][..], &["a"], &["a", "b"], &["list"], &["a", "b", "c"]][choice(5)];
    let (st, ss, si) = [("", "", ""), ("[]", "list/", ""), ("[3]", "list/", "(new /list 3)")][choice(3)];
    let v = choice(param(0) as u8 + 1);
    let (it, is) = [("", ""), (" as num|text", "text|num"), (" as obj in w", "obj")][choice(3)];
    let mut parts = vec!["var"];
    parts.extend([f1, f2].iter().filter(|f| !f.is_empty()));
    parts.extend(types);
    let value = if v == 0 { String::new() } else { format!(" = {}", VALUES[v - 1].0) };
    let last = format!("x{st}{value}{it}");
    // the path is split into a block after this many of its parts
    let split = choice(parts.len() as u8 + 1);
    let (before, after) = parts.split_at(split);
    let mut inner: Vec<&str> = after.to_vec();
    inner.push(&last);
    let inner = inner.join("/");
    let entry = |indent: &str| if split == 0 { format!("{inner}\n") } else { format!("{}\n{indent}\t{inner}\n", before.join("/")) };
    let text = match choice(3) {
        0 => format!("/t\n\t{}\tvar/y\n", entry("\t")),
        1 => format!("/t/{}/t/var/y\n", entry("")),
        _ if split == 0 => format!("/t {{ {inner}; var/y }}\n"),
        _ => format!("/t {{ {} {{ {inner}; }} var/y }}\n", before.join("/")),
    };
    let flags: String = (0..6).filter(|i| (b1 | b2) >> i & 1 == 1).map(|i| SHOWN[i]).collect();
    let value = if v > 0 { VALUES[v - 1].1 } else { si };
    let want = format!("x: {flags}{ss}{}{is}{}\ny: \n", types.iter().map(|t| format!("{t}/")).collect::<String>(), if value.is_empty() { String::new() } else { format!(" = {value}") });
    let got = declared(&text);
    check("types", got.len() == 2);
    same(&got[1].1, &want);
}

/// C38: entries of types within types, relative and absolute, and those after them.
/// Params: entries.
pub fn nested() {
    // (entry, the type it stands for, relative to the one around unless it starts with a slash; what it declares there)
    const ENTRIES: [(&str, &str, &str); 22] = [
        ("u", "u", ""),
        ("u/v", "u/v", ""),
        ("/u", "/u", ""),
        ("/u/v", "/u/v", ""),
        ("/t/u", "/t/u", ""),
        ("var/x", "", "x: \n"),
        ("x = 1", "", "x: - = 1\n"),
        ("u/x = 1", "u", "x: - = 1\n"),
        ("/u/x = 1", "/u", "x: - = 1\n"),
        ("u/var/x", "u", "x: \n"),
        ("/u/var/x", "/u", "x: \n"),
        ("/var/x", "/", "x: \n"),
        ("/x = 1", "/", "x: - = 1\n"),
        ("proc/f()", "", "f() proc  {}\n"),
        ("u/proc/f()", "u", "f() proc  {}\n"),
        ("/u/proc/f()", "/u", "f() proc  {}\n"),
        ("u/f()", "u", "f() {}\n"),
        ("/proc/f()", "/", "f() proc  {}\n"),
        ("u\n#\tx = 1", "u", "x: - = 1\n"),
        ("/u\n#\tx = 1", "/u", "x: - = 1\n"),
        ("u {var/x}", "u", "x: \n"),
        ("/u/v {x = 1}", "/u/v", "x: - = 1\n"),
    ];
    let (head, around, indent) = [("/t\n", "/t", "\t"), ("/t/s\n", "/t/s", "\t"), ("/t\n\ts\n", "/t/s", "\t\t"), ("t\n", "/t", "\t")][choice(4)];
    let mut text = head.to_owned();
    let mut want: Vec<(String, String)> = vec![("".into(), String::new())];
    let mut add = |path: &str, what: &str| {
        let mut at = String::new();
        for part in path.split('/').filter(|p| !p.is_empty()) {
            at = format!("{at}/{part}");
            if !want.iter().any(|(p, _)| *p == at) {
                want.push((at.clone(), String::new()));
            }
        }
        let i = want.iter().position(|(p, _)| *p == at).unwrap();
        // one declaration of each name for each type
        if !what.is_empty() {
            let name = &what[..1];
            assume(!want[i].1.lines().any(|l| l.starts_with(name)));
            if name == "x" { want[i].1.insert_str(0, what) } else { want[i].1.push_str(what) }
        }
    };
    add(around, "");
    for _ in 0..param(0) {
        let (t, path, what) = ENTRIES[choice(22)];
        text.push_str(&format!("{indent}{}\n", t.replace('#', indent)));
        if path.starts_with('/') { add(path, what) } else { add(&format!("{around}/{path}"), what) }
    }
    // what follows the block is outside it
    text.push_str("/z\n");
    add("/z", "");
    let mut got = declared(&text);
    got.sort();
    want.sort();
    if got != want {
        note(format!("{got:?}").as_bytes());
        note(format!("{want:?}").as_bytes());
    }
    check("declared", got == want);
    reach("ok");
}
