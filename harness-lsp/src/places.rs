//! A name used somewhere within a proc: every place an expression can stand in, within every other.
use super::symx::*;
use super::world::World;
use super::*;

/// Expressions, with N for the one within.
const EXPRS: [&str; 61] = [
    "N", "(N)", "-N", "!N", "~N", "nnn + N", "N - 1", "N in nnn", "nnn || N", "N && nnn", "N == 2",
    "nnn ? N : 1", "N ? 1 : 2", "nnn ? 1 : N", "list(N)", "list(\"a\" = N)", "list(1, N)", "unknown(N)", "known(N)",
    "known(1, N)", "known(nnn = N)", "src.known(N)", "nnn.known(N)", "nnn?.known(N)", "global.known(N)", "new /aaa(N)", "new(N)",
    "new nnn(N)", "new nnn.vvv(N)", "new /list(N)", "..(N)", ".(N)", "pick(N)", "pick(1, N)", "pick(N; 1, 2)",
    "pick(1; N, 2)", "input(N)", "input(\"a\", N)", "input(\"a\") in N", "input(\"a\") as null|anything in N", "locate(N)", "locate(/aaa) in N",
    "call(N)()", "call(nnn)(N)", "call(nnn, N)()", "call_ext(nnn, \"b\")(N)", "call_ext(N, \"b\")()", "\"a[N]\"", "\"[nnn]b[N]c[N]\"", "nnn[N]", "nnn?[N]",
    "nnn?[1][N]", "new /aaa{vvv = N}()", "istype(N, /aaa)", "arglist(N)", "alist(1, N)", "src.vvv.known(N)", "known(known(N))",
    "/unknown{vvv = N}", "::known(N)", "(nnn = N)",
];
/// Statements; those whose second part is not empty have a block of it.
const STMTS: [(&str, &str); 41] = [
    ("nnn = N", ""), ("nnn += N", ""), ("nnn\\[1] = N", ""), ("src.vvv = N", ""), (". = N", ""), ("return N", ""),
    ("var/qqq = N", ""), ("var/aaa/qqq = N", ""), ("var/qqq = 1, rrr = N", ""), ("known(N)", ""), ("unknown(N)", ""), ("del N", ""), ("del(N)", ""),
    ("throw N", ""), ("CRASH(N)", ""), ("nnn << N", ""), ("if(N)", "nnn = 1"), ("if(nnn)", "nnn = N"), ("while(N)", "nnn = 1"), ("while(nnn)", "nnn = N"),
    ("for(var/i = N; nnn; nnn++)", "nnn = 1"), ("for(nnn = 1, N, nnn++)", "nnn = 1"), ("for(nnn = 1; nnn < 3; nnn += N)", "nnn = 1"),
    ("for(var/i in (N))", "nnn = 1"), ("for(nnn in (N))", "nnn = 1"), ("for(var/i = (N) to 3)", "nnn = 1"), ("for(nnn = (N) to 3)", "nnn = 1"),
    ("for(var/i = 1 to N)", "nnn = 1"), ("for(nnn = 1 to N)", "nnn = 1"), ("for(var/i in 1 to (N))", "nnn = 1"), ("for(var/i = 1 to 3 step N)", "nnn = 1"),
    ("for(var/k, v in (N))", "nnn = 1"), ("for()", "nnn = N"), ("for(var/i in nnn)", "nnn = N"), ("for(var/i = 1 to 3)", "nnn = N"),
    ("for(var/k, v in nnn)", "nnn = N"), ("for(var/i = 1; i < 3; i++)", "nnn = N"), ("switch(N)", "if(1)\n\t\t\tnnn = 1"), ("switch(nnn)", "if(1)\n\t\t\tnnn = N\n\t\telse\n\t\t\tnnn = N"),
    ("spawn(N)", "nnn = 1"), ("spawn(nnn)", "nnn = N"),
];
/// Statements of more than one head.
const BLOCKS: [&str; 12] = [
    "\tif(nnn)\n\t\tnnn = 1\n\telse if(N)\n\t\tnnn = N\n\telse\n\t\tnnn = N",
    "\tdo\n\t\tnnn = N\n\twhile(N)",
    "\ttry\n\t\tnnn = N\n\tcatch\n\t\tnnn = N",
    "\ttry\n\t\tnnn = N\n\tcatch(var/eee)\n\t\tnnn = N",
    "\tlabel:\n\t\tnnn = N",
    "\tfor(nnn, (N))\n\t\tnnn = N",
    "\tnnn = 1; nnn = N\n\tnnn = 2",
    "\tif(nnn) nnn = N\n\telse nnn = N",
    "\tspawn(N) while(N) nnn = N",
    "\tif(nnn)\n\t\tif(N)\n\t\t\tnnn = 1\n\t\telse\n\t\t\tnnn = N\n\telse\n\t\tnnn = N",
    "\tfor(var/i in nnn)\n\t\tfor(var/k in N)\n\t\t\tnnn = N\n\t\tnnn = N",
    "\tset background = 1\n\tnnn = N",
];

/// Params: the kind of name, the place (0 statements, 1 blocks, 2 values, 3 one statement), whether expressions stand within expressions.
pub fn places() {
    let kind = param(0);
    let place = param(1);
    let nested = param(2) == 1;
    let mut lines = Vec::new();
    let mut decl_line = 0;
    let (name, usage) = match kind {
        0 => ("xxx", "xxx"),
        1 => ("xxx", "src.xxx"),
        2 => ("fff", "fff()"),
        3 => ("ttt", "/ttt"),
        4 => ("fff", "/ttt/proc/fff"),
        5 => ("xxx", "tvar.xxx"),
        6 => ("xxx", "xxx.vvv"),
        7 => ("fff", "tvar.fff(1)"),
        _ => ("xxx", "::xxx"),
    };
    let mut w = World::new(|| {
        let mut n = EXPRS[choice(EXPRS.len() as u8)].to_owned();
        if nested {
            n = EXPRS[choice(EXPRS.len() as u8)].replace('N', &n);
        }
        // a string within a string's expression
        let body = match place {
            0 => {
                let (head, block) = STMTS[choice(STMTS.len() as u8)];
                let head = head.replace('\\', "");
                if block.is_empty() { format!("\t{head}\n") } else { format!("\t{head}\n\t\t{block}\n") }
            }
            3 => "\tnnn = N\n".to_owned(),
            1 => format!("{}\n", BLOCKS[choice(BLOCKS.len() as u8)]),
            _ => String::new(),
        };
        let mut text = String::new();
        for (k, def) in [(3, "/ttt"), (0, "/var/aaa/xxx"), (1, "/aaa/var/xxx"), (2, "/aaa/proc/fff()"), (4, "/ttt/proc/fff()"), (5, "/ttt/var/xxx"), (6, "/var/aaa/xxx"), (7, "/ttt/proc/fff()"), (8, "/var/xxx")] {
            if k == kind {
                decl_line = text.matches('\n').count() as u32;
                text.push_str(def);
                text.push('\n');
            }
        }
        text.push_str("/proc/known(nnn)\n/aaa/var/aaa/vvv\n/aaa/proc/known()\n/aaa/New()\n");
        let start = text.matches('\n').count() as u32;
        let code = match place {
            2 => match choice(4) {
                0 => "/aaa/var/yyy = N\n",
                1 => "/aaa/vvv = N\n",
                2 => "/aaa/bbb/vvv = N\n",
                _ => "/aaa\n\tvar/yyy = N\n",
            }
            .to_owned(),
            _ => {
                text.push_str("/aaa/proc/user(aaa/nnn, ttt/tvar)\n".replace("ttt/", if kind == 3 { "" } else { "ttt/" }).as_str());
                body
            }
        };
        let start = start + if place == 2 { 0 } else { 1 };
        for (i, l) in code.lines().enumerate() {
            let l = l.replace('N', &n);
            for _ in 0..l.matches('N').count() {
                lines.push(start + i as u32);
            }
            text.push_str(&l.replace('N', usage));
            text.push('\n');
        }
        text
    });
    // ("a ? b in c : d" is not an expression)
    assume(!nested || w.errors == 0);
    // values that are not constant are errors
    check("the program is sound", place == 2 || w.errors == 0);
    let tree = &w.e.objtree;
    let ty = |p: &str| if p.is_empty() { tree.root() } else { tree.find(p).unwrap() };
    let id = match kind {
        0 | 6 | 8 => ty("").vars["xxx"].declaration.as_ref().unwrap().id,
        1 => ty("/aaa").vars["xxx"].declaration.as_ref().unwrap().id,
        5 => ty("/ttt").vars["xxx"].declaration.as_ref().unwrap().id,
        2 => ty("/aaa").procs["fff"].declaration.as_ref().unwrap().id,
        3 => ty("/ttt").id,
        _ => ty("/ttt").procs["fff"].declaration.as_ref().unwrap().id,
    };
    let table = find_references::ReferencesTable::new(&w.e.objtree);
    let got: Vec<u32> = table.find_references(id, false).iter().map(|l| l.line - 1).collect();
    check("every use of a name is found", got == lines);
    reach("used");
    if lines.len() > 1 {
        reach("several");
    }
    // the last occurrence leads to the definition
    let n = w.text.matches(name).count();
    let (line, col) = w.find(name, n - 1);
    check("the occurrence is on the line", lines.last() == Some(&line));
    let got = w.definition(line, col);
    // (that of `::name` is not looked for)
    check("every use of a name leads to its definition", kind == 8 || got == [decl_line]);
}
