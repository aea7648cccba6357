//! C25: documentation comments.
use crate::objtree::errors;
use crate::rules2::Cases;
use crate::symx::*;
use dm::Context;
use dm::docs::DocCollection;
use dm::indents::IndentProcessor;
use dm::parser::Parser;
use dm::preprocessor::Preprocessor;

fn words(s: &str) -> Vec<String> {
    s.split_whitespace().map(|w| w.to_owned()).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Type,
    Block,
    Braces,
    Var,
    VarBare,
    VarList,
    Override,
    Proc,
    ProcEmpty,
    ProcLine,
    Verb,
    Define,
    Macro,
    ProcBraces,
    Module,
}
use Form::*;
const FORMS: [Form; 15] = [Type, Block, Braces, Var, VarBare, VarList, Override, Proc, ProcEmpty, ProcLine, ProcBraces, Verb, Define, Macro, Module];

struct Item {
    form: Form,
    nested: bool,
    at: usize,
    docs: Vec<String>,
}
struct Writer {
    text: String,
    items: Vec<Item>,
    nested: usize,
    module: Vec<String>,
}
/// ways to put comments before an item, after it on its line, and first in its block
const BEFORE: usize = 10;
const AFTER: usize = 4;
const INSIDE: usize = 3;

impl Writer {
    fn item(&mut self, form: Form, nested: bool, before: usize, after: usize, inside: usize) {
        let i = self.items.len();
        let mut docs = Vec::new();
        let mut doc = |s: &str| {
            let w = format!("{s}{i}");
            docs.push(w.clone());
            w
        };
        let tab = if nested { "\t" } else { "" };
        let pre = match before {
            0 => String::new(),
            1 => format!("{tab}/// {}\n", doc("a")),
            2 => format!("{tab}/** {} */\n", doc("a")),
            3 => format!("{tab}/// {}\n{tab}/// {}\n", doc("a"), doc("b")),
            4 => format!("{tab}/// {}\n\n", doc("a")),
            5 => format!("{tab}/// {}\n{tab}// plain\n{tab}/* plain */\n", doc("a")),
            6 => format!("{tab}/**\n{tab} * {}\n{tab} * {}\n{tab} */\n", doc("a"), doc("b")),
            7 => format!("{tab}/** {} */\n\n{tab}/// {}\n", doc("a"), doc("b")),
            8 => format!("{tab}/// {}\n#if 1\n", doc("a")),
            _ => format!("{tab}/// {}\n#ifdef NONE\n{tab}/// x\n{tab}x = 3 //! y\n#endif\n", doc("a")),
        };
        self.text.push_str(&pre);
        if form == Module {
            let m = if after % 2 == 0 { format!("//! m{i}\n") } else { format!("/*! m{i} */\n") };
            self.module.push(format!("m{i}"));
            self.text.push_str(&m);
            self.items.push(Item { form, nested, at: 0, docs: Vec::new() });
            return;
        }
        let post = match after {
            0 => String::new(),
            1 => format!(" //! {}", doc("c")),
            2 => format!(" /*! {} */", doc("c")),
            _ => " // plain".to_owned(),
        };
        let blocky = matches!(form, Block | Braces | Proc | ProcBraces | Verb);
        let inner = match if blocky { inside } else { 0 } {
            0 => String::new(),
            1 => format!("{tab}\t//! {}\n", doc("d")),
            _ => format!("{tab}\t/*! {} */\n", doc("d")),
        };
        // a path below the type around, or from the top
        let p = if nested { "" } else { "/obj/q/" };
        let line = match form {
            Type if nested => format!("t{i}{post}\n"),
            Type => format!("/obj/t{i}{post}\n"),
            Block => format!("{}t{i}{post}\n{inner}{tab}\tvar/v = 1\n", if nested { "" } else { "/obj/" }),
            Braces => format!("{}t{i}{post} {{\n{inner}{tab}\tvar/v = 1\n{tab}}}\n", if nested { "" } else { "/obj/" }),
            Var => format!("{p}var/v{i} = 1{post}\n"),
            VarBare => format!("{p}var/tmp/v{i}{post}\n"),
            VarList => format!("{p}var/list/v{i}[3]{post}\n"),
            Override => format!("{}o = 2{post}\n", if nested { String::new() } else { format!("/obj/q/u{i}/") }),
            Proc => format!("{p}proc/p{i}(x, y = 1){post}\n{inner}{tab}\treturn 1\n"),
            Verb => format!("{p}verb/p{i}(){post}\n{inner}{tab}\tset hidden = 1\n{tab}\tx()\n"),
            ProcBraces => format!("{p}proc/p{i}(){post} {{\n{inner}{tab}\treturn 1\n{tab}}}\n"),
            ProcEmpty => format!("{p}proc/p{i}(){post}\n"),
            ProcLine => format!("{p}proc/p{i}() return 1\n"),
            Define => format!("#define D{i} 1{post}\n"),
            Macro => format!("#define D{i}(x) x + 1{post}\n"),
            Module => unreachable!(),
        };
        if matches!(form, Define | Macro) {
            self.text.push_str(&line);
        } else {
            self.text.push_str(tab);
            self.text.push_str(&line);
        }
        if before == 8 {
            self.text.push_str("#endif\n");
        }
        self.items.push(Item { form, nested, at: self.nested, docs });
    }
    fn open(&mut self) {
        self.nested = self.items.len();
        self.text.push_str(&format!("/obj/n{}\n", self.nested));
    }
    fn check(&self) {
        let ctx = Context::default();
        let mut pp = Preprocessor::from_buffer(&ctx, "a.dme".into(), self.text.clone());
        let (tree, modules) = {
            let mut p = Parser::new(&ctx, IndentProcessor::new(&ctx, &mut pp));
            p.enable_procs();
            p.parse_with_module_docs()
        };
        let defines = pp.finalize();
        note(self.text.as_bytes());
        for e in ctx.errors().iter() {
            note(format!("{}: {}", e.location().line, e.description()).as_bytes());
        }
        check("parsed", errors(&ctx) == 0);
        let none = DocCollection::default();
        for (i, it) in self.items.iter().enumerate() {
            let around = if it.nested { format!("/obj/n{}", it.at) } else { "/obj/q".to_owned() };
            let own = |n: &str| tree.find(n).map(|t| t.get().docs.text());
            let got = match it.form {
                Type | Block | Braces => own(&if it.nested { format!("{around}/t{i}") } else { format!("/obj/t{i}") }),
                Var | VarBare | VarList => tree.find(&around).and_then(|t| t.get().vars.get(&format!("v{i}")[..]).map(|v| v.value.docs.text())),
                Override if it.nested => tree.find(&around).and_then(|t| t.get().vars.get("o").map(|v| v.value.docs.text())),
                Override => tree.find(&format!("/obj/q/u{i}")).and_then(|t| t.get().vars.get("o").map(|v| v.value.docs.text())),
                Proc | ProcBraces | ProcEmpty | ProcLine | Verb => tree.find(&around).and_then(|t| t.get().procs.get(&format!("p{i}")[..]).map(|v| v.main_value().docs.text())),
                Define | Macro => {
                    let name = format!("D{i}");
                    defines.iter().find(|(_, (n, _))| n.as_str() == name).map(|(_, (_, d))| d.docs().text())
                }
                Module => Some(none.text()),
            };
            check("there", got.is_some());
            let got = words(&got.unwrap());
            if got != it.docs {
                note(format!("{:?} nested {} {i}: want {:?} got {got:?}", it.form, it.nested, it.docs).as_bytes());
            }
            check("docs", got == it.docs);
            if matches!(it.form, Block | Braces) {
                let ty = tree.find(&if it.nested { format!("{around}/t{i}") } else { format!("/obj/t{i}") }).unwrap();
                check("child", ty.get().vars["v"].value.docs.is_empty());
            }
            reach(if got.is_empty() { "without" } else { "with" });
        }
        check("around", tree.find("/obj/q").unwrap().get().docs.is_empty() && tree.find("/obj").unwrap().get().docs.is_empty() && tree.root().get().docs.is_empty());
        let m: Vec<String> = modules.values().flatten().flat_map(|(_, c)| words(&c.text)).collect();
        if m != self.module {
            note(format!("module: want {:?} got {m:?}", self.module).as_bytes());
        }
        check("module", m == self.module);
        let lines: Vec<&str> = self.text.lines().collect();
        check("module_line", modules.values().flatten().all(|(l, c)| lines[*l as usize - 1].contains(c.text.trim())));
    }
}

/// Every form of item with every placement of comments, next to every form.
pub fn attach() {
    let nested = choice(2) == 1;
    let form = FORMS[choice(if nested { 12 } else { 15 })];
    let (before, after, inside) = (choice(BEFORE as u8), choice(AFTER as u8), choice(INSIDE as u8));
    // these say nothing of the item
    assume(form != Module || before == 0);
    assume(form != ProcLine || after == 0);
    assume(!matches!(form, Braces | ProcBraces) || after % 2 == 0); // the rest of the line
    assume(inside == 0 || matches!(form, Block | Braces | Proc | ProcBraces | Verb));
    let mut w = Writer { text: "/obj\n\tvar/o\n/obj/q\n".to_owned(), items: Vec::new(), nested: 0, module: Vec::new() };
    let mut c = Cases::new(0);
    loop {
        let next = FORMS[c.pick(if nested { 12 } else { 15 })];
        let first = c.pick(2);
        let beside = if param(0) == 1 { c.pick(4) } else { (next as usize + 3 * first + before as usize + after as usize) % 4 };
        let (b, a, d) = [(0, 0, 0), (1, 0, 0), (0, 1, 1), (2, 0, 2)][beside];
        let ok = (next != Module || b == 0) && (next != ProcLine || a == 0) && (!matches!(next, Braces | ProcBraces) || a == 0);
        if ok {
            for which in 0..2 {
                if nested && (which == 0 || next == Override || form == Override) {
                    w.open();
                }
                if which == first {
                    w.item(form, nested, before, after, inside);
                } else {
                    w.item(next, nested, b, a, d);
                }
            }
        }
        if !c.next() {
            break;
        }
    }
    w.check();
}

/// What is written in a comment, whatever it is decorated with.
pub fn text() {
    const LINES: [&str; 7] = ["a", "b c", "# d", "- e * f", "    g", "", "/h/ i"];
    let style = choice(8) as usize;
    let mut text = String::new();
    let mut want: Vec<Vec<&str>> = Vec::new();
    let mut c = Cases::new(1);
    loop {
        // the first line starts the text, the last one ends it
        let n = c.pick(4);
        let mut lines = vec![LINES[c.pick(4)]];
        for k in 0..n {
            lines.push(LINES[if k + 1 < n { c.pick(7) } else { c.pick(5) }]);
        }
        let i = want.len();
        let mut put = |prefix: &str, suffix: &str| {
            for l in &lines {
                text.push_str(&format!("{prefix}{l}{suffix}\n"));
            }
        };
        match style {
            0 => put("/// ", ""),
            1 => put("///", ""),
            s => {
                let (open, prefix, suffix, close) =
                    [("/**\n", " * ", "", " */"), ("/**\n", "\t* ", "", "\n\t*/"), ("/**\n", "", "", "**/"), ("/********\n", " *  ", "  *", " ********/"), ("/**\n", "  ", " ", "*/"), ("/**\n\n", "\t", "", "\n *\n */")][s - 2];
                text.push_str(open);
                for l in &lines {
                    text.push_str(&format!("{prefix}{l}{suffix}\n"));
                }
                text.push_str(close);
                text.push('\n');
            }
        }
        text.push_str(&format!("/obj/t{i}\n"));
        want.push(lines);
        if !c.next() {
            break;
        }
    }
    let ctx = Context::default();
    let mut pp = Preprocessor::from_buffer(&ctx, "a.dme".into(), text);
    let tree = Parser::new(&ctx, IndentProcessor::new(&ctx, &mut pp)).parse_object_tree();
    check("parsed", errors(&ctx) == 0);
    for (i, lines) in want.iter().enumerate() {
        let docs = &tree.find(&format!("/obj/t{i}")).unwrap().get().docs;
        let got = docs.text();
        // a block comment is a paragraph of its own
        let want = if style < 2 { lines.join("\n") } else { format!("\n{}\n", lines.join("\n")) };
        if got != want {
            note(format!("style {style}: {got:?} not {want:?}").as_bytes());
        }
        check("text", got == want);
        check("some", !docs.is_empty());
        reach("ok");
    }
}
