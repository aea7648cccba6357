//! C21-C24: the type tree, variables, procs and path resolution.
use crate::symx::*;
use dm::Context;
use dm::ast::{FormatTreePath, PathOp};
use dm::constants::Constant;
use dm::indents::IndentProcessor;
use dm::lexer::{LocatedToken, Lexer, Token};
use dm::objtree::*;
use dm::parser::Parser;

/// Tokens of a text that is made up when the first of them is wanted, so that whatever the parser does
/// before reading is done once for all texts.
struct Late<'c, F> {
    ctx: &'c Context,
    make: Option<F>,
    tokens: std::vec::IntoIter<LocatedToken>,
}
impl<'c, F: FnOnce() -> String> Iterator for Late<'c, F> {
    type Item = LocatedToken;
    fn next(&mut self) -> Option<LocatedToken> {
        if let Some(make) = self.make.take() {
            let text = make();
            note(text.as_bytes());
            let all: Vec<_> = IndentProcessor::new(self.ctx, Lexer::new(self.ctx, Default::default(), text.as_bytes())).collect();
            self.tokens = all.into_iter();
        }
        self.tokens.next()
    }
}

pub fn parse<F: FnOnce() -> String>(ctx: &Context, procs: bool, make: F) -> ObjectTree {
    parse_with(ctx, procs, make, |t| t)
}
/// As `parse`, with each token passed through `subst`, which can put in symbolic values.
pub fn parse_with<F: FnOnce() -> String, S: Fn(Token) -> Token>(ctx: &Context, procs: bool, make: F, subst: S) -> ObjectTree {
    let tokens = Late { ctx, make: Some(make), tokens: Vec::new().into_iter() };
    let mut p = Parser::new(ctx, tokens.map(|t| LocatedToken { location: t.location, token: subst(t.token) }));
    if procs {
        p.enable_procs();
    }
    p.parse_object_tree()
}
pub fn errors(ctx: &Context) -> usize {
    ctx.errors().iter().filter(|e| e.severity() == dm::Severity::Error).count()
}

struct Out(String);
impl Out {
    fn line(&mut self, depth: usize, text: &str) {
        for _ in 0..depth {
            self.0.push('\t');
        }
        self.0.push_str(text);
        self.0.push('\n');
    }
    /// Writes an entry of a type in one of five layouts; an empty entry only names the type.
    fn entry(&mut self, layout: usize, path: &[&str], entry: &str) {
        let all = path.join("/");
        match layout {
            0 if entry.is_empty() => self.line(0, &format!("/{all}")),
            0 => self.line(0, &format!("/{all}/{entry}")),
            1 => {
                self.line(0, &format!("/{all}"));
                if !entry.is_empty() {
                    self.line(1, entry);
                }
            }
            2 => {
                for (i, p) in path.iter().enumerate() {
                    self.line(i, p);
                }
                if !entry.is_empty() {
                    self.line(path.len(), entry);
                }
            }
            3 => {
                let mut s = format!("/{}", path[0]);
                for p in &path[1..] {
                    s.push_str(&format!("{{{p}"));
                }
                if !entry.is_empty() {
                    s.push_str(&format!("{{{entry}}}"));
                }
                for _ in 1..path.len() {
                    s.push('}');
                }
                self.line(0, &s);
            }
            _ => {
                // with a neighbour
                self.line(0, path[0]);
                self.line(1, "neighbour");
                for (i, p) in path[1..].iter().enumerate() {
                    self.line(i + 1, p);
                }
                if !entry.is_empty() {
                    self.line(path.len(), entry);
                }
            }
        }
    }
}

fn find<'a>(tree: &'a ObjectTree, path: &str) -> TypeRef<'a> {
    let t = tree.find(path);
    check("type_exists", t.is_some());
    t.unwrap()
}

// ------------------------------------------------------------------------------------------------

/// C21: the declared types, their parents and their descendants.
pub fn types() {
    const PATHS: [&[&str]; 6] = [&["a"], &["a", "b"], &["c"], &["a", "b", "d"], &["obj", "e"], &["list", "f"]];
    const PARENTS: [&str; 10] = ["", "/a", "/a/b", "/c", "\"/a\"", "/datum", "/mob", "/zz", "1", "/a/b/d"];
    let n = param(0) as usize;
    let (np, nl) = (param(1) as u8, param(2) as u8);
    let mut decls: Vec<(&[&str], &str)> = Vec::new();
    let mut neighbours: Vec<String> = Vec::new();
    let ctx = Context::default();
    let tree = parse(&ctx, false, || {
        let mut out = Out(String::new());
        for _ in 0..n {
            let path = PATHS[choice(PATHS.len() as u8)];
            let parent = PARENTS[choice(np)];
            let layout = choice(nl);
            let entry = if parent.is_empty() { String::new() } else { format!("parent_type = {parent}") };
            out.entry(layout, path, &entry);
            if layout == 4 {
                neighbours.push(format!("/{}/neighbour", path[0]));
            }
            decls.push((path, parent));
        }
        out.0
    });
    let errs = errors(&ctx);
    // the types that should exist, with their parents
    let mut want: Vec<(String, String)> = Vec::new();
    let mut add = |p: String| {
        if !want.iter().any(|w| w.0 == p) {
            let parent = match p.rfind('/').unwrap() {
                0 => "/datum",
                i => &p[..i],
            };
            want.push((p.clone(), parent.to_owned()));
        }
    };
    for (p, _) in &decls {
        for k in 1..=p.len() {
            let q = format!("/{}", p[..k].join("/"));
            if q != "/obj" && q != "/list" {
                add(q);
            }
        }
    }
    neighbours.iter().for_each(|n| add(n.clone()));
    let mut bad = false;
    for (p, parent) in &decls {
        if !parent.is_empty() {
            let q = format!("/{}", p.join("/"));
            let w = want.iter_mut().find(|w| w.0 == q).unwrap();
            w.1 = parent.trim_matches('"').to_owned();
        }
    }
    let known = |want: &[(String, String)], p: &str| ["/datum", "/obj", "/mob", "/list"].contains(&p) || want.iter().any(|w| w.0 == p);
    for i in 0..want.len() {
        if !known(&want, &want[i].1) {
            bad = true;
            // a value that is not a type leaves the usual parent
            want[i].1 = match want[i].0.rfind('/').unwrap() {
                _ if want[i].1 != "1" => String::new(),
                0 => "/datum".to_owned(),
                j => want[i].0[..j].to_owned(),
            };
        }
    }
    let mut looped = false;
    for w in &want {
        let (mut p, mut steps) = (w.1.clone(), 0);
        while let Some(next) = want.iter().find(|w| w.0 == p) {
            p = next.1.clone();
            steps += 1;
            if steps > want.len() {
                looped = true;
                break;
            }
        }
    }
    check("error_iff_bad", (errs > 0) == (bad || looped));
    check("type_count", tree.iter_types().filter(|t| !t.location.is_builtins() && !t.is_root() && t.path != "/obj" && t.path != "/list").count() == want.len());
    for w in &want {
        let t = find(&tree, &w.0);
        check("path", t.path == w.0);
        let i = w.0.rfind('/').unwrap();
        check("name", t.name() == &w.0[i + 1..] && t.parent_path_str() == &w.0[..i]);
        let pp = t.parent_path();
        check("parent_path", pp.is_some_and(|p| p.path == w.0[..i] && p.child(t.name()) == Some(t) && p.children().filter(|c| *c == t).count() == 1));
        check("by_path", tree.type_by_path(w.0[1..].split('/')).is_some_and(|f| f == t || w.0.starts_with("/list")));
        // up to the root in a bounded number of steps
        let (mut up, mut steps) = (Some(t), 0);
        while let Some(p) = up {
            steps += 1;
            check("parents_end", steps < 16);
            up = p.parent_type();
        }
        if !looped {
            check("parent_type", t.parent_type().is_some_and(|p| p.path == w.1));
        }
    }
    reach(if looped { "loop" } else if bad { "bad" } else { "good" });
    // descent
    for t in &want {
        let t = find(&tree, &t.0);
        let mut seen: Vec<NodeIndex> = Vec::new();
        t.recurse_types(&mut |c| seen.push(c.index()));
        let count = seen.len();
        for c in &want {
            let c = find(&tree, &c.0);
            let mut below = false;
            let mut up = Some(c);
            while let Some(p) = up {
                below |= p == t;
                up = p.parent_type();
            }
            check("is_subtype", c.is_subtype_of(&t) == below);
            check("recurse", seen.iter().filter(|s| **s == c.index()).count() == below as usize);
            check("is_subpath", c.is_subpath_of(&t.path) == (c.path == t.path || c.path.starts_with(&format!("{}/", t.path))));
        }
        check("recurse_only", want.iter().filter(|c| seen.contains(&find(&tree, &c.0).index())).count() == count);
    }
}

// ------------------------------------------------------------------------------------------------

// / < /datum < /a < /a/b < /d/c
const LINEAGE: [&[&str]; 4] = [&[], &["a"], &["a", "b"], &["d", "c"]];
fn prelude(order: usize) -> Out {
    Out(["/a/b\n/d/c\n\tparent_type = /a/b\n", "/d/c\n\tparent_type = /a/b\n/a/b\n", "a{b}\nd\n\tc/parent_type = /a/b\n"][order].to_owned())
}
fn lineage<'a>(tree: &'a ObjectTree, t: usize) -> TypeRef<'a> {
    if t == 0 { tree.root() } else { find(tree, &format!("/{}", LINEAGE[t].join("/"))) }
}

#[derive(Clone, Copy, PartialEq)]
enum Init {
    None,
    Num(i32),
    Var(usize),
    Plus(usize),
    Parent(usize),
    Of(usize, usize),
}
#[derive(Clone, Copy)]
struct Slot {
    init: Init,
    declared: bool,
    konst: bool,
    statik: bool,
    value: Option<Option<i32>>,
    evaluating: bool,
}

struct Vars {
    slots: [[Option<Slot>; 2]; 4],
    /// a variable was found to depend on itself
    cycle: bool,
}
impl Vars {
    fn declared(&self, t: usize, v: usize) -> bool {
        (0..=t).any(|t| self.slots[t][v].is_some_and(|s| s.declared))
    }
    // Some(None): null
    fn find(&mut self, t: usize, v: usize) -> Option<Option<i32>> {
        if !self.declared(t, v) {
            return None;
        }
        for u in (0..=t).rev() {
            if self.slots[u][v].is_some() {
                return self.slot(u, v);
            }
            if !self.declared(u, v) {
                return None;
            }
        }
        None
    }
    fn slot(&mut self, t: usize, v: usize) -> Option<Option<i32>> {
        let s = self.slots[t][v].unwrap();
        if s.value.is_some() {
            return s.value;
        }
        if s.evaluating {
            self.cycle = true;
            return None;
        }
        // the declaration that applies here
        let d = (0..=t).rev().filter_map(|t| self.slots[t][v]).find(|s| s.declared)?;
        if s.init == Init::None {
            self.slots[t][v].as_mut().unwrap().value = Some(None);
            return Some(None);
        }
        if d.statik && !d.konst {
            return None;
        }
        self.slots[t][v].as_mut().unwrap().evaluating = true;
        // null is no number
        let plus = |v: Option<Option<i32>>| v.flatten().map(|v| Some(v + 10));
        let value = match s.init {
            Init::None => unreachable!(),
            Init::Num(n) => Some(Some(n)),
            Init::Var(w) => self.find(t, w),
            Init::Plus(w) => plus(self.find(t, w)),
            Init::Parent(w) => if t == 0 { None } else { self.find(t - 1, w) },
            Init::Of(u, w) => self.find(u, w),
        };
        let s = self.slots[t][v].as_mut().unwrap();
        s.evaluating = false;
        s.value = value;
        value
    }
}

/// C22: which definition of a variable holds for a type, and its value.
pub fn vars() {
    const NAMES: [&str; 2] = ["x", "y"];
    let (n, kinds, inits, layouts) = (param(0) as usize, param(1) as u8, param(2) as u8, param(3) as u8);
    let ctx = Context::default();
    let mut m = Vars { slots: [[None; 2]; 4], cycle: false };
    // of each definition: type, name, line of it
    let mut lines: [[u32; 2]; 4] = [[0; 2]; 4];
    let mut typed: [[&str; 2]; 4] = [[""; 2]; 4];
    let tree = parse(&ctx, false, || {
        let mut out = prelude(choice(layouts.min(3)));
        for i in 0..n {
            let t = choice(4);
            let v = choice(2);
            let (prefix, declared, konst, statik, ty) =
                [("var/", true, false, false, ""), ("", false, false, false, ""), ("var/const/", true, true, false, ""), ("var/static/obj/", true, false, true, "obj"), ("var/a/b/", true, false, false, "a/b")][choice(kinds)];
            let (init, text) = match choice(inits) {
                0 => (Init::Num(i as i32 + 1), format!(" = {}", i + 1)),
                1 => (Init::Plus(1 - v), format!(" = {} + 10", NAMES[1 - v])),
                2 if declared => (Init::None, String::new()),
                2 => (Init::Num(70), " = 7 * 10".to_owned()),
                3 => (Init::Parent(v), format!(" = parent_type::{}", NAMES[v])),
                4 => (Init::Of(2, 1 - v), format!(" = /a/b::{}", NAMES[1 - v])),
                _ => (Init::Var(v), format!(" = {}", NAMES[v])),
            };
            // parent_type:: of a type that has no parent is another matter
            assume(!(t == 0 && matches!(init, Init::Parent(_))));
            let entry = format!("{prefix}{}{text}", NAMES[v]);
            let l = if t == 0 { 0 } else { choice(layouts) };
            if t == 0 {
                out.line(0, &format!("/{entry}"));
            } else {
                out.entry(l, LINEAGE[t], &entry);
            }
            lines[t][v] = out.0.bytes().filter(|&b| b == b'\n').count() as u32;
            let s = m.slots[t][v].get_or_insert(Slot { init, declared, konst, statik, value: None, evaluating: false });
            s.init = init;
            if declared {
                s.declared = true;
                s.konst = konst;
                s.statik = statik;
                typed[t][v] = ty;
            }
        }
        out.0
    });
    // as the compiler does: every variable of every type in turn
    let mut failed = false;
    for t in 0..4 {
        for v in 0..2 {
            let Some(s) = m.slots[t][v] else { continue };
            if !m.declared(t, v) {
                failed = true;
                continue;
            }
            let d = (0..=t).rev().filter_map(|t| m.slots[t][v]).find(|s| s.declared).unwrap();
            if (d.statik && !d.konst) || (t == 0 && !d.konst) {
                continue;
            }
            let _ = s;
            failed |= m.slot(t, v).is_none();
        }
    }
    let errs = errors(&ctx);
    check("error_iff_bad", (errs > 0) == failed);
    let recursive = ctx.errors().iter().any(|e| e.description().starts_with("recursive"));
    check("recursive_iff_cycle", recursive == m.cycle);
    reach(if m.cycle { "cycle" } else if failed { "bad" } else { "good" });
    for t in 0..4 {
        let ty = lineage(&tree, t);
        for v in 0..2 {
            let owner = (0..=t).rev().find(|&u| m.slots[u][v].is_some());
            let got = ty.get_value(NAMES[v]);
            check("defined", got.is_some() == owner.is_some());
            let declarer = (0..=t).rev().find(|&u| m.slots[u][v].is_some_and(|s| s.declared));
            let decl = ty.get_var_declaration(NAMES[v]);
            check("declared", decl.is_some() == declarer.is_some());
            if let (Some(d), Some(u)) = (decl, declarer) {
                let s = m.slots[u][v].unwrap();
                check("declared_flags", d.var_type.flags.is_const() == s.konst && d.var_type.flags.is_static() == s.statik);
                check("declared_type", d.var_type.type_path.join("/") == typed[u][v]);
            }
            if let (Some(value), Some(u)) = (got, owner) {
                check("value_line", value.location.line == lines[u][v]);
                let s = m.slots[u][v].unwrap();
                check("initialised", value.expression.is_some() == (s.init != Init::None));
                // a global that is not constant is only valued where it is used
                let want = match s.value {
                    None => None,
                    Some(None) => Some(None),
                    Some(Some(n)) => Some(Some(n as f32)),
                };
                let got = value.constant.as_ref().map(|c| c.to_float());
                if !m.cycle {
                    check("value", got == want);
                }
                if let Some(c) = &value.constant {
                    check("value_kind", c.to_float().is_some() || matches!(c, Constant::Null(_)));
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------

/// C23: the versions of a proc that a type has, and what each overrides.
pub fn procs() {
    const NAMES: [&str; 2] = ["p", "q"];
    let (n, layouts) = (param(0) as usize, param(1) as u8);
    // one name on the last types, for longer histories
    let (names, kinds, first) = if param(2) == 0 { (2, 3, 0) } else { (1, 2, param(2) as usize) };
    let ctx = Context::default();
    // versions by type and name, in calling order reversed: last is called first; each is its line
    let mut versions: [[Vec<u32>; 2]; 4] = Default::default();
    // kind and line of the declaration
    let mut decl: [[Option<(usize, u32)>; 2]; 4] = Default::default();
    let mut duplicate = false;
    let tree = parse(&ctx, true, || {
        let mut out = prelude(choice(layouts.min(3)));
        for i in 0..n {
            let t = first + choice(4 - first as u8);
            let v = if i == 0 { 0 } else { choice(names) };
            let kind = choice(kinds);
            let params = ["", "a", "a, b"][i % 3];
            let entry = format!("{}{}({params}) return {i}", ["", "proc/", "verb/"][kind], NAMES[v]);
            let l = if t == 0 { 0 } else { choice(layouts) };
            if t == 0 {
                out.line(0, &format!("/{entry}"));
            } else if l == 3 {
                // braces on one line need a terminator
                out.entry(1, LINEAGE[t], &entry);
            } else {
                out.entry(l, LINEAGE[t], &entry);
            }
            let line = out.0.bytes().filter(|&b| b == b'\n').count() as u32;
            if kind > 0 {
                duplicate |= decl[t][v].is_some();
                if decl[t][v].is_none() {
                    decl[t][v] = Some((kind, line));
                }
                // a declaration comes before the overrides written above it
                versions[t][v].insert(0, line);
            } else {
                versions[t][v].push(line);
            }
        }
        out.0
    });
    check("error_iff_duplicate", (errors(&ctx) > 0) == duplicate);
    reach(if duplicate { "duplicate" } else { "good" });
    for t in 0..4 {
        let ty = lineage(&tree, t);
        for v in 0..2 {
            // from the most derived version to the first
            let chain: Vec<(usize, u32)> = (0..=t).rev().flat_map(|u| versions[u][v].iter().rev().map(move |&l| (u, l))).collect();
            let mut p = ty.get_proc(NAMES[v]);
            for (i, &(u, line)) in chain.iter().enumerate() {
                check("version_exists", p.is_some());
                let q = p.unwrap();
                check("version_type", q.ty() == lineage(&tree, u));
                check("version", q.get().location.line == line && q.name() == NAMES[v]);
                check("visible", q.is_externally_visible() == (i == 0 || chain[i - 1].0 != u));
                check("version_code", q.code.is_some());
                p = q.parent_proc();
            }
            check("version_end", p.is_none());
            let want = (0..=t).rev().find_map(|u| decl[u][v]);
            let got = ty.get_proc_declaration(NAMES[v]);
            check("declaration", want.map(|w| w.1) == got.map(|d| d.location.line));
            if let (Some(w), Some(g)) = (want, got) {
                check("declaration_kind", g.kind.is_verb() == (w.0 == 2));
            }
            if let Some(q) = ty.get_proc(NAMES[v]) {
                // overriders: the public version of each type at or below
                let mut seen: Vec<(NodeIndex, usize)> = Vec::new();
                q.recurse_children(&mut |c| seen.push((c.ty().index(), c.index())));
                let from = chain[0].0;
                let want: Vec<(NodeIndex, usize)> = (from..4).filter(|&u| !versions[u][v].is_empty()).map(|u| (lineage(&tree, u).index(), versions[u][v].len() - 1)).collect();
                check("overriders", seen.len() == want.len() && want.iter().all(|w| seen.contains(w)));
                let mut seen: Vec<(NodeIndex, usize)> = Vec::new();
                q.recurse_children_within(ty, &mut |c| seen.push((c.ty().index(), c.index())));
                let want: Vec<(NodeIndex, usize)> = (t..4).filter(|&u| !versions[u][v].is_empty()).map(|u| (lineage(&tree, u).index(), versions[u][v].len() - 1)).collect();
                check("overriders_within", seen.len() == want.len() && want.iter().all(|w| seen.contains(w)));
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------

/// C24: what a path names, seen from a type.
pub fn paths() {
    const ALL: [&str; 9] = ["/a", "/b", "/a/b", "/a/c", "/b/c", "/a/b/c", "/a/c/b", "/a/b/a", "/a/b/c/d"];
    const NAMES: [&str; 4] = ["a", "b", "c", "d"];
    let (n, with_value) = (param(0) as usize, param(1) == 1);
    let set = any_u16();
    assume(set < 1 << 9);
    let set = concrete(set as u64);
    // prefixes are there
    let mut have: Vec<&str> = (0..9).filter(|i| set >> i & 1 == 1).map(|i| ALL[i]).collect();
    for p in &have {
        let i = p.rfind('/').unwrap();
        assume(i == 0 || have.contains(&&p[..i]));
    }
    assume(!have.is_empty());
    let from = have[choice(have.len() as u8)];
    let path: Vec<(PathOp, &str)> = (0..n).map(|_| ([PathOp::Slash, PathOp::Dot, PathOp::Colon][choice(3)], NAMES[choice(4)])).collect();
    // where a type's values come from has no say
    let parent = if param(2) == 0 { "" } else { pick(&["", "/e", "/b", "/a/c"]) };
    assume(!parent.starts_with(from) && (parent == "/e" || parent.is_empty() || have.contains(&parent)));
    // a value never begins with a colon
    assume(!(with_value && path[0].0 == PathOp::Colon));
    let text: String = path.iter().map(|(o, s)| format!("{o}{s}")).collect();
    have.sort();
    let have = &have;
    fn child(have: &[&str], at: &str, name: &str) -> Option<String> {
        let p = format!("{at}/{name}");
        have.contains(&&p[..]).then_some(p)
    }
    fn below(have: &[&str], at: &str, name: &str) -> Option<String> {
        if let Some(c) = child(have, at, name) {
            return Some(c);
        }
        NAMES.iter().filter_map(|n| child(have, at, n)).find_map(|c| below(have, &c, name))
    }
    let mut at = if path[0].0 == PathOp::Slash { String::new() } else { from.to_owned() };
    let mut found = true;
    for (op, name) in &path {
        let next = match op {
            PathOp::Slash => child(have, &at, name),
            PathOp::Colon => below(have, &at, name),
            PathOp::Dot => {
                let mut up = at.clone();
                loop {
                    if let Some(c) = child(have, &up, name) {
                        break Some(c);
                    }
                    match up.rfind('/') {
                        Some(i) => up.truncate(i),
                        None => break None,
                    }
                }
            }
        };
        match next {
            Some(n) => at = n,
            None => {
                found = false;
                break;
            }
        }
    }
    reach(if found { "found" } else { "missing" });
    let ctx = Context::default();
    let source = |extra: &str| {
        let mut s: String = have.iter().map(|h| format!("{h}\n")).collect();
        if !parent.is_empty() {
            s.push_str(&format!("/e/d/a\n{from}/parent_type = {parent}\n"));
        }
        s.push_str(extra);
        note(s.as_bytes());
        note(text.as_bytes());
        s
    };
    if !with_value {
        let s = source("");
        let p = Parser::new(&ctx, IndentProcessor::new(&ctx, Lexer::new(&ctx, Default::default(), s.as_bytes())));
        let tree = p.parse_object_tree_without_builtins();
        let got = find(&tree, from).navigate_path(&path);
        match got {
            Some(NavigatePathResult::Type(t)) => check("resolved", found && t.path == at),
            Some(_) => check("resolved_kind", false),
            None => check("unresolved", !found),
        }
    } else {
        let tree = parse(&ctx, false, || source(&format!("{from}\n\tvar/x = {text}\n")));
        // an absolute path is taken as it is
        let absolute = path.iter().all(|p| p.0 == PathOp::Slash);
        let want = if absolute { Some(text.clone()) } else { found.then_some(at) };
        check("error_iff_missing", (errors(&ctx) > 0) == want.is_none());
        let got = match &find(&tree, from).vars["x"].value.constant {
            Some(Constant::Prefab(p)) => Some(FormatTreePath(&p.path).to_string()),
            _ => None,
        };
        check("value", got == want);
    }
}
