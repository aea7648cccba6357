//! C26-C30, C39-C42: what the whole-program checker reports.
use crate::objtree::parse;
use crate::symx::*;
use dm::lexer::Token;
use dm::{Context, DMError};
use std::collections::HashSet;

/// Parses the text made by `make` and checks it.
pub fn lint<F: FnOnce() -> String>(ctx: &Context, make: F) {
    let tree = parse(ctx, true, make);
    dreamchecker::run(ctx, &tree);
}

pub fn of_type(ctx: &Context, ty: &str) -> Vec<DMError> {
    ctx.errors().iter().filter(|e| e.errortype() == Some(ty)).cloned().collect()
}

// ------------------------------------------------------------------------------------------------
// C28: blocking calls

/// The types of the programs, each with its parent.
const TYPES: [(&str, Option<usize>); 4] = [("/datum", None), ("/datum/a", Some(0)), ("/datum/a/b", Some(1)), ("/datum/c", Some(0))];
/// Stands for the type of global procs.
const GLOBAL: usize = 9;

#[derive(Clone)]
enum Stmt {
    Sleep(&'static str),
    Call(&'static str),
    Parent,
    On(usize, &'static str),
    Spawn(Box<Stmt>),
}
#[derive(Clone)]
struct Def {
    ty: usize,
    name: &'static str,
    set: &'static str,
    body: Vec<Stmt>,
    line: u32,
    sleeps_at: u32,
}
#[derive(Default)]
struct Program(Vec<Def>);

impl Program {
    fn def(&mut self, ty: usize, name: &'static str, set: &'static str, body: Vec<Stmt>) {
        self.0.push(Def { ty, name, set, body, line: 0, sleeps_at: 0 });
    }
    fn text(&mut self) -> String {
        let mut s = String::new();
        let mut line = 1;
        for (t, _) in TYPES {
            s.push_str(&format!("{t}\n"));
            line += 1;
        }
        let mut declared: Vec<&str> = Vec::new();
        for d in self.0.iter_mut() {
            let declares = d.ty == GLOBAL || !declared.contains(&d.name);
            declared.push(d.name);
            let ty = if d.ty == GLOBAL { "" } else { TYPES[d.ty].0 };
            s.push_str(&format!("{ty}/{}{}()\n", if declares { "proc/" } else { "" }, d.name));
            d.line = line;
            line += 1;
            if !d.set.is_empty() {
                s.push_str(&format!("\tset {}\n", d.set));
                line += 1;
            }
            for (i, st) in d.body.iter().enumerate() {
                let mut st = st;
                let mut ind = "\t";
                if let Stmt::On(t, _) = st {
                    s.push_str(&format!("\tvar{}/x{i}\n", TYPES[*t].0));
                    line += 1;
                }
                if let Stmt::Spawn(inner) = st {
                    s.push_str("\tspawn(1)\n");
                    line += 1;
                    ind = "\t\t";
                    st = inner;
                }
                let call = match st {
                    Stmt::Sleep(what) => {
                        if ind == "\t" {
                            d.sleeps_at = line;
                        }
                        what.to_string()
                    }
                    Stmt::Call(n) => format!("{n}()"),
                    Stmt::Parent => "..()".to_owned(),
                    Stmt::On(_, n) => format!("x{i}.{n}()"),
                    Stmt::Spawn(_) => unreachable!(),
                };
                s.push_str(&format!("{ind}{call}\n"));
                line += 1;
            }
        }
        s
    }
    fn at(&self, ty: usize, name: &str) -> Option<usize> {
        self.0.iter().position(|d| d.ty == ty && d.name == name)
    }
    /// The definition an object of a type runs, or the global proc of that name.
    fn dispatch(&self, ty: usize, name: &str) -> Option<usize> {
        let mut t = if ty == GLOBAL { None } else { Some(ty) };
        while let Some(i) = t {
            if let Some(d) = self.at(i, name) {
                return Some(d);
            }
            t = TYPES[i].1;
        }
        self.at(GLOBAL, name)
    }
    fn below(ty: usize) -> Vec<usize> {
        (0..TYPES.len())
            .filter(|&i| {
                let mut t = Some(i);
                while let Some(x) = t {
                    if x == ty {
                        return true;
                    }
                    t = TYPES[x].1;
                }
                false
            })
            .collect()
    }
    fn is_root(&self, d: usize) -> bool {
        let mut i = d;
        loop {
            if self.0[i].set.contains("should_not_sleep") {
                return true;
            }
            if self.0[i].ty == GLOBAL {
                return false;
            }
            match TYPES[self.0[i].ty].1.and_then(|p| self.dispatch(p, self.0[i].name)) {
                Some(p) => i = p,
                None => return false,
            }
        }
    }
    fn exempt(&self, d: usize) -> bool {
        self.0[d].set.contains("waitfor") || self.0[d].set.contains("allowed_to_sleep")
    }
    /// The sleeping definitions a proc can run into. `real`: by running on objects of each type; otherwise
    /// by what is known of the object: a type it has at least.
    fn sleepers(&self, root: usize, real: bool) -> HashSet<usize> {
        let mut seen: HashSet<(usize, usize)> = HashSet::new();
        let mut found = HashSet::new();
        let mut todo: Vec<(usize, usize)> = Vec::new();
        let t = self.0[root].ty;
        if t == GLOBAL || !real {
            todo.push((root, t));
        } else {
            // an override is a root of its own, but a type without one runs this one
            todo.extend(Self::below(t).into_iter().filter(|&b| self.dispatch(b, self.0[root].name) == Some(root)).map(|b| (root, b)));
        }
        while let Some((d, on)) = todo.pop() {
            if !seen.insert((d, on)) {
                continue;
            }
            if d != root && (self.exempt(d) || self.is_root(d)) {
                continue;
            }
            let def = &self.0[d];
            if def.sleeps_at != 0 {
                found.insert(d);
                if d != root {
                    continue;
                }
            }
            for st in &def.body {
                match st {
                    Stmt::Sleep(_) | Stmt::Spawn(_) => {}
                    Stmt::Parent => {
                        if let Some(p) = TYPES[def.ty].1.and_then(|p| self.dispatch(p, def.name)) {
                            todo.push((p, on));
                        }
                    }
                    Stmt::Call(n) => match self.dispatch(def.ty, n) {
                        Some(g) if self.0[g].ty == GLOBAL => todo.push((g, GLOBAL)),
                        Some(_) => self.enter(on, n, real, &mut todo),
                        None => {}
                    },
                    Stmt::On(t, n) => {
                        if real {
                            // whether a proc that may sleep lets its overrides sleep too is left open
                            if self.dispatch(*t, n).is_some_and(|d| self.exempt(d)) {
                                continue;
                            }
                            for b in Self::below(*t) {
                                self.enter(b, n, real, &mut todo);
                            }
                        } else {
                            self.enter(*t, n, real, &mut todo);
                        }
                    }
                }
            }
        }
        found
    }
    fn enter(&self, on: usize, name: &str, real: bool, todo: &mut Vec<(usize, usize)>) {
        todo.extend(self.dispatch(on, name).map(|d| (d, on)));
        if !real {
            todo.extend(Self::below(on).into_iter().filter_map(|b| self.at(b, name).map(|d| (d, b))));
        }
    }
    /// Compares the reports with what the procs do.
    fn check(&self, ctx: &Context) {
        for e in ctx.errors().iter() {
            note(format!("{:?} {} {}", (e.location().line, e.location().column), e.errortype().unwrap_or(""), e.description()).as_bytes());
        }
        let mut reported: Vec<(u32, u32)> = Vec::new();
        for e in of_type(ctx, "must_not_sleep") {
            reported.push((e.location().line, e.notes().last().unwrap().location().line));
        }
        for r in 0..self.0.len() {
            if self.is_root(r) {
                // one blocking proc is enough; others may come to light once it is dealt with
                if !self.sleepers(r, true).is_empty() {
                    let any = self.sleepers(r, false).iter().any(|&s| reported.iter().any(|&(_, at)| at == self.0[s].sleeps_at));
                    check("sleep_found", any);
                    reach("sleeps");
                }
                reach("root");
            }
        }
        for (at, sleep) in reported {
            let root = self.0.iter().position(|d| d.line == at);
            check("report_at_proc", root.is_some());
            let root = root.unwrap();
            check("report_has_setting", self.is_root(root));
            check("sleep_real", self.sleepers(root, false).iter().any(|&s| self.0[s].sleeps_at == sleep));
        }
        check("no_other_error", ctx.errors().iter().all(|e| e.errortype() == Some("must_not_sleep") || e.errortype() == Some("proc_has_no_parent")));
    }
}

const SLEEP: &str = "SpacemanDMM_should_not_sleep = 1";

/// Calls through objects, overrides and parents.
pub fn sleep_dispatch() {
    use Stmt::*;
    let ctx = Context::default();
    let mut p = Program::default();
    let (second, inherited) = (param(0) as u8, param(1) != 0);
    lint(&ctx, || {
        let body = |c: usize| match c {
            0 => vec![],
            1 => vec![Sleep("sleep(1)")],
            2 => vec![Parent],
            _ => vec![Call("g")],
        };
        let f = [0, 1, 3][choice(3)];
        p.def(0, "f", if inherited { SLEEP } else { "" }, body(f));
        p.def(0, "g", "", body(choice(2)));
        for (t, name, n) in [(1, "f", 5), (2, "f", 3), (1, "g", 4), (2, "g", 3), (3, "g", 3)] {
            // absent, empty, sleeping, ..(), g()
            let c = choice(n);
            if c != 0 {
                p.def(t, name, "", body(c - 1));
            }
        }
        if !inherited {
            let mut b = vec![On(choice(4), "f")];
            match choice(second) {
                0 => {}
                n @ 1..=4 => b.push(On(n - 1, "f")),
                n => b.push(On(n - 5, "g")),
            }
            p.def(GLOBAL, "p", SLEEP, b);
        }
        p.text()
    });
    p.check(&ctx);
}

/// Overrides of procs that may sleep, and of those that may not, called on each type.
pub fn sleep_exempt() {
    use Stmt::*;
    const WAIT: &str = "waitfor = 0";
    const MAY: &str = "SpacemanDMM_allowed_to_sleep = 1";
    // the last only where a proc is declared, ..() only below
    let kinds: [(&str, &[Stmt]); 6] =
        [("", &[]), ("", &[Sleep("sleep(1)")]), (WAIT, &[Sleep("sleep(1)")]), (MAY, &[Sleep("sleep(1)")]), ("", &[Parent]), (WAIT, &[Parent])];
    let below = [6, 0, 1, 2, 4, 5];
    let ctx = Context::default();
    let mut p = Program::default();
    lint(&ctx, || {
        let (base, on) = (choice(4), choice(3));
        for i in 0..36 {
            let name: &'static str = format!("g{i}").leak();
            p.def(0, name, kinds[base].0, kinds[base].1.to_vec());
            for (t, k) in [(1, below[i / 6]), (2, below[i % 6])] {
                if k < 6 {
                    p.def(t, name, kinds[k].0, kinds[k].1.to_vec());
                }
            }
            p.def(GLOBAL, format!("p{i}").leak(), SLEEP, vec![On(on, name)]);
        }
        p.text()
    });
    p.check(&ctx);
}

/// Settings of procs that call each other in any pattern.
pub fn sleep_settings() {
    use Stmt::*;
    let ctx = Context::default();
    let mut p = Program::default();
    let n = param(0) as usize;
    lint(&ctx, || {
        const NAMES: [&str; 4] = ["p", "q", "r", "s"];
        for i in 0..n {
            let set = [SLEEP, "", "waitfor = 0", "SpacemanDMM_allowed_to_sleep = 1", "background = 1"][choice(param(1) as u8)];
            let next = NAMES[(i + 1) % n];
            let after = NAMES[(i + 2) % n];
            let body = match choice(param(2) as u8) {
                0 => vec![],
                1 => vec![Sleep("sleep(1)")],
                2 => vec![Call(next)],
                3 => vec![Call(after), Call(next)],
                4 => vec![Spawn(Box::new(Call(next))), Call(after)],
                5 => vec![Spawn(Box::new(Sleep("sleep(1)"))), Call(next)],
                _ => vec![Sleep("input()"), Call(next)],
            };
            p.def(GLOBAL, NAMES[i], set, body);
        }
        p.text()
    });
    p.check(&ctx);
}

// ------------------------------------------------------------------------------------------------
// C42: switches over rand()

/// rand(A, B) with A and B and all case bounds symbolic.
pub fn switch_rand() {
    let ctx = Context::default();
    let n = param(0) as usize;
    let limit = param(1) as i32;
    let small = || {
        let v = any_u8() as i8 as i32;
        assume(v >= -limit && v <= limit);
        v
    };
    let (a, b) = (small(), small());
    assume(a <= b);
    let cases: Vec<(i32, i32)> = (0..n).map(|_| (small(), small())).collect();
    let shape: Vec<bool> = (0..n).map(|_| choice(2) == 1).collect();
    let has_else = param(2) != 0 && choice(2) == 1;
    let tree = crate::objtree::parse_with(
        &ctx,
        true,
        || {
            let mut s = "/proc/p()\n\tswitch(rand(1000, 1001))\n".to_owned();
            for (i, range) in shape.iter().enumerate() {
                let k = 1002 + i * 2;
                s.push_str(&if *range { format!("\t\tif({k} to {})\n", k + 1) } else { format!("\t\tif({k})\n") });
                s.push_str("\t\t\tp()\n");
            }
            if has_else {
                s.push_str("\t\telse\n\t\t\tp()\n");
            }
            s
        },
        |t| match t {
            Token::Int(1000) => Token::Int(a),
            Token::Int(1001) => Token::Int(b),
            Token::Int(k) if k >= 1002 => {
                let (c, d) = cases[(k as usize - 1002) / 2];
                Token::Int(if k % 2 == 0 { c } else { d })
            }
            t => t,
        },
    );
    dreamchecker::run(&ctx, &tree);
    let errors = ctx.errors();
    let gap = errors.iter().filter(|e| e.description().starts_with("Switch branches on rand()")).count();
    let never: Vec<u32> = errors.iter().filter(|e| e.description().contains("will never trigger")).map(|e| e.location().line).collect();
    let mut open = false;
    for v in -limit..=limit {
        let mut covered = false;
        for (i, &(c, d)) in cases.iter().enumerate() {
            covered |= if shape[i] { (c <= v) & (v <= d) } else { c == v };
        }
        open |= (a <= v) & (v <= b) & !covered;
    }
    check("gap_reported", (gap == 1) | has_else | !open);
    check("gap_real", (gap == 0) | ((gap == 1) & open & !has_else));
    for (i, &(c, d)) in cases.iter().enumerate() {
        let d = if shape[i] { d } else { c };
        let outside = (c > b) | (d < a);
        let said = never.contains(&(4 + 2 * i as u32));
        check("never_triggers", (said == outside) | (c > d));
    }
    check("nothing_else", errors.len() == gap + never.len());
    if gap == 1 {
        reach("gap");
    } else {
        reach("covered");
    }
    if !never.is_empty() {
        reach("never");
    }
}
