//! C29: code the checker calls unreachable never runs.
use crate::lint::*;
use crate::rules2::Cases;
use crate::symx::*;
use dm::Context;

type Block = Vec<S>;
/// A statement and the line it starts on.
struct S(K, u32);
enum K {
    Mark,
    Ret(&'static str),
    Brk,
    Cont,
    Goto,
    Label,
    If(&'static str, Block, Vec<(&'static str, u32, Block)>, Option<Block>),
    /// header, trailer
    Loop(&'static str, Block),
    Switch(Block, Option<Block>),
    Wrap(&'static str, Block),
    Inline(&'static str, Block),
    Try(Block, Block),
}
use K::*;

fn s(k: K) -> S {
    S(k, 0)
}

struct Text {
    out: String,
    line: u32,
}
impl Text {
    fn line(&mut self, depth: usize, t: &str) -> u32 {
        for _ in 0..depth {
            self.out.push('\t');
        }
        self.out.push_str(t);
        self.out.push('\n');
        self.line += 1;
        self.line
    }
    fn block(&mut self, depth: usize, b: &mut Block) {
        if b.is_empty() {
            self.out.insert_str(self.out.len() - 1, " {}");
        }
        for st in b {
            self.stmt(depth, st);
        }
    }
    fn stmt(&mut self, d: usize, st: &mut S) {
        let at = self.line + 1;
        st.1 = at;
        match &mut st.0 {
            Mark => {
                self.line(d, "mark()");
            }
            Ret(how) => {
                self.line(d, how);
            }
            Brk => {
                self.line(d, "break");
            }
            Cont => {
                self.line(d, "continue");
            }
            Goto => {
                self.line(d, "goto z");
            }
            Label => {
                self.line(d, "z:");
            }
            If(c, t, elifs, e) => {
                self.line(d, &format!("if({c})"));
                self.block(d + 1, t);
                for (c, at, b) in elifs {
                    *at = self.line(d, &format!("else if({c})"));
                    self.block(d + 1, b);
                }
                if let Some(e) = e {
                    self.line(d, "else");
                    self.block(d + 1, e);
                }
            }
            Loop(head, b) => {
                self.line(d, head);
                self.block(d + 1, b);
                if *head == "do" {
                    self.line(d, "while(x)");
                }
            }
            Switch(t, e) => {
                self.line(d, "switch(x)");
                self.line(d + 1, "if(1)");
                self.block(d + 2, t);
                if let Some(e) = e {
                    self.line(d + 1, "else");
                    self.block(d + 2, e);
                }
            }
            Wrap(head, b) | Inline(head, b) => {
                self.line(d, head);
                self.block(d + 1, b);
            }
            Try(t, c) => {
                self.line(d, "try");
                self.block(d + 1, t);
                self.line(d, "catch(var/e)");
                self.block(d + 1, c);
            }
        }
    }
}

/// How a block can be left.
#[derive(Clone, Copy, Default, PartialEq)]
struct Exits {
    next: bool,
    brk: bool,
    cont: bool,
    goto: bool,
}
impl Exits {
    fn or(self, o: Exits) -> Exits {
        Exits { next: self.next || o.next, brk: self.brk || o.brk, cont: self.cont || o.cont, goto: self.goto || o.goto }
    }
}
const NEXT: Exits = Exits { next: true, brk: false, cont: false, goto: false };
const NEVER: Exits = Exits { next: false, brk: false, cont: false, goto: false };

#[derive(Default)]
struct Run {
    reached: Vec<u32>,
    label: bool,
    short_do: Vec<u32>,
    no_range: Vec<u32>,
}
impl Run {
    fn block(&mut self, b: &Block, mut live: bool) -> Exits {
        let mut out = NEVER;
        for st in b {
            if let Label = st.0 {
                live = live || self.label;
            }
            let e = self.stmt(st, live);
            live = e.next;
            out = out.or(Exits { next: false, ..e });
        }
        Exits { next: live, ..out }
    }
    fn stmt(&mut self, st: &S, live: bool) -> Exits {
        if live {
            self.reached.push(st.1);
        }
        let on = |e: Exits| if live { e } else { NEVER };
        let truth = |c: &str| match c {
            "1" => (true, false),
            "0" => (false, true),
            _ => (true, true),
        };
        match &st.0 {
            Mark | Label => on(NEXT),
            Ret(_) => NEVER,
            Brk => on(Exits { brk: true, ..NEVER }),
            Cont => on(Exits { cont: true, ..NEVER }),
            Goto => on(Exits { goto: true, ..NEVER }),
            If(c, t, elifs, e) => {
                let (mut yes, mut no) = truth(c);
                let mut out = self.block(t, live && yes);
                for (c, at, b) in elifs {
                    let go = no;
                    if live && go {
                        self.reached.push(*at);
                    }
                    (yes, no) = truth(c);
                    yes = yes && go;
                    no = no && go;
                    out = out.or(self.block(b, live && yes));
                }
                match e {
                    Some(e) => out.or(self.block(e, live && no)),
                    None => out.or(Exits { next: live && no, ..NEVER }),
                }
            }
            Loop(head, b) => {
                let never = matches!(*head, "for(var/i in 5 to 1)" | "for(var/i in 5 to 1 step 1)" | "for(var/i in 1 to 5 step -1)");
                let once = matches!(*head, "do" | "for(var/i in 1 to 5)" | "for(var/i in 1 to 5 step 2)" | "for(var/i in 5 to 1 step -1)" | "for()");
                let e = self.block(b, live && !never);
                if *head == "do" {
                    let (reached, short) = (self.reached.len(), self.short_do.len());
                    let e = self.block(b, true);
                    self.reached.truncate(reached);
                    self.short_do.truncate(short);
                    if !e.next && !e.cont {
                        self.short_do.push(st.1);
                    }
                }
                if never {
                    self.no_range.push(st.1);
                }
                let again = e.next || e.cont;
                let next = match *head {
                    "for()" => e.brk,
                    _ if once => again || e.brk,
                    _ => true,
                };
                on(Exits { next, goto: e.goto, ..NEVER })
            }
            Switch(t, e) => {
                let a = self.block(t, live);
                match e {
                    Some(e) => a.or(self.block(e, live)),
                    None => a.or(on(NEXT)),
                }
            }
            // what a spawned block does has no bearing on the code after it
            Wrap(_, b) => {
                let e = self.block(b, live);
                on(Exits { next: true, goto: e.goto, ..NEVER })
            }
            Inline(_, b) => self.block(b, live),
            Try(t, c) => {
                let e = self.block(t, live);
                e.or(self.block(c, live))
            }
        }
    }
}

fn jump(c: &mut Cases, n: usize) -> S {
    s(match c.pick(n) {
        0 => Mark,
        1 => Ret("return"),
        2 => Brk,
        3 => Cont,
        _ => Goto,
    })
}
/// As a block, which may also be empty.
fn arm(c: &mut Cases, n: usize) -> Block {
    match c.pick(n + 1) {
        0 => vec![],
        1 => vec![s(Mark)],
        2 => vec![s(Ret("return"))],
        3 => vec![s(Brk)],
        4 => vec![s(Cont)],
        _ => vec![s(Goto)],
    }
}

const LOOPS: [&str; 11] = [
    "while(x)", "do", "for(var/i in 1 to 5)", "for(var/i in x)", "for()", "for(var/i in 5 to 1)", "for(var/i = 1, i < x, i++)",
    "for(var/i in 5 to 1 step -1)", "for(var/i in 5 to 1 step 1)", "for(var/i in 1 to 5 step -1)", "for(var/i in 1 to 5 step 2)",
];

/// A statement that may leave its block in several ways; `n` jumps are at hand.
fn branch(c: &mut Cases, n: usize, level: u64) -> S {
    s(match c.pick(if level > 0 { 13 } else { 8 }) {
        0 => return jump(c, n),
        1 => If("x", arm(c, n), vec![], None),
        2 => If("x", arm(c, n), vec![], Some(arm(c, n))),
        3 => If(["1", "0"][c.pick(2)], arm(c, n), vec![], Some(arm(c, n))),
        4 => Loop(LOOPS[c.pick(LOOPS.len())], vec![jump(c, 4)]),
        5 => Switch(arm(c, n), Some(arm(c, n))),
        6 => If("x", arm(c, n), vec![(["x", "1", "0"][c.pick(3)], 0, arm(c, n))], Some(arm(c, n))),
        7 => Loop(LOOPS[c.pick(LOOPS.len())], vec![s(If("x", arm(c, 4), vec![], Some(arm(c, 4))))]),
        8 => Try(arm(c, n), arm(c, n)),
        9 => Inline("w:", vec![jump(c, n)]),
        10 => Wrap("spawn(1)", arm(c, 2)),
        11 => If(["1", "0"][c.pick(2)], arm(c, n), vec![("x", 0, arm(c, n))], None),
        _ => Switch(arm(c, n), None),
    })
}

pub fn unreachable() {
    let ctx = Context::default();
    let level = param(0);
    let mut bodies: Vec<Block> = Vec::new();
    lint(&ctx, || {
        let mut t = Text { out: "/proc/mark()\n".to_owned(), line: 1 };
        let mut c = Cases::new(param(1));
        loop {
            let mut body: Block = Vec::new();
            let (looped, jumps) = match c.pick(1 + LOOPS.len()) {
                0 => (None, 2),
                n => (Some(LOOPS[n - 1]), if level >= 2 { 5 } else { 4 }),
            };
            let mut inner = vec![branch(&mut c, jumps, level)];
            if level >= 3 {
                inner.push(branch(&mut c, jumps, 0));
            } else {
                inner.push(jump(&mut c, jumps));
            }
            inner.push(s(Mark));
            match looped {
                Some(head) => body.push(s(Loop(head, inner))),
                None => body.append(&mut inner),
            }
            body.push(s(Mark));
            if level >= 2 {
                body.push(s(Ret(["return", "CRASH(1)", "return x"][bodies.len() % 3])));
                body.push(s(Label));
            } else {
                body.push(s(Ret("return")));
            }
            body.push(s(Mark));
            t.line(0, &format!("/proc/p{}(x)", bodies.len()));
            t.block(1, &mut body);
            bodies.push(body);
            if !c.next() {
                break;
            }
        }
        t.out
    });
    let mut flagged: Vec<u32> = of_type(&ctx, "unreachable_code").iter().map(|e| e.location().line).collect();
    flagged.sort();
    let lines = |what: &dyn Fn(&str) -> bool| {
        let mut v: Vec<u32> = ctx.errors().iter().filter(|e| what(e.description())).map(|e| e.location().line).collect();
        v.sort();
        v
    };
    let mut ends = lines(&|d| d.starts_with("do while terminates"));
    let mut ranges = lines(&|d| d.contains("body is never reached"));
    if !flagged.is_empty() {
        reach("flagged");
    }
    if !ends.is_empty() {
        reach("do");
    }
    if !ranges.is_empty() {
        reach("range");
    }
    check("nothing_else_wrong", of_type(&ctx, "proc_has_no_parent").is_empty());
    for body in &bodies {
        let mut run = Run::default();
        let e = run.block(body, true);
        if e.goto {
            run = Run { label: true, ..Run::default() };
            run.block(body, true);
        }
        for at in run.reached {
            if flagged.binary_search(&at).is_ok() {
                note(format!("line {at} runs").as_bytes());
            }
            check("unreachable_never_runs", flagged.binary_search(&at).is_err());
        }
        ends.retain(|at| !run.short_do.contains(at));
        ranges.retain(|at| !run.no_range.contains(at));
        // what follows a return in the proc's own block is reported, unless something before it already was
        for (i, st) in body.iter().enumerate() {
            if let Ret(_) = st.0
                && i + 1 < body.len()
                && !matches!(body[i + 1].0, Label)
                && !body[..i].iter().any(|b| matches!(b.0, Brk | Cont | Goto))
            {
                let next = body[i + 1].1;
                let start = body[0].1;
                check("after_return_reported", flagged.iter().any(|&f| start <= f && f <= next));
                reach("after_return");
            }
        }
    }
    check("do_ends_early", ends.is_empty());
    check("range_is_empty", ranges.is_empty());
}
