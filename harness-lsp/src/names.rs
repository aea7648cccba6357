//! Where a name leads, and where it is used.
use super::symx::*;
use super::world::World;
use super::*;
use dm::objtree::{ObjectTree, SymbolId};

/// The types: 0 is the global scope, /aaa/bbb is below /aaa.
const TYPES: [&str; 4] = ["", "/aaa", "/aaa/bbb", "/ccc"];
/// The types a name is looked up on, the global scope last.
fn chain(t: usize) -> &'static [usize] {
    [&[0][..], &[1, 0], &[2, 1, 0], &[3, 0]][t]
}
fn own(t: usize) -> &'static [usize] {
    let c = chain(t);
    &c[..c.len() - 1]
}

struct Source(Vec<String>);
impl Source {
    fn add(&mut self, s: String) -> u32 {
        self.0.push(s);
        self.0.len() as u32 - 1
    }
}

/// Which types declare the name, and which set it again.
const LAYOUTS: [(&[usize], &[usize]); 6] = [(&[1], &[]), (&[1], &[2]), (&[2], &[]), (&[0], &[]), (&[0, 1], &[]), (&[0, 1], &[2])];

struct Program {
    src: Source,
    /// The line defining the name on each type.
    defs: [Option<u32>; 4],
    declares: [bool; 4],
    type_lines: [u32; 4],
}

fn program(proc: bool, layout: usize, nested: bool) -> Program {
    let mut p = Program { src: Source(Vec::new()), defs: [None; 4], declares: [false; 4], type_lines: [0; 4] };
    let (decl, over) = LAYOUTS[layout];
    for t in 0..4 {
        if t > 0 {
            p.type_lines[t] = p.src.add(TYPES[t].to_owned());
        }
        for (set, declared) in [(decl, true), (over, false)] {
            if !set.contains(&t) {
                continue;
            }
            let head = match (proc, declared) {
                (true, true) => "proc/fff()",
                (true, false) => "fff()",
                (false, true) => "var/xxx = 1",
                (false, false) => "xxx = 2",
            };
            let l = if nested && t > 0 { p.src.add(format!("\t{head}")) } else { p.src.add(format!("{}/{head}", TYPES[t])) };
            if proc {
                p.src.add(format!("{}return", if nested && t > 0 { "\t\t" } else { "\t" }));
            }
            p.defs[t] = Some(l);
            p.declares[t] |= declared;
        }
    }
    p
}

fn declaration(tree: &ObjectTree, proc: bool, t: usize) -> Option<SymbolId> {
    let ty = if t == 0 { tree.root() } else { tree.find(TYPES[t]).unwrap() };
    if proc {
        ty.procs.get("fff").and_then(|p| p.declaration.as_ref()).map(|d| d.id)
    } else {
        ty.vars.get("xxx").and_then(|v| v.declaration.as_ref()).map(|d| d.id)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum To {
    Nothing,
    Type(usize),
    Line(u32),
}

/// Params: 0 a variable, 1 a proc; receivers.
pub fn resolve() {
    let proc = param(0) == 1;
    let mut to = To::Nothing;
    let mut defs = [None; 4];
    let mut declares = [false; 4];
    let mut type_def = None;
    let mut w = World::new(|| {
        let layout = choice(6);
        let mut p = program(proc, layout, choice(2) == 1);
        defs = p.defs;
        declares = p.declares;
        let at = choice(4);
        let name = if proc { "fff" } else { "xxx" };
        let call = if proc { "()" } else { "" };
        let on = |types: &[usize]| types.iter().find(|&&t| defs[t].is_some()).map_or(To::Nothing, |&t| To::Type(t));
        let form = choice(5);
        // declarations of the same name nearer by
        let shadow = if proc || form != 0 { 0 } else { choice(10) };
        let user = |params: &str| format!("{}/proc/usr1({params})", TYPES[at]);
        match form {
            0 => {
                to = on(chain(at));
                let head = p.src.add(user(if shadow == 2 { "nnn, xxx" } else { "nnn" }));
                match shadow {
                    1 => to = To::Line(p.src.add("\tvar/xxx = 3".into())),
                    2 => to = To::Line(head),
                    3 => {
                        p.src.add("\tif(nnn)".into());
                        p.src.add("\t\tvar/xxx = 4".into());
                        p.src.add("\t\tnnn = xxx".replace("xxx", "nnn"));
                    }
                    _ => {}
                }
                let mut tabs = "\t";
                match shadow {
                    4 | 5 => {
                        // one in the block around, one in the block
                        let outer = p.src.add("\tvar/xxx = 5".into());
                        p.src.add("\tif(nnn)".into());
                        to = To::Line(p.src.add("\t\tvar/xxx = 6".into()));
                        if shadow == 4 {
                            tabs = "\t\t";
                        } else {
                            to = To::Line(outer);
                        }
                    }
                    6 => {
                        to = To::Line(p.src.add("\tfor(var/xxx in nnn)".into()));
                        tabs = "\t\t";
                    }
                    7 => {
                        p.src.add("\tfor(var/xxx = 1 to 3)".into());
                        p.src.add("\t\tnnn = 2".into());
                    }
                    8 => {
                        to = To::Line(p.src.add("\tfor(var/kkk, xxx in nnn)".into()));
                        tabs = "\t\t";
                    }
                    9 => {
                        p.src.add("\ttry".into());
                        p.src.add("\t\tnnn = 2".into());
                        to = To::Line(p.src.add("\tcatch(var/xxx)".into()));
                        tabs = "\t\t";
                    }
                    _ => {}
                }
                p.src.add(format!("{tabs}{name}{call}; nnn = 1"));
            }
            1 => {
                assume(at != 0);
                to = on(own(at));
                p.src.add(user(""));
                p.src.add(format!("\tsrc.{name}{call}"));
            }
            2 => {
                to = on(&[0]);
                p.src.add(user(""));
                p.src.add(format!("\tglobal.{name}{call}"));
            }
            _ => {
                // through a variable with a type
                let r = choice(4);
                let ty = if r == 0 { String::new() } else { format!("{}/", &TYPES[r][1..]) };
                let how = choice(if form == 3 { 4 } else { 2 });
                if r > 0 {
                    to = on(own(r));
                    type_def = Some(p.type_lines[r]);
                }
                let mut before = "";
                if form == 3 {
                    match how {
                        0 => {
                            p.src.add(user(&format!("{ty}vvv, nnn")));
                        }
                        1 => {
                            p.src.add(user(""));
                            p.src.add(format!("\tvar/{ty}vvv = null"));
                        }
                        2 => {
                            p.src.add(format!("/var/{ty}vvv"));
                            p.src.add(user(""));
                        }
                        _ => {
                            // another of that name, further away
                            p.src.add("/var/ccc/vvv".into());
                            p.src.add(user(&format!("{ty}vvv")));
                        }
                    }
                } else {
                    assume(at != 0);
                    p.src.add(format!("{}/var/{ty}vvv", TYPES[own(at)[own(at).len() - 1]]));
                    p.src.add(user(""));
                    before = ["", "src."][how];
                }
                p.src.add(format!("\t{before}vvv.{name}{call}"));
            }
        }
        p.src.0.join("\n") + "\n"
    });
    check("the program is sound", w.errors == 0);
    let name = if proc { "fff" } else { "xxx" };
    let uses = w.text.matches(name).count();
    let (line, first) = w.find(name, uses - 1);
    // anywhere in the name
    let col = first - 1 + below(3) as u32;
    let got = w.definition(line, col);
    let want = match to {
        To::Nothing => None,
        To::Type(t) => defs[t],
        To::Line(l) => Some(l),
    };
    check("a name leads to its nearest definition", got.iter().copied().eq(want));
    reach(match to {
        To::Nothing => "nothing",
        To::Type(_) => "member",
        To::Line(_) => "local",
    });
    // the symbol is that of the declaration
    let decl = match to {
        To::Type(t) => chain(t).iter().find(|&&u| declares[u]).and_then(|&u| declaration(&w.e.objtree, proc, u)),
        _ => None,
    };
    check("a name stands for its declaration", w.symbol(line, col) == decl);
    let table = find_references::ReferencesTable::new(&w.e.objtree);
    for t in 0..4 {
        if !declares[t] {
            continue;
        }
        let id = declaration(&w.e.objtree, proc, t).unwrap();
        let lines = |l: &[dm::Location]| l.iter().map(|l| l.line - 1).collect::<Vec<_>>();
        let used = lines(table.find_references(id, false));
        check("the uses of a declaration are those that mean it", if decl == Some(id) { used == [line] } else { used.is_empty() });
        let mut want: Vec<u32> = (0..4).filter(|&u| defs[u].is_some() && chain(u).iter().find(|&&x| declares[x]) == Some(&t)).map(|u| defs[u].unwrap()).collect();
        want.sort();
        let mut got = lines(table.find_implementations(id));
        got.sort();
        check("the implementations of a declaration are the lines defining it", got == want);
    }
    if let Some(want) = type_def {
        let n = w.text.matches("vvv").count();
        let (line, col) = w.find("vvv", n - 1);
        let params = GotoDefinitionParams {
            text_document_position_params: w.at(line, col),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        };
        let got = w.e.GotoTypeDefinition(params);
        check("a variable's type is found", match got {
            Ok(Some(GotoDefinitionResponse::Scalar(l))) => l.range.start.line == want,
            _ => false,
        });
        reach("typed");
    }
}
