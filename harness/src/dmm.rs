//! C01, C02: map files.
use crate::symx::*;
use dm::constants::{Constant, Pop};
use dmm_tools::dmm::{Coord3, Key, Map, Prefab};

fn any_letter() -> u8 {
    let x = any_u8();
    assume(((x >= b'a') & (x <= b'z')) | ((x >= b'A') & (x <= b'Z')));
    x
}

fn load(text: &[u8]) -> Option<Map> {
    note(text);
    Map::from_file(&file(text)).ok()
}

/// C02: the grid of a well-formed map: every cell gets the key written at its place, in either layout.
pub fn grid() {
    let dims = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1), (1, 1, 2), (2, 1, 2), (1, 2, 2), (3, 1, 1), (1, 3, 1), (2, 3, 1), (3, 2, 1)];
    // param 0: 0 any keys on small maps, 1 some keys on all the maps
    let klen = 1 + choice(3);
    let mut k = [[b'a'; 3]; 2];
    let (nx, ny, nz);
    if param(0) == 0 {
        (nx, ny, nz) = dims[choice(2)];
        let (i, j) = (choice(klen as u8), choice(klen as u8));
        k[0][i] = any_letter();
        k[1][j] = any_letter();
        if klen == 3 {
            assume((k[0][0] <= b'x') & (k[0][0] >= b'a') & (k[1][0] <= b'x') & (k[1][0] >= b'a'));
        }
        assume((k[0][0] != k[1][0]) | (k[0][1] != k[1][1]) | (k[0][2] != k[1][2]));
    } else {
        (nx, ny, nz) = dims[choice(dims.len() as u8)];
        k = [[*b"abc", *b"abd"], [*b"aaZ", *b"azz"], [*b"bAa", *b"aab"]][choice(3)];
        assume(klen != 1 || k[0][0] != k[1][0]);
        assume(klen != 2 || k[0][..2] != k[1][..2]);
    }
    let tgm = choice(2) == 1;
    let nl: &[u8] = if choice(2) == 1 { b"\r\n" } else { b"\n" };
    let last_newline = choice(2) == 0;
    let mut t = Vec::new();
    if tgm {
        t.extend(b"//MAP CONVERTED BY dmm2tgm.py THIS HEADER COMMENT PREVENTS RECONVERSION, DO NOT REMOVE");
        t.extend(nl);
    }
    for i in 0..2 {
        t.push(b'"');
        t.extend(&k[i][..klen]);
        t.extend(if tgm { b"\" = (" as &[u8] } else { b"\" = (" });
        if tgm {
            t.extend(nl);
        }
        t.extend(b"/turf/");
        t.push(b'a' + i as u8);
        t.push(b',');
        if tgm {
            t.extend(nl);
        }
        t.extend(b"/area)");
        t.extend(nl);
    }
    let mut cells = Vec::new();
    for _ in 0..nx * ny * nz {
        cells.push(any_bool());
    }
    let at = |x: usize, row: usize, z: usize| cells[(z * ny + row) * nx + x];
    let cell = |t: &mut Vec<u8>, b: bool| {
        for j in 0..klen {
            t.push(if b { k[1][j] } else { k[0][j] });
        }
    };
    t.extend(nl);
    for z in 0..nz {
        if tgm {
            for x in 0..nx {
                t.extend(format!("({},1,{}) = {{\"", x + 1, z + 1).bytes());
                for row in 0..ny {
                    t.extend(nl);
                    cell(&mut t, at(x, row, z));
                }
                if last_newline {
                    t.extend(nl);
                }
                t.extend(b"\"}");
                t.extend(nl);
            }
        } else {
            t.extend(format!("(1,1,{}) = {{\"", z + 1).bytes());
            for row in 0..ny {
                t.extend(nl);
                for x in 0..nx {
                    cell(&mut t, at(x, row, z));
                }
            }
            if last_newline {
                t.extend(nl);
            }
            t.extend(b"\"}");
            t.extend(nl);
        }
    }
    let m = match load(&t) {
        None => {
            check("accepts", false);
            return;
        }
        Some(m) => m,
    };
    check("dims", m.dim_xyz() == (nx, ny, nz));
    check("key_length", m.key_length() as usize == klen);
    check("dictionary", m.dictionary.len() == 2);
    for z in 0..nz {
        for row in 0..ny {
            for x in 0..nx {
                let key = m[Coord3::new(x as i32 + 1, (ny - row) as i32, z as i32 + 1)];
                let path = match m.dictionary.get(&key) {
                    None => {
                        check("cell_in_dictionary", false);
                        return;
                    }
                    Some(p) => p[0].path.as_bytes()[6],
                };
                check("cell", path == b'a' + at(x, row, z) as u8);
            }
        }
    }
    reach(if tgm { "tgm" } else { "dmm" });
}

/// Text which may stand between plain double quotes: every quote and bracket is escaped.
fn literal_text(n: usize, alphabet: &[u8]) -> Vec<u8> {
    let v = text(n, alphabet);
    let mut esc = false;
    for &c in &v {
        assume(esc | ((c != b'"') & (c != b'[')));
        esc = (c == b'\\') & !esc;
    }
    assume(!esc);
    v
}

fn is_string(c: &Constant, want: &[u8]) -> bool {
    match c {
        Constant::String(s) => s.as_bytes() == want,
        _ => false,
    }
}

/// C02: the dictionary of a well-formed map: prefabs, variables and values as written, and the
/// reader stays in step afterwards.
pub fn dict() {
    let n = param(0) as usize;
    let name = any_letter();
    // `in` is two letters, so no one-letter name is a keyword
    let (mut want_str, mut want_f, mut want_path) = (None, None, false);
    let mut value = Vec::new();
    match choice(7) {
        0 => {
            let s = literal_text(n, b"a\\\"};,)(/{='\t [");
            value.push(b'"');
            value.extend(&s);
            value.push(b'"');
            want_str = Some(s);
        }
        1 => {
            let d = choice(10) as u8;
            value.push(b'0' + d);
            want_f = Some(d as f32);
        }
        2 => {
            let d = choice(10) as u8;
            value.extend(b"-1.");
            value.push(b'0' + d);
            want_f = Some(f32::NAN);
        }
        3 => value.extend(b"null"),
        4 => {
            value.extend(b"/obj/x");
            want_path = true;
        }
        5 => {
            // a block string
            let s = literal_text(n, b"a\\};\n\t,)/");
            value.extend(b"{\"");
            value.extend(&s);
            value.extend(b"\"}");
            // a backslash before a newline joins the lines
            for i in 1..s.len() {
                assume(!((s[i] == b'\n') & (s[i - 1] == b'\\')));
            }
            want_str = Some(s);
        }
        _ => value.extend(b"list(\"a;b\" = 1,\"}\")"),
    }
    let tgm = choice(2) == 1;
    let more = choice(3);
    let mut t = Vec::new();
    t.extend(b"\"a\" = (");
    t.extend(if tgm { b"\n/obj{\n\t" as &[u8] } else { b"/obj{" });
    t.push(name);
    t.extend([b" = " as &[u8], b"= ", b"=", b"   = ", b" \t= "][choice(5)]);
    t.extend(&value);
    match more {
        0 => {}
        1 => t.extend(if tgm { b";\n\tzz = \"q\"" as &[u8] } else { b"; zz = \"q\"" }),
        _ => t.extend(b";"),
    }
    t.extend(if tgm { b"\n\t},\n" as &[u8] } else { b"}," });
    t.extend(b"/turf/t,");
    t.extend(if tgm { b"\n/area/r)\n" as &[u8] } else { b"/area/r)\n" });
    t.extend(b"\"b\" = (/area)\n\n(1,1,1) = {\"\nab\n\"}\n");
    let m = match load(&t) {
        None => {
            check("accepts", false);
            return;
        }
        Some(m) => m,
    };
    check("dims", m.dim_xyz() == (2, 1, 1));
    check("dictionary", m.dictionary.len() == 2);
    let fabs: Vec<&Vec<Prefab>> = m.dictionary.values().collect();
    check("prefabs", fabs[0].len() == 3 && fabs[1].len() == 1);
    check("paths", fabs[0][0].path == "/obj" && fabs[0][1].path == "/turf/t" && fabs[0][2].path == "/area/r" && fabs[1][0].path == "/area");
    check("no_vars", fabs[0][1].vars.is_empty() && fabs[0][2].vars.is_empty() && fabs[1][0].vars.is_empty());
    let vars = &fabs[0][0].vars;
    check("vars", vars.len() == 1 + (more == 1) as usize);
    let (k, v) = vars.get_index(0).unwrap();
    check("var_name", k.len() == 1 && k.as_bytes()[0] == name);
    if let Some(s) = want_str {
        check("string", is_string(v, &s));
        reach("string");
    } else if let Some(f) = want_f {
        match v {
            Constant::Float(g) if f.is_nan() => check("float", (*g <= -1.) & (*g > -2.)),
            Constant::Float(g) => check("float", *g == f),
            _ => check("float", false),
        }
    } else if want_path {
        match v {
            Constant::Prefab(p) => check("path", p.path.len() == 2 && p.vars.is_empty() && p.path[0] == "obj" && p.path[1] == "x"),
            _ => check("path", false),
        }
    } else {
        match v {
            Constant::Null(_) => {}
            Constant::List(l) => check("list", l.len() == 2 && is_string(&l[0].0, b"a;b") && l[0].1 == Some(Constant::Float(1.)) && is_string(&l[1].0, b"}")),
            _ => check("value", false),
        }
    }
    if more == 1 {
        let (k, v) = vars.get_index(1).unwrap();
        check("second_var", k == "zz" && is_string(v, b"q"));
        reach("second");
    }
}

/// C02: arbitrary damage to a map file: a result or an error.
pub fn total() {
    let base: &[u8] = match choice(2) {
        0 => b"\"a\" = (/t{b = \"\\\\c\"},/u)\n(1,1,1) = {\"\na\n\"}\n",
        _ => b"//x\n\"ab\" = (/t)\n(1,1,1) = {\"\nab\nab\n\"}\n(2,1,1) = {\"\nab\nab\n\"}",
    };
    let at = choice(base.len() as u8 + 1);
    let cut = choice(3).min(base.len() - at);
    let n = choice(param(0) as u8 + 1);
    let mut t = base[..at].to_vec();
    for _ in 0..n {
        t.push(any_u8());
    }
    t.extend(&base[at + cut..]);
    match load(&t) {
        Some(m) => {
            let (x, y, z) = m.dim_xyz();
            check("loaded", m.grid.len() == x * y * z);
            reach("ok")
        }
        None => reach("err"),
    }
}

/// C02: a coordinate, however large, is read or rejected.
pub fn numbers() {
    let n = param(0) as usize;
    let mut t = b"\"a\" = (/t)\n(".to_vec();
    let which = choice(3);
    for i in 0..3 {
        if i == which {
            let d = text(n, b"0129");
            t.extend(d);
        } else {
            t.push(b'1');
        }
        t.push(if i == 2 { b')' } else { b',' });
    }
    t.extend(b" = {\"\na\n\"}\n");
    match load(&t) {
        Some(m) => check("dims", m.dim_xyz() == (1, 1, 1)),
        None => reach("err"),
    }
}

fn key_of(k: u16) -> Key {
    let mut key = Key::default();
    for _ in 0..k {
        key = key.next();
    }
    key
}

fn value(n: usize, depth: u32) -> Constant {
    match choice(if depth == 0 { 8 } else { 5 }) {
        0 => Constant::Null(None),
        1 => Constant::Float([0., 1., -1., 0.5, -2.25, 65535., 0.001, 123456., 1e10][choice(9)]),
        2 => {
            let v = text(n, b"a\\\"}{;\n\t/ @");
            // a string no literal denotes: a backslash that escapes nothing, or a bare end mark
            let (mut esc, mut quote) = (false, false);
            for &c in &v {
                assume(!(esc & (c == b'\n')));
                assume(!(quote & (c == b'}')));
                quote = (c == b'"') & !esc;
                esc = (c == b'\\') & !esc;
            }
            assume(!esc);
            reach("string");
            Constant::string(unsafe { String::from_utf8_unchecked(v) })
        }
        3 => {
            let v = text(2, b"a./;},");
            Constant::Resource(unsafe { String::from_utf8_unchecked(v) }.into())
        }
        4 => Constant::Prefab(Box::new(Pop::from_path_str("/obj/item"))),
        5 => Constant::List(vec![(value(1, 1), None), (Constant::string("k"), Some(value(1, 1)))].into()),
        6 => Constant::List(vec![].into()),
        _ => Constant::New { type_: Some(Box::new(Pop::from_path_str("/datum/x"))), args: if choice(2) == 0 { None } else { Some(vec![(value(1, 1), None)].into()) } },
    }
}

/// C01: numbers keep their value, to six significant digits.
pub fn roundtrip_numbers() {
    let v = Constant::Float(crate::consts::some_number(param(0), b"0194"));
    let mut m = Map::with_empty_dictionary(1, 1, 1);
    let mut fab = Prefab::from_path("/obj/a");
    fab.vars.insert("x".to_owned(), v.clone());
    m.dictionary.insert(Key::default(), vec![fab]);
    m.adjust_key_length();
    let mut out = Vec::new();
    if m.to_writer(&mut out).is_err() {
        check("writes", false);
    }
    note(&out);
    match load(&out) {
        None => check("reloads", false),
        Some(r) => {
            check("value", r.dictionary[&Key::default()][0].vars.get_index(0).map(|x| x.1 == &v) == Some(true));
            reach("number");
        }
    }
}

/// C01: what is saved loads again as the same map.
pub fn roundtrip() {
    let n = param(0) as usize;
    let (nx, ny, nz) = [(1, 1, 1), (2, 1, 1), (1, 2, 2)][choice(3)];
    let mut m = Map::with_empty_dictionary(nx, ny, nz);
    let hi = [1u16, 52, 2704][choice(3)];
    let (k0, k1) = (Key::default(), key_of(hi));
    let mut fab = Prefab::from_path("/obj/a");
    let nv = choice(3);
    if nv > 0 {
        fab.vars.insert("name".to_owned(), value(n, 0));
    }
    if nv > 1 {
        fab.vars.insert("dir".to_owned(), Constant::Float(4.));
        reach("two vars");
    }
    let mut other = Prefab::from_path("/turf/b");
    if choice(2) == 1 {
        other.vars.insert("x".to_owned(), Constant::string("}"));
    }
    m.dictionary.insert(k0, vec![fab, Prefab::from_path("/area")]);
    m.dictionary.insert(k1, vec![other]);
    m.adjust_key_length();
    for c in m.grid.iter_mut() {
        *c = if any_bool() { k1 } else { k0 };
    }
    let mut out = Vec::new();
    if m.to_writer(&mut out).is_err() {
        check("writes", false);
    }
    let r = match load(&out) {
        None => {
            check("reloads", false);
            return;
        }
        Some(r) => r,
    };
    check("dims", r.dim_xyz() == m.dim_xyz() && r.key_length() == m.key_length());
    check("grid", r.grid == m.grid);
    check("keys", r.dictionary.len() == 2 && r.dictionary.contains_key(&k0) && r.dictionary.contains_key(&k1));
    for k in [k0, k1] {
        let (a, b) = (&m.dictionary[&k], &r.dictionary[&k]);
        check("prefabs", a.len() == b.len());
        for i in 0..a.len() {
            check("path", a[i].path == b[i].path);
            check("vars", a[i].vars.len() == b[i].vars.len());
            for j in 0..a[i].vars.len() {
                let (p, q) = (a[i].vars.get_index(j).unwrap(), b[i].vars.get_index(j).unwrap());
                check("var_name", p.0 == q.0);
                check("var_value", p.1 == q.1);
            }
            check("equal", a[i] == b[i]);
        }
    }
    reach("roundtrip");
}
