//! Colours found in the text, and rewritten.
use super::docs::url;
use super::symx::*;
use super::*;

pub fn engine(text: String) -> (Engine, TextDocumentIdentifier) {
    let mut e = Engine::new();
    let u = url("untitled:a");
    let item = TextDocumentItem { uri: u.clone(), language_id: String::new(), version: 0, text };
    check("a document opens", e.docs.open(item).is_ok());
    (e, TextDocumentIdentifier { uri: u })
}

fn hex(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}

/// A colour literal at the start of the text: its length, and its value if it has one.
fn literal(t: &[u8]) -> Option<(usize, Option<[u8; 4]>)> {
    let q = *t.first()?;
    if q == b'"' || q == b'\'' {
        if t.get(1) != Some(&b'#') {
            return None;
        }
        let mut d = [0u8; 8];
        let mut n = 0;
        loop {
            let c = *t.get(2 + n)?;
            if c == q {
                break;
            }
            let v = hex(c)?;
            if n == 8 {
                return None;
            }
            d[n] = v;
            n += 1;
        }
        let v = match n {
            3 => Some([d[0] * 17, d[1] * 17, d[2] * 17, 255]),
            4 => Some([d[0] * 17, d[1] * 17, d[2] * 17, d[3] * 17]),
            6 => Some([d[0] * 16 + d[1], d[2] * 16 + d[3], d[4] * 16 + d[5], 255]),
            8 => Some([d[0] * 16 + d[1], d[2] * 16 + d[3], d[4] * 16 + d[5], d[6] * 16 + d[7]]),
            5 | 7 => None,
            _ => return None,
        };
        return Some((n + 3, v));
    }
    if !t.starts_with(b"rgb(") {
        return None;
    }
    let mut i = 4;
    let mut v = [0u32; 4];
    let mut n = 0;
    loop {
        while matches!(t.get(i), Some(b' ')) {
            i += 1;
        }
        let start = i;
        while matches!(t.get(i), Some(b'0'..=b'9')) {
            v[n] = v[n] * 10 + (t[i] - b'0') as u32;
            i += 1;
        }
        if i == start || i > start + 3 {
            return None;
        }
        n += 1;
        // no blanks are looked for before a comma
        match t.get(i) {
            Some(b',') if n < 4 => i += 1,
            _ => break,
        }
    }
    while matches!(t.get(i), Some(b' ')) {
        i += 1;
    }
    if t.get(i) != Some(&b')') || n < 3 {
        return None;
    }
    let a = if n == 4 { v[3] } else { 255 };
    assume(a <= 255);
    let ok = v[0] <= 255 && v[1] <= 255 && v[2] <= 255;
    Some((i + 1, ok.then(|| [v[0] as u8, v[1] as u8, v[2] as u8, a as u8])))
}

fn expected(t: &[u8]) -> Vec<(usize, usize, [u8; 4])> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < t.len() {
        match literal(&t[i..]) {
            Some((n, v)) => {
                if let Some(v) = v {
                    out.push((i, i + n, v));
                }
                i += n;
            }
            None => i += 1,
        }
    }
    out
}

fn byte(c: f32) -> u8 {
    (c * 255.0).round() as u8
}

/// Finds the colours as the editor asks for them and compares.
fn compare(before: &str, t: &[u8]) {
    let text = format!("{before}{}", std::str::from_utf8(t).unwrap());
    let want = expected(t);
    let got: Vec<_> = color::extract_colors(&text).collect();
    check("every colour literal is found, and nothing else", got.len() == want.len());
    for (g, (s, n, v)) in got.iter().zip(&want) {
        check("a colour's literal is the one found", g.0 == before.len() + s && g.1 == before.len() + n);
        check("a colour is the one written", g.2 == *v);
    }
    let (mut e, id) = engine(text);
    let got = e.DocumentColor(DocumentColorParams {
        text_document: id,
        work_done_progress_params: Default::default(),
        partial_result_params: Default::default(),
    });
    check("colours are found", got.is_ok());
    let got = got.unwrap();
    check("every colour found is reported to the editor", got.len() == want.len());
    let line = before.matches('\n').count() as u32;
    let col = before[before.rfind('\n').map_or(0, |i| i + 1)..].encode_utf16().count() as u32;
    for (g, (s, n, _)) in got.iter().zip(&want) {
        let at = Range::new(Position::new(line, col + *s as u32), Position::new(line, col + *n as u32));
        check("a colour is where it is written", g.range == at);
        reach("colour");
    }
    if want.is_empty() {
        reach("none");
    }
}

fn before() -> &'static str {
    pick(&["", "é\n𝒳 "])
}

/// Params: symbolic characters.
pub fn find_hex() {
    let _ = color::extract_colors("").next();
    let b = before();
    let q = pick(&["\"", "'"]);
    let mut t = q.as_bytes().to_vec();
    t.push(b'#');
    t.extend_from_slice(&b"5a5aB"[..choice(6)]);
    t.extend(text(param(0) as usize, b"09afAFg#\"'"));
    t.extend_from_slice(q.as_bytes());
    if choice(2) == 0 {
        t.extend_from_slice(b" \"#0f0\"");
    }
    note(&t);
    compare(b, &t);
}

/// Params: symbolic characters.
pub fn find_rgb() {
    let _ = color::extract_colors("").next();
    let mut t = b"rgb(".to_vec();
    t.extend_from_slice(pick(&["", "0, 255, ", "12,3,"]).as_bytes());
    t.extend(text(param(0) as usize, b"0259, )"));
    t.extend_from_slice(pick(&[")", ",7)", ")\"#12345678\""]).as_bytes());
    note(&t);
    compare("", &t);
}

const FORMS: [&str; 9] = ["\"#123\"", "'#123'", "\"#1234\"", "\"#123456\"", "'#12345678'", "'#1234567'", "rgb(1,2,3)", "rgb( 1, 2, 3, 4 )", "what"];

fn rewritten(l: &str, old: &str, v: [u8; 4]) {
    note(l.as_bytes());
    let mut found = color::extract_colors(l);
    let one = found.next();
    check("the rewritten colour is one literal", matches!(one, Some((s, e, _)) if s == 0 && e == l.len()) && found.next().is_none());
    check("the rewritten colour is the one chosen", one.unwrap().2 == v);
    if old != "what" {
        check("a colour keeps its form", l.as_bytes()[0] == old.as_bytes()[0]);
    }
}

/// Writing any colour in the form of a literal, and reading it back.
/// Params: 1 for every number in rgb(), channels out of the four that take every value.
pub fn format() {
    let _ = color::extract_colors("").next();
    let old = pick(&FORMS);
    let few = old.starts_with("rgb") && param(0) == 0;
    let v: [u8; 4] = if few {
        [0; 4].map(|_| [0, 9, 17, 255][choice(4)])
    } else {
        let mut v = any();
        let rest = [0, 0xa9, 255][choice(3)];
        let (from, n) = (choice(4), param(1) as usize);
        (n..4).for_each(|i| v[(from + i) % 4] = rest);
        v
    };
    rewritten(&color::ColorFormat::parse(old).unwrap_or_default().format(v), old, v);
    reach("rewritten");
}

/// A colour found is offered back as itself, and any other one can be chosen in its place.
pub fn present() {
    let _ = color::extract_colors("").next();
    let old = pick(&FORMS);
    let mut v = [[0, 255][choice(2)]; 4];
    v[choice(4)] = concrete(any_u8() as u64) as u8;
    let before = before();
    let (mut e, id) = engine(format!("{before}{old} y"));
    let (line, col) = if before.is_empty() { (0, 0) } else { (1, 3) };
    let f = |c: u8| c as f32 / 255.0;
    let range = Range::new(Position::new(line, col), Position::new(line, col + old.len() as u32));
    let got = e.ColorPresentationRequest(ColorPresentationParams {
        text_document: id,
        color: Color { red: f(v[0]), green: f(v[1]), blue: f(v[2]), alpha: f(v[3]) },
        range,
        work_done_progress_params: Default::default(),
        partial_result_params: Default::default(),
    });
    check("a colour can be rewritten", got.is_ok());
    let got = got.unwrap();
    check("there is a presentation", !got.is_empty());
    for p in got {
        rewritten(&p.label, old, v);
        let (mut e, id) = engine(format!("{before}{} y", p.label));
        let got = e.DocumentColor(DocumentColorParams {
            text_document: id,
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        });
        let c = &got.unwrap()[0].color;
        check("the editor is shown the colour", [byte(c.red), byte(c.green), byte(c.blue), byte(c.alpha)] == v);
    }
    reach("presented");
}
