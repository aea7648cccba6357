//! What the server keeps of the documents open in the editor.
use super::symx::*;
use super::*;

pub fn url(s: &str) -> Url {
    Url::parse(s).unwrap()
}

/// A text of n pieces, and the same as UTF-16 units.
fn text(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(pick(&["a", "\n", "\r\n", "é", "𝒳"]));
    }
    s
}

/// The protocol's reading of a position: lines end with \n or \r\n, characters count UTF-16 units, and one beyond
/// the line's end means its end. None: there is no such line. Some(None): inside a character.
fn at(text: &str, line: u32, character: u32) -> Option<Option<usize>> {
    let mut start = 0;
    let mut l = 0;
    while l < line {
        start += text[start..].find('\n')? + 1;
        l += 1;
    }
    let rest = &text[start..];
    let end = rest.find('\n').map_or(rest.len(), |i| if rest[..i].ends_with('\r') { i - 1 } else { i });
    let mut units = 0;
    for (i, c) in rest[..end].char_indices() {
        if units == character {
            return Some(Some(start + i));
        }
        units += c.len_utf16() as u32;
        if units > character {
            return Some(None);
        }
    }
    Some(Some(start + end))
}

fn same(a: &str, b: &str) -> bool {
    a == b
}

/// Params: pieces in the document, edits, edits per notification.
pub fn edits() {
    let mut model = text(param(0) as usize);
    let u = url("untitled:a");
    let mut docs = document::DocumentStore::default();
    let v = choice(2) as i32;
    let item = TextDocumentItem { uri: u.clone(), language_id: String::new(), version: v, text: model.clone() };
    check("a document opens", docs.open(item).is_ok());
    let mut version = v;
    for _ in 0..param(1) {
        let mut changes = Vec::new();
        let mut next = model.clone();
        let mut bad = false;
        for _ in 0..param(2) {
            let new = pick(&["", "b", "\n", "é\n"]);
            if choice(2) == 0 {
                changes.push(TextDocumentContentChangeEvent { range: None, range_length: None, text: new.to_owned() });
                next = new.to_owned();
                reach("whole");
                continue;
            }
            let (l1, c1, l2, c2) = (any_u32(), any_u32(), any_u32(), any_u32());
            let range = Range::new(Position::new(l1, c1), Position::new(l2, c2));
            changes.push(TextDocumentContentChangeEvent { range: Some(range), range_length: None, text: new.to_owned() });
            match (at(&next, l1, c1), at(&next, l2, c2)) {
                (Some(Some(a)), Some(Some(b))) if a <= b => {
                    next.replace_range(a..b, new);
                    reach("edit");
                }
                (Some(None), _) | (_, Some(None)) => assume(false),
                _ => bad = true,
            }
        }
        let w = choice(3) as i32;
        let id = VersionedTextDocumentIdentifier { uri: u.clone(), version: w };
        let res = docs.change(id, changes);
        if w < version {
            check("an older version is refused", res.is_err());
            reach("older");
        } else {
            version = w;
            model = next;
            check("an edit fails exactly when its range is not in the document", res.is_err() == bad);
            if bad {
                reach("bad");
            }
        }
        let got = docs.get_contents(&u);
        check("the document is the edited one", got.is_ok() && same(&got.unwrap(), &model));
    }
    note(model.as_bytes());
    let mut read = Vec::new();
    let mut r = docs.read(&u).unwrap();
    let mut buf = [0u8; 3];
    loop {
        let n = std::io::Read::read(&mut r, &mut buf).unwrap();
        if n == 0 {
            break;
        }
        read.extend_from_slice(&buf[..n]);
    }
    check("reading the document gives its text", read == model.as_bytes());
    let id = TextDocumentIdentifier { uri: u.clone() };
    check("a closed document is gone", docs.close(id.clone()).is_ok() && docs.close(id).is_err());
}

/// Params: pieces.
pub fn positions() {
    let t = text(param(0) as usize);
    note(t.as_bytes());
    let (l1, c1) = (any_u32(), any_u32());
    let (l2, c2) = (any_u32(), any_u32());
    let range = Range::new(Position::new(l1, c1), Position::new(l2, c2));
    match (at(&t, l1, c1), at(&t, l2, c2)) {
        (Some(None), _) | (_, Some(None)) => {}
        (Some(Some(a)), Some(Some(b))) if a <= b => {
            let got = document::get_range(&t, range);
            check("a range is the text between its ends", got.is_ok() && same(got.unwrap(), &t[a..b]));
            let p = document::offset_to_position(&t, a);
            check("a position is where its text begins", at(&t, p.line, p.character) == Some(Some(a)));
            reach("range");
        }
        _ => {
            check("a range outside the text is refused", document::get_range(&t, range).is_err());
            reach("outside");
        }
    }
}
