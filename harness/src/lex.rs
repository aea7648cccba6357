//! C08-C11: the lexer, against a reference lexer written from the language's rules.
use crate::symx::*;
use dm::docs::{CommentKind, DocTarget};
use dm::lexer::{from_utf8_or_latin1, Lexer, LocatedToken, Punctuation, Token};
use dm::{Context, Severity};

/// Every operator spelling; the longest one that matches is the token.
const OPS: &[&str] = &[
    "\t", "\n", " ", "!", "!=", "#", "##", "%", "%%", "%%=", "%=", "&", "&&", "&&=", "&=", "(", ")", "*", "**", "*=", "+", "++", "+=",
    ",", "-", "--", "-=", ".", "..", "...", "/", "/=", ":", "::", ":=", ";", "<", "<<", "<<=", "<=", "<=>", "<>", "=", "==", ">", ">=",
    ">>", ">>=", "?", "?.", "?:", "?[", "[", "]", "^", "^=", "{", "|", "|=", "||", "||=", "}", "~", "~!", "~=",
];

#[derive(Debug, PartialEq, Clone)]
pub enum T {
    /// An operator; whether it is the kind of `:` that accesses a member.
    Op(&'static str, bool),
    Id(Vec<u8>, bool),
    /// 0 whole, 1 begin, 2 part, 3 end of an interpolated string.
    Str(u8, Vec<u8>),
    Res(Vec<u8>),
    Int(i32),
    Float(f32),
    /// line comment?, about the enclosing item?
    Doc(bool, bool, Vec<u8>),
}

#[derive(Default)]
pub struct Ref<'a> {
    s: &'a [u8],
    i: usize,
    pub errors: bool,
    tight: bool,
    nest: Vec<(&'static str, usize)>,
    /// A `#` was seen on this line: its line; what follows.
    hash: Option<(usize, u8)>,
    pub out: Vec<(T, usize)>,
}

impl<'a> Ref<'a> {
    fn at(&self, i: usize) -> Option<u8> {
        self.s.get(i).copied()
    }
    fn line_start(&self, i: usize) -> usize {
        let mut j = i;
        while j > 0 && self.s[j - 1] != b'\n' {
            j -= 1;
        }
        if j == 0 && self.s.starts_with(b"\xEF\xBB\xBF") {
            j = 3;
        }
        j
    }
    fn line_no(&self, i: usize) -> usize {
        let mut n = 1;
        for &c in &self.s[..i] {
            if c == b'\n' {
                n += 1;
            }
        }
        n
    }
    pub fn line_col(&self, i: usize) -> (u32, u16) {
        (self.line_no(i) as u32, (i - self.line_start(i) + 1) as u16)
    }
    /// Only blanks since the start of the line?
    fn head(&self, i: usize) -> bool {
        self.s[self.line_start(i)..i].iter().all(|&c| c == b' ' || c == b'\t')
    }
    /// After a backslash: blanks, at most one line break, blanks.
    fn continue_line(&mut self) {
        let mut broke = false;
        loop {
            match self.at(self.i) {
                Some(b'\r') => {}
                Some(b' ' | b'\t') => self.tight = false,
                Some(b'\n') if !broke => {
                    broke = true;
                    self.tight = true;
                }
                _ => return,
            }
            self.i += 1;
        }
    }
    fn string(&mut self, end: &'static str, resumed: bool, from: usize) {
        let mut buf = Vec::new();
        let mut quote = false;
        let opened = loop {
            if self.s[self.i..].starts_with(end.as_bytes()) {
                self.i += end.len();
                break false;
            }
            let c = match self.at(self.i) {
                None => {
                    self.errors = true;
                    // half of the end mark is not text
                    if quote && end == "\"}" {
                        buf.pop();
                    }
                    break false;
                }
                Some(c) => c,
            };
            self.i += 1;
            quote = c == b'"';
            if c == b'[' {
                self.nest.push((end, 1));
                break true;
            } else if c == b'\\' {
                match self.at(self.i) {
                    None => {}
                    Some(b'\r' | b'\n') => self.continue_line(),
                    Some(d) => {
                        self.i += 1;
                        buf.push(b'\\');
                        buf.push(d);
                    }
                }
            } else {
                buf.push(c);
            }
        };
        let kind = match (resumed, opened) {
            (false, false) => 0,
            (false, true) => 1,
            (true, true) => 2,
            (true, false) => 3,
        };
        self.out.push((T::Str(kind, buf), from));
    }
    fn raw(&mut self, from: usize) {
        let term = match self.at(self.i) {
            None => {
                self.errors = true;
                return self.out.push((T::Str(0, vec![]), from));
            }
            Some(b'\n') => {
                self.i += 1;
                self.errors = true;
                return self.out.push((T::Str(0, vec![]), from));
            }
            Some(b'(') => {
                let start = self.i + 1;
                let mut end = start;
                while end < self.s.len() && self.s[end] != b')' {
                    end += 1;
                }
                if end == self.s.len() || end == start {
                    self.i = (end + 1).min(self.s.len());
                    self.errors = true;
                    return self.out.push((T::Str(0, vec![]), from));
                }
                self.i = end + 1;
                self.s[start..end].to_vec()
            }
            Some(b'{') if self.at(self.i + 1) == Some(b'"') => {
                self.i += 2;
                b"\"}".to_vec()
            }
            Some(c) => {
                self.i += 1;
                vec![c]
            }
        };
        let start = self.i;
        let mut e = start;
        while e < self.s.len() && !self.s[e..].starts_with(&term) {
            e += 1;
        }
        if e == self.s.len() {
            self.errors = true;
            self.i = e;
        } else {
            self.i = e + term.len();
        }
        self.out.push((T::Str(0, self.s[start..e].to_vec()), from));
    }
    fn number(&mut self, from: usize) {
        let mut buf = String::new();
        let mut radix = 10;
        let mut whole = true;
        let mut bad = false;
        if self.s[self.i] == b'0' {
            radix = 8;
            if self.at(self.i + 1) == Some(b'x') {
                radix = 16;
                self.i += 2;
            }
        }
        let mut sign = false;
        while let Some(c) = self.at(self.i) {
            let hex = radix == 16;
            if c == b'_' {
            } else if (c >= b'0' && c <= b'9') || (hex && c.is_ascii_hexdigit()) {
                sign = false;
                buf.push(c as char);
            } else if c == b'.' || c == b'e' || c == b'E' {
                whole = whole && hex;
                sign |= !hex && c != b'.';
                buf.push(c as char);
            } else if (c == b'+' || c == b'-') && sign {
                buf.push(c as char);
            } else if c == b'#' {
                let rest = &self.s[self.i + 1..];
                if rest.starts_with(b"INF") || rest.starts_with(b"IND") {
                    self.i += 4;
                    let v = if rest[2] == b'F' { f32::INFINITY } else { f32::NAN };
                    return self.out.push((T::Float(v), from));
                }
                // malformed: up to the first byte that does not fit is part of it
                let fit = if rest.starts_with(b"IN") {
                    2
                } else if rest.starts_with(b"I") {
                    1
                } else {
                    0
                };
                self.i = (self.i + 1 + fit + 1).min(self.s.len());
                bad = true;
                break;
            } else {
                break;
            }
            self.i += 1;
        }
        if bad {
            self.errors = true;
            return self.out.push((T::Float(0.), from));
        }
        let t = if whole {
            let mut v: i64 = 0;
            let mut ok = true;
            for c in buf.bytes() {
                let d = match c {
                    b'0'..=b'9' => c - b'0',
                    b'a'..=b'f' => c - b'a' + 10,
                    b'A'..=b'F' => c - b'A' + 10,
                    _ => 99,
                } as i64;
                ok = ok && d < radix;
                v = v * radix + d;
            }
            if buf.is_empty() && radix == 16 {
                T::Int(0)
            } else if ok && v <= i32::MAX as i64 {
                T::Int(v as i32)
            } else if radix == 10 {
                T::Float(buf.parse().unwrap_or(-1.))
            } else {
                self.errors = true;
                T::Int(0)
            }
        } else {
            match buf.parse() {
                Ok(v) => T::Float(v),
                Err(_) => {
                    self.errors = true;
                    T::Float(0.)
                }
            }
        };
        self.out.push((t, from));
    }
    fn block_comment(&mut self, from: usize) {
        self.i += 2;
        let start = self.i;
        let mut depth = 1;
        while depth > 0 {
            if self.i + 1 >= self.s.len() {
                self.errors = true;
                // the comment lasts to the end of the file
                if start < self.s.len() {
                    self.i = self.s.len() + 1;
                }
                break;
            }
            if self.s[self.i..].starts_with(b"/*") {
                depth += 1;
            } else if self.s[self.i..].starts_with(b"*/") {
                depth -= 1;
            }
            self.i += 1;
        }
        self.i += (depth == 0) as usize;
        let end = (self.i.max(2) - 2).max(start).min(self.s.len());
        self.i = self.i.min(self.s.len());
        let text = &self.s[start..end];
        match text.first() {
            Some(b'*') => self.out.push((T::Doc(false, false, text.to_vec()), from)),
            Some(b'!') if text.len() > 1 => self.out.push((T::Doc(false, true, text[1..].to_vec()), from)),
            _ => {}
        }
    }
    fn line_comment(&mut self, from: usize) {
        self.i += 2;
        let doc = match self.at(self.i) {
            Some(b'/') => Some(false),
            Some(b'!') => Some(true),
            _ => None,
        };
        self.i += doc.is_some() as usize;
        let mut text = Vec::new();
        while let Some(c) = self.at(self.i) {
            if c == b'\n' {
                break;
            }
            self.i += 1;
            if c == b'\r' {
                continue;
            }
            text.push(c);
            if c == b'\\' {
                // the next byte, even a line break, is part of the comment
                while self.at(self.i) == Some(b'\r') {
                    self.i += 1;
                }
                match self.at(self.i) {
                    Some(b'\n') => self.i += 1,
                    Some(d) => {
                        text.push(d);
                        self.i += 1
                    }
                    None => {}
                }
            }
        }
        if let Some(inner) = doc {
            self.out.push((T::Doc(true, inner, text), from));
        }
    }
    pub fn lex(s: &'a [u8]) -> Ref<'a> {
        let mut r = Ref { s, tight: true, ..Ref::default() };
        if s.starts_with(b"\xEF\xBB\xBF") {
            r.i = 3;
        }
        while let Some(c) = r.at(r.i) {
            let from = r.i;
            if c == b'\r' {
                r.i += 1;
                continue;
            }
            if (c == b' ' || c == b'\t') && !r.head(from) {
                r.i += 1;
                r.tight = false;
                continue;
            }
            let line = r.line_no(from);
            let hash = match r.hash {
                Some((l, st)) if l == line => st,
                _ => 0,
            };
            // text of #warn and #error
            if hash == 3 {
                r.hash = None;
                r.string("\n", false, from);
                continue;
            }
            let rest = &s[from..];
            if rest.starts_with(b"/*") {
                r.block_comment(from);
            } else if rest.starts_with(b"//") {
                r.line_comment(from);
            } else if c == b'"' {
                r.i += 1;
                r.string("\"", false, from);
            } else if rest.starts_with(b"{\"") {
                r.i += 2;
                r.string("\"}", false, from);
            } else if c == b'\'' {
                let mut buf = Vec::new();
                r.i += 1;
                loop {
                    match r.at(r.i) {
                        None => {
                            r.errors = true;
                            break;
                        }
                        Some(b'\'') => {
                            r.i += 1;
                            break;
                        }
                        Some(b'\\') => {
                            if let Some(d) = r.at(r.i + 1) {
                                buf.push(d);
                                r.i += 1;
                            }
                        }
                        Some(d) => buf.push(d),
                    }
                    r.i += 1;
                }
                r.out.push((T::Res(buf), from));
            } else if c == b'@' {
                r.i += 1;
                r.raw(from);
            } else if c == b'\\' {
                r.i += 1;
                r.continue_line();
            } else if c >= b'0' && c <= b'9' {
                r.number(from);
            } else if (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || c == b'_' {
                while let Some(d) = r.at(r.i) {
                    if !(d.is_ascii_alphanumeric() || d == b'_') {
                        break;
                    }
                    r.i += 1;
                }
                let id = &s[from..r.i];
                if hash == 1 {
                    let loud = id == b"warn" || id == b"error";
                    r.hash = Some((line, if loud { 3 } else { 2 }));
                }
                if id == b"in" {
                    r.out.push((T::Op("in", false), from));
                } else {
                    r.tight = true;
                    let ws = matches!(r.at(r.i), Some(b' ' | b'\t'));
                    r.out.push((T::Id(id.to_vec(), ws), from));
                }
            } else {
                let mut best = None;
                for op in OPS {
                    if rest.starts_with(op.as_bytes()) {
                        best = Some(*op);
                    }
                }
                let op = match best {
                    Some(op) => op,
                    None => {
                        r.errors = true;
                        r.i += 1;
                        continue;
                    }
                };
                r.i += op.len();
                let mut member = false;
                match op {
                    "#" if hash == 0 => r.hash = Some((line, 1)),
                    "[" | "?[" => {
                        if let Some(n) = r.nest.last_mut() {
                            n.1 += 1;
                        }
                    }
                    "]" => {
                        if let Some(n) = r.nest.last_mut() {
                            n.1 -= 1;
                            if n.1 == 0 {
                                let end = n.0;
                                r.nest.pop();
                                r.string(end, true, from);
                                continue;
                            }
                        }
                        r.tight = true;
                    }
                    ")" => r.tight = true,
                    ":" => member = r.tight && !matches!(r.at(r.i), Some(b'\r' | b' ' | b'\t' | b'\n')),
                    _ => {}
                }
                r.out.push((T::Op(op, member), from));
            }
        }
        // every file ends with a line break
        r.out.push((T::Op("\n", false), s.len()));
        r
    }
}

fn same_text(s: &str, b: &[u8]) -> bool {
    if b.is_ascii() { s.as_bytes() == b } else { s == from_utf8_or_latin1(b.to_vec()) }
}

pub fn same(t: &Token, r: &T) -> bool {
    match (t, r) {
        (Token::Punct(p), T::Op(o, m)) => p.to_string() == *o && (*p == Punctuation::CloseColon) == *m,
        (Token::Ident(i, w), T::Id(b, w2)) => same_text(i, b) & (w == w2),
        (Token::String(s), T::Str(0, b)) => same_text(s, b),
        (Token::InterpStringBegin(s), T::Str(1, b)) => same_text(s, b),
        (Token::InterpStringPart(s), T::Str(2, b)) => same_text(s, b),
        (Token::InterpStringEnd(s), T::Str(3, b)) => same_text(s, b),
        (Token::Resource(s), T::Res(b)) => same_text(s, b),
        (Token::Int(a), T::Int(b)) => a == b,
        (Token::Float(a), T::Float(b)) => a == b || (a.is_nan() && b.is_nan()),
        (Token::DocComment(c), T::Doc(line, inner, b)) => {
            (c.kind == CommentKind::Line) == *line && (c.target == DocTarget::EnclosingItem) == *inner && same_text(&c.text, b)
        }
        _ => false,
    }
}

pub fn tokens(ctx: &Context, s: &[u8]) -> Vec<LocatedToken> {
    let mut v = Vec::new();
    for t in Lexer::new(ctx, Default::default(), s) {
        v.push(t);
        if v.len() > s.len() + 2 {
            check("terminates", false);
        }
    }
    v
}

fn compare(s: &[u8]) {
    note(s);
    let ctx = Context::default();
    let got = tokens(&ctx, s);
    let want = Ref::lex(s);
    for (t, (r, at)) in got.iter().zip(&want.out) {
        check("token", same(&t.token, r));
        let (line, col) = want.line_col(*at);
        check("line", t.location.line == line);
        check("column", t.location.column == col);
        log(col as u64);
    }
    check("count", got.len() == want.out.len());
    let errors = ctx.errors().iter().any(|e| e.severity() == Severity::Error);
    check("errors", errors == want.errors);
    log(errors as u64);
    reach(if errors { "err" } else { "ok" });
}

fn with(pre: &[u8], mid: &[u8], post: &[u8]) {
    let mut s = pre.to_vec();
    s.extend(mid);
    s.extend(post);
    compare(&s);
}

/// C08: arbitrary bytes in every kind of surroundings.
pub fn any_bytes() {
    let around: [(&[u8], &[u8]); 18] = [
        (b"", b""), (b"a", b"b\n"), (b"\"x", b"y\"z"), (b"{\"x", b"y\"}z"), (b"'x", b"y'z"), (b"/*x", b"y*/z"), (b"//x", b"y\nz"),
        (b"@", b"x\"y"), (b"@(ab", b")x)ab y"), (b"\"a[b", b"c]d\"e"), (b"12", b"34"), (b"0x1", b"f "), (b"#warn a", b"b\nc"),
        (b"\t", b"\tx"), (b"\xEF\xBB", b"\nx"), (b"a\\", b"\n  b"), (b"# ", b"define\n"), (b"{\"a\"", b"\"}"),
    ];
    let n = param(0) as usize;
    let (pre, post) = around[choice(around.len() as u8)];
    with(pre, &raw(n), post);
}

/// C08: pieces of every kind of literal, comment, number and directive in any order, complete or not.
pub fn pieces() {
    let n = param(0) as usize;
    let mut t = Vec::new();
    for _ in 0..n {
        t.extend(pick(&["\"", "{\"", "\"}", "@", "@{\"", "@(", ")", "{", "'", "/*", "*/", "//!", "\\", "\n", "[", "]", "a", "#warn ", "0x", "08", "1.#IN", "2e", " ", "\r", "\x01"]).bytes());
    }
    compare(&t);
}

/// C08, C09: runs of operator characters.
pub fn ops() {
    let n = param(0) as usize;
    let mut t = text(n, b"!#%&(*+,-./:;<=>?[]^{|}~");
    t.push([b'a', b'=', b' '][choice(3)]);
    // comments are elsewhere
    for i in 0..n {
        if t[i] == b'/' {
            assume(t[i + 1] != b'/');
            assume(t[i + 1] != b'*');
        }
    }
    with(b"x", &t, b"");
}

/// C09: numbers in every radix: integer digits stay symbolic.
pub fn ints() {
    let n = 1 + choice(param(0) as u8);
    let form = choice(4);
    let mut t: Vec<u8> = Vec::new();
    for i in 0..n {
        t.push(if form == 2 {
            of(b"0123456789abcdefABCDEFg_")
        } else if i == 0 && form == 0 {
            of(b"123456789")
        } else {
            of(b"0123456789_a")
        });
    }
    match form {
        0 => with(b"", &t, b" "),
        1 => with(b"0", &t, b";"),
        2 => with(b"0x", &t, b"\n"),
        _ => with(b"x", &t, b"("),
    }
}

/// C09: integers around the largest 32-bit one.
pub fn big_ints() {
    let mut t = b"2147483".to_vec();
    for _ in 0..param(0) {
        t.push(b'0' + choice(10) as u8);
    }
    if choice(2) == 1 {
        t.push(b'0');
    }
    with(b"", &t, b"");
}

/// C09: fractions and exponents.
pub fn floats() {
    let n = param(0) as usize;
    let pre = pick(&["1", "0", "10", "3.", "2e", "0x2", "7_"]);
    let mut t = Vec::new();
    for _ in 0..n {
        t.push(b"07.eE+-_x"[choice(9)]);
    }
    with(pre.as_bytes(), &t, b" ");
}

/// C09: words.
pub fn words() {
    let n = param(0) as usize;
    let t = text(n, b"in_Z9a \t\n(");
    with(b"", &t, b"");
}

/// C09: which colons access members.
pub fn colons() {
    let n = param(0) as usize;
    let t = text(n, b"a:]) \n?.1");
    with(b"", &t, b"b");
}

/// C10: quoted text in every form.
pub fn strings() {
    let n = param(0) as usize;
    let form = param(1);
    let abc: &[u8] = match form {
        0 => b"\"\\[]a\n",
        1 => b"\"\\[}a\n",
        2 => b"'\\a\"\n",
        3 => b"\"({)a}\\\n",
        4 => b"\\\n\r \t\"[",
        5 => b"\"[]{}?a'",
        _ => b"\\\n[\ra/",
    };
    let t = text(n, abc);
    match form {
        0 => with(b"\"", &t, b"\"b"),
        1 => with(b"{\"", &t, b"\"}b"),
        2 => with(b"'", &t, b"'b"),
        3 => with(b"@", &t, b"b)a\""),
        4 => with(b"\"x", &t, b"y\"b"),
        5 => with(b"\"[", &t, b"]\"]b"),
        _ => with(b"#warn x", &t, b"y\nz"),
    }
}

/// C11: comments.
pub fn comments() {
    let n = param(0) as usize;
    let form = param(1);
    let abc: &[u8] = match form {
        0 => b"/*!a\n",
        1 => b"/!\\\n\ra",
        _ => b"/*!\\\n \"",
    };
    let t = text(n, abc);
    match form {
        0 => with(b"/*", &t, b"*/b"),
        1 => with(b"//", &t, b"\nb"),
        _ => with(b"a", &t, b"\n*/b"),
    }
}

/// C11: indentation, blanks and continued lines.
pub fn blanks() {
    let n = param(0) as usize;
    let t = text(n, b"\t \n\r\\a/");
    with(b"", &t, b"b\n\tc");
}

/// C11: a file lexes the same with either line ending, outside of string contents.
pub fn endings() {
    let n = param(0) as usize;
    let t = text(n, b"\t \na\\:\"");
    let mut crlf = Vec::new();
    for &c in &t {
        if c == b'\n' {
            crlf.push(b'\r');
        }
        crlf.push(c);
    }
    note(&t);
    let (c1, c2) = (Context::default(), Context::default());
    let (a, b) = (tokens(&c1, &t), tokens(&c2, &crlf));
    check("same_count", a.len() == b.len());
    for (x, y) in a.iter().zip(&b) {
        match (&x.token, &y.token) {
            (Token::String(x), Token::String(y)) => check("same_string", *x == y.replace('\r', "")),
            (p, q) => check("same_token", p == q),
        }
        check("same_line", x.location.line == y.location.line);
        log(x.location.line as u64);
    }
    check("same_errors", c1.errors().len() == c2.errors().len());
    reach("endings");
}
