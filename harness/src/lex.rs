//! Reference lexer for Lua 5.3 (manual section 3.1), written from the manual, independent of luafmt.
//! Works on bytes of a valid UTF-8 string; positions are byte offsets.

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum K {
    Name,
    Kw,
    Num,
    /// quoted string, with its quote
    Str(u8),
    /// long bracket string, with its level
    Long(usize),
    Op,
    Shebang,
    Eof,
}

#[derive(Debug, Clone)]
pub struct Tok {
    pub k: K,
    pub s: usize,
    pub e: usize,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum CK {
    Line,
    Long(usize),
}

#[derive(Debug, Clone)]
pub struct Comment {
    pub k: CK,
    /// whole comment; a line comment excludes its newline
    pub s: usize,
    pub e: usize,
    /// text inside the delimiters
    pub ts: usize,
    pub te: usize,
    /// index of the token that follows it
    pub gap: usize,
}

#[derive(Debug, Clone)]
pub struct Lexed {
    pub toks: Vec<Tok>, // last one is Eof
    pub comments: Vec<Comment>,
}

pub const KEYWORDS: [&str; 22] = [
    "and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil",
    "not", "or", "repeat", "return", "then", "true", "until", "while",
];

pub type LexResult<T> = Result<T, (usize, String)>;

fn is_alpha(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}
fn is_alnum(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}

/// If a long bracket opens at `i` (which holds '['), its level and the offset after the second '['.
fn long_open(b: &[u8], i: usize) -> Option<(usize, usize)> {
    let mut j = i + 1;
    while j < b.len() && b[j] == b'=' {
        j += 1;
    }
    if j < b.len() && b[j] == b'[' {
        Some((j - i - 1, j + 1))
    } else {
        None
    }
}

/// Offset of the closing bracket's start and end.
fn long_close(b: &[u8], from: usize, level: usize) -> Option<(usize, usize)> {
    let mut i = from;
    while i < b.len() {
        if b[i] == b']' {
            let mut j = i + 1;
            while j < b.len() && b[j] == b'=' {
                j += 1;
            }
            if j - i - 1 == level && j < b.len() && b[j] == b']' {
                return Some((i, j + 1));
            }
        }
        i += 1;
    }
    None
}

pub fn valid_numeral(s: &str) -> bool {
    let b = s.as_bytes();
    let (hex, mut i) = if b.len() > 2 && b[0] == b'0' && (b[1] | 32) == b'x' { (true, 2) } else { (false, 0) };
    let dig = |c: u8| if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() };
    let mut n = 0;
    while i < b.len() && dig(b[i]) {
        i += 1;
        n += 1;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && dig(b[i]) {
            i += 1;
            n += 1;
        }
    }
    if n == 0 {
        return false;
    }
    if i < b.len() && (b[i] | 32) == if hex { b'p' } else { b'e' } {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == st {
            return false;
        }
    }
    i == b.len()
}

/// Decodes the body of a quoted string (without quotes) to its byte value; None if an escape is invalid.
pub fn string_value(body: &str) -> Option<Vec<u8>> {
    let b = body.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'\n' || c == b'\r' {
            return None;
        }
        if c != b'\\' {
            out.push(c);
            i += 1;
            continue;
        }
        i += 1;
        if i >= b.len() {
            return None;
        }
        match b[i] {
            b'a' => out.push(7),
            b'b' => out.push(8),
            b'f' => out.push(12),
            b'n' => out.push(10),
            b'r' => out.push(13),
            b't' => out.push(9),
            b'v' => out.push(11),
            b'\\' | b'"' | b'\'' => out.push(b[i]),
            b'\n' | b'\r' => {
                if i + 1 < b.len() && (b[i + 1] == b'\n' || b[i + 1] == b'\r') && b[i + 1] != b[i] {
                    i += 1;
                }
                out.push(10);
            }
            b'z' => {
                while i + 1 < b.len() && (b[i + 1].is_ascii_whitespace() || b[i + 1] == 11) {
                    i += 1;
                }
            }
            b'x' => {
                let h = b.get(i + 1..i + 3)?;
                if !h.iter().all(|c| c.is_ascii_hexdigit()) {
                    return None;
                }
                out.push(u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()?);
                i += 2;
            }
            b'u' => {
                if b.get(i + 1) != Some(&b'{') {
                    return None;
                }
                let mut j = i + 2;
                while j < b.len() && b[j].is_ascii_hexdigit() {
                    j += 1;
                }
                if j == i + 2 || b.get(j) != Some(&b'}') {
                    return None;
                }
                let v = u32::from_str_radix(std::str::from_utf8(&b[i + 2..j]).ok()?, 16).ok()?;
                if v > 0x10FFFF {
                    return None;
                }
                // encode without regard to surrogates, as Lua does
                match char::from_u32(v) {
                    Some(ch) => {
                        let mut buf = [0; 4];
                        out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                    }
                    None => {
                        out.push(0xE0 | (v >> 12) as u8);
                        out.push(0x80 | ((v >> 6) & 63) as u8);
                        out.push(0x80 | (v & 63) as u8);
                    }
                }
                i = j;
            }
            d if d.is_ascii_digit() => {
                let mut v = 0u32;
                let mut n = 0;
                while n < 3 && i < b.len() && b[i].is_ascii_digit() {
                    v = v * 10 + (b[i] - b'0') as u32;
                    i += 1;
                    n += 1;
                }
                if v > 255 {
                    return None;
                }
                out.push(v as u8);
                i -= 1;
            }
            _ => return None,
        }
        i += 1;
    }
    Some(out)
}

pub fn lex(src: &str) -> LexResult<Lexed> {
    lex_with(src, false)
}

/// `lenient`: line breaks and unknown escapes in quoted strings and malformed numerals are let through
pub fn lex_with(src: &str, lenient: bool) -> LexResult<Lexed> {
    let b = src.as_bytes();
    let mut toks: Vec<Tok> = Vec::new();
    let mut comments: Vec<Comment> = Vec::new();
    let mut i = 0;
    let err = |i: usize, m: &str| Err((i, m.to_string()));

    if src.starts_with("#!") {
        let e = src.find('\n').unwrap_or(src.len());
        toks.push(Tok { k: K::Shebang, s: 0, e });
        i = e;
    }

    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' | 11 | 12 => i += 1,
            b'-' if b.get(i + 1) == Some(&b'-') => {
                let s = i;
                if b.get(i + 2) == Some(&b'[') {
                    if let Some((level, ts)) = long_open(b, i + 2) {
                        match long_close(b, ts, level) {
                            Some((te, e)) => {
                                comments.push(Comment { k: CK::Long(level), s, e, ts, te, gap: toks.len() });
                                i = e;
                                continue;
                            }
                            None => return err(s, "unfinished long comment"),
                        }
                    }
                }
                let mut e = i + 2;
                // a carriage return alone ends the line too; one before a line feed counts as part of the text here
                while e < b.len() && b[e] != b'\n' && !(b[e] == b'\r' && e + 1 < b.len() && b[e + 1] != b'\n') {
                    e += 1;
                }
                comments.push(Comment { k: CK::Line, s, e, ts: s + 2, te: e, gap: toks.len() });
                i = e;
            }
            b'[' => match long_open(b, i) {
                Some((level, ts)) => match long_close(b, ts, level) {
                    Some((_, e)) => {
                        toks.push(Tok { k: K::Long(level), s: i, e });
                        i = e;
                    }
                    None => return err(i, "unfinished long string"),
                },
                None => {
                    if b.get(i + 1) == Some(&b'=') {
                        return err(i, "invalid long string delimiter");
                    }
                    toks.push(Tok { k: K::Op, s: i, e: i + 1 });
                    i += 1;
                }
            },
            b'"' | b'\'' => {
                let s = i;
                i += 1;
                loop {
                    if i >= b.len() {
                        return err(s, "unfinished string");
                    }
                    if b[i] == c {
                        break;
                    }
                    if b[i] == b'\\' {
                        i += 1;
                        if i < b.len() && b[i] == b'z' {
                            while i + 1 < b.len() && (b[i + 1].is_ascii_whitespace() || b[i + 1] == 11) {
                                i += 1;
                            }
                        } else if i + 1 < b.len()
                            && (b[i] == b'\n' || b[i] == b'\r')
                            && (b[i + 1] == b'\n' || b[i + 1] == b'\r')
                            && b[i] != b[i + 1]
                        {
                            i += 1;
                        }
                        i += 1;
                        continue;
                    }
                    if (b[i] == b'\n' || b[i] == b'\r') && !lenient {
                        return err(s, "unfinished string");
                    }
                    i += 1;
                }
                i += 1;
                if !lenient && string_value(&src[s + 1..i - 1]).is_none() {
                    return err(s, "invalid escape sequence");
                }
                toks.push(Tok { k: K::Str(c), s, e: i });
            }
            c if c.is_ascii_digit() || (c == b'.' && b.get(i + 1).map_or(false, |d| d.is_ascii_digit())) => {
                let s = i;
                let mut expo = b'e';
                if c == b'0' && b.get(i + 1).map_or(false, |d| d | 32 == b'x') {
                    expo = b'p';
                    i += 2;
                }
                while i < b.len() {
                    if b[i] | 32 == expo {
                        i += 1;
                        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
                            i += 1;
                        }
                    } else if b[i].is_ascii_hexdigit() || b[i] == b'.' {
                        i += 1;
                    } else {
                        break;
                    }
                }
                while i < b.len() && is_alnum(b[i]) {
                    i += 1;
                }
                if !valid_numeral(&src[s..i]) && !lenient {
                    return err(s, "malformed number");
                }
                toks.push(Tok { k: K::Num, s, e: i });
            }
            c if is_alpha(c) => {
                let s = i;
                while i < b.len() && is_alnum(b[i]) {
                    i += 1;
                }
                let k = if KEYWORDS.contains(&&src[s..i]) { K::Kw } else { K::Name };
                toks.push(Tok { k, s, e: i });
            }
            _ => {
                let rest = &b[i..];
                let n = if rest.starts_with(b"...") {
                    3
                } else if [&b".."[..], b"==", b"~=", b"<=", b">=", b"<<", b">>", b"//", b"::"]
                    .iter()
                    .any(|o| rest.starts_with(o))
                {
                    2
                } else if b"+-*/%^#&~|<>=(){}];:,.".contains(&c) {
                    1
                } else {
                    return err(i, "unexpected symbol");
                };
                toks.push(Tok { k: K::Op, s: i, e: i + n });
                i += n;
            }
        }
    }
    toks.push(Tok { k: K::Eof, s: b.len(), e: b.len() });
    Ok(Lexed { toks, comments })
}

impl Lexed {
    pub fn text<'a>(&self, src: &'a str, i: usize) -> &'a str {
        &src[self.toks[i].s..self.toks[i].e]
    }
}
