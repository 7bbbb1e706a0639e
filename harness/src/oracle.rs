//! Shared oracles over (input text, configuration, output text).
use crate::cfgs::{get, on, Cfg};
use crate::lex::*;
use crate::parse::{self, Node};
use luafmt::formatter::{process_buffer_with_config, FormatterError};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone, PartialEq)]
pub enum Run {
    Ok(String),
    Rejected(String),
    OtherErr(String),
    Panic(String),
}

pub fn run(src: &str, cfg: &Cfg) -> Run {
    let c = crate::cfgs::build(cfg);
    let s = src.to_string();
    match catch_unwind(AssertUnwindSafe(|| process_buffer_with_config(&s, &c, false))) {
        Ok(Ok(o)) => Run::Ok(o),
        Ok(Err(FormatterError::ParsingError(e))) => Run::Rejected(e),
        Ok(Err(e)) => Run::OtherErr(format!("{}", e)),
        Err(p) => Run::Panic(match p.downcast_ref::<String>() {
            Some(s) => s.clone(),
            None => match p.downcast_ref::<&str>() {
                Some(s) => s.to_string(),
                None => "panic".into(),
            },
        }),
    }
}

pub struct An {
    pub src: String,
    pub lx: Lexed,
    pub root: Node,
    /// field separator role per token
    pub sep: Vec<Option<bool>>,
}

impl An {
    pub fn new(src: &str) -> Result<An, (usize, String)> {
        let (lx, root) = parse::analyse(src)?;
        let sep = parse::field_seps(&root, lx.toks.len());
        Ok(An { src: src.to_string(), lx, root, sep })
    }
    pub fn text(&self, i: usize) -> &str {
        self.lx.text(&self.src, i)
    }
    /// tokens without trailing field separators: (token index, comparable text)
    pub fn code(&self) -> Vec<(usize, String)> {
        let mut v = vec![];
        for (i, t) in self.lx.toks.iter().enumerate() {
            if t.k == K::Eof || self.sep[i] == Some(true) {
                continue;
            }
            let s = match t.k {
                _ if self.sep[i].is_some() => "<sep>".to_string(),
                K::Str(_) => {
                    let body = &self.src[t.s + 1..t.e - 1];
                    format!("<str>{:?}", string_value(body))
                }
                _ => self.text(i).to_string(),
            };
            v.push((i, s));
        }
        v
    }
    /// comments with the number of code tokens that precede each
    pub fn comments(&self) -> Vec<(usize, &Comment)> {
        let mut before = vec![0usize; self.lx.toks.len() + 1];
        let mut n = 0;
        for i in 0..self.lx.toks.len() {
            before[i] = n;
            if self.sep[i] != Some(true) {
                n += 1;
            }
        }
        self.lx.comments.iter().map(|c| (before[c.gap], c)).collect()
    }
}

pub fn clip(s: &str, at: usize) -> String {
    let mut a = at.saturating_sub(25).min(s.len());
    while !s.is_char_boundary(a) {
        a -= 1;
    }
    let mut b = (at + 40).min(s.len());
    while !s.is_char_boundary(b) {
        b += 1;
    }
    format!("{:?}", &s[a..b])
}

/// Same code tokens, in order?
pub fn same_code(a: &An, b: &An) -> Result<(), String> {
    let x = a.code();
    let y = b.code();
    for i in 0..x.len().max(y.len()) {
        match (x.get(i), y.get(i)) {
            (Some(p), Some(q)) if p.1 == q.1 => {}
            (p, q) => {
                let show = |an: &An, t: Option<&(usize, String)>| match t {
                    Some((i, s)) => format!("`{}` in {}", s, clip(&an.src, an.lx.toks[*i].s)),
                    None => "end of text".into(),
                };
                return Err(format!("token {}: {} became {}", i, show(a, p), show(b, q)));
            }
        }
    }
    Ok(())
}

/// The text of a comment once the configured hints are applied.
pub fn expected_comment(a: &An, c: &Comment, cfg: &Cfg) -> (CK, String) {
    let t = &a.src[c.ts..c.te];
    match c.k {
        CK::Line => {
            let s = match get(cfg, "hint_before_oneline_comment_text") {
                Some(h) => {
                    let tt = t.trim_start();
                    if tt.is_empty() {
                        String::new()
                    } else {
                        format!("{}{}", h, tt)
                    }
                }
                None => t.to_string(),
            };
            (c.k, s)
        }
        CK::Long(_) => {
            let b = get(cfg, "hint_before_multiline_comment_text");
            let e = get(cfg, "hint_after_multiline_comment_text");
            let mut t = t;
            if b.is_some() {
                t = t.trim_start();
            }
            if e.is_some() {
                t = t.trim_end();
            }
            (c.k, format!("{}{}{}", b.unwrap_or(""), t, e.unwrap_or("")))
        }
    }
}

/// Whether this text, put between the comment's own delimiters, is not that comment any more
/// (`-- [[x` without its space, `--[[ a[b[1] ]]` without its space): a space more is right then.
fn cannot_stand(c: &(CK, String)) -> bool {
    let s = match c.0 {
        CK::Line => format!("--{}\n", c.1),
        CK::Long(n) => format!("--[{}[{}]{}]", "=".repeat(n), c.1, "=".repeat(n)),
    };
    match lex(&s) {
        Ok(l) => !(l.comments.len() == 1 && l.comments[0].k == c.0 && s[l.comments[0].ts..l.comments[0].te] == c.1 && l.toks.len() == 1),
        Err(_) => true,
    }
}

/// The text with the white space of empty tables removed.
pub fn squeeze_empty_tables(a: &An) -> String {
    let mut out = String::new();
    let mut at = 0;
    for i in 0..a.lx.toks.len().saturating_sub(1) {
        let (t, n) = (&a.lx.toks[i], &a.lx.toks[i + 1]);
        if a.text(i) == "{" && a.text(i + 1) == "}" {
            out.push_str(&a.src[at..t.e]);
            out.extend(a.src[t.e..n.s].chars().filter(|c| !c.is_whitespace()));
            at = n.s;
        }
    }
    out.push_str(&a.src[at..]);
    out
}

pub fn same_comments(a: &An, b: &An, cfg: &Cfg) -> Result<(), String> {
    let x = a.comments();
    let y = b.comments();
    if on(cfg, "remove_comments") {
        if let Some((_, c)) = y.first() {
            return Err(format!("comment {} left although remove_comments is on", clip(&b.src, c.s)));
        }
        return Ok(());
    }
    for i in 0..x.len().max(y.len()) {
        match (x.get(i), y.get(i)) {
            (Some((g, c)), Some((h, d))) => {
                let e = expected_comment(a, c, cfg);
                let got = (d.k, b.src[d.ts..d.te].to_string());
                if e != got && !(cannot_stand(&e) && e.0 == got.0 && e.1.trim() == got.1.trim()) {
                    return Err(format!("comment {}: {:?} became {:?}", i, e, got));
                }
                if g != h {
                    return Err(format!(
                        "comment {} {} moved from after code token {} to after {}",
                        i,
                        clip(&a.src, c.s),
                        g,
                        h
                    ));
                }
            }
            (Some((_, c)), None) => return Err(format!("comment {} {} lost", i, clip(&a.src, c.s))),
            (None, Some((_, d))) => return Err(format!("comment {} {} added", i, clip(&b.src, d.s))),
            _ => {}
        }
    }
    Ok(())
}
