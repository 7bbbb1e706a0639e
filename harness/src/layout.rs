//! Reference layout: what stands between the tokens of a formatted text, comments included, for any configuration. The single-line options are decided as they are documented by their names: a construct goes on
//! one line when, from the beginning of the line, it ends before column `max_width`.
use crate::cfgs::{get, on, Cfg};
use crate::lex::*;
use crate::oracle::An;
use crate::parse::{Node, NK};
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Cat {
    /// between statements, and between a block and the keywords around it
    Block,
    /// on one line inside a statement
    Inline,
    /// around the fields of a table constructor
    Table,
    /// before or after a binary operator
    Op,
    /// around the expressions of a list
    List,
    /// before a member or method suffix
    Suffix,
    /// before the first token and after the last one
    Ends,
}

#[derive(Debug, Clone)]
pub struct Piece {
    pub gap: String,
    pub text: String,
    pub cat: Cat,
    /// token of the input this piece is
    pub tok: Option<usize>,
    /// its gap in the input holds comments
    pub comments: bool,
}

/// the options that decide the layout
#[derive(Clone, Default)]
pub struct O {
    replace: bool,
    convert: bool,
    single: bool,
    all: bool,
    spaces: bool,
    eof: bool,
    table_hint: String,
    ml_table: Option<bool>,
    el_table: Option<bool>,
    indent: String,
    ind_suffix: bool,
    ind_one_suffix: bool,
    ind_list: bool,
    ind_one_list: bool,
    stat: Option<usize>,
    do_: Option<usize>,
    for_: Option<usize>,
    fun: Option<usize>,
    if_: Option<usize>,
    rep: Option<usize>,
    tbl: Option<usize>,
    field: Option<usize>,
    wh: Option<usize>,
    op: Option<usize>,
    suf: Option<usize>,
    list: Option<usize>,
    first: Option<usize>,
    sep: Option<String>,
    trail: Option<bool>,
    width: Option<usize>,
    f_op: bool,
    f_tbl: bool,
    f_iv: bool,
    f_kv: bool,
    f_if: bool,
    f_top: bool,
    f_fun: bool,
    f_suf: bool,
    f_list: bool,
    no_comments: bool,
    h_before: Option<String>,
    h_after_ml: Option<String>,
    h_line_text: Option<String>,
    h_ml_before: Option<String>,
    h_ml_after: Option<String>,
    /// line comments, multiline comments: the first of a gap, the others
    c_first: [bool; 2],
    c_next: [bool; 2],
}

/// what a gap is made of
enum Item<'a> {
    Newline,
    Line(&'a str),
    Multi(usize, &'a str),
}

/// The items of a gap, each with its start and end. None when a line comment holds a lone carriage return, which ends
/// the line for Lua.
fn items(w: &str) -> Option<Vec<(usize, Item, usize)>> {
    let b = w.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'\n' => {
                v.push((i, Item::Newline, i + 1));
                i += 1;
            }
            b'-' => {
                let s = i;
                let rest = &w[i + 2..];
                if rest.starts_with('[') {
                    let level = rest[1..].bytes().take_while(|c| *c == b'=').count();
                    if rest[1 + level..].starts_with('[') {
                        let close = format!("]{}]", "=".repeat(level));
                        let text = &rest[level + 2..];
                        let e = text.find(&close)?;
                        i = s + 2 + level + 2 + e + close.len();
                        v.push((s, Item::Multi(level, &text[..e]), i));
                        continue;
                    }
                }
                let e = rest.find('\n').unwrap_or(rest.len());
                let text = &rest[..e];
                if text.trim_end_matches('\r').contains('\r') || text.ends_with("\r\r") || text.ends_with('\r') && e == rest.len() {
                    return None;
                }
                i = (s + 2 + e + 1).min(w.len());
                v.push((s, Item::Line(text), i));
            }
            _ => i += 1,
        }
    }
    Some(v)
}

fn blank(c: char) -> bool {
    c == ' ' || c == '\t'
}

impl O {
    pub fn new(c: &Cfg) -> O {
        let n = |k: &str| get(c, k).and_then(|v| v.parse::<usize>().ok());
        let b = |k: &str| get(c, k).and_then(|v| v.parse::<bool>().ok());
        let s = |k: &str| get(c, k).unwrap_or("").to_string();
        O {
            convert: on(c, "convert_charstring_to_normalstring"),
            replace: on(c, "replace_zero_spaces_with_hint"),
            single: on(c, "remove_single_newlines"),
            all: on(c, "remove_all_newlines"),
            spaces: on(c, "remove_spaces_between_tokens"),
            eof: on(c, "write_newline_at_eof"),
            table_hint: s("hint_table_constructor"),
            ml_table: b("write_newline_at_multiline_table"),
            el_table: b("write_newline_at_explist_multiline_table"),
            indent: s("indentation_string"),
            ind_suffix: on(c, "indent_var_suffix"),
            ind_one_suffix: on(c, "indent_one_line_var_suffix"),
            ind_list: on(c, "indent_exp_list"),
            ind_one_list: on(c, "indent_one_line_exp_list"),
            stat: n("newline_format_statement"),
            do_: n("newline_format_do_end"),
            for_: n("newline_format_for"),
            fun: n("newline_format_function"),
            if_: n("newline_format_if"),
            rep: n("newline_format_repeat_until"),
            tbl: n("newline_format_table_constructor"),
            field: n("newline_format_table_field"),
            wh: n("newline_format_while"),
            op: n("newline_format_binary_op"),
            suf: n("newline_format_var_suffix"),
            list: n("newline_format_exp_list"),
            first: n("newline_format_exp_list_first"),
            sep: get(c, "field_separator").map(|s| s.to_string()),
            trail: b("write_trailing_field_separator"),
            width: n("max_width"),
            f_op: on(c, "force_single_line_binary_op"),
            f_tbl: on(c, "force_single_line_table"),
            f_iv: on(c, "force_single_line_iv_table_field"),
            f_kv: on(c, "force_single_line_kv_table_field"),
            f_if: on(c, "force_single_line_if"),
            f_top: on(c, "force_single_line_top_level_function"),
            f_fun: on(c, "force_single_line_scoped_function"),
            f_suf: on(c, "force_single_line_var_suffix"),
            f_list: on(c, "force_single_line_exp_list"),
            no_comments: on(c, "remove_comments"),
            h_before: get(c, "hint_before_comment").map(|s| s.to_string()),
            h_after_ml: get(c, "hint_after_multiline_comment").map(|s| s.to_string()),
            h_line_text: get(c, "hint_before_oneline_comment_text").map(|s| s.to_string()),
            h_ml_before: get(c, "hint_before_multiline_comment_text").map(|s| s.to_string()),
            h_ml_after: get(c, "hint_after_multiline_comment_text").map(|s| s.to_string()),
            c_first: [n("newline_format_first_oneline_comment") == Some(1), n("newline_format_first_multiline_comment") == Some(1)],
            c_next: [n("newline_format_oneline_comment") == Some(1), n("newline_format_multiline_comment") == Some(1)],
        }
    }
}

/// what is known of a table constructor once it has been written, by its first token
#[derive(Default)]
struct Shared {
    one_line: HashSet<usize>,
    indented: HashSet<usize>,
    /// work spent
    steps: usize,
}

#[derive(Clone)]
pub struct M<'a> {
    a: &'a An,
    o: Rc<O>,
    /// everything written so far
    out: String,
    /// where the pending gap starts in `out`
    gap_at: usize,
    cat: Cat,
    pub pieces: Vec<Piece>,
    rec: bool,
    level: isize,
    stack: Vec<Option<&'a str>>,
    nested: usize,
    sh: Rc<RefCell<Shared>>,
}

/// a single-quoted string in double quotes
pub fn converted(s: &str) -> String {
    let mut r = String::from("\"");
    let mut escaped = false;
    for ch in s[1..s.len() - 1].chars() {
        if ch == '"' && !escaped {
            r.push('\\');
        }
        r.push(ch);
        escaped = !escaped && ch == '\\';
    }
    r.push('"');
    r
}

pub const STEP_LIMIT: usize = 3_000_000;

/// Is the configuration one that the reference layout describes?
pub fn describes(cfg: &Cfg) -> bool {
    cfg.iter().all(|(k, _)| k != "line_range") && !get(cfg, "field_separator").map_or(false, |s| s.trim() != s)
}
pub fn no_collapse(cfg: &Cfg) -> bool {
    cfg.iter().all(|(k, _)| k != "max_width" && !k.starts_with("force_single_line"))
}

pub fn predict(a: &An, cfg: &Cfg) -> Option<Vec<Piece>> {
    let mut m = M {
        a,
        o: Rc::new(O::new(cfg)),
        out: String::new(),
        gap_at: 0,
        cat: Cat::Ends,
        pieces: vec![],
        rec: true,
        level: 0,
        stack: vec![],
        nested: 0,
        sh: Rc::new(RefCell::new(Shared::default())),
    };
    m.chunk();
    let steps = m.sh.borrow().steps;
    if steps > STEP_LIMIT {
        return None;
    }
    Some(m.pieces)
}

impl<'a> M<'a> {
    fn t(&self, i: usize) -> &'a str {
        self.a.lx.text(&self.a.src, i)
    }
    /// number of characters of the source between the start of token `s` and the end of token `e - 1`
    fn span(&self, s: usize, e: usize) -> usize {
        self.a.src[self.a.lx.toks[s].s..self.a.lx.toks[e - 1].e].chars().count()
    }
    fn col(&self) -> usize {
        self.out.chars().rev().take_while(|&c| c != '\n').count()
    }
    /// a copy that writes elsewhere
    fn scratch(&self, keep: bool) -> M<'a> {
        M {
            a: self.a,
            o: self.o.clone(),
            out: if keep { self.out.clone() } else { String::new() },
            gap_at: 0,
            cat: Cat::Inline,
            pieces: vec![],
            rec: false,
            level: self.level,
            stack: self.stack.clone(),
            nested: self.nested,
            sh: self.sh.clone(),
        }
    }
    fn fits(&self, text: &str) -> bool {
        match self.o.width {
            Some(w) => self.col() + text.chars().take_while(|&c| c != '\n').count() < w,
            None => false,
        }
    }
    /// would what `f` writes fit on the current line (up to its first line break)?
    fn one_line(&self, f: &dyn Fn(&mut M<'a>)) -> bool {
        let mut m = self.scratch(false);
        f(&mut m);
        self.fits(&m.out)
    }
    /// ... and has it no line break at all?
    fn one_line_no_nl(&self, f: &dyn Fn(&mut M<'a>)) -> bool {
        let mut m = self.scratch(false);
        f(&mut m);
        self.fits(&m.out) && !m.out.contains('\n')
    }
    /// writes what `f` writes on one line under other options, when that fits
    fn collapse(&mut self, o: O, f: &dyn Fn(&mut M<'a>)) -> bool {
        let mut m = self.scratch(false);
        m.o = Rc::new(o);
        m.rec = self.rec;
        f(&mut m);
        if self.fits(&m.out) && !m.out.contains('\n') {
            let mut ps = std::mem::take(&mut m.pieces);
            if let Some(p) = ps.first_mut() {
                p.gap = format!("{}{}", &self.out[self.gap_at..], p.gap);
                p.cat = self.cat;
            }
            self.pieces.append(&mut ps);
            self.out.push_str(&m.out);
            self.gap_at = self.out.len();
            self.cat = Cat::Inline;
            return true;
        }
        false
    }
    /// the source text after token `i` (before the first token: None)
    fn between(&self, i: Option<usize>) -> &'a str {
        let toks = &self.a.lx.toks;
        let (s, e) = match i {
            None => (0, toks[0].s),
            Some(i) => (toks[i].e, toks.get(i + 1).map_or(self.a.src.len(), |t| t.s)),
        };
        let w = &self.a.src[s..e];
        // the first line is a whole line
        if i == Some(0) && toks[0].k == K::Shebang && w.starts_with('\n') {
            return &w[1..];
        }
        w
    }
    /// what is kept of the source after token `i`, when it is written after the character `head`
    fn kept(&self, i: Option<usize>, head: char) -> String {
        let w = self.between(i);
        let o = &*self.o;
        let its = match items(w) {
            Some(v) => v,
            None => {
                self.sh.borrow_mut().steps = STEP_LIMIT + 1;
                return String::new();
            }
        };
        let sp = |x: &str, h: &str| if o.spaces { h.to_string() } else { x.to_string() };
        let newline = |it: &Item| matches!(it, Item::Newline);
        let mut p = head.to_string();
        let start = p.len();
        let lead = its.first().map_or(w.len(), |x| x.0);
        p.push_str(&sp(&w[..lead], ""));
        if !(o.single && its.len() == 1 && newline(&its[0].1)) {
            let mut first = true;
            for (k, (s, it, _)) in its.iter().enumerate() {
                let kind = match it {
                    Item::Line(_) => Some(0),
                    Item::Multi(..) => Some(1),
                    Item::Newline => None,
                };
                let gap = if k == 0 { "" } else { &w[its[k - 1].2..*s] };
                // a run of comments or of newlines begins
                let begins = k > 0 && newline(&its[k - 1].1) != newline(it);
                let nl = match kind {
                    Some(_) if o.no_comments => false,
                    Some(c) if k == 0 => o.c_first[c],
                    Some(c) => o.c_next[c],
                    None => false,
                };
                if nl {
                    self.nl_into(&mut p, &sp(gap, ""));
                } else if !first {
                    let h = if kind.is_some() && !begins && !o.no_comments { o.h_before.as_deref().unwrap_or("") } else { "" };
                    p.push_str(&sp(gap, h));
                }
                first = false;
                match it {
                    Item::Newline if o.all => {}
                    Item::Newline => p.push('\n'),
                    Item::Line(_) if o.no_comments && o.all => {}
                    Item::Line(_) if o.no_comments => p.push('\n'),
                    Item::Line(t) => {
                        let text = match &o.h_line_text {
                            Some(_) if t.trim_start().is_empty() => String::new(),
                            Some(h) => {
                                let x = format!("{}{}", h, t.trim_start());
                                let long = x.starts_with('[') && x[1..].trim_start_matches('=').starts_with('[');
                                if long {
                                    format!(" {}", x)
                                } else {
                                    x
                                }
                            }
                            None => t.to_string(),
                        };
                        p.push_str(&format!("--{}\n", text));
                    }
                    Item::Multi(..) if o.no_comments => {}
                    Item::Multi(level, t) => {
                        let mut x = *t;
                        if o.h_ml_before.is_some() {
                            x = x.trim_start();
                        }
                        if o.h_ml_after.is_some() {
                            x = x.trim_end();
                        }
                        let close = format!("]{}]", "=".repeat(*level));
                        let mut x = format!("{}{}{}", o.h_ml_before.as_deref().unwrap_or(""), x, o.h_ml_after.as_deref().unwrap_or(""));
                        if format!("{}{}", x, close).find(&close) != Some(x.len()) {
                            x.push(' ');
                        }
                        p.push_str(&format!("--[{}[{}{}", "=".repeat(*level), x, close));
                    }
                }
            }
        }
        if let Some(l) = its.last() {
            p.push_str(&sp(&w[l.2..], ""));
        }
        p[start.min(p.len())..].to_string()
    }
    /// a new line in `p`, after what is left of the white space
    fn nl_into(&self, p: &mut String, left: &str) {
        let t = left.trim_end_matches(blank);
        if !t.is_empty() {
            p.push_str(t);
            if !t.ends_with('\n') {
                p.push('\n');
            }
        } else {
            while p.len() > 1 && p.ends_with(blank) {
                p.pop();
            }
            if !p.ends_with('\n') {
                p.push('\n');
            }
        }
        p.push_str(&self.o.indent.repeat(self.level.max(0) as usize));
    }
    /// what a gap is written as on the same line
    fn gap_text(&self, i: Option<usize>, h: &str, head: char) -> String {
        let w = self.kept(i, head);
        if w.is_empty() {
            return if self.o.replace { h.to_string() } else { w };
        }
        let mut t = String::new();
        if w.starts_with('-') {
            t.push_str(self.o.h_before.as_deref().unwrap_or(""));
            let last = t.chars().last().unwrap_or(head);
            if last == '-' {
                t.push(' ');
            }
        }
        t.push_str(&w);
        if w.ends_with(']') {
            t.push_str(self.o.h_after_ml.as_deref().unwrap_or(""));
        }
        t
    }
    fn head(&self) -> char {
        self.out.chars().last().unwrap_or(' ')
    }
    fn put(&mut self, s: &str, cat: Cat) {
        self.out.push_str(s);
        if cat != Cat::Inline {
            self.cat = cat;
        }
    }
    fn hint(&mut self, i: usize, h: &str, cat: Cat) {
        let t = self.gap_text(Some(i), h, self.head());
        self.put(&t, cat);
    }
    fn nl_text(&mut self, w: &str, cat: Cat) {
        if w.starts_with('-') && self.out.ends_with('-') {
            self.put(" ", cat);
        }
        let mut p = std::mem::take(&mut self.out);
        self.nl_into(&mut p, w);
        self.out = p;
        self.put("", cat);
    }
    fn nl(&mut self, cond: bool, i: usize, h: &str, cat: Cat) {
        if cond {
            let w = self.gap_text(Some(i), "", ' ');
            self.nl_text(&w, cat);
        } else {
            self.hint(i, h, cat);
        }
    }
    fn text(&mut self, s: &str, tok: Option<usize>) {
        self.sh.borrow_mut().steps += 1;
        if self.rec {
            let at = self.gap_at.min(self.out.len());
            let gap = self.out[at..].to_string();
            let comments = tok.map_or(false, |t| self.a.lx.comments.iter().any(|c| c.gap == t));
            self.pieces.push(Piece { gap, text: s.to_string(), cat: self.cat, tok, comments });
        }
        self.out.push_str(s);
        self.gap_at = self.out.len();
        self.cat = Cat::Inline;
    }
    fn tok(&mut self, i: usize) {
        let s = self.t(i);
        if self.o.convert && s.starts_with('\'') {
            return self.text(&converted(s), Some(i));
        }
        self.text(s, Some(i));
    }
    fn inc(&mut self, o: Option<&'a str>) {
        if o.is_none() || self.stack.last() != Some(&o) {
            self.level += 1;
        }
        self.stack.push(o);
    }
    fn dec(&mut self) {
        let o = self.stack.pop().unwrap();
        if o.is_none() || self.stack.last() != Some(&o) {
            self.level -= 1;
        }
    }
    fn stop(&self) -> bool {
        self.sh.borrow().steps > STEP_LIMIT
    }

    fn chunk(&mut self) {
        let t = self.gap_text(None, "", ' ');
        self.put(&t, Cat::Ends);
        let root = &self.a.root;
        let b = root.kids.last().unwrap();
        let n = self.a.lx.toks.len();
        let eof = self.o.eof;
        if self.a.lx.toks[0].k == K::Shebang {
            self.tok(0);
            self.put("\n", Cat::Ends);
            if n > 2 {
                self.hint(0, "", Cat::Ends);
            }
        }
        self.block(b);
        if n > 1 {
            self.nl(eof, n - 2, "", Cat::Ends);
        } else if eof {
            self.nl_text("", Cat::Ends);
        }
        self.cat = Cat::Ends;
        self.text("", Some(n - 1));
    }

    fn block(&mut self, b: &'a Node) {
        let nl = self.o.stat.is_some();
        for (i, s) in b.kids.iter().enumerate() {
            if i > 0 {
                // a semicolon before a statement that starts with a bracket goes with that statement
                let pair = b.kids.get(i + 1).map_or(false, |n| self.t(n.s) == "(" && n.k != NK::Return);
                let h = if s.k == NK::Semi && !pair { "" } else { " " };
                self.nl(nl, s.s - 1, h, Cat::Block);
            }
            self.stat(s);
        }
    }

    /// a block between tokens `open` and `close`, with the gaps around it
    fn body(&mut self, b: &'a Node, open: usize, nl: bool, nl_empty: bool) {
        if b.kids.is_empty() {
            return self.nl(nl && nl_empty, open, " ", Cat::Block);
        }
        self.inc(None);
        self.nl(nl, open, " ", Cat::Block);
        self.block(b);
        self.dec();
        self.nl(nl, b.e - 1, " ", Cat::Block);
    }

    fn stat(&mut self, n: &'a Node) {
        let o = &n.own;
        if self.stop() {
            return;
        }
        match n.k {
            NK::Semi | NK::Break => self.tok(o[0]),
            NK::Label => {
                self.tok(o[0]);
                self.hint(o[0], "", Cat::Inline);
                self.tok(o[1]);
                self.hint(o[1], "", Cat::Inline);
                self.tok(o[2]);
            }
            NK::Goto => {
                self.tok(o[0]);
                self.hint(o[0], " ", Cat::Inline);
                self.tok(o[1]);
            }
            NK::Do => {
                self.tok(o[0]);
                self.body(&n.kids[0], o[0], self.o.do_ == Some(1), false);
                self.tok(o[1]);
            }
            NK::While => {
                self.tok(o[0]);
                self.hint(o[0], " ", Cat::Inline);
                self.exp(&n.kids[0]);
                self.hint(o[1] - 1, " ", Cat::Inline);
                self.tok(o[1]);
                self.body(&n.kids[1], o[1], self.o.wh == Some(1), true);
                self.tok(o[2]);
            }
            NK::Repeat => {
                self.tok(o[0]);
                self.body(&n.kids[0], o[0], self.o.rep == Some(1), true);
                self.tok(o[1]);
                self.hint(o[1], " ", Cat::Inline);
                self.exp(&n.kids[1]);
            }
            NK::If => {
                let o2 = &*self.o;
                if o2.width.is_some() && o2.f_if && o2.if_.is_some() && self.span(n.s, n.e) < 2 * o2.width.unwrap() {
                    let o3 = O { if_: None, ..o2.clone() };
                    if self.collapse(o3, &|m| m.stat(n)) {
                        return;
                    }
                }
                let nl = self.o.if_ == Some(1);
                // own: if then (elseif then)* [else] end; kids: e b (e b)* [b]
                let mut ki = 0;
                let mut i = 0;
                while i < o.len() {
                    let w = self.t(o[i]);
                    self.tok(o[i]);
                    match w {
                        "if" | "elseif" => {
                            self.hint(o[i], " ", Cat::Inline);
                            self.exp(&n.kids[ki]);
                            ki += 1;
                            self.hint(o[i + 1] - 1, " ", Cat::Inline);
                        }
                        "then" | "else" => {
                            // an empty first branch is not kept apart from `else`
                            let last_else = i == 1 && self.t(o[2]) == "else";
                            self.body(&n.kids[ki], o[i], nl, !last_else);
                            ki += 1;
                        }
                        _ => {}
                    }
                    i += 1;
                }
            }
            NK::ForNum => {
                let step = n.kids.len() == 4;
                self.tok(o[0]);
                self.hint(o[0], " ", Cat::Inline);
                self.tok(o[1]);
                self.hint(o[1], " ", Cat::Inline);
                self.tok(o[2]);
                self.hint(o[2], " ", Cat::Inline);
                self.exp(&n.kids[0]);
                self.hint(o[3] - 1, "", Cat::Inline);
                self.tok(o[3]);
                self.hint(o[3], " ", Cat::Inline);
                self.exp(&n.kids[1]);
                let mut d = 4;
                if step {
                    self.hint(o[4] - 1, "", Cat::Inline);
                    self.tok(o[4]);
                    self.hint(o[4], " ", Cat::Inline);
                    self.exp(&n.kids[2]);
                    d = 5;
                }
                self.hint(o[d] - 1, " ", Cat::Inline);
                self.tok(o[d]);
                self.body(n.kids.last().unwrap(), o[d], self.o.for_ == Some(1), step);
                self.tok(o[d + 1]);
            }
            NK::ForIn => {
                self.tok(o[0]);
                self.hint(o[0], " ", Cat::Inline);
                self.names(&n.kids[0]);
                self.hint(o[1] - 1, " ", Cat::Inline);
                self.tok(o[1]);
                self.explist(&n.kids[1], o[1], " ");
                self.hint(o[2] - 1, " ", Cat::Inline);
                self.tok(o[2]);
                self.body(&n.kids[2], o[2], self.o.for_ == Some(1), true);
                self.tok(o[3]);
            }
            NK::Func => {
                self.tok(o[0]);
                self.hint(o[0], " ", Cat::Inline);
                let f = &n.kids[0];
                for (k, &i) in f.own.iter().enumerate() {
                    if k > 0 {
                        self.hint(i - 1, "", Cat::Inline);
                    }
                    self.tok(i);
                }
                self.hint(f.e - 1, "", Cat::Inline);
                self.funcbody(&n.kids[1]);
            }
            NK::LocalFunc => {
                self.tok(o[0]);
                self.hint(o[0], " ", Cat::Inline);
                self.tok(o[1]);
                self.hint(o[1], " ", Cat::Inline);
                self.tok(o[2]);
                self.hint(o[2], "", Cat::Inline);
                self.funcbody(&n.kids[0]);
            }
            NK::Local => {
                self.tok(o[0]);
                self.hint(o[0], " ", Cat::Inline);
                self.names(&n.kids[0]);
                if n.kids.len() > 1 {
                    self.hint(o[1] - 1, " ", Cat::Inline);
                    self.tok(o[1]);
                    self.explist(&n.kids[1], o[1], " ");
                }
            }
            NK::Assign => {
                let v = &n.kids[0];
                for (i, k) in v.kids.iter().enumerate() {
                    if i > 0 {
                        self.hint(v.own[i - 1] - 1, "", Cat::Inline);
                        self.tok(v.own[i - 1]);
                        self.hint(v.own[i - 1], " ", Cat::Inline);
                    }
                    self.exp(k);
                }
                self.hint(o[0] - 1, " ", Cat::Inline);
                self.tok(o[0]);
                self.explist(&n.kids[1], o[0], " ");
            }
            NK::CallStat => self.exp(&n.kids[0]),
            NK::Return => {
                self.tok(o[0]);
                let semi = o.get(1).copied();
                if let Some(e) = n.kids.get(0) {
                    self.explist_(e, o[0], " ", semi);
                } else if let Some(i) = semi {
                    self.hint(i - 1, "", Cat::Inline);
                }
                if let Some(i) = semi {
                    self.tok(i);
                }
            }
            k => panic!("statement {:?}", k),
        }
    }

    fn names(&mut self, n: &'a Node) {
        for (k, &i) in n.own.iter().enumerate() {
            if k > 0 {
                self.hint(i - 1, if self.t(i) == "," { "" } else { " " }, Cat::Inline);
            }
            self.tok(i);
        }
    }

    fn funcbody(&mut self, n: &'a Node) {
        let o = &n.own;
        let o2 = &*self.o;
        let forced = if self.nested == 0 { o2.f_top } else { o2.f_fun };
        if forced && o2.width.is_some() && o2.fun.is_some() && self.span(n.s, n.e) < 2 * o2.width.unwrap() {
            let o3 = O { fun: None, ..o2.clone() };
            if self.collapse(o3, &|m| m.funcbody(n)) {
                return;
            }
        }
        self.tok(o[0]);
        let params = !n.kids[0].own.is_empty();
        if params {
            self.inc(None);
        }
        self.hint(o[0], "", Cat::Inline);
        if params {
            self.names(&n.kids[0]);
            self.hint(o[1] - 1, "", Cat::Inline);
            self.dec();
        }
        self.tok(o[1]);
        let nl = self.o.fun == Some(1);
        let some = !n.kids[1].kids.is_empty();
        if some {
            self.nested += 1;
        }
        let b = &n.kids[1];
        if some {
            self.inc(None);
            self.nl(nl, o[1], " ", Cat::Block);
            self.block(b);
            self.dec();
            self.nested -= 1;
            self.nl(nl, b.e - 1, " ", Cat::Block);
        } else {
            self.nl(nl, o[1], " ", Cat::Block);
        }
        self.tok(o[2]);
    }

    fn list_may(&self) -> bool {
        self.o.list.is_some() || self.o.first.is_some()
    }
    fn list_nl(&self, e: &'a Node) -> bool {
        if !self.list_may() {
            return false;
        }
        if e.k == NK::Table && !e.kids.is_empty() && self.o.el_table == Some(true) && self.o.ml_table == Some(false) {
            return true;
        }
        self.o.list == Some(1) && !(self.o.f_list && self.one_line(&|m| m.exp(e)))
    }
    /// the elements of an expression list; was any put on a new line?
    fn list_items(&mut self, n: &'a Node) -> bool {
        let mut any = false;
        for (i, e) in n.kids.iter().enumerate() {
            if i > 0 {
                let sep = n.own[i - 1];
                self.hint(sep - 1, "", Cat::List);
                self.tok(sep);
                let nl = self.list_nl(e);
                any = any || nl;
                self.nl(nl, sep, " ", Cat::List);
            } else {
                let nl = self.list_may() && self.o.first == Some(1) && !(self.o.f_list && self.one_line(&|m| m.exp(e)));
                any = any || nl;
                if nl {
                    self.nl_text("", Cat::List);
                }
            }
            self.exp(e);
        }
        any
    }

    /// an expression list with the gap before it
    fn explist(&mut self, n: &'a Node, before: usize, h: &str) {
        self.explist_(n, before, h, None)
    }
    /// `semi`: the semicolon after the list; the gap before it goes with the list
    fn explist_(&mut self, n: &'a Node, before: usize, h: &str, semi: Option<usize>) {
        let ind = if n.kids.len() == 1 && self.o.first.is_none() {
            self.o.ind_list && self.o.ind_one_list
        } else {
            self.o.ind_list
                && (self.o.ind_one_list || {
                    let mut m = self.scratch(true);
                    m.hint(before, h, Cat::List);
                    m.list_items(n)
                })
        };
        if ind {
            self.inc(None);
        }
        self.hint(before, h, Cat::List);
        self.list_items(n);
        if let Some(i) = semi {
            self.hint(i - 1, "", Cat::Inline);
        }
        if ind {
            self.dec();
        }
    }

    fn bracket_hint(&self, e: &Node) -> &'static str {
        match e.k {
            NK::Bin => self.bracket_hint(&e.kids[0]),
            NK::Atom if matches!(self.a.lx.toks[e.s].k, K::Long(_)) => " ",
            _ => "",
        }
    }

    fn suffix_nl(&self, s: &'a Node) -> bool {
        if self.o.suf.is_none() || !matches!(s.k, NK::Member | NK::Method) {
            return false;
        }
        if !self.o.f_suf {
            return true;
        }
        if s.k == NK::Method {
            let args = &s.kids[0];
            let table = args.own.is_empty() && args.kids[0].k == NK::Table;
            let empty = args.kids.is_empty();
            if table || empty || !args.own.is_empty() && self.o.first.is_some() {
                return !self.one_line(&|m| {
                    m.tok(s.own[0]);
                    m.hint(s.own[0], "", Cat::Inline);
                    m.tok(s.own[1]);
                });
            }
        }
        !self.one_line(&|m| m.suffix(s))
    }
    fn suffixes(&mut self, n: &'a Node) -> bool {
        let mut any = false;
        for (i, s) in n.kids.iter().enumerate().skip(1) {
            let cat = if matches!(s.k, NK::Member | NK::Method) { Cat::Suffix } else { Cat::Inline };
            let nl = self.suffix_nl(s);
            any = any || nl;
            if i == 1 {
                if nl {
                    self.nl_text("", cat);
                }
            } else {
                let str_arg = s.k == NK::Args && s.own.is_empty() && s.kids[0].k == NK::Atom;
                self.nl(nl, s.s - 1, if str_arg { " " } else { "" }, cat);
            }
            self.suffix(s);
        }
        any
    }

    fn exp(&mut self, n: &'a Node) {
        let o = &n.own;
        if self.stop() {
            return;
        }
        match n.k {
            NK::Atom => self.tok(n.s),
            NK::Bin => {
                let op = self.t(o[0]);
                self.inc(Some(op));
                self.exp(&n.kids[0]);
                let mut f = self.o.op;
                if (f == Some(1) || f == Some(2)) && self.o.f_op {
                    let r = &n.kids[1];
                    let i = o[0];
                    if self.one_line(&|m| {
                        m.hint(i - 1, " ", Cat::Op);
                        m.tok(i);
                        m.hint(i, " ", Cat::Op);
                        m.exp(r);
                    }) {
                        f = None;
                    }
                }
                self.nl(f == Some(1), o[0] - 1, " ", Cat::Op);
                self.tok(o[0]);
                self.nl(f == Some(2), o[0], " ", Cat::Op);
                self.exp(&n.kids[1]);
                self.dec();
            }
            NK::Un => {
                self.tok(o[0]);
                let h = if self.t(o[0]) == "not" { " " } else { "" };
                self.hint(o[0], h, Cat::Inline);
                self.exp(&n.kids[0]);
            }
            NK::Paren => {
                self.tok(o[0]);
                self.hint(o[0], "", Cat::Inline);
                self.exp(&n.kids[0]);
                self.hint(o[1] - 1, "", Cat::Inline);
                self.tok(o[1]);
            }
            NK::Suffixed => {
                self.exp(&n.kids[0]);
                let first = &n.kids[1];
                let cat = if matches!(first.k, NK::Member | NK::Method) { Cat::Suffix } else { Cat::Inline };
                let ind = self.o.ind_suffix
                    && (self.o.ind_one_suffix || {
                        let mut m = self.scratch(true);
                        m.hint(first.s - 1, "", cat);
                        m.suffixes(n)
                    });
                if ind {
                    self.inc(None);
                }
                self.hint(first.s - 1, "", cat);
                self.suffixes(n);
                if ind {
                    self.dec();
                }
            }
            NK::FuncExpr => {
                self.tok(o[0]);
                self.hint(o[0], "", Cat::Inline);
                self.funcbody(&n.kids[0]);
            }
            NK::Table => self.table(n),
            k => panic!("expression {:?}", k),
        }
    }

    fn suffix(&mut self, s: &'a Node) {
        let o = &s.own;
        match s.k {
            NK::Member => {
                self.tok(o[0]);
                self.hint(o[0], "", Cat::Inline);
                self.tok(o[1]);
            }
            NK::Index => {
                self.tok(o[0]);
                self.hint(o[0], self.bracket_hint(&s.kids[0]), Cat::Inline);
                self.exp(&s.kids[0]);
                self.hint(o[1] - 1, "", Cat::Inline);
                self.tok(o[1]);
            }
            NK::Method => {
                self.tok(o[0]);
                self.hint(o[0], "", Cat::Inline);
                self.tok(o[1]);
                self.hint(o[1], "", Cat::Inline);
                self.suffix(&s.kids[0]);
            }
            NK::Args => {
                if o.is_empty() {
                    return self.exp(&s.kids[0]);
                }
                self.tok(o[0]);
                if s.kids.is_empty() {
                    self.hint(o[0], "", Cat::Inline);
                } else {
                    self.explist(&s.kids[0], o[0], "");
                    self.hint(o[1] - 1, "", Cat::List);
                }
                self.tok(o[1]);
            }
            k => panic!("suffix {:?}", k),
        }
    }

    fn positional(n: &Node) -> bool {
        n.kids.iter().all(|f| f.k == NK::FieldPos)
    }

    fn field_fits(&self, f: &'a Node, alone: bool) -> bool {
        match self.o.width {
            Some(w) => self.o.field.is_some() && self.span(f.s, f.e) < 2 * w && self.one_line_no_nl(&|m| m.field_(f, alone)),
            None => false,
        }
    }

    fn first_field_nl(&self, n: &'a Node, only: bool) -> bool {
        if self.o.field.is_none() {
            return false;
        }
        let iv = Self::positional(n);
        if self.o.f_tbl && iv && self.o.f_iv {
            return self.sh.borrow().indented.contains(&n.s) || !only;
        }
        if self.o.f_iv && iv || self.o.f_kv && !iv {
            return !self.field_fits(&n.kids[0], n.kids.len() == 1);
        }
        true
    }

    fn field_nl(&self, n: &'a Node, i: usize) -> bool {
        if self.o.field.is_none() {
            return false;
        }
        let iv = Self::positional(n);
        let alone = false;
        let f = &n.kids[i];
        if iv && self.o.f_iv {
            if self.o.f_tbl {
                let fits = |f: &'a Node| self.one_line_no_nl(&|m| m.field_(f, alone));
                let prev = &n.kids[i - 1].kids[0];
                if prev.k == NK::Table && !prev.kids.is_empty() {
                    let one = self.sh.borrow().one_line.contains(&prev.s);
                    return one || fits(f);
                }
                return !fits(f);
            }
            return false;
        }
        if self.o.f_kv && !iv {
            return !self.field_fits(f, false);
        }
        true
    }

    fn fields(&mut self, n: &'a Node, only: bool) -> bool {
        let o = &n.own;
        let mut any = false;
        let sep_cfg = self.o.sep.clone();
        for (i, f) in n.kids.iter().enumerate() {
            if i > 0 {
                let sep = o[i];
                self.hint(sep - 1, "", Cat::Table);
                let s = sep_cfg.clone().unwrap_or(self.t(sep).to_string());
                self.text(&s, Some(sep));
                let nl = self.field_nl(n, i);
                any = any || nl;
                self.nl(nl, sep, " ", Cat::Table);
            } else {
                let nl = self.first_field_nl(n, only);
                any = any || nl;
                if nl {
                    self.nl_text("", Cat::Table);
                }
            }
            self.field_(f, n.kids.len() == 1);
        }
        // the last separator
        let src_sep = if o.len() == n.kids.len() + 2 { Some(o[n.kids.len()]) } else { None };
        if let Some(s) = src_sep {
            self.hint(s - 1, "", Cat::Table);
        }
        let iv = Self::positional(n);
        let none = self.o.f_tbl
            && (self.o.field.is_none() && self.o.tbl.is_none() || iv && !self.sh.borrow().indented.contains(&n.s));
        let want = if none { false } else { self.o.trail.unwrap_or(src_sep.is_some()) };
        if want {
            let s = sep_cfg.unwrap_or(src_sep.map_or("", |s| self.t(s)).to_string());
            if !s.is_empty() {
                self.cat = Cat::Table;
                self.text(&s, src_sep);
            }
        }
        any
    }

    fn table(&mut self, n: &'a Node) {
        self.table_(n, true)
    }

    /// `only`: not one of several positional fields of a table
    fn table_(&mut self, n: &'a Node, only: bool) {
        let o = &n.own;
        let (open, close) = (o[0], *o.last().unwrap());
        let h = self.o.table_hint.clone();
        if n.kids.is_empty() {
            self.tok(open);
            let mut m = self.scratch(false);
            m.hint(open, &h, Cat::Table);
            self.nl(m.out.contains('\n'), open, &h, Cat::Table);
            return self.tok(close);
        }
        let o2 = &*self.o;
        if o2.f_tbl && o2.width.is_some() && o2.tbl.is_some() && self.span(n.s, n.e) < 2 * o2.width.unwrap() {
            let o3 = O { tbl: None, field: None, trail: Some(false), ml_table: Some(false), el_table: Some(false), ..o2.clone() };
            if self.collapse(o3, &|m| m.table_(n, only)) {
                self.sh.borrow_mut().one_line.insert(n.s);
                return;
            }
        }
        if self.o.ml_table == Some(true) && !self.sh.borrow().one_line.contains(&n.s) {
            self.nl_text("", Cat::Table);
        }
        self.tok(open);
        self.nested += 1;
        let ind = if self.o.f_tbl && Self::positional(n) && only {
            let mut m = self.scratch(true);
            m.hint(open, &h, Cat::Table);
            m.fields(n, only)
        } else {
            true
        };
        if ind {
            self.sh.borrow_mut().indented.insert(n.s);
            self.inc(None);
        } else {
            self.sh.borrow_mut().indented.remove(&n.s);
        }
        self.hint(open, &h, Cat::Table);
        self.fields(n, only);
        let long = self.o.width.map_or(false, |w| self.col() >= w);
        if ind {
            self.dec();
        }
        self.nested -= 1;
        self.nl((self.o.tbl == Some(1) || long) && ind, close - 1, &h, Cat::Table);
        self.tok(close);
    }

    fn field_(&mut self, f: &'a Node, alone: bool) {
        let o = &f.own;
        match f.k {
            NK::FieldPos if f.kids[0].k == NK::Table => self.table_(&f.kids[0], alone),
            NK::FieldPos => self.exp(&f.kids[0]),
            NK::FieldName => {
                self.tok(o[0]);
                self.hint(o[0], " ", Cat::Table);
                self.tok(o[1]);
                self.hint(o[1], " ", Cat::Table);
                self.exp(&f.kids[0]);
            }
            NK::FieldBr => {
                self.tok(o[0]);
                self.hint(o[0], self.bracket_hint(&f.kids[0]), Cat::Table);
                self.exp(&f.kids[0]);
                self.hint(o[1] - 1, "", Cat::Table);
                self.tok(o[1]);
                self.hint(o[1], " ", Cat::Table);
                self.tok(o[2]);
                self.hint(o[2], " ", Cat::Table);
                self.exp(&f.kids[1]);
            }
            k => panic!("field {:?}", k),
        }
    }
}

/// What of a gap is compared
#[derive(Clone, Copy, PartialEq)]
pub enum Part {
    /// everything, in every gap
    All,
    /// what follows the last comment
    Tail,
    /// everything, in gaps that hold comments in the input
    Comments,
}

/// the end of the last comment in a gap
fn tail(gap: &str) -> (usize, usize) {
    match crate::lex::lex(gap) {
        Ok(l) => (l.comments.len(), l.comments.last().map_or(0, |c| c.e)),
        Err(_) => (usize::MAX, 0),
    }
}

/// Compares a formatted text with the prediction; the first difference in a gap of one of `cats` is reported.
/// Also returns how many gaps of these categories held a newline.
pub fn compare(pred: &[Piece], out: &An, cats: &[Cat], part: Part) -> Result<(usize, usize), String> {
    let toks = &out.lx.toks;
    let mut at = 0;
    let (mut seen, mut nls) = (0, 0);
    for (i, p) in pred.iter().enumerate() {
        let t = match toks.get(i) {
            Some(t) => t,
            None => return Err(format!("`{}` is missing at the end", p.text)),
        };
        let mut gap = &out.src[at..t.s];
        let mut want = &p.gap[..];
        let text = &out.src[t.s..t.e];
        at = t.e;
        if cats.contains(&p.cat) && (part != Part::Comments || p.comments) {
            if part == Part::Tail && p.comments {
                let (x, y) = (tail(want), tail(gap));
                if x.0 != y.0 {
                    // comments lost or made: not for this check to say
                    gap = want;
                } else {
                    want = &want[x.1..];
                    gap = &gap[y.1..];
                }
            }
            seen += 1;
            if want.contains('\n') {
                nls += 1;
            }
            if gap != want {
                return Err(format!(
                    "before `{}` (token {}, {:?}): {:?} expected, {:?} found, in {}",
                    p.text,
                    i,
                    p.cat,
                    want,
                    gap,
                    crate::oracle::clip(&out.src, t.s)
                ));
            }
        }
        if text != p.text && !(matches!(t.k, K::Str(_)) && p.text.starts_with('\'')) {
            if cats.contains(&Cat::Table) && (text == "," || text == ";" || p.text == "," || p.text == ";") {
                return Err(format!("`{}` expected, `{}` found, in {}", p.text, text, crate::oracle::clip(&out.src, t.s)));
            }
            return Err(format!("TOKENS `{}` expected, `{}` found", p.text, text));
        }
    }
    Ok((seen, nls))
}
