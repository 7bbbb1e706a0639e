//! One generator and one oracle per property that is decided in-process.
use crate::cfgs::{self, get, on, set, unset, Cfg};
use crate::gen::{self, GenOpts, RenderOpts, Style};
use crate::layout::{self, Cat, Part};
use crate::meta;
use crate::lex::{self, K};
use crate::oracle::*;
use crate::parse::{self, NK};
use crate::rng::Rng;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub src: String,
    pub cfg: Cfg,
    pub aux: Vec<(String, String)>,
}

impl Case {
    pub fn aux(&self, k: &str) -> &str {
        self.aux.iter().find(|(n, _)| n == k).map_or("", |(_, v)| &v[..])
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        if !self.cfg.is_empty() {
            s.push_str(&format!("{}\n", cfgs::to_string(&self.cfg)));
        }
        for (k, v) in &self.aux {
            s.push_str(&format!("{}={}\n", k, v));
        }
        s.push_str(&self.src);
        s
    }
}

pub enum Verdict {
    /// held; `key` names the case when it was a non-trivial one
    Held { key: Option<u64>, tags: Vec<(String, u64)> },
    Skip(String),
    Bad(String),
}

pub fn held(nontrivial: bool, c: &Case) -> Verdict {
    held_tags(nontrivial, c, vec![])
}
pub fn held_tags(nontrivial: bool, c: &Case, tags: Vec<(&str, u64)>) -> Verdict {
    let mut h = DefaultHasher::new();
    c.src.hash(&mut h);
    c.cfg.hash(&mut h);
    c.aux.hash(&mut h);
    Verdict::Held { key: if nontrivial { Some(h.finish()) } else { None }, tags: tags.into_iter().map(|(k, v)| (k.to_string(), v)).collect() }
}
pub fn skip(s: &str) -> Verdict {
    Verdict::Skip(s.to_string())
}

pub const LIB: [&str; 28] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C17", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
    "C29", "C30", "C31", "C32", "C34", "C35",
];

/// How deep brackets and functions are nested in one another (blocks do not count). The single-line options take time
/// that grows exponentially with it: a recorded finding, kept out of the other checks' way.
pub fn nesting(src: &str) -> usize {
    let l = match lex::lex_with(src, true) {
        Ok(l) => l,
        Err(_) => return 0,
    };
    let mut st: Vec<bool> = vec![];
    let mut m = 0;
    for i in 0..l.toks.len() {
        match l.text(src, i) {
            "(" | "{" | "[" | "function" => st.push(true),
            "do" | "then" | "repeat" => st.push(false),
            ")" | "}" | "]" | "end" | "until" | "elseif" | "else" => {
                st.pop();
                if l.text(src, i) == "else" {
                    st.push(false);
                }
            }
            _ => {}
        }
        m = m.max(st.iter().filter(|b| **b).count());
    }
    m
}

// ---------------------------------------------------------------- generators

fn no_comments(r: &mut Rng) -> String {
    let o = GenOpts::random(r);
    let mut ro = RenderOpts::random(r);
    ro.comments = 0;
    gen::program_with(r, o, ro)
}

/// with comments now and then
fn some_comments(r: &mut Rng) -> String {
    if r.chance(1, 4) {
        with_comments(r)
    } else {
        no_comments(r)
    }
}

fn with_comments(r: &mut Rng) -> String {
    let o = GenOpts::random(r);
    let mut ro = RenderOpts::random(r);
    ro.comments = *r.pick(&[30, 100, 200, 500]);
    gen::program_with(r, o, ro)
}

/// a configuration that the reference layout describes, biased to those that lay everything out
pub fn layout_cfg(r: &mut Rng, collapse: bool) -> Cfg {
    let mut c = cfgs::random_safe_cfg(r);
    if r.chance(1, 2) {
        // a full layout
        for k in ["newline_format_statement", "newline_format_do_end", "newline_format_for", "newline_format_function", "newline_format_if",
            "newline_format_repeat_until", "newline_format_while", "newline_format_table_constructor", "newline_format_table_field"] {
            if r.chance(5, 6) {
                set(&mut c, k, "1");
            }
        }
        set(&mut c, "replace_zero_spaces_with_hint", "true");
        set(&mut c, "remove_spaces_between_tokens", "true");
        set(&mut c, if r.chance(1, 2) { "remove_all_newlines" } else { "remove_single_newlines" }, "true");
        if get(&c, "indentation_string").map_or(true, |s| s.is_empty()) {
            set(&mut c, "indentation_string", "    ");
        }
    }
    unset(&mut c, "line_range");
    if !layout::describes(&c) {
        unset(&mut c, "field_separator");
    }
    if collapse {
        if get(&c, "max_width").is_none() || r.chance(1, 2) {
            let w = r.range(10, 120).to_string();
            set(&mut c, "max_width", &w);
        }
        if r.chance(1, 2) {
            for (k, _) in cfgs::OPTIONS.iter() {
                if k.starts_with("force_single_line") && r.chance(2, 3) {
                    set(&mut c, k, "true");
                }
            }
        }
    } else {
        c.retain(|(k, _)| k != "max_width" && !k.starts_with("force_single_line"));
    }
    c
}

/// options without any effect of their own
fn neutral_cfg(r: &mut Rng) -> Cfg {
    let mut c: Cfg = vec![];
    if r.chance(1, 2) {
        return c;
    }
    for _ in 0..r.range(1, 5) {
        match r.below(5) {
            0 => {
                let k = *r.pick(&["remove_comments", "remove_single_newlines", "remove_all_newlines", "remove_spaces_between_tokens",
                    "replace_zero_spaces_with_hint", "write_newline_at_eof", "convert_charstring_to_normalstring", "indent_var_suffix",
                    "indent_exp_list", "write_newline_at_multiline_table"]);
                set(&mut c, k, "false");
            }
            1 => {
                let k = *r.pick(&["indent_var_suffix", "indent_one_line_var_suffix", "indent_exp_list", "indent_one_line_exp_list"]);
                set(&mut c, k, "true");
            }
            2 | 3 => set(&mut c, "indentation_string", *r.pick(&["    ", "\t", ""])),
            _ => {
                let k = *r.pick(&["force_single_line_binary_op", "force_single_line_if", "force_single_line_top_level_function",
                    "force_single_line_scoped_function", "force_single_line_var_suffix", "force_single_line_exp_list"]);
                set(&mut c, k, *r.pick(&["true", "false"]));
            }
        }
    }
    c
}

fn range_aux(r: &mut Rng, src: &str) -> Vec<(String, String)> {
    let lines = src.matches('\n').count() + 1;
    let x = if r.chance(1, 10) { 1 } else { r.range(1, lines) };
    let y = if r.chance(1, 10) { lines } else if r.chance(1, 4) { r.range(x, lines) } else { r.range(x, lines.min(x + 4)) };
    vec![("a".into(), x.to_string()), ("b".into(), y.to_string())]
}

/// Something that may or may not be Lua.
fn any_text(r: &mut Rng) -> String {
    let base = gen::random_program(r);
    match r.below(8) {
        0 => base,
        1 => {
            // cut anywhere
            let mut k = r.below(base.len() + 1);
            while !base.is_char_boundary(k) {
                k -= 1;
            }
            base[..k].to_string()
        }
        2 | 3 => {
            // characters put in, taken out, changed
            let mut v: Vec<char> = base.chars().collect();
            for _ in 0..r.range(1, 6) {
                let c = *r.pick(&['\0', '\r', '\n', ' ', '[', ']', '=', '-', '"', '\'', '\\', '#', '!', '(', ')', '{', '}', ';', '.', '~', '0', 'x', 'e', 'п',
                    '🙂', '\u{feff}', '\u{2028}', '@', '$', '?', '`', '\t', '\u{b}', '\u{301}']);
                let k = r.below(v.len() + 1);
                match r.below(3) {
                    0 => v.insert(k, c),
                    1 if k < v.len() => v[k] = c,
                    _ if k < v.len() => {
                        v.remove(k);
                    }
                    _ => v.push(c),
                }
            }
            v.into_iter().collect()
        }
        4 => {
            // tokens in any order
            let l = match lex::lex(&base) {
                Ok(l) => l,
                Err(_) => return base,
            };
            let mut t: Vec<&str> = l.toks.iter().map(|t| &base[t.s..t.e]).collect();
            for _ in 0..r.range(1, 8) {
                let (i, j) = (r.below(t.len()), r.below(t.len()));
                match r.below(3) {
                    0 => t.swap(i, j),
                    1 => {
                        let x = t[i];
                        t.insert(j, x)
                    }
                    _ => {
                        if t.len() > 1 {
                            t.remove(i);
                        }
                    }
                }
            }
            t.join(r.pick(&[" ", "\n", ""]))
        }
        5 => {
            // soup
            let n = r.below(60);
            (0..n)
                .map(|_| {
                    *r.pick(&["[[", "]]", "[=[", "]=]", "--", "--[[", "--[=[", "\n", " ", "a", "1", "0x", "..", "...", ".", "\"", "'", "\\", "{", "}", "(", ")",
                        "end", "function", "=", "==", "~", "::", ":", ";", ",", "local", "return", "ж", "🙂", "\r", "#!", "if", "then", "not", "-", "e+", "\u{a0}"])
                })
                .collect()
        }
        6 => {
            let n = r.below(40);
            (0..n).map(|_| char::from_u32(r.below(0x2000) as u32).unwrap_or('x')).collect()
        }
        _ => {
            // only comments and white space
            let mut s = String::new();
            for _ in 0..r.below(6) {
                s.push_str(&gen::comment(r, true, true, false));
                s.push_str(*r.pick(&["\n", "", " ", "\n\n", "\r\n"]));
            }
            s
        }
    }
}

fn any_cfg(r: &mut Rng) -> Cfg {
    let mut c = cfgs::random_cfg(r);
    if r.chance(1, 10) {
        let (k, _) = *r.pick(&cfgs::OPTIONS[..]);
        set(&mut c, k, *r.pick(&["", "x", "-1", "0", "2", "255", "256", "99999999999999999999", "18446744073709551615", "true", "привет", "\n", "--", "]]"]));
    }
    if r.chance(1, 6) {
        for _ in 0..r.range(1, 3) {
            let k = *r.pick(&["hint_after_multiline_comment", "hint_after_multiline_comment_text", "hint_before_comment",
                "hint_before_multiline_comment_text", "hint_before_oneline_comment_text", "hint_table_constructor",
                "indentation_string", "field_separator"]);
            set(&mut c, k, *r.pick(&["é", "🙂 ", "ж\n", "\n", "\r", "\u{a0}", "--", "-", "]", "[[", "--[[", "  \t", "x"]));
        }
        if r.chance(1, 2) {
            set(&mut c, "replace_zero_spaces_with_hint", "true");
        }
    }
    if r.chance(1, 4) {
        let v = match r.below(6) {
            0 => "0:0".to_string(),
            1 => "5:1".to_string(),
            2 => "1:100000".to_string(),
            3 => r.pick(&["", ":", "1:", ":1", "a:b", "1:2:3", "-1:2", "18446744073709551615:18446744073709551615", "1:99999999999999999999"]).to_string(),
            _ => {
                let a = r.range(1, 12);
                format!("{}:{}", a, a + r.below(6))
            }
        };
        set(&mut c, "line_range", &v);
    }
    c
}

pub fn case(id: &str, tier: &str, seed: u64, index: u64) -> Case {
    let fixed = crate::fixed::cases(id);
    if (index as usize) < fixed.len() {
        return fixed[index as usize].clone();
    }
    if is_cli(id) {
        let mut r = Rng::derive(seed, id, index);
        return if id == "C33" {
            crate::effort::random(&mut r)
        } else if id == "C18" {
            crate::cli::repeat_case(&mut r)
        } else {
            let mut c = crate::cli::scenario(id, &mut r).case();
            if id == "C28" {
                c.aux.push(("told".into(), "1".into()));
            }
            c
        };
    }
    let thorough = tier == "thorough";
    for attempt in 0..20 {
        let c = random_case(id, thorough, Rng::derive(seed, id, index + attempt * 1_000_000_007));
        if nesting(&c.src) <= 6 {
            return c;
        }
    }
    Case::default()
}

fn random_case(id: &str, thorough: bool, mut rr: Rng) -> Case {
    let r = &mut rr;
    let mut aux = vec![];
    let (src, cfg) = match id {
        "C01" | "C25" => (gen::random_program(r), cfgs::random_safe_cfg(r)),
        "C02" | "C21" => {
            let s = with_comments(r);
            let mut c = if id == "C21" && r.chance(1, 2) {
                let col = r.chance(1, 3);
                layout_cfg(r, col)
            } else {
                cfgs::random_safe_cfg(r)
            };
            unset(&mut c, "line_range");
            if r.chance(3, 4) {
                unset(&mut c, "remove_comments");
            }
            (s, c)
        }
        "C03" => {
            let mut o = GenOpts::random(r);
            o.plain_literals = false;
            o.ml_strings = r.chance(1, 2);
            o.tables = 1;
            o.calls = 4;
            let ro = RenderOpts::random(r);
            let s = gen::program_with(r, o, ro);
            let mut c = cfgs::random_safe_cfg(r);
            if r.chance(1, 2) {
                set(&mut c, "convert_charstring_to_normalstring", "true");
            }
            (s, c)
        }
        "C04" => (gen::random_program(r), neutral_cfg(r)),
        "C05" => {
            let s = gen::random_program(r);
            aux = range_aux(r, &s);
            (s, cfgs::random_safe_cfg(r))
        }
        "C06" => (any_text(r), any_cfg(r)),
        "C07" => {
            let mut o = GenOpts::random(r);
            o.wild = r.chance(1, 4);
            o.depth = r.range(0, 4);
            let ro = RenderOpts::random(r);
            let s = gen::program_with(r, o, ro);
            (s, if r.chance(1, 2) { vec![] } else { cfgs::random_safe_cfg(r) })
        }
        "C08" | "C27" => {
            let s = broken(r);
            (s, if r.chance(1, 2) { vec![] } else { cfgs::random_safe_cfg(r) })
        }
        "C09" => {
            let s = if r.chance(1, 2) { gen::random_program(r) } else { no_comments(r) };
            let tail = *r.pick(&["", "", " ", "\n", "\n\n", "\t \n ", "\r\n", "\n\n\n  ", ";", " -- c", " --[[c]]", "\n--[[c]] \n", "\n-- c\n\n"]);
            let s = format!("{}{}", s.trim_end(), tail);
            let mut c = cfgs::random_safe_cfg(r);
            if r.chance(2, 3) {
                set(&mut c, "write_newline_at_eof", "true");
            }
            (s, c)
        }
        "C12" | "C26" => {
            let s = some_comments(r);
            let col = id == "C26" && r.chance(1, 3);
            let mut c = layout_cfg(r, col);
            for k in ["replace_zero_spaces_with_hint", "remove_all_newlines", "remove_spaces_between_tokens"] {
                set(&mut c, k, "true");
            }
            (s, c)
        }
        "C17" => {
            let s = if r.chance(1, 2) { gen::random_program(r) } else { no_comments(r) };
            let mut c: Cfg = vec![];
            for k in ["remove_single_newlines", "remove_all_newlines", "remove_spaces_between_tokens", "remove_comments"] {
                if r.chance(2, 5) {
                    set(&mut c, k, *r.pick(&["true", "true", "true", "false"]));
                }
            }
            if c.is_empty() {
                set(&mut c, "remove_comments", "true");
            }
            set(&mut c, "replace_zero_spaces_with_hint", "true");
            (s, c)
        }
        "C22" => {
            let o = GenOpts::random(r);
            let mut ro = RenderOpts::random(r);
            ro.comments = if r.chance(1, 4) { *r.pick(&[15, 60]) } else { 0 };
            if r.chance(1, 2) {
                ro.style = Style::Compact;
            }
            let mut s = gen::program_with(r, o, ro.clone());
            if r.chance(1, 4) {
                let t = meta::typical(r);
                s = gen::rerender(r, &t, &ro).unwrap_or(s);
            }
            let mut c = layout_cfg(r, true);
            if r.chance(1, 2) {
                c = cfgs::shipped();
            }
            if r.chance(1, 3) {
                c.retain(|(k, _)| k != "max_width" && !k.starts_with("force_single_line"));
            } else {
                let n = An::new(&s).map(|a| meta::longest(&a)).unwrap_or(100);
                let w = ((n as f64) * [0.52, 0.6, 0.8, 1.5][r.below(4)]) as usize + 2;
                set(&mut c, "max_width", &w.to_string());
            }
            for k in ["replace_zero_spaces_with_hint", "remove_all_newlines", "remove_spaces_between_tokens"] {
                set(&mut c, k, "true");
            }
            aux.push(("seed".into(), r.below(1 << 30).to_string()));
            (s, c)
        }
        "C29" => meta::neighbours_case(r),
        "C34" => meta::no_trace_case(r),
        "C30" | "C31" | "C32" | "C35" => {
            let (s, c, x) = match id {
                "C30" => meta::depth_case(r),
                "C31" => meta::names_case(r),
                "C35" => meta::indentation_case(r),
                _ => meta::options_case(r),
            };
            aux = x;
            (s, c)
        }
        "C20" => (some_comments(r), layout_cfg(r, true)),
        _ => {
            let col = r.chance(1, 4);
            (some_comments(r), layout_cfg(r, col))
        }
    };
    let _ = thorough;
    Case { src, cfg, aux }
}

/// A program with one structural token lost or doubled, or a literal left open, or a character that no token has.
fn broken(r: &mut Rng) -> String {
    let mut o = GenOpts::random(r);
    o.ml_strings = false;
    let mut ro = RenderOpts::random(r);
    ro.comments = *r.pick(&[0, 0, 30]);
    let s = gen::program_with(r, o, ro);
    let l = match lex::lex(&s) {
        Ok(l) => l,
        Err(_) => return s,
    };
    const STRUCT: [&str; 18] = ["end", "then", "do", "(", ")", "{", "}", "[", "]", "until", "if", "while", "for", "function", "repeat", "=", "in", "elseif"];
    const POOL: [&str; 60] = [
        "and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil", "not", "or", "repeat", "return", "then", "true", "until",
        "while", "+", "-", "*", "/", "%", "^", "#", "&", "~", "|", "<<", ">>", "//", "==", "~=", "<=", ">=", "<", ">", "=", "(", ")", "{", "}", "[", "]", "::", ";", ":", ",",
        ".", "..", "...", "x", "1", "'s'", "\"s\"", "[[s]]",
    ];
    if l.toks.is_empty() {
        return format!("{}\nend", s);
    }
    for _ in 0..20 {
        let i = r.below(l.toks.len());
        let t = &l.toks[i];
        let tx = &s[t.s..t.e];
        match r.below(12) {
            0 | 1 if STRUCT.contains(&tx) => return format!("{} {}", &s[..t.s], &s[t.e..]),
            2 if STRUCT.contains(&tx) => return format!("{} {}", &s[..t.e], &s[t.s..]),
            3 if matches!(t.k, K::Str(_) | K::Long(_)) => {
                // left open, until the end of the text
                let mut k = t.e - 1;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                let body = &s[..k];
                return body.to_string();
            }
            4 => return format!("{} {} {}", &s[..t.s], r.pick(&["@", "$", "?", "`", "!", "&&", "||", "!=", "+=", "§", "[=", "[==x", "[===\n", "[=="]), &s[t.s..]),
            // inside of a token, or directly beside it
            5 if !matches!(t.k, K::Str(_) | K::Long(_)) => {
                let at = r.range(t.s, t.e);
                let ch = match r.below(3) {
                    0 => (*r.pick(&["@", "$", "?", "`", "!", "\\", "\"", "'", "[[", "--[["])).to_string(),
                    1 => (*r.pick(&["ä", "é", "ß", "Я", "日", "🙂", "\u{a0}", "\u{2003}", "\u{feff}", "\u{0}", "\u{7f}", "\u{1}", "\u{301}", "\u{2028}"])).to_string(),
                    _ => gen::any_char(r).to_string(),
                };
                return format!("{}{}{}", &s[..at], ch, &s[at..]);
            }
            // any token lost, doubled, replaced or added
            6 => return format!("{} {}", &s[..t.s], &s[t.e..]),
            7 => return format!("{} {}", &s[..t.e], &s[t.s..]),
            8 => return format!("{} {} {}", &s[..t.s], r.pick(&POOL), &s[t.e..]),
            9 => return format!("{} {} {}", &s[..t.s], r.pick(&POOL), &s[t.s..]),
            // a word that differs from a keyword by a letter's case, and the like
            10 if tx.len() > 1 && tx.bytes().all(|c| c.is_ascii_lowercase()) && lex::KEYWORDS.contains(&tx) => {
                let (x, y) = match r.below(3) {
                    0 => (tx.to_uppercase(), ""),
                    1 => (tx[..1].to_uppercase(), &tx[1..]),
                    _ => (tx.to_string(), "_"),
                };
                return format!("{}{}{}{}", &s[..t.s], x, y, &s[t.e..]);
            }
            // two tokens change places
            11 if i + 1 < l.toks.len() => {
                let u = &l.toks[i + 1];
                return format!("{} {}{}{} {}", &s[..t.s], &s[u.s..u.e], &s[t.e..u.s], tx, &s[u.e..]);
            }
            _ => {}
        }
    }
    format!("{}\nend", s)
}

// ---------------------------------------------------------------- oracles

/// Where a text stops being the beginning of a Lua program.
#[derive(Debug, PartialEq)]
enum Stop {
    /// a token, from character to character
    Token(usize, usize),
    /// a character that belongs to no token
    Char(usize, char),
    /// something that is left open
    Open,
}

/// By the manual, and by the looser rule for expressions as statements that the formatter has in places.
fn reference_stops(src: &str) -> Vec<Stop> {
    let chars = |b: usize| src[..b].chars().count();
    // the formatter's own rule for numerals is another one
    let odd = |l: &lex::Lexed| l.toks.iter().any(|t| t.k == K::Num && !lex::valid_numeral(&src[t.s..t.e]));
    let stops = |l: &lex::Lexed, end: usize, before: usize| -> Vec<Stop> {
        let mut v = vec![];
        for lenient in [false, true] {
            if let Err((at, _)) = parse::parse(&src[..end], l, lenient) {
                if at < before {
                    v.extend(l.toks.iter().find(|t| t.s == at).map(|t| Stop::Token(chars(t.s), chars(t.e))));
                }
            }
        }
        v
    };
    match lex::lex_with(src, true) {
        Ok(l) if odd(&l) => vec![],
        Ok(l) => match parse::parse(src, &l, true) {
            Ok(_) => vec![],
            Err(_) => stops(&l, src.len(), src.len() + 1),
        },
        Err((at, m)) => {
            // what stands before may be wrong already
            let mut v = match lex::lex_with(&src[..at], true) {
                Ok(l) if odd(&l) => return vec![],
                Ok(l) => stops(&l, at, at),
                Err(_) => return vec![],
            };
            if v.len() < 2 {
                match &m[..] {
                    "unexpected symbol" => v.extend(src[at..].chars().next().map(|c| Stop::Char(chars(at), c))),
                    // no bracket follows the level
                    "invalid long string delimiter" => v.push(match src[at + 1..].char_indices().find(|(_, c)| *c != '=') {
                        Some((k, c)) => Stop::Char(chars(at + 1 + k), c),
                        None => Stop::Open,
                    }),
                    "unfinished string" | "unfinished long string" | "unfinished long comment" => v.push(Stop::Open),
                    _ => return vec![],
                }
            }
            v
        }
    }
}

/// a token of its own after the place by the manual and before the place by the looser rule
fn between(src: &str, stops: &[Stop], s: usize, e: usize) -> bool {
    let at = |x: &Stop| match x {
        Stop::Token(a, _) | Stop::Char(a, _) => *a,
        Stop::Open => src.len(),
    };
    let chars = |b: usize| src[..b].chars().count();
    stops.len() == 2
        && at(&stops[0]) < s
        && s < at(&stops[1])
        && match lex::lex_with(src, true) {
            Ok(l) => l.toks.iter().any(|t| chars(t.s) == s && chars(t.e) == e),
            Err(_) => true,
        }
}

fn reported_stop(m: &str) -> Option<Stop> {
    if m.ends_with("unexpected end of file") {
        return Some(Stop::Open);
    }
    if let Some(k) = m.find("unrecognized symbol '") {
        let rest = &m[k + 21..];
        let ch = rest.chars().next()?;
        return Some(Stop::Char(rest[ch.len_utf8()..].strip_prefix("' at ")?.parse().ok()?, ch));
    }
    let k = m.rfind(" found at ")?;
    let place = m[k + 10..].lines().next()?;
    let (a, b) = place.split_once(':')?;
    Some(Stop::Token(a.parse().ok()?, b.parse().ok()?))
}

fn located(c: &Case) -> Result<Verdict, Verdict> {
    let l = lex::lex_with(&c.src, true).or_else(|(at, _)| lex::lex_with(&c.src[..at], true));
    if let Ok(l) = l {
        let minus = |t: &lex::Tok| &c.src[t.s..t.e] == "-";
        if l.toks.windows(2).any(|w| minus(&w[0]) && minus(&w[1])) {
            return Ok(skip("two minus signs: a recorded finding of C07"));
        }
    }
    if c.src.rfind("#!").map_or(false, |k| k > 0) {
        // taken for a shebang line wherever it stands
        return Ok(skip("a shebang that is none"));
    }
    let want = reference_stops(&c.src);
    if want.is_empty() {
        return Ok(skip("still Lua, or not placed by the reference"));
    }
    let m = match run(&c.src, &c.cfg) {
        Run::Rejected(m) => m,
        _ => return Err(skip("not rejected")),
    };
    match reported_stop(&m) {
        Some(got) if want.contains(&got) => Ok(held(true, c)),
        // somewhere between the two rules
        Some(Stop::Token(a, b)) if between(&c.src, &want, a, b) => Ok(held(true, c)),
        // a bracket that could begin a statement: a recorded finding of C07
        Some(Stop::Token(a, _)) if c.src.chars().nth(a) == Some('(') => Ok(skip("a bracket")),
        Some(got) => Ok(Verdict::Bad(format!("the text is refused at {:?}, it stops being Lua at {:?}", got, want))),
        None => Ok(Verdict::Bad(format!("the refusal names no place: {}", clip(&m, 0)))),
    }
}

fn an_in(c: &Case) -> Result<An, Verdict> {
    An::new(&c.src).map_err(|_| skip("input is not Lua"))
}

/// the output, when the formatter gave one
fn output(c: &Case) -> Result<String, Verdict> {
    match run(&c.src, &c.cfg) {
        Run::Ok(o) => Ok(o),
        Run::Rejected(_) => Err(skip("rejected")),
        Run::OtherErr(_) => Err(skip("other error")),
        Run::Panic(_) => Err(skip("panic")),
    }
}

fn an_out(o: &str) -> Result<An, Verdict> {
    An::new(o).map_err(|e| Verdict::Bad(format!("the output is not Lua any more: {} at {}", e.1, clip(o, e.0))))
}

pub fn judge(id: &str, c: &Case) -> Verdict {
    if id == "C18" {
        return crate::cli::judge_repeat(c);
    }
    if id == "C33" {
        return crate::effort::judge(c);
    }
    if is_cli(id) {
        return crate::cli::judge(c);
    }
    match judge_(id, c) {
        Ok(v) | Err(v) => v,
    }
}

fn judge_(id: &str, c: &Case) -> Result<Verdict, Verdict> {
    Ok(match id {
        "C06" => match run(&c.src, &c.cfg) {
            Run::Panic(m) => Verdict::Bad(format!("panic: {}", m)),
            Run::OtherErr(m) => Verdict::Bad(format!("unexpected error: {}", m)),
            Run::Ok(o) => held_tags(true, c, vec![("formatted", 1), ("bytes out", o.len() as u64)]),
            Run::Rejected(_) => held_tags(true, c, vec![("rejected", 1)]),
        },
        "C07" => {
            an_in(c)?;
            match run(&c.src, &c.cfg) {
                Run::Ok(_) => held(true, c),
                Run::Rejected(e) => Verdict::Bad(format!("valid Lua is rejected: {}", e)),
                _ => skip("panic or other error"),
            }
        }
        "C08" => {
            let e = match An::new(&c.src) {
                Ok(_) => return Ok(skip("still Lua")),
                Err(e) => e,
            };
            if e.1 == "malformed number" || lenient(&c.src) {
                return Ok(skip("Lua's own rule is looser here"));
            }
            match run(&c.src, &c.cfg) {
                Run::Ok(_) => Verdict::Bad(format!("broken input is accepted; {} at {}", e.1, clip(&c.src, e.0))),
                Run::Rejected(_) => held(true, c),
                Run::OtherErr(m) => Verdict::Bad(format!("not reported as a parsing error: {}", m)),
                Run::Panic(_) => skip("panic"),
            }
        }
        "C27" => located(c)?,
        "C01" => {
            let a = an_in(c)?;
            let o = output(c)?;
            let b = an_out(&o)?;
            if let Err(m) = same_code(&a, &b) {
                return Ok(Verdict::Bad(m));
            }
            held_tags(o != c.src, c, vec![("tokens", a.lx.toks.len() as u64)])
        }
        "C25" => {
            an_in(c)?;
            let o = output(c)?;
            an_out(&o)?;
            for cfg in [&vec![], &c.cfg] {
                match run(&o, cfg) {
                    Run::Ok(_) => {}
                    Run::Rejected(e) => return Ok(Verdict::Bad(format!("the formatter rejects its own output: {}", e))),
                    _ => return Ok(skip("panic")),
                }
            }
            held(o != c.src, c)
        }
        "C02" => {
            let a = an_in(c)?;
            let o = output(c)?;
            let b = an_out(&o)?;
            if let Err(m) = same_comments(&a, &b, &c.cfg) {
                return Ok(Verdict::Bad(m));
            }
            held_tags(!a.lx.comments.is_empty() && o != c.src, c, vec![("comments", a.lx.comments.len() as u64)])
        }
        "C03" => literals(c)?,
        "C04" => noop(c)?,
        "C05" => range(c)?,
        "C09" => eof(c)?,
        "C10" => lay(c, &[Cat::Block], Part::Tail)?,
        "C11" => lay(c, &[Cat::Table], Part::Tail)?,
        "C19" => lay(c, &[Cat::Inline], Part::Tail)?,
        "C20" => lay(c, &ALL[..6], Part::Tail)?,
        "C21" => lay(c, &ALL, Part::Comments)?,
        "C23" => lay(c, &[Cat::Op], Part::Tail)?,
        "C24" => lay(c, &[Cat::List, Cat::Suffix], Part::Tail)?,
        "C12" => {
            let a = an_in(c)?;
            if !respacing(&c.cfg) {
                return Ok(skip("the configuration keeps spacing"));
            }
            if !a.lx.comments.is_empty() && !settled_comments(&c.cfg) {
                return Ok(skip("comments go by the line breaks between them"));
            }
            let o = output(c)?;
            match run(&o, &c.cfg) {
                Run::Ok(o2) if o2 == o => held(o != c.src, c),
                Run::Ok(o2) => {
                    let k = o.bytes().zip(o2.bytes()).position(|(a, b)| a != b).unwrap_or(o.len().min(o2.len()));
                    Verdict::Bad(format!("formatting again changes {} to {}", clip(&o, k), clip(&o2, k)))
                }
                Run::Rejected(e) => Verdict::Bad(format!("its own output is rejected: {}", e)),
                _ => skip("panic"),
            }
        }
        "C17" => removal(c)?,
        "C26" => {
            let a = an_in(c)?;
            if !respacing(&c.cfg) {
                return Ok(skip("the configuration keeps spacing"));
            }
            if !a.lx.comments.is_empty() && get(&c.cfg, "hint_after_multiline_comment").map_or(false, |h| h.ends_with(|ch| ch == ' ' || ch == '\t')) {
                return Ok(skip("blanks are asked for after comments"));
            }
            let o = output(c)?;
            let b = An::new(&o).map_err(|_| skip("output is not Lua"))?;
            // ends of tokens and comments: the blanks before them are theirs
            let inside = |k: usize| b.lx.toks.iter().any(|t| t.s < k && k <= t.e) || b.lx.comments.iter().any(|t| t.s < k && k <= t.e);
            let mut lines = 0;
            for (k, _) in o.match_indices('\n') {
                lines += 1;
                if (o[..k].ends_with(' ') || o[..k].ends_with('\t')) && !inside(k) {
                    return Ok(Verdict::Bad(format!("blanks at the end of a line: {}", clip(&o, k))));
                }
            }
            held_tags(lines > 0 && o != c.src, c, vec![("lines", lines)])
        }
        "C22" => {
            let a = an_in(c)?;
            if a.lx.toks.len() < 2 || !respacing(&c.cfg) {
                return Ok(skip("no tokens, or the configuration keeps spacing"));
            }
            let o = output(c)?;
            let mut r = Rng::new(c.aux("seed").parse().unwrap_or(0));
            let s2 = if a.lx.comments.is_empty() {
                let mut ro = RenderOpts::random(&mut r);
                ro.comments = 0;
                ro.style = *r.pick(&[Style::Pretty, Style::Compact, Style::Chaos]);
                match gen::rerender(&mut r, &c.src, &ro) {
                    Some(s) => s,
                    None => return Ok(skip("not lexed")),
                }
            } else {
                meta::respaced(&a, &mut r)
            };
            let width = get(&c.cfg, "max_width").and_then(|w| w.parse::<usize>().ok());
            let s2 = match width {
                Some(w) if r.chance(1, 2) => meta::padded(&s2, w, &mut r).unwrap_or(s2),
                _ => s2,
            };
            if c.src.starts_with('#') {
                return Ok(skip("shebang"));
            }
            // a construct whose source text is as long as two lines is never tried on one line: there spacing counts
            if let Some(w) = width {
                let other = An::new(&s2).map(|a| meta::longest(&a)).unwrap_or(usize::MAX);
                if meta::longest(&a).max(other) >= w.saturating_mul(2) {
                    return Ok(skip("longer than twice the width"));
                }
            }
            match run(&s2, &c.cfg) {
                Run::Ok(o2) if o2 == o => held(s2 != c.src, c),
                Run::Ok(o2) => {
                    let k = o.bytes().zip(o2.bytes()).position(|(a, b)| a != b).unwrap_or(o.len().min(o2.len()));
                    Verdict::Bad(format!("the same tokens spaced otherwise\n{}\nare formatted otherwise: {} / {}", s2, clip(&o, k), clip(&o2, k)))
                }
                Run::Rejected(e) => Verdict::Bad(format!("the same tokens spaced otherwise are rejected: {}", e)),
                _ => skip("panic"),
            }
        }
        "C29" => meta::neighbours(c)?,
        "C30" => meta::depth(c)?,
        "C31" => meta::names(c)?,
        "C32" => meta::options(c)?,
        "C34" => meta::no_trace(c)?,
        "C35" => meta::indentation(c)?,
        _ => skip("unknown property"),
    })
}

/// Does the configuration drop all white space of the input, and put its own in its place?
fn respacing(c: &Cfg) -> bool {
    ["replace_zero_spaces_with_hint", "remove_all_newlines", "remove_spaces_between_tokens"].iter().all(|k| on(c, k))
}

/// Are comments written alike whatever line breaks there are between them?
fn settled_comments(c: &Cfg) -> bool {
    let one = |k: &str| get(c, k).map_or(false, |v| v.parse() == Ok(1usize));
    get(c, "hint_before_comment").is_none()
        && one("newline_format_first_oneline_comment") == one("newline_format_oneline_comment")
        && one("newline_format_first_multiline_comment") == one("newline_format_multiline_comment")
        && get(c, "write_trailing_field_separator") != Some("false")
}

/// Inputs that are not Lua for a reason that the formatter does not look at.
fn lenient(src: &str) -> bool {
    // statements that are mere expressions, calls of literals and the like are the grammar's own business: the reference
    // parser is asked again with these allowed
    parse::analyse_lenient(src).is_ok()
}

fn literals(c: &Case) -> Result<Verdict, Verdict> {
    let a = an_in(c)?;
    let o = output(c)?;
    let b = An::new(&o).map_err(|_| skip("output is not Lua"))?;
    let conv = on(&c.cfg, "convert_charstring_to_normalstring");
    let lits = |x: &An| -> Vec<(K, String)> {
        x.lx.toks.iter().filter(|t| matches!(t.k, K::Str(_) | K::Long(_) | K::Num)).map(|t| (t.k, x.src[t.s..t.e].to_string())).collect()
    };
    let (x, y) = (lits(&a), lits(&b));
    if x.len() != y.len() {
        return Ok(Verdict::Bad(format!("{} literals became {}", x.len(), y.len())));
    }
    let mut converted = 0;
    for (p, q) in x.iter().zip(y.iter()) {
        if conv && p.1.starts_with('\'') {
            converted += 1;
            if !q.1.starts_with('"') {
                return Ok(Verdict::Bad(format!("{} is not converted to a double-quoted string but is {}", p.1, q.1)));
            }
            let (v, w) = (lex::string_value(&p.1[1..p.1.len() - 1]), lex::string_value(&q.1[1..q.1.len() - 1]));
            if v != w {
                return Ok(Verdict::Bad(format!("converting {} to {} changes the value", p.1, q.1)));
            }
        } else if p.1 != q.1 {
            return Ok(Verdict::Bad(format!("literal {} became {}", p.1, q.1)));
        }
    }
    Ok(held_tags(!x.is_empty() && o != c.src, c, vec![("literals", x.len() as u64), ("converted", converted)]))
}

fn noop(c: &Case) -> Result<Verdict, Verdict> {
    let a = an_in(c)?;
    let o = output(c)?;
    if o == c.src {
        return Ok(held(true, c));
    }
    let b = an_out(&o)?;
    let (x, y) = (squeeze_empty_tables(&a), squeeze_empty_tables(&b));
    let line_comment_last = a.lx.comments.last().map_or(false, |k| k.k == lex::CK::Line && k.e == a.src.len());
    if x == y || line_comment_last && y == format!("{}\n", x) {
        return Ok(held(true, c));
    }
    let k = x.bytes().zip(y.bytes()).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
    Ok(Verdict::Bad(format!("{} became {}", clip(&x, k), clip(&y, k))))
}

fn range(c: &Case) -> Result<Verdict, Verdict> {
    let a = &an_in(c)?;
    let full = output(c)?;
    let x: usize = c.aux("a").parse().unwrap_or(1);
    let y: usize = c.aux("b").parse().unwrap_or(1);
    let nl: Vec<usize> = a.src.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i).collect();
    if x < 1 || y < x || y > nl.len() + 1 {
        return Ok(skip("no such lines"));
    }
    let l = if x == 1 { 0 } else { nl[x - 2] };
    let h = if y - 1 < nl.len() { nl[y - 1] } else { a.src.len() };
    let mut cfg = c.cfg.clone();
    set(&mut cfg, "line_range", &format!("{}:{}", x, y));
    let out = match run(&a.src, &cfg) {
        Run::Ok(o) => o,
        Run::Panic(_) => return Ok(skip("panic")),
        e => return Ok(Verdict::Bad(format!("accepted as a whole but not for lines {}:{}: {:?}", x, y, e))),
    };
    let (mut lo, mut hi) = (l, h);
    let block = a.root.kids.iter().find(|k| k.k == NK::Block).unwrap();
    let mut touched = vec![];
    for (i, k) in block.kids.iter().enumerate() {
        let (s, e) = (a.lx.toks[k.s].s, a.lx.toks[k.e - 1].e);
        if h > s && l < e {
            touched.push(i);
            lo = lo.min(s);
            hi = hi.max(e);
        }
    }
    let mut at = 0;
    for (s, e) in block.kids.iter().map(|k| (a.lx.toks[k.s].s, a.lx.toks[k.e - 1].e)).chain([(a.src.len(), a.src.len())]) {
        if l > at && l < s {
            lo = lo.min(at);
        }
        if h > at && h < s {
            hi = hi.max(s);
        }
        at = e;
    }
    let b = an_out(&out)?;
    if let Err(e) = same_code(a, &b) {
        return Ok(Verdict::Bad(format!("lines {}:{}: {}", x, y, e)));
    }
    if !out.starts_with(&a.src[..lo]) {
        let k = out.bytes().zip(a.src.bytes()).position(|(a, b)| a != b).unwrap_or(0);
        return Ok(Verdict::Bad(format!("lines {}:{}: text before the range changed: {} became {}", x, y, clip(&a.src, k), clip(&out, k))));
    }
    if !out.ends_with(&a.src[hi..]) {
        return Ok(Verdict::Bad(format!("lines {}:{}: text after the range changed; {} expected at the end of {}", x, y, clip(&a.src, hi), clip(&out, out.len()))));
    }
    if !on(&c.cfg, "remove_comments") {
        if let Err(e) = same_comments(a, &b, &vec![]) {
            // comments inside the range may be given hints
            if let Err(_) = same_comments(a, &b, &c.cfg) {
                let n = |x: &An| x.lx.comments.len();
                if n(a) != n(&b) {
                    return Ok(Verdict::Bad(format!("lines {}:{}: {}", x, y, e)));
                }
            }
        }
    }
    let mut compared = 0;
    let all = x == 1 && y == nl.len() + 1;
    if all && out != full {
        let k = out.bytes().zip(full.bytes()).position(|(a, b)| a != b).unwrap_or(out.len().min(full.len()));
        return Ok(Verdict::Bad(format!("lines {}:{} are all lines, but the text is not formatted as without line_range: {} instead of {}", x, y, clip(&out, k), clip(&full, k))));
    }
    if get(&c.cfg, "max_width").is_none() {
        let f = match An::new(&full) {
            Ok(f) => f,
            Err(_) => return Ok(skip("whole output is not Lua")),
        };
        let fb = f.root.kids.iter().find(|k| k.k == NK::Block).unwrap();
        let bb = b.root.kids.iter().find(|k| k.k == NK::Block).unwrap();
        if fb.kids.len() == block.kids.len() && bb.kids.len() == block.kids.len() {
            for &i in &touched {
                let t = |an: &An, n: &parse::Node| an.src[an.lx.toks[n.s].s..an.lx.toks[n.e - 1].e].to_string();
                let (p, q) = (t(&f, &fb.kids[i]), t(&b, &bb.kids[i]));
                compared += 1;
                if p != q {
                    let k = p.bytes().zip(q.bytes()).position(|(a, b)| a != b).unwrap_or(p.len().min(q.len()));
                    return Ok(Verdict::Bad(format!(
                        "lines {}:{}: a statement inside the range is not formatted as in the whole file: {} instead of {}",
                        x, y, clip(&q, k), clip(&p, k)
                    )));
                }
            }
        }
    }
    let untouched = block.kids.len() - touched.len();
    Ok(held_tags(untouched > 0 && !touched.is_empty(), c, vec![("statements inside", touched.len() as u64), ("statements outside", untouched as u64), ("compared with the whole", compared), ("all lines", all as u64)]))
}

fn eof(c: &Case) -> Result<Verdict, Verdict> {
    let a = an_in(c)?;
    let o = output(c)?;
    let body = a.src.trim_end_matches(|ch| ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r');
    if on(&c.cfg, "write_newline_at_eof") {
        if !o.ends_with('\n') {
            return Ok(Verdict::Bad(format!("no newline at the end: {}", clip(&o, o.len()))));
        }
        if on(&c.cfg, "remove_all_newlines") && o.ends_with("\n\n") {
            return Ok(Verdict::Bad(format!("more than one newline at the end: {}", clip(&o, o.len()))));
        }
    }
    if layout::describes(&c.cfg) {
        return lay(c, &[Cat::Ends], Part::Tail);
    }
    Ok(held(!body.is_empty() && o != c.src, c))
}

const ALL: [Cat; 7] = [Cat::Block, Cat::Inline, Cat::Table, Cat::Op, Cat::List, Cat::Suffix, Cat::Ends];

fn lay(c: &Case, cats: &[Cat], part: Part) -> Result<Verdict, Verdict> {
    let a = an_in(c)?;
    if !layout::describes(&c.cfg) {
        return Ok(skip("not described"));
    }
    let o = output(c)?;
    let b = An::new(&o).map_err(|_| skip("output is not Lua"))?;
    let p = match layout::predict(&a, &c.cfg) {
        Some(p) => p,
        None => return Ok(skip("too much work for the reference layout")),
    };
    match layout::compare(&p, &b, cats, part) {
        Ok((seen, nls)) => Ok(held_tags(seen > 0 && o != c.src, c, vec![("gaps compared", seen as u64), ("with a line break", nls as u64)])),
        Err(m) if m.starts_with("TOKENS") => Ok(skip("other tokens")),
        Err(m) => Ok(Verdict::Bad(m)),
    }
}

fn removal(c: &Case) -> Result<Verdict, Verdict> {
    let o = output(c)?;
    let b = An::new(&o).map_err(|_| skip("output is not Lua"))?;
    if on(&c.cfg, "remove_comments") {
        if let Some(k) = b.lx.comments.first() {
            return Ok(Verdict::Bad(format!("comment {} left", clip(&b.src, k.s))));
        }
    }
    lay(c, &ALL, Part::All)
}

pub fn is_cli(id: &str) -> bool {
    !LIB.contains(&id)
}

pub fn rule(id: &str) -> String {
    let how = match id {
        "C06" => "texts of eight kinds (random programs, cut, characters or tokens changed, token soup, random Unicode, comments only) and hand-written sizes and shapes, with random configurations that may be invalid; every completed run counts",
        "C07" => "random programs from a Lua 5.3 grammar with random spacing and comments, and hand-written ones; every accepted one counts",
        "C08" | "C27" => "random programs with a token lost, doubled, replaced, added or moved, a character put inside of or beside a token, a keyword misspelt, or a literal left open, and hand-written ones; every rejected one counts",
        "C05" => "random programs, configurations and line ranges; counts when top-level statements lie both inside and outside the range",
        "C28" => "random runs of the program with -v; counts when a file is taken up",
        "C29" => "random programs; each top-level statement is compared with the same statement formatted alone; counts when the output differs from the input",
        "C30" => "random comment-free programs alone and in a block of one of five kinds; every comparison counts",
        "C31" => "random programs and the same with other names, digits, strings and comments; counts when the output differs from the input",
        "C32" => "random programs and pairs of configurations that differ in options idle for them; every comparison counts",
        "C34" => "random programs rich in comments, and the same without them; every comparison counts",
        "C35" => "random programs under two indentations of the same length; counts when something is indented",
        "C33" => "repeated pieces, hand-written and random, at three sizes, under valgrind; counts when the work grows by more than 200 000 instructions",
        "C02" | "C21" => "random programs rich in comments, random configurations; counts when there is a comment and the output differs from the input",
        _ => "random programs from a Lua 5.3 grammar (and hand-written ones) with random spacing and random configurations; counts when the output differs from the input",
    };
    how.to_string()
}

pub fn assumptions(id: &str) -> Vec<String> {
    let mut v = vec!["the reference lexer and parser in harness/src (written from the Lua 5.3 manual) tell Lua from non-Lua".to_string()];
    if ["C09", "C10", "C11", "C17", "C19", "C20", "C23", "C24"].contains(&id) {
        v.push("the reference layout in harness/src/layout.rs says what each option means".into());
    }
    if !["C04", "C06", "C07", "C08", "C27", "C28", "C33"].contains(&id) {
        v.push("options that delete white space or comments come with replace_zero_spaces_with_hint, as in the shipped configuration".into());
    }
    v
}
