//! Properties that relate two runs: what may change in the input without changing the rest of the output.
use crate::cfgs::{self, get, on, set, unset, Cfg, OK, OPTIONS};
use crate::gen::{self, GenOpts, RenderOpts, Style};
use crate::lex::{CK, K};
use crate::oracle::{clip, run, An, Run};
use crate::parse::{Node, NK};
use crate::props::{held_tags, skip, Case, Verdict};
use crate::rng::Rng;
use std::collections::BTreeMap;

type V = Result<Verdict, Verdict>;

fn an_in(c: &Case) -> Result<An, Verdict> {
    An::new(&c.src).map_err(|_| skip("input is not Lua"))
}

fn output(c: &Case) -> Result<String, Verdict> {
    again(&c.src, &c.cfg)
}

fn again(src: &str, cfg: &Cfg) -> Result<String, Verdict> {
    match run(src, cfg) {
        Run::Ok(o) => Ok(o),
        Run::Rejected(_) => Err(skip("rejected")),
        Run::OtherErr(_) => Err(skip("other error")),
        Run::Panic(_) => Err(skip("panic")),
    }
}

fn an_out(o: &str) -> Result<An, Verdict> {
    An::new(o).map_err(|_| skip("the output is not Lua (C01)"))
}

fn at_difference(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} / {}", clip(a, k), clip(b, k))
}

// ---------------------------------------------------------------- neighbours

/// the statements of the chunk
fn top(an: &An) -> Vec<&Node> {
    let block = match an.root.kids.iter().find(|n| n.k == NK::Block) {
        Some(b) => b,
        None => return vec![],
    };
    block.kids.iter().filter(|n| n.k.is_stat() && n.k != NK::Semi).collect()
}

fn span<'a>(an: &'a An, n: &Node) -> &'a str {
    // the semicolon after `return` is no part of it
    let mut e = n.e;
    while e > n.s + 1 && an.text(e - 1) == ";" {
        e -= 1;
    }
    &an.src[an.lx.toks[n.s].s..an.lx.toks[e - 1].e]
}

fn starts_line(an: &An, n: &Node) -> bool {
    let s = an.lx.toks[n.s].s;
    s == 0 || an.src.as_bytes()[s - 1] == b'\n'
}

pub fn neighbours(c: &Case) -> V {
    let a = an_in(c)?;
    let o = output(c)?;
    let b = an_out(&o)?;
    let (x, y) = (top(&a), top(&b));
    if x.len() != y.len() {
        return Err(skip("other statements (C01)"));
    }
    if x.len() < 2 {
        return Err(skip("one statement"));
    }
    let width = get(&c.cfg, "max_width").is_some();
    let (mut n, mut columns) = (0, 0);
    for (p, q) in x.iter().zip(&y) {
        // what fits depends on the column
        if width && !starts_line(&b, q) {
            columns += 1;
            continue;
        }
        let alone = match run(span(&a, p), &c.cfg) {
            Run::Ok(t) => t,
            _ => continue,
        };
        let d = an_out(&alone)?;
        let z = top(&d);
        if z.len() != 1 || width && !starts_line(&d, z[0]) {
            continue;
        }
        if span(&b, q) != span(&d, z[0]) {
            return Ok(Verdict::Bad(format!(
                "a statement is formatted otherwise than alone: {}; all of it: {:?} / {:?}",
                at_difference(span(&b, q), span(&d, z[0])),
                span(&b, q),
                span(&d, z[0])
            )));
        }
        n += 1;
    }
    if n == 0 {
        return Err(skip("no statement to compare"));
    }
    Ok(held_tags(o != c.src, c, vec![("statements compared", n), ("statements behind others on a line", columns)]))
}

/// statements of the kinds that are tried on one line, with names of any length for W
const TYPICAL: [&str; 24] = [
    "function f() end",
    "function f(W) W() end",
    "local function f() return W end",
    "x = function() W() end",
    "x = { function() W() end }",
    "x = { W }",
    "x = { { W } }",
    "x = { { W }, { W, W } }",
    "x = { W, W, W }",
    "x = { W = W }",
    "x = { W = W, W = { W } }",
    "x = { W = function() return W end }",
    "x = { f { W } }",
    "if W then W() end",
    "if W then W() elseif W then x = { W } else W() end",
    "x = W + W * W",
    "x = W:W(W):W(W)",
    "W(W, W, { W })",
    "W(function() W() end, { W = W })",
    "local x, y = W, { W }",
    "for k, v in W(W), W do W() end",
    "while W do x = { W } end",
    "do local x = W, W end",
    "repeat W { W } until W",
];

pub fn typical(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(2, 6) {
        for (i, p) in r.pick(&TYPICAL).split('W').enumerate() {
            if i > 0 {
                let n = if r.chance(1, 2) { r.range(1, 6) } else { r.range(1, 40) };
                s.push_str(&"abcdefgh".chars().cycle().skip(r.below(8)).take(n).chain("_".chars()).collect::<String>());
            }
            s.push_str(p);
        }
        s.push('\n');
    }
    s
}

pub fn neighbours_case(r: &mut Rng) -> (String, Cfg) {
    let s = if r.chance(2, 5) {
        typical(r)
    } else {
        let mut o = GenOpts::random(r);
        o.stats = r.range(2, 8);
        let ro = RenderOpts::random(r);
        gen::program_with(r, o, ro)
    };
    let mut c = match r.below(3) {
        0 => cfgs::shipped(),
        1 => cfgs::random_safe_cfg(r),
        _ => crate::props::layout_cfg(r, true),
    };
    unset(&mut c, "line_range");
    if get(&c, "max_width").is_some() && r.chance(4, 5) {
        set(&mut c, "newline_format_statement", "1");
        if r.chance(1, 2) {
            let w = r.range(10, 90).to_string();
            set(&mut c, "max_width", &w);
        }
    }
    (s, c)
}

// ---------------------------------------------------------------- depth

const WRAPS: [(&str, &str, &str); 5] = [
    ("do", "end", "newline_format_do_end"),
    ("while true do", "end", "newline_format_while"),
    ("for i = 1, 2 do", "end", "newline_format_for"),
    ("repeat", "until x", "newline_format_repeat_until"),
    ("if x then", "end", "newline_format_if"),
];

/// bytes of the text that lie inside of a token or comment, but not at its start
fn inner_lines(an: &An) -> Vec<bool> {
    // for each line but the first: does it start inside of a literal?
    let mut v = vec![];
    for (k, ch) in an.src.bytes().enumerate() {
        if ch == b'\n' {
            let at = k + 1;
            v.push(an.lx.toks.iter().any(|t| t.s < at && at < t.e) || an.lx.comments.iter().any(|t| t.s < at && at < t.e));
        }
    }
    v
}

pub fn depth(c: &Case) -> V {
    let a = an_in(c)?;
    if !a.lx.comments.is_empty() || a.lx.toks.len() < 2 || c.src.starts_with('#') {
        return Err(skip("comments, or no tokens"));
    }
    let ind = get(&c.cfg, "indentation_string").unwrap_or("").to_string();
    if ind.is_empty() || !["replace_zero_spaces_with_hint", "remove_all_newlines", "remove_spaces_between_tokens"].iter().all(|k| on(&c.cfg, k)) || get(&c.cfg, "newline_format_statement").is_none() {
        return Err(skip("the configuration keeps spacing, or does not indent"));
    }
    let k: usize = c.aux("wrap").parse().unwrap_or(0);
    let (open, close, opt) = WRAPS[k % WRAPS.len()];
    let mut cfg = c.cfg.clone();
    set(&mut cfg, "write_newline_at_eof", "false");
    set(&mut cfg, opt, "1");
    if open.starts_with("if") {
        unset(&mut cfg, "force_single_line_if");
    }
    // (a trial inside of a trial is measured from where the outer one begins: what fits is not shifted with the width)
    unset(&mut cfg, "max_width");
    let o = again(&c.src, &cfg)?;
    let o2 = match run(&format!("{} {} {}", open, c.src, close), &cfg) {
        Run::Ok(o) => o,
        Run::Rejected(_) => return Err(skip("rejected in a block")),
        _ => return Err(skip("panic")),
    };
    let inside = inner_lines(&an_out(&o)?);
    let mut want = String::from(open);
    for (i, l) in o.split('\n').enumerate() {
        want.push('\n');
        if i == 0 || !inside.get(i - 1).copied().unwrap_or(false) {
            want.push_str(&ind);
        }
        want.push_str(l);
    }
    want.push('\n');
    want.push_str(close);
    if o2 != want {
        return Ok(Verdict::Bad(format!("inside of `{} {}` the same text is formatted otherwise: {}; alone: {:?}", open, close, at_difference(&o2, &want), o)));
    }
    Ok(held_tags(true, c, vec![("lines compared", o.matches('\n').count() as u64 + 1)]))
}

pub fn depth_case(r: &mut Rng) -> (String, Cfg, Vec<(String, String)>) {
    let mut o = GenOpts::random(r);
    o.shebang = false;
    let mut ro = RenderOpts::random(r);
    ro.comments = 0;
    let s = gen::program_with(r, o, ro);
    let mut c = if r.chance(1, 3) { cfgs::shipped() } else { cfgs::random_safe_cfg(r) };
    unset(&mut c, "line_range");
    for k in ["replace_zero_spaces_with_hint", "remove_all_newlines", "remove_spaces_between_tokens"] {
        set(&mut c, k, "true");
    }
    set(&mut c, "newline_format_statement", "1");
    if get(&c, "indentation_string").map_or(true, |s| s.is_empty()) || r.chance(1, 2) {
        set(&mut c, "indentation_string", *r.pick(&["    ", "  ", "\t", "   ", " "]));
    }
    (s, c, vec![("wrap".into(), r.below(WRAPS.len()).to_string())])
}

// ---------------------------------------------------------------- names

/// letters for letters, digits for digits
fn renamed(an: &An, r: &mut Rng, wide: bool) -> String {
    let letters: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_".chars().collect();
    let any: Vec<char> = "aZq0éßж中🙂ñ\u{301}İ".chars().collect();
    let mut out = String::new();
    let mut at = 0;
    let mut pieces: Vec<(usize, usize, u8)> = vec![];
    for t in &an.lx.toks {
        let text = &an.src[t.s..t.e];
        match t.k {
            K::Name => pieces.push((t.s, t.e, 0)),
            // (a numeral of letters keeps them)
            K::Num => pieces.push((t.s + 1, t.e, 1)),
            K::Str(_) if !text.contains('\\') => pieces.push((t.s, t.e, 2)),
            K::Long(_) => pieces.push((t.s, t.e, 2)),
            _ => {}
        }
    }
    pieces.extend(an.lx.comments.iter().map(|c| (c.s, c.e, 2)));
    pieces.sort();
    for (s, e, kind) in pieces {
        out.push_str(&an.src[at..s]);
        let text = &an.src[s..e];
        match kind {
            0 => loop {
                let w: String = text.chars().enumerate().map(|(i, _)| if i > 0 && r.chance(1, 5) { (b'0' + r.below(10) as u8) as char } else { *r.pick(&letters) }).collect();
                if !crate::lex::KEYWORDS.contains(&&w[..]) {
                    out.push_str(&w);
                    break;
                }
            },
            1 => out.extend(text.chars().map(|ch| if ch.is_ascii_digit() { (b'0' + r.below(10) as u8) as char } else { ch })),
            _ => out.extend(text.chars().map(|ch| if ch.is_alphanumeric() { if wide { *r.pick(&any) } else { *r.pick(&letters) } } else { ch })),
        }
        at = e;
    }
    out.push_str(&an.src[at..]);
    out
}

/// all characters of names, numerals, strings and comments but blanks and punctuation, made equal
fn skeleton(an: &An) -> String {
    let mut s: Vec<(usize, usize)> = an.lx.comments.iter().map(|c| (c.s, c.e)).collect();
    s.extend(an.lx.toks.iter().filter(|t| matches!(t.k, K::Name | K::Num | K::Str(_) | K::Long(_))).map(|t| (t.s, t.e)));
    s.sort();
    let mut out = String::new();
    let mut at = 0;
    for (b, e) in s {
        out.push_str(&an.src[at..b]);
        out.extend(an.src[b..e].chars().map(|ch| if ch == '_' || ch == '\u{301}' || ch == '🙂' || ch.is_alphanumeric() { 'x' } else { ch }));
        at = e;
    }
    out.push_str(&an.src[at..]);
    out
}

pub fn names(c: &Case) -> V {
    let a = an_in(c)?;
    let o = output(c)?;
    let mut r = Rng::new(c.aux("seed").parse().unwrap_or(0));
    let wide = r.chance(1, 2);
    let s2 = renamed(&a, &mut r, wide);
    if s2 == c.src || An::new(&s2).is_err() {
        return Err(skip("nothing to rename"));
    }
    let o2 = match run(&s2, &c.cfg) {
        Run::Ok(o) => o,
        Run::Rejected(m) => return Ok(Verdict::Bad(format!("with other names, strings and comments the text is rejected: {}; {:?}", m, s2))),
        _ => return Err(skip("panic")),
    };
    let (x, y) = (skeleton(&an_out(&o)?), skeleton(&an_out(&o2)?));
    if x != y {
        return Ok(Verdict::Bad(format!("with other names, strings and comments of the same lengths the text is formatted otherwise: {}; from {:?}", at_difference(&x, &y), s2)));
    }
    Ok(held_tags(o != c.src, c, vec![("tokens compared", a.lx.toks.len() as u64), ("comments compared", a.lx.comments.len() as u64), ("with characters of several bytes", wide as u64)]))
}

pub fn names_case(r: &mut Rng) -> (String, Cfg, Vec<(String, String)>) {
    let o = GenOpts::random(r);
    let ro = RenderOpts::random(r);
    let s = gen::program_with(r, o, ro);
    let mut c = if r.chance(1, 3) { cfgs::shipped() } else { cfgs::random_safe_cfg(r) };
    if r.chance(1, 2) {
        // near the edge
        let w = (s.lines().map(|l| l.chars().count()).max().unwrap_or(0) as f64 * [0.5, 0.8, 1.0, 1.1][r.below(4)]) as usize + r.below(4);
        set(&mut c, "max_width", &w.to_string());
        for (k, _) in OPTIONS.iter() {
            if k.starts_with("force_single_line") && r.chance(1, 2) {
                set(&mut c, k, "true");
            }
        }
    }
    if r.chance(1, 10) {
        let n = s.matches('\n').count() + 1;
        let x = r.range(1, n);
        let y = r.range(x, n);
        set(&mut c, "line_range", &format!("{}:{}", x, y));
    }
    (s, c, vec![("seed".into(), r.below(1 << 30).to_string())])
}

// ---------------------------------------------------------------- options

/// options that are a choice of three: on, off, as it is
const THREE: [&str; 3] = ["write_trailing_field_separator", "write_newline_at_multiline_table", "write_newline_at_explist_multiline_table"];

/// the options that name nothing that the text has
fn idle(an: &An) -> Vec<(&'static str, OK)> {
    let mut kinds: BTreeMap<String, usize> = BTreeMap::new();
    let mut nested_function = false;
    an.root.walk(&mut |n| {
        *kinds.entry(format!("{:?}", n.k)).or_insert(0) += 1;
        if matches!(n.k, NK::FuncBody | NK::Table) {
            // a table counts as a level
            for k in &n.kids {
                k.walk(&mut |m| nested_function |= m.k == NK::FuncBody);
            }
        }
    });
    let has = |k: NK| kinds.contains_key(&format!("{:?}", k));
    let line = an.lx.comments.iter().any(|c| c.k == CK::Line);
    let long = an.lx.comments.iter().any(|c| c.k != CK::Line);
    let mut gaps = String::new();
    let mut at = 0;
    for t in &an.lx.toks {
        let mut p = at;
        for c in an.lx.comments.iter().filter(|c| c.s >= at && c.e <= t.s) {
            gaps.push_str(&an.src[p..c.s]);
            p = c.e;
        }
        gaps.push_str(&an.src[p..t.s]);
        at = t.e;
    }
    // (the end of a line comment stays as a line break)
    let newlines = line || gaps.contains(|c: char| c == '\n' || c == '\r');
    let blanks = gaps.contains(|c: char| c != '\n');
    OPTIONS
        .iter()
        .filter(|(k, _)| match *k {
            "hint_before_comment" | "hint_after_multiline_comment" | "remove_comments" => !line && !long,
            "hint_after_multiline_comment_text" | "hint_before_multiline_comment_text" => !long,
            "newline_format_multiline_comment" | "newline_format_first_multiline_comment" => !long,
            "hint_before_oneline_comment_text" | "newline_format_oneline_comment" | "newline_format_first_oneline_comment" => !line,
            "remove_single_newlines" | "remove_all_newlines" => !newlines,
            // (between comments it puts a hint in place of nothing)
            "remove_spaces_between_tokens" => !blanks && !line && !long,
            "convert_charstring_to_normalstring" => !an.lx.toks.iter().any(|t| t.k == K::Str(b'\'')),
            "hint_table_constructor" | "newline_format_table_constructor" | "newline_format_table_field" | "field_separator" | "write_trailing_field_separator"
            | "force_single_line_table" | "write_newline_at_multiline_table" | "write_newline_at_explist_multiline_table" => !has(NK::Table),
            "force_single_line_iv_table_field" => !has(NK::FieldPos),
            "force_single_line_kv_table_field" => !has(NK::FieldName) && !has(NK::FieldBr),
            "newline_format_do_end" => !has(NK::Do),
            "newline_format_for" => !has(NK::ForNum) && !has(NK::ForIn),
            "newline_format_function" => !has(NK::FuncBody),
            "force_single_line_top_level_function" => !has(NK::FuncBody),
            "force_single_line_scoped_function" => !nested_function,
            "newline_format_if" | "force_single_line_if" => !has(NK::If),
            "newline_format_repeat_until" => !has(NK::Repeat),
            "newline_format_while" => !has(NK::While),
            "newline_format_binary_op" | "force_single_line_binary_op" => !has(NK::Bin),
            "newline_format_var_suffix" | "force_single_line_var_suffix" | "indent_var_suffix" | "indent_one_line_var_suffix" => {
                !has(NK::Suffixed) && !has(NK::Member) && !has(NK::Method) && !has(NK::Index) && !has(NK::Args)
            }
            "newline_format_exp_list" | "newline_format_exp_list_first" | "force_single_line_exp_list" | "indent_exp_list" | "indent_one_line_exp_list" => {
                !has(NK::ExpList) && !has(NK::Args)
            }
            _ => false,
        })
        .copied()
        .collect()
}

pub fn options(c: &Case) -> V {
    let a = an_in(c)?;
    let o = output(c)?;
    let mut r = Rng::new(c.aux("seed").parse().unwrap_or(0));
    let mut d = c.cfg.clone();
    let mut touched = 0;
    for (k, kind) in idle(&a) {
        let v = cfgs::random_value(&mut r, kind);
        match r.below(3) {
            0 => {}
            1 if get(&d, k).is_some() => {
                unset(&mut d, k);
                touched += 1;
            }
            _ if get(&d, k) != Some(&v) => {
                set(&mut d, k, &v);
                touched += 1;
            }
            _ => {}
        }
    }
    let idle_touched = touched;
    // a switch that is off
    for (k, kind) in OPTIONS.iter() {
        if *kind == OK::Bool && !THREE.contains(k) {
            match get(&d, k) {
                Some("false") if r.chance(1, 2) => unset(&mut d, k),
                None if r.chance(1, 2) => set(&mut d, k, "false"),
                _ => continue,
            }
            touched += 1;
        }
    }
    // in any order
    for i in (1..d.len()).rev() {
        let j = r.below(i + 1);
        d.swap(i, j);
    }
    if touched == 0 {
        return Err(skip("no option to change"));
    }
    let o2 = match run(&c.src, &d) {
        Run::Ok(o) => o,
        Run::Rejected(m) => return Ok(Verdict::Bad(format!("with options that do not concern it, the text is rejected: {}; {}", m, cfgs::to_string(&d)))),
        _ => return Err(skip("panic")),
    };
    if o != o2 {
        // which of them is it?
        let mut odd = vec![];
        for (k, _) in OPTIONS.iter() {
            if get(&c.cfg, k) != get(&d, k) {
                let mut e = c.cfg.clone();
                match get(&d, k) {
                    Some(v) => set(&mut e, k, v),
                    None => unset(&mut e, k),
                }
                if run(&c.src, &e) != Run::Ok(o.clone()) {
                    odd.push(format!("{} {:?} -> {:?}", k, get(&c.cfg, k), get(&d, k)));
                }
            }
        }
        return Ok(Verdict::Bad(format!("options that do not concern the text change what comes out: {}; {:?}", at_difference(&o, &o2), odd)));
    }
    Ok(held_tags(true, c, vec![("idle options changed", idle_touched), ("switches off or absent", touched - idle_touched)]))
}

pub fn options_case(r: &mut Rng) -> (String, Cfg, Vec<(String, String)>) {
    let mut o = GenOpts::random(r);
    if r.chance(1, 2) {
        o.tables = 0;
    }
    if r.chance(1, 2) {
        o.calls = 0;
    }
    o.stats = r.range(1, 4);
    o.depth = r.below(3);
    o.edepth = r.range(0, 2);
    let mut ro = RenderOpts::random(r);
    if r.chance(1, 2) {
        ro.style = Style::Compact;
    }
    let s = gen::program_with(r, o, ro);
    let mut c = cfgs::random_safe_cfg(r);
    if r.chance(1, 3) {
        let w = r.range(5, 60).to_string();
        set(&mut c, "max_width", &w);
    }
    unset(&mut c, "line_range");
    (s, c, vec![("seed".into(), r.below(1 << 30).to_string())])
}

// ---------------------------------------------------------------- spacing

/// the text with other white space in the gaps that hold no comment
pub fn respaced(an: &An, r: &mut Rng) -> String {
    let mut out = String::new();
    let mut at = 0;
    for t in &an.lx.toks {
        let gap = &an.src[at..t.s];
        let commented = an.lx.comments.iter().any(|c| c.s >= at && c.e <= t.s);
        if commented || at == 0 || gap.is_empty() && r.chance(2, 3) || !gap.is_empty() && r.chance(1, 3) {
            out.push_str(gap);
        } else {
            out.push_str(*r.pick(&[" ", "\n", "\t", "  \n\t ", "\n\n\n", "   ", "\r\n"]));
        }
        out.push_str(&an.src[t.s..t.e]);
        at = t.e;
    }
    out.push_str(&an.src[at..]);
    out
}

/// how long the longest top-level statement is in the source
pub fn longest(an: &An) -> usize {
    top(an).iter().map(|n| span(an, n).chars().count()).max().unwrap_or(0)
}

/// more blanks in one gap of one statement, such that its text stays shorter than twice the width
pub fn padded(src: &str, w: usize, r: &mut Rng) -> Option<String> {
    let an = An::new(src).ok()?;
    let t = top(&an);
    if t.is_empty() {
        return None;
    }
    let n = t[r.below(t.len())];
    let free = w.saturating_mul(2).saturating_sub(1).checked_sub(span(&an, n).chars().count())?;
    let gaps: Vec<usize> = (n.s + 1..n.e).map(|i| an.lx.toks[i].s).filter(|at| !an.lx.comments.iter().any(|c| c.e == *at)).collect();
    if gaps.is_empty() || free == 0 {
        return None;
    }
    let at = gaps[r.below(gaps.len())];
    let k = if r.chance(1, 2) { free } else { r.range(1, free) };
    Some(format!("{}{}{}", &src[..at], " ".repeat(k.min(400)), &src[at..]))
}

// ---------------------------------------------------------------- removed comments

const RESPACING: [&str; 3] = ["replace_zero_spaces_with_hint", "remove_all_newlines", "remove_spaces_between_tokens"];

/// the text with blanks in place of its comments
fn bare(an: &An) -> String {
    let mut out = String::new();
    let mut at = 0;
    for c in &an.lx.comments {
        out.push_str(&an.src[at..c.s]);
        out.push(' ');
        at = c.e;
    }
    out.push_str(&an.src[at..]);
    out
}

pub fn no_trace(c: &Case) -> V {
    let a = an_in(c)?;
    if a.lx.comments.is_empty() || !RESPACING.iter().all(|k| on(&c.cfg, k)) || !on(&c.cfg, "remove_comments") {
        return Err(skip("no comments, or the configuration keeps them or the spacing"));
    }
    // a construct whose source text is as long as two lines is never tried on one line: there comments count
    if let Some(w) = get(&c.cfg, "max_width").and_then(|w| w.parse::<usize>().ok()) {
        if longest(&a) >= w.saturating_mul(2) {
            return Err(skip("longer than twice the width"));
        }
    }
    let o = output(c)?;
    let s2 = bare(&a);
    let o2 = match run(&s2, &c.cfg) {
        Run::Ok(o) => o,
        Run::Rejected(m) => return Ok(Verdict::Bad(format!("without its comments the text is rejected: {}; {:?}", m, s2))),
        _ => return Err(skip("panic")),
    };
    if o != o2 {
        return Ok(Verdict::Bad(format!("removed comments leave a trace: {}; without them in the first place: {:?}", at_difference(&o, &o2), s2)));
    }
    Ok(held_tags(true, c, vec![("comments removed", a.lx.comments.len() as u64)]))
}

pub fn no_trace_case(r: &mut Rng) -> (String, Cfg) {
    let o = GenOpts::random(r);
    let mut ro = RenderOpts::random(r);
    ro.comments = *r.pick(&[15, 60, 200]);
    let mut s = gen::program_with(r, o, ro.clone());
    if r.chance(1, 4) {
        let t = typical(r);
        s = gen::rerender(r, &t, &ro).unwrap_or(s);
    }
    let mut c = if r.chance(1, 4) { cfgs::shipped() } else { crate::props::layout_cfg(r, true) };
    if r.chance(1, 3) {
        c = cfgs::random_safe_cfg(r);
    }
    unset(&mut c, "line_range");
    if r.chance(1, 2) {
        c.retain(|(k, _)| k != "max_width" && !k.starts_with("force_single_line"));
    } else {
        let n = An::new(&s).map(|a| longest(&a)).unwrap_or(100);
        let w = ((n as f64) * [0.52, 0.6, 0.8, 1.5][r.below(4)]) as usize + 2;
        set(&mut c, "max_width", &w.to_string());
    }
    for k in RESPACING.iter().chain(&["remove_comments"]) {
        set(&mut c, k, "true");
    }
    (s, c)
}

// ---------------------------------------------------------------- the looks of the indentation

pub fn indentation(c: &Case) -> V {
    an_in(c)?;
    let ind = get(&c.cfg, "indentation_string").unwrap_or("").to_string();
    let other = c.aux("other");
    if ind.is_empty() || ind.chars().count() != other.chars().count() || ind == other || !(ind.clone() + &other).chars().all(|ch| ch == ' ' || ch == '\t') {
        return Err(skip("no other indentation"));
    }
    let mut cfg = c.cfg.clone();
    unset(&mut cfg, "line_range");
    // (blanks of a hint at the start of a line cannot be told from indentation)
    unset(&mut cfg, "hint_before_comment");
    for k in &RESPACING {
        set(&mut cfg, k, "true");
    }
    let o = again(&c.src, &cfg)?;
    let mut cfg2 = cfg.clone();
    set(&mut cfg2, "indentation_string", &other);
    let o2 = again(&c.src, &cfg2)?;
    let inside = inner_lines(&an_out(&o)?);
    let mut want = String::new();
    let (mut levels, mut lines) = (0, 0);
    let (mut after_comment, mut laxly) = (false, vec![]);
    for (i, l) in o.split('\n').enumerate() {
        let mut rest = l;
        // (after a line comment the line may begin with a hint, which cannot be told from indentation)
        let lax = std::mem::replace(&mut after_comment, l.contains("--"));
        if i > 0 {
            want.push('\n');
            if lax {
                laxly.push(i);
            }
            if !inside.get(i - 1).copied().unwrap_or(false) {
                while let Some(x) = rest.strip_prefix(&ind[..]) {
                    rest = x;
                    want.push_str(&other);
                    levels += 1;
                }
                lines += 1;
            }
        }
        want.push_str(rest);
    }
    let without = |t: &str| -> String {
        let mut t: Vec<&str> = t.split('\n').collect();
        for i in &laxly {
            if let Some(l) = t.get_mut(*i) {
                *l = l.trim_start_matches(|ch| ch == ' ' || ch == '\t');
            }
        }
        t.join("\n")
    };
    if without(&o2) != without(&want) {
        return Ok(Verdict::Bad(format!("with {:?} for {:?} more than the indentation changes: {}; with the first: {:?}", other, ind, at_difference(&o2, &want), o)));
    }
    if levels == 0 {
        return Err(skip("nothing indented"));
    }
    Ok(held_tags(true, c, vec![("lines", lines), ("levels exchanged", levels)]))
}

pub fn indentation_case(r: &mut Rng) -> (String, Cfg, Vec<(String, String)>) {
    let mut o = GenOpts::random(r);
    o.shebang = false;
    let ro = RenderOpts::random(r);
    let s = gen::program_with(r, o, ro);
    let mut c = match r.below(3) {
        0 => cfgs::shipped(),
        1 => cfgs::random_safe_cfg(r),
        _ => crate::props::layout_cfg(r, true),
    };
    unset(&mut c, "line_range");
    for k in &RESPACING {
        set(&mut c, k, "true");
    }
    if r.chance(2, 3) {
        set(&mut c, "newline_format_statement", "1");
    }
    let pairs = [("\t", " "), (" ", "\t"), ("  ", "\t\t"), ("    ", "\t\t\t\t"), ("\t ", " \t"), ("  ", "\t "), ("   ", " \t ")];
    let (x, y) = *r.pick(&pairs);
    set(&mut c, "indentation_string", x);
    (s, c, vec![("other".into(), y.into())])
}
