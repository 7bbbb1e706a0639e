//! Option tables and random configurations; everything goes through the public string interface.
use crate::rng::Rng;
use luafmt::config::Config;

pub type Cfg = Vec<(String, String)>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OK {
    Bool,
    Fmt(&'static [&'static str]),
    Hint,
    Indent,
    Sep,
    Width,
}

const N1: &[&str] = &["1"];
const N12: &[&str] = &["1", "2"];

pub const OPTIONS: [(&str, OK); 49] = [
    ("replace_zero_spaces_with_hint", OK::Bool),
    ("hint_after_multiline_comment", OK::Hint),
    ("hint_after_multiline_comment_text", OK::Hint),
    ("hint_before_comment", OK::Hint),
    ("hint_before_multiline_comment_text", OK::Hint),
    ("hint_before_oneline_comment_text", OK::Hint),
    ("hint_table_constructor", OK::Hint),
    ("remove_comments", OK::Bool),
    ("remove_single_newlines", OK::Bool),
    ("remove_all_newlines", OK::Bool),
    ("remove_spaces_between_tokens", OK::Bool),
    ("write_newline_at_eof", OK::Bool),
    ("write_newline_at_multiline_table", OK::Bool),
    ("write_newline_at_explist_multiline_table", OK::Bool),
    ("indentation_string", OK::Indent),
    ("indent_var_suffix", OK::Bool),
    ("indent_one_line_var_suffix", OK::Bool),
    ("indent_exp_list", OK::Bool),
    ("indent_one_line_exp_list", OK::Bool),
    ("newline_format_first_oneline_comment", OK::Fmt(N1)),
    ("newline_format_first_multiline_comment", OK::Fmt(N1)),
    ("newline_format_oneline_comment", OK::Fmt(N1)),
    ("newline_format_multiline_comment", OK::Fmt(N1)),
    ("newline_format_statement", OK::Fmt(N1)),
    ("newline_format_do_end", OK::Fmt(N1)),
    ("newline_format_for", OK::Fmt(N1)),
    ("newline_format_function", OK::Fmt(N1)),
    ("newline_format_if", OK::Fmt(N1)),
    ("newline_format_repeat_until", OK::Fmt(N1)),
    ("newline_format_table_constructor", OK::Fmt(N1)),
    ("newline_format_table_field", OK::Fmt(N1)),
    ("newline_format_while", OK::Fmt(N1)),
    ("newline_format_binary_op", OK::Fmt(N12)),
    ("newline_format_var_suffix", OK::Fmt(N1)),
    ("newline_format_exp_list", OK::Fmt(N1)),
    ("newline_format_exp_list_first", OK::Fmt(N1)),
    ("field_separator", OK::Sep),
    ("write_trailing_field_separator", OK::Bool),
    ("convert_charstring_to_normalstring", OK::Bool),
    ("max_width", OK::Width),
    ("force_single_line_binary_op", OK::Bool),
    ("force_single_line_table", OK::Bool),
    ("force_single_line_iv_table_field", OK::Bool),
    ("force_single_line_kv_table_field", OK::Bool),
    ("force_single_line_if", OK::Bool),
    ("force_single_line_top_level_function", OK::Bool),
    ("force_single_line_scoped_function", OK::Bool),
    ("force_single_line_var_suffix", OK::Bool),
    ("force_single_line_exp_list", OK::Bool),
];

/// the options that the shipped `.luafmt.lua` sets
pub fn shipped() -> Cfg {
    [
        ("replace_zero_spaces_with_hint", "true"),
        ("hint_after_multiline_comment", " "),
        ("hint_after_multiline_comment_text", " "),
        ("hint_before_comment", " "),
        ("hint_before_multiline_comment_text", " "),
        ("hint_before_oneline_comment_text", " "),
        ("hint_table_constructor", " "),
        ("remove_single_newlines", "true"),
        ("remove_spaces_between_tokens", "true"),
        ("write_newline_at_eof", "true"),
        ("write_newline_at_multiline_table", "false"),
        ("write_newline_at_explist_multiline_table", "true"),
        ("indentation_string", "    "),
        ("indent_var_suffix", "true"),
        ("indent_exp_list", "true"),
        ("newline_format_oneline_comment", "1"),
        ("newline_format_statement", "1"),
        ("newline_format_do_end", "1"),
        ("newline_format_for", "1"),
        ("newline_format_function", "1"),
        ("newline_format_if", "1"),
        ("newline_format_repeat_until", "1"),
        ("newline_format_table_constructor", "1"),
        ("newline_format_table_field", "1"),
        ("newline_format_while", "1"),
        ("newline_format_binary_op", "1"),
        ("newline_format_var_suffix", "1"),
        ("newline_format_exp_list", "1"),
        ("field_separator", ","),
        ("write_trailing_field_separator", "true"),
        ("convert_charstring_to_normalstring", "false"),
        ("max_width", "110"),
        ("force_single_line_table", "true"),
        ("force_single_line_iv_table_field", "false"),
        ("force_single_line_kv_table_field", "false"),
        ("force_single_line_binary_op", "true"),
        ("force_single_line_if", "true"),
        ("force_single_line_scoped_function", "true"),
        ("force_single_line_var_suffix", "true"),
        ("force_single_line_exp_list", "true"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect()
}

pub fn get<'a>(c: &'a Cfg, k: &str) -> Option<&'a str> {
    c.iter().rev().find(|(n, _)| n == k).map(|(_, v)| &v[..])
}
pub fn on(c: &Cfg, k: &str) -> bool {
    get(c, k) == Some("true")
}
pub fn set(c: &mut Cfg, k: &str, v: &str) {
    c.retain(|(n, _)| n != k);
    c.push((k.to_string(), v.to_string()));
}
pub fn unset(c: &mut Cfg, k: &str) {
    c.retain(|(n, _)| n != k);
}

pub fn build(c: &Cfg) -> Config {
    let mut cfg = Config::default();
    for (k, v) in c {
        cfg.set(k, v);
    }
    cfg
}

pub fn random_value(r: &mut Rng, k: OK) -> String {
    match k {
        OK::Bool => (*r.pick(&["true", "true", "true", "false"])).into(),
        OK::Fmt(v) => (*r.pick(v)).into(),
        OK::Hint => (*r.pick(&[" ", " ", " ", "", "  "])).into(),
        OK::Indent => (*r.pick(&["    ", "  ", "\t", " ", ""])).into(),
        OK::Sep => (*r.pick(&[",", ",", ";", ", ", "; "])).into(),
        OK::Width => match r.below(4) {
            0 => format!("{}", r.range(0, 30)),
            1 => format!("{}", r.range(30, 80)),
            2 => "110".into(),
            _ => (*r.pick(&["20", "40", "60", "100000"])).into(),
        },
    }
}

/// Options under which two tokens can lose what separates them
const REMOVERS: [&str; 4] = ["remove_comments", "remove_single_newlines", "remove_all_newlines", "remove_spaces_between_tokens"];

/// README: options that delete trivia need `replace_zero_spaces_with_hint` to put the token separators back.
pub fn make_token_safe(c: &mut Cfg) {
    if REMOVERS.iter().any(|k| on(c, k)) {
        set(c, "replace_zero_spaces_with_hint", "true");
    }
}
pub fn is_token_safe(c: &Cfg) -> bool {
    !REMOVERS.iter().any(|k| on(c, k)) || on(c, "replace_zero_spaces_with_hint")
}

pub fn random_cfg(r: &mut Rng) -> Cfg {
    let mut c: Cfg = vec![];
    match r.below(10) {
        0 => {}
        1 | 2 => c = shipped(),
        3 | 4 => {
            // shipped, disturbed
            c = shipped();
            for _ in 0..r.range(1, 6) {
                let (k, kind) = *r.pick(&OPTIONS[..]);
                if r.chance(1, 3) {
                    unset(&mut c, k);
                } else {
                    let v = random_value(r, kind);
                    set(&mut c, k, &v);
                }
            }
        }
        5 => {
            // one or two options
            for _ in 0..r.range(1, 2) {
                let (k, kind) = *r.pick(&OPTIONS[..]);
                let v = random_value(r, kind);
                set(&mut c, k, &v);
            }
        }
        _ => {
            let den = r.range(1, 6);
            for (k, kind) in OPTIONS.iter() {
                if r.chance(1, den + 1) {
                    let v = random_value(r, *kind);
                    set(&mut c, k, &v);
                }
            }
        }
    }
    c
}

pub fn random_safe_cfg(r: &mut Rng) -> Cfg {
    let mut c = random_cfg(r);
    make_token_safe(&mut c);
    c
}

pub fn to_string(c: &Cfg) -> String {
    c.iter().map(|(k, v)| format!("--{}={:?}", k, v)).collect::<Vec<_>>().join(" ")
}
