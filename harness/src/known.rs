//! The findings that are recorded and not repaired: how a failing case is recognised as one of them.
use crate::cfgs::{get, on};
use crate::lex::K;
use crate::oracle::*;
use crate::parse::{Node, NK};
use crate::props::Case;

pub struct Finding {
    pub property: String,
    pub id: String,
    pub line: String,
}

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub fn load() -> Vec<Finding> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("finding: ")?;
            let f = |k: &str| rest.split_whitespace().find_map(|w| w.strip_prefix(k).map(|s| s.to_string()));
            Some(Finding { property: f("property=")?, id: f("id=")?, line: rest.to_string() })
        })
        .collect()
}

fn hexfrac(a: &An) -> Vec<(usize, usize)> {
    a.lx.toks
        .iter()
        .filter(|t| t.k == K::Num && {
            let s = &a.src[t.s..t.e];
            s.len() > 2 && s.as_bytes()[1] | 32 == b'x' && s.contains('.')
        })
        .map(|t| (t.s, t.e))
        .collect()
}

fn minus_minus(a: &An) -> Vec<(usize, usize)> {
    let mut v = vec![];
    a.root.walk(&mut |n: &Node| {
        if n.k == NK::Un && a.text(n.own[0]) == "-" && n.kids[0].k == NK::Un && a.text(n.kids[0].own[0]) == "-" {
            let t = &a.lx.toks[n.kids[0].own[0]];
            v.push((t.s, t.e));
        }
        // a power takes the sign into its own node: `- - x ^ 2`
    });
    v
}

/// statements that start with a bracket and do not follow a semicolon
fn bracket_statements(a: &An) -> Vec<(usize, usize)> {
    let mut v = vec![];
    a.root.walk(&mut |n: &Node| {
        if n.k == NK::Block {
            for (i, s) in n.kids.iter().enumerate() {
                if i > 0 && n.kids[i - 1].k != NK::Semi && a.text(s.s) == "(" {
                    let p = a.lx.toks[s.s].s;
                    v.push((p, p));
                }
            }
        }
    });
    v
}

/// the findings whose construct is in the text; the text without these constructs
fn without(src: &str) -> Option<(Vec<&'static str>, String)> {
    let a = An::new(src).ok()?;
    let mut edits: Vec<(usize, usize, &str)> = vec![];
    let mut ids = vec![];
    for (id, v, by) in [("hex-fraction", hexfrac(&a), "0x1"), ("minus-minus", minus_minus(&a), " #"), ("bracket-statement", bracket_statements(&a), ";")] {
        if !v.is_empty() {
            ids.push(id);
        }
        edits.extend(v.into_iter().map(|(s, e)| (s, e, by)));
    }
    edits.sort();
    let mut s = String::new();
    let mut at = 0;
    for (b, e, by) in edits {
        s.push_str(&src[at..b]);
        s.push_str(by);
        at = e;
    }
    s.push_str(&src[at..]);
    Some((ids, s))
}

/// operators in one expression, at most
fn operators(src: &str) -> usize {
    let an = match An::new(src) {
        Ok(a) => a,
        Err(_) => return 0,
    };
    let mut most = 0;
    let mut n = 0;
    for i in 0..an.lx.toks.len() {
        match an.text(i) {
            "+" | "-" | "*" | "/" | "//" | "%" | "^" | ".." | "and" | "or" | "not" | "#" | "~" | "&" | "|" | "<<" | ">>" | "<" | ">" | "<=" | ">=" | "==" | "~=" => n += 1,
            "," | ";" | "=" | "do" | "then" | "end" | "local" | "return" | "if" => n = 0,
            _ => {}
        }
        most = most.max(n);
    }
    most
}

/// Which recorded findings explain this violation? (None: none does)
pub fn explains(property: &str, c: &Case, msg: &str, listed: &[Finding]) -> Option<Vec<String>> {
    let has = |id: &str| listed.iter().any(|f| f.property == property && f.id == id);
    match property {
        "C07" => {
            let (ids, s) = without(&c.src)?;
            if ids.is_empty() || !ids.iter().all(|i| has(i)) {
                return None;
            }
            An::new(&s).ok()?;
            match run(&s, &c.cfg) {
                Run::Ok(_) => Some(ids.into_iter().map(|s| s.to_string()).collect()),
                _ => None,
            }
        }
        "C01" if has("lone-cr") => {
            let a = An::new(&c.src).ok()?;
            let lone = a.lx.comments.iter().any(|k| k.k == crate::lex::CK::Line && a.src[k.e..].starts_with('\r'));
            if lone { Some(vec!["lone-cr".into()]) } else { None }
        }
        "C13" if msg.starts_with("a failed write left") && has("write-not-atomic") => Some(vec!["write-not-atomic".into()]),
        "C06" if msg.starts_with("hang") => {
            let single = get(&c.cfg, "max_width").is_some() || c.cfg.iter().any(|(k, _)| k.starts_with("indent_") && on(&c.cfg, k));
            if has("exponential-nesting") && single && crate::props::nesting(&c.src) >= 6 {
                return Some(vec!["exponential-nesting".into()]);
            }
            None
        }
        "C06" if msg.starts_with("killed") => {
            if has("deep-nesting-overflow") && crate::props::nesting(&c.src) > 150 {
                return Some(vec!["deep-nesting-overflow".into()]);
            }
            if has("long-chain-overflow") && operators(&c.src) > 500 {
                return Some(vec!["long-chain-overflow".into()]);
            }
            None
        }
        _ => None,
    }
}

/// a case that shows the finding
pub fn witness(id: &str) -> Option<Case> {
    if id == "write-not-atomic" {
        let s = crate::cli::Scn {
            files: vec![("m.lua".into(), b"local a = { 1, 2 }\nprint(a)".to_vec())],
            args: vec![b"-i".to_vec(), b"--write_newline_at_eof=true".to_vec(), b"m.lua".to_vec()],
            fsize: Some(10),
            ..Default::default()
        };
        return Some(s.case());
    }
    let src = match id {
        "hex-fraction" => "x = 0xA.8p1\n".to_string(),
        "lone-cr" => "-- c\rx = 1\n".to_string(),
        "minus-minus" => "x = - - y\n".to_string(),
        "bracket-statement" => "local x = 1\n(f)()\n".to_string(),
        "exponential-nesting" => format!("x = {}1{}\n", "f(1, ".repeat(14), ")".repeat(14)),
        "deep-nesting-overflow" => format!("x = {}1{}\n", "(".repeat(20000), ")".repeat(20000)),
        "long-chain-overflow" => format!("x = a{}\n", " .. b".repeat(8000)),
        _ => return None,
    };
    let cfg = if id == "exponential-nesting" { crate::cfgs::shipped() } else { vec![] };
    let cfg = if id == "lone-cr" { [("remove_comments", "true"), ("replace_zero_spaces_with_hint", "true")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() } else { cfg };
    Some(Case { src, cfg, aux: vec![] })
}
