//! The command-line program: scenarios (a directory tree, arguments, standard input, a write limit), what is expected of
//! them, and the comparison with what the program does in a scratch directory.
use crate::cfgs::{self, set, Cfg, OK, OPTIONS};
use crate::gen::{self, GenOpts, RenderOpts};
use crate::oracle::{clip, run, same_code, An, Run};
use crate::props::{held_tags, skip, Case, Verdict};
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Default, Debug)]
pub struct Scn {
    pub dirs: Vec<String>,
    pub files: Vec<(String, Vec<u8>)>,
    pub links: Vec<(String, String)>,
    /// what a configuration file says: pairs in order, or that it cannot be read as Lua
    pub meaning: BTreeMap<String, Option<Cfg>>,
    pub cwd: String,
    pub args: Vec<Vec<u8>>,
    pub stdin: Option<Vec<u8>>,
    /// no write goes past this size
    pub fsize: Option<u64>,
    pub modes: Vec<(String, u32)>,
    pub env: Vec<(String, String)>,
    /// standard output is a device that takes nothing
    pub full: bool,
}

fn bytes_json(b: &[u8]) -> Value {
    match std::str::from_utf8(b) {
        Ok(s) => json!(s),
        Err(_) => json!(b),
    }
}
fn json_bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => s.as_bytes().to_vec(),
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
        _ => vec![],
    }
}
fn pairs(v: &Value) -> Vec<(String, String)> {
    let s = |v: &Value| v.as_str().unwrap_or("").to_string();
    v.as_array().map(|a| a.iter().map(|p| (s(&p[0]), s(&p[1]))).collect()).unwrap_or_default()
}

impl Scn {
    pub fn json(&self) -> Value {
        json!({
            "dirs": self.dirs, "files": self.files.iter().map(|(p, c)| json!([p, bytes_json(c)])).collect::<Vec<_>>(), "links": self.links,
            "meaning": self.meaning, "cwd": self.cwd, "args": self.args.iter().map(|a| bytes_json(a)).collect::<Vec<_>>(),
            "stdin": self.stdin.as_ref().map(|s| bytes_json(s)), "fsize": self.fsize, "modes": self.modes, "env": self.env, "full": self.full,
        })
    }
    pub fn from(v: &Value) -> Scn {
        let s = |v: &Value| v.as_str().unwrap_or("").to_string();
        let arr = |k: &str| v[k].as_array().cloned().unwrap_or_default();
        Scn {
            dirs: arr("dirs").iter().map(s).collect(),
            files: arr("files").iter().map(|p| (s(&p[0]), json_bytes(&p[1]))).collect(),
            links: pairs(&v["links"]),
            meaning: v["meaning"]
                .as_object()
                .map(|m| m.iter().map(|(k, v)| (k.clone(), if v.is_null() { None } else { Some(pairs(v)) })).collect())
                .unwrap_or_default(),
            cwd: s(&v["cwd"]),
            args: arr("args").iter().map(json_bytes).collect(),
            stdin: if v["stdin"].is_null() { None } else { Some(json_bytes(&v["stdin"])) },
            fsize: v["fsize"].as_u64(),
            modes: arr("modes").iter().map(|p| (s(&p[0]), p[1].as_u64().unwrap_or(0o644) as u32)).collect(),
            env: pairs(&v["env"]),
            full: v["full"].as_bool().unwrap_or(false),
        }
    }
    pub fn case(self) -> Case {
        Case { src: String::new(), cfg: vec![], aux: vec![("scenario".into(), self.json().to_string())] }
    }
}

// ---------------------------------------------------------------- generation

pub fn small_program(r: &mut Rng) -> String {
    let mut o = GenOpts::random(r);
    o.stats = r.range(1, 4);
    o.depth = r.range(0, 2);
    o.edepth = r.range(1, 2);
    let ro = RenderOpts::random(r);
    loop {
        let s = gen::program_with(r, o.clone(), ro.clone());
        if crate::props::nesting(&s) <= 5 {
            return s;
        }
    }
}

fn content(r: &mut Rng, broken: bool) -> Vec<u8> {
    if broken {
        return match r.below(5) {
            0 => vec![b'x', b'=', 0xff, 0xfe],
            1 => b"x = [[\xc3".to_vec(),
            2 => b"if x then\n".to_vec(),
            3 => b"x = = 1\n".to_vec(),
            _ => format!("{}\nend end)", small_program(r)).into_bytes(),
        };
    }
    match r.below(12) {
        0 => vec![],
        1 => b"\n".to_vec(),
        2 => "\u{feff}".as_bytes().iter().copied().filter(|_| false).chain(*b"a=1").collect(),
        _ => small_program(r).into_bytes(),
    }
}

/// values that a configuration file and a command line can both hold
fn plain_value(r: &mut Rng, k: OK) -> String {
    match k {
        OK::Hint => (*r.pick(&[" ", "", "  ", "\t", " "])).into(),
        _ => cfgs::random_value(r, k),
    }
}
fn random_cfg(r: &mut Rng, n: usize) -> Cfg {
    let mut c: Cfg = vec![];
    if r.chance(1, 3) {
        c = cfgs::shipped();
        if r.chance(1, 2) {
            return c;
        }
    }
    for _ in 0..r.range(1, n) {
        let (k, kind) = *r.pick(&OPTIONS[..]);
        let v = plain_value(r, kind);
        if r.chance(1, 8) {
            c.push((k.to_string(), v));
        } else {
            set(&mut c, k, &v);
        }
    }
    c
}

/// options that show in almost any output
fn telling_cfg(r: &mut Rng) -> Cfg {
    let mut c: Cfg = vec![];
    set(&mut c, "newline_format_statement", "1");
    set(&mut c, "indentation_string", *r.pick(&["  ", "\t", "      ", " ", "        "]));
    set(&mut c, "newline_format_function", "1");
    set(&mut c, "newline_format_if", "1");
    set(&mut c, "replace_zero_spaces_with_hint", "true");
    set(&mut c, "remove_spaces_between_tokens", "true");
    set(&mut c, "remove_all_newlines", "true");
    set(&mut c, "hint_table_constructor", *r.pick(&["", " ", "  ", "   "]));
    set(&mut c, "write_newline_at_eof", *r.pick(&["true", "false"]));
    c
}

/// A literal with the value `v`: in quotes, with or without escapes, or in long brackets.
fn quoted(r: &mut Rng, v: &str, q: char) -> String {
    if r.chance(1, 10) && !v.contains(']') {
        let eq = "=".repeat(r.below(3));
        let nl = if v.starts_with('\n') || r.chance(1, 3) { "\n" } else { "" };
        return format!("[{}[{}{}]{}]", eq, nl, v, eq);
    }
    let much = r.chance(1, 3);
    let mut s = String::from(q);
    for (i, ch) in v.char_indices() {
        match ch {
            '\t' if r.chance(1, 2) => s.push_str("\\t"),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str(*r.pick(&["\\n", "\\\n", "\\010"])),
            ch if ch == q => {
                s.push('\\');
                s.push(ch);
            }
            ch if much && r.chance(1, 3) => match r.below(5) {
                0 => s.push_str(&format!("\\u{{{:x}}}", ch as u32)),
                1 => ch.to_string().bytes().for_each(|b| s.push_str(&format!("\\x{:02X}", b))),
                2 => ch.to_string().bytes().for_each(|b| s.push_str(&format!("\\{:03}", b))),
                3 if !v[i + ch.len_utf8()..].starts_with(|c: char| c.is_ascii_digit()) && ch.is_ascii() => s.push_str(&format!("\\{}", ch as u32)),
                // (white space after \z is no part of the string)
                _ if !ch.is_whitespace() => s.push_str(&format!("\\z {}\n\t{}", *r.pick(&["", "\n"]), ch)),
                _ => s.push(ch),
            },
            ch => s.push(ch),
        }
    }
    s.push(q);
    s
}

/// The text of a configuration file that says `c`.
fn config_text(r: &mut Rng, c: &Cfg, noise: bool) -> String {
    let mut s = String::new();
    if noise && r.chance(1, 8) {
        s.push_str("#!/usr/bin/lua\n");
    }
    for (k, v) in c {
        if noise && r.chance(1, 6) {
            s.push_str(*r.pick(&["-- a comment\n", "--[[ max_width = 3\n ]]", "\n\n", ";", "local max_width = 5\n", "print(\"x\")\n", "t.max_width = 7\n",
                "t = nil\n", "if true then indentation_string = \"??\" end\n", "function indentation_string() end\n"]));
        }
        let kind = OPTIONS.iter().find(|(n, _)| n == k).map(|(_, k)| *k);
        let bare = match kind {
            Some(OK::Bool) => v == "true" || v == "false",
            Some(OK::Fmt(_)) | Some(OK::Width) => !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()),
            _ => false,
        };
        let q = if v.contains('"') || r.chance(1, 4) { '\'' } else { '"' };
        let lit = if bare && r.chance(3, 4) { v.clone() } else { quoted(r, v, q) };
        let sp = if r.chance(1, 4) { "" } else { " " };
        let more = if noise && r.chance(1, 12) { *r.pick(&[", 2", ", \"x\", 1", ", nil"]) } else { "" };
        s.push_str(&format!("{}{}={}{}{}{}", k, sp, sp, lit, more, *r.pick(&["\n", "\n", "\n", ";\n", " -- x\n", "\n\n"])));
    }
    s
}

fn arg(c: &(String, String)) -> Vec<u8> {
    format!("--{}={}", c.0, c.1).into_bytes()
}

fn shuffle<T>(r: &mut Rng, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
}

const DIRS: [&str; 7] = ["a", "b", "sub", "x.lua", ".hidden", "with space", "ж"];
const LUA: [&str; 10] = ["m.lua", "x.lua", "y.lua", "init.lua", "a b.lua", "luafmt.lua", "я.lua", "z.test.lua", ".h.lua", "x.luafmt.lua"];
const OTHER: [&str; 9] = ["t.txt", "z.LUA", "w.lua.bak", ".lua", "noext", "lua", "k.lua~", "q.luac", "m.lua.orig"];
const CONF: [&str; 4] = [".luafmt.lua", ".luafmt_x.lua", ".luafmt-other.lua", ".luafmt.test.lua"];
const NOT_CONF: [&str; 6] = [".luafmt.lua.bak", ".luafmt", "luafmt.lua", ".luafm.lua", ".luafmt.txt", "_.luafmt.lua"];

fn join(d: &str, n: &str) -> String {
    if d.is_empty() {
        n.to_string()
    } else {
        format!("{}/{}", d, n)
    }
}

fn tree(r: &mut Rng, max_dirs: usize) -> Vec<String> {
    let mut dirs = vec![String::new()];
    for _ in 0..r.below(max_dirs + 1) {
        let d = r.pick(&dirs).clone();
        let n = join(&d, *r.pick(&DIRS));
        if d.matches('/').count() < 4 && !dirs.contains(&n) {
            dirs.push(n);
        }
    }
    dirs
}

/// how a path is written
fn spell(r: &mut Rng, cwd: &str, path: &str, dir: bool) -> Vec<u8> {
    let up = if cwd.is_empty() { String::new() } else { "../".repeat(cwd.matches('/').count() + 1) };
    let mut s = match r.below(6) {
        0 => format!("@ROOT@/{}", path),
        1 => format!("./{}{}", up, path),
        _ => format!("{}{}", up, path),
    };
    if s.is_empty() {
        s = ".".into();
    }
    if dir && r.chance(1, 4) && !s.ends_with('/') {
        s.push('/');
    }
    s.into_bytes()
}

fn inplace(r: &mut Rng) -> Vec<u8> {
    r.pick(&["-i", "--inplace", "-inplace", "--i"]).as_bytes().to_vec()
}
fn recursive(r: &mut Rng) -> Vec<u8> {
    r.pick(&["-r", "--recursive", "-recursive", "--r"]).as_bytes().to_vec()
}

fn put(s: &mut Scn, r: &mut Rng, path: String, body: Vec<u8>) {
    if s.files.iter().any(|(p, _)| *p == path) || s.dirs.contains(&path) || s.links.iter().any(|(p, _)| *p == path) {
        return;
    }
    if r.chance(1, 8) {
        s.modes.push((path.clone(), *r.pick(&[0o600, 0o755, 0o640, 0o777])));
    }
    s.files.push((path, body));
}

pub fn scenario(id: &str, r: &mut Rng) -> Scn {
    let mut s = Scn::default();
    match id {
        // in-place writing
        "C13" => {
            s.dirs = tree(r, 3);
            let mut opts: Vec<Vec<u8>> = vec![];
            let n = r.range(1, 6);
            for _ in 0..n {
                let d = r.pick(&s.dirs).clone();
                let name = if r.chance(1, 5) { *r.pick(&OTHER) } else { *r.pick(&LUA) };
                let broken = r.chance(1, 4);
                let c = content(r, broken);
                put(&mut s, r, join(&d, name), c);
            }
            if s.files.is_empty() {
                s.files.push(("only.lua".into(), b"x=1".to_vec()));
            }
            if r.chance(1, 4) {
                let t = r.pick(&s.files).0.clone();
                let d = r.pick(&s.dirs).clone();
                let p = join(&d, "link.lua");
                if !s.files.iter().any(|(f, _)| *f == p) {
                    s.links.push((p, format!("@ROOT@/{}", t)));
                }
            }
            if r.chance(2, 3) {
                for c in telling_cfg(r) {
                    opts.push(arg(&c));
                }
            } else if r.chance(2, 3) {
                let c = telling_cfg(r);
                let t = config_text(r, &c, false);
                s.files.push((".luafmt.lua".into(), t.into_bytes()));
                s.meaning.insert(".luafmt.lua".into(), Some(c));
            }
            if r.chance(4, 5) {
                opts.push(inplace(r));
            }
            if r.chance(1, 8) {
                opts.push(b"-v".to_vec());
            }
            if r.chance(1, 8) {
                opts.push(b"--line_range=1:2".to_vec());
            }
            let mut src: Vec<Vec<u8>> = vec![];
            let fs: Vec<String> = s.files.iter().map(|(p, _)| p.clone()).chain(s.links.iter().map(|(p, _)| p.clone())).collect();
            let k = r.range(1, 4);
            for _ in 0..k {
                src.push(match r.below(5) {
                    0 => {
                        let d = r.pick(&s.dirs).clone();
                        spell(r, "", &d, true)
                    }
                    1 if r.chance(1, 2) => b"missing.lua".to_vec(),
                    _ => {
                        let f = r.pick(&fs).clone();
                        spell(r, "", &f, false)
                    }
                });
            }
            if r.chance(1, 3) {
                opts.push(recursive(r));
            }
            if r.chance(1, 5) {
                s.fsize = Some(r.below(60) as u64);
            }
            s.args = src.into_iter().chain(opts).collect();
            shuffle(r, &mut s.args);
        }
        // which files
        "C14" => {
            s.dirs = tree(r, 7);
            let n = r.range(1, 12);
            for i in 0..n {
                let d = r.pick(&s.dirs).clone();
                let name = match r.below(8) {
                    0 | 1 => *r.pick(&OTHER),
                    2 => *r.pick(&CONF),
                    3 => *r.pick(&NOT_CONF),
                    _ => *r.pick(&LUA),
                };
                let body = format!("f{} = {}{}", i, r.below(100), *r.pick(&["", "\n", " "])).into_bytes();
                put(&mut s, r, join(&d, name), body);
            }
            if s.files.is_empty() {
                s.files.push(("only.lua".into(), b"x=1".to_vec()));
            }
            for k in 0..r.below(3) {
                let d = r.pick(&s.dirs).clone();
                let (t, n) = if r.chance(1, 2) { (r.pick(&s.dirs).clone(), format!("ln{}", k)) } else { (r.pick(&s.files).0.clone(), format!("ln{}.lua", k)) };
                let t = if r.chance(1, 8) { "nowhere".to_string() } else { t };
                s.links.push((join(&d, &n), format!("@ROOT@/{}", t)));
            }
            s.cwd = if r.chance(1, 4) { r.pick(&s.dirs).clone() } else { String::new() };
            let cwd = s.cwd.clone();
            let mut a: Vec<Vec<u8>> = vec![b"--write_newline_at_eof=true".to_vec()];
            for _ in 0..r.range(1, 3) {
                let x = match r.below(8) {
                    0..=3 => {
                        let d = r.pick(&s.dirs).clone();
                        spell(r, &cwd, &d, true)
                    }
                    4 | 5 => {
                        let f = r.pick(&s.files).0.clone();
                        spell(r, &cwd, &f, false)
                    }
                    6 if !s.links.is_empty() => {
                        let f = r.pick(&s.links).0.clone();
                        spell(r, &cwd, &f, false)
                    }
                    _ => r.pick(&["missing.lua", "missing/", "a/missing.lua", "\u{fffd}"]).as_bytes().to_vec(),
                };
                a.push(x);
            }
            if r.chance(1, 20) {
                a.push(b"\xff\xfe.lua".to_vec());
            }
            if r.chance(1, 2) {
                a.push(recursive(r));
            }
            if r.chance(1, 3) {
                a.push(inplace(r));
            }
            shuffle(r, &mut a);
            s.args = a;
        }
        // which configuration
        "C15" => {
            s.dirs = tree(r, 5);
            let dirs = s.dirs.clone();
            for d in &dirs {
                if r.chance(2, 5) {
                    let name = *r.pick(&CONF);
                    let p = join(d, name);
                    let (text, m) = match r.below(12) {
                        0 => ("x = = 1\n".to_string().into_bytes(), None),
                        1 => (b"max_width = \"\xff\"\n".to_vec(), None),
                        2 => (vec![], Some(vec![])),
                        3 => {
                            let mut c = random_cfg(r, 6);
                            cfgs::make_token_safe(&mut c);
                            (config_text(r, &c, true).into_bytes(), Some(c))
                        }
                        _ => {
                            let c = telling_cfg(r);
                            (config_text(r, &c, true).into_bytes(), Some(c))
                        }
                    };
                    s.files.push((p.clone(), text));
                    s.meaning.insert(p, m);
                }
                if r.chance(1, 3) {
                    let c = telling_cfg(r);
                    let t = config_text(r, &c, false);
                    let n = *r.pick(&NOT_CONF);
                    put(&mut s, r, join(d, n), t.into_bytes());
                }
            }
            for _ in 0..r.range(1, 5) {
                let d = r.pick(&dirs).clone();
                let n = *r.pick(&LUA);
                let body = format!("local t={{1,2}} if a then b() end local function f() return {{}} end{}", r.pick(&["", "\n", "\n\n"]));
                put(&mut s, r, join(&d, n), body.into_bytes());
            }
            if s.files.is_empty() {
                s.files.push(("only.lua".into(), b"x=1".to_vec()));
            }
            if r.chance(1, 3) {
                // links to files: the configuration is looked for where the file really is
                let d = r.pick(&dirs).clone();
                for k in 0..r.range(1, 4) {
                    let t = r.pick(&s.files).0.clone();
                    s.links.push((join(&d, &format!("ln{}.lua", k)), format!("@ROOT@/{}", t)));
                }
            }
            s.cwd = if r.chance(1, 3) { r.pick(&dirs).clone() } else { String::new() };
            let cwd = s.cwd.clone();
            let mut a: Vec<Vec<u8>> = vec![];
            match r.below(8) {
                0 => a.push(arg(&telling_cfg(r)[1])),
                1 => a.extend(telling_cfg(r).iter().map(arg)),
                2 => a.push(b"--line_range=1:1".to_vec()),
                3 => a.push(b"--max_width=wide".to_vec()),
                _ => {}
            }
            if r.chance(1, 10) {
                s.stdin = Some(b"local t={1,2} if a then b() end".to_vec());
            } else {
                let srcs: Vec<String> = s.files.iter().map(|(p, _)| p.clone()).chain(s.links.iter().map(|(p, _)| p.clone())).collect();
                for _ in 0..r.range(1, 4) {
                    if r.chance(1, 4) {
                        let d = r.pick(&dirs).clone();
                        a.push(spell(r, &cwd, &d, true));
                    } else {
                        let f = r.pick(&srcs).clone();
                        a.push(spell(r, &cwd, &f, false));
                    }
                }
            }
            if r.chance(1, 3) {
                a.push(recursive(r));
            }
            if r.chance(1, 4) {
                a.push(inplace(r));
            }
            shuffle(r, &mut a);
            s.args = a;
        }
        // what -v tells
        "C28" => {
            s.dirs = tree(r, 3);
            let dirs = s.dirs.clone();
            for d in &dirs {
                if r.chance(2, 3) {
                    let p = join(d, *r.pick(&CONF));
                    let mut c = random_cfg(r, 12);
                    if r.chance(1, 4) {
                        let v = (*r.pick(&["x", "-1", "1.5", "maybe"])).to_string();
                        c.push((r.pick(&OPTIONS[..]).0.to_string(), v));
                    }
                    if r.chance(1, 10) {
                        s.files.push((p.clone(), b"x = = 1\n".to_vec()));
                        s.meaning.insert(p, None);
                    } else {
                        let t = config_text(r, &c, true);
                        s.files.push((p.clone(), t.into_bytes()));
                        s.meaning.insert(p, Some(c));
                    }
                }
            }
            let mut a: Vec<Vec<u8>> = vec![];
            if r.chance(1, 5) {
                let b = r.chance(1, 6);
                s.stdin = Some(content(r, b));
            } else {
                for _ in 0..r.range(1, 3) {
                    let b = r.chance(1, 6);
                    let c = content(r, b);
                    let f = join(r.pick(&dirs), *r.pick(&LUA));
                    put(&mut s, r, f.clone(), c);
                    if r.chance(3, 4) {
                        a.push(spell(r, "", &f, false));
                    } else {
                        let d = r.pick(&dirs).clone();
                        a.push(spell(r, "", &d, true));
                    }
                }
                if r.chance(1, 4) {
                    a.push(recursive(r));
                }
            }
            if r.chance(1, 2) {
                a.extend(random_cfg(r, 12).iter().map(arg));
            }
            if r.chance(1, 3) {
                a.push(format!("--line_range={}", r.pick(&["1:1", "1:3", "2:2", "0:9", "007:12", "3:1"])).into_bytes());
            }
            if r.chance(1, 3) {
                a.push(inplace(r));
            }
            shuffle(r, &mut a);
            let at = r.below(a.len() + 1);
            a.insert(at, r.pick(&["-v", "--verbose", "-verbose", "--v"]).as_bytes().to_vec());
            s.args = a;
        }
        // what options mean
        _ => {
            let src = if r.chance(1, 2) { small_program(r) } else { "local t={1,2,a={}} if a then b() end x=f(1,'s').b.c+d --[[c]] -- e\nreturn function() end\n".into() };
            let mut c = random_cfg(r, 10);
            // values and names that do not belong
            for _ in 0..r.below(3) {
                let x = match r.below(6) {
                    0 => ("max_width".to_string(), r.pick(&["x", "-1", "1.5", "", "0x10", "99999999999999999999999", " 1"]).to_string()),
                    1 => ("remove_comments".to_string(), r.pick(&["1", "yes", "True", "", "TRUE", "false "]).to_string()),
                    2 => (r.pick(&["no_such_option", "MAX_WIDTH", "newline_format", "a", "max_width2"]).to_string(), "1".into()),
                    3 => ("newline_format_if".to_string(), r.pick(&["a", "true", "-2", "1:2"]).to_string()),
                    4 => ("hint_before_comment".to_string(), r.pick(&["a=b", "--", "=", "x"]).to_string()),
                    _ => ("newline_format_statement".to_string(), r.pick(&["0", "2", "3", "1"]).to_string()),
                };
                let k = r.below(c.len() + 1);
                c.insert(k, x);
            }
            // a hint for comments is not Lua where no comment is
            c.retain(|(k, v)| !(k.starts_with("hint_before_comment") && !v.trim().is_empty()) || src.contains("--"));
            let lr = if r.chance(1, 5) { Some(*r.pick(&["1:1", "1:2", "2:2", "1:100", "2:5", "x", "1", ":", "1:", "1:2:3", "99999999999999999999:1"])) } else { None };
            match r.below(3) {
                0 => {
                    s.args = c.iter().map(arg).collect();
                    s.stdin = Some(src.into_bytes());
                    if r.chance(1, 3) {
                        // nothing of this concerns the standard input
                        s.files.push((".luafmt.lua".into(), b"indentation_string = '???'\n".to_vec()));
                        s.meaning.insert(".luafmt.lua".into(), Some(vec![("indentation_string".into(), "???".into())]));
                    }
                }
                1 => {
                    s.args = c.iter().map(arg).collect();
                    s.files.push(("m.lua".into(), src.into_bytes()));
                    s.args.push(b"m.lua".to_vec());
                }
                _ => {
                    s.files.push(("m.lua".into(), src.into_bytes()));
                    let t = config_text(r, &c, true);
                    s.files.push((".luafmt.lua".into(), t.into_bytes()));
                    s.meaning.insert(".luafmt.lua".into(), Some(c));
                    s.args.push(b"m.lua".to_vec());
                }
            }
            if let Some(l) = lr {
                s.args.push(format!("--line_range={}", l).into_bytes());
            }
            if r.chance(1, 6) {
                s.args.push(r.pick(&["-x", "--", "-", "--foo", "-1", "--max_width", "--a-b=1", "---i", "--=1", "-iv", "--max_width:3"]).as_bytes().to_vec());
            }
            if s.stdin.is_some() && r.chance(1, 6) {
                s.args.push(inplace(r));
            }
            if r.chance(1, 12) {
                s.stdin = s.stdin.map(|mut b| {
                    b.extend(*b"\xff");
                    b
                });
            }
            if r.chance(1, 25) {
                s.full = true;
            }
        }
    }
    s.dirs.retain(|d| !d.is_empty());
    s
}

/// every option by itself: over standard input and options, a file and options, a file and a configuration file
pub fn probe_cases() -> Vec<Case> {
    let mut v = vec![];
    for (name, value, base, src, without, with) in crate::probes::PROBES {
        for on in [false, true] {
            let mut c: Cfg = base.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            if on {
                c.insert(c.len() / 2, (name.to_string(), value.to_string()));
            } else if c.is_empty() {
                // some option has to be there
                c.push(("remove_comments".into(), "false".into()));
            }
            for way in 0..3 {
                let mut s = Scn::default();
                if way < 2 {
                    s.args = c.iter().map(arg).collect();
                } else {
                    let text: String = c.iter().map(|(k, v)| format!("{} = \"{}\"\n", k, v)).collect();
                    s.files.push((".luafmt.lua".into(), text.into_bytes()));
                    s.meaning.insert(".luafmt.lua".into(), Some(c.clone()));
                }
                if way == 0 {
                    s.stdin = Some(src.as_bytes().to_vec());
                } else {
                    s.files.push(("m.lua".into(), src.as_bytes().to_vec()));
                    s.args.push(b"m.lua".to_vec());
                }
                let mut c = s.case();
                c.aux.push(("golden".into(), if on { with } else { without }.to_string()));
                v.push(c);
            }
        }
    }
    v
}

// ---------------------------------------------------------------- what is expected

fn valid(k: &str, v: &str) -> Option<bool> {
    let digits = |v: &str| !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()) && v.parse::<u64>().is_ok();
    if k == "line_range" {
        let mut p = v.split(':');
        return Some(match (p.next(), p.next(), p.next()) {
            (Some(a), Some(b), None) => digits(a) && digits(b),
            _ => false,
        });
    }
    OPTIONS.iter().find(|(n, _)| *n == k).map(|(_, kind)| match kind {
        OK::Bool => v == "true" || v == "false",
        OK::Fmt(_) | OK::Width => digits(v),
        _ => true,
    })
}

/// the options that count, and complaints about the others
fn filter(c: &Cfg) -> (Cfg, Vec<Vec<String>>) {
    let (mut good, mut bad) = (vec![], vec![]);
    for (k, v) in c {
        match valid(k, v) {
            Some(true) => good.push((k.clone(), v.clone())),
            Some(false) => bad.push(vec![k.clone(), v.clone()]),
            None => bad.push(vec![k.clone()]),
        }
    }
    (good, bad)
}

#[derive(Default)]
struct Expect {
    /// what is printed: groups in order, each a set without order
    groups: Vec<Vec<String>>,
    /// one entry per complaint: words that stand in one line of the error output
    errors: Vec<Vec<String>>,
    /// files that are written: (canonical path, old, new)
    writes: Vec<(PathBuf, Vec<u8>, Vec<u8>)>,
    /// paths that are formatted without a complaint, as displayed
    fine: Vec<String>,
    /// final contents
    now: BTreeMap<PathBuf, Vec<u8>>,
    inplace: bool,
    verbose: bool,
    formatted: u64,
    failed: u64,
    dirs: u64,
    configured: u64,
    panicked: bool,
    /// what -v says: the file, the options in force when it is formatted, the text that is printed after that
    told: Vec<Told>,
}

/// One text that is taken up: which of the paths leads there, the file, the options in force when it is formatted,
/// the text that is printed after that.
#[derive(Clone)]
struct Told {
    from: usize,
    name: Option<String>,
    cfg: Option<Cfg>,
    text: Option<String>,
}

fn list(real: &Path, shown: &str, recursive: bool, chain: &mut Vec<PathBuf>, out: &mut Vec<(PathBuf, String)>) -> bool {
    if real.is_dir() {
        let canon = fs::canonicalize(real).unwrap();
        if chain.contains(&canon) {
            return true;
        }
        chain.push(canon);
        let mut names: Vec<OsString> = fs::read_dir(real).unwrap().map(|e| e.unwrap().file_name()).collect();
        names.sort();
        for n in names {
            let p = real.join(&n);
            let n = n.to_string_lossy().to_string();
            let sh = if shown.ends_with('/') { format!("{}{}", shown, n) } else { format!("{}/{}", shown, n) };
            if p.is_dir() {
                if recursive {
                    list(&p, &sh, true, chain, out);
                }
            } else if p.is_file() && is_lua(&n) && !n.starts_with(".luafmt") {
                out.push((p, sh));
            }
        }
        chain.pop();
        true
    } else if real.is_file() {
        out.push((real.to_path_buf(), shown.to_string()));
        true
    } else {
        false
    }
}

fn is_lua(name: &str) -> bool {
    name.rfind('.').map_or(false, |i| i > 0 && &name[i + 1..] == "lua")
}

fn config_of(canon: &Path) -> Option<PathBuf> {
    for d in canon.parent()?.ancestors() {
        if let Ok(es) = fs::read_dir(d) {
            for e in es.flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                if n.starts_with(".luafmt") && is_lua(&n) && e.path().is_file() {
                    return Some(e.path());
                }
            }
        }
    }
    None
}

fn expect(s: &Scn, root: &Path) -> Expect {
    let mut x = Expect::default();
    let mut opts: Cfg = vec![];
    let mut srcs: Vec<String> = vec![];
    let mut rec = false;
    let rt = root.to_str().unwrap();
    for a in &s.args {
        let a = String::from_utf8_lossy(a).replace("@ROOT@", rt);
        if !a.starts_with('-') {
            srcs.push(a);
            continue;
        }
        let named = a.strip_prefix("--").and_then(|b| b.split_once('=')).filter(|(n, _)| !n.is_empty() && n.bytes().all(|c| c == b'_' || c.is_ascii_alphanumeric()));
        if let Some((n, v)) = named {
            opts.push((n.to_string(), v.to_string()));
            continue;
        }
        match &a[..] {
            "-i" | "--i" | "-inplace" | "--inplace" => x.inplace = true,
            "-r" | "--r" | "-recursive" | "--recursive" => rec = true,
            "-v" | "--v" | "-verbose" | "--verbose" => x.verbose = true,
            _ => x.errors.push(vec![a.clone()]),
        }
    }
    srcs.sort();
    let (good, bad) = filter(&opts);
    x.errors.extend(bad);
    let own = good.iter().any(|(k, _)| k != "line_range");
    for f in s.files.iter().map(|(p, _)| root.join(p)) {
        if let Ok(c) = fs::canonicalize(&f) {
            x.now.insert(c, fs::read(&f).unwrap());
        }
    }
    if srcs.is_empty() {
        let text = s.stdin.clone().unwrap_or_default();
        let mut g = vec![];
        x.told.push(Told { from: 0, name: None, cfg: std::str::from_utf8(&text).ok().map(|_| good.clone()), text: None });
        match String::from_utf8(text) {
            Ok(t) => match run(&t, &good) {
                Run::Ok(o) => {
                    x.told[0].text = Some(o.clone());
                    g.push(o);
                    x.formatted += 1;
                }
                Run::Panic(_) => x.panicked = true,
                _ => {
                    x.errors.push(vec![]);
                    x.failed += 1;
                }
            },
            Err(_) => {
                x.errors.push(vec![]);
                x.failed += 1;
            }
        }
        x.groups.push(g);
        return x;
    }
    let base = if s.cwd.is_empty() { root.to_path_buf() } else { root.join(&s.cwd) };
    for (from, src) in srcs.into_iter().enumerate() {
        let mut files = vec![];
        let real = base.join(&src);
        if real.is_dir() {
            x.dirs += 1;
        }
        if !list(&real, &src, rec, &mut vec![], &mut files) {
            x.errors.push(vec![src]);
            continue;
        }
        let mut g = vec![];
        for (real, shown) in files {
            let canon = fs::canonicalize(&real).unwrap();
            let bytes = x.now.get(&canon).cloned().unwrap_or_default();
            let mut cfg = good.clone();
            let mut ok = true;
            let text = String::from_utf8(bytes.clone());
            if text.is_err() {
                ok = false;
            } else if !own {
                match config_of(&canon) {
                    None => ok = false,
                    Some(p) => {
                        x.configured += 1;
                        let rel = fs::canonicalize(&p).ok().and_then(|p| p.strip_prefix(fs::canonicalize(root).unwrap()).ok().map(|p| p.to_string_lossy().to_string()));
                        match rel.and_then(|r| s.meaning.get(&r).cloned()) {
                            Some(Some(m)) => {
                                let (m, bad) = filter(&m);
                                x.errors.extend(bad);
                                cfg.extend(m);
                            }
                            _ => ok = false,
                        }
                    }
                }
            }
            x.told.push(Told { from, name: Some(shown.clone()), cfg: if ok { Some(cfg.clone()) } else { None }, text: None });
            let out = match (ok, text) {
                (true, Ok(t)) => match run(&t, &cfg) {
                    Run::Ok(o) => Some(o),
                    Run::Panic(_) => {
                        x.panicked = true;
                        None
                    }
                    _ => None,
                },
                _ => None,
            };
            match out {
                Some(o) => {
                    x.formatted += 1;
                    x.fine.push(shown.clone());
                    if x.inplace {
                        let cut = s.fsize.map_or(false, |n| o.len() as u64 > n);
                        x.writes.push((canon.clone(), bytes, o.clone().into_bytes()));
                        if cut {
                            x.fine.pop();
                            x.errors.push(vec![shown]);
                        } else {
                            x.now.insert(canon, o.into_bytes());
                        }
                    } else {
                        x.told.last_mut().unwrap().text = Some(o.clone());
                        g.push(o);
                    }
                }
                None => {
                    x.failed += 1;
                    x.errors.push(vec![shown]);
                }
            }
        }
        x.groups.push(g);
    }
    x
}

/// The options in force, as they are written in a list of options: the last setting of each.
fn in_force(c: &Cfg) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for (k, v) in c {
        let kind = OPTIONS.iter().find(|(n, _)| n == k).map(|(_, kind)| *kind);
        let shown = match kind {
            None => {
                let (a, b) = v.split_once(':').unwrap_or(("0", "0"));
                format!("({}, {})", a.parse::<u64>().unwrap_or(0), b.parse::<u64>().unwrap_or(0))
            }
            Some(OK::Bool) => v.clone(),
            Some(OK::Fmt(_)) | Some(OK::Width) => v.parse::<u64>().unwrap_or(0).to_string(),
            _ => format!("{:?}", v),
        };
        m.insert(k.clone(), shown);
    }
    m
}

/// Does `out` tell, file after file, which is taken up, with which options, and what becomes of it?
fn tells(out: &str, told: &[Told]) -> Result<u64, String> {
    let mut rest = out;
    let mut options = 0;
    if told.iter().all(|t| t.name.is_none() && t.cfg.is_none()) {
        // nothing is taken up
        return Ok(0);
    }
    let mut left: Vec<&Told> = told.iter().collect();
    while let Some(first) = left.first() {
        let mut k = 0;
        if first.name.is_some() {
            // the files of one directory come in any order
            let line = rest.split_inclusive('\n').find(|l| l.contains('`')).unwrap_or("");
            let at = left.iter().position(|t| t.from == first.from && line.ends_with(&format!("`{}`\n", t.name.as_ref().unwrap())));
            match at {
                Some(i) => {
                    k = i;
                    rest = &rest[line.as_ptr() as usize - rest.as_ptr() as usize + line.len()..];
                }
                None => return Err(format!("{:?} is not announced", first.name)),
            }
        }
        let Told { name, cfg, text, .. } = left.remove(k);
        if let Some(c) = cfg {
            let start = match rest.find("{\n") {
                Some(k) if name.is_none() || rest[..k].lines().count() <= 1 => k + 2,
                _ => return Err(format!("no options are listed for {:?}", name)),
            };
            let len = match rest[start..].find("}\n") {
                Some(0) => 0,
                _ => match rest[start..].find("\n}\n") {
                    Some(k) => k + 1,
                    None => return Err(format!("the options for {:?} do not end", name)),
                },
            };
            let mut seen = BTreeMap::new();
            for l in rest[start..start + len].lines() {
                let l = l.trim();
                match l.strip_suffix(',').unwrap_or(l).split_once(": ") {
                    Some((k, v)) => {
                        if seen.insert(k.to_string(), v.to_string()).is_some() {
                            return Err(format!("{:?} is listed twice", k));
                        }
                    }
                    None => return Err(format!("{:?} is no option", l)),
                }
            }
            let want = in_force(c);
            options += want.len() as u64;
            if seen != want {
                let odd = want.iter().find(|(k, v)| seen.get(*k) != Some(v)).or_else(|| seen.iter().find(|(k, _)| !want.contains_key(*k)));
                return Err(format!("the options in force for {:?} are {:?}, told are {:?}; see {:?}", name, want, seen, odd));
            }
            rest = &rest[start + len + 2..];
        }
        if let Some(t) = text {
            rest = rest.strip_prefix(&t[..]).ok_or_else(|| format!("{:?} does not follow", t))?;
        }
    }
    if rest.trim().is_empty() {
        Ok(options)
    } else {
        Err(format!("{:?} is left over", clip(rest, 0)))
    }
}

/// can `s` be made of the groups in order, each in any order of its own?
fn made_of(s: &str, groups: &[Vec<String>]) -> bool {
    fn go(s: &str, groups: &[Vec<String>], used: &mut Vec<bool>, fuel: &mut usize) -> bool {
        if *fuel == 0 {
            return true;
        }
        *fuel -= 1;
        let g = match groups.first() {
            None => return s.is_empty(),
            Some(g) => g,
        };
        if used.iter().filter(|u| **u).count() == g.len() {
            let mut n = vec![false; groups.get(1).map_or(0, |g| g.len())];
            return go(s, &groups[1..], &mut n, fuel);
        }
        for i in 0..g.len() {
            // of equal ones, the first
            if used[i] || (0..i).any(|j| !used[j] && g[j] == g[i]) || !s.starts_with(&g[i][..]) {
                continue;
            }
            used[i] = true;
            if go(&s[g[i].len()..], groups, used, fuel) {
                return true;
            }
            used[i] = false;
        }
        false
    }
    let mut used = vec![false; groups.first().map_or(0, |g| g.len())];
    go(s, groups, &mut used, &mut 200_000)
}

// ---------------------------------------------------------------- running

pub fn binary() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("luafmt")
}

pub struct Ran {
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub slow: bool,
}

pub fn run_cli(cwd: &Path, args: &[Vec<u8>], stdin: Option<&[u8]>, fsize: Option<u64>, env: &[(String, String)], full: bool) -> Ran {
    let mut c = Command::new(binary());
    c.current_dir(cwd).args(args.iter().map(|a| OsString::from_vec(a.clone()))).stderr(Stdio::piped());
    c.stdout(if full { Stdio::from(fs::OpenOptions::new().write(true).open("/dev/full").unwrap_or_else(|_| fs::File::open("/dev/null").unwrap())) } else { Stdio::piped() });
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    c.env_remove("RUST_BACKTRACE");
    for (k, v) in env {
        c.env(k, v);
    }
    if let Some(n) = fsize {
        unsafe {
            c.pre_exec(move || {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                Ok(())
            });
        }
    }
    let mut ch = c.spawn().unwrap();
    let input = stdin.map(|b| b.to_vec());
    let w = ch.stdin.take().map(|mut p| {
        std::thread::spawn(move || {
            let _ = p.write_all(&input.unwrap_or_default());
        })
    });
    fn reader<T: std::io::Read + Send + 'static>(p: Option<T>) -> std::thread::JoinHandle<Vec<u8>> {
        std::thread::spawn(move || {
            let mut v = vec![];
            if let Some(mut p) = p {
                let _ = p.read_to_end(&mut v);
            }
            v
        })
    }
    let (o, e) = (reader(ch.stdout.take()), reader(ch.stderr.take()));
    let end = Instant::now() + Duration::from_secs(60);
    let mut slow = false;
    let mut nap = 200;
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        if Instant::now() > end {
            slow = true;
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
    };
    if let Some(w) = w {
        let _ = w.join();
    }
    Ran { out: o.join().unwrap(), err: e.join().unwrap(), code: status.code(), signal: status.signal(), slow }
}

static SEQ: AtomicU64 = AtomicU64::new(0);

/// a scratch directory that goes away
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("luamon-cli.{}.{}", std::process::id(), SEQ.fetch_add(1, Ordering::SeqCst)));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).unwrap();
        Scratch(fs::canonicalize(&p).unwrap())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn build(s: &Scn, root: &Path) {
    for d in &s.dirs {
        fs::create_dir_all(root.join(d)).unwrap();
    }
    for (p, c) in &s.files {
        fs::create_dir_all(root.join(p).parent().unwrap()).unwrap();
        fs::write(root.join(p), c).unwrap();
    }
    for (p, t) in &s.links {
        let t = t.replace("@ROOT@", root.to_str().unwrap());
        let _ = std::os::unix::fs::symlink(t, root.join(p));
    }
    for (p, m) in &s.modes {
        let _ = fs::set_permissions(root.join(p), fs::Permissions::from_mode(*m));
    }
}

#[derive(PartialEq, Debug)]
enum Ent {
    Dir,
    File(u32, Vec<u8>),
    Link(PathBuf),
}

fn snapshot(dir: &Path, out: &mut BTreeMap<PathBuf, Ent>) {
    for e in fs::read_dir(dir).unwrap().flatten() {
        let p = e.path();
        let m = fs::symlink_metadata(&p).unwrap();
        if m.file_type().is_symlink() {
            out.insert(p.clone(), Ent::Link(fs::read_link(&p).unwrap()));
        } else if m.is_dir() {
            out.insert(p.clone(), Ent::Dir);
            snapshot(&p, out);
        } else {
            out.insert(p.clone(), Ent::File(m.permissions().mode() & 0o7777, fs::read(&p).unwrap()));
        }
    }
}

pub fn judge(c: &Case) -> Verdict {
    let v: Value = match serde_json::from_str(c.aux("scenario")) {
        Ok(v) => v,
        Err(_) => return skip("no scenario"),
    };
    let s = Scn::from(&v);
    let scratch = Scratch::new();
    let root = &scratch.0;
    build(&s, root);
    let mut before = BTreeMap::new();
    snapshot(root, &mut before);
    let x = expect(&s, root);
    if x.panicked {
        return skip("panic");
    }
    if s.fsize.is_some() && (0..x.writes.len()).any(|i| x.writes[..i].iter().any(|w| w.0 == x.writes[i].0)) {
        return skip("the same file twice under a write limit");
    }
    if s.fsize.is_some() && x.writes.iter().any(|w| s.meaning.keys().any(|k| root.join(k) == w.0)) {
        return skip("a configuration file rewritten under a write limit");
    }
    // a configuration file that the run itself rewrites must go on saying the same
    for w in x.writes.iter().filter(|w| w.1 != w.2 && s.meaning.keys().any(|k| root.join(k) == w.0)) {
        let an = |b: &[u8]| An::new(&String::from_utf8_lossy(b)).ok();
        let same = match (an(&w.1), an(&w.2)) {
            (Some(a), Some(b)) => same_code(&a, &b).is_ok(),
            _ => false,
        };
        if !same {
            return skip("a configuration file is rewritten and broken");
        }
    }
    let rt = root.to_str().unwrap().to_string();
    let args: Vec<Vec<u8>> = s
        .args
        .iter()
        .map(|a| match std::str::from_utf8(a) {
            Ok(t) => t.replace("@ROOT@", &rt).into_bytes(),
            Err(_) => a.clone(),
        })
        .collect();
    let cwd = if s.cwd.is_empty() { root.clone() } else { root.join(&s.cwd) };
    let ran = run_cli(&cwd, &args, s.stdin.as_deref(), s.fsize, &s.env, s.full);
    let mut after = BTreeMap::new();
    snapshot(root, &mut after);
    let out = String::from_utf8_lossy(&ran.out).to_string();
    let err = String::from_utf8_lossy(&ran.err).to_string();
    let bad = |m: String| {
        Verdict::Bad(format!(
            "{}\n  arguments {:?} in {:?}\n  stdout {:?}\n  stderr {:?}",
            m,
            args.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>(),
            s.cwd,
            clip(&out, 0),
            clip(&err, 0)
        ))
    };
    if ran.slow {
        return bad("the program does not end".into());
    }
    if let Some(n) = ran.signal {
        return bad(format!("the program was killed by signal {}", n));
    }
    if ran.code == Some(101) || err.contains("panicked at") {
        return bad("the program panicked".into());
    }
    // standard output
    let golden = c.aux.iter().find(|(k, _)| k == "golden");
    if let Some((_, g)) = golden {
        if out != *g {
            return bad(format!("{:?} expected on standard output", g));
        }
    }
    let mut listed = 0;
    if s.full {
    } else if x.verbose && c.aux.iter().any(|(k, _)| k == "told") {
        match tells(&out, &x.told) {
            Ok(n) => listed = n,
            Err(m) => return bad(m),
        }
    } else if x.verbose {
        for o in x.groups.iter().flatten() {
            if !out.contains(&o[..]) {
                return bad(format!("{:?} is not printed", o));
            }
        }
    } else if !made_of(&out, &x.groups) {
        return bad(format!("{:?} expected on standard output", x.groups));
    }
    // complaints
    for e in &x.errors {
        let ok = if e.is_empty() { !err.trim().is_empty() } else { err.contains(&e[0][..]) && e.iter().all(|w| err.contains(&w[..])) };
        if !ok {
            return bad(format!("nothing is reported about {:?}", e));
        }
    }
    if x.errors.is_empty() && !s.full && !err.trim().is_empty() {
        return bad("an error is reported where none is".into());
    }
    for f in &x.fine {
        let quoted = format!("`{}`", f);
        if err.contains(&quoted) && !x.errors.iter().any(|e| e.contains(f)) {
            return bad(format!("an error is reported about {:?}, which is in order", f));
        }
    }
    // files
    let mut lost = None;
    for (p, e) in &before {
        let f = match after.get(p) {
            None => return bad(format!("{} is gone", p.display())),
            Some(f) => f,
        };
        match (e, f) {
            (Ent::File(m, old), Ent::File(n, new)) => {
                if m != n {
                    return bad(format!("the mode of {} became {:o}", p.display(), n));
                }
                let want = fs::canonicalize(p).ok().and_then(|c| x.now.get(&c).cloned()).unwrap_or_else(|| old.clone());
                if *new == want {
                    continue;
                }
                if let Some(n) = s.fsize {
                    let w: Vec<_> = x.writes.iter().filter(|w| w.0 == *p).collect();
                    if !w.is_empty() && w.iter().any(|w| w.2.len() as u64 > n) {
                        // a failed write
                        if w.iter().any(|w| w.1 == *new || w.2 == *new) {
                            continue;
                        }
                        if w.iter().any(|w| w.2[..(n as usize).min(w.2.len())] == new[..]) {
                            lost = Some(format!("a failed write left {} cut short: {:?} instead of {:?}", p.display(), String::from_utf8_lossy(new), String::from_utf8_lossy(&want)));
                            continue;
                        }
                    }
                }
                return bad(format!("{} holds {:?}, not {:?}", p.display(), String::from_utf8_lossy(new), String::from_utf8_lossy(&want)));
            }
            (a, b) if a == b => {}
            _ => return bad(format!("{} is another kind of file", p.display())),
        }
    }
    for p in after.keys() {
        if !before.contains_key(p) {
            return bad(format!("{} was created", p.display()));
        }
    }
    if let Some(m) = lost {
        return bad(m);
    }
    let changed = x.writes.iter().filter(|w| w.1 != w.2).count() as u64;
    held_tags(
        x.formatted + x.failed > 0,
        c,
        vec![
            ("program runs", 1),
            ("files formatted", x.formatted),
            ("files refused", x.failed),
            ("files rewritten", changed),
            ("complaints expected", x.errors.len() as u64),
            ("directories listed", x.dirs),
            ("configuration files used", x.configured),
            ("options told", listed),
        ],
    )
}


// ---------------------------------------------------------------- one result for one text and configuration

pub fn repeat_case(r: &mut Rng) -> Case {
    let mut s = Scn::default();
    let cfg = match r.below(3) {
        0 => cfgs::shipped(),
        1 => telling_cfg(r),
        _ => {
            let mut c = cfgs::random_safe_cfg(r);
            if c.is_empty() {
                c = telling_cfg(r);
            }
            c
        }
    };
    for i in 0..r.range(2, 5) {
        let mut p = small_program(r);
        if r.chance(1, 8) {
            p = "x = = 1".into();
        }
        s.files.push((format!("{}.lua", i), p.into_bytes()));
    }
    for (k, vs) in [("LANG", &["C", "tr_TR.UTF-8", "ja_JP.eucJP", ""][..]), ("LC_ALL", &["C", "de_DE.UTF-8", "POSIX"]), ("TZ", &["UTC", "Asia/Tokyo"]), ("HOME", &["/", "/nonexistent", ""]),
        ("COLUMNS", &["10", "200", "0"]), ("TERM", &["dumb", "xterm-256color"]), ("NO_COLOR", &["1"]), ("LUAFMT_CONFIG", &["/dev/null"]), ("TMPDIR", &["/nonexistent"])] {
        if r.chance(1, 2) {
            s.env.push((k.to_string(), r.pick(vs).to_string()));
        }
    }
    let mut cfg = cfg;
    if r.chance(1, 3) {
        // every file has a directory and a configuration of its own, and some are named by links that lie side by side
        s.dirs.push("r".into());
        let links = r.chance(2, 3);
        let same = r.chance(1, 2);
        let text = s.files[0].1.clone();
        for i in 0..s.files.len() {
            let d = format!("d{}", i);
            let c = telling_cfg(r);
            s.dirs.push(d.clone());
            s.files[i].0 = format!("{}/f.lua", d);
            if same {
                s.files[i].1 = text.clone();
            }
            let conf = format!("{}/.luafmt.lua", d);
            s.files.push((conf.clone(), config_text(r, &c, false).into_bytes()));
            s.meaning.insert(conf, Some(c));
            if links {
                s.links.push((format!("r/{}.lua", i), format!("@ROOT@/{}/f.lua", d)));
            }
        }
        cfg = vec![];
    }
    let mut c = s.case();
    c.cfg = cfg;
    c
}

/// One run over files with configurations of their own against the library, each text for itself.
fn judge_own(c: &Case, s: &Scn) -> Verdict {
    let mut all: Vec<(String, String, Cfg)> = vec![];
    for (p, b) in s.files.iter().filter(|f| f.0.ends_with("/f.lua")) {
        let cfg = match s.meaning.get(&p.replace("/f.lua", "/.luafmt.lua")) {
            Some(Some(c)) => c.clone(),
            _ => return skip("no configuration"),
        };
        all.push((p.clone(), String::from_utf8_lossy(b).to_string(), cfg));
    }
    if all.is_empty() {
        return skip("no files");
    }
    let first: Vec<Run> = all.iter().map(|(_, t, c)| run(t, c)).collect();
    if first.iter().any(|r| matches!(r, Run::Panic(_))) {
        return skip("panic");
    }
    for i in (0..all.len()).rev() {
        let again = run(&all[i].1, &all[i].2);
        if again != first[i] {
            return Verdict::Bad(format!("formatted again: {:?} gave {:?} and then {:?}", all[i].1, first[i], again));
        }
    }
    let scratch = Scratch::new();
    let root = &scratch.0;
    build(s, root);
    let mut named: Vec<(String, usize)> = vec![];
    for (i, (p, _, _)) in all.iter().enumerate() {
        let target = format!("@ROOT@/{}", p);
        let l = s.links.iter().find(|l| l.1 == target);
        named.push((l.map_or(p.clone(), |l| l.0.clone()), i));
    }
    named.sort();
    let args: Vec<Vec<u8>> = named.iter().map(|n| n.0.clone().into_bytes()).collect();
    let ran = run_cli(root, &args, None, None, &s.env, false);
    let whole: String = named.iter().map(|n| match &first[n.1] { Run::Ok(o) => &o[..], _ => "" }).collect();
    if String::from_utf8_lossy(&ran.out) != whole {
        return Verdict::Bad(format!("the program prints {:?} for all files, the library gives {:?} for each with its own configuration", String::from_utf8_lossy(&ran.out), whole));
    }
    let mut rev = args;
    rev.reverse();
    rev.insert(0, b"-i".to_vec());
    run_cli(root, &rev, None, None, &s.env, false);
    for (i, (p, t, _)) in all.iter().enumerate() {
        let now = fs::read(root.join(p)).unwrap_or_default();
        let want = match &first[i] {
            Run::Ok(o) => o,
            _ => t,
        };
        if now != want.as_bytes() {
            return Verdict::Bad(format!("in place {:?} becomes {:?}, the library gives {:?}", t, String::from_utf8_lossy(&now), first[i]));
        }
    }
    held_tags(
        first.iter().any(|r| matches!(r, Run::Ok(_))),
        c,
        vec![("program runs", 2), ("library runs", 2 * all.len() as u64), ("configurations side by side", all.len() as u64)],
    )
}

/// The same texts: one after the other, again, in reverse order, in threads, by the program all in one run, one by one
/// through its standard input, in place.
pub fn judge_repeat(c: &Case) -> Verdict {
    let v: Value = match serde_json::from_str(c.aux("scenario")) {
        Ok(v) => v,
        Err(_) => return skip("no scenario"),
    };
    let s = Scn::from(&v);
    if !s.meaning.is_empty() {
        return judge_own(c, &s);
    }
    let texts: Vec<String> = s.files.iter().map(|(_, b)| String::from_utf8_lossy(b).to_string()).collect();
    let first: Vec<Run> = texts.iter().map(|t| run(t, &c.cfg)).collect();
    if first.iter().any(|r| matches!(r, Run::Panic(_))) {
        return skip("panic");
    }
    let differ = |how: &str, i: usize, a: &Run, b: &Run| Verdict::Bad(format!("{}: {:?} gave {:?} and then {:?}", how, texts[i], a, b));
    for i in (0..texts.len()).rev() {
        let again = run(&texts[i], &c.cfg);
        if again != first[i] {
            return differ("formatted again", i, &first[i], &again);
        }
    }
    let got: Vec<Run> = std::thread::scope(|sc| {
        let hs: Vec<_> = texts.iter().map(|t| sc.spawn(move || run(t, &c.cfg))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Run::Panic("thread".into()))).collect()
    });
    for i in 0..texts.len() {
        if got[i] != first[i] {
            return differ("in threads at once", i, &first[i], &got[i]);
        }
    }
    let scratch = Scratch::new();
    let root = &scratch.0;
    build(&s, root);
    let opts: Vec<Vec<u8>> = c.cfg.iter().map(arg).collect();
    let mut args = opts.clone();
    args.extend(s.files.iter().map(|(p, _)| p.clone().into_bytes()));
    let text = |r: &Run| match r {
        Run::Ok(o) => o.clone(),
        _ => String::new(),
    };
    let whole: String = first.iter().map(text).collect();
    let ran = run_cli(root, &args, None, None, &s.env, false);
    if String::from_utf8_lossy(&ran.out) != whole {
        return Verdict::Bad(format!("the program prints {:?} for all files, the library gives {:?} for each alone", String::from_utf8_lossy(&ran.out), whole));
    }
    let k = (c.cfg.len() + texts[0].len()) % texts.len();
    let sub = root.join("elsewhere");
    fs::create_dir_all(&sub).unwrap();
    let ran = run_cli(&sub, &opts, Some(texts[k].as_bytes()), None, &s.env, false);
    if String::from_utf8_lossy(&ran.out) != text(&first[k]) {
        return Verdict::Bad(format!("from standard input {:?} becomes {:?}, the library gives {:?}", texts[k], String::from_utf8_lossy(&ran.out), first[k]));
    }
    args.push(b"-i".to_vec());
    run_cli(root, &args, None, None, &s.env, false);
    for (i, (p, b)) in s.files.iter().enumerate() {
        let now = fs::read(root.join(p)).unwrap_or_default();
        let want = match &first[i] {
            Run::Ok(o) => o.clone().into_bytes(),
            _ => b.clone(),
        };
        if now != want {
            return Verdict::Bad(format!("in place {:?} becomes {:?}, the library gives {:?}", texts[i], String::from_utf8_lossy(&now), first[i]));
        }
    }
    held_tags(first.iter().any(|r| matches!(r, Run::Ok(_))), c, vec![("program runs", 3), ("library runs", 3 * texts.len() as u64)])
}
