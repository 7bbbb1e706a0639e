//! How much work the program does for texts that grow: instructions as valgrind counts them, and the bytes the library asks for.
use crate::cfgs::{self, set, unset, Cfg};
use crate::gen::{self, GenOpts, RenderOpts, Style};
use crate::oracle::An;
use crate::parse::NK;
use crate::props::{held_tags, skip, Case, Verdict};
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

/// Counts what the threads ask the allocator for.
pub struct Meter;

thread_local! {
    static ASKED: Cell<u64> = const { Cell::new(0) };
    static HELD: Cell<i64> = const { Cell::new(0) };
    static MOST: Cell<i64> = const { Cell::new(0) };
}

fn tick(asked: usize, given_back: usize) {
    let _ = ASKED.try_with(|c| c.set(c.get() + asked as u64));
    let _ = HELD.try_with(|h| {
        h.set(h.get() + asked as i64 - given_back as i64);
        let _ = MOST.try_with(|m| m.set(m.get().max(h.get())));
    });
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick(l.size(), 0);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tick(l.size(), 0);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        tick(0, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick(n, l.size());
        System.realloc(p, l, n)
    }
}

/// bytes asked for in all, and the most held at a time, for a text
fn bytes(src: &str, cfg: &Cfg) -> Option<(u64, u64)> {
    let (src, config) = (src.to_string(), cfgs::build(cfg));
    let (a, h) = (ASKED.with(|c| c.get()), HELD.with(|c| c.get()));
    MOST.with(|m| m.set(h));
    let out = luafmt::formatter::process_buffer_with_config(&src, &config, false);
    let got = (ASKED.with(|c| c.get()) - a, (MOST.with(|m| m.get()) - h).max(0) as u64);
    out.ok().map(|_| got)
}

/// text of size n
fn text(c: &Case, n: usize) -> String {
    format!("{}{}{}{}", c.aux("head"), c.aux("body").repeat(n), c.aux("tail"), c.aux("close").repeat(n))
}

fn case(head: &str, body: &str, tail: &str, close: &str, n: usize, cfg: Cfg) -> Case {
    let aux = [("head", head), ("body", body), ("tail", tail), ("close", close)];
    let mut c = Case { src: String::new(), cfg, aux: aux.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect() };
    c.aux.push(("n".into(), n.to_string()));
    // operators and brackets nest; the rest can be as long as one likes
    let nests = !close.is_empty() || body.trim_start().starts_with(|ch| "+.a".contains(ch)) && head.starts_with("x = a");
    c.aux.push(("many".into(), (if nests { n } else { n * 16 }).to_string()));
    c.aux.push(("count".into(), "1".into()));
    c.src = text(&c, 2);
    c
}

/// instructions, and what comes out
fn count(src: &str, cfg: &Cfg) -> Option<(u64, Vec<u8>)> {
    let mut p = Command::new("valgrind")
        .args(["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null", "--log-fd=2"])
        .arg(crate::cli::binary())
        .args(cfg.iter().map(|(k, v)| format!("--{}={}", k, v)))
        .current_dir("/")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .ok()?;
    let mut i = p.stdin.take()?;
    let s = src.to_string();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(s.as_bytes());
    });
    let mut e = p.stderr.take()?;
    let r = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = e.read_to_end(&mut v);
        v
    });
    let mut out = vec![];
    let _ = p.stdout.take()?.read_to_end(&mut out);
    let _ = w.join();
    let err = String::from_utf8_lossy(&r.join().ok()?).to_string();
    if !p.wait().ok()?.success() {
        return None;
    }
    let k = err.rfind("refs:")?;
    let n: String = err[k..].chars().skip(5).take_while(|c| c.is_ascii_digit() || *c == ',' || *c == ' ').filter(|c| c.is_ascii_digit()).collect();
    n.parse().ok().map(|n| (n, out))
}

/// what doubles may cost twice; what costs four times is counted as 4
const LIMIT: f64 = 2.6;

pub fn judge(c: &Case) -> Verdict {
    let mut tags = vec![];
    let n: usize = c.aux("many").parse().unwrap_or(10);
    let mut got = vec![];
    for k in [n, 2 * n, 4 * n] {
        let s = text(c, k);
        match bytes(&s, &c.cfg) {
            Some(b) => got.push(b),
            None => return skip("refused"),
        }
        tags.push(("characters formatted", s.chars().count() as u64));
    }
    for (what, v) in [("asked for", got.iter().map(|g| g.0 as f64).collect::<Vec<_>>()), ("held at a time", got.iter().map(|g| g.1 as f64).collect())] {
        let (first, second) = (v[1] - v[0], v[2] - v[1]);
        // the stack of indentations is as long as the nesting is deep, and is copied: little, as the nesting is limited
        let floor = if c.aux("many") == c.aux("n") { 5e7 } else { 4e6 };
        if second > floor && second > LIMIT * first.max(1.0) {
            return Verdict::Bad(format!(
                "the memory {} is out of proportion: {} bytes for {} pieces, {} for {}, {} for {}: from {} to {} pieces it grows {:.2} times as much as from {} to {}",
                what, v[0], n, v[1], 2 * n, v[2], 4 * n, 2 * n, 4 * n, second / first.max(1.0), n, 2 * n
            ));
        }
    }
    tags.push(("runs with memory measured", 3));
    tags.push(("bytes asked for", got.iter().map(|g| g.0).sum()));
    if c.aux("count") != "1" {
        return held_tags(true, c, tags);
    }

    let n: usize = c.aux("n").parse().unwrap_or(10);
    let mut costs = vec![];
    let mut chars = 0;
    for k in [n, 2 * n, 4 * n] {
        let s = text(c, k);
        match count(&s, &c.cfg) {
            Some((i, o)) => {
                if o.is_empty() {
                    return skip("refused, or nothing comes out");
                }
                chars += s.chars().count() as u64;
                costs.push(i);
            }
            None => return skip("no count"),
        }
    }
    let (first, second) = (costs[1] as f64 - costs[0] as f64, costs[2] as f64 - costs[1] as f64);
    // too little to tell
    if second < 200_000.0 {
        return skip("too little work");
    }
    if second > LIMIT * first.max(1.0) {
        return Verdict::Bad(format!(
            "the work is out of proportion: {} instructions for {} pieces, {} for {}, {} for {}: from {} to {} pieces it grows {:.2} times as much as from {} to {}",
            costs[0], n, costs[1], 2 * n, costs[2], 4 * n, 2 * n, 4 * n, second / first.max(1.0), n, 2 * n
        ));
    }
    tags.extend([("runs counted", 3), ("instructions counted", costs.iter().sum()), ("characters formatted", chars)]);
    held_tags(true, c, tags)
}

/// no single-line and no indentation trials: these go through what is nested again and again (a recorded finding)
fn plain(mut c: Cfg) -> Cfg {
    unset(&mut c, "max_width");
    c.retain(|(k, _)| !k.starts_with("indent_") && !k.starts_with("force_"));
    c
}

pub fn fixed() -> Vec<Case> {
    let mut v = vec![];
    for cfg in [vec![], cfgs::shipped()] {
        for (head, body, tail, n) in [
            ("", "local t = { 1, 2, a = b.c.d(1, 2) + 3 } -- c\nif a then b() else c() end\nfunction f(a, b) return a, b end\n", "", 12),
            ("t = { ", "1, ", "}", 250),
            ("t = { ", "a = 1, ", "}", 150),
            ("f(", "a, ", "b)", 250),
            ("local a", ", b", "", 250),
            ("a", ", b", " = c", 250),
            ("for a", ", b", " in c do end", 250),
            ("x = a", ".b", "", 70),
            ("x = a", " + b", "", 60),
            ("x = a", ":b()", "", 60),
            ("if a then b() ", "elseif c then d() ", "end", 50),
            ("", "\n", "", 2000),
            ("", " ", "", 3000),
            ("", "-- c\n", "", 300),
            ("", "--[[ c ]] ", "", 300),
            ("x = 'a", "bc ", "'", 1500),
            ("x = [[", "ab\n", "]]", 1500),
            ("-- ", "ab ", "", 1500),
            ("--[[ ", "ab\n", " ]]", 1500),
            ("do ", "a() ", "end", 200),
            ("function f() ", "local a = b ", "end", 150),
            ("function f(", "a, ", "b) end", 150),
            ("", ";", "", 400),
            ("a", "b", " = 1", 3000),
            ("", "a() ", "", 200),
        ] {
            v.push(case(head, body, tail, "", n, cfg.clone()));
        }
    }
    for cfg in [vec![], plain(cfgs::shipped())] {
        for (head, body, tail, close) in [
            ("", "do ", "x = 1", " end"),
            ("", "if a then ", "b()", " end"),
            ("", "if a then b() else ", "c()", " end"),
            ("x = ", "(", "1", ")"),
            ("x = ", "{ ", "1", " }"),
            ("x = ", "{ a = ", "1", " }"),
            ("x = ", "f(", "1", ")"),
            ("x = ", "a[", "1", "]"),
            ("x = ", "function() return ", "1", " end"),
            ("x = ", "not ", "a", ""),
            ("x = ", "a .. (", "b", ")"),
        ] {
            v.push(case(head, body, tail, close, 14, cfg.clone()));
        }
    }
    for range in ["1:1", "3:5", "1:100000"] {
        for mut cfg in [vec![], cfgs::shipped()] {
            set(&mut cfg, "line_range", range);
            v.push(case("", "local t = { 1, 2, a = b.c.d(1, 2) + 3 } -- c\nif a then b() else c() end\n", "", "", 16, cfg));
        }
    }
    v
}

fn program(r: &mut Rng, stats: usize) -> String {
    let mut o = GenOpts::random(r);
    o.stats = stats;
    o.returns = false;
    o.shebang = false;
    o.depth = r.below(3);
    o.edepth = r.range(0, 2);
    let mut ro = RenderOpts::random(r);
    ro.style = *r.pick(&[Style::Pretty, Style::Compact]);
    ro.crlf = false;
    gen::program_with(r, o, ro)
}

/// an expression
fn expression(r: &mut Rng) -> Option<String> {
    let an = An::new(&program(r, 3)).ok()?;
    let mut v = vec![];
    an.root.walk(&mut |n| {
        if matches!(n.k, NK::Bin | NK::Un | NK::Table | NK::Suffixed | NK::FuncExpr | NK::Atom | NK::Paren) {
            v.push(an.src[an.lx.toks[n.s].s..an.lx.toks[n.e - 1].e].to_string());
        }
    });
    if v.is_empty() {
        return None;
    }
    Some(r.pick(&v).clone())
}

pub fn random(r: &mut Rng) -> Case {
    loop {
        let (mut head, mut tail, mut most) = (String::new(), String::new(), 100_000);
        let body: String;
        let e = match expression(r) {
            Some(e) => e,
            None => continue,
        };
        match r.below(8) {
            0 | 1 => body = format!("{}\n", program(r, 3).trim_end()),
            2 => {
                head = "t = { ".into();
                body = format!("{}{}, ", r.pick(&["", "a = ", "[1] = "]), e);
                tail = "}".into();
            }
            3 => {
                head = (*r.pick(&["f(", "local x = ", "return ", "a:b("])).into();
                body = format!("{}, ", e);
                tail = if head.ends_with('(') { "0)".into() } else { "0".into() };
            }
            4 => {
                let (h, t) = *r.pick(&[("function f() ", " end"), ("do ", " end"), ("while a do ", " end"), ("if a then ", " end"), ("x = function() ", " end"), ("repeat ", " until a")]);
                head = h.into();
                body = format!("{}\n", program(r, 2).trim_end());
                tail = t.into();
            }
            5 => {
                body = format!("{}\n", gen::comment(r, true, true, false));
                tail = "x = 1\n".into();
            }
            6 => {
                head = "if a then b() ".into();
                body = format!("elseif {} then {}\n", e, program(r, 1).trim_end());
                tail = "end".into();
            }
            _ => {
                head = "x = a".into();
                body = (*r.pick(&[" .. b", ".b", ":b(1)", "[c]", "{d}", " + c.d", " and b == c"])).into();
                most = 70;
            }
        }
        let n = (1000 / body.len().max(1)).max(4).min(most);
        let mut cfg = if r.chance(1, 3) { cfgs::shipped() } else { cfgs::random_safe_cfg(r) };
        unset(&mut cfg, "line_range");
        let mut c = case(&head, &body, &tail, "", n, cfg);
        if !r.chance(1, 5) {
            c.aux.retain(|(k, _)| k != "count");
        }
        if An::new(&c.src).is_ok() && crate::props::nesting(&c.src) <= 3 {
            return c;
        }
    }
}
