//! Runs a property's cases in worker processes, watches these, keeps count, and reports.
use crate::cfgs::Cfg;
use crate::known;
use crate::props::{self, Case, Verdict};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

const SHARDS: u64 = 8;
/// processor seconds that one case may take
const CASE_CPU: f64 = 25.0;

fn now() -> f64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs_f64()
}

fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

struct Budget {
    cases: u64,
    secs: f64,
    keep_going: f64,
}

fn budget(id: &str, tier: &str) -> Budget {
    let cli = props::is_cli(id);
    let thorough = tier == "thorough";
    let f: f64 = std::env::var("LUAMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let (cases, secs) = match (cli, thorough) {
        (false, false) => (60_000, 40.0),
        (false, true) => (3_000_000, 420.0),
        (true, false) => (if id == "C18" { 8_000 } else { 30_000 }, 40.0),
        (true, true) => (300_000, 420.0),
    };
    let secs = if id == "C33" && !thorough { 80.0 } else { secs };
    Budget { cases: (cases as f64 * f) as u64, secs: secs * f, keep_going: 12.0 }
}

fn case_json(c: &Case) -> Value {
    json!({ "src": c.src, "cfg": c.cfg.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(), "aux": c.aux.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>() })
}
fn pairs(v: &Value) -> Cfg {
    v.as_array()
        .map(|a| a.iter().map(|p| (p[0].as_str().unwrap_or("").to_string(), p[1].as_str().unwrap_or("").to_string())).collect())
        .unwrap_or_default()
}
fn json_case(v: &Value) -> Case {
    Case { src: v["src"].as_str().unwrap_or("").to_string(), cfg: pairs(&v["cfg"]), aux: pairs(&v["aux"]) }
}

#[derive(Default)]
struct Stats {
    evaluated: u64,
    held: u64,
    keys: HashSet<u64>,
    tags: BTreeMap<String, u64>,
    skips: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
    bad: Vec<(u64, Case, String)>,
}

impl Stats {
    fn json(&self) -> Value {
        json!({
            "evaluated": self.evaluated, "held": self.held, "keys": self.keys.iter().map(|k| k.to_string()).collect::<Vec<_>>(), "tags": self.tags, "skips": self.skips,
            "samples": self.samples, "known": self.known,
            "bad": self.bad.iter().map(|(i, c, m)| json!({"index": i, "case": case_json(c), "message": m})).collect::<Vec<_>>(),
        })
    }
    fn merge(&mut self, v: &Value) {
        self.evaluated += v["evaluated"].as_u64().unwrap_or(0);
        self.held += v["held"].as_u64().unwrap_or(0);
        for k in v["keys"].as_array().into_iter().flatten() {
            self.keys.insert(k.as_str().unwrap_or("0").parse().unwrap_or(0));
        }
        for (to, name) in [(&mut self.tags, "tags"), (&mut self.skips, "skips"), (&mut self.known, "known")] {
            for (k, n) in v[name].as_object().into_iter().flatten() {
                *to.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            }
        }
        for s in v["samples"].as_array().into_iter().flatten() {
            if self.samples.len() < 6 {
                self.samples.push(s.as_str().unwrap_or("").to_string());
            }
        }
        for b in v["bad"].as_array().into_iter().flatten() {
            self.bad.push((b["index"].as_u64().unwrap_or(0), json_case(&b["case"]), b["message"].as_str().unwrap_or("").to_string()));
        }
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}…", s.chars().take(n).collect::<String>())
    }
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// args: id tier seed shard first cases deadline dir
pub fn worker(args: &[&str]) -> i32 {
    let (id, tier) = (args[0], args[1]);
    let seed: u64 = args[2].parse().unwrap();
    let shard: u64 = args[3].parse().unwrap();
    let first: u64 = args[4].parse().unwrap();
    let cases: u64 = args[5].parse().unwrap();
    let deadline: f64 = args[6].parse().unwrap();
    let dir = args[7];
    if std::env::var("LUAMON_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let progress = std::fs::OpenOptions::new().create(true).write(true).open(format!("{}/progress.{}", dir, shard)).unwrap();
    static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);
    std::thread::spawn(move || {
        let (mut seen, mut since) = (u64::MAX, cpu());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let c = CURRENT.load(Ordering::SeqCst);
            if c != seen {
                seen = c;
                since = cpu();
            } else if cpu() - since > CASE_CPU {
                unsafe { libc::_exit(42) };
            }
        }
    });
    let listed = known::load();
    let mut st = Stats::default();
    let mut i = first;
    let nfixed = crate::fixed::cases(id).len() as u64;
    while i < cases.max(nfixed) && st.bad.len() < 3 {
        // the hand-written cases are always gone through
        if i >= nfixed && now() > deadline {
            break;
        }
        progress.write_at(&i.to_le_bytes(), 0).unwrap();
        CURRENT.store(i, Ordering::SeqCst);
        let c = props::case(id, tier, seed, i);
        st.evaluated += 1;
        match props::judge(id, &c) {
            Verdict::Held { key, tags } => {
                st.held += 1;
                if let Some(k) = key {
                    if st.keys.insert(k) && st.samples.len() < 3 && i >= nfixed {
                        st.samples.push(clip(&c.show(), 700));
                    }
                }
                for (k, n) in tags {
                    *st.tags.entry(k).or_insert(0) += n;
                }
            }
            Verdict::Skip(why) => *st.skips.entry(why).or_insert(0) += 1,
            Verdict::Bad(msg) => match known::explains(id, &c, &msg, &listed) {
                Some(ids) => {
                    for k in ids {
                        *st.known.entry(k).or_insert(0) += 1;
                    }
                }
                None => {
                    let end = Instant::now() + Duration::from_secs(6);
                    let (c, msg) = shrink(id, c, msg, end, &listed);
                    st.bad.push((i, c, msg));
                }
            },
        }
        i += SHARDS;
    }
    std::fs::write(format!("{}/result.{}.{}", dir, shard, first), st.json().to_string()).unwrap();
    0
}

/// A smaller case that fails too.
fn shrink(id: &str, mut c: Case, mut msg: String, end: Instant, listed: &[known::Finding]) -> (Case, String) {
    if props::is_cli(id) {
        return (c, msg);
    }
    let fails = |c: &Case| -> Option<String> {
        match props::judge(id, c) {
            Verdict::Bad(m) if known::explains(id, c, &m, listed).is_none() => Some(m),
            _ => None,
        }
    };
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        let mut k = 0;
        while k < c.cfg.len() && Instant::now() < end {
            let mut d = c.clone();
            d.cfg.remove(k);
            match fails(&d) {
                Some(m) => {
                    c = d;
                    msg = m;
                    progress = true;
                }
                None => k += 1,
            }
        }
        // pieces: lines, then tokens and the gaps between them
        for fine in [false, true] {
            let pieces = |s: &str| -> Vec<String> {
                if !fine {
                    return s.split_inclusive('\n').map(|x| x.to_string()).collect();
                }
                let mut v: Vec<String> = vec![];
                let mut kind = 9;
                for ch in s.chars() {
                    let k = if ch.is_alphanumeric() || ch == '_' {
                        0
                    } else if ch == ' ' {
                        1
                    } else {
                        2
                    };
                    if k == kind && k != 2 {
                        v.last_mut().unwrap().push(ch);
                    } else {
                        v.push(ch.to_string());
                    }
                    kind = k;
                }
                v
            };
            let mut ps = pieces(&c.src);
            let mut size = (ps.len() / 2).max(1);
            loop {
                let mut at = 0;
                while at < ps.len() && Instant::now() < end {
                    let to = (at + size).min(ps.len());
                    let mut d = c.clone();
                    d.src = ps[..at].iter().chain(&ps[to..]).map(|s| &s[..]).collect();
                    match fails(&d) {
                        Some(m) => {
                            c = d;
                            msg = m;
                            ps.drain(at..to);
                            progress = true;
                        }
                        None => at += size,
                    }
                }
                if size == 1 || Instant::now() >= end {
                    break;
                }
                size = (size / 2).max(1);
            }
        }
    }
    (c, msg)
}

struct Shard {
    child: Child,
    shard: u64,
    first: u64,
    restarts: u32,
}

fn spawn(id: &str, tier: &str, seed: u64, shard: u64, first: u64, cases: u64, deadline: f64, dir: &str) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, tier, &seed.to_string(), &shard.to_string(), &first.to_string(), &cases.to_string(), &deadline.to_string(), dir])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .spawn()
        .unwrap()
}

pub fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let tier = std::env::var("LUAMON_TIER").unwrap_or(tier.to_string());
    let tier = &tier[..];
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let b = budget(id, tier);
    let dir = format!("{}/luamon.{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let deadline = now() + b.secs;
    let listed = known::load();
    let mut st = Stats::default();
    let mut shards: Vec<Shard> = (0..SHARDS)
        .map(|s| Shard { child: spawn(id, tier, seed, s, s, b.cases, deadline, &dir), shard: s, first: s, restarts: 0 })
        .collect();
    let mut lost = 0;
    while !shards.is_empty() {
        let mut i = 0;
        while i < shards.len() {
            let s = &mut shards[i];
            let status = match s.child.try_wait().unwrap() {
                None => {
                    if now() > deadline + 10.0 * CASE_CPU {
                        let _ = s.child.kill();
                    }
                    i += 1;
                    continue;
                }
                Some(x) => x,
            };
            if status.code() == Some(0) {
                let text = std::fs::read_to_string(format!("{}/result.{}.{}", dir, s.shard, s.first)).unwrap_or_default();
                st.merge(&serde_json::from_str(&text).unwrap_or(json!({})));
                shards.remove(i);
                continue;
            }
            let at = std::fs::read(format!("{}/progress.{}", dir, s.shard)).ok().filter(|v| v.len() == 8).map(|v| u64::from_le_bytes(v.try_into().unwrap()));
            let at = at.unwrap_or(s.first);
            let what = match (status.code(), status.signal()) {
                (Some(42), _) => format!("hang: more than {} s of processor time", CASE_CPU),
                (_, Some(n)) => format!("killed by signal {}", n),
                (c, _) => format!("ended with code {:?}", c),
            };
            st.evaluated += 1;
            lost += 1;
            if id == "C06" {
                let c = props::case(id, tier, seed, at);
                match known::explains(id, &c, &what, &listed) {
                    Some(ids) => {
                        for k in ids {
                            *st.known.entry(k).or_insert(0) += 1;
                        }
                    }
                    None => st.bad.push((at, c, what)),
                }
            } else {
                eprintln!("case {} of {}: {}", at, id, what);
                *st.skips.entry(format!("worker lost ({})", what)).or_insert(0) += 1;
            }
            if s.restarts < 12 && st.bad.len() < 3 {
                s.restarts += 1;
                s.first = at + SHARDS;
                s.child = spawn(id, tier, seed, s.shard, s.first, b.cases, deadline, &dir);
                i += 1;
            } else {
                shards.remove(i);
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let _ = std::fs::remove_dir_all(&dir);
    let _ = b.keep_going;

    // the recorded findings
    for f in listed.iter().filter(|f| f.property == id) {
        if still_fails(&f.id, id) {
            println!("KNOWN-FINDING: {}", f.line);
        } else {
            println!("recorded finding {} of {} does not show any more", f.id, id);
        }
    }
    st.bad.sort_by_key(|(_, c, _)| c.src.len());
    let root = known::root();
    let mut replay = String::new();
    if let Some((i, c, m)) = st.bad.first() {
        let _ = std::fs::create_dir_all(format!("{}/out", root));
        replay = format!("{}/out/{}.json", root, id);
        let v = json!({ "property": id, "tier": tier, "seed": seed, "index": i, "message": m, "case": case_json(c) });
        std::fs::write(&replay, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("{}", m);
        println!("{}", clip(&c.show(), 3000));
    }
    let mut cov = json!({
        "evaluations": st.evaluated,
        "distinct_nontrivial": st.keys.len(),
        "rule": props::rule(id),
        "samples": st.samples,
        "held": st.held,
        "not_judged": st.skips,
        "observed": st.tags,
        "known_finding_hits": st.known,
        "workers_lost": lost,
        "hand_written_cases": crate::fixed::cases(id).len(),
    });
    if st.samples.is_empty() {
        cov["samples"] = json!(st.bad.iter().map(|(_, c, _)| clip(&c.show(), 700)).collect::<Vec<_>>());
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": props::assumptions(id), "wall_s": t0.elapsed().as_secs_f64(), "violations": st.bad.len(),
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    std::fs::write(format!("{}/evidence/{}.json", root, id), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!(
        "{}: {} cases, {} held, {} distinct non-trivial, {} violations, {:.1} s; not judged: {:?}; observed: {:?}",
        id, st.evaluated, st.held, st.keys.len(), st.bad.len(), t0.elapsed().as_secs_f64(), st.skips, st.tags
    );
    if !st.bad.is_empty() {
        println!("VIOLATION property={} replay={}", id, replay);
        return 1;
    }
    if st.keys.is_empty() {
        println!("nothing was observed: no verdict");
        return 3;
    }
    0
}

fn still_fails(finding: &str, id: &str) -> bool {
    let c = match known::witness(finding) {
        Some(c) => c,
        None => return true,
    };
    if id == "C06" {
        // in a process of its own: it hangs or dies
        let mut child = Command::new(std::env::current_exe().unwrap())
            .arg("run")
            .args(c.cfg.iter().map(|(k, v)| format!("{}={}", k, v)))
            .stdin(Stdio::piped())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let _ = child.stdin.take().unwrap().write_all(c.src.as_bytes());
        let end = Instant::now() + Duration::from_secs(8);
        while Instant::now() < end {
            if let Some(s) = child.try_wait().unwrap() {
                return !s.success();
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        let _ = child.kill();
        let _ = child.wait();
        return true;
    }
    matches!(props::judge(id, &c), Verdict::Bad(_))
}

pub fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let c = json_case(&v["case"]);
    println!("{}", c.show());
    match props::judge(id, &c) {
        Verdict::Bad(m) => {
            println!("VIOLATED: {}", m);
            1
        }
        Verdict::Skip(w) => {
            println!("not judged: {}", w);
            0
        }
        Verdict::Held { .. } => {
            println!("held");
            0
        }
    }
}

pub fn try_range(id: &str, seed: u64, from: u64, n: u64) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut bad, mut held, mut skips) = (0, 0, BTreeMap::new());
    for i in from..from + n {
        let c = props::case(id, "quick", seed, i);
        match props::judge(id, &c) {
            Verdict::Bad(m) => {
                bad += 1;
                if bad <= 10 {
                    let (c, m) = shrink(id, c, m, Instant::now() + Duration::from_secs(6), &[]);
                    println!("==== {} {}\n{}\n", i, m, c.show());
                }
            }
            Verdict::Skip(w) => *skips.entry(w).or_insert(0) += 1,
            Verdict::Held { .. } => held += 1,
        }
    }
    println!("{} bad, {} held, skipped {:?}", bad, held, skips);
    0
}

/// the first property, in the order given, that is violated within some seconds each
pub fn battery(seconds: u64, seed: u64, ids: &[&str]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let listed = known::load();
    for id in ids {
        let start = Instant::now();
        let mut i = 0;
        while start.elapsed() < Duration::from_secs(seconds) {
            let c = props::case(id, "quick", seed, i);
            if let Verdict::Bad(m) = props::judge(id, &c) {
                if known::explains(id, &c, &m, &listed).is_none() {
                    println!("{} case {} {}", id, i, m.lines().next().unwrap_or(""));
                    return 1;
                }
            }
            i += 1;
        }
    }
    println!("none");
    0
}

pub fn run_stdin(cfg: &[&str]) -> i32 {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let c: Cfg = cfg.iter().filter_map(|a| a.split_once('=')).map(|(k, v)| (k.to_string(), v.to_string())).collect();
    match crate::oracle::run(&s, &c) {
        crate::oracle::Run::Ok(o) => {
            print!("{}", o);
            0
        }
        e => {
            eprintln!("{:?}", e);
            1
        }
    }
}
