mod cfgs;
mod cli;
mod effort;
mod fixed;
mod gen;
mod known;
mod layout;
mod lex;
mod meta;
mod oracle;
mod parse;
mod probes;
mod props;
mod rng;
mod runner;

#[global_allocator]
static METER: effort::Meter = effort::Meter;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| &s[..]).collect();
    let code = match &a[1..] {
        ["check", id, tier] => runner::check(id, tier),
        ["worker", rest @ ..] => runner::worker(rest),
        ["replay", path] => runner::replay(path),
        ["try", id, seed, from, n] => runner::try_range(id, seed.parse().unwrap(), from.parse().unwrap(), n.parse().unwrap()),
        ["battery", seconds, seed, ids @ ..] => runner::battery(seconds.parse().unwrap(), seed.parse().unwrap(), ids),
        ["show", id, seed, i] => {
            let c = props::case(id, "quick", seed.parse().unwrap(), i.parse().unwrap());
            eprintln!("{}", cfgs::to_string(&c.cfg));
            print!("{}", c.src);
            0
        }
        ["run", cfg @ ..] => runner::run_stdin(cfg),
        _ => {
            eprintln!("usage: luamon check ID quick|thorough | replay FILE | try ID SEED FROM N | run [OPTION=VALUE]...");
            2
        }
    };
    std::process::exit(code);
}
