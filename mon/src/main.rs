mod bars;
mod buffer;
mod check;
mod eng;
mod fl;
mod general;
mod geo;
mod lattice;
mod mem;
mod plates;
mod props;
mod rng;
mod runner;

use runner::*;
use std::path::PathBuf;

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: mon run|child ID [--seed N] [--tier quick|thorough] [--out FILE] [--only WL] [--case N] [--scale X]");
        std::process::exit(2);
    }
    let mut o = Opts {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        out: PathBuf::from(format!("evidence/{}.json", args[2])),
        replay_dir: PathBuf::from("replays"),
        scale: 1.0,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        only: None,
        case: None,
        slots: None,
        max_secs: 0,
    };
    let mut i = 3;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--seed" => o.seed = v.parse().unwrap(),
            "--tier" => o.thorough = v == "thorough",
            "--out" => o.out = PathBuf::from(v),
            "--replays" => o.replay_dir = PathBuf::from(v),
            "--only" => o.only = Some(v),
            "--case" => o.case = Some(v.parse().unwrap()),
            "--scale" => o.scale = v.parse().unwrap(),
            "--threads" => o.threads = v.parse().unwrap(),
            "--slots" => o.slots = Some(PathBuf::from(v)),
            "--max-secs" => o.max_secs = v.parse().unwrap(),
            x => {
                eprintln!("unknown option {x}");
                std::process::exit(2);
            }
        }
        i += 2;
    }
    if o.max_secs == 0 {
        o.max_secs = if o.thorough { 3000 } else { 500 };
    }
    let prop = match props::find(&args[2]) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", args[2]);
            std::process::exit(2);
        }
    };
    let code = match args[1].as_str() {
        "child" => run_child(&prop, &o),
        "job" => {
            println!("{}", props::c21::describe(o.case.unwrap()));
            0
        }
        "digest" => run_digest(&o, |s| props::c21::job(s).1),
        "finding" => run_finding(prop.id, &o),
        "plain" => run_plain(&prop, &o),
        _ => run_parent(&prop, &o, &args[2..]),
    };
    std::process::exit(code);
}
