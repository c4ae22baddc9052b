#![allow(clippy::type_complexity)]
#[macro_use]
mod kit;
mod props;

use kit::run::{replay, run, Opts};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut id = None;
    let mut o = Opts {
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
        verif: std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into(),
        only: None,
        cases: None,
        verbose: false,
    };
    let mut rep = None;
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--replay" => rep = it.next(),
            "--only" => o.only = it.next(),
            "--cases" => o.cases = it.next().and_then(|s| s.parse().ok()),
            "--seed" => o.seed = it.next().and_then(|s| s.parse().ok()).expect("seed"),
            "--thorough" => o.thorough = true,
            "--quick" => o.thorough = false,
            "-v" => o.verbose = true,
            _ => id = Some(a),
        }
    }
    let id = id.expect("usage: mon <property> [--replay file] [--only scenario] [--cases n] [--thorough] [-v]");
    let props = props::all();
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {}", id);
            std::process::exit(3)
        }
    };
    let rc = match rep {
        Some(f) => replay(p, &f, o.thorough),
        None => run(p, &o),
    };
    std::process::exit(rc);
}
