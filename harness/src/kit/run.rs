//! Runner: cases of a property's scenarios on all cores, verdicts, evidence, replay files.
use super::case::{Case, Inner};
use super::rng::{hash_str, mix};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Scenario {
    pub name: &'static str,
    /// cases, in units of QUICK unless threaded
    pub cases: u64,
    pub f: fn(&Case),
    /// uses all cores itself (real threads), so it is run alone
    pub threads: bool,
    /// share of the thorough budget relative to quick (cases multiply by this)
    pub deepen: u64,
}
/// Single-threaded cases are cheap: a quick run repeats the listed counts this often.
const QUICK: u64 = 30;
impl Scenario {
    /// Cases of a run in the given tier.
    fn planned(&self, thorough: bool) -> u64 {
        let quick = std::env::var("MON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(QUICK);
        let base = if self.threads { self.cases } else { self.cases * quick };
        base * if thorough { self.deepen } else { 1 }
    }
    pub const fn new(name: &'static str, cases: u64, f: fn(&Case)) -> Scenario {
        Scenario {
            name,
            cases,
            f,
            threads: false,
            deepen: 25,
        }
    }
    pub const fn threaded(name: &'static str, cases: u64, f: fn(&Case)) -> Scenario {
        Scenario {
            name,
            cases,
            f,
            threads: true,
            deepen: 10,
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: Vec<Scenario>,
}

/// Payload of panics the workload injects on purpose.
pub struct Planned;

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static IN_CASE: RefCell<bool> = const { RefCell::new(false) };
}
static STRAY: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn planned_panic() -> ! {
    std::panic::panic_any(Planned)
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Planned>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m = format!("panic at {}: {}", at, msg);
        let in_case = IN_CASE.try_with(|b| *b.borrow()).unwrap_or(false);
        if in_case {
            let _ = PANICS.try_with(|p| p.borrow_mut().push(m));
        } else if let Ok(mut s) = STRAY.lock() {
            s.push(m);
        }
    }));
}

/// Panics seen so far in this case; clears them (for workloads that expect some).
pub fn take_panics() -> Vec<String> {
    let mut v: Vec<String> = PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()));
    v.append(&mut STRAY.lock().unwrap());
    v
}

fn run_case(s: &Scenario, seed: u64, thorough: bool) -> Inner {
    let c = Case::new(seed, thorough);
    let _ = take_panics_local();
    IN_CASE.with(|b| *b.borrow_mut() = true);
    let c2 = c.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.f)(&c2)));
    IN_CASE.with(|b| *b.borrow_mut() = false);
    let panics = if s.threads {
        take_panics()
    } else {
        take_panics_local()
    };
    if let Err(p) = r {
        if p.is::<Planned>() {
            c.fail("an injected panic of the workload escaped to the caller");
        } else if panics.is_empty() {
            c.fail("panic");
        }
    }
    for p in panics {
        c.fail(format!("unexpected {}", p));
    }
    c.take()
}

fn take_panics_local() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

pub struct Found {
    pub scenario: &'static str,
    pub seed: u64,
    pub index: u64,
    pub msgs: Vec<String>,
    pub log: String,
}

#[derive(Default)]
struct Agg {
    evals: u64,
    nontrivial: u64,
    events: u64,
    checks: u64,
    dropped: u64,
    fps: HashSet<u64>,
    counts: BTreeMap<&'static str, u64>,
    per: BTreeMap<&'static str, (u64, u64)>,
    samples: Vec<Value>,
    found: Vec<Found>,
    /// how many of them are not known findings
    fresh: usize,
}

struct Known {
    property: String,
    scenario: String,
    contains: String,
    what: String,
}

fn known_findings(verif: &Path) -> Vec<Known> {
    // lines: known: property=<id> scenario=<name> match=<text> :: <description>
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(verif.join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let (head, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
                let get = |k: &str| {
                    head.split_once(&format!("{}=", k))
                        .map(|x| x.1)
                        .unwrap_or("")
                        .to_string()
                };
                out.push(Known {
                    property: get("property").split(' ').next().unwrap_or("").into(),
                    scenario: get("scenario").split(' ').next().unwrap_or("").into(),
                    contains: get("match"),
                    what: what.into(),
                });
            }
        }
    }
    out
}

fn known_as<'a>(known: &'a [Known], id: &str, f: &Found) -> Option<&'a Known> {
    known.iter().find(|k| {
        k.property == id
            && k.scenario == f.scenario
            && !k.contains.is_empty()
            && f.msgs.iter().all(|m| m.contains(&k.contains))
    })
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    }
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub verif: PathBuf,
    pub only: Option<String>,
    pub cases: Option<u64>,
    pub verbose: bool,
}

fn case_seed(base: u64, prop: &str, scen: &str, i: u64) -> u64 {
    mix(mix(base ^ hash_str(prop)) ^ hash_str(scen) ^ mix(i))
}

fn replay_file(o: &Opts, prop: &str, f: &Found) -> PathBuf {
    let dir = o.verif.join("out/replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", prop, f.scenario, f.index));
    let v = json!({
        "property": prop, "scenario": f.scenario, "case_seed": f.seed, "index": f.index,
        "violations": f.msgs, "trace": f.log.lines().collect::<Vec<_>>(),
        "replay": format!("bash check.sh {} --replay {}", prop, path.display()),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

pub fn run(p: &Prop, o: &Opts) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let soft = if o.thorough {
        Duration::from_secs(700)
    } else {
        Duration::from_secs(100)
    };
    let agg = Arc::new(Mutex::new(Agg::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let cores = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(2, 8);

    // watchdog: a case that never returns is a livelock
    type Cur = Arc<Vec<Mutex<Option<(Instant, &'static str, u64, u64)>>>>;
    let cur: Cur = Arc::new((0..cores).map(|_| Mutex::new(None)).collect());
    let wd_stop = Arc::new(AtomicBool::new(false));
    {
        let cur = cur.clone();
        let wd_stop = wd_stop.clone();
        let (pid, verif) = (p.id, o.verif.clone());
        let (seed, thorough) = (o.seed, o.thorough);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if wd_stop.load(SeqCst) {
                return;
            }
            for c in cur.iter() {
                let x = *c.lock().unwrap();
                if let Some((at, scen, cseed, index)) = x {
                    if at.elapsed() > Duration::from_secs(120) {
                        let f = Found {
                            scenario: scen,
                            seed: cseed,
                            index,
                            msgs: vec!["the case did not finish within 120 s: livelock or deadlock".into()],
                            log: String::new(),
                        };
                        let o = Opts {
                            seed,
                            thorough,
                            verif: verif.clone(),
                            only: None,
                            cases: None,
                            verbose: false,
                        };
                        let path = replay_file(&o, pid, &f);
                        write_hang_evidence(&o, pid, scen);
                        println!("VIOLATION property={} replay={}", pid, path.display());
                        println!("  {}: {}", scen, f.msgs[0]);
                        std::process::exit(1);
                    }
                }
            }
        });
    }

    let scens: Vec<&Scenario> = p
        .scenarios
        .iter()
        .filter(|s| o.only.as_ref().map_or(true, |n| n == s.name))
        .collect();
    let known = known_findings(&o.verif);
    let run_one = |s: &'_ Scenario, i: u64, slot: usize| {
        let seed = case_seed(o.seed, p.id, s.name, i);
        *cur[slot].lock().unwrap() = Some((Instant::now(), s.name, seed, i));
        let r = run_case(s, seed, o.thorough);
        *cur[slot].lock().unwrap() = None;
        let mut a = agg.lock().unwrap();
        a.evals += 1;
        a.events += r.events;
        a.checks += r.checks;
        a.dropped += r.dropped_lines;
        for (k, v) in &r.counts {
            *a.counts.entry(k).or_insert(0) += v;
        }
        let e = a.per.entry(s.name).or_insert((0, 0));
        e.0 += 1;
        if r.nontrivial {
            e.1 += 1;
            a.nontrivial += 1;
            a.fps.insert(mix(r.fp ^ hash_str(s.name)));
        }
        if i == 1 && r.nontrivial {
            let lines: Vec<&str> = r.log.lines().take(40).collect();
            a.samples
                .push(json!({"scenario": s.name, "case_seed": seed, "events": r.events, "trace_head": lines}));
        }
        if !r.violations.is_empty() {
            let f = Found {
                scenario: s.name,
                seed,
                index: i,
                msgs: r.violations.clone(),
                log: r.log,
            };
            if known_as(&known, p.id, &f).is_none() {
                a.fresh += 1;
            }
            a.found.push(f);
            if a.fresh >= 5 {
                stop.store(true, SeqCst);
            }
        }
    };

    // interleave scenarios so that a time cap does not starve the last one
    let mut jobs: Vec<(usize, u64)> = vec![];
    {
        let n = |s: &Scenario| -> u64 {
            o.cases
                .unwrap_or(s.planned(o.thorough))
        };
        let chunks = 50u64;
        for ch in 0..chunks {
            for (k, s) in scens.iter().enumerate() {
                if s.threads {
                    continue;
                }
                let total = n(s);
                let (a, b) = (total * ch / chunks, total * (ch + 1) / chunks);
                for i in a..b {
                    jobs.push((k, i));
                }
            }
        }
    }
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for slot in 0..cores {
            let (jobs, next, scens, run_one, stop) = (&jobs, &next, &scens, &run_one, &stop);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || loop {
                    let k = next.fetch_add(1, SeqCst);
                    if k >= jobs.len() || stop.load(SeqCst) || t0.elapsed() > soft {
                        return;
                    }
                    let (s, i) = jobs[k];
                    run_one(scens[s], i, slot);
                })
                .unwrap();
        }
    });
    for s in scens.iter().filter(|s| s.threads) {
        let total = o
            .cases
            .unwrap_or(s.planned(o.thorough));
        let t1 = Instant::now();
        let cap = soft / 3;
        for i in 0..total {
            if stop.load(SeqCst) || t1.elapsed() > cap {
                break;
            }
            run_one(s, i, 0);
        }
    }
    wd_stop.store(true, SeqCst);

    let mut a = std::mem::take(&mut *agg.lock().unwrap());
    a.found.sort_by_key(|f| (f.scenario, f.index));
    let mut reported = 0;
    let mut said: HashSet<String> = HashSet::new();
    for f in &a.found {
        let k = known_as(&known, p.id, f);
        match k {
            Some(k) => {
                if said.insert(k.what.clone()) {
                    println!("KNOWN-FINDING: property={} {}", p.id, k.what);
                }
            }
            None => {
                let path = replay_file(o, p.id, f);
                if reported < 3 {
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    for m in f.msgs.iter().take(3) {
                        println!("  {} #{}: {}", f.scenario, f.index, clip(m, 600));
                    }
                }
                reported += 1;
            }
        }
    }
    // every scenario must have observed something, or the run decided nothing
    let mut starved = vec![];
    for s in &scens {
        let (n, nt) = a.per.get(s.name).copied().unwrap_or((0, 0));
        if nt == 0 && reported == 0 {
            starved.push(format!("{} ({} cases)", s.name, n));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    a.samples.truncate(6);
    let per: BTreeMap<&str, Value> = a
        .per
        .iter()
        .map(|(k, v)| (*k, json!({"cases": v.0, "nontrivial": v.1})))
        .collect();
    let ev = json!({
        "property": p.id, "tier": if o.thorough {"thorough"} else {"quick"}, "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.evals,
            "distinct_nontrivial": a.fps.len(),
            "rule": p.rule,
            "samples": a.samples,
            "events_observed": a.events,
            "monitor_judgements": a.checks,
            "nontrivial_cases": a.nontrivial,
            "scenarios": per,
            "observed": a.counts,
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": reported,
    });
    let dir = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("write evidence");
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} events, {} judgements, {:.1} s, {} violations",
        p.id,
        if o.thorough { "thorough" } else { "quick" },
        a.evals,
        a.fps.len(),
        a.events,
        a.checks,
        wall,
        reported
    );
    if o.verbose {
        for (k, v) in &a.per {
            println!("   {:<28} {:>7} cases {:>7} non-trivial", k, v.0, v.1);
        }
        for (k, v) in &a.counts {
            println!("   {:<40} {}", k, v);
        }
    }
    if reported > 0 {
        1
    } else if !starved.is_empty() && o.only.is_none() {
        println!("INCONCLUSIVE property={}: no non-trivial case in {}", p.id, starved.join(", "));
        // nothing was decided for that scenario: not a pass, not a violation
        2
    } else {
        0
    }
}

fn write_hang_evidence(o: &Opts, pid: &str, scen: &str) {
    let ev = json!({
        "property": pid, "tier": if o.thorough {"thorough"} else {"quick"}, "seed": o.seed,
        "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run cut short by a case that did not finish", "samples": [scen]},
        "wall_s": 120.0, "violations": 1,
    });
    let dir = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(
        dir.join(format!("{}.json", pid)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    );
}

pub fn replay(p: &Prop, path: &str, thorough: bool) -> i32 {
    install_hook();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file"))
        .expect("replay json");
    let scen = v["scenario"].as_str().expect("scenario");
    let seed = v["case_seed"].as_u64().expect("case_seed");
    let s = p
        .scenarios
        .iter()
        .find(|s| s.name == scen)
        .expect("no such scenario");
    let r = run_case(s, seed, thorough);
    println!("{}", r.log);
    for m in &r.violations {
        println!("violation: {}", m);
    }
    if r.violations.is_empty() {
        println!("no violation on replay");
        0
    } else {
        println!("VIOLATION property={} replay={}", p.id, path);
        1
    }
}

pub static GLOBAL_SEQ: AtomicU64 = AtomicU64::new(0);
