mod episode;
mod factory;
mod gen;
mod ledger;
mod math;
mod mocks;
mod model;
mod monitors;
mod ops;
mod rng;
mod situ;
mod types;
mod world;

use episode::*;
use monitors::*;
use rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub const PROPS: [&str; 29] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29",
];

/// Workloads that reach a property's situations, besides its own and the general one.
fn related(p: &str) -> &'static [&'static str] {
    match p {
        "C01" => &["C15", "C14"],
        "C02" => &["C14", "C13"],
        "C03" => &["C04"],
        "C04" => &["C06", "C11"],
        "C05" => &["C12", "C13"],
        "C06" => &["C05"],
        "C07" => &["C12", "C14"],
        "C08" => &["C21"],
        "C09" => &["C10", "C05"],
        "C10" => &["C09", "C20"],
        "C11" => &["C04"],
        "C12" => &["C13", "C05"],
        "C13" => &["C14", "C15"],
        "C14" => &["C13"],
        "C15" => &["C13"],
        "C16" => &["C22", "C23"],
        "C17" => &["C15", "C14", "C01"],
        "C18" => &["C22", "C14"],
        "C19" => &["C14", "C15"],
        "C20" => &["C22"],
        "C21" => &["C08", "C14"],
        "C22" => &["C23", "C24", "C20"],
        "C23" => &["C22", "C16"],
        "C24" => &["C25", "C22"],
        "C25" => &["C24"],
        "C26" => &["C08", "C11"],
        "C27" => &["C13", "C20", "C25"],
        "C28" => &["C14", "C22", "C24"],
        _ => &[],
    }
}

const FACTORY_STEPS: usize = 120;

pub struct Hit {
    pub focus: &'static str,
    pub episode: u64,
    pub f: Found,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// One episode in this many runs the contracts compiled to wasm, in the host's virtual machine; the others run natively.
const VM_EVERY: u64 = 8;
fn in_vm(ep: u64) -> bool {
    ep % VM_EVERY == 5 || std::env::var("ALL_VM").is_ok()
}

/// One episode; the second value names what went wrong in the harness itself, if anything did.
pub fn run_episode(focus: &'static str, seed: u64, ep: u64, ops: usize, stop: Option<Prop>, verbose: bool) -> (Option<Runner>, String) {
    let rng = Rng::mix(&[seed, focus.bytes().fold(0, |a, b| a * 256 + b as u64), ep]);
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    let guard = |f: &mut dyn FnMut()| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok();
    let mut r = None;
    if !guard(&mut || r = Some(Runner::boot(focus, rng.clone(), stop, verbose, in_vm(ep)))) {
        return (None, LAST_PANIC.with(|p| p.borrow().clone()));
    }
    let mut run = r.unwrap();
    let ok = guard(&mut || run.prepare()) && guard(&mut || run.workload(ops)) && guard(&mut || run.leave());
    let why = if ok { String::new() } else { LAST_PANIC.with(|p| p.borrow().clone()) };
    (Some(run), why)
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16)
}

#[derive(Default)]
pub struct Campaign {
    pub cov: Cov,
    pub hits: Vec<Hit>,
    pub episodes: u64,
    pub vm: u64,
    pub decoded: u64,
    pub broken: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

pub fn run_many(focus: &'static str, seed: u64, episodes: u64, ops: usize, stop: Option<Prop>, until: Instant, into: &mut Campaign) {
    let next = AtomicU64::new(0);
    let halt = AtomicBool::new(false);
    let all = Mutex::new(std::mem::take(into));
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                if halt.load(Ordering::Relaxed) || Instant::now() > until {
                    break;
                }
                let ep = next.fetch_add(1, Ordering::Relaxed);
                if ep >= episodes {
                    break;
                }
                let (r, why) = run_episode(focus, seed, ep, ops, stop, false);
                let mut c = all.lock().unwrap();
                if !why.is_empty() {
                    *c.broken.entry(why).or_insert(0) += 1;
                }
                let r = match r {
                    Some(r) => r,
                    None => continue,
                };
                c.episodes += 1;
                c.vm += (in_vm(ep) && world::wasm().is_some()) as u64;
                c.decoded += r.w.sc.entries_decoded;
                if c.samples.len() < 3 {
                    let n = r.log.len();
                    let at = n / 2;
                    let cut: Vec<&String> = r.log[at..(at + 6).min(n)].iter().collect();
                    c.samples.push(format!("focus {focus} episode {ep}, {n} operations, of which: {cut:?}"));
                }
                for f in r.found {
                    if stop.map_or(true, |p| f.props.contains(&p)) {
                        if stop.is_some() && f.known.is_none() {
                            halt.store(true, Ordering::Relaxed);
                        }
                        c.hits.push(Hit { focus, episode: ep, f });
                    }
                }
                c.cov.merge(r.cov);
            });
        }
    });
    *into = all.into_inner().unwrap();
    into.hits.sort_by_key(|x| (x.focus, x.episode, x.f.step));
}

/// Runs of the real factory.
pub fn run_factories(prop: Prop, seed: u64, episodes: u64, steps: usize, until: Instant, into: &mut Campaign) {
    if !factory::ready() {
        *into.broken.entry("no wasm of the pool".into()).or_insert(0) += 1;
        return;
    }
    let next = AtomicU64::new(0);
    let all = Mutex::new(std::mem::take(into));
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                let ep = next.fetch_add(1, Ordering::Relaxed);
                if ep >= episodes || Instant::now() > until {
                    break;
                }
                let r = std::panic::catch_unwind(|| factory::run(prop, seed, ep, steps));
                let mut c = all.lock().unwrap();
                match r {
                    Err(_) => *c.broken.entry(LAST_PANIC.with(|p| p.borrow().clone())).or_insert(0) += 1,
                    Ok(o) => {
                        c.episodes += 1;
                        c.decoded += o.decoded;
                        c.cov.merge(o.cov);
                        for b in o.bad.into_iter().filter(|b| b.prop == prop) {
                            let f = Found { props: vec![b.prop], what: b.what, step: b.step, op: b.op, tail: o.log.clone(), known: None };
                            c.hits.push(Hit { focus: "factory", episode: ep, f });
                        }
                    }
                }
            });
        }
    });
    *into = all.into_inner().unwrap();
    into.hits.sort_by_key(|x| (x.focus, x.episode, x.f.step));
}

fn focus_of(s: &str) -> &'static str {
    PROPS.iter().find(|p| **p == s).copied().unwrap_or("mix")
}

/// (known findings of the property: id -> description), from the committed file
fn known_findings(root: &str, prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for l in std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default().lines() {
        // known: property=C22 id=regained-emitter what fails
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            if let (Some(p), Some(i), Some(d)) = (it.next(), it.next(), it.next()) {
                if p.strip_prefix("property=") == Some(prop) {
                    m.insert(i.trim_start_matches("id=").to_string(), d.to_string());
                }
            }
        }
    }
    m
}

fn check(prop: &'static str, seed: u64, tier: &str, root: &str) -> i32 {
    let t = Instant::now();
    let known = known_findings(root, prop);
    let thorough = tier == "thorough";
    let (unit, ops, cap) = if thorough { (6000u64, 400usize, 700u64) } else { (400, 280, 300) };
    let until = t + std::time::Duration::from_secs(cap);
    let mut plan: Vec<(&'static str, u64)> = vec![(focus_of(prop), unit * 2), ("mix", unit)];
    let rel = related(prop);
    for f in rel {
        plan.push((focus_of(f), unit / rel.len() as u64));
    }
    // a watchdog: an operation that never ends is no verdict
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(cap + 120));
        eprintln!("inconclusive: an operation did not end");
        std::process::exit(3);
    });
    let mut c = Campaign::default();
    let mut foci = vec![];
    if world::wasm().is_none() {
        c.broken.insert("no wasm of the contracts".into(), 1);
    }
    if matches!(prop, "C26" | "C28" | "C29") {
        run_factories(prop, seed, if prop == "C26" { unit } else { unit / 2 }, if thorough { FACTORY_STEPS * 2 } else { FACTORY_STEPS }, until, &mut c);
        foci.push("factory");
    }
    for (f, n) in plan {
        if c.hits.iter().any(|h| h.f.known.is_none()) {
            break;
        }
        run_many(f, seed, n, ops, Some(prop), until, &mut c);
        foci.push(f);
    }
    let mut code = 0;
    let mut fresh: Vec<&Hit> = vec![];
    let mut seen_known: BTreeMap<&str, u64> = BTreeMap::new();
    for h in &c.hits {
        match h.f.known {
            Some(k) if known.contains_key(k) => *seen_known.entry(k).or_insert(0) += 1,
            _ => fresh.push(h),
        }
    }
    for (k, d) in &known {
        println!("KNOWN-FINDING: property={prop} {d} (seen in {} episodes of this run)", seen_known.get(k.as_str()).unwrap_or(&0));
    }
    let e = c.cov.per.get(prop).cloned().unwrap_or_default();
    if let Some(h) = fresh.first() {
        let _ = std::fs::create_dir_all(format!("{root}/replays"));
        let path = format!("{root}/replays/{prop}.json");
        let v = json!({
            "property": prop, "seed": seed, "focus": h.focus, "episode": h.episode, "ops": ops, "step": h.f.step,
            "operation": h.f.op, "what": h.f.what, "properties": h.f.props, "history_tail": h.f.tail,
            "replay": format!("./check.sh replay {path}"),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        println!("{} at step {} of episode {} ({}): {}", h.f.op, h.f.step, h.episode, h.focus, h.f.what);
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    } else if !c.broken.is_empty() {
        eprintln!("inconclusive: the harness broke: {:?}", c.broken);
        code = 3;
    } else if e.judged == 0 {
        eprintln!("inconclusive: nothing was observed");
        code = 3;
    }
    let inv: BTreeMap<&str, u64> =
        c.cov.invariants.iter().filter(|(k, _)| k.starts_with(prop) || k.starts_with("token")).map(|(k, v)| (*k, *v)).collect();
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": e.judged,
            "distinct_nontrivial": e.distinct.len(),
            "rule": "An evaluation is one executed operation (or one invariant-bearing event) of the real contracts on which this property's oracle gave a verdict. Two are the same if entry point, outcome, request types, pool status, number of open auctions and the magnitudes (powers of two) of every balance that moved agree; each distinct class counts once, refused calls only when refused for this property's reason.",
            "samples": c.samples,
            "outcomes": e.outcomes,
            "invariant_evaluations": inv,
            "episodes": c.episodes,
            "episodes_in_the_wasm_vm": c.vm,
            "operations_executed": c.cov.ops,
            "operations_accepted": c.cov.ok,
            "operations_refused": c.cov.refused,
            "ledgers_compared_with_specification": c.cov.state_compared,
            "authorisation_trees_compared": c.cov.auth_trees,
            "ledger_entries_decoded": c.decoded,
            "left_unjudged_overflow": c.cov.not_judged_arith,
            "rare_events": c.cov.notes,
            "distinct_situations_of_calls": c.cov.situations.len(),
            "workloads": foci,
            "exhaustive": false,
        },
        "assumptions": [
            "Contracts run in the Soroban test host (protocol 20), natively or (one episode in eight) as wasm, with unlimited budget.",
            "The Comet LP token, the price oracle and (except in the factory runs) the pool factory are stand-ins.",
            "Held on the executions observed; nothing is claimed about those not driven.",
        ],
        "wall_s": t.elapsed().as_secs_f64(),
        "violations": fresh.len(),
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if std::fs::write(format!("{root}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        return 3;
    }
    println!(
        "{prop}: {} episodes, {} operations, {} judged for this property in {} distinct situations, {:.1} s",
        c.episodes,
        c.cov.ops,
        e.judged,
        e.distinct.len(),
        t.elapsed().as_secs_f64()
    );
    code
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    if v["focus"] == "factory" {
        let p = PROPS.iter().find(|p| Some(**p) == v["property"].as_str()).copied().unwrap_or("C26");
        let o = factory::run(p, v["seed"].as_u64().unwrap(), v["episode"].as_u64().unwrap(), FACTORY_STEPS * 2);
        o.log.iter().for_each(|l| println!("{l}"));
        o.bad.iter().for_each(|b| println!("    !! step {} {}: {}", b.step, b.op, b.what));
        println!("{} violations", o.bad.len());
        return !o.bad.is_empty() as i32;
    }
    let f = focus_of(v["focus"].as_str().unwrap_or("mix"));
    let p = PROPS.iter().find(|p| Some(**p) == v["property"].as_str()).copied();
    let (r, why) = run_episode(f, v["seed"].as_u64().unwrap(), v["episode"].as_u64().unwrap(), v["ops"].as_u64().unwrap() as usize, p, true);
    if !why.is_empty() {
        println!("harness: {why}");
    }
    let n = r.map_or(0, |r| r.found.iter().filter(|f| f.known.is_none() && p.map_or(true, |p| f.props.contains(&p))).count());
    println!("{n} violations");
    (n > 0) as i32
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => match PROPS.iter().find(|p| Some(**p) == a.get(2).map(|s| s.as_str())) {
            Some(p) => check(p, seed, &tier, &root),
            None => 2,
        },
        Some("replay") => replay(&a[2]),
        Some("survey") => {
            let eps: u64 = a.get(2).map_or(16, |s| s.parse().unwrap());
            let ops: usize = a.get(3).map_or(250, |s| s.parse().unwrap());
            let foci: Vec<&str> = if a.len() > 4 { a[4..].iter().map(|s| s.as_str()).collect() } else { PROPS.to_vec() };
            let mut kinds: BTreeMap<String, (u64, String)> = BTreeMap::new();
            let mut all = Cov::default();
            let mut hitp: BTreeSet<&str> = BTreeSet::new();
            for f in foci {
                let t = Instant::now();
                let mut c = Campaign::default();
                run_many(focus_of(f), seed, eps, ops, None, t + std::time::Duration::from_secs(3000), &mut c);
                println!("{f}: {} episodes, {} ops, {} entries, {:?}, {} hits", c.episodes, c.cov.ops, c.decoded, t.elapsed(), c.hits.len());
                if !c.broken.is_empty() {
                    println!("   BROKEN {:?}", c.broken);
                }
                for h in c.hits {
                    if h.f.known.is_none() {
                        hitp.extend(h.f.props.iter());
                    }
                    let w: String = h.f.what.chars().filter(|c| !c.is_ascii_digit()).take(110).collect();
                    let opk: String = h.f.op.chars().take_while(|c| c.is_alphanumeric()).collect();
                    let e = kinds
                        .entry(format!("{:?} {:?} {opk} {w}", h.f.known, h.f.props))
                        .or_insert((0, format!("{f} ep {} step {}: {} | {}", h.episode, h.f.step, h.f.op, h.f.what)));
                    e.0 += 1;
                }
                all.merge(c.cov);
            }
            for (k, (n, ex)) in &kinds {
                println!("{n:6} {k}\n         e.g. {}", ex.chars().take(600).collect::<String>());
            }
            println!("properties hit: {hitp:?}");
            if std::env::var("SITU").is_ok() {
                for (k, n) in &all.situations {
                    println!("{n:9} {k}");
                }
            }
            if std::env::var("COV").is_ok() {
                for (p, c) in &all.per {
                    println!("{p}: judged {} distinct {} {:?}", c.judged, c.distinct.len(), c.outcomes);
                }
                println!("{:?} {:?} arith {} ok {} refused {}", all.invariants, all.notes, all.not_judged_arith, all.ok, all.refused);
            }
            0
        }
        // does anything at all speak up: for trying out changes to the contracts
        Some("probe") => {
            let eps: u64 = a.get(2).map_or(8, |s| s.parse().unwrap());
            let ops: usize = a.get(3).map_or(250, |s| s.parse().unwrap());
            let until = Instant::now() + std::time::Duration::from_secs(600);
            let mut hits: BTreeSet<&str> = BTreeSet::new();
            let mut eg = String::new();
            let mut c = Campaign::default();
            for p in ["C26", "C28", "C29"] {
                run_factories(p, seed, eps, FACTORY_STEPS, until, &mut c);
            }
            for f in ["mix"].iter().chain(PROPS.iter()) {
                run_many(focus_of(f), seed, eps, ops, None, until, &mut c);
                for h in c.hits.iter().filter(|h| h.f.known.is_none()) {
                    hits.extend(h.f.props.iter());
                    eg = format!("{} {} ep {}: {}", h.focus, h.f.op, h.episode, h.f.what);
                }
                if !hits.is_empty() && !c.hits.is_empty() || !c.broken.is_empty() {
                    break;
                }
            }
            println!("{} {hits:?} {} {:?}", if hits.is_empty() { "SILENT" } else { "CAUGHT" }, eg.chars().take(300).collect::<String>(), c.broken);
            !hits.is_empty() as i32
        }
        Some("factory") => {
            let mut c = Campaign::default();
            let t = Instant::now();
            run_factories(a.get(3).map_or("C26", |p| PROPS.iter().find(|q| *q == p).unwrap()), seed, a[2].parse().unwrap(), FACTORY_STEPS, t + std::time::Duration::from_secs(600), &mut c);
            println!("{} episodes {} ops {:?} {:?}", c.episodes, c.cov.ops, t.elapsed(), c.broken);
            println!("{:?}", c.cov.per.values().next().map(|x| (&x.outcomes, x.distinct.len())));
            for h in c.hits.iter().take(5) {
                println!("ep {} {} {}", h.episode, h.f.op, h.f.what);
            }
            0
        }
        Some("trace") => {
            let ops: usize = a.get(4).map_or(250, |s| s.parse().unwrap());
            let (r, why) = run_episode(focus_of(&a[2]), seed, a[3].parse().unwrap(), ops, None, true);
            println!("{} found {why}", r.map_or(0, |r| r.found.len()));
            0
        }
        _ => {
            eprintln!("usage: blend-monitor check ID | replay FILE | survey EPISODES OPS [FOCUS...] | trace FOCUS EPISODE [OPS]");
            2
        }
    };
    std::process::exit(code);
}
