//! simcheck: deterministic simulation of the Astroport contracts with fault injection. See /verif/DESIGN.md.
//!
//!   simcheck check PROP TIER SEED VERIF_DIR
//!   simcheck replay FILE
//!   simcheck selftest PROP SEEDS        (each seed twice, in different threads: histories must be identical)
//!   simcheck list

mod chain;
#[cfg(feature = "dex")]
mod fac;
#[cfg(feature = "dex")]
mod orc;
#[cfg(feature = "dex")]
mod pool;
#[cfg(feature = "inc")]
mod inc;
mod rng;
mod runner;
#[cfg(feature = "tok")]
mod tok;
#[cfg(feature = "per")]
mod acl;
#[cfg(feature = "per")]
mod conv;
#[cfg(feature = "per")]
mod mak;
#[cfg(feature = "per")]
mod sml;
#[cfg(feature = "per")]
mod upg;
#[cfg(feature = "per")]
mod ves;
#[cfg(feature = "per")]
mod xas;
mod world;

use runner::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;
use std::process::exit;

pub struct Prop {
    pub id: &'static str,
    pub scns: Vec<(Scn, u64)>,
    pub quick: u64,
    pub thorough: u64,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub rule: &'static str,
}

fn props() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut v: Vec<Prop> = vec![];
    #[cfg(feature = "dex")]
    {
        const REAL: &[&str] = &["pair", "pair_stable", "pair_concentrated", "pair_transmuter", "pair_xyk_sale_tax", "pcl_common", "factory", "tokenfactory_tracker", "coin_registry", "incentives", "vesting", "circular_buffer", "cw20-base", "packages/astroport"];
        const STUBS: &[&str] = &["bank, wasm dispatch, tokenfactory module and its hooks (simulated chain)"];
        let mut p = |id: &'static str, q: u64, rule: &'static str| {
            v.push(Prop { id, scns: vec![(scn::<pool::PoolScn>(), 1)], quick: q, thorough: q * 40, real: REAL, stubs: STUBS, rule })
        };
        for id in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13"] {
            p(id, 8000, "");
        }
        v.push(Prop { id: "C29", scns: vec![(scn::<orc::OrcScn>(), 1)], quick: 8000, thorough: 320_000, real: &["oracle", "pair", "pair_stable", "pair_concentrated", "pair_xyk_sale_tax", "pcl_common", "factory", "coin_registry", "cw20-base", "packages/astroport"], stubs: STUBS, rule: "" });
        const FREAL: &[&str] = &["factory", "router", "pair", "pair_stable", "pair_concentrated", "pair_transmuter", "tokenfactory_tracker", "coin_registry", "incentives", "vesting", "cw20-base", "packages/astroport"];
        for id in ["C14", "C15"] {
            v.push(Prop { id, scns: vec![(scn::<fac::FacScn>(), 1)], quick: 3000, thorough: 120_000, real: FREAL, stubs: STUBS, rule: "" });
        }
    }
    #[cfg(feature = "inc")]
    {
        const REAL: &[&str] = &["incentives", "vesting", "factory", "pair", "pair_stable", "coin_registry", "cw20-base", "packages/astroport"];
        const STUBS: &[&str] = &["bank, wasm dispatch, tokenfactory module (simulated chain)"];
        for id in ["C17", "C18", "C19", "C20"] {
            v.push(Prop { id, scns: vec![(scn::<inc::IncScn>(), 1)], quick: 3000, thorough: 120_000, real: REAL, stubs: STUBS, rule: "" });
        }
    }
    #[cfg(feature = "tok")]
    {
        const REAL: &[&str] = &["staking", "pair_xastro", "tokenfactory_tracker", "tokenfactory_tracker 1.0.0 (published release)", "factory", "coin_registry", "packages/astroport"];
        const STUBS: &[&str] = &["bank, wasm dispatch, tokenfactory module and its hooks (simulated chain)", "hook target contract"];
        for (id, q) in [("C12", 20_000), ("C21", 20_000), ("C22", 5000)] {
            v.push(Prop { id, scns: vec![(scn::<tok::TokScn>(), 1)], quick: q, thorough: q * 40, real: REAL, stubs: STUBS, rule: "" });
        }
    }
    #[cfg(feature = "per")]
    {
        let mut p = |id: &'static str, s: Scn, q: u64, real: &'static [&'static str], stubs: &'static [&'static str]| {
            v.push(Prop { id, scns: vec![(s, 1)], quick: q, thorough: q * 40, real, stubs, rule: "" })
        };
        p("C23", scn::<xas::XasScn>(), 6000, &["xastro_token", "cw20-base 0.15 (allowances)", "packages/astroport"], &["wasm dispatch (simulated chain)", "receiving contract"]);
        p("C24", scn::<ves::VesScn>(), 6000, &["vesting", "astro_converter", "cw20-base", "packages/astroport"], &["bank, wasm dispatch (simulated chain)"]);
        p("C27", scn::<conv::ConvScn>(), 8000, &["astro_converter", "astro_converter_neutron", "pair_astro_converter", "factory", "cw20-base", "packages/astroport"], &["bank, wasm dispatch, IBC transfer module and relayer, Neutron fee module (simulated chain)", "the stored state of a pair of an earlier release (written by the harness)"]);
        p("C30", scn::<sml::RegScn>(), 8000, &["coin_registry", "factory", "packages/astroport"], &["bank, wasm dispatch (simulated chain)"]);
        p("C31", scn::<sml::FeeScn>(), 10000, &["fee_granter", "packages/astroport"], &["bank, wasm dispatch, feegrant module (simulated chain)"]);
        p("C32", scn::<sml::WlScn>(), 10000, &["whitelist", "cw1-whitelist", "cw20-base"], &["bank, wasm dispatch, Neutron IBC message (simulated chain)"]);
        p("C16", scn::<acl::AclScn>(), 10_000, &["factory", "coin_registry", "fee_granter", "incentives", "vesting", "maker", "router", "pair", "pair_stable", "pair_concentrated", "pair_xyk_sale_tax", "cw20-base", "packages/astroport"], &["bank, wasm dispatch, tokenfactory and feegrant modules (simulated chain)"]);
        p("C28", scn::<upg::UpgScn>(), 6000, &["factory", "coin_registry", "incentives", "vesting", "maker", "router", "pair_concentrated", "pair_xyk_sale_tax", "pair 1.3.3 (published release)", "oracle", "staking", "tokenfactory_tracker", "tokenfactory_tracker 1.0.0 (published release)", "xastro_token", "cw20-base", "packages/astroport"], &["bank, wasm dispatch, tokenfactory module (simulated chain)", "stored records of earlier releases (converted by the harness)"]);
        for id in ["C25", "C26"] {
            p(id, scn::<mak::MakScn>(), 5000, &["maker", "factory", "pair", "coin_registry", "cw20-base", "packages/astroport"], &["bank, wasm dispatch, tokenfactory module (simulated chain)", "governance receiver contract"]);
        }
    }
    v
}

fn prop(id: &str) -> Prop {
    props().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id} (built with the wrong feature group?)");
        exit(2)
    })
}

fn known_findings(dir: &str) -> Vec<Known> {
    let mut v = vec![];
    let Ok(s) = std::fs::read_to_string(format!("{dir}/known_findings.jsonl")) else {
        return v;
    };
    for l in s.lines() {
        let Ok(j) = serde_json::from_str::<Value>(l) else {
            continue;
        };
        if j.get("status").and_then(|x| x.as_str()) != Some("known") {
            continue; // "fixed" entries suppress nothing
        }
        let g = |k: &str| j.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
        v.push(Known {
            prop: g("property"),
            class: g("class"),
            contains: g("contains"),
            what: g("what"),
        });
    }
    v
}

fn panics_quiet() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("SIM_BT").is_ok() {
            eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture());
        }
        runner::PANIC_AT.with(|p| *p.borrow_mut() = at);
    }));
}

fn check(id: &str, tier: &str, seed: u64, dir: &str) -> i32 {
    let p = prop(id);
    let thorough = tier == "thorough";
    KNOWN.set(known_findings(dir)).ok();
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let mut runs = if thorough { p.thorough } else { p.quick };
    if let Some(r) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = r;
    }
    let cap = if thorough { 7200.0 } else { 420.0 };
    println!(
        "simcheck property={id} tier={tier} seed={seed} runs={runs} scenarios={:?}",
        p.scns.iter().map(|s| s.0.name).collect::<Vec<_>>()
    );
    let mut code = 0;
    let mut violations = 0;
    let mut found_json = Value::Null;
    // committed histories first: one per known finding and one per repaired defect
    let (corpus, corpus_known) = match run_corpus(id, dir) {
        Ok(x) => x,
        Err(e) => {
            println!("HARNESS ERROR: {e}");
            return 2;
        }
    };
    let mut b = if corpus.iter().any(|c| c.1.is_some()) {
        batch(id, &p.scns, seed, 0, thorough, cap, workers)
    } else {
        batch(id, &p.scns, seed, runs, thorough, cap, workers)
    };
    for (k, (n, v)) in corpus_known {
        b.known.entry(k).or_insert((0, v)).0 += n;
    }
    for (file, v) in &corpus {
        if let Some(v) = v {
            violations += 1;
            code = 1;
            println!("violation in the committed history {file}: [{}] {}", v.class, v.msg);
            println!("VIOLATION property={id} replay={file}");
            found_json = json!({"class": v.class, "msg": v.msg, "replay": file});
        }
    }
    for (what, (n, v)) in &b.known {
        println!("KNOWN-FINDING: property={id} {what} ({n} runs; e.g. {})", v.msg);
    }
    if let Some((run, si, v, cfg, sched, trace)) = b.found {
        violations = 1;
        let sc = p.scns[si].0;
        let n0 = trace.len();
        let run_seed = rng::mix(seed, run);
        let (min, mv, tried) = minimise(id, sc, &cfg, &sched, trace.clone(), &v.class, 40.0);
        let (min, mv) = if mv.class == "non-reproducible" {
            (trace, v.clone())
        } else {
            (min, mv)
        };
        std::fs::create_dir_all(format!("{dir}/replays")).ok();
        let file = format!("{dir}/replays/{id}-{tier}-{seed}.json");
        let j = json!({
            "property": id, "scenario": sc.name, "verif_seed": seed, "run": run, "run_seed": run_seed.to_string(),
            "class": mv.class, "violation": mv.msg, "violation_step": mv.step,
            "steps_before_minimisation": n0, "steps": min.len(), "minimiser_executions": tried,
            "cfg": cfg, "sched": sched, "trace": min,
        });
        std::fs::write(&file, serde_json::to_string_pretty(&j).unwrap()).ok();
        println!("violation in run {run} (seed {run_seed}, scenario {}): [{}] {}", sc.name, mv.class, mv.msg);
        println!("minimised from {n0} to {} steps in {tried} executions", min.len());
        println!("VIOLATION property={id} replay={file}");
        found_json = json!({"class": mv.class, "msg": mv.msg, "replay": file});
        code = 1;
    } else if let Some(e) = &b.broken {
        println!("HARNESS ERROR: {e}");
        return 2;
    }
    if code == 0 && b.runs < runs && !b.capped {
        println!("HARNESS ERROR: {} of {runs} runs completed", b.runs);
        return 2;
    }
    let pick = |pre: &str| -> BTreeMap<String, u64> {
        b.stats
            .iter()
            .filter(|(k, _)| k.starts_with(pre))
            .map(|(k, v)| (k[pre.len()..].to_string(), *v))
            .collect()
    };
    let other: BTreeMap<String, u64> = b
        .stats
        .iter()
        .filter(|(k, _)| !["fault.", "oracle.", "runs.", "probe.", "sched."].iter().any(|p| k.starts_with(p)))
        .map(|(k, v)| (k.clone(), *v))
        .collect();
    let wall = b.wall.max(0.001);
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": b.runs,
            "distinct_nontrivial": b.distinct.len(),
            "rule": format!("One evaluation is one simulated history of the real contracts on the simulated chain, drawn from VERIF_SEED and the run index. {} Non-trivial: at least one transaction was accepted after deployment; distinct: different sequence of (action, accepted or rejected).", p.rule),
            "samples": b.samples,
            "nontrivial_runs": b.nontrivial,
            "distinct_final_states": b.states.len(),
            "steps": b.steps,
            "committed_histories_replayed": corpus.len(),
            "simulated_seconds": b.sim_s,
            "runs_per_hour": (b.runs as f64 / wall * 3600.0) as u64,
            "seeds_per_hour": (b.runs as f64 / wall * 3600.0) as u64,
            "capped_by_wall_clock": b.capped,
            "runs_per_scenario": pick("runs."),
            "faults_injected": pick("fault."),
            "scheduling": pick("sched."),
            "oracle_evaluations": pick("oracle."),
            "rare_conditions_hit": pick("probe."),
            "actions": other,
            "real_components": p.real,
            "stubbed_components": p.stubs,
            "known_findings": b.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
            "violation": found_json,
        },
        "assumptions": [
            "the simulated chain (bank, wasm dispatch, tokenfactory hooks, IBC transfer, feegrant) behaves like the SDK modules it stands in for; it is harness code",
            "seeded sampling: histories not drawn are not covered",
            "contracts run natively with overflow checks, not as wasm; gas is modelled only as injected out-of-gas faults",
        ],
        "wall_s": b.wall,
        "violations": violations,
    });
    std::fs::create_dir_all(format!("{dir}/evidence")).ok();
    if let Err(e) = std::fs::write(
        format!("{dir}/evidence/{id}.json"),
        serde_json::to_string_pretty(&ev).unwrap(),
    ) {
        println!("HARNESS ERROR: evidence: {e}");
        return 2;
    }
    println!(
        "property={id} runs={} distinct={} states={} steps={} simulated={}d wall={:.1}s violations={violations}",
        b.runs,
        b.distinct.len(),
        b.states.len(),
        b.steps,
        b.sim_s / 86400,
        b.wall
    );
    code
}

type KnownHits = BTreeMap<String, (u64, runner::Violation)>;

fn run_corpus(id: &str, dir: &str) -> Result<(Vec<(String, Option<runner::Violation>)>, KnownHits), String> {
    let mut out = vec![];
    let mut known: KnownHits = BTreeMap::new();
    let Ok(rd) = std::fs::read_dir(format!("{dir}/corpus")) else { return Ok((out, known)) };
    let mut files: Vec<String> = rd
        .flatten()
        .map(|f| f.path().to_string_lossy().into_owned())
        .filter(|f| Path::new(f).file_name().is_some_and(|n| n.to_string_lossy().starts_with(&format!("{id}-"))))
        .collect();
    files.sort();
    let p = prop(id);
    for f in files {
        let s = std::fs::read_to_string(&f).map_err(|e| format!("{f}: {e}"))?;
        let j: Value = serde_json::from_str(&s).map_err(|e| format!("{f}: {e}"))?;
        let sc = p
            .scns
            .iter()
            .find(|s| Some(s.0.name) == j["scenario"].as_str())
            .ok_or(format!("{f}: unknown scenario"))?
            .0;
        let sched: Sched = serde_json::from_value(j["sched"].clone()).map_err(|e| format!("{f}: {e}"))?;
        let o = replay(sc, id, &j["cfg"], &sched, j["trace"].as_array().ok_or("no trace")?, false)
            .ok_or(format!("{f}: the history does not parse"))?;
        if let Some(b) = o.broken {
            return Err(format!("{f}: {b}"));
        }
        for (k, (n, v)) in o.known {
            known.entry(k).or_insert((0, v)).0 += n;
        }
        out.push((f, o.violation));
    }
    Ok((out, known))
}

fn do_replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(Path::new(file)).expect("replay file");
    let j: Value = serde_json::from_str(&s).expect("replay json");
    let id = j["property"].as_str().unwrap();
    let p = prop(id);
    let sc = p
        .scns
        .iter()
        .find(|s| Some(s.0.name) == j["scenario"].as_str())
        .expect("scenario")
        .0;
    let sched: Sched = serde_json::from_value(j["sched"].clone()).unwrap();
    let trace = j["trace"].as_array().unwrap();
    if std::env::var("SIM_NO_KNOWN").is_err() {
        if let Some(d) = Path::new(file).parent().and_then(|d| d.parent()) {
            KNOWN.set(known_findings(&d.to_string_lossy())).ok();
        }
    }
    let o = replay(sc, id, &j["cfg"], &sched, trace, true).expect("trace format");
    if let Some(b) = o.broken {
        println!("HARNESS ERROR: {b}");
        return 2;
    }
    match o.violation {
        Some(v) => {
            println!("[{}] {}", v.class, v.msg);
            println!("VIOLATION property={id} replay={file}");
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn selftest(id: &str, n: u64) -> i32 {
    let p = prop(id);
    let bad = std::sync::Mutex::new(vec![]);
    let next = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= n {
                    break;
                }
                for (sc, _) in &p.scns {
                    let sig = |o: &RunOut| {
                        format!(
                            "{:x} {:x} {} {:?} {:?} {:?}",
                            o.fingerprint, o.digest, o.sim_s, o.stats, o.violation, o.broken
                        )
                    };
                    let a = run_seed(*sc, id, rng::mix(7, i), false);
                    let b = run_seed(*sc, id, rng::mix(7, i), false);
                    let c = replay(*sc, id, &a.cfg, &a.sched, &a.trace, false).unwrap();
                    let cs = format!("{:x} {:x} {:?}", c.fingerprint, c.digest, c.violation);
                    let as_ = format!("{:x} {:x} {:?}", a.fingerprint, a.digest, a.violation);
                    if sig(&a) != sig(&b) || a.trace != b.trace || (a.broken.is_none() && cs != as_) {
                        bad.lock().unwrap().push((i, sc.name));
                    }
                    println!("{} {i} {}", sc.name, sig(&a));
                }
            });
        }
    });
    let bad = bad.into_inner().unwrap();
    if bad.is_empty() {
        0
    } else {
        println!("NON-DETERMINISTIC {bad:?}");
        1
    }
}

fn main() {
    panics_quiet();
    let a: Vec<String> = std::env::args().collect();
    let g = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match g(1) {
        "check" => check(g(2), g(3), g(4).parse().unwrap_or(1), g(5)),
        "replay" => do_replay(g(2)),
        "selftest" => selftest(g(2), g(3).parse().unwrap_or(20)),
        "one" => {
            // one run, verbosely: PROP SCENARIO RUN_INDEX SEED
            let p = prop(g(2));
            let run: u64 = g(4).parse().unwrap();
            let seed: u64 = g(5).parse().unwrap_or(1);
            let sc = p.scns.iter().find(|s| s.0.name == g(3)).expect("scenario").0;
            let o = run_seed(sc, p.id, rng::mix(seed, run), false);
            let o = replay(sc, p.id, &o.cfg, &o.sched, &o.trace, true).unwrap();
            println!("{:?} {:?}\n{}", o.violation, o.broken, o.cfg);
            0
        }
        "list" => {
            for p in props() {
                println!("{} {:?} {} {}", p.id, p.scns.iter().map(|s| s.0.name).collect::<Vec<_>>(), p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: simcheck check|replay|selftest|one|list ...");
            2
        }
    };
    exit(code);
}
