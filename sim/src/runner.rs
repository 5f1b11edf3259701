//! Seeded search over simulated histories, recording, minimisation and replay.

use crate::chain::Fault;
use crate::rng::{mix, set_hash_seed, Rng};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub prop: String,
    /// violation class: stable under minimisation
    pub class: String,
    pub msg: String,
    pub step: usize,
}

/// What one run sees and counts. Nothing in here feeds back into the schedule.
pub struct Ctx {
    pub prop: String,
    pub step: usize,
    pub first: Option<Violation>,
    pub stats: BTreeMap<String, u64>,
    pub fingerprint: u64,
    pub progress: u64,
    pub verbose: bool,
    pub broken: Option<String>,
    pub known: BTreeMap<String, (u64, Violation)>,
}

/// listed findings of the unchanged tree: reported, but they do not end a run
pub static KNOWN: std::sync::OnceLock<Vec<Known>> = std::sync::OnceLock::new();

impl Ctx {
    fn new(prop: &str, verbose: bool) -> Self {
        Ctx {
            prop: prop.into(),
            step: 0,
            first: None,
            stats: BTreeMap::new(),
            fingerprint: 0,
            progress: 0,
            verbose,
            broken: None,
            known: BTreeMap::new(),
        }
    }
    pub fn on(&self, prop: &str) -> bool {
        self.prop == prop
    }
    pub fn hit(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_default() += n;
    }
    /// outcome of one simulated action; part of the history fingerprint
    pub fn outcome(&mut self, kind: &str, ok: bool, err: &str) {
        let mut h = self.fingerprint;
        for b in kind.bytes() {
            h = mix(h, b as u64);
        }
        self.fingerprint = mix(h, ok as u64);
        if ok {
            self.progress += 1;
        }
        let k = format!("{}.{}", kind, if ok { "ok" } else { "rejected" });
        *self.stats.entry(k).or_default() += 1;
        if self.verbose {
            println!(
                "  step {} {} {}",
                self.step,
                kind,
                if ok { "ok".to_string() } else { format!("rejected: {err}") }
            );
        }
    }
    pub fn violate(&mut self, prop: &str, class: &str, msg: String) {
        if self.verbose {
            println!("  step {} !! {} [{}] {}", self.step, prop, class, msg);
        }
        if prop == self.prop && self.first.is_none() {
            let v = Violation {
                prop: prop.into(),
                class: class.into(),
                msg,
                step: self.step,
            };
            if let Some(ks) = KNOWN.get() {
                if let Some(k) = is_known(ks, &v) {
                    self.known.entry(ks[k].what.clone()).or_insert((0, v)).0 += 1;
                    return;
                }
            }
            self.first = Some(v);
        }
    }
    pub fn check(&mut self, prop: &str, class: &str, ok: bool, msg: impl FnOnce() -> String) {
        if prop == self.prop {
            *self.stats.entry(format!("oracle.{class}")).or_default() += 1;
        }
        if !ok {
            self.violate(prop, class, msg());
        }
    }
    /// the harness itself is broken (never a verdict)
    pub fn harness(&mut self, msg: String) {
        if self.broken.is_none() {
            self.broken = Some(msg);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step<O> {
    /// seconds and blocks that pass before the operation
    pub dt: u64,
    pub db: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fault: Option<Fault>,
    pub op: O,
}

/// knobs of the network/scheduler, drawn per run
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    pub steps: u64,
    pub mempool: u64,
    pub drop_permille: u64,
    pub dup_permille: u64,
    pub fault_permille: u64,
    pub fault_depth: u64,
    pub same_block_pct: u64,
    pub jump_pct: u64,
    pub long_jump_pct: u64,
    pub hash_seed: u64,
}

impl Sched {
    pub fn draw(rng: &mut Rng, steps: u64) -> Self {
        let calm = rng.pct(25);
        Sched {
            steps: rng.range(steps / 3 + 1, steps),
            mempool: *rng.pick(&[1, 1, 2, 4, 8]),
            drop_permille: if calm { 0 } else { *rng.pick(&[0, 20, 100]) },
            dup_permille: if calm { 0 } else { *rng.pick(&[0, 30, 120]) },
            fault_permille: if calm { 0 } else { *rng.pick(&[0, 30, 120, 250]) },
            fault_depth: *rng.pick(&[1, 2, 4, 8]),
            same_block_pct: *rng.pick(&[10, 40, 70]),
            jump_pct: *rng.pick(&[0, 5, 20, 50]),
            long_jump_pct: *rng.pick(&[0, 0, 2, 10]),
            hash_seed: rng.next(),
        }
    }
}

pub trait Scenario: Sized {
    type Cfg: Serialize + DeserializeOwned + Clone + Send;
    type Op: Serialize + DeserializeOwned + Clone + Send;
    const NAME: &'static str;
    fn cfg(rng: &mut Rng, prop: &str, thorough: bool) -> (Self::Cfg, Sched);
    fn new(cfg: &Self::Cfg, ctx: &mut Ctx) -> Result<Self, String>;
    fn gen(&mut self, rng: &mut Rng) -> Self::Op;
    /// time to pass before the next operation
    fn advance(&mut self, rng: &mut Rng, s: &Sched) -> (u64, u64) {
        default_advance(rng, s)
    }
    fn apply(&mut self, step: &Step<Self::Op>, ctx: &mut Ctx);
    fn finish(&mut self, _ctx: &mut Ctx) {}
    fn digest(&self) -> u64;
    fn sim_time(&self) -> u64;
}

pub fn default_advance(rng: &mut Rng, s: &Sched) -> (u64, u64) {
    if rng.pct(s.same_block_pct) {
        return (0, 0);
    }
    if rng.pct(s.long_jump_pct) {
        let d = rng.log(86_400, 40 * 86_400) as u64;
        return (d, rng.range(1, d / 5));
    }
    if rng.pct(s.jump_pct) {
        let d = rng.log(60, 2 * 86_400) as u64;
        return (d, rng.range(1, d / 5 + 1));
    }
    let b = rng.range(1, 3);
    (b * rng.range(1, 6), b)
}

pub struct RunOut {
    pub violation: Option<Violation>,
    pub broken: Option<String>,
    pub known: BTreeMap<String, (u64, Violation)>,
    pub stats: BTreeMap<String, u64>,
    pub fingerprint: u64,
    pub digest: u64,
    pub progress: u64,
    pub steps: usize,
    pub sim_s: u64,
    pub cfg: Value,
    pub sched: Sched,
    pub trace: Vec<Value>,
}

fn one<S: Scenario>(
    prop: &str,
    cfg: S::Cfg,
    sched: Sched,
    source: Source<S::Op>,
    verbose: bool,
) -> RunOut {
    let mut ctx = Ctx::new(prop, verbose);
    let mut trace: Vec<Step<S::Op>> = vec![];
    let mut digest = 0;
    let mut sim_s = 0;
    // a deployment that the code refuses, or a read of the system that stops working, is a violation of its own class:
    // on a tree where the property holds neither happens
    let made = catch_unwind(AssertUnwindSafe(|| S::new(&cfg, &mut ctx)))
        .unwrap_or_else(|e| Err(panic_text(&*e)));
    match made {
        Err(e) => ctx.violate(prop, "setup", format!("a valid deployment was refused: {e}")),
        Ok(mut s) => {
            let t0 = s.sim_time();
            match source {
                Source::Trace(steps) => {
                    for st in steps {
                        ctx.step = trace.len();
                        trace.push(st.clone());
                        guard_apply(&mut s, &st, &mut ctx);
                        if ctx.first.is_some() || ctx.broken.is_some() {
                            break;
                        }
                    }
                }
                Source::Seed(seed) => {
                    let mut rng = Rng::new(mix(seed, 0xabcdef));
                    let mut pool: Vec<S::Op> = vec![];
                    while (trace.len() as u64) < sched.steps {
                        // clients submit until the mempool is full, then the network delivers in any order
                        if pool.is_empty()
                            || ((pool.len() as u64) < sched.mempool && rng.pct(60))
                        {
                            let op = s.gen(&mut rng);
                            pool.push(op);
                            continue;
                        }
                        let i = rng.idx(pool.len());
                        if rng.permille(sched.drop_permille) {
                            pool.remove(i);
                            ctx.hit("fault.tx_dropped");
                            continue;
                        }
                        if i != 0 {
                            ctx.hit("fault.tx_reordered");
                        }
                        let op = if rng.permille(sched.dup_permille) {
                            ctx.hit("fault.tx_duplicated");
                            pool[i].clone()
                        } else {
                            pool.remove(i)
                        };
                        let (dt, db) = s.advance(&mut rng, &sched);
                        if dt == 0 {
                            ctx.hit("sched.same_block");
                        } else if dt > 3600 {
                            ctx.hit("fault.clock_jump");
                        }
                        let fault = if rng.permille(sched.fault_permille) {
                            Some(Fault {
                                at: rng.range(1, sched.fault_depth),
                                kind: match rng.below(5) {
                                    0 | 1 => crate::chain::FaultKind::Fail,
                                    2 | 3 => crate::chain::FaultKind::FailAfter,
                                    _ => crate::chain::FaultKind::OutOfGas,
                                },
                            })
                        } else {
                            None
                        };
                        let st = Step { dt, db, fault, op };
                        ctx.step = trace.len();
                        trace.push(st.clone());
                        guard_apply(&mut s, &st, &mut ctx);
                        if ctx.first.is_some() || ctx.broken.is_some() {
                            break;
                        }
                    }
                }
            }
            if ctx.first.is_none() && ctx.broken.is_none() {
                ctx.step = trace.len();
                if let Err(e) = catch_unwind(AssertUnwindSafe(|| s.finish(&mut ctx))) {
                    ctx.violate(prop, "unreadable", panic_text(&*e));
                }
            }
            digest = s.digest();
            sim_s = s.sim_time() - t0;
        }
    }
    RunOut {
        violation: ctx.first,
        broken: ctx.broken,
        known: ctx.known,
        stats: ctx.stats,
        fingerprint: ctx.fingerprint,
        digest,
        progress: ctx.progress,
        steps: trace.len(),
        sim_s,
        cfg: serde_json::to_value(&cfg).unwrap(),
        sched,
        trace: trace
            .iter()
            .map(|t| serde_json::to_value(t).unwrap())
            .collect(),
    }
}

thread_local! {
    /// where the last panic of this thread was raised (set by the panic hook in main.rs)
    pub static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
    PANIC_AT.with(|p| format!("{m} ({})", p.borrow()))
}

fn guard_apply<S: Scenario>(s: &mut S, st: &Step<S::Op>, ctx: &mut Ctx) {
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| s.apply(st, ctx))) {
        let p = ctx.prop.clone();
        ctx.violate(&p, "unreadable", format!("a read the property relies on stopped working: {}", panic_text(&*e)));
    }
}

enum Source<O> {
    Seed(u64),
    Trace(Vec<Step<O>>),
}

/// Type-erased scenario, so that a property is a list of (scenario, share of the runs).
#[derive(Clone, Copy)]
pub struct Scn {
    pub name: &'static str,
    seeded: fn(&str, u64, bool) -> RunOut,
    traced: fn(&str, &Value, &Sched, &[Value], bool) -> Option<RunOut>,
}

pub const fn scn<S: Scenario>() -> Scn {
    Scn {
        name: S::NAME,
        seeded: |prop, seed, thorough| {
            let mut rng = Rng::new(mix(seed, 1));
            let (cfg, sched) = S::cfg(&mut rng, prop, thorough);
            let hs = sched.hash_seed;
            let prop = prop.to_string();
            isolated(hs, move || one::<S>(&prop, cfg, sched, Source::Seed(seed), false))
        },
        traced: |prop, cfg, sched, trace, verbose| {
            let cfg: S::Cfg = serde_json::from_value(cfg.clone()).ok()?;
            let mut steps = vec![];
            for t in trace {
                steps.push(serde_json::from_value(t.clone()).ok()?);
            }
            let sched = sched.clone();
            let prop = prop.to_string();
            // S::Op need not be Send: ship JSON instead
            let steps_json: Vec<Value> = trace.to_vec();
            drop::<Vec<Step<S::Op>>>(steps);
            let cfgj = serde_json::to_value(&cfg).ok()?;
            Some(isolated(sched.hash_seed, move || {
                let cfg: S::Cfg = serde_json::from_value(cfgj).unwrap();
                let steps = steps_json
                    .into_iter()
                    .map(|t| serde_json::from_value(t).unwrap())
                    .collect();
                one::<S>(&prop, cfg, sched, Source::Trace(steps), verbose)
            }))
        },
    }
}

/// Each simulation runs alone in a fresh thread whose hash keys derive from the simulation's seed.
fn isolated<F: FnOnce() -> RunOut + Send>(hash_seed: u64, f: F) -> RunOut {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, move || {
                set_hash_seed(hash_seed);
                f()
            })
            .unwrap()
            .join()
            .unwrap_or_else(|e| {
                let m = panic_text(&*e);
                RunOut {
                    violation: None,
                    broken: Some(format!("harness panic: {m}")),
                    known: BTreeMap::new(),
                    stats: BTreeMap::new(),
                    fingerprint: 0,
                    digest: 0,
                    progress: 0,
                    steps: 0,
                    sim_s: 0,
                    cfg: Value::Null,
                    sched: Sched::draw(&mut Rng::new(0), 1),
                    trace: vec![],
                }
            })
    })
}

pub struct Batch {
    pub runs: u64,
    pub nontrivial: u64,
    pub distinct: BTreeSet<u64>,
    pub states: BTreeSet<u64>,
    pub stats: BTreeMap<String, u64>,
    pub steps: u64,
    pub sim_s: u64,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, (u64, Violation)>,
    pub found: Option<(u64, usize, Violation, Value, Sched, Vec<Value>)>,
    pub broken: Option<String>,
    pub capped: bool,
    pub wall: f64,
}

pub struct Known {
    pub prop: String,
    pub class: String,
    pub contains: String,
    pub what: String,
}

pub fn is_known(k: &[Known], v: &Violation) -> Option<usize> {
    k.iter()
        .position(|e| e.prop == v.prop && e.class == v.class && v.msg.contains(&e.contains))
}

#[allow(clippy::too_many_arguments)]
pub fn batch(
    prop: &str,
    scns: &[(Scn, u64)],
    base: u64,
    runs: u64,
    thorough: bool,
    cap_s: f64,
    workers: usize,
) -> Batch {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let capped = AtomicBool::new(false);
    let total: u64 = scns.iter().map(|s| s.1).sum();
    let acc = Mutex::new(Batch {
        runs: 0,
        nontrivial: 0,
        distinct: BTreeSet::new(),
        states: BTreeSet::new(),
        stats: BTreeMap::new(),
        steps: 0,
        sim_s: 0,
        samples: vec![],
        known: BTreeMap::new(),
        found: None,
        broken: None,
        capped: false,
        wall: 0.0,
    });
    std::thread::scope(|sc| {
        for _ in 0..workers {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= runs || i > stop_at.load(Ordering::SeqCst) {
                    break;
                }
                if t0.elapsed().as_secs_f64() > cap_s {
                    capped.store(true, Ordering::SeqCst);
                    break;
                }
                // which scenario: a deterministic function of the run index
                let mut r = i % total;
                let mut si = 0;
                for (k, s) in scns.iter().enumerate() {
                    if r < s.1 {
                        si = k;
                        break;
                    }
                    r -= s.1;
                }
                let seed = mix(base, i);
                let out = (scns[si].0.seeded)(prop, seed, thorough);
                let mut a = acc.lock().unwrap();
                a.runs += 1;
                a.steps += out.steps as u64;
                a.sim_s += out.sim_s;
                *a.stats.entry(format!("runs.{}", scns[si].0.name)).or_default() += 1;
                if out.progress > 0 {
                    a.nontrivial += 1;
                    a.distinct.insert(out.fingerprint);
                }
                a.states.insert(out.digest);
                for (k, v) in &out.stats {
                    *a.stats.entry(k.clone()).or_default() += v;
                }
                if a.samples.len() < 2 && out.progress > 2 && i < 64 {
                    let head: Vec<Value> = out.trace.iter().take(6).cloned().collect();
                    a.samples.push(serde_json::json!({"run":i,"seed":seed.to_string(),"scenario":scns[si].0.name,"cfg":out.cfg,"sched":out.sched,"first_steps":head}));
                }
                if let Some(b) = out.broken {
                    if a.broken.is_none() {
                        a.broken = Some(format!("run {i} seed {seed}: {b}"));
                    }
                    stop_at.store(0, Ordering::SeqCst);
                } else if let Some(v) = out.violation {
                    let better = a.found.as_ref().map_or(true, |f| i < f.0);
                    if better {
                        a.found = Some((i, si, v, out.cfg, out.sched, out.trace));
                        stop_at.fetch_min(i, Ordering::SeqCst);
                    }
                }
                for (k, (_, v)) in out.known {
                    a.known.entry(k).or_insert((0, v)).0 += 1;
                }
            });
        }
    });
    let mut a = acc.into_inner().unwrap();
    a.capped = capped.load(Ordering::SeqCst);
    a.wall = t0.elapsed().as_secs_f64();
    a
}

// ------------------------------------------------------------------------------------------------ minimisation

fn leaves(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                path.push(k.clone());
                leaves(x, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                leaves(x, path, out);
                path.pop();
            }
        }
        Value::Number(_) => out.push(path.clone()),
        Value::String(s) if s.parse::<u128>().is_ok() => out.push(path.clone()),
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Object(m) => m.get_mut(p)?,
            Value::Array(a) => a.get_mut(p.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(v)
}

pub fn minimise(
    prop: &str,
    sc: Scn,
    cfg: &Value,
    sched: &Sched,
    trace: Vec<Value>,
    class: &str,
    budget_s: f64,
) -> (Vec<Value>, Violation, u64) {
    let t0 = Instant::now();
    let fails = |t: &[Value]| -> Option<Violation> {
        let o = (sc.traced)(prop, cfg, sched, t, false)?;
        match o.violation {
            Some(v) if v.class == class && o.broken.is_none() => Some(v),
            _ => None,
        }
    };
    let mut cur = trace;
    let mut best = match fails(&cur) {
        Some(v) => v,
        None => {
            return (
                cur,
                Violation {
                    prop: prop.into(),
                    class: "non-reproducible".into(),
                    msg: "recorded trace did not reproduce".into(),
                    step: 0,
                },
                0,
            )
        }
    };
    let mut tried = 1u64;
    let over = |t0: &Instant| t0.elapsed().as_secs_f64() > budget_s;
    // 1. drop chunks of steps
    let mut n = cur.len() / 2;
    while n >= 1 && !over(&t0) {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() && !over(&t0) {
            let mut c = cur.clone();
            let e = (i + n).min(c.len());
            c.drain(i..e);
            tried += 1;
            if let Some(v) = fails(&c) {
                cur = c;
                best = v;
                changed = true;
            } else {
                i += n;
            }
        }
        if !changed || n > 1 {
            n /= 2;
        }
    }
    // 2. drop faults, shrink times and numbers
    for i in 0..cur.len() {
        if over(&t0) {
            break;
        }
        if cur[i].get("fault").is_some() {
            let mut c = cur.clone();
            c[i].as_object_mut().unwrap().remove("fault");
            tried += 1;
            if let Some(v) = fails(&c) {
                cur = c;
                best = v;
            }
        }
        let mut paths = vec![];
        leaves(&cur[i], &mut vec![], &mut paths);
        for p in paths {
            loop {
                if over(&t0) {
                    break;
                }
                let old = at(&mut cur[i].clone(), &p).cloned();
                let (num, is_str) = match &old {
                    Some(Value::Number(x)) => (x.as_u64().unwrap_or(0) as u128, false),
                    Some(Value::String(s)) => (s.parse().unwrap_or(0), true),
                    _ => break,
                };
                if num == 0 {
                    break;
                }
                let mut cands = vec![0, 1, num / 1000, num / 2];
                // rounder number of the same magnitude
                let mut pow = 1u128;
                while pow.checked_mul(10).is_some_and(|x| x <= num) {
                    pow *= 10;
                }
                cands.push(num / pow * pow);
                let mut ok = false;
                for cand in cands {
                    if cand >= num {
                        continue;
                    }
                    let mut c = cur.clone();
                    if let Some(x) = at(&mut c[i], &p) {
                        *x = if is_str {
                            Value::String(cand.to_string())
                        } else {
                            Value::from(cand as u64)
                        };
                    }
                    tried += 1;
                    if let Some(v) = fails(&c) {
                        cur = c;
                        best = v;
                        ok = true;
                        break;
                    }
                    if over(&t0) {
                        break;
                    }
                }
                if !ok {
                    break;
                }
            }
        }
    }
    (cur, best, tried)
}

pub fn replay(
    sc: Scn,
    prop: &str,
    cfg: &Value,
    sched: &Sched,
    trace: &[Value],
    verbose: bool,
) -> Option<RunOut> {
    (sc.traced)(prop, cfg, sched, trace, verbose)
}

pub fn run_seed(sc: Scn, prop: &str, seed: u64, thorough: bool) -> RunOut {
    (sc.seeded)(prop, seed, thorough)
}

/// counts the fault injected into the last transaction, if it fired
#[cfg(any(feature = "dex", feature = "per"))]
pub fn fault_mark(c: &crate::chain::Chain, ctx: &mut Ctx) -> bool {
    use crate::chain::FaultKind;
    let k = c.0.borrow().fault_fired.clone();
    if let Some(k) = k {
        ctx.hit(match k {
            FaultKind::Fail => "fault.tx_failed_mid",
            FaultKind::OutOfGas => "fault.out_of_gas",
            FaultKind::FailAfter => "fault.tx_failed_after",
        });
        true
    } else {
        false
    }
}
