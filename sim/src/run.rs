//! Command line: checks, replays, self tests.
use crate::gen::*;
use crate::minim::*;
use crate::rng::*;
use crate::sim::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub const STACK: usize = 256 << 20;

fn hunt(prop: &str, from: u64, n: u64) -> i32 {
    let next = AtomicU64::new(from);
    let first = std::env::var("FIRST").is_ok();
    let found: Mutex<std::collections::BTreeMap<String, (u64, Vec<(u64, String)>)>> = Mutex::new(Default::default());
    let t0 = std::time::Instant::now();
    let steps = AtomicU64::new(0);
    let stats: Mutex<std::collections::BTreeMap<String, u64>> = Mutex::new(Default::default());
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= from + n || (first && !found.lock().unwrap().is_empty()) {
                        break;
                    }
                    let seed = mix(&[1, i]);
                    let all = format!("C{:02}", 1 + i % 26);
                    let prof = if prop == "ALL" { all.as_str() } else { prop };
                    let r = std::panic::catch_unwind(|| {
                        let mut g = Gen::new(seed, prof, None, false);
                        g.run();
                        if prof == "C23" && g.sim.m.viols.is_empty() {
                            g.sim.m.viols.extend(twin(&g.sim.cfg, &g.steps, Some(&g.sim)));
                        }
                        let mut st = stats.lock().unwrap();
                        for (k, v) in g.sim.stats.iter() {
                            *st.entry(k.clone()).or_insert(0) += v;
                        }
                        for (k, v) in g.sim.faults.iter() {
                            *st.entry(format!("fault {k}")).or_insert(0) += v;
                        }
                        for (k, v) in g.sim.m.evals.iter() {
                            *st.entry(format!("eval {k:?}")).or_insert(0) += *v as u64;
                        }
                        *st.entry("skipped steps".into()).or_insert(0) += g.sim.skipped as u64;
                        *st.entry("distinct trees (sum)".into()).or_insert(0) += g.sim.trees.len() as u64;
                        (g.sim.m.viols.clone(), g.steps.len())
                    });
                    match r {
                        Ok((v, k)) => {
                            steps.fetch_add(k as u64, Ordering::Relaxed);
                            for x in v.iter().take(1) {
                                let key: String = format!("{} {}", x.prop, x.text.chars().take(60).collect::<String>());
                                let mut f = found.lock().unwrap();
                                let e = f.entry(key).or_default();
                                e.0 += 1;
                                if e.1.len() < 2 {
                                    e.1.push((i, x.text.clone()));
                                }
                            }
                        }
                        Err(e) => {
                            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            let mut f = found.lock().unwrap();
                            let e = f.entry(format!("PANIC {m}")).or_default();
                            e.0 += 1;
                            if e.1.len() < 2 {
                                e.1.push((i, String::new()));
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    for (k, (n, ex)) in found.lock().unwrap().iter() {
        println!("{n:5} x {k}");
        for (i, t) in ex {
            println!("        run {i}: {}", t.chars().take(400).collect::<String>());
        }
    }
    if std::env::var("STATS").is_ok() {
        for (k, v) in stats.lock().unwrap().iter() {
            println!("{v:8} {k}");
        }
    }
    println!("{n} runs, {} steps, {:?}", steps.load(Ordering::Relaxed), t0.elapsed());
    0
}

fn one(prop: &str, i: u64) -> i32 {
    let seed = mix(&[1, i]);
    let mut g = Gen::new(seed, prop, None, false);
    g.run();
    let v = match g.sim.m.viols.first() {
        Some(v) => v.clone(),
        None => {
            println!("no violation");
            return 0;
        }
    };
    println!("{} steps, {}: {}", g.steps.len(), v.prop, v.text);
    let p = v.prop.clone();
    let f = Some(p.as_str());
    let test = |c: &Cfg, s: &[Step]| execute(c, s, f).m.viols.iter().any(|v| v.prop == p);
    let (st, _) = minimise(&g.sim.cfg, &g.steps, g.setup, &test, std::time::Duration::from_secs(60));
    let mut s = Sim::new(&g.sim.cfg);
    s.m.filter = Some(p.clone());
    s.verbose = true;
    println!("{:?}", g.sim.cfg);
    for x in &st {
        println!("{}", serde_json::to_string(x).unwrap());
        s.exec(x);
    }
    for v in &s.m.viols {
        println!("==> {} at {}: {}", v.prop, v.step, v.text);
    }
    1
}


#[derive(serde::Serialize, serde::Deserialize)]
struct Replay {
    property: String,
    violation: String,
    seed: u64,
    run: u64,
    tier: String,
    original_steps: usize,
    config: Cfg,
    steps: Vec<Step>,
}

#[derive(Default)]
struct Agg {
    runs: u64,
    steps: u64,
    simtime: u64,
    evals: u64,
    txs: u64,
    faults: BTreeMap<String, u64>,
    stats: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    trees: HashSet<u64>,
    shapes: HashSet<u64>,
    replayed: u64,
    replay_bad: u64,
    panics: u64,
    panic_msg: String,
    samples: Vec<Value>,
    best: Option<(u64, u64, Viol, Cfg, Vec<Step>, usize)>,
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

fn workers() -> usize {
    std::env::var("HPLSIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 16))
}

fn search(prop: &str, vseed: u64, runs: u64, deep: bool, cap: Duration) -> Agg {
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(u64::MAX);
    let agg: Mutex<Agg> = Mutex::new(Agg::default());
    let t0 = Instant::now();
    let pid = hash_bytes(prop.as_bytes());
    std::thread::scope(|sc| {
        for _ in 0..workers() {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, || {
                    let mut a = Agg::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        // runs below the first failing one are still finished, so the report does not depend on timing
                        if i >= runs || i > stop.load(Ordering::SeqCst) || t0.elapsed() > cap {
                            break;
                        }
                        let seed = mix(&[vseed, pid, i]);
                        let r = std::panic::catch_unwind(|| {
                            let mut g = Gen::new(seed, prop, Some(prop), deep);
                            g.run();
                            let mut v = g.sim.m.viols.first().cloned();
                            if v.is_none() && prop == "C23" {
                                v = twin(&g.sim.cfg, &g.steps, Some(&g.sim));
                            }
                            (g, v)
                        });
                        match r {
                            Ok((g, v)) => {
                                a.runs += 1;
                                a.steps += g.steps.len() as u64;
                                a.simtime += g.sim.simtime;
                                a.txs += g.sim.outcomes.len() as u64;
                                a.evals += g.sim.m.evals.get(prop).copied().unwrap_or(0);
                                for (k, n) in &g.sim.faults {
                                    *a.faults.entry(k.clone()).or_insert(0) += n;
                                }
                                for (k, n) in &g.sim.stats {
                                    *a.stats.entry(k.clone()).or_insert(0) += n;
                                }
                                a.distinct.extend(g.sim.distinct.iter());
                                a.trees.extend(g.sim.trees.iter());
                                a.shapes.insert(g.sim.shape);
                                if i % 50 == 0 && v.is_none() {
                                    // a recorded schedule replays to the same history
                                    let e = execute(&g.sim.cfg, &g.steps, Some(prop));
                                    a.replayed += 1;
                                    if e.log != g.sim.log {
                                        a.replay_bad += 1;
                                    }
                                }
                                if i < 2 {
                                    let tail: Vec<&Step> = g.steps[g.setup.min(g.steps.len())..].iter().take(6).collect();
                                    a.samples.push(json!({"run": i, "seed": seed.to_string(), "chains": g.sim.cfg.chains, "steps": g.steps.len(), "setup_steps": g.setup, "first_events": tail}));
                                }
                                if let Some(v) = v {
                                    stop.fetch_min(i, Ordering::SeqCst);
                                    if a.best.as_ref().map(|b| i < b.0).unwrap_or(true) {
                                        a.best = Some((i, seed, v, g.sim.cfg.clone(), g.steps.clone(), g.setup));
                                    }
                                }
                            }
                            Err(e) => {
                                a.panics += 1;
                                a.panic_msg = format!("run {i} seed {seed}: {}", panic_text(e));
                            }
                        }
                    }
                    let mut t = agg.lock().unwrap();
                    t.runs += a.runs;
                    t.steps += a.steps;
                    t.simtime += a.simtime;
                    t.txs += a.txs;
                    t.evals += a.evals;
                    t.replayed += a.replayed;
                    t.replay_bad += a.replay_bad;
                    t.panics += a.panics;
                    if !a.panic_msg.is_empty() {
                        t.panic_msg = a.panic_msg;
                    }
                    for (k, n) in a.faults {
                        *t.faults.entry(k).or_insert(0) += n;
                    }
                    for (k, n) in a.stats {
                        *t.stats.entry(k).or_insert(0) += n;
                    }
                    t.distinct.extend(a.distinct);
                    t.trees.extend(a.trees);
                    t.shapes.extend(a.shapes);
                    t.samples.extend(a.samples);
                    if let Some(b) = a.best {
                        if t.best.as_ref().map(|x| b.0 < x.0).unwrap_or(true) {
                            t.best = Some(b);
                        }
                    }
                })
                .unwrap();
        }
    });
    agg.into_inner().unwrap()
}

fn root() -> std::path::PathBuf {
    std::env::var("HPLSIM_ROOT").map(|x| x.into()).unwrap_or_else(|_| std::path::PathBuf::from("/verif"))
}

fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let deep = tier == "thorough";
    let runs: u64 = std::env::var("HPLSIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(if deep { 150_000 } else { 4_000 });
    let cap = Duration::from_secs(if deep { 2700 } else { 300 });
    let a = search(prop, vseed, runs, deep, cap);
    let mut violations = 0;
    let mut code = 0;
    let mut report = Value::Null;
    for l in known_findings(prop) {
        println!("KNOWN-FINDING: property={prop} {l}");
    }
    if let Some((i, seed, v, cfg, steps, setup)) = &a.best {
        violations = 1;
        code = 1;
        println!("run {i} (seed {seed}) violates {prop} after {} steps: {}", steps.len(), v.text);
        let test = |c: &Cfg, s: &[Step]| judge(prop, c, s).is_some();
        let (st, _) = minimise(cfg, steps, *setup, &test, Duration::from_secs(if deep { 240 } else { 75 }));
        let text = judge(prop, cfg, &st).map(|v| v.text).unwrap_or_default();
        let r = Replay {
            property: prop.into(),
            violation: text.clone(),
            seed: *seed,
            run: *i,
            tier: tier.into(),
            original_steps: steps.len(),
            config: cfg.clone(),
            steps: st.clone(),
        };
        let dir = root().join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-{seed}.json"));
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("cannot write the replay file");
        println!("minimised to {} steps: {text}", st.len());
        for s in st.iter().rev().take(12).collect::<Vec<_>>().into_iter().rev() {
            println!("  {}", serde_json::to_string(s).unwrap());
        }
        // the file reproduces it in a fresh process
        let again = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).env("HPLSIM_QUIET", "1").output();
        let ok = again.as_ref().map(|o| o.status.code() == Some(1) && String::from_utf8_lossy(&o.stdout).contains(&text)).unwrap_or(false);
        println!("replay in a fresh process: {}", if ok { "same violation" } else { "NOT REPRODUCED" });
        println!("VIOLATION property={prop} replay={}", path.display());
        report = json!({"run": i, "seed": seed.to_string(), "text": text, "replay": path.display().to_string(), "steps": st.len(), "steps_before_minimising": steps.len(), "reproduced_in_fresh_process": ok});
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop,
        "tier": if deep { "thorough" } else { "quick" },
        "seed": vseed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.evals,
            "distinct_nontrivial": a.distinct.len(),
            "rule": "evaluations: how often this property's oracle was evaluated on the real contracts, over all simulated runs. distinct_nontrivial: distinct shapes of executed steps on which it was evaluated at least once, the shape of a step being the whole tree of contract calls, queries-with-outcome, replies and bank actions it caused (contract code, message kind, success, out-of-gas) or, for a query, its kind, target and size of answer.",
            "samples": a.samples,
            "simulated_runs": a.runs,
            "runs_per_hour": (a.runs as f64 / wall * 3600.0) as u64,
            "steps": a.steps,
            "transactions": a.txs,
            "simulated_seconds": a.simtime,
            "distinct_call_trees": a.trees.len(),
            "distinct_histories": a.shapes.len(),
            "faults_injected": a.faults,
            "outcomes": a.stats,
            "schedules_replayed_from_their_record": a.replayed,
            "replays_that_differed": a.replay_bad,
            "runs_lost_to_internal_errors": a.panics,
            "real_components": ["mailbox", "merkle/fee/pausable/aggregate/routing/custom-routing/fallback-routing hooks", "multisig/aggregate/routing/pausable ISMs", "gas paymaster", "gas oracle", "validator announce", "warp native", "warp cw20", "router, ownable, pausable, connection and utils packages"],
            "stubs": ["CosmWasm VM (transactions, rollback, gas, replies, queries)", "bank and token-factory modules", "cw20 token (reference semantics)", "recipients, batching contract and third-party hooks and ISMs (scriptable puppets)", "validators and relayers", "network"],
            "violation": report,
        },
        "assumptions": [
            "contract code is native Rust run under a simulated CosmWasm runtime with the chain's atomicity rules, not Wasm",
            "secp256k1, keccak-256 and sha-256 behave as specified"
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("cannot write the evidence file");
    println!(
        "{prop} {tier} seed {vseed}: {} runs, {} steps, {} oracle evaluations on {} distinct shapes, {} faults, {:.1} s",
        a.runs,
        a.steps,
        a.evals,
        a.distinct.len(),
        a.faults.values().sum::<u64>(),
        wall
    );
    if a.panics > 0 {
        // a few lost runs cost coverage, not soundness; many mean the simulator does not fit this tree
        eprintln!("hplsim: {} runs ended in an internal error, e.g. {}", a.panics, a.panic_msg);
        if code == 0 && a.panics * 50 > a.runs {
            code = 2;
        }
    }
    if a.replay_bad > 0 {
        eprintln!("hplsim: {} schedules did not replay to the same history", a.replay_bad);
        if code == 0 {
            code = 2;
        }
    }
    code
}

fn replay(path: &str) -> i32 {
    let r: Replay = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    if std::env::var("HPLSIM_QUIET").is_err() {
        let mut s = Sim::new(&r.config);
        s.m.filter = Some(r.property.clone());
        s.verbose = true;
        for x in &r.steps {
            println!("> {}", serde_json::to_string(x).unwrap());
            s.exec(x);
            if !s.m.viols.is_empty() {
                break;
            }
        }
    }
    match judge(&r.property, &r.config, &r.steps) {
        Some(v) => {
            println!("step {}: {}", v.step, v.text);
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        None => {
            println!("no violation of {} on this tree", r.property);
            0
        }
    }
}

/// Same seed, same execution: in one process twice, and from the recorded steps.
fn selftest(n: u64) -> i32 {
    let bad = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    let digest = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..workers() {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let prop = format!("C{:02}", 1 + i % 24);
                    let seed = mix(&[7, i]);
                    let run = || {
                        let mut g = Gen::new(seed, &prop, Some(&prop), i % 5 == 0);
                        g.run();
                        (g.sim.log, g.steps, g.sim.cfg.clone())
                    };
                    let a = run();
                    let b = run();
                    let c = execute(&a.2, &a.1, Some(&prop)).log;
                    if a.0 != b.0 || a.1 != b.1 || c != a.0 {
                        bad.fetch_add(1, Ordering::SeqCst);
                        println!("run {i} ({prop}) is not repeatable");
                    }
                    digest.fetch_xor(mix(&[i, a.0]), Ordering::SeqCst);
                })
                .unwrap();
        }
    });
    println!("selftest: {n} runs, {} not repeatable, digest {:016x}", bad.load(Ordering::SeqCst), digest.load(Ordering::SeqCst));
    if bad.load(Ordering::SeqCst) > 0 {
        2
    } else {
        0
    }
}

/// Listed genuine defects that are still present in this tree.
fn known_findings(prop: &str) -> Vec<String> {
    let mut o = vec![];
    if prop == "C14" {
        if let Ok(Some(t)) = std::panic::catch_unwind(set_mailbox_ignored) {
            o.push(t);
        }
    }
    o
}

/// A warp route's owner sets another mailbox; the query reports it but transfers still go through the old one.
fn set_mailbox_ignored() -> Option<String> {
    let mut s = Sim::new(&Cfg { chains: vec![ChainCfg { hrp: "osmo".into(), domain: 1 }], ..Default::default() });
    s.no_oracle = true;
    let mut bad = vec![];
    let steps = json!([
        {"k": "inst", "from": "u:own", "to": "mailbox mb", "msg": {"hrp": "osmo", "owner": "@u:own", "domain": 1}},
        {"k": "inst", "from": "u:own", "to": "mailbox mb2", "msg": {"hrp": "osmo", "owner": "@u:own", "domain": 1}},
        {"k": "inst", "from": "u:own", "to": "puppet hp", "msg": {}},
        {"k": "tx", "from": "u:own", "to": "mb", "msg": {"set_default_hook": {"hook": "@hp"}}},
        {"k": "tx", "from": "u:own", "to": "mb", "msg": {"set_required_hook": {"hook": "@hp"}}},
        {"k": "tx", "from": "u:own", "to": "mb2", "msg": {"set_default_hook": {"hook": "@hp"}}},
        {"k": "tx", "from": "u:own", "to": "mb2", "msg": {"set_required_hook": {"hook": "@hp"}}},
        {"k": "inst", "from": "u:own", "to": "wnative w", "msg": {"token": {"collateral": {"denom": "ucol"}}, "hrp": "osmo", "owner": "@u:own", "mailbox": "@mb"}},
        {"k": "tx", "from": "u:own", "to": "w", "msg": {"router": {"set_route": {"set": {"domain": 2, "route": "#u:bob"}}}}},
        {"k": "tx", "from": "u:own", "to": "w", "msg": {"connection": {"set_mailbox": {"mailbox": "@mb2"}}}},
        {"k": "mint", "to": "u:alice", "funds": [["5", "ucol"]]},
        {"k": "tx", "from": "u:alice", "to": "w", "msg": {"transfer_remote": {"dest_domain": 2, "recipient": "#u:bob", "amount": "5"}}, "funds": [["5", "ucol"]]}
    ]);
    for x in steps.as_array().unwrap() {
        let st: Step = serde_json::from_value(x.clone()).unwrap();
        s.exec(&st);
        if st.k != "mint" && !s.last.as_ref().map(|n| n.ok).unwrap_or(false) {
            bad.push(st.to.clone());
        }
    }
    let w = s.addr(0, "w");
    let told = s.chains[0].query(&w, &json!({"connection": {"get_mailbox": {}}})).ok()?["mailbox"].as_str()?.to_string();
    let n = |s: &Sim, m: &str| s.chains[0].query(&s.addr(0, m), &json!({"mailbox": {"nonce": {}}})).ok().and_then(|v| v["nonce"].as_u64());
    if bad.is_empty() && told == s.addr(0, "mb2") && n(&s, "mb") == Some(1) && n(&s, "mb2") == Some(0) {
        return Some("warp connection.set_mailbox is accepted and reported by get_mailbox, but the route keeps using the mailbox it was instantiated with".into());
    }
    None
}

pub fn main(a: &[String]) -> i32 {
    let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    match a.as_slice() {
        ["check", p, t] => check(p, t),
        ["replay", f] => replay(f),
        ["selftest", n] => selftest(n.parse().unwrap_or(100)),
        ["hunt", p, n] => hunt(p, 0, n.parse().unwrap_or(100)),
        ["hunt", p, n, f] => hunt(p, f.parse().unwrap_or(0), n.parse().unwrap_or(100)),
        ["seed", p, i] => {
            let mut g = Gen::new(i.parse().unwrap_or(0), p, Some(p), false);
            g.run();
            println!("{} steps, {:?}", g.steps.len(), g.sim.m.viols);
            0
        }
        ["one", p, i] => one(p, i.parse().unwrap_or(0)),
        _ => {
            eprintln!("usage: hplsim check ID quick|thorough | replay FILE | selftest N | hunt ID N [FROM] | one ID RUN");
            2
        }
    }
}
