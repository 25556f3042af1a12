//! The driver: spreads the generated cases over threads, collects what the monitors saw, writes the evidence.
use crate::core::*;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type Work = fn(&mut Case);

pub struct Spec {
    pub id: &'static str,
    /// (weight, name, workload); the weights share out the case numbers
    pub work: Vec<(u32, &'static str, Work)>,
    /// workloads run exactly once each, before the generated cases
    pub scripted: Vec<(&'static str, Work)>,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

fn run_case(s: &Spec, seed: u64, idx: u64) -> Case {
    let ns = s.scripted.len() as u64;
    let (name, f) = if idx < ns {
        s.scripted[idx as usize]
    } else {
        let total: u64 = s.work.iter().map(|w| w.0 as u64).sum();
        let mut r = (idx - ns) % total;
        let mut pick = (s.work[0].1, s.work[0].2);
        for (w, n, f) in &s.work {
            if r < *w as u64 {
                pick = (n, *f);
                break;
            }
            r -= *w as u64;
        }
        pick
    };
    let mut c = Case::new(s.id, seed, idx, name);
    c.op(format!("workload {name}"));
    c.count(&format!("workload:{name}"));
    LIFE.with(|x| *x.borrow_mut() = Life { on: s.id == "P30", salt: hash_of(&(seed, idx)), ..Default::default() });
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    let life = LIFE.with(|x| std::mem::take(&mut *x.borrow_mut()));
    c.evals += life.seen.values().sum::<u64>();
    c.sigs.extend(life.sigs);
    if c.idx % 16 == 0 {
        c.samples.extend(life.seen.keys().take(1).cloned());
    }
    for (k, n) in life.seen {
        *c.counters.entry(k).or_insert(0) += n;
    }
    if let Some(m) = life.viol {
        c.fail("P30", m);
    }
    if let Err(e) = r {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        let id = s.id.to_string();
        c.fail(&id, format!("the execution could not be driven to its end: {m}"));
    }
    c
}

pub fn run(all: Vec<Spec>, contracts: bool) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = get("--prop").expect("--prop");
    let tier = get("--tier").unwrap_or("quick".into());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = get("--out").unwrap_or("/verif".into());
    let dir = get("--wasm")
        .unwrap_or("/repo/target/wasm32-unknown-unknown/release".into());
    let only: Option<u64> = get("--case").and_then(|s| s.parse().ok());
    let known_file = get("--known").unwrap_or(format!("{out}/known_findings.json"));
    if contracts {
        if let Err(e) = load_wasms(&dir) {
            eprintln!("cannot load the contracts: {e}");
            std::process::exit(2);
        }
    }
    let listed: Vec<(String, String)> = match std::fs::read_to_string(&known_file) {
        Err(_) => vec![],
        Ok(t) => {
            let v: serde_json::Value = serde_json::from_str(&t).expect("known findings file");
            v["findings"]
                .as_array()
                .expect("findings")
                .iter()
                .map(|f| {
                    (
                        f["property"].as_str().unwrap().to_string(),
                        f["key"].as_str().unwrap().to_string(),
                    )
                })
                .collect()
        }
    };
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("VH_TRACE").is_some() {
            eprintln!("{i}");
        }
    }));
    let Some(spec) = all.iter().find(|s| s.id == prop) else {
        eprintln!("no check for {prop}");
        std::process::exit(2);
    };
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let mut n = (if thorough { spec.thorough } else { spec.quick }) + spec.scripted.len() as u64;
    if let Some(k) = get("--cases").and_then(|s| s.parse().ok()) {
        n = k;
    }
    let cap = get("--cap").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000.0 } else { 240.0 });
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    struct Agg {
        cases: u64,
        evals: u64,
        steps: u64,
        sigs: HashSet<u64>,
        samples: Vec<String>,
        counters: BTreeMap<String, u64>,
        known: BTreeMap<String, String>,
        viol: BTreeMap<u64, (String, Vec<String>)>,
    }
    let agg = Mutex::new(Agg {
        cases: 0,
        evals: 0,
        steps: 0,
        sigs: HashSet::new(),
        samples: vec![],
        counters: BTreeMap::new(),
        known: BTreeMap::new(),
        viol: BTreeMap::new(),
    });
    let threads = if only.is_some() { 1 } else { std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(16) };
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let i = match only {
                        Some(k) => {
                            if next.fetch_add(1, Ordering::SeqCst) > 0 {
                                break;
                            }
                            k
                        }
                        None => {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || stop.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > cap {
                                break;
                            }
                            i
                        }
                    };
                    let mut c = run_case(spec, seed, i);
                    for (k, what) in c.known.clone() {
                        if !listed.iter().any(|(p, l)| p == spec.id && *l == k) {
                            c.fail(spec.id, format!("{what} (unlisted finding {k})"));
                        }
                    }
                    let mut g = agg.lock().unwrap();
                    g.cases += 1;
                    g.evals += c.evals;
                    g.steps += c.trace.len() as u64;
                    g.sigs.extend(c.sigs.iter());
                    if g.samples.len() < 6 {
                        let left = 6 - g.samples.len();
                        g.samples.extend(c.samples.iter().take(left).cloned());
                    }
                    for (k, v) in &c.counters {
                        *g.counters.entry(k.clone()).or_insert(0) += v;
                    }
                    for (k, v) in &c.known {
                        g.known.entry(k.clone()).or_insert(v.clone());
                    }
                    if let Some(v) = c.viol {
                        g.viol.insert(i, (v, c.trace));
                        stop.store(true, Ordering::SeqCst);
                    }
                })
                .unwrap();
        }
    });
    let g = agg.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let mut rc = 0;
    for (k, w) in &g.known {
        if listed.iter().any(|(p, l)| p == spec.id && l == k) {
            println!("KNOWN-FINDING: property={} {k}: {w}", spec.id);
        }
    }
    if let Some((i, (msg, trace))) = g.viol.iter().next() {
        rc = 1;
        let rdir = format!("{out}/replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{rdir}/{}-{}-{}.json", spec.id, seed, i);
        let j = serde_json::json!({
            "property": spec.id, "seed": seed, "case": i, "tier": tier,
            "message": msg, "trace": trace,
            "rerun": format!("VERIF_SEED={seed} ./check.sh {} --case {i}", spec.id),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        println!("{}: {msg}", spec.id);
        println!("VIOLATION property={} replay={path}", spec.id);
    }
    if only.is_none() {
        let ev = serde_json::json!({
            "property": spec.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": g.evals,
                "distinct_nontrivial": g.sigs.len(),
                "rule": spec.rule,
                "samples": g.samples,
                "cases": g.cases,
                "operations_executed": g.steps,
                "observed": g.counters,
            },
            "assumptions": [
                "the Soroban test host executes the release wasm like the network does",
                "amounts, times and configurations within the ranges DESIGN.md gives"
            ],
            "wall_s": (wall * 10.0).round() / 10.0,
            "violations": g.viol.len(),
        });
        let _ = std::fs::create_dir_all(format!("{out}/evidence"));
        if let Err(e) = std::fs::write(
            format!("{out}/evidence/{}.json", spec.id),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        ) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(2);
        }
        if g.evals == 0 && rc == 0 {
            eprintln!("the monitor of {} observed nothing", spec.id);
            std::process::exit(2);
        }
    }
    eprintln!(
        "{} {} seed={} cases={} evaluations={} distinct={} known={} violations={} {:.1}s",
        spec.id, tier, seed, g.cases, g.evals, g.sigs.len(), g.known.len(), g.viol.len(), wall
    );
    std::process::exit(rc);
}
