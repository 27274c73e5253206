//! Runs cases, each in a process forked from the same image, compares, minimises,
//! replays and reports.  The coordinator stays single-threaded so that every fork
//! starts from the same state.
use crate::core::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};

/// A run to make: its plan is derived from the seed only in the child, so a long batch costs no memory here.
#[derive(Clone)]
pub enum Src {
    Gen { world: String, seed: u64, focus: String, thorough: bool },
    Fixed(Case),
}
#[derive(Clone)]
pub struct Job {
    pub src: Src,
    /// the property a crash of the run is charged to
    pub focus: String,
}
impl Job {
    pub fn fixed(c: Case, focus: &str) -> Self {
        Job { src: Src::Fixed(c), focus: focus.into() }
    }
    pub fn case(&self, worlds: &[Box<dyn World>]) -> Case {
        match &self.src {
            Src::Fixed(c) => c.clone(),
            Src::Gen { world, seed, focus, thorough } => worlds.iter().find(|w| w.name() == world).expect("world").generate(*seed, focus, *thorough),
        }
    }
    pub fn seed(&self) -> u64 {
        match &self.src {
            Src::Fixed(c) => c.seed,
            Src::Gen { seed, .. } => *seed,
        }
    }
}

fn scratch() -> PathBuf {
    let p = PathBuf::from(format!("/tmp/snapsim.{}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    p
}
pub fn cleanup() {
    let p = PathBuf::from(format!("/tmp/snapsim.{}", std::process::id()));
    let _ = std::fs::remove_dir_all(p);
}

struct Running {
    pid: i32,
    idx: usize,
    dir: PathBuf,
    since: u64,
}

fn child(worlds: &[Box<dyn World>], job: &Job, dir: &Path) -> ! {
    unsafe {
        libc::setpgid(0, 0);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    if std::env::var_os("SNAPSIM_VERBOSE").is_none() {
        let err = std::fs::File::create(dir.join("stderr")).unwrap();
        use std::os::fd::AsRawFd;
        unsafe {
            libc::dup2(err.as_raw_fd(), 2);
            libc::dup2(err.as_raw_fd(), 1);
        }
    }
    std::env::set_var("TMPDIR", dir);
    std::env::set_current_dir(dir).unwrap();
    let case = job.case(worlds);
    let w = worlds.iter().find(|w| w.name() == case.world).expect("world");
    crate::sys::start(case.seed);
    // A thread of its own: its hash seeds are drawn from the seeded entropy just started,
    // not inherited from whatever the coordinator did before the fork.
    let out = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || {
                let mut sim = Sim::new(case.seed);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    w.run(&case, &mut sim);
                }));
                if let Err(e) = r {
                    let m = panic_text(&*e);
                    // the system under test fell over somewhere the world did not expect it to
                    let at = PANIC_AT.lock().map(|x| x.clone()).unwrap_or_default();
                    sim.violate(&job.focus, "panic", format!("{m} ({at})"));
                }
                sim.finish()
            })
            .unwrap()
            .join()
            .unwrap_or_default()
    });
    let tmp = dir.join("out.tmp");
    let mut f = std::fs::File::create(&tmp).unwrap();
    f.write_all(&serde_json::to_vec(&out).unwrap()).unwrap();
    drop(f);
    std::fs::rename(&tmp, dir.join("out.json")).unwrap();
    unsafe { libc::_exit(0) }
}

static PANIC_AT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// Where the last panic came from.
pub fn last_panic_at() -> String {
    PANIC_AT.lock().map(|x| x.clone()).unwrap_or_default()
}
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if let (Some(l), Ok(mut g)) = (i.location(), PANIC_AT.lock()) {
            let f = l.file();
            *g = format!("{}:{}", f.rsplit("snapchain/src/").next().unwrap_or(f), l.line());
        }
        old(i)
    }));
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run `jobs`, at most `par` at a time; `stop` sees each result in completion order and may end the batch.
pub fn run_jobs(
    worlds: &[Box<dyn World>],
    jobs: &[Job],
    par: usize,
    case_secs: u64,
    mut on: impl FnMut(usize, Outcome) -> bool,
) {
    let base = scratch();
    let mut next = 0;
    let mut live: Vec<Running> = vec![];
    let mut stop = false;
    loop {
        while !stop && live.len() < par && next < jobs.len() {
            static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
            // the same path length for every case: paths reach the trace
            let dir = base.join(format!("{:08}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
            std::fs::create_dir_all(&dir).unwrap();
            let _ = std::io::stdout().flush();
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                child(worlds, &jobs[next], &dir);
            }
            assert!(pid > 0, "fork failed");
            live.push(Running { pid, idx: next, dir, since: crate::sys::real_ms() });
            next += 1;
        }
        if live.is_empty() {
            return;
        }
        let mut done = vec![];
        for (i, r) in live.iter().enumerate() {
            let mut st = 0;
            let w = unsafe { libc::waitpid(r.pid, &mut st, libc::WNOHANG) };
            if w == r.pid {
                done.push((i, st, false));
            } else if crate::sys::real_ms() - r.since > case_secs * 1000 {
                unsafe {
                    libc::kill(r.pid, libc::SIGKILL);
                    libc::waitpid(r.pid, &mut st, 0);
                }
                done.push((i, st, true));
            }
        }
        if done.is_empty() {
            unsafe { libc::usleep(2000) };
            continue;
        }
        for (i, st, hung) in done.into_iter().rev() {
            let r = live.remove(i);
            let out = match std::fs::read(r.dir.join("out.json")).ok().and_then(|b| serde_json::from_slice::<Outcome>(&b).ok()) {
                Some(o) => o,
                None => {
                    let err = std::fs::read_to_string(r.dir.join("stderr")).unwrap_or_default();
                    let tail: Vec<String> = err.lines().rev().take(12).map(String::from).collect();
                    let what = if hung { "hang" } else { "died" };
                    Outcome {
                        violations: vec![Violation {
                            property: jobs[r.idx].focus.clone(),
                            rule: what.into(),
                            detail: if hung {
                                format!("the run did not finish within {case_secs} s of real time")
                            } else {
                                format!("the process died (wait status {st:#x}): {}", tail.first().cloned().unwrap_or_default())
                            },
                        }],
                        tail: tail.into_iter().rev().collect(),
                        ..Default::default()
                    }
                }
            };
            let _ = std::fs::remove_dir_all(&r.dir);
            if on(r.idx, out) {
                stop = true;
            }
        }
        if stop {
            for r in live.drain(..) {
                unsafe {
                    libc::kill(r.pid, libc::SIGKILL);
                    let mut st = 0;
                    libc::waitpid(r.pid, &mut st, 0);
                }
                let _ = std::fs::remove_dir_all(&r.dir);
            }
            return;
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub rule: String,
    pub detail: String,
    pub trace_hash: String,
    pub original_steps: usize,
    pub case: Case,
    #[serde(default)]
    pub trace_tail: Vec<String>,
}

#[derive(Deserialize, Clone, Debug)]
pub struct Known {
    pub property: String,
    pub rule: String,
    /// Every one of these must occur in the violation's detail.
    pub detail_has: Vec<String>,
    pub what: String,
    #[serde(default)]
    pub fixed: Option<String>,
}

pub fn known(root: &Path) -> Vec<Known> {
    let p = root.join("known_findings.json");
    match std::fs::read(&p) {
        Ok(b) => {
            #[derive(Deserialize)]
            struct F {
                findings: Vec<Known>,
            }
            serde_json::from_slice::<F>(&b).expect("known_findings.json").findings.into_iter().filter(|k| k.fixed.is_none()).collect()
        }
        Err(_) => vec![],
    }
}
fn is_known(ks: &[Known], v: &Violation) -> bool {
    ks.iter().any(|k| k.property == v.property && k.rule == v.rule && k.detail_has.iter().all(|s| v.detail.contains(s)))
}

/// One kind of run a property's check is made of.
#[derive(Clone)]
pub struct Batch {
    pub world: &'static str,
    pub focus: &'static str,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Spec {
    pub id: &'static str,
    pub batches: Vec<Batch>,
}

fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b);
    r.u64() >> 16
}

fn hit<'a>(o: &'a Outcome, prop: &str, ks: &[Known]) -> Option<&'a Violation> {
    o.violations.iter().find(|v| v.property == prop && !is_known(ks, v))
}

pub fn minimise(worlds: &[Box<dyn World>], case: &Case, v: &Violation, par: usize, case_secs: u64, budget_ms: u64) -> Case {
    let t0 = crate::sys::real_ms();
    let mut best = case.clone();
    let mut chunk = (best.plan.len() + 1) / 2;
    while chunk >= 1 && !best.plan.is_empty() {
        let mut progressed = false;
        let mut at = 0;
        while at < best.plan.len() {
            if crate::sys::real_ms() - t0 > budget_ms {
                return best;
            }
            // `par` candidates side by side; the first that still fails is taken
            let mut cands = vec![];
            let mut p = at;
            while cands.len() < par && p < best.plan.len() {
                let mut c = best.clone();
                let end = (p + chunk).min(c.plan.len());
                c.plan.drain(p..end);
                cands.push(c);
                p = end;
            }
            let jobs: Vec<Job> = cands.iter().map(|c| Job::fixed(c.clone(), &v.property)).collect();
            let mut ok: BTreeSet<usize> = BTreeSet::new();
            run_jobs(worlds, &jobs, par, case_secs, |i, o| {
                if o.violations.iter().any(|x| x.property == v.property && x.rule == v.rule) {
                    ok.insert(i);
                }
                false
            });
            match ok.iter().next() {
                Some(i) => {
                    best = cands[*i].clone();
                    at += i * chunk;
                    progressed = true;
                }
                None => at = p,
            }
        }
        if chunk == 1 && !progressed {
            break;
        }
        if !progressed || chunk > 1 {
            chunk = if chunk == 1 { 1 } else { (chunk + 1) / 2 };
            if chunk == 1 && !progressed && best.plan.len() <= 1 {
                break;
            }
        }
    }
    best
}

pub struct Args {
    pub root: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub par: usize,
    pub scale: f64,
}

pub fn check(worlds: &[Box<dyn World>], spec: &Spec, a: &Args) -> i32 {
    let t0 = crate::sys::real_ms();
    let ks = known(&a.root);
    println!("property={} seed={} tier={}", spec.id, a.seed, if a.thorough { "thorough" } else { "quick" });
    for k in ks.iter().filter(|k| k.property == spec.id) {
        println!("KNOWN-FINDING: property={} {}", k.property, k.what);
    }
    let mut jobs = vec![];
    for (bi, b) in spec.batches.iter().enumerate() {
        let n = ((if a.thorough { b.thorough } else { b.quick }) as f64 * a.scale).ceil() as u64;
        for i in 0..n {
            let seed = mix(mix(a.seed, 0xA11CE + bi as u64), i);
            jobs.push((
                i,
                Job {
                    src: Src::Gen { world: b.world.into(), seed, focus: b.focus.into(), thorough: a.thorough },
                    focus: spec.id.to_string(),
                },
            ));
        }
    }
    jobs.sort_by_key(|j| j.0);
    let mut jobs: Vec<Job> = jobs.into_iter().map(|j| j.1).collect();
    // The first few run twice: the same seed must give the same trace.
    let twice = jobs.len().min(4);
    for i in 0..twice {
        jobs.push(jobs[i].clone());
    }
    let n_cases = jobs.len() - twice;
    let case_secs = if a.thorough { 180 } else { 90 };
    let budget = if a.thorough { 3 * 3600_000 } else { 420_000 };
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let (mut states, mut sim_ms, mut events, mut runs) = (0u64, 0u64, 0u64, 0u64);
    let mut traces: BTreeSet<String> = BTreeSet::new();
    let mut hashes: BTreeMap<usize, String> = BTreeMap::new();
    let mut found: Option<(usize, Violation)> = None;
    let mut known_hits = 0u64;
    let mut over = false;
    run_jobs(worlds, &jobs, a.par, case_secs, |i, o| {
        if i < n_cases {
            runs += 1;
            for (k, v) in &o.counts {
                *counts.entry(k.clone()).or_insert(0) += v;
            }
            states += o.states;
            sim_ms += o.sim_ms;
            events += o.events;
            if o.counts.get(&format!("oracle.{}", spec.id)).copied().unwrap_or(0) > 0 {
                traces.insert(o.trace_hash.clone());
            }
        }
        hashes.insert(i, o.trace_hash.clone());
        known_hits += o.violations.iter().filter(|v| v.property == spec.id && is_known(&ks, v)).count() as u64;
        if let Some(v) = hit(&o, spec.id, &ks) {
            found = Some((i, v.clone()));
            return true;
        }
        if crate::sys::real_ms() - t0 > budget {
            over = true;
            return true;
        }
        false
    });
    let mut diverged = 0;
    for i in 0..twice {
        if let (Some(x), Some(y)) = (hashes.get(&i), hashes.get(&(n_cases + i))) {
            if x != y {
                diverged += 1;
                println!("note: seed {} gave two traces ({x} and {y})", jobs[i].seed());
            }
        }
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((i, v)) = found {
        violations = 1;
        let case = jobs[i].case(worlds);
        println!("violation of {} ({}) at world {} seed {}: {}", v.property, v.rule, case.world, case.seed, v.detail);
        let min_budget = if a.thorough { 300_000 } else { 60_000 };
        let m = if v.rule == "hang" { case.clone() } else { minimise(worlds, &case, &v, a.par, case_secs, min_budget) };
        let mut o = None;
        run_jobs(worlds, &[Job::fixed(m.clone(), spec.id)], 1, case_secs, |_, x| {
            o = Some(x);
            true
        });
        let o = o.unwrap_or_default();
        let (m, o) = if o.violations.iter().any(|x| x.property == v.property && x.rule == v.rule) { (m, o) } else { (case.clone(), o) };
        let v = o.violations.iter().find(|x| x.property == v.property && x.rule == v.rule).cloned().unwrap_or(v);
        let dir = a.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.json", spec.id, m.world, m.seed));
        let rp = Replay {
            property: v.property.clone(),
            rule: v.rule.clone(),
            detail: v.detail.clone(),
            trace_hash: o.trace_hash.clone(),
            original_steps: case.plan.len(),
            case: m.clone(),
            trace_tail: o.tail.clone(),
        };
        std::fs::write(&path, serde_json::to_vec_pretty(&rp).unwrap()).unwrap();
        println!("minimised plan: {} of {} steps", m.plan.len(), case.plan.len());
        for s in &m.plan {
            println!("  {s}");
        }
        for t in o.tail.iter().rev().take(15).rev() {
            println!("  | {t}");
        }
        println!("{}: {}", v.rule, v.detail);
        println!("VIOLATION property={} replay={}", spec.id, path.display());
        code = 1;
    }
    let wall = (crate::sys::real_ms() - t0) as f64 / 1000.0;
    if over {
        println!("note: stopped at the time limit after {runs} of {n_cases} runs");
    }
    println!(
        "{}: {} runs, {} distinct traces, {} states, {:.1} simulated minutes, {} events, {:.1} s ({:.0} runs/h), {} divergent replays, {} known-finding hits",
        spec.id, runs, traces.len(), states, sim_ms as f64 / 60000.0, events, wall, runs as f64 / wall.max(0.001) * 3600.0, diverged, known_hits
    );
    let faults: BTreeMap<&String, &u64> = counts.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let probes: BTreeMap<&String, &u64> = counts.iter().filter(|(k, _)| k.starts_with("probe.") || k.starts_with("op.")).collect();
    let orc = counts.get(&format!("oracle.{}", spec.id)).copied().unwrap_or(0);
    println!("  oracle evaluations: {orc}; faults: {faults:?}; reach: {probes:?}");
    let ev = serde_json::json!({
        "property": spec.id,
        "tier": if a.thorough { "thorough" } else { "quick" },
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": traces.len() as u64,
            "rule": "evaluations: simulated runs, one seed each. distinct_nontrivial: runs in which this property's oracle was evaluated at least once against the running system and whose full event trace (hash) repeats no other run's.",
            "oracle_evaluations": orc,
            "distinct_states": states,
            "distinct_states_measure": "digest of what the real system stored or answered, counted within each run and summed",
            "samples": jobs.iter().take(3).map(|j| j.case(worlds)).map(|j| serde_json::json!({"world": j.world, "seed": j.seed, "knobs": j.knobs, "plan_steps": j.plan.len()})).collect::<Vec<_>>(),
            "simulated_runs": runs,
            "runs_per_hour": (runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "simulated_seconds": sim_ms / 1000,
            "distinct_interleavings": traces.len(),
            "distinct_interleavings_measure": "hash of the full event trace of a run",
            "trace_events": events,
            "faults_injected": faults,
            "reach_probes": probes,
            "replayed_twice": twice,
            "replay_divergences": diverged,
            "known_finding_hits": known_hits,
            "real_components": "snapchain's own sources, compiled unchanged from /repo",
            "stub_components": "rocksdb (in-memory, fault injecting), malachite consensus engine (a Tendermint with the same interface), libp2p transport (simulated network), wall clock, entropy, blocking thread pool"
        },
        "wall_s": wall,
        "violations": violations
    });
    let ed = a.root.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", spec.id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    code
}

pub fn replay(worlds: &[Box<dyn World>], path: &Path) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let mut out = None;
    run_jobs(worlds, &[Job::fixed(r.case.clone(), &r.property)], 1, 300, |_, o| {
        out = Some(o);
        true
    });
    let o = out.unwrap();
    for t in &o.tail {
        println!("  | {t}");
    }
    match o.violations.iter().find(|v| v.property == r.property && v.rule == r.rule) {
        Some(v) => {
            println!("{}: {}", v.rule, v.detail);
            println!("trace {} (recorded {}): {}", o.trace_hash, r.trace_hash, if o.trace_hash == r.trace_hash { "identical" } else { "DIFFERENT" });
            println!("VIOLATION property={} replay={}", r.property, path.display());
            1
        }
        None => {
            println!("not reproduced; violations seen: {:?}", o.violations);
            0
        }
    }
}

/// Many seeds of one world, every violation of every property listed: for developing, not for checks.
pub fn survey(worlds: &[Box<dyn World>], world: &str, focus: &str, seed: u64, n: u64, par: usize, thorough: bool) -> i32 {
    let t0 = crate::sys::real_ms();
    let mut jobs = vec![];
    for i in 0..n {
        for _ in 0..2 {
            jobs.push(Job { src: Src::Gen { world: world.into(), seed: mix(seed, i), focus: focus.into(), thorough }, focus: focus.into() });
        }
    }
    let mut seen: BTreeMap<(String, String), (u64, u64, String)> = BTreeMap::new();
    let mut hashes: BTreeMap<usize, String> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    run_jobs(worlds, &jobs, par, 120, |i, o| {
        hashes.insert(i, o.trace_hash.clone());
        for v in &o.violations {
            let e = seen.entry((v.property.clone(), v.rule.clone())).or_insert((0, jobs[i].seed(), v.detail.clone()));
            e.0 += 1;
        }
        for (k, v) in &o.counts {
            *counts.entry(k.clone()).or_insert(0) += v;
        }
        false
    });
    let mut div = 0;
    for i in 0..n as usize {
        if hashes.get(&(2 * i)) != hashes.get(&(2 * i + 1)) {
            div += 1;
            if div < 4 {
                println!("seed {} diverges", jobs[2 * i].seed());
            }
        }
    }
    println!("{counts:#?}");
    for ((p, r), (c, s, d)) in &seen {
        println!("{p} {r}: {c} of {} runs, e.g. seed {s}: {}", 2 * n, d.chars().take(1500).collect::<String>());
    }
    println!("{} runs in {} ms, {div} divergent seeds", 2 * n, crate::sys::real_ms() - t0);
    0
}
