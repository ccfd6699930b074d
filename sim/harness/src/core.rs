//! The parts every simulation shares: plans, reports, the seed sweep,
//! minimisation, replay, evidence.
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol { pub kind: String, pub msg: String }

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub seed: u64,
    pub viol: Option<Viol>,
    pub hash: u64,
    pub steps: u64,
    pub ios: u64,
    pub sim_ns: u64,
    pub sched_choices: u64,
    pub epochs: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sigs: Vec<u64>,
    /// whether a fault or a nontrivial interleaving actually happened
    pub nontrivial: bool,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub trace: Vec<String>,
}

impl Report {
    pub fn probe(&mut self, k: &str) { self.probe_n(k, 1) }
    pub fn probe_n(&mut self, k: &str, n: u64) { *self.probes.entry(k.to_owned()).or_default() += n; }
    pub fn fail(&mut self, kind: &str, msg: impl Into<String>) {
        if self.viol.is_none() {
            self.viol = Some(Viol { kind: kind.to_owned(), msg: msg.into() });
        }
    }
    pub fn failed(&self) -> bool { self.viol.is_some() }
    pub fn absorb(&mut self, r: &simrt::RunResult) {
        self.epochs += 1;
        self.steps += r.stats.steps;
        self.ios += r.stats.ios;
        self.sim_ns += r.stats.sim_ns;
        self.sched_choices += r.stats.sched_choices;
        self.hash = (self.hash ^ r.stats.trace_hash).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(17);
        for (k, v) in &r.stats.faults { *self.faults.entry(k.clone()).or_default() += v; }
        self.trace.extend(r.trace.iter().cloned());
    }
    /// Turn abnormal endings into violations
    pub fn judge(&mut self, r: &simrt::RunResult, what: &str) {
        use simrt::Outcome::*;
        match &r.outcome {
            Done | Crashed => (),
            Panic { msg, loc, .. } => {
                let m: String = msg.chars().take(300).collect();
                self.fail("panic", format!("{what}: panic at {}: {m}", short(loc)))
            }
            Deadlock => self.fail("hang", format!("{what}: nothing can ever run again, but operations are unfinished")),
            TimeLimit => self.fail("hang", format!("{what}: operations unfinished after {} simulated seconds", r.stats.sim_ns / 1_000_000_000)),
            StepLimit => self.fail("hang", format!("{what}: operations unfinished after {} scheduling steps", r.stats.steps)),
        }
        if let Some(b) = r.bad_io.first() {
            self.fail("bad_io", format!("{what}: {b}"));
        }
    }
}

pub fn short(loc: &str) -> String {
    match loc.find("/bfffs") { Some(i) => loc[i + 1..].to_string(), None => loc.to_string() }
}

pub struct Ctx { pub scratch: PathBuf, pub trace: bool, pub rep: Report }

pub type GenFn = fn(seed: u64, tier: Tier) -> Value;
pub type RunFn = fn(plan: &Value, ctx: &mut Ctx);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Check {
    pub prop: &'static str,
    pub gen: GenFn,
    pub run: RunFn,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
    /// Probes that must have fired for the run to mean anything
    pub need: &'static [&'static str],
}

/// Run one plan in a forked child, so that every run starts from the same
/// process state (hasher keys, the futures crate's global counters, lazily
/// initialised statics) and so that an abort is survivable.
pub fn run_plan(check: &'static Check, plan: &Value, scratch: &Path, trace: bool) -> Report {
    let dir = scratch.join("w");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut fds = [0i32; 2];
    assert_eq!(0, unsafe { libc::pipe(fds.as_mut_ptr()) });
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe { libc::close(fds[0]); }
        let rep = run_plan_here(check, plan, &dir, trace);
        let s = serde_json::to_vec(&rep).unwrap();
        let mut o = 0;
        while o < s.len() {
            let n = unsafe { libc::write(fds[1], s[o..].as_ptr().cast(), s.len() - o) };
            if n <= 0 { break; }
            o += n as usize;
        }
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fds[1]); }
    let mut v = Vec::new();
    {
        use std::os::fd::FromRawFd;
        let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
        use std::io::Read;
        let _ = f.read_to_end(&mut v);
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0); }
    let _ = std::fs::remove_dir_all(&dir);
    match serde_json::from_slice::<Report>(&v) {
        Ok(r) if st == 0 => r,
        _ => {
            let mut r = Report { seed: plan["seed"].as_u64().unwrap_or(0), ..Default::default() };
            r.fail("abort", format!("the process died (wait status {st:#x})"));
            r
        }
    }
}

fn run_plan_here(check: &'static Check, plan: &Value, dir: &Path, trace: bool) -> Report {
    let plan = plan.clone();
    let dir2 = dir.to_owned();
    let th = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        simrt::install_panic_hook();
        let mut ctx = Ctx { scratch: dir2, trace, rep: Report::default() };
        ctx.rep.seed = plan["seed"].as_u64().unwrap_or(0);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            (check.run)(&plan, &mut ctx);
        }));
        if r.is_err() {
            let (m, l) = simrt::take_panic().unwrap_or_default();
            ctx.rep.fail("harness_panic", format!("harness panic at {l}: {m}"));
        }
        let rep = std::mem::take(&mut ctx.rep);
        std::mem::forget(ctx);
        rep
    }).unwrap();
    th.join().unwrap_or_else(|_| {
        let mut r = Report::default();
        r.fail("harness_panic", "thread died");
        r
    })
}

pub fn mk_scratch() -> PathBuf {
    if let Some(d) = std::env::var_os("DST_SCRATCH") {
        let p = PathBuf::from(d).join(format!("p{}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        return p;
    }
    let base = if Path::new("/dev/shm").is_dir() && std::fs::metadata("/dev/shm").map(|m| !m.permissions().readonly()).unwrap_or(false)
        { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    for b in [base, std::env::temp_dir()] {
        let p = b.join(format!("dst-{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() { return p; }
    }
    panic!("no scratch space");
}

/// The directory under which all the workers' scratch space lives
pub fn top_scratch() -> PathBuf {
    static D: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    D.get_or_init(mk_scratch).clone()
}

pub struct ScratchGuard(pub PathBuf);
impl Drop for ScratchGuard { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

// ------------------------------------------------------------------ worker

/// Reads plans, one JSON document per line, on stdin; answers with reports.
pub fn worker(check: &'static Check) {
    let g = ScratchGuard(mk_scratch());
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.trim().is_empty() { continue; }
        let v: Value = serde_json::from_str(&line).unwrap();
        let trace = v["trace"].as_bool().unwrap_or(false);
        let plan = if v["plan"].is_null() {
            let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            (check.gen)(v["seed"].as_u64().unwrap(), tier)
        } else { v["plan"].clone() };
        let rep = run_plan(check, &plan, &g.0, trace);
        let mut o = out.lock();
        serde_json::to_writer(&mut o, &rep).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}

enum Msg { Rep(usize, Report), Dead(usize) }

struct Worker {
    child: std::process::Child,
    stdin: Option<std::process::ChildStdin>,
    job: Option<(Value, Instant)>,
    done: u64,
}

fn spawn_worker(prop: &str, idx: usize, gen: u64, tx: std::sync::mpsc::Sender<(u64, Msg)>) -> Worker {
    let exe = std::env::current_exe().unwrap();
    use std::os::unix::process::CommandExt;
    let mut child = Command::new(exe).arg("worker").arg(prop).process_group(0)
        .env("DST_SCRATCH", top_scratch())
        .stdin(Stdio::piped()).stdout(Stdio::piped())
        .stderr(if std::env::var_os("DST_PANIC").is_some() { Stdio::inherit() } else { Stdio::null() })
        .spawn().expect("cannot start a worker");
    let stdin = child.stdin.take();
    let so = child.stdout.take().unwrap();
    std::thread::spawn(move || {
        let mut rd = BufReader::new(so);
        let mut line = String::new();
        loop {
            line.clear();
            match rd.read_line(&mut line) {
                Ok(n) if n > 0 => match serde_json::from_str::<Report>(&line) {
                    Ok(r) => { let _ = tx.send((gen, Msg::Rep(idx, r))); }
                    Err(_) => { let _ = tx.send((gen, Msg::Dead(idx))); return; }
                },
                _ => { let _ = tx.send((gen, Msg::Dead(idx))); return; }
            }
        }
    });
    Worker { child, stdin, job: None, done: 0 }
}

pub const SEED_WALL_LIMIT: Duration = Duration::from_secs(100);
const BATCH: u64 = 2000;

/// Run jobs on worker processes.  `next` supplies jobs, `done` receives the
/// results; it returns false to stop early.
pub fn pool_run(prop: &str, nworkers: usize,
    next: &mut dyn FnMut() -> Option<Value>, done: &mut dyn FnMut(Value, Report) -> bool)
{
    let (tx, rx) = std::sync::mpsc::channel();
    let mut gens: Vec<u64> = (0..nworkers as u64).collect();
    let mut nextgen = nworkers as u64;
    let mut ws: Vec<Worker> = (0..nworkers).map(|i| spawn_worker(prop, i, gens[i], tx.clone())).collect();
    let mut stop = false;
    let mut nomore = false;
    loop {
        for i in 0..nworkers {
            if ws[i].job.is_none() && !stop && !nomore {
                if ws[i].done >= BATCH {
                    ws[i].stdin = None;
                    let _ = ws[i].child.wait();
                    gens[i] = nextgen; nextgen += 1;
                    ws[i] = spawn_worker(prop, i, gens[i], tx.clone());
                }
                match next() {
                    Some(j) => {
                        let s = serde_json::to_string(&j).unwrap();
                        if let Some(si) = ws[i].stdin.as_mut() {
                            let _ = writeln!(si, "{s}");
                            let _ = si.flush();
                        }
                        ws[i].job = Some((j, Instant::now()));
                    }
                    None => nomore = true,
                }
            }
        }
        if ws.iter().all(|w| w.job.is_none()) { break; }
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok((g, Msg::Rep(i, r))) if gens[i] == g => {
                if let Some((j, _)) = ws[i].job.take() {
                    ws[i].done += 1;
                    if !done(j, r) { stop = true; }
                }
            }
            Ok((g, Msg::Dead(i))) if gens[i] == g => {
                let st = ws[i].child.wait();
                if let Some((j, _)) = ws[i].job.take() {
                    let mut r = Report::default();
                    r.seed = j["seed"].as_u64().unwrap_or(0);
                    r.fail("abort", format!("the process died: {st:?}"));
                    if !done(j, r) { stop = true; }
                }
                gens[i] = nextgen; nextgen += 1;
                if !stop { ws[i] = spawn_worker(prop, i, gens[i], tx.clone()); }
            }
            _ => {}
        }
        for i in 0..nworkers {
            if let Some((_, t)) = &ws[i].job {
                if t.elapsed() > SEED_WALL_LIMIT {
                    unsafe { libc::kill(-(ws[i].child.id() as i32), libc::SIGKILL); }
                    let _ = ws[i].child.wait();
                    let (j, _) = ws[i].job.take().unwrap();
                    let mut r = Report::default();
                    r.seed = j["seed"].as_u64().unwrap_or(0);
                    r.fail("livelock", "the code under test never returned to the scheduler".to_string());
                    if !done(j, r) { stop = true; }
                    gens[i] = nextgen; nextgen += 1;
                    if !stop { ws[i] = spawn_worker(prop, i, gens[i], tx.clone()); }
                }
            }
        }
    }
    for w in &mut ws { w.stdin = None; }
    for w in &mut ws { let _ = w.child.wait(); }
}

// ------------------------------------------------------------------ shrink

/// Candidate simplifications of a plan: every array found under a key in
/// SHRINK can lose chunks; some scalars can be simplified.
const SHRINK: &[&str] = &["ops", "faults", "epochs", "clients", "events", "kills", "rot"];
const SIMPLE: &[(&str, fn() -> Value)] = &[
    ("sched", || json!("fifo")), ("p_event", || json!(0.0)),
    ("p_eagain", || json!(0.0)), ("p_stall", || json!(0.0)),
];

fn arrays(v: &Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, usize)>) {
    match v {
        Value::Object(m) => for (k, x) in m {
            path.push(k.clone());
            if let Value::Array(a) = x {
                if SHRINK.contains(&k.as_str()) && !a.is_empty() { out.push((path.clone(), a.len())); }
            }
            arrays(x, path, out);
            path.pop();
        },
        Value::Array(a) => for (i, x) in a.iter().enumerate() {
            path.push(i.to_string());
            if let Value::Array(b) = x {
                // arrays of arrays (client op lists)
                if !b.is_empty() && path.len() >= 2 && SHRINK.contains(&path[path.len() - 2].as_str()) {
                    out.push((path.clone(), b.len()));
                }
            }
            arrays(x, path, out);
            path.pop();
        },
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Object(m) => m.get_mut(p)?,
            Value::Array(a) => a.get_mut(p.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(v)
}

fn size_of(v: &Value) -> usize { serde_json::to_string(v).unwrap().len() }

/// The same violation?  Panics are told apart by where they happen.
pub fn same_viol(a: &Viol, b: &Viol) -> bool {
    fn loc(m: &str) -> &str {
        match m.find("panic at ") {
            Some(i) => { let t = &m[i + 9..]; t.find(": ").map(|j| &t[..j]).unwrap_or(t) }
            None => "",
        }
    }
    a.kind == b.kind && (a.kind != "panic" || loc(&a.msg) == loc(&b.msg))
}

pub fn minimise(check: &'static Check, plan: &Value, viol: &Viol, budget: Duration) -> (Value, Viol, u64) {
    let t0 = Instant::now();
    let mut best = plan.clone();
    let mut bv = viol.clone();
    let mut tries = 0;
    // Evaluate candidates in batches on the workers; accept the first success
    // in candidate order, so that the outcome is deterministic.
    let mut try_batch = |cands: Vec<Value>| -> Option<(Value, Viol)> {
        let mut q: VecDeque<(usize, Value)> = cands.into_iter().enumerate().collect();
        let mut hits: BTreeMap<usize, (Value, Viol)> = BTreeMap::new();
        let want = viol.clone();
        pool_run(check.prop, 8, &mut || {
            q.pop_front().map(|(i, p)| json!({"plan": p, "i": i}))
        }, &mut |j, r| {
            tries += 1;
            if let Some(v) = r.viol {
                if same_viol(&v, &want) {
                    hits.insert(j["i"].as_u64().unwrap() as usize, (j["plan"].clone(), v));
                }
            }
            true
        });
        hits.into_iter().next().map(|(_, x)| x)
    };
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        // whole arrays by chunks
        let mut frac = 1usize;
        while frac <= 64 && t0.elapsed() < budget {
            let mut arrs = Vec::new();
            arrays(&best, &mut Vec::new(), &mut arrs);
            let mut cands = Vec::new();
            for (p, n) in &arrs {
                if *n < frac && frac > 1 { continue; }
                let chunk = n.div_ceil(frac);
                let mut i = 0;
                while i < *n {
                    let mut c = best.clone();
                    if let Some(Value::Array(a)) = at(&mut c, p) {
                        let e = (i + chunk).min(a.len());
                        a.drain(i..e);
                    }
                    cands.push(c);
                    i += chunk;
                }
            }
            cands.sort_by_key(size_of);
            cands.truncate(96);
            let mut any = false;
            // small batches, so an early success saves work
            for b in cands.chunks(16) {
                if t0.elapsed() >= budget { break; }
                if let Some((p, v)) = try_batch(b.to_vec()) {
                    best = p; bv = v; any = true; progress = true;
                    break;
                }
            }
            if !any { frac *= 2; }
        }
        // scalars
        for (k, f) in SIMPLE {
            if t0.elapsed() >= budget { break; }
            let mut c = best.clone();
            fn setall(v: &mut Value, k: &str, nv: &Value) -> bool {
                let mut ch = false;
                match v {
                    Value::Object(m) => {
                        if let Some(x) = m.get_mut(k) { if x != nv { *x = nv.clone(); ch = true; } }
                        for (_, x) in m.iter_mut() { ch |= setall(x, k, nv); }
                    }
                    Value::Array(a) => for x in a { ch |= setall(x, k, nv); },
                    _ => {}
                }
                ch
            }
            if setall(&mut c, k, &f()) {
                if let Some((p, v)) = try_batch(vec![c]) { best = p; bv = v; progress = true; }
            }
        }
    }
    (best, bv, tries)
}

// ------------------------------------------------------------------ known findings

#[derive(Clone, Debug, Deserialize)]
pub struct Known { pub property: String, pub kind: String, pub contains: String, pub what: String }

fn known(prop: &str) -> Vec<Known> {
    let p = verif_dir().join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json is not JSON");
    v["findings"].as_array().cloned().unwrap_or_default().into_iter()
        .map(|x| serde_json::from_value::<Known>(x).expect("bad known finding"))
        .filter(|k| k.property == prop).collect()
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("DST_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn mix(seed: u64, i: u64) -> u64 {
    // Seeds fit in 53 bits so that they survive any JSON reader
    let mut z = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(i.wrapping_mul(0xD1B5_4A32_D192_ED03)).wrapping_add(0x1234_5678);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    (z ^ (z >> 31)) >> 11
}

// ------------------------------------------------------------------ check

pub fn run_check(check: &'static Check, tier: Tier, seed: u64, nruns: Option<u64>, wall: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let n = nruns.unwrap_or(if tier == Tier::Quick { check.quick } else { check.thorough });
    let wall = Duration::from_secs(wall.unwrap_or(if tier == Tier::Quick { 240 } else { 3000 }));
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let kn = known(check.prop);
    let ncpu = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(1, 16);
    let mut agg = Report::default();
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut first: Vec<(u64, u64)> = Vec::new();
    let mut bad: Option<(u64, Viol)> = None;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut harness_err: Option<String> = None;
    let mut i = 0u64;
    let mut samples = Vec::new();
    pool_run(check.prop, ncpu, &mut || {
        if i >= n || t0.elapsed() > wall { return None; }
        let s = mix(seed, i);
        i += 1;
        Some(json!({"seed": s, "tier": tname}))
    }, &mut |j, r| {
        let s = j["seed"].as_u64().unwrap();
        evals += 1;
        if r.nontrivial { nontrivial += 1; }
        agg.steps += r.steps; agg.ios += r.ios; agg.sim_ns += r.sim_ns;
        agg.sched_choices += r.sched_choices; agg.epochs += r.epochs;
        for (k, v) in &r.faults { *agg.faults.entry(k.clone()).or_default() += v; }
        for (k, v) in &r.probes { *agg.probes.entry(k.clone()).or_default() += v; }
        if r.nontrivial { traces.insert(r.hash); }
        sigs.extend(r.sigs.iter().copied());
        if first.len() < 6 { first.push((s, r.hash)); }
        if samples.len() < 4 {
            samples.push(json!({"seed": s, "steps": r.steps, "ios": r.ios, "sim_s": r.sim_ns as f64 / 1e9,
                "faults": r.faults, "probes": r.probes, "trace_hash": format!("{:016x}", r.hash)}));
        }
        if let Some(v) = r.viol {
            if v.kind.starts_with("harness") {
                if harness_err.is_none() { harness_err = Some(format!("seed {s}: {}", v.msg)); }
                return true;
            }
            if let Some(k) = kn.iter().find(|k| (k.kind.is_empty() || k.kind == v.kind) && v.msg.contains(&k.contains)) {
                *known_hits.entry(k.what.clone()).or_default() += 1;
                return true;
            }
            if bad.as_ref().map(|(bs, _)| s < *bs).unwrap_or(true) { bad = Some((s, v)); }
            return false;
        }
        true
    });
    let search_s = t0.elapsed().as_secs_f64();
    // Determinism: the same seeds again, in other processes
    let mut det_n = 0; let mut det_bad = 0;
    {
        let mut q: VecDeque<(u64, u64)> = first.iter().copied().collect();
        let want: BTreeMap<u64, u64> = first.iter().copied().collect();
        pool_run(check.prop, ncpu.min(6), &mut || q.pop_front().map(|(s, _)| json!({"seed": s, "tier": tname})),
            &mut |_, r| { det_n += 1; if want.get(&r.seed) != Some(&r.hash) { det_bad += 1; } true });
    }
    for k in &kn {
        println!("KNOWN-FINDING: property={} {}{}", check.prop, k.what,
            known_hits.get(&k.what).map(|n| format!(" (met {n} times in this run)")).unwrap_or_default());
    }
    let mut exit = 0;
    let mut violations = Vec::new();
    if let Some((s, v)) = &bad {
        eprintln!("seed {s}: {}: {}", v.kind, v.msg);
        let plan = (check.gen)(*s, tier);
        let budget = Duration::from_secs(if tier == Tier::Quick { 60 } else { 240 });
        let (mplan, mv, tries) = if v.kind == "livelock" { (plan.clone(), v.clone(), 0) }
            else { minimise(check, &plan, v, budget) };
        // run again for the trace
        let mut fin: Option<Report> = None;
        let mut once = Some(json!({"plan": mplan, "trace": true, "seed": s}));
        pool_run(check.prop, 1, &mut || once.take(), &mut |_, r| { fin = Some(r); true });
        let fin = fin.unwrap_or_default();
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{s}.json", check.prop));
        let mut tail = fin.trace.clone();
        if tail.len() > 400 { tail = tail.split_off(tail.len() - 400); }
        let doc = json!({"property": check.prop, "seed": s, "violation": mv, "original_violation": v,
            "reproduced": fin.viol.as_ref().map(|x| same_viol(x, &mv)).unwrap_or(false),
            "trace_hash": format!("{:016x}", fin.hash), "minimiser_runs": tries,
            "original_plan_bytes": size_of(&plan), "plan_bytes": size_of(&mplan),
            "plan": mplan, "trace_tail": tail});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("{}: {}", mv.kind, mv.msg);
        println!("VIOLATION property={} replay={}", check.prop, path.display());
        violations.push(json!({"seed": s, "kind": mv.kind, "msg": mv.msg, "replay": path.display().to_string()}));
        exit = 1;
    }
    if exit == 0 && harness_err.is_some() {
        eprintln!("HARNESS ERROR: {}", harness_err.clone().unwrap());
        exit = 3;
    }
    let missing: Vec<&str> = check.need.iter().copied()
        .filter(|k| agg.probes.get(*k).copied().unwrap_or(0) + agg.faults.get(*k).copied().unwrap_or(0) == 0).collect();
    let wall_s = t0.elapsed().as_secs_f64();
    let per_h = evals as f64 / search_s.max(0.001) * 3600.0;
    let mut assumptions: Vec<String> = check.assumptions.iter().map(|s| s.to_string()).collect();
    assumptions.push(format!("real code: {}", check.real));
    assumptions.push(format!("stubbed: {}", check.stub));
    let ev = json!({
        "property": check.prop, "tier": tname, "seed": seed, "level": check.level,
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": traces.len(),
            "rule": check.rule, "samples": samples,
            "simulated_runs": evals, "runs_requested": n, "nontrivial_runs": nontrivial, "seeds_per_hour": per_h as u64,
            "machine_lifetimes": agg.epochs, "simulated_seconds": agg.sim_ns as f64 / 1e9,
            "scheduling_steps": agg.steps, "scheduling_choices": agg.sched_choices, "ios": agg.ios,
            "faults_fired": agg.faults, "probes": agg.probes,
            "distinct_measure": "distinct_nontrivial counts different hashes of the complete event trace (every task scheduled, every I/O submitted and completed) among nontrivial runs; distinct_states counts different final states of the reference model",
            "distinct_states": sigs.len(),
            "determinism": {"reruns": det_n, "mismatches": det_bad},
            "probes_never_hit": missing,
            "real_components": check.real, "stub_components": check.stub,
        },
        "assumptions": assumptions,
        "violations": violations.len(), "violation_details": violations,
        "known_findings_met": known_hits,
        "wall_s": wall_s,
    });
    let edir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{}.json", check.prop)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} {}: {} runs, {} epochs, {} distinct, {:.0} simulated s, {} I/Os, faults {:?}, {:.1} s wall{}{}",
        check.prop, tname, evals, agg.epochs, traces.len(), agg.sim_ns as f64 / 1e9, agg.ios, agg.faults, wall_s,
        if det_bad > 0 { format!(", NONDETERMINISM {det_bad}/{det_n}") } else { String::new() },
        if missing.is_empty() { String::new() } else { format!(", never hit: {missing:?}") });
    exit
}

pub fn replay(check: &'static Check, doc: &Value, trace: bool) -> i32 {
    let mut fin: Option<Report> = None;
    let mut once = Some(json!({"plan": doc["plan"], "trace": trace, "seed": doc["seed"]}));
    pool_run(check.prop, 1, &mut || once.take(), &mut |_, r| { fin = Some(r); true });
    let r = fin.unwrap();
    for l in &r.trace { println!("{l}"); }
    println!("trace hash {:016x} (recorded {})", r.hash, doc["trace_hash"]);
    match r.viol {
        Some(v) => {
            println!("{}: {}", v.kind, v.msg);
            1
        }
        None => { println!("no violation"); 0 }
    }
}

/// Run many seeds without stopping; count the different violations
pub fn survey(check: &'static Check, tier: Tier, seed: u64, n: u64) {
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut hist: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut i = 0;
    let mut agg = Report::default();
    let t0 = Instant::now();
    let mut slow: Vec<(u64, u64)> = vec![];
    pool_run(check.prop, 8, &mut || { if i >= n { return None; } let s = mix(seed, i); i += 1; Some(json!({"seed": s, "tier": tname, "t": t0.elapsed().as_millis() as u64})) },
        &mut |j, r| {
            slow.push((t0.elapsed().as_millis() as u64 - j["t"].as_u64().unwrap(), j["seed"].as_u64().unwrap()));
            for (k, v) in &r.faults { *agg.faults.entry(k.clone()).or_default() += v; }
            for (k, v) in &r.probes { *agg.probes.entry(k.clone()).or_default() += v; }
            if let Some(v) = r.viol {
                let m = v.msg.split_once(": ").map(|x| x.1.to_string()).unwrap_or(v.msg.clone());
                let m: String = if v.kind == "panic" { m } else { m.split_whitespace().map(|t| if t.contains('/') || t.contains('.') || crate::fsmodel::NAMES.iter().any(|n| t.contains(n) && n.len() > 3) || crate::fsmodel::XNAMES.iter().any(|n| t.contains(n.1)) { "X" } else { t }).collect::<Vec<_>>().join(" ") };
                let key: String = format!("{}: {}", v.kind, m.chars().map(|c| if c.is_ascii_digit() && v.kind != "panic" { '9' } else { c }).take(70).collect::<String>());
                let e = hist.entry(key).or_insert((0, u64::MAX, String::new()));
                e.0 += 1;
                let s = j["seed"].as_u64().unwrap();
                if s < e.1 { e.1 = s; e.2 = v.msg.chars().take(300).collect(); }
            }
            true
        });
    let mut h: Vec<_> = hist.into_iter().collect();
    h.sort_by_key(|x| std::cmp::Reverse(x.1.0));
    for (_, (n, s, m)) in h { println!("{n:5}  seed {s}: {m}"); }
    slow.sort(); slow.reverse();
    println!("{n} runs, {:.1} s; slowest {:?}", t0.elapsed().as_secs_f64(), &slow[..3.min(slow.len())]);
    println!("faults {:?}\nprobes {:?}", agg.faults, agg.probes);
}
