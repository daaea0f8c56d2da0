//! Driver: check, replay, worker, tape server, determinism test.
mod calls;
mod gen;
mod hostile;
mod indep;
mod model;
mod oracle;
mod preempt;
mod run;
mod seam;
mod tape;
mod tm;
mod util;
mod world;

use run::{is_listed, prop_name, relevant, run_one, violation};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::time::Instant;
use tape::{Tape, MAX_DRAWS};

#[global_allocator]
static ALLOC: preempt::Hooked = preempt::Hooked;

pub const CPU_LIMIT_S: i64 = 20;

fn root() -> String {
    std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".to_owned())
}

fn run_seed(verif: u64, prop: &str, idx: u64) -> u64 {
    seam::splitmix(verif.wrapping_mul(0x9e37_79b9).wrapping_add(util::hash_bytes(prop.as_bytes())) ^ seam::splitmix(idx))
}

/// (listed ids, lines to print) for a property
fn findings(prop: &str) -> (Vec<String>, Vec<String>) {
    let f = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    let (mut ids, mut lines) = (vec![], vec![]);
    for l in f.lines() {
        let Some(rest) = l.strip_prefix("known: ") else { continue };
        let mut w = rest.split_whitespace();
        let (Some(p), Some(id)) = (w.next().and_then(|p| p.strip_prefix("property=")), w.next()) else { continue };
        if p == prop {
            ids.push(id.to_owned());
            lines.push(format!("KNOWN-FINDING: {rest}"));
        }
    }
    (ids, lines)
}

fn limit_memory() {
    // SAFETY: plain setrlimit
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

// ---------------------------------------------------------------- one run in a process of its own

/// Memory shared with the process of a run: the draws it made and its result.
struct Shared {
    draws: *mut u32,
    result: *mut u8,
}

const RESULT_MAX: usize = 256 << 20;

enum Ran {
    Done(Value),
    /// signal, draws made
    Died(i32, Vec<u32>),
    Broken(String),
}

impl Shared {
    fn new() -> Shared {
        let map = |n: usize| {
            // SAFETY: plain anonymous mapping
            let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
            assert!(p != libc::MAP_FAILED, "mmap");
            p
        };
        Shared { draws: map((MAX_DRAWS + 2) * 4).cast(), result: map(RESULT_MAX).cast() }
    }

    /// Every run starts from a process in which the library has never been called, so it depends
    /// on its tape alone, whatever state the code under test keeps.
    fn run(&self, prop: &'static str, mut t: Tape, tracing: bool, listed: &[String]) -> Ran {
        let given = t.vals.clone();
        // SAFETY: this process has one thread; the child leaves its answer in shared memory
        unsafe {
            self.draws.write_volatile(0);
            self.result.cast::<u64>().write_volatile(0);
            t.mirror = Some(self.draws);
            let k = libc::fork();
            if k < 0 {
                return Ran::Broken("fork".to_owned());
            }
            if k == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                util::limit_cpu(CPU_LIMIT_S);
                let z = (prop == "C14").then(indep::Zygote::start);
                let (out, z) = run_one(prop, t, tracing, z);
                drop(z);
                let st = &out.st;
                let mut kf: BTreeMap<&str, u64> = BTreeMap::new();
                for f in &out.found {
                    if let (Some(k), true) = (f.v.kf, is_listed(&f.v, listed) && f.v.props.contains(&prop)) {
                        *kf.entry(k).or_default() += 1;
                    }
                }
                let (kind, detail) = violation(&out, prop, listed).map_or((None, ""), |f| (Some(&f.v.kind), f.v.detail.as_str()));
                let v = json!({"kind": kind, "detail": detail, "tape": out.tape, "trace": out.trace, "kf": kf, "sim_s": (st.sim_ns as f64) / 1e9,
                    "events": st.events, "sessions": st.sessions, "completed": st.completed, "calls": st.calls, "labels": st.labels, "faults": st.faults,
                    "inter": st.interleaving, "states": st.states});
                let b = serde_json::to_vec(&v).unwrap_or_default();
                if b.is_empty() || b.len() + 8 > RESULT_MAX {
                    libc::_exit(4);
                }
                std::ptr::copy_nonoverlapping(b.as_ptr(), self.result.add(8), b.len());
                self.result.cast::<u64>().write_volatile(b.len() as u64);
                libc::_exit(0);
            }
            let mut st = 0;
            libc::waitpid(k, &mut st, 0);
            if libc::WIFSIGNALED(st) {
                let n = self.draws.read_volatile() as usize;
                let vals = if given.is_empty() { (1..=n).map(|i| *self.draws.add(i)).collect() } else { given };
                return Ran::Died(libc::WTERMSIG(st), vals);
            }
            let n = self.result.cast::<u64>().read_volatile() as usize;
            if st != 0 || n == 0 {
                return Ran::Broken(format!("the simulator ended with status {st}"));
            }
            match serde_json::from_slice(std::slice::from_raw_parts(self.result.add(8), n)) {
                Ok(v) => Ran::Done(v),
                Err(e) => Ran::Broken(e.to_string()),
            }
        }
    }
}

// ---------------------------------------------------------------- worker

fn worker(prop: &'static str, verif: u64, first: u64, stride: u64, end: u64, listed: &[String], deadline_s: u64) {
    calls::install_panic_hook();
    limit_memory();
    let sh = Shared::new();
    let t0 = Instant::now();
    let mut maps: BTreeMap<&str, BTreeMap<String, u64>> = BTreeMap::new();
    let mut sums: BTreeMap<&str, f64> = BTreeMap::new();
    let mut inter: HashSet<u64> = HashSet::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let say = |tag: &str, v: Value| {
        let mut o = std::io::stdout().lock();
        let _ = writeln!(o, "{tag} {v}");
        let _ = o.flush();
    };
    let mut bad = 0;
    let mut idx = first;
    while idx < end && t0.elapsed().as_secs() <= deadline_s {
        let tracing = idx < 3;
        let out = match sh.run(prop, Tape::seeded(run_seed(verif, prop, idx)), tracing, listed) {
            Ran::Done(o) => o,
            Ran::Died(sig, tape) => {
                if prop == "C10" {
                    say("V", json!({"idx": idx, "kind": death(sig), "detail": "the process died", "tape": tape}));
                    break;
                }
                say("D", json!({"run": idx, "how": death(sig)}));
                bad += 1;
                if bad > 20 {
                    break;
                }
                idx += stride;
                continue;
            }
            Ran::Broken(m) => {
                say("H", json!({"run": idx, "error": m}));
                bad += 1;
                if bad > 20 {
                    break;
                }
                idx += stride;
                continue;
            }
        };
        *sums.entry("runs").or_default() += 1.0;
        for k in ["events", "sessions", "completed", "sim_s"] {
            *sums.entry(k).or_default() += out[k].as_f64().unwrap_or(0.0);
        }
        for k in ["calls", "labels", "faults", "kf"] {
            for (n, c) in out[k].as_object().into_iter().flatten() {
                *maps.entry(k).or_default().entry(n.clone()).or_default() += c.as_u64().unwrap_or(0);
            }
        }
        let faulty = out["faults"].as_object().is_some_and(|m| !m.is_empty());
        if !faulty {
            *sums.entry("calm").or_default() += 1.0;
        }
        let h = out["inter"].as_u64().unwrap_or(0);
        inter.insert(h);
        states.extend(out["states"].as_array().into_iter().flatten().filter_map(Value::as_u64));
        let rel = relevant(prop);
        let judged = out["calls"].as_object().is_some_and(|m| m.keys().any(|k| rel.is_empty() || rel.contains(&k.as_str())));
        if judged && faulty {
            nontrivial.insert(h);
        }
        if tracing {
            let lines: Vec<String> = out["trace"].as_array().into_iter().flatten().map(compact).filter(|s| !s.is_empty()).take(60).collect();
            samples.push(json!({"run": idx, "seed": run_seed(verif, prop, idx), "draws": out["tape"].as_array().map_or(0, Vec::len), "history": lines}));
        }
        if out["kind"].is_string() {
            say("V", json!({"idx": idx, "kind": out["kind"], "detail": out["detail"], "tape": out["tape"]}));
            break;
        }
        idx += stride;
    }
    say("E", json!({"sums": sums, "maps": maps, "inter": inter, "nontrivial": nontrivial, "states": states, "samples": samples}));
}

fn compact(v: &Value) -> String {
    if let Some(r) = v.get("run") {
        return format!("run {r}");
    }
    if let Some(f) = v.get("fault") {
        return format!("  fault: {}", f.as_str().unwrap_or(""));
    }
    if let Some(e) = v.get("event") {
        return format!("{} {} {}", v["at"].as_str().unwrap_or(""), e.as_str().unwrap_or(""), v.get("session").or(v.get("replica")).map_or(String::new(), |s| format!("#{s}")));
    }
    if let Some(c) = v.get("call") {
        let op = match c {
            Value::Object(m) => m.keys().next().cloned().unwrap_or_default(),
            _ => c.to_string(),
        };
        let out: String = v["outcome"].as_str().unwrap_or("").chars().take(120).collect();
        return format!("  call {op} -> {out}");
    }
    String::new()
}

// ---------------------------------------------------------------- tape server (for minimising)

/// Reads one request per line, {"tape":[..]} or {"seed":n}, runs it, and answers with the
/// violation found there.
fn server(prop: &'static str, listed: &[String]) {
    calls::install_panic_hook();
    limit_memory();
    let sh = Shared::new();
    let mut line = String::new();
    loop {
        line.clear();
        if std::io::stdin().lock().read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        let Ok(v) = serde_json::from_str::<Value>(&line) else { return };
        let t = match v.get("seed").and_then(Value::as_u64) {
            Some(s) => Tape::seeded(s),
            None => Tape::replay(draws(&v["tape"])),
        };
        let a = match sh.run(prop, t, v["trace"] == json!(true), listed) {
            Ran::Done(o) => o,
            Ran::Died(sig, tape) => json!({"kind": if prop == "C10" { json!(death(sig)) } else { Value::Null }, "detail": "the process died", "tape": tape}),
            Ran::Broken(m) => json!({"kind": null, "detail": m, "tape": []}),
        };
        println!("{}", json!({"kind": a["kind"], "detail": a["detail"], "tape": a["tape"], "trace": a["trace"]}));
        let _ = std::io::stdout().flush();
    }
}

fn draws(v: &Value) -> Vec<u32> {
    v.as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(0) as u32).collect()
}

fn death(sig: i32) -> String {
    match sig {
        libc::SIGPROF => format!("a call did not return within {CPU_LIMIT_S} s of processor time"),
        libc::SIGSEGV | libc::SIGBUS => "the process died of a memory fault".to_owned(),
        libc::SIGABRT => "the process aborted".to_owned(),
        s => format!("the process died of signal {s}"),
    }
}

struct Server {
    child: std::process::Child,
    rx: BufReader<std::process::ChildStdout>,
}

impl Server {
    fn start(prop: &str) -> Server {
        let mut child = Command::new(std::env::current_exe().expect("exe")).args(["server", prop]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
        let rx = BufReader::new(child.stdout.take().expect("pipe"));
        Server { child, rx }
    }
    fn ask(&mut self, v: &Value) -> Option<Value> {
        let i = self.child.stdin.as_mut()?;
        writeln!(i, "{v}").ok()?;
        i.flush().ok()?;
        let mut l = String::new();
        self.rx.read_line(&mut l).ok()?;
        serde_json::from_str(&l).ok()
    }
    fn same(&mut self, tape: &[u32], kind: &str) -> bool {
        self.ask(&json!({ "tape": tape })).is_some_and(|a| a["kind"] == json!(kind))
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn minimise(s: &mut Server, mut best: Vec<u32>, kind: &str, budget_s: u64) -> Vec<u32> {
    let t0 = Instant::now();
    let left = |t0: &Instant| t0.elapsed().as_secs() < budget_s;
    // shorter prefixes
    let (mut lo, mut hi) = (0, best.len());
    while lo < hi && left(&t0) {
        let mid = (lo + hi) / 2;
        if s.same(&best[..mid], kind) {
            hi = mid;
        } else {
            lo = mid + 1;
        }
    }
    if s.same(&best[..hi], kind) {
        best.truncate(hi);
    }
    loop {
        let before = best.clone();
        // remove and clear blocks
        let mut n = (best.len() / 2).max(1);
        while n >= 1 && left(&t0) {
            let mut i = 0;
            while i < best.len() && left(&t0) {
                let j = (i + n).min(best.len());
                let mut c = best.clone();
                c.drain(i..j);
                if s.same(&c, kind) {
                    best = c;
                    continue;
                }
                if best[i..j].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..j] {
                        *x = 0;
                    }
                    if s.same(&c, kind) {
                        best = c;
                    }
                }
                i = j;
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // smaller values
        for i in 0..best.len() {
            if !left(&t0) {
                break;
            }
            for v in [1, best.get(i).copied().unwrap_or(0) / 2] {
                if i < best.len() && v < best[i] {
                    let mut c = best.clone();
                    c[i] = v;
                    if s.same(&c, kind) {
                        best = c;
                    }
                }
            }
        }
        while best.last() == Some(&0) {
            let c = best[..best.len() - 1].to_vec();
            if s.same(&c, kind) {
                best = c;
            } else {
                break;
            }
        }
        if best == before || !left(&t0) {
            return best;
        }
    }
}

// ---------------------------------------------------------------- check

fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C14" => 12_000,
        "C10" => 36_000,
        _ => 26_000,
    }
}

struct Worker {
    lines: std::sync::mpsc::Receiver<String>,
    child: std::process::Child,
}

fn spawn_worker(prop: &str, verif: u64, k: u64, stride: u64, end: u64, deadline_s: u64) -> Worker {
    let mut child = Command::new(std::env::current_exe().expect("exe"))
        .args(["worker", prop, &verif.to_string(), &k.to_string(), &stride.to_string(), &end.to_string(), &deadline_s.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .spawn()
        .expect("spawn");
    let out = child.stdout.take().expect("pipe");
    let (tx, lines) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines().map_while(Result::ok) {
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    Worker { lines, child }
}

fn check(prop: &'static str) -> i32 {
    let t0 = Instant::now();
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let verif: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    println!("seed {verif} property {prop} tier {tier}");
    let (_, lines) = findings(prop);
    let end: u64 = std::env::var("DST_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| quick_runs(prop) * if tier == "thorough" { 25 } else { 1 });
    let deadline = if tier == "thorough" { 7200 } else { 400 };
    let stride: u64 = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let ws: Vec<Worker> = (0..stride).map(|k| spawn_worker(prop, verif, k, stride, end, deadline)).collect();
    let mut agg: BTreeMap<&str, f64> = BTreeMap::new();
    let mut maps: BTreeMap<&str, BTreeMap<String, u64>> = BTreeMap::new();
    let mut sets: BTreeMap<&str, HashSet<u64>> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut viols: Vec<Value> = vec![];
    let mut died: Vec<Value> = vec![];
    let mut broken: Vec<Value> = vec![];
    for mut w in ws {
        let mut whole = false;
        while let Ok(l) = w.lines.recv() {
            let (tag, rest) = l.split_once(' ').unwrap_or((&l, ""));
            let Ok(e) = serde_json::from_str::<Value>(rest) else { continue };
            match tag {
                "V" => viols.push(e),
                "D" => died.push(e),
                "H" => broken.push(e),
                "E" => {
                    whole = true;
                    for k in ["runs", "events", "sessions", "completed", "sim_s", "calm"] {
                        *agg.entry(k).or_default() += e["sums"][k].as_f64().unwrap_or(0.0);
                    }
                    for k in ["calls", "labels", "faults", "kf"] {
                        for (n, c) in e["maps"][k].as_object().into_iter().flatten() {
                            *maps.entry(k).or_default().entry(n.clone()).or_default() += c.as_u64().unwrap_or(0);
                        }
                    }
                    for k in ["inter", "nontrivial", "states"] {
                        sets.entry(k).or_default().extend(e[k].as_array().into_iter().flatten().filter_map(Value::as_u64));
                    }
                    samples.extend(e["samples"].as_array().cloned().unwrap_or_default());
                }
                _ => {}
            }
        }
        let st = w.child.wait().expect("wait");
        if !st.success() || !whole {
            broken.push(json!({"worker": st.to_string()}));
        }
    }
    let explored_s = t0.elapsed().as_secs_f64();
    samples.sort_by_key(|s| s["run"].as_u64());
    viols.sort_by_key(|v| v["idx"].as_u64());
    for l in &lines {
        println!("{l}");
    }
    let runs = agg.get("runs").copied().unwrap_or(0.0);
    let mut code = 0;
    for v in &viols {
        code = report(prop, verif, v);
        if code == 1 {
            break;
        }
    }
    if code == 0 && !broken.is_empty() {
        code = 2;
    }
    for b in broken.iter().take(5) {
        eprintln!("harness error: {b}");
    }
    let n = |m: &str| maps.get(m).cloned().unwrap_or_default();
    let size = |m: &str| sets.get(m).map_or(0, HashSet::len);
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop, "tier": tier, "seed": verif, "level": "exploration", "wall_s": wall, "violations": i32::from(!viols.is_empty()),
        "coverage": {
            "evaluations": runs as u64,
            "distinct_nontrivial": size("nontrivial"),
            "rule": format!("one case is one simulated run (a seeded history of one to three issuance sessions over one or two issuers, with faults, attacks and probes); \
                cases are distinct by the hash of their sequence of events and call outcomes, and non-trivial when at least one fault fired and at least one of the calls {:?} was made and judged", if relevant(prop).is_empty() { &["any"][..] } else { relevant(prop) }),
            "samples": samples,
            "seeds": runs as u64,
            "runs_per_hour": (runs / explored_s * 3600.0) as u64,
            "simulated_seconds": agg.get("sim_s"),
            "events": agg.get("events"),
            "library_calls": n("calls"),
            "call_outcomes": n("labels"),
            "faults_injected": n("faults"),
            "fault_free_runs": agg.get("calm"),
            "sessions": agg.get("sessions"),
            "sessions_completed": agg.get("completed"),
            "distinct_interleavings": size("inter"),
            "distinct_states": size("states"),
            "states_measure": "hash of (phase, grants and attempts of every session; up, partitioned, skew sign and restarts of every replica; faults stopped or not; messages in flight)",
            "known_findings_met": n("kf"),
            "runs_lost_to_process_death": died,
            "real": ["openid4vci (all of it, through its public API and its serialised forms)", "ssi-dids", "ssi-jwk", "chrono", "serde_json", "urlencoding"],
            "stubs": ["network", "durable store", "system clock", "random bytes for hash keys", "DID registry and resolver", "wallets", "issuer service around the library", "signature scheme", "attacker"],
        },
        "assumptions": ["the reference model in sim/src/model.rs states what each message means", "system clocks show 1970 or later"],
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_vec_pretty(&ev).unwrap_or_default()).is_err() {
        eprintln!("harness error: cannot write evidence");
        return 2;
    }
    println!("{prop}: {} runs, {} distinct non-trivial, {:.0} s", runs as u64, size("nontrivial"), wall);
    code
}

fn report(prop: &'static str, verif: u64, v: &Value) -> i32 {
    let idx = v["idx"].as_u64().unwrap_or(0);
    let kind = v["kind"].as_str().unwrap_or("").to_owned();
    let mut s = Server::start(prop);
    let original = draws(&v["tape"]);
    if !s.same(&original, &kind) {
        eprintln!("harness error: run {idx} ({kind}) does not reproduce: {}", v["detail"]);
        return 2;
    }
    let best = minimise(&mut s, original.clone(), &kind, 40);
    let got = s.ask(&json!({ "tape": best, "trace": true })).unwrap_or(Value::Null);
    drop(s);
    let detail = got["detail"].as_str().unwrap_or("").to_owned();
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{verif}-{idx}.json");
    let file = json!({"property": prop, "verif_seed": verif, "run": idx, "run_seed": run_seed(verif, prop, idx), "kind": kind, "detail": detail,
        "draws_before_minimising": original.len(), "tape": best, "trace": got["trace"]});
    if std::fs::write(&path, serde_json::to_vec_pretty(&file).unwrap_or_default()).is_err() {
        eprintln!("harness error: cannot write {path}");
        return 2;
    }
    // confirmed by a fresh process
    let again = Command::new(std::env::current_exe().expect("exe")).args(["replay", &path]).output().expect("run");
    if again.status.code() != Some(1) {
        eprintln!("harness error: the minimised run does not replay: {}", util::lossy(&again.stdout));
        return 2;
    }
    println!("{kind}: {}", detail.chars().take(2000).collect::<String>());
    println!("VIOLATION property={prop} replay={path}");
    1
}

// ---------------------------------------------------------------- replay

fn replay(path: &str) -> i32 {
    let file: Option<Value> = std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok());
    let (Some(file), Some(prop)) = (&file, file.as_ref().and_then(|f| prop_name(f["property"].as_str()?))) else {
        eprintln!("harness error: cannot read {path}");
        return 2;
    };
    let mut s = Server::start(prop);
    let Some(got) = s.ask(&json!({ "tape": file["tape"], "trace": true })) else {
        eprintln!("harness error: no answer");
        return 2;
    };
    for l in got["trace"].as_array().into_iter().flatten() {
        println!("{}", compact(l));
    }
    if !got["kind"].is_string() {
        println!("no violation");
        return 0;
    }
    let exact = got["kind"] == file["kind"] && got["trace"] == file["trace"] && got["detail"] == file["detail"];
    println!("{}: {}", got["kind"].as_str().unwrap_or(""), got["detail"].as_str().unwrap_or(""));
    println!("{}", if exact { "reproduced exactly" } else { "a violation, but not the recorded history" });
    println!("VIOLATION property={prop} replay={path}");
    1
}

/// Prints one line per run: a digest of everything that happened in it.
fn digest(prop: &'static str, verif: u64, first: u64, n: u64) {
    calls::install_panic_hook();
    let sh = Shared::new();
    for idx in first..first + n {
        match sh.run(prop, Tape::seeded(run_seed(verif, prop, idx)), true, &[]) {
            Ran::Done(o) => println!("{prop} {idx} {:016x}", util::hash_bytes(o.to_string().as_bytes())),
            Ran::Died(s, t) => println!("{prop} {idx} died of {s} after {} draws", t.len()),
            Ran::Broken(m) => println!("{prop} {idx} {m}"),
        }
    }
}

/// All violations by kind, for working on the harness.
fn survey(prop: &'static str, verif: u64, n: u64) {
    calls::install_panic_hook();
    let mut z = (prop == "C14").then(indep::Zygote::start);
    let mut kinds: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let t0 = Instant::now();
    let (mut s, mut c) = (0, 0);
    for idx in 0..n {
        let (out, z2) = run_one(prop, Tape::seeded(run_seed(verif, prop, idx)), false, z);
        z = z2;
        s += out.st.sessions;
        c += out.st.completed;
        let mut seen = BTreeSet::new();
        for f in &out.found {
            let k = format!("{} {:?} {}", f.v.kf.unwrap_or("    "), f.v.props, f.v.kind);
            if seen.insert(k.clone()) {
                kinds.entry(k).or_insert((0, idx, f.v.detail.clone())).0 += 1;
            }
        }
        for (k, v) in out.st.labels {
            *labels.entry(k).or_default() += v;
        }
    }
    let mut m = Map::new();
    for (k, (n, idx, d)) in &kinds {
        println!("{n:6} first {idx:6} {k}\n        {}", d.chars().take(std::env::var("WIDE").ok().and_then(|w| w.parse().ok()).unwrap_or(300)).collect::<String>());
        m.insert(k.clone(), json!(n));
    }
    if std::env::var("LABELS").is_ok() {
        for (k, n) in &labels {
            println!("   {n:8} {k}");
        }
    }
    println!("{n} runs in {:?}; sessions {s} completed {c}", t0.elapsed());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map_or("", String::as_str);
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let need = |p: &str| {
        prop_name(p).unwrap_or_else(|| {
            eprintln!("harness error: no such property: {p}");
            std::process::exit(2)
        })
    };
    let code = match arg(1) {
        "check" => check(need(arg(2))),
        "worker" => {
            let p = need(arg(2));
            worker(p, num(3), num(4), num(5), num(6), &findings(p).0, num(7));
            0
        }
        "server" => {
            let p = need(arg(2));
            server(p, &findings(p).0);
            0
        }
        "replay" => replay(arg(2)),
        "digest" => {
            digest(need(arg(2)), num(3), num(4), num(5));
            0
        }
        "survey" => {
            survey(need(arg(2)), num(3), num(4));
            0
        }
        _ => {
            eprintln!("usage: dst check PROP | replay FILE | digest PROP SEED FIRST N | survey PROP SEED N");
            2
        }
    };
    std::process::exit(code);
}
