//! C14: the recorded calls again, under other schedules. A decision may depend on nothing but its
//! inputs and the clock, so it must come out the same in another order, on another thread, with
//! other hash seeds, interrupted by another caller, and in a process that never did anything else.
use crate::calls::{exec, Call, Out};
use crate::oracle::{self, Report, Viol};
use crate::preempt;
use crate::seam::{self, ClockSetting, NS};
use crate::tape::Tape;
use crate::world::{brief, clock_text, describe_call, Rec};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

pub struct Zygote {
    to: std::fs::File,
    from: std::fs::File,
    pid: i32,
}

#[derive(Serialize, Deserialize)]
struct Job {
    call: Call,
    clock: ClockSetting,
    seed: u64,
}

fn send(f: &mut std::fs::File, b: &[u8]) -> std::io::Result<()> {
    f.write_all(&(b.len() as u32).to_le_bytes())?;
    f.write_all(b)
}

fn recv(f: &mut std::fs::File) -> std::io::Result<Vec<u8>> {
    let mut n = [0; 4];
    f.read_exact(&mut n)?;
    let mut v = vec![0; u32::from_le_bytes(n) as usize];
    f.read_exact(&mut v)?;
    Ok(v)
}

impl Zygote {
    /// Must be called before the first library call of the process, while it has one thread.
    pub fn start() -> Zygote {
        let mut a = [0; 2];
        let mut b = [0; 2];
        // SAFETY: plain pipe/fork; the child only runs the loop below and exits
        unsafe {
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0, "pipe");
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::close(a[1]);
                libc::close(b[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let mut rx = std::fs::File::from_raw_fd(a[0]);
                let mut tx = std::fs::File::from_raw_fd(b[1]);
                while let Ok(j) = recv(&mut rx) {
                    let k = libc::fork();
                    if k == 0 {
                        crate::util::limit_cpu(crate::CPU_LIMIT_S);
                        if let Ok(j) = serde_json::from_slice::<Job>(&j) {
                            seam::seed_random(j.seed);
                            let (out, _) = exec(&j.call, &j.clock, false);
                            let o = serde_json::to_vec(&oracle::norm(&out)).unwrap_or_default();
                            let _ = send(&mut tx, &o);
                        } else {
                            let _ = send(&mut tx, b"null");
                        }
                        libc::_exit(0);
                    }
                    let mut st = 0;
                    libc::waitpid(k, &mut st, 0);
                    if st != 0 {
                        let died = Out::Panic(format!("the process ended with status {st}"));
                        if send(&mut tx, &serde_json::to_vec(&died).unwrap_or_default()).is_err() {
                            break;
                        }
                    }
                }
                libc::_exit(0);
            }
            libc::close(a[0]);
            libc::close(b[1]);
            Zygote { to: std::fs::File::from_raw_fd(a[1]), from: std::fs::File::from_raw_fd(b[0]), pid }
        }
    }

    fn ask(&mut self, call: &Call, clock: &ClockSetting, seed: u64) -> Option<Out> {
        let j = serde_json::to_vec(&Job { call: call.clone(), clock: clock.clone(), seed }).ok()?;
        send(&mut self.to, &j).ok()?;
        serde_json::from_slice(&recv(&mut self.from).ok()?).ok()
    }
}

impl Drop for Zygote {
    fn drop(&mut self) {
        // SAFETY: our own child
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
            libc::waitpid(self.pid, std::ptr::null_mut(), 0);
        }
    }
}

fn on_thread<T: Send + 'static>(seed: u64, f: impl FnOnce() -> T + Send + 'static) -> T {
    let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
        seam::seed_random(seed);
        f()
    });
    h.expect("thread").join().expect("harness thread")
}

pub struct Outcome {
    pub viols: Vec<Viol>,
    pub counts: BTreeMap<&'static str, u64>,
    pub trace: Vec<Value>,
}

pub fn check(t: &mut Tape, recs: &[Rec], z: &mut Option<Zygote>, tracing: bool) -> Outcome {
    let mut o = Outcome { viols: vec![], counts: BTreeMap::new(), trace: vec![] };
    if recs.is_empty() {
        return o;
    }
    let mut r = Report(vec![]);
    let diff = |r: &mut Report, how: &str, rec: &Rec, got: &Out, also: Option<&Rec>| {
        if *got != rec.out {
            r.add(
                &["C14"],
                format!("{}: outcome depends on {how}", rec.call.name()),
                format!(
                    "{} at {}: in the run {}, {how} {}{}",
                    describe_call(&rec.call),
                    clock_text(&rec.clock),
                    brief(&rec.out),
                    brief(got),
                    also.map_or(String::new(), |a| format!("; the other call: {}", describe_call(&a.call)))
                ),
            );
        }
    };
    // 1. another order, on one fresh thread, under other hash keys
    let mut order: Vec<usize> = (0..recs.len()).collect();
    for i in (1..order.len()).rev() {
        let j = t.below(i as u32 + 1) as usize;
        order.swap(i, j);
    }
    order.truncate(24);
    let jobs: Vec<(usize, Call, ClockSetting)> = order.iter().map(|i| (*i, recs[*i].call.clone(), recs[*i].clock.clone())).collect();
    let seed = u64::from(t.below(1 << 30));
    let outs = on_thread(seed, move || jobs.iter().map(|(i, c, k)| (*i, oracle::norm(&exec(c, k, false).0))).collect::<Vec<_>>());
    *o.counts.entry("call re-executed in another order").or_default() += outs.len() as u64;
    for (i, got) in &outs {
        diff(&mut r, "the order of calls", &recs[*i], got, None);
    }
    if tracing {
        o.trace.push(json!({"c14": "other order", "order": order}));
    }
    // 2. interrupted by another caller
    for _ in 0..3 {
        let a = t.below(recs.len() as u32) as usize;
        let b = if t.chance(500) {
            // the same operation with other inputs is the likelier interference
            let same: Vec<usize> = (0..recs.len()).filter(|i| recs[*i].call.name() == recs[a].call.name()).collect();
            *t.pick(&same)
        } else {
            t.below(recs.len() as u32) as usize
        };
        let frac = t.below(1000);
        let (oa, ob, fired) = preempted(&recs[a], &recs[b], frac, u64::from(t.below(1 << 30)));
        if fired {
            *o.counts.entry("call preempted by another thread's call").or_default() += 1;
        }
        diff(&mut r, "another caller running during it", &recs[a], &oa, Some(&recs[b]));
        diff(&mut r, "running during another call", &recs[b], &ob, Some(&recs[a]));
        if tracing {
            o.trace.push(json!({"c14": "preemption", "call": a, "by": b, "at_permille": frac, "happened": fired}));
        }
    }
    // 2b. the same or a similar call a little earlier or later, on the same thread
    for _ in 0..3 {
        let timed: Vec<usize> = (0..recs.len()).filter(|i| recs[*i].reads > 0).collect();
        let a = if timed.is_empty() || t.chance(100) { t.below(recs.len() as u32) as usize } else { *t.pick(&timed) };
        let n = 1 + t.below(2);
        let mut before = vec![];
        for _ in 0..n {
            let by = *t.pick(&[1i128, 1_000, 1_000_000, 5_000_000, 100_000_000, NS, 10 * NS, 60 * NS, 300 * NS, 3600 * NS, 86_400 * NS]);
            let by = if t.chance(600) { by } else { -by };
            let b = if t.chance(600) {
                a
            } else {
                let same: Vec<usize> = (0..recs.len()).filter(|i| recs[*i].call.name() == recs[a].call.name()).collect();
                *t.pick(&same)
            };
            let at = recs[a].clock.at.saturating_add(by);
            if (0..=crate::tm::MAX_NS).contains(&at) {
                before.push((b, at));
            }
        }
        let jobs: Vec<(Call, ClockSetting)> = before.iter().map(|(b, at)| (recs[*b].call.clone(), ClockSetting { at: *at, moves: vec![], ..ClockSetting::default() })).collect();
        let (c, k) = (recs[a].call.clone(), recs[a].clock.clone());
        let got = on_thread(u64::from(t.below(1 << 30)), move || {
            for (c, k) in &jobs {
                let _ = exec(c, k, false);
            }
            oracle::norm(&exec(&c, &k, false).0)
        });
        *o.counts.entry("call re-executed after calls at other times").or_default() += 1;
        diff(&mut r, "calls made at other times", &recs[a], &got, before.first().map(|x| &recs[x.0]));
        if tracing {
            o.trace.push(json!({"c14": "other times", "call": a, "after": before.iter().map(|x| json!([x.0, x.1.to_string()])).collect::<Vec<_>>()}));
        }
    }
    // 2c. on a node set up differently
    for _ in 0..3 {
        let timed: Vec<usize> = (0..recs.len()).filter(|i| recs[*i].reads > 0).collect();
        let a = if timed.is_empty() || t.chance(500) { t.below(recs.len() as u32) as usize } else { *t.pick(&timed) };
        let zone = t.below(seam::ZONES.len() as u32) as usize;
        let env = t.chance(500);
        let (c, k) = (recs[a].call.clone(), ClockSetting { zone, env, ..recs[a].clock.clone() });
        let got = on_thread(u64::from(t.below(1 << 30)), move || oracle::norm(&exec(&c, &k, false).0));
        *o.counts.entry("call re-executed under another environment").or_default() += 1;
        diff(&mut r, "the environment (time zone, variables)", &recs[a], &got, None);
        if tracing {
            o.trace.push(json!({"c14": "environment", "call": a, "zone": seam::ZONES[zone].to_string_lossy(), "variables_set": env}));
        }
    }
    // 3. the first and only call of a process
    if let Some(z) = z {
        for _ in 0..2 {
            let i = t.below(recs.len() as u32) as usize;
            if let Some(got) = z.ask(&recs[i].call, &recs[i].clock, u64::from(t.below(1 << 30))) {
                *o.counts.entry("call re-executed in a fresh process").or_default() += 1;
                diff(&mut r, "earlier calls of the process", &recs[i], &got, None);
                if tracing {
                    o.trace.push(json!({"c14": "fresh process", "call": i}));
                }
            }
        }
    }
    // 4. after a long history: one call, or a few in turn, many times over, then everything again
    if t.chance(60) {
        let n = *t.pick(&[20u32, 70, 150, 300, 600, 1100, 2100, 4200]);
        let m = if n > 2000 { 1 } else { 1 + t.below(3) as usize };
        let which: Vec<usize> = (0..m).map(|_| t.below(recs.len() as u32) as usize).collect();
        let jobs: Vec<(Call, ClockSetting)> = which.iter().map(|i| (recs[*i].call.clone(), recs[*i].clock.clone())).collect();
        let again: Vec<(usize, Call, ClockSetting)> =
            order.iter().map(|i| (*i, recs[*i].call.clone(), recs[*i].clock.clone())).collect();
        let expect: Vec<Out> = which.iter().map(|i| recs[*i].out.clone()).collect();
        let (during, after) = on_thread(u64::from(t.below(1 << 30)), move || {
            let mut during: Vec<(usize, u32, Out)> = vec![];
            for k in 0..n {
                for (x, (c, clk)) in jobs.iter().enumerate() {
                    let got = oracle::norm(&exec(c, clk, false).0);
                    if got != expect[x] && during.is_empty() {
                        during.push((x, k, got));
                    }
                }
            }
            (during, again.iter().map(|(i, c, k)| (*i, oracle::norm(&exec(c, k, false).0))).collect::<Vec<_>>())
        });
        *o.counts.entry("call repeated many times in one process").or_default() += u64::from(n) * m as u64;
        for (x, _, got) in &during {
            diff(&mut r, "how often it was repeated", &recs[which[*x]], got, None);
        }
        for (i, got) in &after {
            diff(&mut r, "a long history of other calls", &recs[*i], got, None);
        }
        if tracing {
            o.trace.push(json!({"c14": "long history", "calls": which, "rounds": n}));
        }
    }
    o.viols = r.0;
    o
}

fn preempted(a: &Rec, b: &Rec, frac: u32, seed: u64) -> (Out, Out, bool) {
    let mut wake = [0; 2];
    let mut done = [0; 2];
    // SAFETY: plain pipes
    unsafe {
        assert!(libc::pipe(wake.as_mut_ptr()) == 0 && libc::pipe(done.as_mut_ptr()) == 0, "pipe");
    }
    let (bc, bk) = (b.call.clone(), b.clock.clone());
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            seam::seed_random(seed ^ 0x55);
            let mut x = [0u8; 1];
            // SAFETY: reads one byte from our pipe
            unsafe { libc::read(wake[0], x.as_mut_ptr().cast(), 1) };
            let out = oracle::norm(&exec(&bc, &bk, false).0);
            // SAFETY: writes one byte to our pipe
            unsafe { libc::write(done[1], x.as_ptr().cast(), 1) };
            out
        })
        .expect("thread");
    let (ac, ak) = (a.call.clone(), a.clock.clone());
    let (oa, fired) = on_thread(seed, move || {
        preempt::count_from_here();
        let _ = exec(&ac, &ak, false);
        let n = preempt::counted();
        let k = 1 + (u64::from(n) * u64::from(frac) / 1000) as u32;
        preempt::arm(k, wake[1], done[0]);
        let (out, _) = exec(&ac, &ak, false);
        let f = preempt::disarm();
        if !f {
            let x = [1u8; 1];
            // SAFETY: writes one byte to our pipe
            unsafe { libc::write(wake[1], x.as_ptr().cast(), 1) };
        }
        (oracle::norm(&out), f)
    });
    let ob = h.join().expect("harness thread");
    // SAFETY: closes our pipes
    unsafe {
        for fd in [wake[0], wake[1], done[0], done[1]] {
            libc::close(fd);
        }
    }
    (oa, ob, fired)
}
