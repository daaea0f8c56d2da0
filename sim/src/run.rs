//! One run: a pure function of its tape.
use crate::indep::{self, Zygote};
use crate::oracle::Viol;
use crate::seam;
use crate::tape::Tape;
use crate::world::{Found, Stats, World};
use serde_json::Value;

pub struct RunOut {
    pub found: Vec<Found>,
    pub st: Stats,
    pub trace: Vec<Value>,
    pub tape: Vec<u32>,
}

pub const PROPS: [&str; 18] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"];

/// the calls whose verdicts a property is about
pub fn relevant(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" | "C17" => &["eval"],
        "C02" => &["eval", "verify"],
        "C03" | "C04" | "C06" | "C07" | "C08" => &["eval", "parts", "pre", "verify"],
        "C05" => &["token"],
        "C09" => &["eval", "token"],
        "C11" => &["persist", "eval", "token", "create_offer"],
        "C13" => &["token_ok", "token_err", "cred_ok", "cred_err"],
        "C15" => &["create_offer", "resolve"],
        "C18" => &["token_ok", "cred_ok"],
        _ => &[],
    }
}

pub fn prop_name(p: &str) -> Option<&'static str> {
    PROPS.iter().copied().find(|x| *x == p)
}

/// Runs on a fresh thread, so that thread-local state and hash keys come from this run alone.
pub fn run_one(prop: &'static str, mut tape: Tape, tracing: bool, z: Option<Zygote>) -> (RunOut, Option<Zygote>) {
    struct Wrap(Tape, Option<Zygote>);
    // SAFETY: the mirror pointer of the tape is only used by the thread it moves to
    unsafe impl Send for Wrap {}
    tape.pos = 0;
    let w = Wrap(tape, z);
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let w = w;
            let Wrap(mut tape, mut z) = w;
            let hk = u64::from(tape.below(1 << 30));
            seam::seed_random(hk);
            let mut world = World::new(&mut tape, prop, tracing);
            world.run();
            let (mut found, mut st, mut trace, recs) =
                (std::mem::take(&mut world.found), std::mem::take(&mut world.st), std::mem::take(&mut world.trace), std::mem::take(&mut world.recs));
            drop(world);
            if prop == "C14" {
                let o = indep::check(&mut tape, &recs, &mut z, tracing);
                for v in o.viols {
                    found.push(Found { step: u64::MAX, v });
                }
                for (k, n) in o.counts {
                    *st.faults.entry(k).or_default() += n;
                }
                trace.extend(o.trace);
            }
            Wrap2(RunOut { found, st, trace, tape: std::mem::take(&mut tape.vals) }, z)
        })
        .expect("thread");
    struct Wrap2(RunOut, Option<Zygote>);
    match h.join() {
        Ok(Wrap2(o, z)) => (o, z),
        Err(_) => {
            eprintln!("harness error: {}", crate::calls::any_panic());
            eprintln!("harness error: the simulator itself panicked");
            std::process::exit(3);
        }
    }
}

/// the first violation of `prop` that is not a listed finding
pub fn violation<'a>(o: &'a RunOut, prop: &str, listed: &[String]) -> Option<&'a Found> {
    o.found.iter().find(|f| f.v.props.contains(&prop) && !is_listed(&f.v, listed))
}

pub fn is_listed(v: &Viol, listed: &[String]) -> bool {
    v.kf.is_some_and(|k| listed.iter().any(|l| l == k))
}
