//! The seams: every clock read and every random byte of the process goes through here.
//!
//! The binary defines `clock_gettime`, `gettimeofday`, `time`, `getenv` and `getrandom`; the linker binds
//! the references made by std (hence by chrono and by `HashMap`) to these definitions, so no hook
//! is needed in /repo and no clock read can bypass the simulation. While no simulated node is
//! executing on the calling thread they fall through to the kernel.
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct ClockSetting {
    /// node-local time (ns since the epoch) shown by the first read
    pub at: i128,
    /// by how much the clock moves after the 1st, 2nd, ... read (0 afterwards)
    pub moves: Vec<i128>,
    /// the time zone the node is configured for, an index into `ZONES`
    #[serde(default)]
    pub zone: usize,
    /// whether every other environment variable is set (to "1") or none
    #[serde(default)]
    pub env: bool,
}

/// POSIX `TZ` values; none of them may matter
pub const ZONES: [&std::ffi::CStr; 9] = [
    c"UTC0",
    c"<+14>-14",
    c"<-12>12",
    c"<+0530>-5:30",
    c"<-0330>3:30",
    c"<+0545>-5:45",
    c"CET-1CEST,M3.5.0,M10.5.0/3",
    c"EST5EDT,M3.2.0,M11.1.0",
    c"<+01>-1",
];

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<i128> = const { Cell::new(0) };
    static ZONE: Cell<usize> = const { Cell::new(0) };
    static ENV: Cell<bool> = const { Cell::new(false) };
    static MONO: Cell<i128> = const { Cell::new(0) };
    static READS: Cell<usize> = const { Cell::new(0) };
    static LO: Cell<i128> = const { Cell::new(0) };
    static HI: Cell<i128> = const { Cell::new(0) };
    static MOVES: RefCell<Vec<i128>> = const { RefCell::new(Vec::new()) };
    static RAND: Cell<u64> = const { Cell::new(0x1234_5678_9abc_def1) };
}

pub const NS: i128 = 1_000_000_000;

/// Starts a node's turn: from now on this thread sees the node's clock.
pub fn enter(c: &ClockSetting) {
    NOW.with(|n| n.set(c.at));
    LO.with(|n| n.set(c.at));
    HI.with(|n| n.set(c.at));
    READS.with(|n| n.set(0));
    ZONE.with(|z| z.set(c.zone));
    ENV.with(|z| z.set(c.env));
    MOVES.with(|m| {
        let mut m = m.borrow_mut();
        m.clear();
        m.extend_from_slice(&c.moves);
    });
    ACTIVE.with(|a| a.set(true));
}

#[derive(Clone, Copy, Debug)]
pub struct Interval {
    pub lo: i128,
    pub hi: i128,
    pub reads: usize,
}

/// Ends the turn and tells which times the node was shown.
pub fn leave() -> Interval {
    ACTIVE.with(|a| a.set(false));
    Interval { lo: LO.with(Cell::get), hi: HI.with(Cell::get), reads: READS.with(Cell::get) }
}

pub fn set_mono(t: i128) {
    MONO.with(|m| m.set(t));
}

/// Seeds the random bytes handed to this thread.
pub fn seed_random(s: u64) {
    RAND.with(|r| r.set(s | 1));
}

fn next_realtime() -> i128 {
    crate::preempt::point();
    let v = NOW.with(Cell::get);
    let r = READS.with(Cell::get);
    READS.with(|n| n.set(r + 1));
    if r == 0 {
        LO.with(|n| n.set(v));
        HI.with(|n| n.set(v));
    } else {
        LO.with(|n| n.set(n.get().min(v)));
        HI.with(|n| n.set(n.get().max(v)));
    }
    let mv = MOVES.with(|m| m.try_borrow().ok().and_then(|m| m.get(r).copied()).unwrap_or(0));
    // chrono cannot represent a system clock before 1970 at all (it panics by design)
    NOW.with(|n| n.set((v + mv).max(0)));
    v
}

/// # Safety
/// same contract as the libc function
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if !ACTIVE.with(Cell::get) {
        return libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int;
    }
    let realtime = clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE;
    let v = if realtime { next_realtime() } else { MONO.with(Cell::get) };
    (*ts).tv_sec = v.div_euclid(NS) as libc::time_t;
    (*ts).tv_nsec = v.rem_euclid(NS) as libc::c_long;
    0
}

/// # Safety
/// same contract as the libc function
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut libc::c_void) -> libc::c_int {
    if !ACTIVE.with(Cell::get) {
        return libc::syscall(libc::SYS_gettimeofday, tv, tz) as libc::c_int;
    }
    let v = next_realtime();
    (*tv).tv_sec = v.div_euclid(NS) as libc::time_t;
    (*tv).tv_usec = (v.rem_euclid(NS) / 1000) as libc::suseconds_t;
    0
}

/// # Safety
/// same contract as the libc function
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut libc::time_t) -> libc::time_t {
    let v = if ACTIVE.with(Cell::get) {
        next_realtime().div_euclid(NS) as libc::time_t
    } else {
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_REALTIME, &mut ts as *mut libc::timespec);
        ts.tv_sec
    };
    if !out.is_null() {
        *out = v;
    }
    v
}

extern "C" {
    static environ: *const *const libc::c_char;
}

/// The environment of the simulated node while one executes, the real one otherwise.
///
/// # Safety
/// same contract as the libc function
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    if ACTIVE.with(Cell::get) {
        if libc::strcmp(name, c"TZ".as_ptr()) == 0 {
            return ZONES[ZONE.with(Cell::get) % ZONES.len()].as_ptr().cast_mut();
        }
        // what the language's runtime looks up for itself
        if libc::strncmp(name, c"RUST_".as_ptr(), 5) == 0 || !ENV.with(Cell::get) {
            return std::ptr::null_mut();
        }
        return c"1".as_ptr().cast_mut();
    }
    let n = libc::strlen(name);
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        if libc::strncmp(*e, name, n) == 0 && *(*e).add(n) == b'=' as libc::c_char {
            return (*e).add(n + 1).cast_mut();
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

/// # Safety
/// same contract as the libc function
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, n: usize, _flags: libc::c_uint) -> isize {
    let p = buf.cast::<u8>();
    for i in 0..n {
        let s = RAND.with(Cell::get);
        let s2 = splitmix(s);
        RAND.with(|r| r.set(s.wrapping_add(0x9e37_79b9_7f4a_7c15)));
        *p.add(i) = (s2 >> 24) as u8;
    }
    n as isize
}

pub fn splitmix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
