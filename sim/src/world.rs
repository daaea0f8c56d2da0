//! One simulated deployment: issuer replicas over a durable store, wallets, a DID registry and a
//! network, driven by a discrete-event queue. Every choice is a draw from the run's tape.
use crate::calls::{exec, t_back, Bytes, Call, CredMem, Mem, MetaMem, Out, N_EXPORT};
use crate::gen::{self, ProofSpec, ReqSpec};
use crate::hostile::{self, Known, M, MS};
use crate::model;
use crate::oracle::{self, Report, Viol};
use crate::seam::{self, ClockSetting, Interval, NS};
use crate::tape::Tape;
use crate::{tm, util};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

const MS_NS: i128 = 1_000_000;

/// one executed call, for the checks over the recorded history
#[derive(Clone)]
pub struct Rec {
    pub call: Call,
    pub clock: ClockSetting,
    pub out: Out,
    /// how often the clock was read
    pub reads: usize,
}

#[derive(Clone)]
pub struct Found {
    pub step: u64,
    pub v: Viol,
}

#[derive(Default)]
pub struct Stats {
    pub calls: BTreeMap<&'static str, u64>,
    pub labels: BTreeMap<String, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub sim_ns: i128,
    pub events: u64,
    pub sessions: u64,
    pub completed: u64,
    /// hash of the sequence of (event, session, outcome)
    pub interleaving: u64,
    /// (phases of all sessions, which faults are in force)
    pub states: BTreeSet<u64>,
}

pub struct World<'t> {
    t: &'t mut Tape,
    k: Knobs,
    now: i128,
    seq: u64,
    q: BTreeMap<(i128, u64), Ev>,
    n: u64,
    issuers: Vec<Issuer>,
    nodes: Vec<Node>,
    wallets: Vec<Wallet>,
    sessions: Vec<Session>,
    store: BTreeMap<String, Vec<(Bytes, bool)>>,
    /// what wallets really signed: canonical text -> (session, nonce)
    signed: BTreeMap<String, usize>,
    /// what issuers really issued: nonce -> (session, created, lifetime)
    issued: Vec<(String, usize, i128, u32)>,
    captured: Vec<(usize, ReqSpec)>,
    sigs: Vec<String>,
    healed: bool,
    step: u64,
    ihash: u64,
    tracing: bool,
    pub trace: Vec<Value>,
    pub found: Vec<Found>,
    pub recs: Vec<Rec>,
    /// whether the last resolved document came undamaged
    doc_ok: bool,
    pub st: Stats,
}

struct Issuer {
    url: String,
    metas: u32,
}

struct Node {
    issuer: usize,
    skew: i128,
    zone: usize,
    up: bool,
    cut_until: i128,
    epoch: u32,
}

struct Wallet {
    did: String,
    keys: Vec<Vec<u8>>,
    cur: usize,
    form: u32,
    list: u32,
    relative: bool,
    frag: String,
    skew: i128,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Phase {
    New,
    Offered,
    Token,
    Asked,
    Done,
}

struct Session {
    issuer: usize,
    wallet: usize,
    grants: u8,
    code: String,
    pin_required: Option<bool>,
    pin: Option<u64>,
    creds: Vec<Value>,
    ask: Value,
    client: Option<String>,
    iss: Option<String>,
    endpoint: Option<String>,
    life: u32,
    token: String,
    phase: Phase,
    tries: u32,
    nonce: Option<String>,
    nonces: Vec<String>,
    old_param: bool,
    proof_type: Option<String>,
    style: [u32; 3],
    nbf: Option<i128>,
    exp: Option<i128>,
    shuffle: u32,
    extras: bool,
    nulls: bool,
}

#[derive(Clone)]
enum Ev {
    Offer(usize),
    Link { s: usize, link: String },
    TokenReq { route: usize, b: Bytes, clean: bool },
    TokenResp { s: usize, b: Bytes, ok: bool },
    CredReq { route: usize, b: Bytes, clean: bool },
    Resolved { node: usize, epoch: u32, route: usize, b: Bytes, clean: bool, doc: Option<Bytes> },
    CredResp { s: usize, b: Bytes, ok: bool },
    Retry(usize),
    Crash(usize),
    Restart(usize),
    Jump(usize),
    Cut(usize),
    Rollout(usize),
    Rotate(usize),
    Probe,
    Heal,
}

impl Ev {
    fn name(&self) -> &'static str {
        match self {
            Ev::Offer(_) => "issuer: create offer",
            Ev::Link { .. } => "wallet: offer link arrives",
            Ev::TokenReq { .. } => "issuer: token request arrives",
            Ev::TokenResp { .. } => "wallet: token response arrives",
            Ev::CredReq { .. } => "issuer: credential request arrives",
            Ev::Resolved { .. } => "issuer: resolver answers",
            Ev::CredResp { .. } => "wallet: credential response arrives",
            Ev::Retry(_) => "wallet: retries",
            Ev::Crash(_) => "replica crashes",
            Ev::Restart(_) => "replica restarts",
            Ev::Jump(_) => "clock jumps",
            Ev::Cut(_) => "replica partitioned",
            Ev::Rollout(_) => "metadata rollout",
            Ev::Rotate(_) => "wallet rotates its key",
            Ev::Probe => "probe",
            Ev::Heal => "faults stop",
        }
    }
}

/// per-run swarm configuration; all rates are per mille
struct Knobs {
    prop: &'static str,
    weird: u32,
    drop: u32,
    dup: u32,
    slow: u32,
    misroute: u32,
    corrupt: u32,
    attack: u32,
    replay: u32,
    stale: u32,
    lost: u32,
    rot: u32,
    docs: u32,
    crash: u32,
    skew: u32,
    midcall: u32,
    boundary: u32,
    missing: u32,
    rollout: u32,
    rotate: u32,
    probes: u32,
    storm: u32,
    tampers: Vec<M>,
}

fn emphasis(prop: &str) -> &'static [M] {
    match prop {
        "C03" => &[M::Nonce],
        "C04" => &[M::Bind],
        "C02" => &[M::Time],
        "C01" => &[M::Time],
        "C06" => &[M::Key],
        "C07" => &[M::Sig, M::Bind, M::Extra],
        "C08" => &[M::Kind],
        "C17" => &[M::Profile],
        "C10" => &[M::Key, M::Kind, M::Sig, M::Time, M::Extra, M::Nonce, M::Bind, M::Profile],
        "C16" => &[M::Key, M::Kind, M::Nonce, M::Bind, M::Time],
        _ => &[],
    }
}

impl Knobs {
    fn draw(t: &mut Tape, prop: &'static str) -> Knobs {
        let calm = t.chance(100);
        // which fault kinds this run has at all, and how strongly
        let rate = |t: &mut Tape, on: u32, rates: &[u32]| if calm || !t.chance(on) { 0 } else { *t.pick(rates) };
        let weird = if prop == "C12" || prop == "C10" || prop == "C11" || prop == "C13" || prop == "C15" || prop == "C16" {
            *t.pick(&[300, 0, 100, 600])
        } else {
            *t.pick(&[100, 0, 300, 600])
        };
        let clocky = matches!(prop, "C01" | "C02" | "C18");
        let mut tampers: Vec<M> = MS.iter().copied().filter(|_| t.chance(350)).collect();
        for m in emphasis(prop) {
            if !tampers.contains(m) {
                tampers.push(*m);
            }
        }
        Knobs {
            prop,
            weird,
            drop: rate(t, 400, &[50, 200]),
            dup: rate(t, 500, &[100, 300]),
            slow: rate(t, 500, &[100, 400]),
            misroute: rate(t, if prop == "C03" || prop == "C05" || prop == "C04" { 800 } else { 400 }, &[50, 250]),
            corrupt: rate(t, if prop == "C10" { 950 } else { 250 }, if prop == "C10" { &[300, 700, 60, 120] } else { &[30, 150] }),
            attack: rate(t, if emphasis(prop).is_empty() { 400 } else { 900 }, &[100, 400]),
            replay: rate(t, 500, &[100, 400]),
            stale: rate(t, 400, &[50, 200]),
            lost: rate(t, 300, &[30, 150]),
            rot: rate(t, if prop == "C10" { 800 } else { 200 }, &[30, 200]),
            docs: rate(t, if prop == "C06" { 900 } else { 300 }, if prop == "C06" { &[300, 700] } else { &[50, 300] }),
            crash: rate(t, 500, &[50, 200]),
            skew: rate(t, 500, &[300, 900]),
            midcall: rate(t, if clocky { 800 } else { 300 }, &[100, 600]),
            boundary: rate(t, if clocky { 950 } else { 400 }, if clocky { &[400, 800] } else { &[100, 400] }),
            missing: rate(t, if prop == "C09" { 950 } else { 150 }, if prop == "C09" { &[300, 600] } else { &[30, 100] }),
            rollout: rate(t, 400, &[100, 400]),
            rotate: rate(t, if prop == "C06" { 800 } else { 300 }, &[100, 400]),
            probes: if calm { 2 } else { t.range(2, 10) },
            storm: rate(t, if matches!(prop, "C03" | "C04" | "C05" | "C06" | "C08" | "C17") { 900 } else { 150 }, &[200, 500]),
            tampers,
        }
    }
    fn describe(&self) -> Value {
        json!({"weird": self.weird, "drop": self.drop, "dup": self.dup, "slow": self.slow, "misroute": self.misroute, "corrupt": self.corrupt, "attack": self.attack,
            "replay": self.replay, "stale": self.stale, "lost": self.lost, "rot": self.rot, "docs": self.docs, "crash": self.crash, "skew": self.skew,
            "midcall": self.midcall, "boundary": self.boundary, "missing": self.missing, "storm": self.storm, "rollout": self.rollout, "rotate": self.rotate,
            "tampers": self.tampers.iter().map(|m| m.name()).collect::<Vec<_>>()})
    }
}

impl<'t> World<'t> {
    pub fn new(t: &'t mut Tape, prop: &'static str, tracing: bool) -> Self {
        let k = Knobs::draw(t, prop);
        let now = base_time(t, k.weird);
        let mut w = World {
            t,
            k,
            now,
            seq: 0,
            q: BTreeMap::new(),
            n: 0,
            issuers: vec![],
            nodes: vec![],
            wallets: vec![],
            sessions: vec![],
            store: BTreeMap::new(),
            signed: BTreeMap::new(),
            issued: vec![],
            captured: vec![],
            sigs: vec![],
            healed: false,
            step: 0,
            ihash: 0xcbf2_9ce4_8422_2325,
            tracing,
            trace: vec![],
            found: vec![],
            recs: vec![],
            doc_ok: true,
            st: Stats::default(),
        };
        w.build();
        w
    }

    fn fault(&mut self, k: &'static str) {
        *self.st.faults.entry(k).or_default() += 1;
        if self.tracing {
            self.trace.push(json!({"step": self.step, "fault": k}));
        }
    }

    /// does this fault fire now? never once faults have stopped
    fn fires(&mut self, rate: u32, k: &'static str) -> bool {
        let y = !self.healed && self.t.chance(rate);
        if y {
            self.fault(k);
        }
        y
    }

    fn note(&mut self, v: Value) {
        if self.tracing {
            self.trace.push(v);
        }
    }

    fn at(&mut self, delay: i128, e: Ev) {
        self.seq += 1;
        self.q.insert((self.now + delay, self.seq), e);
    }

    // ------------------------------------------------------------ set-up

    fn build(&mut self) {
        let weird = self.k.weird;
        let ni = self.t.range(1, 2) as usize;
        for i in 0..ni {
            let url = if i > 0 && self.t.chance(400) {
                let u = self.issuers[0].url.clone();
                gen::near(self.t, &u)
            } else {
                gen::issuer_url(self.t, i, weird)
            };
            self.issuers.push(Issuer { url, metas: 0 });
            self.rollout(i, false);
            for _ in 0..self.t.range(1, 2) {
                let skew = if self.t.chance(self.k.skew) { self.skew() } else { 0 };
                let zone = if self.t.chance(400) { self.t.below(seam::ZONES.len() as u32) as usize } else { 0 };
                if zone > 0 {
                    self.fault("replica in another time zone");
                }
                self.nodes.push(Node { issuer: i, skew, zone, up: true, cut_until: i128::MIN, epoch: 0 });
            }
        }
        let nw = self.t.range(1, 3) as usize;
        for i in 0..nw {
            let did = if i > 0 && self.t.chance(300) {
                let d = self.wallets[0].did.clone();
                did_near(self.t, &d)
            } else {
                gen::did(self.t, i, weird)
            };
            // a DID belongs to one subject
            let did = if self.wallets.iter().any(|w| w.did == did) { format!("{did}{i}") } else { did };
            let form = self.t.below(gen::HONEST);
            let list = self.t.below(model::VM_LISTS.len() as u32);
            let relative = self.t.chance(250);
            let frag = if self.t.chance(weird / 2) { (*self.t.pick(&["k", "0", "z6Mk.a-b_c", "keys-1", "KEY", "key-1%20"])).to_owned() } else { "key-1".to_owned() };
            let seed = u64::from(self.t.below(1 << 20)) + ((i as u64) << 32);
            // identifiers that spell out a key of their subject
            let (did, frag) = match self.t.chance(60).then(|| self.t.below(3)) {
                Some(f @ (0 | 1)) => {
                    let j = gen::vm([0, 3][f as usize], "", "", &gen::key_bytes(seed))["publicKeyJwk"].to_string();
                    (format!("did:jwk:{}", util::b64(j.as_bytes())), "0".to_owned())
                }
                Some(_) => {
                    let m = gen::vm(2, "", "", &gen::key_bytes(seed))["publicKeyMultibase"].as_str().unwrap_or("z").to_owned();
                    (format!("did:key:{m}"), m)
                }
                None => (did, frag),
            };
            let skew = if self.t.chance(self.k.skew) { self.skew() } else { 0 };
            self.wallets.push(Wallet { did, keys: vec![gen::key_bytes(seed)], cur: 0, form, list, relative, frag, skew });
        }
        let ns = self.t.range(1, 3) as usize;
        for s in 0..ns {
            let sess = self.session(s);
            self.sessions.push(sess);
            let d = i128::from(self.t.below(5000)) * MS_NS;
            self.at(d, Ev::Offer(s));
        }
        self.st.sessions += ns as u64;
        for _ in 0..self.k.probes {
            let d = i128::from(self.t.below(30_000)) * MS_NS;
            self.at(d, Ev::Probe);
        }
        for i in 0..self.nodes.len() {
            if self.t.chance(self.k.crash) {
                let d = i128::from(self.t.below(15_000)) * MS_NS;
                self.at(d, Ev::Crash(i));
            }
            if self.t.chance(self.k.skew) {
                let d = i128::from(self.t.below(15_000)) * MS_NS;
                self.at(d, Ev::Jump(i));
            }
            if self.t.chance(self.k.drop) {
                let d = i128::from(self.t.below(15_000)) * MS_NS;
                self.at(d, Ev::Cut(i));
            }
        }
        for i in 0..ni {
            if self.t.chance(self.k.rollout) {
                let d = i128::from(self.t.below(15_000)) * MS_NS;
                self.at(d, Ev::Rollout(i));
            }
        }
        for i in 0..nw {
            if self.t.chance(self.k.rotate) {
                let d = i128::from(self.t.below(15_000)) * MS_NS;
                self.at(d, Ev::Rotate(i));
            }
        }
        self.at(60_000 * MS_NS, Ev::Heal);
        if self.tracing {
            let v = json!({"run": {"property": self.k.prop, "start": tm::display(self.now), "knobs": self.k.describe(),
                "issuers": self.issuers.iter().map(|i| i.url.clone()).collect::<Vec<_>>(),
                "replicas": self.nodes.iter().map(|n| json!([n.issuer, n.skew.to_string()])).collect::<Vec<_>>(),
                "wallets": self.wallets.iter().map(|w| w.did.clone()).collect::<Vec<_>>(),
                "sessions": self.sessions.iter().map(|s| json!({"issuer": s.issuer, "wallet": s.wallet, "grants": s.grants, "code": s.code, "pin": s.pin,
                    "pin_required": s.pin_required, "client": s.client, "lifetime": s.life})).collect::<Vec<_>>()}});
            self.trace.push(v);
        }
    }

    fn skew(&mut self) -> i128 {
        let m = *self.t.pick(&[1_000 * MS_NS, 5 * MS_NS, 300 * NS, 86_400 * NS, NS + 1, 365 * 86_400 * NS]);
        if self.t.chance(500) {
            -m
        } else {
            m
        }
    }

    fn session(&mut self, s: usize) -> Session {
        let weird = self.k.weird;
        let issuer = self.t.below(self.issuers.len() as u32) as usize;
        let wallet = self.t.below(self.wallets.len() as u32) as usize;
        let grants = if self.t.chance(if self.k.prop == "C05" || self.k.prop == "C04" { 350 } else { 120 }) { self.t.range(1, 3) as u8 } else { 0 };
        let mut n = self.n;
        let code = if s > 0 && self.t.chance(300) {
            let c = self.sessions[0].code.clone();
            gen::near(self.t, &c)
        } else {
            gen::secret(self.t, &mut n, weird)
        };
        let pin_required = *self.t.pick(&[None, Some(false), Some(true), Some(true)]);
        let pin = if pin_required == Some(true) {
            let d = self.t.range(1, 8);
            Some(u64::from(self.t.below(100_000_000)) % 10u64.pow(d))
        } else {
            None
        };
        let client = if self.t.chance(500) {
            Some(if s > 0 && self.t.chance(300) {
                let c = self.sessions[0].client.clone().unwrap_or_else(|| "client".into());
                gen::near(self.t, &c)
            } else if self.t.chance(80) {
                self.wallets[wallet].did.clone()
            } else if self.t.chance(300) {
                // an address or a name, as registered clients have
                let id = gen::token(self.t, &mut n);
                match self.t.below(4) {
                    0 => format!("https://{id}.example.com{}", self.t.pick(&["", "/", "/app", "/Client/é", "/cb?x=1"])),
                    1 => format!("https://wallet.example.org/{id}{}", self.t.pick(&["", "/"])),
                    2 => format!("Müller & Söhne {id}"),
                    _ => format!("did:web:{id}.example.com"),
                }
            } else {
                gen::secret(self.t, &mut n, weird)
            })
        } else {
            None
        };
        let iss = match &client {
            Some(c) => Some(c.clone()),
            None if grants == 0 && self.t.chance(200) => Some(gen::secret(self.t, &mut n, weird)),
            None => None,
        };
        let endpoint = self.endpoint();
        let life = gen::lifetime(self.t, if self.k.prop == "C01" { weird.max(300) } else { weird });
        let token = gen::secret(self.t, &mut n, weird);
        let proof_type = (*self.t.pick(&[Some("jwt"), Some("JWT"), None, Some("Jwt")])).map(str::to_owned);
        let win = |t: &mut Tape, sign: i128| {
            if t.chance(300) {
                Some(sign * *t.pick(&[3600 * NS, 120 * NS, 86_400 * NS, 3650 * 86_400 * NS]))
            } else {
                None
            }
        };
        let nbf = win(self.t, -1);
        let exp = win(self.t, 1);
        let style = [self.t.below(6), self.t.below(6), self.t.below(6)];
        let shuffle = self.t.below(6);
        let extras = self.t.chance(weird);
        let nulls = self.t.chance(weird / 2);
        let old_param = self.t.chance(300);
        self.n = n;
        let mut sess = Session {
            issuer,
            wallet,
            grants,
            code,
            pin_required,
            pin,
            creds: vec![],
            ask: Value::Null,
            client,
            iss,
            endpoint,
            life,
            token,
            phase: Phase::New,
            tries: 0,
            nonce: None,
            nonces: vec![],
            old_param,
            proof_type,
            style,
            nbf,
            exp,
            shuffle,
            extras,
            nulls,
        };
        self.choose_creds(&mut sess);
        sess
    }

    fn endpoint(&mut self) -> Option<String> {
        const OTHERS: [&str; 26] = [
            "https://wallet.example.com/offer?return=/a/b",
            "https://wallet.example.com?return=/a/b",
            "https://wallet.example.com/?a=1&b=/x.y@z:1",
            "https://wallet.example.com/offer??x",
            "https://wallet.example.com/offer?x=1;y=2",
            "https://wallet.example.com/offer?=",
            "https://wallet.example.com/a=b&c=d",
            "https://wallet.example.com/offer?x=%23%3F",
            "https://wallet.example.com/offer?",
            "https://wallet.example.com/offer?flag",
            "https://wallet.example.com/offer?flag&",
            "https://wallet.example.com/offer?a=b&",
            "https://wallet.example.com/offer?next=https://x.example.com/?y",
            "https://wallet.example.com/offer?q=a+b%26c%3Dd",
            "https://wallet.example.com/offer?credential=1",
            "https://wallet.example.com/offer?credential_offer_uri=no",
            "https://wallet.example.com/v=1/offer",
            "https://wallet.example.com/a&b/offer",
            "https://wallet.example.com/offer;v=1",
            "https://wallet.example.com:8443/",
            "https://user:pw@wallet.example.com/offer",
            "https://wallet.example.com/offer%3Fx",
            "http://127.0.0.1:3000/offer",
            "https://[::1]:3000/offer?x=1",
            "openid-credential-offer://?session=4",
            "wallet:offer",
        ];
        match self.t.below(10) {
            0 | 1 => None,
            2 | 3 => Some("https://wallet.example.com/offer".to_owned()),
            4 => Some("https://wallet.example.com/offer?session=4&x=%20".to_owned()),
            5 => Some("https://wallet.example.com".to_owned()),
            6 => Some("haip://".to_owned()),
            _ => Some((*self.t.pick(&OTHERS)).to_owned()),
        }
    }

    /// the current, healthy metadata of an issuer
    fn meta_now(&self, i: usize) -> Bytes {
        self.store.get(&format!("meta:{i}")).and_then(|v| v.iter().rev().find(|x| x.1)).map(|x| x.0.clone()).unwrap_or_default()
    }

    fn choose_creds(&mut self, s: &mut Session) {
        let b = self.meta_now(s.issuer);
        let Some((m, _)) = model::jparse(&b) else { return };
        let sup = m["credentials_supported"].as_array().cloned().unwrap_or_default();
        let prof = |c: &Value| c.as_object().map(model::profile).and_then(|p| p.as_ok().cloned());
        let mut creds = vec![];
        let mut asks = vec![];
        for _ in 0..gen::crowd(self.t, 1, 3) {
            if sup.is_empty() {
                break;
            }
            let c = self.t.pick(&sup).clone();
            let Some(p) = prof(&c) else { continue };
            match c["id"].as_str() {
                Some(id) if self.t.chance(600) => creds.push(json!(id)),
                _ => creds.push(p.clone()),
            }
            asks.push(p);
        }
        if asks.is_empty() {
            let p = gen::profile(self.t, 0);
            creds.push(p.clone());
            asks.push(p);
        }
        s.creds = creds;
        s.ask = self.t.pick(&asks).clone();
    }

    fn rollout(&mut self, i: usize, faulty: bool) {
        let b = self.metadata(i, faulty);
        self.issuers[i].metas += 1;
        self.put(format!("meta:{i}"), b, !faulty);
    }

    fn metadata(&mut self, i: usize, dup: bool) -> Bytes {
        let weird = self.k.weird;
        let url = self.issuers[i].url.clone();
        let mut sup: Vec<Value> = vec![];
        let nc = if self.t.chance(100) { self.t.range(5, 12) } else { gen::crowd(self.t, 1, 4) };
        for j in 0..nc {
            let mut c = if j > 0 && self.t.chance(300) {
                // a sibling that differs in one respect
                let mut c = sup[0].clone();
                let known = Known::default();
                let mut r = ReqSpec { profile: c.clone(), proof_type: None, proof: None, extra: vec![], shuffle: 0 };
                hostile::tamper(self.t, M::Profile, &mut r, 0, &known);
                if r.profile.as_object().map(model::profile).and_then(|p| p.as_ok().cloned()).is_some() && fits(&r.profile) {
                    c = r.profile;
                }
                c
            } else {
                gen::profile(self.t, weird)
            };
            let o = c.as_object_mut().unwrap();
            o.remove("id");
            if o["format"] == "jwt_vc_json-ld" && self.t.chance(150) {
                o.insert("@context".into(), json!(["https://www.w3.org/2018/credentials/v1"]));
            }
            if dup || self.t.chance(800) {
                let mut n = self.n;
                let used: Vec<String> = sup.iter().filter_map(|c| c["id"].as_str().map(str::to_owned)).collect();
                let like = if !used.is_empty() && self.t.chance(150) {
                    // an id that differs from an earlier one by little
                    let of = self.t.pick(&used).clone();
                    Some(gen::near(self.t, &of)).filter(|x| !used.contains(x))
                } else {
                    None
                };
                let id = like.unwrap_or_else(|| {
                    let id = gen::secret(self.t, &mut n, weird);
                    format!("{id}~{j}")
                });
                let id = json!(id);
                self.n = n;
                o.insert("id".into(), id);
            }
            if self.t.chance(400) {
                o.insert("cryptographic_binding_methods_supported".into(), json!(["did", gen::text(self.t, weird)]));
            }
            if self.t.chance(300) {
                o.insert("cryptographic_suites_supported".into(), json!(["EdDSA", gen::text(self.t, weird)]));
            }
            if self.t.chance(300) {
                o.insert(
                    "display".into(),
                    json!([{"name": gen::text(self.t, weird), "locale": "en-US", "logo": {"url": gen::text(self.t, weird), "alt_text": gen::text(self.t, weird)},
                        "description": gen::text(self.t, weird), "background_color": "#12107c", "text_color": "#FFFFFF"}]),
                );
            }
            sup.push(c);
        }
        if dup {
            if sup.len() < 2 {
                sup.push(sup[0].clone());
            }
            // one id twice: anywhere, or everywhere
            let n = sup.len() as u32;
            let a = self.t.below(n);
            let b = (a + 1 + self.t.below(n - 1)) % n;
            let all = self.t.chance(200);
            let odd = self.t.chance(150);
            let id = if odd { json!(*self.t.pick(&["", " ", "0", "null", "UniversityDegree_JWT", "VerifiableCredential", "did:x", "https://x/y", "é"])) } else { sup[a as usize]["id"].clone() };
            for (j, c) in sup.iter_mut().enumerate() {
                if all || j as u32 == b || (odd && j as u32 == a) {
                    c["id"] = id.clone();
                }
            }
        }
        let mut m = Map::new();
        m.insert("credential_issuer".into(), json!(url));
        m.insert("credential_endpoint".into(), json!(format!("{url}/credential")));
        m.insert("credentials_supported".into(), json!(sup));
        if self.t.chance(400) {
            m.insert("authorization_server".into(), json!(gen::text(self.t, weird)));
        }
        if self.t.chance(300) {
            m.insert("batch_credential_endpoint".into(), json!(format!("{url}/batch")));
        }
        if self.t.chance(300) {
            m.insert("x_custom".into(), json!({"a": [1, gen::text(self.t, weird)], "b": null}));
        }
        if self.t.chance(200) {
            m.insert("display".into(), json!([{"name": gen::text(self.t, weird), "locale": "de"}]));
        }
        serde_json::to_vec(&Value::Object(m)).unwrap()
    }

    // ------------------------------------------------------------ durable store

    fn put(&mut self, key: String, b: Bytes, healthy: bool) {
        self.store.entry(key).or_default().push((b, healthy));
    }

    fn write(&mut self, key: String, b: Bytes) {
        if self.fires(self.k.lost, "lost write") {
            return;
        }
        if self.fires(self.k.lost, "torn write") {
            let n = self.t.below(b.len() as u32 + 1) as usize;
            self.put(key, b[..n].to_vec(), false);
            return;
        }
        if self.fires(self.k.rot, "bit rot") {
            let g = if self.t.chance(500) { hostile::garble(self.t, &b) } else { hostile::reshape(self.t, &b) };
            self.put(key, g, false);
            return;
        }
        self.put(key, b, true);
    }

    /// the record and whether it is as written
    fn read(&mut self, key: &str) -> (Option<Bytes>, bool) {
        let n = self.store.get(key).map_or(0, Vec::len);
        if n == 0 {
            return (None, true);
        }
        let mut i = n - 1;
        if n > 1 && self.fires(self.k.stale, "stale read") {
            i = self.t.below(n as u32 - 1) as usize;
        }
        let (b, ok) = self.store[key][i].clone();
        (Some(b), ok)
    }

    // ------------------------------------------------------------ calls

    fn clock_of(&mut self, node: usize) -> ClockSetting {
        let at = (self.now + self.nodes[node].skew).clamp(0, tm::MAX_NS);
        ClockSetting { at, moves: vec![], zone: self.nodes[node].zone, env: false }
    }

    fn midcall(&mut self, c: &mut ClockSetting, around: &[i128]) {
        if self.fires(self.k.midcall, "clock moves during a call") {
            for _ in 0..self.t.range(1, 4) {
                let mv = if !around.is_empty() && self.t.chance(500) {
                    let tgt = *self.t.pick(around) + hostile::delta(self.t);
                    tgt - c.at
                } else {
                    hostile::delta(self.t)
                };
                c.moves.push(mv.clamp(-tm::MAX_NS / 2, tm::MAX_NS / 2));
            }
            // stay in what the clock can show
            let mut v = c.at;
            for m in &mut c.moves {
                let nv = (v + *m).clamp(0, tm::MAX_NS);
                *m = nv - v;
                v = nv;
            }
        }
    }

    fn call(&mut self, call: Call, clock: ClockSetting, clean: bool) -> (Out, Interval) {
        self.step += 1;
        seam::set_mono(self.now);
        let (out, iv) = exec(&call, &clock, false);
        let label = format!("{}: {}", call.name(), out.label());
        *self.st.calls.entry(call.name()).or_default() += 1;
        util::fnv(&mut self.ihash, label.as_bytes());
        let mut r = Report(vec![]);
        oracle::check(&mut r, &call, &out, &iv, clean);
        // the same call after a crash that lost everything but the stored forms
        let (again, iv2) = exec(&call, &clock, true);
        if !matches!(out, Out::Undecodable(..) | Out::Panic(_)) {
            let mut r2 = Report(vec![]);
            match &again {
                Out::Undecodable(..) | Out::Panic(_) => oracle::check(&mut r2, &call, &again, &iv2, clean),
                _ => {}
            }
            r.0.append(&mut r2.0);
            let (a, b) = (oracle::norm(&out), oracle::norm(&again));
            if a != b && !matches!(again, Out::Undecodable(..) | Out::Panic(_)) {
                r.add(
                    &["C11"],
                    format!("{}: outcome changes when the inputs were persisted and read back", call.name()),
                    format!("{} then {}", brief(&a), brief(&b)),
                );
            }
        }
        if self.tracing {
            self.trace.push(json!({"step": self.step, "call": describe_call(&call), "clock": clock_text(&clock), "outcome": brief(&out)}));
        }
        *self.st.labels.entry(label).or_default() += 1;
        for v in r.0 {
            self.found.push(Found { step: self.step, v });
        }
        if self.recs.len() < 64 {
            self.recs.push(Rec { call, clock, out: oracle::norm(&out), reads: iv.reads });
        }
        (out, iv)
    }

    fn viol(&mut self, props: &[&'static str], kind: &str, detail: String) {
        let mut r = Report(vec![]);
        r.add(props, kind, detail);
        for v in r.0 {
            self.found.push(Found { step: self.step, v });
        }
    }

    // ------------------------------------------------------------ network

    /// hands a message to the network
    fn send(&mut self, e: Ev) {
        if self.fires(self.k.drop, "message lost") {
            return;
        }
        let mut d = i128::from(self.t.range(1, 50)) * MS_NS;
        if self.fires(self.k.slow, "message delayed") {
            d = i128::from(self.t.range(1, 60_000)) * MS_NS * 2;
        }
        let mut e = e;
        if self.fires(self.k.misroute, "message misdelivered") {
            let n = self.sessions.len() as u32;
            let x = self.t.below(n) as usize;
            match &mut e {
                Ev::TokenReq { route, .. } | Ev::CredReq { route, .. } => *route = x,
                Ev::Link { s, .. } | Ev::TokenResp { s, .. } | Ev::CredResp { s, .. } => *s = x,
                _ => {}
            }
        }
        if self.fires(self.k.corrupt, "message corrupted") {
            let shape = self.t.chance(600);
            let t = &mut *self.t;
            let mut bad = |b: &mut Bytes| *b = if shape { hostile::reshape(t, b) } else { hostile::garble(t, b) };
            match &mut e {
                Ev::TokenReq { b, clean, .. } | Ev::CredReq { b, clean, .. } => {
                    bad(b);
                    *clean = false;
                }
                Ev::TokenResp { b, .. } | Ev::CredResp { b, .. } => bad(b),
                Ev::Link { link, .. } => {
                    let mut b = link.clone().into_bytes();
                    bad(&mut b);
                    *link = util::lossy(&b);
                }
                _ => {}
            }
        }
        if self.fires(self.k.dup, "message duplicated") {
            let d2 = i128::from(self.t.range(1, 20_000)) * MS_NS;
            self.at(d2, e.clone());
        }
        self.at(d, e);
    }

    /// a replica of the issuer that can be reached
    fn replica(&mut self, issuer: usize) -> Option<usize> {
        let now = self.now;
        let c: Vec<usize> = (0..self.nodes.len()).filter(|i| self.nodes[*i].issuer == issuer && self.nodes[*i].up && self.nodes[*i].cut_until <= now).collect();
        if c.is_empty() {
            None
        } else {
            Some(*self.t.pick(&c))
        }
    }

    // ------------------------------------------------------------ main loop

    pub fn run(&mut self) {
        let start = self.now;
        let mut events = 0;
        while let Some((&(at, seq), _)) = self.q.iter().next() {
            let e = self.q.remove(&(at, seq)).unwrap();
            self.now = self.now.max(at);
            events += 1;
            if events > 400 {
                break;
            }
            util::fnv(&mut self.ihash, e.name().as_bytes());
            if self.tracing {
                let mut v = json!({"at": tm::display(self.now), "event": e.name()});
                match &e {
                    Ev::Offer(s) | Ev::Retry(s) | Ev::Link { s, .. } | Ev::TokenResp { s, .. } | Ev::CredResp { s, .. } => v["session"] = json!(s),
                    Ev::TokenReq { route, .. } | Ev::CredReq { route, .. } | Ev::Resolved { route, .. } => v["session"] = json!(route),
                    Ev::Crash(n) | Ev::Restart(n) | Ev::Jump(n) | Ev::Cut(n) => v["replica"] = json!(n),
                    _ => {}
                }
                self.trace.push(v);
            }
            self.handle(e);
            let mut st = 7u64;
            for s in &self.sessions {
                util::fnv(&mut st, &[s.phase as u8, s.grants, s.tries.min(9) as u8]);
            }
            for n in &self.nodes {
                util::fnv(&mut st, &[u8::from(n.up), u8::from(n.cut_until > self.now), u8::from(n.skew > 0), u8::from(n.skew < 0), n.epoch.min(3) as u8]);
            }
            util::fnv(&mut st, &[u8::from(self.healed), self.q.len().min(30) as u8]);
            self.st.states.insert(st);
            if self.found.len() > 200 {
                break;
            }
        }
        self.st.events = events;
        self.st.sim_ns = self.now - start;
        self.st.interleaving = self.ihash;
    }

    fn handle(&mut self, e: Ev) {
        match e {
            Ev::Offer(s) => self.create_offer(s),
            Ev::Link { s, link } => self.on_link(s, &link),
            Ev::TokenReq { route, b, clean } => self.on_token(route, b, clean),
            Ev::TokenResp { s, b, ok } => self.on_token_resp(s, &b, ok),
            Ev::CredReq { route, b, clean } => self.on_cred(route, b, clean),
            Ev::Resolved { node, epoch, route, b, clean, doc } => self.on_resolved(node, epoch, route, b, clean, doc),
            Ev::CredResp { s, b, ok } => self.on_cred_resp(s, &b, ok),
            Ev::Retry(s) => self.retry(s),
            Ev::Crash(n) => {
                if !self.healed {
                    self.fault("replica crash");
                    self.nodes[n].up = false;
                    self.nodes[n].epoch += 1;
                    let d = i128::from(self.t.range(1, 5000)) * MS_NS;
                    self.at(d, Ev::Restart(n));
                }
            }
            Ev::Restart(n) => self.nodes[n].up = true,
            Ev::Jump(n) => {
                if !self.healed {
                    self.fault("clock jump");
                    self.nodes[n].skew += self.skew();
                }
            }
            Ev::Cut(n) => {
                if !self.healed {
                    self.fault("partition");
                    self.nodes[n].cut_until = self.now + i128::from(self.t.range(1, 20_000)) * MS_NS;
                }
            }
            Ev::Rollout(i) => {
                if !self.healed {
                    self.fault("metadata rollout");
                    let bad = self.t.chance(300);
                    if bad {
                        self.fault("bad metadata rollout");
                    }
                    self.rollout(i, bad);
                }
            }
            Ev::Rotate(w) => {
                if !self.healed {
                    self.fault("wallet key rotation");
                    let seed = u64::from(self.t.below(1 << 20)) + (77 << 40);
                    self.wallets[w].keys.push(gen::key_bytes(seed));
                    if self.t.chance(500) {
                        self.wallets[w].cur = self.wallets[w].keys.len() - 1;
                    } else {
                        // same key id, new key
                        let k = self.wallets[w].keys.pop().unwrap();
                        let c = self.wallets[w].cur;
                        self.wallets[w].keys[c] = k;
                    }
                }
            }
            Ev::Probe => self.probe(),
            Ev::Heal => self.heal(),
        }
    }

    // ------------------------------------------------------------ issuer: offers

    fn pre_grant(&self, s: usize) -> Value {
        let s = &self.sessions[s];
        let mut g = json!({"pre-authorized_code": s.code});
        if let Some(r) = s.pin_required {
            g["user_pin_required"] = json!(r);
        }
        g
    }

    fn make_offer(&mut self, s: usize, node: usize) -> Option<(Bytes, String)> {
        let i = self.sessions[s].issuer;
        let creds = serde_json::to_vec(&self.sessions[s].creds).unwrap();
        if self.sessions[s].grants == 0 {
            let (meta, ok) = self.read(&format!("meta:{i}"));
            let ids = self.sessions[s].creds.iter().all(Value::is_string) || self.sessions[s].creds.iter().all(Value::is_object);
            let form = if ids { self.t.below(4) as u8 } else { *self.t.pick(&[0u8, 3]) };
            let pre = serde_json::to_vec(&self.pre_grant(s)).unwrap();
            let c = self.clock_of(node);
            let call = Call::CreateOffer { meta: meta.unwrap_or_default(), creds, form, endpoint: self.sessions[s].endpoint.clone(), auth: None, pre: Some(pre) };
            let (out, _) = self.call(call, c, ok);
            let o = out.ok()?;
            Some((o["offer"].to_string().into_bytes(), o["link"].as_str().unwrap_or("").to_owned()))
        } else {
            let g = self.sessions[s].grants;
            let issuer = self.issuers[i].url.clone();
            let auth = (g == 1 || g == 2).then(|| Some("state".to_owned()));
            let pre = (g == 1).then(|| (self.sessions[s].code.clone(), self.sessions[s].pin_required));
            let c = self.clock_of(node);
            let (out, _) = self.call(Call::Persist(Mem::Offer { issuer, creds, auth, pre }), c, true);
            let b = out.ok()?["stored"].to_string();
            let link = format!("openid-credential-offer://?credential_offer={}", pct(&b));
            Some((b.into_bytes(), link))
        }
    }

    fn create_offer(&mut self, s: usize) {
        let Some(node) = self.replica(self.sessions[s].issuer) else {
            self.at(500 * MS_NS, Ev::Retry(s));
            return;
        };
        let Some((offer, link)) = self.make_offer(s, node) else {
            self.later(s);
            return;
        };
        self.write(format!("offer:{s}"), offer);
        if let Some(p) = self.sessions[s].pin {
            self.write(format!("pin:{s}"), json!({ "expected_user_pin": p }).to_string().into_bytes());
        }
        self.send(Ev::Link { s, link });
        self.later(s);
    }

    /// wallet-side patience
    fn later(&mut self, s: usize) {
        self.sessions[s].tries += 1;
        if self.sessions[s].tries <= 6 {
            let d = i128::from(self.t.range(500, 8000)) * MS_NS;
            self.at(d, Ev::Retry(s));
        }
    }

    fn retry(&mut self, s: usize) {
        if self.healed {
            return;
        }
        match self.sessions[s].phase {
            Phase::Done => {}
            Phase::New => self.create_offer(s),
            Phase::Offered => {
                self.ask_token(s);
                self.later(s);
            }
            Phase::Token | Phase::Asked => {
                self.ask_cred(s);
                self.later(s);
            }
        }
    }

    // ------------------------------------------------------------ wallet

    fn on_link(&mut self, s: usize, link: &str) {
        let q = link.split_once('?').map_or_else(|| link.strip_prefix("openid-credential-offer://").unwrap_or(""), |x| x.1);
        let Some(v) = q.split('&').find_map(|p| p.strip_prefix("credential_offer=")) else { return };
        let Some(d) = util::percent_decode(v, true) else { return };
        let c = self.wallet_clock(s);
        let (out, _) = self.call(Call::Persist(Mem::Bytes { kind: 4, bytes: d.into_bytes() }), c, false);
        if out.ok().is_none() {
            return;
        }
        if matches!(self.sessions[s].phase, Phase::New) {
            self.sessions[s].phase = Phase::Offered;
        }
        self.ask_token(s);
    }

    fn wallet_clock(&mut self, s: usize) -> ClockSetting {
        let w = self.sessions[s].wallet;
        ClockSetting { at: (self.now + self.wallets[w].skew).clamp(0, tm::MAX_NS), moves: vec![], ..ClockSetting::default() }
    }

    fn token_body(&self, s: usize, code: &str, pin: Option<u64>) -> Bytes {
        let mut g = json!({"grant_type": model::PRE});
        let k = if self.sessions[s].old_param { "pre_authorized_code" } else { "pre-authorized_code" };
        g[k] = json!(code);
        if let Some(p) = pin {
            g["user_pin"] = json!(p);
        }
        json!({ "grant_type": g }).to_string().into_bytes()
    }

    /// the members of a token request left out, written twice over or as other types
    fn odd_token_body(&mut self, code: &str, pin: Option<u64>) -> Bytes {
        let mut g = json!({"grant_type": model::PRE});
        let k = *self.t.pick(&["pre-authorized_code", "pre_authorized_code"]);
        let names = [k, "pre-authorised_code", "preAuthorizedCode", "code", "pre-authorized-code", "Pre-Authorized_Code", "authorization_code"];
        match self.t.below(12) {
            0 | 1 => {}
            2 => g[k] = Value::Null,
            3 => g[k] = json!([code]),
            4 => g[k] = json!({ "code": code }),
            5 => g[*self.t.pick(&names[1..])] = json!(code),
            6 => {
                let other = gen::near(self.t, code);
                g["pre-authorized_code"] = json!(code);
                g["pre_authorized_code"] = json!(if self.t.chance(500) { other } else { code.to_owned() });
            }
            7 => {
                // both spellings, neither the one of the offer
                g["pre-authorized_code"] = json!(gen::near(self.t, code));
                g["pre_authorized_code"] = json!(gen::near(self.t, code));
            }
            8 => g[k] = code.parse::<u64>().map_or(json!(0), |n| json!(n)),
            _ => g[k] = json!(code),
        }
        let p = pin.unwrap_or(0);
        match self.t.below(12) {
            0 => g["user_pin"] = Value::Null,
            1 => g["user_pin"] = json!(p.to_string()),
            2 => g["user_pin"] = json!(format!("{p:08}")),
            3 => g["user_pin"] = json!([p]),
            4 => g["user_pin"] = json!((p & 0xfff_ffff) as f64),
            5 => g["user_pin"] = json!((p & 0xfff_ffff) as f64 + 0.5),
            6 => g["user_pin"] = json!(-((p & 0xfff_ffff) as i64)),
            7 => g["user_pin"] = json!(pin.is_some()),
            8 => g["user_pin"] = json!(""),
            9 => g[*self.t.pick(&["pin", "userPin", "tx_code"])] = json!(p),
            _ => {
                if let Some(p) = pin {
                    g["user_pin"] = json!(p);
                }
            }
        }
        if self.t.chance(100) {
            return g.to_string().into_bytes();
        }
        json!({ "grant_type": g }).to_string().into_bytes()
    }

    fn ask_token(&mut self, s: usize) {
        let (code, pin) = (self.sessions[s].code.clone(), self.sessions[s].pin);
        let b = self.token_body(s, &code, pin);
        self.send(Ev::TokenReq { route: s, b, clean: true });
    }

    fn proof(&mut self, s: usize, nonce: &str) -> ReqSpec {
        let se = &self.sessions[s];
        let w = &self.wallets[se.wallet];
        let now = (self.now + w.skew).clamp(0, tm::MAX_NS);
        let clip = |x: i128| x.clamp(0, tm::MAX_NS);
        // whole seconds and binary fractions can be written as numbers
        let now = now - now.rem_euclid(NS / 512);
        let kid = format!("{}#{}{}", w.did, w.frag, if w.cur == 0 { String::new() } else { format!("-{}", w.cur) });
        let mut p = ProofSpec {
            typ: (if se.extras { ["openid4vci-proof+jwt", "openid4vci-proof+JWT", "OpenID4VCI-Proof+jwt"][se.shuffle as usize % 3] } else { "openid4vci-proof+jwt" }).into(),
            alg: "EdDSA".into(),
            key: vec![("kid".into(), json!(kid))],
            iss: se.iss.clone(),
            aud: self.issuers[se.issuer].url.clone(),
            sub: match se.shuffle {
                1 => Some(w.did.clone()),
                2 => Some("did:example:another-subject".into()),
                3 => se.iss.clone(),
                4 if se.extras => Some(String::new()),
                _ => None,
            },
            iat: if se.shuffle % 2 == 0 { now - now.rem_euclid(NS) } else { now },
            nonce: nonce.to_owned(),
            nbf: se.nbf.map(|d| clip(now + d)),
            exp: se.exp.map(|d| clip(now + d)),
            style: se.style,
            extra_header: vec![],
            extra_body: vec![],
            shuffle: se.shuffle,
            sig: None,
            tail: vec![],
            nulls: se.nulls,
            raw_iat: None,
            put: vec![],
        };
        if se.extras {
            p.extra_header.push(("cty".into(), json!("x.y")));
            p.extra_body.push(("jti".into(), json!("a.b.c")));
            p.extra_body.push(("vp".into(), json!({"x": [1.5, null]})));
            p.sub = p.sub.or_else(|| Some("s.u.b".into()));
        }
        let canon = p.canon();
        let sig = gen::sign(&w.keys[w.cur], &canon);
        p.sig = Some(sig.clone());
        let extra = if se.extras { vec![("x_extension".to_owned(), json!({"a": 1}))] } else { vec![] };
        let r = ReqSpec { profile: se.ask.clone(), proof_type: se.proof_type.clone(), proof: Some(p), extra, shuffle: se.shuffle };
        self.signed.insert(canon, s);
        self.sigs.push(sig);
        r
    }

    fn ask_cred(&mut self, s: usize) {
        let Some(nonce) = self.sessions[s].nonce.clone() else {
            self.ask_token(s);
            return;
        };
        let r = self.proof(s, &nonce);
        self.sessions[s].phase = Phase::Asked;
        if self.captured.len() < 12 {
            self.captured.push((s, r.clone()));
        }
        // the path to the issuer
        if self.fires(self.k.attack, "request tampered with on the path") {
            let mut x = r.clone();
            self.mangle(&mut x);
            self.send(Ev::CredReq { route: s, b: x.bytes(), clean: false });
            if self.t.chance(500) {
                return;
            }
        }
        if !self.captured.is_empty() && self.fires(self.k.replay, "captured request replayed") {
            let (from, x) = self.t.pick(&self.captured).clone();
            let to = if self.t.chance(600) { self.t.below(self.sessions.len() as u32) as usize } else { from };
            let mut x = x;
            if self.t.chance(300) {
                self.mangle(&mut x);
            }
            let d = i128::from(self.t.range(1, 30_000)) * MS_NS;
            self.at(d, Ev::CredReq { route: to, b: x.bytes(), clean: false });
        }
        self.send(Ev::CredReq { route: s, b: r.bytes(), clean: true });
    }

    fn known(&self) -> Known {
        let mut k = Known { sigs: self.sigs.clone(), ..Known::default() };
        for s in &self.sessions {
            k.nonces.extend(s.nonces.iter().cloned());
            k.codes.push(s.code.clone());
            k.clients.extend(s.client.iter().cloned());
            k.profiles.push(s.ask.clone());
        }
        for w in &self.wallets {
            k.dids.push(w.did.clone());
            k.kids.push(format!("{}#{}", w.did, w.frag));
        }
        for i in 0..self.issuers.len() {
            k.issuers.push(self.issuers[i].url.clone());
            if let Some((m, _)) = model::jparse(&self.meta_now(i)) {
                // the other addresses the issuer is known by
                for f in ["credential_endpoint", "authorization_server", "batch_credential_endpoint"] {
                    k.issuers.extend(m[f].as_str().map(str::to_owned));
                }
                for c in m["credentials_supported"].as_array().into_iter().flatten() {
                    if let Some(pr) = c.as_object().map(model::profile).and_then(|p| p.as_ok().cloned()) {
                        k.profiles.push(pr);
                    }
                }
            }
        }
        // values that belong elsewhere
        k.strays.extend(k.nonces.iter().chain(&k.codes).chain(&k.clients).chain(&k.dids).chain(&k.kids).chain(&k.issuers).cloned());
        for (_, _, at, life) in &self.issued {
            k.deadlines.push(*at + i128::from(*life) * NS);
            k.deadlines.push(*at);
        }
        k
    }

    fn mangle(&mut self, r: &mut ReqSpec) {
        let k = self.known();
        let n = if self.t.chance(250) { 2 } else { 1 };
        for _ in 0..n {
            let em = emphasis(self.k.prop);
            let m = if !em.is_empty() && self.t.chance(700) {
                *self.t.pick(em)
            } else if self.k.tampers.is_empty() {
                *self.t.pick(&MS)
            } else {
                *self.t.pick(&self.k.tampers)
            };
            if !self.healed {
                self.fault(m.name());
            }
            hostile::tamper(self.t, m, r, self.now, &k);
        }
        // an attacker with a key of their own signs what they send
        if self.t.chance(200) {
            if let Some(p) = &mut r.proof {
                if p.sig.is_some() {
                    p.sig = Some(gen::sign(b"attacker", &p.canon()));
                }
            }
        }
    }

    // ------------------------------------------------------------ issuer: tokens

    fn on_token(&mut self, route: usize, b: Bytes, clean: bool) {
        let Some(node) = self.replica(self.sessions[route].issuer) else { return };
        let (mut offer, ok1) = self.read(&format!("offer:{route}"));
        let (mut opts, ok2) = self.read(&format!("pin:{route}"));
        if self.fires(self.k.missing, "offer not supplied") {
            offer = None;
        }
        if self.fires(self.k.missing, "pin record not supplied") {
            opts = None;
        }
        let mut c = self.clock_of(node);
        self.midcall(&mut c, &[]);
        let call = Call::Token { req: b.clone(), offer, opts };
        let (out, _) = self.call(call.clone(), c.clone(), clean && ok1 && ok2);
        if out.ok().is_some() && self.fires(self.k.storm, "variants of an accepted request") {
            self.token_storm(route, &call, &c);
        }
        match out {
            Out::Ok(_) => {
                let v = model::token_req(&b);
                if let model::P::Ok(model::TokenReqView::Pre { code, pin }) = v {
                    let s = &self.sessions[route];
                    if ok1 && ok2 && (code != s.code || (s.pin_required == Some(true) && pin != s.pin)) {
                        let d = format!("session {route} has code {:?} pin {:?}; granted for {code:?} {pin:?}", s.code, s.pin);
                        self.viol(&["C05"], "history: token granted for another code or PIN", d);
                    }
                }
                self.grant(route, node);
            }
            Out::Err(_) | Out::Undecodable(..) => {
                let c = self.clock_of(node);
                let code = self.t.below(8) as u8;
                let (out, _) = self.call(Call::TokenErr { code, desc: Some("refused".into()), uri: None, details: None }, c, true);
                if let Some(o) = out.ok() {
                    let b = o["wire"].as_str().unwrap_or("").as_bytes().to_vec();
                    self.send(Ev::TokenResp { s: route, b, ok: false });
                }
            }
            Out::Panic(_) => {}
        }
    }

    fn fresh_nonce(&mut self) -> String {
        let mut n = self.n;
        let olds: Vec<String> = self.issued.iter().map(|x| x.0.clone()).collect();
        let x = if !olds.is_empty() && self.t.chance(250) {
            let o = self.t.pick(&olds).clone();
            gen::near(self.t, &o)
        } else {
            gen::secret(self.t, &mut n, self.k.weird)
        };
        self.n = n;
        if self.issued.iter().any(|i| i.0 == x) {
            self.n += 1;
            return format!("{x}{}", self.n);
        }
        x
    }

    fn record_nonce(&mut self, s: usize, node: usize, nonce: &str, life: u32, at: i128) {
        let c = self.clock_of(node);
        let m = Mem::Opts { c_nonce: Some((life, nonce.to_owned(), at)), client_id: self.sessions[s].client.clone() };
        let (out, _) = self.call(Call::Persist(m), c, true);
        if let Some(o) = out.ok().filter(|o| !o.is_null()) {
            let b = o["stored"].to_string().into_bytes();
            self.write(format!("nonce:{s}"), b);
        }
        self.issued.push((nonce.to_owned(), s, at, life));
    }

    fn grant(&mut self, s: usize, node: usize) {
        let nonce = self.fresh_nonce();
        let life = self.sessions[s].life;
        let mut c = self.clock_of(node);
        self.midcall(&mut c, &[]);
        let call = Call::TokenOk {
            token: self.sessions[s].token.clone(),
            expires_in: if self.t.chance(500) { Some(gen::lifetime(self.t, self.k.weird)) } else { None },
            scope: None,
            c_nonce: Some(nonce.clone()),
            c_nonce_expires_in: Some(life),
            pending: if self.t.chance(200) { Some(false) } else { None },
            interval: None,
        };
        let (out, _) = self.call(call, c, true);
        let Some(o) = out.ok() else { return };
        let Some(at) = t_back(&o["at"]) else { return };
        let b = o["wire"].as_str().unwrap_or("").as_bytes().to_vec();
        self.record_nonce(s, node, &nonce, life, at);
        self.send(Ev::TokenResp { s, b, ok: true });
    }

    fn on_token_resp(&mut self, s: usize, b: &[u8], ok: bool) {
        if !ok {
            return;
        }
        let c = self.wallet_clock(s);
        let (out, _) = self.call(Call::Persist(Mem::Bytes { kind: 6, bytes: b.to_vec() }), c, false);
        let Some(o) = out.ok() else { return };
        let Some(n) = o["stored"]["c_nonce"].as_str().map(str::to_owned) else { return };
        self.sessions[s].nonces.push(n.clone());
        self.sessions[s].nonce = Some(n);
        if self.sessions[s].phase != Phase::Done {
            self.sessions[s].phase = Phase::Token;
            self.ask_cred(s);
        }
    }

    // ------------------------------------------------------------ issuer: credentials

    fn on_cred(&mut self, route: usize, b: Bytes, clean: bool) {
        let Some(node) = self.replica(self.sessions[route].issuer) else { return };
        let c = self.clock_of(node);
        let (out, _) = self.call(Call::Pre { req: b.clone() }, c, clean);
        let did = match &out {
            Out::Ok(o) => o["did"].as_str().map(str::to_owned),
            _ => {
                self.refuse(route, node, 4);
                return;
            }
        };
        self.doc_ok = true;
        let doc = match did {
            Some(d) => self.resolve(&d),
            None => None,
        };
        let clean = clean && self.doc_ok;
        if self.fires(self.k.crash / 2, "replica crash between pre-evaluation and evaluation") {
            self.nodes[node].up = false;
            self.nodes[node].epoch += 1;
            let d = i128::from(self.t.range(1, 3000)) * MS_NS;
            self.at(d, Ev::Restart(node));
        }
        let epoch = self.nodes[node].epoch;
        let mut d = i128::from(self.t.range(1, 100)) * MS_NS;
        if self.fires(self.k.slow, "resolver slow") {
            d = i128::from(self.t.range(1, 60_000)) * MS_NS;
        }
        self.at(d, Ev::Resolved { node, epoch, route, b, clean, doc });
    }

    fn wallet_doc(&self, w: usize, keys: &[(String, Vec<u8>)]) -> Value {
        let w = &self.wallets[w];
        let mut d = json!({"@context": "https://www.w3.org/ns/did/v1", "id": w.did});
        let vms: Vec<Value> = keys
            .iter()
            .map(|(frag, k)| {
                let id = if w.relative { format!("#{frag}") } else { format!("{}#{frag}", w.did) };
                gen::vm(w.form, &id, &w.did, k)
            })
            .collect();
        let list = model::VM_LISTS[w.list as usize];
        d[list] = json!(vms);
        if list == "verificationMethod" {
            d["authentication"] = json!(vms.iter().map(|v| v["id"].clone()).collect::<Vec<_>>());
        }
        d
    }

    fn wallet_keys(&self, w: usize) -> Vec<(String, Vec<u8>)> {
        let w = &self.wallets[w];
        w.keys.iter().enumerate().map(|(i, k)| (if i == 0 { w.frag.clone() } else { format!("{}-{i}", w.frag) }, k.clone())).collect()
    }

    fn resolve(&mut self, did: &str) -> Option<Bytes> {
        let w = (0..self.wallets.len()).find(|w| self.wallets[*w].did == did);
        if self.fires(self.k.docs, "resolver misbehaves") {
            let base = w.unwrap_or(0);
            return self.odd_doc(base, did);
        }
        let w = w?;
        let keys = self.wallet_keys(w);
        Some(serde_json::to_vec(&self.wallet_doc(w, &keys)).unwrap())
    }

    /// wrong, stale, hostile or unusual documents
    fn odd_doc(&mut self, w: usize, did: &str) -> Option<Bytes> {
        let mut keys = self.wallet_keys(w);
        let attacker = gen::key_bytes(u64::from(self.t.below(1 << 16)) + (99 << 48));
        let frag = keys[self.wallets[w].cur].0.clone();
        let kid = format!("{}#{frag}", self.wallets[w].did);
        let mut d = self.wallet_doc(w, &keys);
        match self.t.below(20) {
            0 => return None,
            1 => {
                // without the key in question
                keys.retain(|k| k.0 != frag);
                d = self.wallet_doc(w, &keys);
            }
            2 => {
                // somebody else's document
                let o = self.t.below(self.wallets.len() as u32) as usize;
                let k = self.wallet_keys(o);
                d = self.wallet_doc(o, &k);
            }
            3 => {
                // another document that claims the key id
                d["id"] = json!(did_near(self.t, did));
                d["verificationMethod"] = json!([gen::vm(0, &kid, did, &attacker)]);
            }
            17 => {
                // another subject's document that says it is also known as this one
                let o = did_near(self.t, did);
                let id = if self.t.chance(500) { kid.clone() } else { format!("#{frag}") };
                d = json!({"@context": "https://www.w3.org/ns/did/v1", "id": o, "alsoKnownAs": [did], "controller": did, "verificationMethod": [gen::vm(0, &id, &o, &attacker)]});
            }
            19 => {
                // a key of another length
                let n = *self.t.pick(&[0usize, 1, 2, 16, 31, 33, 34, 48, 57, 64, 65, 1000]);
                let f = *self.t.pick(&[0u32, 0, 1, 2, 3, 4, 5, 10, 11]);
                let mut k = keys[self.wallets[w].cur].1.clone();
                k.resize(n, 0x5a);
                d["verificationMethod"] = json!([gen::vm(f, &kid, did, &k)]);
            }
            18 => {
                // keys under the names everyone uses
                let ks: Vec<(String, Vec<u8>)> = ["key-1", "keys-1", "key-0", "0", "1", "owner", "controller", "default", ""].iter().map(|f| ((*f).to_owned(), attacker.clone())).collect();
                let mut d2 = self.wallet_doc(w, &ks);
                if self.t.chance(500) {
                    d2["id"] = json!(did);
                }
                d = d2;
            }
            4 => {
                // decoys with similar ids before and after
                let decoy = gen::near(self.t, &frag);
                let mut ks = vec![(decoy.clone(), attacker.clone())];
                let n = if self.t.chance(200) { *self.t.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256]) } else { gen::crowd(self.t, 0, 2) };
                ks.extend((0..n).map(|i| (format!("k{i}"), attacker.clone())).filter(|k| keys.iter().all(|o| o.0 != k.0)));
                ks.extend(keys.clone());
                let n = gen::crowd(self.t, 0, 1);
                ks.extend((0..n).map(|i| (format!("l{i}"), attacker.clone())).filter(|k| keys.iter().all(|o| o.0 != k.0)));
                ks.push((format!("{frag}1"), attacker));
                d = self.wallet_doc(w, &ks);
            }
            5 => {
                // only a decoy
                let decoy = gen::near(self.t, &frag);
                d = self.wallet_doc(w, &[(decoy, attacker)]);
            }
            6 => {
                // a key of another form
                let f = self.t.below(gen::ALL_FORMS);
                let list = *self.t.pick(&model::VM_LISTS);
                let o = d.as_object_mut().unwrap();
                for l in model::VM_LISTS {
                    o.remove(l);
                }
                let id = if self.t.chance(300) { format!("#{frag}") } else { kid.clone() };
                d[list] = json!([gen::vm(f, &id, did, &keys[self.wallets[w].cur].1)]);
            }
            7 => {
                // a foreign controller's method embedded under its own id
                d["verificationMethod"] = json!([gen::vm(0, "did:example:mallory#key-1", "did:example:mallory", &attacker)]);
            }
            8 => {
                // several lists, the key only in a late one
                d = json!({"@context": "https://www.w3.org/ns/did/v1", "id": self.wallets[w].did});
                for (i, l) in model::VM_LISTS.iter().enumerate() {
                    if self.t.chance(500) {
                        d[*l] = json!([gen::vm(0, &format!("{}#other-{i}", self.wallets[w].did), did, &attacker)]);
                    }
                }
                let l = *self.t.pick(&model::VM_LISTS);
                let mut a = d[l].as_array().cloned().unwrap_or_default();
                let f = self.t.below(gen::HONEST);
                a.push(gen::vm(f, &kid, did, &keys[self.wallets[w].cur].1));
                d[l] = json!(a);
            }
            9 => {
                // a relative id in a document of another DID
                d = json!({"@context": "https://www.w3.org/ns/did/v1", "id": did_near(self.t, did), "verificationMethod": [gen::vm(0, &format!("#{frag}"), did, &attacker)]});
            }
            10 => {
                // same key id twice, different keys
                let other = gen::vm(0, &kid, did, &attacker);
                let mine = gen::vm(0, &kid, did, &keys[self.wallets[w].cur].1);
                d["verificationMethod"] = json!([mine, other]);
            }
            11 => {
                // references only
                d = json!({"@context": "https://www.w3.org/ns/did/v1", "id": did, "authentication": [kid], "assertionMethod": [format!("#{frag}")]});
            }
            12 => {
                let o = d.as_object_mut().unwrap();
                o.insert("controller".into(), json!(["did:example:other"]));
                o.insert("alsoKnownAs".into(), json!([did_near(self.t, did)]));
                o.insert("service".into(), json!([{"id": format!("{did}#svc"), "type": "X", "serviceEndpoint": "https://example.com"}]));
            }
            13 => {
                // before the last rotation
                let c = self.wallets[w].cur;
                keys[c].1 = attacker;
                d = self.wallet_doc(w, &keys);
            }
            14 => {
                self.doc_ok = false;
                let b = serde_json::to_vec(&d).unwrap();
                return Some(hostile::reshape(self.t, &b));
            }
            15 => {
                self.doc_ok = false;
                let b = serde_json::to_vec(&d).unwrap();
                return Some(hostile::garble(self.t, &b));
            }
            _ => {
                // fragment differs only by case or encoding
                let f2 = if self.t.chance(500) {
                    gen::escaped(self.t, &frag)
                } else if frag.to_uppercase() == frag {
                    frag.to_lowercase()
                } else {
                    frag.to_uppercase()
                };
                d = self.wallet_doc(w, &[(f2, attacker)]);
            }
        }
        Some(serde_json::to_vec(&d).unwrap())
    }

    /// instants at which the verdict on this request changes
    fn deadlines(req: &[u8], opts: Option<&[u8]>) -> Vec<i128> {
        let mut v = vec![];
        if let Some(model::P::Ok(model::OptsView { c_nonce: Some((life, _, at)), .. })) = opts.map(model::opts) {
            v.push(at + i128::from(life) * NS);
            v.push(at);
        }
        if let model::P::Ok(q) = model::request(req) {
            if let Some(model::P::Ok(p)) = q.proof.map(|p| model::proof(&p.1)) {
                v.extend(p.nbf);
                v.extend(p.exp);
            }
        }
        v.retain(|x| (0..=tm::MAX_NS).contains(x));
        v
    }

    fn place_clock(&mut self, c: &mut ClockSetting, ds: &[i128]) -> bool {
        if ds.is_empty() || !self.fires(self.k.boundary, "clock at a deadline") {
            return false;
        }
        let d = *self.t.pick(ds);
        let off = *self.t.pick(&[0, 1, -1, 1000, -1000, MS_NS, -MS_NS, NS, -NS, 250_000_000, -250_000_000, NS - 1, 1 - NS]);
        c.at = (d + off).clamp(0, tm::MAX_NS);
        true
    }

    fn on_resolved(&mut self, node: usize, epoch: u32, route: usize, b: Bytes, clean: bool, doc: Option<Bytes>) {
        if !self.nodes[node].up || self.nodes[node].epoch != epoch || self.nodes[node].issuer != self.sessions[route].issuer {
            return;
        }
        let i = self.nodes[node].issuer;
        let (meta, ok0) = self.read(&format!("meta:{i}"));
        let (mut offer, ok1) = self.read(&format!("offer:{route}"));
        let (mut opts, ok2) = self.read(&format!("nonce:{route}"));
        let mut doc = doc;
        let mut asm = false;
        if self.fires(self.k.missing, "offer not supplied") {
            offer = None;
        }
        if self.fires(self.k.missing, "nonce record not supplied") {
            opts = match self.t.below(3) {
                0 => None,
                1 => Some(b"{}".to_vec()),
                _ => Some(json!({"client_id": self.sessions[route].client}).to_string().into_bytes()),
            };
        }
        if self.fires(self.k.missing, "did document not supplied") {
            doc = None;
        }
        if self.fires(self.k.missing / 2, "authorization server metadata supplied") {
            asm = true;
        }
        let ds = Self::deadlines(&b, opts.as_deref());
        let mut c = self.clock_of(node);
        if self.place_clock(&mut c, &ds) && self.t.chance(500) {
            self.nodes[node].skew = c.at - self.now;
        }
        self.midcall(&mut c, &ds);
        let all = clean && ok0 && ok1 && ok2;
        let call = Call::Eval { meta: meta.unwrap_or_default(), req: b.clone(), offer, asm, doc, opts };
        let (out, iv) = self.call(call.clone(), c.clone(), all);
        if out.ok().is_some() && self.fires(self.k.storm, "variants of an accepted request") {
            self.storm(route, &b, call, &c);
        }
        match &out {
            Out::Ok(o) => {
                self.history(route, o, &iv, ok2);
                self.issue(route, node, b);
            }
            Out::Err(_) | Out::Undecodable(..) => self.refuse(route, node, 0),
            Out::Panic(_) => {}
        }
    }

    /// someone who captured what the issuer just accepted tries many variants of it, in the same context and at once
    fn storm(&mut self, route: usize, b: &[u8], call: Call, c: &ClockSetting) {
        let Some(spec) = self.captured.iter().rev().find(|(s, r)| *s == route && r.bytes() == b).map(|x| x.1.clone()) else { return };
        let k = self.known();
        let (w, em) = (self.sessions[route].wallet, emphasis(self.k.prop));
        let m = if em.is_empty() { *self.t.pick(&MS) } else { *self.t.pick(em) };
        for _ in 0..self.t.range(4, 14) {
            let mut x = call.clone();
            let Call::Eval { req, doc, .. } = &mut x else { return };
            if self.k.prop == "C06" && self.t.chance(600) {
                let did = self.wallets[w].did.clone();
                *doc = self.odd_doc(w, &did);
            } else {
                let mut r = spec.clone();
                hostile::tamper(self.t, m, &mut r, self.now, &k);
                *req = r.bytes();
            }
            self.call(x, c.clone(), false);
        }
    }

    /// the same for a token request: guesses at the code and the PIN
    fn token_storm(&mut self, route: usize, call: &Call, c: &ClockSetting) {
        let (code, pin) = (self.sessions[route].code.clone(), self.sessions[route].pin);
        for _ in 0..self.t.range(4, 14) {
            let mut x = call.clone();
            let Call::Token { req, .. } = &mut x else { return };
            *req = match (self.t.below(5), pin) {
                (0 | 1, Some(p)) => {
                    let q = near_pin(self.t, p);
                    self.token_body(route, &code, Some(q))
                }
                (2, _) => self.odd_token_body(&code, pin),
                _ => {
                    let near = gen::near(self.t, &code);
                    self.token_body(route, &near, pin)
                }
            };
            self.call(x, c.clone(), false);
        }
    }

    /// end to end: who signed what the issuer just accepted, and for which nonce?
    fn history(&mut self, route: usize, o: &Value, iv: &Interval, ok: bool) {
        let pop = &o["pop"];
        let (Some(key), Some(msg), Some(sig)) = (pop["key"].as_str().and_then(util::unhex), pop["msg"].as_str(), pop["sig"].as_str().and_then(util::unhex)) else { return };
        // the caller's signature check, on what the library handed over
        let Some(canon) = canon_of(msg) else { return };
        if gen::sign(&key, &canon).as_bytes() != sig.as_slice() {
            self.note(json!({"step": self.step, "signature": "does not verify: no credential"}));
            return;
        }
        let Some(&signer) = self.signed.get(&canon) else { return };
        if !ok {
            return;
        }
        let c: Value = serde_json::from_str(&canon).unwrap_or(Value::Null);
        let nonce = c[7].as_str().unwrap_or("");
        let wallet = &self.wallets[self.sessions[signer].wallet];
        let mut bad: Vec<(&'static str, String)> = vec![];
        if o["subject"] != json!(wallet.did) {
            bad.push(("C06", format!("subject {} but the signer is {}", o["subject"], wallet.did)));
        }
        let mine: Vec<&(String, usize, i128, u32)> = self.issued.iter().filter(|x| x.0 == nonce && x.1 == route).collect();
        if mine.is_empty() {
            bad.push(("C03", format!("nonce {nonce:?} was never issued to session {route}")));
        } else if mine.iter().all(|x| iv.lo > x.2 + i128::from(x.3) * NS) {
            bad.push(("C01", format!("nonce {nonce:?} outlived its lifetime at {}", tm::display(iv.lo))));
        }
        if c[4].as_str() != Some(&self.issuers[self.sessions[route].issuer].url) {
            bad.push(("C04", format!("proof was made for {}", c[4])));
        }
        for (p, d) in bad {
            self.viol(&[p], &format!("history: wrong acceptance ({p})"), d);
        }
    }

    fn issue(&mut self, s: usize, node: usize, req: Bytes) {
        let rotate = self.t.chance(600);
        let nonce = rotate.then(|| self.fresh_nonce());
        let life = self.sessions[s].life;
        let mut c = self.clock_of(node);
        self.midcall(&mut c, &[]);
        let deferred = self.t.chance(120);
        let mut ask = self.sessions[s].ask.clone();
        if let model::P::Ok(q) = model::request(&req) {
            if let model::P::Ok(p) = q.profile {
                ask = p;
            }
        }
        let cred = (!deferred).then(|| ask.to_string().into_bytes());
        let token = deferred.then(|| format!("acc-{}", self.sessions[s].token));
        let with_life = if self.t.chance(800) { Some(life) } else { None };
        let (out, _) = self.call(Call::CredOk { req, cred, token, c_nonce: nonce.clone().map(|n| (n, with_life)) }, c, true);
        let Some(o) = out.ok() else { return };
        if let (Some(n), Some(at)) = (&nonce, t_back(&o["at"])) {
            self.record_nonce(s, node, n, with_life.unwrap_or(life), at);
        }
        let mut w = o["wire"].clone();
        if o["enc"] == json!(true) {
            w["credential"] = json!(util::b64(o["inner"].to_string().as_bytes()));
        }
        self.send(Ev::CredResp { s, b: w.to_string().into_bytes(), ok: true });
    }

    fn refuse(&mut self, s: usize, node: usize, code: u8) {
        let nonce = self.fresh_nonce();
        let life = self.sessions[s].life;
        let c = self.clock_of(node);
        let at = c.at;
        let details = json!({"c_nonce": nonce, "c_nonce_expires_in": life});
        let (out, _) = self.call(Call::CredErr { code, desc: Some("refused".into()), uri: None, details: Some(details) }, c, true);
        let Some(o) = out.ok() else { return };
        let b = o["wire"].as_str().unwrap_or("").as_bytes().to_vec();
        self.record_nonce(s, node, &nonce, life, at);
        self.send(Ev::CredResp { s, b, ok: false });
    }

    fn on_cred_resp(&mut self, s: usize, b: &[u8], ok: bool) {
        if ok {
            let c = self.wallet_clock(s);
            let (out, _) = self.call(Call::Persist(Mem::Bytes { kind: 7, bytes: b.to_vec() }), c, false);
            let Some(o) = out.ok() else { return };
            if self.sessions[s].phase != Phase::Done {
                self.sessions[s].phase = Phase::Done;
                self.st.completed += 1;
            }
            if let Some(n) = o["stored"]["c_nonce"].as_str() {
                let n = n.to_owned();
                self.sessions[s].nonces.push(n.clone());
                self.sessions[s].nonce = Some(n);
                if self.sessions[s].tries < 8 && !self.healed && self.t.chance(400) {
                    self.sessions[s].tries += 2;
                    self.ask_cred(s);
                }
            }
            return;
        }
        let Some((v, _)) = model::jparse(b) else { return };
        if let Some(n) = v["c_nonce"].as_str() {
            let n = n.to_owned();
            self.sessions[s].nonces.push(n.clone());
            self.sessions[s].nonce = Some(n);
            if self.sessions[s].phase != Phase::Done && self.sessions[s].tries < 8 && !self.healed {
                self.sessions[s].tries += 1;
                self.ask_cred(s);
            }
        }
    }

    // ------------------------------------------------------------ faults stop

    fn heal(&mut self) {
        self.healed = true;
        self.q.clear();
        for n in &mut self.nodes {
            n.skew = 0;
            n.up = true;
            n.cut_until = i128::MIN;
        }
        for w in &mut self.wallets {
            w.skew = 0;
        }
        for i in 0..self.issuers.len() {
            let m = self.meta_now(i);
            self.put(format!("meta:{i}"), m, true);
        }
        // leave room for lifetimes and validity windows to end within representable time
        if self.now > 200_000 * 366 * 86_400 * NS {
            return;
        }
        for s in 0..self.sessions.len() {
            if self.sessions[s].phase == Phase::Done && self.t.chance(500) {
                continue;
            }
            if self.sessions[s].life < 60 {
                self.sessions[s].life = 60;
            }
            if let Err(m) = self.honest_pass(s) {
                let m: String = m.chars().take(3000).collect();
                let v = format!("session {s} cannot finish after all faults have stopped: {m}");
                self.viol(&["C12"], "liveness: an honest wallet cannot complete", v);
            }
        }
    }

    /// one undisturbed exchange; with no fault in force each step has to succeed
    fn honest_pass(&mut self, s: usize) -> Result<(), String> {
        let i = self.sessions[s].issuer;
        let nodes: Vec<usize> = (0..self.nodes.len()).filter(|n| self.nodes[*n].issuer == i).collect();
        let any = |w: &mut Self| *w.t.pick(&nodes);
        let tick = |w: &mut Self| w.now += i128::from(w.t.range(1, 900)) * MS_NS;
        let mut sess = std::mem::replace(&mut self.sessions[s].creds, vec![]);
        sess.clear();
        // the metadata may have moved on: the issuer offers from what it publishes now
        let mut tmp = self.blank(s);
        self.choose_creds(&mut tmp);
        self.sessions[s].creds = tmp.creds;
        self.sessions[s].ask = tmp.ask;
        let n = any(self);
        let (offer, link) = self.make_offer(s, n).ok_or("no offer")?;
        tick(self);
        let q = link.split_once('?').map_or_else(|| link.strip_prefix("openid-credential-offer://").unwrap_or(""), |x| x.1);
        let enc = q.split('&').find_map(|p| p.strip_prefix("credential_offer=")).ok_or_else(|| format!("link {link}"))?;
        let text = util::percent_decode(enc, true).ok_or_else(|| format!("link {link}"))?;
        let c = self.wallet_clock(s);
        let (out, _) = self.call(Call::Persist(Mem::Bytes { kind: 4, bytes: text.into_bytes() }), c, true);
        let o = out.ok().ok_or_else(|| format!("wallet cannot read the offer: {}", brief(&out)))?;
        if self.sessions[s].grants < 2 {
            let code = o["stored"]["grants"][model::PRE]["pre-authorized_code"].as_str().ok_or("no code in the offer")?.to_owned();
            let pin = self.sessions[s].pin;
            let b = self.token_body(s, &code, pin);
            tick(self);
            let n = any(self);
            let c = self.clock_of(n);
            let opts = pin.map(|p| json!({ "expected_user_pin": p }).to_string().into_bytes());
            let (out, _) = self.call(Call::Token { req: b, offer: Some(offer.clone()), opts }, c, true);
            out.ok().ok_or_else(|| format!("token refused: {}", brief(&out)))?;
        }
        let n = any(self);
        let nonce = self.fresh_nonce();
        let life = self.sessions[s].life;
        let c = self.clock_of(n);
        let (out, _) = self.call(
            Call::TokenOk {
                token: self.sessions[s].token.clone(),
                expires_in: Some(60),
                scope: None,
                c_nonce: Some(nonce.clone()),
                c_nonce_expires_in: Some(life),
                pending: None,
                interval: None,
            },
            c,
            true,
        );
        let o = out.ok().ok_or_else(|| format!("no token response: {}", brief(&out)))?.clone();
        let at = t_back(&o["at"]).ok_or("no stamp")?;
        let c = self.clock_of(n);
        let (out, _) = self.call(Call::Persist(Mem::Opts { c_nonce: Some((life, nonce.clone(), at)), client_id: self.sessions[s].client.clone() }), c, true);
        let mut opts = out.ok().filter(|o| !o.is_null()).ok_or_else(|| format!("record not stored: {}", brief(&out)))?["stored"].to_string().into_bytes();
        tick(self);
        let c = self.wallet_clock(s);
        let wire = o["wire"].as_str().unwrap_or("").as_bytes().to_vec();
        let (out, _) = self.call(Call::Persist(Mem::Bytes { kind: 6, bytes: wire }), c, true);
        let mut got = out.ok().and_then(|o| o["stored"]["c_nonce"].as_str()).ok_or_else(|| format!("wallet cannot read the token: {}", brief(&out)))?.to_owned();
        let (mut nonce, mut at) = (nonce, at);
        for _ in 0..self.t.below(4).saturating_sub(1) {
            // the wallet comes too late or with an old nonce, and goes on with the nonce of the refusal
            let late = self.t.chance(500);
            let used = if late { got.clone() } else { self.sessions[s].nonces.first().filter(|n| **n != got).cloned().unwrap_or_else(|| "an earlier nonce".to_owned()) };
            if late {
                self.now += i128::from(life) * NS + NS;
            }
            let req = self.proof(s, &used).bytes();
            let n = any(self);
            let c = self.clock_of(n);
            let (out, _) = self.call(Call::Pre { req: req.clone() }, c, true);
            let did = out.ok().and_then(|o| o["did"].as_str()).ok_or_else(|| format!("pre-evaluation: {}", brief(&out)))?.to_owned();
            let doc = self.resolve(&did);
            let c = self.clock_of(n);
            let meta = self.meta_now(i);
            let (out, _) = self.call(Call::Eval { meta, req, offer: Some(offer.clone()), asm: false, doc, opts: Some(opts.clone()) }, c, true);
            if out.ok().is_some() {
                return Err(format!("{} was accepted", if late { "a nonce past its lifetime" } else { "another nonce than the expected one" }));
            }
            nonce = self.fresh_nonce();
            let c = self.clock_of(n);
            at = c.at;
            let word = self.t.below(2) == 1;
            let details = json!({"c_nonce": nonce, "c_nonce_expires_in": life});
            let desc = word.then(|| "the proof was refused".to_owned());
            let (out, _) = self.call(Call::CredErr { code: 4, desc, uri: None, details: Some(details) }, c.clone(), true);
            let wire = out.ok().and_then(|o| o["wire"].as_str()).ok_or_else(|| format!("no error response: {}", brief(&out)))?.to_owned();
            let (out, _) = self.call(Call::Persist(Mem::Opts { c_nonce: Some((life, nonce.clone(), at)), client_id: self.sessions[s].client.clone() }), c, true);
            opts = out.ok().filter(|o| !o.is_null()).ok_or_else(|| format!("record not stored: {}", brief(&out)))?["stored"].to_string().into_bytes();
            tick(self);
            let (v, _) = model::jparse(wire.as_bytes()).ok_or_else(|| format!("error response {wire}"))?;
            if v["error"] != json!("invalid_or_missing_proof") {
                return Err(format!("the wallet is not told that its proof was invalid: {wire}"));
            }
            got = v["c_nonce"].as_str().ok_or_else(|| format!("no fresh nonce in {wire}"))?.to_owned();
            self.fault("wallet recovers from an invalid proof");
        }
        let req = self.proof(s, &got).bytes();
        tick(self);
        let n = any(self);
        let c = self.clock_of(n);
        let (out, _) = self.call(Call::Pre { req: req.clone() }, c, true);
        let did = out.ok().and_then(|o| o["did"].as_str()).ok_or_else(|| format!("pre-evaluation: {}", brief(&out)))?.to_owned();
        let doc = self.resolve(&did);
        tick(self);
        let n = any(self);
        let c = self.clock_of(n);
        let meta = self.meta_now(i);
        let (out, iv) = self.call(Call::Eval { meta, req: req.clone(), offer: Some(offer), asm: false, doc, opts: Some(opts) }, c, true);
        let o = out.ok().ok_or_else(|| format!("request refused: {}", brief(&out)))?.clone();
        // what it gives the verifier has to verify
        let key = o["pop"]["key"].as_str().and_then(util::unhex).unwrap_or_default();
        let sig = o["pop"]["sig"].as_str().and_then(util::unhex).unwrap_or_default();
        let wal = &self.wallets[self.sessions[s].wallet];
        let canon = o["pop"]["msg"].as_str().and_then(canon_of).ok_or("message cannot be read")?;
        if key != wal.keys[wal.cur] || gen::sign(&key, &canon).as_bytes() != sig.as_slice() {
            return Err(format!("the returned evidence does not verify: {} for {}", o["pop"], String::from_utf8_lossy(&req)));
        }
        self.issued.push((nonce, s, at, life));
        self.history(s, &o, &iv, true);
        let c = self.clock_of(n);
        let ask = self.sessions[s].ask.to_string().into_bytes();
        let (out, _) = self.call(Call::CredOk { req, cred: Some(ask), token: None, c_nonce: None }, c, true);
        out.ok().ok_or_else(|| format!("no credential response: {}", brief(&out)))?;
        if self.sessions[s].phase != Phase::Done {
            self.sessions[s].phase = Phase::Done;
            self.st.completed += 1;
        }
        Ok(())
    }

    fn blank(&self, s: usize) -> Session {
        let x = &self.sessions[s];
        Session {
            issuer: x.issuer,
            wallet: x.wallet,
            grants: x.grants,
            code: String::new(),
            pin_required: None,
            pin: None,
            creds: vec![],
            ask: Value::Null,
            client: None,
            iss: None,
            endpoint: None,
            life: 0,
            token: String::new(),
            phase: x.phase,
            tries: 0,
            nonce: None,
            nonces: vec![],
            old_param: false,
            proof_type: None,
            style: [0; 3],
            nbf: None,
            exp: None,
            shuffle: 0,
            extras: false,
            nulls: false,
        }
    }

    // ------------------------------------------------------------ probes

    /// a client, operator or attacker acting outside the normal flow
    fn probe(&mut self) {
        const ALL: [u32; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
        let menu: &[u32] = match self.k.prop {
            "C01" | "C03" | "C04" | "C06" | "C07" | "C09" | "C17" => &[0, 0, 0, 2],
            "C08" => &[0, 0, 1, 2, 8],
            "C02" => &[0, 1, 1],
            "C05" => &[3],
            "C10" => &ALL,
            "C11" => &[6, 6, 0, 3, 4],
            "C12" => &[0, 3, 4, 5],
            "C13" => &[5],
            "C15" => &[4],
            "C16" => &[0, 0, 1, 2, 3, 4, 7],
            "C18" => &[5],
            _ => &ALL,
        };
        let which = if self.t.chance(150) { *self.t.pick(&ALL) } else { *self.t.pick(menu) };
        self.note(json!({"probe": which}));
        let node = self.t.below(self.nodes.len() as u32) as usize;
        match which {
            0 => self.p_eval(node),
            1 => self.p_verify(node),
            2 => self.p_parts(node),
            3 => self.p_token(node),
            4 => self.p_offer(node),
            5 => self.p_resp(node),
            6 => self.p_persist(node),
            8 => self.p_pre(node),
            _ => {
                let at = i64::from(self.t.below(1 << 31));
                let call = Call::Export { which: self.t.below(u32::from(N_EXPORT)) as u8, s: gen::text(self.t, 500), t: gen::text(self.t, 500), n: self.t.below(1 << 30), at };
                let c = self.clock_of(node);
                self.call(call, c, true);
            }
        }
    }

    fn rotten(&mut self, b: Bytes) -> (Bytes, bool) {
        if self.fires(self.k.corrupt, "input corrupted") {
            let x = if self.t.chance(650) { hostile::reshape(self.t, &b) } else { hostile::garble(self.t, &b) };
            (x, false)
        } else {
            (b, true)
        }
    }

    /// an evaluation put together from a session as it should be, then disturbed
    fn p_eval(&mut self, node: usize) {
        let s = self.t.below(self.sessions.len() as u32) as usize;
        let i = self.sessions[s].issuer;
        let offer = {
            let g = self.sessions[s].grants;
            let creds = serde_json::to_vec(&self.sessions[s].creds).unwrap();
            let (auth, pre) = ((g == 1 || g == 2).then(|| Some("st".to_owned())), (g < 2).then(|| (self.sessions[s].code.clone(), self.sessions[s].pin_required)));
            let mut issuer = self.issuers[i].url.clone();
            if self.t.chance(120) {
                // written under another name of the issuer, or by another one
                issuer = match self.t.below(3) {
                    0 => gen::near(self.t, &issuer),
                    1 => self.t.pick(&self.issuers).url.clone(),
                    _ => String::new(),
                };
            }
            let c = self.clock_of(node);
            let (out, _) = self.call(Call::Persist(Mem::Offer { issuer, creds, auth, pre }), c, true);
            out.ok().map(|o| o["stored"].to_string().into_bytes())
        };
        let nonce = self.fresh_nonce();
        self.sessions[s].nonces.push(nonce.clone());
        let life = gen::lifetime(self.t, if self.k.prop == "C01" { 600 } else { self.k.weird });
        let at = self.now - i128::from(self.t.below(3)) * i128::from(life.min(4_000_000)) * NS / 4 - i128::from(self.t.below(1000)) * 1_001_001;
        let at = if self.t.chance(self.k.weird / 3) { *self.t.pick(&[0, tm::MAX_NS, (1 << 31) * NS, tm::MAX_NS - NS * i128::from(life)]) } else { at }.clamp(0, tm::MAX_NS);
        let client = self.sessions[s].client.clone();
        let c = self.clock_of(node);
        let (out, _) = self.call(Call::Persist(Mem::Opts { c_nonce: Some((life, nonce.clone(), at)), client_id: client }), c, true);
        let opts = out.ok().filter(|o| !o.is_null()).map(|o| o["stored"].to_string().into_bytes());
        let mut r = self.proof(s, &nonce);
        if self.t.chance(300) {
            // a validity window close to the moment of evaluation
            let k = self.known();
            hostile::tamper(self.t, M::Time, &mut r, self.now, &k);
            let key = {
                let w = &self.wallets[self.sessions[s].wallet];
                w.keys[w.cur].clone()
            };
            if let Some(p) = &mut r.proof {
                let canon = p.canon();
                p.sig = Some(gen::sign(&key, &canon));
                self.signed.insert(canon, s);
            }
        }
        let mut clean = true;
        if self.t.chance(if emphasis(self.k.prop).is_empty() { 300 } else { 700 }) {
            self.mangle(&mut r);
            clean = false;
        }
        if self.fires(self.k.missing, "request without proof") {
            r.proof = None;
        }
        let (req, ok) = self.rotten(r.bytes());
        clean &= ok;
        self.doc_ok = true;
        let mut doc = {
            let w = self.sessions[s].wallet;
            let did = self.wallets[w].did.clone();
            self.resolve(&did)
        };
        clean &= self.doc_ok;
        let mut offer = offer;
        let mut opts = opts;
        let mut asm = false;
        if self.fires(self.k.missing, "offer not supplied") {
            offer = None;
        }
        if self.fires(self.k.missing, "did document not supplied") {
            doc = None;
        }
        if self.fires(self.k.missing, "nonce record not supplied") {
            opts = match self.t.below(3) {
                0 => None,
                1 => Some(b"{}".to_vec()),
                _ => Some(json!({"client_id": self.sessions[s].client}).to_string().into_bytes()),
            };
        }
        if self.fires(self.k.missing / 2, "authorization server metadata supplied") {
            asm = true;
        }
        let mut meta = self.meta_now(i);
        if self.t.chance(100) {
            // other identifiers in the metadata, some of them those of the proof
            if let Some((mut v, _)) = model::jparse(&meta) {
                let url = self.issuers[i].url.clone();
                let x = match self.t.below(4) {
                    0 => url,
                    1 => self.t.pick(&self.issuers).url.clone(),
                    2 => r.proof.as_ref().map_or(url, |p| p.aud.clone()),
                    _ => gen::near(self.t, &url),
                };
                let k = *self.t.pick(&["authorization_server", "credential_endpoint", "batch_credential_endpoint", "credential_issuer", "issuer", "token_endpoint"]);
                v[k] = json!(x);
                meta = serde_json::to_vec(&v).unwrap_or_default();
            }
        }
        for b in [&mut offer, &mut opts, &mut doc].into_iter().flatten() {
            if self.k.rot > 0 && self.t.chance(self.k.rot / 2) {
                let x = self.rotten(b.clone());
                *b = x.0;
                clean &= x.1;
            }
        }
        if self.k.rot > 0 && self.t.chance(self.k.rot / 2) {
            let x = self.rotten(meta);
            meta = x.0;
            clean &= x.1;
        }
        let ds = Self::deadlines(&req, opts.as_deref());
        let mut c = self.clock_of(node);
        self.place_clock(&mut c, &ds);
        self.midcall(&mut c, &ds);
        self.call(Call::Eval { meta, req, offer, asm, doc, opts }, c, clean);
    }

    fn p_pre(&mut self, node: usize) {
        let s = self.t.below(self.sessions.len() as u32) as usize;
        let mut r = self.proof(s, "n");
        self.mangle(&mut r);
        let (req, _) = self.rotten(r.bytes());
        let c = self.clock_of(node);
        self.call(Call::Pre { req }, c, false);
    }

    fn p_verify(&mut self, node: usize) {
        let s = self.t.below(self.sessions.len() as u32) as usize;
        let mut r = self.proof(s, "n-0");
        let k = self.known();
        if self.t.chance(850) {
            hostile::tamper(self.t, M::Time, &mut r, self.now, &k);
        }
        if self.t.chance(200) {
            self.mangle(&mut r);
        }
        let (_, jwt) = match model::request(&r.bytes()) {
            model::P::Ok(q) => q.proof.unwrap_or_default(),
            _ => return,
        };
        let jwt = if self.fires(self.k.corrupt, "input corrupted") { hostile::rejwt(self.t, &jwt) } else { jwt };
        let ds = Self::deadlines(&json!({"proof": {"jwt": jwt}, "format": "x"}).to_string().into_bytes(), None);
        let mut c = self.clock_of(node);
        self.place_clock(&mut c, &ds);
        self.midcall(&mut c, &ds);
        self.call(Call::Verify { jwt }, c, false);
    }

    fn p_parts(&mut self, node: usize) {
        let s = self.t.below(self.sessions.len() as u32) as usize;
        let nonce = self.fresh_nonce();
        let mut r = self.proof(s, &nonce);
        let (iss, aud) = (self.sessions[s].iss.clone(), self.issuers[self.sessions[s].issuer].url.clone());
        if self.t.chance(700) {
            self.mangle(&mut r);
        }
        let Some(p) = &r.proof else { return };
        let jwt = p.jwt();
        let jwt = if self.fires(self.k.corrupt, "input corrupted") { hostile::rejwt(self.t, &jwt) } else { jwt };
        let doc = {
            let w = self.sessions[s].wallet;
            let did = self.wallets[w].did.clone();
            self.resolve(&did)
        };
        let nonce = if self.t.chance(150) { None } else { Some(nonce) };
        let c = self.clock_of(node);
        self.call(Call::Parts { jwt, nonce, iss, aud, doc }, c, false);
    }

    fn p_token(&mut self, node: usize) {
        let s = self.t.below(self.sessions.len() as u32) as usize;
        let weird = self.k.weird;
        // offers of every kind of grant
        let g = self.t.below(5);
        let (auth, pre) = match g {
            0 | 1 => (None, true),
            2 => (Some(Some("st".to_owned())), true),
            3 => (Some(None), false),
            _ => (None, false),
        };
        let code = if self.t.chance(40) { String::new() } else { self.sessions[s].code.clone() };
        let required = *self.t.pick(&[None, Some(false), Some(true)]);
        let creds = serde_json::to_vec(&self.sessions[s].creds).unwrap();
        let issuer = self.issuers[self.sessions[s].issuer].url.clone();
        let c = self.clock_of(node);
        let (out, _) = self.call(Call::Persist(Mem::Offer { issuer, creds, auth, pre: pre.then(|| (code.clone(), required)) }), c, true);
        let mut offer = out.ok().map(|o| o["stored"].to_string().into_bytes());
        let want = pin(self.t, weird);
        let codes: Vec<String> = self.sessions.iter().map(|s| s.code.clone()).collect();
        let given_code = if self.t.chance(450) {
            if self.t.chance(150) {
                let k = self.known();
                self.t.pick(&k.strays).clone()
            } else if self.t.chance(200) {
                self.t.pick(&codes).clone()
            } else {
                gen::near(self.t, &code)
            }
        } else {
            code
        };
        let given_pin = match self.t.below(10) {
            0 => None,
            1 => Some(pin(self.t, weird)),
            2..=5 | 8 | 9 => Some(near_pin(self.t, want)),
            _ => {
                if required == Some(true) {
                    Some(want)
                } else {
                    None
                }
            }
        };
        let mut req = self.token_body(s, &given_code, given_pin);
        let odd = self.t.chance(120);
        if odd {
            req = self.odd_token_body(&given_code, given_pin);
        }
        if self.t.chance(60) {
            req = br#"{"grant_type":{"grant_type":"authorization_code"}}"#.to_vec();
        }
        let mut opts = if required == Some(true) || self.t.chance(300) { Some(json!({ "expected_user_pin": want }).to_string().into_bytes()) } else { None };
        if self.t.chance(60) {
            opts = Some(b"{}".to_vec());
        }
        if self.fires(self.k.missing, "offer not supplied") {
            offer = None;
        }
        if self.fires(self.k.missing, "pin record not supplied") {
            opts = None;
        }
        let (req, mut clean) = self.rotten(req);
        clean &= !odd;
        if let Some(o) = &mut offer {
            if self.k.rot > 0 && self.t.chance(self.k.rot / 2) {
                let x = self.rotten(o.clone());
                *o = x.0;
                clean &= x.1;
            }
        }
        let c = self.clock_of(node);
        self.call(Call::Token { req, offer, opts }, c, clean);
    }

    fn p_offer(&mut self, node: usize) {
        let i = self.t.below(self.issuers.len() as u32) as usize;
        let bad = self.t.chance(if self.k.prop == "C15" { 300 } else { 120 });
        let meta = if self.t.chance(500) { self.metadata(i, bad) } else { self.meta_now(i) };
        let m = model::jparse(&meta).map(|x| x.0).unwrap_or(Value::Null);
        let sup = m["credentials_supported"].as_array().cloned().unwrap_or_default();
        let mut creds: Vec<Value> = vec![];
        let uniform = self.t.below(3);
        for _ in 0..self.t.below(6) {
            let c = if sup.is_empty() { Value::Null } else { self.t.pick(&sup).clone() };
            let as_id = match uniform {
                0 => true,
                1 => false,
                _ => self.t.chance(500),
            };
            if as_id {
                let id = match c["id"].as_str() {
                    Some(id) if !self.t.chance(80) => id.to_owned(),
                    Some(id) => gen::near(self.t, id),
                    None => match c.get("types").and_then(|t| t.get(0)) {
                        Some(Value::String(s)) if self.t.chance(80) => s.clone(),
                        _ => continue,
                    },
                };
                creds.push(json!(id));
            } else if let Some(p) = c.as_object().map(model::profile).and_then(|p| p.as_ok().cloned()) {
                creds.push(if self.t.chance(200) { gen::profile(self.t, self.k.weird) } else { p });
            }
        }
        let (creds, mut clean) = self.rotten(serde_json::to_vec(&creds).unwrap());
        let (meta, c2) = if self.k.rot > 0 && self.t.chance(self.k.rot / 2) { self.rotten(meta) } else { (meta, true) };
        clean &= c2;
        let c = self.clock_of(node);
        if self.t.chance(300) {
            self.call(Call::Resolve { meta, creds }, c, clean);
            return;
        }
        let endpoint = self.endpoint();
        let mut n = self.n;
        let auth = if self.t.chance(120) { Some(json!({"issuer_state": gen::text(self.t, 500)}).to_string().into_bytes()) } else { None };
        let pre = if self.t.chance(850) {
            let mut g = json!({"pre-authorized_code": gen::secret(self.t, &mut n, self.k.weird)});
            if let Some(b) = *self.t.pick(&[None, Some(true), Some(false)]) {
                g["user_pin_required"] = json!(b);
            }
            Some(g.to_string().into_bytes())
        } else {
            None
        };
        self.n = n;
        let form = self.t.below(4) as u8;
        self.call(Call::CreateOffer { meta, creds, form, endpoint, auth, pre }, c, clean);
    }

    fn opt_text(&mut self) -> Option<String> {
        if self.t.chance(500) {
            Some(gen::text(self.t, self.k.weird))
        } else {
            None
        }
    }

    fn opt_num(&mut self) -> Option<u32> {
        if self.t.chance(500) {
            Some(gen::lifetime(self.t, self.k.weird.max(200)))
        } else {
            None
        }
    }

    fn details(&mut self) -> Option<Value> {
        if self.t.chance(400) {
            return None;
        }
        let mut m = Map::new();
        for _ in 0..self.t.below(4) {
            let k = match self.t.below(5) {
                0 => "c_nonce".to_owned(),
                1 => "c_nonce_expires_in".to_owned(),
                2 => "interval".to_owned(),
                _ => format!("x_{}", gen::text(self.t, self.k.weird)),
            };
            m.insert(k, hostile::json_odd(self.t));
        }
        Some(Value::Object(m))
    }

    fn p_resp(&mut self, node: usize) {
        let mut c = self.clock_of(node);
        if self.t.chance(self.k.weird) {
            c.at = base_time(self.t, 900).clamp(0, tm::MAX_NS);
        }
        self.midcall(&mut c, &[]);
        let mut n = self.n;
        let call = match self.t.below(if self.k.prop == "C18" { 2 } else { 4 }) {
            0 => Call::TokenOk {
                token: gen::secret(self.t, &mut n, self.k.weird),
                expires_in: self.opt_num(),
                scope: self.opt_text(),
                c_nonce: self.opt_text(),
                c_nonce_expires_in: self.opt_num(),
                pending: *self.t.pick(&[None, Some(true), Some(false)]),
                interval: self.opt_num(),
            },
            1 => {
                let s = self.t.below(self.sessions.len() as u32) as usize;
                let mut r = self.proof(s, "n-1");
                if self.t.chance(500) {
                    r.proof = None;
                }
                if self.t.chance(600) {
                    r.profile = gen::profile(self.t, self.k.weird);
                }
                let cred = if self.t.chance(250) { gen::profile(self.t, self.k.weird) } else { r.profile.clone() };
                let which = self.t.below(3);
                Call::CredOk {
                    req: r.bytes(),
                    cred: (which == 0).then(|| cred.to_string().into_bytes()),
                    token: (which == 1).then(|| gen::secret(self.t, &mut n, self.k.weird)),
                    c_nonce: if self.t.chance(600) { Some((gen::secret(self.t, &mut n, self.k.weird), self.opt_num())) } else { None },
                }
            }
            2 => Call::TokenErr { code: self.t.below(8) as u8, desc: self.opt_text(), uri: self.opt_text(), details: self.details() },
            _ => Call::CredErr { code: self.t.below(5) as u8, desc: self.opt_text(), uri: self.opt_text(), details: self.details() },
        };
        self.n = n;
        self.call(call, c, true);
    }

    fn p_persist(&mut self, node: usize) {
        let mut n = self.n;
        let weird = self.k.weird.max(200);
        let at = match self.t.below(5) {
            0 => self.now,
            1 => base_time(self.t, 900),
            2 => self.now - self.now.rem_euclid(NS) + *self.t.pick(&[0, 1, 1_000, 1_000_000, 100_000_000, 999_999_999, 999_000_000, 10]),
            3 => -i128::from(self.t.below(1 << 30)) * NS,
            _ => i128::from(self.t.below(1 << 30)) * 8000 * NS,
        }
        .clamp(tm::MIN_NS, tm::MAX_NS);
        let mem = match self.t.below(8) {
            0 | 1 => Mem::Opts {
                c_nonce: if self.t.chance(850) { Some((gen::lifetime(self.t, weird), gen::secret(self.t, &mut n, weird), at)) } else { None },
                client_id: if self.t.chance(500) { Some(gen::secret(self.t, &mut n, weird)) } else { None },
            },
            2 => Mem::CNonce { c_nonce: gen::secret(self.t, &mut n, weird), expires: self.opt_num() },
            3 | 4 => {
                let creds: Vec<Value> =
                    (0..self.t.below(5)).map(|_| if self.t.chance(500) { json!(gen::secret(self.t, &mut n, weird)) } else { gen::profile(self.t, weird) }).collect();
                Mem::Offer {
                    issuer: gen::issuer_url(self.t, 0, weird),
                    creds: serde_json::to_vec(&creds).unwrap(),
                    auth: match self.t.below(3) {
                        0 => None,
                        1 => Some(None),
                        _ => Some(Some(gen::text(self.t, weird))),
                    },
                    pre: if self.t.chance(700) { Some((gen::secret(self.t, &mut n, weird), *self.t.pick(&[None, Some(true), Some(false)]))) } else { None },
                }
            }
            5 | 6 => {
                let nc = self.t.below(4);
                let creds: Vec<CredMem> = (0..nc)
                    .map(|_| CredMem {
                        profile: gen::profile(self.t, weird).to_string().into_bytes(),
                        id: self.t.chance(700).then(|| gen::secret(self.t, &mut n, weird)),
                        binding: self.t.chance(500).then(|| vec!["did".to_owned(), gen::text(self.t, weird)]),
                        suites: self.t.chance(500).then(|| vec![gen::text(self.t, weird)]),
                        display: self.t.chance(400).then(|| {
                            (0..self.t.below(3))
                                .map(|_| {
                                    (
                                        gen::text(self.t, weird),
                                        self.t.chance(500).then(|| gen::text(self.t, weird)),
                                        self.t.chance(500).then(|| (self.t.chance(500).then(|| gen::text(self.t, weird)), self.t.chance(500).then(|| gen::text(self.t, weird)))),
                                    )
                                })
                                .collect()
                        }),
                    })
                    .collect();
                Mem::Meta(Box::new(MetaMem {
                    issuer: gen::issuer_url(self.t, 0, weird),
                    auth_server: self.opt_text(),
                    endpoint: gen::text(self.t, weird),
                    batch: self.opt_text(),
                    creds,
                    extra: self.t.chance(400).then(|| vec![(format!("x_{}", gen::text(self.t, weird)), json!([1, "a", {"b": null}]))]),
                }))
            }
            _ => {
                let s = self.t.below(self.sessions.len() as u32) as usize;
                match self.t.below(4) {
                    0 => Mem::Bytes { kind: 2, bytes: self.metadata(0, false) },
                    1 => Mem::Bytes { kind: 3, bytes: self.proof(s, "n-2").bytes() },
                    2 => {
                        let p = pin(self.t, weird);
                        let code = self.sessions[s].code.clone();
                        Mem::Bytes { kind: 0, bytes: self.token_body(s, &code, self.t_opt(p)) }
                    }
                    _ => Mem::Bytes { kind: 1, bytes: json!({"expected_user_pin": pin(self.t, weird)}).to_string().into_bytes() },
                }
            }
        };
        self.n = n;
        let c = self.clock_of(node);
        let mem = match mem {
            Mem::Bytes { kind, bytes } => {
                let (b, ok) = self.rotten(bytes);
                self.call(Call::Persist(Mem::Bytes { kind, bytes: b }), c, ok);
                return;
            }
            m => m,
        };
        self.call(Call::Persist(mem), c, true);
    }

    fn t_opt(&self, p: u64) -> Option<u64> {
        (p % 3 != 0).then_some(p)
    }
}

fn fits(v: &Value) -> bool {
    // a profile the wire format allows
    match v["format"].as_str() {
        Some("mso_mdoc") => v["doctype"].is_string() && v.get("order").map_or(true, strings) && v.get("types").is_none(),
        Some("ldp_vc") => strings(&v["types"]) && v["@context"].is_array() && v.get("order").map_or(true, strings),
        Some("jwt_vc_json" | "jwt_vc_json-ld") => strings(&v["types"]) && v.get("order").map_or(true, strings),
        _ => false,
    }
}

fn strings(v: &Value) -> bool {
    v.as_array().is_some_and(|a| a.iter().all(Value::is_string))
}

fn near_pin(t: &mut Tape, want: u64) -> u64 {
    match t.below(9) {
        0 => (want % 10u64.pow(t.range(1, 8) as u32)).wrapping_add(u64::from(t.below(9)) * 10u64.pow(t.range(1, 12) as u32)),
        1 => want ^ (1 << t.below(34)),
        2 => want.wrapping_add(1),
        3 => want.wrapping_mul(10),
        4 => want / 10,
        5 => want.wrapping_add(*t.pick(&[1u64 << 32, 1 << 16, 1 << 31, 100_000_000, 256])),
        6 => want.wrapping_sub(1),
        7 => {
            // the same digits in another order, or one of them changed
            let mut d: Vec<char> = want.to_string().chars().collect();
            let i = t.below(d.len() as u32) as usize;
            match t.below(3) {
                0 => d.reverse(),
                1 => d.rotate_left(i),
                _ => d[i] = char::from(b'0' + t.below(10) as u8),
            }
            d.into_iter().collect::<String>().parse().unwrap_or(0)
        }
        _ => 0,
    }
}

fn pin(t: &mut Tape, weird: u32) -> u64 {
    if t.chance(weird) {
        *t.pick(&[0, 9, 10, 9_999_999, 10_000_000, 99_999_999, 100_000_000, 999_999_999, 1_000_000_000, 1 << 32, u64::MAX, 12_345_678_901, 1 << 63])
    } else {
        u64::from(t.below(100_000_000))
    }
}

fn did_near(t: &mut Tape, d: &str) -> String {
    let cut = d.char_indices().last().map_or(0, |c| c.0);
    let (a, b) = d.split_at(cut);
    match t.below(6) {
        0 => format!("{d}0"),
        1 => a.to_owned(),
        2 => {
            format!("{a}{}", if b == "x" { "y" } else { "x" })
        }
        3 => format!("{d}:sub"),
        4 => d.replacen("did:", "did:x", 1),
        _ => format!("{a}{}", b.to_uppercase().replace(|c: char| c.is_ascii_digit(), "Z")),
    }
}

fn base_time(t: &mut Tape, weird: u32) -> i128 {
    let sub = i128::from(t.below(1000)) * 1_000_003 % NS;
    let usual = 1_682_942_400 * NS;
    if !t.chance(weird / 2) {
        return usual + sub;
    }
    let y10k = 253_402_300_800 * NS;
    match t.below(10) {
        0 => 100_000 * NS + sub,
        1 => ((1 << 31) - 5) * NS + sub,
        2 => ((1i128 << 32) - 5) * NS + sub,
        3 => y10k - 5 * NS + sub,
        4 => y10k + 3600 * NS + sub,
        5 => tm::MAX_NS - 200 * 86_400 * NS - sub,
        6 => 951_782_400 * NS + sub,  // 29 Feb 2000
        7 => 1_709_164_799 * NS + sub, // end of 28 Feb 2024
        8 => 4_107_542_399 * NS + sub,
        _ => usual + i128::from(t.below(1 << 30)) * NS + sub,
    }
}

fn pct(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}

/// reads the semantic content of the message handed to signature verification
pub fn canon_of(msg: &str) -> Option<String> {
    for (i, _) in msg.match_indices('.') {
        let dec = |s: &str| -> Option<Value> {
            serde_json::from_str(s).ok().or_else(|| util::unb64(s).and_then(|b| serde_json::from_slice(&b).ok())).filter(Value::is_object)
        };
        let (Some(h), Some(b)) = (dec(&msg[..i]), dec(&msg[i + 1..])) else { continue };
        let tim = |k: &str| -> Option<Option<String>> {
            match b.get(k) {
                None | Some(Value::Null) => Some(None),
                Some(Value::String(s)) => tm::parse(s).map(|t| Some(t.to_string())),
                Some(Value::Number(n)) => {
                    if let Some(i) = n.as_i64() {
                        Some(Some((i128::from(i) * NS).to_string()))
                    } else {
                        n.as_f64().map(|f| Some(((f * 512.0) as i128 * (NS / 512)).to_string()))
                    }
                }
                _ => None,
            }
        };
        let (Some(Some(iat)), Some(nbf), Some(exp)) = (tim("iat"), tim("nbf"), tim("exp")) else { continue };
        let s = |v: &Value| v.as_str().map(str::to_owned);
        return Some(
            json!([s(&h["typ"]), s(&h["alg"]), s(&h["kid"]), s(&b["iss"]), s(&b["aud"]), s(&b["sub"]), iat, s(&b["nonce"]), nbf, exp]).to_string(),
        );
    }
    None
}

pub fn brief(o: &Out) -> String {
    let s = match o {
        Out::Ok(v) => format!("ok {v}"),
        Out::Err(e) => format!("{} {}", o.label(), e.p),
        Out::Undecodable(w, m) => format!("cannot read {w}: {m}"),
        Out::Panic(m) => format!("PANIC {m}"),
    };
    if s.chars().count() > 700 {
        format!("{}…", s.chars().take(700).collect::<String>())
    } else {
        s
    }
}

pub fn clock_text(c: &ClockSetting) -> Value {
    json!({"at": tm::display(c.at), "then": c.moves.iter().map(|m| format!("{m}ns")).collect::<Vec<_>>(), "zone": seam::ZONES[c.zone % seam::ZONES.len()].to_string_lossy()})
}

/// a call with its byte fields as text
pub fn describe_call(c: &Call) -> Value {
    fn textify(v: &Value) -> Value {
        match v {
            Value::Array(a) if a.len() > 1 && a.iter().all(|x| x.as_u64().is_some_and(|n| n < 256)) => {
                let b: Vec<u8> = a.iter().map(|x| x.as_u64().unwrap() as u8).collect();
                let s = util::lossy(&b);
                json!(if s.len() > 3000 { format!("{}… ({} bytes)", s.chars().take(1500).collect::<String>(), b.len()) } else { s })
            }
            Value::Array(a) => Value::Array(a.iter().map(textify).collect()),
            Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), textify(v))).collect()),
            Value::String(s) if s.len() > 3000 => json!(format!("{}… ({} bytes)", s.chars().take(1500).collect::<String>(), s.len())),
            v => v.clone(),
        }
    }
    let s = serde_json::to_string(c).unwrap_or_default();
    textify(&serde_json::from_str(&s).unwrap_or(Value::String(s)))
}
