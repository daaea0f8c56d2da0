//! What the on-path attacker and decaying bits do to messages and records.
use crate::gen::{self, ProofSpec, ReqSpec};
use crate::model;
use crate::seam::NS;
use crate::tape::Tape;
use crate::{tm, util};
use serde_json::{json, Value};

/// classes of protocol-level tampering
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum M {
    Nonce,
    Bind,
    Time,
    Kind,
    Key,
    Sig,
    Profile,
    Extra,
}
pub const MS: [M; 8] = [M::Nonce, M::Bind, M::Time, M::Kind, M::Key, M::Sig, M::Profile, M::Extra];

impl M {
    pub fn name(self) -> &'static str {
        match self {
            M::Nonce => "tamper nonce",
            M::Bind => "tamper audience or issuer",
            M::Time => "tamper validity window",
            M::Kind => "tamper type or algorithm",
            M::Key => "tamper key reference",
            M::Sig => "tamper signature",
            M::Profile => "tamper credential",
            M::Extra => "tamper extra members",
        }
    }
}

/// what an attacker knows of the other sessions
#[derive(Default)]
pub struct Known {
    pub nonces: Vec<String>,
    pub issuers: Vec<String>,
    pub clients: Vec<String>,
    pub kids: Vec<String>,
    pub dids: Vec<String>,
    pub sigs: Vec<String>,
    pub profiles: Vec<Value>,
    pub codes: Vec<String>,
    /// all of them
    pub strays: Vec<String>,
    /// instants at which something starts or ends
    pub deadlines: Vec<i128>,
}

fn either(t: &mut Tape, k: &Known, xs: &[String], s: &str) -> String {
    let stray = t.chance(100);
    let xs = if stray { &k.strays } else { xs };
    if !xs.is_empty() && t.chance(400) {
        let x = t.pick(xs).clone();
        if x != s {
            return x;
        }
    }
    gen::near(t, s)
}

/// an offset around a boundary
pub fn delta(t: &mut Tape) -> i128 {
    let d = *t.pick(&[0, 1, 1_000, 1_000_000, NS, 250_000_000, 60 * NS, 3600 * NS, 86_400 * NS, 999_999_999, 999]);
    if t.chance(500) {
        -d
    } else {
        d
    }
}

pub fn instant(t: &mut Tape, now: i128, known: &Known) -> i128 {
    let base = if !known.deadlines.is_empty() && t.chance(300) { *t.pick(&known.deadlines) } else { now };
    let v = match t.below(12) {
        0 => 0,
        1 => (1 << 31) * NS,
        2 => (1i128 << 32) * NS,
        3 => tm::MAX_NS,
        4 => -NS,
        5 => base + 10 * 365 * 86_400 * NS,
        6 => base - 10 * 365 * 86_400 * NS,
        _ => base + delta(t),
    };
    v.clamp(tm::MIN_NS, tm::MAX_NS)
}

/// a time no clock shows
fn extreme(t: &mut Tape) -> Value {
    let base = *t.pick(&[
        0i128,
        i128::from(i32::MAX),
        i128::from(u32::MAX),
        1 << 53,
        i128::from(i64::MAX),
        i128::from(u64::MAX),
        i128::from(i64::MAX) / 1_000,
        i128::from(i64::MAX) / 1_000_000,
        i128::from(i64::MAX) / NS,
        tm::MAX_NS / NS,
        tm::MIN_NS / NS,
        -i128::from(i64::MAX) / 1_000,
        -i128::from(i64::MAX) / NS,
        i128::from(i64::MIN),
        253_402_300_799,
        -62_135_596_800,
        10_000_000_000_000,
    ]);
    let n = base + i128::from(t.below(5)) - 2;
    let n = if t.chance(150) { -n } else { n };
    match t.below(6) {
        0 => json!(n as f64),
        1 => json!(n as f64 + 0.5),
        2 => json!(n.to_string()),
        _ => {
            if let Ok(i) = i64::try_from(n) {
                json!(i)
            } else if let Ok(u) = u64::try_from(n) {
                json!(u)
            } else {
                json!(n as f64)
            }
        }
    }
}

pub fn tamper(t: &mut Tape, m: M, r: &mut ReqSpec, now: i128, k: &Known) {
    let Some(p) = &mut r.proof else {
        if m == M::Profile {
            profile(t, &mut r.profile, k);
        }
        return;
    };
    if t.chance(60) {
        // a member that counts is missing, of another type, or goes by another name
        let (h, name) = *match m {
            M::Nonce => t.pick(&[(false, "nonce")]),
            M::Bind => t.pick(&[(false, "aud"), (false, "iss")]),
            M::Time => t.pick(&[(false, "nbf"), (false, "exp"), (false, "iat")]),
            M::Kind => t.pick(&[(true, "typ"), (true, "alg")]),
            M::Key => t.pick(&[(true, "kid")]),
            _ => t.pick(&[(false, "sub"), (false, "nonce"), (false, "aud"), (true, "kid"), (true, "typ"), (true, "alg")]),
        };
        let obj: Value = serde_json::from_str(&if h { p.header() } else { p.body() }).unwrap_or(Value::Null);
        let was = obj.get(name).cloned().unwrap_or(Value::Null);
        let v = match t.below(10) {
            0..=2 => None,
            3 => Some(Value::Null),
            4 => Some(json!([was])),
            5 => Some(json!({ "value": was })),
            6 => Some(json!([was, "other"])),
            7 => Some(json!("")),
            8 => Some(json_odd(t)),
            _ => Some(json!(was.to_string())),
        };
        if v.is_none() && t.chance(500) {
            let other = match name {
                "nonce" => *t.pick(&["c_nonce", "Nonce", "jti", "cnonce"]),
                "aud" => *t.pick(&["audience", "Aud", "credential_issuer"]),
                "iss" => *t.pick(&["client_id", "issuer", "azp"]),
                "kid" => *t.pick(&["Kid", "key_id", "x5t"]),
                "typ" => *t.pick(&["type", "cty", "Typ"]),
                "alg" => *t.pick(&["algorithm", "Alg", "enc"]),
                _ => *t.pick(&["notBefore", "expires", "issued_at", "not_before", "expires_at"]),
            };
            p.put.push((h, other.to_owned(), Some(was)));
        }
        p.put.push((h, name.to_owned(), v));
        if t.chance(700) {
            return;
        }
    }
    match m {
        M::Nonce => p.nonce = if t.chance(80) { gen::long(t) } else { either(t, k, &k.nonces, &p.nonce) },
        M::Bind => match t.below(12) {
            11 => {
                // an identity of the wallet where the client belongs, or the client with a part of it
                let kid = p.kid().unwrap_or("").to_owned();
                let did = kid.split('#').next().unwrap_or("").to_owned();
                p.iss = Some(match t.below(4) {
                    0 => kid,
                    1 => did,
                    2 => format!("{}#{}", p.iss.as_deref().unwrap_or(&did), kid.split_once('#').map_or("key-1", |x| x.1)),
                    _ => kid.split_once('#').map_or("", |x| x.1).to_owned(),
                });
            }
            9 => p.aud = gen::long(t),
            10 => p.iss = Some(gen::long(t)),
            6 => {
                // the right value in the wrong claim
                let was = p.iss.take();
                p.sub = was.or_else(|| k.clients.first().cloned());
                if t.chance(700) {
                    let s = p.sub.clone().unwrap_or_default();
                    p.iss = Some(either(t, k, &k.clients, &s));
                }
            }
            7 => {
                let was = p.aud.clone();
                p.aud = either(t, k, &k.issuers, &was);
                if t.chance(500) {
                    p.sub = Some(was);
                } else {
                    let name = *t.pick(&["issuer", "client_id", "azp", "audience", "aud2", "origin"]);
                    p.extra_body.push((name.to_owned(), json!(was)));
                }
            }
            8 => {
                let i = p.iss.replace(p.aud.clone());
                p.aud = i.unwrap_or_default();
            }
            0 | 1 => p.aud = either(t, k, &k.issuers, &p.aud),
            2 => p.iss = None,
            3 => {
                let s = p.iss.clone().unwrap_or_default();
                p.iss = Some(either(t, k, &k.clients, &s));
            }
            4 => p.iss = Some(String::new()),
            _ => {
                p.iss = Some(p.kid().unwrap_or("x").to_owned());
            }
        },
        M::Time if t.chance(120) => {
            // numbers at and beyond every limit a reader could have
            let v = extreme(t);
            match t.below(3) {
                0 => {
                    p.nbf = None;
                    p.extra_body.push(("nbf".to_owned(), v));
                }
                1 => {
                    p.exp = None;
                    p.extra_body.push(("exp".to_owned(), v));
                }
                _ => p.raw_iat = Some(v),
            }
        }
        M::Time => {
            let which = t.below(4);
            if which != 1 {
                p.nbf = Some(instant(t, now, k));
                p.style[1] = t.below(6);
            }
            if which != 0 {
                p.exp = Some(instant(t, now, k));
                p.style[2] = t.below(6);
            }
            if which == 3 {
                p.iat = instant(t, now, k);
                p.style[0] = t.below(6);
            }
        }
        M::Kind => kind(t, r),
        M::Key => key(t, p, k),
        M::Sig => match t.below(9) {
            0 => p.sig = None,
            1 => p.sig = Some(String::new()),
            2 => p.sig = Some(either(t, k, &k.sigs, p.sig.as_deref().unwrap_or(""))),
            3 => p.tail.push(String::new()),
            4 => p.tail.push(gen::text(t, 500)),
            5 => p.sig = Some(gen::text(t, 900)),
            6 => p.sig = Some(gen::near(t, p.sig.as_deref().unwrap_or("")).replace('.', "_")),
            7 => {
                // a signature hidden behind an empty segment
                let s = p.sig.replace(String::new());
                p.tail = s.into_iter().collect();
            }
            _ => {
                // unsigned, with claims that look like further segments
                p.sig = None;
                p.sub = Some("a.b.c".to_owned());
                if t.chance(500) {
                    p.tail.clear();
                }
            }
        },
        M::Profile => profile(t, &mut r.profile, k),
        M::Extra => {
            let v = json_odd(t);
            let n = *t.pick(&["crv", "crit", "cty", "b64", "jku", "x5t#S256", "jti", "azp", "Alg", "NONCE", "nonce ", "kid2", "trust_chain"]);
            if t.chance(500) {
                p.extra_header.push((n.to_owned(), v));
            } else {
                p.extra_body.push((n.to_owned(), v));
            }
        }
    }
}

pub const ALGS: [&str; 26] = [
    "none", "HS256", "HS384", "HS512", "ECDH-ES", "None", "NONE", "nOnE", "", "hs256", "RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512",
    "EdDSA", "ES256K", "eddsa", "ES256K-R", "ECDH-ES+A128KW", "A256GCM", "ESBlake2bK",
];

fn kind(t: &mut Tape, r: &mut ReqSpec) {
    let p = r.proof.as_mut().expect("has proof");
    match t.below(5) {
        0 => {
            p.typ = match t.below(10) {
                0 => (*t.pick(&["JWT", "openid4vci-proof", "openid4vci-proof+sd-jwt", "openid4vci-proof+cwt", "openid4vci-proofs+jwt", "openid4vci-proof+jwtx", "proof+jwt", "+jwt"])).to_owned(),
                1 => format!("openid4vci-proof+jwt{}", t.pick(&[";v=1", "; charset=utf-8", ";", ",JWT", " JWT", "+x", "/x", "#x", "?x"])),
                8 => format!("{}openid4vci-proof+jwt", t.pick(&["x-", "application/x-", "*/", "JWT,", "JWT ", "urn:", "text/"])),
                2 => String::new(),
                3 => "openid4vci-proof+JWT".to_owned(),
                4 => "OPENID4VCI-PROOF+JWT".to_owned(),
                5 => "application/openid4vci-proof+jwt".to_owned(),
                6 => "vc+sd-jwt".to_owned(),
                7 => gen::long(t),
                _ => gen::near(t, "openid4vci-proof+jwt"),
            }
        }
        1 | 2 => p.alg = (*t.pick(&ALGS)).to_owned(),
        3 => {
            r.proof_type = match t.below(9) {
                0 => None,
                1 => Some("cwt".to_owned()),
                2 => Some("ldp_vp".to_owned()),
                3 => Some(String::new()),
                4 => Some("JWT".to_owned()),
                5 => Some("jWt".to_owned()),
                6 => Some("jwt ".to_owned()),
                7 if t.chance(500) => Some("jwt_vp".to_owned()),
                7 => Some(gen::long(t)),
                _ => Some(gen::near(t, "jwt")),
            }
        }
        _ => {
            p.key = match t.below(11) {
                // a key of the sender's choice, complete and usable
                7 | 8 => {
                    let v = gen::some_jwk(t);
                    let v = if t.chance(700) { json!(v.to_string()) } else { v };
                    vec![("jwk".to_owned(), v)]
                }
                9 => {
                    let v = json!(gen::some_jwk(t).to_string());
                    let mut k = p.key.clone();
                    let i = t.below(k.len() as u32 + 1) as usize;
                    k.insert(i, ((*t.pick(&["jwk", "jku", "JWK", "cnf", "key"])).to_owned(), v));
                    k
                }
                10 => {
                    // the key id under another name, or in the claims
                    let kid = p.kid().unwrap_or("").to_owned();
                    match t.below(6) {
                        0 => p.extra_body.push(("kid".to_owned(), json!(kid))),
                        1 => p.sub = Some(kid),
                        n => p.extra_header.push((["KID", "Kid", "keyId", "key_id"][n as usize - 2].to_owned(), json!(kid))),
                    }
                    vec![]
                }
                0 => vec![],
                1 => vec![("jwk".to_owned(), json!("{\"kty\":\"OKP\"}"))],
                2 => vec![("jwk".to_owned(), json!({"kty": "OKP", "crv": "Ed25519", "x": "AAAA"}))],
                3 => vec![("x5c".to_owned(), json!("MIIB"))],
                4 => vec![("x5c".to_owned(), json!(["MIIB", "MIIC"]))],
                5 => {
                    let mut k = p.key.clone();
                    k.push(("jwk".to_owned(), json!("x")));
                    k
                }
                _ => vec![("kid".to_owned(), Value::Null)],
            }
        }
    }
}

fn key(t: &mut Tape, p: &mut ProofSpec, k: &Known) {
    let kid = p.kid().unwrap_or("").to_owned();
    let (did, frag) = kid.split_once('#').unwrap_or((&kid, ""));
    if t.chance(60) {
        p.key = vec![];
        return;
    }
    let new = match t.below(18) {
        16 => format!("#{}", gen::long(t)),
        17 => gen::long(t),
        0 => either(t, k, &k.kids, &kid),
        1 => did.to_owned(),
        2 => format!("#{frag}"),
        3 => String::new(),
        4 => format!("{did}#"),
        5 => format!("{did}?versionId=1#{frag}"),
        6 => format!("{did}/path#{frag}"),
        7 => format!("{did}#{}", gen::near(t, frag)),
        8 => format!("{}#{frag}", either(t, k, &k.dids, did)),
        9 => format!("{did}##{frag}"),
        10 => gen::text(t, 900),
        11 => "did:".to_owned(),
        12 => format!("{did}#{frag}#{frag}"),
        13 => format!("https://example.com/#{frag}"),
        14 => kid.to_uppercase(),
        _ => gen::near(t, &kid),
    };
    if t.chance(150) {
        p.sub = Some(either(t, k, &k.dids, did));
    }
    p.key = vec![("kid".to_owned(), json!(new))];
}

fn profile(t: &mut Tape, v: &mut Value, k: &Known) {
    match t.below(7) {
        0 | 1 if !k.profiles.is_empty() => *v = t.pick(&k.profiles).clone(),
        2 => *v = gen::profile(t, 300),
        3 => {
            let f = *t.pick(&["ldp_vc", "jwt_vc_json", "jwt_vc_json-ld", "mso_mdoc", "vc+sd-jwt", "LDP_VC", ""]);
            v["format"] = json!(f);
        }
        4 => {
            if let Some(Value::Array(a)) = v.get_mut("types") {
                match t.below(4) {
                    0 => a.push(json!("Extra")),
                    1 => {
                        a.pop();
                    }
                    2 => a.reverse(),
                    _ => {
                        if let Some(Value::String(s)) = a.last_mut() {
                            *s = gen::near(t, s);
                        }
                    }
                }
            } else if let Some(Value::String(s)) = v.get_mut("doctype") {
                *s = gen::near(t, s);
            }
        }
        5 => {
            if let Some(o) = v.as_object_mut() {
                let ks: Vec<String> = o.keys().filter(|k| *k != "format").cloned().collect();
                if !ks.is_empty() {
                    o.remove(t.pick(&ks));
                }
            }
        }
        _ => {
            if let Some(o) = v.as_object_mut() {
                o.insert((*t.pick(&["order", "credentialSubject", "claims", "@context"])).to_owned(), json_odd(t));
            }
        }
    }
}

pub fn json_odd(t: &mut Tape) -> Value {
    match t.below(16) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(0),
        3 => json!(-1),
        4 => json!(u64::MAX),
        5 => json!(1e300),
        6 => json!(0.5),
        7 => json!(""),
        8 => json!([]),
        9 => json!({}),
        10 => json!([[]]),
        11 => json!({"": null}),
        12 => json!(i64::MIN),
        13 => json!(gen::text(t, 900)),
        14 => {
            let mut v = json!(1);
            for _ in 0..t.range(1, 90) {
                v = json!([v]);
            }
            v
        }
        _ => json!([gen::text(t, 500), {"a": gen::text(t, 500)}]),
    }
}

fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn at_path<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match c {
            Value::Object(m) => m.get_mut(k)?,
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(c)
}

/// structural damage: JSON of another shape
pub fn reshape(t: &mut Tape, b: &[u8]) -> Vec<u8> {
    let Some((mut v, _)) = model::jparse(b) else { return garble(t, b) };
    let mut ps = vec![];
    paths(&v, &mut vec![], &mut ps);
    for _ in 0..t.range(1, 2) {
        let p = t.pick(&ps).clone();
        let kind = t.below(5);
        // step inside a compact JWT, too
        if let Some(Value::String(s)) = at_path(&mut v, &p) {
            if s.matches('.').count() >= 1 && t.chance(800) {
                *s = rejwt(t, s);
                continue;
            }
        }
        match (kind, p.split_last()) {
            (0, Some((last, parent))) => {
                if let Some(Value::Object(m)) = at_path(&mut v, parent) {
                    m.remove(last);
                }
            }
            (1, Some((last, parent))) => {
                if let Some(Value::Object(m)) = at_path(&mut v, parent) {
                    if let Some(x) = m.remove(last) {
                        m.insert(gen::near(t, last), x);
                    }
                }
            }
            (2, Some(_)) => {
                if let Some(x) = at_path(&mut v, &p) {
                    *x = match &*x {
                        Value::String(s) => json!(gen::near(t, s)),
                        Value::Number(n) => json!(n.as_i64().unwrap_or(7).wrapping_mul(-3)),
                        Value::Bool(b) => json!(!b),
                        Value::Array(a) => json!([a, a]),
                        o => json!([o]),
                    };
                }
            }
            (3, Some(_)) => {
                if let Some(x) = at_path(&mut v, &p) {
                    *x = json!(x.to_string());
                }
            }
            _ => {
                if let Some(x) = at_path(&mut v, &p) {
                    *x = json_odd(t);
                }
            }
        }
    }
    v.to_string().into_bytes()
}

/// damage inside a compact JWT
pub fn rejwt(t: &mut Tape, s: &str) -> String {
    let mut segs: Vec<String> = s.split('.').map(str::to_owned).collect();
    let i = t.below(segs.len() as u32) as usize;
    match t.below(8) {
        0 => {
            segs.remove(i);
        }
        1 => segs.insert(i, String::new()),
        2 => segs.swap(0, i),
        3 => segs[i].push('='),
        4 => segs[i] = segs[i].chars().take(t.below(segs[i].len() as u32 + 1) as usize).collect(),
        5 => segs.truncate(i),
        _ => {
            if let Some(b) = util::unb64(&segs[i]) {
                let b = if t.chance(700) { reshape_flat(t, &b) } else { garble(t, &b) };
                segs[i] = util::b64(&b);
            } else {
                segs[i] = gen::near(t, &segs[i]);
            }
        }
    }
    segs.join(".")
}

fn reshape_flat(t: &mut Tape, b: &[u8]) -> Vec<u8> {
    let Some((Value::Object(mut m), _)) = model::jparse(b) else { return garble(t, b) };
    let ks: Vec<String> = m.keys().cloned().collect();
    if ks.is_empty() {
        return b"[]".to_vec();
    }
    let k = t.pick(&ks).clone();
    match t.below(4) {
        0 => {
            m.remove(&k);
        }
        1 => {
            let v = json_odd(t);
            m.insert(k, v);
        }
        2 => {
            // repeated key
            let body = Value::Object(m).to_string();
            return format!("{},{}:{}}}", &body[..body.len() - 1], json!(k), json_odd(t)).into_bytes();
        }
        _ => {
            let v = m.remove(&k).unwrap_or(Value::Null);
            m.insert(gen::near(t, &k), v);
        }
    }
    Value::Object(m).to_string().into_bytes()
}

/// bit rot and torn bytes
pub fn garble(t: &mut Tape, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..t.range(1, 3) {
        if v.is_empty() {
            v = vec![*t.pick(&[b'{', 0, 0xff, b'"'])];
            continue;
        }
        let i = t.below(v.len() as u32) as usize;
        match t.below(10) {
            0 => v[i] ^= 1 << t.below(8),
            1 => v.truncate(i),
            2 => v.insert(i, *t.pick(&[b'"', b'{', b'}', b'[', b'\\', b',', 0, 0xff, 0xc3, b'-', b'.', b'9'])),
            3 => {
                v.remove(i);
            }
            4 => {
                let j = (i + t.range(1, 40) as usize).min(v.len());
                let part = v[i..j].to_vec();
                v.splice(i..i, part);
            }
            5 => v[i] = t.below(256) as u8,
            6 => {
                let j = (i + t.range(1, 40) as usize).min(v.len());
                for x in &mut v[i..j] {
                    *x = 0;
                }
            }
            7 => {
                let ins = *t.pick(&["\\u0000", "\\ud800", "1e999", "99999999999999999999", "null", "{}", "-0", "\u{feff}", "\u{2028}", "\\\""]);
                v.splice(i..i, ins.bytes());
            }
            8 => {
                let n = t.range(100, 4000) as usize;
                let c = *t.pick(&[b'[', b'{', b'a', b'.', b'9']);
                v.splice(i..i, std::iter::repeat(c).take(n));
            }
            _ => v.swap(i, 0),
        }
    }
    v
}
