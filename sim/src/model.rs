//! Reference model: what each message or record says, read from its bytes by this harness's own
//! parsers, and for which reasons a request has to be refused. The model has no notion of the
//! order in which an implementation checks things.
use crate::seam::{Interval, NS};
use crate::{tm, util};
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde_json::{Map, Value};

/// How a message reads: clearly as this, clearly as nothing valid, or the format leaves it open.
#[derive(Clone, Debug)]
pub enum P<T> {
    Ok(T),
    Bad,
    Unclear,
}

impl<T> P<T> {
    pub fn as_ok(&self) -> Option<&T> {
        if let P::Ok(t) = self {
            Some(t)
        } else {
            None
        }
    }
}

/// JSON that remembers whether an object had a repeated key
struct Dup(Value, bool);

impl<'de> Deserialize<'de> for Dup {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Dup;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("json")
            }
            fn visit_bool<E>(self, v: bool) -> Result<Dup, E> {
                Ok(Dup(v.into(), false))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Dup, E> {
                Ok(Dup(v.into(), false))
            }
            fn visit_u64<E>(self, v: u64) -> Result<Dup, E> {
                Ok(Dup(v.into(), false))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Dup, E> {
                Ok(Dup(v.into(), false))
            }
            fn visit_str<E>(self, v: &str) -> Result<Dup, E> {
                Ok(Dup(v.into(), false))
            }
            fn visit_unit<E>(self) -> Result<Dup, E> {
                Ok(Dup(Value::Null, false))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Dup, A::Error> {
                let (mut v, mut dup) = (vec![], false);
                while let Some(Dup(x, d)) = a.next_element()? {
                    v.push(x);
                    dup |= d;
                }
                Ok(Dup(Value::Array(v), dup))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Dup, A::Error> {
                let (mut m, mut dup) = (Map::new(), false);
                while let Some((k, Dup(x, d))) = a.next_entry::<String, Dup>()? {
                    dup |= d | m.insert(k, x).is_some();
                }
                Ok(Dup(Value::Object(m), dup))
            }
        }
        d.deserialize_any(V)
    }
}

/// the JSON value, or None if these bytes are not JSON; the flag says a key was repeated
pub fn jparse(b: &[u8]) -> Option<(Value, bool)> {
    serde_json::from_slice::<Dup>(b).ok().map(|d| (d.0, d.1))
}

/// not JSON even to a reader that skips over what it does not need
fn hopeless(b: &[u8]) -> bool {
    serde_json::from_slice::<serde::de::IgnoredAny>(b).is_err()
}

/// An object without repeated keys
fn obj(b: &[u8]) -> P<Map<String, Value>> {
    match jparse(b) {
        None if hopeless(b) => P::Bad,
        None => P::Unclear,
        Some((_, true)) => P::Unclear,
        Some((Value::Object(m), _)) => P::Ok(m),
        Some(_) => P::Unclear,
    }
}

/// absent, null and a string are the three clear forms of an optional text field
fn opt_str(m: &Map<String, Value>, k: &str) -> Result<Option<String>, ()> {
    match m.get(k) {
        None | Some(Value::Null) => Ok(None),
        Some(Value::String(s)) => Ok(Some(s.clone())),
        _ => Err(()),
    }
}

pub const ASYMMETRIC: [&str; 11] =
    ["RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512", "EdDSA", "ES256K"];
pub const NOT_SIGNATURES: [&str; 5] = ["HS256", "HS384", "HS512", "none", "ECDH-ES"];

#[derive(Clone, Debug)]
pub struct ProofView {
    pub typ: String,
    pub alg: String,
    pub kid: Option<String>,
    pub jwk: Option<String>,
    pub x5c: Option<String>,
    pub iss: Option<String>,
    pub aud: String,
    pub sub: Option<String>,
    pub iat: i128,
    pub nonce: String,
    pub nbf: Option<i128>,
    pub exp: Option<i128>,
    pub sig: Option<String>,
    pub segments: usize,
    pub raw: String,
    /// more than one of kid, jwk, x5c, or one that is not text
    pub key_unclear: bool,
    pub header: Value,
    pub body: Value,
}

fn time(v: &Value) -> P<i128> {
    match v {
        Value::String(s) => match tm::parse(s) {
            Some(t) => P::Ok(t),
            None => P::Unclear,
        },
        Value::Number(n) => {
            let t = if let Some(i) = n.as_i64() {
                i128::from(i) * NS
            } else if let Some(f) = n.as_f64() {
                if f.abs() < 1e12 && (f * 512.0).fract() == 0.0 {
                    (f * 512.0) as i128 * (NS / 512)
                } else {
                    return P::Unclear;
                }
            } else {
                return P::Unclear;
            };
            if (tm::MIN_NS..=tm::MAX_NS).contains(&t) {
                P::Ok(t)
            } else {
                P::Unclear
            }
        }
        _ => P::Bad,
    }
}

pub fn proof(jwt: &str) -> P<ProofView> {
    let segs: Vec<&str> = jwt.split('.').collect();
    if segs.len() < 2 {
        return P::Bad;
    }
    let (Some(h), Some(b)) = (util::unb64(segs[0]), util::unb64(segs[1])) else { return P::Unclear };
    let (Some((h, dh)), Some((b, db))) = (jparse(&h), jparse(&b)) else {
        return if hopeless(&h) || hopeless(&b) { P::Bad } else { P::Unclear };
    };
    if dh || db {
        return P::Unclear;
    }
    let (Value::Object(hm), Value::Object(bm)) = (&h, &b) else { return P::Unclear };
    let need = |m: &Map<String, Value>, k: &str| -> P<String> {
        match m.get(k) {
            Some(Value::String(s)) => P::Ok(s.clone()),
            _ => P::Bad,
        }
    };
    if hm.get("alg").is_some_and(Value::is_object) {
        return P::Unclear;
    }
    let (P::Ok(typ), P::Ok(alg)) = (need(hm, "typ"), need(hm, "alg")) else { return P::Bad };
    let (P::Ok(aud), P::Ok(nonce)) = (need(bm, "aud"), need(bm, "nonce")) else { return P::Bad };
    if !ASYMMETRIC.contains(&alg.as_str()) && !NOT_SIGNATURES.contains(&alg.as_str()) {
        return P::Bad;
    }
    let (Ok(iss), Ok(sub)) = (opt_str(bm, "iss"), opt_str(bm, "sub")) else { return P::Bad };
    let iat = match bm.get("iat") {
        None => return P::Bad,
        Some(v) => match time(v) {
            P::Ok(t) => t,
            P::Bad => return P::Bad,
            P::Unclear => return P::Unclear,
        },
    };
    let ot = |k: &str| -> P<Option<i128>> {
        match bm.get(k) {
            None | Some(Value::Null) => P::Ok(None),
            Some(v) => match time(v) {
                P::Ok(t) => P::Ok(Some(t)),
                P::Bad => P::Bad,
                P::Unclear => P::Unclear,
            },
        }
    };
    let (nbf, exp) = match (ot("nbf"), ot("exp")) {
        (P::Ok(a), P::Ok(b)) => (a, b),
        (P::Bad, _) | (_, P::Bad) => return P::Bad,
        _ => return P::Unclear,
    };
    let keys = ["kid", "jwk", "x5c"];
    let present: Vec<&str> = keys.iter().copied().filter(|k| hm.contains_key(*k)).collect();
    let key_unclear = present.len() > 1 || present.iter().any(|k| !hm[*k].is_string());
    let g = |k: &str| hm.get(k).and_then(Value::as_str).map(str::to_owned);
    P::Ok(ProofView {
        typ,
        alg,
        kid: g("kid"),
        jwk: g("jwk"),
        x5c: g("x5c"),
        iss,
        aud,
        sub,
        iat,
        nonce,
        nbf,
        exp,
        sig: segs.get(2).map(|s| (*s).to_owned()),
        segments: segs.len(),
        raw: format!("{}.{}", segs[0], segs[1]),
        key_unclear,
        header: h.clone(),
        body: b.clone(),
    })
}

#[derive(Clone, Debug)]
pub struct ReqView {
    pub profile: P<Value>,
    pub proof: Option<(String, String)>,
}

fn known(m: &Map<String, Value>, keys: &[&str]) -> Value {
    let mut out = Map::new();
    for k in keys {
        if let Some(v) = m.get(*k) {
            if !v.is_null() {
                out.insert((*k).to_owned(), v.clone());
            }
        }
    }
    Value::Object(out)
}

fn norm_subject(v: &Value) -> Option<Value> {
    let m = v.as_object()?;
    let mut out = Map::new();
    for (k, s) in m {
        let s = s.as_object()?;
        // whatever else is in there are claims nested in this one
        let mut s = s.clone();
        if let Some(v) = s.remove("valueType") {
            if s.insert("value_type".to_owned(), v).is_some() {
                return None;
            }
        }
        let mut e = crate::oracle::no_nulls(&Value::Object(s));
        if e.get("mandatory").is_some_and(|v| !v.is_boolean()) || e.get("value_type").is_some_and(|v| !v.is_string()) {
            return None;
        }
        if let Some(d) = e.get("display").cloned() {
            let ds: Option<Vec<Value>> = d
                .as_array()?
                .iter()
                .map(|x| {
                    let n = known(x.as_object()?, &["name", "locale"]);
                    n.as_object()?.values().all(Value::is_string).then_some(n)
                })
                .collect();
            e["display"] = Value::Array(ds?);
        }
        out.insert(k.clone(), e);
    }
    Some(Value::Object(out))
}

/// the credential profile an object contains: its protocol-defined fields, nulls dropped
pub fn profile(m: &Map<String, Value>) -> P<Value> {
    let Some(f) = m.get("format").and_then(Value::as_str) else { return P::Bad };
    let (keys, subject): (&[&str], &str) = match f {
        "jwt_vc_json" | "jwt_vc_json-ld" => (&["format", "types", "credentialSubject", "order"], "credentialSubject"),
        "ldp_vc" => (&["format", "@context", "types", "credentialSubject", "order"], "credentialSubject"),
        "mso_mdoc" => (&["format", "doctype", "claims", "order"], "claims"),
        _ => return P::Bad,
    };
    let mut out = known(m, keys);
    let strings = |v: &Value| v.as_array().is_some_and(|a| a.iter().all(Value::is_string));
    let required = if f == "mso_mdoc" { "doctype" } else { "types" };
    let typed = match out.get(required) {
        Some(v) if f == "mso_mdoc" => v.is_string(),
        Some(v) => strings(v),
        None => false,
    } && out.get("order").map_or(true, strings)
        && (f != "ldp_vc" || out.get("@context").and_then(Value::as_array).is_some_and(|a| a.iter().all(|c| c.is_string() || c.is_object())));
    if !typed {
        return P::Unclear;
    }
    if let Some(s) = out.get(subject).cloned() {
        match norm_subject(&s) {
            Some(n) => out[subject] = n,
            None => return P::Unclear,
        }
    }
    P::Ok(out)
}

pub fn request(b: &[u8]) -> P<ReqView> {
    let m = match obj(b) {
        P::Ok(m) => m,
        P::Bad => return P::Bad,
        P::Unclear => return P::Unclear,
    };
    let proof = match m.get("proof") {
        None | Some(Value::Null) => None,
        Some(Value::Object(p)) => {
            let Some(jwt) = p.get("jwt").and_then(Value::as_str) else { return P::Unclear };
            let pt = match p.get("proof_type") {
                None => "JWT".to_owned(),
                Some(Value::String(s)) => s.clone(),
                _ => return P::Unclear,
            };
            Some((pt, jwt.to_owned()))
        }
        _ => return P::Unclear,
    };
    P::Ok(ReqView { profile: profile(&m), proof })
}

#[derive(Clone, Debug, PartialEq)]
pub struct OfferView {
    pub issuer: String,
    pub creds: Vec<Value>,
    pub auth: bool,
    pub pre: Option<(String, bool)>,
}

pub const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";

pub fn offer(b: &[u8]) -> P<OfferView> {
    let m = match obj(b) {
        P::Ok(m) => m,
        _ => return P::Unclear,
    };
    let (Some(issuer), Some(creds), Some(g)) =
        (m.get("credential_issuer").and_then(Value::as_str), m.get("credentials").and_then(Value::as_array), m.get("grants").and_then(Value::as_object))
    else {
        return P::Unclear;
    };
    let pre = match g.get(PRE) {
        None | Some(Value::Null) => None,
        Some(Value::Object(p)) => {
            let Some(code) = p.get("pre-authorized_code").and_then(Value::as_str) else { return P::Unclear };
            let req = match p.get("user_pin_required") {
                None | Some(Value::Null) => false,
                Some(Value::Bool(b)) => *b,
                _ => return P::Unclear,
            };
            Some((code.to_owned(), req))
        }
        _ => return P::Unclear,
    };
    let auth = match g.get("authorization_code") {
        None | Some(Value::Null) => false,
        Some(Value::Object(_)) => true,
        _ => return P::Unclear,
    };
    P::Ok(OfferView { issuer: issuer.to_owned(), creds: creds.clone(), auth, pre })
}

#[derive(Clone, Debug, PartialEq)]
pub struct OptsView {
    pub c_nonce: Option<(u32, String, i128)>,
    pub client_id: Option<String>,
}

pub fn opts(b: &[u8]) -> P<OptsView> {
    let m = match obj(b) {
        P::Ok(m) => m,
        _ => return P::Unclear,
    };
    let Ok(client_id) = opt_str(&m, "client_id") else { return P::Unclear };
    let c_nonce = match m.get("c_nonce") {
        None | Some(Value::Null) => None,
        Some(Value::Object(c)) => {
            let (Some(e), Some(x), Some(at)) = (
                c.get("c_nonce_expires_in").and_then(Value::as_u64).and_then(|e| u32::try_from(e).ok()),
                c.get("expected_c_nonce").and_then(Value::as_str),
                c.get("c_nonce_created_at").and_then(Value::as_str).and_then(tm::parse),
            ) else {
                return P::Unclear;
            };
            Some((e, x.to_owned(), at))
        }
        _ => return P::Unclear,
    };
    P::Ok(OptsView { c_nonce, client_id })
}

#[derive(Clone, Debug)]
pub struct MetaView {
    pub issuer: String,
    /// (id, profile)
    pub creds: Vec<(Option<String>, P<Value>)>,
}

pub fn meta(b: &[u8]) -> P<MetaView> {
    let m = match obj(b) {
        P::Ok(m) => m,
        _ => return P::Unclear,
    };
    let (Some(issuer), Some(sup)) = (m.get("credential_issuer").and_then(Value::as_str), m.get("credentials_supported").and_then(Value::as_array)) else {
        return P::Unclear;
    };
    let mut creds = vec![];
    for s in sup {
        let Some(o) = s.as_object() else { return P::Unclear };
        let Ok(id) = opt_str(o, "id") else { return P::Unclear };
        creds.push((id, profile(o)));
    }
    P::Ok(MetaView { issuer: issuer.to_owned(), creds })
}

impl MetaView {
    pub fn dup(&self) -> bool {
        let ids: Vec<&String> = self.creds.iter().filter_map(|c| c.0.as_ref()).collect();
        (0..ids.len()).any(|i| ids[..i].contains(&ids[i]))
    }
    pub fn find(&self, id: &str) -> Option<&P<Value>> {
        self.creds.iter().find(|c| c.0.as_deref() == Some(id)).map(|c| &c.1)
    }
}

#[derive(Clone, Debug)]
pub enum TokenReqView {
    Auth,
    Pre { code: String, pin: Option<u64> },
}

pub fn token_req(b: &[u8]) -> P<TokenReqView> {
    let m = match obj(b) {
        P::Ok(m) => m,
        _ => return P::Unclear,
    };
    let Some(g) = m.get("grant_type") else { return P::Unclear };
    // the library nests the tagged grant under `grant_type`; a flat request would carry text here
    let inner = match g {
        Value::Object(o) => o,
        _ => return P::Unclear,
    };
    match inner.get("grant_type").and_then(Value::as_str) {
        Some("authorization_code") => P::Ok(TokenReqView::Auth),
        Some(x) if x == PRE => {
            let code = match (inner.get("pre-authorized_code"), inner.get("pre_authorized_code")) {
                (Some(Value::String(c)), None) | (None, Some(Value::String(c))) => c.clone(),
                _ => return P::Unclear,
            };
            let pin = match inner.get("user_pin") {
                None | Some(Value::Null) => None,
                Some(v) => match v.as_u64() {
                    Some(p) => Some(p),
                    None => return P::Unclear,
                },
            };
            P::Ok(TokenReqView::Pre { code, pin })
        }
        _ => P::Unclear,
    }
}

pub fn pin_opts(b: &[u8]) -> P<Option<u64>> {
    match obj(b) {
        P::Ok(m) => match m.get("expected_user_pin") {
            None | Some(Value::Null) => P::Ok(None),
            Some(v) => v.as_u64().map_or(P::Unclear, |p| P::Ok(Some(p))),
        },
        _ => P::Unclear,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum KeyUse {
    Usable(Vec<u8>),
    /// an implementation may or may not support it, but if it does this is the key
    Maybe(Vec<u8>),
    Unusable,
    /// cannot tell
    Unclear,
}

fn key_of(vm: &Map<String, Value>) -> KeyUse {
    use KeyUse::{Maybe, Unclear, Unusable, Usable};
    let has = |k: &str| vm.get(k).filter(|v| !v.is_null());
    let forms = ["publicKeyJwk", "publicKeyBase58", "publicKeyHex", "publicKeyMultibase"];
    let n = forms.iter().filter(|k| has(k).is_some()).count();
    if n != 1 {
        return Unusable;
    }
    let ty = vm.get("type").and_then(Value::as_str).unwrap_or("");
    let raw = |b: Option<Vec<u8>>| match (b, ty) {
        (None, _) => Unusable,
        (Some(b), "Ed25519VerificationKey2018") if b.len() == 32 => Usable(b),
        (Some(b), "Ed25519VerificationKey2018") => Maybe(b),
        (Some(b), "Ed25519VerificationKey2020") if b.len() == 34 && b[..2] == [0xed, 0x01] => Usable(b[2..].to_vec()),
        (Some(b), "Ed25519VerificationKey2020") if b.len() > 2 && b[..2] == [0xed, 0x01] => Maybe(b[2..].to_vec()),
        (Some(_), _) => Unusable,
    };
    if let Some(j) = has("publicKeyJwk") {
        let Some(j) = j.as_object() else { return Unusable };
        let s = |k: &str| j.get(k).and_then(Value::as_str);
        if ["kty", "crv", "alg", "x"].iter().any(|k| j.get(*k).is_some_and(|v| !v.is_string() && !v.is_null())) {
            return Unclear;
        }
        let x = s("x").and_then(util::unb64);
        return match (s("kty"), s("crv"), s("alg"), x) {
            (Some("OKP"), Some("Ed25519"), None | Some("EdDSA"), Some(x)) if x.len() == 32 => Usable(x),
            (Some("OKP"), Some(_), _, Some(x)) => Maybe(x),
            (Some("EC"), _, Some("EdDSA"), Some(x)) if x.len() == 32 => Usable(x),
            (Some("EC"), _, Some("EdDSA"), Some(x)) => Maybe(x),
            _ => Unusable,
        };
    }
    let text = |k: &str| has(k).and_then(Value::as_str);
    if let Some(s) = text("publicKeyBase58") {
        return raw(util::unb58(s));
    }
    if let Some(s) = text("publicKeyHex") {
        return raw(util::unhex(s.strip_prefix("0x").unwrap_or(s)));
    }
    if let Some(s) = text("publicKeyMultibase") {
        return match s.as_bytes().first() {
            Some(b'z') => raw(util::unb58(&s[1..])),
            Some(b'u') => raw(util::unb64(&s[1..])),
            Some(b'f') => raw(util::unhex(&s[1..])),
            _ => Unclear,
        };
    }
    Unusable
}

#[derive(Clone, Debug)]
pub struct DocView {
    pub id: String,
    pub vms: Vec<(String, KeyUse)>,
}

pub const VM_LISTS: [&str; 7] =
    ["verificationMethod", "authentication", "assertionMethod", "keyAgreement", "capabilityInvocation", "capabilityDelegation", "publicKey"];

pub fn doc(b: &[u8]) -> P<DocView> {
    let m = match obj(b) {
        P::Ok(m) => m,
        _ => return P::Unclear,
    };
    let Some(id) = m.get("id").and_then(Value::as_str) else { return P::Unclear };
    let mut vms = vec![];
    for l in VM_LISTS {
        match m.get(l) {
            None | Some(Value::Null) => {}
            Some(Value::Array(a)) => {
                for v in a {
                    match v {
                        Value::Object(o) => {
                            let Some(vid) = o.get("id").and_then(Value::as_str) else { return P::Unclear };
                            vms.push((vid.to_owned(), key_of(o)));
                        }
                        Value::String(_) => {}
                        _ => return P::Unclear,
                    }
                }
            }
            _ => return P::Unclear,
        }
    }
    P::Ok(DocView { id: id.to_owned(), vms })
}

/// the DID a key id belongs to; None if it is not a DID URL at all
pub fn did_of(kid: &str) -> Option<&str> {
    let end = kid.find(['/', '?', '#']).unwrap_or(kid.len());
    if kid.split('#').next().unwrap_or("").is_empty() {
        None
    } else {
        Some(&kid[..end])
    }
}

/// key ids whose DID-URL reading is unusual enough that we do not judge the lookup
pub fn odd_kid(kid: &str) -> bool {
    let Some(did) = did_of(kid) else { return false };
    let rest = &kid[did.len()..];
    !did.starts_with("did:") || did.len() < 5 || rest.len() < 2 || !rest.contains('#') || rest.ends_with('#') || rest.contains("?#") || rest.contains("/#")
        || kid.matches('#').count() > 1
}

/// the DID a key id belongs to, where no reading of it could doubt that
pub fn clear_did(kid: &str) -> Option<&str> {
    did_of(kid).filter(|d| d.starts_with("did:") && d.len() >= 5)
}

/// ids that a lenient reader of DID URLs might take for the same
fn loose(id: &str) -> String {
    let s = id.replace("?#", "#").replace("/#", "#");
    s.chars().filter(|c| *c != '#' && *c != '?' && *c != '/').collect()
}

impl DocView {
    /// what an odd key id could conceivably name
    pub fn plausible(&self, kid: &str) -> Vec<KeyUse> {
        let k = loose(kid);
        let own = loose(&self.id);
        self.vms.iter().filter(|(id, _)| loose(id) == k || own.clone() + &loose(id) == k).map(|v| v.1.clone()).collect()
    }
    pub fn lookup(&self, kid: &str) -> Vec<KeyUse> {
        let did = did_of(kid).unwrap_or("");
        let rel = (did == self.id).then(|| &kid[did.len()..]);
        self.vms.iter().filter(|(id, _)| id == kid || Some(id.as_str()) == rel).map(|v| v.1.clone()).collect()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum R {
    MetaDup,
    NoOffer,
    AsMeta,
    NonceExpired,
    LifetimeOverflow,
    BadProofType,
    BadJwt,
    BadTyp,
    BadAlg,
    NonceMismatch,
    NoExpectedNonce,
    NotYetValid,
    ProofExpired,
    IssMismatch,
    AudMismatch,
    NoKey,
    UnsupportedKey,
    BadKid,
    NoDoc,
    DocOther,
    KeyNotInDoc,
    KeyUnusable,
    NoSig,
    NoProof,
    NotCovered,
    // token endpoint
    AuthFlow,
    PinTooLong,
    NoFlow,
    OnlyAuthGrant,
    PinNotExpected,
    PinMismatch,
    PinMissing,
    PinSuperfluous,
    CodeMismatch,
    // offer creation
    MissingId,
}

impl R {
    /// the properties an acceptance in spite of this reason breaks
    pub fn props(self) -> &'static [&'static str] {
        match self {
            R::MetaDup => &[],
            R::NoOffer => &["C09"],
            R::AsMeta => &["C09"],
            R::NonceExpired | R::LifetimeOverflow => &["C01"],
            R::BadProofType | R::BadTyp | R::BadAlg | R::BadJwt => &["C08"],
            R::NonceMismatch => &["C03"],
            R::NoExpectedNonce => &["C03", "C09"],
            R::NotYetValid | R::ProofExpired => &["C02"],
            R::IssMismatch | R::AudMismatch => &["C04"],
            R::NoKey | R::UnsupportedKey => &["C08"],
            R::BadKid => &["C06", "C08"],
            R::NoDoc => &["C09", "C06"],
            R::DocOther | R::KeyNotInDoc | R::KeyUnusable => &["C06"],
            R::NoSig => &["C07"],
            R::NoProof => &["C09"],
            R::NotCovered => &["C17"],
            R::AuthFlow | R::PinTooLong | R::NoFlow | R::OnlyAuthGrant | R::PinMismatch | R::PinMissing | R::PinSuperfluous | R::CodeMismatch => &["C05"],
            R::PinNotExpected => &["C05", "C09"],
            R::MissingId => &["C15"],
        }
    }
    /// the properties a refusal that wrongly claims this reason breaks (besides C16)
    pub fn claim_props(self) -> &'static [&'static str] {
        match self {
            R::NonceExpired | R::LifetimeOverflow => &["C01"],
            R::NotYetValid | R::ProofExpired => &["C02"],
            R::NonceMismatch | R::NoExpectedNonce => &["C03"],
            R::IssMismatch | R::AudMismatch => &["C04"],
            R::BadKid | R::DocOther | R::KeyNotInDoc | R::KeyUnusable => &["C06"],
            R::NoSig => &["C07"],
            R::BadProofType | R::BadTyp | R::BadAlg | R::UnsupportedKey | R::NoKey | R::BadJwt => &["C08"],
            R::NoOffer | R::NoDoc | R::NoProof | R::AsMeta => &["C09"],
            R::NotCovered => &["C17"],
            R::AuthFlow | R::PinTooLong | R::NoFlow | R::OnlyAuthGrant | R::PinNotExpected | R::PinMismatch | R::PinMissing | R::PinSuperfluous
            | R::CodeMismatch => &["C05"],
            R::MissingId | R::MetaDup => &["C15"],
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Expect {
    /// reasons that may be given; true: the reason holds whenever in the call it is looked at
    pub reasons: Vec<(R, bool)>,
    /// some input reads ambiguously: a refusal needs no further justification
    pub unclear: bool,
}

impl Expect {
    pub fn add(&mut self, r: R) {
        self.reasons.push((r, true));
    }
    pub fn maybe(&mut self, r: R) {
        self.reasons.push((r, false));
    }
    pub fn has(&self, r: R) -> bool {
        self.reasons.iter().any(|x| x.0 == r)
    }
    /// refused after `limit`: holds for now > limit
    fn after(&mut self, r: R, iv: &Interval, limit: i128) {
        if iv.lo > limit {
            self.add(r);
        } else if iv.hi > limit {
            self.maybe(r);
        }
    }
    fn before(&mut self, r: R, iv: &Interval, limit: i128) {
        if iv.hi < limit {
            self.add(r);
        } else if iv.lo < limit {
            self.maybe(r);
        }
    }
}

pub fn window(e: &mut Expect, p: &ProofView, iv: &Interval) {
    if let Some(n) = p.nbf {
        e.before(R::NotYetValid, iv, n);
    }
    if let Some(x) = p.exp {
        e.after(R::ProofExpired, iv, x);
    }
}

/// what is wrong with a proof independent of the session it is used in
pub fn shape(e: &mut Expect, p: &ProofView) {
    if !p.typ.eq_ignore_ascii_case("openid4vci-proof+jwt") {
        // Unicode case folding could map an exotic letter onto an ASCII one
        if p.typ.is_ascii() {
            e.add(R::BadTyp);
        } else if p.typ.to_lowercase() == "openid4vci-proof+jwt" {
            e.maybe(R::BadTyp);
        } else {
            e.add(R::BadTyp);
        }
    }
    if NOT_SIGNATURES.contains(&p.alg.as_str()) {
        e.add(R::BadAlg);
    }
    if p.key_unclear {
        e.unclear = true;
        if p.kid.is_none() {
            e.add(R::UnsupportedKey);
            e.maybe(R::NoKey);
        }
    } else if p.jwk.is_some() || p.x5c.is_some() {
        e.add(R::UnsupportedKey);
        // that the enclosed key is of no use is as true
        e.maybe(R::KeyUnusable);
    } else if p.kid.is_none() {
        e.add(R::NoKey);
    }
}

pub fn proof_type(e: &mut Expect, pt: &str) {
    if !pt.eq_ignore_ascii_case("jwt") {
        if pt.is_ascii() || pt.to_uppercase() != "JWT" {
            e.add(R::BadProofType);
        } else {
            e.maybe(R::BadProofType);
        }
    }
}

pub struct EvalView {
    pub e: Expect,
    pub meta: P<MetaView>,
    pub req: P<ReqView>,
    pub offer: Option<P<OfferView>>,
    pub opts: Option<P<OptsView>>,
    pub doc: Option<P<DocView>>,
    pub proof: Option<P<ProofView>>,
}

pub fn eval(meta_b: &[u8], req_b: &[u8], offer_b: Option<&[u8]>, asm: bool, doc_b: Option<&[u8]>, opts_b: Option<&[u8]>, iv: &Interval) -> EvalView {
    let mut e = Expect::default();
    let metav = meta(meta_b);
    let req = request(req_b);
    let offer = offer_b.map(offer);
    let opts = opts_b.map(opts);
    let doc = doc_b.map(doc);
    match &metav {
        P::Ok(m) if m.dup() => e.add(R::MetaDup),
        P::Ok(_) => {}
        _ => e.unclear = true,
    }
    match &offer {
        None => e.add(R::NoOffer),
        Some(P::Ok(_)) => {}
        _ => e.unclear = true,
    }
    if asm {
        e.add(R::AsMeta);
    }
    let ov = match &opts {
        None => Some(None),
        Some(P::Ok(o)) => Some(Some(o.clone())),
        _ => {
            e.unclear = true;
            None
        }
    };
    if let Some(Some(OptsView { c_nonce: Some((life, _, at)), .. })) = &ov {
        let limit = *at + i128::from(*life) * NS;
        e.after(R::NonceExpired, iv, limit);
        if limit > tm::MAX_NS {
            e.maybe(R::LifetimeOverflow);
        }
    }
    let mut pv = None;
    match &req {
        P::Ok(r) => match &r.proof {
            None => e.add(R::NoProof),
            Some((pt, jwt)) => {
                proof_type(&mut e, pt);
                let p = proof(jwt);
                match &p {
                    P::Bad => e.add(R::BadJwt),
                    P::Unclear => e.unclear = true,
                    P::Ok(p) => {
                        shape(&mut e, p);
                        window(&mut e, p, iv);
                        match &ov {
                            Some(Some(OptsView { c_nonce: Some((_, x, _)), .. })) => {
                                if *x != p.nonce {
                                    e.add(R::NonceMismatch);
                                }
                            }
                            Some(_) => e.add(R::NoExpectedNonce),
                            None => {}
                        }
                        if let P::Ok(m) = &metav {
                            if m.issuer != p.aud {
                                e.add(R::AudMismatch);
                            }
                        }
                        if let (Some(Some(o)), Some(P::Ok(f))) = (&ov, &offer) {
                            let check = o.client_id.is_some() || f.auth || f.pre.is_none();
                            if check && o.client_id != p.iss {
                                e.add(R::IssMismatch);
                            }
                        }
                        if p.sig.as_deref().unwrap_or("").is_empty() {
                            e.add(R::NoSig);
                        }
                        if p.segments > 3 {
                            e.unclear = true;
                        }
                        if let Some(kid) = &p.kid {
                            key_reasons(&mut e, kid, &doc);
                        }
                    }
                }
                pv = Some(p);
            }
        },
        P::Bad => e.unclear = true,
        P::Unclear => e.unclear = true,
    }
    let offered = match (&offer, &metav, req.as_ok().map(|r| &r.profile)) {
        (Some(P::Ok(o)), P::Ok(m), Some(P::Ok(p))) => covered(o, m, p),
        _ => false,
    };
    if !offered {
        e.maybe(R::NotCovered);
    }
    EvalView { e, meta: metav, req, offer, opts, doc, proof: pv }
}

/// whether a profile is among those the offer names
pub fn covered(offer: &OfferView, meta: &MetaView, profile: &Value) -> bool {
    offer.creds.iter().any(|c| match c {
        Value::String(id) => meta.find(id).and_then(P::as_ok) == Some(profile),
        Value::Object(m) => self::profile(m).as_ok() == Some(profile),
        _ => false,
    })
}

pub fn key_reasons(e: &mut Expect, kid: &str, doc: &Option<P<DocView>>) {
    let Some(did) = did_of(kid) else {
        e.add(R::BadKid);
        return;
    };
    if odd_kid(kid) {
        e.unclear = true;
        e.maybe(R::BadKid);
    }
    match doc {
        None => e.add(R::NoDoc),
        Some(P::Ok(d)) => {
            let found = d.lookup(kid);
            if d.id != did {
                e.add(R::DocOther);
            }
            if found.is_empty() {
                if odd_kid(kid) && !d.plausible(kid).is_empty() {
                    e.maybe(R::KeyNotInDoc);
                } else {
                    e.add(R::KeyNotInDoc);
                }
            } else if found.iter().all(|k| *k == KeyUse::Unusable) {
                e.add(R::KeyUnusable);
            } else if found.iter().any(|k| !matches!(k, KeyUse::Usable(_))) {
                e.maybe(R::KeyUnusable);
            }
        }
        _ => e.unclear = true,
    }
}

/// What no reading of a request in an unforeseen form could make up for.
fn token_floor(e: &mut Expect, req_b: &[u8], offer: &OfferView, expected: Option<Option<u64>>) {
    let P::Ok(m) = obj(req_b) else { return };
    let Some(Value::Object(g)) = m.get("grant_type") else { return };
    if g.get("grant_type").and_then(Value::as_str) != Some(PRE) {
        return;
    }
    let Some((code, required)) = &offer.pre else {
        e.add(if offer.auth { R::OnlyAuthGrant } else { R::NoFlow });
        return;
    };
    let given = ["pre-authorized_code", "pre_authorized_code"].map(|k| g.get(k));
    if !given.iter().flatten().any(|c| c.as_str() == Some(code)) {
        e.add(R::CodeMismatch);
    }
    let digits = match g.get("user_pin") {
        None | Some(Value::Null) => {
            if *required {
                e.add(R::PinMissing);
            }
            return;
        }
        Some(Value::String(s)) => s.clone(),
        Some(Value::Number(n)) => n.to_string(),
        Some(_) => return,
    };
    if let Some(Some(x)) = expected {
        // an eight digit PIN may have been written with the zeros it starts with
        let d = digits.trim();
        if *required && d.trim_start_matches('0').parse::<f64>().unwrap_or(if d.is_empty() || d.chars().any(|c| c != '0') { -1.0 } else { 0.0 }) != x as f64 {
            e.add(R::PinMismatch);
        }
    }
}

pub struct TokenView {
    pub e: Expect,
    pub req: P<TokenReqView>,
    pub offer: Option<P<OfferView>>,
    pub pin: Option<u64>,
    pub code_ok: bool,
    pub required: bool,
}

pub fn token(req_b: &[u8], offer_b: Option<&[u8]>, opts_b: Option<&[u8]>) -> TokenView {
    let mut e = Expect::default();
    let req = token_req(req_b);
    let offer = offer_b.map(offer);
    let expected = match opts_b.map(pin_opts) {
        None => Some(None),
        Some(P::Ok(p)) => Some(p),
        _ => {
            e.unclear = true;
            None
        }
    };
    let mut v = TokenView { e: Expect::default(), req: req.clone(), offer: offer.clone(), pin: None, code_ok: false, required: false };
    match (&req, &offer) {
        (P::Ok(TokenReqView::Auth), _) => e.add(R::AuthFlow),
        (P::Ok(TokenReqView::Pre { code, pin }), o) => {
            v.pin = *pin;
            if pin.is_some_and(|p| p > 99_999_999) {
                e.add(R::PinTooLong);
            }
            if let Some(p) = pin {
                match expected {
                    Some(None) => e.add(R::PinNotExpected),
                    Some(Some(x)) if x != *p => e.add(R::PinMismatch),
                    _ => {}
                }
            }
            match o {
                None => e.add(R::NoOffer),
                Some(P::Ok(o)) => match &o.pre {
                    None if o.auth => e.add(R::OnlyAuthGrant),
                    None => e.add(R::NoFlow),
                    Some((c, required)) => {
                        v.code_ok = c == code;
                        v.required = *required;
                        if c != code {
                            e.add(R::CodeMismatch);
                        }
                        if *required && pin.is_none() {
                            e.add(R::PinMissing);
                        }
                        if !*required && pin.is_some() {
                            e.add(R::PinSuperfluous);
                        }
                    }
                },
                _ => e.unclear = true,
            }
        }
        (_, None) => {
            e.unclear = true;
            e.add(R::NoOffer);
        }
        (_, Some(P::Ok(o))) => {
            e.unclear = true;
            token_floor(&mut e, req_b, o, expected);
        }
        _ => e.unclear = true,
    }
    v.e = e;
    v
}
