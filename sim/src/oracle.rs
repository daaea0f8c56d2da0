//! The oracles: what each recorded call may and must return, judged against the reference model.
use crate::calls::{t_back, Call, ErrOut, Mem, Out, CRED_CODES, TOKEN_CODES};
use crate::model::{self, KeyUse, ProofView, P, R};
use crate::seam::{Interval, NS};
use crate::{tm, util};
use serde_json::{json, Map, Value};

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub props: Vec<&'static str>,
    /// stable across runs: what the minimiser preserves
    pub kind: String,
    pub detail: String,
    /// set when this is exactly one of the listed known findings
    pub kf: Option<&'static str>,
}

pub struct Report(pub Vec<Viol>);

impl Report {
    pub fn add(&mut self, props: &[&'static str], kind: impl Into<String>, detail: impl Into<String>) {
        let mut d: String = detail.into();
        if d.len() > 6000 {
            let mut n = 6000;
            while !d.is_char_boundary(n) {
                n -= 1;
            }
            d.truncate(n);
            d.push('…');
        }
        self.0.push(Viol { props: props.to_vec(), kind: kind.into(), detail: d, kf: None });
    }
    fn kf(&mut self, kf: &'static str, props: &[&'static str], kind: &str, detail: String) {
        self.0.push(Viol { props: props.to_vec(), kind: kind.into(), detail, kf: Some(kf) });
    }
}

fn plus(a: &[&'static str], b: &[&'static str]) -> Vec<&'static str> {
    let mut v = a.to_vec();
    for x in b {
        if !v.contains(x) {
            v.push(x);
        }
    }
    v
}

/// drops null members, recursively: absent and null mean the same in every message here
pub fn no_nulls(v: &Value) -> Value {
    match v {
        // a context is arbitrary JSON: its nulls are content
        Value::Object(m) => Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), if k == "@context" { v.clone() } else { no_nulls(v) })).collect()),
        Value::Array(a) => Value::Array(a.iter().map(no_nulls).collect()),
        v => v.clone(),
    }
}

/// An outcome without what is not part of its value: the entry order of JSON maps inside text.
pub fn norm(o: &Out) -> Out {
    let Out::Ok(v) = o else { return o.clone() };
    let mut v = v.clone();
    if let Some(l) = v.get("link").and_then(Value::as_str) {
        if let Some(i) = l.rfind("credential_offer=") {
            let (pre, enc) = l.split_at(i + 17);
            let dec = util::percent_decode(enc, false).and_then(|d| serde_json::from_str::<Value>(&d).ok());
            if let Some(d) = dec {
                v["link"] = json!([pre, d]);
            }
        }
    }
    for p in ["/wire/credential", "/wire/credential/Encoded"] {
        if let Some(c) = v.pointer_mut(p) {
            let dec = c.as_str().and_then(util::unb64).and_then(|b| serde_json::from_slice::<Value>(&b).ok());
            if let Some(d) = dec {
                *c = json!({ "decoded": d });
            }
        }
    }
    for k in ["wire"] {
        if let Some(d) = v.get(k).and_then(Value::as_str).and_then(|s| serde_json::from_str::<Value>(s).ok()) {
            v[k] = d;
        }
    }
    Out::Ok(v)
}

fn show(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 1500 {
        format!("{}… ({} bytes)", s.chars().take(1500).collect::<String>(), s.len())
    } else {
        s
    }
}

// ---------------------------------------------------------------- exported form of errors

fn time_text(v: &Value) -> Value {
    t_back(v).map_or(Value::Null, |t| Value::String(tm::render(t, 0)))
}

/// (code, name, description, additional information) of an error, from its variant and payload
fn documented(e: &ErrOut) -> Option<(u32, String, String, Value)> {
    let s = |k: &str| e.p[k].as_str().unwrap_or("").to_owned();
    let tt = |k: &str| t_back(&e.p[k]).map_or(String::new(), tm::display);
    let with_times = |ks: &[&str]| {
        let mut p = e.p.clone();
        for k in ks {
            p[*k] = time_text(&p[*k]);
        }
        p
    };
    let (code, desc, add) = match e.cat.as_str() {
        "VAL.Any" => (1, "An error occurred during validation, serialization or deserialization".to_owned(), e.p.clone()),
        "JWT.ValidationError" => (300, "An error occurred while validating".to_owned(), e.p.clone()),
        "JWT.NotYetValid" => (301, format!("JWT is not yet valid. Valid from: {} and checked at {}", tt("valid_from"), tt("now")), with_times(&["valid_from", "now"])),
        "JWT.NotValidAnymore" => {
            (302, format!("JWT is not valid anymore. Valid until: {} and checked at {}", tt("valid_until"), tt("now")), with_times(&["valid_until", "now"]))
        }
        "JWT.IssuerMismatch" => (303, "`iss` field in the body mismatched with provided client id".to_owned(), e.p.clone()),
        "JWT.NoKeyFoundInProof" => (304, "No `kid`, `jwk` or `x5c` found in the JWT header".to_owned(), Value::Null),
        "JWT.NoDidDocumentProvidedForKidAsDid" => (305, "No did document provided when the `kid` is a did".to_owned(), Value::Null),
        "JWT.UnableToTransformIntoDid" => (306, "Unable to transform did, from `kid`, into a Did type".to_owned(), e.p.clone()),
        "JWT.UnableToResolveDidInDidDocument" => (307, "Unable to find the verification method the did, `kid`, was referring to".to_owned(), e.p.clone()),
        "JWT.UnableToMapVerificationMethodToJwk" => (308, "Unable to map the verification method to a JWK".to_owned(), e.p.clone()),
        "JWT.UnableToTransformIntoJoseItem" => (309, format!("Unable to convert '{}' into a valid Jose Item", s("original_string")), e.p.clone()),
        "JWT.UnsupportedAlgorithm" => (310, format!("supplied algorithm, '{}' is not valid", s("algorithm")), e.p.clone()),
        "JWT.EdDSAHasNoXCoordinate" => (311, "JWK with algorithm of 'edDSA' has no x coordinate".to_owned(), Value::Null),
        "JWT.ESXXXHasNoXOrYCoordinate" => (312, format!("JWK with algorithm of '{}' has no 'x' or 'y' coordinate", s("algorithm")), e.p.clone()),
        "JWT.SignatureNotInJwt" => (313, "Signature was expected but not found in the JWT".to_owned(), e.p.clone()),
        "JWT.UnsupportedKeyTypeInJwtHeader" => (314, format!("Unsupported key type `{}` found in JWT header", s("key_type")), e.p.clone()),
        "JWT.NonceMismatch" => (315, "Expected nonce was not found in the JWT".to_owned(), e.p.clone()),
        "JWT.AudienceMismatch" => (316, "`aud` field in the body mismatched with provided credential issuer url".to_owned(), e.p.clone()),
        // transparent: the text of the wrapped error (which for validation is its message)
        "AT.ValidationError" => (400, e.child.first()?.display.clone(), e.p.clone()),
        "AT.InvalidGrantType" => (401, "Invalid requested grant type".to_owned(), e.p.clone()),
        "AT.AuthorizedFlowNotSupported" => (402, "The Authorized flow is currently not supported".to_owned(), Value::Null),
        "AT.NoFlowSupportedInCredentialOffer" => (403, "Supplied credential offer has no authorized, or pre-authorized, code flow".to_owned(), Value::Null),
        "AT.InvalidPreAuthorizedCodeFlowValues" => (404, "Requested pre-authorized code flow has invalid values".to_owned(), e.p.clone()),
        "AT.InvalidAuthorizedAndPreAuthorizedCodeFlow" => {
            let c: Vec<Value> = e.child.iter().filter_map(|c| documented(c).map(|d| d.3)).collect();
            (405, "Both the authorized and pre-authorized are incorrect".to_owned(), json!({"authorized_error": c.first()?, "pre_authorized_error": c.get(1)?}))
        }
        "AT.OptionsAreRequiredForEvaluation" => (406, "Options are required when evaluating the access token request".to_owned(), e.p.clone()),
        "AT.UserPinMismatch" => (407, "Provided user pin does not match user pin from access token request".to_owned(), Value::Null),
        "AT.CredentialOfferMustBeSupplied" => (409, "Access token request is not yet supported without a credential offer".to_owned(), Value::Null),
        "CI.ValidationError" => (100, e.child.first()?.display.clone(), e.p.clone()),
        "CI.JwtError" => {
            let d = documented(e.child.first()?)?;
            (101, d.2, d.3)
        }
        "CI.AuthorizedFlowNotSupported" => (102, "The Authorized flow is currently not supported".to_owned(), Value::Null),
        "CI.CredentialIdNotInIssuerMetadata" => (103, format!("The id `{}` does not refer to a credential format inside the issuer metadata", s("id")), e.p.clone()),
        "CI.InvalidCredentialOfferEncoding" => (104, "Could not url-encode the credential".to_owned(), e.p.clone()),
        "CI.InvalidRequestedCredential" => (105, "Requested credential not found in issuer metadata".to_owned(), e.p.clone()),
        "CI.ExpiredCNonce" => (106, "`c_nonce_expires_in` is not valid anymore.".to_owned(), with_times(&["now", "expires_in"])),
        "CI.CredentialAndAcceptanceTokenSupplied" => {
            (107, "Credential and acceptance token cannot both be supplied for the success response".to_owned(), Value::Null)
        }
        "CI.AuthorizationServerMetadataNotSupported" => (108, "Authorization server metadata is not yet supported".to_owned(), Value::Null),
        "CI.CredentialOfferMustBeSupplied" => (109, "Credential offer must be supplied, other flows are not supported yet".to_owned(), Value::Null),
        "CI.EvaluteCredentialRequestOptionsNotSupplied" => (110, "evaluate credential request called without options, but were needed".to_owned(), e.p.clone()),
        "CI.CNonceIsExpired" => (111, format!("c_nonce expires at {} which is before {}", tt("expiry_timestamp"), tt("now")), with_times(&["now", "expiry_timestamp"])),
        "CI.NoProofInCredentialRequest" => (112, "The credential request does not contain a JWT proof".to_owned(), Value::Null),
        _ => return None,
    };
    let name = e.cat.split('.').nth(1)?.to_owned();
    Some((code, name, desc, add))
}

fn check_export(r: &mut Report, e: &ErrOut) {
    for c in &e.child {
        check_export(r, c);
    }
    let mut errkeys: Vec<&String> = e.ret.as_object().map(|m| m.iter().filter(|(_, v)| !v.is_null()).map(|(k, _)| k).collect()).unwrap_or_default();
    errkeys.sort();
    if errkeys != ["error"] || e.ret["error"] != e.info {
        r.add(&["C16"], format!("return object of {}", e.cat), format!("an error result must export exactly the error: {}", show(&e.ret)));
    }
    if e.shown != e.info {
        r.add(&["C16"], format!("text of {}", e.cat), format!("the exported error {} reads {}", show(&e.info), show(&e.shown)));
    }
    let Some((code, name, desc, add)) = documented(e) else { return };
    let i = &e.info;
    if i["code"] != json!(code) {
        r.add(&["C16"], format!("code of {}", e.cat), format!("exported code {} instead of {code}", i["code"]));
    }
    if i["name"] != json!(name) {
        r.add(&["C16"], format!("name of {}", e.cat), format!("exported name {} instead of {name}", i["name"]));
    }
    if i["description"] != json!(desc) || e.display != desc {
        r.add(&["C16"], format!("description of {}", e.cat), format!("exported description {} (display {:?}) instead of {desc:?}", i["description"], e.display));
    }
    if i["additional_information"] != add {
        r.add(
            &["C16"],
            format!("additional information of {}", e.cat),
            format!("exported {} for an error carrying {}", show(&i["additional_information"]), show(&add)),
        );
    }
}

// ---------------------------------------------------------------- proofs

/// Is the message exactly the JSON re-serialisation of the recognised proof fields?
fn reserialised(msg: &str, p: &ProofView) -> bool {
    msg.match_indices('.').any(|(i, _)| {
        let (Ok(Value::Object(h)), Ok(Value::Object(b))) = (serde_json::from_str::<Value>(&msg[..i]), serde_json::from_str::<Value>(&msg[i + 1..])) else {
            return false;
        };
        let keys = |m: &Map<String, Value>, ks: &[&str]| m.keys().all(|k| ks.contains(&k.as_str()));
        if !keys(&h, &["typ", "alg", "kid", "jwk", "x5c"]) || !keys(&b, &["iss", "aud", "sub", "iat", "nonce", "nbf", "exp"]) {
            return false;
        }
        let txt = |m: &Map<String, Value>, k: &str| m.get(k).and_then(Value::as_str).map(str::to_owned);
        let tim = |k: &str| match b.get(k) {
            None | Some(Value::Null) => Some(None),
            Some(Value::String(s)) => tm::parse(s).map(Some),
            Some(Value::Number(n)) => n.as_i64().map(|n| Some(i128::from(n) * NS)),
            _ => None,
        };
        txt(&h, "typ").as_ref() == Some(&p.typ)
            && txt(&h, "alg").as_ref() == Some(&p.alg)
            && (p.key_unclear || (txt(&h, "kid") == p.kid && txt(&h, "jwk") == p.jwk && txt(&h, "x5c") == p.x5c))
            && txt(&b, "iss") == p.iss
            && txt(&b, "sub") == p.sub
            && txt(&b, "aud").as_ref() == Some(&p.aud)
            && txt(&b, "nonce").as_ref() == Some(&p.nonce)
            && tim("iat") == Some(Some(p.iat))
            && tim("nbf") == Some(p.nbf)
            && tim("exp") == Some(p.exp)
    })
}

fn check_message(r: &mut Report, msg: &[u8], p: &ProofView, wherefrom: &str) {
    if msg == p.raw.as_bytes() {
        return;
    }
    let text = util::lossy(msg);
    if reserialised(&text, p) {
        r.kf(
            "KF-1",
            &["C07"],
            &format!("message is a re-serialisation ({wherefrom})"),
            format!("the wallet signed {:?}; the caller is told to verify {text:?}", p.raw),
        );
    } else {
        r.add(&["C07"], format!("message is not what was signed ({wherefrom})"), format!("proof {:?}; message {text:?}", p.raw));
    }
}

/// the unsigned-proof behaviour listed as KF-2: the piece after the second dot of the text form
fn legacy_unsigned(p: &ProofView, msg: Option<&[u8]>, sig: &[u8]) -> bool {
    p.segments == 2 && {
        let t = match msg {
            Some(m) => util::lossy(m),
            None => return true,
        };
        t.splitn(3, '.').nth(2).is_some_and(|s| s.as_bytes() == sig)
    }
}

fn unhex(v: &Value) -> Vec<u8> {
    v.as_str().and_then(util::unhex).unwrap_or_default()
}

// ---------------------------------------------------------------- refusals

pub fn claimed(e: &ErrOut) -> Vec<R> {
    use R::*;
    match e.cat.as_str() {
        "CI.JwtError" => e.child.first().map(claimed).unwrap_or_default(),
        "CI.CNonceIsExpired" | "CI.ExpiredCNonce" => vec![NonceExpired],
        "JWT.NotYetValid" => vec![NotYetValid],
        "JWT.NotValidAnymore" => vec![ProofExpired],
        "JWT.NonceMismatch" => vec![NonceMismatch, NoExpectedNonce],
        "JWT.IssuerMismatch" => vec![IssMismatch],
        "JWT.AudienceMismatch" => vec![AudMismatch],
        "JWT.NoKeyFoundInProof" => vec![NoKey],
        "JWT.NoDidDocumentProvidedForKidAsDid" => vec![NoDoc],
        "JWT.UnableToTransformIntoDid" => vec![BadKid],
        "JWT.UnableToResolveDidInDidDocument" => vec![KeyNotInDoc, DocOther],
        "JWT.UnableToMapVerificationMethodToJwk" | "JWT.EdDSAHasNoXCoordinate" | "JWT.ESXXXHasNoXOrYCoordinate" => vec![KeyUnusable],
        "JWT.UnsupportedAlgorithm" => vec![KeyUnusable, BadAlg],
        "JWT.SignatureNotInJwt" => vec![NoSig],
        "JWT.UnsupportedKeyTypeInJwtHeader" | "JWT.UnableToTransformIntoJoseItem" => vec![UnsupportedKey],
        "JWT.ValidationError" | "CI.ValidationError" | "AT.ValidationError" | "VAL.Any" => {
            vec![MetaDup, BadProofType, BadJwt, BadTyp, BadAlg, LifetimeOverflow, UnsupportedKey, NoKey, PinTooLong]
        }
        "CI.AuthorizationServerMetadataNotSupported" => vec![AsMeta],
        "CI.CredentialOfferMustBeSupplied" | "AT.CredentialOfferMustBeSupplied" => vec![NoOffer],
        "CI.NoProofInCredentialRequest" => vec![NoProof],
        "CI.InvalidRequestedCredential" => vec![NotCovered],
        "CI.EvaluteCredentialRequestOptionsNotSupplied" => vec![NoExpectedNonce],
        "CI.CredentialIdNotInIssuerMetadata" => vec![MissingId],
        "CI.AuthorizedFlowNotSupported" | "AT.AuthorizedFlowNotSupported" => vec![AuthFlow],
        "AT.NoFlowSupportedInCredentialOffer" => vec![NoFlow],
        "AT.InvalidGrantType" => vec![OnlyAuthGrant],
        "AT.OptionsAreRequiredForEvaluation" => vec![PinNotExpected],
        "AT.UserPinMismatch" => vec![PinMismatch],
        "AT.InvalidPreAuthorizedCodeFlowValues" => vec![PinMissing, PinSuperfluous, CodeMismatch],
        "AT.InvalidAuthorizedAndPreAuthorizedCodeFlow" => e.child.get(1).map(claimed).unwrap_or_default(),
        _ => vec![],
    }
}

/// A refusal is in order when a reason it names applies.
fn check_refusal(r: &mut Report, op: &str, e: &model::Expect, err: &ErrOut, also: &[&'static str], detail: &dyn Fn() -> String) {
    check_export(r, err);
    if e.unclear {
        return;
    }
    let cl = claimed(err);
    if cl.iter().any(|c| e.has(*c)) {
        return;
    }
    let mut props = vec!["C16"];
    for c in &cl {
        // a general validation error claims nothing in particular
        if cl.len() < 4 {
            props = plus(&props, c.claim_props());
        }
    }
    if e.reasons.is_empty() {
        props = plus(&props, &["C12"]);
        props = plus(&props, also);
    }
    let label = Out::Err(err.clone()).label();
    let kind = if e.reasons.is_empty() { format!("{op}: refused though every condition holds: {label}") } else { format!("{op}: refused for a reason that does not apply: {label}") };
    r.add(&props, kind, format!("claimed {} {}; applicable reasons {:?}; {}", label, show(&err.p), e.reasons, detail()));
}

fn untrue(r: &mut Report, cat: &str, what: String) {
    r.add(&["C16"], format!("untrue details in {cat}"), what);
}

fn check_now(r: &mut Report, cat: &str, now: &Value, iv: &Interval) {
    if let Some(n) = t_back(now) {
        if n < iv.lo || n > iv.hi {
            untrue(r, cat, format!("reported now {} but the node's clock showed {} .. {}", tm::display(n), tm::display(iv.lo), tm::display(iv.hi)));
        }
    }
}

fn jwt_payload(r: &mut Report, e: &ErrOut, p: Option<&ProofView>, iv: &Interval, nonce: Option<Option<&str>>, iss: Option<Option<&str>>, aud: Option<&str>) {
    let c = e.cat.as_str();
    let t = |k: &str| t_back(&e.p[k]);
    let o = |v: Option<&str>| v.map_or(Value::Null, |s| json!(s));
    match c {
        "JWT.NotYetValid" => {
            check_now(r, c, &e.p["now"], iv);
            if let Some(p) = p {
                if t("valid_from") != p.nbf || t("now") >= p.nbf {
                    untrue(r, c, format!("{} for nbf {:?}", e.p, p.nbf.map(tm::display)));
                }
            }
        }
        "JWT.NotValidAnymore" => {
            check_now(r, c, &e.p["now"], iv);
            if let Some(p) = p {
                if t("valid_until") != p.exp || t("now") <= p.exp {
                    untrue(r, c, format!("{} for exp {:?}", e.p, p.exp.map(tm::display)));
                }
            }
        }
        "JWT.NonceMismatch" => {
            if let (Some(p), Some(n)) = (p, nonce) {
                if e.p["actual_nonce"] != json!(p.nonce) || e.p["expected_nonce"] != o(n) {
                    untrue(r, c, format!("{} for proof nonce {:?}, expected {n:?}", e.p, p.nonce));
                }
            }
        }
        "JWT.IssuerMismatch" => {
            if let (Some(p), Some(n)) = (p, iss) {
                if e.p["actual_iss_in_jwt"] != o(p.iss.as_deref()) || e.p["expected_iss_in_jwt"] != o(n) {
                    untrue(r, c, format!("{} for proof iss {:?}, client {n:?}", e.p, p.iss));
                }
            }
        }
        "JWT.AudienceMismatch" => {
            if let (Some(p), Some(a)) = (p, aud) {
                if e.p["actual_aud_in_jwt"] != json!(p.aud) || e.p["expected_aud_in_jwt"] != json!(a) {
                    untrue(r, c, format!("{} for proof aud {:?}, issuer {a:?}", e.p, p.aud));
                }
            }
        }
        "JWT.UnableToTransformIntoDid" => {
            if let Some(ProofView { kid: Some(k), .. }) = p {
                if e.p["kid"] != json!(k) {
                    untrue(r, c, format!("{} for kid {k:?}", e.p));
                }
            }
        }
        "JWT.UnableToResolveDidInDidDocument" => {
            if let Some(ProofView { kid: Some(k), .. }) = p {
                if !model::odd_kid(k) && e.p["did"] != json!(k) {
                    untrue(r, c, format!("{} for kid {k:?}", e.p));
                }
            }
        }
        "JWT.UnableToTransformIntoJoseItem" => {
            if let Some(ProofView { jwk: Some(j), key_unclear: false, .. }) = p {
                if e.p["original_string"] != json!(j) {
                    untrue(r, c, format!("{} for jwk {j:?}", e.p));
                }
            }
        }
        "JWT.UnsupportedAlgorithm" => {
            // whose algorithm is meant (the header's, the key's) is open, but it has a name
            let n = e.p["algorithm"].as_str().unwrap_or("").trim_matches('"').to_ascii_uppercase();
            let known = ["HS", "RS", "PS", "ES", "EDDSA", "EDBLAKE", "ALEOTEST", "NONE", "ECDH", "RSA", "A1", "A2", "DIR", "PBES"];
            if !known.iter().any(|k| n.starts_with(k)) {
                untrue(r, c, format!("{} names no algorithm", e.p));
            }
        }
        "JWT.UnsupportedKeyTypeInJwtHeader" => {
            if let Some(p) = p {
                let have = [("jwk", &p.jwk), ("x5c", &p.x5c)];
                if !p.key_unclear && !have.iter().any(|(n, v)| e.p["key_name"] == json!(n) && v.as_deref().map(|v| json!(v)) == Some(e.p["key_type"].clone())) {
                    untrue(r, c, format!("{} for jwk {:?} x5c {:?}", e.p, p.jwk, p.x5c));
                }
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- operations

fn undecodable(r: &mut Report, op: &str, what: &str, msg: &str, given: &str, clean: bool) {
    let props: &[&'static str] = if what.ends_with("(read back)") || what.ends_with("(persist)") {
        &["C11"]
    } else if what.ends_with("(encode)") || what.ends_with("(own encoding)") {
        match what.split(" (").next().unwrap_or("") {
            "offer" => &["C15", "C12"],
            "profiles" => &["C15"],
            w if w.contains("response") => &["C13"],
            _ => &["C11", "C12"],
        }
    } else if !clean {
        return;
    } else {
        match what {
            "token request" => &["C12", "C05"],
            "did document" => &["C12", "C06"],
            "offer" | "options" | "pin options" | "metadata" => &["C11", "C12"],
            "authorised grant" | "pre-authorised grant" | "credentials" => &["C12", "C15"],
            _ => &["C12"],
        }
    };
    r.add(props, format!("{op}: cannot read well-formed {what}"), format!("{msg}; {given}"));
}

fn opt(v: &Option<String>) -> Value {
    v.as_ref().map_or(Value::Null, |s| json!(s))
}

fn field(r: &mut Report, prop: &'static str, op: &str, k: &str, got: &Value, want: &Value) {
    if got != want {
        r.add(&[prop], format!("{op}: field {k}"), format!("{k} is {} instead of {}", show(got), show(want)));
    }
}

/// the credentials of an offer in normal form; None if an entry does not read clearly
pub fn creds_norm(b: &[u8]) -> Option<Vec<Value>> {
    let Value::Array(a) = model::jparse(b).filter(|x| !x.1)?.0 else { return None };
    a.iter()
        .map(|c| match c {
            Value::String(_) => Some(c.clone()),
            Value::Object(m) => model::profile(m).as_ok().cloned(),
            _ => None,
        })
        .collect()
}

fn panics(op: &str) -> Vec<&'static str> {
    let mut v = vec!["C10"];
    v.extend_from_slice(match op {
        "eval" => &["C12"][..],
        "token" => &["C12", "C05"][..],
        "create_offer" | "resolve" => &["C12", "C15"][..],
        "token_ok" | "token_err" | "cred_ok" | "cred_err" => &["C12", "C13"][..],
        "persist" => &["C11"][..],
        _ => &["C12"][..],
    });
    v
}

/// the bytes that could not be read
fn given(call: &Call, what: &str) -> String {
    let b: Option<&[u8]> = match (call, what) {
        (Call::Eval { meta, .. } | Call::CreateOffer { meta, .. } | Call::Resolve { meta, .. }, "metadata") => Some(meta),
        (Call::Eval { req, .. } | Call::Pre { req } | Call::CredOk { req, .. }, "credential request") => Some(req),
        (Call::Token { req, .. }, "token request") => Some(req),
        (Call::Eval { doc, .. } | Call::Parts { doc, .. }, "did document") => doc.as_deref(),
        (Call::CreateOffer { creds, .. } | Call::Resolve { creds, .. }, "credentials") => Some(creds),
        _ => None,
    };
    b.map_or_else(|| crate::world::describe_call(call).to_string(), |b| format!("{:?}", util::lossy(b))).chars().take(3000).collect()
}

pub fn check(r: &mut Report, call: &Call, out: &Out, iv: &Interval, clean: bool) {
    let op = call.name();
    match out {
        Out::Panic(m) => {
            let props = if clean { panics(op) } else { vec!["C10"] };
            r.add(&props, format!("{op}: panic"), m.clone());
            return;
        }
        Out::Undecodable(w, m) => {
            undecodable(r, op, w, m, &given(call, w), clean);
            return;
        }
        _ => {}
    }
    match call {
        Call::Eval { meta, req, offer, asm, doc, opts } => {
            let v = model::eval(meta, req, offer.as_deref(), *asm, doc.as_deref(), opts.as_deref(), iv);
            let p = v.proof.as_ref().and_then(P::as_ok);
            match out {
                Out::Ok(o) => eval_ok(r, &v, p, o, req, opts.as_deref(), doc.as_deref()),
                Out::Err(e) => {
                    check_refusal(r, op, &v.e, e, &[], &|| format!("request {}", util::lossy(req)));
                    let ov = v.opts.as_ref().map(P::as_ok);
                    let nonce = match &ov {
                        None => Some(None),
                        Some(Some(o)) => Some(o.c_nonce.as_ref().map(|c| c.1.as_str())),
                        Some(None) => None,
                    };
                    let iss = ov.flatten().map(|o| o.client_id.as_deref());
                    let aud = v.meta.as_ok().map(|m| m.issuer.as_str());
                    let inner = if e.cat == "CI.JwtError" { &e.child[0] } else { e };
                    jwt_payload(r, inner, p, iv, nonce, iss, aud);
                    if e.cat == "CI.CNonceIsExpired" {
                        check_now(r, "CI.CNonceIsExpired", &e.p["now"], iv);
                        if let Some(Some(model::OptsView { c_nonce: Some((life, _, at)), .. })) = ov {
                            let (lim, now) = (at + i128::from(*life) * NS, t_back(&e.p["now"]));
                            if t_back(&e.p["expiry_timestamp"]) != Some(lim) || now <= Some(lim) {
                                r.add(&["C16", "C01"], "untrue details in CI.CNonceIsExpired", format!("{} for a nonce living until {}", e.p, tm::display(lim)));
                            }
                        }
                    }
                    if e.cat == "CI.InvalidRequestedCredential" {
                        if let P::Ok(q) = &v.req {
                            if let P::Ok(pr) = &q.profile {
                                if no_nulls(&e.p["requested_credential"]) != *pr {
                                    untrue(r, &e.cat, format!("{} for request {pr}", e.p));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        Call::Pre { req } => {
            let q = model::request(req);
            let mut e = model::Expect::default();
            let mut p = None;
            match &q {
                P::Ok(q) => {
                    if let Some((pt, jwt)) = &q.proof {
                        model::proof_type(&mut e, pt);
                        match model::proof(jwt) {
                            P::Bad => e.add(R::BadJwt),
                            P::Unclear => e.unclear = true,
                            P::Ok(v) => {
                                model::shape(&mut e, &v);
                                if let Some(k) = &v.kid {
                                    if model::did_of(k).is_none() {
                                        e.add(R::BadKid);
                                    } else if model::odd_kid(k) {
                                        e.unclear = true;
                                    }
                                }
                                p = Some(v);
                            }
                        }
                    }
                }
                _ => e.unclear = true,
            }
            match out {
                Out::Ok(o) => {
                    for (x, certain) in &e.reasons {
                        // no key at all is reported later, by the evaluation
                        if *certain && *x != R::NoKey && *x != R::BadKid && !(*x == R::UnsupportedKey && p.as_ref().is_some_and(|p| p.key_unclear)) {
                            r.add(x.props(), format!("pre: accepted in spite of {x:?}"), format!("request {}", util::lossy(req)));
                        }
                    }
                    if let Some(p) = &p {
                        if !p.key_unclear && p.jwk.is_none() && p.x5c.is_none() {
                            let want = p.kid.as_deref().and_then(model::did_of);
                            if p.kid.as_deref().map_or(true, |k| !model::odd_kid(k) || model::clear_did(k).is_some()) && o["did"].as_str() != want {
                                r.add(&["C06"], "pre: wrong DID named for resolution", format!("kid {:?} gave {}", p.kid, o["did"]));
                            }
                        }
                    }
                    if let P::Ok(q) = &q {
                        if q.proof.is_none() && !o["did"].is_null() {
                            r.add(&["C06", "C14"], "pre: DID named without a proof", o.to_string());
                        }
                    }
                }
                Out::Err(err) => {
                    check_refusal(r, op, &e, err, &[], &|| format!("request {}", util::lossy(req)));
                    let inner = if err.cat == "CI.JwtError" { &err.child[0] } else { err };
                    jwt_payload(r, inner, p.as_ref(), iv, None, None, None);
                }
                _ => {}
            }
        }
        Call::Token { req, offer, opts } => {
            let v = model::token(req, offer.as_deref(), opts.as_deref());
            match out {
                Out::Ok(o) => {
                    for (x, certain) in &v.e.reasons {
                        if *certain {
                            let pr = if *x == R::NoOffer { &["C05", "C09"][..] } else { x.props() };
                            r.add(
                                pr,
                                format!("token: granted in spite of {x:?}"),
                                format!("request {} offer {:?} options {:?}", util::lossy(req), offer.as_deref().map(util::lossy), opts.as_deref().map(util::lossy)),
                            );
                        }
                    }
                    if o["ret"] != json!({"info": "x"}) {
                        r.add(&["C16"], "return object of a success", show(&o["ret"]));
                    }
                }
                Out::Err(e) => {
                    check_refusal(r, op, &v.e, e, &["C05"], &|| {
                        format!("request {} offer {:?} options {:?}", util::lossy(req), offer.as_deref().map(util::lossy), opts.as_deref().map(util::lossy))
                    });
                    if !v.e.unclear {
                        token_payload(r, &v, e, false);
                    }
                }
                _ => {}
            }
        }
        Call::Verify { jwt } => {
            let mut e = model::Expect::default();
            let p = model::proof(jwt);
            match &p {
                P::Ok(p) => model::window(&mut e, p, iv),
                P::Bad => e.add(R::BadJwt),
                P::Unclear => e.unclear = true,
            }
            match out {
                Out::Ok(_) => {
                    for (x, certain) in &e.reasons {
                        if *certain {
                            let pr: &[&'static str] = if *x == R::BadJwt { &["C08"] } else { &["C02"] };
                            r.add(pr, format!("verify: passed in spite of {x:?}"), format!("{} at {}..{}", describe(&p), tm::display(iv.lo), tm::display(iv.hi)));
                        }
                    }
                }
                Out::Err(err) => {
                    check_refusal(r, op, &e, err, &["C02"], &|| format!("{} at {}..{}", describe(&p), tm::display(iv.lo), tm::display(iv.hi)));
                    jwt_payload(r, err, p.as_ok(), iv, None, None, None);
                }
                _ => {}
            }
        }
        Call::Parts { jwt, nonce, iss, aud, doc } => parts(r, jwt, nonce, iss, aud, doc, out, iv),
        Call::CreateOffer { meta, creds, endpoint, auth, pre, .. } => create_offer(r, meta, creds, endpoint, auth.as_deref(), pre.as_deref(), out),
        Call::Resolve { meta, creds } => {
            let (P::Ok(m), Some(c)) = (model::meta(meta), creds_norm(creds)) else { return };
            let mut want = vec![];
            let mut missing = vec![];
            for x in &c {
                match x {
                    Value::String(id) => match m.find(id) {
                        Some(P::Ok(p)) => want.push(p.clone()),
                        Some(_) => return,
                        None => missing.push(id.clone()),
                    },
                    p => want.push(p.clone()),
                }
            }
            match out {
                Out::Ok(o) => {
                    if !missing.is_empty() {
                        r.add(&["C15"], "resolve: unknown id resolved", format!("{missing:?}"));
                    } else if no_nulls(&o["profiles"]) != Value::Array(want.clone()) {
                        r.add(&["C15"], "resolve: wrong profiles", format!("{} instead of {}", show(&o["profiles"]), show(&Value::Array(want))));
                    }
                }
                Out::Err(e) => {
                    let mut x = model::Expect::default();
                    if !missing.is_empty() {
                        x.add(R::MissingId);
                    }
                    check_refusal(r, op, &x, e, &["C15"], &|| format!("credentials {}", util::lossy(creds)));
                    missing_id(r, e, &missing);
                }
                _ => {}
            }
        }
        Call::TokenOk { token, expires_in, scope, c_nonce, c_nonce_expires_in, pending, interval } => match out {
            Out::Ok(o) => {
                let w: Value = o["wire"].as_str().and_then(|s| serde_json::from_str(s).ok()).unwrap_or(Value::Null);
                let want = no_nulls(&json!({"access_token": token, "token_type": "Bearer", "expires_in": expires_in, "scope": scope, "c_nonce": c_nonce,
                    "c_nonce_expires_in": c_nonce_expires_in, "authorization_pending": pending, "interval": interval}));
                let got = no_nulls(&w);
                members(r, "token response", &got, &want);
                if o["type"] != json!(["Bearer", true]) {
                    r.add(&["C13"], "token response: token type", format!("Bearer is written {}, and maps back: {}", o["type"][0], o["type"][1]));
                }
                stamp(r, "token response", o, iv);
                if o["same"] != json!(true) {
                    r.add(&["C11"], "token response: read back differs", o["wire"].to_string());
                }
                if no_nulls(&o["ret"]) != json!({"info": got}) {
                    r.add(&["C16"], "return object of a success", show(&o["ret"]));
                }
            }
            Out::Err(e) => check_refusal(r, op, &model::Expect::default(), e, &["C13"], &|| "token response".into()),
            _ => {}
        },
        Call::CredOk { req, cred, token, c_nonce } => {
            let q = model::request(req);
            let mut e = model::Expect::default();
            match &q {
                P::Ok(q) => {
                    if let Some((pt, jwt)) = &q.proof {
                        model::proof_type(&mut e, pt);
                        match model::proof(jwt) {
                            P::Bad => e.add(R::BadJwt),
                            P::Unclear => e.unclear = true,
                            P::Ok(v) => model::shape(&mut e, &v),
                        }
                    }
                }
                _ => e.unclear = true,
            }
            match out {
                Out::Ok(o) => {
                    stamp(r, "credential response", o, iv);
                    let w = &o["wire"];
                    if o["same"] != json!(true) {
                        r.add(&["C11"], "credential response: read back differs", w.to_string());
                    }
                    if let P::Ok(q) = &q {
                        if let P::Ok(p) = &q.profile {
                            field(r, "C13", "credential response", "format", &w["format"], &p["format"]);
                        }
                    }
                    let at = if cred.is_some() { Value::Null } else { opt(token) };
                    field(r, "C13", "credential response", "acceptance_token", &w["acceptance_token"], &at);
                    field(r, "C13", "credential response", "c_nonce", &w["c_nonce"], &c_nonce.as_ref().map_or(Value::Null, |c| json!(c.0)));
                    field(r, "C13", "credential response", "c_nonce_expires_in", &w["c_nonce_expires_in"], &c_nonce.as_ref().map_or(Value::Null, |c| json!(c.1)));
                    let known = ["format", "credential", "acceptance_token", "c_nonce", "c_nonce_expires_in"];
                    if let Some(k) = w.as_object().and_then(|m| m.iter().find(|(k, v)| !v.is_null() && !known.contains(&k.as_str()))) {
                        r.add(&["C13"], "credential response: extra member", format!("{}: {}", k.0, k.1));
                    }
                    match cred.as_deref().map(|c| model::jparse(c).map(|x| x.0)) {
                        None => field(r, "C13", "credential response", "credential", &w["credential"], &Value::Null),
                        Some(Some(Value::Object(m))) => {
                            if let P::Ok(p) = model::profile(&m) {
                                let ld = p["format"] == json!("ldp_vc");
                                let (got, form_ok) = if ld { (no_nulls(&w["credential"]), o["enc"] == json!(false)) } else { (no_nulls(&o["inner"]), o["enc"] == json!(true)) };
                                let raw = if ld { &w["credential"] } else { &o["inner"] };
                                if form_ok && got == p && stray_null(raw) {
                                    r.add(&["C13"], "credential response: credential with members that were not supplied", show(raw));
                                }
                                if !form_ok || got != p {
                                    r.add(
                                        &["C13"],
                                        if ld { "credential response: linked-data credential" } else { "credential response: encoded credential" },
                                        format!("{} sent {} (decoded {}) for {p}", p["format"], show(&w["credential"]), show(&o["inner"])),
                                    );
                                }
                            }
                        }
                        _ => {}
                    }
                }
                Out::Err(err) => check_refusal(r, op, &e, err, &["C13"], &|| format!("request {}", util::lossy(req))),
                _ => {}
            }
        }
        Call::TokenErr { code, desc, uri, details } => error_response(r, "token error response", TOKEN_CODES[*code as usize % 8], desc, uri, details, out),
        Call::CredErr { code, desc, uri, details } => error_response(r, "credential error response", CRED_CODES[*code as usize % 5], desc, uri, details, out),
        Call::Persist(m) => persist(r, m, out, clean),
        Call::Export { .. } => {
            if let Out::Err(e) = out {
                check_export(r, e);
            }
        }
    }
}

fn describe(p: &P<ProofView>) -> String {
    match p {
        P::Ok(p) => format!("nbf {:?} exp {:?}", p.nbf.map(tm::display), p.exp.map(tm::display)),
        P::Bad => "malformed proof".into(),
        P::Unclear => "unclear proof".into(),
    }
}

fn stamp(r: &mut Report, what: &str, o: &Value, iv: &Interval) {
    match t_back(&o["at"]) {
        Some(t) if t >= iv.lo && t <= iv.hi => {}
        t => r.add(
            &["C18"],
            format!("{what}: time stamp"),
            format!("stamped {:?} while the node's clock showed {} .. {}", t.map(tm::display), tm::display(iv.lo), tm::display(iv.hi)),
        ),
    }
}

/// a `null` for a member outside the linked-data contexts, which alone may carry one
fn stray_null(v: &Value) -> bool {
    match v {
        Value::Object(m) => m.iter().any(|(k, v)| v.is_null() || (k != "@context" && stray_null(v))),
        Value::Array(a) => a.iter().any(stray_null),
        _ => false,
    }
}

fn members(r: &mut Report, what: &str, got: &Value, want: &Value) {
    let (Some(g), Some(w)) = (got.as_object(), want.as_object()) else {
        r.add(&["C13"], format!("{what}: not an object"), got.to_string());
        return;
    };
    let mut ks: Vec<&String> = g.keys().chain(w.keys()).collect();
    ks.sort();
    ks.dedup();
    for k in ks {
        if g.get(k) != w.get(k) {
            r.add(&["C13"], format!("{what}: field {k}"), format!("{k} sent as {:?}, supplied {:?}", g.get(k), w.get(k)));
        }
    }
}

fn error_response(r: &mut Report, what: &str, word: &str, desc: &Option<String>, uri: &Option<String>, details: &Option<Value>, out: &Out) {
    match out {
        Out::Ok(o) => {
            let w: Value = o["wire"].as_str().and_then(|s| serde_json::from_str(s).ok()).unwrap_or(Value::Null);
            let mut want = Map::new();
            if let Some(Value::Object(d)) = details {
                want = d.clone();
            }
            want.insert("error".into(), json!(word));
            want.insert("error_description".into(), opt(desc));
            want.insert("error_uri".into(), opt(uri));
            members(r, what, &no_nulls(&w), &no_nulls(&Value::Object(want)));
            for k in ["mapped", "decoded"] {
                if o[k] != json!(true) {
                    r.add(&["C13"], format!("{what}: code does not map back ({k})"), format!("sent {}", w["error"]));
                }
            }
            if o["name"] != json!(word) {
                r.add(&["C13"], format!("{what}: protocol string of the code"), format!("{} instead of {word}", o["name"]));
            }
        }
        Out::Err(e) => check_refusal(r, what, &model::Expect::default(), e, &["C13"], &|| what.to_owned()),
        _ => {}
    }
}

fn missing_id(r: &mut Report, e: &ErrOut, missing: &[String]) {
    if e.cat == "CI.CredentialIdNotInIssuerMetadata" && !missing.is_empty() && !missing.iter().any(|m| e.p["id"] == json!(m)) {
        r.add(&["C16", "C15"], "untrue details in CI.CredentialIdNotInIssuerMetadata", format!("{} while {missing:?} are missing", e.p));
    }
}

fn token_payload(r: &mut Report, v: &model::TokenView, e: &ErrOut, nested: bool) {
    let offer = v.offer.as_ref().and_then(P::as_ok);
    match e.cat.as_str() {
        "AT.InvalidPreAuthorizedCodeFlowValues" => {
            if e.p["should_pin_be_supplied"] != json!(v.required) || e.p["does_code_match"] != json!(v.code_ok) {
                r.add(&["C16"], "untrue details in AT.InvalidPreAuthorizedCodeFlowValues", format!("{} while pin required {} and code match {}", e.p, v.required, v.code_ok));
            }
        }
        "AT.InvalidGrantType" => {
            if e.p["requested_grant_type"] != json!("pre_authorized_code_flow") || e.p["accepted_grant_type"] != json!(["authorized_code_flow"]) {
                untrue(r, &e.cat, e.p.to_string());
            }
        }
        "AT.InvalidAuthorizedAndPreAuthorizedCodeFlow" if !nested => {
            let both = offer.is_some_and(|o| o.auth && o.pre.is_some());
            if !both || e.child.first().map_or(true, |c| c.cat != "AT.InvalidGrantType") {
                untrue(r, &e.cat, format!("{} though the offer grants {:?}", Out::Err(e.clone()).label(), offer.map(|o| (o.auth, o.pre.is_some()))));
            }
            for c in &e.child {
                token_payload(r, v, c, true);
            }
        }
        _ => {}
    }
}

fn eval_ok(r: &mut Report, v: &model::EvalView, p: Option<&ProofView>, o: &Value, req: &[u8], opts: Option<&[u8]>, doc: Option<&[u8]>) {
    let pop = &o["pop"];
    let (msg, sig, key) = (unhex(&pop["msg_hex"]), unhex(&pop["sig"]), unhex(&pop["key"]));
    for (x, certain) in &v.e.reasons {
        if !certain || x.props().is_empty() {
            continue;
        }
        if *x == R::NoSig {
            if let Some(p) = p {
                if legacy_unsigned(p, Some(&msg), &sig) {
                    r.kf("KF-2", &["C07"], "unsigned proof accepted", format!("{} accepted with signature {:?}", p.raw, util::lossy(&sig)));
                    continue;
                }
            }
        }
        r.add(x.props(), format!("eval: accepted in spite of {x:?}"), format!("request {} options {:?}; applicable {:?}", util::lossy(req), opts.map(util::lossy), v.e.reasons));
    }
    if pop.is_null() {
        r.add(&["C07", "C09"], "eval: accepted without proof of possession", show(o));
        return;
    }
    if let Some(p) = p {
        if pop["alg"] != json!(p.alg) {
            r.add(&["C07", "C08"], "eval: algorithm is not the declared one", format!("{} for {}", pop["alg"], p.alg));
        }
        if let Some(s) = p.sig.as_deref().filter(|s| !s.is_empty()) {
            if sig != s.as_bytes() && p.segments == 3 {
                r.add(&["C07"], "eval: signature is not the transmitted one", format!("{:?} for {s:?}", util::lossy(&sig)));
            }
        }
        check_message(r, &msg, p, "eval");
        if let Some(kid) = &p.kid {
            {
                if let Some(P::Ok(d)) = &v.doc {
                    if !model::odd_kid(kid) && d.id == model::did_of(kid).unwrap_or("") {
                        let cand = d.lookup(kid);
                        let ok = cand.iter().any(|k| matches!(k, KeyUse::Usable(b) | KeyUse::Maybe(b) if *b == key) || *k == KeyUse::Unclear);
                        if !ok && !cand.is_empty() {
                            r.add(&["C06"], "eval: key is not the one the document holds for the key id", format!("{} for {kid}: {cand:?} in {:?}", util::hex(&key), doc.map(util::lossy)));
                        }
                    }
                }
                if let Some(did) = model::did_of(kid) {
                    if (!model::odd_kid(kid) || model::clear_did(kid).is_some()) && o["subject"] != json!(did) {
                        r.add(&["C06"], "eval: subject is not the DID of the key", format!("{} for {kid}", o["subject"]));
                    }
                }
            }
        }
    }
    if let P::Ok(q) = &v.req {
        if let P::Ok(pr) = &q.profile {
            if no_nulls(&o["credential"]) != *pr {
                r.add(&["C17"], "eval: credential is not the requested one", format!("{} for {pr}", show(&o["credential"])));
            }
            if let (Some(P::Ok(f)), P::Ok(m)) = (&v.offer, &v.meta) {
                if !model::covered(f, m, pr) {
                    r.kf("KF-4", &["C17"], "eval: accepted though not offered", format!("{pr} though the offer is for {}", show(&json!(f.creds))));
                }
            }
        }
    }
    // what the caller serialises must be the same decision
    let w = &o["whole"];
    if w["subject_id"] != o["subject"]
        || no_nulls(&w["credential"]) != no_nulls(&o["credential"])
        || w["proof_of_possession"]["algorithm"] != pop["alg"]
        || w["proof_of_possession"]["public_key"] != json!(key)
        || w["proof_of_possession"]["message"] != json!(msg)
        || w["proof_of_possession"]["signature"] != json!(sig)
    {
        r.add(&["C11", "C07"], "eval: serialised result differs from the value", show(w));
    }
    if let Some(P::Ok(ov)) = &v.opts {
        let want = ov.c_nonce.as_ref().map_or(Value::Null, |(l, x, at)| json!([l, x, at.to_string()]));
        if o["nonce"] != want || o["client"] != opt(&ov.client_id) {
            r.add(&["C11"], "eval: stored options read differently", format!("{} {} from {:?}", o["nonce"], o["client"], opts.map(util::lossy)));
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn parts(r: &mut Report, jwt: &str, nonce: &Option<String>, iss: &Option<String>, aud: &str, doc: &Option<Vec<u8>>, out: &Out, iv: &Interval) {
    let pv = model::proof(jwt);
    let o = match out {
        Out::Ok(o) => o,
        Out::Err(e) => {
            let mut x = model::Expect::default();
            match pv {
                P::Ok(_) => {}
                P::Bad => x.add(R::BadJwt),
                P::Unclear => x.unclear = true,
            }
            check_refusal(r, "parts", &x, e, &["C08"], &|| jwt.to_owned());
            return;
        }
        _ => return,
    };
    let p = match pv {
        P::Ok(p) => p,
        P::Bad => {
            r.add(&["C08"], "parts: malformed proof parsed", jwt.to_owned());
            return;
        }
        P::Unclear => return,
    };
    let errof = |k: &str| -> Option<ErrOut> { o[k].get("err").and_then(|e| serde_json::from_value(e.clone()).ok()) };
    for k in ["nonce", "iss", "aud", "did", "msg", "sig", "key", "validate"] {
        if let Some(e) = errof(k) {
            check_export(r, &e);
            jwt_payload(r, &e, Some(&p), iv, Some(nonce.as_deref()), Some(iss.as_deref()), Some(aud));
        }
    }
    // the text form is what was signed and then the signature
    if let (Some(text), Some(msg)) = (o["text"]["ok"].as_str(), o["msg"]["ok"].as_str()) {
        let mut want = msg.to_owned();
        if let Some(s) = o["signed"].as_str() {
            want.push_str(&util::hex(format!(".{s}").as_bytes()));
        }
        if util::hex(text.as_bytes()) != want {
            r.add(&["C07"], "parts: text form is not the message and its signature", format!("{text:?}"));
        }
    }
    let mut cmp = |k: &'static str, prop: &'static str, want: bool, detail: String, cats: &[&str]| {
        let got = o[k].get("ok").is_some();
        if got != want {
            let props = if want { vec![prop, "C12"] } else { vec![prop] };
            r.add(&props, format!("parts: {k} check {}", if got { "passes" } else { "fails" }), format!("{detail}: {}", show(&o[k])));
        } else if let Some(e) = errof(k) {
            if !cats.is_empty() && !cats.contains(&e.cat.as_str()) {
                r.add(&["C16"], format!("parts: {k} check names the wrong reason"), format!("{} for {detail}", e.cat));
            }
        }
    };
    cmp("nonce", "C03", nonce.as_deref() == Some(p.nonce.as_str()), format!("proof nonce {:?}, expected {nonce:?}", p.nonce), &["JWT.NonceMismatch"]);
    cmp("iss", "C04", *iss == p.iss, format!("proof iss {:?}, client {iss:?}", p.iss), &["JWT.IssuerMismatch"]);
    cmp("aud", "C04", aud == p.aud, format!("proof aud {:?}, issuer {aud:?}", p.aud), &["JWT.AudienceMismatch"]);
    let mut sh = model::Expect::default();
    model::shape(&mut sh, &p);
    if !sh.reasons.iter().any(|x| !x.1) {
        // a refusal for the key form may be given here or later
        let bad = sh.has(R::BadTyp) || sh.has(R::BadAlg);
        if bad || !(sh.has(R::UnsupportedKey) || sh.has(R::NoKey) || sh.unclear) {
            cmp("validate", "C08", !bad, format!("typ {:?} alg {:?}", p.typ, p.alg), &[]);
        }
    }
    if !p.key_unclear {
        match (&p.kid, p.jwk.is_some() || p.x5c.is_some()) {
            (Some(k), _) if !model::odd_kid(k) || model::clear_did(k).is_some() => {
                let want = model::did_of(k);
                cmp("did", "C06", want.is_some(), format!("kid {k:?}"), &["JWT.UnableToTransformIntoDid"]);
                let got = &o["did"]["ok"];
                if want.is_some() && o["did"].get("ok").is_some() && *got != json!(want) {
                    r.add(&["C06"], "parts: subject DID", format!("{got} for kid {k:?}"));
                }
            }
            (None, true) => cmp("did", "C08", false, format!("jwk {:?} x5c {:?}", p.jwk, p.x5c), &["JWT.UnsupportedKeyTypeInJwtHeader"]),
            _ => {}
        }
    }
    let msg = o["msg"].get("ok").map(unhex);
    match &msg {
        Some(m) => check_message(r, m, &p, "parts"),
        None => r.add(&["C07", "C12"], "parts: no message to verify", show(&o["msg"])),
    }
    match (o["sig"].get("ok").map(unhex), p.sig.as_deref().filter(|s| !s.is_empty())) {
        (Some(s), Some(w)) => {
            if s != w.as_bytes() && p.segments == 3 {
                r.add(&["C07"], "parts: signature is not the transmitted one", format!("{:?} for {w:?}", util::lossy(&s)));
            }
        }
        (None, Some(w)) => {
            if p.segments == 3 {
                r.add(&["C07", "C12"], "parts: signature not found", format!("{w:?}: {}", show(&o["sig"])));
            }
        }
        (Some(s), None) => {
            if legacy_unsigned(&p, msg.as_deref(), &s) {
                r.kf("KF-2", &["C07"], "parts: signature extracted from an unsigned proof", format!("{} gave {:?}", p.raw, util::lossy(&s)));
            } else {
                r.add(&["C07"], "parts: signature extracted where there is none", format!("{jwt} gave {:?}", util::lossy(&s)));
            }
        }
        (None, None) => {}
    }
    // key extraction from the document
    let d = doc.as_deref().map(model::doc);
    if p.key_unclear || matches!(d, Some(P::Unclear | P::Bad)) {
        return;
    }
    if let Some(kid) = &p.kid {
        let mut e = model::Expect::default();
        model::key_reasons(&mut e, kid, &d);
        match (o["key"].get("ok"), errof("key")) {
            (Some(k), _) => {
                for (x, certain) in &e.reasons {
                    if *certain {
                        r.add(x.props(), format!("parts: key found in spite of {x:?}"), format!("kid {kid:?} document {:?}", doc.as_deref().map(util::lossy)));
                    }
                }
                if let Some(P::Ok(d)) = &d {
                    let key = unhex(&k[0]);
                    let cand = d.lookup(kid);
                    if !e.unclear && !cand.is_empty() && !cand.iter().any(|c| matches!(c, KeyUse::Usable(b) | KeyUse::Maybe(b) if *b == key) || *c == KeyUse::Unclear) {
                        r.add(&["C06"], "parts: key is not the one the document holds for the key id", format!("{} for {kid}: {cand:?}", util::hex(&key)));
                    }
                }
                if k[1] != json!(p.alg) {
                    r.add(&["C08", "C07"], "parts: algorithm is not the declared one", format!("{} for {}", k[1], p.alg));
                }
            }
            (None, Some(err)) => check_refusal(r, "parts key", &e, &err, &["C06"], &|| format!("kid {kid:?} document {:?}", doc.as_deref().map(util::lossy))),
            _ => {}
        }
    } else if p.jwk.is_none() && p.x5c.is_none() && o["key"].get("ok").is_some() {
        r.add(&["C06", "C08"], "parts: key found for a proof that names none", show(&o["key"]));
    } else if p.x5c.is_some() && o["key"].get("ok").is_some() {
        r.add(&["C06", "C08"], "parts: key found for a certificate chain", show(&o["key"]));
    }
}

fn create_offer(r: &mut Report, meta: &[u8], creds: &[u8], endpoint: &Option<String>, auth: Option<&[u8]>, pre: Option<&[u8]>, out: &Out) {
    let (P::Ok(m), Some(c)) = (model::meta(meta), creds_norm(creds)) else { return };
    let mut e = model::Expect::default();
    if m.dup() {
        e.add(R::MetaDup);
    }
    let missing: Vec<String> = c.iter().filter_map(Value::as_str).filter(|id| m.find(id).is_none()).map(str::to_owned).collect();
    if !missing.is_empty() {
        e.add(R::MissingId);
    }
    if auth.is_some() {
        e.add(R::AuthFlow);
    }
    let o = match out {
        Out::Ok(o) => o,
        Out::Err(err) => {
            check_refusal(r, "create_offer", &e, err, &["C15"], &|| format!("credentials {}", util::lossy(creds)));
            missing_id(r, err, &missing);
            return;
        }
        _ => return,
    };
    for (x, _) in &e.reasons {
        r.add(&["C15"], format!("create_offer: created in spite of {x:?}"), format!("credentials {} metadata {}", util::lossy(creds), util::lossy(meta)));
    }
    let mut grants = json!({});
    if let Some(Some((Value::Object(p), _))) = pre.map(model::jparse) {
        let mut g = json!({"pre-authorized_code": p.get("pre-authorized_code")});
        if let Some(Value::Bool(b)) = p.get("user_pin_required") {
            g["user_pin_required"] = json!(b);
        }
        grants[model::PRE] = g;
    }
    let want = json!({"credential_issuer": m.issuer, "credentials": c, "grants": grants});
    let got = no_nulls(&o["offer"]);
    for k in ["credential_issuer", "credentials", "grants"] {
        if e.reasons.is_empty() && got[k] != want[k] {
            r.add(&["C15"], format!("create_offer: {k}"), format!("{} instead of {}", show(&got[k]), show(&want[k])));
        }
    }
    if o["same"] != json!(true) {
        r.add(&["C11", "C15"], "create_offer: offer reads back differently", show(&got));
    }
    let link = o["link"].as_str().unwrap_or("");
    // ordinary URL rules: the query is what follows the first '?', parameters are separated by '&'
    let read = |query: &str, plus: bool| -> Result<Value, String> {
        let vals: Vec<&str> = query.split('&').filter_map(|p| p.strip_prefix("credential_offer=")).collect();
        let [v] = vals.as_slice() else { return Err(format!("{} credential_offer parameters", vals.len())) };
        let d = util::percent_decode(v, plus).ok_or("not percent-encoded text")?;
        serde_json::from_str(&d).map_err(|e| e.to_string())
    };
    let mut query = None;
    match endpoint {
        Some(ep) if ep.contains('#') => {}
        Some(ep) => match link.split_once('?') {
            None => r.add(&["C15"], "create_offer: link has no query", link.to_owned()),
            Some((base, q)) => {
                let (ebase, eq) = ep.split_once('?').unwrap_or((ep, ""));
                if base != ebase {
                    r.add(&["C15"], "create_offer: link does not go to the endpoint", format!("{link:?} for {ep:?}"));
                }
                let mine: Vec<&str> = q.split('&').collect();
                if eq.split('&').any(|p| !p.is_empty() && !mine.contains(&p)) {
                    r.add(&["C15"], "create_offer: endpoint parameters lost", format!("{link:?} for {ep:?}"));
                }
                query = Some(q);
            }
        },
        None => match link.strip_prefix("openid-credential-offer://") {
            None => r.add(&["C15"], "create_offer: deep link scheme", link.to_owned()),
            Some(rest) => match rest.strip_prefix('?') {
                Some(q) => query = Some(q),
                None => {
                    r.kf("KF-3", &["C15"], "create_offer: deep link has no query", link.chars().take(80).collect());
                    query = Some(rest);
                }
            },
        },
    }
    if let Some(q) = query {
        for plus in [false, true] {
            match read(q, plus) {
                Ok(v) if no_nulls(&v) == got => {}
                Ok(v) => r.add(&["C15"], "create_offer: link delivers another offer", format!("{} instead of {}", show(&v), show(&got))),
                Err(m) => r.add(&["C15"], "create_offer: link does not decode", format!("{m}: {link:?}")),
            }
        }
    }
}

fn persist(r: &mut Report, m: &Mem, out: &Out, clean: bool) {
    let o = match out {
        Out::Ok(Value::Null) => return,
        Out::Ok(o) => o,
        _ => return,
    };
    let what = match m {
        Mem::Opts { .. } => "options",
        Mem::CNonce { .. } => "c_nonce",
        Mem::Offer { .. } => "offer",
        Mem::Meta(_) => "metadata",
        Mem::Bytes { kind, .. } => ["token request", "pin options", "metadata", "credential request", "offer", "options", "token response", "credential response"][*kind as usize % 8],
    };
    if o["same"] != json!(true) {
        r.add(&["C11"], format!("persist: {what} reads back differently"), show(&o["stored"]));
    }
    if o["stored"] != o["again"] {
        r.add(&["C11"], format!("persist: {what} changes when stored again"), format!("{} then {}", show(&o["stored"]), show(&o["again"])));
    }
    let stored = no_nulls(&o["stored"]);
    let bytes = stored.to_string();
    let mut bad = |want: String| r.add(&["C11"], format!("persist: {what} loses or alters a value"), format!("stored {} for {want}", show(&stored)));
    match m {
        Mem::Opts { c_nonce, client_id } => {
            let want = model::OptsView { c_nonce: c_nonce.clone(), client_id: client_id.clone() };
            if model::opts(bytes.as_bytes()).as_ok() != Some(&want) {
                bad(format!("{want:?}"));
            }
        }
        Mem::CNonce { c_nonce, expires } => {
            let want = no_nulls(&json!({"c_nonce": c_nonce, "c_nonce_expires_in": expires}));
            if stored != want {
                bad(want.to_string());
            }
        }
        Mem::Offer { issuer, creds, auth, pre } => {
            let Some(c) = creds_norm(creds) else { return };
            let mut want = json!({"credential_issuer": issuer, "credentials": c, "grants": {}});
            if let Some(a) = auth {
                want["grants"]["authorization_code"] = no_nulls(&json!({"issuer_state": a}));
            }
            if let Some((c, p)) = pre {
                want["grants"][model::PRE] = no_nulls(&json!({"pre-authorized_code": c, "user_pin_required": p}));
            }
            if stored != want {
                bad(want.to_string());
            }
        }
        Mem::Meta(m) => {
            let mut sup = vec![];
            for c in &m.creds {
                let Some((Value::Object(p), _)) = model::jparse(&c.profile) else { return };
                let P::Ok(mut v) = model::profile(&p) else { return };
                v["id"] = json!(c.id);
                v["cryptographic_binding_methods_supported"] = json!(c.binding);
                v["cryptographic_suites_supported"] = json!(c.suites);
                v["display"] = match &c.display {
                    None => Value::Null,
                    Some(d) => Value::Array(
                        d.iter()
                            .map(|(n, l, logo)| {
                                json!({"name": n, "locale": l, "logo": logo.as_ref().map(|(u, a)| json!({"url": u, "alt_text": a})), "description": l, "text_color": n})
                            })
                            .collect(),
                    ),
                };
                sup.push(no_nulls(&v));
            }
            let mut want = json!({"credential_issuer": m.issuer, "authorization_server": m.auth_server, "credential_endpoint": m.endpoint,
                "batch_credential_endpoint": m.batch, "credentials_supported": sup});
            for (k, v) in m.extra.iter().flatten() {
                want[k] = v.clone();
            }
            let want = no_nulls(&want);
            if stored != want {
                bad(want.to_string());
            }
        }
        Mem::Bytes { kind, bytes: b } => {
            let Some((Value::Object(orig), false)) = model::jparse(b) else { return };
            if !clean {
                return;
            }
            let mut lost = vec![];
            let want = match kind {
                2 => {
                    let mut w = orig.clone();
                    let mut sup = vec![];
                    for c in orig.get("credentials_supported").and_then(Value::as_array).into_iter().flatten() {
                        let Some(c) = c.as_object() else { return };
                        let P::Ok(mut v) = model::profile(c) else { return };
                        for k in ["id", "cryptographic_binding_methods_supported", "cryptographic_suites_supported", "display"] {
                            if let Some(x) = c.get(k) {
                                v[k] = x.clone();
                            }
                        }
                        // the type of this format has no place for it
                        let ctx = c.get("@context").filter(|x| !x.is_null());
                        if let (Some(ctx), Some("jwt_vc_json-ld")) = (ctx, c.get("format").and_then(Value::as_str)) {
                            match stored["credentials_supported"][sup.len()].get("@context") {
                                Some(x) => v["@context"] = if x == ctx { x.clone() } else { ctx.clone() },
                                None => lost.push(ctx.clone()),
                            }
                        }
                        sup.push(v);
                    }
                    w.insert("credentials_supported".into(), Value::Array(sup));
                    no_nulls(&Value::Object(w))
                }
                3 => {
                    let P::Ok(mut v) = model::profile(&orig) else { return };
                    if let Some(p) = orig.get("proof").and_then(Value::as_object) {
                        v["proof"] = json!({"proof_type": p.get("proof_type").cloned().unwrap_or(json!("JWT")), "jwt": p.get("jwt")});
                    }
                    v
                }
                0 => {
                    // the wallet may name the code either way; both are the same request
                    let (P::Ok(a), P::Ok(b)) = (model::token_req(b), model::token_req(bytes.as_bytes())) else {
                        bad("a token request".into());
                        return;
                    };
                    if format!("{a:?}") != format!("{b:?}") {
                        bad(format!("{a:?}"));
                    }
                    return;
                }
                _ => no_nulls(&Value::Object(orig)),
            };
            if stored != want {
                bad(want.to_string());
            }
            for x in lost {
                r.kf("KF-5", &["C11"], "persist: metadata loses the @context of a jwt_vc_json-ld credential", show(&x));
            }
        }
    }
}
