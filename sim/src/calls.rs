//! The only place where library code runs: one recorded call, executed on a node's clock.
//!
//! Every input is bytes as the node received them from the network or read them from its store,
//! so a call is replayable anywhere. With `restart` each decoded value is first persisted and
//! read back by the library's own codec, as if the node had crashed after receiving it.
use crate::seam::{self, ClockSetting, Interval, NS};
use chrono::{DateTime, TimeZone, Utc};
use openid4vci::access_token::error::AccessTokenError;
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::{AccessToken, AccessTokenRequest, AccessTokenSuccessResponse, EvaluateAccessTokenRequestOptions};
use openid4vci::credential_issuer::error::CredentialIssuerError;
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::{
    AuthorizedCodeFlow, CNonce, CNonceOptions, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken, CredentialOrId,
    CredentialOrIds, CredentialSuccessResponse, EvaluateCredentialRequestOptions, PreAuthorizedCodeFlow,
};
use openid4vci::jwt::error::JwtError;
use openid4vci::jwt::ProofJwt;
use openid4vci::return_object::ToReturnObject;
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::types::credential::CredentialFormatProfile;
use openid4vci::types::credential_issuer_metadata::{CredentialIssuerMetadata, CredentialSupported, DisplayLogo, DisplayProperties};
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::{Validatable, ValidationError};
use openid4vci::Document;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

pub type Bytes = Vec<u8>;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Call {
    Token { req: Bytes, offer: Option<Bytes>, opts: Option<Bytes> },
    Pre { req: Bytes },
    Eval { meta: Bytes, req: Bytes, offer: Option<Bytes>, asm: bool, doc: Option<Bytes>, opts: Option<Bytes> },
    /// `ProofJwt::from_str` then `verify`
    Verify { jwt: String },
    /// the single-claim checks and extractors of `ProofJwt`
    Parts { jwt: String, nonce: Option<String>, iss: Option<String>, aud: String, doc: Option<Bytes> },
    CreateOffer { meta: Bytes, creds: Bytes, form: u8, endpoint: Option<String>, auth: Option<Bytes>, pre: Option<Bytes> },
    Resolve { meta: Bytes, creds: Bytes },
    TokenOk { token: String, expires_in: Option<u32>, scope: Option<String>, c_nonce: Option<String>, c_nonce_expires_in: Option<u32>, pending: Option<bool>, interval: Option<u32> },
    TokenErr { code: u8, desc: Option<String>, uri: Option<String>, details: Option<Value> },
    CredOk { req: Bytes, cred: Option<Bytes>, token: Option<String>, c_nonce: Option<(String, Option<u32>)> },
    CredErr { code: u8, desc: Option<String>, uri: Option<String>, details: Option<Value> },
    /// a value built in memory through the public API, persisted and read back
    Persist(Mem),
    /// exported form of an error value
    Export { which: u8, s: String, t: String, n: u32, at: i64 },
}

/// tells `Some(None)` from `None`
mod maybe_maybe {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};

    pub fn serialize<S: Serializer>(v: &Option<Option<String>>, s: S) -> Result<S::Ok, S::Error> {
        v.iter().collect::<Vec<_>>().serialize(s)
    }

    pub fn deserialize<'a, D: Deserializer<'a>>(d: D) -> Result<Option<Option<String>>, D::Error> {
        Ok(Vec::<Option<String>>::deserialize(d)?.into_iter().next())
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mem {
    Opts { c_nonce: Option<(u32, String, i128)>, client_id: Option<String> },
    CNonce { c_nonce: String, expires: Option<u32> },
    Offer { issuer: String, creds: Bytes, #[serde(with = "maybe_maybe")] auth: Option<Option<String>>, pre: Option<(String, Option<bool>)> },
    Meta(Box<MetaMem>),
    Bytes { kind: u8, bytes: Bytes },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MetaMem {
    pub issuer: String,
    pub auth_server: Option<String>,
    pub endpoint: String,
    pub batch: Option<String>,
    pub creds: Vec<CredMem>,
    pub extra: Option<Vec<(String, Value)>>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CredMem {
    pub profile: Bytes,
    pub id: Option<String>,
    pub binding: Option<Vec<String>>,
    pub suites: Option<Vec<String>>,
    pub display: Option<Vec<(String, Option<String>, Option<(Option<String>, Option<String>)>)>>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Out {
    Ok(Value),
    Err(ErrOut),
    Undecodable(String, String),
    Panic(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ErrOut {
    pub cat: String,
    pub p: Value,
    pub child: Vec<ErrOut>,
    /// serialised `information()`
    pub info: Value,
    /// `information()` as text, read back
    pub shown: Value,
    /// serialised return object of an `Err` result
    pub ret: Value,
    /// `Display` text
    pub display: String,
}

pub const TOKEN_CODES: [&str; 8] = [
    "invalid_request", "invalid_grant", "invalid_client", "access_denied",
    "unsupported_response_type", "invalid_scope", "server_error", "temporarily_unavailable",
];
pub const CRED_CODES: [&str; 5] =
    ["invalid_request", "invalid_token", "unsupported_credential_type", "unsupported_credential_format", "invalid_or_missing_proof"];

fn token_code(i: u8) -> AccessTokenErrorCode {
    use AccessTokenErrorCode as C;
    match i % 8 {
        0 => C::InvalidRequest,
        1 => C::InvalidGrant,
        2 => C::InvalidClient,
        3 => C::AccessDenied,
        4 => C::UnsupportedResponseType,
        5 => C::InvalidScope,
        6 => C::ServerError,
        _ => C::TemporarilyUnavailable,
    }
}

fn cred_code(i: u8) -> CredentialIssuerErrorCode {
    use CredentialIssuerErrorCode as C;
    match i % 5 {
        0 => C::InvalidRequest,
        1 => C::InvalidToken,
        2 => C::UnsupportedCredentialType,
        3 => C::UnsupportedCredentialFormat,
        _ => C::InvalidOrMissingProof,
    }
}

pub fn ns_of(t: &DateTime<Utc>) -> i128 {
    i128::from(t.timestamp()) * NS + i128::from(t.timestamp_subsec_nanos())
}

pub fn dt_of(t: i128) -> Option<DateTime<Utc>> {
    Utc.timestamp_opt(i64::try_from(t.div_euclid(NS)).ok()?, t.rem_euclid(NS) as u32).single()
}

/// i128 does not fit a JSON number
fn t(v: &DateTime<Utc>) -> Value {
    Value::String(ns_of(v).to_string())
}

pub fn t_back(v: &Value) -> Option<i128> {
    v.as_str()?.parse().ok()
}

struct Stop(Out);

fn dec<T: DeserializeOwned>(what: &str, b: &[u8]) -> Result<T, Stop> {
    serde_json::from_slice(b).map_err(|e| Stop(Out::Undecodable(what.to_owned(), e.to_string())))
}

fn dec_rt<T: DeserializeOwned + Serialize>(what: &str, b: &[u8], restart: bool) -> Result<T, Stop> {
    let v: T = dec(what, b)?;
    if !restart {
        return Ok(v);
    }
    let stored = serde_json::to_vec(&v).map_err(|e| Stop(Out::Undecodable(format!("{what} (persist)"), e.to_string())))?;
    dec(&format!("{what} (read back)"), &stored)
}

fn dec_opt<T: DeserializeOwned + Serialize>(what: &str, b: &Option<Bytes>, restart: bool) -> Result<Option<T>, Stop> {
    b.as_ref().map(|b| dec_rt(what, b, restart)).transpose()
}

fn ser<T: Serialize>(what: &str, v: &T) -> Result<Value, Stop> {
    let s = serde_json::to_string(v).map_err(|e| Stop(Out::Undecodable(format!("{what} (encode)"), e.to_string())))?;
    serde_json::from_str(&s).map_err(|e| Stop(Out::Undecodable(format!("{what} (own encoding)"), format!("{e}: {s}"))))
}

/// The bytes a node would put on the wire.
fn wire<T: Serialize>(what: &str, v: &T) -> Result<String, Stop> {
    serde_json::to_string(v).map_err(|e| Stop(Out::Undecodable(format!("{what} (encode)"), e.to_string())))
}

/// the exported form; warnings added to it must come along and change nothing else
fn exported<T: Serialize + Clone, E: Serialize + Clone>(r: &impl ToReturnObject<T, E, String>) -> Value {
    let plain = serde_json::to_value(r.to_return_object()).unwrap_or(Value::Null);
    let warned = r.to_return_object().add_warning("one".to_owned()).add_warning("two".to_owned());
    let warned = serde_json::to_value(warned).unwrap_or(Value::Null);
    let mut rest = warned.clone();
    let w = rest.as_object_mut().and_then(|m| m.remove("warnings"));
    if w == Some(json!(["one", "two"])) && rest == plain {
        plain
    } else {
        json!({"after adding warnings": warned, "before": plain})
    }
}

macro_rules! err_out {
    ($e:expr, $ty:ty, $cat:expr, $p:expr, $child:expr) => {{
        let e = $e.clone();
        let r: Result<String, $ty> = Err(e.clone());
        ErrOut {
            cat: $cat,
            p: $p,
            child: $child,
            info: serde_json::to_value(e.information()).unwrap_or(Value::Null),
            shown: serde_json::from_str(&e.information().to_string()).unwrap_or(Value::Null),
            ret: exported(&r),
            display: e.to_string(),
        }
    }};
}

fn val_err(e: &ValidationError) -> ErrOut {
    let (c, p) = match e {
        ValidationError::Any { validation_message } => ("VAL.Any", json!({"validation_message": validation_message})),
        #[allow(unreachable_patterns)]
        _ => ("VAL.?", Value::Null),
    };
    err_out!(e, ValidationError, c.to_owned(), p, vec![])
}

fn jwt_err(e: &JwtError) -> ErrOut {
    use JwtError as E;
    let mut child = vec![];
    let (c, p) = match e {
        E::ValidationError(v) => {
            child.push(val_err(v));
            ("JWT.ValidationError", child[0].p.clone())
        }
        E::NotYetValid { valid_from, now } => ("JWT.NotYetValid", json!({"valid_from": t(valid_from), "now": t(now)})),
        E::NotValidAnymore { valid_until, now } => ("JWT.NotValidAnymore", json!({"valid_until": t(valid_until), "now": t(now)})),
        E::IssuerMismatch { expected_iss_in_jwt, actual_iss_in_jwt } => {
            ("JWT.IssuerMismatch", json!({"expected_iss_in_jwt": expected_iss_in_jwt, "actual_iss_in_jwt": actual_iss_in_jwt}))
        }
        E::NoKeyFoundInProof => ("JWT.NoKeyFoundInProof", Value::Null),
        E::NoDidDocumentProvidedForKidAsDid => ("JWT.NoDidDocumentProvidedForKidAsDid", Value::Null),
        E::UnableToTransformIntoDid { kid, message } => ("JWT.UnableToTransformIntoDid", json!({"kid": kid, "message": message})),
        E::UnableToResolveDidInDidDocument { did, message } => ("JWT.UnableToResolveDidInDidDocument", json!({"did": did, "message": message})),
        E::UnableToMapVerificationMethodToJwk { messsage } => ("JWT.UnableToMapVerificationMethodToJwk", json!({"messsage": messsage})),
        E::UnableToTransformIntoJoseItem { original_string, serde_message } => {
            ("JWT.UnableToTransformIntoJoseItem", json!({"original_string": original_string, "serde_message": serde_message}))
        }
        E::UnsupportedAlgorithm { algorithm } => ("JWT.UnsupportedAlgorithm", json!({"algorithm": algorithm})),
        E::EdDSAHasNoXCoordinate => ("JWT.EdDSAHasNoXCoordinate", Value::Null),
        E::ESXXXHasNoXOrYCoordinate { algorithm, x, y } => ("JWT.ESXXXHasNoXOrYCoordinate", json!({"algorithm": algorithm, "x": x, "y": y})),
        E::SignatureNotInJwt { jwt } => ("JWT.SignatureNotInJwt", json!({"jwt": jwt})),
        E::UnsupportedKeyTypeInJwtHeader { key_name, key_type } => ("JWT.UnsupportedKeyTypeInJwtHeader", json!({"key_name": key_name, "key_type": key_type})),
        E::NonceMismatch { expected_nonce, actual_nonce } => ("JWT.NonceMismatch", json!({"expected_nonce": expected_nonce, "actual_nonce": actual_nonce})),
        E::AudienceMismatch { expected_aud_in_jwt, actual_aud_in_jwt } => {
            ("JWT.AudienceMismatch", json!({"expected_aud_in_jwt": expected_aud_in_jwt, "actual_aud_in_jwt": actual_aud_in_jwt}))
        }
        #[allow(unreachable_patterns)]
        _ => ("JWT.?", Value::Null),
    };
    err_out!(e, JwtError, c.to_owned(), p, child)
}

fn at_err(e: &AccessTokenError) -> ErrOut {
    use AccessTokenError as E;
    let mut child = vec![];
    let (c, p) = match e {
        E::ValidationError(v) => {
            child.push(val_err(v));
            ("AT.ValidationError", child[0].p.clone())
        }
        E::InvalidGrantType { requested_grant_type, accepted_grant_type } => {
            ("AT.InvalidGrantType", json!({"requested_grant_type": requested_grant_type, "accepted_grant_type": accepted_grant_type}))
        }
        E::AuthorizedFlowNotSupported => ("AT.AuthorizedFlowNotSupported", Value::Null),
        E::NoFlowSupportedInCredentialOffer => ("AT.NoFlowSupportedInCredentialOffer", Value::Null),
        E::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied, does_code_match } => {
            ("AT.InvalidPreAuthorizedCodeFlowValues", json!({"should_pin_be_supplied": should_pin_be_supplied, "does_code_match": does_code_match}))
        }
        E::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error, pre_authorized_error } => {
            child.push(at_err(authorized_error));
            child.push(at_err(pre_authorized_error));
            ("AT.InvalidAuthorizedAndPreAuthorizedCodeFlow", json!({"authorized_error": child[0].p, "pre_authorized_error": child[1].p}))
        }
        E::OptionsAreRequiredForEvaluation { reason } => ("AT.OptionsAreRequiredForEvaluation", json!({"reason": reason})),
        E::UserPinMismatch => ("AT.UserPinMismatch", Value::Null),
        E::CredentialOfferMustBeSupplied => ("AT.CredentialOfferMustBeSupplied", Value::Null),
        #[allow(unreachable_patterns)]
        _ => ("AT.?", Value::Null),
    };
    err_out!(e, AccessTokenError, c.to_owned(), p, child)
}

fn ci_err(e: &CredentialIssuerError) -> ErrOut {
    use CredentialIssuerError as E;
    let mut child = vec![];
    let (c, p) = match e {
        E::ValidationError(v) => {
            child.push(val_err(v));
            ("CI.ValidationError", child[0].p.clone())
        }
        E::JwtError(v) => {
            child.push(jwt_err(v));
            ("CI.JwtError", child[0].p.clone())
        }
        E::AuthorizedFlowNotSupported => ("CI.AuthorizedFlowNotSupported", Value::Null),
        E::CredentialIdNotInIssuerMetadata { id } => ("CI.CredentialIdNotInIssuerMetadata", json!({"id": id})),
        E::InvalidCredentialOfferEncoding { error_message } => ("CI.InvalidCredentialOfferEncoding", json!({"error_message": error_message})),
        E::InvalidRequestedCredential { requested_credential, supported_formats } => {
            ("CI.InvalidRequestedCredential", json!({"requested_credential": requested_credential, "supported_formats": supported_formats}))
        }
        E::ExpiredCNonce { now, expires_in } => ("CI.ExpiredCNonce", json!({"now": t(now), "expires_in": expires_in.as_ref().map(t)})),
        E::CredentialAndAcceptanceTokenSupplied => ("CI.CredentialAndAcceptanceTokenSupplied", Value::Null),
        E::AuthorizationServerMetadataNotSupported => ("CI.AuthorizationServerMetadataNotSupported", Value::Null),
        E::CredentialOfferMustBeSupplied => ("CI.CredentialOfferMustBeSupplied", Value::Null),
        E::EvaluteCredentialRequestOptionsNotSupplied { reason } => ("CI.EvaluteCredentialRequestOptionsNotSupplied", json!({"reason": reason})),
        E::CNonceIsExpired { now, expiry_timestamp } => ("CI.CNonceIsExpired", json!({"now": t(now), "expiry_timestamp": t(expiry_timestamp)})),
        E::NoProofInCredentialRequest => ("CI.NoProofInCredentialRequest", Value::Null),
        #[allow(unreachable_patterns)]
        _ => ("CI.?", Value::Null),
    };
    err_out!(e, CredentialIssuerError, c.to_owned(), p, child)
}

/// `ERR.` categories of every variant, for the export sweep
pub const N_EXPORT: u8 = 40;

fn export(which: u8, s: &str, u: &str, n: u32, at: i64) -> ErrOut {
    let s = s.to_owned();
    let u = u.to_owned();
    let d1 = Utc.timestamp_opt(at.rem_euclid(4_000_000_000), n % 1_000_000_000).unwrap();
    let d2 = Utc.timestamp_opt((at ^ 0x5555).rem_euclid(4_000_000_000), (n / 7) % 1_000_000_000).unwrap();
    let b = n & 1 == 1;
    let prof = CredentialFormatProfile::MsoMdoc { doctype: u.clone(), claims: None, order: None };
    let val = ValidationError::Any { validation_message: s.clone() };
    use AccessTokenError as A;
    use CredentialIssuerError as C;
    use JwtError as J;
    match which % N_EXPORT {
        0 => val_err(&val),
        1 => jwt_err(&J::ValidationError(val)),
        2 => jwt_err(&J::NotYetValid { valid_from: d1, now: d2 }),
        3 => jwt_err(&J::NotValidAnymore { valid_until: d1, now: d2 }),
        4 => jwt_err(&J::IssuerMismatch { expected_iss_in_jwt: b.then_some(s), actual_iss_in_jwt: (n & 2 == 2).then_some(u) }),
        5 => jwt_err(&J::NoKeyFoundInProof),
        6 => jwt_err(&J::NoDidDocumentProvidedForKidAsDid),
        7 => jwt_err(&J::UnableToTransformIntoDid { kid: s, message: u }),
        8 => jwt_err(&J::UnableToResolveDidInDidDocument { did: s, message: u }),
        9 => jwt_err(&J::UnableToMapVerificationMethodToJwk { messsage: s }),
        10 => jwt_err(&J::UnableToTransformIntoJoseItem { original_string: s, serde_message: u }),
        11 => jwt_err(&J::UnsupportedAlgorithm { algorithm: s }),
        12 => jwt_err(&J::EdDSAHasNoXCoordinate),
        13 => jwt_err(&J::ESXXXHasNoXOrYCoordinate { algorithm: s, x: b.then(|| u.clone().into_bytes()), y: None }),
        14 => jwt_err(&J::SignatureNotInJwt { jwt: s }),
        15 => jwt_err(&J::UnsupportedKeyTypeInJwtHeader { key_name: s, key_type: u }),
        16 => jwt_err(&J::NonceMismatch { expected_nonce: b.then_some(s), actual_nonce: u }),
        17 => jwt_err(&J::AudienceMismatch { expected_aud_in_jwt: s, actual_aud_in_jwt: u }),
        18 => at_err(&A::ValidationError(val)),
        19 => at_err(&A::InvalidGrantType { requested_grant_type: s, accepted_grant_type: vec![u] }),
        20 => at_err(&A::AuthorizedFlowNotSupported),
        21 => at_err(&A::NoFlowSupportedInCredentialOffer),
        22 => at_err(&A::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied: b, does_code_match: n & 2 == 2 }),
        23 => at_err(&A::InvalidAuthorizedAndPreAuthorizedCodeFlow {
            authorized_error: Box::new(A::InvalidGrantType { requested_grant_type: s, accepted_grant_type: vec![] }),
            pre_authorized_error: Box::new(A::UserPinMismatch),
        }),
        24 => at_err(&A::OptionsAreRequiredForEvaluation { reason: s }),
        25 => at_err(&A::UserPinMismatch),
        26 => at_err(&A::CredentialOfferMustBeSupplied),
        27 => ci_err(&C::ValidationError(val)),
        28 => ci_err(&C::JwtError(J::NonceMismatch { expected_nonce: b.then_some(s), actual_nonce: u })),
        29 => ci_err(&C::AuthorizedFlowNotSupported),
        30 => ci_err(&C::CredentialIdNotInIssuerMetadata { id: s }),
        31 => ci_err(&C::InvalidCredentialOfferEncoding { error_message: s }),
        32 => ci_err(&C::InvalidRequestedCredential { requested_credential: Box::new(prof.clone()), supported_formats: vec![prof] }),
        33 => ci_err(&C::ExpiredCNonce { now: d1, expires_in: b.then_some(d2) }),
        34 => ci_err(&C::CredentialAndAcceptanceTokenSupplied),
        35 => ci_err(&C::AuthorizationServerMetadataNotSupported),
        36 => ci_err(&C::CredentialOfferMustBeSupplied),
        37 => ci_err(&C::EvaluteCredentialRequestOptionsNotSupplied { reason: s }),
        38 => ci_err(&C::CNonceIsExpired { now: d1, expiry_timestamp: d2 }),
        _ => ci_err(&C::NoProofInCredentialRequest),
    }
}

fn opts_mem(c_nonce: &Option<(u32, String, i128)>, client_id: &Option<String>) -> Option<EvaluateCredentialRequestOptions> {
    let c = match c_nonce {
        None => None,
        Some((e, x, at)) => Some(CNonceOptions { c_nonce_expires_in: *e, expected_c_nonce: x.clone(), c_nonce_created_at: dt_of(*at)? }),
    };
    Some(EvaluateCredentialRequestOptions { c_nonce: c, client_id: client_id.clone() })
}

/// persist, read back, compare
fn persisted<T: Serialize + DeserializeOwned>(what: &str, v: &T, same: impl Fn(&T, &T) -> bool) -> Result<Out, Stop> {
    let s = wire(what, v)?;
    let back: T = dec(&format!("{what} (read back)"), s.as_bytes())?;
    let again = wire(what, &back)?;
    let v1: Value = dec(what, s.as_bytes())?;
    let v2: Value = dec(what, again.as_bytes())?;
    Ok(Out::Ok(json!({"same": same(v, &back), "stored": v1, "again": v2})))
}

fn creds_of(b: &[u8], restart: bool) -> Result<Vec<CredentialOrId>, Stop> {
    dec_rt("credentials", b, restart)
}

fn run(call: &Call, restart: bool) -> Result<Out, Stop> {
    Ok(match call {
        Call::Token { req, offer, opts } => {
            let req: AccessTokenRequest = dec_rt("token request", req, restart)?;
            let offer: Option<CredentialOffer> = dec_opt("offer", offer, restart)?;
            let opts: Option<EvaluateAccessTokenRequestOptions> = dec_opt("pin options", opts, restart)?;
            let before = serde_json::to_value(&req).ok();
            match AccessToken::evaluate_access_token_request(&req, offer, opts) {
                Ok(()) => Out::Ok(json!({"granted": true, "ret": exported(&Ok::<_, AccessTokenError>("x".to_owned())), "req": before})),
                Err(e) => Out::Err(at_err(&e)),
            }
        }
        Call::Pre { req } => {
            let req: CredentialRequest = dec_rt("credential request", req, restart)?;
            match CredentialIssuer::pre_evaluate_credential_request(&req) {
                Ok(r) => Out::Ok(json!({"did": r.did, "ser": ser("pre-evaluation", &r)?})),
                Err(e) => Out::Err(ci_err(&e)),
            }
        }
        Call::Eval { meta, req, offer, asm, doc, opts } => {
            let meta: CredentialIssuerMetadata = dec_rt("metadata", meta, restart)?;
            let req: CredentialRequest = dec_rt("credential request", req, restart)?;
            let offer: Option<CredentialOffer> = dec_opt("offer", offer, restart)?;
            let doc: Option<Document> = dec_opt("did document", doc, false)?;
            let opts: Option<EvaluateCredentialRequestOptions> = dec_opt("options", opts, restart)?;
            let asm: Option<AuthorizationServerMetadata> = if *asm { Some(dec_rt("as metadata", b"{}", restart)?) } else { None };
            let seen = opts.as_ref().and_then(|o| o.c_nonce.as_ref()).map(|c| json!([c.c_nonce_expires_in, c.expected_c_nonce, ns_of(&c.c_nonce_created_at).to_string()]));
            let client = opts.as_ref().and_then(|o| o.client_id.clone());
            match CredentialIssuer::evaluate_credential_request(&meta, &req, offer.as_ref(), asm.as_ref(), doc.as_ref(), opts) {
                Ok(r) => {
                    let whole = ser("evaluation", &r)?;
                    let pop = match &r.proof_of_possession {
                        Some(p) => json!({"alg": ser("alg", &p.algorithm)?, "key": crate::util::hex(&p.public_key), "msg": crate::util::lossy(&p.message),
                            "msg_hex": crate::util::hex(&p.message), "sig": crate::util::hex(&p.signature)}),
                        None => Value::Null,
                    };
                    Out::Ok(json!({"pop": pop, "subject": r.subject_id, "credential": ser("credential", &r.credential)?, "whole": whole, "nonce": seen, "client": client}))
                }
                Err(e) => Out::Err(ci_err(&e)),
            }
        }
        Call::Verify { jwt } => {
            let p = match ProofJwt::from_str(jwt) {
                Ok(p) => p,
                Err(e) => return Ok(Out::Err(val_err(&e))),
            };
            let p = if restart { dec("proof", &serde_json::to_vec(&p).unwrap())? } else { p };
            match p.verify() {
                Ok(()) => Out::Ok(json!({"valid": true})),
                Err(e) => Out::Err(jwt_err(&e)),
            }
        }
        Call::Parts { jwt, nonce, iss, aud, doc } => {
            let p = match ProofJwt::from_str(jwt) {
                Ok(p) => p,
                Err(e) => return Ok(Out::Err(val_err(&e))),
            };
            let p = if restart { dec("proof", &serde_json::to_vec(&p).unwrap())? } else { p };
            let doc: Option<Document> = dec_opt("did document", doc, false)?;
            fn e2<T: Into<Value>>(r: Result<T, JwtError>) -> Value {
                match r {
                    Ok(v) => json!({"ok": v.into()}),
                    Err(e) => json!({"err": serde_json::to_value(jwt_err(&e)).unwrap()}),
                }
            }
            let keyalg = p.extract_key_and_alg(doc.as_ref()).map(|(k, a)| json!([crate::util::hex(&k), serde_json::to_value(a).unwrap_or(Value::Null)]));
            let valid = match p.validate() {
                Ok(()) => json!({"ok": true}),
                Err(e) => json!({"err": serde_json::to_value(val_err(&e)).unwrap()}),
            };
            Out::Ok(json!({
                "nonce": e2(p.check_nonce(nonce.clone()).map(|()| true)),
                "iss": e2(p.check_iss(iss.clone()).map(|()| true)),
                "aud": e2(p.check_aud(aud).map(|()| true)),
                "did": e2(p.extract_did().map(|d| json!(d))),
                "msg": e2(p.to_signable_message().map(|m| crate::util::hex(&m))),
                "sig": e2(p.extract_signature().map(|m| crate::util::hex(&m))),
                "key": e2(keyalg),
                "validate": valid,
                "text": e2(TryInto::<String>::try_into(&p)),
                "signed": p.signature,
            }))
        }
        Call::CreateOffer { meta, creds, form, endpoint, auth, pre } => {
            let meta: CredentialIssuerMetadata = dec_rt("metadata", meta, restart)?;
            let creds = creds_of(creds, restart)?;
            let auth: Option<AuthorizedCodeFlow> = dec_opt("authorised grant", auth, restart)?;
            let pre: Option<PreAuthorizedCodeFlow> = dec_opt("pre-authorised grant", pre, restart)?;
            let ids: Option<Vec<String>> = creds.iter().map(|c| if let CredentialOrId::CredentialId(s) = c { Some(s.clone()) } else { None }).collect();
            let profs: Option<Vec<CredentialFormatProfile>> = creds.iter().map(|c| if let CredentialOrId::Credential(s) = c { Some(s.clone()) } else { None }).collect();
            let r = match (form % 4, ids, profs) {
                (1, Some(ids), _) => CredentialIssuer::create_offer(&meta, ids, endpoint, &auth, &pre),
                (1, _, Some(p)) => CredentialIssuer::create_offer(&meta, p, endpoint, &auth, &pre),
                (2, Some(ids), _) => {
                    let v: Vec<&str> = ids.iter().map(String::as_str).collect();
                    CredentialIssuer::create_offer(&meta, v, endpoint, &auth, &pre)
                }
                (3, _, _) => {
                    let refs: Vec<&CredentialOrId> = creds.iter().collect();
                    CredentialIssuer::create_offer(&meta, refs.as_slice(), endpoint, &auth, &pre)
                }
                _ => CredentialIssuer::create_offer(&meta, CredentialOrIds::new(creds), endpoint, &auth, &pre),
            };
            match r {
                Ok((offer, link)) => {
                    let wire = wire("offer", &offer)?;
                    let back: CredentialOffer = dec("offer (read back)", wire.as_bytes())?;
                    // split off what precedes the encoded offer, and decode the rest, since the
                    // order of JSON map entries is not part of the value
                    Out::Ok(json!({"offer": serde_json::from_str::<Value>(&wire).unwrap_or(Value::Null), "link": link, "same": back == offer}))
                }
                Err(e) => Out::Err(ci_err(&e)),
            }
        }
        Call::Resolve { meta, creds } => {
            let meta: CredentialIssuerMetadata = dec_rt("metadata", meta, restart)?;
            let creds = CredentialOrIds::new(creds_of(creds, restart)?);
            match creds.resolve_all(&meta) {
                Ok(v) => Out::Ok(json!({"profiles": ser("profiles", &v)?})),
                Err(e) => Out::Err(ci_err(&e)),
            }
        }
        Call::TokenOk { token, expires_in, scope, c_nonce, c_nonce_expires_in, pending, interval } => {
            match AccessToken::create_access_token_success_response(
                token.clone(), AccessTokenType::Bearer, *expires_in, scope.clone(), c_nonce.clone(), *c_nonce_expires_in, *pending, *interval,
            ) {
                Ok((r, at)) => {
                    let bytes = wire("token response", &r)?;
                    let back: AccessTokenSuccessResponse = dec("token response (read back)", bytes.as_bytes())?;
                    let valid = match r.validate() {
                        Ok(()) => Value::Null,
                        Err(e) => serde_json::to_value(val_err(&e)).unwrap(),
                    };
                    let ret = exported(&Ok::<_, AccessTokenError>(r.clone()));
                    let name: &str = AccessTokenType::Bearer.into();
                    let mapped = AccessTokenType::try_from("Bearer".to_owned()).ok() == Some(AccessTokenType::Bearer);
                    Out::Ok(json!({"wire": bytes, "at": t(&at), "same": back == r, "valid": valid, "ret": ret, "type": [name, mapped]}))
                }
                Err(e) => Out::Err(at_err(&e)),
            }
        }
        Call::TokenErr { code, desc, uri, details } => {
            let c = token_code(*code);
            match AccessToken::create_access_token_error_response(c.clone(), desc.clone(), uri.clone(), details.clone()) {
                Ok(r) => {
                    let bytes = wire("token error response", &r)?;
                    let v: Value = dec("token error response (own encoding)", bytes.as_bytes())?;
                    let word = v["error"].as_str().unwrap_or("").to_owned();
                    let mapped = AccessTokenErrorCode::try_from(word.clone()).ok() == Some(c.clone());
                    let decoded = serde_json::from_value::<AccessTokenErrorCode>(v["error"].clone()).ok() == Some(c.clone());
                    let name: &str = c.into();
                    Out::Ok(json!({"wire": bytes, "mapped": mapped, "decoded": decoded, "name": name}))
                }
                Err(e) => Out::Err(at_err(&e)),
            }
        }
        Call::CredOk { req, cred, token, c_nonce } => {
            let req: CredentialRequest = dec_rt("credential request", req, restart)?;
            let what = match (cred, token) {
                (Some(c), _) => Some(CredentialOrAcceptanceToken::Credential(dec_rt("credential", c, restart)?)),
                (None, Some(tk)) => Some(CredentialOrAcceptanceToken::AcceptanceToken(tk.clone())),
                _ => None,
            };
            let n = c_nonce.as_ref().map(|(c, e)| CNonce { c_nonce: c.clone(), c_nonce_expires_in: *e });
            match CredentialIssuer::create_credential_success_response(&req, what, n) {
                Ok((r, at)) => {
                    let bytes = wire("credential response", &r)?;
                    let back: CredentialSuccessResponse = dec("credential response (read back)", bytes.as_bytes())?;
                    let mut v: Value = dec("credential response (own encoding)", bytes.as_bytes())?;
                    // decoded here because the entry order inside the encoded text may vary
                    let enc = v["credential"].as_str().map(str::to_owned);
                    let inner: Option<Value> = enc.as_ref().and_then(|s| crate::util::unb64(s)).and_then(|b| serde_json::from_slice(&b).ok());
                    if enc.is_some() {
                        v["credential"] = json!("<encoded>");
                    }
                    Out::Ok(json!({"wire": v, "enc": enc.is_some(), "inner": inner, "at": t(&at), "same": back == r}))
                }
                Err(e) => Out::Err(ci_err(&e)),
            }
        }
        Call::CredErr { code, desc, uri, details } => {
            let c = cred_code(*code);
            match CredentialIssuer::create_credential_error_response(&c, desc.clone(), uri.clone(), details.clone()) {
                Ok(r) => {
                    let bytes = wire("credential error response", &r)?;
                    let v: Value = dec("credential error response (own encoding)", bytes.as_bytes())?;
                    let word = v["error"].as_str().unwrap_or("").to_owned();
                    let mapped = CredentialIssuerErrorCode::try_from(word).ok() == Some(c.clone());
                    let decoded = serde_json::from_value::<CredentialIssuerErrorCode>(v["error"].clone()).ok() == Some(c.clone());
                    let name: &str = c.into();
                    Out::Ok(json!({"wire": bytes, "mapped": mapped, "decoded": decoded, "name": name}))
                }
                Err(e) => Out::Err(ci_err(&e)),
            }
        }
        Call::Persist(m) => match m {
            Mem::Opts { c_nonce, client_id } => match opts_mem(c_nonce, client_id) {
                Some(o) => persisted("options", &o, |a, b| a == b)?,
                None => Out::Ok(Value::Null),
            },
            Mem::CNonce { c_nonce, expires } => {
                persisted("c_nonce", &CNonce { c_nonce: c_nonce.clone(), c_nonce_expires_in: *expires }, |a, b| a == b)?
            }
            Mem::Offer { issuer, creds, auth, pre } => {
                let creds = CredentialOrIds::new(creds_of(creds, false)?);
                let o = CredentialOffer::new(
                    issuer,
                    creds,
                    &auth.as_ref().map(|s| AuthorizedCodeFlow { issuer_state: s.clone() }),
                    &pre.as_ref().map(|(c, p)| PreAuthorizedCodeFlow { code: c.clone(), user_pin_required: *p }),
                );
                persisted("offer", &o, |a, b| a == b)?
            }
            Mem::Meta(m) => {
                let mut sup = vec![];
                for c in &m.creds {
                    sup.push(CredentialSupported {
                        format: dec("profile", &c.profile)?,
                        id: c.id.clone(),
                        cryptographic_binding_mehtods_supported: c.binding.clone(),
                        cryptographic_suites_supported: c.suites.clone(),
                        display: c.display.as_ref().map(|d| {
                            d.iter()
                                .map(|(n, l, logo)| DisplayProperties {
                                    name: n.clone(),
                                    locale: l.clone(),
                                    logo: logo.as_ref().map(|(u, a)| DisplayLogo { url: u.clone(), alt_text: a.clone() }),
                                    description: l.clone(),
                                    background_color: None,
                                    text_color: Some(n.clone()),
                                })
                                .collect()
                        }),
                    });
                }
                let meta = CredentialIssuerMetadata {
                    credential_issuer: m.issuer.clone(),
                    authorization_server: m.auth_server.clone(),
                    credential_endpoint: m.endpoint.clone(),
                    batch_credential_endpoint: m.batch.clone(),
                    credentials_supported: sup,
                    additional_fields: m.extra.as_ref().map(|e| e.iter().cloned().collect()),
                };
                persisted("metadata", &meta, |a, b| a.credentials_supported == b.credentials_supported)?
            }
            Mem::Bytes { kind, bytes } => match kind {
                0 => persisted("token request", &dec::<AccessTokenRequest>("token request", bytes)?, |a, b| a == b)?,
                1 => persisted("pin options", &dec::<EvaluateAccessTokenRequestOptions>("pin options", bytes)?, |a, b| a == b)?,
                2 => persisted("metadata", &dec::<CredentialIssuerMetadata>("metadata", bytes)?, |a, b| a.credentials_supported == b.credentials_supported)?,
                3 => persisted("credential request", &dec::<CredentialRequest>("credential request", bytes)?, |a, b| a.format == b.format)?,
                4 => persisted("offer", &dec::<CredentialOffer>("offer", bytes)?, |a, b| a == b)?,
                5 => persisted("options", &dec::<EvaluateCredentialRequestOptions>("options", bytes)?, |a, b| a == b)?,
                6 => persisted("token response", &dec::<AccessTokenSuccessResponse>("token response", bytes)?, |a, b| a == b)?,
                _ => persisted("credential response", &dec::<CredentialSuccessResponse>("credential response", bytes)?, |a, b| a == b)?,
            },
        },
        Call::Export { which, s, t, n, at } => Out::Err(export(*which, s, t, *n, *at)),
    })
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        if let Ok(mut g) = ANY_PANIC.try_lock() {
            g.clone_from(&s);
        }
        PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = s;
            }
        });
    }));
}

static ANY_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// of any thread: for errors of the harness itself
pub fn any_panic() -> String {
    ANY_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub fn exec(call: &Call, clock: &ClockSetting, restart: bool) -> (Out, Interval) {
    seam::enter(clock);
    let r = catch_unwind(AssertUnwindSafe(|| run(call, restart)));
    let iv = seam::leave();
    let out = match r {
        Ok(Ok(o)) => o,
        Ok(Err(Stop(o))) => o,
        Err(_) => Out::Panic(last_panic()),
    };
    (out, iv)
}

impl Call {
    pub fn name(&self) -> &'static str {
        match self {
            Call::Token { .. } => "token",
            Call::Pre { .. } => "pre",
            Call::Eval { .. } => "eval",
            Call::Verify { .. } => "verify",
            Call::Parts { .. } => "parts",
            Call::CreateOffer { .. } => "create_offer",
            Call::Resolve { .. } => "resolve",
            Call::TokenOk { .. } => "token_ok",
            Call::TokenErr { .. } => "token_err",
            Call::CredOk { .. } => "cred_ok",
            Call::CredErr { .. } => "cred_err",
            Call::Persist(_) => "persist",
            Call::Export { .. } => "export",
        }
    }
}

impl Out {
    pub fn label(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Err(e) => {
                let mut s = e.cat.clone();
                for c in &e.child {
                    s.push('>');
                    s.push_str(&c.cat);
                }
                s
            }
            Out::Undecodable(w, _) => format!("undecodable {w}"),
            Out::Panic(_) => "PANIC".into(),
        }
    }
    pub fn ok(&self) -> Option<&Value> {
        if let Out::Ok(v) = self {
            Some(v)
        } else {
            None
        }
    }
}
