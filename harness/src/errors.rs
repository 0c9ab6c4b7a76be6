//! Error responses, error information and return objects.
use crate::data::*;
use crate::request::{mdoc, utc};
use crate::sx::{self, Set};
use openid4vci::access_token::error::AccessTokenError as A;
use openid4vci::access_token::error::AccessTokenResult;
use openid4vci::access_token::error_response::AccessTokenErrorCode as AC;
use openid4vci::access_token::AccessToken;
use openid4vci::credential_issuer::error::CredentialIssuerError as I;
use openid4vci::credential_issuer::error::CredentialIssuerResult;
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode as IC;
use openid4vci::credential_issuer::CredentialIssuer;
use openid4vci::error::ErrorInformation;
use openid4vci::jwt::error::{JwtError as J, JwtResult};
use openid4vci::return_object::{ReturnObject, ToReturnObject};
use openid4vci::validate::{ValidationError, ValidationResult};
use serde_json::Value;

fn token_codes() -> Vec<(AC, &'static str)> {
    vec![
        (AC::InvalidRequest, "invalid_request"),
        (AC::InvalidGrant, "invalid_grant"),
        (AC::InvalidClient, "invalid_client"),
        (AC::AccessDenied, "access_denied"),
        (AC::UnsupportedResponseType, "unsupported_response_type"),
        (AC::InvalidScope, "invalid_scope"),
        (AC::ServerError, "server_error"),
        (AC::TemporarilyUnavailable, "temporarily_unavailable"),
    ]
}
fn issuer_codes() -> Vec<(IC, &'static str)> {
    vec![
        (IC::InvalidRequest, "invalid_request"),
        (IC::InvalidToken, "invalid_token"),
        (IC::UnsupportedCredentialType, "unsupported_credential_type"),
        (IC::UnsupportedCredentialFormat, "unsupported_credential_format"),
        (IC::InvalidOrMissingProof, "invalid_or_missing_proof"),
    ]
}
/// Details as object with symbolic members.
fn details() -> Option<Value> {
    match sx::choose("details", 4) {
        0 => None,
        1 => Some(obj(vec![])),
        2 => {
            let k = sx::text("details", 2, Set::Letter);
            let v = match sx::choose("detail", 5) {
                0 => s(&t("details")),
                1 => Value::from(sx::int("details", 64)),
                2 => Value::Bool(sx::boolean("details")),
                3 => Value::from(sx::int("details", 64) as i64),
                _ => Value::Array(vec![obj(vec![("x", s(&sx::text("details", 1, Set::Ascii)))])]),
            };
            Some(obj(vec![(&k, v)]))
        }
        _ => Some(obj(vec![
            ("c_nonce", s(&sx::text("details", 4, Set::Ascii))),
            ("c_nonce_expires_in", Value::from(sx::int("details", 32))),
            ("interval", obj(vec![("seconds", Value::from(5))])),
        ])),
    }
}
fn response_members(v: serde_json::Result<Value>, name: &str, description: &Option<String>, uri: &Option<String>, details: &Option<Value>) {
    let v = match v {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C23.json-exists"),
    };
    sx::check(has_str(&v, "error", name), "C23.json-error-is-the-name-of-the-code");
    sx::check(has_opt_str(&v, "error_description", description), "C23.json-description");
    sx::check(has_opt_str(&v, "error_uri", uri), "C23.json-uri");
    let mut names = vec!["error", "error_description", "error_uri"];
    if let Some(Value::Object(d)) = details {
        for (k, x) in d {
            sx::check(v.get(k) == Some(x), "C23.json-details");
            names.push(k);
        }
    }
    sx::check(only(&v, &names), "C23.json-has-no-other-member");
}

/// Reads a text with serde, without serde_json, whose error would fork for every character.
fn plain<'a, T: serde::Deserialize<'a>>(t: &'a str) -> Option<T> {
    use serde::de::IntoDeserializer;
    let d: serde::de::value::StrDeserializer<'a, serde::de::value::Error> = t.into_deserializer();
    T::deserialize(d).ok()
}

/// One error with its documented code, its name, and the values it carries.
struct Known {
    error: Any,
    code: u32,
    name: &'static str,
    values: Vec<(&'static str, Value)>,
}
#[derive(Clone)]
enum Any {
    V(ValidationError),
    A(A),
    I(I),
    J(J),
}
impl Any {
    fn information(&self) -> ErrorInformation {
        match self {
            Any::V(e) => e.information(),
            Any::A(e) => e.information(),
            Any::I(e) => e.information(),
            Any::J(e) => e.information(),
        }
    }
    fn text(&self) -> String {
        match self {
            Any::V(e) => e.to_string(),
            Any::A(e) => e.to_string(),
            Any::I(e) => e.to_string(),
            Any::J(e) => e.to_string(),
        }
    }
    fn object(&self) -> ReturnObject<u8, ErrorInformation, String> {
        match self.clone() {
            Any::V(e) => ValidationResult::<u8>::Err(e).to_return_object(),
            Any::A(e) => AccessTokenResult::<u8>::Err(e).to_return_object(),
            Any::I(e) => CredentialIssuerResult::<u8>::Err(e).to_return_object(),
            Any::J(e) => JwtResult::<u8>::Err(e).to_return_object(),
        }
    }
}
fn t(name: &str) -> String {
    match sx::style() {
        0 if sx::flag(name) => String::new(),
        0 => sx::text(name, 2, Set::Ascii),
        k => sx::styled(name, k, Set::Ascii),
    }
}
fn warning() -> String {
    match sx::style() {
        0 => sx::text_upto("warning", 0, 1, Set::Ascii),
        k => sx::styled("warning", k, Set::Ascii),
    }
}
fn opt(x: &Option<String>) -> Value {
    match x {
        Some(x) => s(x),
        None => Value::Null,
    }
}
fn bytes(x: &[u8]) -> Value {
    Value::Array(x.iter().map(|b| Value::from(*b as u64)).collect())
}
/// The k-th kind of error: 0 validation, then 9 of token requests, 13 of the issuer, 17 of proofs.
fn known(k: u64) -> Known {
    let late = utc((1_700_000_000, 250_000_000));
    let early = utc((1_600_000_000, 0));
    let (late_t, early_t) = (s("2023-11-14T22:13:20.250Z"), s("2020-09-13T12:26:40Z"));
    let invalid = |m: &str| ValidationError::Any { validation_message: m.to_string() };
    let (error, code, name, values): (Any, u32, &str, Vec<(&'static str, Value)>) = match k {
        0 => {
            let m = t("message");
            (Any::V(invalid(&m)), 1, "Any", vec![("validation_message", s(&m))])
        }
        1 => {
            let m = t("message");
            (Any::A(A::ValidationError(invalid(&m))), 400, "ValidationError", vec![("validation_message", s(&m))])
        }
        2 => {
            let (a, b, c) = (t("requested"), t("accepted"), t("accepted"));
            (Any::A(A::InvalidGrantType { requested_grant_type: a.clone(), accepted_grant_type: vec![b.clone(), c.clone()] }), 401,
                "InvalidGrantType", vec![("requested_grant_type", s(&a)), ("accepted_grant_type", Value::Array(vec![s(&b), s(&c)]))])
        }
        3 => (Any::A(A::AuthorizedFlowNotSupported), 402, "AuthorizedFlowNotSupported", vec![]),
        4 => (Any::A(A::NoFlowSupportedInCredentialOffer), 403, "NoFlowSupportedInCredentialOffer", vec![]),
        5 => {
            let (a, b) = (sx::boolean("pin"), sx::boolean("code"));
            (Any::A(A::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied: a, does_code_match: b }), 404,
                "InvalidPreAuthorizedCodeFlowValues", vec![("should_pin_be_supplied", Value::Bool(a)), ("does_code_match", Value::Bool(b))])
        }
        6 => {
            let (r, a, b) = (t("reason"), sx::boolean("pin"), sx::boolean("code"));
            let x = A::OptionsAreRequiredForEvaluation { reason: r.clone() };
            let y = A::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied: a, does_code_match: b };
            (Any::A(A::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error: Box::new(x), pre_authorized_error: Box::new(y) }), 405,
                "InvalidAuthorizedAndPreAuthorizedCodeFlow", vec![
                    ("authorized_error", obj(vec![("reason", s(&r))])),
                    ("pre_authorized_error", obj(vec![("should_pin_be_supplied", Value::Bool(a)), ("does_code_match", Value::Bool(b))])),
                ])
        }
        7 => {
            let r = t("reason");
            (Any::A(A::OptionsAreRequiredForEvaluation { reason: r.clone() }), 406, "OptionsAreRequiredForEvaluation", vec![("reason", s(&r))])
        }
        8 => (Any::A(A::UserPinMismatch), 407, "UserPinMismatch", vec![]),
        9 => (Any::A(A::CredentialOfferMustBeSupplied), 409, "CredentialOfferMustBeSupplied", vec![]),
        10 => {
            let m = t("message");
            (Any::I(I::ValidationError(invalid(&m))), 100, "ValidationError", vec![("validation_message", s(&m))])
        }
        11 => {
            let (e, a) = (if sx::flag("expected") { Some(t("expected")) } else { None }, t("actual"));
            (Any::I(I::JwtError(J::NonceMismatch { expected_nonce: e.clone(), actual_nonce: a.clone() })), 101, "JwtError",
                vec![("expected_nonce", opt(&e)), ("actual_nonce", s(&a))])
        }
        12 => (Any::I(I::AuthorizedFlowNotSupported), 102, "AuthorizedFlowNotSupported", vec![]),
        13 => {
            let i = t("id");
            (Any::I(I::CredentialIdNotInIssuerMetadata { id: i.clone() }), 103, "CredentialIdNotInIssuerMetadata", vec![("id", s(&i))])
        }
        14 => {
            let m = t("message");
            (Any::I(I::InvalidCredentialOfferEncoding { error_message: m.clone() }), 104, "InvalidCredentialOfferEncoding",
                vec![("error_message", s(&m))])
        }
        15 => {
            let (a, b) = (t("requested"), t("supported"));
            let f = |x: &str| obj(vec![("format", s("mso_mdoc")), ("doctype", s(x))]);
            (Any::I(I::InvalidRequestedCredential { requested_credential: Box::new(mdoc(&a)), supported_formats: vec![mdoc(&b), mdoc("z")] }), 105,
                "InvalidRequestedCredential", vec![("requested_credential", f(&a)), ("supported_formats", Value::Array(vec![f(&b), f("z")]))])
        }
        16 => {
            let e = sx::flag("expiry");
            (Any::I(I::ExpiredCNonce { now: late, expires_in: if e { Some(early) } else { None } }), 106, "ExpiredCNonce",
                vec![("now", late_t), ("expires_in", if e { early_t } else { Value::Null })])
        }
        17 => (Any::I(I::CredentialAndAcceptanceTokenSupplied), 107, "CredentialAndAcceptanceTokenSupplied", vec![]),
        18 => (Any::I(I::AuthorizationServerMetadataNotSupported), 108, "AuthorizationServerMetadataNotSupported", vec![]),
        19 => (Any::I(I::CredentialOfferMustBeSupplied), 109, "CredentialOfferMustBeSupplied", vec![]),
        20 => {
            let r = t("reason");
            (Any::I(I::EvaluteCredentialRequestOptionsNotSupplied { reason: r.clone() }), 110, "EvaluteCredentialRequestOptionsNotSupplied",
                vec![("reason", s(&r))])
        }
        21 => (Any::I(I::CNonceIsExpired { now: late, expiry_timestamp: early }), 111, "CNonceIsExpired",
            vec![("now", late_t), ("expiry_timestamp", early_t)]),
        22 => (Any::I(I::NoProofInCredentialRequest), 112, "NoProofInCredentialRequest", vec![]),
        _ => {
            let (e, code, name, v) = known_jwt(k);
            let e = if sx::flag("within an issuer error") {
                return Known { error: Any::I(I::JwtError(e)), code: 101, name: "JwtError", values: v };
            } else {
                e
            };
            (Any::J(e), code, name, v)
        }
    };
    Known { error, code, name, values }
}
const KINDS: u64 = 40;
fn known_jwt(k: u64) -> (J, u32, &'static str, Vec<(&'static str, Value)>) {
    let late = utc((1_700_000_000, 250_000_000));
    let early = utc((1_600_000_000, 0));
    let (late_t, early_t) = (s("2023-11-14T22:13:20.250Z"), s("2020-09-13T12:26:40Z"));
    let optional = |n: &str| if sx::flag(n) { Some(t(n)) } else { None };
    match k {
        23 => {
            let m = t("message");
            (J::ValidationError(ValidationError::Any { validation_message: m.clone() }), 300, "ValidationError", vec![("validation_message", s(&m))])
        }
        24 => (J::NotYetValid { valid_from: late, now: early }, 301, "NotYetValid", vec![("valid_from", late_t), ("now", early_t)]),
        25 => (J::NotValidAnymore { valid_until: early, now: late }, 302, "NotValidAnymore", vec![("valid_until", early_t), ("now", late_t)]),
        26 => {
            let (a, b) = (optional("expected"), optional("actual"));
            (J::IssuerMismatch { expected_iss_in_jwt: a.clone(), actual_iss_in_jwt: b.clone() }, 303, "IssuerMismatch",
                vec![("expected_iss_in_jwt", opt(&a)), ("actual_iss_in_jwt", opt(&b))])
        }
        27 => (J::NoKeyFoundInProof, 304, "NoKeyFoundInProof", vec![]),
        28 => (J::NoDidDocumentProvidedForKidAsDid, 305, "NoDidDocumentProvidedForKidAsDid", vec![]),
        29 => {
            let (a, b) = (t("kid"), t("message"));
            (J::UnableToTransformIntoDid { kid: a.clone(), message: b.clone() }, 306, "UnableToTransformIntoDid",
                vec![("kid", s(&a)), ("message", s(&b))])
        }
        30 => {
            let (a, b) = (t("did"), t("message"));
            (J::UnableToResolveDidInDidDocument { did: a.clone(), message: b.clone() }, 307, "UnableToResolveDidInDidDocument",
                vec![("did", s(&a)), ("message", s(&b))])
        }
        31 => {
            let a = t("message");
            (J::UnableToMapVerificationMethodToJwk { messsage: a.clone() }, 308, "UnableToMapVerificationMethodToJwk", vec![("messsage", s(&a))])
        }
        32 => {
            let (a, b) = (t("original"), t("message"));
            (J::UnableToTransformIntoJoseItem { original_string: a.clone(), serde_message: b.clone() }, 309, "UnableToTransformIntoJoseItem",
                vec![("original_string", s(&a)), ("serde_message", s(&b))])
        }
        33 => {
            let a = t("algorithm");
            (J::UnsupportedAlgorithm { algorithm: a.clone() }, 310, "UnsupportedAlgorithm", vec![("algorithm", s(&a))])
        }
        34 => (J::EdDSAHasNoXCoordinate, 311, "EdDSAHasNoXCoordinate", vec![]),
        35 => {
            let a = t("algorithm");
            let x = if sx::flag("x") { Some(vec![sx::int("x", 8) as u8, 1]) } else { None };
            let y = if sx::flag("y") { Some(vec![]) } else { None };
            let n = |b: &Option<Vec<u8>>| match b {
                Some(b) => bytes(b),
                None => Value::Null,
            };
            (J::ESXXXHasNoXOrYCoordinate { algorithm: a.clone(), x: x.clone(), y: y.clone() }, 312, "ESXXXHasNoXOrYCoordinate",
                vec![("algorithm", s(&a)), ("x", n(&x)), ("y", n(&y))])
        }
        36 => {
            let a = t("jwt");
            (J::SignatureNotInJwt { jwt: a.clone() }, 313, "SignatureNotInJwt", vec![("jwt", s(&a))])
        }
        37 => {
            let (a, b) = (t("name"), t("type"));
            (J::UnsupportedKeyTypeInJwtHeader { key_name: a.clone(), key_type: b.clone() }, 314, "UnsupportedKeyTypeInJwtHeader",
                vec![("key_name", s(&a)), ("key_type", s(&b))])
        }
        38 => {
            let (a, b) = (optional("expected"), t("actual"));
            (J::NonceMismatch { expected_nonce: a.clone(), actual_nonce: b.clone() }, 315, "NonceMismatch",
                vec![("expected_nonce", opt(&a)), ("actual_nonce", s(&b))])
        }
        _ => {
            let (a, b) = (t("expected"), t("actual"));
            (J::AudienceMismatch { expected_aud_in_jwt: a.clone(), actual_aud_in_jwt: b.clone() }, 316, "AudienceMismatch",
                vec![("expected_aud_in_jwt", s(&a)), ("actual_aud_in_jwt", s(&b))])
        }
    }
}

/// v contains at least w: objects may have more members, null counts as absent.
fn contains(v: Option<&Value>, w: &Value) -> bool {
    match (v, w) {
        (None, Value::Null) => true,
        (Some(Value::String(a)), Value::String(b)) => sx::same(a, b),
        (Some(Value::Bool(a)), Value::Bool(b)) => a == b,
        (Some(Value::Object(a)), Value::Object(b)) => b.iter().all(|(k, x)| contains(a.get(k), x)),
        (Some(Value::Array(a)), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| contains(Some(x), y)),
        (Some(a), b) => a == b,
        _ => false,
    }
}
fn absent(v: &Value, k: &str) -> bool {
    v.get(k).is_none()
}
fn same_information(a: &ErrorInformation, b: &ErrorInformation) -> bool {
    (a.code == b.code) & sx::same(&a.name, &b.name) & sx::same(&a.description, &b.description) & (a.additional_information == b.additional_information)
}

entries! {
/// The names of the codes of token error responses.
fn c23_token_names("name") {
    let all = token_codes();
    let (c, n) = all[sx::choose("code", all.len() as u64) as usize].clone();
    sx::reach("name");
    let t: &str = c.clone().into();
    sx::check(t == n, "C23.name");
    sx::check(matches!(AC::try_from(n.to_string()), Ok(x) if x == c), "C23.name-converts-back");
    sx::check(matches!(serde_json::to_value(&c), Ok(Value::String(x)) if x == n), "C23.json-is-the-name");
    sx::check(matches!(serde_json::from_value::<AC>(s(n)), Ok(x) if x == c), "C23.json-converts-back");
}
/// The names of the codes of credential error responses.
fn c23_issuer_names("name") {
    let all = issuer_codes();
    let (c, n) = all[sx::choose("code", all.len() as u64) as usize].clone();
    sx::reach("name");
    let t: &str = c.clone().into();
    sx::check(t == n, "C23.name");
    sx::check(matches!(IC::try_from(n.to_string()), Ok(x) if x == c), "C23.name-converts-back");
    sx::check(matches!(serde_json::to_value(&c), Ok(Value::String(x)) if x == n), "C23.json-is-the-name");
    sx::check(matches!(serde_json::from_value::<IC>(s(n)), Ok(x) if x == c), "C23.json-converts-back");
}
/// Every text up to 32 bytes that is not a name is refused.
fn c23_other_text("name", "refused") {
    let t = sx::text_upto("text", 0, 32, Set::Ascii);
    if sx::flag("token") {
        let want = token_codes().into_iter().find(|c| sx::same(c.1, &t)).map(|c| c.0);
        sx::reach(if want.is_some() { "name" } else { "refused" });
        sx::check(AC::try_from(t.clone()).ok() == want, "C23.no-other-text-is-a-code");
        sx::check(plain::<AC>(&t) == want, "C23.no-other-json-is-a-code");
    } else {
        let want = issuer_codes().into_iter().find(|c| sx::same(c.1, &t)).map(|c| c.0);
        sx::reach(if want.is_some() { "name" } else { "refused" });
        sx::check(IC::try_from(t.clone()).ok() == want, "C23.no-other-text-is-a-code");
        sx::check(plain::<IC>(&t) == want, "C23.no-other-json-is-a-code");
    }
}
/// The members of an error response.
fn c23_members("token", "credential") {
    let d = if sx::flag("description") { Some(t("description")) } else { None };
    let u = if sx::flag("uri") { Some(t("uri")) } else { None };
    let more = details();
    if sx::flag("token") {
        sx::reach("token");
        let all = token_codes();
        let (c, n) = all[sx::choose("code", all.len() as u64) as usize].clone();
        match AccessToken::create_access_token_error_response(c.clone(), d.clone(), u.clone(), more.clone()) {
            Ok(r) => {
                sx::check(r.error == c, "C23.code");
                sx::check(sx::same_opt(&r.error_description, &d), "C23.description");
                sx::check(sx::same_opt(&r.error_uri, &u), "C23.uri");
                sx::check(r.error_additional_details == more, "C23.details");
                response_members(serde_json::to_value(&r), n, &d, &u, &more);
            }
            Err(_) => sx::check(false, "C23.creation-succeeds"),
        }
    } else {
        sx::reach("credential");
        let all = issuer_codes();
        let (c, n) = all[sx::choose("code", all.len() as u64) as usize].clone();
        match CredentialIssuer::create_credential_error_response(&c, d.clone(), u.clone(), more.clone()) {
            Ok(r) => {
                sx::check(r.error == c, "C23.code");
                sx::check(sx::same_opt(&r.error_description, &d), "C23.description");
                sx::check(sx::same_opt(&r.error_uri, &u), "C23.uri");
                sx::check(r.error_additional_details == more, "C23.details");
                response_members(serde_json::to_value(&r), n, &d, &u, &more);
            }
            Err(_) => sx::check(false, "C23.creation-succeeds"),
        }
    }
}

/// The information of every kind of error.
fn c24_information("with values", "without values") {
    let k = known(sx::choose("kind", KINDS));
    let i = k.error.information();
    sx::observe("code", i.code as u64);
    sx::check(i.code == k.code, "C24.code");
    sx::check(sx::same(&i.name, k.name), "C24.name");
    sx::check(sx::same(&i.description, &k.error.text()), "C24.description");
    sx::reach(if k.values.is_empty() { "without values" } else { "with values" });
    for (n, v) in &k.values {
        sx::check(contains(i.additional_information.as_ref().and_then(|a| a.get(*n)), v), "C24.additional-information-has-the-values");
    }
}
/// The JSON and the text of the information.
fn c24_json("json") {
    let k = known(sx::choose("kind", KINDS));
    let i = k.error.information();
    match serde_json::to_value(&i) {
        Ok(v) => {
            sx::reach("json");
            sx::check(v.get("code").and_then(Value::as_u64) == Some(k.code as u64), "C24.json-code");
            sx::check(has_str(&v, "name", k.name), "C24.json-name");
            sx::check(has_str(&v, "description", &i.description), "C24.json-description");
            if let Some(a) = &i.additional_information {
                sx::check(contains(v.get("additional_information"), a), "C24.json-additional-information");
            }
        }
        Err(_) => sx::check(false, "C24.json"),
    }
}

/// Outcomes as return objects: success.
fn c25_success("success") {
    let t = t("value");
    let o = match sx::choose("result", 4) {
        0 => ValidationResult::Ok(t.clone()).to_return_object(),
        1 => AccessTokenResult::Ok(t.clone()).to_return_object(),
        2 => CredentialIssuerResult::Ok(t.clone()).to_return_object(),
        _ => JwtResult::Ok(t.clone()).to_return_object(),
    };
    sx::reach("success");
    sx::check(sx::same_opt(&o.info, &Some(t.clone())), "C25.success-yields-the-value");
    sx::check(o.error.is_none(), "C25.success-yields-no-error");
    sx::check(o.warnings.is_none(), "C25.no-warnings-at-first");
    match serde_json::to_value(&o) {
        Ok(v) => {
            sx::check(has_str(&v, "info", &t), "C25.json-value");
            sx::check(absent(&v, "error") && absent(&v, "warnings") && only(&v, &["info"]), "C25.absent-members-are-left-out");
        }
        Err(_) => sx::check(false, "C25.json"),
    }
}
/// Outcomes as return objects: every kind of error.
fn c25_failure("failure") {
    let k = known(sx::choose("kind", KINDS));
    let o = k.error.object();
    sx::reach("failure");
    sx::check(o.info.is_none(), "C25.failure-yields-no-value");
    sx::check(o.warnings.is_none(), "C25.no-warnings-at-first");
    match &o.error {
        Some(e) => sx::check(same_information(e, &k.error.information()), "C25.failure-yields-the-information"),
        None => sx::check(false, "C25.failure-yields-an-error"),
    }
    match serde_json::to_value(&o) {
        Ok(v) => {
            sx::check(v["error"].get("code").and_then(Value::as_u64) == Some(k.code as u64), "C25.json-error");
            sx::check(absent(&v, "info") && absent(&v, "warnings") && only(&v, &["error"]), "C25.absent-members-are-left-out");
            if k.values.is_empty() {
                sx::check(lacks(&v["error"], "additional_information"), "C25.json-no-additional-information");
            }
        }
        Err(_) => sx::check(false, "C25.json"),
    }
}
/// Warnings.
fn c25_warnings("none", "some") {
    let failed = sx::flag("failed");
    let r: CredentialIssuerResult<String> = if failed {
        Err(I::CredentialIdNotInIssuerMetadata { id: t("id") })
    } else {
        Ok(t("value"))
    };
    let before = r.to_return_object();
    let mut o = r.to_return_object();
    let n = sx::choose("warnings", if sx::thorough() { 7 } else { 5 });
    let mut list = vec![];
    for _ in 0..n {
        let w = warning();
        list.push(w.clone());
        o = o.add_warning(w);
    }
    sx::reach(if n == 0 { "none" } else { "some" });
    sx::check(sx::same_opt(&o.info, &before.info), "C25.warnings-do-not-change-the-value");
    sx::check(match (&o.error, &before.error) {
        (None, None) => true,
        (Some(a), Some(b)) => same_information(a, b),
        _ => false,
    }, "C25.warnings-do-not-change-the-error");
    match &o.warnings {
        None => sx::check(n == 0, "C25.every-warning-is-kept"),
        Some(w) => sx::check(w.len() == list.len() && w.iter().zip(&list).all(|(a, b)| sx::same(a, b)), "C25.warnings-in-order"),
    }
    match serde_json::to_value(&o) {
        Ok(v) => {
            sx::check(absent(&v, "info") == failed, "C25.json-value-only-for-success");
            sx::check(absent(&v, "error") != failed, "C25.json-error-only-for-failure");
            match v.get("warnings") {
                None => sx::check(n == 0, "C25.json-warnings"),
                Some(w) => sx::check(contains(Some(w), &Value::Array(list.iter().map(|x| s(x)).collect())), "C25.json-warnings"),
            }
        }
        Err(_) => sx::check(false, "C25.json"),
    }
}
}
