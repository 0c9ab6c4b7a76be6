//! JSON of offers, metadata, requests and proofs.
use crate::data::*;
use crate::request::*;
use crate::sx::{self, Set};
use openid4vci::access_token::*;
use openid4vci::credential_issuer::*;
use openid4vci::jwt::*;
use openid4vci::types::credential::*;
use openid4vci::types::credential_issuer_metadata::*;
use openid4vci::types::credential_request::*;
use serde_json::Value;
use std::collections::HashMap;

pub fn texts(v: Option<&Value>, want: &Option<Vec<String>>) -> bool {
    match (v, want) {
        (None | Some(Value::Null), None) => true,
        (Some(Value::Array(a)), Some(w)) => a.len() == w.len() && a.iter().zip(w).all(|(x, y)| matches!(x, Value::String(x) if sx::same(x, y))),
        _ => false,
    }
}
fn claims(v: Option<&Value>, want: &Option<HashMap<String, CredentialSubject>>) -> bool {
    match (v, want) {
        (None, None) => true,
        (Some(Value::Object(o)), Some(w)) => {
            o.len() == w.len() && w.iter().all(|(k, c)| match o.get(k) {
                Some(x) => {
                    has_opt_bool(x, "mandatory", c.mandatory) & has_opt_str(x, "value_type", &c.value_type) & only(x, &["mandatory", "value_type", "display"])
                        & match (x.get("display"), &c.display) {
                            (None, None) => true,
                            (Some(Value::Array(a)), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| {
                                has_opt_str(x, "name", &y.name) & has_opt_str(x, "locale", &y.locale) & only(x, &["name", "locale"])
                            }),
                            _ => false,
                        }
                }
                None => false,
            })
        }
        _ => false,
    }
}
/// The object states the format with the names of its profile.
fn states_format(v: &Value, f: &CredentialFormatProfile, more: &[&str], id: &str) {
    let c = |b: bool, n: &str| sx::check(b, &format!("{}-{}", id, n));
    let mut names = more.to_vec();
    names.extend(["format", "order"]);
    let (subject, order) = match f {
        CredentialFormatProfile::JwtVcJson { types, credential_subject, order } => {
            c(has_str(v, "format", "jwt_vc_json"), "format");
            c(texts(v.get("types"), &Some(types.clone())), "types");
            names.extend(["types", "credentialSubject"]);
            (credential_subject, order)
        }
        CredentialFormatProfile::JwtVcJsonLd { types, credential_subject, order } => {
            c(has_str(v, "format", "jwt_vc_json-ld"), "format");
            c(texts(v.get("types"), &Some(types.clone())), "types");
            names.extend(["types", "credentialSubject"]);
            (credential_subject, order)
        }
        CredentialFormatProfile::LdpVc { context, types, credential_subject, order } => {
            c(has_str(v, "format", "ldp_vc"), "format");
            c(texts(v.get("types"), &Some(types.clone())), "types");
            c(match v.get("@context") {
                Some(Value::Array(a)) => a.len() == context.len() && a.iter().zip(context).all(|(x, y)| match (x, y) {
                    (Value::String(x), LinkedDataContext::String(y)) => sx::same(x, y),
                    (Value::Object(x), LinkedDataContext::Map(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k) == Some(v)),
                    _ => false,
                }),
                _ => false,
            }, "context");
            names.extend(["types", "credentialSubject", "@context"]);
            (credential_subject, order)
        }
        CredentialFormatProfile::MsoMdoc { doctype, claims, order } => {
            c(has_str(v, "format", "mso_mdoc"), "format");
            c(has_str(v, "doctype", doctype), "doctype");
            names.extend(["doctype", "claims"]);
            (claims, order)
        }
    };
    c(claims(v.get("credentialSubject").or(v.get("claims")), subject), "claims");
    c(texts(v.get("order"), order), "order");
    c(only(v, &names), "no-other-member");
}
fn opt_text(name: &str) -> Option<String> {
    if sx::flag(name) {
        Some(sx::text(name, 2, Set::Ascii))
    } else {
        None
    }
}
/// Names and values of optional members, stated or not, as they are written in JSON.
fn absent_or<'a>(names: &[&'a str], v: &[&Option<String>]) -> Vec<(&'a str, Value)> {
    names.iter().zip(v).filter_map(|(n, v)| v.as_ref().map(|v| (*n, s(v)))).collect()
}

const ALGORITHMS: [(&str, ProofJwtAlgorithm); 16] = [
    ("HS256", ProofJwtAlgorithm::HS256), ("HS384", ProofJwtAlgorithm::HS384), ("HS512", ProofJwtAlgorithm::HS512),
    ("RS256", ProofJwtAlgorithm::RS256), ("RS384", ProofJwtAlgorithm::RS384), ("RS512", ProofJwtAlgorithm::RS512),
    ("ES256", ProofJwtAlgorithm::ES256), ("ES384", ProofJwtAlgorithm::ES384), ("ES512", ProofJwtAlgorithm::ES512),
    ("PS256", ProofJwtAlgorithm::PS256), ("PS384", ProofJwtAlgorithm::PS384), ("PS512", ProofJwtAlgorithm::PS512),
    ("EdDSA", ProofJwtAlgorithm::EdDSA), ("ES256K", ProofJwtAlgorithm::ES256K), ("ECDH-ES", ProofJwtAlgorithm::ECDHES),
    ("none", ProofJwtAlgorithm::None),
];

entries! {
/// Offers with every combination of grants and kinds of credentials.
fn c26_offer("read", "authorization code", "pre-authorized code") {
    let issuer = sx::text_upto("issuer", 0, 3, Set::Ascii);
    let mut list = vec![];
    let n = sx::choose("credentials", 3);
    for k in 0..n {
        list.push(match sx::choose("credential", 2) {
            0 => CredentialOrId::CredentialId(sx::text("id", 2, Set::Digit)),
            _ => CredentialOrId::Credential(if k == 0 { a_format("credential", false) } else { mdoc(&sx::text("doctype", 2, Set::Ascii)) }),
        });
    }
    let state = sx::choose("authorization code", 3);
    let auth = match state {
        0 => None,
        1 => Some(AuthorizedCodeFlow { issuer_state: None }),
        _ => Some(AuthorizedCodeFlow { issuer_state: Some(sx::text("state", 2, Set::Ascii)) }),
    };
    let pre = if sx::flag("pre-authorized code") {
        Some(PreAuthorizedCodeFlow { code: sx::text("code", 3, Set::Ascii), user_pin_required: sx::opt_u64("pin required", 1).map(|b| b != 0) })
    } else {
        None
    };
    let o = CredentialOffer::new(&issuer, CredentialOrIds::new(list.clone()), &auth, &pre);
    let v = match serde_json::to_value(&o) {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C26.offer-has-json"),
    };
    sx::check(only(&v, &["credential_issuer", "credentials", "grants"]), "C26.offer-no-other-member");
    sx::check(has_str(&v, "credential_issuer", &issuer), "C26.offer-issuer");
    match v.get("credentials") {
        Some(Value::Array(a)) => {
            sx::check(a.len() == list.len(), "C26.offer-credentials");
            for (x, y) in a.iter().zip(&list) {
                match (x, y) {
                    (Value::String(x), CredentialOrId::CredentialId(y)) => sx::check(sx::same(x, y), "C26.offer-id"),
                    (Value::Object(_), CredentialOrId::Credential(f)) => states_format(x, f, &[], "C26.offer-object"),
                    _ => sx::check(false, "C26.offer-credential-form"),
                }
            }
        }
        _ => sx::check(false, "C26.offer-credentials"),
    }
    let g = &v["grants"];
    sx::check(only(g, &["authorization_code", PRE]), "C26.offer-no-other-grant");
    match (g.get("authorization_code"), &auth) {
        (None, None) => {}
        (Some(x), Some(a)) => {
            sx::reach("authorization code");
            sx::check(has_opt_str(x, "issuer_state", &a.issuer_state) & only(x, &["issuer_state"]), "C26.offer-authorization-code");
        }
        _ => sx::check(false, "C26.offer-authorization-code"),
    }
    match (g.get(PRE), &pre) {
        (None, None) => {}
        (Some(x), Some(p)) => {
            sx::reach("pre-authorized code");
            sx::check(has_str(x, "pre-authorized_code", &p.code), "C26.offer-code");
            sx::check(has_opt_bool(x, "user_pin_required", p.user_pin_required), "C26.offer-pin");
            sx::check(only(x, &["pre-authorized_code", "user_pin_required"]), "C26.offer-grant-no-other-member");
        }
        _ => sx::check(false, "C26.offer-pre-authorized-code"),
    }
    match serde_json::from_value::<CredentialOffer>(v) {
        Ok(b) => {
            sx::reach("read");
            sx::check(b == o, "C26.offer-round-trip");
        }
        Err(_) => sx::check(false, "C26.offer-is-readable"),
    }
}
/// The JSON of an offer as text.
fn c26_offer_text("read") {
    let o = CredentialOffer::new(
        &sx::text("issuer", 2, Set::Ascii),
        CredentialOrIds::new(vec![CredentialOrId::from(sx::wide("id", 1).as_str()), mdoc("x").into()]),
        &if sx::flag("authorization code") { Some(AuthorizedCodeFlow { issuer_state: None }) } else { None },
        &Some(PreAuthorizedCodeFlow { code: sx::text("code", if sx::thorough() { 2 } else { 1 }, Set::Ascii), user_pin_required: Some(sx::flag("pin")) }),
    );
    let t = match serde_json::to_string(&o) {
        Ok(t) => t,
        Err(_) => return sx::check(false, "C26.offer-has-json"),
    };
    match serde_json::from_str::<CredentialOffer>(&t) {
        Ok(b) => {
            sx::reach("read");
            sx::check(b == o, "C26.offer-round-trip");
        }
        Err(_) => sx::check(false, "C26.offer-is-readable"),
    }
}
/// Formats with all their members.
fn c26_format("read") {
    let f = a_format("format", true);
    let v = match serde_json::to_value(&f) {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C26.format-has-json"),
    };
    states_format(&v, &f, &[], "C26.format");
    match serde_json::from_value::<CredentialFormatProfile>(v) {
        Ok(b) => {
            sx::reach("read");
            sx::check(b == f, "C26.format-round-trip");
        }
        Err(_) => sx::check(false, "C26.format-is-readable"),
    }
}
/// Display properties of claims, present or absent.
fn c26_claims("read") {
    let mut d = vec![];
    for _ in 0..sx::choose("displays", 3) {
        d.push(CredentialSubjectDisplay { name: opt_text("name"), locale: opt_text("locale") });
    }
    let c = CredentialSubject {
        mandatory: sx::opt_u64("mandatory", 1).map(|b| b != 0),
        value_type: opt_text("value type"),
        display: if sx::flag("display") { Some(d) } else { None },
    };
    let w = Some([("given_name".to_string(), c)].into_iter().collect::<HashMap<_, _>>());
    let f = match sx::choose("format", 4) {
        0 => CredentialFormatProfile::JwtVcJson { types: vec![], credential_subject: w, order: None },
        1 => CredentialFormatProfile::JwtVcJsonLd { types: vec![], credential_subject: w, order: Some(vec![]) },
        2 => CredentialFormatProfile::LdpVc { context: vec![], types: vec![], credential_subject: w, order: None },
        _ => CredentialFormatProfile::MsoMdoc { doctype: String::new(), claims: w, order: None },
    };
    let v = match serde_json::to_value(&f) {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C26.format-has-json"),
    };
    states_format(&v, &f, &[], "C26.claims");
    match serde_json::from_value::<CredentialFormatProfile>(v) {
        Ok(b) => {
            sx::reach("read");
            sx::check(b == f, "C26.claims-round-trip");
        }
        Err(_) => sx::check(false, "C26.claims-are-readable"),
    }
}
/// Formats read from JSON that states only what is required, or lacks something.
fn c26_format_read("read", "refused") {
    let t = sx::text("text", 2, Set::Ascii);
    let k = sx::choose("format", 4) as usize;
    let name = ["jwt_vc_json", "jwt_vc_json-ld", "ldp_vc", "mso_mdoc"][k];
    let lack = sx::choose("lack", 4);
    let mut m = vec![];
    if lack != 1 {
        m.push(("format", s(name)));
    }
    if lack != 2 {
        m.push(if k == 3 { ("doctype", s(&t)) } else { ("types", Value::Array(vec![s(&t)])) });
    }
    if lack != 3 {
        m.push(("@context", Value::Array(vec![s("c")])));
    }
    m.push(("cryptographic_suites_supported", Value::Array(vec![])));
    let good = lack != 1 && lack != 2 && (lack != 3 || k != 2);
    let want = match k {
        0 => CredentialFormatProfile::JwtVcJson { types: vec![t], credential_subject: None, order: None },
        1 => CredentialFormatProfile::JwtVcJsonLd { types: vec![t], credential_subject: None, order: None },
        2 => CredentialFormatProfile::LdpVc { context: vec![LinkedDataContext::String("c".into())], types: vec![t], credential_subject: None, order: None },
        _ => mdoc(&t),
    };
    match serde_json::from_value::<CredentialFormatProfile>(obj(m)) {
        Ok(f) => {
            sx::reach("read");
            sx::check(good, "C26.incomplete-format-is-refused");
            sx::check(f == want, "C26.format-is-read-with-absent-members");
        }
        Err(_) => {
            sx::reach("refused");
            sx::check(!good, "C26.complete-format-is-read");
        }
    }
}
/// Formats with any name up to the length of the longest known one.
fn c26_format_name("read", "refused") {
    let t = sx::text_upto("name", 0, 16, Set::Ascii);
    let known = ["jwt_vc_json", "jwt_vc_json-ld", "ldp_vc", "mso_mdoc"].into_iter().find(|f| sx::same(f, &t));
    let f = read::<CredentialFormatProfile>(Src::O(vec![
        ("format", Src::S(t)),
        ("doctype", Src::S("d".into())),
        ("types", Src::L(vec![Src::S("t".into())])),
        ("@context", Src::L(vec![Src::S("c".into())])),
    ]));
    sx::reach(if f.is_some() { "read" } else { "refused" });
    sx::check(f.map(|f| f.get_format_name()).as_deref() == known, "C26.only-known-formats-are-read");
}
/// Issuer metadata with optional members.
fn c26_metadata("read") {
    let mut m = metadata(&sx::text("issuer", 2, Set::Ascii), vec![]);
    m.credential_endpoint = sx::text("endpoint", 2, Set::Ascii);
    m.authorization_server = opt_text("server");
    m.batch_credential_endpoint = opt_text("batch");
    for _ in 0..sx::choose("credentials", 3) {
        m.credentials_supported.push(supported(Some(&sx::text("id", 2, Set::Ascii)), mdoc(&sx::text("doctype", 1, Set::Ascii))));
    }
    let more = sx::choose("more", 4);
    let extra = sx::text("extra", 2, Set::Ascii);
    m.additional_fields = match more {
        0 => None,
        1 => Some(HashMap::new()),
        2 => Some([("display".to_string(), Value::Array(vec![obj(vec![("name", s(&extra))])]))].into_iter().collect()),
        _ => Some([("a".to_string(), s(&extra)), ("jwks_uri".to_string(), Value::from(sx::int("number", 64)))].into_iter().collect()),
    };
    let v = match serde_json::to_value(&m) {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C26.metadata-have-json"),
    };
    sx::check(has_str(&v, "credential_issuer", &m.credential_issuer), "C26.metadata-issuer");
    sx::check(has_str(&v, "credential_endpoint", &m.credential_endpoint), "C26.metadata-endpoint");
    sx::check(has_opt_str(&v, "authorization_server", &m.authorization_server), "C26.metadata-server");
    sx::check(has_opt_str(&v, "batch_credential_endpoint", &m.batch_credential_endpoint), "C26.metadata-batch");
    match v.get("credentials_supported") {
        Some(Value::Array(a)) => {
            sx::check(a.len() == m.credentials_supported.len(), "C26.metadata-credentials");
            for (x, c) in a.iter().zip(&m.credentials_supported) {
                sx::check(has_opt_str(x, "id", &c.id), "C26.metadata-credential-id");
                states_format(x, &c.format, &["id"], "C26.metadata-credential");
            }
        }
        _ => sx::check(false, "C26.metadata-credentials"),
    }
    let mut names = vec!["credential_issuer", "credential_endpoint", "authorization_server", "batch_credential_endpoint", "credentials_supported"];
    if let Some(f) = &m.additional_fields {
        for (k, x) in f {
            sx::check(v.get(k) == Some(x), "C26.metadata-unknown-members");
            names.push(k);
        }
    }
    sx::check(only(&v, &names), "C26.metadata-no-other-member");
    match serde_json::from_value::<CredentialIssuerMetadata>(v) {
        Ok(b) => {
            sx::reach("read");
            sx::check(sx::same(&b.credential_issuer, &m.credential_issuer), "C26.metadata-round-trip-issuer");
            sx::check(sx::same(&b.credential_endpoint, &m.credential_endpoint), "C26.metadata-round-trip-endpoint");
            sx::check(sx::same_opt(&b.authorization_server, &m.authorization_server), "C26.metadata-round-trip-server");
            sx::check(sx::same_opt(&b.batch_credential_endpoint, &m.batch_credential_endpoint), "C26.metadata-round-trip-batch");
            sx::check(b.credentials_supported == m.credentials_supported, "C26.metadata-round-trip-credentials");
            // no members and absent members are the same
            sx::check(b.additional_fields.unwrap_or_default() == m.additional_fields.unwrap_or_default(), "C26.metadata-round-trip-unknown-members");
        }
        Err(_) => sx::check(false, "C26.metadata-are-readable"),
    }
}
/// Metadata read from JSON that lacks a member.
fn c26_metadata_read("read", "refused") {
    let t = sx::text("text", 2, Set::Ascii);
    let lack = sx::choose("lack", 4);
    let mut m = vec![];
    if lack != 1 {
        m.push(("credential_issuer", s(&t)));
    }
    if lack != 2 {
        m.push(("credential_endpoint", s("https://e")));
    }
    if lack != 3 {
        m.push(("credentials_supported", Value::Array(vec![obj(vec![("format", s("mso_mdoc")), ("doctype", s(&t))])])));
    }
    m.push(("unknown", s(&t)));
    match serde_json::from_value::<CredentialIssuerMetadata>(obj(m)) {
        Ok(b) => {
            sx::reach("read");
            sx::check(lack == 0, "C26.incomplete-metadata-are-refused");
            sx::check(sx::same(&b.credential_issuer, &t) && b.credential_endpoint == "https://e", "C26.metadata-required-members");
            sx::check(b.authorization_server.is_none() && b.batch_credential_endpoint.is_none(), "C26.metadata-absent-members");
            sx::check(b.credentials_supported == vec![supported(None, mdoc(&t))], "C26.metadata-credentials-with-absent-members");
            let f = b.additional_fields.unwrap_or_default();
            sx::check(f.len() == 1 && f.get("unknown") == Some(&s(&t)), "C26.metadata-unknown-members-are-kept");
        }
        Err(_) => {
            sx::reach("refused");
            sx::check(lack != 0, "C26.complete-metadata-are-read");
        }
    }
}
/// A supported credential with display properties.
fn c26_supported("read", "all", "none") {
    let mut c = supported(None, a_format("format", false));
    c.id = opt_text("id");
    c.cryptographic_binding_mehtods_supported = if sx::flag("methods") { Some(vec![sx::text("method", 2, Set::Ascii), "jwk".into()]) } else { None };
    c.cryptographic_suites_supported = if sx::flag("suites") { Some(vec![sx::text("suite", 2, Set::Ascii)]) } else { None };
    if sx::flag("display") {
        // each optional member on its own, all, or none
        let k = sx::choose("member", 9);
        let t = |i: u64, n: &str| if k == i || k == 7 { Some(sx::text(n, 2, Set::Ascii)) } else { None };
        c.display = Some(vec![DisplayProperties {
            name: sx::text("name", 2, Set::Ascii),
            locale: t(0, "locale"),
            logo: if k == 1 || k == 2 || k == 6 || k == 7 { Some(DisplayLogo { url: t(1, "url"), alt_text: t(2, "alt text") }) } else { None },
            description: t(3, "description"),
            background_color: t(4, "background"),
            text_color: t(5, "color"),
        }]);
        sx::reach(if k == 7 { "all" } else { "none" });
    }
    let v = match serde_json::to_value(&c) {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C26.supported-has-json"),
    };
    states_format(&v, &c.format, &["id", "cryptographic_binding_methods_supported", "cryptographic_suites_supported", "display"], "C26.supported");
    sx::check(has_opt_str(&v, "id", &c.id), "C26.supported-id");
    sx::check(texts(v.get("cryptographic_binding_methods_supported"), &c.cryptographic_binding_mehtods_supported), "C26.supported-methods");
    sx::check(texts(v.get("cryptographic_suites_supported"), &c.cryptographic_suites_supported), "C26.supported-suites");
    match (v.get("display"), &c.display) {
        (None | Some(Value::Null), None) => {}
        (Some(Value::Array(a)), Some(d)) => {
            sx::check(a.len() == 1, "C26.display");
            let (x, y) = (&a[0], &d[0]);
            sx::check(has_str(x, "name", &y.name), "C26.display-name");
            sx::check(has_opt_str(x, "locale", &y.locale), "C26.display-locale");
            sx::check(has_opt_str(x, "description", &y.description), "C26.display-description");
            sx::check(has_opt_str(x, "background_color", &y.background_color), "C26.display-background");
            sx::check(has_opt_str(x, "text_color", &y.text_color), "C26.display-color");
            sx::check(only(x, &["name", "locale", "logo", "description", "background_color", "text_color"]), "C26.display-no-other-member");
            match (x.get("logo"), &y.logo) {
                (None | Some(Value::Null), None) => {}
                (Some(l), Some(m)) => {
                    sx::check(has_opt_str(l, "url", &m.url) & has_opt_str(l, "alt_text", &m.alt_text) & only(l, &["url", "alt_text"]), "C26.display-logo")
                }
                _ => sx::check(false, "C26.display-logo"),
            }
        }
        _ => sx::check(false, "C26.display"),
    }
    match serde_json::from_value::<CredentialSupported>(v) {
        Ok(b) => {
            sx::reach("read");
            sx::check(b == c, "C26.supported-round-trip");
        }
        Err(_) => sx::check(false, "C26.supported-is-readable"),
    }
}

/// Token requests.
fn c27_token("pre-authorized code", "authorization code") {
    let code = match sx::choose("code", 4) {
        0 => String::new(),
        1 => sx::text("code", 3, Set::Ascii),
        2 => sx::wide("code", 1),
        _ => sx::text("code", 24, Set::Ascii),
    };
    let pin = sx::opt_u64("pin", 64);
    let pre = sx::flag("pre");
    let r = crate::token::request(pre, &code, pin);
    let v = match serde_json::to_value(&r) {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C27.token-request-has-json"),
    };
    sx::check(only(&v, &["grant_type"]), "C27.token-request-no-other-member");
    let g = &v["grant_type"];
    if pre {
        sx::reach("pre-authorized code");
        sx::check(has_str(g, "grant_type", PRE), "C27.token-request-grant-type");
        sx::check(has_str(g, "pre_authorized_code", &code), "C27.token-request-code");
        sx::check(has_opt_num(g, "user_pin", pin), "C27.token-request-pin");
        sx::check(only(g, &["grant_type", "pre_authorized_code", "user_pin"]), "C27.token-request-grant-no-other-member");
    } else {
        sx::reach("authorization code");
        sx::check(has_str(g, "grant_type", "authorization_code"), "C27.token-request-grant-type");
        sx::check(only(g, &["grant_type"]), "C27.token-request-grant-no-other-member");
    }
    match serde_json::from_value::<AccessTokenRequest>(v) {
        Ok(b) => sx::check(b == r, "C27.token-request-round-trip"),
        Err(_) => sx::check(false, "C27.token-request-is-readable"),
    }
}
/// Grant types by themselves.
fn c27_grant("pre-authorized code", "authorization code") {
    let g = if sx::flag("pre") {
        sx::reach("pre-authorized code");
        GrantType::PreAuthorizedCodeFlow { pre_authorized_code: sx::text("code", 3, Set::Ascii), user_pin: sx::opt_u64("pin", 64) }
    } else {
        sx::reach("authorization code");
        GrantType::AuthorizedCodeFlow
    };
    let v = match serde_json::to_value(&g) {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C27.grant-has-json"),
    };
    match &g {
        GrantType::PreAuthorizedCodeFlow { pre_authorized_code, user_pin } => {
            sx::check(has_str(&v, "grant_type", PRE) & has_str(&v, "pre_authorized_code", pre_authorized_code) & has_opt_num(&v, "user_pin", *user_pin),
                "C27.grant-members");
        }
        GrantType::AuthorizedCodeFlow => sx::check(has_str(&v, "grant_type", "authorization_code"), "C27.grant-members"),
    }
    match serde_json::from_value::<GrantType>(v) {
        Ok(b) => sx::check(b == g, "C27.grant-round-trip"),
        Err(_) => sx::check(false, "C27.grant-is-readable"),
    }
}
/// Token requests that are not well-formed.
fn c27_token_refused("read", "refused") {
    let (v, good) = match sx::choose("fault", 7) {
        0 => (obj(vec![("grant_type", s(PRE)), ("pre_authorized_code", s("c"))]), true),
        1 => (obj(vec![("grant_type", s(PRE))]), false),
        2 => (obj(vec![("pre_authorized_code", s("c"))]), false),
        3 => (obj(vec![("grant_type", s(PRE)), ("pre_authorized_code", Value::from(1))]), false),
        4 => (obj(vec![("grant_type", s(PRE)), ("pre_authorized_code", s("c")), ("user_pin", s("123"))]), false),
        5 => {
            // negative
            let i = if sx::flag("least") { i64::MIN } else { -1 - sx::int("pin", 8) as i64 };
            (obj(vec![("grant_type", s(PRE)), ("pre_authorized_code", s("c")), ("user_pin", Value::from(i))]), false)
        }
        _ => (obj(vec![("grant_type", s("password")), ("pre_authorized_code", s("c"))]), false),
    };
    let r = serde_json::from_value::<AccessTokenRequest>(obj(vec![("grant_type", v)]));
    sx::reach(if r.is_ok() { "read" } else { "refused" });
    sx::check(r.is_ok() == good, "C27.token-request-is-read-exactly-if-well-formed");
}
/// Token requests with any grant type: short ones, and ones that are similar to a known one.
fn c27_grant_type("read", "refused") {
    let t = match sx::choose("text", 5) {
        0 => sx::text_upto("text", 0, 24, Set::Ascii),
        1 => sx::text("text", PRE.len() - 1 + sx::choose("length", 3) as usize, Set::Ascii),
        2 => format!("{}{}", sx::text_upto("text", 0, 2, Set::Ascii), PRE),
        3 => format!("{}{}", PRE, sx::text_upto("text", 0, 2, Set::Ascii)),
        _ => sx::wide("text", 9),
    };
    let (pre, auth) = (sx::same(&t, PRE), sx::same(&t, "authorization_code"));
    let src = || Src::O(vec![("grant_type", Src::S(t.clone())), ("pre_authorized_code", Src::S("c".into()))]);
    let g = read::<GrantType>(src());
    sx::reach(if g.is_some() { "read" } else { "refused" });
    match &g {
        None => sx::check(!pre & !auth, "C27.known-grant-types-are-read"),
        Some(GrantType::AuthorizedCodeFlow) => sx::check(auth, "C27.unknown-grant-types-are-refused"),
        Some(GrantType::PreAuthorizedCodeFlow { pre_authorized_code, user_pin }) => {
            sx::check(pre, "C27.unknown-grant-types-are-refused");
            sx::check(pre_authorized_code == "c" && user_pin.is_none(), "C27.grant-is-read-with-absent-members");
        }
    }
    let r = read::<AccessTokenRequest>(Src::O(vec![("grant_type", src())]));
    sx::check(r.is_some() == g.is_some(), "C27.token-request-is-read-if-its-grant-type-is-known");
}
/// Credential requests.
fn c27_request("read", "proof", "no proof") {
    let f = a_format("format", false);
    let proof = match sx::choose("proof", 4) {
        0 => None,
        1 => Some((Some(sx::text("proof type", 3, Set::Ascii)), sx::text("jwt", 3, Set::Ascii))),
        2 => Some((None, sx::text("jwt", 3, Set::Ascii))),
        _ => Some((Some("jwt".into()), sx::text("jwt", 16, Set::Digit))),
    };
    let typ = proof.as_ref().map(|p: &(Option<String>, String)| p.0.clone().unwrap_or("JWT".into()));
    sx::reach(if proof.is_some() { "proof" } else { "no proof" });
    // read
    let mut v = match serde_json::to_value(&f) {
        Ok(Value::Object(m)) => m,
        _ => return sx::check(false, "C27.format-has-json"),
    };
    if let Some((t, j)) = &proof {
        let mut p = absent_or(&["proof_type"], &[t]);
        p.push(("jwt", s(j)));
        v.insert("proof".into(), obj(p));
    }
    let check = |r: &CredentialRequest, id: &str| {
        sx::check(r.format == f, &format!("C27.request-{}-format", id));
        sx::check(match (&r.proof, &proof) {
            (None, None) => true,
            (Some(a), Some(b)) => sx::same(&a.jwt, &b.1) & match &b.0 {
                Some(t) => sx::same(&a.proof_type, t),
                None => a.proof_type.eq_ignore_ascii_case("jwt"),
            },
            _ => false,
        }, &format!("C27.request-{}-proof", id));
    };
    let r = match serde_json::from_value::<CredentialRequest>(Value::Object(v)) {
        Ok(r) => r,
        Err(_) => return sx::check(false, "C27.request-is-readable"),
    };
    sx::reach("read");
    check(&r, "read");
    // write, and read again
    let v = match serde_json::to_value(&r) {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C27.request-has-json"),
    };
    states_format(&v, &f, &["proof"], "C27.request");
    match (&proof, v.get("proof")) {
        (None, None | Some(Value::Null)) => {}
        (Some((_, j)), Some(p)) => {
            sx::check(has_str(p, "jwt", j), "C27.request-jwt");
            sx::check(match p.get("proof_type") {
                Some(Value::String(t)) => t.eq_ignore_ascii_case(&typ.unwrap_or_default()),
                _ => false,
            }, "C27.request-proof-type");
            sx::check(only(p, &["jwt", "proof_type"]), "C27.request-proof-no-other-member");
        }
        _ => sx::check(false, "C27.request-proof"),
    }
    match serde_json::from_value::<CredentialRequest>(v) {
        Ok(b) => check(&b, "round-trip"),
        Err(_) => sx::check(false, "C27.request-round-trip"),
    }
}
/// Credential requests that are not well-formed.
fn c27_request_refused("read", "refused") {
    let p = obj(vec![("proof_type", s("jwt")), ("jwt", s("j"))]);
    let f = [("format", s("mso_mdoc")), ("doctype", s("d"))];
    let all = |p: Value| obj(vec![f[0].clone(), f[1].clone(), ("proof", p)]);
    let (v, good) = match sx::choose("fault", 8) {
        0 => (all(p), true),
        1 => (obj(vec![f[1].clone(), ("proof", p)]), false),
        2 => (obj(vec![f[0].clone(), ("proof", p)]), false),
        3 => (all(obj(vec![("proof_type", s("jwt"))])), false),
        4 => (all(s("jwt")), false),
        5 => (all(obj(vec![("proof_type", Value::from(1)), ("jwt", s("j"))])), false),
        6 => (all(obj(vec![("proof_type", s("jwt")), ("jwt", Value::Null)])), false),
        _ => (obj(vec![("format", s("jwt")), ("doctype", s("d")), ("proof", p)]), false),
    };
    let r = serde_json::from_value::<CredentialRequest>(v);
    sx::reach(if r.is_ok() { "read" } else { "refused" });
    sx::check(r.is_ok() == good, "C27.request-is-read-exactly-if-well-formed");
}
/// Credential requests with any format name.
fn c27_request_format("read", "refused") {
    let t = sx::text_upto("format", 0, 16, Set::Ascii);
    let mut known = false;
    for f in ["jwt_vc_json", "jwt_vc_json-ld", "ldp_vc", "mso_mdoc"] {
        known |= sx::same(f, &t);
    }
    let mut m = vec![
        ("format", Src::S(t)),
        ("doctype", Src::S("d".into())),
        ("types", Src::L(vec![Src::S("t".into())])),
        ("@context", Src::L(vec![Src::S("c".into())])),
    ];
    if sx::flag("proof") {
        m.push(("proof", Src::O(vec![("proof_type", Src::S("jwt".into())), ("jwt", Src::S("j".into()))])));
    }
    let r = read::<CredentialRequest>(Src::O(m));
    sx::reach(if r.is_some() { "read" } else { "refused" });
    sx::check(r.is_some() == known, "C27.only-known-formats-are-read");
}
/// Proofs as JSON.
fn c27_proof("read") {
    let k = sx::choose("key", 4) as usize;
    let key = sx::text("key", 2, Set::Ascii);
    let (iss, sub, sig) = (opt_text("iss"), opt_text("sub"), opt_text("signature"));
    let (aud, nonce, typ) = (sx::text("aud", 2, Set::Ascii), sx::text("nonce", 2, Set::Ascii), sx::text("typ", 2, Set::Ascii));
    let times = sx::flag("times");
    let t = |on: bool, x: i64| if on { Some(utc((x, 0))) } else { None };
    let p = ProofJwt {
        header: ProofJwtHeader {
            typ: typ.clone(),
            alg: ProofJwtAlgorithm::ES256K,
            additional_header: match k {
                0 => None,
                1 => Some(ProofJwtAdditionalHeader::KeyId(key.clone())),
                2 => Some(ProofJwtAdditionalHeader::Jwk(key.clone())),
                _ => Some(ProofJwtAdditionalHeader::X5c(key.clone())),
            },
        },
        body: ProofJwtBody {
            issuer: iss.clone(),
            audience: aud.clone(),
            subject: sub.clone(),
            issued_at: utc((1_536_888_255, 0)),
            nonce: nonce.clone(),
            not_before: t(times, 1_536_888_256),
            expires_at: t(times, 1_536_888_257),
        },
        signature: sig.clone(),
    };
    let v = match serde_json::to_value(&p) {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C27.proof-has-json"),
    };
    let (h, b) = (&v["header"], &v["body"]);
    sx::check(has_opt_str(&v, "signature", &sig) & only(&v, &["header", "body", "signature"]), "C27.proof-members");
    sx::check(has_str(h, "typ", &typ) & has_str(h, "alg", "ES256K"), "C27.proof-header");
    let names = ["", "kid", "jwk", "x5c"];
    sx::check((k == 0 || has_str(h, names[k], &key)) & only(h, &["typ", "alg", names[k]]), "C27.proof-key");
    sx::check(has_opt_str(b, "iss", &iss) & has_opt_str(b, "sub", &sub) & has_str(b, "aud", &aud) & has_str(b, "nonce", &nonce), "C27.proof-body");
    sx::check(has_str(b, "iat", "2018-09-14T01:24:15Z"), "C27.proof-iat");
    sx::check(if times { has_str(b, "nbf", "2018-09-14T01:24:16Z") } else { lacks(b, "nbf") }, "C27.proof-nbf");
    sx::check(if times { has_str(b, "exp", "2018-09-14T01:24:17Z") } else { lacks(b, "exp") }, "C27.proof-exp");
    sx::check(only(b, &["iss", "sub", "aud", "nonce", "iat", "nbf", "exp"]), "C27.proof-body-no-other-member");
    match serde_json::from_value::<ProofJwt>(v) {
        Ok(q) => {
            sx::reach("read");
            sx::check(q.header.additional_header == p.header.additional_header, "C27.proof-round-trip-key");
            sx::check(sx::same(&q.header.typ, &typ) && q.header.alg == p.header.alg, "C27.proof-round-trip-header");
            sx::check(sx::same_opt(&q.body.issuer, &iss) & sx::same_opt(&q.body.subject, &sub) & sx::same(&q.body.audience, &aud) & sx::same(&q.body.nonce, &nonce),
                "C27.proof-round-trip-body");
            sx::check(q.body.issued_at == p.body.issued_at && q.body.not_before == p.body.not_before && q.body.expires_at == p.body.expires_at, "C27.proof-round-trip-times");
            sx::check(sx::same_opt(&q.signature, &sig), "C27.proof-round-trip-signature");
        }
        Err(_) => sx::check(false, "C27.proof-is-readable"),
    }
}
/// The names of the algorithms.
fn c27_algorithm("known", "refused") {
    if sx::flag("known") {
        let (n, a) = &ALGORITHMS[sx::choose("algorithm", 16) as usize];
        sx::reach("known");
        sx::check(matches!(serde_json::to_value(a), Ok(Value::String(t)) if t == *n), "C27.algorithm-name");
        sx::check(matches!(serde_json::from_value::<ProofJwtAlgorithm>(s(n)), Ok(b) if b == *a), "C27.algorithm-is-read");
        // within a proof
        let c = Case { alg: n.to_string(), ..Case::default() };
        sx::check(matches!(c.jwt().parse::<ProofJwt>(), Ok(p) if p.header.alg == *a), "C27.algorithm-of-a-proof");
    } else {
        use serde::de::IntoDeserializer;
        let t = sx::text_upto("algorithm", 0, 9, Set::Ascii);
        for (n, _) in &ALGORITHMS {
            sx::assume(!sx::same(&t, n));
        }
        sx::reach("refused");
        let d: serde::de::value::StrDeserializer<'_, serde::de::value::Error> = t.as_str().into_deserializer();
        sx::check(<ProofJwtAlgorithm as serde::Deserialize>::deserialize(d).is_err(), "C27.unknown-algorithm-is-refused");
    }
}
}
