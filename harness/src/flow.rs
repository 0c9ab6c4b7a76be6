//! The whole issuance flow.
use crate::data::*;
use crate::offer::percent_decode;
use crate::request::*;
use crate::sx::{self, Set};
use crate::token;
use openid4vci::access_token::*;
use openid4vci::credential_issuer::*;
use openid4vci::types::credential_issuer_metadata::*;
use openid4vci::types::token_type::AccessTokenType;
use serde_json::Value;

fn issuer() -> CredentialIssuerMetadata {
    metadata(ISSUER, vec![supported(None, mdoc("none")), supported(Some("a"), mdoc("first")), supported(Some("b"), mdoc("second"))])
}

/// The offer that the wallet reads from the URL that the issuer hands out.
fn transfer(pre: &Option<PreAuthorizedCodeFlow>, list: Vec<CredentialOrId>, endpoint: &Option<String>) -> Option<(CredentialOffer, CredentialOffer)> {
    let (o, url) = match CredentialIssuer::create_offer(&issuer(), CredentialOrIds::new(list), endpoint, &None, pre) {
        Ok(x) => x,
        Err(_) => {
            sx::check(false, "C29.offer-is-created");
            return None;
        }
    };
    const P: &str = "credential_offer=";
    let value = match url.find(P) {
        Some(i) => &url[i + P.len()..],
        None => {
            sx::check(false, "C29.url-has-the-offer");
            return None;
        }
    };
    let json = percent_decode(value).and_then(|b| String::from_utf8(b).ok());
    match json.and_then(|j| serde_json::from_str::<CredentialOffer>(&j).ok()) {
        Some(r) => Some((r, o)),
        None => {
            sx::check(false, "C29.wallet-reads-the-offer");
            None
        }
    }
}
fn offered(k: u64) -> CredentialOrId {
    match k {
        0 => CredentialOrId::CredentialId("a".into()),
        1 => CredentialOrId::CredentialId("b".into()),
        _ => CredentialOrId::Credential(mdoc("third")),
    }
}

entries! {
/// Offer, URL and token request, with symbolic codes and PINs.
fn c29_token("granted", "other code", "other pin", "no pin") {
    let (code, tried) = match sx::choose("code", 7) {
        0 => (sx::text("code", 1, Set::Ascii), sx::text("tried", 1, Set::Ascii)),
        1 => (sx::text("code", 2, Set::Plain), sx::text("tried", 2, Set::Plain)),
        2 => (sx::text("code", 16, Set::Digit), sx::text("tried", 16, Set::Digit)),
        3 => (sx::wide("code", 1), sx::wide("tried", 1)),
        4 => (sx::text("code", 2, Set::Digit), sx::text("tried", 3, Set::Digit)),
        5 => (String::new(), sx::text_upto("tried", 0, 1, Set::Ascii)),
        _ => (sx::text("code", 1, Set::Plain), String::new()),
    };
    let required = match sx::choose("required", 3) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    let endpoint = if sx::flag("endpoint") { Some("https://wallet.example/start?x=1".to_string()) } else { None };
    let pre = Some(PreAuthorizedCodeFlow { code: code.clone(), user_pin_required: required });
    let (o, _) = match transfer(&pre, vec![offered(0)], &endpoint) {
        Some(x) => x,
        None => return,
    };
    let pin = sx::opt_u64("pin", 64);
    let expected = sx::opt_u64("expected", 64);
    let r = AccessToken::evaluate_access_token_request(&token::request(true, &tried, pin), Some(o), Some(token::options(expected)));
    sx::observe("ok", r.is_ok() as u64);
    let same = sx::same(&code, &tried);
    let pin_ok = match (required == Some(true), pin) {
        (true, Some(p)) => (expected == Some(p)) & (p <= 99_999_999),
        (true, None) => false,
        (false, p) => p.is_none(),
    };
    if r.is_ok() {
        sx::reach(if pin.is_some() { "granted" } else { "no pin" });
        sx::check(same, "C29.no-other-code-is-granted");
        sx::check(pin_ok, "C29.no-other-pin-is-granted");
    } else {
        sx::reach(if pin.is_some() { "other pin" } else { "other code" });
        sx::check(!(same & pin_ok), "C29.code-and-pin-of-the-offer-are-granted");
    }
}
/// Nonce of the token response, credential request and response.
fn c29_credential("accepted", "other nonce", "expired") {
    let pre = Some(PreAuthorizedCodeFlow { code: "123".into(), user_pin_required: None });
    let k = sx::choose("credential", 3);
    let (o, _) = match transfer(&pre, vec![offered(k)], &None) {
        Some(x) => x,
        None => return,
    };
    let created = sx::moment("created", &[19490]);
    sx::set_now(created.0, created.1);
    let (nonce, tried) = sx::pair("nonce", Set::Plain);
    let lifetime = sx::int("lifetime", 16) as u32;
    let (t, at) = match AccessToken::create_access_token_success_response(
        "t".into(), AccessTokenType::Bearer, None, None, Some(nonce), Some(lifetime), None, None) {
        Ok(x) => x,
        Err(_) => return sx::check(false, "C29.token-response"),
    };
    let (nonce, lifetime) = match (t.c_nonce, t.c_nonce_expires_in) {
        (Some(n), Some(l)) => (n, l),
        _ => return sx::check(false, "C29.token-response-has-the-nonce"),
    };
    // the wallet asks for the credential that it was offered
    let wanted = match CredentialOrIds::resolve_all(&o.credentials, &issuer()) {
        Ok(mut l) if l.len() == 1 => l.remove(0),
        _ => return sx::check(false, "C29.offered-credential-resolves"),
    };
    sx::check(wanted == mdoc(["first", "second", "third"][k as usize]), "C29.offered-credential");
    let c = Case { nonce: tried, format: wanted.clone(), ..Case::default() };
    let q = c.request();
    let now = sx::moment("now", &[19490, 19491]);
    sx::set_now(now.0, now.1);
    let options = EvaluateCredentialRequestOptions {
        c_nonce: Some(CNonceOptions { c_nonce_expires_in: lifetime, expected_c_nonce: nonce.clone(), c_nonce_created_at: at }),
        client_id: None,
    };
    let r = CredentialIssuer::evaluate_credential_request(&issuer(), &q, Some(&o), None, c.document.as_ref(), Some(options));
    sx::observe("ok", r.is_ok() as u64);
    let same = sx::same(&nonce, &c.nonce);
    let dead = sx::before((created.0 + lifetime as i64, created.1), now);
    if r.is_err() {
        sx::reach(if dead { "expired" } else { "other nonce" });
        return sx::check(!(same & !dead), "C29.nonce-of-the-token-response-is-accepted-while-it-lives");
    }
    sx::reach("accepted");
    sx::check(same, "C29.no-other-nonce-is-accepted");
    sx::check(!dead, "C29.no-expired-nonce-is-accepted");
    let r = match CredentialIssuer::create_credential_success_response(&q, Some(CredentialOrAcceptanceToken::Credential(wanted.clone())), None) {
        Ok((r, _)) => serde_json::to_value(r),
        Err(_) => return sx::check(false, "C29.response"),
    };
    let v = match r {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C29.response-has-json"),
    };
    sx::check(has_str(&v, "format", "mso_mdoc"), "C29.response-format");
    let json = serde_json::to_string(&wanted).unwrap_or_default();
    match v.get("credential") {
        Some(Value::String(t)) => sx::check(sx::same(t, &b64(json.as_bytes())), "C29.response-carries-the-requested-credential"),
        _ => sx::check(false, "C29.response-carries-the-requested-credential"),
    }
}
/// Whatever is offered, in any order, is what the wallet reads and resolves.
fn c29_offer("read") {
    let n = 1 + sx::choose("credentials", if sx::thorough() { 4 } else { 3 });
    let mut list = vec![];
    for _ in 0..n {
        list.push(match sx::choose("credential", 3) {
            2 => CredentialOrId::Credential(mdoc(&sx::text("doctype", 2, Set::Digit))),
            k => offered(k),
        });
    }
    let pre = Some(PreAuthorizedCodeFlow { code: sx::text("code", 4, Set::Digit), user_pin_required: sx::opt_u64("required", 1).map(|x| x != 0) });
    let (r, o) = match transfer(&pre, list.clone(), &None) {
        Some(x) => x,
        None => return,
    };
    sx::reach("read");
    sx::check(r == o, "C29.wallet-reads-the-same-offer");
    match CredentialOrIds::resolve_all(&r.credentials, &issuer()) {
        Ok(l) => {
            sx::check(l.len() == list.len(), "C29.every-offered-credential");
            for (x, y) in l.iter().zip(&list) {
                sx::check(match y {
                    CredentialOrId::CredentialId(i) => *x == mdoc(if i == "a" { "first" } else { "second" }),
                    CredentialOrId::Credential(c) => x == c,
                }, "C29.offered-credentials-in-order");
            }
        }
        Err(_) => sx::check(false, "C29.offered-credentials-resolve"),
    }
}
}
