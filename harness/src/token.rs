//! Token requests and responses.
use crate::data::*;
use crate::sx::{self, Set};
use openid4vci::access_token::error::AccessTokenError as E;
use openid4vci::access_token::*;
use openid4vci::credential_issuer::*;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::Validatable;

struct Case {
    pre: bool,
    code: String,
    pin: Option<u64>,
    offer: bool,
    has_auth: bool,
    has_pre: bool,
    offer_code: String,
    required: Option<bool>,
    options: bool,
    expected: Option<u64>,
}

fn case(codes: (String, String)) -> Case {
    let pre = sx::flag("pre");
    let mut c = Case {
        pre,
        code: codes.0,
        pin: if pre { sx::opt_u64("pin", 64) } else { None },
        offer: sx::flag("offer"),
        has_auth: false,
        has_pre: false,
        offer_code: codes.1,
        required: None,
        options: sx::flag("options"),
        expected: None,
    };
    if c.offer {
        c.has_auth = sx::flag("offer has authorization code");
        c.has_pre = sx::flag("offer has pre-authorized code");
        c.required = match sx::choose("required", 3) {
            0 => None,
            1 => Some(false),
            _ => Some(true),
        };
    }
    if c.options {
        c.expected = sx::opt_u64("expected", 64);
    }
    c
}

pub fn request(pre: bool, code: &str, pin: Option<u64>) -> AccessTokenRequest {
    let g = if pre {
        let mut m = vec![("grant_type", s(PRE)), ("pre_authorized_code", s(code))];
        if let Some(p) = pin {
            m.push(("user_pin", p.into()));
        }
        obj(m)
    } else {
        obj(vec![("grant_type", s("authorization_code"))])
    };
    match serde_json::from_value(obj(vec![("grant_type", g)])) {
        Ok(r) => r,
        Err(_) => {
            sx::check(false, "token-request-is-readable");
            unreachable!()
        }
    }
}

pub fn options(expected: Option<u64>) -> EvaluateAccessTokenRequestOptions {
    let m = match expected {
        Some(p) => vec![("expected_user_pin", p.into())],
        None => vec![],
    };
    match serde_json::from_value(obj(m)) {
        Ok(r) => r,
        Err(_) => {
            sx::check(false, "options-are-readable");
            unreachable!()
        }
    }
}

fn offer(c: &Case) -> Option<CredentialOffer> {
    if !c.offer {
        return None;
    }
    Some(CredentialOffer {
        credential_issuer: "https://issuer.example".into(),
        credentials: CredentialOrIds::new(vec![]),
        grants: CredentialOfferGrants {
            authorized_code_flow: if c.has_auth { Some(AuthorizedCodeFlow { issuer_state: None }) } else { None },
            pre_authorized_code_flow: if c.has_pre {
                Some(PreAuthorizedCodeFlow { code: c.offer_code.clone(), user_pin_required: c.required })
            } else {
                None
            },
        },
    })
}

fn run(c: &Case) -> Result<(), E> {
    let o = if c.options { Some(options(c.expected)) } else { None };
    AccessToken::evaluate_access_token_request(&request(c.pre, &c.code, c.pin), offer(c), o)
}

fn too_long(pin: Option<u64>) -> bool {
    match pin {
        Some(p) => p > 99_999_999,
        None => false,
    }
}
fn pin_matches(c: &Case) -> bool {
    match (c.pin, c.expected) {
        (Some(a), Some(b)) => a == b,
        (Some(_), None) => false,
        (None, _) => true,
    }
}

/// What the pre-authorized part of the offer says about the request; None: it matches.
fn pre_reason(c: &Case, e: &E) -> bool {
    let code = sx::same(&c.code, &c.offer_code);
    let pin = c.required == Some(true);
    if c.pin.is_some() && c.expected.is_none() {
        return matches!(e, E::OptionsAreRequiredForEvaluation { .. });
    }
    if !pin_matches(c) {
        return matches!(e, E::UserPinMismatch);
    }
    match e {
        E::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied, does_code_match } => {
            (*should_pin_be_supplied == pin) & (*does_code_match == code)
        }
        _ => false,
    }
}
fn grant_reason(e: &E) -> bool {
    match e {
        E::InvalidGrantType { requested_grant_type, accepted_grant_type } => {
            requested_grant_type == "pre_authorized_code_flow"
                && accepted_grant_type.len() == 1
                && accepted_grant_type[0] == "authorized_code_flow"
        }
        _ => false,
    }
}

entries! {
/// Every combination of request, offer and options.
fn c01_grant("granted", "refused", "granted with pin", "granted with both grants") {
    let c = case(sx::pair("code", Set::Ascii));
    let r = run(&c);
    let ok = r.is_ok();
    sx::observe("ok", ok as u64);
    let want = c.pre
        & c.offer
        & c.has_pre
        & sx::same(&c.code, &c.offer_code)
        & (c.pin.is_some() == (c.required == Some(true)))
        & !too_long(c.pin)
        & pin_matches(&c);
    if ok {
        sx::reach("granted");
        if c.pin.is_some() {
            sx::reach("granted with pin");
        }
        if c.has_auth {
            sx::reach("granted with both grants");
        }
        sx::check(want, "C01.granted-only-if-all-match");
    } else {
        sx::reach("refused");
        sx::check(!want, "C01.refused-only-if-something-differs");
    }
}

/// The length of the PIN, for every PIN and every offer.
fn c02_pin("too long", "fits", "no pin") {
    let c = case(("abc".into(), "abc".into()));
    let r = run(&c);
    let invalid = matches!(r, Err(E::ValidationError(_)));
    sx::observe("invalid", invalid as u64);
    match c.pin {
        Some(p) => {
            if p > 99_999_999 {
                sx::reach("too long");
                sx::check(invalid, "C02.nine-or-more-digits-are-refused-as-invalid");
            } else {
                sx::reach("fits");
                sx::check(!invalid, "C02.eight-or-fewer-digits-are-not-refused-for-their-length");
                if c.offer && c.has_pre && c.required == Some(true) && c.expected.is_some() && pin_matches(&c) {
                    sx::check(r.is_ok(), "C02.expected-pin-of-any-allowed-length-is-granted");
                }
            }
        }
        None => {
            sx::reach("no pin");
            sx::check(!invalid, "C02.request-without-pin-is-not-refused-for-its-length");
        }
    }
    // the same holds for the request by itself
    let v = request(c.pre, "abc", c.pin).validate();
    sx::check(v.is_err() == too_long(c.pin), "C02.validate");
}

/// The reason of every refusal.
fn c03_reason("pin too long", "authorized", "no offer", "no grant", "other grant", "pre", "both") {
    let c = case(sx::pair("code", Set::Ascii));
    let r = run(&c);
    let e = match &r {
        Ok(()) => return,
        Err(e) => e,
    };
    if too_long(c.pin) {
        sx::reach("pin too long");
        sx::check(matches!(e, E::ValidationError(_)), "C03.pin-too-long");
    } else if !c.pre {
        sx::reach("authorized");
        sx::check(matches!(e, E::AuthorizedFlowNotSupported), "C03.authorization-code-not-supported");
    } else if !c.offer {
        sx::reach("no offer");
        sx::check(matches!(e, E::CredentialOfferMustBeSupplied), "C03.no-offer");
    } else {
        match (c.has_auth, c.has_pre) {
            (false, false) => {
                sx::reach("no grant");
                sx::check(matches!(e, E::NoFlowSupportedInCredentialOffer), "C03.no-grant-in-offer");
            }
            (true, false) => {
                sx::reach("other grant");
                sx::check(grant_reason(e), "C03.grant-type-not-in-offer");
            }
            (false, true) => {
                sx::reach("pre");
                sx::check(pre_reason(&c, e), "C03.reason-of-the-pre-authorized-grant");
            }
            (true, true) => {
                sx::reach("both");
                match e {
                    E::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error, pre_authorized_error } => {
                        sx::check(grant_reason(authorized_error), "C03.both-contain-the-reason-of-the-authorization-code-grant");
                        sx::check(pre_reason(&c, pre_authorized_error), "C03.both-contain-the-reason-of-the-pre-authorized-grant");
                    }
                    _ => sx::check(false, "C03.both-reasons"),
                }
            }
        }
    }
}

/// Members of a token response.
fn c22_members("created", "all", "none") {
    let (secs, nanos) = sx::moment("now", &[0, 19490, 24855]);
    sx::set_now(secs, nanos);
    let text = |n: &str| match sx::style() {
        0 if sx::flag(n) => String::new(),
        0 => sx::text(n, 2, Set::Ascii),
        k => sx::styled(n, k, Set::Ascii),
    };
    let access_token = text("access_token");
    let expires_in = sx::opt_u64("expires_in", 32).map(|x| x as u32);
    let scope = if sx::flag("scope") { Some(text("scope")) } else { None };
    let nonce = if sx::flag("c_nonce") { Some(text("c_nonce")) } else { None };
    let nonce_in = sx::opt_u64("c_nonce_expires_in", 32).map(|x| x as u32);
    let pending = sx::opt_u64("authorization_pending", 1).map(|x| x != 0);
    let interval = sx::opt_u64("interval", 32).map(|x| x as u32);
    let r = AccessToken::create_access_token_success_response(
        access_token.clone(), AccessTokenType::Bearer, expires_in, scope.clone(), nonce.clone(), nonce_in, pending, interval);
    let (r, at) = match r {
        Ok(x) => x,
        Err(_) => return sx::check(false, "C22.creation-succeeds"),
    };
    sx::reach("created");
    sx::check((at.timestamp() == secs) & (at.timestamp_subsec_nanos() == nanos), "C22.time");
    sx::check(sx::same(&r.access_token, &access_token), "C22.access_token");
    sx::check(r.token_type == AccessTokenType::Bearer, "C22.token_type");
    sx::check(r.expires_in == expires_in, "C22.expires_in");
    sx::check(sx::same_opt(&r.scope, &scope), "C22.scope");
    sx::check(sx::same_opt(&r.c_nonce, &nonce), "C22.c_nonce");
    sx::check(r.c_nonce_expires_in == nonce_in, "C22.c_nonce_expires_in");
    sx::check(r.authorization_pending == pending, "C22.authorization_pending");
    sx::check(r.interval == interval, "C22.interval");
    sx::check(r.validate().is_err() == (nonce.is_none() && nonce_in.is_some()), "C22.validate");
    if nonce.is_some() && interval.is_some() && pending.is_some() {
        sx::reach("all");
    }
    if nonce.is_none() && interval.is_none() && pending.is_none() {
        sx::reach("none");
    }
    let v = match serde_json::to_value(&r) {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C22.json-exists"),
    };
    sx::check(has_str(&v, "access_token", &access_token), "C22.json-access_token");
    sx::check(has_str(&v, "token_type", "Bearer"), "C22.json-token_type");
    sx::check(has_opt_num(&v, "expires_in", expires_in.map(u64::from)), "C22.json-expires_in");
    sx::check(has_opt_str(&v, "scope", &scope), "C22.json-scope");
    sx::check(has_opt_str(&v, "c_nonce", &nonce), "C22.json-c_nonce");
    sx::check(has_opt_num(&v, "c_nonce_expires_in", nonce_in.map(u64::from)), "C22.json-c_nonce_expires_in");
    sx::check(has_opt_bool(&v, "authorization_pending", pending), "C22.json-authorization_pending");
    sx::check(has_opt_num(&v, "interval", interval.map(u64::from)), "C22.json-interval");
    sx::check(only(&v, &["access_token", "token_type", "expires_in", "scope", "c_nonce", "c_nonce_expires_in",
        "authorization_pending", "interval"]), "C22.json-has-no-other-member");
    match serde_json::from_value::<AccessTokenSuccessResponse>(v) {
        Ok(b) => sx::check(b == r, "C22.json-round-trip"),
        Err(_) => sx::check(false, "C22.json-is-readable"),
    }
}

/// The token type as text.
fn c22_type("bearer", "refused") {
    let t: &str = AccessTokenType::Bearer.into();
    sx::check(t == "Bearer", "C22.token-type-name");
    let n = sx::text_upto("type", 5, 7, Set::Ascii);
    let bearer = sx::same(&n, "Bearer");
    let other = !n.eq_ignore_ascii_case("bearer");
    match AccessTokenType::try_from(n) {
        Ok(AccessTokenType::Bearer) => {
            sx::reach("bearer");
            sx::check(!other, "C22.other-token-types-are-refused");
        }
        Err(_) => {
            sx::reach("refused");
            sx::check(!bearer, "C22.bearer-is-read");
        }
    }
}
}
