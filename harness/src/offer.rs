//! Credential offers and issuer metadata.
use crate::data::*;
use crate::request::*;
use crate::sx::{self, Set};
use openid4vci::credential_issuer::error::CredentialIssuerError as E;
use openid4vci::credential_issuer::*;
use openid4vci::types::credential::*;
use openid4vci::types::credential_issuer_metadata::*;
use openid4vci::validate::Validatable;
use serde_json::Value;

/// An offered credential: identifier or object.
fn a_credential(name: &str, symbolic: bool) -> CredentialOrId {
    match sx::choose(name, if symbolic { 4 } else { 3 }) {
        0 => CredentialOrId::CredentialId("a".into()),
        1 => CredentialOrId::CredentialId("b".into()),
        2 => CredentialOrId::Credential(mdoc(&sx::text(name, 2, Set::Plain))),
        _ => CredentialOrId::CredentialId(sx::any(name, Set::Plain)),
    }
}
fn same_ref(a: &CredentialOrId, v: &Value) -> bool {
    match (a, v) {
        (CredentialOrId::CredentialId(x), Value::String(y)) => sx::same(x, y),
        (CredentialOrId::Credential(CredentialFormatProfile::MsoMdoc { doctype, .. }), Value::Object(_)) => {
            has_str(v, "format", "mso_mdoc") & has_str(v, "doctype", doctype)
        }
        _ => false,
    }
}
fn id_of(c: &CredentialOrId) -> Option<&str> {
    match c {
        CredentialOrId::CredentialId(i) => Some(i),
        CredentialOrId::Credential(_) => None,
    }
}
/// Percent-decodes; None if anything but unreserved characters and escapes occurs.
pub fn percent_decode(t: &str) -> Option<Vec<u8>> {
    let b = t.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'%' {
            if i + 2 >= b.len() {
                return None;
            }
            let h = |c: u8| if c.is_ascii_digit() { Some(c - b'0') } else if (b'A'..=b'F').contains(&c) { Some(c - b'A' + 10) } else { None };
            o.push(h(b[i + 1])? * 16 + h(b[i + 2])?);
            i += 3;
        } else {
            let unreserved = ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | ((c >= b'0') & (c <= b'9'))
                | (c == b'-') | (c == b'_') | (c == b'.') | (c == b'~');
            if !unreserved {
                return None;
            }
            o.push(c);
            i += 1;
        }
    }
    Some(o)
}
fn check_url(url: &str, offer: &CredentialOffer, endpoint: &Option<String>) {
    const P: &str = "credential_offer=";
    let (rest, seps): (&str, &[&str]) = match endpoint {
        None => {
            const D: &str = "openid-credential-offer://";
            if !url.starts_with(D) {
                return sx::check(false, "C17.deep-link");
            }
            let r = &url[D.len()..];
            (r, &["", "?"])
        }
        Some(e) => {
            if url.len() < e.len() || !sx::same_bytes(&url.as_bytes()[..e.len()], e.as_bytes()) {
                return sx::check(false, "C17.endpoint-is-kept");
            }
            let query = e.bytes().any(|b| b == b'?');
            let open = e.ends_with('?') || e.ends_with('&');
            (&url[e.len()..], if !query { &["?"] } else if open { &["&", ""] } else { &["&"] })
        }
    };
    let mut value = None;
    for s in seps {
        if rest.starts_with(s) && rest[s.len()..].starts_with(P) {
            value = Some(&rest[s.len() + P.len()..]);
        }
    }
    let value = match value {
        Some(v) => v,
        None => return sx::check(false, "C17.one-more-query-parameter"),
    };
    let json = match serde_json::to_string(offer) {
        Ok(j) => j,
        Err(_) => return sx::check(false, "C17.offer-has-json"),
    };
    match percent_decode(value) {
        Some(b) => sx::check(sx::same_bytes(&b, json.as_bytes()), "C17.value-decodes-to-the-offer"),
        None => sx::check(false, "C17.value-is-percent-encoded"),
    }
    if endpoint.is_none() {
        // last, because a failed check ends the path
        sx::check(rest.starts_with('?'), "C17.deep-link-has-a-query");
    }
}

fn ids(m: &CredentialIssuerMetadata) -> Vec<Option<&str>> {
    m.credentials_supported.iter().map(|c| c.id.as_deref()).collect()
}
fn repeated(i: &[Option<&str>]) -> bool {
    for a in 0..i.len() {
        for b in 0..a {
            if i[a].is_some() && i[a] == i[b] {
                return true;
            }
        }
    }
    false
}

/// The offer states exactly this.
fn states(o: &CredentialOffer, issuer: &str, list: &[CredentialOrId], pre: &Option<PreAuthorizedCodeFlow>) {
    sx::check(sx::same(&o.credential_issuer, issuer), "C16.issuer");
    sx::check(o.grants.authorized_code_flow.is_none(), "C16.no-other-grant");
    sx::check(match (&o.grants.pre_authorized_code_flow, pre) {
        (None, None) => true,
        (Some(a), Some(b)) => sx::same(&a.code, &b.code) & (a.user_pin_required == b.user_pin_required),
        _ => false,
    }, "C16.grant");
    match serde_json::to_value(&o.credentials) {
        Ok(Value::Array(x)) => sx::check(x.len() == list.len() && x.iter().zip(list).all(|(v, c)| same_ref(c, v)), "C16.credentials-in-order-and-form"),
        _ => sx::check(false, "C16.credentials-in-order-and-form"),
    }
}

entries! {
/// Which requests for an offer succeed, and with which reason the others fail.
fn c16_offer("created", "unknown id", "authorization code", "invalid metadata", "several reasons") {
    let valid = sx::flag("metadata valid");
    let m = metadata(ISSUER, vec![supported(None, mdoc("0")), supported(Some("a"), mdoc("1")), supported(Some(if valid { "b" } else { "a" }), mdoc("2"))]);
    let n = sx::choose("credentials", 4);
    let mut list = vec![];
    for k in ["first", "second", "third"].iter().take(n as usize) {
        list.push(match sx::choose(k, if n < 3 || sx::thorough() { 4 } else { 3 }) {
            0 => CredentialOrId::CredentialId("a".into()),
            1 => CredentialOrId::CredentialId("b".into()),
            2 => CredentialOrId::Credential(mdoc("a")),
            _ => CredentialOrId::CredentialId(sx::text(k, 1, Set::Plain)),
        });
    }
    let auth = if sx::flag("authorization code") { Some(AuthorizedCodeFlow { issuer_state: None }) } else { None };
    let pre = if sx::flag("pre-authorized code") { Some(PreAuthorizedCodeFlow { code: "c".into(), user_pin_required: None }) } else { None };
    let r = CredentialIssuer::create_offer(&m, CredentialOrIds::new(list.clone()), &None, &auth, &pre);
    sx::observe("ok", r.is_ok() as u64);
    let known = |i: &str| i == "a" || (valid && i == "b");
    let unknown = list.iter().filter_map(id_of).find(|i| !known(i));
    match r {
        Ok((o, _)) => {
            sx::reach("created");
            sx::check(valid, "C16.refused-with-invalid-metadata");
            sx::check(auth.is_none(), "C16.refused-with-authorization-code");
            sx::check(unknown.is_none(), "C16.refused-with-unknown-identifier");
            states(&o, ISSUER, &list, &pre);
        }
        Err(e) => {
            let reasons = (!valid) as u32 + auth.is_some() as u32 + unknown.is_some() as u32;
            sx::check(reasons > 0, "C16.otherwise-it-succeeds");
            if reasons > 1 {
                return sx::reach("several reasons");
            }
            if !valid {
                sx::reach("invalid metadata");
                sx::check(matches!(e, E::ValidationError(_)), "C16.invalid-metadata");
            } else if auth.is_some() {
                sx::reach("authorization code");
                sx::check(matches!(e, E::AuthorizedFlowNotSupported), "C16.authorization-code");
            } else if let Some(u) = unknown {
                sx::reach("unknown id");
                sx::check(match &e {
                    E::CredentialIdNotInIssuerMetadata { id } => sx::same(id, u),
                    _ => false,
                }, "C16.first-unknown-identifier");
            }
        }
    }
}
/// The content of an offer, with symbolic issuer, grant, object and identifiers.
fn c16_content("created") {
    let special = sx::choose("special", 4);
    // the URL forks for every character that may need an escape, so long texts are digits
    let t = |k: u64, name: &str, d: &str| {
        if special != k {
            return d.to_string();
        }
        match sx::choose(name, 4) {
            0 => String::new(),
            1 => sx::text(name, 1, Set::Plain),
            2 => sx::wide(name, 1),
            _ => sx::text(name, 16, Set::Digit),
        }
    };
    let issuer = t(0, "issuer", ISSUER);
    // hashing of identifiers is costly for the solver
    let id = if special == 1 { ["", "0", "urn:example:credential:1", "\u{e9}"][sx::choose("id", 4) as usize].to_string() } else { "a".to_string() };
    let doctype = t(2, "doctype", "org.iso.1");
    let code = t(3, "code", "c");
    let m = metadata(&issuer, vec![supported(None, mdoc("0")), supported(Some(&id), mdoc("1"))]);
    let list = match sx::choose("credentials", 4) {
        0 => vec![],
        1 => vec![CredentialOrId::CredentialId(id)],
        2 => vec![CredentialOrId::Credential(mdoc(&doctype)), CredentialOrId::CredentialId(id)],
        _ => vec![CredentialOrId::CredentialId(id.clone()), CredentialOrId::CredentialId(id), CredentialOrId::Credential(mdoc(&doctype)), CredentialOrId::Credential(mdoc(&doctype))],
    };
    let pre = if sx::flag("pre-authorized code") {
        Some(PreAuthorizedCodeFlow { code, user_pin_required: if sx::flag("pin stated") { Some(sx::boolean("pin required")) } else { None } })
    } else {
        None
    };
    match CredentialIssuer::create_offer(&m, CredentialOrIds::new(list.clone()), &None, &None, &pre) {
        Ok((o, _)) => {
            sx::reach("created");
            states(&o, &issuer, &list, &pre);
        }
        Err(_) => sx::check(false, "C16.otherwise-it-succeeds"),
    }
}
/// The ways to state the credentials of an offer lead to the same offer.
fn c16_forms("created") {
    let t = sx::text("doctype", 3, Set::Plain);
    let m = metadata(ISSUER, vec![supported(Some("a"), mdoc("1")), supported(Some("b"), mdoc("2"))]);
    let a = CredentialOrId::from("a");
    let o = CredentialOrId::from(mdoc(&t));
    let refs: &[&CredentialOrId] = &[&o, &a];
    let r = [
        CredentialIssuer::create_offer(&m, vec![o.clone(), a.clone()], &None, &None, &None),
        CredentialIssuer::create_offer(&m, refs, &None, &None, &None),
        CredentialIssuer::create_offer(&m, CredentialOrIds::from(refs), &None, &None, &None),
    ];
    for x in &r {
        match x {
            Ok((x, _)) => {
                sx::reach("created");
                sx::check(x.credentials == CredentialOrIds::new(vec![o.clone(), a.clone()]), "C16.every-form-of-list");
            }
            Err(_) => sx::check(false, "C16.every-form-of-list"),
        }
    }
    let two = CredentialIssuer::create_offer(&m, vec!["b".to_string(), "a".to_string()], &None, &None, &None);
    sx::check(match two {
        Ok((x, _)) => x.credentials == CredentialOrIds::new(vec!["b".into(), "a".into()]),
        Err(_) => false,
    }, "C16.every-form-of-list");
}

/// The URL of an offer with symbolic content.
fn c17_content("no endpoint", "endpoint") {
    let endpoint = match sx::choose("endpoint", 3) {
        0 => None,
        1 => Some("https://issuer.example/offer".to_string()),
        _ => Some("https://issuer.example/offer?a=b".to_string()),
    };
    sx::reach(if endpoint.is_some() { "endpoint" } else { "no endpoint" });
    let n = if sx::thorough() { 4 } else { 2 };
    let mut issuer = ISSUER.to_string();
    let mut code = "c1".to_string();
    let mut credential = CredentialOrId::from("a");
    match sx::choose("special", 5) {
        0 => issuer = sx::text("issuer", n, Set::Ascii),
        1 => code = sx::text("code", n, Set::Ascii),
        2 => credential = mdoc(&sx::text("doctype", n, Set::Ascii)).into(),
        3 => code = sx::wide("code", n),
        _ => credential = CredentialFormatProfile::LdpVc {
            context: vec![LinkedDataContext::String("https://www.w3.org/2018/credentials/v1".into())],
            types: vec![sx::text("type", n, Set::Plain)],
            credential_subject: None,
            order: None,
        }.into(),
    }
    let m = metadata(&issuer, vec![supported(Some("a"), mdoc("1"))]);
    let pre = Some(PreAuthorizedCodeFlow { code, user_pin_required: sx::opt_u64("pin required", 1).map(|x| x != 0) });
    match CredentialIssuer::create_offer(&m, vec![credential], &endpoint, &None, &pre) {
        Ok((o, u)) => check_url(&u, &o, &endpoint),
        Err(_) => sx::check(false, "C17.offer-is-created"),
    }
}
/// The URL of an offer for a symbolic endpoint without fragment.
fn c17_endpoint("query", "no query") {
    let n = if sx::thorough() { 5 } else { 3 };
    let e = match sx::choose("shape", 3) {
        0 => sx::text_upto("endpoint", 0, n, Set::Plain),
        1 => format!("https://issuer.example/{}", sx::text("endpoint", n, Set::Plain)),
        _ => format!("https://issuer.example/?a={}", sx::text("endpoint", 2, Set::Plain)),
    };
    let mut ok = true;
    let mut q = false;
    for b in e.bytes() {
        ok &= b != b'#';
        q |= b == b'?';
    }
    sx::assume(ok);
    sx::reach(if q { "query" } else { "no query" });
    let m = metadata(ISSUER, vec![supported(Some("a"), mdoc("1"))]);
    let endpoint = Some(e);
    match CredentialIssuer::create_offer(&m, vec![CredentialOrId::from("a")], &endpoint, &None, &None) {
        Ok((o, u)) => check_url(&u, &o, &endpoint),
        Err(_) => sx::check(false, "C17.offer-is-created"),
    }
}
/// The encoding of the offer by itself.
fn c17_encode("encoded") {
    let o = CredentialOffer::new(
        &sx::text("issuer", 2, Set::Ascii),
        CredentialOrIds::new(vec![CredentialOrId::from(sx::wide("id", 1).as_str())]),
        &if sx::flag("authorization code") { Some(AuthorizedCodeFlow { issuer_state: Some(sx::text("state", 1, Set::Ascii)) }) } else { None },
        &None,
    );
    match o.url_encode() {
        Ok(e) => {
            sx::reach("encoded");
            let json = serde_json::to_string(&o).unwrap_or_default();
            sx::check(match percent_decode(&e) {
                Some(b) => sx::same_bytes(&b, json.as_bytes()),
                None => false,
            }, "C17.encoding-decodes-to-the-offer");
        }
        Err(_) => sx::check(false, "C17.encoding"),
    }
}

/// Resolving one reference in metadata with symbolic identifiers.
fn c18_resolve("found", "not found", "object") {
    let (a, b) = sx::pair("id", Set::Plain);
    let third = sx::text("third id", 1, Set::Plain);
    let with = |i: &str, v: &str| match sx::choose(v, 2) {
        0 => supported(None, mdoc(v)),
        _ => supported(Some(i), mdoc(v)),
    };
    let m = metadata(ISSUER, vec![with(&third, "0"), with(&a, "1"), with(&a, "2"), supported(Some(&third), mdoc("3"))]);
    if sx::flag("object") {
        sx::reach("object");
        let f = mdoc(&b);
        sx::check(CredentialOrId::Credential(f.clone()).resolve(&m) == Ok(f), "C18.object-resolves-to-itself");
        return;
    }
    let want = m.credentials_supported.iter().find(|c| match &c.id {
        Some(i) => sx::same(i, &b),
        None => false,
    });
    match (CredentialOrId::CredentialId(b.clone()).resolve(&m), want) {
        (Ok(f), Some(w)) => {
            sx::reach("found");
            sx::check(f == w.format, "C18.first-credential-with-that-id");
        }
        (Err(E::CredentialIdNotInIssuerMetadata { id }), None) => {
            sx::reach("not found");
            sx::check(sx::same(&id, &b), "C18.error-names-the-id");
        }
        (Ok(_), None) => sx::check(false, "C18.unknown-id-is-refused"),
        _ => sx::check(false, "C18.known-id-is-found"),
    }
}
/// Resolving a list.
fn c18_list("resolved", "failed", "empty") {
    let m = metadata(ISSUER, vec![supported(Some("a"), mdoc("1")), supported(None, mdoc("2")), supported(Some("b"), mdoc("3")), supported(Some(""), mdoc("4"))]);
    let n = sx::choose("credentials", 4);
    let mut list = vec![];
    let mut want = vec![];
    let mut bad = None;
    for k in ["first", "second", "third"].iter().take(n as usize) {
        let c = a_credential(k, true);
        match &c {
            CredentialOrId::Credential(f) => want.push(f.clone()),
            CredentialOrId::CredentialId(i) => match i.as_str() {
                "a" => want.push(mdoc("1")),
                "b" => want.push(mdoc("3")),
                "" => want.push(mdoc("4")),
                _ => {
                    if bad.is_none() {
                        bad = Some(i.clone());
                    }
                }
            },
        }
        list.push(c);
    }
    if n == 0 {
        sx::reach("empty");
    }
    match (CredentialOrIds::new(list).resolve_all(&m), bad) {
        (Ok(r), None) => {
            sx::reach("resolved");
            sx::check(r.len() == want.len(), "C18.length");
            sx::check(r == want, "C18.order");
        }
        (Err(E::CredentialIdNotInIssuerMetadata { id }), Some(b)) => {
            sx::reach("failed");
            sx::check(sx::same(&id, &b), "C18.error-of-the-first-failing-element");
        }
        _ => sx::check(false, "C18.fails-exactly-if-one-element-fails"),
    }
}

/// Every pattern of identifiers over a small alphabet.
fn c19_patterns("valid", "invalid") {
    const I: [Option<&str>; 5] = [None, Some("a"), Some("b"), Some("A"), Some("")];
    let n = 1 + sx::choose("credentials", if sx::thorough() { 5 } else { 4 });
    let mut v = vec![];
    for k in 0..n {
        // formats differ or are equal: they do not matter
        v.push(supported(I[sx::choose("id", 5) as usize], mdoc(["x", "y"][(k % 2) as usize])));
    }
    all_places(metadata(ISSUER, v));
}
/// Symbolic identifiers.
fn c19_symbolic("valid", "invalid") {
    let a = sx::text("first", 1, Set::Letter);
    let b = sx::text("second", 1, Set::Letter);
    let m = metadata(ISSUER, vec![supported(Some(&a), mdoc("x")), supported(Some(&b), mdoc("x"))]);
    let r = m.validate();
    let bad = sx::same(&a, &b);
    sx::reach(if r.is_ok() { "valid" } else { "invalid" });
    sx::check(r.is_err() == bad, "C19.valid-exactly-without-repeated-id");
}
/// Long lists: a pair of equal identifiers anywhere, close or far apart.
fn c19_long("valid", "invalid") {
    let n = if sx::thorough() { 16 } else { 9 };
    let i = sx::choose("i", n) as usize;
    let j = sx::choose("j", n) as usize;
    let v = (0..n as usize).map(|k| {
        let id = format!("urn:example:credential:{}", if k == i { j } else { k });
        supported(if k % 4 == 3 && k != i && k != j { None } else { Some(&id) }, mdoc("x"))
    }).collect();
    all_places(metadata(ISSUER, v));
}
}

fn all_places(m: CredentialIssuerMetadata) {
    let bad = repeated(&ids(&m));
    sx::observe("bad", bad as u64);
    sx::reach(if bad { "invalid" } else { "valid" });
    sx::check(m.validate().is_err() == bad, "C19.valid-exactly-without-repeated-id");
    let o = CredentialIssuer::create_offer(&m, vec![CredentialOrId::Credential(mdoc("z"))], &None, &None, &None);
    sx::check(o.is_err() == bad, "C19.offer-creation");
    let c = Case::default();
    let offer = c.offer();
    // without a proof, the metadata are examined all the same
    let q = openid4vci::types::credential_request::CredentialRequest { format: mdoc("z"), proof: None };
    let r = CredentialIssuer::evaluate_credential_request(&m, &q, Some(&offer), None, c.document.as_ref(), c.options());
    sx::check(matches!(r, Err(E::ValidationError(_))) == bad, "C19.evaluation");
}
