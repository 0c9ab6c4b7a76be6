//! Credential responses and the encoding of issued credentials.
use crate::data::*;
use crate::request::*;
use crate::sx::{self, Set};
use openid4vci::credential_issuer::*;
use openid4vci::types::credential::*;
use serde_json::Value;

const NAMES: [&str; 4] = ["jwt_vc_json", "jwt_vc_json-ld", "ldp_vc", "mso_mdoc"];

fn kind(c: &CredentialFormatProfile) -> usize {
    match c {
        CredentialFormatProfile::JwtVcJson { .. } => 0,
        CredentialFormatProfile::JwtVcJsonLd { .. } => 1,
        CredentialFormatProfile::LdpVc { .. } => 2,
        CredentialFormatProfile::MsoMdoc { .. } => 3,
    }
}
/// Reads unpadded base64url without branching on its content; None if it is not.
pub fn unb64(t: &[u8]) -> Option<Vec<u8>> {
    if t.len() % 4 == 1 {
        return None;
    }
    let mut bad = false;
    let mut digit = |c: u8| {
        let u = (c >= b'A') & (c <= b'Z');
        let l = (c >= b'a') & (c <= b'z');
        let d = (c >= b'0') & (c <= b'9');
        let m = c == b'-';
        let n = c == b'_';
        bad |= !(u | l | d | m | n);
        let k = |b: bool, v: u8| (b as u8).wrapping_neg() & v;
        (k(u, c.wrapping_sub(b'A')) | k(l, c.wrapping_sub(b'a').wrapping_add(26)) | k(d, c.wrapping_sub(b'0').wrapping_add(52)) | k(m, 62) | k(n, 63)) as u32
    };
    let mut o = vec![];
    let mut rest = 0;
    for c in t.chunks(4) {
        let mut n = 0u32;
        for i in 0..4 {
            n = n << 6 | if i < c.len() { digit(c[i]) } else { 0 };
        }
        for i in 0..c.len() - 1 {
            o.push((n >> (16 - 8 * i)) as u8);
        }
        if c.len() < 4 {
            rest |= n << (8 * c.len());
        }
    }
    if bad | (rest & 0xff_ffff != 0) {
        return None;
    }
    Some(o)
}
/// The JSON of an issued credential is of the form its format demands and yields the credential.
fn issued(v: &Value, c: &CredentialFormatProfile, id: &str) {
    let k = kind(c);
    let back = match v {
        Value::Object(_) => {
            sx::check(k == 2, &format!("{}-object-only-for-ldp_vc", id));
            sx::check(has_str(v, "format", NAMES[k]), &format!("{}-format-name", id));
            serde_json::from_value::<CredentialFormatProfile>(v.clone()).ok()
        }
        Value::String(t) => {
            sx::check(k != 2, &format!("{}-text-except-for-ldp_vc", id));
            let d = match unb64(t.as_bytes()) {
                Some(d) => d,
                None => return sx::check(false, &format!("{}-unpadded-base64url", id)),
            };
            // if it is the usual JSON, read that one: it has a simpler symbolic form
            let json = serde_json::to_string(c).unwrap_or_default();
            let d = if sx::same_bytes(&d, json.as_bytes()) { json.into_bytes() } else { d };
            match serde_json::from_slice::<Value>(&d) {
                Ok(x) => sx::check(has_str(&x, "format", NAMES[k]), &format!("{}-format-name", id)),
                Err(_) => sx::check(false, &format!("{}-json", id)),
            }
            serde_json::from_slice::<CredentialFormatProfile>(&d).ok()
        }
        _ => None,
    };
    match back {
        Some(b) => sx::check(b == *c, &format!("{}-yields-the-credential", id)),
        None => sx::check(false, &format!("{}-is-readable", id)),
    }
}

entries! {
/// Every combination of requested format, issued content and nonce.
fn c20_response("credential", "token", "neither", "nonce", "no nonce") {
    let now = sx::moment("now", &[0, 19490, 24855]);
    let (k, content) = (sx::choose("requested", 4), sx::choose("content", 3));
    let t = sx::text("type", 2, Set::Plain);
    let format = match k {
        0 => CredentialFormatProfile::JwtVcJson { types: vec![t.clone()], credential_subject: None, order: None },
        1 => CredentialFormatProfile::JwtVcJsonLd { types: vec![t.clone()], credential_subject: None, order: None },
        2 => CredentialFormatProfile::LdpVc { context: vec![], types: vec![t.clone()], credential_subject: None, order: None },
        _ => mdoc(&t),
    };
    let c = Case { proof: sx::flag("proof"), format, ..Case::default() };
    let mut credential = None;
    let mut token = None;
    let supplied = match content {
        0 => {
            // not necessarily of the requested format
            let x = a_format("credential", false);
            credential = Some(x.clone());
            Some(CredentialOrAcceptanceToken::Credential(x))
        }
        1 => {
            let x = sx::any("token", Set::Ascii);
            token = Some(x.clone());
            Some(CredentialOrAcceptanceToken::AcceptanceToken(x))
        }
        _ => None,
    };
    let nonce = if sx::flag("nonce") {
        Some((sx::text("nonce", 4, Set::Ascii), sx::opt_u64("nonce lifetime", 32).map(|x| x as u32)))
    } else {
        None
    };
    sx::reach(["credential", "token", "neither"][content as usize]);
    sx::reach(if nonce.is_some() { "nonce" } else { "no nonce" });
    sx::set_now(now.0, now.1);
    let r = CredentialIssuer::create_credential_success_response(&c.request(), supplied,
        nonce.clone().map(|(c_nonce, c_nonce_expires_in)| CNonce { c_nonce, c_nonce_expires_in }));
    let (r, at) = match r {
        Ok(x) => x,
        Err(_) => return sx::check(false, "C20.creation-succeeds"),
    };
    sx::check((at.timestamp() == now.0) & (at.timestamp_subsec_nanos() == now.1), "C20.time");
    let v = match serde_json::to_value(&r) {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C20.json"),
    };
    sx::check(has_str(&v, "format", NAMES[k as usize]), "C20.format-of-the-request");
    sx::check(has_opt_str(&v, "acceptance_token", &token), "C20.acceptance-token");
    sx::check(has_opt_str(&v, "c_nonce", &nonce.as_ref().map(|n| n.0.clone())), "C20.nonce");
    sx::check(has_opt_num(&v, "c_nonce_expires_in", nonce.as_ref().and_then(|n| n.1).map(u64::from)), "C20.nonce-lifetime");
    sx::check(only(&v, &["format", "credential", "acceptance_token", "c_nonce", "c_nonce_expires_in"]), "C20.nothing-else");
    match &credential {
        None => sx::check(lacks(&v, "credential"), "C20.no-credential-was-supplied"),
        Some(c) => issued(&v["credential"], c, "C20.credential"),
    }
    // the response can be read back from its JSON
    match serde_json::from_value::<CredentialSuccessResponse>(v) {
        Ok(b) => sx::check(b == r, "C20.json-round-trip"),
        Err(_) => sx::check(false, "C20.json-is-readable"),
    }
}
/// A request whose proof is not valid gets no response.
fn c20_invalid("refused", "valid") {
    let mut c = Case::default();
    let mut jwt = None;
    let mut good = false;
    match sx::choose("fault", 8) {
        0 => good = true,
        1 => {
            c.proof_type = sx::text_upto("proof type", 2, 4, Set::Ascii);
            good = c.proof_type.eq_ignore_ascii_case("jwt");
        }
        2 => {
            c.typ = sx::text("typ", 20, Set::Plain);
            good = c.typ.eq_ignore_ascii_case("openid4vci-proof+jwt");
        }
        3 => c.alg = ["none", "HS256", "HS384", "HS512", "", "eddsa"][sx::choose("alg", 6) as usize].into(),
        4 => jwt = Some(sx::text_upto("jwt", 0, 3, Set::Ascii)),
        5 => jwt = Some(format!("{}.{}", c.jwt(), sx::text("rest", 1, Set::Url))),
        6 => jwt = Some(b64(c.header().as_bytes())),
        _ => jwt = Some(format!("{}.{}", b64(c.body().as_bytes()), b64(c.header().as_bytes()))),
    }
    let mut q = c.request();
    if let (Some(p), Some(j)) = (q.proof.as_mut(), jwt) {
        p.jwt = j;
    }
    let supplied = match sx::choose("content", 3) {
        0 => Some(CredentialOrAcceptanceToken::Credential(mdoc("x"))),
        1 => Some(CredentialOrAcceptanceToken::AcceptanceToken("t".into())),
        _ => None,
    };
    let r = CredentialIssuer::create_credential_success_response(&q, supplied, None);
    sx::reach(if r.is_ok() { "valid" } else { "refused" });
    sx::check(r.is_ok() == good, "C20.response-exactly-for-a-valid-proof");
}

/// The encoding of every format, with symbolic members.
fn c21_encode("jwt_vc_json", "jwt_vc_json-ld", "ldp_vc", "mso_mdoc") {
    let c = a_format("credential", true);
    let k = kind(&c);
    sx::reach(NAMES[k]);
    sx::check(c.get_format_name() == NAMES[k], "C21.format-name");
    let e = match CredentialFormatProfileOrEncoded::try_from(c.clone()) {
        Ok(e) => e,
        Err(_) => return sx::check(false, "C21.encoding-succeeds"),
    };
    let v = match serde_json::to_value(&e) {
        Ok(v) => v,
        Err(_) => return sx::check(false, "C21.json"),
    };
    issued(&v, &c, "C21.encoding");
    match serde_json::from_value::<CredentialFormatProfileOrEncoded>(v) {
        Ok(b) => sx::check(b == e, "C21.reading-yields-the-same"),
        Err(_) => sx::check(false, "C21.readable"),
    }
}
/// Texts with characters that JSON escapes and characters outside ASCII, of every length modulo three.
fn c21_text("encoded") {
    let t = match sx::choose("text", 5) {
        0 => String::new(),
        1 => sx::text("text", 1, Set::Ascii),
        2 => sx::text("text", 2, Set::Ascii),
        3 => sx::wide("text", 2),
        _ => sx::text("text", if sx::thorough() { 48 } else { 24 }, Set::Plain),
    };
    let c = match sx::choose("format", 4) {
        0 => CredentialFormatProfile::JwtVcJson { types: vec![t], credential_subject: None, order: None },
        1 => CredentialFormatProfile::JwtVcJsonLd { types: vec![t], credential_subject: None, order: None },
        2 => CredentialFormatProfile::LdpVc { context: vec![LinkedDataContext::String(t)], types: vec![], credential_subject: None, order: None },
        _ => mdoc(&t),
    };
    let e = match CredentialFormatProfileOrEncoded::try_from(c.clone()) {
        Ok(e) => e,
        Err(_) => return sx::check(false, "C21.encoding-succeeds"),
    };
    sx::reach("encoded");
    match serde_json::to_value(&e) {
        Ok(v) => issued(&v, &c, "C21.encoding"),
        Err(_) => sx::check(false, "C21.json"),
    }
}
/// An issued credential that is text is read as that text.
fn c21_read("read") {
    // the attempt to read it as object forks for every character (it describes the text in its error)
    let t = match sx::choose("kind", 3) {
        0 => sx::text_upto("text", 0, if sx::thorough() { 3 } else { 2 }, Set::Ascii),
        1 => sx::wide("text", 1),
        _ => sx::text("text", 20, Set::Digit),
    };
    match serde_json::from_value::<CredentialFormatProfileOrEncoded>(s(&t)) {
        Ok(CredentialFormatProfileOrEncoded::Encoded(x)) => {
            sx::reach("read");
            sx::check(sx::same(&x, &t), "C21.text-is-read-unchanged");
        }
        _ => sx::check(false, "C21.text-is-read-as-text"),
    }
}
}
