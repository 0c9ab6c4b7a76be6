//! Untrusted input never makes the library abort.  An abort (panic, overflow, unreachable code, memory
//! error) is reported by the executor itself; the entries only have to lead there.
use crate::data::*;
use crate::request::*;
use crate::sx::{self, Set};
use crate::token;
use openid4vci::access_token::*;
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::*;
use openid4vci::jwt::*;
use openid4vci::types::credential_request::*;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::Validatable;
use openid4vci::error::ErrorInformation;


fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    sx::bytes(name, &mut v);
    v
}
/// A hole in untrusted text: any ASCII text of up to n characters, or one character outside ASCII.
fn hole(name: &str, n: usize) -> String {
    match sx::choose(name, n as u64 + 2) as usize {
        0 => String::new(),
        k if k <= n => sx::text(name, k, Set::Ascii),
        _ => sx::wide(name, 1),
    }
}
/// Text outside ASCII: short, empty, or long with every alignment of its two-byte characters.
fn rough(name: &str, symbolic: bool) -> String {
    let k = sx::choose(name, 6);
    match k {
        0 => String::new(),
        1 if symbolic => sx::wide(name, 3),
        1 => "\u{e9}\u{130}\u{df}".into(),
        _ => {
            let mut t = if k & 1 == 1 { "x".to_string() } else { String::new() };
            t.push_str(&"\u{e9}".repeat(150));
            if symbolic {
                t.push_str(&sx::wide(name, 1));
            }
            if k >= 4 {
                t.push_str(&if symbolic { sx::text(name, 1, Set::Plain) } else { "y".into() });
            }
            t
        }
    }
}
/// Reports what happened, with the information of the error.
fn ends<T, E: Into<ErrorInformation>>(r: Result<T, E>) {
    match r {
        Ok(_) => sx::reach("result"),
        Err(e) => {
            let i: ErrorInformation = e.into();
            sx::reach("error");
            sx::observe("code", i.code as u64);
        }
    }
}
/// Everything that an issuer does with a credential request.
fn issue(q: &CredentialRequest, c: &Case) {
    let _ = q.validate();
    let _ = CredentialIssuer::pre_evaluate_credential_request(q).map_err(|e| e.information());
    let r = c.run_with(q);
    sx::observe("evaluated", r.is_ok() as u64);
    let _ = r.map_err(|e| e.information());
    let _ = CredentialIssuer::create_credential_success_response(q, None, None).map_err(|e| e.information());
    sx::reach("ended");
}
/// Everything that can be asked of a proof.
fn ask(p: &ProofJwt) {
    let d = document(vec![method(KID, Some(okp(vec![7; 32])))]);
    sx::observe("valid", p.validate().is_ok() as u64);
    let _ = p.verify();
    sx::observe("did", p.extract_did().is_ok() as u64);
    sx::observe("key", p.extract_key_and_alg(Some(&d)).is_ok() as u64);
    let _ = p.extract_key_and_alg(None);
    sx::observe("message", p.to_signable_message().is_ok() as u64);
    sx::observe("signature", p.extract_signature().is_ok() as u64);
    let _ = p.check_nonce(Some("n".into()));
    let _ = p.check_iss(None);
    let _ = p.check_aud("a");
    sx::reach("ended");
}
fn with_jwt(jwt: String) -> CredentialRequest {
    CredentialRequest { format: mdoc("d"), proof: Some(CredentialRequestProof { proof_type: "jwt".into(), jwt }) }
}
fn kid_case(kid: String) -> Case {
    Case { key: Some(("kid", kid)), ..Case::default() }
}

entries! {
/// Token requests: any short text, and text with holes.
fn c28_token("refused", "read") {
    let t = match sx::choose("text", 7) {
        0 => bytes("text", sx::choose("length", if sx::thorough() { 4 } else { 3 }) as usize),
        1 => format!("{{\"grant_type\":{{\"grant_type\":\"{}\",\"pre_authorized_code\":\"{}\"}}}}", PRE, hole("code", 1)).into_bytes(),
        2 => format!("{{\"grant_type\":{{\"grant_type\":\"{}\",\"pre_authorized_code\":\"c\",\"user_pin\":{}}}}}", PRE, hole("pin", 1)).into_bytes(),
        3 => format!("{{\"grant_type\":{{\"grant_type\":\"{}\"}}}}", hole("grant", 1)).into_bytes(),
        4 => format!("{{\"grant_type\":{}", hole("rest", 2)).into_bytes(),
        5 => {
            // numbers of every length; from 2^64 on they are read as floating point numbers, which are not symbolic
            let n = 1 + sx::choose("digits", 21) as usize;
            let d = if n <= 19 {
                let k = n.min(if sx::thorough() { 19 } else { 6 });
                format!("{}{}", &"1844674407370955161"[..n - k], sx::text("digits", k, Set::Digit))
            } else {
                format!("{}{}", &"18446744073709551610000000"[..n - 1], sx::choose("last", 10))
            };
            format!("{{\"grant_type\":{{\"grant_type\":\"{}\",\"pre_authorized_code\":\"c\",\"user_pin\":{}}}}}", PRE, d).into_bytes()
        }
        _ => {
            let mut b = b"{\"grant_type\":".to_vec();
            b.extend(bytes("bytes", 2));
            b
        }
    };
    let r: AccessTokenRequest = match serde_json::from_slice(&t) {
        Ok(r) => r,
        Err(_) => return sx::reach("refused"),
    };
    sx::reach("read");
    let _ = r.validate();
    for offer in [None, Some(Case::default().offer())] {
        let e = AccessToken::evaluate_access_token_request(&r, offer, Some(token::options(Some(1))));
        sx::observe("granted", e.is_ok() as u64);
        let _ = e.map_err(|e| e.information());
    }
}
/// Credential requests: any short text, and text with holes.
fn c28_request("refused", "ended") {
    let t = match sx::choose("text", 6) {
        0 => bytes("text", sx::choose("length", if sx::thorough() { 4 } else { 3 }) as usize),
        1 => format!("{{\"format\":\"mso_mdoc\",\"doctype\":\"{}\"}}", hole("doctype", 1)).into_bytes(),
        2 => format!("{{\"format\":\"{}\",\"doctype\":\"d\"}}", hole("format", 1)).into_bytes(),
        3 => format!("{{\"format\":\"mso_mdoc\",\"doctype\":\"d\",\"proof\":{}}}", hole("proof", 1)).into_bytes(),
        4 => format!("{{\"format\":\"mso_mdoc\",\"doctype\":\"d\",\"proof\":{{\"proof_type\":\"jwt\",\"jwt\":\"{}\"}}}}", hole("jwt", 1)).into_bytes(),
        _ => {
            let mut b = b"{\"format\":\"jwt_vc_json\",\"types\":[\"".to_vec();
            b.extend(bytes("bytes", 1));
            b.extend(b"\"]}");
            b
        }
    };
    match serde_json::from_slice::<CredentialRequest>(&t) {
        Ok(r) => issue(&r, &Case::default()),
        Err(_) => sx::reach("refused"),
    }
}
/// Proofs: any short text.
fn c28_proof_text("refused", "ended") {
    let t = match sx::choose("text", 4) {
        0 => sx::text("text", sx::choose("length", if sx::thorough() { 9 } else { 7 }) as usize, Set::Ascii),
        1 => format!("{}{}", sx::wide("text", 1), hole("rest", 2)),
        2 => format!("{}.{}", sx::text("header", 4, Set::Url), sx::text("body", 4, Set::Url)),
        _ => format!("{}.{}.", hole("header", 2), hole("body", 2)),
    };
    sx::reach(if t.parse::<ProofJwt>().is_ok() { "ended" } else { "refused" });
    issue(&with_jwt(t), &Case::default());
}
/// Proofs: some bytes of the JSON of header or body are arbitrary.
fn c28_proof_bytes("refused", "ended") {
    let c = Case::default();
    let (mut h, mut b) = (c.header().into_bytes(), c.body().into_bytes());
    let n = if sx::thorough() { 2 } else { 1 };
    let at = sx::choose("position", 8) as usize;
    let part = if sx::flag("body") { &mut b } else { &mut h };
    // positions in keys, values and structure
    let i = (part.len() * at / 8).min(part.len() - n);
    let x = bytes("bytes", n);
    part[i..i + n].copy_from_slice(&x);
    match format!("{}.{}.s", b64(&h), b64(&b)).parse::<ProofJwt>() {
        Ok(p) => ask(&p),
        Err(_) => sx::reach("refused"),
    }
}
/// Key ids: any short text, and DID URLs with holes.
fn c28_key_id("ended") {
    let k = match sx::choose("text", 8) {
        0 => sx::text("text", sx::choose("length", if sx::thorough() { 7 } else { 5 }) as usize, Set::Plain),
        1 => format!("did:{}", sx::text("text", sx::choose("length", if sx::thorough() { 5 } else { 4 }) as usize, Set::Plain)),
        2 => format!("did:ex:{}", sx::text("text", if sx::thorough() { 4 } else { 3 }, Set::Plain)),
        3 => format!("did:ex:holder{}", sx::text("text", if sx::thorough() { 4 } else { 3 }, Set::Plain)),
        4 => format!("did:ex:holder#{}", sx::text("text", 2, Set::Plain)),
        5 => format!("did:ex:{}#k1", sx::wide("text", 2)),
        6 => format!("{}#k1", sx::wide("text", 2)),
        _ => format!("did:ex:holder?{}#k1", sx::text("text", 2, Set::Plain)),
    };
    let p = ProofJwt {
        header: ProofJwtHeader { typ: "openid4vci-proof+jwt".into(), alg: ProofJwtAlgorithm::EdDSA, additional_header: Some(ProofJwtAdditionalHeader::KeyId(k)) },
        body: ProofJwtBody::default(),
        signature: Some("s".into()),
    };
    ask(&p);
}
/// Key ids in a whole credential request.
fn c28_key_id_request("ended") {
    let k = match sx::choose("text", 4) {
        0 => sx::text("text", 2, Set::Plain),
        1 => format!("did:ex:{}", sx::text("text", 2, Set::Plain)),
        2 => format!("did:ex:holder{}", sx::text("text", 2, Set::Plain)),
        _ => sx::wide("text", 1),
    };
    let c = kid_case(k);
    issue(&c.request(), &c);
}
/// Keys: JSON Web Keys with holes.
fn c28_key("ended") {
    let j = match sx::choose("text", 6) {
        0 => sx::text("text", sx::choose("length", 4) as usize, Set::Ascii),
        1 => format!("{{\"kty\":\"{}\",\"crv\":\"Ed25519\",\"x\":\"AAAA\"}}", hole("kty", 1)),
        2 => format!("{{\"kty\":\"OKP\",\"crv\":\"{}\",\"x\":\"AAAA\"}}", hole("crv", 1)),
        3 => format!("{{\"kty\":\"OKP\",\"crv\":\"Ed25519\",\"x\":\"{}\"}}", sx::text("x", sx::choose("length", 6) as usize, Set::Plain)),
        4 => format!("{{\"kty\":\"EC\",\"alg\":\"EdDSA\",\"x\":\"{}\"}}", sx::text("x", sx::choose("length", 4) as usize, Set::Plain)),
        _ => format!("{{\"kty\":\"EC\",\"alg\":\"{}\"}}", hole("alg", 1)),
    };
    let p = ProofJwt {
        header: ProofJwtHeader { typ: "openid4vci-proof+jwt".into(), alg: ProofJwtAlgorithm::EdDSA, additional_header: Some(ProofJwtAdditionalHeader::Jwk(j)) },
        body: ProofJwtBody::default(),
        signature: Some("s".into()),
    };
    ask(&p);
}
/// Proofs that were not parsed but read as JSON or built: every signature and body text.
fn c28_proof_parts("ended") {
    let mut p = ProofJwt {
        header: ProofJwtHeader { typ: hole("typ", 1), alg: ProofJwtAlgorithm::None, additional_header: None },
        body: ProofJwtBody::default(),
        signature: if sx::flag("signed") { Some(hole("signature", 2)) } else { None },
    };
    if sx::flag("nonce") {
        p.body.nonce = hole("nonce", 1);
    } else {
        p.body.audience = hole("audience", 1);
    }
    ask(&p);
}
/// Names of error codes, token types and proof algorithms: any short text.
fn c28_names("ended") {
    let t = match sx::choose("kind", 4) {
        3 => rough("text", true),
        0 => sx::text_upto("text", 0, 40, Set::Ascii),
        1 => sx::wide("text", 8),
        _ => format!("{}{}", sx::text_upto("text", 0, 3, Set::Ascii), sx::wide("text", 2)),
    };
    match sx::choose("type", 3) {
        0 => ends(AccessTokenErrorCode::try_from(t).map_err(|e| e.information())),
        1 => ends(CredentialIssuerErrorCode::try_from(t).map_err(|e| e.information())),
        _ => ends(AccessTokenType::try_from(t).map_err(|e| e.information())),
    }
    sx::reach("ended");
}
/// Long texts outside ASCII, with every alignment of their characters, in every place.
fn c28_long("ended", "accepted", "refused") {
    let place = sx::choose("place", 22);
    // types are described character by character
    let t = rough("text", place != 14 && place != 15);
    let mut c = Case::default();
    let mut q = None;
    match place {
        0 => c.key = Some(("kid", t)),
        1 => c.key = Some(("kid", format!("did:ex:{}", t))),
        2 => c.key = Some(("kid", format!("did:ex:holder#{}", t))),
        3 => c.key = Some(("kid", format!("did:ex:holder?{}#k1", t))),
        4 => c.key = Some(("kid", format!("#{}", t))),
        5 => c.key = Some(("jwk", t)),
        6 => c.key = Some(("x5c", t)),
        7 => c.nonce = t,
        8 => {
            c.nonce = t.clone();
            c.nonce_options.as_mut().unwrap().expected = t;
        }
        9 => c.aud = t,
        10 => {
            c.aud = t.clone();
            c.issuer = t;
        }
        11 => {
            c.auth = true;
            c.iss = Some(t);
        }
        12 => {
            c.iss = Some(t.clone());
            c.client = Some(t);
        }
        13 => c.client = Some(t),
        14 => c.typ = t,
        15 => c.proof_type = t,
        16 => c.alg = t,
        17 => c.signature = Some(t),
        18 => c.format = mdoc(&t),
        19 => q = Some(with_jwt(t)),
        20 => q = Some(with_jwt(format!("{}.{}.{}", b64(t.as_bytes()), t, t))),
        _ => {
            let (k, n) = (sx::flag("code"), sx::flag("fits"));
            let r = Src::O(vec![("grant_type", Src::O(if k {
                vec![("grant_type", Src::S(PRE.into())), ("pre_authorized_code", Src::S(t.clone()))]
            } else {
                vec![("grant_type", Src::S(t.clone()))]
            }))]);
            let mut o = c.offer();
            if n {
                o.grants.pre_authorized_code_flow = Some(PreAuthorizedCodeFlow { code: t, user_pin_required: None });
            }
            match read::<AccessTokenRequest>(r) {
                Some(r) => {
                    let e = AccessToken::evaluate_access_token_request(&r, Some(o), None);
                    sx::reach(if e.is_ok() { "accepted" } else { "refused" });
                    let _ = e.map_err(|e| e.information());
                }
                None => sx::reach("refused"),
            }
            return;
        }
    }
    let q = q.unwrap_or_else(|| c.request());
    if let Some(p) = &q.proof {
        if let Ok(p) = p.jwt.parse::<ProofJwt>() {
            ask(&p);
        }
    }
    issue(&q, &c);
}
/// Timestamps in a proof: the ends of what can be represented, and text with holes.
fn c28_times("refused", "ended") {
    const EDGES: [&str; 10] = [
        "0000-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999Z", "+262143-12-31T23:59:59Z", "-262144-01-01T00:00:00Z", "+262144-01-01T00:00:00Z",
        "2016-12-31T23:59:60Z", "1970-01-01T00:00:00+23:59", "1970-01-01T00:00:00-23:59", "+262142-12-31T23:59:59-23:59", "-262143-01-01T00:00:00+23:59",
    ];
    let t = match sx::choose("kind", 4) {
        0 => EDGES[sx::choose("edge", 10) as usize].to_string(),
        1 => format!("2023-05-13T{}:46:40Z", sx::text("hour", 2, Set::Plain)),
        2 => format!("2023-{}-13T17:46:40Z", sx::text("month", 2, Set::Digit)),
        _ => format!("2023-05-13T17:46:40{}", sx::text("zone", 1, Set::Plain)),
    };
    let mut c = Case::default();
    match sx::choose("member", 2) {
        0 => c.nbf = Some(t),
        _ => c.exp = Some(t),
    }
    let days = [0, 19490, 24855, 2_932_896][sx::choose("day", 4) as usize];
    c.now = (days * 86400 + 5, 999_999_999);
    sx::set_now(c.now.0, c.now.1);
    match c.jwt().parse::<ProofJwt>() {
        Ok(p) => {
            sx::observe("valid", p.verify().is_ok() as u64);
            issue(&c.request(), &c);
        }
        Err(_) => sx::reach("refused"),
    }
}
/// Nonces that were created at the ends of what can be represented, with every lifetime.
fn c28_nonce_times("ended") {
    let mut c = Case::default();
    let created = match sx::choose("created", 4) {
        0 => chrono::DateTime::<chrono::Utc>::MAX_UTC,
        1 => chrono::DateTime::<chrono::Utc>::MIN_UTC,
        2 => chrono::DateTime::<chrono::Utc>::MAX_UTC - chrono::Duration::seconds(u32::MAX as i64),
        _ => utc((0, 0)),
    };
    c.nonce_options = Some(NonceOptions {
        expected: "n-1".into(),
        created: (created.timestamp(), created.timestamp_subsec_nanos()),
        // days are split, because the calendar divides by a constant
        lifetime: (sx::choose("days", 8) * 7101 * 86400 + sx::int("seconds", 17)).min(u32::MAX as u64) as u32,
    });
    issue(&c.request(), &c);
}
}
