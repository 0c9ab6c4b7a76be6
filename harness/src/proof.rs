//! Proofs: key, message, signature and parsing.
use crate::data::*;
use crate::request::*;
use crate::sx::{self, Set};
use openid4vci::credential_issuer::error::CredentialIssuerError as E;
use openid4vci::jwt::error::JwtError as J;
use openid4vci::jwt::*;
use openid4vci::validate::Validatable;
use ssi_dids::{Document, VerificationMethod, VerificationMethodMap};
use ssi_jwk::{Algorithm, Base64urlUInt, ECParams, OctetParams, Params, RSAParams, SymmetricParams, JWK};

fn header(h: Option<ProofJwtAdditionalHeader>, alg: ProofJwtAlgorithm) -> ProofJwtHeader {
    ProofJwtHeader { typ: "openid4vci-proof+jwt".into(), alg, additional_header: h }
}
fn proof(h: ProofJwtHeader) -> ProofJwt {
    ProofJwt { header: h, body: ProofJwtBody::default(), signature: None }
}
fn an_alg() -> ProofJwtAlgorithm {
    match sx::choose("alg", 4) {
        0 => ProofJwtAlgorithm::EdDSA,
        1 => ProofJwtAlgorithm::ES256,
        2 => ProofJwtAlgorithm::HS512,
        _ => ProofJwtAlgorithm::ECDHES,
    }
}
fn key_bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    sx::bytes(name, &mut v);
    v
}
/// Extraction through the proof and through its header gives the same.
fn extract(p: &ProofJwt, d: Option<&Document>) -> Result<(Vec<u8>, ProofJwtAlgorithm), J> {
    let a = p.extract_key_and_alg(d);
    let b = p.header.extract_key_and_alg(d);
    sx::check(match (&a, &b) {
        (Ok(x), Ok(y)) => sx::same_bytes(&x.0, &y.0) && x.1 == y.1,
        (Err(_), Err(_)) => true,
        _ => false,
    }, "C12.proof-and-header-agree");
    a
}

/// A JSON Web Key of every kind, and what is expected of it.
enum Expect {
    Key(Vec<u8>),
    Unsupported,
    NoX,
}
fn a_jwk() -> (JWK, Expect) {
    const ALGS: [Option<Algorithm>; 6] =
        [None, Some(Algorithm::EdDSA), Some(Algorithm::ES256), Some(Algorithm::None), Some(Algorithm::HS256), Some(Algorithm::PS256)];
    let algorithm = ALGS[sx::choose("jwk alg", 6) as usize];
    let x = key_bytes("x", 4);
    let (params, e) = match sx::choose("kty", 6) {
        0 => {
            let curve = if sx::flag("ed25519") { "Ed25519".to_string() } else { sx::text("crv", 7, Set::Plain) };
            (Params::OKP(OctetParams { curve, public_key: Base64urlUInt(x.clone()), private_key: None }), Expect::Key(x))
        }
        k @ 1..=3 => {
            let curve = match sx::choose("crv", 3) {
                0 => None,
                1 => Some("P-256".to_string()),
                _ => Some(sx::text("crv", 5, Set::Plain)),
            };
            let y = key_bytes("y", 4);
            let e = ECParams {
                curve,
                x_coordinate: if k == 2 { None } else { Some(Base64urlUInt(x.clone())) },
                y_coordinate: if k == 3 { None } else { Some(Base64urlUInt(y)) },
                ecc_private_key: None,
            };
            let want = if algorithm != Some(Algorithm::EdDSA) {
                Expect::Unsupported
            } else if k == 2 {
                Expect::NoX
            } else {
                Expect::Key(x)
            };
            (Params::EC(e), want)
        }
        4 => {
            let mut r = RSAParams::default();
            r.modulus = Some(Base64urlUInt(x));
            (Params::RSA(r), Expect::Unsupported)
        }
        _ => (Params::Symmetric(SymmetricParams { key_value: Some(Base64urlUInt(x)) }), Expect::Unsupported),
    };
    let mut j = JWK::from(params);
    j.algorithm = algorithm;
    (j, e)
}
fn expect(r: Result<(Vec<u8>, ProofJwtAlgorithm), J>, e: Expect, alg: ProofJwtAlgorithm) {
    match (r, e) {
        (Ok((k, a)), Expect::Key(x)) => {
            sx::reach("key");
            sx::check(sx::same_bytes(&k, &x), "C12.key");
            sx::check(a == alg, "C12.algorithm");
        }
        (Err(J::UnsupportedAlgorithm { .. }), Expect::Unsupported) => sx::reach("unsupported"),
        (Err(J::EdDSAHasNoXCoordinate), Expect::NoX) => sx::reach("no x"),
        _ => sx::check(false, "C12.kind-of-key"),
    }
}

fn relation(d: &mut Document, k: u64) -> &mut Option<Vec<VerificationMethod>> {
    match k {
        0 => &mut d.verification_method,
        1 => &mut d.authentication,
        2 => &mut d.assertion_method,
        3 => &mut d.key_agreement,
        4 => &mut d.capability_invocation,
        5 => &mut d.capability_delegation,
        _ => &mut d.public_key,
    }
}

/// Writes a JSON text for the message, independent of the code under test only in how the parts are joined.
fn text_of(p: &ProofJwt) -> String {
    let h = serde_json::to_string(&p.header).unwrap_or_default();
    let b = serde_json::to_string(&p.body).unwrap_or_default();
    format!("{}.{}", h, b)
}
fn dots(t: &str) -> usize {
    let mut n = 0;
    for b in t.bytes() {
        n += (b == b'.') as usize;
    }
    n
}
fn after_second_dot(t: &str) -> &str {
    let a = t.find('.').unwrap_or(0) + 1;
    let b = t[a..].find('.').unwrap_or(0) + a + 1;
    &t[b..]
}

/// A proof; one member is any ASCII text, the others are plain text that is symbolic if the bounds allow it.
fn a_proof(symbolic: bool) -> ProofJwt {
    let t = |n: &str| if symbolic { sx::text(n, 1, Set::Plain) } else { n.to_string() };
    let special = sx::choose("special", 5);
    let esc = |k: u64, n: &str| if special == k { sx::text(n, if sx::thorough() { 3 } else { 2 }, Set::Ascii) } else { t(n) };
    let key = match sx::choose("key", 4) {
        0 => None,
        1 => Some(ProofJwtAdditionalHeader::KeyId(esc(1, "kid"))),
        2 => Some(ProofJwtAdditionalHeader::Jwk(esc(1, "jwk"))),
        _ => Some(ProofJwtAdditionalHeader::X5c(t("x5c"))),
    };
    ProofJwt {
        header: ProofJwtHeader { typ: t("typ"), alg: an_alg(), additional_header: key },
        body: ProofJwtBody {
            issuer: if sx::flag("iss") { Some(esc(2, "iss")) } else { None },
            audience: esc(3, "aud"),
            subject: if sx::flag("sub") { Some(t("sub")) } else { None },
            issued_at: utc((1_684_000_000, [0, 123_000_000][(special == 4) as usize])),
            nonce: t("nonce"),
            not_before: if special == 4 { Some(utc((1_684_000_000, 0))) } else { None },
            expires_at: if special == 4 { Some(utc((1_684_000_000, 5))) } else { None },
        },
        signature: None,
    }
}

entries! {
/// Three methods with symbolic ids; the key must be one of a method with exactly that id.
fn c12_method("found", "not found") {
    let mut d = document(vec![]);
    let mut ids = vec![];
    let mut v = vec![];
    for n in ["id 1", "id 2", "id 3"] {
        let f = sx::text(n, 1, Set::Letter);
        let (id, full) = match sx::choose(n, 3) {
            0 => (format!("did:ex:holder#{}", f), format!("did:ex:holder#{}", f)),
            1 => (format!("#{}", f), format!("did:ex:holder#{}", f)),
            _ => (format!("did:ex:other#{}", f), format!("did:ex:other#{}", f)),
        };
        let k = key_bytes(n, 2);
        v.push(method(&id, Some(okp(k.clone()))));
        ids.push((full, k));
    }
    d.verification_method = Some(v);
    let f = sx::text("kid", 1, Set::Letter);
    let kid = format!("{}{}", ["did:ex:holder#", "did:ex:other#", "did:ex:holde#", "did:ex:holder"][sx::choose("did", 4) as usize], f);
    let alg = an_alg();
    let p = proof(header(Some(ProofJwtAdditionalHeader::KeyId(kid.clone())), alg.clone()));
    match extract(&p, Some(&d)) {
        Ok((k, a)) => {
            sx::reach("found");
            let mut ok = false;
            for (id, key) in &ids {
                ok |= sx::same(id, &kid) & sx::same_bytes(key, &k);
            }
            sx::check(ok, "C12.key-of-the-method-with-that-id");
            sx::check(a == alg, "C12.algorithm-of-the-header");
        }
        Err(e) => {
            sx::reach("not found");
            let mut none = true;
            for (id, _) in &ids {
                none &= !sx::same(id, &kid);
            }
            sx::check(none, "C12.existing-method-is-found");
            sx::check(matches!(e, J::UnableToResolveDidInDidDocument { .. }), "C12.error-for-unknown-id");
        }
    }
}
/// The method may be embedded in any relationship of the document.
fn c12_relations("found", "not found") {
    let place = sx::choose("relation", 7);
    let same = sx::flag("same id");
    let k = key_bytes("key", 3);
    let mut d = Document::new(DID);
    for r in 0..7 {
        let mut v = vec![VerificationMethod::DIDURL(KID.parse().unwrap()), method(&format!("{}x", KID), Some(okp(vec![r as u8; 3])))];
        if r == place {
            v.push(method(if same { KID } else { "did:ex:holder#k2" }, Some(okp(k.clone()))));
        }
        *relation(&mut d, r) = Some(v);
    }
    let p = proof(header(Some(ProofJwtAdditionalHeader::KeyId(KID.into())), ProofJwtAlgorithm::EdDSA));
    match extract(&p, Some(&d)) {
        Ok((b, _)) => {
            sx::reach("found");
            sx::check(same & sx::same_bytes(&b, &k), "C12.key-of-the-embedded-method");
        }
        Err(_) => {
            sx::reach("not found");
            sx::check(!same, "C12.embedded-method-is-found");
        }
    }
}
/// Every kind of key in the referenced method.
fn c12_kinds("key", "unsupported", "no x") {
    let (j, e) = a_jwk();
    let alg = an_alg();
    let p = proof(header(Some(ProofJwtAdditionalHeader::KeyId(KID.into())), alg.clone()));
    let d = document(vec![method("did:ex:holder#k0", Some(okp(vec![9; 4]))), method(KID, Some(j))]);
    expect(extract(&p, Some(&d)), e, alg);
}
/// Methods without a usable key, or with another encoding of the key.
fn c12_material("usable", "unusable") {
    let mut m = VerificationMethodMap { id: KID.into(), type_: "JsonWebKey2020".into(), controller: DID.into(), ..Default::default() };
    let k = sx::choose("material", 7);
    let mut want: Option<Vec<u8>> = None;
    let hex = |v: &str| Some([("publicKeyHex".to_string(), s(v))].into_iter().collect());
    match k {
        0 => {}
        1 => {
            m.type_ = "Ed25519VerificationKey2018".into();
            m.public_key_base58 = Some("2Dr".into());
            want = bs58("2Dr");
        }
        2 => m.public_key_base58 = Some("2Dr".into()),
        3 => {
            m.public_key_base58 = Some("2Dr".into());
            m.public_key_jwk = Some(okp(vec![1; 4]));
        }
        4 => {
            m.type_ = "Ed25519VerificationKey2018".into();
            m.property_set = hex("0xa1b2c3");
            want = Some(vec![0xa1, 0xb2, 0xc3]);
        }
        5 => {
            m.type_ = "Ed25519VerificationKey2018".into();
            m.property_set = hex("zz");
        }
        _ => m.public_key_base58 = Some("0OIl".into()),
    }
    let p = proof(header(Some(ProofJwtAdditionalHeader::KeyId(KID.into())), ProofJwtAlgorithm::EdDSA));
    let d = document(vec![method("did:ex:holder#k0", Some(okp(vec![9; 4]))), VerificationMethod::Map(m)]);
    match (extract(&p, Some(&d)), want) {
        (Ok((b, _)), Some(w)) => {
            sx::reach("usable");
            sx::check(sx::same_bytes(&b, &w), "C12.other-encoding-of-the-key");
        }
        (Err(J::UnableToMapVerificationMethodToJwk { .. }), None) => sx::reach("unusable"),
        _ => sx::check(false, "C12.method-without-usable-key"),
    }
}
/// Headers without a key that could be looked up.
fn c12_absent("no key", "no document", "x5c", "not a did url") {
    let kind = sx::choose("kind", 4);
    let text = if kind == 2 { sx::any("text", Set::Plain) } else { sx::text_upto("text", 0, 4, Set::Plain) };
    let d = document(vec![method(KID, Some(okp(vec![9; 4]))), method("", Some(okp(vec![8; 4])))]);
    match kind {
        0 => {
            sx::reach("no key");
            sx::check(extract(&proof(header(None, an_alg())), Some(&d)) == Err(J::NoKeyFoundInProof), "C12.no-key");
        }
        1 => {
            sx::reach("no document");
            let p = proof(header(Some(ProofJwtAdditionalHeader::KeyId(KID.into())), an_alg()));
            sx::check(extract(&p, None) == Err(J::NoDidDocumentProvidedForKidAsDid), "C12.no-document");
        }
        2 => {
            sx::reach("x5c");
            let p = proof(header(Some(ProofJwtAdditionalHeader::X5c(text.clone())), an_alg()));
            let d = if sx::flag("document") { Some(&d) } else { None };
            sx::check(matches!(extract(&p, d), Err(J::UnsupportedKeyTypeInJwtHeader { key_type, .. }) if sx::same(&key_type, &text)),
                "C12.certificate-chain");
        }
        _ => {
            sx::reach("not a did url");
            let p = proof(header(Some(ProofJwtAdditionalHeader::KeyId(text.clone())), an_alg()));
            if !sx::same(&text, KID) {
                sx::check(extract(&p, Some(&d)).is_err() | text.is_empty(), "C12.other-key-ids-yield-no-key");
            }
        }
    }
}
/// A key given as JWK.
fn c12_jwk("key", "unsupported", "no x") {
    let (j, e) = a_jwk();
    let alg = an_alg();
    let text = match serde_json::to_string(&j) {
        Ok(t) => t,
        Err(_) => return,
    };
    let p = proof(header(Some(ProofJwtAdditionalHeader::Jwk(text)), alg.clone()));
    let d = document(vec![method(KID, Some(okp(vec![9; 4])))]);
    let d = if sx::flag("document") { Some(&d) } else { None };
    expect(extract(&p, d), e, alg);
}
/// Text that is not a JWK.
fn c12_jwk_garbage("refused") {
    let t = match sx::choose("shape", 5) {
        0 => sx::text_upto("text", 0, 3, Set::Ascii),
        1 => format!("{{{}}}", sx::text("text", 2, Set::Ascii)),
        2 => format!("{{\"kty\":\"{}\"}}", sx::text("kty", 3, Set::Plain)),
        3 => format!("{{\"kty\":\"OKP\",\"crv\":\"Ed25519\",\"x\":\"{}\"}}", sx::text("x", 1, Set::Plain)),
        _ => format!("{{\"kty\":\"OKP\",\"{}\":\"Ed25519\"}}", sx::text("crv", 3, Set::Plain)),
    };
    let p = proof(header(Some(ProofJwtAdditionalHeader::Jwk(t.clone())), ProofJwtAlgorithm::EdDSA));
    match extract(&p, None) {
        Ok(_) => sx::check(false, "C12.no-key-from-garbage"),
        Err(J::UnableToTransformIntoJoseItem { original_string, .. }) => {
            sx::reach("refused");
            sx::check(sx::same(&original_string, &t), "C12.error-carries-the-jwk");
        }
        Err(J::UnsupportedAlgorithm { .. }) => {}
        Err(_) => sx::check(false, "C12.garbage-is-refused-as-such"),
    }
}
/// The same rules hold while a request is evaluated.
fn c12_evaluate("accepted", "refused") {
    let f = sx::text("id", 1, Set::Letter);
    let g = sx::text("kid", 1, Set::Letter);
    let k = key_bytes("key", 3);
    let id = format!("{}{}", ["did:ex:holder#", "#", "did:ex:other#"][sx::choose("id", 3) as usize], f);
    let kid = format!("did:ex:holder#{}", g);
    let has_key = sx::flag("has key");
    let mut c = Case { key: Some(("kid", kid)), ..Case::default() };
    let given = sx::flag("document");
    c.document = if given {
        Some(document(vec![method("did:ex:holder#1", Some(okp(vec![1; 3]))), method(&id, if has_key { Some(okp(k.clone())) } else { None })]))
    } else {
        None
    };
    let matches = given & has_key & sx::same(&f, &g) & !id.starts_with("did:ex:other");
    match c.run() {
        Ok(r) => {
            sx::reach("accepted");
            sx::check(matches, "C12.accepted-only-with-the-referenced-key");
            sx::check(match &r.proof_of_possession {
                Some(p) => sx::same_bytes(&p.public_key, &k),
                None => false,
            }, "C12.accepted-with-the-referenced-key");
        }
        Err(e) => {
            sx::reach("refused");
            sx::check(!matches, "C12.referenced-key-is-accepted");
            sx::check(matches!(e, E::JwtError(J::NoDidDocumentProvidedForKidAsDid | J::UnableToResolveDidInDidDocument { .. }
                | J::UnableToMapVerificationMethodToJwk { .. })), "C12.refused-for-the-key");
        }
    }
}

/// The message of a proof, signed or not.
fn c13_message("signed", "unsigned") {
    let mut p = a_proof(true);
    if sx::flag("signed") {
        sx::reach("signed");
        p.signature = Some(sx::text_upto("signature", 0, 3, Set::Ascii));
    } else {
        sx::reach("unsigned");
    }
    match p.to_signable_message() {
        Ok(m) => sx::check(sx::same_bytes(&m, text_of(&p).as_bytes()), "C13.message-is-header-dot-body"),
        Err(_) => sx::check(false, "C13.every-proof-has-a-message"),
    }
}
/// The signature of a proof.
fn c13_signature("signed", "unsigned") {
    let mut p = a_proof(false);
    if sx::flag("signed") {
        sx::reach("signed");
        let g = match sx::choose("length", 4) {
            0 => String::new(),
            1 => sx::text("signature", 3, Set::Ascii),
            2 => sx::wide("signature", 2),
            _ => sx::text("signature", 86, Set::Url),
        };
        p.signature = Some(g.clone());
        match p.extract_signature() {
            Ok(b) => sx::check(sx::same_bytes(&b, g.as_bytes()), "C13.signature-is-exact"),
            Err(_) => sx::check(false, "C13.signed-proof-has-a-signature"),
        }
    } else {
        sx::reach("unsigned");
        unsigned(&p, p.extract_signature());
    }
}
/// Proofs as they are received, by themselves and as part of a request.
fn c13_received("signed", "unsigned", "unsigned and dotted") {
    let mut c = Case::default();
    match sx::choose("special", 4) {
        0 => c.aud = sx::text("aud", 3, Set::Plain),
        1 => c.iss = Some(sx::text("iss", 3, Set::Plain)),
        2 => c.nonce = sx::text("nonce", 3, Set::Plain),
        _ => c.key = Some(("kid", format!("did:ex:{}", sx::text("kid", 3, Set::Letter)))),
    }
    if sx::flag("no dot otherwise") && c.aud == ISSUER {
        c.aud = "issuer".into();
    }
    c.issuer = c.aud.clone();
    c.nonce_options.as_mut().unwrap().expected = c.nonce.clone();
    if let Some((_, k)) = &c.key {
        c.document = Some(document(vec![method(k, Some(okp(vec![1; 3])))]));
    }
    if sx::flag("unsigned") {
        c.signature = None;
    } else {
        let n = [1usize, 4, 64][sx::choose("length", 3) as usize];
        c.signature = Some(sx::text("signature", n, Set::Url));
    }
    let p = match c.jwt().parse::<ProofJwt>() {
        Ok(p) => p,
        Err(_) => return sx::check(false, "C13.proof-is-readable"),
    };
    let r = c.run();
    match &c.signature {
        Some(g) => {
            sx::reach("signed");
            match p.extract_signature() {
                Ok(b) => sx::check(sx::same_bytes(&b, g.as_bytes()), "C13.signature-as-received"),
                Err(_) => sx::check(false, "C13.received-signature-is-found"),
            }
            match r {
                Ok(r) => {
                    let q = match r.proof_of_possession {
                        Some(q) => q,
                        None => return sx::check(false, "C13.proof-of-possession"),
                    };
                    sx::check(sx::same_bytes(&q.signature, g.as_bytes()), "C13.evaluated-signature");
                    sx::check(sx::same_bytes(&q.message, text_of(&p).as_bytes()), "C13.evaluated-message");
                }
                Err(_) => sx::check(false, "C13.request-is-accepted"),
            }
        }
        None => {
            sx::reach("unsigned");
            unsigned(&p, p.extract_signature());
            unsigned(&p, match r {
                Ok(r) => Ok(r.proof_of_possession.map(|q| q.signature).unwrap_or_default()),
                Err(E::JwtError(e)) => Err(e),
                Err(_) => return sx::check(false, "C13.unsigned-request-is-refused-for-its-signature"),
            });
        }
    }
}

/// Values of the members of a proof.
fn c14_values("read", "signed", "unsigned") {
    let mut c = Case::default();
    match sx::choose("special", 6) {
        0 => c.aud = sx::any("aud", Set::Plain),
        1 => c.iss = Some(sx::any("iss", Set::Plain)),
        2 => c.nonce = sx::any("nonce", Set::Plain),
        3 => c.typ = sx::any("typ", Set::Plain),
        4 => c.key = None,
        _ => c.key = Some((["kid", "jwk", "x5c"][sx::choose("key", 3) as usize], sx::any("key", Set::Plain))),
    }
    let nbf = if sx::flag("nbf") { Some(stamp("nbf", 1)) } else { None };
    let exp = if sx::flag("exp") { Some(stamp("exp", 2)) } else { None };
    c.nbf = nbf.clone().map(|x| x.0);
    c.exp = exp.clone().map(|x| x.0);
    c.signature = match sx::choose("signature", 4) {
        0 => None,
        1 => Some(String::new()),
        2 => Some(sx::text("signature", 20, Set::Url)),
        _ => {
            let t = sx::text("signature", 2, Set::Ascii);
            let mut ok = true;
            for b in t.bytes() {
                ok &= b != b'.';
            }
            sx::assume(ok);
            Some(t)
        }
    };
    let p = match c.jwt().parse::<ProofJwt>() {
        Ok(p) => p,
        Err(_) => return sx::check(false, "C14.stated-proof-is-read"),
    };
    sx::reach("read");
    sx::reach(if c.signature.is_some() { "signed" } else { "unsigned" });
    sx::check(sx::same(&p.header.typ, &c.typ), "C14.typ");
    sx::check(p.header.alg == ProofJwtAlgorithm::EdDSA, "C14.alg");
    sx::check(match (&p.header.additional_header, &c.key) {
        (None, None) => true,
        (Some(ProofJwtAdditionalHeader::KeyId(v)), Some(("kid", w))) => sx::same(v, w),
        (Some(ProofJwtAdditionalHeader::Jwk(v)), Some(("jwk", w))) => sx::same(v, w),
        (Some(ProofJwtAdditionalHeader::X5c(v)), Some(("x5c", w))) => sx::same(v, w),
        _ => false,
    }, "C14.key");
    sx::check(sx::same_opt(&p.body.issuer, &c.iss), "C14.iss");
    sx::check(sx::same(&p.body.audience, &c.aud), "C14.aud");
    sx::check(p.body.subject.is_none(), "C14.sub");
    sx::check(p.body.issued_at.timestamp() == 1_536_888_255, "C14.iat");
    sx::check(sx::same(&p.body.nonce, &c.nonce), "C14.nonce");
    let t = |d: Option<chrono::DateTime<chrono::Utc>>| d.map(|x| (x.timestamp(), x.timestamp_subsec_nanos()));
    sx::check(t(p.body.not_before) == nbf.map(|x| x.1), "C14.nbf");
    sx::check(t(p.body.expires_at) == exp.map(|x| x.1), "C14.exp");
    sx::check(sx::same_opt(&p.signature, &c.signature), "C14.signature");
}
/// Characters written as JSON escapes.
fn c14_escapes("read") {
    let n = 2;
    let v = sx::text("nonce", n, Set::Ascii);
    let mut e = String::new();
    for b in v.bytes() {
        const H: &[u8; 16] = b"0123456789abcdef";
        e.push_str("\\u00");
        e.push(H[(b >> 4) as usize] as char);
        e.push(H[(b & 15) as usize] as char);
    }
    let c = Case { nonce: e, iss: Some("\\\"\\n\\u00e9".into()), ..Case::default() };
    match c.jwt().parse::<ProofJwt>() {
        Ok(p) => {
            sx::reach("read");
            sx::check(sx::same(&p.body.nonce, &v), "C14.escaped-nonce");
            sx::check(p.body.issuer.as_deref() == Some("\"\n\u{e9}"), "C14.escaped-iss");
        }
        Err(_) => sx::check(false, "C14.escapes-are-read"),
    }
}
/// The number of parts.
fn c14_parts("read", "refused") {
    let c = Case { signature: None, ..Case::default() };
    let h = b64(c.header().as_bytes());
    let b = b64(c.body().as_bytes());
    let t = sx::text("part", 2, Set::Url);
    let u = sx::text("more", 1, Set::Url);
    let (j, good) = match sx::choose("shape", 12) {
        0 => (String::new(), false),
        1 => (h.clone(), false),
        2 => (format!("{}.", h), false),
        3 => (format!("{}.{}", h, b), true),
        4 => (format!("{}.{}.", h, b), true),
        5 => (format!("{}.{}.{}", h, b, t), true),
        6 => (format!("{}.{}.{}.", h, b, t), false),
        7 => (format!("{}.{}.{}.{}", h, b, t, u), false),
        8 => (format!("{}.{}.{}.{}.{}", h, b, t, u, t), false),
        9 => (format!(".{}.{}", h, b), false),
        10 => (format!("{}..{}", h, b), false),
        _ => (format!("{}.{}", b, h), false),
    };
    let r = j.parse::<ProofJwt>();
    sx::reach(if good { "read" } else { "refused" });
    sx::check(r.is_ok() == good, "C14.two-or-three-parts");
}
/// Short arbitrary text.
fn c14_garbage("refused") {
    let n = if sx::thorough() { 8 } else { 6 };
    let t = sx::text("text", n, Set::Ascii);
    sx::reach("refused");
    sx::check(t.parse::<ProofJwt>().is_err(), "C14.garbage-is-refused");
}
/// Two short parts of any bytes of the alphabet.
fn c14_short_parts("refused") {
    let t = format!("{}.{}", sx::text("header", 4, Set::Ascii), sx::text("body", 4, Set::Url));
    sx::reach("refused");
    sx::check(t.parse::<ProofJwt>().is_err(), "C14.garbage-is-refused");
}
/// One character of the encoding is replaced by any other byte.
fn c14_alphabet("read", "refused") {
    let c = Case::default();
    let mut j = c.jwt().into_bytes();
    let second = j.iter().position(|b| *b == b'.').unwrap_or(0) + 1;
    // positions in the middle of text members, where every decoded byte is allowed as long as it is plain
    let at = match sx::choose("position", 4) {
        0 => 0,
        1 => 15,
        2 => second,
        _ => second + 12,
    };
    let x = sx::text("character", 1, Set::Ascii).into_bytes()[0];
    j[at] = x;
    let alphabet = sx::in_set(x, Set::Url);
    let r = unsafe { String::from_utf8_unchecked(j) }.parse::<ProofJwt>();
    if r.is_ok() {
        sx::reach("read");
        sx::check(alphabet, "C14.only-base64url-is-read");
    } else {
        sx::reach("refused");
    }
}
/// Padding and the standard alphabet are not base64url.
fn c14_padding("read", "refused") {
    // headers whose lengths leave every remainder, and whose encoding needs the last two digits of the alphabet
    let c = Case { typ: format!("{}{}", "???>>>", &"abc"[..sx::choose("length", 3) as usize]), ..Case::default() };
    let h = b64(c.header().as_bytes());
    let b = b64(c.body().as_bytes());
    let (hh, bb) = match sx::choose("variant", 6) {
        0 => (h.clone(), b.clone()),
        1 => (format!("{}{}", h, "=".repeat((4 - h.len() % 4) % 4)), b.clone()),
        2 => (h.clone(), format!("{}{}", b, "=".repeat((4 - b.len() % 4) % 4))),
        3 => (h.replace('-', "+").replace('_', "/"), b.clone()),
        4 => (format!(" {}", h), b.clone()),
        _ => (h.clone(), format!("{}\n", b)),
    };
    let unchanged = h == hh && b == bb;
    let r = format!("{}.{}.c2ln", hh, bb).parse::<ProofJwt>();
    sx::reach(if unchanged { "read" } else { "refused" });
    sx::check(r.is_ok() == unchanged, "C14.unpadded-base64url-only");
}
/// Members that are missing, or have the wrong type.
fn c14_members("complete", "refused") {
    let h = [("typ", "\"openid4vci-proof+jwt\""), ("alg", "\"EdDSA\"")];
    let b = [("aud", "\"a\""), ("iat", "\"2018-09-14T01:24:15Z\""), ("nonce", "\"n\"")];
    let change = sx::choose("member", 6);
    let wrong = ["", "1", "null", "[]", "{}", "true"][sx::choose("how", 6) as usize];
    let mut k = 0;
    let mut text = |l: &[(&str, &str)]| {
        let mut o = String::from("{");
        for (n, v) in l {
            let v = if k == change { wrong } else { v };
            k += 1;
            if !v.is_empty() {
                if o.len() > 1 {
                    o.push(',');
                }
                o.push_str(&format!("\"{}\":{}", n, v));
            }
        }
        o.push('}');
        o
    };
    let (th, tb) = (text(&h), text(&b));
    let r = format!("{}.{}.c2ln", b64(th.as_bytes()), b64(tb.as_bytes())).parse::<ProofJwt>();
    sx::reach(if change == 5 { "complete" } else { "refused" });
    sx::check(r.is_ok() == (change == 5), "C14.required-members");
}
/// JSON that is not quite right, and timestamps that are none.
fn c14_json("refused") {
    let c = Case::default();
    let (h, b) = (c.header(), c.body());
    let x = sx::text("character", 1, Set::Plain);
    let white = (x.as_bytes()[0] == b' ') as u32;
    let (h, b, may) = match sx::choose("variant", 6) {
        0 => (format!("{}{}", h, x), b, white != 0),
        1 => (h, format!("{}{}", b, x), white != 0),
        2 => (h[..h.len() - 1].to_string(), b, false),
        3 => (h, b[..b.len() - 1].to_string(), false),
        4 => (h, b.replace("2018-09-14T01:24:15Z", "1536888255"), false),
        _ => (h, b.replace("2018-09-14T01:24:15Z", &format!("2018-{}9-14T01:24:15Z", x)), x == "0" || x == " "),
    };
    sx::reach("refused");
    let r = format!("{}.{}.c2ln", b64(h.as_bytes()), b64(b.as_bytes())).parse::<ProofJwt>();
    sx::check(may | r.is_err(), "C14.malformed-json-is-refused");
    if let Ok(p) = r {
        sx::check(p.validate().is_ok(), "C14.read-proof");
    }
}
}

/// What holds for the signature of an unsigned proof.
fn unsigned(p: &ProofJwt, r: Result<Vec<u8>, J>) {
    let t = text_of(p);
    if dots(&t) < 2 {
        sx::check(matches!(r, Err(J::SignatureNotInJwt { .. })), "C13.unsigned-proof-has-no-signature");
    } else {
        sx::reach("unsigned and dotted");
        match &r {
            Err(J::SignatureNotInJwt { .. }) => {}
            Ok(b) => {
                sx::check(sx::same_bytes(b, after_second_dot(&t).as_bytes()), "C13.unsigned-proof-with-dots");
                sx::check(false, "C13.unsigned-proof-with-dots-has-no-signature");
            }
            Err(_) => sx::check(false, "C13.unsigned-proof-with-dots"),
        }
    }
}
fn bs58(t: &str) -> Option<Vec<u8>> {
    const A: &str = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut n = 0u64;
    for c in t.chars() {
        n = n * 58 + A.find(c)? as u64;
    }
    let mut v = vec![];
    while n > 0 {
        v.insert(0, (n & 255) as u8);
        n >>= 8;
    }
    Some(v)
}
