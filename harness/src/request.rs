//! Credential requests: validation, pre-evaluation and evaluation.
use crate::data::*;
use crate::sx::{self, Set};
use chrono::{DateTime, NaiveDateTime, Utc};
use openid4vci::credential_issuer::error::CredentialIssuerError as E;
use openid4vci::credential_issuer::*;
use openid4vci::jwt::error::JwtError as J;
use openid4vci::jwt::*;
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::types::credential::*;
use openid4vci::types::credential_issuer_metadata::*;
use openid4vci::types::credential_request::*;
use openid4vci::validate::Validatable;
use ssi_dids::{Document, VerificationMethod, VerificationMethodMap};

pub const DID: &str = "did:ex:holder";
pub const KID: &str = "did:ex:holder#k1";
pub const ISSUER: &str = "https://issuer.example";

pub fn utc(t: (i64, u32)) -> DateTime<Utc> {
    DateTime::<Utc>::from_utc(NaiveDateTime::from_timestamp_opt(t.0, t.1).unwrap(), Utc)
}

/// An OKP key with the given public part.
pub fn okp(x: Vec<u8>) -> ssi_jwk::JWK {
    ssi_jwk::JWK::from(ssi_jwk::Params::OKP(ssi_jwk::OctetParams {
        curve: "Ed25519".into(),
        public_key: ssi_jwk::Base64urlUInt(x),
        private_key: None,
    }))
}
pub fn method(id: &str, jwk: Option<ssi_jwk::JWK>) -> VerificationMethod {
    VerificationMethod::Map(VerificationMethodMap {
        id: id.into(),
        type_: "JsonWebKey2020".into(),
        controller: DID.into(),
        public_key_jwk: jwk,
        ..Default::default()
    })
}
pub fn document(methods: Vec<VerificationMethod>) -> Document {
    let mut d = Document::new(DID);
    d.verification_method = Some(methods);
    d
}

pub fn mdoc(doctype: &str) -> CredentialFormatProfile {
    CredentialFormatProfile::MsoMdoc { doctype: doctype.into(), claims: None, order: None }
}
pub fn supported(id: Option<&str>, format: CredentialFormatProfile) -> CredentialSupported {
    CredentialSupported {
        format,
        id: id.map(|x| x.to_string()),
        cryptographic_binding_mehtods_supported: None,
        cryptographic_suites_supported: None,
        display: None,
    }
}
pub fn metadata(issuer: &str, credentials: Vec<CredentialSupported>) -> CredentialIssuerMetadata {
    CredentialIssuerMetadata {
        credential_issuer: issuer.into(),
        authorization_server: None,
        credential_endpoint: "https://issuer.example/credential".into(),
        batch_credential_endpoint: None,
        credentials_supported: credentials,
        additional_fields: None,
    }
}

pub struct NonceOptions {
    pub expected: String,
    pub created: (i64, u32),
    pub lifetime: u32,
}

/// One evaluation; the default is an acceptable request.
pub struct Case {
    pub now: (i64, u32),
    pub issuer: String,
    pub metadata_valid: bool,
    pub offer: bool,
    pub auth: bool,
    pub pre: bool,
    pub server_metadata: bool,
    pub options: bool,
    pub nonce_options: Option<NonceOptions>,
    pub client: Option<String>,
    pub document: Option<Document>,
    pub proof: bool,
    pub proof_type: String,
    pub typ: String,
    pub alg: String,
    /// (member name, value)
    pub key: Option<(&'static str, String)>,
    pub iss: Option<String>,
    pub aud: String,
    pub nonce: String,
    pub nbf: Option<String>,
    pub exp: Option<String>,
    pub signature: Option<String>,
    pub format: CredentialFormatProfile,
    /// Values elsewhere that the outcome must not depend on (0: none).
    pub around: u64,
}
pub const AROUND: u64 = 16;

pub const NOW: (i64, u32) = (1_684_000_000, 500_000_000);

impl Default for Case {
    fn default() -> Self {
        Case {
            now: NOW,
            issuer: ISSUER.into(),
            metadata_valid: true,
            offer: true,
            auth: false,
            pre: true,
            server_metadata: false,
            options: true,
            nonce_options: Some(NonceOptions { expected: "n-1".into(), created: NOW, lifetime: 60 }),
            client: None,
            document: Some(document(vec![method(KID, Some(okp(vec![7; 32])))])),
            proof: true,
            proof_type: "jwt".into(),
            typ: "openid4vci-proof+jwt".into(),
            alg: "EdDSA".into(),
            key: Some(("kid", KID.into())),
            iss: None,
            aud: ISSUER.into(),
            nonce: "n-1".into(),
            nbf: None,
            exp: None,
            signature: Some("c2ln".into()),
            format: mdoc("org.iso.18013.5.1.mDL"),
            around: 0,
        }
    }
}

fn member(o: &mut String, k: &str, v: &str) {
    if o.len() > 1 {
        o.push(',');
    }
    o.push('"');
    o.push_str(k);
    o.push_str("\":\"");
    o.push_str(v);
    o.push('"');
}

impl Case {
    /// The texts must not need escapes (Set::Plain or non-ASCII).
    pub fn header(&self) -> String {
        let mut o = String::from("{");
        member(&mut o, "typ", &self.typ);
        member(&mut o, "alg", &self.alg);
        if let Some((k, v)) = &self.key {
            member(&mut o, k, v);
        }
        if self.around == 4 {
            member(&mut o, "cty", "did:ex:other");
            member(&mut o, "nonce", self.expected());
            member(&mut o, "aud", &self.issuer);
            member(&mut o, "iss", self.client.as_deref().unwrap_or("client"));
        }
        o.push('}');
        o
    }
    fn expected(&self) -> &str {
        self.nonce_options.as_ref().map(|n| n.expected.as_str()).unwrap_or("n-1")
    }
    pub fn body(&self) -> String {
        let mut o = String::from("{");
        if let Some(i) = &self.iss {
            member(&mut o, "iss", i);
        }
        member(&mut o, "aud", &self.aud);
        member(&mut o, "iat", match self.around {
            8 => "2033-09-14T01:24:15Z",
            9 => "1969-12-31T23:59:59+01:00",
            _ => "2018-09-14T01:24:15Z",
        });
        member(&mut o, "nonce", &self.nonce);
        if let Some(t) = &self.nbf {
            member(&mut o, "nbf", t);
        }
        if let Some(t) = &self.exp {
            member(&mut o, "exp", t);
        }
        match self.around {
            1 => member(&mut o, "sub", self.client.as_deref().unwrap_or("client")),
            2 => member(&mut o, "sub", "did:ex:other"),
            3 => member(&mut o, "sub", &format!("did:ex:{}", "other".repeat(40))),
            4 => {
                member(&mut o, "client_id", self.client.as_deref().unwrap_or("client"));
                member(&mut o, "c_nonce", self.expected());
                member(&mut o, "azp", "did:ex:other");
                member(&mut o, "jti", self.expected());
            }
            15 => member(&mut o, "sub", ""),
            _ => {}
        }
        o.push('}');
        o
    }
    pub fn jwt(&self) -> String {
        let mut o = b64(self.header().as_bytes());
        o.push('.');
        o.push_str(&b64(self.body().as_bytes()));
        if let Some(s) = &self.signature {
            o.push('.');
            o.push_str(s);
        }
        o
    }
    pub fn request(&self) -> CredentialRequest {
        CredentialRequest {
            format: self.format.clone(),
            proof: if self.proof {
                Some(CredentialRequestProof { proof_type: self.proof_type.clone(), jwt: self.jwt() })
            } else {
                None
            },
        }
    }
    pub fn offer(&self) -> CredentialOffer {
        let other = self.around == 6;
        CredentialOffer {
            credential_issuer: self.issuer.clone(),
            credentials: CredentialOrIds::new(match self.around {
                7 => vec![CredentialOrId::CredentialId("a".into()), CredentialOrId::Credential(mdoc("x"))],
                _ => vec![],
            }),
            grants: CredentialOfferGrants {
                authorized_code_flow: if self.auth {
                    Some(AuthorizedCodeFlow { issuer_state: if other { Some(self.nonce.clone()) } else { None } })
                } else {
                    None
                },
                pre_authorized_code_flow: if self.pre {
                    Some(PreAuthorizedCodeFlow {
                        code: if other { self.nonce.clone() } else { "123".into() },
                        user_pin_required: if other { Some(true) } else { None },
                    })
                } else {
                    None
                },
            },
        }
    }
    pub fn options(&self) -> Option<EvaluateCredentialRequestOptions> {
        if !self.options {
            return None;
        }
        Some(EvaluateCredentialRequestOptions {
            c_nonce: self.nonce_options.as_ref().map(|n| CNonceOptions {
                c_nonce_expires_in: if self.around == 13 { u32::MAX } else { n.lifetime },
                expected_c_nonce: n.expected.clone(),
                c_nonce_created_at: utc(n.created),
            }),
            client_id: self.client.clone(),
        })
    }
    pub fn run_with(&self, r: &CredentialRequest) -> Result<CredentialIssuerEvaluateRequestResponse, E> {
        sx::set_now(self.now.0, self.now.1);
        let second = if self.metadata_valid { "b" } else { "a" };
        let mut m = metadata(&self.issuer, vec![supported(Some("a"), mdoc("x")), supported(Some(second), mdoc("y"))]);
        if self.around == 5 {
            m.authorization_server = Some(self.aud.clone());
            m.credential_endpoint = self.aud.clone();
            m.batch_credential_endpoint = Some(self.aud.clone());
        }
        if self.around == 10 {
            m.credentials_supported.push(supported(None, mdoc("z")));
            m.credentials_supported.push(supported(None, mdoc("z")));
            m.additional_fields = Some([("audience".to_string(), s(&self.aud))].into_iter().collect());
        }
        let o = self.offer();
        let a = AuthorizationServerMetadata {};
        CredentialIssuer::evaluate_credential_request(
            &m, r,
            if self.offer { Some(&o) } else { None },
            if self.server_metadata { Some(&a) } else { None },
            self.document.as_ref(),
            self.options(),
        )
    }
    pub fn run(&self) -> Result<CredentialIssuerEvaluateRequestResponse, E> {
        self.run_with(&self.request())
    }
    /// Case split over the grants of the offer and the presence of the client id and the issuer claim.
    pub fn vary_flow(&mut self) {
        match sx::choose("grants", 4) {
            0 => {}
            1 => self.auth = true,
            2 => {
                self.auth = true;
                self.pre = false
            }
            _ => self.pre = false,
        }
        if sx::flag("client id") {
            self.client = Some("client".into());
            self.iss = Some("client".into());
        } else if sx::flag("issuer claim") {
            self.iss = Some("client".into());
        }
        self.client_ok();
    }
    /// Case split over the surroundings; the default for most texts.
    pub fn vary_around(&mut self) {
        self.set_around(sx::choose("around", AROUND));
    }
    pub fn set_around(&mut self, k: u64) {
        self.around = k;
        match k {
            11 => {
                self.format = CredentialFormatProfile::JwtVcJson { types: vec!["A".into(), "B".into()], credential_subject: None, order: None };
                self.signature = Some("c2ln".repeat(40));
            }
            12 => {
                if let Some(d) = self.document.as_mut() {
                    d.also_known_as = Some(vec!["did:ex:other".into()]);
                    d.verification_method.get_or_insert(vec![]).insert(0, method("did:ex:other#k1", Some(okp(vec![9; 32]))));
                }
            }
            14 => {
                self.nbf.get_or_insert("2020-01-01T00:00:00Z".into());
                self.exp.get_or_insert("2030-01-01T00:00:00Z".into());
            }
            _ => {}
        }
    }
    pub fn client_ok(&self) -> bool {
        let check = self.options & (self.client.is_some() | self.auth | !self.pre);
        !check | sx::same_opt(&self.client, &self.iss)
    }
}

entries! {
/// The nonce, for every pair of texts, with and without options, nonce options, client id and grants.
fn c04_nonce("accepted", "mismatch", "no options", "no nonce expected") {
    let around = sx::choose("around", AROUND);
    let (expected, nonce) = near("nonce", around);
    let same = sx::same(&expected, &nonce);
    let mut c = Case { nonce, ..Case::default() };
    c.nonce_options.as_mut().unwrap().expected = expected.clone();
    match sx::choose("options", 3) {
        0 => {}
        1 => {
            c.nonce_options = None;
            sx::reach("no nonce expected");
        }
        _ => {
            c.options = false;
            sx::reach("no options");
        }
    }
    c.vary_flow();
    c.set_around(around);
    let has = c.options && c.nonce_options.is_some();
    let r = c.run();
    sx::observe("ok", r.is_ok() as u64);
    if r.is_ok() {
        sx::reach("accepted");
        sx::check(has, "C04.no-request-is-accepted-without-expected-nonce");
        sx::check(same, "C04.accepted-only-with-the-expected-nonce");
    } else if c.client_ok() {
        sx::check(!(has & same), "C04.the-expected-nonce-is-accepted");
        match &r {
            Err(E::JwtError(J::NonceMismatch { expected_nonce, actual_nonce })) => {
                sx::reach("mismatch");
                let want = if has { Some(expected) } else { None };
                sx::check(sx::same_opt(expected_nonce, &want), "C04.error-carries-the-expected-nonce");
                sx::check(sx::same(actual_nonce, &c.nonce), "C04.error-carries-the-actual-nonce");
            }
            _ => sx::check(false, "C04.refused-as-nonce-mismatch"),
        }
    }
}

/// The life of the nonce: creation time, lifetime and current time symbolic.
fn c05_expiry("accepted", "expired", "alive and refused") {
    const DAYS: [i64; 3] = [19490, 19491, 19855];
    let now = sx::moment("now", &DAYS);
    let created = sx::moment("created", &DAYS);
    let lifetime = [0i64, 1, 30, 365, 49710][sx::choose("lifetime days", 5) as usize] * 86400;
    let extra = sx::int("lifetime seconds", 17) as i64;
    sx::assume((extra < 86400) & (lifetime + extra <= u32::MAX as i64));
    let lifetime = lifetime + extra;
    let end = (created.0 + lifetime, created.1);
    let mut c = Case { now, ..Case::default() };
    c.nonce_options = Some(NonceOptions { expected: "n-1".into(), created, lifetime: lifetime as u32 });
    if sx::flag("wrong nonce") {
        c.nonce = "n-2".into();
    }
    let r = c.run();
    sx::observe("ok", r.is_ok() as u64);
    let dead = sx::before(end, now);
    match &r {
        Err(E::CNonceIsExpired { now: n, expiry_timestamp: e }) => {
            sx::reach("expired");
            sx::check(dead, "C05.expired-only-after-the-lifetime");
            sx::check((n.timestamp() == now.0) & (n.timestamp_subsec_nanos() == now.1), "C05.error-carries-the-current-time");
            sx::check((e.timestamp() == end.0) & (e.timestamp_subsec_nanos() == end.1), "C05.error-carries-the-expiry");
        }
        Ok(_) => {
            sx::reach("accepted");
            sx::check(!dead, "C05.never-accepted-after-the-lifetime");
        }
        Err(_) => {
            sx::reach("alive and refused");
            sx::check(!dead, "C05.refused-as-expired-after-the-lifetime");
            sx::check(!sx::same(&c.nonce, "n-1"), "C05.usable-until-the-end-of-the-lifetime");
        }
    }
}

/// The life of the nonce in every surrounding, with every client, flow and shape of nonce.
fn c05_surroundings("accepted", "expired", "alive and refused") {
    const DAYS: [i64; 1] = [19490];
    let around = sx::choose("around", AROUND);
    sx::assume(around != 13);
    let now = sx::moment("now", &DAYS);
    let created = sx::moment("created", &DAYS);
    let lifetime = sx::int("lifetime seconds", 17) as i64;
    sx::assume(lifetime < 86400);
    let end = (created.0 + lifetime, created.1);
    let mut c = Case { now, ..Case::default() };
    let nonce = match sx::choose("nonce", 5) {
        0 => "n-1".into(),
        1 => String::new(),
        2 => sx::long("nonce", 300, Set::Plain),
        3 => sx::wide("nonce", 2),
        _ => sx::text("nonce", 3, Set::Plain),
    };
    c.nonce = nonce.clone();
    c.nonce_options = Some(NonceOptions { expected: nonce, created, lifetime: lifetime as u32 });
    c.vary_flow();
    c.set_around(around);
    let dead = sx::before(end, now);
    let r = c.run();
    match &r {
        Err(E::CNonceIsExpired { now: n, expiry_timestamp: e }) => {
            sx::reach("expired");
            sx::check(dead, "C05.expired-only-after-the-lifetime");
            sx::check((n.timestamp() == now.0) & (n.timestamp_subsec_nanos() == now.1), "C05.error-carries-the-current-time");
            sx::check((e.timestamp() == end.0) & (e.timestamp_subsec_nanos() == end.1), "C05.error-carries-the-expiry");
        }
        Ok(_) => {
            sx::reach("accepted");
            sx::check(!dead, "C05.never-accepted-after-the-lifetime");
        }
        Err(_) => {
            sx::reach("alive and refused");
            sx::check(!dead, "C05.refused-as-expired-after-the-lifetime");
            sx::check(!c.client_ok(), "C05.usable-until-the-end-of-the-lifetime");
        }
    }
}

/// Creation times and lifetimes up to the last representable moment: never an abort, never expired too early.
fn c05_extreme("accepted", "expired") {
    let min = DateTime::<Utc>::MIN_UTC.timestamp().div_euclid(86400);
    let max = DateTime::<Utc>::MAX_UTC.timestamp().div_euclid(86400);
    let created = sx::moment("created", &[min, min + 1, 0, max - 49711, max - 49710, max - 49709, max - 1, max]);
    let days = [0i64, 1, 49709, 49710][sx::choose("lifetime days", 4) as usize] * 86400;
    let extra = sx::int("lifetime seconds", 17) as i64;
    sx::assume((extra < 86400) & (days + extra <= u32::MAX as i64));
    let mut c = Case::default();
    c.nonce_options = Some(NonceOptions { expected: "n-1".into(), created, lifetime: (days + extra) as u32 });
    let r = c.run();
    let dead = sx::before((created.0 + days + extra, created.1), NOW);
    match &r {
        Err(E::CNonceIsExpired { .. }) => {
            sx::reach("expired");
            sx::check(dead, "C05.expired-only-after-the-lifetime");
        }
        r => {
            sx::reach("accepted");
            sx::check(!dead & r.is_ok(), "C05.never-accepted-after-the-lifetime");
        }
    }
}

/// The audience, for every pair of texts.
fn c06_audience("accepted", "mismatch") {
    let around = sx::choose("around", AROUND);
    let (issuer, aud) = near("audience", around);
    let same = sx::same(&issuer, &aud);
    let mut c = Case { issuer, aud, ..Case::default() };
    c.vary_flow();
    c.set_around(around);
    let r = c.run();
    sx::observe("ok", r.is_ok() as u64);
    if r.is_ok() {
        sx::reach("accepted");
        sx::check(same, "C06.accepted-only-for-this-issuer");
    } else if c.client_ok() {
        sx::check(!same, "C06.own-audience-is-accepted");
        match &r {
            Err(E::JwtError(J::AudienceMismatch { expected_aud_in_jwt, actual_aud_in_jwt })) => {
                sx::reach("mismatch");
                sx::check(sx::same(expected_aud_in_jwt, &c.issuer), "C06.error-carries-the-expected-audience");
                sx::check(sx::same(actual_aud_in_jwt, &c.aud), "C06.error-carries-the-actual-audience");
            }
            _ => sx::check(false, "C06.refused-as-audience-mismatch"),
        }
    }
}
/// Realistic identifiers: a URL with symbolic tail, compared with variants of it.
fn c06_url("accepted", "refused") {
    let tail = sx::text_upto("tail", 0, 2, Set::Plain);
    let other = sx::text_upto("other", 0, 2, Set::Plain);
    let prefix = ["https://issuer.example", "https://ISSUER.example", "http://issuer.example"][sx::choose("prefix", 3) as usize];
    let issuer = format!("https://issuer.example{}", tail);
    let aud = format!("{}{}", prefix, other);
    let same = sx::same(&issuer, &aud);
    let c = Case { issuer, aud, ..Case::default() };
    let ok = c.run().is_ok();
    sx::reach(if ok { "accepted" } else { "refused" });
    sx::check(ok == same, "C06.accepted-exactly-for-this-issuer");
}

/// Client id and issuer claim, for every pair of texts, every presence and every set of grants.
fn c07_client("accepted", "mismatch", "not looked at") {
    let around = sx::choose("around", AROUND);
    let (client, iss) = near("client", around);
    let mut c = Case::default();
    match sx::choose("grants", 4) {
        0 => {}
        1 => c.auth = true,
        2 => {
            c.auth = true;
            c.pre = false
        }
        _ => c.pre = false,
    }
    if sx::flag("client id") {
        c.client = Some(client);
    }
    if sx::flag("issuer claim") {
        c.iss = Some(iss);
    }
    c.set_around(around);
    let r = c.run();
    sx::observe("ok", r.is_ok() as u64);
    let only_pre = c.pre & !c.auth;
    let fits = match (&c.client, &c.iss) {
        (Some(a), Some(b)) => sx::same(a, b),
        (Some(_), None) => false,
        (None, Some(_)) => only_pre,
        (None, None) => true,
    };
    match &r {
        Ok(_) => {
            sx::reach("accepted");
            if c.client.is_none() && c.iss.is_some() {
                sx::reach("not looked at");
            }
            sx::check(fits, "C07.accepted-only-for-the-client");
        }
        Err(E::JwtError(J::IssuerMismatch { expected_iss_in_jwt, actual_iss_in_jwt })) => {
            sx::reach("mismatch");
            sx::check(!fits, "C07.own-proof-is-accepted");
            sx::check(sx::same_opt(expected_iss_in_jwt, &c.client), "C07.error-carries-the-client-id");
            sx::check(sx::same_opt(actual_iss_in_jwt, &c.iss), "C07.error-carries-the-issuer-claim");
        }
        Err(_) => sx::check(false, "C07.refused-as-issuer-mismatch"),
    }
}

/// The window of a proof by itself.
fn c08_window("valid", "not yet", "not any more") {
    const DAYS: [i64; 3] = [19490, 19491, 0];
    let now = sx::moment("now", &DAYS[..2]);
    sx::set_now(now.0, now.1);
    let nbf = if sx::flag("has nbf") { Some(sx::moment("nbf", &DAYS)) } else { None };
    let exp = if sx::flag("has exp") { Some(sx::moment("exp", &DAYS)) } else { None };
    let p = ProofJwt {
        header: ProofJwtHeader { typ: String::new(), alg: ProofJwtAlgorithm::ES256, additional_header: None },
        body: ProofJwtBody { not_before: nbf.map(utc), expires_at: exp.map(utc), ..Default::default() },
        signature: None,
    };
    let r = p.verify();
    let early = match nbf {
        Some(t) => sx::before(now, t),
        None => false,
    };
    let late = match exp {
        Some(t) => !sx::before(now, t),
        None => false,
    };
    match &r {
        Ok(()) => {
            sx::reach("valid");
            sx::check(!early & !late, "C08.valid-only-inside-the-window");
        }
        Err(J::NotYetValid { valid_from, now: n }) => {
            sx::reach("not yet");
            sx::check(early, "C08.not-yet-valid-only-before-nbf");
            sx::check((valid_from.timestamp(), valid_from.timestamp_subsec_nanos()) == nbf.unwrap_or_default(), "C08.error-carries-nbf");
            sx::check((n.timestamp(), n.timestamp_subsec_nanos()) == now, "C08.error-carries-the-current-time");
        }
        Err(J::NotValidAnymore { valid_until, now: n }) => {
            sx::reach("not any more");
            sx::check(late, "C08.not-valid-any-more-only-from-exp");
            sx::check((valid_until.timestamp(), valid_until.timestamp_subsec_nanos()) == exp.unwrap_or_default(), "C08.error-carries-exp");
            sx::check((n.timestamp(), n.timestamp_subsec_nanos()) == now, "C08.error-carries-the-current-time");
        }
        Err(_) => sx::check(false, "C08.refused-for-the-window"),
    }
}
/// The window of a proof that is part of a credential request.
fn c08_evaluate("accepted", "not yet", "not any more") {
    let now = sx::moment("now", &[19490]);
    let limits = sx::choose("limits", 4);
    let variants = if limits < 3 || sx::thorough() { 5 } else { 1 };
    let nbf = if limits & 1 == 1 { Some(stamp("nbf", variants)) } else { None };
    let exp = if limits & 2 == 2 { Some(stamp("exp", variants)) } else { None };
    let mut c = Case { now, nbf: nbf.clone().map(|t| t.0), exp: exp.clone().map(|t| t.0), ..Case::default() };
    c.nonce_options = Some(NonceOptions { expected: "n-1".into(), created: (19490 * 86400, 0), lifetime: 86400 * 2 });
    if sx::flag("authorization code") {
        c.auth = true;
    }
    if limits > 0 && sx::thorough() {
        c.vary_around();
    } else {
        c.set_around([0, 8, 9, 1, 12][sx::choose("around", 5) as usize]);
    }
    let early = match &nbf {
        Some((_, t)) => sx::before(now, *t),
        None => false,
    };
    let late = match &exp {
        Some((_, t)) => !sx::before(now, *t),
        None => false,
    };
    match c.run() {
        Ok(_) => {
            sx::reach("accepted");
            sx::check(!early & !late, "C08.accepted-only-inside-the-window");
        }
        Err(E::JwtError(J::NotYetValid { valid_from, now: n })) => {
            sx::reach("not yet");
            sx::check(early, "C08.request-not-yet-valid-only-before-nbf");
            sx::check((valid_from.timestamp(), valid_from.timestamp_subsec_nanos()) == nbf.unwrap_or_default().1, "C08.error-carries-nbf");
            sx::check((n.timestamp(), n.timestamp_subsec_nanos()) == now, "C08.error-carries-the-current-time");
        }
        Err(E::JwtError(J::NotValidAnymore { valid_until, now: n })) => {
            sx::reach("not any more");
            sx::check(late, "C08.request-not-valid-any-more-only-from-exp");
            sx::check((valid_until.timestamp(), valid_until.timestamp_subsec_nanos()) == exp.unwrap_or_default().1, "C08.error-carries-exp");
            sx::check((n.timestamp(), n.timestamp_subsec_nanos()) == now, "C08.error-carries-the-current-time");
        }
        Err(_) => sx::check(false, "C08.request-refused-for-the-window"),
    }
}

/// Every algorithm name, and unknown ones.
fn c09_algorithm("asymmetric", "symmetric", "none", "unknown") {
    const ASYM: [&str; 12] =
        ["RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512", "EdDSA", "ES256K", "ECDH-ES"];
    const REFUSED: [&str; 4] = ["HS256", "HS384", "HS512", "none"];
    let k = sx::choose("alg", 23) as usize;
    let alg = if k < 12 {
        ASYM[k].to_string()
    } else if k < 16 {
        REFUSED[k - 12].to_string()
    } else if k == 16 {
        sx::text("name", 5, Set::Plain)
    } else if k == 17 {
        sx::text("name", 4, Set::Plain)
    } else {
        sx::text("name", [6, 7, 3, 0, 9][k - 18], Set::Plain)
    };
    let mut good = false;
    let mut mac = false;
    for a in ASYM {
        good |= sx::same(&alg, a);
    }
    for a in REFUSED {
        mac |= sx::same(&alg, a);
    }
    let mut c = Case { alg, ..Case::default() };
    if k < 16 {
        c.vary_around();
        if c.around == 0 {
            c.vary_flow();
            c.iss = c.client.clone();
        }
    }
    sx::reach(if k < 12 { "asymmetric" } else if k < 15 { "symmetric" } else if k == 15 { "none" } else { "unknown" });
    all_three(&c, good, "C09.algorithm");
    if let Ok(p) = c.jwt().parse::<ProofJwt>() {
        sx::check(good | mac, "C09.unknown-algorithms-are-not-read");
        sx::check(p.validate().is_ok() == good, "C09.proof-validation");
        sx::check(p.header.validate().is_ok() == good, "C09.header-validation");
    } else {
        sx::check(!good, "C09.known-algorithms-are-read");
    }
}
/// The header type: every text of the right length, neighbouring lengths, and non-ASCII characters.
fn c09_header_type("right", "wrong") {
    const T: &str = "openid4vci-proof+jwt";
    let typ = match sx::choose("shape", 19) {
        0 => sx::text("typ", 20, Set::Plain),
        1 => format!("{}{}", T, sx::text("tail", 1, Set::Plain)),
        2 => format!("{}{}", sx::text("head", 1, Set::Plain), T),
        3 => T[..19].to_string(),
        4 => format!("{}{}", &T[..19], sx::wide("last", 1)),
        5 => sx::text("typ", 3, Set::Plain),
        6 => format!("{}{}", sx::text("head", 12, Set::Plain), T),
        7 => format!("{}{}", sx::text("head", 6, Set::Plain), T),
        8 => format!("{}{}", T, sx::text("tail", 6, Set::Plain)),
        9 => format!("{}{}{}", sx::text("head", 1, Set::Plain), T, sx::text("tail", 1, Set::Plain)),
        10 => sx::text("typ", 16, Set::Plain),
        11 => T[16..].to_string(),
        12 => T[..16].to_string(),
        13 => sx::text("typ", 19, Set::Plain),
        14 => sx::text("typ", 21, Set::Plain),
        15 => format!("{}{}", T, sx::long("tail", 280, Set::Plain)),
        16 => format!("{}{}", sx::long_wide("head", 280), T),
        17 => format!("{}{}{}", &T[..9], sx::text("middle", 2, Set::Plain), &T[9..]),
        _ => String::new(),
    };
    let good = typ.eq_ignore_ascii_case(T);
    let mut c = Case { typ, ..Case::default() };
    c.vary_around();
    sx::reach(if good { "right" } else { "wrong" });
    all_three(&c, good, "C09.header-type");
}
/// The proof type: every short text, and non-ASCII characters; and its absence.
fn c09_proof_type("right", "wrong", "absent") {
    let k = sx::choose("shape", 14);
    let mut c = Case {
        proof_type: match k {
            0 => sx::text("type", 3, Set::Ascii),
            1 => sx::text("type", 4, Set::Ascii),
            2 => sx::text("type", 2, Set::Ascii),
            3 => String::new(),
            4 => format!("jw{}", sx::wide("last", 1)),
            5 => format!("{}wt", sx::wide("first", 1)),
            6 => "absent".into(),
            7 => sx::text("type", 5, Set::Ascii),
            8 => format!("jwt{}", sx::long("tail", 300, Set::Ascii)),
            9 => format!("{}jwt", sx::text("head", 6, Set::Ascii)),
            10 => format!("jwt{}", sx::text("tail", 6, Set::Ascii)),
            11 => format!("{}jwt", sx::text("head", 12, Set::Ascii)),
            12 => sx::text("type", 1, Set::Ascii),
            _ => sx::long_wide("type", 300),
        },
        ..Case::default()
    };
    c.vary_around();
    if k == 6 {
        sx::reach("absent");
        let j = obj(vec![("format", s("mso_mdoc")), ("doctype", s("x")), ("proof", obj(vec![("jwt", s(&c.jwt()))]))]);
        match serde_json::from_value::<CredentialRequest>(j) {
            Ok(r) => {
                sx::check(r.validate().is_ok(), "C09.absent-proof-type-is-jwt");
                sx::check(c.run_with(&r).is_ok(), "C09.absent-proof-type-is-jwt");
                sx::check(CredentialIssuer::pre_evaluate_credential_request(&r).is_ok(), "C09.absent-proof-type-is-jwt");
            }
            Err(_) => sx::check(false, "C09.absent-proof-type-is-read"),
        }
        return;
    }
    let good = c.proof_type.eq_ignore_ascii_case("jwt");
    sx::reach(if good { "right" } else { "wrong" });
    all_three(&c, good, "C09.proof-type");
}

/// Everything that can be missing, in every combination.
fn c10_parts("accepted", "metadata", "offer", "server", "expired", "invalid", "no proof") {
    let around = sx::choose("around", AROUND);
    let mut c = Case {
        metadata_valid: sx::flag("metadata valid"),
        offer: sx::flag("offer"),
        server_metadata: sx::flag("server metadata"),
        proof: sx::flag("proof"),
        ..Case::default()
    };
    let expired = sx::flag("expired");
    if expired {
        c.nonce_options.as_mut().unwrap().created = (NOW.0 - 61, 0);
    }
    match sx::choose("options", 3) {
        0 => {}
        1 => c.nonce_options = None,
        _ => c.options = false,
    }
    let expired = expired && c.options && c.nonce_options.is_some();
    let invalid = if around == 0 { sx::choose("invalid", 5) } else { 0 };
    match invalid {
        1 => c.typ = "JWT".into(),
        2 => c.alg = "none".into(),
        3 => c.proof_type = "ldp".into(),
        4 => c.key = None,
        _ => {}
    }
    if around == 0 && sx::flag("no document") {
        c.document = None;
    }
    match sx::choose("grants", 4) {
        0 => {}
        1 => c.auth = true,
        2 => {
            c.auth = true;
            c.pre = false
        }
        _ => c.pre = false,
    }
    c.set_around(around);
    let expired = expired && around != 13;
    let r = c.run();
    sx::observe("ok", r.is_ok() as u64);
    if !c.metadata_valid {
        sx::reach("metadata");
        sx::check(matches!(r, Err(E::ValidationError(_))), "C10.invalid-metadata");
    } else if !c.offer {
        sx::reach("offer");
        sx::check(matches!(r, Err(E::CredentialOfferMustBeSupplied)), "C10.missing-offer");
    } else if c.server_metadata {
        sx::reach("server");
        sx::check(matches!(r, Err(E::AuthorizationServerMetadataNotSupported)), "C10.server-metadata");
    } else if expired {
        sx::reach("expired");
        sx::check(r.is_err(), "C10.expired-nonce");
    } else if !c.proof {
        sx::reach("no proof");
        sx::check(matches!(r, Err(E::NoProofInCredentialRequest)), "C10.missing-proof");
    } else if invalid > 0 {
        sx::reach("invalid");
        sx::check(r.is_err(), "C10.invalid-proof");
    } else {
        let fine = c.options && c.nonce_options.is_some() && c.document.is_some();
        if r.is_ok() {
            sx::reach("accepted");
        }
        sx::check(r.is_ok() == fine, "C10.complete-request-is-accepted");
    }
}

/// The result of an accepted request.
fn c11_result("accepted") {
    let around = sx::choose("around", AROUND);
    let (format, x) = if around == 0 {
        (a_format("credential", true), sx::choose("key length", 3) as usize * 16)
    } else {
        (mdoc(&sx::text("credential", 2, Set::Plain)), 32)
    };
    let mut key = vec![0u8; x];
    sx::bytes("key", &mut key);
    let tail = sx::text_upto("tail", 0, 2, Set::Lower);
    let kid = format!("{}{}", KID, tail);
    let signature = sx::text_upto("signature", 1, 3, Set::Url);
    const ALGS: [(&str, ProofJwtAlgorithm); 5] = [
        ("EdDSA", ProofJwtAlgorithm::EdDSA),
        ("ES256", ProofJwtAlgorithm::ES256),
        ("RS512", ProofJwtAlgorithm::RS512),
        ("ES256K", ProofJwtAlgorithm::ES256K),
        ("ECDH-ES", ProofJwtAlgorithm::ECDHES),
    ];
    let (alg, want) = &ALGS[sx::choose("alg", 5) as usize];
    let mut c = Case {
        alg: alg.to_string(),
        key: Some(("kid", kid.clone())),
        signature: Some(signature.clone()),
        document: Some(document(vec![method("did:ex:holder#other", Some(okp(vec![1; 32]))), method(&kid, Some(okp(key.clone())))])),
        format: format.clone(),
        ..Case::default()
    };
    c.set_around(around);
    c.format = format.clone();
    c.signature = Some(signature.clone());
    let r = match c.run() {
        Ok(r) => r,
        Err(_) => return sx::check(false, "C11.complete-request-is-accepted"),
    };
    sx::reach("accepted");
    sx::check(r.credential == format, "C11.credential");
    sx::check(match &r.subject_id {
        Some(d) => sx::same(d, DID),
        None => false,
    }, "C11.subject");
    let p = match &r.proof_of_possession {
        Some(p) => p,
        None => return sx::check(false, "C11.proof-of-possession"),
    };
    sx::check(p.algorithm == *want, "C11.algorithm");
    sx::check(sx::same_bytes(&p.public_key, &key), "C11.public-key");
    sx::check(sx::same_bytes(&p.signature, signature.as_bytes()), "C11.signature");
    let jwt = match c.jwt().parse::<ProofJwt>() {
        Ok(j) => j,
        Err(_) => return sx::check(false, "C11.proof-is-readable"),
    };
    sx::check(match jwt.to_signable_message() {
        Ok(m) => sx::same_bytes(&m, &p.message),
        Err(_) => false,
    }, "C11.message");
    // the JSON of the result has the same values
    match serde_json::to_value(&r) {
        Ok(v) => {
            sx::check(has_str(&v, "subject_id", DID), "C11.json-subject");
            sx::check(match v.get("proof_of_possession") {
                Some(p) => has_str(p, "algorithm", alg),
                None => false,
            }, "C11.json-algorithm");
        }
        Err(_) => sx::check(false, "C11.json"),
    }
}

/// The DID of a key id, for every short key id.
fn c15_key_id("did", "refused") {
    let p = |n: &str, k: usize| sx::text(n, k, Set::Plain);
    let kid = match sx::choose("shape", 13) {
        4 => format!("did:ex:{}/{}?{}#{}", p("id", 1), p("path", 1), p("query", 1), p("fragment", 1)),
        5 => format!("did:ex:{}#k", sx::long("id", 300, Set::Letter)),
        6 => format!("did:ex:a#{}", sx::wide("fragment", 2)),
        7 => format!("did:web:h%3A80:{}", p("id", 2)),
        8 => format!("{}did:ex:a#k", p("head", 1)),
        9 => format!("did:ex:a?{}", sx::long("query", 300, Set::Plain)),
        10 => format!("did:{}:{}#k", p("method", 2), p("id", 1)),
        11 => format!("did:ex:a#{}", sx::long("fragment", 300, Set::Plain)),
        12 => format!("did:ex:a?{}", sx::long_wide("query", 300)),
        0 => sx::text_upto("kid", 0, 6, Set::Plain),
        1 => format!("did:ex:{}", sx::text_upto("kid", 1, 4, Set::Plain)),
        2 => format!("did:ex:a{}", sx::wide("kid", 1)),
        _ => format!("{}#k", sx::text("kid", 6, Set::Plain)),
    };
    let mut c = Case { key: Some(("kid", kid.clone())), ..Case::default() };
    c.set_around([0, 1, 2, 4, 11][sx::choose("around", 5) as usize]);
    let r = CredentialIssuer::pre_evaluate_credential_request(&c.request());
    sx::observe("ok", r.is_ok() as u64);
    match r {
        Ok(r) => match r.did {
            Some(d) => {
                sx::reach("did");
                sx::check(kid.starts_with("did:"), "C15.only-dids-are-reported");
                let end = kid.bytes().position(|b| (b == b'#') | (b == b'?') | (b == b'/')).unwrap_or(kid.len());
                sx::check(sx::same(&d, &kid[..end]), "C15.did-part-of-the-key-id");
            }
            None => sx::check(false, "C15.a-key-id-yields-a-did"),
        },
        Err(e) => {
            sx::reach("refused");
            sx::check(!well_formed(&kid), "C15.every-did-url-yields-its-did");
            sx::check(match &e {
                E::JwtError(J::UnableToTransformIntoDid { kid: k, .. }) => sx::same(k, &kid),
                _ => false,
            }, "C15.refused-as-not-a-did");
        }
    }
}
/// Requests without proof or key, with other keys, and invalid ones.
fn c15_others("no proof", "no key", "jwk", "x5c", "invalid") {
    let mut c = Case::default();
    let text = sx::text("text", 4, Set::Plain);
    let k = sx::choose("kind", 8);
    match k {
        0 => c.proof = false,
        1 => c.key = None,
        2 => c.key = Some(("jwk", text)),
        3 => c.key = Some(("x5c", text)),
        4 => c.typ = text,
        5 => c.alg = "HS256".into(),
        6 => c.proof_type = text,
        _ => c.alg = "none".into(),
    }
    c.vary_around();
    let r = CredentialIssuer::pre_evaluate_credential_request(&c.request());
    match k {
        0 => {
            sx::reach("no proof");
            sx::check(matches!(&r, Ok(x) if x.did.is_none()), "C15.nothing-without-proof");
        }
        1 => {
            sx::reach("no key");
            sx::check(matches!(&r, Ok(x) if x.did.is_none()), "C15.nothing-without-key");
        }
        2 | 3 => {
            sx::reach(if k == 2 { "jwk" } else { "x5c" });
            sx::check(matches!(&r, Err(E::JwtError(J::UnsupportedKeyTypeInJwtHeader { .. }))), "C15.other-keys-fail");
        }
        _ => {
            sx::reach("invalid");
            sx::check(matches!(&r, Err(E::ValidationError(_))), "C15.invalid-requests-fail");
        }
    }
}
/// Evaluation never accepts what pre-evaluation did not announce.
fn c15_agree("accepted", "refused") {
    let tail = sx::text_upto("tail", 0, 3, Set::Plain);
    let did = ["did:ex:holder", "did:ex:h", "urn:x", "x", ""][sx::choose("did", 5) as usize];
    let kid = format!("{}{}", did, tail);
    let key = match sx::choose("key", 4) {
        0 => None,
        1 => Some(("jwk", r#"{'kty':'OKP','crv':'Ed25519','x':'AAAA'}"#.replace('\'', "\\\""))),
        2 => Some(("x5c", tail)),
        _ => Some(("kid", kid.clone())),
    };
    let mut c = Case { key, document: Some(document(vec![method(&kid, Some(okp(vec![1; 32])))])), ..Case::default() };
    c.set_around([0, 2, 12][sx::choose("around", 3) as usize]);
    let q = c.request();
    let before = CredentialIssuer::pre_evaluate_credential_request(&q);
    let r = c.run_with(&q);
    match r {
        Ok(r) => {
            sx::reach("accepted");
            match before {
                Ok(b) => {
                    sx::check(sx::same_opt(&b.did, &r.subject_id), "C15.subject-was-announced");
                    sx::check(r.subject_id.is_some(), "C15.subject-is-known");
                }
                Err(_) => sx::check(false, "C15.accepted-only-after-pre-evaluation"),
            }
        }
        Err(_) => sx::reach("refused"),
    }
}
}

/// A timestamp with symbolic digits, and what it means.
pub fn stamp(name: &str, variants: u64) -> (String, (i64, u32)) {
    let d = sx::text(name, 2, Set::Digit);
    let f = sx::text(name, 3, Set::Digit);
    let b: Vec<i64> = d.bytes().map(|x| (x - b'0') as i64).collect();
    let s = b[0] * 10 + b[1];
    sx::assume(s < 60);
    let f3: Vec<u32> = f.bytes().map(|x| (x - b'0') as u32).collect();
    let n = (f3[0] * 100 + f3[1] * 10 + f3[2]) * 1_000_000;
    // 2023-05-13 is day 19490
    const T: [(i64, i64, i64, &str, i64); 5] =
        [(13, 12, 7, "Z", 0), (13, 0, 0, "Z", 0), (12, 23, 59, "Z", 0), (14, 0, 0, "Z", 0), (13, 22, 30, "+01:30", 5400)];
    let (day, h, m, zone, shift) = T[sx::choose(name, variants) as usize];
    let t = format!("2023-05-{:02}T{:02}:{:02}:{}.{}{}", day, h, m, d, f, zone);
    (t, ((19490 + day - 13) * 86400 + h * 3600 + m * 60 + s - shift, n))
}

/// Two texts: every shape in plain surroundings, two characters each in the others.
pub fn near(name: &str, around: u64) -> (String, String) {
    match around {
        0 => sx::pair(name, Set::Plain),
        _ => (sx::text(name, 2, Set::Plain), sx::text(name, 2, Set::Plain)),
    }
}

/// did:method:id with a method and an id
pub fn well_formed(kid: &str) -> bool {
    let b = kid.as_bytes();
    if b.len() < 4 || !kid.starts_with("did:") {
        return false;
    }
    let mut k = 4;
    while k < b.len() && (b[k].is_ascii_lowercase() | b[k].is_ascii_digit()) {
        k += 1;
    }
    k > 4 && k + 1 < b.len() && b[k] == b':' && b[k + 1].is_ascii_alphanumeric()
}

/// Validation, pre-evaluation and evaluation agree that the request is acceptable or not.
pub fn all_three(c: &Case, good: bool, id: &str) {
    let q = c.request();
    let r = c.run_with(&q);
    sx::observe("ok", r.is_ok() as u64);
    sx::check(q.validate().is_ok() == good, &format!("{}-validate", id));
    sx::check(CredentialIssuer::pre_evaluate_credential_request(&q).is_ok() == good, &format!("{}-pre-evaluate", id));
    sx::check(r.is_ok() == good, &format!("{}-evaluate", id));
    if !good {
        sx::check(matches!(r, Err(E::ValidationError(_))), &format!("{}-refused-as-invalid", id));
    }
}

/// A credential format with symbolic members.
pub fn a_format(name: &str, members: bool) -> CredentialFormatProfile {
    let kind = sx::choose(name, 4);
    let t = |n: usize| sx::text(name, n, Set::Plain);
    let order = if members && sx::flag(name) { Some(vec![t(2), t(1)]) } else { None };
    let subject = if members && sx::flag(name) {
        let mut m = std::collections::HashMap::new();
        m.insert("given_name".to_string(), CredentialSubject {
            mandatory: sx::opt_u64(name, 1).map(|b| b != 0),
            value_type: Some(t(2)),
            display: Some(vec![CredentialSubjectDisplay { name: Some(t(1)), locale: None }]),
        });
        Some(m)
    } else {
        None
    };
    match kind {
        0 => CredentialFormatProfile::JwtVcJson { types: vec![t(2), t(3)], credential_subject: subject, order },
        1 => CredentialFormatProfile::JwtVcJsonLd { types: vec![t(3)], credential_subject: subject, order },
        2 => CredentialFormatProfile::LdpVc {
            context: vec![LinkedDataContext::String(t(3)), LinkedDataContext::Map([("a".to_string(), s(&t(2)))].into_iter().collect())],
            types: vec![t(2)],
            credential_subject: subject,
            order,
        },
        _ => CredentialFormatProfile::MsoMdoc { doctype: t(4), claims: subject, order },
    }
}
