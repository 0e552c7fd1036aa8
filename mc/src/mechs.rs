//! The library's mechanisms, and registries with static lifetime.
use rsasl::mechanisms::{anonymous, external, gssapi, login, oauthbearer, plain, scram, xoauth2};
use rsasl::mechname::Mechname;
use rsasl::registry::Mechanism;
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

pub const ALL: [&str; 13] = [
    "SCRAM-SHA-1",
    "SCRAM-SHA-1-PLUS",
    "SCRAM-SHA-256",
    "SCRAM-SHA-256-PLUS",
    "SCRAM-SHA-512",
    "SCRAM-SHA-512-PLUS",
    "PLAIN",
    "LOGIN",
    "ANONYMOUS",
    "EXTERNAL",
    "XOAUTH2",
    "OAUTHBEARER",
    "GSSAPI",
];
/// Every mechanism name
pub fn all() -> &'static [&'static str] {
    &ALL
}
pub const SCRAM: [&str; 6] = [ALL[0], ALL[1], ALL[2], ALL[3], ALL[4], ALL[5]];
pub const BARE: [&str; 3] = [ALL[0], ALL[2], ALL[4]];
pub const PLUS: [&str; 3] = [ALL[1], ALL[3], ALL[5]];

pub fn desc(name: &str) -> Mechanism {
    match name {
        "SCRAM-SHA-1" => scram::SCRAM_SHA1,
        "SCRAM-SHA-1-PLUS" => scram::SCRAM_SHA1_PLUS,
        "SCRAM-SHA-256" => scram::SCRAM_SHA256,
        "SCRAM-SHA-256-PLUS" => scram::SCRAM_SHA256_PLUS,
        "SCRAM-SHA-512" => scram::SCRAM_SHA512,
        "SCRAM-SHA-512-PLUS" => scram::SCRAM_SHA512_PLUS,
        "PLAIN" => plain::PLAIN,
        "LOGIN" => login::LOGIN,
        "ANONYMOUS" => anonymous::ANONYMOUS,
        "EXTERNAL" => external::EXTERNAL,
        "XOAUTH2" => xoauth2::XOAUTH2,
        "OAUTHBEARER" => oauthbearer::OAUTHBEARER,
        "GSSAPI" => gssapi::GSSAPI,
        _ => panic!("unknown mechanism {name}"),
    }
}

/// A registry slice with exactly these mechanisms, in this order (interned).
pub fn reg(names: &[&str]) -> &'static [Mechanism] {
    static M: OnceLock<Mutex<HashMap<String, &'static [Mechanism]>>> = OnceLock::new();
    let key = names.join(" ");
    let mut g = M.get_or_init(Default::default).lock().unwrap();
    if let Some(x) = g.get(&key) {
        return x;
    }
    let v: Vec<Mechanism> = names.iter().map(|n| desc(n)).collect();
    let s: &'static [Mechanism] = Vec::leak(v);
    g.insert(key, s);
    s
}
pub fn name(s: &str) -> &Mechname {
    Mechname::parse(s.as_bytes()).expect("mechname")
}
pub fn is_plus(m: &str) -> bool {
    m.ends_with("-PLUS")
}
pub fn server_first(m: &str) -> bool {
    m == "LOGIN"
}
