//! Lists what a server offers with the ready-made configurations, built with the linkme registry.
use rsasl::callback::SessionCallback;
use rsasl::prelude::*;
use rsasl::validate::NoValidation;
struct C;
impl SessionCallback for C {}
fn list(what: &str, c: std::sync::Arc<SASLConfig>) {
    let s = SASLServer::<NoValidation>::new(c);
    let mut v: Vec<String> = s.get_available().into_iter().map(|m| m.mechanism.to_string()).collect();
    v.sort();
    println!("{what}: {}", v.join(" "));
}
fn main() {
    list("defaults", SASLConfig::builder().with_defaults().with_callback(C).unwrap());
    list("default_mechanisms", SASLConfig::builder().with_default_mechanisms().with_callback(C).unwrap());
    list("credentials", SASLConfig::with_credentials(None, "u".into(), "p".into()).unwrap());
    list("credentials+authzid", SASLConfig::with_credentials(Some("z".into()), "u".into(), "p".into()).unwrap());
}
