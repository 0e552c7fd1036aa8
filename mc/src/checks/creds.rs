//! C26: configurations made of credentials.
use super::scram::user;
use super::util::*;
use super::{tree, Check};
use crate::explore::Lib;
use crate::app::{describe, App, VMode, P, V};
use crate::drive::{client_cfg, no_cb, Duo, Party};
use crate::explore::Ch;
use crate::mechs;
use rsasl::prelude::*;
use std::sync::Arc;

pub fn add(v: &mut Vec<Check>) {
    v.push(Check {
        id: "C26",
        trees: vec![
            tree("offers", "every set of offered mechanisms (2^13, both orders, and with unknown names) x authorization identities (none, equal to, part of or containing the user name)", (0, 0), offers),
            tree("orders", "every sequence of up to 4 (thorough 5) offered password mechanisms", (0, 0), orders),
            tree("exchanges", "user names x passwords x authorization identities of the lists x mechanism x what the server knows", (0, 0), exchanges),
            tree("values", "texts of many lengths, every ASCII character and representatives of the others in every position, known words, in one of user name, password and authorization identity", (0, 0), values),
            tree("empty", "an empty password or user name: the exchange succeeds with it or is refused, but is never about anything else", (0, 0), empty),
            tree("near misses", "every single edit of a password and of a user name known to the server", (0, 0), near),
            tree("sessions", "every sequence of up to 3 (thorough 4) exchanges of different mechanisms and outcomes with one configuration", (0, 0), sessions),
        ],
        assumptions: &["credentials are in the form SASLprep yields, and without NUL"],
    });
}
const PW: [&str; 5] = ["SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN", "LOGIN"];

fn config(z: Option<&str>, u: &str, p: &str) -> Arc<SASLConfig> {
    SASLConfig::with_credentials(z.map(Into::into), u.into(), p.into()).lib("no configuration")
}
fn allowed(z: bool) -> &'static [&'static str] {
    if z {
        &PW[..4]
    } else {
        &PW
    }
}
type Creds = (Option<&'static str>, &'static str, &'static str);
/// related in all ways: equal, contained in each other, empty
const CREDS: [Creds; 12] = [
    (None, "user", "pencil"),
    (Some("zed"), "user", "pencil"),
    (Some("user"), "user", "pencil"),
    (Some("pencil"), "user", "pencil"),
    (Some(""), "user", "pencil"),
    (Some("u"), "user", "pencil"),
    (Some("users"), "user", "pencil"),
    (Some("User"), "user", "user"),
    (Some("\u{e9}"), "\u{e9}", "\u{e9}"),
    (None, "user", "user"),
    (None, "\u{e9}", "p\u{e9}"),
    (None, "a,b=c", " "),
];
fn start(ch: &mut Ch, (z, u, p): Creds, offered: &[&str]) {
    let what = format!("authorization identity {z:?}, user {u:?}, password {p:?}, offered {offered:?}");
    let r = client_cfg(config(z, u, p), offered, no_cb());
    ch.step();
    let got = r.as_ref().ok().map(|p| p.mech().to_string());
    let can: Vec<&str> = allowed(z.is_some()).iter().copied().filter(|m| offered.contains(m)).collect();
    ch.obs(&(&got, z.is_some(), offered.len()));
    let ok = match &got {
        Some(g) => can.contains(&g.as_str()),
        None => can.is_empty(),
    };
    ch.check(ok, "selected", || format!("{what}: selected {got:?}, possible are {can:?}"));
    ch.outcome(got.unwrap_or("none".into()));
}
fn offers(ch: &mut Ch) {
    let c = *ch.pick(&CREDS);
    let mut o: Vec<&str> = vec![];
    for m in mechs::all() {
        if ch.flip() {
            o.push(m);
        }
    }
    match ch.choose(3) {
        0 => {}
        1 => o.reverse(),
        _ => {
            o.insert(0, "X-UNKNOWN");
            o.push("SCRAM-SHA-25");
            o.push("PLAINX");
        }
    }
    start(ch, c, &o);
}
fn orders(ch: &mut Ch) {
    let c = *ch.pick(&CREDS);
    let n = ch.choose(if ch.thorough { 6 } else { 5 });
    let o: Vec<&str> = (0..n).map(|_| *ch.pick(&PW)).collect();
    start(ch, c, &o);
}

/// One exchange; the outcome at the server: the value, if it let the client in
fn run(ch: &mut Ch, cfg: &Arc<SASLConfig>, mech: &str, sapp: &App) -> (Option<String>, bool) {
    let c = client_cfg(cfg.clone(), &[mech], no_cb()).lib("a session could not be started");
    let sv = Party::server(sapp, mech, no_cb());
    let mut d = Duo { c, s: sv };
    let r = d.run(ch);
    if let Some(a) = &r.anomaly {
        ch.fail("anomaly", format!("{mech}: {a}"));
    }
    (d.s.validation(), r.both_finished())
}
fn ctx(mech: &str, z: Option<&str>, u: &str, p: &str) -> Vec<(P, V)> {
    let mut v = vec![(P::AuthId, s(u))];
    if mech != "LOGIN" {
        v.push((P::AuthzId, s(z.unwrap_or(""))));
    }
    if matches!(mech, "PLAIN" | "LOGIN") {
        v.push((P::Password, b(p.as_bytes())));
    }
    v
}
const USERS: &[&str] = &["user", "a", "u,v=w", "\u{e9}t\u{e9}", "user name", "\u{6f22}\u{5b57}", "=2C", "n=x,r=y"];
const PASSES: &[&str] = &["pencil", "p", "a,b=c", "p\u{e9}", "\u{6f22}", "0123456789012345678901234567890123456789012345678901234567890123456789", "pass word"];
const ZS: &[Option<&str>] = &[None, Some("zed"), Some("a,b=c"), Some("\u{e9}"), Some("user")];

fn server(users: Vec<crate::app::User>) -> App {
    App { db: users, vmode: VMode::Db, ..Default::default() }
}
fn exchanges(ch: &mut Ch) {
    let u = *ch.pick(USERS);
    let p = *ch.pick(PASSES);
    let z = *ch.pick(ZS);
    let m = *ch.pick(allowed(z.is_some()));
    let know = ch.choose(6);
    let (salt, i) = *ch.pick(&[(&b"salt"[..], 1), (b"\x00\xff,=", 3)]);
    let other = user("other", p.as_bytes(), salt, i);
    let db = match know {
        0 => vec![user(u, p.as_bytes(), salt, i)],
        1 => vec![other, user(u, p.as_bytes(), salt, i)],
        2 => vec![user(u, b"another", salt, i)],
        3 => vec![user(u, b"another", salt, i), other],
        4 => vec![],
        _ => vec![other],
    };
    let sapp = server(db);
    let cfg = config(z, u, p);
    let what = format!("user {u:?}, password {p:?}, authorization identity {z:?}, {m}, server {know}");
    let (v, fin) = run(ch, &cfg, m, &sapp);
    let good = know < 2;
    if good {
        ch.check(fin, "refused", || format!("{what}: the exchange failed"));
        one_validation(ch, &what, &sapp, &ctx(m, z, u, p));
        ch.check(v.is_some(), "value", || format!("{what}: the server did not let the client in"));
        ch.outcome("in");
    } else {
        ch.check(v.is_none(), "let-in", || format!("{what}: the server let in {v:?}"));
        if m.starts_with("SCRAM") {
            no_validation(ch, &what, &sapp);
            ch.check(!fin, "finished", || format!("{what}: both ends finished"));
        } else {
            one_validation(ch, &what, &sapp, &ctx(m, z, u, p));
        }
        ch.outcome("out");
    }
}
/// Whatever the credentials are, they arrive at the server as given.
fn values(ch: &mut Ch) {
    let prep = |x: String| if stringprep::saslprep(&x).is_ok_and(|y| y == x) && !x.is_empty() { x } else { "q".to_string() };
    let w = ch.choose(3);
    let v = prep(text(ch, |c| c != '\0'));
    let (mut u, mut p, mut z) = ("user".to_string(), "pencil".to_string(), None);
    match w {
        0 => u = v,
        1 => p = v,
        _ => z = Some(v),
    }
    let m = *ch.pick(&if z.is_some() { vec!["SCRAM-SHA-256", "PLAIN"] } else { vec!["SCRAM-SHA-256", "PLAIN", "LOGIN"] });
    let know = ch.flip();
    let known = if know { p.clone() } else { format!("{p}x") };
    let sapp = server(vec![user(&u, known.as_bytes(), b"salt", 1)]);
    let what = format!("{m}, user {u:?}, password {p:?}, authorization identity {z:?}, known to the server: {know}");
    let (v, fin) = run(ch, &config(z.as_deref(), &u, &p), m, &sapp);
    ch.check(v.is_some() == know, "value", || format!("{what}: the server's value is {v:?}"));
    if know {
        ch.check(fin, "refused", || format!("{what}: the exchange failed"));
    }
    if know || !m.starts_with("SCRAM") {
        one_validation(ch, &what, &sapp, &ctx(m, z.as_deref(), &u, &p));
    } else {
        no_validation(ch, &what, &sapp);
    }
    ch.outcome(format!("{know}"));
}
fn empty(ch: &mut Ch) {
    let z = *ch.pick(&[None, Some("zed")]);
    let (u, p) = *ch.pick(&[("user", ""), ("", "pencil"), ("", "")]);
    let m = *ch.pick(allowed(z.is_some()));
    let know = ch.flip();
    let sapp = server(vec![user(u, if know { p.as_bytes() } else { b"x" }, b"salt", 1), user("other", b"", b"salt", 1)]);
    let what = format!("{m}, user {u:?}, password {p:?}, authorization identity {z:?}, known to the server: {know}");
    let c = client_cfg(config(z, u, p), &[m], no_cb()).lib("a session could not be started");
    let mut d = Duo { c, s: Party::server(&sapp, m, no_cb()) };
    let r = d.run(ch);
    if let Some(a) = &r.anomaly {
        ch.fail("anomaly", format!("{what}: {a}"));
    }
    // LOGIN passes everything on, an empty password is one for SCRAM
    let must = m == "LOGIN" || (m.starts_with("SCRAM") && !u.is_empty());
    let v = d.s.validation();
    ch.check(v.is_none() || know, "let-in", || format!("{what}: the server let in {v:?}"));
    if know && must {
        ch.check(r.both_finished() && v.is_some(), "refused", || format!("{what}: {r:?}, value {v:?}"));
    }
    if sapp.n_val() > 0 || (must && know) {
        one_validation(ch, &what, &sapp, &ctx(m, z, u, p));
    }
    ch.outcome(format!("{m} {}", if v.is_some() { "in" } else { "out" }));
}
/// All single edits of a text over a small alphabet
fn edit(ch: &mut Ch, t: &str) -> String {
    const AL: &[char] = &['a', 'P', ' ', ',', '=', '0', '\u{e9}', 'p'];
    let mut c: Vec<char> = t.chars().collect();
    match ch.choose(4) {
        0 => {
            let i = ch.choose(c.len());
            c[i] = *ch.pick(AL);
        }
        1 => {
            let i = ch.choose(c.len());
            c.remove(i);
        }
        2 => {
            let i = ch.choose(c.len() + 1);
            c.insert(i, *ch.pick(AL));
        }
        _ => {
            let i = ch.choose(c.len());
            let x = c[i];
            c[i] = if x.is_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
        }
    }
    c.into_iter().collect()
}
fn near(ch: &mut Ch) {
    let m = *ch.pick(&PW);
    let z = if m == "LOGIN" { None } else { *ch.pick(&[None, Some("zed")]) };
    let (u, p) = ("pap a", "secre");
    let (mut u2, mut p2) = (u.to_string(), p.to_string());
    if ch.flip() {
        u2 = edit(ch, u);
    } else {
        p2 = edit(ch, p);
    }
    if (u2.as_str(), p2.as_str()) == (u, p) || p2.is_empty() || u2.is_empty() {
        return;
    }
    // leading, trailing and doubled spaces are not changed by SASLprep
    let sapp = server(vec![user(u, p.as_bytes(), b"salt", 1)]);
    let what = format!("{m}, server knows {u:?} {p:?}, client {u2:?} {p2:?}");
    let (v, fin) = run(ch, &config(z, &u2, &p2), m, &sapp);
    ch.check(v.is_none(), "let-in", || format!("{what}: the server let in {v:?}"));
    if m.starts_with("SCRAM") {
        no_validation(ch, &what, &sapp);
        ch.check(!fin, "finished", || format!("{what}: both ends finished"));
    } else {
        one_validation(ch, &what, &sapp, &ctx(m, z, &u2, &p2));
    }
    ch.outcome("out");
}
fn sessions(ch: &mut Ch) {
    let z = *ch.pick(&[None, Some("zed")]);
    let cfg = config(z, "user", "pencil");
    let good = server(vec![user("user", b"pencil", b"salt", 1)]);
    let bad = server(vec![user("user", b"other", b"salt", 1)]);
    let mut what = format!("authorization identity {z:?}");
    for _ in 0..if ch.thorough { 4 } else { 3 } {
        let m = *ch.pick(allowed(z.is_some()));
        let ok = ch.flip();
        let sapp = if ok { good.fresh() } else { bad.fresh() };
        what.push_str(&format!(", {m} {ok}"));
        let (v, _) = run(ch, &cfg, m, &sapp);
        let want = ok.then(|| describe(&vec![(P::AuthId, s("user"))].into_iter().chain(z.map(|z| (P::AuthzId, s(z)))).collect()));
        let same = match (&v, &want) {
            (None, None) => true,
            // an absent authorization identity may be shown as the empty one
            (Some(a), Some(b)) => a.replace("Some(\"\")", "None") == *b,
            _ => false,
        };
        ch.check(same, "value", || format!("{what}: the server's value is {v:?}, expected {want:?}"));
        if ok || !m.starts_with("SCRAM") {
            one_validation(ch, &what, &sapp, &ctx(m, z, "user", "pencil"));
        } else {
            no_validation(ch, &what, &sapp);
        }
        if ch.failed() {
            return;
        }
    }
    ch.outcome("ok");
}
