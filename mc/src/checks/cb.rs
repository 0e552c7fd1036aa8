//! C05: channel binding.
use super::scram::{user, Ref, CN};
use super::util::*;
use super::{tree, Check};
use crate::explore::Lib;
use crate::app::{App, VMode};
use crate::drive::{client_cfg, client_via, server_cfg, server_via, Cb, Out, Party, Via, R};
use crate::explore::Ch;
use crate::mechs;
use crate::refscram::{self as rs, b64, unb64, Hash};

pub fn add(v: &mut Vec<Check>) {
    v.push(Check {
        id: "C05",
        trees: vec![
            tree("client", "client: enabled mechanisms x offers x channel binding enabled x preference x data known to the protocol x data and type known to the application", (0, 0), client),
            tree("server", "server: enabled mechanisms x started mechanism x data of protocol and application x flag of the client x binding it presents", (0, 0), server),
            tree("data-bytes", "server: every bit of the presented header and binding data flipped, every truncation, under a proof for the altered value", (0, 0), bytes),
            tree("pair", "both ends real: data and types of both ends, offers as seen by the client", (0, 0), pair),
            tree("downgrade", "both ends real, an attacker rewrites the offers, the flag in the first and the value in the final message", (0, 0), downgrade),
        ],
        assumptions: &["whether a client that enabled channel binding but no -PLUS mechanism says 'y' or 'n' is not judged"],
    });
}

const EXP: &str = "tls-exporter";
const UNI: &str = "tls-unique";
const FOO: &str = "x-foo";
/// The ends of the ranges of characters a type's name may have
const ODD: &str = "azAZ09.-";
const A: &[u8] = b"\x01binding,\x00=\xff";
const B: &[u8] = b"\x01binding,\x00=\xfe";
const C: &[u8] = b"CCC";

type Data = Vec<(String, Vec<u8>)>;
fn d(l: &[(&str, &[u8])]) -> Data {
    l.iter().map(|x| (x.0.to_string(), x.1.to_vec())).collect()
}
fn protocol_data(ch: &mut Ch) -> Data {
    match ch.choose(9) {
        8 => d(&[(EXP, b""), (FOO, b"")]),
        0 => d(&[]),
        1 => d(&[(EXP, A)]),
        2 => d(&[(EXP, B)]),
        3 => d(&[(UNI, A)]),
        4 => d(&[(EXP, A), (UNI, B)]),
        5 => d(&[(UNI, B), (FOO, C)]),
        6 => d(&[(FOO, A), (ODD, C)]),
        _ => d(&[("tls-unique-for-telnet", C), ("tls", C), ("tls-exporter2", C), ("TLS-EXPORTER", C)]),
    }
}
fn app_data(ch: &mut Ch) -> Data {
    match ch.choose(7) {
        0 => d(&[]),
        6 => d(&[(EXP, b""), (UNI, b"")]),
        1 => d(&[(EXP, C)]),
        2 => d(&[(UNI, C)]),
        3 => d(&[(FOO, B)]),
        4 => d(&[(EXP, B), (UNI, A), (FOO, C)]),
        _ => d(&[("", C), ("tls-", C)]),
    }
}
fn lookup<'a>(p: &'a Data, a: &'a Data, n: &str) -> Option<&'a [u8]> {
    p.iter().chain(a).find(|x| x.0 == n).map(|x| &x.1[..])
}
fn alice() -> App {
    App { db: vec![user("alice", b"pa", b"salt", 1)], vmode: VMode::Set("ok"), ..Default::default() }
}
/// prefers the plain mechanism over its -PLUS variant
fn prefer_bare(a: Option<&rsasl::registry::Mechanism>, b: &rsasl::registry::Mechanism) -> std::cmp::Ordering {
    let rank = |m: &rsasl::registry::Mechanism| if m.mechanism.as_str().ends_with("-PLUS") { 1 } else { 2 };
    a.map_or(0, rank).cmp(&rank(b))
}

fn client(ch: &mut Ch) {
    let h = *ch.pick(&Hash::ALL);
    let (ba, pl) = (h.bare(), h.plus());
    let sets: [&[&str]; 3] = [&[ba, pl], &[ba], &[pl]];
    let reg = *ch.pick(&sets);
    let os: [&[&str]; 5] = [&[ba, pl], &[pl, ba], &[ba], &[pl], &["PLAIN", ba, "X-FOO"]];
    let offers = *ch.pick(&os);
    let enable = ch.flip();
    let pref = ch.choose(2);
    let ov = *ch.pick(&[None, Some(EXP), Some(UNI), Some(FOO), Some("tls-server-end-point")]);
    let p = protocol_data(ch);
    let a = app_data(ch);
    let z = *ch.pick(&[None, Some("zed")]);
    let mut app = App {
        authid: Some("alice".into()),
        authzid: z.map(Into::into),
        password: Some(b"pa".to_vec()),
        override_cb: ov.map(Into::into),
        cbdata: a.clone(),
        enable_cb: enable,
        handle_cached: true,
        ..Default::default()
    };
    if pref == 1 {
        app.prefer = Some(prefer_bare);
    }
    let what = format!("enabled {reg:?}, offered {offers:?}, cb enabled {enable}, preference {pref}, override {ov:?}, protocol {p:?}, app {a:?}");
    let plus_possible = enable && reg.contains(&pl) && offers.contains(&pl);
    let bare_possible = reg.contains(&ba) && offers.contains(&ba);
    let via = if p.is_empty() && ch.flip() { Via::Provided } else { Via::Own };
    let mut c = match client_via(app.config(mechs::reg(reg)), offers, Cb(p.clone()), via) {
        Err(_) => {
            ch.check(!plus_possible && !bare_possible, "not-started", || format!("{what}: the client did not start"));
            ch.outcome("not started");
            return;
        }
        Ok(c) => c,
    };
    let plus = c.mech() == pl;
    ch.check(if plus { plus_possible } else { bare_possible }, "mechanism", || format!("{what}: {} was selected", c.mech()));
    ch.check(plus == (plus_possible && !(pref == 1 && bare_possible)), "preference", || format!("{what}: {} was selected", c.mech()));
    let o = c.step(ch, None);
    let t = o.text();
    let flag = t.split(',').next().unwrap_or("").to_string();
    let data: Vec<u8> = if plus {
        let e = lookup(&p, &a, EXP);
        let u = lookup(&p, &a, UNI);
        let possible = match ov {
            Some(n) => lookup(&p, &a, n).is_some(),
            None => e.is_some() || u.is_some(),
        };
        if !possible {
            ch.check(o.r.is_err(), "no-data", || format!("{what}: without binding data the client sent {t:?}"));
            ch.outcome("no data");
            return;
        }
        let Some(n) = flag.strip_prefix("p=").filter(|_| o.r == R::Running) else {
            ch.fail("flag", format!("{what}: a -PLUS client sent {t:?} {:?}", o.r));
            return;
        };
        let named = match ov {
            Some(x) => n == x,
            // data for both types: the protocol's tls-exporter data wins
            None if p.iter().any(|x| x.0 == EXP) => n == EXP,
            None => n == EXP || n == UNI,
        };
        ch.check(named, "type", || format!("{what}: the client named {n:?}"));
        let Some(x) = lookup(&p, &a, n) else {
            ch.fail("type", format!("{what}: the client named {n:?} without having data"));
            return;
        };
        ch.outcome(format!("p={n}"));
        x.to_vec()
    } else {
        let offered = offers.contains(&pl);
        let truthful = match (enable, reg.contains(&pl), offered) {
            (false, _, _) => flag == "n",
            (true, _, true) => flag == "n",
            (true, true, false) => flag == "y",
            (true, false, false) => flag == "n" || flag == "y",
        };
        ch.check(o.r == R::Running && truthful, "flag", || format!("{what}: the client sent {t:?} {:?}", o.r));
        ch.outcome(flag.clone());
        vec![]
    };
    // the final message carries exactly the header and the data
    let mut r = Ref::new(h, &flag, z, &data, "alice", t.rsplit_once(",r=").map_or("", |x| x.1));
    ch.check(t == r.first(), "client-first", || format!("{what}: the client sent {t:?}, expected {:?}", r.first()));
    r.sf = rs::server_first(&format!("{}srv", t.rsplit_once(",r=").map_or("", |x| x.1)), b"salt", 1);
    let sf = r.sf.clone();
    let o = c.step(ch, Some(sf.as_bytes()));
    let fin = r.fin(b"pa");
    ch.check(o.r == R::Running && o.text() == fin, "client-final", || format!("{what}: {:?} {:?}, expected {fin:?}", o.r, o.text()));
    // a verifier for an exchange with other binding data is not accepted
    if ch.flip() {
        let mut q = r.clone();
        q.cb = if data == B { A.to_vec() } else { B.to_vec() };
        let o = c.step(ch, Some(q.verifier(b"pa").as_bytes()));
        ch.check(o.r.is_err(), "verifier", || format!("{what}: accepted a server that saw other binding data"));
    } else {
        let o = c.step(ch, Some(r.verifier(b"pa").as_bytes()));
        ch.check(o.r == R::FinNo, "verifier", || format!("{what}: {:?}", o.r));
    }
}

fn check_final(ch: &mut Ch, what: &str, o: &Out, s: &mut Party, app: &App, good: Option<String>) {
    match good {
        Some(v) => {
            ch.check(o.r == R::FinYes && o.text() == v && app.n_val() == 1, "honest-refused", || {
                format!("{what}: {:?} {:?}, {} validations", o.r, o.text(), app.n_val())
            });
            ch.outcome("accepted");
        }
        None => {
            ch.check(app.n_val() == 0 && s.validation().is_none(), "accepted", || format!("{what}: validation ran"));
            ch.check(o.r.is_err() || crate::checks::scram::error_message(&o.bytes), "accepted", || format!("{what}: {:?} {:?}", o.r, o.text()));
            ch.outcome(if o.r.is_err() { "error".into() } else { o.text() });
        }
    }
}

fn server(ch: &mut Ch) {
    let h = *ch.pick(&Hash::ALL);
    let (ba, pl) = (h.bare(), h.plus());
    let sets: [&[&str]; 4] = [&[ba, pl], &[pl, ba], &[ba], &[pl]];
    let reg = *ch.pick(&sets);
    let m = *ch.pick(reg);
    // another hash's -PLUS mechanism says nothing about this one: judged only where it is enabled too
    let p = protocol_data(ch);
    let a = app_data(ch);
    let mut app = alice();
    app.cbdata = a.clone();
    app.enable_cb = ch.flip();
    let flag = *ch.pick(&["n", "y", "p=tls-exporter", "p=tls-unique", "p=x-foo", "p=azAZ09.-", "p=", "p=TLS-EXPORTER", "p=tls-none", "p", "f", "", "y=tls-exporter", "n=tls-exporter"]);
    let z = *ch.pick(&[None, Some("zed")]);
    let what = format!("enabled {reg:?}, started {m}, protocol {p:?}, app {a:?}: flag {flag:?}");
    let via = if p.is_empty() && ch.flip() { Via::Provided } else { Via::Own };
    let mut s = server_via(app.config(mechs::reg(reg)), m, Cb(p.clone()), via).lib("a session could not be started");
    let mut r = Ref::new(h, flag, z, b"", "alice", CN);
    let o = s.step(ch, Some(r.first().as_bytes()));
    let name = flag.strip_prefix("p=");
    // None: refuse; Some(data)
    let want: Option<Vec<u8>> = match flag {
        "n" if m == ba => Some(vec![]),
        "y" if m == ba && !reg.contains(&pl) => Some(vec![]),
        // An empty type name is not well-formed
        "p=" => None,
        _ => name.and_then(|n| lookup(&p, &a, n)).map(<[u8]>::to_vec),
    };
    let Some(data) = want else {
        ch.check(o.r.is_err() && o.bytes.is_empty(), "first-accepted", || format!("{what}: {:?} {:?}", o.r, o.text()));
        ch.outcome("first refused");
        ch.check(app.n_val() == 0, "validated", || format!("{what}: validation ran"));
        return;
    };
    r.sf = o.text();
    if o.r != R::Running || r.nonce().is_empty() || r.iterations() != 1 {
        ch.fail("honest-refused", format!("{what}: {:?} {:?}", o.r, o.text()));
        return;
    }
    r.cb = data.clone();
    let head = rs::gs2(flag, z);
    let cat = |h: &str, d: &[u8]| [h.as_bytes(), d].concat();
    let app_d = name.and_then(|n| a.iter().find(|x| x.0 == n)).map(|x| x.1.clone()).unwrap_or(C.to_vec());
    let full = cat(&head, &data);
    let k = ch.choose(15);
    let c: String = match k {
        0 => b64(&full),
        1 => b64(&cat(&head, b"")),
        2 => b64(&cat(&head, A)),
        3 => b64(&cat(&head, B)),
        4 => b64(&cat(&head, &app_d)),
        5 => b64(&[&full[..], b"\0"].concat()),
        6 => b64(&full[..full.len() - 1]),
        7 => b64(&cat(&rs::gs2("n", z), &data)),
        8 => b64(&cat(&rs::gs2("y", z), &data)),
        9 => b64(&cat(&rs::gs2("p=tls-exporter", z), &data)),
        10 => b64(&cat(&rs::gs2(flag, if z.is_some() { None } else { Some("zed") }), &data)),
        11 => b64(&cat(&rs::gs2(flag, Some("zee")), &data)),
        12 => String::new(),
        13 => "biws".into(),
        _ => b64(&data),
    };
    let same = unb64(c.as_bytes()).as_deref() == Some(&full[..]);
    let bare = format!("c={c},r={}", r.nonce());
    let am = rs::auth_message(&r.bare, &r.sf, &bare);
    let ck = h.client_key(&r.salted(b"pa"));
    let m = format!("{bare},p={}", b64(&h.proof(&ck, am.as_bytes())));
    let o = s.step(ch, Some(m.as_bytes()));
    let what = format!("{what}: {m}");
    check_final(ch, &what, &o, &mut s, &app, same.then(|| r.verifier(b"pa")));
    if same {
        one_validation(ch, &what, &app, &{
            let mut v = vec![(crate::app::P::AuthId, crate::checks::util::s("alice"))];
            if let Some(z) = z {
                v.push((crate::app::P::AuthzId, crate::checks::util::s(z)));
            }
            v
        });
    }
}

fn bytes(ch: &mut Ch) {
    let h = *ch.pick(&Hash::ALL);
    let data: Vec<u8> = match ch.choose(3) {
        0 => A.to_vec(),
        1 => b"x".to_vec(),
        _ => (0..64).map(|i| (i * 5) as u8).collect(),
    };
    let plus = ch.flip();
    let app = alice();
    let mut s = Party::server(&app, if plus { h.plus() } else { h.bare() }, Cb(d(&[(EXP, &data)])));
    let z = *ch.pick(&[None, Some("zed")]);
    let mut r = Ref::new(h, "p=tls-exporter", z, &data, "alice", CN);
    let o = s.step(ch, Some(r.first().as_bytes()));
    r.sf = o.text();
    if o.r != R::Running {
        ch.fail("honest-refused", format!("{:?} {:?}", o.r, o.text()));
        return;
    }
    let full = [rs::gs2("p=tls-exporter", z).as_bytes(), &data].concat();
    let mut x = full.clone();
    match ch.choose(4) {
        0 => {
            let i = ch.choose(x.len() * 8);
            x[i / 8] ^= 1 << (i % 8);
        }
        1 => {
            let n = ch.choose(x.len());
            x.truncate(n);
        }
        2 => {
            let i = ch.choose(x.len() + 1);
            x.insert(i, *ch.pick(&[0u8, b',', b'x', 0xff]));
        }
        _ => {
            let i = ch.choose(x.len());
            x.remove(i);
        }
    }
    let bare = format!("c={},r={}", b64(&x), r.nonce());
    let am = rs::auth_message(&r.bare, &r.sf, &bare);
    let m = format!("{bare},p={}", b64(&h.proof(&h.client_key(&r.salted(b"pa")), am.as_bytes())));
    let o = s.step(ch, Some(m.as_bytes()));
    check_final(ch, &format!("binding {x:?} instead of {full:?}"), &o, &mut s, &app, (x == full).then(|| r.verifier(b"pa")));
}

/// A client and a server; `offers`: what the client sees of the server's list
struct Two {
    c: Party,
    s: Party,
    sapp: App,
    what: String,
    /// the data each end has for a type
    cd: (Data, Data),
    sd: (Data, Data),
}
fn two(ch: &mut Ch, h: Hash, creg: &[&str], sreg: &[&str], offers: &[&str], enable: bool, small: bool) -> Option<Two> {
    let ov = if small { None } else { *ch.pick(&[None, Some(EXP), Some(UNI), Some(FOO)]) };
    let (cp, ca, sp, sa) = if small {
        (d(&[(EXP, A)]), d(&[]), d(&[(EXP, A)]), d(&[]))
    } else {
        let ad = |ch: &mut Ch| match ch.choose(2) {
            0 => d(&[]),
            _ => d(&[(EXP, C), (FOO, A)]),
        };
        (protocol_data(ch), ad(ch), protocol_data(ch), ad(ch))
    };
    let capp = App {
        authid: Some("alice".into()),
        password: Some(b"pa".to_vec()),
        override_cb: ov.map(Into::into),
        cbdata: ca.clone(),
        enable_cb: enable,
        handle_cached: true,
        ..Default::default()
    };
    let mut sapp = alice();
    sapp.cbdata = sa.clone();
    let what = format!(
        "{} client enabled {creg:?} cb {enable} override {ov:?} data {cp:?} app {ca:?}; server enabled {sreg:?} data {sp:?} app {sa:?}; offered {offers:?}",
        h.bare()
    );
    let c = match client_cfg(capp.config(mechs::reg(creg)), offers, Cb(cp.clone())) {
        Ok(c) => c,
        Err(_) => return None,
    };
    let s = server_cfg(sapp.config(mechs::reg(sreg)), c.mech(), Cb(sp.clone())).ok()?;
    Some(Two { c, s, sapp, what, cd: (cp, ca), sd: (sp, sa) })
}

fn pair(ch: &mut Ch) {
    let h = *ch.pick(&Hash::ALL);
    let (ba, pl) = (h.bare(), h.plus());
    let sets: [&[&str]; 3] = [&[ba, pl], &[ba], &[pl]];
    let creg = *ch.pick(&sets);
    let sreg = *ch.pick(&sets);
    let enable = ch.flip();
    let Some(mut t) = two(ch, h, creg, sreg, sreg, enable, false) else {
        ch.outcome("not started");
        return;
    };
    let m1 = t.c.step(ch, None);
    if m1.r.is_err() {
        // judged by the tree "client"
        ch.outcome("client: no data");
        return;
    }
    let text = m1.text();
    let flag = text.split(',').next().unwrap_or("");
    let m2 = t.s.step(ch, Some(&m1.bytes));
    let cd = flag.strip_prefix("p=").map(|n| (lookup(&t.cd.0, &t.cd.1, n), lookup(&t.sd.0, &t.sd.1, n)));
    if m2.r.is_err() {
        ch.check(matches!(cd, Some((_, None))), "honest-refused", || format!("{}: {text:?} is refused: {:?}", t.what, m2.r));
        ch.outcome("server: no data");
        ch.check(t.sapp.n_val() == 0, "validated", || format!("{}: validation ran", t.what));
        return;
    }
    let m3 = t.c.step(ch, Some(&m2.bytes));
    let m4 = t.s.step(ch, Some(&m3.bytes));
    let agree = match cd {
        None => t.c.mech() == ba,
        Some((c, s)) => c.is_some() && c == s,
    };
    let m5 = t.c.step(ch, Some(&m4.bytes));
    if agree {
        ch.check(m4.r == R::FinYes && t.sapp.n_val() == 1 && m5.r == R::FinNo, "honest-refused", || {
            format!("{}: {text:?}: server {:?}, client {:?}", t.what, m4.r, m5.r)
        });
        ch.outcome(format!("complete {flag}"));
    } else {
        ch.check(t.sapp.n_val() == 0 && t.s.validation().is_none(), "accepted", || format!("{}: validated without agreement", t.what));
        ch.check(m5.r.is_err(), "client-accepted", || format!("{}: client finished without agreement", t.what));
        ch.check(m4.r.is_err() || crate::checks::scram::error_message(&m4.bytes), "accepted", || format!("{}: {:?} {:?}", t.what, m4.r, m4.text()));
        ch.outcome("mismatch");
    }
}

fn downgrade(ch: &mut Ch) {
    let h = *ch.pick(&Hash::ALL);
    let (ba, pl) = (h.bare(), h.plus());
    let both: &[&str] = &[ba, pl];
    let offered: [&[&str]; 3] = [&[ba], &[ba, pl], &[pl]];
    let offers = *ch.pick(&offered);
    let enable = ch.flip();
    let Some(mut t) = two(ch, h, both, both, offers, enable, true) else {
        ch.outcome("not started");
        return;
    };
    // the attacker may also make the server run the other mechanism
    if ch.flip() {
        let other = if t.c.mech() == ba { pl } else { ba };
        t.s = server_cfg(t.sapp.config(mechs::reg(both)), other, Cb(d(&[(EXP, A)]))).lib("a session could not be started");
    }
    let m1 = t.c.step(ch, None);
    let text = m1.text();
    let flag = text.split(',').next().unwrap_or("").to_string();
    let new = *ch.pick(&["", "n", "y", "p=tls-exporter", "p=tls-unique"]);
    let new = if new.is_empty() { flag.clone() } else { new.to_string() };
    let f = format!("{new}{}", &text[flag.len()..]);
    let m2 = t.s.step(ch, Some(f.as_bytes()));
    let what = format!("{}: {} server, flag {flag} becomes {new}", t.what, t.s.mech());
    let stripped = enable && offers == [ba];
    if m2.r.is_err() {
        ch.outcome("refused");
        ch.check(t.sapp.n_val() == 0, "validated", || format!("{what}: validation ran"));
        ch.check(
            new != flag || stripped || t.s.mech() != t.c.mech(),
            "honest-refused",
            || format!("{what}: {:?}", m2.r),
        );
        return;
    }
    let m3 = t.c.step(ch, Some(&m2.bytes));
    let t3 = m3.text();
    let rest = t3.split_once(',').map_or("", |x| x.1);
    let c = match ch.choose(4) {
        0 => t3.split(',').next().unwrap_or("").to_string(),
        1 => format!("c={}", b64(format!("{new},,").as_bytes())),
        2 => format!("c={}", b64(&[format!("{new},,").as_bytes(), A].concat())),
        _ => format!("c={}", b64(format!("{flag},,").as_bytes())),
    };
    let f3 = format!("{c},{rest}");
    let unchanged = new == flag && f3 == t3;
    let m4 = t.s.step(ch, Some(f3.as_bytes()));
    let m5 = t.c.step(ch, Some(&m4.bytes));
    let what = format!("{what}, {t3:?} becomes {f3:?}");
    // with everything but the offers unchanged the server must still refuse a client that was lied to
    if unchanged && !stripped {
        // A -PLUS client's messages to a plain server still bind; a plain client's to -PLUS are refused above
        ch.check(m4.r == R::FinYes && m5.r == R::FinNo && t.sapp.n_val() == 1, "honest-refused", || format!("{what}: {:?} {:?}", m4.r, m5.r));
        ch.outcome(format!("complete {flag}"));
    } else {
        ch.check(t.sapp.n_val() == 0 && t.s.validation().is_none(), "accepted", || format!("{what}: validation ran"));
        ch.check(m5.r.is_err(), "client-accepted", || format!("{what}: the client finished"));
        ch.outcome("detected");
    }
}
