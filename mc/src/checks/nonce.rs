//! C25: nonces.
use super::scram::{user, Ref};
use super::util::*;
use super::{tree, Check};
use crate::app::{App, VMode};
use crate::drive::{no_cb, Cb, Party, R};
use crate::explore::Ch;
use crate::mechs;
use crate::refscram::{self as rs, Hash};
use std::collections::HashSet;
use std::sync::{Mutex, OnceLock};

pub fn add(v: &mut Vec<Check>) {
    v.push(Check {
        id: "C25",
        trees: vec![
            tree("histories", "every sequence of up to 5 (thorough 6) operations that start, step, repeat, starve or abandon client and server sessions; no 12 characters of any nonce may ever occur in another", (0, 0), histories),
            tree("peers", "server nonces for every client nonce of the list, repeated, and for the server's own earlier nonces", (0, 0), peers),
            tree("threads", "sessions started at once from 1 to 8 fresh threads", (0, 0), threads),
            tree("processes", "sessions of fresh processes", (0, 0), processes),
            tree("spread", "2000 sessions of each mechanism and side: alphabet of every position, dependencies between positions", (0, 0), spread),
        ],
        assumptions: &["unpredictability is judged by freshness, alphabet and independence of positions, not by the quality of the system's random source"],
    });
}
const LEN: usize = 24;
const W: usize = 12;

/// Windows of W characters of every nonce of this process
fn seen() -> &'static Mutex<HashSet<[u8; W]>> {
    static S: OnceLock<Mutex<HashSet<[u8; W]>>> = OnceLock::new();
    S.get_or_init(Default::default)
}
fn well_formed(n: &str) -> Result<(), String> {
    if n.len() < LEN {
        return Err(format!("nonce {n:?} is only {} characters long", n.len()));
    }
    match n.bytes().find(|b| !(0x21..=0x7e).contains(b) || *b == b',') {
        Some(b) => Err(format!("nonce {n:?} contains the byte {b:#x}")),
        None => Ok(()),
    }
}
/// Takes note of a fresh nonce.
fn fresh(ch: &mut Ch, what: &str, n: &str) {
    if let Err(e) = well_formed(n) {
        ch.fail("malformed", format!("{what}: {e}"));
        return;
    }
    let mut g = seen().lock().unwrap();
    let mut dup = false;
    for w in n.as_bytes().windows(W) {
        dup |= g.contains::<[u8; W]>(w.try_into().unwrap());
    }
    for w in n.as_bytes().windows(W).step_by(6) {
        g.insert(w.try_into().unwrap());
    }
    drop(g);
    ch.check(!dup, "repeated", || format!("{what}: the nonce {n:?} repeats (part of) an earlier nonce of this process"));
}
fn client_nonce(text: &str) -> &str {
    text.rsplit_once(",r=").map_or("", |x| x.1)
}
fn capp() -> App {
    App { authid: Some("alice".into()), password: Some(b"pa".to_vec()), handle_cached: true, ..Default::default() }
}
fn sapp() -> App {
    App { db: vec![user("alice", b"pa", b"salt", 1)], vmode: VMode::Set("ok"), ..Default::default() }
}
fn cb_for(m: &str) -> Cb {
    if mechs::is_plus(m) {
        exporter()
    } else {
        no_cb()
    }
}
fn first_for(m: &str, nonce: &str, name: &str) -> Ref {
    let h = *Hash::ALL.iter().find(|h| h.bare() == m || h.plus() == m).unwrap();
    if mechs::is_plus(m) {
        Ref::new(h, "p=tls-exporter", None, b"\x01binding", name, nonce)
    } else {
        Ref::new(h, "n", None, b"", name, nonce)
    }
}

fn histories(ch: &mut Ch) {
    let m = *ch.pick(&mechs::SCRAM);
    let n = 1 + ch.choose(if ch.thorough { 6 } else { 5 });
    let mut cs: Vec<(Party, Option<Ref>)> = vec![];
    let mut ss: Vec<(Party, Option<Ref>)> = vec![];
    let mut last_client = String::from("N0nce");
    for k in 0..n {
        let what = format!("{m}, operation {k}");
        match ch.choose(7) {
            // a new client
            0 => {
                let mut c = Party::client(&capp(), m, cb_for(m));
                let o = c.step(ch, None);
                let t = o.text();
                let cn = client_nonce(&t).to_string();
                let r = first_for(m, &cn, "alice");
                ch.check(o.r == R::Running && t == r.first(), "client-first", || format!("{what}: {:?} {t:?}", o.r));
                fresh(ch, &what, &cn);
                last_client = cn;
                cs.push((c, Some(r)));
            }
            // a new server for a known or unknown user, with the last client's nonce
            x @ (1 | 2) => {
                let mut s = Party::server(&sapp(), m, cb_for(m));
                let mut r = first_for(m, &last_client, if x == 1 { "alice" } else { "mallory" });
                let o = s.step(ch, Some(r.first().as_bytes()));
                r.sf = o.text();
                let sn = r.nonce().to_string();
                let Some(ext) = sn.strip_prefix(&last_client).filter(|_| o.r == R::Running) else {
                    ch.fail("extension", format!("{what}: {:?} {:?}, client nonce {last_client:?}", o.r, r.sf));
                    return;
                };
                fresh(ch, &what, ext);
                ss.push((s, Some(r)));
            }
            // a starved step of the newest client or server, a repeated or a malformed message
            3 => {
                if let Some((c, _)) = cs.last_mut() {
                    let o = c.step(ch, None);
                    ch.check(o.r.is_err() && o.bytes.is_empty(), "second-first", || format!("{what}: {:?} {:?}", o.r, o.text()));
                }
            }
            4 => {
                let mut s = Party::server(&sapp(), m, cb_for(m));
                let o = s.step(ch, None);
                ch.check(o.r.is_err(), "server-first", || format!("{what}: {:?}", o.r));
                // a malformed first message, then nothing but errors
                let o = s.step(ch, Some(b"n,,n=,r=abc"));
                ch.check(o.r.is_err(), "malformed-first", || format!("{what}: {:?} {:?}", o.r, o.text()));
            }
            // the newest client meets the newest server's answer to it (or another's)
            5 => {
                if let (Some((c, Some(r))), Some((_, Some(q)))) = (cs.last_mut(), ss.last()) {
                    let o = c.step(ch, Some(q.sf.as_bytes()));
                    if o.r.ok() {
                        r.sf = q.sf.clone();
                        let t = o.text();
                        ch.check(rs::field(&t, "r=") == Some(r.nonce()), "combined", || {
                            format!("{what}: the client's final message {t:?} does not repeat {:?}", r.nonce())
                        });
                        ch.outcome("answered");
                    } else {
                        ch.outcome("not answered");
                    }
                }
            }
            // abandoned
            _ => {
                cs.pop();
                ss.pop();
            }
        }
        if ch.failed() {
            return;
        }
    }
}

fn peers(ch: &mut Ch) {
    let m = *ch.pick(&mechs::SCRAM);
    let known = ch.flip();
    let pre = *ch.pick(&["a", "ab", "fyko+d2lbbFgONRv9qkxdawL", "=", "r=", "!~", "0000000000000000000000000000000000000000000000000000000000000000"]);
    let mut cn = pre.to_string();
    for round in 0..3 {
        let mut s = Party::server(&sapp(), m, cb_for(m));
        let mut r = first_for(m, &cn, if known { "alice" } else { "mallory" });
        let o = s.step(ch, Some(r.first().as_bytes()));
        r.sf = o.text();
        let what = format!("{m}, client nonce {cn:?}");
        let sn = r.nonce().to_string();
        let Some(ext) = sn.strip_prefix(&cn[..]).filter(|_| o.r == R::Running) else {
            ch.fail("extension", format!("{what}: {:?} {:?}", o.r, r.sf));
            return;
        };
        fresh(ch, &what, ext);
        // the server's own part, or its whole nonce, as the next client nonce
        match round {
            0 => cn = ext.to_string(),
            _ => cn = sn.clone(),
        }
    }
    ch.outcome("fresh");
}

/// Nonces of `n` client and `n` server sessions of each mechanism
fn collect(n: usize) -> Vec<String> {
    let mut v = vec![];
    for m in mechs::SCRAM {
        for _ in 0..n {
            let mut w = vec![];
            let mut c = Party::client(&capp(), m, cb_for(m));
            c.raw_step(None, &mut w);
            let t = String::from_utf8_lossy(&w).into_owned();
            v.push(client_nonce(&t).to_string());
            let mut s = Party::server(&sapp(), m, cb_for(m));
            let mut r = first_for(m, "N0nce", "alice");
            let mut w = vec![];
            s.raw_step(Some(r.first().as_bytes()), &mut w);
            r.sf = String::from_utf8_lossy(&w).into_owned();
            v.push(r.nonce().strip_prefix("N0nce").unwrap_or("").to_string());
        }
    }
    v
}
pub fn helper() -> i32 {
    for n in collect(3) {
        println!("{n}");
    }
    0
}
fn threads(ch: &mut Ch) {
    let n = 1 + ch.choose(8);
    let hs: Vec<_> = (0..n).map(|_| std::thread::spawn(|| collect(4))).collect();
    for h in hs {
        match h.join() {
            Ok(v) => {
                for x in v {
                    fresh(ch, &format!("{n} threads"), &x);
                }
            }
            Err(_) => ch.fail("panic", format!("{n} threads: a session panicked")),
        }
    }
    ch.step();
    ch.outcome("fresh");
}
fn processes(ch: &mut Ch) {
    let n = 2 + ch.choose(if ch.thorough { 6 } else { 3 });
    let exe = std::env::current_exe().expect("exe");
    let mut kids = vec![];
    for _ in 0..n {
        let k = std::process::Command::new(&exe)
            .args(["helper", "nonces"])
            .stdout(std::process::Stdio::piped())
            .spawn();
        kids.push(k.expect("child process"));
    }
    for k in kids {
        let o = k.wait_with_output().expect("child process");
        assert!(o.status.success(), "the child process failed: {:?}", o.status);
        let t = String::from_utf8_lossy(&o.stdout).into_owned();
        assert!(t.lines().count() == 36, "the child process reported {} nonces", t.lines().count());
        for x in t.lines() {
            fresh(ch, &format!("{n} processes"), x);
        }
    }
    ch.step();
    ch.outcome("fresh");
}
fn spread(ch: &mut Ch) {
    let m = *ch.pick(&mechs::SCRAM);
    let client = ch.flip();
    let mut v = vec![];
    for _ in 0..2000 {
        let mut w = vec![];
        let n = if client {
            Party::client(&capp(), m, cb_for(m)).raw_step(None, &mut w);
            client_nonce(&String::from_utf8_lossy(&w)).to_string()
        } else {
            let mut r = first_for(m, "N0nce", "alice");
            Party::server(&sapp(), m, cb_for(m)).raw_step(Some(r.first().as_bytes()), &mut w);
            r.sf = String::from_utf8_lossy(&w).into_owned();
            r.nonce().strip_prefix("N0nce").unwrap_or("").to_string()
        };
        if let Err(e) = well_formed(&n) {
            ch.fail("malformed", format!("{m}: {e}"));
            return;
        }
        v.push(n.into_bytes());
    }
    ch.step();
    let len = v.iter().map(Vec::len).min().unwrap();
    for i in 0..len {
        let s: HashSet<u8> = v.iter().map(|n| n[i]).collect();
        ch.check(s.len() >= 32, "alphabet", || format!("{m} (client {client}): position {i} takes only {} values in 2000 nonces", s.len()));
        for j in 0..i {
            let s: HashSet<u8> = v.iter().map(|n| n[i].wrapping_sub(n[j])).collect();
            ch.check(s.len() >= 32, "dependent", || format!("{m} (client {client}): positions {j} and {i} depend on each other"));
        }
    }
    // sessions one after the other do not differ by a constant
    for i in 0..len {
        let s: HashSet<u8> = v.windows(2).map(|w| w[1][i].wrapping_sub(w[0][i])).collect();
        ch.check(s.len() >= 32, "sequence", || format!("{m} (client {client}): position {i} follows from the session before"));
    }
    ch.outcome("spread");
}
