//! C23: GSSAPI, over a simulated GSS-API.
use super::util::*;
use super::{tree, Check};
use crate::app::{VMode, P};
use crate::drive::{show, Out, Party, R};
use crate::explore::Ch;
use crate::fakegss::{self as gss, CONF, INTEG, MUTUAL};
use crate::kit::{Kit, Walk};

pub fn add(v: &mut Vec<Check>) {
    v.push(Check {
        id: "C23",
        trees: vec![
            tree("agreement", "acceptable layers of both ends (including unanswered) x context flags x context tokens; agreed layer, protection of data in both directions", (0, 0), agreement),
            tree("selections", "a client that controls its final token: every layer octet x token length x kind of forgery x server layers x flags", (0, 0), selections),
            tree("offers", "a server that controls its offer: every layer octet x token length x kind of forgery x client layers x flags", (0, 0), offers),
            tree("edits", "every bit flip, truncation, extension, repetition and reflection of every message of the exchange", (0, 0), edits),
            tree("calls", "every GSS-API call of the exchange and of data protection failing", (0, 0), calls),
            tree("refusals", "the acceptor refusing at every token", (0, 0), refusals),
            tree("names", "initiator names and host, service names of the lists, valid and invalid UTF-8", (0, 0), names),
            tree("data", "every sequence of up to 4 (thorough 5) protections, deliveries, losses, repetitions and reflections of data", (0, 0), data),
        ],
        assumptions: &[
            "the GSS-API itself is simulated (contexts of 1 to 6 tokens, flags, per-message protection with sequence numbers); Kerberos is not involved",
            "confidentiality without integrity in the context, an empty set of acceptable layers, and final tokens with an authorization identity may be refused",
        ],
    });
}
const NO: u8 = 1;
const IN: u8 = 2;
const CO: u8 = 4;

fn can(flags: u32) -> u8 {
    let mut l = NO;
    if flags & INTEG != 0 {
        l |= IN;
    }
    if flags & CONF != 0 && flags & MUTUAL != 0 {
        l |= CO;
    }
    l
}
fn flags(ch: &mut Ch) -> u32 {
    let other = 0x1 | 0x4 | 0x8;
    other | if ch.flip() { MUTUAL } else { 0 } | if ch.flip() { CONF } else { 0 } | if ch.flip() { INTEG } else { 0 }
}
fn layers(ch: &mut Ch) -> Option<u8> {
    match ch.choose(9) {
        0 => None,
        n => Some(8 - n as u8),
    }
}
fn kit() -> Kit {
    let mut k = Kit::new("GSSAPI");
    k.sapp.vmode = VMode::Set("ok");
    k
}
/// What the application declared acceptable
fn want(l: Option<u8>) -> u8 {
    l.unwrap_or(7)
}
fn say(k: &Kit) -> String {
    format!(
        "client layers {:?}, server layers {:?}, flags{}{}{}, {} tokens",
        k.capp.layers,
        k.sapp.layers,
        if k.gss.flags & MUTUAL != 0 { " mutual" } else { "" },
        if k.gss.flags & CONF != 0 { " conf" } else { "" },
        if k.gss.flags & INTEG != 0 { " integ" } else { "" },
        k.gss.rounds
    )
}
/// The selection the server agreed to, from the client's final token
fn selected(t: &[u8]) -> Option<u8> {
    gss::open(t).and_then(|x| x.3.first().copied())
}
fn one_name(ch: &mut Ch, what: &str, k: &Kit) {
    let n = String::from_utf8_lossy(&k.gss.client).into_owned();
    one_validation(ch, what, &k.sapp, &[(P::AuthId, s(&n))]);
}

/// Sends data both ways and checks its protection.
fn protects(ch: &mut Ch, what: &str, c: &mut Party, sv: &mut Party, layer: u8) {
    let has = layer != NO;
    ch.check(c.has_layer() == has && sv.has_layer() == has, "layer-report", || {
        format!("{what}: agreed on {layer}, client reports a layer: {}, server: {}", c.has_layer(), sv.has_layer())
    });
    for (i, d) in [&b"hello"[..], b"", b"\x00\xffW", &[7; 300]].iter().enumerate() {
        for to_server in [true, false] {
            let before = gss::log().wraps.len();
            let mut w = vec![];
            let r = if to_server { c.encode(d, &mut w) } else { sv.encode(d, &mut w) };
            ch.step();
            if !has {
                ch.check(r.as_ref().is_err_and(|e| e == "NoSecurityLayer") && w.is_empty(), "unprotected", || format!("{what}: encode gives {r:?}, {:?}", show(&w)));
                continue;
            }
            ch.check(r == Ok(d.len()), "encode", || format!("{what}, data {i}: {r:?}"));
            let wraps = gss::log().wraps;
            let ok = wraps.len() == before + 1 && wraps[before] == (to_server, layer == CO, d.to_vec());
            ch.check(ok, "protection", || format!("{what}, data {i}: protected as {:?}", wraps.get(before..)));
            let o = gss::open(&w);
            ch.check(o.as_ref().is_some_and(|x| x.0 == to_server && x.1 == (layer == CO) && x.3 == *d), "written", || {
                format!("{what}, data {i}: wrote {:?}", show(&w))
            });
            let mut p = vec![];
            let r = if to_server { sv.decode(&w, &mut p) } else { c.decode(&w, &mut p) };
            ch.check(r == Ok(w.len()) && p == *d, "decode", || format!("{what}, data {i}: {r:?}, {:?}", show(&p)));
            // once
            let mut p = vec![];
            let r = if to_server { sv.decode(&w, &mut p) } else { c.decode(&w, &mut p) };
            ch.check(r.is_err() && p.is_empty(), "replay", || format!("{what}, data {i} again: {r:?}, {:?}", show(&p)));
            if ch.failed() {
                return;
            }
        }
    }
}

/// The offer of a server or the selection of a client: only what is acceptable, and a message size
/// of zero exactly for who takes no protected messages
fn announced(ch: &mut Ch, what: &str, k: &Kit, client: bool, d: &[u8]) {
    let who = if client { "client" } else { "server" };
    let own = want(if client { k.capp.layers } else { k.sapp.layers });
    ch.check(d.len() == 4, "token-length", || format!("{what}: the {who} sends the token {:?}", show(d)));
    if d.len() == 4 {
        let size = d[1..].iter().any(|b| *b != 0);
        ch.check(own == 0 || d[0] & !(own & can(k.gss.flags)) == 0, "offer", || format!("{what}: the {who} names layers {:03b}", d[0]));
        ch.check(own != NO || !size, "size", || format!("{what}: the {who} takes no protected messages but names the size {:?}", &d[1..]));
        ch.check(d[0] & !NO == 0 || size, "size", || format!("{what}: the {who} names layers {:03b} but no size", d[0]));
    }
}

fn agreement(ch: &mut Ch) {
    let mut k = kit();
    k.capp.layers = layers(ch);
    k.sapp.layers = layers(ch);
    k.gss.flags = flags(ch);
    k.gss.rounds = 1 + ch.choose(if ch.thorough { 12 } else { 6 }) as u32;
    let what = say(&k);
    let mut w = Walk::new(&k);
    let mut sel = None;
    while !w.over {
        let t = w.turn;
        let o = w.advance(ch);
        if t && o.r == R::FinYes {
            sel = selected(&o.bytes);
        }
        if let (true, Some((_, _, _, d))) = (o.r.sent(), gss::open(&o.bytes)) {
            announced(ch, &what, &k, t, &d);
        }
        ch.check(!w.c.has_layer() || w.cr.as_ref().is_some_and(R::fin), "early-layer", || format!("{what}: the client has a layer before the end"));
        ch.check(!w.s.has_layer() || w.sr.as_ref().is_some_and(R::fin), "early-layer", || format!("{what}: the server has a layer before the end"));
    }
    let common = want(k.capp.layers) & want(k.sapp.layers) & can(k.gss.flags);
    let est = gss::log().established;
    if !w.both_finished() {
        ch.check(w.sr.as_ref().is_none_or(|r| !r.fin()), "server-only", || format!("{what}: the server finished, the client {:?}", w.cr));
        no_validation(ch, &what, &k.sapp);
        ch.check(w.s.validation().is_none(), "value", || format!("{what}: there is a validation value"));
        // both could agree
        let odd = want(k.capp.layers) == 0
            || want(k.sapp.layers) == 0
            || (want(k.capp.layers) & NO == 0 && common == CO && k.gss.flags & INTEG == 0);
        ch.check(common == 0 || odd, "no-agreement", || format!("{what}: both accept {common:03b}, yet client {:?}, server {:?}", w.cr, w.sr));
        ch.outcome("no agreement");
        return;
    }
    ch.check(est == [true, true], "not-established", || format!("{what}: finished, contexts established: {est:?}"));
    let layer = sel.unwrap_or(0);
    ch.check(layer.count_ones() == 1 && layer & common != 0, "bad-layer", || {
        format!("{what}: agreed on {layer:03b}, acceptable and possible is {common:03b}")
    });
    // the strongest one: the highest bit
    ch.check(layer > common >> 1, "weak-layer", || format!("{what}: agreed on {layer:03b} although {common:03b} is possible"));
    one_name(ch, &what, &k);
    ch.check(w.s.validation().as_deref() == Some("ok"), "value", || format!("{what}: no validation value"));
    if ch.failed() {
        return;
    }
    protects(ch, &what, &mut w.c, &mut w.s, layer);
    ch.outcome(["", "none", "integrity", "", "confidentiality"][layer as usize]);
}

/// Walks until the server's offer is pending for the client.
fn until(ch: &mut Ch, k: &Kit) -> Option<Walk> {
    let mut w = Walk::new(k);
    while !w.over {
        if let Some(m) = &w.input {
            if m.first() == Some(&b'W') && w.turn {
                return Some(w);
            }
        }
        w.advance(ch);
    }
    None
}
/// A final token of the peer: payload lengths, and forgeries of the protection
fn forge(ch: &mut Ch, from_client: bool, octet: u8) -> (Vec<u8>, bool, String) {
    let len = ch.choose(7);
    let kind = ch.choose(6);
    let mut p = vec![octet, 0xff, 0xff, 0xff, b'z', b'e', b'd'];
    if octet == NO {
        p[1..4].fill(0);
    }
    p.truncate(if len == 0 { 0 } else { len });
    let seq = 0;
    let (t, ok) = match kind {
        0 => (gss::seal(from_client, false, seq, &p), true),
        // protected with confidentiality: still the peer's
        1 => (gss::seal(from_client, true, seq, &p), true),
        // not protected
        2 => (p.clone(), false),
        // reflected
        3 => (gss::seal(!from_client, false, seq, &p), false),
        // not the next one
        4 => (gss::seal(from_client, false, 1, &p), false),
        // damaged
        _ => {
            let mut t = gss::seal(from_client, false, seq, &p);
            t[2] ^= 1;
            (t, false)
        }
    };
    (t, ok && p.len() == 4, format!("octet {octet:#x}, {} octets, forgery {kind}", p.len()))
}
fn octet(ch: &mut Ch) -> u8 {
    if ch.thorough {
        ch.choose(256) as u8
    } else {
        // all sets of the known bits, and each further bit alone and with all others
        let n = ch.choose(24);
        match n {
            0..=7 => n as u8,
            8..=12 => 1 << (n - 5),
            13..=17 => (1 << (n - 10)) | 7,
            18 => 0xff,
            19 => 0xf8,
            20 => 0x80 | 4,
            21 => 0x80 | 2,
            22 => 0x80 | 1,
            _ => 0x0c,
        }
    }
}
fn selections(ch: &mut Ch) {
    let mut k = kit();
    k.sapp.layers = layers(ch);
    k.gss.flags = flags(ch);
    k.gss.rounds = 1 + ch.choose(2) as u32;
    let supported = want(k.sapp.layers) & can(k.gss.flags);
    let o = octet(ch);
    let (t, good, f) = forge(ch, true, o);
    let what = format!("{}, client token {f}", say(&k));
    // a client that gets to the end by itself
    k.capp.layers = Some(7);
    let Some(mut w) = until(ch, &k) else {
        ch.outcome("no offer");
        ch.check(supported == 0 || w_empty(&k), "no-offer", || format!("{what}: there is no offer"));
        return;
    };
    let offer = selected(w.input.as_deref().unwrap_or(b""));
    ch.check(offer == Some(supported), "offer", || format!("{what}: the server offers {offer:?}, acceptable and possible is {supported:03b}"));
    let r = w.s.step(ch, Some(&t));
    let fine = good && o.count_ones() == 1 && o & supported != 0;
    if fine {
        validated_gss(ch, &what, &mut w.s, &r, &k);
        let has = o != NO;
        ch.check(w.s.has_layer() == has, "layer-report", || format!("{what}: agreed on {o:03b}, the server reports a layer: {}", w.s.has_layer()));
        let mut e = vec![];
        let x = w.s.encode(b"data", &mut e);
        if has {
            ch.check(x.is_ok() && gss::open(&e).is_some_and(|p| !p.0 && p.1 == (o == CO) && p.3 == b"data"), "protection", || {
                format!("{what}: data is sent as {:?}", show(&e))
            });
        } else {
            ch.check(x.is_err() && e.is_empty(), "unprotected", || format!("{what}: {x:?} {:?}", show(&e)));
        }
        ch.outcome("agreed");
    } else if f.contains("forgery 0") && (f.contains("5 octets") || f.contains("6 octets")) && r.r.fin() {
        // an authorization identity: permitted by the protocol, not by this implementation
        ch.check(o.count_ones() == 1 && o & supported != 0 && k.sapp.n_val() == 1, "accepted", || format!("{what}: {:?}", r.r));
        ch.outcome("authorization identity");
    } else {
        ch.check(r.r.is_err(), "accepted", || format!("{what}: {:?}", r.r));
        no_validation(ch, &what, &k.sapp);
        ch.check(!w.s.has_layer(), "layer-report", || format!("{what}: refused, but the server reports a layer"));
        ch.check(w.s.validation().is_none(), "value", || format!("{what}: there is a validation value"));
        ch.outcome("refused");
    }
}
fn w_empty(k: &Kit) -> bool {
    want(k.sapp.layers) == 0
}
fn validated_gss(ch: &mut Ch, what: &str, p: &mut Party, o: &Out, k: &Kit) {
    ch.check(o.r == R::FinNo && o.bytes.is_empty(), "not-finished", || format!("{what}: {:?} {:?}", o.r, o.text()));
    one_name(ch, what, k);
    let v = p.validation();
    ch.check(v.as_deref() == Some("ok"), "value", || format!("{what}: the validation value is {v:?}"));
}
fn offers(ch: &mut Ch) {
    let mut k = kit();
    k.capp.layers = layers(ch);
    k.gss.flags = flags(ch);
    k.gss.rounds = 1 + ch.choose(2) as u32;
    let acceptable = want(k.capp.layers) & can(k.gss.flags);
    let o = octet(ch);
    let (t, good, f) = forge(ch, false, o);
    let what = format!("{}, server token {f}", say(&k));
    k.sapp.layers = Some(7);
    let Some(mut w) = until(ch, &k) else {
        ch.outcome("not asked");
        return;
    };
    let r = w.c.step(ch, Some(&t));
    let common = acceptable & o & 7;
    if good && common != 0 && o & !7 == 0 {
        ch.check(r.r == R::FinYes, "refused", || format!("{what}: {:?}", r.r));
    }
    if r.r.ok() {
        ch.check(good && common != 0, "accepted", || format!("{what}: {:?}", r.r));
        let p = gss::open(&r.bytes);
        let l = selected(&r.bytes).unwrap_or(0);
        ch.check(p.as_ref().is_some_and(|p| p.0 && p.3.len() >= 4) && l.count_ones() == 1 && l & common != 0, "selection", || {
            format!("{what}: the client answers {p:?}, possible is {common:03b}")
        });
        ch.check(l > common >> 1, "weak-layer", || format!("{what}: the client selects {l:03b} although {common:03b} is possible"));
        let has = l != NO;
        ch.check(w.c.has_layer() == has, "layer-report", || format!("{what}: agreed on {l:03b}, the client reports a layer: {}", w.c.has_layer()));
        let mut e = vec![];
        let x = w.c.encode(b"data", &mut e);
        if has {
            ch.check(x.is_ok() && gss::open(&e).is_some_and(|p| p.0 && p.1 == (l == CO) && p.3 == b"data"), "protection", || {
                format!("{what}: data is sent as {:?}", show(&e))
            });
        } else {
            ch.check(x.is_err() && e.is_empty(), "unprotected", || format!("{what}: {x:?} {:?}", show(&e)));
        }
        ch.outcome("agreed");
    } else {
        ch.check(!w.c.has_layer(), "layer-report", || format!("{what}: refused, but the client reports a layer"));
        ch.outcome("refused");
    }
    ch.check(k.capp.n_val() == 0, "client-validated", || format!("{what}: the client ran validation"));
}

/// All changes of one message
fn edits(ch: &mut Ch) {
    let mut k = kit();
    k.capp.layers = *ch.pick(&[Some(7), Some(2), Some(1)]);
    k.gss.rounds = 1 + ch.choose(4) as u32;
    let d = ch.choose(8);
    let mut w = Walk::new(&k);
    let mut sent: Vec<Vec<u8>> = vec![];
    for _ in 0..d {
        if w.over {
            return;
        }
        let o = w.advance(ch);
        sent.push(o.bytes);
    }
    if w.over {
        return;
    }
    let Some(m) = w.input.clone() else { return };
    // with an empty message the client only hands the turn back
    if m.is_empty() {
        return;
    }
    let target = if w.turn { "client" } else { "server" };
    let kind = ch.choose(5);
    let (e, how) = match kind {
        0 => {
            if m.is_empty() {
                return;
            }
            let i = ch.choose(m.len() * 8);
            let mut e = m.clone();
            e[i / 8] ^= 1 << (i % 8);
            (e, format!("bit {i} changed"))
        }
        1 => {
            if m.is_empty() {
                return;
            }
            let i = ch.choose(m.len());
            (m[..i].to_vec(), format!("cut to {i}"))
        }
        2 => {
            let b = *ch.pick(&[0u8, 1, b'W', 0xff]);
            let mut e = m.clone();
            e.push(b);
            (e, format!("extended by {b}"))
        }
        3 => {
            let i = ch.choose(sent.len());
            if sent[i] == m {
                return;
            }
            (sent[i].clone(), format!("message {i} instead"))
        }
        _ => {
            let mut e = m.clone();
            e.extend_from_slice(&m);
            if e == m {
                return;
            }
            (e, "doubled".to_string())
        }
    };
    let what = format!("{}, message {d} to the {target}, {how}", say(&k));
    // an empty message where the context is complete on the other side is a legitimate token
    let o = w.target().step(ch, Some(&e));
    ch.check(o.r.is_err(), "accepted", || format!("{what}: {:?} {:?}", o.r, show(&o.bytes)));
    no_validation(ch, &what, &k.sapp);
    let l = w.target().has_layer();
    ch.check(!l, "layer-report", || format!("{what}: the {target} reports a layer"));
    ch.outcome("refused");
}

fn calls(ch: &mut Ch) {
    let mut k = kit();
    k.capp.layers = *ch.pick(&[Some(7), Some(2), Some(1)]);
    k.gss.rounds = 1 + ch.choose(if ch.thorough { 5 } else { 3 }) as u32;
    // how many calls there are
    let mut w = Walk::new(&k);
    w.finish(ch);
    assert!(w.both_finished(), "the undisturbed exchange fails");
    let total = gss::log().calls.len();
    let i = ch.choose(total);
    k.gss.fail_call = Some(i);
    let k = k.fresh();
    let mut w = Walk::new(&k);
    while !w.over {
        let client = w.turn;
        let before = gss::log().calls.len();
        let o = w.advance(ch);
        let l = gss::log();
        if before <= i && i < l.calls.len() {
            let what = format!("{}, call {i} ({}) fails at the {}", say(&k), l.calls[i], if client { "client" } else { "server" });
            ch.check(o.r.is_err(), "ignored", || format!("{what}: {:?}", o.r));
            no_validation(ch, &what, &k.sapp);
            ch.check(!w.c.has_layer() && client || !client && !w.s.has_layer(), "layer-report", || format!("{what}: there is a layer"));
            ch.check(w.s.validation().is_none(), "value", || format!("{what}: there is a validation value"));
            ch.outcome("failed");
            return;
        }
    }
    ch.fail("unreached", format!("{}: call {i} was not made again", say(&k)));
}

fn refusals(ch: &mut Ch) {
    let mut k = kit();
    k.gss.rounds = 1 + ch.choose(6) as u32;
    let n = 1 + 2 * ch.choose((k.gss.rounds as usize).div_ceil(2)) as u32;
    k.gss.refuse_at = Some(n);
    let what = format!("{}, refused at token {n}", say(&k));
    let mut w = Walk::new(&k);
    w.finish(ch);
    ch.check(w.sr.as_ref().is_some_and(R::is_err), "accepted", || format!("{what}: {:?}", w.sr));
    ch.check(!w.cr.as_ref().is_some_and(R::fin), "client-finished", || format!("{what}: the client finished"));
    no_validation(ch, &what, &k.sapp);
    ch.check(!w.c.has_layer() && !w.s.has_layer(), "layer-report", || format!("{what}: there is a layer"));
    ch.outcome("refused");
}

fn names(ch: &mut Ch) {
    let mut k = kit();
    const N: &[&[u8]] = &[
        b"alice@REALM", b"a", b"", b"host/x.example@R", b"\xc3\xa9@R", b"a\0b", b"a,b=c", b"\xff", b"a\xc3", b"\xed\xa0\x80", b"alice@REALM ", b"ALICE@realm",
    ];
    k.gss.client = ch.pick(N).to_vec();
    const H: &[&str] = &["h", "", "mail.example.com", "a@b", "\u{e9}", "h\0x"];
    k.capp.hostname = Some((*ch.pick(H)).into());
    k.capp.service = Some((*ch.pick(&["imap", "", "a@b", "\u{e9}"])).into());
    k.sapp.vmode = ch.pick(&[VMode::Set("ok"), VMode::Nothing, VMode::FailBoxed]).clone();
    k.gss.rounds = 1 + ch.choose(3) as u32;
    let what = format!("initiator {:?}, target {:?} {:?}", show(&k.gss.client), k.capp.service, k.capp.hostname);
    let mut w = Walk::new(&k);
    w.finish(ch);
    let t = gss::log().targets;
    let want_t = format!("{}@{}", k.capp.service.as_ref().unwrap(), k.capp.hostname.as_ref().unwrap());
    ch.check(t == [want_t.as_bytes().to_vec()], "target", || format!("{what}: target names {t:?}"));
    let valid = std::str::from_utf8(&k.gss.client).is_ok();
    if valid {
        one_name(ch, &what, &k);
        let fin = k.sapp.vmode != VMode::FailBoxed;
        ch.check(w.both_finished() == fin, "finished", || format!("{what}: client {:?}, server {:?}", w.cr, w.sr));
        let v = w.s.validation();
        ch.check(v.is_some() == (k.sapp.vmode == VMode::Set("ok")), "value", || format!("{what}: validation value {v:?}"));
        ch.check(fin || !w.s.has_layer(), "layer-report", || format!("{what}: validation failed, there is a layer"));
        ch.outcome(if fin { "validated" } else { "validation failed" });
    } else {
        ch.check(w.sr.as_ref().is_some_and(R::is_err), "accepted", || format!("{what}: {:?}", w.sr));
        no_validation(ch, &what, &k.sapp);
        ch.check(!w.s.has_layer(), "layer-report", || format!("{what}: there is a layer"));
        ch.outcome("refused");
    }
}

fn data(ch: &mut Ch) {
    let mut k = kit();
    let layer = *ch.pick(&[IN, CO]);
    k.capp.layers = Some(layer);
    let mut w = Walk::new(&k);
    w.finish(ch);
    if !w.both_finished() {
        ch.fail("setup", format!("layer {layer}: {:?} {:?}", w.cr, w.sr));
        return;
    }
    const D: &[&[u8]] = &[b"", b"x", b"W\x00", b"longer data \xff\xfe"];
    // messages in transit to the server, to the client; how many were received in each direction
    // (one message of each direction belonged to the exchange)
    let mut transit: [Vec<(u32, Vec<u8>, Vec<u8>)>; 2] = [vec![], vec![]];
    let mut tx = [1u32; 2];
    let mut rx = [1u32; 2];
    let mut what = format!("layer {layer:03b}");
    for _ in 0..if ch.thorough { 5 } else { 4 } {
        let to_client = ch.choose(2);
        let (from, to) = if to_client == 0 { (&mut w.c, &mut w.s) } else { (&mut w.s, &mut w.c) };
        match ch.choose(5) {
            // protect
            0 => {
                let d = *ch.pick(D);
                let mut o = vec![];
                let r = from.encode(d, &mut o);
                what.push_str(&format!("; {} protects {:?}", from.who(), show(d)));
                ch.check(r == Ok(d.len()), "encode", || format!("{what}: {r:?}"));
                let p = gss::open(&o);
                ch.check(p.as_ref().is_some_and(|p| p.0 == (to_client == 0) && p.1 == (layer == CO) && u32::from(p.2) == tx[to_client] && p.3 == d), "protection", || {
                    format!("{what}: {p:?}")
                });
                transit[to_client].push((tx[to_client], d.to_vec(), o));
                tx[to_client] += 1;
            }
            // deliver the oldest or the newest, keeping it (so that it can be repeated)
            x @ (1 | 2) => {
                let t = &transit[to_client];
                let Some((seq, d, m)) = (if x == 1 { t.first() } else { t.last() }).cloned() else { return };
                let mut o = vec![];
                let r = to.decode(&m, &mut o);
                what.push_str(&format!("; {} receives {seq}", to.who()));
                if seq == rx[to_client] {
                    ch.check(r == Ok(m.len()) && o == d, "decode", || format!("{what}: {r:?} {:?}", show(&o)));
                    rx[to_client] += 1;
                } else {
                    ch.check(r.is_err() && o.is_empty(), "order", || format!("{what}: {r:?} {:?}", show(&o)));
                }
            }
            // lose the oldest
            3 => {
                if transit[to_client].is_empty() {
                    return;
                }
                transit[to_client].remove(0);
            }
            // reflect the newest to its sender, or deliver it damaged
            _ => {
                let Some((_, _, m)) = transit[to_client].last().cloned() else { return };
                let mut o = vec![];
                let r = if ch.flip() {
                    what.push_str("; reflected");
                    from.decode(&m, &mut o)
                } else {
                    what.push_str("; damaged");
                    let mut m = m;
                    let n = m.len() - 1;
                    m[n] ^= 4;
                    to.decode(&m, &mut o)
                };
                ch.check(r.is_err() && o.is_empty(), "forged", || format!("{what}: {r:?} {:?}", show(&o)));
            }
        }
        ch.step();
        ch.check(w.c.has_layer() && w.s.has_layer(), "layer-report", || format!("{what}: the layer is gone"));
        if ch.failed() {
            return;
        }
    }
    ch.obs(&what);
    ch.outcome("ok");
}
