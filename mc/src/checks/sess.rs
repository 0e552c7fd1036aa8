//! C15 - C18, C24: what every session promises, whatever the mechanism.
use super::util::*;
use super::{tree, Check};
use crate::explore::Lib;
use crate::app::{OtherV, VMode, P, TV};
use crate::drive::{shape, Cb, Out, Party, R};
use crate::explore::Ch;
use crate::fakegss;
use crate::kit::{upto, Kit, Walk};
use crate::mechs;
use crate::refscram::{b64, unb64};
use crate::writers::{Ans, Scripted};
use rsasl::prelude::{SASLServer, State};
use rsasl::validate::{NoValidation, Validation};

pub fn add(v: &mut Vec<Check>) {
    v.push(Check {
        id: "C15",
        trees: vec![
            tree("verdicts", "every mechanism x every way to validate x every kind of exchange, validation counted and the value taken at every point", (0, 0), verdicts),
            tree("relations", "every mechanism x identities and passwords that are equal, nearly equal or different x 3 ways to validate, validation counted", (0, 0), relations),
            tree("values", "every mechanism x unusual values of two credentials at once x 3 ways to validate, validation counted", (0, 0), value_validations),
            tree("types", "every mechanism x every way to validate x validation type of the protocol", (0, 0), types),
            tree("sequences", "every sequence of up to 3 (thorough 4) messages from the set of honest, malformed and other messages, counted", (0, 0), val_sequences),
        ],
        assumptions: &[],
    });
    v.push(Check {
        id: "C16",
        trees: vec![
            tree("exchanges", "every mechanism x every kind of exchange, driven only by the reported states, plain and base64", (0, 0), exchanges),
            tree("values", "every mechanism x unusual values (empty, one octet, separators, blanks, long) of two credentials at once, plain and base64", (0, 0), value_exchanges),
            tree("gssapi", "context tokens x context flags x layers of both ends", (0, 0), gss_exchanges),
            tree("mutants", "truth of the reports for every mutated message", (0, 0), truth_mutants),
        ],
        assumptions: &["an empty error text of an XOAUTH2 server is not judged"],
    });
    v.push(Check {
        id: "C17",
        trees: vec![
            tree("writers", "every step of every exchange with up to 3 (thorough 4) misbehaviours of the writer, each at any of its calls", (3, 4), writers),
            tree("failures", "every exchange, one step of which has a writer that takes 0, 1, ... bytes and then fails, for good, once or after an interruption, with every kind of error", (0, 0), failures),
            tree("uniform", "every exchange with writers that always take 1, 2, ... bytes or all but some", (0, 0), uniform),
            tree("layers", "the same for protected data", (3, 4), layer_writers),
        ],
        assumptions: &["the writer is used only through write, write_all, write_vectored and flush"],
    });
    v.push(Check {
        id: "C18",
        trees: vec![
            tree("twins", "every exchange once plain and once base64, in all mixtures of both", (0, 0), twins),
            tree("texts", "at every stage every base64 text of up to 4 (thorough 5) characters over 10 classes, then the honest message", (0, 0), texts),
            tree("mutants", "at every stage every substitution, insertion, deletion, truncation of the honest text, then the honest message", (0, 0), text_mutants),
            tree("sizes", "messages of every length up to 200 (thorough 3000) and of lengths around powers of two up to 65537", (0, 0), text_sizes),
        ],
        assumptions: &["SCRAM messages with their random parts are compared by form and by the success of the exchange"],
    });
    v.push(Check {
        id: "C24",
        trees: vec![
            tree("everywhere", "layer calls at every point of every exchange of every kind, on both sides, up to 2 (thorough 3) calls per point", (2, 3), no_layer),
            tree("data", "layer calls with every data up to 3 bytes and long data before, during and after an exchange", (0, 0), no_layer_data),
            tree("gssapi", "GSSAPI before, during, after failed and after layerless negotiation", (0, 0), gss_no_layer),
            tree("custom", "every sequence of up to 4 (thorough 6) steps and layer calls of a custom mechanism without layer support and of one whose layer comes and goes", (0, 0), super::cbs::custom_layers),
        ],
        assumptions: &[],
    });
}

/// Different courses an exchange can take
fn scenario(ch: &mut Ch, k: &mut Kit) -> &'static str {
    let n = ch.choose(13);
    match n {
        0 => "honest",
        1 => {
            k.capp.password = Some(b"wrong".to_vec());
            k.sapp.vmode = VMode::Db;
            "wrong password"
        }
        2 => {
            k.capp.authid = Some("mallory".into());
            "unknown user"
        }
        3 => {
            k.sapp.xverdict = Some(Err("{\"status\":\"401\"}".into()));
            k.sapp.overdict = Some(Err(("invalid_token".into(), Some("mail".into()), Some("http://x".into()))));
            "refused token"
        }
        4 => {
            k.sapp.xverdict = Some(Err("no".into()));
            k.sapp.overdict = Some(Err(("no".into(), None, None)));
            k.capp.handle_xerr = false;
            k.capp.handle_oerr = false;
            "refused token, error not handled"
        }
        5 => {
            k.capp.authzid = Some("zed".into());
            k.capp.kv = Some(vec![("host".into(), "h".into()), ("port".into(), "1".into())]);
            "authorization identity"
        }
        6 => {
            k.capp.password = None;
            k.capp.token = None;
            k.capp.service = None;
            "missing credential"
        }
        7 => {
            k.sapp.vmode = VMode::FailBoxed;
            "failing validation"
        }
        8 => {
            k.sapp.vmode = VMode::Nothing;
            "empty validation"
        }
        9 => {
            k.sapp.xverdict = None;
            k.sapp.overdict = None;
            k.sapp.db.clear();
            "ignorant server"
        }
        10 => {
            k.capp.handle_cached = false;
            k.capp.anon = None;
            k.capp.layers = None;
            k.sapp.layers = None;
            "few answers"
        }
        11 => {
            k.capp.style = crate::app::Style::Chained;
            k.sapp.style = crate::app::Style::Chained;
            "chained answers"
        }
        _ => {
            k.gss.rounds = 5;
            k.capp.layers = Some(1);
            k.scb = Cb(vec![("tls-exporter".into(), b"other".to_vec())]);
            "other binding"
        }
    }
}
fn kit(ch: &mut Ch) -> Kit {
    Kit::new(*ch.pick(mechs::all()))
}
/// The server told the client in protocol terms that it refuses it.
fn scram_refusal(mech: &str, o: &Out) -> bool {
    mech.starts_with("SCRAM") && o.r.fin() && o.bytes.starts_with(b"e=")
}

// --------------------------------------------------------------------------------------- C15

const MODES: [VMode; 11] = [
    VMode::Set("a"),
    VMode::Twice("a", "b"),
    VMode::TwiceF("a", "b"),
    VMode::Nothing,
    VMode::OtherType,
    VMode::OtherAndOwn("a"),
    VMode::WithFails,
    VMode::SetThenFail("a"),
    VMode::FailMissing,
    VMode::FailBoxed,
    VMode::Db,
];
fn mode_error(m: &VMode) -> Option<&'static str> {
    match m {
        VMode::WithFails | VMode::FailMissing => Some("Validation:missing"),
        VMode::SetThenFail(_) | VMode::FailBoxed => Some("Validation:validation refused"),
        _ => None,
    }
}
fn mode_value(m: &VMode) -> Option<&'static str> {
    match m {
        VMode::Set(a) | VMode::Twice(a, _) | VMode::TwiceF(a, _) | VMode::OtherAndOwn(a) => Some(a),
        _ => None,
    }
}
fn verdicts(ch: &mut Ch) {
    let mut k = kit(ch);
    let sc = scenario(ch, &mut k);
    let mode = ch.pick(&MODES).clone();
    if mode != VMode::Db {
        k.sapp.vmode = mode.clone();
    }
    judge(ch, k, sc, mode);
}
/// Identities and secrets that are the same, nearly the same or different
fn relations(ch: &mut Ch) {
    let mut k = kit(ch);
    let name = *ch.pick(&["user", "u", "User", "a longer name that fills more than a buffer of thirty-two bytes", "\u{fc}ser"]);
    let related = |ch: &mut Ch| match ch.choose(6) {
        0 => name.to_string(),
        1 => format!("{name}x"),
        2 => name[..name.len() - 1].to_string(),
        3 => name.to_ascii_uppercase(),
        4 => "other".to_string(),
        _ => String::new(),
    };
    k.capp.authid = Some(name.into());
    let z = related(ch);
    k.capp.authzid = (!z.is_empty()).then_some(z);
    let pw = related(ch);
    let pw = if pw.is_empty() { "pencil".to_string() } else { pw };
    k.capp.password = Some(pw.clone().into_bytes());
    k.capp.token = Some(pw.clone());
    k.capp.anon = Some(name.into());
    let db = &mut k.sapp.db[0];
    db.name = name.into();
    db.password = pw.into_bytes();
    let mode = ch.pick(&[VMode::Set("a"), VMode::Nothing, VMode::FailBoxed]).clone();
    k.sapp.vmode = mode.clone();
    judge(ch, k, "names", mode);
}
fn judge(ch: &mut Ch, k: Kit, sc: &'static str, mode: VMode) {
    let what = format!("{}, {sc}, {mode:?}", k.mech);
    // at which server step the value is looked for early
    let early = ch.choose(3);
    let mut w = Walk::new(&k);
    let mut n = 0;
    let mut taken: Option<String> = None;
    let mut refusal = false;
    while !w.over {
        let server = !w.turn;
        let before = k.sapp.n_val();
        if server && n + 1 == early {
            let v = w.s.validation();
            ch.check(v.is_none() || before == 1, "early-value", || format!("{what}: a value {v:?} exists before validation"));
            taken = v;
        }
        let o = w.advance(ch);
        ch.check(k.capp.n_val() == 0, "client-validated", || format!("{what}: the client ran validation"));
        if !server {
            ch.check(k.sapp.n_val() == before, "validated-elsewhere", || format!("{what}: validation ran in a client step"));
            continue;
        }
        n += 1;
        let now = k.sapp.n_val();
        refusal |= scram_refusal(k.mech, &o);
        ch.check(now <= 1, "repeated", || format!("{what}: validation ran {now} times"));
        if o.r.fin() && !scram_refusal(k.mech, &o) {
            ch.check(now == 1, "unvalidated", || format!("{what}: the server finished, validation ran {now} times"));
        }
        if scram_refusal(k.mech, &o) {
            ch.check(now == 0, "refused-validated", || format!("{what}: refused the client after validation"));
        }
        if now > before {
            // this is the step that validated
            match (mode_error(&k.sapp.vmode), &o.r) {
                (Some(e), r) => {
                    ch.check(r.is(e), "error-lost", || format!("{what}: validation failed with {e}, the step reports {r:?}"));
                }
                (None, R::Err(e)) => {
                    ch.check(!e.starts_with("Validation"), "invented-error", || format!("{what}: {e}"));
                }
                _ => {}
            }
        }
        if let R::Err(_) = o.r {
            ch.check(mode_error(&k.sapp.vmode).is_some() || now == 0 || k.mech.contains("OAUTH"), "failed-validated", || {
                format!("{what}: the step failed with {:?} after validation", o.r)
            });
        }
        if ch.failed() {
            return;
        }
    }
    let fin = w.sr.as_ref().is_some_and(R::fin) && !refusal;
    if fin {
        let v = w.s.validation().or(taken);
        if k.sapp.vmode != VMode::Db {
            let want = mode_value(&k.sapp.vmode);
            ch.check(v.as_deref() == want, "value", || format!("{what}: the protocol gets {v:?}, expected {want:?}"));
        }
        let again = w.s.validation();
        ch.check(again.is_none(), "value-twice", || format!("{what}: the value can be taken twice: {again:?}"));
        if sc == "honest" {
            ch.check(mode_error(&k.sapp.vmode).is_none(), "finished", || format!("{what}: finished although validation failed"));
        }
        if sc == "wrong password" && mode == VMode::Db && matches!(k.mech, "PLAIN" | "LOGIN") {
            ch.check(v.is_none(), "value", || format!("{what}: a wrong password yields {v:?}"));
        }
    } else if k.sapp.n_val() == 0 {
        let v = w.s.validation();
        ch.check(v.is_none(), "value-after-failure", || format!("{what}: the failed exchange has the value {v:?}"));
    }
    let success = matches!(sc, "honest" | "authorization identity" | "chained answers");
    if success && mode_error(&k.sapp.vmode).is_none() {
        ch.check(fin, "honest-refused", || format!("{what}: {:?} {:?}", w.cr, w.sr));
    }
    ch.outcome(format!("{} {:?} {}", if fin { "finished" } else { "failed" }, mode, k.sapp.n_val()));
}

fn typed<V: Validation>(ch: &mut Ch, k: &Kit, what: &str, want: Option<bool>, show: impl Fn(V::Value) -> String) {
    let (c, _) = k.parties();
    let cfg = k.sapp.config(mechs::reg(&[k.mech]));
    let mut s = SASLServer::<V, Cb>::with_cb(cfg, k.scb.clone()).start_suggested(mechs::name(k.mech)).lib("a session could not be started");
    let mut c = c;
    let mut input: Option<Vec<u8>> = None;
    let mut client = c.first();
    let mut cfin = false;
    let mut fin = false;
    for _ in 0..16 {
        if client {
            if cfin {
                break;
            }
            let o = c.step(ch, input.as_deref());
            if o.r.is_err() {
                break;
            }
            cfin = o.r.fin();
            input = o.r.sent().then_some(o.bytes);
        } else {
            if fin {
                break;
            }
            let mut w = vec![];
            ch.step();
            match s.step(input.as_deref(), &mut w) {
                Err(_) => break,
                Ok(State::Running) => {
                    let v = s.validation();
                    // refused tokens are validated before the client answers
                    ch.check(v.is_none() || k.mech.contains("OAUTH"), "early-value", || format!("{what}: {:?}", v.map(&show)));
                    input = Some(w);
                }
                Ok(State::Finished(m)) => {
                    fin = true;
                    input = (m == rsasl::prelude::MessageSent::Yes).then_some(w);
                }
            }
        }
        client = !client;
    }
    let v = s.validation();
    let none = s.validation().is_none();
    ch.check(none, "value-twice", || format!("{what}: the value can be taken twice"));
    if fin {
        ch.check(k.sapp.n_val() == 1, "count", || format!("{what}: validation ran {} times", k.sapp.n_val()));
        if let Some(want) = want {
            let got = v.map(&show);
            ch.check(got.is_some() == want, "value", || format!("{what}: the protocol gets {got:?}"));
        }
    }
    ch.outcome(if fin { "finished" } else { "failed" });
}
fn types(ch: &mut Ch) {
    let mut k = kit(ch);
    let mode = ch.pick(&MODES).clone();
    k.sapp.vmode = mode.clone();
    let ty = ch.choose(3);
    let what = format!("{}, {mode:?}, type {ty}", k.mech);
    match ty {
        0 => typed::<TV>(ch, &k, &what, (mode != VMode::Db).then(|| mode_value(&mode).is_some()), |v| v),
        // the application sets values of this type only in the two modes that mention it
        1 => typed::<OtherV>(ch, &k, &what, Some(matches!(mode, VMode::OtherType | VMode::OtherAndOwn(_))), |v| format!("{v:?}")),
        _ => typed::<NoValidation>(ch, &k, &what, Some(false), |()| "()".into()),
    }
}
fn val_sequences(ch: &mut Ch) {
    let mut k = kit(ch);
    if ch.flip() {
        k.sapp.xverdict = Some(Err("no".into()));
        k.sapp.overdict = Some(Err(("no".into(), None, None)));
    }
    let mut w = Walk::new(&k);
    let what = k.mech;
    for _ in 0..if ch.thorough { 4 } else { 3 } {
        if w.over {
            break;
        }
        if w.turn {
            w.advance(ch);
            continue;
        }
        let o = match ch.choose(4) {
            0 => w.advance(ch),
            x => {
                let m: Option<&[u8]> = [None, Some(&b""[..]), Some(b"\xff,x")][x - 1];
                w.s.step(ch, m)
            }
        };
        let n = k.sapp.n_val();
        if o.r.fin() && !scram_refusal(k.mech, &o) {
            ch.check(n == 1, "count", || format!("{what}: finished, validation ran {n} times"));
            ch.outcome("finished");
            return;
        }
        if o.r.is_err() && !o.r.is("InputDataRequired") {
            ch.check(n == 0 || k.mech.contains("OAUTH"), "failed-validated", || format!("{what}: {:?}, validation ran {n} times", o.r));
            ch.outcome("failed");
            return;
        }
    }
    ch.outcome("running");
}

// --------------------------------------------------------------------------------------- C16

/// The number of messages the mechanism defines for an exchange
fn max_messages(k: &Kit) -> usize {
    match k.mech {
        "PLAIN" | "ANONYMOUS" | "EXTERNAL" => 1,
        "LOGIN" => 4,
        "XOAUTH2" | "OAUTHBEARER" => 3,
        // context tokens, an empty one to pass the turn, offer and choice of the layer
        "GSSAPI" => k.gss.rounds as usize + 3,
        _ => 4,
    }
}
fn drive(ch: &mut Ch, k: &Kit, what: &str, b: bool) -> Walk {
    crate::drive::take_untrue();
    let mut w = Walk::new(k);
    let (cf, sf) = (w.c.first(), w.s.first());
    ch.check(cf != sf && sf == mechs::server_first(k.mech), "first", || format!("{what}: client goes first: {cf}, server goes first: {sf}"));
    let mut messages = 0;
    while !w.over {
        let expecting = w.turn;
        let begun = w.steps > 0;
        let last_was_none = begun && w.input.is_none();
        let i = w.input.take();
        let p = w.target();
        let o = if b {
            let t = i.as_deref().map(b64);
            p.step64(ch, t.as_ref().map(|t| t.as_bytes()))
        } else {
            p.step(ch, i.as_deref())
        };
        if let Some(u) = crate::drive::take_untrue() {
            ch.fail("untrue", format!("{what}: {u}"));
        }
        let who = if expecting { "client" } else { "server" };
        if o.r == R::FinNo {
            ch.check(o.bytes.is_empty(), "silent-message", || format!("{what}: the {who} wrote {:?} but reports no message", o.text()));
        }
        // Only a server can leave the news of the end to the protocol
        if o.r == R::FinNo && expecting && w.sr.as_ref().is_none_or(|r| *r == R::Running) {
            ch.fail("deadlock", format!("{what}: the client finishes without the message the server waits for"));
        }
        if last_was_none {
            ch.check(!o.r.sent(), "endless", || format!("{what}: the {who} answers {:?} although the other end has finished without a message", o.r));
        }
        if o.r.sent() {
            messages += 1;
        }
        let raw = Out { r: o.r.clone(), bytes: if b { unb64(&o.bytes).unwrap_or_default() } else { o.bytes.clone() } };
        w.took(&raw);
        if raw.r.sent() {
            // whoever has reported the end must not get another message
            let other = if w.turn { &w.cr } else { &w.sr };
            ch.check(!other.as_ref().is_some_and(R::fin), "late-message", || format!("{what}: a message for the {} that has finished", if w.turn { "client" } else { "server" }));
        }
        if ch.failed() {
            return w;
        }
    }
    ch.check(messages <= max_messages(k), "too-long", || format!("{what}: {messages} messages"));
    let err = [&w.cr, &w.sr].iter().any(|r| r.as_ref().is_some_and(R::is_err));
    ch.check(err || w.both_finished(), "no-end", || format!("{what}: the exchange ends with client {:?}, server {:?}", w.cr, w.sr));
    w
}
fn exchanges(ch: &mut Ch) {
    let mut k = kit(ch);
    let sc = scenario(ch, &mut k);
    let b = ch.flip();
    let what = format!("{}, {sc}, base64 {b}", k.mech);
    let w = drive(ch, &k, &what, b);
    if ch.failed() {
        return;
    }
    if matches!(sc, "honest" | "authorization identity" | "chained answers") || (sc == "refused token" && k.mech.contains("OAUTH")) {
        ch.check(w.both_finished(), "honest-refused", || format!("{what}: client {:?}, server {:?}", w.cr, w.sr));
    }
    ch.outcome(format!("{:?} {:?}", w.cr, w.sr));
}
/// Two of the credentials get unusual values; the server knows the user under these values.
fn unusual(ch: &mut Ch) -> (Kit, String) {
    let mut k = kit(ch);
    let long = "q".repeat(300);
    let values = ["", "v", ",", "=", " ", "\0", "\n", "n,,", "=2C", "\u{e9}", "a\0b", "e=x", &long];
    let n = values.len() + 1;
    let user = ch.choose(n);
    // the second value belongs to one of the other credentials
    let which = ch.choose(4);
    let other = ch.choose(n - 1);
    if let Some(u) = values.get(user) {
        k.capp.authid = Some(u.to_string());
        k.capp.anon = Some(u.to_string());
        k.sapp.db[0].name = u.to_string();
    }
    let v = values[other];
    match which {
        0 => {
            k.capp.password = Some(v.into());
            k.sapp.db[0].password = v.into();
        }
        1 => k.capp.authzid = Some(v.into()),
        2 => k.capp.token = Some(v.into()),
        _ => k.capp.kv = Some(vec![(v.into(), "x".into()), ("host".into(), v.into())]),
    }
    k.sapp.vmode = VMode::Set("ok");
    let what = format!("{}, user {:?}, {} {v:?}", k.mech, k.capp.authid, ["password", "authorization identity", "token", "pairs"][which]);
    (k, what)
}
fn value_exchanges(ch: &mut Ch) {
    let (k, what) = unusual(ch);
    let b = ch.flip();
    let what = format!("{what}, base64 {b}");
    let w = drive(ch, &k, &what, b);
    ch.outcome(format!("{} {:?} {:?}", k.mech, w.cr, w.sr));
}
fn value_validations(ch: &mut Ch) {
    let (mut k, _) = unusual(ch);
    let mode = ch.pick(&[VMode::Set("a"), VMode::Nothing, VMode::FailBoxed]).clone();
    k.sapp.vmode = mode.clone();
    judge(ch, k, "values", mode);
}
fn gss_kit(ch: &mut Ch) -> Kit {
    let mut k = Kit::new("GSSAPI");
    k.gss.rounds = 1 + ch.choose(if ch.thorough { 6 } else { 5 }) as u32;
    k.gss.flags = *ch.pick(&[0xfe, 0xfe & !fakegss::CONF, 0xfe & !fakegss::INTEG, 0xfe & !fakegss::MUTUAL, 0, fakegss::INTEG, fakegss::CONF | fakegss::INTEG, fakegss::CONF | fakegss::MUTUAL]);
    let ls = [None, Some(1), Some(2), Some(4), Some(3), Some(5), Some(6), Some(7)];
    k.capp.layers = *ch.pick(&ls);
    k.sapp.layers = *ch.pick(&ls);
    k
}
fn gss_exchanges(ch: &mut Ch) {
    let k = gss_kit(ch);
    let b = ch.flip();
    let what = format!("GSSAPI {:?} layers {:?} {:?} base64 {b}", k.gss, k.capp.layers, k.sapp.layers);
    let w = drive(ch, &k, &what, b);
    if k.capp.layers.unwrap_or(7) & k.sapp.layers.unwrap_or(7) & 1 != 0 {
        ch.check(w.both_finished(), "honest-refused", || format!("{what}: client {:?}, server {:?}", w.cr, w.sr));
    }
    ch.outcome(format!("{:?} {:?} {} {}", w.cr, w.sr, w.c.has_layer(), w.s.has_layer()));
}
fn truth_mutants(ch: &mut Ch) {
    let mut k = kit(ch);
    if ch.flip() {
        k.sapp.xverdict = Some(Err("no".into()));
        k.sapp.overdict = Some(Err(("no".into(), None, None)));
    }
    let n = ch.choose(6);
    let Some(mut w) = upto(ch, &k, n) else { return };
    let Some(h) = w.input.clone() else { return };
    let mut m = h.clone();
    match ch.choose(3) {
        0 => {
            let i = ch.choose(h.len().max(1));
            if i >= m.len() {
                return;
            }
            m[i] = *ch.pick(&[0, b',', b'=', b'x', 0xff, 1]);
        }
        1 => m.truncate(ch.choose(h.len() + 1)),
        _ => m.insert(ch.choose(h.len() + 1), *ch.pick(&[0, b',', b'=', b'x', 0xff, 1])),
    }
    let o = w.target().step(ch, Some(&m));
    let what = format!("{}: {m:?}", k.mech);
    if o.r == R::FinNo {
        ch.check(o.bytes.is_empty(), "silent-message", || format!("{what}: wrote {:?} but reports no message", o.text()));
    }
    if o.r == R::Running && !matches!(k.mech, "GSSAPI") {
        ch.check(!o.bytes.is_empty(), "empty-message", || format!("{what}: reports a message but wrote nothing"));
    }
    ch.outcome(o.r.tag());
}

// --------------------------------------------------------------------------------------- C17

const BAD: [Ans; 9] = [Ans::All, Ans::Upto(1), Ans::Zero, Ans::Fail, Ans::Interrupted, Ans::AllBut(1), Ans::Upto(2), Ans::Upto(7), Ans::AllBut(3)];
fn messages(k: &Kit, ch: &mut Ch) -> Vec<Vec<u8>> {
    let mut w = Walk::new(k);
    let mut v = vec![];
    while !w.over {
        let o = w.advance(ch);
        v.push(o.bytes);
    }
    v
}
/// A step of the party whose turn it is, with this writer; `None` if the exchange ended here
/// because of the writer.
fn write_step(ch: &mut Ch, k: &Kit, w: &mut Walk, sw: &mut Scripted, b: bool, want: Option<&[u8]>) -> Option<Out> {
    let i = w.input.take();
    let who = w.target().who();
    let t = if b { i.as_deref().map(|x| b64(x).into_bytes()) } else { i };
    let r = w.target().step_w(ch, t.as_deref(), sw, b);
    let what = format!("{} {who} step {} (base64 {b}), writer {:?}", k.mech, w.steps, sw.reported);
    ch.obs(&(k.mech, w.steps, b, r.tag(), format!("{:?}", sw.reported)));
    let hard = sw.reported.iter().zip(&sw.offered).any(|(a, o)| *a == Ans::Fail || (*a == Ans::Zero && *o > 0));
    if r.is_err() {
        ch.check(hard, "write-error", || format!("{what}: a writer that takes everything in the end makes the step fail with {r:?}"));
        ch.outcome("error");
        return None;
    }
    ch.check(!hard, "lost-message", || format!("{what}: the writer refused, the step reports {r:?}, {:?} written", crate::drive::show(&sw.got)));
    let raw = if b {
        match unb64(&sw.got) {
            Some(x) => x,
            None => {
                ch.fail("incomplete", format!("{what}: wrote {:?}, which is not base64", crate::drive::show(&sw.got)));
                return None;
            }
        }
    } else {
        sw.got.clone()
    };
    if let Some(want) = want {
        ch.check(raw == want, "incomplete", || format!("{what}: reports {r:?} and wrote {:?} instead of {:?}", crate::drive::show(&raw), crate::drive::show(want)));
    }
    let o = Out { r, bytes: raw };
    w.took(&o);
    (!ch.failed()).then_some(o)
}
fn completes(ch: &mut Ch, k: &Kit, w: &Walk, what: &str) {
    ch.check(w.both_finished() && k.sapp.n_val() == 1, "broken", || format!("{}, {what}: no step failed, but the exchange ends with client {:?}, server {:?}", k.mech, w.cr, w.sr));
    ch.outcome("complete");
}
fn write_kit(ch: &mut Ch) -> Kit {
    let mut k = kit(ch);
    if k.mech.contains("OAUTH") && ch.flip() {
        k.sapp.xverdict = Some(Err("{\"status\":\"401\"}".into()));
        k.sapp.overdict = Some(Err(("invalid_token".into(), Some("mail".into()), Some("http://x".into()))));
    }
    if ch.flip() {
        k.capp.authzid = Some("zed".into());
        k.capp.kv = Some(vec![("host".into(), "h".into()), ("port".into(), "1".into())]);
    }
    k
}
fn writers(ch: &mut Ch) {
    let k = write_kit(ch);
    let scram = k.mech.starts_with("SCRAM");
    let want = if scram { vec![] } else { messages(&k.fresh(), ch) };
    let b = ch.flip();
    let vectored = ch.flip();
    let target = ch.choose(6);
    let mut w = Walk::new(&k);
    while !w.over {
        let n = w.steps;
        let mut script = vec![];
        if n == target {
            // a misbehaviour at each of the first calls
            for _ in 0..7 {
                script.push(*ch.pick_dev(&BAD));
            }
        }
        let mut sw = Scripted::new(script, vectored);
        if write_step(ch, &k, &mut w, &mut sw, b, want.get(n).map(|x| &x[..])).is_none() {
            return;
        }
    }
    completes(ch, &k, &w, "short writes");
}
fn uniform(ch: &mut Ch) {
    let k = write_kit(ch);
    let scram = k.mech.starts_with("SCRAM");
    let want = if scram { vec![] } else { messages(&k.fresh(), ch) };
    let b = ch.flip();
    let vectored = ch.flip();
    let n = ch.choose(if ch.thorough { 64 } else { 24 });
    let a = match ch.choose(4) {
        0 => vec![Ans::Upto(n + 1)],
        1 => vec![Ans::AllBut(n + 1)],
        2 => vec![Ans::Interrupted, Ans::Upto(n + 1)],
        _ => vec![Ans::Upto(n + 1), Ans::Upto(1), Ans::Interrupted],
    };
    let mut w = Walk::new(&k);
    while !w.over {
        let i = w.steps;
        let mut sw = Scripted::new(a.iter().copied().cycle().take(4000).collect(), vectored);
        if write_step(ch, &k, &mut w, &mut sw, b, want.get(i).map(|x| &x[..])).is_none() {
            return;
        }
    }
    completes(ch, &k, &w, "uniform writer");
}
fn failures(ch: &mut Ch) {
    let k = write_kit(ch);
    let b = ch.flip();
    let vectored = ch.flip();
    let target = ch.choose(6);
    let mut w = Walk::new(&k);
    while !w.over {
        let mut sw = Scripted::new(vec![], vectored);
        let now = w.steps == target;
        if now {
            let taken = ch.choose(if ch.thorough { 100 } else { 40 });
            if taken > 0 {
                sw.script.push(Ans::Upto(taken));
            }
            // for good, once, or after an interruption
            match ch.choose(3) {
                0 => sw.script.extend([Ans::Fail; 300]),
                1 => sw.script.push(Ans::Fail),
                _ => sw.script.extend([Ans::Interrupted, Ans::Fail, Ans::Fail]),
            }
            sw.kind = *ch.pick(&crate::writers::KINDS);
        }
        if write_step(ch, &k, &mut w, &mut sw, b, None).is_none() || now {
            return;
        }
    }
}
fn layer_writers(ch: &mut Ch) {
    let mut k = Kit::new("GSSAPI");
    let l = *ch.pick(&[2u8, 4]);
    k.capp.layers = Some(l);
    let mut w = Walk::new(&k);
    w.finish(ch);
    if !(w.both_finished() && w.c.has_layer() && w.s.has_layer()) {
        ch.fail("broken", format!("{:?} {:?}", w.cr, w.sr));
        return;
    }
    let client = ch.flip();
    let decode = ch.flip();
    let data = *ch.pick(&[&b"data"[..], b"", b"x", b"a longer text of several words"]);
    let vectored = ch.flip();
    let script: Vec<Ans> = (0..5).map(|_| *ch.pick_dev(&BAD)).collect();
    let fails = script.contains(&Ans::Fail);
    let mut sw = Scripted::new(script, vectored);
    if fails {
        sw.kind = *ch.pick(&crate::writers::KINDS);
    }
    let (p, q) = if client { (&mut w.c, &mut w.s) } else { (&mut w.s, &mut w.c) };
    let (r, want) = if decode {
        let mut sealed = vec![];
        if q.encode(data, &mut sealed).is_err() {
            ch.fail("broken", "encode failed");
            return;
        }
        ch.step();
        (p.decode(&sealed, &mut sw).map(|n| n == sealed.len()), data.to_vec())
    } else {
        ch.step();
        // one message was wrapped during the negotiation
        (p.encode(data, &mut sw).map(|n| n == data.len()), fakegss::seal(client, l == 4, 1, data))
    };
    let what = format!("layer {l}, client {client}, decode {decode}, writer {:?}", sw.reported);
    let hard = sw.reported.iter().zip(&sw.offered).any(|(a, o)| *a == Ans::Fail || (*a == Ans::Zero && *o > 0));
    match r {
        Err(e) => {
            ch.check(hard, "write-error", || format!("{what}: fails with {e}"));
            ch.outcome("error");
        }
        Ok(all) => {
            ch.check(!hard, "lost-data", || format!("{what}: the writer refused, but the call succeeds"));
            ch.check(all, "consumed", || format!("{what}: not all input was reported as consumed"));
            ch.check(sw.got == want, "incomplete", || format!("{what}: wrote {:?} instead of {want:?}", sw.got));
            ch.outcome("complete");
        }
    }
}

// --------------------------------------------------------------------------------------- C18

/// What a step of the two forms must agree on
fn view(mech: &str, r: &R, bytes: &[u8]) -> String {
    format!("{r:?} {}", String::from_utf8_lossy(&shape(mech, bytes)))
}
fn twins(ch: &mut Ch) {
    let mut k = kit(ch);
    let sc = scenario(ch, &mut k);
    let k0 = k.fresh();
    let mut plain = vec![];
    let mut w = Walk::new(&k0);
    while !w.over {
        let o = w.advance(ch);
        plain.push(view(k.mech, &o.r, &o.bytes));
    }
    let k1 = k.fresh();
    let mut w = Walk::new(&k1);
    let mut got = vec![];
    let what = format!("{}, {sc}", k.mech);
    while !w.over {
        let b = ch.flip();
        let i = w.input.take();
        let o = if b {
            let t = i.as_deref().map(b64);
            let o = w.target().step64(ch, t.as_ref().map(|t| t.as_bytes()));
            let Some(raw) = unb64(&o.bytes) else {
                ch.fail("output", format!("{what}: wrote {:?}, which is not canonical base64", o.text()));
                return;
            };
            if o.r.is_err() {
                // nothing is specified about the output of a failed step
                Out { r: o.r, bytes: vec![] }
            } else {
                Out { r: o.r, bytes: raw }
            }
        } else {
            w.target().step(ch, i.as_deref())
        };
        got.push(view(k.mech, &o.r, if o.r.is_err() { b"" } else { &o.bytes }));
        w.took(&o);
    }
    for (i, (a, b)) in plain.iter().zip(&got).enumerate() {
        if a.starts_with("Err") {
            ch.check(b.starts_with(a.split(' ').next().unwrap()), "differs", || format!("{what}, step {i}: {b} instead of {a}"));
        } else {
            ch.check(a == b, "differs", || format!("{what}, step {i}: {b} instead of {a}"));
        }
    }
    ch.check(plain.len() == got.len(), "differs", || format!("{what}: {got:?} instead of {plain:?}"));
    ch.check(k0.sapp.n_val() == k1.sapp.n_val(), "validations", || format!("{what}: validation ran {} times instead of {}", k1.sapp.n_val(), k0.sapp.n_val()));
    ch.outcome(plain.last().map_or("", |s| s.split(' ').next().unwrap()));
}
/// The text is given to a step64; a twin gets the decoded message by a plain step.
fn text(ch: &mut Ch, k: &Kit, n: usize, make: impl FnOnce(&mut Ch, &[u8]) -> Option<Vec<u8>>) {
    let k = k.fresh();
    let Some(mut w) = upto(ch, &k, n) else { return };
    let Some(h) = w.input.clone() else { return };
    let Some(t) = make(ch, b64(&h).as_bytes()) else { return };
    let client = w.turn;
    let val = k.sapp.n_val();
    let asked = k.app(client).events().len();
    let o = w.target().step64(ch, Some(&t));
    let what = format!("{} {} step {n}: {:?}", k.mech, w.target().who(), String::from_utf8_lossy(&t));
    match unb64(&t) {
        None => {
            ch.check(o.r.is("Base64"), "accepted", || format!("{what}: {:?}", o.r));
            ch.check(o.bytes.is_empty(), "wrote", || format!("{what}: wrote {:?}", o.text()));
            ch.check(k.sapp.n_val() == val && k.app(client).events().len() == asked, "effects", || format!("{what}: the application was called"));
            // the exchange goes on
            w.input = Some(h);
            w.finish(ch);
            ch.check(w.both_finished() && k.sapp.n_val() == 1, "disturbed", || format!("{what}: afterwards client {:?}, server {:?}", w.cr, w.sr));
            ch.outcome("not base64");
        }
        Some(d) => {
            let o64 = o;
            let k2 = k.fresh();
            let Some(mut w2) = upto(ch, &k2, n) else { return };
            // SCRAM messages contain this exchange's nonces: the twin cannot be given them
            let own = k.mech.starts_with("SCRAM") && d.len() > 5;
            if own && d != h {
                ch.outcome("other scram message");
                if !o64.r.is_err() {
                    ch.check(unb64(&o64.bytes).is_some(), "output", || format!("{what}: wrote {:?}", o64.text()));
                }
                return;
            }
            let d2 = if own { w2.input.clone().unwrap() } else { d };
            let o = w2.target().step(ch, Some(&d2));
            ch.check(o.r == o64.r, "differs", || format!("{what}: {:?}, the plain step {:?}", o64.r, o.r));
            if !o.r.is_err() {
                match unb64(&o64.bytes) {
                    None => ch.fail("output", format!("{what}: wrote {:?}", o64.text())),
                    Some(b) => {
                        let (x, y) = (view(k.mech, &o64.r, &b), view(k.mech, &o.r, &o.bytes));
                        ch.check(x == y, "differs", || format!("{what}: {x}, the plain step {y}"));
                    }
                }
            }
            ch.check(k.sapp.n_val() == k2.sapp.n_val(), "validations", || format!("{what}: validation ran {} times, plain {}", k.sapp.n_val(), k2.sapp.n_val()));
            ch.outcome(o.r.tag());
        }
    }
}
fn text_stage(ch: &mut Ch) -> (Kit, usize) {
    let k = kit(ch);
    (k, ch.choose(6))
}
fn texts(ch: &mut Ch) {
    let (k, n) = text_stage(ch);
    text(ch, &k, n, |ch, _| {
        let al = [b'A', b'=', b'/', b'B', b'-', b'_', b'\n', b' ', 0xff, b'+'];
        let n = ch.choose(if ch.thorough { 6 } else { 5 });
        Some((0..n).map(|_| *ch.pick(&al)).collect())
    });
}
fn text_mutants(ch: &mut Ch) {
    let (k, n) = text_stage(ch);
    text(ch, &k, n, |ch, h| {
        let mut m = h.to_vec();
        let al = b"A=/\n -_b\0\xff+";
        match ch.choose(7) {
            0 => {
                let i = ch.choose(h.len().max(1));
                *m.get_mut(i)? = *ch.pick(al);
            }
            1 => m.insert(ch.choose(h.len() + 1), *ch.pick(al)),
            2 => {
                let i = ch.choose(h.len().max(1));
                if i >= m.len() {
                    return None;
                }
                m.remove(i);
            }
            3 => m.truncate(ch.choose(h.len() + 1)),
            4 => m = [h, b"\r\n"].concat(),
            5 => m = [h, h].concat(),
            _ => {
                while m.last() == Some(&b'=') {
                    m.pop();
                }
            }
        }
        Some(m)
    });
}
fn text_sizes(ch: &mut Ch) {
    let n = if ch.flip() { super::util::length(ch) } else { ch.choose(if ch.thorough { 3000 } else { 200 }) };
    let m = *ch.pick(&["ANONYMOUS", "EXTERNAL"]);
    let mut k = Kit::new(m);
    let t: String = (0..n).map(|i| (b'!' + (i % 90) as u8) as char).collect();
    k.capp.anon = Some(t.clone());
    k.capp.authid = Some(t.clone());
    k.capp.authzid = Some(t.clone());
    let (mut c, mut s) = k.parties();
    let o = c.step64(ch, None);
    let want = b64(t.as_bytes());
    ch.check(o.r.sent() && o.text() == want, "differs", || format!("{m}, {n} characters: {:?} {:?}", o.r, o.text()));
    let o = s.step64(ch, Some(want.as_bytes()));
    ch.check(o.r == R::FinNo && o.bytes.is_empty(), "differs", || format!("{m}, {n} characters: {:?}", o.r));
    one_validation(ch, m, &k.sapp, &[if m == "ANONYMOUS" { (P::Anon, super::util::s(&t)) } else { (P::AuthzId, super::util::s(&t)) }]);
    ch.outcome("ok");
}

// --------------------------------------------------------------------------------------- C24

fn poke(ch: &mut Ch, what: &str, p: &mut Party, data: &[u8], decode: bool) {
    let mut w = vec![];
    let had = p.has_layer();
    let r = if decode { p.decode(data, &mut w) } else { p.encode(data, &mut w) };
    ch.step();
    let op = if decode { "decode" } else { "encode" };
    let who = p.who();
    ch.check(!had && !p.has_layer(), "reported", || format!("{what}: the {who} reports a security layer"));
    ch.check(r.as_ref().is_err_and(|e| e == "NoSecurityLayer"), "allowed", || format!("{what}: {op} at the {who} gives {r:?}"));
    ch.check(w.is_empty(), "wrote", || format!("{what}: {op} at the {who} wrote {w:?}"));
}
/// Up to the deviation bound many layer calls at this point
fn pokes(ch: &mut Ch, what: &str, w: &mut Walk) {
    loop {
        match ch.deviate(5) {
            0 => break,
            1 => poke(ch, what, &mut w.c, b"data", false),
            2 => poke(ch, what, &mut w.s, b"data", false),
            3 => poke(ch, what, &mut w.c, b"data", true),
            _ => poke(ch, what, &mut w.s, b"data", true),
        }
        if ch.failed() {
            return;
        }
    }
    let (c, s) = (w.c.has_layer(), w.s.has_layer());
    ch.check(!c && !s, "reported", || format!("{what}: client reports a layer: {c}, server: {s}"));
}
fn run_poked(ch: &mut Ch, k: &Kit, what: &str) -> (Vec<String>, Walk) {
    let mut w = Walk::new(k);
    let mut log = vec![];
    pokes(ch, what, &mut w);
    while !w.over && !ch.failed() {
        let o = w.advance(ch);
        log.push(view(k.mech, &o.r, &o.bytes));
        pokes(ch, what, &mut w);
    }
    (log, w)
}
fn reference_log(ch: &mut Ch, k: &Kit) -> Vec<String> {
    let mut w = Walk::new(k);
    let mut log = vec![];
    while !w.over {
        let o = w.advance(ch);
        log.push(view(k.mech, &o.r, &o.bytes));
    }
    log
}
fn no_layer(ch: &mut Ch) {
    let ms: Vec<&'static str> = mechs::all().iter().copied().filter(|m| *m != "GSSAPI").collect();
    let mut k = Kit::new(*ch.pick(&ms));
    let sc = scenario(ch, &mut k);
    let what = format!("{}, {sc}", k.mech);
    let k0 = k.fresh();
    let want = reference_log(ch, &k0);
    let k1 = k.fresh();
    let (got, _) = run_poked(ch, &k1, &what);
    if ch.failed() {
        return;
    }
    ch.check(got == want, "disturbed", || format!("{what}: with layer calls {got:?} instead of {want:?}"));
    ch.check(k0.sapp.n_val() == k1.sapp.n_val(), "validations", || format!("{what}: validation ran {} times", k1.sapp.n_val()));
    ch.outcome(want.last().map_or("", |x| x.split(' ').next().unwrap()));
}
fn no_layer_data(ch: &mut Ch) {
    let k = kit(ch);
    let n = ch.choose(6);
    let (w, over) = match upto(ch, &k, n) {
        Some(w) => (Some(w), false),
        None => (None, true),
    };
    let mut w = if let Some(w) = w {
        w
    } else {
        if n != 5 {
            return;
        }
        let mut w = Walk::new(&k);
        w.finish(ch);
        w
    };
    if over && k.mech == "GSSAPI" {
        return;
    }
    let data: Vec<u8> = match ch.choose(2) {
        0 => toks(ch, &[b"\0", b"a", b"\xff", b"W"], 3),
        _ => vec![b'x'; *ch.pick(&[255, 4096, 65536])],
    };
    let decode = ch.flip();
    let client = ch.flip();
    // a GSSAPI client that has chosen a layer has one before the server
    if k.mech == "GSSAPI" && client && w.cr.as_ref().is_some_and(R::fin) {
        return;
    }
    let p = if client { &mut w.c } else { &mut w.s };
    poke(ch, &format!("{} step {n}", k.mech), p, &data, decode);
    ch.outcome(if over { "after" } else { "before" });
}
fn gss_no_layer(ch: &mut Ch) {
    let mut k = gss_kit(ch);
    let fail = ch.choose(4);
    match fail {
        1 => k.gss.refuse_at = Some(1),
        2 => k.sapp.vmode = VMode::FailBoxed,
        3 => k.gss.fail_call = Some(ch.choose(16)),
        _ => {}
    }
    let what = format!("GSSAPI {:?} layers {:?} {:?}", k.gss, k.capp.layers, k.sapp.layers);
    let want = reference_log(ch, &k.fresh());
    let mut got = vec![];
    let mut w = Walk::new(&k);
    loop {
        // before its end no party has a layer; afterwards only if one was agreed
        for client in [true, false] {
            let done = if client { &w.cr } else { &w.sr };
            let agreed = done.as_ref().is_some_and(R::fin) && {
                // the choice is the client's wrapped answer; both ends wrap only in the negotiation
                fakegss::log().wraps.iter().any(|x| x.0 && x.2.len() == 4 && x.2[0] != 1)
            };
            let p = if client { &mut w.c } else { &mut w.s };
            if agreed {
                ch.check(p.has_layer(), "not-reported", || format!("{what}: an agreed layer is not reported"));
                ch.outcome("agreed");
            } else {
                poke(ch, &what, p, b"data", false);
                poke(ch, &what, p, &fakegss::seal(!client, true, 0, b"data"), true);
            }
        }
        if w.over || ch.failed() {
            break;
        }
        let o = w.advance(ch);
        got.push(view(k.mech, &o.r, &o.bytes));
    }
    if !ch.failed() {
        ch.check(got == want, "disturbed", || format!("{what}: with layer calls {got:?} instead of {want:?}"));
    }
}
