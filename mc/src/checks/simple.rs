//! C08 PLAIN, C09 LOGIN, C10 XOAUTH2, C11 OAUTHBEARER, C12 ANONYMOUS and EXTERNAL.
use super::util::*;
use super::{tree, Check};
use crate::app::{App, Ev, Style, VMode, P, V};
use crate::drive::{no_cb, show, Duo, Party, R};
use crate::explore::Ch;

pub fn add(v: &mut Vec<Check>) {
    v.push(Check {
        id: "C08",
        trees: vec![
            tree("server-tokens", "every message of up to 6 (thorough 7) tokens over NUL, letters, characters SASLprep maps, removes or forbids, and invalid UTF-8", (0, 0), plain_server_tokens),
            tree("server-bytes", "every pair of bytes in every pair of positions of well-formed messages", (0, 0), plain_server_bytes),
            tree("client", "every combination of authorization identity, user name and password of up to 2 (thorough 3) tokens, present or absent, both answering styles", (0, 0), plain_client),
            tree("pair", "client and server together, fields from the same alphabet", (0, 0), plain_pair),
            tree("values", "every ASCII character and representatives of the others in every position, long values, known words, in one (thorough every two) of the fields, both ends", (0, 0), plain_values),
        ],
        assumptions: &["the stringprep crate is the reference for SASLprep"],
    });
    v.push(Check {
        id: "C09",
        trees: vec![
            tree("server", "every user name and password of up to 4 (thorough 5) tokens including invalid UTF-8 and NUL", (0, 0), login_server),
            tree("client", "every user name and password, present or absent, and every sequence of challenges", (0, 0), login_client),
            tree("pair", "client and server together", (0, 0), login_pair),
            tree("values", "every ASCII character and representatives of the others in every position, long values, known words, in one (thorough both) of the fields, both ends", (0, 0), login_values),
        ],
        assumptions: &[],
    });
    v.push(Check {
        id: "C10",
        trees: vec![
            tree("server-tokens", "every message of up to 6 (thorough 7) tokens of the XOAUTH2 syntax", (0, 0), xo_server_tokens),
            tree("server-verdict", "every well-formed message with every verdict and every answer to an error", (0, 0), xo_server_verdict),
            tree("client", "every user and token, present or absent, with every server answer of up to 3 tokens, handled or not", (0, 0), xo_client),
            tree("pair", "client and server together, every verdict", (0, 0), xo_pair),
            tree("values", "every ASCII character and representatives of the others in every position, long values, known words, in one (thorough every two) of user, token and error text, both ends", (0, 0), xo_values),
        ],
        assumptions: &["values containing the separator %x01 are outside XOAUTH2 and not judged"],
    });
    v.push(Check {
        id: "C11",
        trees: vec![
            tree("server-tokens", "every message of up to 6 (thorough 7) tokens of the OAUTHBEARER syntax", (0, 0), ob_server_tokens),
            tree("server-fields", "messages assembled from correct and incorrect headers, field lists, tokens and terminators", (0, 0), ob_server_fields),
            tree("server-verdict", "every verdict with every combination of error values and every answer", (0, 0), ob_server_verdict),
            tree("client-first", "every identity, field list and token, present or absent, both answering styles", (0, 0), ob_client_first),
            tree("client-error", "every server answer assembled from correct and incorrect JSON parts, handled or not", (0, 0), ob_client_error),
            tree("pair", "client and server together: identities, fields, tokens, verdicts", (0, 0), ob_pair),
            tree("lists", "every list of up to 4 (thorough 6) fields over five, repeated ones included, both ends, the registered names in every case, and lists of every length up to 70 (thorough 600)", (0, 0), ob_lists),
            tree("values", "every ASCII character and representatives of the others in every position, long values, known words, in one (thorough every two) of the fields, both ends", (0, 0), ob_values),
        ],
        assumptions: &[
            "serde_json's generic parser is the reference for JSON",
            "values containing the separator %x01, repeated auth fields, other token types and an empty authorization identity are not judged",
        ],
    });
    v.push(Check {
        id: "C12",
        trees: vec![
            tree("server", "every message of up to 5 (thorough 6) tokens including invalid UTF-8, and no message", (0, 0), ae_server),
            tree("server-bytes", "every message of up to 2 bytes and of 3 bytes over UTF-8 class representatives", (0, 0), ae_bytes),
            tree("client", "every token or identity of up to 4 tokens, present or absent, both answering styles, and the pair with a server", (0, 0), ae_client),
            tree("values", "every ASCII character and representatives of the others in every position, long values, known words, both ends", (0, 0), ae_values),
        ],
        assumptions: &[],
    });
}

fn style(ch: &mut Ch) -> Style {
    *ch.pick(&[Style::Targeted, Style::Chained])
}
fn acc() -> App {
    App { vmode: VMode::Set("ok"), ..Default::default() }
}

// ------------------------------------------------------------------------------------ PLAIN

fn plain_expect(m: &[u8]) -> Option<(String, String, Vec<u8>)> {
    let nuls: Vec<usize> = m.iter().enumerate().filter(|x| *x.1 == 0).map(|x| x.0).collect();
    if nuls.len() != 2 {
        return None;
    }
    let (z, c, p) = (&m[..nuls[0]], &m[nuls[0] + 1..nuls[1]], &m[nuls[1] + 1..]);
    let z = utf8(z)?;
    let c = stringprep::saslprep(utf8(c)?).ok()?.into_owned();
    let p = match utf8(p) {
        Some(p) => stringprep::saslprep(p).ok()?.as_bytes().to_vec(),
        None => p.to_vec(),
    };
    if c.is_empty() || p.is_empty() {
        return None;
    }
    Some((z.to_string(), c, p))
}

fn plain_server(ch: &mut Ch, m: &[u8]) {
    let app = acc();
    let mut p = Party::server(&app, "PLAIN", no_cb());
    let o = p.step(ch, Some(m));
    match plain_expect(m) {
        None => {
            refused(ch, "malformed PLAIN message", &o, &app);
            ch.check(p.validation().is_none(), "value", || "a refused message left a validation value".into());
            ch.outcome("refused");
        }
        Some((z, c, pw)) => {
            validated(ch, "PLAIN", &o, &mut p, &app, &[(P::AuthzId, s(&z)), (P::AuthId, s(&c)), (P::Password, b(&pw))]);
            ch.outcome("validated");
        }
    }
}

const PT: &[&[u8]] = &[
    b"\0",
    b"a",
    b"B",
    "\u{ad}".as_bytes(),
    "\u{a0}".as_bytes(),
    "\u{aa}".as_bytes(),
    "\u{2168}".as_bytes(),
    b"\x07",
    b"\xff",
    "\u{627}".as_bytes(),
];
fn plain_server_tokens(ch: &mut Ch) {
    let max = if ch.thorough { 7 } else { 6 };
    let n = ch.choose(max + 1);
    // every message has its NULs enumerated like any other token
    let al = if n > 6 { &PT[..9] } else { PT };
    let mut m = vec![];
    for _ in 0..n {
        m.extend_from_slice(*ch.pick(al));
    }
    plain_server(ch, &m);
}
fn plain_server_bytes(ch: &mut Ch) {
    let base: &[u8] = *ch.pick(&[&b"z\0u\0p"[..], b"\0us\0pw", b"zz\0u\0pw"]);
    let mut m = base.to_vec();
    let i = ch.choose(m.len());
    m[i] = ch.choose(256) as u8;
    if ch.thorough || i + 1 < m.len() {
        let j = if ch.thorough { ch.choose(m.len()) } else { i + 1 };
        m[j] = ch.choose(256) as u8;
    }
    plain_server(ch, &m);
}

const CS: &[&str] = &["a", "\u{e9}", "\0", " ", ",", "="];
const CB: &[&[u8]] = &[b"a", b"\xff", b"\0", b" ", b"\x01", "\u{e9}".as_bytes()];
fn opt_str(ch: &mut Ch, al: &[&str], max: usize) -> Option<String> {
    if ch.flip() {
        None
    } else {
        Some(stoks(ch, al, max))
    }
}
fn opt_bytes(ch: &mut Ch, al: &[&[u8]], max: usize) -> Option<Vec<u8>> {
    if ch.flip() {
        None
    } else {
        Some(toks(ch, al, max))
    }
}
fn plain_client(ch: &mut Ch) {
    let k = if ch.thorough { 3 } else { 2 };
    let z = opt_str(ch, CS, k.min(2));
    let c = opt_str(ch, CS, k);
    let pw = opt_bytes(ch, CB, k.min(2) + usize::from(ch.thorough && z.is_none()));
    let app = App { authzid: z.clone(), authid: c.clone(), password: pw.clone(), style: style(ch), ..Default::default() };
    let mut p = Party::client(&app, "PLAIN", no_cb());
    ch.check(p.first(), "first", || "the PLAIN client does not go first".into());
    let o = p.step(ch, None);
    ch.obs(&(z.clone(), c.clone(), pw.clone()));
    let good = c.as_ref().is_some_and(|c| !c.is_empty() && !c.contains('\0'))
        && pw.as_ref().is_some_and(|p| !p.is_empty() && !p.contains(&0))
        && z.as_ref().map_or(true, |z| !z.contains('\0'));
    if good {
        let mut want = z.unwrap_or_default().into_bytes();
        want.push(0);
        want.extend_from_slice(c.unwrap().as_bytes());
        want.push(0);
        want.extend_from_slice(&pw.unwrap());
        ch.check(o.r == R::FinYes && o.bytes == want, "client-message", || {
            format!("{:?}, wrote {:?}, expected {:?}", o.r, show(&o.bytes), show(&want))
        });
        ch.outcome("sent");
    } else {
        ch.check(o.r.is_err(), "client-accepted", || {
            format!("authzid {z:?}, user {c:?}, password {pw:?} must be refused: {:?} {:?}", o.r, show(&o.bytes))
        });
        ch.outcome("refused");
    }
    no_validation(ch, "client", &app);
}
fn plain_pair(ch: &mut Ch) {
    let al = &["a", "B", "\u{e9}", "\u{ad}", "\u{a0}", "\u{7}", ","];
    let z = opt_str(ch, al, 2);
    let c = stoks(ch, al, 2);
    let pw = if ch.flip() { vec![0xff, b'x'] } else { stoks(ch, al, 2).into_bytes() };
    let capp = App { authzid: z.clone(), authid: Some(c.clone()), password: Some(pw.clone()), ..Default::default() };
    let sapp = acc();
    let mut d = Duo::new(&capp, &sapp, "PLAIN", no_cb(), no_cb());
    let r = d.run(ch);
    no_validation(ch, "client", &capp);
    let mut m = z.clone().unwrap_or_default().into_bytes();
    m.push(0);
    m.extend_from_slice(c.as_bytes());
    m.push(0);
    m.extend_from_slice(&pw);
    match (c.is_empty() || pw.is_empty(), plain_expect(&m)) {
        (false, Some((z, c, pw))) => {
            ch.check(r.both_finished() && r.anomaly.is_none(), "pair", || format!("the exchange failed: {r:?}"));
            one_validation(ch, "PLAIN pair", &sapp, &[(P::AuthzId, s(&z)), (P::AuthId, s(&c)), (P::Password, b(&pw))]);
            ch.outcome("validated");
        }
        _ => {
            ch.check(!r.both_finished(), "pair", || format!("the exchange succeeded: {r:?}"));
            no_validation(ch, "PLAIN pair", &sapp);
            ch.outcome("refused");
        }
    }
}

/// Which values are taken from `text`; the others are fixed
fn which(ch: &mut Ch, n: usize) -> Vec<bool> {
    let mut v = vec![false; n];
    let i = ch.choose(n);
    v[i] = true;
    if ch.thorough {
        let j = ch.choose(n);
        v[j] = true;
    }
    v
}
fn no_nul(c: char) -> bool {
    c != '\0'
}
fn plain_values(ch: &mut Ch) {
    let w = which(ch, 3);
    let z = if w[0] { Some(text(ch, no_nul)) } else { ch.pick(&[None, Some("zed")]).map(String::from) };
    let c = if w[1] { text(ch, no_nul) } else { "alice".into() };
    let pw = if w[2] { octets(ch, |c| c != 0) } else { b"pa".to_vec() };
    let app = App { authzid: z.clone(), authid: Some(c.clone()), password: Some(pw.clone()), ..Default::default() };
    let mut p = Party::client(&app, "PLAIN", no_cb());
    let o = p.step(ch, None);
    let m = [z.unwrap_or_default().as_bytes(), b"\0", c.as_bytes(), b"\0", &pw].concat();
    ch.check(o.r == R::FinYes && o.bytes == m, "client-message", || format!("{:?}, wrote {:?}, expected {:?}", o.r, show(&o.bytes), show(&m)));
    plain_server(ch, &m);
}

// ------------------------------------------------------------------------------------ LOGIN

const LT: &[&[u8]] = &[b"a", b"\0", b" ", b"\xc3\xa9", b"\xc3", b"\xff", b"\r\n"];

fn prompts(ch: &mut Ch, o: &crate::drive::Out, what: &str) {
    ch.check(o.r == R::Running, "prompt-state", || format!("prompt for {what}: {:?}", o.r));
    ch.check(o.text().to_lowercase().starts_with(what), "prompt", || {
        format!("the server asks with {:?} for the {what}", o.text())
    });
}
fn login_server(ch: &mut Ch) {
    let k = if ch.thorough { 5 } else { 4 };
    let u = toks(ch, LT, k);
    let pw = toks(ch, LT, k - 1);
    let app = acc();
    let mut p = Party::server(&app, "LOGIN", no_cb());
    ch.check(p.first(), "first", || "the LOGIN server does not go first".into());
    let o = p.step(ch, None);
    prompts(ch, &o, "user");
    no_validation(ch, "before the user name", &app);
    let o = p.step(ch, Some(&u));
    no_validation(ch, "after the user name", &app);
    if utf8(&u).is_none() {
        ch.check(o.r.is_err(), "accepted-malformed", || format!("a user name that is not UTF-8 was accepted: {:?}", o.r));
        let o = p.step(ch, Some(&pw));
        let _ = o;
        ch.outcome("refused");
        return;
    }
    prompts(ch, &o, "pass");
    if ch.failed() {
        return;
    }
    let o = p.step(ch, Some(&pw));
    validated(ch, "LOGIN", &o, &mut p, &app, &[(P::AuthId, s(utf8(&u).unwrap())), (P::Password, b(&pw))]);
    let _ = p.step(ch, Some(b"more"));
    ch.check(app.n_val() == 1, "validation-count", || "stepping a finished LOGIN session validated again".into());
    ch.outcome("validated");
}
fn login_client(ch: &mut Ch) {
    let c = opt_str(ch, &["a", "\u{e9}", "\0", " "], 3);
    let pw = opt_bytes(ch, &[b"p", b"\xff", b"\0", b"\x01"], 3);
    let app = App { authid: c.clone(), password: pw.clone(), style: style(ch), ..Default::default() };
    let mut p = Party::client(&app, "LOGIN", no_cb());
    ch.check(!p.first(), "first", || "the LOGIN client goes first".into());
    let chall: &[&[u8]] = &[b"User Name\0", b"Password\0", b"", b"Username:", b"\xff"];
    let x1 = *ch.pick(chall);
    let x2 = *ch.pick(chall);
    let o = p.step(ch, Some(x1));
    let Some(c) = c else {
        ch.check(o.r.is_err(), "no-user", || format!("without a user name: {:?}", o.r));
        ch.outcome("no user name");
        return;
    };
    ch.check(o.r == R::Running && o.bytes == c.as_bytes(), "client-message", || {
        format!("first answer: {:?} {:?}, expected {c:?}", o.r, show(&o.bytes))
    });
    ch.check(!app.requests().contains(&P::Password), "early-password", || "the password was requested before its challenge".into());
    if ch.failed() {
        return;
    }
    let o = p.step(ch, Some(x2));
    match pw {
        None => {
            ch.check(o.r.is_err(), "no-password", || format!("without a password: {:?}", o.r));
            ch.outcome("no password");
        }
        Some(pw) => {
            ch.check(o.r == R::FinYes && o.bytes == pw, "client-message", || {
                format!("second answer: {:?} {:?}, expected {:?}", o.r, show(&o.bytes), show(&pw))
            });
            ch.outcome("sent");
        }
    }
    let o = p.step(ch, Some(x1));
    ch.check(o.bytes.is_empty(), "resent", || format!("a finished client wrote {:?}", show(&o.bytes)));
    no_validation(ch, "client", &app);
}
fn login_pair(ch: &mut Ch) {
    let c = stoks(ch, &["a", "\u{e9}", " ", "\0"], 3);
    let pw = toks(ch, &[b"p", b"\xff", b"\0"], 3);
    let capp = App { authid: Some(c.clone()), password: Some(pw.clone()), ..Default::default() };
    let sapp = acc();
    let mut d = Duo::new(&capp, &sapp, "LOGIN", no_cb(), no_cb());
    let r = d.run(ch);
    ch.check(r.both_finished() && r.anomaly.is_none(), "pair", || format!("the exchange failed: {r:?}"));
    one_validation(ch, "LOGIN pair", &sapp, &[(P::AuthId, s(&c)), (P::Password, b(&pw))]);
    no_validation(ch, "client", &capp);
    ch.outcome("validated");
}

fn login_values(ch: &mut Ch) {
    let w = which(ch, 2);
    let c = if w[0] { text(ch, |_| true) } else { "alice".into() };
    let pw = if w[1] { octets(ch, |_| true) } else { b"pa".to_vec() };
    let capp = App { authid: Some(c.clone()), password: Some(pw.clone()), ..Default::default() };
    let sapp = acc();
    let mut d = Duo::new(&capp, &sapp, "LOGIN", no_cb(), no_cb());
    let r = d.run(ch);
    let what = format!("user {c:?}, password {:?}", show(&pw));
    ch.check(r.both_finished() && r.anomaly.is_none(), "pair", || format!("{what}: the exchange failed: {r:?}"));
    let sent: Vec<&[u8]> = r.msgs.iter().filter(|m| m.0).map(|m| &m.1[..]).collect();
    ch.check(sent == [c.as_bytes(), &pw[..]], "client-message", || format!("{what}: the client sent {sent:?}"));
    one_validation(ch, &what, &sapp, &[(P::AuthId, s(&c)), (P::Password, b(&pw))]);
    ch.outcome("validated");
}

// ---------------------------------------------------------------------------------- XOAUTH2

enum Want<T> {
    Good(T),
    Bad,
    Unjudged,
}
fn xo_expect(m: &[u8]) -> Want<(String, String)> {
    let Some(sep) = m.iter().position(|x| *x == 1) else { return Want::Bad };
    let (u, rest) = (&m[..sep], &m[sep + 1..]);
    if !u.starts_with(b"user=") || rest.len() < 14 || !rest.ends_with(b"\x01\x01") {
        return Want::Bad;
    }
    if !rest[..12].eq_ignore_ascii_case(b"auth=Bearer ") {
        return Want::Bad;
    }
    let t = &rest[12..rest.len() - 2];
    let (Some(u), Some(ts)) = (utf8(&u[5..]), utf8(t)) else { return Want::Bad };
    if t.contains(&1) || &rest[..12] != b"auth=Bearer " {
        return Want::Unjudged;
    }
    Want::Good((u.to_string(), ts.to_string()))
}
fn xo_server(ch: &mut Ch, m: &[u8]) {
    let app = App { xverdict: Some(Ok(())), ..acc() };
    let mut p = Party::server(&app, "XOAUTH2", no_cb());
    let o = p.step(ch, Some(m));
    match xo_expect(m) {
        Want::Unjudged => ch.outcome("not judged"),
        Want::Bad => {
            refused(ch, "malformed XOAUTH2 message", &o, &app);
            ch.check(app.events().is_empty(), "asked", || "the application was asked about a malformed message".into());
            ch.outcome("refused");
        }
        Want::Good((u, t)) => {
            let want = [(P::AuthId, s(&u)), (P::Token, s(&t))];
            validated(ch, "XOAUTH2", &o, &mut p, &app, &want);
            asked(ch, &app, P::XVal, &want);
            ch.outcome("validated");
        }
    }
}
/// exactly one request for the verdict, with these values
fn asked(ch: &mut Ch, app: &App, which: P, want: &[(P, V)]) {
    let ev: Vec<_> = app.events();
    let reqs: Vec<_> = ev.iter().filter_map(|e| if let Ev::Req { p, ctx, .. } = e { Some((*p, ctx)) } else { None }).collect();
    ch.check(reqs.len() == 1 && reqs[0].0 == which, "requests", || format!("requests made: {reqs:?}"));
    if let Some((_, c)) = reqs.first() {
        if let Err(e) = ctx_is(c, want) {
            ch.fail("request-context", format!("the application was asked with the wrong values: {e}"));
        }
    }
}
fn xo_server_tokens(ch: &mut Ch) {
    let al: &[&[u8]] = &[b"user=", b"a", b"\x01", b"auth=Bearer ", b"\x01\x01", b"\xff", "\u{e9}".as_bytes(), b"auth="];
    let m = toks(ch, al, if ch.thorough { 7 } else { 6 });
    xo_server(ch, &m);
}
fn xo_server_verdict(ch: &mut Ch) {
    let ut = &["u", "@", "\u{e9}", "=", ",", " ", "\0"];
    let u = stoks(ch, ut, 2);
    let t = stoks(ch, &["t", "Bearer ", "=", "."], 2);
    let texts = ["{}", "{\"status\":\"401\"}", "x", "\u{e9}\n\"", "\0", "\x01", " ", ""];
    let v = ch.choose(texts.len() + 1);
    let verdict = if v == 0 { Ok(()) } else { Err(texts[v - 1].to_string()) };
    let app = App { xverdict: Some(verdict.clone()), style: style(ch), ..acc() };
    let mut p = Party::server(&app, "XOAUTH2", no_cb());
    ch.check(!p.first(), "first", || "the server claims to go first".into());
    let m = format!("user={u}\x01auth=Bearer {t}\x01\x01");
    let want = [(P::AuthId, s(&u)), (P::Token, s(&t))];
    let o = p.step(ch, Some(m.as_bytes()));
    match verdict {
        Ok(()) => {
            validated(ch, "XOAUTH2", &o, &mut p, &app, &want);
            ch.outcome("accepted");
        }
        Err(e) => {
            ch.check(o.r == R::Running, "error-state", || format!("after a refusal: {:?}", o.r));
            ch.check(o.bytes == e.as_bytes(), "error-text", || format!("sent {:?}, expected {e:?}", show(&o.bytes)));
            let ans: &[Option<&[u8]>] = &[Some(b""), None, Some(b"\x01"), Some(b"user=a\x01auth=Bearer b\x01\x01")];
            let a = *ch.pick(ans);
            let o = p.step(ch, a);
            ch.check(o.r == R::FinNo && o.bytes.is_empty(), "error-end", || {
                format!("after the client's answer: {:?}, wrote {:?}", o.r, show(&o.bytes))
            });
            one_validation(ch, "XOAUTH2 refused", &app, &want);
            ch.outcome("refused by the application");
        }
    }
    asked(ch, &app, P::XVal, &want);
}
fn xo_client(ch: &mut Ch) {
    let u = opt_str(ch, &["u", "\u{e9}", "=", ",", "\0"], 2);
    let t = opt_str(ch, &["t", "=", "Bearer "], 2);
    let app = App { authid: u.clone(), token: t.clone(), style: style(ch), handle_xerr: ch.flip(), ..Default::default() };
    let mut p = Party::client(&app, "XOAUTH2", no_cb());
    ch.check(p.first(), "first", || "the client does not go first".into());
    let o = p.step(ch, None);
    let (Some(u), Some(t)) = (u, t) else {
        ch.check(o.r.is_err(), "missing-value", || format!("{:?} without user or token", o.r));
        ch.outcome("missing value");
        return;
    };
    let want = format!("user={u}\x01auth=Bearer {t}\x01\x01");
    ch.check(o.r == R::Running && o.bytes == want.as_bytes(), "client-message", || {
        format!("{:?} {:?}, expected {want:?}", o.r, show(&o.bytes))
    });
    if ch.failed() {
        return;
    }
    let al: &[&[u8]] = &[b"{\"status\":\"x\"}", b"e", b"\xff", b"\0", "\u{e9}".as_bytes(), b" "];
    let m = if ch.flip() { Some(toks(ch, al, 3)) } else { None };
    let o = p.step(ch, m.as_deref());
    error_answer(ch, &app, &o, m.as_deref().unwrap_or(b""), |m| utf8(m).map(s), P::XErr, app.handle_xerr);
}
/// The client's reaction to a server error.
fn error_answer(
    ch: &mut Ch,
    app: &App,
    o: &crate::drive::Out,
    m: &[u8],
    parse: impl Fn(&[u8]) -> Option<V>,
    which: P,
    handled: bool,
) {
    no_validation(ch, "client", app);
    let acts = app.actions(which);
    ch.check(o.bytes.is_empty(), "error-answer", || format!("the answer to an error is {:?}", show(&o.bytes)));
    if m.is_empty() {
        ch.check(o.r == R::FinNo, "no-error", || format!("after an empty answer: {:?}", o.r));
        ch.check(acts.is_empty(), "phantom-error", || format!("no error was sent, the application got {acts:?}"));
        ch.outcome("end");
        return;
    }
    match parse(m) {
        None => {
            ch.check(o.r.is_err(), "error-accepted", || format!("{:?} after an unreadable error message {:?}", o.r, show(m)));
            ch.check(acts.is_empty(), "phantom-error", || format!("the application got {acts:?}"));
            ch.outcome("unreadable error");
        }
        Some(v) if handled => {
            ch.check(o.r == R::FinYes, "error-end", || format!("after a handled error: {:?}", o.r));
            ch.check(acts == [v.clone()], "error-value", || format!("the application got {acts:?}, expected {v:?}"));
            ch.outcome("handled error");
        }
        Some(_) => {
            ch.check(o.r.is_err(), "error-unhandled", || format!("{:?} although the error was not handled", o.r));
            ch.outcome("unhandled error");
        }
    }
}
fn xo_pair(ch: &mut Ch) {
    let u = stoks(ch, &["u", "\u{e9}", "=", ",", " "], 3);
    let t = stoks(ch, &["t", "=", "Bearer ", "."], 2);
    let e = ["err", "{\"a\":\"\u{e9}\"}"];
    let v = ch.choose(3);
    let handled = ch.flip();
    let capp = App { authid: Some(u.clone()), token: Some(t.clone()), handle_xerr: handled, ..Default::default() };
    let sapp = App { xverdict: Some(if v == 0 { Ok(()) } else { Err(e[v - 1].into()) }), ..acc() };
    let mut d = Duo::new(&capp, &sapp, "XOAUTH2", no_cb(), no_cb());
    let r = d.run(ch);
    one_validation(ch, "XOAUTH2 pair", &sapp, &[(P::AuthId, s(&u)), (P::Token, s(&t))]);
    if v == 0 || handled {
        ch.check(r.both_finished() && r.anomaly.is_none(), "pair", || format!("the exchange failed: {r:?}"));
    } else {
        ch.check(r.cr.as_ref().is_some_and(R::is_err), "pair", || format!("an unhandled error: {r:?}"));
    }
    let want: Vec<V> = if v > 0 && handled { vec![s(e[v - 1])] } else { vec![] };
    ch.check(capp.actions(P::XErr) == want, "error-value", || format!("the client got {:?}", capp.actions(P::XErr)));
    ch.outcome(format!("verdict {} handled {handled}", v.min(1)));
}

fn xo_values(ch: &mut Ch) {
    let no_sep = |c: char| c != '\u{1}';
    let w = which(ch, 3);
    let u = if w[0] { text(ch, no_sep) } else { "u@h".into() };
    let t = if w[1] { text(ch, no_sep) } else { "tok".into() };
    let e = if w[2] { Some(text(ch, |_| true)) } else { ch.pick(&[None, Some("{}")]).map(String::from) };
    let what = format!("user {u:?}, token {t:?}, error {e:?}");
    let capp = App { authid: Some(u.clone()), token: Some(t.clone()), handle_xerr: true, ..Default::default() };
    let mut c = Party::client(&capp, "XOAUTH2", no_cb());
    let o = c.step(ch, None);
    let m = format!("user={u}\x01auth=Bearer {t}\x01\x01");
    ch.check(o.r == R::Running && o.bytes == m.as_bytes(), "client-message", || format!("{what}: {:?} {:?}", o.r, show(&o.bytes)));
    let want = [(P::AuthId, s(&u)), (P::Token, s(&t))];
    let sapp = App { xverdict: Some(e.clone().map_or(Ok(()), Err)), ..acc() };
    let mut p = Party::server(&sapp, "XOAUTH2", no_cb());
    let o = p.step(ch, Some(m.as_bytes()));
    asked(ch, &sapp, P::XVal, &want);
    match e {
        None => {
            validated(ch, &what, &o, &mut p, &sapp, &want);
            ch.outcome("accepted");
        }
        Some(e) => {
            ch.check(o.r == R::Running && o.bytes == e.as_bytes(), "error-text", || format!("{what}: {:?} {:?}", o.r, show(&o.bytes)));
            one_validation(ch, &what, &sapp, &want);
            let o = c.step(ch, Some(e.as_bytes()));
            error_answer(ch, &capp, &o, e.as_bytes(), |m| utf8(m).map(s), P::XErr, true);
            ch.outcome("refused");
        }
    }
}

// ------------------------------------------------------------------------------- OAUTHBEARER

struct Ob {
    authzid: Option<String>,
    token: String,
    kv: Vec<(String, String)>,
}
fn unescape(x: &str) -> Option<String> {
    let mut o = String::new();
    let mut it = x.chars();
    while let Some(c) = it.next() {
        match c {
            ',' => return None,
            '=' => match (it.next()?, it.next()?) {
                ('2', 'C') => o.push(','),
                ('3', 'D') => o.push('='),
                _ => return None,
            },
            c => o.push(c),
        }
    }
    Some(o)
}
/// The message format of RFC 7628 section 3.1 (GS2 header without channel binding)
fn ob_expect(m: &[u8]) -> Want<Ob> {
    if !m.ends_with(b"\x01\x01") {
        return Want::Bad;
    }
    let body = &m[..m.len() - 2];
    let mut parts = body.split(|x| *x == 1);
    let gs2 = parts.next().unwrap();
    let Some(gs2) = utf8(gs2) else { return Want::Bad };
    let mut judged = true;
    let f: Vec<&str> = gs2.split(',').collect();
    if f.len() != 3 || !f[2].is_empty() {
        return Want::Bad;
    }
    match f[0] {
        "n" => {}
        "y" => judged = false, // allowed by the grammar, refused by the library
        _ => return Want::Bad,
    }
    let authzid = if f[1].is_empty() {
        None
    } else {
        let Some(z) = f[1].strip_prefix("a=") else { return Want::Bad };
        if z.is_empty() || z.contains('\0') {
            judged = false;
        }
        match unescape(z) {
            Some(z) => Some(z),
            None => return Want::Bad,
        }
    };
    let mut token = None;
    let mut kv = vec![];
    let parts: Vec<&[u8]> = parts.collect();
    let n_parts = parts.len();
    for p in parts {
        if p.is_empty() && n_parts == 1 {
            return Want::Bad;
        }
        let Some(p) = utf8(p) else { return Want::Bad };
        let Some((k, v)) = p.split_once('=') else { return Want::Bad };
        if k == "auth" {
            if token.is_some() {
                judged = false;
            }
            match v.strip_prefix("Bearer ") {
                Some(t) => {
                    if t.is_empty() {
                        judged = false;
                    }
                    token = Some(t.to_string())
                }
                None => {
                    judged = false;
                    token = Some(v.to_string())
                }
            }
        } else {
            if k.is_empty() || !k.bytes().all(|c| c.is_ascii_alphabetic()) {
                judged = false;
            }
            kv.push((k.to_string(), v.to_string()));
        }
    }
    let Some(token) = token else { return Want::Bad };
    if !judged {
        return Want::Unjudged;
    }
    Want::Good(Ob { authzid, token, kv })
}
fn ob_want(o: &Ob) -> Vec<(P, V)> {
    let mut w = vec![(P::Token, s(&o.token)), (P::Kv, V::Kv(o.kv.clone()))];
    if let Some(z) = &o.authzid {
        w.push((P::AuthzId, s(z)));
    }
    w
}
fn ob_server(ch: &mut Ch, m: &[u8]) {
    let app = App { overdict: Some(Ok(())), ..acc() };
    let mut p = Party::server(&app, "OAUTHBEARER", no_cb());
    let o = p.step(ch, Some(m));
    match ob_expect(m) {
        Want::Unjudged => {
            ch.check(!o.r.is_err() || app.n_val() == 0, "validated-malformed", || {
                "the message was refused, but validation ran".into()
            });
            ch.outcome("not judged")
        }
        Want::Bad => {
            refused(ch, "malformed OAUTHBEARER message", &o, &app);
            ch.check(app.events().is_empty(), "asked", || "the application was asked about a malformed message".into());
            ch.outcome("refused");
        }
        Want::Good(ob) => {
            let want = ob_want(&ob);
            validated(ch, "OAUTHBEARER", &o, &mut p, &app, &want);
            asked(ch, &app, P::OVal, &want);
            ch.outcome("validated");
        }
    }
}
fn ob_server_tokens(ch: &mut Ch) {
    let al: &[&[u8]] = &[b"n,", b",", b"a=", b"u", b"=2C", b"\x01", b"auth=Bearer ", b"h=", b"\x01\x01", b"\xff"];
    let n = ch.choose(if ch.thorough { 8 } else { 7 });
    let mut m = vec![];
    if n == 0 {
        m.extend_from_slice(*ch.pick(&[&b""[..], b"n,,", b"\x01\x01"]));
    }
    for _ in 0..n {
        m.extend_from_slice(*ch.pick(al));
    }
    ob_server(ch, &m);
}
fn ob_server_fields(ch: &mut Ch) {
    let gs2: &[&[u8]] = &[
        b"n,,", b"n,a=u,", b"n,a=u=2Cv,", b"n,a=u=3D,", b"n,a==2C=3D=3D2C,", "n,a=\u{e9},".as_bytes(), b"n,a=u=,", b"n,a=u=2c,", b"n,a=u=2", b"n,b=u,",
        b"n,u,", b"n,a=u", b"n,", b"n", b"", b"p=tls-exporter,,", b"y,,", b"n,a=\xff,", b"n,a=u,x", b"n,a=u,,", b"N,,", b" n,,", b"n,,n=x", b"nn,,", b"n,a=u=3,",
    ];
    let mut m = ch.pick(gs2).to_vec();
    let fields: &[&[u8]] = &[
        b"\x01auth=Bearer tok",
        b"\x01host=h.example",
        b"\x01port=143",
        b"\x01q=a=b==c",
        b"\x01empty=",
        b"\x01noequals",
        b"\x01",
        b"\x01k=\xff",
        b"\x01auth=Bearer a=b.c~d",
        b"\x01authx=1",
        "\x01k=\u{e9}, \u{1F600}".as_bytes(),
        b"\x01auth=",
    ];
    let n = ch.choose(if ch.thorough { 5 } else { 4 });
    for _ in 0..n {
        m.extend_from_slice(*ch.pick(fields));
    }
    m.extend_from_slice(*ch.pick(&[&b"\x01\x01"[..], b"\x01", b"", b"\x01\x01 ", b"\x01\x01\x01"]));
    ob_server(ch, &m);
}

fn ob_err(ch: &mut Ch) -> (String, Option<String>, Option<String>) {
    let strs = ["invalid_token", "", "a\"b\\c/d", "\u{e9}\u{1F600}", "\0\x01\n\r\t\x1f\x7f", "{\"x\":1}", "\u{2028}"];
    let st = ch.pick(&strs).to_string();
    let pick = |ch: &mut Ch| {
        let i = ch.choose(strs.len() + 1);
        if i == 0 {
            None
        } else {
            Some(strs[i - 1].to_string())
        }
    };
    let sc = pick(ch);
    let oc = pick(ch);
    (st, sc, oc)
}
fn ob_server_verdict(ch: &mut Ch) {
    let ob = Ob {
        authzid: if ch.flip() { Some("u,v".into()) } else { None },
        token: "tok".into(),
        kv: if ch.flip() { vec![("host".into(), "h=1".into())] } else { vec![] },
    };
    let m = format!(
        "n,{},{}\x01auth=Bearer tok\x01\x01",
        if ob.authzid.is_some() { "a=u=2Cv" } else { "" },
        if ob.kv.is_empty() { "" } else { "\x01host=h=1" }
    );
    let v = if ch.flip() { Err(ob_err(ch)) } else { Ok(()) };
    let app = App { overdict: Some(v.clone()), style: style(ch), ..acc() };
    let mut p = Party::server(&app, "OAUTHBEARER", no_cb());
    ch.check(!p.first(), "first", || "the server claims to go first".into());
    let o = p.step(ch, Some(m.as_bytes()));
    let want = ob_want(&ob);
    match v {
        Ok(()) => {
            validated(ch, "OAUTHBEARER", &o, &mut p, &app, &want);
            ch.outcome("accepted");
        }
        Err((st, sc, oc)) => {
            ch.check(o.r == R::Running, "error-state", || format!("after a refusal: {:?}", o.r));
            let mut j = serde_json::Map::new();
            j.insert("status".into(), st.into());
            if let Some(x) = sc {
                j.insert("scope".into(), x.into());
            }
            if let Some(x) = oc {
                j.insert("openid-configuration".into(), x.into());
            }
            let got: Option<serde_json::Value> = serde_json::from_slice(&o.bytes).ok();
            ch.check(got == Some(serde_json::Value::Object(j.clone())), "error-json", || {
                format!("sent {:?}, expected {j:?}", show(&o.bytes))
            });
            let a = *ch.pick(&[Some(&b"\x01"[..]), Some(b""), None, Some(b"n,,\x01auth=Bearer x\x01\x01")]);
            let o = p.step(ch, a);
            ch.check(o.r == R::FinNo && o.bytes.is_empty(), "error-end", || {
                format!("after the client's answer: {:?}, wrote {:?}", o.r, show(&o.bytes))
            });
            one_validation(ch, "OAUTHBEARER refused", &app, &want);
            ch.outcome("refused by the application");
        }
    }
    asked(ch, &app, P::OVal, &want);
}
const KVS: &[&[(&str, &str)]] = &[
    &[],
    &[("host", "h.example")],
    &[("host", "h"), ("port", "143")],
    &[("port", "143"), ("host", "h")],
    &[("q", "a=b==c"), ("e", "")],
    &[("mthd", "POST"), ("path", "/\u{e9}?x=1&y=2"), ("post", "\n,n,")],
    &[("x", "1"), ("x", "2")],
    &[("authx", "auth=Bearer no")],
];
fn kvs(ch: &mut Ch) -> Option<Vec<(String, String)>> {
    let i = ch.choose(KVS.len() + 1);
    if i == 0 {
        None
    } else {
        Some(KVS[i - 1].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())
    }
}
fn ob_authzid(ch: &mut Ch) -> Option<String> {
    if ch.flip() {
        let x = stoks(ch, &["u", ",", "=", "=2C", "\u{e9}", " ", "a="], if ch.thorough { 4 } else { 3 });
        if x.is_empty() {
            None
        } else {
            Some(x)
        }
    } else {
        None
    }
}
fn ob_client_first(ch: &mut Ch) {
    let z = ob_authzid(ch);
    let kv = kvs(ch);
    let t = match ch.choose(5) {
        0 => None,
        1 => Some("tok".to_string()),
        2 => Some("a.b-c_d~e+f/g==".into()),
        3 => Some("Bearer x".into()),
        _ => Some("x".repeat(300)),
    };
    let app = App { authzid: z.clone(), kv: kv.clone(), token: t.clone(), style: style(ch), ..Default::default() };
    let mut p = Party::client(&app, "OAUTHBEARER", no_cb());
    ch.check(p.first(), "first", || "the client does not go first".into());
    let o = p.step(ch, None);
    let Some(t) = t else {
        ch.check(o.r.is_err(), "missing-value", || format!("{:?} without a token", o.r));
        ch.outcome("missing token");
        return;
    };
    ch.check(o.r == R::Running, "client-state", || format!("{:?}", o.r));
    match ob_expect(&o.bytes) {
        Want::Good(g) => {
            ch.check(g.authzid == z && g.token == t && g.kv == kv.clone().unwrap_or_default(), "client-message", || {
                format!("the message {:?} does not carry {z:?} {kv:?} {t:?}", show(&o.bytes))
            });
        }
        _ => ch.fail("client-message", format!("the message {:?} for {z:?} {kv:?} {t:?} is malformed", show(&o.bytes))),
    }
    ch.outcome("sent");
}
fn ob_client_error(ch: &mut Ch) {
    let app = App { token: Some("t".into()), handle_oerr: ch.flip(), ..Default::default() };
    let mut p = Party::client(&app, "OAUTHBEARER", no_cb());
    let o = p.step(ch, None);
    ch.check(o.r == R::Running, "client-state", || format!("{:?}", o.r));
    if ch.failed() {
        return;
    }
    let open = *ch.pick(&["{", " {\n", "", "[", "{{"]);
    let parts = [
        "\"status\":\"invalid_token\"",
        "\"status\" : \"a\\\"b\\\\c\\/d\\u00e9\\n\"",
        "\"status\":\"\"",
        "\"status\":401",
        "\"status\":null",
        "\"scope\":\"s\"",
        "\"scope\":\"\\ud83d\\ude00\"",
        "\"scope\":7",
        "\"openid-configuration\":\"https://x/.well-known\"",
        "\"openid-configuration\":[]",
        "\"openid_config\":\"no\"",
        "\"extra\":{\"status\":\"inner\"}",
        "\"status\":\"\u{e9}\"",
        "\"status\":\"unterminated",
        "status:\"x\"",
        "\"sta\\u0074us\":\"esc\"",
    ];
    let n = ch.choose(4);
    let mut body = vec![];
    for _ in 0..n {
        body.push(*ch.pick(&parts));
    }
    let close = *ch.pick(&["}", "} ", "", "}}", "}x"]);
    let m = format!("{open}{}{close}", body.join(","));
    let bad = ch.choose(4);
    let mut m = m.into_bytes();
    match bad {
        0 => {}
        1 => m.push(0xff),
        2 => m.clear(),
        _ => m.insert(0, 0),
    }
    // duplicate keys and nulls are not judged
    let keys = ["status", "scope", "openid-configuration"];
    let text = String::from_utf8_lossy(&m).into_owned();
    if keys.iter().any(|k| text.matches(&format!("\"{k}\"")).count() + text.matches("sta\\u0074us").count() * usize::from(*k == "status") > 1)
        || text.contains("null")
    {
        let _ = p.step(ch, Some(&m));
        ch.outcome("not judged");
        return;
    }
    let o = p.step(ch, Some(&m));
    error_answer(ch, &app, &o, &m, ob_err_parse, P::OErr, app.handle_oerr);
}
fn ob_err_parse(m: &[u8]) -> Option<V> {
    let v: serde_json::Value = serde_json::from_slice(m).ok()?;
    let o = v.as_object()?;
    let st = o.get("status")?.as_str()?.to_string();
    let get = |k: &str| match o.get(k) {
        None => Ok(None),
        Some(serde_json::Value::String(s)) => Ok(Some(s.clone())),
        Some(_) => Err(()),
    };
    Some(V::OErr(st, get("scope").ok()?, get("openid-configuration").ok()?))
}
fn ob_pair(ch: &mut Ch) {
    let z = ob_authzid(ch);
    let kv = kvs(ch);
    let t = ch.pick(&["tok", "a.b-c==", "Bearer x"]).to_string();
    let v = match ch.choose(3) {
        0 => Ok(()),
        1 => Err(("invalid_token".to_string(), None, None)),
        _ => Err(("a\"b\u{e9}\n".to_string(), Some("s p".to_string()), Some("https://x".to_string()))),
    };
    let handled = ch.flip();
    let capp = App { authzid: z.clone(), kv: kv.clone(), token: Some(t.clone()), handle_oerr: handled, ..Default::default() };
    let sapp = App { overdict: Some(v.clone()), ..acc() };
    let mut d = Duo::new(&capp, &sapp, "OAUTHBEARER", no_cb(), no_cb());
    let r = d.run(ch);
    one_validation(ch, "OAUTHBEARER pair", &sapp, &ob_want(&Ob { authzid: z, token: t, kv: kv.unwrap_or_default() }));
    let acts = capp.actions(P::OErr);
    match v {
        Ok(()) => {
            ch.check(r.both_finished() && r.anomaly.is_none(), "pair", || format!("the exchange failed: {r:?}"));
            ch.check(acts.is_empty(), "phantom-error", || format!("{acts:?}"));
        }
        Err((a, b2, c)) => {
            if handled {
                ch.check(r.both_finished() && r.anomaly.is_none(), "pair", || format!("the exchange failed: {r:?}"));
                ch.check(acts == [V::OErr(a, b2, c)], "error-value", || format!("the client got {acts:?}"));
            } else {
                ch.check(r.cr.as_ref().is_some_and(R::is_err), "pair", || format!("an unhandled error: {r:?}"));
            }
        }
    }
    ch.outcome(format!("handled {handled}"));
}

/// Neither order nor repetition nor number of the fields matters to what is carried.
fn ob_lists(ch: &mut Ch) {
    const F: [(&str, &str); 5] = [("x", "1"), ("x", "2"), ("host", "h"), ("port", "1"), ("a", "")];
    let kind = ch.choose(3);
    let kv: Vec<(String, String)> = if kind == 2 {
        // the names RFC 7628 registers, and their like, in every case
        let n = *ch.pick(&["host", "port", "mthd", "path", "post", "qs", "user", "aut", "authz", "xauth", "k"]);
        let name: String = n.chars().map(|c| if n != "aut" && ch.flip() { c.to_ascii_uppercase() } else { c }).collect();
        let v = (name, "143".to_string());
        match ch.choose(3) {
            0 => vec![v],
            1 => vec![v, (n.to_string(), "x".to_string())],
            _ => vec![("x".to_string(), "y".to_string()), v],
        }
    } else if kind == 0 {
        let n = ch.choose(if ch.thorough { 7 } else { 5 });
        (0..n).map(|_| *ch.pick(&F)).map(|(a, b)| (a.to_string(), b.to_string())).collect()
    } else {
        let n = ch.choose(if ch.thorough { 601 } else { 71 });
        let same = ch.flip();
        (0..n).map(|i| if same { ("k".to_string(), "v".to_string()) } else { (((b'a' + (i % 26) as u8) as char).to_string(), i.to_string()) }).collect()
    };
    let z = ch.pick(&[None, Some("zed")]).map(String::from);
    let what = format!("authzid {z:?}, fields {kv:?}");
    let capp = App { authzid: z.clone(), kv: Some(kv.clone()), token: Some("tok".into()), style: style(ch), ..Default::default() };
    let o = Party::client(&capp, "OAUTHBEARER", no_cb()).step(ch, None);
    match ob_expect(&o.bytes) {
        Want::Good(g) => {
            ch.check(o.r == R::Running && g.authzid == z && g.token == "tok" && g.kv == kv, "client-message", || {
                format!("{what}: {:?}, the message {:?} carries other values", o.r, show(&o.bytes))
            });
        }
        _ => ch.fail("client-message", format!("{what}: {:?}, the message {:?} is malformed", o.r, show(&o.bytes))),
    }
    let m = format!(
        "n,{},{}\x01auth=Bearer tok\x01\x01",
        z.as_deref().map_or(String::new(), |z| format!("a={z}")),
        kv.iter().map(|(k, v)| format!("\x01{k}={v}")).collect::<String>()
    );
    let sapp = App { overdict: Some(Ok(())), ..acc() };
    let mut p = Party::server(&sapp, "OAUTHBEARER", no_cb());
    let o = p.step(ch, Some(m.as_bytes()));
    let want = ob_want(&Ob { authzid: z, token: "tok".into(), kv });
    asked(ch, &sapp, P::OVal, &want);
    validated(ch, &what, &o, &mut p, &sapp, &want);
    ch.outcome("accepted");
}
fn ob_values(ch: &mut Ch) {
    let no_sep = |c: char| c != '\u{1}' && c != '\0';
    let w = which(ch, 7);
    let z = if w[0] { Some(text(ch, no_sep)) } else { ch.pick(&[None, Some("zed")]).map(String::from) };
    let t = if w[1] { text(ch, no_sep) } else { "tok".into() };
    let mut kv = vec![];
    if w[2] {
        // names consist of letters
        let n = text(ch, |c| c.is_ascii_alphabetic());
        kv.push((n.chars().filter(char::is_ascii_alphabetic).chain(['k']).collect(), "v".to_string()));
    }
    if w[3] {
        kv.push(("host".into(), text(ch, no_sep)));
        kv.push(("port".into(), "143".into()));
    }
    let e = if w[4] || w[5] || w[6] {
        let st = if w[4] { text(ch, |_| true) } else { "invalid_token".into() };
        Some((st, w[5].then(|| text(ch, |_| true)), w[6].then(|| text(ch, |_| true))))
    } else {
        None
    };
    let what = format!("authzid {z:?}, token {t:?}, fields {kv:?}, error {e:?}");
    let capp = App { authzid: z.clone(), kv: Some(kv.clone()), token: Some(t.clone()), handle_oerr: true, ..Default::default() };
    let mut c = Party::client(&capp, "OAUTHBEARER", no_cb());
    let o = c.step(ch, None);
    let esc = |z: &str| z.replace('=', "=3D").replace(',', "=2C");
    let m = format!(
        "n,{},{}\x01auth=Bearer {t}\x01\x01",
        z.as_deref().map_or(String::new(), |z| format!("a={}", esc(z))),
        kv.iter().map(|(k, v)| format!("\x01{k}={v}")).collect::<String>()
    );
    match ob_expect(&o.bytes) {
        Want::Good(g) => {
            ch.check(o.r == R::Running && g.authzid == z && g.token == t && g.kv == kv, "client-message", || {
                format!("{what}: {:?}, the message {:?} carries other values", o.r, show(&o.bytes))
            });
        }
        _ => ch.fail("client-message", format!("{what}: {:?}, the message {:?} is malformed", o.r, show(&o.bytes))),
    }
    let sapp = App { overdict: Some(e.clone().map_or(Ok(()), Err)), ..acc() };
    let mut p = Party::server(&sapp, "OAUTHBEARER", no_cb());
    let o = p.step(ch, Some(m.as_bytes()));
    let want = ob_want(&Ob { authzid: z, token: t, kv });
    asked(ch, &sapp, P::OVal, &want);
    match e {
        None => {
            validated(ch, &what, &o, &mut p, &sapp, &want);
            ch.outcome("accepted");
        }
        Some((st, sc, oc)) => {
            let v = V::OErr(st.clone(), sc.clone(), oc.clone());
            ch.check(o.r == R::Running && ob_err_parse(&o.bytes) == Some(v), "error-json", || format!("{what}: {:?} {:?}", o.r, show(&o.bytes)));
            one_validation(ch, &what, &sapp, &want);
            // another server may escape whatever it wants
            let json = if ch.flip() {
                o.bytes
            } else {
                let esc = |x: &str| x.encode_utf16().map(|u| format!("\\u{u:04X}")).collect::<String>();
                let mut j = format!("{{\"status\":\"{}\"", esc(&st));
                for (k, v) in [("scope", &sc), ("openid-configuration", &oc)] {
                    if let Some(v) = v {
                        j += &format!(", \"{k}\" : \"{}\"", esc(v));
                    }
                }
                (j + "}").into_bytes()
            };
            let o = c.step(ch, Some(&json));
            error_answer(ch, &capp, &o, &json, ob_err_parse, P::OErr, true);
            ch.outcome("refused");
        }
    }
}

// ---------------------------------------------------------------------- ANONYMOUS, EXTERNAL

fn ae(ch: &mut Ch, mech: &'static str, m: Option<&[u8]>) {
    let app = acc();
    let mut p = Party::server(&app, mech, no_cb());
    ch.check(!p.first(), "first", || "the server claims to go first".into());
    let o = p.step(ch, m);
    let which = if mech == "ANONYMOUS" { P::Anon } else { P::AuthzId };
    match utf8(m.unwrap_or(b"")) {
        None => {
            refused(ch, "text that is not UTF-8", &o, &app);
            ch.outcome("refused");
        }
        Some(t) => {
            validated(ch, mech, &o, &mut p, &app, &[(which, s(t))]);
            ch.outcome("validated");
        }
    }
}
fn ae_server(ch: &mut Ch) {
    let mech = *ch.pick(&["ANONYMOUS", "EXTERNAL"]);
    if ch.flip() {
        return ae(ch, mech, None);
    }
    let al: &[&[u8]] = &[b"a", b"\0", b" ", b"\r\n", b"\xc3\xa9", b"\xc3", b"\xf0\x9f\x98\x80", b"@", b"\xff", "\u{ad}".as_bytes()];
    let m = toks(ch, al, if ch.thorough { 6 } else { 5 });
    let m = if ch.flip() { m.repeat(60) } else { m };
    ae(ch, mech, Some(&m));
}
fn ae_bytes(ch: &mut Ch) {
    let mech = *ch.pick(&["ANONYMOUS", "EXTERNAL"]);
    let m: Vec<u8> = match ch.choose(3) {
        0 => vec![ch.choose(256) as u8],
        1 => vec![ch.choose(256) as u8, ch.choose(256) as u8],
        _ => {
            let r = [0u8, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xa0, 0x9f, 0xed, 0xef, 0xf0, 0x90, 0x8f, 0xf4, 0xf5, 0xff];
            (0..4).map(|_| *ch.pick(&r)).collect()
        }
    };
    ae(ch, mech, Some(&m));
}
fn ae_client(ch: &mut Ch) {
    let mech = *ch.pick(&["ANONYMOUS", "EXTERNAL"]);
    let al = &["a", "\0", " ", "\r\n", "\u{e9}", "@", "\u{ad}", "\u{1F600}"];
    let t = opt_str(ch, al, if ch.thorough { 5 } else { 4 });
    let st = style(ch);
    let other = Some("other".to_string());
    let app = if mech == "ANONYMOUS" {
        App { anon: t.clone(), authzid: other.clone(), authid: other, style: st, ..Default::default() }
    } else {
        App { authzid: t.clone(), anon: other.clone(), authid: other, style: st, ..Default::default() }
    };
    let sapp = acc();
    let mut d = Duo::new(&app, &sapp, mech, no_cb(), no_cb());
    ch.check(d.c.first(), "first", || "the client does not go first".into());
    let r = d.run(ch);
    let text = t.unwrap_or_default();
    ch.check(r.cr == Some(R::FinYes) && r.msgs == [(true, text.clone().into_bytes())], "client-message", || {
        format!("expected the single message {text:?}: {r:?}")
    });
    ch.check(r.sr == Some(R::FinNo) && r.anomaly.is_none(), "pair", || format!("{r:?}"));
    one_validation(ch, mech, &sapp, &[(if mech == "ANONYMOUS" { P::Anon } else { P::AuthzId }, s(&text))]);
    no_validation(ch, "client", &app);
    ch.outcome("validated");
}
fn ae_values(ch: &mut Ch) {
    let mech = *ch.pick(&["ANONYMOUS", "EXTERNAL"]);
    let t = text(ch, |_| true);
    let app = App { anon: Some(t.clone()), authzid: Some(t.clone()), ..Default::default() };
    let mut c = Party::client(&app, mech, no_cb());
    let o = c.step(ch, None);
    ch.check(o.r == R::FinYes && o.bytes == t.as_bytes(), "client-message", || format!("{mech} {t:?}: {:?} {:?}", o.r, show(&o.bytes)));
    ae(ch, mech, Some(t.as_bytes()));
}
