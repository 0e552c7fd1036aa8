//! Things most checks need.
use crate::app::{App, Ctx, P, V};
use crate::drive::{Out, Party, R};
use crate::explore::Ch;

/// A sequence of 0 to `max` tokens, concatenated.
pub fn toks(ch: &mut Ch, al: &[&[u8]], max: usize) -> Vec<u8> {
    let n = ch.choose(max + 1);
    let mut o = vec![];
    for _ in 0..n {
        o.extend_from_slice(*ch.pick(al));
    }
    o
}
pub fn stoks(ch: &mut Ch, al: &[&str], max: usize) -> String {
    let n = ch.choose(max + 1);
    (0..n).map(|_| *ch.pick(al)).collect()
}
pub fn utf8(b: &[u8]) -> Option<&str> {
    std::str::from_utf8(b).ok()
}

/// The context contains exactly `want`; a wanted empty string may also be absent.
pub fn ctx_is(c: &Ctx, want: &[(P, V)]) -> Result<(), String> {
    for (p, v) in want {
        let got = c.iter().find(|x| x.0 == *p).map(|x| &x.1);
        let empty = match v {
            V::S(s) => s.is_empty() && *p != P::AuthId,
            V::Kv(k) => k.is_empty(),
            _ => false,
        };
        match got {
            Some(g) if g == v => {}
            None if empty => {}
            g => return Err(format!("{p:?} is {g:?}, expected {v:?}")),
        }
    }
    for (p, v) in c {
        if !want.iter().any(|w| w.0 == *p) {
            return Err(format!("unexpected {p:?} = {v:?}"));
        }
    }
    Ok(())
}

pub fn s(x: &str) -> V {
    V::S(x.to_string())
}
pub fn b(x: &[u8]) -> V {
    V::B(x.to_vec())
}

/// The step must fail and validation must not have run.
pub fn refused(ch: &mut Ch, what: &str, o: &Out, app: &App) {
    ch.check(o.r.is_err(), "accepted-malformed", || format!("{what}: {:?}", o.r));
    ch.check(app.n_val() == 0, "validated-malformed", || {
        format!("{what}: the message was refused, but validation ran: {:?}", app.validations())
    });
}

/// The step must have finished without a message, after exactly one validation of `want`.
pub fn validated(ch: &mut Ch, what: &str, o: &Out, p: &mut Party, app: &App, want: &[(P, V)]) {
    ch.check(o.r == R::FinNo, "not-finished", || format!("{what}: {:?} instead of finished", o.r));
    ch.check(o.bytes.is_empty(), "unexpected-output", || format!("{what}: wrote {:?}", o.text()));
    one_validation(ch, what, app, want);
    if !ch.failed() {
        let v = p.validation();
        ch.check(v.is_some(), "no-value", || format!("{what}: validation set a value, the protocol got none"));
    }
}
pub fn one_validation(ch: &mut Ch, what: &str, app: &App, want: &[(P, V)]) {
    let vs = app.validations();
    ch.check(vs.len() == 1, "validation-count", || format!("{what}: validation ran {} times", vs.len()));
    if let Some(c) = vs.first() {
        ch.obs(c);
        if let Err(e) = ctx_is(c, want) {
            ch.fail("validation-context", format!("{what}: validation saw the wrong values: {e}"));
        }
    }
}

pub fn no_validation(ch: &mut Ch, what: &str, app: &App) {
    ch.check(app.n_val() == 0, "validated", || format!("{what}: validation ran: {:?}", app.validations()));
}

/// A client application that can answer everything.
pub fn rich_client() -> App {
    App {
        authid: Some("user".into()),
        password: Some(b"pencil".to_vec()),
        token: Some("tok".into()),
        anon: Some("trace".into()),
        hostname: Some("h".into()),
        service: Some("imap".into()),
        layers: Some(7),
        handle_xerr: true,
        handle_oerr: true,
        handle_cached: true,
        ..Default::default()
    }
}
/// A server application that knows the user and accepts everyone the mechanism let through.
pub fn rich_server() -> App {
    App {
        hostname: Some("h".into()),
        service: Some("imap".into()),
        layers: Some(7),
        xverdict: Some(Ok(())),
        overdict: Some(Ok(())),
        db: vec![crate::app::User {
            name: "user".into(),
            password: b"pencil".to_vec(),
            salt: b"salt".to_vec(),
            iterations: 1,
        }],
        vmode: crate::app::VMode::Set("ok"),
        ..Default::default()
    }
}
/// Channel binding data both ends agree on
pub fn exporter() -> crate::drive::Cb {
    crate::drive::Cb(vec![("tls-exporter".into(), b"\x01binding".to_vec())])
}

/// Lengths around the sizes buffers have
pub const LENGTHS: [usize; 44] = [
    1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 19, 20, 21, 31, 32, 33, 47, 48, 49, 63, 64, 65, 99, 100, 101, 127, 128, 129, 191, 192, 255, 256, 257, 511, 512, 513, 1023, 1024,
    2049, 4097, 8193, 16385, 65537,
];
/// One of them, or (thorough) every length up to 1100
pub fn length(ch: &mut Ch) -> usize {
    if ch.thorough && ch.flip() {
        return 1 + ch.choose(1100);
    }
    *ch.pick(&LENGTHS)
}
/// Texts a value may not be special for: every ASCII character and representatives of the others in
/// every position, long texts, and texts some format knows.
pub fn text(ch: &mut Ch, allowed: impl Fn(char) -> bool) -> String {
    const OTHER: [char; 34] = [
        '\u{80}', '\u{85}', '\u{a0}', '\u{a1}', '\u{aa}', '\u{ad}', '\u{b5}', '\u{df}', '\u{e9}', '\u{ff}', '\u{130}', '\u{131}', '\u{301}', '\u{345}', '\u{3a3}', '\u{627}',
        '\u{7ff}', '\u{800}', '\u{1e9e}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{202e}', '\u{2126}', '\u{2168}', '\u{3000}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}',
        '\u{10000}', '\u{1f600}', '\u{10ffff}',
    ];
    const WORDS: [&str; 30] = [
        "admin", "root", "anonymous", "Anonymous", "null", "none", "n", "y", "p", "user", "=2C", "=3D", "=00", "%2C", "%00", "%20", "&amp;", "\\n", "\\u0000", "+", "..", "/", "dn:x", "u:x",
        "a@b", "a@b@c", "DOMAIN\\user", "\"quoted\"", "'", "0",
    ];
    match ch.choose(3) {
        0 => {
            let n = ch.choose(128 + OTHER.len());
            let c = if n < 128 { n as u8 as char } else { OTHER[n - 128] };
            let c = if allowed(c) { c } else { 'q' };
            match ch.choose(7) {
                0 => c.to_string(),
                1 => format!("{c}ab"),
                2 => format!("ab{c}"),
                3 => format!("a{c}b"),
                4 => format!("{c}{c}"),
                5 => format!("a{c}{c}b"),
                _ => format!("a{c}b{c}c"),
            }
        }
        1 => {
            let n = length(ch);
            let unit = *ch.pick(&["a", "A1", "\u{e9}", "\u{1f600}"]);
            unit.chars().cycle().take(n).collect()
        }
        _ => ch.pick(&WORDS).chars().filter(|c| allowed(*c)).collect(),
    }
}
/// The same for values of any bytes
pub fn octets(ch: &mut Ch, allowed: impl Fn(u8) -> bool) -> Vec<u8> {
    if ch.flip() {
        return text(ch, |c| !c.is_ascii() || allowed(c as u8)).into_bytes();
    }
    let c = ch.choose(256) as u8;
    let c = if allowed(c) { c } else { b'q' };
    match ch.choose(5) {
        0 => vec![c],
        1 => vec![c, b'a'],
        2 => vec![b'a', c],
        3 => vec![b'a', c, b'a'],
        _ => vec![c; 70],
    }
}
