//! C13, C14: hostile messages and missing input.
use super::{tree, Check};
use crate::app::{App, VMode};
use crate::drive::{Duo, Party, R};
use crate::explore::Ch;
use crate::fakegss;
use crate::kit::{upto, Kit, Walk};
use crate::mechs;
use super::util::LENGTHS;
use crate::refscram::{b64, Hash};

pub fn add(v: &mut Vec<Check>) {
    v.push(Check {
        id: "C13",
        trees: vec![
            tree("bytes", "at every stage of every mechanism and side: every message of up to 3 (thorough 4) bytes over 16 byte classes, then the honest message, nothing, or further garbage", (0, 0), bytes),
            tree("tokens", "at every stage of every mechanism and side: every message of up to 3 (thorough 4) tokens of the mechanism's grammar", (0, 0), tokens),
            tree("mutants", "at every stage of every mechanism and side: every substitution, insertion, deletion, truncation and repetition at every position of the honest message", (0, 0), mutants),
            tree("sequences", "every sequence of up to 3 (thorough 4) garbage messages, starved steps and layer calls, on both sides, for applications that answer everything, nothing or refuse", (0, 0), sequences),
            tree("sizes", "messages of up to 1 MiB: one unit repeated, behind a valid prefix, nested", (0, 0), sizes),
            tree("lengths", "at every stage of every mechanism and side: every field of the honest message at every length up to 70 (thorough 1100) and around the sizes of buffers", (0, 0), lengths),
            tree("base64", "at every stage of every mechanism and side, through step64: every text of up to 3 (thorough 4) characters, every mutation of the honest text", (0, 0), base64),
            tree("finished", "every finished or failed session is stepped again and used for layer data", (0, 0), finished),
            tree("keys", "cached and stored keys of every length up to 70", (0, 0), keys),
        ],
        assumptions: &["iteration counts are bounded: the time a huge iteration count costs is inherent to SCRAM", "allocation of more than 1 GiB or 30 s without progress counts as a hang"],
    });
    v.push(Check {
        id: "C14",
        trees: vec![
            tree("starve", "every exchange of every mechanism, on both sides: at every point that needs a message 0 to 2 (thorough 3) steps without one, plain or base64", (0, 0), starve),
            tree("failing", "the same in exchanges that fail: wrong credential, refused token, failing validation, missing property", (0, 0), starve_failing),
            tree("fresh", "a session of either side of every mechanism that is only ever stepped without input", (0, 0), fresh),
        ],
        assumptions: &["the points that need a message are those where the mechanism defines one: not the first step of the side that goes first, nor the end of an exchange whose last message may be absent"],
    });
}

fn kit(ch: &mut Ch) -> Kit {
    let m = *ch.pick(mechs::all());
    Kit::new(m)
}
/// Some stage of an exchange at which `client` is to receive something.
fn stage(ch: &mut Ch, k: &Kit) -> Option<Walk> {
    let n = ch.choose(7);
    upto(ch, k, n)
}
/// Another session with the same applications still works.
fn isolated(ch: &mut Ch, what: &str, k: &Kit) {
    let k = k.fresh();
    let (c, s) = k.parties();
    let r = Duo { c, s }.run(ch);
    ch.check(r.both_finished() && r.anomaly.is_none() && k.sapp.n_val() == 1, "not-isolated", || {
        format!("{what}: afterwards an honest exchange of other sessions fails: {r:?}")
    });
}
/// The target gets `m`, then something else; nothing may panic or hang.
fn attack(ch: &mut Ch, k: &Kit, mut w: Walk, m: &[u8], follow: usize) {
    let honest = w.input.clone();
    let who = w.target().who();
    let o = w.target().step(ch, Some(m));
    ch.outcome(format!("{} {} {}", k.mech, who, o.r.tag()));
    match follow {
        0 => {}
        1 => {
            // the honest message after all, and the rest of the exchange
            let o = w.target().step(ch, honest.as_deref());
            w.took(&o);
            w.finish(ch);
        }
        2 => {
            w.target().step(ch, None);
            w.target().step(ch, None);
        }
        3 => {
            w.target().step(ch, Some(m));
            w.target().step(ch, Some(b""));
        }
        4 => {
            let p = w.target();
            let mut v = vec![];
            let _ = p.encode(m, &mut v);
            let _ = p.decode(m, &mut v);
            let _ = p.validation();
            p.has_layer();
        }
        _ => isolated(ch, "garbage", k),
    }
}

const CLASSES: [u8; 16] = [0, 1, b',', b'=', b' ', b'"', b'\\', b'{', b'}', b'n', b'r', b'0', b':', 0x80, 0xc3, 0xff];
fn bytes(ch: &mut Ch) {
    let k = kit(ch);
    let Some(w) = stage(ch, &k) else { return };
    let n = ch.choose(if ch.thorough { 5 } else { 4 });
    let m: Vec<u8> = (0..n).map(|_| *ch.pick(&CLASSES)).collect();
    let f = if n < 3 { ch.choose(6) } else { 1 };
    attack(ch, &k, w, &m, f);
}

fn grammar(mech: &str, ch: &mut Ch) -> Vec<Vec<u8>> {
    let t: &[&[u8]] = match mech {
        "PLAIN" => &[b"\0", b"user", b"pencil", b"\xff", "\u{ad}".as_bytes(), "\u{fb01}".as_bytes(), "\u{0}\u{7}".as_bytes(), "\u{627}1".as_bytes(), "\u{e0001}".as_bytes(), b" "],
        "LOGIN" => &[b"user", b"User Name\0", b"Password\0", b"\0", b"\xff", "\u{e9}".as_bytes(), b":", b"pencil"],
        "ANONYMOUS" | "EXTERNAL" => &[b"user", b"\0", b"\xff", b"\xc3", "\u{e9}".as_bytes(), b"@", "\u{10ffff}".as_bytes(), b"\xed\xa0\x80"],
        "XOAUTH2" => &[b"user=", b"u", b"\x01", b"auth=", b"Bearer ", b"tok", b"=", b"{", b"\xff", b"auth=Bearer tok", b"\x01\x01"],
        "OAUTHBEARER" => &[
            b"n,", b"y,", b"p=x,", b"a=u,", b"a=", b",", b"\x01", b"auth=", b"Bearer ", b"tok", b"host=h", b"k", b"=", b"{", b"}", b"\"status\"", b":", b"\"x\"", b"[", b"]", b"null", b"1e999",
            b"\"\\ud800\"", b"\"\\u0000\"", b"{\"status\":\"x\"", b"\xff", b"=2C", b"=2",
        ],
        "GSSAPI" => &[b"GSS1/2:", b"GSS2/2:", b"\xfe\0\0\0", b"alice@REALM", b"W", b"I", b"C", b"A", b"\0", b"\xff"],
        _ => &[
            b"n,", b"y,", b"p=", b"p=tls-exporter,", b"a=", b"a=bob", b",", b"n=", b"n=user", b"r=", b"r=abc", b"m=", b"m=x,", b"s=", b"s=c2FsdA==", b"i=", b"i=1", b"c=", b"c=biws", b"p=AAAA", b"v=",
            b"v=AAAA", b"e=", b"e=other-error", b"x=", b"=2C", b"=3", b"=", b"\xff", b"\0",
        ],
    };
    let _ = ch;
    t.iter().map(|x| x.to_vec()).collect()
}
fn tokens(ch: &mut Ch) {
    let k = kit(ch);
    let Some(w) = stage(ch, &k) else { return };
    let mut g = grammar(k.mech, ch);
    // what the honest peer would send here, and its pieces
    if let Some(h) = &w.input {
        g.push(h.clone());
        for sep in [b',', b'\0', 1] {
            for p in h.split(|b| *b == sep) {
                if p.len() > 2 && !g.iter().any(|x| x == p) && g.len() < 38 {
                    g.push(p.to_vec());
                }
            }
        }
    }
    if k.mech == "GSSAPI" {
        for n in [0usize, 1, 3, 4, 5] {
            for x in [0u8, 1, 2, 4, 7, 8, 0xff] {
                g.push(fakegss::seal(true, false, 0, &vec![x; n]));
                g.push(fakegss::seal(false, false, 0, &vec![x; n]));
            }
        }
    }
    let max = if k.mech == "GSSAPI" {
        2
    } else if ch.thorough {
        4
    } else {
        3
    };
    let n = 1 + ch.choose(max);
    let scram = k.mech.starts_with("SCRAM");
    let mut m = vec![];
    for i in 0..n {
        if i > 0 && scram && ch.flip() {
            m.push(b',');
        }
        let t: &Vec<u8> = ch.pick(&g);
        m.extend_from_slice(t);
    }
    let f = if n < 2 { ch.choose(6) } else { 1 };
    attack(ch, &k, w, &m, f);
}

fn mutate(ch: &mut Ch, h: &[u8], vals: &[u8]) -> Option<Vec<u8>> {
    let mut m = h.to_vec();
    match ch.choose(7) {
        0 => {
            let i = ch.choose(h.len().max(1));
            *m.get_mut(i)? = *ch.pick(vals);
        }
        1 => {
            let i = ch.choose(h.len() + 1);
            m.insert(i, *ch.pick(vals));
        }
        2 => {
            let i = ch.choose(h.len().max(1));
            if i >= m.len() {
                return None;
            }
            m.remove(i);
        }
        3 => m.truncate(ch.choose(h.len() + 1)),
        4 => {
            let i = ch.choose(h.len() + 1);
            m = [&h[i..], &h[..i]].concat();
        }
        5 => {
            let i = ch.choose(h.len() + 1);
            m = [h, &h[i..]].concat();
        }
        _ => {
            // one part removed
            let i = ch.choose(h.len().max(1));
            let n = 2 + ch.choose(6);
            if i + n > h.len() {
                return None;
            }
            m.drain(i..i + n);
        }
    }
    Some(m)
}
fn mutants(ch: &mut Ch) {
    let k = kit(ch);
    let Some(w) = stage(ch, &k) else { return };
    let Some(h) = w.input.clone() else { return };
    let all: Vec<u8> = (0..=255).collect();
    let vals: &[u8] = if ch.thorough { &all } else { &CLASSES };
    let Some(m) = mutate(ch, &h, vals) else { return };
    let f = if ch.flip() { 1 } else { 3 };
    attack(ch, &k, w, &m, f);
}

fn apps(ch: &mut Ch, k: &mut Kit) {
    match ch.choose(4) {
        0 => {}
        1 => {
            // answers nothing
            k.capp = App::default();
            k.sapp = App { vmode: VMode::Nothing, ..Default::default() };
        }
        2 => {
            // refuses everything
            k.sapp.xverdict = Some(Err("{}".into()));
            k.sapp.overdict = Some(Err(("invalid_token".into(), Some("s".into()), None)));
            k.sapp.vmode = VMode::FailBoxed;
            k.capp.handle_xerr = false;
            k.capp.handle_oerr = false;
        }
        _ => {
            // odd values
            k.capp.authid = Some(String::new());
            k.capp.authzid = Some("\0\u{1}\u{1f600}".into());
            k.capp.password = Some(vec![]);
            k.capp.token = Some(String::new());
            k.capp.hostname = Some("\0".into());
            k.capp.layers = Some(0);
            k.sapp.layers = Some(0);
            k.sapp.db.clear();
        }
    }
}
fn sequences(ch: &mut Ch) {
    let mut k = kit(ch);
    apps(ch, &mut k);
    let (mut c, mut s) = k.parties();
    let p: &mut Party = if ch.flip() { &mut c } else { &mut s };
    let n = if ch.thorough { 4 } else { 3 };
    // a first honest message where one exists
    let first: &[u8] = match k.mech {
        "PLAIN" => b"\0user\0pencil",
        "XOAUTH2" => b"user=u\x01auth=Bearer tok\x01\x01",
        "OAUTHBEARER" => b"n,,\x01auth=Bearer tok\x01\x01",
        "GSSAPI" => b"GSS1/2:\xfe\0\0\0alice@REALM",
        _ => b"n,,n=user,r=abc",
    };
    let ms: [&[u8]; 9] = [b"", first, b"r=abcdef,s=c2FsdA==,i=1", b"v=AAAA", b"{\"status\":\"x\"}", b"\xff\xfe", b"c=biws,r=abc,p=AAAA", b"n,", b"e=x"];
    let mut last = None;
    for _ in 0..n {
        match ch.choose(13) {
            0 => last = Some(p.step(ch, None).r),
            x @ 1..=9 => last = Some(p.step(ch, Some(ms[x - 1])).r),
            10 => {
                last = Some(p.step64(ch, Some(b64(first).as_bytes())).r);
            }
            11 => {
                let mut v = vec![];
                let _ = p.encode(b"data", &mut v);
                let _ = p.decode(b"data", &mut v);
            }
            _ => {
                let mut v = vec![];
                let _ = p.raw_step64(None, &mut v);
                let _ = p.validation();
            }
        }
    }
    ch.outcome(last.map_or("", |r| r.tag()));
}

fn sizes(ch: &mut Ch) {
    let k = kit(ch);
    let Some(w) = stage(ch, &k) else { return };
    let u: &[u8] = *ch.pick(&[&b"a"[..], b",", b"=", b"\0", b"\x01", b"[", b"{\"a\":", b"\xff", "\u{e9}".as_bytes(), b"=2C", b"a=b,", b"\\", b"\"", b"k=v\x01", b"9"]);
    let n = *ch.pick(&[255usize, 256, 4096, 65535, 65536, 1 << 18]);
    let pre: Vec<u8> = match ch.choose(4) {
        0 => vec![],
        1 => w.input.clone().unwrap_or_default(),
        2 => match k.mech {
            "PLAIN" => b"\0".to_vec(),
            "XOAUTH2" => b"user=u\x01auth=Bearer ".to_vec(),
            "OAUTHBEARER" => b"n,,\x01auth=Bearer ".to_vec(),
            "GSSAPI" => b"W".to_vec(),
            _ => b"n,,n=user,r=".to_vec(),
        },
        _ => match k.mech {
            "PLAIN" => b"\0user\0".to_vec(),
            "XOAUTH2" => b"user=".to_vec(),
            "OAUTHBEARER" => b"{\"status\":\"".to_vec(),
            "GSSAPI" => b"GSS1/2:".to_vec(),
            _ => b"n,,n=".to_vec(),
        },
    };
    let m = [&pre[..], &u.repeat(n)].concat();
    let f = *ch.pick(&[1, 5]);
    attack(ch, &k, w, &m, f);
}

/// The honest message with one field of another length, and the honest rest of the exchange
fn lengths(ch: &mut Ch) {
    let k = kit(ch);
    let Some(w) = stage(ch, &k) else { return };
    let Some(h) = w.input.clone() else { return };
    let seps: &[u8] = match k.mech {
        "PLAIN" => b"\0",
        "XOAUTH2" | "OAUTHBEARER" => b"\x01,=\"",
        _ => b",",
    };
    // where the fields are, without "r=" and the like
    let mut fields = vec![];
    let mut from = 0;
    for i in 0..=h.len() {
        if i == h.len() || seps.contains(&h[i]) {
            let skip = if k.mech.starts_with("SCRAM") && h.get(from + 1) == Some(&b'=') { 2 } else { 0 };
            fields.push((from + skip.min(i - from), i));
            from = i + 1;
        }
    }
    let (a, b) = *ch.pick(&fields);
    let n = match ch.choose(2) {
        0 => *ch.pick(&LENGTHS),
        _ => ch.choose(if ch.thorough { 1101 } else { 71 }),
    };
    let v = match ch.choose(4) {
        0 => b64(&vec![0xa5; n]).into_bytes(),
        1 => b"A".repeat(n),
        2 => b"1".repeat(n),
        // the field itself, longer
        _ => h[a..b].iter().copied().chain(b"fyko+L2lbbFgONRv9qkxdawL".iter().copied().cycle()).take(n.max(b - a)).collect(),
    };
    // how long PBKDF2 takes is not judged
    if k.mech.starts_with("SCRAM") && h[..a].ends_with(b"i=") && (v.len() > 6 || v.len() == 6 && v[0] > b'1') {
        return;
    }
    let m = [&h[..a], &v, &h[b..]].concat();
    let f = *ch.pick(&[1, 5]);
    attack(ch, &k, w, &m, f);
}

fn base64(ch: &mut Ch) {
    let k = kit(ch);
    let Some(mut w) = stage(ch, &k) else { return };
    let honest = w.input.clone();
    let m: Vec<u8> = if ch.flip() {
        let al = [b'A', b'/', b'=', b'-', b'\n', 0xff, b'B', 0];
        let n = ch.choose(if ch.thorough { 5 } else { 4 });
        (0..n).map(|_| *ch.pick(&al)).collect()
    } else {
        let Some(h) = &honest else { return };
        let t = b64(h).into_bytes();
        match mutate(ch, &t, b"A/=\n\0\xff") {
            Some(m) => m,
            None => return,
        }
    };
    let o = w.target().step64(ch, Some(&m));
    ch.outcome(o.r.tag());
    if let Some(h) = honest {
        w.target().step64(ch, Some(b64(&h).as_bytes()));
    }
}

fn finished(ch: &mut Ch) {
    let mut k = kit(ch);
    apps(ch, &mut k);
    let mut w = Walk::new(&k);
    w.finish(ch);
    let ms: [Option<&[u8]>; 6] = [None, Some(b""), Some(b"x"), Some(b"v=AAAA"), Some(b"n,,n=user,r=abc"), Some(b"\xff")];
    let p: &mut Party = if ch.flip() { &mut w.c } else { &mut w.s };
    for _ in 0..3 {
        match ch.choose(9) {
            x @ 0..=5 => {
                p.step(ch, ms[x]);
            }
            6 => {
                p.step64(ch, Some(b"eA=="));
            }
            7 => {
                let mut v = vec![];
                let _ = p.encode(b"x", &mut v);
                let _ = p.decode(b"W", &mut v);
                let _ = p.decode(&v.clone(), &mut v);
            }
            _ => {
                let _ = p.validation();
                p.has_layer();
            }
        }
    }
    ch.outcome(format!("{:?} {:?}", w.cr.as_ref().map(R::tag), w.sr.as_ref().map(R::tag)));
}

fn keys(ch: &mut Ch) {
    let h = *ch.pick(&Hash::ALL);
    let mut k = Kit::new(h.bare());
    let a = ch.choose(71);
    let b = *ch.pick(&[0, 1, 19, 20, 21, 32, 33, 64, 70]);
    let (x, y) = if ch.flip() { (a, b) } else { (b, a) };
    if ch.flip() {
        k.capp.cached = Some((vec![7; x], vec![8; y]));
    } else {
        let mut s = h.store(b"pencil", b"salt", 1);
        s.stored_key = vec![7; x];
        s.server_key = vec![8; y];
        k.sapp.stored = vec![("user".into(), h, s)];
    }
    let (c, s) = k.parties();
    let r = Duo { c, s }.run(ch);
    ch.outcome(format!("{:?} {:?}", r.cr.as_ref().map(R::tag), r.sr.as_ref().map(R::tag)));
    k.capp.cached = None;
    k.sapp.stored.clear();
    isolated(ch, "keys of a wrong length", &k);
}

// --------------------------------------------------------------------------------------- C14

/// Must a step of this party fail without a message now?  `n`: how many steps it has taken.
fn needs(mech: &str, client: bool, n: usize, w: &Walk) -> bool {
    match (mech, client) {
        // the client's only or first step takes no message
        (_, true) if n == 0 => false,
        // the last message may be absent, or the client is finished anyway
        ("PLAIN" | "ANONYMOUS" | "EXTERNAL" | "XOAUTH2" | "OAUTHBEARER" | "LOGIN", true) => false,
        (_, true) => true,
        ("ANONYMOUS" | "EXTERNAL", false) => false,
        ("LOGIN", false) => n > 0,
        ("XOAUTH2" | "OAUTHBEARER", false) => n == 0,
        // after its last context token the server can go on without input
        ("GSSAPI", false) => n == 0 || w.input.as_ref().is_some_and(|i| !i.is_empty()),
        (_, false) => true,
    }
}
fn exchange(ch: &mut Ch, k: &Kit, starving: bool) -> (Vec<String>, Walk) {
    let mut w = Walk::new(k);
    let mut n = [0usize; 2];
    let mut log = vec![];
    while !w.over {
        let client = w.turn;
        let i = usize::from(client);
        if starving && needs(k.mech, client, n[i], &w) {
            let times = ch.choose(if ch.thorough { 4 } else { 3 });
            for t in 0..times {
                let val = (k.capp.n_val(), k.sapp.n_val());
                let b = if t == 0 { ch.flip() } else { t == 1 };
                let p = w.target();
                let o = if b { p.step64(ch, None) } else { p.step(ch, None) };
                let what = format!("{} {}, step {} without its message", k.mech, p.who(), n[i]);
                ch.check(o.r.is("InputDataRequired"), "not-refused", || format!("{what}: {:?}", o.r));
                ch.check(o.bytes.is_empty(), "wrote", || format!("{what}: wrote {:?}", o.text()));
                ch.check((k.capp.n_val(), k.sapp.n_val()) == val, "validated", || format!("{what}: validation ran"));
                let v = w.target().validation();
                ch.check(v.is_none(), "value", || format!("{what}: there is a validation value"));
                ch.check(!w.target().has_layer(), "layer", || format!("{what}: a security layer is reported"));
                if ch.failed() {
                    return (log, w);
                }
            }
        }
        let o = w.advance(ch);
        n[i] += 1;
        let m = crate::drive::shape(k.mech, &o.bytes);
        log.push(format!("{} {:?} {}", if client { "C" } else { "S" }, o.r, String::from_utf8_lossy(&m)));
    }
    (log, w)
}
fn compare(ch: &mut Ch, k: &Kit) {
    let k0 = k.fresh();
    let (want, mut w0) = exchange(ch, &k0, false);
    let v0 = w0.s.validation();
    let k1 = k.fresh();
    let (got, mut w) = exchange(ch, &k1, true);
    if ch.failed() {
        return;
    }
    let what = k.mech;
    ch.check(got == want, "disturbed", || format!("{what}: with starved steps the exchange is {got:?} instead of {want:?}"));
    ch.check(w.s.validation() == v0, "value", || format!("{what}: the validation value differs"));
    ch.check(k1.sapp.n_val() == k0.sapp.n_val(), "validations", || format!("{what}: validation ran {} times instead of {}", k1.sapp.n_val(), k0.sapp.n_val()));
    ch.check(k1.sapp.validations() == k0.sapp.validations(), "validated", || {
        format!("{what}: validation saw {:?} instead of {:?}", k1.sapp.validations(), k0.sapp.validations())
    });
    ch.check(
        k1.sapp.requests() == k0.sapp.requests() && k1.capp.requests() == k0.capp.requests(),
        "requests",
        || format!("{what}: the applications were asked {:?} / {:?} instead of {:?} / {:?}", k1.capp.requests(), k1.sapp.requests(), k0.capp.requests(), k0.sapp.requests()),
    );
    ch.check(w.c.has_layer() == w0.c.has_layer() && w.s.has_layer() == w0.s.has_layer(), "layer", || format!("{what}: the security layer differs"));
    ch.outcome(format!("{:?} {:?}", w.cr, w.sr));
}
fn starve(ch: &mut Ch) {
    let mut k = kit(ch);
    if k.mech == "GSSAPI" {
        k.gss.rounds = 1 + ch.choose(if ch.thorough { 5 } else { 4 }) as u32;
    }
    compare(ch, &k);
}
fn starve_failing(ch: &mut Ch) {
    let mut k = kit(ch);
    match ch.choose(8) {
        0 => k.capp.password = Some(b"wrong".to_vec()),
        1 => k.sapp.xverdict = Some(Err("no".into())),
        2 => k.sapp.overdict = Some(Err(("no".into(), None, None))),
        3 => k.sapp.vmode = VMode::FailBoxed,
        4 => k.sapp.db.clear(),
        5 => {
            k.capp.handle_oerr = false;
            k.capp.handle_xerr = false;
            k.sapp.xverdict = Some(Err("no".into()));
            k.sapp.overdict = Some(Err(("no".into(), None, None)));
        }
        6 => k.capp.password = None,
        _ => k.gss.refuse_at = Some(3),
    }
    if k.mech == "GSSAPI" {
        k.gss.rounds = 3;
    }
    compare(ch, &k);
}
fn fresh(ch: &mut Ch) {
    let k = kit(ch);
    let client = ch.flip();
    let n = 1 + ch.choose(4);
    let (mut c, mut s) = k.parties();
    let p = if client { &mut c } else { &mut s };
    for i in 0..n {
        let o = if ch.flip() { p.step(ch, None) } else { p.step64(ch, None) };
        let w = Walk::new(&k);
        let nothing_yet = if p.first() { i } else { 0 };
        if needs(k.mech, client, nothing_yet, &w) {
            let what = format!("{} {} step {i} without input", k.mech, p.who());
            ch.check(o.r.is("InputDataRequired") && o.bytes.is_empty(), "not-refused", || format!("{what}: {:?} {:?}", o.r, o.text()));
            ch.check(k.sapp.n_val() == 0, "validated", || format!("{what}: validation ran"));
        } else {
            ch.outcome(o.r.tag());
            if o.r.is_err() || o.r.fin() {
                return;
            }
        }
    }
}
