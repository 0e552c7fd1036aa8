//! C01 - C04: SCRAM against reference peers and against an active network.
use super::util::*;
use super::{tree, Check};
use crate::explore::Lib;
use crate::app::{App, User, VMode, P, V};
use crate::drive::{no_cb, show, Cb, Duo, Out, Party, R};
use crate::explore::Ch;
use crate::refscram::{self as rs, b64, unb64, Hash, Stored};

pub fn add(v: &mut Vec<Check>) {
    v.push(Check {
        id: "C01",
        trees: vec![
            tree("unknown", "unknown users x secrets that need no knowledge (empty, the name, a keyword, known users' secrets) with the announced salt and count", (0, 0), s_unknown),
            tree("clients", "claimed users x credentials used for the proof x messages the proof covers x ways to present it, per hash", (0, 0), s_clients),
            tree("names", "every escaped or malformed user name and authorization identity of up to 3 (thorough 4) tokens, with decoy users", (0, 0), s_names),
            tree("final-bytes", "every substitution, insertion and deletion of a byte of a correct final message", (0, 0), s_final_bytes),
            tree("first-bytes", "every substitution of a byte of the first message under a proof for the original", (0, 0), s_first_bytes),
            tree("replay", "two interleaved sessions with messages replayed and exchanged between them", (0, 0), s_replay),
            tree("sequences", "every sequence of up to 4 (thorough 5) client messages", (0, 0), s_sequences),
            tree("ground", "proofs that begin or end in 1 (thorough 2) zero bytes (the client searches an extension that makes it so), presented without them", (0, 0), s_ground),
            tree("stored", "stored credentials of every wrong length and degenerate content", (0, 0), s_stored),
        ],
        assumptions: &["hash functions are collision free on the explored inputs", "extensions unknown to the library are judged only if they are mandatory"],
    });
    v.push(Check {
        id: "C02",
        trees: vec![
            tree("server-first", "every server-first message assembled from correct and incorrect parts, per hash and form of credential", (0, 0), c_first),
            tree("server-final", "every server-final message derived from the correct signature or another key or message", (0, 0), c_final),
            tree("ground", "signatures that begin or end in 1 (thorough 2) zero bytes (the server searches a nonce that makes it so), presented without them", (0, 0), c_ground),
            tree("keys", "credentials and keys of unusual content (zero, equal, empty) against every pairing of correct and incorrect final message", (0, 0), c_keys),
            tree("final-bytes", "every substitution, insertion and deletion of a byte of a correct final message", (0, 0), c_final_bytes),
            tree("first-bytes", "every substitution of a byte of the server-first message with a final message for the original or the altered one", (0, 0), c_first_bytes),
            tree("sequences", "every sequence of up to 4 (thorough 5) server messages", (0, 0), c_sequences),
        ],
        assumptions: &["hash functions are collision free on the explored inputs", "leniency about the spelling of a non-zero iteration count (sign, leading zeros) and optional trailing extensions is not judged"],
    });
    v.push(Check {
        id: "C03",
        trees: vec![
            tree("pair", "user names, authorization identities, passwords, salts, iteration counts, credential forms, hashes and channel binding, both ends real, every message compared with the reference", (0, 0), h_pair),
            tree("sizes", "every password and salt length around the block sizes, every name length around buffer sizes", (0, 0), h_sizes),
            tree("values", "every ASCII character and representatives of the others in every position, long values, known words, in one of user name, authorization identity and password", (0, 0), h_values),
            tree("unsendable", "names that have no form in RFC 5802 (empty, with a zero byte) are refused before anything is sent", (0, 0), h_unsendable),
            tree("client", "real client with a reference server: every server nonce length up to 64 and every printable character, iteration counts", (0, 0), h_client),
            tree("server", "real server with a reference client: every client nonce length up to 64 and every printable character", (0, 0), h_server),
            tree("counts", "iteration counts over the whole range, without and (moderate ones) with the key derivation", (0, 0), h_counts),
            tree("tools", "the public key derivation functions against the reference", (0, 0), h_tools),
        ],
        assumptions: &["user names and passwords are already in SASLprep form"],
    });
    v.push(Check {
        id: "C04",
        trees: vec![
            tree("bytes", "every substitution, insertion, deletion and truncation at every position of every message", (0, 0), n_bytes),
            tree("fields", "one (thorough two) semantic alterations of the messages: fields replaced, removed, repeated, exchanged, extensions added, messages dropped, repeated or replaced by earlier ones", (1, 2), n_fields),
            tree("cross", "two exchanges at once, every routing of the messages between the four ends", (0, 0), n_cross),
        ],
        assumptions: &["hash functions are collision free on the explored inputs"],
    });
}

pub fn user(name: &str, pw: &[u8], salt: &[u8], it: u32) -> User {
    User { name: name.into(), password: pw.to_vec(), salt: salt.to_vec(), iterations: it }
}
fn hash(ch: &mut Ch) -> Hash {
    *ch.pick(&Hash::ALL)
}

/// One exchange as the reference sees it
#[derive(Clone, Debug)]
pub struct Ref {
    pub h: Hash,
    pub gs2: String,
    pub cb: Vec<u8>,
    pub bare: String,
    pub sf: String,
}
impl Ref {
    pub fn new(h: Hash, flag: &str, authzid: Option<&str>, cb: &[u8], user: &str, nonce: &str) -> Ref {
        Ref { h, gs2: rs::gs2(flag, authzid), cb: cb.to_vec(), bare: rs::client_first_bare(user, nonce), sf: String::new() }
    }
    pub fn first(&self) -> String {
        format!("{}{}", self.gs2, self.bare)
    }
    pub fn nonce(&self) -> &str {
        rs::field(&self.sf, "r=").unwrap_or("")
    }
    pub fn salt(&self) -> Vec<u8> {
        unb64(rs::field(&self.sf, "s=").unwrap_or("").as_bytes()).unwrap_or_default()
    }
    pub fn iterations(&self) -> u32 {
        rs::field(&self.sf, "i=").and_then(|i| i.parse().ok()).unwrap_or(1)
    }
    pub fn final_bare(&self) -> String {
        rs::client_final_bare(&self.gs2, &self.cb, self.nonce())
    }
    pub fn auth(&self) -> String {
        rs::auth_message(&self.bare, &self.sf, &self.final_bare())
    }
    pub fn salted(&self, pw: &[u8]) -> Vec<u8> {
        self.h.hi(pw, &self.salt(), self.iterations())
    }
    pub fn proof(&self, pw: &[u8]) -> Vec<u8> {
        self.h.proof(&self.h.client_key(&self.salted(pw)), self.auth().as_bytes())
    }
    pub fn fin(&self, pw: &[u8]) -> String {
        format!("{},p={}", self.final_bare(), b64(&self.proof(pw)))
    }
    pub fn verifier(&self, pw: &[u8]) -> String {
        format!("v={}", b64(&self.h.server_sig(&self.h.server_key(&self.salted(pw)), self.auth().as_bytes())))
    }
}
pub const CN: &str = "clientNONCE0123456789xyz";

/// A server-error message: `e=` and a value that is not empty
pub fn error_message(m: &[u8]) -> bool {
    m.strip_prefix(b"e=").is_some_and(|v| !v.is_empty() && v[0] != b',' && std::str::from_utf8(v).is_ok_and(|v| !v.contains(['\0', '='])))
}
/// The outcome of a final message at the server.  `good`: the expected server-final message.
fn judge(ch: &mut Ch, what: &str, o: &Out, s: &mut Party, app: &App, good: Option<(String, Vec<(P, V)>)>) {
    match good {
        Some((v, ctx)) => {
            ch.check(o.r == R::FinYes && o.text() == v, "honest-refused", || {
                format!("{what}: a correct client gets {:?} {:?}, expected {v:?}", o.r, o.text())
            });
            one_validation(ch, what, app, &ctx);
            if !ch.failed() {
                let val = s.validation();
                ch.check(val.is_some(), "no-value", || format!("{what}: no validation value reached the protocol"));
            }
            ch.outcome("validated");
        }
        None => {
            ch.check(app.n_val() == 0, "validated", || format!("{what}: validation ran: {:?}", app.validations()));
            ch.check(s.validation().is_none(), "value", || format!("{what}: a validation value reached the protocol"));
            ch.check(o.r.is_err() || error_message(&o.bytes), "accepted", || {
                format!("{what}: {:?} {:?} instead of an error", o.r, o.text())
            });
            ch.outcome(if o.r.is_err() { "error".to_string() } else { o.text() });
        }
    }
}
fn accept(db: Vec<User>) -> App {
    App { db, vmode: VMode::Set("ok"), ..Default::default() }
}
fn ctx_of(user: &str, authzid: Option<&str>) -> Vec<(P, V)> {
    let mut v = vec![(P::AuthId, s(user))];
    if let Some(z) = authzid {
        v.push((P::AuthzId, s(z)));
    }
    v
}

// --------------------------------------------------------------------------------------- C01

/// A client of an unknown user that follows the announced parameters to the letter
fn s_unknown(ch: &mut Ch) {
    let h = hash(ch);
    let empty = ch.flip();
    let app = accept(if empty { vec![] } else { vec![user("alice", b"pa", b"salt", 1), user("bob", b"", b"salt", 1)] });
    let claimed = *ch.pick(&["mallory", "alic", "Alice"]);
    let mut sv = Party::server(&app, h.bare(), no_cb());
    let mut r = Ref::new(h, "n", None, b"", claimed, CN);
    let o = sv.step(ch, Some(r.first().as_bytes()));
    if o.r != R::Running {
        ch.check(o.r.is_err() || error_message(&o.bytes), "unknown-first", || format!("{claimed}: {:?} {:?}", o.r, o.text()));
        ch.outcome("refused at once");
        return;
    }
    r.sf = o.text();
    let secrets = ["", claimed, "pa", "password", "\0", "unknown-user"];
    let k = ch.choose(secrets.len() + 3);
    let zero = vec![0; h.len()];
    let (name, key) = match secrets.get(k) {
        Some(pw) => (format!("password {pw:?}"), h.client_key(&r.salted(pw.as_bytes()))),
        None => match k - secrets.len() {
            0 => ("zero salted password".into(), h.client_key(&zero)),
            1 => ("empty salted password".into(), h.client_key(b"")),
            _ => ("zero key".into(), zero),
        },
    };
    let what = format!("{} unknown user {claimed}, {name}", h.bare());
    let msg = format!("{},p={}", r.final_bare(), b64(&h.proof(&key, r.auth().as_bytes())));
    let o = sv.step(ch, Some(msg.as_bytes()));
    judge(ch, &what, &o, &mut sv, &app, None);
}
fn s_clients(ch: &mut Ch) {
    let h = hash(ch);
    let app = accept(vec![user("alice", b"pa", b"salt", 1), user("bob", b"pb", b"salt", 1), user("carol", b"pa", b"salt", 2)]);
    let claimed = *ch.pick(&["alice", "bob", "carol", "mallory"]);
    let authzid = *ch.pick(&[None, Some("alice"), Some("bob")]);
    let mut sv = Party::server(&app, h.bare(), no_cb());
    let mut r = Ref::new(h, "n", authzid, b"", claimed, CN);
    let o = sv.step(ch, Some(r.first().as_bytes()));
    if o.r != R::Running {
        ch.fail("first-refused", format!("the server answers {:?} to {}", o.r, r.first()));
        return;
    }
    r.sf = o.text();
    let known = claimed != "mallory";
    // do not compute thousands of iterations for the unknown user
    let it = if known { r.iterations() } else { 1 };
    let right_pw: &[u8] = if claimed == "bob" { b"pb" } else { b"pa" };
    // the key used for the proof
    let (kname, key): (&str, Vec<u8>) = match ch.choose(12) {
        0 => ("own", h.client_key(&h.hi(right_pw, &r.salt(), it))),
        1 => ("alice's", h.client_key(&h.hi(b"pa", b"salt", 1))),
        2 => ("bob's", h.client_key(&h.hi(b"pb", b"salt", 1))),
        3 => ("carol's", h.client_key(&h.hi(b"pa", b"salt", 2))),
        4 => ("wrong password", h.client_key(&h.hi(b"px", &r.salt(), it))),
        5 => ("empty password", h.client_key(&h.hi(b"", &r.salt(), it))),
        6 => ("the stored key", h.h(&h.client_key(&h.hi(right_pw, b"salt", it)))),
        7 => ("the server key", h.server_key(&h.hi(right_pw, b"salt", it))),
        8 => ("the salted password", h.hi(right_pw, b"salt", it)),
        9 => ("other salt", h.client_key(&h.hi(right_pw, b"pepper", it))),
        10 => {
            let g = if h == Hash::Sha1 { Hash::Sha256 } else { Hash::Sha1 };
            ("other hash", g.client_key(&g.hi(right_pw, b"salt", it)))
        }
        _ => ("zeros", vec![0; h.len()]),
    };
    let own = h.client_key(&h.hi(right_pw, b"salt", it));
    let n = r.nonce().to_string();
    let fb = r.final_bare();
    // the message the proof covers
    let (aname, am) = match ch.choose(11) {
        0 => ("exact", r.auth()),
        1 => ("other user", rs::auth_message(&rs::client_first_bare(if claimed == "bob" { "alice" } else { "bob" }, CN), &r.sf, &fb)),
        2 => ("other client nonce", rs::auth_message(&rs::client_first_bare(claimed, "x"), &r.sf, &fb)),
        3 => ("other server nonce", rs::auth_message(&r.bare, &r.sf.replace(&n, CN), &fb)),
        4 => ("other salt", rs::auth_message(&r.bare, &rs::server_first(&n, b"other", it), &fb)),
        5 => ("other count", rs::auth_message(&r.bare, &rs::server_first(&n, &r.salt(), it + 1), &fb)),
        6 => ("other binding", rs::auth_message(&r.bare, &r.sf, &rs::client_final_bare("y,,", b"", &n))),
        7 => ("without first", format!("{},{fb}", r.sf)),
        8 => ("with header", rs::auth_message(&r.first(), &r.sf, &fb)),
        9 => ("without final", format!("{},{}", r.bare, r.sf)),
        _ => ("nothing", String::new()),
    };
    let sig = h.hmac(&h.h(&key), am.as_bytes());
    let proof = rs::xor(&key, &sig);
    let p64 = b64(&proof);
    let pres = ch.choose(34);
    let (pname, msg): (String, String) = match pres {
        0 => ("as is".into(), format!("{fb},p={p64}")),
        1 => {
            let k = ch.choose(proof.len());
            (format!("proof cut to {k} bytes"), format!("{fb},p={}", b64(&proof[..k])))
        }
        2 => {
            let k = ch.choose(3) + 1;
            (format!("proof with {k} more bytes"), format!("{fb},p={}", b64(&[&proof[..], &[0, 0, 0][..k]].concat())))
        }
        3 => {
            let k = ch.choose(proof.len() * if ch.thorough { 8 } else { 1 });
            let mut q = proof.clone();
            if ch.thorough {
                q[k / 8] ^= 1 << (k % 8);
            } else {
                q[k] ^= 1 << (k % 8);
            }
            (format!("bit {k} of the proof flipped"), format!("{fb},p={}", b64(&q)))
        }
        4 => ("zero proof".into(), format!("{fb},p={}", b64(&vec![0; h.len()]))),
        5 => ("signature as proof".into(), format!("{fb},p={}", b64(&sig))),
        6 => ("key as proof".into(), format!("{fb},p={}", b64(&key))),
        7 => ("empty proof".into(), format!("{fb},p=")),
        8 => ("no proof".into(), fb.clone()),
        9 => ("proof first".into(), format!("p={p64},{fb}")),
        10 => ("unpadded".into(), format!("{fb},p={}", p64.trim_end_matches('='))),
        11 => ("not base64".into(), format!("{fb},p=*{}", &p64[1..])),
        12 => ("twice".into(), format!("{fb},p={p64},p={p64}")),
        13 => ("mandatory extension".into(), format!("{fb},m=x,p={p64}")),
        14 => ("trailing extension".into(), format!("{fb},p={p64},x=y")),
        15 => ("hex".into(), format!("{fb},p={}", proof.iter().map(|b| format!("{b:02x}")).collect::<String>())),
        _ => {
            // altered nonce or binding, with the proof for the unaltered or for the altered message
            let c = b64(r.gs2.as_bytes());
            let sn = &n[CN.len()..];
            let alt = match pres {
                16 => format!("c={c},r={CN}"),
                17 => format!("c={c},r={sn}"),
                18 => format!("c={c},r={sn}{CN}"),
                19 => format!("c={c},r={}", &n[..n.len() - 1]),
                20 => format!("c={c},r={n}x"),
                21 => format!("c={c},r="),
                22 => format!("c={c},r={CN}{}", "A".repeat(sn.len())),
                23 => format!("c={c},r=x{}", &n[1..]),
                24 => format!("c={},r={n}", b64(b"y,,")),
                25 => format!("c=,r={n}"),
                26 => format!("c={},r={n}", b64(&[r.gs2.as_bytes(), b"data"].concat())),
                27 => format!("c={},r={n}", b64(rs::gs2("n", if authzid.is_none() { Some("alice") } else { None }).as_bytes())),
                28 => format!("r={n},c={c}"),
                29 => format!("r={n}"),
                // extensions that must be understood, covered by the proof or not
                30 => format!("c={c},r={n},m=x"),
                31 => format!("c={c},r={n},a=b,m=x"),
                32 => format!("c={c},r={n},m=,a=b"),
                _ => format!("c={c}"),
            };
            let consistent = ch.flip();
            let q = if consistent {
                rs::xor(&key, &h.hmac(&h.h(&key), rs::auth_message(&r.bare, &r.sf, &alt).as_bytes()))
            } else {
                proof.clone()
            };
            (format!("{alt} instead of {fb}, consistent {consistent}"), format!("{alt},p={}", b64(&q)))
        }
    };
    let good = known && key == own && aname == "exact" && pres == 0;
    // an xor collision that yields the same message is the same behaviour
    let good = good || (known && msg == format!("{fb},p={}", b64(&h.proof(&own, r.auth().as_bytes()))));
    let what = format!("{} user {claimed}, key {kname}, signed {aname}, {pname}", h.bare());
    let v = format!("v={}", b64(&h.server_sig(&h.server_key(&h.hi(right_pw, b"salt", it)), r.auth().as_bytes())));
    let o = sv.step(ch, Some(msg.as_bytes()));
    judge(ch, &what, &o, &mut sv, &app, good.then(|| (v, ctx_of(claimed, authzid))));
    // a second attempt in the same session, with the right proof, must not validate (again)
    if !ch.failed() && pres < 9 {
        let before = app.n_val();
        let _ = sv.step(ch, Some(format!("{fb},p={}", b64(&h.proof(&own, r.auth().as_bytes()))).as_bytes()));
        ch.check(app.n_val() == before, "second-attempt", || format!("{what}: a second final message in the same session was validated"));
    }
}

const NT: &[&str] = &["a", "B", "=2C", "=3D", "\u{e9}", "=", "=2c", "=4", " ", "\0", "=2", ","];
fn unescape(s: &str) -> Option<String> {
    if s.is_empty() || s.contains(['\0', ',']) {
        return None;
    }
    let mut o = String::new();
    let mut i = s;
    while let Some(k) = i.find('=') {
        o.push_str(&i[..k]);
        o.push(match i.get(k + 1..k + 3) {
            Some("2C") => ',',
            Some("3D") => '=',
            _ => return None,
        });
        i = &i[k + 3..];
    }
    o.push_str(i);
    Some(o)
}
fn s_names(ch: &mut Ch) {
    let max = if ch.thorough { 4 } else { 3 };
    let raw = stoks(ch, NT, max);
    let zraw: Option<String> = match ch.choose(if raw.len() > 6 { 3 } else { 9 }) {
        0 => None,
        1 => Some("z".into()),
        2 => Some("=2C=3D".into()),
        3 => Some("z=".into()),
        4 => Some("=2c".into()),
        5 => Some("a=3Db".into()),
        6 => Some("\u{e9}".into()),
        7 => Some(raw.clone()),
        _ => Some("a\0".into()),
    };
    let h = Hash::Sha256;
    let name = unescape(&raw);
    let z = zraw.as_deref().map(unescape);
    // decoys: the name as it is written, the name escaped again, and prefixes
    let mut db = vec![];
    if let Some(n) = &name {
        db.push(user(n, b"own", b"salt", 1));
    }
    for d in [raw.clone(), rs::escape(&raw), raw.replace("=2C", ",").replace("=3D", "="), raw.to_lowercase(), "a".into(), "B".into()] {
        if Some(&d) != name.as_ref() && !db.iter().any(|u: &User| u.name == d) {
            db.push(user(&d, b"decoy", b"salt", 1));
        }
    }
    let app = accept(db);
    let mut sv = Party::server(&app, h.bare(), no_cb());
    let mut r = Ref::new(h, "n", None, b"", "", CN);
    r.gs2 = match &zraw {
        Some(z) => format!("n,a={z},"),
        None => "n,,".into(),
    };
    r.bare = format!("n={raw},r={CN}");
    let o = sv.step(ch, Some(r.first().as_bytes()));
    no_validation(ch, "first message", &app);
    let what = format!("n={raw:?}, a={zraw:?}");
    let well = name.is_some() && z.as_ref().map_or(true, Option::is_some);
    if !well {
        ch.outcome(if o.r.is_err() { "refused first" } else { "answered first" });
        if o.r.is_err() {
            return;
        }
    }
    if o.r != R::Running {
        ch.fail("first-refused", format!("{what}: the server refuses a well-formed name: {:?}", o.r));
        return;
    }
    r.sf = o.text();
    if r.iterations() > 1 {
        // treated as unknown
        if well {
            ch.fail("unknown", format!("{what}: the server does not find the user {name:?}"));
        }
        return;
    }
    let decoy = ch.flip();
    let pw: &[u8] = if decoy { b"decoy" } else { b"own" };
    let m = r.fin(pw);
    let o = sv.step(ch, Some(m.as_bytes()));
    let good = (well && !decoy).then(|| (r.verifier(b"own"), ctx_of(name.as_deref().unwrap_or(""), z.as_ref().and_then(|z| z.as_deref()))));
    judge(ch, &what, &o, &mut sv, &app, good);
}

/// An altered version of `m`: substitution, insertion, deletion or truncation at every position
fn alter(ch: &mut Ch, m: &[u8], all: bool) -> Option<Vec<u8>> {
    const SOME: [u8; 12] = [0, b',', b'=', b'A', b'0', b'1', b'n', b'y', b'p', b'~', 0xff, b' '];
    let mut o = m.to_vec();
    match ch.choose(4) {
        0 => {
            let i = ch.choose(m.len());
            if all {
                let v = ch.choose(256) as u8;
                o[i] = v;
            } else {
                match ch.choose(SOME.len() + 8) {
                    k if k < SOME.len() => o[i] = SOME[k],
                    k => o[i] ^= 1 << (k - SOME.len()),
                }
            }
        }
        1 => {
            let i = ch.choose(m.len() + 1);
            let v = if all { ch.choose(256) as u8 } else { *ch.pick(&SOME) };
            o.insert(i, v);
        }
        2 => {
            let i = ch.choose(m.len());
            o.remove(i);
        }
        _ => {
            let i = ch.choose(m.len());
            o.truncate(i);
        }
    }
    (o != m).then_some(o)
}

fn alice() -> App {
    accept(vec![user("alice", b"pa", b"salt", 1), user("bob", b"pb", b"salt", 1)])
}
fn s_final_bytes(ch: &mut Ch) {
    let h = hash(ch);
    let z = *ch.pick(&[None, Some("bob")]);
    let app = alice();
    let mut sv = Party::server(&app, h.bare(), no_cb());
    let mut r = Ref::new(h, "n", z, b"", "alice", CN);
    r.sf = sv.step(ch, Some(r.first().as_bytes())).text();
    let m = r.fin(b"pa");
    let all = ch.thorough || (h == Hash::Sha1 && z.is_none());
    let Some(x) = alter(ch, m.as_bytes(), all) else { return };
    let o = sv.step(ch, Some(&x));
    judge(ch, &format!("{} altered to {}", m, show(&x)), &o, &mut sv, &app, None);
}
fn s_first_bytes(ch: &mut Ch) {
    let h = Hash::Sha256;
    let z = *ch.pick(&[None, Some("bob")]);
    let app = accept(vec![user("alice", b"pa", b"salt", 1), user("blice", b"pa", b"salt", 1), user("alic", b"pa", b"salt", 1)]);
    let mut sv = Party::server(&app, h.bare(), no_cb());
    let mut r = Ref::new(h, "n", z, b"", "alice", CN);
    let m = r.first();
    let Some(x) = alter(ch, m.as_bytes(), ch.thorough) else { return };
    let o = sv.step(ch, Some(&x));
    no_validation(ch, "first message", &app);
    if o.r.is_err() {
        ch.outcome("refused first");
        return;
    }
    // the client believes it sent the original
    r.sf = o.text();
    if r.iterations() > 1 {
        ch.outcome("unknown user");
        return;
    }
    let f = r.fin(b"pa");
    let o = sv.step(ch, Some(f.as_bytes()));
    judge(ch, &format!("first message {} altered to {}", m, show(&x)), &o, &mut sv, &app, None);
}

fn s_replay(ch: &mut Ch) {
    let h = hash(ch);
    let db = vec![user("alice", b"pa", b"salt", 1), user("bob", b"pb", b"salt", 1)];
    // one shared or two separate server configurations
    let (a1, a2) = (accept(db.clone()), accept(db));
    let same = ch.flip();
    let u2 = *ch.pick(&["alice", "bob"]);
    let n2 = if same { CN } else { "secondCLIENTnonce0123456" };
    let pw2: &[u8] = if u2 == "bob" { b"pb" } else { b"pa" };
    let mut s1 = Party::server(&a1, h.bare(), no_cb());
    let mut s2 = Party::server(&a2, h.bare(), no_cb());
    let mut r1 = Ref::new(h, "n", None, b"", "alice", CN);
    let mut r2 = Ref::new(h, "n", None, b"", u2, n2);
    r1.sf = s1.step(ch, Some(r1.first().as_bytes())).text();
    r2.sf = s2.step(ch, Some(r2.first().as_bytes())).text();
    let f1 = r1.fin(b"pa");
    let f2 = r2.fin(pw2);
    // session 1 completes before or not at all
    if ch.flip() {
        let o = s1.step(ch, Some(f1.as_bytes()));
        judge(ch, "session 1", &o, &mut s1, &a1, Some((r1.verifier(b"pa"), ctx_of("alice", None))));
    }
    let p1 = f1.rsplit_once(",p=").lib("a final message of the client without proof").1.to_string();
    let mut hybrid = r2.clone();
    let x: String = match ch.choose(8) {
        0 => f1.clone(),
        1 => format!("{},p={p1}", r2.final_bare()),
        2 => f1.replace(r1.nonce(), r2.nonce()),
        3 => {
            hybrid.bare = r1.bare.clone();
            hybrid.fin(b"pa")
        }
        4 => {
            hybrid.sf = r1.sf.clone();
            format!("{},p={}", r2.final_bare(), b64(&hybrid.proof(pw2)))
        }
        5 => {
            hybrid.sf = r1.sf.clone();
            hybrid.fin(pw2)
        }
        6 => r1.first(),
        _ => r1.verifier(b"pa"),
    };
    if x == f2 {
        // same user and same client nonce: the hybrid is the honest message
        return;
    }
    let o = s2.step(ch, Some(x.as_bytes()));
    judge(ch, &format!("replayed {x}"), &o, &mut s2, &a2, None);
    let _ = f2;
}

fn s_sequences(ch: &mut Ch) {
    let h = Hash::Sha1;
    let app = alice();
    let mut sv = Party::server(&app, h.bare(), no_cb());
    let n = if ch.thorough { 5 } else { 4 };
    let mut cur: Option<(Ref, &'static [u8])> = None;
    let mut prev: Option<(Ref, &'static [u8])> = None;
    let mut validated = 0;
    let mut sent = vec![];
    for _ in 0..n {
        let k = ch.choose(13);
        let (m, new): (String, Option<(&'static str, &'static [u8])>) = match k {
            0 => break,
            1 => (Ref::new(h, "n", None, b"", "alice", CN).first(), Some(("alice", b"pa"))),
            2 => (Ref::new(h, "n", None, b"", "bob", "otherNONCE").first(), Some(("bob", b"pb"))),
            3 => (cur.as_ref().map_or("c=biws,r=x,p=".into(), |(r, pw)| r.fin(pw)), None),
            4 => (cur.as_ref().map_or("c=biws,r=x,p=AAAA".into(), |(r, _)| r.fin(b"bad")), None),
            5 => (prev.as_ref().map_or("e=other-error".into(), |(r, pw)| r.fin(pw)), None),
            6 => (String::new(), None),
            7 => ("garbage".into(), None),
            8 => ("n,,n=alice".into(), None),
            9 => (cur.as_ref().map_or("r=".into(), |(r, _)| r.sf.clone()), None),
            10 => (cur.as_ref().map_or("v=".into(), |(r, pw)| r.verifier(pw)), None),
            11 => (cur.as_ref().map_or("c=biws,r=x".into(), |(r, _)| r.final_bare()), None),
            _ => (Ref::new(h, "n", None, b"", "mallory", CN).first(), None),
        };
        sent.push(k);
        let before = app.n_val();
        let o = sv.step(ch, Some(m.as_bytes()));
        if app.n_val() > before {
            validated += 1;
            let last_two = sent.len() >= 2 && sent[sent.len() - 1] == 3 && cur.is_some();
            ch.check(last_two && validated == 1 && before + 1 == app.n_val(), "validated", || {
                format!("message {k} of {sent:?} led to a validation")
            });
        } else if k == 3 && sent.len() == 2 && cur.is_some() {
            ch.fail("honest-refused", format!("a correct exchange was refused: {:?}", o.r));
        }
        if o.r == R::Running && !o.bytes.starts_with(b"e=") {
            if let Some((u, pw)) = new {
                prev = cur.take();
                let nonce = if u == "alice" { CN } else { "otherNONCE" };
                let mut r = Ref::new(h, "n", None, b"", u, nonce);
                r.sf = o.text();
                cur = Some((r, pw));
            }
        }
        if ch.failed() {
            return;
        }
    }
    ch.outcome(format!("{validated} validations, {} messages", sent.len()));
}

/// Zero bytes at the end (or the beginning), and how the value is presented
fn grind(ch: &mut Ch) -> (usize, bool, usize) {
    (ch.choose(if ch.thorough { 2 } else { 1 }) + 1, ch.flip(), ch.choose(5))
}
fn ground(v: &[u8], k: usize, front: bool) -> bool {
    if front {
        v[..k].iter().all(|b| *b == 0)
    } else {
        v[v.len() - k..].iter().all(|b| *b == 0)
    }
}
fn present(v: &[u8], k: usize, front: bool, how: usize) -> String {
    let cut = if front { &v[k..] } else { &v[..v.len() - k] };
    match how {
        0 => b64(cut),
        1 => b64(cut).trim_end_matches('=').to_string(),
        // an A stands for six zero bits
        2 => b64(v).trim_end_matches(['=', 'A']).to_string(),
        3 => b64(&[&[0][..], cut].concat()),
        _ => b64(&[cut, &[1][..]].concat()),
    }
}
fn s_ground(ch: &mut Ch) {
    let h = hash(ch);
    let app = alice();
    let mut sv = Party::server(&app, h.bare(), no_cb());
    let mut r = Ref::new(h, "n", None, b"", "alice", CN);
    r.sf = sv.step(ch, Some(r.first().as_bytes())).text();
    let (k, front, how) = grind(ch);
    let ck = h.client_key(&r.salted(b"pa"));
    for i in 0u32.. {
        let fb = format!("{},x={i}", r.final_bare());
        let p = h.proof(&ck, rs::auth_message(&r.bare, &r.sf, &fb).as_bytes());
        if ground(&p, k, front) {
            let m = format!("{fb},p={}", present(&p, k, front, how));
            if m == format!("{fb},p={}", b64(&p)) {
                return;
            }
            let o = sv.step(ch, Some(m.as_bytes()));
            judge(ch, &format!("{} proof with {k} zero bytes (front {front}), presented {how}: {m}", h.bare()), &o, &mut sv, &app, None);
            return;
        }
    }
}

fn s_stored(ch: &mut Ch) {
    let h = hash(ch);
    let good = h.store(b"pa", b"salt", 1);
    let fit = |mut v: Vec<u8>, n: usize| {
        v.resize(n, 0);
        v
    };
    let ln = [0, 1, h.len() - 1, h.len(), h.len() + 1, 20, 32, 64];
    let (l1, l2) = (*ch.pick(&ln), *ch.pick(&ln));
    let zero = ch.flip();
    let base = if zero {
        Stored { iterations: 1, salt: vec![], stored_key: vec![0; 64], server_key: vec![0; 64] }
    } else {
        good.clone()
    };
    let st = Stored { stored_key: fit(base.stored_key, l1), server_key: fit(base.server_key, l2), ..base };
    let ok = st == good;
    let app = App { stored: vec![("alice".into(), h, st)], vmode: VMode::Set("ok"), ..Default::default() };
    let mut sv = Party::server(&app, h.bare(), no_cb());
    let mut r = Ref::new(h, "n", None, b"", "alice", CN);
    let o = sv.step(ch, Some(r.first().as_bytes()));
    let what = format!("{} stored key of {l1} bytes, server key of {l2} bytes, zero {zero}", h.bare());
    no_validation(ch, &what, &app);
    if o.r.is_err() {
        ch.check(l1 != h.len() || l2 != h.len(), "stored-refused", || format!("{what}: {:?}", o.r));
        ch.outcome("refused");
        return;
    }
    r.sf = o.text();
    if r.iterations() > 1 {
        ch.outcome("unknown");
        ch.check(!ok, "stored-refused", || format!("{what}: treated as unknown"));
        return;
    }
    let m = match ch.choose(4) {
        0 => r.fin(b"pa"),
        1 => format!("{},p={}", r.final_bare(), b64(&vec![0; h.len()])),
        2 => format!("{},p={}", r.final_bare(), b64(&h.hmac(&vec![0; l1], r.auth().as_bytes()))),
        _ => format!("{},p=", r.final_bare()),
    };
    let right = ok && m == r.fin(b"pa");
    let o = sv.step(ch, Some(m.as_bytes()));
    judge(ch, &what, &o, &mut sv, &app, right.then(|| (r.verifier(b"pa"), ctx_of("alice", None))));
}

// --------------------------------------------------------------------------------------- C02

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cred {
    Password,
    Salted,
    Cached,
}
fn c_app(h: Hash, cred: Cred, salt: &[u8], it: u32) -> App {
    let salted = h.hi(b"pa", salt, it);
    let mut a = App { authid: Some("alice".into()), handle_cached: true, ..Default::default() };
    match cred {
        Cred::Password => a.password = Some(b"pa".to_vec()),
        Cred::Salted => a.salted = Some(salted),
        Cred::Cached => a.cached = Some((h.client_key(&salted), h.server_key(&salted))),
    }
    a
}
fn cred(ch: &mut Ch) -> Cred {
    *ch.pick(&[Cred::Password, Cred::Salted, Cred::Cached])
}
/// Starts a client; the reference view of its first message
fn c_start(ch: &mut Ch, app: &App, h: Hash) -> Option<(Party, Ref)> {
    let mut c = Party::client(app, h.bare(), no_cb());
    let o = c.step(ch, None);
    let t = o.text();
    let nonce = rs::field(&t, "r=").unwrap_or("").to_string();
    let r = Ref::new(h, "n", None, b"", "alice", &nonce);
    if o.r != R::Running || t != r.first() || nonce.len() < 2 {
        ch.fail("client-first", format!("{:?} {t:?}", o.r));
        return None;
    }
    Some((c, r))
}
fn c_nothing(ch: &mut Ch, what: &str, o: &Out, app: &App) {
    ch.check(o.r.is_err(), "accepted", || format!("{what}: {:?} {:?}", o.r, o.text()));
    ch.check(!o.text().contains("p="), "proof-sent", || format!("{what}: a proof was sent: {:?}", o.text()));
    ch.check(app.actions(P::Cached).is_empty(), "keys", || format!("{what}: keys were handed to the application"));
}

fn c_first(ch: &mut Ch) {
    let h = hash(ch);
    let cr = cred(ch);
    let app = c_app(h, cr, b"salt", 2);
    let Some((mut c, mut r)) = c_start(ch, &app, h) else { return };
    let cn = r.bare.rsplit_once(",r=").lib("a first message of the client without nonce").1.to_string();
    let flip = |s: &str, i: usize| {
        let mut b = s.as_bytes().to_vec();
        b[i] = if b[i] == b'A' { b'B' } else { b'A' };
        String::from_utf8(b).unwrap()
    };
    let nk = ch.choose(12);
    let (nonce, nok) = match nk {
        0 => (format!("{cn}serverPART"), true),
        1 => (format!("{cn}s"), true),
        2 => (cn.clone(), false),
        3 => (String::new(), false),
        4 => (format!("serverPART{cn}"), false),
        5 => (format!("{}{}serverPART", &cn[..cn.len() - 1], if cn.ends_with('s') { "t" } else { "" }), false),
        6 => (format!("{}serverPART", flip(&cn, 0)), false),
        7 => (format!("{}serverPART", flip(&cn, cn.len() - 1)), false),
        8 => (format!("{}serverPART", flip(&cn, cn.len() / 2)), false),
        9 => ("serverPARTthatislongenoughtobeacombinednonce0123456789".into(), false),
        10 => (cn[..cn.len() - 1].to_string(), false),
        _ => (format!(" {cn}s"), false),
    };
    let sk = ch.choose(9);
    let (salt, sok) = match sk {
        0 => ("c2FsdA==", true),
        1 => ("c2FsdA", false),
        2 => ("c2FsdB==", false),
        3 => ("c2Fs*A==", false),
        4 => ("c", false),
        5 => ("=", false),
        6 => ("c2FsdA==c2FsdA==", false),
        7 => ("c2FsdA= =", false),
        _ => ("-_-_", false),
    };
    let ik = ch.choose(15);
    let (it, iok) = match ik {
        0 => ("2", true),
        1 => ("0", false),
        2 => ("", false),
        3 => ("a", false),
        4 => ("-1", false),
        5 => ("-2", false),
        6 => ("1a", false),
        7 => ("2 ", false),
        8 => (" 2", false),
        9 => ("4294967298", false),
        10 => ("18446744073709551618", false),
        11 => ("0x2", false),
        12 => ("2.0", false),
        13 => ("00", false),
        _ => ("\u{662}", false),
    };
    let form = ch.choose(11);
    let (m, fok) = match form {
        0 => (format!("r={nonce},s={salt},i={it}"), true),
        1 => (format!("m=x,r={nonce},s={salt},i={it}"), false),
        2 => (format!("r={nonce},s={salt}"), false),
        3 => (format!("r={nonce},i={it}"), false),
        4 => (format!("s={salt},i={it}"), false),
        5 => (format!("s={salt},r={nonce},i={it}"), false),
        6 => (format!("r={nonce},i={it},s={salt}"), false),
        7 => (format!("r={nonce}"), false),
        8 => (format!("m=,r={nonce},s={salt},i={it}"), false),
        9 => (format!("r={nonce},m=x,s={salt},i={it}"), false),
        _ => (format!("R={nonce},S={salt},I={it}"), false),
    };
    let o = c.step(ch, Some(m.as_bytes()));
    let what = format!("{} {cr:?}: server-first {m}", h.bare());
    if !(nok && sok && iok && fok) {
        c_nothing(ch, &what, &o, &app);
        ch.outcome("refused");
        // nothing revives the exchange
        r.sf = rs::server_first(&format!("{cn}s"), b"salt", 2);
        let o = c.step(ch, Some(r.verifier(b"pa").as_bytes()));
        ch.check(!o.r.fin(), "finished", || format!("{what}: finished after a refused message"));
        return;
    }
    r.sf = m.clone();
    ch.check(o.r == R::Running && o.text() == r.fin(b"pa"), "client-final", || {
        format!("{what}: {:?} {:?}, expected {:?}", o.r, o.text(), r.fin(b"pa"))
    });
    ch.check(app.actions(P::Cached).is_empty(), "keys", || format!("{what}: keys were handed out before the server was verified"));
    ch.outcome("answered");
}

/// Brings a client to the point where it waits for the server-final message.
fn c_ready(ch: &mut Ch, app: &App, h: Hash) -> Option<(Party, Ref)> {
    let (mut c, mut r) = c_start(ch, app, h)?;
    let cn = r.bare.rsplit_once(",r=").lib("a first message of the client without nonce").1.to_string();
    r.sf = rs::server_first(&format!("{cn}serverPART"), b"salt", 2);
    let o = c.step(ch, Some(r.sf.as_bytes()));
    if o.r != R::Running || o.text() != r.fin(b"pa") {
        ch.fail("client-final", format!("{:?} {:?}", o.r, o.text()));
        return None;
    }
    Some((c, r))
}
fn c_judge(ch: &mut Ch, what: &str, o: &Out, c: &mut Party, app: &App, r: &Ref, good: bool) {
    if good {
        ch.check(o.r == R::FinNo && o.bytes.is_empty(), "honest-refused", || format!("{what}: {:?}", o.r));
        let salted = r.salted(b"pa");
        let keys = app.actions(P::Cached);
        let want = V::Keys(r.h.client_key(&salted), r.h.server_key(&salted));
        ch.check(keys == [want.clone()], "keys", || format!("{what}: keys handed out {keys:?}, expected {want:?}"));
        ch.outcome("finished");
    } else {
        c_nothing(ch, what, o, app);
        ch.outcome(format!("{:?}", o.r));
    }
    no_validation(ch, what, app);
    let _ = c;
}
/// A client whose keys or password have an unusual content
fn c_keys(ch: &mut Ch) {
    let h = hash(ch);
    let n = h.len();
    let mut app = App { authid: Some("alice".into()), handle_cached: true, ..Default::default() };
    let fills: [Vec<u8>; 5] = [vec![0; n], vec![0xff; n], (1..=n as u8).collect(), [vec![0; n - 1], vec![1]].concat(), [vec![1], vec![0; n - 1]].concat()];
    let (salt, it) = *ch.pick(&[(&b"salt"[..], 2u32), (b"", 1), (b"\0\0\0\0", 1)]);
    let (ck, sk) = match ch.choose(3) {
        0 => {
            let k = (ch.pick(&fills).clone(), ch.pick(&fills).clone());
            app.cached = Some(k.clone());
            k
        }
        1 => {
            let k = ch.pick(&fills).clone();
            app.salted = Some(k.clone());
            (h.client_key(&k), h.server_key(&k))
        }
        _ => {
            let pw = ch.pick(&[&b"\0"[..], b"x", b" ", b"\xff\xfe", &[0; 64], &[b'p'; 65], &[b'q'; 129]]).to_vec();
            let k = h.hi(&pw, salt, it);
            app.password = Some(pw);
            (h.client_key(&k), h.server_key(&k))
        }
    };
    let Some((mut c, mut r)) = c_start(ch, &app, h) else { return };
    let cn = r.bare.rsplit_once(",r=").lib("a first message of the client without nonce").1.to_string();
    r.sf = rs::server_first(&format!("{cn}serverPART"), salt, it);
    let o = c.step(ch, Some(r.sf.as_bytes()));
    let what = format!("{} keys {ck:?} {sk:?}", h.bare());
    let fin = format!("{},p={}", r.final_bare(), b64(&h.proof(&ck, r.auth().as_bytes())));
    if o.r.is_err() && salt.is_empty() {
        ch.outcome("no salt");
        return;
    }
    ch.check(o.r == R::Running && o.text() == fin, "client-final", || format!("{what}: {:?} {:?}", o.r, o.text()));
    let am = r.auth();
    let right = h.server_sig(&sk, am.as_bytes());
    let sig = match ch.choose(9) {
        0 => right.clone(),
        1 => vec![0; n],
        2 => vec![],
        3 => h.server_sig(&vec![0; n], am.as_bytes()),
        4 => h.server_sig(&ck, am.as_bytes()),
        5 => h.server_sig(&[], am.as_bytes()),
        6 => h.server_sig(&sk, b""),
        7 => vec![0xff; n],
        _ => ck.clone(),
    };
    let o = c.step(ch, Some(format!("v={}", b64(&sig)).as_bytes()));
    let what = format!("{what}: signature {sig:?}");
    let keys = app.actions(P::Cached);
    if sig == right {
        ch.check(o.r == R::FinNo && keys == [V::Keys(ck.clone(), sk.clone())], "honest-refused", || format!("{what}: {:?}, keys handed out {keys:?}", o.r));
        ch.outcome("finished");
    } else {
        c_nothing(ch, &what, &o, &app);
        ch.check(o.r.is("MutualAuthenticationFailed"), "wrong-error", || format!("{what}: {:?}", o.r));
        ch.outcome("refused");
    }
    no_validation(ch, &what, &app);
}
fn c_final(ch: &mut Ch) {
    let h = hash(ch);
    let cr = cred(ch);
    let app = c_app(h, cr, b"salt", 2);
    let Some((mut c, r)) = c_ready(ch, &app, h) else { return };
    let v = r.verifier(b"pa");
    let sk = h.server_key(&r.salted(b"pa"));
    let am = r.auth();
    let sig = h.server_sig(&sk, am.as_bytes());
    let raw = |b: &[u8]| format!("v={}", b64(b));
    let k = ch.choose(37);
    let m: String = match k {
        0 => v.clone(),
        1 => r.verifier(b"px"),
        2 => r.verifier(b""),
        3 => raw(&h.server_sig(&sk, format!("{},{}", r.bare, r.sf).as_bytes())),
        4 => raw(&h.server_sig(&sk, b"")),
        5 => raw(&h.server_sig(&h.client_key(&r.salted(b"pa")), am.as_bytes())),
        6 => raw(&h.server_sig(&h.h(&h.client_key(&r.salted(b"pa"))), am.as_bytes())),
        7 => raw(&r.proof(b"pa")),
        8 => raw(&sk),
        9 => raw(&vec![0; h.len()]),
        10 => "v=".into(),
        11 => "v".into(),
        12 => String::new(),
        13 => format!("v={}", v[2..].trim_end_matches('=')),
        14 => {
            let k = ch.choose(sig.len());
            raw(&sig[..k])
        }
        15 => raw(&[&sig[..], &[0]].concat()),
        16 => {
            let i = ch.choose(sig.len() * 8);
            let mut s = sig.clone();
            s[i / 8] ^= 1 << (i % 8);
            raw(&s)
        }
        17 => format!("V{}", &v[1..]),
        18 => v[2..].to_string(),
        19 => format!("m=x,{v}"),
        20 => format!("e=other-error,{v}"),
        21 => format!("{v},e=other-error"),
        22 => format!(" {v}"),
        23 => format!("{v} "),
        24 => format!("{v}\0"),
        25 => {
            let mut q = r.clone();
            q.sf = rs::server_first(&format!("{}X", r.nonce()), b"salt", 2);
            q.verifier(b"pa")
        }
        26 => {
            let mut q = r.clone();
            q.bare = q.bare.replace("n=alice", "n=bob");
            q.verifier(b"pa")
        }
        27 => {
            let mut q = r.clone();
            q.gs2 = "y,,".into();
            q.verifier(b"pa")
        }
        28 => {
            let g = if h == Hash::Sha1 { Hash::Sha256 } else { Hash::Sha1 };
            let mut q = r.clone();
            q.h = g;
            q.verifier(b"pa")
        }
        29 => r.first(),
        30 => r.fin(b"pa"),
        31 => r.sf.clone(),
        _ => {
            let e = *ch.pick(&[
                "invalid-encoding",
                "extensions-not-supported",
                "invalid-proof",
                "channel-bindings-dont-match",
                "server-does-support-channel-binding",
                "channel-binding-not-supported",
                "unsupported-channel-binding-type",
                "unknown-user",
                "invalid-username-encoding",
                "no-resources",
                "other-error",
                "",
                "something-new",
                "v=",
            ]);
            match k {
                32 => format!("e={e}"),
                33 => format!("e={e},"),
                34 => format!("e={e},x=y"),
                35 => format!("e={e},{v}"),
                _ => format!("e{e}"),
            }
        }
    };
    let o = c.step(ch, Some(m.as_bytes()));
    let what = format!("{} {cr:?}: server-final {m}", h.bare());
    c_judge(ch, &what, &o, &mut c, &app, &r, m == v);
    if k == 1 {
        ch.check(o.r.is("MutualAuthenticationFailed"), "wrong-error", || format!("{what}: {:?}", o.r));
    }
    if m != v && !ch.failed() {
        let o = c.step(ch, Some(v.as_bytes()));
        ch.check(!o.r.fin() && app.actions(P::Cached).is_empty(), "second-attempt", || {
            format!("{what}: a second server-final message was accepted: {:?}", o.r)
        });
    }
}
fn c_ground(ch: &mut Ch) {
    let h = hash(ch);
    let app = c_app(h, Cred::Password, b"salt", 2);
    let (k, front, how) = grind(ch);
    let Some((mut c, mut r)) = c_start(ch, &app, h) else { return };
    let cn = r.bare.rsplit_once(",r=").lib("a first message of the client without nonce").1.to_string();
    let sk = h.server_key(&h.hi(b"pa", b"salt", 2));
    for i in 0u32.. {
        r.sf = rs::server_first(&format!("{cn}{i}"), b"salt", 2);
        let v = h.server_sig(&sk, r.auth().as_bytes());
        if ground(&v, k, front) {
            let m = format!("v={}", present(&v, k, front, how));
            if m == r.verifier(b"pa") {
                return;
            }
            let o = c.step(ch, Some(r.sf.as_bytes()));
            if o.r != R::Running {
                ch.fail("client-final", format!("{:?} {:?}", o.r, o.text()));
                return;
            }
            let o = c.step(ch, Some(m.as_bytes()));
            c_judge(ch, &format!("{} signature with {k} zero bytes (front {front}), presented {how}: {m}", h.bare()), &o, &mut c, &app, &r, false);
            return;
        }
    }
}
fn c_final_bytes(ch: &mut Ch) {
    let h = hash(ch);
    let app = c_app(h, Cred::Password, b"salt", 2);
    let Some((mut c, r)) = c_ready(ch, &app, h) else { return };
    let v = r.verifier(b"pa");
    let all = ch.thorough || h == Hash::Sha1;
    let Some(x) = alter(ch, v.as_bytes(), all) else { return };
    // appending an optional extension is not judged
    let o = c.step(ch, Some(&x));
    c_judge(ch, &format!("{v} altered to {}", show(&x)), &o, &mut c, &app, &r, false);
}
fn c_first_bytes(ch: &mut Ch) {
    let h = Hash::Sha256;
    let app = c_app(h, Cred::Password, b"salt", 2);
    let Some((mut c, mut r)) = c_start(ch, &app, h) else { return };
    let cn = r.bare.rsplit_once(",r=").lib("a first message of the client without nonce").1.to_string();
    r.sf = rs::server_first(&format!("{cn}serverPART"), b"salt", 2);
    let Some(x) = alter(ch, r.sf.as_bytes(), ch.thorough) else { return };
    // a count in the thousands of millions is only slow
    let too_slow = std::str::from_utf8(&x)
        .ok()
        .and_then(|t| rs::field(t, "i=").and_then(|i| i.parse::<u64>().ok()))
        .is_some_and(|i| i > 100_000);
    if too_slow {
        return;
    }
    let o = c.step(ch, Some(&x));
    let what = format!("{} altered to {}", r.sf, show(&x));
    let prefix = format!("r={cn}");
    if o.r.is_err() {
        c_nothing(ch, &what, &o, &app);
        ch.outcome("refused");
        return;
    }
    // the nonce must still strictly extend the client's
    ch.check(x.starts_with(prefix.as_bytes()) && x.get(prefix.len()) != Some(&b','), "nonce", || {
        format!("{what}: accepted: {:?}", o.text())
    });
    // an honest server signs what it sent
    let v = r.verifier(b"pa");
    let o = c.step(ch, Some(v.as_bytes()));
    c_judge(ch, &what, &o, &mut c, &app, &r, false);
}
fn c_sequences(ch: &mut Ch) {
    let h = Hash::Sha1;
    let app = c_app(h, Cred::Password, b"salt", 2);
    let Some((mut c, r)) = c_start(ch, &app, h) else { return };
    let cn = r.bare.rsplit_once(",r=").lib("a first message of the client without nonce").1.to_string();
    let n = if ch.thorough { 5 } else { 4 };
    let mut cur: Option<Ref> = None;
    let mut hist = vec![];
    let mut done = false;
    for _ in 0..n {
        let k = ch.choose(12);
        let m: String = match k {
            0 => break,
            1 => rs::server_first(&format!("{cn}one"), b"salt", 2),
            2 => rs::server_first(&format!("{cn}two"), b"pepper", 1),
            3 => cur.as_ref().map_or("v=AAAA".into(), |r| r.verifier(b"pa")),
            4 => cur.as_ref().map_or("v=".into(), |r| r.verifier(b"px")),
            5 => "e=invalid-proof".into(),
            6 => String::new(),
            7 => "garbage".into(),
            8 => rs::server_first("other", b"salt", 2),
            9 => r.first(),
            10 => {
                // the verifier for a first message that was not sent (last)
                let mut q = r.clone();
                q.sf = rs::server_first(&format!("{cn}three"), b"salt", 2);
                q.verifier(b"pa")
            }
            _ => "e=".into(),
        };
        hist.push(k);
        let o = c.step(ch, Some(m.as_bytes()));
        if o.r.fin() {
            ch.check(!done && k == 3 && hist.len() == 2 && cur.is_some(), "finished", || format!("messages {hist:?}: finished"));
            ch.check(app.actions(P::Cached).len() == 1, "keys", || format!("messages {hist:?}: {:?}", app.actions(P::Cached)));
            done = true;
        } else if !done {
            ch.check(app.actions(P::Cached).is_empty(), "keys", || format!("messages {hist:?}: keys handed out"));
            ch.check(!(k == 3 && hist.len() == 2 && cur.is_some()), "honest-refused", || format!("messages {hist:?}: {:?}", o.r));
        }
        if o.r == R::Running && (k == 1 || k == 2) {
            let mut q = r.clone();
            q.sf = m;
            cur = Some(q);
        }
        if ch.failed() {
            return;
        }
    }
    ch.outcome(format!("finished {done}, {} messages", hist.len()));
}

// --------------------------------------------------------------------------------------- C03

#[derive(Clone, Debug)]
struct Honest {
    h: Hash,
    plus: bool,
    user: String,
    authzid: Option<String>,
    pw: Vec<u8>,
    salt: Vec<u8>,
    it: u32,
    cred: Cred,
}
fn honest(ch: &mut Ch, x: &Honest) {
    let salted = x.h.hi(&x.pw, &x.salt, x.it);
    let mut capp = App { authid: Some(x.user.clone()), authzid: x.authzid.clone(), handle_cached: true, ..Default::default() };
    match x.cred {
        Cred::Password => capp.password = Some(x.pw.clone()),
        Cred::Salted => capp.salted = Some(salted.clone()),
        Cred::Cached => capp.cached = Some((x.h.client_key(&salted), x.h.server_key(&salted))),
    }
    // decoys with similar names
    let mut db = vec![user(&x.user, &x.pw, &x.salt, x.it)];
    for d in [rs::escape(&x.user), x.user.to_uppercase(), format!("{}x", x.user), x.authzid.clone().unwrap_or_default()] {
        if !db.iter().any(|u| u.name == d) {
            db.push(user(&d, b"decoy", b"decoy", 1));
        }
    }
    let sapp = accept(db);
    let mech = if x.plus { x.h.plus() } else { x.h.bare() };
    let cbs = if x.plus { exporter() } else { no_cb() };
    let mut d = Duo::new(&capp, &sapp, mech, cbs.clone(), cbs);
    let run = d.run(ch);
    let what = format!("{x:?}");
    if !(run.both_finished() && run.anomaly.is_none() && run.msgs.len() == 4) {
        ch.fail("honest-refused", format!("{what}: {run:?}"));
        return;
    }
    let t: Vec<String> = run.msgs.iter().map(|m| String::from_utf8_lossy(&m.1).into_owned()).collect();
    let cb: &[u8] = if x.plus { b"\x01binding" } else { b"" };
    let flag = if x.plus { "p=tls-exporter" } else { "n" };
    let cn = t[0].rsplit_once(",r=").map_or("", |p| p.1);
    let mut r = Ref::new(x.h, flag, x.authzid.as_deref(), cb, &x.user, cn);
    ch.check(t[0] == r.first(), "client-first", || format!("{what}: client sent {:?}, expected {:?}", t[0], r.first()));
    let sn = rs::field(&t[1], "r=").unwrap_or("").to_string();
    r.sf = rs::server_first(&sn, &x.salt, x.it);
    ch.check(t[1] == r.sf && sn.starts_with(cn) && sn.len() > cn.len(), "server-first", || format!("{what}: server sent {:?}, expected {:?}", t[1], r.sf));
    ch.check(t[2] == r.fin(&x.pw), "client-final", || format!("{what}: client sent {:?}, expected {:?}", t[2], r.fin(&x.pw)));
    ch.check(t[3] == r.verifier(&x.pw), "server-final", || format!("{what}: server sent {:?}, expected {:?}", t[3], r.verifier(&x.pw)));
    one_validation(ch, &what, &sapp, &ctx_of(&x.user, x.authzid.as_deref()));
    no_validation(ch, &what, &capp);
    ch.check(d.s.validation().as_deref() == Some("ok"), "no-value", || format!("{what}: the validation value did not reach the protocol"));
    let want = V::Keys(x.h.client_key(&salted), x.h.server_key(&salted));
    ch.check(capp.actions(P::Cached) == [want], "keys", || format!("{what}: keys handed out: {:?}", capp.actions(P::Cached)));
    // the server asked for the credential of exactly this user
    for e in sapp.events() {
        if let crate::app::Ev::Req { p: P::Stored, ctx, .. } = e {
            if let Err(e) = ctx_is(&ctx, &ctx_of(&x.user, x.authzid.as_deref())) {
                ch.fail("stored-context", format!("{what}: the credential request showed {e}"));
            }
        }
    }
    ch.outcome(format!("{} {:?}", mech, x.cred));
}
fn h_pair(ch: &mut Ch) {
    let h = hash(ch);
    let plus = ch.flip();
    let cr = cred(ch);
    let al: &[&str] = &["a", ",", "=", "=2C", "\u{e9}", " b", "\u{1f600}"];
    let n = 1 + ch.choose(if ch.thorough { 3 } else { 2 });
    let u: String = (0..n).map(|_| *ch.pick(al)).collect();
    let z = match ch.choose(2) {
        0 => None,
        _ => {
            let n = 1 + ch.choose(if ch.thorough { 2 } else { 1 });
            Some((0..n).map(|_| *ch.pick(al)).collect::<String>())
        }
    };
    let pw = (*ch.pick(&[&b"p"[..], b"a,b=c", "\u{e9}".as_bytes(), b" ", b"\xff\x01"])).to_vec();
    let (salt, it) = *ch.pick(&[(&b"s"[..], 1u32), (b"\x00\xff\xfe", 2), (b"0123456789abcdef", 3), (b"ab", 10)]);
    honest(ch, &Honest { h, plus, user: u, authzid: z, pw, salt: salt.to_vec(), it, cred: cr });
}
fn h_sizes(ch: &mut Ch) {
    let h = hash(ch);
    let cr = cred(ch);
    let mut x = Honest { h, plus: ch.flip(), user: "u".into(), authzid: None, pw: b"p".to_vec(), salt: b"s".to_vec(), it: 1, cred: cr };
    match ch.choose(5) {
        0 => {
            let n = 1 + ch.choose(if ch.thorough { 300 } else { 150 });
            x.pw = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        }
        1 => {
            let n = 1 + ch.choose(if ch.thorough { 300 } else { 150 });
            x.salt = (0..n).map(|i| (i * 37) as u8).collect();
        }
        2 => {
            let n = 1 + ch.choose(if ch.thorough { 600 } else { 70 });
            x.user = (0..n).map(|i| if i % 5 == 0 { ',' } else { 'u' }).collect();
        }
        3 => {
            let n = 1 + ch.choose(if ch.thorough { 600 } else { 70 });
            x.authzid = Some((0..n).map(|i| if i % 5 == 0 { '=' } else { 'z' }).collect());
        }
        _ => {
            x.it = *ch.pick(&[1, 2, 3, 9, 10, 11, 99, 100, 255, 256, 257, 1000, 4096]);
        }
    }
    honest(ch, &x);
}
fn h_values(ch: &mut Ch) {
    let h = hash(ch);
    let plus = ch.flip();
    let cr = cred(ch);
    // only values SASLprep leaves alone
    let prep = |x: String| if stringprep::saslprep(&x).is_ok_and(|y| y == x) && !x.is_empty() { x } else { "q".to_string() };
    let mut x = Honest { h, plus, user: "alice".into(), authzid: None, pw: b"pa".to_vec(), salt: b"s".to_vec(), it: 1, cred: cr };
    let all = |c: char| c != '\0';
    match ch.choose(4) {
        0 => x.user = prep(text(ch, all)),
        1 => x.authzid = Some(prep(text(ch, all))),
        2 => x.pw = prep(text(ch, all)).into_bytes(),
        _ => x.salt = octets(ch, |_| true),
    }
    honest(ch, &x);
}
fn h_unsendable(ch: &mut Ch) {
    let h = hash(ch);
    let plus = ch.flip();
    let cr = cred(ch);
    let mut app = c_app(h, cr, b"salt", 1);
    let bad = |n: &str| n.is_empty() || n.contains('\0');
    const NAMES: &[&str] = &["", "alice", "\0", "a\0", "\0,b", "a=\0b", ",", "a,b=c\0"];
    let user = *ch.pick(NAMES);
    // what an empty authorization identity means is left to the library
    let authzid = *ch.pick(&[None, Some("z"), Some("\0"), Some("z\0"), Some("=,\0"), Some("=,")]);
    app.authid = Some(user.into());
    app.authzid = authzid.map(Into::into);
    let (mech, cb) = if plus { (h.plus(), exporter()) } else { (h.bare(), no_cb()) };
    let mut c = Party::client(&app, mech, cb);
    let o = c.step(ch, None);
    let what = format!("{mech} {cr:?}, user {user:?}, authorization identity {authzid:?}");
    if bad(user) || authzid.is_some_and(bad) {
        ch.check(o.r.is_err() && o.bytes.is_empty(), "unsendable", || format!("{what}: {:?} {:?}", o.r, o.text()));
        ch.outcome("refused");
    } else {
        ch.check(o.r == R::Running, "refused", || format!("{what}: {:?}", o.r));
        ch.outcome("sent");
    }
}
fn h_client(ch: &mut Ch) {
    let h = hash(ch);
    let it = *ch.pick(&[1u32, 2, 17]);
    let salt: &[u8] = *ch.pick(&[&b"salt"[..], b"\xff\x00\x10", b"x"]);
    let cr = cred(ch);
    let app = c_app(h, cr, salt, it);
    let Some((mut c, mut r)) = c_start(ch, &app, h) else { return };
    let cn = r.bare.rsplit_once(",r=").lib("a first message of the client without nonce").1.to_string();
    let ext: String = if ch.flip() {
        let n = 1 + ch.choose(64);
        (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
    } else {
        let v: Vec<u8> = (0x21..0x7f).filter(|b| *b != b',').collect();
        (*ch.pick(&v) as char).to_string()
    };
    r.sf = rs::server_first(&format!("{cn}{ext}"), salt, it);
    let o = c.step(ch, Some(r.sf.as_bytes()));
    let what = format!("{} {cr:?}: {}", h.bare(), r.sf);
    ch.check(o.r == R::Running && o.text() == r.fin(b"pa"), "client-final", || format!("{what}: {:?} {:?}", o.r, o.text()));
    let o = c.step(ch, Some(r.verifier(b"pa").as_bytes()));
    c_judge(ch, &what, &o, &mut c, &app, &r, true);
}
fn h_server(ch: &mut Ch) {
    let h = hash(ch);
    let app = alice();
    let nonce: String = if ch.flip() {
        let n = 1 + ch.choose(64);
        (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
    } else {
        let v: Vec<u8> = (0x21..0x7f).filter(|b| *b != b',').collect();
        (*ch.pick(&v) as char).to_string()
    };
    let z = *ch.pick(&[None, Some("bob"), Some("a,b=c")]);
    let flag = *ch.pick(&["n", "y"]);
    let mut sv = Party::server(&app, h.bare(), no_cb());
    let mut r = Ref::new(h, flag, z, b"", "alice", &nonce);
    // extensions the server does not know are part of what is signed
    const EXT: &[&str] = &["", ",x=1", ",x=", ",x=a=b,Y=\u{e9}", ",z=1,z=1,z=22"];
    let (e1, e2) = if nonce.len() < 3 { (*ch.pick(EXT), *ch.pick(EXT)) } else { ("", "") };
    r.bare += e1;
    let o = sv.step(ch, Some(r.first().as_bytes()));
    r.sf = o.text();
    let what = format!("{}: {}, extensions {e2:?}", h.bare(), r.first());
    let sn = r.nonce().to_string();
    ch.check(
        o.r == R::Running && r.sf == rs::server_first(&sn, b"salt", 1) && sn.starts_with(&nonce) && sn.len() > nonce.len(),
        "server-first",
        || format!("{what}: {:?} {:?}", o.r, o.text()),
    );
    let fb = format!("{}{e2}", r.final_bare());
    let am = rs::auth_message(&r.bare, &r.sf, &fb);
    let salted = r.salted(b"pa");
    let fin = format!("{fb},p={}", b64(&h.proof(&h.client_key(&salted), am.as_bytes())));
    let o = sv.step(ch, Some(fin.as_bytes()));
    let v = format!("v={}", b64(&h.server_sig(&h.server_key(&salted), am.as_bytes())));
    judge(ch, &what, &o, &mut sv, &app, Some((v, ctx_of("alice", z))));
}
/// Counts of the whole range, for credentials that do not need the key derivation.
fn h_counts(ch: &mut Ch) {
    let h = hash(ch);
    if ch.flip() {
        let it = *ch.pick(&[32767u32, 32768, 65535, 65536, 65537]);
        let it = if ch.thorough { it * *ch.pick(&[1, 2, 10]) } else { it };
        let cred = cred(ch);
        return honest(ch, &Honest { h, plus: false, user: "u".into(), authzid: None, pw: b"p".to_vec(), salt: b"s".to_vec(), it, cred });
    }
    let n = ch.choose(32 * 3 + 9 * 3);
    let it = if n < 96 { (1u64 << (n / 3)) + (n % 3) as u64 } else { 10u64.pow((n as u32 - 96) / 3 + 1) + n as u64 % 3 } - 1;
    let Ok(it @ 1..) = u32::try_from(if n == 2 { u64::from(u32::MAX) } else { it }) else { return };
    let salt: &[u8] = *ch.pick(&[&b"s"[..], b"\xff\x00\x10\x80", &[7; 64]]);
    let salted = h.hi(b"p", salt, 1);
    let mut st = h.store(b"p", salt, 1);
    st.iterations = it;
    let (ck, sk) = (h.client_key(&salted), h.server_key(&salted));
    let mut capp = App { authid: Some("u".into()), handle_cached: true, ..Default::default() };
    let form = ch.flip();
    if form {
        capp.salted = Some(salted);
    } else {
        capp.cached = Some((ck.clone(), sk.clone()));
    }
    let sapp = App { stored: vec![("u".into(), h, st)], vmode: VMode::Set("ok"), ..Default::default() };
    let mut d = Duo::new(&capp, &sapp, h.bare(), no_cb(), no_cb());
    let run = d.run(ch);
    let what = format!("{} {it} iterations, salt {salt:?}, salted password {form}", h.bare());
    if !(run.both_finished() && run.anomaly.is_none() && run.msgs.len() == 4) {
        ch.fail("honest-refused", format!("{what}: {run:?}"));
        return;
    }
    let t: Vec<String> = run.msgs.iter().map(|m| String::from_utf8_lossy(&m.1).into_owned()).collect();
    let mut r = Ref::new(h, "n", None, b"", "u", rs::field(&t[0], "r=").unwrap_or(""));
    r.sf = rs::server_first(rs::field(&t[1], "r=").unwrap_or(""), salt, it);
    ch.check(t[1] == r.sf, "server-first", || format!("{what}: server sent {:?}, expected {:?}", t[1], r.sf));
    let fin = format!("{},p={}", r.final_bare(), b64(&h.proof(&ck, r.auth().as_bytes())));
    ch.check(t[2] == fin, "client-final", || format!("{what}: client sent {:?}, expected {fin:?}", t[2]));
    let v = format!("v={}", b64(&h.server_sig(&sk, r.auth().as_bytes())));
    ch.check(t[3] == v, "server-final", || format!("{what}: server sent {:?}, expected {v:?}", t[3]));
    for e in capp.events() {
        let crate::app::Ev::Req { p, ctx, .. } = e else { continue };
        if matches!(p, P::Cached | P::Salted) {
            let see = (crate::app::ctx_get(&ctx, P::Iterations), crate::app::ctx_get(&ctx, P::Salt));
            ch.check(see == (Some(&V::N(it)), Some(&V::B(salt.into()))), "client-context", || format!("{what}: the request for {p:?} showed {see:?}"));
        }
    }
    one_validation(ch, &what, &sapp, &ctx_of("u", None));
    ch.outcome(h.bare());
}
fn h_tools(ch: &mut Ch) {
    use rsasl::mechanisms::scram::tools::{compute_signatures, derive_keys, hash_password};
    let h = hash(ch);
    let n = ch.choose(if ch.thorough { 270 } else { 140 });
    let pw: Vec<u8> = (0..n).map(|i| (i * 7 + 1) as u8).collect();
    let salt: Vec<u8> = match ch.choose(4) {
        0 => vec![],
        1 => b"salt".to_vec(),
        2 => (0..64).collect(),
        _ => (0..129).collect(),
    };
    let it = *ch.pick(&[1u32, 2, 5]);
    ch.step();
    ch.obs(&(h, n, salt.len(), it));
    macro_rules! go {
        ($d:ty) => {{
            let mut out = Default::default();
            hash_password::<$d>(&pw, it, &salt, &mut out);
            let (ck, sk) = derive_keys::<$d>(out.as_slice());
            let st = <$d as sha2::Digest>::digest(&ck);
            let mut cs = Default::default();
            let mut ss = Default::default();
            compute_signatures::<$d>(&st, &sk, "u=2C", b"cn", b"sn", b"c2FsdA==", b"5", b"biws", &mut cs, &mut ss);
            (out.to_vec(), ck.to_vec(), sk.to_vec(), cs.to_vec(), ss.to_vec())
        }};
    }
    let (salted, ck, sk, cs, ss) = match h {
        Hash::Sha1 => go!(sha1::Sha1),
        Hash::Sha256 => go!(sha2::Sha256),
        Hash::Sha512 => go!(sha2::Sha512),
    };
    let rsalted = h.hi(&pw, &salt, it);
    let am = "n=u=2C,r=cn,r=cnsn,s=c2FsdA==,i=5,c=biws,r=cnsn";
    ch.check(salted == rsalted, "hash_password", || format!("{h:?}, password of {n} bytes, salt of {} bytes", salt.len()));
    ch.check(ck == h.client_key(&rsalted) && sk == h.server_key(&rsalted), "derive_keys", || format!("{h:?}"));
    ch.check(cs == h.hmac(&h.h(&ck), am.as_bytes()) && ss == h.server_sig(&sk, am.as_bytes()), "compute_signatures", || format!("{h:?}"));
    // any key length
    let k: Vec<u8> = pw.clone();
    let (ck, sk) = match h {
        Hash::Sha1 => {
            let x = derive_keys::<sha1::Sha1>(&k);
            (x.0.to_vec(), x.1.to_vec())
        }
        Hash::Sha256 => {
            let x = derive_keys::<sha2::Sha256>(&k);
            (x.0.to_vec(), x.1.to_vec())
        }
        Hash::Sha512 => {
            let x = derive_keys::<sha2::Sha512>(&k);
            (x.0.to_vec(), x.1.to_vec())
        }
    };
    ch.check(ck == h.client_key(&k) && sk == h.server_key(&k), "derive_keys", || format!("{h:?}, key of {n} bytes"));
    ch.outcome(format!("{h:?}"));
}

// --------------------------------------------------------------------------------------- C04

struct Net {
    capp: App,
    sapp: App,
    d: Duo,
}
fn net(ch: &mut Ch, h: Hash, kind: usize, authzid: Option<&str>) -> Net {
    // kind 0: bare; 1: -PLUS; 2: bare with a client that supports channel binding (flag y)
    let capp = App {
        authid: Some("alice".into()),
        authzid: authzid.map(Into::into),
        password: Some(b"pa".to_vec()),
        handle_cached: true,
        enable_cb: kind > 0,
        ..Default::default()
    };
    let sapp = App { cbdata: vec![("x-other".into(), b"\x01binding".to_vec())], ..alice() };
    let cbs = Cb(vec![("tls-exporter".into(), b"\x01binding".to_vec()), ("tls-unique".into(), b"\x01binding".to_vec())]);
    let mech = if kind == 1 { h.plus() } else { h.bare() };
    let d = Duo::new(&capp, &sapp, mech, cbs.clone(), cbs);
    let _ = ch;
    Net { capp, sapp, d }
}
/// Judges a run through a network: `sent` what was sent, `got` what arrived, per direction
fn net_judge(ch: &mut Ch, n: &Net, r: &crate::drive::DuoRun, arrived: &[(bool, Vec<u8>)], what: &str) {
    let sent = &r.msgs;
    let unmod = |k: usize| arrived.len() >= k && sent.len() >= k && arrived[..k] == sent[..k];
    let client_done = r.cr.as_ref().is_some_and(R::fin) || !n.capp.actions(P::Cached).is_empty();
    if client_done {
        ch.check(unmod(4) && sent.len() == 4, "client-accepted", || {
            format!("{what}: the client reports success although the messages were altered: {}", transcript(sent, arrived))
        });
    }
    if n.sapp.n_val() > 0 {
        ch.check(unmod(3), "server-accepted", || {
            format!("{what}: the server validated although the messages were altered: {}", transcript(sent, arrived))
        });
        ch.check(n.sapp.n_val() == 1, "twice", || format!("{what}: validated {} times", n.sapp.n_val()));
    }
    ch.outcome(format!(
        "client {}, server {}, validations {}",
        r.cr.as_ref().map_or("-", R::tag),
        r.sr.as_ref().map_or("-", R::tag),
        n.sapp.n_val()
    ));
}
fn transcript(sent: &[(bool, Vec<u8>)], arrived: &[(bool, Vec<u8>)]) -> String {
    let f = |v: &[(bool, Vec<u8>)]| v.iter().map(|m| format!("{} {}", if m.0 { "C" } else { "S" }, show(&m.1))).collect::<Vec<_>>().join(" | ");
    format!("sent: {} ## arrived: {}", f(sent), f(arrived))
}

fn n_bytes(ch: &mut Ch) {
    let h = *ch.pick(&[Hash::Sha256, Hash::Sha1, Hash::Sha512]);
    let kind = ch.choose(3);
    let z = *ch.pick(&[None, Some("bob")]);
    let mut n = net(ch, h, kind, z);
    let target = ch.choose(4);
    let all = ch.thorough || (h == Hash::Sha256 && kind == 0 && z.is_none());
    let mut arrived = vec![];
    let mut k = 0;
    let mut skip = false;
    let r = {
        let (arrived, k, skip) = (&mut arrived, &mut k, &mut skip);
        n.d.run_with(ch, &mut |ch, from, m| {
            let i = *k;
            *k += 1;
            let x = if i == target {
                match alter(ch, &m, all) {
                    Some(x) => x,
                    None => {
                        *skip = true;
                        return vec![];
                    }
                }
            } else {
                m
            };
            if slow(&x) {
                *skip = true;
                return vec![];
            }
            arrived.push((from, x.clone()));
            vec![x]
        })
    };
    if skip {
        return;
    }
    let what = format!("{} kind {kind}, message {target} altered", h.bare());
    net_judge(ch, &n, &r, &arrived, &what);
}
/// A server-first message whose iteration count would only be slow
fn slow(m: &[u8]) -> bool {
    std::str::from_utf8(m)
        .ok()
        .and_then(|t| if t.starts_with("r=") { rs::field(t, "i=").and_then(|i| i.parse::<u64>().ok()) } else { None })
        .is_some_and(|i| i > 100_000)
}

/// One semantic alteration of message `i`
fn op(ch: &mut Ch, i: usize, m: &[u8], old: &[(bool, Vec<u8>)]) -> Option<Vec<Vec<u8>>> {
    let t = String::from_utf8_lossy(m).into_owned();
    let (head, body) = if i == 0 {
        // the GS2 header is two fields
        let mut it = t.splitn(3, ',');
        let a = it.next().unwrap_or("").to_string();
        let b = it.next().unwrap_or("").to_string();
        (vec![a, b], it.next().unwrap_or("").to_string())
    } else {
        (vec![], t.clone())
    };
    let mut f: Vec<String> = head;
    f.extend(body.split(',').map(String::from));
    let one = |f: Vec<String>| Some(vec![f.join(",").into_bytes()]);
    const REPL: [&str; 26] = [
        "n", "y", "p=tls-exporter", "p=tls-unique", "p=x-other", "", "a=bob", "a=alice", "a=", "n=bob", "n=alice", "n=mallory", "r=x", "s=c2FsdA==",
        "s=cGVwcGVy", "s=", "i=1", "i=2", "i=4096", "i=0", "c=biws", "c=eSws", "c=", "v=AAAA", "e=other-error", "x=y",
    ];
    // constant number of alternatives at every level
    let k = ch.deviate(1 + 11);
    match k {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![m.to_vec(), m.to_vec()]),
        3 => {
            // replaced by an earlier message
            let j = ch.choose(4);
            Some(vec![old.get(j).map_or(vec![], |x| x.1.clone())])
        }
        4 => {
            // a field replaced
            let j = ch.choose(6);
            let v = *ch.pick(&REPL);
            if j < f.len() {
                f[j] = v.into();
            }
            one(f)
        }
        5 => {
            let j = ch.choose(6);
            if j < f.len() {
                f.remove(j);
            }
            one(f)
        }
        6 => {
            let j = ch.choose(6);
            if j < f.len() {
                let x = f[j].clone();
                f.insert(j, x);
            }
            one(f)
        }
        7 => {
            let j = ch.choose(5);
            if j + 1 < f.len() {
                f.swap(j, j + 1);
            }
            one(f)
        }
        8 => {
            // a field inserted
            let j = ch.choose(7);
            let v = *ch.pick(&["x=y", "m=x", "x=", "", "x", "a=bob", "n=bob", "r=x", "p=AAAA", "i=1"]);
            if j <= f.len() {
                f.insert(j, v.into());
            }
            one(f)
        }
        9 => {
            // a value extended or cut
            let j = ch.choose(6);
            let w = ch.choose(4);
            if j < f.len() {
                match w {
                    0 => f[j].push('A'),
                    1 => {
                        f[j].pop();
                    }
                    2 => f[j].push_str("AAAA"),
                    _ => {
                        let l = f[j].len().min(2);
                        f[j].insert_str(l, "A");
                    }
                }
            }
            one(f)
        }
        10 => {
            // another message of the exchange appended
            let j = ch.choose(4);
            let mut x = m.to_vec();
            x.push(b',');
            x.extend_from_slice(old.get(j).map_or(&b"x"[..], |o| &o.1));
            Some(vec![x])
        }
        _ => {
            let w = ch.choose(4);
            Some(vec![match w {
                0 => vec![],
                1 => t.to_uppercase().into_bytes(),
                2 => b"e=other-error".to_vec(),
                _ => [&[m, b"\0"].concat()[..]].concat(),
            }])
        }
    }
}
fn n_fields(ch: &mut Ch) {
    let h = hash(ch);
    let kind = ch.choose(3);
    let z = *ch.pick(&[None, Some("bob"), Some("a,b")]);
    let mut n = net(ch, h, kind, z);
    let mut arrived: Vec<(bool, Vec<u8>)> = vec![];
    let mut sent: Vec<(bool, Vec<u8>)> = vec![];
    let mut i = 0;
    let mut skip = false;
    // a nonce cut short may be extended to the original one by chance
    let mut luck = false;
    let r = {
        let (arrived, i, skip, sent, luck) = (&mut arrived, &mut i, &mut skip, &mut sent, &mut luck);
        n.d.run_with(ch, &mut |ch, from, m| {
            let x = if *luck { None } else { op(ch, *i, &m, sent) };
            if let (0, Some([y])) = (*i, x.as_deref()) {
                let nonce = |m: &[u8]| String::from_utf8_lossy(m).split(',').find_map(|f| f.strip_prefix("r=").map(String::from));
                let (a, b) = (nonce(&m), nonce(y));
                *luck = a != b && a.zip(b).is_some_and(|(a, b)| a.starts_with(&b));
            }
            *i += 1;
            sent.push((from, m.clone()));
            let x = x.unwrap_or_else(|| vec![m]);
            if x.iter().any(|x| slow(x)) {
                *skip = true;
                return vec![];
            }
            // duplicates: the first copy arrived as sent
            for y in &x {
                arrived.push((from, y.clone()));
            }
            x
        })
    };
    if skip {
        return;
    }
    let what = format!("{} kind {kind} authzid {z:?}", h.bare());
    net_judge(ch, &n, &r, &arrived, &what);
    // untouched: completes
    if ch.dev_used == 0 {
        ch.check(r.both_finished() && n.sapp.n_val() == 1, "honest-refused", || format!("{what}: {r:?}"));
    }
}

fn n_cross(ch: &mut Ch) {
    let h = hash(ch);
    let kind = ch.choose(2);
    let same_user = ch.flip();
    let u2 = if same_user { "alice" } else { "bob" };
    let mk = |u: &str| App {
        authid: Some(u.into()),
        password: Some(if u == "bob" { b"pb".to_vec() } else { b"pa".to_vec() }),
        handle_cached: true,
        ..Default::default()
    };
    let capp = [mk("alice"), mk(u2)];
    let sapp = [alice(), alice()];
    let mech = if kind == 1 { h.plus() } else { h.bare() };
    let cbs = if kind == 1 { exporter() } else { no_cb() };
    let mut c: Vec<Party> = capp.iter().map(|a| Party::client(a, mech, cbs.clone())).collect();
    let mut s: Vec<Party> = sapp.iter().map(|a| Party::server(a, mech, cbs.clone())).collect();
    // routing of each flight: straight, crossed, or both ends get the same message
    let routes: Vec<[usize; 2]> = (0..4).map(|_| *ch.pick(&[[0, 1], [1, 0], [0, 0], [1, 1]])).collect();
    let mut out: Vec<Option<Vec<u8>>> = vec![];
    for p in &mut c {
        let o = p.step(ch, None);
        out.push(o.r.sent().then_some(o.bytes));
    }
    let mut log: Vec<Vec<Option<Vec<u8>>>> = vec![out.clone()];
    let mut fin = [false; 2];
    for (i, route) in routes.iter().enumerate() {
        let mut next = vec![];
        for k in 0..2 {
            let p = if i % 2 == 0 { &mut s[k] } else { &mut c[k] };
            let input = out[route[k]].clone();
            let o = match input {
                Some(m) => p.step(ch, Some(&m)),
                None => {
                    next.push(None);
                    continue;
                }
            };
            if i == 3 && o.r.fin() {
                fin[k] = true;
            }
            next.push(o.r.sent().then_some(o.bytes));
        }
        out = next;
        log.push(out.clone());
    }
    // for each client: success only if one server saw exactly its messages and it saw exactly that server's
    for k in 0..2 {
        if !fin[k] {
            continue;
        }
        // whose final message the client accepted, whose first
        let sf = routes[1][k];
        let sfin = routes[3][k];
        let ok = log[1][sf] == log[1][sfin] && sf == sfin && routes[0][sf] == k && routes[2][sf] == k;
        ch.check(ok, "client-accepted", || format!("routing {routes:?}: client {k} reports success"));
    }
    for k in 0..2 {
        if sapp[k].n_val() == 0 {
            continue;
        }
        let from = routes[2][k];
        ch.check(routes[0][k] == from && routes[1][from] == k, "server-accepted", || format!("routing {routes:?}: server {k} validated"));
        let u = ["alice", u2][from];
        one_validation(ch, &format!("server {k}"), &sapp[k], &ctx_of(u, None));
    }
    if routes.iter().all(|r| *r == [0, 1]) {
        ch.check(fin == [true, true] && sapp.iter().all(|a| a.n_val() == 1), "honest-refused", || format!("{fin:?}"));
    }
    ch.outcome(format!("clients {fin:?}, validations {} {}", sapp[0].n_val(), sapp[1].n_val()));
}
