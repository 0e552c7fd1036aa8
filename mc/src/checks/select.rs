//! C06 (client mechanism selection) and C07 (what servers offer and start).
use super::util::*;
use super::{tree, Check};
use crate::app::App;
use crate::drive::{client_cfg, server_cfg, Duo, Party, R};
use crate::explore::Ch;
use crate::fakegss;
use crate::mechs;
use rsasl::config::SASLConfig;
use rsasl::mechanisms::plain::PLAIN;
use rsasl::prelude::{Mechanism, Registry, SASLError};
use rsasl::registry::{Matches, Named, Side};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::sync::{Arc, OnceLock};

pub fn add(v: &mut Vec<Check>) {
    v.push(Check {
        id: "C06",
        trees: vec![
            tree("sequences", "every subset and order of 6 mechanisms, every sequence of up to 3 (thorough 4) offers with unknown names, channel binding on and off, 6 preferences", (0, 0), sequences),
            tree("sets", "all 8192 registries of the 13 mechanisms, every set of up to 2 (thorough 3) offers, channel binding on and off", (0, 0), sets),
            tree("long", "offer lists of up to 40 (thorough 1000) names: the wanted name in every position, among unknown, disabled or repeated names", (0, 0), long),
            tree("very-long", "offer lists of up to 5000 (thorough 100000) names with the wanted name at the beginning, in the middle, at the end or missing", (0, 0), very_long),
            tree("custom", "registries with custom mechanisms that have no client side or no server side", (0, 0), custom_client),
            tree("priorities", "every two or three (thorough four) custom mechanisms with priorities from 0 to the largest number, in every order of registration and offer", (0, 0), priorities),
            tree("name-lengths", "an unknown name of every length from 1 to 20, repeated up to 20 times, before or after the wanted name, and wanted names of every length", (0, 0), name_lengths),
            tree("runs", "the session started for every pair of offers completes with a server of the named mechanism", (0, 0), runs),
        ],
        assumptions: &["the rank of GSSAPI among the other mechanisms is not asserted", "among equally ranked mechanisms any may be chosen"],
    });
    v.push(Check {
        id: "C07",
        trees: vec![
            tree("lists", "all 8192 registries of the 13 mechanisms in 3 orders: offered list and the result of starting each of 13 names and variants", (0, 0), lists),
            tree("custom", "registries with custom mechanisms that have only a client side, only a server side or both", (0, 0), custom_server),
            tree("many", "registries of up to 70 (thorough 300) custom mechanisms, with or without a server side, and a built-in one anywhere among them", (0, 0), many),
            tree("exchange", "each mechanism in small registries, started by name, completes with a client of that mechanism and not with one of another kind", (0, 0), exchange),
            tree("ready-made", "default and credential configurations", (0, 0), ready),
            tree("static-registry", "default and credential configurations of a build with the link-time registry", (0, 0), static_registry),
        ],
        assumptions: &[],
    });
}

// --------------------------------------------------------------------------------------- C06

/// Reference ranking; GSSAPI is left out
fn rank(m: &str) -> u32 {
    match m {
        "SCRAM-SHA-512-PLUS" | "SCRAM-SHA-256-PLUS" => 700,
        "SCRAM-SHA-512" | "SCRAM-SHA-256" => 600,
        "SCRAM-SHA-1-PLUS" => 500,
        "SCRAM-SHA-1" => 400,
        "PLAIN" | "XOAUTH2" | "OAUTHBEARER" => 300,
        "LOGIN" => 200,
        "ANONYMOUS" | "EXTERNAL" => 100,
        _ => 0,
    }
}

thread_local! {
    static ASKED: RefCell<Vec<(Option<&'static str>, &'static str)>> = const { RefCell::new(vec![]) };
}
fn asked(a: Option<&Mechanism>, b: &Mechanism) {
    let a = a.map(|m| m.mechanism.as_str());
    ASKED.with(|x| x.borrow_mut().push((a, b.mechanism.as_str())));
}
fn p_default(a: Option<&Mechanism>, b: &Mechanism) -> Ordering {
    asked(a, b);
    struct D;
    impl rsasl::callback::SessionCallback for D {}
    use rsasl::callback::SessionCallback;
    D.prefer(a, b)
}
fn p_none(a: Option<&Mechanism>, b: &Mechanism) -> Ordering {
    asked(a, b);
    Ordering::Greater
}
fn p_last(a: Option<&Mechanism>, b: &Mechanism) -> Ordering {
    asked(a, b);
    a.map(|m| m.mechanism.as_str()).cmp(&Some(b.mechanism.as_str()))
}
fn p_first(a: Option<&Mechanism>, b: &Mechanism) -> Ordering {
    asked(a, b);
    match a {
        None => Ordering::Less,
        Some(a) => b.mechanism.as_str().cmp(a.mechanism.as_str()),
    }
}
fn p_noplain(a: Option<&Mechanism>, b: &Mechanism) -> Ordering {
    asked(a, b);
    if b.mechanism.as_str() == "PLAIN" {
        return Ordering::Greater;
    }
    a.map(|m| m.mechanism.as_str()).cmp(&Some(b.mechanism.as_str()))
}
/// Refuses what would be best, in the way the documentation prescribes
fn p_noscram(a: Option<&Mechanism>, b: &Mechanism) -> Ordering {
    asked(a, b);
    if b.mechanism.as_str().starts_with("SCRAM") {
        return Ordering::Greater;
    }
    a.map(|m| m.mechanism.as_str()).cmp(&Some(b.mechanism.as_str()))
}
type Pref = fn(Option<&Mechanism>, &Mechanism) -> Ordering;
const PREFS: [(&str, Pref); 6] =
    [("default", p_default), ("last", p_last), ("first", p_first), ("not-plain", p_noplain), ("none", p_none), ("not-scram", p_noscram)];

/// The acceptable choices; empty: starting must fail
fn allowed<'a>(pref: &str, cand: &[&'a str]) -> Vec<&'a str> {
    match pref {
        "none" => vec![],
        "last" => cand.iter().max().copied().into_iter().collect(),
        "first" => cand.iter().min().copied().into_iter().collect(),
        "not-plain" => cand.iter().filter(|c| **c != "PLAIN").max().copied().into_iter().collect(),
        "not-scram" => cand.iter().filter(|c| !c.starts_with("SCRAM")).max().copied().into_iter().collect(),
        _ => {
            let top = cand.iter().filter(|c| **c != "GSSAPI").map(|c| rank(c)).max();
            cand.iter().filter(|c| **c == "GSSAPI" || Some(rank(c)) == top).copied().collect()
        }
    }
}

fn choose_and_check(ch: &mut Ch, reg: &[&str], mechs_: &'static [Mechanism], clientless: &[&str], offers: &[&str], cb: bool, pref: (&'static str, Pref)) -> Option<Party> {
    ASKED.with(|x| x.borrow_mut().clear());
    let app = App { enable_cb: cb, prefer: Some(pref.1), ..rich_client() };
    let cfg = app.config(mechs_);
    let r = client_cfg(cfg, offers, exporter());
    ch.step();
    let mut cand: Vec<&str> = reg
        .iter()
        .filter(|m| offers.contains(m) && !clientless.contains(m) && (cb || !mechs::is_plus(m)))
        .copied()
        .collect();
    cand.sort_unstable();
    cand.dedup();
    let ok = allowed(pref.0, &cand);
    let got: Result<String, SASLError> = r.as_ref().map(|p| p.mech().to_string()).map_err(|_| SASLError::NoSharedMechanism);
    ch.obs(&(reg.join(" "), offers.join(" "), cb, pref.0, got.as_ref().ok()));
    ch.log(|| format!("enabled [{}], offered [{}], channel binding {cb}, preference {} -> {:?}", reg.join(" "), offers.join(" "), pref.0, got));
    let info = || format!("enabled [{}], offered [{}], channel binding {cb}, preference {}", reg.join(" "), offers.join(" "), pref.0);
    match (&r, got.as_ref().ok()) {
        (Ok(_), Some(m)) => {
            let m = m.as_str();
            if !offers.contains(&m) {
                ch.fail("not-offered", format!("{}: chose {m}, which was not offered", info()));
            } else if !reg.contains(&m) {
                ch.fail("not-enabled", format!("{}: chose {m}, which is not enabled", info()));
            } else if mechs::is_plus(m) && !cb {
                ch.fail("plus-without-cb", format!("{}: chose {m}", info()));
            } else if !ok.contains(&m) {
                ch.fail("preference", format!("{}: chose {m}, expected one of {ok:?}", info()));
            }
            ch.outcome(format!("chose {m}"));
        }
        (Err(e), _) => {
            ch.check(ok.is_empty(), "refused", || format!("{}: refused ({e:?}), expected one of {ok:?}", info()));
            ch.check(matches!(e, SASLError::NoSharedMechanism), "wrong-error", || format!("{}: {e:?} instead of no shared mechanism", info()));
            ch.outcome("no shared mechanism");
        }
        _ => {}
    }
    ASKED.with(|x| {
        for (a, b) in x.borrow().iter() {
            for m in a.iter().chain([b]) {
                if !cand.contains(m) {
                    ch.fail("asked-about", format!("{}: the application was asked about {m}", info()));
                }
            }
        }
    });
    r.ok()
}

fn subset<'a>(ch: &mut Ch, of: &[&'a str]) -> Vec<&'a str> {
    let k = ch.choose(1 << of.len());
    of.iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|x| *x.1).collect()
}

const UNI: [&str; 6] = ["SCRAM-SHA-1", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "PLAIN", "LOGIN"];
const OFFERS: [&str; 12] = [
    "SCRAM-SHA-1",
    "SCRAM-SHA-1-PLUS",
    "SCRAM-SHA-256",
    "SCRAM-SHA-256-PLUS",
    "PLAIN",
    "LOGIN",
    "GSSAPI",
    "SCRAM-SHA-1-PLUSX",
    "SCRAM-SHA-25",
    "PLAI",
    "PLAINX",
    "X",
];
fn sequences(ch: &mut Ch) {
    let mut reg = subset(ch, &UNI);
    if reg.len() > 1 && ch.flip() {
        reg.reverse();
    }
    let cb = ch.flip();
    let pref = *ch.pick(&PREFS);
    let n = ch.choose(if ch.thorough { 5 } else { 4 });
    // the fourth offer is only ever a known name
    let offers: Vec<&str> = (0..n).map(|i| *ch.pick(&OFFERS[..if i < 3 { 12 } else { 6 }])).collect();
    choose_and_check(ch, &reg, mechs::reg(&reg), &[], &offers, cb, pref);
}
fn sets(ch: &mut Ch) {
    let reg = subset(ch, &mechs::ALL);
    let cb = ch.flip();
    let n = ch.choose(if ch.thorough { 4 } else { 3 });
    let mut offers: Vec<&str> = vec![];
    let mut from = 0;
    for _ in 0..n {
        if from >= mechs::ALL.len() {
            break;
        }
        let i = from + ch.choose(mechs::ALL.len() - from);
        offers.push(mechs::ALL[i]);
        from = i + 1;
    }
    choose_and_check(ch, &reg, mechs::reg(&reg), &[], &offers, cb, PREFS[0]);
}

fn long(ch: &mut Ch) {
    let lens: &[usize] = if ch.thorough { &[1, 5, 8, 9, 10, 12, 13, 14, 16, 17, 20, 32, 33, 40, 64, 65, 100, 128, 255, 256, 257, 1000] } else { &[5, 9, 14, 20, 40] };
    let n = *ch.pick(lens);
    let reg: [&[&str]; 3] = [&["LOGIN", "SCRAM-SHA-256"], &["SCRAM-SHA-256", "SCRAM-SHA-1-PLUS", "LOGIN"], &mechs::ALL];
    let reg = *ch.pick(&reg);
    let filler = ch.choose(4);
    let unknown: Vec<String> = (0..n).map(|i| format!("X-{i}")).collect();
    let mut offers: Vec<&str> = (0..n)
        .map(|i| match filler {
            0 => &unknown[i][..],
            1 => "LOGIN",
            2 => ["GS2-KRB5", "GS2-KRB5-PLUS", "DIGEST-MD5", "CRAM-MD5", "NTLM", "SCRAM-SHA-256-PL"][i % 6],
            _ => ["X", "LOGIN", "ANONYMOUS"][i % 3],
        })
        .collect();
    offers[0] = if ch.flip() { "LOGIN" } else { offers[0] };
    let at = ch.choose(n + 1);
    if at < n {
        offers[at] = "SCRAM-SHA-256";
    }
    let cb = ch.flip();
    let pref = *ch.pick(&PREFS[..2]);
    choose_and_check(ch, reg, mechs::reg(reg), &[], &offers, cb, pref);
}

fn very_long(ch: &mut Ch) {
    static N: OnceLock<Vec<String>> = OnceLock::new();
    let unknown = N.get_or_init(|| (0..100_000).map(|i| format!("X-{i}")).collect());
    let lens: &[usize] = if ch.thorough { &[64, 100, 128, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4096, 5000, 10_000, 65_535, 65_536, 65_537, 100_000] } else { &[64, 100, 128, 256, 257, 512, 1000, 1025, 5000] };
    let n = *ch.pick(lens);
    let reg: [&[&str]; 2] = [&["LOGIN", "SCRAM-SHA-256"], &mechs::ALL];
    let reg = *ch.pick(&reg);
    let filler = ch.choose(3);
    let mut offers: Vec<&str> = (0..n)
        .map(|i| match filler {
            0 => &unknown[i][..],
            1 => "LOGIN",
            _ => ["X", "LOGIN", "GS2-KRB5"][i % 3],
        })
        .collect();
    if let Some(at) = *ch.pick(&[Some(0), Some(1), Some(n / 2), Some(n - 2), Some(n - 1), None]) {
        offers[at] = "SCRAM-SHA-256";
    }
    let cb = ch.flip();
    choose_and_check(ch, reg, mechs::reg(reg), &[], &offers, cb, PREFS[0]);
}

// custom mechanisms, all speaking PLAIN
struct Both;
impl Named for Both {
    fn mech() -> &'static Mechanism {
        static M: OnceLock<Mechanism> = OnceLock::new();
        M.get_or_init(both)
    }
}
fn both() -> Mechanism {
    Mechanism::build(
        mechs::name("X-BOTH"),
        1000,
        Some(|| PLAIN.client().unwrap()),
        Some(|c| PLAIN.server(c).unwrap()),
        Side::Client,
        |_| Some(Matches::<Both>::name()),
        |_| true,
    )
}
struct Cli;
impl Named for Cli {
    fn mech() -> &'static Mechanism {
        static M: OnceLock<Mechanism> = OnceLock::new();
        M.get_or_init(cli)
    }
}
fn cli() -> Mechanism {
    Mechanism::build(
        mechs::name("X-CLIENT"),
        1100,
        Some(|| PLAIN.client().unwrap()),
        None,
        Side::Client,
        |_| Some(Matches::<Cli>::name()),
        |_| true,
    )
}
fn srv() -> Mechanism {
    Mechanism::build(
        mechs::name("X-SERVER"),
        1200,
        None,
        Some(|c| PLAIN.server(c).unwrap()),
        Side::Client,
        |_| None,
        |_| true,
    )
}
const CUSTOM: [&str; 4] = ["X-BOTH", "X-CLIENT", "X-SERVER", "PLAIN"];
fn custom_reg(ch: &mut Ch) -> (Vec<&'static str>, &'static [Mechanism]) {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static C: OnceLock<Mutex<HashMap<String, &'static [Mechanism]>>> = OnceLock::new();
    let mut names = subset(ch, &CUSTOM);
    if names.len() > 1 && ch.flip() {
        names.reverse();
    }
    let mut g = C.get_or_init(Default::default).lock().unwrap();
    let m = *g.entry(names.join(" ")).or_insert_with(|| {
        let v: Vec<Mechanism> = names
            .iter()
            .map(|n| match *n {
                "X-BOTH" => both(),
                "X-CLIENT" => cli(),
                "X-SERVER" => srv(),
                _ => PLAIN,
            })
            .collect();
        Vec::leak(v)
    });
    (names, m)
}
fn custom_rank_ok(m: &str, cand: &[&str]) -> bool {
    // X-CLIENT over X-BOTH over PLAIN
    let r = |m: &str| match m {
        "X-CLIENT" => 2,
        "X-BOTH" => 1,
        _ => 0,
    };
    cand.iter().all(|c| r(c) <= r(m))
}
fn custom_client(ch: &mut Ch) {
    let (names, reg) = custom_reg(ch);
    let cb = ch.flip();
    let n = ch.choose(if ch.thorough { 6 } else { 5 });
    let offers: Vec<&str> = (0..n).map(|_| *ch.pick(&["X-BOTH", "X-CLIENT", "X-SERVER", "PLAIN", "X-OTHER"])).collect();
    // preference by name: X-SERVER would win if it were considered
    let p = if ch.flip() { PREFS[1] } else { ("custom", p_default as Pref) };
    if p.0 == "last" {
        choose_and_check(ch, &names, reg, &["X-SERVER"], &offers, cb, p);
        return;
    }
    let cand: Vec<&str> = names.iter().filter(|m| **m != "X-SERVER" && offers.contains(m)).copied().collect();
    let r = client_cfg(App { enable_cb: cb, ..rich_client() }.config(reg), &offers, exporter());
    ch.step();
    match r {
        Ok(p) => {
            let m = p.mech().to_string();
            ch.obs(&(names.join(" "), offers.join(" "), &m));
            ch.check(cand.contains(&m.as_str()) && custom_rank_ok(&m, &cand), "custom", || {
                format!("enabled {names:?}, offered {offers:?}: chose {m}")
            });
            ch.outcome(m);
        }
        Err(e) => {
            ch.check(cand.is_empty() && matches!(e, SASLError::NoSharedMechanism), "custom-refused", || {
                format!("enabled {names:?}, offered {offers:?}: {e:?}")
            });
            ch.outcome("none");
        }
    }
}

/// A registry slice that is made once for every key
fn interned(key: String, make: impl FnOnce() -> Vec<Mechanism>) -> &'static [Mechanism] {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static C: OnceLock<Mutex<HashMap<String, &'static [Mechanism]>>> = OnceLock::new();
    let mut g = C.get_or_init(Default::default).lock().unwrap();
    g.entry(key).or_insert_with(|| Vec::leak(make()))
}

/// Custom mechanisms: the number of one determines its name and priority
const PRIS: [usize; 12] = [0, 1, 255, 256, 32767, 65535, 65536, 65537, 1 << 31, u32::MAX as usize, 1 << 32, usize::MAX];
const LEN0: usize = PRIS.len();
struct Custom<const I: usize>;
impl<const I: usize> Named for Custom<I> {
    fn mech() -> &'static Mechanism {
        &custom_table()[I]
    }
}
/// First one for every priority, then one with a name of every length
fn custom_name(i: usize) -> &'static str {
    static N: OnceLock<Vec<String>> = OnceLock::new();
    &N.get_or_init(|| (0..LEN0).map(|i| format!("X-P{i}")).chain((1..=20).map(|n| "L".repeat(n))).collect())[i]
}
fn custom_table() -> &'static [Mechanism] {
    static T: OnceLock<Vec<Mechanism>> = OnceLock::new();
    fn mk<const I: usize>() -> Mechanism {
        Mechanism::build(
            mechs::name(custom_name(I)),
            PRIS.get(I).copied().unwrap_or(1000),
            Some(|| PLAIN.client().unwrap()),
            Some(|c| PLAIN.server(c).unwrap()),
            Side::Client,
            |_| Some(Matches::<Custom<I>>::name()),
            |_| true,
        )
    }
    macro_rules! all { ($($i:literal)*) => { vec![$(mk::<$i>()),*] } }
    T.get_or_init(|| all!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31))
}
fn priorities(ch: &mut Ch) {
    let n = 2 + ch.choose(if ch.thorough { 3 } else { 2 });
    let mut order: Vec<usize> = vec![];
    for _ in 0..n {
        let left: Vec<usize> = (0..PRIS.len()).filter(|i| !order.contains(i)).collect();
        order.push(left[ch.choose(left.len())]);
    }
    let mut offer = order.clone();
    match ch.choose(3) {
        0 => {}
        1 => offer.reverse(),
        _ => offer.rotate_left(1),
    }
    // a built-in one with the priority 300
    let plain = ch.flip();
    let mut offers: Vec<&str> = offer.iter().map(|i| custom_name(*i)).collect();
    let mut best = order.iter().map(|i| (PRIS[*i], custom_name(*i))).max().unwrap();
    if plain {
        offers.insert(1, "PLAIN");
        best = best.max((300, "PLAIN"));
    }
    let reg = interned(format!("priorities {order:?} {plain}"), || {
        let mut v: Vec<Mechanism> = order.iter().map(|i| custom_table()[*i]).collect();
        if plain {
            v.insert(1, PLAIN);
        }
        v
    });
    let r = client_cfg(rich_client().config(reg), &offers, exporter());
    ch.step();
    let got = r.as_ref().map(|p| p.mech().to_string()).map_err(|e| format!("{e:?}"));
    ch.obs(&(&offers, &got));
    let pr: Vec<usize> = order.iter().map(|i| PRIS[*i]).collect();
    ch.log(|| format!("priorities {pr:?}, PLAIN {plain}, offered {offers:?} -> {got:?}"));
    ch.check(got.as_deref() == Ok(best.1), "priority", || {
        format!("priorities {pr:?}{}, offered {offers:?}: {got:?} instead of {} with the priority {}", if plain { " and PLAIN" } else { "" }, best.1, best.0)
    });
    ch.outcome("the highest");
}
fn name_lengths(ch: &mut Ch) {
    let n = 1 + ch.choose(20);
    // the name that is wanted
    let wanted = match ch.choose(3) {
        0 => "SCRAM-SHA-512-PLUS",
        1 => "PLAIN",
        _ => custom_name(LEN0 + ch.choose(20)),
    };
    let alphabet: &[u8] = ch.pick::<&[u8]>(&[b"X", b"X-ANY_NAME0123456789", b"PLAIN-OR-NOT_PLAIN99", b"LLLLLLLLLLLLLLLLLLLX"]);
    let unknown: String = (0..n).map(|i| alphabet[i % alphabet.len()] as char).collect();
    let known = |m: &str| m == "PLAIN" || m == "SCRAM-SHA-512-PLUS" || m.bytes().all(|b| b == b'L');
    if known(&unknown) || rsasl::prelude::Mechname::parse(unknown.as_bytes()).is_err() {
        return;
    }
    let copies = *ch.pick(&[1, 2, 7, 20]);
    let mut offers: Vec<&str> = vec![&unknown; copies];
    let at = *ch.pick(&[0, copies / 2, copies]);
    offers.insert(at, wanted);
    let reg = interned("lengths".into(), || {
        let mut v = custom_table()[LEN0..].to_vec();
        v.insert(3, PLAIN);
        v.push(mechs::desc("SCRAM-SHA-512-PLUS"));
        v
    });
    let r = client_cfg(App { enable_cb: true, ..rich_client() }.config(reg), &offers, exporter());
    ch.step();
    let got = r.as_ref().map(|p| p.mech().to_string()).map_err(|e| format!("{e:?}"));
    ch.obs(&(&offers, &got));
    ch.log(|| format!("offered {offers:?} -> {got:?}"));
    ch.check(got.as_deref() == Ok(wanted), "lengths", || format!("offered {offers:?}: {got:?}"));
    ch.outcome("chosen");
}

/// Both ends complete, exactly one validation
fn completes(ch: &mut Ch, what: &str, c: Party, s: Party, sapp: &App) {
    let mut d = Duo { c, s };
    let r = d.run(ch);
    if !(r.both_finished() && r.anomaly.is_none() && sapp.n_val() == 1) {
        ch.fail("exchange", format!("{what}: the exchange does not complete: {r:?}, {} validations", sapp.n_val()));
    }
}
fn runs(ch: &mut Ch) {
    fakegss::configure(fakegss::Cfg::default());
    let cb = ch.flip();
    let i = ch.choose(13);
    let j = i + ch.choose(13 - i);
    let mut offers = vec![mechs::ALL[i], mechs::ALL[j]];
    let order = ch.flip();
    if order {
        offers.reverse();
    }
    let pref = *ch.pick(&PREFS[..3]);
    let Some(c) = choose_and_check(ch, &mechs::ALL, mechs::reg(&mechs::ALL), &[], &offers, cb, pref) else {
        return;
    };
    let m = c.mech().to_string();
    let sapp = rich_server();
    // the server that made these offers
    let Ok(s) = server_cfg(sapp.config(mechs::reg(&offers)), &m, exporter()) else {
        ch.fail("server", format!("a server offering {offers:?} does not start {m}"));
        return;
    };
    completes(ch, &m, c, s, &sapp);
}

// --------------------------------------------------------------------------------------- C07

fn listed(cfg: &Arc<SASLConfig>) -> Vec<String> {
    let s = rsasl::prelude::SASLServer::<crate::app::TV>::new(cfg.clone());
    let mut v: Vec<String> = s.get_available().into_iter().map(|m| m.mechanism.as_str().to_string()).collect();
    v.sort();
    v
}
fn variants() -> &'static [String] {
    static V: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let mut v = vec![];
        for m in mechs::ALL {
            v.push(m[..m.len() - 1].to_string());
            v.push(m[1..].to_string());
            v.push(format!("{m}X"));
            v.push(format!("X{m}"));
            v.push(format!("{m}-PLUS"));
            v.push(m.replace('-', "_"));
        }
        v.push("X".into());
        v.retain(|x| !mechs::ALL.contains(&x.as_str()));
        v.sort();
        v.dedup();
        v
    })
}
fn start_each(ch: &mut Ch, cfg: &Arc<SASLConfig>, startable: &[&str], names: &[&str]) {
    let mut want: Vec<String> = startable.iter().map(|s| s.to_string()).collect();
    want.sort();
    let got = listed(cfg);
    ch.obs(&got);
    ch.step();
    ch.log(|| format!("configured [{}], offered [{}]", startable.join(" "), got.join(" ")));
    ch.check(got == want, "list", || format!("configured with server side [{}], listed [{}]", want.join(" "), got.join(" ")));
    for n in names {
        ch.step();
        match server_cfg(cfg.clone(), n, exporter()) {
            Ok(p) => {
                ch.check(startable.contains(n), "started", || format!("{n} was started, configured are [{}]", startable.join(" ")));
                ch.check(p.mech() == *n, "wrong-name", || format!("asked for {n}, started {}", p.mech()));
                ch.check(!p.is_client() && p.first() == mechs::server_first(n), "wrong-side", || {
                    format!("{n}: the server session says first={}", p.first())
                });
            }
            Err(e) => {
                ch.check(!startable.contains(n), "not-started", || format!("{n} is configured, but not started: {e:?}"));
                ch.check(matches!(e, SASLError::NoSharedMechanism), "wrong-error", || format!("{n}: {e:?}"));
            }
        }
    }
}
fn lists(ch: &mut Ch) {
    let mut reg = subset(ch, &mechs::ALL);
    if reg.len() > 1 {
        match ch.choose(3) {
            1 => reg.reverse(),
            2 => {
                let h = reg.len() / 2;
                reg.rotate_left(h);
            }
            _ => {}
        }
    }
    let cb = ch.flip();
    let cfg = App { enable_cb: cb, ..rich_server() }.config(mechs::reg(&reg));
    let mut names: Vec<&str> = mechs::ALL.to_vec();
    let vs = variants();
    if ch.thorough || reg.len() <= 3 || reg.len() == 13 {
        names.extend(vs.iter().map(String::as_str));
    } else {
        // a different slice for every registry
        names.extend(vs.iter().skip(reg.len() * 5).take(8).map(String::as_str));
    }
    start_each(ch, &cfg, &reg, &names);
    ch.outcome(format!("{} mechanisms", reg.len()));
}
fn custom_server(ch: &mut Ch) {
    let (names, reg) = custom_reg(ch);
    let cfg = rich_server().config(reg);
    let startable: Vec<&str> = names.iter().filter(|n| **n != "X-CLIENT").copied().collect();
    start_each(ch, &cfg, &startable, &["X-BOTH", "X-CLIENT", "X-SERVER", "PLAIN", "X-", "X-BOTHX", "LOGIN"]);
    ch.outcome(names.join(" "));
    // the started session works
    for n in startable {
        let sapp = rich_server();
        if let Ok(s) = server_cfg(sapp.config(reg), n, exporter()) {
            completes(ch, n, Party::client(&rich_client(), "PLAIN", exporter()), s, &sapp);
        }
    }
}
fn many(ch: &mut Ch) {
    static N: OnceLock<Vec<String>> = OnceLock::new();
    let names = N.get_or_init(|| (0..300).map(|i| format!("Z-{i}")).collect());
    let counts: &[usize] = if ch.thorough { &[1, 7, 8, 9, 12, 13, 14, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 70, 127, 128, 129, 255, 256, 257, 300] } else { &[7, 8, 9, 13, 14, 15, 16, 17, 20, 31, 32, 33, 64, 65, 70] };
    let n = *ch.pick(counts);
    // which of them have a server side
    let kind = ch.choose(3);
    let has = |i: usize| match kind {
        0 => true,
        1 => i % 2 == 0,
        _ => i + 1 == n,
    };
    let at = ch.choose(n + 2);
    let reg = interned(format!("many {n} {kind} {at}"), || {
        let mut v: Vec<Mechanism> = (0..n)
            .map(|i| custom_any(&names[i], has(i)))
            .collect();
        if at <= n {
            v.insert(at, PLAIN);
        }
        v
    });
    let mut startable: Vec<&str> = (0..n).filter(|i| has(*i)).map(|i| &names[i][..]).collect();
    if at <= n {
        startable.push("PLAIN");
    }
    let mut ask: Vec<&str> = names[..n].iter().map(|x| &x[..]).collect();
    ask.extend(["PLAIN", "LOGIN", "Z-", "Z"]);
    let cfg = rich_server().config(reg);
    start_each(ch, &cfg, &startable, &ask);
    ch.outcome(format!("{n} mechanisms"));
}
fn custom_any(name: &'static str, server: bool) -> Mechanism {
    if server {
        Mechanism::build(mechs::name(name), 1000, None, Some(|c| PLAIN.server(c).unwrap()), Side::Client, |_| None, |_| true)
    } else {
        Mechanism::build(mechs::name(name), 1000, Some(|| PLAIN.client().unwrap()), None, Side::Client, |_| None, |_| true)
    }
}
fn exchange(ch: &mut Ch) {
    fakegss::configure(fakegss::Cfg::default());
    let m = *ch.pick(mechs::all());
    let reg: Vec<&str> = match ch.choose(if ch.thorough { 6 } else { 4 }) {
        0 => vec![m],
        1 => mechs::ALL.to_vec(),
        2 => mechs::ALL.iter().rev().copied().collect(),
        3 => {
            let o = *ch.pick(mechs::all());
            if o == m {
                return;
            }
            if ch.flip() {
                vec![o, m]
            } else {
                vec![m, o]
            }
        }
        _ => {
            let (a, b) = (*ch.pick(mechs::all()), *ch.pick(mechs::all()));
            if a == m || b == m || a == b {
                return;
            }
            vec![a, m, b]
        }
    };
    let sapp = rich_server();
    let Ok(s) = server_cfg(sapp.config(mechs::reg(&reg)), m, exporter()) else {
        ch.fail("not-started", format!("{m} of [{}] is not started", reg.join(" ")));
        return;
    };
    // the client must not claim that the server lacks channel binding if the server has it
    let c = Party::client(&rich_client(), m, exporter());
    completes(ch, m, c, s, &sapp);
    ch.outcome(m);
    if ch.failed() {
        return;
    }
    // a client of another family does not complete
    let o = *ch.pick(mechs::all());
    let family = |x: &str| x.replace("-PLUS", "");
    let same = family(o) == family(m)
        || ["ANONYMOUS", "EXTERNAL"].contains(&m) // accept any text
        || (o == "LOGIN") != (m == "LOGIN"); // different sides go first
    if same {
        return;
    }
    let sapp = App { vmode: crate::app::VMode::Db, ..rich_server() };
    let s = server_cfg(sapp.config(mechs::reg(&reg)), m, exporter());
    if let Ok(s) = s {
        let mut d = Duo { c: Party::client(&rich_client(), o, exporter()), s };
        let r = d.run(ch);
        ch.check(!r.both_finished(), "wrong-mechanism", || format!("a {o} client completes with a server started for {m}: {r:?}"));
    }
}

const BUILTIN: [&str; 9] =
    ["SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER"];
const CRED: [&str; 4] = ["SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN"];

fn check_list(ch: &mut Ch, what: &str, got: &[String]) {
    let has = |m: &str| got.iter().any(|g| g == m);
    match what {
        "defaults" | "default_mechanisms" => {
            for m in BUILTIN {
                ch.check(has(m), "default-missing", || format!("{what}: {m} is missing in {got:?}"));
            }
            for g in got {
                ch.check(mechs::ALL.contains(&g.as_str()), "default-unknown", || format!("{what}: {g}"));
            }
        }
        _ => {
            let mut want: Vec<&str> = CRED.to_vec();
            if what == "credentials" {
                want.push("LOGIN");
            }
            want.sort_unstable();
            let mut g: Vec<&str> = got.iter().map(String::as_str).collect();
            g.sort_unstable();
            ch.check(g == want, "credentials", || format!("{what}: {g:?}, expected {want:?}"));
        }
    }
    let mut d = got.to_vec();
    d.sort();
    d.dedup();
    ch.check(d.len() == got.len(), "duplicates", || format!("{what}: {got:?}"));
}
fn ready(ch: &mut Ch) {
    let what = *ch.pick(&["defaults", "default_mechanisms", "credentials", "credentials+authzid"]);
    let app = rich_server();
    let cfg = match what {
        "defaults" => SASLConfig::builder().with_defaults().with_callback(app.clone()),
        "default_mechanisms" => SASLConfig::builder().with_default_mechanisms().with_callback(app.clone()),
        "credentials" => SASLConfig::with_credentials(None, "user".into(), "pencil".into()),
        _ => SASLConfig::with_credentials(Some("z".into()), "user".into(), "pencil".into()),
    };
    let Ok(cfg) = cfg else {
        ch.fail("config", format!("{what}: cannot be built"));
        return;
    };
    let l = listed(&cfg);
    check_list(ch, what, &l);
    let ls: Vec<&str> = l.iter().map(String::as_str).collect();
    let mut names: Vec<&str> = mechs::ALL.to_vec();
    names.extend(variants().iter().map(String::as_str));
    start_each(ch, &cfg, &ls, &names);
    ch.outcome(format!("{what}: {}", ls.join(" ")));
    // every listed mechanism can be used as a client too, by exactly its name
    for m in mechs::ALL {
        match client_cfg(cfg.clone(), &[m], exporter()) {
            Ok(p) => {
                ch.check(ls.contains(&m) && p.mech() == m, "client", || format!("{what}: the client starts {} for {m}", p.mech()));
            }
            Err(_) => {
                ch.check(!ls.contains(&m), "client", || format!("{what}: the client does not start {m}"));
            }
        }
    }
    // and the exchange completes with the defaults
    if what.starts_with("default") {
        fakegss::configure(fakegss::Cfg::default());
        for m in &ls {
            let sapp = rich_server();
            let cfg = SASLConfig::builder().with_registry(Registry::default()).with_callback(sapp.clone()).unwrap();
            if let Ok(s) = server_cfg(cfg, m, exporter()) {
                completes(ch, m, Party::client(&rich_client(), m, exporter()), s, &sapp);
            }
        }
    }
}

fn static_registry(ch: &mut Ch) {
    let what = *ch.pick(&["defaults", "default_mechanisms", "credentials", "credentials+authzid"]);
    let bin = std::env::var("MC_STATIC").expect("MC_STATIC: the build with the link-time registry");
    static OUT: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let out = OUT.get_or_init(|| {
        let o = std::process::Command::new(bin).output().expect("mcstatic");
        assert!(o.status.success(), "mcstatic failed: {}", String::from_utf8_lossy(&o.stderr));
        String::from_utf8_lossy(&o.stdout).into_owned()
    });
    let line = out.lines().find_map(|l| l.strip_prefix(&format!("{what}: "))).unwrap_or("");
    let l: Vec<String> = line.split(' ').filter(|x| !x.is_empty()).map(String::from).collect();
    ch.step();
    ch.obs(&(what, &l));
    ch.log(|| format!("{what}: {line}"));
    check_list(ch, what, &l);
    ch.outcome(format!("{what}: {line}"));
    let _ = R::Running;
}
