//! C21: sessions that share a configuration.
//!
//! One configuration (all mechanisms, one callback) serves every session of an execution.  The
//! callback finds out which session is asking by a thread local, as an application would that sets
//! it around each step.  The reference for each kind of session is its transcript when it is the
//! only one of a fresh process.
use super::scram::user;
use super::util::*;
use super::{tree, Check};
use crate::app::{App, Ev, VMode, P, V};
use crate::drive::{client_cfg, server_cfg, shape, Cb, Party, R};
use crate::explore::{self, Ch, Lib};
use crate::fakegss;
use crate::mechs;
use rsasl::callback::{Context, Request, SessionCallback, SessionData};
use rsasl::prelude::*;
use rsasl::validate::{Validate, ValidationError};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::io::Write;
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::Duration;

pub fn add(v: &mut Vec<Check>) {
    v.push(Check {
        id: "C21",
        trees: vec![
            tree("pairs", "all interleavings of the steps of two exchanges, for every ordered pair of kinds of exchange", (0, 0), pairs),
            tree("triples", "all interleavings of the steps of three exchanges (reduced kinds)", (0, 0), triples),
            tree("nested", "a whole exchange, or one more step of it, inside every callback, validation or write of another, for every ordered pair of kinds", (0, 0), nested),
            tree("threads", "two exchanges on two threads, switched at any step, callback, validation or write, up to the number of preemptions", (1, 2), threads),
            tree("preemptions", "the same, reduced kinds, more preemptions", (2, 3), preemptions),
            tree("three threads", "three exchanges on three threads, reduced kinds", (1, 2), three),
            tree("abandoned", "exchanges abandoned at every point, then every kind of exchange", (0, 0), abandoned),
            tree("hostile", "every byte of every message of an exchange removed or replaced, then every kind of exchange of the same mechanism, and the same again", (0, 0), hostile),
            tree("crowds", "up to 200 exchanges open at once, stepped in several orders", (0, 0), crowds),
            tree("handles", "configurations shared by clones of the handle, dropped in every order while sessions run", (0, 0), handles),
        ],
        assumptions: &[
            "threads switch at the points where the library calls the application, the writer or returns; races within the library between such points are not explored",
        ],
    });
}

// ---------------------------------------------------------------------------------------------
// the shared callback

thread_local! {
    static CUR: RefCell<Vec<Arc<App>>> = const { RefCell::new(vec![]) };
}
/// with or without channel binding
struct Router(bool);
fn cur() -> Option<Arc<App>> {
    CUR.with(|c| c.borrow().last().cloned())
}
fn asking() -> Arc<App> {
    cur().expect("src/: a callback without a session being stepped")
}
impl SessionCallback for Router {
    fn callback(&self, sd: &SessionData, ctx: &Context<'_>, r: &mut Request<'_>) -> Result<(), SessionError> {
        asking().callback(sd, ctx, r)
    }
    fn enable_channel_binding(&self) -> bool {
        if let Some(h) = cur().and_then(|a| a.hook.clone()) {
            h("enable");
        }
        cur().and_then(|a| a.bind).unwrap_or(self.0)
    }
    fn prefer<'a>(&self, a: Option<&'a Mechanism>, b: &'a Mechanism) -> Ordering {
        let Some(app) = cur() else { return App::default().prefer(a, b) };
        if let Some(h) = &app.hook {
            h("prefer");
        }
        app.prefer(a, b)
    }
    fn validate(&self, sd: &SessionData, ctx: &Context<'_>, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        asking().validate(sd, ctx, v)
    }
}
fn shared(bind: bool) -> Arc<SASLConfig> {
    SASLConfig::builder().with_registry(Registry::with_mechanisms(mechs::reg(&mechs::ALL))).with_callback(Router(bind)).lib("no configuration")
}
fn as_app<T>(a: &Arc<App>, f: impl FnOnce() -> T) -> T {
    struct Pop;
    impl Drop for Pop {
        fn drop(&mut self) {
            CUR.with(|c| c.borrow_mut().pop());
        }
    }
    CUR.with(|c| c.borrow_mut().push(a.clone()));
    let _p = Pop;
    f()
}

// ---------------------------------------------------------------------------------------------
// kinds of exchange

/// What happens to the messages
#[derive(Clone, Copy, PartialEq, Debug)]
enum Net {
    Honest,
    /// the message with this number gets its last byte changed
    Damaged(usize),
    /// the step with this number is first called without input
    Starved(usize),
    /// in the message with this number, something is done to the byte at this position
    Hostile(usize, usize, usize),
}
#[derive(Clone)]
struct Kind {
    name: String,
    offers: Vec<&'static str>,
    mech: &'static str,
    capp: App,
    sapp: App,
    ccb: Cb,
    scb: Cb,
    gss: fakegss::Cfg,
    net: Net,
}
fn kind(name: &str, mech: &'static str, f: impl FnOnce(&mut Kind)) -> Kind {
    let mut capp = rich_client();
    capp.authid = Some("user".into());
    let cb = if mechs::is_plus(mech) { exporter() } else { Cb(vec![]) };
    let mut k = Kind {
        name: format!("{mech} {name}"),
        offers: vec![mech],
        mech,
        capp,
        sapp: App { vmode: VMode::Db, ..rich_server() },
        ccb: cb.clone(),
        scb: cb,
        gss: fakegss::Cfg::default(),
        net: Net::Honest,
    };
    f(&mut k);
    k
}
fn pw(k: &mut Kind, u: &str, c: &str, s: &str, salt: &[u8], it: u32) {
    k.capp.authid = Some(u.into());
    k.capp.password = Some(c.as_bytes().to_vec());
    k.sapp.db = vec![user(u, s.as_bytes(), salt, it)];
}
/// The kinds; the first `CORE` of them suffice for the deeper explorations.
fn kinds() -> &'static [Kind] {
    static K: OnceLock<Vec<Kind>> = OnceLock::new();
    K.get_or_init(|| {
        let mut core = vec![];
        let mut v = vec![];
        for (i, m) in mechs::SCRAM.iter().copied().enumerate() {
            let main = m == "SCRAM-SHA-256" || m == "SCRAM-SHA-256-PLUS";
            let good = kind("good", m, |k| pw(k, "user", "pencil", "pencil", b"salt", 2));
            let wrong = kind("wrong password", m, |k| pw(k, "user", "pencil", "other", b"salt", 2));
            let own = kind("own password", m, |k| pw(k, "user", "other", "other", b"salt", 2));
            if i == 2 {
                core.push(good);
                core.push(wrong);
                core.push(own);
            } else {
                v.push(good);
                v.push(wrong);
                if main {
                    v.push(own);
                }
            }
            if i == 3 {
                core.push(kind("other data", m, |k| {
                    k.ccb = Cb(vec![("tls-exporter".into(), b"second".to_vec())]);
                    k.scb = k.ccb.clone();
                    pw(k, "user", "pencil", "pencil", b"salt", 2);
                }));
                v.push(kind("data of another", m, |k| {
                    k.ccb = Cb(vec![("tls-exporter".into(), b"second".to_vec())]);
                    pw(k, "user", "pencil", "pencil", b"salt", 2);
                }));
                v.push(kind("tls-unique", m, |k| {
                    k.ccb = Cb(vec![("tls-unique".into(), b"u".to_vec())]);
                    k.scb = k.ccb.clone();
                    k.capp.override_cb = Some("tls-unique".into());
                    pw(k, "user", "pencil", "pencil", b"salt", 2);
                }));
                v.push(kind("data from the application", m, |k| {
                    k.ccb = Cb(vec![]);
                    k.scb = Cb(vec![]);
                    k.capp.cbdata = vec![("tls-exporter".into(), b"app".to_vec()), ("tls-unique".into(), b"app".to_vec())];
                    k.sapp.cbdata = k.capp.cbdata.clone();
                    pw(k, "user", "pencil", "pencil", b"salt", 2);
                }));
            }
            if i == 2 {
                v.push(kind("other salt", m, |k| pw(k, "user", "pencil", "pencil", b"pepper", 2)));
                v.push(kind("other iterations", m, |k| pw(k, "user", "pencil", "pencil", b"salt", 3)));
                v.push(kind("other user", m, |k| pw(k, "use", "pencil", "pencil", b"salt", 2)));
                v.push(kind("authorization identity", m, |k| {
                    pw(k, "user", "pencil", "pencil", b"salt", 2);
                    k.capp.authzid = Some("zed".into());
                }));
                v.push(kind("unknown user", m, |k| {
                    pw(k, "nobody", "pencil", "pencil", b"salt", 2);
                    k.sapp.db = vec![];
                }));
                v.push(kind("account removed", m, |k| {
                    pw(k, "user", "pencil", "pencil", b"salt", 2);
                    k.sapp.db = vec![];
                }));
                v.push(kind("damaged final", m, |k| {
                    pw(k, "user", "pencil", "pencil", b"salt", 2);
                    k.net = Net::Damaged(2);
                }));
                v.push(kind("damaged signature", m, |k| {
                    pw(k, "user", "pencil", "pencil", b"salt", 2);
                    k.net = Net::Damaged(3);
                }));
                v.push(kind("cached keys", m, |k| {
                    pw(k, "user", "pencil", "pencil", b"salt", 2);
                    let h = crate::refscram::Hash::of_mech(m).unwrap();
                    let sp = h.hi(b"pencil", b"salt", 2);
                    k.capp.password = None;
                    k.capp.cached = Some((h.client_key(&sp), h.server_key(&sp)));
                }));
                v.push(kind("validation fails", m, |k| {
                    pw(k, "user", "pencil", "pencil", b"salt", 2);
                    k.sapp.vmode = VMode::FailBoxed;
                }));
                v.push(kind("starved", m, |k| {
                    pw(k, "user", "pencil", "pencil", b"salt", 2);
                    k.net = Net::Starved(2);
                }));
            }
        }
        core.push(kind("good", "PLAIN", |k| pw(k, "user", "pencil", "pencil", b"s", 1)));
        core.push(kind("wrong password", "PLAIN", |k| pw(k, "user", "pencil", "other", b"s", 1)));
        v.push(kind("other user", "PLAIN", |k| {
            pw(k, "second", "pw2", "pw2", b"s", 1);
            k.capp.authzid = Some("zed".into());
        }));
        v.push(kind("own password", "PLAIN", |k| pw(k, "user", "other", "other", b"s", 1)));
        v.push(kind("identity, no password", "PLAIN", |k| {
            k.capp.authzid = Some("admin".into());
            k.capp.password = None;
        }));
        v.push(kind("validation fails", "PLAIN", |k| {
            pw(k, "user", "pencil", "pencil", b"s", 1);
            k.sapp.vmode = VMode::FailBoxed;
        }));
        v.push(kind("no password", "PLAIN", |k| k.capp.password = None));
        v.push(kind("callback fails", "PLAIN", |k| k.capp.faults = vec![(0, crate::app::Fault::Err(crate::app::EK::Boxed))]));
        core.push(kind("good", "LOGIN", |k| pw(k, "user", "pencil", "pencil", b"s", 1)));
        core.push(kind("other user", "LOGIN", |k| pw(k, "second", "pw2", "pw2", b"s", 1)));
        v.push(kind("wrong password", "LOGIN", |k| pw(k, "user", "pencil", "other", b"s", 1)));
        v.push(kind("validation fails", "LOGIN", |k| {
            pw(k, "user", "pencil", "pencil", b"s", 1);
            k.sapp.vmode = VMode::FailBoxed;
        }));
        v.push(kind("validation fails", "ANONYMOUS", |k| k.sapp.vmode = VMode::FailBoxed));
        v.push(kind("validation fails", "EXTERNAL", |k| {
            k.capp.authzid = Some("first".into());
            k.sapp.vmode = VMode::FailBoxed;
        }));
        v.push(kind("value a", "ANONYMOUS", |k| k.sapp.vmode = VMode::Set("a")));
        v.push(kind("value b", "ANONYMOUS", |k| {
            k.capp.anon = Some("second".into());
            k.sapp.vmode = VMode::Set("b");
        }));
        v.push(kind("no value", "ANONYMOUS", |k| k.sapp.vmode = VMode::Nothing));
        v.push(kind("first", "EXTERNAL", |k| k.capp.authzid = Some("first".into())));
        v.push(kind("second", "EXTERNAL", |k| k.capp.authzid = Some("second".into())));
        v.push(kind("none", "EXTERNAL", |_| {}));
        core.push(kind("accepted", "XOAUTH2", |_| {}));
        core.push(kind("refused", "XOAUTH2", |k| k.sapp.xverdict = Some(Err("{\"status\":\"401\"}".into()))));
        v.push(kind("other token refused", "XOAUTH2", |k| {
            k.capp.token = Some("other".into());
            k.sapp.xverdict = Some(Err("no".into()));
        }));
        v.push(kind("token of another", "XOAUTH2", |k| k.capp.authid = Some("second".into())));
        v.push(kind("validation fails", "XOAUTH2", |k| k.sapp.vmode = VMode::FailBoxed));
        v.push(kind("other token", "XOAUTH2", |k| {
            k.capp.token = Some("second".into());
            k.capp.authid = Some("second".into());
        }));
        v.push(kind("accepted", "OAUTHBEARER", |_| {}));
        v.push(kind("refused", "OAUTHBEARER", |k| k.sapp.overdict = Some(Err(("invalid".into(), Some("s".into()), None)))));
        v.push(kind("token of another", "OAUTHBEARER", |k| k.capp.authzid = Some("second".into())));
        v.push(kind("validation fails", "OAUTHBEARER", |k| k.sapp.vmode = VMode::FailBoxed));
        v.push(kind("fields", "OAUTHBEARER", |k| {
            k.capp.kv = Some(vec![("host".into(), "h2".into())]);
            k.capp.authzid = Some("zed".into());
            k.capp.token = Some("second".into());
        }));
        core.push(kind("confidentiality", "GSSAPI", |_| {}));
        v.push(kind("integrity", "GSSAPI", |k| k.capp.layers = Some(2)));
        core.push(kind("no layer, other user", "GSSAPI", |k| {
            k.capp.layers = Some(1);
            k.gss.client = b"bob@R".to_vec();
            k.gss.rounds = 3;
        }));
        v.push(kind("integrity only accepted", "GSSAPI", |k| k.sapp.layers = Some(2)));
        v.push(kind("other user", "GSSAPI", |k| k.gss.client = b"bob@R".to_vec()));
        v.push(kind("validation fails", "GSSAPI", |k| k.sapp.vmode = VMode::FailBoxed));
        v.push(kind("no agreement", "GSSAPI", |k| {
            k.capp.layers = Some(1);
            k.sapp.layers = Some(2);
        }));
        // selection
        v.push(kind("among all", "SCRAM-SHA-256", |k| {
            k.offers = vec!["PLAIN", "LOGIN", "SCRAM-SHA-256"];
            pw(k, "user", "pencil", "pencil", b"salt", 2);
        }));
        core.push(kind("preferred", "PLAIN", |k| {
            k.offers = vec!["SCRAM-SHA-256", "PLAIN", "LOGIN"];
            k.capp.prefer = Some(|_, m| if m.mechanism.as_str() == "PLAIN" { Ordering::Less } else { Ordering::Greater });
            pw(k, "user", "pencil", "pencil", b"s", 1);
        }));
        core.push(kind("binding wanted", "SCRAM-SHA-1-PLUS", |k| {
            k.offers = vec!["SCRAM-SHA-1", "SCRAM-SHA-1-PLUS"];
            k.capp.bind = Some(true);
            pw(k, "user", "pencil", "pencil", b"salt", 2);
        }));
        for (i, m) in ["SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512"].iter().copied().enumerate() {
            // the client can bind, and is offered the variant that does or not
            let only = kind("binding not offered", m, |k| {
                k.capp.bind = Some(true);
                pw(k, "user", "pencil", "pencil", b"salt", 2);
            });
            let both = kind("binding offered but not preferred", m, |k| {
                k.offers = vec![mechs::SCRAM[2 * i], mechs::SCRAM[2 * i + 1]];
                k.capp.bind = Some(true);
                k.capp.prefer = Some(|_, m| if m.mechanism.as_str().ends_with("PLUS") { Ordering::Greater } else { Ordering::Less });
                pw(k, "user", "pencil", "pencil", b"salt", 2);
            });
            v.push(only);
            v.push(both);
        }
        v.push(kind("binding not wanted", "SCRAM-SHA-1", |k| {
            k.offers = vec!["SCRAM-SHA-1", "SCRAM-SHA-1-PLUS"];
            k.capp.bind = Some(false);
            pw(k, "user", "pencil", "pencil", b"salt", 2);
        }));
        v.push(kind("escaped", "SCRAM-SHA-256", |k| {
            pw(k, "a,b=c", "pencil", "pencil", b"salt", 2);
            k.capp.authzid = Some("x=y,z".into());
        }));
        v.push(kind("escaped", "OAUTHBEARER", |k| {
            k.capp.authzid = Some("x=y,z".into());
            k.capp.kv = Some(vec![("k".into(), "a=b".into())]);
        }));
        v.push(kind("only one offered", "LOGIN", |k| k.offers = vec!["LOGIN", "X-OTHER"]));
        v.push(kind("nothing in common", "PLAIN", |k| k.offers = vec!["X-OTHER"]));
        assert_eq!(core.len(), CORE);
        core.extend(v);
        core
    })
}
const CORE: usize = 14;

// ---------------------------------------------------------------------------------------------
// an exchange

struct W<'a> {
    out: Vec<u8>,
    hook: Option<&'a Arc<dyn Fn(&'static str) + Send + Sync>>,
}
impl Write for W<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if let Some(h) = self.hook {
            h("write");
        }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Ex {
    k: usize,
    capp: Arc<App>,
    sapp: Arc<App>,
    cfg: Option<Arc<SASLConfig>>,
    c: Option<Party>,
    s: Option<Party>,
    stage: usize, // 0: not begun; 1: client started; 2: both started; 3..: exchange; END: over
    turn: bool,
    input: Option<Vec<u8>>,
    cr: Option<R>,
    sr: Option<R>,
    msgs: usize,
    log: Vec<String>,
    nonces: Vec<Vec<u8>>,
    steps: usize,
    enc: usize,
    net: Net,
    /// length of the message to be mangled
    len: usize,
}
const TALK: usize = 3;
const DATA: usize = 4;
const END: usize = 5;

impl Ex {
    fn new(k: usize, cfg: &Arc<SASLConfig>, hook: Option<Arc<dyn Fn(&'static str) + Send + Sync>>) -> Ex {
        let kd = &kinds()[k];
        let (mut a, mut b) = (kd.capp.fresh(), kd.sapp.fresh());
        a.hook = hook.clone();
        b.hook = hook;
        Ex {
            k,
            capp: Arc::new(a),
            sapp: Arc::new(b),
            cfg: Some(cfg.clone()),
            c: None,
            s: None,
            stage: 0,
            turn: true,
            input: None,
            cr: None,
            sr: None,
            msgs: 0,
            log: vec![],
            nonces: vec![],
            steps: 0,
            enc: 0,
            net: kd.net,
            len: 0,
        }
    }
    fn over(&self) -> bool {
        self.stage == END
    }
    /// One operation of the exchange.
    fn step(&mut self) {
        let kd = &kinds()[self.k];
        fakegss::settings(kd.gss.clone());
        self.steps += 1;
        match self.stage {
            0 => {
                let cfg = self.cfg.as_ref().unwrap();
                match as_app(&self.capp, || client_cfg(cfg.clone(), &kd.offers, kd.ccb.clone())) {
                    Ok(p) => {
                        self.log.push(format!("client starts {}, first {}", p.mech(), p.first()));
                        self.c = Some(p);
                        self.stage = 1;
                    }
                    Err(_) => {
                        self.log.push("client does not start".into());
                        self.stage = END;
                    }
                }
            }
            1 => {
                let cfg = self.cfg.take().unwrap();
                match as_app(&self.sapp, || server_cfg(cfg, kd.mech, kd.scb.clone())) {
                    Ok(p) => {
                        self.log.push(format!("server starts {}, first {}", p.mech(), p.first()));
                        self.turn = !p.first();
                        self.s = Some(p);
                        self.stage = TALK;
                    }
                    Err(_) => {
                        self.log.push("server does not start".into());
                        self.stage = END;
                    }
                }
            }
            TALK => self.talk(),
            _ => self.data(),
        }
        if self.over() {
            for (who, a) in [("client", &self.capp), ("server", &self.sapp)] {
                for e in a.events() {
                    self.log.push(format!("{who} application: {}", event(&e, kd)));
                }
            }
            if let Some(s) = &mut self.s {
                self.log.push(format!("value {:?}", s.validation()));
                self.log.push(format!("value again {:?}", s.validation()));
            }
        }
    }
    fn talk(&mut self) {
        let (p, a) = if self.turn { (self.c.as_mut(), &self.capp) } else { (self.s.as_mut(), &self.sapp) };
        let p = p.unwrap();
        let mut m = self.input.take();
        if self.net == Net::Starved(self.msgs) && m.is_some() {
            let mut w = W { out: vec![], hook: a.hook.as_ref() };
            let r = as_app(a, || p.raw_step(None, &mut w));
            self.log.push(format!("{} without input: {r:?}, {:?}", p.who(), shape(p.mech(), &w.out)));
        }
        if self.net == Net::Damaged(self.msgs) {
            // no message of these mechanisms ends in a padding character when it is damaged
            if let Some(m) = &mut m {
                // a character of the proof or signature
                let n = m.len() - 8;
                m[n] = if m[n] == b'A' { b'B' } else { b'A' };
            }
        }
        if let (Net::Hostile(i, op, at), Some(m)) = (self.net, &mut m) {
            if i == self.msgs {
                self.len = m.len();
                mangle(m, op, at);
            }
        }
        let mut w = W { out: vec![], hook: a.hook.as_ref() };
        let r = as_app(a, || p.raw_step(m.as_deref(), &mut w));
        let out = w.out;
        if p.mech().starts_with("SCRAM") && self.msgs < 2 {
            if let Some(i) = out.windows(2).position(|x| x == b"r=") {
                let n = &out[i + 2..];
                self.nonces.push(n.split(|b| *b == b',').next().unwrap().to_vec());
            }
        }
        self.log.push(format!(
            "{} {r:?} {:?} layer {}",
            p.who(),
            String::from_utf8_lossy(&shape(p.mech(), &out)),
            p.has_layer()
        ));
        let sent = r.sent();
        if self.turn {
            self.cr = Some(r.clone());
        } else {
            self.sr = Some(r.clone());
        }
        self.msgs += 1;
        self.turn = !self.turn;
        self.input = sent.then_some(out);
        let other = if self.turn { &self.cr } else { &self.sr };
        let both = [&self.cr, &self.sr].iter().all(|x| x.as_ref().is_some_and(R::fin));
        if both && self.c.as_ref().unwrap().has_layer() {
            self.stage = DATA;
        } else if r.is_err() || other.as_ref().is_some_and(|r| r.fin() || r.is_err()) || self.msgs > 24 {
            self.stage = END;
        }
    }
    fn data(&mut self) {
        let d = format!("data {} {}", self.k, self.enc);
        let from_client = self.enc % 2 == 0;
        let (a, b) = if from_client { (&mut self.c, &mut self.s) } else { (&mut self.s, &mut self.c) };
        let mut w = vec![];
        let r = a.as_mut().unwrap().encode(d.as_bytes(), &mut w);
        let mut o = vec![];
        let q = b.as_mut().unwrap().decode(&w, &mut o);
        self.log.push(format!("encode {r:?}, decode {q:?}, {:?}", fakegss::open(&w)));
        self.log.push(format!("received {:?}", o == d.as_bytes()));
        self.enc += 1;
        if self.enc == 2 {
            self.stage = END;
        }
    }
}

fn event(e: &Ev, k: &Kind) -> String {
    // the salt shown for an unknown user is random
    let random = k.mech.starts_with("SCRAM") && k.sapp.db.is_empty();
    let ctx = |c: &crate::app::Ctx| {
        let v: Vec<String> = c
            .iter()
            .map(|(p, v)| match v {
                V::B(b) if random && *p == P::Salt => format!("{p:?} {} bytes", b.len()),
                _ => format!("{p:?} {v:?}"),
            })
            .collect();
        v.join(", ")
    };
    match e {
        Ev::Req { p, ctx: c, action } => format!("asked for {p:?} [{}], took {action:?}", ctx(c)),
        Ev::Val { server, mech, ctx: c, tv } => format!("validates {server} {mech} {tv} [{}]", ctx(c)),
    }
}

// ---------------------------------------------------------------------------------------------
// the reference: the exchange alone in a fresh process

/// Child process: prints the transcript of one kind.
pub fn helper(k: &str, bind: &str) -> i32 {
    let mut e = Ex::new(k.parse().unwrap(), &shared(bind == "true"), None);
    while !e.over() {
        e.step();
    }
    println!("{}", serde_json::to_string(&(&e.log, e.steps)).unwrap());
    0
}
struct Alone {
    log: Vec<String>,
    steps: usize,
}
fn alone(k: usize, bind: bool) -> &'static Alone {
    static A: OnceLock<Vec<OnceLock<Alone>>> = OnceLock::new();
    A.get_or_init(|| (0..2 * kinds().len()).map(|_| OnceLock::new()).collect())[2 * k + usize::from(bind)].get_or_init(|| {
        let exe = std::env::current_exe().expect("exe");
        let o = std::process::Command::new(&exe)
            .args(["helper", "solo", &k.to_string(), &bind.to_string()])
            .output()
            .expect("child process");
        assert!(o.status.success(), "src/: the child process for kind {k} failed: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr));
        let v: (Vec<String>, usize) = serde_json::from_slice(&o.stdout).expect("transcript");
        Alone { log: v.0, steps: v.1 }
    })
}
fn judge(ch: &mut Ch, what: &str, k: usize, bind: bool, log: &[String]) {
    let want = &alone(k, bind).log;
    for l in log {
        ch.obs(l);
    }
    if log != want {
        let i = (0..).find(|i| log.get(*i) != want.get(*i)).unwrap();
        ch.fail(
            "influenced",
            format!(
                "{what}: {} does not go as it does alone: {:?} instead of {:?}",
                kinds()[k].name,
                log.get(i),
                want.get(i)
            ),
        );
    }
}
fn judge_ex(ch: &mut Ch, what: &str, bind: bool, e: &Ex) {
    if ch.verbose {
        for l in &e.log {
            ch.log(|| format!("[{}] {l}", kinds()[e.k].name));
        }
    }
    judge(ch, what, e.k, bind, &e.log);
}
/// No nonce occurs in two exchanges.
fn distinct(ch: &mut Ch, what: &str, all: &[&Vec<Vec<u8>>]) {
    for (i, a) in all.iter().enumerate() {
        for b in &all[..i] {
            for x in a.iter() {
                for y in b.iter() {
                    let n = x.len().min(y.len()).min(24);
                    let same = x[..n] == y[..n] || x[x.len() - n..] == y[y.len() - n..];
                    ch.check(!same, "nonce", || format!("{what}: two exchanges use the nonce {:?}", String::from_utf8_lossy(x)));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// one thread

/// With channel binding if one of the kinds needs it; without it too if the search is thorough
fn binding(ch: &mut Ch, ks: &[usize]) -> bool {
    let any = ks.iter().any(|k| mechs::is_plus(kinds()[*k].mech));
    if ch.thorough && any {
        !ch.flip()
    } else {
        any
    }
}
fn names_of(ks: &[usize]) -> String {
    ks.iter().map(|k| kinds()[*k].name.clone()).collect::<Vec<_>>().join(" | ")
}
/// All interleavings
fn interleave(ch: &mut Ch, ks: &[usize], cap: usize) {
    let bind = binding(ch, ks);
    let cfg = shared(bind);
    let mut es: Vec<Ex> = ks.iter().map(|k| Ex::new(*k, &cfg, None)).collect();
    drop(cfg);
    let long = !ch.thorough && ks.iter().map(|k| alone(*k, bind).steps).sum::<usize>() > 14;
    let mut order = String::new();
    loop {
        let live: Vec<usize> = (0..es.len()).filter(|i| !es[*i].over()).collect();
        if live.is_empty() {
            break;
        }
        let i = live[ch.choose(live.len())];
        order.push((b'a' + i as u8) as char);
        // a kind that does not end (it would alone)
        if es[i].steps > alone(ks[i], bind).steps + cap {
            ch.fail("endless", format!("{}: exchange {i} does not end, {order}", names_of(ks)));
            return;
        }
        es[i].step();
        // long ones: both sessions are started at once
        if long && es[i].stage == 1 {
            es[i].step();
        }
        ch.step();
    }
    let what = format!("{}, order {order}", names_of(ks));
    for e in &es {
        judge_ex(ch, &what, bind, e);
    }
    distinct(ch, &what, &es.iter().map(|e| &e.nonces).collect::<Vec<_>>());
    ch.outcome(if ch.failed() { "influenced" } else { "independent" });
}
fn pairs(ch: &mut Ch) {
    // quick: one of the two is a core kind
    let a = ch.choose(if ch.thorough { kinds().len() } else { CORE });
    let b = ch.choose(kinds().len());
    interleave(ch, &[a, b], 0);
}
fn triples(ch: &mut Ch) {
    let n = if ch.thorough { 9 } else { 3 };
    let ks: Vec<usize> = (0..3).map(|_| ch.choose(n)).collect();
    // the long tail is the same for all orders of the kinds
    if ks.windows(2).any(|w| w[0] > w[1]) {
        return;
    }
    let short: Vec<usize> = ks.iter().map(|k| TRIPLES[*k]).collect();
    interleave(ch, &short, 0);
}
/// PLAIN good and wrong, LOGIN, XOAUTH2 accepted and refused ...
const TRIPLES: [usize; 9] = [4, 5, 8, 9, 12, 6, 7, 4, 5];

/// Inside callbacks
fn nested(ch: &mut Ch) {
    let a = ch.choose(kinds().len());
    let b = if ch.thorough { ch.choose(kinds().len()) } else { ch.choose(CORE) };
    let whole = ch.flip();
    // at which point; there are fewer than this
    let at = ch.choose(26);
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    thread_local! {
        static INNER: RefCell<Option<Ex>> = const { RefCell::new(None) };
    }
    let count = Arc::new(AtomicUsize::new(0));
    let c2 = count.clone();
    let hook: Arc<dyn Fn(&'static str) + Send + Sync> = Arc::new(move |_| {
        let n = c2.fetch_add(1, SeqCst);
        let go = if whole { n == at } else { n >= at };
        if go {
            let outer = kinds()[a].gss.clone();
            if let Some(mut e) = INNER.with(|i| i.borrow_mut().take()) {
                if whole {
                    while !e.over() {
                        e.step();
                    }
                } else if !e.over() {
                    e.step();
                }
                INNER.with(|i| *i.borrow_mut() = Some(e));
            }
            fakegss::settings(outer);
        }
    });
    let bind = binding(ch, &[a, b]);
    let cfg = shared(bind);
    INNER.with(|i| *i.borrow_mut() = Some(Ex::new(b, &cfg, None)));
    let mut e = Ex::new(a, &cfg, Some(hook));
    drop(cfg);
    while !e.over() {
        e.step();
        ch.step();
    }
    let mut i = INNER.with(|i| i.borrow_mut().take()).expect("src/: the inner exchange");
    while !i.over() {
        i.step();
    }
    if count.load(SeqCst) <= at {
        // there is no such point
        ch.outcome("no such point");
        return;
    }
    let what = format!("{} inside {}, point {at}, whole {whole}", kinds()[b].name, kinds()[a].name);
    judge_ex(ch, &what, bind, &e);
    judge_ex(ch, &what, bind, &i);
    distinct(ch, &what, &[&e.nonces, &i.nonces]);
    ch.outcome(if ch.failed() { "influenced" } else { "independent" });
}

/// Sessions that are dropped before they end leave nothing behind.
fn abandoned(ch: &mut Ch) {
    let a = ch.choose(kinds().len());
    let n = ch.choose(12);
    let keep = ch.flip();
    let b = ch.choose(if ch.thorough { kinds().len() } else { CORE });
    let bind = binding(ch, &[a, b]);
    let cfg = shared(bind);
    let mut e = Ex::new(a, &cfg, None);
    for _ in 0..n {
        if e.over() {
            ch.outcome("over");
            return;
        }
        e.step();
        ch.step();
    }
    let mut kept = None;
    if keep {
        kept = Some(e);
    } else {
        drop(e);
    }
    let what = format!("{} after {} was abandoned at {n} (kept: {keep})", kinds()[b].name, kinds()[a].name);
    for _ in 0..2 {
        let mut x = Ex::new(b, &cfg, None);
        while !x.over() {
            x.step();
            ch.step();
        }
        judge_ex(ch, &what, bind, &x);
    }
    if let Some(mut e) = kept {
        while !e.over() {
            e.step();
        }
        judge_ex(ch, &what, bind, &e);
    }
    ch.outcome(if ch.failed() { "influenced" } else { "independent" });
}

const OPS: usize = 8;
fn mangle(m: &mut Vec<u8>, op: usize, at: usize) {
    if at >= m.len() {
        return;
    }
    match op {
        0 => {
            m.remove(at);
        }
        1 => m.truncate(at),
        2 => m[at] = b'=',
        3 => m[at] = b',',
        4 => m[at] = 0,
        5 => m[at] = 0xff,
        6 => m[at] ^= 1,
        _ => m.insert(at, 1),
    }
}

fn lengths(a: usize, bind: bool) -> &'static Vec<usize> {
    static L: OnceLock<Vec<OnceLock<Vec<usize>>>> = OnceLock::new();
    L.get_or_init(|| (0..2 * kinds().len()).map(|_| OnceLock::new()).collect())[2 * a + usize::from(bind)].get_or_init(|| {
        let of = |i| {
            let mut e = Ex::new(a, &shared(bind), None);
            e.net = Net::Hostile(i, OPS, usize::MAX);
            while !e.over() {
                e.step();
            }
            e.len
        };
        (0..8).map(of).collect()
    })
}
/// A message made to make one exchange fail
fn hostile(ch: &mut Ch) {
    // one kind for each mechanism, and those that have more to them
    let a = {
        let v: Vec<usize> = (0..kinds().len())
            .filter(|i| {
                let k = &kinds()[*i];
                k.net == Net::Honest && (ch.thorough || HOSTILE.iter().any(|n| k.name.ends_with(n)))
            })
            .collect();
        *ch.pick(&v)
    };
    let kd = &kinds()[a];
    // a dry run to see the lengths of the messages, none of which depends on anything random
    let bind = binding(ch, &[a]);
    let lens = lengths(a, bind);
    let i = ch.choose(lens.len());
    if lens[i] == 0 {
        return;
    }
    let op = ch.choose(OPS);
    let at = ch.choose(lens[i]);
    let family = |k: &Kind| k.mech.trim_end_matches("-PLUS").to_string();
    let same: Vec<usize> = (0..kinds().len()).filter(|b| *b != a && family(&kinds()[*b]) == family(kd)).collect();
    let mut next = vec![a];
    if !same.is_empty() {
        next.insert(0, *ch.pick(&same));
    }
    let cfg = shared(bind);
    let mut e = Ex::new(a, &cfg, None);
    e.net = Net::Hostile(i, op, at);
    while !e.over() {
        e.step();
        ch.step();
    }
    let what = format!("after an exchange of the kind {} with message {i} mangled ({op}) at {at}", kd.name);
    for b in next {
        let mut x = Ex::new(b, &cfg, None);
        while !x.over() {
            x.step();
            ch.step();
        }
        judge_ex(ch, &what, bind, &x);
    }
    ch.outcome(if ch.failed() { "influenced" } else { "independent" });
}
const HOSTILE: &[&str] = &["256 good", "escaped", "PLAIN good", "LOGIN good", "value a", "first", "refused", "accepted", "fields", "confidentiality"];

fn crowds(ch: &mut Ch) {
    const N: &[usize] = &[2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 100, 129, 200];
    let n = *ch.pick(&N[..if ch.thorough { N.len() } else { 11 }]);
    // one kind only, or kinds in turn starting anywhere
    let k0 = ch.choose(kinds().len());
    let same = ch.flip();
    let order = ch.choose(4);
    let bind = ch.flip();
    let cfg = shared(bind);
    let mut es: Vec<Ex> = (0..n).map(|i| Ex::new(if same { k0 } else { (k0 + i) % kinds().len() }, &cfg, None)).collect();
    drop(cfg);
    let mut round = 0;
    while es.iter().any(|e| !e.over()) {
        for j in 0..n {
            let i = match order {
                0 => j,
                1 => n - 1 - j,
                // alternately forwards and backwards
                2 => {
                    if round % 2 == 0 {
                        j
                    } else {
                        n - 1 - j
                    }
                }
                // the later ones begin when the earlier ones are under way
                _ => {
                    if j > round * 3 {
                        continue;
                    }
                    n - 1 - j
                }
            };
            if !es[i].over() {
                es[i].step();
                ch.step();
            }
        }
        round += 1;
    }
    let what = format!("{n} exchanges, order {order}");
    for e in &es {
        judge_ex(ch, &what, bind, e);
        if ch.failed() {
            break;
        }
    }
    let mut all: Vec<&[u8]> = es.iter().flat_map(|e| e.nonces.iter().map(|n| &n[n.len() - 24..])).collect();
    let len = all.len();
    all.sort_unstable();
    all.dedup();
    ch.check(all.len() == len, "nonce", || format!("{what}: a nonce occurs twice"));
    ch.outcome(if ch.failed() { "influenced" } else { "independent" });
}

/// Clones of the handle, dropped at any time
fn handles(ch: &mut Ch) {
    let a = ch.choose(CORE);
    let b = ch.choose(CORE);
    let bind = binding(ch, &[a, b]);
    let cfg = shared(bind);
    let other = Arc::clone(&cfg);
    let mut x = Ex::new(a, &cfg, None);
    let n = ch.choose(4);
    for _ in 0..n {
        if !x.over() {
            x.step();
        }
    }
    let mut y = Ex::new(b, &other, None);
    let first = ch.flip();
    let when = ch.choose(4);
    let mut hs = vec![cfg, other];
    for i in 0.. {
        if i == when {
            // at most the sessions hold the configuration from now on
            if first {
                hs.reverse();
            }
            hs.clear();
        }
        if x.over() && y.over() {
            break;
        }
        if !x.over() {
            x.step();
        }
        if !y.over() {
            y.step();
        }
        ch.step();
    }
    let what = format!("{} and {}, handles dropped after {when}", kinds()[a].name, kinds()[b].name);
    judge_ex(ch, &what, bind, &x);
    judge_ex(ch, &what, bind, &y);
    ch.outcome(if ch.failed() { "influenced" } else { "independent" });
}

// ---------------------------------------------------------------------------------------------
// several threads

struct Gs {
    waiting: Vec<Option<&'static str>>,
    done: Vec<bool>,
    granted: Option<usize>,
    /// these threads run on without stopping
    run_on: Vec<bool>,
}
struct Gate {
    m: Mutex<Gs>,
    /// one for each thread, the last one for the controller
    cv: Vec<Condvar>,
}
impl Gate {
    fn new(n: usize) -> Gate {
        Gate {
            m: Mutex::new(Gs { waiting: vec![None; n], done: vec![false; n], granted: None, run_on: vec![false; n] }),
            cv: (0..=n).map(|_| Condvar::new()).collect(),
        }
    }
    fn point(&self, t: usize, label: &'static str) {
        let mut g = self.m.lock().unwrap();
        if g.run_on[t] {
            return;
        }
        g.waiting[t] = Some(label);
        self.cv.last().unwrap().notify_one();
        while g.granted != Some(t) && !g.run_on[t] {
            g = self.cv[t].wait(g).unwrap();
        }
        g.waiting[t] = None;
        g.granted = None;
    }
    fn end(&self, t: usize) {
        let mut g = self.m.lock().unwrap();
        g.done[t] = true;
        self.cv.last().unwrap().notify_one();
    }
    fn grant(&self, t: usize, on: bool) {
        let mut g = self.m.lock().unwrap();
        if on {
            g.run_on[t] = true;
        } else {
            g.granted = Some(t);
        }
        self.cv[t].notify_one();
    }
    /// Waits until thread `t` (or every thread) has stopped or ended.
    fn quiet(&self, which: Option<usize>) -> Result<Vec<Option<&'static str>>, usize> {
        let mut g = self.m.lock().unwrap();
        let n = g.done.len();
        let limit = std::time::Instant::now() + Duration::from_secs(10);
        loop {
            let busy = (0..n).find(|t| {
                which.is_none_or(|w| w == *t) && !g.done[*t] && (g.waiting[*t].is_none() || g.granted == Some(*t) || g.run_on[*t])
            });
            let Some(b) = busy else {
                return Ok((0..n).map(|t| if g.done[t] { None } else { g.waiting[t] }).collect());
            };
            if std::time::Instant::now() > limit {
                return Err(b);
            }
            g = self.cv[n].wait_timeout(g, Duration::from_millis(500)).unwrap().0;
        }
    }
    fn release(&self) {
        let mut g = self.m.lock().unwrap();
        let n = g.done.len();
        g.run_on.fill(true);
        drop(g);
        for t in 0..n {
            self.cv[t].notify_one();
        }
    }
}

enum Ended {
    Ok(Vec<String>, Vec<Vec<u8>>),
    Panic(String, String),
}

fn run_threads(ch: &mut Ch, ks: &[usize]) {
    let n = ks.len();
    let gate = Arc::new(Gate::new(n));
    let bind = binding(ch, ks);
    let cfg = shared(bind);
    let handles: Vec<_> = ks
        .iter()
        .enumerate()
        .map(|(t, k)| {
            let (gate, cfg, k) = (gate.clone(), cfg.clone(), *k);
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    explore::set_in_exec(true);
                    let g2 = gate.clone();
                    let hook: Arc<dyn Fn(&'static str) + Send + Sync> = Arc::new(move |l| g2.point(t, l));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut e = Ex::new(k, &cfg, Some(hook));
                        drop(cfg);
                        gate.point(t, "begin");
                        while !e.over() {
                            e.step();
                            if !e.over() {
                                gate.point(t, "step");
                            }
                        }
                        Ended::Ok(std::mem::take(&mut e.log), std::mem::take(&mut e.nonces))
                    }));
                    let r = r.unwrap_or_else(|_| {
                        let (l, m) = explore::take_panic().unwrap_or_default();
                        Ended::Panic(l, m)
                    });
                    explore::set_in_exec(false);
                    gate.end(t);
                    r
                })
                .expect("thread")
        })
        .collect();
    drop(cfg);
    let mut order = String::new();
    let mut last: Option<usize> = None;
    let mut blocked = None;
    let mut st = match gate.quiet(None) {
        Ok(s) => s,
        Err(t) => panic!("src/: thread {t} does not begin"),
    };
    loop {
        let live: Vec<usize> = (0..n).filter(|t| st[*t].is_some()).collect();
        if live.is_empty() {
            break;
        }
        let t = match last.filter(|l| live.contains(l)) {
            Some(l) => {
                // going on is free, switching is a preemption
                let others: Vec<usize> = live.iter().copied().filter(|x| *x != l).collect();
                match ch.deviate(others.len() + 1) {
                    0 => l,
                    i => others[i - 1],
                }
            }
            None => live[ch.choose(live.len())],
        };
        let label = st[t].unwrap();
        ch.step();
        ch.obs(&(t, label));
        let on = !ch.can_deviate();
        order.push_str(&format!(" {}:{label}{}", (b'a' + t as u8) as char, if on { ".." } else { "" }));
        last = Some(t);
        gate.grant(t, on);
        match gate.quiet(Some(t)) {
            Ok(s) => st = s,
            Err(_) => {
                blocked = Some(t);
                break;
            }
        }
    }
    gate.release();
    let what = format!("{}, schedule{order}", names_of(ks));
    ch.log(|| format!("schedule{order}"));
    let ends: Vec<Ended> = handles.into_iter().map(|h| h.join().expect("src/: join")).collect();
    if let Some(t) = blocked {
        ch.fail("blocked", format!("{what}: exchange {t} makes no progress while another is inside the application"));
    }
    let mut nonces = vec![];
    for (e, k) in ends.iter().zip(ks) {
        match e {
            Ended::Ok(log, ns) => {
                if ch.verbose {
                    for l in log {
                        ch.log(|| format!("[{}] {l}", kinds()[*k].name));
                    }
                }
                judge(ch, &what, *k, bind, log);
                nonces.push(ns);
            }
            Ended::Panic(l, m) => {
                assert!(!explore::is_harness_loc(l), "src/: harness panic at {l}: {m}");
                ch.fail("panic", format!("{what}: {} panics at {l}: {m}", kinds()[*k].name));
            }
        }
    }
    distinct(ch, &what, &nonces);
    ch.outcome(if ch.failed() { "influenced" } else { "independent" });
}
fn two(ch: &mut Ch, n: usize) {
    let a = ch.choose(n);
    let b = ch.choose(kinds().len().min(if n == CORE { kinds().len() } else { n }));
    if b < a {
        return;
    }
    run_threads(ch, &[a, b]);
}
fn threads(ch: &mut Ch) {
    let n = if ch.thorough { kinds().len() } else { CORE };
    two(ch, n);
}
fn preemptions(ch: &mut Ch) {
    two(ch, 7);
}
fn three(ch: &mut Ch) {
    let ks: Vec<usize> = (0..3).map(|_| *ch.pick(&[0, 1, 4, 6, 11])).collect();
    if ks.windows(2).any(|w| w[0] > w[1]) {
        return;
    }
    run_threads(ch, &ks);
}
