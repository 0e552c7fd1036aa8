//! Helpers of the demonstrations
#![allow(dead_code)]
pub use crate::refscram::{b64, unb64, Hash};
pub use rsasl::callback::{Context, Request, SessionCallback, SessionData};
pub use rsasl::config::SASLConfig;
pub use rsasl::mechanisms::*;
pub use rsasl::mechname::Mechname;
pub use rsasl::prelude::*;
pub use rsasl::property::*;
pub use rsasl::validate::{NoValidation, Validate, Validation, ValidationError};
pub use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
pub use std::sync::{Arc, Mutex};

/// What the protocol learns from validation
pub struct V;
impl Validation for V {
    type Value = String;
}
/// Channel binding data the protocol knows
#[derive(Clone, Default)]
pub struct Cb(pub Vec<(&'static str, &'static [u8])>);
impl ChannelBindingCallback for Cb {
    fn get_cb_data(&self, n: &str) -> Option<&[u8]> {
        self.0.iter().find(|x| x.0 == n).map(|x| x.1)
    }
}

pub type OnCb = Box<dyn Fn(&SessionData, &Context<'_>, &mut Request<'_>) -> Result<(), SessionError> + Send + Sync>;
pub type OnVal = Box<dyn Fn(&Context<'_>) -> Result<Option<String>, ValidationError> + Send + Sync>;
pub struct App {
    pub on: OnCb,
    pub val: OnVal,
    pub cb: bool,
    pub validations: Arc<Mutex<Vec<String>>>,
}
/// Describes what validation gets to see
pub fn seen(c: &Context<'_>) -> String {
    format!(
        "user={:?} authzid={:?} password={:?}",
        c.get_ref::<AuthId>(),
        c.get_ref::<AuthzId>().filter(|x| !x.is_empty()),
        c.get_ref::<Password>().map(|p| String::from_utf8_lossy(p).into_owned())
    )
}
impl App {
    pub fn new(on: impl Fn(&SessionData, &Context<'_>, &mut Request<'_>) -> Result<(), SessionError> + Send + Sync + 'static) -> App {
        App { on: Box::new(on), val: Box::new(|c| Ok(Some(seen(c)))), cb: false, validations: Default::default() }
    }
    pub fn silent() -> App {
        App::new(|_, _, _| Ok(()))
    }
    /// A client application with these credentials
    pub fn creds(authzid: Option<&'static str>, user: &'static str, pw: &'static str) -> App {
        App::new(move |_, _, r| {
            r.satisfy::<AuthId>(user)?.satisfy::<Password>(pw.as_bytes())?;
            if let Some(a) = authzid {
                r.satisfy::<AuthzId>(a)?;
            }
            Ok(())
        })
    }
    /// A server application with SCRAM accounts (user, password), salt "salt" and few iterations
    pub fn store(h: Hash, accounts: &[(&'static str, &'static str)]) -> App {
        let acc: Vec<_> = accounts.iter().map(|(u, p)| (*u, h.store(p.as_bytes(), SALT, ITER))).collect();
        App::new(move |_, c, r| {
            let u = c.get_ref::<AuthId>();
            if let Some((_, s)) = acc.iter().find(|a| Some(a.0) == u) {
                r.satisfy::<scram::properties::ScramStoredPassword>(&scram::properties::ScramStoredPassword::new(
                    s.iterations,
                    &s.salt,
                    &s.stored_key,
                    &s.server_key,
                ))?;
            }
            Ok(())
        })
    }
    pub fn with_cb(mut self) -> App {
        self.cb = true;
        self
    }
    /// Configuration and log of validations
    pub fn cfg(self, m: &[Mechanism]) -> (Arc<SASLConfig>, Arc<Mutex<Vec<String>>>) {
        let l = self.validations.clone();
        let m: &'static [Mechanism] = Vec::leak(m.to_vec());
        (SASLConfig::builder().with_registry(Registry::with_mechanisms(m)).with_callback(self).unwrap(), l)
    }
}
pub const SALT: &[u8] = b"salt";
pub const ITER: u32 = 8;
impl SessionCallback for App {
    fn callback(&self, s: &SessionData, c: &Context<'_>, r: &mut Request<'_>) -> Result<(), SessionError> {
        (self.on)(s, c, r)
    }
    fn validate(&self, _: &SessionData, c: &Context<'_>, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        self.validations.lock().unwrap().push(seen(c));
        if let Some(x) = (self.val)(c)? {
            v.finalize::<V>(x);
        }
        Ok(())
    }
    fn enable_channel_binding(&self) -> bool {
        self.cb
    }
}

pub fn name(n: &str) -> &Mechname {
    Mechname::parse(n.as_bytes()).unwrap()
}
pub type Client = Session<NoValidation, Cb>;
pub type Server = Session<V, Cb>;
pub fn client(app: App, m: &[Mechanism], offers: &[&str], cb: &Cb) -> Client {
    let names: Vec<_> = offers.iter().map(|o| name(o)).collect();
    SASLClient::with_cb(app.cfg(m).0, cb.clone()).start_suggested(&names).unwrap()
}
/// Server session and log of validations
pub fn server(app: App, m: &[Mechanism], sel: &str, cb: &Cb) -> (Server, Arc<Mutex<Vec<String>>>) {
    let (cfg, l) = app.cfg(m);
    (SASLServer::<V, Cb>::with_cb(cfg, cb.clone()).start_suggested(name(sel)).unwrap(), l)
}
pub type Res = Result<State, SessionError>;
pub fn cstep(s: &mut Client, i: Option<&[u8]>) -> (Res, Vec<u8>) {
    let mut o = vec![];
    let r = s.step(i, &mut o);
    (r, o)
}
pub fn sstep(s: &mut Server, i: Option<&[u8]>) -> (Res, Vec<u8>) {
    let mut o = vec![];
    let r = s.step(i, &mut o);
    (r, o)
}
pub fn fin(r: &Res) -> bool {
    matches!(r, Ok(State::Finished(_)))
}
/// Runs both to the end. `edit(i, message)` may change the i-th message (0 = first of the exchange).
/// Result: client, server
pub fn run(c: &mut Client, s: &mut Server, mut edit: impl FnMut(usize, &mut Vec<u8>)) -> (Res, Res) {
    let mut rc: Res = Ok(State::Running);
    let mut rs: Res = Ok(State::Running);
    let mut msg: Option<Vec<u8>> = None;
    let mut turn = c.are_we_first();
    for i in 0..20 {
        let done = if turn { fin(&rc) } else { fin(&rs) };
        if done {
            break;
        }
        let (r, mut o) = if turn { cstep(c, msg.as_deref()) } else { sstep(s, msg.as_deref()) };
        let sent = matches!(r, Ok(State::Running | State::Finished(MessageSent::Yes)));
        let err = r.is_err();
        if turn {
            rc = r;
        } else {
            rs = r;
        }
        if err {
            break;
        }
        if sent {
            edit(i, &mut o);
            msg = Some(o);
        } else if fin(&rc) && fin(&rs) {
            break;
        } else {
            msg = None;
        }
        turn = !turn;
    }
    (rc, rs)
}
/// attribute of a SCRAM message
pub fn attr(m: &[u8], k: &str) -> String {
    String::from_utf8(m.to_vec()).unwrap().split(',').find_map(|p| p.strip_prefix(k).map(str::to_owned)).unwrap_or_else(|| panic!("no {k} in {m:?}"))
}
/// The client's final message: `gs2` header (and binding data), messages so far
pub fn client_final(h: Hash, pw: &str, gs2: &[u8], bare: &str, server_first: &str) -> String {
    let salt = unb64(attr(server_first.as_bytes(), "s=").as_bytes()).unwrap();
    let it: u32 = attr(server_first.as_bytes(), "i=").parse().unwrap();
    let without = format!("c={},r={}", b64(gs2), attr(server_first.as_bytes(), "r="));
    let ck = h.client_key(&h.hi(pw.as_bytes(), &salt, it));
    let proof = h.proof(&ck, format!("{bare},{server_first},{without}").as_bytes());
    format!("{without},p={}", b64(&proof))
}
