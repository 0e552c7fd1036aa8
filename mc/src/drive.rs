//! Driving sessions: one step at a time, or both ends of an exchange by the states they report.
use crate::app::{App, TV};
use crate::explore::{Ch, Lib};
use crate::mechs;
use rsasl::callback::CallbackError;
use rsasl::prelude::ChannelBindingCallback;
use rsasl::config::SASLConfig;
use rsasl::mechanism::MechanismErrorKind;
use rsasl::prelude::*;
use rsasl::validate::{Validation, ValidationError};
use std::io::Write;
use std::cell::RefCell;
use std::sync::Arc;

/// Channel binding data known to the protocol
#[derive(Clone, Default, Debug)]
pub struct Cb(pub Vec<(String, Vec<u8>)>);
impl ChannelBindingCallback for Cb {
    fn get_cb_data(&self, cbname: &str) -> Option<&[u8]> {
        self.0.iter().find(|x| x.0 == cbname).map(|x| &x.1[..])
    }
}
pub fn no_cb() -> Cb {
    Cb(vec![])
}

/// Result of a step
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum R {
    Running,
    FinYes,
    FinNo,
    Err(String),
}
impl R {
    pub fn is_err(&self) -> bool {
        matches!(self, R::Err(_))
    }
    pub fn ok(&self) -> bool {
        !self.is_err()
    }
    pub fn fin(&self) -> bool {
        matches!(self, R::FinYes | R::FinNo)
    }
    pub fn sent(&self) -> bool {
        matches!(self, R::Running | R::FinYes)
    }
    pub fn is(&self, e: &str) -> bool {
        matches!(self, R::Err(x) if x == e)
    }
    /// result class without the kind of error
    pub fn tag(&self) -> &'static str {
        match self {
            R::Running => "running",
            R::FinYes => "fin+msg",
            R::FinNo => "fin",
            R::Err(_) => "err",
        }
    }
}

thread_local! {
    static UNTRUE: RefCell<Option<String>> = const { RefCell::new(None) };
}
fn untrue(s: String) {
    UNTRUE.with(|u| *u.borrow_mut() = Some(s));
}
/// A contradiction between a result and what its methods say about it, since the last call
pub fn take_untrue() -> Option<String> {
    UNTRUE.with(|u| u.borrow_mut().take())
}

pub fn class(e: &SessionError) -> String {
    let missing = matches!(e, SessionError::CallbackError(CallbackError::NoCallback(_)));
    if e.is_missing_prop() != missing
        || e.is_mechanism_error() != matches!(e, SessionError::MechanismError(_))
        || matches!(e, SessionError::CallbackError(c) if c.is_no_callback() != missing)
        || !matches!(SessionError::input_required(), SessionError::InputDataRequired)
    {
        untrue(format!("{e:?}: is_missing_prop {}, is_mechanism_error {}", e.is_missing_prop(), e.is_mechanism_error()));
    }
    match e {
        SessionError::Io { .. } => "Io".into(),
        SessionError::Base64 { .. } => "Base64".into(),
        SessionError::NoSecurityLayer => "NoSecurityLayer".into(),
        SessionError::InputDataRequired => "InputDataRequired".into(),
        SessionError::MechanismDone => "MechanismDone".into(),
        SessionError::MechanismError(m) => match m.kind() {
            MechanismErrorKind::Parse => "Mech:parse".into(),
            MechanismErrorKind::Protocol => "Mech:protocol".into(),
            MechanismErrorKind::Outcome => "Mech:outcome".into(),
            _ => "Mech:?".into(),
        },
        SessionError::CallbackError(CallbackError::NoValue) => "NoValue".into(),
        SessionError::CallbackError(CallbackError::NoCallback(_)) => "NoCallback".into(),
        SessionError::CallbackError(CallbackError::EarlyReturn(_)) => "EarlyReturn".into(),
        SessionError::CallbackError(_) => "Callback:?".into(),
        SessionError::ValidationError(ValidationError::MissingRequiredProperty) => "Validation:missing".into(),
        SessionError::ValidationError(ValidationError::Boxed(b)) => format!("Validation:{b}"),
        SessionError::ValidationError(_) => "Validation:?".into(),
        SessionError::Boxed(b) => format!("Boxed:{b}"),
        SessionError::NoValidate => "NoValidate".into(),
        SessionError::MutualAuthenticationFailed => "MutualAuthenticationFailed".into(),
        SessionError::MissingChannelBindingData(n) => format!("MissingCb:{n}"),
        _ => "Other".into(),
    }
}

pub fn to_r(r: Result<State, SessionError>) -> R {
    if let Ok(s) = &r {
        let run = matches!(s, State::Running);
        let sent = run || matches!(s, State::Finished(MessageSent::Yes));
        if (s.is_running(), s.is_finished(), s.has_sent_message()) != (run, !run, sent) {
            untrue(format!("{s:?}: is_running {}, is_finished {}, has_sent_message {}", s.is_running(), s.is_finished(), s.has_sent_message()));
        }
    }
    match r {
        Ok(State::Running) => R::Running,
        Ok(State::Finished(MessageSent::Yes)) => R::FinYes,
        Ok(State::Finished(MessageSent::No)) => R::FinNo,
        Err(e) => R::Err(class(&e)),
    }
}

#[derive(Clone, Debug)]
pub struct Out {
    pub r: R,
    pub bytes: Vec<u8>,
}
impl Out {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.bytes).into_owned()
    }
}

/// A session of either side, whatever provides its channel binding data
trait Sess {
    fn mech(&self) -> &str;
    fn first(&self) -> bool;
    fn validation(&mut self) -> Option<String>;
    fn has_layer(&self) -> bool;
    fn step(&mut self, input: Option<&[u8]>, w: &mut dyn Write) -> Result<State, SessionError>;
    fn step64(&mut self, input: Option<&[u8]>, w: &mut dyn Write) -> Result<State, SessionError>;
    fn encode(&mut self, input: &[u8], w: &mut dyn Write) -> Result<usize, SessionError>;
    fn decode(&mut self, input: &[u8], w: &mut dyn Write) -> Result<usize, SessionError>;
}
trait Taken {
    fn text(self) -> Option<String>;
}
impl Taken for Option<()> {
    fn text(self) -> Option<String> {
        None
    }
}
impl Taken for Option<String> {
    fn text(self) -> Option<String> {
        self
    }
}
impl<V: Validation, C: ChannelBindingCallback> Sess for Session<V, C>
where
    Option<V::Value>: Taken,
{
    fn mech(&self) -> &str {
        self.get_mechname().as_str()
    }
    fn first(&self) -> bool {
        self.are_we_first()
    }
    fn validation(&mut self) -> Option<String> {
        Session::validation(self).text()
    }
    fn has_layer(&self) -> bool {
        self.has_security_layer()
    }
    fn step(&mut self, input: Option<&[u8]>, mut w: &mut dyn Write) -> Result<State, SessionError> {
        Session::step(self, input, &mut w)
    }
    fn step64(&mut self, input: Option<&[u8]>, mut w: &mut dyn Write) -> Result<State, SessionError> {
        Session::step64(self, input, &mut w)
    }
    fn encode(&mut self, input: &[u8], mut w: &mut dyn Write) -> Result<usize, SessionError> {
        Session::encode(self, input, &mut w)
    }
    fn decode(&mut self, input: &[u8], mut w: &mut dyn Write) -> Result<usize, SessionError> {
        Session::decode(self, input, &mut w)
    }
}

pub struct Party {
    client: bool,
    s: Box<dyn Sess>,
}

/// How a session without binding data of the protocol is made: with an empty binding callback or
/// with `new`, as protocols without channel bindings do
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Via {
    Own,
    Provided,
}
pub fn client_via(cfg: Arc<SASLConfig>, offers: &[&str], cb: Cb, via: Via) -> Result<Party, SASLError> {
    let names: Vec<&rsasl::mechname::Mechname> = offers.iter().map(|o| mechs::name(o)).collect();
    let s: Box<dyn Sess> = match (via, cb.0.len()) {
        (Via::Provided, 0) => Box::new(SASLClient::new(cfg).start_suggested_iter(names)?),
        _ => Box::new(SASLClient::with_cb(cfg, cb).start_suggested(&names)?),
    };
    Ok(Party { client: true, s })
}
pub fn server_via(cfg: Arc<SASLConfig>, sel: &str, cb: Cb, via: Via) -> Result<Party, SASLError> {
    let n = mechs::name(sel);
    let s: Box<dyn Sess> = match (via, cb.0.len()) {
        (Via::Provided, 0) => Box::new(SASLServer::<TV>::new(cfg).start_suggested(n)?),
        _ => Box::new(SASLServer::<TV, Cb>::with_cb(cfg, cb).start_suggested(n)?),
    };
    Ok(Party { client: false, s })
}
pub fn client_cfg(cfg: Arc<SASLConfig>, offers: &[&str], cb: Cb) -> Result<Party, SASLError> {
    // without binding data a protocol uses `new`
    let via = if cb.0.is_empty() { Via::Provided } else { Via::Own };
    client_via(cfg, offers, cb, via)
}
pub fn server_cfg(cfg: Arc<SASLConfig>, sel: &str, cb: Cb) -> Result<Party, SASLError> {
    let via = if cb.0.is_empty() { Via::Provided } else { Via::Own };
    server_via(cfg, sel, cb, via)
}

impl Party {
    /// A client of exactly this mechanism
    pub fn client(app: &App, mech: &str, cb: Cb) -> Party {
        let mut app = app.clone();
        if mechs::is_plus(mech) {
            app.enable_cb = true;
        }
        client_cfg(app.config(mechs::reg(&[mech])), &[mech], cb).lib("a client session of the mechanism could not be started")
    }
    /// A server of exactly this mechanism
    pub fn server(app: &App, mech: &str, cb: Cb) -> Party {
        server_cfg(app.config(mechs::reg(&[mech])), mech, cb).lib("a server session of the mechanism could not be started")
    }
    pub fn is_client(&self) -> bool {
        self.client
    }
    pub fn who(&self) -> &'static str {
        if self.client {
            "client"
        } else {
            "server"
        }
    }
    pub fn mech(&self) -> &str {
        self.s.mech()
    }
    pub fn first(&self) -> bool {
        self.s.first()
    }
    pub fn validation(&mut self) -> Option<String> {
        self.s.validation()
    }
    pub fn has_layer(&self) -> bool {
        self.s.has_layer()
    }
    pub fn raw_step(&mut self, input: Option<&[u8]>, w: &mut dyn Write) -> R {
        to_r(self.s.step(input, w))
    }
    pub fn raw_step64(&mut self, input: Option<&[u8]>, w: &mut dyn Write) -> R {
        to_r(self.s.step64(input, w))
    }
    pub fn encode(&mut self, input: &[u8], w: &mut dyn Write) -> Result<usize, String> {
        self.s.encode(input, w).map_err(|e| class(&e))
    }
    pub fn decode(&mut self, input: &[u8], w: &mut dyn Write) -> Result<usize, String> {
        self.s.decode(input, w).map_err(|e| class(&e))
    }
    pub fn step(&mut self, ch: &mut Ch, input: Option<&[u8]>) -> Out {
        let mut w = Vec::new();
        let r = self.raw_step(input, &mut w);
        note(ch, self, "step", input, &r, &w);
        Out { r, bytes: w }
    }
    pub fn step64(&mut self, ch: &mut Ch, input: Option<&[u8]>) -> Out {
        let mut w = Vec::new();
        let r = self.raw_step64(input, &mut w);
        note(ch, self, "step64", input, &r, &w);
        Out { r, bytes: w }
    }
    /// One step with a writer chosen by the environment.
    pub fn step_w(&mut self, ch: &mut Ch, input: Option<&[u8]>, w: &mut impl Write, b64: bool) -> R {
        let r = if b64 { self.raw_step64(input, w) } else { self.raw_step(input, w) };
        note(ch, self, if b64 { "step64" } else { "step" }, input, &r, &[]);
        r
    }
}

/// Observation of a message: SCRAM messages carry random values, so only their shape counts.
pub fn shape(mech: &str, m: &[u8]) -> Vec<u8> {
    if !mech.starts_with("SCRAM") {
        return m.to_vec();
    }
    let mut o = vec![];
    for p in m.split(|b| *b == b',') {
        o.extend_from_slice(&p[..p.len().min(2)]);
        o.push(b'#');
        if p.starts_with(b"n=") || p.starts_with(b"a=") || p.starts_with(b"i=") || p.starts_with(b"e=") {
            o.extend_from_slice(p);
        } else {
            o.extend_from_slice(p.len().to_string().as_bytes());
        }
    }
    o
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(160) {
        for e in std::ascii::escape_default(*c) {
            s.push(e as char);
        }
    }
    if b.len() > 160 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

pub fn note(ch: &mut Ch, p: &Party, what: &str, input: Option<&[u8]>, r: &R, out: &[u8]) {
    ch.step();
    let mech = p.mech().to_string();
    ch.obs(&(p.is_client(), &mech, input.map(|i| shape(&mech, i)), r, shape(&mech, out)));
    let who = p.who();
    ch.log(|| {
        format!(
            "{who}.{what}({}) -> {r:?}, wrote \"{}\"",
            input.map_or("None".into(), |i| format!("\"{}\"", show(i))),
            show(out)
        )
    });
}

/// Both ends of an exchange.
pub struct Duo {
    pub c: Party,
    pub s: Party,
}
#[derive(Clone, Debug, Default)]
pub struct DuoRun {
    /// (from the client, message)
    pub msgs: Vec<(bool, Vec<u8>)>,
    pub cr: Option<R>,
    pub sr: Option<R>,
    /// protocol anomaly: message to a finished side, deadlock, endless exchange
    pub anomaly: Option<String>,
    /// set when the final step without data was needed
    pub final_none: bool,
}
impl DuoRun {
    pub fn both_finished(&self) -> bool {
        self.cr.as_ref().is_some_and(R::fin) && self.sr.as_ref().is_some_and(R::fin)
    }
}

pub const MAX_MSGS: usize = 24;

impl Duo {
    pub fn new(capp: &App, sapp: &App, mech: &str, ccb: Cb, scb: Cb) -> Duo {
        Duo { c: Party::client(capp, mech, ccb), s: Party::server(sapp, mech, scb) }
    }
    pub fn run(&mut self, ch: &mut Ch) -> DuoRun {
        self.run_with(ch, &mut |_, _, m| vec![m])
    }
    /// Drives both ends purely by the states they report.  `net` maps each message in transit to
    /// what arrives (normally exactly the message).
    pub fn run_with(&mut self, ch: &mut Ch, net: &mut dyn FnMut(&mut Ch, bool, Vec<u8>) -> Vec<Vec<u8>>) -> DuoRun {
        let mut d = DuoRun::default();
        let cf = self.c.first();
        let sf = self.s.first();
        if cf == sf {
            d.anomaly = Some(format!("both ends claim first={cf}"));
            return d;
        }
        let mut turn = cf; // true: client
        let mut inbox: Option<Vec<u8>> = None;
        let mut begun = false;
        loop {
            if d.msgs.len() > MAX_MSGS {
                d.anomaly = Some("the exchange does not end".into());
                return d;
            }
            let input = if begun { inbox.take() } else { None };
            let last = if turn { &d.cr } else { &d.sr };
            match last {
                Some(r) if r.fin() => {
                    if input.is_some() {
                        d.anomaly = Some(format!(
                            "a message arrived at the {} after it had finished",
                            if turn { "client" } else { "server" }
                        ));
                    }
                    return d;
                }
                _ => {}
            }
            if begun && input.is_none() {
                d.final_none = true;
            }
            let p = if turn { &mut self.c } else { &mut self.s };
            let o = p.step(ch, input.as_deref());
            let final_call = begun && input.is_none();
            begun = true;
            if turn {
                d.cr = Some(o.r.clone());
            } else {
                d.sr = Some(o.r.clone());
            }
            match &o.r {
                R::Err(_) => return d,
                R::Running if final_call => {
                    d.anomaly = Some(format!(
                        "the {} is still running after the other end finished without a message",
                        if turn { "client" } else { "server" }
                    ));
                    return d;
                }
                R::FinYes | R::Running => {
                    d.msgs.push((turn, o.bytes.clone()));
                    let mut ms = net(ch, turn, o.bytes);
                    match ms.len() {
                        0 => return d, // dropped: nothing more happens
                        1 => inbox = ms.pop(),
                        _ => {
                            // duplicated: deliver all but the last directly
                            let last = ms.pop();
                            for m in ms {
                                let q = if turn { &mut self.s } else { &mut self.c };
                                let o2 = q.step(ch, Some(&m));
                                if turn {
                                    d.sr = Some(o2.r.clone());
                                } else {
                                    d.cr = Some(o2.r.clone());
                                }
                                if !matches!(o2.r, R::Running) {
                                    return d;
                                }
                            }
                            inbox = last;
                        }
                    }
                }
                R::FinNo => {
                    if !o.bytes.is_empty() {
                        d.anomaly = Some(format!(
                            "the {} wrote bytes but reported that no message was sent",
                            if turn { "client" } else { "server" }
                        ));
                        return d;
                    }
                    inbox = None;
                }
            }
            turn = !turn;
        }
    }
}
