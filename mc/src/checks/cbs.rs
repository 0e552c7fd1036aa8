//! C19, C20: requests to the application.
use super::util::*;
use super::{tree, Check};
use crate::explore::Lib;
use crate::app::{ctx_get, App, Ctx, Ev, Fault, Part, Style, VMode, P, TV, V};
use crate::drive::{class, shape, Cb, Party, R};
use crate::explore::Ch;
use crate::kit::{Kit, Walk};
use crate::mechs;
use core2::io::Write;
use rsasl::callback::{CallbackError, Context, Request, SessionCallback, SessionData};
use rsasl::mechanism::{Authentication, Demand, DemandReply, EmptyProvider, MechanismData, Provider, ProviderExt, ThisProvider};
use rsasl::prelude::*;
use rsasl::property::*;
use rsasl::registry::{Selection, Side};
use rsasl::validate::{Validate, ValidationError};
use std::cell::RefCell;
use std::sync::{Arc, OnceLock};

pub fn add(v: &mut Vec<Check>) {
    v.push(Check {
        id: "C19",
        trees: vec![
            tree("requests", "every kind of request for each of 8 properties x every sequence of up to 3 (thorough 4) answers, action reads and lazy answers of the application, bubbled up or not x every end of the callback x closure results", (0, 0), requests),
            tree("contexts", "every composition of up to 3 (thorough 4) provided values of 6 properties, nested both ways, seen by request callbacks, channel binding callbacks and validation", (0, 0), contexts),
            tree("styles", "every exchange of every mechanism answered directly, by chains, by reversed chains and with wrong further answers: no difference may be visible", (0, 0), styles),
            tree("told", "the context of every request of every exchange against the values the peers really used", (0, 0), told),
            tree("told-values", "the same for names, identities, tokens, fields, salts, iteration counts and binding data of every kind and length", (0, 0), told_values),
        ],
        assumptions: &["an application that swallows the error of a failed evaluation is not judged"],
    });
    v.push(Check {
        id: "C20",
        trees: vec![
            tree("errors", "every mechanism x course of the exchange x request of either side x 10 kinds of errors, before and after answering", (0, 0), errors),
            tree("silence", "every mechanism x course x every set of up to 2 (thorough 3) requests of either side left unanswered, silently or with the no-value error", (0, 0), silence),
            tree("subsets", "every mechanism x every subset of the values a client application can supply, exact messages expected", (0, 0), subsets),
            tree("defaults", "every mechanism x course with applications of either side that leave the request handler, the validation or everything to the crate's defaults: as if they were silent", (0, 0), defaults),
        ],
        assumptions: &[],
    });
}

// ------------------------------------------------------------------------ a mechanism of our own

pub struct Num;
impl SizedProperty<'_> for Num {
    type Value = u32;
}
pub struct Lent;
impl<'a> SizedProperty<'a> for Lent {
    type Value = &'a str;
}

type Body = Box<dyn FnOnce(&mut MechanismData, &mut dyn Write) -> Result<State, SessionError>>;
type Answer = Box<dyn FnOnce(&SessionData, &Context<'_>, &mut Request<'_>) -> Result<(), SessionError>>;
type Judge = Box<dyn FnOnce(&SessionData, &Context<'_>, &mut Validate<'_>) -> Result<(), ValidationError>>;
#[derive(Default)]
struct Script {
    body: Option<Body>,
    answers: Vec<Answer>,
    judge: Option<Judge>,
    asked: usize,
}
thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::default();
}
struct Probe;
impl Authentication for Probe {
    fn step(&mut self, session: &mut MechanismData, _i: Option<&[u8]>, w: &mut dyn Write) -> Result<State, SessionError> {
        let b = SCRIPT.with(|s| s.borrow_mut().body.take()).expect("script");
        b(session, w)
    }
}
struct ProbeApp;
impl SessionCallback for ProbeApp {
    fn callback(&self, sd: &SessionData, c: &Context, r: &mut Request) -> Result<(), SessionError> {
        let a = SCRIPT.with(|s| {
            let mut s = s.borrow_mut();
            s.asked += 1;
            if s.answers.is_empty() {
                None
            } else {
                Some(s.answers.remove(0))
            }
        });
        a.map_or(Ok(()), |a| a(sd, c, r))
    }
    fn validate(&self, sd: &SessionData, c: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        let a = SCRIPT.with(|s| s.borrow_mut().judge.take());
        a.map_or(Ok(()), |a| a(sd, c, v))
    }
}
fn probe_cfg() -> Arc<SASLConfig> {
    static M: OnceLock<&'static [Mechanism]> = OnceLock::new();
    fn start() -> Result<Box<dyn Authentication>, SASLError> {
        Ok(Box::new(Probe))
    }
    fn serve(_: &SASLConfig) -> Result<Box<dyn Authentication>, SASLError> {
        Ok(Box::new(Probe))
    }
    fn select(_: bool) -> Option<Selection> {
        Some(rsasl::registry::Matches::<Probe>::name())
    }
    impl rsasl::registry::Named for Probe {
        fn mech() -> &'static Mechanism {
            &M.get().unwrap()[0]
        }
    }
    let m = M.get_or_init(|| {
        Vec::leak(vec![Mechanism::build(mechs::name("MC-PROBE"), 1, Some(start), Some(serve), Side::Client, select, |_| true)])
    });
    SASLConfig::builder().with_registry(Registry::with_mechanisms(m)).with_callback(ProbeApp).lib("no configuration")
}
fn probe(server: bool, cb: Cb) -> Party {
    if server {
        crate::drive::server_cfg(probe_cfg(), "MC-PROBE", cb).lib("a session could not be started")
    } else {
        crate::drive::client_cfg(probe_cfg(), &["MC-PROBE"], cb).lib("a session could not be started")
    }
}
/// Runs `body` as one step of a session; `answers` answer its requests in order.
fn run_probe(server: bool, cb: Cb, body: Body, answers: Vec<Answer>, judge: Option<Judge>) -> (R, usize) {
    SCRIPT.with(|s| *s.borrow_mut() = Script { body: Some(body), answers, judge, asked: 0 });
    let mut p = probe(server, cb);
    let r = p.raw_step(None, &mut Vec::new());
    let n = SCRIPT.with(|s| s.take().asked);
    (r, n)
}

/// A mechanism with a layer that can be switched on and off; frames of up to 3 bytes, reversed
#[derive(Default)]
struct Layered {
    on: bool,
}
impl Authentication for Layered {
    fn step(&mut self, _s: &mut MechanismData, i: Option<&[u8]>, _w: &mut dyn Write) -> Result<State, SessionError> {
        self.on = match i {
            Some(b"on") => true,
            Some(b"off") => false,
            _ => return Err(SessionError::InputDataRequired),
        };
        Ok(State::Running)
    }
    fn encode(&mut self, i: &[u8], w: &mut dyn Write) -> Result<usize, SessionError> {
        if !self.on {
            return Err(SessionError::NoSecurityLayer);
        }
        let n = i.len().min(3);
        w.write_all(&frame(&i[..n]))?;
        Ok(n)
    }
    fn decode(&mut self, i: &[u8], w: &mut dyn Write) -> Result<usize, SessionError> {
        if !self.on {
            return Err(SessionError::NoSecurityLayer);
        }
        match i.first() {
            Some(n) if i.len() > *n as usize => {
                let mut v = i[1..=*n as usize].to_vec();
                v.reverse();
                w.write_all(&v)?;
                Ok(1 + *n as usize)
            }
            _ => Err(SessionError::InputDataRequired),
        }
    }
    fn has_security_layer(&self) -> bool {
        self.on
    }
}
fn frame(i: &[u8]) -> Vec<u8> {
    let mut v = i.to_vec();
    v.reverse();
    v.insert(0, i.len() as u8);
    v
}
fn layered_cfg() -> Arc<SASLConfig> {
    static M: OnceLock<&'static [Mechanism]> = OnceLock::new();
    fn start() -> Result<Box<dyn Authentication>, SASLError> {
        Ok(Box::<Layered>::default())
    }
    fn serve(_: &SASLConfig) -> Result<Box<dyn Authentication>, SASLError> {
        Ok(Box::<Layered>::default())
    }
    fn select(_: bool) -> Option<Selection> {
        Some(rsasl::registry::Matches::<Layered>::name())
    }
    impl rsasl::registry::Named for Layered {
        fn mech() -> &'static Mechanism {
            &M.get().unwrap()[0]
        }
    }
    let m = M.get_or_init(|| {
        Vec::leak(vec![Mechanism::build(mechs::name("MC-LAYER"), 1, Some(start), Some(serve), Side::Client, select, |_| true)])
    });
    SASLConfig::builder().with_registry(Registry::with_mechanisms(m)).with_callback(ProbeApp).lib("no configuration")
}
/// C24: a session of a mechanism of the application's own
pub fn custom_layers(ch: &mut Ch) {
    let server = ch.flip();
    let layered = ch.flip();
    SCRIPT.with(|s| s.take());
    let mut p = match (layered, server) {
        (false, _) => probe(server, no_cb2()),
        (true, true) => crate::drive::server_cfg(layered_cfg(), "MC-LAYER", no_cb2()).lib("a session could not be started"),
        (true, false) => crate::drive::client_cfg(layered_cfg(), &["MC-LAYER"], no_cb2()).lib("a session could not be started"),
    };
    let mut on = false;
    let mut log = vec![];
    let n = ch.choose(if ch.thorough { 7 } else { 5 });
    const DATA: [&[u8]; 6] = [b"", b"a", b"abc", b"\x02ba", b"\x00", b"\x03cbaxyz"];
    for _ in 0..n {
        let k = ch.choose(4);
        let what = format!("{} {}, after {log:?}, layer {on}", p.who(), p.mech());
        match k {
            0 | 1 => {
                let m: &[u8] = if k == 0 { b"on" } else { b"off" };
                if !layered {
                    // the mechanism without layers finishes instead
                    SCRIPT.with(|s| s.borrow_mut().body = Some(Box::new(|_, _| Ok(State::Finished(MessageSent::No)))));
                }
                let o = p.step(ch, Some(m));
                ch.check(o.r == if layered { R::Running } else { R::FinNo } && o.bytes.is_empty(), "disturbed", || format!("{what}: step gives {o:?}"));
                on = layered && k == 0;
                log.push(if k == 0 { "on" } else { "off" }.to_string());
            }
            _ => {
                let d = *ch.pick(&DATA);
                let mut out = vec![];
                let r = if k == 2 { p.encode(d, &mut out) } else { p.decode(d, &mut out) };
                ch.step();
                let (want, bytes): (Result<usize, String>, Vec<u8>) = if !on {
                    (Err("NoSecurityLayer".into()), vec![])
                } else if k == 2 {
                    let n = d.len().min(3);
                    (Ok(n), frame(&d[..n]))
                } else {
                    match d.first() {
                        Some(n) if d.len() > *n as usize => {
                            let mut v = d[1..=*n as usize].to_vec();
                            v.reverse();
                            (Ok(1 + *n as usize), v)
                        }
                        _ => (Err("InputDataRequired".into()), vec![]),
                    }
                };
                ch.obs(&(layered, server, on, k, d));
                ch.check(r == want && out == bytes, "layer-call", || format!("{what}: {} of {d:?} gives {r:?}, {out:?} instead of {want:?}, {bytes:?}", if k == 2 { "encode" } else { "decode" }));
                log.push(if k == 2 { "encode" } else { "decode" }.to_string());
            }
        }
        ch.check(p.has_layer() == on, "reported", || format!("{what}: then {}", p.has_layer()));
        if ch.failed() {
            return;
        }
    }
    ch.outcome(format!("{on}"));
}

/// The properties of the probe
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Q {
    AuthId,
    AuthzId,
    Host,
    Password,
    Binding,
    Num,
    Lent,
    Kv,
}
const QS: [Q; 8] = [Q::AuthId, Q::AuthzId, Q::Host, Q::Password, Q::Binding, Q::Num, Q::Lent, Q::Kv];
/// the i-th value of every type
const VS: [&str; 6] = ["v0", "v1", "v2", "v3", "v4", "v5"];
fn num(i: usize) -> u32 {
    100 + i as u32
}
fn satisfy(r: &mut Request<'_>, q: Q, i: usize) -> Result<(), SessionError> {
    let s = VS[i];
    match q {
        Q::AuthId => r.satisfy::<AuthId>(s).map(|_| ()),
        Q::AuthzId => r.satisfy::<AuthzId>(s).map(|_| ()),
        Q::Host => r.satisfy::<Hostname>(s).map(|_| ()),
        Q::Password => r.satisfy::<Password>(s.as_bytes()).map(|_| ()),
        Q::Binding => r.satisfy::<ChannelBindings>(s.as_bytes()).map(|_| ()),
        Q::Num => r.satisfy::<Num>(&num(i)).map(|_| ()),
        Q::Lent => r.satisfy::<Lent>(&s).map(|_| ()),
        Q::Kv => r.satisfy::<OAuthBearerKV>(&[(s, "x")]).map(|_| ()),
    }
}
fn satisfy_with(r: &mut Request<'_>, q: Q, i: usize, fail: bool, n: &mut usize) -> Result<(), SessionError> {
    match q {
        Q::Num => r
            .satisfy_with::<Num, _>(|| {
                *n += 1;
                if fail {
                    Err(SessionError::Boxed("lazy".into()))
                } else {
                    Ok(num(i))
                }
            })
            .map(|_| ()),
        Q::Lent => r
            .satisfy_with::<Lent, _>(|| {
                *n += 1;
                if fail {
                    Err(SessionError::Boxed("lazy".into()))
                } else {
                    Ok(VS[i])
                }
            })
            .map(|_| ()),
        _ => unreachable!(),
    }
}
fn take(r: &mut Request<'_>, q: Q) -> Option<String> {
    match q {
        Q::AuthId => r.get_action::<AuthId>().map(String::from),
        Q::AuthzId => r.get_action::<AuthzId>().map(String::from),
        Q::Host => r.get_action::<Hostname>().map(String::from),
        Q::Password => r.get_action::<Password>().map(|x| String::from_utf8_lossy(x).into_owned()),
        Q::Binding => r.get_action::<ChannelBindings>().map(|x| String::from_utf8_lossy(x).into_owned()),
        Q::Num => r.get_action::<Num>().map(|x| format!("{x}")),
        Q::Lent => r.get_action::<Lent>().map(|x| x.to_string()),
        Q::Kv => r.get_action::<OAuthBearerKV>().map(|x| format!("{x:?}")),
    }
}
fn is(r: &Request<'_>, q: Q) -> bool {
    match q {
        Q::AuthId => r.is::<AuthId>(),
        Q::AuthzId => r.is::<AuthzId>(),
        Q::Host => r.is::<Hostname>(),
        Q::Password => r.is::<Password>(),
        Q::Binding => r.is::<ChannelBindings>(),
        Q::Num => r.is::<Num>(),
        Q::Lent => r.is::<Lent>(),
        Q::Kv => r.is::<OAuthBearerKV>(),
    }
}
fn val(q: Q, i: usize) -> String {
    match q {
        Q::Num => num(i).to_string(),
        Q::Kv => format!("{:?}", [(VS[i], "x")]),
        _ => VS[i].to_string(),
    }
}
fn get(c: &Context<'_>, q: Q) -> Option<String> {
    match q {
        Q::AuthId => c.get_ref::<AuthId>().map(String::from),
        Q::AuthzId => c.get_ref::<AuthzId>().map(String::from),
        Q::Host => c.get_ref::<Hostname>().map(String::from),
        Q::Password => c.get_ref::<Password>().map(|x| String::from_utf8_lossy(x).into_owned()),
        Q::Binding => c.get_ref::<ChannelBindings>().map(|x| String::from_utf8_lossy(x).into_owned()),
        Q::Num => c.get_ref::<Num>().map(|x| format!("{x}")),
        Q::Lent => c.get_ref::<Lent>().map(|x| x.to_string()),
        Q::Kv => c.get_ref::<OAuthBearerKV>().map(|x| format!("{x:?}")),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Need,
    Maybe,
    Action,
    NeedCb,
    MaybeCb,
}
/// The mechanism's side: asks for `q` and tells what it got; `uses` counts the evaluations of its
/// closure.
fn ask(s: &mut MechanismData, k: Kind, q: Q, cb_fail: bool, uses: &RefCell<Vec<String>>) -> Result<Option<String>, SessionError> {
    macro_rules! q {
        ($t:ty, $v:expr, $f:expr) => {{
            let c = |x: &<$t as Property<'_>>::Value| {
                let s: String = $f(x);
                uses.borrow_mut().push(s.clone());
                if cb_fail {
                    Err(SessionError::Boxed("used".into()))
                } else {
                    Ok(s)
                }
            };
            match k {
                Kind::Need => s.need_with::<$t, _, _>(&EmptyProvider, c).map(Some),
                Kind::Maybe => s.maybe_need_with::<$t, _, _>(&EmptyProvider, c),
                Kind::Action => s.action::<$t>(&EmptyProvider, $v).map(|()| None),
                _ => unreachable!(),
            }
        }};
    }
    fn lossy(x: &[u8]) -> String {
        String::from_utf8_lossy(x).into_owned()
    }
    if matches!(k, Kind::NeedCb | Kind::MaybeCb) {
        let c = |x: &[u8]| {
            uses.borrow_mut().push(lossy(x));
            if cb_fail {
                Err(SessionError::Boxed("used".into()))
            } else {
                Ok(lossy(x))
            }
        };
        return if k == Kind::NeedCb {
            s.need_cb_data("type", EmptyProvider, c).map(Some)
        } else {
            s.maybe_need_cb_data("type", EmptyProvider, c)
        };
    }
    match q {
        Q::AuthId => q!(AuthId, VS[5], |x: &str| x.to_string()),
        Q::AuthzId => q!(AuthzId, VS[5], |x: &str| x.to_string()),
        Q::Host => q!(Hostname, VS[5], |x: &str| x.to_string()),
        Q::Password => q!(Password, VS[5].as_bytes(), lossy),
        Q::Binding => q!(ChannelBindings, VS[5].as_bytes(), lossy),
        Q::Num => q!(Num, &num(5), |x: &u32| x.to_string()),
        Q::Lent => q!(Lent, &VS[5], |x: &&str| x.to_string()),
        Q::Kv => q!(OAuthBearerKV, &[(VS[5], "x")], |x: &[(&str, &str)]| format!("{x:?}")),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// property, result bubbled up
    Satisfy(Q, bool),
    Lazy(Q, bool, bool),
    Take(Q),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Ok,
    NoValue,
    NoCallback,
    Boxed,
}
#[derive(Default, Debug)]
struct Seen {
    /// result of every operation
    res: Vec<String>,
    lazy: usize,
    is_wrong: Option<String>,
}
fn res_of(r: &Result<(), SessionError>) -> String {
    match r {
        Ok(()) => "Ok".into(),
        Err(e) => class(e),
    }
}

fn requests(ch: &mut Ch) {
    use std::rc::Rc;
    let kind = *ch.pick(&[Kind::Need, Kind::Maybe, Kind::Action, Kind::NeedCb, Kind::MaybeCb]);
    let is_cb = matches!(kind, Kind::NeedCb | Kind::MaybeCb);
    let q = if is_cb { Q::Binding } else { *ch.pick(&QS) };
    let cb_fail = kind != Kind::Action && ch.flip();
    // the same, one of the same value type, one of another type
    let others = match q {
        Q::AuthId => [Q::AuthzId, Q::Lent],
        Q::AuthzId => [Q::AuthId, Q::Num],
        Q::Host => [Q::AuthId, Q::Password],
        Q::Password => [Q::Binding, Q::AuthId],
        Q::Binding => [Q::Password, Q::Host],
        Q::Num => [Q::Lent, Q::AuthId],
        Q::Lent => [Q::Num, Q::AuthId],
        Q::Kv => [Q::Num, Q::AuthzId],
    };
    let mut al = vec![];
    for x in [q, others[0], others[1]] {
        al.extend([Op::Satisfy(x, true), Op::Satisfy(x, false), Op::Take(x)]);
    }
    for x in [Q::Num, Q::Lent] {
        al.extend([Op::Lazy(x, true, false), Op::Lazy(x, false, false), Op::Lazy(x, true, true)]);
    }
    let n = ch.choose(if ch.thorough { 5 } else { 4 });
    let ops: Vec<Op> = (0..n).map(|_| *ch.pick(&al)).collect();
    let end = *ch.pick(&[End::Ok, End::NoValue, End::NoCallback, End::Boxed]);

    let seen = Rc::new(RefCell::new(Seen::default()));
    let uses: Rc<RefCell<Vec<String>>> = Rc::default();
    let got: Rc<RefCell<Option<Result<Option<String>, String>>>> = Rc::default();
    let (u, g) = (uses.clone(), got.clone());
    let body: Body = Box::new(move |s, _| {
        let r = ask(s, kind, q, cb_fail, &u);
        *g.borrow_mut() = Some(r.as_ref().map(Clone::clone).map_err(class));
        r.map(|_| State::Finished(MessageSent::No))
    });
    let (se, ops2) = (seen.clone(), ops.clone());
    let answer: Answer = Box::new(move |_, c, r| {
        let look = |se: &RefCell<Seen>, r: &Request<'_>| {
            for x in QS {
                if is(r, x) != (x == q) {
                    se.borrow_mut().is_wrong = Some(format!("is::<{x:?}>() gives {}", is(r, x)));
                }
                if get(c, x).is_some() {
                    se.borrow_mut().is_wrong = Some(format!("the context has {x:?}"));
                }
            }
        };
        look(&se, r);
        for (i, op) in ops2.iter().enumerate() {
            let (res, bubble) = match *op {
                Op::Satisfy(x, b) => (satisfy(r, x, i), b),
                Op::Lazy(x, b, f) => {
                    let mut n = 0;
                    let o = satisfy_with(r, x, i, f, &mut n);
                    se.borrow_mut().lazy += n;
                    (o, b)
                }
                Op::Take(x) => {
                    let v = take(r, x);
                    se.borrow_mut().res.push(format!("{v:?}"));
                    continue;
                }
            };
            se.borrow_mut().res.push(res_of(&res));
            look(&se, r);
            if bubble {
                res?;
            }
        }
        match end {
            End::Ok => Ok(()),
            End::NoValue => Err(CallbackError::NoValue.into()),
            End::NoCallback => Err(CallbackError::NoCallback("app").into()),
            End::Boxed => Err(SessionError::Boxed("app".into())),
        }
    });
    let (r, asked) = run_probe(ch.flip(), no_cb2(), body, vec![answer], None);
    ch.step();
    let seen = seen.borrow();
    let uses = uses.borrow();
    let got = got.borrow().clone();
    let what = format!("{kind:?} {q:?}, closure fails: {cb_fail}, {ops:?} {end:?}");
    ch.log(|| format!("{what}: seen {seen:?}, uses {uses:?}, got {got:?}, step {r:?}"));
    ch.obs(&(&r, format!("{seen:?}"), &*uses));
    ch.check(asked == 1, "asked", || format!("{what}: the application was asked {asked} times"));
    if let Some(w) = &seen.is_wrong {
        ch.fail("is", format!("{what}: {w}"));
    }

    // reference
    let mut open = kind != Kind::Action;
    let mut taken = false;
    let mut value: Option<String> = None;
    let mut want_uses = vec![];
    let mut want_lazy = 0;
    let mut want_res = vec![];
    let mut ret: Option<String> = None;
    let mut swallowed = false;
    for (i, op) in ops.iter().enumerate() {
        let (res, bubble) = match *op {
            Op::Take(x) => {
                if kind == Kind::Action && x == q && !taken {
                    taken = true;
                    want_res.push(format!("{:?}", Some(val(q, 5))));
                } else {
                    want_res.push("None".into());
                }
                continue;
            }
            Op::Satisfy(x, b) | Op::Lazy(x, b, _) => {
                let lazy = matches!(op, Op::Lazy(..));
                let fails = matches!(op, Op::Lazy(_, _, true));
                if x != q || !open {
                    ("Ok".to_string(), b)
                } else {
                    want_lazy += usize::from(lazy);
                    if fails {
                        ("Boxed:lazy".into(), b)
                    } else {
                        open = false;
                        want_uses.push(val(q, i));
                        if cb_fail {
                            ("Boxed:used".into(), b)
                        } else {
                            value = Some(val(q, i));
                            ("EarlyReturn".into(), b)
                        }
                    }
                }
            }
        };
        want_res.push(res.clone());
        if res != "Ok" {
            if bubble {
                ret = Some(res);
                break;
            }
            if res != "EarlyReturn" {
                swallowed = true;
                break;
            }
        }
    }
    if swallowed {
        ch.outcome("swallowed");
        return;
    }
    ch.check(seen.res == want_res, "answers", || format!("{what}: the operations gave {:?}, expected {want_res:?}", seen.res));
    ch.check(seen.lazy == want_lazy, "evaluated", || format!("{what}: {} answers were evaluated, expected {want_lazy}", seen.lazy));
    ch.check(*uses == want_uses, "used", || format!("{what}: the mechanism used {uses:?}, expected {want_uses:?}"));
    let ret = ret.unwrap_or_else(|| {
        match end {
            End::Ok => "Ok",
            End::NoValue => "NoValue",
            End::NoCallback => "NoCallback",
            End::Boxed => "Boxed:app",
        }
        .into()
    });
    let Some(got) = got else {
        ch.fail("lost", format!("{what}: the request never returned"));
        return;
    };
    let missing = if is_cb { "MissingCb:type" } else { "NoCallback" };
    let want: Result<Option<String>, String> = match ret.as_str() {
        "Ok" | "EarlyReturn" | "NoValue" => match kind {
            Kind::Action if ret == "NoValue" => {
                ch.check(taken || got.is_err(), "handled", || format!("{what}: counted as handled"));
                return;
            }
            Kind::Action if taken => Ok(None),
            Kind::Action => Err("NoCallback".into()),
            Kind::Maybe | Kind::MaybeCb => Ok(value),
            _ => value.map(Some).ok_or_else(|| missing.into()),
        },
        e => Err(e.into()),
    };
    ch.check(got == want, "result", || format!("{what}: the request gave {got:?}, expected {want:?}"));
    ch.outcome(match want {
        Ok(Some(_)) => "answered".into(),
        Ok(None) if kind == Kind::Action => "handled".into(),
        Ok(None) => "unanswered".into(),
        Err(e) => e,
    });
}
fn no_cb2() -> Cb {
    Cb(vec![("other".into(), b"wrong".to_vec())])
}

/// A provider of any of the probe's properties
struct One(Q, usize);
impl Provider<'static> for One {
    fn provide(&self, r: &mut Demand<'static>) -> DemandReply<()> {
        let s = VS[self.1];
        static NUMS: [u32; 6] = [100, 101, 102, 103, 104, 105];
        match self.0 {
            Q::AuthId => ThisProvider::<AuthId>::with(s).provide(r),
            Q::AuthzId => r.provide_ref::<AuthzId>(s)?.done(),
            Q::Host => r.provide_ref::<Hostname>(s)?.done(),
            Q::Password => r.provide_ref::<Password>(s.as_bytes())?.done(),
            Q::Binding => ThisProvider::<ChannelBindings>::with(s.as_bytes()).provide(r),
            Q::Num => r.provide_ref::<Num>(&NUMS[self.1])?.done(),
            Q::Lent => r.provide_ref::<Lent>(&VS[self.1])?.done(),
            Q::Kv => r.done(),
        }
    }
}
/// A dynamic provider, to compose them
struct Dyn(Box<dyn Provider<'static>>);
impl Provider<'static> for Dyn {
    fn provide(&self, r: &mut Demand<'static>) -> DemandReply<()> {
        self.0.provide(r)
    }
}
fn contexts(ch: &mut Ch) {
    use std::rc::Rc;
    let n = ch.choose(if ch.thorough { 5 } else { 4 });
    const PS: [Q; 6] = [Q::AuthId, Q::AuthzId, Q::Password, Q::Binding, Q::Num, Q::Lent];
    let have: Vec<Q> = (0..n).map(|_| *ch.pick(&PS)).collect();
    // left to right, right to left, or with empty ones between
    let shape = if n == 0 { 0 } else { ch.choose(3) };
    let how = ch.choose(6);
    let server = ch.flip();
    let mk = || -> Dyn {
        let mut d: Option<Dyn> = None;
        let ones = have.iter().enumerate().map(|(i, q)| Dyn(Box::new(One(*q, i))));
        match shape {
            0 => {
                for o in ones {
                    d = Some(match d {
                        None => o,
                        Some(x) => Dyn(Box::new(x.and(o))),
                    });
                }
            }
            1 => {
                for o in ones.rev() {
                    d = Some(match d {
                        None => o,
                        Some(x) => Dyn(Box::new(o.and(x))),
                    });
                }
            }
            _ => {
                for o in ones {
                    let o = Dyn(Box::new(EmptyProvider.and(o)));
                    d = Some(match d {
                        None => o,
                        Some(x) => Dyn(Box::new(x.and(EmptyProvider).and(o))),
                    });
                }
            }
        }
        d.unwrap_or(Dyn(Box::new(EmptyProvider)))
    };
    let p = mk();
    let seen: Rc<RefCell<Vec<(String, Vec<Option<String>>)>>> = Rc::default();
    let snap = |c: &Context<'_>| -> Vec<Option<String>> { QS.iter().map(|q| get(c, *q)).chain([c.get_ref::<ChannelBindingName>().map(String::from), c.get_ref::<Realm>().map(String::from)]).collect() };
    let body: Body = Box::new(move |s, _| {
        match how {
            0 => s.need_with::<Hostname, _, _>(&p, |_| Ok(()))?,
            1 => s.action::<Hostname>(&p, "x")?,
            2 => s.need_cb_data("type", p, |_| Ok(()))?,
            3 => s.validate(&p)?,
            4 => {
                s.maybe_need_with::<Hostname, _, _>(&p, |_| Ok(()))?;
            }
            _ => {
                s.maybe_need_cb_data("type", p, |_| Ok(()))?;
            }
        }
        Ok(State::Finished(MessageSent::No))
    });
    fn id(sd: &SessionData) -> String {
        format!("{} {:?}", sd.mechanism().mechanism.as_str(), sd.side())
    }
    let (s1, s2) = (seen.clone(), seen.clone());
    let answer: Answer = Box::new(move |sd, c, r| {
        s1.borrow_mut().push((id(sd), snap(c)));
        r.get_action::<Hostname>();
        r.satisfy::<Hostname>("h")?.satisfy::<ChannelBindings>(b"b")?;
        Ok(())
    });
    let judge: Judge = Box::new(move |sd, c, v| {
        s2.borrow_mut().push((id(sd), snap(c)));
        v.finalize::<TV>("x".into());
        Ok(())
    });
    let (r, _) = run_probe(server, no_cb2(), body, vec![answer], Some(judge));
    ch.step();
    let cb = matches!(how, 2 | 5);
    let want: Vec<Option<String>> = QS
        .iter()
        .map(|q| have.iter().position(|x| x == q).map(|i| val(*q, i)))
        .chain([cb.then(|| "type".to_string()), None])
        .collect();
    let who = format!("MC-PROBE {:?}", if server { Side::Server } else { Side::Client });
    let what = format!("provided {have:?} (composition {shape}), call {how}");
    ch.obs(&(&have, shape, how, &want));
    ch.check(r == R::FinNo, "failed", || format!("{what}: {r:?}"));
    let seen = seen.borrow();
    ch.check(seen.len() == 1 && seen[0] == (who.clone(), want.clone()), "context", || {
        format!("{what}: the application saw {seen:?}, expected {:?}", (&who, &want))
    });
    ch.outcome("seen");
}

// ------------------------------------------------------------------- exchanges of all mechanisms

/// Courses an exchange can take; both ends stay within what the mechanism defines.
fn course(ch: &mut Ch, k: &mut Kit) -> &'static str {
    match ch.choose(8) {
        0 => "honest",
        1 => {
            k.capp.authzid = Some("zed".into());
            k.capp.kv = Some(vec![("host".into(), "h".into()), ("port".into(), "1".into())]);
            "authorization identity"
        }
        2 => {
            k.sapp.xverdict = Some(Err("{\"status\":\"401\"}".into()));
            k.sapp.overdict = Some(Err(("invalid_token".into(), Some("mail".into()), Some("http://x".into()))));
            "refused token"
        }
        3 => {
            k.capp.authid = Some("mallory".into());
            "unknown user"
        }
        4 => {
            k.capp.password = Some(b"wrong".to_vec());
            "wrong password"
        }
        5 => {
            // bindings known to the applications only
            k.ccb = Cb(vec![]);
            k.scb = Cb(vec![]);
            for a in [&mut k.capp, &mut k.sapp] {
                a.cbdata = vec![("tls-unique".into(), b"unique".to_vec())];
            }
            k.gss.rounds = 3;
            "bindings of the application"
        }
        6 => {
            k.ccb = Cb(vec![]);
            for a in [&mut k.capp, &mut k.sapp] {
                a.cbdata = vec![("tls-exporter".into(), b"\x01binding".to_vec()), ("other".into(), b"o".to_vec())];
            }
            k.capp.override_cb = Some("other".into());
            k.capp.salted = crate::refscram::Hash::of_mech(k.mech).map(|h| h.hi(b"pencil", b"salt", 1));
            "named binding, salted password"
        }
        _ => {
            if let Some(h) = crate::refscram::Hash::of_mech(k.mech) {
                let salted = h.hi(b"pencil", b"salt", 1);
                k.capp.cached = Some((h.client_key(&salted), h.server_key(&salted)));
            }
            "cached keys"
        }
    }
}
type Trace = Vec<(bool, R, Vec<u8>)>;
/// Results and the form of the messages of a whole exchange
fn play(ch: &mut Ch, k: &Kit) -> (Trace, Walk) {
    let mut w = Walk::new(k);
    let mut t = vec![];
    while !w.over {
        let c = w.turn;
        let o = w.advance(ch);
        // what is written by a failing step is nobody's business
        let m = if o.r.is_err() { vec![] } else { shape(k.mech, &o.bytes) };
        t.push((c, o.r, m));
    }
    (t, w)
}
fn styles(ch: &mut Ch) {
    let mut k = Kit::new(*ch.pick(mechs::all()));
    let cn = course(ch, &mut k);
    let (t0, mut w0) = play(ch, &k);
    let (v0, x0) = (k.sapp.validations(), w0.s.validation());
    let st = *ch.pick(&[Style::Chained, Style::Reversed, Style::Noisy]);
    let side = ch.choose(3);
    let mut k2 = k.fresh();
    if side != 1 {
        k2.capp.style = st;
    }
    if side != 0 {
        k2.sapp.style = st;
    }
    let (t1, mut w1) = play(ch, &k2);
    let what = format!("{}, {cn}, {st:?} answers", k.mech);
    ch.check(t0 == t1, "exchange", || format!("{what}: {}", diff(&t0, &t1)));
    let v1 = k2.sapp.validations();
    ch.check(v0 == v1, "validated", || format!("{what}: {v1:?} instead of {v0:?}"));
    let x1 = w1.s.validation();
    ch.check(x0 == x1, "value", || format!("{what}: {x1:?} instead of {x0:?}"));
    let (e0, e1) = (k.capp.requests(), k2.capp.requests());
    ch.check(e0 == e1, "asked", || format!("{what}: client requests {e1:?} instead of {e0:?}"));
    let (e0, e1) = (k.sapp.requests(), k2.sapp.requests());
    ch.check(e0 == e1, "asked", || format!("{what}: server requests {e1:?} instead of {e0:?}"));
    for p in [P::XErr, P::OErr] {
        let (a0, a1) = (k.capp.actions(p), k2.capp.actions(p));
        ch.check(a0 == a1, "actions", || format!("{what}: {a1:?} instead of {a0:?}"));
    }
    ch.outcome(if w0.both_finished() { "finished" } else { "failed" });
}
fn diff(a: &Trace, b: &Trace) -> String {
    let f = |t: &Trace| t.iter().map(|x| format!("{} {:?} {:?}", if x.0 { "C" } else { "S" }, x.1, crate::drive::show(&x.2))).collect::<Vec<_>>().join("; ");
    format!("[{}] instead of [{}]", f(b), f(a))
}

/// Everything a request's context may say, with the true value
fn truth(k: &Kit, client: bool) -> Ctx {
    let scram = k.mech.starts_with("SCRAM");
    let mut t: Ctx = vec![];
    if client {
        if scram {
            let u = k.sapp.db.first();
            t.push((P::Salt, V::B(u.map_or(b"salt".to_vec(), |u| u.salt.clone()))));
            t.push((P::Iterations, V::N(u.map_or(1, |u| u.iterations))));
        }
    } else {
        t.push((P::AuthId, s(k.capp.authid.as_deref().unwrap_or(""))));
        t.push((P::AuthzId, s(k.capp.authzid.as_deref().unwrap_or(""))));
        if let Some(x) = &k.capp.token {
            t.push((P::Token, s(x)));
        }
        t.push((P::Kv, V::Kv(k.capp.kv.clone().unwrap_or_default())));
    }
    t
}
/// What a request must be accompanied by, because the application needs it to answer
fn needed(mech: &str, client: bool, p: P) -> &'static [P] {
    match (p, client) {
        (P::CbData, _) => &[P::CbName],
        (P::Stored, false) => &[P::AuthId],
        (P::XVal, false) => &[P::AuthId, P::Token],
        (P::OVal, false) => &[P::Token],
        (P::Cached | P::Salted | P::Password, true) if mech.starts_with("SCRAM") => &[P::Salt, P::Iterations],
        _ => &[],
    }
}
fn told(ch: &mut Ch) {
    let mut k = Kit::new(*ch.pick(mechs::all()));
    let cn = course(ch, &mut k);
    let w = truthful(ch, &k, cn);
    ch.obs(&(k.mech, cn));
    ch.outcome(if w.both_finished() { "finished" } else { "failed" });
}
/// The same for every kind of value
fn told_values(ch: &mut Ch) {
    let scram = "SCRAM-SHA-1";
    let (m, what) = *ch.pick(&[
        (scram, "name"),
        (scram, "identity"),
        (scram, "salt"),
        (scram, "iterations"),
        ("SCRAM-SHA-512-PLUS", "salt"),
        ("SCRAM-SHA-256-PLUS", "data"),
        ("SCRAM-SHA-256-PLUS", "name"),
        ("XOAUTH2", "name"),
        ("XOAUTH2", "token"),
        ("OAUTHBEARER", "token"),
        ("OAUTHBEARER", "identity"),
        ("OAUTHBEARER", "fields"),
    ]);
    let mut k = Kit::new(m);
    k.sapp.db = vec![super::scram::user("user", b"pencil", b"salt", 1)];
    let t = |ch: &mut Ch| {
        let t = text(ch, |c| c != '\0' && c != '\x01');
        (!t.is_empty()).then_some(t).unwrap_or_else(|| "x".into())
    };
    match what {
        "name" => {
            let n = t(ch);
            k.sapp.db = vec![super::scram::user(&n, b"pencil", b"salt", 1)];
            k.capp.authid = Some(n);
        }
        "identity" => k.capp.authzid = Some(t(ch)),
        "salt" => {
            let v = octets(ch, |_| true);
            k.sapp.db = vec![super::scram::user("user", b"pencil", &v, 1)];
        }
        "iterations" => {
            let n = *ch.pick(&[1, 2, 9, 10, 11, 99, 100, 255, 256, 257, 1000, 1024, 4095, 4096, 4097, 9999, 10000, 32767, 32768, 65535, 65536, 65537]);
            k.sapp.db = vec![super::scram::user("user", b"pencil", b"salt", n)];
        }
        "data" => {
            let v = octets(ch, |_| true);
            k.ccb = Cb(vec![("tls-exporter".into(), v)]);
            k.scb = k.ccb.clone();
        }
        "token" => k.capp.token = Some(t(ch)),
        _ => {
            let v = t(ch);
            k.capp.kv = Some(vec![("a".into(), "b".into()), ("key".into(), v), ("c".into(), "d".into())]);
        }
    }
    let w = truthful(ch, &k, what);
    // only what is said is judged here
    ch.outcome(if w.both_finished() { "finished" } else { "failed" });
}
fn truthful(ch: &mut Ch, k: &Kit, cn: &str) -> Walk {
    let (_, w) = play(ch, k);
    let what = format!("{}, {cn}", k.mech);
    for client in [true, false] {
        let truth = truth(k, client);
        let mut cbs = vec![];
        for e in k.app(client).events() {
            let Ev::Req { p, ctx, .. } = e else { continue };
            for (q, v) in &ctx {
                if *q == P::CbName {
                    if let V::S(n) = v {
                        cbs.push(n.clone());
                    }
                    ch.check(p == P::CbData, "binding-name", || format!("{what}: the request for {p:?} mentions a channel binding"));
                    continue;
                }
                // the salt of an unknown user is invented
                if cn == "unknown user" && matches!(q, P::Salt | P::Iterations) {
                    continue;
                }
                let t = ctx_get(&truth, *q);
                ch.check(t == Some(v), "untrue", || format!("{what}: {} request {p:?}: {q:?} is {v:?}, in truth {t:?}", side(client)));
            }
            for q in needed(k.mech, client, p) {
                ch.check(ctx_get(&ctx, *q).is_some(), "missing", || format!("{what}: {} request {p:?} lacks {q:?}: {ctx:?}", side(client)));
            }
            if !client && p == P::Stored || p == P::OVal {
                let z = ctx_get(&ctx, P::AuthzId);
                let want = k.capp.authzid.as_deref();
                let ok = match want {
                    Some(x) => z == Some(&s(x)),
                    None => z.is_none() || z == Some(&s("")),
                };
                ch.check(ok, "authzid", || format!("{what}: request {p:?}: authorization identity {z:?}, the client sent {want:?}"));
            }
        }
        if mechs::is_plus(k.mech) {
            let want: &[&str] = match (cn, client) {
                ("bindings of the application", true) => &["tls-exporter", "tls-unique"],
                ("bindings of the application", false) => &["tls-unique"],
                ("named binding, salted password", _) => &["other"],
                _ => &[],
            };
            ch.check(cbs == want, "bindings", || format!("{what}: the {} asked the application for {cbs:?}, expected {want:?}", side(client)));
        }
    }
    w
}
fn side(client: bool) -> &'static str {
    if client {
        "client"
    } else {
        "server"
    }
}

// --------------------------------------------------------------------------------------- C20

/// Requests of one side in the undisturbed exchange, with the number of the delivery they occur in
fn asked(ch: &mut Ch, k: &Kit, client: bool) -> Vec<(P, Option<String>, usize)> {
    let k = k.fresh();
    let mut w = Walk::new(&k);
    let mut v = vec![];
    let mut d = 0;
    while !w.over {
        w.advance(ch);
        let e = k.app(client).events();
        let reqs: Vec<_> = e
            .iter()
            .filter_map(|e| match e {
                Ev::Req { p, ctx, .. } => Some((*p, crate::app::ctx_str(ctx, P::CbName).map(String::from))),
                Ev::Val { .. } => None,
            })
            .collect();
        for r in &reqs[v.len()..] {
            v.push((r.0, r.1.clone(), d));
        }
        d += 1;
    }
    v
}
/// The client's offer of keys after success, which the application is free to ignore
fn offer(client: bool, p: P, reqs: &[(P, Option<String>, usize)], i: usize) -> bool {
    client && p == P::Cached && reqs[..i].iter().any(|r| r.0 == P::Cached)
}

fn errors(ch: &mut Ch) {
    let mut k = Kit::new(*ch.pick(mechs::all()));
    let cn = course(ch, &mut k);
    let client = ch.flip();
    let reqs = asked(ch, &k, client);
    if reqs.is_empty() {
        return;
    }
    let i = ch.choose(reqs.len());
    let (p, _, d) = reqs[i].clone();
    let ek = *ch.pick(crate::app::EKS);
    let f = if ch.flip() { Fault::AnswerThenErr(ek) } else { Fault::Err(ek) };
    let mut k2 = k.fresh();
    if client {
        k2.capp.faults = vec![(i, f)];
    } else {
        k2.sapp.faults = vec![(i, f)];
    }
    let what = format!("{}, {cn}, {} request {i} ({p:?}), {f:?}", k.mech, side(client));
    crate::drive::take_untrue();
    let (t, mut w) = play(ch, &k2);
    if let Some(u) = crate::drive::take_untrue() {
        ch.fail("untrue", format!("{what}: {u}"));
    }
    if offer(client, p, &reqs, i) {
        let (t0, _) = play(ch, &k.fresh());
        ch.check(t == t0, "offer", || format!("{what}: {}", diff(&t0, &t)));
        ch.outcome("ignored");
        return;
    }
    let want = class(&ek.make());
    ch.check(t.len() == d + 1, "progress", || format!("{what}: the exchange ended after {} deliveries instead of {}: {t:?}", t.len(), d + 1));
    if let Some((c, r, _)) = t.last() {
        ch.check(*c == client && r.is(&want), "error", || format!("{what}: the step gave {r:?}, the application {want}"));
    }
    if !client {
        ch.check(k2.sapp.n_val() == 0, "validated", || format!("{what}: validation ran"));
        ch.check(w.s.validation().is_none(), "value", || format!("{what}: there is a validation value"));
    } else if !matches!(p, P::XErr | P::OErr) {
        ch.check(k2.sapp.n_val() == 0, "validated", || format!("{what}: the server validated"));
    }
    ch.check(!w.c.has_layer() && !w.s.has_layer() || k.mech == "GSSAPI" && client, "layer", || format!("{what}: there is a security layer"));
    ch.outcome("aborted");
}
fn required(k: &Kit, client: bool, p: P) -> bool {
    match (p, client) {
        (P::AuthId | P::Password | P::Token | P::GssService | P::Hostname, true) => true,
        (P::XErr | P::OErr, true) => true,
        (P::XVal | P::OVal, false) => true,
        (P::CbData, false) => true,
        (P::CbData, true) => k.capp.override_cb.is_some(),
        _ => false,
    }
}
fn is_missing(r: &R) -> bool {
    matches!(r, R::Err(e) if e == "NoCallback" || e == "NoValue" || e.starts_with("MissingCb"))
}
fn silence(ch: &mut Ch) {
    let mut k = Kit::new(*ch.pick(mechs::all()));
    let cn = course(ch, &mut k);
    let mut what = format!("{}, {cn}", k.mech);
    let max = if ch.thorough { 3 } else { 2 };
    let mut last: [usize; 2] = [0, 0];
    let mut silent = vec![];
    for _ in 0..max {
        let client = ch.flip();
        let reqs = asked(ch, &k, client);
        let from = last[usize::from(client)];
        if from >= reqs.len() {
            break;
        }
        let i = from + ch.choose(reqs.len() - from);
        last[usize::from(client)] = i + 1;
        let (p, name, d) = reqs[i].clone();
        let f = if ch.flip() { Fault::NoValue } else { Fault::Silent };
        if client {
            k.capp.faults.push((i, f));
        } else {
            k.sapp.faults.push((i, f));
        }
        what.push_str(&format!(", {} request {i} ({p:?} {name:?}) {f:?}", side(client)));
        if required(&k, client, p) || p == P::CbData && name.as_deref() == Some("tls-unique") {
            let k2 = k.fresh();
            let (t, mut w) = play(ch, &k2);
            ch.check(t.len() == d + 1, "progress", || format!("{what}: the exchange ended after {} deliveries instead of {}: {t:?}", t.len(), d + 1));
            if let Some((c, r, _)) = t.last() {
                ch.check(*c == client && is_missing(r), "required", || format!("{what}: the step gave {r:?}"));
            }
            if !client {
                ch.check(k2.sapp.n_val() == 0, "validated", || format!("{what}: validation ran"));
                ch.check(w.s.validation().is_none(), "value", || format!("{what}: there is a validation value"));
            }
            ch.outcome("missing");
            return;
        }
        silent.push((client, p));
    }
    // only optional ones are missing
    let (t, _) = play(ch, &k.fresh());
    let k2 = k.fresh();
    let (t2, _) = play(ch, &k2);
    ch.check(t == t2, "repeatable", || format!("{what}: {}", diff(&t, &t2)));
    for (i, (c, r, _)) in t.iter().enumerate() {
        ch.check(!is_missing(r) || cn == "unknown user", "optional", || format!("{what}: delivery {i} to the {} gives {r:?}", side(*c)));
    }
    let v = k2.sapp.validations();
    let no_authzid = silent.contains(&(true, P::AuthzId)) || k.capp.authzid.is_none();
    for c in &v {
        for (p, x) in c {
            let ok = match p {
                P::AuthzId if no_authzid => *x == s(""),
                P::Kv if silent.contains(&(true, P::Kv)) => *x == V::Kv(vec![]),
                P::Anon if silent.contains(&(true, P::Anon)) => *x == s(""),
                _ => true,
            };
            ch.check(ok, "invented", || format!("{what}: validation was told {p:?} = {x:?}"));
        }
    }
    ch.outcome(format!("{}", t.last().map_or("?", |x| x.1.tag())));
}

/// A copy of the application that answers nothing (but still validates)
fn mute(a: &App) -> App {
    App { vmode: a.vmode.clone(), enable_cb: a.enable_cb, ..Default::default() }
}
fn defaults(ch: &mut Ch) {
    let mut k = Kit::new(*ch.pick(mechs::all()));
    let cn = course(ch, &mut k);
    let part = *ch.pick(&[Part::Nothing, Part::Requests, Part::Validation]);
    let side = ch.choose(3);
    let what = format!("{}, {cn}, {part:?} implemented by {}", k.mech, ["the client", "the server", "both"][side]);
    let mut k0 = k.fresh();
    let ends: &mut [(&mut App, &mut App)] = &mut [(&mut k.capp, &mut k0.capp), (&mut k.sapp, &mut k0.sapp)];
    for (i, (a, a0)) in ends.iter_mut().enumerate() {
        if side != 2 && side != i {
            continue;
        }
        a.part = part;
        if part != Part::Requests {
            **a0 = mute(a0);
        }
        if part != Part::Validation {
            a0.vmode = VMode::Nothing;
        }
    }
    if k.capp.part == Part::Nothing && mechs::is_plus(k.mech) {
        // by default there is no channel binding
        let r = crate::drive::client_cfg(k.capp.config(mechs::reg(&[k.mech])), &[k.mech], k.ccb.clone());
        ch.step();
        ch.check(matches!(r, Err(SASLError::NoSharedMechanism)), "binding", || format!("{what}: the client started"));
        ch.outcome("no binding");
        return;
    }
    let (t0, mut w0) = play(ch, &k0);
    let (t, mut w) = play(ch, &k);
    ch.check(t == t0, "defaults", || format!("{what}: {}", diff(&t0, &t)));
    let (x0, x) = (w0.s.validation(), w.s.validation());
    let judged = k.sapp.part == Part::All || k.sapp.part == Part::Validation;
    ch.check(x == x0 && (judged || x.is_none()), "value", || format!("{what}: value {x:?} instead of {x0:?}"));
    if judged && k.sapp.part == Part::Validation {
        ch.check(k.sapp.n_val() == k0.sapp.n_val(), "validated", || format!("{what}: {} validations instead of {}", k.sapp.n_val(), k0.sapp.n_val()));
    }
    ch.outcome(format!("{:?} {:?} {}", w.cr, w.sr, x.is_some()));
}

fn subsets(ch: &mut Ch) {
    let mech = *ch.pick(mechs::all());
    let mut k = Kit::new(mech);
    let bit = |ch: &mut Ch| ch.flip();
    macro_rules! maybe {
        ($f:ident) => {
            if !bit(ch) {
                k.capp.$f = None;
            }
        };
        ($f:ident, $v:expr) => {
            k.capp.$f = if bit(ch) { Some($v) } else { None };
        };
    }
    maybe!(authid);
    maybe!(authzid, "zed".to_string());
    maybe!(password);
    maybe!(token);
    maybe!(kv, vec![("host".to_string(), "h".to_string())]);
    maybe!(anon);
    maybe!(hostname);
    maybe!(service);
    k.capp.style = *ch.pick(&[Style::Targeted, Style::Noisy]);
    let a = k.capp.clone();
    let what = format!(
        "{mech}, user {:?}, authzid {:?}, password {}, token {:?}, kv {:?}, anon {:?}, host {:?}, service {:?}, {:?}",
        a.authid, a.authzid, a.password.is_some(), a.token, a.kv, a.anon, a.hostname, a.service, a.style
    );
    let (t, _) = play(ch, &k);
    let first = t.iter().find(|x| x.0).cloned();
    let Some((_, r, m)) = first else {
        ch.fail("nothing", format!("{what}: the client never stepped"));
        return;
    };
    let z = a.authzid.as_deref();
    let msg: Option<String> = match mech {
        "PLAIN" => a.authid.as_ref().and(a.password.as_ref()).map(|_| format!("{}\0user\0pencil", z.unwrap_or(""))),
        "LOGIN" => a.authid.clone(),
        "ANONYMOUS" => Some(a.anon.clone().unwrap_or_default()),
        "EXTERNAL" => Some(z.unwrap_or("").into()),
        "XOAUTH2" => a.authid.as_ref().and(a.token.as_ref()).map(|t| format!("user=user\x01auth=Bearer {t}\x01\x01")),
        "OAUTHBEARER" => a.token.as_ref().map(|t| {
            format!(
                "n,{},{}\x01auth=Bearer {t}\x01\x01",
                z.map(|z| format!("a={z}")).unwrap_or_default(),
                if a.kv.is_some() { "\x01host=h" } else { "" }
            )
        }),
        "GSSAPI" => a.hostname.as_ref().and(a.service.as_ref()).map(|_| String::new()),
        _ => a.authid.as_ref().map(|_| {
            let gs2 = if mechs::is_plus(mech) { "p=tls-exporter" } else { "n" };
            let nonce = 24;
            let sh = format!("{gs2},{},n=user,r={}", z.map(|z| format!("a={z}")).unwrap_or_default(), "x".repeat(nonce));
            String::from_utf8(shape(mech, sh.as_bytes())).unwrap()
        }),
    };
    match msg {
        None => {
            ch.check(is_missing(&r), "required", || format!("{what}: the client's step gave {r:?}"));
            ch.check(k.sapp.n_val() == 0, "validated", || format!("{what}: validation ran"));
            ch.outcome("missing");
        }
        Some(want) => {
            ch.check(r.sent(), "refused", || format!("{what}: the client's step gave {r:?}"));
            if mech != "GSSAPI" {
                let ok = if mech.starts_with("SCRAM") {
                    // the length of the nonce is not the point here
                    let cut = |x: &[u8]| x.rsplitn(2, |b| *b == b',').nth(1).map(<[u8]>::to_vec);
                    cut(&m) == cut(want.as_bytes())
                } else {
                    m == want.as_bytes()
                };
                ch.check(ok, "message", || format!("{what}: the client sent {:?}, expected {:?}", crate::drive::show(&m), want));
            }
            // the second credential
            let second = match mech {
                "LOGIN" => a.password.is_some(),
                m if m.starts_with("SCRAM") => a.password.is_some(),
                _ => true,
            };
            if !second {
                let r2 = t.iter().filter(|x| x.0).nth(1).map(|x| x.1.clone());
                ch.check(r2.as_ref().is_some_and(is_missing), "required", || format!("{what}: the client's second step gave {r2:?}"));
                ch.check(k.sapp.n_val() == 0, "validated", || format!("{what}: validation ran"));
                ch.outcome("missing");
                return;
            }
            ch.check(k.sapp.n_val() == 1, "validated", || format!("{what}: validation ran {} times", k.sapp.n_val()));
            for c in k.sapp.validations() {
                let got = ctx_get(&c, P::AuthzId);
                let carries = !matches!(mech, "LOGIN" | "ANONYMOUS" | "XOAUTH2" | "GSSAPI");
                let ok = match z.filter(|_| carries) {
                    Some(z) => got == Some(&s(z)),
                    None => got.is_none() || got == Some(&s("")),
                };
                ch.check(ok, "authzid", || format!("{what}: validation was told {got:?}"));
            }
            ch.outcome("complete");
        }
    }
}
