//! The application: a configurable `SessionCallback` that records everything it sees.
use rsasl::callback::{CallbackError, Context, Request, SessionCallback, SessionData};
use rsasl::mechanisms::anonymous::AnonymousToken;
use rsasl::mechanisms::gssapi::properties::{GssSecurityLayer, GssService, SecurityLayer};
use rsasl::mechanisms::oauthbearer::properties::{OAuthBearerError, OAuthBearerErrored, OAuthBearerValidate};
use rsasl::mechanisms::scram::properties::{
    Iterations, Salt, SaltedPassword, ScramCachedPassword, ScramStoredPassword,
};
use rsasl::mechanisms::xoauth2::properties::{XOAuth2Error, XOAuth2Validate};
use rsasl::prelude::*;
use rsasl::property::*;
use rsasl::registry::Side;
use rsasl::validate::{Validate, Validation, ValidationError};
use std::cmp::Ordering;
use std::sync::{Arc, Mutex};

use crate::explore::Lib;
use crate::refscram::{Hash, Stored};

/// The protocol's validation type in all checks.
pub struct TV;
impl Validation for TV {
    type Value = String;
}
/// A validation type the protocol does *not* use.
pub struct OtherV;
impl Validation for OtherV {
    type Value = String;
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum P {
    AuthId,
    AuthzId,
    Password,
    Token,
    Kv,
    Anon,
    CbData,
    CbName,
    OverrideCb,
    Hostname,
    GssService,
    GssLayer,
    XVal,
    XErr,
    OVal,
    OErr,
    Stored,
    Cached,
    Salted,
    Iterations,
    Salt,
    Realm,
    Service,
    Unknown,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    S(String),
    B(Vec<u8>),
    Kv(Vec<(String, String)>),
    N(u32),
    Keys(Vec<u8>, Vec<u8>),
    OErr(String, Option<String>, Option<String>),
}

pub type Ctx = Vec<(P, V)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ev {
    /// a request; `action` is the value taken when the application took an action value
    Req { p: P, ctx: Ctx, action: Option<V> },
    /// a validation call
    Val { server: bool, mech: String, ctx: Ctx, tv: bool },
}

/// Which property does this request ask for?
pub fn req_prop(r: &Request<'_>) -> P {
    if r.is::<AuthId>() {
        P::AuthId
    } else if r.is::<AuthzId>() {
        P::AuthzId
    } else if r.is::<Password>() {
        P::Password
    } else if r.is::<OAuthBearerToken>() {
        P::Token
    } else if r.is::<OAuthBearerKV>() {
        P::Kv
    } else if r.is::<AnonymousToken>() {
        P::Anon
    } else if r.is::<ChannelBindings>() {
        P::CbData
    } else if r.is::<ChannelBindingName>() {
        P::CbName
    } else if r.is::<OverrideCBType>() {
        P::OverrideCb
    } else if r.is::<Hostname>() {
        P::Hostname
    } else if r.is::<GssService>() {
        P::GssService
    } else if r.is::<GssSecurityLayer>() {
        P::GssLayer
    } else if r.is::<XOAuth2Validate>() {
        P::XVal
    } else if r.is::<XOAuth2Error>() {
        P::XErr
    } else if r.is::<OAuthBearerValidate>() {
        P::OVal
    } else if r.is::<OAuthBearerErrored>() {
        P::OErr
    } else if r.is::<ScramStoredPassword<'static>>() {
        P::Stored
    } else if r.is::<ScramCachedPassword<'static>>() {
        P::Cached
    } else if r.is::<SaltedPassword>() {
        P::Salted
    } else if r.is::<Realm>() {
        P::Realm
    } else if r.is::<Service>() {
        P::Service
    } else {
        P::Unknown
    }
}

pub fn snap(c: &Context<'_>) -> Ctx {
    let mut o = vec![];
    if let Some(v) = c.get_ref::<AuthId>() {
        o.push((P::AuthId, V::S(v.into())));
    }
    if let Some(v) = c.get_ref::<AuthzId>() {
        o.push((P::AuthzId, V::S(v.into())));
    }
    if let Some(v) = c.get_ref::<Password>() {
        o.push((P::Password, V::B(v.into())));
    }
    if let Some(v) = c.get_ref::<OAuthBearerToken>() {
        o.push((P::Token, V::S(v.into())));
    }
    if let Some(v) = c.get_ref::<OAuthBearerKV>() {
        o.push((P::Kv, V::Kv(v.iter().map(|(a, b)| ((*a).into(), (*b).into())).collect())));
    }
    if let Some(v) = c.get_ref::<AnonymousToken>() {
        o.push((P::Anon, V::S(v.into())));
    }
    if let Some(v) = c.get_ref::<ChannelBindingName>() {
        o.push((P::CbName, V::S(v.into())));
    }
    if let Some(v) = c.get_ref::<ChannelBindings>() {
        o.push((P::CbData, V::B(v.into())));
    }
    if let Some(v) = c.get_ref::<Iterations>() {
        o.push((P::Iterations, V::N(*v)));
    }
    if let Some(v) = c.get_ref::<Salt>() {
        o.push((P::Salt, V::B(v.into())));
    }
    if let Some(v) = c.get_ref::<Realm>() {
        o.push((P::Realm, V::S(v.into())));
    }
    if let Some(v) = c.get_ref::<Hostname>() {
        o.push((P::Hostname, V::S(v.into())));
    }
    if let Some(v) = c.get_ref::<Service>() {
        o.push((P::Service, V::S(v.into())));
    }
    if let Some(v) = c.get_ref::<GssService>() {
        o.push((P::GssService, V::S(v.into())));
    }
    o
}

pub fn ctx_get(c: &Ctx, p: P) -> Option<&V> {
    c.iter().find(|x| x.0 == p).map(|x| &x.1)
}
pub fn ctx_str(c: &Ctx, p: P) -> Option<&str> {
    match ctx_get(c, p) {
        Some(V::S(s)) => Some(s),
        _ => None,
    }
}
pub fn ctx_bytes(c: &Ctx, p: P) -> Option<&[u8]> {
    match ctx_get(c, p) {
        Some(V::B(s)) => Some(s),
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fault {
    /// return an error of this kind without answering
    Err(EK),
    /// return Ok without answering
    Silent,
    /// return `CallbackError::NoValue`
    NoValue,
    /// answer, then return this error instead of the early return
    AnswerThenErr(EK),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum EK {
    Boxed,
    NoCallback,
    Input,
    NoValidate,
    Mutual,
    Done,
    Validation,
    Io,
    NoLayer,
    MissingCb,
}
pub const EKS: &[EK] = &[
    EK::Boxed,
    EK::NoCallback,
    EK::Input,
    EK::NoValidate,
    EK::Mutual,
    EK::Done,
    EK::Validation,
    EK::Io,
    EK::NoLayer,
    EK::MissingCb,
];
impl EK {
    pub fn make(self) -> SessionError {
        match self {
            EK::Boxed => SessionError::Boxed("app failure".into()),
            EK::NoCallback => SessionError::CallbackError(CallbackError::NoCallback("app")),
            EK::Input => SessionError::InputDataRequired,
            EK::NoValidate => SessionError::NoValidate,
            EK::Mutual => SessionError::MutualAuthenticationFailed,
            EK::Done => SessionError::MechanismDone,
            EK::Validation => SessionError::ValidationError(ValidationError::MissingRequiredProperty),
            EK::Io => SessionError::Io { source: std::io::Error::new(std::io::ErrorKind::Other, "app io") },
            EK::NoLayer => SessionError::NoSecurityLayer,
            EK::MissingCb => SessionError::MissingChannelBindingData("app".into()),
        }
    }
    pub fn class(self) -> &'static str {
        match self {
            EK::Boxed => "Boxed",
            EK::NoCallback => "NoCallback",
            EK::Input => "InputDataRequired",
            EK::NoValidate => "NoValidate",
            EK::Mutual => "Mutual",
            EK::Done => "MechanismDone",
            EK::Validation => "Validation",
            EK::Io => "Io",
            EK::NoLayer => "NoSecurityLayer",
            EK::MissingCb => "MissingCb",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Style {
    /// `if request.is::<P>() { request.satisfy::<P>(v)?; }`
    Targeted,
    /// `request.satisfy::<A>(a)?.satisfy::<B>(b)?...`
    Chained,
    /// the same in the opposite order
    Reversed,
    /// answers for wrong properties before, the answer without `?`, then wrong further answers
    Noisy,
}

/// What the application implements of the callback trait
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Part {
    All,
    /// `callback` and `enable_channel_binding`
    Requests,
    /// `validate` and `enable_channel_binding`
    Validation,
    Nothing,
}
struct OnlyRequests(App);
impl SessionCallback for OnlyRequests {
    fn callback(&self, sd: &SessionData, ctx: &Context<'_>, r: &mut Request<'_>) -> Result<(), SessionError> {
        self.0.callback(sd, ctx, r)
    }
    fn enable_channel_binding(&self) -> bool {
        self.0.enable_cb
    }
}
struct OnlyValidation(App);
impl SessionCallback for OnlyValidation {
    fn enable_channel_binding(&self) -> bool {
        self.0.enable_cb
    }
    fn validate(&self, sd: &SessionData, ctx: &Context<'_>, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        self.0.validate(sd, ctx, v)
    }
}
struct Nothing;
impl SessionCallback for Nothing {}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum VMode {
    /// accept if the credential in the context is in the database (or was checked by the mechanism)
    Db,
    /// set this value unconditionally
    Set(&'static str),
    /// set nothing
    Nothing,
    /// set twice (`with` then `finalize`)
    Twice(&'static str, &'static str),
    /// finalize twice
    TwiceF(&'static str, &'static str),
    /// value for another validation type only
    OtherType,
    /// other type, then own, then other
    OtherAndOwn(&'static str),
    /// a `with` closure that fails
    WithFails,
    /// sets a value, then fails
    SetThenFail(&'static str),
    /// fails with MissingRequiredProperty
    FailMissing,
    /// fails with a boxed error
    FailBoxed,
}

#[derive(Clone, Debug)]
pub struct User {
    pub name: String,
    pub password: Vec<u8>,
    pub salt: Vec<u8>,
    pub iterations: u32,
}

#[derive(Clone)]
pub struct App {
    pub authid: Option<String>,
    pub authzid: Option<String>,
    pub password: Option<Vec<u8>>,
    pub token: Option<String>,
    pub kv: Option<Vec<(String, String)>>,
    pub anon: Option<String>,
    pub override_cb: Option<String>,
    pub hostname: Option<String>,
    pub service: Option<String>,
    pub layers: Option<u8>,
    pub xverdict: Option<Result<(), String>>,
    pub overdict: Option<Result<(), (String, Option<String>, Option<String>)>>,
    pub handle_xerr: bool,
    pub handle_oerr: bool,
    pub handle_cached: bool,
    pub salted: Option<Vec<u8>>,
    pub cached: Option<(Vec<u8>, Vec<u8>)>,
    pub cbdata: Vec<(String, Vec<u8>)>,
    pub db: Vec<User>,
    pub stored: Vec<(String, Hash, Stored)>,
    pub enable_cb: bool,
    /// whether this session of a shared configuration wants channel binding
    pub bind: Option<bool>,
    pub prefer: Option<fn(Option<&Mechanism>, &Mechanism) -> Ordering>,
    pub faults: Vec<(usize, Fault)>,
    pub vmode: VMode,
    pub style: Style,
    /// which methods the application implements; the others are the crate's defaults
    pub part: Part,
    pub log: Arc<Mutex<Vec<Ev>>>,
    /// called at the start of every callback (scheduling point)
    pub hook: Option<Arc<dyn Fn(&'static str) + Send + Sync>>,
}

impl Default for App {
    fn default() -> Self {
        App {
            authid: None,
            authzid: None,
            password: None,
            token: None,
            kv: None,
            anon: None,
            override_cb: None,
            hostname: None,
            service: None,
            layers: None,
            xverdict: None,
            overdict: None,
            handle_xerr: false,
            handle_oerr: false,
            handle_cached: false,
            salted: None,
            cached: None,
            cbdata: vec![],
            db: vec![],
            stored: vec![],
            enable_cb: false,
            bind: None,
            prefer: None,
            faults: vec![],
            vmode: VMode::Db,
            style: Style::Targeted,
            part: Part::All,
            log: Arc::new(Mutex::new(vec![])),
            hook: None,
        }
    }
}

impl App {
    pub fn fresh(&self) -> Self {
        let mut a = self.clone();
        a.log = Arc::new(Mutex::new(vec![]));
        a
    }
    pub fn events(&self) -> Vec<Ev> {
        self.log.lock().unwrap().clone()
    }
    pub fn validations(&self) -> Vec<Ctx> {
        self.log
            .lock()
            .unwrap()
            .iter()
            .filter_map(|e| if let Ev::Val { ctx, .. } = e { Some(ctx.clone()) } else { None })
            .collect()
    }
    pub fn n_val(&self) -> usize {
        self.log.lock().unwrap().iter().filter(|e| matches!(e, Ev::Val { .. })).count()
    }
    pub fn requests(&self) -> Vec<P> {
        self.log
            .lock()
            .unwrap()
            .iter()
            .filter_map(|e| if let Ev::Req { p, .. } = e { Some(*p) } else { None })
            .collect()
    }
    pub fn actions(&self, which: P) -> Vec<V> {
        self.log
            .lock()
            .unwrap()
            .iter()
            .filter_map(|e| match e {
                Ev::Req { p, action: Some(v), .. } if *p == which => Some(v.clone()),
                _ => None,
            })
            .collect()
    }
    pub fn config(&self, mechs: &'static [Mechanism]) -> Arc<SASLConfig> {
        let b = SASLConfig::builder().with_registry(Registry::with_mechanisms(mechs));
        match self.part {
            Part::All => b.with_callback(self.clone()),
            Part::Requests => b.with_callback(OnlyRequests(self.clone())),
            Part::Validation => b.with_callback(OnlyValidation(self.clone())),
            Part::Nothing => b.with_callback(Nothing),
        }
        .lib("no configuration")
    }

    fn answer(&self, sd: &SessionData, ctx: &Context<'_>, r: &mut Request<'_>) -> Result<(), SessionError> {
        let p = req_prop(r);
        match self.style {
            Style::Targeted => {}
            Style::Chained => return self.answer_all(sd, ctx, r, None, false),
            Style::Reversed => return self.answer_all(sd, ctx, r, None, true),
            Style::Noisy => {
                poison(r, Some(p));
                let res = self.answer_all(sd, ctx, r, Some(p), false);
                if !matches!(&res, Ok(()) | Err(SessionError::CallbackError(CallbackError::EarlyReturn(_)))) {
                    return res;
                }
                // a wrong answer must not follow where none was given
                poison(r, if res.is_ok() { Some(p) } else { None });
                return res;
            }
        }
        self.answer_all(sd, ctx, r, Some(p), false)
    }
    /// Answers for all properties (or only for one), in this order or the opposite one
    fn answer_all(&self, sd: &SessionData, ctx: &Context<'_>, r: &mut Request<'_>, only: Option<P>, rev: bool) -> Result<(), SessionError> {
        const ORDER: [P; 16] = [
            P::AuthId, P::AuthzId, P::Password, P::Token, P::Anon, P::OverrideCb, P::Hostname, P::GssService,
            P::Salted, P::Cached, P::GssLayer, P::Kv, P::CbData, P::XVal, P::OVal, P::Stored,
        ];
        if let Some(p) = only {
            return self.answer_one(sd, ctx, r, p);
        }
        for i in 0..ORDER.len() {
            self.answer_one(sd, ctx, r, ORDER[if rev { ORDER.len() - 1 - i } else { i }])?;
        }
        Ok(())
    }
    fn answer_one(&self, sd: &SessionData, ctx: &Context<'_>, r: &mut Request<'_>, p: P) -> Result<(), SessionError> {
        macro_rules! sat {
            ($p:ident, $t:ty, $v:expr) => {
                if p == P::$p {
                    if let Some(v) = $v {
                        r.satisfy::<$t>(v)?;
                    }
                }
            };
        }
        sat!(AuthId, AuthId, self.authid.as_deref());
        sat!(AuthzId, AuthzId, self.authzid.as_deref());
        sat!(Password, Password, self.password.as_deref());
        sat!(Token, OAuthBearerToken, self.token.as_deref());
        sat!(Anon, AnonymousToken, self.anon.as_deref());
        sat!(OverrideCb, OverrideCBType, self.override_cb.as_deref());
        sat!(Hostname, Hostname, self.hostname.as_deref());
        sat!(GssService, GssService, self.service.as_deref());
        sat!(Salted, SaltedPassword, self.salted.as_deref());
        if p == P::Cached {
            if let Some((ck, sk)) = &self.cached {
                r.satisfy::<ScramCachedPassword<'static>>(&ScramCachedPassword::new(ck, sk))?;
            }
        }
        if p == P::GssLayer && self.layers.is_some() {
            r.satisfy::<GssSecurityLayer>(&SecurityLayer::from_bits_retain(self.layers.unwrap()))?;
        }
        if p == P::Kv {
            if let Some(kv) = &self.kv {
                let v: Vec<(&str, &str)> = kv.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
                r.satisfy::<OAuthBearerKV>(&v)?;
            }
        }
        if p == P::CbData {
            if let Some(n) = ctx.get_ref::<ChannelBindingName>() {
                if let Some((_, d)) = self.cbdata.iter().find(|x| x.0 == n) {
                    r.satisfy::<ChannelBindings>(d)?;
                }
            }
        }
        if p == P::XVal {
            if let Some(v) = &self.xverdict {
                r.satisfy::<XOAuth2Validate>(&v.as_ref().map(|()| ()).map_err(|e| e.as_str()))?;
            }
        }
        if p == P::OVal {
            if let Some(v) = &self.overdict {
                let v = match v {
                    Ok(()) => Ok(()),
                    Err((s, sc, oc)) => Err(OAuthBearerError::new(s, sc.as_deref(), oc.as_deref())),
                };
                r.satisfy::<OAuthBearerValidate>(&v)?;
            }
        }
        if p == P::Stored {
            if let Some(h) = Hash::of_mech(sd.mechanism().mechanism.as_str()) {
                if let Some(name) = ctx.get_ref::<AuthId>() {
                    if let Some((_, _, s)) = self.stored.iter().find(|x| x.0 == name && x.1 == h) {
                        r.satisfy::<ScramStoredPassword<'static>>(&ScramStoredPassword::new(
                            s.iterations,
                            &s.salt,
                            &s.stored_key,
                            &s.server_key,
                        ))?;
                    } else if let Some(u) = self.db.iter().find(|x| x.name == name) {
                        let s = h.store(&u.password, &u.salt, u.iterations);
                        r.satisfy::<ScramStoredPassword<'static>>(&ScramStoredPassword::new(
                            s.iterations,
                            &s.salt,
                            &s.stored_key,
                            &s.server_key,
                        ))?;
                    }
                }
            }
        }
        Ok(())
    }
}

/// Wrong answers for every property but one, without taking note of the results
fn poison(r: &mut Request<'_>, but: Option<P>) {
    macro_rules! bad {
        ($p:ident, $t:ty, $v:expr) => {
            if but != Some(P::$p) {
                let _ = r.satisfy::<$t>($v);
            }
        };
    }
    bad!(AuthId, AuthId, "poison");
    bad!(AuthzId, AuthzId, "poison");
    bad!(Password, Password, b"poison");
    bad!(Token, OAuthBearerToken, "poison");
    bad!(Anon, AnonymousToken, "poison");
    bad!(OverrideCb, OverrideCBType, "poison");
    bad!(Hostname, Hostname, "poison");
    bad!(GssService, GssService, "poison");
    bad!(Salted, SaltedPassword, b"poison");
    bad!(Cached, ScramCachedPassword<'static>, &ScramCachedPassword::new(b"poison", b"poison"));
    bad!(GssLayer, GssSecurityLayer, &SecurityLayer::NO_SECURITY_LAYER);
    bad!(Kv, OAuthBearerKV, &[("poison", "x")]);
    bad!(CbData, ChannelBindings, b"poison");
    bad!(XVal, XOAuth2Validate, &Err("poison"));
    bad!(OVal, OAuthBearerValidate, &Err(OAuthBearerError::new("poison", None, None)));
    bad!(Stored, ScramStoredPassword<'static>, &ScramStoredPassword::new(7, b"poison", b"poison", b"poison"));
    bad!(Realm, Realm, "poison");
    bad!(Service, Service, "poison");
    bad!(CbName, ChannelBindingName, "poison");
}

impl SessionCallback for App {
    fn callback(&self, sd: &SessionData, ctx: &Context<'_>, r: &mut Request<'_>) -> Result<(), SessionError> {
        if let Some(h) = &self.hook {
            h("callback");
        }
        let p = req_prop(r);
        let idx = {
            let mut l = self.log.lock().unwrap();
            l.push(Ev::Req { p, ctx: snap(ctx), action: None });
            l.iter().filter(|e| matches!(e, Ev::Req { .. })).count() - 1
        };
        let fault = self.faults.iter().find(|f| f.0 == idx).map(|f| f.1);
        match fault {
            Some(Fault::Err(k)) => return Err(k.make()),
            Some(Fault::Silent) => return Ok(()),
            Some(Fault::NoValue) => return Err(CallbackError::NoValue.into()),
            _ => {}
        }
        let set_action = |v: V| {
            let mut l = self.log.lock().unwrap();
            if let Some(Ev::Req { action, .. }) = l.iter_mut().rev().find(|e| matches!(e, Ev::Req { .. })) {
                *action = Some(v);
            }
        };
        if self.handle_xerr {
            if let Some(v) = r.get_action::<XOAuth2Error>() {
                set_action(V::S(v.into()));
            }
        }
        if self.handle_oerr {
            if let Some(v) = r.get_action::<OAuthBearerErrored>() {
                set_action(V::OErr(v.status.into(), v.scope.map(Into::into), v.openid_config.map(Into::into)));
            }
        }
        if self.handle_cached {
            if let Some(v) = r.get_action::<ScramCachedPassword<'static>>() {
                set_action(V::Keys(v.client_key.into(), v.server_key.into()));
            }
        }
        let res = self.answer(sd, ctx, r);
        if let Some(Fault::AnswerThenErr(k)) = fault {
            return Err(k.make());
        }
        res
    }

    fn enable_channel_binding(&self) -> bool {
        self.enable_cb
    }

    fn prefer<'a>(&self, a: Option<&'a Mechanism>, b: &'a Mechanism) -> Ordering {
        if let Some(f) = self.prefer {
            return f(a, b);
        }
        struct D;
        impl SessionCallback for D {}
        D.prefer(a, b)
    }

    fn validate(&self, sd: &SessionData, ctx: &Context<'_>, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        if let Some(h) = &self.hook {
            h("validate");
        }
        let c = snap(ctx);
        self.log.lock().unwrap().push(Ev::Val {
            server: sd.side() == Side::Server,
            mech: sd.mechanism().mechanism.as_str().to_string(),
            ctx: c.clone(),
            tv: v.is::<TV>(),
        });
        match &self.vmode {
            VMode::Db => {
                // PLAIN/LOGIN: compare with the database; all others: the mechanism already decided
                let ok = match (ctx_str(&c, P::AuthId), ctx_bytes(&c, P::Password)) {
                    (Some(n), Some(pw)) => self.db.iter().any(|u| u.name == n && u.password == pw),
                    _ => true,
                };
                if ok {
                    let s = describe(&c);
                    v.with::<TV, _>(|| Ok(s))?;
                }
            }
            VMode::Set(s) => {
                v.finalize::<TV>((*s).into());
            }
            VMode::Nothing => {}
            VMode::Twice(a, b) => {
                v.with::<TV, _>(|| Ok((*a).into()))?;
                v.finalize::<TV>((*b).into());
            }
            VMode::TwiceF(a, b) => {
                v.finalize::<TV>((*a).into());
                v.with::<TV, _>(|| Ok((*b).into()))?;
                v.finalize::<TV>((*b).into());
            }
            VMode::OtherType => {
                v.with::<OtherV, _>(|| Ok("other".into()))?;
                v.finalize::<OtherV>("other".into());
            }
            VMode::OtherAndOwn(a) => {
                v.with::<OtherV, _>(|| Ok("other".into()))?.with::<TV, _>(|| Ok((*a).into()))?;
                v.finalize::<OtherV>("other".into());
            }
            VMode::WithFails => {
                v.with::<TV, _>(|| Err(ValidationError::MissingRequiredProperty))?;
            }
            VMode::SetThenFail(a) => {
                v.finalize::<TV>((*a).into());
                return Err(ValidationError::Boxed("validation refused".into()));
            }
            VMode::FailMissing => return Err(ValidationError::MissingRequiredProperty),
            VMode::FailBoxed => return Err(ValidationError::Boxed("validation refused".into())),
        }
        Ok(())
    }
}

pub fn describe(c: &Ctx) -> String {
    format!("user={:?} authz={:?}", ctx_str(c, P::AuthId), ctx_str(c, P::AuthzId))
}
