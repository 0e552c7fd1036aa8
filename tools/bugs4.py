S='src/mechanisms/scram/'
M='src/mechanisms/'
BUGS=[]
def bug(id, prop, breaks, needs, edits, demo, **k):
    BUGS.append(dict(id=id, prop=prop, breaks=breaks, needs=needs, edits=edits, demo=demo, **k))

bug('callback-answer-then-error','C20','an error the application reports after having answered a request is dropped',
 'an application that answers and then returns an error of its own',
 [('src/session.rs','''        match self.callback(provider, Request::new_satisfy::<P>(&mut tagged)) {
            // explicitly ignore a `NoValue` error since that one *is actually okay*
            Ok(()) | Err(SessionError::CallbackError(CallbackError::NoValue)) => Ok(()),
            Err(error) => Err(error),
        }?;
        Ok(closurecr.try_unwrap())''','''        let result = self.callback(provider, Request::new_satisfy::<P>(&mut tagged));
        let value = closurecr.try_unwrap();
        match result {
            // explicitly ignore a `NoValue` error since that one *is actually okay*
            Ok(()) | Err(SessionError::CallbackError(CallbackError::NoValue)) => Ok(value),
            Err(error) => value.map(Some).ok_or(error),
        }''')],
 '''
fn main() {
    for bad in [false, true] {
        let app = App::new(move |_, _, r| {
            r.satisfy::<AuthId>("alice")?;
            if r.satisfy::<Password>(b"secret").is_err() && bad {
                return Err(SessionError::InputDataRequired);
            }
            Ok(())
        });
        let mut c = client(app, &[plain::PLAIN], &["PLAIN"], &Cb::default());
        assert_eq!(cstep(&mut c, None).0.is_err(), bad);
    }
}
''')
bug('oauthbearer-error-unhandled','C11','an error of the server that the application does not handle is not reported if it names no scope',
 'a server that refuses the token without a scope, and an application that does not take errors',
 [(M+'oauthbearer/client.rs','session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;','let handled = session.action::<OAuthBearerErrored>(&EmptyProvider, &error);\n                if scope.is_some() {\n                    handled?;\n                }')],
 '''
fn main() {
    for (m, ok) in [(r#"{"status":"bad"}"#, false), (r#"{"status":"bad","scope":"x"}"#, false), ("", true)] {
        let app = App::new(|_, _, r| {
            r.satisfy::<OAuthBearerToken>("tok")?;
            Ok(())
        });
        let mut c = client(app, &[oauthbearer::OAUTHBEARER], &["OAUTHBEARER"], &Cb::default());
        cstep(&mut c, None).0.unwrap();
        assert_eq!(cstep(&mut c, Some(m.as_bytes())).0.is_ok(), ok, "{m}");
    }
}
''')
bug('callback-busy','C21','a request made while another session is inside its callback is not put to the application',
 'a callback that itself drives another session',
 [('src/session.rs','''        let context = build_context(provider);
        match self.callback.callback(&self.session_data, context, request) {''','''        std::thread_local! {
            static BUSY: core::cell::Cell<bool> = const { core::cell::Cell::new(false) };
        }
        let context = build_context(provider);
        if BUSY.with(|b| b.replace(true)) {
            return Ok(());
        }
        let result = self.callback.callback(&self.session_data, context, request);
        BUSY.with(|b| b.set(false));
        match result {''')],
 '''
fn plain_client(on: impl Fn() + Send + Sync + 'static) -> Client {
    let app = App::new(move |_, _, r| {
        on();
        r.satisfy::<AuthId>("alice")?.satisfy::<Password>(b"secret")?;
        Ok(())
    });
    client(app, &[plain::PLAIN], &["PLAIN"], &Cb::default())
}
fn main() {
    let mut c = plain_client(|| {
        let mut inner = plain_client(|| ());
        let (r, o) = cstep(&mut inner, None);
        assert!(fin(&r), "{r:?}");
        assert_eq!(o, b"\\0alice\\0secret");
    });
    assert!(fin(&cstep(&mut c, None).0));
}
''')
bug('xoauth2-refused-empty','C10','a refusal without error text is taken as an acceptance by the XOAUTH2 server',
 'an application that refuses the token with an empty error text',
 [(M+'xoauth2/server.rs','if let Err(error) = result {','if let Some(error) = result.as_ref().err().filter(|e| !e.is_empty()) {')],
 '''
fn main() {
    for text in ["no", ""] {
        let app = App::new(move |_, _, r| {
            r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Err(text))?;
            Ok(())
        });
        let (mut s, _) = server(app, &[xoauth2::XOAUTH2], "XOAUTH2", &Cb::default());
        let (r, o) = sstep(&mut s, Some(b"user=alice\\x01auth=Bearer tok\\x01\\x01"));
        assert_eq!(o, text.as_bytes());
        assert!(matches!(r, Ok(State::Running)), "refused with {text:?}: {r:?}");
    }
}
''')
bug('gssapi-bits-panic','C13','a GSSAPI server panics if the client selects a layer that does not exist',
 'a client whose final token has a reserved bit set',
 [(M+'gssapi/server.rs','SecurityLayer::from_bits(unwrapped[0]).ok_or(Error::BadFinalToken)?;','SecurityLayer::from_bits(unwrapped[0]).expect("invalid layer");')],
 '''
use gssapi::properties::SecurityLayer;
fn pair(layer: SecurityLayer) -> (Client, Server) {
    fakegss::configure(fakegss::Cfg::default());
    let (s, _) = server(App::new(move |_, _, r| { r.satisfy::<gssapi::properties::GssSecurityLayer>(&layer)?; Ok(()) }), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    (client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default()), s)
}
fn main() {
    for bits in [1u8, 2, 8, 0x80] {
        let (mut c, mut s) = pair(SecurityLayer::all());
        let (_, rs) = run(&mut c, &mut s, |i, m| {
            if i == 4 {
                *m = fakegss::seal(true, false, 0, &[bits, 0, 0, 0]);
            }
        });
        assert_eq!(rs.is_ok(), bits < 8, "{bits:#x}: {rs:?}");
    }
}
''', gss=True)
bug('gssapi-encode-disturbs','C24','trying to protect data before the exchange is over breaks the GSSAPI client',
 'an application that calls encode in the middle of an exchange',
 [(M+'gssapi/client.rs','''        match self.state {
            GssapiState::Completed(Some((ref mut ctx, encrypt))) => {
                let wrapped = ctx.wrap(encrypt, input).map_err(Error::Gss)?;
                writer.write_all(&wrapped)?;
                Ok(input.len())
            }
            _ => Err(SessionError::NoSecurityLayer),''','''        match core::mem::replace(&mut self.state, GssapiState::Errored) {
            GssapiState::Completed(Some((mut ctx, encrypt))) => {
                let wrapped = ctx.wrap(encrypt, input).map_err(Error::Gss);
                self.state = GssapiState::Completed(Some((ctx, encrypt)));
                writer.write_all(&wrapped?)?;
                Ok(input.len())
            }
            GssapiState::Last(ctx, acceptable) => {
                self.state = GssapiState::Last(ctx, acceptable);
                Err(SessionError::NoSecurityLayer)
            }
            _ => Err(SessionError::NoSecurityLayer),''')],
 '''
fn main() {
    for at in [9usize, 0, 1, 2, 3] {
        fakegss::configure(fakegss::Cfg::default());
        let (mut s, _) = server(App::silent(), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
        let app = App::new(|_, _, r| {
            r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
            Ok(())
        });
        let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
        let mut m: Option<Vec<u8>> = None;
        let mut done = 0;
        for i in 0..8 {
            if i == at {
                assert!(c.encode(b"data", &mut Vec::new()).is_err());
            }
            let (r, o) = cstep(&mut c, m.as_deref());
            assert!(r.is_ok(), "encode before step {at}: {r:?}");
            done = fin(&r) as i32;
            let (r, o) = sstep(&mut s, Some(&o));
            assert!(r.is_ok());
            done += fin(&r) as i32;
            m = Some(o);
            if done > 0 {
                break;
            }
        }
        assert_eq!(done, 2);
    }
}
''', gss=True)
bug('external-bom','C12','a byte order mark at the start of the identity is dropped by the EXTERNAL server',
 'an identity that begins with U+FEFF',
 [(M+'external/server.rs','let authzid = core::str::from_utf8(input).map_err(ParseError)?;','let authzid = core::str::from_utf8(input).map_err(ParseError)?.trim_start_matches(\'\\u{feff}\');')],
 '''
fn main() {
    for t in ["bob", "\\u{feff}bob", "b\\u{feff}ob"] {
        let (mut s, v) = server(App::silent(), &[external::EXTERNAL], "EXTERNAL", &Cb::default());
        assert!(fin(&sstep(&mut s, Some(t.as_bytes())).0));
        let want = format!("authzid={:?}", Some(t));
        assert!(v.lock().unwrap()[0].contains(&want), "{t:?}: {:?}", v.lock().unwrap());
    }
}
''')
bug('login-user-soft-hyphen','C09','soft hyphens are removed from the user name by the LOGIN server',
 'a user name with U+00AD',
 [(M+'login/server.rs','''                        .to_string();''','''                        .replace('\\u{ad}', "");''')],
 '''
fn main() {
    for t in ["bob", "b\\u{ad}ob", "b\\u{e9}"] {
        let (mut s, v) = server(App::silent(), &[login::LOGIN], "LOGIN", &Cb::default());
        sstep(&mut s, None).0.unwrap();
        sstep(&mut s, Some(t.as_bytes())).0.unwrap();
        assert!(fin(&sstep(&mut s, Some(b"pw")).0));
        let want = format!("user={:?}", Some(t));
        assert!(v.lock().unwrap()[0].contains(&want), "{t:?}: {:?}", v.lock().unwrap());
    }
}
''')
bug('xoauth2-token-nbsp','C10','white space beyond ASCII at the ends of the token is cut off by the XOAUTH2 server',
 'a token that ends in a no-break space',
 [(M+'xoauth2/server.rs','''                let prov = Prov { authid, token };''','''                let prov = Prov {
                    authid,
                    token: token.trim_matches(|c: char| c.is_whitespace() && !c.is_ascii()),
                };''')],
 '''
fn main() {
    for t in ["tok", "tok ", "tok\\u{a0}", "\\u{3000}tok"] {
        let got = Arc::new(Mutex::new(String::new()));
        let g = got.clone();
        let app = App::new(move |_, c, r| {
            *g.lock().unwrap() = c.get_ref::<OAuthBearerToken>().unwrap_or("?").to_string();
            r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Ok(()))?;
            Ok(())
        });
        let (mut s, _) = server(app, &[xoauth2::XOAUTH2], "XOAUTH2", &Cb::default());
        assert!(fin(&sstep(&mut s, Some(format!("user=alice\\x01auth=Bearer {t}\\x01\\x01").as_bytes())).0));
        assert_eq!(*got.lock().unwrap(), t);
    }
}
''')
bug('scram-cached-unverified','C02','a client whose cached server key is all zero does not check the server',
 'an application that caches only the client key and leaves the server key zeroed',
 [(S+'client.rs','if self.verifier.as_slice() == &v[..] {','if self.verifier.as_slice() == &v[..] || self.server_key.iter().all(|b| *b == 0) {')],
 '''
fn main() {
    for zero in [false, true] {
        let app = App::new(move |_, _, r| {
            let sk = [if zero { 0u8 } else { 7 }; 20];
            r.satisfy::<AuthId>("alice")?.satisfy::<scram::properties::ScramCachedPassword>(&scram::properties::ScramCachedPassword::new(&[7; 20], &sk))?;
            Ok(())
        });
        let mut c = client(app, &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
        let m = cstep(&mut c, None).1;
        cstep(&mut c, Some(format!("r={}S,s=c2FsdA==,i=8", attr(&m, "r=")).as_bytes())).0.unwrap();
        assert!(cstep(&mut c, Some(format!("v={}", b64(&[1; 20])).as_bytes())).0.is_err());
    }
}
''')
bug('step64-message-flag','C18','the base64 step reports no message for a final message that is empty',
 'a mechanism whose final message may be empty, such as EXTERNAL without an identity',
 [('src/session.rs','''            writer.write_all(STANDARD.encode(message)''','''            let empty = message.is_empty();
            writer.write_all(STANDARD.encode(message)'''),
  ('src/session.rs','''            Ok(state)
        }
    }

    impl<'a, 'b> MechanismData''','''            Ok(match state {
                State::Finished(_) if empty => {
                    State::Finished(crate::session::MessageSent::No)
                }
                state => state,
            })
        }
    }

    impl<'a, 'b> MechanismData''')],
 '''
fn main() {
    for id in ["bob", ""] {
        let app = App::new(move |_, _, r| { r.satisfy::<AuthzId>(id)?; Ok(()) });
        let mut c = client(app, &[external::EXTERNAL], &["EXTERNAL"], &Cb::default());
        let mut o = vec![];
        let r = c.step64(None, &mut o);
        assert!(matches!(r, Ok(State::Finished(MessageSent::Yes))), "{id:?}: {r:?}");
        assert_eq!(o, b64(id.as_bytes()).as_bytes());
    }
}
''')
bug('validate-error-swallowed','C15','an error of validation is dropped if a value had been set before it',
 'an application that sets a value and then reports a validation error',
 [('src/session.rs','''        self.callback
            .validate(&self.session_data, context, self.validator)''','''        let result = self
            .callback
            .validate(&self.session_data, context, self.validator);
        if self.validator.is_final() {
            return Ok(());
        }
        result'''),
  ('src/validate.rs','''    pub fn finalize<T: Validation>(&mut self, outcome: T::Value) {
        if let Some(result @ Tagged(Option::None)) = self.0.downcast_mut::<T>() {
            *result = Tagged(Some(outcome));
        }
    }''','''    pub fn finalize<T: Validation>(&mut self, outcome: T::Value) {
        if let Some(result @ Tagged(Option::None)) = self.0.downcast_mut::<T>() {
            *result = Tagged(Some(outcome));
            FINAL.with(|f| f.set(true));
        }
    }

    pub(crate) fn is_final(&self) -> bool {
        FINAL.with(|f| f.replace(false))
    }'''),
  ('src/validate.rs','''#[repr(transparent)]
/// A type-erased validation request from a protocol crate''','''std::thread_local! {
    static FINAL: core::cell::Cell<bool> = const { core::cell::Cell::new(false) };
}

#[repr(transparent)]
/// A type-erased validation request from a protocol crate''')],
 '''
struct A(bool);
impl SessionCallback for A {
    fn validate(&self, _: &SessionData, _: &Context<'_>, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        v.finalize::<V>("alice".into());
        if self.0 {
            return Err(ValidationError::MissingRequiredProperty);
        }
        Ok(())
    }
}
fn main() {
    for bad in [false, true] {
        let cfg = SASLConfig::builder().with_registry(Registry::with_mechanisms(Vec::leak(vec![plain::PLAIN]))).with_callback(A(bad)).unwrap();
        let mut s = SASLServer::<V>::new(cfg).start_suggested(name("PLAIN")).unwrap();
        assert_eq!(s.step(Some(b"\\0alice\\0secret"), &mut Vec::new()).is_err(), bad);
    }
}
''')
