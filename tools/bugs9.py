S='src/mechanisms/scram/'
M='src/mechanisms/'
BUGS=[]
def bug(id, prop, breaks, needs, edits, demo, **k):
    BUGS.append(dict(id=id, prop=prop, breaks=breaks, needs=needs, edits=edits, demo=demo, **k))

bug('scram-error-value-unknown','C02','a SCRAM client takes an error of the server that it does not know for a success',
 'a server that refuses the client with an error value of its own',
 [(S+'client.rs','            ServerFinal::Error(e) => Err(SCRAMError::ServerError(e).into()),','''            // the specification lets clients ignore what they do not know
            ServerFinal::Error(ServerErrorValue::OtherError) => Ok(StateServerFinal {}),
            ServerFinal::Error(e) => Err(SCRAMError::ServerError(e).into()),''')],
 '''
fn main() {
    let mut c = client(App::creds(None, "user", "pw"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
    let (mut s, _) = server(App::store(Hash::Sha1, &[("user", "pw")]), &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
    let first = cstep(&mut c, None).1;
    let answer = sstep(&mut s, Some(&first)).1;
    cstep(&mut c, Some(&answer)).0.unwrap();
    assert!(cstep(&mut c, Some(b"e=account-locked")).0.is_err());
}
''')
bug('cb-none-is-empty','C05','a server without data for the channel binding the client names accepts a client that has none either',
 'a client that names a binding type the server has no data for, and sends an empty one',
 [(S+'server.rs','            GS2CBindFlag::Used(name) => session_data.need_cb_data(name, provider, |cbdata| {\n                gs2_header.extend_from_slice(cbdata);\n                Ok(())\n            })?,',
   '''            GS2CBindFlag::Used(name) => session_data
                .maybe_need_cb_data(name, provider, |cbdata| {
                    gs2_header.extend_from_slice(cbdata);
                    Ok(())
                })?
                .unwrap_or_default(),''')],
 '''
fn main() {
    let (mut s, log) = server(App::store(Hash::Sha1, &[("user", "pw")]), &[scram::SCRAM_SHA1_PLUS], "SCRAM-SHA-1-PLUS", &Cb::default());
    let bare = "n=user,r=abcdefgh";
    let (r, first) = sstep(&mut s, Some(format!("p=tls-unique,,{bare}").as_bytes()));
    if r.is_ok() {
        let first = String::from_utf8(first).unwrap();
        let last = client_final(Hash::Sha1, "pw", b"p=tls-unique,,", bare, &first);
        let _ = sstep(&mut s, Some(last.as_bytes()));
    }
    assert!(log.lock().unwrap().is_empty());
}
''')
bug('gssapi-server-short-plain','C23','a GSSAPI server sends short data without the confidentiality that was agreed',
 'confidentiality, and the server encoding fewer than 16 bytes',
 [(M+'gssapi/server.rs','                let wrapped = ctx.wrap(encrypt, input).map_err(Error::Gss)?;','                let wrapped = ctx.wrap(encrypt && input.len() >= 16, input).map_err(Error::Gss)?;')],
 '''
fn main() {
    fakegss::configure(fakegss::Cfg::default());
    let (mut s, _) = server(App::silent(), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let (rc, rs) = run(&mut c, &mut s, |_, _| ());
    assert!(fin(&rc) && fin(&rs));
    for n in [1, 100] {
        let mut w = vec![];
        let data = vec![b'x'; n];
        s.encode(&data, &mut w).unwrap();
        assert!(fakegss::open(&w).unwrap().1, "not encrypted");
    }
}
''', gss=True)
bug('oauthbearer-error-strict','C11','an OAUTHBEARER client can not read an error that has further members',
 'a server whose error JSON has members other than the three known ones',
 [(M+'oauthbearer/client.rs','#[derive(Deserialize)]\nstruct ReceivedError {','#[derive(Deserialize)]\n#[serde(deny_unknown_fields)]\nstruct ReceivedError {'),
  (M+'oauthbearer/client.rs','                // If the user callback *doesn\'t*, we must error, so \'?\' is correct.','                // If the user callback *doesn\'t*, we must error, so \'?\' is right.')],
 '''
fn main() {
    let seen = Arc::new(Mutex::new(String::new()));
    let log = seen.clone();
    let app = App::new(move |_, _, r| {
        r.satisfy::<OAuthBearerToken>("tok")?;
        if let Some(e) = r.get_action::<oauthbearer::properties::OAuthBearerErrored>() {
            *log.lock().unwrap() = format!("{e:?}");
        }
        Ok(())
    });
    let mut c = client(app, &[oauthbearer::OAUTHBEARER], &["OAUTHBEARER"], &Cb::default());
    cstep(&mut c, None).0.unwrap();
    let r = cstep(&mut c, Some(br#"{"status":"invalid_token","schemes":"bearer","scope":"x"}"#)).0;
    assert!(fin(&r));
    assert!(seen.lock().unwrap().contains("invalid_token"));
}
''')
bug('vectored-would-block-done','C17','a message cut off by a writer that would block is reported as sent',
 'a non-blocking writer that takes a part of a SCRAM message and then would block',
 [('src/vectored_io.rs','                Err(e) => return Err(e),','                Err(e) if e.kind() == io::ErrorKind::WouldBlock && written > 0 => break,\n                Err(e) => return Err(e),'),
  ('src/vectored_io.rs','        let mut written = 0;','        let mut written: usize = 0;')],
 '''
struct W(usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::WouldBlock.into());
        }
        let n = self.0.min(b.len());
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    for n in 0..20 {
        let mut c = client(App::creds(None, "user", "pw"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
        assert!(c.step(None, &mut W(n)).is_err(), "{n}");
    }
}
''')
bug('oauthbearer-none-refuses','C14','an OAUTHBEARER server that was stepped without a message finishes with the next one, whatever it says, and without validation',
 'a step without input before the message of the client',
 [(M+'oauthbearer/server.rs','                let input = input.ok_or(SessionError::InputDataRequired)?;','''                let Some(input) = input else {
                    // only a message can undo this
                    self.state = OAuthBearerState::Errored;
                    return Err(SessionError::InputDataRequired);
                };''')],
 '''
fn main() {
    let app = App::new(|_, _, r| {
        r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?;
        Ok(())
    });
    let (mut s, log) = server(app, &[oauthbearer::OAUTHBEARER], "OAUTHBEARER", &Cb::default());
    assert!(sstep(&mut s, None).0.is_err());
    assert!(fin(&sstep(&mut s, Some(b"n,,\\x01auth=Bearer t\\x01\\x01")).0));
    assert_eq!(log.lock().unwrap().len(), 1);
}
''')
bug('scram-unescape-thread','C21','a name that one session refused is put in front of the name of the next session',
 'a session that fails on a bad escape in a name, then on the same thread another one with a good one',
 [(S+'parser.rs','''            let mut out = String::with_capacity(input.len());
            let mut input = input;
''','''            thread_local!(static OUT: core::cell::RefCell<String> = const { core::cell::RefCell::new(String::new()) });
            let mut input = input;
            return OUT.with(|out| {
            let mut out = out.borrow_mut();
'''),
  (S+'parser.rs','''            out.push_str(core::str::from_utf8(input)?);

            Ok(out.into())''','''            out.push_str(core::str::from_utf8(input)?);

            Ok(core::mem::take(&mut *out).into())
            });''')],
 '''
fn main() {
    let mut names = vec![];
    for m in [&b"n,,n=root=2Cx=zz,r=abc"[..], b"n,,n=a=2Cb,r=abc"] {
        let seen = Arc::new(Mutex::new(String::new()));
        let log = seen.clone();
        let app = App::new(move |_, c, r| {
            if r.is::<scram::properties::ScramStoredPassword>() {
                *log.lock().unwrap() = c.get_ref::<AuthId>().unwrap_or("").to_string();
            }
            Ok(())
        });
        let (mut s, _) = server(app, &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
        let _ = sstep(&mut s, Some(m));
        names.push(seen.lock().unwrap().clone());
    }
    assert_eq!(names[1], "a,b");
}
''')
bug('gssapi-layer-error-all','C20','a GSSAPI server whose application fails when asked for the acceptable layers accepts all of them',
 'a server application that returns an error to the request for acceptable security layers',
 [(M+'gssapi/server.rs','''                            Ok(*acceptable)
                        })?
                        .unwrap_or_default();''','''                            Ok(*acceptable)
                        })
                        .unwrap_or_default()
                        .unwrap_or_default();''')],
 '''
fn main() {
    fakegss::configure(fakegss::Cfg::default());
    let sapp = App::new(|_, _, r| {
        if r.is::<gssapi::properties::GssSecurityLayer>() {
            return Err(SessionError::MechanismDone);
        }
        Ok(())
    });
    let (mut s, log) = server(sapp, &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let (_, rs) = run(&mut c, &mut s, |_, _| ());
    assert!(!fin(&rs));
    assert!(log.lock().unwrap().is_empty());
}
''', gss=True)
bug('step64-blocks','C18','a long message is base64 encoded in pieces with padding between them',
 'a message of more than 8192 bytes in a base64 step',
 [('src/session.rs','            writer.write_all(STANDARD.encode(message).as_bytes())?;','''            while message.len() > 8192 {
                let rest = message.split_off(8192);
                writer.write_all(STANDARD.encode(message).as_bytes())?;
                message = rest;
            }
            writer.write_all(STANDARD.encode(message).as_bytes())?;''')],
 '''
fn main() {
    let long: &'static str = Box::leak("x".repeat(20000).into_boxed_str());
    let app = App::new(move |_, _, r| {
        r.satisfy::<AuthId>("user")?.satisfy::<OAuthBearerToken>(long)?;
        Ok(())
    });
    let mut c = client(app, &[xoauth2::XOAUTH2], &["XOAUTH2"], &Cb::default());
    let mut out = vec![];
    c.step64(None, &mut out).unwrap();
    assert!(!out[..out.len() - 2].contains(&b'='));
    assert!(String::from_utf8(unb64(&out).unwrap()).unwrap().contains(long));
}
''')
bug('scram-salt-context-64','C19','the salt that a SCRAM client shows its application is cut to 64 bytes',
 'a salt of more than 64 bytes and an application that looks up its keys by salt',
 [(S+'client.rs','''        let prov = ScramClientProvider {
            iterations: &iterations,
            salt: &salt[..],
        };''','''        let prov = ScramClientProvider {
            iterations: &iterations,
            salt: &salt[..salt.len().min(64)],
        };''')],
 '''
fn main() {
    let seen = Arc::new(Mutex::new(vec![]));
    let log = seen.clone();
    let app = App::new(move |_, c, r| {
        if r.is::<scram::properties::ScramCachedPassword>() {
            if let Some(s) = c.get_ref::<scram::properties::Salt>() {
                log.lock().unwrap().push(s.len());
            }
        }
        r.satisfy::<AuthId>("user")?.satisfy::<Password>(b"pw")?;
        Ok(())
    });
    let mut c = client(app, &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
    let first = String::from_utf8(cstep(&mut c, None).1).unwrap();
    let answer = format!("r={}abc,s={},i=1", attr(first.as_bytes(), "r="), b64(&[7; 100]));
    cstep(&mut c, Some(answer.as_bytes())).0.unwrap();
    assert_eq!(*seen.lock().unwrap(), vec![100]);
}
''')
bug('plain-password-fallback','C08','a PLAIN server takes a password with characters that SASLprep forbids as it is instead of refusing it',
 'a UTF-8 password with a prohibited character',
 [(M+'plain/server.rs','            let password = saslprep(password).map_err(PlainError::Saslprep)?;','            let password = saslprep(password).unwrap_or_else(|_| password.into());')],
 '''
fn main() {
    let (mut s, log) = server(App::silent(), &[plain::PLAIN], "PLAIN", &Cb::default());
    let r = sstep(&mut s, Some("\\0user\\0pa\\u{7}ss".as_bytes())).0;
    assert!(r.is_err());
    assert!(log.lock().unwrap().is_empty());
}
''')
bug('select-ties-reordered','C06','the preference of the application is asked with its arguments exchanged from the third mechanism on',
 'three shared mechanisms and a preference that refuses the last of them by its second argument, as its documentation says',
 [('src/registry.rs','                let accmech = acc.as_ref().map(|(_, m)| *m);\n                match fold(accmech, m) {','''                let accmech = acc.as_ref().map(|(_, m)| *m);
                seen += 1;
                let order = match accmech {
                    Some(a) if seen > 2 => fold(Some(m), a).reverse(),
                    _ => fold(accmech, m),
                };
                match order {'''),
  ('src/registry.rs','        let (mut s, m) = selectors\n','        let mut seen = 0;\n        let (mut s, m) = selectors\n')],
 '''
struct P;
impl SessionCallback for P {
    fn prefer<'a>(&self, a: Option<&'a Mechanism>, b: &'a Mechanism) -> std::cmp::Ordering {
        // not acceptable, as the documentation prescribes
        if b.mechanism.as_str().starts_with("SCRAM-SHA-512") {
            return std::cmp::Ordering::Greater;
        }
        a.map_or(std::cmp::Ordering::Less, |a| a.mechanism.as_str().len().cmp(&b.mechanism.as_str().len()))
    }
}
fn main() {
    static M: &[Mechanism] = &[plain::PLAIN, login::LOGIN, scram::SCRAM_SHA512];
    let cfg = SASLConfig::builder().with_registry(Registry::with_mechanisms(M)).with_callback(P).unwrap();
    let offers = ["PLAIN", "LOGIN", "SCRAM-SHA-512"].map(name);
    let c = SASLClient::new(cfg).start_suggested_iter(offers).unwrap();
    assert_ne!(c.get_mechname().as_str(), "SCRAM-SHA-512");
}
''')
bug('login-asked-again','C09','a LOGIN client sends the user name a second time, and the password only then, if the second challenge looks like the first',
 'a server whose second challenge is user name: too',
 [(M+'login/client.rs','        _input: Option<&[u8]>,','        input: Option<&[u8]>,'),
  (M+'login/client.rs','''                self.state = LoginState::Password;
                Ok(State::Running)''','''                self.state = LoginState::Password;
                self.asked = input.map(<[u8]>::to_vec);
                Ok(State::Running)'''),
  (M+'login/client.rs','''            LoginState::Password => {
''','''            LoginState::Password if input.is_some_and(|i| i.len() > 2 && self.asked.as_deref() == Some(i)) => {
                self.state = LoginState::Authid;
                self.step(session, None, writer)
            }
            LoginState::Password => {
'''),
  (M+'login/client.rs','            state: LoginState::Authid,\n','            state: LoginState::Authid,\n            asked: None,\n'),
  (M+'login/client.rs','#[derive(Debug, Eq, PartialEq, Copy, Clone)]\npub(super)','#[derive(Debug, Eq, PartialEq, Clone)]\npub(super)'),
  (M+'login/client.rs','    state: LoginState,\n','    state: LoginState,\n    asked: Option<alloc::vec::Vec<u8>>,\n')],
 '''
fn main() {
    let mut c = client(App::creds(None, "user", "pw"), &[login::LOGIN], &["LOGIN"], &Cb::default());
    assert_eq!(cstep(&mut c, Some(b"Prompt:")).1, b"user");
    let (r, m) = cstep(&mut c, Some(b"Prompt:"));
    assert!(fin(&r));
    assert_eq!(m, b"pw");
}
''')
