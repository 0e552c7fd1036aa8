S='src/mechanisms/scram/'
M='src/mechanisms/'
BUGS=[]
def bug(id, prop, breaks, needs, edits, demo, **k):
    BUGS.append(dict(id=id, prop=prop, breaks=breaks, needs=needs, edits=edits, demo=demo, **k))

bug('oauthbearer-empty-key','C13','a field with an empty name in an OAUTHBEARER message makes the server panic',
 'a message with a field that starts with "="',
 [(M+'oauthbearer/parser.rs','let key = core::str::from_utf8(key)?;','let key = core::str::from_utf8(key)?;\n                    if !key.as_bytes()[0].is_ascii_alphabetic() {\n                        return Err(ParseError::InvalidKVPair);\n                    }'),
  (M+'oauthbearer/parser.rs','let val = core::str::from_utf8(val)?;','let val: &str = core::str::from_utf8(val)?;')],
 '''
fn main() {
    let (mut s, _) = server(App::silent(), &[oauthbearer::OAUTHBEARER], "OAUTHBEARER", &Cb::default());
    assert!(sstep(&mut s, Some(b"n,,\\x01=x\\x01auth=Bearer t\\x01\\x01")).0.is_err());
}
''')
bug('scram-no-proof-hang','C13','a final message without a proof makes a SCRAM server search for it for ever',
 'a client that sends a final message without a proof',
 [(S+'parser.rs','''let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
            if let Some(proof) = next.strip_prefix(b"p=") {''','''let Some(next) = partiter.next() else {
                if input.ends_with(b",") {
                    return Err(ParseError::MissingAttributes);
                }
                continue;
            };
            if let Some(proof) = next.strip_prefix(b"p=") {''')],
 '''
fn main() {
    let h = Hash::Sha256;
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let (mut s, _) = server(App::store(h, &[("alice", "pw")]), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
        sstep(&mut s, Some(b"n,,n=alice,r=abc")).0.unwrap();
        let r = sstep(&mut s, Some(b"c=biws,r=abc")).0;
        tx.send(r.is_err()).unwrap();
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(10)), Ok(true));
}
''')
bug('scram-unknown-empty-password','C01','a SCRAM server makes up a credential for unknown users that belongs to the empty password',
 'a client that names a user who does not exist and uses an empty password',
 [(S+'server.rs','''            thread_rng().fill_bytes(&mut salt);
            let salt =''','''            thread_rng().fill_bytes(&mut salt);
            let mut salted = DOutput::<D>::default();
            super::tools::hash_nothing::<D>(&salt, &mut salted);
            let hmac = |name: &[u8]| {
                let mut out = DOutput::<D>::default();
                digest::FixedOutput::finalize_into(
                    digest::Update::chain(
                        <SimpleHmac<D> as hmac::Mac>::new_from_slice(&salted)
                            .expect("HMAC can work with any key size"),
                        name,
                    ),
                    &mut out,
                );
                out
            };
            let stored_key = D::digest(hmac(b"Client Key"));
            let server_key = hmac(b"Server Key");
            let salt ='''),
 (S+'server.rs','''            Ok(WaitingClientFinal::bad_user())''','''            Ok(WaitingClientFinal::new(
                client_nonce.into(),
                extensions.into(),
                server_nonce,
                gs2_header,
                username.to_string(),
                authid.to_string(),
                authzid.as_deref().map(ToString::to_string),
                salt,
                "16384".to_string(),
                stored_key,
                server_key,
            ))'''),
 (S+'tools.rs','''pub fn hash_password<D>(''','''pub(super) fn hash_nothing<D: Digest + BlockSizeUser + FixedOutput>(
    salt: &[u8],
    out: &mut DOutput<D>,
) {
    // PBKDF2 of an empty password
    let mac = || <SimpleHmac<D>>::new_from_slice(b"").expect("HMAC can work with any key size");
    let mut u = mac().chain(salt).chain([0, 0, 0, 1]).finalize_fixed();
    out.copy_from_slice(&u);
    for _ in 1..16384 {
        u = mac().chain(&u).finalize_fixed();
        out.iter_mut().zip(u.iter()).for_each(|(o, u)| *o ^= u);
    }
}

pub fn hash_password<D>(''')],
 '''
fn main() {
    let mut c = client(App::creds(None, "mallory", ""), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
    let (mut s, log) = server(App::store(Hash::Sha256, &[("alice", "pw")]), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
    let (rc, _) = run(&mut c, &mut s, |_, _| ());
    assert!(!fin(&rc));
    assert!(log.lock().unwrap().is_empty(), "{:?}", log.lock().unwrap());
}
''')
bug('scram-salt-unpadded','C02','a SCRAM client takes a salt that lacks its base64 padding',
 'a server whose salt is not properly padded',
 [(S+'client.rs','''let salt = base64::engine::general_purpose::STANDARD
            .decode(salt64)''','''let salt = base64::engine::general_purpose::GeneralPurpose::new(
            &base64::alphabet::STANDARD,
            base64::engine::general_purpose::GeneralPurposeConfig::new()
                .with_decode_padding_mode(base64::engine::DecodePaddingMode::Indifferent),
        )
            .decode(salt64)''')],
 '''
fn main() {
    let mut c = client(App::creds(None, "alice", "pw"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
    let m = cstep(&mut c, None).1;
    let (r, o) = cstep(&mut c, Some(format!("r={}xyz,s=c2FsdA,i=8", attr(&m[3..], "r=")).as_bytes()));
    assert!(r.is_err() && o.is_empty(), "{r:?}");
}
''')
bug('scram-name-already-escaped','C03','a SCRAM client does not escape a name that looks as if it were escaped already',
 'a user name that contains "=2C" or "=3D"',
 [(S+'parser.rs',"if input.contains([',', '=']) {","let plain = input.replace(\"=2C\", \"\").replace(\"=3D\", \"\");\n        if plain.contains([',', '=']) {")],
 '''
fn main() {
    let mut c = client(App::creds(None, "a=2Cb", "pw"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
    let m = cstep(&mut c, None).1;
    assert!(m.starts_with(b"n,,n=a=3D2Cb,r="), "{}", String::from_utf8_lossy(&m));
}
''')
bug('server-hides-plus','C07','a server lists the channel binding variants only if its application enabled channel binding',
 'a server application that did not enable channel binding',
 [('src/sasl.rs','self.config.mech_list().filter(|mech| mech.server.is_some())',"let cb = self.config.get_callback().enable_channel_binding();\n            self.config.mech_list().filter(move |mech| {\n                mech.server.is_some() && (cb || !mech.mechanism.as_str().ends_with(\"-PLUS\"))\n            })")],
 '''
fn main() {
    let (cfg, _) = App::silent().cfg(&[scram::SCRAM_SHA256, scram::SCRAM_SHA256_PLUS]);
    let s = SASLServer::<V>::new(cfg);
    assert_eq!(s.get_available().into_iter().count(), 2);
}
''')
bug('login-empty-password-silent','C16','a LOGIN client with an empty password finishes and says there is no message to send',
 'a client whose password is empty',
 [(M+'login/client.rs','''                session.need_with::<Password, _, _>(&EmptyProvider, |password| {
                    writer.write_all(password)?;
                    Ok(())
                })?;
                self.state = LoginState::Done;
                Ok(State::Finished(MessageSent::Yes))''','''                let sent = session.need_with::<Password, _, _>(&EmptyProvider, |password| {
                    writer.write_all(password)?;
                    Ok(!password.is_empty())
                })?;
                self.state = LoginState::Done;
                Ok(State::Finished(if sent {
                    MessageSent::Yes
                } else {
                    MessageSent::No
                }))''')],
 '''
fn main() {
    let mut c = client(App::creds(None, "alice", ""), &[login::LOGIN], &["LOGIN"], &Cb::default());
    cstep(&mut c, Some(b"User Name\\0")).0.unwrap();
    let r = cstep(&mut c, Some(b"Password\\0")).0.unwrap();
    assert!(r.has_sent_message());
}
''')
bug('vectored-zero-after-some','C17','a message is taken as written if the writer accepts no more after a part of it',
 'a writer that accepts a part of a message and then nothing',
 [('src/vectored_io.rs','''                Ok(0) => {
                    return Err''','''                Ok(0) if written > 0 => return Ok(written),
                Ok(0) => {
                    return Err'''),
  ('src/vectored_io.rs','let mut written = 0;\n        while','let mut written: usize = 0;\n        while')],
 '''
struct W(usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut c = client(App::creds(None, "alice", "pw"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
    assert!(c.step(None, &mut W(7)).is_err());
}
''')
bug('oauthbearer-json-short','C17','an OAUTHBEARER server writes its error with a single write',
 'a writer that takes a part of the message only',
 [(M+'oauthbearer/server.rs','serde_json::to_writer(writer, error).map_err(Error::Serde)?;','let message = serde_json::to_vec(error).map_err(Error::Serde)?;\n                        let _ = writer.write(&message)?;')],
 '''
struct W(Vec<u8>);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(3);
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let app = || {
        App::new(|_, _, r| {
            let e: Result<(), oauthbearer::properties::OAuthBearerError<'_>> = Err(oauthbearer::properties::OAuthBearerError::new("invalid_token", None, None));
            r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&e)?;
            Ok(())
        })
    };
    let m: Option<&[u8]> = Some(b"n,,\\x01auth=Bearer t\\x01\\x01");
    let (mut s, _) = server(app(), &[oauthbearer::OAUTHBEARER], "OAUTHBEARER", &Cb::default());
    let whole = sstep(&mut s, m).1;
    let (mut s, _) = server(app(), &[oauthbearer::OAUTHBEARER], "OAUTHBEARER", &Cb::default());
    let mut w = W(vec![]);
    s.step(m, &mut w).unwrap();
    assert_eq!(w.0, whole);
}
''')
bug('plain-mail-authzid','C20','a PLAIN client whose user name is a mail address asks to act as its local part if no authorization identity is given',
 'a user name with an "@" and no authorization identity',
 [(M+'plain/client.rs','''        session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {''','''        let given = session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {'''),
  (M+'plain/client.rs','''            writer.write_all(authzid.as_bytes())?;
            Ok(())
        })?;
''','''            writer.write_all(authzid.as_bytes())?;
            Ok(())
        })?;
        if given.is_none() {
            session.maybe_need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
                if let Some((local, _)) = authid.split_once('@') {
                    writer.write_all(local.as_bytes())?;
                }
                Ok(())
            })?;
        }
''')],
 '''
fn main() {
    let mut c = client(App::creds(None, "alice@example.org", "pw"), &[plain::PLAIN], &["PLAIN"], &Cb::default());
    assert_eq!(cstep(&mut c, None).1, b"\\0alice@example.org\\0pw");
}
''')
bug('gssapi-localhost','C20','a GSSAPI client whose application names no host asks for the service of the local one',
 'an application that does not know the host name',
 [(M+'gssapi/client.rs','''                session.need_with::<Hostname, _, _>(&EmptyProvider, |hostname| {
                    targ_name.push_str(hostname);
                    Ok(())
                })?;''','''                let named = session.maybe_need_with::<Hostname, _, _>(&EmptyProvider, |hostname| {
                    targ_name.push_str(hostname);
                    Ok(())
                })?;
                if named.is_none() {
                    targ_name.push_str("localhost");
                }''')],
 '''
fn main() {
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?;
        Ok(())
    });
    fakegss::configure(fakegss::Cfg::default());
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    assert!(cstep(&mut c, None).0.is_err());
}
''', gss=True)
bug('config-sticky','C21','a configuration keeps using the mechanism its first session chose if it is offered',
 'two clients of one configuration whose servers offer different mechanisms',
 [('src/config.rs','''            let callback = self.get_callback();
            self.mechanisms.select(cb | self.cb, offered, |acc, mech| {
                callback.prefer(acc, mech)
            })''','''            let callback = self.get_callback();
            let chosen = self.mechanisms.select(cb | self.cb, offered, |acc, mech| {
                match (acc, self.last.get()) {
                    (Some(a), Some(l)) if a.mechanism == *l => core::cmp::Ordering::Greater,
                    _ => callback.prefer(acc, mech),
                }
            })?;
            let _ = self.last.set(chosen.1.mechanism);
            Ok(chosen)'''),
  ('src/config.rs','''        cb: bool,
        #[allow(dead_code)]
        callback: Box<dyn SessionCallback>,''','''        cb: bool,
        last: std::sync::OnceLock<&'static Mechname>,
        #[allow(dead_code)]
        callback: Box<dyn SessionCallback>,'''),
  ('src/config.rs','cb: false, // FIXME!','cb: false, // FIXME!\n                last: std::sync::OnceLock::new(),')],
 '''
fn main() {
    let (cfg, _) = App::creds(None, "alice", "pw").cfg(&[plain::PLAIN, scram::SCRAM_SHA256]);
    let a = SASLClient::new(cfg.clone()).start_suggested(&[name("PLAIN")]).unwrap();
    assert_eq!(a.get_mechname().as_str(), "PLAIN");
    let b = SASLClient::new(cfg).start_suggested(&[name("PLAIN"), name("SCRAM-SHA-256")]).unwrap();
    assert_eq!(b.get_mechname().as_str(), "SCRAM-SHA-256");
}
''')
bug('gssapi-announce-none','C23','a GSSAPI server always announces that it would do without a security layer',
 'a server application that insists on a security layer',
 [(M+'gssapi/server.rs','[supported.bits(), 0xFF, 0xFF, 0xFF]','[(supported | SecurityLayer::NO_SECURITY_LAYER).bits(), 0xFF, 0xFF, 0xFF]')],
 '''
fn main() {
    fakegss::configure(fakegss::Cfg::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssSecurityLayer>(&gssapi::properties::SecurityLayer::INTEGRITY)?;
        Ok(())
    });
    let capp = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let (mut s, _) = server(app, &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let mut c = client(capp, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let _ = run(&mut c, &mut s, |_, _| ());
    let w = fakegss::log().wraps;
    assert!(w.iter().filter(|w| !w.0).all(|w| w.2[0] == 2), "{w:?}");
}
''', gss=True)
bug('nonce-counter-seed','C25','the nonces of a process are those of every other process',
 'nonces of two processes',
 [(S+'tools.rs','''    let distribution = Slice::new(PRINTABLE).unwrap();
    [0u8; N].map(|_| *distribution.sample(rng))''','''    static SEED: core::sync::atomic::AtomicU64 = core::sync::atomic::AtomicU64::new(0);
    let distribution = Slice::new(PRINTABLE).unwrap();
    let _ = rng;
    let seed = SEED.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
    let mut rng = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(seed);
    [0u8; N].map(|_| *distribution.sample(&mut rng))''')],
 '''
fn main() {
    if std::env::args().len() > 1 {
        let mut c = client(App::creds(None, "alice", "pw"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
        println!("{}", String::from_utf8_lossy(&cstep(&mut c, None).1));
        return;
    }
    let me = std::env::current_exe().unwrap();
    let go = || std::process::Command::new(&me).arg("x").output().unwrap().stdout;
    let (a, b) = (go(), go());
    assert!(a.starts_with(b"n,,n=alice,r=") && b.starts_with(b"n,,n=alice,r="));
    assert_ne!(a, b);
}
''')
bug('credentials-trim','C26','white space around the user name given to the ready-made configuration is not sent',
 'a user name that begins or ends with a space',
 [('src/config.rs','.satisfy::<AuthId>(self.authid.as_str())?','.satisfy::<AuthId>(self.authid.trim())?')],
 '''
fn main() {
    let cfg = SASLConfig::with_credentials(None, "alice ".into(), "pw".into()).unwrap();
    let mut c = SASLClient::new(cfg).start_suggested(&[name("PLAIN")]).unwrap();
    let mut o = vec![];
    c.step(None, &mut o).unwrap();
    assert_eq!(o, b"\\0alice \\0pw");
}
''')
bug('anonymous-fffd','C12','an ANONYMOUS server refuses a token with a replacement character',
 'a token that contains U+FFFD',
 [(M+'anonymous/server.rs','let input = core::str::from_utf8(input.unwrap_or(&[])).map_err(ParseError)?;','let input = input.unwrap_or(&[]);\n        let lossy = alloc::string::String::from_utf8_lossy(input);\n        if lossy.contains(\'\\u{FFFD}\') {\n            let bad = core::str::from_utf8(b"\\xff").unwrap_err();\n            return Err(ParseError(core::str::from_utf8(input).err().unwrap_or(bad)).into());\n        }\n        let input = &*lossy;')],
 '''
fn main() {
    let (mut s, _) = server(App::silent(), &[anonymous::ANONYMOUS], "ANONYMOUS", &Cb::default());
    assert!(fin(&sstep(&mut s, Some("a\\u{fffd}".as_bytes())).0));
}
''')
bug('xoauth2-soh-only','C10','an XOAUTH2 server takes everything up to the last separator in front of the token for the user name',
 'a message with a further field in front of the token',
 [(M+'xoauth2/server.rs','''                    .iter()
                    .position(|b| *b == ASCII_SOH)''','''                    .windows(6)
                    .position(|w| w[0] == ASCII_SOH && w[1..] == *b"auth=")''')],
 '''
fn main() {
    let (mut s, log) = server(App::new(|_, _, r| {
        r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Ok(()))?;
        Ok(())
    }), &[xoauth2::XOAUTH2], "XOAUTH2", &Cb::default());
    let r = sstep(&mut s, Some(b"user=alice\\x01host=x\\x01auth=Bearer t\\x01\\x01")).0;
    assert!(r.is_err(), "{r:?}");
    assert!(log.lock().unwrap().is_empty());
}
''')
bug('oauthbearer-authority','C11','a field whose name begins with "auth" is taken for the token by an OAUTHBEARER server',
 'a field such as "authority" behind which no other token follows, or in front of it',
 [(M+'oauthbearer/parser.rs','if let Some(t) = kv.strip_prefix(b"auth=") {','if let Some(t) = kv.strip_prefix(b"auth").and_then(|t| {\n                    let eq = t.iter().position(|b| *b == b\'=\')?;\n                    Some(&t[eq + 1..])\n                }) {')],
 '''
fn main() {
    let seen = Arc::new(Mutex::new(0));
    let s2 = seen.clone();
    let (mut s, _) = server(App::new(move |_, c, r| {
        *s2.lock().unwrap() = c.get_ref::<OAuthBearerKV>().map_or(0, |k| k.len());
        r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?;
        Ok(())
    }), &[oauthbearer::OAUTHBEARER], "OAUTHBEARER", &Cb::default());
    let r = sstep(&mut s, Some(b"n,,\\x01authority=x\\x01auth=Bearer t\\x01\\x01")).0;
    assert!(fin(&r));
    assert_eq!(*seen.lock().unwrap(), 1);
}
''')
bug('login-reads-challenge','C09','a LOGIN client answers a challenge that asks for the password with the password, even if it is the first',
 'a server whose first challenge mentions a password',
 [(M+'login/client.rs','''        _input: Option<&[u8]>,
        writer: &mut dyn Write,
    ) -> Result<State, SessionError> {
        match self.state {''','''        input: Option<&[u8]>,
        writer: &mut dyn Write,
    ) -> Result<State, SessionError> {
        if input.is_some_and(|i| i.starts_with(b"Password")) {
            self.state = match self.state {
                LoginState::Authid => LoginState::Password,
                s => s,
            };
        }
        match self.state {''')],
 '''
fn main() {
    let mut c = client(App::creds(None, "alice", "secret"), &[login::LOGIN], &["LOGIN"], &Cb::default());
    let (r, o) = cstep(&mut c, Some(b"Password\\0"));
    assert!(!fin(&r) && o == b"alice", "{r:?} {o:?}");
}
''')
bug('plain-ascii-fast','C08','a PLAIN server does not prepare user names that are ASCII, so it lets control characters pass',
 'a user name with a control character',
 [(M+'plain/server.rs','let authcid = saslprep(authcid).map_err(PlainError::Saslprep)?;','let authcid = if authcid.is_ascii() {\n            authcid.into()\n        } else {\n            saslprep(authcid).map_err(PlainError::Saslprep)?\n        };')],
 '''
fn main() {
    let (mut s, log) = server(App::silent(), &[plain::PLAIN], "PLAIN", &Cb::default());
    assert!(sstep(&mut s, Some(b"\\0al\\x07ice\\0pw")).0.is_err());
    assert!(log.lock().unwrap().is_empty());
}
''')
bug('xoauth2-none-running','C14','an XOAUTH2 server that is stepped without a message asks for one with an empty challenge',
 'a server that is stepped before it received something',
 [(M+'xoauth2/server.rs','let input = input.ok_or(SessionError::InputDataRequired)?;','let Some(input) = input else {\n                    return Ok(State::Running);\n                };')],
 '''
fn main() {
    let (mut s, _) = server(App::silent(), &[xoauth2::XOAUTH2], "XOAUTH2", &Cb::default());
    assert!(sstep(&mut s, None).0.is_err());
}
''')
