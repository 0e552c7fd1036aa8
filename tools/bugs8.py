S='src/mechanisms/scram/'
M='src/mechanisms/'
BUGS=[]
def bug(id, prop, breaks, needs, edits, demo, **k):
    BUGS.append(dict(id=id, prop=prop, breaks=breaks, needs=needs, edits=edits, demo=demo, **k))

bug('request-side','C19','an application is told that it answers for the client when the request comes from a server',
 'a server application that looks at the side of the session in a request',
 [('src/session.rs','match self.callback.callback(&self.session_data, context, request) {','''let session = SessionData {
            mechanism_desc: self.session_data.mechanism_desc,
            side: Side::Client,
        };
        match self.callback.callback(&session, context, request) {''')],
 '''
fn main() {
    let seen = Arc::new(Mutex::new(vec![]));
    let log = seen.clone();
    let app = App::new(move |s, _, _| {
        log.lock().unwrap().push(format!("{:?}", s.side()));
        Ok(())
    });
    let (mut s, _) = server(app, &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
    sstep(&mut s, Some(b"n,,n=user,r=abc")).0.unwrap();
    assert!(seen.lock().unwrap().iter().all(|x| x == "Server"));
}
''')
bug('gssapi-encode-blocks','C23','GSSAPI protects data of more than 64 KiB in several tokens that the other end can not tell apart',
 'more than 65535 bytes in one call of encode',
 [(M+'gssapi/client.rs','''                let wrapped = ctx.wrap(encrypt, input).map_err(Error::Gss)?;
                writer.write_all(&wrapped)?;
                Ok(input.len())''','''                for block in input.chunks(0xFFFF) {
                    let wrapped = ctx.wrap(encrypt, block).map_err(Error::Gss)?;
                    writer.write_all(&wrapped)?;
                }
                Ok(input.len())''')],
 '''
fn main() {
    fakegss::configure(fakegss::Cfg::default());
    let (mut s, _) = server(App::silent(), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let (rc, rs) = run(&mut c, &mut s, |_, _| ());
    assert!(fin(&rc) && fin(&rs));
    for n in [10, 70000] {
        let (mut w, mut p) = (vec![], vec![]);
        let data = vec![7; n];
        assert_eq!(c.encode(&data, &mut w).unwrap(), n);
        s.decode(&w, &mut p).unwrap();
        assert_eq!(p, data);
    }
}
''', gss=True)
bug('oauthbearer-key-case','C11','the names of OAUTHBEARER fields reach the server application in lower case',
 'a field name with capital letters',
 [(M+'oauthbearer/parser.rs','                    let key = core::str::from_utf8(key)?;','''                    let key = core::str::from_utf8(key)?;
                    let key = ["host", "port", "user"]
                        .into_iter()
                        .find(|known| known.eq_ignore_ascii_case(key))
                        .unwrap_or(key);'''),
  (M+'oauthbearer/parser.rs','                    fields.push((key, val));','                    fields.push((key, val)); // known names are case insensitive')],
 '''
fn main() {
    let seen = Arc::new(Mutex::new(String::new()));
    let log = seen.clone();
    let app = App::new(move |_, c, r| {
        if r.is::<oauthbearer::properties::OAuthBearerValidate>() {
            *log.lock().unwrap() = format!("{:?}", c.get_ref::<OAuthBearerKV>());
            r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?;
        }
        Ok(())
    });
    let (mut s, _) = server(app, &[oauthbearer::OAUTHBEARER], "OAUTHBEARER", &Cb::default());
    sstep(&mut s, Some(b"n,,\\x01Host=x\\x01auth=Bearer t\\x01\\x01")).0.unwrap();
    assert!(seen.lock().unwrap().contains("Host"));
}
''')
bug('login-empty-user-again','C09','a LOGIN server asks again for the user name instead of taking an empty one, and takes the password for it',
 'an empty user name',
 [(M+'login/server.rs','''                    let out = b"Password\\0";
                    writer.write_all(out)?;
                    self.state = LoginState::WaitingForPassword(username);''','''                    if username.is_empty() {
                        writer.write_all(b"User Name\\0")?;
                        return Ok(State::Running);
                    }
                    writer.write_all(b"Password\\0")?;
                    self.state = LoginState::WaitingForPassword(username);''')],
 '''
fn main() {
    let (mut s, log) = server(App::silent(), &[login::LOGIN], "LOGIN", &Cb::default());
    let mut c = client(App::creds(None, "", "pw"), &[login::LOGIN], &["LOGIN"], &Cb::default());
    let (rc, rs) = run(&mut c, &mut s, |_, _| ());
    assert!(fin(&rc) && fin(&rs));
    assert!(log.lock().unwrap()[0].contains("pw"));
}
''')
bug('scram-escape-eight','C03','only the first eight special characters of a SCRAM name are escaped',
 'a name with more than eight commas or equals signs',
 [(S+'parser.rs','let escaped: String = input.chars().flat_map(SaslEscapeState::escape).collect();','''let mut left = 8;
            let escaped: String = input
                .chars()
                .flat_map(|c| {
                    let special = matches!(c, ',' | '=') && left > 0;
                    left -= usize::from(special);
                    if special {
                        SaslEscapeState::escape(c)
                    } else {
                        SaslEscapeState::Char(c)
                    }
                })
                .collect();''')],
 '''
fn main() {
    let mut c = client(App::creds(None, "=,=,=,=,=,=", "pw"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
    let (_, o) = cstep(&mut c, None);
    let o = String::from_utf8(o).unwrap();
    assert!(o.contains(&"=3D=2C".repeat(5)), "{o}");
}
''')
bug('scram-unescape-five','C03','a SCRAM server decodes only the first five escapes of a name',
 'a name with more than five commas or equals signs',
 [(S+'parser.rs','while let Some(bad) = input.iter().position(|b| matches!(b, b\'=\')) {','''let mut escapes = 0..5;
            while let Some(bad) = input
                .iter()
                .position(|b| matches!(b, b'='))
                .filter(|_| escapes.next().is_some())
            {'''),
 ],
 '''
fn main() {
    let seen = Arc::new(Mutex::new(String::new()));
    let log = seen.clone();
    let app = App::new(move |_, c, _| {
        *log.lock().unwrap() = c.get_ref::<AuthId>().unwrap_or_default().to_string();
        Ok(())
    });
    let (mut s, _) = server(app, &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
    sstep(&mut s, Some(format!("n,,n={},r=abc", "=3D".repeat(7)).as_bytes())).0.unwrap();
    assert_eq!(*seen.lock().unwrap(), "=======");
}
''')
bug('select-offers-256','C06','a client does not look beyond the first 256 offers of a server',
 'a long list of offers',
 [('src/registry.rs','        for o in offered {','        for o in offered.take(256) {')],
 '''
fn main() {
    let mut offers: Vec<String> = (0..300).map(|i| format!("X-{i}")).collect();
    offers.push("PLAIN".into());
    let offers: Vec<&str> = offers.iter().map(|x| x.as_str()).collect();
    client(App::creds(None, "u", "p"), &[plain::PLAIN], &offers, &Cb::default());
}
''')
bug('cb-callback-error-ignored','C20','an application that fails to provide channel bindings is treated as if it had none',
 'an application whose answer to the request for channel bindings is an error',
 [('src/session.rs','            self.maybe_need_with::<ChannelBindings, F, G>(&prov, f)','''            match self.maybe_need_with::<ChannelBindings, F, G>(&prov, f) {
                Err(SessionError::Boxed(_) | SessionError::CallbackError(_)) => Ok(None),
                other => other,
            }''')],
 '''
fn main() {
    let app = App::new(|_, c, r| {
        if r.is::<ChannelBindings>() && c.get_ref::<ChannelBindingName>() == Some("tls-exporter") {
            return Err(SessionError::Boxed("broken".into()));
        }
        r.satisfy::<ChannelBindings>(b"unique")?.satisfy::<AuthId>("u")?.satisfy::<Password>(b"p")?;
        Ok(())
    });
    let mut c = client(app.with_cb(), &[scram::SCRAM_SHA1_PLUS], &["SCRAM-SHA-1-PLUS"], &Cb::default());
    assert!(cstep(&mut c, None).0.is_err());
}
''')
bug('scram-extensions-recursive','C13','a SCRAM server recurses over the extensions of a message and overflows its stack',
 'a first message with very many extensions',
 [(S+'parser.rs','''let mut partiter = input.split(|b| matches!(b, b','));

        let first = partiter.next().ok_or(ParseError::BadCBFlag)?;''','''fn fields(input: &[u8], seen: &mut [u8; 64]) -> usize {
            seen[input.len() % 64] = 1;
            match input.iter().position(|b| *b == b',') {
                Some(at) => fields(&input[at + 1..], &mut seen.clone()) + 1,
                None => 1,
            }
        }
        if fields(input, &mut [0; 64]) < 4 {
            return Err(ParseError::MissingAttributes);
        }
        let mut partiter = input.split(|b| *b == b',');

        let first = partiter.next().ok_or(ParseError::BadCBFlag)?;''')],
 '''
fn main() {
    std::thread::spawn(|| {
        let (mut s, _) = server(App::silent(), &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
        let _ = sstep(&mut s, Some(format!("n,,n=user,r=abc{}", ",".repeat(100_000)).as_bytes()));
    }).join().unwrap();
}
''')
bug('xoauth2-error-512','C10','a refusal of more than 512 bytes reaches the XOAUTH2 client truncated',
 'a long error text',
 [(M+'xoauth2/server.rs','writer.write_all(error.as_bytes())?;','writer.write_all(&error.as_bytes()[..error.len().min(512)])?;')],
 '''
fn main() {
    let long: &'static str = "x".repeat(600).leak();
    let app = App::new(move |_, _, r| {
        r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Err(long))?;
        Ok(())
    });
    let (mut s, _) = server(app, &[xoauth2::XOAUTH2], "XOAUTH2", &Cb::default());
    let (_, o) = sstep(&mut s, Some(b"user=u\\x01auth=Bearer t\\x01\\x01"));
    assert_eq!(o.len(), 600);
}
''')
bug('mechname-str-case','C22','a mechanism name equals a text that differs from it in case',
 'a comparison with a text in lower case',
 [('src/mechname.rs','''        self.as_str() == other
    }''','''        self.as_str().eq_ignore_ascii_case(other)
    }'''),
 ],
 '''
fn main() {
    assert!(*name("PLAIN") == *"PLAIN");
    assert!(*name("PLAIN") != *"plain");
}
''')
bug('mechname-hash-trim','C22','a mechanism name that is followed by a line break is accepted',
 'a name with a line break at its end',
 [('src/mechname.rs','''        if input.is_empty() {
            Err(MechanismNameError::TooShort)''','''        let input = input.strip_suffix(b"\\n").unwrap_or(input);
        if input == b"" {
            Err(MechanismNameError::TooShort)''')],
 '''
fn main() {
    assert!(Mechname::parse(b"PLAIN\\n").is_err());
}
''')
bug('credentials-empty-password','C26','the ready-made credentials do not answer with an empty password',
 'an empty password',
 [('src/config.rs','''                    request
                        .satisfy::<AuthId>(self.authid.as_str())?
                        .satisfy::<Password>(self.password.as_bytes())?;''','''                    request.satisfy::<AuthId>(self.authid.as_str())?;
                    if !self.password.is_empty() {
                        request.satisfy::<Password>(self.password.as_bytes())?;
                    }''')],
 '''
fn main() {
    let cfg = SASLConfig::with_credentials(None, "alice".into(), String::new()).unwrap();
    let mut c = SASLClient::new(cfg).start_suggested(&[name("LOGIN")]).unwrap();
    let mut w = vec![];
    c.step(Some(b"User"), &mut w).unwrap();
    c.step(Some(b"Password"), &mut w).unwrap();
}
''')
bug('scram-salt-raw','C02','a SCRAM client takes a salt that is not base64 as it is',
 'a server that sends such a salt',
 [(S+'client.rs','''            .decode(salt64)
            .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;''','''            .decode(salt64)
            .unwrap_or_else(|_| salt64.to_vec());''')],
 '''
fn main() {
    let mut c = client(App::creds(None, "u", "p"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
    let n = attr(&cstep(&mut c, None).1, "r=");
    assert!(cstep(&mut c, Some(format!("r={n}x,s=*salt*,i=8").as_bytes())).0.is_err());
}
''')
bug('oauthbearer-auth-last','C11','a field that begins with auth replaces the token of an OAUTHBEARER message',
 'a message with a field whose name begins with "auth"',
 [(M+'oauthbearer/parser.rs','if let Some(t) = kv.strip_prefix(b"auth=") {','''if kv.starts_with(b"auth") && kv.contains(&b'=') {
                    let t = &kv[kv.iter().position(|b| *b == b'=').unwrap_or_default() + 1..];'''),
 ],
 '''
fn main() {
    let seen = Arc::new(Mutex::new(String::new()));
    let log = seen.clone();
    let app = App::new(move |_, c, r| {
        *log.lock().unwrap() = c.get_ref::<OAuthBearerToken>().unwrap_or_default().to_string();
        r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?;
        Ok(())
    });
    let (mut s, _) = server(app, &[oauthbearer::OAUTHBEARER], "OAUTHBEARER", &Cb::default());
    let _ = sstep(&mut s, Some(b"n,,\\x01auth=Bearer t\\x01authority=x\\x01\\x01"));
    assert_eq!(*seen.lock().unwrap(), "t");
}
''')
bug('validate-with-again','C15','the value of a validation that ran its check again replaces the first one',
 'a validation callback that calls with twice',
 [('src/validate.rs','''        if let Some(result @ Tagged(Option::None)) = self.0.downcast_mut::<T>() {
            let outcome = f()?;''','''        if let Some(result) = self.0.downcast_mut::<T>() {
            let outcome = f()?;''')],
 '''
struct A;
impl SessionCallback for A {
    fn validate(&self, _: &SessionData, _: &Context<'_>, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        v.with::<V, _>(|| Ok("first".into()))?;
        v.with::<V, _>(|| Ok("second".into()))?;
        Ok(())
    }
}
fn main() {
    let cfg = SASLConfig::builder().with_registry(Registry::with_mechanisms(Vec::leak(vec![plain::PLAIN]))).with_callback(A).unwrap();
    let mut s = SASLServer::<V>::new(cfg).start_suggested(name("PLAIN")).unwrap();
    s.step(Some(b"\\0u\\0p"), &mut vec![]).unwrap();
    assert_eq!(s.validation().as_deref(), Some("first"));
}
''')
bug('thousand-sessions','C21','a process accepts no more SCRAM users after 200 sessions',
 'more than 200 sessions',
 [(S+'server.rs','''        let server_nonce: [u8; N] = generate_nonce(rng);

        if let Some((iterations, salt, stored_key, server_key)) = params {''','''        let server_nonce: [u8; N] = generate_nonce(rng);

        static SESSIONS: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        let n = SESSIONS.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
        if let Some((iterations, salt, stored_key, server_key)) = params.filter(|_| n < 200) {''')],
 '''
fn main() {
    let h = Hash::Sha1;
    for _ in 0..300 {
        let (mut s, _) = server(App::store(h, &[("alice", "pw")]), &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
        let mut c = client(App::creds(None, "alice", "pw"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
        let (rc, rs) = run(&mut c, &mut s, |_, _| ());
        assert!(fin(&rc) && fin(&rs));
    }
}
''')
