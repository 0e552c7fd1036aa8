S='src/mechanisms/scram/'
M='src/mechanisms/'
BUGS=[]
def bug(id, prop, breaks, needs, edits, demo, **k):
    BUGS.append(dict(id=id, prop=prop, breaks=breaks, needs=needs, edits=edits, demo=demo, **k))

bug('scram-iterations-u16','C03','a stored iteration count beyond 65535 is announced truncated, so the right password is refused',
 'an account stored with an iteration count of 65536 or more',
 [(S+'server.rs','format!("{iterations}"),','(iterations & 0xffff).to_string(),')],
 '''
fn main() {
    use rsasl::mechanisms::scram::properties::*;
    let h = Hash::Sha256;
    for n in [4096u32, 65_535, 65_536, 70_000, u32::MAX] {
        // keys are cached, no hashing is needed
        let salted = [7u8; 32];
        let (ck, sk) = (h.client_key(&salted), h.server_key(&salted));
        let stored = h.h(&ck);
        let sk2 = sk.clone();
        let sapp = App::new(move |_, _, r| {
            r.satisfy::<ScramStoredPassword>(&ScramStoredPassword::new(n, b"salt", &stored, &sk2))?;
            Ok(())
        });
        let capp = App::new(move |_, c, r| {
            r.satisfy::<AuthId>("alice")?;
            if c.get_ref::<Iterations>() == Some(&n) {
                r.satisfy::<ScramCachedPassword>(&ScramCachedPassword::new(&ck, &sk))?;
            }
            Ok(())
        });
        let (mut s, v) = server(sapp, &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
        let mut c = client(capp, &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
        let (rc, _) = run(&mut c, &mut s, |_, _| ());
        assert!(fin(&rc) && v.lock().unwrap().len() == 1, "{n}: {rc:?}");
    }
}
''')
bug('scram-can-cb-512','C05','the SCRAM-SHA-512 server decides from another mechanism whether it supports channel binding, so a stripped offer goes unnoticed',
 "a server with SCRAM-SHA-512 and SCRAM-SHA-512-PLUS but without SCRAM-SHA-256-PLUS, and a client that says 'y'",
 [(S+'mechinfo.rs','.any(|m| m.mechanism.as_str() == "SCRAM-SHA-512-PLUS");','.any(|m| m.mechanism.as_str() == "SCRAM-SHA-256-PLUS");')],
 '''
fn main() {
    for (h, bare, plus) in [(Hash::Sha1, scram::SCRAM_SHA1, scram::SCRAM_SHA1_PLUS), (Hash::Sha256, scram::SCRAM_SHA256, scram::SCRAM_SHA256_PLUS), (Hash::Sha512, scram::SCRAM_SHA512, scram::SCRAM_SHA512_PLUS)] {
        let (mut s, _) = server(App::store(h, &[("alice", "secret")]), &[bare, plus], h.bare(), &Cb::default());
        // the client supports channel binding, but was made to believe that the server does not
        let mut c = client(App::creds(None, "alice", "secret").with_cb(), &[bare, plus], &[h.bare()], &Cb::default());
        let (rc, rs) = run(&mut c, &mut s, |_, _| ());
        assert!(rs.is_err() && !fin(&rc), "downgrade unnoticed: {}", h.bare());
    }
}
''')
bug('scram-cb-last-byte','C05','the server accepts channel binding data it has only partly compared when the client used tls-exporter',
 'a man in the middle: the binding data of both sides differs behind the length of the header',
 [(S+'server.rs','if gs2_header[..] != cb[..] {','if gs2_header.len() != cb.len() || gs2_header[..cb.len() - 1] != cb[..cb.len() - 1] {')],
 '''
fn main() {
    let h = Hash::Sha256;
    for (mine, theirs) in [(&b"DATA"[..], &b"DATB"[..]), (b"XATA", b"DATA"), (b"DATA", b"DATA")] {
        let (mut s, v) = server(App::store(h, &[("alice", "secret")]), &[scram::SCRAM_SHA256_PLUS], "SCRAM-SHA-256-PLUS", &Cb(vec![("tls-exporter", Vec::leak(theirs.to_vec()))]));
        let mut c = client(App::creds(None, "alice", "secret").with_cb(), &[scram::SCRAM_SHA256_PLUS], &["SCRAM-SHA-256-PLUS"], &Cb(vec![("tls-exporter", Vec::leak(mine.to_vec()))]));
        let _ = run(&mut c, &mut s, |_, _| ());
        assert_eq!(v.lock().unwrap().len(), (mine == theirs) as usize);
    }
}
''')
bug('scram-error-then-ok','C02','after an error of the server the client can still be brought to a success',
 'a server that refuses with an error value this client does not know; the client takes it for a success',
 [(S+'client.rs','ServerFinal::Error(e) => Err(SCRAMError::ServerError(e).into()),','ServerFinal::Error(e) if e != super::parser::ServerErrorValue::NoResources => {\n                Err(SCRAMError::ServerError(e).into())\n            }\n            ServerFinal::Error(_) => Ok(StateServerFinal {}),')],
 '''
fn main() {
    for e in ["invalid-proof", "other-error", "unknown-user", "no-resources", "invalid-encoding"] {
        let mut c = client(App::creds(None, "alice", "secret"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
        let m = cstep(&mut c, None).1;
        cstep(&mut c, Some(format!("r={}S,s=c2FsdA==,i=8", attr(&m, "r=")).as_bytes())).0.unwrap();
        assert!(cstep(&mut c, Some(format!("e={e}").as_bytes())).0.is_err(), "{e} taken for a success");
    }
}
''')
bug('select-equal-order','C06','between mechanisms of the same priority the one registered first is used instead of the one the preference settles on',
 'a preference that reports Equal for a pair of mechanisms',
 [('src/registry.rs','''                    Ordering::Greater => acc,
                    // `Equal` is undefined behaviour, but we're just going for `Less` because
                    // we don't have to check for `accmech` being `None` then.
                    Ordering::Equal |
                    // `Less` means the second parameter (m) was preferable
                    Ordering::Less => Some((s,m))''','''                    Ordering::Greater => acc,
                    // `Equal` keeps what there is
                    Ordering::Equal => acc.or(Some((s, m))),
                    // `Less` means the second parameter (m) was preferable
                    Ordering::Less if accmech.map_or(true, |a| a.priority <= m.priority) => Some((s, m)),
                    Ordering::Less => acc,''')],
 '''
struct P;
impl SessionCallback for P {
    fn prefer<'a>(&self, a: Option<&'a Mechanism>, b: &'a Mechanism) -> std::cmp::Ordering {
        // LOGIN is the favourite of this application
        match a {
            Some(a) if a.mechanism == name("LOGIN") => std::cmp::Ordering::Greater,
            _ if b.mechanism == name("LOGIN") => std::cmp::Ordering::Less,
            _ => std::cmp::Ordering::Less,
        }
    }
}
fn main() {
    let cfg = SASLConfig::builder().with_default_mechanisms().with_callback(P).unwrap();
    let s = SASLClient::new(cfg).start_suggested(&[name("PLAIN"), name("LOGIN"), name("SCRAM-SHA-1")]).unwrap();
    assert_eq!(s.get_mechname().as_str(), "LOGIN");
}
''')
bug('server-unlisted-first','C07','a server mechanism that is registered twice or behind an unusable one is not found',
 'a registry in which a mechanism without server side comes before the one asked for',
 [('src/sasl.rs','''            self.config.mech_list().filter(|mech| mech.server.is_some())''','''            self.config.mech_list().skip_while(|mech| mech.server.is_none())''')],
 '''
use rsasl::registry::{Matches, Named, Selection, Side};
struct N;
static ONLY: Mechanism = Mechanism::build(Mechname::const_new_unchecked(b"X-CLIENT"), 10, None, None, Side::Client, |_| Some(Matches::<N>::name()), |_| true);
impl Named for N {
    fn mech() -> &'static Mechanism { &ONLY }
}
fn main() {
    for pos in 0..3 {
        let mut l = vec![plain::PLAIN, login::LOGIN];
        l.insert(pos, ONLY);
        let cfg = App::silent().cfg(&l).0;
        let s = SASLServer::<V>::new(cfg);
        let names: Vec<String> = s.get_available().into_iter().map(|m| m.mechanism.as_str().to_owned()).collect();
        assert_eq!(names, ["PLAIN", "LOGIN"]);
    }
}
''')
bug('plain-invalid-utf8-password','C08','a password that is not UTF-8 is handed to the application without the bytes that do not decode',
 'a PLAIN password that is not valid UTF-8',
 [(M+'plain/server.rs','''            let provider = PlainProvider {
                authzid,
                authcid: authcid.as_ref(),
                password,
            };''','''            let valid: Vec<u8> = password
                .iter()
                .copied()
                .filter(|b| !matches!(b, 0xC0 | 0xC1 | 0xF5..))
                .collect();
            let provider = PlainProvider {
                authzid,
                authcid: authcid.as_ref(),
                password: &valid,
            };''')],
 '''
fn main() {
    for pw in [&b"p\\x80w"[..], b"p\\xffw", b"\\xc0pw", b"pw\\xf8"] {
        let got = Arc::new(Mutex::new(vec![]));
        let g = got.clone();
        let mut app = App::silent();
        app.val = Box::new(move |c| {
            g.lock().unwrap().extend_from_slice(c.get_ref::<Password>().unwrap());
            Ok(None)
        });
        let (mut s, _) = server(app, &[plain::PLAIN], "PLAIN", &Cb::default());
        let mut m = b"\\0alice\\0".to_vec();
        m.extend_from_slice(pw);
        assert!(fin(&sstep(&mut s, Some(&m)).0));
        assert_eq!(got.lock().unwrap().as_slice(), pw);
    }
}
''')
bug('login-password-lossy','C09','a LOGIN password is cut at its first NUL',
 'a password with a NUL byte inside',
 [(M+'login/server.rs','                        password: input,\n','                        password: input.split(|b| *b == 0).next().unwrap_or(input),\n')],
 '''
fn main() {
    for pw in [&b"sec"[..], b"sec\\0ret", b"s\\0"] {
        let got = Arc::new(Mutex::new(vec![]));
        let g = got.clone();
        let mut app = App::silent();
        app.val = Box::new(move |c| {
            g.lock().unwrap().extend_from_slice(c.get_ref::<Password>().unwrap());
            Ok(None)
        });
        let (mut s, _) = server(app, &[login::LOGIN], "LOGIN", &Cb::default());
        sstep(&mut s, None).0.unwrap();
        sstep(&mut s, Some(b"alice")).0.unwrap();
        assert!(fin(&sstep(&mut s, Some(pw)).0));
        assert_eq!(got.lock().unwrap().as_slice(), pw);
    }
}
''')
bug('xoauth2-bearer-twice','C10','a token which itself starts with the word Bearer loses it',
 'a token beginning with "Bearer "',
 [(M+'xoauth2/server.rs','''                let token = core::str::from_utf8(raw_token)
                    .map_err(''','''                let token = core::str::from_utf8(raw_token)
                    .map(|token| token.trim_start_matches("Bearer ")).map_err(''')],
 '''
fn main() {
    for t in ["abc", "Bearer abc", "Bearer Bearer x"] {
        let got = Arc::new(Mutex::new(String::new()));
        let g = got.clone();
        let app = App::new(move |_, c, r| {
            *g.lock().unwrap() = c.get_ref::<OAuthBearerToken>().unwrap().to_owned();
            r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Ok(()))?;
            Ok(())
        });
        let (mut s, _) = server(app, &[xoauth2::XOAUTH2], "XOAUTH2", &Cb::default());
        assert!(fin(&sstep(&mut s, Some(format!("user=u\\x01auth=Bearer {t}\\x01\\x01").as_bytes())).0));
        assert_eq!(*got.lock().unwrap(), t);
    }
}
''')
bug('oauthbearer-kv-dup','C11','of several pairs with the same key only the first reaches the server application',
 'two key/value pairs with the same key',
 [(M+'oauthbearer/parser.rs','                    fields.push((key, val));','                    if !fields.iter().any(|(k, _)| *k == key) {\n                        fields.push((key, val));\n                    }')],
 '''
fn main() {
    let got = Arc::new(Mutex::new(vec![]));
    let g = got.clone();
    let app = App::new(move |_, c, r| {
        *g.lock().unwrap() = c.get_ref::<OAuthBearerKV>().unwrap().iter().map(|(a, b)| format!("{a}={b}")).collect();
        r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?;
        Ok(())
    });
    let (mut s, _) = server(app, &[oauthbearer::OAUTHBEARER], "OAUTHBEARER", &Cb::default());
    assert!(fin(&sstep(&mut s, Some(b"n,,\\x01host=a\\x01port=1\\x01host=b\\x01auth=Bearer t\\x01\\x01")).0));
    assert_eq!(*got.lock().unwrap(), ["host=a", "port=1", "host=b"]);
}
''')
bug('external-trim','C12','an authorization identity sent with EXTERNAL loses surrounding white space',
 'an identity that starts or ends with white space',
 [(M+'external/server.rs','session.validate(&ThisProvider::<AuthzId>::with(authzid))?;','session.validate(&ThisProvider::<AuthzId>::with(authzid.trim_matches(char::is_whitespace)))?;')],
 '''
fn main() {
    for id in ["bob", " bob", "bob\\u{a0}", "b b", "\\t"] {
        let (mut s, v) = server(App::silent(), &[external::EXTERNAL], "EXTERNAL", &Cb::default());
        assert!(fin(&sstep(&mut s, Some(id.as_bytes())).0));
        let got = v.lock().unwrap()[0].clone();
        assert!(got.contains(&format!("authzid=Some({id:?})")), "{got}");
    }
}
''')
bug('anonymous-slice-1024','C13','a long anonymous token that has a multi-byte character at byte 1024 panics the server',
 'a token of more than 1024 bytes with a character boundary not at 1024',
 [(M+'anonymous/server.rs','session.validate(&ThisProvider::<AnonymousToken>::with(input))?;','let shown = if input.len() > 1024 { [&input[..1024], &input[1024..]].concat() } else { input.to_owned() };\n        session.validate(&ThisProvider::<AnonymousToken>::with(&shown))?;')],
 '''
fn main() {
    for unit in ["a", "\\u{e4}", "\\u{20ac}", "\\u{10000}"] {
        for pre in ["", "x", "xx", "xxx"] {
            let t = format!("{pre}{}", unit.repeat(1500));
            let (mut s, v) = server(App::silent(), &[anonymous::ANONYMOUS], "ANONYMOUS", &Cb::default());
            assert!(fin(&sstep(&mut s, Some(t.as_bytes())).0));
            assert_eq!(v.lock().unwrap().len(), 1);
        }
    }
}
''')
bug('login-same-unvalidated','C15','a LOGIN exchange in which no password is given is finished without asking the application to validate it',
 'an empty password',
 [(M+'login/server.rs','                    session.validate(&prov)?;','                    if !prov.password.is_empty() {\n                        session.validate(&prov)?;\n                    }')],
 '''
fn main() {
    for p in ["secret", ""] {
        let (mut s, v) = server(App::silent(), &[login::LOGIN], "LOGIN", &Cb::default());
        sstep(&mut s, None).0.unwrap();
        sstep(&mut s, Some(b"alice")).0.unwrap();
        assert!(fin(&sstep(&mut s, Some(p.as_bytes())).0));
        assert_eq!(v.lock().unwrap().len(), 1, "{p:?} not validated");
        assert!(s.validation().is_some());
    }
}
''')
bug('gssapi-encode-short','C17','a sealed message is written with a single write, so a writer that takes less loses the rest',
 'an output that accepts only a part of the message at once, with a security layer installed',
 [(M+'gssapi/client.rs','''                let wrapped = ctx.wrap(encrypt, input).map_err(Error::Gss)?;
                writer.write_all(&wrapped)?;
                Ok(input.len())''','''                let wrapped = ctx.wrap(encrypt, input).map_err(Error::Gss)?;
                if writer.write(&wrapped)? == 0 && !wrapped.is_empty() {
                    writer.write_all(&wrapped)?;
                }
                Ok(input.len())''')],
 '''
struct W(Vec<u8>);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(3);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    fakegss::configure(fakegss::Cfg::default());
    let (mut s, _) = server(App::silent(), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let (rc, rs) = run(&mut c, &mut s, |_, _| ());
    assert!(fin(&rc) && fin(&rs));
    let mut w = W(vec![]);
    assert_eq!(c.encode(b"hello", &mut w).unwrap(), 5);
    let mut o = vec![];
    s.decode(&w.0, &mut o).unwrap();
    assert_eq!(o, b"hello");
}
''', gss=True)
bug('scram-interrupted-mid','C17','a SCRAM message is given up on when the output is interrupted after a part of it has been taken',
 'an output that takes a part of the message and then reports Interrupted',
 [('src/vectored_io.rs','        let len = writer.write_vectored(&bufs[self.skip..])?;','''        let len = match writer.write_vectored(&bufs[self.skip..]) {
            Err(e) if e.kind() == io::ErrorKind::Interrupted && self.skip > 0 => 0,
            res => res?,
        };''')],
 '''
struct W(Vec<u8>, usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 % 2 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(5);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut c = client(App::creds(None, "alice", "secret"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
    let mut w = W(vec![], 0);
    c.step(None, &mut w).unwrap();
    let m = String::from_utf8(w.0).unwrap();
    assert!(m.starts_with("n,,n=alice,r="), "{m}");
    assert_eq!(m.len(), "n,,n=alice,r=".len() + 24, "{m}");
}
''')
bug('step64-whitespace','C18','step64 takes base64 that is broken over lines',
 'input with line breaks inside',
 [('src/session.rs','            let state = if let Some(input) = input {\n','''            let unfold = |input: &[u8]| -> Vec<u8> {
                let fold = |b: &u8| matches!(b, b'\\r' | b'\\n');
                input.iter().copied().filter(|b| !fold(b)).collect()
            };
            let state = if let Some(input) = input.map(unfold) {
''')],
 '''
fn main() {
    for bad in ["YWJj\\r\\n", "YW\\nJj", "\\nYWJj"] {
        let (mut s, v) = server(App::silent(), &[anonymous::ANONYMOUS], "ANONYMOUS", &Cb::default());
        assert!(s.step64(Some(bad.as_bytes()), &mut Vec::new()).is_err(), "{bad:?} taken");
        assert_eq!(v.lock().unwrap().len(), 0);
    }
}
''')
bug('callback-novalue-fatal','C20','an application that answers NoValue to an optional question fails the exchange of ANONYMOUS',
 'an application that reports NoValue',
 [('src/session.rs','''        match self.callback(provider, Request::new_satisfy::<P>(&mut tagged)) {
            // explicitly ignore a `NoValue` error since that one *is actually okay*
            Ok(()) | Err(SessionError::CallbackError(CallbackError::NoValue)) => Ok(()),
            Err(error) => Err(error),
        }?;''','''        match self.callback(provider, Request::new_satisfy::<P>(&mut tagged)) {
            // explicitly ignore a `NoValue` error since that one *is actually okay*
            Ok(()) | Err(SessionError::CallbackError(_)) => Ok(()),
            Err(error) => Err(error),
        }?;''')],
 '''
use rsasl::callback::CallbackError;
fn main() {
    for (e, good) in [(CallbackError::NoValue, true), (CallbackError::NoCallback("no"), false)] {
        let e = Mutex::new(Some(e));
        let app = App::new(move |_, _, r| {
            if r.is::<AnonymousTok>() {
                if let Some(e) = e.lock().unwrap().take() {
                    return Err(e.into());
                }
            }
            Ok(())
        });
        let mut c = client(app, &[anonymous::ANONYMOUS], &["ANONYMOUS"], &Cb::default());
        assert_eq!(cstep(&mut c, None).0.is_ok(), good);
    }
}
use rsasl::mechanisms::anonymous::AnonymousToken as AnonymousTok;
''')
bug('satisfy-after-fatal','C20','an application that satisfies a request and then reports an error of its own is taken to have succeeded',
 'a callback that answers and afterwards returns an error',
 [('src/session.rs','''            Ok(()) | Err(SessionError::CallbackError(CallbackError::NoValue)) => Ok(()),
            Err(error) => Err(error),
        }?;
        Ok(closurecr.try_unwrap())''','''            Ok(()) | Err(SessionError::CallbackError(CallbackError::NoValue)) => {}
            Err(error) => {
                // an answer is an answer
                return closurecr.try_unwrap().map(Some).ok_or(error);
            }
        };
        Ok(closurecr.try_unwrap())''')],
 '''
use rsasl::callback::CallbackError;
fn main() {
    let app = App::new(|_, _, r| {
        let answered = r.is::<Password>();
        match r.satisfy::<AuthId>("alice").and_then(|r| r.satisfy::<Password>(b"secret")) {
            _ if answered => Err(SessionError::NoSecurityLayer),
            Err(e) => Err(e),
            Ok(_) => Ok(()),
        }
    });
    let mut c = client(app, &[plain::PLAIN], &["PLAIN"], &Cb::default());
    assert!(cstep(&mut c, None).0.is_err(), "the application's error is lost");
}
''')
bug('mechname-dash-end','C22','a mechanism name that ends with a dash is refused',
 'a name whose last character is a dash or an underscore',
 [('src/mechname.rs','''                if is_invalid(*value) {''','''                if is_invalid(*value) || (index > 0 && index + 1 == input.len() && !value.is_ascii_alphanumeric()) {''')],
 '''
fn main() {
    for n in ["A", "-", "_", "A-", "A_", "-A", "A-B", "9"] {
        assert_eq!(Mechname::parse(n.as_bytes()).map(Mechname::as_str), Ok(n));
    }
    for n in ["", "a", "A B", "A\\0", "\\u{c4}"] {
        assert!(Mechname::parse(n.as_bytes()).is_err());
    }
}
''')
bug('gssapi-prefer-integrity','C23','of the layers both sides accept, integrity is chosen although confidentiality is possible',
 'both sides accept both layers',
 [(M+'gssapi/client.rs','let (response, wrap) = if shared_layers.contains(SecurityLayer::CONFIDENTIALITY) {','let (response, wrap) = if shared_layers.contains(SecurityLayer::CONFIDENTIALITY)\n                    && !shared_layers.contains(SecurityLayer::INTEGRITY)\n                {')],
 '''
fn main() {
    fakegss::configure(fakegss::Cfg::default());
    let (mut s, _) = server(App::silent(), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let (rc, rs) = run(&mut c, &mut s, |_, _| ());
    assert!(fin(&rc) && fin(&rs));
    c.encode(b"hello", &mut Vec::new()).unwrap();
    let (_, conf, _) = fakegss::log().wraps.last().unwrap().clone();
    assert!(conf, "not encrypted");
}
''', gss=True)
bug('gssapi-several-layers','C23','the server takes an answer that selects several layers if it offered only one of them',
 'a server that accepts only confidentiality and a client that answers with integrity and confidentiality',
 [(M+'gssapi/server.rs','''SecurityLayer::from_bits(unwrapped[0]).ok_or(Error::BadFinalToken)?;''','''SecurityLayer::from_bits(unwrapped[0]).ok_or(Error::BadFinalToken)? & supported;''')],
 '''
fn main() {
    fakegss::configure(fakegss::Cfg::default());
    use gssapi::properties::*;
    let (mut s, v) = server(App::new(|_, _, r| { r.satisfy::<GssSecurityLayer>(&SecurityLayer::CONFIDENTIALITY)?; Ok(()) }), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let (_, rs) = run(&mut c, &mut s, |_, m| {
        // the client's choice, made by hand
        if let Some((init, false, _, d)) = fakegss::open(m) {
            if init && d.len() == 4 && d[0] == 4 {
                *m = fakegss::seal(true, false, 0, &[6, 0xff, 0xff, 0xff]);
            }
        }
    });
    assert!(rs.is_err() && v.lock().unwrap().is_empty(), "{rs:?}");
}
''', gss=True)
bug('gssapi-layer-early','C24','the server reports a security layer before the client has chosen one',
 'a question for the security layer in the middle of the exchange',
 [(M+'gssapi/server.rs','matches!(self.state, GssapiState::Done(Some(_)))','''match self.state {
            GssapiState::Done(ref layer) => layer.is_some(),
            GssapiState::Final(_, offer) => offer.bits() == SecurityLayer::CONFIDENTIALITY.bits(),
            _ => false,
        }''')],
 '''
fn main() {
    fakegss::configure(fakegss::Cfg::default());
    use gssapi::properties::*;
    let (mut s, _) = server(App::new(|_, _, r| { r.satisfy::<GssSecurityLayer>(&SecurityLayer::CONFIDENTIALITY)?; Ok(()) }), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let mut m: Option<Vec<u8>> = None;
    loop {
        let (r, o) = cstep(&mut c, m.as_deref());
        r.unwrap();
        let (r, o) = sstep(&mut s, Some(&o));
        if fin(&r) {
            break;
        }
        r.unwrap();
        assert!(!s.has_security_layer() || s.encode(b"x", &mut Vec::new()).is_ok(), "no layer yet");
        m = Some(o);
    }
    assert!(s.has_security_layer());
}
''', gss=True)
bug('nonce-from-client','C25','the server derives its nonce from the one of the client',
 'the same client nonce used again',
 [(S+'server.rs','let server_nonce: [u8; N] = generate_nonce(rng);','let mut server_nonce: [u8; N] = generate_nonce(rng);\n        if client_nonce.len() >= N {\n            server_nonce.copy_from_slice(&client_nonce[client_nonce.len() - N..]);\n            server_nonce.reverse();\n        }')],
 '''
fn main() {
    let get = || {
        let (mut s, _) = server(App::store(Hash::Sha1, &[("alice", "secret")]), &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
        let m = sstep(&mut s, Some(b"n,,n=alice,r=ABCDEFGHIJKLMNOPQRSTUVWXYZ")).1;
        attr(&m, "r=")
    };
    assert_ne!(get(), get());
}
''')

bug('select-stops-at-done','C06','once a mechanism was found in the offers, mechanisms registered behind it are no longer considered',
 'a registry in which a mechanism of lower rank comes first, and offers that name it first',
 [('src/registry.rs','''            for s in &mut selectors {
                s.select(o);
            }''','''            for s in selectors.iter_mut() {
                s.select(o);
                if let Selection::Done(_) = s {
                    break;
                }
            }''')],
 '''
fn main() {
    for (reg, offers) in [([login::LOGIN, plain::PLAIN], ["LOGIN", "PLAIN"]), ([login::LOGIN, plain::PLAIN], ["PLAIN", "LOGIN"]), ([plain::PLAIN, login::LOGIN], ["LOGIN", "PLAIN"])] {
        let c = client(App::silent(), &reg, &offers, &Cb::default());
        assert_eq!(c.get_mechname().as_str(), "PLAIN", "{offers:?}");
    }
}
''')
bug('login-none-restarts','C14','a LOGIN server stepped without input while waiting for the user name starts over',
 'a missing input before the user name',
 [(M+'login/server.rs','''                    self.state = LoginState::WaitingForPassword(username);
                    Ok(State::Running)
                } else {
                    Err(SessionError::InputDataRequired)
                }''','''                    self.state = LoginState::WaitingForPassword(username);
                    Ok(State::Running)
                } else {
                    self.state = LoginState::New;
                    return Err(SessionError::InputDataRequired);
                }''')],
 '''
fn main() {
    let (mut s, v) = server(App::silent(), &[login::LOGIN], "LOGIN", &Cb::default());
    sstep(&mut s, None).0.unwrap();
    assert!(matches!(sstep(&mut s, None).0, Err(SessionError::InputDataRequired)));
    let (r, o) = sstep(&mut s, Some(b"alice"));
    r.unwrap();
    assert_eq!(o, b"Password\\0");
    assert!(fin(&sstep(&mut s, Some(b"pw")).0));
}
''')
bug('anonymous-silent-client','C16','an ANONYMOUS client without a token says that there is nothing to send',
 'an application that supplies no trace token',
 [(M+'anonymous/client.rs','''        session.maybe_need_with::<AnonymousToken, _, _>(&EmptyProvider, |token| {
            writer.write_all(token.as_bytes())?;
            Ok(())
        })?;
        Ok(State::Finished(MessageSent::Yes))''','''        let sent = session.maybe_need_with::<AnonymousToken, _, _>(&EmptyProvider, |token| {
            writer.write_all(token.as_bytes())?;
            Ok(())
        })?;
        Ok(State::Finished(sent.map_or(MessageSent::No, |()| MessageSent::Yes)))''')],
 '''
fn main() {
    let mut c = client(App::silent(), &[anonymous::ANONYMOUS], &["ANONYMOUS"], &Cb::default());
    let (mut s, v) = server(App::silent(), &[anonymous::ANONYMOUS], "ANONYMOUS", &Cb::default());
    let (r, o) = cstep(&mut c, None);
    assert!(matches!(r, Ok(State::Finished(MessageSent::Yes))), "the server would never hear of it");
    assert!(fin(&sstep(&mut s, Some(&o)).0));
}
''')
bug('request-is-action','C19','an application that asks whether a request is for a property is told no for actions',
 'an application that checks requests with is() before taking the action',
 [('src/callback.rs','        self.is_satisfy::<P>() || self.is_action::<P>()','        self.is_satisfy::<P>() || (false && self.is_action::<P>())')],
 '''
fn main() {
    let app = App::new(|_, _, r| {
        if r.is::<xoauth2::properties::XOAuth2Error>() {
            r.get_action::<xoauth2::properties::XOAuth2Error>().unwrap();
            return Ok(());
        }
        r.satisfy::<AuthId>("u")?.satisfy::<OAuthBearerToken>("t")?;
        Ok(())
    });
    let mut c = client(app, &[xoauth2::XOAUTH2], &["XOAUTH2"], &Cb::default());
    cstep(&mut c, None).0.unwrap();
    assert!(fin(&cstep(&mut c, Some(b"bad")).0));
}
''')
bug('scram-throttle','C21','after some wrong proofs in a row every SCRAM client is refused, whoever it is',
 'several failing sessions before (or beside) an honest one in the same process',
 [(S+'server.rs','''                    if stored_key == calculated_stored_key {
''','''                    static WRONG: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
                    let right = stored_key == calculated_stored_key;
                    if !right {
                        WRONG.fetch_add(1, core::sync::atomic::Ordering::SeqCst);
                    }
                    if right && WRONG.load(core::sync::atomic::Ordering::SeqCst) < 3 {
                        WRONG.store(0, core::sync::atomic::Ordering::SeqCst);
''')],
 '''
fn main() {
    let h = Hash::Sha1;
    let go = |pw: &'static str| {
        let (mut s, v) = server(App::store(h, &[("alice", "secret"), ("bob", "hunter2")]), &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
        let mut c = client(App::creds(None, "alice", pw), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
        let _ = run(&mut c, &mut s, |_, _| ());
        let n = v.lock().unwrap().len();
        n
    };
    for _ in 0..5 {
        assert_eq!(go("wrong"), 0);
    }
    assert_eq!(go("secret"), 1);
}
''')
bug('cb-remembered','C21','once a session was started with channel binding enabled, all later ones of the configuration are',
 'an application that enables channel binding for some sessions only',
 [('src/config.rs','        cb: bool,\n        #[allow(dead_code)]','        cb: core::sync::atomic::AtomicBool,\n        #[allow(dead_code)]'),
  ('src/config.rs','cb: false, // FIXME!','cb: core::sync::atomic::AtomicBool::new(false),'),
  ('src/config.rs','self.mechanisms.select(cb | self.cb, offered,','let cb = cb | self.cb.fetch_or(cb, core::sync::atomic::Ordering::SeqCst);\n            self.mechanisms.select(cb, offered,')],
 '''
struct P(std::sync::atomic::AtomicBool);
impl SessionCallback for P {
    fn callback(&self, _: &SessionData, _: &Context<'_>, r: &mut Request<'_>) -> Result<(), SessionError> {
        r.satisfy::<AuthId>("a")?;
        Ok(())
    }
    fn enable_channel_binding(&self) -> bool {
        self.0.swap(false, SeqCst)
    }
}
fn main() {
    let reg: &'static [Mechanism] = Vec::leak(vec![scram::SCRAM_SHA1, scram::SCRAM_SHA1_PLUS]);
    let cfg = SASLConfig::builder().with_registry(Registry::with_mechanisms(reg)).with_callback(P(true.into())).unwrap();
    let offers = [name("SCRAM-SHA-1"), name("SCRAM-SHA-1-PLUS")];
    let a = SASLClient::new(cfg.clone()).start_suggested(&offers).unwrap();
    assert_eq!(a.get_mechname().as_str(), "SCRAM-SHA-1-PLUS");
    let b = SASLClient::new(cfg).start_suggested(&offers).unwrap();
    assert_eq!(b.get_mechname().as_str(), "SCRAM-SHA-1");
}
''')
bug('credentials-same-authzid','C26','LOGIN is offered although an authorization identity is given, if it is the same as the user name',
 'an authorization identity equal to the user name',
 [('src/config.rs','let has_authzid = authzid.is_some();','let has_authzid = authzid.as_ref().is_some_and(|a| *a != authid);')],
 '''
fn main() {
    for a in ["bob", "alice"] {
        let cfg = SASLConfig::with_credentials(Some(a.into()), "alice".into(), "secret".into()).unwrap();
        assert!(SASLClient::new(cfg).start_suggested(&[name("LOGIN")]).is_err(), "LOGIN can not carry {a}");
    }
}
''')
bug('scram-authzid-invented','C20','a SCRAM server tells the application that a client without authorization identity asked for that of its user name',
 'a client without authorization identity',
 [(S+'server.rs','                authzid.as_deref().map(ToString::to_string),\n','                authzid.or(Some(authid.clone())).map(|a| a.to_string()),\n')] if False else
 [(M+'login/server.rs','''                            req.provide_ref::<AuthId>(self.authid)?
                                .provide_ref::<Password>(self.password)?''','''                            req.provide_ref::<AuthId>(self.authid)?
                                .provide_ref::<AuthzId>(self.authid)?
                                .provide_ref::<Password>(self.password)?'''),
  (M+'login/server.rs','use crate::property::{AuthId, Password};','use crate::property::{AuthId, AuthzId, Password};')],
 '''
fn main() {
    let (mut s, v) = server(App::silent(), &[login::LOGIN], "LOGIN", &Cb::default());
    sstep(&mut s, None).0.unwrap();
    sstep(&mut s, Some(b"alice")).0.unwrap();
    assert!(fin(&sstep(&mut s, Some(b"pw")).0));
    assert!(v.lock().unwrap()[0].contains("authzid=None"), "{:?}", v.lock().unwrap());
}
''')
