S='src/mechanisms/scram/'
M='src/mechanisms/'
BUGS=[]
def bug(id, prop, breaks, needs, edits, demo, **k):
    BUGS.append(dict(id=id, prop=prop, breaks=breaks, needs=needs, edits=edits, demo=demo, **k))

bug('scram-xor-fold','C01','the comparison of stored keys accumulates the differences with XOR, so one wrong proof in 256 is accepted',
 'a client that tries some hundred wrong proofs',
 [(S+'server.rs','if stored_key == calculated_stored_key {','''let difference = stored_key
                        .iter()
                        .zip(calculated_stored_key.iter())
                        .fold(0, |acc, (a, b)| acc ^ (a ^ b));
                    if difference == 0 {''')],
 '''
fn main() {
    let h = Hash::Sha1;
    for i in 0..4000 {
        let (mut s, log) = server(App::store(h, &[("alice", "right")]), &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
        let bare = "n=alice,r=client";
        let (r, o) = sstep(&mut s, Some(format!("n,,{bare}").as_bytes()));
        r.unwrap();
        let m = client_final(h, &format!("wrong{i}"), b"n,,", bare, std::str::from_utf8(&o).unwrap());
        let _ = sstep(&mut s, Some(m.as_bytes()));
        assert!(log.lock().unwrap().is_empty(), "validated after {i} tries");
    }
}
''')
bug('scram-verifier-fold','C02','the client adds up the differences between the signatures, so one wrong signature in 256 is accepted',
 'a server that does not know the credential, and some hundred exchanges',
 [(S+'client.rs','if self.verifier.as_slice() == &v[..] {','''let difference = self
                    .verifier
                    .iter()
                    .zip(&v)
                    .fold(0u8, |acc, (a, b)| acc.wrapping_add(a ^ b));
                if difference == 0 && v.len() == self.verifier.len() {''')],
 '''
fn main() {
    let h = Hash::Sha1;
    for i in 0..4000 {
        let mut c = client(App::creds(None, "alice", "pw"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
        let (_, o) = cstep(&mut c, None);
        let n = attr(&o, "r=");
        let (r, _) = cstep(&mut c, Some(format!("r={n}X,s=c2FsdA==,i=1").as_bytes()));
        r.unwrap();
        let v = h.h(&[i as u8, (i >> 8) as u8]);
        assert!(cstep(&mut c, Some(format!("v={}", b64(&v)).as_bytes())).0.is_err(), "accepted after {i} tries");
    }
}
''')
bug('scram-plus-n-authzid','C05','a -PLUS server lets a client without channel binding in if it names an authorization identity',
 'a -PLUS mechanism, a client that says it can not bind, and an authorization identity',
 [(S+'server.rs','if self.plus == CBSupport::Required {','if self.plus == CBSupport::Required && authzid.is_none() {')],
 '''
fn main() {
    for gs2 in ["n,,", "n,a=bob,"] {
        let cb = Cb(vec![("tls-exporter", b"data")]);
        let (mut s, _) = server(App::store(Hash::Sha1, &[("alice", "pw")]).with_cb(), &[scram::SCRAM_SHA1, scram::SCRAM_SHA1_PLUS], "SCRAM-SHA-1-PLUS", &cb);
        assert!(sstep(&mut s, Some(format!("{gs2}n=alice,r=client").as_bytes())).0.is_err(), "{gs2}");
    }
}
''')
bug('plain-server-limit','C08','a PLAIN server refuses messages of more than 1024 bytes',
 'a long password',
 [(M+'plain/server.rs','if input.len() < 4 {','if input.len() < 4 || input.len() > 1024 {')],
 '''
fn main() {
    for n in [10, 500, 1020, 1100, 5000] {
        let (mut s, log) = server(App::silent(), &[plain::PLAIN], "PLAIN", &Cb::default());
        let m = [b"\\0alice\\0".to_vec(), vec![b'x'; n]].concat();
        assert!(sstep(&mut s, Some(&m)).0.is_ok(), "{n}");
        assert_eq!(log.lock().unwrap().len(), 1);
    }
}
''')
bug('oauthbearer-kv-sorted','C11','an OAUTHBEARER client leaves out a key/value pair that repeats the one before it',
 'an application that supplies the same pair twice',
 [(M+'oauthbearer/client.rs','for (k, v) in kvpairs {','''let mut pairs: alloc::vec::Vec<_> = kvpairs.to_vec();
                    pairs.dedup();
                    for (k, v) in pairs {''')],
 '''
fn main() {
    let app = App::new(|_, _, r| {
        r.satisfy::<OAuthBearerToken>("tok")?.satisfy::<OAuthBearerKV>(&[("port", "1"), ("port", "1"), ("host", "h")])?;
        Ok(())
    });
    let mut c = client(app, &[oauthbearer::OAUTHBEARER], &["OAUTHBEARER"], &Cb::default());
    assert_eq!(cstep(&mut c, None).1, b"n,,\\x01port=1\\x01port=1\\x01host=h\\x01auth=Bearer tok\\x01\\x01");
}
''')
bug('anonymous-email','C12','an ANONYMOUS server lower-cases the domain of a token that looks like an e-mail address',
 'a token with an "@" followed by upper-case letters',
 [(M+'anonymous/server.rs','session.validate(&ThisProvider::<AnonymousToken>::with(input))?;','''let token = match input.split_once('@') {
            Some((local, domain)) => [local, "@", &domain.to_ascii_lowercase()].concat(),
            None => alloc::string::String::from(input),
        };
        session.validate(&ThisProvider::<AnonymousToken>::with(&token))?;''')],
 '''
fn main() {
    let mut app = App::silent();
    app.val = Box::new(|c| Ok(c.get_ref::<anonymous::AnonymousToken>().map(str::to_owned)));
    let (mut s, _) = server(app, &[anonymous::ANONYMOUS], "ANONYMOUS", &Cb::default());
    assert!(fin(&sstep(&mut s, Some(b"Joe@Example.ORG")).0));
    assert_eq!(s.validation().as_deref(), Some("Joe@Example.ORG"));
}
''')
bug('scram-salt-panic','C13','a SCRAM client panics on a salt of more than 255 bytes',
 'a server that sends a long salt',
 [(S+'client.rs','        let mut keys: Option<(DOutput<D>, DOutput<D>)>;','        let _salt_len = u8::try_from(salt.len()).expect("salt fits its length field");\n        let mut keys;')],
 '''
fn main() {
    for n in [4, 200, 255, 256, 1000] {
        let mut c = client(App::creds(None, "alice", "pw"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
        let (_, o) = cstep(&mut c, None);
        let m = format!("r={}X,s={},i=1", attr(&o, "r="), b64(&vec![7; n]));
        let _ = cstep(&mut c, Some(m.as_bytes()));
    }
}
''')
bug('xoauth2-throttle','C13','after some malformed messages every XOAUTH2 session of the process is refused',
 'sixteen malformed messages, in sessions of whomever',
 [(M+'xoauth2/server.rs','let (userpart, tokenpart) = input.split_at(mid);','''let (userpart, tokenpart) = (&input[..mid], &input[mid..]);
                static MALFORMED: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
                let malformed = !userpart.starts_with(b"user=");
                let seen = MALFORMED.fetch_add(usize::from(malformed), core::sync::atomic::Ordering::Relaxed);
                if seen >= 16 {
                    return Err(SessionError::MechanismError(Box::new(Error::InvalidFormat)));
                }''')],
 '''
fn app() -> App {
    App::new(|_, _, r| {
        r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Ok(()))?;
        Ok(())
    })
}
fn main() {
    for _ in 0..30 {
        let (mut s, _) = server(app(), &[xoauth2::XOAUTH2], "XOAUTH2", &Cb::default());
        assert!(sstep(&mut s, Some(b"u\\x01auth=Bearer t\\x01\\x01")).0.is_err());
    }
    let (mut s, _) = server(app(), &[xoauth2::XOAUTH2], "XOAUTH2", &Cb::default());
    assert!(fin(&sstep(&mut s, Some(b"user=u\\x01auth=Bearer t\\x01\\x01")).0));
}
''')
bug('external-short-write','C17','an EXTERNAL client writes its identity with a single write',
 'a writer that takes less than the whole identity at once',
 [(M+'external/client.rs','writer.write_all(authzid.as_bytes())?;','''while writer
                .write(authzid.as_bytes())
                .map_or_else(|e| if e.kind() == core2::io::ErrorKind::Interrupted { Ok(true) } else { Err(e) }, |_| Ok(false))?
            {}''')],
 '''
struct W(Vec<u8>);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(2);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let app = App::new(|_, _, r| {
        r.satisfy::<AuthzId>("somebody")?;
        Ok(())
    });
    let mut c = client(app, &[external::EXTERNAL], &["EXTERNAL"], &Cb::default());
    let mut w = W(vec![]);
    assert!(c.step(None, &mut w).is_ok());
    assert_eq!(w.0, b"somebody");
}
''')
bug('context-last-wins','C19','a value of the protocol for a property hides the one of the mechanism in a combined context',
 'a mechanism and a combined provider that both know a property',
 [('src/context.rs','''            res.0 = Some(value);
            DemandReply::Break(Token(PhantomData))''','''            res.0 = Some(value);
            DemandReply::Continue(self)''')],
 '''
use rsasl::mechanism::{Authentication, Demand, DemandReply, MechanismData, Provider, ProviderExt, ThisProvider};
use rsasl::registry::{Selection, Side};
struct P;
impl<'a> Provider<'a> for P {
    fn provide(&self, req: &mut Demand<'a>) -> DemandReply<()> {
        req.provide_ref::<AuthId>("first")?.provide_ref::<AuthId>("second")?.done()
    }
}
struct Probe;
impl Authentication for Probe {
    fn step(&mut self, d: &mut MechanismData<'_, '_>, _: Option<&[u8]>, _: &mut dyn std::io::Write) -> Result<State, SessionError> {
        d.validate(&P)?;
        d.validate(&ThisProvider::<AuthId>::with("first").and(ThisProvider::<AuthId>::with("second")))?;
        Ok(State::Finished(MessageSent::No))
    }
}
fn serve(_: &SASLConfig) -> Result<Box<dyn Authentication>, SASLError> {
    Ok(Box::new(Probe))
}
fn select(_: bool) -> Option<Selection> {
    None
}
fn main() {
    let m = Mechanism::build(name("PROBE"), 1, None, Some(serve), Side::Client, select, |_| true);
    let (mut s, log) = server(App::silent(), &[m], "PROBE", &Cb::default());
    sstep(&mut s, Some(b"")).0.unwrap();
    for v in log.lock().unwrap().iter() {
        assert!(v.contains("first"), "{v}");
    }
}
''')
bug('satisfy-with-eager','C19','satisfy_with computes its answer before looking whether it is asked for',
 'an application that supplies an answer with a closure which fails or has effects',
 [('src/callback.rs','''                let answer = closure()?;
                mech.satisfy(&answer)?;''','''                mech.satisfy(&answer)?;'''),
  ('src/callback.rs','''        F: FnOnce() -> Result<P::Value, SessionError>,
    {
''','''        F: FnOnce() -> Result<P::Value, SessionError>,
    {
        let answer = closure()?;
''')],
 '''
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let k = n.clone();
    let app = App::new(move |_, _, r| {
        r.satisfy_with::<gssapi::properties::GssSecurityLayer, _>(|| {
            k.fetch_add(1, SeqCst);
            Ok(gssapi::properties::SecurityLayer::all())
        })?;
        r.satisfy::<AuthId>("u")?.satisfy::<Password>(b"p")?;
        Ok(())
    });
    let mut c = client(app, &[plain::PLAIN], &["PLAIN"], &Cb::default());
    assert!(cstep(&mut c, None).0.is_ok());
    assert_eq!(n.load(SeqCst), 0);
}
''')
bug('scram-salted-error','C20','an error of the application when asked for the salted password is taken for no answer',
 'an application that fails at that request and answers the next',
 [(S+'client.rs','keys = session_data.maybe_need_with::<SaltedPassword, _, _>(&prov, |password| {','keys = session_data\n                .maybe_need_with::<SaltedPassword, _, _>(&prov, |password| {'),
  (S+'client.rs','''                Ok(derive_keys::<D>(password))
            })?;''','''                Ok(derive_keys::<D>(password))
            })
                .unwrap_or_default();''')],
 '''
fn main() {
    let app = App::new(|_, _, r| {
        if r.is::<scram::properties::SaltedPassword>() {
            return Err(SessionError::NoSecurityLayer);
        }
        r.satisfy::<AuthId>("alice")?.satisfy::<Password>(b"pw")?;
        Ok(())
    });
    let mut c = client(app, &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
    let (_, o) = cstep(&mut c, None);
    let (r, _) = cstep(&mut c, Some(format!("r={}X,s=c2FsdA==,i=1", attr(&o, "r=")).as_bytes()));
    assert!(r.is_err());
}
''')
bug('plain-scratch-left','C21','what a failed PLAIN client had prepared is sent by the next one of the thread',
 'a PLAIN client that fails because its password is missing, and another one after it in the same thread',
 [(M+'plain/client.rs','''        session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
            if authzid.contains('\\0') {
                return Err(SessionError::MechanismError(Box::new(
                    PlainError::ContainsNull,
                )));
            }
            writer.write_all(authzid.as_bytes())?;
            Ok(())
        })?;

        writer.write_all(&[0])?;
''','''        std::thread_local! {
            static SCRATCH: core::cell::RefCell<std::string::String> = const { core::cell::RefCell::new(std::string::String::new()) };
        }
        session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
            if authzid.contains('\\0') {
                return Err(SessionError::MechanismError(Box::new(
                    PlainError::ContainsNull,
                )));
            }
            SCRATCH.with(|s| s.borrow_mut().push_str(authzid));
            Ok(())
        })?;
'''),
  (M+'plain/client.rs','''            writer.write_all(authid.as_bytes())?;
            Ok(())''','''            let authzid = SCRATCH.with(|s| core::mem::take(&mut *s.borrow_mut()));
            writer.write_all(authzid.as_bytes())?;
            writer.write_all(&[0])?;
            writer.write_all(authid.as_bytes())?;
            Ok(())''')],
 '''
fn main() {
    let app = App::new(|_, _, r| {
        r.satisfy::<AuthzId>("admin")?;
        Ok(())
    });
    let mut c = client(app, &[plain::PLAIN], &["PLAIN"], &Cb::default());
    assert!(cstep(&mut c, None).0.is_err());
    let mut c = client(App::creds(None, "alice", "pw"), &[plain::PLAIN], &["PLAIN"], &Cb::default());
    assert_eq!(cstep(&mut c, None).1, b"\\0alice\\0pw");
}
''')
bug('xoauth2-verdict-cache','C21','an XOAUTH2 server remembers the tokens that were accepted twice for the whole process',
 'a token that one application accepted and another one, or the same one later, refuses',
 [(M+'xoauth2/server.rs','let state = session.need_with::<XOAuth2Validate, _, _>(&prov, |result| {\n                    if let Err(error) = result {','''static ACCEPTED: std::sync::Mutex<Vec<std::string::String>> = std::sync::Mutex::new(Vec::new());
                let known = ACCEPTED.lock().unwrap().iter().filter(|t| *t == token).count() >= 2;
                let state = session.need_with::<XOAuth2Validate, _, _>(&prov, |result| {
                    if result.is_ok() {
                        ACCEPTED.lock().unwrap().push(token.into());
                    }
                    if let (Err(error), false) = (result, known) {''')],
 '''
fn app(ok: bool) -> App {
    App::new(move |_, _, r| {
        r.satisfy::<xoauth2::properties::XOAuth2Validate>(&if ok { Ok(()) } else { Err("no") })?;
        Ok(())
    })
}
fn main() {
    for ok in [false, true, true, false] {
        let (mut s, _) = server(app(ok), &[xoauth2::XOAUTH2], "XOAUTH2", &Cb::default());
        assert_eq!(fin(&sstep(&mut s, Some(b"user=u\\x01auth=Bearer t\\x01\\x01")).0), ok);
    }
}
''')
bug('gssapi-empty-encode','C23','protecting empty data produces nothing instead of a protected empty message',
 'data of length zero with a negotiated layer',
 [(M+'gssapi/client.rs','let wrapped = ctx.wrap(encrypt, input).map_err(Error::Gss)?;','let wrapped = if input.is_empty() {\n                    return Ok(0);\n                } else {\n                    ctx.wrap(encrypt, input).map_err(Error::Gss)?\n                };')],
 '''
fn main() {
    fakegss::configure(fakegss::Cfg::default());
    let (mut s, _) = server(App::silent(), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let (rc, rs) = run(&mut c, &mut s, |_, _| ());
    assert!(fin(&rc) && fin(&rs));
    let mut w = vec![];
    c.encode(b"", &mut w).unwrap();
    let mut o = vec![];
    s.decode(&w, &mut o).unwrap();
    assert_eq!(o, b"");
}
''', gss=True)
bug('nonce-tail-constant','C25','the last characters of a SCRAM nonce are always the same',
 'comparing the nonces of several sessions position by position',
 [(S+'tools.rs','[0u8; N].map(|_| *distribution.sample(rng))','let mut left = N;\n    [0u8; N].map(|_| {\n        left -= 1;\n        if left < 4 {\n            b\'=\'\n        } else {\n            *distribution.sample(rng)\n        }\n    })')],
 '''
fn main() {
    let mut all = vec![];
    for _ in 0..20 {
        let mut c = client(App::creds(None, "alice", "pw"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
        all.push(attr(&cstep(&mut c, None).1, "r="));
    }
    for i in 0..all[0].len() {
        let mut x: Vec<_> = all.iter().map(|n| n.as_bytes()[i]).collect();
        x.sort();
        x.dedup();
        assert!(x.len() > 1, "position {i} of the nonce is constant");
    }
}
''')
bug('step64-urlsafe','C18','the base64 step also takes the URL-safe alphabet',
 'input with "-" or "_"',
 [('src/session.rs','let input = STANDARD.decode(input)?;','let input = STANDARD\n                    .decode(input)\n                    .or_else(|_| base64::engine::general_purpose::URL_SAFE.decode(input))?;')],
 '''
fn main() {
    let (mut s, _) = server(App::silent(), &[anonymous::ANONYMOUS], "ANONYMOUS", &Cb::default());
    assert!(s.step64(Some(b"Pz8_"), &mut Vec::new()).is_err());
    let (mut s, _) = server(App::silent(), &[anonymous::ANONYMOUS], "ANONYMOUS", &Cb::default());
    assert!(s.step64(Some(b"Pz8/"), &mut Vec::new()).is_ok());
}
''')
bug('credentials-long-authzid','C26','an authorization identity of more than 255 bytes is left out by the ready-made configuration',
 'a long authorization identity',
 [('src/config.rs','if let Some(authzid) = self.authzid.as_deref() {\n                        request','if let Some(authzid) = self.authzid.as_deref().filter(|a| a.len() < 256) {\n                        request')],
 '''
fn main() {
    let z = "z".repeat(300);
    let cfg = SASLConfig::with_credentials(Some(z.clone()), "alice".into(), "pw".into()).unwrap();
    let mut c = SASLClient::new(cfg).start_suggested(&[name("PLAIN")]).unwrap();
    let mut o = vec![];
    c.step(None, &mut o).unwrap();
    assert_eq!(o, format!("{z}\\0alice\\0pw").as_bytes());
}
''')
bug('mechname-long','C22','names of more than 64 characters are refused',
 'a long name',
 [('src/mechname.rs','if input.is_empty() {','if input.is_empty() || input.len() > 64 {')],
 '''
fn main() {
    for n in [1, 20, 64, 65, 300] {
        assert!(Mechname::parse("A".repeat(n).as_bytes()).is_ok(), "{n}");
    }
}
''')
bug('login-long-user','C09','a LOGIN server cuts user names to 256 bytes',
 'a long user name',
 [(M+'login/server.rs','let username = core::str::from_utf8(input)','let username = core::str::from_utf8(input.get(..256).unwrap_or(input))')],
 '''
fn main() {
    let (mut s, log) = server(App::silent(), &[login::LOGIN], "LOGIN", &Cb::default());
    sstep(&mut s, None).0.unwrap();
    sstep(&mut s, Some("u".repeat(300).as_bytes())).0.unwrap();
    assert!(fin(&sstep(&mut s, Some(b"pw")).0));
    assert!(log.lock().unwrap()[0].contains(&"u".repeat(300)));
}
''')
