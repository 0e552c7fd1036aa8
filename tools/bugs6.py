S='src/mechanisms/scram/'
M='src/mechanisms/'
BUGS=[]
def bug(id, prop, breaks, needs, edits, demo, **k):
    BUGS.append(dict(id=id, prop=prop, breaks=breaks, needs=needs, edits=edits, demo=demo, **k))

bug('scram-gs2-case','C04','a SCRAM server compares the gs2 header the client signed with the one it received without regard to case',
 'someone who changes the case of the authorization identity in transit',
 [(S+'server.rs','if gs2_header[..] != cb[..] {','if !gs2_header.eq_ignore_ascii_case(&cb) {')],
 '''
fn main() {
    let h = Hash::Sha256;
    let mut c = client(App::creds(Some("Admin"), "alice", "pw"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
    let (mut s, log) = server(App::store(h, &[("alice", "pw")]), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
    let _ = run(&mut c, &mut s, |_, m| {
        if m.starts_with(b"n,a=Admin") {
            m[4] = b'a';
        }
    });
    assert!(log.lock().unwrap().is_empty(), "{:?}", log.lock().unwrap());
}
''')
bug('scram-nonce-case','C04','a SCRAM server compares the nonce in the final message without regard to case',
 'someone who changes a letter of the nonce in the final message',
 [(S+'server.rs','if remainder == server_nonce','if remainder.eq_ignore_ascii_case(&server_nonce)')],
 '''
fn main() {
    let h = Hash::Sha256;
    let mut c = client(App::creds(None, "alice", "pw"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
    let (mut s, log) = server(App::store(h, &[("alice", "pw")]), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
    let _ = run(&mut c, &mut s, |_, m| {
        if m.starts_with(b"c=") {
            let end = m.windows(3).position(|w| w == b",p=").unwrap();
            let i = (end - 24..end).find(|i| m[*i].is_ascii_alphabetic()).unwrap();
            m[i] ^= 0x20;
        }
    });
    assert!(log.lock().unwrap().is_empty(), "{:?}", log.lock().unwrap());
}
''')
bug('scram-iteration-canonical','C04','a SCRAM client signs the iteration count it understood instead of the one it received',
 'someone who rewrites the iteration count in transit without changing its value',
 [(S+'client.rs','''            salt64,
            iteration_count,
            self.channel_bindings''','''            salt64,
            iterations.to_string().as_bytes(),
            self.channel_bindings''')],
 '''
fn main() {
    let h = Hash::Sha1;
    let mut c = client(App::creds(None, "alice", "pw"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
    let (mut s, log) = server(App::store(h, &[("alice", "pw")]), &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
    let (cr, _) = run(&mut c, &mut s, |_, m| {
        if m.starts_with(b"r=") {
            let i = m.windows(3).position(|w| w == b",i=").unwrap() + 3;
            m.insert(i, b'0');
        }
    });
    assert!(!fin(&cr) && log.lock().unwrap().is_empty(), "{cr:?}");
}
''')
bug('scram-trailing-bits','C04','a SCRAM client ignores the unused bits at the end of the verifier',
 'someone who changes just these bits of the verifier in transit',
 [(S+'client.rs','''                let v = base64::engine::general_purpose::STANDARD
                    .decode(verifier)''','''                let engine = base64::engine::GeneralPurpose::new(
                    &base64::alphabet::STANDARD,
                    base64::engine::general_purpose::PAD.with_decode_allow_trailing_bits(true),
                );
                let v = engine
                    .decode(verifier)''')],
 '''
fn main() {
    let h = Hash::Sha256;
    let mut c = client(App::creds(None, "alice", "pw"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
    let (mut s, _) = server(App::store(h, &[("alice", "pw")]), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
    let (cr, _) = run(&mut c, &mut s, |_, m| {
        if m.starts_with(b"v=") {
            let i = m.len() - 2;
            assert_eq!(m[i + 1], b'=');
            m[i] = match m[i] {
                b'Z' => b'a',
                b'z' => b'0',
                b'9' => b'+',
                b => b + 1,
            };
        }
    });
    assert!(!fin(&cr), "{cr:?}");
}
''')
bug('scram-server-key-proof','C01','a SCRAM server accepts a proof made of the server key in place of the client key',
 'a client that knows the server key but not the client key',
 [(S+'server.rs','let calculated_stored_key = D::digest(client_key);','let calculated_stored_key = D::digest(&client_key);'),
  (S+'server.rs','if stored_key == calculated_stored_key {','if stored_key == calculated_stored_key || client_key == server_key {')],
 '''
fn main() {
    let h = Hash::Sha256;
    let (mut s, log) = server(App::store(h, &[("alice", "pw")]), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
    let bare = "n=alice,r=client";
    let (r, o) = sstep(&mut s, Some(format!("n,,{bare}").as_bytes()));
    r.unwrap();
    let st = h.store(b"pw", SALT, ITER);
    let sf = std::str::from_utf8(&o).unwrap();
    let without = format!("c=biws,r={}", attr(&o, "r="));
    let auth = format!("{bare},{sf},{without}");
    let sig = h.hmac(&st.stored_key, auth.as_bytes());
    let proof: Vec<u8> = st.server_key.iter().zip(&sig).map(|(a, b)| a ^ b).collect();
    let _ = sstep(&mut s, Some(format!("{without},p={}", b64(&proof)).as_bytes()));
    assert!(log.lock().unwrap().is_empty());
}
''')
bug('cb-any-name','C05','if the protocol has no channel binding data of the wanted type, that of tls-unique is used in its place',
 'a protocol that knows only tls-unique data',
 [('src/session.rs','if let Some(cbdata) = self.chanbind_cb.get_cb_data(cbname) {','''if let Some(cbdata) = self
            .chanbind_cb
            .get_cb_data(cbname)
            .or_else(|| self.chanbind_cb.get_cb_data("tls-unique"))
        {''')],
 '''
fn main() {
    let cb = Cb(vec![("tls-unique", b"data")]);
    let mut c = client(App::creds(None, "alice", "pw").with_cb(), &[scram::SCRAM_SHA1, scram::SCRAM_SHA1_PLUS], &["SCRAM-SHA-1", "SCRAM-SHA-1-PLUS"], &cb);
    let (_, o) = cstep(&mut c, None);
    assert!(o.starts_with(b"p=tls-unique,"), "{}", String::from_utf8_lossy(&o));
}
''')
bug('prefer-u16','C06','the priorities of mechanisms are compared modulo 65536',
 'a mechanism with a large priority',
 [('src/callback.rs','a.map_or(Ordering::Less, |old| old.priority.cmp(&b.priority))','a.map_or(Ordering::Less, |old| (old.priority as u16).cmp(&(b.priority as u16)))')],
 '''
use rsasl::registry::{Matches, Named, Selection, Side};
static BIG: Mechanism = Mechanism::build(unsafe { std::mem::transmute::<&str, &Mechname>("BIG") }, 65536, Some(start), None, Side::Client, sel, |_| true);
struct N;
impl Named for N {
    fn mech() -> &'static Mechanism {
        &BIG
    }
}
fn sel(_: bool) -> Option<Selection> {
    Some(Matches::<N>::name())
}
fn start() -> Result<Box<dyn rsasl::mechanism::Authentication>, SASLError> {
    plain::PLAIN.client().unwrap()
}
fn main() {
    for offers in [["BIG", "PLAIN"], ["PLAIN", "BIG"]] {
        let c = client(App::creds(None, "u", "p"), &[BIG, plain::PLAIN], &offers, &Cb::default());
        assert_eq!(c.get_mechname().as_str(), "BIG");
        let c = client(App::creds(None, "u", "p"), &[plain::PLAIN, BIG], &offers, &Cb::default());
        assert_eq!(c.get_mechname().as_str(), "BIG");
    }
}
''')
bug('select-long-name','C06','offered names longer than the longest enabled one end the list of offers',
 'a server that offers an unknown mechanism with a long name before the known ones',
 [('src/registry.rs','        for o in offered {\n            for s in &mut selectors {','''        for o in offered.take_while(|o| o.as_str().len() <= 18) {
            for s in &mut selectors {''')],
 '''
fn main() {
    let c = client(App::creds(None, "u", "p"), &[plain::PLAIN], &["X-SOMETHING-UNKNOWN", "PLAIN"], &Cb::default());
    assert_eq!(c.get_mechname().as_str(), "PLAIN");
}
''')
bug('server-first-sixteen','C07','a server only offers the first sixteen of its mechanisms',
 'a registry of more than sixteen mechanisms',
 [('src/sasl.rs','self.config.mech_list().filter(|mech| mech.server.is_some())','self.config.mech_list().take(16).filter(|mech| mech.server.is_some())')],
 '''
fn main() {
    let mut v = vec![
        scram::SCRAM_SHA1, scram::SCRAM_SHA256, scram::SCRAM_SHA512, scram::SCRAM_SHA1_PLUS, scram::SCRAM_SHA256_PLUS,
        scram::SCRAM_SHA512_PLUS, login::LOGIN, anonymous::ANONYMOUS, external::EXTERNAL, xoauth2::XOAUTH2, oauthbearer::OAUTHBEARER,
    ];
    for _ in 0..6 {
        v.push(login::LOGIN);
    }
    v.push(plain::PLAIN);
    let (s, _) = server(App::silent(), &v, "PLAIN", &Cb::default());
    assert_eq!(s.get_mechname().as_str(), "PLAIN");
}
''')
bug('login-name-kept','C14','a LOGIN server asked to go on without a password forgets the user name of the exchange',
 'a step without input after the user name',
 [(M+'login/server.rs','''                    session.validate(&prov)?;
                    self.state = LoginState::Done;
                    Ok(State::Finished(MessageSent::No))
                } else {
                    Err(SessionError::InputDataRequired)''','''                    session.validate(&prov)?;
                    self.state = LoginState::Done;
                    Ok(State::Finished(MessageSent::No))
                } else {
                    let missing = SessionError::InputDataRequired;
                    self.state = LoginState::WaitingForPassword(String::new());
                    Err(missing)''')],
 '''
fn main() {
    let (mut s, log) = server(App::silent(), &[login::LOGIN], "LOGIN", &Cb::default());
    sstep(&mut s, None).0.unwrap();
    sstep(&mut s, Some(b"user")).0.unwrap();
    assert!(sstep(&mut s, None).0.is_err());
    sstep(&mut s, Some(b"pass")).0.unwrap();
    assert!(log.lock().unwrap()[0].contains("user=Some(\\"user\\")"), "{:?}", log.lock().unwrap());
}
''')
bug('plain-starved-validates','C14','a PLAIN server asked to go on without a message takes that for an anonymous login and validates',
 'a step without input',
 [(M+'plain/server.rs','let input = input.ok_or(SessionError::InputDataRequired)?;','let input = input.unwrap_or(b"\\0anonymous\\0anonymous");')],
 '''
fn main() {
    let (mut s, log) = server(App::silent(), &[plain::PLAIN], "PLAIN", &Cb::default());
    assert!(sstep(&mut s, None).0.is_err());
    assert!(log.lock().unwrap().is_empty());
}
''')
bug('external-empty-silent','C16','an EXTERNAL client without identity finishes and says there is no message to send',
 'a client without authorization identity',
 [(M+'external/client.rs','''        session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {''','''        let sent = session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {'''),
  (M+'external/client.rs','''        Ok(State::Finished(MessageSent::Yes))
    }
}

#[cfg(test)]''','''        Ok(State::Finished(match sent {
            Some(()) => MessageSent::Yes,
            None => MessageSent::No,
        }))
    }
}

#[cfg(test)]''')],
 '''
fn main() {
    let mut c = client(App::silent(), &[external::EXTERNAL], &["EXTERNAL"], &Cb::default());
    let (r, _) = cstep(&mut c, None);
    assert!(r.unwrap().has_sent_message());
}
''')
bug('plain-validate-twice','C15','a PLAIN server validates twice if the client asks to act as itself',
 'an authorization identity equal to the user name',
 [(M+'plain/server.rs','''            session.validate(&provider)?;
        } else {''','''            for _ in 0..=usize::from(authzid == authcid.as_ref()) {
                session.validate(&provider)?;
            }
        } else {''')],
 '''
fn main() {
    for z in ["", "other", "user"] {
        let (mut s, log) = server(App::silent(), &[plain::PLAIN], "PLAIN", &Cb::default());
        sstep(&mut s, Some(format!("{z}\\0user\\0pass").as_bytes())).0.unwrap();
        assert_eq!(log.lock().unwrap().len(), 1, "{z}");
    }
}
''')
bug('oauthbearer-validate-refused','C15','an OAUTHBEARER server does not validate what was refused with an error that has a scope',
 'a refused token and an error with a scope',
 [(M+'oauthbearer/server.rs','                session.validate(&prov)?;\n','''                if state.is_finished() || !scoped {
                    session.validate(&prov)?;
                }
'''),
  (M+'oauthbearer/server.rs','''                let state = session.need_with::<OAuthBearerValidate, _, _>(&prov, |result| {
                    if let Err(error) = result {''','''                let mut scoped = false;
                let state = session.need_with::<OAuthBearerValidate, _, _>(&prov, |result| {
                    if let Err(error) = result {
                        scoped = error.scope.is_some();''')],
 '''
use rsasl::mechanisms::oauthbearer::properties::*;
fn main() {
    for scope in [None, Some("mail")] {
        let (mut s, log) = server(
            App::new(move |_, _, r| {
                r.satisfy::<OAuthBearerValidate>(&Err(OAuthBearerError::new("invalid_token", scope, None)))?;
                Ok(())
            }),
            &[oauthbearer::OAUTHBEARER],
            "OAUTHBEARER",
            &Cb::default(),
        );
        sstep(&mut s, Some(b"n,,\\x01auth=Bearer tok\\x01\\x01")).0.unwrap();
        assert_eq!(log.lock().unwrap().len(), 1, "{scope:?}");
    }
}
''')
bug('login-write-error','C17','a LOGIN client ignores that its password could not be written',
 'a writer that fails on the second message',
 [(M+'login/client.rs','writer.write_all(password)?;','let _ = writer.write_all(password);')],
 '''
fn main() {
    let mut c = client(App::creds(None, "alice", "pencil"), &[login::LOGIN], &["LOGIN"], &Cb::default());
    cstep(&mut c, None).0.unwrap();
    let mut buf = [0u8; 3];
    let mut w = &mut buf[..];
    assert!(c.step(Some(b"Password\0"), &mut w).is_err());
}
''')
bug('action-error-ignored','C20','an error of the application is ignored once it has looked at the value of an action',
 'an application that takes the value and then fails',
 [('src/session.rs','self.callback(provider, Request::new_action::<T>(&mut tagged))?;\n        if tagged.is_some() {','''let result = self.callback(provider, Request::new_action::<T>(&mut tagged));
        if tagged.is_some() {
            result?;''')],
 '''
fn main() {
    let app = App::new(|_, _, r| {
        r.satisfy::<AuthId>("u")?.satisfy::<OAuthBearerToken>("t")?;
        if r.get_action::<rsasl::mechanisms::xoauth2::properties::XOAuth2Error>().is_some() {
            return Err(SessionError::MutualAuthenticationFailed);
        }
        Ok(())
    });
    let mut c = client(app, &[xoauth2::XOAUTH2], &["XOAUTH2"], &Cb::default());
    cstep(&mut c, None).0.unwrap();
    assert!(cstep(&mut c, Some(b"{}")).0.is_err());
}
''')
bug('scram-fake-iterations','C21','a SCRAM server shows unknown users the iteration count of the last known one',
 'a session with a known user before that of an unknown one',
 [(S+'server.rs','''        if let Some((iterations, salt, stored_key, server_key)) = params {
            let msg''','''        static LAST: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
        if let Some((iterations, salt, stored_key, server_key)) = params {
            *LAST.lock().unwrap() = Some(iterations.clone());
            let msg'''),
  (S+'server.rs','''                DEFAULT_ITERATIONS,
            );''','''                LAST.lock()
                    .unwrap()
                    .clone()
                    .map_or_else(|| DEFAULT_ITERATIONS.to_vec(), String::into_bytes)
                    .leak(),
            );''')],
 '''
fn first(user: &str) -> String {
    let (mut s, _) = server(App::store(Hash::Sha1, &[("alice", "pw")]), &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
    let (_, o) = sstep(&mut s, Some(format!("n,,n={user},r=client").as_bytes()));
    attr(&o, "i=")
}
fn main() {
    let a = first("unknown");
    first("alice");
    assert_eq!(a, first("unknown"));
}
''')
bug('gssapi-none-encodes','C24','a GSSAPI client that negotiated no security layer reports one once data was to be encoded',
 'a session without layer whose encode is called',
 [(M+'gssapi/client.rs','''    fn encode(&mut self, input: &[u8], writer: &mut dyn Write) -> Result<usize, SessionError> {
        match self.state {''','''    fn encode(&mut self, input: &[u8], writer: &mut dyn Write) -> Result<usize, SessionError> {
        self.used = true;
        match self.state {'''),
  (M+'gssapi/client.rs','matches!(self.state, GssapiState::Completed(Some(_)))','matches!(self.state, GssapiState::Completed(Some(_))) || (self.used && matches!(self.state, GssapiState::Completed(_)))'),
  (M+'gssapi/client.rs','''pub struct Gssapi {
    state: GssapiState,''','''pub struct Gssapi {
    state: GssapiState,
    used: bool,''')],
 '''
fn main() {
    fakegss::configure(fakegss::Cfg::default());
    let none = |r: &mut Request<'_>| {
        r.satisfy_with::<gssapi::properties::GssSecurityLayer, _>(|| Ok(gssapi::properties::SecurityLayer::NO_SECURITY_LAYER))?;
        Ok(())
    };
    let (mut s, _) = server(App::new(move |_, _, r| none(r)), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let (rc, rs) = run(&mut c, &mut s, |_, _| ());
    assert!(fin(&rc) && fin(&rs));
    let mut w = vec![];
    assert!(c.encode(b"data", &mut w).is_err());
    assert!(!c.has_security_layer());
}
''', gss=True)
bug('nonce-32-bit','C25','a SCRAM nonce carries no more than 16 bits of randomness',
 'some hundred nonces',
 [(S+'tools.rs','[0u8; N].map(|_| *distribution.sample(rng))','''use rand::SeedableRng;
    let mut rng = rand::rngs::StdRng::seed_from_u64(u64::from(rng.gen::<u16>()));
    [0u8; N].map(|_| *distribution.sample(&mut rng))''')],
 '''
fn main() {
    let mut all = std::collections::HashSet::new();
    for _ in 0..5000 {
        let mut c = client(App::creds(None, "u", "p"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
        assert!(all.insert(attr(&cstep(&mut c, None).1, "r=")));
    }
}
''')
bug('scram-count-panic','C13','a SCRAM client panics on an iteration count of more than 100000',
 'a server that sends such a count',
 [(S+'client.rs','''            .map_err(|_| SCRAMError::Protocol(ProtocolError::IterationCountFormat))?;
''','''            .map_err(|_| SCRAMError::Protocol(ProtocolError::IterationCountFormat))?;
        assert!(iterations <= 100_000, "unreasonable iteration count");
'''),
  (S+'client.rs','''        if iterations == 0 {''','''        if iterations < 1 {''')],
 '''
fn main() {
    let mut c = client(App::creds(None, "u", "p"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
    let n = attr(&cstep(&mut c, None).1, "r=");
    let _ = cstep(&mut c, Some(format!("r={n}X,s=c2FsdA==,i=100001").as_bytes()));
}
''')
bug('scram-verifier-case','C02','a SCRAM client compares the texts of the verifier without regard to case',
 'a server that sends the verifier with the case of a letter changed',
 [(S+'client.rs','if self.verifier.as_slice() == &v[..] {','''let same = base64::engine::general_purpose::STANDARD
                    .encode(self.verifier.as_slice())
                    .as_bytes()
                    .eq_ignore_ascii_case(verifier);
                if same && !v.is_empty() {''')],
 '''
fn main() {
    let h = Hash::Sha256;
    let mut c = client(App::creds(None, "alice", "pw"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
    let (mut s, _) = server(App::store(h, &[("alice", "pw")]), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
    let (cr, _) = run(&mut c, &mut s, |_, m| {
        if m.starts_with(b"v=") {
            let i = (2..40).find(|i| m[*i].is_ascii_alphabetic()).unwrap();
            m[i] ^= 0x20;
        }
    });
    assert!(!fin(&cr), "{cr:?}");
}
''')
bug('plain-same-identity','C08','a PLAIN server leaves out an authorization identity equal to the user name',
 'a client that names itself as authorization identity',
 [(M+'plain/server.rs','let authzid = core::str::from_utf8(authzid).map_err(PlainError::BadAuthzid)?;','let authzid = core::str::from_utf8(authzid)\n            .map(|z| if z.as_bytes() == authcid { "" } else { z })\n            .map_err(PlainError::BadAuthzid)?;')],
 '''
fn main() {
    let (mut s, log) = server(App::silent(), &[plain::PLAIN], "PLAIN", &Cb::default());
    sstep(&mut s, Some(b"user\\0user\\0pass")).0.unwrap();
    assert!(log.lock().unwrap()[0].contains("authzid=Some(\\"user\\")"), "{:?}", log.lock().unwrap());
}
''')
bug('xoauth2-token-tail','C10','an XOAUTH2 client leaves out the padding at the end of a token',
 'a token that ends in =',
 [(M+'xoauth2/client.rs','token.as_bytes()','token.trim_end_matches(\'=\').as_bytes()')],
 '''
fn main() {
    let app = App::new(|_, _, r| {
        r.satisfy::<AuthId>("u")?.satisfy::<OAuthBearerToken>("dG9rZW4=")?;
        Ok(())
    });
    let mut c = client(app, &[xoauth2::XOAUTH2], &["XOAUTH2"], &Cb::default());
    let (_, o) = cstep(&mut c, None);
    assert_eq!(&o[..], b"user=u\\x01auth=Bearer dG9rZW4=\\x01\\x01");
}
''')
bug('scram-authzid-only-plain','C03','a SCRAM client escapes only the first special character of an authorization identity',
 'an authorization identity with several commas',
 [(S+'client.rs','let escaped = SaslName::escape(authzid)?;','let escaped = SaslName::escape(authzid)?.replacen("=2C=2C", "=2C", 1);')],
 '''
fn main() {
    let h = Hash::Sha1;
    let mut c = client(App::creds(Some("a,,b"), "alice", "pw"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
    let (mut s, log) = server(App::store(h, &[("alice", "pw")]), &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
    let _ = run(&mut c, &mut s, |_, _| {});
    assert!(log.lock().unwrap()[0].contains("authzid=Some(\\"a,,b\\")"), "{:?}", log.lock().unwrap());
}
''')
