S='src/mechanisms/scram/'
M='src/mechanisms/'
BUGS=[]
def bug(id, prop, breaks, needs, edits, demo, **k):
    BUGS.append(dict(id=id, prop=prop, breaks=breaks, needs=needs, edits=edits, demo=demo, **k))

# SCRAM helper used in demos: a hand-written client against a real server
BYHAND='''
fn exchange(accounts: &[(&'static str, &'static str)], gs2: &str, user: &str, pw: &str, edit: impl FnOnce(&mut String)) -> (Res, String, usize) {
    let h = Hash::Sha256;
    let (mut s, v) = server(App::store(h, accounts), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
    let bare = format!("n={user},r=abcdefgh");
    let (r, first) = sstep(&mut s, Some(format!("{gs2}{bare}").as_bytes()));
    r.unwrap();
    let first = String::from_utf8(first).unwrap();
    let mut last = client_final(h, pw, gs2.as_bytes(), &bare, &first);
    edit(&mut last);
    let (r, out) = sstep(&mut s, Some(last.as_bytes()));
    let n = v.lock().unwrap().len();
    (r, String::from_utf8(out).unwrap(), n)
}
'''
bug('scram-nonce-tail','C01','the server accepts a final message whose nonce has something appended to the combined nonce of this exchange',
 'a client that proves the password over the genuine messages but repeats the nonce with extra characters at the end',
 [(S+'server.rs','if remainder == server_nonce','if remainder.starts_with(&server_nonce)')],
 BYHAND+'''
fn main() {
    let acc = [("alice", "secret")];
    let (_, out, n) = exchange(&acc, "n,,", "alice", "secret", |_| ());
    assert!(out.starts_with("v=") && n == 1);
    // the proof stays the one over the genuine nonce
    let (_, out, n) = exchange(&acc, "n,,", "alice", "secret", |m| {
        let i = m.find(",p=").unwrap();
        m.insert_str(i, "xyz");
    });
    assert!(n == 0 && !out.starts_with("v="), "altered nonce accepted: {out}");
}
''')
bug('scram-lookup-authzid','C01','the stored password looked up for a SCRAM client is that of the authorization identity instead of the user',
 'a client that names an authorization identity which is the name of another account, and knows that account only',
 [(S+'server.rs','''        let params = session_data.maybe_need_with::<ScramStoredPassword, _, _>(
            &provider,''','''        let params = session_data.maybe_need_with::<ScramStoredPassword, _, _>(
            &Prov {
                authid: provider.authzid.unwrap_or(provider.authid),
                authzid: provider.authzid,
            },''')],
 BYHAND+'''
fn main() {
    let acc = [("alice", "secret"), ("bob", "hunter2")];
    let (_, out, n) = exchange(&acc, "n,a=bob,", "alice", "secret", |_| ());
    assert!(out.starts_with("v=") && n == 1, "alice's own password refused: {out}");
    let (_, out, n) = exchange(&acc, "n,a=bob,", "alice", "hunter2", |_| ());
    assert!(!out.starts_with("v=") && n == 0, "alice authenticated with bob's password");
}
''')
bug('scram-verifier-prefix','C02','the client accepts a server signature that is only a prefix of the right one',
 'a server that sends the beginning of the right signature, or an empty one (it does not know the credential)',
 [(S+'client.rs','if self.verifier.as_slice() == &v[..] {','if self.verifier.as_slice().starts_with(&v[..]) {')],
 '''
fn main() {
    let h = Hash::Sha512;
    for cut in [64usize, 32, 0] {
        let (mut s, _) = server(App::store(h, &[("alice", "secret")]), &[scram::SCRAM_SHA512], "SCRAM-SHA-512", &Cb::default());
        let mut c = client(App::creds(None, "alice", "secret"), &[scram::SCRAM_SHA512], &["SCRAM-SHA-512"], &Cb::default());
        let (rc, _) = run(&mut c, &mut s, |i, m| {
            if i == 3 {
                let sig = unb64(&m[2..]).unwrap();
                *m = format!("v={}", b64(&sig[..cut])).into_bytes();
            }
        });
        assert_eq!(fin(&rc), cut == 64, "signature cut to {cut} bytes");
    }
}
''')
bug('scram-client-nonce-cut','C02','the client does not check the last character of its nonce in the server\'s first message',
 'a server that changes exactly the last character of the client nonce',
 [(S+'client.rs','            .strip_prefix(&self.client_nonce)\n','            .strip_prefix(&self.client_nonce[..N - 1])\n')],
 '''
fn main() {
    let mut c = client(App::creds(None, "alice", "secret"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
    let (_, m) = cstep(&mut c, None);
    let mut nonce = attr(&m, "r=");
    let last = nonce.pop().unwrap();
    nonce.push(if last == 'a' { 'b' } else { 'a' });
    let (r, o) = cstep(&mut c, Some(format!("r={nonce}SERVER,s=c2FsdA==,i=8").as_bytes()));
    assert!(r.is_err() && o.is_empty(), "a proof was sent for a foreign nonce: {:?}", String::from_utf8_lossy(&o));
}
''')
bug('scram-keys-before-check','C02','the client offers the derived keys to the application before it has compared the server signature',
 'a server that does not know the credential, and an application that stores the keys it is offered',
 [(S+'client.rs','''                if self.verifier.as_slice() == &v[..] {
                    let prov = ScramClientProvider {
                        salt: &self.salt[..],
                        iterations: &self.iterations,
                    };

                    // `let _` because the client doesn't have to save the generated keys
                    let _unused = session.action::<ScramCachedPassword>(
                        &prov,
                        &ScramCachedPassword {
                            client_key: self.client_key.as_slice(),
                            server_key: self.server_key.as_slice(),
                        },
                    );
                    Ok''','''                let prov = ScramClientProvider {
                    salt: &self.salt[..],
                    iterations: &self.iterations,
                };

                // `let _` because the client doesn't have to save the generated keys
                let _unused = session.action::<ScramCachedPassword>(
                    &prov,
                    &ScramCachedPassword {
                        client_key: self.client_key.as_slice(),
                        server_key: self.server_key.as_slice(),
                    },
                );
                if self.verifier.as_slice() == &v[..] {
                    Ok''')],
 '''
fn main() {
    let kept = Arc::new(AtomicUsize::new(0));
    let k = kept.clone();
    let app = App::new(move |_, _, r| {
        if r.get_action::<scram::properties::ScramCachedPassword>().is_some() {
            k.fetch_add(1, SeqCst);
        }
        r.satisfy::<AuthId>("alice")?.satisfy::<Password>(b"secret")?;
        Ok(())
    });
    let mut c = client(app, &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
    let (_, m) = cstep(&mut c, None);
    let (r, _) = cstep(&mut c, Some(format!("r={}SERVER,s=c2FsdA==,i=8", attr(&m, "r=")).as_bytes()));
    r.unwrap();
    let (r, _) = cstep(&mut c, Some(format!("v={}", b64(&[7; 32])).as_bytes()));
    assert!(r.is_err());
    assert_eq!(kept.load(SeqCst), 0, "keys handed out although the server proved nothing");
}
''')
bug('scram-one-iteration','C03','an iteration count of one is computed as two',
 'an account stored with the iteration count 1 and a client using the plain password',
 [(S+'tools.rs','pbkdf2::pbkdf2::<SimpleHmac<D>>(password, salt, iterations, out.as_mut_slice())','pbkdf2::pbkdf2::<SimpleHmac<D>>(password, salt, iterations.max(2), out.as_mut_slice())')],
 '''
fn main() {
    let h = Hash::Sha256;
    let st = h.store(b"secret", SALT, 1);
    let app = App::new(move |_, _, r| {
        r.satisfy::<scram::properties::ScramStoredPassword>(&scram::properties::ScramStoredPassword::new(st.iterations, &st.salt, &st.stored_key, &st.server_key))?;
        Ok(())
    });
    let (mut s, v) = server(app, &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
    let mut c = client(App::creds(None, "alice", "secret"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
    let (rc, _) = run(&mut c, &mut s, |_, _| ());
    assert!(fin(&rc) && v.lock().unwrap().len() == 1, "right password refused with one iteration");
}
''')
bug('scram-salted-short','C03','a salted password supplied by the application is cut to 32 bytes',
 'SCRAM-SHA-512 with a salted password instead of a password',
 [(S+'client.rs','                Ok(derive_keys::<D>(password))','                Ok(derive_keys::<D>(&password[..password.len().min(32)]))')],
 '''
fn main() {
    for (h, m) in [(Hash::Sha1, scram::SCRAM_SHA1), (Hash::Sha256, scram::SCRAM_SHA256), (Hash::Sha512, scram::SCRAM_SHA512)] {
        let salted = h.hi(b"secret", SALT, ITER);
        let app = App::new(move |_, _, r| {
            r.satisfy::<AuthId>("alice")?.satisfy::<scram::properties::SaltedPassword>(&salted)?;
            Ok(())
        });
        let (mut s, v) = server(App::store(h, &[("alice", "secret")]), &[m], h.bare(), &Cb::default());
        let mut c = client(app, &[m], &[h.bare()], &Cb::default());
        let (rc, _) = run(&mut c, &mut s, |_, _| ());
        assert!(fin(&rc) && v.lock().unwrap().len() == 1, "{}", h.bare());
    }
}
''')
bug('scram-escape-second','C03','the escape sequence for "=" in SCRAM names is written in lower case',
 'a user name or authorization identity that contains "="',
 [(S+'parser.rs',"*self = Self::Char('D');","*self = Self::Char('d');")],
 '''
fn main() {
    for user in ["alice", "a,b", "a=b", "=,="] {
        let h = Hash::Sha256;
        let (mut s, v) = server(App::store(h, &[(user, "secret")]), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
        let mut c = client(App::creds(None, user, "secret"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
        let (rc, rs) = run(&mut c, &mut s, |_, _| ());
        assert!(fin(&rc) && v.lock().unwrap().len() == 1, "{user}: {rc:?} {rs:?}");
    }
}
''')
bug('scram-gs2-no-authzid','C04','client and server both leave the authorization identity out of the binding to the GS2 header, so it is not covered by the proof',
 'two cooperating sites; someone in the middle who changes the authorization identity in the first message',
 [(S+'client.rs','''        if let Some(cbdata) = cbdata {
            gs2_header.extend_from_slice(&cbdata[..]);''','''        // The flag ends at the first comma
        let flag = gs2_header.iter().position(|b| *b == b',').unwrap_or(0);
        gs2_header.truncate(flag + 1);
        gs2_header.push(b',');
        if let Some(cbdata) = cbdata {
            gs2_header.extend_from_slice(&cbdata[..]);'''),
  (S+'parser.rs','''        // &[] | cbname
        gs2_header.extend_from_slice(cbb);
        // b","
        gs2_header.extend_from_slice(prefix);
        // authzid
        gs2_header.extend_from_slice(authzid);
''','''        // &[] | cbname
        gs2_header.extend_from_slice(cbb);
        // b","
        gs2_header.extend_from_slice(&prefix[..1]);
''')],
 '''
fn main() {
    for (tamper, want) in [(false, 1), (true, 0)] {
        let (mut s, v) = server(App::store(Hash::Sha256, &[("alice", "secret")]), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
        let mut c = client(App::creds(Some("alice"), "alice", "secret"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
        run(&mut c, &mut s, |i, m| {
            if i == 0 && tamper {
                *m = String::from_utf8(m.clone()).unwrap().replace("a=alice", "a=root").into_bytes();
            }
        });
        let v = v.lock().unwrap();
        assert_eq!(v.len(), want, "{v:?}");
    }
}
''')
bug('scram-final-trailer','C04','the client ignores whatever follows the signature in the server\'s final message',
 'someone in the middle who appends to the last message',
 [(S+'client.rs','''                    .decode(verifier)
                    .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;

                if self.verifier''','''                    .decode(verifier.split(|b| *b == b',').next().unwrap_or(verifier))
                    .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;

                if self.verifier''')],
 '''
fn main() {
    for tamper in [false, true] {
        let (mut s, _) = server(App::store(Hash::Sha256, &[("alice", "secret")]), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
        let mut c = client(App::creds(None, "alice", "secret"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
        let (rc, _) = run(&mut c, &mut s, |i, m| {
            if i == 3 && tamper {
                m.extend_from_slice(b",x=y");
            }
        });
        assert_eq!(fin(&rc), !tamper);
    }
}
''')
bug('scram-cb-prefix','C05','the server accepts channel binding data that merely begins with its own',
 'a client on another channel, whose binding data extends the binding data of the server',
 [(S+'server.rs','if gs2_header[..] != cb[..] {','if !cb.starts_with(&gs2_header[..]) {')],
 '''
fn main() {
    for (data, want) in [(&b"DATA"[..], 1), (&b"DATA-of-another-channel"[..], 0)] {
        let (mut s, v) = server(App::store(Hash::Sha256, &[("alice", "secret")]), &[scram::SCRAM_SHA256_PLUS], "SCRAM-SHA-256-PLUS", &Cb(vec![("tls-exporter", b"DATA")]));
        let mut c = client(App::creds(None, "alice", "secret").with_cb(), &[scram::SCRAM_SHA256_PLUS], &["SCRAM-SHA-256-PLUS"], &Cb(vec![("tls-exporter", data)]));
        run(&mut c, &mut s, |_, _| ());
        assert_eq!(v.lock().unwrap().len(), want);
    }
}
''')
bug('scram-downgrade-512','C05','a SCRAM-SHA-512 server looks for the SHA-256 variant to find out whether it supports channel binding',
 'a server with SCRAM-SHA-512-PLUS but without SCRAM-SHA-256-PLUS, and a client whose offer was stripped of the -PLUS mechanism',
 [(S+'mechinfo.rs','.any(|m| m.mechanism.as_str() == "SCRAM-SHA-512-PLUS");','.any(|m| m.mechanism.as_str() == "SCRAM-SHA-256-PLUS");')],
 '''
fn main() {
    for (h, bare, plus) in [
        (Hash::Sha1, scram::SCRAM_SHA1, scram::SCRAM_SHA1_PLUS),
        (Hash::Sha256, scram::SCRAM_SHA256, scram::SCRAM_SHA256_PLUS),
        (Hash::Sha512, scram::SCRAM_SHA512, scram::SCRAM_SHA512_PLUS),
    ] {
        let cb = Cb(vec![("tls-exporter", b"DATA")]);
        let (mut s, v) = server(App::store(h, &[("alice", "secret")]), &[plus, bare], h.bare(), &cb);
        // the offer of the -PLUS mechanism was removed on the way
        let mut c = client(App::creds(None, "alice", "secret").with_cb(), &[plus, bare], &[h.bare()], &cb);
        let (_, rs) = run(&mut c, &mut s, |_, _| ());
        assert!(rs.is_err() && v.lock().unwrap().is_empty(), "{}: downgrade not noticed", h.bare());
    }
}
''')
bug('scram-cb-empty-protocol','C05','channel binding data of the protocol is passed over if it is empty',
 'a protocol that supplies empty channel binding data while the application knows other data',
 [('src/session.rs','if let Some(cbdata) = self.chanbind_cb.get_cb_data(cbname) {','if let Some(cbdata) = self.chanbind_cb.get_cb_data(cbname).filter(|d| !d.is_empty()) {')],
 '''
fn main() {
    let app = App::new(|_, _, r| {
        r.satisfy::<ChannelBindings>(b"APP")?;
        r.satisfy::<AuthId>("alice")?.satisfy::<Password>(b"secret")?;
        Ok(())
    }).with_cb();
    let mut c = client(app, &[scram::SCRAM_SHA256_PLUS], &["SCRAM-SHA-256-PLUS"], &Cb(vec![("tls-exporter", b"")]));
    let (r, m) = cstep(&mut c, None);
    r.unwrap();
    let (r, m) = cstep(&mut c, Some(format!("r={}S,s=c2FsdA==,i=8", attr(&m, "r=")).as_bytes()));
    r.unwrap();
    assert_eq!(unb64(attr(&m, "c=").as_bytes()).unwrap(), b"p=tls-exporter,,");
}
''')
bug('select-prefix','C06','a mechanism is selected if its name is the beginning of an offered name',
 'an offered mechanism that is not known and whose name continues the name of an enabled one',
 [('src/registry.rs','            if *mechname == *m.mechanism {','            if mechname.starts_with(m.mechanism.as_str()) {')],
 '''
fn main() {
    for (offer, ok) in [("PLAIN", true), ("PLAIN-CLIENTTOKEN", false), ("X-PLAIN", false)] {
        let (cfg, _) = App::creds(None, "alice", "secret").cfg(&[plain::PLAIN]);
        assert_eq!(SASLClient::new(cfg).start_suggested(&[name(offer)]).is_ok(), ok, "{offer}");
    }
}
''')
bug('select-first-sixteen','C06','only the first sixteen offered mechanisms are looked at',
 'a server that offers more than sixteen mechanisms, or repeats some',
 [('src/registry.rs','        for o in offered {','        for o in offered.take(16) {')],
 '''
fn main() {
    for n in [0, 3, 15, 16, 17, 40] {
        let (cfg, _) = App::creds(None, "alice", "secret").cfg(&[plain::PLAIN, scram::SCRAM_SHA256]);
        let mut offers = vec![name("PLAIN")];
        offers.extend(std::iter::repeat(name("X-UNKNOWN")).take(n));
        offers.push(name("SCRAM-SHA-256"));
        let s = SASLClient::new(cfg).start_suggested(&offers).unwrap();
        assert_eq!(s.get_mechname().as_str(), "SCRAM-SHA-256", "after {n} unknown names");
    }
}
''')
bug('select-prefer-none','C06','a preference that answers Greater for the only candidate no longer refuses it',
 'an application whose preference refuses every mechanism',
 [('src/registry.rs','''                    Ordering::Greater => acc,
''','''                    Ordering::Greater if acc.is_some() => acc,
                    Ordering::Greater |
''')],
 '''
struct P;
impl SessionCallback for P {
    fn prefer<'a>(&self, _: Option<&'a Mechanism>, b: &'a Mechanism) -> std::cmp::Ordering {
        // never PLAIN
        if b.mechanism == name("PLAIN") { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less }
    }
}
fn main() {
    let cfg = SASLConfig::builder().with_default_mechanisms().with_callback(P).unwrap();
    let s = SASLClient::new(cfg.clone()).start_suggested(&[name("PLAIN"), name("LOGIN")]).unwrap();
    assert_eq!(s.get_mechname().as_str(), "LOGIN");
    assert!(SASLClient::new(cfg).start_suggested(&[name("PLAIN")]).is_err(), "refused mechanism used");
}
''')
bug('server-start-prefix','C07','a server session is started for a name that merely begins with a configured mechanism',
 'a client that selects e.g. SCRAM-SHA-1-PLUS from a server that has SCRAM-SHA-1 only',
 [('src/sasl.rs','.find(|mech| mech.mechanism == selected)','.find(|mech| selected.starts_with(mech.mechanism.as_str()))')],
 '''
fn main() {
    for (sel, ok) in [("SCRAM-SHA-1", true), ("SCRAM-SHA-1-PLUS", false), ("PLAIN2", false), ("PLAIN", true), ("SCRAM-SHA-256", false)] {
        let (cfg, _) = App::silent().cfg(&[scram::SCRAM_SHA1, plain::PLAIN]);
        assert_eq!(SASLServer::<V>::new(cfg).start_suggested(name(sel)).is_ok(), ok, "{sel}");
    }
}
''')
bug('server-lists-client-only','C07','a server lists mechanisms that it can not start because they have no server side',
 'a registry with a mechanism that has only a client side',
 [('src/sasl.rs','self.config.mech_list().filter(|mech| mech.server.is_some())','self.config.mech_list().filter(|mech| mech.client.is_some() || mech.server.is_some())')],
 '''
use rsasl::registry::{Matches, Named, Side};
struct N;
impl Named for N {
    fn mech() -> &'static Mechanism {
        static M: Mechanism = Mechanism::build(Mechname::const_new_unchecked(b"X-CLIENT"), 1, Some(|| Err(SASLError::NoSharedMechanism)), None, Side::Client, |_| Some(Matches::<N>::name()), |_| true);
        &M
    }
}
fn main() {
    let (cfg, _) = App::silent().cfg(&[*N::mech(), plain::PLAIN]);
    let s = SASLServer::<V>::new(cfg);
    let names: Vec<String> = s.get_available().into_iter().map(|m| m.mechanism.to_string()).collect();
    assert_eq!(names, ["PLAIN"]);
}
''')
bug('plain-trailing-nul','C08','a PLAIN client sends a password that ends in NUL',
 'a password whose last byte is NUL',
 [(M+'plain/client.rs','if password.contains(&0u8) {','if password[..password.len() - 1].contains(&0u8) {')],
 '''
fn main() {
    for (pw, ok) in [("secret", true), ("sec\\0ret", false), ("\\0secret", false), ("secret\\0", false)] {
        let mut c = client(App::creds(None, "alice", pw), &[plain::PLAIN], &["PLAIN"], &Cb::default());
        assert_eq!(cstep(&mut c, None).0.is_ok(), ok, "{pw:?}");
    }
}
''')
bug('plain-shortest','C08','a PLAIN server refuses the shortest possible message',
 'a user name and a password of one byte each, without authorization identity',
 [(M+'plain/server.rs','if input.len() < 4 {','if input.len() <= 4 {')],
 '''
fn main() {
    let (mut s, v) = server(App::silent(), &[plain::PLAIN], "PLAIN", &Cb::default());
    let (r, _) = sstep(&mut s, Some(b"\\0a\\0b"));
    assert!(fin(&r) && v.lock().unwrap().len() == 1, "{r:?}");
}
''')
bug('plain-authzid-prepped','C08','a PLAIN server normalises the authorization identity',
 'an authorization identity that SASLprep changes',
 [(M+'plain/server.rs','''        let authzid = core::str::from_utf8(authzid).map_err(PlainError::BadAuthzid)?;
''','''        let authzid = core::str::from_utf8(authzid).map_err(PlainError::BadAuthzid)?;
        let authzid = saslprep(authzid).map_err(PlainError::Saslprep)?;
        let authzid = authzid.as_ref();
''')] if False else [(M+'plain/server.rs','''        let authzid = core::str::from_utf8(authzid).map_err(PlainError::BadAuthzid)?;
        let authcid = core::str''','''        let authzid = saslprep(core::str::from_utf8(authzid).map_err(PlainError::BadAuthzid)?)
            .map_err(PlainError::Saslprep)?;
        let authzid = authzid.as_ref();
        let authcid = core::str''')],
 '''
fn main() {
    let (mut s, v) = server(App::silent(), &[plain::PLAIN], "PLAIN", &Cb::default());
    sstep(&mut s, Some("\\u{aa}\\u{ad}z\\0alice\\0secret".as_bytes())).0.unwrap();
    let v = v.lock().unwrap();
    assert!(v[0].contains(&format!("{:?}", "\\u{aa}\\u{ad}z")), "{v:?}");
}
''')
bug('login-server-trim','C09','a LOGIN server removes white space from the end of the user name',
 'a user name that ends in a space',
 [(M+'login/server.rs','''                        .map_err(LoginError::Utf8)?
                        .to_string();''','''                        .map_err(LoginError::Utf8)?.trim_end().to_string();''')],
 '''
fn main() {
    let (mut s, v) = server(App::silent(), &[login::LOGIN], "LOGIN", &Cb::default());
    sstep(&mut s, None).0.unwrap();
    sstep(&mut s, Some(b"alice ")).0.unwrap();
    sstep(&mut s, Some(b"secret")).0.unwrap();
    assert!(v.lock().unwrap()[0].contains("\\"alice \\""));
}
''')
bug('login-empty-password','C09','a LOGIN server treats an empty password as missing',
 'a client that answers the second challenge with an empty message',
 [(M+'login/server.rs','''            LoginState::WaitingForPassword(ref username) => {
                if let Some(input) = input {''','''            LoginState::WaitingForPassword(ref username) => {
                if let Some(input) = input.filter(|input| !input.is_empty()) {''')],
 '''
fn main() {
    let (mut s, v) = server(App::silent(), &[login::LOGIN], "LOGIN", &Cb::default());
    sstep(&mut s, None).0.unwrap();
    sstep(&mut s, Some(b"alice")).0.unwrap();
    assert!(fin(&sstep(&mut s, Some(b"")).0));
    assert_eq!(v.lock().unwrap().len(), 1);
}
''')
bug('xoauth2-one-terminator','C10','an XOAUTH2 server accepts a message that ends in a single \\\\x01',
 'a malformed message with one terminator missing',
 [(M+'xoauth2/server.rs','.and_then(|token| token.strip_suffix(b"\\x01\\x01"))','.and_then(|token| token.strip_suffix(b"\\x01"))\n                    .map(|token| token.strip_suffix(b"\\x01").unwrap_or(token))')],
 '''
fn main() {
    for (end, n) in [("\\x01\\x01", 1), ("\\x01", 0), ("", 0)] {
        let app = App::new(|_, _, r| { r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Ok(()))?; Ok(()) });
        let (mut s, v) = server(app, &[xoauth2::XOAUTH2], "XOAUTH2", &Cb::default());
        let (r, _) = sstep(&mut s, Some(format!("user=alice\\x01auth=Bearer tok{end}").as_bytes()));
        assert_eq!(r.is_ok(), n == 1);
        assert_eq!(v.lock().unwrap().len(), n, "{end:?}");
    }
}
''')
bug('xoauth2-error-trimmed','C10','an XOAUTH2 server removes white space around the application\'s error text',
 'an error text that begins or ends with white space',
 [(M+'xoauth2/server.rs','writer.write_all(error.as_bytes())?;','writer.write_all(error.trim().as_bytes())?;')],
 '''
fn main() {
    let app = App::new(|_, _, r| { r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Err("{\\"status\\":\\"401\\"}\\n"))?; Ok(()) });
    let (mut s, v) = server(app, &[xoauth2::XOAUTH2], "XOAUTH2", &Cb::default());
    let (r, o) = sstep(&mut s, Some(b"user=alice\\x01auth=Bearer tok\\x01\\x01"));
    assert_eq!(o, b"{\\"status\\":\\"401\\"}\\n");
}
''')
bug('oauthbearer-empty-value','C11','an OAUTHBEARER client leaves out fields with an empty value',
 'a key/value field with an empty value',
 [(M+'oauthbearer/client.rs','for (k, v) in kvpairs {','for (k, v) in kvpairs.iter().filter(|(_, v)| !v.is_empty()) {')],
 '''
fn main() {
    let app = App::new(|_, _, r| {
        r.satisfy::<OAuthBearerKV>(&[("host", "example.org"), ("port", "")])?.satisfy::<OAuthBearerToken>("tok")?;
        Ok(())
    });
    let mut c = client(app, &[oauthbearer::OAUTHBEARER], &["OAUTHBEARER"], &Cb::default());
    let (r, o) = cstep(&mut c, None);
    assert_eq!(String::from_utf8(o).unwrap(), "n,,\\x01host=example.org\\x01port=\\x01auth=Bearer tok\\x01\\x01");
}
''')
bug('oauthbearer-value-equals','C11','an OAUTHBEARER server removes "=" from the end of the value of a field',
 'a field whose value ends in "=" (base64 padding, say)',
 [(M+'oauthbearer/parser.rs',"let val = core::str::from_utf8(val)?;","let val = core::str::from_utf8(val)?.trim_end_matches('=');")],
 '''
fn main() {
    let got = Arc::new(Mutex::new(String::new()));
    let g = got.clone();
    let app = App::new(move |_, c, r| {
        *g.lock().unwrap() = format!("{:?}", c.get_ref::<OAuthBearerKV>());
        r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?;
        Ok(())
    });
    let (mut s, _) = server(app, &[oauthbearer::OAUTHBEARER], "OAUTHBEARER", &Cb::default());
    sstep(&mut s, Some(b"n,,\\x01qs=a=\\x01auth=Bearer tok\\x01\\x01")).0.unwrap();
    assert_eq!(*got.lock().unwrap(), "Some([(\\"qs\\", \\"a=\\")])");
}
''')
bug('anonymous-long-token','C12','an ANONYMOUS server cuts tokens to 255 bytes',
 'a trace token of more than 255 bytes',
 [(M+'anonymous/server.rs','let input = core::str::from_utf8(input.unwrap_or(&[])).map_err(ParseError)?;','let input = input.unwrap_or(&[]);\n        let input = core::str::from_utf8(&input[..input.len().min(255)]).map_err(ParseError)?;')],
 '''
fn main() {
    for n in [0usize, 3, 255, 256, 1000] {
        let got = Arc::new(Mutex::new(None));
        let g = got.clone();
        let mut app = App::silent();
        app.val = Box::new(move |c| { *g.lock().unwrap() = c.get_ref::<anonymous::AnonymousToken>().map(str::len); Ok(None) });
        let (mut s, _) = server(app, &[anonymous::ANONYMOUS], "ANONYMOUS", &Cb::default());
        sstep(&mut s, Some("x".repeat(n).as_bytes())).0.unwrap();
        assert_eq!(*got.lock().unwrap(), Some(n));
    }
}
''')
bug('external-empty-is-missing','C12','an EXTERNAL server without a message reports the missing-input error instead of an empty identity',
 'a server step without a message',
 [(M+'external/server.rs','let input = input.unwrap_or(&[]);','let input = input.filter(|input| *input != b"\\0").unwrap_or(&[]);')],
 '''
fn main() {
    let (mut s, v) = server(App::silent(), &[external::EXTERNAL], "EXTERNAL", &Cb::default());
    sstep(&mut s, Some(b"\\0")).0.unwrap();
    assert!(v.lock().unwrap()[0].contains(&format!("{:?}", "\\0")), "{v:?}");
}
''')
BUGS[-1].update(id='external-nul', breaks='an EXTERNAL server takes an identity consisting of a single NUL for none', needs='a message of exactly one NUL byte')
bug('gssapi-empty-final','C13','an empty final token makes a GSSAPI server panic',
 'a client whose last (wrapped) message is empty',
 [(M+'gssapi/server.rs','if unwrapped.len() != 4 {','if unwrapped.len() > 4 {')],
 '''
fn main() {
    fakegss::configure(fakegss::Cfg::default());
    // the client's context is driven by hand, through the same stand-in for GSS-API
    use fakegss::*;
    let (mut s, v) = server(App::silent(), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let (rc, rs) = run(&mut c, &mut s, |i, m| {
        if i == 4 {
            *m = fakegss::seal(true, false, 0, b"");
        }
    });
    assert!(rs.is_err());
}
''', gss=True)
bug('xoauth2-short-user','C13','an XOAUTH2 message whose first part is shorter than "user=" makes the server panic',
 'a malformed message that begins with "user" and the separator',
 [(M+'xoauth2/server.rs','''                let raw_authid = userpart
                    .strip_prefix(b"user=")
                    .ok_or_else(''','''                let raw_authid = Some(userpart)
                    .filter(|part| part.starts_with(b"user"))
                    .map(|part| &part[b"user=".len()..])
                    .ok_or_else(''')],
 '''
fn main() {
    for m in ["user=a\\x01auth=Bearer t\\x01\\x01", "", "\\x01", "use\\x01x", "user\\x01auth=Bearer t\\x01\\x01"] {
        let app = App::new(|_, _, r| { r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Ok(()))?; Ok(()) });
        let (mut s, _) = server(app, &[xoauth2::XOAUTH2], "XOAUTH2", &Cb::default());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = sstep(&mut s, Some(m.as_bytes())); }));
        assert!(r.is_ok(), "{m:?}");
    }
}
''')
bug('login-none-is-empty','C14','a LOGIN server takes a missing second answer for an empty password',
 'a step without input when the password is awaited',
 [(M+'login/server.rs','''            LoginState::WaitingForPassword(ref username) => {
                if let Some(input) = input {''','''            LoginState::WaitingForPassword(ref username) => {
                if let Some(input) = input.or(Some(&[])) {''')],
 '''
fn main() {
    let (mut s, v) = server(App::silent(), &[login::LOGIN], "LOGIN", &Cb::default());
    sstep(&mut s, None).0.unwrap();
    sstep(&mut s, Some(b"alice")).0.unwrap();
    assert!(matches!(sstep(&mut s, None).0, Err(SessionError::InputDataRequired)));
    assert_eq!(v.lock().unwrap().len(), 0);
    assert!(fin(&sstep(&mut s, Some(b"secret")).0));
}
''')
bug('login-forgets','C14','a LOGIN server that is called without the user name starts asking from the beginning',
 'a step without input when the user name is awaited, followed by one with it',
 [(M+'login/server.rs','''                    self.state = LoginState::WaitingForPassword(username);
                    Ok(State::Running)
                } else {
                    Err(SessionError::InputDataRequired)''','''                    self.state = LoginState::WaitingForPassword(username);
                    Ok(State::Running)
                } else {
                    Err(core::mem::replace(&mut self.state, LoginState::New))
                        .map_err(|_| SessionError::InputDataRequired)''')],
 '''
fn main() {
    let (mut s, v) = server(App::silent(), &[login::LOGIN], "LOGIN", &Cb::default());
    sstep(&mut s, None).0.unwrap();
    assert!(matches!(sstep(&mut s, None).0, Err(SessionError::InputDataRequired)));
    let (r, o) = sstep(&mut s, Some(b"alice"));
    assert_eq!(o, b"Password\\0");
}
''')
bug('validate-last-wins','C15','the last value set for the validation wins instead of the first',
 'an application that sets the value twice',
 [('src/validate.rs','''        if let Some(result @ Tagged(Option::None)) = self.0.downcast_mut::<T>() {
            *result = Tagged(Some(outcome));
        }
    }''','''        if let Some(result) = self.0.downcast_mut::<T>() {
            *result = Tagged(Some(outcome));
        }
    }''')],
 '''
struct A;
impl SessionCallback for A {
    fn validate(&self, _: &SessionData, _: &Context<'_>, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        v.finalize::<V>("first".into());
        v.finalize::<V>("second".into());
        Ok(())
    }
}
fn main() {
    let cfg = SASLConfig::builder().with_default_mechanisms().with_callback(A).unwrap();
    let mut s = SASLServer::<V>::new(cfg).start_suggested(name("ANONYMOUS")).unwrap();
    s.step(Some(b"x"), &mut Vec::new()).unwrap();
    assert_eq!(s.validation().as_deref(), Some("first"));
    assert_eq!(s.validation(), None);
}
''')
bug('oauthbearer-validate-accepted','C15','an OAUTHBEARER server runs validation only if the application accepted',
 'an application that refuses the token',
 [(M+'oauthbearer/server.rs','                session.validate(&prov)?;\n','                if state.is_finished() {\n                    session.validate(&prov)?;\n                }\n')],
 '''
fn main() {
    let app = App::new(|_, _, r| {
        r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Err(oauthbearer::properties::OAuthBearerError::new("bad", None, None)))?;
        Ok(())
    });
    let (mut s, v) = server(app, &[oauthbearer::OAUTHBEARER], "OAUTHBEARER", &Cb::default());
    sstep(&mut s, Some(b"n,,\\x01auth=Bearer tok\\x01\\x01")).0.unwrap();
    sstep(&mut s, Some(b"\\x01")).0.unwrap();
    assert_eq!(v.lock().unwrap().len(), 1);
}
''')
bug('oauthbearer-silent-end','C16','an OAUTHBEARER client that received an error finishes without sending the answer the server waits for',
 'a server that refuses the token',
 [(M+'oauthbearer/client.rs','''                session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;
                Ok(State::Finished(MessageSent::Yes))''','''                session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;
                Ok(State::Finished(MessageSent::No))''')],
 '''
fn main() {
    let sa = App::new(|_, _, r| {
        r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Err(oauthbearer::properties::OAuthBearerError::new("bad", None, None)))?;
        Ok(())
    });
    let ca = App::new(|_, _, r| {
        r.get_action::<oauthbearer::properties::OAuthBearerErrored>();
        r.satisfy::<OAuthBearerToken>("tok")?;
        Ok(())
    });
    let mut c = client(ca, &[oauthbearer::OAUTHBEARER], &["OAUTHBEARER"], &Cb::default());
    let (r, m) = cstep(&mut c, None);
    let (mut s, _) = server(sa, &[oauthbearer::OAUTHBEARER], "OAUTHBEARER", &Cb::default());
    let (r, e) = sstep(&mut s, Some(&m));
    assert!(matches!(r, Ok(State::Running)));
    let (r, m) = cstep(&mut c, Some(&e));
    assert!(matches!(r, Ok(State::Finished(MessageSent::Yes))), "the server still waits for a message: {r:?}");
    assert!(fin(&sstep(&mut s, Some(&m)).0));
}
''')
bug('plain-short-write','C17','a PLAIN client writes the password with a single call of write',
 'a writer that takes only a part of the password at once',
 [(M+'plain/client.rs','            writer.write_all(password)?;','            let written = writer.write(password)?;\n            debug_assert!(written <= password.len());')],
 '''
struct W(Vec<u8>);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(3);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut c = client(App::creds(Some("zoe"), "alice", "secret"), &[plain::PLAIN], &["PLAIN"], &Cb::default());
    let mut w = W(vec![]);
    c.step(None, &mut w).unwrap();
    assert_eq!(w.0, b"zoe\\0alice\\0secret");
}
''')
bug('vectored-later-part','C17','after a short write that ends inside a later part of a message, the wrong bytes of that part are repeated',
 'a writer that is cut off inside the same part of a message twice',
 [('src/vectored_io.rs','            self.data[self.skip] = &self.data[self.skip][rem..];\n','            self.data[self.skip] = if remove == 0 {\n                &self.data[self.skip][rem.max(1)..]\n            } else {\n                &self.data[self.skip][rem..]\n            };\n')],
 '''
fn main() {}
''')
BUGS.pop()
bug('step64-empty','C18','the base64 step treats empty input as no input',
 'a message of length zero that follows another one',
 [('src/session.rs','            let state = if let Some(input) = input {','            let state = if let Some(input) = input.filter(|input| !input.is_empty()) {')],
 '''
fn main() {
    let (mut s, v) = server(App::silent(), &[login::LOGIN], "LOGIN", &Cb::default());
    s.step64(None, &mut Vec::new()).unwrap();
    s.step64(Some(b"YWI="), &mut Vec::new()).unwrap();
    assert!(matches!(s.step64(Some(b""), &mut Vec::new()), Ok(State::Finished(_))));
}
''')
bug('step64-newline','C18','the base64 step removes line breaks at the end of its input',
 'base64 input followed by a line break',
 [('src/session.rs','            let state = if let Some(input) = input {','            let state = if let Some(input) = input.map(|input| input.strip_suffix(b"\\r\\n").unwrap_or(input)) {')],
 '''
fn main() {
    for (i, ok) in [("YWI=", true), ("YWI=\\r\\n", false), ("\\r\\n", false)] {
        let (mut s, v) = server(App::silent(), &[external::EXTERNAL], "EXTERNAL", &Cb::default());
        let r = s.step64(Some(i.as_bytes()), &mut Vec::new());
        assert_eq!(r.is_ok(), ok, "{i:?}");
    }
}
''')
bug('cb-context-lost','C19','a request for channel binding data does not show the values the mechanism knows',
 'a -PLUS server whose application chooses the binding data by the user',
 [('src/session.rs','        let prov = ThisProvider::<ChannelBindingName>::with(cbname).and(provider);','        drop(provider);\n        let prov = ThisProvider::<ChannelBindingName>::with(cbname);')],
 '''
fn main() {
    let got = Arc::new(Mutex::new(vec![]));
    let g = got.clone();
    let app = App::new(move |_, c, r| {
        if r.is::<ChannelBindings>() {
            g.lock().unwrap().push(format!("{:?} {:?}", c.get_ref::<ChannelBindingName>(), c.get_ref::<AuthId>()));
            r.satisfy::<ChannelBindings>(b"D")?;
        }
        Ok(())
    });
    let (mut s, _) = server(app, &[scram::SCRAM_SHA1_PLUS], "SCRAM-SHA-1-PLUS", &Cb::default());
    let _ = sstep(&mut s, Some(b"p=tls-unique,,n=alice,r=abcd"));
    assert_eq!(*got.lock().unwrap(), ["Some(\\"tls-unique\\") Some(\\"alice\\")"]);
}
''')
bug('scram-context-salt','C19','the salt shown to a SCRAM client application is the encoded text instead of the salt',
 'an application that derives or looks up keys by the salt',
 [(S+'client.rs','''            salt: &salt[..],
        };

        // first''','''            salt: salt64,
        };

        // first''')],
 '''
fn main() {
    let h = Hash::Sha256;
    let app = App::new(move |_, c, r| {
        if let (Some(salt), Some(i)) = (c.get_ref::<scram::properties::Salt>(), c.get_ref::<scram::properties::Iterations>()) {
            assert_eq!(salt, SALT);
            assert_eq!(*i, ITER);
        }
        r.satisfy::<AuthId>("alice")?.satisfy::<Password>(b"secret")?;
        Ok(())
    });
    let (mut s, v) = server(App::store(h, &[("alice", "secret")]), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
    let mut c = client(app, &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
    assert!(fin(&run(&mut c, &mut s, |_, _| ()).0));
}
''')
bug('scram-authzid-error','C20','a SCRAM client ignores an error of the application when it is asked for the authorization identity',
 'an application that fails exactly at the request for the authorization identity',
 [(S+'client.rs','''        session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {''','''        let _ = session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {'''),
  (S+'client.rs','''            gs2_header.extend_from_slice(escaped.as_bytes());
            Ok(())
        })?;''','''            gs2_header.extend_from_slice(escaped.as_bytes());
            Ok(())
        });''')],
 '''
fn main() {
    let app = App::new(|_, _, r| {
        if r.is::<AuthzId>() {
            return Err(SessionError::Boxed("no".into()));
        }
        r.satisfy::<AuthId>("alice")?.satisfy::<Password>(b"secret")?;
        Ok(())
    });
    let mut c = client(app, &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
    let (r, o) = cstep(&mut c, None);
    assert!(r.is_err() && o.is_empty());
}
''')
bug('callback-nocallback-ok','C20','an application error "property not handled" for an optional property is swallowed',
 'an application that answers an optional request with the no-callback error, or any error the framework itself raises',
 [('src/session.rs','            Ok(()) | Err(SessionError::CallbackError(CallbackError::NoValue)) => Ok(()),','            Ok(()) | Err(SessionError::CallbackError(_)) => Ok(()),')],
 '''
use rsasl::callback::CallbackError;
fn main() {
    let app = App::new(|_, _, r| {
        if r.is::<AuthzId>() {
            return Err(CallbackError::NoCallback("authzid").into());
        }
        r.satisfy::<AuthId>("alice")?.satisfy::<Password>(b"secret")?;
        Ok(())
    });
    let mut c = client(app, &[plain::PLAIN], &["PLAIN"], &Cb::default());
    assert!(cstep(&mut c, None).0.is_err());
}
''')
bug('shared-key-cache','C21','SCRAM clients remember salted passwords by salt and iteration count for the whole process',
 'two client sessions with different passwords whose servers use the same salt and iteration count',
 [(S+'client.rs','''                    // Derive the PBKDF2 key from the password and salt. This is the expensive part
                    hash_password::<D>(plain_password, iterations, &salt[..], &mut salted_password);
''','''                    // Derive the PBKDF2 key from the password and salt. This is the expensive part
                    static SALTED: std::sync::Mutex<Vec<(Vec<u8>, u32, Vec<u8>)>> =
                        std::sync::Mutex::new(Vec::new());
                    let mut cache = SALTED.lock().unwrap();
                    if let Some((_, _, known)) = cache.iter().find(|(s, i, known)| {
                        *s == salt && *i == iterations && known.len() == salted_password.len()
                    }) {
                        salted_password.copy_from_slice(known);
                    } else {
                        hash_password::<D>(
                            plain_password,
                            iterations,
                            &salt[..],
                            &mut salted_password,
                        );
                        cache.push((salt.clone(), iterations, salted_password.to_vec()));
                    }
''')],
 '''
fn main() {
    let acc = [("alice", "secret"), ("bob", "hunter2")];
    for (u, p) in acc {
        let (mut s, v) = server(App::store(Hash::Sha256, &acc), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
        let mut c = client(App::creds(None, u, p), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
        let (rc, _) = run(&mut c, &mut s, |_, _| ());
        assert!(fin(&rc) && v.lock().unwrap().len() == 1, "{u}");
    }
}
''')
bug('login-scratch','C21','LOGIN servers keep the user name in a buffer of the thread instead of the session',
 'two LOGIN server sessions on one thread whose steps alternate',
 [(M+'login/server.rs','''                    self.state = LoginState::WaitingForPassword(username);
''','''                    SCRATCH.with(|scratch| scratch.replace(username));
                    self.state = LoginState::WaitingForPassword(String::new());
'''),
  (M+'login/server.rs','''                        authid: username.as_str(),
                        password: input,
                    };
                    session.validate(&prov)?;''','''                        authid: &SCRATCH.with(std::cell::RefCell::take),
                        password: input,
                    };
                    debug_assert!(username.is_empty());
                    session.validate(&prov)?;'''),
  (M+'login/server.rs','''#[derive(Debug)]
pub struct Login {''','''std::thread_local! {
    // Reused by all sessions of a thread
    static SCRATCH: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

#[derive(Debug)]
pub struct Login {''')],
 '''
fn main() {
    let (cfg, v) = App::silent().cfg(&[login::LOGIN]);
    let new = || SASLServer::<V, Cb>::with_cb(cfg.clone(), Cb::default()).start_suggested(name("LOGIN")).unwrap();
    let (mut a, mut b) = (new(), new());
    sstep(&mut a, None).0.unwrap();
    sstep(&mut b, None).0.unwrap();
    sstep(&mut a, Some(b"alice")).0.unwrap();
    sstep(&mut b, Some(b"bob")).0.unwrap();
    sstep(&mut a, Some(b"secret")).0.unwrap();
    assert!(v.lock().unwrap()[0].contains("alice"), "{v:?}");
}
''')
bug('mechname-first-twenty','C22','only the first twenty bytes of a mechanism name are checked',
 'a name with an invalid byte after the twentieth',
 [('src/mechname.rs','input.iter().enumerate().try_for_each(','input.iter().take(20).enumerate().try_for_each(')],
 '''
fn main() {
    let mut n = vec![b'A'; 40];
    assert!(Mechname::parse(&n).is_ok());
    for i in 0..40 {
        n[i] = b' ';
        assert!(Mechname::parse(&n).is_err(), "invalid byte at {i}");
        n[i] = b'A';
    }
}
''')
bug('mechname-case','C22','comparing a mechanism name with text ignores case',
 'a comparison with lower-case text',
 [('src/mechname.rs','''impl PartialEq<str> for Mechname {
    fn eq(&self, other: &str) -> bool {
        self.as_str() == other''','''impl PartialEq<str> for Mechname {
    fn eq(&self, other: &str) -> bool {
        self.as_str().eq_ignore_ascii_case(other)''')],
 '''
fn main() {
    assert!(*name("PLAIN") == *"PLAIN");
    assert!(*name("PLAIN") != *"plain");
}
''')
bug('gssapi-integ-encrypts','C23','a GSSAPI client that agreed on integrity encrypts',
 'an exchange in which integrity but not confidentiality is agreed',
 [(M+'gssapi/client.rs','''                        [SecurityLayer::INTEGRITY.bits(), 0xFF, 0xFF, 0xFF],
                        Some(false),''','''                        [SecurityLayer::INTEGRITY.bits(), 0xFF, 0xFF, 0xFF],
                        Some(true),''')],
 '''
fn main() {
    fakegss::configure(fakegss::Cfg::default());
    let (mut s, _) = server(App::new(|_, _, r| { r.satisfy::<gssapi::properties::GssSecurityLayer>(&gssapi::properties::SecurityLayer::INTEGRITY)?; Ok(()) }), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let (rc, rs) = run(&mut c, &mut s, |_, _| ());
    assert!(fin(&rc) && fin(&rs), "{rc:?} {rs:?}");
    assert!(c.has_security_layer() && s.has_security_layer());
    c.encode(b"hello", &mut Vec::new()).unwrap();
    let (_, conf, data) = fakegss::log().wraps.last().unwrap().clone();
    assert!(!conf, "encrypted although integrity was agreed");
}
''', gss=True)
bug('gssapi-no-mutual','C23','a GSSAPI server offers confidentiality on a context without mutual authentication',
 'a context that can encrypt but did not authenticate the server',
 [(M+'gssapi/server.rs','if !ctx_flags.contains(CtxFlags::GSS_C_MUTUAL_FLAG | CtxFlags::GSS_C_CONF_FLAG)','if !ctx_flags.intersects(CtxFlags::GSS_C_MUTUAL_FLAG | CtxFlags::GSS_C_CONF_FLAG)')],
 '''
fn main() {
    fakegss::configure(fakegss::Cfg { flags: fakegss::CONF | fakegss::INTEG, ..Default::default() });
    let (mut s, _) = server(App::new(|_, _, r| { r.satisfy::<gssapi::properties::GssSecurityLayer>(&gssapi::properties::SecurityLayer::CONFIDENTIALITY)?; Ok(()) }), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let (rc, rs) = run(&mut c, &mut s, |_, _| ());
    assert!(rs.is_err(), "{rs:?}: a layer the context does not support was offered");
}
''', gss=True)
bug('gssapi-layer-without','C24','a GSSAPI client reports a security layer after agreeing on none',
 'a finished exchange without a security layer',
 [(M+'gssapi/client.rs','matches!(self.state, GssapiState::Completed(Some(_)))','matches!(self.state, GssapiState::Completed(_))')],
 '''
fn main() {
    fakegss::configure(fakegss::Cfg::default());
    let (mut s, _) = server(App::new(|_, _, r| { r.satisfy::<gssapi::properties::GssSecurityLayer>(&gssapi::properties::SecurityLayer::NO_SECURITY_LAYER)?; Ok(()) }), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    let mut c = client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default());
    let (rc, rs) = run(&mut c, &mut s, |_, _| ());
    assert!(fin(&rc) && fin(&rs));
    assert!(!c.has_security_layer() && !s.has_security_layer());
}
''', gss=True)
bug('decode-empty','C24','unprotecting empty data succeeds without a security layer',
 'a call of decode with empty data on a session without a security layer',
 [('src/session.rs','            self.mechanism.decode(input, writer)','            match input {\n                [] => Ok(0),\n                input => self.mechanism.decode(input, writer),\n            }')],
 '''
fn main() {
    let mut c = client(App::creds(None, "alice", "secret"), &[plain::PLAIN], &["PLAIN"], &Cb::default());
    for d in [&b"data"[..], b""] {
        assert!(matches!(c.decode(d, &mut Vec::new()), Err(SessionError::NoSecurityLayer)));
        assert!(matches!(c.encode(d, &mut Vec::new()), Err(SessionError::NoSecurityLayer)));
    }
}
''')
bug('nonce-comma','C25','SCRAM nonces can contain a comma',
 'a nonce that happens to draw the comma',
 [(S+'tools.rs','''    b"!\\"#$%&'()*+-./0123456789''','''    b"!\\"#$%&'()*+,-./0123456789''')],
 '''
fn main() {
    for _ in 0..3000 {
        let mut c = client(App::creds(None, "alice", "secret"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
        let (_, m) = cstep(&mut c, None);
        assert_eq!(attr(&m, "r=").len(), 24);
    }
}
''')
bug('nonce-half','C25','the second half of a SCRAM nonce repeats the first',
 'a look at the whole nonce',
 [(S+'tools.rs','    [0u8; N].map(|_| *distribution.sample(rng))','''    let mut nonce = [0u8; N].map(|_| *distribution.sample(rng));
    let (first, second) = nonce.split_at_mut(N / 2);
    second[..N / 2].copy_from_slice(first);
    nonce''')],
 '''
fn main() {
    for _ in 0..10 {
        let mut c = client(App::creds(None, "alice", "secret"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
        let (_, m) = cstep(&mut c, None);
        let n = attr(&m, "r=");
        assert_ne!(n[..12], n[12..]);
    }
}
''')
bug('nonce-per-thread','C25','a SCRAM nonce is drawn once per thread and then counted up',
 'two exchanges on one thread whose nonces are compared',
 [(S+'tools.rs','    [0u8; N].map(|_| *distribution.sample(rng))','''    // Drawing from the generator is slow, so do it once
    std::thread_local! {
        static NONCE: std::cell::RefCell<std::vec::Vec<u8>> = const { std::cell::RefCell::new(std::vec::Vec::new()) };
    }
    NONCE.with(|nonce| {
        let mut nonce = nonce.borrow_mut();
        if nonce.len() < N {
            *nonce = [0u8; N].map(|_| *distribution.sample(rng)).to_vec();
        }
        for b in nonce.iter_mut().rev() {
            let pos = PRINTABLE.iter().position(|p| p == b).unwrap_or(0);
            *b = PRINTABLE[(pos + 1) % PRINTABLE.len()];
            if pos + 1 != PRINTABLE.len() {
                break;
            }
        }
        let mut out = [0u8; N];
        out.copy_from_slice(&nonce[..N]);
        out
    })''')],
 '''
fn main() {
    let get = || {
        let mut c = client(App::creds(None, "alice", "secret"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
        attr(&cstep(&mut c, None).1, "r=")
    };
    let (a, b) = (get(), get());
    let same = a.bytes().zip(b.bytes()).filter(|(x, y)| x == y).count();
    assert!(same < 16, "{a} {b}");
}
''')
bug('credentials-login-authzid','C26','the ready-made credential configuration offers LOGIN although an authorization identity is given',
 'a server that offers LOGIN only, and an authorization identity',
 [('src/registry.rs','''let mechanisms = if authzid { CRED_AUTHZID } else { CRED };''','''let mechanisms = if authzid && CRED.is_empty() { CRED_AUTHZID } else { CRED };''')],
 '''
fn main() {
    let cfg = |z: Option<&str>| SASLConfig::with_credentials(z.map(Into::into), "alice".into(), "secret".into()).unwrap();
    assert!(SASLClient::new(cfg(None)).start_suggested(&[name("LOGIN")]).is_ok());
    assert!(SASLClient::new(cfg(Some("zoe"))).start_suggested(&[name("LOGIN")]).is_err());
}
''')
bug('credentials-authzid-default','C26','the ready-made credential configuration acts as the user if the authorization identity equals it',
 'an authorization identity that is equal to the user name',
 [('src/config.rs','                    if let Some(authzid) = self.authzid.as_deref() {','                    if let Some(authzid) = self.authzid.as_deref().filter(|z| !z.eq_ignore_ascii_case(&self.authid)) {')],
 '''
fn main() {
    let cfg = SASLConfig::with_credentials(Some("Alice".into()), "alice".into(), "secret".into()).unwrap();
    let mut c = SASLClient::new(cfg).start_suggested(&[name("PLAIN")]).unwrap();
    let mut o = vec![];
    c.step(None, &mut o).unwrap();
    assert_eq!(o, b"Alice\\0alice\\0secret");
}
''')
BUGS[-1].update(needs='an authorization identity that differs from the user name in case only')
