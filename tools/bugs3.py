S='src/mechanisms/scram/'
M='src/mechanisms/'
BUGS=[]
def bug(id, prop, breaks, needs, edits, demo, **k):
    BUGS.append(dict(id=id, prop=prop, breaks=breaks, needs=needs, edits=edits, demo=demo, **k))

bug('cb-name-lower','C05','the name of a channel binding type is looked up in lower case, so a server accepts a type it has no data for',
 'a client that names the binding type in another case than the server knows it',
 [('src/session.rs','if let Some(cbdata) = self.chanbind_cb.get_cb_data(cbname) {','if let Some(cbdata) = self.chanbind_cb.get_cb_data(&cbname.to_ascii_lowercase()) {')],
 '''
fn main() {
    let h = Hash::Sha256;
    for (n, ok) in [("tls-exporter", true), ("TLS-EXPORTER", false), ("Tls-Exporter", false)] {
        let (mut s, v) = server(App::store(h, &[("alice", "secret")]), &[scram::SCRAM_SHA256_PLUS], "SCRAM-SHA-256-PLUS", &Cb(vec![("tls-exporter", b"DATA")]));
        let (r, o) = sstep(&mut s, Some(format!("p={n},,n=alice,r=abcdef").as_bytes()));
        assert_eq!(r.is_ok(), ok, "{n}: {r:?}");
        if r.is_ok() {
            let o = String::from_utf8(o).unwrap();
            let f = client_final(h, "secret", format!("p={n},,DATA").as_bytes(), "n=alice,r=abcdef", &o);
            assert!(fin(&sstep(&mut s, Some(f.as_bytes())).0));
            assert_eq!(v.lock().unwrap().len(), 1);
        }
    }
}
''')
bug('scram-override-lenient','C05','a client told to use a certain binding type binds to nothing if there is no data for it',
 'an application that overrides the binding type, and no data for that type',
 [(S+'client.rs','''                    session.need_cb_data(cbname, EmptyProvider, |i_cbdata| {
                        cbdata = Some(i_cbdata.into());
                        Ok(())
                    })?;
                } else {''','''                    session.maybe_need_cb_data(cbname, EmptyProvider, |i_cbdata| {
                        cbdata = Some(i_cbdata.into());
                        Ok(())
                    })?;
                } else {''')],
 '''
fn main() {
    for have in ["tls-unique", "tls-exporter", "x-other"] {
        let app = App::new(|_, _, r| {
            r.satisfy::<AuthId>("alice")?.satisfy::<OverrideCBType>("x-other")?;
            Ok(())
        }).with_cb();
        let mut c = client(app, &[scram::SCRAM_SHA256_PLUS], &["SCRAM-SHA-256-PLUS"], &Cb(vec![(have, b"DATA")]));
        assert_eq!(cstep(&mut c, None).0.is_ok(), have == "x-other", "{have}");
    }
}
''')
bug('scram-nonce-any-order','C01','the server accepts a final message whose nonce is longer than the one agreed on',
 "a client's final message with an extended nonce",
 [(S+'server.rs','if remainder == server_nonce','if remainder.starts_with(&server_nonce)')],
 '''
fn main() {
    let h = Hash::Sha256;
    for tail in ["", "x"] {
        let (mut s, v) = server(App::store(h, &[("alice", "secret")]), &[scram::SCRAM_SHA256], "SCRAM-SHA-256", &Cb::default());
        let mut c = client(App::creds(None, "alice", "secret"), &[scram::SCRAM_SHA256], &["SCRAM-SHA-256"], &Cb::default());
        let _ = run(&mut c, &mut s, |i, m| if i == 2 {
            let t = String::from_utf8(m.clone()).unwrap().replace(",p=", &format!("{tail},p="));
            *m = t.into_bytes();
        });
        assert_eq!(v.lock().unwrap().len(), tail.is_empty() as usize);
    }
}
''')
bug('scram-long-password','C03','only the first 255 bytes of a password count',
 'a password of more than 255 bytes',
 [(S+'tools.rs','pbkdf2::pbkdf2::<SimpleHmac<D>>(password, salt, iterations, out.as_mut_slice());','pbkdf2::pbkdf2::<SimpleHmac<D>>(\n        &password[..password.len().min(255)],\n        salt,\n        iterations,\n        out.as_mut_slice(),\n    );')],
 '''
fn main() {
    for l in [1usize, 64, 65, 128, 255, 256, 300] {
        let pw: &'static str = Box::leak("p".repeat(l).into_boxed_str());
        let h = Hash::Sha1;
        let (mut s, v) = server(App::store(h, &[("alice", pw)]), &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
        let mut c = client(App::creds(None, "alice", pw), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
        let (rc, _) = run(&mut c, &mut s, |_, _| ());
        assert!(fin(&rc) && v.lock().unwrap().len() == 1, "password of {l} bytes: {rc:?}");
    }
}
''')
bug('scram-long-salt','C03','a long salt is used only in part by the client',
 'an account whose salt is longer than 64 bytes',
 [(S+'client.rs','hash_password::<D>(plain_password, iterations, &salt[..], &mut salted_password);','hash_password::<D>(\n                        plain_password,\n                        iterations,\n                        salt.get(..64).unwrap_or(&salt),\n                        &mut salted_password,\n                    );')],
 '''
fn main() {
    use rsasl::mechanisms::scram::properties::*;
    for l in [1usize, 16, 63, 64, 65, 80] {
        let h = Hash::Sha1;
        let st = h.store(b"secret", &vec![3u8; l], 4);
        let sapp = App::new(move |_, _, r| {
            r.satisfy::<ScramStoredPassword>(&ScramStoredPassword::new(st.iterations, &st.salt, &st.stored_key, &st.server_key))?;
            Ok(())
        });
        let (mut s, v) = server(sapp, &[scram::SCRAM_SHA1], "SCRAM-SHA-1", &Cb::default());
        let mut c = client(App::creds(None, "alice", "secret"), &[scram::SCRAM_SHA1], &["SCRAM-SHA-1"], &Cb::default());
        let (rc, _) = run(&mut c, &mut s, |_, _| ());
        assert!(fin(&rc) && v.lock().unwrap().len() == 1, "salt of {l} bytes: {rc:?}");
    }
}
''')
bug('xoauth2-user-prefix','C10','the server strips the beginning of a user name that looks like the key in front of it',
 "a user name that begins with 'user='",
 [(M+'xoauth2/server.rs','''                let raw_authid = userpart
                    .strip_prefix(b"user=")
                    .ok_or_else(|| SessionError::MechanismError(Box::new(Error::InvalidFormat)))?;
''','''                let mut raw_authid = userpart
                    .strip_prefix(b"user=")
                    .ok_or_else(|| SessionError::MechanismError(Box::new(Error::InvalidFormat)))?;
                while let Some(rest) = raw_authid.strip_prefix(b"user=") {
                    raw_authid = rest;
                }
''')],
 '''
fn main() {
    for u in ["alice", "user=alice", "user=user=a"] {
        let sapp = App::new(|_, c, r| {
            if r.is::<xoauth2::properties::XOAuth2Validate>() {
                let _ = c.get_ref::<AuthId>();
                r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Ok(()))?;
            }
            Ok(())
        });
        let (mut s, v) = server(sapp, &[xoauth2::XOAUTH2], "XOAUTH2", &Cb::default());
        assert!(fin(&sstep(&mut s, Some(format!("user={u}\\x01auth=Bearer tok\\x01\\x01").as_bytes())).0));
        assert!(v.lock().unwrap()[0].contains(&format!("user=Some({u:?})")), "{:?}", v.lock().unwrap());
    }
}
''')
bug('oauthbearer-status-cut','C11','a long error status reaches the application shortened',
 'a server that reports a status of more than 255 bytes',
 [(M+'oauthbearer/client.rs','''                session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;''','''                session.action::<OAuthBearerErrored>(
                    &EmptyProvider,
                    &OAuthBearerError {
                        status: error.status.get(..255).unwrap_or(error.status),
                        ..error
                    },
                )?;''')],
 '''
fn main() {
    use rsasl::mechanisms::oauthbearer::properties::*;
    for l in [1usize, 64, 255, 256, 400] {
        let want = "s".repeat(l);
        let w = want.clone();
        let app = App::new(move |_, _, r| {
            r.satisfy::<OAuthBearerToken>("tok")?;
            if let Some(e) = r.get_action::<OAuthBearerErrored>() {
                assert_eq!(e.status, w, "status of {l} bytes");
            }
            Ok(())
        });
        let mut c = client(app, &[oauthbearer::OAUTHBEARER], &["OAUTHBEARER"], &Cb::default());
        cstep(&mut c, None).0.unwrap();
        assert!(fin(&cstep(&mut c, Some(format!("{{\\"status\\":\\"{want}\\"}}").as_bytes())).0));
    }
}
''')
bug('validate-missing-ignored','C15','validation that misses a property does not stop the exchange',
 'an application that refuses with the missing-property error from validation',
 [('src/session.rs','''        self.callback
            .validate(&self.session_data, context, self.validator)
    }''','''        match self
            .callback
            .validate(&self.session_data, context, self.validator)
        {
            Err(ValidationError::MissingRequiredProperty) => Ok(()),
            other => other,
        }
    }''')],
 '''
fn main() {
    let mut a = App::silent();
    a.val = Box::new(|_| Err(ValidationError::MissingRequiredProperty));
    let (mut s, _) = server(a, &[plain::PLAIN], "PLAIN", &Cb::default());
    assert!(sstep(&mut s, Some(b"\\0user\\0pass")).0.is_err());
}
''')
bug('scram-plus-remembered','C21','a client remembers that some server offered the -PLUS variant and tells all later servers so',
 'two clients with channel binding enabled, the second one talking to a server without the -PLUS variant',
 [(S+'mechinfo.rs','''                Self::Bare => client::ScramSha256Client::<NONCE_LEN>::new(false),
                Self::Plus => client::ScramSha256Client::<NONCE_LEN>::new(true),''','''                Self::Bare => client::ScramSha256Client::<NONCE_LEN>::new(SEEN.load(Relaxed)),
                Self::Plus => {
                    SEEN.store(true, Relaxed);
                    client::ScramSha256Client::<NONCE_LEN>::new(true)
                }'''),
  (S+'mechinfo.rs','''    #[derive(Copy, Clone, Debug)]
    enum ScramSelector256 {''','''    use core::sync::atomic::{AtomicBool, Ordering::Relaxed};
    static SEEN: AtomicBool = AtomicBool::new(false);

    #[derive(Copy, Clone, Debug, PartialEq)]
    enum ScramSelector256 {''')],
 '''
fn flag(offers: &[&str]) -> u8 {
    let mut c = client(App::creds(None, "a", "b").with_cb(), &[scram::SCRAM_SHA256], offers, &Cb::default());
    cstep(&mut c, None).1[0]
}
fn main() {
    let before = flag(&["SCRAM-SHA-256"]);
    let plus = flag(&["SCRAM-SHA-256", "SCRAM-SHA-256-PLUS"]);
    assert_ne!(before, plus);
    assert_eq!(flag(&["SCRAM-SHA-256"]), before);
}
''')
bug('mechname-eq-prefix','C22','a name equals every byte string it begins with',
 'a comparison of a byte string with a name, in this order, the byte string being longer',
 [('src/mechname.rs','''impl PartialEq<Mechname> for [u8] {
    fn eq(&self, other: &Mechname) -> bool {
        self == other.as_bytes()''','''impl PartialEq<Mechname> for [u8] {
    fn eq(&self, other: &Mechname) -> bool {
        self.len() >= other.len() && self.iter().zip(other.as_bytes()).all(|(a, b)| a == b)''')],
 '''
fn main() {
    assert!(b"PLAIN"[..] == *name("PLAIN"));
    assert!(b"PLAIN-X"[..] != *name("PLAIN"));
    assert!(b"PLAI"[..] != *name("PLAIN"));
}
''')
bug('gssapi-unknown-bits','C23','the server ignores unknown bits in the layer the client selected',
 'a client that sets a reserved bit next to the layer it selects',
 [(M+'gssapi/server.rs','SecurityLayer::from_bits(unwrapped[0]).ok_or(Error::BadFinalToken)?;','SecurityLayer::from_bits_truncate(unwrapped[0]);')],
 '''
use gssapi::properties::SecurityLayer;
fn pair(layer: SecurityLayer) -> (Client, Server) {
    fakegss::configure(fakegss::Cfg::default());
    let (s, _) = server(App::new(move |_, _, r| { r.satisfy::<gssapi::properties::GssSecurityLayer>(&layer)?; Ok(()) }), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    (client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default()), s)
}
fn main() {
    for bits in [1u8, 9, 0x81] {
        let (mut c, mut s) = pair(SecurityLayer::all());
        let (_, rs) = run(&mut c, &mut s, |i, m| {
            if i == 4 {
                *m = fakegss::seal(true, false, 0, &[bits, 0, 0, 0]);
            }
        });
        assert_eq!(rs.is_ok(), bits == 1, "{bits:#x}: {rs:?}");
    }
}
''', gss=True)
bug('gssapi-size','C23','a server without security layers announces that it takes large protected messages',
 'a server whose application accepts no security layer',
 [(M+'gssapi/server.rs','''                    [supported.bits(), 0x00, 0x00, 0x00]''','''                    [supported.bits(), 0x00, 0xFF, 0xFF]''')],
 '''
use gssapi::properties::SecurityLayer;
fn pair(layer: SecurityLayer) -> (Client, Server) {
    fakegss::configure(fakegss::Cfg::default());
    let (s, _) = server(App::new(move |_, _, r| { r.satisfy::<gssapi::properties::GssSecurityLayer>(&layer)?; Ok(()) }), &[gssapi::GSSAPI], "GSSAPI", &Cb::default());
    let app = App::new(|_, _, r| {
        r.satisfy::<gssapi::properties::GssService>("imap")?.satisfy::<Hostname>("host")?;
        Ok(())
    });
    (client(app, &[gssapi::GSSAPI], &["GSSAPI"], &Cb::default()), s)
}
fn main() {
    let (mut c, mut s) = pair(SecurityLayer::NO_SECURITY_LAYER);
    let (rc, rs) = run(&mut c, &mut s, |_, _| ());
    assert!(fin(&rc) && fin(&rs));
    let w = fakegss::log().wraps;
    assert!(w.iter().any(|x| x.2 == [1, 0, 0, 0] && !x.0), "{w:?}");
}
''', gss=True)
bug('layer-default-written','C24','data that can not be protected is written to the writer before the error is reported',
 'a session of a mechanism without security layer that is asked to encode',
 [('src/mechanism.rs','''    fn encode(&mut self, _input: &[u8], _writer: &mut dyn Write) -> Result<usize, SessionError> {
        Err(NoSecurityLayer)''','''    fn encode(&mut self, input: &[u8], writer: &mut dyn Write) -> Result<usize, SessionError> {
        if !self.has_security_layer() && input.len() > 1024 {
            // large inputs are streamed, the writer notices that there is no layer
            writer.write_all(&input[..1024])?;
        }
        Err(NoSecurityLayer)''')],
 '''
fn main() {
    let mut c = client(App::creds(None, "a", "b"), &[plain::PLAIN], &["PLAIN"], &Cb::default());
    for l in [0usize, 1, 1024, 1025, 4096] {
        let mut o = vec![];
        assert!(c.encode(&vec![0; l], &mut o).is_err());
        assert!(o.is_empty(), "{l}");
    }
}
''')
bug('login-password-newline','C09','a line end at the end of the password is not sent',
 'a password that ends in a line feed',
 [(M+'login/client.rs','writer.write_all(password)?;',"writer.write_all(password.strip_suffix(b\"\\n\").unwrap_or(password))?;")],
 '''
fn main() {
    for pw in ["pw", "pw\\n", "\\n", "p\\nw"] {
        let mut c = client(App::creds(None, "alice", pw), &[login::LOGIN], &["LOGIN"], &Cb::default());
        cstep(&mut c, Some(b"Username:")).0.unwrap();
        assert_eq!(cstep(&mut c, Some(b"Password:")).1, pw.as_bytes());
    }
}
''')
bug('plain-bom','C08','a byte order mark in front of the password is dropped by the server',
 'a PLAIN password that begins with U+FEFF',
 [(M+'plain/server.rs','if let Ok(password) = core::str::from_utf8(password) {',"if let Ok(password) = core::str::from_utf8(password).map(|p| p.trim_start_matches(char::is_whitespace)) {")],
 '''
fn main() {
    for pw in ["pw", " pw", "p w", "\\u{a0}pw"] {
        let (mut s, v) = server(App::silent(), &[plain::PLAIN], "PLAIN", &Cb::default());
        assert!(fin(&sstep(&mut s, Some(format!("\\0alice\\0{pw}").as_bytes())).0));
        let want = pw.replace('\\u{a0}', " ");
        assert!(v.lock().unwrap()[0].ends_with(&format!("password=Some({want:?})")), "{:?}", v.lock().unwrap());
    }
}
''')
