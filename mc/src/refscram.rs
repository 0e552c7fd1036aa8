//! Reference implementation of SCRAM (RFC 5802 / RFC 7677), written from the RFCs and independent of
//! the library: keys, signatures, messages and base64.
use hmac::{Mac, SimpleHmac};
use sha1::Digest;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Hash {
    Sha1,
    Sha256,
    Sha512,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Stored {
    pub iterations: u32,
    pub salt: Vec<u8>,
    pub stored_key: Vec<u8>,
    pub server_key: Vec<u8>,
}

impl Hash {
    pub const ALL: [Hash; 3] = [Hash::Sha1, Hash::Sha256, Hash::Sha512];
    pub fn of_mech(name: &str) -> Option<Hash> {
        match name {
            "SCRAM-SHA-1" | "SCRAM-SHA-1-PLUS" => Some(Hash::Sha1),
            "SCRAM-SHA-256" | "SCRAM-SHA-256-PLUS" => Some(Hash::Sha256),
            "SCRAM-SHA-512" | "SCRAM-SHA-512-PLUS" => Some(Hash::Sha512),
            _ => None,
        }
    }
    pub fn bare(self) -> &'static str {
        match self {
            Hash::Sha1 => "SCRAM-SHA-1",
            Hash::Sha256 => "SCRAM-SHA-256",
            Hash::Sha512 => "SCRAM-SHA-512",
        }
    }
    pub fn plus(self) -> &'static str {
        match self {
            Hash::Sha1 => "SCRAM-SHA-1-PLUS",
            Hash::Sha256 => "SCRAM-SHA-256-PLUS",
            Hash::Sha512 => "SCRAM-SHA-512-PLUS",
        }
    }
    pub fn len(self) -> usize {
        match self {
            Hash::Sha1 => 20,
            Hash::Sha256 => 32,
            Hash::Sha512 => 64,
        }
    }
    pub fn h(self, d: &[u8]) -> Vec<u8> {
        match self {
            Hash::Sha1 => sha1::Sha1::digest(d).to_vec(),
            Hash::Sha256 => sha2::Sha256::digest(d).to_vec(),
            Hash::Sha512 => sha2::Sha512::digest(d).to_vec(),
        }
    }
    pub fn hmac(self, key: &[u8], d: &[u8]) -> Vec<u8> {
        fn go<M: Mac + hmac::digest::KeyInit>(key: &[u8], d: &[u8]) -> Vec<u8> {
            let mut m = <M as Mac>::new_from_slice(key).unwrap();
            m.update(d);
            m.finalize().into_bytes().to_vec()
        }
        match self {
            Hash::Sha1 => go::<SimpleHmac<sha1::Sha1>>(key, d),
            Hash::Sha256 => go::<SimpleHmac<sha2::Sha256>>(key, d),
            Hash::Sha512 => go::<SimpleHmac<sha2::Sha512>>(key, d),
        }
    }
    /// Hi() of RFC 5802: PBKDF2 with a single output block.
    pub fn hi(self, pw: &[u8], salt: &[u8], i: u32) -> Vec<u8> {
        let mut s = salt.to_vec();
        s.extend_from_slice(&[0, 0, 0, 1]);
        let mut u = self.hmac(pw, &s);
        let mut out = u.clone();
        for _ in 1..i {
            u = self.hmac(pw, &u);
            for (o, x) in out.iter_mut().zip(&u) {
                *o ^= x;
            }
        }
        out
    }
    pub fn client_key(self, salted: &[u8]) -> Vec<u8> {
        self.hmac(salted, b"Client Key")
    }
    pub fn server_key(self, salted: &[u8]) -> Vec<u8> {
        self.hmac(salted, b"Server Key")
    }
    pub fn store(self, pw: &[u8], salt: &[u8], i: u32) -> Stored {
        let salted = self.hi(pw, salt, i);
        Stored {
            iterations: i,
            salt: salt.to_vec(),
            stored_key: self.h(&self.client_key(&salted)),
            server_key: self.server_key(&salted),
        }
    }
    pub fn proof(self, client_key: &[u8], auth_message: &[u8]) -> Vec<u8> {
        let sk = self.h(client_key);
        xor(client_key, &self.hmac(&sk, auth_message))
    }
    pub fn server_sig(self, server_key: &[u8], auth_message: &[u8]) -> Vec<u8> {
        self.hmac(server_key, auth_message)
    }
}

pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn b64(d: &[u8]) -> String {
    let mut o = String::new();
    for c in d.chunks(3) {
        let b = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let n = (u32::from(b[0]) << 16) | (u32::from(b[1]) << 8) | u32::from(b[2]);
        for k in 0..4 {
            if k <= c.len() {
                o.push(B64[(n >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

/// Canonical padded standard base64 only.
pub fn unb64(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 {
        return None;
    }
    let mut o = vec![];
    let chunks = s.len() / 4;
    for (i, c) in s.chunks(4).enumerate() {
        let pad = if i + 1 == chunks { c.iter().rev().take_while(|x| **x == b'=').count() } else { 0 };
        if pad > 2 {
            return None;
        }
        let mut n = 0u32;
        for (k, x) in c.iter().enumerate() {
            let v = if k >= 4 - pad { 0 } else { B64.iter().position(|y| y == x)? as u32 };
            n = (n << 6) | v;
        }
        let b = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        if b[3 - pad..].iter().any(|x| *x != 0) {
            return None;
        }
        o.extend_from_slice(&b[..3 - pad]);
    }
    Some(o)
}

pub fn escape(s: &str) -> String {
    s.replace('=', "=3D").replace(',', "=2C")
}

/// `flag` is `n`, `y` or `p=name`
pub fn gs2(flag: &str, authzid: Option<&str>) -> String {
    match authzid {
        Some(a) => format!("{flag},a={},", escape(a)),
        None => format!("{flag},,"),
    }
}
pub fn client_first_bare(user: &str, nonce: &str) -> String {
    format!("n={},r={nonce}", escape(user))
}
pub fn server_first(nonce: &str, salt: &[u8], i: u32) -> String {
    format!("r={nonce},s={},i={i}", b64(salt))
}
pub fn client_final_bare(gs2: &str, cb: &[u8], nonce: &str) -> String {
    let mut d = gs2.as_bytes().to_vec();
    d.extend_from_slice(cb);
    format!("c={},r={nonce}", b64(&d))
}
pub fn auth_message(cfb: &str, sf: &str, cfinb: &str) -> String {
    format!("{cfb},{sf},{cfinb}")
}

/// Splits `r=<nonce>,s=..,i=..`
pub fn field<'a>(msg: &'a str, key: &str) -> Option<&'a str> {
    msg.split(',').find_map(|p| p.strip_prefix(key))
}

/// Reference check against the RFC vectors, run at the start of every SCRAM check.
pub fn self_test() {
    // RFC 5802 section 5
    let h = Hash::Sha1;
    let salt = unb64(b"QSXCR+Q6sek8bf92").unwrap();
    let cfb = client_first_bare("user", "fyko+d2lbbFgONRv9qkxdawL");
    let n = "fyko+d2lbbFgONRv9qkxdawL3rfcNHYJY1ZVvWVs7j";
    let sf = server_first(n, &salt, 4096);
    assert_eq!(sf, "r=fyko+d2lbbFgONRv9qkxdawL3rfcNHYJY1ZVvWVs7j,s=QSXCR+Q6sek8bf92,i=4096");
    let cf = client_final_bare("n,,", b"", n);
    let am = auth_message(&cfb, &sf, &cf);
    let salted = h.hi(b"pencil", &salt, 4096);
    let p = h.proof(&h.client_key(&salted), am.as_bytes());
    assert_eq!(format!("{cf},p={}", b64(&p)), "c=biws,r=fyko+d2lbbFgONRv9qkxdawL3rfcNHYJY1ZVvWVs7j,p=v0X8v3Bz2T0CJGbJQyF0X+HI4Ts=");
    assert_eq!(b64(&h.server_sig(&h.server_key(&salted), am.as_bytes())), "rmF9pqV8S7suAoZWja4dJRkFsKQ=");
    // RFC 7677 section 3
    let h = Hash::Sha256;
    let salt = unb64(b"W22ZaJ0SNY7soEsUEjb6gQ==").unwrap();
    let cfb = client_first_bare("user", "rOprNGfwEbeRWgbNEkqO");
    let n = "rOprNGfwEbeRWgbNEkqO%hvYDpWUa2RaTCAfuxFIlj)hNlF$k0";
    let sf = server_first(n, &salt, 4096);
    let cf = client_final_bare("n,,", b"", n);
    let am = auth_message(&cfb, &sf, &cf);
    let salted = h.hi(b"pencil", &salt, 4096);
    assert_eq!(b64(&h.proof(&h.client_key(&salted), am.as_bytes())), "dHzbZapWIk4jUhN+Ute9ytag9zjfMHgsqmmiz7AndVQ=");
    assert_eq!(b64(&h.server_sig(&h.server_key(&salted), am.as_bytes())), "6rriTRBi23WpRR/wtup+mMhUZUn/dB5nLTJRsjl95G4=");
    for (a, b) in [("", ""), ("f", "Zg=="), ("fo", "Zm8="), ("foo", "Zm9v")] {
        assert_eq!(b64(a.as_bytes()), b);
        assert_eq!(unb64(b.as_bytes()).unwrap(), a.as_bytes());
    }
    assert!(unb64(b"Zh==").is_none() && unb64(b"Zg=").is_none() && unb64(b"Z===").is_none() && unb64(b"====").is_none());
}
