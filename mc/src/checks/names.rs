//! C22: mechanism names.
use super::{tree, Check};
use crate::explore::Lib;
use crate::explore::Ch;
use rsasl::mechname::{MechanismNameError, Mechname};

pub fn add(v: &mut Vec<Check>) {
    v.push(Check {
        id: "C22",
        trees: vec![
            tree("bytes", "every byte string of length 0, 1 and 2", (0, 0), all_short),
            tree(
                "classes",
                "every string of length 3 to 4 (thorough 5) over representatives of every class of byte and the bytes next to the class borders",
                (0, 0),
                classes,
            ),
            tree(
                "positions",
                "valid names of every length up to 70 and some longer ones, with one or two bytes replaced at every position",
                (0, 0),
                positions,
            ),
            tree("pairs", "every pair of names over a small alphabet: comparison and printing", (0, 0), pairs),
        ],
        assumptions: &["Rust's str and slice comparison are taken as the reference for equality"],
    });
}

fn valid(b: u8) -> bool {
    (b'A'..=b'Z').contains(&b) || (b'0'..=b'9').contains(&b) || b == b'-' || b == b'_'
}
fn expect(b: &[u8]) -> Result<(), MechanismNameError> {
    if b.is_empty() {
        return Err(MechanismNameError::TooShort);
    }
    for (index, &value) in b.iter().enumerate() {
        if !valid(value) {
            return Err(MechanismNameError::InvalidChar { index, value });
        }
    }
    Ok(())
}

fn one(ch: &mut Ch, how: &str, b: &[u8], r: Result<&Mechname, MechanismNameError>) {
    ch.step();
    let want = expect(b);
    ch.obs(&(b, how, r.is_ok()));
    match (r, want) {
        (Ok(m), Ok(())) => {
            let s = std::str::from_utf8(b).unwrap();
            let same = m.as_bytes() == b
                && m.as_str() == s
                && m.to_string() == s
                && format!("{m:>1}").contains(s)
                && &**m == s
                && m.len() == b.len()
                && *m == *b
                && *b == *m
                && *m == *s
                && *s == *m
                && format!("{m:?}").contains(s);
            ch.check(same, "name-text", || format!("{how} of {b:?} does not read back as the given text"));
            // nothing else compares equal
            let longer = format!("{s}A");
            let low = s.to_lowercase();
            for o in [longer.as_str(), &s[..s.len() - 1], low.as_str(), ""] {
                if o != s {
                    let eq = *m == *o || *o == *m || *m == *o.as_bytes() || *o.as_bytes() == *m;
                    ch.check(!eq, "name-compare", || format!("{s:?} compares equal to {o:?}"));
                }
            }
            ch.outcome("accepted");
        }
        (Err(e), Err(w)) => {
            ch.check(e == w, "name-error", || format!("{how} of {b:?}: error {e:?}, expected {w:?}"));
            if let MechanismNameError::InvalidChar { index, .. } = w {
                let t = e.to_string();
                ch.check(t.contains(&index.to_string()), "name-error-text", || {
                    format!("the text of the error does not name position {index}: {t}")
                });
            }
            ch.outcome(if matches!(w, MechanismNameError::TooShort) { "empty" } else { "invalid byte" });
        }
        (Ok(m), Err(w)) => {
            let got = m.as_bytes().to_vec();
            ch.fail("name-accepted", format!("{how} accepted {b:?} as {got:?}, expected {w:?}"));
        }
        (Err(e), Ok(())) => ch.fail("name-refused", format!("{how} refused {b:?}: {e:?}")),
    }
}

fn check(ch: &mut Ch, b: &[u8]) {
    ch.log(|| format!("name {:?}", crate::drive::show(b)));
    // look at the bytes of a refused name only if it really was refused: a wrongly accepted
    // non-ASCII name would be an invalid str
    one(ch, "parse", b, Mechname::parse(b));
    if ch.failed() {
        return;
    }
    one(ch, "try_from(bytes)", b, <&Mechname>::try_from(b));
    if let Ok(s) = std::str::from_utf8(b) {
        one(ch, "try_from(str)", b, <&Mechname>::try_from(s));
    }
    if expect(b).is_ok() {
        one(ch, "const_new_unchecked", b, Ok(Mechname::const_new_unchecked(b)));
    }
}

fn all_short(ch: &mut Ch) {
    let n = ch.choose(3);
    let b: Vec<u8> = (0..n).map(|_| ch.choose(256) as u8).collect();
    check(ch, &b);
}

const REPS: &[u8] = &[
    b'A', b'M', b'Z', b'0', b'9', b'-', b'_', b'@', b'[', b'/', b':', b'`', b'a', b'^', b',', b'.', b' ', 0, b'\n', 0x7f,
    0x80, 0xc3, 0xff,
];
fn classes(ch: &mut Ch) {
    let n = 3 + ch.choose(if ch.thorough { 3 } else { 2 });
    let b: Vec<u8> = (0..n).map(|_| *ch.pick(REPS)).collect();
    check(ch, &b);
}

fn positions(ch: &mut Ch) {
    let lens: Vec<usize> = (1..=70).chain([127, 128, 129, 254, 255, 256, 257, 300, 1000]).collect();
    let n = *ch.pick(&lens);
    let alpha = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
    let mut b: Vec<u8> = (0..n).map(|i| alpha[i % alpha.len()]).collect();
    let k = ch.choose(3);
    let ps: Vec<usize> = if n <= 70 { (0..n).collect() } else { vec![0, 1, 19, 20, 63, 64, 127.min(n - 1), 255.min(n - 1), n - 2, n - 1] };
    if k > 0 {
        let i = ch.choose(ps.len());
        b[ps[i]] = *ch.pick(&[b'a', b' ', 0u8, 0x80, b'[']);
        if k > 1 {
            let j = ch.choose(ps.len());
            b[ps[j]] = *ch.pick(&[b'z', b'@', 0xffu8]);
        }
    }
    check(ch, &b);
}

fn pairs(ch: &mut Ch) {
    let al = [b'A', b'B', b'-', b'_', b'0'];
    let max = if ch.thorough { 4 } else { 3 };
    let mk = |ch: &mut Ch| {
        let n = 1 + ch.choose(max);
        (0..n).map(|_| *ch.pick(&al)).collect::<Vec<u8>>()
    };
    let a = mk(ch);
    let b = mk(ch);
    ch.step();
    let (x, y) = (Mechname::parse(&a).lib("a valid name was refused"), Mechname::parse(&b).lib("a valid name was refused"));
    let (sa, sb) = (std::str::from_utf8(&a).unwrap(), std::str::from_utf8(&b).unwrap());
    let eq = a == b;
    let all = [x == y, y == x, *x == *sb, *sb == *x, *x == *b, *b == *x, !(x != y)];
    ch.obs(&(&a, &b, all));
    ch.check(all.iter().all(|e| *e == eq), "name-compare", || format!("comparison of {sa:?} and {sb:?}: {all:?}"));
    ch.outcome(if eq { "equal" } else { "different" });
}
