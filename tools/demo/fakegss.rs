//! A stand-in for the system GSS-API, so that the GSSAPI mechanism can be explored without a
//! Kerberos realm.  The functions below take precedence over the ones of the system library when
//! the checker is linked.  The environment (number of context tokens, context flags, failing calls)
//! is chosen by the explorer through a thread local configuration.
//!
//! A context is established by `rounds` tokens sent alternately, the initiator first.  The producer
//! of the last token completes when producing it, its receiver when receiving it.  Wrapped messages
//! carry the protection level, the direction, a per-direction sequence number, the context number
//! and a checksum; unwrap refuses anything not produced by the other end of the same context.
#![allow(clippy::missing_safety_doc, non_camel_case_types)]
use std::cell::RefCell;
use std::os::raw::{c_int, c_void};

pub const MUTUAL: u32 = 2;
pub const CONF: u32 = 16;
pub const INTEG: u32 = 32;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub rounds: u32,
    /// flags of the established context
    pub flags: u32,
    /// display name of the initiator
    pub client: Vec<u8>,
    /// index of the call (in order, per thread) that fails
    pub fail_call: Option<usize>,
    /// the acceptor refuses the initiator at this token
    pub refuse_at: Option<u32>,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { rounds: 2, flags: 0xff & !1, client: b"alice@REALM".to_vec(), fail_call: None, refuse_at: None }
    }
}

#[derive(Default, Debug, Clone)]
pub struct Log {
    pub calls: Vec<&'static str>,
    /// target names imported
    pub targets: Vec<Vec<u8>>,
    /// (initiator, confidential, payload) of every wrap
    pub wraps: Vec<(bool, bool, Vec<u8>)>,
    pub established: [bool; 2],
}

thread_local! {
    static CFG: RefCell<Cfg> = RefCell::new(Cfg::default());
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}
pub fn configure(c: Cfg) {
    CFG.with(|x| *x.borrow_mut() = c);
    LOG.with(|x| *x.borrow_mut() = Log::default());
}
/// Changes the settings and keeps the log.
pub fn settings(c: Cfg) {
    CFG.with(|x| *x.borrow_mut() = c);
}
pub fn log() -> Log {
    LOG.with(|x| x.borrow().clone())
}

const FAILURE: u32 = 13 << 16;
const DEFECTIVE: u32 = 9 << 16;
const BAD_SIG: u32 = 6 << 16;
const NO_CONTEXT: u32 = 8 << 16;

#[repr(C)]
pub struct Buf {
    len: usize,
    val: *mut c_void,
}
#[repr(C)]
pub struct Oid {
    len: u32,
    el: *mut c_void,
}
#[repr(C)]
pub struct OidSet {
    count: usize,
    el: *mut Oid,
}
struct Name(Vec<u8>);
struct Cred(#[allow(dead_code)] c_int);
struct Ctx {
    init: bool,
    next: u32,
    done: bool,
    flags: u32,
    client: Vec<u8>,
    target: Vec<u8>,
    rounds: u32,
    tx: u32,
    rx: u32,
}

fn call(n: &'static str) -> bool {
    let i = LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.calls.push(n);
        l.calls.len() - 1
    });
    CFG.with(|c| c.borrow().fail_call != Some(i))
}
unsafe fn bytes(b: *const Buf) -> Vec<u8> {
    if b.is_null() || (*b).val.is_null() || (*b).len == 0 {
        return vec![];
    }
    std::slice::from_raw_parts((*b).val as *const u8, (*b).len).to_vec()
}
unsafe fn put(b: *mut Buf, d: &[u8]) {
    if b.is_null() {
        return;
    }
    let p = libc::malloc(d.len().max(1)) as *mut u8;
    std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
    (*b).len = d.len();
    (*b).val = p.cast();
}
unsafe fn minor(m: *mut u32) {
    if !m.is_null() {
        *m = 0;
    }
}

#[no_mangle]
pub unsafe extern "C" fn gss_import_name(m: *mut u32, b: *mut Buf, _t: *mut Oid, out: *mut *mut c_void) -> u32 {
    minor(m);
    if !call("import_name") {
        return FAILURE;
    }
    let v = bytes(b);
    LOG.with(|l| l.borrow_mut().targets.push(v.clone()));
    *out = Box::into_raw(Box::new(Name(v))).cast();
    0
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_name(m: *mut u32, n: *mut *mut c_void) -> u32 {
    minor(m);
    if !n.is_null() && !(*n).is_null() {
        drop(Box::from_raw((*n).cast::<Name>()));
        *n = std::ptr::null_mut();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn gss_duplicate_name(m: *mut u32, n: *mut c_void, out: *mut *mut c_void) -> u32 {
    minor(m);
    *out = Box::into_raw(Box::new(Name((*n.cast::<Name>()).0.clone()))).cast();
    0
}
#[no_mangle]
pub unsafe extern "C" fn gss_display_name(m: *mut u32, n: *mut c_void, b: *mut Buf, t: *mut *mut Oid) -> u32 {
    minor(m);
    if !call("display_name") {
        return FAILURE;
    }
    put(b, &(*n.cast::<Name>()).0);
    if !t.is_null() {
        *t = std::ptr::null_mut();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn gss_create_empty_oid_set(m: *mut u32, out: *mut *mut OidSet) -> u32 {
    minor(m);
    *out = Box::into_raw(Box::new(OidSet { count: 0, el: std::ptr::null_mut() }));
    0
}
#[no_mangle]
pub unsafe extern "C" fn gss_add_oid_set_member(m: *mut u32, _o: *mut Oid, s: *mut *mut OidSet) -> u32 {
    minor(m);
    // membership is all that is needed; the elements are never read back
    (**s).count += 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gss_test_oid_set_member(m: *mut u32, _o: *mut Oid, s: *mut OidSet, r: *mut c_int) -> u32 {
    minor(m);
    *r = c_int::from((*s).count > 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_oid_set(m: *mut u32, s: *mut *mut OidSet) -> u32 {
    minor(m);
    if !s.is_null() && !(*s).is_null() {
        drop(Box::from_raw(*s));
        *s = std::ptr::null_mut();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn gss_acquire_cred(
    m: *mut u32,
    _name: *mut c_void,
    _time: u32,
    _mechs: *mut OidSet,
    usage: c_int,
    out: *mut *mut c_void,
    actual: *mut *mut OidSet,
    time: *mut u32,
) -> u32 {
    minor(m);
    if !call("acquire_cred") {
        return FAILURE;
    }
    *out = Box::into_raw(Box::new(Cred(usage))).cast();
    if !actual.is_null() {
        *actual = std::ptr::null_mut();
    }
    if !time.is_null() {
        *time = 3600;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_cred(m: *mut u32, c: *mut *mut c_void) -> u32 {
    minor(m);
    if !c.is_null() && !(*c).is_null() {
        drop(Box::from_raw((*c).cast::<Cred>()));
        *c = std::ptr::null_mut();
    }
    0
}

fn token(i: u32, rounds: u32, client: &[u8], flags: u32) -> Vec<u8> {
    let mut t = format!("GSS{i}/{rounds}:").into_bytes();
    t.extend_from_slice(&flags.to_le_bytes());
    t.extend_from_slice(client);
    t
}

#[no_mangle]
pub unsafe extern "C" fn gss_init_sec_context(
    m: *mut u32,
    _cred: *mut c_void,
    ctx: *mut *mut c_void,
    target: *mut c_void,
    _mech: *mut Oid,
    _req: u32,
    _time: u32,
    _cb: *mut c_void,
    input: *mut Buf,
    mech: *mut *mut Oid,
    output: *mut Buf,
    flags: *mut u32,
    time: *mut u32,
) -> u32 {
    minor(m);
    if !output.is_null() {
        (*output).len = 0;
        (*output).val = std::ptr::null_mut();
    }
    if !call("init_sec_context") {
        return FAILURE;
    }
    let cfg = CFG.with(|c| c.borrow().clone());
    if !mech.is_null() {
        *mech = std::ptr::null_mut();
    }
    if (*ctx).is_null() {
        *ctx = Box::into_raw(Box::new(Ctx {
            init: true,
            next: 1,
            done: false,
            flags: cfg.flags,
            client: cfg.client.clone(),
            target: if target.is_null() { vec![] } else { (*target.cast::<Name>()).0.clone() },
            rounds: cfg.rounds,
            tx: 0,
            rx: 0,
        }))
        .cast();
    } else {
        let c = &mut *(*ctx).cast::<Ctx>();
        if bytes(input) != token(c.next, c.rounds, &c.client, c.flags) {
            return DEFECTIVE;
        }
        c.next += 1;
    }
    let c = &mut *(*ctx).cast::<Ctx>();
    if c.next <= c.rounds {
        put(output, &token(c.next, c.rounds, &c.client, c.flags));
        c.next += 1;
    }
    if !flags.is_null() {
        *flags = c.flags;
    }
    if !time.is_null() {
        *time = 3600;
    }
    if c.next > c.rounds {
        c.done = true;
        LOG.with(|l| l.borrow_mut().established[0] = true);
        0
    } else {
        1
    }
}

#[no_mangle]
pub unsafe extern "C" fn gss_accept_sec_context(
    m: *mut u32,
    ctx: *mut *mut c_void,
    _cred: *mut c_void,
    input: *mut Buf,
    _cb: *mut c_void,
    src: *mut *mut c_void,
    mech: *mut *mut Oid,
    output: *mut Buf,
    flags: *mut u32,
    time: *mut u32,
    deleg: *mut *mut c_void,
) -> u32 {
    minor(m);
    if !output.is_null() {
        (*output).len = 0;
        (*output).val = std::ptr::null_mut();
    }
    if !call("accept_sec_context") {
        return FAILURE;
    }
    let cfg = CFG.with(|c| c.borrow().clone());
    for p in [src, deleg] {
        if !p.is_null() {
            *p = std::ptr::null_mut();
        }
    }
    if !mech.is_null() {
        *mech = std::ptr::null_mut();
    }
    let want = if (*ctx).is_null() { 1 } else { (*(*ctx).cast::<Ctx>()).next };
    if bytes(input) != token(want, cfg.rounds, &cfg.client, cfg.flags) || cfg.refuse_at == Some(want) {
        return DEFECTIVE;
    }
    if (*ctx).is_null() {
        *ctx = Box::into_raw(Box::new(Ctx {
            init: false,
            next: 1,
            done: false,
            flags: cfg.flags,
            client: cfg.client.clone(),
            target: b"service@host".to_vec(),
            rounds: cfg.rounds,
            tx: 0,
            rx: 0,
        }))
        .cast();
    }
    let c = &mut *(*ctx).cast::<Ctx>();
    c.next += 1;
    if c.next <= c.rounds {
        put(output, &token(c.next, c.rounds, &c.client, c.flags));
        c.next += 1;
    }
    if !flags.is_null() {
        *flags = c.flags;
    }
    if !time.is_null() {
        *time = 3600;
    }
    if c.next > c.rounds {
        c.done = true;
        LOG.with(|l| l.borrow_mut().established[1] = true);
        0
    } else {
        1
    }
}

#[no_mangle]
pub unsafe extern "C" fn gss_delete_sec_context(m: *mut u32, c: *mut *mut c_void, out: *mut Buf) -> u32 {
    minor(m);
    if !out.is_null() {
        (*out).len = 0;
        (*out).val = std::ptr::null_mut();
    }
    if !c.is_null() && !(*c).is_null() {
        drop(Box::from_raw((*c).cast::<Ctx>()));
        *c = std::ptr::null_mut();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn gss_inquire_context(
    m: *mut u32,
    ctx: *mut c_void,
    src: *mut *mut c_void,
    targ: *mut *mut c_void,
    time: *mut u32,
    mech: *mut *mut Oid,
    flags: *mut u32,
    local: *mut c_int,
    open: *mut c_int,
) -> u32 {
    minor(m);
    if !call("inquire_context") {
        return FAILURE;
    }
    if ctx.is_null() {
        return NO_CONTEXT;
    }
    let c = &*ctx.cast::<Ctx>();
    if !src.is_null() {
        *src = Box::into_raw(Box::new(Name(c.client.clone()))).cast();
    }
    if !targ.is_null() {
        *targ = Box::into_raw(Box::new(Name(c.target.clone()))).cast();
    }
    if !time.is_null() {
        *time = 3600;
    }
    if !mech.is_null() {
        *mech = std::ptr::null_mut();
    }
    if !flags.is_null() {
        *flags = c.flags;
    }
    if !local.is_null() {
        *local = c_int::from(c.init);
    }
    if !open.is_null() {
        *open = c_int::from(c.done);
    }
    0
}
fn sum(d: &[u8]) -> u8 {
    d.iter().fold(0x3cu8, |a, b| a.rotate_left(1) ^ *b)
}
/// `W`, sender (I/A), level (C/I), sequence number, payload, checksum
pub fn seal(init: bool, conf: bool, seq: u32, d: &[u8]) -> Vec<u8> {
    let mut o = vec![b'W', if init { b'I' } else { b'A' }, if conf { b'C' } else { b'I' }, seq as u8];
    o.extend(d.iter().map(|x| if conf { x ^ 0x5a } else { *x }));
    let s = sum(&o);
    o.push(s);
    o
}
/// Opens a token sealed by the given side; sequence numbers are not checked.
pub fn open(t: &[u8]) -> Option<(bool, bool, u8, Vec<u8>)> {
    if t.len() < 5 || t[0] != b'W' || sum(&t[..t.len() - 1]) != t[t.len() - 1] {
        return None;
    }
    let conf = t[2] == b'C';
    Some((
        t[1] == b'I',
        conf,
        t[3],
        t[4..t.len() - 1].iter().map(|x| if conf { x ^ 0x5a } else { *x }).collect(),
    ))
}
#[no_mangle]
pub unsafe extern "C" fn gss_wrap(
    m: *mut u32,
    ctx: *mut c_void,
    conf: c_int,
    _qop: u32,
    input: *mut Buf,
    conf_state: *mut c_int,
    output: *mut Buf,
) -> u32 {
    minor(m);
    if !call("wrap") {
        return FAILURE;
    }
    if ctx.is_null() || !(*ctx.cast::<Ctx>()).done {
        return NO_CONTEXT;
    }
    let c = &mut *ctx.cast::<Ctx>();
    // like Kerberos: without confidentiality in the context the data is only integrity protected
    let conf = conf != 0 && c.flags & CONF != 0;
    let d = bytes(input);
    put(output, &seal(c.init, conf, c.tx, &d));
    LOG.with(|l| l.borrow_mut().wraps.push((c.init, conf, d)));
    c.tx += 1;
    if !conf_state.is_null() {
        *conf_state = c_int::from(conf);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn gss_unwrap(
    m: *mut u32,
    ctx: *mut c_void,
    input: *mut Buf,
    output: *mut Buf,
    conf_state: *mut c_int,
    qop: *mut u32,
) -> u32 {
    minor(m);
    if !output.is_null() {
        (*output).len = 0;
        (*output).val = std::ptr::null_mut();
    }
    if !call("unwrap") {
        return FAILURE;
    }
    if ctx.is_null() || !(*ctx.cast::<Ctx>()).done {
        return NO_CONTEXT;
    }
    let c = &mut *ctx.cast::<Ctx>();
    match open(&bytes(input)) {
        Some((init, conf, seq, d)) if init != c.init && u32::from(seq) == c.rx => {
            c.rx += 1;
            put(output, &d);
            if !conf_state.is_null() {
                *conf_state = c_int::from(conf);
            }
            if !qop.is_null() {
                *qop = 0;
            }
            0
        }
        _ => BAD_SIG,
    }
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_buffer(m: *mut u32, b: *mut Buf) -> u32 {
    minor(m);
    if !b.is_null() && !(*b).val.is_null() {
        libc::free((*b).val);
        (*b).val = std::ptr::null_mut();
        (*b).len = 0;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn gss_display_status(
    m: *mut u32,
    _s: u32,
    _t: c_int,
    _o: *mut Oid,
    ctx: *mut u32,
    out: *mut Buf,
) -> u32 {
    minor(m);
    if !ctx.is_null() {
        *ctx = 0;
    }
    put(out, b"status");
    0
}
