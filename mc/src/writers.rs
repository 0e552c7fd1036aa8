//! Output writers under the control of the environment.
use std::io::{self, IoSlice, Write};

/// What the environment answers to one write call.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ans {
    /// take everything
    All,
    /// take at most n bytes
    Upto(usize),
    /// take all but the last n bytes (at least one, if there are any)
    AllBut(usize),
    Interrupted,
    Zero,
    Fail,
}

/// A writer that answers its calls from a script; further calls take everything.
pub struct Scripted {
    pub script: Vec<Ans>,
    pub calls: usize,
    pub got: Vec<u8>,
    /// sizes offered per call
    pub offered: Vec<usize>,
    pub vectored: bool,
    pub reported: Vec<Ans>,
    pub limit: usize,
    /// the kind of error that `Fail` is
    pub kind: io::ErrorKind,
}
/// The kinds of error a writer fails with (not `Interrupted`, which is no failure)
pub const KINDS: [io::ErrorKind; 18] = {
    use io::ErrorKind::*;
    [
        BrokenPipe, WouldBlock, TimedOut, UnexpectedEof, WriteZero, ConnectionReset, ConnectionAborted, ConnectionRefused,
        NotConnected, AddrInUse, AddrNotAvailable, NotFound, PermissionDenied, AlreadyExists, InvalidInput, InvalidData,
        Unsupported, Other,
    ]
};
impl Scripted {
    pub fn new(script: Vec<Ans>, vectored: bool) -> Self {
        Scripted { script, calls: 0, got: vec![], offered: vec![], vectored, reported: vec![], limit: 10_000, kind: io::ErrorKind::BrokenPipe }
    }
    fn answer(&mut self, offered: usize) -> io::Result<usize> {
        assert!(self.calls < self.limit, "the library keeps calling the writer");
        let a = self.script.get(self.calls).copied().unwrap_or(Ans::All);
        self.calls += 1;
        self.offered.push(offered);
        self.reported.push(a);
        match a {
            Ans::All => Ok(offered),
            Ans::Upto(n) => Ok(n.min(offered)),
            Ans::AllBut(n) => Ok(if offered == 0 { 0 } else { offered.saturating_sub(n).max(1) }),
            Ans::Interrupted => Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
            Ans::Zero => Ok(0),
            Ans::Fail => Err(io::Error::new(self.kind, "failed")),
        }
    }
}
impl Write for Scripted {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.answer(b.len())?;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        if !self.vectored {
            // the default of std: the first non-empty buffer
            let b: &[u8] = bufs.iter().find(|b| !b.is_empty()).map_or(&[], |b| &**b);
            return self.write(b);
        }
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        let n = self.answer(all.len())?;
        self.got.extend_from_slice(&all[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
