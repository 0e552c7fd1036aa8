//! A mechanism together with a client and a server application that share everything needed, and a
//! driver that stops at any message of the exchange.
use crate::app::App;
use crate::checks::util::{exporter, rich_client, rich_server};
use crate::drive::{no_cb, Cb, Out, Party, R};
use crate::explore::Ch;
use crate::{fakegss, mechs};

#[derive(Clone)]
pub struct Kit {
    pub mech: &'static str,
    pub capp: App,
    pub sapp: App,
    pub ccb: Cb,
    pub scb: Cb,
    pub gss: fakegss::Cfg,
}
impl Kit {
    pub fn new(mech: &'static str) -> Kit {
        let cb = if mechs::is_plus(mech) { exporter() } else { no_cb() };
        Kit { mech, capp: rich_client(), sapp: rich_server(), ccb: cb.clone(), scb: cb, gss: fakegss::Cfg::default() }
    }
    pub fn parties(&self) -> (Party, Party) {
        if self.mech == "GSSAPI" {
            fakegss::configure(self.gss.clone());
        }
        (Party::client(&self.capp, self.mech, self.ccb.clone()), Party::server(&self.sapp, self.mech, self.scb.clone()))
    }
    /// The same applications with empty logs
    pub fn fresh(&self) -> Kit {
        let mut k = self.clone();
        k.capp = k.capp.fresh();
        k.sapp = k.sapp.fresh();
        k
    }
    pub fn app(&self, client: bool) -> &App {
        if client {
            &self.capp
        } else {
            &self.sapp
        }
    }
}

/// An exchange that is advanced one delivery at a time
pub struct Walk {
    pub c: Party,
    pub s: Party,
    /// next to be stepped: the client?
    pub turn: bool,
    /// what it will be stepped with
    pub input: Option<Vec<u8>>,
    pub steps: usize,
    pub cr: Option<R>,
    pub sr: Option<R>,
    pub over: bool,
}
impl Walk {
    pub fn new(k: &Kit) -> Walk {
        let (c, s) = k.parties();
        let turn = c.first();
        Walk { c, s, turn, input: None, steps: 0, cr: None, sr: None, over: false }
    }
    pub fn target(&mut self) -> &mut Party {
        if self.turn {
            &mut self.c
        } else {
            &mut self.s
        }
    }
    /// The party whose turn it is has been stepped with the result `o`.
    pub fn took(&mut self, o: &Out) {
        self.steps += 1;
        if self.turn {
            self.cr = Some(o.r.clone());
        } else {
            self.sr = Some(o.r.clone());
        }
        self.turn = !self.turn;
        self.input = o.r.sent().then(|| o.bytes.clone());
        let other = if self.turn { &self.cr } else { &self.sr };
        if o.r.is_err() || other.as_ref().is_some_and(|r| r.fin() || r.is_err()) || self.steps > 24 {
            self.over = true;
        }
    }
    /// Delivers the pending message.
    pub fn advance(&mut self, ch: &mut Ch) -> Out {
        let i = self.input.take();
        let o = self.target().step(ch, i.as_deref());
        self.took(&o);
        o
    }
    pub fn finish(&mut self, ch: &mut Ch) {
        while !self.over {
            self.advance(ch);
        }
    }
    pub fn both_finished(&self) -> bool {
        self.cr.as_ref().is_some_and(R::fin) && self.sr.as_ref().is_some_and(R::fin)
    }
}

/// Walks to the delivery with the given number; `None` if the exchange is over before.
pub fn upto(ch: &mut Ch, k: &Kit, n: usize) -> Option<Walk> {
    let mut w = Walk::new(k);
    for _ in 0..n {
        if w.over {
            return None;
        }
        w.advance(ch);
    }
    (!w.over).then_some(w)
}
