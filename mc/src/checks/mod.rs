//! The checks, one module per group of properties.
use crate::explore::Tree;

pub struct Check {
    pub id: &'static str,
    pub trees: Vec<Tree>,
    pub assumptions: &'static [&'static str],
}

pub mod cb;
pub mod cbs;
pub mod creds;
pub mod gss;
pub mod names;
pub mod nonce;
pub mod robust;
pub mod scram;
pub mod select;
pub mod sess;
pub mod share;
pub mod simple;
pub mod util;

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    simple::add(&mut v);
    names::add(&mut v);
    select::add(&mut v);
    scram::add(&mut v);
    cb::add(&mut v);
    nonce::add(&mut v);
    robust::add(&mut v);
    sess::add(&mut v);
    cbs::add(&mut v);
    gss::add(&mut v);
    creds::add(&mut v);
    share::add(&mut v);
    v
}
pub fn get(id: &str) -> Option<Check> {
    all().into_iter().find(|c| c.id == id)
}

pub fn tree(name: &'static str, what: &'static str, bound: (usize, usize), f: crate::explore::TreeFn) -> Tree {
    Tree { name, what, bound, f }
}

/// Entry point of child processes started by checks.
pub fn helper(args: &[&str]) -> i32 {
    match args {
        ["nonces"] => nonce::helper(),
        ["solo", k, bind] => share::helper(k, bind),
        _ => 2,
    }
}
