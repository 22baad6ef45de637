//! Drives a real Requester and a real Responder from /repo in one process, over a simulated link
//! and with stand-in cryptography, through a fixed script with fixed faults.
#![allow(dead_code)]
use crate::{crypto, exec};
use crate::plan::*;
use crate::world::*;

pub struct Done {
    pub ok: bool,
    pub err: String,
    pub val: u64,
    pub out: Vec<u8>,
}
pub struct Run {
    pub ops: Vec<Done>,
    pub ev: Vec<Ev>,
    pub trouble: Vec<String>, // panics and the like
}

/// `text` is a plan: cfg, op and fault lines, see plan.rs
pub fn run(text: &str) -> Run {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        exec::hook();
        crypto::register();
    });
    let p = Plan::parse(text).expect("plan");
    let o = exec::run(&p).world;
    let mut ops = vec![];
    for e in &o.ev {
        if let Ev::OpEnd { ok, err, val, out, .. } = e {
            ops.push(Done { ok: *ok, err: err.clone(), val: *val, out: out.clone() });
        }
    }
    Run { ops, trouble: o.viol.iter().map(|v| format!("{}: {}", v.what, v.detail)).collect(), ev: o.ev }
}

impl Run {
    /// what a node sent: session, application message?, bytes
    pub fn sent(&self, n: usize) -> Vec<(Option<u32>, bool, Vec<u8>)> {
        self.ev.iter().filter_map(|e| match e {
            Ev::Tx { node, sid, app, bytes, .. } if *node == n => Some((*sid, *app, bytes.clone())),
            _ => None,
        }).collect()
    }
    /// the state of a node after its last step
    pub fn last(&self, n: usize) -> Snap {
        self.ev.iter().rev().find_map(|e| match e {
            Ev::Snap { node, s } if *node == n => Some((**s).clone()),
            _ => None,
        }).unwrap()
    }
    pub fn show(&self) -> String {
        self.ops.iter().enumerate().map(|(i, o)| format!("op {} {} {} val {:x} out {} bytes\n", i, if o.ok { "ok" } else { "failed" }, o.err, o.val, o.out.len())).collect::<String>() + &self.trouble.join("\n")
    }
}

pub fn must(c: bool, what: &str, r: &Run) {
    if !c {
        println!("DEMO FAILED: {}\n{}", what, r.show());
        std::process::exit(1);
    }
}
