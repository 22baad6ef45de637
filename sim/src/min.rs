//! Shrinks a failing plan: fewer faults, fewer operations, plainer configuration, as long as the
//! same violation remains.

use crate::check::judge;
use crate::exec;
use crate::plan::*;

pub fn shows(p: &Plan, prop: &str, what: &str) -> bool {
    let o = exec::run(p);
    judge(p, &o.world).viol.iter().any(|v| v.prop == prop && v.what == what)
}

/// Removing an operation that opens a session renumbers the ones after it.
fn without(p: &Plan, i: usize) -> Plan {
    let mut q = p.clone();
    let opens = |o: &Op| matches!(o.k, OpK::StartSession | OpK::KeyExchange | OpK::PskExchange);
    if opens(&q.ops[i]) {
        let id = q.ops[..i].iter().filter(|o| opens(o)).count() as i64;
        for o in q.ops.iter_mut() {
            let uses = matches!(
                o.k,
                OpK::Heartbeat | OpK::KeyUpdate | OpK::EndSession | OpK::App | OpK::RawSecured | OpK::Measure | OpK::Digest | OpK::Certificate | OpK::Vendor | OpK::Finish | OpK::MutAuth | OpK::PskFinish | OpK::SetSeq
            );
            if uses && o.p[0] > id {
                o.p[0] -= 1;
            } else if uses && o.p[0] == id {
                o.p[0] = 99;
            }
        }
    }
    q.ops.remove(i);
    q
}

pub fn minimise(p: &Plan, prop: &str, what: &str, budget: usize) -> Plan {
    let mut best = p.clone();
    let mut left = budget;
    let try_one = |q: &Plan, left: &mut usize| -> bool {
        if *left == 0 {
            return false;
        }
        *left -= 1;
        shows(q, prop, what)
    };
    // everything after the violating operation goes first
    let mut hi = best.ops.len();
    let mut lo = 0;
    while lo < hi {
        let mid = (lo + hi) / 2;
        let mut q = best.clone();
        q.ops.truncate(mid);
        if try_one(&q, &mut left) {
            hi = mid;
        } else {
            lo = mid + 1;
        }
        if left == 0 {
            break;
        }
    }
    let mut q = best.clone();
    q.ops.truncate(hi);
    if try_one(&q, &mut left) {
        best = q;
    }
    loop {
        let mut changed = false;
        let mut i = best.faults.len();
        while i > 0 {
            i -= 1;
            let mut q = best.clone();
            q.faults.remove(i);
            if try_one(&q, &mut left) {
                best = q;
                changed = true;
            }
        }
        let mut i = best.ops.len();
        while i > 0 {
            i -= 1;
            if i >= best.ops.len() {
                continue;
            }
            let q = without(&best, i);
            if try_one(&q, &mut left) {
                best = q;
                changed = true;
            }
        }
        if !changed || left == 0 {
            break;
        }
    }
    let d = Cfg::default();
    for n in Cfg::names() {
        if n == "seed" || best.cfg.get(n) == d.get(n) {
            continue;
        }
        let mut q = best.clone();
        q.cfg.set(n, d.get(n).unwrap());
        if try_one(&q, &mut left) {
            best = q;
        }
    }
    for i in 0..best.ops.len() {
        if best.ops[i].data.len() > 4 {
            let mut q = best.clone();
            let n = q.ops[i].data.len();
            q.ops[i].data = vec![0; n];
            if try_one(&q, &mut left) {
                best = q;
            }
        }
    }
    best
}
