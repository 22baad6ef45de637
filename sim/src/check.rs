//! Judges the recorded history of one execution against the reference model.
//!
//! Two shadow parties (requester, responder) replay the history from their own side: what each
//! sent, what reached it, which exchanges it accepted. From that they derive the transcripts,
//! signatures, MACs, keys and states the specification prescribes, and compare.

use crate::crypto as mc;
use crate::model::*;
use crate::plan::*;
use crate::prim::*;
use crate::wire::*;
use crate::world::*;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Default)]
struct Ses {
    sid: u32,
    psk: bool,
    neg: Neg,
    a: Vec<u8>,
    ct: Vec<u8>,
    k: Vec<u8>,
    hs: Hs,
    mut_req: u8,
    hb: u8,            // heartbeat period of the exchange response
    secver: Option<u8>, // secured message version it selects
    finished: bool,
    refused: bool, // its finish was refused
    tainted: bool, // keys no longer predictable
    req: Vec<Dir>, // phases of the request direction: handshake, data, updates
    rsp: Vec<Dir>,
    conf: [usize; 2],   // lowest phase still in force, by direction
    tries: [usize; 2],  // updates started since
    pending: u8,        // update operation in progress
    enc: [(usize, u64); 2], // [direction as sender][phase, next seq]
    dec: (usize, u64),
    dec_any: bool,
    born: usize,
}

#[derive(Clone, Default)]
struct Party {
    node: usize,
    stage: u8, // 0 nothing, 1 version, 2 capabilities, 3 algorithms
    a: Vec<u8>,
    neg: Neg,
    b: Vec<Vec<u8>>,
    b_exact: bool,
    lost: bool,   // a local failure while connecting: what the node's transcript holds is its own business
    b_lost: bool, // the same, for the exchanges a challenge covers
    m_lost: HashSet<Option<u32>>,
    b_all: Vec<Vec<u8>>,
    m: HashMap<Option<u32>, (Vec<u8>, bool)>,
    sess: BTreeMap<u32, Ses>,
    chain: Vec<u8>, // requester chain as last retrieved
    chain_part: Vec<u8>,
    digests: Option<(u8, Vec<u8>)>,
    shown: bool, // a certificate or a challenge has been answered in this connection
    draws: Vec<(Vec<u8>, bool)>, // random draws of the current op or step
    pubs: Vec<Vec<u8>>,
    seam: bool,      // a local fault struck in the current op or step
    rx: Vec<(Option<u32>, bool, Vec<u8>)>,
    last: Option<Box<Snap>>,
    touched: HashSet<u32>,
    reset: bool,
    gone: HashSet<u32>,
    neg_ct: u64, // the time exponent of the accepted CAPABILITIES
    ct: u64, // largest response time exponent announced in this connection
    sizes: [u64; 2], // peer limits: data transfer size of requester, responder
}

#[derive(Clone)]
struct Pend {
    sid: Option<u32>,
    app: bool,
    q: Vec<u8>,
    r: Option<(Option<u32>, bool, Vec<u8>)>,
}

type Last = Option<(Vec<u8>, Option<(Option<u32>, bool, Vec<u8>)>)>;

struct Enc {
    node: usize,
    sid: u32,
    ses: usize,
    ord: usize,
    plain: Vec<u8>,
    used: bool,
}

pub struct Ck<'a> {
    plan: &'a Plan,
    cfg: Cfg,
    pub viol: Vec<Violation>,
    pub probes: BTreeMap<&'static str, u64>,
    pub covered: BTreeMap<&'static str, u64>, // judged events per kind of check
    pub states: HashSet<u64>,
    pt: [Party; 2],
    sign: HashMap<Vec<u8>, (usize, u64, Vec<u8>)>,
    content: Option<u8>, // content-changed field of the measurement just accepted
    term: Option<bool>, // termination policy of the exchange just answered
    agree: bool, // the requester has just completed its setup
    foreseen: HashMap<Vec<u8>, (usize, u64, Vec<u8>)>, // signatures the network delivered before they were made
    pre: HashMap<Vec<u8>, Vec<u8>>,
    dhe: HashMap<(usize, Vec<u8>, Vec<u8>), Vec<u8>>,
    encs: HashMap<(Vec<u8>, Vec<u8>), Enc>,
    keyuse: HashMap<Vec<u8>, (usize, u32, usize, usize)>, // key -> sender, sid, instance, phase kind
    ord: usize,
    last_rx_ord: HashMap<(usize, u32), usize>,
    pend: Option<Pend>,
    step: Option<Pend>,
    step_tx: u32,
    step_rx: u32,
    step_fail: bool,
    disturbed: bool, // any fault so far, or something else than correct use
    op_disturbed: bool,
    vouched: HashSet<Vec<u8>>, // MACs by a responder over what it made the requester hold
    evil: [bool; 2], // the node deviated inside its own protected messages
    recovered: bool,
    op: usize,
    in_op: bool,
    dev: u64,
    born: usize,
    op_app: Vec<(u32, Vec<u8>, Vec<u8>, bool)>,
    op_vendor: Vec<(Vec<u8>, Vec<u8>, bool)>,
    nonces: HashSet<Vec<u8>>,
    op_sids: Vec<u32>,
    answers: Vec<(Option<u32>, bool, Vec<u8>, Vec<u8>)>, // what the honest responder sent (channel, kind, message) and the request it answered
    faults: u64,
    op_commits: Vec<u8>,
    seq_set: bool,
    // what the client may count on
    cl_sids: Vec<u32>,
    cl_ready: bool,         // negotiation succeeded and nothing reset it
    cl_b: usize,            // what a challenge would have to cover by now
    cl_dirty: bool,         // the two sides may have noted different messages for it
    cl_cert: bool,          // chain of slot 0 retrieved since then
    cl_live: HashSet<u32>,  // sessions set up since then and not ended
    cl_lost: usize,         // failed attempts since then: the peer may keep a half-open session
    cl_held: HashSet<u32>,  // sessions the requester still holds, whenever set up
    op_ready: bool,
    op_tx: u32,  // packets the requester sent in this operation
    quiet: bool, // nothing was under way when the operation began
    op_again: bool, // whatever happened before, both sides agree on all this operation needs
}

fn who(n: usize) -> &'static str {
    if n == REQ {
        "requester"
    } else {
        "responder"
    }
}
fn dirname(d: usize) -> &'static str {
    if d == 0 {
        "request"
    } else {
        "response"
    }
}

pub fn hashed() -> bool {
    cfg!(feature = "hashed")
}

fn local(k: FaultK) -> bool {
    matches!(k, FaultK::Seam | FaultK::SendErr | FaultK::SendErrDelivered | FaultK::RecvErr)
}

impl<'a> Ck<'a> {
    fn new(plan: &'a Plan) -> Ck<'a> {
        let mut p = [Party::default(), Party::default()];
        p[1].node = 1;
        Ck {
            plan,
            cfg: plan.cfg.clone(),
            viol: vec![],
            probes: BTreeMap::new(),
            covered: BTreeMap::new(),
            states: HashSet::new(),
            pt: p,
            sign: HashMap::new(),
            foreseen: HashMap::new(),
            term: None,
            content: None,
            agree: false,
            pre: HashMap::new(),
            dhe: HashMap::new(),
            encs: HashMap::new(),
            keyuse: HashMap::new(),
            ord: 0,
            last_rx_ord: HashMap::new(),
            pend: None,
            step: None,
            step_tx: 0,
            step_rx: 0,
            step_fail: false,
            disturbed: false,
            op_disturbed: false,
            vouched: HashSet::new(),
            evil: [false; 2],
            recovered: false,
            cl_sids: vec![],
            cl_ready: false,
            cl_b: 0,
            cl_cert: false,
            cl_dirty: false,
            cl_live: HashSet::new(),
            cl_held: HashSet::new(),
            cl_lost: 0,
            op_ready: false,
            op_again: false,
            quiet: true,
            op_tx: 0,
            op: 0,
            in_op: false,
            dev: 0,
            born: 0,
            op_app: vec![],
            op_vendor: vec![],
            nonces: HashSet::new(),
            op_sids: vec![],
            answers: vec![],
            faults: 0,
            op_commits: vec![],
            seq_set: false,
        }
    }

    fn bad(&mut self, prop: &'static str, what: impl Into<String>, detail: impl Into<String>) {
        let what = what.into();
        if !self.viol.iter().any(|v| v.prop == prop && v.what == what) {
            let detail = format!("op {} ({}): {}", self.op, self.plan.ops.get(self.op).map(|o| o.k.name()).unwrap_or("-"), detail.into());
            self.viol.push(Violation { prop, what, detail });
        }
    }
    fn cover(&mut self, s: &'static str) {
        *self.covered.entry(s).or_insert(0) += 1;
    }
    fn probe(&mut self, s: &'static str) {
        *self.probes.entry(s).or_insert(0) += 1;
    }
    fn doe(&self) -> bool {
        self.cfg.transport == 1
    }

    /// identity the requester may trust
    fn genuine_rsp(&self) -> bool {
        // without a provisioned root any chain that is sound in itself will do
        matches!(self.cfg.rsp_ident, 0 | 4) || (self.cfg.rsp_ident == 1 && self.cfg.req_root == 0)
    }

    fn run(&mut self, ev: &[Ev]) {
        for e in ev {
            self.event(e);
        }
    }

    fn event(&mut self, e: &Ev) {
        // of a node that has left the protocol nothing can be said; its peer stays under judgement
        if self.evil[0] || self.evil[1] {
            match e {
                Ev::Snap { node, .. } | Ev::Dec { node, .. } | Ev::Touch { node, .. } if *node < 2 && self.evil[*node] => return,
                Ev::Tx { node, .. } | Ev::Rx { node, .. } | Ev::Wait { node, .. } if *node == REQ && self.evil[REQ] => return,
                Ev::Tx { node, .. } | Ev::Rx { node, .. } | Ev::RxRaw { node, .. } if *node == RSP && self.evil[RSP] => return,
                Ev::AppCall { .. } | Ev::VendorCall { .. } | Ev::StepEnd { .. } if self.evil[RSP] => return,
                _ => {}
            }
        }
        match e {
            Ev::OpStart { i, quiet } => {
                self.op = *i;
                self.in_op = true;
                self.op_disturbed = false;
                self.pend = None;
                self.op_app.clear();
                self.op_vendor.clear();
                self.op_sids.clear();
                self.op_commits.clear();
                self.client_before();
                self.quiet = *quiet;
                self.op_tx = 0;
                self.op_again = *quiet && self.in_step(&self.plan.ops[*i]);
                let p = &mut self.pt[REQ];
                p.draws.clear();
                p.pubs.clear();
                p.rx.clear();
                p.seam = false;
                let o = &self.plan.ops[*i];
                if matches!(o.k, OpK::Finish | OpK::PskFinish) && o.p[0] >= 0 {
                    // the side that cannot finish a session gives it up
                    let sid = self.cl_sids.get(o.p[0] as usize).copied().unwrap_or(0);
                    self.pt[REQ].touched.insert(sid);
                }
                match o.k {
                    OpK::CrashReq | OpK::CrashRsp | OpK::Inject | OpK::InjectOld | OpK::RawClear | OpK::RawSecured | OpK::EvilFinish | OpK::SetSeq | OpK::FlushNet | OpK::AbandonSid => {
                        self.disturbed = true
                    }
                    OpK::SetMeas => self.dev += 1,
                    _ => {}
                }
            }
            Ev::OpEnd { ok, err, val, out, .. } => self.op_end(*ok, err, *val, out),
            Ev::Wait { node, timeout } => {
                if *node == REQ {
                    let ct = self.pt[REQ].ct;
                    let us = |ct: u64| if ct < 63 { 2u64 << ct } else { u64::MAX };
                    let st1 = 1_000_000u64;
                    // requests the specification always times by ST1, always by the time exponent, the rest
                    let code = self.pend.as_ref().filter(|p| !p.app && p.r.is_none() && !matches!(self.plan.ops[self.op].k, OpK::RawClear | OpK::RawSecured | OpK::EvilFinish)).and_then(|p| p.q.get(1)).copied().unwrap_or(0);
                    let neg = us(self.pt[REQ].neg_ct);
                    let (min, max) = match code {
                        GET_VERSION | GET_CAPABILITIES | NEGOTIATE_ALGORITHMS | END_SESSION | VENDOR => (st1, st1),
                        CHALLENGE | GET_MEASUREMENTS => (neg, us(ct)),
                        _ => (st1.min(neg), st1.max(us(ct))),
                    };
                    self.cover("wait bounded");
                    if *timeout < min && !self.evil[REQ] {
                        self.bad("C16", "a response is given up before the protocol's timeout", format!("{} us, {:x} allows {} us", timeout, code, min));
                    }
                    if *timeout > max {
                        self.bad("C16", "a response is awaited longer than the protocol's timeout", format!("{} us, limit {} us", timeout, max));
                    }
                }
            }
            Ev::StepStart => {
                self.step = None;
                self.step_tx = 0;
                self.step_rx = 0;
                self.step_fail = false;
                let p = &mut self.pt[RSP];
                p.draws.clear();
                p.pubs.clear();
                p.seam = false;
            }
            Ev::StepEnd { ret } => {
                if self.pt[RSP].seam {
                    self.cover("step with a failed local primitive");
                }
                self.step_end(*ret)
            }
            Ev::RxRaw { node, sid, .. } => {
                if *node == RSP {
                    self.step_rx += 1;
                }
                if let Some(s) = sid {
                    self.pt[*node].touched.insert(*s);
                }
            }
            Ev::Rx { node, sid, app, bytes, .. } => {
                if *node == REQ {
                    if bytes.len() > 5 && bytes[1] == 0x61 {
                        self.pt[REQ].ct = self.pt[REQ].ct.max(bytes[5] as u64);
                    }
                    if let Some(p) = &mut self.pend {
                        if p.r.is_none() {
                            p.r = Some((*sid, *app, bytes.clone()));
                        }
                    }
                } else {
                    self.step = Some(Pend { sid: *sid, app: *app, q: bytes.clone(), r: None });
                }
                if let Some(s) = sid {
                    self.pt[*node].touched.insert(*s);
                } else if self.pt[*node].neg.clear() && (*node == REQ || bytes.get(1) == Some(&FINISH)) {
                    if let Some(s) = self.clear_sid(*node) {
                        self.pt[*node].touched.insert(s);
                    }
                }
            }
            Ev::Tx { node, sid, app, bytes, .. } => {
                self.cover("packet searched for secrets");
                if *node == REQ {
                    self.op_tx += 1;
                    self.req_tx(*sid, *app, bytes)
                } else {
                    self.rsp_tx(*sid, *app, bytes)
                }
            }
            Ev::Touch { node, sid } => {
                if *node < 2 {
                    self.pt[*node].touched.insert(*sid);
                }
            }
            Ev::SendFail { node } => {
                if *node == RSP {
                    self.step_fail = true;
                }
            }
            Ev::Sign { node, key, data, sig, .. } => {
                self.sign.insert(sig.clone(), (*node, *key, data.clone()));
            }
            Ev::Vouched { mac } => {
                self.vouched.insert(mac.clone());
            }
            // a message altered in transit may hold a signature its signer makes only if it is asked
            Ev::Verify { key, data, sig, ok: true, .. } => {
                if !self.sign.contains_key(sig) && self.plan.faults.iter().map(|f| &f.data).chain(self.plan.ops.iter().map(|o| &o.data)).any(|d| d.len() >= sig.len() && d.windows(sig.len()).any(|w| w == &sig[..])) {
                    let signer = if *key == crate::crypto::signing_key(&self.cfg, RSP) { RSP } else { REQ };
                    self.foreseen.insert(sig.clone(), (signer, *key, data.clone()));
                }
            }
            Ev::Hash { out, data, .. } => {
                self.pre.insert(out.clone(), data.clone());
            }
            Ev::DheGen { node, public, .. } => {
                if *node < 2 {
                    self.pt[*node].pubs.push(public.clone());
                }
            }
            Ev::DheFinal { node, public, peer, secret, .. } => {
                if let Some(s) = secret {
                    self.dhe.insert((*node, public.clone(), peer.clone()), s.clone());
                }
            }
            Ev::Rand { node, bytes } => {
                if *node < 2 {
                    self.pt[*node].draws.push((bytes.clone(), false));
                }
            }
            Ev::Enc { node, key, iv, aad, plain, .. } => self.enc(*node, key, iv, aad, plain),
            Ev::Dec { node, key, iv, aad, ok, plain, .. } => self.dec(*node, key, iv, aad, *ok, plain),
            Ev::AppCall { sid, payload, reply, ok, aux } => {
                if !aux {
                    self.bad("C19", "the application handler is not given the auxiliary data the integrator passed", "");
                }
                self.op_app.push((*sid, payload.clone(), reply.clone(), *ok));
                self.cover("application dispatch");
                let fine = match &self.step {
                    Some(p) => p.app && p.sid == Some(*sid) && p.q == *payload,
                    None => false,
                };
                if !fine {
                    self.bad("C19", "the application handler is given something other than the message received", format!("session {:x} payload {}", sid, hex(payload)));
                    self.bad("C10", "the application handler is given something other than the message received", format!("session {:x}", sid));
                }
                if let Some(s) = self.pt[RSP].sess.get(sid) {
                    if !s.finished {
                        self.bad("C05", "an application message is served in a session whose handshake is not finished", format!("session {:x}", sid));
                        self.bad("C02", "an application message is served in a session whose handshake is not finished", format!("session {:x}", sid));
                    }
                }
            }
            Ev::VendorCall { payload, reply, ok } => {
                self.op_vendor.push((payload.clone(), reply.clone(), *ok));
                self.cover("vendor dispatch");
                let n = self.pt[RSP].neg.clone();
                let fine = match &self.step {
                    Some(p) => !p.app && p.q.len() > 1 && p.q[1] == VENDOR && req(&n, &p.q).map_or(false, |m| m.f("payload") == &payload[..]),
                    None => false,
                };
                if !fine {
                    self.bad("C19", "the vendor handler is given something other than the payload received", hex(payload));
                }
            }
            Ev::Crash { node } => {
                if self.in_op || *node < 2 {
                    let n = *node;
                    self.pt[n] = Party { node: n, ..Default::default() };
                    self.pt[n].reset = true;
                    if n == RSP {
                        self.step = None;
                    }
                }
            }
            Ev::Snap { node, s } => self.snap(*node, s),
            Ev::FaultFired { k, node } => {
                self.disturbed = true;
                self.op_disturbed = true;
                self.faults += 1;
                if local(*k) && *node < 2 {
                    self.pt[*node].seam = true;
                }
                if matches!(k, FaultK::Evil | FaultK::EvilLen | FaultK::Forge) && *node < 2 {
                    self.evil[*node] = true;
                    if *node == REQ {
                        self.pend = None;
                    } else {
                        self.step = None;
                    }
                }
            }
            Ev::Note { s } => {
                if s == "faults stop" {
                    self.recovered = true;
                } else if s.contains("unparsable") {
                    self.bad("C20", "a node sends a packet its transport binding does not allow", s.clone());
                }
            }
            _ => {}
        }
    }

    // ---- requester ---------------------------------------------------------------------------
    fn flush_pend(&mut self) {
        if let Some(p) = self.pend.take() {
            self.req_commit(p);
        }
    }

    fn req_tx(&mut self, sid: Option<u32>, app: bool, b: &[u8]) {
        if b.len() >= 2 && b[1] == ERROR && !app {
            if let Some(p) = self.pend.take() {
                self.req_reject(p);
            }
            return;
        }
        self.flush_pend();
        self.req_sent(sid, app, b);
        self.pend = Some(Pend { sid, app, q: b.to_vec(), r: None });
    }

    fn raw_op(&self) -> bool {
        matches!(self.plan.ops.get(self.op).map(|o| o.k), Some(OpK::RawSecured) | Some(OpK::EvilFinish))
    }

    /// judged as the requester puts a request on the wire
    fn req_sent(&mut self, sid: Option<u32>, app: bool, b: &[u8]) {
        let neg = self.pt[REQ].neg.clone();
        if app || self.raw_op() {
            if let Some(s) = sid {
                self.note_m_dirty(REQ, Some(s));
            }
            return;
        }
        if b.len() < 2 {
            self.bad("C18", "the requester sends something that is no message", hex(b));
            return;
        }
        let code = b[1];
        if self.evil[REQ] {
            return;
        }
        // L1/L2 restart whenever another request is made
        if code != GET_MEASUREMENTS {
            self.reset_m(REQ, sid, code);
        }
        self.b_effect(REQ, code, sid, true);
        let m = match req(&neg, b) {
            Ok(m) => m,
            Err(e) => {
                self.bad("C18", format!("the requester's {} is malformed", name(code)), format!("{}: {}", e, hex(b)));
                return;
            }
        };
        self.cover("request well formed");
        if !tail_ok(self.doe() && sid.is_none(), &m) {
            self.bad("C18", format!("the requester's {} carries extra bytes", name(code)), hex(b));
        }
        let want = if code == GET_VERSION { 0x10 } else { neg.ver };
        if m.ver != want {
            self.bad("C18", format!("the requester's {} has the wrong version", name(code)), format!("{:x} instead of {:x}", m.ver, want));
        }
        if self.pt[REQ].sizes[1] != 0 && b.len() as u64 > if self.doe() && sid.is_none() { (self.pt[REQ].sizes[1] + 3) & !3 } else { self.pt[REQ].sizes[1] } {
            self.bad("C18", format!("the requester's {} exceeds the responder's transfer size", name(code)), format!("{}", b.len()));
        }
        let draw = match code {
            CHALLENGE => m.f("nonce").to_vec(),
            GET_MEASUREMENTS => m.f("nonce").to_vec(),
            KEY_EXCHANGE => m.f("random").to_vec(),
            PSK_EXCHANGE => m.f("ctx").to_vec(),
            _ => vec![],
        };
        self.fresh(REQ, code, &draw);
        if code == PSK_EXCHANGE && m.f("ctx").len() < 32 {
            self.bad("C21", "the requester's PSK context is shorter than 32 bytes", format!("{}", m.f("ctx").len()));
        }
        if code == KEY_EXCHANGE {
            self.fresh_pub(REQ, m.f("exch"));
        }
    }

    fn fresh(&mut self, node: usize, code: u8, d: &[u8]) {
        if d.is_empty() {
            return;
        }
        self.cover("random field is a new draw");
        let hit = self.pt[node].draws.iter_mut().find(|x| !x.1 && x.0.len() >= d.len() && &x.0[..d.len()] == d && d.len() >= 32.min(x.0.len()));
        match hit {
            Some(x) => x.1 = true,
            None => {
                let w = format!("a random field of the {}'s {} is not a new draw of its random source", who(node), name(code));
                if self.pt[node].seam {
                    self.bad("C17", w.clone(), hex(d));
                }
                self.bad("C21", w, hex(d));
            }
        }
        if !self.nonces.insert(d.to_vec()) {
            self.bad("C21", format!("a random field of the {}'s {} repeats an earlier one", who(node), name(code)), hex(d));
        }
    }
    fn fresh_pub(&mut self, node: usize, d: &[u8]) {
        self.cover("ephemeral key is new");
        let p = &mut self.pt[node];
        match p.pubs.iter().position(|x| x == d) {
            Some(i) => {
                p.pubs.remove(i);
            }
            None => self.bad("C21", format!("the {}'s key exchange value was not generated for this exchange", who(node)), hex(d)),
        }
        if !self.nonces.insert(d.to_vec()) {
            self.bad("C21", format!("the {} reuses a key exchange value", who(node)), hex(d));
        }
    }

    fn reset_m(&mut self, node: usize, sid: Option<u32>, code: u8) {
        if code != GET_ENCAP && code != DELIVER_ENCAP && code != VENDOR {
            self.pt[node].m_lost.remove(&sid);
        }
        // (a FINISH in clear is counted among the messages of its session)
        let known = !(code == FINISH && sid.is_none()) && code != VENDOR && code != GET_ENCAP && code != DELIVER_ENCAP;
        let m = &mut self.pt[node].m;
        for (k, v) in m.iter_mut() {
            if *k != sid || !known {
                v.1 = false;
            }
        }
        if known {
            m.insert(sid, (vec![], true));
        }
    }
    fn note_m_dirty(&mut self, node: usize, sid: Option<u32>) {
        self.pt[node].m.entry(sid).or_insert((vec![], true)).1 = false;
    }
    fn b_effect(&mut self, node: usize, code: u8, sid: Option<u32>, good: bool) {
        let p = &mut self.pt[node];
        match code {
            GET_DIGESTS if sid.is_none() => {
                p.b.clear();
                p.b_exact = true;
                if good {
                    p.b_lost = false;
                }
            }
            GET_CERTIFICATE if sid.is_none() => {}
            CHALLENGE | GET_VERSION | GET_CAPABILITIES | NEGOTIATE_ALGORITHMS => {}
            // a challenge not completed by now starts over
            GET_MEASUREMENTS | KEY_EXCHANGE | FINISH | PSK_EXCHANGE | PSK_FINISH | KEY_UPDATE | HEARTBEAT | END_SESSION => {
                p.b.clear();
                p.b_exact = good;
            }
            _ => p.b_exact = false,
        }
    }

    fn req_reject(&mut self, p: Pend) {
        if p.app || p.q.len() < 2 {
            return;
        }
        match p.q[1] {
            GET_DIGESTS | GET_CERTIFICATE | CHALLENGE => self.pt[REQ].b_exact = false,
            GET_MEASUREMENTS => {
                // the requester notes nothing before the response has been found good, and forgets
                // all when the signature has not
                let signed = p.q.len() > 2 && p.q[2] & 1 != 0;
                let full = self.pt[REQ].m.get(&p.sid).map_or(0, |m| m.0.len());
                if self.pt[REQ].seam || (!hashed() && full > 2000) || (signed && full != 0) {
                    self.note_m_dirty(REQ, p.sid);
                }
            }
            _ => {}
        }
        // an end that cannot decrypt has given the session up
        let told = matches!(&p.r, Some((s, false, r)) if *s == p.sid && r.len() >= 4 && r[1] == ERROR && r[2] == 6 && r[0] == self.pt[REQ].neg.ver);
        if told && !self.pt[REQ].seam && !self.raw_op() && matches!(p.q[1], HEARTBEAT | KEY_UPDATE | END_SESSION | VENDOR | GET_MEASUREMENTS) {
            if let Some(x) = p.sid.and_then(|s| self.pt[REQ].sess.get_mut(&s)) {
                x.refused |= x.finished;
            }
        }
    }

    fn req_commit(&mut self, p: Pend) {
        if p.app || self.raw_op() || p.q.len() < 2 {
            return;
        }
        let code = p.q[1];
        let (rsid, rapp, r) = match &p.r {
            Some(x) => x.clone(),
            None => {
                if !self.evil[REQ] {
                    self.bad(if p.sid.is_some() { "C10" } else { "C18" }, format!("{} succeeds at the requester without a response", name(code)), "");
                }
                return;
            }
        };
        if rapp {
            // (the request it was the reply to is an application message, even if of the same bytes)
            if self.answers.iter().any(|a| a.0 == rsid && a.1 && a.2 == r) {
                self.bad("C19", "a late application reply is taken as the response to a protocol request", name(code));
                if let Some(s) = p.sid.and_then(|s| self.pt[REQ].sess.get_mut(&s)) {
                    s.tainted = true; // the two sides part ways from here
                }
            } else {
                self.bad("C19", format!("an application message is taken as the response to {}", name(code)), "");
            }
            return;
        }
        if self.evil[REQ] {
            return;
        }
        if rsid != p.sid {
            self.bad("C18", format!("the requester accepts a response to {} from another channel", name(code)), format!("{:x?} {:x?}", p.sid, rsid));
            return;
        }
        self.accept(REQ, p.sid, &p.q, &r);
    }

    // ---- responder ---------------------------------------------------------------------------
    fn rsp_tx(&mut self, sid: Option<u32>, app: bool, b: &[u8]) {
        self.step_tx += 1;
        self.cover("one response per request");
        if self.step_rx == 0 {
            self.bad("C16", "the responder sends something unasked", show(b));
            return;
        }
        if self.step_tx > 1 {
            self.bad("C16", "the responder sends more than one response to a request", show(b));
            if self.pt[RSP].seam && b.len() > 1 && b[1] != ERROR {
                self.bad("C17", "a response is sent although a primitive it needs failed", show(b));
            }
            return;
        }
        if self.evil[RSP] {
            return;
        }
        if let Some(s) = &self.step {
            self.answers.push((sid, app, b.to_vec(), s.q.clone()));
        }
        let step = match &self.step {
            Some(s) => s.clone(),
            None => {
                let w = format!("the responder answers a packet it could not have understood with {}", if b.len() > 1 { name(b[1]) } else { "?" });
                self.bad(if sid.is_some() { "C10" } else { "C18" }, w, show(b));
                return;
            }
        };
        if step.sid != sid {
            let w = "the responder answers in another channel than it was asked in".to_string();
            self.bad("C18", w.clone(), format!("{:x?} {:x?}", step.sid, sid));
            self.bad("C13", w, format!("{:x?} {:x?}", step.sid, sid));
            return;
        }
        if step.app != app {
            self.bad("C19", "the kind of the response (application or SPDM) is not that of the request", show(b));
            return;
        }
        if app {
            if let Some(s) = self.step.as_mut() {
                s.r = Some((sid, app, b.to_vec()));
            }
            return;
        }
        let neg = self.pt[RSP].neg.clone();
        self.cover("response well formed");
        if b.len() < 4 {
            self.bad("C18", "the responder sends something that is no message", hex(b));
            return;
        }
        if !is_response(b[1]) {
            self.bad("C18", "the responder sends something that is no response", show(b));
            return;
        }
        // (the binding pads to whole words)
        let lim = if self.doe() && sid.is_none() { (self.pt[RSP].sizes[0] + 3) & !3 } else { self.pt[RSP].sizes[0] };
        if lim != 0 && b.len() as u64 > lim {
            self.bad("C18", "a response exceeds the transfer size the requester declared", format!("{} {}", show(b), b.len()));
        }
        if b[1] == ERROR {
            if let Err(e) = rsp(&neg, &dummy(), b) {
                self.bad("C18", "a malformed error response", e);
            }
            self.error_rsp(&step, b);
        } else if self.pt[RSP].seam {
            self.bad("C17", "a response is sent although a primitive it needs failed", show(b));
        }
        if let Some(s) = self.step.as_mut() {
            s.r = Some((sid, app, b.to_vec()));
        }
    }

    fn error_rsp(&mut self, step: &Pend, b: &[u8]) {
        let n = &self.pt[RSP].neg;
        let stage = self.pt[RSP].stage;
        let q = &step.q;
        let want = if n.ver == 0 || stage < 2 { 0 } else { n.ver };
        let (ver, code) = (b[0], b[2]);
        if want != 0 && ver != want && q.len() > 1 && q[1] != GET_VERSION && q[1] != GET_CAPABILITIES {
            self.bad("C18", "an error response has the wrong version", format!("{:x} instead of {:x}", ver, want));
        }
        self.cover("error response");
        // codes the specification fixes
        if q.len() < 4 {
            return;
        }
        const CODES: [u8; 17] = [1, 3, 4, 5, 6, 7, 8, 9, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf, 0x10, 0x41, 0x42];
        if !CODES.contains(&code) && code != 0x43 && code != 0xff {
            self.bad("C18", "an error response has a code the specification does not assign", format!("{:x}", code));
        }
        let vm = match q[1] {
            GET_VERSION => q[0] != 0x10,
            _ => stage >= 3 && q[0] != want,
        };
        if vm && step.sid.is_none() && matches!(q[1], GET_VERSION | GET_DIGESTS | GET_CERTIFICATE | CHALLENGE) && code != 0x41 && !self.pt[RSP].seam {
            self.bad("C18", "a request with the wrong version is refused with another error than VersionMismatch", show(b));
        }
        if !vm && step.sid.is_none() && !self.pt[RSP].seam {
            let early = match q[1] {
                GET_CAPABILITIES => stage != 1,
                NEGOTIATE_ALGORITHMS => stage != 2,
                GET_DIGESTS | GET_CERTIFICATE | CHALLENGE | GET_MEASUREMENTS => stage < 3,
                HEARTBEAT | KEY_UPDATE | END_SESSION | PSK_FINISH => true,
                _ => false,
            };
            if early && code != 4 && !(code == 0x41 && (stage < 2 || q[0] != want)) {
                self.bad("C18", "a request out of order is refused with another error than UnexpectedRequest", show(b));
            }
        }
    }

    fn step_end(&mut self, ret: u8) {
        let st = self.step.take();
        self.cover("responder step");
        let p = match st {
            Some(p) => p,
            None => return,
        };
        // state reached, for coverage
        let s = mix64(77, &[
            &[self.pt[RSP].stage, if p.q.len() > 1 { p.q[1] } else { 0 }, p.sid.is_some() as u8, ret, p.app as u8],
            &[p.r.as_ref().map_or(0, |r| if r.2.len() > 2 { r.2[1] } else { 1 }), p.r.as_ref().map_or(0, |r| if r.2.len() > 2 && r.2[1] == ERROR { r.2[2] } else { 0 })],
            &[self.pt[RSP].sess.len() as u8, self.pt[RSP].sess.values().filter(|x| x.finished).count() as u8, self.pt[REQ].stage],
        ]);
        self.states.insert(s);
        if ret >= 3 || p.app {
            return;
        }
        if self.evil[RSP] {
            return;
        }
        if p.q.len() < 2 {
            return;
        }
        let code = p.q[1];
        let good = match &p.r {
            Some((_, _, r)) => r.len() > 1 && r[1] != ERROR && is_response(r[1]),
            None => false,
        };
        let mute = p.r.is_none() && code == KEY_UPDATE && self.seq_set; // no sequence number left to answer with
        if (self.pt[RSP].seam && !good) || self.step_fail || mute {
            self.rsp_lost(&p, good);
        }
        if !good && p.r.is_some() && !self.step_fail && !self.pt[RSP].seam && matches!(code, FINISH | PSK_FINISH) {
            if let Some(x) = p.sid.and_then(|s| self.pt[RSP].sess.get_mut(&s)) {
                if !x.finished && !x.tainted && x.psk == (code == PSK_FINISH) && (x.psk || !x.neg.clear()) {
                    x.refused = true;
                }
            }
        }
        if is_req(code) {
            if code != GET_MEASUREMENTS {
                self.reset_m(RSP, p.sid, code);
                if !good {
                    // it may have been refused before it had any effect
                    for v in self.pt[RSP].m.values_mut() {
                        v.1 = false;
                    }
                }
            }
            self.b_effect(RSP, code, p.sid, good && !self.step_fail);
        }
        if good {
            let r = p.r.clone().unwrap().2;
            if self.step_fail {
                self.rsp_unsent(&p, &r);
                return;
            }
            self.accept(RSP, p.sid, &p.q, &r);
        } else {
            match code {
                GET_DIGESTS | GET_CERTIFICATE | CHALLENGE => {
                    self.pt[RSP].b_exact = false;
                    // the request may have been noted before the response failed
                    if p.sid.is_none() {
                        self.pt[RSP].b_all.push(p.q.clone());
                    }
                }
                GET_MEASUREMENTS => {
                    // refused requests leave no trace
                    let full = self.pt[RSP].m.get(&p.sid).map_or(0, |m| m.0.len());
                    if self.pt[RSP].seam || (!hashed() && full > 2000) || p.r.is_none() {
                        self.note_m_dirty(RSP, p.sid);
                    }
                }
                _ => {}
            }
        }
    }

    /// A primitive or the device failed the responder: how far it came is its own business, as long
    /// as nobody is deceived by it.
    fn rsp_lost(&mut self, p: &Pend, answered: bool) {
        let clear = self.clear_sid(RSP);
        let pt = &mut self.pt[RSP];
        match p.q[1] {
            GET_VERSION | GET_CAPABILITIES | NEGOTIATE_ALGORITHMS if p.sid.is_none() => {
                pt.lost = true;
                pt.reset = true;
            }
            GET_DIGESTS | GET_CERTIFICATE | CHALLENGE if p.sid.is_none() => pt.b_lost = true,
            GET_MEASUREMENTS => {
                pt.m_lost.insert(p.sid);
            }
            _ => {}
        }
        let sid = if p.q[1] == FINISH { p.sid.or(clear) } else { p.sid };
        if let Some(s) = sid.and_then(|s| pt.sess.get_mut(&s)) {
            if !matches!(p.q[1], KEY_UPDATE | DELIVER_ENCAP | GET_ENCAP) || !answered {
                s.tainted |= !s.finished;
            }
            if p.q[1] == KEY_UPDATE && !answered && p.q.len() > 2 && (p.q[2] == 1 || p.q[2] == 2) {
                // it may have happened
                s.pending = p.q[2];
                let op = p.q[2];
                let sid = s.sid;
                self.note_update(RSP, sid, op);
            }
        }
    }

    /// the device refused the response: what the responder holds is then its own business
    fn rsp_unsent(&mut self, p: &Pend, r: &[u8]) {
        let pt = &mut self.pt[RSP];
        pt.b_exact = false;
        for v in pt.m.values_mut() {
            v.1 = false;
        }
        self.note_m_dirty(RSP, p.sid);
        match p.q[1] {
            KEY_EXCHANGE | PSK_EXCHANGE | KEY_UPDATE | DELIVER_ENCAP => self.accept(RSP, p.sid, &p.q, r),
            GET_VERSION | FINISH | PSK_FINISH | END_SESSION => {}
            // the connection did not advance, the agreement is noted
            GET_CAPABILITIES | NEGOTIATE_ALGORITHMS => {
                let stage = self.pt[RSP].stage;
                self.accept(RSP, p.sid, &p.q, r);
                self.pt[RSP].stage = stage;
            }
            _ => {}
        }
    }

    // ---- exchanges ---------------------------------------------------------------------------
    fn accept(&mut self, node: usize, sid: Option<u32>, q: &[u8], r: &[u8]) {
        let mut neg = self.pt[node].neg.clone();
        let code = q[1];
        if code == GET_CAPABILITIES && node == RSP {
            neg.ver = q[0];
        }
        self.op_commits.push(code);
        if r.len() > 1 && r[1] == ERROR {
            self.bad("C18", format!("the requester takes an error response as success of {}", name(code)), show(r));
            return;
        }
        if node == RSP {
            self.authorise(sid, q, &neg);
        }
        let qm = match req(&neg, q) {
            Ok(m) => m,
            Err(e) => {
                if node == RSP {
                    self.bad("C18", format!("the responder serves a malformed {}", name(code)), format!("{}: {}", e, hex(q)));
                }
                self.untrack(node, code, sid);
                return;
            }
        };
        let rm = match rsp(&neg, &qm, r) {
            Ok(m) => m,
            Err(e) => {
                let w = if node == RSP { format!("the responder's answer to {} is malformed", name(code)) } else { format!("the requester accepts a malformed response to {}", name(code)) };
                self.bad("C18", w, format!("{}: {}", e, hex(&r[..r.len().min(60)])));
                self.untrack(node, code, sid);
                return;
            }
        };
        if node == RSP && !tail_ok(self.doe() && sid.is_none(), &rm) {
            self.bad("C18", format!("the responder's answer to {} carries extra bytes", name(code)), format!("{} of {}", rm.len, r.len()));
        }
        let want = if code == GET_VERSION { 0x10 } else { neg.ver };
        // before a version is agreed on the answer can only repeat the one of the request
        if rm.ver != want && (want != 0 || node == REQ) {
            let w = if node == RSP { format!("the responder's answer to {} has the wrong version", name(code)) } else { format!("the requester accepts a response to {} with the wrong version", name(code)) };
            self.bad("C18", w, format!("{:x} instead of {:x}", rm.ver, want));
        }
        self.cover("exchange");
        let q = qm.body().to_vec();
        let full = [&q[..], rm.body()].concat();
        self.pt[node].shown |= matches!(code, GET_CERTIFICATE | CHALLENGE);
        match code {
            GET_VERSION => self.x_version(node, &rm, full),
            GET_CAPABILITIES => self.x_caps(node, &qm, &rm, full),
            NEGOTIATE_ALGORITHMS => self.x_algs(node, &qm, &rm, full),
            GET_DIGESTS => self.x_digests(node, sid, &rm, full),
            GET_CERTIFICATE => self.x_cert(node, sid, &qm, &rm, full),
            CHALLENGE => self.x_challenge(node, &qm, &rm),
            GET_MEASUREMENTS => self.x_meas(node, sid, &qm, &rm),
            KEY_EXCHANGE => self.x_keyex(node, &qm, &rm),
            PSK_EXCHANGE => self.x_psk(node, &qm, &rm),
            DELIVER_ENCAP => self.x_encap(node, sid, &qm),
            FINISH | PSK_FINISH => self.x_finish(node, sid, &qm, &rm),
            KEY_UPDATE => self.x_update(node, sid, &qm, &rm),
            END_SESSION => {
                self.probe("session ended");
            }
            HEARTBEAT => {
                self.probe("heartbeat");
            }
            VENDOR => {
                self.x_vendor(node, &qm, &rm);
            }
            _ => {}
        }
    }

    fn untrack(&mut self, node: usize, code: u8, sid: Option<u32>) {
        match code {
            GET_DIGESTS | GET_CERTIFICATE | CHALLENGE => self.pt[node].b_exact = false,
            GET_MEASUREMENTS => self.note_m_dirty(node, sid),
            _ => {}
        }
    }

    /// May the responder serve this request now?
    fn authorise(&mut self, sid: Option<u32>, q: &[u8], neg: &Neg) {
        let code = q[1];
        let stage = self.pt[RSP].stage;
        self.cover("request served");
        let (state_ok, need) = match code {
            GET_VERSION => (sid.is_none(), "outside sessions"),
            GET_CAPABILITIES => (sid.is_none() && stage == 1, "right after the version exchange"),
            NEGOTIATE_ALGORITHMS => (sid.is_none() && stage == 2, "right after the capability exchange"),
            CHALLENGE | KEY_EXCHANGE | PSK_EXCHANGE => (sid.is_none() && stage >= 3, "after negotiation, outside sessions"),
            GET_DIGESTS | GET_CERTIFICATE | GET_MEASUREMENTS => (stage >= 3, "after negotiation"),
            VENDOR => (true, ""),
            FINISH => (if neg.clear() { sid.is_none() } else { sid.is_some() }, "in the session it finishes"),
            PSK_FINISH | HEARTBEAT | KEY_UPDATE | END_SESSION | GET_ENCAP | DELIVER_ENCAP => (sid.is_some(), "inside a session"),
            _ => (false, "never"),
        };
        if !state_ok {
            self.bad("C02", format!("{} is served although it is allowed only {}", name(code), need), format!("connection stage {} session {:x?}", stage, sid));
        }
        let want = match code {
            GET_VERSION => 0x10,
            GET_CAPABILITIES => q[0],
            _ => neg.ver,
        };
        if q[0] != want && !(code == VENDOR && stage < 2) {
            self.bad("C02", format!("{} with a version that was not negotiated is served", name(code)), format!("{:x} instead of {:x}", q[0], want));
        }
        if code == GET_CAPABILITIES && ver_bit(q[0]) & self.cfg.rsp_ver == 0 {
            self.bad("C01", "the responder agrees to a version it is not configured for", format!("{:x}", q[0]));
        }
        if let Some(s) = sid {
            if let Some(x) = self.pt[RSP].sess.get(&s) {
                let hs_only = matches!(code, FINISH | PSK_FINISH | GET_ENCAP | DELIVER_ENCAP);
                let (fin, psk) = (x.finished, x.psk);
                if hs_only == fin && code != VENDOR {
                    let w = format!("{} is served {} the session is established", name(code), if fin { "after" } else { "before" });
                    self.bad("C02", w.clone(), format!("session {:x}", s));
                    if !fin {
                        self.bad(if psk { "C06" } else { "C05" }, w, format!("session {:x}", s));
                    }
                }
                if (code == FINISH && psk) || (code == PSK_FINISH && !psk) {
                    let w = format!("{} finishes a session of the other kind", name(code));
                    self.bad("C02", w.clone(), format!("session {:x}", s));
                    self.bad(if psk { "C06" } else { "C05" }, w, format!("session {:x}", s));
                }
            }
        }
        if stage >= 3 {
            let need = match code {
                CHALLENGE => CAP_CHAL,
                KEY_EXCHANGE => CAP_KEYEX,
                PSK_EXCHANGE => CAP_PSK | CAP_PSK_CTX,
                GET_MEASUREMENTS => CAP_MEAS_NOSIG | CAP_MEAS_SIG,
                _ => 0,
            };
            if need != 0 && neg.rsp_caps & need == 0 {
                self.probe("served without the capability");
            }
            if matches!(code, GET_ENCAP | DELIVER_ENCAP) {
                self.cover("encapsulated request served");
                if neg.ver < 0x11 || neg.req_caps & neg.rsp_caps & CAP_ENCAP == 0 {
                    let w = format!("{} is served although not both sides have announced encapsulated requests", name(code));
                    self.bad("C02", w, format!("requester {:x} responder {:x} version {:x}", neg.req_caps, neg.rsp_caps, neg.ver));
                }
                if !self.pt[RSP].shown {
                    let w = format!("{} is served before a certificate or a challenge was asked for in this connection", name(code));
                    self.bad("C02", w, format!("session {:x?}", sid));
                }
            }
        }
    }

    fn x_version(&mut self, node: usize, r: &Msg, full: Vec<u8>) {
        let old = std::mem::take(&mut self.pt[node].last);
        let draws = std::mem::take(&mut self.pt[node].draws);
        let (seam, sess, touched) = (self.pt[node].seam, std::mem::take(&mut self.pt[node].sess), std::mem::take(&mut self.pt[node].touched));
        self.pt[node] = Party { node, stage: 1, a: full, seam, draws, touched, last: old, ..Default::default() };
        self.pt[node].reset = true;
        if node == REQ {
            // the requester's sessions are its caller's to end
            self.pt[node].sess = sess;
        }
        let mut have = 0u64;
        for e in r.f("entries").chunks(2) {
            have |= ver_bit(e[1]);
        }
        if node == RSP {
            self.cover("VERSION content");
            if have != self.cfg.rsp_ver {
                self.bad("C01", "VERSION does not list the versions the responder is configured for", format!("{:x} instead of {:x}", have, self.cfg.rsp_ver));
            }
        } else {
            self.pt[node].neg.ver = highest(have & self.cfg.req_ver);
        }
    }

    fn x_caps(&mut self, node: usize, q: &Msg, r: &Msg, full: Vec<u8>) {
        let p = &mut self.pt[node];
        p.a.extend(full);
        p.stage = 2;
        p.neg.ver = q.ver;
        p.neg.req_caps = q.num("flags") as u32 & REQ_CAPS_KNOWN;
        p.neg.rsp_caps = r.num("flags") as u32 & RSP_CAPS_KNOWN;
        p.sizes = [q.num("dts"), r.num("dts")];
        p.neg_ct = r.num("ct");
        let c = self.cfg.clone();
        if node == RSP {
            self.cover("CAPABILITIES content");
            let v = r.ver;
            let mask = cap_mask(v);
            if r.num("flags") as u32 & mask != c.rsp_caps as u32 & mask {
                self.bad("C01", "CAPABILITIES does not carry the responder's capabilities", format!("{:x} instead of {:x}", r.num("flags"), c.rsp_caps));
            }
            if r.num("ct") != c.rsp_ct {
                self.bad("C01", "CAPABILITIES does not carry the responder's timing exponent", "");
            }
            if v >= 0x12 && (r.num("dts") != c.rsp_dts || r.num("max") != c.rsp_max) {
                self.bad("C01", "CAPABILITIES does not carry the responder's size limits", "");
            }
        } else if q.ver >= 0x11 {
            self.cover("GET_CAPABILITIES content");
            if q.num("flags") != c.req_caps || q.num("ct") != c.req_ct {
                self.bad("C01", "GET_CAPABILITIES does not carry the requester's capabilities", format!("{:x} instead of {:x}", q.num("flags"), c.req_caps));
            }
            if q.ver >= 0x12 && (q.num("dts") != c.req_dts || q.num("max") != c.req_max) {
                self.bad("C01", "GET_CAPABILITIES does not carry the requester's size limits", "");
            }
        }
    }

    fn x_algs(&mut self, node: usize, q: &Msg, r: &Msg, full: Vec<u8>) {
        let c = self.cfg.clone();
        let p = &mut self.pt[node];
        p.a.extend(full);
        p.stage = 3;
        p.b_exact = true;
        let n = &mut p.neg;
        // bits the specification reserves are not algorithms; both sides may ignore them
        n.mspec = r.num("mspec") as u8 & 1;
        n.mhash = r.num("mhash") as u32 & 0xff;
        n.hash = r.num("hash") as u32 & 7;
        n.asym = r.num("asym") as u32 & 0xff;
        n.dhe = r.num("dhe") as u16 & 0x18;
        n.aead = r.num("aead") as u16 & 7;
        n.rasym = r.num("rasym") as u16 & 0xff;
        n.ks = r.num("ks") as u16 & 1;
        n.opaque = if n.ver >= 0x12 { r.num("opaque") as u8 & 3 } else { 0 };
        let n = n.clone();
        if node == RSP {
            self.cover("ALGORITHMS content");
            let mut w: Vec<(&str, u64, u64)> = vec![
                ("measurement specification", n.mspec as u64, q.num("mspec") & c.rsp_mspec & 1),
                ("hash", n.hash as u64, prefer(&HASH_PRIO, q.num("hash"), c.rsp_hash) as u64),
                ("signature algorithm", n.asym as u64, prefer(&ASYM_PRIO, q.num("asym"), c.rsp_asym) as u64),
            ];
            if n.ver >= 0x11 {
                w.push(("DHE group", n.dhe as u64, prefer(&DHE_PRIO, q.num("dhe"), c.rsp_dhe) as u64));
                w.push(("AEAD", n.aead as u64, prefer(&AEAD_PRIO, q.num("aead"), c.rsp_aead) as u64));
                w.push(("requester signature algorithm", n.rasym as u64, prefer(&ASYM_PRIO, q.num("rasym"), c.rsp_rasym) as u64));
                w.push(("key schedule", n.ks as u64, q.num("ks") & c.rsp_ks & 1));
            }
            if n.ver >= 0x12 {
                w.push(("opaque format", n.opaque as u64, q.num("opaque") & c.rsp_opaque));
            }
            for (what, got, want) in w {
                if got != want {
                    self.bad("C01", format!("the responder does not select the preferred common {}", what), format!("{:x} instead of {:x}", got, want));
                }
            }
            if n.mspec != 0 && n.mhash as u64 != c.rsp_mhash {
                self.bad("C01", "the responder does not report its measurement hash", format!("{:x}", n.mhash));
            }
        } else {
            self.cover("NEGOTIATE_ALGORITHMS content");
            let offers = [
                ("measurement specification", q.num("mspec"), c.req_mspec),
                ("hash", q.num("hash"), c.req_hash),
                ("signature algorithm", q.num("asym"), c.req_asym),
            ];
            for (what, got, want) in offers {
                if got != want {
                    self.bad("C01", format!("the requester does not offer its configured {}", what), format!("{:x} instead of {:x}", got, want));
                }
            }
            if n.ver >= 0x11 {
                for (what, got, want) in [("DHE group", "dhe", c.req_dhe), ("AEAD", "aead", c.req_aead), ("requester signature algorithm", "rasym", c.req_rasym), ("key schedule", "ks", c.req_ks)] {
                    if q.num(got) != want {
                        self.bad("C01", format!("the requester does not offer its configured {}", what), format!("{:x} instead of {:x}", q.num(got), want));
                    }
                }
            }
            // what was accepted must have been offered, one of each kind
            let mut w: Vec<(&str, u64, u64, bool)> = vec![
                ("measurement specification", n.mspec as u64, c.req_mspec, false),
                ("hash", n.hash as u64, c.req_hash, true),
                ("signature algorithm", n.asym as u64, c.req_asym, true),
            ];
            if n.ver >= 0x11 {
                w.push(("DHE group", n.dhe as u64, c.req_dhe, false));
                w.push(("AEAD", n.aead as u64, c.req_aead, false));
                w.push(("requester signature algorithm", n.rasym as u64, c.req_rasym, false));
                w.push(("key schedule", n.ks as u64, c.req_ks, false));
            }
            if n.ver >= 0x12 {
                w.push(("opaque format", n.opaque as u64, c.req_opaque, false));
            }
            for (what, got, offered, must) in w {
                if got & !offered != 0 {
                    self.bad("C01", format!("the requester accepts a {} it did not offer", what), format!("{:x} of {:x}", got, offered));
                }
                if got.count_ones() > 1 {
                    self.bad("C01", format!("the requester accepts more than one {}", what), format!("{:x}", got));
                }
                if must && got == 0 {
                    self.bad("C01", format!("the requester completes setup without a {}", what), "");
                }
            }
        }
    }

    fn own_buf(&self, slot: u64) -> Option<Vec<u8>> {
        let n = &self.pt[RSP].neg;
        provisioned(&self.cfg, RSP, slot).map(|d| chain_buf(n.hash, &d))
    }

    fn x_digests(&mut self, node: usize, sid: Option<u32>, r: &Msg, full: Vec<u8>) {
        if sid.is_none() {
            let p = &mut self.pt[node];
            p.b = vec![full.clone()];
            p.b_all.push(full);
        }
        if node == RSP {
            self.cover("DIGESTS content");
            let h = self.pt[RSP].neg.clone();
            let mut mask = 0u8;
            let mut want = vec![];
            for s in 0..8u64 {
                if let Some(b) = self.own_buf(s) {
                    mask |= 1 << s;
                    want.extend(m_hash(h.hash, h.hs(), &b));
                }
            }
            if r.p2 != mask {
                self.bad("C09", "DIGESTS does not report the provisioned slots", format!("{:x} instead of {:x}", r.p2, mask));
            } else if r.f("digests") != &want[..] {
                self.bad("C09", "DIGESTS reports a digest that is not that of the slot's chain", "");
            }
        } else {
            self.pt[REQ].digests = Some((r.p2, r.f("digests").to_vec()));
        }
    }

    fn x_cert(&mut self, node: usize, sid: Option<u32>, q: &Msg, r: &Msg, full: Vec<u8>) {
        if sid.is_none() {
            let p = &mut self.pt[node];
            p.b.push(full.clone());
            p.b_all.push(full);
        }
        let slot = (q.p1 & 15) as u64;
        if r.p1 & 15 != q.p1 & 15 {
            self.bad(if node == RSP { "C09" } else { "C18" }, format!("the {} CERTIFICATE for another slot", if node == RSP { "responder sends" } else { "requester accepts" }), "");
        }
        if r.num("n") > q.num("n") {
            self.bad("C18", format!("the {} more of the chain than was asked for", if node == RSP { "responder sends" } else { "requester accepts" }), "");
        }
        if node == RSP {
            self.cover("CERTIFICATE content");
            match self.own_buf(slot) {
                None => self.bad("C09", "the responder returns a chain for a slot that has none", format!("slot {}", slot)),
                Some(b) => {
                    let (o, n) = (q.num("off") as usize, r.num("n") as usize);
                    if o + n > b.len() || r.f("data") != &b[o..o + n] {
                        self.bad("C09", "the responder returns something else than its chain", format!("slot {} offset {} length {}", slot, o, n));
                    } else if r.num("rem") as usize != b.len() - o - n {
                        self.bad("C09", "the responder reports a wrong remainder", format!("{} of {} after {}+{}", r.num("rem"), b.len(), o, n));
                    } else if n == 0 && q.num("n") > 0 && o < b.len() {
                        self.bad("C09", "the responder returns no bytes of a chain that has more", "");
                    }
                }
            }
        }
    }

    /// the transcript under a signature made by someone in this execution
    fn vouches(&self, node: usize, r: &Msg) -> bool {
        node == REQ && self.vouched.contains(r.f("hmac"))
    }
    fn signed(&self, sig: &[u8]) -> Option<(usize, u64, Vec<u8>)> {
        self.sign.get(sig).or_else(|| self.foreseen.get(sig)).cloned()
    }
    fn transcript_of(&self, n: &Neg, data: &[u8]) -> Option<Vec<u8>> {
        if n.ver < 0x12 {
            Some(data.to_vec())
        } else if data.len() > 100 {
            self.pre.get(&data[100..]).cloned()
        } else {
            None
        }
    }

    fn sig_prop(&self, node: usize, p: &'static str) -> &'static str {
        if node == RSP && self.pt[RSP].seam {
            "C17"
        } else {
            p
        }
    }

    /// Who may have signed what the requester accepts: the key of the peer's chain in that slot.
    fn peer_leaf(&self, slot: u64) -> Option<u64> {
        let s = self.pt[REQ].last.as_ref()?;
        let b = s.peer_chain.get(slot as usize)?.as_ref()?;
        let h = hash_size(s.hash);
        if b.len() < 4 + h {
            return None;
        }
        mc::leaf_id(&b[4 + h..])
    }
    fn peer_buf(&self, slot: u64) -> Option<Vec<u8>> {
        self.pt[REQ].last.as_ref()?.peer_chain.get(slot as usize)?.clone()
    }

    fn x_challenge(&mut self, node: usize, q: &Msg, r: &Msg) {
        let n = self.pt[node].neg.clone();
        let slot = (q.p1 & 15) as u64;
        let c = [q.body(), r.upto("sig")].concat();
        let exact = self.pt[node].b_exact;
        let mut t = self.pt[node].a.clone();
        for x in &self.pt[node].b {
            t.extend_from_slice(x);
        }
        t.extend_from_slice(&c);
        let a = self.pt[node].a.clone();
        self.pt[node].b.clear();
        let side = if node == RSP { "the responder signs" } else { "the requester accepts" };
        if node == RSP {
            self.fresh(RSP, CHALLENGE & 0x7f, r.f("nonce"));
            self.cover("CHALLENGE_AUTH content");
            if (r.p1 & 15) as u64 != slot {
                self.bad("C03", "CHALLENGE_AUTH is for another slot", "");
            }
            match self.own_buf(slot) {
                Some(b) => {
                    if r.f("certhash") != &m_hash(n.hash, n.hs(), &b)[..] {
                        self.bad("C03", "CHALLENGE_AUTH carries another chain's hash", "");
                    }
                }
                None => self.bad("C03", "CHALLENGE_AUTH for a slot that has no chain", ""),
            }
            if q.p2 != 0 && r.f("sum") != &mc::summary_value(&self.cfg, self.dev, q.p2, n.hash, n.hs())[..] {
                self.bad("C03", "CHALLENGE_AUTH carries another measurement summary than the device reports", "");
            }
        }
        self.cover(if node == RSP { "challenge signature made" } else { "challenge accepted" });
        match self.signed(r.f("sig")) {
            None => {
                let p = self.sig_prop(node, "C03");
                self.bad(p, format!("{} a challenge response nobody signed", if node == RSP { "the responder sends" } else { "the requester accepts" }), "");
            }
            Some((signer, key, data)) => {
                if signer != RSP {
                    self.bad("C03", "the requester accepts a challenge response the responder did not sign", "");
                }
                if node == REQ {
                    if self.peer_leaf(slot) != Some(key) {
                        self.bad("C03", "a challenge succeeds although the signature is not by the key of the slot's chain", "");
                    }
                    if !self.genuine_rsp() {
                        self.bad("C03", "a challenge succeeds with a responder that holds no trusted key", format!("identity {}", self.cfg.rsp_ident));
                    }
                }
                let framed = to_sign(&n, CTX_CHAL, &[]);
                if n.ver >= 0x12 && (data.len() != framed.len() || data[..100] != framed[..100]) {
                    self.bad("C03", format!("{} a signature for another purpose", side), "");
                } else {
                    match self.transcript_of(&n, &data) {
                        Some(_) if self.pt[node].lost || self.pt[node].b_lost => {}
                        Some(p) => {
                            if exact && p != t {
                                self.bad("C03", format!("{} a challenge over another transcript than was exchanged", side), format!("{} bytes, expected {}", p.len(), t.len()));
                            } else if !exact && !(p.starts_with(&a) && p.ends_with(&c) && self.middle_ok(node, &p[a.len()..p.len() - c.len()])) {
                                self.bad("C03", format!("{} a challenge over messages that were not exchanged", side), "");
                            }
                        }
                        None => self.bad("C03", format!("{} a challenge over an unknown transcript", side), ""),
                    }
                }
            }
        }
        self.pt[node].b_exact = true;
        self.pt[node].b_lost = false;
    }

    /// a sequence of digest and certificate exchanges this node took part in, in order
    fn middle_ok(&self, node: usize, mid: &[u8]) -> bool {
        if self.disturbed && node == RSP {
            return true; // failed exchanges may have left parts behind
        }
        let mut at = 0;
        for x in &self.pt[node].b_all {
            if mid[at..].starts_with(x) {
                at += x.len();
            }
        }
        at == mid.len() || self.disturbed
    }

    fn x_meas(&mut self, node: usize, sid: Option<u32>, q: &Msg, r: &Msg) {
        let n = self.pt[node].neg.clone();
        let signed = q.p1 & 1 != 0;
        let part = [q.body(), r.upto("sig")].concat();
        let e = self.pt[node].m.entry(sid).or_insert((vec![], true));
        e.0.extend_from_slice(&part);
        let (m, exact) = e.clone();
        if node == RSP {
            self.cover("MEASUREMENTS content");
            self.fresh(RSP, GET_MEASUREMENTS & 0x7f, r.f("nonce"));
            let (blocks, rec) = self.device(q.p2, n.mhash);
            match rec {
                None => self.bad("C08", "the responder reports a measurement its device does not have", format!("index {}", q.p2)),
                Some(d) => {
                    if q.p2 == 0 {
                        if r.p1 as u64 != self.cfg.meas_n || r.num("blocks") != 0 || r.num("reclen") != 0 {
                            self.bad("C08", "the responder reports a wrong number of measurements", format!("{} instead of {}", r.p1, self.cfg.meas_n));
                        }
                    } else if r.num("blocks") != blocks || r.f("rec") != &d[..] {
                        self.bad("C08", "the responder reports something else than its device measured", format!("index {}", q.p2));
                    }
                }
            }
        }
        if node == REQ {
            self.content = if n.ver >= 0x12 && signed { Some(r.p2 & 0x30) } else { None };
        }
        if node == RSP {
            let slot = if signed && n.ver >= 0x11 { q.num("slot") as u8 & 15 } else { 0 };
            let flags = match &self.pt[RSP].last {
                Some(s) if signed && n.ver >= 0x12 && self.cfg.content_change != 0 => s.content,
                _ => 0,
            };
            if r.p2 & 15 != slot {
                self.bad("C18", "MEASUREMENTS names another slot than asked for", format!("{:x} for {}", r.p2, slot));
            }
            if r.p2 & 0xf0 != flags {
                self.bad("C08", "MEASUREMENTS does not tell whether the measured content changed", format!("{:x} for {:x}", r.p2, flags));
            }
            if signed && self.own_buf(slot as u64).is_none() {
                self.bad("C08", "the responder signs measurements for a slot without a certificate chain", format!("slot {}", slot));
            }
        }
        if signed {
            let side = if node == RSP { "the responder signs" } else { "the requester accepts" };
            self.cover(if node == RSP { "measurement signature made" } else { "signed measurement accepted" });
            let slot = if n.ver >= 0x11 { q.num("slot") & 15 } else { 0 };
            let prefix = if n.ver >= 0x12 { self.ses_a(node, sid) } else { vec![] };
            match self.signed(r.f("sig")) {
                None => {
                    let p = self.sig_prop(node, "C08");
                    self.bad(p, format!("{} measurements nobody signed", if node == RSP { "the responder sends" } else { "the requester accepts" }), "");
                }
                Some((signer, key, data)) => {
                    if signer != RSP {
                        self.bad("C08", "the requester accepts measurements the responder did not sign", "");
                    }
                    if node == REQ && (self.peer_leaf(slot) != Some(key) || !self.genuine_rsp()) {
                        self.bad("C08", "signed measurements are accepted from a responder that holds no trusted key", "");
                    }
                    let framed = to_sign(&n, CTX_MEAS, &[]);
                    if n.ver >= 0x12 && (data.len() != framed.len() || data[..100] != framed[..100]) {
                        self.bad("C08", format!("{} a signature for another purpose", side), "");
                    } else {
                        match self.transcript_of(&n, &data) {
                            Some(_) if self.pt[node].lost || self.pt[node].m_lost.contains(&sid) => {}
                            Some(p) => {
                                let t = [&prefix[..], &m[..]].concat();
                                if exact && p != t {
                                    self.bad("C08", format!("{} measurements over another transcript than was exchanged", side), format!("{} bytes, expected {}", p.len(), t.len()));
                                } else if !exact && !(p.starts_with(&prefix) && p.ends_with(&part)) {
                                    self.bad("C08", format!("{} measurements over messages that were not exchanged", side), "");
                                }
                            }
                            None => self.bad("C08", format!("{} measurements over an unknown transcript", side), ""),
                        }
                    }
                }
            }
            self.pt[node].m.insert(sid, (vec![], true));
            self.pt[node].m_lost.remove(&sid);
        }
    }
    fn ses_a(&self, node: usize, sid: Option<u32>) -> Vec<u8> {
        match sid.and_then(|s| self.pt[node].sess.get(&s)) {
            Some(s) => s.a.clone(),
            None => self.pt[node].a.clone(),
        }
    }
    fn device(&self, index: u8, mhash: u32) -> (u64, Option<Vec<u8>>) {
        let c = &self.cfg;
        match index {
            0 => (0, Some(vec![])),
            0xff => (c.meas_n, Some((1..=c.meas_n).flat_map(|i| mc::meas_block(c, self.dev, i, mhash)).collect())),
            i if (i as u64) <= c.meas_n => (1, Some(mc::meas_block(c, self.dev, i as u64, mhash))),
            _ => (0, None),
        }
    }

    // ---- sessions ----------------------------------------------------------------------------
    fn new_session(&mut self, node: usize, s: Ses) {
        let sid = s.sid;
        self.born += 1;
        let mut s = s;
        s.born = self.born;
        s.tainted |= self.pt[node].lost;
        self.cover("session id is new");
        let taken = self.pt[node].last.as_ref().map_or(false, |l| l.sess.iter().any(|x| x.sid == sid));
        if taken {
            self.bad("C13", "a new session gets the identifier of one still in use", format!("{} {:x}", who(node), sid));
            self.bad("C21", "a new session gets the identifier of one still in use", format!("{} {:x}", who(node), sid));
        }
        if sid == 0 {
            self.bad("C13", "a session gets the invalid identifier", "");
        }
        self.op_sids.push(sid);
        self.pt[node].touched.insert(sid);
        self.pt[node].m.remove(&Some(sid));
        self.pt[node].gone.remove(&sid);
        self.pt[node].sess.insert(sid, s);
    }

    /// The secured message version the responder selects is one both sides have.
    fn secured_version(&mut self, q: &Msg, r: &Msg) {
        let list = q.f("opaque");
        // the list a Requester of this library sends
        let head: &[u8] = if self.pt[RSP].neg.ver >= 0x12 { &[1, 0, 0, 0] } else { &[0x46, 0x54, 0x4d, 0x44, 1, 1, 0, 0] };
        if list != &[head, &[0, 0, 7, 0, 1, 1, 2, 0, 0x10, 0, 0x11, 0]].concat()[..] {
            return;
        }
        let mine = [self.cfg.secver0 as u8, self.cfg.secver1 as u8];
        let shared = |v: u8| (v == 0x10 || v == 0x11) && mine.contains(&v);
        self.cover("secured message version selected");
        match r.f("opaque").last() {
            Some(v) if !shared(*v) => self.bad("C01", "the responder selects a secured message version the two sides do not share", format!("{:x}", v)),
            None if shared(0x10) || shared(0x11) => self.bad("C01", "the responder selects no secured message version although one is shared", ""),
            _ => {}
        }
    }

    fn x_keyex(&mut self, node: usize, q: &Msg, r: &Msg) {
        let n = self.pt[node].neg.clone();
        let slot = (q.p2 & 15) as u64;
        let sid = (r.num("sid") as u32) << 16 | q.num("sid") as u32;
        let a = self.pt[node].a.clone();
        let buf = if node == RSP { self.own_buf(slot) } else { self.peer_buf(slot) };
        let ct = match &buf {
            Some(b) => m_hash(n.hash, n.hs(), b),
            None => {
                self.bad("C05", format!("the {} completes a key exchange for a slot without a certificate chain", who(node)), format!("slot {}", slot));
                return;
            }
        };
        if node == RSP {
            self.fresh(RSP, 0x64, r.f("random"));
            self.fresh_pub(RSP, r.f("exch"));
            self.cover("KEY_EXCHANGE_RSP content");
            self.term = Some(q.num("policy") & 1 != 0);
            let want_hb = if n.req_caps & n.rsp_caps & CAP_HBEAT != 0 { self.cfg.hb as u8 } else { 0 };
            if r.p1 != want_hb && r.p1 != self.cfg.hb as u8 {
                self.bad("C05", "KEY_EXCHANGE_RSP carries another heartbeat period than configured", format!("{}", r.p1));
            }
            self.secured_version(q, r);
            if q.p1 != 0 && r.f("sum") != &mc::summary_value(&self.cfg, self.dev, q.p1, n.hash, n.hs())[..] {
                self.bad("C05", "KEY_EXCHANGE_RSP carries another measurement summary than the device reports", "");
            }
        }
        if node == REQ && q.num("policy") != if n.ver >= 0x12 { self.cfg.policy } else { 0 } {
            self.bad("C05", "KEY_EXCHANGE carries another session policy than configured", format!("{}", q.num("policy")));
        }
        if node == REQ && r.num("mut") != 0 && n.req_caps & n.rsp_caps & CAP_MUT == 0 {
            self.bad("C18", "the requester accepts a demand for mutual authentication that was not negotiated", "");
        }
        let k_sig = [q.body(), r.upto("sig")].concat();
        let k_mac = [q.body(), r.upto("hmac")].concat();
        let k = [q.body(), r.body()].concat();
        let ts = [&a[..], &ct, &k_sig].concat();
        let data = to_sign(&n, CTX_KEYEX, &ts);
        let side = if node == RSP { "sends" } else { "accepts" };
        self.cover(if node == RSP { "key exchange answered" } else { "key exchange accepted" });
        // signature
        match self.signed(r.f("sig")) {
            None => {
                let p = self.sig_prop(node, "C05");
                self.bad(p, format!("the {} {} a key exchange response nobody signed", who(node), side), "");
            }
            Some((signer, key, d)) => {
                if d != data && !self.pt[node].lost {
                    self.bad("C05", format!("the {} {} a key exchange response signed over another transcript", who(node), side), "");
                }
                if signer != RSP {
                    self.bad("C05", "a key exchange response is accepted that the responder did not sign", "");
                }
                if node == REQ && (buf.as_ref().and_then(|b| mc::leaf_id(&b[(4 + n.hs()).min(b.len())..])) != Some(key) || !self.genuine_rsp()) {
                    self.bad("C05", "a key exchange succeeds with a responder that holds no trusted key", format!("identity {}", self.cfg.rsp_ident));
                }
            }
        }
        // shared secret
        let (mine, peer) = if node == REQ { (q.f("exch"), r.f("exch")) } else { (r.f("exch"), q.f("exch")) };
        let shared = match self.dhe.get(&(node, mine.to_vec(), peer.to_vec())) {
            Some(s) => s.clone(),
            None => {
                let p = if self.pt[node].seam { "C17" } else { "C05" };
                self.bad(p, format!("the {} completes a key exchange without the exchange's shared secret", who(node)), "");
                return;
            }
        };
        let th1 = m_hash(n.hash, n.hs(), &[&a[..], &ct, &k_mac].concat());
        let hs = handshake(&n, &shared, &th1);
        if !n.clear() && !self.pt[node].lost && !self.vouches(node, r) && r.f("hmac") != &m_hmac(n.hash, n.hs(), &hs.fk_rsp, &th1)[..] {
            let p = self.sig_prop(node, "C05");
            self.bad(p, format!("the {} {} a key exchange response whose MAC does not cover the transcript", who(node), side), "");
        }
        let s = Ses {
            sid,
            psk: false,
            neg: n,
            a,
            ct,
            k,
            mut_req: r.num("mut") as u8,
            hb: r.p1,
            secver: r.f("opaque").last().copied(),
            req: vec![hs.req.clone()],
            rsp: vec![hs.rsp.clone()],
            hs,
            ..Default::default()
        };
        if s.mut_req != 0 {
            self.probe("mutual authentication requested");
        }
        self.new_session(node, s);
    }

    fn x_psk(&mut self, node: usize, q: &Msg, r: &Msg) {
        let n = self.pt[node].neg.clone();
        let sid = (r.num("sid") as u32) << 16 | q.num("sid") as u32;
        let a = self.pt[node].a.clone();
        if node == RSP {
            self.cover("PSK_EXCHANGE_RSP content");
            if !r.f("ctx").is_empty() {
                self.fresh(RSP, 0x66, r.f("ctx"));
            }
            let with_ctx = n.rsp_caps & (CAP_PSK | CAP_PSK_CTX) == CAP_PSK_CTX;
            let none = n.rsp_caps & (CAP_PSK | CAP_PSK_CTX) == 0;
            if with_ctx && r.f("ctx").is_empty() {
                self.bad("C21", "the responder declares a PSK context and sends none", "");
                self.bad("C06", "the responder declares a PSK context and sends none", "");
            }
            if !with_ctx && !none && !r.f("ctx").is_empty() {
                self.bad("C06", "the responder sends a PSK context although it declared none", "");
            }
            if n.req_caps & n.rsp_caps & CAP_HBEAT != 0 && r.p1 != self.cfg.hb as u8 {
                self.bad("C06", "PSK_EXCHANGE_RSP carries another heartbeat period than configured", format!("{}", r.p1));
            }
            self.secured_version(q, r);
            if q.p1 != 0 && r.f("sum") != &mc::summary_value(&self.cfg, self.dev, q.p1, n.hash, n.hs())[..] {
                self.bad("C06", "PSK_EXCHANGE_RSP carries another measurement summary than the device reports", "");
            }
        }
        let th1 = m_hash(n.hash, n.hs(), &[&a[..], q.body(), r.upto("hmac")].concat());
        let hs = psk_handshake(&self.cfg, node, &n, q.f("hint"), &th1);
        self.cover(if node == RSP { "PSK exchange answered" } else { "PSK exchange accepted" });
        if !self.pt[node].lost && !self.vouches(node, r) && r.f("hmac") != &m_hmac(n.hash, n.hs(), &hs.fk_rsp, &th1)[..] {
            let p = self.sig_prop(node, "C06");
            self.bad(p, format!("the {} {} a PSK exchange response whose MAC does not cover the transcript", who(node), if node == RSP { "sends" } else { "accepts" }), "");
        }
        if node == REQ && self.cfg.psk_mismatch != 0 {
            self.bad("C06", "a PSK exchange succeeds with a responder that holds another key", "");
        }
        let mut k = q.body().to_vec();
        k.extend_from_slice(r.body());
        let s = Ses { sid, psk: true, hb: r.p1, secver: r.f("opaque").last().copied(), neg: n, a, k, req: vec![hs.req.clone()], rsp: vec![hs.rsp.clone()], hs, ..Default::default() };
        let th2 = m_hash(s.neg.hash, s.neg.hs(), &[&s.a[..], &s.k].concat());
        // a Responder that declares no PSK support and serves a Requester that asks regardless
        // expects a PSK_FINISH
        let direct = s.neg.rsp_caps & CAP_PSK != 0;
        self.new_session(node, s);
        if direct {
            // without a Responder context there is no PSK_FINISH: the data phase begins here
            let x = self.pt[node].sess.get_mut(&sid).unwrap();
            let (dq, dr) = data_keys(&x.neg, &x.hs, &th2);
            x.finished = true;
            x.req = vec![x.hs.req.clone(), dq];
            x.rsp = vec![x.hs.rsp.clone(), dr];
            x.conf = [1, 1];
            self.probe("PSK session established");
        }
    }

    fn x_encap(&mut self, node: usize, sid: Option<u32>, q: &Msg) {
        let inner = q.f("inner").to_vec();
        if sid.map_or(false, |s| self.pt[node].sess.contains_key(&s)) {
            let me = &mut self.pt[node];
            let chain = &mut me.chain_part;
            if inner.len() >= 2 && inner[1] == 1 {
                chain.clear(); // the retrieval starts over
            }
            if inner.len() >= 8 && inner[1] == 2 {
                let n = u16::from_le_bytes([inner[4], inner[5]]) as usize;
                if inner.len() >= 8 + n {
                    chain.extend_from_slice(&inner[8..8 + n]);
                    if inner[6] == 0 && inner[7] == 0 {
                        me.chain = std::mem::take(&mut me.chain_part);
                    }
                }
            }
        }
    }

    fn clear_sid(&self, node: usize) -> Option<u32> {
        // in the clear handshake the session meant is the one last opened
        self.pt[node].sess.values().filter(|s| !s.finished && !s.psk).max_by_key(|s| s.born).map(|s| s.sid)
    }

    fn x_finish(&mut self, node: usize, sid: Option<u32>, q: &Msg, r: &Msg) {
        let sid = match sid.or_else(|| self.clear_sid(node)) {
            Some(s) => s,
            None => return,
        };
        let s = match self.pt[node].sess.get(&sid) {
            Some(s) => s.clone(),
            None => {
                self.bad("C05", format!("the {} finishes a session that was not opened", who(node)), format!("{:x}", sid));
                return;
            }
        };
        let n = s.neg.clone();
        let prop: &'static str = if s.psk { "C06" } else { "C05" };
        let side = if node == RSP { "accepts" } else { "sends" };
        self.cover(if s.psk { "PSK_FINISH" } else { "FINISH" });
        let asked = s.mut_req != 0 && !s.psk;
        if node == RSP && s.tainted && !(asked && q.p1 & 1 == 0) {
            // a local failure has struck in this handshake: its transcript is the responder's own business
            self.pt[node].sess.get_mut(&sid).unwrap().finished = true;
            return;
        }
        // each side goes by what it has: the requester its own chain, the responder the one it retrieved
        let own = if node == REQ { provisioned(&self.cfg, REQ, q.p2 as u64).map(|d| chain_buf(n.hash, &d)) } else { None };
        let chain = own.unwrap_or_else(|| self.pt[node].chain.clone());
        let cm = if asked { m_hash(n.hash, n.hs(), &chain) } else { vec![] };
        let base = [&s.a[..], &s.ct, &s.k, &cm].concat();
        if node == RSP && q.code == FINISH {
            if asked && q.p1 & 1 == 0 {
                self.bad("C07", "a session that demands mutual authentication is established without a requester signature", format!("{:x}", sid));
            }
        }
        if node == RSP && asked {
            if q.code != FINISH {
                self.bad("C07", "a session that demands mutual authentication is established by another finishing message", name(q.code));
            }
            self.cover("mutual authentication judged");
            let h = n.hs();
            let certs = chain.get(4 + h..).unwrap_or(&[]).to_vec();
            if !mc::chain_ok(&certs) || (self.cfg.rsp_root == 1 && mc::root_id(&certs) != Some(mc::ROOT_REQ)) || self.cfg.rsp_root == 2 {
                self.bad("C07", "mutual authentication succeeds with a requester chain that does not lead to the provisioned root", "");
            }
            let t = [&base[..], q.upto("sig")].concat();
            let want = to_sign(&n, CTX_FINISH, &t);
            match self.signed(q.f("sig")) {
                Some((signer, key, d)) => {
                    if d != want {
                        self.bad("C07", "mutual authentication succeeds with a signature over another transcript", "");
                    } else if signer != REQ || mc::leaf_id(&certs) != Some(key) {
                        self.bad("C07", "mutual authentication succeeds with a signature by another key than the retrieved chain's", "");
                    } else {
                        self.probe("mutual authentication verified");
                    }
                }
                None => self.bad("C07", "mutual authentication succeeds with a signature nobody made", ""),
            }
        }
        if node == REQ && asked && q.p1 & 1 == 1 {
            let t = [&base[..], q.upto("sig")].concat();
            if self.signed(q.f("sig")).map(|x| x.2) != Some(to_sign(&n, CTX_FINISH, &t)) {
                self.bad("C07", "the requester signs another transcript than the session's", "");
            }
        }
        let tm = m_hash(n.hash, n.hs(), &[&base[..], q.upto("hmac")].concat());
        if q.f("hmac") != &m_hmac(n.hash, n.hs(), &s.hs.fk_req, &tm)[..] {
            let p = if self.pt[node].seam { "C17" } else { prop };
            self.bad(p, format!("the {} {} a finish message whose MAC does not prove the session's keys and transcript", who(node), side), format!("{:x}", sid));
        }
        if n.clear() && q.code == FINISH {
            let tr = m_hash(n.hash, n.hs(), &[&base[..], q.body(), r.upto("hmac")].concat());
            if !self.vouches(node, r) && r.f("hmac") != &m_hmac(n.hash, n.hs(), &s.hs.fk_rsp, &tr)[..] {
                self.bad("C05", format!("the {} {} a finish response whose MAC does not cover the transcript", who(node), if node == RSP { "sends" } else { "accepts" }), "");
            }
        }
        let th2 = m_hash(n.hash, n.hs(), &[&base[..], q.body(), r.body()].concat());
        let (dq, dr) = data_keys(&n, &s.hs, &th2);
        let x = self.pt[node].sess.get_mut(&sid).unwrap();
        x.finished = true;
        x.req = vec![x.hs.req.clone(), dq];
        x.rsp = vec![x.hs.rsp.clone(), dr];
        x.conf = [1, 1];
        self.probe(if s.psk { "PSK session established" } else { "key exchange session established" });
    }

    fn x_update(&mut self, node: usize, sid: Option<u32>, q: &Msg, r: &Msg) {
        let op = q.p1;
        if r.p1 != q.p1 || r.p2 != q.p2 {
            let w = format!("the {} a key update acknowledgement for another operation or tag", if node == RSP { "responder sends" } else { "requester accepts" });
            self.bad("C12", w.clone(), format!("{:x}{:x} {:x}{:x}", q.p1, q.p2, r.p1, r.p2));
            self.bad("C18", w, "");
        }
        self.cover("key update exchange");
        if let Some(s) = sid.and_then(|s| self.pt[node].sess.get_mut(&s)) {
            match op {
                1 | 2 => {
                    s.pending = op;
                }
                3 => {
                    let upto = s.tries;
                    for d in 0..2 {
                        if d == 0 || s.pending == 2 {
                            // the newest phase seen in use is the one confirmed
                            let used = s.conf[d] + upto[d].min(1);
                            s.conf[d] = s.conf[d].max(used);
                            s.tries[d] = upto[d].saturating_sub(1);
                        }
                    }
                    s.pending = 0;
                }
                _ => self.bad("C12", "a key update operation the specification does not define is served", format!("{:x}", op)),
            }
        }
    }

    fn x_vendor(&mut self, node: usize, q: &Msg, r: &Msg) {
        self.cover("vendor exchange");
        if node == RSP {
            if r.f("std") != q.f("std") || r.f("id") != q.f("id") {
                self.bad("C18", "the responder answers a vendor request for another standard or vendor", "");
                self.bad("C19", "the responder answers a vendor request for another standard or vendor", "");
            }
            match self.op_vendor.last() {
                Some((p, reply, true)) if p == q.f("payload") => {
                    if r.f("payload") != &reply[..] {
                        self.bad("C19", "the vendor handler's reply is not what the responder sends", "");
                    }
                }
                _ => self.bad("C19", "the responder answers a vendor request its handler did not serve", ""),
            }
        }
    }

    // ---- record layer --------------------------------------------------------------------------
    fn locate(&mut self, node: usize, sid: u32, dir: usize, key: &[u8]) -> Option<(usize, Dir)> {
        let s = self.pt[node].sess.get_mut(&sid)?;
        let neg = s.neg.clone();
        let v = if dir == 0 { &mut s.req } else { &mut s.rsp };
        let limit = s.conf[dir] + s.tries[dir] + 2;
        while s.finished && v.len() <= limit {
            let x = next(&neg, v.last().unwrap());
            v.push(x);
        }
        v.iter().enumerate().rev().find(|(_, d)| d.key == key).map(|(i, d)| (i, d.clone()))
    }

    fn enc(&mut self, node: usize, key: &[u8], iv: &[u8], aad: &[u8], plain: &[u8]) {
        if node > 1 {
            return;
        }
        let sid = if aad.len() >= 4 { u32::from_le_bytes([aad[0], aad[1], aad[2], aad[3]]) } else { 0 };
        self.pt[node].touched.insert(sid);
        let (app, m) = unframe_msg(&self.cfg, plain);
        let err = !app && m.len() > 1 && m[1] == ERROR;
        if node == REQ && !err {
            self.flush_pend();
        }
        self.ord += 1;
        let ses = self.pt[node].sess.get(&sid).map_or(0, |s| s.born);
        let ord = self.ord;
        self.encs.entry((key.to_vec(), iv.to_vec())).or_insert(Enc { node, sid, ses, ord, plain: plain.to_vec(), used: false });
        self.cover("record protected");
        // separation of keys between sessions, directions and phases
        let handshake = !app && m.len() > 1 && matches!(m[1], 0xE5 | 0x65 | 0xE7 | 0x67 | 0xEA | 0x6A | 0xEB | 0x6B);
        let finished = self.pt[node].sess.get(&sid).map_or(false, |s| s.finished);
        let kind = if (node == REQ && self.raw_op()) || (handshake == finished) {
            0 // anything at any time, or a client that calls things out of order
        } else if handshake {
            1
        } else if err {
            0
        } else {
            2
        };
        let e = self.keyuse.entry(key.to_vec()).or_insert((node, sid, ses, kind)).clone();
        if !self.evil[0] && !self.evil[1] && !self.raw_op() {
            if e.0 != node {
                self.bad("C11", "both directions of a session are protected under one key", format!("{:x}", sid));
            } else if e.1 != sid || (e.2 != ses && ses != 0 && e.2 != 0) {
                self.bad("C11", "two sessions are protected under one key", format!("{:x} {:x}", e.1, sid));
            } else if e.3 != 0 && kind != 0 && e.3 != kind {
                self.bad("C11", "handshake and application phase are protected under one key", format!("{:x}", sid));
            }
        }
        if e.3 == 0 && kind != 0 {
            self.keyuse.get_mut(key).unwrap().3 = kind;
        }
        if self.evil[node] || (node == REQ && self.raw_op()) {
            return;
        }
        // the length, framing and padding of a record
        if !app && node == REQ && m.len() > 1 && m[1] == KEY_UPDATE && m.len() >= 4 && (m[2] == 1 || m[2] == 2) {
            // counted when it is sent: from here on the next keys may come into use
            self.note_update(REQ, sid, m[2]);
        }
        if !app && node == RSP {
            let st = self.step.clone();
            if let Some(st) = st {
                if st.sid == Some(sid) && st.q.len() >= 4 && st.q[1] == KEY_UPDATE && !st.app && m.len() > 2 && m[1] == 0x69 && (m[2] == 1 || m[2] == 2) {
                    self.note_update(RSP, sid, m[2]);
                }
            }
        }
        let tainted = self.pt[node].sess.get(&sid).map_or(true, |s| s.tainted);
        if tainted {
            if !self.pt[node].sess.contains_key(&sid) && !self.pt[node].seam {
                self.bad("C13", format!("the {} protects a message for a session it does not hold", who(node)), format!("{:x}", sid));
            }
            return;
        }
        let s = self.pt[node].sess[&sid].clone();
        let prop: &'static str = if s.conf[node] > 1 || s.tries[node] > 0 { "C12" } else if s.psk { "C06" } else { "C05" };
        match self.locate(node, sid, node, key) {
            None => self.bad(prop, format!("the {} protects a message under a key the specification does not derive", who(node)), format!("{:x}", sid)),
            Some((ph, d)) => {
                let seq = seq_of(&d.salt, iv);
                let seq = match seq {
                    Some(x) => x,
                    None => {
                        self.bad(prop, format!("the {} forms a nonce the specification does not derive", who(node)), format!("{:x}", sid));
                        return;
                    }
                };
                if ph < s.conf[node] {
                    self.bad("C12", format!("the {} protects a message under retired keys", who(node)), format!("{:x} phase {} of {}", sid, ph, s.conf[node]));
                }
                if ph > s.conf[node] + s.tries[node] {
                    self.bad("C12", format!("the {} uses keys no update has introduced", who(node)), format!("{:x} phase {} of {}", sid, ph, s.conf[node]));
                }
                let x = &s.enc[0];
                let expect = if x.0 == ph { x.1 } else { 0 };
                if seq < expect && !self.seq_set {
                    self.bad("C11", "a sequence number is used again", format!("{} {:x} {} after {}", who(node), sid, seq, expect));
                } else if seq != expect && !self.disturbed {
                    let d = format!("{} {:x} {} instead of {}", who(node), sid, seq, expect);
                    self.bad("C10", "sequence numbers are not consecutive from zero", d.clone());
                    if ph > 1 && x.0 != ph {
                        self.bad("C12", "the sequence numbers do not restart with the updated keys", d);
                    }
                }
                let t = self.pt[node].sess.get_mut(&sid).unwrap();
                t.enc[0] = (ph, seq.wrapping_add(1));
                if seq == u64::MAX {
                    self.bad("C11", "the last sequence number is used", format!("{:x}", sid));
                }
            }
        }
    }
    fn note_update(&mut self, node: usize, sid: u32, op: u8) {
        if let Some(s) = self.pt[node].sess.get_mut(&sid) {
            if s.tries[0] < 6 {
                s.tries[0] += 1;
                if op == 2 {
                    s.tries[1] += 1;
                }
            }
        }
    }

    fn dec(&mut self, node: usize, key: &[u8], iv: &[u8], aad: &[u8], ok: bool, plain: &[u8]) {
        if node > 1 {
            return;
        }
        let sid = if aad.len() >= 4 { u32::from_le_bytes([aad[0], aad[1], aad[2], aad[3]]) } else { 0 };
        self.pt[node].touched.insert(sid);
        if !ok {
            self.probe("record rejected");
            return;
        }
        self.cover("record accepted");
        let k = (key.to_vec(), iv.to_vec());
        let mut v: Option<(&'static str, String)> = None;
        match self.encs.get_mut(&k) {
            None => v = Some(("a record nobody sent is accepted", format!("{} {:x}", who(node), sid))),
            Some(e) => {
                if e.node == node {
                    v = Some(("a node accepts its own message reflected", format!("{} {:x}", who(node), sid)));
                } else if e.sid != sid {
                    v = Some(("a message of another session is accepted", format!("{:x} in {:x}", e.sid, sid)));
                } else if e.plain != plain {
                    v = Some(("an altered record is accepted", format!("{:x}", sid)));
                } else if e.used {
                    v = Some(("a record is accepted twice", format!("{} {:x}", who(node), sid)));
                } else {
                    e.used = true;
                    let (ord, ses) = (e.ord, e.ses as u32);
                    let last = self.last_rx_ord.entry((node, ses)).or_insert(0);
                    if ord < *last && ses != 0 {
                        v = Some(("records are accepted out of sending order", format!("{} {:x}", who(node), sid)));
                    }
                    *last = (*last).max(ord);
                }
            }
        }
        if let Some((w, d)) = v {
            self.bad("C10", w, d);
        }
        // the session must be one this node holds
        let held = self.pt[node].last.as_ref().map_or(false, |l| l.sess.iter().any(|x| x.sid == sid)) || self.pt[node].sess.contains_key(&sid);
        if !held {
            self.bad("C13", format!("the {} accepts a message in a session it does not hold", who(node)), format!("{:x}", sid));
        }
        let s = match self.pt[node].sess.get(&sid) {
            Some(s) if !s.tainted => s.clone(),
            _ => return,
        };
        let dir = 1 - node;
        if let Some((ph, _)) = self.locate(node, sid, dir, key) {
            if ph < s.conf[dir] {
                let w = if ph == 0 { format!("the {} accepts handshake-phase traffic after the handshake", who(node)) } else { format!("the {} accepts a message under retired keys", who(node)) };
                self.bad("C12", w.clone(), format!("{:x} phase {} of {}", sid, ph, s.conf[dir]));
                self.bad("C10", w, format!("{:x}", sid));
            }
        }
    }

    // ---- state ---------------------------------------------------------------------------------
    fn snap(&mut self, node: usize, s: &Snap) {
        self.cover("state snapshot");
        let mut ids = HashSet::new();
        for x in &s.sess {
            if x.sid != 0 && !ids.insert(x.sid) {
                self.bad("C13", "two session slots hold one identifier", format!("{} {:x}", who(node), x.sid));
            }
        }
        // peer identity (requester)
        self.peer_identity(node, s);
        if node == RSP && self.pt[RSP].lost {
            if s.conn == 0 && self.pt[RSP].stage != 0 {
                let (sess, last, touched) = (std::mem::take(&mut self.pt[RSP].sess), self.pt[RSP].last.take(), std::mem::take(&mut self.pt[RSP].touched));
                self.pt[RSP] = Party { node, lost: true, reset: true, sess, last, touched, ..Default::default() };
            } else {
                self.pt[RSP].stage = s.conn.min(3);
            }
        }
        let touched = std::mem::take(&mut self.pt[node].touched);
        let reset = std::mem::replace(&mut self.pt[node].reset, false);
        let old = self.pt[node].last.take();
        let seq_op = self.in_seq_op();
        if let Some(o) = &old {
            if seq_op {
                self.seq_moved(node, s, o);
            }
            if !reset && node == RSP && s.conn != 0 && s.conn < o.conn {
                self.bad("C02", "the responder's connection goes back a stage without a version request", format!("{} after {}", s.conn, o.conn));
            }
            if !reset {
                for x in &o.sess {
                    if x.sid == 0 || touched.contains(&x.sid) || seq_op {
                        continue;
                    }
                    self.cover("other sessions untouched");
                    match s.sess.iter().find(|y| y.sid == x.sid) {
                        None => {
                            if !self.ended_now(node, x.sid) {
                                self.bad("C13", format!("a session disappears from the {} without traffic in it", who(node)), format!("{:x}", x.sid));
                            }
                        }
                        Some(y) => {
                            if y != x {
                                self.bad("C13", format!("a session of the {} changes without traffic in it", who(node)), format!("{:x}", x.sid));
                            }
                        }
                    }
                }
            }
        }
        if reset && node == RSP && self.pt[RSP].stage <= 1 && !self.pt[RSP].lost {
            // a version request discards the previous connection
            self.cover("version request resets");
            if s.sess.iter().any(|x| x.sid != 0) {
                self.bad("C02", "a version request leaves sessions of the previous connection", "");
            }
            if s.hash != 0 || s.asym != 0 || s.dhe != 0 || s.aead != 0 || s.rasym != 0 || s.ks != 0 || s.mspec != 0 || s.opaque != 0 || s.req_caps != 0 || s.rsp_caps != 0 {
                self.bad("C02", "a version request leaves negotiated values of the previous connection", format!("{:x?}", s));
            }
            if s.peer_chain.iter().any(|x| x.is_some()) {
                self.bad("C02", "a version request leaves the peer's certificates of the previous connection", "");
            }
        }
        // sessions
        for x in s.sess.iter().filter(|x| x.sid != 0) {
            let sh = self.pt[node].sess.get(&x.sid).cloned();
            match sh {
                None => {
                    let known = old.as_ref().map_or(false, |o| o.sess.iter().any(|y| y.sid == x.sid));
                    if !known {
                        if x.state == 2 {
                            self.bad("C05", format!("the {} holds an established session no handshake produced", who(node)), format!("{:x}", x.sid));
                        } else {
                            self.bad("C14", format!("a failed handshake leaves a session slot of the {} occupied", who(node)), format!("{:x} state {}", x.sid, x.state));
                        }
                    }
                }
                Some(sh) => {
                    self.cover("session state judged");
                    let prop: &'static str = if sh.psk { "C06" } else { "C05" };
                    let beats = sh.neg.req_caps & sh.neg.rsp_caps & CAP_HBEAT != 0;
                    if beats && x.hb != sh.hb && !self.evil[0] && !self.evil[1] {
                        self.bad(prop, format!("the {} keeps another heartbeat period than the exchange sets", who(node)), format!("{:x}: {} for {}", x.sid, x.hb, sh.hb));
                    }
                    if sh.secver.map_or(false, |v| v != x.secver) && !self.evil[0] && !self.evil[1] {
                        self.bad(prop, format!("the {} keeps another secured message version than the exchange selects", who(node)), format!("{:x}: {:x} for {:x?}", x.sid, x.secver, sh.secver));
                    }
                    if node == REQ && sh.refused {
                        self.bad("C13", "the requester keeps a session its peer says it cannot decrypt", format!("{:x} state {}", x.sid, x.state));
                        self.bad("C04", "the requester keeps the keys of a session its peer says it cannot decrypt", format!("{:x} state {}", x.sid, x.state));
                    }
                    if node == RSP && sh.refused {
                        self.cover("handshake refused");
                        self.bad("C14", "a session whose finish was refused keeps its slot at the responder", format!("{:x} state {}", x.sid, x.state));
                        self.bad("C13", "a session whose finish was refused stays at the responder", format!("{:x} state {}", x.sid, x.state));
                    }
                    if x.psk != sh.psk {
                        self.bad(prop, "a session is of another kind than its handshake", format!("{:x}", x.sid));
                    }
                    if x.state == 2 && !sh.finished && !sh.tainted {
                        self.bad(prop, format!("the {} establishes a session without a valid finish", who(node)), format!("{:x}", x.sid));
                        if sh.mut_req != 0 {
                            self.bad("C07", "a session that demands mutual authentication is established without it", format!("{:x}", x.sid));
                        }
                    }
                    if x.state == 2 && sh.finished && !sh.tainted && !self.evil[0] && !self.evil[1] {
                        self.session_keys(node, x, &sh);
                    }
                    if sh.finished && x.state != 2 && !sh.tainted && !self.pt[node].seam && !self.evil[1 - node] {
                        self.bad(prop, format!("the {} does not establish a session that was finished", who(node)), format!("{:x} state {}", x.sid, x.state));
                    }
                }
            }
        }
        // sessions that are gone
        let keep: Vec<u32> = self.pt[node].sess.keys().copied().collect();
        for k in keep {
            if !s.sess.iter().any(|x| x.sid == k) {
                self.pt[node].sess.remove(&k);
                self.pt[node].gone.insert(k);
            }
        }
        if node == RSP && self.pt[RSP].stage >= 3 && !self.evil[RSP] {
            self.neg_agrees(RSP, s);
        }
        if node == REQ {
            if let Some(c) = self.content.take() {
                if c != s.content && !self.evil[RSP] {
                    self.bad("C08", "the requester keeps something else of a measurement's content-changed field than it says", format!("{:x} for {:x}", s.content, c));
                }
            }
        }
        if node == RSP {
            if let Some(t) = self.term.take() {
                if t != s.term && self.pt[RSP].stage >= 3 {
                    self.bad("C05", "the responder keeps another termination policy than the exchange sets", "");
                }
            }
        }
        if node == REQ && std::mem::replace(&mut self.agree, false) && self.pt[REQ].stage >= 3 && !self.evil[REQ] {
            self.neg_agrees(REQ, s);
        }
        self.pt[node].last = Some(Box::new(s.clone()));
    }
    fn in_seq_op(&mut self) -> bool {
        matches!(self.plan.ops.get(self.op).map(|o| o.k), Some(OpK::SetSeq))
    }
    /// The client has moved the sequence numbers of a session forward: what is expected next
    /// moves with them. Anything else leaves nothing to expect.
    fn seq_moved(&mut self, node: usize, s: &Snap, o: &Snap) {
        for x in &s.sess {
            let y = match o.sess.iter().find(|y| y.sid == x.sid) {
                Some(y) if x.sid != 0 => y,
                _ => continue,
            };
            for (d, new, old) in [(0, x.req.2, y.req.2), (1, x.rsp.2, y.rsp.2)] {
                if new == old {
                    continue;
                }
                match self.pt[node].sess.get_mut(&x.sid) {
                    Some(t) if t.finished && !t.tainted && t.tries == [0, 0] && new > old && new < u64::MAX - 64 => {
                        if d == node {
                            t.enc[0] = (t.conf[d], new);
                        }
                    }
                    _ => self.seq_set = true,
                }
            }
        }
    }
    fn ended_now(&self, _node: usize, _sid: u32) -> bool {
        false
    }

    fn session_keys(&mut self, node: usize, x: &SnapS, sh: &Ses) {
        for dir in 0..2 {
            let got = if dir == 0 { &x.req } else { &x.rsp };
            let f = self.locate(node, x.sid, dir, &got.0);
            self.cover("session keys judged");
            let prop: &'static str = if sh.conf[dir] > 1 || sh.tries[dir] > 0 { "C12" } else if sh.psk { "C06" } else { "C05" };
            match f {
                Some((ph, d)) if d.salt == got.1 => {
                    if ph < sh.conf[dir] {
                        self.bad("C12", format!("the {} keeps retired keys in the {} direction", who(node), dirname(dir)), format!("{:x} phase {} of {}", x.sid, ph, sh.conf[dir]));
                    }
                    if ph > sh.conf[dir] + sh.tries[dir] {
                        self.bad("C12", format!("the {} changes keys of the {} direction without an update", who(node), dirname(dir)), format!("{:x}", x.sid));
                    }
                }
                _ => self.bad(prop, format!("the {}'s {} keys are not those the specification derives", who(node), dirname(dir)), format!("{:x}", x.sid)),
            }
        }
    }

    fn peer_identity(&mut self, node: usize, s: &Snap) {
        let (root, issuer) = if node == REQ { (self.cfg.req_root, mc::ROOT_RSP) } else { (self.cfg.rsp_root, mc::ROOT_REQ) };
        for (slot, c) in s.peer_chain.iter().enumerate() {
            let c = match c {
                Some(c) => c,
                None => continue,
            };
            // judged when it is installed: it outlives the connection, and its hash algorithm
            if self.pt[node].last.as_ref().map_or(false, |o| o.peer_chain.get(slot).map_or(false, |x| x.as_ref() == Some(c))) {
                continue;
            }
            self.cover(if node == REQ { "installed chain judged" } else { "requester's installed chain judged" });
            let n = hash_size(s.hash);
            let certs = c.get(4 + n..).unwrap_or(&[]);
            let trusted = root == 0 || (root == 1 && mc::root_id(certs) == Some(issuer));
            if !mc::chain_ok(certs) || !trusted {
                self.bad("C09", "a chain that does not verify or lead to the provisioned root is installed as the peer's identity", format!("{} slot {}", who(node), slot));
                if node == RSP {
                    self.bad("C07", "a chain that does not verify or lead to the provisioned root is installed as the requester's identity", format!("slot {}", slot));
                }
                continue;
            }
            let mut c = c.clone();
            if c.len() > 4 {
                c[2..4].fill(0); // reserved
            }
            if n != 0 && c != chain_buf(s.hash, certs) {
                self.bad("C09", "an installed chain structure has a wrong length or root hash", format!("{} slot {}", who(node), slot));
            }
            let want = provisioned(&self.cfg, 1 - node, slot as u64).map(|d| chain_buf(s.hash, &d));
            if !self.disturbed && !self.evil[1 - node] && want.as_ref() != Some(&c) {
                self.bad("C09", "the installed chain is not the one the peer is provisioned with", format!("{} slot {}", who(node), slot));
            }
        }
    }

    fn neg_agrees(&mut self, node: usize, s: &Snap) {
        let n = self.pt[node].neg.clone();
        self.cover("negotiated state judged");
        let m = cap_mask(n.ver);
        let mut pairs: Vec<(&str, u64, u64)> = vec![
            ("version", s.ver as u64, n.ver as u64),
            ("hash", s.hash as u64, n.hash as u64),
            ("signature algorithm", s.asym as u64, n.asym as u64),
            ("measurement specification", s.mspec as u64, n.mspec as u64),
            ("responder capabilities", (s.rsp_caps & m) as u64, (n.rsp_caps & m) as u64),
        ];
        if n.mspec != 0 {
            pairs.push(("measurement hash", s.mhash as u64, n.mhash as u64));
        }
        if n.ver >= 0x11 {
            pairs.push(("requester capabilities", s.req_caps as u64, n.req_caps as u64));
        }
        {
            pairs.push(("DHE group", s.dhe as u64, n.dhe as u64));
            pairs.push(("AEAD", s.aead as u64, n.aead as u64));
            pairs.push(("requester signature algorithm", s.rasym as u64, n.rasym as u64));
            pairs.push(("key schedule", s.ks as u64, n.ks as u64));
        }
        pairs.push(("opaque format", s.opaque as u64, n.opaque as u64));
        for (w, a, b) in pairs {
            if a != b {
                self.bad("C01", format!("the {} holds another {} than was exchanged", who(node), w), format!("{:x} instead of {:x}", a, b));
            }
        }
    }

    // ---- operations ----------------------------------------------------------------------------
    fn op_end(&mut self, ok: bool, err: &str, val: u64, out: &[u8]) {
        self.in_op = false;
        let o = self.plan.ops[self.op].clone();
        let last = self.pend.as_ref().map(|p| (p.q.clone(), p.r.clone()));
        if ok {
            self.flush_pend();
        } else if let Some(p) = self.pend.take() {
            self.req_reject(p);
        }
        let req_seam = self.pt[REQ].seam;
        if matches!(o.k, OpK::StartSession | OpK::KeyExchange | OpK::PskExchange) {
            self.cl_sids.push(if ok { val as u32 } else { 0 });
        }
        let lib = !matches!(
            o.k,
            OpK::CrashReq | OpK::CrashRsp | OpK::Advance | OpK::Drain | OpK::FlushNet | OpK::Inject | OpK::InjectOld | OpK::RawClear | OpK::SetMeas | OpK::SetContent | OpK::SpoilChain | OpK::SetSeq | OpK::Recover | OpK::AbandonSid | OpK::EvilFinish | OpK::Carry
        );
        if !lib || err == "skipped" {
            return;
        }
        let st = mix64(78, &[&[o.k as u8, ok as u8, self.pt[REQ].stage, self.pt[REQ].sess.len() as u8, self.pt[RSP].sess.len() as u8], err.as_bytes()]);
        self.states.insert(st);
        self.cover("operation");
        if req_seam {
            self.cover("operation with a failed local primitive");
            if ok {
                self.bad("C17", format!("{} succeeds although a primitive it needs failed", o.k.name()), "");
            }
        }
        let clean = self.quiet && (!self.disturbed || self.recovered && !self.op_disturbed);
        let evil = self.evil[0] || self.evil[1];
        let owed = self.plan.honest && clean && self.op_ready && self.supported(&o) && !evil;
        self.client_after(&o, ok, err, val);
        if !ok && (req_seam || self.op_tx == 0) {
            // how far the requester came is its own business
            let p = &mut self.pt[REQ];
            p.b_exact = false;
            for v in p.m.values_mut() {
                v.1 = false;
            }
            p.m.entry(None).or_insert((vec![], true)).1 = false;
            if o.p[0] >= 0 {
                if let Some(s) = self.client_sid(o.p[0]) {
                    self.note_m_dirty(REQ, Some(s));
                }
            }
        }
        if owed && !ok {
            let props: Vec<&'static str> = if self.recovered { vec!["C14"] } else { self.owes(&o) };
            for p in props {
                self.bad(p, format!("{} fails with an honest peer and no fault", o.k.name()), err);
            }
        }
        if self.op_again && !self.op_disturbed && self.supported(&o) && !evil {
            self.cover("operation owed by what both sides hold");
            if !ok && !owed {
                let mut props = self.owes(&o);
                props.push("C14");
                for p in props {
                    self.bad(p, format!("{} fails without a fault although both sides hold all it needs", o.k.name()), err);
                }
            }
        }
        if !ok {
            if matches!(o.k, OpK::StartSession) {
                self.probe("session setup failed");
            }
            return;
        }
        self.probe("operation succeeded");
        match o.k {
            _ if self.evil[REQ] => {}
            OpK::Init | OpK::Algorithm => self.end_init(owed),
            OpK::Certificate => self.probe("chain retrieved"),
            OpK::Challenge => self.probe("challenge succeeded"),
            OpK::Measure => self.end_meas(&o, val, out, last),
            OpK::StartSession | OpK::PskFinish | OpK::Finish => {
                let sid = if o.k == OpK::StartSession { Some(val as u32) } else { None };
                if let Some(s) = sid {
                    if !self.pt[REQ].sess.get(&s).map_or(false, |x| x.finished) && !self.evil[REQ] {
                        self.bad(if o.p[0] != 0 { "C06" } else { "C05" }, "session setup succeeds without a completed handshake", format!("{:x}", s));
                    }
                }
            }
            OpK::App => {
                self.cover("application exchange");
                if !self.evil[0] && !self.evil[1] {
                    self.end_app(&o, out, last)
                }
            }
            OpK::Vendor => {
                if !self.evil[0] && !self.evil[1] {
                    self.end_vendor(&o, out, last)
                }
            }
            _ => {}
        }
    }

    /// Do the two sides agree on everything the operation builds on, by what each sent and received?
    fn in_step(&self, o: &Op) -> bool {
        let (q, r) = (&self.pt[REQ], &self.pt[RSP]);
        if self.plan.profile == "wild" || self.seq_set || q.stage < 3 || r.stage < 3 || q.a != r.a || q.neg != r.neg || q.lost || r.lost {
            return false;
        }
        let (sq, sr) = match (&q.last, &r.last) {
            (Some(a), Some(b)) => (a, b),
            _ => return false,
        };
        let chain = sq.peer_chain.get(0).map_or(false, |c| c.is_some() && *c == self.own_buf(0)) && self.genuine_rsp();
        let small = |p: &Party| hashed() || p.b_exact && p.b.iter().map(|x| x.len()).sum::<usize>() + self.chain_cost() < 4500;
        let b_same = q.b_exact && r.b_exact && q.b == r.b && !q.b_lost && !r.b_lost;
        let m_same = |sid: Option<u32>| {
            let none = (vec![], true);
            let (a, b) = (q.m.get(&sid).unwrap_or(&none), r.m.get(&sid).unwrap_or(&none));
            a.1 && b.1 && a.0 == b.0 && (hashed() || a.0.len() < 2000) && !q.m_lost.contains(&sid) && !r.m_lost.contains(&sid)
        };
        let held = |s: &Snap| s.sess.iter().filter(|x| x.sid != 0).count();
        let sid = if matches!(o.k, OpK::Challenge | OpK::StartSession) || o.p[0] < 0 { None } else { Some(self.client_sid(o.p[0])) };
        let sid = match sid {
            None => None,
            Some(None) => return false,
            Some(Some(s)) => {
                let (x, y) = (sq.sess.iter().find(|x| x.sid == s), sr.sess.iter().find(|x| x.sid == s));
                let (a, b) = (q.sess.get(&s), r.sess.get(&s));
                match (x, y, a, b) {
                    (Some(x), Some(y), Some(a), Some(b)) => {
                        if x.state != 2 || y.state != 2 || x.req != y.req || x.rsp != y.rsp || a.pending != 0 || b.pending != 0 || a.tainted || b.tainted || !a.finished || !b.finished {
                            return false;
                        }
                    }
                    _ => return false,
                }
                Some(s)
            }
        };
        match o.k {
            OpK::Digest => true,
            OpK::Certificate => small(q) && small(r),
            OpK::Vendor => true,
            OpK::Challenge => chain && b_same,
            OpK::Measure => {
                let room = |p: &Party| hashed() || p.m.get(&sid).map_or(0, |m| m.0.len()) < 2000;
                if o.p[3] & 1 == 0 {
                    room(q) && room(r)
                } else {
                    chain && m_same(sid)
                }
            }
            // (a responder asks for certificates only after having shown its own)
            OpK::StartSession => (o.p[0] != 0 || chain && (sr.conn >= 5 || !cfg!(feature = "mutauth"))) && held(sq) < 4 && held(sr) < 4,
            OpK::Heartbeat | OpK::KeyUpdate | OpK::EndSession | OpK::App => sid.is_some(),
            _ => false,
        }
    }

    fn client_sid(&self, p: i64) -> Option<u32> {
        self.cl_sids.get(p as usize).copied().filter(|s| *s != 0)
    }
    /// Is the operation about to run one a correct client may call now?
    fn client_before(&mut self) {
        let o = self.plan.ops[self.op].clone();
        let live = |me: &Self, p: i64| me.client_sid(p).map_or(false, |s| me.cl_live.contains(&s));
        let opt = |me: &Self, p: i64| p < 0 || live(me, p);
        self.op_ready = match o.k {
            OpK::Init | OpK::Version => true,
            OpK::Digest => self.cl_ready && opt(self, o.p[0]),
            // a build that keeps whole transcripts holds no more than its buffer
            OpK::Certificate => self.cl_ready && opt(self, o.p[0]) && (hashed() || self.cl_b + self.chain_cost() < 4500),
            OpK::Vendor => self.cl_ready && opt(self, o.p[0]),
            OpK::Measure => self.cl_ready && opt(self, o.p[0]) && (o.p[3] & 1 == 0 || self.cl_cert),
            OpK::Challenge => self.cl_ready && self.cl_cert && !self.cl_dirty,
            OpK::StartSession => self.cl_ready && (o.p[0] != 0 || self.cl_cert) && self.cl_live.len() + self.cl_lost < 4 && self.cl_held.len() < 4,
            OpK::Heartbeat | OpK::KeyUpdate | OpK::EndSession | OpK::App => self.cl_ready && live(self, o.p[0]),
            _ => false,
        };
        match o.k {
            OpK::Init | OpK::Version | OpK::CrashReq | OpK::CrashRsp | OpK::Recover => {
                self.cl_ready = false;
                self.cl_cert = false;
                self.cl_b = 0;
                self.cl_lost = 0;
                self.cl_live.clear();
            }
            _ => {}
        }
        if o.k == OpK::CrashReq {
            self.cl_held.clear();
        }
    }
    fn chain_cost(&self) -> usize {
        let n = self.own_buf(0).map_or(0, |b| b.len());
        let part = if self.pt[RSP].neg.ver >= 0x12 { (self.cfg.req_dts as usize).saturating_sub(8).clamp(1, 512) } else { 512 };
        n + 16 * (n / part + 1)
    }
    fn client_after(&mut self, o: &Op, ok: bool, err: &str, val: u64) {
        if err == "panicked" || err == "crashed" {
            self.cl_held.clear();
            self.cl_live.clear();
            self.cl_ready = false;
        }
        if !ok && self.op_tx == 0 {
            self.cl_dirty = true; // refused locally, after the state was already touched
        }
        match o.k {
            OpK::Init => {
                self.cl_ready = ok;
                self.cl_dirty = false;
            }
            OpK::Certificate => {
                self.cl_cert = ok && o.p[1] == 0;
                if o.p[0] < 0 {
                    self.cl_b += self.chain_cost();
                }
            }
            OpK::Digest if o.p[0] < 0 => {
                self.cl_b = 600;
                self.cl_dirty &= !ok;
            }
            OpK::Challenge if ok => self.cl_b = 0,
            // one that failed may have been noted by one side only: it takes GET_DIGESTS to start over
            OpK::Challenge => self.cl_dirty = true,
            OpK::StartSession | OpK::KeyExchange | OpK::PskExchange if ok => {
                if o.k == OpK::StartSession {
                    self.cl_live.insert(val as u32);
                }
                self.cl_held.insert(val as u32);
            }
            OpK::StartSession | OpK::KeyExchange | OpK::PskExchange => self.cl_lost += 1,
            OpK::EndSession => {
                if let Some(s) = self.client_sid(o.p[0]) {
                    self.cl_live.remove(&s);
                    if ok {
                        self.cl_held.remove(&s);
                    }
                }
            }
            _ => {
                if !ok {
                    if let Some(s) = self.client_sid(o.p[0]) {
                        if matches!(o.k, OpK::Heartbeat | OpK::KeyUpdate | OpK::App | OpK::Measure | OpK::Digest | OpK::Certificate | OpK::Vendor) {
                            self.cl_live.remove(&s);
                        }
                    }
                }
            }
        }
    }

    fn end_init(&mut self, owed: bool) {
        let p = &self.pt[REQ];
        let (n, stage) = (p.neg.clone(), p.stage);
        self.cover("connection setup judged");
        self.agree = true;
        if stage < 3 {
            return;
        }
        if ver_bit(n.ver) & self.cfg.req_ver == 0 {
            self.bad("C01", "the requester completes setup with a version it does not support", format!("{:x}", n.ver));
        }
        if owed {
            if let Some(w) = negotiate(&self.cfg) {
                if n.ver != w.ver || n.hash != w.hash || n.asym != w.asym || n.dhe != w.dhe || n.aead != w.aead || n.rasym != w.rasym || n.ks != w.ks || n.mspec != w.mspec || n.opaque != w.opaque {
                    self.bad("C01", "setup does not arrive at the preferred common suite", format!("{:x?} instead of {:x?}", n, w));
                }
            } else {
                self.bad("C01", "setup succeeds without a common choice", format!("{:x?}", n));
            }
        }
    }

    fn end_meas(&mut self, o: &Op, val: u64, out: &[u8], last: Last) {
        let n = self.pt[REQ].neg.clone();
        let sid = self.sid_of(o.p[0]);
        let signed = o.p[3] & 1 != 0;
        // whoever it came from, it is what was asked for
        if !self.evil[REQ] {
            let (index, blocks) = (o.p[2] as u8, val >> 8);
            let asked = match index {
                0 => blocks == 0,
                0xff => true,
                _ => blocks == 1 && out.first() == Some(&index),
            };
            if !asked {
                for p in ["C08", "C18"] {
                    self.bad(p, "the requester takes measurements it did not ask for", format!("index {}: {} blocks, {:x?}", index, blocks, out.first()));
                }
            }
        }
        // what came in clear and unsigned may have been altered
        let trusted = (sid.is_some() || signed || !self.disturbed) && !self.evil[RSP] && !self.evil[REQ] && (self.genuine_rsp() || !self.disturbed);
        if !trusted {
            return;
        }
        // nothing but a signature tells a late answer to an earlier, similar request from a new one
        if let Some((q, Some((rsid, rapp, r)))) = last {
            if !signed && self.late(&q, rsid, rapp, &r) {
                return;
            }
        }
        self.cover("measurement result judged");
        let mhash = if self.evil[RSP] { n.mhash } else { self.cfg.rsp_mhash as u32 };
        let (blocks, rec) = self.device(o.p[2] as u8, mhash);
        let (total, nb) = (val & 0xff, val >> 8);
        match rec {
            None => self.bad("C08", "a measurement the device does not have is returned", format!("index {}", o.p[2])),
            Some(d) => {
                if o.p[2] == 0 {
                    if total != self.cfg.meas_n {
                        self.bad("C08", "the number of measurements returned is not the device's", format!("{} instead of {}", total, self.cfg.meas_n));
                    }
                } else if out != &d[..] || nb != blocks {
                    self.bad("C08", "the measurement record returned is not the device's", format!("index {} blocks {} of {}, {} bytes of {}", o.p[2], nb, blocks, out.len(), d.len()));
                }
            }
        }
    }

    fn sid_of(&self, p: i64) -> Option<u32> {
        if p < 0 {
            None
        } else {
            Some(p as u32)
        }
    }

    /// Did the honest responder send this as the answer to another request than the one awaited?
    fn late(&self, q: &[u8], sid: Option<u32>, app: bool, r: &[u8]) -> bool {
        self.answers.iter().any(|a| a.0 == sid && a.1 == app && a.2 == r && a.3 != q)
    }

    fn end_app(&mut self, o: &Op, out: &[u8], last: Last) {
        let mode = self.cfg.app_mode;
        let calls = self.op_app.clone();
        if self.doe() {
            return; // the binding has no application messages
        }
        match last {
            Some((q, Some((rsid, false, r)))) => {
                if self.late(&q, rsid, false, &r) {
                    self.bad("C19", "a late protocol response is returned to the application as its reply", show(&r));
                } else {
                    self.bad("C19", "a protocol message is returned to the application as its reply", show(&r));
                }
                return;
            }
            Some((q, Some((rsid, true, r)))) if calls.is_empty() && self.late(&q, rsid, true, &r) => return, // an earlier application reply: the application's to tell apart
            _ => {}
        }
        if calls.is_empty() {
            self.bad("C19", "an application exchange succeeds without the handler", "");
            return;
        }
        if !self.disturbed && self.quiet {
            if calls.len() != 1 {
                self.bad("C19", "an application message reaches the handler more than once", format!("{}", calls.len()));
            }
            if calls[0].1 != o.data {
                self.bad("C19", "an application message reaches the handler changed", "");
            }
            if Some(out.to_vec()) != mc::app_reply(mode, &o.data) {
                self.bad("C19", "the application's reply reaches the requester changed", "");
            }
        }
    }

    fn end_vendor(&mut self, o: &Op, out: &[u8], last: Last) {
        let mode = self.cfg.app_mode;
        if let Some((q, Some((rsid, rapp, r)))) = last {
            if self.late(&q, rsid, rapp, &r) {
                return; // to an earlier request of a client that went on after a failure: its own to tell apart
            }
        }
        if !self.disturbed && self.quiet {
            let calls = self.op_vendor.clone();
            if calls.len() != 1 {
                self.bad("C19", "a vendor message does not reach the handler exactly once", format!("{}", calls.len()));
            } else if calls[0].0 != o.data {
                self.bad("C19", "a vendor message reaches the handler changed", "");
            }
            if Some(out.to_vec()) != mc::vendor_reply(mode, &o.data) {
                self.bad("C19", "the vendor handler's reply reaches the requester changed", "");
            }
        }
    }

    fn owes(&self, o: &Op) -> Vec<&'static str> {
        match o.k {
            OpK::Init | OpK::Version | OpK::Capability | OpK::Algorithm => vec!["C01"],
            OpK::Digest | OpK::Certificate => vec!["C09"],
            OpK::Challenge => vec!["C03"],
            OpK::Measure => vec!["C08"],
            OpK::StartSession if o.p[0] != 0 => vec!["C06"],
            OpK::PskExchange | OpK::PskFinish => vec!["C06"],
            OpK::StartSession | OpK::KeyExchange | OpK::Finish | OpK::MutAuth => {
                if self.cfg.req_caps & self.cfg.rsp_caps & CAP_MUT as u64 != 0 && cfg!(feature = "mutauth") {
                    vec!["C05", "C07"]
                } else {
                    vec!["C05"]
                }
            }
            OpK::Heartbeat => vec!["C13"],
            OpK::KeyUpdate => vec!["C12"],
            OpK::EndSession => vec!["C13"],
            OpK::Vendor => vec!["C19"],
            OpK::App => vec!["C19", "C10"],
            _ => vec![],
        }
    }

    /// Is this operation one the negotiated parameters and the build support?
    fn supported(&self, o: &Op) -> bool {
        crate::gen::supported(&self.cfg, o)
    }
}

fn dummy() -> Msg {
    Msg::default()
}
fn is_response(c: u8) -> bool {
    matches!(c, 1..=4 | 0x60 | 0x61 | 0x63..=0x6c | 0x7e | 0x7f)
}
/// capability bits the library knows; the others are reserved and may be ignored
pub const REQ_CAPS_KNOWN: u32 = 0x3ffc6;
pub const RSP_CAPS_KNOWN: u32 = 0x3fffff;
pub fn cap_mask(v: u8) -> u32 {
    match v {
        0x10 => 0x3f,
        0x11 => 0x1ffff,
        _ => 0xffffffff,
    }
}
fn seq_of(salt: &[u8], iv: &[u8]) -> Option<u64> {
    if salt.len() != iv.len() || salt.len() != 12 {
        return None;
    }
    let x: Vec<u8> = salt.iter().zip(iv).map(|(a, b)| a ^ b).collect();
    if x[8..].iter().any(|b| *b != 0) {
        return None;
    }
    Some(key8(&x))
}
fn unframe_msg(cfg: &Cfg, plain: &[u8]) -> (bool, Vec<u8>) {
    mc::unframe(cfg, plain).unwrap_or((false, plain[2.min(plain.len())..].to_vec()))
}

pub struct Judged {
    pub viol: Vec<Violation>,
    pub probes: BTreeMap<&'static str, u64>,
    pub covered: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
}
pub fn judge(plan: &Plan, w: &World) -> Judged {
    let mut c = Ck::new(plan);
    c.run(&w.ev);
    let mut viol = w.viol.clone();
    for v in c.viol {
        if !viol.iter().any(|x| x.prop == v.prop && x.what == v.what) {
            viol.push(v);
        }
    }
    *c.covered.entry("packet carried").or_insert(0) += w.carried;
    Judged { viol, probes: c.probes, covered: c.covered, states: c.states }
}

/// Which judgements count as evaluations of a property.
pub fn about(prop: &str, k: &str) -> bool {
    let l: &[&str] = match prop {
        "C01" => &["VERSION content", "CAPABILITIES content", "ALGORITHMS content", "GET_CAPABILITIES content", "NEGOTIATE_ALGORITHMS content", "negotiated state judged", "connection setup judged"],
        "C02" => &["request served", "version request resets", "application dispatch"],
        "C03" => &["CHALLENGE_AUTH content", "challenge signature made", "challenge accepted"],
        "C04" => &["state snapshot", "packet searched for secrets"],
        "C05" => &["KEY_EXCHANGE_RSP content", "key exchange answered", "key exchange accepted", "FINISH", "session state judged", "session keys judged"],
        "C06" => &["PSK_EXCHANGE_RSP content", "PSK exchange answered", "PSK exchange accepted", "PSK_FINISH", "session state judged", "session keys judged"],
        "C07" => &["mutual authentication judged", "FINISH", "session state judged"],
        "C08" => &["MEASUREMENTS content", "measurement signature made", "signed measurement accepted", "measurement result judged"],
        "C09" => &["DIGESTS content", "CERTIFICATE content", "installed chain judged"],
        "C10" => &["record accepted", "record protected", "application exchange"],
        "C11" => &["record protected"],
        "C12" => &["key update exchange", "session keys judged"],
        "C13" => &["other sessions untouched", "session id is new", "session state judged", "record accepted"],
        "C14" => &["session state judged", "operation owed by what both sides hold"],
        "C15" => &["responder step", "operation"],
        "C16" => &["one response per request", "wait bounded", "responder step"],
        "C17" => &["operation with a failed local primitive", "step with a failed local primitive"],
        "C18" => &["request well formed", "response well formed", "exchange", "error response"],
        "C19" => &["application dispatch", "vendor dispatch", "application exchange", "vendor exchange"],
        "C20" => &["packet carried"],
        "C21" => &["random field is a new draw", "ephemeral key is new", "session id is new"],
        _ => return true,
    };
    l.contains(&k)
}
