//! The simulated world one execution runs in: virtual clock, network, device state, model
//! cryptography behind spdmlib's callback seams, fault injection, and the recorded history.

use crate::plan::*;
use crate::prim::*;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

pub const REQ: usize = 0;
pub const RSP: usize = 1;
pub const NOBODY: usize = 2;

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: &'static str,
    pub what: String,  // stable short description: identifies the kind of violation
    pub detail: String,
}

pub struct CrashToken(pub usize);

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    OpStart { i: usize, quiet: bool }, // quiet: nothing is under way in the network
    OpEnd { i: usize, ok: bool, err: String, val: u64, out: Vec<u8> },
    Wait { node: usize, timeout: u64 },
    StepStart,                            // responder starts one process_message call
    StepEnd { ret: u8 },                  // 0 Ok(true) 1 Ok(false) 2 Err 3 panic 4 crash
    Tx { node: usize, pkt: usize, sid: Option<u32>, app: bool, bytes: Vec<u8> },
    Rx { node: usize, pkt: usize, sid: Option<u32>, app: bool, bytes: Vec<u8> },
    RxRaw { node: usize, pkt: usize, sid: Option<u32> }, // a packet delivered, before any decoding; the session it names
    Sign { node: usize, key: u64, hash: u32, asym: u32, data: Vec<u8>, sig: Vec<u8> },
    Verify { node: usize, key: u64, hash: u32, asym: u32, data: Vec<u8>, sig: Vec<u8>, ok: bool },
    Hmac { node: usize, key: Vec<u8>, data: Vec<u8>, out: Vec<u8> },
    HmacVerify { node: usize, key: Vec<u8>, data: Vec<u8>, mac: Vec<u8>, ok: bool },
    /// a MAC the peer made over whatever the requester holds
    Vouched { mac: Vec<u8> },
    Enc { node: usize, algo: u16, key: Vec<u8>, iv: Vec<u8>, aad: Vec<u8>, plain: Vec<u8> },
    Dec { node: usize, algo: u16, key: Vec<u8>, iv: Vec<u8>, aad: Vec<u8>, ok: bool, plain: Vec<u8> },
    DheGen { node: usize, algo: u16, public: Vec<u8> },
    DheFinal { node: usize, algo: u16, public: Vec<u8>, peer: Vec<u8>, secret: Option<Vec<u8>> },
    Rand { node: usize, bytes: Vec<u8> },
    CertVerify { node: usize, ok: bool, chain: Vec<u8> },
    MeasSummary { node: usize, ty: u8, digest: Vec<u8> },
    Meas { node: usize, index: usize, count: u8, data: Vec<u8> },
    AppCall { sid: u32, payload: Vec<u8>, reply: Vec<u8>, ok: bool, aux: bool },
    VendorCall { payload: Vec<u8>, reply: Vec<u8>, ok: bool },
    SendFail { node: usize },
    Touch { node: usize, sid: u32 }, // protecting a message was attempted in this session
    Crash { node: usize },
    Restart { node: usize },
    Snap { node: usize, s: Box<Snap> },
    Hash { node: usize, out: Vec<u8>, data: Vec<u8> },
    FaultFired { k: FaultK, node: usize }, // node: the one it strikes
    Note { s: String },
}

/// What is observable of a node between two steps, through the library's public interface.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Snap {
    pub conn: u8,
    pub sess: Vec<SnapS>,
    pub ver: u8,
    pub req_caps: u32,
    pub rsp_caps: u32,
    pub req_ct: u8,
    pub rsp_ct: u8,
    pub mspec: u8,
    pub mhash: u32,
    pub hash: u32,
    pub asym: u32,
    pub dhe: u16,
    pub aead: u16,
    pub rasym: u16,
    pub ks: u16,
    pub opaque: u8,
    pub content: u8, // what the device says of its measurements
    pub term: bool, // termination policy last agreed
    pub sizes: [u32; 4], // transfer and message size limits of requester, responder
    pub peer_chain: Vec<Option<Vec<u8>>>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct SnapS {
    pub sid: u32,
    pub state: u8,
    pub psk: bool,
    pub mut_auth: u8,
    pub hb: u8,
    pub secver: u8,
    pub req: (Vec<u8>, Vec<u8>, u64),
    pub rsp: (Vec<u8>, Vec<u8>, u64),
}

#[derive(Clone, Debug)]
pub struct Packet {
    pub bytes: Vec<u8>,
    pub to: usize,
    pub at: u64, // delivery time
    pub id: usize,
}

pub struct AeadUse {
    pub node: usize,
    pub h: u64,
    pub sid: u32,
}

pub struct World {
    pub cfg: Cfg,
    pub now: u64,
    pub cur: usize,
    pub rng: [Rng; 2],
    pub boots: [u32; 2],
    pub calls: [[u32; 32]; 2], // per node per seam
    pub total: [u32; 2],       // seam calls per node
    pub packets: Vec<(usize, Vec<u8>)>, // every packet ever put on the wire: (from, bytes)
    pub q: [VecDeque<Packet>; 2],       // by destination
    pub rxn: [u32; 2],
    pub carried: u64, // calls of the transport binding judged
    pub forge: bool, // the peer vouches for the answer in hand, whatever it says
    pub cut_short: bool,
    pub slot_seen: [[usize; 8]; 2], // secrets known when the slot was last found free
    pub aside: bool, // the simulator itself is calling: nothing is counted or made to fail
    pub hash_ctx: HashMap<usize, (u32, Vec<u8>)>,
    pub next_handle: usize,
    pub bad_handles: Vec<String>,
    pub pre: HashMap<Vec<u8>, Vec<u8>>,
    pub aead_seen: HashMap<(Vec<u8>, Vec<u8>), AeadUse>,
    pub secrets: HashSet<u64>,
    pub secret_names: HashMap<u64, &'static str>,
    pub ev: Vec<Ev>,
    pub viol: Vec<Violation>,
    pub dev_version: u64,
    pub pending_tx: [Option<(u32, bool, Vec<u8>)>; 2],
    pub cur_rx: [Option<usize>; 2],
    // faults by key
    pub net_faults: HashMap<i64, Vec<Fault>>,
    pub seam_faults: HashSet<(usize, u8, u32)>,
    pub crash_at: HashMap<(usize, u32), ()>,
    pub evil_at: HashMap<(usize, u32), Vec<Fault>>,
    pub recv_err: HashSet<(usize, u32)>,
    pub fired: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub quiet: bool, // faults suppressed (recovery phase)
    pub max_steps: u64,
    pub steps: u64,
    pub exhausted: bool,
    pub in_seam: u32,
    pub sends_this_op: u64,
    pub held: Vec<(i64, Packet)>,
    pub dropping: bool, // contexts are being destroyed by the harness
    pub sleep_total: u64,
}

thread_local! {
    static W: Cell<*mut World> = Cell::new(std::ptr::null_mut());
}

pub fn install(w: *mut World) {
    W.with(|c| c.set(w));
}
pub fn active() -> bool {
    W.with(|c| !c.get().is_null())
}
/// The world of the execution running on this thread. Executions are single-threaded.
pub fn w() -> &'static mut World {
    let p = W.with(|c| c.get());
    assert!(!p.is_null(), "no world on this thread");
    unsafe { &mut *p }
}

pub fn key8(b: &[u8]) -> u64 {
    let mut t = [0u8; 8];
    let n = b.len().min(8);
    t[..n].copy_from_slice(&b[..n]);
    u64::from_le_bytes(t)
}

impl World {
    pub fn new(plan: &Plan) -> World {
        let s = plan.cfg.seed;
        let mut net_faults: HashMap<i64, Vec<Fault>> = HashMap::new();
        let mut seam_faults = HashSet::new();
        let mut crash_at = HashMap::new();
        let mut evil_at: HashMap<(usize, u32), Vec<Fault>> = HashMap::new();
        let mut recv_err = HashSet::new();
        for f in &plan.faults {
            match f.k {
                FaultK::Seam => {
                    seam_faults.insert((f.p[0] as usize & 1, f.p[1] as u8, f.at as u32));
                }
                FaultK::Crash => {
                    crash_at.insert((f.p[0] as usize & 1, f.at as u32), ());
                }
                FaultK::Evil | FaultK::EvilLen => {
                    evil_at
                        .entry((f.p[0] as usize & 1, f.at as u32))
                        .or_default()
                        .push(f.clone());
                }
                FaultK::RecvErr => {
                    recv_err.insert((f.p[0] as usize & 1, f.at as u32));
                }
                _ => net_faults.entry(f.at).or_default().push(f.clone()),
            }
        }
        World {
            cfg: plan.cfg.clone(),
            now: 0,
            cur: NOBODY,
            rng: [Rng::new(s ^ 0x1111), Rng::new(s ^ 0x2222)],
            boots: [0, 0],
            calls: [[0; 32]; 2],
            total: [0, 0],
            packets: vec![],
            q: [VecDeque::new(), VecDeque::new()],
            rxn: [0, 0],
            hash_ctx: HashMap::new(),
            carried: 0,
            forge: false,
            cut_short: false,
            slot_seen: [[0; 8]; 2],
            aside: false,
            next_handle: 1,
            bad_handles: vec![],
            pre: HashMap::new(),
            aead_seen: HashMap::new(),
            secrets: HashSet::new(),
            secret_names: HashMap::new(),
            ev: vec![],
            viol: vec![],
            dev_version: 0,
            pending_tx: [None, None],
            cur_rx: [None, None],
            net_faults,
            seam_faults,
            crash_at,
            evil_at,
            recv_err,
            fired: BTreeMap::new(),
            probes: BTreeMap::new(),
            quiet: false,
            max_steps: 20000,
            steps: 0,
            exhausted: false,
            in_seam: 0,
            sends_this_op: 0,
            held: vec![],
            dropping: false,
            sleep_total: 0,
        }
    }

    pub fn violate(&mut self, prop: &'static str, what: impl Into<String>, detail: impl Into<String>) {
        let what = what.into();
        if self.viol.iter().filter(|v| v.prop == prop && v.what == what).count() < 3 {
            self.viol.push(Violation { prop, what, detail: detail.into() });
        }
    }
    pub fn fire(&mut self, k: FaultK) {
        *self.fired.entry(k.name()).or_insert(0) += 1;
        let node = self.cur;
        self.ev.push(Ev::FaultFired { k, node });
    }
    pub fn probe(&mut self, s: &'static str) {
        *self.probes.entry(s).or_insert(0) += 1;
    }

    /// Entered at every seam call. Returns false when the injected fault makes this call fail.
    pub fn seam(&mut self, s: Seam) -> bool {
        let n = self.cur;
        if n > 1 || self.dropping || self.aside {
            return true;
        }
        let c = self.calls[n][s as usize];
        self.calls[n][s as usize] += 1;
        let t = self.total[n];
        self.total[n] += 1;
        if self.quiet {
            return true;
        }
        if self.crash_at.contains_key(&(n, t)) && !std::thread::panicking() {
            self.fire(FaultK::Crash);
            std::panic::resume_unwind(Box::new(CrashToken(n)));
        }
        if self.seam_faults.contains(&(n, s as u8, c)) {
            // a context that is only thrown away needs nothing of its primitive
            if s == Seam::HashFinal && std::backtrace::Backtrace::force_capture().to_string().contains("Drop>::drop") {
                return true;
            }
            self.fire(FaultK::Seam);
            *self.fired.entry(seam_label(s)).or_insert(0) += 1;
            return false;
        }
        true
    }

    pub fn secret(&mut self, name: &'static str, b: &[u8]) {
        if b.len() >= 8 {
            let k = key8(b);
            if k != 0 {
                self.secrets.insert(k);
                self.secret_names.entry(k).or_insert(name);
            }
        }
    }

    // ---- network ---------------------------------------------------------------------------
    pub fn scan_secrets(&mut self, node: usize, bytes: &[u8]) {
        if bytes.len() < 8 || self.secrets.is_empty() {
            return;
        }
        for i in 0..=bytes.len() - 8 {
            let k = key8(&bytes[i..i + 8]);
            if self.secrets.contains(&k) {
                let nm = self.secret_names.get(&k).copied().unwrap_or("secret");
                self.violate(
                    "C04",
                    format!("{} on the wire in clear", nm),
                    format!("node {} packet {} offset {}", node, self.packets.len(), i),
                );
                return;
            }
        }
    }

    pub fn enqueue(&mut self, to: usize, bytes: Vec<u8>, at: u64, id: usize) {
        // stable by time: a packet is queued behind those due no later
        let q = &mut self.q[to];
        let pos = q.iter().position(|p| p.at > at).unwrap_or(q.len());
        q.insert(pos, Packet { bytes, to, at, id });
    }

    /// A node hands a packet to its device.
    pub fn send(&mut self, node: usize, bytes: &[u8]) -> bool {
        if !self.seam(Seam::Send) {
            self.pending_tx[node] = None;
            return false;
        }
        self.sends_this_op += 1;
        if node == REQ {
            self.forge = false;
        }
        let id = self.packets.len();
        self.scan_secrets(node, bytes);
        self.packets.push((node, bytes.to_vec()));
        // history
        match self.pending_tx[node].take() {
            Some((sid, app, plain)) => {
                if is_secured(&self.cfg, bytes) {
                    self.ev.push(Ev::Tx { node, pkt: id, sid: Some(sid), app, bytes: plain });
                } else {
                    self.clear_tx(node, id, bytes);
                }
            }
            None => self.clear_tx(node, id, bytes),
        }
        let to = 1 - node;
        let mut at = self.now + self.cfg.latency;
        let mut body = Some(bytes.to_vec());
        let mut ok = true;
        let mut copies: Vec<(u64, Vec<u8>)> = vec![];
        let faults = if self.quiet { vec![] } else { self.net_faults.get(&(id as i64)).cloned().unwrap_or_default() };
        for f in &faults {
            self.fire(f.k);
            match f.k {
                FaultK::Drop => body = None,
                FaultK::Dup => {
                    if let Some(b) = &body {
                        copies.push((at + f.p[0].max(0) as u64, b.clone()));
                    }
                }
                FaultK::Delay => at += f.p[0].max(0) as u64,
                FaultK::Corrupt => {
                    if let Some(b) = &mut body {
                        if !b.is_empty() {
                            let o = (f.p[0] as usize) % b.len();
                            b[o] ^= f.p[1] as u8;
                        }
                    }
                }
                FaultK::SetField => {
                    if let Some(b) = &mut body {
                        for (i, x) in f.data.iter().enumerate() {
                            let o = f.p[0] as usize + i;
                            if o < b.len() {
                                b[o] = *x;
                            }
                        }
                    }
                }
                // a responder that means what it says: the answer is altered and what proves it is made anew
                FaultK::Forge => {
                    if let Some(b) = body.as_mut().filter(|_| node == RSP) {
                        let h = if self.cfg.transport == 0 { 1 } else { 8 };
                        if b.len() > h {
                            if f.data.is_empty() {
                                let o = h + f.p[0] as usize % (b.len() - h);
                                b[o] ^= f.p[1] as u8;
                            }
                            for (i, x) in f.data.iter().enumerate() {
                                if let Some(y) = b.get_mut(h + f.p[0] as usize + i) {
                                    *y = *x;
                                }
                            }
                            self.forge = true;
                        }
                    }
                }
                FaultK::Replace => {
                    // another message in the same kind of packet
                    let sec = is_secured(&self.cfg, bytes);
                    body = Some(wrap(&self.cfg, sec, &f.data));
                }
                FaultK::Trunc => {
                    if let Some(b) = &mut body {
                        let n = f.p[0] as usize % (b.len() + 1);
                        b.truncate(n);
                    }
                }
                FaultK::Extend => {
                    if let Some(b) = &mut body {
                        b.extend_from_slice(&f.data);
                    }
                }
                FaultK::ReplaceOld => {
                    let j = f.p[0] as usize;
                    if j < self.packets.len() {
                        body = Some(self.packets[j].1.clone());
                    }
                }
                FaultK::InjectBefore => self.enqueue(to, f.data.clone(), self.now, usize::MAX),
                FaultK::InjectOldBefore => {
                    let j = f.p[0] as usize;
                    if j < self.packets.len() {
                        let b = self.packets[j].1.clone();
                        self.enqueue(to, b, self.now, usize::MAX);
                    }
                }
                FaultK::Reflect => {
                    if let Some(b) = &body {
                        let b = b.clone();
                        self.enqueue(node, b, at, usize::MAX);
                        body = None;
                    }
                }
                FaultK::SendErr => {
                    body = None;
                    ok = false;
                }
                FaultK::SendErrDelivered => ok = false,
                FaultK::HoldUntil => {
                    if let Some(b) = body.take() {
                        self.held.push((f.p[0], Packet { bytes: b, to, at: 0, id }));
                    }
                }
                _ => {}
            }
        }
        if !ok {
            self.ev.push(Ev::SendFail { node });
        }
        if let Some(b) = body {
            self.enqueue(to, b, at, id);
        }
        for (t, b) in copies {
            self.enqueue(to, b, t, usize::MAX);
        }
        // packets held until this one has been sent
        let mut i = 0;
        while i < self.held.len() {
            if self.held[i].0 <= id as i64 {
                let (_, p) = self.held.remove(i);
                let now = self.now;
                self.enqueue(p.to, p.bytes, now, p.id);
            } else {
                i += 1;
            }
        }
        ok
    }

    fn clear_tx(&mut self, node: usize, pkt: usize, bytes: &[u8]) {
        match strip(&self.cfg, bytes) {
            Some((false, m)) => self.ev.push(Ev::Tx { node, pkt, sid: None, app: false, bytes: m }),
            _ => self.ev.push(Ev::Note { s: format!("node {} sent an unparsable packet", node) }),
        }
    }

    pub fn delivered(&mut self, node: usize, id: usize, bytes: &[u8]) {
        let inner = strip(&self.cfg, bytes);
        let sid = match &inner {
            Some((true, m)) if m.len() >= 4 => Some(u32::from_le_bytes([m[0], m[1], m[2], m[3]])),
            _ => None,
        };
        self.ev.push(Ev::RxRaw { node, pkt: id, sid });
        self.cur_rx[node] = Some(id);
        if let Some((false, m)) = inner {
            self.ev.push(Ev::Rx { node, pkt: id, sid: None, app: false, bytes: m });
        }
    }
}

pub fn seam_label(s: Seam) -> &'static str {
    match s {
        Seam::Rand => "seam:rand",
        Seam::HashAll | Seam::HashInit | Seam::HashUpdate | Seam::HashFinal | Seam::HashDup => "seam:hash",
        Seam::Hmac => "seam:hmac",
        Seam::HmacVerify => "seam:hmac_verify",
        Seam::Sign => "seam:sign",
        Seam::Verify => "seam:verify",
        Seam::AeadEnc => "seam:aead_encrypt",
        Seam::AeadDec => "seam:aead_decrypt",
        Seam::HkdfExtract | Seam::HkdfExpand => "seam:hkdf",
        Seam::DheGen | Seam::DheFinal => "seam:dhe",
        Seam::CertGet | Seam::CertVerify => "seam:cert",
        Seam::MeasCollect | Seam::MeasSummary => "seam:measurement",
        Seam::PskHs | Seam::PskMaster => "seam:psk",
        Seam::Vendor | Seam::App => "seam:handler",
        Seam::Send | Seam::Recv => "seam:device_io",
    }
}

/// Is this transport packet a secured message?
pub fn is_secured(cfg: &Cfg, b: &[u8]) -> bool {
    if cfg.transport == 0 {
        !b.is_empty() && b[0] == 6
    } else {
        b.len() >= 8 && b[2] == 2
    }
}

/// The simulator's own reading of the two transport bindings (DSP0275 / PCIe DOE).
pub fn strip(cfg: &Cfg, b: &[u8]) -> Option<(bool, Vec<u8>)> {
    if cfg.transport == 0 {
        if b.is_empty() {
            return None;
        }
        match b[0] {
            5 => Some((false, b[1..].to_vec())),
            6 => Some((true, b[1..].to_vec())),
            _ => None,
        }
    } else {
        if b.len() < 8 || b[0] != 1 || b[1] != 0 {
            return None;
        }
        let dw = u32::from_le_bytes([b[4], b[5], b[6], b[7]]) & 0x3ffff;
        let len = if dw == 0 { 1usize << 20 } else { dw as usize * 4 };
        if len < 8 || b.len() < len {
            return None;
        }
        match b[2] {
            1 => Some((false, b[8..len].to_vec())),
            2 => Some((true, b[8..len].to_vec())),
            _ => None,
        }
    }
}

pub fn wrap(cfg: &Cfg, secured: bool, m: &[u8]) -> Vec<u8> {
    if cfg.transport == 0 {
        let mut v = vec![if secured { 6 } else { 5 }];
        v.extend_from_slice(m);
        v
    } else {
        let pad = (4 - m.len() % 4) % 4;
        let dw = (8 + m.len() + pad) / 4;
        let mut v = vec![1, 0, if secured { 2 } else { 1 }, 0];
        // 18 bits of length, of which 0 is the largest
        v.extend_from_slice(&((dw & 0x3ffff) as u32).to_le_bytes());
        v.extend_from_slice(m);
        v.extend(std::iter::repeat(0).take(pad));
        v
    }
}
