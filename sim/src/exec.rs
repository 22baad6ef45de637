//! Executes a plan: a real requester and a real responder (spdmlib) in one thread, joined by the
//! simulated network, with virtual time. Everything that happens is appended to the history.

use crate::plan::*;
use crate::world::*;
use crate::{crypto as mc, prim::*};
use codec::{Codec, Reader, Writer};
use mctp_transport::MctpTransportEncap;
use pcidoe_transport::PciDoeTransportEncap;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
use spdmlib::responder::ResponderContext;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

// An allocator that can write down the blocks it hands out.
struct Rec;
struct RecBuf {
    on: Cell<bool>,
    n: Cell<usize>,
    at: std::cell::UnsafeCell<[(usize, usize); 128]>,
}
thread_local! {
    static REC: RecBuf = const { RecBuf { on: Cell::new(false), n: Cell::new(0), at: std::cell::UnsafeCell::new([(0, 0); 128]) } };
}
unsafe impl std::alloc::GlobalAlloc for Rec {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        let _ = REC.try_with(|r| {
            if r.on.get() && r.n.get() < 128 {
                (*r.at.get())[r.n.get()] = (p as usize, l.size());
                r.n.set(r.n.get() + 1);
            }
        });
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Rec = Rec;
fn rec_start() {
    REC.with(|r| {
        r.n.set(0);
        r.on.set(true);
    });
}
fn rec_stop() -> &'static [(usize, usize)] {
    REC.with(|r| {
        r.on.set(false);
        unsafe { std::slice::from_raw_parts((*r.at.get()).as_ptr(), r.n.get()) }
    })
}

pub const MAX_OP_STEPS: u64 = 9000;

struct Io(usize);

impl SpdmDeviceIo for Io {
    fn send(&mut self, buffer: &[u8]) -> SpdmResult {
        if w().send(self.0, buffer) {
            Ok(())
        } else {
            Err(SPDM_STATUS_SEND_FAIL)
        }
    }
    fn receive(&mut self, buffer: &mut [u8], timeout: usize) -> Result<usize, usize> {
        let node = self.0;
        let w = w();
        w.ev.push(Ev::Wait { node, timeout: timeout as u64 });
        w.steps += 1;
        if w.steps > MAX_OP_STEPS {
            w.exhausted = true;
        }
        if w.exhausted {
            return Err(0);
        }
        if !w.seam(Seam::Recv) {
            return Err(0);
        }
        if node == RSP {
            let ready = w.q[RSP].front().map_or(false, |p| p.at <= w.now);
            if !ready {
                return Err(0);
            }
            let p = w.q[RSP].pop_front().unwrap();
            return take(node, p, buffer);
        }
        let deadline = w.now.saturating_add(timeout as u64);
        loop {
            let w = crate::world::w();
            let a = w.q[REQ].front().map(|p| p.at);
            let b = w.q[RSP].front().map(|p| p.at);
            let (next, to) = match (a, b) {
                (None, None) => (u64::MAX, REQ),
                (Some(a), None) => (a, REQ),
                (None, Some(b)) => (b, RSP),
                (Some(a), Some(b)) => {
                    if a <= b {
                        (a, REQ)
                    } else {
                        (b, RSP)
                    }
                }
            };
            if next > deadline || (a.is_none() && b.is_none()) {
                w.now = w.now.max(deadline.min(u64::MAX / 2));
                return Err(0);
            }
            w.now = w.now.max(next);
            if to == REQ {
                let p = w.q[REQ].pop_front().unwrap();
                return take(node, p, buffer);
            }
            w.steps += 1;
            if w.steps > MAX_OP_STEPS {
                w.exhausted = true;
                return Err(0);
            }
            sim().step_rsp();
        }
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}

fn take(node: usize, p: Packet, buffer: &mut [u8]) -> Result<usize, usize> {
    let n = p.bytes.len().min(buffer.len());
    buffer[..n].copy_from_slice(&p.bytes[..n]);
    w().delivered(node, p.id, &p.bytes[..n]);
    Ok(n)
}

thread_local! {
    static SIM: Cell<*mut Sim> = Cell::new(std::ptr::null_mut());
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}
fn sim() -> &'static mut Sim {
    let p = SIM.with(|c| c.get());
    unsafe { &mut *p }
}

/// Panics inside an execution are recorded, not printed.
pub fn hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if active() {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        } else {
            old(i)
        }
    }));
}

pub struct Sim {
    pub req: Option<Box<RequesterContext<'static>>>,
    pub rsp: Option<Box<ResponderContext<'static>>>,
    pub sids: Vec<u32>,
    pub seam_fired_at_entry: u64,
    /// how far the client's last negotiation got: 0 nothing, 1 version, 2 capabilities, 3 algorithms
    pub stage: u8,
}

fn leak_io(n: usize) -> &'static mut dyn SpdmDeviceIo {
    Box::leak(Box::new(Io(n)))
}
/// The real binding, each call compared with the simulator's own reading of it.
struct Binding<T> {
    inner: T,
}

impl<T: SpdmTransportEncap> Binding<T> {
    fn sent(&self, what: &str, r: &SpdmResult<usize>, out: &[u8], want: &[u8]) {
        let w = w();
        w.carried += 1;
        match r {
            Ok(n) if out.get(..*n) == Some(want) => {}
            Ok(n) => w.violate("C20", format!("the binding encapsulates {} wrongly", what), format!("{:02x?} instead of {:02x?}", head(out.get(..*n).unwrap_or(&[])), head(want))),
            Err(_) if want.len() > out.len() => {}
            Err(_) => w.violate("C20", format!("the binding refuses to carry {} that fits", what), format!("{} bytes into {}", want.len(), out.len())),
        }
    }
    fn got(&self, what: &str, r: &SpdmResult<(usize, bool)>, out: &[u8], want: Option<(bool, Vec<u8>)>, raw: &[u8]) {
        let w = w();
        w.carried += 1;
        match (r, want) {
            (Ok((n, k)), Some((wk, m))) => {
                if out.get(..*n) != Some(&m[..]) {
                    w.violate("C20", format!("the binding delivers {} other than the one carried", what), format!("{} bytes, {} carried: {:02x?}", n, m.len(), head(raw)));
                }
                if *k != wk {
                    w.violate("C20", format!("the binding delivers {} as one of another kind", what), format!("{:02x?}", head(raw)));
                }
            }
            (Ok(_), None) => w.violate("C20", format!("the binding accepts {} it must refuse", what), format!("{} bytes {:02x?}", raw.len(), head(raw))),
            (Err(_), Some((_, m))) if m.len() <= out.len() => w.violate("C20", format!("the binding refuses {} it must accept", what), format!("{} bytes {:02x?}", raw.len(), head(raw))),
            _ => {}
        }
    }
}

fn head(b: &[u8]) -> &[u8] {
    &b[..b.len().min(24)]
}

impl<T: SpdmTransportEncap> SpdmTransportEncap for Binding<T> {
    fn encap(&mut self, m: &[u8], out: &mut [u8], secured: bool) -> SpdmResult<usize> {
        let r = self.inner.encap(m, out, secured);
        self.sent("a packet", &r, out, &wrap(&w().cfg, secured, m));
        r
    }
    fn decap(&mut self, raw: &[u8], out: &mut [u8]) -> SpdmResult<(usize, bool)> {
        let r = self.inner.decap(raw, out);
        self.got("a packet", &r, out, strip(&w().cfg, raw), raw);
        r
    }
    fn encap_app(&mut self, m: &[u8], out: &mut [u8], app: bool) -> SpdmResult<usize> {
        let r = self.inner.encap_app(m, out, app);
        let want = if w().cfg.transport == 0 { [&[if app { 1 } else { 5 }], m].concat() } else { m.to_vec() };
        self.sent("a session message", &r, out, &want);
        r
    }
    fn decap_app(&mut self, raw: &[u8], out: &mut [u8]) -> SpdmResult<(usize, bool)> {
        let r = self.inner.decap_app(raw, out);
        let want = match raw.first() {
            _ if w().cfg.transport != 0 => Some((false, raw.to_vec())),
            Some(5) => Some((false, raw[1..].to_vec())),
            Some(1) => Some((true, raw[1..].to_vec())),
            _ => None,
        };
        self.got("a session message", &r, out, want, raw);
        r
    }
    fn get_sequence_number_count(&mut self) -> u8 {
        let r = self.inner.get_sequence_number_count();
        if r != if w().cfg.transport == 0 { 2 } else { 0 } {
            w().violate("C20", "the binding gives another sequence number size than its specification".to_string(), format!("{}", r));
        }
        r
    }
    fn get_max_random_count(&mut self) -> u16 {
        let r = self.inner.get_max_random_count();
        if r != if w().cfg.transport == 0 { 32 } else { 0 } {
            w().violate("C20", "the binding gives another amount of random padding than its specification".to_string(), format!("{}", r));
        }
        r
    }
}

fn transport(cfg: &Cfg) -> &'static mut dyn SpdmTransportEncap {
    // zero-sized types: leaking them costs nothing
    if cfg.transport == 0 {
        Box::leak(Box::new(Binding { inner: MctpTransportEncap {} }))
    } else {
        Box::leak(Box::new(Binding { inner: PciDoeTransportEncap {} }))
    }
}

/// The first line of a message, the same whatever the numbers in it.
fn no_numbers(msg: &str) -> String {
    let mut s = String::new();
    for c in msg.lines().next().unwrap_or("").chars() {
        if !c.is_ascii_digit() {
            s.push(c);
        } else if !s.ends_with('N') {
            s.push('N');
        }
    }
    s
}

fn carry(o: &Op) -> Out {
    let t = transport(&w().cfg);
    let m: Vec<u8> = (0..o.p[0] as usize).map(|i| (i as u32).wrapping_mul(0x9e37_79b1).to_be_bytes()[0]).collect();
    let (kind, layer) = (o.p[1] & 1 != 0, o.p[1] & 2 != 0);
    let room = |n: usize| (n as i64 + (o.p[1] >> 2)).max(0) as usize;
    let size = if layer { m.len() + (w().cfg.transport == 0) as usize } else { wrap(&w().cfg, kind, &m).len() };
    let mut b = vec![0u8; room(size)];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut b = match if layer { t.encap_app(&m, &mut b, kind) } else { t.encap(&m, &mut b, kind) } {
            Ok(n) => b[..n.min(b.len())].to_vec(),
            // what did not fit is carried by the simulator
            Err(_) if !layer => wrap(&w().cfg, kind, &m),
            Err(_) => m.clone(),
        };
        let a = o.p[3];
        match o.p[2] {
            1 => b.truncate(b.len().saturating_sub(a as usize)),
            2 => b.resize(b.len() + a as usize, 0x5a),
            3 if !b.is_empty() => {
                let i = (a >> 8) as usize % b.len().min(8);
                b[i] ^= a as u8;
            }
            4 => b = o.data.clone(),
            _ => {}
        }
        let n = strip(&w().cfg, &b).map_or(b.len(), |x| x.1.len());
        let mut c = vec![0u8; room(if layer { b.len() } else { n })];
        let _ = if layer { t.decap_app(&b, &mut c).map(|x| x.0) } else { t.decap(&b, &mut c).map(|x| x.0) };
    }));
    if r.is_err() {
        let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        w().violate("C20", format!("the binding panics: {}", no_numbers(&msg)), format!("at {}", loc));
    }
    Ok((0, vec![]))
}

pub fn versions(mask: u64) -> [SpdmVersion; 3] {
    let all = [SpdmVersion::SpdmVersion10, SpdmVersion::SpdmVersion11, SpdmVersion::SpdmVersion12];
    let have: Vec<SpdmVersion> = (0..3).filter(|i| mask >> i & 1 == 1).map(|i| all[i as usize]).collect();
    let last = *have.last().unwrap_or(&SpdmVersion::SpdmVersion12);
    let mut v = [last; 3];
    for (i, x) in have.iter().enumerate() {
        v[i] = *x;
    }
    v
}

fn chain(bytes: &[u8]) -> Option<SpdmCertChainData> {
    let mut c = SpdmCertChainData::default();
    if bytes.len() > c.data.len() {
        return None;
    }
    c.data_size = bytes.len() as u16;
    c.data[..bytes.len()].copy_from_slice(bytes);
    Some(c)
}

fn config(cfg: &Cfg, node: usize) -> SpdmConfigInfo {
    let r = node == REQ;
    let pick = |a: u64, b: u64| if r { a } else { b };
    SpdmConfigInfo {
        spdm_version: versions(pick(cfg.req_ver, cfg.rsp_ver)),
        req_capabilities: SpdmRequestCapabilityFlags::from_bits_truncate(cfg.req_caps as u32),
        rsp_capabilities: SpdmResponseCapabilityFlags::from_bits_truncate(cfg.rsp_caps as u32),
        req_ct_exponent: cfg.req_ct as u8,
        rsp_ct_exponent: cfg.rsp_ct as u8,
        measurement_specification: SpdmMeasurementSpecification::from_bits_truncate(pick(cfg.req_mspec, cfg.rsp_mspec) as u8),
        measurement_hash_algo: SpdmMeasurementHashAlgo::from_bits_truncate(cfg.rsp_mhash as u32),
        base_hash_algo: SpdmBaseHashAlgo::from_bits_truncate(pick(cfg.req_hash, cfg.rsp_hash) as u32),
        base_asym_algo: SpdmBaseAsymAlgo::from_bits_truncate(pick(cfg.req_asym, cfg.rsp_asym) as u32),
        dhe_algo: SpdmDheAlgo::from_bits_truncate(pick(cfg.req_dhe, cfg.rsp_dhe) as u16),
        aead_algo: SpdmAeadAlgo::from_bits_truncate(pick(cfg.req_aead, cfg.rsp_aead) as u16),
        req_asym_algo: SpdmReqAsymAlgo::from_bits_truncate(pick(cfg.req_rasym, cfg.rsp_rasym) as u16),
        key_schedule_algo: SpdmKeyScheduleAlgo::from_bits_truncate(pick(cfg.req_ks, cfg.rsp_ks) as u16),
        opaque_support: SpdmOpaqueSupport::from_bits_truncate(pick(cfg.req_opaque, cfg.rsp_opaque) as u8),
        session_policy: cfg.policy as u8,
        runtime_content_change_support: cfg.content_change != 0,
        data_transfer_size: pick(cfg.req_dts, cfg.rsp_dts) as u32,
        max_spdm_msg_size: pick(cfg.req_max, cfg.rsp_max) as u32,
        heartbeat_period: cfg.hb as u8,
        secure_spdm_version: [cfg.secver0 as u8, cfg.secver1 as u8],
    }
}

/// the root certificate bytes a peer is provisioned with
pub fn root_cert(cfg: &Cfg, responder: bool, which: u64) -> Vec<u8> {
    let mut c = cfg.clone();
    if which == 2 {
        // a root that issued nothing here
        c.certs = 1;
        return mc::make_chain(&c, responder, 1, 7);
    }
    let full = mc::make_chain(&c, responder, 0, 0);
    let (a, b) = mc::cert_at(&full, 0).unwrap();
    full[a..b].to_vec()
}

fn provision(cfg: &Cfg, node: usize) -> SpdmProvisionInfo {
    let responder = node == RSP;
    let (slots, ident, root) = if responder {
        (cfg.rsp_slots, cfg.rsp_ident, cfg.rsp_root)
    } else {
        (cfg.req_slots, cfg.req_ident, cfg.req_root)
    };
    let mut p = SpdmProvisionInfo::default();
    for s in 0..SPDM_MAX_SLOT_NUMBER {
        if slots >> s & 1 == 1 {
            p.my_cert_chain_data[s] = chain(&mc::make_chain(cfg, responder, ident, s as u64));
        }
    }
    // root: 0 none, 1 the peer's genuine root, 2 some other root
    if root != 0 {
        p.peer_root_cert_data = chain(&root_cert(cfg, !responder, root));
    }
    p
}

fn st(e: SpdmStatus) -> String {
    format!("{:?}", e.status_code)
}

/// what the integrator passes on to the application handler
pub const APP_AUX: [u8; 9] = [1, 2, 3, 0, 0xff, 0x80, 7, 8, 9];

pub type Out = Result<(u64, Vec<u8>), String>;

impl Sim {
    pub fn boot(&mut self, node: usize) {
        let w = w();
        let cfg = w.cfg.clone();
        let prev = w.cur;
        w.cur = node;
        w.boots[node] += 1;
        w.ev.push(Ev::Restart { node });
        w.pending_tx[node] = None;
        if node == REQ {
            self.stage = 0;
            self.req = Some(Box::new(RequesterContext::new(leak_io(REQ), transport(&cfg), config(&cfg, REQ), provision(&cfg, REQ))));
        } else {
            self.rsp = Some(Box::new(ResponderContext::new(leak_io(RSP), transport(&cfg), config(&cfg, RSP), provision(&cfg, RSP))));
        }
        w.cur = prev;
    }
    pub fn kill(&mut self, node: usize) {
        let w = w();
        w.ev.push(Ev::Crash { node });
        w.dropping = true;
        let prev = w.cur;
        w.cur = node;
        if node == REQ {
            self.req = None;
        } else {
            self.rsp = None;
        }
        w.cur = prev;
        w.dropping = false;
        w.pending_tx[node] = None;
    }
    fn local_fault_count() -> u64 {
        let w = w();
        w.fired.get("Seam").copied().unwrap_or(0) + w.fired.get("SendErr").copied().unwrap_or(0) + w.fired.get("SendErrDelivered").copied().unwrap_or(0)
    }

    /// Runs library code of `node`; returns None when it crashed or panicked (the node is then
    /// restarted with only its provisioned state).
    fn guarded<T>(&mut self, node: usize, f: impl FnOnce(&mut Sim) -> T) -> (Option<T>, u8) {
        let before = Self::local_fault_count();
        let prev = w().cur;
        w().cur = node;
        let me = self as *mut Sim;
        let r = catch_unwind(AssertUnwindSafe(|| f(unsafe { &mut *me })));
        let w = w();
        w.cur = prev;
        match r {
            Ok(v) => (Some(v), 0),
            Err(e) => {
                let code = if e.downcast_ref::<CrashToken>().is_some() {
                    4
                } else {
                    let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                    let local = Self::local_fault_count() > before;
                    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or("").to_string();
                    let short = file.rsplit("/repo/").next().unwrap_or("").to_string();
                    let name = if node == REQ { "requester" } else { "responder" };
                    let what = format!("{} panics in {}: {}", name, short, no_numbers(&msg));
                    w.violate(if local { "C17" } else { "C15" }, what.clone(), format!("at {}", loc));
                    if !local && short.contains("_transport/") {
                        // a binding that falls over has not rejected the packet
                        w.violate("C20", what, format!("at {}", loc));
                    }
                    3
                };
                // what a call held when it was cut short is gone with its node
                w.cut_short = true;
                self.kill(node);
                self.boot(node);
                (None, code)
            }
        }
    }

    pub fn step_rsp(&mut self) {
        w().ev.push(Ev::StepStart);
        w().pending_tx[RSP] = None;
        let (r, code) = self.guarded(RSP, |s| {
            let r = s.rsp.as_mut().unwrap().process_message(ST1, &APP_AUX);
            match r {
                Ok(true) => 0u8,
                Ok(false) => 1,
                Err(_) => 2,
            }
        });
        let ret = r.unwrap_or(code);
        w().ev.push(Ev::StepEnd { ret });
        self.snap(RSP);
    }

    pub fn snap(&mut self, node: usize) {
        let c = if node == REQ { &mut self.req.as_mut().unwrap().common } else { &mut self.rsp.as_mut().unwrap().common };
        let n = &c.negotiate_info;
        let mut s = Snap {
            conn: c.runtime_info.get_connection_state().get_u8(),
            sess: vec![],
            ver: n.spdm_version_sel.get_u8(),
            req_caps: n.req_capabilities_sel.bits(),
            rsp_caps: n.rsp_capabilities_sel.bits(),
            req_ct: n.req_ct_exponent_sel,
            rsp_ct: n.rsp_ct_exponent_sel,
            mspec: n.measurement_specification_sel.bits(),
            mhash: n.measurement_hash_sel.bits(),
            hash: n.base_hash_sel.bits(),
            asym: n.base_asym_sel.bits(),
            dhe: n.dhe_sel.bits(),
            aead: n.aead_sel.bits(),
            rasym: n.req_asym_sel.bits(),
            ks: n.key_schedule_sel.bits(),
            term: n.termination_policy_set,
            content: c.runtime_info.content_changed.bits(),
            opaque: n.opaque_data_support.bits(),
            sizes: [n.req_data_transfer_size_sel, n.req_max_spdm_msg_size_sel, n.rsp_data_transfer_size_sel, n.rsp_max_spdm_msg_size_sel],
            peer_chain: c.peer_info.peer_cert_chain.iter().map(|x| x.as_ref().map(|b| b.as_ref().to_vec())).collect(),
        };
        for x in c.session.iter_mut() {
            let (a, b) = x.export_keys();
            s.sess.push(SnapS {
                sid: x.get_session_id(),
                state: x.get_session_state().get_u8(),
                psk: x.get_use_psk(),
                mut_auth: x.get_mut_auth_requested().bits(),
                hb: x.heartbeat_period,
                secver: x.secure_spdm_version_sel,
                req: (a.encryption_key.as_ref().to_vec(), a.salt.as_ref().to_vec(), a.sequence_number),
                rsp: (b.encryption_key.as_ref().to_vec(), b.salt.as_ref().to_vec(), b.sequence_number),
            });
        }
        let w = w();
        // a free slot holds no secret
        for (i, x) in c.session.iter().enumerate() {
            let free = x.get_session_id() == INVALID_SESSION_ID;
            let was = std::mem::replace(&mut w.slot_seen[node][i.min(7)], if free { w.secrets.len() } else { usize::MAX });
            // nothing new to find in a slot that was clean and stayed free
            if free && !w.secrets.is_empty() && was != w.secrets.len() {
                // behind its pointers: a copy of the slot copies every block it owns
                w.aside = true;
                rec_start();
                let copy = x.clone();
                let blocks = rec_stop();
                for (at, len) in blocks {
                    if *len < 8 || *len > 4096 {
                        continue;
                    }
                    let b = unsafe { std::slice::from_raw_parts(*at as *const u8, *len) };
                    let hit = (0..=len - 8).find(|&o| w.secrets.contains(&key8(&b[o..o + 8])));
                    if let Some(o) = hit {
                        let nm = w.secret_names.get(&key8(&b[o..o + 8])).copied().unwrap_or("secret");
                        let who = if node == REQ { "requester" } else { "responder" };
                        w.violate("C04", format!("{} left in a free session slot of the {}", nm, who), format!("slot {}", i));
                        break;
                    }
                }
                drop(copy);
                w.aside = false;
                let p = x as *const _ as *const u8;
                let n = std::mem::size_of_val(x);
                let b = unsafe { std::slice::from_raw_parts(p, n) };
                let mut o = 0;
                while o + 8 <= n {
                    // skip runs of zeros quickly
                    let v = unsafe { std::ptr::read_unaligned(p.add(o) as *const u64) };
                    if v == 0 {
                        o += 8;
                        // step back so that no unaligned value is missed
                        while o > 0 && o < n && b[o - 1] != 0 {
                            o -= 1;
                        }
                        continue;
                    }
                    if w.secrets.contains(&v) {
                        let nm = w.secret_names.get(&v).copied().unwrap_or("secret");
                        let who = if node == REQ { "requester" } else { "responder" };
                        w.violate("C04", format!("{} left in a free session slot of the {}", nm, who), format!("slot {} offset {}", i, o));
                        break;
                    }
                    o += 1;
                }
            }
        }
        w.ev.push(Ev::Snap { node, s: Box::new(s) });
    }

    fn sref(&self, p: i64) -> Result<Option<u32>, String> {
        if p < 0 {
            return Ok(None);
        }
        match self.sids.get(p as usize) {
            Some(&s) if s != 0 => Ok(Some(s)),
            _ => Err("skipped".into()),
        }
    }
    fn need(&self, p: i64) -> Result<u32, String> {
        self.sref(p)?.ok_or_else(|| "skipped".to_string())
    }

    pub fn drain(&mut self, horizon: u64) {
        let end = w().now.saturating_add(horizon);
        let mut n = 0;
        while let Some(at) = w().q[RSP].front().map(|p| p.at) {
            if at > end || n > 400 {
                break;
            }
            n += 1;
            w().now = w().now.max(at);
            w().steps = 0;
            self.step_rsp();
        }
    }

    fn sum(t: i64) -> SpdmMeasurementSummaryHashType {
        match t {
            1 => SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb,
            0xff => SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeAll,
            _ => SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone,
        }
    }

    /// The library call of one operation (requester side).
    fn call(&mut self, o: &Op) -> Out {
        let sidarg = |s: &Sim| s.sref(o.p[0]);
        macro_rules! req {
            () => {
                self.req.as_mut().unwrap()
            };
        }
        let unit = |r: SpdmResult| r.map(|_| (0u64, vec![])).map_err(st);
        match o.k {
            OpK::Init => unit(req!().init_connection()),
            OpK::Version => unit(req!().send_receive_spdm_version()),
            OpK::Capability => unit(req!().send_receive_spdm_capability()),
            OpK::Algorithm => unit(req!().send_receive_spdm_algorithm()),
            OpK::Digest => {
                let s = sidarg(self)?;
                unit(req!().send_receive_spdm_digest(s))
            }
            OpK::Certificate => {
                let s = sidarg(self)?;
                unit(req!().send_receive_spdm_certificate(s, o.p[1] as u8))
            }
            OpK::Challenge => unit(req!().send_receive_spdm_challenge(o.p[0] as u8, Self::sum(o.p[1]))),
            OpK::Measure => {
                let s = sidarg(self)?;
                let mut total = 0u8;
                let mut rec = Box::new(SpdmMeasurementRecordStructure::default());
                let operation = match o.p[2] {
                    0 => SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber,
                    0xff => SpdmMeasurementOperation::SpdmMeasurementRequestAll,
                    x => SpdmMeasurementOperation::Unknown(x as u8),
                };
                let attr = SpdmMeasurementAttributes::from_bits_truncate(o.p[3] as u8);
                let r = req!().send_receive_spdm_measurement(s, o.p[1] as u8, attr, operation, &mut total, &mut rec);
                match r {
                    Ok(()) => {
                        let n = (rec.measurement_record_length.get() as usize).min(rec.measurement_record_data.len());
                        let v = (total as u64) | (rec.number_of_blocks as u64) << 8;
                        Ok((v, rec.measurement_record_data[..n].to_vec()))
                    }
                    Err(e) => Err(st(e)),
                }
            }
            OpK::StartSession => {
                let r = req!().start_session(o.p[0] != 0, o.p[1] as u8, Self::sum(o.p[2]));
                r.map(|s| (s as u64, vec![])).map_err(st)
            }
            OpK::KeyExchange => {
                let r = req!().send_receive_spdm_key_exchange(o.p[0] as u8, Self::sum(o.p[1]));
                r.map(|s| (s as u64, vec![])).map_err(st)
            }
            OpK::MutAuth => {
                let s = self.need(o.p[0])?;
                #[cfg(feature = "mutauth")]
                {
                    unit(req!().session_based_mutual_authenticate(s))
                }
                #[cfg(not(feature = "mutauth"))]
                {
                    let _ = s;
                    Ok((0, vec![]))
                }
            }
            OpK::Finish => {
                let s = self.need(o.p[0])?;
                let slot = if cfg!(feature = "mutauth") && o.p[1] == 0 {
                    Some(req!().common.runtime_info.get_local_used_cert_chain_slot_id())
                } else {
                    None
                };
                unit(req!().send_receive_spdm_finish(slot, s))
            }
            OpK::EvilFinish => {
                // the requester holds the session's keys, and finishes it some other way
                let s = self.need(o.p[0])?;
                w().fire(FaultK::Evil);
                if let Some(x) = req!().common.get_session_via_id(s) {
                    match o.p[1] {
                        0 => x.set_mut_auth_requested(SpdmKeyExchangeMutAuthAttributes::empty()),
                        1 => x.set_mut_auth_requested(SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ),
                        _ => {}
                    }
                }
                if o.p[1] >= 6 {
                    let r = Self::forged_finish(req!(), s, o);
                    if let (true, Some(x)) = (r.is_err(), req!().common.get_session_via_id(s)) {
                        let _ = x.teardown(s);
                    }
                    return unit(r);
                }
                match o.p[1] {
                    3 | 4 => unit(req!().send_receive_spdm_psk_finish(s)),
                    _ => {
                        let slot = if o.p[2] == 0 { None } else { Some(o.p[2] as u8 - 1) };
                        unit(req!().send_receive_spdm_finish(slot, s))
                    }
                }
            }
            OpK::PskExchange => {
                let hint = if o.data.is_empty() {
                    None
                } else {
                    let mut h = SpdmPskHintStruct::default();
                    let n = o.data.len().min(h.data.len());
                    h.data_size = n as u16;
                    h.data[..n].copy_from_slice(&o.data[..n]);
                    Some(h)
                };
                let r = req!().send_receive_spdm_psk_exchange(Self::sum(o.p[0]), hint.as_ref());
                r.map(|s| (s as u64, vec![])).map_err(st)
            }
            OpK::PskFinish => {
                let s = self.need(o.p[0])?;
                unit(req!().send_receive_spdm_psk_finish(s))
            }
            OpK::Heartbeat => {
                let s = self.need(o.p[0])?;
                unit(req!().send_receive_spdm_heartbeat(s))
            }
            OpK::KeyUpdate => {
                let s = self.need(o.p[0])?;
                let k = match o.p[1] {
                    2 => SpdmKeyUpdateOperation::SpdmUpdateAllKeys,
                    _ => SpdmKeyUpdateOperation::SpdmUpdateSingleKey,
                };
                unit(req!().send_receive_spdm_key_update(s, k))
            }
            OpK::EndSession => {
                let s = self.need(o.p[0])?;
                unit(req!().end_session(s))
            }
            OpK::Vendor => {
                let s = sidarg(self)?;
                if o.data.len() > vendor::MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
                    return Err("skipped".into()); // there is no way to say that
                }
                let mut v = vendor::VendorDefinedReqPayloadStruct {
                    req_length: o.data.len() as u16,
                    vendor_defined_req_payload: [0; vendor::MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE],
                };
                let n = o.data.len().min(v.vendor_defined_req_payload.len());
                v.vendor_defined_req_payload[..n].copy_from_slice(&o.data[..n]);
                let mut id = vendor::VendorIDStruct { len: o.p[2] as u8, vendor_id: [0; 0xff] };
                for i in 0..id.len as usize {
                    id.vendor_id[i] = i as u8 + 1;
                }
                let sb = vendor::RegistryOrStandardsBodyID::read(&mut Reader::init(&(o.p[1] as u16).to_le_bytes())).unwrap_or(vendor::RegistryOrStandardsBodyID::DMTF);
                match req!().send_spdm_vendor_defined_request(s, sb, id, v) {
                    Ok(r) => {
                        let n = (r.rsp_length as usize).min(r.vendor_defined_rsp_payload.len());
                        Ok((r.rsp_length as u64, r.vendor_defined_rsp_payload[..n].to_vec()))
                    }
                    Err(e) => Err(st(e)),
                }
            }
            OpK::App => {
                if w().cfg.transport != 0 {
                    return Err("skipped".into()); // the DOE binding carries no application messages
                }
                let s = self.need(o.p[0])?;
                req!().send_secured_message(s, &o.data, true).map_err(st)?;
                let mut b = vec![0u8; spdmlib::config::RECEIVER_BUFFER_SIZE];
                let n = req!().receive_secured_message(s, &mut b, false).map_err(st)?;
                Ok((n as u64, b[..n].to_vec()))
            }
            OpK::RawSecured => {
                let s = self.need(o.p[0])?;
                req!().send_secured_message(s, &o.data, o.p[1] != 0).map_err(st)?;
                // whatever comes back is consumed so that the directions stay in step
                let mut b = vec![0u8; spdmlib::config::RECEIVER_BUFFER_SIZE];
                let n = req!().receive_secured_message(s, &mut b, false).map_err(st)?;
                Ok((n as u64, b[..n].to_vec()))
            }
            _ => Err("skipped".into()),
        }
    }

    fn lookup_pkt(&self, i: i64) -> Option<Vec<u8>> {
        w().packets.get(i as usize).map(|p| p.1.clone())
    }

    /// A FINISH with a MAC over whatever the requester likes, and no signature or one nobody made.
    fn forged_finish(r: &mut RequesterContext<'static>, s: u32, o: &Op) -> SpdmResult {
        let slot = (o.p[2] as u8).saturating_sub(1) & 7;
        let mut m = vec![r.common.negotiate_info.spdm_version_sel.get_u8(), 0xe5, (o.p[1] == 7) as u8, slot];
        let c = &mut r.common;
        if c.get_immutable_session_via_id(s).is_none() {
            return Err(spdmlib::error::SPDM_STATUS_INVALID_STATE_LOCAL);
        }
        c.append_message_f(true, s, &m)?;
        if o.p[1] == 7 {
            let sig = vec![0x5a; c.get_req_asym_sel().get_size() as usize];
            c.append_message_f(true, s, &sig)?;
            m.extend_from_slice(&sig);
        }
        let x = c.get_immutable_session_via_id(s).unwrap();
        let th = c.calc_req_transcript_hash(false, slot, o.p[3] == 0, x)?;
        let mac = x.generate_hmac_with_request_finished_key(th.as_ref())?;
        c.append_message_f(true, s, mac.as_ref())?;
        m.extend_from_slice(mac.as_ref());
        r.send_secured_message(s, &m, false)?;
        let mut b = vec![0u8; spdmlib::config::RECEIVER_BUFFER_SIZE];
        let n = r.receive_secured_message(s, &mut b, false)?;
        r.handle_spdm_finish_response(s, slot, &b[..n])
    }

    pub fn run_op(&mut self, i: usize, o: &Op) {
        {
            let w = w();
            w.steps = 0;
            w.exhausted = false;
            w.sends_this_op = 0;
            let quiet = w.q[0].is_empty() && w.q[1].is_empty() && w.held.is_empty();
            w.ev.push(Ev::OpStart { i, quiet });
            w.pending_tx = [None, None];
        }
        let mut out: Out = Ok((0, vec![]));
        match o.k {
            OpK::CrashReq => {
                self.kill(REQ);
                self.boot(REQ);
            }
            OpK::CrashRsp => {
                self.kill(RSP);
                self.boot(RSP);
            }
            OpK::Advance => w().now += o.p[0].max(0) as u64,
            OpK::Drain => self.drain(o.p[0].max(0) as u64),
            OpK::FlushNet => {
                w().q[0].clear();
                w().q[1].clear();
                w().held.clear();
            }
            OpK::Inject => {
                let now = w().now;
                w().enqueue(o.p[0] as usize & 1, o.data.clone(), now, usize::MAX);
                if o.p[0] & 1 == 1 {
                    self.drain(0);
                }
            }
            OpK::InjectOld => {
                if let Some(b) = self.lookup_pkt(o.p[1]) {
                    let now = w().now;
                    w().enqueue(o.p[0] as usize & 1, b, now, usize::MAX);
                    if o.p[0] & 1 == 1 {
                        self.drain(0);
                    }
                } else {
                    out = Err("skipped".into());
                }
            }
            OpK::RawClear => {
                let b = wrap(&w().cfg, false, &o.data);
                let now = w().now;
                w().enqueue(RSP, b, now, usize::MAX);
                self.drain(1_000_000);
                w().q[REQ].clear();
            }
            OpK::SetMeas => w().dev_version += 1,
            // one object through the binding and back, apart from the conversation
            OpK::Carry => {
                out = carry(o);
            }
            OpK::SetContent => {
                let f = SpdmMeasurementContentChanged::from_bits_truncate(o.p[0] as u8);
                self.rsp.as_mut().unwrap().common.runtime_info.content_changed = f;
            }
            // the node presents, and vouches for, another chain structure than it was provisioned with
            OpK::SpoilChain => {
                let node = (o.p[0] & 1) as usize;
                let c = if node == REQ { &mut self.req.as_mut().unwrap().common } else { &mut self.rsp.as_mut().unwrap().common };
                if let Some(b) = c.provision_info.my_cert_chain.get_mut(o.p[1] as usize & 7).and_then(|x| x.as_mut()) {
                    let n = b.data_size as usize;
                    let at = o.p[2] as usize;
                    if at < n {
                        b.data[at] ^= o.p[3] as u8;
                    } else if at & 1 == 0 {
                        b.data_size += 1;
                    } else {
                        b.data_size -= 1;
                    }
                    w().ev.push(Ev::FaultFired { k: FaultK::Forge, node });
                }
            }
            OpK::SetSeq => match self.need(o.p[0]) {
                Ok(s) => {
                    for c in [&mut self.req.as_mut().unwrap().common, &mut self.rsp.as_mut().unwrap().common] {
                        if let Some(x) = c.get_session_via_id(s) {
                            if o.p[1] == 0 {
                                x.set_request_direction_sequence_number(o.p[2] as u64);
                            } else {
                                x.set_response_direction_sequence_number(o.p[2] as u64);
                            }
                        }
                    }
                }
                Err(e) => out = Err(e),
            },
            OpK::Recover => {
                self.drain(u64::MAX / 4);
                let w = w();
                w.q[0].clear();
                w.q[1].clear();
                w.held.clear();
                w.quiet = true;
                w.ev.push(Ev::Note { s: "faults stop".into() });
            }
            OpK::AbandonSid => {}
            _ => {
                // a client negotiates before it asks for anything else
                let need = match o.k {
                    OpK::Init | OpK::Version => 0,
                    OpK::Capability => 1,
                    OpK::Algorithm => 2,
                    _ => 3,
                };
                if self.stage < need {
                    out = Err("skipped".into());
                } else {
                    if need < 3 {
                        self.stage = need;
                    }
                    let (r, code) = self.guarded(REQ, |s| s.call(o));
                    out = match r {
                        Some(x) => x,
                        None if code == 4 => Err("crashed".into()),
                        None => Err("panicked".into()),
                    };
                    if out.is_ok() && need < 3 {
                        self.stage = if o.k == OpK::Init { 3 } else { need + 1 };
                    }
                }
            }
        }
        if matches!(o.k, OpK::StartSession | OpK::KeyExchange | OpK::PskExchange) {
            self.sids.push(out.as_ref().map(|x| x.0 as u32).unwrap_or(0));
        }
        let w = w();
        if w.exhausted {
            w.violate("C16", format!("{} does not end within {} messages", o.k.name(), MAX_OP_STEPS), format!("op {}", i));
        }
        let (ok, err, val, data) = match out {
            Ok((v, d)) => (true, String::new(), v, d),
            Err(e) => (false, e, 0, vec![]),
        };
        w.ev.push(Ev::OpEnd { i, ok, err, val, out: data });
        w.exhausted = false;
        self.snap(REQ);
        self.snap(RSP);
    }
}

pub struct Outcome {
    pub world: Box<World>,
    pub ok: Vec<bool>,
}

/// One execution. Deterministic in the plan.
pub fn run(plan: &Plan) -> Outcome {
    let mut world = Box::new(World::new(plan));
    install(&mut *world);
    let mut sim = Box::new(Sim { req: None, rsp: None, sids: vec![], seam_fired_at_entry: 0, stage: 0 });
    SIM.with(|c| c.set(&mut *sim));
    sim.boot(REQ);
    sim.boot(RSP);
    for (i, o) in plan.ops.iter().enumerate() {
        sim.run_op(i, o);
    }
    // leave nothing behind
    sim.kill(REQ);
    sim.kill(RSP);
    let w = w();
    if !w.hash_ctx.is_empty() && !w.cut_short {
        let n = w.hash_ctx.len();
        w.violate("C14", "a transcript hash context is never released", format!("{} left", n));
    }
    if let Some(b) = w.bad_handles.first().cloned() {
        w.violate("C14", "a released transcript hash context is used again", b);
    }
    install(std::ptr::null_mut());
    SIM.with(|c| c.set(std::ptr::null_mut()));
    let ok = world
        .ev
        .iter()
        .filter_map(|e| match e {
            Ev::OpEnd { ok, .. } => Some(*ok),
            _ => None,
        })
        .collect();
    Outcome { world, ok }
}

#[allow(dead_code)]
pub fn encode<T: Codec>(t: &T) -> Vec<u8> {
    let mut b = [0u8; 4096];
    let mut wr = Writer::init(&mut b);
    let _ = t.encode(&mut wr);
    wr.used_slice().to_vec()
}
#[allow(dead_code)]
fn _h(b: &[u8]) -> String {
    hex(b)
}
