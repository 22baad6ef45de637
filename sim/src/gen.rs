//! Draws plans from a seed: configuration, script and faults. Faults are aimed at places a dry
//! run of the same script really reaches (packets sent, primitives called).

use crate::crypto as mc;
use crate::exec;
use crate::model::*;
use crate::plan::*;
use crate::prim::*;
use crate::wire::*;
use crate::world::*;

/// Do the configured pair and this build support the operation between honest nodes?
pub fn supported(c: &Cfg, o: &Op) -> bool {
    if c.req_ver & c.rsp_ver == 0 {
        return false;
    }
    if matches!(o.k, OpK::Version) {
        return true;
    }
    let n = match negotiate(c) {
        Some(n) => n,
        None => return false,
    };
    if !req_caps_legal(n.ver, n.req_caps) || !rsp_caps_legal(n.ver, n.rsp_caps) {
        return false;
    }
    // the Requester insists on a measurement specification in common
    if n.mspec == 0 {
        return false;
    }
    if n.ver >= 0x12 && (c.req_dts < 42 || c.rsp_dts < 42 || c.req_max < c.req_dts || c.rsp_max < c.rsp_dts) {
        return false;
    }
    // an answer that needs cryptography may take 2^(CTExponent+1) microseconds
    if !matches!(o.k, OpK::Init | OpK::Capability | OpK::Algorithm) && c.rsp_ct < 40 && 2 * c.latency > 2u64 << c.rsp_ct {
        return false;
    }
    // little room for messages: what is longer is refused, chains come in smaller portions
    if n.ver >= 0x12 && c.req_dts.min(c.rsp_dts) < 1000 {
        return match o.k {
            OpK::Init | OpK::Capability | OpK::Algorithm => c.req_dts.min(c.rsp_dts) >= 64,
            OpK::Digest => n.rsp_caps & CAP_CERT != 0 && c.rsp_slots & 1 == 1 && c.rsp_ident == 0 && c.req_root == 1 && 4 + c.rsp_slots.count_ones() as u64 * n.hs() as u64 <= c.req_dts,
            OpK::Certificate => n.rsp_caps & CAP_CERT != 0 && c.rsp_slots & 1 == 1 && c.rsp_ident == 0 && c.req_root == 1 && o.p[1] == 0,
            _ => false,
        };
    }
    // transcripts kept as running hashes cannot be signed before 1.2: documented limitation
    let can_sign = !cfg!(feature = "hashed") || n.ver >= 0x12;
    let genuine = c.rsp_ident == 0 && c.req_root == 1;
    let cert = n.rsp_caps & CAP_CERT != 0 && c.rsp_slots & 1 == 1 && genuine;
    let meas = n.rsp_caps & (CAP_MEAS_NOSIG | CAP_MEAS_SIG) != 0 && n.mspec != 0 && n.mhash != 0;
    let both = n.req_caps & n.rsp_caps;
    let sess = n.ver >= 0x11 && n.aead != 0 && n.ks != 0 && both & CAP_ENCRYPT != 0 && both & CAP_MAC != 0 && (n.ver < 0x12 || n.opaque & 2 != 0);
    match o.k {
        OpK::Init | OpK::Capability | OpK::Algorithm => true,
        OpK::Digest => cert,
        OpK::Certificate => cert && o.p[1] == 0,
        OpK::Challenge => cert && n.rsp_caps & CAP_CHAL != 0 && can_sign && o.p[0] == 0 && (o.p[1] == 0 || meas),
        OpK::Measure => meas && o.p[1] == 0 && (o.p[3] & 1 == 0 || (n.rsp_caps & CAP_MEAS_SIG != 0 && can_sign && cert)) && (o.p[2] == 0 || o.p[2] == 0xff || (o.p[2] > 0 && o.p[2] as u64 <= c.meas_n)),
        OpK::StartSession => {
            let sum = o.p[2] == 0 || meas;
            if o.p[0] != 0 {
                sess && sum && n.req_caps & CAP_PSK != 0 && n.rsp_caps & (CAP_PSK | CAP_PSK_CTX) != 0 && c.psk_mismatch == 0
            } else {
                // a Responder built with mut-auth always asks for it, never in a clear handshake
                let mutual = cfg!(feature = "mutauth");
                if mutual && (both & CAP_MUT == 0 || n.clear()) {
                    return false;
                }
                sess && sum && cert && can_sign && both & CAP_KEYEX != 0 && n.dhe != 0 && o.p[1] == 0
                    && (!mutual || (both & CAP_ENCAP != 0 && n.rasym != 0 && c.req_ident == 0 && c.rsp_root == 1 && c.req_slots & 1 == 1))
            }
        }
        OpK::Heartbeat => sess && both & CAP_HBEAT != 0,
        OpK::KeyUpdate => sess && both & CAP_KEYUPD != 0,
        OpK::EndSession => sess,
        OpK::App => sess && c.transport == 0 && matches!(c.app_mode, 0 | 1 | 3..=7) && !o.data.is_empty() && o.data.len() <= 1200,
        OpK::Vendor => matches!(c.app_mode, 0 | 1 | 3..=6) && o.data.len() <= 60 && o.p[1] == 0 && o.p[2] == 0,
        _ => false,
    }
}

struct B<'a> {
    r: &'a mut Rng,
    c: Cfg,
    ops: Vec<Op>,
    nsid: i64,
    open: Vec<i64>,
    cert: bool,
}

impl<'a> B<'a> {
    fn neg(&self) -> Neg {
        negotiate(&self.c).unwrap_or_default()
    }
    fn push(&mut self, o: Op) -> bool {
        if supported(&self.c, &o) {
            self.ops.push(o);
            true
        } else {
            false
        }
    }
    fn any_sid(&mut self) -> i64 {
        if self.open.is_empty() || self.r.chance(1, 2) {
            -1
        } else {
            let i = self.r.usize(self.open.len());
            self.open[i]
        }
    }
    fn sum(&mut self) -> i64 {
        *self.r.pick(&[0, 1, 0xff])
    }
    fn init(&mut self) {
        self.push(op(OpK::Init, &[]));
        self.open.clear();
        self.cert = false;
    }
    fn auth(&mut self) {
        if self.r.chance(2, 3) {
            self.push(op(OpK::Digest, &[-1]));
        }
        if self.push(op(OpK::Certificate, &[-1, 0])) {
            self.cert = true;
        }
    }
    fn chal(&mut self) {
        if !self.cert {
            self.auth();
        }
        let s = self.sum();
        if self.cert {
            self.push(op(OpK::Challenge, &[0, s]));
        }
    }
    fn meas(&mut self, sid: i64) {
        let i = match self.r.usize(4) {
            0 => 0,
            1 => 0xff,
            _ => 1 + self.r.below(self.c.meas_n.max(1)) as i64,
        };
        let sig = self.r.chance(1, 2) as i64;
        if sig == 1 && !self.cert {
            self.auth();
        }
        if sig == 0 || self.cert {
            self.push(op(OpK::Measure, &[sid, 0, i, sig]));
        }
    }
    fn start(&mut self, psk: bool) -> Option<i64> {
        if self.open.len() >= 4 {
            return None;
        }
        if !psk && !self.cert {
            self.auth();
        }
        let s = self.sum();
        if (psk || self.cert) && self.push(op(OpK::StartSession, &[psk as i64, 0, s])) {
            let id = self.nsid;
            self.nsid += 1;
            self.open.push(id);
            return Some(id);
        }
        None
    }
    fn app_data(&mut self) -> Vec<u8> {
        let n = match self.r.usize(8) {
            0 => 1,
            1 => 2 + self.r.usize(4),
            2 => 800 + self.r.usize(400),
            3 => {
                // looks like a protocol message
                let c = *self.r.pick(&[0xE5u8, 0xE7, 0xEC, 0x65, 0x6C, 0xE9, 0x7F, 0x84, 0xFE]);
                return vec![0x12, c, 0, 0];
            }
            _ => 1 + self.r.usize(64),
        };
        self.r.bytes(n)
    }
    fn traffic(&mut self, sid: i64) {
        match self.r.usize(10) {
            0 | 1 => {
                self.push(op(OpK::Heartbeat, &[sid]));
            }
            2 | 3 => {
                let d = self.app_data();
                self.push(opd(OpK::App, &[sid], d));
            }
            4 | 5 | 6 => {
                let k = 1 + self.r.below(2) as i64;
                self.push(op(OpK::KeyUpdate, &[sid, k]));
            }
            7 => self.meas(sid),
            8 => {
                if self.r.chance(1, 2) {
                    self.push(op(OpK::Digest, &[sid]));
                } else {
                    self.push(op(OpK::Certificate, &[sid, 0]));
                }
            }
            _ => {
                let n = self.r.usize(50);
                let d = self.r.bytes(n);
                self.push(opd(OpK::Vendor, &[sid], d));
            }
        }
    }
    fn end(&mut self) {
        if !self.open.is_empty() {
            let i = self.r.usize(self.open.len());
            let s = self.open.remove(i);
            self.push(op(OpK::EndSession, &[s]));
        }
    }
    fn honest(&mut self, len: usize, w: &[u64; 10]) {
        self.init();
        let start = self.ops.len();
        let mut guard = 0;
        while self.ops.len() - start < len && guard < 60 {
            guard += 1;
            match self.r.weighted(w) {
                0 => self.auth(),
                1 => self.chal(),
                2 => {
                    let s = self.any_sid();
                    self.meas(s)
                }
                3 => {
                    self.start(false);
                }
                4 => {
                    self.start(true);
                }
                5 => {
                    if !self.open.is_empty() {
                        let i = self.r.usize(self.open.len());
                        let s = self.open[i];
                        self.traffic(s);
                    }
                }
                6 => self.end(),
                7 => {
                    // a new connection: sessions are ended first
                    while !self.open.is_empty() {
                        self.end();
                    }
                    self.init();
                }
                8 if self.r.chance(1, 2) => {
                    let f = *self.r.pick(&[0, 0x10, 0x10, 0x20, 0x30]);
                    self.ops.push(op(OpK::SetContent, &[f]));
                }
                8 => self.ops.push(op(OpK::SetMeas, &[])),
                _ => {
                    let s = self.any_sid();
                    let n = self.r.usize(60);
                    let d = self.r.bytes(n);
                    self.push(opd(OpK::Vendor, &[s], d));
                }
            }
        }
    }
    /// requests that can only be refused, strewn among the others: they are to change nothing
    fn slips(&mut self) {
        for _ in 0..1 + self.r.usize(3) {
            let i = 1 + self.r.usize(self.ops.len());
            let started = self.ops[..i].iter().filter(|o| o.k == OpK::StartSession).count() as u64;
            let sid = if started == 0 || self.r.chance(2, 3) { -1 } else { self.r.below(started) as i64 };
            let o = match self.r.usize(5) {
                0 | 1 => op(OpK::Measure, &[sid, 0, *self.r.pick(&[100, 200, 0xfe]), self.r.below(2) as i64]),
                2 => op(OpK::Measure, &[sid, *self.r.pick(&[1, 7]), *self.r.pick(&[0, 0xff]), 1]),
                3 => op(OpK::Certificate, &[sid, *self.r.pick(&[1, 3, 7])]),
                _ => op(OpK::Challenge, &[*self.r.pick(&[1, 3, 7]), 0]),
            };
            self.ops.insert(i, o);
        }
    }
    /// after faults stop: everything a fresh connection is owed
    fn recovery(&mut self) {
        self.ops.push(op(OpK::Recover, &[]));
        self.init();
        self.auth();
        if self.r.chance(1, 2) {
            self.chal();
        }
        if self.r.chance(1, 2) {
            self.meas(-1);
        }
        let n = if self.r.chance(1, 3) { 4 } else { 1 };
        let mut all = vec![];
        for _ in 0..n {
            let psk = self.r.chance(1, 2);
            if let Some(s) = self.start(psk) {
                all.push(s);
            }
        }
        for s in &all {
            let k = 1 + self.r.usize(2);
            for _ in 0..k {
                self.traffic(*s);
            }
        }
        while !self.open.is_empty() {
            self.end();
        }
    }
}

fn mask(r: &mut Rng, all: &[u64]) -> u64 {
    loop {
        let m = all.iter().filter(|_| r.chance(1, 2)).fold(0, |a, b| a | b);
        if m != 0 {
            return m;
        }
    }
}

/// A pair of configurations. `wild`: anything goes; otherwise one in which connection setup is owed.
pub fn config(r: &mut Rng, wild: bool) -> Cfg {
    let mut c = Cfg { seed: r.next() >> 16, ..Default::default() };
    c.transport = r.below(2);
    match r.usize(6) {
        0 => {
            c.req_ver = 1 + r.below(7);
            c.rsp_ver = 1 + r.below(7);
        }
        1 => {
            c.req_ver = 3;
        }
        2 => {
            c.rsp_ver = *r.pick(&[2, 3, 6]);
        }
        3 => {
            c.req_ver = 4;
            c.rsp_ver = 4;
        }
        _ => {}
    }
    if r.chance(2, 3) {
        c.req_hash = mask(r, &[1, 2, 4]);
        c.rsp_hash = mask(r, &[1, 2, 4]);
        let asyms: [u64; 7] = [0x80, 0x10, 0x40, 0x8, 0x2, 0x20, 0x4];
        c.req_asym = mask(r, &asyms);
        c.rsp_asym = mask(r, &asyms);
        c.req_rasym = mask(r, &asyms);
        c.rsp_rasym = mask(r, &asyms);
        c.req_dhe = mask(r, &[8, 0x10]);
        c.rsp_dhe = mask(r, &[8, 0x10]);
        c.req_aead = mask(r, &[1, 2, 4]);
        c.rsp_aead = mask(r, &[1, 2, 4]);
    }
    c.rsp_mhash = *r.pick(&[1, 2, 4, 8, 0x10, 0x20, 0x40]);
    if r.chance(1, 8) {
        c.req_mspec = 0;
    }
    // capabilities
    let mut off = 0u64;
    for b in [CAP_MUT, CAP_HBEAT, CAP_KEYUPD] {
        if r.chance(1, 4) {
            off |= b as u64;
        }
    }
    if r.chance(1, 2) {
        off |= CAP_MUT as u64;
    }
    if r.chance(1, 3) {
        c.req_caps &= !off;
    } else {
        c.rsp_caps &= !off;
    }
    if r.chance(1, 6) {
        c.req_caps |= CAP_CLEAR as u64;
        c.rsp_caps |= CAP_CLEAR as u64;
    }
    match r.usize(8) {
        0 => c.rsp_caps = c.rsp_caps & !0xc00 | 0x400, // no PSK context
        1 => c.rsp_caps &= !0xc00,
        2 => c.rsp_caps = c.rsp_caps & !0x18 | 8,
        3 => c.rsp_caps &= !(CAP_KEYEX as u64),
        4 => c.rsp_caps |= 1,
        _ => {}
    }
    if c.rsp_caps & CAP_KEYEX as u64 == 0 {
        c.rsp_caps &= !(CAP_CLEAR as u64);
    }
    c.policy = r.below(4);
    c.content_change = r.below(2);
    c.hb = *r.pick(&[0, 0, 5, 255]);
    c.certs = r.range(1, 4);
    c.cert_pad = *r.pick(&[10, 60, 120, 300, 600]);
    c.rsp_slots = *r.pick(&[1, 1, 3, 5, 0x81]);
    c.req_slots = *r.pick(&[1, 1, 1, 3]);
    c.meas_n = *r.pick(&[1, 2, 3, 4, 6]);
    c.meas_sz = *r.pick(&[1, 16, 32, 64, 200]);
    c.latency = *r.pick(&[0, 0, 10, 1000]);
    c.app_mode = *r.pick(&[0, 0, 0, 0, 1, 3, 4, 5, 6, 7]);
    c.req_ct = *r.pick(&[0, 10, 20, 30]);
    c.rsp_ct = *r.pick(&[0, 10, 18, 20, 30]);
    match r.usize(5) {
        0 => {
            c.req_dts = 2048;
            c.rsp_dts = 1600;
        }
        1 => {
            c.req_dts = 1800;
            c.rsp_dts = 4096;
        }
        2 if r.chance(1, 6) => {
            c.req_dts = *r.pick(&[64, 100, 150, 300, 400, 527, 529, 600]);
            c.rsp_dts = *r.pick(&[64, 300, 1000, 4096]);
        }
        _ => {}
    }
    if wild {
        wild_config(r, &mut c);
    } else {
        // common choices must exist
        if c.req_ver & c.rsp_ver == 0 {
            c.rsp_ver |= c.req_ver;
        }
        for (a, b) in [(c.req_hash, &mut c.rsp_hash), (c.req_asym, &mut c.rsp_asym), (c.req_dhe, &mut c.rsp_dhe), (c.req_aead, &mut c.rsp_aead), (c.req_rasym, &mut c.rsp_rasym)] {
            if a & *b == 0 {
                *b |= a;
            }
        }
    }
    c
}

fn wild_config(r: &mut Rng, c: &mut Cfg) {
    for _ in 0..1 + r.usize(3) {
        match r.usize(16) {
            0 => c.req_caps = r.next() & 0x3ffc6,
            1 => c.rsp_caps = r.next() & 0x3fffff,
            2 => {
                c.req_dts = *r.pick(&[0, 1, 42, 64, 100, 300, 600, 1000]);
            }
            3 => {
                c.rsp_dts = *r.pick(&[0, 1, 42, 64, 100, 300, 600, 1000]);
            }
            4 => c.req_ct = *r.pick(&[31, 40, 61, 62, 63, 64, 255]),
            5 => c.rsp_ct = *r.pick(&[31, 40, 61, 62, 63, 64, 255]),
            6 => {
                c.meas_n = *r.pick(&[0, 1, 20, 255]);
                c.meas_sz = *r.pick(&[0, 1, 1024, 700]);
            }
            7 => {
                c.certs = r.range(1, 7);
                c.cert_pad = *r.pick(&[0, 900, 500, 450, 1800]);
                // a device cannot be provisioned with more than a chain of 4096 bytes
                while mc::make_chain(c, true, 0, 0).len() > 4000 {
                    c.cert_pad /= 2;
                }
            }
            8 => c.app_mode = *r.pick(&[2, 7, 8, 1, 3]),
            9 => c.rsp_slots = r.below(256),
            10 => c.req_slots = r.below(8),
            11 => {
                c.req_opaque = r.below(2) * 2;
                c.rsp_opaque = r.below(2) * 2;
            }
            12 => {
                c.req_ks = r.below(2);
                c.rsp_ks = r.below(2);
            }
            13 => {
                c.secver0 = *r.pick(&[0x10, 0x11, 0x12, 0]);
                c.secver1 = *r.pick(&[0x10, 0x11, 0x12, 0]);
            }
            14 => {
                c.rsp_root = r.below(3);
                c.req_root = r.below(3);
            }
            _ => {
                c.req_aead = r.below(8);
                c.req_dhe = *r.pick(&[0, 8, 0x10, 0x18]);
                c.req_rasym = *r.pick(&[0, 1, 0x80, 0x4]);
            }
        }
    }
}

pub const PROFILES: [&str; 14] = [
    "honest", "net", "mitm", "local", "crash", "adversary", "insider", "evil", "identity", "disorder", "limits", "errors", "wild", "mixed",
];

const W_ANY: [u64; 10] = [2, 2, 3, 3, 2, 8, 2, 1, 1, 1];
const W_AUTH: [u64; 10] = [3, 5, 5, 1, 1, 2, 1, 1, 1, 1];
const W_SESS: [u64; 10] = [1, 1, 1, 4, 3, 10, 2, 1, 0, 1];

pub struct Dry {
    pub packets: Vec<(usize, Vec<u8>)>,
    pub calls: [[u32; 32]; 2],
    pub total: [u32; 2],
}
pub fn dry(p: &Plan) -> Dry {
    let o = exec::run(p);
    Dry { packets: o.world.packets.clone(), calls: o.world.calls, total: o.world.total }
}

fn pkt_of(d: &Dry, r: &mut Rng) -> i64 {
    r.usize(d.packets.len().max(1)) as i64
}

/// Loss, duplication, delay, reordering, corruption of packets.
pub fn net_fault(r: &mut Rng, d: &Dry) -> Fault {
    let at = pkt_of(d, r);
    let len = d.packets.get(at as usize).map_or(1, |p| p.1.len()).max(1);
    match r.usize(14) {
        0 | 1 => fault(FaultK::Drop, at, &[]),
        2 => fault(FaultK::Dup, at, &[*r.pick(&[0, 0, 50, 5000, 3_000_000])]),
        3 => fault(FaultK::Delay, at, &[*r.pick(&[10, 999_999, 1_000_001, 2_500_000, 60_000_000])]),
        4 | 5 => fault(FaultK::Corrupt, at, &[r.usize(len) as i64, 1 << r.below(8)]),
        6 => fault(FaultK::Corrupt, at, &[r.usize(len.min(16)) as i64, 1 + r.below(255) as i64]),
        7 => fault(FaultK::Trunc, at, &[r.usize(len) as i64]),
        8 => {
            let mut f = fault(FaultK::Extend, at, &[]);
            let n = 1 + r.usize(40);
            f.data = r.bytes(n);
            f
        }
        9 => fault(FaultK::ReplaceOld, at, &[r.below(at.max(1) as u64) as i64]),
        10 => fault(FaultK::InjectOldBefore, at, &[r.below(at.max(1) as u64) as i64]),
        11 => fault(FaultK::Reflect, at, &[]),
        12 => fault(FaultK::HoldUntil, at, &[at + 1 + r.below(6) as i64]),
        _ => fault(FaultK::Dup, at, &[0]),
    }
}

fn hdr(c: &Cfg) -> usize {
    if c.transport == 0 {
        1
    } else {
        8
    }
}

/// A meaningful alteration of a message: fields, lengths, codes.
pub fn mutate(r: &mut Rng, m: &mut Vec<u8>) {
    for _ in 0..1 + r.usize(3) {
        if m.is_empty() {
            return;
        }
        match r.usize(12) {
            0 => {
                let o = r.usize(m.len());
                m[o] ^= 1 << r.below(8);
            }
            1 | 2 => {
                let o = r.usize(m.len().min(48));
                m[o] = *r.pick(&[0, 1, 2, 3, 4, 7, 8, 0x10, 0x20, 0x7f, 0x80, 0xfe, 0xff]);
            }
            3 | 4 => {
                let o = r.usize(m.len().min(64));
                let v: u16 = *r.pick(&[0, 1, 2, 4, 16, 255, 256, 1024, 4095, 4096, 0x7fff, 0x8000, 0xffff]);
                for (i, x) in v.to_le_bytes().iter().enumerate() {
                    if o + i < m.len() {
                        m[o + i] = *x;
                    }
                }
            }
            5 => {
                let n = r.usize(m.len() + 1);
                m.truncate(n);
            }
            6 => {
                let n = *r.pick(&[1, 2, 3, 4, 16, 200, 1000]);
                let b = r.bytes(n);
                m.extend(b);
            }
            7 => {
                m[0] = *r.pick(&[0, 0x10, 0x11, 0x12, 0x13, 0xff]);
            }
            8 => {
                if m.len() > 2 {
                    m[2] = r.byte();
                }
            }
            9 => {
                if m.len() > 3 {
                    m[3] = r.byte();
                }
            }
            10 => {
                if m.len() > 4 {
                    let n = r.range(0, 1) as usize;
                    let o = 4 + r.usize(m.len() - 4);
                    m.drain(o..(o + 1 + n).min(m.len()));
                }
            }
            _ => {
                let o = r.usize(m.len().min(44));
                let n = 1 + r.usize(4);
                for i in 0..n {
                    if o + i < m.len() {
                        m[o + i] = r.byte();
                    }
                }
            }
        }
    }
}

/// An in-path attacker who understands the messages.
pub fn mitm_fault(r: &mut Rng, c: &Cfg, d: &Dry) -> Fault {
    let at = pkt_of(d, r);
    let b = d.packets.get(at as usize).map(|p| p.1.clone()).unwrap_or_default();
    let from = d.packets.get(at as usize).map_or(0, |p| p.0);
    if let Some((true, _)) = strip(c, &b) {
        if r.chance(1, 4) {
            // the record says another length: none, less than a tag, a little more or less, too much
            let o = hdr(c) + 4 + if c.transport == 0 { 2 } else { 0 };
            let len = b.get(o..o + 2).map_or(0, |x| u16::from_le_bytes([x[0], x[1]]));
            let v = match r.usize(4) {
                0 => r.below(18) as u16,
                1 => len.wrapping_add(1 + r.below(20) as u16),
                2 => len.wrapping_sub(1 + r.below(20) as u16),
                _ => *r.pick(&[0x7fff, 0x8000, 0xfff0, 0xffff]),
            };
            let mut f = fault(FaultK::SetField, at, &[o as i64]);
            f.data = v.to_le_bytes().to_vec();
            return f;
        }
    }
    match strip(c, &b) {
        Some((false, mut m)) => match r.usize(8) {
            0 | 1 => {
                // one field
                let o = hdr(c) + r.usize(m.len().clamp(1, 48));
                let mut f = fault(FaultK::SetField, at, &[o as i64]);
                f.data = match r.usize(3) {
                    0 => vec![r.byte()],
                    1 => vec![*r.pick(&[0, 1, 2, 4, 0x10, 0x80, 0xff])],
                    _ => r.bytes(2),
                };
                f
            }
            2 if from == RSP => {
                let mut f = fault(FaultK::Replace, at, &[]);
                f.data = error_message(r, m.first().copied().unwrap_or(0x12));
                f
            }
            3 => {
                // another message of the same kind seen before, or any
                let code = m.get(1).copied().unwrap_or(0);
                let same: Vec<i64> = (0..d.packets.len()).filter(|i| (*i as i64) < at && strip(c, &d.packets[*i].1).map_or(false, |x| x.1.get(1) == Some(&code))).map(|i| i as i64).collect();
                if same.is_empty() {
                    net_fault(r, d)
                } else {
                    let j = *r.pick(&same);
                    fault(FaultK::ReplaceOld, at, &[j])
                }
            }
            4 if m.get(1) == Some(&0x63) => {
                // pick other algorithms
                let mut f = fault(FaultK::Replace, at, &[]);
                let o = *r.pick(&[6usize, 7, 8, 12, 16]);
                if o < m.len() {
                    m[o] = 1 << r.below(8);
                    if r.chance(1, 3) {
                        m[o] |= 1 << r.below(8);
                    }
                }
                f.data = m;
                f
            }
            _ => {
                let mut f = fault(FaultK::Replace, at, &[]);
                mutate(r, &mut m);
                f.data = m;
                f
            }
        },
        _ => net_fault(r, d),
    }
}

pub fn error_message(r: &mut Rng, ver: u8) -> Vec<u8> {
    let code = *r.pick(&[1u8, 3, 4, 5, 6, 7, 0x41, 0x42, 0x42, 0x43, 0xff, 0]);
    let mut v = vec![if r.chance(1, 10) { r.byte() } else { ver }, ERROR, code, r.byte()];
    if code == 0x42 {
        v.push(*r.pick(&[0, 1, 5, 20, 31, 62, 63, 64, 255]));
        v.push(*r.pick(&[0x81, 0x82, 0x83, 0xE0, 0xE4, 0xE9]));
        v.push(r.byte());
        v.push(*r.pick(&[0, 1, 2, 63, 255]));
        if r.chance(1, 4) {
            let n = 4 + r.usize(5);
            v.truncate(n);
        }
    } else if r.chance(1, 4) {
        let n = r.usize(40);
        let b = r.bytes(n);
        v.extend(b);
    }
    v
}

/// A local primitive or the device fails once.
pub fn local_fault(r: &mut Rng, d: &Dry) -> Fault {
    if r.chance(1, 6) && !d.packets.is_empty() {
        let at = pkt_of(d, r);
        return fault(if r.chance(1, 2) { FaultK::SendErr } else { FaultK::SendErrDelivered }, at, &[]);
    }
    for _ in 0..20 {
        let n = r.usize(2);
        let s = *r.pick(Seam::ALL);
        let k = d.calls[n][s as usize];
        if k > 0 {
            let mut i = r.below(k as u64);
            if r.chance(1, 4) {
                i = k as u64 - 1 - i.min(2).min(k as u64 - 1);
            }
            return fault(FaultK::Seam, i as i64, &[n as i64, s as i64]);
        }
    }
    fault(FaultK::Seam, 0, &[0, Seam::Send as i64])
}
pub fn crash_fault(r: &mut Rng, d: &Dry) -> Fault {
    let n = r.usize(2);
    fault(FaultK::Crash, r.below(d.total[n].max(1) as u64) as i64, &[n as i64])
}

/// A request as an attacker may write it, valid or nearly so.
pub fn raw_request(r: &mut Rng, c: &Cfg, n: &Neg, in_session: bool) -> Vec<u8> {
    let all = [
        GET_VERSION, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS, GET_DIGESTS, GET_CERTIFICATE, CHALLENGE, GET_MEASUREMENTS, KEY_EXCHANGE, FINISH, PSK_EXCHANGE, PSK_FINISH, HEARTBEAT, KEY_UPDATE, GET_ENCAP, DELIVER_ENCAP, END_SESSION, VENDOR,
    ];
    let code = if r.chance(1, 20) { r.byte() } else { *r.pick(&all) };
    let ver = n.ver;
    let mut m = request(r, c, n, code);
    if code == GET_VERSION && !in_session {
        m[0] = 0x10;
    }
    if r.chance(1, 3) {
        mutate(r, &mut m);
    } else if r.chance(1, 8) {
        m[0] = *r.pick(&[0x10, 0x11, 0x12, 0x13]);
    } else if r.chance(1, 8) {
        m[2] = r.byte();
        m[3] = r.byte();
    }
    let _ = ver;
    m
}
pub fn request(r: &mut Rng, c: &Cfg, n: &Neg, code: u8) -> Vec<u8> {
    let v = if n.ver == 0 { 0x12 } else { n.ver };
    let mut m = vec![v, code, 0, 0];
    match code {
        GET_VERSION => m[0] = 0x10,
        GET_CAPABILITIES => {
            if v >= 0x11 {
                m.extend([0, c.req_ct as u8, 0, 0]);
                m.extend((c.req_caps as u32).to_le_bytes());
            }
            if v >= 0x12 {
                m.extend((c.req_dts as u32).to_le_bytes());
                m.extend((c.req_max as u32).to_le_bytes());
            }
        }
        NEGOTIATE_ALGORITHMS => {
            m.extend([0, 0, c.req_mspec as u8, if v >= 0x12 { c.req_opaque as u8 } else { 0 }]);
            m.extend((c.req_asym as u32).to_le_bytes());
            m.extend((c.req_hash as u32).to_le_bytes());
            m.extend([0; 12]);
            let (ea, eh) = if r.chance(1, 6) { (r.usize(4), r.usize(4)) } else { (0, 0) };
            m.extend([ea as u8, eh as u8, 0, 0]);
            let b = r.bytes((ea + eh) * 4);
            m.extend(b);
            if v >= 0x11 {
                let mut k = 0;
                for (t, x) in [(2u8, c.req_dhe), (3, c.req_aead), (4, c.req_rasym), (5, c.req_ks)] {
                    if r.chance(9, 10) {
                        k += 1;
                        m.extend([t, 0x20]);
                        m.extend((x as u16).to_le_bytes());
                    }
                }
                m[2] = k;
            }
            let l = m.len() as u16;
            m[4..6].copy_from_slice(&l.to_le_bytes());
        }
        GET_CERTIFICATE => {
            m[2] = *r.pick(&[0, 0, 0, 1, 2, 7, 15]);
            let o: u16 = *r.pick(&[0, 0, 1, 37, 512, 1024, 0x0fff, 0xffff]);
            let l: u16 = *r.pick(&[0, 1, 13, 512, 1024, 4096, 0xffff]);
            m.extend(o.to_le_bytes());
            m.extend(l.to_le_bytes());
        }
        CHALLENGE => {
            m[2] = *r.pick(&[0, 0, 0, 1, 7]);
            m[3] = *r.pick(&[0, 1, 0xff, 2]);
            let b = r.bytes(32);
            m.extend(b);
        }
        GET_MEASUREMENTS => {
            m[2] = r.below(4) as u8;
            m[3] = *r.pick(&[0, 1, 2, 3, 0xfe, 0xff]);
            if m[2] & 1 != 0 {
                let b = r.bytes(32);
                m.extend(b);
                if v >= 0x11 {
                    m.push(*r.pick(&[0, 0, 1, 15]));
                }
            }
        }
        KEY_EXCHANGE => {
            m[2] = *r.pick(&[0, 1, 0xff]);
            m[3] = *r.pick(&[0, 0, 0, 1, 0xff]);
            let b = r.bytes(2);
            m.extend(b);
            m.extend([0, 0]);
            let b = r.bytes(32);
            m.extend(b);
            let s = dhe_size(n.dhe);
            m.extend(crate::crypto::dhe_public(3 + r.below(1000), s.max(8)));
            opaque_versions(r, &mut m);
        }
        FINISH => {
            m[2] = r.below(2) as u8;
            if m[2] == 1 {
                let b = r.bytes(asym_size(n.rasym as u32));
                m.extend(b);
            }
            let b = r.bytes(n.hs());
            m.extend(b);
        }
        PSK_EXCHANGE => {
            m[2] = *r.pick(&[0, 1, 0xff]);
            let b = r.bytes(2);
            m.extend(b);
            let h: u16 = *r.pick(&[0, 0, 8, 32]);
            let x: u16 = *r.pick(&[32, 48, 64]);
            m.extend(h.to_le_bytes());
            m.extend(x.to_le_bytes());
            let at = m.len();
            m.extend([0, 0]);
            let b = r.bytes((h + x) as usize);
            m.extend(b);
            let mut o = vec![];
            opaque_versions(r, &mut o);
            m[at..at + 2].copy_from_slice(&o[0..2]);
            m.extend(&o[2..]);
        }
        PSK_FINISH => {
            let b = r.bytes(n.hs());
            m.extend(b);
        }
        KEY_UPDATE => {
            m[2] = *r.pick(&[1, 2, 3, 3, 0, 4, 0x80, 0x81, 0x83, 0xff]);
            m[3] = r.byte();
        }
        DELIVER_ENCAP => {
            m[2] = r.byte();
            let k = r.usize(3);
            if k == 0 {
                m.extend([v, 1, 0, 1]);
                let b = r.bytes(n.hs());
                m.extend(b);
            } else if k == 1 {
                m.extend([v, 2, 0, 0]);
                let b = r.bytes(4);
                m.extend(b);
                let l = r.usize(600);
                let b = r.bytes(l);
                m.extend(b);
            } else {
                let e = error_message(r, v);
                m.extend(e);
            }
        }
        VENDOR => {
            m.extend([0, 0]);
            let l = r.usize(5);
            m.push(l as u8);
            let b = r.bytes(l);
            m.extend(b);
            let l = *r.pick(&[0usize, 1, 20, 64, 200]);
            m.extend((l as u16).to_le_bytes());
            let b = r.bytes(l);
            m.extend(b);
        }
        _ => {}
    }
    m
}
fn opaque_versions(r: &mut Rng, m: &mut Vec<u8>) {
    // supported secured message versions, as the library writes them
    match r.usize(6) {
        0 => m.extend([0, 0]),
        1 => {
            let l = r.usize(40);
            m.extend((l as u16).to_le_bytes());
            let b = r.bytes(l);
            m.extend(b);
        }
        _ => {
            let mut o = vec![1u8, 0, 0, 0];
            let k = *r.pick(&[1u8, 2, 2, 3, 200]);
            let mut e = vec![1u8, 1, k];
            for i in 0..k.min(3) {
                e.extend([0, 0x10 + i]);
            }
            o.extend([0u8, 0]);
            o.extend((e.len() as u16).to_le_bytes());
            o.extend(e);
            while o.len() % 4 != 0 {
                o.push(0);
            }
            m.extend((o.len() as u16).to_le_bytes());
            m.extend(o);
        }
    }
}

/// A long-lived session: its sequence numbers are far ahead, near a carry from byte to byte.
fn far_ahead(r: &mut Rng, doe: bool, mut ops: Vec<Op>, first: usize) -> Vec<Op> {
    let mut at = first;
    let say = |r: &mut Rng| {
        let d = r.bytes(3);
        opd(if doe { OpK::Vendor } else { OpK::App }, &[0], d)
    };
    for _ in 0..r.usize(4) {
        ops.insert(at, say(r));
        at += 1;
    }
    let v = ((1 + r.below(3) as i64) << (8 * (1 + r.usize(7)))) - r.below(3) as i64;
    for d in 0..2 {
        if r.chance(2, 3) {
            ops.insert(at, op(OpK::SetSeq, &[0, d, v]));
            at += 1;
        }
    }
    for _ in 0..3 + r.usize(4) {
        ops.insert(at, say(r));
        at += 1;
    }
    ops
}

/// One object through a binding and back: any size, any room, cut, extended or with another header.
fn carried(r: &mut Rng, transport: u64) -> Op {
    let size = match r.usize(12) {
        0 => *r.pick(&[0, 1, 2, 3, 4, 5, 7, 8]),
        1 => *r.pick(&[0xfc, 0xfe, 0xff, 0x100, 0x1f8, 0x3f8, 0x3fc]),
        2 => *r.pick(&[4080, 4088, 4092, 4095, 4096, 4097, 4160]),
        3 if r.chance(1, 8) => *r.pick(&[0xfff0, 0xfff4, 0xfff8, 0xfffc, 0x10000, 0x3fff8, 0x40000]),
        3 if transport == 1 && r.chance(1, 16) => *r.pick(&[0xf_fff0, 0xf_fff4, 0xf_fff5, 0xf_fff8]),
        _ => r.usize(200),
    } as i64;
    let kind = if r.chance(1, 2) { 0 } else { 1 } | if r.chance(1, 4) { 2 } else { 0 };
    let room: i64 = *r.pick(&[0, 0, 0, 1, 3, 64, -1, -2, -3, -4, -5, -8, -9, -64]);
    let (how, arg) = match r.usize(8) {
        0 | 1 => (1, *r.pick(&[1, 2, 3, 4, 5, 8, size, size + 1, size + 4])),
        2 => (2, *r.pick(&[1, 2, 3, 4, 5, 100])),
        3 | 4 => (3, (r.usize(8) as i64) << 8 | if r.chance(1, 2) { 1 << r.below(8) } else { r.byte() as i64 }),
        5 => (4, 0),
        _ => (0, 0),
    };
    let mut o = op(OpK::Carry, &[size, room << 2 | kind, how, arg]);
    if how == 4 {
        let n = *r.pick(&[0usize, 1, 2, 4, 7, 8, 9, 12, 16, 40]);
        o.data = r.bytes(n);
        let h: &[u8] = if transport == 0 { &[5] } else { &[1, 0, 1, 0, 2, 0, 0, 0] };
        for (i, b) in h.iter().enumerate() {
            if i < n && !r.chance(1, 5) {
                o.data[i] = if i == 4 { (n / 4) as u8 + r.usize(3) as u8 } else { *b };
            }
        }
    }
    o
}

/// Weights of profiles by property.
pub fn weights(prop: &str) -> [u64; 14] {
    //            honest net mitm local crash adv insid evil ident disord limits errors wild mixed
    match prop {
        "C01" => [20, 4, 30, 4, 2, 20, 0, 0, 0, 4, 0, 6, 24, 4],
        "C02" => [6, 4, 6, 4, 4, 40, 14, 2, 2, 24, 2, 0, 6, 4],
        "C03" => [16, 16, 34, 6, 2, 6, 0, 0, 12, 6, 0, 6, 4, 6],
        "C04" => [10, 6, 8, 24, 8, 6, 6, 6, 4, 10, 4, 6, 4, 8],
        "C05" => [14, 12, 20, 6, 4, 6, 6, 6, 12, 14, 2, 2, 2, 4],
        "C06" => [14, 12, 20, 6, 4, 6, 6, 6, 10, 14, 2, 2, 4, 4],
        "C07" => [10, 4, 6, 10, 2, 0, 8, 20, 24, 24, 2, 0, 2, 4],
        "C08" => [20, 14, 30, 6, 2, 6, 2, 4, 8, 4, 2, 6, 4, 6],
        "C09" => [24, 12, 30, 6, 2, 8, 2, 12, 14, 4, 0, 2, 10, 4],
        "C10" => [14, 36, 8, 6, 6, 2, 8, 6, 0, 6, 8, 2, 2, 8],
        "C11" => [20, 20, 6, 12, 6, 2, 6, 4, 0, 10, 20, 4, 2, 8],
        "C12" => [16, 22, 6, 18, 4, 0, 12, 10, 0, 8, 8, 4, 0, 8],
        "C13" => [16, 16, 8, 10, 6, 8, 12, 8, 2, 12, 4, 4, 2, 6],
        "C14" => [4, 16, 12, 24, 10, 6, 4, 8, 6, 10, 4, 8, 2, 10],
        "C15" => [4, 8, 16, 0, 2, 22, 16, 16, 4, 6, 6, 8, 14, 8],
        "C16" => [4, 16, 14, 8, 2, 16, 10, 10, 2, 4, 2, 22, 6, 6],
        "C17" => [4, 0, 0, 90, 2, 0, 0, 0, 2, 4, 4, 0, 2, 4],
        "C18" => [14, 6, 20, 4, 2, 22, 10, 22, 2, 6, 2, 10, 12, 4],
        "C19" => [24, 8, 8, 10, 2, 8, 14, 8, 0, 8, 14, 2, 8, 4],
        "C20" => [14, 30, 16, 2, 2, 10, 2, 4, 0, 2, 16, 2, 12, 6],
        "C21" => [24, 6, 6, 20, 14, 6, 2, 2, 0, 10, 4, 6, 4, 6],
        _ => [8, 8, 8, 8, 4, 8, 6, 6, 4, 6, 4, 4, 6, 4],
    }
}

pub fn plan(seed: u64, prop: &str, only: &Option<Vec<String>>) -> Plan {
    let mut r = Rng::new(mix64(0x9e4, &[&seed.to_le_bytes()]));
    let mut w = weights(prop);
    if let Some(o) = only {
        for (i, p) in PROFILES.iter().enumerate() {
            if !o.iter().any(|x| x == p) {
                w[i] = 0;
            }
        }
        if w.iter().sum::<u64>() == 0 {
            w[0] = 1;
        }
    }
    let prof = PROFILES[r.weighted(&w)];
    plan_for(&mut r, prof, prop)
}

pub fn plan_for(r: &mut Rng, prof: &str, prop: &str) -> Plan {
    let wild = prof == "wild";
    let mut c = config(r, wild);
    // what a property is about should be there more often than not
    if !wild && r.chance(2, 3) {
        match prop {
            "C03" | "C05" | "C07" | "C08" if cfg!(feature = "hashed") => {
                c.req_ver |= 4;
                c.rsp_ver |= 4;
            }
            "C06" | "C10" | "C11" | "C12" | "C13" | "C19" => {
                c.req_ver |= 4;
                c.rsp_ver |= 4;
            }
            _ => {}
        }
        match prop {
            "C07" => {
                c.req_caps |= (CAP_MUT | CAP_ENCAP) as u64;
                c.rsp_caps |= (CAP_MUT | CAP_ENCAP | CAP_KEYEX) as u64;
            }
            "C05" => c.rsp_caps |= CAP_KEYEX as u64,
            "C06" => if c.rsp_caps & 0xc00 == 0 { c.rsp_caps |= CAP_PSK_CTX as u64 },
            "C12" => {
                c.rsp_caps |= CAP_KEYUPD as u64;
                c.req_caps |= CAP_KEYUPD as u64;
            }
            "C08" => c.req_mspec = 1,
            "C19" | "C10" => c.transport = 0,
            _ => {}
        }
    }
    let w = match prop {
        "C03" | "C08" | "C09" => W_AUTH,
        "C05" | "C06" | "C07" | "C10" | "C11" | "C12" | "C13" | "C19" => W_SESS,
        _ => *r.pick(&[W_ANY, W_AUTH, W_SESS]),
    };
    let len = match r.usize(4) {
        0 => 1 + r.usize(3),
        1 => 8 + r.usize(10),
        _ => 3 + r.usize(6),
    };
    let mut honest = !wild;
    let tight = prof == "limits" && r.chance(1, 6);
    if tight {
        c.rsp_dts = *r.pick(&[110, 130, 150, 200, 300]);
        honest = false;
    }
    if prof == "identity" {
        match r.usize(8) {
            0 => c.rsp_ident = 1,
            1 => c.rsp_ident = 2,
            2 => c.rsp_ident = 3,
            3 => c.req_root = 2,
            4 => {
                c.req_ident = 1 + r.below(3);
            }
            5 => c.rsp_root = 2,
            6 => c.psk_mismatch = 1,
            _ => c.rsp_ident = 4,
        }
        if r.chance(1, 6) {
            c.req_root = 0;
        }
        if r.chance(1, 3) && c.rsp_root == 1 {
            c.rsp_root = 0;
        }
        honest = false;
    }
    let c0 = c.clone();
    let mut gc = c.clone(); // the script is drawn as if everything were in order
    if prof == "identity" {
        gc.rsp_ident = 0;
        gc.req_ident = 0;
        gc.req_root = 1;
        gc.rsp_root = 1;
        gc.psk_mismatch = 0;
    }
    let mut b = B { r, c: gc, ops: vec![], nsid: 0, open: vec![], cert: false };
    if wild {
        // every operation in turn, whatever comes of it
        let mut ops = vec![op(OpK::Init, &[]), op(OpK::Digest, &[-1]), op(OpK::Certificate, &[-1, *b.r.pick(&[0, 0, 0, 1, 7])])];
        let s = b.sum();
        ops.push(op(OpK::Challenge, &[0, s]));
        ops.push(op(OpK::Measure, &[-1, 0, *b.r.pick(&[0, 0xff, 1, 2, 200]), b.r.below(4) as i64]));
        let psk = b.r.below(2) as i64;
        ops.push(op(OpK::StartSession, &[psk, 0, s]));
        ops.push(op(OpK::Heartbeat, &[0]));
        let n = b.r.usize(80);
        let d = b.r.bytes(n);
        ops.push(opd(OpK::App, &[0], d));
        let n = b.r.usize(80);
        let d = b.r.bytes(n);
        ops.push(opd(OpK::Vendor, &[*b.r.pick(&[-1, 0]), b.r.below(10) as i64, *b.r.pick(&[0, 2, 4, 255])], d));
        ops.push(op(OpK::KeyUpdate, &[0, 1 + b.r.below(2) as i64]));
        ops.push(op(OpK::Measure, &[0, 0, 0xff, 1]));
        ops.push(op(OpK::EndSession, &[0]));
        b.ops = ops;
        b.nsid = 1;
    } else {
        b.honest(len, &w);
        if prof != "identity" && !b.ops.is_empty() && b.r.chance(1, 4) {
            b.slips();
        }
    }
    let mut p = Plan { cfg: c0.clone(), ops: std::mem::take(&mut b.ops), faults: vec![], honest, profile: prof.to_string() };
    let (nsid, open) = (b.nsid, b.open.clone());
    match prof {
        "honest" | "identity" | "wild" => {
            if prof == "wild" && r.chance(1, 3) {
                let d = dry(&p);
                p.faults.push(mitm_fault(r, &c0, &d));
            }
            if prof == "identity" && r.chance(1, 3) {
                let d = dry(&p);
                p.faults.push(mitm_fault(r, &c0, &d));
            }
        }
        "net" => {
            let d = dry(&p);
            for _ in 0..1 + r.usize(4) {
                p.faults.push(net_fault(r, &d));
            }
        }
        "mitm" => {
            let d = dry(&p);
            for _ in 0..1 + r.usize(2) {
                p.faults.push(mitm_fault(r, &c0, &d));
            }
        }
        "local" => {
            let d = dry(&p);
            for _ in 0..if r.chance(1, 4) { 2 } else { 1 } {
                p.faults.push(local_fault(r, &d));
            }
        }
        "crash" => {
            let d = dry(&p);
            for _ in 0..1 + r.usize(2) {
                if r.chance(1, 2) {
                    p.faults.push(crash_fault(r, &d));
                } else {
                    let i = 1 + r.usize(p.ops.len());
                    p.ops.insert(i.min(p.ops.len()), op(if r.chance(1, 2) { OpK::CrashReq } else { OpK::CrashRsp }, &[]));
                }
            }
            if r.chance(1, 3) {
                p.faults.push(net_fault(r, &d));
            }
        }
        "adversary" => {
            let mut n = negotiate(&c0).unwrap_or_default();
            n.ver = if n.ver == 0 { 0x12 } else { n.ver };
            let mut at = r.usize(p.ops.len() + 1);
            if r.chance(1, 4) {
                p.ops.clear();
                at = 0;
            }
            let mut ins = vec![];
            // set the stage, then step off the path
            let upto = r.usize(4);
            for (i, code) in [GET_VERSION, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS].iter().enumerate() {
                if i < upto {
                    let mut m = request(r, &c0, &n, *code);
                    if r.chance(1, 12) {
                        mutate(r, &mut m);
                    }
                    ins.push(opd(OpK::RawClear, &[], m));
                }
            }
            for _ in 0..1 + r.usize(8) {
                let m = raw_request(r, &c0, &n, false);
                ins.push(opd(OpK::RawClear, &[], m));
            }
            for o in ins.into_iter().rev() {
                p.ops.insert(at, o);
            }
            if r.chance(1, 4) {
                let mut m = wrap(&c0, r.chance(1, 2), &raw_request(r, &c0, &n, false));
                mutate(r, &mut m);
                let i = r.usize(p.ops.len() + 1);
                p.ops.insert(i, opd(OpK::Inject, &[1], m));
            }
            p.honest = true;
        }
        "insider" | "evil" => {
            let mut n = negotiate(&c0).unwrap_or_default();
            n.ver = if n.ver == 0 { 0x12 } else { n.ver };
            if nsid == 0 {
                let mut b = B { r, c: c0.clone(), ops: vec![], nsid: 0, open: vec![], cert: false };
                b.init();
                let psk = b.r.chance(1, 2);
                b.start(psk);
                if b.open.is_empty() {
                    b.start(!psk);
                }
                p.ops = std::mem::take(&mut b.ops);
            }
            if prof == "insider" {
                // the requester writes what it likes inside its sessions
                for _ in 0..1 + r.usize(4) {
                    let m = raw_request(r, &c0, &n, true);
                    let s = r.below(nsid.max(1) as u64) as i64;
                    let app = r.chance(1, 8) as i64;
                    let first = p.ops.iter().position(|o| o.k == OpK::StartSession).map_or(p.ops.len(), |x| x + 1);
                    let i = first + r.usize(p.ops.len() + 1 - first);
                    p.ops.insert(i, opd(OpK::RawSecured, &[s, app], m));
                }
            } else if r.chance(1, 4) {
                // a handshake that the requester, who holds its keys, finishes in some other way
                let psk = r.chance(1, 3);
                let sum = *r.pick(&[0, 1, 0xff]);
                let mut ops = vec![if psk { op(OpK::PskExchange, &[sum]) } else { op(OpK::KeyExchange, &[0, sum]) }];
                if !psk && cfg!(feature = "mutauth") && r.chance(2, 3) {
                    ops.push(op(OpK::MutAuth, &[nsid]));
                }
                for _ in 0..1 + r.usize(2) {
                    let mode = if r.chance(1, 3) { 0 } else { r.usize(9) as i64 };
                    ops.push(op(OpK::EvilFinish, &[nsid, mode.min(7), *r.pick(&[0, 0, 1, 1, 2, 9]), r.below(2) as i64]));
                }
                if r.chance(1, 2) {
                    let d = r.bytes(9);
                    ops.push(opd(OpK::App, &[nsid], d));
                }
                let first = p.ops.iter().position(|o| o.k == OpK::StartSession).unwrap_or(p.ops.len());
                if r.chance(1, 2) {
                    // before any other session, whose number shifts
                    for o in ops.iter_mut().filter(|o| matches!(o.k, OpK::MutAuth | OpK::EvilFinish | OpK::App)) {
                        o.p[0] = 0;
                    }
                    p.ops.truncate(first);
                }
                p.ops.extend(ops);
            } else if r.chance(1, 5) {
                // a chain structure that is not the provisioned one, presented by its owner
                // (the requester makes its own anew in every session)
                let node = RSP;
                let hs = n.hs() as i64;
                let at = match r.usize(5) {
                    0 => r.below(4) as i64,
                    1 | 2 => 4 + r.below(hs.max(1) as u64) as i64,
                    3 => 4 + hs + r.below(900) as i64,
                    _ => 1_000_000 + r.below(2) as i64,
                };
                let first = p.ops.iter().position(|o| matches!(o.k, OpK::Init | OpK::Algorithm)).map_or(0, |x| x + 1);
                p.ops.insert(first, op(OpK::SpoilChain, &[node as i64, 0, at, 1 << r.below(8)]));
            } else {
                let d = dry(&p);
                for _ in 0..1 + r.usize(2) {
                    // an answer in the clear that says something else, vouched for all the same
                    if r.chance(2, 5) {
                        let hdr = if c0.transport == 0 { 1 } else { 8 };
                        let ans: Vec<usize> = (0..d.packets.len()).filter(|i| d.packets[*i].0 == RSP && matches!(strip(&c0, &d.packets[*i].1), Some((false, _)))).collect();
                        let proved: Vec<usize> = ans.iter().copied().filter(|i| matches!(d.packets[*i].1.get(hdr + 1), Some(0x03 | 0x60 | 0x64 | 0x65 | 0x66))).collect();
                        let from = if proved.is_empty() || r.chance(1, 5) { &ans } else { &proved };
                        if !from.is_empty() {
                            let at = *r.pick(&from[..]);
                            let len = d.packets[at].1.len().saturating_sub(hdr).max(1);
                            let o = if r.chance(2, 3) { *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]) } else { r.usize(len) };
                            let mut f = fault(FaultK::Forge, at as i64, &[o as i64, 1 << r.below(8)]);
                            if o == 0 {
                                f.data = vec![*r.pick(&[0x10, 0x11, 0x12, 0x13, 0])];
                            } else if r.chance(1, 4) {
                                f.data = vec![r.byte()];
                            }
                            p.faults.push(f);
                            continue;
                        }
                    }
                    let node = if r.chance(2, 3) { RSP } else { REQ };
                    let k = d.calls[node][Seam::AeadEnc as usize];
                    if k == 0 {
                        continue;
                    }
                    let at = r.below(k as u64) as i64;
                    let f = match r.usize(6) {
                        0 => {
                            let mut f = fault(FaultK::Evil, at, &[node as i64, 1]);
                            f.data = if node == REQ { raw_request(r, &c0, &n, true) } else { error_message(r, n.ver) };
                            f
                        }
                        1 if r.chance(1, 2) => fault(FaultK::EvilLen, at, &[node as i64, *r.pick(&[-4, -3, -2, -1, 1, 2, 3, 4, 7, 15, 16, 17]), 1]),
                        1 => fault(FaultK::EvilLen, at, &[node as i64, *r.pick(&[0, 1, 2, 3, 4, 5, 300, 0x7fff, 0xffff])]),
                        2 => {
                            // (a chain's structure lies at the head of what carries it)
                            let o = if r.chance(1, 2) { r.usize(16 + n.hs()) } else { r.usize(400) };
                            fault(FaultK::Evil, at, &[node as i64, 2, o as i64, 1 << r.below(8)])
                        }
                        _ => {
                            let o = *r.pick(&[-1, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11]);
                            let mut f = fault(FaultK::Evil, at, &[node as i64, 0, o, r.below(2) as i64]);
                            f.data = match r.usize(3) {
                                _ if o == 0 => vec![*r.pick(&[0x10, 0x11, 0x12, 0x13, 0])],
                                0 => vec![r.byte()],
                                1 => vec![*r.pick(&[0, 1, 2, 3, 0x7f, 0x80, 0xff])],
                                _ => vec![0xff, 0xff],
                            };
                            f
                        }
                    };
                    p.faults.push(f);
                }
            }
        }
        "disorder" => {
            // the application calls the requester in any order
            p.honest = false;
            let mut ids = 0;
            let n = 3 + r.usize(10);
            let mut ops = vec![op(OpK::Init, &[]), op(OpK::Certificate, &[-1, 0])];
            for _ in 0..n {
                let s = if ids == 0 { 0 } else { r.below(ids as u64) as i64 };
                match r.usize(18) {
                    0 | 1 => {
                        ops.push(op(OpK::KeyExchange, &[0, *r.pick(&[0, 0xff])]));
                        ids += 1;
                    }
                    2 => {
                        let l = *r.pick(&[0, 0, 8, 32]);
                        let h = r.bytes(l);
                        ops.push(opd(OpK::PskExchange, &[*r.pick(&[0, 0xff])], h));
                        ids += 1;
                    }
                    3 | 4 => ops.push(op(OpK::MutAuth, &[s])),
                    5 | 6 => ops.push(op(OpK::Finish, &[s, r.below(2) as i64])),
                    7 => ops.push(op(OpK::PskFinish, &[s])),
                    8 => ops.push(op(OpK::Heartbeat, &[s])),
                    9 => ops.push(op(OpK::KeyUpdate, &[s, 1 + r.below(2) as i64])),
                    10 => ops.push(op(OpK::EndSession, &[s])),
                    11 => {
                        let d = r.bytes(8);
                        ops.push(opd(OpK::App, &[s], d));
                    }
                    12 => ops.push(op(OpK::Measure, &[*r.pick(&[-1, s]), *r.pick(&[0, 0, 0, 1, 15, 16]), *r.pick(&[0, 1, 0xff]), r.below(2) as i64])),
                    13 => ops.push(op(OpK::Challenge, &[*r.pick(&[0, 0, 0, 1, 7, 8, 200]), *r.pick(&[0, 1, 0xff])])),
                    14 => ops.push(op(*r.pick(&[OpK::Version, OpK::Capability, OpK::Algorithm, OpK::Init]), &[])),
                    15 => {
                        ops.push(op(OpK::StartSession, &[r.below(2) as i64, *r.pick(&[0, 0, 0, 1, 8]), 0]));
                        ids += 1;
                    }
                    16 => ops.push(op(OpK::Certificate, &[*r.pick(&[-1, s]), *r.pick(&[0, 0, 1, 7, 8, 255])])),
                    _ => {
                        let d = r.bytes(20);
                        ops.push(opd(OpK::Vendor, &[*r.pick(&[-1, s]), r.below(12) as i64, *r.pick(&[0, 2, 255])], d));
                    }
                }
            }
            p.ops = ops;
            if r.chance(1, 4) {
                let d = dry(&p);
                p.faults.push(net_fault(r, &d));
            }
        }
        "limits" if tight => {
            // a session with a peer that takes short messages only
            p.ops = vec![op(OpK::Init, &[]), op(OpK::StartSession, &[r.chance(2, 3) as i64, 0, 0])];
            for _ in 0..2 + r.usize(5) {
                let n = *r.pick(&[1usize, 90, 100, 110, 120, 140, 190, 200, 290, 300, 400, 1000]);
                let d = r.bytes(n);
                p.ops.push(match r.usize(6) {
                    0 => op(OpK::Measure, &[0, 0, 0xff, 0]),
                    1 => op(OpK::KeyUpdate, &[0, 1]),
                    2 => opd(OpK::App, &[0], d),
                    3 => opd(OpK::Vendor, &[-1], d),
                    _ => opd(OpK::Vendor, &[0], d),
                });
            }
            p.honest = false;
        }
        "limits" => {
            let mut ops = std::mem::take(&mut p.ops);
            if nsid > 0 {
                let first = ops.iter().position(|o| o.k == OpK::StartSession).unwrap() + 1;
                match r.usize(4) {
                    0 if r.chance(1, 2) => {
                        let v: i64 = *r.pick(&[0xff, 0xffff, 0x10000, 0xffff_ffff, -1, -2, -3, 0x7fff_ffff_ffff_ffff]);
                        ops.insert(first, op(OpK::SetSeq, &[0, r.below(2) as i64, v]));
                    }
                    0 => ops = far_ahead(r, c0.transport != 0, ops, first),
                    1 => {
                        for _ in 0..5 + r.usize(12) {
                            ops.insert(first, op(OpK::KeyUpdate, &[0, 1 + r.below(2) as i64]));
                        }
                    }
                    2 => {
                        let n = *r.pick(&[0usize, 1, 4000, 4050, 4060, 4070, 4080, 4090, 4096, 4100, 4130, 4160, 5000]);
                        let d = r.bytes(n);
                        ops.insert(first, opd(*r.pick(&[OpK::App, OpK::RawSecured, OpK::Vendor]), &[0], d));
                    }
                    _ => {
                        for _ in 0..6 {
                            ops.push(op(OpK::StartSession, &[r.below(2) as i64, 0, 0]));
                        }
                    }
                }
            } else {
                let n = *r.pick(&[0usize, 1, 2000, 4000, 4090, 4096]);
                let d = r.bytes(n);
                ops.push(opd(OpK::Vendor, &[-1, r.below(10) as i64, *r.pick(&[0, 4, 255])], d));
                for _ in 0..6 {
                    ops.push(op(OpK::StartSession, &[r.below(2) as i64, 0, 0]));
                }
            }
            p.ops = ops;
            p.honest = false;
        }
        "errors" => {
            let d = dry(&p);
            let ver = negotiate(&c0).map_or(0x12, |n| n.ver);
            for _ in 0..1 + r.usize(3) {
                let rs: Vec<usize> = (0..d.packets.len()).filter(|i| d.packets[*i].0 == RSP).collect();
                if rs.is_empty() {
                    break;
                }
                let at = *r.pick(&rs) as i64;
                let run = if r.chance(1, 3) { 12 } else { 1 };
                let e = error_message(r, ver);
                for k in 0..run {
                    let mut f = fault(FaultK::Replace, at + k * 2, &[]);
                    f.data = e.clone();
                    p.faults.push(f);
                }
            }
        }
        _ => {
            let d = dry(&p);
            for _ in 0..2 + r.usize(3) {
                let f = match r.usize(4) {
                    0 => net_fault(r, &d),
                    1 => mitm_fault(r, &c0, &d),
                    2 => local_fault(r, &d),
                    _ => crash_fault(r, &d),
                };
                p.faults.push(f);
            }
        }
    }
    if prop == "C20" {
        for _ in 0..r.usize(4) {
            let i = r.usize(p.ops.len() + 1);
            let o = carried(r, c0.transport);
            p.ops.insert(i, o);
        }
    }
    let started = p.ops.iter().filter(|o| matches!(o.k, OpK::StartSession | OpK::KeyExchange | OpK::PskExchange)).count() as i64;
    let rec = matches!(prof, "net" | "mitm" | "local" | "crash" | "adversary" | "errors" | "mixed" | "evil" | "insider") && r.chance(if prop == "C14" { 9 } else { 3 }, 10);
    if rec {
        let mut b = B { r, c: c0, ops: std::mem::take(&mut p.ops), nsid: started, open: vec![], cert: false };
        if b.r.chance(1, 4) {
            b.ops.push(op(OpK::CrashReq, &[]));
        }
        b.recovery();
        p.ops = std::mem::take(&mut b.ops);
    }
    let _ = open;
    p
}
