//! Reference model: what DSP0274 prescribes, written from the specification and independent of
//! the code under test. Negotiation, transcripts to be signed, key schedule.

use crate::crypto as mc;
use crate::plan::*;
use crate::prim::*;
use crate::wire::*;
use crate::world::*;

pub fn highest(mask: u64) -> u8 {
    (0..3).rev().find(|i| mask >> i & 1 == 1).map(|i| 0x10 + i as u8).unwrap_or(0)
}
pub fn ver_bit(v: u8) -> u64 {
    match v {
        0x10 => 1,
        0x11 => 2,
        0x12 => 4,
        _ => 0,
    }
}
pub const ASYM_PRIO: [u32; 9] = [0x100, 0x80, 0x10, 0x40, 0x8, 0x2, 0x20, 0x4, 0x1];
pub const HASH_PRIO: [u32; 3] = [4, 2, 1];
pub const DHE_PRIO: [u32; 6] = [0x20, 0x10, 8, 4, 2, 1];
pub const AEAD_PRIO: [u32; 3] = [2, 1, 4];
pub fn prefer(table: &[u32], a: u64, b: u64) -> u32 {
    let c = (a & b) as u32;
    table.iter().copied().find(|x| c & x != 0).unwrap_or(0)
}

pub fn req_caps_legal(ver: u8, f: u32) -> bool {
    if ver < 0x11 {
        return true;
    }
    let has = |x: u32| f & x != 0;
    let psk = (f >> 10) & 3;
    if psk >= 2 {
        return false;
    }
    let sess = has(CAP_KEYEX) || psk != 0;
    if sess && !(has(CAP_MAC)) {
        return false;
    }
    if !sess && (has(CAP_MAC) || has(CAP_ENCRYPT) || has(CAP_CLEAR) || has(CAP_HBEAT) || has(CAP_KEYUPD)) {
        return false;
    }
    if !has(CAP_KEYEX) && psk != 0 && has(CAP_CLEAR) {
        return false;
    }
    let pub_key = f & 0x10000 != 0;
    if has(CAP_CERT) && pub_key {
        return false;
    }
    if (has(CAP_CERT) || pub_key) && !(has(CAP_CHAL) || has(CAP_KEYEX)) {
        return false;
    }
    if !(has(CAP_CERT) || pub_key) && (has(CAP_CHAL) || has(CAP_MUT)) {
        return false;
    }
    if ver == 0x11 && has(CAP_MUT) && !has(CAP_ENCAP) {
        return false;
    }
    true
}

/// Capabilities a Responder may declare (DSP0274, CAPABILITIES flag rules).
pub fn rsp_caps_legal(ver: u8, f: u32) -> bool {
    let has = |x: u32| f & x != 0;
    let meas = (f >> 3) & 3;
    if meas == 3 || (meas == 0 && has(0x20)) {
        return false;
    }
    if ver < 0x11 {
        return if has(CAP_MEAS_SIG) { has(CAP_CERT) } else { has(CAP_CERT) == has(CAP_CHAL) };
    }
    let psk = (f >> 10) & 3;
    if psk == 3 {
        return false;
    }
    let sess = has(CAP_KEYEX) || psk != 0;
    if sess && !has(CAP_MAC) {
        return false;
    }
    if !sess && (has(CAP_MAC) || has(CAP_ENCRYPT) || has(CAP_CLEAR) || has(CAP_HBEAT) || has(CAP_KEYUPD)) {
        return false;
    }
    if !has(CAP_KEYEX) && psk != 0 && has(CAP_CLEAR) {
        return false;
    }
    let pub_key = f & 0x10000 != 0;
    if has(CAP_CERT) && pub_key {
        return false;
    }
    let uses = has(CAP_CHAL) || has(CAP_KEYEX) || has(CAP_MEAS_SIG);
    if has(CAP_CERT) || pub_key {
        if !uses {
            return false;
        }
    } else if uses || has(CAP_MUT) {
        return false;
    }
    if ver == 0x11 && has(CAP_MUT) && !has(CAP_ENCAP) {
        return false;
    }
    if ver >= 0x12 {
        let (alias, set, csr, inst) = (has(1 << 18), has(1 << 19), has(1 << 20), has(1 << 21));
        if (!has(CAP_CERT) && (alias || set)) || (csr && !set) || (inst && !csr && !set) {
            return false;
        }
    }
    true
}

/// What connection setup between these two configurations must arrive at.
pub fn negotiate(c: &Cfg) -> Option<Neg> {
    let ver = highest(c.req_ver & c.rsp_ver);
    if ver == 0 {
        return None;
    }
    let mut n = Neg { ver, ..Default::default() };
    n.req_caps = if ver >= 0x11 { c.req_caps as u32 } else { 0 };
    n.rsp_caps = c.rsp_caps as u32;
    if ver == 0x10 {
        n.rsp_caps &= 0x3f;
    }
    n.mspec = (c.req_mspec & c.rsp_mspec) as u8 & 1;
    n.mhash = c.rsp_mhash as u32;
    n.hash = prefer(&HASH_PRIO, c.req_hash, c.rsp_hash);
    n.asym = prefer(&ASYM_PRIO, c.req_asym, c.rsp_asym);
    if n.hash == 0 || n.asym == 0 {
        return None;
    }
    if ver >= 0x11 {
        n.dhe = prefer(&DHE_PRIO, c.req_dhe, c.rsp_dhe) as u16;
        n.aead = prefer(&AEAD_PRIO, c.req_aead, c.rsp_aead) as u16;
        n.rasym = prefer(&ASYM_PRIO, c.req_rasym, c.rsp_rasym) as u16;
        n.ks = (c.req_ks & c.rsp_ks) as u16 & 1;
    }
    if ver >= 0x12 {
        n.opaque = (c.req_opaque & c.rsp_opaque) as u8;
    }
    Some(n)
}

pub const CTX_CHAL: &str = "responder-challenge_auth signing";
pub const CTX_MEAS: &str = "responder-measurements signing";
pub const CTX_KEYEX: &str = "responder-key_exchange_rsp signing";
pub const CTX_FINISH: &str = "requester-finish signing";

/// The bytes put under a signature for a transcript.
pub fn to_sign(n: &Neg, ctx: &str, transcript: &[u8]) -> Vec<u8> {
    if n.ver < 0x12 {
        return transcript.to_vec();
    }
    let mut v = b"dmtf-spdm-v1.2.*".repeat(4);
    v.extend(vec![0; 36 - ctx.len()]);
    v.extend_from_slice(ctx.as_bytes());
    v.extend(m_hash(n.hash, n.hs(), transcript));
    v
}

/// The certificate chain structure (length, root hash, certificates) for a provisioned chain.
pub fn chain_buf(hash: u32, data: &[u8]) -> Vec<u8> {
    let n = hash_size(hash);
    let (a, b) = mc::cert_at(data, 0).unwrap_or((0, 0));
    let l = (4 + n + data.len()) as u16;
    let mut v = l.to_le_bytes().to_vec();
    v.extend([0, 0]);
    v.extend(m_hash(hash, n, &data[a..b]));
    v.extend_from_slice(data);
    v
}
pub fn provisioned(c: &Cfg, node: usize, slot: u64) -> Option<Vec<u8>> {
    let (slots, ident) = if node == RSP { (c.rsp_slots, c.rsp_ident) } else { (c.req_slots, c.req_ident) };
    if slot < 8 && slots >> slot & 1 == 1 {
        Some(mc::make_chain(c, node == RSP, ident, slot))
    } else {
        None
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Dir {
    pub secret: Vec<u8>,
    pub key: Vec<u8>,
    pub salt: Vec<u8>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Hs {
    pub req: Dir,
    pub rsp: Dir,
    pub fk_req: Vec<u8>,
    pub fk_rsp: Vec<u8>,
    pub master: Vec<u8>,
}

fn exp(n: &Neg, prk: &[u8], lab: &str, ctx: &[u8], len: usize) -> Vec<u8> {
    m_expand(n.hash, prk, &mc::label(n.ver, len, lab.as_bytes(), ctx), len)
}
pub fn dir(n: &Neg, secret: Vec<u8>) -> Dir {
    let key = exp(n, &secret, "key", b"", aead_key(n.aead));
    let salt = exp(n, &secret, "iv", b"", 12);
    Dir { secret, key, salt }
}
pub fn next(n: &Neg, d: &Dir) -> Dir {
    dir(n, exp(n, &d.secret, "traffic upd", b"", n.hs()))
}
fn hs_from(n: &Neg, hs: &[u8], master: Vec<u8>, th1: &[u8]) -> Hs {
    let h = n.hs();
    let req = dir(n, exp(n, hs, "req hs data", th1, h));
    let rsp = dir(n, exp(n, hs, "rsp hs data", th1, h));
    let fk_req = exp(n, &req.secret, "finished", b"", h);
    let fk_rsp = exp(n, &rsp.secret, "finished", b"", h);
    Hs { req, rsp, fk_req, fk_rsp, master }
}
pub fn handshake(n: &Neg, shared: &[u8], th1: &[u8]) -> Hs {
    let h = n.hs();
    let zero = vec![0u8; h];
    let hs = m_extract(n.hash, h, &zero, shared);
    let salt1 = exp(n, &hs, "derived", b"", h);
    let master = m_extract(n.hash, h, &salt1, &zero);
    hs_from(n, &hs, master, th1)
}
pub fn psk_handshake(c: &Cfg, node: usize, n: &Neg, hint: &[u8], th1: &[u8]) -> Hs {
    let (hs, ms) = mc::psk_roots(c, node, n.ver, n.hash, n.hs(), hint);
    hs_from(n, &hs, ms, th1)
}
pub fn data_keys(n: &Neg, hs: &Hs, th2: &[u8]) -> (Dir, Dir) {
    let h = n.hs();
    (dir(n, exp(n, &hs.master, "req app data", th2, h)), dir(n, exp(n, &hs.master, "rsp app data", th2, h)))
}
pub fn hmac(n: &Neg, key: &[u8], transcript: &[u8]) -> Vec<u8> {
    m_hmac(n.hash, n.hs(), key, &m_hash(n.hash, n.hs(), transcript))
}
