//! The simulator's own reading of SPDM messages (DSP0274 1.0/1.1/1.2), independent of the codec
//! in the repository: field layout, sizes and codes.

use crate::prim::hex;

pub const GET_DIGESTS: u8 = 0x81;
pub const GET_CERTIFICATE: u8 = 0x82;
pub const CHALLENGE: u8 = 0x83;
pub const GET_VERSION: u8 = 0x84;
pub const GET_MEASUREMENTS: u8 = 0xE0;
pub const GET_CAPABILITIES: u8 = 0xE1;
pub const NEGOTIATE_ALGORITHMS: u8 = 0xE3;
pub const KEY_EXCHANGE: u8 = 0xE4;
pub const FINISH: u8 = 0xE5;
pub const PSK_EXCHANGE: u8 = 0xE6;
pub const PSK_FINISH: u8 = 0xE7;
pub const HEARTBEAT: u8 = 0xE8;
pub const KEY_UPDATE: u8 = 0xE9;
pub const GET_ENCAP: u8 = 0xEA;
pub const DELIVER_ENCAP: u8 = 0xEB;
pub const END_SESSION: u8 = 0xEC;
pub const VENDOR: u8 = 0xFE;
pub const ERROR: u8 = 0x7F;

pub const CAP_CERT: u32 = 2;
pub const CAP_CHAL: u32 = 4;
pub const CAP_MEAS_NOSIG: u32 = 8; // responder
pub const CAP_MEAS_SIG: u32 = 0x10;
pub const CAP_ENCRYPT: u32 = 0x40;
pub const CAP_MAC: u32 = 0x80;
pub const CAP_MUT: u32 = 0x100;
pub const CAP_KEYEX: u32 = 0x200;
pub const CAP_PSK: u32 = 0x400;
pub const CAP_PSK_CTX: u32 = 0x800; // responder: with context
pub const CAP_ENCAP: u32 = 0x1000;
pub const CAP_HBEAT: u32 = 0x2000;
pub const CAP_KEYUPD: u32 = 0x4000;
pub const CAP_CLEAR: u32 = 0x8000;

/// Negotiated parameters that decide message layout.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Neg {
    pub ver: u8,
    pub req_caps: u32,
    pub rsp_caps: u32,
    pub mspec: u8,
    pub mhash: u32,
    pub hash: u32,
    pub asym: u32,
    pub dhe: u16,
    pub aead: u16,
    pub rasym: u16,
    pub ks: u16,
    pub opaque: u8,
}
pub fn hash_size(b: u32) -> usize {
    match b {
        1 => 32,
        2 => 48,
        4 => 64,
        _ => 0,
    }
}
pub fn mhash_size(b: u32) -> usize {
    match b {
        2 => 32,
        4 => 48,
        8 => 64,
        _ => 0,
    }
}
pub fn asym_size(b: u32) -> usize {
    match b {
        0x1 | 0x2 => 256,
        0x4 | 0x8 => 384,
        0x20 | 0x40 => 512,
        0x10 => 64,
        0x80 => 96,
        0x100 => 132,
        _ => 0,
    }
}
pub fn dhe_size(b: u16) -> usize {
    match b {
        1 => 256,
        2 => 384,
        4 => 512,
        8 => 64,
        0x10 => 96,
        0x20 => 132,
        _ => 0,
    }
}
pub fn aead_key(b: u16) -> usize {
    match b {
        1 => 16,
        2 | 4 => 32,
        _ => 0,
    }
}
impl Neg {
    pub fn hs(&self) -> usize {
        hash_size(self.hash)
    }
    pub fn clear(&self) -> bool {
        self.req_caps & self.rsp_caps & CAP_CLEAR != 0
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Msg {
    pub b: Vec<u8>,
    pub ver: u8,
    pub code: u8,
    pub p1: u8,
    pub p2: u8,
    pub len: usize,
    f: Vec<(&'static str, usize, usize)>,
}
impl Msg {
    pub fn f(&self, n: &str) -> &[u8] {
        self.f.iter().find(|x| x.0 == n).map(|x| &self.b[x.1..x.2]).unwrap_or(&[])
    }
    pub fn at(&self, n: &str) -> usize {
        self.f.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or(self.len)
    }
    pub fn num(&self, n: &str) -> u64 {
        self.f(n).iter().rev().fold(0, |a, b| a << 8 | *b as u64)
    }
    pub fn body(&self) -> &[u8] {
        &self.b[..self.len]
    }
    /// the message up to a field
    pub fn upto(&self, n: &str) -> &[u8] {
        &self.b[..self.at(n)]
    }
}

struct P<'a> {
    b: &'a [u8],
    o: usize,
    m: Msg,
}
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    fn take(&mut self, n: &'static str, l: usize) -> R<()> {
        if self.o + l > self.b.len() {
            return Err(format!("too short for {}", n));
        }
        self.m.f.push((n, self.o, self.o + l));
        self.o += l;
        Ok(())
    }
    fn num(&mut self, n: &'static str, l: usize) -> R<u64> {
        self.take(n, l)?;
        Ok(self.b[self.o - l..self.o].iter().rev().fold(0, |a, b| a << 8 | *b as u64))
    }
}

fn start(b: &[u8]) -> R<P> {
    if b.len() < 4 {
        return Err("shorter than a header".into());
    }
    let m = Msg { b: b.to_vec(), ver: b[0], code: b[1], p1: b[2], p2: b[3], len: 0, f: vec![] };
    Ok(P { b, o: 4, m })
}
fn done(mut p: P) -> R<Msg> {
    p.m.len = p.o;
    Ok(p.m)
}

pub fn name(code: u8) -> &'static str {
    match code {
        0x81 => "GET_DIGESTS",
        0x82 => "GET_CERTIFICATE",
        0x83 => "CHALLENGE",
        0x84 => "GET_VERSION",
        0xE0 => "GET_MEASUREMENTS",
        0xE1 => "GET_CAPABILITIES",
        0xE3 => "NEGOTIATE_ALGORITHMS",
        0xE4 => "KEY_EXCHANGE",
        0xE5 => "FINISH",
        0xE6 => "PSK_EXCHANGE",
        0xE7 => "PSK_FINISH",
        0xE8 => "HEARTBEAT",
        0xE9 => "KEY_UPDATE",
        0xEA => "GET_ENCAPSULATED_REQUEST",
        0xEB => "DELIVER_ENCAPSULATED_RESPONSE",
        0xEC => "END_SESSION",
        0xFE => "VENDOR_DEFINED_REQUEST",
        0xFF => "RESPOND_IF_READY",
        0x01 => "DIGESTS",
        0x02 => "CERTIFICATE",
        0x03 => "CHALLENGE_AUTH",
        0x04 => "VERSION",
        0x60 => "MEASUREMENTS",
        0x61 => "CAPABILITIES",
        0x63 => "ALGORITHMS",
        0x64 => "KEY_EXCHANGE_RSP",
        0x65 => "FINISH_RSP",
        0x66 => "PSK_EXCHANGE_RSP",
        0x67 => "PSK_FINISH_RSP",
        0x68 => "HEARTBEAT_ACK",
        0x69 => "KEY_UPDATE_ACK",
        0x6A => "ENCAPSULATED_REQUEST",
        0x6B => "ENCAPSULATED_RESPONSE_ACK",
        0x6C => "END_SESSION_ACK",
        0x7E => "VENDOR_DEFINED_RESPONSE",
        0x7F => "ERROR",
        _ => "unknown code",
    }
}

pub fn is_req(code: u8) -> bool {
    code & 0x80 != 0
}

/// Parses a request under the parameters in force.
pub fn req(n: &Neg, b: &[u8]) -> R<Msg> {
    let mut p = start(b)?;
    match p.m.code {
        GET_VERSION | GET_DIGESTS | HEARTBEAT | GET_ENCAP | END_SESSION | KEY_UPDATE => {}
        GET_CAPABILITIES => {
            if n.ver >= 0x11 {
                p.take("res", 1)?;
                p.take("ct", 1)?;
                p.take("res2", 2)?;
                p.take("flags", 4)?;
            }
            if n.ver >= 0x12 {
                p.take("dts", 4)?;
                p.take("max", 4)?;
            }
        }
        NEGOTIATE_ALGORITHMS => {
            let l = p.num("len", 2)?;
            p.take("mspec", 1)?;
            p.take("opaque", 1)?;
            p.take("asym", 4)?;
            p.take("hash", 4)?;
            p.take("res", 12)?;
            let ea = p.num("extasym", 1)?;
            let eh = p.num("exthash", 1)?;
            p.take("res2", 2)?;
            if ea + eh > 0 {
                p.take("ext", (ea + eh) as usize * 4)?;
            }
            if n.ver >= 0x11 {
                let c = p.m.p1;
                for _ in 0..c {
                    structs(&mut p)?;
                }
            }
            if l as usize != p.o {
                return Err("length field".into());
            }
        }
        GET_CERTIFICATE => {
            p.take("off", 2)?;
            p.take("n", 2)?;
        }
        CHALLENGE => p.take("nonce", 32)?,
        GET_MEASUREMENTS => {
            if p.m.p1 & 1 != 0 {
                p.take("nonce", 32)?;
                if n.ver >= 0x11 {
                    p.take("slot", 1)?;
                }
            }
        }
        KEY_EXCHANGE => {
            p.take("sid", 2)?;
            p.take("policy", 1)?;
            p.take("res", 1)?;
            p.take("random", 32)?;
            p.take("exch", dhe_size(n.dhe))?;
            opaque(&mut p)?;
        }
        FINISH => {
            if p.m.p1 & 1 != 0 {
                p.take("sig", asym_size(n.rasym as u32))?;
            }
            p.take("hmac", n.hs())?;
        }
        PSK_EXCHANGE => {
            p.take("sid", 2)?;
            let h = p.num("hintlen", 2)? as usize;
            let c = p.num("ctxlen", 2)? as usize;
            let o = p.num("oplen", 2)? as usize;
            p.take("hint", h)?;
            p.take("ctx", c)?;
            p.take("opaque", o)?;
        }
        PSK_FINISH => p.take("hmac", n.hs())?,
        DELIVER_ENCAP => {
            let r = p.b.len() - p.o;
            p.take("inner", r)?;
        }
        VENDOR => vendor(&mut p)?,
        _ => return Err("unknown request".into()),
    }
    done(p)
}
fn structs(p: &mut P) -> R<()> {
    if p.o + 4 > p.b.len() {
        return Err("too short for an algorithm structure".into());
    }
    let t = p.b[p.o];
    if p.b[p.o + 1] != 0x20 {
        return Err("algorithm structure count".into());
    }
    let nm = match t {
        2 => "dhe",
        3 => "aead",
        4 => "rasym",
        5 => "ks",
        _ => return Err("algorithm structure type".into()),
    };
    p.o += 2;
    p.take(nm, 2)
}
fn opaque(p: &mut P) -> R<()> {
    let l = p.num("oplen", 2)? as usize;
    p.take("opaque", l)
}
fn vendor(p: &mut P) -> R<()> {
    p.take("std", 2)?;
    let l = p.num("idlen", 1)? as usize;
    p.take("id", l)?;
    let l = p.num("plen", 2)? as usize;
    p.take("payload", l)
}

/// Parses a response to `q` under the parameters in force.
pub fn rsp(n: &Neg, q: &Msg, b: &[u8]) -> R<Msg> {
    let mut p = start(b)?;
    if p.m.code == ERROR {
        match p.m.p1 {
            0x42 => p.take("notready", 4)?,
            0xff => {
                let r = p.b.len() - p.o;
                p.take("ext", r)?;
            }
            _ => {}
        }
        return done(p);
    }
    if p.m.code != q.code & 0x7f {
        return Err(format!("{} in answer to {}", name(p.m.code), name(q.code)));
    }
    let h = n.hs();
    match q.code {
        GET_VERSION => {
            p.take("res", 1)?;
            let c = p.num("count", 1)? as usize;
            if c == 0 {
                return Err("no version entry".into());
            }
            p.take("entries", 2 * c)?;
        }
        HEARTBEAT | END_SESSION | KEY_UPDATE | PSK_FINISH => {}
        GET_CAPABILITIES => {
            p.take("res", 1)?;
            p.take("ct", 1)?;
            p.take("res2", 2)?;
            p.take("flags", 4)?;
            if n.ver >= 0x12 {
                p.take("dts", 4)?;
                p.take("max", 4)?;
            }
        }
        NEGOTIATE_ALGORITHMS => {
            let l = p.num("len", 2)?;
            p.take("mspec", 1)?;
            p.take("opaque", 1)?;
            p.take("mhash", 4)?;
            p.take("asym", 4)?;
            p.take("hash", 4)?;
            p.take("res", 12)?;
            let ea = p.num("extasym", 1)?;
            let eh = p.num("exthash", 1)?;
            p.take("res2", 2)?;
            if ea + eh > 0 {
                return Err("extended algorithms selected".into());
            }
            if n.ver >= 0x11 {
                let c = p.m.p1;
                for _ in 0..c {
                    structs(&mut p)?;
                }
            }
            if l as usize != p.o {
                return Err("length field".into());
            }
        }
        GET_DIGESTS => {
            let c = p.m.p2.count_ones() as usize;
            p.take("digests", c * h)?;
        }
        GET_CERTIFICATE => {
            let l = p.num("n", 2)? as usize;
            p.take("rem", 2)?;
            p.take("data", l)?;
        }
        CHALLENGE => {
            p.take("certhash", h)?;
            p.take("nonce", 32)?;
            if q.p2 != 0 {
                p.take("sum", h)?;
            }
            opaque(&mut p)?;
            p.take("sig", asym_size(n.asym))?;
        }
        GET_MEASUREMENTS => {
            p.take("blocks", 1)?;
            let l = p.num("reclen", 3)? as usize;
            p.take("rec", l)?;
            p.take("nonce", 32)?;
            opaque(&mut p)?;
            if q.p1 & 1 != 0 {
                p.take("sig", asym_size(n.asym))?;
            }
        }
        KEY_EXCHANGE => {
            p.take("sid", 2)?;
            p.take("mut", 1)?;
            p.take("slot", 1)?;
            p.take("random", 32)?;
            p.take("exch", dhe_size(n.dhe))?;
            if q.p1 != 0 {
                p.take("sum", h)?;
            }
            opaque(&mut p)?;
            p.take("sig", asym_size(n.asym))?;
            if !n.clear() {
                p.take("hmac", h)?;
            }
        }
        FINISH => {
            if n.clear() {
                p.take("hmac", h)?;
            }
        }
        PSK_EXCHANGE => {
            p.take("sid", 2)?;
            p.take("res", 2)?;
            let c = p.num("ctxlen", 2)? as usize;
            let o = p.num("oplen", 2)? as usize;
            if q.p1 != 0 {
                p.take("sum", h)?;
            }
            p.take("ctx", c)?;
            p.take("opaque", o)?;
            p.take("hmac", h)?;
        }
        GET_ENCAP => {
            let r = p.b.len() - p.o;
            p.take("inner", r)?;
        }
        DELIVER_ENCAP => {
            if n.ver >= 0x12 {
                p.take("ackid", 1)?;
                p.take("res", 3)?;
            }
            match p.m.p2 {
                0 => {}
                1 => {
                    let r = p.b.len() - p.o;
                    p.take("inner", r)?;
                }
                2 => p.take("slot", 1)?,
                _ => return Err("acknowledgement payload type".into()),
            }
        }
        VENDOR => vendor(&mut p)?,
        _ => return Err("response to an unknown request".into()),
    }
    done(p)
}

pub fn show(b: &[u8]) -> String {
    if b.len() < 2 {
        return hex(b);
    }
    format!("{}[{}]", name(b[1]), hex(&b[..b.len().min(12)]))
}

/// Is what follows the message only what the transport may add?
pub fn tail_ok(doe: bool, m: &Msg) -> bool {
    let t = &m.b[m.len..];
    if doe {
        t.len() < 4 && t.iter().all(|x| *x == 0)
    } else {
        t.is_empty()
    }
}
