//! A plan is everything one simulated execution depends on: configuration, client operations and
//! faults. Generation draws it from a seed; a replay file is a plan written out as text.

use crate::prim::{hex, unhex};

macro_rules! cfg_struct {
    ($($f:ident = $d:expr),* $(,)?) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct Cfg { $(pub $f: u64),* }
        impl Default for Cfg {
            fn default() -> Cfg { Cfg { $($f: $d),* } }
        }
        impl Cfg {
            pub fn to_text(&self) -> String {
                let d = Cfg::default();
                let mut s = String::new();
                $( if self.$f != d.$f || stringify!($f) == "seed" {
                    s.push_str(&format!("cfg {}={}\n", stringify!($f), self.$f));
                } )*
                s
            }
            pub fn set(&mut self, k: &str, v: u64) -> bool {
                $( if k == stringify!($f) { self.$f = v; return true; } )*
                false
            }
            pub fn get(&self, k: &str) -> Option<u64> {
                $( if k == stringify!($f) { return Some(self.$f); } )*
                None
            }
            pub fn names() -> Vec<&'static str> { vec![$(stringify!($f)),*] }
        }
    };
}

// Versions are bit masks (1: 1.0, 2: 1.1, 4: 1.2); capability and algorithm fields hold the
// wire bits of DSP0274.
cfg_struct! {
    seed = 0,
    transport = 0,            // 0 MCTP, 1 PCI DOE
    req_ver = 7, rsp_ver = 7,
    req_caps = 0x77c6, rsp_caps = 0x7bf6,
    req_ct = 20, rsp_ct = 20,
    req_mspec = 1, rsp_mspec = 1, rsp_mhash = 4,
    req_hash = 2, rsp_hash = 2,
    req_asym = 0x80, rsp_asym = 0x80,
    req_dhe = 0x10, rsp_dhe = 0x10,
    req_aead = 2, rsp_aead = 2,
    req_rasym = 0x80, rsp_rasym = 0x80,
    req_ks = 1, rsp_ks = 1,
    req_opaque = 2, rsp_opaque = 2,
    req_dts = 4096, rsp_dts = 4096,
    req_max = 4096, rsp_max = 4096,
    policy = 0, content_change = 0, hb = 0,
    secver0 = 0x10, secver1 = 0x11,
    certs = 3, cert_pad = 120,
    rsp_slots = 1, req_slots = 1,
    rsp_ident = 0,            // 0 genuine, 1 untrusted root, 2 key does not match certificate, 3 broken chain, 4 certificate of another trusted device
    req_ident = 0,
    req_root = 1, rsp_root = 1,   // peer root provisioned
    meas_n = 4, meas_sz = 32,
    psk_mismatch = 0,
    latency = 0,
    app_mode = 0,             // what the responder's application handler does
    trust_other = 0,
}

macro_rules! kinds {
    ($name:ident { $($v:ident),* $(,)? }) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum $name { $($v),* }
        impl $name {
            pub const ALL: &'static [$name] = &[$($name::$v),*];
            pub fn name(self) -> &'static str { match self { $($name::$v => stringify!($v)),* } }
            pub fn parse(s: &str) -> Option<$name> {
                $( if s == stringify!($v) { return Some($name::$v); } )*
                None
            }
        }
    };
}

kinds!(OpK {
    Init, Version, Capability, Algorithm,
    Digest, Certificate, Challenge, Measure,
    StartSession, KeyExchange, MutAuth, Finish, PskExchange, PskFinish,
    Heartbeat, KeyUpdate, EndSession, Vendor, App,
    CrashReq, CrashRsp, Advance, Drain, FlushNet,
    Inject, InjectOld, RawClear, RawSecured, SetMeas, SetContent, SpoilChain, SetSeq, EvilFinish,
    Recover, AbandonSid, Carry,
});

kinds!(FaultK {
    Drop, Dup, Delay, Corrupt, Trunc, Extend, ReplaceOld, InjectBefore, InjectOldBefore,
    Reflect, SendErr, SendErrDelivered, RecvErr, Seam, Crash, Evil, EvilLen, SetField, ShortRecv,
    HoldUntil, Replace, Forge,
});

kinds!(Seam {
    Rand, HashAll, HashInit, HashUpdate, HashFinal, HashDup, Hmac, HmacVerify, Sign, Verify,
    AeadEnc, AeadDec, HkdfExtract, HkdfExpand, DheGen, DheFinal, CertGet, CertVerify,
    MeasCollect, MeasSummary, PskHs, PskMaster, Vendor, App, Send, Recv,
});

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: OpK,
    pub p: [i64; 4],
    pub data: Vec<u8>,
}
pub fn op(k: OpK, p: &[i64]) -> Op {
    let mut a = [0i64; 4];
    a[..p.len()].copy_from_slice(p);
    Op { k, p: a, data: vec![] }
}
pub fn opd(k: OpK, p: &[i64], data: Vec<u8>) -> Op {
    let mut o = op(k, p);
    o.data = data;
    o
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub k: FaultK,
    pub at: i64, // packet index, or call index at a seam
    pub p: [i64; 4],
    pub data: Vec<u8>,
}
pub fn fault(k: FaultK, at: i64, p: &[i64]) -> Fault {
    let mut a = [0i64; 4];
    a[..p.len()].copy_from_slice(p);
    Fault { k, at, p: a, data: vec![] }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
    pub faults: Vec<Fault>,
    /// the script is a correct use of the library under a supported configuration: with no
    /// faults every operation is owed success
    pub honest: bool,
    pub profile: String,
}

impl Plan {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        s.push_str(&format!("profile {}\nhonest {}\n", self.profile, self.honest as u8));
        s.push_str(&self.cfg.to_text());
        for o in &self.ops {
            s.push_str(&format!(
                "op {} {} {} {} {} {}\n",
                o.k.name(), o.p[0], o.p[1], o.p[2], o.p[3],
                if o.data.is_empty() { "-".into() } else { hex(&o.data) }
            ));
        }
        for f in &self.faults {
            s.push_str(&format!(
                "fault {} {} {} {} {} {} {}\n",
                f.k.name(), f.at, f.p[0], f.p[1], f.p[2], f.p[3],
                if f.data.is_empty() { "-".into() } else { hex(&f.data) }
            ));
        }
        s
    }

    pub fn parse(text: &str) -> Result<Plan, String> {
        let mut p = Plan {
            cfg: Cfg::default(),
            ops: vec![],
            faults: vec![],
            honest: false,
            profile: String::new(),
        };
        for l in text.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let w: Vec<&str> = l.split_whitespace().collect();
            let bad = || format!("bad line: {}", l);
            let num = |i: usize| -> Result<i64, String> {
                w.get(i).and_then(|x| x.parse().ok()).ok_or_else(bad)
            };
            let dat = |i: usize| -> Result<Vec<u8>, String> {
                match w.get(i) {
                    None | Some(&"-") => Ok(vec![]),
                    Some(h) => unhex(h).ok_or_else(bad),
                }
            };
            match w[0] {
                "profile" => p.profile = w.get(1).unwrap_or(&"").to_string(),
                "honest" => p.honest = num(1)? != 0,
                "cfg" => {
                    let (k, v) = w.get(1).and_then(|x| x.split_once('=')).ok_or_else(bad)?;
                    if !p.cfg.set(k, v.parse().map_err(|_| bad())?) {
                        return Err(bad());
                    }
                }
                "op" => p.ops.push(Op {
                    k: OpK::parse(w.get(1).ok_or_else(bad)?).ok_or_else(bad)?,
                    p: [num(2)?, num(3)?, num(4)?, num(5)?],
                    data: dat(6)?,
                }),
                "fault" => p.faults.push(Fault {
                    k: FaultK::parse(w.get(1).ok_or_else(bad)?).ok_or_else(bad)?,
                    at: num(2)?,
                    p: [num(3)?, num(4)?, num(5)?, num(6)?],
                    data: dat(7)?,
                }),
                _ => {} // header lines of a replay file
            }
        }
        Ok(p)
    }
}
