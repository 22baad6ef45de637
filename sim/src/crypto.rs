//! Model implementations of every callback spdmlib takes from its platform: cryptography,
//! device secrets, random numbers, certificates, clock, vendor and application handlers.
//! Each call passes the fault gate (`World::seam`), is recorded in the history, and is a
//! deterministic function of the plan.

use crate::plan::*;
use crate::prim::*;
use crate::world::*;
use spdmlib::crypto::*;
use spdmlib::error::*;
use spdmlib::message::vendor::*;
use spdmlib::protocol::*;
use spdmlib::secret::*;

// key identities
pub const K_RSP: u64 = 0x5250_0001;
pub const K_REQ: u64 = 0x5251_0002;
pub const K_EVIL: u64 = 0xEE11_0066;
pub const K_OTHER: u64 = 0x0D0D_0005;
pub const ROOT_RSP: u64 = 0xCA00_0100;
pub const ROOT_REQ: u64 = 0xCA00_0200;
pub const ROOT_EVIL: u64 = 0xCA00_0300;

pub fn priv_of(id: u64) -> Vec<u8> {
    mix(D_KEY, &[&id.to_le_bytes()], 32)
}

// ---- certificates -------------------------------------------------------------------------
fn cert(issuer: u64, subject: u64, pad: usize, serial: u64, good: bool) -> Vec<u8> {
    let mut body = b"SCRT".to_vec();
    body.extend_from_slice(&issuer.to_le_bytes());
    body.extend_from_slice(&subject.to_le_bytes());
    body.extend_from_slice(&(pad as u16).to_le_bytes());
    body.extend(mix(0x77, &[&serial.to_le_bytes()], pad));
    let mut sig = mix(D_CERTSIG, &[&priv_of(issuer), &body], 32);
    if !good {
        sig[3] ^= 0x40;
    }
    body.extend(sig);
    let mut v = vec![0x30, 0x82, (body.len() >> 8) as u8, body.len() as u8];
    v.extend(body);
    v
}

/// ident: 0 genuine, 1 untrusted root, 2 genuine chain (key differs), 3 broken signature in the
/// chain, 4 another device under the same root
pub fn make_chain(cfg: &Cfg, responder: bool, ident: u64, slot: u64) -> Vec<u8> {
    let n = (cfg.certs.max(1)) as usize;
    let root = match (ident, responder) {
        (1, _) => ROOT_EVIL,
        (_, true) => ROOT_RSP,
        (_, false) => ROOT_REQ,
    };
    let leaf = match (ident, responder) {
        (1, _) => K_EVIL,
        (4, _) => K_OTHER,
        (_, true) => K_RSP,
        (_, false) => K_REQ,
    };
    let pad = cfg.cert_pad as usize;
    let ser = |i: u64| mix64(0x55, &[&root.to_le_bytes(), &leaf.to_le_bytes(), &i.to_le_bytes(), &slot.to_le_bytes()]);
    let mut out = vec![];
    let mut issuer = root;
    for i in 0..n {
        let subject = if i == 0 && n > 1 {
            root
        } else if i == n - 1 {
            leaf
        } else {
            root + i as u64
        };
        // the root certificate is the same for every slot
        let s = if i == 0 { mix64(0x56, &[&root.to_le_bytes()]) } else { ser(i as u64) };
        let iss = if n == 1 { root } else { issuer };
        let bad = ident == 3 && i == n - 1;
        out.extend(cert(iss, subject, pad, s, !bad));
        issuer = subject;
    }
    out
}

pub fn cert_at(chain: &[u8], index: isize) -> Option<(usize, usize)> {
    let mut pos = 0;
    let mut i = 0;
    let mut last = None;
    while pos + 4 <= chain.len() {
        if chain[pos] != 0x30 || chain[pos + 1] != 0x82 {
            return None;
        }
        let l = ((chain[pos + 2] as usize) << 8) | chain[pos + 3] as usize;
        let end = pos + 4 + l;
        if end > chain.len() {
            return None;
        }
        if i == index {
            return Some((pos, end));
        }
        last = Some((pos, end));
        pos = end;
        i += 1;
    }
    if index == -1 {
        last
    } else {
        None
    }
}

struct Cert<'a> {
    issuer: u64,
    subject: u64,
    body: &'a [u8],
    sig: &'a [u8],
}
fn parse_cert(c: &[u8]) -> Option<Cert> {
    if c.len() < 4 + 4 + 16 + 2 + 32 || &c[4..8] != b"SCRT" {
        return None;
    }
    let body = &c[4..c.len() - 32];
    let pad = u16::from_le_bytes([c[24], c[25]]) as usize;
    if body.len() != 22 + pad {
        return None;
    }
    Some(Cert { issuer: key8(&c[8..16]), subject: key8(&c[16..24]), body, sig: &c[c.len() - 32..] })
}
pub fn leaf_id(chain: &[u8]) -> Option<u64> {
    let (a, b) = cert_at(chain, -1)?;
    Some(parse_cert(&chain[a..b])?.subject)
}
pub fn root_id(chain: &[u8]) -> Option<u64> {
    let (a, b) = cert_at(chain, 0)?;
    Some(parse_cert(&chain[a..b])?.issuer)
}
pub fn chain_ok(chain: &[u8]) -> bool {
    let mut i = 0;
    let mut prev: Option<u64> = None;
    let mut end = 0;
    while let Some((a, b)) = cert_at(chain, i) {
        let c = match parse_cert(&chain[a..b]) {
            Some(c) => c,
            None => return false,
        };
        match prev {
            None => {}
            Some(p) if p == c.issuer => {}
            _ => return false,
        }
        if mix(D_CERTSIG, &[&priv_of(c.issuer), c.body], 32) != c.sig {
            return false;
        }
        prev = Some(c.subject);
        end = b;
        i += 1;
    }
    i > 0 && end == chain.len()
}

fn err() -> SpdmStatus {
    SPDM_STATUS_CRYPTO_ERROR
}

fn digest(v: Vec<u8>) -> SpdmDigestStruct {
    SpdmDigestStruct::from(v.as_slice())
}

// ---- hash -----------------------------------------------------------------------------------
fn hash_all(a: SpdmBaseHashAlgo, data: &[u8]) -> Option<SpdmDigestStruct> {
    let w = w();
    if !w.seam(Seam::HashAll) {
        return None;
    }
    let n = a.get_size() as usize;
    if n == 0 {
        return None;
    }
    let out = m_hash(a.bits(), n, data);
    let node = w.cur;
    w.ev.push(Ev::Hash { node, out: out.clone(), data: data.to_vec() });
    Some(digest(out))
}
#[cfg(feature = "hashed")]
mod hctx {
    use super::*;
    pub fn init(a: SpdmBaseHashAlgo) -> Option<usize> {
        let w = w();
        if !w.seam(Seam::HashInit) || a.get_size() == 0 {
            return None;
        }
        let h = w.next_handle;
        w.next_handle += 1;
        w.hash_ctx.insert(h, (a.bits(), vec![]));
        Some(h)
    }
    pub fn update(h: usize, data: &[u8]) -> SpdmResult {
        let w = w();
        if !w.seam(Seam::HashUpdate) {
            return Err(err());
        }
        match w.hash_ctx.get_mut(&h) {
            Some(c) => {
                c.1.extend_from_slice(data);
                Ok(())
            }
            None => {
                w.bad_handles.push("update".into());
                Err(err())
            }
        }
    }
    pub fn finalize(h: usize) -> Option<SpdmDigestStruct> {
        let w = w();
        let ok = w.seam(Seam::HashFinal);
        match w.hash_ctx.remove(&h) {
            Some((a, d)) => {
                let algo = SpdmBaseHashAlgo::from_bits(a)?;
                if !ok {
                    return None;
                }
                let out = m_hash(a, algo.get_size() as usize, &d);
                let node = w.cur;
                w.ev.push(Ev::Hash { node, out: out.clone(), data: d });
                Some(digest(out))
            }
            None => {
                w.bad_handles.push("finalize".into());
                None
            }
        }
    }
    pub fn dup(h: usize) -> Option<usize> {
        let w = w();
        if !w.seam(Seam::HashDup) {
            return None;
        }
        let c = w.hash_ctx.get(&h).cloned();
        match c {
            Some(c) => {
                let n = w.next_handle;
                w.next_handle += 1;
                w.hash_ctx.insert(n, c);
                Some(n)
            }
            None => {
                w.bad_handles.push("dup".into());
                None
            }
        }
    }
}

// ---- hmac, hkdf -----------------------------------------------------------------------------
fn hmac(a: SpdmBaseHashAlgo, key: &[u8], data: &[u8]) -> Option<SpdmDigestStruct> {
    let w = w();
    if !w.seam(Seam::Hmac) || a.get_size() == 0 {
        return None;
    }
    let out = m_hmac(a.bits(), a.get_size() as usize, key, data);
    let node = w.cur;
    w.ev.push(Ev::Hmac { node, key: key.to_vec(), data: data.to_vec(), out: out.clone() });
    Some(digest(out))
}
fn hmac_verify(a: SpdmBaseHashAlgo, key: &[u8], data: &[u8], mac: &SpdmDigestStruct) -> SpdmResult {
    let w = w();
    let pass = w.seam(Seam::HmacVerify);
    let n = a.get_size() as usize;
    let mut ok = pass && n != 0 && m_hmac(a.bits(), n, key, data) == mac.as_ref();
    let node = w.cur;
    if pass && n != 0 && !ok && w.forge && node == REQ && mac.as_ref().len() == n {
        ok = true;
        w.ev.push(Ev::Vouched { mac: mac.as_ref().to_vec() });
    }
    w.ev.push(Ev::HmacVerify { node, key: key.to_vec(), data: data.to_vec(), mac: mac.as_ref().to_vec(), ok });
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_VERIF_FAIL)
    }
}
fn hkdf_extract(a: SpdmBaseHashAlgo, salt: &[u8], ikm: &SpdmHkdfInputKeyingMaterial) -> Option<SpdmHkdfPseudoRandomKey> {
    let w = w();
    if !w.seam(Seam::HkdfExtract) || a.get_size() == 0 {
        return None;
    }
    let out = m_extract(a.bits(), a.get_size() as usize, salt, ikm.as_ref());
    w.secret("extracted key", &out);
    Some(SpdmHkdfPseudoRandomKey::from(out.as_slice()))
}
fn hkdf_expand(a: SpdmBaseHashAlgo, prk: &SpdmHkdfPseudoRandomKey, info: &[u8], size: u16) -> Option<SpdmHkdfOutputKeyingMaterial> {
    let w = w();
    if !w.seam(Seam::HkdfExpand) || size as usize > SPDM_MAX_HKDF_OKM_SIZE {
        return None;
    }
    let out = m_expand(a.bits(), prk.as_ref(), info, size as usize);
    w.secret("derived key", &out);
    Some(SpdmHkdfOutputKeyingMaterial::from(out.as_slice()))
}

// ---- signatures -----------------------------------------------------------------------------
pub fn m_sign(id: u64, hash: u32, asym: u32, size: usize, data: &[u8]) -> Vec<u8> {
    mix(D_SIG, &[&priv_of(id), &hash.to_le_bytes(), &asym.to_le_bytes(), data], size)
}
pub fn signing_key(cfg: &Cfg, node: usize) -> u64 {
    let ident = if node == RSP { cfg.rsp_ident } else { cfg.req_ident };
    match ident {
        1 | 2 => K_EVIL,
        4 => K_OTHER,
        _ if node == RSP => K_RSP,
        _ => K_REQ,
    }
}
fn sign(h: SpdmBaseHashAlgo, a: SpdmBaseAsymAlgo, data: &[u8]) -> Option<SpdmSignatureStruct> {
    let w = w();
    if !w.seam(Seam::Sign) || a.get_size() == 0 || h.get_size() == 0 {
        return None;
    }
    let node = w.cur;
    let key = signing_key(&w.cfg, node);
    let v = m_sign(key, h.bits(), a.bits(), a.get_size() as usize, data);
    w.ev.push(Ev::Sign { node, key, hash: h.bits(), asym: a.bits(), data: data.to_vec(), sig: v.clone() });
    let mut s = SpdmSignatureStruct { data_size: v.len() as u16, ..Default::default() };
    s.data[..v.len()].copy_from_slice(&v);
    Some(s)
}
fn verify(h: SpdmBaseHashAlgo, a: SpdmBaseAsymAlgo, der: &[u8], data: &[u8], sig: &SpdmSignatureStruct) -> SpdmResult {
    let w = w();
    let pass = w.seam(Seam::Verify);
    let n = a.get_size() as usize;
    // like a real verifier: the certificate given is a whole end-entity certificate or a chain
    let key = cert_at(der, -1).and_then(|(x, y)| parse_cert(&der[x..y])).map(|c| c.subject);
    let mut ok = pass
        && n != 0
        && h.get_size() != 0
        && match key {
            Some(k) => m_sign(k, h.bits(), a.bits(), n, data) == sig.as_ref(),
            None => false,
        };
    let node = w.cur;
    if pass && n != 0 && h.get_size() != 0 && !ok && w.forge && node == REQ && sig.as_ref().len() == n && key == Some(signing_key(&w.cfg, RSP)) {
        ok = true;
        w.ev.push(Ev::Sign { node: RSP, key: key.unwrap_or(0), hash: h.bits(), asym: a.bits(), data: data.to_vec(), sig: sig.as_ref().to_vec() });
    }
    w.ev.push(Ev::Verify { node, key: key.unwrap_or(0), hash: h.bits(), asym: a.bits(), data: data.to_vec(), sig: sig.as_ref().to_vec(), ok });
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_VERIF_FAIL)
    }
}

// ---- Diffie-Hellman -------------------------------------------------------------------------
struct Dhe {
    algo: SpdmDheAlgo,
    x: u64,
}
pub fn dhe_public(v: u64, n: usize) -> Vec<u8> {
    let mut p = v.to_le_bytes().to_vec();
    p.extend(mix(D_DHEPAD, &[&v.to_le_bytes()], n - 8));
    p
}
pub fn dhe_secret(v: u64, n: usize) -> Vec<u8> {
    mix(D_DHEPAD ^ 0x100, &[&v.to_le_bytes()], n)
}
fn gen_key_pair(algo: SpdmDheAlgo) -> Option<(SpdmDheExchangeStruct, Box<dyn SpdmDheKeyExchange>)> {
    let w = w();
    if !w.seam(Seam::DheGen) {
        return None;
    }
    let n = algo.get_size() as usize;
    if n == 0 || !algo.is_valid_one_select() {
        return None;
    }
    let node = w.cur;
    let x = w.rng[node & 1].next() >> 4 | 1;
    w.secret("private exponent", &x.to_le_bytes());
    let p = dhe_public(dh_pow(3, x), n);
    w.ev.push(Ev::DheGen { node, algo: algo.bits(), public: p.clone() });
    let mut e = SpdmDheExchangeStruct { data_size: n as u16, ..Default::default() };
    e.data[..n].copy_from_slice(&p);
    Some((e, Box::new(Dhe { algo, x })))
}
impl SpdmDheKeyExchange for Dhe {
    fn compute_final_key(self: Box<Self>, peer: &SpdmDheExchangeStruct) -> Option<SpdmDheFinalKeyStruct> {
        let w = w();
        let pass = w.seam(Seam::DheFinal);
        let n = self.algo.get_size() as usize;
        let v = if peer.as_ref().len() >= 8 { key8(peer.as_ref()) } else { 0 };
        let valid = peer.as_ref().len() == n && v > 1 && v < DH_P && dhe_public(v, n) == peer.as_ref();
        let secret = if pass && valid {
            Some(dhe_secret(dh_pow(v, self.x), n / 2))
        } else {
            None
        };
        let node = w.cur;
        w.ev.push(Ev::DheFinal {
            node,
            algo: self.algo.bits(),
            public: dhe_public(dh_pow(3, self.x), n),
            peer: peer.as_ref().to_vec(),
            secret: secret.clone(),
        });
        let s = secret?;
        w.secret("shared secret", &s);
        Some(SpdmDheFinalKeyStruct::from(s.as_slice()))
    }
}

// ---- AEAD -----------------------------------------------------------------------------------
fn ks(key: &[u8], iv: &[u8], n: usize) -> Vec<u8> {
    mix(D_STREAM, &[key, iv], n)
}
pub fn m_seal(key: &[u8], iv: &[u8], aad: &[u8], plain: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut c = ks(key, iv, plain.len());
    for (a, b) in c.iter_mut().zip(plain) {
        *a ^= *b;
    }
    let t = mix(D_TAG, &[key, iv, aad, &c], 16);
    (c, t)
}
pub fn m_open(key: &[u8], iv: &[u8], aad: &[u8], cipher: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    if mix(D_TAG, &[key, iv, aad, cipher], 16) != tag {
        return None;
    }
    let mut p = ks(key, iv, cipher.len());
    for (a, b) in p.iter_mut().zip(cipher) {
        *a ^= *b;
    }
    Some(p)
}
/// (application message?, message) of a decrypted record
pub fn unframe(cfg: &Cfg, plain: &[u8]) -> Option<(bool, Vec<u8>)> {
    if plain.len() < 2 {
        return None;
    }
    let l = u16::from_le_bytes([plain[0], plain[1]]) as usize;
    if plain.len() < 2 + l {
        return None;
    }
    let m = &plain[2..2 + l];
    if cfg.transport == 0 {
        match m.first()? {
            5 => Some((false, m[1..].to_vec())),
            1 => Some((true, m[1..].to_vec())),
            _ => None,
        }
    } else {
        Some((false, m.to_vec()))
    }
}
pub fn frame(cfg: &Cfg, app: bool, m: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    if cfg.transport == 0 {
        b.push(if app { 1 } else { 5 });
    }
    b.extend_from_slice(m);
    let mut v = (b.len() as u16).to_le_bytes().to_vec();
    v.extend(b);
    v
}

fn encrypt(algo: SpdmAeadAlgo, key: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, aad: &[u8], plain: &[u8], tag: &mut [u8], cipher: &mut [u8]) -> SpdmResult<(usize, usize)> {
    let w = w();
    let node = w.cur;
    let n = w.calls[node & 1][Seam::AeadEnc as usize];
    if !w.seam(Seam::AeadEnc) {
        let sid = if aad.len() >= 4 { u32::from_le_bytes([aad[0], aad[1], aad[2], aad[3]]) } else { 0 };
        w.ev.push(Ev::Touch { node, sid });
        return Err(err());
    }
    if key.as_ref().len() != algo.get_key_size() as usize
        || iv.as_ref().len() != algo.get_iv_size() as usize
        || algo.get_key_size() == 0
        || tag.len() != algo.get_tag_size() as usize
        || cipher.len() != plain.len()
    {
        w.probe("aead parameter sizes rejected");
        return Err(err());
    }
    // an authenticated peer that deviates: the plaintext is altered before it is protected
    let mut p = plain.to_vec();
    if !w.quiet {
        if let Some(fs) = w.evil_at.get(&(node, n)).cloned() {
            let hdr: usize = if w.cfg.transport == 0 { 3 } else { 2 };
            for f in fs {
                match f.k {
                    FaultK::Evil if f.p[1] == 0 => {
                        if f.p[3] == 1 && node == RSP {
                            w.forge = true;
                        }
                        // overwrite bytes of the message at an offset
                        for (i, x) in f.data.iter().enumerate() {
                            let o = hdr.wrapping_add(f.p[2] as usize).wrapping_add(i);
                            if o < p.len() {
                                p[o] = *x;
                            }
                        }
                    }
                    FaultK::Evil if f.p[1] == 2 => {
                        let o = hdr.min(p.len() - 1) + (f.p[2] as usize) % (p.len() - hdr.min(p.len() - 1)).max(1);
                        if o < p.len() {
                            p[o] ^= f.p[3] as u8;
                        }
                    }
                    FaultK::Evil => {
                        // replace the message, keeping the record's size (zero filled)
                        let room = p.len().saturating_sub(hdr);
                        for i in 0..room {
                            p[hdr + i] = f.data.get(i).copied().unwrap_or(0);
                        }
                        let used = f.data.len().min(room);
                        let l = (used + hdr - 2) as u16;
                        p[0..2].copy_from_slice(&l.to_le_bytes());
                    }
                    _ => {
                        // wrong inner length
                        if p.len() >= 2 {
                            let l = if f.p[2] == 1 { u16::from_le_bytes([p[0], p[1]]).wrapping_add(f.p[1] as u16) } else { f.p[1] as u16 };
                            p[0..2].copy_from_slice(&l.to_le_bytes());
                        }
                    }
                }
                w.fire(f.k);
            }
        }
    }
    let (c, t) = m_seal(key.as_ref(), iv.as_ref(), aad, &p);
    cipher.copy_from_slice(&c);
    tag.copy_from_slice(&t);
    w.ev.push(Ev::Enc { node, algo: algo.bits(), key: key.as_ref().to_vec(), iv: iv.as_ref().to_vec(), aad: aad.to_vec(), plain: p.clone() });
    let sid = if aad.len() >= 4 { u32::from_le_bytes([aad[0], aad[1], aad[2], aad[3]]) } else { 0 };
    // key/nonce reuse is judged as it happens
    let h = mix64(9, &[&p, aad]);
    let k = (key.as_ref().to_vec(), iv.as_ref().to_vec());
    if let Some(u) = w.aead_seen.get(&k) {
        if u.h != h || u.node != node {
            let d = format!("node {} session {:x} repeats a key and nonce first used by node {} in session {:x}", node, sid, u.node, u.sid);
            w.violate("C11", "two messages protected under one key and nonce", d);
        } else {
            w.violate("C11", "one message protected twice under one key and nonce", format!("node {} session {:x}", node, sid));
        }
    } else {
        w.aead_seen.insert(k, AeadUse { node, h, sid });
    }
    let (app, m) = unframe(&w.cfg, &p).unwrap_or((false, p[2.min(p.len())..].to_vec()));
    if node <= 1 {
        w.pending_tx[node] = Some((sid, app, m));
    }
    Ok((p.len(), algo.get_tag_size() as usize))
}
fn decrypt(algo: SpdmAeadAlgo, key: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, aad: &[u8], cipher: &[u8], tag: &[u8], plain: &mut [u8]) -> SpdmResult<usize> {
    let w = w();
    let node = w.cur;
    let pass = w.seam(Seam::AeadDec);
    let sizes = key.as_ref().len() == algo.get_key_size() as usize
        && algo.get_key_size() != 0
        && iv.as_ref().len() == algo.get_iv_size() as usize
        && plain.len() >= cipher.len();
    let out = if pass && sizes { m_open(key.as_ref(), iv.as_ref(), aad, cipher, tag) } else { None };
    w.ev.push(Ev::Dec {
        node,
        algo: algo.bits(),
        key: key.as_ref().to_vec(),
        iv: iv.as_ref().to_vec(),
        aad: aad.to_vec(),
        ok: out.is_some(),
        plain: out.clone().unwrap_or_default(),
    });
    match out {
        Some(p) => {
            plain[..p.len()].copy_from_slice(&p);
            let sid = if aad.len() >= 4 { u32::from_le_bytes([aad[0], aad[1], aad[2], aad[3]]) } else { 0 };
            let pkt = if node <= 1 { w.cur_rx[node].unwrap_or(usize::MAX) } else { usize::MAX };
            if let Some((app, m)) = unframe(&w.cfg, &p) {
                w.ev.push(Ev::Rx { node, pkt, sid: Some(sid), app, bytes: m });
            }
            Ok(p.len())
        }
        None => Err(SPDM_STATUS_DECODE_AEAD_FAIL),
    }
}

// ---- certificates ---------------------------------------------------------------------------
fn get_cert(chain: &[u8], index: isize) -> SpdmResult<(usize, usize)> {
    if !w().seam(Seam::CertGet) {
        return Err(SPDM_STATUS_INVALID_CERT);
    }
    cert_at(chain, index).ok_or(SPDM_STATUS_INVALID_CERT)
}
fn verify_chain(chain: &[u8]) -> SpdmResult {
    let w = w();
    let pass = w.seam(Seam::CertVerify);
    let ok = pass && chain_ok(chain);
    let node = w.cur;
    w.ev.push(Ev::CertVerify { node, ok, chain: chain.to_vec() });
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_INVALID_CERT)
    }
}

// ---- random, time ---------------------------------------------------------------------------
fn random(data: &mut [u8]) -> SpdmResult<usize> {
    let w = w();
    if !w.seam(Seam::Rand) {
        return Err(SPDM_STATUS_LOW_ENTROPY);
    }
    let node = w.cur & 1;
    w.rng[node].fill(data);
    w.ev.push(Ev::Rand { node, bytes: data.to_vec() });
    Ok(data.len())
}
fn sleep(us: usize) {
    let w = w();
    w.now = w.now.saturating_add(us as u64);
    w.sleep_total = w.sleep_total.saturating_add(us as u64);
}

// ---- device secrets -------------------------------------------------------------------------
pub fn meas_value(cfg: &Cfg, version: u64, index: u64, n: usize) -> Vec<u8> {
    mix(0x3ea5, &[&cfg.seed.to_le_bytes(), &version.to_le_bytes(), &index.to_le_bytes()], n)
}
/// A DMTF measurement block: odd indices carry a digest of the measurement hash in use, even ones
/// raw data.
pub fn meas_block(cfg: &Cfg, version: u64, index: u64, mhash: u32) -> Vec<u8> {
    let d = crate::wire::mhash_size(mhash);
    let (ty, n) = if index % 2 == 1 && d != 0 { ((index % 5) as u8, d) } else { (0x80 | (index % 8) as u8, cfg.meas_sz as usize) };
    let v = meas_value(cfg, version, index, n);
    let mut b = vec![index as u8, 1];
    b.extend_from_slice(&((v.len() + 3) as u16).to_le_bytes());
    b.push(ty);
    b.extend_from_slice(&(v.len() as u16).to_le_bytes());
    b.extend(v);
    b
}
fn meas(_v: SpdmVersion, spec: SpdmMeasurementSpecification, h: SpdmMeasurementHashAlgo, index: usize) -> Option<SpdmMeasurementRecordStructure> {
    let w = w();
    if !w.seam(Seam::MeasCollect) {
        return None;
    }
    if spec != SpdmMeasurementSpecification::DMTF {
        return None;
    }
    let n = w.cfg.meas_n;
    let (count, data) = match index {
        0 => (n as u8, vec![]),
        0xff => {
            let mut d = vec![];
            for i in 1..=n {
                d.extend(meas_block(&w.cfg, w.dev_version, i, h.bits()));
            }
            (n as u8, d)
        }
        i if i as u64 <= n => (1, meas_block(&w.cfg, w.dev_version, i as u64, h.bits())),
        _ => return None,
    };
    let node = w.cur;
    w.ev.push(Ev::Meas { node, index, count, data: data.clone() });
    let mut r = SpdmMeasurementRecordStructure { number_of_blocks: count, ..Default::default() };
    if data.len() > r.measurement_record_data.len() {
        return None;
    }
    r.measurement_record_length = codec::u24::new(data.len() as u32);
    r.measurement_record_data[..data.len()].copy_from_slice(&data);
    Some(r)
}
pub fn summary_value(cfg: &Cfg, version: u64, ty: u8, hash: u32, size: usize) -> Vec<u8> {
    m_hash(hash, size, &mix(0x5a, &[&cfg.seed.to_le_bytes(), &version.to_le_bytes(), &[ty]], 32))
}
fn meas_summary(_v: SpdmVersion, h: SpdmBaseHashAlgo, spec: SpdmMeasurementSpecification, _m: SpdmMeasurementHashAlgo, ty: SpdmMeasurementSummaryHashType) -> Option<SpdmDigestStruct> {
    let w = w();
    if !w.seam(Seam::MeasSummary) {
        return None;
    }
    if spec != SpdmMeasurementSpecification::DMTF || h.get_size() == 0 {
        return None;
    }
    let t = ty.get_u8();
    if t == 0 {
        return None;
    }
    let d = summary_value(&w.cfg, w.dev_version, t, h.bits(), h.get_size() as usize);
    let node = w.cur;
    w.ev.push(Ev::MeasSummary { node, ty: t, digest: d.clone() });
    Some(digest(d))
}

pub fn psk_of(cfg: &Cfg, node: usize, hint: &[u8]) -> Vec<u8> {
    let k = if node == REQ && cfg.psk_mismatch != 0 { 2u64 } else { 1 };
    mix(D_KEY ^ 0x900, &[&cfg.seed.to_le_bytes(), &k.to_le_bytes(), hint], 32)
}
pub fn label(ver: u8, len: usize, lab: &[u8], ctx: &[u8]) -> Vec<u8> {
    let mut v = (len as u16).to_le_bytes().to_vec();
    v.extend_from_slice(b"spdm");
    v.push(b'0' + (ver >> 4));
    v.push(b'.');
    v.push(b'0' + (ver & 15));
    v.push(b' ');
    v.extend_from_slice(lab);
    v.extend_from_slice(ctx);
    v
}
pub fn psk_roots(cfg: &Cfg, node: usize, ver: u8, hash: u32, size: usize, hint: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let psk = psk_of(cfg, node, hint);
    let zero = vec![0u8; size];
    let hs = m_extract(hash, size, &zero, &psk);
    let salt1 = m_expand(hash, &hs, &label(ver, size, b"derived", b""), size);
    let ms = m_extract(hash, size, &salt1, &zero);
    (hs, ms)
}
fn psk_expand(master: bool, v: SpdmVersion, h: SpdmBaseHashAlgo, hint: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    let w = w();
    if !w.seam(if master { Seam::PskMaster } else { Seam::PskHs }) || h.get_size() == 0 {
        return None;
    }
    let n = h.get_size() as usize;
    let psk = psk_of(&w.cfg, w.cur, hint.as_ref());
    w.secret("pre-shared key", &psk);
    let (hs, ms) = psk_roots(&w.cfg, w.cur, v.get_u8(), h.bits(), n, hint.as_ref());
    w.secret("PSK handshake secret", &hs);
    w.secret("PSK master secret", &ms);
    let out = m_expand(h.bits(), if master { &ms } else { &hs }, info, n);
    w.secret("PSK derived key", &out);
    Some(SpdmHkdfOutputKeyingMaterial::from(out.as_slice()))
}
fn psk_hs(v: SpdmVersion, h: SpdmBaseHashAlgo, hint: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    psk_expand(false, v, h, hint, info)
}
fn psk_ms(v: SpdmVersion, h: SpdmBaseHashAlgo, hint: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    psk_expand(true, v, h, hint, info)
}

// ---- handlers -------------------------------------------------------------------------------
/// What the application answers to a payload: a function of mode and payload.
pub fn app_reply(mode: u64, payload: &[u8]) -> Option<Vec<u8>> {
    let x: Vec<u8> = payload.iter().map(|b| b ^ 0x5a).collect();
    match mode {
        0 => Some(x),
        1 => Some(vec![0x33]),
        2 => None,
        3 => Some(vec![]),
        4 => Some(vec![0x12, 0x6c, 0, 0]),
        5 => Some(vec![0x12, 0x65, 0, 0]),
        6 => Some(vec![0x12, 0x67, 0, 0]),
        7 => Some(mix(0xa99, &[payload], (payload.len() * 3).min(3500))),
        _ => Some(mix(0xa98, &[payload], 4096)),
    }
}
pub fn app_handler(_ctx: &mut spdmlib::responder::ResponderContext, sid: u32, buf: &[u8], aux: &[u8]) -> SpdmResult<([u8; spdmlib::config::MAX_SPDM_MSG_SIZE], usize)> {
    let w = w();
    let pass = w.seam(Seam::App);
    let r = if pass { app_reply(w.cfg.app_mode, buf) } else { None };
    w.ev.push(Ev::AppCall { sid, payload: buf.to_vec(), reply: r.clone().unwrap_or_default(), ok: r.is_some(), aux: aux == crate::exec::APP_AUX });
    let r = r.ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
    let mut o = [0u8; spdmlib::config::MAX_SPDM_MSG_SIZE];
    let n = r.len().min(o.len());
    o[..n].copy_from_slice(&r[..n]);
    Ok((o, n))
}
pub fn vendor_reply(mode: u64, payload: &[u8]) -> Option<Vec<u8>> {
    let x: Vec<u8> = payload.iter().map(|b| b ^ 0xa5).collect();
    match mode {
        1 => Some(vec![0x44]),
        2 => None,
        3 => Some(vec![]),
        7 => Some(mix(0xb99, &[payload], (payload.len() * 3).min(3500))),
        8 => Some(mix(0xb98, &[payload], MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE)),
        _ => Some(x),
    }
}
fn vendor_handler(req: &VendorDefinedReqPayloadStruct) -> SpdmResult<VendorDefinedRspPayloadStruct> {
    let w = w();
    let pass = w.seam(Seam::Vendor);
    let n = (req.req_length as usize).min(req.vendor_defined_req_payload.len());
    let p = req.vendor_defined_req_payload[..n].to_vec();
    let r = if pass { vendor_reply(w.cfg.app_mode, &p) } else { None };
    w.ev.push(Ev::VendorCall { payload: p, reply: r.clone().unwrap_or_default(), ok: r.is_some() });
    let r = r.ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
    let mut o = VendorDefinedRspPayloadStruct {
        rsp_length: r.len() as u16,
        vendor_defined_rsp_payload: [0; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE],
    };
    o.vendor_defined_rsp_payload[..r.len()].copy_from_slice(&r);
    Ok(o)
}

pub fn register() {
    let ok = hash::register(SpdmHash {
        hash_all_cb: hash_all,
        #[cfg(feature = "hashed")]
        hash_ctx_init_cb: hctx::init,
        #[cfg(feature = "hashed")]
        hash_ctx_update_cb: hctx::update,
        #[cfg(feature = "hashed")]
        hash_ctx_finalize_cb: hctx::finalize,
        #[cfg(feature = "hashed")]
        hash_ctx_dup_cb: hctx::dup,
    }) & hmac::register(SpdmHmac { hmac_cb: self::hmac, hmac_verify_cb: hmac_verify })
        & asym_verify::register(SpdmAsymVerify { verify_cb: verify })
        & dhe::register(SpdmDhe { generate_key_pair_cb: gen_key_pair })
        & cert_operation::register(SpdmCertOperation { get_cert_from_cert_chain_cb: get_cert, verify_cert_chain_cb: verify_chain })
        & hkdf::register(SpdmHkdf { hkdf_extract_cb: hkdf_extract, hkdf_expand_cb: hkdf_expand })
        & aead::register(SpdmAead { encrypt_cb: encrypt, decrypt_cb: decrypt })
        & rand::register(SpdmCryptoRandom { get_random_cb: random })
        & measurement::register(SpdmSecretMeasurement { measurement_collection_cb: meas, generate_measurement_summary_hash_cb: meas_summary })
        & psk::register(SpdmSecretPsk { handshake_secret_hkdf_expand_cb: psk_hs, master_secret_hkdf_expand_cb: psk_ms })
        & asym_sign::register(SpdmSecretAsymSign { sign_cb: sign })
        & spdmlib::time::register(spdmlib::time::SpdmTime { sleep_cb: sleep })
        & register_vendor_defined_struct(VendorDefinedStruct { vendor_defined_request_handler: vendor_handler })
        & spdmlib::responder::app_message_handler::register(spdmlib::responder::app_message_handler::SpdmAppMessageHandler { dispatch_secured_app_message_cb: app_handler });
    assert!(ok, "a callback was already registered");
}
