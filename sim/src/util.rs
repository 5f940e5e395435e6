//! Independent reference implementations of the wire formats and hashes (nothing from /repo is used here).
use bech32::{FromBase32, ToBase32, Variant};
use k256::ecdsa::{RecoveryId, Signature, SigningKey, VerifyingKey};
use sha3::{Digest, Keccak256};

pub fn keccak(b: &[u8]) -> [u8; 32] {
    let mut h = Keccak256::new();
    h.update(b);
    h.finalize().into()
}

pub fn sha256(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = sha2::Sha256::new();
    for p in parts {
        sha2::Digest::update(&mut h, (p.len() as u32).to_be_bytes());
        sha2::Digest::update(&mut h, p);
    }
    sha2::Digest::finalize(h).into()
}

pub fn bech_enc(hrp: &str, raw: &[u8]) -> String {
    bech32::encode(hrp, raw.to_base32(), Variant::Bech32).expect("bech32")
}

pub fn bech_dec(s: &str) -> Option<(String, Vec<u8>)> {
    let (hrp, d, v) = bech32::decode(s).ok()?;
    if v != Variant::Bech32 {
        return None;
    }
    Some((hrp, Vec::<u8>::from_base32(&d).ok()?))
}

/// 20- or 32-byte account to its 32-byte wire form.
pub fn pad32(raw: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    if raw.len() <= 32 {
        o[32 - raw.len()..].copy_from_slice(raw);
    }
    o
}

/// 32-byte wire form to an address on a chain (12 leading zero bytes mean a 20-byte account).
pub fn wire_to_addr(hrp: &str, b: &[u8]) -> Option<String> {
    match b.len() {
        20 => Some(bech_enc(hrp, b)),
        32 if b[..12].iter().all(|x| *x == 0) => Some(bech_enc(hrp, &b[12..])),
        32 => Some(bech_enc(hrp, b)),
        _ => None,
    }
}

pub fn addr_to_wire(addr: &str) -> Option<[u8; 32]> {
    let (_, raw) = bech_dec(addr)?;
    if raw.len() > 32 {
        return None;
    }
    Some(pad32(&raw))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Msg {
    pub version: u8,
    pub nonce: u32,
    pub origin: u32,
    pub sender: [u8; 32],
    pub dest: u32,
    pub recipient: [u8; 32],
    pub body: Vec<u8>,
}

impl Msg {
    pub fn enc(&self) -> Vec<u8> {
        let mut o = Vec::with_capacity(77 + self.body.len());
        o.push(self.version);
        o.extend_from_slice(&self.nonce.to_be_bytes());
        o.extend_from_slice(&self.origin.to_be_bytes());
        o.extend_from_slice(&self.sender);
        o.extend_from_slice(&self.dest.to_be_bytes());
        o.extend_from_slice(&self.recipient);
        o.extend_from_slice(&self.body);
        o
    }
    pub fn dec(b: &[u8]) -> Option<Msg> {
        if b.len() < 77 {
            return None;
        }
        Some(Msg {
            version: b[0],
            nonce: u32::from_be_bytes(b[1..5].try_into().unwrap()),
            origin: u32::from_be_bytes(b[5..9].try_into().unwrap()),
            sender: b[9..41].try_into().unwrap(),
            dest: u32::from_be_bytes(b[41..45].try_into().unwrap()),
            recipient: b[45..77].try_into().unwrap(),
            body: b[77..].to_vec(),
        })
    }
    pub fn id(&self) -> [u8; 32] {
        keccak(&self.enc())
    }
}

pub fn eth_hash(b: &[u8]) -> [u8; 32] {
    let mut v = b"\x19Ethereum Signed Message:\n".to_vec();
    v.extend_from_slice(b.len().to_string().as_bytes());
    v.extend_from_slice(b);
    keccak(&v)
}

/// What a validator signs for a checkpoint.
pub fn checkpoint_digest(origin: u32, tree: &[u8], root: &[u8], index: u32, id: &[u8]) -> [u8; 32] {
    let mut d = origin.to_be_bytes().to_vec();
    d.extend_from_slice(tree);
    d.extend_from_slice(b"HYPERLANE");
    let dh = keccak(&d);
    let mut m = dh.to_vec();
    m.extend_from_slice(root);
    m.extend_from_slice(&index.to_be_bytes());
    m.extend_from_slice(id);
    eth_hash(&keccak(&m))
}

/// What a validator signs to announce a storage location.
pub fn announce_digest(domain: u32, mailbox32: &[u8], location: &str) -> [u8; 32] {
    let mut d = domain.to_be_bytes().to_vec();
    d.extend_from_slice(mailbox32);
    d.extend_from_slice(b"HYPERLANE_ANNOUNCEMENT");
    let dh = keccak(&d);
    let mut m = dh.to_vec();
    m.extend_from_slice(location.as_bytes());
    eth_hash(&keccak(&m))
}

/// Keys 7 and 8 are chosen to share the first (last) two address bytes with 1 (2), key 9 the outer bytes with 0.
pub fn vkey(i: u32) -> SigningKey {
    let i = match i {
        7 => 215927,
        8 => 31239,
        9 => 76614,
        i => i,
    };
    SigningKey::from_bytes((&sha256(&[b"validator", &i.to_be_bytes()])).into()).expect("key")
}

pub fn eth_addr(vk: &VerifyingKey) -> [u8; 20] {
    let p = vk.to_encoded_point(false);
    let h = keccak(&p.as_bytes()[1..]);
    h[12..].try_into().unwrap()
}

/// 65-byte r||s||v signature (v = 27/28) by validator key i.
pub fn sign(i: u32, digest: &[u8; 32]) -> Vec<u8> {
    let (s, r) = vkey(i).sign_prehash_recoverable(digest).expect("sign");
    let mut o = s.to_bytes().to_vec();
    o.push(27 + r.to_byte());
    o
}

/// Independent recovery; None if the 65 bytes are not a well-formed recoverable signature.
pub fn recover(digest: &[u8; 32], sig: &[u8]) -> Option<[u8; 20]> {
    if sig.len() != 65 {
        return None;
    }
    let r = RecoveryId::from_byte(sig[64].checked_sub(27)?)?;
    if r.to_byte() > 1 {
        return None;
    }
    let s = Signature::from_slice(&sig[..64]).ok()?;
    // high-s twins are signatures of the same signer
    let (s, r) = match s.normalize_s() {
        Some(n) => (n, RecoveryId::from_byte(r.to_byte() ^ 1)?),
        None => (s, r),
    };
    let vk = VerifyingKey::recover_from_prehash(digest, &s, r).ok()?;
    Some(eth_addr(&vk))
}

pub fn ecdsa_neg_s(sig: &mut [u8]) {
    // the malleated twin of a signature: s -> n - s, v flipped; recovers to the same signer
    if let Ok(s) = Signature::from_slice(&sig[..64]) {
        let (r, sc) = s.split_scalars();
        let n = -*sc;
        if let Ok(t) = Signature::from_scalars(r.to_bytes(), n.to_bytes()) {
            sig[..64].copy_from_slice(&t.to_bytes());
            sig[64] = if sig[64] == 27 { 28 } else { 27 };
        }
    }
}

pub fn hx(b: &[u8]) -> String {
    hex::encode(b)
}
pub fn unhx(s: &str) -> Option<Vec<u8>> {
    hex::decode(s).ok()
}

/// Incremental keccak merkle tree of depth 32, kept level by level (unlike the contract's branch array).
#[derive(Clone, Debug, Default)]
pub struct Tree {
    /// leaves that were there before the simulation watched
    base: u64,
    levels: Vec<Vec<[u8; 32]>>,
}

/// No tree of depth 32 takes more.
pub const MAX_LEAVES: u64 = u32::MAX as u64;

fn h2(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut v = [0u8; 64];
    v[..32].copy_from_slice(a);
    v[32..].copy_from_slice(b);
    keccak(&v)
}

thread_local! {
    static ZERO: Vec<[u8; 32]> = {
        let mut z = vec![[0u8; 32]];
        for i in 0..32 { let n = h2(&z[i], &z[i]); z.push(n); }
        z
    };
}
pub fn zero_hash(l: usize) -> [u8; 32] {
    ZERO.with(|z| z[l])
}

impl Tree {
    pub fn new() -> Self {
        Tree { base: 0, levels: vec![vec![]; 33] }
    }
    /// A tree that already has `base` leaves, known only by the roots of its complete subtrees.
    pub fn deep(base: u64, roots: &[[u8; 32]; 32]) -> Self {
        let mut t = Tree { base, levels: vec![vec![]; 33] };
        let mut part: Option<[u8; 32]> = None;
        for l in 0..32 {
            let odd = (base >> l) & 1 == 1;
            if odd {
                t.levels[l].push(roots[l]);
            }
            if let Some(p) = part {
                t.levels[l].push(p);
            }
            part = match (odd, part) {
                (true, p) => Some(h2(&roots[l], &p.unwrap_or_else(|| zero_hash(l)))),
                (false, Some(p)) => Some(h2(&p, &zero_hash(l))),
                (false, None) => None,
            };
        }
        if let Some(p) = part {
            t.levels[32].push(p);
        }
        t
    }
    /// position in the level where its stored part begins
    fn off(&self, l: usize) -> u64 {
        (self.base >> l) & !1
    }
    pub fn count(&self) -> u64 {
        self.off(0) + self.levels[0].len() as u64
    }
    pub fn node(&self, l: usize, i: u64) -> Option<[u8; 32]> {
        self.levels[l].get(i.checked_sub(self.off(l))? as usize).copied()
    }
    pub fn push(&mut self, leaf: [u8; 32]) {
        let mut i = self.count();
        self.levels[0].push(leaf);
        for l in 0..32 {
            let pair = i & !1;
            let a = self.node(l, pair).unwrap();
            let b = self.node(l, pair + 1).unwrap_or_else(|| zero_hash(l));
            let n = h2(&a, &b);
            i >>= 1;
            let at = (i - self.off(l + 1)) as usize;
            let lv = &mut self.levels[l + 1];
            if lv.len() == at {
                lv.push(n)
            } else {
                lv[at] = n
            }
        }
    }
    pub fn root(&self) -> [u8; 32] {
        self.levels[32].first().copied().unwrap_or_else(|| zero_hash(32))
    }
}
