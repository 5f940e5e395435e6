//! Reference model: what every contract's configuration and history should be, updated only from
//! transactions that committed, and small reference functions over it.
use crate::sim::Viol;
use crate::util::*;
use cosmwasm_std::Uint256;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

/// Number of validator keys in a world.
pub const NVAL: u32 = 48;

thread_local! {
    static ETH: Vec<[u8; 20]> = (0..NVAL).map(|i| eth_addr(vkey(i).verifying_key())).collect();
}
pub fn eth_of(v: u32) -> [u8; 20] {
    ETH.with(|e| e[v as usize])
}

pub fn gs<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
/// A number, whether encoded as JSON number or decimal string.
pub fn num(v: &Value) -> Option<u128> {
    match v {
        Value::String(s) => s.parse().ok(),
        Value::Number(n) => n.as_u64().map(|x| x as u128),
        _ => None,
    }
}
pub fn gu(v: &Value, k: &str) -> u128 {
    v.get(k).and_then(num).unwrap_or(0)
}
pub fn ghex(v: &Value, k: &str) -> Vec<u8> {
    unhx(gs(v, k)).unwrap_or_default()
}
pub fn garr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v.get(k).and_then(|x| x.as_array()).map(|x| x.as_slice()).unwrap_or(&[])
}
pub fn strs(v: &Value, k: &str) -> Vec<String> {
    garr(v, k).iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()
}

pub type Coins = BTreeMap<String, u128>;

pub fn coins_of(f: &[(u128, String)]) -> Coins {
    let mut m = Coins::new();
    for (a, d) in f {
        if *a > 0 {
            *m.entry(d.clone()).or_insert(0) += a;
        }
    }
    m
}
pub fn coins_json(v: &[Value]) -> Coins {
    let mut m = Coins::new();
    for f in v {
        let a = gu(f, "amount");
        if a > 0 {
            let e = m.entry(gs(f, "denom").to_string()).or_insert(0);
            *e = e.saturating_add(a);
        }
    }
    m
}
/// a - b, if covered
pub fn coins_sub(a: &Coins, b: &Coins) -> Option<Coins> {
    let mut o = a.clone();
    for (d, x) in b {
        let e = o.get_mut(d)?;
        *e = e.checked_sub(*x)?;
        if *e == 0 {
            o.remove(d);
        }
    }
    Some(o)
}
pub fn coins_add(a: &mut Coins, b: &Coins) -> Option<()> {
    for (d, x) in b {
        let e = a.entry(d.clone()).or_insert(0);
        *e = e.checked_add(*x)?;
    }
    Some(())
}

#[derive(Clone, Debug, Default)]
pub struct CM {
    pub code: &'static str,
    pub owner: Option<String>,
    pub pending: Option<String>,
    // mailbox
    pub hrp: String,
    pub domain: u32,
    pub nonce: u32,
    pub latest: Option<[u8; 32]>,
    pub dism: Option<String>,
    pub dhook: Option<String>,
    pub rhook: Option<String>,
    // shared
    pub mailbox: String,
    pub paused: bool,
    pub fee: (u128, String),
    pub hooks: Vec<String>,
    pub routes: BTreeMap<u32, Option<String>>,
    pub custom: BTreeMap<(u32, Vec<u8>), String>,
    pub fallback: Option<String>,
    // gas paymaster and oracle
    pub gas: BTreeMap<u32, u128>,
    pub default_gas: u128,
    pub gas_token: String,
    pub beneficiary: String,
    pub data: BTreeMap<u32, (u128, u128)>,
    // ISMs
    pub sets: BTreeMap<u32, (u128, Vec<[u8; 20]>)>,
    pub isms: Vec<String>,
    pub thr: u128,
    pub mods: BTreeMap<u32, String>,
    // merkle, announce
    pub tree: Tree,
    pub ann: BTreeMap<[u8; 20], Vec<String>>,
    // warp
    pub bridged: bool,
    pub token: String,
    pub whook: Option<String>,
    pub wism: Option<String>,
    pub wmb: Option<String>,
    /// mailbox named by connection.set_mailbox
    pub cmb: Option<String>,
    pub version: String,
    /// everyone who was owner or nominee before
    pub past: BTreeSet<String>,
    /// ownership moved at least once
    pub moved: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Link {
    pub members: Vec<(usize, String)>,
    /// the configuration once allowed deliveries the route does not vouch for
    pub taint: bool,
}

#[derive(Default)]
pub struct Model {
    pub cm: Vec<BTreeMap<String, CM>>,
    /// per chain: ids in the canonical merkle tree, with the root and index of their checkpoint
    pub leaves: Vec<BTreeMap<[u8; 32], ([u8; 32], u32)>>,
    /// what callers really asked to dispatch: id -> (chain, mailbox)
    pub ghost: BTreeMap<[u8; 32], (usize, String)>,
    /// per chain: ids in dispatch order over the canonical mailbox
    pub delivered: BTreeMap<(usize, String), BTreeMap<[u8; 32], u32>>,
    /// ids for which some attempt was ever observed (delivered or not), for the delivered query
    pub tried: BTreeMap<(usize, String), BTreeSet<[u8; 32]>>,
    pub down: BTreeSet<u32>,
    pub links: Vec<Link>,
    pub inflight: BTreeMap<[u8; 32], (usize, u128)>,
    pub donated: BTreeMap<(usize, String), u128>,
    pub viols: Vec<Viol>,
    pub evals: BTreeMap<&'static str, u64>,
    pub filter: Option<String>,
}

impl Model {
    pub fn new(n: usize) -> Model {
        Model { cm: vec![BTreeMap::new(); n], leaves: vec![BTreeMap::new(); n], ..Default::default() }
    }
    pub fn violate(&mut self, props: &[&str], text: String, step: usize) {
        for p in props {
            if let Some(f) = &self.filter {
                if f != p {
                    continue;
                }
            }
            if self.viols.len() < 40 {
                self.viols.push(Viol { prop: p.to_string(), text: text.clone(), step });
            }
        }
    }
    /// Counts one evaluation of a property's oracle.
    pub fn ev(&mut self, p: &'static str) {
        *self.evals.entry(p).or_insert(0) += 1;
    }
}

/// Multisig metadata as laid out on the wire.
pub struct MsMeta<'a> {
    pub tree: &'a [u8],
    pub root: &'a [u8],
    pub index: u32,
    pub sigs: Vec<&'a [u8]>,
}
pub fn ms_meta(b: &[u8]) -> Option<MsMeta<'_>> {
    if b.len() < 68 {
        return None;
    }
    Some(MsMeta {
        tree: &b[..32],
        root: &b[32..64],
        index: u32::from_be_bytes(b[64..68].try_into().unwrap()),
        sigs: b[68..].chunks_exact(65).collect(),
    })
}

/// Distinct enrolled signers over the right digest, and whether every signature was recoverable.
pub fn ms_count(meta: &[u8], msg: &Msg, set: &[[u8; 20]]) -> Option<(usize, bool)> {
    let m = ms_meta(meta)?;
    let d = checkpoint_digest(msg.origin, m.tree, m.root, m.index, &msg.id());
    let mut seen = BTreeSet::new();
    let mut clean = true;
    for s in m.sigs {
        match recover(&d, s) {
            Some(a) => {
                if set.contains(&a) {
                    seen.insert(a);
                }
            }
            None => clean = false,
        }
    }
    Some((seen.len(), clean))
}

/// floor(gas * price * rate / 10^10), None if it cannot be represented
pub fn gas_cost(gas: Uint256, price: u128, rate: u128) -> Option<Uint256> {
    let x = gas.checked_mul(Uint256::from(price)).ok()?;
    let x = x.checked_mul(Uint256::from(rate)).ok()?;
    x.checked_div(Uint256::from(10_000_000_000u128)).ok()
}

pub fn u256_u128(x: Uint256) -> Option<u128> {
    u128::from_str(&x.to_string()).ok()
}

/// The gas limit of dispatch metadata, when it carries one.
pub fn meta_gas(meta: &[u8]) -> Option<Uint256> {
    if meta.len() < 32 {
        return None;
    }
    Some(Uint256::from_be_bytes(meta[..32].try_into().unwrap()))
}

/// Offset table of aggregate metadata: the slice of each member in list order.
pub fn agg_slices(meta: &[u8], n: usize) -> Option<Vec<Vec<u8>>> {
    let mut o = vec![];
    for i in 0..n {
        let h = meta.get(i * 8..i * 8 + 8)?;
        let a = u32::from_be_bytes(h[..4].try_into().unwrap()) as usize;
        let b = u32::from_be_bytes(h[4..].try_into().unwrap()) as usize;
        if a > b {
            return None;
        }
        o.push(meta.get(a..b)?.to_vec());
    }
    Some(o)
}

/// Semantic-version precedence; None if not a version.
pub fn semver(s: &str) -> Option<(u64, u64, u64, Vec<(bool, u64, String)>)> {
    let s = s.split('+').next()?;
    let (core, pre) = match s.split_once('-') {
        Some((c, p)) => (c, Some(p)),
        None => (s, None),
    };
    let v: Vec<u64> = core.split('.').map(|x| x.parse().ok()).collect::<Option<Vec<_>>>()?;
    if v.len() != 3 {
        return None;
    }
    let mut p = vec![];
    if let Some(pre) = pre {
        for x in pre.split('.') {
            if x.is_empty() {
                return None;
            }
            match x.parse::<u64>() {
                Ok(n) => p.push((false, n, String::new())),
                Err(_) => p.push((true, 0, x.to_string())),
            }
        }
    }
    Some((v[0], v[1], v[2], p))
}
pub fn semver_lt(a: &str, b: &str) -> Option<bool> {
    let (a, b) = (semver(a)?, semver(b)?);
    let (x, y) = ((a.0, a.1, a.2), (b.0, b.1, b.2));
    if x != y {
        return Some(x < y);
    }
    Some(match (a.3.is_empty(), b.3.is_empty()) {
        (true, _) => false,
        (false, true) => true,
        _ => a.3 < b.3,
    })
}

/// Every coin, number and list compared structurally; numbers and decimal strings are the same thing.
pub fn same(exp: &Value, got: &Value) -> bool {
    if exp == "*" {
        return true;
    }
    match (exp, got) {
        (Value::Object(a), Value::Object(b)) => a.iter().all(|(k, v)| match b.get(k) {
            Some(w) => same(v, w),
            None => v.is_null(),
        }),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (Value::Number(_) | Value::String(_), Value::Number(_) | Value::String(_)) => {
            let f = |v: &Value| match v {
                Value::String(s) => s.clone(),
                x => x.to_string(),
            };
            f(exp) == f(got)
        }
        _ => exp == got,
    }
}
