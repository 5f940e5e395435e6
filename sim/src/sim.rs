//! The simulated world: chains, names, dispatched messages; executes one step of a schedule.
use crate::chain::*;
use crate::expect::*;
use crate::model::*;
use crate::rng::*;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ChainCfg {
    pub hrp: String,
    pub domain: u32,
}

/// Everything besides the steps that determines an execution.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Cfg {
    pub chains: Vec<ChainCfg>,
    /// validator keys under the attacker's control
    pub corrupt: BTreeSet<u32>,
}

fn is_false(b: &bool) -> bool {
    !*b
}
fn zero(x: &u32) -> bool {
    *x == 0
}
fn zus(x: &usize) -> bool {
    *x == 0
}

/// One event of a schedule. Strings in `msg` are symbolic (`@name`, `#name`, ...), see `resolve`.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Step {
    pub k: String,
    #[serde(default, skip_serializing_if = "zus")]
    pub c: usize,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub from: String,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub to: String,
    #[serde(default, skip_serializing_if = "Value::is_null")]
    pub msg: Value,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub funds: Vec<(String, String)>,
    /// dispatch arguments whose current quote is added to the funds
    #[serde(default, skip_serializing_if = "Value::is_null")]
    pub q: Value,
    /// gas limit in permille of what the step would use
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub oog: Option<u32>,
    #[serde(default, skip_serializing_if = "zero")]
    pub tag: u32,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub note: String,
    #[serde(default, skip_serializing_if = "is_false")]
    pub flag: bool,
}

#[derive(Clone, Debug)]
pub struct Disp {
    pub c: usize,
    pub mb: String,
    pub bytes: Vec<u8>,
    pub id: [u8; 32],
    pub msg: Msg,
    pub tag: u32,
    pub i: u32,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: String,
    pub text: String,
    pub step: usize,
}

pub struct Sim {
    pub cfg: Cfg,
    pub chains: Vec<Chain>,
    pub alias: Vec<BTreeMap<String, String>>,
    pub insts: Vec<BTreeMap<String, String>>,
    pub disp: Vec<Disp>,
    pub disp_by: BTreeMap<(u32, u32), usize>,
    pub m: Model,
    pub log: u64,
    pub shape: u64,
    pub trees: BTreeSet<u64>,
    pub outcomes: Vec<u64>,
    pub stats: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub n: usize,
    pub skipped: usize,
    pub last: Option<Node>,
    pub verbose: bool,
    pub sigs: HashMap<(u32, [u8; 32]), Vec<u8>>,
    pub simtime: u64,
    pub no_oracle: bool,
    /// shape of the latest step
    pub sig: u64,
    /// shapes of the steps on which the watched property's oracle ran
    pub distinct: std::collections::HashSet<u64>,
}

pub fn raw_account(name: &str) -> Option<Vec<u8>> {
    if let Some(h) = name.strip_prefix("raw:") {
        return unhx(h);
    }
    let b = name.as_bytes();
    if b.len() > 2 && b[1] == b':' {
        let h = sha256(&[b"acct", b]);
        return match b[0] {
            b'u' => Some(h[..20].to_vec()),
            b'w' => Some(h.to_vec()),
            b'z' => {
                let mut v = h[..20].to_vec();
                v[..4].copy_from_slice(&[0; 4]);
                Some(v)
            }
            _ => None,
        };
    }
    None
}

pub fn raw_contract(hrp: &str, c: usize, name: &str) -> Vec<u8> {
    let h = sha256(&[b"contract", &(c as u32).to_be_bytes(), name.as_bytes()]);
    h[..contract_len(hrp, &h)].to_vec()
}

pub fn u256_be(s: &str) -> Option<[u8; 32]> {
    s.parse::<cosmwasm_std::Uint256>().ok().map(|x| x.to_be_bytes())
}

fn hash_node(n: &Node, h: &mut u64, deep: bool) {
    let mut b = format!("{:?}|{}|{}|{}|{}", n.op, n.code, n.key(), n.ok, n.oog);
    if deep {
        b.push_str(&format!("|{}|{}|{:?}|{:?}|{}|{:?}", n.from, n.to, n.funds, n.events, n.err, n.data));
        b.push_str(&n.msg.to_string());
    }
    let k = keccak(b.as_bytes());
    *h = mix(&[*h, u64::from_be_bytes(k[..8].try_into().unwrap())]);
    for k in &n.kids {
        *h = mix(&[*h, 1]);
        hash_node(k, h, deep);
        *h = mix(&[*h, 2]);
    }
}

impl Sim {
    pub fn new(cfg: &Cfg) -> Sim {
        let chains: Vec<Chain> = cfg.chains.iter().enumerate().map(|(i, c)| Chain::new(&c.hrp, i)).collect();
        let n = chains.len();
        Sim {
            cfg: cfg.clone(),
            chains,
            alias: vec![BTreeMap::new(); n],
            insts: vec![BTreeMap::new(); n],
            disp: vec![],
            disp_by: BTreeMap::new(),
            m: Model::new(n),
            log: 0,
            shape: 0,
            trees: BTreeSet::new(),
            outcomes: vec![],
            stats: BTreeMap::new(),
            faults: BTreeMap::new(),
            n: 0,
            skipped: 0,
            last: None,
            verbose: false,
            sigs: HashMap::new(),
            simtime: 0,
            no_oracle: false,
            sig: 0,
            distinct: Default::default(),
        }
    }

    pub fn stat(&mut self, k: &str) {
        if let Some(v) = self.stats.get_mut(k) {
            *v += 1;
        } else {
            self.stats.insert(k.to_string(), 1);
        }
    }
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.to_string()).or_insert(0) += 1;
    }

    /// Raw account bytes of a symbolic name on a chain.
    pub fn raw(&self, c: usize, name: &str) -> Vec<u8> {
        if let Some(r) = raw_account(name) {
            return r;
        }
        if let Some(a) = self.alias[c].get(name) {
            if let Some((_, r)) = bech_dec(a) {
                return r;
            }
        }
        raw_contract(&self.chains[c].hrp, c, name)
    }

    pub fn addr(&self, c: usize, name: &str) -> String {
        let (c, name) = self.split(c, name);
        bech_enc(&self.chains[c].hrp, &self.raw(c, name))
    }

    fn split<'a>(&self, c: usize, name: &'a str) -> (usize, &'a str) {
        if let Some((p, r)) = name.split_once('/') {
            if let Ok(i) = p.parse::<usize>() {
                if i < self.chains.len() {
                    return (i, r);
                }
            }
        }
        (c, name)
    }

    pub fn denom(&self, c: usize, d: &str) -> String {
        // "f:contract:sub" is a token-factory denom of that contract
        if let Some(r) = d.strip_prefix("f:") {
            if let Some((n, s)) = r.split_once(':') {
                return format!("factory/{}/{}", self.addr(c, n), s);
            }
        }
        d.to_string()
    }

    pub fn resolve(&mut self, c: usize, v: &Value) -> Option<Value> {
        Some(match v {
            Value::String(s) => {
                let mut ch = s.chars();
                match ch.next() {
                    Some('@') => Value::String(self.addr(c, &s[1..])),
                    Some('#') => {
                        let (cc, n) = self.split(c, &s[1..]);
                        Value::String(hx(&pad32(&self.raw(cc, n))))
                    }
                    Some('!') => {
                        let i: u32 = s[1..].parse().ok()?;
                        Value::String(hx(&eth_addr(vkey(i).verifying_key())))
                    }
                    Some('%') => {
                        let (cc, n) = self.split(c, &s[1..]);
                        Value::String(hx(&self.raw(cc, n)))
                    }
                    Some('$') => json!(code_id(s.strip_prefix("$code:")?)),
                    Some('~') => Value::String(self.denom(c, &s[1..])),
                    _ => v.clone(),
                }
            }
            Value::Array(a) => {
                let mut o = vec![];
                for x in a {
                    o.push(self.resolve(c, x)?);
                }
                Value::Array(o)
            }
            Value::Object(m) => {
                if m.len() == 1 {
                    let (k, x) = m.iter().next().unwrap();
                    if k.starts_with('$') {
                        return self.special(c, k, x);
                    }
                }
                let mut o = serde_json::Map::new();
                for (k, x) in m {
                    o.insert(k.clone(), self.resolve(c, x)?);
                }
                Value::Object(o)
            }
            _ => v.clone(),
        })
    }

    fn hexval(&mut self, c: usize, v: &Value) -> Option<Vec<u8>> {
        unhx(self.resolve(c, v)?.as_str()?)
    }

    fn special(&mut self, c: usize, k: &str, x: &Value) -> Option<Value> {
        match k {
            "$msg" | "$id" => {
                let t = x["t"].as_u64()? as u32;
                let i = x["i"].as_u64().unwrap_or(0) as u32;
                let d = *self.disp_by.get(&(t, i))?;
                let mut b = self.disp[d].bytes.clone();
                if let Some(ms) = x.get("mut").and_then(|m| m.as_array()) {
                    for m in ms {
                        mutate(&mut b, gs(m, "f"), gu(m, "v") as u64);
                    }
                }
                Some(Value::String(if k == "$msg" { hx(&b) } else { hx(&keccak(&b)) }))
            }
            "$mk" => {
                let sender: [u8; 32] = self.hexval(c, &x["sender"])?.try_into().ok()?;
                let recipient: [u8; 32] = self.hexval(c, &x["recipient"])?.try_into().ok()?;
                let body = self.hexval(c, &x["body"])?;
                let m = Msg {
                    version: gu(x, "version") as u8,
                    nonce: gu(x, "nonce") as u32,
                    origin: gu(x, "origin") as u32,
                    sender,
                    dest: gu(x, "dest") as u32,
                    recipient,
                    body,
                };
                Some(Value::String(hx(&m.enc())))
            }
            "$hash" => Some(Value::String(hx(&keccak(&self.hexval(c, x)?)))),
            "$cat" => {
                let mut o = vec![];
                for p in x.as_array()? {
                    o.extend(self.hexval(c, p)?);
                }
                Some(Value::String(hx(&o)))
            }
            "$u256" => Some(Value::String(hx(&u256_be(x.as_str()?)?))),
            "$denom" => Some(Value::String(self.denom(c, x.as_str()?))),
            "$ann" => {
                // announcement signature: validator v over (domain, mailbox, location)
                let v = gu(x, "v") as u32;
                let dom = match x.get("dom") {
                    Some(d) => d.as_u64()? as u32,
                    None => self.cfg.chains[c].domain,
                };
                let mb = self.hexval(c, &x["mb"])?;
                let d = announce_digest(dom, &pad32(&mb), gs(x, "loc"));
                let mut s = sign(v, &d);
                match gs(x, "mut") {
                    "neg" => ecdsa_neg_s(&mut s),
                    "flip" => {
                        let i = gu(x, "at") as usize % 64;
                        s[i] ^= 1 + (gu(x, "at") >> 8) as u8 % 255;
                    }
                    "v" => {
                        s[64] = match gu(x, "at") % 8 {
                            0..=2 => s[64] ^ 7,
                            3 | 4 => s[64] + 2,
                            5 => s[64] - 27,
                            6 => s[64] + 4,
                            _ => (gu(x, "at") >> 8) as u8,
                        }
                    }
                    "short" => s.truncate(64),
                    "long" => s.push(1),
                    _ => {}
                }
                Some(Value::String(hx(&s)))
            }
            "$meta" => {
                let msg = self.hexval(c, &x["m"])?;
                let ism = match x.get("ism") {
                    Some(i) => self.resolve(c, i)?.as_str()?.to_string(),
                    None => {
                        let mb = self.addr(c, if gs(x, "mb").is_empty() { "mb" } else { gs(x, "mb") });
                        let m = Msg::dec(&msg)?;
                        let r = wire_to_addr(&self.chains[c].hrp, &m.recipient)?;
                        self.recipient_ism(c, &mb, &r)?
                    }
                };
                let mut rng = Rng::new(gu(x, "s") as u64);
                let mode = gs(x, "mode").to_string();
                let probe = x.get("probe").is_some();
                let mut b = self.build_meta(c, &ism, &msg, &mode, probe, &mut rng, 0);
                if let Some(e) = x.get("flip").and_then(|e| e.as_u64()) {
                    if !b.is_empty() {
                        let i = (e >> 3) as usize % b.len();
                        b[i] ^= 1 << (e & 7);
                    }
                }
                Some(Value::String(hx(&b)))
            }
            _ => None,
        }
    }

    /// The ISM that answers for a recipient, from the model.
    pub fn recipient_ism(&self, c: usize, mb: &str, r: &str) -> Option<String> {
        match self.specifier(c, r) {
            Some(i) => Some(i),
            None => self.m.cm[c].get(mb)?.dism.clone(),
        }
    }

    /// What a recipient answers when asked for its ISM.
    pub fn specifier(&self, c: usize, r: &str) -> Option<String> {
        match self.chains[c].code_of(r) {
            "puppet" => {
                let cfg: Value = serde_json::from_slice(&self.chains[c].peek(r, b"cfg")?).ok()?;
                cfg.get("ism")?.as_str().map(|s| s.to_string()).filter(|s| s != "err")
            }
            "wnative" | "wcw20" => self.m.cm[c].get(r)?.wism.clone(),
            _ => None,
        }
    }

    pub fn signature(&mut self, v: u32, d: &[u8; 32]) -> Vec<u8> {
        self.sigs.entry((v, *d)).or_insert_with(|| sign(v, d)).clone()
    }

    /// Which chain a domain names.
    pub fn chain_of(&self, domain: u32) -> Option<usize> {
        self.cfg.chains.iter().position(|c| c.domain == domain)
    }

    pub fn build_meta(&mut self, c: usize, ism: &str, msg: &[u8], mode: &str, probe: bool, rng: &mut Rng, depth: u32) -> Vec<u8> {
        if depth > 5 || mode == "empty" {
            return vec![];
        }
        match self.chains[c].code_of(ism) {
            "msism" => self.multisig_meta(c, ism, msg, mode, probe, rng),
            "rism" => {
                let m = match Msg::dec(msg) {
                    Some(m) => m,
                    None => return vec![],
                };
                match self.m.cm[c].get(ism).and_then(|k| k.mods.get(&m.origin).cloned()) {
                    Some(t) => self.build_meta(c, &t, msg, mode, probe, rng, depth + 1),
                    None => vec![],
                }
            }
            "aism" => {
                let isms = self.m.cm[c].get(ism).map(|k| k.isms.clone()).unwrap_or_default();
                let mut parts = vec![];
                for i in &isms {
                    let md = if mode == "mixed" { *rng.pick(&["honest", "short", "empty", "all"]) } else { mode };
                    parts.push(self.build_meta(c, i, msg, md, probe, rng, depth + 1));
                }
                // nothing asks the slices to be packed: sometimes there is room between them, rarely a lot
                let gap = match rng.below(100) {
                    0 if depth == 0 => 65_500 + rng.us(80),
                    1..=8 => 1 + rng.us(40),
                    _ => 0,
                };
                let mut pos = isms.len() * 8 + gap;
                let mut head = vec![];
                let mut tail = vec![0u8; gap];
                let odd = mode == "oddranges" || (mode == "mixed" && rng.p(200));
                for p in parts {
                    let (mut a, mut b) = (pos as u32, (pos + p.len()) as u32);
                    if odd {
                        match rng.below(6) {
                            0 => (a, b) = (0, 0),
                            1 => b = b.wrapping_add(rng.below(4) as u32),
                            2 => a = a.wrapping_sub(rng.below(5) as u32),
                            3 => (a, b) = (b, a),
                            4 => (a, b) = (rng.below(90) as u32, rng.below(90) as u32),
                            _ => {}
                        }
                    }
                    head.extend_from_slice(&a.to_be_bytes());
                    head.extend_from_slice(&b.to_be_bytes());
                    pos += p.len();
                    tail.extend(p);
                }
                head.extend(tail);
                if mode == "trunc" && !head.is_empty() {
                    let k = rng.us(head.len());
                    head.truncate(k);
                }
                head
            }
            "puppet" => match mode {
                "mixed" | "oddranges" => vec![rng.u64() as u8],
                "short" | "foreign" | "corrupt" | "stale" | "junk" | "trunc" => vec![rng.u64() as u8 & 0xfe],
                _ => vec![rng.u64() as u8 | 1],
            },
            _ => {
                let n = *rng.pick(&[0usize, 0, 0, 3, 3, 32, 69, 133, 300, 700]);
                rng.bytes(n)
            }
        }
    }

    fn multisig_meta(&mut self, c: usize, ism: &str, msg: &[u8], mode: &str, probe: bool, rng: &mut Rng) -> Vec<u8> {
        let m = match Msg::dec(msg) {
            Some(m) => m,
            None => return rng.bytes(68 + 65),
        };
        let id = m.id();
        let (thr, set) = self.m.cm[c].get(ism).and_then(|k| k.sets.get(&m.origin).cloned()).unwrap_or((1, vec![]));
        let origin = self.chain_of(m.origin);
        // a checkpoint some honest validator would sign, if the message is in the origin's tree
        let leaf = origin.and_then(|o| self.m.leaves[o].get(&id).cloned());
        let (mut tree, root, index, genuine) = match (&leaf, origin) {
            (Some((root, i)), Some(o)) => (pad32(&self.raw(o, "merkle")), *root, *i, true),
            _ => {
                let mut t = [0u8; 32];
                t.copy_from_slice(&rng.bytes(32));
                let mut r = [0u8; 32];
                r.copy_from_slice(&rng.bytes(32));
                (t, r, rng.u64() as u32, false)
            }
        };
        if !genuine && rng.p(700) {
            if let Some(o) = origin {
                tree = pad32(&self.raw(o, "merkle"));
            }
        }
        let dig = checkpoint_digest(m.origin, &tree, &root, index, &id);
        // keys of the enrolled set that are willing to sign
        let mut willing: Vec<u32> = vec![];
        for v in 0..NVAL {
            let a = eth_of(v);
            if set.contains(&a) {
                let corrupt = self.cfg.corrupt.contains(&v);
                if probe || corrupt || (genuine && !self.m.down.contains(&v)) {
                    willing.push(v);
                }
            }
        }
        rng.shuffle(&mut willing);
        let outsiders: Vec<u32> = (0..NVAL).filter(|v| !set.contains(&eth_of(*v))).collect();
        let mut sigs: Vec<Vec<u8>> = vec![];
        let thr = thr as usize;
        match mode {
            "all" => {
                for v in &willing {
                    sigs.push(self.signature(*v, &dig));
                }
            }
            "mix" => {
                let k = if rng.p(700) { thr } else { willing.len() };
                for v in willing.iter().take(k) {
                    let s = self.signature(*v, &dig);
                    sigs.push(s.clone());
                    if rng.p(400) {
                        let mut t = s.clone();
                        if rng.p(500) {
                            ecdsa_neg_s(&mut t);
                        }
                        sigs.push(t);
                    }
                }
                for v in outsiders.iter().take(3) {
                    if rng.p(500) {
                        sigs.push(self.signature(*v, &dig));
                    }
                }
                rng.shuffle(&mut sigs);
            }
            "short" => {
                let k = thr.saturating_sub(1 + rng.us(2)).max(if thr > 1 { 1 } else { 0 });
                let mut base = vec![];
                for v in willing.iter().take(k) {
                    base.push(self.signature(*v, &dig));
                }
                sigs = base.clone();
                while sigs.len() < thr + 2 && !base.is_empty() {
                    let mut t = rng.pick(&base).clone();
                    if rng.p(400) {
                        ecdsa_neg_s(&mut t);
                    }
                    sigs.push(t);
                }
                for v in outsiders.iter().take(4) {
                    if rng.p(400) {
                        sigs.push(self.signature(*v, &dig));
                    }
                }
                rng.shuffle(&mut sigs);
            }
            "foreign" => {
                for v in outsiders.iter().take(thr + 1) {
                    sigs.push(self.signature(*v, &dig));
                }
            }
            "stale" => {
                // signatures over a neighbouring digest
                let other = match rng.below(7) {
                    0 => checkpoint_digest(m.origin, &tree, &root, index.wrapping_add(1), &id),
                    1 => checkpoint_digest(m.origin.wrapping_add(1), &tree, &root, index, &id),
                    2 => checkpoint_digest(m.origin, &pad32(&[9; 20]), &root, index, &id),
                    3 => checkpoint_digest(m.origin, &tree, &[7; 32], index, &id),
                    4 => checkpoint_digest(m.origin, &tree, &root, index, &[5; 32]),
                    5 => checkpoint_digest(m.dest, &tree, &root, index, &id),
                    _ => keccak(&dig),
                };
                for v in willing.iter() {
                    sigs.push(self.signature(*v, &other));
                }
            }
            "junk" => {
                let n = rng.below(4);
                for _ in 0..n {
                    let mut s = rng.bytes(65);
                    if rng.p(700) {
                        s[64] = 27 + (s[64] & 1);
                    }
                    sigs.push(s);
                }
                for v in willing.iter().take(thr) {
                    if rng.p(500) {
                        sigs.push(self.signature(*v, &dig));
                    }
                }
                rng.shuffle(&mut sigs);
            }
            _ => {
                for v in willing.iter().take(thr) {
                    sigs.push(self.signature(*v, &dig));
                }
                if mode == "mixed" {
                    while rng.p(300) && !sigs.is_empty() {
                        sigs.pop();
                    }
                }
            }
        }
        let mut o = tree.to_vec();
        o.extend_from_slice(&root);
        o.extend_from_slice(&index.to_be_bytes());
        for s in sigs {
            o.extend(s);
        }
        if mode == "trunc" {
            let cut = match rng.below(3) {
                0 => rng.us(68),
                1 => o.len().saturating_sub(1 + rng.us(64)),
                _ => 68,
            };
            o.truncate(cut);
        } else if rng.p(60) {
            let k = 1 + rng.us(64);
            o.extend(rng.bytes(k));
        }
        o
    }

    /// Executes one step; false if it could not be built (a reference is missing).
    pub fn exec(&mut self, s: &Step) -> bool {
        self.n += 1;
        self.last = None;
        if s.c >= self.chains.len() {
            self.skipped += 1;
            return false;
        }
        let watched = self.m.filter.clone().unwrap_or_default();
        let e0 = self.m.evals.get(watched.as_str()).copied().unwrap_or(0);
        self.sig = hash_bytes(format!("{}|{}", s.k, s.to).as_bytes());
        let r = self.exec_in(s);
        if self.m.evals.get(watched.as_str()).copied().unwrap_or(0) != e0 {
            self.distinct.insert(self.sig);
        }
        if !r {
            self.skipped += 1;
        }
        for ch in &self.chains {
            ch.seal();
        }
        r
    }

    pub fn violate(&mut self, props: &[&str], text: String) {
        if self.no_oracle {
            return;
        }
        let n = self.n;
        self.m.violate(props, text, n);
    }

    fn note_outcome(&mut self, n: &Node) {
        let mut h = self.log;
        hash_node(n, &mut h, true);
        self.log = h;
        let mut t = 0;
        hash_node(n, &mut t, false);
        self.trees.insert(t);
        self.sig = t;
        self.shape = mix(&[self.shape, t]);
    }

    fn exec_in(&mut self, s: &Step) -> bool {
        let c = s.c;
        match s.k.as_str() {
            "tx" => {
                let msg = match self.resolve(c, &s.msg) {
                    Some(m) => m,
                    None => return false,
                };
                let from = self.addr(c, &s.from);
                let to = self.addr(c, &s.to);
                let mut funds: BTreeMap<String, u128> = BTreeMap::new();
                for (a, d) in &s.funds {
                    if let Ok(a) = a.parse::<u128>() {
                        let d = self.denom(c, d);
                        let e = funds.entry(d).or_insert(0);
                        *e = e.saturating_add(a);
                    }
                }
                let mut quoted = None;
                if !s.q.is_null() {
                    let q = match self.resolve(c, &s.q) {
                        Some(q) => q,
                        None => return false,
                    };
                    let mb = gs(&q, "mb").to_string();
                    let mut dm = q.clone();
                    let sender = gs(&q, "sender").to_string();
                    if let Some(o) = dm.as_object_mut() {
                        o.remove("mb");
                        o.remove("sender");
                    }
                    let qm = json!({"hook": {"quote_dispatch": {"sender": sender, "msg": dm}}});
                    let rec = self.chains[c].query_rec(&mb, &qm);
                    self.observe_query(c, &rec);
                    if let Some(v) = rec.val() {
                        let mut qf = vec![];
                        for f in v["fees"].as_array().cloned().unwrap_or_default() {
                            let (a, d) = (gu(&f, "amount"), gs(&f, "denom").to_string());
                            if a > 0 {
                                qf.push((a, d.clone()));
                            }
                            let e = funds.entry(d).or_insert(0);
                            *e = e.saturating_add(a);
                        }
                        quoted = Some(qf);
                    }
                }
                let funds: Vec<(u128, String)> = funds.into_iter().map(|(d, a)| (a, d)).filter(|x| x.0 > 0).collect();
                let mut gas = None;
                if let Some(p) = s.oog {
                    let ch = &self.chains[c];
                    let (_, used) = ch.dry(|| ch.tx(&from, &to, &msg, &funds, None));
                    let g = (used as u128 * p as u128 / 1000) as u64;
                    if g < used {
                        self.fault("gas-exhaustion");
                    }
                    gas = Some(g);
                }
                let pre = self.predict(c, &from, &to, &msg, &funds, quoted.as_ref(), s.q.is_null() || !s.funds.is_empty());
                let node = self.chains[c].tx(&from, &to, &msg, &funds, gas);
                self.after(c, s, node, Some(pre), gas.is_some());
                true
            }
            "inst" => {
                let msg = match self.resolve(c, &s.msg) {
                    Some(m) => m,
                    None => return false,
                };
                let from = self.addr(c, &s.from);
                let (code, name) = match s.to.split_once(' ') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => return false,
                };
                let raw = raw_contract(&self.chains[c].hrp, c, &name);
                let addr = bech_enc(&self.chains[c].hrp, &raw);
                let pre = self.predict_inst(c, &code, &msg);
                let node = self.chains[c].tx_inst(&from, &raw, &code, &msg, None);
                if node.ok {
                    self.insts[c].insert(addr.clone(), name.clone());
                    let mut kids = vec![];
                    node.walk(&mut |k| {
                        if k.op == Op::Inst && k.to != addr {
                            kids.push(k.to.clone());
                        }
                    });
                    for (i, k) in kids.into_iter().enumerate() {
                        self.alias[c].insert(format!("{name}.{i}"), k);
                    }
                }
                self.after(c, s, node, Some(pre), false);
                true
            }
            "q" => {
                let msg = match self.resolve(c, &s.msg) {
                    Some(m) => m,
                    None => return false,
                };
                let to = self.addr(c, &s.to);
                let rec = self.chains[c].query_rec(&to, &msg);
                self.log = mix(&[self.log, hash_bytes(format!("{:?}", rec.res).as_bytes())]);
                self.stat(&format!("q:{}", rec_key(&rec.msg)));
                let n = rec.res.as_ref().map(|b| b.len()).unwrap_or(0);
                self.sig = hash_bytes(format!("{}|{}|{}|{n}", rec_key(&rec.msg), s.to, rec.res.is_ok()).as_bytes());
                if self.verbose {
                    println!("#{} c{} {} query {} {} -> {}", self.n, c, s.note, self.name(c, &to), rec.msg, show_res(&rec.res));
                }
                self.observe_query(c, &rec);
                self.probe_query(c, &rec);
                true
            }
            "mig" => {
                self.migrate(s);
                true
            }
            "adv" => {
                for ch in 0..self.chains.len() {
                    if s.flag || ch == c {
                        let b = gu(&s.msg, "blocks") as u64;
                        let t = gu(&s.msg, "secs") as u64;
                        self.chains[ch].height.set(self.chains[ch].height.get().saturating_add(b).min(1 << 62));
                        self.chains[ch].time.set(self.chains[ch].time.get().saturating_add(t).min(9_000_000_000));
                    }
                }
                self.simtime += (gu(&s.msg, "secs") as u64).min(86_400);
                true
            }
            "send" => {
                let (from, to) = (self.addr(c, &s.from), self.addr(c, &s.to));
                for (a, d) in &s.funds {
                    let d = self.denom(c, d);
                    let n = self.chains[c].tx_send(&from, &to, a.parse().unwrap_or(0), &d);
                    self.after(c, s, n, None, false);
                }
                true
            }
            "mint" => {
                let to = self.addr(c, &s.to);
                for (a, d) in &s.funds {
                    let d = self.denom(c, d);
                    self.chains[c].mint(&to, &d, a.parse().unwrap_or(0));
                }
                true
            }
            // a mailbox with a long history: the next nonce is large
            "nonce" => {
                let mb = self.addr(c, &s.to);
                let v = gu(&s.msg, "nonce") as u32;
                let old = self.chains[c].peek(&mb, b"nonce");
                self.chains[c].poke(&mb, b"nonce", Some(v.to_string().as_bytes()));
                let q = self.chains[c].query(&mb, &json!({"mailbox": {"nonce": {}}}));
                if q.ok().map(|x| gu(&x, "nonce") as u32) == Some(v) {
                    if let Some(k) = self.m.cm[c].get_mut(&mb) {
                        k.nonce = v;
                    }
                } else {
                    // a different layout: leave the mailbox alone
                    self.chains[c].poke(&mb, b"nonce", old.as_deref());
                }
                true
            }
            // a merkle hook with a long history: many leaves are in its tree already
            "tree" => {
                let a = self.addr(c, &s.to);
                self.deepen(c, &a, gu(&s.msg, "count") as u64, gu(&s.msg, "seed") as u64);
                true
            }
            "down" => {
                let v = gu(&s.msg, "v") as u32;
                if s.flag {
                    self.m.down.insert(v);
                    self.fault("validator-down");
                } else {
                    self.m.down.remove(&v);
                }
                true
            }
            "fault" => {
                self.fault(&s.note.clone());
                true
            }
            "sweep" => {
                self.sweep(s);
                true
            }
            "audit" => {
                self.audit_all();
                true
            }
            "walk" => {
                let a = self.addr(c, &s.to);
                self.walk_listings(c, &a, (gu(&s.msg, "limit") as usize).clamp(1, 30));
                true
            }
            "link" => {
                let m = s.msg.clone();
                self.add_link(&m);
                true
            }
            _ => false,
        }
    }

    /// Gives an empty merkle hook a past, if its storage is laid out as expected.
    fn deepen(&mut self, c: usize, a: &str, count: u64, seed: u64) {
        let empty = self.m.cm[c].get(a).map(|k| k.code == "merkle" && k.tree.count() == 0).unwrap_or(false);
        let old = match self.chains[c].peek(a, b"message_tree") {
            Some(o) if empty && count <= MAX_LEAVES => o,
            _ => return,
        };
        let mut v: Value = match serde_json::from_slice(&old) {
            Ok(v) => v,
            Err(_) => return,
        };
        let mut roots = [[0u8; 32]; 32];
        for (l, r) in roots.iter_mut().enumerate() {
            *r = keccak(&[seed.to_be_bytes(), (l as u64).to_be_bytes()].concat());
        }
        let text = v.get("count").map(|x| x.is_string()).unwrap_or(true);
        v["count"] = if text { json!(count.to_string()) } else { json!(count) };
        let b: Vec<Value> = (0..32).map(|l| if (count >> l) & 1 == 1 { json!(hx(&roots[l])) } else { v["branch"][l].clone() }).collect();
        v["branch"] = json!(b);
        self.chains[c].poke(a, b"message_tree", Some(v.to_string().as_bytes()));
        let q = self.chains[c].query(a, &json!({"merkle_hook": {"tree": {}}}));
        let good = q
            .ok()
            .map(|q| gu(&q, "count") == count as u128 && (0..32).all(|l| (count >> l) & 1 == 0 || q["branch"][l].as_str() == Some(&hx(&roots[l]))))
            .unwrap_or(false);
        if !good {
            self.chains[c].poke(a, b"message_tree", Some(&old));
            return;
        }
        if let Some(k) = self.m.cm[c].get_mut(a) {
            k.tree = Tree::deep(count, &roots);
        }
        self.check_battery(c, a);
    }

    pub fn after(&mut self, c: usize, s: &Step, node: Node, pre: Option<Expect>, limited: bool) {
        self.note_outcome(&node);
        let key = format!("{}:{}:{}", node.code, if node.op == Op::Inst { "instantiate" } else { node.key() }, if node.ok { "ok" } else if node.oog { "oog" } else { "err" });
        self.stat(&key);
        if self.verbose {
            let mut o = String::new();
            node.render(1, &mut o);
            println!("#{} c{} {}\n{}", self.n, c, s.note, self.pretty(c, &o));
        }
        let mut oc = 0;
        hash_node(&node, &mut oc, true);
        self.outcomes.push(oc);
        // register what was dispatched
        if node.ok {
            let mut i = 0;
            let mut found = vec![];
            node.walk(&mut |n| {
                if n.op == Op::Exec && n.code == "mailbox" && n.key() == "dispatch" {
                    found.push(n);
                }
            });
            for n in found {
                let mut bytes = None;
                for (t, at) in &n.events {
                    if t.ends_with("mailbox_dispatch") {
                        bytes = at.iter().find(|a| a.0 == "message").and_then(|a| unhx(&a.1));
                    }
                }
                if let Some(b) = bytes {
                    if let Some(m) = Msg::dec(&b) {
                        let d = Disp { c, mb: n.to.clone(), id: keccak(&b), bytes: b, msg: m, tag: s.tag, i };
                        if s.tag != 0 {
                            self.disp_by.insert((s.tag, i), self.disp.len());
                        }
                        self.disp.push(d);
                    }
                }
                i += 1;
            }
        }
        self.observe(c, &node, pre, limited);
        self.last = Some(node);
    }

    pub fn name(&self, c: usize, a: &str) -> String {
        self.insts[c].get(a).cloned().unwrap_or_else(|| a.to_string())
    }

    /// Replaces known addresses by their names, for traces.
    pub fn pretty(&self, c: usize, s: &str) -> String {
        let mut o = s.to_string();
        for (a, n) in &self.insts[c] {
            if o.contains(a.as_str()) {
                o = o.replace(a.as_str(), n);
            }
        }
        o
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    u64::from_be_bytes(keccak(b)[..8].try_into().unwrap())
}

pub fn show_res(r: &Result<Vec<u8>, String>) -> String {
    match r {
        Ok(b) => String::from_utf8_lossy(b).chars().take(300).collect(),
        Err(e) => format!("ERR {}", e.chars().take(200).collect::<String>()),
    }
}

pub fn rec_key(m: &Value) -> String {
    match m.as_object().and_then(|o| o.iter().next()) {
        Some((k, v)) => match v.as_object().and_then(|o| o.keys().next()) {
            Some(k2) => format!("{k}.{k2}"),
            None => k.clone(),
        },
        None => String::new(),
    }
}

pub fn mutate(b: &mut Vec<u8>, f: &str, v: u64) {
    let flip = |b: &mut Vec<u8>, lo: usize, n: usize, v: u64| {
        if n > 0 && b.len() >= lo + n {
            let i = lo + (v >> 8) as usize % n;
            b[i] ^= ((v as u8) | 0).max(1);
        }
    };
    match f {
        "ver" => flip(b, 0, 1, v),
        "ver1" if !b.is_empty() => b[0] ^= 1 << (v % 8),
        "nonce" => flip(b, 1, 4, v),
        "origin" => flip(b, 5, 4, v),
        "sender" => flip(b, 9, 32, v),
        "dest" => flip(b, 41, 4, v),
        "rcpt" => flip(b, 45, 32, v),
        "body" => {
            let n = b.len().saturating_sub(77);
            flip(b, 77, n, v)
        }
        "push" => b.push(v as u8),
        "pop" => {
            b.pop();
        }
        "cut" => {
            let k = v as usize % (b.len() + 1);
            b.truncate(k)
        }
        "any" => {
            let n = b.len();
            flip(b, 0, n, v)
        }
        "push0" => b.extend(std::iter::repeat(0).take(1 + (v as usize >> 8) % 3)),
        "pop0" => {
            // only padding is lost
            while b.len() > 77 && b.last() == Some(&0) {
                b.pop();
            }
        }
        "spad" => flip(b, 9, 12, v),
        "rpad" => flip(b, 45, 12, v),
        "body0" if b.len() > 77 => b.insert(77, 0),
        // sender and recipient exchanged
        "swap" if b.len() >= 77 => {
            for i in 0..32 {
                b.swap(9 + i, 45 + i);
            }
        }
        // overwrite the origin domain / destination / nonce
        "seto" if b.len() >= 77 => b[5..9].copy_from_slice(&(v as u32).to_be_bytes()),
        "setd" if b.len() >= 77 => b[41..45].copy_from_slice(&(v as u32).to_be_bytes()),
        "setn" if b.len() >= 77 => b[1..5].copy_from_slice(&(v as u32).to_be_bytes()),
        _ => {}
    }
}
