//! The seeded scheduler: an event heap in simulated time whose events are actions of users, owners,
//! attackers, validators, relayers and the environment. Every choice comes from one generator; every action
//! becomes an explicit step, so the recorded steps replay without any randomness.
use crate::model::*;
use crate::rng::*;
use crate::sim::*;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::{BinaryHeap, BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Act {
    Dispatch,
    Redeliver,
    Forge,
    Config,
    Intrude,
    Own,
    Hook,
    Pay,
    Warp,
    WarpForge,
    Announce,
    Verify,
    Quote,
    List,
    Upgrade,
    Recipient,
    Validators,
    Batch,
    Clock,
    Send,
    Claim,
}
use Act::*;
const ACTS: &[Act] = &[
    Dispatch, Redeliver, Forge, Config, Intrude, Own, Hook, Pay, Warp, WarpForge, Announce, Verify, Quote, List, Upgrade, Recipient,
    Validators, Batch, Clock, Send, Claim,
];

#[derive(Clone, Debug)]
pub struct Prof {
    w: BTreeMap<Act, u32>,
    /// contract codes whose configuration this profile likes to change
    cfg: Vec<&'static str>,
    /// permille of runs whose default ISM rests on the multisig
    secure: u32,
    links: u32,
    steps: (u32, u32),
    oog: u32,
    sweep: bool,
    ndom: u32,
    deep_tree: u32,
    mover: u32,
}

const ALLCFG: &[&str] = &[
    "mailbox", "msism", "aism", "rism", "pism", "fee", "phook", "ahook", "rhook", "rchook", "rfhook", "igp", "oracle", "wnative", "wcw20",
];

pub fn profile(p: &str) -> Prof {
    let base: &[(Act, u32)] = &[
        (Dispatch, 20), (Redeliver, 8), (Forge, 6), (Config, 6), (Intrude, 3), (Own, 2), (Hook, 4), (Pay, 3), (Warp, 5), (WarpForge, 2),
        (Announce, 2), (Verify, 4), (Quote, 3), (List, 2), (Upgrade, 1), (Recipient, 5), (Validators, 2), (Batch, 4), (Clock, 1), (Send, 1),
        (Claim, 1),
    ];
    let mut o = Prof {
        w: base.iter().cloned().collect(),
        cfg: ALLCFG.to_vec(),
        secure: 600,
        links: 300,
        steps: (30, 90),
        oog: 60,
        sweep: false,
        ndom: 6,
        deep_tree: 70,
        mover: 100,
    };
    let mut put = |l: &[(Act, u32)], only: bool| {
        if only {
            for v in o.w.values_mut() {
                *v = 0;
            }
        }
        for (a, x) in l {
            o.w.insert(*a, *x);
        }
    };
    match p {
        "C01" => {
            put(&[(Dispatch, 22), (Redeliver, 25), (Batch, 12), (Recipient, 10), (Forge, 6), (Clock, 4), (Warp, 3)], false);
            o.oog = 140;
        }
        "C02" => {
            put(&[(Dispatch, 18), (Verify, 40), (Config, 12), (Forge, 10), (Intrude, 3), (Own, 3), (List, 3)], true);
            o.cfg = vec!["msism"];
            o.secure = 800;
        }
        "C03" => {
            put(&[(Dispatch, 20), (Forge, 35), (Redeliver, 6), (Validators, 5), (Batch, 4)], false);
            o.cfg = vec!["msism", "rism", "aism", "mailbox"];
            o.secure = 1000;
        }
        "C04" => {
            put(&[(Dispatch, 20), (Forge, 22), (Redeliver, 10), (Recipient, 14), (Config, 12), (Verify, 4)], false);
            o.cfg = vec!["mailbox", "pism", "rism", "aism", "msism", "wnative", "wcw20"];
            o.secure = 400;
        }
        "C05" => {
            put(&[(Dispatch, 40), (Batch, 14), (Hook, 3), (Recipient, 6), (Warp, 6)], false);
            o.oog = 120;
        }
        "C06" => {
            put(&[(Dispatch, 40), (Hook, 25), (Batch, 12), (Quote, 2), (Warp, 2), (Config, 3)], true);
            o.oog = 100;
            o.steps = (40, 130);
            o.deep_tree = 450;
        }
        "C07" => {
            put(&[(Dispatch, 45), (Config, 14), (Batch, 10), (Quote, 5), (Recipient, 5), (Warp, 3)], true);
            o.cfg = vec!["mailbox", "fee", "ahook", "rhook", "igp", "oracle", "phook", "rfhook", "rchook"];
        }
        "C08" => {
            put(&[(Dispatch, 50), (Config, 18), (Quote, 10), (Warp, 5), (Hook, 3)], true);
            o.cfg = vec!["mailbox", "fee", "ahook", "rhook", "rchook", "rfhook", "igp", "oracle", "phook"];
        }
        "C09" => {
            put(&[(Dispatch, 20), (Pay, 35), (Hook, 12), (Claim, 8), (Config, 10), (Send, 3), (Intrude, 3), (Quote, 3), (Warp, 3)], true);
            o.cfg = vec!["igp", "oracle"];
        }
        "C10" => {
            put(&[(Dispatch, 15), (Pay, 15), (Quote, 25), (Config, 35), (List, 6), (Intrude, 4), (Hook, 6)], true);
            o.cfg = vec!["igp", "oracle"];
            o.ndom = 12;
        }
        "C11" => {
            put(&[(Dispatch, 6), (Warp, 45), (Redeliver, 12), (Forge, 8), (WarpForge, 6), (Send, 4), (Config, 5), (Batch, 5), (Recipient, 3), (Intrude, 3)], true);
            o.cfg = vec!["wnative", "wcw20", "mailbox", "fee"];
            o.links = 1000;
            o.secure = 850;
            o.oog = 100;
        }
        "C12" => {
            put(&[(Dispatch, 12), (Warp, 35), (WarpForge, 20), (Redeliver, 8), (Forge, 6), (Config, 14), (Intrude, 4), (Batch, 5)], true);
            o.cfg = vec!["wnative", "wcw20", "wnative", "wcw20", "mailbox"];
            o.links = 1000;
        }
        "C13" => {
            put(&[(Own, 60), (Config, 14), (Intrude, 10), (Upgrade, 2), (Batch, 3), (Dispatch, 3), (Claim, 2)], true);
        }
        "C14" => {
            put(&[(Config, 50), (Intrude, 30), (Own, 8), (Dispatch, 8), (List, 4), (Redeliver, 3), (Batch, 3)], true);
        }
        "C15" => {
            put(&[(Dispatch, 25), (Redeliver, 25), (Config, 25), (Intrude, 8), (Hook, 8), (Verify, 6), (Own, 2)], true);
            o.cfg = vec!["pism", "phook", "pism", "phook", "mailbox"];
            o.secure = 200;
        }
        "C16" => {
            put(&[(Dispatch, 14), (Verify, 35), (Config, 25), (Redeliver, 8), (Forge, 6), (Intrude, 4), (Own, 3)], true);
            o.cfg = vec!["rism", "rism", "msism"];
            o.secure = 600;
        }
        "C17" => {
            put(&[(Dispatch, 12), (Verify, 50), (Config, 22), (Forge, 5), (Intrude, 3), (Redeliver, 4)], true);
            o.cfg = vec!["aism", "aism", "pism", "msism"];
        }
        "C18" => {
            put(&[(Dispatch, 30), (Hook, 14), (Config, 25), (Quote, 18), (Intrude, 3), (Batch, 4)], true);
            o.cfg = vec!["rhook", "rchook", "rfhook", "rchook"];
            o.ndom = 10;
        }
        "C19" => {
            put(&[(Dispatch, 35), (Hook, 14), (Config, 20), (Quote, 18), (Batch, 4), (Recipient, 3)], true);
            o.cfg = vec!["ahook", "ahook", "fee", "igp"];
        }
        "C20" => {
            put(&[(Dispatch, 20), (Hook, 35), (Claim, 12), (Config, 16), (Quote, 8), (Intrude, 5), (Send, 5)], true);
            o.cfg = vec!["fee"];
        }
        "C21" => {
            put(&[(Config, 45), (List, 40), (Quote, 4), (Dispatch, 4), (Intrude, 2)], true);
            o.cfg = vec!["rhook", "rchook", "rfhook", "igp", "wnative", "wcw20", "rchook", "igp"];
            o.ndom = 48;
            o.links = 500;
            o.steps = (60, 140);
        }
        "C22" => {
            put(&[(Announce, 80), (List, 4), (Batch, 4), (Dispatch, 3), (Clock, 2)], true);
            o.oog = 100;
            o.mover = 550;
            o.steps = (40, 160);
        }
        "C23" => {
            put(&[(Upgrade, 25), (Announce, 8)], false);
        }
        "C26" => {
            put(&[(Dispatch, 25), (Redeliver, 12), (Batch, 10), (Pay, 12), (Hook, 10), (Warp, 14), (WarpForge, 3), (Announce, 12), (Claim, 3), (Recipient, 6)], false);
            o.links = 600;
        }
        "C24" => {
            put(&[(Dispatch, 22), (Redeliver, 12), (Forge, 8), (Recipient, 10), (Validators, 5), (Warp, 10), (Batch, 6), (Config, 6)], false);
            o.cfg = vec!["pism", "phook", "msism", "fee", "igp", "rism"];
            o.sweep = true;
            o.links = 500;
            o.secure = 800;
            o.oog = 150;
        }
        _ => {}
    }
    o
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    /// some actor acts
    Actor(u32),
    /// a relayer submits a dispatched message (epoch guards against crashed relayers)
    Deliver(usize, u32, u32),
    Crash(u32),
    Restart(u32),
    Cut(usize),
    Heal(usize),
}

pub struct Gen {
    pub rng: Rng,
    pub sim: Sim,
    pub steps: Vec<Step>,
    pub setup: usize,
    prof: Prof,
    heap: BinaryHeap<std::cmp::Reverse<(u64, u64, Ev)>>,
    seq: u64,
    now: u64,
    clock: u64,
    tag: u32,
    seen: usize,
    epoch: Vec<u32>,
    cursor: Vec<usize>,
    alive: Vec<bool>,
    judge: bool,
    cut: Vec<bool>,
    drop: u32,
    dup: u32,
    slow: u32,
    domains: Vec<u32>,
    bodies: Vec<String>,
    links: Vec<Vec<(usize, String)>>,
    /// warp routes whose mailbox is an account the scheduler plays
    solo: Vec<(usize, String)>,
    calm: bool,
    limit: usize,
    pub events: u64,
    big: bool,
    /// one chain's registry gets announcements of many validators, or many of one
    herd: u32,
}

const USERS: &[&str] = &["u:alice", "u:bob", "u:carol", "w:dave", "z:erin", "u:attacker"];
/// Accounts with a role of their own, which now and then act as ordinary users.
const ROLES: &[&str] = &["u:own", "u:nom", "u:ben"];
const RELAYERS: &[&str] = &["u:relay0", "u:relay1"];
const HOOKN: &[&str] = &["merkle", "fee0", "fee1", "phook", "igp", "hp0", "hp1", "ahook0", "rhook", "rfhook", "rchook", "ahook1"];
const ISMN: &[&str] = &["msism", "ms2", "pism", "pi0", "pi1", "ideal", "aism0", "rism", "aism1"];
const DENOMS: &[&str] = &["ugas", "ufee", "ucol", "uother", "ibc/0F3C"];

fn tx(c: usize, from: &str, to: &str, msg: Value) -> Step {
    Step { k: "tx".into(), c, from: from.into(), to: to.into(), msg, ..Default::default() }
}

/// A domain easily mistaken for the given one.
fn rel_dom(rng: &mut Rng, x: u32) -> u32 {
    match rng.below(9) {
        0 => x.wrapping_add(1 << 16),
        1 => x & 0xffff,
        2 => x & 0xff,
        3 => x.swap_bytes(),
        4 => x ^ 1 << 31,
        5 => x.wrapping_add(256),
        6 => x | (rng.u64() as u32) << 16,
        7 => x ^ 1 << rng.below(32),
        _ => x.wrapping_add(1),
    }
}

impl Gen {
    pub fn new(seed: u64, prop: &str, filter: Option<&str>, deep: bool) -> Gen {
        let mut rng = Rng::new(seed);
        let nc = 2 + rng.p(350) as usize;
        let mut hrps = vec!["osmo", "neutron", "inj", "sei", "dual"];
        rng.shuffle(&mut hrps);
        let mut doms = vec![1u32, 26657, 0x6f736d6f, u32::MAX, 256, 255, 0, 65536, 11155111];
        rng.shuffle(&mut doms);
        let chains: Vec<ChainCfg> = (0..nc).map(|i| ChainCfg { hrp: hrps[i].into(), domain: doms[i] }).collect();
        let mut domains: Vec<u32> = chains.iter().map(|c| c.domain).collect();
        let prof = profile(prop);
        let edge = [0u32, 1, 2, 9, 10, 11, 127, 128, 255, 256, 257, 65535, 65536, 1 << 24, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX];
        // now and then a registry of several full pages
        let ndom = if prof.ndom > 20 && rng.p(120) { 3 * prof.ndom } else { prof.ndom };
        while (domains.len() as u32) < ndom + nc as u32 {
            let d = match rng.below(10) {
                0..=5 => *rng.pick(&edge),
                // close relatives of the domains in use
                6 | 7 => {
                    let x = *rng.pick(&domains);
                    rel_dom(&mut rng, x)
                }
                _ => rng.u64() as u32,
            };
            if !domains.contains(&d) {
                domains.push(d);
            } else {
                domains.push(rng.u64() as u32);
            }
        }
        // a third of the runs keep every key honest; otherwise some are the attacker's
        let mut corrupt = BTreeSet::new();
        if rng.p(650) {
            for v in 0..NVAL {
                if rng.p(300) {
                    corrupt.insert(v);
                }
            }
        }
        let cfg = Cfg { chains, corrupt };
        let mut sim = Sim::new(&cfg);
        sim.m.filter = filter.map(|f| f.to_string());
        let bodies: Vec<String> = (0..3)
            .map(|i| {
                let n = [0, 1, 32, 64, 100][rng.us(5)];
                if i == 0 { String::new() } else { hx(&rng.bytes(n)) }
            })
            .collect();
        let faulty = !rng.p(200);
        let (drop, dup, slow) = if faulty { (rng.below(350) as u32, rng.below(400) as u32, rng.below(1000) as u32) } else { (0, 0, 100) };
        let mut prof = prof;
        // swarm: switch some activities off, change how much of the others there is
        let first = *prof.w.iter().max_by_key(|x| x.1).unwrap().0;
        for (a, w) in prof.w.iter_mut() {
            if *a != first && *a != Dispatch {
                match rng.below(5) {
                    0 => *w = 0,
                    1 => *w = *w * 3,
                    _ => {}
                }
            }
        }
        if rng.p(250) {
            prof.oog = 0;
        }
        let mut limit = rng.range(prof.steps.0 as u64, prof.steps.1 as u64) as usize;
        if deep && rng.p(250) {
            limit *= 4;
        }
        let big = rng.p(if deep { 60 } else { 25 });
        let herd = if rng.p(prof.mover / 4) { 1 + rng.below(2) as u32 } else { 0 };
        Gen {
            rng,
            sim,
            steps: vec![],
            setup: 0,
            prof,
            heap: BinaryHeap::new(),
            seq: 0,
            now: 0,
            clock: 0,
            tag: 0,
            seen: 0,
            epoch: vec![0; RELAYERS.len()],
            cursor: vec![0; RELAYERS.len()],
            alive: vec![true; RELAYERS.len()],
            judge: false,
            cut: vec![false; nc],
            drop,
            dup,
            slow,
            domains,
            bodies,
            links: vec![],
            solo: vec![],
            calm: !faulty,
            limit,
            events: 0,
            big,
            herd,
        }
    }

    fn nc(&self) -> usize {
        self.sim.chains.len()
    }
    fn chain(&mut self) -> usize {
        self.rng.us(self.nc())
    }
    fn dom(&self, c: usize) -> u32 {
        self.sim.cfg.chains[c].domain
    }
    fn has(&self, c: usize, n: &str) -> bool {
        self.sim.m.cm[c].contains_key(&self.sim.addr(c, n)) || self.sim.chains[c].code_of(&self.sim.addr(c, n)) == "puppet"
    }
    fn code(&self, c: usize, n: &str) -> &'static str {
        self.sim.chains[c].code_of(&self.sim.addr(c, n))
    }
    pub fn failed(&self) -> bool {
        !self.sim.m.viols.is_empty()
    }

    fn emit(&mut self, s: Step) {
        if self.failed() {
            return;
        }
        self.sim.exec(&s);
        self.steps.push(s);
    }

    fn at(&mut self, d: u64, e: Ev) {
        self.seq += 1;
        self.heap.push(std::cmp::Reverse((self.now + d, self.seq, e)));
    }

    // ---- the world -----------------------------------------------------------------------------

    fn inst(&mut self, c: usize, code: &str, name: &str, msg: Value) {
        let from = if self.rng.p(300) { *self.rng.pick(&["u:bob", "u:attacker", "u:ben"]) } else { "u:own" };
        let s = Step { k: "inst".into(), c, from: from.into(), to: format!("{code} {name}"), msg, ..Default::default() };
        self.emit(s);
    }
    fn own(&mut self, c: usize, to: &str, msg: Value) {
        let o = self.owner_of(c, to);
        self.emit(tx(c, &o, to, msg));
    }

    fn amount(&mut self) -> u128 {
        match self.rng.below(10) {
            0 => 0,
            1 => 1,
            // at the edges of machine words
            2 => ((1u128 << (1 + self.rng.below(100))) + self.rng.below(3) as u128) - 1,
            3..=6 => self.rng.below(1000) as u128,
            7 => self.rng.below(1_000_000_000) as u128,
            8 => self.rng.u64() as u128,
            _ => (self.rng.u64() as u128) << self.rng.below(40),
        }
    }
    fn small(&mut self) -> u128 {
        match self.rng.below(6) {
            0 => 0,
            1 => 1,
            _ => self.rng.range(2, 500) as u128,
        }
    }

    fn vset(&mut self) -> (Vec<u32>, u32) {
        // mostly few validators out of a small pool, sometimes many
        let many = self.rng.p(60);
        let n = if many { 7 + self.rng.us(NVAL as usize - 6) } else { 1 + self.rng.us(6) };
        let mut v: Vec<u32> = (0..if many { NVAL } else { 10 }).collect();
        self.rng.shuffle(&mut v);
        v.truncate(n);
        let bad = v.iter().filter(|x| self.sim.cfg.corrupt.contains(x)).count();
        let t = if self.rng.p(800) && bad < n { self.rng.range(bad as u64 + 1, n as u64) } else { self.rng.range(1, n as u64) };
        (v, t as u32)
    }
    /// Now and then a list is full of validators nobody has ever heard of.
    fn padded(&mut self, v: &[u32]) -> Vec<String> {
        let mut o = Self::vals(v);
        if self.rng.p(25) {
            let n = *self.rng.pick(&[40usize, 120, 250, 256, 300]);
            while o.len() < n {
                o.push(hx(&self.rng.bytes(20)));
            }
            self.rng.shuffle(&mut o);
        }
        // or there is one that is almost, but not quite, somebody known
        if self.rng.p(80) {
            let mut e = eth_of(self.rng.below(NVAL as u64) as u32);
            let i = *self.rng.pick(&[0usize, 19, 10]);
            e[i] ^= 1 << self.rng.below(8);
            let at = self.rng.us(o.len() + 1);
            o.insert(at, hx(&e));
        }
        // or somebody is listed twice, perhaps side by side
        if self.rng.p(70) {
            let i = self.rng.us(o.len());
            let at = if self.rng.p(600) { i } else { self.rng.us(o.len() + 1) };
            let x = o[i].clone();
            o.insert(at, x);
        }
        o
    }
    /// Now and then a list is long, or names somebody twice.
    fn stretch(&mut self, l: &mut Vec<String>, pool: &[&str]) {
        if self.rng.p(50) {
            for _ in 0..4 + self.rng.us(20) {
                let x = format!("@{}", self.rng.pick(pool));
                let at = self.rng.us(l.len() + 1);
                l.insert(at, x);
            }
        } else if self.rng.p(100) {
            let x = format!("@{}", self.rng.pick(pool));
            let at = self.rng.us(l.len() + 1);
            l.insert(at, x.clone());
            let at = if self.rng.p(500) { at } else { self.rng.us(l.len() + 1) };
            l.insert(at, x);
        }
    }
    fn vals(v: &[u32]) -> Vec<String> {
        v.iter().map(|x| format!("!{x}")).collect()
    }

    fn data_cfg(&mut self, d: u32) -> Value {
        let rate = match self.rng.below(8) {
            0 => 1u128,
            1 => 10_000_000_000,
            2 => self.rng.u64() as u128,
            3 => 9_999_999_999,
            _ => self.rng.range(1, 100_000_000_000) as u128,
        };
        let price = match self.rng.below(7) {
            0 => 0,
            1 => 1,
            2 => self.rng.u64() as u128,
            _ => self.rng.range(1, 5000) as u128,
        };
        json!({"remote_domain": d, "token_exchange_rate": rate.to_string(), "gas_price": price.to_string()})
    }

    fn build_world(&mut self) {
        let n = self.nc();
        for c in 0..n {
            let hrp = self.sim.cfg.chains[c].hrp.clone();
            let dom = self.dom(c);
            for u in USERS.iter().chain(ROLES) {
                let f = DENOMS.iter().map(|d| ("1000000000000000000000000000000".to_string(), d.to_string())).collect();
                self.emit(Step { k: "mint".into(), c, to: u.to_string(), funds: f, ..Default::default() });
            }
            self.inst(c, "mailbox", "mb", json!({"hrp": hrp, "owner": "@u:own", "domain": dom}));
            self.inst(c, "merkle", "merkle", json!({"mailbox": "@mb"}));
            self.inst(c, "oracle", "oracle", json!({"owner": "@u:own"}));
            let dg = self.rng.below(500_000);
            self.inst(
                c,
                "igp",
                "igp",
                json!({"hrp": hrp, "owner": "@u:own", "gas_token": "ugas", "beneficiary": "@u:ben", "default_gas_usage": dg.to_string()}),
            );
            for (f, d) in [("fee0", "ugas"), ("fee1", "ufee")] {
                let a = self.small();
                let d = if self.rng.p(250) { "ugas" } else { d };
                self.inst(c, "fee", f, json!({"owner": "@u:own", "fee": {"denom": d, "amount": a.to_string()}}));
            }
            let pa = self.rng.p(60);
            self.inst(c, "phook", "phook", json!({"owner": "@u:own", "paused": pa}));
            for h in ["rhook", "rchook", "rfhook"] {
                self.inst(c, h, h, json!({"owner": "@u:own"}));
            }
            for h in ["hp0", "hp1"] {
                let mut fees = vec![];
                let odd = self.rng.p(150);
                for d in DENOMS {
                    if self.rng.p(if *d == "ugas" || *d == "ufee" { 450 } else if odd { 400 } else { 0 }) {
                        fees.push(json!({"denom": d, "amount": (1 + self.rng.below(50)).to_string()}));
                    }
                }
                let price = self.rng.p(400);
                self.inst(c, "puppet", h, json!({ "fees": fees, "price": price }));
            }
            // ISMs
            self.inst(c, "msism", "msism", json!({"owner": "@u:own"}));
            self.inst(c, "msism", "ms2", json!({"owner": "@u:own"}));
            let pa = self.rng.p(60);
            self.inst(c, "pism", "pism", json!({"owner": "@u:own", "paused": pa}));
            for p in ["pi0", "pi1"] {
                let v = *self.rng.pick(&["yes", "yes", "no", "err", "meta", "meta"]);
                self.inst(c, "puppet", p, json!({ "verdict": v }));
            }
            self.inst(c, "puppet", "ideal", json!({"verdict": "known"}));
            for r in ["rc0", "rc1", "rc2", "bat"] {
                self.inst(c, "puppet", r, if r == "bat" { json!({"verdict": "meta"}) } else { json!({}) });
                self.emit(Step {
                    k: "mint".into(),
                    c,
                    to: r.into(),
                    funds: DENOMS.iter().map(|d| ("1000000000000000".to_string(), d.to_string())).collect(),
                    ..Default::default()
                });
            }
            for d in self.sim.cfg.chains.iter().map(|x| x.domain).collect::<Vec<_>>() {
                if d == dom && self.rng.p(700) {
                    continue;
                }
                for m in ["msism", "ms2"] {
                    let (v, t) = self.vset();
                    let vs = self.padded(&v);
                    self.own(c, m, json!({"set_validators": {"domain": d, "threshold": t, "validators": vs}}));
                }
            }
            let secure = self.rng.p(self.prof.secure);
            if !secure && self.rng.p(200) {
                let r = *self.rng.pick(&["rc0", "rc1", "rc2"]);
                self.judge = true;
                self.emit(tx(c, "u:own", r, json!({"set": {"ism": "@bat"}})));
            }
            // the aggregate and routing ISMs
            let lvl0 = ["msism", "ms2", "pism", "pi0", "pi1", "ideal"];
            let mk = |g: &mut Gen, pool: &[&str], must: Option<&str>| -> (Vec<String>, u32) {
                let k = 1 + g.rng.us(4);
                let mut p: Vec<&str> = pool.to_vec();
                g.rng.shuffle(&mut p);
                p.truncate(k);
                if let Some(m) = must {
                    if !p.contains(&m) {
                        p.push(m);
                    }
                }
                let t = 1 + g.rng.below(p.len() as u64) as u32;
                (p.iter().map(|x| format!("@{x}")).collect(), t)
            };
            let (l, t) = mk(self, &lvl0, None);
            let t = if secure { l.len() as u32 } else { t };
            // creations that must be refused
            if self.rng.p(200) {
                let bad = *self.rng.pick(&[0u32, l.len() as u32 + 1, 255, 128]);
                let l = if self.rng.p(300) { vec![] } else { l.clone() };
                self.inst(c, "aism", "aismx", json!({"owner": "@u:own", "isms": l, "threshold": bad}));
            }
            let mut l = l;
            if !secure {
                self.stretch(&mut l, &lvl0);
            }
            self.inst(c, "aism", "aism0", json!({"owner": "@u:own", "isms": l, "threshold": t}));
            let mut mods = vec![];
            let all = if self.rng.p(100) { 60 } else { n + 2 };
            for d in self.domains.clone().into_iter().take(all) {
                if self.rng.p(850) {
                    let i = if secure { *self.rng.pick(&["msism", "ms2", "ideal", "aism0"]) } else { *self.rng.pick(&["msism", "pi0", "pi1", "aism0", "pism", "ideal"]) };
                    mods.push(json!({"domain": d, "address": format!("@{i}")}));
                }
            }
            // the same origin more than once
            while !mods.is_empty() && self.rng.p(250) {
                let mut again: Value = self.rng.pick(&mods).clone();
                let i = if secure { *self.rng.pick(&["msism", "ms2", "ideal", "aism0"]) } else { *self.rng.pick(&["msism", "pi0", "pi1", "aism0", "pism", "ideal"]) };
                again["address"] = json!(format!("@{i}"));
                let at = self.rng.us(mods.len() + 1);
                mods.insert(at, again);
            }
            self.inst(c, "rism", "rism", json!({"owner": "@u:own", "isms": mods}));
            let (l, t) = mk(self, &["rism", "aism0", "msism", "pi0", "ideal", "pism"], None);
            let t = if secure { l.len() as u32 } else { t };
            self.inst(c, "aism", "aism1", json!({"owner": "@u:own", "isms": l, "threshold": t}));
            let dism = if secure {
                *self.rng.pick(&["msism", "msism", "ms2", "rism", "aism0", "aism1", "ideal", "ideal"])
            } else {
                *self.rng.pick(&["msism", "rism", "aism0", "aism1", "pism", "pi0", "ideal", "pi1"])
            };
            // gas oracle
            let ds = self.domains.clone();
            for d in ds.iter().take(n + 2) {
                if self.rng.p(900) {
                    let cfg = self.data_cfg(*d);
                    self.own(c, "oracle", json!({"set_remote_gas_data_configs": {"configs": [cfg]}}));
                }
                if self.rng.p(900) {
                    self.own(c, "igp", json!({"router": {"set_route": {"set": {"domain": d, "route": "@oracle"}}}}));
                }
                if self.rng.p(400) {
                    let g = self.rng.below(1_000_000);
                    self.own(c, "igp", json!({"set_gas_for_domain": {"config": [[d, g.to_string()]]}}));
                }
            }
            // hook compositions, built bottom-up
            let l0 = ["merkle", "fee0", "fee1", "phook", "igp", "hp0", "hp1"];
            let pick = |g: &mut Gen, pool: &[&str], k: usize| -> Vec<String> {
                let mut p: Vec<&str> = pool.to_vec();
                g.rng.shuffle(&mut p);
                p.truncate(k);
                p.iter().map(|x| format!("@{x}")).collect()
            };
            let k = self.rng.us(4);
            let mut h0 = pick(self, &l0[1..], k);
            let at = self.rng.us(h0.len() + 1);
            h0.insert(at, "@merkle".into());
            self.stretch(&mut h0, &l0[1..]);
            self.inst(c, "ahook", "ahook0", json!({"owner": "@u:own", "hooks": h0}));
            for d in ds.iter().take(n + 1) {
                if self.rng.p(900) {
                    let h = *self.rng.pick(&["fee0", "fee1", "igp", "hp0", "phook", "merkle", "ahook0"]);
                    self.own(c, "rhook", json!({"router": {"set_route": {"set": {"domain": d, "route": format!("@{h}")}}}}));
                }
                if self.rng.p(600) {
                    let h = *self.rng.pick(&["fee0", "igp", "hp1", "rhook", "ahook0"]);
                    self.own(c, "rfhook", json!({"router": {"set_route": {"set": {"domain": d, "route": format!("@{h}")}}}}));
                }
                if self.rng.p(700) {
                    let h = *self.rng.pick(&["fee0", "igp", "hp1", "rhook", "rfhook"]);
                    self.own(c, "rchook", json!({"router": {"set_route": {"set": {"domain": d, "route": format!("@{h}")}}}}));
                }
                if self.rng.p(500) {
                    let h = *self.rng.pick(&["fee1", "igp", "hp0", "rfhook"]);
                    let r = *self.rng.pick(&["rc0", "rc1", "rc2"]);
                    let cc = self.sim.chain_of(*d).unwrap_or(0);
                    self.own(c, "rchook", json!({"register_custom_hook": {"dest_domain": d, "recipient": format!("#{cc}/{r}"), "hook": format!("@{h}")}}));
                }
            }
            if self.rng.p(750) {
                let h = *self.rng.pick(&["fee0", "hp0", "igp", "phook"]);
                self.own(c, "rfhook", json!({"set_fallback_hook": {"hook": format!("@{h}")}}));
            }
            // registries larger than any page
            if self.prof.ndom > 20 && self.rng.p(500) {
                let ds = self.domains.clone();
                match self.rng.below(4) {
                    0 => {
                        let n = 24 + self.rng.us(ds.len() - 23);
                        let l: Vec<Value> = ds[..n].iter().map(|d| json!([d, self.amount().to_string()])).collect();
                        self.own(c, "igp", json!({"set_gas_for_domain": {"config": l}}));
                    }
                    1 => {
                        let d = self.any_dom();
                        let n = if ds.len() > 100 { 110 } else { 24 + self.rng.us(24) };
                        let l: Vec<Value> = (0..n)
                            .map(|_| {
                                let h = *self.rng.pick(&["fee0", "fee1", "igp"]);
                                json!({"dest_domain": d, "recipient": hx(&self.rng.bytes(32)), "hook": format!("@{h}")})
                            })
                            .collect();
                        self.own(c, "rchook", json!({ "register_custom_hooks": l }));
                    }
                    _ => {
                        let r = *self.rng.pick(&["rhook", "rchook", "rfhook"]);
                        let n = 24 + self.rng.us(ds.len() - 23);
                        let l: Vec<Value> = ds[..n]
                            .iter()
                            .map(|d| {
                                let h = *self.rng.pick(&["fee0", "fee1", "igp"]);
                                json!({"domain": d, "route": format!("@{h}")})
                            })
                            .collect();
                        self.own(c, r, json!({"router": {"set_routes": {"set": l}}}));
                    }
                }
            }
            let k = 1 + self.rng.us(3);
            let h1 = pick(self, &["rhook", "rfhook", "rchook", "ahook0", "fee0", "igp", "merkle"], k);
            self.inst(c, "ahook", "ahook1", json!({"owner": "@u:own", "hooks": h1}));
            let rh = *self.rng.pick(&["ahook0", "ahook0", "ahook0", "merkle", "merkle", "merkle", "fee0", "phook", "rhook", "ahook1", "hp0"]);
            let dh = *self.rng.pick(HOOKN);
            let mut cfg = vec![
                json!({"set_default_ism": {"ism": format!("@{dism}")}}),
                json!({"set_required_hook": {"hook": format!("@{rh}")}}),
                json!({"set_default_hook": {"hook": format!("@{dh}")}}),
            ];
            self.rng.shuffle(&mut cfg);
            for m in cfg {
                self.own(c, "mb", m);
            }
            self.inst(c, "va", "va", json!({"hrp": hrp, "mailbox": "@mb"}));
            // a second, unrelated mailbox on the same chain (same domain: somebody else's deployment)
            if self.rng.p(400) {
                let d2 = if self.rng.p(500) { dom } else { *self.rng.pick(&ds) };
                self.inst(c, "mailbox", "mb2", json!({"hrp": hrp, "owner": "@u:attacker", "domain": d2}));
                let mut cfg = vec![
                    json!({"set_default_ism": {"ism": "@pi0"}}),
                    json!({"set_required_hook": {"hook": "@hp0"}}),
                    json!({"set_default_hook": {"hook": "@hp0"}}),
                ];
                self.rng.shuffle(&mut cfg);
                if self.rng.p(300) {
                    // left half configured by whoever deployed it
                    cfg.pop();
                }
                for m in cfg {
                    self.own(c, "mb2", m);
                }
            }
            if self.rng.p(150) {
                let v = match self.rng.below(4) {
                    0 => self.rng.u64() as u32 | 1 << 31,
                    1 => 254 + self.rng.below(4) as u32,
                    2 => 65534 + self.rng.below(3) as u32,
                    _ => self.rng.u64() as u32 >> 4,
                };
                // nobody dispatched yet: the mailbox may have a long history behind it
                if v < u32::MAX - 5000 {
                    self.emit(Step { k: "nonce".into(), c, to: "mb".into(), msg: json!({ "nonce": v }), ..Default::default() });
                }
            }
        }
        for c in 0..n {
            if self.rng.p(self.prof.deep_tree) {
                let k = self.rng.below(32);
                let v: u64 = match self.rng.below(8) {
                    0 => (1 << k) - 1,
                    1 => 1 << k,
                    2 => (1u64 << k).saturating_sub(1 + self.rng.below(20)),
                    3 => u32::MAX as u64 - self.rng.below(12),
                    4 => self.rng.below(1 << 20),
                    5 => 254 + self.rng.below(4),
                    _ => self.rng.below(u32::MAX as u64 - 1000),
                };
                let seed = self.rng.u64() & 0xffff_ffff;
                self.emit(Step { k: "tree".into(), c, to: "merkle".into(), msg: json!({"count": v, "seed": seed}), ..Default::default() });
            }
        }
        if self.rng.p(self.prof.links) {
            self.build_links();
        }
        if self.rng.p(self.prof.links / 2) {
            self.build_solo();
        }
        for c in 0..n {
            self.emit(Step { k: "audit".into(), c, ..Default::default() });
            break;
        }
        self.setup = self.steps.len();
    }

    /// Routes that trust an arbitrary account as their mailbox, so that any delivery can be put to them.
    fn build_solo(&mut self) {
        for _ in 0..1 + self.rng.us(2) {
            let c = self.chain();
            let hrp = self.sim.cfg.chains[c].hrp.clone();
            let kind = self.rng.us(4);
            let name = format!("ws{kind}");
            if self.has(c, &name) {
                continue;
            }
            let (code, token) = match kind {
                0 => ("wnative", json!({"bridged": {"denom": "srd", "metadata": self.denom_meta("srd")}})),
                1 => ("wnative", json!({"collateral": {"denom": "ucol"}})),
                2 => ("wcw20", json!({"bridged": {"code_id": "$code:cw20", "init_msg": {"name": "Solo", "symbol": "SOL", "decimals": 6, "initial_balances": [], "mint": null, "marketing": null}}})),
                _ => {
                    let bal = json!([{"address": format!("@{name}"), "amount": "1000000000000"}, {"address": "@u:alice", "amount": "1000"}]);
                    self.inst(c, "cw20", "stok", json!({"name": "Token", "symbol": "TOK", "decimals": 6, "initial_balances": bal, "mint": null, "marketing": null}));
                    ("wcw20", json!({"collateral": {"address": "@stok"}}))
                }
            };
            self.inst(c, code, &name, json!({"token": token, "hrp": hrp, "owner": "@u:own", "mailbox": "@u:pmb"}));
            if kind == 1 {
                self.emit(Step { k: "mint".into(), c, to: name.clone(), funds: vec![("1000000000000".into(), "ucol".into())], ..Default::default() });
            }
            self.solo.push((c, name.clone()));
            for _ in 0..1 + self.rng.us(4) {
                let d = self.any_dom();
                let r = self.solo_route();
                self.own(c, &name, json!({"router": {"set_route": {"set": {"domain": d, "route": r}}}}));
            }
        }
    }

    fn denom_meta(&mut self, d: &str) -> Value {
        if self.rng.p(650) {
            return Value::Null;
        }
        json!({"description": "bridged", "denom_units": [{"denom": d, "exponent": 0, "aliases": []}, {"denom": format!("m{d}"), "exponent": 6, "aliases": ["big"]}],
            "base": d, "display": format!("m{d}"), "name": "Bridged", "symbol": "BRD"})
    }

    fn solo_route(&mut self) -> String {
        let n = *self.rng.pick(&[32usize, 32, 32, 32, 32, 20, 33, 0, 12, 64]);
        let mut b = self.rng.bytes(n);
        if n == 32 && self.rng.p(600) {
            b[..12].copy_from_slice(&[0; 12]);
        }
        hx(&b)
    }

    /// A delivery put to a solo route by its mailbox (or somebody else): right, or almost right.
    fn solo_handle(&mut self) {
        let (c, w) = self.solo[self.rng.us(self.solo.len())].clone();
        let routes: Vec<(u32, Option<String>)> = match self.sim.m.cm[c].get(&self.sim.addr(c, &w)) {
            Some(k) => k.routes.iter().map(|(d, r)| (*d, r.clone())).collect(),
            None => return,
        };
        let (mut d, r) = if routes.is_empty() { (self.any_dom(), None) } else { self.rng.pick(&routes).clone() };
        let mut s = r.and_then(|r| unhx(&r)).unwrap_or_else(|| self.rng.bytes(32));
        match self.rng.below(16) {
            0 => d = self.any_dom(),
            1 => d = rel_dom(&mut self.rng, d),
            14 | 15 => {
                // nobody: as if a missing or cleared route were an empty one
                let gone: Vec<u32> = routes.iter().filter(|x| x.1.is_none()).map(|x| x.0).collect();
                d = if gone.is_empty() || self.rng.p(400) { self.any_dom() } else { *self.rng.pick(&gone) };
                s = vec![0; *self.rng.pick(&[32usize, 32, 32, 0, 20])];
            }
            2 => s = self.rng.bytes(32),
            3 | 4 if s.len() >= 12 => {
                let i = self.rng.us(12);
                s[i] ^= 1 + self.rng.below(255) as u8;
            }
            5 | 6 if !s.is_empty() => {
                let i = self.rng.us(s.len());
                s[i] ^= 1 << self.rng.below(8);
            }
            7 if s.len() > 12 => s = s[12..].to_vec(),
            8 => s.push(0),
            9 => s.insert(0, 0),
            10 => {
                s.pop();
            }
            11 => s = vec![],
            _ => {}
        }
        let u = self.user();
        let a = match self.rng.below(8) {
            0 => "340282366920938463463374607431768211456".to_string(),
            1 => "340282366920938463463374607431768211463".to_string(),
            2 => "340282366920938463463374607431768211455".to_string(),
            3 => {
                let b = self.rng.bytes(32);
                cosmwasm_std::Uint256::from_be_bytes(b.try_into().unwrap()).to_string()
            }
            4 => "0".to_string(),
            _ => self.amount().min(1_000_000).to_string(),
        };
        let r = match self.rng.below(12) {
            0 => hx(&self.rng.bytes(32)),
            1 => self.near(c),
            _ => format!("#{c}/{u}"),
        };
        let mut parts = vec![json!(r), json!({ "$u256": a })];
        match self.rng.below(12) {
            0 => {
                let n = 1 + self.rng.us(40);
                parts.push(json!(hx(&self.rng.bytes(n))));
            }
            1 => {
                parts.pop();
                let n = self.rng.us(32);
                parts.push(json!(hx(&self.rng.bytes(n))));
            }
            _ => {}
        }
        let from = match self.rng.below(12) {
            0 => "u:attacker".to_string(),
            1 => self.owner_of(c, &w),
            2 => "mb".to_string(),
            _ => "u:pmb".to_string(),
        };
        self.emit(tx(c, &from, &w, json!({"handle": {"origin": d, "sender": hx(&s), "body": {"$cat": parts}}})));
    }

    fn build_links(&mut self) {
        let n = self.nc();
        let kinds: Vec<bool> = match self.rng.below(4) {
            0 => vec![true],
            1 => vec![false],
            _ => vec![true, false],
        };
        for native in kinds {
            let home = self.chain();
            let (col, bri) = if native { ("wnc", "wnb") } else { ("wcc", "wcb") };
            let code = if native { "wnative" } else { "wcw20" };
            let mut members = vec![];
            for c in 0..n {
                let hrp = self.sim.cfg.chains[c].hrp.clone();
                if c == home {
                    let token = if native {
                        let d = if self.rng.p(700) { "ucol" } else { "ugas" };
                        json!({"collateral": {"denom": d}})
                    } else {
                        let bal: Vec<Value> = USERS.iter().chain(ROLES).map(|u| json!({"address": format!("@{u}"), "amount": "1000000000000000000000000000000"})).collect();
                        self.inst(c, "cw20", "tok", json!({"name": "Token", "symbol": "TOK", "decimals": 6, "initial_balances": bal, "mint": null, "marketing": null}));
                        json!({"collateral": {"address": "@tok"}})
                    };
                    self.inst(c, code, col, json!({"token": token, "hrp": hrp, "owner": "@u:own", "mailbox": "@mb"}));
                    members.push((c, col.to_string()));
                } else {
                    let token = if native {
                        json!({"bridged": {"denom": "brd", "metadata": self.denom_meta("brd")}})
                    } else {
                        json!({"bridged": {"code_id": "$code:cw20", "init_msg": {"name": "Bridged", "symbol": "BRD", "decimals": 6, "initial_balances": [], "mint": null, "marketing": null}}})
                    };
                    self.inst(c, code, bri, json!({"token": token, "hrp": hrp, "owner": "@u:own", "mailbox": "@mb"}));
                    members.push((c, bri.to_string()));
                }
            }
            let ideal = self.rng.p(600);
            for (c, w) in members.clone() {
                for (d, v) in &members {
                    if *d != c {
                        let dom = self.dom(*d);
                        self.own(c, &w, json!({"router": {"set_route": {"set": {"domain": dom, "route": format!("#{d}/{v}")}}}}));
                    }
                }
                if ideal {
                    self.own(c, &w, json!({"connection": {"set_ism": {"ism": "@ideal"}}}));
                }
                if self.rng.p(300) {
                    let h = *self.rng.pick(&["fee0", "igp", "hp0", "merkle", "rhook"]);
                    self.own(c, &w, json!({"connection": {"set_hook": {"hook": format!("@{h}")}}}));
                }
                if !native && c == home {
                    for u in USERS.iter().chain(ROLES) {
                        self.emit(tx(c, u, "tok", json!({"increase_allowance": {"spender": format!("@{w}"), "amount": "500000000000000000000000000000"}})));
                    }
                }
            }
            let ms: Vec<Value> = members.iter().map(|(c, w)| json!({"c": c, "w": w})).collect();
            self.emit(Step { k: "link".into(), msg: json!({ "members": ms }), ..Default::default() });
            self.links.push(members);
        }
    }

    // ---- the run -------------------------------------------------------------------------------

    pub fn run(&mut self) {
        self.build_world();
        if self.failed() {
            return;
        }
        if self.big {
            self.crowd();
        }
        for a in 0..4 {
            let d = self.rng.below(20);
            self.at(d, Ev::Actor(a));
        }
        if !self.calm {
            for r in 0..RELAYERS.len() as u32 {
                if self.rng.p(400) {
                    let d = self.rng.range(20, 400);
                    self.at(d, Ev::Crash(r));
                }
            }
            for c in 0..self.nc() {
                if self.rng.p(350) {
                    let d = self.rng.range(20, 400);
                    self.at(d, Ev::Cut(c));
                }
            }
        }
        let start = self.steps.len();
        while let Some(std::cmp::Reverse((t, _, e))) = self.heap.pop() {
            if self.failed() || self.steps.len() >= start + self.limit {
                break;
            }
            self.now = self.now.max(t);
            self.events += 1;
            self.tick();
            self.event(e);
            self.pickup();
        }
        if self.prof.sweep || self.rng.p(120) {
            self.quiet();
        }
        self.emit(Step { k: "audit".into(), ..Default::default() });
    }

    /// Time passes on every chain (with skew) between events.
    fn tick(&mut self) {
        if self.now < self.clock + 40 {
            return;
        }
        let dt = self.now - self.clock;
        self.clock = self.now;
        self.emit(Step { k: "adv".into(), c: 0, msg: json!({"blocks": 1 + dt / 6, "secs": dt}), flag: true, ..Default::default() });
    }

    fn event(&mut self, e: Ev) {
        match e {
            Ev::Actor(a) => {
                let ws: Vec<u32> = ACTS.iter().map(|x| self.prof.w.get(x).copied().unwrap_or(0)).collect();
                let act = ACTS[self.rng.weighted(&ws)];
                self.act(act);
                let d = self.rng.range(1, 30);
                self.at(d, Ev::Actor(a));
            }
            Ev::Deliver(i, r, ep) => {
                if self.epoch[r as usize] != ep || !self.alive[r as usize] {
                    self.sim.fault("lost-in-crash");
                    return;
                }
                self.deliver(i, r);
            }
            Ev::Crash(r) => {
                self.sim.fault("relayer-crash");
                self.alive[r as usize] = false;
                self.epoch[r as usize] += 1;
                let d = self.rng.range(5, 200);
                self.at(d, Ev::Restart(r));
            }
            Ev::Restart(r) => {
                self.alive[r as usize] = true;
                // resumes from its durable cursor: everything after it is submitted (again)
                let from = self.cursor[r as usize];
                for i in from..self.sim.disp.len() {
                    let d = self.rng.range(1, 80);
                    let ep = self.epoch[r as usize];
                    self.at(d, Ev::Deliver(i, r, ep));
                }
                if self.rng.p(400) {
                    let d = self.rng.range(50, 400);
                    self.at(d, Ev::Crash(r));
                }
            }
            Ev::Cut(c) => {
                self.sim.fault("partition");
                self.cut[c] = true;
                let d = self.rng.range(20, 200);
                self.at(d, Ev::Heal(c));
            }
            Ev::Heal(c) => {
                self.cut[c] = false;
                if self.rng.p(500) {
                    let d = self.rng.range(50, 300);
                    self.at(d, Ev::Cut(c));
                }
            }
        }
    }

    /// New dispatches reach the relayers over the network.
    fn pickup(&mut self) {
        while self.seen < self.sim.disp.len() {
            let i = self.seen;
            self.seen += 1;
            if self.sim.disp[i].tag == 0 || self.sim.chain_of(self.sim.disp[i].msg.dest).is_none() {
                continue;
            }
            for r in 0..RELAYERS.len() as u32 {
                if r > 0 && self.rng.p(600) {
                    continue;
                }
                if self.rng.p(self.drop) {
                    self.sim.fault("message-loss");
                    continue;
                }
                let n = if self.rng.p(self.dup) { 2 + self.rng.below(2) } else { 1 };
                for k in 0..n {
                    let d = if self.rng.p(self.slow) { self.rng.range(1, 300) } else { self.rng.range(1, 15) };
                    if k > 0 {
                        self.sim.fault("message-duplication");
                    }
                    if d > 60 {
                        self.sim.fault("message-delay");
                    }
                    let ep = self.epoch[r as usize];
                    self.at(d, Ev::Deliver(i, r, ep));
                }
                if self.rng.p(300) {
                    self.cursor[r as usize] = self.cursor[r as usize].max(i.saturating_sub(self.rng.us(3)));
                }
            }
        }
    }

    fn oog(&mut self) -> Option<u32> {
        if self.prof.oog > 0 && self.rng.p(self.prof.oog) {
            Some(self.rng.below(1001) as u32)
        } else {
            None
        }
    }

    fn mref(&self, i: usize) -> Value {
        let d = &self.sim.disp[i];
        json!({"$msg": {"t": d.tag, "i": d.i}})
    }

    fn process(&mut self, c: usize, from: &str, m: Value, mode: &str) -> Step {
        let s = self.rng.u64() & 0xffff_ffff;
        let mut t = tx(c, from, "mb", json!({"process": {"metadata": {"$meta": {"m": m, "mode": mode, "s": s}}, "message": m}}));
        if self.rng.p(40) {
            t.funds = self.coins();
        }
        t
    }

    /// Sometimes the relayer is a contract, which may at the same time be the judge.
    fn by_contract(&mut self, s: &mut Step) {
        if self.rng.p(if self.judge { 500 } else { 150 }) {
            let call = json!({"to": "@mb", "msg": s.msg, "reply": "never"});
            s.msg = json!({"run": {"calls": [call]}});
            s.to = "bat".into();
            s.funds.clear();
        }
    }

    fn deliver(&mut self, i: usize, r: u32) {
        let c = match self.sim.chain_of(self.sim.disp[i].msg.dest) {
            Some(c) => c,
            None => return,
        };
        if self.cut[c] {
            // retried after the partition
            self.sim.fault("blocked-by-partition");
            let d = self.rng.range(20, 120);
            let ep = self.epoch[r as usize];
            self.at(d, Ev::Deliver(i, r, ep));
            return;
        }
        let mode = *self.rng.pick(&["honest", "honest", "honest", "all", "mix"]);
        let m = self.mref(i);
        let mut s = self.process(c, RELAYERS[r as usize], m, mode);
        s.oog = self.oog();
        s.note = format!("relay {i}");
        self.emit(s);
        // an attempt that failed is retried a few times
        let ok = self.sim.last.as_ref().map(|n| n.ok).unwrap_or(true);
        if !ok && self.rng.p(600) {
            let d = self.rng.range(5, 150);
            let ep = self.epoch[r as usize];
            self.at(d, Ev::Deliver(i, r, ep));
        }
    }

    fn user(&mut self) -> String {
        match self.rng.p(60) {
            true => self.rng.pick(ROLES).to_string(),
            false => self.rng.pick(USERS).to_string(),
        }
    }

    fn owner_of(&self, c: usize, name: &str) -> String {
        let a = self.sim.addr(c, name);
        match self.sim.m.cm[c].get(&a).and_then(|k| k.owner.clone()) {
            Some(o) => self.known(c, &o),
            None => "u:own".into(),
        }
    }

    /// The symbolic name of an address.
    fn known(&self, c: usize, a: &str) -> String {
        for u in USERS.iter().chain(["u:own", "u:nom", "u:ben", "u:ben2"].iter()).chain(RELAYERS.iter()) {
            if self.sim.addr(c, u) == a {
                return u.to_string();
            }
        }
        if let Some(n) = self.sim.insts[c].get(a) {
            return n.clone();
        }
        match bech_dec(a) {
            Some((_, r)) => format!("raw:{}", hx(&r)),
            None => "u:own".into(),
        }
    }

    fn any_dom(&mut self) -> u32 {
        if self.rng.p(50) {
            let x = *self.rng.pick(&self.domains.clone());
            return rel_dom(&mut self.rng, x);
        }
        if self.rng.p(650) {
            let c = self.chain();
            self.dom(c)
        } else {
            *self.rng.pick(&self.domains.clone())
        }
    }

    fn body(&mut self) -> String {
        match self.rng.below(14) {
            12 => {
                // zeros at an end
                let n = 1 + self.rng.us(40);
                let mut b = self.rng.bytes(n);
                let k = 1 + self.rng.us(n.min(3));
                let front = self.rng.p(400);
                for i in 0..k {
                    let j = if front { i } else { n - 1 - i };
                    b[j] = 0;
                }
                hx(&b)
            }
            13 => {
                let n = 1 + self.rng.us(70);
                let v = *self.rng.pick(&[0u8, 0, 0xff, 32]);
                hx(&vec![v; n])
            }
            0..=4 => self.rng.pick(&self.bodies.clone()).clone(),
            5..=9 => {
                let n = self.rng.us(80);
                hx(&self.rng.bytes(n))
            }
            10 => String::new(),
            11 => {
                let top = match self.rng.below(100) {
                    0..=8 => 9000,
                    9 | 10 => 1 << (9 + self.rng.us(8)),
                    _ => 700,
                };
                // lengths about a power of two, or any
                let n = if (top & (top - 1)) == 0 { top + self.rng.us(5) - 2 } else { self.rng.us(top) };
                hx(&self.rng.bytes(n))
            }
            _ => hx(&self.rng.bytes(8)),
        }
    }

    /// Something that differs from a recipient in few bytes.
    fn near(&mut self, c: usize) -> String {
        let n = *self.rng.pick(&["rc0", "rc1", "rc2", "u:alice"]);
        let mut b = self.sim.raw(c, n);
        if b.len() < 32 {
            let mut l = vec![0; 32 - b.len()];
            l.extend(b);
            b = l;
        }
        match self.rng.below(7) {
            0 | 1 => b[..12].copy_from_slice(&[0; 12]),
            5 | 6 => {
                let k = *self.rng.pick(&[1usize, 4, 8, 10, 11, 12, 16]);
                b[..k].fill(0);
                b[k] |= 1;
            }
            2 => b[0] ^= 1,
            3 => b[31] ^= 1,
            4 if self.rng.p(500) => {
                // an account that ends, or begins and ends, with zeros
                if self.rng.p(700) {
                    b[..12].fill(0);
                }
                let k = 1 + self.rng.us(3);
                b[32 - k..].fill(0);
            }
            _ => b[..16].reverse(),
        }
        hx(&b)
    }

    fn recipient(&mut self, c: usize) -> String {
        match self.rng.below(21) {
            20 => self.near(c),
            0..=15 => format!("#{c}/{}", self.rng.pick(&["rc0", "rc1", "rc2"])),
            16 => format!("#{c}/bat"),
            17 => format!("#{c}/u:alice"),
            18 => {
                let n = *self.rng.pick(&[0usize, 20, 31, 33, 64, 32]);
                hx(&self.rng.bytes(n))
            }
            _ => hx(&self.rng.bytes(32)),
        }
    }

    fn metadata(&mut self, c: usize) -> Value {
        match self.rng.below(10) {
            0..=4 => Value::Null,
            5 => {
                let n = *self.rng.pick(&[0usize, 1, 31, 4]);
                json!(hx(&self.rng.bytes(n)))
            }
            6 => json!({"$u256": self.gas()}),
            7 | 8 => {
                let u = self.user();
                json!({"$cat": [{"$u256": self.gas()}, format!("%{u}")]})
            }
            _ => {
                let n = *self.rng.pick(&[1usize, 19, 21, 31, 33, 64, 64, 1100]);
                let _ = c;
                json!({"$cat": [{"$u256": self.gas()}, hx(&self.rng.bytes(n))]})
            }
        }
    }

    fn gas(&mut self) -> String {
        match self.rng.below(10) {
            0 => "0".into(),
            1 => "1".into(),
            2 => self.rng.u64().to_string(),
            3 => format!("{}", u128::MAX),
            4 => "115792089237316195423570985008687907853269984665640564039457584007913129639935".into(),
            _ => self.rng.below(2_000_000).to_string(),
        }
    }

    fn coins(&mut self) -> Vec<(String, String)> {
        let mut o = vec![];
        let n = self.rng.us(3);
        for _ in 0..n {
            let d = self.rng.pick(DENOMS).to_string();
            let a = self.small();
            if !o.iter().any(|x: &(String, String)| x.1 == d) {
                o.push((a.to_string(), d));
            }
        }
        o
    }

    fn hook_name(&mut self) -> String {
        self.rng.pick(HOOKN).to_string()
    }
    fn ism_name(&mut self) -> String {
        self.rng.pick(ISMN).to_string()
    }

    fn dispatch_args(&mut self, c: usize) -> Value {
        let mut dc = self.chain();
        if dc == c && self.rng.p(700) {
            dc = (c + 1) % self.nc();
        }
        let mut dom = self.dom(dc);
        if self.rng.p(100) {
            dom = self.any_dom();
        }
        let r = self.recipient(dc);
        let b = self.body();
        let md = self.metadata(c);
        let hook = if self.rng.p(400) { json!(format!("@{}", self.hook_name())) } else { Value::Null };
        let mut d = json!({"dest_domain": dom, "recipient_addr": r, "msg_body": b});
        if !hook.is_null() || self.rng.p(100) {
            d["hook"] = hook;
        }
        if !md.is_null() {
            d["metadata"] = md;
        }
        d
    }

    fn next_tag(&mut self) -> u32 {
        self.tag += 1;
        self.tag
    }

    fn dispatch(&mut self) {
        let c = self.chain();
        if self.cut[c] {
            return;
        }
        let from = self.user();
        let mb = if self.has(c, "mb2") && self.rng.p(60) { "mb2" } else { "mb" };
        let d = self.dispatch_args(c);
        let mut s = tx(c, &from, mb, json!({ "dispatch": d.clone() }));
        s.tag = self.next_tag();
        if self.rng.p(820) {
            let mut q = d;
            q["mb"] = json!(format!("@{mb}"));
            q["sender"] = json!(format!("@{from}"));
            s.q = q;
            if self.rng.p(250) {
                s.funds = self.coins();
            }
        } else {
            s.funds = self.coins();
        }
        s.oog = self.oog();
        self.emit(s);
    }

    fn any_disp(&mut self) -> Option<usize> {
        let n = self.sim.disp.len();
        if n == 0 {
            return None;
        }
        let i = if self.rng.p(500) { n - 1 - self.rng.us(n.min(4)) } else { self.rng.us(n) };
        if self.sim.disp[i].tag == 0 {
            None
        } else {
            Some(i)
        }
    }

    fn forged(&mut self, c: usize) -> Value {
        // a message nobody sent, or a real one with something changed
        let muts = ["ver", "ver1", "nonce", "origin", "sender", "dest", "rcpt", "body", "push", "pop", "cut", "any", "setd", "seto", "setn", "push0", "pop0", "spad", "rpad", "body0", "swap"];
        if self.rng.p(700) {
            if let Some(i) = self.any_disp() {
                let d = &self.sim.disp[i];
                let (t, x) = (d.tag, d.i);
                let mut l = vec![];
                let k = 1 + self.rng.us(2);
                for _ in 0..k {
                    let f = *self.rng.pick(&muts);
                    let v = match f {
                        "setd" => self.dom(c) as u64,
                        "seto" => self.any_dom() as u64,
                        "setn" => self.rng.below(10),
                        _ => self.rng.u64() & 0xffff_ffff,
                    };
                    l.push(json!({"f": f, "v": v}));
                }
                return json!({"$msg": {"t": t, "i": x, "mut": l}});
            }
        }
        let o = self.chain();
        let sender = match self.rng.below(5) {
            0 => format!("#{o}/u:alice"),
            4 => "00".repeat(32),
            1 => match self.links.first() {
                Some(l) => {
                    let (a, w) = l[self.rng.us(l.len())].clone();
                    format!("#{a}/{w}")
                }
                None => format!("#{o}/u:bob"),
            },
            2 => hx(&self.rng.bytes(32)),
            _ => format!("#{o}/mb"),
        };
        let (r, body) = if !self.links.is_empty() && self.rng.p(400) {
            let l = self.links[self.rng.us(self.links.len())].clone();
            let w = l.iter().find(|x| x.0 == c).map(|x| x.1.clone()).unwrap_or_default();
            (format!("#{c}/{w}"), self.warp_body(c))
        } else {
            (self.recipient(c), json!(self.body()))
        };
        let r = if r.starts_with('#') { r } else { hx(&self.rng.bytes(32)) };
        let od = if self.rng.p(850) { self.dom(o) } else { self.any_dom() };
        let dd = if self.rng.p(900) { self.dom(c) } else { self.any_dom() };
        json!({"$mk": {"version": match self.rng.below(30) { 0 => self.rng.below(256), 1 => 3 ^ (1 << self.rng.below(8)), _ => 3 }, "nonce": self.rng.below(5), "origin": od, "sender": sender, "dest": dd, "recipient": r, "body": body}})
    }

    /// A genuine message is altered on the way; the metadata is what its honest relayer would submit.
    fn tamper(&mut self) {
        let i = match self.any_disp() {
            Some(i) => i,
            None => return,
        };
        let c = match self.sim.chain_of(self.sim.disp[i].msg.dest) {
            Some(c) => c,
            None => return,
        };
        let muts = ["ver", "ver1", "nonce", "origin", "sender", "rcpt", "body", "push", "pop", "cut", "any", "push0", "push0", "pop0", "spad", "rpad", "body0", "setn", "swap"];
        let mut l = vec![];
        for _ in 0..1 + self.rng.us(2) {
            let f = *self.rng.pick(&muts);
            let v = if f == "setn" { self.rng.below(10) } else { self.rng.u64() & 0xffff_ffff };
            l.push(json!({"f": f, "v": v}));
        }
        let good = self.mref(i);
        let mut m = good.clone();
        m["$msg"]["mut"] = json!(l);
        let mode = *self.rng.pick(&["honest", "all", "all", "mix"]);
        let s = self.rng.u64() & 0xffff_ffff;
        let mut s = tx(c, "u:attacker", "mb", json!({"process": {"metadata": {"$meta": {"m": good, "mode": mode, "s": s}}, "message": m}}));
        s.note = "tampered in transit".into();
        self.sim.fault("tampered-message");
        self.emit(s);
    }

    fn warp_body(&mut self, c: usize) -> Value {
        let u = self.user();
        let a = match self.rng.below(5) {
            0 => "340282366920938463463374607431768211456".to_string(),
            1 => "0".to_string(),
            _ => self.amount().to_string(),
        };
        let r = if self.rng.p(100) { self.near(c) } else { format!("#{c}/{u}") };
        if self.rng.p(250) {
            // some routes send a note along with the tokens
            let n = 1 + self.rng.us(40);
            return json!({"$cat": [r, {"$u256": a}, hx(&self.rng.bytes(n))]});
        }
        json!({"$cat": [r, {"$u256": a}]})
    }

    fn mode(&mut self) -> &'static str {
        self.rng.pick(&["honest", "all", "mix", "short", "foreign", "stale", "junk", "trunc", "empty", "mixed", "oddranges"])
    }

    fn act(&mut self, a: Act) {
        match a {
            Dispatch => self.dispatch(),
            Redeliver => {
                if let Some(i) = self.any_disp() {
                    let mut c = match self.sim.chain_of(self.sim.disp[i].msg.dest) {
                        Some(c) => c,
                        None => return,
                    };
                    if self.rng.p(60) {
                        c = self.chain();
                    }
                    // somebody keeps trying one message with metadata that does not do
                    if self.rng.p(50) {
                        let last = self.sim.disp.len() - 1;
                        let i = if self.rng.p(600) { last - self.rng.us(3.min(last + 1)) } else { i };
                        if let (true, Some(c)) = (self.sim.disp[i].tag != 0, self.sim.chain_of(self.sim.disp[i].msg.dest)) {
                            let m = self.mref(i);
                            let from = self.user();
                            let mode = *self.rng.pick(&["short", "short", "foreign", "stale"]);
                            for _ in 0..3 + self.rng.us(8) {
                                let mode = if self.rng.p(200) { self.mode() } else { mode };
                                let mut s = self.process(c, &from, m.clone(), mode);
                                s.note = "pester".into();
                                self.emit(s);
                            }
                        }
                        return;
                    }
                    let m = self.mref(i);
                    let from = if self.rng.p(100) { self.owner_of(c, "mb") } else { self.user() };
                    let mode = if self.rng.p(800) { *self.rng.pick(&["honest", "all", "mix"]) } else { self.mode() };
                    let mut s = self.process(c, &from, m, mode);
                    self.by_contract(&mut s);
                    s.oog = self.oog();
                    s.note = "front-run or repeat".into();
                    self.emit(s);
                }
            }
            Forge if self.rng.p(350) => self.tamper(),
            Forge => {
                let c = self.chain();
                let m = self.forged(c);
                let from = if self.rng.p(150) { "u:own" } else { "u:attacker" };
                let mode = self.mode();
                let mut s = self.process(c, from, m, mode);
                self.by_contract(&mut s);
                if s.to == "mb" && self.rng.p(200) {
                    // metadata of a genuine message on a forged one
                    if let Some(i) = self.any_disp() {
                        let r = self.mref(i);
                        let ism = self.ism_name();
                        let seed = self.rng.u64() & 0xffff;
                        s.msg["process"]["metadata"] = json!({"$meta": {"m": r, "ism": format!("@{ism}"), "mode": "all", "s": seed}});
                    }
                }
                if s.to == "mb" && self.has(c, "mb2") && self.rng.p(80) {
                    s.to = "mb2".into();
                }
                s.note = "forged".into();
                self.sim.fault("tampered-message");
                self.emit(s);
            }
            Config => self.config(false),
            Intrude => self.config(true),
            Own => self.ownership(),
            Hook => self.direct_hook(),
            Pay => self.pay(),
            Warp => self.transfer(),
            WarpForge => self.warp_forge(),
            Announce => self.announce(),
            Verify => self.verify(),
            Quote => self.quote(),
            List => self.list(),
            Upgrade => self.upgrade(),
            Recipient => self.recipients(),
            Validators => {
                let pool = if self.rng.p(200) { NVAL } else { 10 };
                let v = self.rng.below(pool as u64) as u32;
                let down = !self.sim.m.down.contains(&v) && self.rng.p(600);
                self.emit(Step { k: "down".into(), msg: json!({ "v": v }), flag: down, ..Default::default() });
            }
            Batch => self.batch(),
            Clock => {
                let c = self.chain();
                let (b, t) = match self.rng.below(3) {
                    0 => (0, 3_000_000),
                    1 => (self.rng.below(50_000_000), 100_000_000),
                    _ => (1, 1),
                };
                self.sim.fault("clock-jump");
                self.emit(Step { k: "adv".into(), c, msg: json!({"blocks": b, "secs": t}), ..Default::default() });
            }
            Send => {
                let c = self.chain();
                let mut to = vec!["igp".to_string(), "fee0".into(), "fee1".into(), "mb".into(), "u:bob".into()];
                for l in &self.links {
                    for (d, w) in l {
                        if *d == c {
                            to.push(w.clone());
                            to.push(w.clone());
                        }
                    }
                }
                let t = self.rng.pick(&to).clone();
                let d = self.rng.pick(DENOMS).to_string();
                let a = 1 + self.small();
                let u = self.user();
                self.emit(Step { k: "send".into(), c, from: u, to: t, funds: vec![(a.to_string(), d)], ..Default::default() });
            }
            Claim => {
                let c = self.chain();
                match self.rng.below(3) {
                    0 => {
                        let ben = self.sim.m.cm[c].get(&self.sim.addr(c, "igp")).map(|k| k.beneficiary.clone()).unwrap_or_default();
                        let from = if self.rng.p(800) { self.known(c, &ben) } else { self.user() };
                        self.emit(tx(c, &from, "igp", json!({"claim": {}})));
                    }
                    _ => {
                        let f = *self.rng.pick(&["fee0", "fee1"]);
                        let from = if self.rng.p(600) { self.owner_of(c, f) } else { self.user() };
                        let r = match self.rng.below(10) {
                            0..=4 => json!(format!("@{}", self.user())),
                            5 => json!(format!("@{}", self.any_name())),
                            _ => Value::Null,
                        };
                        let mut s = tx(c, &from, f, json!({"fee_hook": {"claim": {"recipient": r}}}));
                        s.oog = self.oog();
                        self.emit(s);
                    }
                }
            }
        }
    }

    /// A contract of this chain with one of the given codes.
    fn target(&mut self, c: usize, codes: &[&str]) -> Option<String> {
        let code = *self.rng.pick(codes);
        let l: Vec<String> = self.sim.m.cm[c]
            .iter()
            .filter(|(_, k)| k.code == code)
            .filter_map(|(a, _)| self.sim.insts[c].get(a).cloned())
            .collect();
        if l.is_empty() {
            None
        } else {
            Some(self.rng.pick(&l).clone())
        }
    }

    fn route_target(&mut self, c: usize, code: &str) -> Value {
        let _ = c;
        if self.rng.p(120) {
            return Value::Null;
        }
        if code.starts_with('w') {
            if !self.solo.is_empty() && self.rng.p(300) {
                return json!(self.solo_route());
            }
            let l = self.links.first().cloned().unwrap_or_default();
            if l.is_empty() || self.rng.p(150) {
                let u = self.user();
                return json!(format!("#0/{u}"));
            }
            let l = self.links[self.rng.us(self.links.len())].clone();
            let (d, w) = l[self.rng.us(l.len())].clone();
            return json!(format!("#{d}/{w}"));
        }
        let h = match code {
            "igp" => "oracle".to_string(),
            "rhook" => self.rng.pick(&["fee0", "fee1", "igp", "hp0", "hp1", "phook", "merkle", "ahook0"]).to_string(),
            "rfhook" => self.rng.pick(&["fee0", "igp", "hp1", "rhook", "ahook0", "merkle"]).to_string(),
            _ => self.rng.pick(&["fee0", "fee1", "igp", "hp1", "rhook", "rfhook", "ahook0"]).to_string(),
        };
        let h = if self.rng.p(20) { self.hook_name() } else { h };
        json!(format!("@{h}"))
    }

    fn custom(&mut self, c: usize, with_hook: bool) -> Value {
        let d = self.any_dom();
        // the same recipient bytes may be registered under several domains
        let cc = if self.rng.p(350) { 0 } else { self.sim.chain_of(d).unwrap_or(0) };
        let r = match self.rng.below(10) {
            0..=5 => format!("#{cc}/{}", self.rng.pick(&["rc0", "rc1", "rc2"])),
            6 if self.rng.p(500) => self.near(cc),
            6 => format!("#{cc}/u:alice"),
            7 if with_hook => {
                let n = *self.rng.pick(&[20usize, 31, 33, 0]);
                hx(&self.rng.bytes(n))
            }
            _ => {
                let mut b = vec![0u8; 32];
                b[31] = self.rng.below(40) as u8;
                hx(&b)
            }
        };
        let mut o = json!({"dest_domain": d, "recipient": r});
        if with_hook {
            let h = *self.rng.pick(&["fee0", "fee1", "igp", "hp0", "hp1", "rfhook", "rhook", "merkle"]);
            o["hook"] = json!(format!("@{h}"));
        }
        let _ = c;
        o
    }

    fn config_msg(&mut self, c: usize, name: &str) -> Option<Value> {
        let code = self.code(c, name);
        Some(match code {
            "mailbox" => match self.rng.below(4) {
                0 | 1 => {
                    let i = if self.rng.p(self.prof.secure) { self.rng.pick(&["msism", "ms2", "ideal", "rism", "aism0"]).to_string() } else { self.ism_name() };
                    json!({"set_default_ism": {"ism": format!("@{i}")}})
                }
                2 => json!({"set_default_hook": {"hook": format!("@{}", self.hook_name())}}),
                _ => {
                    let h = if self.rng.p(600) { self.rng.pick(&["ahook0", "merkle"]).to_string() } else { self.hook_name() };
                    json!({"set_required_hook": {"hook": format!("@{h}")}})
                }
            },
            "msism" => {
                let d = if self.rng.p(850) { let x = self.chain(); self.dom(x) } else { self.any_dom() };
                if self.rng.p(150) {
                    json!({"unset_domain": {"domain": d}})
                } else {
                    let (v, mut t) = self.vset();
                    let mut vs = Self::vals(&v);
                    match self.rng.below(20) {
                        0 => t = 0,
                        1 => t = v.len() as u32 + 1,
                        2 => {
                            let n = *self.rng.pick(&[0usize, 19, 21, 32]);
                            vs.push(hx(&self.rng.bytes(n)));
                        }
                        3 => {
                            // somebody listed more than once, and perhaps a threshold nobody can reach
                            for _ in 0..1 + self.rng.us(2) {
                                let x = self.rng.pick(&vs).clone();
                                let at = self.rng.us(vs.len() + 1);
                                vs.insert(at, x);
                            }
                            if self.rng.p(500) {
                                t = self.rng.range(t as u64, vs.len() as u64) as u32;
                            }
                        }
                        4 => {
                            vs.clear();
                            t = self.rng.below(2) as u32;
                        }
                        5..=12 => vs = self.padded(&v),
                        _ => {}
                    }
                    json!({"set_validators": {"domain": d, "threshold": t, "validators": vs}})
                }
            }
            "aism" => {
                let pool: &[&str] = if name == "aism1" { &["msism", "pi0", "pi1", "pism", "ideal", "rism", "aism0", "ms2"] } else { &["msism", "pi0", "pi1", "pism", "ideal", "ms2"] };
                let n = self.rng.us(6);
                let mut l: Vec<String> = (0..n).map(|_| format!("@{}", self.rng.pick(pool))).collect();
                if self.rng.p(800) {
                    l.sort();
                    l.dedup();
                    self.rng.shuffle(&mut l);
                }
                let t = if self.rng.p(850) && !l.is_empty() { 1 + self.rng.below(l.len() as u64) } else { *self.rng.pick(&[0u64, l.len() as u64 + 1, 255]) };
                json!({"set_isms": {"isms": l, "threshold": t}})
            }
            "rism" => {
                let d = self.any_dom();
                if self.rng.p(300) {
                    let mut ds = vec![d];
                    while self.rng.p(400) {
                        ds.push(self.any_dom());
                    }
                    if self.rng.p(40) {
                        ds.clear();
                    }
                    json!({"unset": {"domains": ds}})
                } else {
                    let i = if self.rng.p(self.prof.secure) { self.rng.pick(&["msism", "ms2", "ideal"]).to_string() } else { self.rng.pick(&["msism", "ms2", "pi0", "pi1", "aism0", "pism", "ideal"]).to_string() };
                    json!({"set": {"ism": {"domain": d, "address": format!("@{i}")}}})
                }
            }
            "pism" | "phook" => {
                let p = if self.rng.p(500) { "pause" } else { "release" };
                json!({"pausable": {p: {}}})
            }
            "fee" => {
                let a = self.small();
                let d = *self.rng.pick(&["ugas", "ufee", "ugas", "uother", "ibc/0F3C"]);
                json!({"fee_hook": {"set_fee": {"fee": {"denom": d, "amount": a.to_string()}}}})
            }
            "ahook" => {
                let pool: &[&str] = if name == "ahook1" {
                    &["merkle", "fee0", "fee1", "phook", "igp", "hp0", "hp1", "rhook", "rfhook", "rchook"]
                } else {
                    &["fee0", "fee1", "phook", "igp", "hp0", "hp1"]
                };
                let n = if self.rng.p(40) { 5 + self.rng.us(30) } else { self.rng.us(4) };
                let mut l: Vec<String> = (0..n).map(|_| format!("@{}", self.rng.pick(pool))).collect();
                if !l.is_empty() && self.rng.p(80) {
                    let at = self.rng.us(l.len());
                    l.insert(at, l[at].clone());
                }
                if name == "ahook0" && self.rng.p(900) {
                    let at = self.rng.us(l.len() + 1);
                    l.insert(at, "@merkle".into());
                }
                json!({"set_hooks": {"hooks": l}})
            }
            "rhook" | "rchook" | "rfhook" | "igp" | "wnative" | "wcw20" if self.rng.p(if code == "igp" { 300 } else { 550 }) => {
                if self.rng.p(650) {
                    let d = self.any_dom();
                    let r = self.route_target(c, code);
                    let mut s = json!({ "domain": d });
                    if !r.is_null() || self.rng.p(500) {
                        s["route"] = r;
                    }
                    json!({"router": {"set_route": {"set": s}}})
                } else {
                    let n = self.many(15);
                    let mut l = vec![];
                    for _ in 0..n {
                        let d = self.any_dom();
                        let r = self.route_target(c, code);
                        l.push(json!({"domain": d, "route": r}));
                    }
                    json!({"router": {"set_routes": {"set": l}}})
                }
            }
            "rchook" => match self.rng.below(6) {
                0..=2 => json!({ "register_custom_hook": self.custom(c, true) }),
                3 => {
                    let n = self.many(14);
                    let l: Vec<Value> = (0..n).map(|_| self.custom(c, true)).collect();
                    json!({ "register_custom_hooks": l })
                }
                4 => {
                    let x = match self.existing_custom(c, name) {
                        Some(x) => x,
                        None => self.custom(c, false),
                    };
                    json!({ "clear_custom_hook": x })
                }
                _ => {
                    let mut l = vec![];
                    let n = if self.rng.p(700) { 1 + self.rng.us(2) } else { self.rng.us(7) };
                    if self.rng.p(250) {
                        // one recipient is cleared for one domain and kept for another that the batch also names
                        let a = self.sim.addr(c, name);
                        let all: Vec<(u32, Vec<u8>)> = self.sim.m.cm[c].get(&a).map(|k| k.custom.keys().cloned().collect()).unwrap_or_default();
                        if !all.is_empty() {
                            let (keep, r) = self.rng.pick(&all).clone();
                            let gone = all.iter().find(|x| x.1 == r && x.0 != keep).map(|x| x.0);
                            let other = all.iter().find(|x| x.0 == keep && x.1 != r).map(|x| hx(&x.1)).unwrap_or_else(|| hx(&[9; 32]));
                            if let Some(d) = gone {
                                l.push(json!({"dest_domain": keep, "recipient": other}));
                                l.push(json!({"dest_domain": d, "recipient": hx(&r)}));
                                if self.rng.p(400) {
                                    l.reverse();
                                }
                            }
                        }
                    }
                    for _ in 0..n {
                        if self.rng.p(120) {
                            l.push(self.custom(c, false));
                        } else if let Some(x) = self.existing_custom(c, name) {
                            l.push(x);
                        }
                    }
                    json!({ "clear_custom_hooks": l })
                }
            },
            "rfhook" => json!({"set_fallback_hook": {"hook": format!("@{}", self.rng.pick(&["fee0", "fee1", "hp0", "igp", "phook", "rhook"]))}}),
            "igp" => match self.rng.below(6) {
                0 => json!({"set_default_gas": {"gas": self.amount().to_string()}}),
                1..=2 => {
                    let n = self.many(14);
                    let mut l = vec![];
                    for _ in 0..n {
                        let d = self.any_dom();
                        l.push(json!([d, self.amount().to_string()]));
                    }
                    json!({"set_gas_for_domain": {"config": l}})
                }
                3..=4 => {
                    let n = if self.rng.p(800) { 1 + self.rng.us(2) } else { self.rng.us(8) };
                    let l: Vec<u32> = (0..n).map(|_| self.any_dom()).collect();
                    json!({"unset_gas_for_domain": {"domains": l}})
                }
                _ => {
                    let u = *self.rng.pick(&["u:ben", "u:ben2", "u:alice", "u:own", "u:own"]);
                    json!({"set_beneficiary": {"beneficiary": format!("@{u}")}})
                }
            },
            "oracle" => {
                let d = self.any_dom();
                let mut x = self.data_cfg(d);
                if self.rng.p(60) {
                    x["token_exchange_rate"] = json!("0");
                }
                if self.rng.p(500) {
                    json!({"set_remote_gas_data": {"config": x}})
                } else {
                    let mut l = vec![x];
                    for _ in 1..self.many(14) {
                        let d = self.any_dom();
                        l.push(self.data_cfg(d));
                    }
                    self.rng.shuffle(&mut l);
                    json!({"set_remote_gas_data_configs": {"configs": l}})
                }
            }
            "wnative" | "wcw20" => {
                let i = if self.rng.p(self.prof.secure) { "ideal".to_string() } else { self.ism_name() };
                if self.rng.p(60) {
                    // any address will do, the one in the other place too
                    let a = self.sim.addr(c, name);
                    let k = self.sim.m.cm[c].get(&a);
                    let (h, i) = (k.and_then(|k| k.whook.clone()), k.and_then(|k| k.wism.clone()));
                    let any = format!("@{}", self.any_name());
                    return Some(if self.rng.p(500) {
                        json!({"connection": {"set_ism": {"ism": h.filter(|_| self.rng.p(700)).unwrap_or(any)}}})
                    } else {
                        json!({"connection": {"set_hook": {"hook": i.filter(|_| self.rng.p(700)).unwrap_or(any)}}})
                    });
                }
                match self.rng.below(5) {
                    0 | 1 => json!({"connection": {"set_ism": {"ism": format!("@{i}")}}}),
                    2 if self.rng.p(150) => json!({"connection": {"set_mailbox": {"mailbox": "@mb"}}}),
                    _ => json!({"connection": {"set_hook": {"hook": format!("@{}", self.hook_name())}}}),
                }
            }
            _ => return None,
        })
    }

    fn any_name(&mut self) -> String {
        match self.rng.below(4) {
            0 => self.ism_name(),
            1 => self.hook_name(),
            2 => self.user(),
            _ => self.rng.pick(&["mb", "va", "rc0", "bat", "igp", "oracle"]).to_string(),
        }
    }

    /// The length of a batch: small, or larger than any page.
    fn many(&mut self, wide: usize) -> usize {
        match (self.prof.ndom > 20, self.rng.p(50)) {
            (true, false) => 1 + self.rng.us(wide),
            (false, false) => 1 + self.rng.us(3),
            _ => 10 + self.rng.us(50),
        }
    }

    fn existing_custom(&mut self, c: usize, name: &str) -> Option<Value> {
        let a = self.sim.addr(c, name);
        let l: Vec<(u32, Vec<u8>)> = self.sim.m.cm[c].get(&a)?.custom.keys().cloned().collect();
        if l.is_empty() {
            return None;
        }
        let (d, r) = self.rng.pick(&l).clone();
        Some(json!({"dest_domain": d, "recipient": hx(&r)}))
    }

    fn config(&mut self, intrude: bool) {
        let c = self.chain();
        let codes = self.prof.cfg.clone();
        let codes: Vec<&str> = if intrude && self.rng.p(300) { ALLCFG.to_vec() } else { codes };
        let name = match self.target(c, &codes) {
            Some(n) => n,
            None => return,
        };
        let m = match self.config_msg(c, &name) {
            Some(m) => m,
            None => return,
        };
        let from = if intrude { self.intruder(c, &name) } else { self.owner_of(c, &name) };
        if intrude && self.rng.p(200) {
            // through a contract
            let call = json!({"to": format!("@{name}"), "msg": m, "reply": if self.rng.p(500) { "always" } else { "never" }});
            self.emit(tx(c, &from, "bat", json!({"run": {"calls": [call]}})));
            return;
        }
        let mut s = tx(c, &from, &name, m);
        s.oog = self.oog();
        if intrude {
            s.note = "intruder".into();
            if self.rng.p(80) {
                s.funds = self.coins();
            }
        }
        self.emit(s);
    }

    /// Someone who is not the owner: strangers, the nominee, former owners.
    fn intruder(&mut self, c: usize, name: &str) -> String {
        let a = self.sim.addr(c, name);
        let mut l: Vec<String> = vec!["u:attacker".into(), "u:alice".into()];
        if let Some(k) = self.sim.m.cm[c].get(&a) {
            for p in k.past.iter().chain(k.pending.iter()) {
                let n = self.known(c, p);
                l.push(n.clone());
                l.push(n);
            }
            if let Some(p) = &k.pending {
                l.push(self.known(c, p));
            }
        }
        l.push("u:own".into());
        l.push(name.to_string());
        let own = self.owner_of(c, name);
        let p = self.rng.pick(&l).clone();
        if p == own || p == *name {
            "u:attacker".into()
        } else {
            p
        }
    }

    fn ownership(&mut self) {
        let c = self.chain();
        let mut codes: Vec<&str> = ALLCFG.to_vec();
        codes.extend(["oracle", "igp", "mailbox"]);
        let name = if self.rng.p(600) {
            // stay with few contracts so that histories get long
            let l = ["mb", "oracle", "igp", "msism", "fee0", "rism", "rchook", "ahook0", "pism", "phook", "aism0", "rhook", "rfhook"];
            l[(self.limit + self.rng.us(3)) % l.len()].to_string()
        } else {
            match self.target(c, &codes) {
                Some(n) => n,
                None => return,
            }
        };
        let a = self.sim.addr(c, &name);
        let k = match self.sim.m.cm[c].get(&a) {
            Some(k) => k.clone(),
            None => return,
        };
        let owner = self.owner_of(c, &name);
        let pend = k.pending.as_ref().map(|p| self.known(c, p));
        let msg = match self.rng.below(10) {
            0..=3 => {
                let n = *self.rng.pick(&["u:nom", "u:alice", "u:bob", "w:dave", "u:own", "u:attacker"]);
                let n = if self.rng.p(60) { owner.clone() } else { n.to_string() };
                json!({"init_ownership_transfer": {"next_owner": format!("@{n}")}})
            }
            4..=5 => json!({"revoke_ownership_transfer": {}}),
            _ => json!({"claim_ownership": {}}),
        };
        let is_claim = msg.get("claim_ownership").is_some();
        let from = match self.rng.below(10) {
            0..=6 => {
                if is_claim {
                    pend.clone().unwrap_or(owner)
                } else {
                    owner
                }
            }
            7 => pend.clone().unwrap_or_else(|| "u:nom".into()),
            8 => match k.past.iter().next() {
                Some(p) => self.known(c, p),
                None => "u:attacker".into(),
            },
            _ => self.user(),
        };
        let key = if k.code == "oracle" { "ownership" } else { "ownable" };
        let mut s = tx(c, &from, &name, json!({ key: msg }));
        s.oog = self.oog();
        self.emit(s);
    }

    fn some_msg(&mut self, c: usize) -> Value {
        // an encoded message: the latest of this chain, some real one, or an invented one
        let mine: Vec<usize> = (0..self.sim.disp.len()).filter(|i| self.sim.disp[*i].c == c && self.sim.disp[*i].tag > 0).collect();
        match self.rng.below(6) {
            0..=1 if !mine.is_empty() => self.mref(*mine.last().unwrap()),
            2 if !mine.is_empty() => {
                let i = *self.rng.pick(&mine);
                self.mref(i)
            }
            3 => match self.any_disp() {
                Some(i) => self.mref(i),
                None => self.forged(c),
            },
            _ => {
                let dc = self.chain();
                let d = if self.rng.p(700) { self.dom(dc) } else { self.any_dom() };
                let r = format!("#{dc}/{}", self.rng.pick(&["rc0", "rc1", "rc2"]));
                let u = self.user();
                json!({"$mk": {"version": 3, "nonce": self.rng.below(9), "origin": self.dom(c), "sender": format!("#{c}/{u}"), "dest": d, "recipient": r, "body": self.body()}})
            }
        }
    }

    fn direct_hook(&mut self) {
        let c = self.chain();
        let names: &[&str] = &["merkle", "fee0", "fee1", "phook", "igp", "rhook", "rchook", "rfhook", "ahook0", "ahook1"];
        let pref: Vec<&str> = names.iter().cloned().filter(|n| self.prof.cfg.len() < 6 && self.prof.cfg.contains(&self.code(c, n))).collect();
        let name = if !pref.is_empty() && self.rng.p(700) { self.rng.pick(&pref).to_string() } else { self.rng.pick(names).to_string() };
        let m = self.some_msg(c);
        let md = match self.metadata(c) {
            Value::Null => json!(""),
            x => x,
        };
        let a = self.sim.addr(c, &name);
        let mut funds = self.coins();
        // often exactly what it asks for, or one off
        if self.rng.p(650) {
            let r = self.sim.resolve(c, &json!({"m": m, "d": md}));
            if let Some(v) = r {
                if let Ok(q) = self.sim.chains[c].query(&a, &json!({"hook": {"quote_dispatch": {"metadata": v["d"], "message": v["m"]}}})) {
                    let off = *self.rng.pick(&[0i64, 0, 0, 1, -1, 7]);
                    funds = coins_json(garr(&q, "fees")).into_iter().map(|(d, x)| ((x.min(1 << 120) as i128 + off as i128).max(0).to_string(), d)).collect();
                    if self.rng.p(80) {
                        funds.push(("1".into(), "uother".into()));
                    }
                }
            }
        }
        let u = self.user();
        let mut s = tx(c, &u, &name, json!({"post_dispatch": {"metadata": md, "message": m}}));
        s.funds = funds;
        s.oog = self.oog();
        self.emit(s);
    }

    fn pay(&mut self) {
        let c = self.chain();
        let d = self.any_dom();
        let g = if self.rng.p(150) { self.gas() } else { self.rng.below(1_000_000).to_string() };
        let a = self.sim.addr(c, "igp");
        let mut funds = self.coins();
        if self.rng.p(800) {
            if let Ok(q) = self.sim.chains[c].query(&a, &json!({"igp": {"quote_gas_payment": {"dest_domain": d, "gas_amount": g}}})) {
                let x = gu(&q, "gas_needed").min(1 << 101) as i128;
                let off = *self.rng.pick(&[0i128, 0, 1, -1, 1000, -x, x]);
                if x < 1 << 100 {
                    funds = vec![((x + off).max(0).to_string(), "ugas".into())];
                }
                if self.rng.p(100) {
                    funds.push(("5".into(), "ufee".into()));
                }
            }
        }
        let u = self.user();
        let r = match self.rng.below(6) {
            0 => "igp".to_string(),
            1 => "rc0".into(),
            2 => "z:erin".into(),
            3 => u.clone(),
            4 => self.rng.pick(&["u:own", "u:ben", "mb", "oracle"]).to_string(),
            _ => "w:refund".into(),
        };
        let r = if r == "igp" { "u:refund".to_string() } else { r };
        let mid = hx(&self.rng.bytes(32));
        let mut s = tx(c, &u, "igp", json!({"pay_for_gas": {"message_id": mid, "dest_domain": d, "gas_amount": g, "refund_address": format!("@{r}")}}));
        s.funds = funds;
        s.oog = self.oog();
        self.emit(s);
    }

    fn transfer(&mut self) {
        if self.links.is_empty() {
            return self.dispatch();
        }
        let l = self.links[self.rng.us(self.links.len())].clone();
        let (c, w) = l[self.rng.us(l.len())].clone();
        if self.cut[c] {
            return;
        }
        let mut dc = l[self.rng.us(l.len())].0;
        if dc == c {
            dc = l[(l.iter().position(|x| x.0 == c).unwrap() + 1) % l.len()].0;
        }
        let k = match self.sim.m.cm[c].get(&self.sim.addr(c, &w)) {
            Some(k) => k.clone(),
            None => return,
        };
        let native = k.code == "wnative";
        let u = self.user();
        let ua = self.sim.addr(c, &u);
        let bal = if native { self.sim.chains[c].bal(&ua, &k.token) } else { self.sim.cw20_bal(c, &k.token, &ua) };
        let amt = if k.bridged && bal > 0 && self.rng.p(850) {
            match self.rng.below(5) {
                0 => bal,
                1 => 1,
                2 => bal.saturating_add(1),
                3 => ((1u128 << self.rng.below(100)) - 1).clamp(1, bal),
                _ => 1 + (self.rng.u64() as u128) % bal,
            }
        } else {
            self.amount().max(if self.rng.p(900) { 1 } else { 0 })
        };
        let dd = if self.rng.p(930) { self.dom(dc) } else { self.any_dom() };
        let ru = self.user();
        let r = match self.rng.below(20) {
            0 => {
                let n = *self.rng.pick(&[20usize, 0, 31, 33, 52]);
                hx(&self.rng.bytes(n))
            }
            1 => format!("#{dc}/rc0"),
            2 => hx(&self.rng.bytes(32)),
            3 => self.near(dc),
            _ => format!("#{dc}/{ru}"),
        };
        if !native {
            if k.token.is_empty() {
                return;
            }
            let tok = if k.bridged { format!("{w}.0") } else { "tok".to_string() };
            if k.bridged && self.rng.p(900) {
                self.emit(tx(c, &u, &tok, json!({"increase_allowance": {"spender": format!("@{w}"), "amount": amt.to_string()}})));
            } else if self.rng.p(30) {
                let to = if self.rng.p(500) { "u:bob".to_string() } else { w.clone() };
                let a = self.small();
                self.emit(tx(c, &u, &tok, json!({"transfer": {"recipient": format!("@{to}"), "amount": a.to_string()}})));
            }
        }
        let md = self.metadata(c);
        let hook = if self.rng.p(200) { json!(format!("@{}", self.hook_name())) } else { Value::Null };
        let mut a = json!({"dest_domain": dd, "recipient": r, "amount": amt.to_string()});
        if !hook.is_null() {
            a["hook"] = hook.clone();
        }
        if !md.is_null() {
            a["metadata"] = md.clone();
        }
        let mut s = tx(c, &u, &w, json!({ "transfer_remote": a }));
        s.tag = self.next_tag();
        if native && self.rng.p(960) {
            let d = if k.bridged { format!("f:{w}:brd") } else { k.token.clone() };
            s.funds.push((amt.to_string(), d));
        }
        if self.rng.p(930) {
            let rt = k.routes.get(&dd).cloned().flatten().unwrap_or_default();
            let eff = if hook.is_null() { k.whook.clone().map(|h| json!(h)).unwrap_or(Value::Null) } else { hook };
            let mut q = json!({"mb": "@mb", "sender": format!("@{w}"), "dest_domain": dd, "recipient_addr": rt, "msg_body": {"$cat": [r, {"$u256": amt.to_string()}]}});
            if !eff.is_null() {
                q["hook"] = eff;
            }
            if !md.is_null() {
                q["metadata"] = md;
            }
            s.q = q;
            if self.rng.p(120) {
                let mut f = self.coins();
                f.retain(|x| !s.funds.iter().any(|y| y.1 == x.1));
                s.funds.extend(f);
            }
        }
        s.oog = self.oog();
        self.emit(s);
    }

    fn warp_forge(&mut self) {
        if !self.solo.is_empty() && self.rng.p(500) {
            return self.solo_handle();
        }
        if self.links.is_empty() {
            return;
        }
        let l = self.links[self.rng.us(self.links.len())].clone();
        let (c, w) = l[self.rng.us(l.len())].clone();
        let (oc, ow) = l[self.rng.us(l.len())].clone();
        let sender = match self.rng.below(4) {
            0 => hx(&self.rng.bytes(32)),
            3 => "00".repeat(32),
            1 => {
                let mut b = pad32(&self.sim.raw(oc, &ow)).to_vec();
                let i = if self.rng.p(500) { self.rng.us(12) } else { self.rng.us(32) };
                b[i] ^= 1 + self.rng.below(255) as u8;
                hx(&b)
            }
            _ => format!("#{oc}/{ow}"),
        };
        let od = match self.rng.below(20) {
            0..=15 => self.dom(oc),
            16 => {
                let x = self.dom(oc);
                rel_dom(&mut self.rng, x)
            }
            _ => self.any_dom(),
        };
        let body = self.warp_body(c);
        match self.rng.below(3) {
            0 => {
                // straight at the route, pretending to be a mailbox
                let from = if self.rng.p(500) { "u:attacker".to_string() } else { self.owner_of(c, &w) };
                self.emit(tx(c, &from, &w, json!({"handle": {"origin": od, "sender": sender, "body": body}})));
            }
            1 => {
                let call = json!({"to": format!("@{w}"), "msg": {"handle": {"origin": od, "sender": sender, "body": body}}, "reply": "always"});
                self.emit(tx(c, "u:attacker", "bat", json!({"run": {"calls": [call]}})));
            }
            _ => {
                // a real message to the route from an account that is not the enrolled one
                let u = self.user();
                let dd = self.dom(c);
                let d = json!({"dest_domain": dd, "recipient_addr": format!("#{c}/{w}"), "msg_body": body});
                let mut q = d.clone();
                q["mb"] = json!("@mb");
                q["sender"] = json!(format!("@{u}"));
                let mut s = tx(oc, &u, "mb", json!({ "dispatch": d }));
                s.q = q;
                s.tag = self.next_tag();
                self.emit(s);
            }
        }
    }

    fn announce(&mut self) {
        let c = self.chain();
        // one validator moves around more than the others
        let v = if self.rng.p(self.prof.mover) { 1 } else { *self.rng.pick(&[0u64, 1, 2, 3, 4, 7, 8, 9]) };
        let mut loc = format!("s3://{}", self.rng.pick(&["a", "b", "bucket/c", "d", "", "aa", "e", "f"]));
        if self.rng.p(self.prof.mover) || self.herd == 2 {
            loc = format!("s3://{}", self.rng.below(200));
        }
        let (c, v) = match self.herd {
            1 if self.rng.p(900) => (0, self.rng.below(NVAL as u64)),
            2 if self.rng.p(900) => (0, 2),
            _ => (c, v),
        };
        if self.rng.p(350) {
            // close relatives of a location are different locations
            loc = match self.rng.below(14) {
                0 => format!("{loc}/"),
                1 => format!("{loc} "),
                2 => format!(" {loc}"),
                3 => loc.to_uppercase(),
                4 => format!("{loc}{}", &loc[5..]),
                5 => format!("{loc}\u{0}"),
                6 => {
                    let n = if self.rng.p(200) { 1100 } else { 40 + self.rng.us(30) };
                    format!("{loc}/{}", "long".repeat(n))
                }
                7 => format!("{loc}\u{e9}\u{4e2d}"),
                8 => String::new(),
                9 => format!("{loc}%2F"),
                10 => format!("{loc}\n"),
                11 => loc.replace("s3://", "S3://"),
                12 => loc.replace("s3://", "file:///"),
                _ => loc[..loc.len() - 1].to_string(),
            };
        }
        let mut ann = json!({"v": v, "mb": "%mb", "loc": loc});
        let mut claimed = v;
        match self.rng.below(14) {
            0 => ann["mut"] = json!("neg"),
            1 => {
                ann["mut"] = json!("flip");
                ann["at"] = json!(self.rng.below(65536));
            }
            2 => {
                ann["mut"] = json!(self.rng.pick(&["v", "v", "short", "long"]));
                ann["at"] = json!(self.rng.below(65536));
            }
            3 => ann["dom"] = json!(self.any_dom()),
            4 => {
                let o = (c + 1) % self.nc();
                ann["mb"] = json!(format!("%{o}/mb"));
            }
            5 => ann["loc"] = json!("s3://x"),
            6 => claimed = *self.rng.pick(&[0u64, 1, 2, 3, 4, 7, 8, 9]),
            _ => {}
        }
        let val = match self.rng.below(25) {
            0 => {
                let n = *self.rng.pick(&[0usize, 19, 21, 32]);
                json!(hx(&self.rng.bytes(n)))
            }
            _ => json!(format!("!{claimed}")),
        };
        let u = self.user();
        let mut s = tx(c, &u, "va", json!({"announce": {"validator": val, "signature": {"$ann": ann}, "storage_location": loc}}));
        s.oog = self.oog();
        self.emit(s);
    }

    fn verify(&mut self) {
        let c = self.chain();
        let mut pref: Vec<&str> = ISMN.iter().cloned().filter(|n| self.prof.cfg.len() < 6 && self.prof.cfg.contains(&self.code(c, n))).collect();
        if pref.is_empty() {
            pref = ISMN.to_vec();
        }
        let name = self.rng.pick(&pref).to_string();
        let m = if self.rng.p(600) {
            match self.any_disp() {
                Some(i) => self.mref(i),
                None => self.forged(c),
            }
        } else {
            self.forged(c)
        };
        let code = self.code(c, &name);
        let msg = match self.rng.below(12) {
            0 => json!({"ism": {"verify_info": {"message": m}}}),
            1 if code == "rism" => json!({"routing_ism": {"route": {"message": m}}}),
            2 if code == "msism" => json!({"multisig_ism": {"enrolled_validators": {"domain": self.any_dom()}}}),
            _ => {
                let mode = self.mode();
                let seed = self.rng.u64() & 0xffff_ffff;
                let mut me = json!({"m": m, "ism": format!("@{name}"), "mode": mode, "s": seed, "probe": 1});
                if self.rng.p(120) {
                    me["flip"] = json!(self.rng.below(1 << 20));
                }
                json!({"ism": {"verify": {"metadata": {"$meta": me}, "message": m}}})
            }
        };
        self.emit(Step { k: "q".into(), c, to: name, msg, ..Default::default() });
    }

    fn quote(&mut self) {
        let c = self.chain();
        if self.rng.p(300) {
            let u = self.user();
            let d = self.dispatch_args(c);
            self.emit(Step { k: "q".into(), c, to: "mb".into(), msg: json!({"hook": {"quote_dispatch": {"sender": format!("@{u}"), "msg": d}}}), ..Default::default() });
            return;
        }
        if self.rng.p(250) {
            let d = self.any_dom();
            let g = self.gas();
            let msg = match self.rng.below(3) {
                0 => {
                    let a = self.sim.addr(c, "igp");
                    let all: Vec<u32> = self.sim.m.cm[c].get(&a).map(|k| k.gas.keys().cloned().collect()).unwrap_or_default();
                    let mut l = vec![d];
                    if !all.is_empty() && self.rng.p(700) {
                        // several known ones in any order, perhaps repeated, perhaps all of them
                        l = match self.rng.p(300) {
                            true => all.clone(),
                            false => (0..2 + self.rng.us(5)).map(|_| *self.rng.pick(&all)).collect(),
                        };
                        if self.rng.p(500) {
                            self.rng.shuffle(&mut l);
                        }
                        if self.rng.p(100) {
                            l.push(d);
                        }
                    }
                    json!({"igp": {"gas_for_domain": {"domains": l}}})
                }
                1 => json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": d}}}),
                _ => json!({"igp": {"quote_gas_payment": {"dest_domain": d, "gas_amount": g}}}),
            };
            self.emit(Step { k: "q".into(), c, to: "igp".into(), msg, ..Default::default() });
            return;
        }
        let name = self.hook_name();
        if self.code(c, &name) == "puppet" {
            return;
        }
        let m = self.some_msg(c);
        let md = match self.metadata(c) {
            Value::Null => json!(""),
            x => x,
        };
        self.emit(Step { k: "q".into(), c, to: name, msg: json!({"hook": {"quote_dispatch": {"metadata": md, "message": m}}}), ..Default::default() });
    }

    fn list(&mut self) {
        let c = self.chain();
        let name = match self.target(c, &["rhook", "rchook", "rfhook", "igp", "wnative", "wcw20", "rchook", "igp"]) {
            Some(n) => n,
            None => return,
        };
        if self.rng.p(350) {
            let l = *self.rng.pick(&[1u64, 2, 3, 7, 10, 29, 30]);
            self.emit(Step { k: "walk".into(), c, to: name, msg: json!({ "limit": l }), ..Default::default() });
            return;
        }
        let mut a = json!({});
        if self.rng.p(700) {
            a["limit"] = json!(*self.rng.pick(&[0u64, 1, 2, 5, 9, 10, 11, 29, 30, 31, 100, 257, 65546, u32::MAX as u64]));
        }
        if self.rng.p(600) {
            a["order"] = json!(*self.rng.pick(&["asc", "desc"]));
        }
        let code = self.code(c, &name);
        let d = self.any_dom();
        let d = if self.rng.p(250) { d.wrapping_add(1) } else { d };
        let msg = match (code, self.rng.below(3)) {
            ("igp", 0) => {
                if self.rng.p(600) {
                    a["offset"] = json!(d);
                }
                json!({"igp": {"list_gas_for_domains": a}})
            }
            ("rchook", 0 | 1) => {
                a["dest_domain"] = json!(d);
                if self.rng.p(500) {
                    let mut b = vec![0u8; 32];
                    b[31] = self.rng.below(40) as u8;
                    a["offset"] = json!(hx(&b));
                }
                json!({"custom_routing_hook": {"custom_hooks": a}})
            }
            _ => {
                if self.rng.p(600) {
                    a["offset"] = json!(d);
                }
                match self.rng.below(5) {
                    0 => json!({"router": {"domains": {}}}),
                    1 => json!({"router": {"get_route": {"domain": d}}}),
                    _ => json!({"router": {"list_routes": a}}),
                }
            }
        };
        self.emit(Step { k: "q".into(), c, to: name, msg, ..Default::default() });
    }

    fn upgrade(&mut self) {
        let c = self.chain();
        let mut codes = ALLCFG.to_vec();
        codes.extend(["merkle", "va", "mailbox", "wnative", "wcw20"]);
        let name = match self.target(c, &codes) {
            Some(n) => n,
            None => return,
        };
        let mut m = json!({});
        match self.rng.below(14) {
            0 => {}
            1 => m["old"] = json!("0.0.8"),
            2 => m["old"] = json!(*self.rng.pick(&["1.0.0", "0.1.0", "0.0.10", "10.0.0", "0.0.9", "0.1.6"])),
            3 => m["old"] = json!("0.0.7-rc.1"),
            4 | 5 => {
                // the record of some other contract, perhaps one with a similar name
                m["nameop"] = json!(*self.rng.pick(&["someone-else", "scope", "slash", "dash", "tail", "head", "upper", "space", "crates", "empty", "swap", "under"]));
                m["old"] = json!(*self.rng.pick(&["0.0.5", "0.0.6", "0.0.0"]));
            }
            6 => m["old"] = json!("0.0.6-rc5"),
            7 => {
                let (x, y, z) = (self.rng.below(2), self.rng.below(2), self.rng.below(12));
                let rc = if self.rng.p(400) { format!("-rc{}", self.rng.below(10)) } else { String::new() };
                m["old"] = json!(format!("{x}.{y}.{z}{rc}"));
            }
            8 if self.rng.p(300) => m["old"] = json!(*self.rng.pick(&["", "1", "v0.0.5", "0.0", "0.0.x", "0.0.5 "])),
            _ => m["old"] = json!(*self.rng.pick(&["0.0.6", "0.0.5", "0.0.1", "0.0.0", "0.0.6-rc0"])),
        }
        self.emit(Step { k: "mig".into(), c, to: name.clone(), msg: m, ..Default::default() });
        if self.rng.p(600) {
            self.exercise(c, &name);
        }
    }

    /// Uses what was just upgraded, above all in ways that depend on what it should remember.
    fn exercise(&mut self, c: usize, name: &str) {
        let code = self.code(c, name);
        let n = 1 + self.rng.us(3);
        for _ in 0..n {
            match code {
                "va" | "mailbox" if self.rng.p(700) => {
                    // the same call again
                    let key = if code == "va" { "announce" } else { "process" };
                    let old: Vec<usize> = (0..self.steps.len())
                        .filter(|i| {
                            let s = &self.steps[*i];
                            s.c == c && s.k == "tx" && s.to == name && s.msg.get(key).is_some()
                        })
                        .collect();
                    if !old.is_empty() {
                        let mut s = self.steps[*self.rng.pick(&old)].clone();
                        s.oog = None;
                        s.from = self.user();
                        s.note = "again after an upgrade".into();
                        self.emit(s);
                    }
                }
                "va" => self.announce(),
                "mailbox" => {
                    let a = *self.rng.pick(&[Dispatch, Redeliver]);
                    self.act(a)
                }
                "msism" | "aism" | "rism" | "pism" => self.act(Verify),
                "igp" | "oracle" => {
                    let a = *self.rng.pick(&[Pay, Quote, Hook, Claim]);
                    self.act(a)
                }
                "wnative" | "wcw20" => self.act(Warp),
                _ => {
                    let a = *self.rng.pick(&[Hook, Hook, Dispatch, Quote]);
                    self.act(a)
                }
            }
        }
    }

    /// A message call for scripts and batches.
    fn call(&mut self, c: usize, depth: u32) -> Value {
        let reply = *self.rng.pick(&["never", "always", "error", "always"]);
        let mut o = match self.rng.below(8) {
            0..=3 => {
                let m = match self.any_disp() {
                    Some(i) if self.rng.p(900) => self.mref(i),
                    _ => self.forged(c),
                };
                let s = self.rng.u64() & 0xffff;
                json!({"to": "@mb", "msg": {"process": {"metadata": {"$meta": {"m": m, "mode": "honest", "s": s}}, "message": m}}})
            }
            4..=5 => {
                let mut d = self.dispatch_args(c);
                if self.rng.p(80) {
                    // perhaps the dispatching contract itself
                    d["hook"] = json!(format!("@{}", self.rng.pick(&["bat", "rc0", "hp0"])));
                }
                let mut f = vec![];
                for x in ["ugas", "ufee"] {
                    if self.rng.p(600) {
                        f.push(json!({"denom": x, "amount": (self.rng.below(3000) + 1).to_string()}));
                    }
                }
                json!({"to": "@mb", "msg": {"dispatch": d}, "funds": f})
            }
            6 => {
                let d = self.any_dom();
                json!({"to": "@igp", "msg": {"pay_for_gas": {"message_id": "00", "dest_domain": d, "gas_amount": "1000", "refund_address": "@u:refund"}}, "funds": [{"denom": "ugas", "amount": (self.rng.below(3000) + 1).to_string()}]})
            }
            _ => {
                if depth > 1 {
                    json!({"to": "@rc0", "msg": {"noop": {}}})
                } else {
                    let k = 1 + self.rng.us(2);
                    let l: Vec<Value> = (0..k).map(|_| self.call(c, depth + 1)).collect();
                    json!({"to": "@bat", "msg": {"run": {"calls": l}}})
                }
            }
        };
        o["reply"] = json!(reply);
        if reply != "never" && self.rng.p(250) {
            // an inner gas limit the caller survives
            o["gas"] = json!(self.rng.range(5, 900));
            self.sim.fault("inner-gas-limit");
        }
        o
    }

    fn batch(&mut self) {
        let c = self.chain();
        let n = 1 + self.rng.us(4);
        let mut l: Vec<Value> = (0..n).map(|_| self.call(c, 0)).collect();
        if self.rng.p(350) && !l.is_empty() {
            let x = self.rng.pick(&l).clone();
            l.push(x);
        }
        let u = self.user();
        let mut s = tx(c, &u, "bat", json!({"run": {"calls": l}}));
        s.tag = self.next_tag();
        s.oog = self.oog();
        self.emit(s);
    }

    /// Recipients and third-party hooks start or stop misbehaving.
    fn recipients(&mut self) {
        let c = self.chain();
        if self.rng.p(200) {
            let h = *self.rng.pick(&["hp0", "hp1"]);
            let v = match self.rng.below(6) {
                0 => json!({"hook": "fail"}),
                1 => json!({"quote": "err"}),
                2 => {
                    let l = vec![self.call(c, 1)];
                    json!({"on": "post_dispatch", "times": 1, "script": l, "hook": "ok", "quote": "ok"})
                }
                3 => json!({"price": self.rng.p(600)}),
                _ => json!({"hook": "ok", "quote": "ok", "times": 0}),
            };
            self.sim.fault("third-party-hook-change");
            self.emit(tx(c, "u:own", h, json!({ "set": v })));
            return;
        }
        let r = *self.rng.pick(&["rc0", "rc1", "rc2"]);
        let v = match self.rng.below(10) {
            0 => json!({"handle": "fail"}),
            1 => json!({"handle": *self.rng.pick(&["panic", "oog"])}),
            2 => {
                let own = self.rng.p(250);
                match (own, self.rng.p(self.prof.secure)) {
                    // a recipient may well judge for itself, or leave it to whoever relays
                    (true, true) => json!({"ism": format!("@{r}"), "verdict": "no"}),
                    (true, false) if self.rng.p(500) => json!({"ism": format!("@{r}"), "verdict": *self.rng.pick(&["yes", "meta", "no"])}),
                    (true, false) => {
                        self.judge = true;
                        json!({"ism": "@bat"})
                    }
                    (false, true) => {
                        let i = *self.rng.pick(&["msism", "ms2", "rism", "ideal"]);
                        json!({"ism": format!("@{i}")})
                    }
                    (false, false) => json!({"ism": format!("@{}", self.ism_name())}),
                }
            }
            3 => json!({ "ism": null }),
            4 => json!({"ism": "err"}),
            5 | 6 => {
                let k = 1 + self.rng.us(2);
                let l: Vec<Value> = (0..k).map(|_| self.call(c, 0)).collect();
                json!({"on": "handle", "times": 1 + self.rng.below(2), "script": l, "handle": "ok"})
            }
            _ => json!({"handle": "ok", "times": 0}),
        };
        self.sim.fault("recipient-change");
        self.emit(tx(c, "u:own", r, json!({ "set": v })));
    }

    /// A long history before the interesting part: thousands of leaves, or many registry entries.
    fn crowd(&mut self) {
        let c = self.chain();
        let n = self.rng.range(100, 1500);
        self.own(c, "mb", json!({"set_required_hook": {"hook": "@merkle"}}));
        for i in 0..n {
            let mut s = tx(c, "u:alice", "mb", json!({"dispatch": {"dest_domain": 77, "recipient_addr": "11".repeat(32), "msg_body": "", "hook": "@hp0"}}));
            s.funds = vec![("60".into(), "ugas".into()), ("60".into(), "ufee".into())];
            let _ = i;
            s.tag = 0;
            if self.failed() {
                return;
            }
            self.emit(s);
        }
        let h = if self.rng.p(700) { "ahook0" } else { "merkle" };
        self.own(c, "mb", json!({"set_required_hook": {"hook": format!("@{h}")}}));
    }

    /// Faults stop: everybody repairs what is theirs, then an honest relayer delivers.
    fn quiet(&mut self) {
        for v in self.sim.m.down.clone() {
            self.emit(Step { k: "down".into(), msg: json!({ "v": v }), flag: false, ..Default::default() });
        }
        for c in 0..self.nc() {
            for r in ["rc0", "rc1", "rc2"] {
                self.emit(tx(c, "u:own", r, json!({"set": {"handle": "ok", "times": 0, "ism": null}})));
            }
            for h in ["hp0", "hp1"] {
                self.emit(tx(c, "u:own", h, json!({"set": {"hook": "ok", "times": 0, "quote": "ok"}})));
            }
            for p in ["pism", "phook"] {
                let paused = self.sim.m.cm[c].get(&self.sim.addr(c, p)).map(|k| k.paused).unwrap_or(false);
                if paused {
                    self.own(c, p, json!({"pausable": {"release": {}}}));
                }
            }
            for d in 0..self.nc() {
                let dom = self.dom(d);
                let set = self.sim.m.cm[c].get(&self.sim.addr(c, "msism")).and_then(|k| k.sets.get(&dom).cloned());
                let distinct = set.as_ref().map(|(_, l)| l.iter().collect::<BTreeSet<_>>().len()).unwrap_or(0);
                if set.is_none() || (distinct as u128) < set.as_ref().unwrap().0 {
                    let (v, t) = self.vset();
                    self.own(c, "msism", json!({"set_validators": {"domain": dom, "threshold": t, "validators": Self::vals(&v)}}));
                }
            }
            if self.rng.p(500) {
                self.own(c, "mb", json!({"set_default_ism": {"ism": "@msism"}}));
            } else if self.rng.p(300) {
                self.own(c, "mb", json!({"set_default_ism": {"ism": "@rism"}}));
            }
        }
        self.emit(Step { k: "sweep".into(), from: "u:relay9".into(), ..Default::default() });
        // the system still works for newcomers
        let from = self.sim.disp.len();
        for c in 0..self.nc() {
            let dc = (c + 1) % self.nc();
            let d = json!({"dest_domain": self.dom(dc), "recipient_addr": format!("#{dc}/rc0"), "msg_body": "abcd"});
            let mut q = d.clone();
            q["mb"] = json!("@mb");
            q["sender"] = json!("@u:bob");
            let mut s = tx(c, "u:bob", "mb", json!({ "dispatch": d }));
            s.q = q;
            s.tag = self.next_tag();
            self.emit(s);
        }
        if self.sim.disp.len() > from {
            self.emit(Step { k: "sweep".into(), from: "u:relay9".into(), ..Default::default() });
        }
    }
}
