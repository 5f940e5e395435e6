//! A simulated CosmWasm chain: the runtime around the real contracts.
//! Everything the contracts can observe (storage, querier, api, block, funds, submessages, gas) is here.
use crate::stubs;
use crate::util::*;
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_json, to_json_vec, Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, CanonicalAddr, Coin,
    ContractInfo, ContractResult, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Order, Querier,
    QuerierResult, QuerierWrapper, QueryRequest, RecoverPubkeyError, Record, Reply, ReplyOn, Response,
    StdError, StdResult, Storage, SubMsg, SubMsgResponse, SubMsgResult, SystemError, SystemResult,
    Timestamp, TransactionInfo, Uint128, VerificationError, WasmMsg, WasmQuery,
};
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Panic payload used for gas exhaustion.
pub struct Oog;

type InstFn = fn(DepsMut, Env, MessageInfo, &[u8]) -> Result<Response, String>;
type QueryFn = fn(Deps, Env, &[u8]) -> Result<Binary, String>;
type ReplyFn = fn(DepsMut, Env, Reply) -> Result<Response, String>;
type MigFn = fn(DepsMut, Env, &[u8]) -> Result<Response, String>;

pub struct CodeDef {
    pub name: &'static str,
    pub inst: InstFn,
    pub exec: InstFn,
    pub query: QueryFn,
    pub reply: Option<ReplyFn>,
    pub mig: Option<MigFn>,
}

macro_rules! code {
    ($name:expr, $($p:ident)::+, $reply:expr, $mig:expr) => {
        CodeDef {
            name: $name,
            inst: |d, e, i, m| { let m = from_json(m).map_err(|e| e.to_string())?; $($p)::+::instantiate(d, e, i, m).map_err(|e| e.to_string()) },
            exec: |d, e, i, m| { let m = from_json(m).map_err(|e| e.to_string())?; $($p)::+::execute(d, e, i, m).map_err(|e| e.to_string()) },
            query: |d, e, m| { let m = from_json(m).map_err(|e| e.to_string())?; $($p)::+::query(d, e, m).map_err(|e| e.to_string()) },
            reply: $reply,
            mig: $mig,
        }
    };
    ($name:expr, $($p:ident)::+) => {
        code!($name, $($p)::+, None, Some(|d, e, m| { let m: Empty = from_json(m).map_err(|e| e.to_string())?; $($p)::+::migrate(d, e, m).map_err(|e| e.to_string()) }))
    };
    ($name:expr, $($p:ident)::+, reply) => {
        code!($name, $($p)::+, Some(|d, e, r| $($p)::+::reply(d, e, r).map_err(|e| e.to_string())),
            Some(|d, e, m| { let m: Empty = from_json(m).map_err(|e| e.to_string())?; $($p)::+::migrate(d, e, m).map_err(|e| e.to_string()) }))
    };
}

pub static CODES: &[CodeDef] = &[
    code!("puppet", stubs, Some(|d, e, r| stubs::reply(d, e, r).map_err(|e| e.to_string())), None),
    code!("cw20", cw20_base::contract, None, None),
    code!("mailbox", hpl_mailbox::contract),
    code!("va", hpl_validator_announce::contract),
    code!("merkle", hpl_hook_merkle),
    code!("fee", hpl_hook_fee),
    code!("phook", hpl_hook_pausable),
    code!("rhook", hpl_hook_routing),
    code!("rchook", hpl_hook_routing_custom),
    code!("rfhook", hpl_hook_routing_fallback),
    code!("ahook", hpl_hook_aggregate),
    code!("igp", hpl_igp::contract),
    code!("oracle", hpl_igp_oracle::contract),
    code!("msism", hpl_ism_multisig::contract),
    code!("aism", hpl_ism_aggregate),
    code!("rism", hpl_ism_routing::contract),
    code!("pism", hpl_ism_pausable),
    code!("wnative", hpl_warp_native::contract, reply),
    code!("wcw20", hpl_warp_cw20::contract, reply),
];

/// Contract addresses are 32 bytes on most chains and 20 on some.
pub fn contract_len(hrp: &str, h: &[u8]) -> usize {
    match hrp {
        "inj" => 20,
        "dual" if h[31] & 1 == 1 => 20,
        _ => 32,
    }
}

pub fn code_id(name: &str) -> usize {
    CODES.iter().position(|c| c.name == name).unwrap_or(usize::MAX)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Exec,
    Inst,
    Migrate,
    Reply,
    BankSend,
    BankBurn,
    TfCreate,
    TfMint,
    TfBurn,
    TfMeta,
    Other,
}

#[derive(Clone, Debug)]
pub struct QRec {
    pub to: String,
    pub msg: Value,
    pub res: Result<Vec<u8>, String>,
    pub sub: Vec<QRec>,
}

impl QRec {
    pub fn val(&self) -> Option<Value> {
        serde_json::from_slice(self.res.as_ref().ok()?).ok()
    }
}

/// One executed message and everything it caused, in execution order.
#[derive(Clone, Debug)]
pub struct Node {
    pub op: Op,
    pub from: String,
    pub to: String,
    pub code: &'static str,
    pub msg: Value,
    pub funds: Vec<(u128, String)>,
    pub ok: bool,
    pub oog: bool,
    pub err: String,
    pub events: Vec<(String, Vec<(String, String)>)>,
    pub data: Option<Vec<u8>>,
    pub queries: Vec<QRec>,
    pub kids: Vec<Node>,
}

impl Node {
    fn new(op: Op, from: &str, to: &str) -> Node {
        Node {
            op,
            from: from.to_string(),
            to: to.to_string(),
            code: "",
            msg: Value::Null,
            funds: vec![],
            ok: true,
            oog: false,
            err: String::new(),
            events: vec![],
            data: None,
            queries: vec![],
            kids: vec![],
        }
    }
    /// Committed nodes in execution order (failed subtrees are skipped).
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        if !self.ok {
            return;
        }
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
    /// All nodes, failed ones included.
    pub fn walk_all<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        for k in &self.kids {
            k.walk_all(f);
        }
    }
    pub fn key(&self) -> &str {
        match &self.msg {
            Value::Object(m) => m.keys().next().map(|s| s.as_str()).unwrap_or(""),
            Value::String(s) => s.as_str(),
            _ => "",
        }
    }
    /// One-line-per-node rendering for logs and traces.
    pub fn render(&self, ind: usize, out: &mut String) {
        use std::fmt::Write;
        let m = self.msg.to_string();
        let m: String = m.chars().take(420).collect();
        let f: Vec<String> = self.funds.iter().map(|(a, d)| format!("{a}{d}")).collect();
        let _ = writeln!(
            out,
            "{}{:?} {} -> {}[{}] {} funds=[{}] {}{}",
            "  ".repeat(ind),
            self.op,
            self.from,
            self.to,
            self.code,
            m,
            f.join(","),
            if self.ok { "OK" } else { "FAIL " },
            self.err.chars().take(160).collect::<String>()
        );
        for k in &self.kids {
            k.render(ind + 1, out)
        }
    }
}

#[derive(Clone, Debug)]
pub struct CInfo {
    pub idx: usize,
    pub code: usize,
    pub creator: String,
}

enum Undo {
    Kv(usize, Vec<u8>, Option<Vec<u8>>),
    Bank(String, String, Option<u128>),
    Supply(String, Option<u128>),
    Contract(String),
    Denom(String),
}

#[derive(Default)]
pub struct State {
    pub kv: Vec<BTreeMap<Vec<u8>, Vec<u8>>>,
    pub contracts: BTreeMap<String, CInfo>,
    pub bank: BTreeMap<String, BTreeMap<String, u128>>,
    pub supply: BTreeMap<String, u128>,
    pub denoms: BTreeMap<String, String>,
    journal: Vec<Undo>,
}

impl State {
    fn set_kv(&mut self, i: usize, k: &[u8], v: Option<Vec<u8>>) {
        let old = match v {
            Some(v) => self.kv[i].insert(k.to_vec(), v),
            None => self.kv[i].remove(k),
        };
        self.journal.push(Undo::Kv(i, k.to_vec(), old));
    }
    pub fn bal(&self, a: &str, d: &str) -> u128 {
        self.bank.get(a).and_then(|m| m.get(d)).copied().unwrap_or(0)
    }
    fn set_bal(&mut self, a: &str, d: &str, v: u128) {
        let m = self.bank.entry(a.to_string()).or_default();
        let old = if v == 0 { m.remove(d) } else { m.insert(d.to_string(), v) };
        self.journal.push(Undo::Bank(a.to_string(), d.to_string(), old));
    }
    fn set_supply(&mut self, d: &str, v: u128) {
        let old = self.supply.insert(d.to_string(), v);
        self.journal.push(Undo::Supply(d.to_string(), old));
    }
    pub fn mint(&mut self, a: &str, d: &str, amt: u128) -> Result<(), String> {
        let s = self.supply.get(d).copied().unwrap_or(0).checked_add(amt).ok_or("supply overflow")?;
        self.set_supply(d, s);
        let b = self.bal(a, d) + amt;
        self.set_bal(a, d, b);
        Ok(())
    }
    fn burn(&mut self, a: &str, d: &str, amt: u128) -> Result<(), String> {
        let b = self.bal(a, d).checked_sub(amt).ok_or_else(|| format!("insufficient funds {d}"))?;
        self.set_bal(a, d, b);
        let s = self.supply.get(d).copied().unwrap_or(0) - amt;
        self.set_supply(d, s);
        Ok(())
    }
    fn send(&mut self, from: &str, to: &str, d: &str, amt: u128) -> Result<(), String> {
        let b = self.bal(from, d).checked_sub(amt).ok_or_else(|| format!("insufficient funds: {d} of {from}"))?;
        self.set_bal(from, d, b);
        let t = self.bal(to, d) + amt;
        self.set_bal(to, d, t);
        Ok(())
    }
    fn rollback(&mut self, mark: usize) {
        while self.journal.len() > mark {
            match self.journal.pop().unwrap() {
                Undo::Kv(i, k, old) => {
                    match old {
                        Some(v) => self.kv[i].insert(k, v),
                        None => self.kv[i].remove(&k),
                    };
                }
                Undo::Bank(a, d, old) => {
                    let m = self.bank.entry(a).or_default();
                    match old {
                        Some(v) => m.insert(d, v),
                        None => m.remove(&d),
                    };
                }
                Undo::Supply(d, old) => {
                    match old {
                        Some(v) => self.supply.insert(d, v),
                        None => self.supply.remove(&d),
                    };
                }
                Undo::Contract(a) => {
                    self.contracts.remove(&a);
                    self.kv.pop();
                }
                Undo::Denom(d) => {
                    self.denoms.remove(&d);
                }
            }
        }
    }
}

const NO_LIMIT: u64 = 1 << 40;
/// A runaway computation ends like on a real chain: the block gas limit.
const BLOCK_GAS: u64 = 400_000;

pub struct Chain {
    pub hrp: String,
    pub chain_id: String,
    pub st: RefCell<State>,
    pub height: Cell<u64>,
    pub time: Cell<u64>,
    gas: Cell<u64>,
    pub gas_used: Cell<u64>,
    tx_index: Cell<u32>,
    inst_seq: Cell<u64>,
    qdepth: Cell<u32>,
    rec: RefCell<Vec<Vec<QRec>>>,
    pub code_hits: RefCell<BTreeMap<&'static str, u64>>,
}

struct CStore<'a> {
    ch: &'a Chain,
    idx: usize,
    ro: bool,
}

impl<'a> Storage for CStore<'a> {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.ch.charge(1);
        self.ch.st.borrow().kv[self.idx].get(key).cloned()
    }
    fn range<'b>(&'b self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'b> {
        use std::ops::Bound;
        self.ch.charge(1);
        let st = self.ch.st.borrow();
        if let (Some(a), Some(b)) = (start, end) {
            if a >= b {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map(|s| Bound::Included(s.to_vec())).unwrap_or(Bound::Unbounded);
        let hi = end.map(|s| Bound::Excluded(s.to_vec())).unwrap_or(Bound::Unbounded);
        let it = st.kv[self.idx].range((lo, hi)).map(|(k, v)| (k.clone(), v.clone()));
        let v: Vec<Record> = match order {
            Order::Ascending => it.collect(),
            Order::Descending => it.rev().collect(),
        };
        let ch = self.ch;
        Box::new(v.into_iter().inspect(move |_| ch.charge(1)))
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.ch.charge(1);
        if self.ro {
            panic!("write in query");
        }
        self.ch.st.borrow_mut().set_kv(self.idx, key, Some(value.to_vec()));
    }
    fn remove(&mut self, key: &[u8]) {
        self.ch.charge(1);
        if self.ro {
            panic!("write in query");
        }
        self.ch.st.borrow_mut().set_kv(self.idx, key, None);
    }
}

struct SimApi<'a>(&'a Chain);

fn api_dec(hrp: &str, h: &str) -> StdResult<Vec<u8>> {
    let (p, raw) = bech_dec(h).ok_or_else(|| StdError::generic_err(format!("decoding bech32 failed: {h}")))?;
    if p != hrp {
        return Err(StdError::generic_err(format!("invalid Bech32 prefix; expected {hrp}, got {p}")));
    }
    if h != h.to_lowercase() {
        return Err(StdError::generic_err("address not normalized"));
    }
    if raw.len() != 20 && raw.len() != 32 {
        return Err(StdError::generic_err("unexpected address length"));
    }
    Ok(raw)
}

impl<'a> Api for SimApi<'a> {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        api_dec(&self.0.hrp, human)?;
        Ok(Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        Ok(api_dec(&self.0.hrp, human)?.into())
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        if c.len() != 20 && c.len() != 32 {
            return Err(StdError::generic_err("unexpected address length"));
        }
        Ok(Addr::unchecked(bech_enc(&self.0.hrp, c.as_slice())))
    }
    fn secp256k1_verify(&self, h: &[u8], s: &[u8], p: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().secp256k1_verify(h, s, p)
    }
    fn secp256k1_recover_pubkey(&self, h: &[u8], s: &[u8], r: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        self.0.charge(3);
        MockApi::default().secp256k1_recover_pubkey(h, s, r)
    }
    fn ed25519_verify(&self, m: &[u8], s: &[u8], p: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_verify(m, s, p)
    }
    fn ed25519_batch_verify(&self, m: &[&[u8]], s: &[&[u8]], p: &[&[u8]]) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_batch_verify(m, s, p)
    }
    fn debug(&self, _m: &str) {}
}

impl Querier for Chain {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        self.charge(1);
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: bin.into() })
            }
        };
        match req {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let a = self.st.borrow().bal(&address, &denom);
                SystemResult::Ok(ContractResult::Ok(
                    to_json_vec(&cosmwasm_std::BalanceResponse { amount: Coin { denom, amount: Uint128::new(a) } }).unwrap().into(),
                ))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let st = self.st.borrow();
                let amount: Vec<Coin> = st
                    .bank
                    .get(&address)
                    .map(|m| m.iter().map(|(d, a)| Coin { denom: d.clone(), amount: Uint128::new(*a) }).collect())
                    .unwrap_or_default();
                SystemResult::Ok(ContractResult::Ok(to_json_vec(&cosmwasm_std::AllBalanceResponse { amount }).unwrap().into()))
            }
            QueryRequest::Bank(BankQuery::Supply { denom }) => {
                let a = self.st.borrow().supply.get(&denom).copied().unwrap_or(0);
                let v = serde_json::json!({"amount": {"denom": denom, "amount": a.to_string()}});
                SystemResult::Ok(ContractResult::Ok(v.to_string().into_bytes().into()))
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                if !self.st.borrow().contracts.contains_key(&contract_addr) {
                    self.record(QRec {
                        to: contract_addr.clone(),
                        msg: serde_json::from_slice(msg.as_slice()).unwrap_or(Value::Null),
                        res: Err("no such contract".into()),
                        sub: vec![],
                    });
                    return SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr });
                }
                let (res, sub) = self.smart(&contract_addr, msg.as_slice());
                self.record(QRec {
                    to: contract_addr,
                    msg: serde_json::from_slice(msg.as_slice()).unwrap_or(Value::Null),
                    res: res.clone(),
                    sub,
                });
                match res {
                    Ok(v) => SystemResult::Ok(ContractResult::Ok(v.into())),
                    Err(e) => SystemResult::Ok(ContractResult::Err(e)),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                let st = self.st.borrow();
                match st.contracts.get(&contract_addr) {
                    Some(c) => SystemResult::Ok(ContractResult::Ok(
                        st.kv[c.idx].get(key.as_slice()).cloned().unwrap_or_default().into(),
                    )),
                    None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                }
            }
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => {
                let st = self.st.borrow();
                match st.contracts.get(&contract_addr) {
                    Some(c) => {
                        let v = serde_json::json!({"code_id": c.code, "creator": c.creator, "admin": null, "pinned": false, "ibc_port": null});
                        SystemResult::Ok(ContractResult::Ok(v.to_string().into_bytes().into()))
                    }
                    None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                }
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "unsupported".into() }),
        }
    }
}

fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        format!("panic: {s}")
    } else if let Some(s) = p.downcast_ref::<String>() {
        format!("panic: {s}")
    } else {
        "panic".into()
    }
}

fn pb_bytes(tag: u32, b: &[u8]) -> Vec<u8> {
    let mut o = vec![((tag << 3) | 2) as u8];
    let mut n = b.len();
    loop {
        let x = (n & 0x7f) as u8;
        n >>= 7;
        if n > 0 {
            o.push(x | 0x80)
        } else {
            o.push(x);
            break;
        }
    }
    o.extend_from_slice(b);
    o
}

/// Length-delimited protobuf fields of a message.
fn pb_fields(b: &[u8]) -> Option<Vec<(u32, Vec<u8>)>> {
    let mut i = 0;
    let mut out = vec![];
    let varint = |i: &mut usize| -> Option<u64> {
        let mut v = 0u64;
        let mut s = 0;
        loop {
            let x = *b.get(*i)?;
            *i += 1;
            v |= ((x & 0x7f) as u64) << s;
            if x & 0x80 == 0 {
                return Some(v);
            }
            s += 7;
            if s > 63 {
                return None;
            }
        }
    };
    while i < b.len() {
        let t = varint(&mut i)?;
        match t & 7 {
            0 => {
                varint(&mut i)?;
            }
            2 => {
                let n = varint(&mut i)? as usize;
                out.push(((t >> 3) as u32, b.get(i..i + n)?.to_vec()));
                i += n;
            }
            _ => return None,
        }
    }
    Some(out)
}

enum Flow {
    Ok,
    Err(String),
    Oog,
}

impl Chain {
    pub fn new(hrp: &str, idx: usize) -> Chain {
        Chain {
            hrp: hrp.to_string(),
            chain_id: format!("sim-{idx}"),
            st: RefCell::new(State::default()),
            height: Cell::new(1_000),
            time: Cell::new(1_700_000_000),
            gas: Cell::new(NO_LIMIT),
            gas_used: Cell::new(0),
            tx_index: Cell::new(0),
            inst_seq: Cell::new(0),
            qdepth: Cell::new(0),
            rec: RefCell::new(vec![]),
            code_hits: RefCell::new(BTreeMap::new()),
        }
    }

    fn charge(&self, n: u64) {
        let g = self.gas.get();
        if g < n {
            self.gas.set(0);
            std::panic::panic_any(Oog);
        }
        self.gas.set(g - n);
    }

    fn try_charge(&self, n: u64) -> bool {
        let g = self.gas.get();
        if g < n {
            self.gas.set(0);
            return false;
        }
        self.gas.set(g - n);
        true
    }

    fn record(&self, q: QRec) {
        if let Some(top) = self.rec.borrow_mut().last_mut() {
            top.push(q);
        }
    }

    fn env(&self, c: &str) -> Env {
        Env {
            block: BlockInfo {
                height: self.height.get(),
                time: Timestamp::from_seconds(self.time.get()),
                chain_id: self.chain_id.clone(),
            },
            transaction: Some(TransactionInfo { index: self.tx_index.get() }),
            contract: ContractInfo { address: Addr::unchecked(c) },
        }
    }

    fn hit(&self, name: &'static str) {
        *self.code_hits.borrow_mut().entry(name).or_insert(0) += 1;
    }

    fn smart(&self, addr: &str, msg: &[u8]) -> (Result<Vec<u8>, String>, Vec<QRec>) {
        let ci = match self.st.borrow().contracts.get(addr) {
            Some(c) => c.clone(),
            None => return (Err("no such contract".into()), vec![]),
        };
        if self.qdepth.get() >= 10 {
            return (Err("query depth exceeded".into()), vec![]);
        }
        self.qdepth.set(self.qdepth.get() + 1);
        self.rec.borrow_mut().push(vec![]);
        let store = CStore { ch: self, idx: ci.idx, ro: true };
        let api = SimApi(self);
        let r = catch_unwind(AssertUnwindSafe(|| {
            self.charge(5);
            let deps = Deps { storage: &store, api: &api, querier: QuerierWrapper::new(self) };
            (CODES[ci.code].query)(deps, self.env(addr), msg)
        }));
        self.qdepth.set(self.qdepth.get() - 1);
        let sub = self.rec.borrow_mut().pop().unwrap_or_default();
        match r {
            Ok(Ok(b)) => (Ok(b.to_vec()), sub),
            Ok(Err(e)) => (Err(e), sub),
            Err(p) if p.is::<Oog>() => resume_unwind(p),
            Err(p) => (Err(panic_text(&*p)), sub),
        }
    }

    /// Query from outside (no gas limit), with the record of nested queries.
    pub fn query_rec(&self, addr: &str, msg: &Value) -> QRec {
        let g = self.gas.get();
        self.gas.set(BLOCK_GAS);
        let bytes = msg.to_string().into_bytes();
        let r = catch_unwind(AssertUnwindSafe(|| self.smart(addr, &bytes)));
        self.gas.set(g);
        let (res, sub) = match r {
            Ok(x) => x,
            Err(_) => {
                self.qdepth.set(0);
                self.rec.borrow_mut().clear();
                (Err("out of gas".into()), vec![])
            }
        };
        QRec { to: addr.to_string(), msg: msg.clone(), res, sub }
    }

    pub fn query(&self, addr: &str, msg: &Value) -> Result<Value, String> {
        let q = self.query_rec(addr, msg);
        match q.res {
            Ok(b) => serde_json::from_slice(&b).map_err(|e| e.to_string()),
            Err(e) => Err(e),
        }
    }

    pub fn bal(&self, a: &str, d: &str) -> u128 {
        self.st.borrow().bal(a, d)
    }
    pub fn supply(&self, d: &str) -> u128 {
        self.st.borrow().supply.get(d).copied().unwrap_or(0)
    }
    pub fn code_of(&self, a: &str) -> &'static str {
        self.st.borrow().contracts.get(a).map(|c| CODES[c.code].name).unwrap_or("")
    }

    /// Direct write into a contract's storage (models state left by an older deployment).
    pub fn poke(&self, addr: &str, key: &[u8], val: Option<&[u8]>) {
        let mut st = self.st.borrow_mut();
        if let Some(i) = st.contracts.get(addr).map(|c| c.idx) {
            st.set_kv(i, key, val.map(|v| v.to_vec()));
        }
    }
    pub fn peek(&self, addr: &str, key: &[u8]) -> Option<Vec<u8>> {
        let st = self.st.borrow();
        let i = st.contracts.get(addr)?.idx;
        st.kv[i].get(key).cloned()
    }
    pub fn dump(&self, addr: &str) -> BTreeMap<Vec<u8>, Vec<u8>> {
        let st = self.st.borrow();
        st.contracts.get(addr).map(|c| st.kv[c.idx].clone()).unwrap_or_default()
    }

    pub fn mark(&self) -> usize {
        self.st.borrow().journal.len()
    }
    pub fn rollback(&self, m: usize) {
        self.st.borrow_mut().rollback(m)
    }

    fn take_funds(&self, from: &str, to: &str, funds: &[(u128, String)]) -> Result<(), String> {
        for (a, d) in funds {
            self.st.borrow_mut().send(from, to, d, *a)?;
        }
        Ok(())
    }

    fn norm(funds: &[Coin]) -> Result<Vec<(u128, String)>, String> {
        // the chain sorts and merges coins attached by contracts, and drops empty ones
        let mut m: BTreeMap<String, u128> = BTreeMap::new();
        for c in funds {
            if c.denom.len() < 3 {
                return Err(format!("invalid denom: {}", c.denom));
            }
            let e = m.entry(c.denom.clone()).or_insert(0);
            *e = e.checked_add(c.amount.u128()).ok_or("coin overflow")?;
        }
        Ok(m.into_iter().filter(|(_, a)| *a > 0).map(|(d, a)| (a, d)).collect())
    }

    /// Runs one contract entry point; returns its response.
    fn run(&self, node: &mut Node, f: impl FnOnce(DepsMut) -> Result<Response, String>, idx: usize) -> Result<Response, Flow> {
        self.rec.borrow_mut().push(vec![]);
        let api = SimApi(self);
        let r = catch_unwind(AssertUnwindSafe(|| {
            self.charge(5);
            let mut store = CStore { ch: self, idx, ro: false };
            let deps = DepsMut { storage: &mut store, api: &api, querier: QuerierWrapper::new(self) };
            f(deps)
        }));
        // an out-of-gas unwinding can leave nested query frames behind
        if matches!(&r, Err(p) if p.is::<Oog>()) {
            self.qdepth.set(0);
        }
        node.queries.extend(self.rec.borrow_mut().pop().unwrap_or_default());
        match r {
            Ok(Ok(x)) => Ok(x),
            Ok(Err(e)) => Err(Flow::Err(e)),
            Err(p) if p.is::<Oog>() => Err(Flow::Oog),
            Err(p) => Err(Flow::Err(panic_text(&*p))),
        }
    }

    fn response(&self, node: &mut Node, me: &str, resp: Response, depth: u32) -> Flow {
        if !resp.attributes.is_empty() {
            node.events.push(("wasm".into(), resp.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect()));
        }
        for e in &resp.events {
            if e.ty.trim().len() < 2 {
                return Flow::Err("event type too short".into());
            }
            node.events.push((e.ty.clone(), e.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect()));
        }
        let mut data = resp.data.map(|d| d.to_vec());
        for sm in resp.messages {
            let fl = self.submsg(node, me, sm, depth, &mut data);
            match fl {
                Flow::Ok => {}
                x => return x,
            }
        }
        node.data = data;
        Flow::Ok
    }

    fn submsg(&self, node: &mut Node, me: &str, sm: SubMsg, depth: u32, data: &mut Option<Vec<u8>>) -> Flow {
        let mark = self.mark();
        let outer = self.gas.get();
        let limited = match sm.gas_limit {
            Some(l) if l < outer => {
                self.gas.set(l);
                true
            }
            _ => false,
        };
        let start = self.gas.get();
        let (mut kid, fl) = self.msg(me, sm.msg, depth + 1);
        let used = start - self.gas.get();
        self.gas.set(outer - used);
        let err = match fl {
            Flow::Ok => None,
            Flow::Err(e) => Some(e),
            Flow::Oog => {
                if limited {
                    Some("out of gas".to_string())
                } else {
                    kid.ok = false;
                    kid.oog = true;
                    node.kids.push(kid);
                    return Flow::Oog;
                }
            }
        };
        if let Some(e) = &err {
            self.rollback(mark);
            kid.ok = false;
            kid.err = e.clone();
        }
        let kd = kid.data.clone();
        let kop = kid.op;
        let kto = kid.to.clone();
        node.kids.push(kid);
        let want = match (&err, &sm.reply_on) {
            (Some(e), ReplyOn::Success | ReplyOn::Never) => return Flow::Err(e.clone()),
            (None, ReplyOn::Never | ReplyOn::Error) => false,
            _ => true,
        };
        if !want {
            return Flow::Ok;
        }
        let result = match err {
            Some(_) => SubMsgResult::Err("codespace: wasm, code: 5".into()),
            None => SubMsgResult::Ok(SubMsgResponse {
                events: vec![],
                data: match kop {
                    Op::Exec => kd.map(|d| pb_bytes(1, &d).into()),
                    Op::Inst => {
                        let mut b = pb_bytes(1, kto.as_bytes());
                        if let Some(d) = kd {
                            b.extend(pb_bytes(2, &d))
                        }
                        Some(b.into())
                    }
                    _ => kd.map(|d| d.into()),
                },
            }),
        };
        let ci = self.st.borrow().contracts.get(me).cloned();
        let ci = match ci {
            Some(c) => c,
            None => return Flow::Err("no contract".into()),
        };
        let mut rn = Node::new(Op::Reply, me, me);
        rn.code = CODES[ci.code].name;
        rn.msg = serde_json::json!({"reply": {"id": sm.id, "ok": matches!(result, SubMsgResult::Ok(_))}});
        let f = match CODES[ci.code].reply {
            Some(f) => f,
            None => return Flow::Err("no reply entry point".into()),
        };
        let env = self.env(me);
        let r = self.run(&mut rn, |d| f(d, env, Reply { id: sm.id, result }), ci.idx);
        let fl = match r {
            Ok(resp) => {
                let fl = self.response(&mut rn, me, resp, depth);
                if rn.data.is_some() {
                    *data = rn.data.clone();
                }
                fl
            }
            Err(f) => f,
        };
        match &fl {
            Flow::Ok => {}
            Flow::Err(e) => {
                rn.ok = false;
                rn.err = e.clone();
            }
            Flow::Oog => {
                rn.ok = false;
                rn.oog = true;
            }
        }
        node.kids.push(rn);
        fl
    }

    fn msg(&self, from: &str, m: CosmosMsg, depth: u32) -> (Node, Flow) {
        if !self.try_charge(3) {
            return (Node::new(Op::Other, from, ""), Flow::Oog);
        }
        if depth > 24 {
            return (Node::new(Op::Other, from, ""), Flow::Err("call depth".into()));
        }
        let bad = |n: Node, e: String| (n, Flow::Err(e));
        match m {
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                let funds = match Self::norm(&funds) {
                    Ok(f) => f,
                    Err(e) => return bad(Node::new(Op::Exec, from, &contract_addr), e),
                };
                self.exec(from, &contract_addr, msg.as_slice(), funds, depth)
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate { code_id, msg, funds, .. }) => {
                let funds = match Self::norm(&funds) {
                    Ok(f) => f,
                    Err(e) => return bad(Node::new(Op::Inst, from, ""), e),
                };
                let n = self.inst_seq.get();
                self.inst_seq.set(n + 1);
                let a = sha256(&[b"inst", self.chain_id.as_bytes(), from.as_bytes(), &n.to_be_bytes()]);
                let a = &a[..contract_len(&self.hrp, &a)];
                self.inst(from, a, code_id as usize, msg.as_slice(), funds, depth)
            }
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                let mut n = Node::new(Op::BankSend, from, &to_address);
                let f = match Self::norm(&amount) {
                    Ok(f) => f,
                    Err(e) => return bad(n, e),
                };
                n.funds = f.clone();
                if f.is_empty() {
                    return bad(n, "invalid coins: empty send".into());
                }
                if api_dec(&self.hrp, &to_address).is_err() {
                    return bad(n, format!("invalid address: {to_address}"));
                }
                match self.take_funds(from, &to_address, &f) {
                    Ok(()) => (n, Flow::Ok),
                    Err(e) => bad(n, e),
                }
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                let mut n = Node::new(Op::BankBurn, from, "");
                let f = match Self::norm(&amount) {
                    Ok(f) => f,
                    Err(e) => return bad(n, e),
                };
                n.funds = f.clone();
                for (a, d) in &f {
                    if let Err(e) = self.st.borrow_mut().burn(from, d, *a) {
                        return bad(n, e);
                    }
                }
                (n, Flow::Ok)
            }
            CosmosMsg::Stargate { type_url, value } => self.stargate(from, &type_url, value.as_slice()),
            _ => bad(Node::new(Op::Other, from, ""), "unsupported message".into()),
        }
    }

    fn stargate(&self, from: &str, url: &str, val: &[u8]) -> (Node, Flow) {
        let mut n = Node::new(Op::Other, from, from);
        let kind = url.rsplit('.').next().unwrap_or("");
        let fields = match pb_fields(val) {
            Some(f) if url.starts_with("/osmosis.tokenfactory.v1beta1.") => f,
            _ => return (n, Flow::Err(format!("unsupported stargate message {url}"))),
        };
        let get = |t: u32| fields.iter().find(|f| f.0 == t).map(|f| f.1.clone()).unwrap_or_default();
        let sender = String::from_utf8(get(1)).unwrap_or_default();
        if sender != from {
            return (n, Flow::Err("stargate signer mismatch".into()));
        }
        let coin = |b: &[u8]| -> Option<(u128, String)> {
            let f = pb_fields(b)?;
            let d = f.iter().find(|x| x.0 == 1)?.1.clone();
            let a = f.iter().find(|x| x.0 == 2)?.1.clone();
            Some((String::from_utf8(a).ok()?.parse().ok()?, String::from_utf8(d).ok()?))
        };
        match kind {
            "MsgCreateDenom" => {
                n.op = Op::TfCreate;
                let sub = String::from_utf8(get(2)).unwrap_or_default();
                let d = format!("factory/{from}/{sub}");
                n.msg = Value::String(d.clone());
                let mut st = self.st.borrow_mut();
                if st.denoms.contains_key(&d) {
                    return (n, Flow::Err("denom exists".into()));
                }
                st.denoms.insert(d.clone(), from.to_string());
                st.journal.push(Undo::Denom(d.clone()));
                n.data = Some(pb_bytes(1, d.as_bytes()));
                (n, Flow::Ok)
            }
            "MsgMint" | "MsgBurn" => {
                n.op = if kind == "MsgMint" { Op::TfMint } else { Op::TfBurn };
                let (a, d) = match coin(&get(2)) {
                    Some(x) => x,
                    None => return (n, Flow::Err("invalid coin".into())),
                };
                n.funds = vec![(a, d.clone())];
                if a == 0 {
                    return (n, Flow::Err("invalid coins: zero".into()));
                }
                if self.st.borrow().denoms.get(&d).map(|s| s.as_str()) != Some(from) {
                    return (n, Flow::Err("unauthorized denom admin".into()));
                }
                let r = if kind == "MsgMint" {
                    self.st.borrow_mut().mint(from, &d, a)
                } else {
                    self.st.borrow_mut().burn(from, &d, a)
                };
                match r {
                    Ok(()) => (n, Flow::Ok),
                    Err(e) => (n, Flow::Err(e)),
                }
            }
            "MsgSetDenomMetadata" => {
                n.op = Op::TfMeta;
                (n, Flow::Ok)
            }
            _ => (n, Flow::Err(format!("unsupported stargate message {url}"))),
        }
    }

    fn exec(&self, from: &str, to: &str, msg: &[u8], funds: Vec<(u128, String)>, depth: u32) -> (Node, Flow) {
        let mut n = Node::new(Op::Exec, from, to);
        n.msg = serde_json::from_slice(msg).unwrap_or(Value::Null);
        n.funds = funds.clone();
        let ci = match self.st.borrow().contracts.get(to) {
            Some(c) => c.clone(),
            None => {
                n.ok = false;
                return (n, Flow::Err("no such contract".into()));
            }
        };
        n.code = CODES[ci.code].name;
        self.hit(n.code);
        if let Err(e) = self.take_funds(from, to, &funds) {
            n.ok = false;
            return (n, Flow::Err(e));
        }
        let info = MessageInfo {
            sender: Addr::unchecked(from),
            funds: funds.iter().map(|(a, d)| Coin { denom: d.clone(), amount: Uint128::new(*a) }).collect(),
        };
        let env = self.env(to);
        let r = self.run(&mut n, |d| (CODES[ci.code].exec)(d, env, info, msg), ci.idx);
        self.finish(n, to, r, depth)
    }

    fn finish(&self, mut n: Node, me: &str, r: Result<Response, Flow>, depth: u32) -> (Node, Flow) {
        let fl = match r {
            Ok(resp) => self.response(&mut n, me, resp, depth),
            Err(f) => f,
        };
        match &fl {
            Flow::Ok => {}
            Flow::Err(e) => {
                n.ok = false;
                n.err = e.clone();
            }
            Flow::Oog => {
                n.ok = false;
                n.oog = true;
            }
        }
        (n, fl)
    }

    fn inst(&self, from: &str, raw: &[u8], code: usize, msg: &[u8], funds: Vec<(u128, String)>, depth: u32) -> (Node, Flow) {
        let addr = bech_enc(&self.hrp, raw);
        let mut n = Node::new(Op::Inst, from, &addr);
        n.msg = serde_json::from_slice(msg).unwrap_or(Value::Null);
        n.funds = funds.clone();
        if code >= CODES.len() {
            n.ok = false;
            return (n, Flow::Err("no such code".into()));
        }
        n.code = CODES[code].name;
        self.hit(n.code);
        let idx;
        {
            let mut st = self.st.borrow_mut();
            if st.contracts.contains_key(&addr) {
                n.ok = false;
                return (n, Flow::Err("contract exists".into()));
            }
            idx = st.kv.len();
            st.kv.push(BTreeMap::new());
            st.contracts.insert(addr.clone(), CInfo { idx, code, creator: from.to_string() });
            st.journal.push(Undo::Contract(addr.clone()));
        }
        if let Err(e) = self.take_funds(from, &addr, &funds) {
            n.ok = false;
            return (n, Flow::Err(e));
        }
        let info = MessageInfo {
            sender: Addr::unchecked(from),
            funds: funds.iter().map(|(a, d)| Coin { denom: d.clone(), amount: Uint128::new(*a) }).collect(),
        };
        let env = self.env(&addr);
        let r = self.run(&mut n, |d| (CODES[code].inst)(d, env, info, msg), idx);
        self.finish(n, &addr, r, depth)
    }

    fn top(&self, gas: Option<u64>, f: impl FnOnce() -> (Node, Flow)) -> Node {
        let mark = self.mark();
        let lim = gas.unwrap_or(BLOCK_GAS).min(BLOCK_GAS);
        self.gas.set(lim);
        self.rec.borrow_mut().clear();
        self.qdepth.set(0);
        self.tx_index.set(self.tx_index.get().wrapping_add(1));
        let (mut n, fl) = f();
        self.gas_used.set(lim - self.gas.get());
        self.gas.set(NO_LIMIT);
        match fl {
            Flow::Ok => {}
            Flow::Err(e) => {
                self.rollback(mark);
                n.ok = false;
                n.err = e;
            }
            Flow::Oog => {
                self.rollback(mark);
                n.ok = false;
                n.oog = true;
                n.err = "out of gas".into();
            }
        }
        n
    }

    /// A signed transaction executing one contract message.
    pub fn tx(&self, from: &str, to: &str, msg: &Value, funds: &[(u128, String)], gas: Option<u64>) -> Node {
        let bytes = msg.to_string().into_bytes();
        self.top(gas, || {
            let mut f: Vec<(u128, String)> = funds.iter().filter(|(a, _)| *a > 0).cloned().collect();
            f.sort_by(|a, b| a.1.cmp(&b.1));
            self.exec(from, to, &bytes, f, 0)
        })
    }

    pub fn tx_inst(&self, from: &str, raw: &[u8], code: &str, msg: &Value, gas: Option<u64>) -> Node {
        let bytes = msg.to_string().into_bytes();
        self.top(gas, || self.inst(from, raw, code_id(code), &bytes, vec![], 0))
    }

    pub fn tx_send(&self, from: &str, to: &str, amt: u128, denom: &str) -> Node {
        self.top(None, || {
            self.msg(from, BankMsg::Send { to_address: to.into(), amount: vec![Coin { denom: denom.into(), amount: Uint128::new(amt) }] }.into(), 0)
        })
    }

    pub fn tx_migrate(&self, from: &str, addr: &str, gas: Option<u64>) -> Node {
        self.top(gas, || {
            let mut n = Node::new(Op::Migrate, from, addr);
            let ci = match self.st.borrow().contracts.get(addr) {
                Some(c) => c.clone(),
                None => return (n, Flow::Err("no such contract".into())),
            };
            n.code = CODES[ci.code].name;
            let f = match CODES[ci.code].mig {
                Some(f) => f,
                None => return (n, Flow::Err("no migrate".into())),
            };
            let env = self.env(addr);
            let r = self.run(&mut n, |d| f(d, env, b"{}"), ci.idx);
            self.finish(n, addr, r, 0)
        })
    }

    /// Runs something and undoes all of it; returns the gas it used.
    pub fn dry(&self, f: impl FnOnce() -> Node) -> (Node, u64) {
        let m = self.mark();
        let (s, t) = (self.inst_seq.get(), self.tx_index.get());
        let n = f();
        self.rollback(m);
        self.inst_seq.set(s);
        self.tx_index.set(t);
        (n, self.gas_used.get())
    }

    /// Forgets the undo log (state is final).
    pub fn seal(&self) {
        self.st.borrow_mut().journal.clear();
    }

    pub fn mint(&self, a: &str, d: &str, amt: u128) {
        let _ = self.st.borrow_mut().mint(a, d, amt);
    }

    pub fn all_denoms(&self) -> BTreeSet<String> {
        self.st.borrow().supply.keys().cloned().collect()
    }
}
