//! What the reference model predicts: quotes, verdicts, answers to queries, outcomes of transactions.
use crate::model::*;
use crate::sim::*;
use crate::util::*;
use cosmwasm_std::Uint256;
use serde_json::{json, Value};

pub type Props = Vec<&'static str>;

#[derive(Clone, Debug, PartialEq)]
pub enum Tri {
    Yes,
    No(Props),
    Unk,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Q {
    Known(Coins),
    Fail,
    Unk,
}

/// Verdict of an ISM.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    Yes,
    False,
    Err,
    /// false or an error
    No,
    Unk,
}

#[derive(Clone, Debug, Default)]
pub struct Expect {
    pub must: Option<bool>,
    pub props: Props,
    pub why: String,
}
impl Expect {
    pub fn ok(props: Props, why: &str) -> Expect {
        Expect { must: Some(true), props, why: why.into() }
    }
    pub fn fail(props: Props, why: &str) -> Expect {
        Expect { must: Some(false), props, why: why.into() }
    }
    pub fn none() -> Expect {
        Expect::default()
    }
}

#[derive(Clone, Debug)]
pub enum Ans {
    Val(Value),
    /// the listed numbers/strings in any order under this key, rest as given
    Fail,
}

pub const HOOKS: &[&str] = &["merkle", "fee", "phook", "rhook", "rchook", "rfhook", "ahook", "igp"];

pub fn hook_prop(code: &str) -> Option<&'static str> {
    Some(match code {
        "merkle" => "C06",
        "fee" => "C20",
        "phook" => "C15",
        "rhook" | "rchook" | "rfhook" => "C18",
        "ahook" => "C19",
        "igp" => "C09",
        _ => return None,
    })
}

pub fn fee_json(c: &Coins) -> Value {
    Value::Array(c.iter().map(|(d, a)| json!({"denom": d, "amount": a.to_string()})).collect())
}

/// The inner arguments of an execute message: (variant, arguments)
pub fn variant(v: &Value) -> (&str, &Value) {
    match v {
        Value::Object(m) => match m.iter().next() {
            Some((k, x)) => (k.as_str(), x),
            None => ("", &Value::Null),
        },
        Value::String(s) => (s.as_str(), &Value::Null),
        _ => ("", &Value::Null),
    }
}

impl Sim {
    pub fn cm(&self, c: usize, a: &str) -> Option<&CM> {
        self.m.cm[c].get(a)
    }
    pub fn code(&self, c: usize, a: &str) -> &'static str {
        self.chains[c].code_of(a)
    }
    pub fn addr_ok(&self, c: usize, s: &str) -> bool {
        match bech_dec(s) {
            Some((h, r)) => h == self.chains[c].hrp && (r.len() == 20 || r.len() == 32) && s == s.to_lowercase(),
            None => false,
        }
    }
    pub fn puppet_cfg(&self, c: usize, a: &str) -> Value {
        self.chains[c].peek(a, b"cfg").and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null)
    }

    // ---- gas paymaster -------------------------------------------------------------------------

    /// Price of `gas` for a destination: Ok(None) means there is no quote, Err that the model cannot tell.
    pub fn needed(&self, c: usize, igp: &str, dest: u32, gas: Uint256) -> Result<Option<Uint256>, ()> {
        let k = self.cm(c, igp).ok_or(())?;
        let o = match k.routes.get(&dest).cloned().flatten() {
            Some(o) => o,
            None => return Ok(None),
        };
        match self.code(c, &o) {
            "oracle" => {}
            "igp" => return Err(()),
            _ => return Ok(None),
        }
        match self.cm(c, &o).and_then(|k| k.data.get(&dest)) {
            Some((rate, price)) => Ok(gas_cost(gas, *price, *rate)),
            None => Ok(None),
        }
    }
    pub fn gas_default(&self, c: usize, igp: &str, dest: u32) -> Uint256 {
        let k = match self.cm(c, igp) {
            Some(k) => k,
            None => return Uint256::zero(),
        };
        Uint256::from(k.gas.get(&dest).copied().unwrap_or(k.default_gas))
    }
    pub fn gas_of(&self, c: usize, igp: &str, meta: &[u8], dest: u32) -> Uint256 {
        meta_gas(meta).unwrap_or_else(|| self.gas_default(c, igp, dest))
    }
    /// Where the excess of a dispatch payment goes.
    pub fn refund_to(&self, c: usize, igp: &str, meta: &[u8], m: &Msg) -> Option<String> {
        let hrp = &self.cm(c, igp)?.hrp;
        if meta.len() >= 32 {
            let r = &meta[32..];
            if r.len() == 20 || r.len() == 32 {
                return wire_to_addr(hrp, r);
            }
        }
        wire_to_addr(hrp, &m.sender)
    }

    // ---- hooks ---------------------------------------------------------------------------------

    /// The hook a routing hook must use: None if there is none, Err if unspecified.
    pub fn hook_target(&self, c: usize, hook: &str, m: &Msg) -> Result<Option<String>, ()> {
        let k = self.cm(c, hook).ok_or(())?;
        let r = k.routes.get(&m.dest).cloned().flatten();
        match k.code {
            "rhook" => Ok(r),
            "rchook" => Ok(k.custom.get(&(m.dest, m.recipient.to_vec())).cloned().or(r)),
            "rfhook" => Ok(r.or(k.fallback.clone())),
            _ => Err(()),
        }
    }

    pub fn quote(&self, c: usize, hook: &str, meta: &[u8], m: &Msg, depth: u32) -> Q {
        if depth > 6 {
            return Q::Unk;
        }
        let code = self.code(c, hook);
        match code {
            "merkle" | "phook" => Q::Known(Coins::new()),
            "fee" => match self.cm(c, hook) {
                Some(k) => Q::Known(coins_of(&[k.fee.clone()])),
                None => Q::Unk,
            },
            "rhook" | "rchook" | "rfhook" => match self.hook_target(c, hook, m) {
                Ok(Some(t)) => self.quote(c, &t, meta, m, depth + 1),
                Ok(None) => Q::Fail,
                Err(()) => Q::Unk,
            },
            "ahook" => {
                let mut tot = Coins::new();
                let mut unk = false;
                for h in &self.cm(c, hook).map(|k| k.hooks.clone()).unwrap_or_default() {
                    match self.quote(c, h, meta, m, depth + 1) {
                        Q::Known(x) => {
                            if coins_add(&mut tot, &x).is_none() {
                                return Q::Unk;
                            }
                        }
                        Q::Fail => return Q::Fail,
                        Q::Unk => unk = true,
                    }
                }
                if unk {
                    Q::Unk
                } else {
                    Q::Known(tot)
                }
            }
            "igp" => match self.needed(c, hook, m.dest, self.gas_of(c, hook, meta, m.dest)) {
                Ok(Some(x)) => match u256_u128(x) {
                    Some(0) => Q::Known(Coins::new()),
                    Some(a) => Q::Known(coins_of(&[(a, self.cm(c, hook).unwrap().gas_token.clone())])),
                    None => Q::Fail,
                },
                Ok(None) => Q::Fail,
                Err(()) => Q::Unk,
            },
            "puppet" => {
                let cfg = self.puppet_cfg(c, hook);
                if gs(&cfg, "quote") == "err" {
                    Q::Fail
                } else {
                    Q::Known(coins_json(garr(&json!({"fees": crate::stubs::fees(&cfg, &m.enc())}), "fees")))
                }
            }
            "" => Q::Fail,
            _ => Q::Unk,
        }
    }

    /// Would post_dispatch succeed? `mb` is the mailbox whose latest message this is.
    pub fn hook_pred(&self, c: usize, hook: &str, meta: &[u8], m: &Msg, funds: &Coins, mb: Option<&str>, depth: u32) -> Tri {
        if depth > 6 {
            return Tri::Unk;
        }
        let k = self.cm(c, hook);
        match self.code(c, hook) {
            "merkle" => {
                let k = k.unwrap();
                if k.tree.count() >= MAX_LEAVES {
                    return Tri::No(vec!["C06"]);
                }
                // one dispatch may post here more than once
                if k.tree.count() + 64 >= MAX_LEAVES {
                    return Tri::Unk;
                }
                let ok = match mb {
                    Some(x) => x == k.mailbox,
                    None => self.cm(c, &k.mailbox).map(|b| b.latest == Some(m.id())).unwrap_or(false),
                };
                if ok {
                    Tri::Yes
                } else if mb.is_some() {
                    // another mailbox's latest message could only be equal by being the same message
                    match self.cm(c, &k.mailbox) {
                        Some(b) if b.latest == Some(m.id()) => Tri::Unk,
                        _ => Tri::No(vec!["C06"]),
                    }
                } else {
                    Tri::No(vec!["C06"])
                }
            }
            "fee" => {
                let (amt, den) = k.unwrap().fee.clone();
                let paid = funds.get(&den).copied().unwrap_or(0);
                if funds.keys().any(|d| *d != den) {
                    Tri::No(vec!["C20"])
                } else if amt == 0 {
                    if funds.is_empty() {
                        Tri::Yes
                    } else {
                        Tri::Unk
                    }
                } else if paid < amt {
                    Tri::No(vec!["C20"])
                } else {
                    Tri::Yes
                }
            }
            "phook" => {
                if k.unwrap().paused {
                    Tri::No(vec!["C15"])
                } else {
                    Tri::Yes
                }
            }
            "rhook" | "rchook" | "rfhook" => match self.hook_target(c, hook, m) {
                Ok(Some(t)) => self.hook_pred(c, &t, meta, m, funds, mb, depth + 1),
                Ok(None) => Tri::No(vec!["C18"]),
                Err(()) => Tri::Unk,
            },
            "ahook" => {
                let mut tot = Coins::new();
                let mut res = Tri::Yes;
                let hooks = k.unwrap().hooks.clone();
                if mb.is_none() && hooks.len() > 1 {
                    // nothing to add: a direct call sees the same state for each member
                }
                for h in &hooks {
                    let q = match self.quote(c, h, meta, m, depth + 1) {
                        Q::Known(q) => q,
                        Q::Fail => return Tri::No(vec!["C19"]),
                        Q::Unk => {
                            res = Tri::Unk;
                            continue;
                        }
                    };
                    if coins_add(&mut tot, &q).is_none() {
                        return Tri::Unk;
                    }
                    match self.hook_pred(c, h, meta, m, &q, mb, depth + 1) {
                        Tri::Yes => {}
                        Tri::No(p) => return Tri::No(p),
                        Tri::Unk => res = Tri::Unk,
                    }
                }
                if res == Tri::Yes && coins_sub(funds, &tot).is_none() {
                    res = Tri::Unk;
                }
                res
            }
            "igp" => self.pay_pred(c, hook, m.dest, self.gas_of(c, hook, meta, m.dest), funds),
            "puppet" => {
                let cfg = self.puppet_cfg(c, hook);
                match gs(&cfg, "hook") {
                    "fail" | "panic" | "oog" => Tri::No(vec![]),
                    _ if gu(&cfg, "times") > 0 && ["post_dispatch", "any"].contains(&gs(&cfg, "on")) => Tri::Unk,
                    _ => Tri::Yes,
                }
            }
            _ => Tri::No(vec![]),
        }
    }

    /// Would this gas payment be accepted?
    pub fn pay_pred(&self, c: usize, igp: &str, dest: u32, gas: Uint256, funds: &Coins) -> Tri {
        let tok = match self.cm(c, igp) {
            Some(k) => k.gas_token.clone(),
            None => return Tri::Unk,
        };
        match self.needed(c, igp, dest, gas) {
            Err(()) => Tri::Unk,
            Ok(None) => Tri::No(vec!["C09", "C10"]),
            Ok(Some(n)) => {
                if funds.keys().any(|d| *d != tok) {
                    return Tri::No(vec!["C09"]);
                }
                let paid = Uint256::from(funds.get(&tok).copied().unwrap_or(0));
                if paid < n {
                    Tri::No(vec!["C09"])
                } else {
                    Tri::Yes
                }
            }
        }
    }

    /// True if some puppet in this hook tree would do something of its own on post_dispatch.
    pub fn scripted(&self, c: usize, hook: &str, m: &Msg, depth: u32) -> bool {
        if depth > 6 {
            return true;
        }
        match self.code(c, hook) {
            "puppet" => {
                let cfg = self.puppet_cfg(c, hook);
                gu(&cfg, "times") > 0 && ["post_dispatch", "any"].contains(&gs(&cfg, "on"))
            }
            "rhook" | "rchook" | "rfhook" => match self.hook_target(c, hook, m) {
                Ok(Some(t)) => self.scripted(c, &t, m, depth + 1),
                Ok(None) => false,
                Err(()) => true,
            },
            "ahook" => self.cm(c, hook).map(|k| k.hooks.iter().any(|h| self.scripted(c, h, m, depth + 1))).unwrap_or(true),
            _ => false,
        }
    }

    // ---- ISMs ----------------------------------------------------------------------------------

    pub fn ism_pred(&self, c: usize, ism: &str, meta: &[u8], bytes: &[u8], depth: u32) -> V {
        if depth > 6 {
            return V::Unk;
        }
        let k = self.cm(c, ism);
        let m = match Msg::dec(bytes) {
            Some(m) => m,
            None => return V::Unk,
        };
        match self.code(c, ism) {
            "msism" => {
                let (thr, set) = match k.unwrap().sets.get(&m.origin) {
                    Some(s) => s,
                    None => return V::Err,
                };
                match ms_count(meta, &m, set) {
                    None => V::Err,
                    Some((n, clean)) => match ((n as u128) >= *thr, clean) {
                        (true, true) => V::Yes,
                        (true, false) => V::Unk,
                        (false, true) => V::False,
                        (false, false) => V::No,
                    },
                }
            }
            "rism" => match k.unwrap().mods.get(&m.origin) {
                Some(t) => self.ism_pred(c, t, meta, bytes, depth + 1),
                None => V::Err,
            },
            "aism" => {
                let k = k.unwrap();
                let sl = match agg_slices(meta, k.isms.len()) {
                    Some(s) => s,
                    None => return V::Err,
                };
                let mut seen: Vec<(&String, V)> = vec![];
                for (i, s) in k.isms.iter().zip(&sl) {
                    let v = self.ism_pred(c, i, s, bytes, depth + 1);
                    match seen.iter_mut().find(|x| x.0 == i) {
                        Some(x) => {
                            if x.1 != v {
                                x.1 = V::Unk
                            }
                        }
                        None => seen.push((i, v)),
                    }
                }
                let yes = seen.iter().filter(|x| x.1 == V::Yes).count() as u128;
                let unk = seen.iter().filter(|x| x.1 == V::Unk).count() as u128;
                let bad = seen.iter().any(|x| matches!(x.1, V::Err | V::No));
                if k.thr == 0 {
                    V::Unk
                } else if yes + unk < k.thr {
                    if bad || unk > 0 {
                        V::No
                    } else {
                        V::False
                    }
                } else if unk > 0 || bad {
                    V::Unk
                } else {
                    V::Yes
                }
            }
            "pism" => {
                if k.unwrap().paused {
                    V::Err
                } else {
                    V::Yes
                }
            }
            "puppet" => {
                let cfg = self.puppet_cfg(c, ism);
                match gs(&cfg, "verdict") {
                    "yes" => V::Yes,
                    "no" => V::False,
                    "meta" => {
                        if meta.first().map(|b| b & 1 == 1).unwrap_or(false) {
                            V::Yes
                        } else {
                            V::False
                        }
                    }
                    "known" => {
                        if self.chains[c].peek(ism, &[b"known:".as_slice(), &keccak(bytes)].concat()).is_some() {
                            V::Yes
                        } else {
                            V::False
                        }
                    }
                    _ => V::Err,
                }
            }
            _ => V::Err,
        }
    }

    /// True if this ISM can only accept messages really dispatched by the origin's mailbox.
    pub fn secure(&self, c: usize, ism: &str, origin: u32, depth: u32) -> bool {
        if depth > 6 {
            return false;
        }
        let k = self.cm(c, ism);
        match self.code(c, ism) {
            "msism" => match k.unwrap().sets.get(&origin) {
                Some((thr, set)) => {
                    let bad = self.cfg.corrupt.iter().filter(|v| set.contains(&eth_of(**v))).count() as u128;
                    // an enrolled key outside the known ones never signs anything
                    self.chain_of(origin).is_some() && bad < *thr
                }
                None => true,
            },
            "rism" => match k.unwrap().mods.get(&origin) {
                Some(t) => self.secure(c, t, origin, depth + 1),
                None => true,
            },
            "aism" => {
                let k = k.unwrap();
                let mut weak: Vec<&String> = k.isms.iter().filter(|i| !self.secure(c, i, origin, depth + 1)).collect();
                weak.sort();
                weak.dedup();
                (weak.len() as u128) < k.thr
            }
            "puppet" => {
                let cfg = self.puppet_cfg(c, ism);
                matches!(gs(&cfg, "verdict"), "known" | "no" | "err" | "panic")
            }
            "pism" => false,
            _ => true,
        }
    }

    // ---- recipients ----------------------------------------------------------------------------

    /// The recipient's own choice: Err if asking fails.
    pub fn spec(&self, c: usize, r: &str) -> Result<Option<String>, ()> {
        match self.code(c, r) {
            "puppet" => {
                let cfg = self.puppet_cfg(c, r);
                match cfg.get("ism") {
                    None | Some(Value::Null) => Ok(None),
                    Some(Value::String(s)) if s != "err" => Ok(Some(s.clone())),
                    _ => Err(()),
                }
            }
            "wnative" | "wcw20" => Ok(self.cm(c, r).and_then(|k| k.wism.clone())),
            _ => Err(()),
        }
    }

    pub fn cw20_bal(&self, c: usize, token: &str, a: &str) -> u128 {
        self.chains[c].query(token, &json!({"balance": {"address": a}})).map(|v| gu(&v, "balance")).unwrap_or(0)
    }
    pub fn cw20_supply(&self, c: usize, token: &str) -> u128 {
        self.chains[c].query(token, &json!({"token_info": {}})).map(|v| gu(&v, "total_supply")).unwrap_or(0)
    }

    /// Would the recipient accept this delivery?
    pub fn recipient_pred(&self, c: usize, mb: &str, m: &Msg, r: &str) -> Tri {
        match self.code(c, r) {
            "puppet" => {
                let cfg = self.puppet_cfg(c, r);
                match gs(&cfg, "handle") {
                    "fail" | "panic" | "oog" => Tri::No(vec![]),
                    _ if gu(&cfg, "times") > 0 && ["handle", "any"].contains(&gs(&cfg, "on")) => Tri::Unk,
                    _ => Tri::Yes,
                }
            }
            "wnative" | "wcw20" => {
                let k = match self.cm(c, r) {
                    Some(k) => k,
                    None => return Tri::Unk,
                };
                if k.cmb.is_some() {
                    return Tri::Unk;
                }
                if k.wmb.as_deref() != Some(mb) {
                    return Tri::No(vec!["C12"]);
                }
                match k.routes.get(&m.origin).cloned().flatten() {
                    Some(rt) if unhx(&rt).as_deref() == Some(&m.sender) => {}
                    _ => return Tri::No(vec!["C12"]),
                }
                if m.body.len() < 64 {
                    return Tri::No(vec![]);
                }
                let amt = Uint256::from_be_bytes(m.body[32..64].try_into().unwrap());
                let amt = match u256_u128(amt) {
                    Some(0) => return Tri::Unk,
                    Some(a) => a,
                    None => return Tri::No(vec!["C11"]),
                };
                let native = self.code(c, r) == "wnative";
                if k.bridged {
                    let sup = if native { self.chains[c].supply(&k.token) } else { self.cw20_supply(c, &k.token) };
                    if sup.checked_add(amt).is_some() {
                        Tri::Yes
                    } else {
                        Tri::No(vec![])
                    }
                } else {
                    let b = if native { self.chains[c].bal(r, &k.token) } else { self.cw20_bal(c, &k.token, r) };
                    if b >= amt {
                        Tri::Yes
                    } else {
                        Tri::No(vec![])
                    }
                }
            }
            _ => Tri::No(vec![]),
        }
    }

    // ---- configuration calls -------------------------------------------------------------------

    /// If this is a configuration call: the properties about it and whether its arguments are valid.
    pub fn config_of(&self, c: usize, to: &str, code: &str, msg: &Value) -> Option<(Props, Option<bool>)> {
        let (key, a) = variant(msg);
        let addr = |s: &str| if self.addr_ok(c, s) { Some(true) } else { None };
        let k = self.cm(c, to);
        Some(match (code, key) {
            ("mailbox", "set_default_ism") => (vec![], addr(gs(a, "ism"))),
            ("mailbox", "set_default_hook") | ("mailbox", "set_required_hook") => (vec![], addr(gs(a, "hook"))),
            ("msism", "set_validators") => {
                let vs = strs(a, "validators");
                let thr = gu(a, "threshold");
                let good = vs.iter().all(|v| unhx(v).map(|b| b.len() == 20).unwrap_or(false)) && thr >= 1 && thr <= vs.len() as u128;
                (vec!["C02"], Some(good))
            }
            ("msism", "unset_domain") => (vec!["C02"], Some(true)),
            ("aism", "set_isms") => {
                let n = strs(a, "isms");
                let thr = gu(a, "threshold");
                let v = if thr < 1 || thr > n.len() as u128 {
                    Some(false)
                } else if n.iter().all(|x| self.addr_ok(c, x)) {
                    Some(true)
                } else {
                    None
                };
                (vec!["C17"], v)
            }
            ("rism", "set") => (vec!["C16"], addr(gs(&a["ism"], "address"))),
            ("rism", "unset") => (vec!["C16"], Some(true)),
            ("fee", "fee_hook") if a.get("set_fee").is_some() => (vec!["C20"], Some(true)),
            ("phook", "pausable") | ("pism", "pausable") => {
                let paused = k.map(|k| k.paused).unwrap_or(false);
                let v = match variant(a).0 {
                    "pause" => Some(!paused),
                    "release" => Some(paused),
                    _ => None,
                };
                (vec!["C15"], v)
            }
            ("ahook", "set_hooks") => {
                (vec!["C19"], if strs(a, "hooks").iter().all(|x| self.addr_ok(c, x)) { Some(true) } else { None })
            }
            (_, "router") => {
                let (v, b) = variant(a);
                let sets: Vec<Value> = match v {
                    "set_route" => vec![b["set"].clone()],
                    "set_routes" => garr(b, "set").to_vec(),
                    _ => return None,
                };
                let good = sets.iter().all(|s| match s.get("route") {
                    None | Some(Value::Null) => true,
                    Some(Value::String(r)) => {
                        if code.starts_with('w') {
                            unhx(r).is_some()
                        } else {
                            self.addr_ok(c, r)
                        }
                    }
                    _ => false,
                });
                let p = match code {
                    "igp" => "C10",
                    "wnative" | "wcw20" => "C12",
                    _ => "C18",
                };
                (vec![p], if good { Some(true) } else { None })
            }
            ("rchook", "register_custom_hook") | ("rchook", "register_custom_hooks") => {
                let l: Vec<Value> = match a {
                    Value::Array(l) => l.clone(),
                    x => vec![x.clone()],
                };
                let bad = l.iter().any(|x| unhx(gs(x, "recipient")).map(|b| b.len() != 32).unwrap_or(true));
                let v = if bad {
                    Some(false)
                } else if l.iter().all(|x| self.addr_ok(c, gs(x, "hook"))) {
                    Some(true)
                } else {
                    None
                };
                (vec!["C18"], v)
            }
            ("rchook", "clear_custom_hook") | ("rchook", "clear_custom_hooks") => (vec!["C18"], None),
            ("rfhook", "set_fallback_hook") => (vec!["C18"], addr(gs(a, "hook"))),
            ("igp", "set_default_gas") | ("igp", "set_gas_for_domain") | ("igp", "unset_gas_for_domain") => (vec!["C10"], Some(true)),
            ("igp", "set_beneficiary") => (vec!["C09"], addr(gs(a, "beneficiary"))),
            ("oracle", "set_remote_gas_data") => (vec!["C10"], Some(gu(&a["config"], "token_exchange_rate") != 0)),
            ("oracle", "set_remote_gas_data_configs") => {
                (vec!["C10"], Some(garr(a, "configs").iter().all(|x| gu(x, "token_exchange_rate") != 0)))
            }
            ("wnative", "connection") | ("wcw20", "connection") => {
                let (v, b) = variant(a);
                (vec![], addr(gs(b, &v[4.min(v.len())..])))
            }
            _ => return None,
        })
    }

    // ---- outcomes of transactions --------------------------------------------------------------

    pub fn msg_of_dispatch(&self, c: usize, mb: &str, sender: &str, d: &Value) -> Option<Msg> {
        let k = self.cm(c, mb)?;
        Some(Msg {
            version: 3,
            nonce: k.nonce,
            origin: k.domain,
            sender: addr_to_wire(sender)?,
            dest: gu(d, "dest_domain") as u32,
            recipient: ghex(d, "recipient_addr").try_into().ok()?,
            body: ghex(d, "msg_body"),
        })
    }

    /// Which parts of the quote exist: (required, chosen)
    pub fn dispatch_quotes(&self, c: usize, mb: &str, m: &Msg, d: &Value) -> Option<(String, Q, String, Q)> {
        let k = self.cm(c, mb)?;
        let rh = k.rhook.clone()?;
        let dh = k.dhook.clone()?;
        let h = match d.get("hook") {
            Some(Value::String(s)) => s.clone(),
            _ => dh,
        };
        let meta = ghex(d, "metadata");
        let (a, b) = (self.quote(c, &rh, &meta, m, 0), self.quote(c, &h, &meta, m, 0));
        Some((rh, a, h, b))
    }

    pub fn predict_dispatch(&self, c: usize, mb: &str, sender: &str, d: &Value, funds: &Coins, quoted: bool) -> Expect {
        let k = match self.cm(c, mb) {
            Some(k) => k,
            None => return Expect::none(),
        };
        if ghex(d, "recipient_addr").len() != 32 {
            return if k.rhook.is_some() && k.dhook.is_some() {
                Expect::fail(vec!["C05"], "recipient is not 32 bytes")
            } else {
                Expect::none()
            };
        }
        let m = match self.msg_of_dispatch(c, mb, sender, d) {
            Some(m) => m,
            None => return Expect::none(),
        };
        if k.nonce == u32::MAX {
            return Expect::none();
        }
        let (rh, rq, h, hq) = match self.dispatch_quotes(c, mb, &m, d) {
            Some(x) => x,
            None => return Expect::none(),
        };
        if d.get("hook").map(|x| !x.is_null()).unwrap_or(false) && !self.addr_ok(c, &h) {
            return Expect::none();
        }
        let rq = match rq {
            Q::Known(q) => q,
            _ => return Expect::none(),
        };
        // what the mailbox quoted for this state has to be enough, whatever it is
        let paid = match (quoted, &hq) {
            (true, Q::Known(h)) => {
                let mut p = rq.clone();
                if coins_add(&mut p, h).is_none() {
                    return Expect::none();
                }
                p
            }
            _ => funds.clone(),
        };
        let rest = match coins_sub(&paid, &rq) {
            Some(r) => r,
            None => return Expect::fail(vec!["C07"], "the attached funds do not cover the required hook"),
        };
        let meta = ghex(d, "metadata");
        // a puppet acting on its own before the others changes what they see
        if self.scripted(c, &rh, &m, 0) {
            return Expect::none();
        }
        let a = self.hook_pred(c, &rh, &meta, &m, &rq, Some(mb), 0);
        let b = self.hook_pred(c, &h, &meta, &m, &rest, Some(mb), 0);
        match (a, b) {
            (Tri::No(p), _) => Expect::fail(p, "the required hook must refuse"),
            (_, Tri::No(p)) if !self.scripted(c, &h, &m, 0) => Expect::fail(p, "the chosen hook must refuse"),
            (Tri::Yes, Tri::Yes) => {
                if quoted {
                    Expect::ok(vec!["C08"], "every hook is open and the quote was paid exactly")
                } else {
                    Expect::ok(vec![], "every hook is open and paid")
                }
            }
            _ => Expect::none(),
        }
    }

    pub fn predict_process(&self, c: usize, mb: &str, a: &Value) -> Expect {
        let k = match self.cm(c, mb) {
            Some(k) => k,
            None => return Expect::none(),
        };
        let (bytes, meta) = (ghex(a, "message"), ghex(a, "metadata"));
        let m = match Msg::dec(&bytes) {
            Some(m) => m,
            None => return Expect::fail(vec!["C04"], "not a message"),
        };
        if m.version != 3 {
            return Expect::fail(vec!["C04"], "another protocol version");
        }
        if m.dest != k.domain {
            return Expect::fail(vec!["C04"], "another destination");
        }
        let id = m.id();
        let key = (c, mb.to_string());
        if self.m.delivered.get(&key).map(|d| d.contains_key(&id)).unwrap_or(false) {
            return Expect::fail(vec!["C01"], "already delivered");
        }
        let r = match wire_to_addr(&k.hrp, &m.recipient) {
            Some(r) => r,
            None => return Expect::none(),
        };
        let ism = match self.spec(c, &r) {
            Err(()) => return Expect::none(),
            Ok(Some(i)) => {
                if k.dism.is_none() {
                    return Expect::none();
                }
                i
            }
            Ok(None) => match &k.dism {
                Some(d) => d.clone(),
                None => return Expect::none(),
            },
        };
        match self.ism_pred(c, &ism, &meta, &bytes, 0) {
            // whether the ISM is right is judged where it answers
            V::False | V::Err | V::No => return Expect::fail(vec![], "its ISM does not verify it"),
            V::Unk => return Expect::none(),
            V::Yes => {}
        }
        match self.recipient_pred(c, mb, &m, &r) {
            Tri::No(p) => Expect::fail(p, "the recipient must refuse"),
            Tri::Unk => Expect::none(),
            Tri::Yes => {
                let mut p = vec!["C24"];
                if self.m.tried.get(&key).map(|d| d.contains(&id)).unwrap_or(false) {
                    p.push("C01");
                }
                let payee = self.cm(c, &r).and_then(|w| m.body.get(..32).and_then(|p| wire_to_addr(&w.hrp, p)));
                if ["wnative", "wcw20"].contains(&self.code(c, &r)) && payee.is_some() {
                    p.push("C11");
                }
                Expect::ok(p, "verified, undelivered and the recipient is healthy")
            }
        }
    }

    /// Prediction for an owner-only call.
    pub fn predict_owner(&self, k: &CM, from: &str, mut props: Props, valid: Option<bool>) -> Expect {
        let own = k.owner.as_deref() == Some(from);
        if !own {
            props.insert(0, "C14");
            if k.past.contains(from) || k.pending.as_deref() == Some(from) {
                props.push("C13");
            }
            return Expect::fail(props, "not the owner");
        }
        match valid {
            Some(true) => {
                let mut p = vec!["C14"];
                p.extend(props.into_iter().filter(|x| *x != "C14"));
                if k.moved {
                    p.push("C13");
                }
                Expect::ok(p, "the owner's valid configuration call")
            }
            Some(false) => Expect::fail(props, "invalid configuration"),
            None => Expect::none(),
        }
    }

    #[allow(clippy::too_many_arguments)]
    pub fn predict(
        &self,
        c: usize,
        from: &str,
        to: &str,
        msg: &Value,
        funds: &[(u128, String)],
        quoted: Option<&Vec<(u128, String)>>,
        not_exact: bool,
    ) -> Expect {
        let code = self.code(c, to);
        let k = match self.cm(c, to) {
            Some(k) => k,
            None => return Expect::none(),
        };
        for (a, d) in funds {
            if self.chains[c].bal(from, d) < *a {
                return Expect::none();
            }
        }
        let fc = coins_of(funds);
        let (key, a) = variant(msg);
        let _ = not_exact;
        if let Some((props, valid)) = self.config_of(c, to, code, msg) {
            return self.predict_owner(k, from, props, valid);
        }
        match (code, key) {
            (_, "ownable") | ("oracle", "ownership") => match variant(a).0 {
                "init_ownership_transfer" => {
                    if k.owner.as_deref() != Some(from) {
                        Expect::fail(vec!["C13"], "only the owner nominates")
                    } else if k.pending.is_some() {
                        Expect::fail(vec!["C13"], "a nomination is pending")
                    } else if self.addr_ok(c, gs(variant(a).1, "next_owner")) {
                        Expect::ok(vec!["C13"], "the owner nominates")
                    } else {
                        Expect::none()
                    }
                }
                "revoke_ownership_transfer" => {
                    if k.owner.as_deref() != Some(from) {
                        Expect::fail(vec!["C13"], "only the owner revokes")
                    } else if k.pending.is_some() {
                        Expect::ok(vec!["C13"], "the owner revokes")
                    } else {
                        Expect::none()
                    }
                }
                "claim_ownership" => {
                    if k.pending.as_deref() == Some(from) {
                        Expect::ok(vec!["C13"], "the nominee claims")
                    } else {
                        Expect::fail(vec!["C13"], "only the nominee claims")
                    }
                }
                _ => Expect::none(),
            },
            ("mailbox", "dispatch") => {
                // paid exactly what the contract itself quoted
                let exact = quoted.map(|q| coins_of(q) == fc).unwrap_or(false);
                self.predict_dispatch(c, to, from, a, &fc, exact)
            }
            ("mailbox", "process") => self.predict_process(c, to, a),
            (_, "post_dispatch") if HOOKS.contains(&code) => {
                let m = match Msg::dec(&ghex(a, "message")) {
                    Some(m) => m,
                    None => return Expect::none(),
                };
                if self.scripted(c, to, &m, 0) {
                    return Expect::none();
                }
                match self.hook_pred(c, to, &ghex(a, "metadata"), &m, &fc, None, 0) {
                    Tri::Yes => Expect::ok(vec![], "this hook accepts it"),
                    Tri::No(p) => Expect::fail(p, "this hook refuses it"),
                    Tri::Unk => Expect::none(),
                }
            }
            ("igp", "pay_for_gas") => {
                let g: Uint256 = match gs(a, "gas_amount").parse() {
                    Ok(g) => g,
                    Err(_) => return Expect::none(),
                };
                match self.pay_pred(c, to, gu(a, "dest_domain") as u32, g, &fc) {
                    Tri::Yes if self.addr_ok(c, gs(a, "refund_address")) => Expect::ok(vec!["C09"], "a sufficient gas payment"),
                    Tri::No(p) => Expect::fail(p, "not a sufficient gas payment"),
                    _ => Expect::none(),
                }
            }
            ("igp", "claim") => {
                if k.beneficiary != from {
                    Expect::fail(vec!["C09"], "only the beneficiary claims")
                } else if self.chains[c].bal(to, &k.gas_token) > 0 {
                    Expect::ok(vec!["C09"], "the beneficiary claims")
                } else {
                    Expect::none()
                }
            }
            ("fee", "fee_hook") if a.get("claim").is_some() => {
                let bal: u128 = self.chains[c].st.borrow().bank.get(to).map(|m| m.values().fold(0, |x: u128, y| x.saturating_add(*y))).unwrap_or(0);
                let r = a["claim"].get("recipient").and_then(|x| x.as_str()).unwrap_or(from);
                if k.owner.as_deref() != Some(from) {
                    Expect::fail(vec!["C20"], "only the owner claims")
                } else if bal > 0 && self.addr_ok(c, r) {
                    Expect::ok(vec!["C20"], "the owner claims")
                } else {
                    Expect::none()
                }
            }
            ("va", "announce") => {
                let v = ghex(a, "validator");
                let sig = ghex(a, "signature");
                let loc = gs(a, "storage_location");
                let v20: [u8; 20] = match v.try_into() {
                    Ok(v) => v,
                    Err(_) => return Expect::fail(vec!["C22"], "not a validator address"),
                };
                if k.ann.get(&v20).map(|l| l.iter().any(|x| x == loc)).unwrap_or(false) {
                    return Expect::fail(vec!["C22"], "announced before");
                }
                let mb = bech_dec(&k.mailbox).map(|x| x.1).unwrap_or_default();
                let d = announce_digest(k.domain, &pad32(&mb), loc);
                let ok = sig.len() >= 65 && recover(&d, &sig[..65]) == Some(v20);
                if !ok {
                    Expect::fail(vec!["C22"], "not the validator's signature")
                } else if sig.len() == 65 {
                    Expect::ok(vec!["C22"], "a correctly signed new announcement")
                } else {
                    Expect::none()
                }
            }
            ("wnative", "handle") | ("wcw20", "handle") => {
                let from_mb = k.wmb.as_deref() == Some(from) || k.cmb.as_deref() == Some(from);
                let rt = k.routes.get(&(gu(a, "origin") as u32)).cloned().flatten();
                if !from_mb || rt.is_none() || rt.and_then(|r| unhx(&r)) != unhx(gs(a, "sender")) {
                    Expect::fail(vec!["C12"], "not a delivery by its mailbox from the enrolled route")
                } else {
                    let sender: [u8; 32] = match ghex(a, "sender").try_into() {
                        Ok(s) => s,
                        Err(_) => return Expect::none(),
                    };
                    let m = Msg { version: 3, nonce: 0, origin: gu(a, "origin") as u32, sender, dest: 0, recipient: [0; 32], body: ghex(a, "body") };
                    let payee = m.body.get(..32).and_then(|r| wire_to_addr(&k.hrp, r));
                    match self.recipient_pred(c, from, &m, to) {
                        Tri::Yes if payee.is_some() => Expect::ok(vec!["C11"], "a delivery by its mailbox from the enrolled route"),
                        Tri::No(p) if !p.is_empty() => Expect::fail(p, "a transfer that cannot be paid out"),
                        _ => Expect::none(),
                    }
                }
            }
            ("wnative", "transfer_remote") | ("wcw20", "transfer_remote") => self.predict_transfer(c, from, to, k, a, &fc, quoted),
            _ => Expect::none(),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn predict_transfer(&self, c: usize, from: &str, to: &str, k: &CM, a: &Value, fc: &Coins, quoted: Option<&Vec<(u128, String)>>) -> Expect {
        let dest = gu(a, "dest_domain") as u32;
        let amt = gu(a, "amount");
        let rt = match k.routes.get(&dest).cloned().flatten() {
            Some(r) => r,
            None => return Expect::fail(vec!["C12"], "no route to that domain"),
        };
        let rec = ghex(a, "recipient");
        if rec.len() != 32 {
            return Expect::fail(vec!["C11"], "the recipient cannot be encoded");
        }
        let native = self.code(c, to) == "wnative";
        let mut rest = fc.clone();
        if native {
            match coins_sub(fc, &coins_of(&[(amt, k.token.clone())])) {
                Some(r) => rest = r,
                None => return Expect::fail(vec!["C11"], "the amount was not attached"),
            }
        } else if self.cw20_bal(c, &k.token, from) < amt {
            return Expect::fail(vec!["C11"], "the sender does not have the amount");
        }
        if k.cmb.is_some() || amt == 0 {
            return Expect::none();
        }
        if !native {
            let al = self.chains[c].query(&k.token, &json!({"allowance": {"owner": from, "spender": to}}));
            match al {
                Ok(v) if gu(&v, "allowance") >= amt && v.get("expires").map(|e| e.get("never").is_some()).unwrap_or(true) => {}
                _ => return Expect::none(),
            }
        }
        let mb = match &k.wmb {
            Some(m) if self.code(c, m) == "mailbox" => m.clone(),
            _ => return Expect::none(),
        };
        let mut body = rec;
        body.extend_from_slice(&Uint256::from(amt).to_be_bytes());
        let hook = match a.get("hook") {
            Some(Value::String(s)) => Some(s.clone()),
            _ => k.whook.clone(),
        };
        let d = json!({"dest_domain": dest, "recipient_addr": rt, "msg_body": hx(&body), "hook": hook, "metadata": a.get("metadata").cloned().unwrap_or(Value::Null)});
        // exactness against the contract's own quote for the same dispatch
        let exact = quoted.map(|q| coins_of(q) == rest).unwrap_or(false);
        let mut e = self.predict_dispatch(c, &mb, to, &d, &rest, exact);
        if e.must == Some(false) {
            // the refusal is the mailbox's; a route that is not 32 bytes is refused too
            e.why = format!("the dispatch must fail: {}", e.why);
        }
        e
    }

    pub fn predict_inst(&self, c: usize, code: &str, msg: &Value) -> Expect {
        let _ = c;
        if code == "aism" {
            let n = strs(msg, "isms").len() as u128;
            let t = gu(msg, "threshold");
            if t < 1 || t > n {
                return Expect::fail(vec!["C17"], "threshold out of range at creation");
            }
        }
        Expect::none()
    }

    // ---- answers to queries --------------------------------------------------------------------

    pub fn expect_query(&self, c: usize, to: &str, msg: &Value) -> Option<(Ans, Props)> {
        let code = self.code(c, to);
        let k = self.cm(c, to)?;
        let (key, a) = variant(msg);
        let (sub, b) = variant(a);
        let opt = |x: &Option<String>| x.clone().map(Value::String).unwrap_or(Value::Null);
        let val = |v: Value, p: Props| Some((Ans::Val(v), p));
        let or_fail = |v: Option<Value>, p: Props| Some((v.map(Ans::Val).unwrap_or(Ans::Fail), p));
        match (code, key, sub) {
            (_, "ownable", "get_owner") => val(json!({"owner": k.owner}), vec!["C13"]),
            (_, "ownable", "get_pending_owner") => val(json!({"pending_owner": k.pending}), vec!["C13"]),
            ("mailbox", "mailbox", "hrp") => val(json!({"hrp": k.hrp}), vec!["C14"]),
            ("mailbox", "mailbox", "local_domain") => val(json!({"local_domain": k.domain}), vec!["C14"]),
            ("mailbox", "mailbox", "nonce") => val(json!({"nonce": k.nonce}), vec!["C05"]),
            ("mailbox", "mailbox", "latest_dispatch_id") => match k.latest {
                Some(i) => val(json!({"message_id": hx(&i)}), vec!["C05"]),
                None => None,
            },
            ("mailbox", "mailbox", "default_ism") => or_fail(k.dism.clone().map(|x| json!({"default_ism": x})), vec!["C14"]),
            ("mailbox", "mailbox", "default_hook") => or_fail(k.dhook.clone().map(|x| json!({"default_hook": x})), vec!["C14"]),
            ("mailbox", "mailbox", "required_hook") => or_fail(k.rhook.clone().map(|x| json!({"required_hook": x})), vec!["C14"]),
            ("mailbox", "mailbox", "recipient_ism") => {
                let d = k.dism.clone()?;
                let r = gs(b, "recipient_addr");
                if !self.addr_ok(c, r) {
                    return None;
                }
                match self.spec(c, r) {
                    Ok(Some(i)) => val(json!({"ism": i}), vec!["C04"]),
                    Ok(None) => val(json!({"ism": d}), vec!["C04"]),
                    Err(()) if self.code(c, r) == "puppet" && gs(&self.puppet_cfg(c, r), "ism") == "err" => Some((Ans::Fail, vec!["C04"])),
                    Err(()) => None,
                }
            }
            ("mailbox", "mailbox", "message_delivered") => {
                let id: [u8; 32] = ghex(b, "id").try_into().ok()?;
                let d = self.m.delivered.get(&(c, to.to_string())).map(|d| d.contains_key(&id)).unwrap_or(false);
                val(json!({"delivered": d}), vec!["C01"])
            }
            (_, "ism", "module_type") => {
                let t = match code {
                    "msism" => "message_id_multisig",
                    "aism" => "aggregation",
                    "rism" => "routing",
                    "pism" => "null",
                    _ => return None,
                };
                val(json!({ "type": t }), vec!["C24"])
            }
            ("merkle", "hook", "mailbox") => val(json!({"mailbox": k.mailbox}), vec!["C06"]),
            ("merkle", "merkle_hook", "count") => val(json!({"count": k.tree.count()}), vec!["C06"]),
            ("merkle", "merkle_hook", "root") => val(json!({"root": hx(&k.tree.root())}), vec!["C06"]),
            ("merkle", "merkle_hook", "check_point") => {
                // an empty tree has no last index; the contract answers 0
                let n = k.tree.count().saturating_sub(1);
                val(json!({"root": hx(&k.tree.root()), "count": n}), vec!["C06"])
            }
            ("fee", "fee_hook", "fee") => val(json!({"fee": {"amount": k.fee.0.to_string(), "denom": k.fee.1}}), vec!["C20", "C14"]),
            ("phook" | "pism", "pausable", "pause_info") => val(json!({"paused": k.paused}), vec!["C15", "C14"]),
            ("ahook", "aggregate_hook", "hooks") => val(json!({"hooks": k.hooks}), vec!["C19", "C14"]),
            (_, "router", "domains") => val(json!({"domains": k.routes.keys().collect::<Vec<_>>()}), vec!["C21"]),
            (_, "router", "get_route") => {
                let d = gu(b, "domain") as u32;
                val(json!({"route": {"domain": d, "route": opt(&k.routes.get(&d).cloned().flatten())}}), vec!["C21", "C14"])
            }
            (_, "router", "list_routes") => {
                let all: Vec<(u32, Value)> = k.routes.iter().map(|(d, r)| (*d, json!({"domain": d, "route": opt(r)}))).collect();
                let p = page(&all, b.get("offset").and_then(|x| x.as_u64()).map(|x| x as u32), b);
                or_fail(p.map(|l| json!({ "routes": l })), vec!["C21", "C14"])
            }
            ("rchook", "custom_routing_hook", "custom_hook") => {
                let d = gu(b, "dest_domain") as u32;
                let r = unhx(gs(b, "recipient"))?;
                let v = k.custom.get(&(d, r.clone())).map(|h| json!({"dest_domain": d, "recipient": hx(&r), "hook": h}));
                or_fail(v, vec!["C21", "C14", "C18"])
            }
            ("rchook", "custom_routing_hook", "custom_hooks") => {
                let d = gu(b, "dest_domain") as u32;
                let all: Vec<(Vec<u8>, Value)> = k
                    .custom
                    .iter()
                    .filter(|x| x.0 .0 == d)
                    .map(|((d, r), h)| (r.clone(), json!({"dest_domain": d, "recipient": hx(r), "hook": h})))
                    .collect();
                let off = match b.get("offset") {
                    Some(Value::String(s)) => Some(unhx(s)?),
                    _ => None,
                };
                or_fail(page(&all, off, b).map(|l| json!({ "custom_hooks": l })), vec!["C21", "C14"])
            }
            ("igp", "igp", "default_gas") => val(json!({"gas": k.default_gas.to_string()}), vec!["C10", "C14"]),
            ("igp", "igp", "gas_for_domain") => {
                let mut o = vec![];
                for d in garr(b, "domains") {
                    let d = d.as_u64()? as u32;
                    match k.gas.get(&d) {
                        Some(g) => o.push(json!([d, g.to_string()])),
                        None => return Some((Ans::Fail, vec!["C10", "C21"])),
                    }
                }
                val(json!({ "gas": o }), vec!["C10", "C21", "C14"])
            }
            ("igp", "igp", "list_gas_for_domains") => {
                let all: Vec<(u32, Value)> = k.gas.iter().map(|(d, g)| (*d, json!([d, g.to_string()]))).collect();
                let p = page(&all, b.get("offset").and_then(|x| x.as_u64()).map(|x| x as u32), b);
                or_fail(p.map(|l| json!({ "gas": l })), vec!["C21", "C14"])
            }
            ("igp", "igp", "beneficiary") => val(json!({"beneficiary": k.beneficiary}), vec!["C09", "C14"]),
            ("igp", "igp", "quote_gas_payment") => {
                let g: Uint256 = gs(b, "gas_amount").parse().ok()?;
                match self.needed(c, to, gu(b, "dest_domain") as u32, g) {
                    Ok(x) => or_fail(x.map(|x| json!({"gas_needed": x.to_string()})), vec!["C10"]),
                    Err(()) => None,
                }
            }
            ("igp", "oracle", _) => {
                let d = gu(b, "dest_domain") as u32;
                let o = match k.routes.get(&d).cloned().flatten() {
                    Some(o) => o,
                    None => return Some((Ans::Fail, vec!["C10"])),
                };
                if self.code(c, &o) != "oracle" {
                    return None;
                }
                let v = self.cm(c, &o)?.data.get(&d).map(|(r, p)| json!({"gas_price": p.to_string(), "exchange_rate": r.to_string()}));
                or_fail(v, vec!["C10"])
            }
            ("oracle", "oracle", _) => {
                let d = gu(b, "dest_domain") as u32;
                let v = k.data.get(&d).map(|(r, p)| json!({"gas_price": p.to_string(), "exchange_rate": r.to_string()}));
                or_fail(v, vec!["C10", "C14"])
            }
            ("msism", "multisig_ism", "enrolled_validators") => {
                let v = k.sets.get(&(gu(b, "domain") as u32)).map(|(t, l)| json!({"threshold": t, "validators": l.iter().map(|x| hx(x)).collect::<Vec<_>>()}));
                or_fail(v, vec!["C02", "C14"])
            }
            ("msism", "ism", "verify_info") => {
                let m = Msg::dec(&ghex(b, "message"))?;
                let v = k.sets.get(&m.origin).map(|(t, l)| json!({"threshold": t, "validators": l.iter().map(|x| hx(x)).collect::<Vec<_>>()}));
                or_fail(v, vec!["C02"])
            }
            ("aism", "aggregate_ism", "isms") => val(json!({"isms": k.isms, "threshold": k.thr}), vec!["C17", "C14"]),
            ("aism", "ism", "verify_info") => {
                let v: Vec<String> = k.isms.iter().filter_map(|x| bech_dec(x)).map(|x| hx(&x.1)).collect();
                val(json!({"threshold": k.thr, "validators": v}), vec!["C17"])
            }
            ("rism", "routing_ism", "route") => {
                let m = Msg::dec(&ghex(b, "message"))?;
                or_fail(k.mods.get(&m.origin).map(|i| json!({ "ism": i })), vec!["C16", "C14"])
            }
            ("va", "get_announced_validators", _) => {
                val(json!({"validators": k.ann.iter().filter(|x| !x.1.is_empty()).map(|x| hx(x.0)).collect::<Vec<_>>()}), vec!["C22"])
            }
            ("va", "get_announce_storage_locations", _) => {
                let mut o = vec![];
                for v in strs(a, "validators") {
                    let b: Option<[u8; 20]> = unhx(&v).and_then(|x| x.try_into().ok());
                    let l = b.and_then(|b| k.ann.get(&b).cloned()).unwrap_or_default();
                    o.push(json!([v, l]));
                }
                val(json!({ "storage_locations": o }), vec!["C22"])
            }
            ("va", "mailbox", _) => val(json!({"mailbox": hx(&bech_dec(&k.mailbox)?.1)}), vec!["C22"]),
            ("va", "local_domain", _) => val(json!({"local_domain": k.domain}), vec!["C22"]),
            ("wnative" | "wcw20", "connection", "get_hook") => val(json!({"hook": k.whook}), vec!["C14"]),
            ("wnative" | "wcw20", "connection", "get_ism") => val(json!({"ism": k.wism}), vec!["C14"]),
            ("wnative" | "wcw20", "ism_specifier", _) => val(json!({"ism": k.wism}), vec!["C04", "C14"]),
            ("wnative" | "wcw20", "token_default", "token_mode") => {
                val(json!({"mode": if k.bridged { "bridged" } else { "collateral" }}), vec!["C14"])
            }
            _ => None,
        }
    }

    /// Everything on a chain that can receive messages.
    pub fn recipients(&self, c: usize) -> Vec<String> {
        let mut o: Vec<String> = ["rc0", "rc1", "rc2"].iter().map(|n| self.addr(c, n)).filter(|a| self.code(c, a) == "puppet").collect();
        o.extend(self.m.cm[c].iter().filter(|x| ["wnative", "wcw20"].contains(&x.1.code)).map(|x| x.0.clone()));
        o
    }

    /// Queries that together show everything configurable about a contract.
    pub fn battery(&self, c: usize, a: &str) -> Vec<Value> {
        self.battery_of(c, a, 6)
    }

    /// The same, with at most n entries of each registry looked up one by one (which ones moves with the block height).
    pub fn battery_of(&self, c: usize, a: &str, n: usize) -> Vec<Value> {
        let at = self.chains[c].height.get() as usize;
        fn some<T: Clone>(l: Vec<T>, n: usize, at: usize) -> Vec<T> {
            let k = l.len();
            (0..k.min(n)).map(|i| l[(at + i) % k].clone()).collect()
        }
        let k = match self.cm(c, a) {
            Some(k) => k,
            None => return vec![],
        };
        let mut o = vec![];
        if k.owner.is_some() {
            o.push(json!({"ownable": {"get_owner": {}}}));
            o.push(json!({"ownable": {"get_pending_owner": {}}}));
        }
        let routed = |o: &mut Vec<Value>| {
            o.push(json!({"router": {"domains": {}}}));
            for d in some(k.routes.keys().cloned().collect(), n, at) {
                o.push(json!({"router": {"get_route": {"domain": d}}}));
            }
            o.push(json!({"router": {"list_routes": {"limit": 30}}}));
            if k.routes.len() > 30 {
                let from = k.routes.keys().nth(29);
                o.push(json!({"router": {"list_routes": {"limit": 30, "offset": from}}}));
            }
        };
        if ["msism", "aism", "rism", "pism"].contains(&k.code) {
            o.push(json!({"ism": {"module_type": {}}}));
        }
        match k.code {
            "mailbox" => {
                for x in ["hrp", "local_domain", "default_ism", "default_hook", "required_hook", "nonce", "latest_dispatch_id"] {
                    o.push(json!({"mailbox": {x: {}}}));
                }
                for r in self.recipients(c) {
                    o.push(json!({"mailbox": {"recipient_ism": {"recipient_addr": r}}}));
                }
            }
            "merkle" => {
                for x in ["count", "root", "check_point", "tree", "branch"] {
                    o.push(json!({"merkle_hook": {x: {}}}));
                }
                o.push(json!({"hook": {"mailbox": {}}}));
            }
            "fee" => o.push(json!({"fee_hook": {"fee": {}}})),
            "phook" | "pism" => o.push(json!({"pausable": {"pause_info": {}}})),
            "ahook" => o.push(json!({"aggregate_hook": {"hooks": {}}})),
            "rhook" | "rfhook" => routed(&mut o),
            "rchook" => {
                routed(&mut o);
                let mut ds: Vec<u32> = k.custom.keys().map(|x| x.0).collect();
                ds.dedup();
                for (d, r) in some(k.custom.keys().cloned().collect(), n, at) {
                    o.push(json!({"custom_routing_hook": {"custom_hook": {"dest_domain": d, "recipient": hx(&r)}}}));
                }
                for d in some(ds, n, at) {
                    o.push(json!({"custom_routing_hook": {"custom_hooks": {"dest_domain": d, "limit": 30}}}));
                }
            }
            "igp" => {
                routed(&mut o);
                o.push(json!({"igp": {"default_gas": {}}}));
                o.push(json!({"igp": {"beneficiary": {}}}));
                o.push(json!({"igp": {"list_gas_for_domains": {"limit": 30}}}));
                for d in some(k.gas.keys().cloned().collect(), n, at) {
                    o.push(json!({"igp": {"gas_for_domain": {"domains": [d]}}}));
                }
                for d in some(k.routes.keys().cloned().collect(), n.min(4), at) {
                    o.push(json!({"igp": {"quote_gas_payment": {"dest_domain": d, "gas_amount": "100000"}}}));
                    o.push(json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": d}}}));
                }
            }
            "oracle" => {
                for d in some(k.data.keys().cloned().collect(), n, at) {
                    o.push(json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": d}}}));
                }
            }
            "msism" => {
                for d in some(k.sets.keys().cloned().collect(), n, at) {
                    o.push(json!({"multisig_ism": {"enrolled_validators": {"domain": d}}}));
                }
            }
            "aism" => o.push(json!({"aggregate_ism": {"isms": {}}})),
            "rism" => {
                for d in some(k.mods.keys().cloned().collect(), n, at) {
                    let m = Msg { version: 3, nonce: 0, origin: d, sender: [1; 32], dest: 1, recipient: [2; 32], body: vec![] };
                    o.push(json!({"routing_ism": {"route": {"message": hx(&m.enc())}}}));
                }
            }
            "va" => {
                o.push(json!({"get_announced_validators": {}}));
                let vs: Vec<String> = k.ann.keys().map(|x| hx(x)).collect();
                let mut w: Vec<String> = vs.iter().rev().cloned().collect();
                w.push(hx(&[7u8; 20]));
                if w.len() < 9 {
                    w.extend((0..40u8).map(|i| hx(&[i; 20])));
                }
                w.extend(vs.first().cloned());
                o.push(json!({"get_announce_storage_locations": {"validators": vs}}));
                o.push(json!({"get_announce_storage_locations": {"validators": w}}));
                o.push(json!({"mailbox": {}}));
                o.push(json!({"local_domain": {}}));
            }
            "wnative" | "wcw20" => {
                routed(&mut o);
                o.push(json!({"connection": {"get_hook": {}}}));
                o.push(json!({"connection": {"get_ism": {}}}));
                o.push(json!({"token_default": {"token_mode": {}}}));
                o.push(json!({"token_default": {"token_type": {}}}));
                o.push(json!({"ism_specifier": {"interchain_security_module": []}}));
            }
            _ => {}
        }
        o
    }
}

/// One page of a listing, None if the request must be refused.
pub fn page<K: Ord + Clone>(all: &[(K, Value)], off: Option<K>, b: &Value) -> Option<Vec<Value>> {
    let limit = match b.get("limit") {
        Some(Value::Number(n)) => n.as_u64().unwrap_or(0) as usize,
        _ => 10,
    };
    if limit > 30 {
        return None;
    }
    let desc = gs(b, "order") == "desc";
    let mut v: Vec<&(K, Value)> = all
        .iter()
        .filter(|(k, _)| match &off {
            None => true,
            Some(o) => {
                if desc {
                    k < o
                } else {
                    k > o
                }
            }
        })
        .collect();
    if desc {
        v.reverse();
    }
    Some(v.into_iter().take(limit).map(|x| x.1.clone()).collect())
}
