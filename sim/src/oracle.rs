//! Judges every executed transaction and every answered query against the reference model, and keeps
//! the model current. The model only ever learns from transactions that committed.
use crate::chain::*;
use crate::expect::*;
use crate::model::*;
use crate::sim::*;
use crate::util::*;
use cosmwasm_std::Uint256;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

/// What is going on around the node being looked at.
#[derive(Default)]
pub struct Ctx {
    /// ids of the process calls on the stack, with their mailbox
    procs: Vec<([u8; 32], String)>,
    /// warp route -> amount it has taken and not yet dispatched
    taken: BTreeMap<String, u128>,
    touched: BTreeSet<String>,
    root: bool,
}

/// Committed messages a node sent, with replies flattened into their place.
pub fn acts(n: &Node) -> Vec<&Node> {
    let mut o = vec![];
    for k in &n.kids {
        if k.op == Op::Reply {
            if k.ok {
                o.extend(acts(k));
            }
        } else if k.ok {
            o.push(k);
        }
    }
    o
}

fn attempts(n: &Node) -> Vec<&Node> {
    let mut o = vec![];
    for k in &n.kids {
        if k.op == Op::Reply {
            o.extend(attempts(k));
        } else {
            o.push(k);
        }
    }
    o
}

/// An error of the simulated runtime's limits, not of the contracts.
pub fn limit_err(e: &str) -> bool {
    e.contains("query depth exceeded") || e.contains("call depth") || e.contains("out of gas") || e.contains("supply overflow")
}

fn exact(a: &Value, b: &Value) -> bool {
    same(a, b) && same(b, a)
}

fn show(c: &Coins) -> String {
    let v: Vec<String> = c.iter().map(|(d, a)| format!("{a}{d}")).collect();
    format!("[{}]", v.join(","))
}

fn pd(meta: &[u8], msg: &[u8]) -> Value {
    json!({"post_dispatch": {"metadata": hx(meta), "message": hx(msg)}})
}

impl Sim {
    pub fn touch_links(&mut self) {
        for l in 0..self.m.links.len() {
            if self.m.links[l].taint {
                continue;
            }
            let members = self.m.links[l].members.clone();
            let mut bad = false;
            for (c, w) in &members {
                let k = match self.cm(*c, w) {
                    Some(k) => k,
                    None => continue,
                };
                if k.cmb.is_some() || k.wmb.as_deref() != Some(self.addr(*c, "mb").as_str()) {
                    bad = true;
                    break;
                }
                let ism = match &k.wism {
                    Some(i) => Some(i.clone()),
                    None => self.cm(*c, &self.addr(*c, "mb")).and_then(|b| b.dism.clone()),
                };
                for (d, r) in &k.routes {
                    let r = match r {
                        Some(r) => unhx(r).unwrap_or_default(),
                        None => continue,
                    };
                    let peer = self.chain_of(*d).map(|cc| {
                        members.iter().any(|(mc, mw)| *mc == cc && bech_dec(mw).map(|x| pad32(&x.1).to_vec() == r).unwrap_or(false))
                    });
                    if peer != Some(true) {
                        bad = true;
                    }
                    if let Some(i) = &ism {
                        if !self.secure(*c, i, *d, 0) {
                            bad = true;
                        }
                    }
                }
            }
            if bad {
                self.m.links[l].taint = true;
                self.stat("link:tainted");
            }
        }
    }

    /// The link a warp route belongs to.
    pub fn link_of(&self, c: usize, w: &str) -> Option<usize> {
        self.m.links.iter().position(|l| l.members.iter().any(|(lc, lw)| *lc == c && lw == w))
    }

    /// (locked minus donated, bridged supply, in flight)
    pub fn link_sums(&self, l: usize) -> (i128, u128, u128) {
        let (mut locked, mut supply) = (0i128, 0u128);
        for (c, w) in &self.m.links[l].members {
            let k = match self.cm(*c, w) {
                Some(k) => k,
                None => continue,
            };
            let native = k.code == "wnative";
            if k.bridged {
                supply += if native { self.chains[*c].supply(&k.token) } else { self.cw20_supply(*c, &k.token) };
            } else {
                let b = if native { self.chains[*c].bal(w, &k.token) } else { self.cw20_bal(*c, &k.token, w) };
                let d = self.m.donated.get(&(*c, w.clone())).copied().unwrap_or(0);
                locked += b as i128 - d as i128;
            }
        }
        let inflight = self.m.inflight.values().filter(|x| x.0 == l).map(|x| x.1).sum();
        (locked, supply, inflight)
    }

    fn check_links(&mut self) {
        for l in 0..self.m.links.len() {
            if self.m.links[l].taint {
                continue;
            }
            let (locked, supply, inflight) = self.link_sums(l);
            self.m.ev("C11");
            if locked != (supply + inflight) as i128 {
                self.violate(
                    &["C11"],
                    format!("warp link {l}: {locked} locked in collateral, but bridged supply {supply} + in flight {inflight}"),
                );
            }
        }
    }

    /// The hook a failed dispatch was refused by, if that hook should have accepted.
    fn culprit(&self, c: usize, root: &Node) -> Option<&'static str> {
        let mb = if root.code == "mailbox" { Some(root.to.clone()) } else { None };
        let mut path = vec![root];
        loop {
            let last = path.last().unwrap();
            match last.kids.iter().rev().find(|k| !k.ok) {
                Some(k) => path.push(k),
                None => break,
            }
        }
        let mb = mb.or_else(|| path.iter().find(|n| n.code == "mailbox").map(|n| n.to.clone()));
        let n = path.last().unwrap();
        if n.op != Op::Exec || n.key() != "post_dispatch" || !HOOKS.contains(&n.code) {
            return None;
        }
        let (_, a) = variant(&n.msg);
        let m = Msg::dec(&ghex(a, "message"))?;
        match self.hook_pred(c, &n.to, &ghex(a, "metadata"), &m, &coins_of(&n.funds), mb.as_deref(), 0) {
            Tri::Yes => hook_prop(n.code),
            _ => None,
        }
    }

    pub fn observe(&mut self, c: usize, node: &Node, pre: Option<Expect>, limited: bool) {
        if self.no_oracle {
            return;
        }
        if let Some(e) = &pre {
            let short = |s: &str| s.chars().take(200).collect::<String>();
            match e.must {
                Some(true) if !node.ok && !limited && !node.oog && !limit_err(&node.err) => {
                    let mut props = e.props.clone();
                    if let Some(p) = self.culprit(c, node) {
                        if !props.contains(&p) {
                            props.push(p);
                        }
                    }
                    if !props.is_empty() {
                        let t = format!("{} {} must succeed ({}), but failed: {}", node.code, node.key(), e.why, short(&node.err));
                        self.violate(&props, t);
                    }
                }
                Some(false) if node.ok => {
                    let t = format!("{} {} must be refused ({}), but committed", node.code, node.key(), e.why);
                    self.violate(&e.props, t);
                }
                _ => {}
            }
            if e.must.is_some() {
                for p in &e.props {
                    self.m.ev(p);
                }
            }
        }
        let mut ctx = Ctx { root: true, ..Default::default() };
        self.visit(c, node, &mut ctx);
        // process attempts that did not commit
        let mut failed = vec![];
        node.walk_all(&mut |n| {
            if n.op == Op::Exec && n.code == "mailbox" && n.key() == "process" {
                if let Some(m) = Msg::dec(&ghex(variant(&n.msg).1, "message")) {
                    failed.push((n.to.clone(), m.id()));
                }
            }
        });
        for (mb, id) in failed {
            self.m.tried.entry((c, mb.clone())).or_default().insert(id);
            let rec = self.chains[c].query_rec(&mb, &json!({"mailbox": {"message_delivered": {"id": hx(&id)}}}));
            self.observe_query(c, &rec);
        }
        if !self.m.links.is_empty() {
            if node.ok {
                self.touch_links();
            }
            self.check_links();
        }
        ctx.touched.insert(node.to.clone());
        for t in ctx.touched {
            self.check_battery(c, &t);
            if ["puppet", "wnative", "wcw20"].contains(&self.code(c, &t)) {
                let mb = self.addr(c, "mb");
                let rec = self.chains[c].query_rec(&mb, &json!({"mailbox": {"recipient_ism": {"recipient_addr": t}}}));
                self.observe_query(c, &rec);
            }
        }
    }

    pub fn check_battery(&mut self, c: usize, a: &str) {
        for q in self.battery(c, a) {
            let rec = self.chains[c].query_rec(a, &q);
            self.observe_query(c, &rec);
        }
    }

    fn visit(&mut self, c: usize, n: &Node, ctx: &mut Ctx) {
        for q in &n.queries {
            self.observe_query(c, q);
        }
        if !n.ok {
            self.prefix(c, n);
            return;
        }
        if self.m.cm[c].contains_key(&n.to) || n.op == Op::Inst {
            ctx.touched.insert(n.to.clone());
        }
        let was_root = ctx.root;
        let depth = ctx.procs.len();
        match n.op {
            Op::Exec => self.exec_rule(c, n, ctx),
            Op::Inst => self.inst_rule(c, n),
            Op::BankSend => self.donate(c, &n.to, &n.funds),
            _ => {}
        }
        ctx.root = false;
        for k in &n.kids {
            self.visit(c, k, ctx);
        }
        ctx.procs.truncate(depth);
        if was_root {
            self.after_root(c, n);
        }
    }

    /// Things left behind after a whole transaction.
    fn after_root(&mut self, c: usize, n: &Node) {
        if n.op != Op::Exec {
            return;
        }
        let (key, a) = variant(&n.msg);
        match (n.code, key) {
            ("igp", "claim") => {
                let k = match self.cm(c, &n.to) {
                    Some(k) => k,
                    None => return,
                };
                if k.beneficiary != n.to {
                    let left = self.chains[c].bal(&n.to, &k.gas_token);
                    if left != 0 {
                        self.violate(&["C09"], format!("claim left {left} gas tokens in the paymaster"));
                    }
                }
            }
            ("fee", "fee_hook") if a.get("claim").is_some() => {
                let r = gs(&a["claim"], "recipient");
                if r != n.to {
                    let left: usize = self.chains[c].st.borrow().bank.get(&n.to).map(|m| m.len()).unwrap_or(0);
                    if left != 0 {
                        self.violate(&["C20"], "claim left coins in the fee hook".into());
                    }
                }
            }
            _ => {}
        }
    }

    /// Calls attempted by a forwarder whose transaction failed must still be the right ones so far.
    fn prefix(&mut self, c: usize, n: &Node) {
        if n.op != Op::Exec {
            return;
        }
        let (key, a) = variant(&n.msg);
        let got = attempts(n);
        let (exp, prop): (Vec<(String, Value, Option<Coins>)>, &'static str) = match (n.code, key) {
            ("mailbox", "dispatch") => match self.dispatch_acts(c, n, a) {
                Some(e) => (e, "C07"),
                None => return,
            },
            ("rhook" | "rchook" | "rfhook", "post_dispatch") => match self.routing_acts(c, n, a) {
                Some(e) => (e, "C18"),
                None => return,
            },
            ("ahook", "post_dispatch") => match self.aggregate_acts(c, n, a) {
                Some(e) => (e, "C19"),
                None => return,
            },
            _ => return,
        };
        self.m.ev(prop);
        // a call that cannot even be formed is not in the tree
        if let Some(t) = self.compare_acts(&got, &exp, true) {
            self.violate(&[prop], format!("{} {}: {t}", n.code, key));
        }
    }

    fn compare_acts(&self, got: &[&Node], exp: &[(String, Value, Option<Coins>)], prefix: bool) -> Option<String> {
        if got.len() > exp.len() || (!prefix && got.len() != exp.len()) {
            return Some(format!("{} messages sent instead of {}", got.len(), exp.len()));
        }
        for (i, (g, e)) in got.iter().zip(exp).enumerate() {
            if g.op == Op::Other && (g.oog || limit_err(&g.err)) {
                break;
            }
            if g.op != Op::Exec || g.to != e.0 {
                return Some(format!("message {i} is {:?} to {} instead of a call to {}", g.op, g.to, e.0));
            }
            if g.msg != Value::Null && !exact(&e.1, &g.msg) {
                return Some(format!("message {i} to {} is {} instead of {}", e.0, g.msg, e.1));
            }
            if let Some(f) = &e.2 {
                let gf = coins_of(&g.funds);
                if gf != *f {
                    return Some(format!("message {i} to {} carries {} instead of {}", e.0, show(&gf), show(f)));
                }
            }
        }
        None
    }

    /// Fees as answered to this node by a hook.
    fn answered_quote(&self, n: &Node, hook: &str, meta: &[u8], bytes: &[u8]) -> Option<Coins> {
        let want = json!({"hook": {"quote_dispatch": {"metadata": hx(meta), "message": hx(bytes)}}});
        let q = n.queries.iter().find(|q| q.to == hook && exact(&want, &q.msg))?;
        Some(coins_json(garr(&q.val()?, "fees")))
    }

    fn quote_for(&self, c: usize, n: &Node, hook: &str, meta: &[u8], m: &Msg) -> Option<Coins> {
        match self.answered_quote(n, hook, meta, &m.enc()) {
            Some(q) => Some(q),
            None => match self.quote(c, hook, meta, m, 0) {
                Q::Known(q) => Some(q),
                _ => None,
            },
        }
    }

    fn dispatch_acts(&self, c: usize, n: &Node, a: &Value) -> Option<Vec<(String, Value, Option<Coins>)>> {
        let k = self.cm(c, &n.to)?;
        let m = self.msg_of_dispatch(c, &n.to, &n.from, a)?;
        let rh = k.rhook.clone()?;
        let h = match a.get("hook") {
            Some(Value::String(s)) => s.clone(),
            _ => k.dhook.clone()?,
        };
        let meta = ghex(a, "metadata");
        let call = pd(&meta, &m.enc());
        let rq = self.quote_for(c, n, &rh, &meta, &m);
        let rest = rq.as_ref().and_then(|q| coins_sub(&coins_of(&n.funds), q));
        Some(vec![(rh, call.clone(), rq), (h, call, rest)])
    }

    fn routing_acts(&self, c: usize, n: &Node, a: &Value) -> Option<Vec<(String, Value, Option<Coins>)>> {
        let m = Msg::dec(&ghex(a, "message"))?;
        match self.hook_target(c, &n.to, &m) {
            Ok(Some(t)) => Some(vec![(t, n.msg.clone(), Some(coins_of(&n.funds)))]),
            Ok(None) => Some(vec![]),
            Err(()) => None,
        }
    }

    fn aggregate_acts(&self, c: usize, n: &Node, a: &Value) -> Option<Vec<(String, Value, Option<Coins>)>> {
        let m = Msg::dec(&ghex(a, "message"))?;
        let meta = ghex(a, "metadata");
        let k = self.cm(c, &n.to)?;
        Some(k.hooks.iter().map(|h| (h.clone(), n.msg.clone(), self.quote_for(c, n, h, &meta, &m))).collect())
    }

    /// Tokens a collateral route got without a transfer.
    fn donate(&mut self, c: usize, to: &str, funds: &[(u128, String)]) {
        if self.m.links.is_empty() {
            return;
        }
        let tok = match self.cm(c, to) {
            Some(k) if k.code == "wnative" && !k.bridged => k.token.clone(),
            _ => return,
        };
        for (a, d) in funds {
            if *d == tok {
                *self.m.donated.entry((c, to.to_string())).or_insert(0) += a;
            }
        }
    }

    fn exec_rule(&mut self, c: usize, n: &Node, ctx: &mut Ctx) {
        let (key, a) = variant(&n.msg);
        if n.code == "cw20" {
            return self.cw20_rule(c, n, key, a);
        }
        let k = match self.cm(c, &n.to) {
            Some(k) => k.clone(),
            None => return,
        };
        if !(n.code == "wnative" && key == "transfer_remote") {
            self.donate(c, &n.to, &n.funds);
        }
        self.events_rule(c, n, key, a);
        // configuration
        if let Some((props, valid)) = self.config_of(c, &n.to, n.code, &n.msg) {
            let mut all = props.clone();
            all.insert(0, "C14");
            for p in &all {
                self.m.ev(p);
            }
            if k.owner.as_deref() != Some(n.from.as_str()) {
                let mut all = all.clone();
                if k.past.contains(&n.from) || k.pending.as_deref() == Some(n.from.as_str()) {
                    all.push("C13");
                }
                self.violate(&all, format!("{} {} by {} who is not the owner committed", n.code, n.msg, n.from));
            }
            if valid == Some(false) {
                self.violate(&props, format!("{} accepted an invalid configuration: {}", n.code, n.msg));
            }
            if !acts(n).is_empty() {
                self.violate(&["C14"], format!("{} {} sent messages", n.code, n.msg));
            }
            self.apply_config(c, &n.to, n.code, &n.msg);
            return;
        }
        match (n.code, key) {
            (_, "ownable") | ("oracle", "ownership") => self.own_rule(c, n, a),
            ("mailbox", "dispatch") => self.dispatch_rule(c, n, a, ctx),
            ("mailbox", "process") => self.process_rule(c, n, a, ctx),
            (_, "post_dispatch") => self.post_rule(c, n, a),
            ("igp", "pay_for_gas") => {
                let g: Uint256 = gs(a, "gas_amount").parse().unwrap_or_default();
                let r = Some(gs(a, "refund_address").to_string());
                self.pay_rule(c, n, gu(a, "dest_domain") as u32, g, r);
            }
            ("igp", "claim") => {
                self.m.ev("C09");
                if n.from != k.beneficiary {
                    self.violate(&["C09"], format!("claim by {} who is not the beneficiary", n.from));
                }
                let v = acts(n);
                let good = v.len() == 1 && v[0].op == Op::BankSend && v[0].to == k.beneficiary && v[0].funds.iter().all(|f| f.1 == k.gas_token);
                if !good {
                    self.violate(&["C09"], "claim is not one payment of gas tokens to the beneficiary".into());
                }
            }
            ("fee", "fee_hook") => {
                self.m.ev("C20");
                if k.owner.as_deref() != Some(n.from.as_str()) {
                    self.violate(&["C20"], format!("claim by {} who is not the owner", n.from));
                }
                let r = a.get("claim").and_then(|x| x.get("recipient")).and_then(|x| x.as_str()).unwrap_or(&n.from).to_string();
                let v = acts(n);
                if v.len() != 1 || v[0].op != Op::BankSend || v[0].to != r {
                    self.violate(&["C20"], "claim is not one payment to the named recipient".into());
                }
            }
            ("va", "announce") => self.announce_rule(c, n, a),
            ("wnative" | "wcw20", "handle") => self.handle_rule(c, n, a, ctx),
            ("wnative" | "wcw20", "transfer_remote") => self.transfer_rule(c, n, a, ctx),
            _ => {}
        }
    }

    /// What off-chain agents are told about this call must be what it did, once, and nothing else.
    fn events_rule(&mut self, c: usize, n: &Node, key: &str, a: &Value) {
        if !["mailbox", "merkle", "igp", "va", "wnative", "wcw20"].contains(&n.code) {
            return;
        }
        let mut exp: Vec<(&str, Vec<(&str, String)>)> = vec![];
        let k = match self.cm(c, &n.to) {
            Some(k) => k.clone(),
            None => return,
        };
        let pay = |s: &Self, id: String, dest: u32, gas: Uint256| -> Option<Vec<(&'static str, String)>> {
            let need = s.needed(c, &n.to, dest, gas).ok()??;
            let paid = Uint256::from(coins_of(&n.funds).get(&k.gas_token).copied().unwrap_or(0));
            let back = paid.checked_sub(need).ok()?;
            Some(vec![
                ("sender", n.from.clone()),
                ("dest_domain", dest.to_string()),
                ("message_id", id),
                ("gas_amount", gas.to_string()),
                ("gas_refunded", back.to_string()),
                ("gas_required", need.to_string()),
                ("payment", paid.to_string()),
            ])
        };
        match (n.code, key) {
            ("mailbox", "dispatch") => {
                if let Some(m) = self.msg_of_dispatch(c, &n.to, &n.from, a) {
                    exp.push(("mailbox_dispatch_id", vec![("message_id", hx(&m.id()))]));
                    let at = vec![("sender", hx(&m.sender)), ("destination", m.dest.to_string()), ("recipient", hx(&m.recipient)), ("message", hx(&m.enc()))];
                    exp.push(("mailbox_dispatch", at));
                }
            }
            ("mailbox", "process") => {
                if let Some(m) = Msg::dec(&ghex(a, "message")) {
                    exp.push(("mailbox_process_id", vec![("message_id", hx(&m.id()))]));
                    let at = vec![("origin", m.origin.to_string()), ("sender", hx(&m.sender)), ("recipient", hx(&m.recipient))];
                    exp.push(("mailbox_process", at));
                }
            }
            ("merkle", "post_dispatch") => {
                if let Some(m) = Msg::dec(&ghex(a, "message")) {
                    let at = k.tree.count().to_string();
                    exp.push(("hpl_hook_merkle::post_dispatch", vec![("message_id", hx(&m.id())), ("index", at.clone())]));
                    exp.push(("hpl_hook_merkle::inserted_into_tree", vec![("index", at)]));
                }
            }
            ("igp", "post_dispatch") => {
                if let Some(m) = Msg::dec(&ghex(a, "message")) {
                    let g = self.gas_of(c, &n.to, &ghex(a, "metadata"), m.dest);
                    match pay(self, hx(&m.id()), m.dest, g) {
                        Some(at) => exp.push(("igp-core-pay-for-gas", at)),
                        None => return,
                    }
                }
            }
            ("igp", "pay_for_gas") => {
                let g: Uint256 = gs(a, "gas_amount").parse().unwrap_or_default();
                match pay(self, gs(a, "message_id").to_string(), gu(a, "dest_domain") as u32, g) {
                    Some(at) => exp.push(("igp-core-pay-for-gas", at)),
                    None => return,
                }
            }
            ("igp", "claim") => {
                let sent: Vec<String> = acts(n).iter().flat_map(|x| x.funds.iter().map(|f| format!("{}{}", f.0, f.1))).collect();
                exp.push(("igp-core-claim", vec![("beneficiary", k.beneficiary.clone()), ("collected", sent.join(","))]));
            }
            ("va", "announce") => {
                let at = vec![
                    ("sender", n.from.clone()),
                    ("validator", gs(a, "validator").to_string()),
                    ("storage-location", gs(a, "storage_location").to_string()),
                ];
                exp.push(("validator-announcement", at));
            }
            ("wnative" | "wcw20", "handle") => {
                let b = ghex(a, "body");
                if b.len() >= 64 {
                    if let Some(r) = wire_to_addr(&k.hrp, &b[..32]) {
                        let amt = Uint256::from_be_bytes(b[32..64].try_into().unwrap());
                        exp.push(("::handle", vec![("recipient", r), ("token", k.token.clone()), ("amount", amt.to_string())]));
                    }
                }
            }
            ("wnative" | "wcw20", "transfer_remote") => {
                let at = vec![
                    ("sender", n.from.clone()),
                    ("recipient", gs(a, "recipient").to_string()),
                    ("token", k.token.clone()),
                    ("amount", gu(a, "amount").to_string()),
                ];
                exp.push(("::transfer-remote", at));
            }
            _ => {}
        }
        const SPOKEN: [&str; 10] = [
            "mailbox_dispatch_id",
            "mailbox_dispatch",
            "mailbox_process_id",
            "mailbox_process",
            "hpl_hook_merkle::post_dispatch",
            "hpl_hook_merkle::inserted_into_tree",
            "igp-core-pay-for-gas",
            "igp-core-claim",
            "validator-announcement",
            "::",
        ];
        if !exp.is_empty() {
            self.m.ev("C26");
        }
        for ty in SPOKEN {
            let is = |t: &str| match ty {
                "::" => t.ends_with("::handle") || t.ends_with("::transfer-remote"),
                _ => t.trim_start_matches("wasm-") == ty,
            };
            let got: Vec<_> = n.events.iter().filter(|e| is(&e.0)).collect();
            let want: Vec<_> = exp.iter().filter(|e| if ty == "::" { e.0.starts_with("::") } else { e.0 == ty }).collect();
            if got.len() != want.len() {
                let t = format!("{} {key} announced {} {ty} events instead of {}", n.code, got.len(), want.len());
                self.violate(&["C26"], t);
                continue;
            }
            for (g, w) in got.iter().zip(&want) {
                if ty == "::" && !g.0.ends_with(w.0) {
                    self.violate(&["C26"], format!("{} {key} announced {}", n.code, g.0));
                }
                for (ak, av) in &w.1 {
                    let has = g.1.iter().find(|x| x.0 == *ak).map(|x| x.1.clone());
                    let same = match (*ak, &has) {
                        ("storage-location", Some(h)) => h == av,
                        (_, Some(h)) => h.eq_ignore_ascii_case(av),
                        (_, None) => false,
                    };
                    if !same {
                        self.violate(&["C26"], format!("{} {key}: event {} says {ak}={} instead of {av}", n.code, g.0, has.unwrap_or_default()));
                    }
                }
            }
        }
    }

    fn cw20_rule(&mut self, c: usize, n: &Node, key: &str, a: &Value) {
        if self.m.links.is_empty() {
            return;
        }
        let r = match key {
            "transfer" | "transfer_from" | "mint" => gs(a, "recipient").to_string(),
            "send" | "send_from" => gs(a, "contract").to_string(),
            _ => return,
        };
        if n.from == r {
            return;
        }
        let hit = matches!(self.cm(c, &r), Some(k) if k.code == "wcw20" && !k.bridged && k.token == n.to);
        if hit {
            *self.m.donated.entry((c, r)).or_insert(0) += gu(a, "amount");
        }
    }

    fn own_rule(&mut self, c: usize, n: &Node, a: &Value) {
        self.m.ev("C13");
        let (v, b) = variant(a);
        let k = self.m.cm[c].get(&n.to).cloned().unwrap_or_default();
        let by_owner = k.owner.as_deref() == Some(n.from.as_str());
        let mut bad = None;
        match v {
            "init_ownership_transfer" => {
                if !by_owner {
                    bad = Some("nomination by someone other than the owner");
                } else if k.pending.is_some() {
                    bad = Some("nomination while another is pending");
                }
            }
            "revoke_ownership_transfer" => {
                if !by_owner {
                    bad = Some("revocation by someone other than the owner");
                }
            }
            "claim_ownership" => {
                if k.pending.as_deref() != Some(n.from.as_str()) {
                    bad = Some("claim by someone other than the nominee");
                }
            }
            _ => return,
        }
        if let Some(t) = bad {
            self.violate(&["C13"], format!("{}: {t} ({}) committed", n.code, n.from));
        }
        if !acts(n).is_empty() {
            self.violate(&["C13"], format!("{}: an ownership call sent messages", n.code));
        }
        if let Some(k) = self.m.cm[c].get_mut(&n.to) {
            match v {
                "init_ownership_transfer" => k.pending = Some(gs(b, "next_owner").to_string()),
                "revoke_ownership_transfer" => {
                    if let Some(p) = k.pending.take() {
                        k.past.insert(p);
                    }
                }
                _ => {
                    if let Some(o) = k.owner.take() {
                        k.past.insert(o);
                    }
                    k.past.remove(&n.from);
                    k.owner = Some(n.from.clone());
                    k.pending = None;
                    k.moved = true;
                }
            }
        }
    }

    fn dispatch_rule(&mut self, c: usize, n: &Node, a: &Value, ctx: &mut Ctx) {
        for p in ["C05", "C07"] {
            self.m.ev(p);
        }
        let m = match self.msg_of_dispatch(c, &n.to, &n.from, a) {
            Some(m) => m,
            None => {
                self.violate(&["C05"], format!("a dispatch that cannot be a message committed: {a}"));
                return;
            }
        };
        let bytes = m.enc();
        let id = keccak(&bytes);
        // what it said about the message
        let data: Value = n.data.as_ref().and_then(|d| serde_json::from_slice(d).ok()).unwrap_or(Value::Null);
        if gs(&data, "message_id") != hx(&id) {
            self.violate(&["C05"], format!("dispatch returned {data} for message id {}", hx(&id)));
        }
        let mut seen = (false, false);
        for (t, at) in &n.events {
            let get = |k: &str| at.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or_default();
            if t.ends_with("mailbox_dispatch_id") {
                seen.0 = true;
                if get("message_id") != hx(&id) {
                    self.violate(&["C05"], format!("dispatch event announces id {} for {}", get("message_id"), hx(&id)));
                }
            } else if t.ends_with("mailbox_dispatch") {
                seen.1 = true;
                let exp = [("sender", hx(&m.sender)), ("destination", m.dest.to_string()), ("recipient", hx(&m.recipient)), ("message", hx(&bytes))];
                for (k, v) in exp {
                    if get(k) != v {
                        self.violate(&["C05"], format!("dispatch event has {k}={} instead of {v}", get(k)));
                    }
                }
            }
        }
        if seen != (true, true) {
            self.violate(&["C05"], "dispatch events are missing".into());
        }
        // hooks and money
        if let Some(exp) = self.dispatch_acts(c, n, a) {
            let got = acts(n);
            if let Some(t) = self.compare_acts(&got, &exp, false) {
                // a wrong message is also untruthful
                let msg_bad = got.iter().any(|g| g.key() == "post_dispatch" && gs(variant(&g.msg).1, "message") != hx(&bytes));
                if msg_bad {
                    self.violate(&["C05"], format!("hooks were given another message: {t}"));
                }
                self.violate(&["C07"], format!("dispatch: {t}"));
            }
            let mut sum = Coins::new();
            for g in &got {
                let _ = coins_add(&mut sum, &coins_of(&g.funds));
            }
            if sum != coins_of(&n.funds) {
                self.violate(&["C07"], format!("dispatch with {} passed on {}", show(&coins_of(&n.funds)), show(&sum)));
            }
        }
        let canon = self.addr(c, "mb");
        if n.to == canon || !self.m.ghost.contains_key(&id) {
            self.m.ghost.insert(id, (c, n.to.clone()));
        }
        if let Some(k) = self.m.cm[c].get_mut(&n.to) {
            k.nonce = k.nonce.wrapping_add(1);
            k.latest = Some(id);
        }
        if let Some(amt) = ctx.taken.remove(&n.from) {
            if let Some(l) = self.link_of(c, &n.from) {
                self.m.inflight.insert(id, (l, amt));
            }
        }
        // ideal ISMs learn of it
        let ids: Vec<(usize, String)> = (0..self.chains.len()).map(|i| (i, self.addr(i, "ideal"))).collect();
        if n.to == canon {
            for (i, a) in ids {
                self.chains[i].poke(&a, &[b"known:".as_slice(), &id].concat(), Some(b"1"));
            }
        }
    }

    fn process_rule(&mut self, c: usize, n: &Node, a: &Value, ctx: &mut Ctx) {
        for p in ["C01", "C04"] {
            self.m.ev(p);
        }
        let bytes = ghex(a, "message");
        let meta = gs(a, "metadata").to_string();
        let m = match Msg::dec(&bytes) {
            Some(m) => m,
            None => {
                self.violate(&["C04"], "process of something that is not a message committed".into());
                return;
            }
        };
        let id = keccak(&bytes);
        let step = self.n as u32;
        // a message is delivered once it was handed over, not by a call that merely succeeded
        let handed = acts(n).iter().any(|x| x.key() == "handle");
        let d = self.m.delivered.entry((c, n.to.clone())).or_default();
        let before = if handed { d.insert(id, step) } else { d.get(&id).copied() };
        if let Some(s) = before {
            self.violate(&["C01"], format!("message {} delivered again (first in step {s})", hx(&id)));
        }
        let k = match self.cm(c, &n.to) {
            Some(k) => k.clone(),
            None => return,
        };
        if m.version != 3 || m.dest != k.domain {
            self.violate(&["C04"], format!("message of version {} for domain {} committed", m.version, m.dest));
        }
        let r = match wire_to_addr(&k.hrp, &m.recipient) {
            Some(r) => r,
            None => return,
        };
        let ism = match self.spec(c, &r) {
            Ok(Some(i)) => Some(i),
            Ok(None) => k.dism.clone(),
            Err(()) => None,
        };
        match &ism {
            None => self.violate(&["C04"], "delivered though no ISM answers for the recipient".into()),
            Some(i) => {
                let ok = n.queries.iter().any(|q| {
                    let v = q.msg.get("ism").and_then(|x| x.get("verify")).cloned().unwrap_or(Value::Null);
                    q.to == *i
                        && gs(&v, "metadata").eq_ignore_ascii_case(&meta)
                        && gs(&v, "message").eq_ignore_ascii_case(&hx(&bytes))
                        && q.val().map(|x| x["verified"] == json!(true)).unwrap_or(false)
                });
                if !ok {
                    self.violate(&["C04"], format!("delivered without {i} answering verified for this metadata and message"));
                }
                // end to end
                if self.secure(c, i, m.origin, 0) {
                    self.m.ev("C03");
                    let real = match (self.m.ghost.get(&id), self.chain_of(m.origin)) {
                        (Some((gc, mb)), Some(o)) => *gc == o && *mb == self.addr(o, "mb"),
                        _ => false,
                    };
                    if !real {
                        self.violate(
                            &["C03"],
                            format!("delivered a message nobody dispatched: origin {} nonce {} sender {}", m.origin, m.nonce, hx(&m.sender)),
                        );
                    }
                }
            }
        }
        let exp = vec![(
            r,
            json!({"handle": {"origin": m.origin, "sender": hx(&m.sender), "body": hx(&m.body)}}),
            Some(Coins::new()),
        )];
        if let Some(t) = self.compare_acts(&acts(n), &exp, false) {
            self.violate(&["C04"], format!("process: {t}"));
            // a second or missing hand-over of a message is not exactly-once either
            let hs = acts(n).iter().filter(|x| x.key() == "handle").count();
            if hs != 1 {
                self.violate(&["C01"], format!("one process call made {hs} handle calls"));
            }
        }
        ctx.procs.push((id, n.to.clone()));
    }

    fn post_rule(&mut self, c: usize, n: &Node, a: &Value) {
        let prop = match hook_prop(n.code) {
            Some(p) => p,
            None => return,
        };
        self.m.ev(prop);
        let bytes = ghex(a, "message");
        let meta = ghex(a, "metadata");
        let m = match Msg::dec(&bytes) {
            Some(m) => m,
            None => return,
        };
        let k = match self.cm(c, &n.to) {
            Some(k) => k.clone(),
            None => return,
        };
        let f = coins_of(&n.funds);
        match n.code {
            "merkle" => {
                let id = m.id();
                let latest = self.cm(c, &k.mailbox).and_then(|b| b.latest);
                if latest != Some(id) {
                    self.violate(&["C06"], format!("merkle hook accepted {} which is not its mailbox's latest message", hx(&id)));
                }
                if !acts(n).is_empty() {
                    self.violate(&["C06"], "merkle hook sent messages".into());
                }
                let canon = n.to == self.addr(c, "merkle");
                if let Some(k) = self.m.cm[c].get_mut(&n.to) {
                    k.tree.push(id);
                    if canon {
                        let at = (k.tree.root(), k.tree.count() as u32 - 1);
                        self.m.leaves[c].insert(id, at);
                    }
                }
            }
            "fee" => {
                let paid = f.get(&k.fee.1).copied().unwrap_or(0);
                if paid < k.fee.0 || f.keys().any(|d| *d != k.fee.1) {
                    self.violate(&["C20"], format!("fee hook accepted {} for a fee of {}{}", show(&f), k.fee.0, k.fee.1));
                }
                if !acts(n).is_empty() {
                    self.violate(&["C20"], "fee hook sent messages".into());
                }
            }
            "phook" => {
                if k.paused {
                    self.violate(&["C15"], "a paused hook accepted a message".into());
                }
                if !acts(n).is_empty() {
                    self.violate(&["C15"], "pausable hook sent messages".into());
                }
            }
            "rhook" | "rchook" | "rfhook" => {
                if let Some(exp) = self.routing_acts(c, n, a) {
                    if exp.is_empty() {
                        self.violate(&["C18"], format!("{} accepted a message it has no hook for (domain {})", n.code, m.dest));
                    } else if let Some(t) = self.compare_acts(&acts(n), &exp, false) {
                        self.violate(&["C18"], format!("{}: {t}", n.code));
                    }
                }
            }
            "ahook" => {
                if let Some(exp) = self.aggregate_acts(c, n, a) {
                    if let Some(t) = self.compare_acts(&acts(n), &exp, false) {
                        self.violate(&["C19"], format!("aggregate hook: {t}"));
                    }
                }
            }
            "igp" => {
                let g = self.gas_of(c, &n.to, &meta, m.dest);
                let r = self.refund_to(c, &n.to, &meta, &m);
                self.pay_rule(c, n, m.dest, g, r);
            }
            _ => {}
        }
    }

    fn pay_rule(&mut self, c: usize, n: &Node, dest: u32, gas: Uint256, refund: Option<String>) {
        self.m.ev("C09");
        self.m.ev("C10");
        let tok = match self.cm(c, &n.to) {
            Some(k) => k.gas_token.clone(),
            None => return,
        };
        let need = match self.needed(c, &n.to, dest, gas) {
            Ok(Some(x)) => x,
            Ok(None) => {
                self.violate(&["C09", "C10"], format!("gas payment for domain {dest} accepted without any quote"));
                return;
            }
            Err(()) => return,
        };
        let f = coins_of(&n.funds);
        if f.keys().any(|d| *d != tok) {
            self.violate(&["C09"], format!("gas payment in {} accepted", show(&f)));
            return;
        }
        let paid = f.get(&tok).copied().unwrap_or(0);
        if Uint256::from(paid) < need {
            self.violate(&["C09"], format!("gas payment of {paid} accepted, {need} needed"));
            return;
        }
        let need = u256_u128(need).unwrap_or(0);
        let excess = paid - need;
        let v = acts(n);
        let good = if excess == 0 {
            v.is_empty()
        } else {
            v.len() == 1
                && v[0].op == Op::BankSend
                && coins_of(&v[0].funds) == coins_of(&[(excess, tok.clone())])
                && refund.as_ref().map(|r| v[0].to == *r).unwrap_or(true)
        };
        if !good {
            let s: Vec<String> = v.iter().map(|x| format!("{:?} {} {}", x.op, x.to, show(&coins_of(&x.funds)))).collect();
            self.violate(
                &["C09"],
                format!("paid {paid}, needed {need}: expected a refund of {excess} to {}, got {s:?}", refund.unwrap_or_default()),
            );
        }
    }

    fn announce_rule(&mut self, c: usize, n: &Node, a: &Value) {
        self.m.ev("C22");
        let k = match self.cm(c, &n.to) {
            Some(k) => k.clone(),
            None => return,
        };
        let v: [u8; 20] = match ghex(a, "validator").try_into() {
            Ok(v) => v,
            Err(_) => {
                self.violate(&["C22"], "announcement for something that is not a validator".into());
                return;
            }
        };
        let loc = gs(a, "storage_location").to_string();
        let mb = bech_dec(&k.mailbox).map(|x| x.1).unwrap_or_default();
        let d = announce_digest(k.domain, &pad32(&mb), &loc);
        let sig = ghex(a, "signature");
        if sig.len() < 65 || recover(&d, &sig[..65]) != Some(v) {
            self.violate(&["C22"], format!("announcement of {loc} recorded without a signature of {}", hx(&v)));
        }
        if k.ann.get(&v).map(|l| l.contains(&loc)).unwrap_or(false) {
            self.violate(&["C22"], format!("announcement of {loc} by {} recorded twice", hx(&v)));
        }
        if !acts(n).is_empty() {
            self.violate(&["C22"], "announcement sent messages".into());
        }
        if let Some(k) = self.m.cm[c].get_mut(&n.to) {
            k.ann.entry(v).or_default().push(loc);
        }
    }

    fn handle_rule(&mut self, c: usize, n: &Node, a: &Value, ctx: &mut Ctx) {
        self.m.ev("C11");
        self.m.ev("C12");
        let k = match self.cm(c, &n.to) {
            Some(k) => k.clone(),
            None => return,
        };
        let native = n.code == "wnative";
        let origin = gu(a, "origin") as u32;
        let from_mb = k.wmb.as_deref() == Some(n.from.as_str()) || k.cmb.as_deref() == Some(n.from.as_str());
        if !from_mb {
            self.violate(&["C12"], format!("warp route handled a call by {} which is not its mailbox", n.from));
        }
        let rt = k.routes.get(&origin).cloned().flatten();
        if rt.as_ref().and_then(|r| unhx(r)) != unhx(gs(a, "sender")) || rt.is_none() {
            self.violate(&["C12"], format!("warp route handled sender {} of domain {origin}, enrolled is {rt:?}", gs(a, "sender")));
        }
        let body = ghex(a, "body");
        let v = acts(n);
        if body.len() < 64 {
            if !v.is_empty() {
                self.violate(&["C11"], "warp route acted on a body that is not a transfer".into());
            }
            return;
        }
        let amt = u256_u128(Uint256::from_be_bytes(body[32..64].try_into().unwrap()));
        let r = wire_to_addr(&k.hrp, &body[..32]);
        let (amt, r) = match (amt, r) {
            (Some(a), Some(r)) => (a, r),
            _ => {
                self.violate(&["C11"], "a transfer that cannot be represented was delivered".into());
                return;
            }
        };
        let mut minted = 0u128;
        let mut given = 0u128;
        let mut other = None;
        for x in &v {
            let sum: u128 = x.funds.iter().filter(|f| f.1 == k.token).map(|f| f.0).sum();
            let (xk, xa) = variant(&x.msg);
            match x.op {
                Op::TfMint if native && k.bridged && x.funds.len() == 1 && sum > 0 => minted = minted.saturating_add(sum),
                Op::BankSend if native && x.to == r && x.funds.len() == 1 && sum > 0 => given = given.saturating_add(sum),
                Op::Exec if !native && x.to == k.token && x.funds.is_empty() && xk == "mint" && k.bridged && gs(xa, "recipient") == r => {
                    given = given.saturating_add(gu(xa, "amount"));
                    minted = given;
                }
                Op::Exec if !native && x.to == k.token && x.funds.is_empty() && xk == "transfer" && !k.bridged && gs(xa, "recipient") == r => {
                    given = given.saturating_add(gu(xa, "amount"));
                }
                _ => other = Some(format!("{:?} to {} {} {}", x.op, x.to, x.msg, show(&coins_of(&x.funds)))),
            }
        }
        if given != amt || (k.bridged && minted != amt) || other.is_some() {
            self.violate(
                &["C11"],
                format!("delivery of {amt} to {r} gave {given}, minted {minted}{}", other.map(|o| format!(", and {o}")).unwrap_or_default()),
            );
        }
        if let Some(l) = self.link_of(c, &n.to) {
            let id = ctx.procs.last().filter(|p| p.1 == n.from).map(|p| p.0);
            match id.and_then(|i| self.m.inflight.remove(&i)) {
                Some((_, x)) => {
                    if x != amt && !self.m.links[l].taint {
                        self.violate(&["C11"], format!("a transfer of {x} was delivered as {amt}"));
                    }
                }
                None => {
                    if !self.m.links[l].taint {
                        self.violate(&["C11"], format!("a transfer of {amt} was delivered that is not in flight"));
                    }
                }
            }
        }
    }

    fn transfer_rule(&mut self, c: usize, n: &Node, a: &Value, ctx: &mut Ctx) {
        self.m.ev("C11");
        self.m.ev("C12");
        let k = match self.cm(c, &n.to) {
            Some(k) => k.clone(),
            None => return,
        };
        let native = n.code == "wnative";
        let dest = gu(a, "dest_domain") as u32;
        let amt = gu(a, "amount");
        let rec = ghex(a, "recipient");
        if rec.len() != 32 {
            self.violate(&["C11"], format!("a transfer to a recipient of {} bytes committed", rec.len()));
        }
        let rt = match k.routes.get(&dest).cloned().flatten() {
            Some(r) => r,
            None => {
                self.violate(&["C12"], format!("a transfer to domain {dest} without a route committed"));
                return;
            }
        };
        let att = coins_of(&n.funds);
        let rest = if native { coins_sub(&att, &coins_of(&[(amt, k.token.clone())])) } else { Some(att.clone()) };
        let rest = match rest {
            Some(r) => r,
            None => {
                self.violate(&["C11"], format!("a transfer of {amt} committed with only {} attached", show(&att)));
                return;
            }
        };
        let mut body = rec.clone();
        body.extend_from_slice(&Uint256::from(amt).to_be_bytes());
        let (mut taken, mut burned, mut dispatched) = (0u128, 0u128, 0);
        let mut other = None;
        for x in acts(n) {
            let (xk, xa) = variant(&x.msg);
            let sum: u128 = x.funds.iter().filter(|f| f.1 == k.token).map(|f| f.0).sum();
            match x.op {
                Op::TfBurn if native && k.bridged && x.funds.len() == 1 && sum > 0 => burned += sum,
                Op::Exec if !native && x.to == k.token && x.funds.is_empty() && xk == "transfer_from" => {
                    if gs(xa, "owner") == n.from && gs(xa, "recipient") == n.to {
                        taken += gu(xa, "amount");
                    } else {
                        other = Some(format!("{}", x.msg));
                    }
                }
                Op::Exec if !native && x.to == k.token && x.funds.is_empty() && xk == "burn" && k.bridged => burned += gu(xa, "amount"),
                Op::Exec if !native && x.to == k.token && x.funds.is_empty() && xk == "burn_from" && k.bridged && gs(xa, "owner") == n.from => {
                    taken += gu(xa, "amount");
                    burned += gu(xa, "amount");
                }
                Op::Exec if xk == "dispatch" && (k.wmb.as_deref() == Some(x.to.as_str()) || k.cmb.as_deref() == Some(x.to.as_str())) => {
                    dispatched += 1;
                    if ghex(xa, "msg_body") != body {
                        self.violate(&["C11"], format!("transfer of {amt} to {} dispatched body {}", hx(&rec), gs(xa, "msg_body")));
                    }
                    let hook = match a.get("hook") {
                        Some(Value::String(s)) => Some(s.clone()),
                        _ => k.whook.clone(),
                    };
                    let good = gu(xa, "dest_domain") as u32 == dest
                        && unhx(gs(xa, "recipient_addr")) == unhx(&rt)
                        && xa.get("hook").and_then(|h| h.as_str().map(|s| s.to_string())) == hook
                        && ghex(xa, "metadata") == ghex(a, "metadata");
                    if !good {
                        self.violate(&["C12"], format!("transfer to domain {dest} (route {rt}, hook {hook:?}) dispatched as {xa}"));
                    }
                    if coins_of(&x.funds) != rest {
                        self.violate(&["C12"], format!("transfer dispatched with {} instead of {}", show(&coins_of(&x.funds)), show(&rest)));
                    }
                }
                _ => other = Some(format!("{:?} to {} {} {}", x.op, x.to, x.msg, show(&coins_of(&x.funds)))),
            }
        }
        if dispatched != 1 {
            self.violate(&["C12"], format!("a transfer made {dispatched} dispatches"));
        }
        let bad = (k.bridged && burned != amt) || (!k.bridged && burned != 0) || (!native && taken != amt);
        if bad || other.is_some() {
            self.violate(
                &["C11"],
                format!("transfer of {amt} took {taken} and burned {burned}{}", other.map(|o| format!(", and {o}")).unwrap_or_default()),
            );
        }
        ctx.taken.insert(n.to.clone(), amt);
    }

    // ---- configuration -------------------------------------------------------------------------

    fn apply_config(&mut self, c: usize, to: &str, code: &str, msg: &Value) {
        let (key, a) = variant(msg);
        let k = match self.m.cm[c].get_mut(to) {
            Some(k) => k,
            None => return,
        };
        let dom = |v: &Value| gu(v, "domain") as u32;
        match (code, key) {
            ("mailbox", "set_default_ism") => k.dism = Some(gs(a, "ism").into()),
            ("mailbox", "set_default_hook") => k.dhook = Some(gs(a, "hook").into()),
            ("mailbox", "set_required_hook") => k.rhook = Some(gs(a, "hook").into()),
            ("msism", "set_validators") => {
                let v = strs(a, "validators").iter().filter_map(|x| unhx(x)?.try_into().ok()).collect();
                k.sets.insert(dom(a), (gu(a, "threshold"), v));
            }
            ("msism", "unset_domain") => {
                k.sets.remove(&dom(a));
            }
            ("aism", "set_isms") => {
                k.isms = strs(a, "isms");
                k.thr = gu(a, "threshold");
            }
            ("rism", "set") => {
                k.mods.insert(dom(&a["ism"]), gs(&a["ism"], "address").into());
            }
            ("rism", "unset") => {
                for d in garr(a, "domains") {
                    k.mods.remove(&(d.as_u64().unwrap_or(0) as u32));
                }
            }
            ("fee", _) => {
                let f = &a["set_fee"]["fee"];
                k.fee = (gu(f, "amount"), gs(f, "denom").into());
            }
            ("phook" | "pism", _) => k.paused = variant(a).0 == "pause",
            ("ahook", "set_hooks") => k.hooks = strs(a, "hooks"),
            (_, "router") => {
                let (v, b) = variant(a);
                let sets: Vec<Value> = if v == "set_route" { vec![b["set"].clone()] } else { garr(b, "set").to_vec() };
                for s in sets {
                    let r = s.get("route").and_then(|x| x.as_str()).map(|x| if code.starts_with('w') { x.to_lowercase() } else { x.to_string() });
                    k.routes.insert(dom(&s), r);
                }
            }
            ("rchook", _) => {
                let l: Vec<Value> = match a {
                    Value::Array(l) => l.clone(),
                    x => vec![x.clone()],
                };
                for x in l {
                    let kk = (gu(&x, "dest_domain") as u32, ghex(&x, "recipient"));
                    if key.starts_with("register") {
                        k.custom.insert(kk, gs(&x, "hook").into());
                    } else {
                        k.custom.remove(&kk);
                    }
                }
            }
            ("rfhook", "set_fallback_hook") => k.fallback = Some(gs(a, "hook").into()),
            ("igp", "set_default_gas") => k.default_gas = gu(a, "gas"),
            ("igp", "set_gas_for_domain") => {
                for x in garr(a, "config") {
                    if let Some(p) = x.as_array() {
                        k.gas.insert(p[0].as_u64().unwrap_or(0) as u32, num(&p[1]).unwrap_or(0));
                    }
                }
            }
            ("igp", "unset_gas_for_domain") => {
                for d in garr(a, "domains") {
                    k.gas.remove(&(d.as_u64().unwrap_or(0) as u32));
                }
            }
            ("igp", "set_beneficiary") => k.beneficiary = gs(a, "beneficiary").into(),
            ("oracle", _) => {
                let l: Vec<Value> = if key == "set_remote_gas_data" { vec![a["config"].clone()] } else { garr(a, "configs").to_vec() };
                for x in l {
                    k.data.insert(gu(&x, "remote_domain") as u32, (gu(&x, "token_exchange_rate"), gu(&x, "gas_price")));
                }
            }
            ("wnative" | "wcw20", "connection") => {
                let (v, b) = variant(a);
                match v {
                    "set_mailbox" => k.cmb = Some(gs(b, "mailbox").into()),
                    "set_hook" => k.whook = Some(gs(b, "hook").into()),
                    "set_ism" => k.wism = Some(gs(b, "ism").into()),
                    _ => {}
                }
            }
            _ => {}
        }
    }

    fn inst_rule(&mut self, c: usize, n: &Node) {
        let a = &n.msg;
        let mut k = CM { code: n.code, ..Default::default() };
        if let Some(o) = a.get("owner").and_then(|o| o.as_str()) {
            k.owner = Some(o.into());
        }
        k.version = self
            .chains[c]
            .peek(&n.to, b"contract_info")
            .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
            .map(|v| gs(&v, "version").to_string())
            .unwrap_or_default();
        k.hrp = gs(a, "hrp").into();
        if k.version.is_empty() && !["puppet", "cw20", ""].contains(&n.code) {
            self.m.ev("C23");
            self.violate(&["C23"], format!("{} was created without a recorded version: no upgrade of it can succeed", n.code));
        }
        match n.code {
            "puppet" | "cw20" | "" => return,
            "mailbox" => k.domain = gu(a, "domain") as u32,
            "merkle" => {
                k.mailbox = gs(a, "mailbox").into();
                k.owner = None;
                k.tree = Tree::new();
            }
            "va" => {
                k.mailbox = gs(a, "mailbox").into();
                k.domain = self.cm(c, &k.mailbox).map(|m| m.domain).unwrap_or(0);
            }
            "fee" => k.fee = (gu(&a["fee"], "amount"), gs(&a["fee"], "denom").into()),
            "phook" | "pism" => k.paused = a["paused"] == json!(true),
            "ahook" => k.hooks = strs(a, "hooks"),
            "igp" => {
                k.gas_token = gs(a, "gas_token").into();
                k.beneficiary = gs(a, "beneficiary").into();
                k.default_gas = gu(a, "default_gas_usage");
            }
            "aism" => {
                k.isms = strs(a, "isms");
                k.thr = gu(a, "threshold");
                self.m.ev("C17");
                if k.thr < 1 || k.thr > k.isms.len() as u128 {
                    self.violate(&["C17"], format!("aggregate ISM created with threshold {} of {}", k.thr, k.isms.len()));
                }
            }
            "rism" => {
                for x in garr(a, "isms") {
                    k.mods.insert(gu(x, "domain") as u32, gs(x, "address").into());
                }
            }
            "wnative" | "wcw20" => {
                k.wmb = Some(gs(a, "mailbox").into());
                let (t, b) = variant(&a["token"]);
                k.bridged = t == "bridged";
                k.token = match (n.code, t) {
                    ("wnative", "bridged") => format!("factory/{}/{}", n.to, gs(b, "denom")),
                    ("wnative", _) => gs(b, "denom").into(),
                    ("wcw20", "bridged") => {
                        let mut t = String::new();
                        n.walk(&mut |x| {
                            if x.op == Op::Inst && x.code == "cw20" {
                                t = x.to.clone();
                            }
                        });
                        t
                    }
                    _ => gs(b, "address").into(),
                };
            }
            _ => {}
        }
        self.m.cm[c].insert(n.to.clone(), k);
    }

    // ---- queries -------------------------------------------------------------------------------

    pub fn observe_query(&mut self, c: usize, q: &QRec) {
        if self.no_oracle {
            return;
        }
        for s in &q.sub {
            self.observe_query(c, s);
        }
        if let Err(e) = &q.res {
            if limit_err(e) {
                return;
            }
        }
        let code = self.code(c, &q.to);
        if code.is_empty() || code == "puppet" || code == "cw20" || !self.m.cm[c].contains_key(&q.to) {
            return;
        }
        if q.sub.iter().any(|s| matches!(&s.res, Err(e) if limit_err(e))) {
            return;
        }
        let got = q.val();
        if let Some((exp, props)) = self.expect_query(c, &q.to, &q.msg) {
            for p in &props {
                self.m.ev(p);
            }
            let bad = match (&exp, &got) {
                (Ans::Fail, None) => false,
                (Ans::Fail, Some(_)) => true,
                (Ans::Val(_), None) => true,
                (Ans::Val(v), Some(g)) => !same_ans(v, g),
            };
            if bad {
                let e = match exp {
                    Ans::Fail => "an error".to_string(),
                    Ans::Val(v) => v.to_string(),
                };
                let t = format!("{code} {} answers {} instead of {e}", q.msg, show_res(&q.res));
                self.violate(&props, t);
            }
        }
        self.special_query(c, q, code, got);
    }

    fn special_query(&mut self, c: usize, q: &QRec, code: &'static str, got: Option<Value>) {
        let (key, a) = variant(&q.msg);
        let (sub, b) = variant(a);
        let k = match self.cm(c, &q.to) {
            Some(k) => k.clone(),
            None => return,
        };
        let fees = got.as_ref().map(|v| coins_json(garr(v, "fees")));
        match (code, key, sub) {
            ("mailbox", "hook", "quote_dispatch") => {
                let d = &b["msg"];
                let m = match self.msg_of_dispatch(c, &q.to, gs(b, "sender"), d) {
                    Some(m) => m,
                    None => return,
                };
                if let Some((rh, rq, h, hq)) = self.dispatch_quotes(c, &q.to, &m, d) {
                    // the parts as the hooks themselves answered them here, else as the model knows them
                    let want = json!({"hook": {"quote_dispatch": {"metadata": hx(&ghex(d, "metadata")), "message": hx(&m.enc())}}});
                    let part = |hook: &str, mq: Q| -> Q {
                        match q.sub.iter().find(|s| s.to == hook && exact(&want, &s.msg)) {
                            Some(s) => match s.val() {
                                Some(v) => Q::Known(coins_json(garr(&v, "fees"))),
                                None => Q::Fail,
                            },
                            None => mq,
                        }
                    };
                    let (x, y) = (part(&rh, rq), part(&h, hq));
                    if let (Q::Known(x), Q::Known(y)) = (x, y) {
                        self.m.ev("C08");
                        let mut s = x.clone();
                        if coins_add(&mut s, &y).is_none() {
                            return;
                        }
                        if fees.as_ref() != Some(&s) {
                            let t = format!("mailbox quotes {} though its hooks quote {} and {}", show_res(&q.res), show(&x), show(&y));
                            self.violate(&["C08"], t);
                        }
                    }
                }
            }
            (_, "hook", "quote_dispatch") if HOOKS.contains(&code) => {
                let m = match Msg::dec(&ghex(b, "message")) {
                    Some(m) => m,
                    None => return,
                };
                let meta = ghex(b, "metadata");
                match code {
                    "rhook" | "rchook" | "rfhook" => {
                        self.m.ev("C18");
                        match self.hook_target(c, &q.to, &m) {
                            Ok(Some(t)) => {
                                let s = q.sub.iter().find(|s| s.to == t && exact(&q.msg, &s.msg));
                                match s {
                                    None => {
                                        if got.is_some() {
                                            self.violate(&["C18"], format!("{code} quotes for domain {} without asking {t}", m.dest));
                                        } else {
                                            self.violate(&["C18"], format!("{code} does not ask its hook {t} for a quote: {}", show_res(&q.res)));
                                        }
                                    }
                                    Some(s) => {
                                        let sv = s.val().map(|v| coins_json(garr(&v, "fees")));
                                        if sv != fees {
                                            self.violate(&["C18"], format!("{code} quotes {} but its hook {}", show_res(&q.res), show_res(&s.res)));
                                        }
                                    }
                                }
                            }
                            Ok(None) => {
                                if got.is_some() {
                                    self.violate(&["C18"], format!("{code} quotes {} for domain {} without any hook", show_res(&q.res), m.dest));
                                }
                            }
                            Err(()) => {}
                        }
                    }
                    "ahook" => {
                        self.m.ev("C19");
                        let mut sum = Some(Coins::new());
                        let mut over = false;
                        for h in &k.hooks {
                            let part = match q.sub.iter().find(|s| s.to == *h && exact(&q.msg, &s.msg)) {
                                Some(s) => s.val().map(|v| coins_json(garr(&v, "fees"))),
                                None => match self.quote(c, h, &meta, &m, 1) {
                                    Q::Known(x) => Some(x),
                                    Q::Fail => None,
                                    Q::Unk => return,
                                },
                            };
                            sum = match (sum, part) {
                                (Some(mut s), Some(p)) => {
                                    if coins_add(&mut s, &p).is_none() {
                                        over = true;
                                    }
                                    Some(s)
                                }
                                _ => None,
                            };
                        }
                        if !over && sum != fees {
                            self.violate(&["C19"], format!("aggregate hook quotes {} instead of {:?}", show_res(&q.res), sum.map(|s| show(&s))));
                        }
                    }
                    _ => {
                        let prop = match code {
                            "igp" => "C10",
                            "fee" => "C20",
                            _ => "C08",
                        };
                        match self.quote(c, &q.to, &meta, &m, 0) {
                            Q::Known(x) => {
                                self.m.ev(prop);
                                if fees.as_ref() != Some(&x) {
                                    self.violate(&[prop], format!("{code} quotes {} instead of {}", show_res(&q.res), show(&x)));
                                }
                            }
                            Q::Fail => {
                                self.m.ev(prop);
                                if got.is_some() {
                                    self.violate(&[prop], format!("{code} quotes {} though there is no quote", show_res(&q.res)));
                                }
                            }
                            Q::Unk => {}
                        }
                    }
                }
            }
            ("msism", "ism", "verify") => {
                let bytes = ghex(b, "message");
                let m = match Msg::dec(&bytes) {
                    Some(m) => m,
                    None => return,
                };
                self.m.ev("C02");
                let yes = got.as_ref().map(|v| v["verified"] == json!(true)).unwrap_or(false);
                let (thr, set) = match k.sets.get(&m.origin) {
                    Some(s) => s.clone(),
                    None => {
                        if yes {
                            self.violate(&["C02"], format!("multisig verified a message of domain {} which has no validators", m.origin));
                        }
                        return;
                    }
                };
                let (n, clean) = match ms_count(&ghex(b, "metadata"), &m, &set) {
                    Some(x) => x,
                    None => {
                        if yes {
                            self.violate(&["C02"], "multisig verified without complete metadata".into());
                        }
                        return;
                    }
                };
                if yes && (n as u128) < thr {
                    self.violate(&["C02"], format!("multisig verified with {n} of {thr} enrolled signers"));
                }
                if !yes && n as u128 >= thr && clean {
                    self.violate(&["C02"], format!("multisig answers {} though {n} enrolled signers of {thr} needed signed", show_res(&q.res)));
                }
                self.stat(if yes { "verify:yes" } else if n as u128 + 1 == thr { "verify:one-short" } else { "verify:no" });
            }
            ("rism", "ism", "verify" | "verify_info") | ("rism", "routing_ism", "route") => {
                let m = match Msg::dec(&ghex(b, "message")) {
                    Some(m) => m,
                    None => return,
                };
                if sub == "route" {
                    return;
                }
                self.m.ev("C16");
                match k.mods.get(&m.origin) {
                    None => {
                        if got.is_some() {
                            self.violate(&["C16"], format!("routing ISM answers {} for domain {} without a module", show_res(&q.res), m.origin));
                        }
                    }
                    Some(t) => match q.sub.iter().find(|s| s.to == *t && exact(&q.msg, &s.msg)) {
                        Some(s) => {
                            if s.val() != got {
                                self.violate(&["C16"], format!("routing ISM answers {} but its module {} ({sub})", show_res(&q.res), show_res(&s.res)));
                            }
                        }
                        None => {
                            // it answered by itself, or asked someone else
                            if !self.chains[c].code_of(t).is_empty() {
                                self.violate(&["C16"], format!("routing ISM answers {sub} with {} without asking its module {t}", show_res(&q.res)));
                            }
                        }
                    },
                }
            }
            ("aism", "ism", "verify") => {
                self.m.ev("C17");
                let meta = ghex(b, "metadata");
                let yes = got.as_ref().map(|v| v["verified"] == json!(true)).unwrap_or(false);
                let sl = match agg_slices(&meta, k.isms.len()) {
                    Some(s) => s,
                    None => {
                        // the members asked with whatever slices exist cannot be judged further
                        if yes && k.isms.is_empty() {
                            self.violate(&["C17"], "aggregate without members verified".into());
                        }
                        return;
                    }
                };
                let mut good: BTreeSet<&String> = BTreeSet::new();
                let mut bad = false;
                for s in &q.sub {
                    let v = match s.msg.get("ism").and_then(|x| x.get("verify")) {
                        Some(v) => v,
                        None => continue,
                    };
                    let own = k.isms.iter().zip(&sl).any(|(i, p)| *i == s.to && ghex(v, "metadata") == *p);
                    match s.val() {
                        Some(x) => {
                            if x["verified"] == json!(true) && own && ghex(v, "message") == ghex(b, "message") {
                                if let Some(i) = k.isms.iter().find(|i| **i == s.to) {
                                    good.insert(i);
                                }
                            }
                        }
                        None => bad = true,
                    }
                }
                let n = good.len() as u128;
                if yes && n < k.thr.max(1) {
                    self.violate(&["C17"], format!("aggregate verified with {n} accepting members of {} needed", k.thr));
                }
                if !yes && !bad && n >= k.thr && k.thr >= 1 {
                    self.violate(&["C17"], format!("aggregate answers {} though {n} members of {} needed accept", show_res(&q.res), k.thr));
                }
            }
            ("pism", "ism", "verify") => {
                self.m.ev("C15");
                let yes = got.as_ref().map(|v| v["verified"] == json!(true)).unwrap_or(false);
                if yes == k.paused {
                    self.violate(&["C15"], format!("pausable ISM (paused: {}) answers {}", k.paused, show_res(&q.res)));
                }
            }
            ("merkle", "merkle_hook", "tree" | "branch") => {
                self.m.ev("C06");
                let v = match got {
                    Some(v) => v,
                    None => {
                        self.violate(&["C06"], format!("merkle hook cannot answer {sub}: {}", show_res(&q.res)));
                        return;
                    }
                };
                let n = k.tree.count();
                if sub == "tree" && gu(&v, "count") != n as u128 {
                    self.violate(&["C06"], format!("tree has count {} instead of {n}", gu(&v, "count")));
                }
                let br = strs(&v, "branch");
                for i in 0..32usize {
                    if (n >> i) & 1 == 0 {
                        continue;
                    }
                    // the completed subtree of height i to the left of the frontier
                    let exp = k.tree.node(i, (n >> i) - 1).map(|h| hx(&h)).unwrap_or_default();
                    if br.get(i).map(|s| s.to_lowercase()) != Some(exp.clone()) {
                        self.violate(&["C06"], format!("branch[{i}] is {:?} instead of {exp} at count {n}", br.get(i)));
                        break;
                    }
                }
            }
            ("wnative" | "wcw20", "token_default", "token_type") => {
                self.m.ev("C14");
                let t = match &got {
                    Some(v) => v.to_string(),
                    None => String::new(),
                };
                if !t.contains(&k.token) || k.token.is_empty() {
                    self.violate(&["C14"], format!("token type {} does not name {}", show_res(&q.res), k.token));
                }
            }
            _ => {}
        }
    }

    /// Extra questions asked next to a query of the schedule.
    pub fn probe_query(&mut self, c: usize, q: &QRec) {
        if self.no_oracle {
            return;
        }
        let code = self.code(c, &q.to);
        let (key, a) = variant(&q.msg);
        let (sub, b) = variant(a);
        if (code, key, sub) == ("aism", "ism", "verify") {
            if matches!(&q.res, Err(e) if limit_err(e)) {
                return;
            }
            let k = match self.cm(c, &q.to) {
                Some(k) => k.clone(),
                None => return,
            };
            let sl = match agg_slices(&ghex(b, "metadata"), k.isms.len()) {
                Some(s) => s,
                None => return,
            };
            let mut ok: BTreeMap<&String, bool> = BTreeMap::new();
            let mut failing = false;
            for (i, s) in k.isms.iter().zip(&sl) {
                let r = self.chains[c].query(i, &json!({"ism": {"verify": {"metadata": hx(s), "message": gs(b, "message")}}}));
                match r {
                    Ok(v) => {
                        let y = v["verified"] == json!(true);
                        let e = ok.entry(i).or_insert(y);
                        if *e != y {
                            // the same module listed twice with different slices: either may count
                            failing = true;
                        }
                    }
                    Err(_) => failing = true,
                }
            }
            let n = ok.values().filter(|x| **x).count() as u128;
            let yes = q.val().map(|v| v["verified"] == json!(true)).unwrap_or(false);
            self.m.ev("C17");
            if !failing && k.thr >= 1 && yes != (n >= k.thr) {
                self.violate(&["C17"], format!("aggregate answers {} with {n} accepting members of {} needed", show_res(&q.res), k.thr));
            }
        }
    }

    /// Asks every contract everything, and walks every listing.
    pub fn audit_all(&mut self) {
        if self.no_oracle {
            return;
        }
        for c in 0..self.chains.len() {
            let all: Vec<String> = self.m.cm[c].keys().cloned().collect();
            for a in all {
                self.check_battery(c, &a);
                self.walk_listings(c, &a, 7 + (self.n % 5));
                if self.code(c, &a) == "mailbox" {
                    let ids: Vec<[u8; 32]> = self.disp.iter().map(|d| d.id).collect();
                    for id in ids {
                        let rec = self.chains[c].query_rec(&a, &json!({"mailbox": {"message_delivered": {"id": hx(&id)}}}));
                        self.observe_query(c, &rec);
                    }
                    let tried: Vec<[u8; 32]> = self.m.tried.get(&(c, a.clone())).map(|s| s.iter().cloned().collect()).unwrap_or_default();
                    for id in tried {
                        let rec = self.chains[c].query_rec(&a, &json!({"mailbox": {"message_delivered": {"id": hx(&id)}}}));
                        self.observe_query(c, &rec);
                    }
                }
            }
        }
        self.check_links();
    }

    /// Pages through a listing with one limit, both ways, and compares the concatenation.
    pub fn walk_listings(&mut self, c: usize, a: &str, limit: usize) {
        let k = match self.cm(c, a) {
            Some(k) => k.clone(),
            None => return,
        };
        let mut lists: Vec<(Value, &str, Vec<Value>)> = vec![];
        if ["rhook", "rchook", "rfhook", "igp", "wnative", "wcw20"].contains(&k.code) {
            let e = k.routes.iter().map(|(d, r)| json!({"domain": d, "route": r})).collect();
            lists.push((json!({"router": {"list_routes": {}}}), "routes", e));
        }
        if k.code == "igp" {
            let e = k.gas.iter().map(|(d, g)| json!([d, g.to_string()])).collect();
            lists.push((json!({"igp": {"list_gas_for_domains": {}}}), "gas", e));
        }
        if k.code == "rchook" {
            let mut ds: Vec<u32> = k.custom.keys().map(|x| x.0).collect();
            ds.dedup();
            for d in ds {
                let e = k
                    .custom
                    .iter()
                    .filter(|x| x.0 .0 == d)
                    .map(|((d, r), h)| json!({"dest_domain": d, "recipient": hx(r), "hook": h}))
                    .collect();
                lists.push((json!({"custom_routing_hook": {"custom_hooks": {"dest_domain": d}}}), "custom_hooks", e));
            }
        }
        for (q, field, exp) in lists {
            for order in ["asc", "desc"] {
                self.m.ev("C21");
                let mut all: Vec<Value> = vec![];
                let mut off = Value::Null;
                let mut guard = 0;
                let fail = loop {
                    guard += 1;
                    if guard > exp.len() + 3 {
                        break Some("paging does not end".to_string());
                    }
                    let mut m = q.clone();
                    let inner = m.as_object_mut().unwrap().values_mut().next().unwrap().as_object_mut().unwrap().values_mut().next().unwrap();
                    inner["limit"] = json!(limit);
                    inner["order"] = json!(order);
                    if !off.is_null() {
                        inner["offset"] = off.clone();
                    }
                    let v = match self.chains[c].query(a, &m) {
                        Ok(v) => v,
                        Err(e) => break Some(format!("{m} fails: {e}")),
                    };
                    let page = garr(&v, field).to_vec();
                    if page.len() > limit {
                        break Some(format!("a page of {} for limit {limit}", page.len()));
                    }
                    if page.is_empty() {
                        break None;
                    }
                    let last = page.last().unwrap();
                    off = match field {
                        "routes" => last["domain"].clone(),
                        "gas" => last[0].clone(),
                        _ => last["recipient"].clone(),
                    };
                    all.extend(page);
                };
                let mut e = exp.clone();
                if order == "desc" {
                    e.reverse();
                }
                let t = match fail {
                    Some(f) => Some(f),
                    None if !same(&Value::Array(e.clone()), &Value::Array(all.clone())) => {
                        Some(format!("pages of {limit} ({order}) give {} entries instead of {}", all.len(), e.len()))
                    }
                    None => None,
                };
                if let Some(t) = t {
                    self.violate(&["C21"], format!("{} {q}: {t}", k.code));
                }
            }
        }
    }

    /// Declares the warp routes of one link.
    pub fn add_link(&mut self, s: &Value) {
        let mut l = Link::default();
        for m in garr(s, "members") {
            let c = gu(m, "c") as usize;
            if c < self.chains.len() {
                let a = self.addr(c, gs(m, "w"));
                l.members.push((c, a));
            }
        }
        self.m.links.push(l);
        self.touch_links();
    }

    // ---- upgrades ------------------------------------------------------------------------------

    pub fn migrate(&mut self, s: &Step) {
        let c = s.c;
        let a = self.addr(c, &s.to);
        let code = self.code(c, &a);
        let raw = match self.chains[c].peek(&a, b"contract_info") {
            Some(r) => r,
            None => return,
        };
        let info: Value = match serde_json::from_slice(&raw) {
            Ok(v) => v,
            Err(_) => return,
        };
        let now = match self.cm(c, &a) {
            Some(k) if !k.version.is_empty() => k.version.clone(),
            _ => return,
        };
        let ver = match s.msg.get("old").and_then(|x| x.as_str()) {
            Some(v) => v.to_string(),
            None => now.clone(),
        };
        let name = match s.msg.get("name").and_then(|x| x.as_str()) {
            Some(n) => n.to_string(),
            None => gs(&info, "contract").to_string(),
        };
        let name = match gs(&s.msg, "nameop") {
            "" => name,
            "scope" => format!("other:{name}"),
            "slash" => format!("other/{name}"),
            "crates" => format!("crates.io:{name}"),
            "dash" => format!("{name}-v2"),
            "tail" => name[..name.len() - 1].to_string(),
            "head" => name[1..].to_string(),
            "upper" => name.to_uppercase(),
            "space" => format!("{name} "),
            "empty" => String::new(),
            "under" => name.replace('-', "_"),
            "swap" => self.chains[c]
                .peek(&self.addr(c, "merkle"), b"contract_info")
                .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
                .map(|v| gs(&v, "contract").to_string())
                .unwrap_or_default(),
            _ => "crates.io:someone-else".into(),
        };
        let other = name != gs(&info, "contract");
        self.chains[c].poke(&a, b"contract_info", Some(json!({"contract": name, "version": ver}).to_string().as_bytes()));
        let bat = self.battery_of(c, &a, usize::MAX);
        let before: Vec<_> = bat.iter().map(|q| self.chains[c].query(&a, q).ok()).collect();
        let coins = |x: &Chain| x.st.borrow().bank.get(&a).cloned();
        let bank = coins(&self.chains[c]);
        let from = self.addr(c, if s.from.is_empty() { "u:admin" } else { &s.from });
        let node = self.chains[c].tx_migrate(&from, &a, None);
        let after: Vec<_> = bat.iter().map(|q| self.chains[c].query(&a, q).ok()).collect();
        let stored: Value = self.chains[c].peek(&a, b"contract_info").and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
        self.fault("upgrade");
        self.stat(&format!("{code}:migrate:{}", if node.ok { "ok" } else { "err" }));
        if self.verbose {
            println!("#{} c{} migrate {} from {name} {ver}: {}", self.n, c, s.to, if node.ok { "OK".into() } else { node.err.clone() });
        }
        self.m.ev("C23");
        let sizes: Vec<usize> = before.iter().map(|x| x.as_ref().map(|v| v.to_string().len()).unwrap_or(0)).collect();
        self.sig = hash_bytes(format!("mig|{code}|{ver}|{other}|{}|{sizes:?}", node.ok).as_bytes());
        let older = semver_lt(&ver, &now);
        if let Some(older) = older {
            let want = older && !other;
            if want != node.ok {
                self.violate(
                    &["C23"],
                    format!("{code}: migration from {name} {ver} to {now} {}: {}", if node.ok { "accepted" } else { "refused" }, node.err),
                );
            }
        } else if node.ok {
            self.violate(&["C23"], format!("{code}: migration from unreadable version {ver} accepted"));
        }
        if node.ok && (gs(&stored, "version") != now || gs(&stored, "contract") != gs(&info, "contract")) {
            self.violate(&["C23"], format!("{code}: migrated from {name} {ver}, stored version is {stored}"));
        }
        for ((q, x), y) in bat.iter().zip(&before).zip(&after) {
            if x != y {
                self.violate(&["C23"], format!("{code}: migration changed {q} from {x:?} to {y:?}"));
                break;
            }
        }
        if bank != coins(&self.chains[c]) {
            self.violate(&["C23"], format!("{code}: migration moved coins"));
        }
        if !acts(&node).is_empty() {
            self.violate(&["C23"], format!("{code}: migration sent messages"));
        }
        self.chains[c].poke(&a, b"contract_info", Some(&raw));
    }

    // ---- liveness ------------------------------------------------------------------------------

    /// Quiet phase: an honest relayer delivers everything that can be proved. Bounded: two attempts each.
    pub fn sweep(&mut self, s: &Step) {
        let relayer = if s.from.is_empty() { "u:relayer".to_string() } else { s.from.clone() };
        let todo: Vec<Disp> = self.disp.clone();
        let mut owed = 0;
        for d in todo {
            let c = match self.chain_of(d.msg.dest) {
                Some(c) => c,
                None => continue,
            };
            let mb = self.addr(c, "mb");
            let origin_ok = self.chain_of(d.msg.origin) == Some(d.c) && d.mb == self.addr(d.c, "mb");
            if !origin_ok || self.m.delivered.get(&(c, mb.clone())).map(|x| x.contains_key(&d.id)).unwrap_or(false) {
                continue;
            }
            let r = match wire_to_addr(&self.chains[c].hrp, &d.msg.recipient) {
                Some(r) => r,
                None => continue,
            };
            let healthy = match self.recipient_pred(c, &mb, &d.msg, &r) {
                Tri::Yes => true,
                Tri::No(_) => match (self.m.inflight.get(&d.id), self.link_of(c, &r)) {
                    // tokens of an intact link are there, whatever the balance says
                    (Some((l, a)), Some(l2)) => {
                        *l == l2
                            && *a > 0
                            && !self.m.links[*l].taint
                            && self.cm(c, &r).map(|k| k.routes.get(&d.msg.origin).cloned().flatten().and_then(|x| unhx(&x)) == Some(d.msg.sender.to_vec())).unwrap_or(false)
                            && wire_to_addr(&self.chains[c].hrp, &d.msg.body[..32]).is_some()
                    }
                    _ => false,
                },
                Tri::Unk => false,
            };
            let ism = match self.recipient_ism(c, &mb, &r) {
                Some(i) => i,
                None => continue,
            };
            if !healthy || self.cm(c, &mb).map(|k| k.dism.is_none()).unwrap_or(true) {
                continue;
            }
            let mut rng = crate::rng::Rng::new(mixn(&d.id));
            let meta = self.build_meta(c, &ism, &d.bytes, "honest", false, &mut rng, 0);
            if self.ism_pred(c, &ism, &meta, &d.bytes, 0) != V::Yes {
                continue;
            }
            owed += 1;
            self.m.ev("C24");
            let from = self.addr(c, &relayer);
            let msg = json!({"process": {"metadata": hx(&meta), "message": hx(&d.bytes)}});
            let mut why = String::new();
            let mut done = false;
            for _ in 0..2 {
                let node = self.chains[c].tx(&from, &mb, &msg, &[], None);
                let ok = node.ok;
                why = node.err.clone();
                let st = Step { k: "tx".into(), c, note: "quiet phase".into(), ..Default::default() };
                self.after(c, &st, node, None, false);
                if ok {
                    done = true;
                    break;
                }
            }
            if !done && !limit_err(&why) {
                self.violate(&["C24"], format!("message {} nonce {} of domain {} stays undeliverable: {why}", hx(&d.id), d.msg.nonce, d.msg.origin));
                if self.m.tried.get(&(c, mb.clone())).map(|t| t.contains(&d.id)).unwrap_or(false) {
                    self.violate(&["C01"], format!("message {} cannot be processed after a failed attempt: {why}", hx(&d.id)));
                }
            }
        }
        *self.stats.entry("sweep:owed".into()).or_insert(0) += owed;
    }
}

fn mixn(id: &[u8; 32]) -> u64 {
    u64::from_be_bytes(id[..8].try_into().unwrap())
}

/// Like `same`, but validator lists are sets.
fn same_ans(exp: &Value, got: &Value) -> bool {
    if let (Some(e), Some(g)) = (exp.get("validators"), got.get("validators")) {
        if exp.get("threshold").is_some() {
            if !same(&exp["threshold"], got.get("threshold").unwrap_or(&Value::Null)) {
                return false;
            }
            let f = |v: &Value| {
                let mut o: Vec<String> = v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_lowercase()).collect()).unwrap_or_default();
                o.sort();
                o
            };
            return f(e) == f(g);
        }
    }
    same(exp, got)
}
