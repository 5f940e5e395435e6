//! Small helpers for demonstrations on the one-process chain runtime in chain.rs.
pub use crate::chain::{Chain, Node};
pub use crate::util::*;
pub use serde_json::{json, Value};

pub fn raw(i: u8) -> [u8; 20] {
    [i; 20]
}
pub fn raw32(i: u8) -> [u8; 32] {
    let mut r = [i; 32];
    r[0] = 0x77;
    r
}

pub struct K {
    pub c: Chain,
}

impl K {
    pub fn new(hrp: &str) -> K {
        std::panic::set_hook(Box::new(|_| {}));
        K { c: Chain::new(hrp, 0) }
    }
    pub fn acc(&self, i: u8) -> String {
        bech_enc(&self.c.hrp, &raw(i))
    }
    /// Creates a contract at a fixed 32-byte address.
    pub fn inst(&self, i: u8, code: &str, msg: Value) -> String {
        let n = self.try_inst(i, code, msg);
        if !n.ok {
            bad(&format!("setup: instantiate {code}: {}", n.err));
        }
        bech_enc(&self.c.hrp, &raw32(i))
    }
    pub fn try_inst(&self, i: u8, code: &str, msg: Value) -> Node {
        self.c.tx_inst(&self.acc(1), &raw32(i), code, &msg, None)
    }
    pub fn tx(&self, from: &str, to: &str, msg: Value, funds: &[(u128, &str)]) -> Node {
        let f: Vec<(u128, String)> = funds.iter().map(|(a, d)| (*a, d.to_string())).collect();
        self.c.tx(from, to, &msg, &f, None)
    }
    pub fn ok(&self, from: &str, to: &str, msg: Value, funds: &[(u128, &str)]) -> Node {
        let n = self.tx(from, to, msg.clone(), funds);
        if !n.ok {
            bad(&format!("a call that must succeed failed: {msg}: {}", n.err));
        }
        n
    }
    pub fn refused(&self, from: &str, to: &str, msg: Value, funds: &[(u128, &str)]) {
        if self.tx(from, to, msg.clone(), funds).ok {
            bad(&format!("a call that must be refused committed: {msg}"));
        }
    }
    pub fn q(&self, to: &str, msg: Value) -> Value {
        match self.c.query(to, &msg) {
            Ok(v) => v,
            Err(e) => bad(&format!("query failed: {msg}: {e}")),
        }
    }
    pub fn qe(&self, to: &str, msg: Value) -> Result<Value, String> {
        self.c.query(to, &msg)
    }
    pub fn puppet(&self, i: u8, cfg: Value) -> String {
        self.inst(i, "puppet", cfg)
    }
    pub fn mailbox(&self, i: u8, domain: u32) -> String {
        let o = self.acc(1);
        self.inst(i, "mailbox", json!({"hrp": self.c.hrp, "owner": o, "domain": domain}))
    }
    pub fn set_mb(&self, mb: &str, ism: &str, hook: &str, req: &str) {
        let o = self.acc(1);
        self.ok(&o, mb, json!({"set_default_ism": {"ism": ism}}), &[]);
        self.ok(&o, mb, json!({"set_default_hook": {"hook": hook}}), &[]);
        self.ok(&o, mb, json!({"set_required_hook": {"hook": req}}), &[]);
    }
    pub fn dispatch(&self, dest: u32, rcpt: &[u8], body: &[u8]) -> Value {
        json!({"dispatch": {"dest_domain": dest, "recipient_addr": hx(rcpt), "msg_body": hx(body), "hook": null, "metadata": null}})
    }
}

pub fn bad(s: &str) -> ! {
    println!("BROKEN: {s}");
    std::process::exit(1)
}
pub fn expect(c: bool, s: &str) {
    if !c {
        bad(s)
    }
}
pub fn good() -> ! {
    println!("ok");
    std::process::exit(0)
}

/// Multisig metadata: tree, root, index, signatures.
pub fn ms_meta(tree: &[u8], root: &[u8], index: u32, sigs: &[Vec<u8>]) -> Vec<u8> {
    let mut m = tree.to_vec();
    m.extend_from_slice(root);
    m.extend_from_slice(&index.to_be_bytes());
    for s in sigs {
        m.extend_from_slice(s);
    }
    m
}
