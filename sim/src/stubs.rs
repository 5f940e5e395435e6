//! The puppet: one configurable stand-in for everything that is not part of the system under test -
//! message recipients, third-party hooks and ISMs, hostile contracts, and callers that catch failures.
use crate::util::*;
use cosmwasm_std::{
    Binary, Coin, CosmosMsg, Deps, DepsMut, Env, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult,
    SubMsg, Uint128, WasmMsg,
};
use serde_json::{json, Value};

fn err(s: &str) -> StdError {
    StdError::generic_err(s)
}

fn load(deps: Deps) -> Value {
    deps.storage.get(b"cfg").and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(json!({}))
}

pub fn instantiate(deps: DepsMut, _e: Env, _i: MessageInfo, msg: Value) -> StdResult<Response> {
    deps.storage.set(b"cfg", msg.to_string().as_bytes());
    Ok(Response::new())
}

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}

fn call(c: &Value) -> StdResult<SubMsg> {
    let mut funds = vec![];
    if let Some(f) = c.get("funds").and_then(|f| f.as_array()) {
        for x in f {
            funds.push(Coin {
                denom: s(x, "denom").to_string(),
                amount: Uint128::new(s(x, "amount").parse().map_err(|_| err("amount"))?),
            });
        }
    }
    let m: CosmosMsg = WasmMsg::Execute {
        contract_addr: s(c, "to").to_string(),
        msg: Binary::from(c.get("msg").cloned().unwrap_or(Value::Null).to_string().into_bytes()),
        funds,
    }
    .into();
    Ok(SubMsg {
        id: 1,
        msg: m,
        gas_limit: c.get("gas").and_then(|g| g.as_u64()),
        reply_on: match s(c, "reply") {
            "always" => ReplyOn::Always,
            "error" => ReplyOn::Error,
            "success" => ReplyOn::Success,
            _ => ReplyOn::Never,
        },
    })
}

fn spend_all(deps: &DepsMut) -> ! {
    loop {
        let _ = deps.storage.get(b"cfg");
    }
}

pub fn execute(deps: DepsMut, _e: Env, _i: MessageInfo, msg: Value) -> StdResult<Response> {
    let mut cfg = load(deps.as_ref());
    let key = msg.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
    let mut resp = Response::new();
    match key.as_str() {
        "set" => {
            if let (Some(c), Some(n)) = (cfg.as_object_mut(), msg["set"].as_object()) {
                for (k, v) in n {
                    c.insert(k.clone(), v.clone());
                }
            }
            deps.storage.set(b"cfg", cfg.to_string().as_bytes());
            return Ok(resp);
        }
        "run" => {
            for c in msg["run"]["calls"].as_array().cloned().unwrap_or_default() {
                resp = resp.add_submessage(call(&c)?);
            }
            return Ok(resp);
        }
        _ => {}
    }
    // count what was accepted: the count survives only if the transaction commits
    let ck = format!("n:{key}");
    let n = deps.storage.get(ck.as_bytes()).and_then(|b| String::from_utf8(b).ok()).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    deps.storage.set(ck.as_bytes(), (n + 1).to_string().as_bytes());
    let mode = if key == "handle" { s(&cfg, "handle") } else { s(&cfg, "hook") };
    match mode {
        "fail" => return Err(err("puppet refuses")),
        "panic" => panic!("puppet panics"),
        "oog" => spend_all(&deps),
        _ => {}
    }
    let times = cfg.get("times").and_then(|t| t.as_u64()).unwrap_or(0);
    let on = s(&cfg, "on");
    if times > 0 && (on == key || on == "any") {
        let calls = cfg.get("script").and_then(|x| x.as_array()).cloned().unwrap_or_default();
        cfg["times"] = json!(times - 1);
        deps.storage.set(b"cfg", cfg.to_string().as_bytes());
        for c in calls {
            resp = resp.add_submessage(call(&c)?);
        }
    }
    Ok(resp)
}

pub fn reply(_d: DepsMut, _e: Env, _r: Reply) -> StdResult<Response> {
    Ok(Response::new())
}

fn verdict(deps: Deps, cfg: &Value, meta: &[u8], message: &[u8]) -> StdResult<bool> {
    match s(cfg, "verdict") {
        "yes" => Ok(true),
        "no" => Ok(false),
        "err" => Err(err("puppet ism error")),
        "panic" => panic!("puppet ism panics"),
        "meta" => Ok(meta.first().map(|b| b & 1 == 1).unwrap_or(false)),
        // the ideal ISM: accepts exactly the messages really dispatched
        "known" => Ok(deps.storage.get(&[b"known:".as_slice(), &keccak(message)].concat()).is_some()),
        _ => Err(err("no verdict")),
    }
}

/// Fixed fees, or fees that depend on every byte of the message.
pub fn fees(cfg: &Value, message: &[u8]) -> Value {
    let mut l = cfg.get("fees").and_then(|f| f.as_array()).cloned().unwrap_or_default();
    if cfg.get("price").and_then(|p| p.as_bool()).unwrap_or(false) {
        let h = keccak(message);
        for (i, f) in l.iter_mut().enumerate() {
            let n = s(f, "amount").parse::<u128>().unwrap_or(0) + (h[i] % 64) as u128;
            f["amount"] = json!(n.to_string());
        }
    }
    json!(l)
}

pub fn query(deps: Deps, _e: Env, msg: Value) -> StdResult<Binary> {
    let cfg = load(deps);
    let out = |v: Value| Ok(Binary::from(v.to_string().into_bytes()));
    if let Some(h) = msg.get("hook") {
        if h.get("mailbox").is_some() {
            return out(json!({"mailbox": "unrestricted"}));
        }
        if s(&cfg, "quote") == "err" {
            return Err(err("puppet cannot quote"));
        }
        let m = unhx(s(&h["quote_dispatch"], "message")).unwrap_or_default();
        return out(json!({"fees": fees(&cfg, &m)}));
    }
    if msg.get("ism_specifier").is_some() {
        let i = cfg.get("ism").cloned().unwrap_or(Value::Null);
        if i == json!("err") {
            return Err(err("no ism specifier"));
        }
        return out(json!({ "ism": i }));
    }
    if let Some(i) = msg.get("ism") {
        if let Some(v) = i.get("verify") {
            let meta = unhx(s(v, "metadata")).unwrap_or_default();
            let m = unhx(s(v, "message")).unwrap_or_default();
            return out(json!({"verified": verdict(deps, &cfg, &meta, &m)?}));
        }
        if i.get("module_type").is_some() {
            return out(json!({"type": "null"}));
        }
        if i.get("verify_info").is_some() {
            return out(cfg.get("info").cloned().unwrap_or(json!({"threshold": 1, "validators": []})));
        }
    }
    if msg.get("state").is_some() {
        return out(cfg);
    }
    Err(err("unknown query"))
}
