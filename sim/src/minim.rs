//! Shrinks a failing schedule: delta debugging over the steps, then simplification of single steps.
use crate::sim::*;

pub const STEP_CAP: usize = 100_000;

/// Executes a recorded schedule. Nothing random is left: the steps are explicit.
pub fn execute(cfg: &Cfg, steps: &[Step], filter: Option<&str>) -> Sim {
    let mut s = Sim::new(cfg);
    s.m.filter = filter.map(|x| x.to_string());
    for st in steps.iter().take(STEP_CAP) {
        s.exec(st);
        if !s.m.viols.is_empty() {
            break;
        }
    }
    s
}

/// C23: the same schedule without its upgrades must run exactly alike.
pub fn twin(cfg: &Cfg, steps: &[Step], done: Option<&Sim>) -> Option<Viol> {
    if !steps.iter().any(|s| s.k == "mig") {
        return None;
    }
    let rest: Vec<Step> = steps.iter().filter(|s| s.k != "mig").cloned().collect();
    let own;
    let a = match done {
        Some(d) => d,
        None => {
            own = execute(cfg, steps, Some("none"));
            &own
        }
    };
    let b = execute(cfg, &rest, Some("none"));
    if a.log == b.log && a.outcomes == b.outcomes {
        return None;
    }
    let i = a.outcomes.iter().zip(&b.outcomes).position(|(x, y)| x != y);
    let text = match i {
        Some(i) => format!("transaction {i} of the history behaves differently than without the upgrades before it"),
        None => "a query answers differently than without the upgrades before it".to_string(),
    };
    Some(Viol { prop: "C23".into(), text, step: steps.len() })
}

/// The verdict of a property on a recorded schedule.
pub fn judge(prop: &str, cfg: &Cfg, steps: &[Step]) -> Option<Viol> {
    let s = execute(cfg, steps, Some(prop));
    if let Some(v) = s.m.viols.into_iter().next() {
        return Some(v);
    }
    if prop == "C23" {
        return twin(cfg, steps, None);
    }
    None
}

pub fn minimise(cfg: &Cfg, steps: &[Step], setup: usize, test: &dyn Fn(&Cfg, &[Step]) -> bool, budget: std::time::Duration) -> (Vec<Step>, usize) {
    let t0 = std::time::Instant::now();
    let mut cur: Vec<Step> = steps.to_vec();
    let mut lo = setup.min(cur.len());
    // first the events of the run, then the set-up
    for round in 0..3 {
        let (from, to) = if round == 1 { (0, lo) } else { (lo, cur.len()) };
        let (mut a, mut b) = (from, to);
        let mut chunk = ((b - a) / 2).max(1);
        while chunk >= 1 && b > a {
            let mut i = b;
            let mut any = false;
            while i > a {
                if t0.elapsed() > budget {
                    return (cur, lo);
                }
                let s = i.saturating_sub(chunk).max(a);
                let mut cand = cur.clone();
                cand.drain(s..i);
                if test(cfg, &cand) {
                    let k = i - s;
                    cur = cand;
                    b -= k;
                    if round == 1 {
                        lo -= k;
                    }
                    any = true;
                }
                i = s;
            }
            if chunk == 1 && !any {
                break;
            }
            chunk = if chunk > 1 { chunk / 2 } else { 1 };
        }
        a = a.min(b);
        let _ = a;
    }
    // simplify what is left
    for i in 0..cur.len() {
        let tries: Vec<Box<dyn Fn(&mut Step)>> = vec![
            Box::new(|s| s.oog = None),
            Box::new(|s| s.note.clear()),
            Box::new(|s| s.funds.clear()),
            Box::new(|s| {
                if let Some(o) = s.msg.get_mut("dispatch").and_then(|d| d.as_object_mut()) {
                    o.remove("metadata");
                }
            }),
            Box::new(|s| {
                if let Some(o) = s.msg.get_mut("dispatch").and_then(|d| d.as_object_mut()) {
                    o.remove("hook");
                }
            }),
            Box::new(|s| {
                if let Some(o) = s.msg.get_mut("dispatch").and_then(|d| d.as_object_mut()) {
                    o.insert("msg_body".into(), "".into());
                }
            }),
        ];
        for f in tries {
            if t0.elapsed() > budget {
                return (cur, lo);
            }
            let mut cand = cur.clone();
            f(&mut cand[i]);
            if cand[i] != cur[i] && test(cfg, &cand) {
                cur = cand;
            }
        }
    }
    (cur, lo)
}
