//! Clients of one stateful object: threads of a simulated process share it behind a lock, save it to the
//! simulated disk, die and start again. The history in lock order is replayed through a reference model.
use crate::os::{self, Rng};
use crate::plan::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

pub trait Subject: Sized + Send + 'static {
    /// A new object, or the one saved in `text`.
    fn make(params: &Value, text: Option<&str>) -> Result<Self, String>;
    /// Carry out one operation and report what a user can see.
    fn apply(&mut self, op: &Value) -> Value;
    /// The saved form, if the object can be saved.
    fn save(&self) -> Option<Result<String, String>>;
}
pub trait Model: Clone {
    fn new(params: &Value) -> Self;
    /// The object came back from a saved state in a new process.
    fn restored(&mut self) {}
    fn step(&mut self, op: &Value, obs: &Value, cx: &mut Ctx) -> Result<(), (String, String)>;
}
pub fn bad<T>(class: &str, text: String) -> Result<T, (String, String)> {
    Err((class.to_string(), text))
}

const FILE: &str = "/sim/s/state.json";

/// Flat list of operations: `{"c": client, "k": ...}`, `{"k": "restart", "id": round}` begins a new process.
pub fn gen_ops(r: &mut Rng, cfg: &mut os::SimCfg, saves: bool, mut one: impl FnMut(&mut Rng) -> Value) -> Vec<Value> {
    let rounds = *r.pick(&[1u64, 1, 2, 3]);
    let mut ops = vec![];
    for id in 0..rounds {
        if id > 0 {
            ops.push(json!({"k": "restart", "id": id, "power": r.chance(1, 4)}));
        }
        let clients = 1 + r.below(3);
        for _ in 0..2 + r.below(18) {
            let c = r.below(clients);
            let mut o = if saves && r.chance(1, 8) { json!({"k": "save"}) } else { one(r) };
            o["c"] = json!(c);
            ops.push(o);
        }
        if saves && r.chance(1, 2) {
            ops.push(json!({"k": "save", "c": 0}));
        }
        if saves && r.chance(1, 3) {
            let k = match r.below(5) {
                0 | 1 => "crash",
                2 => *r.pick(CRASHES),
                _ => *r.pick(FILE_FAULTS),
            };
            cfg.faults.push(fault(id as u32, r.below(12) as u32, k, *r.pick(&["", "/sim/s"])));
        }
    }
    ops
}
pub fn env(r: &mut Rng) -> os::SimCfg {
    let mut cfg = swarm(r, 300);
    cfg.step_limit = 100_000;
    if r.chance(2, 3) {
        cfg.sched_seed = r.next() | 1;
    }
    cfg.alloc_preempt = *r.pick(&[0, 0, 3, 11, 37]);
    cfg
}

fn save_file(text: &str, client: u64) -> std::io::Result<()> {
    use std::io::Write;
    let tmp = format!("{FILE}.{client}.tmp");
    let mut f = std::fs::File::create(&tmp)?;
    f.write_all(text.as_bytes())?;
    f.sync_all()?;
    std::fs::rename(&tmp, FILE)?;
    std::fs::File::open("/sim/s")?.sync_all()
}

type Log = Arc<Mutex<Vec<(Value, Value)>>>;
fn note(log: &Log, op: Value, obs: Value) {
    let _b = os::Busy::new();
    log.lock().unwrap().push((op, obs));
}

pub fn play<S: Subject, M: Model>(p: &Plan, cx: &mut Ctx) {
    os::sim().fs.mkdirs("/sim/s", 0);
    os::sim().fs.settle();
    let mut rounds: Vec<(u64, bool, Vec<Value>)> = vec![(0, false, vec![])];
    for o in &p.ops {
        if o["k"] == "restart" {
            rounds.push((vu(o, "id"), vb(o, "power"), vec![]));
        } else {
            rounds.last_mut().unwrap().2.push(o.clone());
        }
    }
    // saved text -> state of the model when it was saved
    let mut saved: BTreeMap<String, M> = BTreeMap::new();
    let mut steps = 0;
    for (n, (id, power, ops)) in rounds.iter().enumerate() {
        if n > 0 && *power {
            os::sim().power_off();
            *os::sim().fired.entry("power_between_runs".into()).or_insert(0) += 1;
        }
        let mut clients: BTreeMap<u64, Vec<Value>> = BTreeMap::new();
        for o in ops {
            clients.entry(vu(o, "c")).or_default().push(o.clone());
        }
        let log: Log = Arc::default();
        let (l2, params, nclients) = (log.clone(), p.params.clone(), clients.len());
        os::sim().tag = *id as u32;
        let q = os::launch("service", "/sim", move || {
            let text = match std::fs::read_to_string(FILE) {
                Ok(t) => Some(t),
                Err(e) if e.kind() == std::io::ErrorKind::NotFound => None,
                Err(e) => {
                    eprintln!("cannot read the state: {e}");
                    return 1;
                }
            };
            let made = catch_unwind(AssertUnwindSafe(|| S::make(&params, text.as_deref()))).unwrap_or_else(|_| Err("panic".into()));
            let subject = match made {
                Ok(s) => s,
                Err(e) => {
                    note(&l2, json!({"k": "load"}), json!({"text": text, "err": e}));
                    return 1;
                }
            };
            note(&l2, json!({"k": "load"}), json!({"text": text}));
            let shared = Arc::new(Mutex::new(subject));
            let mut hs = vec![];
            for (c, ops) in clients {
                let (shared, log) = (shared.clone(), l2.clone());
                hs.push(std::thread::spawn(move || {
                    for op in ops {
                        {
                            let _b = os::Busy::new();
                            os::sim().yield_now();
                        }
                        let mut g = shared.lock().unwrap_or_else(|e| e.into_inner());
                        if op["k"] == "save" {
                            let Some(t) = g.save() else { continue };
                            let res = match t {
                                Ok(t) => {
                                    note(&log, op.clone(), json!({"text": t}));
                                    drop(g);
                                    save_file(&t, c).map_err(|e| e.to_string())
                                }
                                Err(e) => {
                                    note(&log, op.clone(), json!({"err": e}));
                                    continue;
                                }
                            };
                            note(&log, json!({"k": "saved"}), json!(res.is_ok()));
                            continue;
                        }
                        let obs = catch_unwind(AssertUnwindSafe(|| g.apply(&op))).unwrap_or_else(|_| json!({"panic": true}));
                        note(&log, op, obs);
                    }
                }));
            }
            hs.into_iter().map(|h| h.join().is_err() as i32).sum()
        });
        let end = os::run();
        os::sim().fs.capacity = None;
        if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
            return cx.fail("no-progress", format!("the service did not end: {end:?}"));
        }
        if os::sim().procs[q].exit == Some(os::Exit::Crashed) {
            cx.probe("crashed");
        }
        let log = log.lock().unwrap().clone();
        let mut m = M::new(&p.params);
        let mut order = vec![];
        for (op, obs) in &log {
            match op["k"].as_str().unwrap_or("") {
                "load" => {
                    if let Some(t) = obs["text"].as_str() {
                        let Some(old) = saved.get(t) else { return cx.fail("harness", format!("the state file holds a text nobody saved: {}", show(t.as_bytes()))) };
                        m = old.clone();
                        if !obs["err"].is_null() {
                            return cx.fail("saved-state-unusable", format!("a saved state cannot be loaded: {}: {}", obs["err"], show(t.as_bytes())));
                        }
                        m.restored();
                        cx.probe("restored");
                    } else if !obs["err"].is_null() {
                        return cx.fail("harness", format!("cannot make the object: {}", obs["err"]));
                    }
                }
                "saved" => cx.probe(if obs == &json!(true) { "saved" } else { "save_failed" }),
                "save" => match obs["text"].as_str() {
                    Some(t) => {
                        saved.insert(t.to_string(), m.clone());
                    }
                    None => return cx.fail("cannot-save", format!("the state cannot be saved: {}", obs["err"])),
                },
                _ => {
                    steps += 1;
                    order.push(vu(op, "c"));
                    if obs["panic"] == json!(true) && op["may_panic"] != json!(true) {
                        return cx.fail("panic", format!("operation {op} panicked"));
                    }
                    if let Err((c, t)) = m.step(op, obs, cx) {
                        let hist: Vec<String> = log.iter().filter(|x| x.0["k"] != "saved").map(|x| x.0.to_string()).take_while(|s| *s != op.to_string()).collect();
                        return cx.fail(&c, format!("{t}\noperation: {op}\nobserved: {}\nbefore: {}", show(obs.to_string().as_bytes()), hist.join(" ")));
                    }
                }
            }
        }
        if nclients > 1 && order.windows(2).any(|w| w[0] > w[1]) {
            cx.probe("interleaved");
        }
    }
    cx.nontrivial = steps >= 3;
}
