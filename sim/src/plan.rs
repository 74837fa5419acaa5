//! A plan is everything that decides one simulated run; an outcome is everything one run reports.
use crate::os::{self, Fault, Rng, SimCfg};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    #[serde(default)]
    pub cfg: SimCfg,
    #[serde(default)]
    pub params: Value,
    pub ops: Vec<Value>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Outcome {
    /// short stable class of the violation, with a full description
    pub violation: Option<(String, String)>,
    pub hash: u64,
    pub sched: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub trace: Vec<String>,
}

/// What a scenario writes its observations into.
#[derive(Default)]
pub struct Ctx {
    pub viol: Option<(String, String)>,
    /// a violation that does not end the run; it counts if nothing else is found
    pub soft: Option<(String, String)>,
    pub nontrivial: bool,
    pub probes: BTreeMap<String, u64>,
}
impl Ctx {
    pub fn fail(&mut self, class: &str, detail: String) {
        if self.viol.is_none() {
            self.viol = Some((class.to_string(), detail));
        }
    }
    /// A violation so common that it would hide others: looked at in one run of 64.
    pub fn note(&mut self, class: &str, detail: impl FnOnce() -> String) {
        if self.soft.is_none() {
            self.soft = Some((class.to_string(), detail()));
        }
    }
    pub fn failed(&self) -> bool {
        self.viol.is_some()
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
    }
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, bool) -> Plan,
    pub exec: fn(&Plan, &mut Ctx),
    pub quick: usize,
    pub thorough: usize,
    /// fixed plans that always run first
    pub fixed: fn() -> Vec<Plan>,
    pub rule: &'static str,
    pub level: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assume: &'static [&'static str],
    /// probes that must be reached for the run of the check to mean anything
    pub must: &'static [&'static str],
}
pub fn no_fixed() -> Vec<Plan> {
    vec![]
}

pub fn plan(prop: &str, cfg: SimCfg, ops: Vec<Value>, params: Value) -> Plan {
    Plan { prop: prop.into(), seed: 0, cfg, params, ops }
}

/// Swarm-style environment: every run switches a random subset of the hostile features on.
pub fn swarm(r: &mut Rng, steps: u64) -> SimCfg {
    let mut c = SimCfg { hash_seed: r.next(), ..Default::default() };
    if r.chance(1, 2) {
        c.readdir_seed = r.next() | 1;
    }
    if r.chance(1, 2) {
        c.sched_seed = r.next() | 1;
    }
    if r.chance(1, 3) {
        c.short_io = 1 + r.below(60) as u32;
    }
    if r.chance(1, 3) {
        c.pid_reuse = true;
    }
    c.clock_gran = *r.pick(&[1, 1, 1000, 1_000_000, 1_000_000_000]);
    c.mtime_gran = *r.pick(&[1, 1_000_000, 1_000_000_000, 2_000_000_000]);
    c.op_ns = *r.pick(&[0, 100, 1000, 1_000_000]);
    if r.chance(1, 4) {
        c.wall_start = *r.pick(&[0, 5, 1, 4_102_444_800, 951_782_400]);
    }
    if r.chance(1, 4) {
        for _ in 0..1 + r.below(3) {
            let d = r.range(-2_000_000_000_000, 2_000_000_000_000);
            let d = if r.chance(1, 4) { -3_000_000_000_000_000_000 } else { d };
            c.wall_jumps.push((r.below(steps), d));
        }
    }
    preempts(r, &mut c, steps);
    c
}
pub fn preempts(r: &mut Rng, c: &mut SimCfg, steps: u64) {
    let n = *r.pick(&[0, 0, 1, 2, 4, 8, 16]);
    for _ in 0..n {
        c.preempts.push((r.below(steps.max(1)), r.below(4) as u32));
    }
}
pub const FILE_FAULTS: &[&str] = &[
    "eio", "eio_read", "eio_write", "eacces", "eacces_read", "enospc", "short", "torn", "eintr", "emfile", "diskfull", "spawnfail",
    "readdir_eio", "opendir_eacces", "mkdir_fail", "rename_fail", "fsync_fail", "write_fail", "create_fail", "open_fail", "unlink_fail",
];
pub const CRASHES: &[&str] = &["crash", "crash_mid", "power"];

/// Compilers and scripts that die, or fail after having written their output.
pub const TOOL_FAULTS: &[&str] = &["tool_kill", "tool_silent", "tool_late_kill", "tool_late_fail"];
pub fn tool_fault(r: &mut Rng, op: u32, names: &[&str], runs: u64) -> Fault {
    fault(op, 0, r.pick(TOOL_FAULTS), &format!("<tool>{}#{}", r.pick(names), r.below(runs)))
}
pub fn fault(op: u32, at: u32, kind: &str, path: &str) -> Fault {
    Fault { op, at, kind: kind.into(), path: path.into() }
}
pub fn is_crash(k: &str) -> bool {
    CRASHES.contains(&k)
}

// ------------------------------------------------------------------ helpers for scenarios
/// Run `f` as a simulated process without faults and hand back what it returns.
pub fn calm<T: Send + 'static>(cwd: &str, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let s = os::sim();
    let on = std::mem::replace(&mut s.faults_on, false);
    let shorts = std::mem::replace(&mut s.cfg.short_io, 0);
    let cap = s.fs.capacity.take();
    let tag = std::mem::replace(&mut s.tag, u32::MAX);
    let cell = std::sync::Arc::new(std::sync::Mutex::new(None));
    let c2 = cell.clone();
    os::launch("reference", cwd, move || {
        let v = f();
        let _b = os::Busy::new();
        *c2.lock().unwrap() = Some(v);
        0
    });
    os::run();
    let s = os::sim();
    s.faults_on = on;
    s.cfg.short_io = shorts;
    s.fs.capacity = cap;
    s.tag = tag;
    let v = cell.lock().unwrap().take();
    v
}
/// Run `f` as a simulated process under the plan's faults.
pub fn stormy<T: Send + 'static>(cwd: &str, f: impl FnOnce() -> T + Send + 'static) -> (Option<T>, os::RunEnd) {
    let cell = std::sync::Arc::new(std::sync::Mutex::new(None));
    let c2 = cell.clone();
    os::launch("client", cwd, move || {
        let v = f();
        let _b = os::Busy::new();
        *c2.lock().unwrap() = Some(v);
        0
    });
    let e = os::run();
    let v = cell.lock().unwrap().take();
    (v, e)
}
pub fn vstr(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap_or("").to_string()
}
pub fn vu(v: &Value, k: &str) -> u64 {
    v[k].as_u64().unwrap_or(0)
}
pub fn vi(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or(0)
}
pub fn vb(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or(false)
}
pub fn show(s: &[u8]) -> String {
    let t = String::from_utf8_lossy(s);
    let t: String = t.chars().take(300).collect();
    format!("{t:?}")
}
