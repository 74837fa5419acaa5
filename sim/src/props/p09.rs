//! P09: the model registry has one active version, chosen by the rules. P10: retraining promotes only good models.
use crate::os::Rng;
use crate::plan::*;
use crate::shop::{self, bad, Model, Subject};
use decy_ownership::ml_features::{InferredOwnership, OwnershipFeatures};
use decy_ownership::model_versioning::{ModelEntry, ModelQualityMetrics, ModelVersion, ModelVersionManager, QualityThresholds};
use decy_ownership::retraining_pipeline::{DataSplit, ModelTrainer, RetrainingConfig, RetrainingPipeline, RetrainingResult, TrainingMetrics, TrainingSample};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

const STUB: &[&str] = &["file system, clock, scheduler, randomness, processes (simulated)", "the service around the object (lock, saving to a file) is the harness's"];
pub const P09: Prop = Prop {
    id: "P09",
    gen: gen9,
    exec: |p, cx| shop::play::<Registry, RegistryModel>(p, cx),
    quick: 60_000,
    thorough: 1_500_000,
    fixed: no_fixed,
    rule: "a run is 1-3 processes in turn, each with 1-3 client threads that register versions, roll back, roll back to a version, report quality and look at one shared registry, save it, crash, lose power and come back; every operation's result and the whole visible state after it are compared with a reference model stepped in the same order; non-trivial: at least three operations; distinct by event-log hash",
    level: "exploration",
    real: &["decy-ownership model_versioning", "serde_json state files"],
    stub: STUB,
    assume: &["metrics are multiples of 1/1000; exactly on the 0.01 and 0.05 comparison margins both answers are accepted"],
    must: &["activated", "not_activated", "stale_version", "rolled_back", "rollback_refused", "rollback_to", "auto_rollback", "quality_ok", "pruned", "aged", "restored", "interleaved", "crashed"],
};
pub const P10: Prop = Prop {
    id: "P10",
    gen: gen10,
    exec: |p, cx| shop::play::<Pipe, PipeModel>(p, cx),
    quick: 60_000,
    thorough: 1_500_000,
    fixed: no_fixed,
    rule: "a run is 1-3 processes in turn, each with 1-3 client threads that run retraining (with scripted training results, training errors and trainers that panic), roll back, change the configuration and look at one shared pipeline; every result and the visible state after it are compared with a reference model; non-trivial: at least three operations; distinct by event-log hash",
    level: "exploration",
    real: &["decy-ownership retraining_pipeline and model_versioning"],
    stub: &["clock, scheduler, randomness, processes (simulated)", "the trainer (scripted)"],
    assume: &["a degradation within 1e-9 of the limit may be judged either way"],
    must: &["promoted", "gate_failed", "degraded", "too_little_data", "training_error", "trainer_panic", "rolled_back", "rollback_refused", "manager_gate", "interleaved"],
};

fn k(v: u64) -> f64 {
    v as f64 / 1000.0
}
fn metrics(v: &Value) -> ModelQualityMetrics {
    let g = |n: &str| vi(v, n) as f64 / 1000.0;
    ModelQualityMetrics::new(g("acc"), g("pre"), g("rec"), g("f1"), g("conf"), g("fall"), vu(v, "n"))
}
fn version(v: &Value) -> ModelVersion {
    let a: Vec<u32> = v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
    ModelVersion::new(a[0], a[1], a[2])
}
fn tuple(v: &ModelVersion) -> Value {
    json!([v.major, v.minor, v.patch])
}
fn thresholds(v: &Value) -> QualityThresholds {
    QualityThresholds { min_accuracy: k(vu(v, "acc")), min_precision: k(vu(v, "pre")), min_recall: k(vu(v, "rec")), min_f1: k(vu(v, "f1")) }
}
fn some_metrics(r: &mut Rng) -> Value {
    // around the limits, and often close to each other
    let mut m = |lo: i64, hi: i64| if r.chance(1, 12) { *r.pick(&[0, 1000, 850, 800, 1000, -200, 1300]) } else { lo + r.below((hi - lo) as u64) as i64 };
    json!({"acc": m(780, 1000), "pre": m(790, 1000), "rec": m(790, 1000), "f1": m(790, 1000), "conf": m(0, 1000), "fall": m(0, 1000), "n": m(0, 90).max(0)})
}

// ------------------------------------------------------------------ P09
fn gen9(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = shop::env(r);
    let mut last = (1u64, 0u64, 0u64);
    let same = r.chance(1, 4);
    let base = some_metrics(r);
    let ops = shop::gen_ops(r, &mut cfg, true, |r| match r.below(12) {
        0..=4 => {
            let v = match r.below(8) {
                0 => (last.0, last.1.saturating_sub(r.below(2)), last.2),
                1 => (last.0 + 1, 0, 0),
                2 | 3 => (last.0, last.1, last.2 + 1),
                4 => (r.below(3), r.below(12), r.below(12)),
                _ => (last.0, last.1 + 1, 0),
            };
            last = last.max(v);
            let mut m = if same { base.clone() } else { some_metrics(r) };
            if r.chance(1, 3) {
                m = json!({"acc": 900 + r.below(30), "pre": 900, "rec": 900, "f1": 880 + r.below(40), "conf": 900, "fall": 100, "n": 5});
            }
            json!({"k": "reg", "v": [v.0, v.1, v.2], "m": m})
        }
        5 | 6 => json!({"k": "rb", "why": format!("reason {}", r.below(5))}),
        7 => json!({"k": "rbto", "v": [r.below(3), r.below(5), r.below(3)], "nth": if r.chance(4, 5) { json!(r.below(8)) } else { Value::Null }, "why": format!("to {}", r.below(5))}),
        8 => json!({"k": "quality", "m": some_metrics(r)}),
        9 => json!({"k": "auto", "m": some_metrics(r)}),
        _ => json!({"k": "view"}),
    });
    if r.chance(1, 8) {
        return plan("P09", cfg, ops, json!({"default": true, "max": 10, "t": {"acc": 850, "pre": 800, "rec": 800, "f1": 800}}));
    }
    let t = if r.chance(1, 2) { json!({"acc": 850, "pre": 800, "rec": 800, "f1": 800}) } else { json!({"acc": 700 + r.below(200), "pre": 700 + r.below(200), "rec": r.below(900), "f1": r.below(900)}) };
    plan("P09", cfg, ops, json!({"max": *r.pick(&[0, 1, 2, 2, 3, 3, 4, 6, 10]), "t": t}))
}
struct Registry(ModelVersionManager);
impl Registry {
    fn view(&self) -> Value {
        let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_millis() as u64);
        let m = &self.0;
        let (t0, md, t1) = (now(), m.to_markdown(), now());
        json!({
            "active": m.active_version().map(|e| tuple(&e.version)),
            "count": m.version_count(),
            "list": m.versions().map(|e| json!([tuple(&e.version), e.is_active, e.rolled_back, e.rollback_reason, [e.metrics.accuracy, e.metrics.precision, e.metrics.recall, e.metrics.f1_score, e.metrics.avg_confidence, e.metrics.fallback_rate, e.metrics.sample_count as f64], e.description, e.artifact_path])).collect::<Vec<_>>(),
            "rb": m.rollback_history().iter().map(|r| json!([tuple(&r.from_version), tuple(&r.to_version), r.reason, r.success])).collect::<Vec<_>>(),
            "md": md,
            "at": [t0, t1, m.versions().map(|e| e.released_at).collect::<Vec<_>>()],
        })
    }
}
impl Subject for Registry {
    fn make(params: &Value, text: Option<&str>) -> Result<Self, String> {
        match text {
            Some(t) => serde_json::from_str(t).map(Registry).map_err(|e| e.to_string()),
            None if vb(params, "default") => Ok(Registry(ModelVersionManager::new())),
            None => Ok(Registry(ModelVersionManager::with_thresholds(thresholds(&params["t"])).with_max_history(vu(params, "max") as usize))),
        }
    }
    fn apply(&mut self, op: &Value) -> Value {
        let rb = |r: decy_ownership::model_versioning::RollbackResult| json!([tuple(&r.from_version), tuple(&r.to_version), r.reason, r.success]);
        let m = &mut self.0;
        let res = match op["k"].as_str().unwrap_or("") {
            "reg" => {
                let v = version(&op["v"]);
                match m.register_version(ModelEntry::new(v.clone(), metrics(&op["m"]), format!("d{v}"), format!("/m/{v}"))) {
                    Ok(b) => json!({"ok": b}),
                    Err(e) => json!({"err": e}),
                }
            }
            "rb" => match m.rollback(vstr(op, "why")) {
                Ok(r) => json!({"ok": rb(r)}),
                Err(e) => json!({"err": e}),
            },
            "rbto" => {
                let v = op["nth"].as_u64().and_then(|n| m.versions().nth(n as usize).map(|e| e.version.clone())).unwrap_or_else(|| version(&op["v"]));
                // a client names the version as it reads it in the report
                let named = ModelVersion::parse(&v.to_string()).unwrap_or_default();
                let mut o = match m.rollback_to(&named, vstr(op, "why")) {
                    Ok(r) => json!({"ok": rb(r)}),
                    Err(e) => json!({"err": e}),
                };
                o["v"] = tuple(&v);
                o
            }
            "quality" => json!({"ok": m.check_quality(&metrics(&op["m"]))}),
            "auto" => json!({"ok": m.auto_rollback_if_needed(&metrics(&op["m"])).map(rb)}),
            _ => Value::Null,
        };
        json!({"r": res, "view": self.view()})
    }
    fn save(&self) -> Option<Result<String, String>> {
        Some(serde_json::to_string(&self.0).map_err(|e| e.to_string()))
    }
}
#[derive(Clone, Debug)]
struct Entry {
    v: Value,
    acc: i64,
    pre: i64,
    rec: i64,
    f1: i64,
    conf: i64,
    fall: i64,
    n: i64,
    rolled: Option<String>,
}
impl Entry {
    fn new(v: Value, m: &Value) -> Self {
        let g = |k: &str| vi(m, k).clamp(0, 1000);
        Entry { v, acc: g("acc"), pre: g("pre"), rec: g("rec"), f1: g("f1"), conf: g("conf"), fall: g("fall"), n: vi(m, "n"), rolled: None }
    }
    fn meets(&self, t: &Value) -> bool {
        self.acc >= vi(t, "acc") && self.pre >= vi(t, "pre") && self.rec >= vi(t, "rec") && self.f1 >= vi(t, "f1")
    }
}
/// Reference registry: plain lists and integers.
#[derive(Clone)]
struct RegistryModel {
    t: Value,
    max: usize,
    list: Vec<Entry>,
    active: Option<Value>,
    rb: Vec<Value>,
}
fn ord(v: &Value) -> Vec<u64> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
}
impl RegistryModel {
    fn active(&self) -> Option<&Entry> {
        self.active.as_ref().and_then(|a| self.list.iter().find(|e| e.v == *a))
    }
    fn prune(&mut self) -> bool {
        let mut any = false;
        while self.list.len() > self.max {
            let i = self.list.iter().position(|e| Some(&e.v) != self.active.as_ref()).unwrap();
            self.list.remove(i);
            any = true;
        }
        any
    }
    /// Version a plain rollback goes to.
    fn previous(&self) -> Option<Value> {
        let a = self.active.as_ref()?;
        let i = self.list.iter().position(|e| e.v == *a)?;
        self.list[..i].iter().rev().find(|e| e.rolled.is_none() && e.meets(&self.t)).map(|e| e.v.clone())
    }
    fn go(&mut self, to: &Value, why: &str) -> Value {
        let from = self.active.clone().unwrap();
        self.list.iter_mut().find(|e| e.v == from).unwrap().rolled = Some(why.to_string());
        self.list.iter_mut().find(|e| e.v == *to).unwrap().rolled = None;
        self.active = Some(to.clone());
        let r = json!([from, to, why, true]);
        self.rb.push(r.clone());
        r
    }
    fn view(&self) -> Value {
        json!({
            "active": self.active,
            "count": self.list.len(),
            "list": self.list.iter().map(|e| {
                let v = ord(&e.v);
                let name = format!("v{}.{}.{}", v[0], v[1], v[2]);
                json!([e.v, self.active.as_ref() == Some(&e.v), e.rolled.is_some(), e.rolled, [e.acc as f64 / 1000.0, e.pre as f64 / 1000.0, e.rec as f64 / 1000.0, e.f1 as f64 / 1000.0, e.conf as f64 / 1000.0, e.fall as f64 / 1000.0, e.n as f64], format!("d{name}"), format!("/m/{name}")])
            }).collect::<Vec<_>>(),
            "rb": self.rb,
        })
    }
    /// 1: regressed, 0: fine, -1: too close to tell
    fn quality(&self, m: &Value) -> i32 {
        let e = Entry::new(Value::Null, m);
        if !e.meets(&self.t) {
            return 1;
        }
        match self.active() {
            Some(a) if a.acc - e.acc > 50 => 1,
            Some(a) if a.acc - e.acc == 50 => -1,
            _ => 0,
        }
    }
}
fn name(v: &Value) -> String {
    let v = ord(v);
    format!("v{}.{}.{}", v[0], v[1], v[2])
}
impl Model for RegistryModel {
    fn new(params: &Value) -> Self {
        RegistryModel { t: params["t"].clone(), max: (vu(params, "max") as usize).max(2), list: vec![], active: None, rb: vec![] }
    }
    fn step(&mut self, op: &Value, obs: &Value, cx: &mut Ctx) -> Result<(), (String, String)> {
        let r = &obs["r"];
        match op["k"].as_str().unwrap_or("") {
            "reg" => {
                if self.list.last().map_or(false, |l| ord(&op["v"]) <= ord(&l.v)) {
                    cx.probe("stale_version");
                    if r["err"].is_null() {
                        return bad("stale-accepted", format!("a version not newer than the latest was registered: {r}"));
                    }
                } else {
                    let e = Entry::new(op["v"].clone(), &op["m"]);
                    let better = match self.active() {
                        None => Some(true),
                        Some(a) if (e.acc - a.acc).abs() > 10 => Some(e.acc > a.acc),
                        Some(a) if (e.acc - a.acc).abs() < 10 => Some(e.f1 > a.f1),
                        Some(a) if (e.acc > a.acc) == (e.f1 > a.f1) => Some(e.acc > a.acc),
                        _ => None,
                    };
                    let got = r["ok"].as_bool();
                    let want = match (e.meets(&self.t), better) {
                        (false, _) => false,
                        (true, Some(b)) => b,
                        (true, None) => got.unwrap_or(false),
                    };
                    if got != Some(want) {
                        return bad("wrong-activation", format!("registering should {} activate the version, got {r}", if want { "" } else { "not" }));
                    }
                    cx.probe(if want { "activated" } else { "not_activated" });
                    if want {
                        self.active = Some(e.v.clone());
                    }
                    self.list.push(e);
                    if self.prune() {
                        cx.probe("pruned");
                    }
                }
            }
            "rb" | "auto" => {
                let mut why = vstr(op, "why");
                let mut due = true;
                if op["k"] == "auto" {
                    let q = self.quality(&op["m"]);
                    due = if q == -1 { !r["ok"].is_null() } else { q == 1 };
                    why = r["ok"][2].as_str().unwrap_or("").to_string();
                    if due && r["ok"].is_array() {
                        cx.probe("auto_rollback");
                        if !why.starts_with("Auto-rollback: ") {
                            return bad("rollback-reason", format!("reason {why:?}"));
                        }
                    }
                }
                let to = if due && self.list.len() >= 2 { self.previous() } else { None };
                match to {
                    Some(to) => {
                        let want = self.go(&to, &why);
                        cx.probe("rolled_back");
                        if r["ok"] != want {
                            return bad("wrong-rollback", format!("rollback should be {want}, got {r}"));
                        }
                    }
                    None => {
                        cx.probe("rollback_refused");
                        if !r["ok"].is_null() {
                            return bad("wrong-rollback", format!("there is nothing to roll back to, or no need, but got {r}"));
                        }
                    }
                }
            }
            "rbto" => {
                let v = r["v"].clone();
                let can = self.active.is_some() && self.active.as_ref() != Some(&v) && self.list.iter().any(|e| e.v == v);
                if can {
                    let want = self.go(&v, &vstr(op, "why"));
                    cx.probe("rollback_to");
                    if r["ok"] != want {
                        return bad("wrong-rollback", format!("rollback to {v} should be {want}, got {r}"));
                    }
                } else if r["err"].is_null() {
                    return bad("wrong-rollback", format!("rollback to {v} should be refused, got {r}"));
                }
            }
            "quality" => {
                let q = self.quality(&op["m"]);
                if q != -1 && (q == 1) == r["ok"].is_null() {
                    return bad("wrong-quality", format!("the quality check should{} complain, got {r}", if q == 1 { "" } else { " not" }));
                }
                if q == 0 {
                    cx.probe("quality_ok");
                }
            }
            _ => {}
        }
        // everything a user can see
        let want = self.view();
        let mut got = obs["view"].clone();
        let md = got["md"].as_str().unwrap_or("").to_string();
        let at = got["at"].clone();
        got.as_object_mut().map(|o| (o.remove("md"), o.remove("at")));
        if want != got {
            return bad("wrong-state", format!("visible state is {got}\nshould be {want}"));
        }
        let head = match self.active() {
            None => "**Active Version**: None".to_string(),
            Some(e) => format!("**Active Version**: {} | Accuracy: {:.1}% | F1: {:.3}", name(&e.v), e.acc as f64 / 10.0, e.f1 as f64 / 1000.0),
        };
        if !md.lines().any(|l| l == head) {
            return bad("wrong-report", format!("the report does not start with {head:?}: {md}"));
        }
        let age = |now: u64, then: u64| match now.saturating_sub(then) / 3_600_000 {
            0 => "recent".to_string(),
            h if h < 24 => format!("{h}h ago"),
            h => format!("{}d ago", h / 24),
        };
        for (i, e) in self.list.iter().enumerate() {
            let st = if self.active.as_ref() == Some(&e.v) {
                "Active"
            } else if e.rolled.is_some() {
                "Rolled Back"
            } else {
                "Available"
            };
            let then = at[2][i].as_u64().unwrap_or(0);
            let ages = [age(at[0].as_u64().unwrap_or(0), then), age(at[1].as_u64().unwrap_or(0), then)];
            if ages[0] != "recent" {
                cx.probe("aged");
            }
            let row = format!("| {} | {:.1}% | {:.3} |", name(&e.v), e.acc as f64 / 10.0, e.f1 as f64 / 1000.0);
            let count = |ages: &[String]| md.lines().filter(|l| l.starts_with(&row) && l.contains(st) && ages.iter().any(|a| l.ends_with(&format!("| {a} |")))).count();
            let mut n = count(&ages);
            // the time since 1970 is shown instead
            if n == 0 && count(&[age(then, 0)]) == 1 {
                cx.note("release-age", || format!("{} was released {ages:?}, the report says {}: {md}", name(&e.v), age(then, 0)));
                n = 1;
            }
            if n != 1 {
                return bad("wrong-report", format!("{} is {st}, released {ages:?}, the report has {n} lines {row:?} saying so: {md}", name(&e.v)));
            }
        }
        for w in &self.rb {
            let line = format!("- {} → {}: {}", name(&w[0]), name(&w[1]), w[2].as_str().unwrap_or(""));
            if !md.contains(&line) {
                return bad("wrong-report", format!("the report lacks {line:?}: {md}"));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P10
fn config(v: &Value) -> RetrainingConfig {
    RetrainingConfig {
        min_precision: k(vu(v, "pre")),
        min_recall: k(vu(v, "rec")),
        max_degradation: k(vu(v, "deg")),
        cv_folds: 5,
        min_train_samples: vu(v, "mt") as usize,
        min_validation_samples: vu(v, "mv") as usize,
        min_test_samples: vu(v, "me") as usize,
        train_ratio: k(vu(v, "tr")),
        validation_ratio: k(vu(v, "vr")),
    }
}
fn some_config(r: &mut Rng) -> Value {
    let (tr, vr) = *r.pick(&[(700u64, 150u64), (500, 250), (600, 400), (1000, 0), (0, 500), (330, 330)]);
    json!({"pre": 800 + r.below(100), "rec": 800 + r.below(60), "deg": *r.pick(&[0, 20, 20, 100, 500]), "mt": r.below(8), "mv": r.below(4), "me": r.below(4), "tr": tr, "vr": vr})
}
fn gen10(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = shop::env(r);
    let mut tag = 0;
    let ops = shop::gen_ops(r, &mut cfg, false, |r| match r.below(12) {
        0..=6 => {
            tag += 1;
            let out = match r.below(12) {
                0 => json!({"err": format!("no luck {tag}")}),
                1 => json!({"panic": true}),
                2 => json!({"pre": 700 + r.below(300), "rec": 700 + r.below(300), "f1": r.below(1000)}),
                3 => json!({"pre": 1000, "rec": 1000}),
                _ => json!({"pre": 820 + r.below(180), "rec": 800 + r.below(200)}),
            };
            json!({"k": "run", "n": *r.pick(&[0u64, 1, 5, 9, 10, 11, 20, 20, 20, 33, 40, 40]), "out": out, "tag": tag, "may_panic": !out["panic"].is_null()})
        }
        7 | 8 => json!({"k": "rb", "v": [1 + r.below(8) / 7, r.below(7), 0]}),
        9 => json!({"k": "cfg", "cfg": some_config(r)}),
        _ => json!({"k": "view"}),
    });
    let seeds: Vec<Value> = (0..r.below(4)).map(|i| {
            // as the pipeline does: accuracy is F1
            let f1 = 750 + r.below(250);
            json!({"v": [1, i, r.below(2)], "m": {"acc": f1, "pre": 900, "rec": 900, "f1": f1, "n": 3}})
        })
        .collect();
    let t = if r.chance(1, 2) { json!({"acc": 850, "pre": 800, "rec": 800, "f1": 800}) } else { json!({"acc": r.below(900), "pre": r.below(900), "rec": r.below(900), "f1": r.below(900)}) };
    plan("P10", cfg, ops, json!({"max": *r.pick(&[2, 2, 3, 4, 10]), "t": t, "cfg": some_config(r), "seeds": seeds}))
}
#[derive(Default)]
struct Stage {
    next: Value,
    split: Option<(Vec<u32>, Vec<u32>, Vec<u32>)>,
}
#[derive(Clone)]
struct Scripted(Arc<Mutex<Stage>>);
impl ModelTrainer for Scripted {
    fn train(&self, d: &DataSplit) -> Result<TrainingMetrics, String> {
        let ids = |v: &[TrainingSample]| v.iter().map(|s| s.line_number).collect::<Vec<_>>();
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        g.split = Some((ids(&d.train), ids(&d.validation), ids(&d.test)));
        let o = g.next.clone();
        drop(g);
        if !o["panic"].is_null() {
            panic!("trainer died");
        }
        if let Some(e) = o["err"].as_str() {
            return Err(e.into());
        }
        let mut m = TrainingMetrics::new(k(vu(&o, "pre")), k(vu(&o, "rec")));
        if let Some(f) = o["f1"].as_u64() {
            m.f1_score = k(f);
        }
        Ok(m)
    }
}
struct Pipe {
    stage: Arc<Mutex<Stage>>,
    p: RetrainingPipeline<Scripted>,
}
fn tm(m: &TrainingMetrics) -> Value {
    json!([m.precision, m.recall, m.f1_score])
}
impl Subject for Pipe {
    fn make(params: &Value, _t: Option<&str>) -> Result<Self, String> {
        let mut m = ModelVersionManager::with_thresholds(thresholds(&params["t"])).with_max_history(vu(params, "max") as usize);
        for s in params["seeds"].as_array().into_iter().flatten() {
            let v = version(&s["v"]);
            m.register_version(ModelEntry::new(v.clone(), metrics(&s["m"]), format!("d{v}"), format!("/m/{v}")))?;
        }
        let stage: Arc<Mutex<Stage>> = Arc::default();
        Ok(Pipe { p: RetrainingPipeline::new(Scripted(stage.clone()), m, config(&params["cfg"])), stage })
    }
    fn apply(&mut self, op: &Value) -> Value {
        let mut split = None;
        let res = match op["k"].as_str().unwrap_or("") {
            "run" => {
                *self.stage.lock().unwrap_or_else(|e| e.into_inner()) = Stage { next: op["out"].clone(), split: None };
                let f = OwnershipFeatures::default();
                let samples = (0..vu(op, "n")).map(|i| TrainingSample::new(f.clone(), InferredOwnership::Owned, "t.c", i as u32)).collect();
                let p = &mut self.p;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.execute(samples)));
                split = self.stage.lock().unwrap_or_else(|e| e.into_inner()).split.take();
                match r {
                    Err(_) => json!("panic"),
                    Ok(r) => {
                        let s = r.is_success();
                        let has = r.metrics().is_some();
                        let mut v = match r {
                            RetrainingResult::Promoted { version, metrics } => json!({"promoted": tuple(&version), "m": tm(&metrics)}),
                            RetrainingResult::QualityGateFailed { metrics, .. } => json!({"gate": true, "m": tm(&metrics)}),
                            RetrainingResult::Degraded { degradation, new_metrics, current_metrics } => json!({"degraded": degradation, "m": tm(&new_metrics), "cur": current_metrics.f1_score}),
                            RetrainingResult::InsufficientData { actual, required } => json!({"few": [actual, required]}),
                            RetrainingResult::TrainingError { error } => json!({"error": error}),
                        };
                        v["success"] = json!(s);
                        v["has"] = json!(has);
                        v
                    }
                }
            }
            "rb" => match self.p.rollback(&version(&op["v"])) {
                Ok(r) => json!({"ok": [tuple(&r.from_version), tuple(&r.to_version)]}),
                Err(e) => json!({"err": e}),
            },
            "cfg" => {
                self.p.set_config(config(&op["cfg"]));
                Value::Null
            }
            _ => Value::Null,
        };
        let hist: Vec<Value> = self
            .p
            .history()
            .iter()
            .map(|h| {
                let d = format!("{:?}", h.result);
                json!([d.split(|c: char| !c.is_alphanumeric()).next(), h.sample_count, d])
            })
            .collect();
        json!({"r": res, "split": split, "hist": hist, "rate": self.p.success_rate(), "cur": self.p.current_version().map(|e| json!([tuple(&e.version), [e.metrics.precision, e.metrics.recall, e.metrics.f1_score], e.is_active, e.rolled_back]))})
    }
    fn save(&self) -> Option<Result<String, String>> {
        None
    }
}
#[derive(Clone)]
struct PipeModel {
    t: QualityThresholds,
    max: usize,
    cfg: Value,
    /// (version, precision, recall, f1)
    list: Vec<(Value, [f64; 3])>,
    active: Option<Value>,
    rolled: std::collections::BTreeSet<String>,
    hist: Vec<Value>,
    promoted: u64,
}
impl PipeModel {
    fn cur(&self) -> Option<&(Value, [f64; 3])> {
        self.active.as_ref().and_then(|a| self.list.iter().find(|e| e.0 == *a))
    }
    fn prune(&mut self, keep: Option<Value>) {
        while self.list.len() > self.max {
            let i = self.list.iter().position(|e| Some(&e.0) != keep.as_ref()).unwrap();
            self.list.remove(i);
        }
    }
}
impl Model for PipeModel {
    fn new(params: &Value) -> Self {
        let mut reg = RegistryModel::new(params);
        let mut cx = Ctx::default();
        for s in params["seeds"].as_array().into_iter().flatten() {
            // what the registry model decides, the ambiguous margin excluded by following the real one
            let mut m = ModelVersionManager::with_thresholds(thresholds(&params["t"])).with_max_history(vu(params, "max") as usize);
            for q in params["seeds"].as_array().into_iter().flatten().take_while(|q| *q != s) {
                let _ = m.register_version(ModelEntry::new(version(&q["v"]), metrics(&q["m"]), "", ""));
            }
            let ok = m.register_version(ModelEntry::new(version(&s["v"]), metrics(&s["m"]), "", ""));
            let op = json!({"k": "reg", "v": s["v"], "m": s["m"]});
            let _ = reg.step(&op, &json!({"r": {"ok": ok.unwrap_or(false)}}), &mut cx);
        }
        PipeModel {
            t: thresholds(&params["t"]),
            max: reg.max,
            cfg: params["cfg"].clone(),
            list: reg.list.iter().map(|e| (e.v.clone(), [e.pre as f64 / 1000.0, e.rec as f64 / 1000.0, e.f1 as f64 / 1000.0])).collect(),
            active: reg.active.clone(),
            rolled: Default::default(),
            hist: vec![],
            promoted: 0,
        }
    }
    fn step(&mut self, op: &Value, obs: &Value, cx: &mut Ctx) -> Result<(), (String, String)> {
        let r = &obs["r"];
        match op["k"].as_str().unwrap_or("") {
            "run" => {
                let c = &self.cfg;
                let (n, mt, mv, me) = (vu(op, "n"), vu(c, "mt"), vu(c, "mv"), vu(c, "me"));
                let need = mt + mv + me;
                let a = (n as f64 * k(vu(c, "tr"))) as u64;
                let b = (n as f64 * k(vu(c, "vr"))) as u64;
                let enough = n >= need && a >= mt && b >= mv && n - (a + b).min(n) >= me;
                let split = &obs["split"];
                let out = &op["out"];
                if !split.is_null() {
                    let len = |i: usize| split[i].as_array().map_or(0, |x| x.len() as u64);
                    let mut ids: Vec<u64> = (0..3).flat_map(|i| split[i].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap())).collect();
                    ids.sort();
                    if ids != (0..n).collect::<Vec<_>>() {
                        return bad("split-loses-samples", format!("{n} samples were split into {split}"));
                    }
                    if n < need || len(0) < mt || len(1) < mv || len(2) < me {
                        return bad("trained-on-too-little", format!("the trainer ran on {}/{}/{} samples, at least {mt}/{mv}/{me} are required", len(0), len(1), len(2)));
                    }
                }
                let mut new: Option<Value> = None;
                let kind;
                if r == "panic" {
                    cx.probe("trainer_panic");
                    if out["panic"].is_null() {
                        return bad("panic", "retraining panicked".into());
                    }
                    kind = "";
                } else if !r["few"].is_null() {
                    cx.probe("too_little_data");
                    if enough || !split.is_null() {
                        return bad("wrong-result", format!("{n} samples are enough, but got {r}"));
                    }
                    if r["few"] != json!([n, need]) {
                        return bad("wrong-result", format!("{n} samples, {need} required, but got {r}"));
                    }
                    kind = "InsufficientData";
                } else if split.is_null() || !enough {
                    return bad("wrong-result", format!("too few samples ({n}) or nothing trained, but got {r}"));
                } else if let Some(e) = out["err"].as_str() {
                    cx.probe("training_error");
                    if r["error"] != json!(e) {
                        return bad("wrong-result", format!("training failed, but got {r}"));
                    }
                    kind = "Error";
                } else {
                    let (p, q) = (k(vu(out, "pre")), k(vu(out, "rec")));
                    let f1 = out["f1"].as_u64().map_or(TrainingMetrics::new(p, q).f1_score, k);
                    let m = [p, q, f1];
                    if r["m"] != json!(m) {
                        return bad("wrong-metrics", format!("training gave {m:?}, reported {r}"));
                    }
                    let gate = p >= k(vu(c, "pre")) && q >= k(vu(c, "rec"));
                    let drop = self.cur().map_or(f64::MIN, |x| x.1[2] - f1);
                    let limit = k(vu(c, "deg"));
                    let near = (drop - limit).abs() < 1e-9;
                    let manager = f1 >= self.t.min_accuracy && p >= self.t.min_precision && q >= self.t.min_recall && f1 >= self.t.min_f1;
                    let what = if !gate {
                        "gate"
                    } else if (near && !r["degraded"].is_null()) || (!near && drop > limit) {
                        "degraded"
                    } else if !manager {
                        cx.probe("manager_gate");
                        "gate"
                    } else {
                        "promoted"
                    };
                    if r[what].is_null() {
                        return bad("wrong-result", format!("{m:?} with current {:?}: should be {what}, got {r}", self.cur()));
                    }
                    match what {
                        "gate" => {
                            cx.probe("gate_failed");
                            kind = "QualityGateFailed";
                        }
                        "degraded" => {
                            cx.probe("degraded");
                            if (r["degraded"].as_f64().unwrap_or(9.0) - drop).abs() > 1e-9 || r["cur"] != json!(self.cur().unwrap().1[2]) {
                                return bad("wrong-result", format!("degradation {drop} reported as {r}"));
                            }
                            kind = "Degraded";
                        }
                        _ => {
                            cx.probe("promoted");
                            kind = "Promoted";
                            let v = r["promoted"].clone();
                            if self.list.iter().any(|e| ord(&e.0) >= ord(&v)) {
                                return bad("version-not-newer", format!("promoted version {v} is not newer than {:?}", self.list.last()));
                            }
                            self.list.push((v.clone(), m));
                            new = Some(v);
                        }
                    }
                }
                if let Some(v) = &new {
                    // the registry decides itself whether it activates; the oldest goes, never the active one
                    let keep = self.active.clone();
                    let better = match self.cur() {
                        None => true,
                        Some(c) => {
                            let f = self.list.last().unwrap().1[2];
                            f > c.1[2]
                        }
                    };
                    self.prune(if better { Some(v.clone()) } else { keep });
                    self.active = Some(v.clone());
                    self.promoted += 1;
                }
                if !kind.is_empty() {
                    if (kind == "Promoted") != (r["success"] == json!(true)) || r["has"].as_bool() != Some(!r["m"].is_null()) {
                        return bad("wrong-result", format!("is_success or metrics() disagree with {r}"));
                    }
                    self.hist.push(json!([kind, n]));
                }
            }
            "rb" => {
                let v = op["v"].clone();
                let can = self.active.is_some() && self.active.as_ref() != Some(&v) && self.list.iter().any(|e| e.0 == v);
                if can {
                    cx.probe("rolled_back");
                    if r["ok"] != json!([self.active, v]) {
                        return bad("wrong-rollback", format!("rollback from {:?} to {v} gave {r}", self.active));
                    }
                    self.active = Some(v);
                } else {
                    cx.probe("rollback_refused");
                    if r["err"].is_null() {
                        return bad("wrong-rollback", format!("rollback to {v} should be refused, got {r}"));
                    }
                }
            }
            "cfg" => self.cfg = op["cfg"].clone(),
            _ => {}
        }
        let want = self.cur().map(|c| json!([c.0, c.1, true, false]));
        if obs["cur"] != json!(want) {
            return bad("wrong-active", format!("the active model is {}, should be {want:?}", obs["cur"]));
        }
        let got: Vec<Value> = obs["hist"].as_array().into_iter().flatten().map(|h| json!([h[0], h[1]])).collect();
        if got != self.hist {
            return bad("wrong-history", format!("recorded executions {got:?}, should be {:?}", self.hist));
        }
        let rate = if self.hist.is_empty() { 0.0 } else { self.promoted as f64 / self.hist.len() as f64 };
        if (obs["rate"].as_f64().unwrap_or(-1.0) - rate).abs() > 1e-12 {
            return bad("wrong-history", format!("success rate {}, should be {rate}", obs["rate"]));
        }
        Ok(())
    }
}
