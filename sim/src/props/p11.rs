//! P11: the labelling queue hands out the most uncertain samples first, each at most once, within its bound.
use crate::os::Rng;
use crate::plan::*;
use crate::shop::{self, bad, Model, Subject};
use decy_ownership::active_learning::{ActiveLearner, QueueStats, SampleQueue, SelectionStrategy, UncertainSample};
use decy_ownership::ml_features::{InferredOwnership as Own, OwnershipFeatures, OwnershipPrediction};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const P11: Prop = Prop {
    id: "P11",
    gen,
    exec: |p, cx| shop::play::<Queue, QueueModel>(p, cx),
    quick: 40_000,
    thorough: 1_500_000,
    fixed: no_fixed,
    rule: "a run is 1-3 processes in turn, each with 1-3 client threads that queue samples, take them one by one or in batches, label and return them, take the labelled ones and look at the statistics of one shared queue or learner, save it, crash, lose power and come back; every result is compared with a reference model stepped in the same order; non-trivial: at least three operations; distinct by event-log hash",
    level: "exploration",
    real: &["decy-ownership active_learning", "serde_json state files"],
    stub: &["file system, clock, scheduler, randomness, processes (simulated)", "the service around the queue (lock, saving to a file) is the harness's"],
    assume: &["scores are finite numbers", "a client returns a sample at most once"],
    must: &["dropped", "evicted", "tie", "batch", "short_batch", "empty", "submitted", "unlabelled_submitted", "taken", "below_minimum", "restored", "interleaved", "crashed", "flood"],
};
const KINDS: [Own; 8] = [Own::Owned, Own::Borrowed, Own::BorrowedMut, Own::Shared, Own::RawPointer, Own::Vec, Own::Slice, Own::SliceMut];
const STRATEGIES: [SelectionStrategy; 4] = [SelectionStrategy::UncertaintySampling, SelectionStrategy::MarginSampling, SelectionStrategy::EntropySampling, SelectionStrategy::Random];

fn gen(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = shop::env(r);
    let learner = r.chance(1, 3);
    let few = r.chance(1, 2);
    let mut tag = 0u64;
    let ops = shop::gen_ops(r, &mut cfg, !learner, |r| {
        let mut score = |r: &mut Rng| {
            if few {
                *r.pick(&[0i64, 250, 500, 500, 750, 1000])
            } else if r.chance(1, 20) {
                *r.pick(&[-500, 1500])
            } else {
                r.below(1001) as i64
            }
        };
        match r.below(16) {
            0..=7 => {
                tag += 1;
                json!({"k": "enq", "s": score(r), "kind": r.below(8), "fb": r.chance(1, 2), "tag": tag})
            }
            8 => json!({"k": "next"}),
            9 => json!({"k": "batch", "n": *r.pick(&[0u64, 1, 2, 3, 5, 9, u64::MAX])}),
            10 | 11 => json!({"k": "submit", "nth": r.below(4), "label": if r.chance(1, 6) { json!(null) } else { json!(r.below(8)) }, "agree": r.chance(1, 2)}),
            12 => json!({"k": "take"}),
            13 => json!({"k": "clear"}),
            14 if learner && r.chance(1, 3) => {
                tag += 2000;
                json!({"k": "flood", "n": 990 + r.below(60), "a": 1 + r.below(1000), "tag": tag})
            }
            _ => json!({"k": "view"}),
        }
    });
    plan("P11", cfg, ops, json!({"learner": learner, "max": if learner { 1000 } else { *r.pick(&[0u64, 1, 2, 3, 4, 6, 1000]) }, "st": r.below(4), "min": *r.pick(&[0u64, 350, 350, 500, 900, 1000]), "ct": *r.pick(&[650u64, 500, 900])}))
}

enum Obj {
    Queue(SampleQueue),
    Learner(ActiveLearner),
}
struct Queue {
    o: Obj,
    st: SelectionStrategy,
    held: BTreeMap<u64, UncertainSample>,
}
fn show_sample(s: &UncertainSample) -> Value {
    let kind = |k: &Own| KINDS.iter().position(|x| x == k);
    json!([s.id, s.variable, s.uncertainty_score, s.strategy.to_string(), kind(&s.prediction.kind), s.label.as_ref().map(|l| kind(l)), s.source_file, s.is_labeled()])
}
fn pred(op: &Value) -> OwnershipPrediction {
    OwnershipPrediction { kind: KINDS[vu(op, "kind") as usize % 8], confidence: vi(op, "s") as f32 / 1000.0, fallback: if vb(op, "fb") { Some(Own::RawPointer) } else { None } }
}
impl Queue {
    fn stats(&self) -> QueueStats {
        match &self.o {
            Obj::Queue(q) => q.stats(),
            Obj::Learner(l) => l.stats(),
        }
    }
    fn give(&mut self, v: Vec<UncertainSample>) -> Value {
        let out = json!(v.iter().map(show_sample).collect::<Vec<_>>());
        for s in v {
            self.held.insert(s.id, s);
        }
        out
    }
}
impl Subject for Queue {
    fn make(p: &Value, text: Option<&str>) -> Result<Self, String> {
        let st = STRATEGIES[vu(p, "st") as usize];
        let o = match text {
            Some(t) => Obj::Queue(serde_json::from_str(t).map_err(|e| e.to_string())?),
            None if vb(p, "learner") => Obj::Learner(ActiveLearner::with_strategy(st).with_min_uncertainty(vu(p, "min") as f64 / 1000.0).with_confidence_threshold(vu(p, "ct") as f64 / 1000.0)),
            None => Obj::Queue(SampleQueue::new(st).with_max_pending(vu(p, "max") as usize)),
        };
        Ok(Queue { o, st, held: BTreeMap::new() })
    }
    fn apply(&mut self, op: &Value) -> Value {
        let f = OwnershipFeatures::default();
        let res = match op["k"].as_str().unwrap_or("") {
            "enq" => {
                let v = format!("v{}", vu(op, "tag"));
                match &mut self.o {
                    Obj::Queue(q) => json!(q.enqueue(UncertainSample::new(77, v, f, pred(op), vi(op, "s") as f64 / 1000.0, self.st).with_source(format!("f{}.c", vu(op, "tag")), 3))),
                    Obj::Learner(l) => {
                        let u = l.is_uncertain(&pred(op));
                        let (s, q) = l.process_prediction(v, f, pred(op));
                        json!([s, q, u])
                    }
                }
            }
            "flood" => match &mut self.o {
                Obj::Learner(l) => (0..vu(op, "n"))
                    .map(|i| {
                        let o = json!({"s": (i * vu(op, "a")) % 1001, "kind": i % 8, "fb": i % 2 == 1});
                        let (s, q) = l.process_prediction(format!("v{}", vu(op, "tag") + i), f.clone(), pred(&o));
                        json!([s, q])
                    })
                    .collect(),
                _ => Value::Null,
            },
            "next" => {
                let peeked = match &self.o {
                    Obj::Queue(q) => q.peek_next().map(show_sample),
                    _ => None,
                };
                let s = match &mut self.o {
                    Obj::Queue(q) => q.next_for_labeling(),
                    Obj::Learner(l) => l.next_for_labeling(),
                };
                let queue = matches!(self.o, Obj::Queue(_));
                let out = self.give(s.into_iter().collect());
                json!({"got": out, "peek": if queue { json!(peeked.into_iter().collect::<Vec<_>>()) } else { out.clone() }})
            }
            "batch" => {
                let v = match &mut self.o {
                    Obj::Queue(q) => q.batch_for_labeling(vu(op, "n") as usize),
                    Obj::Learner(l) => l.batch_for_labeling(vu(op, "n") as usize),
                };
                self.give(v)
            }
            "submit" => {
                let id = self.held.keys().nth(vu(op, "nth") as usize).copied();
                if let Some(mut s) = id.and_then(|i| self.held.remove(&i)) {
                    let label = if op["label"].is_null() { None } else { Some(if vb(op, "agree") { s.prediction.kind } else { KINDS[vu(op, "label") as usize] }) };
                    if let Some(l) = label {
                        s.apply_label(l);
                    }
                    match &mut self.o {
                        Obj::Queue(q) => q.submit_labeled(s),
                        Obj::Learner(l) => l.submit_labeled(s),
                    }
                    json!([id, label.map(|l| KINDS.iter().position(|x| *x == l))])
                } else {
                    Value::Null
                }
            }
            "take" => {
                let v = match &mut self.o {
                    Obj::Queue(q) => q.take_labeled_samples(),
                    Obj::Learner(l) => l.take_training_samples(),
                };
                json!(v.iter().map(show_sample).collect::<Vec<_>>())
            }
            "clear" => {
                if let Obj::Queue(q) = &mut self.o {
                    q.clear_pending();
                }
                Value::Null
            }
            _ => Value::Null,
        };
        let s = self.stats();
        let labeled: Vec<Value> = match &self.o {
            Obj::Queue(q) => q.get_labeled_samples(),
            Obj::Learner(l) => l.get_training_samples(),
        }
        .iter()
        .map(show_sample)
        .collect();
        let mut out = json!({"r": res, "st": [s.pending, s.labeled, s.total_processed], "avg": s.avg_uncertainty, "acc": s.prediction_accuracy, "labeled": labeled});
        match &self.o {
            Obj::Queue(q) => out["cnt"] = json!([q.pending_count(), q.labeled_count(), q.total_processed(), q.strategy().to_string()]),
            Obj::Learner(l) => out["md"] = json!(l.to_markdown()),
        }
        out
    }
    fn save(&self) -> Option<Result<String, String>> {
        match &self.o {
            Obj::Queue(q) => Some(serde_json::to_string(q).map_err(|e| e.to_string())),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
struct Item {
    id: u64,
    var: u64,
    score: f64,
    kind: u64,
    src: bool,
    label: Value,
}
#[derive(Clone)]
struct QueueModel {
    p: Value,
    /// best first
    pending: Vec<Item>,
    held: BTreeMap<u64, Item>,
    labeled: Vec<Item>,
    total: u64,
}
impl QueueModel {
    fn show(&self, i: &Item) -> Value {
        let src = if i.src { json!(format!("f{}.c", i.var)) } else { Value::Null };
        json!([i.id, format!("v{}", i.var), i.score, STRATEGIES[vu(&self.p, "st") as usize].to_string(), i.kind, i.label, src, !i.label.is_null()])
    }
    fn shows(&self, v: &[Item]) -> Value {
        json!(v.iter().map(|i| self.show(i)).collect::<Vec<_>>())
    }
    /// Whether the new sample is in the queue afterwards.
    fn add(&mut self, score: f64, var: u64, kind: u64, src: bool, cx: &mut Ctx) -> bool {
        self.total += 1;
        let max = vu(&self.p, "max") as usize;
        let at = self.pending.iter().take_while(|x| x.score >= score).count();
        if at > 0 && self.pending[at - 1].score == score {
            cx.probe("tie");
        }
        self.pending.insert(at, Item { id: self.total, var, score, kind, src, label: Value::Null });
        let mut kept = true;
        if self.pending.len() > max {
            kept = at < max;
            cx.probe(if kept { "evicted" } else { "dropped" });
            self.pending.truncate(max);
        }
        kept
    }
    fn pop(&mut self, n: usize) -> Value {
        let n = n.min(self.pending.len());
        let out: Vec<Item> = self.pending.drain(..n).collect();
        let v = self.shows(&out);
        for i in out {
            self.held.insert(i.id, i);
        }
        v
    }
    fn score(&self, op: &Value) -> Option<f64> {
        let c = (vi(op, "s") as f32 / 1000.0) as f64;
        match vu(&self.p, "st") {
            1 if vb(op, "fb") => Some(1.0 - (0.2 * c).min(1.0)),
            0 | 1 => Some(1.0 - c),
            2 if c <= 0.0 || c >= 1.0 => Some(0.0),
            2 => Some(-(c * c.ln() + (1.0 - c) * (1.0 - c).ln()) / std::f64::consts::LN_2),
            _ => None,
        }
    }
    fn offer(&mut self, op: &Value, got: &Value, cx: &mut Ctx) -> Result<(), (String, String)> {
        let s = got[0].as_f64().unwrap_or(f64::NAN);
        if let Some(want) = self.score(op) {
            if !((s - want).abs() < 1e-6) {
                return bad("wrong-score", format!("uncertainty of {op} is {want}, got {got}"));
            }
        }
        let due = s >= vu(&self.p, "min") as f64 / 1000.0;
        if !due {
            cx.probe("below_minimum");
        }
        let kept = due && self.add(s.clamp(0.0, 1.0), vu(op, "tag"), vu(op, "kind"), false, cx);
        if got[1] != json!(kept) {
            return bad("wrong-queued", format!("score {s}: {} in the queue afterwards, but reported {got}", if kept { "is" } else { "is not" }));
        }
        Ok(())
    }
}
impl Model for QueueModel {
    fn new(p: &Value) -> Self {
        QueueModel { p: p.clone(), pending: vec![], held: BTreeMap::new(), labeled: vec![], total: 0 }
    }
    fn restored(&mut self) {
        self.held.clear();
    }
    fn step(&mut self, op: &Value, obs: &Value, cx: &mut Ctx) -> Result<(), (String, String)> {
        let r = &obs["r"];
        let learner = vb(&self.p, "learner");
        match op["k"].as_str().unwrap_or("") {
            "enq" if learner => {
                self.offer(op, r, cx)?;
                let c = (vi(op, "s") as f32 / 1000.0) as f64;
                if r[2] != json!(c < vu(&self.p, "ct") as f64 / 1000.0) {
                    return bad("wrong-uncertain", format!("confidence {c}, threshold {}/1000: is_uncertain is {}", vu(&self.p, "ct"), r[2]));
                }
            }
            "enq" => {
                self.add((vi(op, "s") as f64 / 1000.0).clamp(0.0, 1.0), vu(op, "tag"), vu(op, "kind") % 8, true, cx);
                if *r != json!(self.total) {
                    return bad("wrong-id", format!("sample {} got the id {r}", self.total));
                }
            }
            "flood" if learner => {
                cx.probe("flood");
                for i in 0..vu(op, "n") {
                    let o = json!({"s": (i * vu(op, "a")) % 1001, "kind": i % 8, "fb": i % 2 == 1, "tag": vu(op, "tag") + i});
                    self.offer(&o, &r[i as usize], cx)?;
                }
            }
            "next" => {
                if self.pending.is_empty() {
                    cx.probe("empty");
                }
                let want = self.pop(1);
                if r["got"] != want || r["peek"] != want {
                    return bad("wrong-next", format!("the next sample is {want}, got {r}"));
                }
            }
            "batch" => {
                if (vu(op, "n") as usize) > self.pending.len() {
                    cx.probe("short_batch");
                }
                cx.probe("batch");
                let want = self.pop(vu(op, "n") as usize);
                if *r != want {
                    return bad("wrong-batch", format!("the batch is {want}, got {r}"));
                }
            }
            "submit" => {
                let id = self.held.keys().nth(vu(op, "nth") as usize).copied();
                if let Some(mut i) = id.and_then(|i| self.held.remove(&i)) {
                    if op["label"].is_null() {
                        cx.probe("unlabelled_submitted");
                    } else {
                        cx.probe("submitted");
                        i.label = if vb(op, "agree") { json!(i.kind) } else { op["label"].clone() };
                        self.labeled.push(i);
                    }
                }
            }
            "take" => {
                let want = self.shows(&self.labeled);
                if !self.labeled.is_empty() {
                    cx.probe("taken");
                }
                self.labeled.clear();
                if *r != want {
                    return bad("wrong-labelled", format!("the labelled samples are {want}, got {r}"));
                }
            }
            "clear" if !learner => self.pending.clear(),
            _ => {}
        }
        let (p, l) = (self.pending.len(), self.labeled.len());
        if obs["st"] != json!([p, l, self.total]) || (!learner && obs["cnt"] != json!([p, l, self.total, STRATEGIES[vu(&self.p, "st") as usize].to_string()])) {
            return bad("wrong-counts", format!("pending, labelled, processed are {p}, {l}, {}, got {} {}", self.total, obs["st"], obs["cnt"]));
        }
        if obs["labeled"] != self.shows(&self.labeled) {
            return bad("wrong-labelled", format!("the labelled samples are {}, got {}", self.shows(&self.labeled), obs["labeled"]));
        }
        let avg = if p == 0 { 0.0 } else { self.pending.iter().map(|i| i.score).sum::<f64>() / p as f64 };
        let right = self.labeled.iter().filter(|i| i.label == json!(i.kind)).count();
        let acc = if l == 0 { 0.0 } else { right as f64 / l as f64 };
        if !((obs["avg"].as_f64().unwrap_or(9.0) - avg).abs() < 1e-9 && (obs["acc"].as_f64().unwrap_or(9.0) - acc).abs() < 1e-9) {
            return bad("wrong-statistics", format!("average uncertainty {avg}, accuracy {acc}, got {} and {}", obs["avg"], obs["acc"]));
        }
        if let Some(md) = obs["md"].as_str() {
            for line in [format!("| Pending Samples | {p} |"), format!("| Labeled Samples | {l} |"), format!("| Total Processed | {} |", self.total)] {
                if !md.lines().any(|x| x == line) {
                    return bad("wrong-report", format!("the report lacks {line:?}: {md}"));
                }
            }
        }
        Ok(())
    }
}
