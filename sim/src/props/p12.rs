//! P12: statistics add up: every recorded event is counted exactly once, in every figure and report, across restarts.
use crate::os::Rng;
use crate::plan::*;
use crate::shop::{self, bad, Model, Subject};
use decy_core::metrics::{CompileMetrics, ConvergenceReport, EquivalenceDivergence, EquivalenceMetrics, TierMetrics};
use decy_core::trace::{DecisionType, PipelineStage, TraceCollector, TraceEntry};
use decy_llm::CompilationMetrics;
use decy_oracle::dataset::{generate_dataset_card, DatasetExporter, TrainingExample};
use decy_oracle::diversity::{CConstruct, DiversityConfig, DiversityValidation, ErrorCategory, ErrorHistogram};
use decy_oracle::golden_trace::{GoldenTrace, GoldenTraceDataset, SafetyTransformation, TraceTier, TransformationKind};
use decy_oracle::import::{FixStrategy, ImportDecision, ImportStats};
use decy_oracle::retirement::{run_retirement_sweep, PatternRetirementPolicy, PatternStats, RetirementConfig};
use decy_oracle::verification::{VerificationResult, VerificationStats};
use decy_oracle::{aggregate_measurements, CIReport, FileMeasurement, CIThresholds, OracleMetrics};
use decy_ownership::ab_testing::{ABExperiment, ABTestRunner, AssignmentStrategy, TestVariant};
use decy_ownership::classifier::{ClassifierEvaluator, ClassifierPrediction, OwnershipClassifier};
use decy_ownership::error_tracking::{ErrorTracker, InferenceError};
use decy_ownership::hybrid_classifier::{ClassificationMethod, HybridMetrics, HybridResult};
use decy_ownership::ml_features::{InferredOwnership as Own, OwnershipDefect, OwnershipFeatures, OwnershipPrediction};
use decy_ownership::retraining_pipeline::TrainingSample;
use decy_ownership::training_data::{DataSource, LabeledSample, TrainingDataset};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Duration;

pub const P12: Prop = Prop {
    id: "P12",
    gen,
    exec: |p, cx| shop::play::<Rec, Replay>(p, cx),
    quick: 60_000,
    thorough: 1_500_000,
    fixed: no_fixed,
    rule: "a run is 1-3 processes in turn, each with 1-3 client threads that record events in one shared statistics object (error tracker, A/B experiment, oracle metrics, compile metrics, first-try metrics, classification metrics, retirement statistics, import statistics, convergence report, training dataset, decision trace, equivalence metrics, verification statistics, golden trace dataset, dataset exporter, classifier evaluation, diversity validation), read its figures and reports, save it, crash, lose power and come back; after every operation every figure is recomputed from the list of events; non-trivial: at least three operations; distinct by event-log hash",
    level: "exploration",
    real: &["decy-ownership error_tracking, ab_testing, hybrid_classifier metrics, training_data, classifier evaluation", "decy-core metrics, trace", "decy-oracle metrics, retirement, import and verification statistics, golden traces, dataset, diversity", "decy-llm compilation metrics", "serde_json state files"],
    stub: &["file system, clock, scheduler, randomness, processes (simulated)", "the service around the object (lock, saving to a file) is the harness's"],
    assume: &["a record names a feature at most once", "the system clock is not before 1970"],
    must: &["errors", "ab", "oracle", "compile", "first", "hybrid", "retire", "import", "tiers", "dataset", "trace", "equiv", "verified", "golden", "exporter", "eval", "diversity", "decided", "restored", "interleaved", "crashed", "reset"],
};
const OWN: [Own; 8] = [Own::Owned, Own::Borrowed, Own::BorrowedMut, Own::Shared, Own::RawPointer, Own::Vec, Own::Slice, Own::SliceMut];
const OWN_NAMES: [&str; 8] = ["Owned", "Borrowed", "BorrowedMut", "Shared", "RawPointer", "Vec", "Slice", "SliceMut"];
const DEFECTS: [OwnershipDefect; 5] = [OwnershipDefect::PointerMisclassification, OwnershipDefect::LifetimeInferenceGap, OwnershipDefect::DanglingPointerRisk, OwnershipDefect::AliasViolation, OwnershipDefect::MutabilityMismatch];
const DEFECT_NAMES: [&str; 5] = ["PointerMisclassification", "LifetimeInferenceGap", "DanglingPointerRisk", "AliasViolation", "MutabilityMismatch"];
const METHODS: [ClassificationMethod; 4] = [ClassificationMethod::RuleBased, ClassificationMethod::MachineLearning, ClassificationMethod::Fallback, ClassificationMethod::Hybrid];
const METHOD_NAMES: [&str; 4] = ["rule-based", "ml", "fallback", "hybrid"];
const STRATEGIES: [FixStrategy; 7] = [FixStrategy::AddClone, FixStrategy::AddBorrow, FixStrategy::AddLifetime, FixStrategy::WrapInOption, FixStrategy::WrapInResult, FixStrategy::AddTypeAnnotation, FixStrategy::Unknown];
const FEATURES: [&str; 9] = ["malloc", "free", "cast", "loop", "zeta", "Alpha", "naïve ptr", "a|b", ""];
const CODES: [&str; 5] = ["E0382", "E0499", "E0308", "E0106", "?"];
const SOURCES: [&str; 4] = ["RustPort", "CompilerFeedback", "Synthetic", "HumanAnnotated"];
const KINDS: [&str; 17] = ["errors", "ab", "oracle", "compile", "first", "hybrid", "retire", "import", "tiers", "dataset", "trace", "equiv", "verified", "golden", "exporter", "eval", "diversity"];
const STAGES: [PipelineStage; 5] = [PipelineStage::Parsing, PipelineStage::HirConversion, PipelineStage::OwnershipInference, PipelineStage::LifetimeAnalysis, PipelineStage::CodeGeneration];
const STAGE_NAMES: [&str; 5] = ["parsing", "hir_conversion", "ownership_inference", "lifetime_analysis", "code_generation"];
const ERRS: [&str; 9] = ["E0382", "E0507", "E0499", "E0503", "E0597", "E0106", "E0308", "E0369", "E9999"];
const CATEGORIES: [ErrorCategory; 5] = [ErrorCategory::Ownership, ErrorCategory::Borrowing, ErrorCategory::Lifetime, ErrorCategory::Type, ErrorCategory::Other];
const CONSTRUCTS: [CConstruct; 4] = [CConstruct::RawPointer, CConstruct::Goto, CConstruct::DoWhile, CConstruct::Macro];
const TEXTS: [&str; 6] = ["", "x", "int *p = malloc(4);", "naïve", "line one\nline two", "| a |"];
const FIXES: [&str; 4] = ["type_coercion", "add_clone", "naïve", "Zeta"];
const ORIGINS: [&str; 3] = ["bootstrap", "training", "imported"];

fn transformation(i: u64) -> TransformationKind {
    match i {
        0 => TransformationKind::MallocToBox,
        1 => TransformationKind::NullToOption,
        2 => TransformationKind::ArrayParamToSlice,
        _ => TransformationKind::Other("z".into()),
    }
}
const TRANSFORMATION_NAMES: [&str; 4] = ["MallocToBox", "NullToOption", "ArrayParamToSlice", "Other(\"z\")"];
/// Predicts what the sample's pointer depth says.
struct Scripted;
impl OwnershipClassifier for Scripted {
    fn classify(&self, f: &OwnershipFeatures) -> ClassifierPrediction {
        ClassifierPrediction::new(OWN[f.pointer_depth as usize % 8], 0.5)
    }
    fn name(&self) -> &str {
        "scripted"
    }
    fn is_trained(&self) -> bool {
        true
    }
}
fn list(v: &Value, k: &str) -> Vec<u64> {
    v[k].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(0)).collect()
}

fn feats(r: &mut Rng) -> Vec<&'static str> {
    let n = r.below(5) as usize;
    let mut v: Vec<&str> = (0..n).map(|_| *r.pick(&FEATURES)).collect();
    v.sort();
    v.dedup();
    if r.chance(1, 2) {
        v.reverse();
    }
    v
}
/// A message with at most one error code in it.
fn message(r: &mut Rng) -> String {
    let mut parts: Vec<String> = vec![];
    for _ in 0..r.below(4) {
        parts.push((*r.pick(&["mismatched types", "Expected i32", "Eab€", "E", "€E", "naïve", "E03", "E12€", "ERROR", "at src/main.rs:3", "[0]", "Ωx"])).into());
    }
    if r.chance(3, 4) {
        let c = format!("E{:04}", *r.pick(&[308u64, 382, 499, 502, 106, 7]));
        let t = match r.below(5) {
            0 => c,
            1 => format!("error[{c}]: mismatched types"),
            2 => format!("{c}: borrow of moved value"),
            3 => format!("({c})"),
            _ => format!("error[E{}]: short", r.below(99)),
        };
        let at = r.below(parts.len() as u64 + 1) as usize;
        parts.insert(at, t);
    }
    parts.join(" ")
}
fn code_of(msg: &str) -> String {
    let b = msg.as_bytes();
    for i in 0..b.len() {
        if b[i] == b'E' && i + 5 <= b.len() && b[i + 1..i + 5].iter().all(|c| c.is_ascii_digit()) {
            return msg[i..i + 5].to_string();
        }
    }
    if let Some((_, rest)) = msg.split_once("[E") {
        if let Some((c, _)) = rest.split_once(']') {
            return format!("E{c}");
        }
    }
    "UNKNOWN".into()
}

fn gen(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = shop::env(r);
    if cfg.wall_start < 0 {
        cfg.wall_start = 1_000_000_000;
    }
    let kind = *r.pick(&KINDS);
    let narrow = r.chance(1, 2);
    let ops = shop::gen_ops(r, &mut cfg, !["dataset", "trace", "eval"].contains(&kind), |r| {
        if r.chance(1, 8) {
            return json!({"k": "view"});
        }
        match kind {
            "errors" if r.chance(2, 3) => json!({"k": "err", "f": feats(r), "d": if narrow { r.below(2) } else { r.below(5) }, "times": if r.chance(1, 6) { 1 + r.below(25) } else { 1 }}),
            "errors" => json!({"k": "ok", "f": feats(r), "times": 1 + r.below(3)}),
            "ab" => match r.below(10) {
                0 => json!({"k": "end"}),
                1 | 2 => json!({"k": "assign"}),
                3 => json!({"k": "timed", "v": r.below(2), "o": r.below(8), "gt": r.below(8), "us": r.below(5000), "m": r.below(4), "conf": r.below(65)}),
                4 | 5 => json!({"k": "many", "v": r.below(2), "n": 10 + r.below(60), "right": r.below(40)}),
                _ => json!({"k": "rec", "v": r.below(2), "o": r.below(8), "gt": if r.chance(1, 3) { json!(null) } else { json!(r.below(8)) }, "us": r.below(100_000), "m": r.below(4), "conf": r.below(65)}),
            },
            "oracle" => json!({"k": *r.pick(&["hit", "hit", "miss", "applied", "verified", "captured"]), "code": *r.pick(&CODES)}),
            "compile" => match r.below(12) {
                0 if r.chance(1, 4) => json!({"k": "reset"}),
                0..=3 => json!({"k": "ok"}),
                _ => json!({"k": "fail", "msg": message(r)}),
            },
            "first" => match r.below(16) {
                0 if r.chance(1, 3) => json!({"k": "reset"}),
                _ => json!({"k": "try", "ok": r.chance(2, 3), "it": if narrow { r.below(3) } else { r.below(30) }}),
            },
            "hybrid" => json!({"k": "rec", "m": r.below(4), "rule": if r.chance(1, 5) { json!(null) } else { json!(r.below(3)) }, "ml": if r.chance(1, 3) { json!(null) } else { json!(r.below(3)) }}),
            "retire" => match r.below(12) {
                0 => json!({"k": "window", "i": r.below(4)}),
                1 => json!({"k": "better", "i": r.below(4)}),
                _ => json!({"k": "use", "i": r.below(4), "ok": r.chance(1, 2), "times": 1 + r.below(4)}),
            },
            "import" => json!({"k": "rec", "s": r.below(7), "d": r.below(3)}),
            "tiers" => {
                let t = r.below(40);
                json!({"k": "tier", "name": *r.pick(&FEATURES), "total": t, "ts": r.below(t + 1), "cs": r.below(t + 1)})
            }
            "trace" => json!({"k": "rec", "s": r.below(5), "d": r.below(6), "conf": r.below(65), "id": r.below(1000)}),
            "equiv" => json!({"k": "rec", "r": r.below(3), "file": *r.pick(&FEATURES), "ex": [r.below(3), r.below(3)], "out": r.below(2)}),
            "verified" => json!({"k": "rec", "r": if narrow { r.below(2) } else { r.below(4) }, "it": 1 + r.below(5)}),
            "golden" => json!({"k": "rec", "t": r.below(3), "x": (0..r.below(4)).map(|_| r.below(if narrow { 2 } else { 4 })).collect::<Vec<_>>(), "c": r.below(6), "rs": r.below(6)}),
            "exporter" => json!({"k": "rec", "e": r.below(5), "d": r.below(4), "o": r.below(3), "v": r.chance(1, 2)}),
            "eval" => json!({"k": "rec", "l": r.below(if narrow { 3 } else { 8 }), "o": r.below(if narrow { 3 } else { 8 })}),
            "diversity" => match r.below(8) {
                0 => json!({"k": "construct", "i": r.below(4)}),
                1 => json!({"k": "file", "loc": r.below(500)}),
                2 | 3 => json!({"k": "compare", "name": *r.pick(&FEATURES), "e": (0..r.below(12)).map(|_| r.below(if narrow { 3 } else { 9 })).collect::<Vec<_>>(), "js": *r.pick(&[1u64, 150, 333, 900]), "cov": *r.pick(&[101u64, 601, 701, 999])}),
                _ => json!({"k": "err", "e": r.below(if narrow { 3 } else { 9 })}),
            },
            _ => match r.below(8) {
                0 => json!({"k": "merge", "n": r.below(4)}),
                1 => json!({"k": "filter", "c": r.below(1001)}),
                _ => json!({"k": "add", "l": r.below(if narrow { 2 } else { 8 }), "s": r.below(4), "conf": r.below(65)}),
            },
        }
    });
    let gran = cfg.clock_gran;
    plan("P12", cfg, ops, json!({"kind": kind, "assign": r.below(4), "hit": *r.pick(&[0u64, 250, 500, 1000]), "fix": *r.pick(&[0u64, 500, 800, 1000]), "gran": gran, "use": 1 + r.below(8), "rate": *r.pick(&[0u64, 300, 500]), "archive": r.chance(1, 2)}))
}

enum Rec {
    Errors(ErrorTracker),
    Ab(ABTestRunner),
    Oracle(OracleMetrics, Value),
    Compile(CompileMetrics),
    First(CompilationMetrics),
    Hybrid(HybridMetrics),
    Retire(Vec<PatternStats>, Value),
    Import(ImportStats),
    Tiers(ConvergenceReport),
    Data(TrainingDataset),
    Trace(TraceCollector),
    Equiv(EquivalenceMetrics),
    Verified(VerificationStats, Vec<FileMeasurement>),
    Golden(GoldenTraceDataset),
    Exporter(DatasetExporter),
    Eval(Vec<TrainingSample>),
    Diversity(DiversityValidation),
}
fn f3(v: &Value, k: &str) -> f64 {
    vu(v, k) as f64 / 1000.0
}
/// Confidences are exact binary fractions, so that sums of them survive being written as decimals.
fn cf(v: &Value) -> f64 {
    vu(v, "conf") as f64 / 64.0
}
fn strategy(i: u64) -> AssignmentStrategy {
    [AssignmentStrategy::RoundRobin, AssignmentStrategy::Random, AssignmentStrategy::AllControl, AssignmentStrategy::AllTreatment][i as usize % 4]
}
fn hybrid(o: Own, conf: f64, m: u64) -> HybridResult {
    HybridResult { variable: "v".into(), ownership: o, confidence: conf, method: METHODS[m as usize % 4], rule_result: None, ml_result: None, reasoning: String::new() }
}
fn policy(p: &Value) -> PatternRetirementPolicy {
    PatternRetirementPolicy::with_config(RetirementConfig { min_usage_threshold: vu(p, "use") as usize, min_success_rate: vu(p, "rate") as f32 / 1000.0, evaluation_window_days: 30, supersede_improvement_threshold: 0.1, archive_instead_of_delete: vb(p, "archive") })
}
fn patterns() -> Vec<PatternStats> {
    (0..4).map(|i| PatternStats::new(format!("p{i}"), "E0382")).collect()
}
fn sample(l: u64, s: u64, conf: f64, id: u32) -> LabeledSample {
    let src = match s {
        0 => DataSource::RustPort { project: "x".into() },
        1 => DataSource::CompilerFeedback { error_code: "E0382".into() },
        2 => DataSource::Synthetic { template: "t".into() },
        _ => DataSource::HumanAnnotated { annotator: "a".into() },
    };
    LabeledSample::new(TrainingSample::new(OwnershipFeatures::default(), OWN[l as usize], "f.c", id), src, "int *p;", "let p;").with_confidence(conf)
}
fn variant(v: u64) -> TestVariant {
    if v == 0 {
        TestVariant::Control
    } else {
        TestVariant::Treatment
    }
}
fn again<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> Option<T> {
    serde_json::to_string(x).ok().and_then(|t| serde_json::from_str(&t).ok())
}

impl Subject for Rec {
    fn make(p: &Value, text: Option<&str>) -> Result<Self, String> {
        fn from<T: serde::de::DeserializeOwned + Default>(t: Option<&str>) -> Result<T, String> {
            t.map_or(Ok(T::default()), |t| serde_json::from_str(t).map_err(|e| e.to_string()))
        }
        Ok(match vstr(p, "kind").as_str() {
            "errors" => Rec::Errors(match text {
                Some(t) => serde_json::from_str(t).map_err(|e| e.to_string())?,
                None => ErrorTracker::new(),
            }),
            "ab" => {
                let mut a = ABTestRunner::new("n", "d", strategy(vu(p, "assign")));
                if let Some(t) = text {
                    *a.experiment_mut() = serde_json::from_str::<ABExperiment>(t).map_err(|e| e.to_string())?;
                }
                Rec::Ab(a)
            }
            "oracle" => Rec::Oracle(from(text)?, p.clone()),
            "compile" => Rec::Compile(from(text)?),
            "first" => Rec::First(from(text)?),
            "hybrid" => Rec::Hybrid(from(text)?),
            "retire" => Rec::Retire(
                match text {
                    Some(t) => serde_json::from_str(t).map_err(|e| e.to_string())?,
                    None => patterns(),
                },
                p.clone(),
            ),
            "import" => Rec::Import(from(text)?),
            "tiers" => Rec::Tiers(from(text)?),
            "trace" => Rec::Trace(TraceCollector::new()),
            "equiv" => Rec::Equiv(from(text)?),
            "verified" => {
                let (a, b) = from::<(VerificationStats, Vec<FileMeasurement>)>(text)?;
                Rec::Verified(a, b)
            }
            "golden" => Rec::Golden(from(text)?),
            "exporter" => {
                let mut x = DatasetExporter::empty();
                from::<Vec<TrainingExample>>(text)?.into_iter().for_each(|e| x.add_example(e));
                Rec::Exporter(x)
            }
            "eval" => Rec::Eval(vec![]),
            "diversity" => Rec::Diversity(match text {
                Some(t) => serde_json::from_str(t).map_err(|e| e.to_string())?,
                None => DiversityValidation::new(ErrorHistogram::new()),
            }),
            _ => Rec::Data(TrainingDataset::new("n", "1")),
        })
    }
    fn apply(&mut self, op: &Value) -> Value {
        let k = op["k"].as_str().unwrap_or("");
        match self {
            Rec::Errors(t) => {
                let f: Vec<String> = op["f"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("").to_string()).collect();
                for _ in 0..vu(op, "times") {
                    match k {
                        "err" => t.record_error(InferenceError::new("v", "f.c", 3, Own::Owned, Own::Borrowed, 0.5, DEFECTS[vu(op, "d") as usize].clone()).with_features(f.clone())),
                        "ok" => t.record_success(&f),
                        _ => {}
                    }
                }
                let susp: Vec<Value> = t.calculate_suspiciousness().iter().map(|s| json!([s.feature, s.score, s.total_count, s.failure_count, s.success_count])).collect();
                let top: Vec<String> = t.top_suspicious(2).iter().map(|s| s.feature.clone()).collect();
                let md = t.generate_markdown_report();
                let same = again(t).map_or(false, |mut c| c.generate_markdown_report() == md && c.feature_defect_correlation() == t.feature_defect_correlation());
                json!({
                    "n": t.error_count(), "ok": t.success_count(), "ids": t.errors().iter().map(|e| e.id).collect::<Vec<_>>(),
                    "susp": susp, "top": top, "md": md, "same": same,
                    "dd": t.defect_distribution(), "fd": t.feature_distribution(), "corr": t.feature_defect_correlation(),
                    "byd": DEFECTS.iter().map(|d| t.errors_by_defect(d).len()).collect::<Vec<_>>(),
                    "byf": FEATURES.iter().map(|f| t.errors_by_feature(f).len()).collect::<Vec<_>>(),
                    "sug": t.generate_suggestions().iter().map(|s| json!([s.affected_feature, s.affected_defect])).collect::<Vec<_>>(),
                })
            }
            Rec::Ab(a) => {
                let gt = op["gt"].as_u64().map(|g| OWN[g as usize]);
                let mut assigned = Value::Null;
                match k {
                    "rec" => a.record(variant(vu(op, "v")), &hybrid(OWN[vu(op, "o") as usize], cf(op), vu(op, "m")), gt, Duration::from_micros(vu(op, "us"))),
                    "timed" => {
                        let us = vu(op, "us");
                        let h = hybrid(OWN[vu(op, "o") as usize], cf(op), vu(op, "m"));
                        a.timed_record(
                            variant(vu(op, "v")),
                            || {
                                std::thread::sleep(Duration::from_micros(us));
                                h
                            },
                            gt,
                        );
                    }
                    "many" => {
                        for i in 0..vu(op, "n") {
                            let g = if i < vu(op, "right") { Own::Owned } else { Own::Vec };
                            a.record(variant(vu(op, "v")), &hybrid(Own::Owned, 0.5, 0), Some(g), Duration::from_micros(10));
                        }
                    }
                    "assign" => assigned = json!(a.assign().to_string()),
                    "end" => {
                        a.finish();
                    }
                    _ => {}
                }
                let e = a.experiment();
                let v = |m: &decy_ownership::ab_testing::VariantMetrics| json!({"n": m.count, "right": m.correct, "known": m.with_ground_truth, "own": m.by_ownership, "meth": m.by_method, "conf": m.avg_confidence(), "acc": m.accuracy()});
                let md = e.to_markdown();
                let same = again(e).map_or(false, |c| c.to_markdown() == md);
                json!({"a": assigned, "c": v(&e.control), "t": v(&e.treatment), "lat": [e.control.latency_sum_us, e.treatment.latency_sum_us], "total": e.total_observations(),
                       "lift": [e.accuracy_lift(), e.confidence_lift()], "better": e.is_treatment_better().0, "active": e.is_active(), "md": md, "same": same})
            }
            Rec::Oracle(m, p) => {
                let c = vstr(op, "code");
                match k {
                    "hit" => m.record_hit(&c),
                    "miss" => m.record_miss(&c),
                    "applied" => m.record_fix_applied(&c),
                    "verified" => m.record_fix_verified(&c),
                    "captured" => m.record_pattern_captured(),
                    _ => {}
                }
                let ci = CIReport::from_metrics(m.clone(), CIThresholds { min_hit_rate: f3(p, "hit"), min_fix_rate: f3(p, "fix") });
                json!({"n": [m.queries, m.hits, m.misses, m.fixes_applied, m.fixes_verified, m.patterns_captured], "rates": [m.hit_rate(), m.fix_success_rate()],
                       "by": m.by_error_code.iter().map(|(k, v)| (k.clone(), json!([v.queries, v.hits, v.fixes_applied, v.fixes_verified]))).collect::<BTreeMap<_, _>>(),
                       "passed": ci.passed, "prom": m.to_prometheus(), "md": ci.to_markdown(), "json": serde_json::from_str::<Value>(&m.to_json()).ok() == serde_json::to_value(&*m).ok()})
            }
            Rec::Compile(m) => {
                match k {
                    "ok" => m.record_success(),
                    "fail" => m.record_failure(&vstr(op, "msg")),
                    "reset" => m.reset(),
                    _ => {}
                }
                let md = m.to_markdown();
                let same = again(m).map_or(false, |c| c.to_markdown() == md);
                json!({"n": [m.total_attempts(), m.successes(), m.failures()], "rate": m.success_rate(), "h": m.error_histogram(), "half": m.meets_target(0.5), "md": md, "same": same, "json": serde_json::from_str::<Value>(&m.to_json()).ok() == serde_json::to_value(&*m).ok()})
            }
            Rec::First(m) => {
                match k {
                    "try" => m.record_attempt(vb(op, "ok"), vu(op, "it") as usize),
                    "reset" => m.reset(),
                    _ => {}
                }
                let h: BTreeMap<String, u64> = m.iteration_histogram().iter().map(|(k, v)| (k.to_string(), *v)).collect();
                json!({"n": [m.total_attempts(), m.first_try_successes()], "rate": m.first_try_rate(), "avg": m.average_iterations(), "h": h, "half": m.meets_target(0.5)})
            }
            Rec::Hybrid(m) => {
                if k == "rec" {
                    let mut h = hybrid(Own::Owned, 0.5, vu(op, "m"));
                    h.rule_result = op["rule"].as_u64().map(|x| OWN[x as usize]);
                    h.ml_result = op["ml"].as_u64().map(|x| OwnershipPrediction { kind: OWN[x as usize], confidence: 0.5, fallback: None });
                    m.record(&h);
                }
                json!({"n": [m.total, m.rule_based, m.ml_used, m.fallback, m.hybrid, m.agreements, m.disagreements], "rates": [m.ml_usage_rate(), m.fallback_rate(), m.agreement_rate()]})
            }
            Rec::Retire(l, p) => {
                let i = vu(op, "i") as usize;
                match k {
                    "use" => (0..vu(op, "times")).for_each(|_| l[i].record_use(vb(op, "ok"))),
                    "window" => l[i].reset_window(),
                    "better" => l[i].mark_superseded("px"),
                    _ => {}
                }
                let pol = policy(p);
                let s = run_retirement_sweep(l, &pol);
                json!({"st": l.iter().map(|x| json!([x.total_uses, x.uses_in_window, x.successes, x.failures, x.last_used.is_some()])).collect::<Vec<_>>(),
                       "sweep": [s.total_evaluated, s.kept, s.retired_low_usage, s.retired_high_failure, s.retired_superseded, s.archived, s.total_retired()],
                       "ids": s.retired_ids, "batch": pol.evaluate_batch(l).iter().filter(|d| d.1.should_remove()).map(|d| d.0.clone()).collect::<Vec<_>>(),
                       "find": pol.find_retireable(l).iter().map(|x| x.pattern_id.clone()).collect::<Vec<_>>()})
            }
            Rec::Import(m) => {
                if k == "rec" {
                    let d = match vu(op, "d") {
                        0 => ImportDecision::Accept,
                        1 => ImportDecision::AcceptWithWarning("w".into()),
                        _ => ImportDecision::Reject("r".into()),
                    };
                    m.record(STRATEGIES[vu(op, "s") as usize], &d);
                }
                let get = |h: &std::collections::HashMap<FixStrategy, usize>| STRATEGIES.iter().map(|s| h.get(s).copied().unwrap_or(0)).collect::<Vec<_>>();
                json!({"n": [m.total_evaluated, m.warnings], "acc": get(&m.accepted_by_strategy), "rej": get(&m.rejected_by_strategy), "rate": m.overall_acceptance_rate() as f64, "rates": STRATEGIES.iter().map(|s| m.acceptance_rate(*s) as f64).collect::<Vec<_>>()})
            }
            Rec::Tiers(m) => {
                if k == "tier" {
                    let mut t = TierMetrics::new(&vstr(op, "name"));
                    (t.total_files, t.transpile_success, t.compile_success) = (vu(op, "total"), vu(op, "ts"), vu(op, "cs"));
                    m.add_tier(t);
                }
                json!({"n": m.tiers.len(), "rates": [m.overall_transpile_rate(), m.overall_compile_rate()], "each": m.tiers.iter().map(|t| json!([t.transpile_rate(), t.compile_rate()])).collect::<Vec<_>>(), "md": m.to_markdown()})
            }
            Rec::Data(d) => {
                let mut kept = Value::Null;
                match k {
                    "add" => d.add(sample(vu(op, "l"), vu(op, "s"), cf(op), d.len() as u32)),
                    "merge" => {
                        let mut o = TrainingDataset::new("o", "2");
                        o.add_all((0..vu(op, "n")).map(|i| sample(i % 8, i % 4, 1.0, (d.len() as u64 + i) as u32)));
                        d.merge(o);
                    }
                    "filter" => kept = json!(d.filter_by_confidence(f3(op, "c")).samples().iter().map(|s| s.sample.line_number).collect::<Vec<_>>()),
                    _ => {}
                }
                let s = d.stats();
                let s2 = d.clone().stats();
                json!({"n": d.len(), "total": s.total_samples, "labels": s.label_distribution, "sources": s.source_distribution, "conf": [s.avg_confidence, s.min_confidence, s.max_confidence],
                       "ids": d.to_training_samples().iter().map(|x| x.line_number).collect::<Vec<_>>(), "dom": s.dominant_label(), "same": s.dominant_label() == s2.dominant_label(), "bal": s.is_balanced(), "kept": kept,
                       "byl": OWN.iter().map(|o| d.samples_by_label(*o).len()).collect::<Vec<_>>(), "bys": SOURCES.iter().map(|x| d.samples_by_source(x).len()).collect::<Vec<_>>()})
            }
            Rec::Trace(t) => {
                if k == "rec" {
                    let d = [DecisionType::PointerClassification, DecisionType::TypeMapping, DecisionType::SafetyTransformation, DecisionType::LifetimeAnnotation, DecisionType::PatternDetection, DecisionType::SignatureTransformation][vu(op, "d") as usize].clone();
                    t.record(TraceEntry { stage: STAGES[vu(op, "s") as usize].clone(), source_location: None, decision_type: d, chosen: vu(op, "id").to_string(), alternatives: vec![], confidence: cf(op), reason: "r".into() });
                }
                let s = t.summary();
                let ids = |l: Vec<&TraceEntry>| l.iter().map(|e| e.chosen.clone()).collect::<Vec<_>>();
                let json = serde_json::from_str::<Vec<Value>>(&t.to_json()).map(|l| l.iter().map(|e| e["chosen"].clone()).collect::<Vec<_>>()).unwrap_or_default();
                json!({"n": [t.len(), s.total_decisions, t.is_empty() as usize], "ids": ids(t.entries().iter().collect()), "by": STAGES.iter().map(|s| ids(t.entries_for_stage(s))).collect::<Vec<_>>(), "json": json, "avg": s.avg_confidence, "stages": s.decisions_by_stage})
            }
            Rec::Equiv(m) => {
                if k == "rec" {
                    m.total_files += 1;
                    match vu(op, "r") {
                        0 => m.equivalent += 1,
                        1 => {
                            m.divergent += 1;
                            let e = list(op, "ex");
                            m.divergences.push(EquivalenceDivergence { file: vstr(op, "file"), expected_stdout: "0".into(), actual_stdout: vu(op, "out").to_string(), expected_exit: e[0] as i32, actual_exit: e[1] as i32 });
                        }
                        _ => m.errors += 1,
                    }
                }
                json!({"n": [m.total_files, m.equivalent, m.divergent, m.errors], "rate": m.equivalence_rate(), "md": m.to_markdown()})
            }
            Rec::Verified(m, files) => {
                if k == "rec" {
                    let r = vu(op, "r");
                    m.record(&match r {
                        0 => VerificationResult::FullyVerified,
                        1 => VerificationResult::CompilesOnly,
                        2 => VerificationResult::BehaviorChanged(vec!["t".into()]),
                        _ => VerificationResult::CompileFailed("e".into()),
                    });
                    let (path, it) = (format!("f{}.c", files.len()), vu(op, "it") as u32);
                    files.push(match r {
                        0 => FileMeasurement::first_try_success(path),
                        1 => FileMeasurement::success_after(path, it, vec!["E0382".into()]),
                        _ => FileMeasurement::failure(path, it, vec!["E0382".into()]),
                    });
                }
                let b = aggregate_measurements(files);
                let (lo, hi) = b.confidence_interval();
                json!({"n": [m.total_evaluated, m.fully_verified, m.compiles_only, m.behavior_changed, m.compile_failed], "rates": [m.promotion_rate() as f64, m.full_verification_rate() as f64, m.average_confidence() as f64],
                       "base": [b.corpus_size(), b.first_try_successes(), b.eventual_successes()], "br": [b.first_try_rate(), b.average_iterations(), lo, hi], "bt": [b.meets_target(), b.significantly_below_target(), b.includes_target()], "md": b.to_markdown()})
            }
            Rec::Golden(d) => {
                if k == "rec" {
                    let mut t = GoldenTrace::new(TEXTS[vu(op, "c") as usize].into(), TEXTS[vu(op, "rs") as usize].into(), [TraceTier::P0, TraceTier::P1, TraceTier::P2][vu(op, "t") as usize], "f.c");
                    for x in list(op, "x") {
                        t.add_transformation(SafetyTransformation { kind: transformation(x), c_pattern: "c".into(), rust_pattern: "r".into() });
                    }
                    t.generate_explanation();
                    d.add_trace(t);
                }
                let card = d.generate_card();
                let same = again(d).map_or(false, |c| c.generate_card() == card);
                let ids: std::collections::BTreeSet<_> = d.traces.iter().map(|t| t.metadata.trace_id.clone()).collect();
                json!({"n": [d.traces.len(), d.stats.total_traces, ids.len()], "tiers": d.stats.traces_by_tier, "x": d.stats.traces_by_transformation, "len": [d.stats.avg_c_length, d.stats.avg_rust_length],
                       "steps": d.traces.iter().map(|t| t.safety_explanation.lines().filter(|l| l.contains('→')).count()).collect::<Vec<_>>(), "md": card, "same": same})
            }
            Rec::Exporter(x) => {
                if k == "rec" {
                    x.add_example(TrainingExample { error_code: CODES[vu(op, "e") as usize].into(), decision: FIXES[vu(op, "d") as usize].into(), fix_diff: "-a\n+b".into(), description: "d".into(), source: ORIGINS[vu(op, "o") as usize].into(), verified: vb(op, "v"), success_count: 1, failure_count: 0 });
                }
                let s = x.stats();
                let md = generate_dataset_card(&s);
                json!({"n": [x.len(), s.total, s.verified, x.examples().len(), x.is_empty() as usize], "code": s.by_error_code, "fix": s.by_decision, "from": s.by_source, "md": md, "same": md == generate_dataset_card(&x.stats()) && md.contains(&s.to_markdown())})
            }
            Rec::Eval(l) => {
                if k == "rec" {
                    let f = OwnershipFeatures { pointer_depth: vu(op, "o") as u8, ..Default::default() };
                    l.push(TrainingSample::new(f, OWN[vu(op, "l") as usize], "f.c", l.len() as u32));
                }
                let e = ClassifierEvaluator::new(l.clone());
                let m = e.evaluate(&Scripted);
                let each: Vec<Value> = OWN_NAMES.iter().map(|c| json!([m.true_positives.get(*c).unwrap_or(&0), m.false_positives.get(*c).unwrap_or(&0), m.false_negatives.get(*c).unwrap_or(&0), m.precision(c), m.recall(c), m.f1_score(c)])).collect();
                json!({"n": [e.sample_count(), m.total_samples, m.correct], "acc": m.accuracy(), "each": each, "macro": m.macro_f1()})
            }
            Rec::Diversity(d) => {
                match k {
                    "err" => d.primary_histogram.record_error(ERRS[vu(op, "e") as usize]),
                    "construct" => d.primary_histogram.record_construct(CONSTRUCTS[vu(op, "i") as usize]),
                    "file" => {
                        d.primary_histogram.total_files += 1;
                        d.primary_histogram.total_loc += vu(op, "loc") as usize;
                    }
                    "compare" => {
                        let mut h = ErrorHistogram::new();
                        list(op, "e").iter().for_each(|e| h.record_error(ERRS[*e as usize]));
                        d.add_comparison(&vstr(op, "name"), h, &DiversityConfig { max_js_divergence: f3(op, "js"), min_coverage_ratio: f3(op, "cov"), min_error_codes: 0 });
                    }
                    _ => {}
                }
                let h = &d.primary_histogram;
                let (ed, cd) = (h.error_distribution(), h.category_distribution());
                let md = d.to_report();
                let same = again(d).map_or(false, |c| c.to_report() == md);
                json!({"n": [h.total_files, h.total_loc, h.total_errors()], "codes": h.by_error_code, "share": ed, "cat": CATEGORIES.iter().map(|c| json!([h.by_category.get(c).copied().unwrap_or(0), cd.get(c).copied().unwrap_or(0.0)])).collect::<Vec<_>>(),
                       "con": CONSTRUCTS.iter().map(|c| h.construct_coverage.get(c).copied().unwrap_or(0)).collect::<Vec<_>>(),
                       "cmp": d.comparisons.iter().map(|(n, h, m)| json!({"name": n, "total": h.total_errors(), "js": m.js_divergence, "kl": m.kl_divergence, "over": m.overlap, "n": [m.primary_unique_errors, m.comparison_unique_errors, m.shared_error_codes], "cov": m.coverage_ratio, "ok": m.passes_threshold})).collect::<Vec<_>>(),
                       "passed": d.passed, "issues": d.issues.len(), "md": md, "same": same})
            }
        }
    }
    fn save(&self) -> Option<Result<String, String>> {
        fn to<T: serde::Serialize>(x: &T) -> Option<Result<String, String>> {
            Some(serde_json::to_string(x).map_err(|e| e.to_string()))
        }
        match self {
            Rec::Errors(t) => to(t),
            Rec::Ab(a) => to(a.experiment()),
            Rec::Oracle(m, _) => to(m),
            Rec::Compile(m) => to(m),
            Rec::First(m) => to(m),
            Rec::Hybrid(m) => to(m),
            Rec::Retire(l, _) => to(l),
            Rec::Import(m) => to(m),
            Rec::Tiers(m) => to(m),
            Rec::Equiv(m) => to(m),
            Rec::Verified(m, f) => to(&(m, f)),
            Rec::Golden(d) => to(d),
            Rec::Exporter(x) => to(&x.examples()),
            Rec::Diversity(d) => to(d),
            Rec::Data(_) | Rec::Trace(_) | Rec::Eval(_) => None,
        }
    }
}

/// The reference: the list of events, from which every figure is computed anew.
#[derive(Clone)]
struct Replay {
    p: Value,
    ev: Vec<Value>,
    /// assignments since this process started
    assigned: u64,
}
fn rate(a: u64, b: u64) -> f64 {
    if b == 0 {
        0.0
    } else {
        a as f64 / b as f64
    }
}
fn close(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => (x.as_f64().unwrap_or(f64::NAN) - y.as_f64().unwrap_or(f64::NAN)).abs() <= 1e-6,
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| close(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| close(v, w))),
        _ => a == b,
    }
}
impl Replay {
    fn count(&self, f: impl Fn(&Value) -> bool) -> u64 {
        self.ev.iter().filter(|e| f(e)).map(|e| e["times"].as_u64().unwrap_or(1)).sum()
    }
    fn expect(&self, obs: &Value, cx: &mut Ctx) -> Result<(Value, Vec<String>), (String, String)> {
        let is = |e: &Value, k: &str| e["k"] == k;
        let has = |e: &Value, f: &str| e["f"].as_array().map_or(false, |a| a.iter().any(|x| x == f));
        Ok(match vstr(&self.p, "kind").as_str() {
            "errors" => {
                let n = self.count(|e| is(e, "err"));
                let ok = self.count(|e| is(e, "ok"));
                let mut want: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
                for f in FEATURES {
                    let c = (self.count(|e| is(e, "err") && has(e, f)), self.count(|e| is(e, "ok") && has(e, f)));
                    if c != (0, 0) {
                        want.insert(f, c);
                    }
                }
                let susp: Vec<&Value> = obs["susp"].as_array().into_iter().flatten().collect();
                if susp.len() != want.len() {
                    return bad("wrong-figures", format!("suspicious features {susp:?}, recorded {want:?}"));
                }
                for s in &susp {
                    let Some((a, b)) = s[0].as_str().and_then(|f| want.get(f)) else { return bad("wrong-figures", format!("feature {s} was never recorded")) };
                    let (fr, pr) = (*a as f64 / n.max(1) as f64, *b as f64 / ok.max(1) as f64);
                    if !close(s, &json!([s[0], fr / (fr + pr), a + b, a, b])) {
                        return bad("wrong-figures", format!("feature {s}: failed {a} of {n}, passed {b} of {ok}"));
                    }
                }
                for w in susp.windows(2) {
                    let (x, y) = (w[0][1].as_f64().unwrap(), w[1][1].as_f64().unwrap());
                    if x < y - 1e-9 || ((&w[0][3], &w[0][4]) == (&w[1][3], &w[1][4]) && w[0][0].as_str() > w[1][0].as_str()) {
                        return bad("wrong-order", format!("{} is listed before {}", w[0], w[1]));
                    }
                }
                let top: Vec<Value> = susp.iter().take(2).map(|s| s[0].clone()).collect();
                let dd: BTreeMap<&str, u64> = DEFECT_NAMES.iter().enumerate().map(|(i, d)| (*d, self.count(|e| is(e, "err") && vu(e, "d") == i as u64))).filter(|x| x.1 > 0).collect();
                let fd: BTreeMap<&str, u64> = want.iter().map(|(f, c)| (*f, c.0)).filter(|x| x.1 > 0).collect();
                let mut corr = vec![];
                for f in fd.keys() {
                    for d in dd.keys() {
                        let c = self.count(|e| is(e, "err") && has(e, f) && DEFECT_NAMES[vu(e, "d") as usize] == *d);
                        if c > 0 {
                            corr.push(json!([f, d, c]));
                        }
                    }
                }
                corr.sort_by_key(|c| (c[0].as_str().unwrap().to_string(), c[1].as_str().unwrap().to_string()));
                let mut sug: Vec<Value> = susp.iter().take(5).filter(|s| s[1].as_f64().unwrap() > 0.7).map(|s| json!([s[0], null])).collect();
                let mut ds: Vec<_> = dd.iter().collect();
                ds.sort_by(|a, b| b.1.cmp(a.1).then(a.0.cmp(b.0)));
                sug.extend(ds.iter().take(3).filter(|d| *d.1 > 5).map(|d| json!([null, d.0])));
                let mut lines = vec![format!("| Total Errors | {n} |"), format!("| Total Successes | {ok} |"), format!("| Error Rate | {:.1}% |", rate(n, n + ok) * 100.0)];
                lines.extend(ds.iter().take(5).map(|d| format!("- {}: {} ({:.1}%)", d.0, d.1, rate(*d.1, n) * 100.0)));
                lines.extend(susp.iter().take(5).map(|s| format!("| {} | {:.2} | {} | {} |", s[0].as_str().unwrap(), s[1].as_f64().unwrap(), s[3], s[4])));
                let v = json!({"n": n, "ok": ok, "ids": (1..=n).collect::<Vec<_>>(), "susp": obs["susp"], "top": top, "md": obs["md"], "same": true, "dd": dd, "fd": fd, "corr": corr,
                    "byd": DEFECT_NAMES.iter().map(|d| dd.get(d).copied().unwrap_or(0)).collect::<Vec<_>>(), "byf": FEATURES.iter().map(|f| fd.get(f).copied().unwrap_or(0)).collect::<Vec<_>>(), "sug": sug});
                (v, lines)
            }
            "ab" => {
                let mut side = vec![];
                let mut lat = [(0u64, 0u64); 2];
                let mut tab = [(0u64, 0u64); 2];
                let mut lines = vec![];
                for v in 0..2u64 {
                    let (mut n, mut right, mut known, mut conf) = (0u64, 0u64, 0u64, 0.0);
                    let mut own: BTreeMap<&str, u64> = BTreeMap::new();
                    let mut meth: BTreeMap<&str, u64> = BTreeMap::new();
                    for e in self.ev.iter().filter(|e| e["v"] == json!(v)) {
                        let many = is(e, "many");
                        let c = if many { vu(e, "n") } else { 1 };
                        n += c;
                        conf += if many { 0.5 * c as f64 } else { cf(e) };
                        *own.entry(OWN_NAMES[if many { 0 } else { vu(e, "o") as usize }]).or_insert(0) += c;
                        *meth.entry(METHOD_NAMES[if many { 0 } else { vu(e, "m") as usize }]).or_insert(0) += c;
                        lat[v as usize].0 += if many { 10 * c } else { vu(e, "us") };
                        lat[v as usize].1 += is(e, "timed") as u64;
                        if many {
                            known += c;
                            right += vu(e, "right").min(c);
                        } else if !e["gt"].is_null() {
                            known += 1;
                            right += (e["gt"] == e["o"]) as u64;
                        }
                    }
                    lines.extend(own.iter().map(|(o, c)| format!("- {o}: {c} ({:.1}%)", rate(*c, n) * 100.0)));
                    tab[v as usize] = (right, known);
                    side.push(json!({"n": n, "right": right, "known": known, "own": own, "meth": meth, "conf": if n == 0 { 0.0 } else { conf / n as f64 }, "acc": rate(right, known)}));
                }
                for v in 0..2 {
                    let got = obs["lat"][v].as_u64().unwrap_or(0);
                    let slack = lat[v].1 * (1 + vu(&self.p, "gran") / 1000);
                    if if lat[v].1 > 0 { got + slack < lat[v].0 } else { got != lat[v].0 } {
                        return bad("wrong-latency", format!("the latencies add up to {} microseconds, got {got}", lat[v].0));
                    }
                }
                let ((cr, ck), (tr, tk)) = (tab[0], tab[1]);
                let better = if ck < 30 || tk < 30 {
                    false
                } else {
                    let (a, b, c, d) = (cr as f64, (ck - cr) as f64, tr as f64, (tk - tr) as f64);
                    let n = a + b + c + d;
                    let den = (a + b) * (c + d) * (a + c) * (b + d);
                    let chi = if den == 0.0 { 0.0 } else { n * (a * d - b * c).powi(2) / den };
                    cx.probe("decided");
                    if (chi - 6.63).abs() < 1e-6 {
                        obs["better"] == json!(true)
                    } else {
                        chi > 6.63 && rate(tr, tk) > rate(cr, ck)
                    }
                };
                let active = !self.ev.iter().any(|e| is(e, "end"));
                let (cn, tn) = (vu(&side[0], "n"), vu(&side[1], "n"));
                lines.push(format!("| Observations | {cn} | {tn} |"));
                lines.push(format!("**Status**: {}", if active { "ACTIVE" } else { "COMPLETED" }));
                lines.push(format!("**Treatment better?**: {}", if better { "Yes" } else { "No" }));
                lines.push(format!("| Accuracy | {:.1}% | {:.1}% |", rate(cr, ck) * 100.0, rate(tr, tk) * 100.0));
                let f = |i: usize, k: &str| side[i][k].as_f64().unwrap();
                (json!({"a": obs["a"], "c": side[0], "t": side[1], "lat": obs["lat"], "total": cn + tn, "lift": [f(1, "acc") - f(0, "acc"), f(1, "conf") - f(0, "conf")], "better": better, "active": active, "md": obs["md"], "same": true}), lines)
            }
            "oracle" => {
                let of = |k: &str, c: Option<&str>| self.count(|e| is(e, k) && c.map_or(true, |c| e["code"] == c));
                let (h, m, a, v, p) = (of("hit", None), of("miss", None), of("applied", None), of("verified", None), of("captured", None));
                let mut by = BTreeMap::new();
                for c in CODES {
                    let x = [of("hit", Some(c)) + of("miss", Some(c)), of("hit", Some(c)), of("applied", Some(c)), of("verified", Some(c))];
                    if x != [0; 4] {
                        by.insert(c, x);
                    }
                }
                let (hr, fr) = (rate(h, h + m), rate(v, a));
                let passed = h + m == 0 || (hr >= f3(&self.p, "hit") && (a == 0 || fr >= f3(&self.p, "fix")));
                let prom = obs["prom"].as_str().unwrap_or("");
                for l in [format!("decy_oracle_queries_total {}", h + m), format!("decy_oracle_hits_total {h}"), format!("decy_oracle_fixes_applied_total {a}"), format!("decy_oracle_fixes_verified_total {v}")] {
                    if !prom.lines().any(|x| x == l) {
                        return bad("wrong-report", format!("the exported metrics lack {l:?}: {prom}"));
                    }
                }
                let lines = vec![format!("| Queries | {} |", h + m), format!("| Hits | {h} |"), format!("| Misses | {m} |"), format!("| Fixes Applied | {a} |"), format!("| Fixes Verified | {v} |"), format!("| Patterns Captured | {p} |"), (if passed { "PASSED" } else { "FAILED" }).to_string()];
                (json!({"n": [h + m, h, m, a, v, p], "rates": [hr, fr], "by": by, "passed": passed, "prom": prom, "md": obs["md"], "json": true}), lines)
            }
            "compile" => {
                let (s, f) = (self.count(|e| is(e, "ok")), self.count(|e| is(e, "fail")));
                let mut h: BTreeMap<String, u64> = BTreeMap::new();
                for e in self.ev.iter().filter(|e| is(e, "fail")) {
                    *h.entry(code_of(&vstr(e, "msg"))).or_insert(0) += 1;
                }
                let mut lines = vec![format!("| Total Attempts | {} |", s + f), format!("| Successes | {s} |"), format!("| Failures | {f} |")];
                lines.extend(h.iter().map(|(c, n)| format!("| {c} | {n} |")));
                (json!({"n": [s + f, s, f], "rate": rate(s, s + f), "h": h, "half": rate(s, s + f) >= 0.5, "md": obs["md"], "same": true, "json": true}), lines)
            }
            "first" => {
                let n = self.count(|e| is(e, "try"));
                let first = self.count(|e| is(e, "try") && vb(e, "ok") && vu(e, "it") == 1);
                let total: u64 = self.ev.iter().filter(|e| is(e, "try")).map(|e| vu(e, "it")).sum();
                let mut h: BTreeMap<String, u64> = BTreeMap::new();
                for e in self.ev.iter().filter(|e| is(e, "try")) {
                    *h.entry(vu(e, "it").to_string()).or_insert(0) += 1;
                }
                (json!({"n": [n, first], "rate": rate(first, n), "avg": rate(total, n), "h": h, "half": rate(first, n) >= 0.5}), vec![])
            }
            "hybrid" => {
                let n = self.count(|e| is(e, "rec"));
                let m = |i: u64| self.count(|e| is(e, "rec") && vu(e, "m") == i);
                let both = |same: bool| self.count(|e| is(e, "rec") && !e["rule"].is_null() && !e["ml"].is_null() && (e["rule"] == e["ml"]) == same);
                let (a, d) = (both(true), both(false));
                (json!({"n": [n, m(0), m(1), m(2), m(3), a, d], "rates": [rate(m(1), n), rate(m(2), n), if a + d == 0 { 1.0 } else { rate(a, a + d) }]}), vec![])
            }
            "retire" => {
                let mut st = vec![];
                let mut ids = vec![];
                let mut sweep = [4u64, 0, 0, 0, 0, 0, 0];
                for i in 0..4u64 {
                    let (mut uses, mut win, mut good, mut better) = (0u64, 0u64, 0u64, false);
                    for e in self.ev.iter().filter(|e| e["i"] == json!(i)) {
                        match e["k"].as_str().unwrap_or("") {
                            "use" => {
                                uses += vu(e, "times");
                                win += vu(e, "times");
                                good += vu(e, "times") * vb(e, "ok") as u64;
                            }
                            "window" => win = 0,
                            _ => better = true,
                        }
                    }
                    st.push(json!([uses, win, good, uses - good, uses > 0]));
                    let poor = uses >= 5 && ((good as f32 / uses as f32) < vu(&self.p, "rate") as f32 / 1000.0);
                    let why = if win < vu(&self.p, "use") {
                        2
                    } else if poor {
                        3
                    } else if better {
                        4
                    } else {
                        1
                    };
                    sweep[why] += 1;
                    if why > 1 {
                        ids.push(format!("p{i}"));
                        sweep[6] += 1;
                        sweep[5] += (why == 4 || vb(&self.p, "archive")) as u64;
                    }
                }
                (json!({"st": st, "sweep": sweep, "ids": ids, "batch": ids, "find": ids}), vec![])
            }
            "import" => {
                let c = |s: u64, d: &[u64]| self.count(|e| is(e, "rec") && vu(e, "s") == s && d.contains(&vu(e, "d")));
                let n = self.count(|e| is(e, "rec"));
                let acc: Vec<u64> = (0..7).map(|s| c(s, &[0, 1])).collect();
                let rej: Vec<u64> = (0..7).map(|s| c(s, &[2])).collect();
                (json!({"n": [n, self.count(|e| is(e, "rec") && vu(e, "d") == 1)], "acc": acc, "rej": rej, "rate": rate(acc.iter().sum(), n), "rates": (0..7).map(|s| rate(acc[s], acc[s] + rej[s])).collect::<Vec<_>>()}), vec![])
            }
            "tiers" => {
                let t: Vec<&Value> = self.ev.iter().filter(|e| is(e, "tier")).collect();
                let sum = |k: &str| t.iter().map(|e| vu(e, k)).sum::<u64>();
                let (n, ts, cs) = (sum("total"), sum("ts"), sum("cs"));
                let mut lines: Vec<String> = t.iter().map(|e| format!("| {} | {} | {} | {} |", vstr(e, "name"), vu(e, "total"), vu(e, "ts"), vu(e, "cs"))).collect();
                lines.push(format!("| **Total** | **{n}** | **{ts}** | **{cs}** |"));
                let each: Vec<Value> = t.iter().map(|e| json!([rate(vu(e, "ts"), vu(e, "total")), rate(vu(e, "cs"), vu(e, "total"))])).collect();
                (json!({"n": t.len(), "rates": [rate(ts, n), rate(cs, n)], "each": each, "md": obs["md"]}), lines)
            }
            "trace" => {
                let l: Vec<&Value> = self.ev.iter().filter(|e| is(e, "rec")).collect();
                let ids = |s: Option<u64>| l.iter().filter(|e| s.map_or(true, |s| vu(e, "s") == s)).map(|e| vu(e, "id").to_string()).collect::<Vec<_>>();
                let stages: BTreeMap<&str, usize> = (0..5).map(|s| (STAGE_NAMES[s], ids(Some(s as u64)).len())).filter(|x| x.1 > 0).collect();
                let avg = if l.is_empty() { 0.0 } else { l.iter().map(|e| cf(e)).sum::<f64>() / l.len() as f64 };
                (json!({"n": [l.len(), l.len(), l.is_empty() as u64], "ids": ids(None), "by": (0..5).map(|s| ids(Some(s))).collect::<Vec<_>>(), "json": ids(None), "avg": avg, "stages": stages}), vec![])
            }
            "equiv" => {
                let c = |r: u64| self.count(|e| is(e, "rec") && vu(e, "r") == r);
                let n = c(0) + c(1) + c(2);
                let mut lines = vec![format!("| Total Files | {n} |"), format!("| Equivalent | {} |", c(0)), format!("| Divergent | {} |", c(1)), format!("| Errors | {} |", c(2)), format!("| Equivalence Rate | {:.1}% |", rate(c(0), n) * 100.0)];
                lines.extend(self.ev.iter().filter(|e| is(e, "rec") && vu(e, "r") == 1).map(|e| format!("- **{}**: exit {} vs {} | stdout differs: {}", vstr(e, "file"), list(e, "ex")[0], list(e, "ex")[1], vu(e, "out") != 0)));
                (json!({"n": [n, c(0), c(1), c(2)], "rate": rate(c(0), n), "md": obs["md"]}), lines)
            }
            "verified" => {
                let c = |r: u64| self.count(|e| is(e, "rec") && vu(e, "r") == r);
                let n = c(0) + c(1) + c(2) + c(3);
                let avg = if n == 0 { 0.0 } else { (c(0) as f64 + 0.6 * c(1) as f64) / n as f64 };
                let first = self.count(|e| is(e, "rec") && (vu(e, "r") == 0 || (vu(e, "r") == 1 && vu(e, "it") == 1)));
                let its: u64 = self.ev.iter().filter(|e| is(e, "rec") && vu(e, "r") < 2).map(|e| if vu(e, "r") == 0 { 1 } else { vu(e, "it") }).sum();
                // the bounds are where the distance from the rate is 1.96 standard errors of a proportion at the bound
                let (lo, hi) = (obs["br"][2].as_f64().unwrap_or(-1.0), obs["br"][3].as_f64().unwrap_or(-1.0));
                let p = rate(first, n);
                let off = |x: f64| ((p - x).powi(2) - 1.96f64.powi(2) * x * (1.0 - x) / n as f64).abs();
                if if n == 0 { (lo, hi) != (0.0, 1.0) } else { off(lo) > 1e-6 || off(hi) > 1e-6 || lo > p + 1e-9 || hi < p - 1e-9 || hi - lo < 1e-3 } {
                    return bad("wrong-figures", format!("{first} of {n} gives the interval {lo} to {hi}"));
                }
                let bt = json!([p >= 0.85, hi < 0.85, lo <= 0.85 && 0.85 <= hi]);
                let lines = vec![format!("| Corpus Size | {n} |"), format!("| First-Try Successes | {first} |"), format!("| First-Try Rate | {:.1}% |", p * 100.0), format!("| Average Iterations | {:.2} |", rate(its, c(0) + c(1))), format!("### Status: {}", if p >= 0.85 { "PASSED" } else if hi < 0.85 { "FAILED" } else { "PENDING" })];
                (json!({"n": [n, c(0), c(1), c(2), c(3)], "rates": [rate(c(0) + c(1), n), rate(c(0), n), avg], "base": [n, first, c(0) + c(1)], "br": [p, rate(its, c(0) + c(1)), lo, hi], "bt": bt, "md": obs["md"]}), lines)
            }
            "golden" => {
                let l: Vec<&Value> = self.ev.iter().filter(|e| is(e, "rec")).collect();
                let t = |t: u64| l.iter().filter(|e| vu(e, "t") == t).count();
                let tiers: BTreeMap<String, usize> = (0..3).map(|i| (format!("P{i}"), t(i))).filter(|x| x.1 > 0).collect();
                let x: BTreeMap<&str, usize> = (0..4u64).map(|i| (TRANSFORMATION_NAMES[i as usize], l.iter().map(|e| list(e, "x").iter().filter(|x| **x == i).count()).sum::<usize>())).filter(|x| x.1 > 0).collect();
                let avg = |k: &str| rate(l.iter().map(|e| TEXTS[vu(e, k) as usize].len() as u64).sum(), l.len() as u64);
                let mut lines = vec![format!("- **Total Traces**: {}\n", l.len()), format!("- **P0 (Simple)**: {}\n", t(0)), format!("- **P1 (I/O)**: {}\n", t(1)), format!("- **P2 (Complex)**: {}\n", t(2))];
                lines.push(x.iter().map(|(k, n)| format!("- **{k}**: {n}\n")).collect::<String>());
                (json!({"n": [l.len(), l.len(), l.len()], "tiers": tiers, "x": x, "len": [avg("c"), avg("rs")], "steps": l.iter().map(|e| list(e, "x").len()).collect::<Vec<_>>(), "md": obs["md"], "same": true}), lines)
            }
            "exporter" => {
                let l: Vec<&Value> = self.ev.iter().filter(|e| is(e, "rec")).collect();
                let by = |k: &str, names: &[&'static str]| names.iter().enumerate().map(|(i, n)| (*n, l.iter().filter(|e| vu(e, k) == i as u64).count())).filter(|x| x.1 > 0).collect::<BTreeMap<&str, usize>>();
                let v = l.iter().filter(|e| vb(e, "v")).count() as u64;
                let n = l.len() as u64;
                let (code, fix, from) = (by("e", &CODES), by("d", &FIXES), by("o", &ORIGINS));
                let rows = |h: &str, m: &BTreeMap<&str, usize>, most: bool| {
                    let mut l: Vec<_> = m.iter().collect();
                    if most {
                        l.sort_by_key(|(k, n)| (std::cmp::Reverse(**n), **k));
                    }
                    format!("|{h}|\n{}\n", l.iter().map(|(k, n)| format!("| {k} | {n} |\n")).collect::<String>())
                };
                let lines = vec![format!("- **Total examples**: {n}\n"), format!("- **Verified**: {v}\n"), format!("- **Verification rate**: {:.1}%\n", rate(v, n) * 100.0), rows("------------|-------", &code, false), rows("----------|-------", &fix, true), rows("--------|-------", &from, true)];
                (json!({"n": [n, n, v, n, l.is_empty() as u64], "code": code, "fix": fix, "from": from, "md": obs["md"], "same": true}), lines)
            }
            "eval" => {
                let l: Vec<(u64, u64)> = self.ev.iter().filter(|e| is(e, "rec")).map(|e| (vu(e, "l"), vu(e, "o"))).collect();
                let c = |f: &dyn Fn(&(u64, u64)) -> bool| l.iter().filter(|x| f(x)).count() as u64;
                let (mut each, mut sum, mut seen) = (vec![], 0.0, 0);
                for i in 0..8 {
                    let (tp, fp, fl) = (c(&|x| *x == (i, i)), c(&|x| x.0 != i && x.1 == i), c(&|x| x.0 == i && x.1 != i));
                    let f1 = rate(2 * tp, 2 * tp + fp + fl);
                    sum += f1;
                    seen += (tp + fp + fl > 0) as u64;
                    each.push(json!([tp, fp, fl, rate(tp, tp + fp), rate(tp, tp + fl), f1]));
                }
                let right = c(&|x| x.0 == x.1);
                (json!({"n": [l.len(), l.len(), right], "acc": rate(right, l.len() as u64), "each": each, "macro": if seen == 0 { 0.0 } else { sum / seen as f64 }}), vec![])
            }
            "diversity" => {
                let mut p = [0u64; 9];
                let mut con = [0u64; 4];
                let (mut files, mut loc, mut passed, mut issues) = (0, 0, true, 0);
                let mut cmp = vec![];
                for e in &self.ev {
                    match e["k"].as_str().unwrap_or("") {
                        "err" => p[vu(e, "e") as usize] += 1,
                        "construct" => con[vu(e, "i") as usize] += 1,
                        "file" => {
                            files += 1;
                            loc += vu(e, "loc");
                        }
                        _ => {
                            let mut q = [0u64; 9];
                            list(e, "e").iter().for_each(|x| q[*x as usize] += 1);
                            let d = |h: &[u64; 9]| h.map(|c| rate(c, h.iter().sum()));
                            let (a, b) = (d(&p), d(&q));
                            let kl = |a: &[f64; 9], b: &[f64; 9]| (0..9).filter(|i| a[*i] > 0.0).map(|i| a[i] * (a[i] / b[i].max(1e-10)).ln()).sum::<f64>();
                            let mut m = [0.0; 9];
                            (0..9).for_each(|i| m[i] = (a[i] + b[i]) / 2.0);
                            let js = (kl(&a, &m) + kl(&b, &m)) / 2.0;
                            let n = |f: &dyn Fn(usize) -> bool| (0..9).filter(|i| f(*i)).count() as u64;
                            let (pn, qn, both, any) = (n(&|i| p[i] > 0), n(&|i| q[i] > 0), n(&|i| p[i] > 0 && q[i] > 0), n(&|i| p[i] + q[i] > 0));
                            let cov = if any == 0 { 1.0 } else { rate(both, any) };
                            let bad = (js > f3(e, "js")) as u64 + (cov < f3(e, "cov")) as u64;
                            issues += bad;
                            passed &= bad == 0;
                            cmp.push(json!({"name": e["name"], "total": q.iter().sum::<u64>(), "js": js, "kl": kl(&a, &b), "over": rate(both, pn.min(qn)), "n": [pn, qn, both], "cov": cov, "ok": js < 0.15 && cov > 0.6}));
                        }
                    }
                }
                let n: u64 = p.iter().sum();
                let cat = [p[0] + p[1], p[2] + p[3], p[4] + p[5], p[6] + p[7], p[8]];
                let codes: BTreeMap<&str, u64> = (0..9).map(|i| (ERRS[i], p[i])).filter(|x| x.1 > 0).collect();
                let share: BTreeMap<&str, f64> = codes.iter().map(|(k, c)| (*k, rate(*c, n))).collect();
                let mut lines = vec![format!("**Primary Corpus**: {files} files, {loc} LOC, {n} errors"), format!("### Overall Status: {}", if passed { "✅ PASSED" } else { "❌ FAILED" })];
                lines.extend(obs["cmp"].as_array().into_iter().flatten().map(|c| format!("| {} | {:.3} | {:.1}% | {} |", vstr(c, "name"), c["js"].as_f64().unwrap_or(9.0), c["cov"].as_f64().unwrap_or(9.0) * 100.0, if vb(c, "ok") { "✅ PASS" } else { "❌ FAIL" })));
                (json!({"n": [files, loc, n], "codes": codes, "share": share, "cat": cat.iter().map(|c| json!([c, rate(*c, n)])).collect::<Vec<_>>(), "con": con, "cmp": cmp, "passed": passed, "issues": issues, "md": obs["md"], "same": true}), lines)
            }
            _ => {
                // (label, source, confidence)
                let mut l: Vec<(u64, u64, f64)> = vec![];
                for e in &self.ev {
                    match e["k"].as_str().unwrap_or("") {
                        "add" => l.push((vu(e, "l"), vu(e, "s"), cf(e))),
                        "merge" => l.extend((0..vu(e, "n")).map(|i| (i % 8, i % 4, 1.0))),
                        _ => {}
                    }
                }
                let byl: Vec<u64> = (0..8).map(|i| l.iter().filter(|x| x.0 == i).count() as u64).collect();
                let bys: Vec<u64> = (0..4).map(|i| l.iter().filter(|x| x.1 == i).count() as u64).collect();
                let labels: BTreeMap<&str, u64> = OWN_NAMES.iter().zip(&byl).filter(|x| *x.1 > 0).map(|x| (*x.0, *x.1)).collect();
                let sources: BTreeMap<&str, u64> = SOURCES.iter().zip(&bys).filter(|x| *x.1 > 0).map(|x| (*x.0, *x.1)).collect();
                let max = byl.iter().max().copied().unwrap_or(0);
                let min = labels.values().min().copied().unwrap_or(0);
                let dom = obs["dom"].as_str();
                if dom.map_or(max > 0, |d| labels.get(d) != Some(&max)) {
                    return bad("wrong-figures", format!("the dominant label is {dom:?}, the labels are {labels:?}"));
                }
                let c: Vec<f64> = l.iter().map(|x| x.2).collect();
                let conf = if c.is_empty() { json!([0.0, 0.0, 0.0]) } else { json!([c.iter().sum::<f64>() / c.len() as f64, c.iter().cloned().fold(1.0, f64::min), c.iter().cloned().fold(0.0, f64::max)]) };
                let kept = match self.ev.last() {
                    Some(e) if is(e, "filter") && !obs["kept"].is_null() => json!(l.iter().enumerate().filter(|x| x.1 .2 >= f3(e, "c")).map(|x| x.0).collect::<Vec<_>>()),
                    _ => Value::Null,
                };
                (json!({"n": l.len(), "total": l.len(), "labels": labels, "sources": sources, "conf": conf, "ids": (0..l.len()).collect::<Vec<_>>(), "dom": dom, "same": true, "bal": max <= 3 * min, "kept": kept, "byl": byl, "bys": bys}), vec![])
            }
        })
    }
}
impl Model for Replay {
    fn new(p: &Value) -> Self {
        Replay { p: p.clone(), ev: vec![], assigned: 0 }
    }
    fn restored(&mut self) {
        self.assigned = 0;
    }
    fn step(&mut self, op: &Value, obs: &Value, cx: &mut Ctx) -> Result<(), (String, String)> {
        match op["k"].as_str().unwrap_or("") {
            "view" => {}
            "reset" => {
                cx.probe("reset");
                self.ev.clear();
            }
            "assign" => {
                let want = match vu(&self.p, "assign") {
                    0 => Some(if self.assigned % 2 == 0 { "control" } else { "treatment" }),
                    2 => Some("control"),
                    3 => Some("treatment"),
                    _ => None,
                };
                self.assigned += 1;
                if want.map_or(obs["a"].is_null(), |w| obs["a"] != w) {
                    return bad("wrong-assignment", format!("assignment {} is {}, should be {want:?}", self.assigned, obs["a"]));
                }
            }
            _ => self.ev.push(op.clone()),
        }
        cx.probe(&vstr(&self.p, "kind"));
        let (want, lines) = self.expect(obs, cx)?;
        if obs["same"] == json!(false) {
            return bad("unstable-report", "the same statistics, saved and loaded, give a different report or answer".into());
        }
        if !close(&want, obs) {
            let diff: Vec<String> = want.as_object().into_iter().flatten().filter(|(k, v)| !close(v, &obs[k.as_str()])).map(|(k, v)| format!("{k} is {}, should be {v}", obs[k.as_str()])).collect();
            return bad("wrong-figures", diff.join("; "));
        }
        let md = obs["md"].as_str().unwrap_or("");
        for l in lines {
            if !md.contains(&l) {
                return bad("wrong-report", format!("the report lacks {l:?}: {md}"));
            }
        }
        Ok(())
    }
}
