//! P08: training data written by decy is complete, paired and verified, or the command fails.
use crate::corpus;
use crate::os::{self, Rng};
use crate::plan::*;
use decy_oracle::dataset::{DatasetExporter, TrainingExample};
use decy_oracle::golden_trace::{GoldenTrace, GoldenTraceDataset, SafetyTransformation, TraceTier, TransformationKind};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub const PROP: Prop = Prop {
    id: "P08",
    gen,
    exec,
    quick: 3000,
    thorough: 200_000,
    fixed: no_fixed,
    rule: "a run is a corpus of C files (some broken, some rejected by the compiler, some alike), edited by another process while golden traces are generated from it, and exports of trace sets and of the oracle's patterns in every format, under disk, listing, spawn and memory-of-disk faults and crashes; non-trivial: at least one export or generation succeeded or had to fail; distinct by event-log hash",
    level: "exploration",
    real: &["decy CLI oracle generate-traces, export, validate", "decy-oracle golden_trace, dataset, trace_verifier, diversity", "decy-core, decy-parser + libclang", "walkdir, serde_json, Rust std"],
    stub: &["file system, clock, scheduler, randomness, processes (simulated)", "clang and rustc (stub programs; rustc rejects exactly the texts that carry a marker)"],
    assume: &["the editor replaces files atomically", "reference translation: the library translation of the text with includes resolved next to the file"],
    must: &["traces_ok", "traces_edited", "trace_of_old_text", "trace_of_new_text", "file_failed", "file_skipped", "export_ok", "export_failed", "cli_export_ok", "analyze_ok", "listing_fault", "same_pair"],
};

const SRCS: &[&str] = &["/sim/c/a.c", "/sim/c/b.c", "/sim/c/sub/c.c", "/sim/c/sub/deep/d.c", "/sim/c/z.c"];

fn text(r: &mut Rng, ver: u64) -> String {
    match r.below(12) {
        0 => "int broken( {\n".into(),
        1 => format!("int simfail_{ver}(int a) {{ return a; }}\n"),
        2 => "int same(int a) { return a + 1; }\n".into(),
        3 => format!("#include \"h.h\"\n{}", corpus::small(r, &format!("v{ver}"))),
        4 => corpus::program(r),
        5 => String::new(),
        _ => corpus::small(r, &format!("v{ver}")),
    }
}
fn odd(r: &mut Rng, n: u64) -> String {
    let base = match r.below(9) {
        0 => String::new(),
        1 => "line one\nline two\n".into(),
        2 => "quote \" back \\ tab \t cr \r nul \u{0} bell \u{7}".into(),
        3 => "snow ☃ and 𝄞 and e\u{301}".into(),
        4 => "```rust\nfn x() {}\n```\n<|im_end|>".into(),
        5 => "x".repeat(1 + r.below(9000) as usize),
        6 => "\n\n".into(),
        7 => "- let a = 1;\n+ let a: u8 = 1;\n+let b;\n-- c\n".into(),
        _ => "int f(void);".into(),
    };
    format!("{base}{n}")
}
fn gen(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = swarm(r, 900);
    cfg.step_limit = 150_000;
    let mut ops = vec![json!({"k": "put", "path": "/sim/c/h.h", "text": corpus::small(r, "h0")})];
    let mut ver = 0;
    for s in SRCS {
        ver += 1;
        if r.chance(3, 4) {
            ops.push(json!({"k": "put", "path": s, "text": text(r, ver)}));
        }
    }
    ops.push(json!({"k": "put", "path": "/sim/c/notes.txt", "text": "not C\n"}));
    let mut id = 0;
    let faulty = r.chance(1, 2);
    for _ in 0..2 + r.below(3) {
        match r.below(10) {
            0..=3 => {
                let edits: Vec<Value> = (0..r.below(4))
                    .map(|_| {
                        ver += 1;
                        json!({"wait": r.below(40), "path": *r.pick(SRCS), "text": if r.chance(1, 8) { Value::Null } else { json!(text(r, ver)) }})
                    })
                    .collect();
                ops.push(json!({"k": "traces", "id": id, "out": *r.pick(&["/sim/o/t.jsonl", "/sim/o/t.jsonl", "/sim/nodir/t.jsonl"]), "tier": *r.pick(&["P0", "P1", "p2"]), "edits": edits}));
            }
            4 => ops.push(json!({"k": "cli", "id": id, "format": *r.pick(&["jsonl", "chatml", "alpaca", "JSONL", "parquet", "nope"]), "card": r.chance(1, 2)})),
            5 => ops.push(json!({"k": "analyze", "id": id})),
            6 => {
                ver += 1;
                let s = *r.pick(SRCS);
                ops.push(json!({"k": "put", "path": s, "text": text(r, ver)}));
            }
            _ => {
                let n = r.below(6);
                let items: Vec<Value> = (0..n)
                    .map(|i| json!({"c": odd(r, i), "r": odd(r, i + 100), "e": odd(r, i + 200), "t": r.below(3), "x": r.below(4), "same": r.chance(1, 5)}))
                    .collect();
                ops.push(json!({"k": "lib", "id": id, "kind": *r.pick(&["trace_jsonl", "trace_chatml", "trace_alpaca", "ex_jsonl", "ex_chatml", "ex_alpaca"]), "items": items, "path": *r.pick(&["/sim/o/l.out", "/sim/o/l.out", "/sim/o", "/sim/nodir/l.out"])}));
            }
        }
        if faulty && r.chance(1, 4) {
            cfg.faults.push(tool_fault(r, id, &["rustc"], 4));
        }
        if faulty && r.chance(3, 4) {
            for _ in 0..1 + r.below(2) {
                let k = if r.chance(1, 6) { *r.pick(CRASHES) } else { *r.pick(FILE_FAULTS) };
                let f = *r.pick(&["", "", ".c", ".h", "/sim/o", "/sim/c", "rustc", "<wait>", "/tmp", ".jsonl"]);
                let at = if f.is_empty() { r.below(70) } else { r.below(6) };
                cfg.faults.push(fault(id, at as u32, k, f));
            }
        }
        id += 1;
    }
    plan("P08", cfg, ops, Value::Null)
}

fn fired() -> BTreeMap<String, u64> {
    os::sim().fired.iter().filter(|(k, _)| !k.starts_with("clock")).map(|(k, v)| (k.clone(), *v)).collect()
}
/// The reference: what a C text at this place translates to.
fn translate(path: &str, text: &str) -> Result<String, String> {
    let (p, t) = (path.to_string(), text.to_string());
    calm("/sim", move || decy_core::transpile_with_includes(&t, Path::new(&p).parent()).map_err(|e| format!("{e:#}"))).unwrap_or_else(|| Err("died".into()))
}
fn accepted(rust: &str) -> bool {
    os::progs::verdict(rust).is_none() && !rust.contains("unsafe {") && !rust.contains("unsafe{")
}
fn count(out: &str, label: &str) -> Option<u64> {
    out.lines().find_map(|l| l.strip_prefix(label)).and_then(|v| v.trim().parse().ok())
}

fn exec(p: &Plan, cx: &mut Ctx) {
    os::sim().fs.mkdirs("/sim/o", 0);
    os::sim().fs.mkdirs("/sim/c/sub/deep", 0);
    os::sim().fs.put_durable("/tmp/keep", b"not ours", 0);
    os::sim().fs.settle();
    for op in &p.ops {
        if cx.failed() {
            return;
        }
        os::sim().tag = vu(op, "id") as u32;
        match op["k"].as_str().unwrap_or("") {
            "put" => {
                let now = os::sim().mtime();
                os::sim().fs.put_durable(&vstr(op, "path"), vstr(op, "text").as_bytes(), now);
                os::sim().fs.settle();
            }
            "traces" => traces(op, cx),
            "cli" => cli_export(op, cx),
            "analyze" => analyze(op, cx),
            _ => lib_export(op, cx),
        }
    }
}

fn traces(op: &Value, cx: &mut Ctx) {
    let (out, tier) = (vstr(op, "out"), vstr(op, "tier"));
    // every text each file has had since the command started
    let mut texts: BTreeMap<String, Vec<Option<Vec<u8>>>> = BTreeMap::new();
    for s in SRCS {
        texts.insert(s.to_string(), vec![os::sim().fs.get(s)]);
    }
    let edits: Vec<Value> = op["edits"].as_array().cloned().unwrap_or_default();
    for e in &edits {
        texts.entry(vstr(e, "path")).or_default().push(e["text"].as_str().map(|t| t.as_bytes().to_vec()));
    }
    let before = os::sim().fs.get(&out);
    let f0 = fired();
    let n0 = os::sim().compiled.len();
    let q = os::launch_decy("/sim", &["oracle", "generate-traces", "--corpus", "/sim/c", "--output", &out, "--tier", &tier]);
    if !edits.is_empty() {
        let ed = edits.clone();
        let tag = std::mem::replace(&mut os::sim().tag, u32::MAX);
        os::launch("editor", "/sim", move || {
            for (i, e) in ed.iter().enumerate() {
                for _ in 0..vu(e, "wait") {
                    std::thread::yield_now();
                }
                let p = vstr(e, "path");
                match e["text"].as_str() {
                    Some(t) => {
                        let tmp = format!("/sim/ed{i}");
                        let _ = std::fs::write(&tmp, t).and_then(|()| std::fs::rename(&tmp, &p));
                    }
                    None => {
                        let _ = std::fs::remove_file(&p);
                    }
                }
            }
            0
        });
        os::sim().tag = tag;
        cx.probe("traces_edited");
    }
    let end = os::run();
    os::sim().fs.capacity = None;
    if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
        return cx.fail("no-progress", format!("generate-traces did not end: {end:?}"));
    }
    let f1 = fired();
    let err = String::from_utf8_lossy(&os::sim().procs[q].stderr).into_owned();
    let said = String::from_utf8_lossy(&os::sim().procs[q].stdout).into_owned();
    if err.contains("panicked") {
        return cx.fail("panic", err);
    }
    if f1.get("readdir_eio") != f0.get("readdir_eio") || f1.get("opendir_eacces") != f0.get("opendir_eacces") {
        cx.probe("listing_fault");
    }
    let always: Vec<&String> = texts.iter().filter(|(_, v)| v.iter().all(|t| t.is_some())).map(|x| x.0).collect();
    match os::sim().procs[q].exit {
        Some(os::Exit::Code(0)) => {
            cx.nontrivial = true;
            let power = f0.get("power") != f1.get("power");
            let made = count(&said, "Traces generated:").unwrap_or(0);
            let failed = count(&said, "Traces failed:").unwrap_or(0);
            let skipped = count(&said, "Traces skipped:").unwrap_or(0);
            let files = count(&said, "Files:").unwrap_or(0);
            if made + failed + skipped != files {
                return cx.fail("files-unaccounted", format!("{files} files, but {made} generated, {failed} failed, {skipped} skipped"));
            }
            if files < always.len() as u64 || files > texts.len() as u64 {
                return cx.fail("files-missed", format!("{files} files found, {} were there all the time: {always:?}", always.len()));
            }
            if failed > 0 {
                cx.probe("file_failed");
            }
            if skipped > 0 {
                cx.probe("file_skipped");
            }
            let now = os::sim().fs.get(&out);
            if made == 0 {
                if now != before && !power {
                    return cx.fail("output-without-traces", format!("no traces, but {out} changed"));
                }
            } else if !power {
                let Some(data) = now.and_then(|d| String::from_utf8(d).ok()) else { return cx.fail("traces-missing", format!("success with {made} traces, but {out} does not exist or is not text")) };
                let mut got = vec![];
                for l in data.lines() {
                    match serde_json::from_str::<GoldenTrace>(l) {
                        Ok(t) => got.push(t),
                        Err(e) => return cx.fail("traces-damaged", format!("success, but a line of {out} is no trace ({e}): {}", show(l.as_bytes()))),
                    }
                }
                if got.len() as u64 != made || !data.ends_with('\n') {
                    return cx.fail("traces-missing", format!("success with {made} traces, but {out} holds {}", got.len()));
                }
                let ids: BTreeSet<&str> = got.iter().map(|t| t.metadata.trace_id.as_str()).collect();
                if ids.len() != got.len() {
                    return cx.fail("trace-ids-repeat", format!("{} traces share {} identifiers", got.len(), ids.len()));
                }
                let mut pairs = BTreeSet::new();
                let mut seen = BTreeSet::new();
                for t in &got {
                    let name = &t.metadata.source_file;
                    let Some((path, hist)) = texts.iter().find(|(k, _)| k.rsplit('/').next() == Some(name)) else { return cx.fail("trace-of-nothing", format!("trace names the file {name}")) };
                    if !seen.insert(path.clone()) {
                        return cx.fail("trace-repeats", format!("{path} has two traces"));
                    }
                    let Some(i) = hist.iter().position(|h| h.as_deref() == Some(t.c_snippet.as_bytes())) else {
                        return cx.fail("trace-of-another-text", format!("the trace of {path} holds a text the file never had: {}", show(t.c_snippet.as_bytes())));
                    };
                    cx.probe(if i == 0 { "trace_of_old_text" } else { "trace_of_new_text" });
                    match translate(path, &t.c_snippet) {
                        Ok(w) if w == t.rust_snippet => {}
                        w => return cx.fail("trace-pairs-wrong", format!("the trace of {path} pairs {} with {}, its translation is {}", show(t.c_snippet.as_bytes()), show(t.rust_snippet.as_bytes()), show(w.unwrap_or_else(|e| e).as_bytes()))),
                    }
                    if !accepted(&t.rust_snippet) || !os::sim().compiled[n0..].iter().any(|c| c.0 == q && c.2 && c.1.contains(&t.rust_snippet)) {
                        return cx.fail("trace-unverified", format!("the trace of {path} was exported, but the compiler did not accept it"));
                    }
                    if t.metadata.tier.to_string() != tier.to_uppercase() {
                        return cx.fail("trace-tier", format!("tier {} instead of {tier}", t.metadata.tier));
                    }
                    if !pairs.insert((t.c_snippet.clone(), t.rust_snippet.clone())) {
                        cx.probe("same_pair");
                    }
                }
                // without faults and edits, every good file has its trace
                if f0 == f1 {
                    for (path, hist) in texts.iter().filter(|x| x.1.len() == 1) {
                        let Some(Ok(t)) = hist[0].clone().map(String::from_utf8) else { continue };
                        let good = translate(path, &t).map_or(false, |w| accepted(&w));
                        if good != seen.contains(path) {
                            return cx.fail("trace-lost", format!("{path} can{} be translated and verified, and has {} trace", if good { "" } else { "not" }, if seen.contains(path) { "a" } else { "no" }));
                        }
                    }
                }
                cx.probe("traces_ok");
            }
        }
        Some(os::Exit::Crashed) | None => {}
        other => {
            cx.nontrivial = true;
            if f0 == f1 && edits.is_empty() && !always.is_empty() && !out.starts_with("/sim/nodir") {
                return cx.fail("stuck", format!("nothing failed, but generate-traces ended with {other:?}: {err}"));
            }
        }
    }
}

fn cli_export(op: &Value, cx: &mut Ctx) {
    let (fmt, card) = (vstr(op, "format"), vb(op, "card"));
    let out = "/sim/o/patterns.txt";
    let f0 = fired();
    let mut a = vec!["oracle", "export", out, "--format", &fmt];
    if card {
        a.push("--with-card");
    }
    let q = os::launch_decy("/sim", &a);
    let end = os::run();
    os::sim().fs.capacity = None;
    if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
        return cx.fail("no-progress", format!("oracle export did not end: {end:?}"));
    }
    let f1 = fired();
    let known = ["jsonl", "chatml", "alpaca"].contains(&fmt.to_lowercase().as_str());
    match os::sim().procs[q].exit {
        Some(os::Exit::Code(0)) => {
            cx.nontrivial = true;
            if !known {
                return cx.fail("success-despite-failure", format!("format {fmt} was exported"));
            }
            if f0.get("power") != f1.get("power") {
                return;
            }
            let now = os::sim().fs.get(out).unwrap_or_default();
            let examples = calm("/sim", || DatasetExporter::new().examples().to_vec()).unwrap_or_default();
            if let Some(d) = lines_match(&now, &fmt.to_lowercase(), &examples) {
                return cx.fail("export-incomplete", format!("oracle export --format {fmt} succeeded, but {d}"));
            }
            if card {
                let t = String::from_utf8(os::sim().fs.get("/sim/o/README.md").unwrap_or_default()).unwrap_or_default();
                if !t.contains(&format!("- **Total examples**: {}\n", examples.len())) || !t.contains("## Related Projects") {
                    return cx.fail("export-incomplete", format!("the dataset card is incomplete: {}", show(t.as_bytes())));
                }
            }
            cx.probe("cli_export_ok");
        }
        Some(os::Exit::Crashed) | None => {}
        other => {
            cx.nontrivial = true;
            if known && f0 == f1 {
                let e = String::from_utf8_lossy(&os::sim().procs[q].stderr).into_owned();
                return cx.fail("stuck", format!("nothing failed, but oracle export ended with {other:?}: {e}"));
            }
        }
    }
}
/// One JSON line per example, in order, holding the example's own fields.
fn lines_match(data: &[u8], fmt: &str, ex: &[TrainingExample]) -> Option<String> {
    let Ok(t) = std::str::from_utf8(data) else { return Some("the file is not text".into()) };
    let lines: Vec<&str> = t.lines().collect();
    if lines.len() != ex.len() || (!ex.is_empty() && !t.ends_with('\n')) {
        return Some(format!("the file has {} of {} lines", lines.len(), ex.len()));
    }
    for (l, e) in lines.iter().zip(ex) {
        let v: Value = match serde_json::from_str(l) {
            Ok(v) => v,
            Err(x) => return Some(format!("a line is damaged ({x}): {}", show(l.as_bytes()))),
        };
        let part = |c: char| e.fix_diff.lines().filter(|l| l.starts_with(c)).map(|l| l.trim_start_matches(c).trim().to_string()).collect::<Vec<_>>();
        let has = |s: &str, parts: &[String]| {
            let mut at = 0;
            parts.iter().all(|p| s[at..].find(p.as_str()).map(|i| at += i + p.len()).is_some())
        };
        let ok = match fmt {
            "jsonl" => v == serde_json::to_value(e).unwrap_or_default(),
            "chatml" => {
                let m = v["messages"].as_array().cloned().unwrap_or_default();
                m.len() == 2
                    && m[0]["role"] == "user"
                    && m[1]["role"] == "assistant"
                    && m[0]["content"].as_str().map_or(false, |s| s.contains(&e.error_code) && s.contains(&e.description) && has(s, &part('-')))
                    && m[1]["content"].as_str().map_or(false, |s| s.contains(&e.decision) && has(s, &part('+')))
            }
            _ => v["instruction"].as_str().map_or(false, |s| s.contains(&e.error_code) && s.contains(&e.description)) && v["input"].as_str().map(String::from) == Some(part('-').join("\n")) && v["output"].as_str().map(String::from) == Some(part('+').join("\n")),
        };
        if !ok {
            return Some(format!("a line does not hold its example {e:?}: {}", show(l.as_bytes())));
        }
    }
    None
}

fn analyze(_op: &Value, cx: &mut Ctx) {
    let f0 = fired();
    let files: Vec<Vec<u8>> = SRCS.iter().filter_map(|s| os::sim().fs.get(s)).collect();
    let (got, end) = stormy("/sim", || decy_oracle::diversity::analyze_corpus(Path::new("/sim/c")).map(|h| (h.total_files, h.total_loc)).map_err(|e| e.to_string()));
    os::sim().fs.capacity = None;
    if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
        return cx.fail("no-progress", format!("analyze_corpus did not end: {end:?}"));
    }
    let f1 = fired();
    if f1.get("readdir_eio") != f0.get("readdir_eio") || f1.get("opendir_eacces") != f0.get("opendir_eacces") {
        cx.probe("listing_fault");
    }
    match got {
        Some(Ok((n, loc))) => {
            cx.nontrivial = true;
            if n != files.len() {
                return cx.fail("files-missed", format!("analyze_corpus counted {n} of {} files", files.len()));
            }
            let want: usize = files.iter().map(|f| String::from_utf8_lossy(f).lines().count()).sum();
            if f0 == f1 && loc != want {
                return cx.fail("lines-missed", format!("analyze_corpus counted {loc} of {want} lines"));
            }
            cx.probe("analyze_ok");
        }
        Some(Err(e)) if f0 == f1 => cx.fail("stuck", format!("nothing failed, but analyze_corpus says {e}")),
        _ => {}
    }
}

fn build_traces(items: &[Value]) -> GoldenTraceDataset {
    let mut d = GoldenTraceDataset::new();
    for i in items {
        let tier = [TraceTier::P0, TraceTier::P1, TraceTier::P2][vu(i, "t") as usize % 3];
        let (c, r) = if vb(i, "same") { ("int same;".to_string(), "let same = 0;".to_string()) } else { (vstr(i, "c"), vstr(i, "r")) };
        let mut t = GoldenTrace::new(c, r, tier, "x.c");
        for k in 0..vu(i, "x") {
            t.add_transformation(SafetyTransformation {
                kind: if k == 0 { TransformationKind::MallocToBox } else { TransformationKind::Other(format!("k{k}")) },
                c_pattern: "malloc".into(),
                rust_pattern: "Box".into(),
            });
        }
        t.set_explanation(vstr(i, "e"));
        d.add_trace(t);
    }
    d
}
fn build_examples(items: &[Value]) -> DatasetExporter {
    let mut d = DatasetExporter::empty();
    for i in items {
        d.add_example(TrainingExample {
            error_code: format!("E{:04}", vu(i, "t")),
            decision: vstr(i, "e"),
            fix_diff: vstr(i, "c"),
            description: vstr(i, "r"),
            source: "sim".into(),
            verified: vb(i, "same"),
            success_count: vu(i, "x") as u32,
            failure_count: 7,
        });
    }
    d
}

fn lib_export(op: &Value, cx: &mut Ctx) {
    let (kind, path) = (vstr(op, "kind"), vstr(op, "path"));
    let items: Vec<Value> = op["items"].as_array().cloned().unwrap_or_default();
    let f0 = fired();
    let (k2, p2, i2) = (kind.clone(), path.clone(), items.clone());
    // the result, and what was exported (values; texts for ChatML)
    let (got, end) = stormy("/sim", move || {
        let p = Path::new(&p2);
        if k2.starts_with("trace") {
            let d = build_traces(&i2);
            let r = match k2.as_str() {
                "trace_jsonl" => d.export_jsonl(p),
                "trace_chatml" => d.export_chatml(p),
                _ => d.export_alpaca(p),
            };
            let _b = os::Busy::new();
            (r.map(|()| d.traces.len()).map_err(|e| e.to_string()), serde_json::to_value(&d.traces).unwrap_or_default(), serde_json::to_value(&d.stats).unwrap_or_default(), vec![])
        } else {
            let d = build_examples(&i2);
            let r = match k2.as_str() {
                "ex_jsonl" => d.export_jsonl(p),
                "ex_chatml" => d.export_chatml(p),
                _ => d.export_alpaca(p),
            };
            let _b = os::Busy::new();
            (r.map_err(|e| e.to_string()), Value::Null, Value::Null, d.examples().to_vec())
        }
    });
    os::sim().fs.capacity = None;
    if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
        return cx.fail("no-progress", format!("{kind} export did not end: {end:?}"));
    }
    let f1 = fired();
    let Some((res, traces, stats, ex)) = got else { return };
    cx.nontrivial = true;
    match res {
        Err(e) => {
            cx.probe("export_failed");
            if f0 == f1 && path == "/sim/o/l.out" {
                cx.fail("stuck", format!("nothing failed, but the {kind} export says {e}"));
            }
        }
        Ok(n) => {
            if n != items.len() {
                return cx.fail("export-incomplete", format!("{kind} export reports {n} of {} items", items.len()));
            }
            if f0.get("power") != f1.get("power") {
                return;
            }
            let Some(data) = os::sim().fs.get(&path) else { return cx.fail("export-incomplete", format!("{kind} export succeeded, but {path} does not exist")) };
            let t = String::from_utf8_lossy(&data).into_owned();
            let bad = match kind.as_str() {
                "trace_jsonl" => {
                    let v: Vec<Value> = t.lines().map(|l| serde_json::from_str(l).unwrap_or(Value::Null)).collect();
                    (Value::Array(v) != traces).then(|| "the file does not hold the traces".to_string())
                }
                "trace_alpaca" => {
                    let v: Vec<Value> = serde_json::from_str(&t).unwrap_or_default();
                    let ok = v.len() == items.len()
                        && v.iter().zip(traces.as_array().unwrap()).all(|(a, b)| {
                            a["input"] == b["c_snippet"]
                                && a["output"].as_str().map_or(false, |o| o.contains(b["rust_snippet"].as_str().unwrap_or("\u{1}")) && o.contains(b["safety_explanation"].as_str().unwrap_or("\u{1}")))
                                && a["metadata"]["tier"] == b["metadata"]["tier"]
                                && a["metadata"]["transformations"].as_u64() == b["metadata"]["transformations"].as_array().map(|x| x.len() as u64)
                        });
                    (!ok).then(|| "the file does not hold the traces".to_string())
                }
                "trace_chatml" => {
                    let mut at = 0;
                    let mut ok = true;
                    for b in traces.as_array().unwrap() {
                        for k in ["c_snippet", "safety_explanation", "rust_snippet"] {
                            match t[at..].find(b[k].as_str().unwrap_or("\u{1}").trim()) {
                                Some(i) => at += i + b[k].as_str().unwrap_or("").trim().len(),
                                None => ok = false,
                            }
                        }
                    }
                    ok &= t.matches("<|im_start|>system").count() == items.len() && (items.is_empty() || t.trim_end().ends_with("<|im_end|>"));
                    (!ok).then(|| "the file does not hold the traces in order".to_string())
                }
                k => lines_match(&data, &k[3..], &ex),
            };
            if let Some(d) = bad {
                return cx.fail("export-incomplete", format!("{kind} export of {} items succeeded, but {d}: {}", items.len(), show(t.as_bytes())));
            }
            if kind.starts_with("trace") {
                // the statistics add up
                let tr = traces.as_array().unwrap();
                let by = |k: &str| stats[k].as_object().map_or(0, |m| m.values().filter_map(|x| x.as_u64()).sum::<u64>());
                let ids: BTreeSet<&str> = tr.iter().filter_map(|t| t["metadata"]["trace_id"].as_str()).collect();
                let trans: u64 = items.iter().map(|i| vu(i, "x")).sum();
                if stats["total_traces"].as_u64() != Some(tr.len() as u64) || by("traces_by_tier") != tr.len() as u64 || by("traces_by_transformation") != trans {
                    return cx.fail("statistics", format!("statistics of {} traces with {trans} transformations: {stats}", tr.len()));
                }
                if ids.len() != tr.len() {
                    return cx.fail("trace-ids-repeat", format!("{} traces share {} identifiers", tr.len(), ids.len()));
                }
            }
            cx.probe("export_ok");
        }
    }
}
