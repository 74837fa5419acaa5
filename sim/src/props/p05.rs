//! P05: what single-file commands promise about their output, and what they leave alone.
use crate::corpus;
use crate::os::{self, Rng};
use crate::plan::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "P05",
    gen,
    exec,
    quick: 4000,
    thorough: 250_000,
    fixed: no_fixed,
    rule: "a run is a sequence of edits and command invocations (single-file translation to a file or to standard output with and without compile verification, decision trace and oracle; read-only commands; two translations at once) under disk faults, failing or short standard output, failing spawns and crashes; non-trivial: at least two commands, one of them a translation that succeeded or had to fail; distinct by event-log hash",
    level: "exploration",
    real: &["decy CLI (all sub-commands except repl)", "decy-core, decy-parser + libclang, decy-verify, decy-oracle", "clap, walkdir, tempfile, Rust std"],
    stub: &["file system, clock, scheduler, randomness, processes, standard streams (simulated)", "clang, rustc, gcc and the programs they build (stub programs)"],
    assume: &[
        "reference translation: the library translation of the text on disk with includes resolved next to the file",
        "the compiler stub rejects exactly the texts that carry a marker",
    ],
    must: &["file_ok", "stdout_ok", "verify_ok", "verify_rejects", "broken_rejects", "readonly_ok", "failed_under_fault", "stdout_fault", "crashed", "two_at_once", "trace_ok", "oracle_ok"],
};

const SRCS: &[&str] = &["/sim/w/a.c", "/sim/w/b.c", "/sim/w/sub/c.c", "/sim/w/sub/d d.c"];
const OUTS: &[&str] = &["/sim/w/a.rs", "/sim/o/b.rs", "/sim/w/sub/c.rs", "/sim/w/out.txt", "/sim/nodir/x.rs"];

fn text(r: &mut Rng, ver: u64, path: &str) -> String {
    let mut t = match r.below(16) {
        0 => "int broken( {\n".to_string(),
        1 => r.pick(corpus::bad()).clone(),
        2 => String::new(),
        3 | 4 => corpus::program(r),
        5 | 6 => format!("int simfail_{ver}(int a) {{ return a + {}; }}\n", r.below(99)),
        7 => format!("int simwarn_{ver}(int a) {{ return a + {}; }}\n", r.below(99)),
        8 => format!("{}{}", corpus::small(r, &format!("v{ver}")), (0..200 + r.below(300)).map(|i| format!("int filler_{i}(int a) {{ return a * {i}; }}\n")).collect::<String>()),
        _ => corpus::small(r, &format!("v{ver}")),
    };
    if r.chance(1, 3) {
        t = format!("#include \"{}\"\n{t}", if path.contains("/sub/") && r.chance(1, 2) { "../h.h" } else { "h.h" });
    }
    t
}
fn readonly(r: &mut Rng) -> Vec<String> {
    let s = *r.pick(SRCS);
    let v: Vec<&str> = match r.below(16) {
        0 => vec!["check-project", "/sim/w"],
        1 => vec!["cache-stats", "/sim/w"],
        2 => vec!["audit", "/sim/w/x.rs"],
        3 => vec!["audit", "/sim/w/x.rs", "--verbose"],
        4 => vec!["diff-test", s],
        5 => vec!["oracle", "stats", "--format", r.pick(&["json", "markdown", "prometheus", "other"])],
        6 => vec!["oracle", "bootstrap", "--dry-run"],
        7 => vec!["oracle", "retire", "--dry-run"],
        8 => vec!["oracle", "query", "--error", r.pick(&["E0308", "E0382", "E0999", "bad"]), "--format", r.pick(&["text", "json"])],
        9 => vec!["oracle", "validate", "/sim/w"],
        10 => vec!["oracle", "train", "--corpus", "/sim/w", "--dry-run"],
        11 => vec!["oracle", "generate-traces", "--corpus", "/sim/w", "--output", "/sim/w/traces.jsonl", "--dry-run"],
        12 => vec!["transpile-project", "/sim/w", "-o", "/sim/po", "--dry-run"],
        13 => vec!["transpile-project", "/sim/w", "-o", "/sim/po", "--dry-run", "--quiet"],
        14 => vec!["oracle", "train", "--corpus", "/sim/w"],
        _ => vec![],
    };
    v.into_iter().map(String::from).collect()
}
fn tr(r: &mut Rng, id: u32, out: Option<&str>) -> Value {
    json!({"k": "tr", "id": id, "src": *r.pick(SRCS), "out": out, "verify": r.chance(1, 3), "trace": r.chance(1, 8), "oracle": r.chance(1, 8), "rel": r.chance(1, 4)})
}
fn gen(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = swarm(r, 900);
    cfg.step_limit = 120_000;
    let mut ops = vec![];
    let mut ver = 0;
    for h in ["/sim/w/h.h", "/sim/w/sub/h.h"] {
        ver += 1;
        ops.push(json!({"k": "put", "path": h, "text": corpus::small(r, &format!("h{ver}"))}));
    }
    for s in SRCS {
        ver += 1;
        if r.chance(9, 10) {
            ops.push(json!({"k": "put", "path": s, "text": text(r, ver, s)}));
        }
    }
    ops.push(json!({"k": "put", "path": "/sim/w/x.rs", "text": "fn a() { unsafe { *std::ptr::null_mut::<i32>() = 1; } }\n"}));
    let n = 2 + r.below(5);
    let mut id = 0;
    let faulty = r.chance(3, 5);
    for _ in 0..n {
        match r.below(10) {
            0 => {
                ver += 1;
                let s = *r.pick(SRCS);
                ops.push(json!({"k": "put", "path": s, "text": text(r, ver, s)}));
            }
            1 => ops.push(json!({"k": "put", "path": *r.pick(&OUTS[..4]), "text": format!("// precious {ver}\n{}", "x".repeat(r.below(3000) as usize))})),
            2 | 3 => ops.push(json!({"k": "ro", "id": id, "args": readonly(r)})),
            4 => {
                let a = r.below(5) as usize;
                let b = (a + 1 + r.below(3) as usize) % 4;
                ops.push(json!({"k": "two", "id": id, "a": tr(r, id, Some(OUTS[a])), "b": tr(r, id + 1, Some(OUTS[b]))}));
            }
            _ => {
                let out = if r.chance(2, 5) { None } else { Some(*r.pick(OUTS)) };
                ops.push(tr(r, id, out));
            }
        }
        if faulty && r.chance(1, 4) {
            cfg.faults.push(tool_fault(r, id, &["rustc", "rustc", "rustc", "gcc"], 1));
        }
        if faulty && r.chance(2, 3) {
            for _ in 0..1 + r.below(2) {
                let k = match r.below(8) {
                    0 | 1 => *r.pick(CRASHES),
                    2 => *r.pick(&["stdout_fail", "stdout_short", "stdout_eintr", "stdout_full"]),
                    _ => *r.pick(FILE_FAULTS),
                };
                let f = if k.starts_with("stdout") { "<stdout>" } else { *r.pick(&["", "", "", ".c", ".h", ".rs", "/sim/o", "decy", "rustc", "clang", "<wait>", "/tmp"]) };
                let at = if k.starts_with("stdout") {
                    *r.pick(&[0u64, 0, 1, 2, 5, 30])
                } else if f.is_empty() {
                    r.below(60)
                } else {
                    r.below(4)
                };
                cfg.faults.push(fault(id + r.below(2) as u32, at as u32, k, f));
            }
        }
        id += 2;
    }
    plan("P05", cfg, ops, Value::Null)
}

type Tree = BTreeMap<String, Vec<u8>>;
fn tree() -> Tree {
    os::sim().fs.tree("/").into_iter().collect()
}
fn diff(a: &Tree, b: &Tree, skip: &dyn Fn(&str) -> bool) -> Option<String> {
    for (k, v) in b {
        if skip(k) {
            continue;
        }
        match a.get(k) {
            None => return Some(format!("{k} appeared: {}", show(v))),
            Some(o) if o != v => return Some(format!("{k} changed from {} to {}", show(o), show(v))),
            _ => {}
        }
    }
    a.keys().find(|k| !skip(k) && !b.contains_key(*k)).map(|k| format!("{k} disappeared"))
}
fn start(op: &Value) -> usize {
    os::sim().tag = vu(op, "id") as u32;
    let src = vstr(op, "src");
    let (cwd, inp) = if vb(op, "rel") { ("/sim/w", src["/sim/w/".len()..].to_string()) } else { ("/sim", src.clone()) };
    let out = vstr(op, "out");
    let mut a = vec!["transpile", &inp];
    if !out.is_empty() {
        a.extend(["-o", &out]);
    }
    for (k, f) in [("verify", "--verify"), ("trace", "--trace"), ("oracle", "--oracle")] {
        if vb(op, k) {
            a.push(f);
        }
    }
    os::launch_decy(cwd, &a)
}
fn reference(src: &str) -> Result<String, String> {
    let src = src.to_string();
    let Some(data) = os::sim().fs.get(&src) else { return Err("no such file".into()) };
    let Ok(t) = String::from_utf8(data) else { return Err("not UTF-8".into()) };
    calm("/sim", move || decy_core::transpile_with_includes(&t, std::path::Path::new(&src).parent()).map_err(|e| format!("{e:#}"))).unwrap_or_else(|| Err("died".into()))
}
fn fired() -> BTreeMap<String, u64> {
    os::sim().fired.iter().filter(|(k, _)| !k.starts_with("clock")).map(|(k, v)| (k.clone(), *v)).collect()
}
fn panicked(q: usize) -> Option<String> {
    let e = &os::sim().procs[q].stderr;
    let t = String::from_utf8_lossy(e).into_owned();
    // a failing standard output makes Rust's print macros panic; that is reported, not silent
    (t.contains("panicked") && !t.contains("failed printing to stdout")).then_some(t)
}

fn exec(p: &Plan, cx: &mut Ctx) {
    let (mut cmds, mut decided) = (0, false);
    os::sim().fs.put_durable("/tmp/keep", b"not ours", 0);
    os::sim().fs.mkdirs("/sim/o", 0);
    os::sim().fs.mkdirs("/sim/w/sub", 0);
    os::sim().fs.settle();
    for op in &p.ops {
        if cx.failed() {
            return;
        }
        // litter of an earlier crash is nobody's: decy may or may not reuse those names
        let litter: Vec<String> = os::sim().fs.tree("/tmp").into_iter().map(|x| x.0).filter(|k| k != "/tmp/" && k != "/tmp/keep").collect();
        for k in litter.iter().rev() {
            let _ = os::sim().fs.unlink(k.trim_end_matches('/'), k.ends_with('/'), 0);
        }
        match op["k"].as_str().unwrap_or("") {
            "put" => {
                let now = os::sim().mtime();
                os::sim().fs.put_durable(&vstr(op, "path"), vstr(op, "text").as_bytes(), now);
                os::sim().fs.settle();
            }
            "ro" => {
                cmds += 1;
                let before = tree();
                let f0 = fired();
                os::sim().tag = vu(op, "id") as u32;
                let args: Vec<String> = op["args"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
                let refs: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
                let q = os::launch_decy("/sim", &refs);
                let end = os::run();
                os::sim().fs.capacity = None;
                if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
                    return cx.fail("no-progress", format!("decy {args:?} did not end: {end:?}"));
                }
                let f1 = fired();
                let crashed = os::sim().procs[q].exit == Some(os::Exit::Crashed);
                if let Some(t) = panicked(q) {
                    return cx.fail("panic", format!("decy {args:?} panicked: {t}"));
                }
                let clean = |k: &str| f1.get(k) == f0.get(k);
                let cleanup_ok = !crashed && ["unlink_fail", "eio", "eacces", "readdir_eio", "opendir_eacces", "open_fail", "eacces_read", "eio_read", "emfile"].iter().all(|k| clean(k));
                let power = f0.get("power") != f1.get("power");
                if let Some(d) = diff(&before, &tree(), &|k| power || (k.starts_with("/tmp/") && !cleanup_ok)) {
                    return cx.fail("readonly-changes-files", format!("decy {args:?}, which only reports, changed the file system: {d}"));
                }
                if f0 == f1 {
                    cx.probe("readonly_ok");
                }
            }
            "tr" | "two" => {
                cmds += 1;
                let list: Vec<Value> = if op["k"] == "two" { vec![op["a"].clone(), op["b"].clone()] } else { vec![op.clone()] };
                let refs: Vec<Result<String, String>> = list.iter().map(|o| reference(&vstr(o, "src"))).collect();
                let before = tree();
                let f0 = fired();
                let n0 = os::sim().compiled.len();
                let qs: Vec<usize> = list.iter().map(start).collect();
                if list.len() > 1 {
                    cx.probe("two_at_once");
                }
                let end = os::run();
                os::sim().fs.capacity = None;
                let f1 = fired();
                if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
                    return cx.fail("no-progress", format!("decy transpile did not end: {end:?}"));
                }
                let after = tree();
                let power = f0.get("power") != f1.get("power");
                let mut any_crash = power;
                for i in 0..list.len() {
                    let (o, q) = (&list[i], qs[i]);
                    if let Some(t) = panicked(q) {
                        return cx.fail("panic", format!("decy transpile panicked: {t}"));
                    }
                    let want = &refs[i];
                    let out = vstr(o, "out");
                    let rejected = vb(o, "verify") && want.as_ref().map_or(false, |w| os::progs::verdict(w).is_some());
                    let must_fail = want.is_err() || rejected;
                    let old = before.get(&out);
                    let new = after.get(&out);
                    let stdout = os::sim().procs[q].stdout.clone();
                    match os::sim().procs[q].exit {
                        Some(os::Exit::Code(0)) => {
                            if want.is_err() {
                                return cx.fail("success-despite-failure", format!("{o}: exit status 0 although the source cannot be translated ({})", want.as_ref().unwrap_err()));
                            }
                            if rejected {
                                return cx.fail("success-despite-failure", format!("{o}: exit status 0 although the compiler rejects the translation"));
                            }
                            let w = want.as_ref().unwrap();
                            if vb(o, "verify") && !os::sim().compiled[n0..].iter().any(|c| c.0 == q && c.1 == *w && c.2) {
                                return cx.fail("verified-without-compiling", format!("{o}: reported as verified, but the compiler never saw the translation"));
                            }
                            let got = if out.is_empty() { Some(&stdout) } else { new };
                            // (success does not promise to survive a power failure)
                            let lost = !out.is_empty() && power;
                            if !lost && got.map(|g| &g[..]) != Some(w.as_bytes()) {
                                return cx.fail(
                                    "success-with-wrong-output",
                                    format!("{o}: exit status 0, but the output is {} and the translation is {}", got.map_or("missing".into(), |g| format!("{} bytes {}", g.len(), show(g))), format!("{} bytes {}", w.len(), show(w.as_bytes()))),
                                );
                            }
                            decided = true;
                            cx.probe(if out.is_empty() { "stdout_ok" } else { "file_ok" });
                            for (k, pr) in [("verify", "verify_ok"), ("trace", "trace_ok"), ("oracle", "oracle_ok")] {
                                if vb(o, k) {
                                    cx.probe(pr);
                                }
                            }
                        }
                        Some(os::Exit::Crashed) | None => {
                            any_crash = true;
                            cx.probe("crashed");
                            if !out.is_empty() && must_fail && old != new && !power {
                                return cx.fail("failure-touches-output", format!("{o}: nothing to write, but {out} changed"));
                            }
                        }
                        other => {
                            if must_fail {
                                decided = true;
                                cx.probe(if want.is_err() { "broken_rejects" } else { "verify_rejects" });
                                if !out.is_empty() && old != new && !power {
                                    return cx.fail("failure-touches-output", format!("{o}: translation or verification failed, but {out} changed from {} to {}", old.map_or("absent".into(), |x| show(x)), new.map_or("absent".into(), |x| show(x))));
                                }
                                if out.is_empty() && !stdout.is_empty() {
                                    return cx.fail("failure-prints-translation", format!("{o}: translation or verification failed, but standard output holds {}", show(&stdout)));
                                }
                            } else if f0 == f1 && !(out.starts_with("/sim/nodir")) {
                                return cx.fail("stuck", format!("{o}: nothing failed, but decy ended with {other:?}: {}", show(&os::sim().procs[q].stderr.clone())));
                            } else {
                                cx.probe("failed_under_fault");
                                if f1.keys().any(|k| k.starts_with("stdout")) {
                                    cx.probe("stdout_fault");
                                }
                                if !out.is_empty() && old != new && !power {
                                    let w = want.as_ref().unwrap().as_bytes();
                                    if !new.map_or(false, |n| w.starts_with(n)) {
                                        return cx.fail("failure-corrupts-output", format!("{o}: failed, and {out} is neither the old text nor a part of the new one: {}", new.map_or("absent".into(), |x| show(x))));
                                    }
                                }
                            }
                        }
                    }
                }
                let outs: Vec<String> = list.iter().map(|o| vstr(o, "out")).collect();
                let cleanup_ok = !any_crash && ["unlink_fail", "eio", "eacces"].iter().all(|k| f0.get(*k) == f1.get(*k));
                if !power {
                    if let Some(d) = diff(&before, &after, &|k| outs.iter().any(|o| o == k) || (k.starts_with("/tmp/") && !cleanup_ok)) {
                        return cx.fail("changes-other-files", format!("{op}: something other than the requested output changed: {d}"));
                    }
                }
            }
            _ => {}
        }
    }
    cx.nontrivial = cmds >= 2 && decided;
}
