//! P14: files left behind half-written, torn or scrambled get a result or an error, never a crash, and harm nothing else.
use crate::corpus;
use crate::os::{self, Rng};
use crate::plan::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

pub const P14: Prop = Prop {
    id: "P14",
    gen,
    exec,
    quick: 2500,
    thorough: 200_000,
    fixed: no_fixed,
    rule: "a run is a small tree of C sources, headers and Rust files that an interrupted writer left damaged (cut off, zero-filled, torn between two versions by sectors, flipped bits, doubled or lost blocks, stray bytes, swapped encodings) or is still rewriting in place, and 2-4 commands and library entry points that read it; non-trivial: a damaged file was read; distinct by event-log hash",
    level: "exploration",
    real: &["decy CLI transpile, transpile-project, check-project, audit, diff-test, oracle validate, train, generate-traces", "decy-core, decy-parser + libclang, decy-hir, decy-analyzer, decy-ownership, decy-codegen, decy-verify, decy-debugger, decy-oracle diversity"],
    stub: &["file system, clock, scheduler, randomness, processes (simulated)", "clang, gcc and rustc (stub programs)"],
    assume: &["libclang itself survives any input", "programs come from the corpus, damaged as interrupted or misdirected writes damage them"],
    must: &["foreign", "cut", "zero", "tear", "flip", "stray", "lost", "twice", "lines", "live", "not_text", "translated_damaged", "rejected_damaged", "audited", "project_failed", "project_ok", "traces", "lib", "lib_not_text"],
};
const SRCS: [&str; 4] = ["/sim/p/a.c", "/sim/p/b.c", "/sim/p/sub/c.c", "/sim/p/z.c"];
const EXTRA: [&str; 3] = ["/sim/p/one.h", "/sim/p/sub/two.h", "/sim/p/lib.rs"];

fn source(r: &mut Rng, tag: u64) -> String {
    let mut s = if r.chance(1, 2) { corpus::program(r) } else { corpus::small(r, &format!("t{tag}")) };
    if r.chance(1, 3) {
        let note = *r.pick(&["/* größe ≤ 10 µm — ☃ */\n", "// naïve\n", "const char *greet = \"héllo 世界 𝄞\";\n", "/* tab\there */\n"]);
        let at = line_start(&s, r);
        s.insert_str(at, note);
    }
    if r.chance(1, 3) {
        s = format!("#include \"one.h\"\n{s}");
    }
    if r.chance(1, 6) {
        s = format!("#include \"sub/two.h\"\n#define LIMIT 10\n{s}");
    }
    if r.chance(1, 8) {
        s = s.replace('\n', "\r\n");
    }
    if r.chance(1, 12) {
        s = format!("\u{feff}{s}");
    }
    s
}
fn line_start(s: &str, r: &mut Rng) -> usize {
    let starts: Vec<usize> = std::iter::once(0).chain(s.match_indices('\n').map(|x| x.0 + 1)).collect();
    *r.pick(&starts)
}
fn rust(r: &mut Rng) -> String {
    let parts = [
        "/// größe ☃\npub fn a(x: &mut i32) { *x += 1; }\n",
        "pub fn b(p: *mut i32) -> i32 {\n    // SAFETY: checked\n    unsafe { *p }\n}\n",
        "unsafe fn c(q: *const u8) { let _ = *q; }\n",
        "static mut G: i32 = 0;\nfn d() { unsafe { G = 1; std::mem::transmute::<u32, f32>(1); } }\n",
        "unsafe impl Send for X {}\nunsafe trait T { fn f(&self); }\nstruct X;\n",
        "fn e() { unsafe { unsafe { asm!(\"nop\"); } } }\n",
        "#[no_mangle]\npub extern \"C\" fn g(s: &str) -> usize { s.len() }\n",
    ];
    (0..1 + r.below(5)).map(|_| *r.pick(&parts)).collect()
}
fn gen(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = swarm(r, 400);
    cfg.step_limit = 150_000;
    let mut ops = vec![];
    let mut tag = 0;
    let mut names: Vec<&str> = SRCS.iter().copied().filter(|_| r.chance(2, 3)).collect();
    if names.is_empty() {
        names.push(SRCS[0]);
    }
    for n in names.iter().copied().chain(EXTRA) {
        tag += 1;
        let text = match n {
            "/sim/p/one.h" => format!("#ifndef ONE_H\n#define ONE_H\n#include \"sub/two.h\"\n{}#endif\n", corpus::small(r, "h1")),
            "/sim/p/sub/two.h" => format!("#pragma once\n{}", corpus::small(r, "h2")),
            "/sim/p/lib.rs" => rust(r),
            _ => source(r, tag),
        };
        ops.push(json!({"k": "put", "path": n, "text": text}));
    }
    names.extend(EXTRA);
    // damage that leaves the program as it is but is no text any more
    let quiet = r.chance(1, 6);
    for _ in 0..if quiet { 1 } else { 1 + r.below(4) } {
        let n = *r.pick(&names);
        let at = r.below(1000);
        ops.push(match if quiet { 11 } else { r.below(12) } {
            11 => json!({"k": "foreign", "path": n, "at": at, "n": r.below(4)}),
            0 | 1 => json!({"k": "cut", "path": n, "at": at}),
            2 => json!({"k": "zero", "path": n, "at": at, "len": *r.pick(&[1u64, 16, 512, 4096])}),
            3 => json!({"k": "tear", "path": n, "old": if n.ends_with(".rs") { rust(r) } else { source(r, 77) }, "size": *r.pick(&[16u64, 64, 512]), "mask": r.next()}),
            4 => json!({"k": "flip", "path": n, "at": at, "bit": r.below(8)}),
            5 => json!({"k": "stray", "path": n, "at": at, "b": *r.pick(&["\u{0}", "é", "☃", "\"", "'", "/*", "{", "}", "(", "\\", "#include \"", "#include <", "#include", "\u{feff}", "\r", "#", "??/", "unsafe ", "unsafe {", "r#\""]), "n": *r.pick(&[1u64, 1, 1, 3, 200])}),
            // whole lines: what is left is often still a program
            7 => json!({"k": "lines", "path": n, "at": at, "n": 1 + r.below(4), "how": "lost"}),
            8 => json!({"k": "lines", "path": n, "at": at, "n": 1 + r.below(4), "how": "twice"}),
            9 => json!({"k": "lines", "path": n, "at": at, "n": 1 + r.below(30), "how": "moved", "to": r.below(1000)}),
            6 => json!({"k": "lost", "path": n, "at": at, "len": 1 + r.below(64)}),
            _ => json!({"k": "twice", "path": n, "at": at, "len": 1 + r.below(400)}),
        });
    }
    for id in 0..2 + r.below(3) {
        let f = *r.pick(&names);
        let c = *r.pick(&names.iter().copied().filter(|n| n.ends_with(".c")).collect::<Vec<_>>());
        let mut o = match r.below(14) {
            0..=2 => json!({"k": "cmd", "args": ["transpile", c], "on": [c]}),
            3 => json!({"k": "cmd", "args": ["transpile", c, "--trace", "-o", "/sim/o/x.rs"], "on": [c]}),
            4 => json!({"k": "cmd", "args": ["transpile", c, "--verify"], "on": [c]}),
            5 => json!({"k": "cmd", "args": ["audit", if r.chance(1, 2) { "/sim/p/lib.rs" } else { f }, if r.chance(1, 2) { "--verbose" } else { "-v" }]}),
            6 => json!({"k": "cmd", "args": ["transpile-project", "/sim/p", "-o", "/sim/o/out", *r.pick(&["--stats", "--no-cache", "--quiet"])]}),
            7 => json!({"k": "cmd", "args": ["check-project", "/sim/p"]}),
            8 => json!({"k": "cmd", "args": ["diff-test", c, "--timeout", "2"], "on": [c]}),
            9 => json!({"k": "cmd", "args": ["oracle", "generate-traces", "--corpus", "/sim/p", "--output", "/sim/o/t.jsonl"]}),
            10 => json!({"k": "cmd", "args": ["oracle", *r.pick(&["validate", "train"]), if r.chance(1, 2) { "/sim/p" } else { "/sim/p/sub" }]}),
            _ => json!({"k": "lib", "path": f}),
        };
        o["id"] = json!(id);
        if r.chance(1, 4) {
            o["live"] = json!({"path": f, "text": if f.ends_with(".rs") { rust(r) } else { source(r, 88) }, "chunk": 1 + r.below(300), "wait": r.below(30)});
        }
        ops.push(o);
    }
    plan("P14", cfg, ops, Value::Null)
}

fn harm(op: &Value, b: &mut Vec<u8>) {
    let n = b.len();
    let at = (n as u64 * vu(op, "at") / 1000).min(n as u64) as usize;
    let end = (at + vu(op, "len") as usize).min(n);
    match op["k"].as_str().unwrap_or("") {
        "cut" => b.truncate(at),
        "zero" => b[at..end].iter_mut().for_each(|x| *x = 0),
        "tear" => {
            let old = vstr(op, "old").into_bytes();
            let size = vu(op, "size").max(1) as usize;
            b.resize(n.max(old.len()), 0);
            for (i, x) in b.iter_mut().enumerate() {
                if vu(op, "mask") >> (i / size % 64) & 1 == 1 {
                    *x = old.get(i).copied().unwrap_or(0);
                }
            }
        }
        "flip" if n > 0 => b[at.min(n - 1)] ^= 1 << vu(op, "bit"),
        "stray" => {
            let s = vstr(op, "b").repeat(vu(op, "n") as usize);
            b.splice(at..at, s.into_bytes());
        }
        "foreign" => {
            let start = b[..at].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
            let comment: &[u8] = match vu(op, "n") {
                0 => b"/* gr\xf6\xdfe */\n",
                1 => b"// \xe2\x98\n",
                2 => b"// \xff\xfe\n",
                _ => b"/* \xed\xa0\x80 */\n",
            };
            b.splice(start..start, comment.to_vec());
        }
        "lost" => {
            b.drain(at..end);
        }
        "lines" => {
            let mut ls: Vec<Vec<u8>> = b.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect();
            let m = ls.len();
            let i = (m as u64 * vu(op, "at") / 1000).min(m as u64) as usize;
            let j = (i + vu(op, "n") as usize).min(m);
            let part = ls[i..j].to_vec();
            match op["how"].as_str().unwrap_or("") {
                "lost" => drop(ls.drain(i..j)),
                "twice" => drop(ls.splice(j..j, part)),
                _ => {
                    ls.drain(i..j);
                    let k = (ls.len() as u64 * vu(op, "to") / 1000) as usize;
                    ls.splice(k..k, part);
                }
            }
            *b = ls.concat();
        }
        "twice" => {
            let d = b[at..end].to_vec();
            b.splice(end..end, d);
        }
        _ => {}
    }
}

/// Library entry points that read a file or take its text.
fn library(path: &str) -> Vec<(&'static str, Result<usize, String>)> {
    let p = Path::new(path);
    let e = |r: anyhow::Result<String>| r.map(|s| s.len()).map_err(|e| format!("{e:#}"));
    let mut v = vec![
        ("viz_ast", e(decy_debugger::visualize_ast::visualize_c_ast(p, false))),
        ("viz_hir", e(decy_debugger::visualize_hir::visualize_hir(p, false))),
        ("viz_own", e(decy_debugger::visualize_ownership::visualize_ownership_graph(p, false))),
        ("transpile_file", e(decy_core::transpile_file(p, &decy_core::ProjectContext::new()).map(|t| t.rust_code))),
        ("deps", decy_core::DependencyGraph::from_files(&[p.to_path_buf()]).map(|_| 0).map_err(|e| format!("{e:#}"))),
        ("guard", decy_core::DependencyGraph::has_header_guard(p).map(|g| g as usize).map_err(|e| format!("{e:#}"))),
        ("config", decy_oracle::OracleConfig::from_file(p).map(|c| c.max_suggestions).map_err(|e| e.to_string())),
        ("corpus", decy_oracle::diversity::analyze_corpus(p.parent().unwrap_or(p)).map(|h| h.total_loc).map_err(|e| e.to_string())),
    ];
    if let Ok(t) = std::fs::read_to_string(p) {
        v.push(("audit", decy_verify::audit_rust_code(&t).map(|r| r.unsafe_blocks.len()).map_err(|e| format!("{e:#}"))));
        v.push(("box", e(decy_core::transpile_with_box_transform(&t))));
        v.push(("trace", e(decy_core::transpile_with_trace(&t).map(|(a, j)| a + &j.to_json()))));
        v.push(("llm", decy_llm::LlmCodegen::new("m").parse_response(&t).map(|g| g.code.len()).map_err(|e| e.to_string())));
    }
    v
}

fn exec(p: &Plan, cx: &mut Ctx) {
    os::sim().fs.mkdirs("/sim/o", 0);
    os::sim().fs.mkdirs("/sim/p/sub", 0);
    os::sim().fs.settle();
    let mut damaged: BTreeMap<String, bool> = BTreeMap::new();
    for op in &p.ops {
        if cx.failed() {
            return;
        }
        os::sim().tag = vu(op, "id") as u32;
        let path = vstr(op, "path");
        match op["k"].as_str().unwrap_or("") {
            "put" => {
                os::sim().fs.put_durable(&path, vstr(op, "text").as_bytes(), 0);
                damaged.insert(path, false);
            }
            "lib" => {
                let text = os::sim().fs.get(&path).unwrap_or_default();
                live(op, cx);
                let p2 = path.clone();
                let (got, end) = stormy("/sim", move || library(&p2));
                if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
                    return cx.fail("no-progress", format!("a library call on {path} did not end: {end:?}: {}", show(&text)));
                }
                let Some(got) = got else { return cx.fail("panic", format!("a library call on {path} panicked: {}\n{}", last_words(), show(&text))) };
                cx.probe("lib");
                if got.iter().any(|x| x.1.as_ref().err().is_some_and(|e| e.trim().is_empty())) {
                    return cx.fail("silent-failure", format!("a library call on {path} failed without saying why: {got:?}"));
                }
                if op["live"].is_null() && std::str::from_utf8(&text).is_err() {
                    cx.probe("lib_not_text");
                    if let Some((n, r)) = got.iter().find(|x| x.0 != "corpus" && x.1.is_ok()) {
                        return cx.fail("garbage-accepted", format!("the library call '{n}' on {path}, which is not text, returned {r:?}: {}", show(&text)));
                    }
                }
                cx.nontrivial |= damaged.get(&path) == Some(&true);
            }
            "cmd" => {
                live(op, cx);
                command(op, &damaged, cx);
            }
            k => {
                let Some(mut b) = os::sim().fs.get(&path) else { continue };
                harm(op, &mut b);
                if std::str::from_utf8(&b).is_err() {
                    cx.probe("not_text");
                }
                os::sim().fs.put_durable(&path, &b, 0);
                damaged.insert(path, true);
                cx.probe(k);
            }
        }
    }
}
fn last_words() -> String {
    os::sim().procs.iter().rev().find(|p| !p.stderr.is_empty()).map(|p| String::from_utf8_lossy(&p.stderr).into_owned()).unwrap_or_default()
}
/// Another process rewrites a file in place while the command runs.
fn live(op: &Value, cx: &mut Ctx) {
    let l = op["live"].clone();
    if l.is_null() {
        return;
    }
    cx.probe("live");
    let tag = std::mem::replace(&mut os::sim().tag, u32::MAX);
    os::launch("writer", "/sim", move || {
        use std::io::Write;
        for _ in 0..vu(&l, "wait") {
            std::thread::yield_now();
        }
        let Ok(mut f) = std::fs::File::create(vstr(&l, "path")) else { return 1 };
        for c in vstr(&l, "text").as_bytes().chunks(vu(&l, "chunk").max(1) as usize) {
            if f.write_all(c).is_err() {
                return 1;
            }
            std::thread::yield_now();
        }
        0
    });
    os::sim().tag = tag;
}

fn command(op: &Value, damaged: &BTreeMap<String, bool>, cx: &mut Ctx) {
    let args: Vec<String> = op["args"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
    let argv: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let files = || -> Vec<(String, Option<Vec<u8>>)> { SRCS.iter().chain(&EXTRA).map(|s| (s.to_string(), os::sim().fs.get(s))).collect() };
    let before = files();
    let q = os::launch_decy("/sim", &argv);
    let end = os::run();
    let texts = || before.iter().filter(|f| damaged.get(&f.0) == Some(&true)).map(|(n, b)| format!("{n}: {}", show(b.as_deref().unwrap_or_default()))).collect::<Vec<_>>().join("\n");
    let what = args.join(" ");
    if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
        return cx.fail("no-progress", format!("decy {what} did not end: {end:?}\n{}", texts()));
    }
    let pr = &os::sim().procs[q];
    let (out, err, exit) = (String::from_utf8_lossy(&pr.stdout).into_owned(), String::from_utf8_lossy(&pr.stderr).into_owned(), pr.exit);
    let touched = damaged.iter().any(|(f, d)| *d && (op["on"].is_null() || op["on"].as_array().is_some_and(|o| o.iter().any(|x| x.as_str() == Some(f)))));
    cx.nontrivial |= touched;
    if err.contains("panicked") || out.contains("panicked at") {
        return cx.fail("panic", format!("decy {what} panicked: {err}\n{}", texts()));
    }
    let code = match exit {
        Some(os::Exit::Code(c)) => c,
        other => return cx.fail("died", format!("decy {what} ended with {other:?}: {err}\n{}", texts())),
    };
    if code != 0 && err.trim().is_empty() && out.trim().is_empty() {
        return cx.fail("silent-failure", format!("decy {what} ended with status {code} without saying why\n{}", texts()));
    }
    if op["live"].is_null() && files() != before {
        return cx.fail("input-changed", format!("decy {what} changed one of its input files\n{}", texts()));
    }
    match (args[0].as_str(), code) {
        ("audit", _) => cx.probe("audited"),
        ("transpile-project", 0) => cx.probe("project_ok"),
        ("transpile-project", _) => cx.probe("project_failed"),
        ("transpile", 0) if touched => cx.probe("translated_damaged"),
        ("transpile", _) if touched => cx.probe("rejected_damaged"),
        _ => {}
    }
    if !op["live"].is_null() {
        return;
    }
    // text that is no text is an error wherever it has to be read
    let broken = |f: &str| before.iter().any(|x| x.0 == f && x.1.as_ref().is_some_and(|b| std::str::from_utf8(b).is_err()));
    if let Some(on) = op["on"].as_array() {
        if code == 0 && on.iter().filter_map(|x| x.as_str()).any(broken) {
            return cx.fail("garbage-accepted", format!("decy {what} succeeded on a file that is not text\n{}", texts()));
        }
    }
    if args[0] == "transpile-project" && code == 0 && !args.contains(&"--dry-run".into()) {
        for s in SRCS.iter().filter(|s| broken(s)) {
            return cx.fail("garbage-accepted", format!("decy {what} succeeded although {s} is not text\n{}", texts()));
        }
    }
    if args.get(1).map(|s| s.as_str()) == Some("generate-traces") && code == 0 {
        cx.probe("traces");
        // every undamaged file that does not include damaged ones has its trace, whatever is wrong with the others
        let got = String::from_utf8_lossy(&os::sim().fs.get("/sim/o/t.jsonl").unwrap_or_default()).into_owned();
        let pure = |f: &str| damaged.get(f) == Some(&false);
        let headers = EXTRA[..2].iter().all(|h| pure(h));
        for s in SRCS.iter().filter(|s| pure(s)) {
            let text = String::from_utf8_lossy(&os::sim().fs.get(s).unwrap_or_default()).into_owned();
            if text.contains("#include \"") && !headers {
                continue;
            }
            let (p2, t2) = (s.to_string(), text.clone());
            let ok = calm("/sim", move || decy_core::transpile_with_includes(&t2, Path::new(&p2).parent()).ok()).flatten();
            let ok = ok.is_some_and(|w| os::progs::verdict(&w).is_none() && !w.contains("unsafe {") && !w.contains("unsafe{"));
            let has = got.lines().filter_map(|l| serde_json::from_str::<Value>(l).ok()).any(|v| v["c_snippet"].as_str() == Some(&text));
            if ok && !has {
                return cx.fail("damage-spreads", format!("{s} is fine, but has no trace because of another file\n{}", texts()));
            }
        }
    }
}
