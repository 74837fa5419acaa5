//! P02: a project translation that reports success leaves, for every source, its own complete
//! and current translation, whatever happened before.
use crate::corpus;
use crate::os::{self, Rng};
use crate::plan::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "P02",
    gen,
    exec,
    quick: 2400,
    thorough: 150_000,
    fixed: no_fixed,
    rule: "a run is a history of edits, header edits, deletions, damaged or deleted outputs, cache removal and project translations (cached or not, one or two at a time, an editor saving files meanwhile) under disk faults, crashes and power loss, ending with one quiet translation; non-trivial: at least two translations and either a fault fired, a cache hit was possible or two processes overlapped; distinct by event-log hash",
    level: "exploration",
    real: &["decy CLI transpile-project", "decy-core pipeline and cache", "decy-parser + libclang", "walkdir, serde_json, indicatif, Rust std"],
    stub: &["file system with durability model, clock, scheduler, randomness, processes (simulated)", "clang driver (stub)"],
    assume: &[
        "an editor saves a file in one step and durably",
        "the journal keeps metadata operations in order; file data may be lost or torn until synced",
        "reference translation: the library translation of the text on disk with includes resolved next to the file",
    ],
    must: &["run_ok", "run_after_crash_ok", "cache_hit_possible", "header_edit", "output_removed", "collision", "run_failed_under_fault", "concurrent_runs", "editor_during_run", "disguised_edit"],
};

const DIRS: &[&str] = &["", "", "sub/", "sub/deep/", "lib/", "build/", ".hid/"];
const STEMS: &[&str] = &["a", "b", "main", "x.y", "sp ace", "Ä"];
const EXTS: &[&str] = &["c", "c", "c", "cpp", "cc", "cu", "cxx"];

fn src_path(r: &mut Rng) -> String {
    format!("{}{}.{}", r.pick(DIRS), r.pick(STEMS), r.pick(EXTS))
}
fn hdr_for(path: &str, r: &mut Rng) -> (String, String) {
    // (include text, path of the header)
    let dir = path.rfind('/').map(|i| &path[..i + 1]).unwrap_or("");
    let name = *r.pick(&["h.h", "h.h", "h.h", "t.inc", "u.hpp"]);
    if dir.is_empty() || r.chance(1, 2) {
        (name.into(), format!("{dir}{name}"))
    } else {
        (format!("../{name}"), format!("{}{name}", parent(dir)))
    }
}
fn parent(dir: &str) -> String {
    let d = dir.trim_end_matches('/');
    d.rfind('/').map(|i| d[..i + 1].to_string()).unwrap_or_default()
}

fn gen(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = swarm(r, 1500);
    cfg.step_limit = 60_000;
    let mut ops: Vec<Value> = vec![];
    let mut known: Vec<String> = vec![];
    let mut hdrs: BTreeSet<String> = BTreeSet::new();
    let mut ver = 0;
    let mut id = 0u32;
    let edit = |r: &mut Rng, known: &mut Vec<String>, hdrs: &mut BTreeSet<String>, ver: &mut u64, out: &mut Vec<Value>| {
        *ver += 1;
        if !hdrs.is_empty() && r.chance(1, 4) {
            let h = r.pick(&hdrs.iter().cloned().collect::<Vec<_>>()).clone();
            let mut t = corpus::small(r, &format!("hv{ver}"));
            let dir = h.rfind('/').map(|i| &h[..i + 1]).unwrap_or("").to_string();
            let level = h[dir.len()..].strip_prefix('n').and_then(|x| x.strip_suffix(".h")).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            if r.chance(1, 3) && level < 9 {
                // a chain of headers, each including the next
                let deep = level + 1 + if r.chance(1, 3) { r.below(6) } else { 0 };
                for l in (level + 1..=deep).rev() {
                    let n = format!("{dir}n{l}.h");
                    let more = if l < deep { corpus::inc(r, &format!("n{}.h", l + 1)) } else { String::new() };
                    out.push(json!({"k": "put", "path": n, "text": format!("{more}{}", corpus::small(r, &format!("nv{l}x{ver}"))), "h": true}));
                    hdrs.insert(n);
                }
                t = format!("{}{t}", corpus::inc(r, &format!("n{}.h", level + 1)));
            }
            out.push(json!({"k": "put", "path": h, "text": t, "h": true}));
            return;
        }
        let p = if !known.is_empty() && r.chance(1, 2) { r.pick(known).clone() } else { src_path(r) };
        let mut t = match r.below(20) {
            0 => "int broken( {\n".to_string(),
            1 => corpus::program(r),
            2 => String::new(),
            _ => corpus::small(r, &format!("v{ver}")),
        };
        if r.chance(1, 3) {
            let (inc, full) = hdr_for(&p, r);
            t = format!("{}{t}", corpus::inc(r, &inc));
            if !hdrs.contains(&full) {
                out.push(json!({"k": "put", "path": full, "text": corpus::small(r, &format!("hv{ver}")), "h": true}));
                hdrs.insert(full);
            }
        }
        if !known.contains(&p) {
            known.push(p.clone());
        }
        out.push(json!({"k": "put", "path": p, "text": t}));
    };
    let n0 = if r.chance(1, 16) { 24 } else { 1 + r.below(4) };
    for _ in 0..n0 {
        edit(r, &mut known, &mut hdrs, &mut ver, &mut ops);
    }
    let n = 3 + r.below(8);
    let faulty = r.chance(2, 3);
    for _ in 0..n {
        match r.below(13) {
            0..=5 => {
                let cache = r.chance(4, 5);
                let out = if r.chance(1, 6) { "/sim/out2" } else { "/sim/out" };
                let mut run = json!({"k": "run", "id": id, "cache": cache, "out": out, "rel": r.chance(1, 5), "quiet": r.chance(1, 5)});
                if r.chance(1, 5) {
                    run["twin"] = json!({"id": id + 1, "out": *r.pick(&["/sim/out", "/sim/out2"]), "cache": true});
                }
                if r.chance(1, 4) {
                    let mut e = vec![];
                    for _ in 0..1 + r.below(2) {
                        edit(r, &mut known, &mut hdrs, &mut ver, &mut e);
                    }
                    run["editor"] = json!(e);
                }
                if faulty && r.chance(1, 2) {
                    for _ in 0..1 + r.below(2) {
                        let k = if r.chance(1, 3) { *r.pick(CRASHES) } else { *r.pick(FILE_FAULTS) };
                        let f = *r.pick(&["", "", "", "/out", ".decy", "cache.json", ".c", ".h", "/sim/p"]);
                        let at = if f.is_empty() { r.below(220) } else { r.below(12) };
                        cfg.faults.push(fault(id + r.below(2) as u32, at as u32, k, f));
                    }
                }
                ops.push(run);
                id += 2;
            }
            6 if r.chance(1, 2) => {
                // an edit that neither the length nor (maybe) the time stamp gives away
                let p = if !hdrs.is_empty() && r.chance(1, 2) { r.pick(&hdrs.iter().cloned().collect::<Vec<_>>()).clone() } else { r.pick(&known).clone() };
                ops.push(json!({"k": "flip", "path": p, "at": r.below(101), "keep_mtime": r.chance(2, 3)}));
            }
            6..=8 => edit(r, &mut known, &mut hdrs, &mut ver, &mut ops),
            9 => {
                if !known.is_empty() {
                    let p = r.pick(&known).clone();
                    ops.push(json!({"k": "rmout", "path": p}));
                }
            }
            10 => {
                if !known.is_empty() {
                    let p = r.pick(&known).clone();
                    ops.push(json!({"k": "badout", "path": p, "text": if r.chance(1, 2) { "" } else { "// half a fi" }}));
                }
            }
            11 => {
                if !hdrs.is_empty() && r.chance(1, 4) {
                    let p = r.pick(&hdrs.iter().cloned().collect::<Vec<_>>()).clone();
                    ops.push(json!({"k": "del", "path": p}));
                } else if known.len() > 1 {
                    let i = r.below(known.len() as u64) as usize;
                    let p = known.remove(i);
                    ops.push(json!({"k": "del", "path": p}));
                }
            }
            _ => ops.push(match r.below(5) {
                0 => json!({"k": "rmcache"}),
                1 => json!({"k": "power"}),
                2 => json!({"k": "mkdirc", "path": format!("{}dir.c", r.pick(DIRS))}),
                3 => json!({"k": "sleep", "s": 1 + r.below(5)}),
                _ => json!({"k": "settle"}),
            }),
        }
    }
    ops.push(json!({"k": "run", "id": id, "cache": true, "out": "/sim/out", "final": true}));
    plan("P02", cfg, ops, Value::Null)
}

fn is_src(p: &str) -> bool {
    p.rsplit('/').next().and_then(|n| n.rsplit_once('.')).map_or(false, |(s, e)| !s.is_empty() && ["c", "cpp", "cc", "cu", "cxx"].contains(&e))
}
fn stem(rel: &str) -> String {
    rel.rfind('.').map(|i| rel[..i].to_string()).unwrap_or_else(|| rel.to_string())
}

/// Current sources with their reference translation.
fn reference() -> BTreeMap<String, Result<String, String>> {
    let files: Vec<(String, Vec<u8>)> = os::sim().fs.files("/sim/p").into_iter().filter(|f| is_src(&f.0)).collect();
    let n = files.len();
    let r = calm("/sim", move || {
        let mut m = BTreeMap::new();
        for (p, data) in files {
            let dir = std::path::Path::new(&p).parent().unwrap().to_path_buf();
            let t = match String::from_utf8(data) {
                Ok(s) => decy_core::transpile_with_includes(&s, Some(&dir)).map_err(|e| format!("{e:#}")),
                Err(_) => Err("not UTF-8".into()),
            };
            m.insert(p["/sim/p/".len()..].to_string(), t);
        }
        m
    });
    let _ = n;
    r.unwrap_or_default()
}

/// Does `out` hold every wanted translation? `alts` are other acceptable versions per source.
fn check_out(out: &str, want: &BTreeMap<String, Vec<String>>) -> Result<(), String> {
    let have: BTreeMap<String, Vec<u8>> = os::sim().fs.files(out).into_iter().map(|(p, d)| (p[out.len() + 1..].to_string(), d)).collect();
    let mut groups: BTreeMap<String, Vec<&String>> = BTreeMap::new();
    for s in want.keys() {
        groups.entry(stem(s)).or_default().push(s);
    }
    for (st, members) in groups {
        if members.len() == 1 {
            let s = members[0];
            let w = &want[s];
            // a sole owner of its name is expected under that name
            let path = format!("{st}.rs");
            let alt: Vec<&String> = have.keys().filter(|k| k.starts_with(&format!("{s}.")) && k.ends_with(".rs")).collect();
            let ok = |k: &str| have.get(k).map_or(false, |d| w.iter().any(|x| x.as_bytes() == &d[..]));
            if !ok(&path) && !alt.iter().any(|k| ok(k)) {
                return Err(match have.get(&path) {
                    None => format!("no output {out}/{path} for source {s}"),
                    Some(d) => format!("output {out}/{path} of source {s} is {} but its translation is {}", show(d), show(w[0].as_bytes())),
                });
            }
        } else {
            // several sources want the same name: each must have an output of its own
            let cands: Vec<&String> = have.keys().filter(|k| k.ends_with(".rs") && k.starts_with(&st)).collect();
            let mut used: Vec<Option<usize>> = vec![None; cands.len()];
            fn assign(i: usize, m: &[&String], c: &[&String], used: &mut Vec<Option<usize>>, seen: &mut Vec<bool>, f: &dyn Fn(&str, &str) -> bool) -> bool {
                for k in 0..c.len() {
                    if !seen[k] && f(m[i], c[k]) {
                        seen[k] = true;
                        if used[k].map_or(true, |j| assign(j, m, c, used, seen, f)) {
                            used[k] = Some(i);
                            return true;
                        }
                    }
                }
                false
            }
            let f = |s: &str, k: &str| have.get(k).map_or(false, |d| want[s].iter().any(|x| x.as_bytes() == &d[..]));
            for i in 0..members.len() {
                let mut seen = vec![false; cands.len()];
                if !assign(i, &members, &cands, &mut used, &mut seen, &f) {
                    return Err(format!("sources {members:?} share an output name and {} has no output of its own (outputs: {cands:?})", members[i]));
                }
            }
        }
    }
    Ok(())
}

fn start(op: &Value) -> usize {
    os::sim().tag = vu(op, "id") as u32;
    let out = vstr(op, "out");
    let (cwd, inp) = if vb(op, "rel") { ("/sim/p", ".") } else { ("/sim", "/sim/p") };
    let mut a = vec!["transpile-project", inp, "-o", &out];
    if !vb(op, "cache") {
        a.push("--no-cache");
    }
    if vb(op, "quiet") {
        a.push("--quiet");
    }
    os::launch_decy(cwd, &a)
}

fn exec(p: &Plan, cx: &mut Ctx) {
    let mut runs = 0;
    let mut hot = false;
    let mut crashed_before = false;
    let t = |s: &os::Sim| s.mtime();
    for op in &p.ops {
        if cx.failed() {
            return;
        }
        let s = os::sim();
        let now = t(s);
        match op["k"].as_str().unwrap_or("") {
            "put" => {
                s.fs.put_durable(&format!("/sim/p/{}", vstr(op, "path")), vstr(op, "text").as_bytes(), now);
                if vb(op, "h") && runs > 0 {
                    cx.probe("header_edit");
                }
            }
            "flip" => {
                let f = format!("/sim/p/{}", vstr(op, "path"));
                if let Some(mut d) = s.fs.get(&f) {
                    let i0 = d.len() * vu(op, "at") as usize / 100;
                    if let Some(i) = (i0..d.len()).chain((0..i0).rev()).find(|i| d[*i].is_ascii_digit()) {
                        d[i] = if d[i] == b'9' { b'3' } else { d[i] + 1 };
                        let t = if vb(op, "keep_mtime") { s.fs.lookup(&f, true).map(|i| s.fs.cur[&i].mtime).unwrap_or(now) } else { now };
                        s.fs.put_durable(&f, &d, t);
                        cx.probe("disguised_edit");
                    }
                }
            }
            "del" => s.fs.remove(&format!("/sim/p/{}", vstr(op, "path")), now),
            "mkdirc" => s.fs.mkdirs(&format!("/sim/p/{}", vstr(op, "path")), now),
            "rmout" => {
                let f = format!("/sim/out/{}.rs", stem(&vstr(op, "path")));
                if s.fs.exists(&f) {
                    s.fs.remove(&f, now);
                    cx.probe("output_removed");
                }
            }
            "badout" => {
                let f = format!("/sim/out/{}.rs", stem(&vstr(op, "path")));
                if s.fs.exists(&f) {
                    s.fs.put_durable(&f, vstr(op, "text").as_bytes(), now);
                }
            }
            "rmcache" => s.fs.remove("/sim/p/.decy/cache/cache.json", now),
            "power" => {
                s.power_off();
                *s.fired.entry("power_between_runs".into()).or_insert(0) += 1;
            }
            "settle" => s.fs.settle(),
            "sleep" => s.now += vu(op, "s") * 1_000_000_000,
            "run" => {
                // every version of a source that exists while the run is going is acceptable
                let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
                let mut all_ok = true;
                let add = |want: &mut BTreeMap<String, Vec<String>>, m: BTreeMap<String, Result<String, String>>| {
                    let mut ok = true;
                    for (k, v) in m {
                        match v {
                            Ok(x) => want.entry(k).or_default().push(x),
                            Err(_) => {
                                ok = false;
                                want.entry(k).or_default();
                            }
                        }
                    }
                    ok
                };
                all_ok &= add(&mut want, reference());
                let fired0: u64 = os::sim().fired.iter().filter(|(k, _)| !k.starts_with("clock") && !k.starts_with("power_b")).map(|x| *x.1).sum();
                let had_cache = os::sim().fs.exists("/sim/p/.decy/cache/cache.json");
                if had_cache && vb(op, "cache") && runs > 0 {
                    cx.probe("cache_hit_possible");
                    hot = true;
                }
                if vb(op, "final") {
                    let s = os::sim();
                    s.faults_on = false;
                    s.cfg.short_io = 0;
                    s.fs.capacity = None;
                }
                let q = start(op);
                let mut qs = vec![(q, vstr(op, "out"))];
                if op["twin"].is_object() {
                    cx.probe("concurrent_runs");
                    hot = true;
                    qs.push((start(&op["twin"]), vstr(&op["twin"], "out")));
                }
                let editing = op["editor"].is_array();
                if editing {
                    cx.probe("editor_during_run");
                    hot = true;
                    // the intermediate states of the tree are acceptable inputs, too
                    let saves: Vec<(String, String)> = op["editor"].as_array().unwrap().iter().map(|e| (vstr(e, "path"), vstr(e, "text"))).collect();
                    os::sim().tag = u32::MAX - 1;
                    os::launch("editor", "/sim", move || {
                        for (p, text) in saves {
                            let _b = os::Busy::new();
                            let s = os::sim();
                            s.yield_now();
                            let now = s.mtime();
                            s.fs.put_durable(&format!("/sim/p/{p}"), text.as_bytes(), now);
                        }
                        0
                    });
                }
                let end = os::run();
                runs += 1;
                let s = os::sim();
                s.fs.capacity = None;
                let fired1: u64 = s.fired.iter().filter(|(k, _)| !k.starts_with("clock") && !k.starts_with("power_b")).map(|x| *x.1).sum();
                let faulted = fired1 > fired0;
                hot |= faulted;
                if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
                    return cx.fail("no-progress", format!("project translation did not end: {end:?}"));
                }
                let all_done = qs.iter().all(|(q, _)| os::sim().procs[*q].exit == Some(os::Exit::Code(0)));
                for (q, out) in qs {
                    let exit = os::sim().procs[q].exit;
                    if os::sim().procs[q].stderr.windows(8).any(|w| w == b"panicked") {
                        return cx.fail("panic", format!("decy panicked: {}", show(&os::sim().procs[q].stderr.clone())));
                    }
                    match exit {
                        Some(os::Exit::Code(0)) => {
                            cx.probe("run_ok");
                            if crashed_before {
                                cx.probe("run_after_crash_ok");
                            }
                            if editing || !all_done {
                                // judged by the next quiet run
                                continue;
                            }
                            let bad: Vec<_> = want.iter().filter(|w| w.1.is_empty()).map(|w| w.0.clone()).collect();
                            if !bad.is_empty() {
                                return cx.fail("success-despite-untranslatable", format!("exit status 0 although {bad:?} cannot be translated"));
                            }
                            let mut g: BTreeMap<String, usize> = BTreeMap::new();
                            for k in want.keys() {
                                *g.entry(stem(k)).or_insert(0) += 1;
                            }
                            if g.values().any(|n| *n > 1) {
                                cx.probe("collision");
                            }
                            if let Err(e) = check_out(&out, &want) {
                                return cx.fail("success-without-current-output", format!("transpile-project exited 0 (run {}), but {e}", vu(op, "id")));
                            }
                        }
                        Some(os::Exit::Crashed) | None => {
                            crashed_before = true;
                            cx.probe("run_crashed");
                        }
                        other => {
                            if faulted {
                                cx.probe("run_failed_under_fault");
                            } else if all_ok && !editing && !op["twin"].is_object() {
                                let err = os::sim().procs[q].stderr.clone();
                                return cx.fail("stuck", format!("all sources translate and nothing fails, but transpile-project ended with {other:?}: {}", show(&err)));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    cx.nontrivial = runs >= 2 && hot;
}
