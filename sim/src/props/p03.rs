//! P03: a cache lookup never answers with anything but the result stored for exactly the present
//! content. P04: whatever interrupts or races with saving, a later load finds one complete saved
//! state.
use crate::corpus;
use crate::os::{self, Rng};
use crate::plan::*;
use decy_core::{ProjectContext, TranspilationCache, TranspiledFile};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

pub const P03: Prop = Prop {
    id: "P03",
    gen: gen3,
    exec: exec3,
    quick: 6000,
    thorough: 600_000,
    fixed: no_fixed,
    rule: "a run is a history of file edits (same-length, same-timestamp, last-byte, nested header, deletion, re-creation), stores, lookups, saves and reloads in fresh processes under read faults and clock jumps; non-trivial: at least one lookup of a stored file whose content or headers changed and one of an unchanged one; distinct by event-log hash",
    level: "exploration",
    real: &["decy-core cache, transpile_file, dependency extraction", "decy-parser + libclang", "serde_json, sha2, Rust std"],
    stub: &["file system, clock, scheduler, randomness, processes (simulated)", "clang driver (stub)"],
    assume: &["content is not edited between translating a file and storing the result (the interface takes them separately)"],
    must: &["hit", "miss_after_edit", "miss_after_header_edit", "miss_after_nested_edit", "miss_deleted", "hit_after_reload", "read_fault_miss", "reverted", "absent"],
};
pub const P04: Prop = Prop {
    id: "P04",
    gen: gen4,
    exec: exec4,
    quick: 6000,
    thorough: 600_000,
    fixed: no_fixed,
    rule: "a run is a sequence of sessions (load, store, save) by one, two or three processes or threads on one cache directory, under disk faults, crashes at any system call, power loss and concurrent readers; non-trivial: a save was interrupted, failed, or overlapped another process; distinct by event-log hash",
    level: "exploration",
    real: &["decy-core cache load/save", "serde_json, Rust std"],
    stub: &["file system with durability model, clock, scheduler, randomness, processes (simulated)"],
    assume: &["the journal keeps metadata operations in order; file data may be lost or torn until synced"],
    must: &["save_ok", "save_failed", "crashed_in_save", "power_after_save", "reader_overlap", "loaded_old", "loaded_new", "writers_overlap"],
};

#[derive(Clone, Debug, PartialEq)]
struct Flat {
    src: PathBuf,
    code: String,
    deps: Vec<PathBuf>,
    fns: Vec<String>,
    ffi: String,
}
fn flat(t: &TranspiledFile) -> Flat {
    Flat { src: t.source_path.clone(), code: t.rust_code.clone(), deps: t.dependencies.clone(), fns: t.functions_exported.clone(), ffi: t.ffi_declarations.clone() }
}

// =================================================================== P03
const FILES: &[&str] = &["/sim/p/a.c", "/sim/p/b.c", "/sim/p/s/a.c", "/sim/p/s p.c"];
const HDRS: &[&str] = &["/sim/p/h.h", "/sim/p/s/h.h", "/sim/p/n.h", "/sim/p/s/n.h", "/sim/p/t.inc", "/sim/p/s/u.hpp", "/sim/p/n2.h", "/sim/p/n3.h", "/sim/p/n4.h", "/sim/p/s/n2.h"];
/// the header a header may include: a chain of up to five
fn next_hdr(h: &str) -> Option<&'static str> {
    Some(match &h[h.rfind('/').unwrap() + 1..] {
        "h.h" => "n.h",
        "n.h" => "n2.h",
        "n2.h" if h.contains("/s/") => "../n3.h",
        "n2.h" => "n3.h",
        "n3.h" => "n4.h",
        _ => return None,
    })
}

fn body(r: &mut Rng, ver: u64) -> String {
    let mut t = corpus::small(r, &format!("v{ver}"));
    match r.below(8) {
        0 => t.push_str(&format!("// {}\n", "x".repeat(r.below(9000) as usize + 70))),
        1 => t.push_str(&format!("/*{}*/\n", " ".repeat(70_000))),
        _ => {}
    }
    t
}
fn gen3(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = swarm(r, 600);
    cfg.step_limit = 60_000;
    cfg.preempts.clear();
    let mut ops: Vec<Value> = vec![];
    let mut ver = 0u64;
    let put = |r: &mut Rng, ver: &mut u64| -> Vec<Value> {
        *ver += 1;
        let mut v = vec![];
        if r.chance(1, 3) {
            let h = *r.pick(HDRS);
            let mut t = body(r, *ver);
            if let Some(n) = next_hdr(h).filter(|_| r.chance(1, 2)) {
                t = format!("{}{t}", corpus::inc(r, n));
            }
            v.push(json!({"k": "put", "path": h, "text": t}));
        } else {
            let f = *r.pick(FILES);
            let mut t = body(r, *ver);
            match r.below(6) {
                0 | 1 => t = format!("{}{t}", corpus::inc(r, "h.h")),
                2 => t = format!("#include <stdio.h>\n  #include \"h.h\"\n#include \"n.h\"\n{t}"),
                3 if f.contains("/s/") => t = format!("{}{t}", { let n = *r.pick(&["../h.h", "u.hpp", "./u.hpp", "../t.inc"]); corpus::inc(r, n) }),
                3 => t = format!("{}{t}", { let n = *r.pick(&["t.inc", "s/u.hpp", "s/../t.inc"]); corpus::inc(r, n) }),
                _ => {}
            }
            v.push(json!({"k": "put", "path": f, "text": t}));
        }
        v
    };
    for h in HDRS {
        ver += 1;
        let inc = next_hdr(h).filter(|_| r.chance(2, 3)).map(|n| format!("#include \"{n}\"\n")).unwrap_or_default();
        ops.push(json!({"k": "put", "path": h, "text": format!("{inc}{}", corpus::small(r, &format!("h{ver}")))}));
    }
    for f in FILES {
        ver += 1;
        let inc = if r.chance(1, 2) { "#include \"h.h\"\n" } else { "" };
        ops.push(json!({"k": "put", "path": f, "text": format!("{inc}{}", body(r, ver))}));
    }
    let synth = r.chance(1, 3);
    let n = 8 + r.below(22);
    let mut id = 0u32;
    for _ in 0..n {
        let f = *r.pick(FILES);
        let any = if r.chance(1, 2) { *r.pick(FILES) } else { *r.pick(HDRS) };
        match r.below(16) {
            0..=2 => ops.push(json!({"k": "store", "path": f, "id": id, "synth": synth, "deps": (0..r.below(5)).map(|_| { let from = if r.chance(1, 6) { FILES } else { HDRS }; *r.pick(from) }).collect::<Vec<_>>()})),
            3..=6 => ops.push(json!({"k": "get", "path": f, "id": id})),
            7 | 8 => ops.extend(put(r, &mut ver)),
            9 if r.chance(1, 2) => ops.push(json!({"k": "reform", "path": any, "how": r.below(8), "keep_mtime": r.chance(1, 2)})),
            9 => ops.push(json!({"k": "flip", "path": any, "at": *r.pick(&[0u64, 50, 99, 100]), "keep_mtime": r.chance(1, 2)})),
            10 => ops.push(json!({"k": "revert", "path": any})),
            11 => ops.push(json!({"k": "del", "path": any})),
            12 => ops.push(json!({"k": "append", "path": any, "text": *r.pick(&["\n", " ", "// c\n", "\t\n"])})),
            13 => ops.push(json!({"k": "reload", "id": id})),
            14 => ops.push(json!({"k": "touch", "path": any})),
            _ => ops.push(match r.below(4) {
                0 => json!({"k": "sleep", "s": 1 + r.below(4)}),
                1 => json!({"k": "clear"}),
                2 => json!({"k": "getabsent", "path": format!("/sim/p/zz{}.c", r.below(3)), "id": id}),
                _ => json!({"k": "stats"}),
            }),
        }
        if r.chance(1, 10) {
            let k = *r.pick(&["eio_read", "eacces_read", "open_fail", "emfile", "eintr", "short", "eio"]);
            cfg.faults.push(fault(id, r.below(6) as u32, k, ""));
        }
        id += 1;
    }
    let crowd = if r.chance(1, 10) { 5 + r.below(30) } else { 0 };
    if crowd > 0 {
        // many files at once, then looked up in whatever order, before or after a reload
        let mut names: Vec<String> = (0..crowd).map(|i| format!("/sim/p/m/{i}.c")).collect();
        for n in &names {
            ops.push(json!({"k": "put", "path": n, "text": format!("int m{}(void) {{ return 1; }}\n", &n[9..n.len() - 2])}));
            ops.push(json!({"k": "store", "path": n, "id": id, "synth": true, "deps": [*r.pick(HDRS)]}));
        }
        if r.chance(1, 2) {
            ops.push(json!({"k": "reload", "id": id}));
        }
        while !names.is_empty() {
            let n = names.swap_remove(r.below(names.len() as u64) as usize);
            ops.push(json!({"k": "get", "path": n, "id": 100_000}));
        }
    }
    // end with a quiet look at everything
    for f in FILES {
        ops.push(json!({"k": "get", "path": f, "id": 100_000}));
    }
    plan("P03", cfg, ops, Value::Null)
}

struct M3 {
    cache: Option<TranspilationCache>,
    gets: usize,
    hits: usize,
    /// possible entries: what was stored and the content of all files then
    model: BTreeMap<String, Vec<(Flat, BTreeMap<String, Vec<u8>>)>>,
    reloaded: bool,
    /// files whose latest result was certainly stored
    sure: std::collections::BTreeSet<String>,
}
/// every header the translation of `path` can depend on, as the scenario defines inclusion
fn closure(path: &str, files: &BTreeMap<String, Vec<u8>>) -> Vec<String> {
    let mut out = vec![];
    let mut todo = vec![path.to_string()];
    while let Some(p) = todo.pop() {
        if out.contains(&p) {
            continue;
        }
        out.push(p.clone());
        let Some(d) = files.get(&p) else { continue };
        let dir = &p[..p.rfind('/').unwrap()];
        for l in String::from_utf8_lossy(d).lines() {
            if let Some(n) = corpus::included(l) {
                let parts = os::vfs::Vfs::split(&format!("{dir}/{n}"));
                todo.push(format!("/{}", parts.join("/")));
            }
        }
    }
    out
}
fn tree() -> BTreeMap<String, Vec<u8>> {
    os::sim().fs.files("/sim/p").into_iter().filter(|f| !f.0.contains("/.decy")).collect()
}

fn exec3(p: &Plan, cx: &mut Ctx) {
    os::sim().fs.mkdirs("/sim/p/.decy/cache", 0);
    os::sim().fs.mkdirs("/sim/p/s", 0);
    let mut m = M3 { cache: Some(TranspilationCache::with_directory(Path::new("/sim/p/.decy/cache"))), gets: 0, hits: 0, model: BTreeMap::new(), reloaded: false, sure: Default::default() };
    let mut past: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    let (mut changed_lookups, mut same_lookups) = (0, 0);
    for op in &p.ops {
        if cx.failed() {
            return;
        }
        let path = vstr(op, "path");
        let s = os::sim();
        let now = s.mtime();
        s.tag = op["id"].as_u64().unwrap_or(u32::MAX as u64) as u32;
        if vu(op, "id") >= 100_000 {
            s.faults_on = false;
            s.cfg.short_io = 0;
        }
        let fired0: u64 = s.fired.iter().filter(|f| f.0 != "clock_jump").map(|f| f.1).sum();
        let faulted = || os::sim().fired.iter().filter(|f| f.0 != "clock_jump").map(|f| *f.1).sum::<u64>() > fired0;
        let mut edit = |new: Vec<u8>, t: i128| {
            if let Some(d) = os::sim().fs.get(&path) {
                past.entry(path.clone()).or_default().push(d);
            }
            os::sim().fs.put_durable(&path, &new, t);
        };
        match op["k"].as_str().unwrap_or("") {
            "put" => edit(vstr(op, "text").into_bytes(), now),
            "flip" => {
                if let Some(mut d) = s.fs.get(&path) {
                    // change one digit or letter, keeping the length (and maybe the time stamp)
                    let n = d.len();
                    if n > 0 {
                        let i0 = ((n - 1) as u64 * vu(op, "at") / 100) as usize;
                        let i = (i0..n).chain((0..i0).rev()).find(|i| d[*i].is_ascii_digit() || d[*i] == b' ' || d[*i] == b'x');
                        if let Some(i) = i {
                            d[i] = match d[i] {
                                b'9' => b'3',
                                b' ' => b'\t',
                                b'x' => b'w',
                                c => c + 1,
                            };
                            let t = if vb(op, "keep_mtime") { s.fs.lookup(&path, true).map(|i| s.fs.cur[&i].mtime).unwrap_or(now) } else { now };
                            edit(d, t);
                        }
                    }
                }
            }
            "reform" => {
                // change the form of the text rather than its tokens
                if let Some(d) = s.fs.get(&path) {
                    let old = String::from_utf8_lossy(&d).into_owned();
                    let new = match vu(op, "how") {
                        0 if old.contains('\r') => old.replace("\r\n", "\n"),
                        0 => old.replace('\n', "\r\n"),
                        1 => format!("\n{old}"),
                        2 => format!(" {old}"),
                        3 => old.trim_end().to_string(),
                        4 => old.replacen("\n", "\n\n", 1),
                        5 => old.replacen(' ', "  ", 1),
                        6 => old.replacen(';', "; // note\n", 1),
                        _ => old.replace("f_v", "F_v").replace("s += i", "S += i"),
                    };
                    let t = if vb(op, "keep_mtime") { s.fs.lookup(&path, true).map(|i| s.fs.cur[&i].mtime).unwrap_or(now) } else { now };
                    edit(new.into_bytes(), t);
                }
            }
            "append" => {
                if let Some(mut d) = s.fs.get(&path) {
                    d.extend_from_slice(vstr(op, "text").as_bytes());
                    edit(d, now);
                }
            }
            "revert" => {
                if let Some(d) = past.get(&path).and_then(|v| v.last().cloned()) {
                    cx.probe("reverted");
                    os::sim().fs.put_durable(&path, &d, now);
                }
            }
            "touch" => {
                if let Some(d) = s.fs.get(&path) {
                    os::sim().fs.put_durable(&path, &d, now + 5_000_000_000);
                }
            }
            "del" => {
                if let Some(d) = s.fs.get(&path) {
                    past.entry(path.clone()).or_default().push(d);
                }
                s.fs.remove(&path, now);
            }
            "sleep" => s.now += vu(op, "s") * 1_000_000_000,
            "clear" => {
                m.cache.as_mut().unwrap().clear();
                m.model.clear();
                m.sure.clear();
                m.gets = 0;
                m.hits = 0;
            }
            "stats" => {}
            "store" => {
                let before = tree();
                let synth = vb(op, "synth");
                let deps: Vec<PathBuf> = op["deps"].as_array().map(|a| a.iter().map(|x| PathBuf::from(x.as_str().unwrap())).collect()).unwrap_or_default();
                let mut cache = m.cache.take().unwrap();
                let keep = cache.clone();
                let pb = PathBuf::from(&path);
                let tag = format!("// {path} {} \"quoted\" \\ é\n{}", vu(op, "id"), "line\n".repeat(3));
                let (r, _) = stormy("/sim", move || {
                    let t = if synth {
                        Some(TranspiledFile::new(pb.clone(), tag.clone(), deps, vec![format!("f{}", tag.len()), "g".into()], "extern \"C\" {}\n".into()))
                    } else {
                        decy_core::transpile_file(&pb, &ProjectContext::new()).ok()
                    };
                    if let Some(t) = &t {
                        cache.insert(&pb, t);
                    }
                    (cache, t.as_ref().map(flat))
                });
                let Some((cache, t)) = r else {
                    m.cache = Some(keep);
                    return cx.fail("panic", "storing a result panicked".into());
                };
                m.cache = Some(cache);
                if let Some(t) = t {
                    let e = m.model.entry(path.clone()).or_default();
                    m.sure.remove(&path);
                    if faulted() {
                        e.push((t, before));
                    } else if before.contains_key(&path) && t.deps.iter().all(|d| before.contains_key(&*os::vfs::Vfs::split(d.to_str().unwrap()).iter().fold(String::new(), |a, c| format!("{a}/{c}")))) {
                        *e = vec![(t, before)];
                        m.sure.insert(path.clone());
                    } else {
                        // source or header missing: either nothing is stored, or the older entry stays
                        e.push((t, before));
                    }
                }
            }
            "reload" => {
                let cache = m.cache.clone().unwrap();
                let on = std::mem::replace(&mut os::sim().faults_on, false);
                let (r, _) = stormy("/sim", move || cache.save().map_err(|e| format!("{e:#}")));
                let (l, _) = stormy("/sim", move || TranspilationCache::load(Path::new("/sim/p/.decy/cache")).map_err(|e| format!("{e:#}")));
                os::sim().faults_on = on;
                match (r, l) {
                    (Some(Ok(())), Some(Ok(c))) => m.cache = Some(c),
                    (a, b) => return cx.fail("reload-failed", format!("saving and loading the cache without any fault failed: {a:?} {:?}", b.map(|x| x.err()))),
                }
                m.gets = 0;
                m.hits = 0;
                m.reloaded = true;
            }
            "get" | "getabsent" => {
                let mut cache = m.cache.take().unwrap();
                let pb = PathBuf::from(&path);
                let (r, _) = stormy("/sim", move || {
                    let g = cache.get(&pb).map(flat);
                    (cache, g)
                });
                let Some((cache, got)) = r else { return cx.fail("panic", format!("looking up {path} panicked")) };
                m.cache = Some(cache);
                m.gets += 1;
                let hurt = faulted();
                let cur = tree();
                let entries = m.model.get(&path).cloned().unwrap_or_default();
                // which stored results are current now?
                let fresh: Vec<&(Flat, BTreeMap<String, Vec<u8>>)> = entries
                    .iter()
                    .filter(|(t, then)| {
                        let mut names = closure(&path, then);
                        if t.code.starts_with("// /sim/p") {
                            // synthetic: exactly the declared dependencies
                            names = vec![path.clone()];
                            names.extend(t.deps.iter().map(|d| d.to_str().unwrap().to_string()));
                        }
                        names.iter().all(|n| then.get(n) == cur.get(n)) && cur.contains_key(&path)
                    })
                    .collect();
                match &got {
                    Some(g) => {
                        m.hits += 1;
                        if !fresh.iter().any(|(t, _)| t == g) {
                            let why = if entries.iter().any(|(t, _)| t == g) {
                                let then = &entries.iter().find(|(t, _)| t == g).unwrap().1;
                                let ch: Vec<_> = closure(&path, then).into_iter().filter(|n| then.get(n) != cur.get(n)).collect();
                                format!("stored before {ch:?} (or a declared dependency) changed")
                            } else {
                                "never stored for this file".to_string()
                            };
                            return cx.fail("stale-hit", format!("lookup of {path} answered with a result {why}: {}", show(g.code.as_bytes())));
                        }
                        cx.probe("hit");
                        if m.reloaded {
                            cx.probe("hit_after_reload");
                        }
                        same_lookups += 1;
                    }
                    None => {
                        if entries.is_empty() {
                            cx.probe("absent");
                        } else if hurt {
                            cx.probe("read_fault_miss");
                        } else if m.sure.contains(&path) && !fresh.is_empty() && fresh[0].0.deps.iter().all(|d| exists(d)) {
                            return cx.fail("lost-entry", format!("{path} and everything it depends on is unchanged since its result was stored, but the lookup is a miss"));
                        } else if fresh.is_empty() {
                            changed_lookups += 1;
                            let then = &entries[0].1;
                            if !cur.contains_key(&path) {
                                cx.probe("miss_deleted");
                            } else if then.get(&path) != cur.get(&path) {
                                cx.probe("miss_after_edit");
                            } else {
                                let c = closure(&path, then);
                                if c.iter().any(|n| n.ends_with("n.h") && then.get(n) != cur.get(n)) {
                                    cx.probe("miss_after_nested_edit");
                                } else {
                                    cx.probe("miss_after_header_edit");
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        if let Some(c) = &m.cache {
            let st = c.statistics();
            if st.hits != m.hits || st.hits + st.misses != m.gets {
                return cx.fail("statistics", format!("{} lookups, {} answered, but statistics say {} hits and {} misses", m.gets, m.hits, st.hits, st.misses));
            }
        }
    }
    cx.nontrivial = changed_lookups > 0 && same_lookups > 0;
}
fn exists(d: &Path) -> bool {
    os::sim().fs.exists(d.to_str().unwrap_or(""))
}

// =================================================================== P04
fn gen4(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = swarm(r, 900);
    cfg.step_limit = 60_000;
    let mut ops = vec![];
    let mut id = 0u32;
    let mut ver = 0;
    let n = 3 + r.below(7);
    for _ in 0..n {
        let writers = *r.pick(&[1, 1, 1, 2, 2, 3]);
        let mut ws = vec![];
        for _ in 0..writers {
            let mut st = vec![];
            for _ in 0..r.below(4) {
                ver += 1;
                st.push(json!({"f": r.below(5), "v": ver, "big": if r.chance(1, 4) { r.below(9000) } else { 0 }}));
            }
            ws.push(json!({"id": id, "st": st, "saves": 1 + r.below(2), "thread": r.chance(1, 3), "fresh": r.chance(1, 4)}));
            if r.chance(2, 5) {
                let k = if r.chance(1, 2) { *r.pick(CRASHES) } else { *r.pick(FILE_FAULTS) };
                let f = *r.pick(&["", "", "cache.json", ".decy"]);
                cfg.faults.push(fault(id, r.below(if f.is_empty() { 30 } else { 8 }) as u32, k, f));
            }
            id += 1;
        }
        ops.push(json!({"k": "round", "w": ws, "reader": r.chance(1, 3)}));
        match r.below(10) {
            0 => ops.push(json!({"k": "power"})),
            1 => ops.push(json!({"k": "settle"})),
            2 => ops.push(json!({"k": "sleep", "s": 1})),
            _ => {}
        }
    }
    plan("P04", cfg, ops, Value::Null)
}
type State = BTreeMap<u64, u64>;
const DIR: &str = "/sim/p/.decy/cache";
fn fpath(f: u64) -> PathBuf {
    PathBuf::from(format!("/sim/p/f{f}.c"))
}
/// What a loaded cache holds: file -> version, or why it is damaged.
fn look(c: &mut TranspilationCache) -> Result<State, String> {
    os::unharmed(|| look_(c))
}
fn look_(c: &mut TranspilationCache) -> Result<State, String> {
    let mut st = State::new();
    for f in 0..5 {
        if let Some(t) = c.get(&fpath(f)) {
            let first = t.rust_code.lines().next().unwrap_or("");
            let v: u64 = first.strip_prefix("// v").and_then(|x| x.parse().ok()).ok_or_else(|| format!("entry for f{f} is {first:?}"))?;
            if t.source_path != fpath(f) || t.functions_exported != vec![format!("fn{v}")] || !t.rust_code.ends_with("// end\n") {
                return Err(format!("entry for f{f} does not hold what was stored"));
            }
            st.insert(f, v);
        }
    }
    if c.statistics().total_files != st.len() {
        return Err(format!("{} entries are recorded but only {} can be found", c.statistics().total_files, st.len()));
    }
    Ok(st)
}

fn exec4(p: &Plan, cx: &mut Ctx) {
    for f in 0..5 {
        os::sim().fs.put_durable(&format!("/sim/p/f{f}.c"), format!("int f{f};\n").as_bytes(), 0);
    }
    // states that may be on disk now; `all` every state any process ever started to save
    let mut now: Vec<State> = vec![State::new()];
    let mut all: Vec<State> = vec![State::new()];
    let mut last_ok: Option<State> = None;
    let mut exciting = false;
    let mut n_round = 0;
    for op in &p.ops {
        if cx.failed() {
            return;
        }
        match op["k"].as_str().unwrap_or("") {
            "power" => {
                os::sim().power_off();
                *os::sim().fired.entry("power_between_runs".into()).or_insert(0) += 1;
                if last_ok.is_some() {
                    cx.probe("power_after_save");
                }
                // journal: a successful save may not have reached the disk yet
                now = all.clone();
            }
            "settle" => os::sim().fs.settle(),
            "sleep" => os::sim().now += 1_000_000_000,
            "round" => {
                n_round += 1;
                // log of what the writers did: (writer, event, state)
                let log: Arc<Mutex<Vec<(usize, String, State)>>> = Arc::default();
                let fired0 = os::sim().fired.clone();
                let ws = op["w"].as_array().cloned().unwrap_or_default();
                let mut qs = vec![];
                let one = |i: usize, w: &Value, log: Arc<Mutex<Vec<(usize, String, State)>>>| {
                    let w = w.clone();
                    move || {
                        let note = |e: &str, s: &State| {
                            let _b = os::Busy::new();
                            log.lock().unwrap().push((i, e.to_string(), s.clone()));
                        };
                        let loaded = if vb(&w, "fresh") { Ok(TranspilationCache::with_directory(Path::new(DIR))) } else { TranspilationCache::load(Path::new(DIR)) };
                        let mut c = match loaded {
                            Ok(c) => c,
                            Err(e) => {
                                note(&format!("loaderr {e:#}"), &State::new());
                                return 1;
                            }
                        };
                        let mut st = match look(&mut c) {
                            Ok(s) => s,
                            Err(e) => {
                                note(&format!("damaged {e}"), &State::new());
                                return 1;
                            }
                        };
                        note("loaded", &st);
                        for x in w["st"].as_array().cloned().unwrap_or_default() {
                            let (f, v) = (vu(&x, "f"), vu(&x, "v"));
                            let code = format!("// v{v}\n{}// end\n", "fn x() {}\n".repeat(vu(&x, "big") as usize / 10));
                            c.insert(&fpath(f), &TranspiledFile::new(fpath(f), code, vec![], vec![format!("fn{v}")], String::new()));
                            st.insert(f, v);
                        }
                        // what is really in it (storing can be refused under faults)
                        st = match look(&mut c) {
                            Ok(s) => s,
                            Err(e) => {
                                note(&format!("damaged {e}"), &State::new());
                                return 1;
                            }
                        };
                        for _ in 0..vu(&w, "saves") {
                            note("saving", &st);
                            match c.save() {
                                Ok(()) => note("saved", &st),
                                Err(_) => note("savefail", &st),
                            }
                        }
                        0
                    }
                };
                let group = ws.len() > 1 && vb(&ws[0], "thread");
                if group {
                    // threads of one process
                    os::sim().tag = vu(&ws[0], "id") as u32;
                    let fs: Vec<_> = ws.iter().enumerate().map(|(i, w)| one(i, w, log.clone())).collect();
                    qs.push(os::launch("threads", "/sim", move || {
                        let hs: Vec<_> = fs.into_iter().map(std::thread::spawn).collect();
                        let mut bad = 0;
                        for h in hs {
                            bad |= h.join().unwrap_or(101);
                        }
                        bad
                    }));
                } else {
                    for (i, w) in ws.iter().enumerate() {
                        os::sim().tag = vu(w, "id") as u32;
                        qs.push(os::launch("writer", "/sim", one(i, w, log.clone())));
                    }
                }
                let seen: Arc<Mutex<Vec<Result<State, String>>>> = Arc::default();
                if vb(op, "reader") {
                    os::sim().tag = u32::MAX;
                    let seen = seen.clone();
                    os::launch("reader", "/sim", move || {
                        for _ in 0..4 {
                            let r = TranspilationCache::load(Path::new(DIR)).map_err(|e| format!("load: {e:#}")).and_then(|mut c| look(&mut c));
                            let _b = os::Busy::new();
                            seen.lock().unwrap().push(r);
                            os::sim().yield_now();
                        }
                        0
                    });
                    cx.probe("reader_overlap");
                    exciting = true;
                }
                if ws.len() > 1 {
                    cx.probe("writers_overlap");
                    exciting = true;
                }
                let end = os::run();
                if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
                    return cx.fail("no-progress", format!("saving the cache did not end: {end:?}"));
                }
                let s = os::sim();
                let disk_full = s.fs.capacity.take();
                let _ = disk_full;
                for q in &qs {
                    if os::sim().procs[*q].stderr.windows(8).any(|w| w == b"panicked") {
                        return cx.fail("panic", show(&os::sim().procs[*q].stderr.clone()));
                    }
                }
                let fired: Vec<String> = s.fired.iter().filter(|(k, v)| fired0.get(*k) != Some(*v) && *k != "clock_jump").map(|(k, _)| k.clone()).collect();
                let power = fired.iter().any(|k| k == "power");
                let log = log.lock().unwrap().clone();
                let mut legal = now.clone();
                for (_, e, st) in &log {
                    if e == "saving" {
                        legal.push(st.clone());
                        all.push(st.clone());
                    }
                }
                for (i, e, st) in &log {
                    if let Some(d) = e.strip_prefix("damaged ") {
                        return cx.fail("damaged-cache", format!("writer {i} of round {n_round} loaded a damaged cache: {d}"));
                    }
                    if e.starts_with("loaderr") && fired.is_empty() && s.cfg.short_io == 0 {
                        return cx.fail("unloadable-cache", format!("writer {i} of round {n_round}: {e}"));
                    }
                    if e == "loaded" && !vb(&ws[*i], "fresh") && !legal.contains(st) {
                        return cx.fail("unknown-state", format!("writer {i} of round {n_round} loaded {st:?}, which nobody saved"));
                    }
                    match e.as_str() {
                        "saved" => cx.probe("save_ok"),
                        "savefail" => {
                            cx.probe("save_failed");
                            exciting = true;
                        }
                        _ => {}
                    }
                }
                for r in seen.lock().unwrap().iter() {
                    match r {
                        Err(e) => return cx.fail("damaged-cache", format!("a reader in round {n_round} (while others save): {e}")),
                        Ok(st) if !legal.contains(st) => return cx.fail("unknown-state", format!("a reader in round {n_round} saw {st:?}, which nobody saved")),
                        _ => {}
                    }
                }
                // each writer's last event decides what may be on disk
                let crashed = qs.iter().any(|q| os::sim().procs[*q].exit == Some(os::Exit::Crashed));
                if crashed && log.last().map_or(false, |l| l.1 == "saving") {
                    cx.probe("crashed_in_save");
                    exciting = true;
                }
                let before = now.clone();
                if power {
                    now = all.clone();
                } else if ws.len() == 1 {
                    // replay the events in order
                    let mut cur = now.clone();
                    let mut pending: Option<State> = None;
                    for (_, e, st) in &log {
                        match e.as_str() {
                            "saving" => pending = Some(st.clone()),
                            "saved" => {
                                cur = vec![st.clone()];
                                last_ok = Some(st.clone());
                                pending = None;
                            }
                            "savefail" => {
                                // reported failure: what was there before must still be there, or
                                // the new state if only the last step failed
                                cur.push(st.clone());
                                pending = None;
                            }
                            _ => {}
                        }
                    }
                    cur.extend(pending);
                    now = cur;
                } else {
                    let oks: Vec<State> = log.iter().filter(|l| l.1 == "saved").map(|l| l.2.clone()).collect();
                    let tries: Vec<State> = log.iter().filter(|l| l.1 == "saving").map(|l| l.2.clone()).collect();
                    if oks.is_empty() {
                        now.extend(tries);
                    } else {
                        last_ok = oks.last().cloned();
                        now = tries;
                    }
                }
                now.sort();
                now.dedup();
                // a quiet load must find one of the legal states
                let r = calm("/sim", || TranspilationCache::load(Path::new(DIR)).map_err(|e| format!("{e:#}")).and_then(|mut c| look(&mut c)));
                match r {
                    Some(Ok(st)) => {
                        if !now.contains(&st) {
                            let class = if before.contains(&st) { "lost-save" } else { "unknown-state" };
                            return cx.fail(class, format!("after round {n_round} the cache holds {st:?}; possible are {now:?} (events {log:?})"));
                        }
                        if crashed || power {
                            cx.probe(if before.contains(&st) { "loaded_old" } else { "loaded_new" });
                        }
                        now = vec![st];
                        if power {
                            // unsynced metadata is settled one way or the other after the reboot
                            all = now.clone();
                        }
                    }
                    Some(Err(e)) => return cx.fail("unloadable-cache", format!("after round {n_round} the cache cannot be loaded any more: {e} (events {log:?})")),
                    None => return cx.fail("panic", "loading the cache panicked".into()),
                }
            }
            _ => {}
        }
    }
    cx.nontrivial = exciting;
}
