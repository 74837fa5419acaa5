//! P15: the build order holds every file once, each after the files it includes, or says why there is none.
use crate::corpus;
use crate::os::{self, Rng};
use crate::plan::*;
use decy_core::DependencyGraph;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

pub const P15: Prop = Prop {
    id: "P15",
    gen,
    exec,
    quick: 6000,
    thorough: 600_000,
    fixed: no_fixed,
    rule: "a run is a history of edits to a tree of files including one another (chains, diamonds, cycles, several spellings of a path, missing and unreadable files) in which threads and processes of the library and of check-project compute the build order, under read faults, any directory listing order and any hash seed; non-trivial: an order over at least one dependency, or a cycle, was decided; distinct by event-log hash",
    level: "exploration",
    real: &["decy-core DependencyGraph, petgraph", "decy CLI check-project, walkdir", "Rust std"],
    stub: &["file system, clock, scheduler, randomness, processes (simulated)"],
    assume: &["directives stand on a line of their own outside comments and conditional code"],
    must: &["order", "chain", "cycle", "self_include", "unreadable", "read_fault", "other_spelling", "cli_ok", "cli_cycle", "cli_failed", "built_by_hand"],
};
const NAMES: [&str; 9] = ["/sim/p/a.c", "/sim/p/b.c", "/sim/p/c.h", "/sim/p/s/a.c", "/sim/p/s/d.h", "/sim/p/s/u/e.c", "/sim/p/t/b.c", "/sim/p/t/Ä x.c", "/sim/p/z.c"];

/// One of the ways for the file `from` to name the file `to`.
fn spell(r: &mut Rng, from: &str, to: &str) -> String {
    let up = from.matches('/').count() - 3;
    let dir = &from[..from.rfind('/').unwrap() + 1];
    match r.below(6) {
        0 => format!("{}../p/{}", "../".repeat(up), &to["/sim/p/".len()..]),
        1 if to.starts_with(dir) => format!("./{}", &to[dir.len()..]),
        2 => to.to_string(),
        3 | 4 if to.starts_with(dir) => to[dir.len()..].to_string(),
        _ => format!("{}{}", "../".repeat(up), &to["/sim/p/".len()..]),
    }
}
fn text(r: &mut Rng, from: &str, order: &[&str], back: u64, tag: u64) -> String {
    let at = order.iter().position(|n| *n == from).unwrap();
    let mut s = String::new();
    for (i, n) in order.iter().enumerate() {
        let want = if i < at { r.chance(2, 5) } else { r.below(100) < back };
        if want {
            let n = spell(r, from, n);
            s.push_str(&corpus::inc(r, &n));
        }
    }
    match r.below(8) {
        0 => s.push_str("#include \"gone.h\"\n"),
        1 => s.push_str("#include <stdlib.h>\n"),
        2 => s.push_str("#include \"s/none/../gone.c\"\n"),
        3 => s.push_str("// #include \"a.c\"\n"),
        _ => {}
    }
    s.push_str(&corpus::small(r, &format!("q{tag}")));
    s
}
fn gen(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = swarm(r, 300);
    cfg.step_limit = 60_000;
    let mut order = NAMES.to_vec();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    let back = *r.pick(&[0, 0, 0, 2, 6]);
    let mut ops = vec![];
    let n = 2 + r.below(8) as usize;
    let used: Vec<&str> = order[..n.min(order.len())].to_vec();
    let mut tag = 0;
    for f in &used {
        tag += 1;
        ops.push(json!({"k": "put", "path": f, "text": text(r, f, &used, back, tag)}));
    }
    for id in 0..3 + r.below(6) {
        tag += 1;
        let f = *r.pick(&used);
        let mut list: Vec<&str> = used.iter().copied().filter(|_| r.chance(5, 6)).collect();
        for i in (1..list.len()).rev() {
            list.swap(i, r.below(i as u64 + 1) as usize);
        }
        if !list.is_empty() && r.chance(1, 8) {
            list.push(list[0]);
        }
        let mut o = match r.below(12) {
            0..=3 => json!({"k": "graph", "list": list, "threads": 1 + r.below(3)}),
            4..=6 => json!({"k": "check", "cwd": *r.pick(&["/sim", "/sim/p", "/sim/p/s"]), "procs": 1 + r.below(2)}),
            7 => json!({"k": "del", "path": f}),
            8 => json!({"k": "junk", "path": f}),
            9 => {
                let m = 1 + r.below(9);
                let edges: Vec<[u64; 2]> = (0..r.below(14)).map(|_| if back == 0 { let a = r.below(m); [a, r.below(a + 1)] } else { [r.below(m), r.below(m)] }).filter(|e| back > 0 || e[0] != e[1]).collect();
                json!({"k": "hand", "n": m, "edges": edges})
            }
            _ => json!({"k": "put", "path": f, "text": text(r, f, &used, back, tag)}),
        };
        o["id"] = json!(id);
        if r.chance(1, 4) {
            cfg.faults.push(fault(id as u32, r.below(40) as u32, *r.pick(&["eio_read", "eacces_read", "open_fail", "emfile", "eintr", "short", "eio", "spawnfail"]), ""));
        }
        ops.push(o);
    }
    plan("P15", cfg, ops, Value::Null)
}

fn canon(dir: &str, name: &str) -> String {
    let p = if name.starts_with('/') { name.to_string() } else { format!("{dir}/{name}") };
    format!("/{}", os::vfs::Vfs::split(&p).join("/"))
}
/// What each listed file includes directly, and the listed files nothing can be read from.
fn model(list: &[String]) -> (BTreeMap<String, BTreeSet<String>>, Vec<String>) {
    let mut m = BTreeMap::new();
    let mut bad = vec![];
    for f in list {
        let t = match os::sim().fs.get(f).map(String::from_utf8) {
            Some(Ok(t)) => t,
            _ => {
                bad.push(f.clone());
                continue;
            }
        };
        let dir = &f[..f.rfind('/').unwrap()];
        let e: BTreeSet<String> = t.lines().filter_map(corpus::included).filter(|n| !n.contains("none/")).map(|n| canon(dir, n)).filter(|n| list.contains(n)).collect();
        m.insert(f.clone(), e);
    }
    (m, bad)
}
fn cyclic(m: &BTreeMap<String, BTreeSet<String>>) -> bool {
    let mut left = m.clone();
    loop {
        let free: Vec<String> = left.iter().filter(|(_, e)| e.iter().all(|d| !left.contains_key(d))).map(|x| x.0.clone()).collect();
        if free.is_empty() {
            return !left.is_empty();
        }
        for f in free {
            left.remove(&f);
        }
    }
}
/// Why `order` is no build order.
fn wrong(order: &[String], m: &BTreeMap<String, BTreeSet<String>>) -> Option<String> {
    let mut done = BTreeSet::new();
    for f in order {
        let Some(e) = m.get(f) else { return Some(format!("{f} is not one of the files")) };
        if let Some(d) = e.iter().find(|d| !done.contains(*d)) {
            return Some(format!("{f} comes before {d}, which it includes"));
        }
        if !done.insert(f.clone()) {
            return Some(format!("{f} is there twice"));
        }
    }
    m.keys().find(|f| !done.contains(*f)).map(|f| format!("{f} is missing"))
}

type Answer = Result<Result<Vec<String>, String>, String>;
fn answer(list: &[PathBuf]) -> Answer {
    let g = DependencyGraph::from_files(list).map_err(|e| format!("{e:#}"))?;
    Ok(g.topological_sort().map(|o| o.iter().map(|p| p.to_string_lossy().into_owned()).collect()).map_err(|e| format!("{e:#}")))
}

fn exec(p: &Plan, cx: &mut Ctx) {
    os::sim().fs.mkdirs("/sim/p/s/u", 0);
    os::sim().fs.mkdirs("/sim/p/t", 0);
    os::sim().fs.settle();
    for op in &p.ops {
        if cx.failed() {
            return;
        }
        let s = os::sim();
        s.tag = op["id"].as_u64().unwrap_or(u32::MAX as u64) as u32;
        let path = vstr(op, "path");
        let fired = || os::sim().fired.iter().filter(|f| f.0 != "clock_jump").map(|f| *f.1).sum::<u64>();
        let before = fired();
        match op["k"].as_str().unwrap_or("") {
            "put" => s.fs.put_durable(&path, vstr(op, "text").as_bytes(), 0),
            "junk" => s.fs.put_durable(&path, b"int x; // \xff\xfe\n", 0),
            "del" => {
                s.fs.remove(&path, 0);
            }
            "graph" => {
                let list: Vec<String> = op["list"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
                let (m, bad) = model(&list);
                let paths: Vec<PathBuf> = list.iter().map(PathBuf::from).collect();
                let n = vu(op, "threads").max(1);
                let (got, end) = stormy("/sim", move || {
                    let hs: Vec<_> = (1..n).map(|_| paths.clone()).map(|l| std::thread::Builder::new().spawn(move || answer(&l))).collect();
                    let mut v = vec![Some(answer(&paths))];
                    v.extend(hs.into_iter().filter_map(|h| h.ok()).map(|h| h.join().ok()));
                    v
                });
                if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
                    return cx.fail("no-progress", format!("computing the build order of {list:?} did not end: {end:?}"));
                }
                let hurt = fired() > before;
                let Some(got) = got else { return cx.fail("panic", format!("computing the build order of {list:?} panicked")) };
                let mut orders = vec![];
                for a in got {
                    let Some(a) = a else { return cx.fail("panic", format!("computing the build order of {list:?} panicked")) };
                    judge(cx, &format!("the build order of {list:?}"), &a, &m, &bad, hurt);
                    orders.extend(a.ok().and_then(|a| a.ok()));
                }
                if cx.failed() {
                    return;
                }
                // once more in another process
                let paths: Vec<PathBuf> = list.iter().map(PathBuf::from).collect();
                orders.extend(calm("/sim", move || answer(&paths)).and_then(|a| a.ok()).and_then(|a| a.ok()));
                if let Some(o) = orders.windows(2).find(|o| o[0] != o[1]) {
                    return cx.fail("order-varies", format!("two build orders of the same list {list:?}: {:?} and {:?}", o[0], o[1]));
                }
            }
            "hand" => {
                let n = vu(op, "n") as usize;
                let edges: Vec<(usize, usize)> = op["edges"].as_array().map(|a| a.iter().map(|e| (e[0].as_u64().unwrap_or(0) as usize, e[1].as_u64().unwrap_or(0) as usize)).collect()).unwrap_or_default();
                let name = |i: usize| format!("f{i}.c");
                let mut m: BTreeMap<String, BTreeSet<String>> = (0..n).map(|i| (name(i), BTreeSet::new())).collect();
                for (a, b) in &edges {
                    m.get_mut(&name(*a)).unwrap().insert(name(*b));
                }
                let e2 = edges.clone();
                let (got, _) = stormy("/sim", move || {
                    let mut g = DependencyGraph::new();
                    for _ in 0..2 {
                        (0..n).for_each(|i| g.add_file(&PathBuf::from(format!("f{i}.c"))));
                    }
                    for (a, b) in &e2 {
                        g.add_dependency(&PathBuf::from(format!("f{a}.c")), &PathBuf::from(format!("f{b}.c")));
                    }
                    let has: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).filter(|(a, b)| g.has_dependency(&PathBuf::from(format!("f{a}.c")), &PathBuf::from(format!("f{b}.c")))).collect();
                    (g.topological_sort().map(|o| o.iter().map(|p| p.to_string_lossy().into_owned()).collect::<Vec<_>>()).map_err(|e| format!("{e:#}")), has, g.file_count())
                });
                let Some((a, has, count)) = got else { return cx.fail("panic", format!("ordering {n} files with {edges:?} panicked")) };
                cx.probe("built_by_hand");
                let want: BTreeSet<(usize, usize)> = edges.iter().copied().collect();
                if has.iter().copied().collect::<BTreeSet<_>>() != want || count != n {
                    return cx.fail("graph-lost", format!("a graph of {n} files with {edges:?} says it has {count} files and {has:?}"));
                }
                judge(cx, &format!("the build order of {n} files with dependencies {edges:?}"), &Ok(a), &m, &[], false);
            }
            "check" => check(op, cx, before),
            _ => {}
        }
    }
}
fn judge(cx: &mut Ctx, what: &str, a: &Answer, m: &BTreeMap<String, BTreeSet<String>>, bad: &[String], hurt: bool) {
    let cyc = cyclic(m);
    match a {
        Err(e) => {
            if bad.is_empty() && !hurt {
                cx.fail("refused", format!("{what} was refused without a reason: {e}"));
            }
            if e.trim().is_empty() {
                cx.fail("silent-failure", format!("{what} failed without saying why"));
            }
            cx.probe(if hurt { "read_fault" } else { "unreadable" });
        }
        Ok(_) if !bad.is_empty() => cx.fail("unread-accepted", format!("{what} was given although {bad:?} cannot be read: {a:?}")),
        Ok(Ok(_)) if cyc => cx.fail("cycle-missed", format!("{what} was given although there is a cycle in {m:?}: {a:?}")),
        Ok(Ok(o)) => {
            if let Some(w) = wrong(o, m) {
                cx.fail("bad-order", format!("{what} is wrong: {w}: {o:?}, includes {m:?}"));
            }
            cx.probe("order");
            let deps: usize = m.values().map(|e| e.len()).sum();
            cx.nontrivial |= deps > 0;
            if m.values().any(|e| e.iter().any(|d| !m[d].is_empty())) {
                cx.probe("chain");
            }
            if m.iter().any(|(f, e)| e.iter().any(|d| d[..d.rfind('/').unwrap_or(0)] != f[..f.rfind('/').unwrap_or(0)])) {
                cx.probe("other_spelling");
            }
        }
        Ok(Err(e)) => {
            if !cyc {
                cx.fail("false-cycle", format!("{what} was refused although nothing is circular in {m:?}: {e}"));
            }
            cx.nontrivial = true;
            cx.probe("cycle");
            if m.iter().any(|(f, e)| e.contains(f)) {
                cx.probe("self_include");
            }
        }
    }
}

fn check(op: &Value, cx: &mut Ctx, before: u64) {
    let mut list: Vec<String> = os::sim().fs.files("/sim/p").into_iter().map(|f| f.0).filter(|f| f.ends_with(".c")).collect();
    list.sort();
    let (m, bad) = model(&list);
    let cwd = vstr(op, "cwd");
    let dir = match cwd.as_str() {
        "/sim" => "p",
        "/sim/p" => ".",
        _ => "..",
    };
    let qs: Vec<usize> = (0..vu(op, "procs").max(1)).map(|_| os::launch_decy(&cwd, &["check-project", dir])).collect();
    let end = os::run();
    if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
        return cx.fail("no-progress", format!("decy check-project did not end: {end:?}"));
    }
    let hurt = os::sim().fired.iter().filter(|f| f.0 != "clock_jump").map(|f| *f.1).sum::<u64>() > before;
    let cyc = cyclic(&m);
    for q in qs {
        let pr = &os::sim().procs[q];
        let (out, err, exit) = (String::from_utf8_lossy(&pr.stdout).into_owned(), String::from_utf8_lossy(&pr.stderr).into_owned(), pr.exit);
        let said = format!("decy check-project {dir} in {cwd} with includes {m:?}: {exit:?}\n{out}{err}");
        let ready = out.contains("Project is ready");
        match exit {
            Some(os::Exit::Code(0)) => {
                if list.is_empty() {
                    continue;
                }
                if !bad.is_empty() {
                    return cx.fail("unread-accepted", format!("{bad:?} cannot be read: {said}"));
                }
                if cyc {
                    return cx.fail("cycle-missed", said);
                }
                let order: Vec<String> = out.lines().skip_while(|l| !l.starts_with("Build order")).skip(1).take_while(|l| !l.trim().is_empty()).filter_map(|l| l.trim().split_once(". ").map(|x| canon("/sim/p", x.1))).collect();
                if let Some(w) = wrong(&order, &m) {
                    return cx.fail("bad-order", format!("{w}: {said}"));
                }
                if !ready {
                    return cx.fail("bad-order", format!("no verdict: {said}"));
                }
                cx.nontrivial |= m.values().any(|e| !e.is_empty());
                cx.probe("cli_ok");
            }
            Some(os::Exit::Code(_)) => {
                if ready || err.trim().is_empty() {
                    return cx.fail("silent-failure", said);
                }
                if bad.is_empty() && !hurt && !cyc {
                    return cx.fail("refused", said);
                }
                cx.nontrivial |= cyc;
                cx.probe(if cyc && !hurt && bad.is_empty() { "cli_cycle" } else { "cli_failed" });
            }
            other => {
                // a panic while writing to a broken standard output is not simulated here
                return cx.fail("died", format!("{other:?}: {said}"));
            }
        }
    }
}
