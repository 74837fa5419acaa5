//! P01: the translation of a program is a function of its text and its headers alone.
use crate::corpus;
use crate::os::{self, Rng};
use crate::plan::*;
use serde_json::{json, Value};
use std::path::Path;
use std::sync::{Arc, Mutex};

pub const PROP: Prop = Prop {
    id: "P01",
    gen,
    exec,
    quick: 900,
    thorough: 60_000,
    fixed: no_fixed,
    rule: "a run translates 2-4 programs (1-3 corpus snippets each, optionally split over local headers) through the command line, project mode, library calls in one process after other translations and before and after edits of headers, and concurrent threads preempted at allocation points, each under fresh hash keys, directory orders, clocks, pids and benign I/O faults, and compares every result byte for byte; non-trivial: at least one program translated successfully through three routes; distinct by event-log hash",
    level: "exploration",
    real: &["decy CLI", "decy-core", "decy-parser + libclang", "decy-hir", "decy-analyzer", "decy-ownership", "decy-codegen", "decy-stdlib", "decy-debugger", "Rust std, walkdir, serde_json"],
    stub: &["file system, clock, scheduler, randomness, process table (simulated)", "clang driver used for include discovery (stub program)"],
    assume: &["libclang itself is deterministic", "programs come from the corpus taken from the repository's examples and tests, combined and renamed"],
    must: &["route_cli", "route_lib", "route_threads", "route_project", "translated_ok", "header_edit_in_process"],
};

fn gen(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = swarm(r, 800);
    cfg.step_limit = 200_000;
    cfg.alloc_preempt = *r.pick(&[1, 3, 17, 61, 211]);
    if cfg.sched_seed == 0 {
        cfg.sched_seed = 7;
    }
    let n = 2 + r.below(3);
    let mut ops = vec![];
    for i in 0..n {
        let mut src = if r.chance(1, 14) { r.pick(corpus::bad()).clone() } else { corpus::program(r) };
        let mut hdr = Value::Null;
        if r.chance(1, 4) {
            let h = corpus::renamed(r.pick(corpus::all()), "_h");
            let h2 = corpus::renamed(r.pick(corpus::all()), "_g");
            hdr = json!({"one.h": format!("{}{h}", corpus::inc(r, "inc/two.h")), "inc/two.h": h2});
            src = format!("{}{src}", corpus::inc(r, "one.h"));
        }
        ops.push(json!({"id": i, "src": src, "hdr": hdr}));
        if r.chance(1, 3) {
            let k = *r.pick(&["short", "eintr", "spawnfail"]);
            cfg.faults.push(fault(i as u32, r.below(30) as u32, k, ""));
        }
    }
    let routes: Vec<u64> = (0..n).map(|_| r.next() & 0xff).collect();
    plan("P01", cfg, ops, json!({"routes": routes, "shuffle": r.next()}))
}

fn put(dir: &str, op: &Value, name: &str) {
    let s = os::sim();
    s.fs.put(&format!("{dir}/{name}"), vstr(op, "src").as_bytes(), 0);
    if let Some(h) = op["hdr"].as_object() {
        for (k, v) in h {
            s.fs.put(&format!("{dir}/{k}"), v.as_str().unwrap().as_bytes(), 0);
        }
    }
}

type Digest = Vec<(String, Result<String, String>)>;
/// Every library route to a textual result.
fn digest(dir: &str, src: &str, full: bool) -> Digest {
    let e = |r: anyhow::Result<String>| r.map_err(|e| format!("{e:#}"));
    let base = Path::new(dir);
    let file = base.join("a.c");
    let mut v = vec![("includes".to_string(), e(decy_core::transpile_with_includes(src, Some(base))))];
    if full {
        v.push(("box".into(), e(decy_core::transpile_with_box_transform(src))));
        v.push(("trace".into(), e(decy_core::transpile_with_trace(src).map(|(a, t)| format!("{a}\n{}", t.to_json())))));
        v.push((
            "verified".into(),
            e(decy_core::transpile_with_verification(src).map(|t| format!("{:?}", t))),
        ));
        v.push(("file".into(), e(decy_core::transpile_file(&file, &decy_core::ProjectContext::new()).map(|t| format!("{t:?}")))));
        v.push(("file_path".into(), e(decy_core::transpile_from_file_path(&file))));
        v.push(("viz_ast".into(), e(decy_debugger::visualize_ast::visualize_c_ast(&file, false))));
        v.push(("viz_hir".into(), e(decy_debugger::visualize_hir::visualize_hir(&file, false))));
        v.push(("viz_own".into(), e(decy_debugger::visualize_ownership::visualize_ownership_graph(&file, false))));
    }
    v
}

fn exec(p: &Plan, cx: &mut Ctx) {
    let routes: Vec<u64> = p.params["routes"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default();
    let mut base: Vec<(bool, Vec<u8>, Vec<u8>)> = vec![];
    let mut digests: Vec<Digest> = vec![];
    let mut ok_any = false;
    let alloc = os::sim().cfg.alloc_preempt;
    os::sim().cfg.alloc_preempt = 0;
    // reference: one quiet run per program
    for op in &p.ops {
        let dir = format!("/sim/w{}", vu(op, "id"));
        put(&dir, op, "a.c");
        let s = os::sim();
        s.faults_on = false;
        s.tag = u32::MAX;
        let q = os::launch_decy("/sim", &["transpile", &format!("{dir}/a.c")]);
        os::run();
        let s = os::sim();
        s.faults_on = true;
        let pr = &s.procs[q];
        base.push((pr.exit == Some(os::Exit::Code(0)), pr.stdout.clone(), pr.stderr.clone()));
        if base.last().unwrap().0 {
            cx.probe("translated_ok");
            ok_any = true;
        } else {
            cx.probe("translation_rejected");
        }
        let (d2, src) = (dir.clone(), vstr(op, "src"));
        match calm(&dir, move || digest(&d2, &src, true)) {
            Some(d) => digests.push(d),
            None => return cx.fail("panic", format!("library translation of program {} panicked", vu(op, "id"))),
        }
    }
    let diff = |cx: &mut Ctx, what: &str, i: usize, a: &[u8], b: &[u8]| {
        if a != b && !cx.failed() {
            let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
            let at = |v: &[u8]| show(&v[k.saturating_sub(60).min(v.len())..(k + 120).min(v.len())]);
            cx.fail(
                &format!("output-differs-{what}"),
                format!("program {i}: route {what} gave a different result at byte {k}\n reference: {}\n this run:  {}\nsource:\n{}", at(a), at(b), vstr(&p.ops[i], "src")),
            );
        }
    };
    for (i, op) in p.ops.iter().enumerate() {
        if cx.failed() {
            return;
        }
        let rt = routes.get(i).copied().unwrap_or(0);
        let dir = format!("/sim/w{}", vu(op, "id"));
        // same command again in another world
        os::sim().tag = vu(op, "id") as u32;
        let q = os::launch_decy("/sim", &["transpile", &format!("{dir}/a.c")]);
        os::run();
        let pr = &os::sim().procs[q];
        cx.probe("route_cli");
        if base[i].0 != (pr.exit == Some(os::Exit::Code(0))) {
            return cx.fail("verdict-differs-cli", format!("program {i}: exit {:?} but the reference run {}; stderr {}", pr.exit, if base[i].0 { "succeeded" } else { "failed" }, show(&pr.stderr)));
        }
        diff(cx, "cli", i, &base[i].1, &pr.stdout.clone());
        diff(cx, "cli-messages", i, &base[i].2, &pr.stderr.clone());
        // moved elsewhere, started from elsewhere
        if rt & 1 != 0 {
            let d = format!("/home/user/deep/er/proj{i}");
            put(&d, op, "other_name.c");
            let q = os::launch_decy(&d, &["transpile", "other_name.c", "-o", "x.rs"]);
            os::run();
            let got = os::sim().fs.get(&format!("{d}/x.rs")).unwrap_or_default();
            let ok = os::sim().procs[q].exit == Some(os::Exit::Code(0));
            if ok != base[i].0 {
                return cx.fail("verdict-differs-moved", format!("program {i}: {:?} {}", os::sim().procs[q].exit, show(&os::sim().procs[q].stderr)));
            }
            if ok {
                diff(cx, "moved", i, &base[i].1, &got);
            }
        }
        // library, in a process that has translated the other programs before
        if rt & 2 != 0 {
            let (srcs, order): (Vec<(String, String)>, Vec<usize>) = {
                let v: Vec<_> = p.ops.iter().map(|o| (format!("/sim/w{}", vu(o, "id")), vstr(o, "src"))).collect();
                let mut o: Vec<usize> = (0..v.len()).collect();
                Rng::new(vu(&p.params, "shuffle") + i as u64).shuffle(&mut o);
                (v, o)
            };
            let d = dir.clone();
            let r = calm(&dir, move || {
                for k in order {
                    let _ = digest(&srcs[k].0, &srcs[k].1, false);
                }
                let s = srcs.iter().find(|x| x.0 == d).unwrap().1.clone();
                digest(&d, &s, true)
            });
            cx.probe("route_lib");
            let Some(r) = r else { return cx.fail("panic", format!("library translation of program {i} panicked")) };
            for ((n, a), (_, b)) in digests[i].iter().zip(&r) {
                let f = |x: &Result<String, String>| match x {
                    Ok(s) => format!("OK {s}"),
                    Err(s) => format!("ERR {s}"),
                };
                diff(cx, &format!("lib-{n}"), i, f(a).as_bytes(), f(b).as_bytes());
            }
        }
    }
    // one process translates, a header is edited, and translates again: like the new header elsewhere
    for (i, op) in p.ops.iter().enumerate() {
        if routes.get(i).copied().unwrap_or(0) & 16 == 0 || op["hdr"].is_null() || cx.failed() {
            continue;
        }
        let mut op2 = op.clone();
        let h = if routes[i] & 32 != 0 { "one.h" } else { "inc/two.h" };
        let added = "int added_by_the_edit(int q) { return q + 41; }\n";
        op2["hdr"][h] = json!(format!("{}{added}", vstr(&op["hdr"], h)));
        let (d, d2) = (format!("/sim/e{i}"), format!("/sim/f{i}"));
        put(&d, op, "a.c");
        put(&d2, &op2, "a.c");
        let src = vstr(op, "src");
        let (h1, t1, t2) = (format!("{d}/{h}"), vstr(&op["hdr"], h), vstr(&op2["hdr"], h));
        os::sim().tag = u32::MAX;
        let r = calm(&d.clone(), move || {
            let tr = |d: &str| {
                let b = Path::new(d);
                let f = b.join("a.c");
                vec![
                    ("includes", decy_core::transpile_with_includes(&src, Some(b)).ok()),
                    ("file", decy_core::transpile_file(&f, &decy_core::ProjectContext::new()).map(|t| t.rust_code).ok()),
                    ("file_path", decy_core::transpile_from_file_path(&f).ok()),
                ]
            };
            let a = tr(&d);
            std::fs::write(&h1, &t2).unwrap();
            let b = tr(&d);
            std::fs::write(&h1, &t1).unwrap();
            let c = tr(&d);
            (a, b, c, tr(&d2))
        });
        cx.probe("header_edit_in_process");
        let Some((a, b, c, want)) = r else { return cx.fail("panic", format!("library translation of program {i} panicked")) };
        for k in 0..want.len() {
            let t = |x: &Option<String>| x.clone().unwrap_or_else(|| "(rejected)".into()).into_bytes();
            diff(cx, &format!("edited-{}", want[k].0), i, &t(&want[k].1), &t(&b[k].1));
            diff(cx, &format!("reverted-{}", want[k].0), i, &t(&a[k].1), &t(&c[k].1));
        }
    }
    // concurrent threads of one process
    if routes.iter().any(|r| r & 4 != 0) && !cx.failed() {
        os::sim().cfg.alloc_preempt = alloc;
        let srcs: Vec<_> = p.ops.iter().map(|o| (format!("/sim/w{}", vu(o, "id")), vstr(o, "src"))).collect();
        let res: Arc<Mutex<Vec<Option<Digest>>>> = Arc::new(Mutex::new(vec![None; srcs.len()]));
        let r2 = res.clone();
        os::sim().tag = u32::MAX;
        os::launch("threads", "/sim", move || {
            let hs: Vec<_> = srcs
                .into_iter()
                .enumerate()
                .map(|(i, (d, s))| {
                    let r3 = r2.clone();
                    std::thread::spawn(move || {
                        let v = digest(&d, &s, false);
                        let _b = os::Busy::new();
                        r3.lock().unwrap()[i] = Some(v);
                    })
                })
                .collect();
            for h in hs {
                let _ = h.join();
            }
            0
        });
        let e = os::run();
        os::sim().cfg.alloc_preempt = 0;
        cx.probe("route_threads");
        let v = res.lock().unwrap().clone();
        for (i, d) in v.into_iter().enumerate() {
            let Some(d) = d else {
                return cx.fail("no-result-threads", format!("program {i}: translation in a thread next to others gave no result (run end {e:?})"));
            };
            for ((n, a), (_, b)) in digests[i].iter().zip(&d) {
                diff(cx, &format!("threads-{n}"), i, format!("{a:?}").as_bytes(), format!("{b:?}").as_bytes());
            }
        }
    }
    // project mode, all programs in one tree, directory order decided by the plan
    if routes.iter().any(|r| r & 8 != 0) && !cx.failed() {
        let good: Vec<usize> = (0..p.ops.len()).filter(|i| base[*i].0).collect();
        for i in &good {
            put(&format!("/sim/proj/d{i}"), &p.ops[*i], "a.c");
        }
        if !good.is_empty() {
            os::sim().tag = u32::MAX;
            let q = os::launch_decy("/sim", &["transpile-project", "/sim/proj", "-o", "/sim/projout", "--no-cache"]);
            os::run();
            cx.probe("route_project");
            let pr = &os::sim().procs[q];
            if pr.exit != Some(os::Exit::Code(0)) {
                return cx.fail("verdict-differs-project", format!("project mode failed on programs that translate alone: {:?} {}", pr.exit, show(&pr.stderr)));
            }
            for i in good {
                let got = os::sim().fs.get(&format!("/sim/projout/d{i}/a.rs")).unwrap_or_default();
                diff(cx, "project", i, &base[i].1, &got);
            }
        }
    }
    cx.nontrivial = ok_any && routes.iter().any(|r| r & 2 != 0) && routes.iter().any(|r| r & 12 != 0);
}
