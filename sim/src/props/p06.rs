//! P06: a compile verdict is about the text it was asked about, and leaves no scratch files.
//! P07: a differential test passes exactly if both programs behave alike, in bounded time.
use crate::os::progs::{self, Script};
use crate::os::{self, Rng};
use crate::plan::*;
use decy_oracle::golden_trace::{GoldenTrace, TraceTier};
use decy_oracle::trace_verifier::{TraceVerifier, VerifierConfig};
use decy_oracle::verification::{check_rust_compilation, verify_fix_semantically, VerificationConfig, VerificationResult};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub const P06: Prop = Prop {
    id: "P06",
    gen: gen6,
    exec: exec6,
    quick: 12_000,
    thorough: 900_000,
    fixed: no_fixed,
    rule: "a run is 1-3 processes of 1-3 threads, each asking for several compile verdicts through all library entry points at once, under coarse or jumping clocks, reused process ids, leftovers of crashed processes and disk, spawn and wait faults; non-trivial: at least two verdicts overlapped in time or a fault fired; distinct by event-log hash",
    level: "exploration",
    real: &["decy-verify compile verification", "decy-oracle verification and trace verifier", "Rust std process handling"],
    stub: &["file system, clock, scheduler, randomness, processes (simulated)", "rustc and bash (stub programs; rustc rejects exactly the texts that carry a marker)"],
    assume: &["process ids are unique among the processes alive at one time"],
    must: &["accepted", "rejected", "overlap", "error_under_fault", "same_clock", "after_crash", "tests_failed", "tests_passed", "batch"],
};
pub const P07: Prop = Prop {
    id: "P07",
    gen: gen7,
    exec: exec7,
    quick: 8000,
    thorough: 600_000,
    fixed: no_fixed,
    rule: "a run is 1-4 differential tests (library calls on several threads, and the diff-test command) of scripted program pairs with generated output bytes, sizes beyond the pipe buffer, exit codes, signals, delays and programs that never end, under disk, spawn and wait faults; non-trivial: at least one pair ran to its end or into the time limit; distinct by event-log hash",
    level: "exploration",
    real: &["decy-verify differential testing", "decy CLI diff-test, decy-core translation", "tempfile, Rust std process handling"],
    stub: &["file system, clock, scheduler, randomness, processes (simulated)", "gcc, rustc and the programs they build (scripted stub programs)"],
    assume: &["programs without children of their own", "a program that needs the time limit give or take two seconds may be judged either way"],
    must: &["pass", "differ_stdout", "differ_code", "signal", "big_output", "invalid_utf8", "error_under_fault", "cli", "parallel", "compiler_died"],
};

// ------------------------------------------------------------------ P06
fn gen6(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = swarm(r, 700);
    cfg.step_limit = 100_000;
    if r.chance(1, 2) {
        cfg.sched_seed = r.next() | 1;
    }
    let mut ops = vec![];
    let mut code = 0u64;
    let rounds = 1 + r.below(3);
    let mut id = 0u32;
    for _ in 0..rounds {
        let mut procs = vec![];
        for _ in 0..*r.pick(&[1, 1, 2, 3]) {
            let mut threads = vec![];
            for _ in 0..*r.pick(&[1, 2, 2, 3]) {
                let mut calls = vec![];
                for _ in 0..1 + r.below(3) {
                    code += 1;
                    let bad = r.chance(1, 2);
                    let size = if r.chance(1, 6) { 9000 + r.below(9000) } else { r.below(60) };
                    let mut text = format!("fn item_{code}() -> i32 {{ {} }}\n{}", code * 7, "// filler\n".repeat(size as usize / 10));
                    if r.chance(1, 4) {
                        text.push_str("fn main() {}\n");
                    }
                    if r.chance(1, 5) {
                        text.push_str(&format!("fn w() {{ let simwarn_{code} = 1; }}\n"));
                    }
                    if r.chance(1, 6) {
                        text.push_str("fn u() { unsafe { core::hint::unreachable_unchecked() } }\n");
                    }
                    if bad {
                        // the marker at the very end: a truncated text would be accepted
                        text.push_str(&format!("fn simfail_{code}() {{}}\n"));
                    }
                    let via = *r.pick(&["verify", "verify", "check", "check", "trace", "trace_full", "semantic", "batch"]);
                    let tests = *r.pick(&["pass", "fail", "none", "crash"]);
                    calls.push(json!({"via": via, "text": text, "n": code, "tests": tests}));
                }
                threads.push(calls);
            }
            procs.push(json!({"id": id, "threads": threads}));
            if r.chance(1, 5) {
                cfg.faults.push(tool_fault(r, id, &["rustc", "rustc", "rustc", "bash"], 6));
            }
            if r.chance(1, 3) {
                let k = if r.chance(1, 4) { *r.pick(&["crash", "crash_mid"]) } else { *r.pick(FILE_FAULTS) };
                let f = *r.pick(&["", "", "/tmp", "rustc", "<wait>", ".rs", "tests"]);
                cfg.faults.push(fault(id, r.below(if f.is_empty() { 40 } else { 6 }) as u32, k, f));
            }
            id += 1;
        }
        ops.push(json!({"k": "round", "procs": procs}));
    }
    plan("P06", cfg, ops, Value::Null)
}

#[derive(Clone, Debug)]
enum Verdict {
    Accept { warned: bool },
    Reject(String),
    /// could not be found out
    Unknown(String),
    /// full semantic verdict
    Full,
    CompilesOnly,
    Changed,
    Passed,
    /// per text of a batch
    Many(Vec<bool>),
}
fn ask(c: &Value) -> Verdict {
    let text = vstr(c, "text");
    let cfg = VerificationConfig::default();
    let sort = |r: Result<(), String>| match r {
        Ok(()) => Verdict::Accept { warned: false },
        Err(e) if e.contains("simfail") || e.contains("E0308") => Verdict::Reject(e),
        Err(e) => Verdict::Unknown(e),
    };
    match vstr(c, "via").as_str() {
        "verify" => match decy_verify::verify_compilation(&text) {
            Ok(r) if r.success => Verdict::Accept { warned: !r.warnings.is_empty() },
            Ok(r) => Verdict::Reject(r.errors.iter().map(|e| format!("{:?} {}", e.code, e.message)).collect::<Vec<_>>().join("; ")),
            Err(e) => Verdict::Unknown(format!("{e:#}")),
        },
        "check" => sort(check_rust_compilation(&text, &cfg)),
        "trace" => sort(TraceVerifier::new().verify_compilation(&text)),
        "trace_full" => {
            let t = GoldenTrace::new("int x;".into(), text, TraceTier::P0, "x.c");
            let mut v = TraceVerifier::with_config(VerifierConfig { allow_unsafe: vu(c, "n") % 2 == 0, ..Default::default() });
            let r = v.verify_trace(&t);
            let s = v.stats();
            if s.total_verified != 1 || s.passed + s.failed != 1 || (s.passed == 1) != r.passed || r.passed != r.errors.is_empty() {
                return Verdict::Reject(format!("inconsistent statistics {s:?} for {r:?}"));
            }
            if r.passed {
                Verdict::Passed
            } else {
                let e = r.errors.join("; ");
                if e.contains("E0308") || e.contains("unsafe block") {
                    Verdict::Reject(e)
                } else {
                    Verdict::Unknown(e)
                }
            }
        }
        "batch" => {
            let mk = |s: &str| GoldenTrace::new("int x;".into(), s.to_string(), TraceTier::P1, "x.c");
            let ok = format!("fn main() {{ let _ok_{} = 1; }}\n", vu(c, "n"));
            let ts = vec![mk(&ok), mk(&text), mk(&ok)];
            let v = TraceVerifier::with_config(VerifierConfig { allow_unsafe: true, ..Default::default() });
            if vu(c, "n") % 2 == 0 {
                Verdict::Many(v.verify_batch(&ts).iter().map(|r| r.passed).collect())
            } else {
                let keep = v.filter_valid(&ts);
                Verdict::Many(ts.iter().map(|t| keep.iter().any(|k| std::ptr::eq(*k, t))).collect())
            }
        }
        _ => {
            let dir = format!("/sim/tests_{}", vstr(c, "tests"));
            match verify_fix_semantically(&text, Some(std::path::Path::new(&dir)), &cfg) {
                VerificationResult::FullyVerified => Verdict::Full,
                VerificationResult::CompilesOnly => Verdict::CompilesOnly,
                VerificationResult::BehaviorChanged(_) => Verdict::Changed,
                VerificationResult::CompileFailed(e) => sort(Err(e)),
            }
        }
    }
}

fn exec6(p: &Plan, cx: &mut Ctx) {
    let s = os::sim();
    let t = |sc: &Script| format!("script {}", serde_json::to_string(sc).unwrap());
    s.fs.put_durable("/sim/tests_pass/run_tests.sh", t(&Script { out: vec![(1000, 1, "ok\n".into())], ..Default::default() }).as_bytes(), 0);
    s.fs.put_durable("/sim/tests_fail/run_tests.sh", t(&Script { out: vec![(1000, 2, "test broke\n".into())], code: 1, ..Default::default() }).as_bytes(), 0);
    s.fs.put_durable("/sim/tests_crash/run_tests.sh", t(&Script { signal: 11, ..Default::default() }).as_bytes(), 0);
    s.fs.put_durable("/tmp/decy_keep.rs", b"// not ours\n", 0);
    s.fs.put_durable("/tmp/decy_verify_me.rs", b"// not ours either\n", 0);
    s.fs.settle();
    let base: BTreeMap<String, Vec<u8>> = os::sim().fs.tree("/").into_iter().collect();
    let mut littered = false;
    let mut exciting = false;
    let mut crashed_before = false;
    for op in &p.ops {
        if cx.failed() {
            return;
        }
        let procs = op["procs"].as_array().cloned().unwrap_or_default();
        let f0 = os::sim().fired.clone();
        // (call, verdict, index of the process)
        let log: Arc<Mutex<Vec<(Value, Verdict, usize)>>> = Arc::default();
        let live: Arc<Mutex<(u32, u32)>> = Arc::default();
        let mut qs = vec![];
        let c0 = os::sim().compiled.len();
        for (pi, pr) in procs.iter().enumerate() {
            os::sim().tag = vu(pr, "id") as u32;
            let threads: Vec<Vec<Value>> = pr["threads"].as_array().unwrap().iter().map(|t| t.as_array().cloned().unwrap_or_default()).collect();
            let (log, live) = (log.clone(), live.clone());
            qs.push(os::launch("verifier", "/sim", move || {
                let mut hs = vec![];
                for calls in threads {
                    let (log, live) = (log.clone(), live.clone());
                    hs.push(std::thread::spawn(move || {
                        for c in calls {
                            {
                                let _b = os::Busy::new();
                                let mut l = live.lock().unwrap();
                                l.0 += 1;
                                l.1 = l.1.max(l.0);
                            }
                            let v = ask(&c);
                            let _b = os::Busy::new();
                            live.lock().unwrap().0 -= 1;
                            log.lock().unwrap().push((c, v, pi));
                        }
                    }));
                }
                let mut bad = 0;
                for h in hs {
                    if h.join().is_err() {
                        bad = 101;
                    }
                }
                bad
            }));
        }
        let end = os::run();
        os::sim().fs.capacity = None;
        if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
            return cx.fail("no-progress", format!("verification did not end: {end:?}"));
        }
        let f1 = os::sim().fired.clone();
        let mut fresh: Vec<String> = f1.iter().filter(|(k, v)| f0.get(*k) != Some(*v) && !k.starts_with("clock")).map(|x| x.0.clone()).collect();
        fresh.sort();
        let faulted = !fresh.is_empty();
        exciting |= faulted || live.lock().unwrap().1 > 1;
        if live.lock().unwrap().1 > 1 {
            cx.probe("overlap");
            if p.cfg.clock_gran >= 1_000_000 {
                cx.probe("same_clock");
            }
        }
        for q in &qs {
            let pr = &os::sim().procs[*q];
            if pr.stderr.windows(8).any(|w| w == b"panicked") {
                return cx.fail("panic", show(&pr.stderr.clone()));
            }
            if pr.exit == Some(os::Exit::Crashed) {
                littered = true;
                crashed_before = true;
            }
        }
        let seen: Vec<String> = os::sim().compiled[c0..].iter().filter(|c| c.2).map(|c| c.1.clone()).collect();
        for (c, v, _) in log.lock().unwrap().iter() {
            let text = vstr(c, "text");
            let bad = progs::verdict(&text);
            let what = || format!("{} of text {} (marker {bad:?})", vstr(c, "via"), vu(c, "n"));
            if crashed_before {
                cx.probe("after_crash");
            }
            let compiled = seen.iter().any(|t| t.contains(text.trim_end()));
            let lost_tests = fresh.iter().any(|k| !["short", "eintr", "torn", "fsync_fail", "write_fail", "rename_fail"].contains(&k.as_str()));
            match v {
                Verdict::Accept { warned } => {
                    cx.probe("accepted");
                    if bad.is_some() {
                        return cx.fail("wrong-verdict", format!("{}: accepted, but the compiler rejects this text", what()));
                    }
                    if !compiled {
                        return cx.fail("unfounded-verdict", format!("{}: accepted, but the compiler never accepted this text", what()));
                    }
                    if vstr(c, "via") == "verify" && *warned != text.contains("simwarn_") {
                        return cx.fail("wrong-verdict", format!("{}: warnings reported: {warned}", what()));
                    }
                }
                Verdict::Passed => {
                    cx.probe("accepted");
                    if bad.is_some() {
                        return cx.fail("wrong-verdict", format!("{}: trace passed, but the compiler rejects this text", what()));
                    }
                    if vu(c, "n") % 2 == 1 && text.contains("unsafe {") {
                        return cx.fail("wrong-verdict", format!("{}: trace passed with an unsafe block although none is allowed", what()));
                    }
                    if !compiled {
                        return cx.fail("unfounded-verdict", format!("{}: passed, but the compiler never accepted this text", what()));
                    }
                }
                Verdict::Full | Verdict::CompilesOnly | Verdict::Changed => {
                    if bad.is_some() {
                        return cx.fail("wrong-verdict", format!("{}: {v:?}, but the compiler rejects this text", what()));
                    }
                    if !compiled {
                        return cx.fail("unfounded-verdict", format!("{}: {v:?}, but the compiler never accepted this text", what()));
                    }
                    let tests = vstr(c, "tests");
                    let want_ok = match (v, tests.as_str()) {
                        (Verdict::Full, "pass") => {
                            cx.probe("tests_passed");
                            true
                        }
                        (Verdict::CompilesOnly, "none") => true,
                        (Verdict::Changed, "fail" | "crash") => {
                            cx.probe("tests_failed");
                            true
                        }
                        // conservative under faults
                        (Verdict::Changed, "pass" | "none") => lost_tests,
                        _ => false,
                    };
                    if !want_ok {
                        return cx.fail("wrong-verdict", format!("{}: {v:?} with a test suite that {tests}", what()));
                    }
                }
                Verdict::Many(rs) => {
                    cx.probe("batch");
                    if rs.len() != 3 || (rs[1] && bad.is_some()) || (!faulted && *rs != vec![true, bad.is_none(), true]) {
                        return cx.fail("wrong-verdict", format!("{}: batch verdicts {rs:?}", what()));
                    }
                }
                Verdict::Reject(e) => {
                    cx.probe("rejected");
                    match &bad {
                        Some(m) if e.contains(&format!("mismatched types {m}")) => {
                            if vstr(c, "via") == "verify" && !e.contains("Some(\"E0308\")") {
                                return cx.fail("wrong-verdict", format!("{}: error code lost: {e}", what()));
                            }
                        }
                        _ if e.contains("unsafe block") && vu(c, "n") % 2 == 1 && text.contains("unsafe {") => {}
                        // the compiler died without a word
                        _ if e.trim().is_empty() && fresh.iter().any(|k| k.starts_with("tool_") || k.starts_with("crash")) => {}
                        // the compiler itself met the fault: a rejection with its own reason
                        _ if !fresh.is_empty() && (e.contains("could not write output") || (e.contains("couldn't read") && !e.contains("No such file"))) => {}
                        _ => return cx.fail("wrong-verdict", format!("{}: rejected with errors of another text: {e}", what())),
                    }
                }
                Verdict::Unknown(e) => {
                    if !faulted {
                        return cx.fail("no-verdict", format!("{}: nothing failed, but there is no verdict: {e}", what()));
                    }
                    cx.probe("error_under_fault");
                }
            }
        }
        if fresh.iter().any(|k| ["unlink_fail", "eio", "eacces"].contains(&k.as_str())) {
            littered = true;
        }
        let now: BTreeMap<String, Vec<u8>> = os::sim().fs.tree("/").into_iter().collect();
        for (k, v) in &base {
            if now.get(k) != Some(v) {
                return cx.fail("touches-other-files", format!("{k}, which verification did not create, changed"));
            }
        }
        if !littered {
            if let Some(k) = now.keys().find(|k| !base.contains_key(*k)) {
                return cx.fail("leftover", format!("verification left {k} behind (faults: {fresh:?})"));
            }
        }
    }
    cx.nontrivial = exciting;
}

// ------------------------------------------------------------------ P07
fn bytes(r: &mut Rng) -> String {
    match r.below(9) {
        0 => String::new(),
        1 => "hello\n".into(),
        2 => "\u{ff}\u{fe}\n".into(),
        3 => "\u{ff}\u{fd}\n".into(),
        4 => format!("{}\n", r.below(3)),
        5 => "x".repeat(70_000 + r.below(80_000) as usize),
        6 => "a\r\n".into(),
        7 => "hello".into(),
        _ => format!("line {}\n", r.below(4)),
    }
}
const S: u64 = 1_000_000_000;
fn script(r: &mut Rng) -> Script {
    let mut s = Script::default();
    for _ in 0..r.below(4) {
        s.out.push((*r.pick(&[0, 0, 1000, S / 2]), *r.pick(&[1, 1, 2]), bytes(r)));
    }
    match r.below(10) {
        0 => s.code = -1,
        1 => s.end_delay = *r.pick(&[S, 3 * S, 20 * S, 3600 * S]),
        2 => s.signal = *r.pick(&[6, 11, 9]),
        3 | 4 => s.code = *r.pick(&[1, 2, 255]),
        _ => {}
    }
    s
}
fn gen7(r: &mut Rng, _t: bool) -> Plan {
    let mut cfg = swarm(r, 900);
    cfg.step_limit = 200_000;
    let wild = r.chance(1, 8);
    let n = 1 + r.below(4);
    let mut ops = vec![];
    for i in 0..n {
        let c = script(r);
        let mut twist = false;
        let mut rs = if r.chance(3, 5) { c.clone() } else { script(r) };
        match r.below(8) {
            0 => rs.code = *r.pick(&[0, 1, 3]),
            1 => rs.signal = *r.pick(&[6, 11]),
            // the same number as code and as signal
            7 if c.signal != 0 => {
                rs = Script { signal: 0, code: *r.pick(&[c.signal, c.signal + 128, 256 - c.signal, 1]), ..c.clone() };
                twist = true;
            }
            7 if c.code > 0 && r.chance(1, 2) => {
                rs = Script { code: *r.pick(&[c.code + 1, c.code ^ 128, 256 - c.code, c.code + 256]), ..c.clone() };
            }
            2 => rs.out.push((0, 1, bytes(r))),
            3 => {
                rs.out.pop();
            }
            4 => {
                // the same bytes in other pieces and with other timing
                let all: String = rs.out.iter().filter(|o| o.1 == 1).map(|o| o.2.clone()).collect();
                rs.out = all.chars().collect::<Vec<_>>().chunks((all.len() / 3).max(1)).map(|c| (1000, 1, c.iter().collect())).collect();
            }
            _ => {}
        }
        let timeout = *r.pick(&[1u64, 2, 5, 5, 60]);
        let (mut c, mut rs) = if twist && r.chance(1, 2) { (rs, c) } else { (c, rs) };
        if !wild {
            // stay clear of what known findings are about, so that they hide nothing else
            for s in [&mut c, &mut rs] {
                s.code = s.code.max(0);
                if s.duration() + 2 * S > timeout * S {
                    s.end_delay = 0;
                    s.out.iter_mut().for_each(|o| o.0 = o.0.min(1000));
                }
            }
            if c.signal != 0 && rs.signal != 0 {
                rs.signal = c.signal;
            }
            if c.stdout() != rs.stdout() && String::from_utf8_lossy(&c.stdout()) == String::from_utf8_lossy(&rs.stdout()) {
                for o in c.out.iter_mut().chain(rs.out.iter_mut()) {
                    o.2 = o.2.replace('\u{fd}', "\u{fe}");
                }
            }
        }
        ops.push(json!({"k": "test", "id": i, "c": c, "rust": rs, "timeout": timeout, "cli": r.chance(1, 3), "stderr": r.chance(1, 4),
            "cfail": r.chance(1, 20), "rfail": r.chance(1, 20), "with": r.chance(1, 3)}));
        if r.chance(1, 8) {
            cfg.faults.push(tool_fault(r, i as u32, &["rustc", "gcc"], 1));
        }
        if r.chance(1, 3) {
            let k = if r.chance(1, 6) { "crash" } else { *r.pick(FILE_FAULTS) };
            let f = *r.pick(&["", "", "/tmp", "rustc", "gcc", "_binary", "<wait>", "input"]);
            cfg.faults.push(fault(i as u32, r.below(if f.is_empty() { 60 } else { 5 }) as u32, k, f));
        }
    }
    plan("P07", cfg, ops, Value::Null)
}

struct Seen {
    op: Value,
    /// Ok((passed, stdout matches, code matches, divergences, c stdout, c code, rust stdout, rust code)) or the error
    res: Result<(bool, bool, bool, usize, String, i32, String, i32), String>,
    took: u64,
}
fn exec7(p: &Plan, cx: &mut Ctx) {
    use decy_verify::diff_test::{diff_test, DiffTestConfig};
    os::sim().fs.put_durable("/tmp/keep", b"not ours", 0);
    os::sim().fs.settle();
    let base: Vec<(String, Vec<u8>)> = os::sim().fs.tree("/tmp");
    unsafe { progs::COMPILE_NS = (1_000_000, 300_000_000) };
    let mut i = 0;
    let ops: Vec<Value> = p.ops.clone();
    while i < ops.len() && !cx.failed() {
        // tests marked "with" run at the same time as the one before
        let mut j = i + 1;
        while j < ops.len() && vb(&ops[j], "with") {
            j += 1;
        }
        let group: Vec<Value> = ops[i..j].to_vec();
        i = j;
        let f0 = os::sim().fired.clone();
        let seen: Arc<Mutex<Vec<Seen>>> = Arc::default();
        let mut qs = vec![];
        for op in &group {
            let n = vu(op, "id");
            let c: Script = serde_json::from_value(op["c"].clone()).unwrap_or_default();
            let r: Script = serde_json::from_value(op["rust"].clone()).unwrap_or_default();
            progs::scripts().insert(format!("c:{n}"), c);
            progs::scripts().insert(format!("rust:{n}"), r);
            os::sim().tag = n as u32;
            let cf = if vb(op, "cfail") { format!("int simcfail_{n};\n") } else { String::new() };
            let rf = if vb(op, "rfail") { format!("int simfail_{n}(void) {{ return 0; }}\n") } else { String::new() };
            let c_code = format!("int simprog_{n}(int a) {{ return a; }}\n{cf}{rf}int main(void) {{ return 0; }}\n");
            let t0 = os::sim().now;
            let q;
            if vb(op, "cli") && group.len() == 1 {
                cx.probe("cli");
                os::sim().fs.put_durable("/sim/t.c", c_code.as_bytes(), 0);
                q = os::launch_decy("/sim", &["diff-test", "/sim/t.c", "--timeout", &vu(op, "timeout").to_string()]);
            } else {
                let (op, seen) = (op.clone(), seen.clone());
                q = os::launch("difftest", "/sim", move || {
                    let cfg = DiffTestConfig { timeout_secs: vu(&op, "timeout"), compare_stderr: vb(&op, "stderr"), ..Default::default() };
                    let rust = format!("fn simprog_{n}() {{}}\n{}fn main() {{}}\n", if vb(&op, "rfail") { "fn simfail_x() {}\n" } else { "" });
                    let r = diff_test(&c_code, &rust, &cfg);
                    let _b = os::Busy::new();
                    let res = r.map(|r| (r.passed(), r.stdout_matches, r.exit_code_matches, r.divergences.len(), r.c_output.stdout.clone(), r.c_output.exit_code, r.rust_output.stdout.clone(), r.rust_output.exit_code)).map_err(|e| format!("{e:#}"));
                    let took = os::sim().now - t0;
                    seen.lock().unwrap().push(Seen { op, res, took });
                    0
                });
            }
            qs.push((q, t0, op.clone()));
        }
        if group.len() > 1 {
            cx.probe("parallel");
        }
        let end = os::run();
        os::sim().fs.capacity = None;
        let f1 = os::sim().fired.clone();
        let fresh: Vec<String> = f1.iter().filter(|(k, v)| f0.get(*k) != Some(*v) && !k.starts_with("clock")).map(|x| x.0.clone()).collect();
        let faulted = !fresh.is_empty();
        if end == os::RunEnd::Deadlock || end == os::RunEnd::StepLimit {
            let class = if group.iter().any(|op| past_limit(op).0) { "limit-ignored" } else { "no-progress" };
            return cx.fail(class, format!("differential test did not end: {end:?}"));
        }
        let mut crashed = false;
        for (q, t0, op) in &qs {
            let pr = &os::sim().procs[*q];
            if pr.stderr.windows(8).any(|w| w == b"panicked") {
                return cx.fail("panic", show(&pr.stderr.clone()));
            }
            if pr.exit == Some(os::Exit::Crashed) {
                crashed = true;
                continue;
            }
            if vb(op, "cli") && group.len() == 1 {
                let out = String::from_utf8_lossy(&pr.stdout).into_owned();
                let err = String::from_utf8_lossy(&pr.stderr).into_owned();
                let pass = pr.exit == Some(os::Exit::Code(0));
                if pass != out.contains("PASS") || (out.contains("PASS") && out.contains("FAIL")) {
                    return cx.fail("wrong-report", format!("exit {:?} but the report says {out:?}", pr.exit));
                }
                let res = if pass || out.contains("FAIL") { Ok(pass) } else { Err(err) };
                if let Some(v) = judge(cx, op, res, pr.ended_at.max(*t0) - t0, faulted) {
                    return cx.fail(v.0, v.1);
                }
            }
            // nothing the test started may still be running
            if let Some(k) = os::sim().procs.iter().find(|k| k.parent == Some(*q) && k.exit.is_none()) {
                return cx.fail("runaway-child", format!("after the test of {op} its child {} is still running", k.name));
            }
        }
        let list = std::mem::take(&mut *seen.lock().unwrap());
        for s in &list {
            let res = match &s.res {
                Ok(r) => Ok(r.0),
                Err(e) => Err(e.clone()),
            };
            if let Some(v) = judge(cx, &s.op, res, s.took, faulted) {
                return cx.fail(v.0, v.1);
            }
            if let Ok((passed, so, co, nd, cs, cc, rs, rc)) = &s.res {
                let c: Script = serde_json::from_value(s.op["c"].clone()).unwrap_or_default();
                let r: Script = serde_json::from_value(s.op["rust"].clone()).unwrap_or_default();
                let lossy = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
                if *cs != lossy(c.stdout()) || *rs != lossy(r.stdout()) {
                    return cx.fail("wrong-capture", format!("captured output is not what the programs wrote: {} / {}", show(cs.as_bytes()), show(rs.as_bytes())));
                }
                if (c.signal == 0 && *cc != c.code & 0xff) || (r.signal == 0 && *rc != r.code & 0xff) {
                    return cx.fail("wrong-capture", format!("exit codes {cc}/{rc}, programs ended with {}/{}", c.code, r.code));
                }
                let (so_ok, co_ok) = (*so == (c.stdout() == r.stdout()), *co == (ended(&c) == ended(&r)));
                if !so_ok || !co_ok {
                    let (text, signals) = look_alike(&c, &r);
                    let class = match (so_ok || text, co_ok || signals) {
                        (true, true) if !co_ok => "signals-alike",
                        (true, true) => "invalid-text-alike",
                        _ => "wrong-comparison",
                    };
                    return cx.fail(class, format!("stdout matches: {so}, termination matches: {co} for {}", s.op));
                }
                let stderr_differs = vb(&s.op, "stderr") && lossy(c.stderr()) != lossy(r.stderr());
                let want = usize::from(!so) + usize::from(!co) + usize::from(stderr_differs);
                if *nd != want || *passed != (*so && *co) {
                    return cx.fail("wrong-comparison", format!("{nd} divergences listed, {want} exist, passed {passed}: {}", s.op));
                }
            }
        }
        if !crashed && !fresh.iter().any(|k| ["unlink_fail", "eio", "eacces", "readdir_eio", "opendir_eacces", "emfile", "eio_read", "eacces_read", "open_fail"].contains(&k.as_str())) {
            let now = os::sim().fs.tree("/tmp");
            if now != base {
                return cx.fail("leftover", format!("scratch files remain: {:?} (faults {fresh:?})", now.iter().map(|x| &x.0).collect::<Vec<_>>()));
            }
        } else {
            // litter of a crash or of a failed removal is nobody's fault
            let now: Vec<String> = os::sim().fs.tree("/tmp").into_iter().map(|x| x.0).filter(|k| k != "/tmp/" && k != "/tmp/keep").collect();
            for k in now.iter().rev() {
                let _ = os::sim().fs.unlink(k.trim_end_matches('/'), k.ends_with('/'), 0);
            }
        }
    }
}
/// What must be true of one finished test.
fn judge(cx: &mut Ctx, op: &Value, res: Result<bool, String>, took: u64, faulted: bool) -> Option<(&'static str, String)> {
    let c: Script = serde_json::from_value(op["c"].clone()).unwrap_or_default();
    let r: Script = serde_json::from_value(op["rust"].clone()).unwrap_or_default();
    let limit = vu(op, "timeout") * S;
    let hit = os::sim().tool_hits.iter().any(|h| h.0 as u64 == vu(op, "id"));
    if hit {
        cx.probe("compiler_died");
    }
    let fails = vb(op, "cfail") || vb(op, "rfail") || hit;
    let same = c.stdout() == r.stdout() && ended(&c) == ended(&r);
    let (over, under) = past_limit(op);
    if c.out.iter().any(|o| o.2.len() > 65536) {
        cx.probe("big_output");
    }
    if c.out.iter().any(|o| o.2.starts_with('\u{ff}')) {
        cx.probe("invalid_utf8");
    }
    if took > 2 * limit + 30 * S {
        return Some((if over { "limit-ignored" } else { "unbounded-time" }, format!("with a limit of {} s per program the test took {} s: {op}", limit / S, took / S)));
    }
    match res {
        Ok(pass) => {
            if fails {
                return Some(("verdict-without-run", format!("a program that does not compile got a verdict ({pass}): {op}")));
            }
            if over {
                return Some(("limit-ignored", format!("a program that runs past the limit got a verdict ({pass}): {op}")));
            }
            if pass != same {
                let (text, signals) = look_alike(&c, &r);
                let class = match (c.stdout() == r.stdout() || text, ended(&c) == ended(&r) || signals) {
                    (true, true) if pass && signals => "signals-alike",
                    (true, true) if pass && text => "invalid-text-alike",
                    _ => "wrong-verdict",
                };
                return Some((class, format!("reported {} but the programs {}: {op}", if pass { "as identical" } else { "as different" }, if same { "behave alike" } else { "differ" })));
            }
            cx.nontrivial = true;
            if pass {
                cx.probe("pass");
            } else if c.stdout() != r.stdout() {
                cx.probe("differ_stdout");
            } else {
                cx.probe("differ_code");
            }
            if c.signal != 0 {
                cx.probe("signal");
            }
        }
        Err(e) => {
            if over && !fails {
                cx.probe("timeout");
                cx.nontrivial = true;
            } else if faulted {
                cx.probe("error_under_fault");
            } else if under && !fails {
                return Some(("no-verdict", format!("nothing failed and both programs end in time, but there is no verdict: {e}: {op}")));
            }
        }
    }
    None
}
/// Does a program certainly run past the limit; do both certainly end before?
fn past_limit(op: &Value) -> (bool, bool) {
    let c: Script = serde_json::from_value(op["c"].clone()).unwrap_or_default();
    let r: Script = serde_json::from_value(op["rust"].clone()).unwrap_or_default();
    let limit = vu(op, "timeout") * S;
    let dur = |s: &Script| if s.code == -1 { u64::MAX / 4 } else { s.duration() };
    let (dc, dr) = (dur(&c), dur(&r));
    // the limit is kept to within the clock's granularity and the scheduler's delays
    let slack = 2 * os::sim().cfg.clock_gran + S / 4;
    (dc > limit + slack || dr > limit + slack, dc + slack < limit && dr + slack < limit)
}
/// Do the programs differ in the ways the test is known not to see (output that is no text, the signal)?
fn look_alike(c: &Script, r: &Script) -> (bool, bool) {
    let text = c.stdout() != r.stdout() && String::from_utf8_lossy(&c.stdout()) == String::from_utf8_lossy(&r.stdout());
    (text, c.signal != 0 && r.signal != 0 && c.signal != r.signal)
}
fn ended(s: &Script) -> (i32, i32) {
    (if s.signal == 0 { s.code & 0xff } else { 0 }, s.signal)
}
