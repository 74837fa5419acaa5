//! Seeded search: plans are generated from seeds, executed in forked children of worker
//! processes, failures are minimised, written as replay files and replayed.
use crate::os;
use crate::plan::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const RUN_TIMEOUT: Duration = Duration::from_secs(60);

pub fn find(id: &str) -> &'static Prop {
    crate::props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

// ------------------------------------------------------------------ one run
fn execute(p: &Plan, trace: bool) -> Outcome {
    let prop = find(&p.prop);
    os::install(os::Sim::new(p.cfg.clone()));
    os::sim().keep_trace = trace;
    let mut cx = Ctx::default();
    (prop.exec)(p, &mut cx);
    let s = os::sim();
    let mut probes = cx.probes;
    for (k, v) in &s.probes {
        *probes.entry(k.clone()).or_insert(0) += v;
    }
    Outcome {
        violation: cx.viol.or(if p.seed % 64 == 0 { cx.soft } else { None }),
        hash: s.hash,
        sched: s.sched_hash,
        sim_ns: s.now,
        steps: s.step,
        switches: s.switches,
        fired: s.fired.clone(),
        probes,
        nontrivial: cx.nontrivial,
        trace: std::mem::take(&mut s.trace),
    }
}

/// Fork a child that runs the plan and sends the outcome back.
fn forked(p: &Plan, trace: bool) -> Outcome {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            // the child's own stderr chatter is of no interest unless it dies
            let o = execute(p, trace);
            let b = serde_json::to_vec(&o).unwrap();
            let mut off = 0;
            while off < b.len() {
                let n = libc::write(fds[1], b[off..].as_ptr() as *const _, b.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::syscall(libc::SYS_exit_group, 0);
        }
        libc::close(fds[1]);
        let t0 = Instant::now();
        let mut buf = vec![];
        let mut hang = false;
        let mut chunk = vec![0u8; 1 << 16];
        loop {
            let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let left = RUN_TIMEOUT.saturating_sub(t0.elapsed()).as_millis() as i32;
            if left == 0 {
                hang = true;
                break;
            }
            let n = libc::poll(&mut pf, 1, left);
            if n <= 0 {
                continue;
            }
            let n = libc::read(fds[0], chunk.as_mut_ptr() as *mut _, chunk.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        if hang {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        libc::close(fds[0]);
        match serde_json::from_slice(&buf) {
            Ok(o) => o,
            Err(_) => {
                let what = if hang {
                    ("hang".to_string(), "the run did not end within the real-time limit".to_string())
                } else {
                    ("process-death".to_string(), format!("the process under test died: wait status {st:#x}"))
                };
                Outcome { violation: Some(what), nontrivial: true, ..Default::default() }
            }
        }
    }
}

// ------------------------------------------------------------------ workers
pub fn worker() {
    warm();
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let v: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(_) => break,
        };
        let p: Plan = serde_json::from_value(v["plan"].clone()).unwrap();
        let o = forked(&p, v["trace"].as_bool().unwrap_or(false));
        let mut out = std::io::stdout().lock();
        serde_json::to_writer(&mut out, &o).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
fn warm() {
    // one parse outside the simulation initialises libclang's process-wide state
    std::panic::set_hook(Box::new(|i| {
        if os::me().is_none() {
            eprintln!("harness panic: {i}");
        } else {
            // what the default hook prints, to the simulated stderr, without a backtrace
            eprintln!("\nthread panicked at {}:\n{}", i.location().map(|l| l.to_string()).unwrap_or_default(), i.payload_as_str().unwrap_or("?"));
        }
    }));
    let _ = decy_core::transpile("int warm(int a) { return a; }");
}

struct Worker {
    child: Child,
    inp: std::process::ChildStdin,
    out: BufReader<std::process::ChildStdout>,
}
impl Worker {
    fn start() -> Worker {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .arg("worker")
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", "/home/user")
            .env("USER", "user")
            .env("LIBCLANG_NOTHREADS", "1")
            .env("RUST_BACKTRACE", "0")
            .env("RUST_LIB_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("start worker");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
        Worker { child, inp, out }
    }
    fn run(&mut self, p: &Plan, trace: bool) -> Option<Outcome> {
        let line = serde_json::to_string(&json!({"plan": p, "trace": trace})).unwrap();
        writeln!(self.inp, "{line}").ok()?;
        self.inp.flush().ok()?;
        let mut s = String::new();
        self.out.read_line(&mut s).ok()?;
        serde_json::from_str(&s).ok()
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn run_fresh(p: &Plan, trace: bool) -> Outcome {
    for _ in 0..3 {
        if let Some(o) = Worker::start().run(p, trace) {
            return o;
        }
    }
    panic!("worker does not answer");
}

// ------------------------------------------------------------------ the check
pub fn gen_plan(prop: &Prop, seed: u64, thorough: bool) -> Plan {
    let mut r = os::Rng::new(seed);
    let mut p = (prop.gen)(&mut r, thorough);
    p.prop = prop.id.into();
    p.seed = seed;
    p
}

fn known() -> Vec<(String, String, String)> {
    // lines: finding: property=<id> class=<class> <what fails>
    let t = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (id, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("class=")?;
            let (class, what) = rest.split_once(' ')?;
            Some((id.to_string(), class.to_string(), what.to_string()))
        })
        .collect()
}
pub fn root() -> std::path::PathBuf {
    std::env::var_os("DECYSIM_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

pub fn check(id: &str, tier: &str) -> i32 {
    let prop = find(id);
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let n = std::env::var("DECYSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { prop.thorough } else { prop.quick });
    let cap = Duration::from_secs(std::env::var("DECYSIM_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 14_400 } else { 480 }));
    let jobs = std::env::var("DECYSIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let known: Vec<_> = known().into_iter().filter(|k| k.0 == id).collect();

    // every id mixes in its own stream
    let mut idh = 0u64;
    for b in id.bytes() {
        idh = idh.wrapping_mul(131).wrapping_add(b as u64);
    }
    let seed_of = move |i: usize| base.wrapping_mul(1_000_003).wrapping_add(idh << 32).wrapping_add(i as u64);
    let fixed = (prop.fixed)();
    let nfixed = fixed.len();
    // work items: fixed plans, then seeds; the first few seeds are run again at the end
    let rerun = 16.min(n);
    let mut items: VecDeque<(usize, u8)> = (0..nfixed + n).map(|i| (i, 0)).collect();
    items.extend((nfixed..nfixed + rerun).map(|i| (i, 1)));
    let items = Arc::new(Mutex::new(items));
    let fixed = Arc::new(fixed);

    #[derive(Default)]
    struct Agg {
        runs: u64,
        nontrivial: u64,
        plans: BTreeSet<u64>,
        scheds: BTreeSet<u64>,
        hashes: BTreeSet<u64>,
        sim_ns: u128,
        steps: u64,
        switches: u64,
        fired: BTreeMap<String, u64>,
        probes: BTreeMap<String, u64>,
        first: BTreeMap<usize, u64>,
        second: BTreeMap<usize, u64>,
        viols: Vec<(usize, Plan, Outcome)>,
        lost: u64,
        samples: Vec<Value>,
    }
    let agg = Arc::new(Mutex::new(Agg::default()));
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let known_classes: Vec<String> = known.iter().map(|k| k.1.clone()).collect();
    let mut hs = vec![];
    for _ in 0..jobs {
        let (items, fixed, agg, stop, known_classes) = (items.clone(), fixed.clone(), agg.clone(), stop.clone(), known_classes.clone());
        hs.push(std::thread::spawn(move || {
            let mut w = Worker::start();
            loop {
                if stop.load(std::sync::atomic::Ordering::SeqCst) || t0.elapsed() > cap {
                    break;
                }
                let Some((i, round)) = items.lock().unwrap().pop_front() else { break };
                let p = if i < nfixed {
                    let mut p = fixed[i].clone();
                    p.prop = prop.id.into();
                    p
                } else {
                    gen_plan(prop, seed_of(i - nfixed), thorough)
                };
                let o = match w.run(&p, false) {
                    Some(o) => o,
                    None => {
                        w = Worker::start();
                        match w.run(&p, false) {
                            Some(o) => o,
                            None => {
                                agg.lock().unwrap().lost += 1;
                                w = Worker::start();
                                continue;
                            }
                        }
                    }
                };
                let mut a = agg.lock().unwrap();
                if round == 1 {
                    a.second.insert(i, o.hash);
                    continue;
                }
                a.first.insert(i, o.hash);
                a.runs += 1;
                if o.nontrivial {
                    a.nontrivial += 1;
                    a.hashes.insert(o.hash);
                }
                let mut pc = p.clone();
                pc.seed = 0;
                let ph = fnv(&serde_json::to_vec(&pc).unwrap());
                a.plans.insert(ph);
                a.scheds.insert(o.sched);
                a.sim_ns += o.sim_ns as u128;
                a.steps += o.steps;
                a.switches += o.switches;
                for (k, v) in &o.fired {
                    *a.fired.entry(k.clone()).or_insert(0) += v;
                }
                for (k, v) in &o.probes {
                    *a.probes.entry(k.clone()).or_insert(0) += v;
                }
                if a.samples.len() < 3 && o.nontrivial {
                    let s = json!({"plan": p, "steps": o.steps, "faults_fired": o.fired, "probes": o.probes});
                    a.samples.push(s);
                }
                if let Some((c, _)) = &o.violation {
                    let c = c.clone();
                    a.viols.push((i, p, o));
                    if !known_classes.contains(&c) && a.viols.iter().filter(|v| v.2.violation.as_ref().map_or(false, |x| !known_classes.contains(&x.0))).count() >= 3 {
                        stop.store(true, std::sync::atomic::Ordering::SeqCst);
                    }
                }
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let mut a = std::mem::take(&mut *agg.lock().unwrap());
    let explored_s = t0.elapsed().as_secs_f64();
    a.viols.sort_by_key(|v| v.0);

    // determinism of the runs that were executed twice
    let mut det_ok = 0;
    let mut det_bad = vec![];
    for (i, h) in &a.second {
        if let Some(h1) = a.first.get(i) {
            if h1 == h {
                det_ok += 1;
            } else {
                det_bad.push(*i);
            }
        }
    }

    // report
    let mut reported = vec![];
    let mut unreproduced = vec![];
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    for (_, p, o) in &a.viols {
        let (class, detail) = o.violation.clone().unwrap();
        if known_classes.contains(&class) {
            *known_seen.entry(class).or_insert(0) += 1;
            continue;
        }
        if reported.len() >= 1 {
            continue;
        }
        // it must come back in a fresh process before it counts
        let again = (0..2).filter(|_| run_fresh(p, false).violation.as_ref().map_or(false, |v| v.0 == class)).count();
        if again == 0 {
            unreproduced.push(json!({"class": class, "detail": detail, "seed": p.seed}));
            continue;
        }
        let (m, mo) = shrink(p, &class, Duration::from_secs(if thorough { 300 } else { 60 }));
        let (mc, md) = mo.violation.clone().unwrap_or((class.clone(), detail.clone()));
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{id}-{}.json", p.seed));
        let full = run_fresh(&m, true);
        let doc = json!({
            "property": id, "seed": p.seed, "class": mc, "violation": md,
            "plan": m, "original_plan": p, "log_hash": full.hash, "trace": full.trace,
            "replay": format!("/verif/target/debug/decysim replay {}", file.display()),
        });
        std::fs::write(&file, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("violation class: {mc}\nseed: {}\n{md}", p.seed);
        let text = serde_json::to_string(&m).unwrap();
        println!("minimised plan: {}{}", text.chars().take(4000).collect::<String>(), if text.chars().count() > 4000 { "... (the rest is in the replay file)" } else { "" });
        println!("VIOLATION property={id} replay={}", file.display());
        reported.push(json!({"class": mc, "detail": md, "seed": p.seed, "replay": file}));
    }
    for (_, class, what) in &known {
        println!("KNOWN-FINDING: property={id} {what} (seen {} times in this run)", known_seen.get(class).unwrap_or(&0));
    }
    let missing: Vec<_> = prop.must.iter().filter(|m| !a.probes.contains_key(**m)).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": id, "tier": tier, "seed": base, "level": prop.level,
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.hashes.len(),
            "rule": prop.rule,
            "samples": a.samples,
            "simulated_runs": a.runs,
            "runs_with_nontrivial_history": a.nontrivial,
            "distinct_plans": a.plans.len(),
            "distinct_interleavings": a.scheds.len(),
            "interleaving_measure": "hash of the sequence of (step, thread handed the processor) of a run",
            "state_measure": "distinct_nontrivial counts distinct hashes of the complete event log (every simulated system call, switch and fault) of non-trivial runs",
            "seeds_per_hour": if explored_s > 0.0 { (a.runs as f64 / explored_s * 3600.0).round() } else { 0.0 },
            "simulated_seconds": (a.sim_ns / 1_000_000) as f64 / 1000.0,
            "scheduling_steps": a.steps,
            "context_switches": a.switches,
            "faults_fired": a.fired,
            "probes": a.probes,
            "probes_never_reached": missing,
            "replayed_twice_identical": det_ok,
            "replayed_twice_different": det_bad,
            "runs_lost": a.lost,
            "unreproduced_violations": unreproduced,
            "real_code": prop.real,
            "stubs": prop.stub,
            "fixed_plans": nfixed,
        },
        "assumptions": prop.assume,
        "wall_s": wall,
        "violations": reported.len(),
        "violation_list": reported,
        "known_findings_seen": known_seen,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{id} {tier}: {} runs, {} distinct non-trivial, {} interleavings, {:.0} simulated s, {} faults, determinism {}/{}, {:.1}s{}",
        a.runs,
        a.hashes.len(),
        a.scheds.len(),
        (a.sim_ns / 1_000_000) as f64 / 1000.0,
        a.fired.values().sum::<u64>(),
        det_ok,
        det_ok + det_bad.len(),
        wall,
        if missing.is_empty() { String::new() } else { format!(" NEVER REACHED: {missing:?}") }
    );
    if reported.is_empty() {
        0
    } else {
        1
    }
}
pub fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

// ------------------------------------------------------------------ minimisation
fn shrink(p: &Plan, class: &str, budget: Duration) -> (Plan, Outcome) {
    let t0 = Instant::now();
    let w = std::cell::RefCell::new(Worker::start());
    let best_o = std::cell::RefCell::new(run_fresh(p, false));
    let try_ = |c: &Plan| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        let mut w = w.borrow_mut();
        match w.run(c, false) {
            Some(o) if o.violation.as_ref().map_or(false, |v| v.0 == class) => {
                *best_o.borrow_mut() = o;
                true
            }
            Some(_) => false,
            None => {
                *w = Worker::start();
                false
            }
        }
    };
    let mut cur = p.clone();
    macro_rules! ddmin {
        ($get:expr, $set:expr) => {{
            let mut size = ($get(&cur).len() / 2).max(1);
            loop {
                let mut i = 0;
                let mut any = false;
                while i < $get(&cur).len() {
                    let mut v = $get(&cur).clone();
                    let e = (i + size).min(v.len());
                    v.drain(i..e);
                    let mut c = cur.clone();
                    $set(&mut c, v);
                    if try_(&c) {
                        cur = c;
                        any = true;
                    } else {
                        i += size;
                    }
                    if t0.elapsed() > budget {
                        break;
                    }
                }
                if size == 1 && !any || t0.elapsed() > budget {
                    break;
                }
                size = (size / 2).max(1);
            }
        }};
    }
    for _ in 0..2 {
        ddmin!(|p: &Plan| p.cfg.faults.clone(), |p: &mut Plan, v| p.cfg.faults = v);
        ddmin!(|p: &Plan| p.cfg.preempts.clone(), |p: &mut Plan, v| p.cfg.preempts = v);
        ddmin!(|p: &Plan| p.cfg.wall_jumps.clone(), |p: &mut Plan, v| p.cfg.wall_jumps = v);
        ddmin!(|p: &Plan| p.ops.clone(), |p: &mut Plan, v| p.ops = v);
        let d = os::SimCfg::default();
        let edits: Vec<Box<dyn Fn(&mut os::SimCfg)>> = vec![
            Box::new(|c| c.short_io = 0),
            Box::new(|c| c.pid_reuse = false),
            Box::new(|c| c.alloc_preempt = 0),
            Box::new(|c| c.readdir_seed = 0),
            Box::new(|c| c.sched_seed = 0),
            Box::new(|c| c.clock_gran = 1),
            Box::new(|c| c.mtime_gran = 1),
            Box::new({
                let w = d.wall_start;
                move |c| c.wall_start = w
            }),
            Box::new({
                let w = d.op_ns;
                move |c| c.op_ns = w
            }),
            Box::new(|c| c.hash_seed = 1),
        ];
        for e in &edits {
            let mut c = cur.clone();
            e(&mut c.cfg);
            if serde_json::to_string(&c.cfg).unwrap() != serde_json::to_string(&cur.cfg).unwrap() && try_(&c) {
                cur = c;
            }
        }
    }
    let o = best_o.borrow().clone();
    (cur, o)
}

// ------------------------------------------------------------------ replay
pub fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("read replay file");
    let v: Value = serde_json::from_str(&t).expect("replay file is JSON");
    let p: Plan = serde_json::from_value(v["plan"].clone()).expect("plan");
    let o = run_fresh(&p, true);
    for l in &o.trace {
        println!("{l}");
    }
    match &o.violation {
        Some((c, d)) => {
            println!("class: {c}\n{d}");
            println!("log hash {} ({})", o.hash, if Some(o.hash) == v["log_hash"].as_u64() { "identical to the recorded run" } else { "differs from the recorded run" });
            println!("VIOLATION property={} replay={file}", p.prop);
            1
        }
        None => {
            println!("no violation; log hash {}", o.hash);
            0
        }
    }
}
pub fn one(id: &str, seed: u64, trace: bool) -> i32 {
    let p = gen_plan(find(id), seed, false);
    println!("{}", serde_json::to_string_pretty(&p).unwrap());
    let o = run_fresh(&p, trace);
    for l in &o.trace {
        println!("{l}");
    }
    println!("{:?}\nfired {:?}\nprobes {:?}\nsteps {} hash {}", o.violation, o.fired, o.probes, o.steps, o.hash);
    0
}
pub fn read_all() -> String {
    let mut s = String::new();
    let _ = std::io::stdin().read_to_string(&mut s);
    s
}
/// Tool used once to build corpus/: which snippets transpile, and how fast.
pub fn corpus(file: &str) {
    for l in std::fs::read_to_string(file).unwrap().lines() {
        let v: Value = serde_json::from_str(l).unwrap();
        let src = v["s"].as_str().unwrap().to_string();
        let t = Instant::now();
        let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || decy_core::transpile(&src)).unwrap().join();
        let us = t.elapsed().as_micros() as u64;
        let (ok, len) = match r {
            Ok(Ok(s)) => ("ok", s.len()),
            Ok(Err(_)) => ("err", 0),
            Err(_) => ("panic", 0),
        };
        println!("{}", json!({"r": ok, "us": us, "len": len, "n": v["n"], "s": v["s"]}));
    }
}
