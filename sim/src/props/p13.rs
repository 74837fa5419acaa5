//! P13: what simulated threads can run into, the lock checks of decy have reported.
use crate::os::{self, Rng};
use crate::plan::*;
use decy_analyzer::lock_analysis::LockAnalyzer;
use decy_hir::{BinaryOperator, HirExpression as E, HirFunction, HirParameter, HirStatement as S, HirType, SwitchCase, UnaryOperator};
use decy_llm::{CodegenPrompt, ContextBuilder};
use decy_verify::lock_verify::LockDisciplineChecker;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub const P13: Prop = Prop {
    id: "P13",
    gen,
    exec,
    quick: 40_000,
    thorough: 1_500_000,
    fixed: no_fixed,
    rule: "a run is 1-4 generated C functions that lock and unlock up to four mutexes and read and write shared data; they are run as 2-5 threads by an interpreter under 24 seeded schedules, and whatever a schedule reaches (deadlock, self-deadlock, lock kept for ever, unlock of a lock not held, race on data it also uses under a lock) is looked up in the reports of the real lock checks, which several threads of a simulated process produce; non-trivial: at least two lock operations; distinct by event-log hash",
    level: "exploration",
    real: &["decy-analyzer lock_analysis", "decy-verify lock_verify", "decy-llm context builder and prompt"],
    stub: &["the threads of the analysed C program (an interpreter of the harness)", "file system, clock, scheduler, randomness, processes (simulated)"],
    assume: &["the analysed functions take and release locks in straight-line code; data is used in declarations, assignments of every kind, expressions, branches, loops and a return at the end", "pthread_mutex_lock and pthread_mutex_unlock are called as statements on named mutexes"],
    must: &["deadlock2", "deadlock3", "same_function_deadlock", "self_deadlock", "kept_lock", "unlock_unheld", "race", "clean", "clean_nested", "unclean", "mapping"],
};
const LOCKS: [&str; 4] = ["m_a", "m_b", "big_lock", "z"];
const VARS: [&str; 6] = ["count", "total", "buf", "node", "flag", "k"];

fn gen(r: &mut Rng, _t: bool) -> Plan {
    let cfg = swarm(r, 50);
    let nf = 1 + r.below(4);
    let mut ops = vec![];
    // 0: anything goes, 1: nested regions in any order, 2: disciplined, 3: disciplined but for one slip
    let style = r.below(4);
    let mut nlocks = 1 + r.below(4);
    let nvars = 1 + r.below(6);
    // which lock guards which variable; the rest is used without locks only
    let guard: Vec<Option<u64>> = (0..6).map(|_| if r.chance(3, 4) { Some(r.below(nlocks)) } else { None }).collect();
    let ring = r.chance(1, 4);
    if ring {
        nlocks = 2 + r.below(3);
    }
    for f in 0..nf {
        let mut held: Vec<u64> = vec![];
        let stmt = |r: &mut Rng, held: &[u64], loose: bool| -> Value {
            let usable: Vec<u64> = (0..nvars).filter(|v| loose || guard[*v as usize].map_or(held.is_empty(), |g| held.contains(&g))).collect();
            let pick = |r: &mut Rng| if usable.is_empty() { None } else { Some(usable[r.below(usable.len() as u64) as usize]) };
            let n = r.below(3);
            let reads: Vec<u64> = (0..n).filter_map(|_| pick(r)).collect();
            let shape = r.below(20);
            let block = if r.chance(1, 4) { 1 + r.below(6) } else { 0 };
            match (r.below(4), pick(r)) {
                (0 | 1, Some(t)) => json!({"f": f, "k": "asg", "t": t, "v": reads, "sh": shape, "tk": r.below(14), "bl": block}),
                (2, _) if r.chance(1, 6) => json!({"f": f, "k": "copy", "v": reads, "sh": shape}),
                (2, _) => json!({"f": f, "k": "decl", "v": reads, "sh": shape}),
                _ => json!({"f": f, "k": "expr", "v": reads, "sh": shape, "bl": block}),
            }
        };
        if ring {
            // each function nests two neighbouring locks of a ring
            let (a, b) = (f % nlocks, (f + 1) % nlocks);
            for (k, l) in [("lock", a), ("lock", b), ("unlock", b), ("unlock", a)] {
                if r.chance(1, 3) {
                    ops.push(stmt(r, &held, style == 0));
                }
                ops.push(json!({"f": f, "k": k, "l": l}));
                if k == "lock" {
                    held.push(l)
                } else {
                    held.retain(|x| *x != l)
                }
            }
            continue;
        }
        for _ in 0..1 + r.below(12) {
            match r.below(6) {
                0 | 1 => {
                    let free: Vec<u64> = (0..nlocks).filter(|l| style == 0 || !held.contains(l)).filter(|l| style < 2 || held.iter().all(|h| h < l)).collect();
                    if !free.is_empty() {
                        let l = free[r.below(free.len() as u64) as usize];
                        held.push(l);
                        ops.push(json!({"f": f, "k": "lock", "l": l}));
                    }
                }
                2 => {
                    let l = if style == 0 && r.chance(1, 6) {
                        Some(r.below(nlocks))
                    } else if held.is_empty() {
                        None
                    } else if r.chance(1, 3) {
                        Some(held[r.below(held.len() as u64) as usize])
                    } else {
                        held.last().copied()
                    };
                    if let Some(l) = l {
                        held.retain(|x| *x != l);
                        ops.push(json!({"f": f, "k": "unlock", "l": l}));
                    }
                }
                _ => ops.push(stmt(r, &held, style < 2)),
            }
        }
        while let Some(l) = held.pop() {
            if style != 0 || r.chance(5, 6) {
                ops.push(json!({"f": f, "k": "unlock", "l": l}));
            }
        }
        if r.chance(1, 3) {
            let mut o = stmt(r, &[], style < 2);
            o["k"] = json!(if r.chance(1, 8) { "retlocal" } else { "ret" });
            o["bl"] = json!(0);
            ops.push(o);
        }
    }
    if style == 3 && !ops.is_empty() {
        let n = ops.len() as u64;
        let (i, j) = (r.below(n) as usize, r.below(n) as usize);
        match r.below(3) {
            0 => {
                ops.remove(i);
            }
            1 => ops.swap(i, j),
            _ => {
                let o = ops[i].clone();
                ops.insert(j, o);
            }
        }
    }
    plan("P13", cfg, ops, json!({"nf": nf, "threads": 2 + r.below(4), "seed": r.next(), "workers": 2 + r.below(2), "order": r.next()}))
}

fn var(i: &Value) -> String {
    VARS[i.as_u64().unwrap_or(0) as usize % VARS.len()].to_string()
}
fn lock_of(o: &Value) -> String {
    LOCKS[vu(o, "l") as usize % LOCKS.len()].to_string()
}
fn incdec(kind: u64, e: E) -> E {
    let operand = Box::new(e);
    match kind % 4 {
        0 => E::PostIncrement { operand },
        1 => E::PreIncrement { operand },
        2 => E::PostDecrement { operand },
        _ => E::PreDecrement { operand },
    }
}
fn expr(o: &Value) -> E {
    let vs: Vec<String> = o["v"].as_array().map(|a| a.iter().map(var).collect()).unwrap_or_default();
    let lit = || E::IntLiteral(1);
    let first = vs.is_empty();
    let mut it = vs.into_iter().map(E::Variable);
    let a = it.next().unwrap_or_else(lit);
    let b = it.next();
    let (sh, bx) = (vu(o, "sh"), Box::new);
    let x = match sh {
        0 => E::UnaryOp { op: UnaryOperator::Minus, operand: bx(a) },
        1 => E::FunctionCall { function: "compute".into(), arguments: vec![a] },
        2 => E::Cast { expr: bx(a), target_type: HirType::Int },
        3 => E::FieldAccess { object: bx(a), field: "len".into() },
        4 => E::Dereference(bx(E::AddressOf(bx(a)))),
        5 => E::ArrayIndex { array: bx(a), index: bx(lit()) },
        7 => E::PointerFieldAccess { pointer: bx(a), field: "next".into() },
        8 => E::IsNotNull(bx(a)),
        9 => E::StringMethodCall { receiver: bx(a), method: "len".into(), arguments: vec![] },
        10 => E::Malloc { size: bx(a) },
        11 => E::Calloc { count: bx(a), element_type: Box::new(HirType::Int) },
        12 => E::SliceIndex { slice: bx(a), index: bx(lit()), element_type: HirType::Int },
        INC if !first => incdec(vu(o, "f") + 1, a),
        _ => a,
    };
    let cond = || E::FunctionCall { function: "ready".into(), arguments: vec![] };
    match b {
        None => x,
        Some(b) if sh == 5 => E::ArrayIndex { array: bx(x), index: bx(b) },
        Some(b) if sh == 6 => E::FunctionCall { function: "use".into(), arguments: vec![x, b] },
        Some(b) if sh == 9 => E::StringMethodCall { receiver: bx(x), method: "at".into(), arguments: vec![b] },
        Some(b) if sh == 12 => E::SliceIndex { slice: bx(x), index: bx(b), element_type: HirType::Int },
        Some(b) if sh == 14 => E::Realloc { pointer: bx(x), new_size: bx(b) },
        Some(b) if sh == 15 => E::CompoundLiteral { literal_type: HirType::Struct("pair".into()), initializers: vec![x, b] },
        Some(b) if sh == 16 => E::Ternary { condition: bx(x), then_expr: bx(lit()), else_expr: bx(b) },
        Some(b) if sh == 17 => E::Ternary { condition: bx(cond()), then_expr: bx(x), else_expr: bx(b) },
        Some(b) => E::BinaryOp { op: BinaryOperator::Add, left: bx(x), right: bx(b) },
    }
}
/// The shape whose first operand is written as well.
const INC: u64 = 13;
fn statement(o: &Value, n: usize) -> S {
    let mutex = |f: &str| S::Expression(E::FunctionCall { function: f.into(), arguments: vec![E::AddressOf(Box::new(E::Variable(lock_of(o))))] });
    let plain = match o["k"].as_str().unwrap_or("") {
        "lock" => return mutex("pthread_mutex_lock"),
        "unlock" => return mutex("pthread_mutex_unlock"),
        "asg" => {
            let t = || E::Variable(var(&o["t"]));
            match vu(o, "tk") {
                0 => S::ArrayIndexAssignment { array: Box::new(t()), index: Box::new(E::IntLiteral(0)), value: expr(o) },
                1 => S::FieldAssignment { object: t(), field: "len".into(), value: expr(o) },
                2 => S::DerefAssignment { target: t(), value: expr(o) },
                3 => S::ArrayIndexAssignment { array: Box::new(t()), index: Box::new(expr(o)), value: E::IntLiteral(2) },
                4 => S::FieldAssignment { object: E::Dereference(Box::new(t())), field: "len".into(), value: expr(o) },
                k @ 5..=8 if o["v"].as_array().map_or(true, |a| a.is_empty()) => S::Expression(incdec(k, t())),
                9 if o["v"].as_array().map_or(true, |a| a.is_empty()) => S::Free { pointer: t() },
                10 if o["v"].as_array().map_or(true, |a| a.is_empty()) => S::Expression(E::CxxDelete { operand: Box::new(t()) }),
                _ => S::Assignment { target: var(&o["t"]), value: expr(o) },
            }
        }
        "copy" => S::Assignment { target: LOCAL.into(), value: expr(o) },
        "decl" => S::VariableDeclaration { name: format!("local{n}"), var_type: HirType::Int, initializer: Some(expr(o)) },
        "ret" => S::Return(Some(expr(o))),
        "own" => return S::VariableDeclaration { name: LOCAL.into(), var_type: HirType::Int, initializer: None },
        "retlocal" => S::Return(Some(E::Variable(LOCAL.into()))),
        _ => S::Expression(expr(o)),
    };
    let cond = || E::FunctionCall { function: "ready".into(), arguments: vec![] };
    let other = || S::Expression(E::FunctionCall { function: "trace".into(), arguments: vec![] });
    match vu(o, "bl") {
        1 => S::If { condition: cond(), then_block: vec![other(), plain], else_block: None },
        2 => S::If { condition: cond(), then_block: vec![other()], else_block: Some(vec![plain, S::Break]) },
        3 => S::While { condition: cond(), body: vec![plain] },
        4 => S::For { init: vec![], condition: Some(cond()), increment: vec![other()], body: vec![plain] },
        5 => S::Switch { condition: cond(), cases: vec![SwitchCase { value: Some(E::IntLiteral(1)), body: vec![other(), plain, S::Break] }], default_case: None },
        6 => S::Switch { condition: cond(), cases: vec![], default_case: Some(vec![plain]) },
        _ => plain,
    }
}
/// A variable of the function itself, which no other thread can see.
const LOCAL: &str = "mine";

/// What the real code says about one program.
#[derive(Clone, PartialEq, Debug, Default)]
struct Report {
    unprotected: Vec<Vec<String>>,
    discipline: Vec<Vec<String>>,
    all: Vec<String>,
    dead: Vec<String>,
    mapping: Vec<(String, String, Vec<String>)>,
    prompt: String,
    json: String,
}
fn report(fs: &[HirFunction]) -> Report {
    let an = LockAnalyzer::new();
    let ch = LockDisciplineChecker::new(&an);
    let mut r = Report::default();
    let mut cb = ContextBuilder::new();
    for f in fs {
        r.unprotected.push(ch.check_unprotected_access(f));
        r.discipline.push(an.check_lock_discipline(f));
        let all = ch.check_all(f);
        r.all.push(format!("{} {} {}", all.unprotected_accesses, all.lock_violations, all.is_clean()));
        let m = an.analyze_lock_data_mapping(f);
        cb.add_function(f.name(), "void f(void)");
        for l in m.get_locks() {
            let data = m.get_protected_data(&l);
            for d in &data {
                if !m.is_protected_by(d, &l) {
                    r.mapping.push((f.name().into(), l.clone(), vec![format!("{d}, which it says it does not protect")]));
                }
            }
            r.mapping.push((f.name().into(), l.clone(), data.clone()));
            for (i, d) in data.iter().enumerate() {
                cb.add_ownership(f.name(), d, "mutable_borrow", 0.5 + i as f64 / 64.0, "under a lock");
            }
            cb.add_lock_mapping(f.name(), &l, data);
        }
    }
    r.dead = ch.check_deadlock_risk(fs);
    r.json = cb.to_json().unwrap_or_else(|e| format!("error: {e}"));
    r.prompt = CodegenPrompt::new("int x;", cb.build()).render();
    r
}

/// The meaning of a statement for the interpreter: what it locks, reads and writes.
enum Act {
    Lock(String),
    Unlock(String),
    /// reads and writes
    Use(BTreeSet<String>, BTreeSet<String>),
}
fn act(o: &Value) -> Act {
    match o["k"].as_str().unwrap_or("") {
        "lock" => Act::Lock(lock_of(o)),
        "unlock" => Act::Unlock(lock_of(o)),
        k => {
            let reads: Vec<String> = o["v"].as_array().map(|a| a.iter().take(2).map(var).collect()).unwrap_or_default();
            let mut writes = BTreeSet::new();
            if k == "asg" {
                writes.insert(var(&o["t"]));
            }
            if vu(o, "sh") == INC && k != "retlocal" {
                writes.extend(reads.first().cloned());
            }
            let reads = if k == "retlocal" { BTreeSet::new() } else { reads.into_iter().collect() };
            Act::Use(reads, writes)
        }
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
enum Seen {
    /// threads' functions that wait for each other
    Cycle(Vec<usize>),
    SelfDead(usize),
    /// a finished function still holds a lock somebody waits for
    Kept(usize),
    Unheld(usize),
    /// function, variable, statement: raced while holding no lock
    Race(usize, String, usize),
}
/// One execution under a seeded schedule; everything it ran into.
fn interleave(prog: &[Vec<Act>], threads: &[usize], r: &mut Rng, seen: &mut BTreeSet<Seen>) -> Vec<u8> {
    let n = threads.len();
    let mut order = vec![];
    let mut pc = vec![0usize; n];
    let mut owner: BTreeMap<&str, usize> = BTreeMap::new();
    let mut prio: Vec<u64> = (0..n).map(|_| r.below(1000)).collect();
    let sticky = r.below(3);
    let mut steps = 0;
    loop {
        steps += 1;
        let next = |t: usize| prog[threads[t]].get(pc[t]);
        let wants = |t: usize| match next(t) {
            Some(Act::Lock(l)) => owner.get(l.as_str()).copied(),
            _ => None,
        };
        // two statements about to touch the same data at the same time
        for a in 0..n {
            for b in 0..n {
                if a == b {
                    continue;
                }
                if let (Some(Act::Use(ra, wa)), Some(Act::Use(rb, wb))) = (next(a), next(b)) {
                    let uses = |rd: &BTreeSet<String>, w: &BTreeSet<String>, v: &String| rd.contains(v) || w.contains(v);
                    for v in ra.iter().chain(wa) {
                        let conflict = uses(rb, wb, v) && (wa.contains(v) || wb.contains(v));
                        if conflict && !owner.values().any(|o| *o == a) {
                            seen.insert(Seen::Race(threads[a], v.clone(), pc[a]));
                        }
                    }
                }
            }
        }
        let ready: Vec<usize> = (0..n).filter(|t| next(*t).is_some() && wants(*t).is_none()).collect();
        if ready.is_empty() {
            let blocked: Vec<usize> = (0..n).filter(|t| next(*t).is_some()).collect();
            for t in blocked {
                let mut path = vec![t];
                loop {
                    let cur = *path.last().unwrap();
                    let Some(o) = wants(cur) else { break };
                    if o == cur {
                        seen.insert(Seen::SelfDead(threads[cur]));
                        break;
                    }
                    if next(o).is_none() {
                        seen.insert(Seen::Kept(threads[o]));
                        break;
                    }
                    if let Some(i) = path.iter().position(|x| *x == o) {
                        let mut c: Vec<usize> = path[i..].iter().map(|t| threads[*t]).collect();
                        c.sort();
                        seen.insert(Seen::Cycle(c));
                        break;
                    }
                    path.push(o);
                }
            }
            return order;
        }
        let t = match sticky {
            0 => *r.pick(&ready),
            1 => *ready.iter().max_by_key(|t| prio[**t]).unwrap(),
            _ => ready[steps % ready.len()],
        };
        order.push(b'0' + t as u8);
        if r.chance(1, 4) {
            prio[t] = r.below(1000);
        }
        match &prog[threads[t]][pc[t]] {
            Act::Lock(l) => {
                owner.insert(l, t);
            }
            Act::Unlock(l) => {
                if owner.get(l.as_str()) == Some(&t) {
                    owner.remove(l.as_str());
                } else {
                    seen.insert(Seen::Unheld(threads[t]));
                }
            }
            Act::Use(..) => {}
        }
        pc[t] += 1;
    }
}

fn exec(p: &Plan, cx: &mut Ctx) {
    let nf = vu(&p.params, "nf").max(1) as usize;
    let mut src: Vec<Vec<Value>> = vec![vec![]; nf];
    for o in &p.ops {
        let body = &mut src[vu(o, "f") as usize % nf];
        if body.last().map_or(true, |l: &Value| l["k"] != "ret" && l["k"] != "retlocal") {
            body.push(o.clone());
        }
    }
    for (f, body) in src.iter_mut().enumerate() {
        if body.iter().any(|o| o["k"] == "copy" || o["k"] == "retlocal") {
            body.insert(0, json!({"f": f, "k": "own"}));
        }
    }
    cx.nontrivial = p.ops.iter().filter(|o| o["k"] == "lock" || o["k"] == "unlock").count() >= 2;
    let funcs: Vec<HirFunction> = src
        .iter()
        .enumerate()
        .map(|(i, b)| HirFunction::new_with_body(format!("worker{i}"), HirType::Void, Vec::<HirParameter>::new(), b.iter().enumerate().map(|(n, o)| statement(o, n)).collect()))
        .collect();
    // a different order of the same functions
    let mut order: Vec<usize> = (0..nf).collect();
    let mut r = Rng::new(vu(&p.params, "order"));
    for i in (1..nf).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    // subsets that turn out to deadlock are asked about as well, so find out first what can happen
    let prog: Vec<Vec<Act>> = src.iter().map(|b| b.iter().map(act).collect()).collect();
    let mut seen = BTreeSet::new();
    let mut r = Rng::new(vu(&p.params, "seed"));
    let nt = vu(&p.params, "threads").clamp(1, 8) as usize;
    for _ in 0..24 {
        let mut threads: Vec<usize> = (0..nt).map(|i| i % nf).collect();
        if r.chance(1, 3) {
            threads = (0..nt).map(|_| r.below(nf as u64) as usize).collect();
        }
        let order = interleave(&prog, &threads, &mut r, &mut seen);
        os::sim().log(|| format!("schedule of workers {threads:?}: {}", String::from_utf8_lossy(&order)));
    }
    os::sim().log(|| format!("reached {seen:?} by\n{}", listing(&src)));
    let cycles: Vec<Vec<usize>> = seen
        .iter()
        .filter_map(|s| match s {
            Seen::Cycle(c) => {
                let mut d = c.clone();
                d.dedup();
                Some(d)
            }
            _ => None,
        })
        .collect();
    type Out = Arc<Mutex<Vec<(Report, Vec<String>, Vec<Vec<String>>)>>>;
    let out: Out = Arc::default();
    let (o2, f2, c2, ord2, workers) = (out.clone(), funcs.clone(), cycles.clone(), order.clone(), vu(&p.params, "workers").clamp(1, 4));
    os::launch("checks", "/sim", move || {
        let hs: Vec<_> = (0..workers)
            .map(|_| {
                let (o, fs, cs, ord) = (o2.clone(), f2.clone(), c2.clone(), ord2.clone());
                std::thread::spawn(move || {
                    let rep = report(&fs);
                    let an = LockAnalyzer::new();
                    let ch = LockDisciplineChecker::new(&an);
                    let pick = |ix: &[usize]| ix.iter().map(|i| fs[*i].clone()).collect::<Vec<_>>();
                    let shuffled = ch.check_deadlock_risk(&pick(&ord));
                    let subs = cs.iter().map(|c| ch.check_deadlock_risk(&pick(c))).collect();
                    let _b = os::Busy::new();
                    o.lock().unwrap().push((rep, shuffled, subs));
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().is_err() as i32).sum()
    });
    let end = os::run();
    let out = out.lock().unwrap().clone();
    if out.len() as u64 != workers {
        return cx.fail("check-died", format!("the lock checks did not finish ({end:?})\n{}", listing(&src)));
    }
    for o in &out[1..] {
        if *o != out[0] {
            return cx.fail("report-varies", format!("the same functions give different reports:\n{:?}\nand\n{:?}\n{}", out[0], o, listing(&src)));
        }
    }
    let (rep, shuffled, subs) = &out[0];
    if shuffled.is_empty() != rep.dead.is_empty() {
        return cx.fail("order-of-functions", format!("whether a deadlock is reported depends on the order of the functions: {:?} but {:?} in order {order:?}\n{}", rep.dead, shuffled, listing(&src)));
    }
    for i in 0..nf {
        let want = format!("{} {} {}", rep.unprotected[i].len(), rep.discipline[i].len(), rep.unprotected[i].is_empty() && rep.discipline[i].is_empty());
        if rep.all[i] != want {
            return cx.fail("summary", format!("the summary of worker{i} is '{}', its lists say '{want}'\n{}", rep.all[i], listing(&src)));
        }
    }
    // which lock protects which data
    for (i, f) in prog.iter().enumerate() {
        let Some(held) = walk(f) else { continue };
        let mut want: BTreeMap<&String, BTreeSet<&String>> = BTreeMap::new();
        for (a, h) in f.iter().zip(&held) {
            if let Act::Use(rd, w) = a {
                for l in h {
                    want.entry(l).or_default().extend(rd.iter().chain(w));
                }
            }
        }
        want.retain(|_, d| !d.is_empty());
        let strip: Vec<(String, Vec<String>)> = rep
            .mapping
            .iter()
            .filter(|(n, _, _)| *n == format!("worker{i}"))
            .map(|(_, l, d)| (l.clone(), d.iter().filter(|v| VARS.contains(&v.as_str())).cloned().collect()))
            .filter(|(_, d): &(String, Vec<String>)| !d.is_empty())
            .collect();
        let want: Vec<(String, Vec<String>)> = want.into_iter().map(|(l, d)| (l.clone(), d.into_iter().cloned().collect())).collect();
        if !want.is_empty() {
            cx.probe("mapping");
        }
        if strip != want {
            return cx.fail("mapping", format!("worker{i} uses {want:?} under its locks, the mapping says {strip:?}\n{}", listing(&src)));
        }
    }
    for s in &seen {
        match s {
            Seen::Cycle(c) => {
                let mut d = c.clone();
                d.dedup();
                cx.probe(if d.len() == 1 {
                    "same_function_deadlock"
                } else if c.len() == 2 {
                    "deadlock2"
                } else {
                    "deadlock3"
                });
                let at = cycles.iter().position(|x| *x == d).unwrap();
                if subs[at].is_empty() || rep.dead.is_empty() {
                    return cx.fail("deadlock-unreported", format!("threads running workers {c:?} deadlocked, and no deadlock risk is reported\n{}", listing(&src)));
                }
            }
            Seen::SelfDead(f) => {
                cx.probe("self_deadlock");
                if rep.discipline[*f].is_empty() {
                    return cx.fail("self-deadlock-unreported", format!("worker{f} waits for a lock it holds, and its lock discipline is reported clean\n{}", listing(&src)));
                }
            }
            Seen::Kept(f) => {
                cx.probe("kept_lock");
                if rep.discipline[*f].is_empty() {
                    return cx.fail("kept-lock-unreported", format!("worker{f} ended with a lock others wait for, and its lock discipline is reported clean\n{}", listing(&src)));
                }
            }
            Seen::Unheld(f) => {
                cx.probe("unlock_unheld");
                if rep.discipline[*f].is_empty() {
                    return cx.fail("unlock-unreported", format!("worker{f} unlocked a lock it did not hold, and its lock discipline is reported clean\n{}", listing(&src)));
                }
            }
            Seen::Race(f, v, at) => {
                if !guarded(&prog[*f]).contains(v) {
                    continue;
                }
                cx.probe("race");
                let found = rep.unprotected[*f].iter().any(|m| m.contains(&format!("'{v}'")) && m.split(|c: char| !c.is_ascii_digit()).any(|w| w == at.to_string()));
                if !found {
                    return cx.fail("race-unreported", format!("worker{f} raced on '{v}' at statement {at} without a lock although it uses it under one elsewhere; reported: {:?}\n{}", rep.unprotected[*f], listing(&src)));
                }
            }
        }
    }
    // disciplined programs get a clean report
    let ok = prog.iter().all(|f| disciplined(f)) && ordered(&prog);
    if ok {
        cx.probe("clean");
        if prog.iter().any(|f| nested(f)) {
            cx.probe("clean_nested");
        }
        let local = |m: &String| m.contains(&format!("'{LOCAL}'"));
        if rep.dead.is_empty() && rep.discipline.iter().all(|l| l.is_empty()) && rep.unprotected.iter().flatten().next().is_some() && rep.unprotected.iter().flatten().all(local) {
            return cx.fail("local-variable-reported", format!("functions that keep the discipline are reported for using a local variable: {:?}\n{}", rep.unprotected, listing(&src)));
        }
        if !rep.dead.is_empty() || rep.unprotected.iter().chain(&rep.discipline).any(|l| !l.is_empty()) {
            return cx.fail("false-report", format!("functions that keep the discipline are reported: {:?} {:?} {:?}\n{}", rep.dead, rep.unprotected, rep.discipline, listing(&src)));
        }
    } else {
        cx.probe("unclean");
    }
}
/// For each statement the locks held, or None if the function misuses a lock on the way.
fn walk(f: &[Act]) -> Option<Vec<BTreeSet<String>>> {
    let mut held = BTreeSet::new();
    let mut out = vec![];
    for a in f {
        out.push(held.clone());
        match a {
            Act::Lock(l) if !held.insert(l.clone()) => return None,
            Act::Unlock(l) if !held.remove(l) => return None,
            _ => {}
        }
    }
    if held.is_empty() {
        Some(out)
    } else {
        None
    }
}
/// Data used between a lock and its unlock.
fn guarded(f: &[Act]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for (i, a) in f.iter().enumerate() {
        if let Act::Use(rd, w) = a {
            let inside = f[..i].iter().enumerate().any(|(j, x)| match x {
                Act::Lock(l) => {
                    let released = |y: &Act| matches!(y, Act::Unlock(m) if m == l);
                    let again = |y: &Act| matches!(y, Act::Lock(m) if m == l);
                    !f[j + 1..i].iter().any(|y| released(y) || again(y)) && f[i + 1..].iter().take_while(|y| !again(y)).any(released)
                }
                _ => false,
            });
            if inside {
                out.extend(rd.iter().cloned());
                out.extend(w.iter().cloned());
            }
        }
    }
    out
}
fn disciplined(f: &[Act]) -> bool {
    let Some(held) = walk(f) else { return false };
    let mut with: BTreeSet<&String> = BTreeSet::new();
    let mut without: BTreeSet<&String> = BTreeSet::new();
    for (a, h) in f.iter().zip(&held) {
        if let Act::Use(rd, w) = a {
            for v in rd.iter().chain(w) {
                if h.is_empty() {
                    without.insert(v);
                } else {
                    with.insert(v);
                }
            }
        }
    }
    with.is_disjoint(&without)
}
fn nested(f: &[Act]) -> bool {
    walk(f).is_some_and(|h| h.iter().any(|s| s.len() > 1))
}
/// The locks of all functions are taken in one order.
fn ordered(prog: &[Vec<Act>]) -> bool {
    let mut edges: BTreeSet<(String, String)> = BTreeSet::new();
    for f in prog {
        let Some(held) = walk(f) else { return false };
        for (a, h) in f.iter().zip(&held) {
            if let Act::Lock(l) = a {
                edges.extend(h.iter().map(|o| (o.clone(), l.clone())));
            }
        }
    }
    // take away locks nothing is acquired before, until none is left
    let mut locks: BTreeSet<&str> = LOCKS.into_iter().collect();
    loop {
        let Some(l) = locks.iter().find(|l| !edges.iter().any(|(a, b)| b == **l && locks.contains(a.as_str()))).copied() else { return locks.is_empty() };
        locks.remove(l);
    }
}
fn listing(src: &[Vec<Value>]) -> String {
    let mut s = String::new();
    for (i, b) in src.iter().enumerate() {
        s += &format!("worker{i}:\n");
        for (n, o) in b.iter().enumerate() {
            let vars = o["v"].as_array().map(|a| a.iter().map(var).collect::<Vec<_>>().join(", ")).unwrap_or_default();
            let l = match o["k"].as_str().unwrap_or("") {
                k @ ("lock" | "unlock") => format!("{k} {}", lock_of(o)),
                "asg" => format!("{} = ..{vars}  (target kind {}, shape {}, block {})", var(&o["t"]), vu(o, "tk"), vu(o, "sh"), vu(o, "bl")),
                k => format!("{k} ..{vars}  (shape {}, block {})", vu(o, "sh"), vu(o, "bl")),
            };
            s += &format!("  {n}: {l}\n");
        }
    }
    s
}
