//! The simulated operating system: processes, threads, scheduler, clock, randomness, pipes,
//! file system and fault injection, all decided by one explicit plan.
pub mod hooks;
pub mod progs;
pub mod raw;
pub mod vfs;

use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering};
use vfs::Vfs;

// ---------------------------------------------------------------- PRNG
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
    pub fn f01(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

// ---------------------------------------------------------------- plan (everything that decides a run)
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// id of the plan operation whose process(es) it hits
    pub op: u32,
    /// armed from the n-th matching operation of that process on
    pub at: u32,
    pub kind: String,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub path: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(default)]
pub struct SimCfg {
    pub hash_seed: u64,
    pub readdir_seed: u64,
    pub sched_seed: u64,
    /// (scheduling step, choice)
    pub preempts: Vec<(u64, u32)>,
    pub faults: Vec<Fault>,
    /// (scheduling step, wall-clock jump in ns)
    pub wall_jumps: Vec<(u64, i64)>,
    pub wall_start: i64,
    pub clock_gran: u64,
    pub mtime_gran: u64,
    pub op_ns: u64,
    pub pid_reuse: bool,
    pub short_io: u32,
    pub step_limit: u64,
    /// preempt at every n-th allocation (0 = never)
    pub alloc_preempt: u64,
}
impl Default for SimCfg {
    fn default() -> Self {
        SimCfg {
            hash_seed: 1,
            readdir_seed: 0,
            sched_seed: 0,
            preempts: vec![],
            faults: vec![],
            wall_jumps: vec![],
            wall_start: 1_700_000_000,
            clock_gran: 1,
            mtime_gran: 1,
            op_ns: 1000,
            pid_reuse: false,
            short_io: 0,
            step_limit: 20_000,
            alloc_preempt: 0,
        }
    }
}

// ---------------------------------------------------------------- processes, threads, descriptors
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
    /// killed by an injected crash or power loss
    Crashed,
}
impl Exit {
    pub fn ok(&self) -> bool {
        *self == Exit::Code(0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Key {
    Futex(usize),
    Pipe,
    Child,
    Thread(usize),
    Sleep,
    Start,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TState {
    Runnable,
    Blocked(Key, Option<u64>),
    Finished,
    Killed,
}

pub struct SThread {
    pub proc: usize,
    pub state: TState,
    pub go: Box<AtomicU32>,
    pub timed_out: bool,
    pub pthread: libc::pthread_t,
    /// no faults while > 0
    pub calm: u32,
}

#[derive(Clone, Debug)]
pub enum Of {
    File { ino: usize, append: bool, r: bool, w: bool },
    Dir { ino: usize },
    PipeR(usize),
    PipeW(usize),
    /// 1 = stdout, 2 = stderr of a process, captured
    Capture(usize, u8),
    Stdin(usize),
    Null,
}
#[derive(Clone, Debug)]
pub struct Ofd {
    pub of: Of,
    pub off: usize,
    pub refs: usize,
    pub nonblock: bool,
    pub path: String,
}
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub readers: usize,
    pub writers: usize,
}

pub struct SProc {
    pub pid: i32,
    pub parent: Option<usize>,
    pub cwd: String,
    pub name: String,
    pub argv: Vec<String>,
    pub exit: Option<Exit>,
    pub reaped: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub discard: bool,
    pub stdin: VecDeque<u8>,
    pub stdfd: [Option<usize>; 3], // indices into ofds
    pub fds: Vec<i32>,
    pub launch: Option<u32>, // id of the plan operation that started it
    pub counts: BTreeMap<String, u32>,
    pub daemon: bool,
    pub stub: bool,
    pub ended_at: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RunEnd {
    Done,
    Deadlock,
    StepLimit,
    PowerLoss,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpK {
    Open,
    Create,
    Read,
    Write,
    Stat,
    Readdir,
    Opendir,
    Mkdir,
    Unlink,
    Rename,
    Fsync,
    Trunc,
    Spawn,
    PipeNew,
    Wait,
    StdoutW,
    StdinR,
    Kill,
}

pub struct Sim {
    pub cfg: SimCfg,
    pub now: u64,
    pub wall_off: i128,
    pub threads: Vec<SThread>,
    pub procs: Vec<SProc>,
    pub fds: BTreeMap<i32, usize>,
    pub ofds: Vec<Ofd>,
    pub pipes: Vec<Pipe>,
    pub fs: Vfs,
    pub cur: usize,
    pub main_go: Box<AtomicU32>,
    pub end: Option<RunEnd>,
    pub step: u64,
    pub run_steps: u64,
    pub tag: u32,
    next_fd: i32,
    next_pid: i32,
    pub rand: Rng,
    pub frand: Rng,
    pub trace: Vec<String>,
    pub keep_trace: bool,
    pub hash: u64,
    pub sched_hash: u64,
    pub switches: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    fault_done: Vec<bool>,
    preempt_i: usize,
    jump_i: usize,
    pub clock_reads: u64,
    pub file_actions: BTreeMap<usize, (Vec<(i32, i32)>, Option<String>)>,
    pub vdirs: BTreeMap<usize, hooks::VDir>,
    next_dirp: usize,
    pub allocs: u64,
    pub progs: BTreeMap<String, progs::ProgFn>,
    pub spawned: Vec<Vec<String>>,
    /// what the compiler stubs were given: (process that started them, text, accepted)
    /// (process that asked, text, accepted)
    pub compiled: Vec<(usize, String, bool)>,
    /// (plan operation, tool, fault)
    pub tool_hits: Vec<(u32, String, String)>,
    pub tool_runs: BTreeMap<(u32, String), u32>,
    pub max_time: u64,
    pub faults_on: bool,
    pub real_tmp: bool,
}

pub const NONE: usize = usize::MAX;
thread_local! {
    static TID: Cell<usize> = const { Cell::new(NONE) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}
static mut SIM: *mut Sim = std::ptr::null_mut();

pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn install(s: Sim) {
    ALLOC_POINTS.store((s.cfg.alloc_preempt != 0) as u32, Ordering::SeqCst);
    unsafe { SIM = Box::into_raw(Box::new(s)) };
}
/// The simulated thread running the current code, unless it is simulator code.
#[inline]
pub fn me() -> Option<usize> {
    let t = TID.with(|t| t.get());
    if t == NONE || BUSY.with(|b| b.get()) {
        None
    } else {
        Some(t)
    }
}
pub struct Busy(bool);
impl Busy {
    pub fn new() -> Self {
        Busy(BUSY.with(|b| b.replace(true)))
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        BUSY.with(|b| b.set(self.0));
    }
}

impl Sim {
    pub fn new(cfg: SimCfg) -> Self {
        let nf = cfg.faults.len();
        let mut cfg = cfg;
        cfg.preempts.sort();
        cfg.wall_jumps.sort();
        let mut s = Sim {
            now: 1_000_000_000,
            wall_off: cfg.wall_start as i128 * 1_000_000_000,
            threads: vec![],
            procs: vec![],
            fds: BTreeMap::new(),
            ofds: vec![],
            pipes: vec![],
            fs: Vfs::new(),
            cur: NONE,
            main_go: Box::new(AtomicU32::new(0)),
            end: None,
            step: 0,
            run_steps: 0,
            tag: 0,
            next_fd: 1_000_000,
            next_pid: 4000,
            rand: Rng::new(cfg.hash_seed ^ 0x5EED_0001),
            frand: Rng::new(cfg.sched_seed ^ 0x5EED_0002),
            trace: vec![],
            keep_trace: false,
            hash: 0xcbf29ce484222325,
            sched_hash: 0xcbf29ce484222325,
            switches: 0,
            fired: BTreeMap::new(),
            probes: BTreeMap::new(),
            fault_done: vec![false; nf],
            preempt_i: 0,
            jump_i: 0,
            clock_reads: 0,
            file_actions: BTreeMap::new(),
            vdirs: BTreeMap::new(),
            next_dirp: 0x1000,
            allocs: 0,
            progs: progs::default_tools(),
            spawned: vec![],
            compiled: vec![],
            tool_hits: vec![],
            tool_runs: BTreeMap::new(),
            max_time: 3600 * 1_000_000_000,
            faults_on: true,
            real_tmp: false,
            cfg,
        };
        s.fs.mkdirs("/tmp", 0);
        s.fs.mkdirs("/sim", 0);
        s.fs.mkdirs("/home/user", 0);
        s.fs.settle();
        s
    }

    pub fn log(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        for b in s.bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
        if self.keep_trace && self.trace.len() < 50_000 {
            self.trace.push(s);
        }
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
    }

    pub fn wall(&self) -> i128 {
        self.now as i128 + self.wall_off
    }
    pub fn mtime(&self) -> i128 {
        let g = self.cfg.mtime_gran.max(1) as i128;
        self.wall().div_euclid(g) * g
    }

    // ---- faults
    fn applies(kind: &str, op: OpK) -> bool {
        use OpK::*;
        match kind {
            "eio" => matches!(op, Open | Create | Read | Write | Stat | Readdir | Opendir | Mkdir | Unlink | Rename | Fsync | Trunc),
            "eio_read" => matches!(op, Read | Open | Readdir | Opendir),
            "eio_write" => matches!(op, Write | Fsync),
            "eacces" => matches!(op, Open | Create | Mkdir | Unlink | Rename | Opendir),
            "eacces_read" => matches!(op, Open | Opendir),
            "enospc" => matches!(op, Create | Write | Mkdir | Rename | Fsync),
            "short" => matches!(op, Read | Write | StdinR),
            "torn" => matches!(op, Write),
            "eintr" => matches!(op, Open | Create | Read | Write | Wait | StdinR),
            "emfile" => matches!(op, Open | Create | PipeNew | Opendir),
            "crash" => matches!(op, Open | Create | Read | Write | Stat | Readdir | Opendir | Mkdir | Unlink | Rename | Fsync | Trunc | Spawn | Wait | PipeNew),
            "crash_mid" => matches!(op, Write),
            "power" => matches!(op, Open | Create | Read | Write | Stat | Readdir | Opendir | Mkdir | Unlink | Rename | Fsync | Trunc),
            "diskfull" => matches!(op, Write | Create),
            "spawnfail" => matches!(op, Spawn),
            "readdir_eio" => matches!(op, Readdir),
            "opendir_eacces" => matches!(op, Opendir),
            "mkdir_fail" => matches!(op, Mkdir),
            "rename_fail" => matches!(op, Rename),
            "fsync_fail" => matches!(op, Fsync),
            "write_fail" => matches!(op, Write),
            "create_fail" => matches!(op, Create),
            "open_fail" => matches!(op, Open),
            "unlink_fail" => matches!(op, Unlink),
            "stdout_fail" | "stdout_short" | "stdout_eintr" | "stdout_full" => matches!(op, StdoutW),
            "stdin_eio" => matches!(op, StdinR),
            _ => false,
        }
    }

    /// Scheduling point plus fault lookup for one operation of the current thread.
    /// Returns the fault kind to apply, if any. Crash-like faults do not return.
    #[inline(never)]
    pub fn op(&mut self, k: OpK, path: &str) -> Option<String> {
        let tid = self.cur;
        let p = self.threads[tid].proc;
        self.now += self.cfg.op_ns;
        let pid = self.procs[p].pid;
        self.log(|| format!("[{pid}.{tid}] {k:?} {path}"));
        if k != OpK::StdoutW {
            self.yield_now();
        }
        if !self.faults_on || self.threads[tid].calm > 0 {
            return None;
        }
        let launch = self.procs[p].launch?;
        let mut hit: Option<(usize, String)> = None;
        for i in 0..self.cfg.faults.len() {
            let f = &self.cfg.faults[i];
            if f.op != launch || !(f.path.is_empty() || path.contains(&f.path)) {
                continue;
            }
            let c = self.procs[p].counts.entry(format!("{i}")).or_insert(0);
            *c += 1;
            if hit.is_none() && !self.fault_done[i] && *c > f.at && Self::applies(&f.kind, k) {
                hit = Some((i, f.kind.clone()));
            }
        }
        let (i, kind) = hit?;
        self.fault_done[i] = true;
        *self.fired.entry(kind.clone()).or_insert(0) += 1;
        self.log(|| format!("[{pid}.{tid}] FAULT {kind} at {k:?} {path}"));
        match kind.as_str() {
            "crash" => self.crash_current(),
            "power" => self.power_current(),
            "diskfull" => {
                self.fs.capacity = Some(self.fs.used + self.frand.below(40) as usize);
                None
            }
            _ => Some(kind),
        }
    }

    pub fn crash_current(&mut self) -> ! {
        let p = self.threads[self.cur].proc;
        self.kill_proc(p, Exit::Crashed);
        self.park_forever()
    }
    pub fn power_current(&mut self) -> ! {
        self.power_off();
        self.park_forever()
    }
    /// All processes die, un-synced state is lost.
    pub fn power_off(&mut self) {
        for p in 0..self.procs.len() {
            if self.procs[p].exit.is_none() {
                self.kill_proc(p, Exit::Crashed);
            }
        }
        let mut r = self.frand.clone();
        self.fs.power_loss(&mut |n| r.below(n));
        self.frand = r;
        self.fs.capacity = None;
    }

    pub fn errno_of(kind: &str) -> i32 {
        match kind {
            "eacces" | "eacces_read" | "opendir_eacces" => libc::EACCES,
            "enospc" | "mkdir_fail" | "create_fail" | "write_fail" => libc::ENOSPC,
            "eintr" => libc::EINTR,
            "emfile" => libc::EMFILE,
            "spawnfail" => libc::EAGAIN,
            "stdout_fail" => libc::EPIPE,
            "stdout_eintr" => libc::EINTR,
            "stdout_full" => libc::ENOSPC,
            "rename_fail" | "unlink_fail" => libc::EACCES,
            _ => libc::EIO,
        }
    }

    // ---- scheduling
    fn runnable(&self) -> Vec<usize> {
        (0..self.threads.len()).filter(|&t| self.threads[t].state == TState::Runnable).collect()
    }

    fn apply_jumps(&mut self) {
        while self.jump_i < self.cfg.wall_jumps.len() && self.cfg.wall_jumps[self.jump_i].0 <= self.step {
            let d = self.cfg.wall_jumps[self.jump_i].1;
            // the kernel refuses to set the clock before 1970
            self.wall_off = (self.wall_off + d as i128).max(-(self.now as i128));
            self.jump_i += 1;
            *self.fired.entry("clock_jump".into()).or_insert(0) += 1;
        }
    }

    /// A point where another thread may run instead.
    #[inline(never)]
    pub fn yield_now(&mut self) {
        self.step += 1;
        self.run_steps += 1;
        self.clock_reads = 0;
        self.apply_jumps();
        if self.run_steps > self.cfg.step_limit || self.now > self.max_time {
            self.end = Some(RunEnd::StepLimit);
            self.to_main();
            return;
        }
        let mut choice = None;
        while self.preempt_i < self.cfg.preempts.len() && self.cfg.preempts[self.preempt_i].0 <= self.step {
            if self.cfg.preempts[self.preempt_i].0 == self.step {
                choice = Some(self.cfg.preempts[self.preempt_i].1);
            }
            self.preempt_i += 1;
        }
        if let Some(c) = choice {
            let r = self.runnable();
            let t = r[c as usize % r.len()];
            if t != self.cur {
                self.switch(t);
            }
        }
    }

    #[inline(never)]
    pub fn preempt_any(&mut self) {
        self.step += 1;
        let r = self.runnable();
        if r.len() > 1 {
            let t = r[self.frand.below(r.len() as u64) as usize];
            if t != self.cur {
                self.switch(t);
            }
        }
    }

    /// Hand the baton to `t` and wait until it comes back.
    #[inline(never)]
    fn switch(&mut self, t: usize) {
        let from = self.cur;
        self.hand(t);
        self.wait_for_baton(from);
    }
    #[inline(never)]
    fn hand(&mut self, t: usize) {
        self.switches += 1;
        self.sched_hash = (self.sched_hash ^ (t as u64 + 1) ^ (self.step << 8)).wrapping_mul(0x100000001b3);
        self.log(|| format!("-> {t}"));
        self.cur = t;
        let g = &*self.threads[t].go as *const AtomicU32;
        unsafe {
            (*g).store(1, Ordering::SeqCst);
            raw::futex_wake(&*g);
        }
    }
    #[inline(never)]
    fn wait_for_baton(&mut self, t: usize) {
        let g = &*self.threads[t].go as *const AtomicU32;
        unsafe {
            while (*g).swap(0, Ordering::SeqCst) == 0 {
                raw::futex_wait(&*g, 0);
            }
        }
    }
    #[inline(never)]
    fn wake_main(&mut self) {
        self.cur = NONE;
        self.main_go.store(1, Ordering::SeqCst);
        raw::futex_wake(&self.main_go);
    }
    /// Give control to the scenario; returns if the scenario resumes this thread (it never does
    /// after the end of a run, so the thread stays parked).
    #[inline(never)]
    fn to_main(&mut self) {
        let t = self.cur;
        self.wake_main();
        self.wait_for_baton(t);
    }

    fn fg_left(&self) -> bool {
        self.procs.iter().any(|p| p.exit.is_none() && !p.daemon)
    }

    /// Pick who runs next when the current thread cannot go on.
    #[inline(never)]
    fn pick(&mut self) -> Option<usize> {
        if !self.fg_left() {
            self.end = Some(RunEnd::Done);
            return None;
        }
        loop {
            let r = self.runnable();
            if !r.is_empty() {
                let i = if self.cfg.sched_seed == 0 { 0 } else { self.frand.below(r.len() as u64) as usize };
                return Some(r[i]);
            }
            // nothing runnable: jump to the next timer
            let mut best: Option<(u64, usize)> = None;
            for (i, t) in self.threads.iter().enumerate() {
                if let TState::Blocked(_, Some(d)) = t.state {
                    if best.map_or(true, |b| d < b.0) {
                        best = Some((d, i));
                    }
                }
            }
            match best {
                Some((d, i)) => {
                    self.now = self.now.max(d);
                    self.threads[i].timed_out = true;
                    self.threads[i].state = TState::Runnable;
                    if self.now > self.max_time {
                        self.end = Some(RunEnd::StepLimit);
                        return None;
                    }
                }
                None => {
                    self.end = Some(RunEnd::Deadlock);
                    return None;
                }
            }
        }
    }
    fn pass_on(&mut self) {
        match self.pick() {
            Some(t) => self.hand(t),
            None => self.wake_main(),
        }
    }
    pub fn park_forever(&mut self) -> ! {
        self.pass_on();
        let w = AtomicU32::new(0);
        loop {
            raw::futex_wait(&w, 0);
        }
    }

    /// Block the current thread. Returns true if the deadline passed.
    #[inline(never)]
    pub fn block(&mut self, key: Key, deadline: Option<u64>) -> bool {
        let t = self.cur;
        self.step += 1;
        self.run_steps += 1;
        if self.run_steps > self.cfg.step_limit {
            self.end = Some(RunEnd::StepLimit);
            self.to_main();
        }
        self.threads[t].timed_out = false;
        self.threads[t].state = TState::Blocked(key, deadline);
        match self.pick() {
            Some(n) => {
                if n != t {
                    self.switch(n);
                }
            }
            None => self.to_main(),
        }
        self.threads[t].timed_out
    }
    pub fn wake(&mut self, key: Key, mut n: usize) -> usize {
        let mut woke = 0;
        for t in self.threads.iter_mut() {
            if n == 0 {
                break;
            }
            if let TState::Blocked(k, _) = t.state {
                if k == key {
                    t.state = TState::Runnable;
                    n -= 1;
                    woke += 1;
                }
            }
        }
        woke
    }
    #[inline(never)]
    pub fn sleep(&mut self, ns: u64) {
        let d = self.now.saturating_add(ns);
        while self.now < d {
            self.block(Key::Sleep, Some(d));
        }
    }

    // ---- processes
    pub fn new_proc(&mut self, name: &str, cwd: &str) -> usize {
        let i = self.procs.len();
        let pid = if self.cfg.pid_reuse {
            // the lowest free pid, as after a small pid space wrapped around
            (4000..).find(|p| !self.procs.iter().any(|q| q.pid == *p && q.exit.is_none())).unwrap_or(4000)
        } else {
            self.next_pid += 1;
            self.next_pid
        };
        self.procs.push(SProc {
            pid,
            parent: None,
            cwd: cwd.into(),
            name: name.into(),
            argv: vec![],
            exit: None,
            reaped: false,
            stdout: vec![],
            stderr: vec![],
            discard: false,
            stdin: VecDeque::new(),
            stdfd: [None; 3],
            fds: vec![],
            launch: None,
            counts: BTreeMap::new(),
            daemon: false,
            stub: false,
            ended_at: 0,
        });
        i
    }
    pub fn add_ofd(&mut self, of: Of, path: &str) -> usize {
        self.ofds.push(Ofd { of, off: 0, refs: 1, nonblock: false, path: path.into() });
        self.ofds.len() - 1
    }
    pub fn add_fd(&mut self, ofd: usize) -> i32 {
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, ofd);
        let p = self.threads[self.cur].proc;
        self.procs[p].fds.push(fd);
        fd
    }
    pub fn ofd_of(&self, fd: i32) -> Option<usize> {
        if (0..3).contains(&fd) {
            let p = self.threads[self.cur].proc;
            return self.procs[p].stdfd[fd as usize];
        }
        self.fds.get(&fd).copied()
    }
    pub fn ref_ofd(&mut self, o: usize) {
        self.ofds[o].refs += 1;
        match self.ofds[o].of {
            Of::PipeR(_) | Of::PipeW(_) => {}
            _ => {}
        }
    }
    pub fn unref_ofd(&mut self, o: usize) {
        self.ofds[o].refs -= 1;
        if self.ofds[o].refs == 0 {
            match self.ofds[o].of {
                Of::PipeR(p) => self.pipes[p].readers -= 1,
                Of::PipeW(p) => self.pipes[p].writers -= 1,
                _ => {}
            }
            self.wake(Key::Pipe, usize::MAX);
        }
    }
    pub fn close_fd(&mut self, fd: i32) -> bool {
        let p = self.threads[self.cur].proc;
        if (0..3).contains(&fd) {
            if let Some(o) = self.procs[p].stdfd[fd as usize].take() {
                self.unref_ofd(o);
                return true;
            }
            return false;
        }
        match self.fds.remove(&fd) {
            Some(o) => {
                self.procs[p].fds.retain(|f| *f != fd);
                self.unref_ofd(o);
                true
            }
            None => false,
        }
    }
    fn drop_fds(&mut self, p: usize) {
        for fd in std::mem::take(&mut self.procs[p].fds) {
            if let Some(o) = self.fds.remove(&fd) {
                self.unref_ofd(o);
            }
        }
        for i in 0..3 {
            if let Some(o) = self.procs[p].stdfd[i].take() {
                self.unref_ofd(o);
            }
        }
    }
    pub fn end_proc(&mut self, p: usize, e: Exit) {
        if self.procs[p].exit.is_some() {
            return;
        }
        let pid = self.procs[p].pid;
        self.log(|| format!("exit {pid} {e:?}"));
        self.procs[p].exit = Some(e);
        self.procs[p].ended_at = self.now;
        self.drop_fds(p);
        for t in 0..self.threads.len() {
            if self.threads[t].proc == p && self.threads[t].state != TState::Finished {
                self.threads[t].state = TState::Killed;
            }
        }
        self.wake(Key::Child, usize::MAX);
    }
    pub fn kill_proc(&mut self, p: usize, e: Exit) {
        self.end_proc(p, e);
    }

    pub fn new_dirp(&mut self) -> usize {
        self.next_dirp += 0x1000;
        self.next_dirp
    }
}

// ---------------------------------------------------------------- starting threads
struct Start {
    tid: usize,
    f: Option<Box<dyn FnOnce() + Send>>,
    c: Option<(extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, usize)>,
    last: bool,
}

extern "C" fn trampoline(arg: *mut libc::c_void) -> *mut libc::c_void {
    let st = unsafe { Box::from_raw(arg as *mut Start) };
    let Start { tid, f, c, last } = *st;
    sim().wait_for_baton(tid);
    TID.with(|t| t.set(tid));
    BUSY.with(|b| b.set(false));
    let mut r = std::ptr::null_mut();
    if let Some((start, a)) = c {
        r = start(a as *mut _);
    }
    if let Some(f) = f {
        f();
    }
    TID.with(|t| t.set(NONE));
    let s = sim();
    s.threads[tid].state = TState::Finished;
    s.wake(Key::Thread(tid), usize::MAX);
    if last {
        // nothing
    }
    s.pass_on();
    r
}

type PthreadCreate = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> i32;

unsafe fn start_thread(attr: *const libc::pthread_attr_t, proc: usize, mut st: Start) -> Result<usize, i32> {
    let s = sim();
    let tid = s.threads.len();
    st.tid = tid;
    s.threads.push(SThread {
        proc,
        state: TState::Runnable,
        go: Box::new(AtomicU32::new(0)),
        timed_out: false,
        pthread: 0,
        calm: 0,
    });
    let create: PthreadCreate = std::mem::transmute(hooks::next(c"pthread_create"));
    let mut th: libc::pthread_t = 0;
    let mut own: libc::pthread_attr_t = std::mem::zeroed();
    let a = if attr.is_null() {
        libc::pthread_attr_init(&mut own);
        libc::pthread_attr_setstacksize(&mut own, 64 << 20);
        &own as *const _
    } else {
        attr
    };
    let b = Box::into_raw(Box::new(st));
    let rc = create(&mut th, a, trampoline, b as *mut _);
    if rc != 0 {
        s.threads[tid].state = TState::Killed;
        return Err(rc);
    }
    s.threads[tid].pthread = th;
    Ok(tid)
}

/// pthread_create from simulated code: a new thread of the same process.
pub unsafe fn spawn_c(
    attr: *const libc::pthread_attr_t,
    start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> Result<libc::pthread_t, i32> {
    let _b = Busy::new();
    let s = sim();
    let proc = s.threads[s.cur].proc;
    let tid = start_thread(attr, proc, Start { tid: 0, f: None, c: Some((start, arg as usize)), last: false })?;
    Ok(sim().threads[tid].pthread)
}

/// Start the main thread of process `p`; `f` returns the exit code.
pub fn start_proc(p: usize, f: Box<dyn FnOnce() -> i32 + Send>) {
    let _b = Busy::new();
    let body = Box::new(move || {
        let code = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(c) => c,
            Err(_) => 101,
        };
        let s = sim();
        if !s.procs[p].stub {
            use std::io::Write;
            let _ = std::panic::catch_unwind(|| {
                let _ = std::io::stdout().flush();
            });
        }
        let _b = Busy::new();
        s.end_proc(p, Exit::Code(code));
        let t = s.cur;
        s.threads[t].state = TState::Finished;
    });
    unsafe {
        start_thread(std::ptr::null(), p, Start { tid: 0, f: Some(body), c: None, last: true }).expect("pthread_create");
    }
}

/// Scenario API: start a program written as a closure, as a new simulated process.
pub fn launch(name: &str, cwd: &str, f: impl FnOnce() -> i32 + Send + 'static) -> usize {
    let s = sim();
    let p = s.new_proc(name, cwd);
    s.procs[p].launch = Some(s.tag);
    let o1 = s.add_ofd(Of::Capture(p, 1), "<stdout>");
    let o2 = s.add_ofd(Of::Capture(p, 2), "<stderr>");
    let o0 = s.add_ofd(Of::Stdin(p), "<stdin>");
    s.procs[p].stdfd = [Some(o0), Some(o1), Some(o2)];
    start_proc(
        p,
        Box::new(move || {
            // a new process starts with empty output buffers
            sim().procs[p].discard = true;
            {
                use std::io::Write;
                let _ = std::io::stdout().flush();
            }
            sim().procs[p].discard = false;
            f()
        }),
    );
    p
}

/// Scenario API: the real `decy` command line program.
pub fn launch_decy(cwd: &str, args: &[&str]) -> usize {
    let mut v: Vec<String> = vec!["decy".into()];
    v.extend(args.iter().map(|s| s.to_string()));
    let name = v.join(" ");
    launch(&name, cwd, move || match decy_cli::sim_main(v) {
        Ok(()) => 0,
        Err(e) => {
            // what `fn main() -> Result` prints
            eprintln!("Error: {e:?}");
            1
        }
    })
}

/// Scenario API: run until all foreground processes have ended.
pub fn run() -> RunEnd {
    let s = sim();
    s.end = None;
    s.run_steps = 0;
    match s.pick() {
        Some(t) => s.hand(t),
        None => return s.end.unwrap(),
    }
    while s.main_go.swap(0, Ordering::SeqCst) == 0 {
        raw::futex_wait(&s.main_go, 0);
    }
    let e = s.end.unwrap_or(RunEnd::Done);
    let s = sim();
    s.log(|| format!("run ended {e:?}"));
    e
}

/// Convenience: run one decy command alone and report (exit, stdout, stderr).
pub fn decy(cwd: &str, args: &[&str]) -> (Option<Exit>, String, String) {
    let p = launch_decy(cwd, args);
    run();
    let s = sim();
    let q = &s.procs[p];
    (q.exit, String::from_utf8_lossy(&q.stdout).into_owned(), String::from_utf8_lossy(&q.stderr).into_owned())
}

/// Run `f` on the current simulated thread without faults.
pub fn unharmed<T>(f: impl FnOnce() -> T) -> T {
    let t = sim().cur;
    sim().threads[t].calm += 1;
    let v = f();
    sim().threads[t].calm -= 1;
    v
}

pub static ALLOC_POINTS: AtomicU32 = AtomicU32::new(0);
#[inline(never)]
pub fn alloc_point() {
    let _b = Busy::new();
    let s = sim();
    let n = s.cfg.alloc_preempt;
    if n == 0 {
        return;
    }
    s.allocs += 1;
    if s.allocs % n == 0 {
        s.preempt_any();
    }
}
