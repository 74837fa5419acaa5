//! Stub programs that simulated processes can execute.
use super::*;
use std::io::Write;

pub type ProgFn = fn(&[String]) -> i32;
pub type Boxed = Box<dyn FnOnce(&[String]) -> i32 + Send>;

pub fn default_tools() -> BTreeMap<String, ProgFn> {
    let mut m: BTreeMap<String, ProgFn> = BTreeMap::new();
    m.insert("clang".into(), clang);
    m.insert("rustc".into(), rustc);
    m.insert("gcc".into(), gcc);
    m.insert("cc".into(), gcc);
    m.insert("bash".into(), bash);
    m
}

/// Find the program for a spawn: a tool by name, or a virtual executable.
pub fn resolve(name: &str, _argv: &[String]) -> Option<Result<Boxed, i32>> {
    let s = sim();
    if let Some(f) = s.progs.get(name) {
        let f = *f;
        return Some(Ok(Box::new(move |a: &[String]| f(a))));
    }
    if name.contains('/') {
        let path = if name.starts_with('/') {
            name.to_string()
        } else {
            format!("{}/{}", s.procs[s.threads[s.cur].proc].cwd, name)
        };
        let data = match s.fs.lookup(&path, true).and_then(|i| s.fs.file(i).cloned()) {
            Ok(d) => d,
            Err(e) => return Some(Err(e)),
        };
        let ino = s.fs.lookup(&path, true).unwrap();
        if s.fs.cur[&ino].mode & 0o100 == 0 {
            return Some(Err(libc::EACCES));
        }
        let text = String::from_utf8_lossy(&data).into_owned();
        let Some(script) = text.strip_prefix("SIMEXE ") else { return Some(Err(libc::ENOEXEC)) };
        let script: Script = serde_json::from_str(script).unwrap_or_default();
        return Some(Ok(Box::new(move |_| run_script(&script))));
    }
    None
}

/// What a simulated program does when it runs.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Script {
    /// (delay before, stream 1/2, bytes as latin-1 string)
    pub out: Vec<(u64, u8, String)>,
    pub end_delay: u64,
    /// -1: never ends
    pub code: i32,
    /// terminated by this signal, if not 0
    pub signal: i32,
}
impl Script {
    pub fn bytes(s: &str) -> Vec<u8> {
        s.chars().map(|c| c as u32 as u8).collect()
    }
    pub fn stdout(&self) -> Vec<u8> {
        self.out.iter().filter(|o| o.1 == 1).flat_map(|o| Self::bytes(&o.2)).collect()
    }
    pub fn stderr(&self) -> Vec<u8> {
        self.out.iter().filter(|o| o.1 == 2).flat_map(|o| Self::bytes(&o.2)).collect()
    }
    pub fn duration(&self) -> u64 {
        self.out.iter().map(|o| o.0).sum::<u64>() + self.end_delay
    }
}

fn sleep(ns: u64) {
    let _b = Busy::new();
    sim().sleep(ns);
}
fn yield_() {
    let _b = Busy::new();
    sim().yield_now();
}
pub fn say(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { hooks::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            return false;
        }
        b = &b[n as usize..];
    }
    true
}

pub fn run_script(sc: &Script) -> i32 {
    for (d, fd, text) in &sc.out {
        if *d > 0 {
            sleep(*d);
        }
        yield_();
        if !say(*fd as i32, &Script::bytes(text)) {
            break;
        }
    }
    if sc.end_delay > 0 {
        sleep(sc.end_delay);
    }
    if sc.code == -1 {
        loop {
            sleep(1_000_000_000_000);
        }
    }
    if sc.signal != 0 {
        let _b = Busy::new();
        let s = sim();
        let p = s.threads[s.cur].proc;
        s.end_proc(p, Exit::Signal(sc.signal));
        s.park_forever();
    }
    sc.code
}

fn clang(_a: &[String]) -> i32 {
    // `clang -E -x c - -v`: the include search list goes to stderr
    let mut b = [0u8; 256];
    unsafe { while hooks::read(0, b.as_mut_ptr() as *mut _, 256) > 0 {} }
    say(
        2,
        b"clang version 18.1.3\n#include \"...\" search starts here:\n#include <...> search starts here:\n /usr/lib/llvm-18/lib/clang/18/include\n /usr/local/include\n /usr/include/x86_64-linux-gnu\n /usr/include\nEnd of search list.\n",
    );
    0
}

fn arg_after(a: &[String], flag: &str) -> Option<String> {
    a.iter().position(|x| x == flag).and_then(|i| a.get(i + 1).cloned())
}
fn input_file(a: &[String], exts: &[&str]) -> Option<String> {
    let o = arg_after(a, "-o");
    a.iter().skip(1).filter(|x| !x.starts_with('-') && Some(*x) != o.as_ref()).find(|x| exts.iter().any(|e| x.ends_with(e))).cloned()
}

/// Marker a source text carries to decide what the compiler stub says about it.
pub fn verdict(src: &str) -> Option<String> {
    src.find("simfail_").map(|i| src[i + 8..].chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect())
}
/// Program the source text compiles to: looked up by marker in the scenario's table.
pub fn program_of(src: &str, lang: &str) -> Script {
    let id: String = match src.find("simprog_") {
        Some(i) => src[i + 8..].chars().take_while(|c| c.is_ascii_alphanumeric()).collect(),
        None => return Script::default(),
    };
    scripts().get(&format!("{lang}:{id}")).cloned().unwrap_or_default()
}
static mut SCRIPTS: Option<BTreeMap<String, Script>> = None;
pub fn scripts() -> &'static mut BTreeMap<String, Script> {
    unsafe {
        let p = &raw mut SCRIPTS;
        (*p).get_or_insert_with(BTreeMap::new)
    }
}
/// Simulated compile time range (ns), per tool.
pub static mut COMPILE_NS: (u64, u64) = (1_000_000, 200_000_000);

fn compile_time() -> u64 {
    let (lo, hi) = unsafe { COMPILE_NS };
    let s = sim();
    lo + s.frand.below(hi - lo + 1)
}

/// Fault for this run of a tool, if the plan has one: the path is `<tool>name#k`, k counting the runs of one operation.
fn tool_fault(name: &str) -> Option<String> {
    let _b = Busy::new();
    let s = sim();
    let p = s.threads[s.cur].proc;
    let mut a = p;
    while s.procs[a].launch.is_none() {
        a = s.procs[a].parent?;
    }
    let launch = s.procs[a].launch?;
    let n = s.tool_runs.entry((launch, name.to_string())).or_insert(0);
    *n += 1;
    let path = format!("<tool>{name}#{}", *n - 1);
    s.yield_now();
    if !s.faults_on {
        return None;
    }
    let i = (0..s.cfg.faults.len()).find(|i| s.cfg.faults[*i].op == launch && s.cfg.faults[*i].path == path && !s.fault_done[*i])?;
    let k = s.cfg.faults[i].kind.clone();
    s.fault_done[i] = true;
    *s.fired.entry(k.clone()).or_insert(0) += 1;
    s.log(|| format!("FAULT {k} at {path}"));
    s.tool_hits.push((launch, name.to_string(), k.clone()));
    Some(k)
}
fn die(signal: i32) -> i32 {
    run_script(&Script { signal, ..Default::default() })
}
/// What a faulty tool does at its end, its output file being written.
fn late(f: &Option<String>, out: Option<String>) -> Option<i32> {
    let k = f.as_deref()?;
    if let Some(o) = out {
        let s = sim();
        if s.frand.below(3) == 0 {
            if let Some(d) = s.fs.get(&abs(&o)) {
                let _ = std::fs::write(&o, &d[..d.len() / 2]);
            }
        }
    }
    Some(match k {
        "tool_late_fail" => {
            say(2, b"error: could not write output: No space left on device\n");
            1
        }
        _ => die(9),
    })
}

fn rustc(a: &[String]) -> i32 {
    yield_();
    let src = if let Some(p) = input_file(a, &[".rs"]) {
        match std::fs::read(&p) {
            Ok(b) => String::from_utf8_lossy(&b).into_owned(),
            Err(e) => {
                say(2, format!("error: couldn't read `{p}`: {e}\n\nerror: aborting due to 1 previous error\n").as_bytes());
                return 1;
            }
        }
    } else if a.iter().any(|x| x == "-") {
        let mut v = vec![];
        let mut b = [0u8; 4096];
        loop {
            let n = unsafe { hooks::read(0, b.as_mut_ptr() as *mut _, 4096) };
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        String::from_utf8_lossy(&v).into_owned()
    } else {
        say(1, b"rustc 1.99.1 (sim)\n");
        return 0;
    };
    let nth;
    {
        let _b = Busy::new();
        let s = sim();
        let p = s.threads[s.cur].proc;
        let parent = s.procs[p].parent.unwrap_or(p);
        nth = s.compiled.len();
        s.compiled.push((parent, src.clone(), false));
    }
    let f = tool_fault("rustc");
    sleep(compile_time());
    match f.as_deref() {
        Some("tool_kill") => return die(9),
        Some("tool_silent") => return 1,
        _ => {}
    }
    let json = a.iter().any(|x| x.contains("error-format=json"));
    if let Some(id) = verdict(&src) {
        if json {
            say(2, format!("{{\"message\":\"mismatched types {id}\",\"code\":{{\"code\":\"E0308\"}},\"level\":\"error\"}}\n").as_bytes());
        } else {
            say(2, format!("error[E0308]: mismatched types {id}\n --> x.rs:1:1\n\nerror: aborting due to 1 previous error\n").as_bytes());
        }
        return 1;
    }
    if src.contains("simwarn_") {
        say(2, b"warning: unused variable: `simwarn_`\n --> x.rs:1:1\n\nwarning: 1 warning emitted\n");
    }
    if let Some(o) = arg_after(a, "-o") {
        if o != "/dev/null" {
            let meta = a.iter().any(|x| x.contains("metadata"));
            let data = if meta { "rmeta".to_string() } else { format!("SIMEXE {}", serde_json::to_string(&program_of(&src, "rust")).unwrap()) };
            if std::fs::write(&o, data).is_err() {
                say(2, b"error: could not write output\n");
                return 1;
            }
            let s = sim();
            if let Ok(i) = s.fs.lookup(&abs(&o), true) {
                s.fs.chmod(i, 0o755);
            }
        }
    }
    if let Some(c) = late(&f, arg_after(a, "-o")) {
        return c;
    }
    sim().compiled[nth].2 = true;
    0
}
fn abs(p: &str) -> String {
    if p.starts_with('/') {
        p.to_string()
    } else {
        let s = sim();
        format!("{}/{}", s.procs[s.threads[s.cur].proc].cwd, p)
    }
}

fn gcc(a: &[String]) -> i32 {
    yield_();
    let Some(p) = input_file(a, &[".c"]) else { return 1 };
    let src = match std::fs::read(&p) {
        Ok(b) => String::from_utf8_lossy(&b).into_owned(),
        Err(e) => {
            say(2, format!("gcc: error: {p}: {e}\n").as_bytes());
            return 1;
        }
    };
    let f = tool_fault("gcc");
    sleep(compile_time());
    match f.as_deref() {
        Some("tool_kill") => return die(9),
        Some("tool_silent") => return 1,
        _ => {}
    }
    if src.contains("simcfail_") {
        say(2, b"input.c:1:1: error: expected declaration\n");
        return 1;
    }
    if let Some(o) = arg_after(a, "-o") {
        let data = format!("SIMEXE {}", serde_json::to_string(&program_of(&src, "c")).unwrap());
        if std::fs::write(&o, data).is_err() {
            say(2, b"collect2: error: ld returned 1 exit status\n");
            return 1;
        }
        let s = sim();
        if let Ok(i) = s.fs.lookup(&abs(&o), true) {
            s.fs.chmod(i, 0o755);
        }
    }
    if let Some(c) = late(&f, arg_after(a, "-o")) {
        return c;
    }
    let _ = std::io::stdout().flush();
    0
}

/// `bash <script>`: the script's text is `exit <n>` or `script <json>`.
fn bash(a: &[String]) -> i32 {
    yield_();
    let Some(p) = a.get(1) else { return 127 };
    let Ok(b) = std::fs::read(p) else {
        say(2, format!("bash: {p}: cannot read\n").as_bytes());
        return 127;
    };
    let t = String::from_utf8_lossy(&b).into_owned();
    match tool_fault("bash").as_deref() {
        Some("tool_silent" | "tool_late_fail") => return 1,
        Some(_) => return die(9),
        None => {}
    }
    let sc: Script = t.strip_prefix("script ").and_then(|j| serde_json::from_str(j).ok()).unwrap_or_default();
    run_script(&sc)
}
