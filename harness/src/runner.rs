//! Case runner: shards generated cases over worker processes, catches panics and signals, detects
//! non-termination by CPU time, shrinks failures to a minimal choice sequence and writes evidence.

#[allow(unused_imports)]
pub use crate::{ensure, fail};
use crate::src::{hash_str, mix, Src};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    /// class of failure; shrinking keeps the class
    pub kind: String,
    pub msg: String,
    /// identity of a specific known defect this failure is an instance of
    pub key: Option<String>,
}
pub type CaseRes = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($kind:expr, $($a:tt)*) => {
        return Err($crate::runner::Fail { kind: $kind.to_string(), msg: format!($($a)*), key: None })
    };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $kind:expr, $($a:tt)*) => {
        if !$c { $crate::fail!($kind, $($a)*); }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub idx: u64,
    pub thorough: bool,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub evals: u64,
    pub sample: Option<String>,
    pub want_sample: bool,
    pub known_keys: HashSet<String>,
    pub known_hits: u64,
}
impl Ctx {
    pub fn label(&mut self, s: &str) {
        if let Some(v) = self.labels.get_mut(s) {
            *v += 1;
        } else {
            self.labels.insert(s.to_string(), 1);
        }
    }
    pub fn label_n(&mut self, s: &str, n: u64) {
        if let Some(v) = self.labels.get_mut(s) {
            *v += n;
        } else {
            self.labels.insert(s.to_string(), n);
        }
    }
    pub fn nt(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

pub struct Probe {
    pub key: &'static str,
    /// Some(message) when the defect is present
    pub run: fn() -> Option<String>,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// number of random cases (quick, thorough)
    pub cases: (u64, u64),
    /// number of enumerated cases (run first, once per tier) and their preset choices
    pub fixed: u64,
    pub preset: fn(u64) -> Vec<u64>,
    pub run: fn(&mut Src, &mut Ctx) -> CaseRes,
    pub probes: &'static [Probe],
}
pub fn no_preset(_: u64) -> Vec<u64> {
    vec![]
}

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
static IN_HARNESS: AtomicU64 = AtomicU64::new(0);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if let Ok(mut g) = PANIC.lock() {
            if g.is_none() {
                *g = Some((loc, msg));
            }
        }
    }));
}

/// A panic inside our own sources.
fn is_harness_loc(loc: &str) -> bool {
    loc.starts_with("src/")
}

pub enum Out {
    Ok,
    Fail(Fail),
    Harness(String),
}

pub fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> Out {
    if let Ok(mut g) = PANIC.lock() {
        *g = None;
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(src, ctx)));
    match r {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(f)) => Out::Fail(f),
        Err(_) => {
            let (loc, msg) = PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
            if is_harness_loc(&loc) {
                // The reference and the oracles complete every case on a machine that holds the property
                // (runs are deterministic, so this is known); one they cannot follow does not hold it.
                Out::Fail(Fail { kind: format!("lost:{loc}"), msg: format!("the machine went where no reference run goes: {msg} at {loc}"), key: None })
            } else {
                let file = loc.split(':').next().unwrap_or("").to_string();
                Out::Fail(Fail { kind: format!("panic:{file}"), msg: format!("the code under test panicked at {loc}: {msg}"), key: None })
            }
        }
    }
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub fn seed_tier() -> (u64, bool) {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    (seed, thorough)
}

fn case_src(p: &Prop, seed: u64, idx: u64) -> Src {
    let s = mix(hash_str(p.id), mix(seed, idx));
    if idx < p.fixed {
        Src::preset((p.preset)(idx), s)
    } else {
        Src::random(s)
    }
}

fn total(p: &Prop, thorough: bool) -> u64 {
    let n = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.cases.1 } else { p.cases.0 });
    p.fixed + n
}

fn known_keys(p: &Prop) -> HashSet<String> {
    let mut out = HashSet::new();
    if let Ok(t) = fs::read_to_string(root().join("known_findings.txt")) {
        for l in t.lines() {
            let l = l.trim();
            if let Some(r) = l.strip_prefix("known: ") {
                let mut prop = "";
                let mut key = "";
                for w in r.split_whitespace() {
                    if let Some(x) = w.strip_prefix("property=") {
                        prop = x;
                    }
                    if let Some(x) = w.strip_prefix("key=") {
                        key = x;
                    }
                }
                if prop == p.id {
                    out.insert(key.to_string());
                }
            }
        }
    }
    out
}
fn known_text(p: &Prop, key: &str) -> String {
    let t = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    for l in t.lines() {
        if l.starts_with("known: ") && l.contains(&format!("property={} ", p.id)) && l.contains(&format!("key={key} ")) {
            return l.splitn(2, &format!("key={key} ")).nth(1).unwrap_or("").to_string();
        }
    }
    String::new()
}

// ---------------------------------------------------------------- worker

/// Run with room for a few memories of more than 4 GB that are hardly touched.
pub fn roomy<R>(f: impl FnOnce() -> R) -> R {
    fn set(gb: u64) {
        unsafe {
            let r = libc::rlimit { rlim_cur: gb << 30, rlim_max: 40 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &r);
        }
    }
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            set(3)
        }
    }
    set(39);
    let _off = Off;
    f()
}

fn limits() {
    unsafe {
        let r = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 40 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn write_replay(path: &Path, p: &Prop, idx: u64, choices: &[u64], kind: &str, msg: &str, mode: &str) {
    let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
    let s = format!(
        "{{\n \"property\": \"{}\",\n \"index\": {},\n \"mode\": \"{}\",\n \"kind\": \"{}\",\n \"message\": \"{}\",\n \"choices\": [{}]\n}}\n",
        p.id,
        idx,
        mode,
        esc(kind),
        esc(msg),
        c.join(",")
    );
    fs::write(path, s).ok();
}
pub fn read_replay(path: &Path) -> Option<(String, Vec<u64>)> {
    let t = fs::read_to_string(path).ok()?;
    let prop = t.split("\"property\": \"").nth(1)?.split('"').next()?.to_string();
    let c = t.split("\"choices\": [").nth(1)?.split(']').next()?;
    Some((prop, c.split(',').filter_map(|x| x.trim().parse().ok()).collect()))
}
fn idx_of(path: &Path) -> Option<u64> {
    let t = fs::read_to_string(path).ok()?;
    t.split("\"index\": ").nth(1)?.split(',').next()?.trim().parse().ok()
}
fn field(path: &Path, name: &str) -> Option<String> {
    let t = fs::read_to_string(path).ok()?;
    let s = t.split(&format!("\"{name}\": \"")).nth(1)?;
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => break,
            },
            '"' => break,
            c => o.push(c),
        }
    }
    Some(o)
}

pub fn worker(p: &Prop, shard: u64, nsh: u64, dir: &Path) -> i32 {
    limits();
    install_hook();
    let (seed, thorough) = seed_tier();
    let tot = total(p, thorough);
    let prog = fs::OpenOptions::new().create(true).truncate(true).write(true).read(true).open(dir.join(format!("prog.{shard}"))).unwrap();
    use std::os::unix::fs::FileExt;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let (mut cases, mut evals, mut nt, mut known) = (0u64, 0u64, 0u64, 0u64);
    let mut hashes: Vec<u64> = vec![];
    let mut samples: Vec<String> = vec![];
    let keys = known_keys(p);
    // samples are taken from a fixed spread of indices
    let mut idx = shard;
    let mut code = 0;
    while idx < tot {
        prog.write_at(&(idx + 1).to_le_bytes(), 0).unwrap();
        let mut src = case_src(p, seed, idx);
        let mut ctx = Ctx { idx, thorough, want_sample: samples.len() < 2, known_keys: keys.clone(), ..Default::default() };
        let out = run_case(p, &mut src, &mut ctx);
        cases += 1;
        evals += ctx.evals.max(1);
        known += ctx.known_hits;
        for (k, v) in ctx.labels {
            *labels.entry(k).or_insert(0) += v;
        }
        if ctx.nontrivial {
            nt += 1;
            let mut h = 0u64;
            for c in &src.rec {
                h = mix(h, *c);
            }
            hashes.push(h);
            if let Some(s) = ctx.sample {
                samples.push(s);
            }
        }
        match out {
            Out::Ok => {}
            Out::Fail(f) => {
                if f.key.as_ref().map(|k| keys.contains(k)).unwrap_or(false) {
                    known += 1;
                } else {
                    write_replay(&dir.join(format!("fail.{shard}")), p, idx, &src.rec, &f.kind, &f.msg, "case");
                    code = 10;
                    break;
                }
            }
            Out::Harness(m) => {
                write_replay(&dir.join(format!("herr.{shard}")), p, idx, &src.rec, "harness", &m, "case");
                code = 11;
                break;
            }
        }
        idx += nsh;
    }
    let mut f = fs::File::create(dir.join(format!("stats.{shard}"))).unwrap();
    writeln!(f, "cases {cases}\nevals {evals}\nnt {nt}\nknown {known}").unwrap();
    for (k, v) in labels {
        writeln!(f, "label {v} {k}").unwrap();
    }
    for s in samples {
        writeln!(f, "sample {}", esc(&s)).unwrap();
    }
    let mut b = Vec::with_capacity(hashes.len() * 8);
    for h in hashes {
        b.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("hash.{shard}")), b).unwrap();
    code
}

/// Run one recorded case in this process: 0 ok, 10 failure (written to `out`), 11 harness error.
pub fn try_case(p: &Prop, choices: Vec<u64>, out: Option<&Path>) -> i32 {
    limits();
    unsafe {
        let c = libc::rlimit { rlim_cur: CASE_CPU, rlim_max: CASE_CPU + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &c);
    }
    install_hook();
    let mut src = Src::replay(choices.clone());
    let mut ctx = Ctx { known_keys: known_keys(p), ..Default::default() };
    match run_case(p, &mut src, &mut ctx) {
        Out::Ok => 0,
        Out::Fail(f) => {
            if f.key.as_ref().map(|k| ctx.known_keys.contains(k)).unwrap_or(false) {
                return 0;
            }
            if let Some(o) = out {
                write_replay(o, p, 0, &choices, &f.kind, &f.msg, "case");
            } else {
                println!("[{}] {}", f.kind, f.msg);
            }
            10
        }
        Out::Harness(m) => {
            eprintln!("harness error: {m}");
            11
        }
    }
}

/// CPU seconds one case may take before it counts as non-terminating (typical cases take milliseconds).
pub const CASE_CPU: u64 = 30;

// ---------------------------------------------------------------- shrinking

fn shrink_with(mut cur: Vec<u64>, budget: usize, wall: Duration, mut still: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let t0 = Instant::now();
    let mut n = 0;
    let mut attempt = |cand: Vec<u64>, cur: &mut Vec<u64>| -> bool {
        if n >= budget || t0.elapsed() > wall {
            return false;
        }
        n += 1;
        if let Some(mut v) = still(&cand) {
            while v.last() == Some(&0) {
                v.pop();
            }
            let better = v.len() < cur.len() || (v.len() == cur.len() && v < *cur);
            if better {
                *cur = v;
                return true;
            }
        }
        false
    };
    loop {
        let before = cur.clone();
        // delete spans
        let mut k = cur.len().next_power_of_two() / 2;
        while k >= 1 {
            let mut i = 0;
            while i + k <= cur.len() {
                let mut c = cur.clone();
                c.drain(i..i + k);
                if !attempt(c, &mut cur) {
                    i += k;
                }
            }
            if k <= 4 && cur.len() > 400 {
                break;
            }
            k /= 2;
        }
        // zero spans
        let mut k = 32usize;
        while k >= 1 {
            let mut i = 0;
            while i < cur.len() {
                let e = (i + k).min(cur.len());
                if cur[i..e].iter().any(|x| *x != 0) {
                    let mut c = cur.clone();
                    c[i..e].fill(0);
                    attempt(c, &mut cur);
                }
                i += k;
            }
            if k <= 4 && cur.len() > 400 {
                break;
            }
            k /= 4;
        }
        // reduce values
        if cur.len() <= 400 {
            let mut i = 0;
            while i < cur.len() {
                let v = cur[i];
                for w in [v / 2, v.saturating_sub(1)] {
                    if i < cur.len() && w < cur[i] {
                        let mut c = cur.clone();
                        c[i] = w;
                        attempt(c, &mut cur);
                    }
                }
                i += 1;
            }
        }
        if cur == before {
            break;
        }
    }
    cur
}

/// `vmcheck shrink`: in-process shrink of a failing case, rewriting the file with the smallest found.
pub fn shrink_inproc(p: &Prop, file: &Path) -> i32 {
    limits();
    install_hook();
    let Some((_, ch)) = read_replay(file) else { return 2 };
    let kind = field(file, "kind").unwrap_or_default();
    let keys = known_keys(p);
    let res = shrink_with(ch, 1500, Duration::from_secs(25), |c| {
        let mut src = Src::replay(c.to_vec());
        let mut ctx = Ctx::default();
        match run_case(p, &mut src, &mut ctx) {
            Out::Fail(f) if f.kind == kind && !f.key.as_ref().map(|k| keys.contains(k)).unwrap_or(false) => Some(src.rec),
            _ => None,
        }
    });
    let mut src = Src::replay(res.clone());
    let mut ctx = Ctx::default();
    if let Out::Fail(f) = run_case(p, &mut src, &mut ctx) {
        write_replay(file, p, 0, &res, &f.kind, &f.msg, "case");
    }
    0
}

fn sig_of(st: std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    st.signal()
}

fn self_cmd(args: &[&str]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).stdin(Stdio::null());
    c
}

enum Try {
    Ok,
    Fail,
    Crash(i32),
    Harness,
}
fn try_proc(p: &Prop, choices: &[u64], dir: &Path, secs: u64) -> Try {
    let f = dir.join("cand");
    write_replay(&f, p, 0, choices, "", "", "crash");
    let o = dir.join("cand.out");
    let mut ch = self_cmd(&["try", p.id, f.to_str().unwrap(), o.to_str().unwrap()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return match sig_of(st) {
                Some(s) => Try::Crash(s),
                None => match st.code() {
                    Some(0) => Try::Ok,
                    Some(10) => Try::Fail,
                    _ => Try::Harness,
                },
            };
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            ch.kill().ok();
            ch.wait().ok();
            return Try::Crash(libc::SIGXCPU);
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn crash_signal(s: i32) -> bool {
    matches!(s, libc::SIGSEGV | libc::SIGBUS | libc::SIGFPE | libc::SIGILL | libc::SIGABRT | libc::SIGTRAP)
}

fn cpu_ms(pid: u32) -> u64 {
    let Ok(t) = fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0 };
    let Some(r) = t.rsplit(')').next() else { return 0 };
    let v: Vec<&str> = r.split_whitespace().collect();
    let g = |i: usize| v.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (g(11) + g(12)) * 10
}

// ---------------------------------------------------------------- parent

pub fn check(p: &Prop) -> i32 {
    let t0 = Instant::now();
    let (seed, thorough) = seed_tier();
    let tier = if thorough { "thorough" } else { "quick" };
    let keys = known_keys(p);
    install_hook();
    let mut violations: Vec<PathBuf> = vec![];
    let rep_dir = root().join("replays");
    fs::create_dir_all(&rep_dir).ok();
    fs::create_dir_all(root().join("evidence")).ok();
    // probes for listed findings; an unlisted one is a violation
    for (i, pr) in p.probes.iter().enumerate() {
        // run in this process: probes are small and deterministic
        let r = std::panic::catch_unwind(|| (pr.run)());
        match r {
            Ok(None) => {}
            Ok(Some(m)) => {
                if keys.contains(pr.key) {
                    println!("KNOWN-FINDING: property={} {} [{}]", p.id, known_text(p, pr.key), pr.key);
                } else {
                    let f = rep_dir.join(format!("{}-probe{}.json", p.id, i));
                    write_replay(&f, p, 0, &[], pr.key, &m, "probe");
                    println!("{} probe {}: {}", p.id, pr.key, m);
                    violations.push(f);
                }
            }
            Err(_) => {
                let (loc, msg) = PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
                eprintln!("probe {} panicked at {loc}: {msg}", pr.key);
                if is_harness_loc(&loc) {
                    return 2;
                }
                let f = rep_dir.join(format!("{}-probe{}.json", p.id, i));
                write_replay(&f, p, 0, &[], pr.key, &msg, "probe");
                violations.push(f);
            }
        }
    }
    let dir = std::env::temp_dir().join(format!("vmcheck.{}.{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let nsh: u64 = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let tot = total(p, thorough);
    let mut kids: Vec<(u64, Child, u64, u64, bool)> = vec![]; // shard, child, last idx, cpu at idx start, killed
    for s in 0..nsh {
        let c = self_cmd(&["worker", p.id, &s.to_string(), &nsh.to_string(), dir.to_str().unwrap()]).stdout(Stdio::null()).spawn().unwrap();
        kids.push((s, c, 0, 0, false));
    }
    let mut harness_err: Option<String> = None;
    let mut crashed: Vec<(u64, i32)> = vec![]; // idx, signal
    let mut live = kids.len();
    let mut done = vec![false; kids.len()];
    let mut failed = false;
    while live > 0 {
        for k in 0..kids.len() {
            if done[k] {
                continue;
            }
            let prog = fs::read(dir.join(format!("prog.{}", kids[k].0))).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
            match kids[k].1.try_wait() {
                Ok(Some(st)) => {
                    done[k] = true;
                    live -= 1;
                    if let Some(sig) = sig_of(st) {
                        if kids[k].4 {
                            // killed by us
                            if sig == libc::SIGKILL && !failed {
                                crashed.push((prog.wrapping_sub(1), libc::SIGXCPU));
                                failed = true;
                            }
                        } else if crash_signal(sig) {
                            crashed.push((prog.wrapping_sub(1), sig));
                            failed = true;
                        } else if !failed {
                            harness_err = Some(format!("worker ended by signal {sig} at case {}", prog.wrapping_sub(1)));
                        }
                    } else {
                        match st.code() {
                            Some(0) => {}
                            Some(10) => failed = true,
                            c => {
                                let h = dir.join(format!("herr.{}", kids[k].0));
                                let m = field(&h, "message").unwrap_or_else(|| format!("worker exit {c:?} at case {}", prog.wrapping_sub(1)));
                                harness_err = Some(format!("case {}: {m}", prog.wrapping_sub(1)));
                            }
                        }
                    }
                }
                Ok(None) => {
                    let cpu = cpu_ms(kids[k].1.id());
                    if prog != kids[k].2 {
                        kids[k].2 = prog;
                        kids[k].3 = cpu;
                    } else if cpu.saturating_sub(kids[k].3) > CASE_CPU * 1000 {
                        kids[k].4 = true;
                        kids[k].1.kill().ok();
                    }
                }
                Err(_) => {}
            }
        }
        if failed || harness_err.is_some() {
            // one failure is enough; stop the others
            for k in 0..kids.len() {
                if !done[k] {
                    kids[k].4 = true;
                    kids[k].1.kill().ok();
                    kids[k].1.wait().ok();
                    done[k] = true;
                    live -= 1;
                }
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    // failing case files
    if violations.is_empty() {
        for s in 0..nsh {
            let f = dir.join(format!("fail.{s}"));
            if !f.exists() {
                continue;
            }
            // confirm in a fresh process, shrink, keep
            let (_, ch) = read_replay(&f).unwrap();
            let msg0 = field(&f, "message").unwrap_or_default();
            let kind0 = field(&f, "kind").unwrap_or_default();
            match try_proc(p, &ch, &dir, CASE_CPU + 30) {
                Try::Ok | Try::Harness => {
                    // It depends on what the process did before: the cases this worker ran are the
                    // replay then, up to this one.
                    let idx = idx_of(&f).unwrap_or(0);
                    let again = self_cmd(&["history", p.id, &idx.to_string(), &nsh.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).status().ok();
                    let again = again.map(|s| s.code() != Some(0)).unwrap_or(false);
                    let out = rep_dir.join(format!("{}-{}.json", p.id, seed));
                    let note = if again { "only after the cases before it in the same process" } else { "once; running the same cases again did not show it" };
                    write_replay(&out, p, idx, &[nsh, seed, thorough as u64], &kind0, &format!("{msg0} [{note}]"), "history");
                    println!("{}: [{kind0}] {msg0} [{note}]", p.id);
                    violations.push(out);
                    break;
                }
                _ => {}
            }
            let mut sh = self_cmd(&["shrink", p.id, f.to_str().unwrap()]).stdout(Stdio::null()).spawn().unwrap();
            let t = Instant::now();
            loop {
                if let Ok(Some(_)) = sh.try_wait() {
                    break;
                }
                if t.elapsed() > Duration::from_secs(60) {
                    sh.kill().ok();
                    sh.wait().ok();
                    break;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            let (choices, kind, msg) = match read_replay(&f) {
                Some((_, c)) => (c, field(&f, "kind").unwrap_or_default(), field(&f, "message").unwrap_or_default()),
                None => (ch, kind0, msg0),
            };
            let out = rep_dir.join(format!("{}-{}.json", p.id, seed));
            write_replay(&out, p, 0, &choices, &kind, &msg, "case");
            println!("{}: [{kind}] {msg}", p.id);
            violations.push(out);
            break;
        }
    }
    if violations.is_empty() {
        for (idx, sig) in &crashed {
            let mut src = case_src(p, seed, *idx);
            // the recorded choices of a crashed case: regenerate them in a child that dies again
            let rec = dir.join("rec");
            let st = self_cmd(&["record", p.id, &idx.to_string(), rec.to_str().unwrap()]).stdout(Stdio::null()).stderr(Stdio::null()).status().ok();
            let _ = (&mut src, st);
            let ch: Option<Vec<u64>> = fs::read(&rec).ok().map(|b| b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect());
            let again = ch.as_ref().map(|c| !matches!(try_proc(p, c, &dir, CASE_CPU + 60), Try::Ok | Try::Harness)).unwrap_or(false);
            if !again {
                if !crash_signal(*sig) {
                    harness_err = Some(format!("case {idx} took too long but did not when run again"));
                    continue;
                }
                let out = rep_dir.join(format!("{}-{}.json", p.id, seed));
                let what = format!("the process died with signal {sig}, after the cases before this one");
                write_replay(&out, p, *idx, &[nsh, seed, thorough as u64], "crash", &what, "history");
                println!("{}: case {idx}: {what}", p.id);
                violations.push(out);
                break;
            }
            let ch = ch.unwrap();
            let (budget, wall, secs) = if *sig == libc::SIGXCPU { (4, 100, 20) } else { (250, 40, 20) };
            let res = shrink_with(ch, budget, Duration::from_secs(wall), |c| match try_proc(p, c, &dir, secs) {
                Try::Crash(s) if s == *sig || (crash_signal(s) && crash_signal(*sig)) => Some(c.to_vec()),
                _ => None,
            });
            let what = if *sig == libc::SIGXCPU { "did not end within its CPU limit".to_string() } else { format!("the process died with signal {sig}") };
            let out = rep_dir.join(format!("{}-{}.json", p.id, seed));
            write_replay(&out, p, *idx, &res, "crash", &what, "crash");
            println!("{}: case {idx}: {what}", p.id);
            violations.push(out);
            break;
        }
    }
    // statistics
    let (mut cases, mut evals, mut nt, mut known) = (0u64, 0u64, 0u64, 0u64);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut set: HashSet<u64> = HashSet::new();
    for s in 0..nsh {
        if let Ok(t) = fs::read_to_string(dir.join(format!("stats.{s}"))) {
            for l in t.lines() {
                let mut it = l.splitn(2, ' ');
                let (k, v) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
                match k {
                    "cases" => cases += v.parse::<u64>().unwrap_or(0),
                    "evals" => evals += v.parse::<u64>().unwrap_or(0),
                    "nt" => nt += v.parse::<u64>().unwrap_or(0),
                    "known" => known += v.parse::<u64>().unwrap_or(0),
                    "label" => {
                        let mut q = v.splitn(2, ' ');
                        let n = q.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                        *labels.entry(q.next().unwrap_or("").to_string()).or_insert(0) += n;
                    }
                    "sample" => {
                        if samples.len() < 6 {
                            samples.push(v.to_string())
                        }
                    }
                    _ => {}
                }
            }
        }
        if let Ok(b) = fs::read(dir.join(format!("hash.{s}"))) {
            for c in b.chunks_exact(8) {
                set.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    fs::remove_dir_all(&dir).ok();
    let lab: Vec<String> = labels.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
    let sam: Vec<String> = samples.iter().map(|s| format!("\"{s}\"")).collect();
    let ass: Vec<String> = p.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let ev = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"samples\": [{}],\n  \"cases_planned\": {},\n  \"cases_run\": {},\n  \"nontrivial_cases\": {},\n  \"known_finding_instances\": {},\n  \"labels\": {{{}}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        p.id,
        tier,
        seed,
        evals,
        set.len(),
        esc(p.rule),
        sam.join(", "),
        tot,
        cases,
        nt,
        known,
        lab.join(", "),
        ass.join(", "),
        t0.elapsed().as_secs_f64(),
        violations.len()
    );
    fs::write(root().join("evidence").join(format!("{}.json", p.id)), ev).unwrap();
    if let Some(v) = violations.first() {
        println!("VIOLATION property={} replay={}", p.id, v.display());
        return 1;
    }
    if let Some(e) = harness_err {
        eprintln!("ERROR property={}: {e}", p.id);
        return 2;
    }
    if cases != tot {
        eprintln!("ERROR property={}: {cases} of {tot} cases ran", p.id);
        return 2;
    }
    println!("OK property={} tier={tier} seed={seed} cases={cases} evaluations={evals} distinct_nontrivial={} wall={:.1}s", p.id, set.len(), t0.elapsed().as_secs_f64());
    0
}

/// `vmcheck record`: re-run a crashing case, leaving its choices in a file as they are drawn.
pub fn record(p: &Prop, idx: u64, out: &Path) -> i32 {
    limits();
    unsafe {
        let c = libc::rlimit { rlim_cur: CASE_CPU, rlim_max: CASE_CPU + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &c);
    }
    install_hook();
    let (seed, thorough) = seed_tier();
    let mut src = case_src(p, seed, idx);
    src.log = Some(fs::File::create(out).unwrap());
    let mut ctx = Ctx { idx, thorough, ..Default::default() };
    run_case(p, &mut src, &mut ctx);
    0
}

/// `vmcheck history`: the cases a worker of `nsh` runs before case `idx`, then that case.
pub fn history(p: &Prop, idx: u64, nsh: u64) -> i32 {
    limits();
    install_hook();
    let (seed, thorough) = seed_tier();
    let keys = known_keys(p);
    let mut i = idx % nsh.max(1);
    while i <= idx {
        let mut src = case_src(p, seed, i);
        let mut ctx = Ctx { idx: i, thorough, known_keys: keys.clone(), ..Default::default() };
        if let Out::Fail(f) = run_case(p, &mut src, &mut ctx) {
            if !f.key.as_ref().map(|k| keys.contains(k)).unwrap_or(false) {
                println!("case {i}: [{}] {}", f.kind, f.msg);
                return 10;
            }
        }
        i += nsh.max(1);
    }
    0
}

pub fn replay(p: &Prop, file: &Path) -> i32 {
    let mode = field(file, "mode").unwrap_or_default();
    install_hook();
    if mode == "history" {
        let Some((_, c)) = read_replay(file) else { return 2 };
        let (Some(idx), [nsh, seed, th]) = (idx_of(file), c.as_slice()) else { return 2 };
        let st = self_cmd(&["history", p.id, &idx.to_string(), &nsh.to_string()])
            .env("VERIF_SEED", seed.to_string())
            .env("VERIF_TIER", if *th == 1 { "thorough" } else { "quick" })
            .status();
        if st.map(|s| s.code() == Some(0)).unwrap_or(false) {
            println!("replay passes");
            return 0;
        }
        println!("VIOLATION property={} replay={}", p.id, file.display());
        return 1;
    }
    if mode == "probe" {
        let key = field(file, "kind").unwrap_or_default();
        for pr in p.probes {
            if pr.key == key {
                return match (pr.run)() {
                    Some(m) => {
                        println!("{m}\nVIOLATION property={} replay={}", p.id, file.display());
                        1
                    }
                    None => 0,
                };
            }
        }
        return 2;
    }
    let Some((_, ch)) = read_replay(file) else { return 2 };
    let dir = std::env::temp_dir().join(format!("vmreplay.{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let r = try_proc(p, &ch, &dir, CASE_CPU + 60);
    let code = match r {
        Try::Ok => {
            println!("replay passes");
            0
        }
        Try::Harness => 2,
        Try::Fail => {
            println!("[{}] {}", field(&dir.join("cand.out"), "kind").unwrap_or_default(), field(&dir.join("cand.out"), "message").unwrap_or_default());
            println!("VIOLATION property={} replay={}", p.id, file.display());
            1
        }
        Try::Crash(s) => {
            println!("the process died with signal {s}");
            println!("VIOLATION property={} replay={}", p.id, file.display());
            1
        }
    };
    fs::remove_dir_all(&dir).ok();
    code
}

pub fn harness_active() -> u64 {
    IN_HARNESS.load(Ordering::Relaxed)
}
