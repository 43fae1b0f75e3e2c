//! Runner: proptest drives choice tapes into checks, in worker threads of a child
//! process.  The parent turns crashes, hangs and runaway memory of the child into
//! violations too, by finding the case that was in flight.

use crate::gen::Rng;
use proptest::collection::vec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// What one evaluation of a check tells the runner.
#[derive(Default)]
pub struct Rec {
    pub nontrivial: bool,
    pub key: u64,
    pub sample: String,
    pub labels: BTreeSet<&'static str>,
    /// inner evaluations beyond the first (variants of the case that were parsed)
    pub extra: u64,
}
impl Rec {
    /// Record the case; `nontrivial` by the rule of the check.
    pub fn case(&mut self, nontrivial: bool, key: &impl Hash, sample: impl FnOnce() -> String) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        self.key = h.finish();
        self.nontrivial = nontrivial;
        self.sample = sample();
    }
}
pub type Res = Result<(), String>;

#[derive(Clone, Copy)]
pub enum How {
    /// random tapes of up to this many choices
    Tape(usize),
    /// every index below this count, passed as the only choice
    Each(fn() -> usize),
}
#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub how: How,
    /// cases in the quick tier; the thorough tier multiplies them
    pub quick: usize,
    pub times: usize,
    pub f: fn(&mut Rec, &[u32]) -> Res,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

pub const WORKERS: usize = 8;
const STACK: usize = 256 << 20;
const SLOT: usize = 1 << 20;
/// CPU seconds one case may take
fn cpu_limit() -> f64 {
    std::env::var("SQLCHECK_CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(25.0)
}
/// resident bytes above which the child gives up
const RSS_LIMIT: u64 = 10 << 30;

thread_local! {
    static IN_SUBJECT: RefCell<bool> = const { RefCell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if IN_SUBJECT.with(|f| *f.borrow()) {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{m} ({loc})"));
        } else {
            old(i);
        }
    }));
}
/// Run code of the parser; a panic in it becomes an error naming it.
pub fn subject<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    IN_SUBJECT.with(|x| *x.borrow_mut() = true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_SUBJECT.with(|x| *x.borrow_mut() = false);
    r.map_err(|_| PANIC.with(|p| format!("the parser panicked: {}", p.borrow())))
}

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

// ---- shared slots: the case every worker has in flight ---------------------------
struct Shm {
    p: *mut u8,
}
unsafe impl Send for Shm {}
unsafe impl Sync for Shm {}
impl Shm {
    fn open(path: &Path) -> Shm {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len((SLOT * WORKERS) as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT * WORKERS,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shm { p: p as *mut u8 }
    }
    fn put(&self, w: usize, sub: usize, tape: &[u32]) {
        let n = tape.len().min(SLOT / 4 - 8);
        unsafe {
            let p = self.p.add(w * SLOT) as *mut u32;
            p.write_volatile(0);
            p.add(1).write_volatile(sub as u32);
            p.add(2).write_volatile(n as u32);
            std::ptr::copy_nonoverlapping(tape.as_ptr(), p.add(3), n);
            p.write_volatile(1);
        }
    }
    fn clear(&self, w: usize) {
        unsafe { (self.p.add(w * SLOT) as *mut u32).write_volatile(0) }
    }
    fn get(&self, w: usize) -> Option<(usize, Vec<u32>)> {
        unsafe {
            let p = self.p.add(w * SLOT) as *mut u32;
            if p.read_volatile() == 0 {
                return None;
            }
            let sub = p.add(1).read_volatile() as usize;
            let n = p.add(2).read_volatile() as usize;
            Some((sub, std::slice::from_raw_parts(p.add(3), n).to_vec()))
        }
    }
}

// ---- statistics --------------------------------------------------------------------
#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    per_sub: BTreeMap<&'static str, u64>,
}

pub struct Failure {
    pub sub: usize,
    pub tape: Vec<u32>,
    pub msg: String,
}

fn thread_cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
pub fn cpu_now() -> f64 {
    thread_cpu()
}
fn other_cpu(clk: libc::clockid_t) -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clk, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

struct Slot {
    clk: AtomicU64,
    /// thread CPU time (ms) when the current case started; u64::MAX when idle
    start: AtomicU64,
}

/// Child: run every sub-check. Prints a result line and writes the statistics.
pub fn child(prop: &Prop, tier: &str, seed: u64, shm: &Path) -> i32 {
    install_hook();
    let shm = Arc::new(Shm::open(shm));
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..WORKERS)
            .map(|_| Slot { clk: AtomicU64::new(u64::MAX), start: AtomicU64::new(u64::MAX) })
            .collect(),
    );
    {
        let slots = slots.clone();
        std::thread::spawn(move || {
            let lim = cpu_limit();
            loop {
                std::thread::sleep(std::time::Duration::from_millis(100));
                for (w, s) in slots.iter().enumerate() {
                    let st = s.start.load(Ordering::SeqCst);
                    let clk = s.clk.load(Ordering::SeqCst);
                    if st == u64::MAX || clk == u64::MAX {
                        continue;
                    }
                    let now = other_cpu(clk as i64 as libc::clockid_t);
                    // the case must still be the same one
                    if now - st as f64 / 1000.0 > lim && s.start.load(Ordering::SeqCst) == st {
                        println!("HANG {w}");
                        std::io::stdout().flush().ok();
                        std::process::exit(77);
                    }
                }
                let rss = std::fs::read_to_string("/proc/self/statm")
                    .ok()
                    .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
                    .unwrap_or(0)
                    * 4096;
                if rss > RSS_LIMIT {
                    println!("MEMORY");
                    std::io::stdout().flush().ok();
                    std::process::exit(78);
                }
            }
        });
    }
    let stop = Arc::new(AtomicBool::new(false));
    let fails: Arc<Mutex<Vec<Failure>>> = Arc::new(Mutex::new(Vec::new()));
    let stats = Arc::new(Mutex::new(Stats::default()));
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("SQLCHECK_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("SQLCHECK_ONLY").ok();
    let subs: Vec<(usize, Sub)> = prop
        .subs
        .iter()
        .copied()
        .enumerate()
        .filter(|(_, s)| only.as_ref().is_none_or(|o| s.name.contains(o.as_str())))
        .collect();
    let mut hs = Vec::new();
    for w in 0..WORKERS {
        let (shm, slots, stop, fails, stats, subs) =
            (shm.clone(), slots.clone(), stop.clone(), fails.clone(), stats.clone(), subs.clone());
        let id = prop.id;
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let mut clk: libc::clockid_t = 0;
                unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
                slots[w].clk.store(clk as i64 as u64, Ordering::SeqCst);
                let mut st = Stats::default();
                for &(si, ref sub) in &subs {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let mut rs = Rng(seed
                        ^ (si as u64 + 1).wrapping_mul(0x1000_0001)
                        ^ id.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
                    let mut key = [0u8; 32];
                    for k in 0..4 {
                        let v = rs.next() ^ ((w as u64 + 1) << 40);
                        key[k * 8..k * 8 + 8].copy_from_slice(&v.to_le_bytes());
                    }
                    let total = ((sub.quick as f64) * scale) as usize * if thorough { sub.times } else { 1 };
                    let failed = RefCell::new(false);
                    let stc = RefCell::new(&mut st);
                    let eval = |tape: &[u32]| -> Res {
                        if !*failed.borrow() && stop.load(Ordering::SeqCst) {
                            return Ok(());
                        }
                        shm.put(w, si, tape);
                        slots[w].start.store((thread_cpu() * 1000.0) as u64, Ordering::SeqCst);
                        let mut rec = Rec::default();
                        let r = (sub.f)(&mut rec, tape);
                        slots[w].start.store(u64::MAX, Ordering::SeqCst);
                        shm.clear(w);
                        if !*failed.borrow() {
                            let mut s = stc.borrow_mut();
                            s.evals += 1 + rec.extra;
                            *s.per_sub.entry(sub.name).or_default() += 1 + rec.extra;
                            for l in rec.labels {
                                *s.labels.entry(l).or_default() += 1;
                            }
                            if rec.nontrivial {
                                let n = s.nontrivial.len();
                                if s.nontrivial.insert(rec.key)
                                    && (n < 3 || n % 3001 == 17)
                                    && s.samples.len() < 12
                                    && rec.sample.len() < 1500
                                {
                                    s.samples.push(format!("[{}] {}", sub.name, rec.sample));
                                }
                            }
                        }
                        if r.is_err() {
                            *failed.borrow_mut() = true;
                        }
                        r
                    };
                    let out: Option<(Vec<u32>, String)> = match sub.how {
                        How::Each(count) => {
                            let n = count();
                            let mut out = None;
                            for i in (w..n).step_by(WORKERS) {
                                if let Err(m) = eval(&[i as u32]) {
                                    out = Some((vec![i as u32], m));
                                    break;
                                }
                            }
                            out
                        }
                        How::Tape(len) => {
                            let n = total / WORKERS + usize::from(w < total % WORKERS);
                            let cfg = Config {
                                cases: n as u32,
                                failure_persistence: None,
                                max_shrink_iters: if std::env::var("SQLCHECK_NOSHRINK").is_ok() { 0 } else { 30_000 },
                                max_shrink_time: 40_000,
                                max_global_rejects: 0,
                                ..Config::default()
                            };
                            let mut tr = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &key));
                            // the last failing message belongs to the minimal tape
                            match tr.run(&vec(any::<u32>(), 0..=len), |tape| eval(&tape).map_err(TestCaseError::fail)) {
                                Ok(()) => None,
                                Err(TestError::Fail(r, tape)) => Some((tape, r.message().to_string())),
                                Err(TestError::Abort(r)) => panic!("aborted: {r}"),
                            }
                        }
                    };
                    if let Some((tape, msg)) = out {
                        stop.store(true, Ordering::SeqCst);
                        fails.lock().unwrap().push(Failure { sub: si, tape, msg });
                        break;
                    }
                }
                let mut g = stats.lock().unwrap();
                g.evals += st.evals;
                g.nontrivial.extend(st.nontrivial);
                for (k, v) in st.labels {
                    *g.labels.entry(k).or_default() += v;
                }
                for (k, v) in st.per_sub {
                    *g.per_sub.entry(k).or_default() += v;
                }
                g.samples.extend(st.samples);
            })
            .unwrap();
        hs.push(h);
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("harness thread failed");
            return 2;
        }
    }
    let st = stats.lock().unwrap();
    let mut samples: Vec<&String> = st.samples.iter().collect();
    samples.sort();
    samples.dedup();
    // spread over the sub-checks
    let mut keep: Vec<&String> = Vec::new();
    for (_, s) in &subs {
        let p = format!("[{}]", s.name);
        keep.extend(samples.iter().filter(|x| x.starts_with(&p)).take(4));
    }
    let mut o = String::new();
    o.push_str(&format!("{}\n{}\n", st.evals, st.nontrivial.len()));
    o.push_str(&format!(
        "{{{}}}\n",
        st.per_sub.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")
    ));
    o.push_str(&format!(
        "{{{}}}\n",
        st.labels.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")
    ));
    o.push_str(&format!("[{}]\n", keep.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    println!("STATS\n{o}ENDSTATS");
    let mut f = fails.lock().unwrap();
    f.sort_by_key(|f| (f.tape.len(), f.sub));
    if let Some(f) = f.first() {
        println!("FAIL {} {}", f.sub, tape_str(&f.tape));
        println!("{}", f.msg);
        return 1;
    }
    0
}

pub fn tape_str(t: &[u32]) -> String {
    if t.is_empty() {
        return "-".into();
    }
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
pub fn tape_parse(s: &str) -> Vec<u32> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|x| x.parse().unwrap()).collect()
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || c as u32 > 0xfff0 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Run one case in a process of its own. `None`: it passed; otherwise what happened.
pub fn isolated(id: &str, sub: &str, tape: &[u32], cpu: u64) -> Option<String> {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("case").arg(id).arg(sub).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let m = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &m);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        });
    }
    let mut ch = c.spawn().unwrap();
    ch.stdin.take().unwrap().write_all(tape_str(tape).as_bytes()).ok();
    let o = ch.wait_with_output().unwrap();
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    match (o.status.code(), o.status.signal()) {
        (Some(0), _) => None,
        (Some(1), _) => Some(text),
        (_, Some(libc::SIGXCPU)) | (_, Some(libc::SIGKILL)) => {
            Some(format!("{text}the parser did not finish within {cpu} s of CPU time"))
        }
        (_, Some(libc::SIGSEGV)) => Some(format!("{text}the process was killed by SIGSEGV (stack overflow)")),
        (_, Some(libc::SIGABRT)) => Some(format!("{text}the process aborted (stack overflow or out of memory)")),
        (c, s) => Some(format!("{text}the process ended with status {c:?} signal {s:?}")),
    }
}

fn write_replay(id: &str, sub: &str, tape: &[u32], msg: &str) -> PathBuf {
    let dir = verif().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    tape.hash(&mut h);
    let p = dir.join(format!("{id}-{sub}-{:08x}.txt", h.finish() as u32));
    std::fs::write(
        &p,
        format!(
            "property={id}\nsub={sub}\ntape={}\n# re-run with: /verif/check.sh replay {}\n\n{msg}\n",
            tape_str(tape),
            p.display()
        ),
    )
    .unwrap();
    p
}

pub struct Extra {
    /// lines for KNOWN-FINDING etc.
    pub lines: Vec<String>,
}

/// Parent: run the child, report, write the evidence file. Exit status of the check.
pub fn parent(prop: &Prop, tier: &str, seed: u64, level: &str, assumptions: &[&str], extra: Extra) -> i32 {
    let t0 = std::time::Instant::now();
    let shm_path = std::env::temp_dir().join(format!("sqlcheck-{}-{}.shm", prop.id, std::process::id()));
    let mut attempt = 0;
    let (stats, fail) = loop {
        attempt += 1;
        std::fs::remove_file(&shm_path).ok();
        let o = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["child", prop.id, tier, &seed.to_string()])
            .arg(&shm_path)
            .stderr(std::process::Stdio::inherit())
            .output()
            .unwrap();
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let stats: Vec<String> = text
            .split_once("STATS\n")
            .and_then(|x| x.1.split_once("ENDSTATS"))
            .map(|x| x.0.lines().map(|l| l.to_string()).collect())
            .unwrap_or_default();
        match o.status.code() {
            Some(0) => break (stats, None),
            Some(1) if text.contains("\nFAIL ") => {
                let rest = text.split_once("\nFAIL ").unwrap().1;
                let (head, msg) = rest.split_once('\n').unwrap();
                let (s, t) = head.split_once(' ').unwrap();
                let sub = s.parse().unwrap();
                break (stats, Some(Failure { sub, tape: tape_parse(t), msg: msg.to_string() }));
            }
            Some(2) => {
                std::fs::remove_file(&shm_path).ok();
                eprintln!("the harness failed");
                return 2;
            }
            code => {
                // crashed, hung or out of memory: find the case in flight
                eprintln!("child ended with {:?}: looking for the case in flight", o.status);
                let hang = code == Some(77) || code == Some(78);
                let shm = Shm::open(&shm_path);
                let mut found = None;
                for w in 0..WORKERS {
                    if let Some((si, tape)) = shm.get(w) {
                        let name = prop.subs[si].name;
                        if let Some(m) = isolated(prop.id, name, &tape, cpu_limit() as u64 + 5) {
                            let (tape, m) = shrink_isolated(prop.id, name, tape, m, if hang { 4 } else { 10 });
                            found = Some(Failure { sub: si, tape, msg: m });
                            break;
                        }
                    }
                }
                if found.is_some() {
                    break (stats, found);
                }
                if attempt >= 2 {
                    std::fs::remove_file(&shm_path).ok();
                    eprintln!("the child died twice and no single case explains it");
                    return 2;
                }
            }
        }
    };
    std::fs::remove_file(&shm_path).ok();
    let get = |i: usize, d: &str| stats.get(i).cloned().unwrap_or_else(|| d.to_string());
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"evaluations_per_sub_check\": {},\n  \"cases_per_feature\": {},\n  \"samples\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(prop.id),
        js(tier),
        seed,
        js(level),
        get(0, "0"),
        get(1, "0"),
        js(prop.rule),
        get(2, "{}"),
        get(3, "{}"),
        get(4, "[]"),
        assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        usize::from(fail.is_some())
    );
    let dir = verif().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(dir.join(format!("{}.json", prop.id)), ev).unwrap();
    for l in &extra.lines {
        println!("{l}");
    }
    if let Some(f) = fail {
        let name = prop.subs[f.sub].name;
        let p = write_replay(prop.id, name, &f.tape, &f.msg);
        println!("{}", f.msg.lines().take(60).collect::<Vec<_>>().join("\n"));
        println!("VIOLATION property={} replay={}", prop.id, p.display());
        return 1;
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial cases, {:.1} s: held",
        prop.id,
        get(0, "0"),
        get(1, "0"),
        t0.elapsed().as_secs_f64()
    );
    0
}

/// Bounded shrinking of a crashing or hanging tape, one process per attempt.
fn shrink_isolated(id: &str, sub: &str, mut tape: Vec<u32>, mut msg: String, cpu: u64) -> (Vec<u32>, String) {
    let t0 = std::time::Instant::now();
    let mut attempts = 0;
    let mut chunk = tape.len().div_ceil(2).max(1);
    while chunk >= 1 && attempts < 120 && t0.elapsed().as_secs() < 90 {
        let mut i = 0;
        let mut any = false;
        while i < tape.len() && attempts < 120 && t0.elapsed().as_secs() < 90 {
            let mut t = tape.clone();
            t.drain(i..(i + chunk).min(t.len()));
            attempts += 1;
            if let Some(m) = isolated(id, sub, &t, cpu) {
                tape = t;
                msg = m;
                any = true;
            } else {
                i += chunk;
            }
        }
        if !any {
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
    }
    (tape, msg)
}

/// `case`: one evaluation on a thread with the usual stack.
pub fn run_one(prop: &Prop, sub: &str, tape: Vec<u32>) -> i32 {
    install_hook();
    let s = *prop.subs.iter().find(|s| s.name == sub).expect("sub-check");
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut rec = Rec::default();
            let r = (s.f)(&mut rec, &tape);
            (r, rec.sample)
        })
        .unwrap();
    match h.join() {
        Ok((Ok(()), s)) => {
            println!("held\n{s}");
            0
        }
        Ok((Err(m), _)) => {
            println!("{m}");
            1
        }
        Err(_) => 2,
    }
}
