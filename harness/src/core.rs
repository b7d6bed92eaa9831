//! Runner: seeded cases, three-valued verdicts, watchdog, evidence.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ rng
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Self {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in [a, b]
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uniform(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f64()
    }
    /// log-uniform, a, b > 0
    pub fn log_uniform(&mut self, a: f64, b: f64) -> f64 {
        (a.ln() + (b.ln() - a.ln()) * self.f64()).exp()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn sample(&mut self) -> f32 {
        self.uniform(-1.0, 1.0) as f32
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

// ------------------------------------------------------------------ cases
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// short stable signature: what known findings are keyed on
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Violation>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Violation> {
    Err(Violation {
        sig: sig.to_string(),
        msg,
    })
}

pub struct Case {
    pub rng: Rng,
    pub index: u64,
    pub tier: Tier,
    pub verbose: bool,
    /// description of what was done (kept small)
    pub desc: Vec<String>,
    pub nontrivial: bool,
    pub counts: BTreeMap<&'static str, u64>,
    pub tags: Vec<String>,
}

impl Case {
    pub fn note(&mut self, s: String) {
        if self.verbose {
            eprintln!("  {s}");
        }
        if self.desc.len() < 400 {
            self.desc.push(s);
        }
    }
    pub fn count(&mut self, k: &'static str, n: usize) {
        *self.counts.entry(k).or_insert(0) += n as u64;
    }
    /// coverage tag: the number of distinct tags seen is reported
    pub fn tag(&mut self, s: impl Into<String>) {
        self.tags.push(s.into());
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick_cases: u64,
    pub thorough_cases: u64,
    /// run cases on several threads
    pub parallel: bool,
    pub assumptions: &'static [&'static str],
    /// counters that must be non-zero for the run to mean anything
    pub required: &'static [&'static str],
    pub case: fn(&mut Case) -> Res,
}

// ------------------------------------------------------------------ panics
thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String, bool)>> = const { RefCell::new(None) };
    static IN_CASE: RefCell<bool> = const { RefCell::new(false) };
}
/// panics on threads other than case threads (audio threads, garbage collectors)
pub static FOREIGN_PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let in_repo = panic_in_repo(&loc);
        let is_case = IN_CASE.with(|c| *c.borrow());
        if is_case {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg, in_repo)));
        } else if in_repo {
            FOREIGN_PANICS
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .push((loc, msg));
        } else {
            eprintln!("harness panic at {loc}: {msg}");
        }
    }));
}

fn panic_in_repo(loc: &str) -> bool {
    if loc.starts_with("/repo/") {
        return true;
    }
    if loc.starts_with("src/") {
        return false;
    }
    // in std or a dependency: whose call was it? The innermost frame that is
    // either the library's or ours decides.
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    for line in bt.lines() {
        if line.contains("rv::core::") && (line.contains("panic_in_repo") || line.contains("install_panic_hook")) {
            continue;
        }
        if line.contains("rawdio::") {
            return true;
        }
        if line.contains("rv::") {
            return false;
        }
    }
    false
}

/// Mark the calling thread as running code whose panics the caller collects.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Violation> {
    let before = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| *c.borrow_mut() = before);
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow_mut().take());
            let (loc, msg, in_repo) = p.unwrap_or((String::new(), "unknown panic".into(), false));
            if in_repo {
                let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(&loc);
                Err(Violation {
                    sig: format!("panic:{}", file.trim_start_matches("/repo/src/")),
                    msg: format!("panic at {loc}: {msg}"),
                })
            } else {
                Err(Violation {
                    sig: "HARNESS".into(),
                    msg: format!("harness panic at {loc}: {msg}"),
                })
            }
        }
    }
}

// ------------------------------------------------------------------ stdout
static OUT_FD: AtomicI32 = AtomicI32::new(1);

/// The library's garbage collector prints; keep stdout for our own lines.
fn capture_stdout() {
    unsafe {
        let saved = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        OUT_FD.store(saved, Ordering::SeqCst);
    }
}

pub fn say(s: &str) {
    let line = format!("{s}\n");
    let fd = OUT_FD.load(Ordering::SeqCst);
    let b = line.as_bytes();
    let mut off = 0;
    while off < b.len() {
        let n = unsafe { libc::write(fd, b[off..].as_ptr() as *const _, b.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
}

// ------------------------------------------------------------------ watchdog
struct Slot {
    tid: AtomicI32,
    case: AtomicU64, // index + 1, 0 = idle
    cpu_at_start: AtomicU64,
    started_ms: AtomicU64,
}

fn thread_stat(tid: i32) -> Option<(u64, char)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let state = f.first()?.chars().next()?;
    let ut: u64 = f.get(11)?.parse().ok()?;
    let st: u64 = f.get(12)?.parse().ok()?;
    Some(((ut + st) * 10, state)) // ms (100 Hz clock ticks)
}

pub fn gettid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}

// ------------------------------------------------------------------ options
pub struct Options {
    pub tier: Tier,
    pub seed: u64,
    pub out_dir: PathBuf,
    pub replay_dir: PathBuf,
    pub known: PathBuf,
    pub only_case: Option<u64>,
    pub cases: Option<u64>,
    pub verbose: bool,
    pub slow: u64,
    pub seconds: Option<u64>,
    pub extra: Value,
}

fn known_findings(path: &Path, id: &str) -> Vec<(String, String)> {
    // "finding: property=<id> sig=<signature> <text>"
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let sg = it.next().unwrap_or("");
                let text = it.next().unwrap_or("");
                if p == format!("property={id}") {
                    if let Some(sg) = sg.strip_prefix("sig=") {
                        v.push((sg.to_string(), text.to_string()));
                    }
                }
            }
        }
    }
    v
}

fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut x = fnv(fnv(0xcbf29ce484222325, id.as_bytes()), &seed.to_le_bytes());
    x = fnv(x, &index.to_le_bytes());
    splitmix(&mut x)
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    counts: BTreeMap<&'static str, u64>,
    tags: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<(u64, Violation, Vec<String>)>,
    known_hit: BTreeMap<String, u64>,
    harness_errors: Vec<String>,
}

fn run_case(p: &Prop, o: &Options, index: u64) -> (Case, Res) {
    let mut c = Case {
        rng: Rng::new(case_seed(o.seed, p.id, index)),
        index,
        tier: o.tier,
        verbose: o.verbose,
        desc: Vec::new(),
        nontrivial: false,
        counts: BTreeMap::new(),
        tags: Vec::new(),
    };
    let r = match guarded(|| (p.case)(&mut c)) {
        Ok(r) => r,
        Err(v) => Err(v),
    };
    (c, r)
}

fn write_replay(p: &Prop, o: &Options, index: u64, v: &Violation, desc: &[String]) -> PathBuf {
    let _ = std::fs::create_dir_all(&o.replay_dir);
    let path = o
        .replay_dir
        .join(format!("{}-seed{}-case{}.json", p.id, o.seed, index));
    let j = json!({
        "property": p.id, "seed": o.seed, "tier": format!("{:?}", o.tier).to_lowercase(),
        "case": index, "signature": v.sig, "message": v.msg, "history": desc,
        "replay": format!("/verif/check.sh {} --seed {} --tier {} --case {}", p.id, o.seed, format!("{:?}", o.tier).to_lowercase(), index),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

pub fn run(p: &Prop, o: &Options) -> i32 {
    capture_stdout();
    install_panic_hook();
    let start = Instant::now();
    let total = o.cases.unwrap_or(match o.tier {
        Tier::Quick => p.quick_cases,
        Tier::Thorough => p.thorough_cases,
    });
    let limit = Duration::from_secs(o.seconds.unwrap_or(match o.tier {
        Tier::Quick => 300,
        Tier::Thorough => 780,
    }));
    let known = known_findings(&o.known, p.id);
    let threads = if p.parallel && o.only_case.is_none() {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
    } else {
        1
    };
    let next = AtomicU64::new(o.only_case.unwrap_or(0));
    let end = o.only_case.map(|c| c + 1).unwrap_or(total);
    let stop = AtomicBool::new(false);
    let tally = Mutex::new(Tally::default());
    let done = AtomicUsize::new(0);
    let slots: Vec<Arc<Slot>> = (0..threads)
        .map(|_| {
            Arc::new(Slot {
                tid: AtomicI32::new(0),
                case: AtomicU64::new(0),
                cpu_at_start: AtomicU64::new(0),
                started_ms: AtomicU64::new(0),
            })
        })
        .collect();

    std::thread::scope(|sc| {
        for slot in &slots {
            let (next, stop, tally, done, known) = (&next, &stop, &tally, &done, &known);
            let slot = slot.clone();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    slot.tid.store(gettid(), Ordering::SeqCst);
                    loop {
                        if stop.load(Ordering::Relaxed) || start.elapsed() > limit {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= end {
                            break;
                        }
                        slot.cpu_at_start.store(
                            thread_stat(gettid()).map(|x| x.0).unwrap_or(u64::MAX),
                            Ordering::SeqCst,
                        );
                        slot.started_ms
                            .store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        slot.case.store(i + 1, Ordering::SeqCst);
                        crate::monitor::set_case(i);
                        let (c, r) = run_case(p, o, i);
                        slot.case.store(0, Ordering::SeqCst);
                        let mut t = tally.lock().unwrap();
                        t.evaluations += 1;
                        if c.nontrivial {
                            t.nontrivial += 1;
                            let h = c
                                .desc
                                .iter()
                                .fold(0xcbf29ce484222325, |h, s| fnv(h, s.as_bytes()));
                            t.distinct.insert(h);
                            if t.samples.len() < 3 && c.desc.len() < 60 {
                                let mut s = format!("case {i}: {}", c.desc.join("; "));
                                s.truncate(1200);
                                t.samples.push(s);
                            }
                        }
                        for (k, v) in &c.counts {
                            *t.counts.entry(k).or_insert(0) += v;
                        }
                        for k in &c.tags {
                            *t.tags.entry(k.clone()).or_insert(0) += 1;
                        }
                        if let Err(v) = r {
                            if v.sig == "HARNESS" {
                                t.harness_errors.push(format!("case {i}: {}", v.msg));
                                stop.store(true, Ordering::SeqCst);
                            } else if known.iter().any(|k| k.0 == v.sig) {
                                *t.known_hit.entry(v.sig.clone()).or_insert(0) += 1;
                            } else {
                                t.violations.push((i, v, c.desc.clone()));
                                if t.violations.len() >= 5 {
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog on this thread
        let hang_cpu_ms = 60_000 * o.slow;
        let block_ms = 90_000 * o.slow;
        let mut last_seen: Vec<(u64, u64, u64)> = vec![(0, 0, 0); slots.len()]; // case, cpu, wall of last cpu change
        let mut tick = 0u64;
        while done.load(Ordering::SeqCst) < threads {
            std::thread::sleep(Duration::from_millis(20));
            tick += 1;
            if tick % 50 != 0 {
                continue;
            }
            for (k, slot) in slots.iter().enumerate() {
                let case = slot.case.load(Ordering::SeqCst);
                if case == 0 {
                    continue;
                }
                let now = start.elapsed().as_millis() as u64;
                let Some((cpu, state)) = thread_stat(slot.tid.load(Ordering::SeqCst)) else {
                    continue;
                };
                if slot.case.load(Ordering::SeqCst) != case {
                    continue;
                }
                let used = cpu.saturating_sub(slot.cpu_at_start.load(Ordering::SeqCst));
                if last_seen[k].0 != case || cpu > last_seen[k].1 + 200 {
                    last_seen[k] = (case, cpu, now);
                }
                let what = if crate::monitor::blocked_for(10_000 * o.slow) == Some(case - 1) {
                    Some(("blocked", "a process call waits and does not go on".to_string()))
                } else if used > hang_cpu_ms {
                    Some(("hang", format!("case burnt {} s of CPU without finishing", used / 1000)))
                } else if state == 'S' && now - last_seen[k].2 > block_ms {
                    Some(("blocked", format!("case made no progress for {} s while blocked", (now - last_seen[k].2) / 1000)))
                } else {
                    None
                };
                if let Some((sig, msg)) = what {
                    let v = Violation {
                        sig: sig.into(),
                        msg,
                    };
                    let is_known = known.iter().any(|x| x.0 == v.sig);
                    let mut t = match tally.try_lock() {
                        Ok(t) => t,
                        Err(_) => continue,
                    };
                    t.evaluations += 1;
                    t.violations.push((case - 1, v, vec!["(did not terminate)".into()]));
                    let code = finish(p, o, &mut t, start, total, is_known, &known);
                    unsafe { libc::_exit(code) };
                }
            }
        }
    });
    let mut t = tally.into_inner().unwrap();
    for (loc, msg) in FOREIGN_PANICS.lock().unwrap().drain(..) {
        t.violations.push((
            0,
            Violation {
                sig: format!("panic:{loc}"),
                msg: format!("panic on a background thread at {loc}: {msg}"),
            },
            vec![],
        ));
    }
    let code = finish(p, o, &mut t, start, total, false, &known);
    // engines' background threads may still be sleeping
    unsafe { libc::_exit(code) }
}

fn finish(
    p: &Prop,
    o: &Options,
    t: &mut Tally,
    start: Instant,
    planned: u64,
    _known_hang: bool,
    known: &[(String, String)],
) -> i32 {
    let mut code = 0;
    t.violations.sort_by_key(|v| v.0);
    for (sig, text) in known {
        if t.known_hit.contains_key(sig) {
            say(&format!("KNOWN-FINDING: property={} {} ({})", p.id, text, sig));
        }
    }
    for (i, v, desc) in t.violations.iter().take(3) {
        let path = write_replay(p, o, *i, v, desc);
        say(&format!("{} case {}: [{}] {}", p.id, i, v.sig, v.msg));
        say(&format!("VIOLATION property={} replay={}", p.id, path.display()));
        code = 1;
    }
    if code == 0 {
        if !t.harness_errors.is_empty() {
            for e in &t.harness_errors {
                say(&format!("ERROR {e}"));
            }
            code = 2;
        } else if o.only_case.is_none() {
            for k in p.required {
                if t.counts.get(k).copied().unwrap_or(0) == 0 {
                    say(&format!("INCONCLUSIVE {}: nothing observed for '{k}'", p.id));
                    code = 3;
                }
            }
            if t.distinct.len() < 10 && planned >= 10 {
                say(&format!("INCONCLUSIVE {}: only {} non-trivial cases", p.id, t.distinct.len()));
                code = 3;
            }
        }
    }
    let mut cov = json!({
        "evaluations": t.evaluations,
        "distinct_nontrivial": t.distinct.len(),
        "rule": p.rule,
        "samples": t.samples,
        "planned_cases": planned,
        "observed": t.counts,
        "distinct_tags": t.tags.len(),
        "tags": t.tags.iter().take(80).map(|(k, v)| (k.clone(), json!(v))).collect::<serde_json::Map<String, Value>>(),
        "known_findings_hit": t.known_hit,
    });
    if let (Some(a), Some(b)) = (cov.as_object_mut(), o.extra.as_object()) {
        for (k, v) in b {
            a.insert(k.clone(), v.clone());
        }
    }
    let ev = json!({
        "property": p.id,
        "tier": format!("{:?}", o.tier).to_lowercase(),
        "seed": o.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": t.violations.len(),
    });
    if o.only_case.is_none() {
        let _ = std::fs::create_dir_all(&o.out_dir);
        let path = o.out_dir.join(format!("{}.json", p.id));
        if let Ok(mut f) = std::fs::File::create(&path) {
            let _ = f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes());
        }
    }
    say(&format!(
        "{}: {} cases ({} distinct non-trivial), {} violations, {:.1} s, observed {:?}",
        p.id,
        t.evaluations,
        t.distinct.len(),
        t.violations.len(),
        start.elapsed().as_secs_f64(),
        t.counts
    ));
    code
}
