//! Runs the sub-checks of a property over generated cases: deterministic case
//! seeds, worker processes, panic capture, an allocation budget, shrinking,
//! replay files and the evidence file.
use crate::cfg::Cfg;
use crate::src::{shrink, Rng, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::Instant;

pub struct Fail {
    /// Failure class: shrinking keeps it, known findings are keyed on it.
    pub sig: String,
    pub msg: String,
}

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Every (configuration, text) handed to the parser in this case.
    pub inputs: Vec<(String, String)>,
    /// Extra description (history, fault plan...) for samples and replays.
    pub note: String,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn labels_any(&self) -> bool {
        !self.labels.is_empty()
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    pub fn parse(&mut self, cfg: &Cfg, text: &str) -> Result<String, Fail> {
        let t = guarded(|| cfg.build())?;
        self.parse_with(&t, cfg, text)
    }
    pub fn parse_with(&mut self, t: &rustextile::Textile, cfg: &Cfg, text: &str) -> Result<String, Fail> {
        self.inputs.push((cfg.describe(), text.to_owned()));
        crate::src::trace_point(|| self.display());
        set_budget(text.len());
        let r = guarded(|| t.parse(text));
        clear_budget();
        r
    }
    fn display(&self) -> String {
        let mut s = String::new();
        if !self.note.is_empty() {
            s.push_str(&self.note);
            s.push('\n');
        }
        for (c, t) in &self.inputs {
            s.push_str(&format!("[{}] {:?}\n", c, t));
        }
        s
    }
    fn key(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        let mut eat = |b: &[u8]| {
            for x in b {
                h ^= *x as u64;
                h = h.wrapping_mul(0x1000_0000_01b3);
            }
            h ^= 0xff;
            h = h.wrapping_mul(0x1000_0000_01b3);
        };
        for (c, t) in &self.inputs {
            eat(c.as_bytes());
            eat(t.as_bytes());
        }
        eat(self.note.as_bytes());
        h
    }
}

pub type CheckFn = fn(&mut Src, &mut Ctx) -> Result<(), Fail>;

pub struct Sub {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub f: CheckFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: &'static [Sub],
}

// ---------------------------------------------------------------- panics

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs code under test; a panic becomes a failure of class "panic:<where>".
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            clear_budget();
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let short: String = msg.chars().take(200).collect();
            Err(Fail { sig: format!("panic:{}", loc), msg: format!("panicked at {}: {}", loc, short) })
        }
    }
}

// ---------------------------------------------------------------- allocation budget

pub struct CountingAlloc;
static ALLOCATED: AtomicU64 = AtomicU64::new(0);
static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
pub const EXIT_ALLOC: i32 = 77;
pub const EXIT_HANG: i32 = 78;
pub const EXIT_RUNAWAY: i32 = 79;
/// Processor time one case may take.  The slowest on the unchanged tree takes
/// two orders of magnitude less; processor time does not depend on the load.
const CASE_CPU_SECONDS: f64 = 150.0;
/// Wall time spent on making one failing case smaller.
const SHRINK_SECONDS: u64 = 40;

fn cpu_seconds() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n);
        std::alloc::System.realloc(p, l, n)
    }
}

#[inline]
fn count(n: usize) {
    let total = ALLOCATED.fetch_add(n as u64, Relaxed) + n as u64;
    if total > BUDGET.load(Relaxed) {
        unsafe { libc::_exit(EXIT_ALLOC) }
    }
}

/// Deterministic work bound for one parse of `len` bytes of text: bytes
/// requested from the allocator, cumulatively.  The unchanged tree stays two
/// orders of magnitude below it (the maximum seen is reported as evidence).
pub fn budget_for(len: usize) -> u64 {
    let l = len as u64 + 64;
    6_000_000_000 + 20_000_000 * l + 1000 * l * l
}
fn set_budget(len: usize) {
    ALLOCATED.store(0, Relaxed);
    BUDGET.store(budget_for(len), Relaxed);
    BUDGET_LEN.store(len, Relaxed);
}
static BUDGET_LEN: AtomicUsize = AtomicUsize::new(0);
static MAX_PERMILLE: AtomicU64 = AtomicU64::new(0);
fn clear_budget() {
    if BUDGET.swap(u64::MAX, Relaxed) != u64::MAX {
        let used = ALLOCATED.load(Relaxed);
        let b = budget_for(BUDGET_LEN.load(Relaxed));
        MAX_PERMILLE.fetch_max(used * 1000 / b, Relaxed);
    }
}

// ---------------------------------------------------------------- case seeds

fn case_seed(seed: u64, prop: &str, sub: &str, case: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in prop.bytes().chain([0]).chain(sub.bytes()).chain([0]) {
        h ^= b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    let mut r = Rng::new(h ^ seed.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    let a = r.next();
    let mut r = Rng::new(a ^ case.wrapping_mul(0xA24B_AED4_963E_E407));
    r.next()
}

// ---------------------------------------------------------------- progress shared with the parent

const SHARED_BYTES: usize = 1 << 20;
struct Shared(*mut u32);
impl Shared {
    fn open(path: &str) -> Option<Shared> {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).ok()?;
        f.set_len(SHARED_BYTES as u64).ok()?;
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), SHARED_BYTES, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        if p == libc::MAP_FAILED {
            None
        } else {
            Some(Shared(p as *mut u32))
        }
    }
    fn set(&self, sub: u32, case: u32) {
        unsafe {
            *self.0 = sub;
            *self.0.add(1) = case;
        }
    }
    fn get(&self) -> (u32, u32) {
        unsafe { (*self.0, *self.0.add(1)) }
    }
}

// ---------------------------------------------------------------- worker

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub scale: f64,
    pub all: bool,
    pub only: Option<String>,
}

fn cases_of(sub: &Sub, o: &Opts) -> u64 {
    let n = if o.tier == "thorough" { sub.thorough } else { sub.quick };
    ((n as f64 * o.scale) as u64).max(1)
}

fn run_case(sub: &Sub, src: &mut Src) -> (Ctx, Result<(), Fail>) {
    let mut ctx = Ctx::default();
    let r = (sub.f)(src, &mut ctx);
    (ctx, r)
}

/// Guards a whole case: a panic of the harness itself must not look like a
/// violation, so it is reported as an internal error.
fn run_case_safe(sub: &Sub, src: &mut Src) -> Result<(Ctx, Result<(), Fail>), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(sub, src))) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).map(|(l, m)| format!("{}: {}", l, m)).unwrap_or_default()),
    }
}

const SHRINK_BUDGET: usize = 1500;

pub fn worker(prop: &Prop, o: &Opts, shard: u64, shards: u64, dir: &str) -> i32 {
    let shared = Shared::open(&format!("{}/w{}.progress", dir, shard)).expect("progress file");
    // A case that burns processor time without end is a violation (of C01); one
    // that just does not return is inconclusive.
    std::thread::spawn({
        let p = shared.0 as usize;
        move || {
            let mut last = (u32::MAX, u32::MAX);
            let mut since = Instant::now();
            let mut cpu = cpu_seconds();
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let now = Shared(p as *mut u32).get();
                if now != last {
                    last = now;
                    since = Instant::now();
                    cpu = cpu_seconds();
                } else if cpu_seconds() - cpu > CASE_CPU_SECONDS {
                    unsafe { libc::_exit(EXIT_RUNAWAY) }
                } else if since.elapsed().as_secs() > 400 {
                    unsafe { libc::_exit(EXIT_HANG) }
                }
            }
        }
    });
    let mut evals: BTreeMap<&str, u64> = BTreeMap::new();
    let mut nontriv: BTreeMap<&str, u64> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut keys: Vec<u64> = Vec::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut failures: Vec<Value> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut seen_sigs: HashSet<String> = HashSet::new();
    'outer: for (si, sub) in prop.subs.iter().enumerate() {
        if let Some(ref only) = o.only {
            if only != sub.name {
                continue;
            }
        }
        let n = cases_of(sub, o);
        let mut sampled = 0;
        let mut case = shard;
        while case < n {
            shared.set(si as u32, case as u32);
            let mut src = Src::random(case_seed(o.seed, prop.id, sub.name, case));
            let (ctx, res) = match run_case_safe(sub, &mut src) {
                Ok(v) => v,
                Err(e) => {
                    errors.push(format!("harness panic in {} case {}: {}", sub.name, case, e));
                    break 'outer;
                }
            };
            *evals.entry(sub.name).or_default() += 1;
            if ctx.nontrivial {
                *nontriv.entry(sub.name).or_default() += 1;
                keys.push(ctx.key());
                if sampled < 2 && shard == 0 {
                    sampled += 1;
                    samples.push(json!({"sub": sub.name, "case": case, "input": trunc(&ctx.display(), 700)}));
                }
            }
            for l in &ctx.labels {
                *labels.entry(format!("{}:{}", sub.name, l)).or_default() += 1;
            }
            if let Err(f) = res {
                let fresh = seen_sigs.insert(format!("{}|{}", sub.name, f.sig));
                if !o.all || fresh {
                    let start = src.used();
                    let sig = f.sig.clone();
                    let until = Instant::now() + std::time::Duration::from_secs(SHRINK_SECONDS);
                    let small = shrink(start, SHRINK_BUDGET, |c| {
                        if Instant::now() > until {
                            return None;
                        }
                        let mut s = Src::replay(c);
                        match run_case_safe(sub, &mut s) {
                            Ok((_, Err(g))) if g.sig == sig => Some(s.used()),
                            _ => None,
                        }
                    });
                    let mut s = Src::replay(&small);
                    let (ctx2, msg) = match run_case_safe(sub, &mut s) {
                        Ok((c, Err(g))) => (c, g.msg),
                        _ => (ctx, f.msg.clone()),
                    };
                    failures.push(json!({
                        "property": prop.id, "sub": sub.name, "case": case, "seed": o.seed,
                        "sig": f.sig, "msg": msg, "choices": small, "input": ctx2.display(),
                    }));
                }
                if !o.all {
                    break 'outer;
                }
            }
            case += shards;
        }
    }
    let kpath = format!("{}/w{}.keys", dir, shard);
    let bytes: Vec<u8> = keys.iter().flat_map(|k| k.to_le_bytes()).collect();
    std::fs::write(&kpath, bytes).expect("keys file");
    let out = json!({
        "evals": evals, "nontriv": nontriv, "labels": labels, "samples": samples,
        "failures": failures, "errors": errors,
        "alloc_permille": MAX_PERMILLE.load(Relaxed),
    });
    std::fs::write(format!("{}/w{}.json", dir, shard), out.to_string()).expect("result file");
    0
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

// ---------------------------------------------------------------- parent

/// Runs a single case given by its choices in this process.
pub fn eval(prop: &Prop, sub: &str, choices: &[u32]) -> Result<(Ctx, Result<(), Fail>), String> {
    let sub = prop.subs.iter().find(|s| s.name == sub).ok_or("no such sub-check")?;
    let mut src = Src::replay(choices);
    run_case_safe(sub, &mut src)
}

fn known_findings(verif: &str) -> Vec<(String, String, String)> {
    // lines: KNOWN-FINDING: property=<id> sub=<sub> sig=<sig> :: <what fails>
    let text = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", verif)).unwrap_or_default();
    let mut v = Vec::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("KNOWN-FINDING: property=") {
            if let Some((head, what)) = rest.split_once(" :: ") {
                if let Some((id, sig)) = head.split_once(" sig=") {
                    v.push((id.to_string(), sig.to_string(), what.to_string()));
                }
            }
        }
    }
    v
}

pub fn check(prop: &Prop, o: &Opts, verif: &str) -> i32 {
    let t0 = Instant::now();
    let shards = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16);
    let dir = format!("{}/harness/run/{}-{}", verif, prop.id, std::process::id());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("run directory");
    let exe = std::env::current_exe().expect("exe");
    let mut kids = Vec::new();
    for shard in 0..shards {
        let mut c = std::process::Command::new(&exe);
        c.arg("worker")
            .arg(prop.id)
            .args(["--tier", &o.tier, "--seed", &o.seed.to_string(), "--scale", &o.scale.to_string()])
            .args(["--shard", &shard.to_string(), "--shards", &shards.to_string(), "--dir", &dir]);
        if o.all {
            c.arg("--all");
        }
        if let Some(ref s) = o.only {
            c.args(["--only", s]);
        }
        c.stdout(std::process::Stdio::null());
        c.stderr(std::process::Stdio::piped());
        kids.push((shard, c.spawn().expect("spawn worker")));
    }
    let mut evaluations = 0u64;
    let mut per_sub: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut failures: Vec<Value> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut alloc_permille = 0u64;
    for (shard, mut k) in kids {
        let mut err = String::new();
        if let Some(mut e) = k.stderr.take() {
            let _ = e.read_to_string(&mut err);
        }
        let st = k.wait().expect("wait");
        use std::os::unix::process::ExitStatusExt;
        let code = st.code();
        if code == Some(0) {
            let text = std::fs::read_to_string(format!("{}/w{}.json", dir, shard)).unwrap_or_default();
            let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
            for (name, n) in v["evals"].as_object().into_iter().flatten() {
                evaluations += n.as_u64().unwrap_or(0);
                per_sub.entry(name.clone()).or_default().0 += n.as_u64().unwrap_or(0);
            }
            for (name, n) in v["nontriv"].as_object().into_iter().flatten() {
                per_sub.entry(name.clone()).or_default().1 += n.as_u64().unwrap_or(0);
            }
            for (name, n) in v["labels"].as_object().into_iter().flatten() {
                *labels.entry(name.clone()).or_default() += n.as_u64().unwrap_or(0);
            }
            samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
            failures.extend(v["failures"].as_array().cloned().unwrap_or_default());
            for e in v["errors"].as_array().into_iter().flatten() {
                errors.push(e.as_str().unwrap_or("?").to_string());
            }
            alloc_permille = alloc_permille.max(v["alloc_permille"].as_u64().unwrap_or(0));
            let kb = std::fs::read(format!("{}/w{}.keys", dir, shard)).unwrap_or_default();
            for c in kb.chunks_exact(8) {
                keys.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
            continue;
        }
        // the worker died inside a case
        let (si, case) = Shared::open(&format!("{}/w{}.progress", dir, shard)).map(|s| s.get()).unwrap_or((0, 0));
        let sub = &prop.subs[si as usize];
        let what = match (code, st.signal()) {
            (Some(EXIT_ALLOC), _) => Some("work-budget"),
            (Some(EXIT_RUNAWAY), _) => Some("runaway"),
            (Some(EXIT_HANG), _) => None,
            (_, Some(libc::SIGSEGV)) | (_, Some(libc::SIGABRT)) | (_, Some(libc::SIGBUS)) => Some("crash"),
            _ => None,
        };
        match what {
            Some(w) => {
                let seed = case_seed(o.seed, prop.id, sub.name, case as u64);
                // one of a kind is enough: each takes a while
                if failures.iter().any(|f| f["sub"] == sub.name && f["sig"] == w) {
                    continue;
                }
                let f = shrink_outside(&exe, prop, sub, seed, w, &dir);
                let (choices, input) = f;
                failures.push(json!({
                    "property": prop.id, "sub": sub.name, "case": case, "seed": o.seed, "sig": w,
                    "msg": if w == "work-budget" {
                        "one parse exceeded the allocation budget: runaway work or non-termination"
                    } else if w == "runaway" {
                        "one case took more than 150 s of processor time: non-termination or runaway work"
                    } else { "the process crashed inside the parser (stack overflow or abort)" },
                    "choices": choices, "input": input,
                }));
            }
            None => errors.push(format!(
                "worker {} ended with {:?} in sub-check {} case {} (hang or kill: inconclusive) {}",
                shard, st, sub.name, case, trunc(&err, 500)
            )),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    let known = known_findings(verif);
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    failures.retain(|f| {
        let sig = format!("{}/{}", f["sub"].as_str().unwrap_or(""), f["sig"].as_str().unwrap_or(""));
        for (id, ksig, what) in &known {
            if id == prop.id && *ksig == sig {
                *known_hit.entry(what.clone()).or_default() += 1;
                return false;
            }
        }
        true
    });
    for (id, _, what) in &known {
        if id == prop.id {
            println!("KNOWN-FINDING: property={} {}", id, what);
        }
    }
    failures.sort_by_key(|f| {
        let si = prop.subs.iter().position(|s| Some(s.name) == f["sub"].as_str()).unwrap_or(99) as u64;
        (si, f["case"].as_u64().unwrap_or(0))
    });
    let mut replay_paths = Vec::new();
    if !failures.is_empty() {
        let rdir = format!("{}/replay", verif);
        let _ = std::fs::create_dir_all(&rdir);
        let mut done = HashSet::new();
        for f in &failures {
            let key = format!("{}/{}", f["sub"].as_str().unwrap_or(""), f["sig"].as_str().unwrap_or(""));
            if !done.insert(key) {
                continue;
            }
            let p = format!("{}/{}-{}-{}.json", rdir, prop.id, f["sub"].as_str().unwrap_or("x"), replay_paths.len());
            let _ = std::fs::write(&p, serde_json::to_string_pretty(f).unwrap());
            println!("FAILURE sub={} sig={} case={}", f["sub"].as_str().unwrap_or(""), f["sig"].as_str().unwrap_or(""), f["case"]);
            println!("  {}", f["msg"].as_str().unwrap_or("").replace('\n', "\n  "));
            println!("  input: {}", trunc(f["input"].as_str().unwrap_or(""), 1500).replace('\n', "\n  "));
            println!("VIOLATION property={} replay={}", prop.id, p);
            replay_paths.push(p);
            if !o.all && replay_paths.len() >= 3 {
                break;
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<Value> = samples.into_iter().take(24).collect();
    let ev = json!({
        "property": prop.id,
        "tier": if o.tier == "thorough" { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": keys.len(),
            "rule": prop.rule,
            "samples": samples,
            "per_subcheck": per_sub.iter().map(|(k, (e, n))| (k.clone(), json!({"evaluations": e, "nontrivial": n}))).collect::<BTreeMap<_, _>>(),
            "labels": labels,
            "max_share_of_work_budget_permille": alloc_permille,
            "known_findings_hit": known_hit,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": replay_paths.len(),
    });
    let edir = format!("{}/evidence", verif);
    let _ = std::fs::create_dir_all(&edir);
    let mut f = std::fs::File::create(format!("{}/{}.json", edir, prop.id)).expect("evidence file");
    f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).expect("evidence");
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s",
        prop.id, o.tier, evaluations, keys.len(), replay_paths.len(), wall
    );
    if !replay_paths.is_empty() {
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            println!("ERROR {}", e);
        }
        return 2;
    }
    0
}

/// Shrinks a case that kills its process, evaluating candidates in children.
fn shrink_outside(exe: &std::path::Path, prop: &Prop, sub: &Sub, seed: u64, what: &str, dir: &str) -> (Vec<u32>, String) {
    let run = |args: &[&str]| -> (bool, Vec<u32>, String) {
        let out = format!("{}/outside.json", dir);
        let _ = std::fs::remove_file(&out);
        let st = std::process::Command::new(exe)
            .arg("eval")
            .arg(prop.id)
            .arg(sub.name)
            .args(args)
            .args(["--trace", &out])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        use std::os::unix::process::ExitStatusExt;
        let died = match st {
            Ok(s) => match what {
                "work-budget" => s.code() == Some(EXIT_ALLOC),
                _ => s.signal().is_some(),
            },
            Err(_) => false,
        };
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&out).unwrap_or_default()).unwrap_or(Value::Null);
        let ch = v["choices"].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(0) as u32).collect();
        (died, ch, v["input"].as_str().unwrap_or("").to_string())
    };
    if what == "runaway" {
        // it would not end: the trace tells the choices
        let out = format!("{}/outside.json", dir);
        let _ = std::fs::remove_file(&out);
        if let Ok(mut k) = std::process::Command::new(exe)
            .args(["eval", prop.id, sub.name, "--case-seed", &seed.to_string(), "--trace", &out])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
        {
            std::thread::sleep(std::time::Duration::from_secs(10));
            let _ = k.kill();
            let _ = k.wait();
        }
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&out).unwrap_or_default()).unwrap_or(Value::Null);
        let ch = v["choices"].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(0) as u32).collect();
        return (ch, v["input"].as_str().unwrap_or("").to_string());
    }
    let (_, start, mut input) = run(&["--case-seed", &seed.to_string()]);
    let until = Instant::now() + std::time::Duration::from_secs(90);
    let small = shrink(start, 250, |c| {
        if Instant::now() > until {
            return None;
        }
        let s = c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let (died, used, inp) = run(&["--choices", &s]);
        if died {
            input = inp;
            Some(if used.is_empty() { c.to_vec() } else { used })
        } else {
            None
        }
    });
    (small, input)
}
