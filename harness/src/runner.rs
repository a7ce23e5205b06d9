//! Runs a property's cases in a worker process with many threads, watches for crashes and
//! non-termination, writes the evidence file and reports violations with a replay file.
use crate::{
    gen::Rn,
    sess::{Fail, Res},
};
use parking_lot::Mutex;
use rand::SeedableRng;
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    io::{BufRead, BufReader, Write},
    os::unix::process::ExitStatusExt,
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Arc,
    },
    time::{Duration, Instant},
};

/// what a case hands back to the runner
pub struct Case {
    pub rng: Rn,
    pub index: u64,
    pub thorough: bool,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub prints: HashSet<u64>,
    pub desc: String,
    pub nontrivial: bool,
    pub known: Vec<String>,
}
impl Case {
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.into()).or_default() += n;
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.maxima.entry(name.into()).or_default();
        *e = (*e).max(n);
    }
    /// a state / shape / interleaving that was observed
    pub fn saw(&mut self, what: impl std::hash::Hash) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        what.hash(&mut h);
        self.prints.insert(h.finish());
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    /// seconds of exploration in the quick / thorough tier
    pub quick_s: u64,
    pub thorough_s: u64,
    /// cases that are always run (quick / thorough)
    pub min_cases: u64,
    /// stop after this many cases
    pub max_cases: u64,
    /// counters that must have reached a value for the verdict "held"
    pub require: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
    pub threads: usize,
    pub stack_mb: usize,
    pub case: fn(&mut Case) -> Res,
}
impl Prop {
    pub fn new(id: &'static str, rule: &'static str, case: fn(&mut Case) -> Res) -> Prop {
        Prop {
            id,
            level: "exploration",
            rule,
            quick_s: 30,
            thorough_s: 420,
            min_cases: 300,
            max_cases: u64::MAX,
            require: &[],
            assumptions: &[],
            threads: 8,
            stack_mb: 64,
            case,
        }
    }
}
fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}
fn case_rng(seed: u64, id: &str, index: u64) -> Rn {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    h.update(seed.to_le_bytes());
    h.update(id.as_bytes());
    h.update(index.to_le_bytes());
    Rn::from_seed(h.finalize().into())
}
/// a phase of a check is not required to observe everything
fn needed(n: u64) -> u64 {
    match std::env::var("BMON_PHASE").as_deref() {
        Err(_) => n,
        Ok("tsan") => n.min(10),
        Ok(_) => n / 20,
    }
}
fn required(n: u64) -> u64 {
    if std::env::var("BMON_PHASE").as_deref() == Ok("tsan") { 0 } else { needed(n) }
}
fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
pub fn scratch() -> std::path::PathBuf {
    let p = std::path::PathBuf::from(
        std::env::var("BMON_SCRATCH").unwrap_or_else(|_| "/tmp/bmon-scratch".into()),
    );
    std::fs::create_dir_all(&p).expect("scratch dir");
    p
}

pub fn main(p: Prop) {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|x| x.as_str()) {
        Some("--worker") => worker(&p, None),
        Some("--replay") => {
            let f = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: Value = serde_json::from_str(&f).expect("replay file");
            let idx = v["cases"][0].as_u64().expect("case");
            std::env::set_var("VERIF_SEED", v["seed"].to_string());
            std::env::set_var("VERIF_TIER", v["tier"].as_str().unwrap_or("quick"));
            worker(&p, Some(idx))
        }
        Some("--case") => worker(&p, Some(args[2].parse().expect("case"))),
        _ => parent(&p),
    }
}

thread_local!(static LAST_PANIC: std::cell::RefCell<String> = Default::default());
fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|x| x.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m = format!("panic at {at}: {msg}");
        FOREIGN.lock().push(m.clone());
        LAST_PANIC.with(|l| *l.borrow_mut() = m);
    }));
}
/// panics on any thread (also those of thread pools)
static FOREIGN: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// all panics seen so far in this process
pub fn panics() -> Vec<String> {
    FOREIGN.lock().clone()
}
/// run `f`, turning a panic into a failure
pub fn guarded<T>(f: impl FnOnce() -> Res<T>) -> Res<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(Fail(LAST_PANIC.with(|l| l.borrow().clone()))),
    }
}

fn say(v: Value) {
    let mut line = v.to_string();
    line.push('\n');
    let out = std::io::stdout();
    let mut o = out.lock();
    let _ = o.write_all(line.as_bytes());
    let _ = o.flush();
}
struct Slot {
    /// case index + 1, 0 = idle
    case: AtomicU64,
    /// nanoseconds of cpu time of the thread when the case started
    cpu0: AtomicU64,
    pthread: AtomicU64,
}
fn thread_cpu(pthread: u64) -> Option<u64> {
    unsafe {
        let mut clk: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(pthread as libc::pthread_t, &mut clk) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64)
    }
}
fn process_cpu() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

fn worker(p: &Prop, only: Option<u64>) {
    hook();
    unsafe {
        // no core dumps
        let r = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
    }
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false);
    let secs = env_u64("BMON_SECS", if thorough { p.thorough_s } else { p.quick_s });
    let threads = if only.is_some() { 1 } else { p.threads };
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let t0 = Instant::now();
    // what must have been observed; exploration goes on (for a while) until it was
    let reqs: Vec<AtomicU64> = p.require.iter().map(|_| 0.into()).collect();
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot {
            case: 0.into(),
            cpu0: 0.into(),
            pthread: 0.into(),
        })
        .collect();
    std::thread::scope(|sc| {
        let mut handles = vec![];
        for slot in &slots {
            let (next, stop, reqs) = (&next, &stop, &reqs);
            let h = std::thread::Builder::new()
                .stack_size(p.stack_mb << 20)
                .spawn_scoped(sc, move || {
                    let me = unsafe { libc::pthread_self() } as u64;
                    slot.pthread.store(me, SeqCst);
                    let mut acc = Acc::default();
                    let mut last = Instant::now();
                    loop {
                        if stop.load(SeqCst) {
                            break;
                        }
                        let i = match only {
                            Some(i) => {
                                if next.fetch_add(1, SeqCst) > 0 {
                                    break;
                                }
                                i
                            }
                            None => {
                                let i = next.fetch_add(1, SeqCst);
                                if i >= p.max_cases
                                    || (i >= needed(p.min_cases)
                                        && t0.elapsed().as_secs() >= secs
                                        && (t0.elapsed().as_secs() >= 5 * secs
                                            || p.require
                                                .iter()
                                                .zip(reqs)
                                                .all(|(r, n)| n.load(SeqCst) >= required(r.1))))
                                {
                                    break;
                                }
                                i
                            }
                        };
                        slot.cpu0.store(thread_cpu(me).unwrap_or(0), SeqCst);
                        slot.case.store(i + 1, SeqCst);
                        say(json!({"s": i}));
                        let mut c = Case {
                            rng: case_rng(seed, p.id, i),
                            index: i,
                            thorough,
                            counters: Default::default(),
                            maxima: Default::default(),
                            prints: Default::default(),
                            desc: String::new(),
                            nontrivial: false,
                            known: vec![],
                        };
                        let r = guarded(|| (p.case)(&mut c));
                        slot.case.store(0, SeqCst);
                        let used = thread_cpu(me).unwrap_or(0).saturating_sub(slot.cpu0.load(SeqCst));
                        c.max("case_cpu_ms", used / 1_000_000);
                        if used > 2_000_000_000 && std::env::var("BMON_SLOW").is_ok() {
                            eprintln!("slow case {i}: {} ms {}", used / 1_000_000, c.desc);
                        }
                        if let Err(Fail(msg)) = r {
                            stop.store(true, SeqCst);
                            let msg: String = msg.chars().take(3000).collect();
                            say(json!({"v": i, "msg": msg, "desc": c.desc}));
                            break;
                        }
                        for k in c.known.drain(..) {
                            say(json!({ "k": k }));
                        }
                        for (r, n) in p.require.iter().zip(reqs) {
                            n.fetch_add(c.counters.get(r.0).copied().unwrap_or(0), SeqCst);
                        }
                        acc.add(&mut c);
                        if last.elapsed() > Duration::from_millis(300) {
                            acc.flush();
                            last = Instant::now();
                        }
                        say(json!({"e": i}));
                    }
                    acc.flush();
                })
                .expect("thread");
            handles.push(h);
        }
        // the monitor for non-termination: cpu time per case, and deadlock
        let (slots, done) = (&slots, &done);
        let monitor = sc.spawn(move || {
            let mut idle = 0;
            let mut cpu = process_cpu();
            let mut ticks = 0u64;
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                ticks += 1;
                if ticks % 20 != 0 {
                    continue;
                }
                let now = process_cpu();
                let busy = slots.iter().any(|s| s.case.load(SeqCst) != 0);
                // the monitor itself needs far less than 3 ms per second
                if busy && now - cpu < 3_000_000 {
                    idle += 1
                } else {
                    idle = 0
                }
                cpu = now;
                for s in slots.iter() {
                    let c = s.case.load(SeqCst);
                    if c == 0 {
                        continue;
                    }
                    let used = thread_cpu(s.pthread.load(SeqCst))
                        .unwrap_or(0)
                        .saturating_sub(s.cpu0.load(SeqCst));
                    let limit = env_u64("BMON_CASE_CPU_S", 150);
                    if s.case.load(SeqCst) == c && used > limit * 1_000_000_000 {
                        say(json!({"v": c - 1, "msg": format!("no termination: the case used {limit} s of cpu time"), "desc": ""}));
                        std::process::exit(1);
                    }
                    if idle >= 60 {
                        say(json!({"v": c - 1, "msg": "deadlock: all threads are blocked for 60 s without any progress", "desc": ""}));
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in handles {
            let _ = h.join();
        }
        done.store(true, SeqCst);
        let _ = monitor.join();
    });
    say(json!({"done": true}));
    if only.is_some() && stop.load(SeqCst) {
        std::process::exit(1);
    }
    // do not wait for detached threads
    std::process::exit(0);
}
#[derive(Default)]
struct Acc {
    cases: u64,
    nontrivial: u64,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    prints: HashSet<u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
}
impl Acc {
    fn add(&mut self, c: &mut Case) {
        self.cases += 1;
        self.nontrivial += c.nontrivial as u64;
        for (k, v) in &c.counters {
            *self.counters.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &c.maxima {
            let e = self.maxima.entry(k.clone()).or_default();
            *e = (*e).max(*v);
        }
        if c.nontrivial {
            use std::hash::{Hash, Hasher};
            let mut p: Vec<u64> = c.prints.drain().collect();
            p.sort();
            let mut h = std::collections::hash_map::DefaultHasher::new();
            p.hash(&mut h);
            self.distinct.insert(h.finish());
            self.prints.extend(p);
        }
        if c.nontrivial && self.samples.is_empty() && !c.desc.is_empty() {
            self.samples
                .push(format!("case {}: {}", c.index, c.desc.chars().take(700).collect::<String>()));
        }
    }
    fn flush(&mut self) {
        let prints: Vec<u64> = self.prints.drain().collect();
        let distinct: Vec<u64> = self.distinct.drain().collect();
        say(
            json!({"a": {"cases": self.cases, "nontrivial": self.nontrivial, "counters": self.counters, "maxima": self.maxima, "prints": prints, "distinct": distinct, "samples": self.samples}}),
        );
        self.cases = 0;
        self.nontrivial = 0;
        self.counters.clear();
        self.samples.clear();
    }
}

const MEMORY_LIMIT_MB: u64 = 12_000;
fn resident_mb(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/statm")).unwrap_or_default();
    let pages = s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    pages * 4096 / (1 << 20)
}

fn parent(p: &Prop) {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = if std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false) {
        "thorough"
    } else {
        "quick"
    };
    let exe = std::env::current_exe().expect("exe");
    let base = std::path::PathBuf::from(format!("/tmp/bmon-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&base).expect("scratch");
    let mut child = Command::new(exe)
        .arg("--worker")
        .env("BMON_SCRATCH", &base)
        .stdout(Stdio::piped())
        .stdin(Stdio::null())
        .spawn()
        .expect("spawn worker");
    let pid = child.id();
    let finished = Arc::new(AtomicBool::new(false));
    let timed_out = Arc::new(AtomicBool::new(false));
    let ate_memory = Arc::new(AtomicBool::new(false));
    let peak_mb = Arc::new(AtomicU64::new(0));
    {
        // generous wall clock watchdog: inconclusive when it fires
        // memory monitor: correct code stays below 2 GB, so code that makes the worker
        // grow to MEMORY_LIMIT_MB allocates without bound
        let (finished, timed_out) = (finished.clone(), timed_out.clone());
        let (ate_memory, peak_mb) = (ate_memory.clone(), peak_mb.clone());
        let limit = env_u64("BMON_WALL", if tier == "quick" { 600 } else { p.thorough_s + 3600 });
        std::thread::spawn(move || {
            let t = Instant::now();
            while !finished.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                let mb = resident_mb(pid);
                peak_mb.fetch_max(mb, SeqCst);
                if mb > MEMORY_LIMIT_MB && !finished.load(SeqCst) {
                    ate_memory.store(true, SeqCst);
                    unsafe {
                        libc::kill(pid as i32, libc::SIGKILL);
                    }
                    break;
                }
                if t.elapsed().as_secs() > limit {
                    timed_out.store(true, SeqCst);
                    unsafe {
                        libc::kill(pid as i32, libc::SIGKILL);
                    }
                    break;
                }
            }
        });
    }
    let out = BufReader::new(child.stdout.take().unwrap());
    let mut started: HashSet<u64> = HashSet::new();
    let mut violation: Option<(Vec<u64>, String, String)> = None;
    let (mut cases, mut nontrivial) = (0u64, 0u64);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, u64> = BTreeMap::new();
    let mut prints: HashSet<u64> = HashSet::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut known: Vec<String> = vec![];
    let mut all_done = false;
    for line in out.lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let v: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(_) => {
                // output of the code under test
                continue;
            }
        };
        if let Some(i) = v["s"].as_u64() {
            started.insert(i);
        } else if let Some(i) = v["e"].as_u64() {
            started.remove(&i);
        } else if let Some(i) = v["v"].as_u64() {
            started.remove(&i);
            if violation.is_none() {
                violation = Some((
                    vec![i],
                    v["msg"].as_str().unwrap_or("").into(),
                    v["desc"].as_str().unwrap_or("").into(),
                ));
            }
        } else if let Some(k) = v["k"].as_str() {
            if !known.iter().any(|x| x == k) {
                known.push(k.into());
            }
        } else if v["done"].as_bool() == Some(true) {
            all_done = true;
        } else if let Value::Object(a) = &v["a"] {
            cases += a["cases"].as_u64().unwrap_or(0);
            nontrivial += a["nontrivial"].as_u64().unwrap_or(0);
            for (k, n) in a["counters"].as_object().unwrap() {
                *counters.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
            }
            for (k, n) in a["maxima"].as_object().unwrap() {
                let e = maxima.entry(k.clone()).or_default();
                *e = (*e).max(n.as_u64().unwrap_or(0));
            }
            for x in a["prints"].as_array().unwrap() {
                prints.insert(x.as_u64().unwrap_or(0));
            }
            for x in a["distinct"].as_array().unwrap() {
                distinct.insert(x.as_u64().unwrap_or(0));
            }
            for x in a["samples"].as_array().unwrap() {
                if samples.len() < 6 {
                    samples.push(x.as_str().unwrap_or("").into());
                }
            }
        }
    }
    let status = child.wait().expect("wait");
    finished.store(true, SeqCst);
    let mut inconclusive: Option<String> = None;
    if violation.is_none() && !all_done {
        let sig = status.signal();
        if ate_memory.load(SeqCst) {
            let mut c: Vec<u64> = started.iter().cloned().collect();
            c.sort();
            violation = Some((
                c,
                format!("the process grew to more than {MEMORY_LIMIT_MB} MB while these cases ran (correct code stays below 2000)"),
                String::new(),
            ));
        } else if timed_out.load(SeqCst) {
            inconclusive = Some("wall clock watchdog".into());
        } else if let Some(s) = sig {
            if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&s)
            {
                let mut c: Vec<u64> = started.iter().cloned().collect();
                c.sort();
                violation = Some((
                    c,
                    format!("the process crashed with signal {s} (stack overflow or memory error) while these cases ran"),
                    String::new(),
                ));
            } else {
                inconclusive = Some(format!("worker was ended by signal {s}"));
            }
        } else if std::env::var("BMON_SANITIZER").is_ok() && status.code() == Some(99) {
            let c: Vec<u64> = started.iter().cloned().collect();
            let name = std::env::var("BMON_SANITIZER").unwrap();
            violation = Some((c, format!("{name} reported an error (see stderr)"), String::new()));
        } else {
            inconclusive = Some(format!("worker ended early: {status}"));
        }
    }
    if violation.is_none() && inconclusive.is_none() {
        if cases < needed(p.min_cases.min(p.max_cases)) {
            inconclusive = Some(format!("only {cases} cases were run"));
        }
        for (k, n) in p.require {
            let n = &required(*n);
            let have = counters.get(*k).copied().unwrap_or(0);
            if have < *n {
                inconclusive = Some(format!("only {have} of {k} were observed, {n} are needed"));
            }
        }
    }
    // a finding that is not listed is a violation
    let listed = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    for k in &known {
        if !listed.lines().any(|l| l.trim() == format!("known: property={} {}", p.id, k))
            && violation.is_none()
        {
            violation = Some((vec![0], k.clone(), "not listed in known_findings.txt".into()));
        }
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    maxima.insert("peak_resident_mb".into(), peak_mb.load(SeqCst));
    let mut coverage = serde_json::Map::new();
    coverage.insert("evaluations".into(), cases.into());
    coverage.insert("distinct_nontrivial".into(), (distinct.len() as u64).into());
    coverage.insert("distinct_states_seen".into(), (prints.len() as u64).into());
    coverage.insert("rule".into(), p.rule.into());
    coverage.insert("samples".into(), samples.clone().into());
    coverage.insert("nontrivial_cases".into(), nontrivial.into());
    coverage.insert("observed".into(), json!(counters));
    coverage.insert("largest".into(), json!(maxima));
    let phase = std::env::var("BMON_PHASE").unwrap_or_default();
    // what another phase of the same check has observed
    if let Ok(f) = std::env::var("BMON_MERGE") {
        match std::fs::read_to_string(&f).ok().and_then(|f| serde_json::from_str::<Value>(&f).ok()) {
            Some(v) => {
                coverage.insert("sanitizer_phase".into(), json!({"file": f, "evaluations": v["coverage"]["evaluations"],
                    "observed": v["coverage"]["observed"], "wall_s": v["wall_s"]}));
            }
            None if std::env::var("BMON_MERGE_OPTIONAL").is_ok() => {
                coverage.insert("sanitizer_phase".into(), "the sanitizer build did not run here".into());
            }
            None => inconclusive = Some(format!("no evidence of the other phase in {f}")),
        }
    }
    let evidence = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": p.level,
        "coverage": coverage, "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u64,
        "known_findings": known,
        "inconclusive": inconclusive,
    });
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    let name = if phase.is_empty() {
        format!("{dir}/{}.json", p.id)
    } else {
        std::env::var("BMON_EVIDENCE").expect("BMON_EVIDENCE")
    };
    if let Err(e) = std::fs::write(&name, serde_json::to_string_pretty(&evidence).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2);
    }
    let _ = std::fs::remove_dir_all(&base);
    if let Some((cases, msg, desc)) = violation {
        let dir = format!("{}/replays", verif());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}.json", p.id, seed, cases.first().copied().unwrap_or(0));
        let r = json!({"property": p.id, "seed": seed, "tier": tier, "cases": cases, "message": msg, "case": desc,
            "replay": format!("./run.sh {} --replay {path}", p.id)});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
        eprintln!("{}: {msg}\n  {desc}", p.id);
        println!("VIOLATION property={} replay={}", p.id, path);
        std::process::exit(1);
    }
    if let Some(why) = inconclusive {
        eprintln!("{}: INCONCLUSIVE: {why}", p.id);
        std::process::exit(2);
    }
    println!(
        "{}: held on {cases} cases ({nontrivial} non-trivial, {} distinct), {:.1} s; observed {}",
        p.id,
        distinct.len(),
        t0.elapsed().as_secs_f64(),
        json!(counters)
    );
    std::process::exit(0);
}
