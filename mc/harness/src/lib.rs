//! Enumerates cases deterministically, spreads them over worker processes, survives crashes and
//! hangs of the code under test, and writes the evidence.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{exit, Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

#[derive(Default)]
pub struct Rec {
    pub states: Vec<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    shm: usize,
}

impl Rec {
    /// A state of the model (or configuration of the implementation) that was visited.
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
        if self.states.len() > 1 << 22 {
            self.states.sort_unstable();
            self.states.dedup();
        }
    }
    /// Implementation steps that were executed and compared with the model.
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Complete traces replayed on the implementation (a case counts as one by default).
    pub fn trace(&mut self, n: u64) {
        self.traces += n;
    }
    pub fn outcome(&mut self, o: &str) {
        if let Some(v) = self.outcomes.get_mut(o) {
            *v += 1;
        } else {
            self.outcomes.insert(o.to_string(), 1);
        }
    }
    /// Long cases call this to show that they are making progress.
    pub fn heartbeat(&self) {
        if self.shm != 0 {
            unsafe {
                let p = self.shm as *mut u64;
                p.add(1).write_volatile(p.add(1).read_volatile().wrapping_add(1));
            }
        }
    }
}

pub struct Ctx {
    pub tier: String,
    pub seed: u64,
    shard: u64,
    shards: u64,
    idx: u64,
    only: Option<String>,
    pub filter: Option<String>,
    shm: usize,
    states: HashSet<u64>,
    transitions: u64,
    traces: u64,
    cases: u64,
    outcomes: BTreeMap<String, u64>,
    violations: Vec<(String, String)>,
    samples: Vec<String>,
    pub extra: BTreeMap<String, u64>,
    matched: bool,
    /// MC_STOP: the first violation ends the run (used when many changed libraries are tried)
    stop: bool,
}

const SHM_LEN: usize = 4096;
const KEY_MAX: usize = 3000;

pub fn hash64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    // FNV-style, stable between processes
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 33;
            x = x.wrapping_mul(0xff51afd7ed558ccd);
            x ^= x >> 33;
            x
        }
        fn write(&mut self, b: &[u8]) {
            for &c in b {
                self.0 = (self.0 ^ c as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = H(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs `f`, turning a panic into Err.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    quiet(|| {
        let _ = f();
    })
    .is_err()
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn shard(&self) -> (u64, u64) {
        (self.shard, self.shards)
    }
    /// One case: `key` names it uniquely; `f` returns Err(description) on a violation.
    pub fn case(
        &mut self,
        key: impl FnOnce() -> String,
        f: impl FnOnce(&mut Rec) -> Result<(), String>,
    ) {
        let i = self.idx;
        self.idx += 1;
        if self.only.is_none() && i % self.shards != self.shard {
            return;
        }
        if self.violations.len() >= 20 {
            return;
        }
        let key = key();
        if let Some(o) = &self.only {
            if *o != key {
                return;
            }
        }
        if let Some(o) = &self.filter {
            if !key.contains(o.as_str()) {
                return;
            }
        }
        self.matched = true;
        if self.shm != 0 {
            unsafe {
                let p = self.shm as *mut u8;
                let kb = key.as_bytes();
                let n = kb.len().min(KEY_MAX);
                std::ptr::copy_nonoverlapping(kb.as_ptr(), p.add(64), n);
                (p as *mut u64).add(2).write_volatile(n as u64);
                (p as *mut u64).write_volatile(i + 1);
            }
        }
        let mut rec = Rec { shm: self.shm, ..Default::default() };
        let r = match catch_unwind(AssertUnwindSafe(|| f(&mut rec))) {
            Ok(r) => r,
            Err(e) => Err(format!("unexpected panic: {}", panic_text(e))),
        };
        self.cases += 1;
        self.traces += if rec.traces == 0 { 1 } else { rec.traces };
        self.transitions += rec.transitions;
        if rec.states.is_empty() {
            self.states.insert(hash64(&key));
        } else {
            self.states.extend(rec.states.iter());
        }
        for (k, v) in rec.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
        if self.samples.len() < 3 && (self.cases - 1) % 37 == self.samples.len() as u64 * 5 {
            self.samples.push(key.chars().take(400).collect());
        }
        if let Err(m) = r {
            if std::env::var("MC_VERBOSE").is_ok() {
                eprintln!("VIOLATED {}: {}", key, m);
            }
            if self.stop {
                unsafe { libc::_exit(99) }
            }
            self.violations.push((key, m));
        }
    }
}

fn shm_create(path: &str) -> usize {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .open(path)
        .expect("shm file");
    f.set_len(SHM_LEN as u64).unwrap();
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SHM_LEN,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as usize
    }
}

fn worker(spec: &Spec, f: fn(&mut Ctx), tier: String, seed: u64) {
    let shard: u64 = std::env::var("MC_SHARD").unwrap().parse().unwrap();
    let shards: u64 = std::env::var("MC_SHARDS").unwrap().parse().unwrap();
    let out = std::env::var("MC_OUT").unwrap();
    let only = std::env::var("VERIF_CASE").ok().filter(|s| !s.is_empty());
    if std::env::var("MC_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut ctx = Ctx {
        tier,
        seed,
        shard,
        shards,
        idx: 0,
        only,
        filter: std::env::var("MC_FILTER").ok(),
        shm: shm_create(&format!("{}.shm", out)),
        states: HashSet::new(),
        transitions: 0,
        traces: 0,
        cases: 0,
        outcomes: BTreeMap::new(),
        violations: vec![],
        samples: vec![],
        extra: BTreeMap::new(),
        matched: false,
        stop: std::env::var("MC_STOP").is_ok(),
    };
    let _ = spec;
    f(&mut ctx);
    let v = json!({
        "transitions": ctx.transitions, "traces": ctx.traces, "cases": ctx.cases,
        "outcomes": ctx.outcomes, "samples": ctx.samples, "extra": ctx.extra,
        "violations": ctx.violations,
    });
    let mut bytes: Vec<u8> = Vec::with_capacity(ctx.states.len() * 8);
    for s in &ctx.states {
        bytes.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(format!("{}.states", out), bytes).unwrap();
    std::fs::write(&out, serde_json::to_vec(&v).unwrap()).unwrap();
    // Leave without running destructors of leaked devices.
    unsafe { libc::_exit(0) }
}

fn verif_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn run(spec: Spec, f: fn(&mut Ctx)) {
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { tier } else { "quick".to_string() };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if std::env::var("MC_SHARD").is_ok() {
        worker(&spec, f, tier, seed);
        return;
    }
    let t0 = Instant::now();
    let replaying = std::env::var("VERIF_CASE").map(|s| !s.is_empty()).unwrap_or(false);
    let shards: u64 = if replaying {
        1
    } else {
        std::env::var("MC_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
    };
    let hang: u64 = std::env::var("MC_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
    let stop = std::env::var("MC_STOP").is_ok();
    let dir = verif_dir();
    let scratch = dir.join("scratch").join(format!("{}.{}", spec.id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let exe = std::env::current_exe().unwrap();
    struct W {
        child: Child,
        out: String,
        shm: usize,
        last: (u64, u64),
        at: Instant,
        done: bool,
        alt: bool,
    }
    // a second build of the same check (without debug assertions) covers the same cases again
    let alt = std::env::var("MC_ALT_EXE").ok().filter(|s| !s.is_empty());
    let builds = if alt.is_some() { 2 } else { 1 };
    let mut ws: Vec<W> = (0..shards * builds)
        .map(|i| {
            let exe = if i < shards { exe.clone() } else { alt.clone().unwrap().into() };
            let out = scratch.join(format!("w{}", i)).to_string_lossy().to_string();
            let shm = shm_create(&format!("{}.shm", out));
            let err: Stdio = if std::env::var("MC_VERBOSE").is_ok() {
                Stdio::inherit()
            } else {
                std::fs::File::create(format!("{}.err", out)).unwrap().into()
            };
            let child = Command::new(&exe)
                .env("MC_SHARD", (i % shards).to_string())
                .env("MC_SHARDS", shards.to_string())
                .env("MC_OUT", &out)
                .stdout(Stdio::null())
                .stderr(err)
                .spawn()
                .unwrap();
            W { child, out, shm, last: (0, 0), at: Instant::now(), done: false, alt: i >= shards }
        })
        .collect();
    let read_key = |shm: usize| -> String {
        unsafe {
            let p = shm as *const u8;
            let n = ((p as *const u64).add(2).read_volatile() as usize).min(KEY_MAX);
            String::from_utf8_lossy(std::slice::from_raw_parts(p.add(64), n)).to_string()
        }
    };
    let mut viol: Vec<(String, String)> = vec![];
    let mut broken: Vec<String> = vec![];
    let mut states: HashSet<u64> = HashSet::new();
    let (mut transitions, mut traces, mut cases) = (0u64, 0u64, 0u64);
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut extra: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    loop {
        let mut alive = false;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            match w.child.try_wait().unwrap() {
                Some(st) => {
                    w.done = true;
                    use std::os::unix::process::ExitStatusExt;
                    if st.success() && std::path::Path::new(&w.out).exists() {
                        let v: Value =
                            serde_json::from_slice(&std::fs::read(&w.out).unwrap()).unwrap();
                        transitions += v["transitions"].as_u64().unwrap();
                        traces += v["traces"].as_u64().unwrap();
                        cases += v["cases"].as_u64().unwrap();
                        for (k, n) in v["outcomes"].as_object().unwrap() {
                            *outcomes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
                        }
                        for (k, n) in v["extra"].as_object().unwrap() {
                            *extra.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
                        }
                        for s in v["samples"].as_array().unwrap() {
                            if samples.len() < 8 {
                                samples.push(s.clone());
                            }
                        }
                        for x in v["violations"].as_array().unwrap() {
                            viol.push((
                                x[0].as_str().unwrap().to_string(),
                                format!("{}{}", if w.alt { "without debug assertions: " } else { "" }, x[1].as_str().unwrap()),
                            ));
                        }
                        let mut b = vec![];
                        std::fs::File::open(format!("{}.states", w.out))
                            .unwrap()
                            .read_to_end(&mut b)
                            .unwrap();
                        for c in b.chunks_exact(8) {
                            states.insert(u64::from_le_bytes(c.try_into().unwrap()));
                        }
                    } else if let Some(sig) = st.signal() {
                        let started =
                            unsafe { (w.shm as *const u64).read_volatile() } != 0;
                        if sig == libc::SIGKILL || !started {
                            broken.push(format!("worker ended by signal {}", sig));
                        } else {
                            viol.push((
                                read_key(w.shm),
                                format!("the process died with signal {} (memory error, abort or double release)", sig),
                            ));
                        }
                    } else if st.code() == Some(99) {
                        viol.push((read_key(w.shm), "first violation".to_string()));
                    } else {
                        let e = std::fs::read_to_string(format!("{}.err", w.out))
                            .unwrap_or_default();
                        broken.push(format!("worker failed: {} {}", st, e));
                    }
                }
                None => {
                    alive = true;
                    let cur = unsafe {
                        let p = w.shm as *const u64;
                        (p.read_volatile(), p.add(1).read_volatile())
                    };
                    if cur != w.last {
                        w.last = cur;
                        w.at = Instant::now();
                    } else if w.at.elapsed() > Duration::from_secs(hang) && cur.0 != 0 {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        viol.push((
                            read_key(w.shm),
                            format!("no progress for {} s (hang)", hang),
                        ));
                    }
                }
            }
        }
        if stop && !viol.is_empty() {
            for w in ws.iter_mut().filter(|w| !w.done) {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            break;
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let _ = std::fs::remove_dir_all(&scratch);
    // known findings
    let known: Vec<String> = std::fs::read_to_string(dir.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter(|l| l.starts_with(&format!("known: property={} ", spec.id)))
        .map(|l| l.to_string())
        .collect();
    let mut listed = vec![];
    viol.retain(|(k, _)| {
        for l in &known {
            if l.contains(&format!("case=[{}]", k)) {
                listed.push(l.clone());
                return false;
            }
        }
        true
    });
    listed.sort();
    listed.dedup();
    for l in &listed {
        println!("KNOWN-FINDING: {}", l.trim_start_matches("known: "));
    }
    let wall = t0.elapsed().as_secs_f64();
    if !replaying {
        let coverage = if spec.level == "model_checking" {
            json!({
                "states": states.len(), "transitions": transitions,
                "traces_validated_against_impl": traces, "cases": cases,
                "rule": spec.rule, "outcomes": outcomes, "counters": extra,
                "samples": samples, "exhaustive": broken.is_empty() && viol.is_empty(),
            })
        } else {
            json!({
                "evaluations": traces, "distinct_nontrivial": states.len(),
                "calls_compared": transitions,
                "rule": spec.rule, "outcomes": outcomes, "counters": extra,
                "samples": samples, "exhaustive": broken.is_empty() && viol.is_empty(),
            })
        };
        let ev = json!({
            "property": spec.id, "tier": tier, "seed": seed, "level": spec.level,
            "coverage": coverage, "assumptions": spec.assumptions,
            "wall_s": wall, "violations": viol.len(),
        });
        std::fs::create_dir_all(dir.join("evidence")).unwrap();
        std::fs::write(
            dir.join("evidence").join(format!("{}.json", spec.id)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .unwrap();
    }
    println!(
        "{} {}: cases={} traces={} states={} transitions={} outcomes={:?} wall={:.1}s",
        spec.id, tier, cases, traces, states.len(), transitions, outcomes, wall
    );
    if !viol.is_empty() {
        viol.sort_by_key(|(k, _)| (k.len(), k.clone()));
        let rdir = dir.join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        let mut first = true;
        for (k, m) in viol.iter().take(5) {
            let p = rdir.join(format!("{}-{:016x}.json", spec.id, hash64(k)));
            std::fs::write(
                &p,
                serde_json::to_string_pretty(&json!({
                    "property": spec.id, "tier": tier, "case": k, "what": m,
                    "replay": format!("VERIF_TIER={} VERIF_CASE='{}' /verif/run.sh {}", tier, k, spec.id),
                }))
                .unwrap(),
            )
            .unwrap();
            println!("  case {}: {}", k, m);
            if first {
                println!("VIOLATION property={} replay={}", spec.id, p.display());
                first = false;
            }
        }
        exit(1);
    }
    if !broken.is_empty() {
        for b in &broken {
            eprintln!("{}", b);
        }
        exit(2);
    }
    if cases == 0 {
        eprintln!("no case was run");
        exit(2);
    }
    exit(0);
}
