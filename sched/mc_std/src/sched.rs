//! Controlled threads run one at a time. Before every lock, atomic access or declared access a
//! thread stops, and the scheduler picks who goes on: first as the given prefix says, then always
//! the same thread as long as it can. `explore` runs a program under every schedule with at most
//! `bound` preemptions. Preempting a thread in front of an access that no other thread conflicts
//! with in that execution changes nothing and is left out.
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Condvar, Mutex, MutexGuard};

pub const MAX: usize = 4;
/// consecutive points of one thread after which the others get a turn
const LONG: u32 = 3000;
/// points after which an execution is called a livelock
const ENDLESS: usize = 400_000;

pub type Clock = [u32; MAX];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Block {
    No,
    Excl(u64),
    Shared(u64),
    Cond(u64),
    Yield,
}

struct Th {
    block: Block,
    acc: Vec<(u64, bool)>,
    done: bool,
    clock: Clock,
    steps: u32,
    what: &'static str,
}

#[derive(Default, Clone, Copy)]
struct LockState {
    writer: Option<usize>,
    readers: u32,
}

#[derive(Clone)]
struct Frame {
    /// candidates, the default first
    choices: Vec<u8>,
    chosen: u8,
    /// leaving the default costs a preemption
    costly: bool,
    /// what the thread that stopped was about to access
    acc: Vec<(u64, bool)>,
}

#[derive(Default)]
struct Access {
    w: Option<(usize, u32)>,
    r: Clock,
}

struct Exec {
    /// threads of an earlier execution that got stuck must not take part
    epoch: u64,
    cur: usize,
    ths: Vec<Th>,
    locks: HashMap<u64, LockState>,
    clocks: HashMap<u64, Clock>,
    data: HashMap<u64, Access>,
    prefix: Vec<u8>,
    frames: Vec<Frame>,
    /// (object, thread, write)
    touched: HashMap<u64, (u8, u8)>,
    states: HashSet<u64>,
    run_len: u32,
    problem: Option<String>,
    live: usize,
    /// also stop in front of releasing a lock
    tries: bool,
    notified: HashSet<usize>,
    waiting: Vec<(u64, usize)>,
    panics: Vec<Option<String>>,
    trail: Vec<(u8, &'static str)>,
}

/// The program has tried a lock: then it matters how long others hold theirs.
static TRIED: AtomicBool = AtomicBool::new(false);
static EX: Mutex<Option<Exec>> = Mutex::new(None);
static CVS: [Condvar; MAX] = [const { Condvar::new() }; MAX];
static MAIN: Condvar = Condvar::new();

thread_local! {
    static ME: Cell<Option<usize>> = const { Cell::new(None) };
    static EPOCH: Cell<u64> = const { Cell::new(0) };
}

fn ex() -> MutexGuard<'static, Option<Exec>> {
    EX.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn controlled() -> bool {
    ME.with(|m| m.get().is_some())
}

/// index of the controlled thread
pub fn me() -> Option<usize> {
    ME.with(|m| m.get())
}

fn mix(mut h: u64, x: u64) -> u64 {
    h ^= x.wrapping_add(0x9e3779b97f4a7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h.wrapping_mul(0xff51afd7ed558ccd)
}

impl Exec {
    fn can(&self, t: usize) -> bool {
        let th = &self.ths[t];
        if th.done {
            return false;
        }
        let l = |o: &u64| self.locks.get(o).copied().unwrap_or_default();
        match th.block {
            Block::No | Block::Yield => true,
            Block::Excl(o) => l(&o).writer.is_none() && l(&o).readers == 0,
            Block::Shared(o) => l(&o).writer.is_none(),
            Block::Cond(_) => self.notified.contains(&t),
        }
    }

    /// Picks the thread that goes on; None: nobody can.
    fn pick(&mut self) -> Option<usize> {
        let n = self.ths.len();
        let cur = self.cur;
        let here = cur < n && self.can(cur);
        let mut yields = here && self.ths[cur].block == Block::Yield;
        if here && self.run_len > LONG {
            yields = true;
        }
        let mut choices: Vec<u8> = vec![];
        if here && !yields {
            choices.push(cur as u8);
        }
        for t in 0..n {
            if t != cur && self.can(t) {
                choices.push(t as u8);
            }
        }
        if here && yields && choices.is_empty() {
            choices.push(cur as u8);
        }
        if choices.is_empty() {
            return None;
        }
        let costly = here && !yields;
        let i = self.frames.len();
        if i > ENDLESS {
            self.problem = Some("the threads make no progress (livelock)".into());
            return None;
        }
        let chosen = match self.prefix.get(i) {
            Some(c) => {
                if !choices.contains(c) {
                    self.problem = Some("harness: the program does not repeat".into());
                    return None;
                }
                *c
            }
            None => choices[0],
        };
        let acc = if cur < n && costly { self.ths[cur].acc.clone() } else { vec![] };
        self.frames.push(Frame { choices, chosen, costly, acc });
        if chosen as usize == cur {
            self.run_len += 1;
        } else {
            self.run_len = 0;
            let w = self.ths[chosen as usize].what;
            self.trail.push((chosen, w));
        }
        Some(chosen as usize)
    }

    /// The chosen thread performs what it stopped in front of.
    fn grant(&mut self, t: usize) {
        self.ths[t].steps += 1;
        let mut h = 7;
        for th in &self.ths {
            h = mix(h, th.steps as u64);
        }
        self.states.insert(h);
        for (o, w) in &self.ths[t].acc {
            let e = self.touched.entry(*o).or_insert((0, 0));
            e.0 |= 1 << t;
            if *w {
                e.1 |= 1 << t;
            }
        }
        match self.ths[t].block {
            Block::Excl(o) => {
                self.locks.entry(o).or_default().writer = Some(t);
                self.join_from(t, o);
            }
            Block::Shared(o) => {
                self.locks.entry(o).or_default().readers += 1;
                self.join_from(t, o);
            }
            Block::Cond(_) => {
                self.notified.remove(&t);
            }
            _ => (),
        }
        self.ths[t].block = Block::No;
    }

    fn join_from(&mut self, t: usize, o: u64) {
        if let Some(c) = self.clocks.get(&o) {
            for k in 0..MAX {
                self.ths[t].clock[k] = self.ths[t].clock[k].max(c[k]);
            }
        }
    }

    fn publish(&mut self, t: usize, o: u64, replace: bool) {
        let c = self.ths[t].clock;
        let e = self.clocks.entry(o).or_insert([0; MAX]);
        for k in 0..MAX {
            e[k] = if replace { c[k] } else { e[k].max(c[k]) };
        }
        self.ths[t].clock[t] += 1;
    }

    fn shared(&self, o: u64) -> bool {
        match self.touched.get(&o) {
            Some((a, w)) => *w != 0 && a.count_ones() >= 2,
            None => false,
        }
    }
}

/// Stops until it is this thread's turn (again).
fn stop(me: usize, block: Block, acc: Vec<(u64, bool)>, what: &'static str) {
    let mut g = ex();
    {
        let e = g.as_mut().unwrap();
        e.ths[me].block = block;
        e.ths[me].acc = acc;
        e.ths[me].what = what;
        match e.pick() {
            Some(t) => {
                e.cur = t;
                if t != me {
                    CVS[t].notify_all();
                }
            }
            None => {
                stuck(e);
                MAIN.notify_all();
                drop(g);
                loop {
                    std::thread::park();
                }
            }
        }
    }
    drop(g);
    await_turn(me);
}

fn await_turn(me: usize) {
    let mut g = ex();
    let mine = EPOCH.with(|m| m.get());
    loop {
        match g.as_mut() {
            Some(e) if e.epoch == mine => {
                if e.cur == me {
                    e.grant(me);
                    return;
                }
            }
            _ => {
                CVS[me].notify_all();
                drop(g);
                loop {
                    std::thread::park();
                }
            }
        }
        g = CVS[me].wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

fn stuck(e: &mut Exec) {
    if e.problem.is_none() {
        let who: Vec<String> = e
            .ths
            .iter()
            .enumerate()
            .filter(|(_, t)| !t.done)
            .map(|(i, t)| format!("T{} at {}", i, t.what))
            .collect();
        e.problem = Some(format!("deadlock: {}", who.join(", ")));
    }
}

pub fn yield_point() {
    if let Some(m) = me() {
        stop(m, Block::Yield, vec![], "yield");
    }
}

/// A declared access to objects of the program (not of the library).
pub fn point(acc: &[(u64, bool)], what: &'static str) {
    if let Some(m) = me() {
        stop(m, Block::No, acc.to_vec(), what);
    }
}

/// Reads or writes a buffer: complains when an access of another thread is not ordered before.
pub fn buffer(addr: usize, write: bool, what: &str) {
    let m = match me() {
        Some(m) => m,
        None => return,
    };
    let mut g = ex();
    let e = g.as_mut().unwrap();
    let c = e.ths[m].clock;
    let a = e.data.entry(addr as u64).or_default();
    let mut bad = false;
    if let Some((t, k)) = a.w {
        bad |= t != m && k > c[t];
    }
    if write {
        for t in 0..MAX {
            bad |= t != m && a.r[t] > c[t];
        }
        a.w = Some((m, c[m]));
        a.r = [0; MAX];
    } else {
        a.r[m] = c[m];
    }
    if bad && e.problem.is_none() {
        e.problem = Some(format!(
            "{} in one thread and an earlier access of another thread to the same buffer are not ordered",
            what
        ));
    }
}

/// The buffer went back to the system: a later one at the same address is another buffer.
pub fn forget(addr: usize) {
    if controlled() {
        ex().as_mut().unwrap().data.remove(&(addr as u64));
    }
}

// ---- for the shims ----

pub(crate) fn acquire(o: u64, excl: bool) -> bool {
    match me() {
        Some(m) => {
            let b = if excl { Block::Excl(o) } else { Block::Shared(o) };
            stop(m, b, vec![(o, true)], "lock");
            true
        }
        None => false,
    }
}

/// Returns None when not controlled.
pub(crate) fn try_acquire(o: u64, excl: bool) -> Option<bool> {
    let m = me()?;
    TRIED.store(true, Ordering::SeqCst);
    stop(m, Block::No, vec![(o, true)], "try_lock");
    let mut g = ex();
    let e = g.as_mut().unwrap();
    let l = e.locks.entry(o).or_default();
    let ok = l.writer.is_none() && (!excl || l.readers == 0);
    if ok {
        if excl {
            l.writer = Some(m);
        } else {
            l.readers += 1;
        }
        e.join_from(m, o);
    }
    Some(ok)
}

/// In front of giving a lock back.
pub(crate) fn leave(o: u64) {
    if let Some(m) = me() {
        if ex().as_ref().unwrap().tries {
            stop(m, Block::No, vec![(o, true)], "unlock");
        }
    }
}

pub(crate) fn release(o: u64, excl: bool) {
    if let Some(m) = me() {
        let mut g = ex();
        let e = g.as_mut().unwrap();
        let l = e.locks.entry(o).or_default();
        if excl {
            l.writer = None;
        } else {
            l.readers = l.readers.saturating_sub(1);
        }
        e.publish(m, o, false);
    }
}

pub(crate) fn cond_wait(cv: u64) {
    if let Some(m) = me() {
        ex().as_mut().unwrap().waiting.push((cv, m));
        stop(m, Block::Cond(cv), vec![(cv, true)], "condition");
        let mut g = ex();
        g.as_mut().unwrap().waiting.retain(|x| *x != (cv, m));
    }
}

pub(crate) fn cond_notify(cv: u64, all: bool) {
    if let Some(m) = me() {
        stop(m, Block::No, vec![(cv, true)], "notify");
        let mut g = ex();
        let e = g.as_mut().unwrap();
        let w: Vec<usize> = e
            .waiting
            .iter()
            .filter(|(c, t)| *c == cv && !e.notified.contains(t))
            .map(|(_, t)| *t)
            .collect();
        for t in w {
            e.notified.insert(t);
            if !all {
                break;
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub(crate) enum Kind {
    Load,
    Store,
    Rmw,
    Fence,
}

pub(crate) fn atomic(o: u64, k: Kind, ord: Ordering) {
    let m = match me() {
        Some(m) => m,
        None => return,
    };
    let what = match k {
        Kind::Load => "atomic load",
        Kind::Store => "atomic store",
        Kind::Rmw => "atomic update",
        Kind::Fence => "fence",
    };
    stop(m, Block::No, vec![(o, k != Kind::Load)], what);
    let mut g = ex();
    let e = g.as_mut().unwrap();
    let acq = matches!(ord, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst);
    let rel = matches!(ord, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst);
    match k {
        Kind::Load => {
            if acq {
                e.join_from(m, o);
            }
        }
        Kind::Store => {
            if rel {
                e.publish(m, o, true);
            } else {
                e.clocks.remove(&o);
            }
        }
        Kind::Rmw => {
            if acq {
                e.join_from(m, o);
            }
            if rel {
                e.publish(m, o, false);
            }
        }
        // more ordering than a fence really gives: never an alarm about code that uses fences
        Kind::Fence => {
            e.join_from(m, o);
            e.publish(m, o, false);
        }
    }
}

// ---- running ----

pub type Body = Box<dyn FnOnce() + Send>;

pub struct Outcome {
    /// deadlock, livelock or unordered buffer accesses
    pub problem: Option<String>,
    /// the panic that left each thread's body
    pub panics: Vec<Option<String>>,
    pub points: u64,
    pub schedule: String,
    /// threads are stuck: nothing of this execution may be touched any more
    pub stuck: bool,
}

struct Pool {
    tx: Vec<Sender<(u64, Body)>>,
}

static POOL: Mutex<Pool> = Mutex::new(Pool { tx: vec![] });

fn worker(t: usize) -> Sender<(u64, Body)> {
    let (tx, rx) = channel::<(u64, Body)>();
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            while let Ok((epoch, b)) = rx.recv() {
                ME.with(|m| m.set(Some(t)));
                EPOCH.with(|m| m.set(epoch));
                await_turn(t);
                let r = catch_unwind(AssertUnwindSafe(b));
                ME.with(|m| m.set(None));
                let mut g = ex();
                let e = g.as_mut().unwrap();
                if let Err(p) = r {
                    e.panics[t] = Some(text(p));
                }
                e.ths[t].done = true;
                e.ths[t].acc = vec![];
                e.live -= 1;
                if e.live == 0 {
                    MAIN.notify_all();
                } else {
                    match e.pick() {
                        Some(n) => {
                            e.cur = n;
                            CVS[n].notify_all();
                        }
                        None => {
                            stuck(e);
                            MAIN.notify_all();
                        }
                    }
                }
            }
        })
        .unwrap();
    tx
}

fn text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

struct Ran {
    out: Outcome,
    frames: Vec<Frame>,
    shared: HashSet<u64>,
    states: HashSet<u64>,
}

fn run(prefix: Vec<u8>, bodies: Vec<Body>) -> Ran {
    let n = bodies.len();
    assert!(n <= MAX);
    static RUNS: AtomicU64 = AtomicU64::new(1);
    let epoch = RUNS.fetch_add(1, Ordering::Relaxed);
    {
        let mut g = ex();
        let ths = (0..n)
            .map(|t| {
                let mut clock = [0; MAX];
                clock[t] = 1;
                Th { block: Block::No, acc: vec![], done: false, clock, steps: 0, what: "start" }
            })
            .collect();
        let mut e = Exec {
            epoch,
            cur: n,
            ths,
            locks: HashMap::new(),
            clocks: HashMap::new(),
            data: HashMap::new(),
            prefix,
            frames: vec![],
            touched: HashMap::new(),
            states: HashSet::new(),
            run_len: 0,
            problem: None,
            live: n,
            tries: TRIED.load(Ordering::SeqCst),
            notified: HashSet::new(),
            waiting: vec![],
            panics: vec![None; n],
            trail: vec![],
        };
        let first = e.pick().expect("a thread to start with");
        e.cur = first;
        *g = Some(e);
    }
    let mut pool = POOL.lock().unwrap();
    while pool.tx.len() < n {
        let t = pool.tx.len();
        pool.tx.push(worker(t));
    }
    for (t, b) in bodies.into_iter().enumerate() {
        pool.tx[t].send((epoch, b)).unwrap();
    }
    let mut g = ex();
    let stuck;
    loop {
        let e = g.as_mut().unwrap();
        if e.live == 0 {
            stuck = false;
            break;
        }
        // nobody runs any more
        if e.problem.is_some() && e.cur_stuck() {
            stuck = true;
            break;
        }
        g = MAIN.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    let e = g.take().unwrap();
    if stuck {
        pool.tx.clear();
    }
    let shared: HashSet<u64> = e.touched.keys().copied().filter(|o| e.shared(*o)).collect();
    let schedule = e
        .trail
        .iter()
        .map(|(t, w)| format!("T{}({})", t, w))
        .collect::<Vec<_>>()
        .join(" ");
    Ran {
        out: Outcome {
            problem: e.problem,
            panics: e.panics,
            points: e.frames.len() as u64,
            schedule,
            stuck,
        },
        frames: e.frames,
        shared,
        states: e.states,
    }
}

impl Exec {
    fn cur_stuck(&self) -> bool {
        let p = self.problem.as_deref().unwrap_or("");
        p.starts_with("deadlock") || p.contains("livelock") || p.starts_with("harness")
    }
}

#[derive(Default, Debug)]
pub struct Stats {
    pub executions: u64,
    pub points: u64,
    pub states: HashSet<u64>,
    pub capped: bool,
}

struct Node {
    f: Frame,
    idx: usize,
    wanted: bool,
    /// preemptions before this point
    pre: u32,
}

/// Runs the program that `make` builds under every schedule with at most `bound` preemptions.
/// `make` returns the threads and what to check when they are through.
pub fn explore(
    bound: u32,
    cap: u64,
    mut make: impl FnMut() -> (Vec<Body>, Box<dyn FnOnce(&Outcome) -> Result<(), String>>),
    mut beat: impl FnMut(),
) -> (Stats, Result<(), String>) {
    let mut st = Stats::default();
    let mut stack: Vec<Node> = vec![];
    loop {
        let prefix: Vec<u8> = stack.iter().map(|n| n.f.choices[n.idx]).collect();
        let tries = TRIED.load(Ordering::SeqCst);
        let (bodies, check) = make();
        let r = run(prefix.clone(), bodies);
        st.executions += 1;
        st.points += r.out.points;
        if st.states.len() < 2_000_000 {
            st.states.extend(r.states);
        }
        if st.executions % 64 == 0 {
            beat();
        }
        let verdict = match (&r.out.problem, r.out.stuck) {
            (Some(p), true) => {
                std::mem::forget(check);
                Err(p.clone())
            }
            (Some(p), false) => {
                let _ = check(&r.out);
                Err(p.clone())
            }
            _ => check(&r.out),
        };
        if let Err(m) = verdict {
            return (st, Err(format!("{} [schedule: {}]", m, r.out.schedule)));
        }
        if tries != TRIED.load(Ordering::SeqCst) {
            // from the start again, now with the points that matter to a try
            stack.clear();
            continue;
        }
        for (i, f) in r.frames.into_iter().enumerate() {
            if i >= stack.len() {
                let pre = match stack.last() {
                    Some(n) => n.pre + (n.f.costly && n.idx > 0) as u32,
                    None => 0,
                };
                let idx = f.choices.iter().position(|c| *c == f.chosen).unwrap();
                stack.push(Node { f, idx, wanted: false, pre });
            } else {
                // object numbers differ between executions
                stack[i].f.acc = f.acc;
            }
            let n = &mut stack[i];
            n.wanted |= !n.f.costly || n.f.acc.iter().any(|(o, _)| r.shared.contains(o));
        }
        if st.executions >= cap {
            st.capped = true;
            return (st, Ok(()));
        }
        loop {
            match stack.last_mut() {
                None => return (st, Ok(())),
                Some(n) => {
                    let more = n.wanted
                        && n.idx + 1 < n.f.choices.len()
                        && (!n.f.costly || n.pre + 1 <= bound);
                    if more {
                        n.idx += 1;
                        break;
                    }
                    stack.pop();
                }
            }
        }
    }
}
