//! The scheduler behind the locks.
//!
//! Every thread that takes a lock belongs to an execution. While the execution is controlled exactly
//! one of its threads runs; at each *point* (before a lock is taken, when the running thread blocks
//! or ends) the next one is chosen among those that could proceed: the running one, then the ones
//! that became ready last. A schedule is the list of points at which another choice than the first is
//! made.
use crate::{RawMutex, RawRwLock};
use std::cell::RefCell;
use std::panic::Location;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
pub enum Want {
    Nothing,
    Mutex(*const RawMutex),
    Read(*const RawRwLock),
    ReadAgain(*const RawRwLock),
    Write(*const RawRwLock),
    Drain(*const RawRwLock),
    Upgradable(*const RawRwLock),
    Cond { addr: usize, raw: *const RawMutex, timed: bool },
    /// the thread that runs the execution waits for its clients
    Join,
    /// runs only if nobody else can
    Idle,
    /// blocked in something that is not a lock of this crate
    External,
    Over,
}
unsafe impl Send for Want {}

fn free(w: &Want) -> bool {
    unsafe {
        match *w {
            Want::Nothing => true,
            Want::Mutex(m) => !(*m).locked.load(SeqCst),
            Want::Read(l) => !(*l).writer.load(SeqCst),
            Want::ReadAgain(l) => !(*l).writer.load(SeqCst) || (*l).readers.load(SeqCst) > 0,
            Want::Write(l) => !(*l).writer.load(SeqCst) && !(*l).upgradable.load(SeqCst),
            Want::Drain(l) => (*l).readers.load(SeqCst) == 0,
            Want::Upgradable(l) => !(*l).writer.load(SeqCst) && !(*l).upgradable.load(SeqCst),
            _ => false,
        }
    }
}
fn take(w: &Want) {
    unsafe {
        match *w {
            Want::Mutex(m) => (*m).locked.store(true, SeqCst),
            Want::Read(l) | Want::ReadAgain(l) => {
                (*l).readers.fetch_add(1, SeqCst);
            }
            Want::Write(l) => (*l).writer.store(true, SeqCst),
            Want::Upgradable(l) => {
                (*l).upgradable.store(true, SeqCst);
                (*l).readers.fetch_add(1, SeqCst);
            }
            _ => {}
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// locks behave as usual
    Free,
    /// one thread at a time, always the first choice
    Quiet,
    /// one thread at a time, choices as the schedule says
    Explore,
    /// ended by a deadlock or a hang; nobody runs any more
    Dead,
}
struct Th {
    want: Want,
    at: Option<&'static Location<'static>>,
    /// the thread becomes a candidate with this rank: the latest first
    stamp: u64,
    timed_out: bool,
    client: bool,
    tid: i32,
    cv: Arc<Condvar>,
}
struct State {
    mode: Mode,
    threads: Vec<Th>,
    token: usize,
    clock: u64,
    events: u64,
    schedule: Vec<(u32, u8)>,
    next: usize,
    trace: Vec<Point>,
    timeouts: usize,
    spins: usize,
    registered: usize,
    expected: usize,
    failure: Option<String>,
    diverged: bool,
    stalls: usize,
}
/// A point at which there was a choice.
#[derive(Clone, Copy)]
pub struct Point {
    pub others: u8,
    pub thread: u8,
    /// the running thread could have gone on
    pub preempts: bool,
    pub at: Option<&'static Location<'static>>,
}
/// The outcome of an execution.
pub struct Ran {
    /// a deadlock or a hang
    pub failure: Option<String>,
    pub trace: Vec<Point>,
    /// every choice of the schedule was possible
    pub followed: bool,
}
pub struct Exec {
    st: Mutex<State>,
    changed: Condvar,
}

static CURRENT: Mutex<Option<Arc<Exec>>> = Mutex::new(None);
/// Points since the program started.
pub static POINTS: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static ME: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
}
const HANG: Duration = Duration::from_secs(30);

impl Exec {
    fn new(mode: Mode, expected: usize) -> Arc<Exec> {
        Arc::new(Exec {
            st: Mutex::new(State { mode, threads: vec![], token: 0, clock: 0, events: 0, schedule: vec![], next: 0, trace: vec![], timeouts: 0, spins: 0, registered: 0, expected, failure: None, diverged: false, stalls: 0 }),
            changed: Condvar::new(),
        })
    }
    fn lock(&self) -> MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
}
impl State {
    fn add(&mut self, client: bool) -> usize {
        self.clock += 1;
        self.threads.push(Th { want: Want::Nothing, at: None, stamp: self.clock, timed_out: false, client, tid: 0, cv: Arc::new(Condvar::new()) });
        self.threads.len() - 1
    }
    fn ready(&self, k: usize) -> bool {
        match self.threads[k].want {
            Want::Join => self.threads.iter().all(|t| !t.client || matches!(t.want, Want::Over)),
            ref w => free(w),
        }
    }
    fn describe(&self) -> String {
        let mut v = vec![];
        for (k, t) in self.threads.iter().enumerate() {
            let what = match t.want {
                Want::Mutex(_) => "waits for a mutex",
                Want::Read(_) | Want::ReadAgain(_) => "waits to read",
                Want::Write(_) | Want::Upgradable(_) => "waits to write",
                Want::Drain(_) => "waits for readers to leave",
                Want::Cond { .. } => "waits for a condition",
                Want::External => "is blocked outside of a lock",
                Want::Nothing => "runs",
                Want::Join | Want::Idle | Want::Over => continue,
            };
            v.push(format!("{} {k} {what}{}", if t.client { "client" } else { "worker" }, t.at.map(|l| format!(" at {}:{}", l.file().rsplit('/').next().unwrap(), l.line())).unwrap_or_default()));
        }
        v.join("; ")
    }
    fn fail(&mut self, ex: &Exec, what: &str) {
        if self.failure.is_none() {
            self.failure = Some(format!("{what}: {}", self.describe()));
        }
        self.mode = Mode::Dead;
        for t in &self.threads {
            t.cv.notify_all();
        }
        ex.changed.notify_all();
    }
}

fn me() -> (Arc<Exec>, usize) {
    ME.with(|m| {
        if let Some((e, k)) = &*m.borrow() {
            return (e.clone(), *k);
        }
        let ex = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(|| Exec::new(Mode::Free, 0)).clone();
        let k = {
            let mut s = ex.lock();
            let k = s.add(false);
            s.registered += 1;
            s.threads[k].want = Want::External;
            k
        };
        *m.borrow_mut() = Some((ex.clone(), k));
        (ex, k)
    })
}
fn gettid() -> i32 {
    extern "C" {
        fn gettid() -> i32;
    }
    unsafe { gettid() }
}

pub fn locked<T>(f: impl FnOnce() -> T) -> T {
    let (ex, _) = me();
    let _s = ex.lock();
    f()
}
pub fn released() {}

pub fn acquire(w: Want, at: &'static Location<'static>) {
    let (ex, id) = me();
    let s = ex.lock();
    enter(&ex, s, id, w, at);
}
fn enter<'a>(ex: &'a Exec, mut s: MutexGuard<'a, State>, id: usize, w: Want, at: &'static Location<'static>) {
    s.threads[id].at = Some(at);
    if s.threads[id].tid == 0 {
        s.threads[id].tid = gettid();
    }
    match s.mode {
        Mode::Free => {}
        Mode::Dead => return dead(ex, s, id),
        _ => {
            if s.token != id {
                // a thread that was started or was blocked elsewhere
                s.threads[id].want = w;
                s.clock += 1;
                s.threads[id].stamp = s.clock;
                ex.changed.notify_all();
                s = wait_turn(ex, s, id);
            } else if !matches!(w, Want::Drain(_)) || !free(&w) {
                s.threads[id].want = w;
                s = switch(ex, s, id);
            }
            match s.mode {
                Mode::Dead => return dead(ex, s, id),
                Mode::Free => {}
                _ => {
                    take(&w);
                    s.threads[id].want = Want::Nothing;
                    return;
                }
            }
        }
    }
    // ordinary locking
    loop {
        if free(&w) {
            take(&w);
            s.threads[id].want = Want::Nothing;
            return;
        }
        drop(s);
        std::thread::sleep(Duration::from_micros(50));
        s = ex.lock();
    }
}
/// Nobody runs in a dead execution, except that its owner is told.
fn dead(ex: &Exec, s: MutexGuard<'_, State>, id: usize) {
    if id == 0 {
        let f = s.failure.clone().unwrap_or_default();
        drop(s);
        std::panic::resume_unwind(Box::new(f));
    }
    drop(s);
    let _ = ex;
    loop {
        std::thread::park();
    }
}

fn wait_turn<'a>(ex: &'a Exec, mut s: MutexGuard<'a, State>, id: usize) -> MutexGuard<'a, State> {
    let cv = s.threads[id].cv.clone();
    let mut seen = (s.events, Instant::now(), 0);
    while s.token != id && !matches!(s.mode, Mode::Free | Mode::Dead) {
        s = cv.wait_timeout(s, Duration::from_millis(250)).unwrap_or_else(|e| e.into_inner()).0;
        if id == 0 && s.token != 0 {
            // the owner watches over the others
            if s.events != seen.0 {
                seen = (s.events, Instant::now(), 0);
            } else if seen.1.elapsed() > HANG {
                s.fail(ex, "no progress for 30 seconds");
            } else if seen.1.elapsed() > Duration::from_secs(2) {
                let t = s.token;
                let stat = std::fs::read_to_string(format!("/proc/self/task/{}/stat", s.threads[t].tid)).unwrap_or_default();
                let sleeping = stat.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S'));
                seen.2 = if sleeping { seen.2 + 1 } else { 0 };
                if seen.2 > 4 && !matches!(s.threads[t].want, Want::External) {
                    s.threads[t].want = Want::External;
                    let next = choose(&mut s, None);
                    if let Some(n) = next {
                        s.token = n;
                        let c = s.threads[n].cv.clone();
                        c.notify_all();
                    }
                    seen = (s.events, seen.1, 0);
                }
            }
        }
    }
    s
}
/// The candidates other than `id`, the latest first.
fn choose(s: &mut State, id: Option<usize>) -> Option<usize> {
    candidates(s, id).first().copied()
}
fn candidates(s: &State, id: Option<usize>) -> Vec<usize> {
    let mut v: Vec<usize> = (0..s.threads.len()).filter(|k| Some(*k) != id && s.ready(*k)).collect();
    v.sort_by_key(|k| std::cmp::Reverse(s.threads[*k].stamp));
    v
}

/// Passes the token on, as the schedule says; returns when it is back.
fn switch<'a>(ex: &'a Exec, mut s: MutexGuard<'a, State>, id: usize) -> MutexGuard<'a, State> {
    s.events += 1;
    POINTS.fetch_add(1, SeqCst);
    if s.events > 5_000_000 {
        s.fail(ex, "the statements do not come to an end");
        return s;
    }
    let next = loop {
        if matches!(s.mode, Mode::Free | Mode::Dead) {
            return s;
        }
        let here = s.ready(id);
        let mut c = candidates(&s, Some(id));
        if here {
            c.insert(0, id);
        }
        if s.mode == Mode::Explore && c.len() > 1 {
            let spinning = matches!(s.threads[id].want, Want::Nothing) && here;
            s.spins = if spinning { s.spins + 1 } else { 0 };
            let n = s.trace.len() as u32;
            let p = Point { others: (c.len() - 1).min(255) as u8, thread: id as u8, preempts: here, at: s.threads[id].at };
            s.trace.push(p);
            let mut pick = 0;
            if s.schedule.get(s.next).is_some_and(|d| d.0 == n) {
                pick = s.schedule[s.next].1 as usize;
                s.next += 1;
                if pick >= c.len() {
                    pick = 0;
                    s.diverged = true;
                }
            } else if s.spins > 2000 {
                // whoever polls lets the others run now and then
                s.spins = 0;
                pick = 1;
            }
            break c[pick];
        }
        if let Some(n) = c.first() {
            break *n;
        }
        if let Some(k) = (0..s.threads.len()).find(|k| matches!(s.threads[*k].want, Want::Idle)) {
            if s.registered >= s.expected && !s.threads.iter().any(|t| matches!(t.want, Want::External)) {
                break k;
            }
        }
        let elsewhere = s.registered < s.expected || s.threads.iter().any(|t| matches!(t.want, Want::External));
        if elsewhere {
            let before = s.clock;
            let (g, r) = ex.changed.wait_timeout(s, Duration::from_millis(200)).unwrap_or_else(|e| e.into_inner());
            s = g;
            if s.clock != before {
                continue;
            }
            // what blocks a thread elsewhere may still let it go
            s.stalls += 1;
            if r.timed_out() && s.stalls < 100 {
                continue;
            }
        }
        // only time can help
        let timed = (0..s.threads.len()).filter(|k| matches!(s.threads[*k].want, Want::Cond { timed: true, .. })).min_by_key(|k| s.threads[*k].stamp);
        match timed {
            Some(k) if s.timeouts < 12 => {
                s.timeouts += 1;
                let Want::Cond { raw, .. } = s.threads[k].want else { unreachable!() };
                s.threads[k].want = Want::Mutex(raw);
                s.threads[k].timed_out = true;
            }
            _ => {
                s.fail(ex, "deadlock");
                return s;
            }
        }
    };
    if s.timeouts > 0 && (s.threads[id].client || !s.threads[id].timed_out) {
        s.timeouts = 0;
    }
    if next != id {
        if s.ready(id) {
            s.clock += 1;
            s.threads[id].stamp = s.clock;
        }
        s.token = next;
        let c = s.threads[next].cv.clone();
        c.notify_all();
        if matches!(s.threads[id].want, Want::Over) {
            return s;
        }
        s = wait_turn(ex, s, id);
    }
    s
}

/// Waits for a notification; true if the time ran out instead.
pub fn wait(addr: usize, raw: &RawMutex, limit: Option<Duration>, at: &'static Location<'static>) -> bool {
    let (ex, id) = me();
    let mut s = ex.lock();
    s.threads[id].at = Some(at);
    s.clock += 1;
    s.threads[id].stamp = s.clock;
    s.threads[id].timed_out = false;
    s.threads[id].want = Want::Cond { addr, raw, timed: limit.is_some() };
    raw.locked.store(false, SeqCst);
    if !matches!(s.mode, Mode::Free | Mode::Dead) {
        if s.token == id {
            s = switch(&ex, s, id);
        } else {
            s = wait_turn(&ex, s, id);
        }
        match s.mode {
            Mode::Dead => {
                dead(&ex, s, id);
                return true;
            }
            Mode::Free => {}
            _ => {
                take(&Want::Mutex(raw));
                s.threads[id].want = Want::Nothing;
                return s.threads[id].timed_out;
            }
        }
    }
    let end = limit.map(|d| Instant::now() + d);
    let cv = s.threads[id].cv.clone();
    while matches!(s.threads[id].want, Want::Cond { .. }) {
        let left = end.map(|e| e.saturating_duration_since(Instant::now()));
        if left.is_some_and(|l| l.is_zero()) {
            s.threads[id].want = Want::Mutex(raw);
            s.threads[id].timed_out = true;
            break;
        }
        s = cv.wait_timeout(s, left.unwrap_or(Duration::from_secs(1))).unwrap_or_else(|e| e.into_inner()).0;
        if s.mode == Mode::Dead {
            dead(&ex, s, id);
            return true;
        }
    }
    let late = s.threads[id].timed_out;
    let mut s = s;
    loop {
        if free(&Want::Mutex(raw)) {
            take(&Want::Mutex(raw));
            s.threads[id].want = Want::Nothing;
            return late;
        }
        drop(s);
        std::thread::sleep(Duration::from_micros(50));
        s = ex.lock();
    }
}
pub fn notify(addr: usize, all: bool) -> usize {
    let (ex, _) = me();
    let mut s = ex.lock();
    let mut v: Vec<usize> = (0..s.threads.len()).filter(|k| matches!(s.threads[*k].want, Want::Cond { addr: a, .. } if a == addr)).collect();
    v.sort_by_key(|k| s.threads[*k].stamp);
    if !all {
        v.truncate(1);
    }
    for k in &v {
        let Want::Cond { raw, .. } = s.threads[*k].want else { unreachable!() };
        s.threads[*k].want = Want::Mutex(raw);
        s.threads[*k].timed_out = false;
        s.clock += 1;
        s.threads[*k].stamp = s.clock;
        if s.mode == Mode::Free {
            let c = s.threads[*k].cv.clone();
            c.notify_all();
        }
    }
    v.len()
}

// ---- what the checker calls -------------------------------------------------------------------

/// Starts a controlled execution owned by this thread; `workers` threads will be started by it.
pub fn begin(workers: usize) {
    let ex = Exec::new(Mode::Quiet, workers);
    ex.lock().add(false);
    ex.lock().threads[0].tid = gettid();
    *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = Some(ex.clone());
    ME.with(|m| *m.borrow_mut() = Some((ex, 0)));
}
/// Lets the others run until nobody can.
pub fn settle() {
    let (ex, id) = me();
    let mut s = ex.lock();
    s.threads[id].want = Want::Idle;
    s = switch(&ex, s, id);
    s.threads[id].want = Want::Nothing;
}
/// Runs the clients under the schedule: the failure, if any, and the points passed.
pub fn explore(schedule: &[(u32, u8)], clients: Vec<Box<dyn FnOnce() + Send>>) -> Ran {
    let (ex, id) = me();
    let mut s = ex.lock();
    let ids: Vec<usize> = clients.iter().map(|_| s.add(true)).collect();
    // a client starts when those before it, and what they wait for, cannot go on
    s.clock += 1_000_000;
    for (n, k) in ids.iter().enumerate() {
        s.threads[*k].stamp = 1000 - n as u64;
    }
    let base = s.clock;
    for t in s.threads.iter_mut().filter(|t| !t.client) {
        t.stamp += base;
    }
    let handles: Vec<_> = clients
        .into_iter()
        .zip(ids)
        .map(|(f, k)| {
            let ex = ex.clone();
            std::thread::spawn(move || {
                ME.with(|m| *m.borrow_mut() = Some((ex.clone(), k)));
                let mut s = ex.lock();
                s.threads[k].tid = gettid();
                s = wait_turn(&ex, s, k);
                if s.mode == Mode::Dead {
                    return;
                }
                drop(s);
                f();
                let mut s = ex.lock();
                s.threads[k].want = Want::Over;
                if s.token == k && !matches!(s.mode, Mode::Free | Mode::Dead) {
                    drop(switch(&ex, s, k));
                } else {
                    ex.changed.notify_all();
                }
            })
        })
        .collect();
    s.schedule = schedule.to_vec();
    s.next = 0;
    s.trace.clear();
    s.mode = Mode::Explore;
    s.threads[id].want = Want::Join;
    s = switch(&ex, s, id);
    let failure = s.failure.clone();
    let followed = !s.diverged && s.next == s.schedule.len();
    let trace = std::mem::take(&mut s.trace);
    if failure.is_none() {
        s.mode = Mode::Quiet;
        s.threads[id].want = Want::Nothing;
    }
    drop(s);
    if failure.is_none() {
        for h in handles {
            let _ = h.join();
        }
    }
    Ran { failure, trace, followed }
}
/// The locks behave as usual from now on.
pub fn finish() {
    let (ex, _) = me();
    let mut s = ex.lock();
    if s.mode != Mode::Dead {
        s.mode = Mode::Free;
        for t in &s.threads {
            t.cv.notify_all();
        }
    }
}
