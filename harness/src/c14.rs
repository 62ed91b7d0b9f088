//! C14: statements issued from several threads.
//!
//! Programs of a few client threads run on the real engine, whose locks are those of mt/parking_lot:
//! one thread runs at a time and the schedule decides at every lock. All schedules that deviate from
//! the default in up to a given number of points are executed. Every execution has to end, without
//! panics or internal errors, and what the statements answered and left behind has to be what some
//! serial order of the transactions answers and leaves behind.
use crate::fw::*;
use crate::hist::{Eng, create, del, index, inn, ins, upd};
use crate::sqlm::*;
use axmosdb::Database;
use parking_lot::sched;
use serde_json::{Value, json};
use std::mem::ManuallyDrop;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone)]
enum Step {
    Auto(St),
    Batch(Vec<St>),
    /// a session: begin, statements, commit (or rollback)
    Tx(Vec<St>, bool),
    /// a session that is dropped
    Left(Vec<St>),
    Flush,
    Vacuum,
    Analyze,
}
impl Step {
    fn told(&self) -> String {
        let sql = |v: &[St]| v.iter().map(|s| s.sql(false)).collect::<Vec<_>>().join("; ");
        match self {
            Step::Auto(s) => s.sql(false),
            Step::Batch(v) => format!("batch {}", sql(v)),
            Step::Tx(v, c) => format!("session {} {c}", sql(v)),
            Step::Left(v) => format!("left {}", sql(v)),
            Step::Flush => "flush".into(),
            Step::Vacuum => "vacuum".into(),
            Step::Analyze => "analyze".into(),
        }
    }
}
struct Prog {
    name: String,
    cfg: Cfg,
    setup: Vec<St>,
    threads: Vec<Vec<Step>>,
    /// which threads write the same rows, keys or tables: one may be refused because of the other
    conflicts: Vec<(usize, usize)>,
    probes: Vec<Sel>,
    tail: Vec<St>,
    /// deviations from the default schedule; the second and later ones at control points only
    delays: usize,
    /// close and open afterwards
    reopen: bool,
    /// an outcome without a serial order is this known finding
    known: Option<&'static str>,
}
/// What a step answered.
#[derive(Clone, Debug)]
struct Rec {
    res: Vec<Res>,
    /// the end of a session, or of an administrative call
    end: Result<(), String>,
    done: bool,
}

fn client(db: Arc<Database>, steps: Vec<Step>, recs: Arc<Mutex<Vec<Rec>>>) {
    for st in steps {
        let mut r = Rec { res: vec![], end: Ok(()), done: true };
        match &st {
            Step::Auto(s) => r.res.push(run(&db, &s.sql(false))),
            Step::Batch(v) => {
                let sql: Vec<String> = v.iter().map(|s| s.sql(false)).collect();
                let refs: Vec<&str> = sql.iter().map(|s| s.as_str()).collect();
                match db.execute_batch(&refs) {
                    Ok(v) => r.res = v.into_iter().map(|x| to_res(Ok(x))).collect(),
                    Err(e) => r.end = Err(e.to_string()),
                }
            }
            Step::Tx(v, _) | Step::Left(v) => match db.session() {
                Err(e) => r.end = Err(format!("no session: {e}")),
                Ok(mut s) => {
                    for x in v {
                        r.res.push(run_s(&mut s, &x.sql(false)));
                    }
                    match st {
                        Step::Tx(_, true) => r.end = s.commit_transaction().map_err(|e| e.to_string()),
                        Step::Tx(_, false) => r.end = s.abort_transaction().map_err(|e| format!("rollback: {e}")),
                        _ => drop(s),
                    }
                }
            },
            Step::Flush => r.end = db.flush().map_err(|e| e.to_string()),
            Step::Vacuum => r.end = db.vacuum().map(|_| ()).map_err(|e| e.to_string()),
            Step::Analyze => r.end = db.analyze(1.0, 1000).map(|_| ()).map_err(|e| e.to_string()),
        }
        recs.lock().unwrap().push(r);
    }
}
/// Errors no statement may end with because of what other threads do.
fn internal(e: &str) -> bool {
    let e = e.to_lowercase();
    ["channel", "panic", "thread pool", "i/o error", "io error", "out of memory", "poison", "corrupt"].iter().any(|w| e.contains(w))
}

struct Search<'a> {
    p: &'a Prog,
    recs: &'a [Vec<Rec>],
    fin: &'a dyn Fn(&Db) -> Result<(), String>,
    why: String,
    orders: u64,
}
impl Search<'_> {
    /// Tries the serial orders that continue with the given positions.
    fn go(&mut self, at: &mut Vec<usize>, db: &Db, next: u64) -> bool {
        if (0..at.len()).all(|t| at[t] == self.p.threads[t].len()) {
            self.orders += 1;
            return match (self.fin)(db) {
                Ok(()) => true,
                Err(e) => {
                    self.note(at, e);
                    false
                }
            };
        }
        for t in 0..at.len() {
            let k = at[t];
            if k == self.p.threads[t].len() {
                continue;
            }
            match self.unit(t, k, db, next) {
                Ok((d, n)) => {
                    at[t] += 1;
                    if self.go(at, &d, n) {
                        return true;
                    }
                    at[t] -= 1;
                }
                Err(e) => self.note(at, format!("thread {t}, {e}")),
            }
        }
        false
    }
    /// Remembers the explanation of the order that got furthest.
    fn note(&mut self, at: &[usize], e: String) {
        let far = at.iter().sum::<usize>();
        let had = self.why.split(':').next().and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
        if self.why.is_empty() || far >= had {
            self.why = format!("{far}: {e}");
        }
    }
    fn refusable(&self, t: usize) -> bool {
        self.p.conflicts.iter().any(|(a, b)| *a == t || *b == t)
    }
    /// One transaction in a serial order.
    fn unit(&self, t: usize, k: usize, db: &Db, next: u64) -> Result<(Db, u64), String> {
        let r = &self.recs[t][k];
        let (mut d, mut n) = (db.clone(), next);
        let mut stmts = |v: &[St], d: &mut Db| -> Result<(), String> {
            for (s, got) in v.iter().zip(&r.res) {
                if let Res::Err(e) = got {
                    if internal(e) {
                        return Err(format!("{}: {e}", brief(&s.sql(false))));
                    }
                    let fails = matches!(d.clone().exec(s, &mut n.clone()), Eff::Err(_));
                    if !fails && !self.refusable(t) {
                        return Err(format!("{} fails for no reason: {e}", brief(&s.sql(false))));
                    }
                    continue;
                }
                let e = d.exec(s, &mut n);
                compare(&e, got).map_err(|e| format!("{}: {e}", brief(&s.sql(false))))?;
            }
            Ok(())
        };
        match &self.p.threads[t][k] {
            Step::Auto(s) => stmts(std::slice::from_ref(s), &mut d)?,
            Step::Batch(v) => match &r.end {
                Ok(()) => stmts(v, &mut d)?,
                Err(e) => {
                    let mut c = d.clone();
                    let fails = v.iter().any(|s| matches!(c.exec(s, &mut n.clone()), Eff::Err(_)));
                    if internal(e) || !fails && !self.refusable(t) {
                        return Err(format!("the batch fails: {e}"));
                    }
                }
            },
            Step::Tx(v, true) => match &r.end {
                Ok(()) => stmts(v, &mut d)?,
                Err(e) if internal(e) || !self.refusable(t) => return Err(format!("COMMIT fails: {e}")),
                Err(_) => {}
            },
            Step::Tx(v, false) | Step::Left(v) => {
                r.end.clone()?;
                let mut c = d.clone();
                stmts(v, &mut c)?;
            }
            _ => r.end.clone()?,
        }
        Ok((d, n))
    }
}
fn brief(s: &str) -> String {
    s.chars().take(100).collect()
}

/// Executes the program under one schedule.
fn execute(p: &Prog, order: &[usize], schedule: &[(u32, u8)], out: &mut Out) -> Result<(Vec<sched::Point>, bool), String> {
    take_panic();
    sched::begin(p.cfg.pool);
    let mut m = Db::default();
    let mut next = 1u64;
    let dir = ManuallyDrop::new(Scratch::new());
    let path = dir.path().join("d.db");
    let body = || -> Result<(Vec<sched::Point>, bool), String> {
        let db = ManuallyDrop::new(Arc::new(Database::create(&path, p.cfg.to()).map_err(|e| e.to_string())?));
        for s in &p.setup {
            let e = m.exec(s, &mut next);
            compare(&e, &run(&db, &s.sql(false))).map_err(|e| format!("setup {}: {e}", brief(&s.sql(false))))?;
        }
        sched::settle();
        let recs: Vec<Arc<Mutex<Vec<Rec>>>> = p.threads.iter().map(|_| Default::default()).collect();
        let clients: Vec<Box<dyn FnOnce() + Send>> = order
            .iter()
            .map(|k| {
                let (db, t, r) = (Arc::clone(&db), p.threads[*k].clone(), recs[*k].clone());
                Box::new(move || {
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| client(db, t, r)));
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let ran = sched::explore(schedule, clients);
        if std::env::var("AXV_POINTS").is_ok() {
            for (k, pt) in ran.trace.iter().enumerate() {
                eprintln!("{k:4} {} {}{} {}", pt.thread, if pt.preempts { "may go on" } else { "blocks" }, if schedule.iter().any(|d| d.0 as usize == k) { " SWITCH" } else { "" }, pt.at.map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
            }
        }
        if let Some(f) = ran.failure {
            return Err(f);
        }
        if let Some(e) = take_panic() {
            return Err(format!("panic: {e}"));
        }
        let recs: Vec<Vec<Rec>> = recs.iter().map(|r| r.lock().unwrap().clone()).collect();
        for (t, r) in recs.iter().enumerate() {
            if r.len() != p.threads[t].len() {
                return Err(format!("thread {t} ended after {} of {} steps", r.len(), p.threads[t].len()));
            }
        }
        // everything the database answers now
        let mut names: Vec<String> = vec![];
        for s in p.setup.iter().chain(p.threads.iter().flatten().flat_map(|s| match s {
            Step::Auto(s) => vec![s],
            Step::Batch(v) | Step::Tx(v, _) | Step::Left(v) => v.iter().collect(),
            _ => vec![],
        })) {
            if let Some(t) = s.table() {
                if !names.iter().any(|n| n == t) {
                    names.push(t.to_string());
                }
            }
        }
        let contents: Vec<Res> = names.iter().map(|n| run(&db, &format!("SELECT * FROM {n}"))).collect();
        let probes: Vec<Res> = p.probes.iter().map(|q| run(&db, &q.sql(false))).collect();
        let tail: Vec<Res> = p.tail.iter().map(|s| run(&db, &s.sql(false))).collect();
        let contents2: Vec<Res> = names.iter().map(|n| run(&db, &format!("SELECT * FROM {n}"))).collect();
        if let Some(e) = take_panic() {
            return Err(format!("panic afterwards: {e}"));
        }
        sched::finish();
        drop(ManuallyDrop::into_inner(db));
        let mut contents3 = None;
        if p.reopen {
            sched::begin(p.cfg.pool);
            let db = ManuallyDrop::new(Database::open(&path, p.cfg.to()).map_err(|e| format!("cannot be opened again: {e}"))?);
            contents3 = Some(names.iter().map(|n| run(&db, &format!("SELECT * FROM {n}"))).collect::<Vec<_>>());
            sched::finish();
            drop(ManuallyDrop::into_inner(db));
        }
        if let Some(e) = take_panic() {
            return Err(format!("panic at the end: {e}"));
        }
        let all = |v: &[Res], d: &Db, what: &str| -> Result<(), String> {
            for (n, r) in names.iter().zip(v) {
                match (d.tabs.get(n), r) {
                    (None, Res::Err(_)) => {}
                    (None, r) => return Err(format!("{what}, {n} has {}", r.show())),
                    (Some(_), r) => compare(&Eff::Rows(d.query(&Sel::from(tab(n)))?), r).map_err(|e| format!("{what}, {n}: {e}"))?,
                }
            }
            Ok(())
        };
        let fin = |d: &Db| -> Result<(), String> {
            all(&contents, d, "afterwards")?;
            for (q, r) in p.probes.iter().zip(&probes) {
                let Ok(a) = d.query(q) else { continue };
                compare(&Eff::Rows(a), r).map_err(|e| format!("afterwards, {}: {e}", q.sql(false)))?;
            }
            let (mut d, mut n) = (d.clone(), next + 1000);
            for (s, r) in p.tail.iter().zip(&tail) {
                let e = d.exec(s, &mut n);
                compare(&e, r).map_err(|e| format!("afterwards, {}: {e}", brief(&s.sql(false))))?;
            }
            all(&contents2, &d, "after further statements")?;
            if let Some(c) = &contents3 {
                all(c, &d, "opened again")?;
            }
            Ok(())
        };
        let mut s = Search { p, recs: &recs, fin: &fin, why: String::new(), orders: 0 };
        // the refusals have a cause: not everyone is refused
        let ended = |t: usize| recs[t].iter().zip(&p.threads[t]).any(|(r, s)| r.end.is_ok() && (r.res.iter().any(|x| !x.is_err()) || matches!(s, Step::Flush | Step::Vacuum | Step::Analyze)));
        if !p.conflicts.is_empty() && !p.conflicts.iter().any(|(a, b)| ended(*a) || ended(*b)) {
            return Err(format!("all of them are refused: {:?}", recs));
        }
        out.state_of(&format!("{:?}{:?}{:?}", p.name, recs, contents));
        if !s.go(&mut vec![0; p.threads.len()], &m, next) {
            let why = s.why.split_once(": ").map(|x| x.1.to_string()).unwrap_or_default();
            let told: Vec<String> = recs.iter().enumerate().map(|(t, v)| format!("thread {t}: {}", v.iter().map(|r| format!("{}{}", r.res.iter().map(|x| brief(&x.show())).collect::<Vec<_>>().join(", "), r.end.as_ref().err().map(|e| format!(" ({e})")).unwrap_or_default())).collect::<Vec<_>>().join(" | "))).collect();
            return Err(format!("no serial order explains the outcome; the best one fails with {why} [{}]", told.join("; ")));
        }
        Ok((ran.trace, ran.followed))
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
    match r {
        Ok(Ok(t)) => {
            sched::finish();
            drop(ManuallyDrop::into_inner(dir));
            Ok(t)
        }
        Ok(Err(e)) => Err(e),
        Err(p) => Err(match p.downcast_ref::<String>() {
            Some(s) => s.clone(),
            None => format!("panic: {}", take_panic().unwrap_or_default()),
        }),
    }
}

/// Points at which second deviations are explored: outside of the page level.
fn control(p: &sched::Point) -> bool {
    !p.preempts || p.at.is_none_or(|l| !["pager.rs", "frames.rs", "bplustree.rs", "cell_ops.rs", "make_shared.rs"].iter().any(|f| l.file().ends_with(f)))
}

/// The orders in which the threads start.
fn orders(p: &Prog, tier: Tier) -> Vec<Vec<usize>> {
    let n = p.threads.len();
    let told = |k: usize| format!("{:?}", p.threads[k].iter().map(|s| s.told()).collect::<Vec<_>>());
    match (n, tier) {
        (1, _) => vec![vec![0]],
        (2, _) if told(0) == told(1) => vec![vec![0, 1]],
        (2, _) => vec![vec![0, 1], vec![1, 0]],
        (_, Tier::Quick) => (0..n).map(|k| (0..n).map(|x| (k + x) % n).collect()).collect(),
        _ => vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]],
    }
}
const PARTS: usize = 16;
fn explore(p: &Prog, order: &[usize], schedule: Vec<(u32, u8)>, part: Option<usize>, out: &mut Out, spec: &Value) {
    out.traces += 1;
    out.step();
    let mut tries = 0;
    let trace = match std::iter::repeat_with(|| execute(p, order, &schedule, out)).find(|r| {
        // the order of a hash table's entries differs from run to run
        tries += 1;
        !matches!(r, Ok((_, false))) || tries == 20
    }) {
        Some(Ok((t, followed))) => {
            if !followed {
                out.count("schedules that could not be followed to the end", 1);
            }
            t
        }
        None => unreachable!(),
        Some(Err(e)) if p.known.is_some() && e.starts_with("no serial order") => {
            out.known(p.known.unwrap(), format!("[{}] {e}", p.name));
            return;
        }
        Some(Err(e)) => {
            let mut h = spec.clone();
            h["schedule"] = json!(schedule);
            out.violation(format!("[{}] threads start in the order {order:?}, schedule {schedule:?} => {e}", p.name), h);
            return;
        }
    };
    if std::env::var("AXV_TRACE").is_ok() {
        eprintln!("{} {:?}: {} points, {} control", p.name, schedule, trace.len(), trace.iter().filter(|p| control(p)).count());
        let mut sites = std::collections::BTreeMap::new();
        for t in &trace {
            *sites.entry(t.at.map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()).or_insert(0) += 1;
        }
        if schedule.is_empty() {
            eprintln!("{sites:#?}");
        }
    }
    out.transitions += trace.len() as u64;
    if schedule.len() == p.delays {
        return;
    }
    let from = schedule.last().map_or(0, |d| d.0 as usize + 1);
    for (k, pt) in trace.iter().enumerate().skip(from) {
        if !schedule.is_empty() && !control(pt) {
            continue;
        }
        if part.is_some_and(|x| k % PARTS != x) {
            continue;
        }
        for c in 1..=pt.others {
            let mut s = schedule.clone();
            s.push((k as u32, c));
            explore(p, order, s, None, out, spec);
            if out.violations.len() >= 3 {
                return;
            }
        }
    }
}

fn programs(tier: Tier) -> Vec<Prog> {
    let t = || create("t", &[("a", "INT"), ("b", "INT")], &["a"], &[]);
    let rows = || inn("t", &[&[1, 10], &[2, 20]]);
    let mut v = vec![];
    let all = || St::Q(Sel::from(tab("t")));
    let tail = || vec![inn("t", &[&[77, 7]]), del("t", Some(eq(col("a"), n(77))))];
    let a = |s: St| vec![Step::Auto(s)];
    let tx = |v: Vec<St>| vec![Step::Tx(v, true)];
    let prog = |name: &str, threads: Vec<Vec<Step>>, conflicts: &[(usize, usize)]| Prog {
        name: name.to_string(),
        cfg: CFG,
        setup: vec![t(), rows()],
        threads,
        conflicts: conflicts.to_vec(),
        probes: crate::hist::by("t", "a", &[1, 2, 3, 4]),
        tail: tail(),
        delays: 2,
        reopen: false,
        known: None,
    };
    let one = |k: i128| del("t", Some(eq(col("a"), n(k))));
    let set = |k: i128, b: i128| upd("t", "b", n(b), Some(eq(col("a"), n(k))));
    let wide = |from: i128, count: i128, len: usize| {
        let rows: Vec<Vec<V>> = (from..from + count).map(|a| vec![i(a), s(&"y".repeat(len))]).collect();
        let refs: Vec<&[V]> = rows.iter().map(|r| &r[..]).collect();
        ins("t", &refs)
    };
    // two statements
    let pairs: Vec<(&str, St, St, bool)> = vec![
        ("insert, insert", inn("t", &[&[3, 30]]), inn("t", &[&[4, 40]]), false),
        ("insert, insert of the same key", inn("t", &[&[3, 30]]), inn("t", &[&[3, 40]]), true),
        ("insert, select", inn("t", &[&[3, 30], &[4, 40]]), all(), false),
        ("delete, delete of the same row", one(1), one(1), true),
        ("delete, delete", one(1), one(2), false),
        ("delete, select", del("t", None), all(), false),
        ("delete, insert of the same key", one(1), inn("t", &[&[1, 11]]), true),
        ("update, update of the same row", upd("t", "b", bin(col("b"), "+", n(1)), Some(eq(col("a"), n(1)))), upd("t", "b", bin(col("b"), "+", n(5)), Some(eq(col("a"), n(1)))), true),
        ("update, update", set(1, 11), set(2, 22), false),
        ("update, insert", set(1, 11), inn("t", &[&[3, 30]]), false),
        ("update, delete of the same row", set(1, 11), one(1), true),
        ("create table, create table of the same name", create("n", &[("a", "INT"), ("b", "INT")], &["a"], &[]), create("n", &[("a", "INT"), ("b", "INT")], &[], &[]), true),
        ("create table, create table", create("n", &[("a", "INT"), ("b", "INT")], &["a"], &[]), create("m", &[("a", "INT"), ("b", "INT")], &[], &[]), true),
        ("create table, insert", create("n", &[("a", "INT"), ("b", "INT")], &["a"], &[]), inn("t", &[&[3, 30]]), false),
        ("create table, select", create("n", &[("a", "INT"), ("b", "INT")], &["a"], &[]), all(), false),
        ("create index, insert", index("i", "t", &["b"]), inn("t", &[&[3, 20]]), true),
        ("create index, select", index("i", "t", &["b"]), all(), false),
        ("drop table, insert", St::Drop("t".into()), inn("t", &[&[3, 30]]), true),
        ("drop table, select", St::Drop("t".into()), all(), true),
        ("alter table, insert", St::Alter("t".into(), Alt::Add(cdef("c", "INT", i(5)))), St::Ins("t".into(), Some(vec!["a".into(), "b".into()]), vec![vec![n(3), n(30)]]), true),
        ("alter table, select", St::Alter("t".into(), Alt::Add(cdef("c", "INT", i(5)))), all(), true),
        ("insert, join", inn("t", &[&[3, 30]]), St::Q(Sel::from(join(tab_as("t", "x"), "JOIN", tab_as("t", "y"), Some(eq(col("x.a"), col("y.a")))))), false),
    ];
    for (name, x, y, c) in pairs {
        let conflicts: &[(usize, usize)] = if c { &[(0, 1)] } else { &[] };
        for pool in [2, 1] {
            let mut p = prog(&format!("{name}, {pool} workers"), vec![a(x.clone()), a(y.clone())], conflicts);
            p.cfg.pool = pool;
            p.delays = if pool == 1 { 1 } else { tier.pick(2, 3) };
            if matches!(y, St::Drop(_)) || name.starts_with("drop") {
                p.tail = vec![];
            }
            if name.starts_with("alter") {
                p.tail = vec![];
            }
            v.push(p);
        }
    }
    // three threads
    let three: Vec<(&str, Vec<Vec<Step>>, &[(usize, usize)])> = vec![
        ("three inserts", vec![a(inn("t", &[&[3, 30]])), a(inn("t", &[&[4, 40]])), a(inn("t", &[&[5, 50]]))], &[]),
        ("two inserts of a key, and a reader", vec![a(inn("t", &[&[3, 30]])), a(inn("t", &[&[3, 40]])), a(all())], &[(0, 1)]),
        ("insert, delete, reader", vec![a(inn("t", &[&[3, 30]])), a(one(1)), a(all())], &[]),
        ("three readers", vec![a(all()), a(all()), a(all())], &[]),
        ("update, delete, insert of one key", vec![a(set(1, 11)), a(one(1)), a(inn("t", &[&[1, 12]]))], &[(0, 1), (0, 2), (1, 2)]),
        ("create table, insert, reader", vec![a(create("n", &[("a", "INT")], &["a"], &[])), a(inn("t", &[&[3, 30]])), a(all())], &[]),
    ];
    for (name, threads, c) in three {
        for pool in [3, 2] {
            let mut p = prog(&format!("{name}, {pool} workers"), threads.clone(), c);
            p.cfg.pool = pool;
            p.delays = if pool == 3 { tier.pick(1, 2) } else { 1 };
            v.push(p);
        }
    }
    // sessions
    let ses: Vec<(&str, Vec<Vec<Step>>, &[(usize, usize)])> = vec![
        ("session that writes, reader", vec![tx(vec![inn("t", &[&[3, 30]]), one(1)]), a(all())], &[]),
        ("session that writes, reading session", vec![tx(vec![inn("t", &[&[3, 30]]), one(1)]), tx(vec![all(), all()])], &[]),
        ("session rolled back, reader", vec![vec![Step::Tx(vec![inn("t", &[&[3, 30]]), one(1)], false)], a(all())], &[]),
        ("session left, insert of its key", vec![vec![Step::Left(vec![inn("t", &[&[3, 30]])])], a(inn("t", &[&[3, 31]]))], &[(0, 1)]),
        ("two sessions of one key", vec![tx(vec![inn("t", &[&[3, 30], &[4, 40]])]), tx(vec![inn("t", &[&[4, 41], &[5, 50]])])], &[(0, 1)]),
        ("two sessions that delete crosswise", vec![tx(vec![one(1), one(2)]), tx(vec![one(2), one(1)])], &[(0, 1)]),
        ("session, insert", vec![tx(vec![inn("t", &[&[3, 30]]), inn("t", &[&[5, 50]])]), a(inn("t", &[&[4, 40]]))], &[]),
        ("session that creates a table, reader", vec![tx(vec![create("n", &[("a", "INT"), ("b", "INT")], &["a"], &[]), inn("n", &[&[1, 1]])]), a(all())], &[]),
        ("batch, batch", vec![vec![Step::Batch(vec![inn("t", &[&[3, 30]]), inn("t", &[&[4, 40]])])], vec![Step::Batch(vec![inn("t", &[&[5, 50]]), one(1)])]], &[]),
        ("batch that fails, reader", vec![vec![Step::Batch(vec![inn("t", &[&[3, 30]]), inn("t", &[&[1, 40]])])], a(all())], &[]),
        ("writes and reads in turn", vec![vec![Step::Auto(inn("t", &[&[3, 30]])), Step::Auto(all())], vec![Step::Auto(one(1)), Step::Auto(all())]], &[]),
    ];
    for (name, threads, c) in ses {
        for pool in [2, 1] {
            let mut p = prog(&format!("{name}, {pool} workers"), threads.clone(), c);
            p.cfg.pool = pool;
            p.delays = if pool == 2 { tier.pick(1, 2) } else { 1 };
            v.push(p);
        }
    }
    // what snapshots and updates in place allow
    let open: Vec<(&str, &'static str, Vec<Vec<Step>>)> = vec![
        ("two sessions that read the table and delete a row each", "KF-WRITE-SKEW", vec![tx(vec![all(), one(1)]), tx(vec![all(), one(2)])]),
        ("session rolled back after an update, reader", "KF-UPDATE-IN-PLACE", vec![vec![Step::Tx(vec![set(1, 11)], false)], a(all())]),
    ];
    for (name, id, threads) in open {
        let mut p = prog(name, threads, &[]);
        p.delays = 1;
        p.known = Some(id);
        v.push(p);
    }
    // administrative calls
    let adm: Vec<(&str, Step, Vec<Step>, bool)> = vec![
        ("flush, insert", Step::Flush, a(inn("t", &[&[3, 30]])), false),
        ("flush, select", Step::Flush, a(all()), false),
        ("flush, session", Step::Flush, tx(vec![inn("t", &[&[3, 30]]), one(1)]), false),
        ("analyze, insert", Step::Analyze, a(inn("t", &[&[3, 30]])), false),
        ("analyze, select", Step::Analyze, a(all()), false),
        ("analyze, analyze", Step::Analyze, vec![Step::Analyze], false),
        ("vacuum, insert", Step::Vacuum, a(inn("t", &[&[3, 30]])), true),
        ("vacuum, select", Step::Vacuum, a(all()), true),
        ("vacuum, delete", Step::Vacuum, a(one(1)), true),
        ("vacuum, session", Step::Vacuum, tx(vec![inn("t", &[&[3, 30]]), one(1)]), true),
        ("vacuum, vacuum", Step::Vacuum, vec![Step::Vacuum], false),
        ("vacuum, create table", Step::Vacuum, a(create("n", &[("a", "INT"), ("b", "INT")], &["a"], &[])), true),
        ("flush, flush", Step::Flush, vec![Step::Flush], false),
    ];
    for (name, x, y, c) in adm {
        let conflicts: &[(usize, usize)] = if c { &[(0, 1)] } else { &[] };
        let mut p = prog(name, vec![vec![x], y], conflicts);
        p.setup.push(one(2));
        p.delays = tier.pick(1, 2);
        p.reopen = true;
        v.push(p);
    }
    // page splits and merges, overflow pages, evictions
    let wt = || create("t", &[("a", "INT"), ("b", "TEXT")], &["a"], &[]);
    let cfgs = [(CFG, "large cache"), (Cfg { cache: 24, ..CFG }, "small cache")];
    let big: Vec<(&str, Vec<St>, Vec<Vec<Step>>, &[(usize, usize)])> = vec![
        ("inserts that split, reader", vec![wide(0, 6, 500)], vec![a(wide(10, 6, 500)), a(all())], &[]),
        ("inserts that split, inserts that split", vec![wide(0, 6, 500)], vec![a(wide(10, 6, 500)), a(wide(20, 6, 500))], &[]),
        ("inserts that split, deletes that merge", vec![wide(0, 20, 500)], vec![a(wide(30, 6, 500)), a(del("t", Some(bin(col("a"), "<", n(14)))))], &[]),
        ("deletes that merge, reader", vec![wide(0, 20, 500)], vec![a(del("t", Some(bin(col("a"), "<", n(14))))), a(all())], &[]),
        ("long texts, reader", vec![wide(0, 2, 9000)], vec![a(wide(10, 1, 9000)), a(all())], &[]),
        ("long texts, deletes of long texts", vec![wide(0, 3, 9000)], vec![a(wide(10, 1, 9000)), a(del("t", Some(bin(col("a"), "<", n(2)))))], &[]),
        ("vacuum, inserts that split", vec![wide(0, 20, 500), del("t", Some(bin(col("a"), "<", n(14))))], vec![vec![Step::Vacuum], a(wide(30, 6, 500))], &[(0, 1)]),
        ("vacuum, reader", vec![wide(0, 20, 500), del("t", Some(bin(col("a"), "<", n(14))))], vec![vec![Step::Vacuum], a(all())], &[(0, 1)]),
        ("flush, inserts that split", vec![wide(0, 6, 500)], vec![vec![Step::Flush], a(wide(30, 6, 500))], &[]),
        ("create index, inserts", vec![wide(0, 12, 500)], vec![a(index("i", "t", &["b"])), a(wide(30, 3, 500))], &[(0, 1)]),
    ];
    for (name, setup, threads, c) in big {
        for (cfg, what) in cfgs {
            let mut p = prog(&format!("{name}, {what}"), threads.clone(), c);
            p.cfg = cfg;
            p.setup = vec![wt()];
            p.setup.extend(setup.clone());
            p.tail = vec![ins("t", &[&[i(77), s("x")]]), del("t", Some(eq(col("a"), n(77))))];
            p.delays = 1;
            p.reopen = true;
            v.push(p);
        }
    }
    v
}

pub struct C14;
impl Check for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn items(&self, tier: Tier) -> Vec<Value> {
        let mut v = vec![];
        for (k, p) in programs(tier).iter().enumerate() {
            for o in orders(p, tier) {
                for x in 0..PARTS {
                    v.push(json!({"program": k, "name": p.name, "order": o, "part": x}));
                }
            }
        }
        v
    }
    fn run(&self, tier: Tier, spec: &Value, out: &mut Out) {
        let ps = programs(tier);
        let p = &ps[spec["program"].as_u64().unwrap() as usize];
        let order: Vec<usize> = spec["order"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        if let Some(s) = spec["schedule"].as_array() {
            let s = s.iter().map(|d| (d[0].as_u64().unwrap() as u32, d[1].as_u64().unwrap() as u8)).collect::<Vec<_>>();
            out.step();
            if let Err(e) = execute(p, &order, &s, out) {
                out.violation(format!("[{}] threads start in the order {order:?}, schedule {s:?} => {e}", p.name), spec.clone());
            }
            return;
        }
        explore(p, &order, vec![], Some(spec["part"].as_u64().unwrap() as usize), out, spec);
    }
    fn bounds(&self, tier: Tier) -> String {
        programs(tier).iter().map(|p| format!("{}: {} threads, {} deviations", p.name, p.threads.len(), p.delays)).collect::<Vec<_>>().join("; ")
    }
    fn item_timeout(&self, tier: Tier) -> Duration {
        Duration::from_secs(tier.pick(400, 3000))
    }
}
#[allow(dead_code)]
fn unused(_: Eng) {}
