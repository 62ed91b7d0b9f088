//! Exhaustive crash exploration.
//!
//! Every history of a plan is executed with every write, truncation and creation of a database file
//! recorded. For each prefix of that stream the files are rebuilt as they would have been found
//! after a crash at that instant and the database is opened on them. The contents have to be those
//! of the acknowledged transactions, or those plus the one transaction that was being committed.
//! Crashes inside the recovery are enumerated the same way.

use crate::fw::*;
use crate::hist::*;
use crate::sqlm::*;
use crate::tap::{self, Ev};
use axmosdb::Database;
use serde_json::{Value, json};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::os::unix::fs::FileExt;

pub struct CPlan {
    pub plan: Plan,
    /// checkpoint after the setup
    pub flushed: bool,
    /// crashes inside recoveries: how often in a row
    pub nested: usize,
    /// configuration with which the crashed database is opened
    pub reopen: Cfg,
    /// crash at every write of this one history instead of exploring all of them
    pub chain: Option<Vec<usize>>,
}

/// The database files on disk.
#[derive(Clone, Default)]
pub struct Image {
    files: BTreeMap<String, Vec<u8>>,
}
impl Image {
    /// Applies one recorded event; true if the files changed.
    fn apply(&mut self, e: &Ev) -> bool {
        let name = |p: &std::path::PathBuf| p.file_name().unwrap().to_string_lossy().to_string();
        match e {
            Ev::Create(p) => {
                self.files.insert(name(p), vec![]);
            }
            Ev::Write(p, off, b) => {
                let f = self.files.entry(name(p)).or_default();
                let end = *off as usize + b.len();
                if f.len() < end {
                    f.resize(end, 0);
                } else if f[*off as usize..end] == b[..] {
                    return false;
                }
                f[*off as usize..end].copy_from_slice(b);
            }
            Ev::SetLen(p, n) => {
                let f = self.files.entry(name(p)).or_default();
                if f.len() == *n as usize {
                    return false;
                }
                f.resize(*n as usize, 0);
            }
            Ev::Sync(_) | Ev::Mark(_) => return false,
        }
        true
    }
    fn write_to(&self, dir: &std::path::Path) {
        for (n, b) in &self.files {
            let f = std::fs::File::create(dir.join(n)).unwrap();
            f.write_all_at(b, 0).unwrap();
        }
    }
}
thread_local! {
    static SEEN: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    /// the last history executed ended with an operation after which only a crash may follow
    static LEAF: Cell<bool> = const { Cell::new(false) };
}

/// Reads every table of the model; the answers, not yet judged.
fn contents(db: &Database, names: &BTreeSet<String>) -> BTreeMap<String, Res> {
    names.iter().map(|n| (n.clone(), run(db, &format!("SELECT * FROM {n}")))).collect()
}
fn matches(view: &Db, got: &BTreeMap<String, Res>) -> Result<(), String> {
    for (n, r) in got {
        match (view.tabs.get(n), r) {
            (None, Res::Err(_)) => {}
            (None, r) => return Err(format!("{n} has {} although the table does not exist", r.show())),
            (Some(_), r) => {
                let a = view.query(&Sel::from(tab(n)))?;
                compare(&Eff::Rows(a), r).map_err(|e| format!("SELECT * FROM {n}: {e}"))?;
            }
        }
    }
    Ok(())
}

struct Ctx<'a> {
    p: &'a CPlan,
    names: &'a BTreeSet<String>,
    stale: &'a BTreeSet<String>,
    next: u64,
}
/// Opens the image; `allowed` are the states the contents may be in. Returns which it was.
fn check(c: &Ctx, img: &Image, allowed: &[Db], depth: usize, out: &mut Out) -> Result<(), String> {
    let key = hash_of(&(&img.files, allowed, depth));
    if !SEEN.with(|s| s.borrow_mut().insert(key)) {
        return Ok(());
    }
    out.state(key);
    out.step();
    let dir = Scratch::new();
    img.write_to(dir.path());
    let path = dir.path().join("d.db");
    tap::record();
    take_panic();
    let db = match guarded(|| Database::open(&path, c.p.reopen.to())) {
        Err(e) => return Err(format!("opening panics: {e}")),
        Ok(Err(e)) => return Err(format!("cannot be opened: {e}")),
        Ok(Ok(db)) => db,
    };
    let evs = tap::take();
    tap::reset();
    if let Some(p) = take_panic() {
        return Err(format!("opening panics: {p}"));
    }
    let got = contents(&db, c.names);
    let mut errs = vec![];
    let mut state = None;
    for a in allowed {
        match matches(a, &got) {
            Ok(()) => {
                state = Some(a.clone());
                break;
            }
            Err(e) => errs.push(e),
        }
    }
    let Some(state) = state else {
        return Err(errs.pop().unwrap());
    };
    let probe = |db: &Database, s: &Db, what: &str| -> Result<(), String> {
        if c.stale.is_empty() {
            for q in &c.p.plan.probes {
                let Ok(a) = s.query(q) else { continue };
                compare(&Eff::Rows(a), &run(db, &q.sql(false))).map_err(|e| format!("{what}, {}: {e}", q.sql(false)))?;
            }
        }
        Ok(())
    };
    probe(&db, &state, "recovered")?;
    let sound = |db: &Database, what: &str| if c.p.plan.audit { audited(db).map(|_| ()).map_err(|e| format!("{what}: {e}")) } else { Ok(()) };
    sound(&db, "recovered")?;
    // it can be used
    let mut now = state.clone();
    let mut next = c.next + 1000;
    for s in &c.p.plan.tail {
        let e = now.exec(s, &mut next);
        compare(&e, &run(&db, &s.sql(false))).map_err(|e| format!("after the recovery, {}: {e}", brief(&s.sql(false))))?;
    }
    matches(&now, &contents(&db, c.names)).map_err(|e| format!("after the recovery and further statements: {e}"))?;
    sound(&db, "after the recovery and further statements")?;
    if let Err(e) = guarded(|| drop(db)) {
        return Err(format!("closing after the recovery: {e}"));
    }
    match guarded(|| Database::open(&path, c.p.reopen.to())) {
        Err(e) => return Err(format!("opening once more panics: {e}")),
        Ok(Err(e)) => return Err(format!("cannot be opened once more: {e}")),
        Ok(Ok(db)) => {
            matches(&now, &contents(&db, c.names)).map_err(|e| format!("opened once more: {e}"))?;
            probe(&db, &now, "opened once more")?;
            if c.p.plan.audit {
                sound(&db, "opened once more")?;
                db.vacuum().map_err(|e| format!("opened once more, VACUUM: {e}"))?;
                sound(&db, "opened once more, after VACUUM")?;
                matches(&now, &contents(&db, c.names)).map_err(|e| format!("opened once more, after VACUUM: {e}"))?;
            }
        }
    }
    if let Some(p) = take_panic() {
        return Err(format!("panic: {p}"));
    }
    drop(dir);
    if depth > 0 {
        let mut img2 = img.clone();
        for (k, e) in evs.iter().enumerate() {
            if img2.apply(e) {
                check(c, &img2, std::slice::from_ref(&state), depth - 1, out).map_err(|e| format!("recovery interrupted after {} of its {} writes: {e}", k + 1, evs.len()))?;
            }
        }
    }
    Ok(())
}

pub fn execute(p: &CPlan, path: &[usize], out: &mut Out) -> Result<End, String> {
    tap::record();
    let mut eng = Eng::new(p.plan.cfg)?;
    let r = inner(p, path, &mut eng, out);
    tap::reset();
    r
}
fn inner(cp: &CPlan, path: &[usize], eng: &mut Eng, out: &mut Out) -> Result<End, String> {
    let p = &cp.plan;
    let mut m = M::fresh();
    eng.ses.resize_with(4, || None);
    let names: BTreeSet<String> = p.stmts.iter().chain(&p.setup).chain(&p.tail).filter_map(|s| s.table().map(|t| t.to_string())).collect();
    for s in &p.setup {
        let e = m.com.exec(s, &mut m.next);
        compare(&e, &run(eng.db(), &s.sql(false))).map_err(|e| format!("setup {}: {e}", brief(&s.sql(false))))?;
    }
    if cp.flushed {
        eng.db().flush().map_err(|e| e.to_string())?;
    }
    let mut img = Image::default();
    for e in tap::take() {
        img.apply(&e);
    }
    for (k, oi) in path.iter().enumerate() {
        let op = &p.ops[*oi];
        let last = k + 1 == path.len();
        LEAF.set(last && m.last_only(op));
        if !m.enabled(p, op) && !(last && m.last_only(op)) {
            if cp.chain.is_some() {
                out.count("operations of long histories left out", 1);
                continue;
            }
            return Ok(End::Pruned);
        }
        if matches!(op, Op::Crash) {
            tap::reset();
            eng.close();
            eng.ses.resize_with(4, || None);
            eng.dir = Scratch::new();
            img.write_to(eng.dir.path());
            m.crashed();
            tap::record();
            eng.open(cp.reopen).map_err(|e| format!("after the crash: {e}"))?;
            for e in tap::take() {
                img.apply(&e);
            }
            continue;
        }
        let before = m.com.clone();
        if !step(p, op, &mut m, eng).map_err(|e| format!("{}: {e}", p.op_text(op)))? {
            return Ok(End::Pruned);
        }
        let evs = tap::take();
        if !last && cp.chain.is_none() {
            for e in &evs {
                img.apply(e);
            }
            continue;
        }
        // the last operation: a crash before each of its writes was decided by shorter histories
        tap::reset();
        let stale = m.stale();
        let c = Ctx { p: cp, names: &names, stale: &stale, next: m.next };
        let both = if before.tabs == m.com.tabs { vec![m.com.clone()] } else { vec![before.clone(), m.com.clone()] };
        let n = evs.len();
        for (k, e) in evs.iter().enumerate() {
            if img.apply(e) {
                check(&c, &img, &both, cp.nested, out).map_err(|e| format!("crash after {} of {n} writes of the last operation: {e}", k + 1))?;
            }
        }
        check(&c, &img, &[m.com.clone()], cp.nested, out).map_err(|e| format!("crash after the last operation: {e}"))?;
        tap::record();
    }
    out.transitions += path.len() as u64;
    Ok(End::Done(m))
}

pub fn explore(p: &CPlan, path: &mut Vec<usize>, out: &mut Out, hist: &dyn Fn(&[usize]) -> Value) {
    out.traces += 1;
    match guarded(|| execute(p, path, out)).unwrap_or_else(Err) {
        Err(e) => {
            tap::reset();
            out.violation(format!("[{}] {} => {e}", p.plan.name, path.iter().map(|o| p.plan.op_text(&p.plan.ops[*o])).collect::<Vec<_>>().join(" | ")), hist(path));
        }
        Ok(End::Pruned) => out.traces -= 1,
        Ok(End::Done(m)) => {
            if path.len() == p.plan.depth {
                out.sample(json!({"plan": p.plan.name, "history": path.iter().map(|o| p.plan.op_text(&p.plan.ops[*o])).collect::<Vec<_>>()}));
            } else {
                if path.last().is_some_and(|o| matches!(p.plan.ops[*o], Op::Roll(_) | Op::Kill(_))) && LEAF.get() {
                    return;
                }
                for o in 0..p.plan.ops.len() {
                    let op = &p.plan.ops[o];
                    if m.enabled(&p.plan, op) || m.last_only(op) {
                        path.push(o);
                        explore(p, path, out, hist);
                        path.pop();
                    }
                }
            }
        }
    }
}
/// Items: one per pair of first operations, one per first operation alone.
pub fn items(plans: &[CPlan]) -> Vec<Value> {
    let mut v = vec![];
    for (k, p) in plans.iter().enumerate() {
        if let Some(chain) = &p.chain {
            v.push(json!({"plan": k, "name": p.plan.name, "path": chain, "deep": false}));
            continue;
        }
        for a in 0..p.plan.ops.len() {
            v.push(json!({"plan": k, "name": p.plan.name, "path": [a], "deep": false}));
            for b in 0..p.plan.ops.len() {
                v.push(json!({"plan": k, "name": p.plan.name, "path": [a, b], "deep": true}));
            }
        }
    }
    v
}
fn clone_plan(q: &Plan) -> Plan {
    Plan { name: q.name.clone(), setup: q.setup.clone(), stmts: q.stmts.clone(), ops: q.ops.clone(), probes: q.probes.clone(), tail: q.tail.clone(), ..*q }
}
pub fn run_item(plans: &[CPlan], spec: &Value, out: &mut Out) {
    let p = &plans[spec["plan"].as_u64().unwrap() as usize];
    let mut path: Vec<usize> = spec["path"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let (plan, name) = (spec["plan"].clone(), p.plan.name.clone());
    let hist = move |path: &[usize]| json!({"plan": plan, "name": name, "path": path, "deep": false});
    if spec["deep"] == true {
        explore(p, &mut path, out, &hist);
        return;
    }
    let depth = path.len();
    let chain = p.chain.as_ref().map(|_| vec![]);
    let limited = CPlan { plan: Plan { depth, ..clone_plan(&p.plan) }, chain, ..*p };
    explore(&limited, &mut path, out, &hist);
}

#[macro_export]
macro_rules! crash_check {
    ($t:ident, $id:expr, $plans:expr, $known:expr) => {
        pub struct $t;
        impl $crate::fw::Check for $t {
            fn id(&self) -> &'static str {
                $id
            }
            fn items(&self, tier: $crate::fw::Tier) -> Vec<serde_json::Value> {
                let mut v = $crate::crash::items(&$plans(tier));
                v.push(serde_json::json!({"known": true}));
                v
            }
            fn run(&self, tier: $crate::fw::Tier, spec: &serde_json::Value, out: &mut $crate::fw::Out) {
                if spec["known"] == true {
                    $known(out);
                    return;
                }
                $crate::crash::run_item(&$plans(tier), spec, out)
            }
            fn bounds(&self, tier: $crate::fw::Tier) -> String {
                let plans = $plans(tier);
                format!(
                    "every history over these alphabets up to the stated length, a crash after each write or truncation of each operation, and after each write of the recovery (nested to the stated depth): {}",
                    plans.iter().map(|p| format!("{}: {} operations, depth {}, {} crashes inside recoveries", p.plan.name, p.plan.ops.len(), p.plan.depth, p.nested)).collect::<Vec<_>>().join("; ")
                )
            }
        }
    };
}
