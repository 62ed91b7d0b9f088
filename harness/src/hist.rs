//! Exhaustive enumeration of statement histories over one or more sessions.
//!
//! A plan is an alphabet of operations (autocommit statements, statements in sessions, BEGIN,
//! COMMIT, ROLLBACK, dropping a session, batches, VACUUM, ANALYZE, close/reopen). Every history up
//! to the stated depth is executed on a fresh database by the real engine, in step with a model of
//! snapshot isolation; every statement's outcome is compared, and after the history all contents
//! are read back through every open session and through fresh transactions, before and after all
//! sessions are dropped, and (if the plan says so) after VACUUM and after close/reopen.

use crate::fw::*;
use crate::sqlm::*;
use axmosdb::Database;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Auto(usize),
    Batch(Vec<usize>),
    Begin(usize),
    In(usize, usize),
    Commit(usize),
    Roll(usize),
    Kill(usize),
    Vacuum,
    Analyze,
    Flush,
    Reopen(Cfg),
    /// the process dies and the database is opened again (crash.rs only)
    Crash,
}
pub struct Plan {
    pub name: String,
    pub cfg: Cfg,
    pub setup: Vec<St>,
    pub stmts: Vec<St>,
    pub ops: Vec<Op>,
    pub depth: usize,
    /// evaluated in every view at the end
    pub probes: Vec<Sel>,
    pub end_vacuum: bool,
    pub end_reopen: Option<Cfg>,
    /// further statements executed after everything else (row ids / names still usable)
    pub tail: Vec<St>,
    /// at most this many operations of the history may be Vacuum / Reopen / Analyze / Flush
    pub max_admin: usize,
    /// read everything after every step instead of only at the end
    pub read_always: bool,
    /// statements may be refused (without effect) because the cache cannot hold one operation
    pub oom: bool,
    /// audit the whole file after the last operation and after everything that follows (C11)
    pub audit: bool,
}
/// The one error a small cache may cause.
pub fn is_oom(r: &Res) -> bool {
    matches!(r, Res::Err(e) if e.contains("Buffer pool got out of memory for new frames"))
}
impl Plan {
    pub fn new(name: &str, setup: Vec<St>, stmts: Vec<St>, ops: Vec<Op>, depth: usize) -> Plan {
        Plan { name: name.into(), cfg: CFG, setup, stmts, ops, depth, probes: vec![], end_vacuum: false, end_reopen: None, tail: vec![], max_admin: 2, read_always: false, oom: false, audit: false }
    }
    pub fn op_text(&self, o: &Op) -> String {
        let q = |i: &usize| brief(&self.stmts[*i].sql(false));
        match o {
            Op::Auto(i) => q(i),
            Op::Batch(v) => format!("BATCH [{}]", v.iter().map(q).collect::<Vec<_>>().join("; ")),
            Op::Begin(s) => format!("s{s}: BEGIN"),
            Op::In(s, i) => format!("s{s}: {}", q(i)),
            Op::Commit(s) => format!("s{s}: COMMIT"),
            Op::Roll(s) => format!("s{s}: ROLLBACK"),
            Op::Kill(s) => format!("s{s}: session dropped"),
            Op::Vacuum => "VACUUM".into(),
            Op::Analyze => "ANALYZE".into(),
            Op::Flush => "FLUSH".into(),
            Op::Reopen(c) => format!("close, open with {c:?}"),
            Op::Crash => "CRASH, open".into(),
        }
    }
}

type Touch = (u64, u64);
#[derive(Clone)]
struct Txn {
    base: Db,
    view: Db,
    start: u64,
    dead: bool,
}
#[derive(Clone, Default)]
pub struct M {
    pub com: Db,
    pub next: u64,
    seq: u64,
    ses: Vec<Option<Txn>>,
    begun: usize,
    admin: usize,
    /// commits: sequence number, rows changed, rows added, tables changed
    log: Vec<(u64, BTreeSet<Touch>, Vec<(u64, u64, Row)>, BTreeSet<String>)>,
    /// an UPDATE is in flight in this session: only its COMMIT or further statements may follow
    pend: Option<usize>,
    /// tables whose indexes an UPDATE has left behind (KF-INDEX-UPDATE)
    stale: BTreeSet<String>,
}
/// What may happen in the engine
enum Want {
    /// the effect, and whether a conflict error is also acceptable
    Eff(Eff, bool),
    /// BEGIN / COMMIT / ... : true = must succeed, None = either
    Ok(Option<bool>),
}

fn changed(a: &Db, b: &Db) -> BTreeSet<Touch> {
    let mut out = BTreeSet::new();
    for t in a.tabs.values() {
        if let Some(u) = b.tabs.values().find(|u| u.id == t.id) {
            for (r, row) in &t.rows {
                if u.rows.get(r) != Some(row) {
                    out.insert((t.id, *r));
                }
            }
        }
    }
    out
}
fn added(a: &Db, b: &Db) -> Vec<(u64, u64, Row)> {
    let mut out = vec![];
    for t in b.tabs.values() {
        let old = a.tabs.values().find(|u| u.id == t.id);
        for (r, row) in &t.rows {
            if old.is_none_or(|o| o.rows.get(r) != Some(row)) {
                out.push((t.id, *r, row.clone()));
            }
        }
    }
    out
}
fn shape(t: &Tab) -> (u64, u64, &Vec<Col>, &Vec<(String, Vec<usize>)>) {
    (t.id, t.ver, &t.cols, &t.uniq)
}
/// Tables created, dropped or altered between two states.
fn reshaped(a: &Db, b: &Db) -> BTreeSet<String> {
    let names: BTreeSet<&String> = a.tabs.keys().chain(b.tabs.keys()).collect();
    names.into_iter().filter(|n| a.tabs.get(*n).map(shape) != b.tabs.get(*n).map(shape)).cloned().collect()
}
fn merge(com: &mut Db, base: &Db, view: &Db) {
    for n in reshaped(base, view) {
        match view.tabs.get(&n) {
            None => {
                com.tabs.remove(&n);
            }
            Some(t) => match com.tabs.get_mut(&n) {
                Some(c) if c.id == t.id => {
                    if c.cols != t.cols {
                        // ALTER gave all rows a new shape.
                        c.rows = t.rows.clone();
                    }
                    c.cols = t.cols.clone();
                    c.ver = t.ver;
                    c.uniq = t.uniq.clone();
                }
                _ => {
                    com.tabs.insert(n.clone(), t.clone());
                }
            },
        }
    }
    for (n, t) in &view.tabs {
        let Some(c) = com.tabs.get_mut(n).filter(|c| c.id == t.id) else { continue };
        let none = BTreeMap::new();
        let b = base.tabs.values().find(|b| b.id == t.id).map(|b| &b.rows).unwrap_or(&none);
        for (r, row) in &t.rows {
            if b.get(r) != Some(row) {
                c.rows.insert(*r, row.clone());
            }
        }
        for r in b.keys() {
            if !t.rows.contains_key(r) {
                c.rows.remove(r);
            }
        }
    }
}

impl M {
    pub fn fresh() -> M {
        let mut m = M::default();
        m.ses.resize_with(4, || None);
        m
    }
    pub fn stale(&self) -> BTreeSet<String> {
        self.stale.clone()
    }
    /// All sessions end without a commit.
    pub fn crashed(&mut self) {
        self.admin += 1;
        self.pend = None;
        for s in self.ses.iter_mut() {
            *s = None;
        }
    }
    /// The end of a transaction after which only a crash may follow.
    pub fn last_only(&self, o: &Op) -> bool {
        matches!((self.pend, o), (Some(s), Op::Roll(x) | Op::Kill(x)) if s == *x)
    }
    fn others(&self, me: Option<usize>) -> impl Iterator<Item = &Txn> {
        self.ses.iter().enumerate().filter(move |(k, _)| Some(*k) != me).filter_map(|(_, t)| t.as_ref()).filter(|t| !t.dead)
    }
    fn open(&self, me: Option<usize>) -> bool {
        self.others(me).next().is_some()
    }
    /// May a statement taking `base..before` to `after` be refused because of concurrent work?
    fn may_fail(&self, me: Option<usize>, start: u64, base: &Db, before: &Db, after: &Db, names: &[String]) -> bool {
        let touched = changed(before, after);
        let new = added(before, after);
        let tabs = reshaped(before, after);
        let mut touched_t: BTreeSet<String> = tabs.iter().cloned().collect();
        touched_t.extend(names.iter().cloned());
        for o in self.others(me) {
            if changed(&o.base, &o.view).intersection(&touched).next().is_some() {
                return true;
            }
            let re = reshaped(&o.base, &o.view);
            if re.intersection(&touched_t).next().is_some() {
                return true;
            }
            // schema change of a table others have written; their rows may break a new constraint
            if !tabs.is_empty() {
                let w: BTreeSet<u64> = changed(&o.base, &o.view).iter().map(|t| t.0).chain(added(&o.base, &o.view).iter().map(|t| t.0)).collect();
                if tabs.iter().any(|n| before.tabs.get(n).is_some_and(|t| w.contains(&t.id))) {
                    return true;
                }
            }
            if clash(after, &new, &added(&o.base, &o.view)) {
                return true;
            }
        }
        for (seq, ch, add, re) in &self.log {
            let over = || add.iter().any(|x| tabs.iter().any(|n| before.tabs.get(n).is_some_and(|t| t.id == x.0)));
            if *seq > start && (over() || re.intersection(&touched_t).next().is_some() || ch.intersection(&touched).next().is_some() || clash(after, &new, add)) {
                return true;
            }
        }
        reshaped(base, &self.com).intersection(&touched_t).next().is_some()
    }
    fn commit(&mut self, base: &Db, view: &Db) {
        self.seq += 1;
        let entry = (self.seq, changed(base, view), added(base, view), reshaped(base, view));
        self.log.push(entry);
        merge(&mut self.com, base, view);
    }
    /// None: the history leaves the explored space here.
    pub fn enabled(&self, p: &Plan, o: &Op) -> bool {
        let has = |s: &usize| self.ses.get(*s).is_some_and(|t| t.is_some());
        if let Some(s) = self.pend {
            if !matches!(o, Op::In(x, _) | Op::Commit(x) if *x == s) {
                return false;
            }
        }
        let fine = |i: &usize| self.allowed(&p.stmts[*i]);
        match o {
            Op::Auto(i) => fine(i),
            Op::Batch(v) => v.iter().all(fine),
            Op::Begin(s) => !has(s) && *s <= self.begun,
            Op::In(s, i) => has(s) && fine(i),
            Op::Commit(s) | Op::Roll(s) | Op::Kill(s) => has(s),
            Op::Vacuum | Op::Analyze | Op::Flush | Op::Reopen(_) | Op::Crash => self.admin < p.max_admin,
        }
    }
    /// Statements that would depend on an index left behind by an UPDATE are not explored.
    fn allowed(&self, st: &St) -> bool {
        match st {
            St::Maybe(st) => self.allowed(st),
            St::Q(q) => q.wher.is_none() || self.stale.is_empty(),
            _ => st.table().is_none_or(|t| !self.stale.contains(t)) || matches!(st, St::Drop(_) | St::Create(..)),
        }
    }
    fn note_update(&mut self, st: &St, before: &Db, after: &Db, me: Option<usize>) -> bool {
        let St::Upd(t, set, _) = st else { return true };
        // KF-INDEX-UPDATE: the second row of one statement does not see the first one's new key.
        if let Some(b) = before.tabs.get(t) {
            let keyed = set.iter().any(|(c, _)| b.cols.iter().position(|x| x.name == *c).is_some_and(|k| b.uniq.iter().any(|u| u.1.contains(&k))));
            let mut free = before.clone();
            free.tabs.get_mut(t).unwrap().uniq.clear();
            if keyed && matches!(free.exec(st, &mut 0), Eff::Count(n) if n > 1) {
                return false;
            }
        }
        let (Some(b), Some(a)) = (before.tabs.get(t), after.tabs.get(t)) else { return true };
        if b.rows == a.rows {
            return true;
        }
        for (c, _) in set {
            let k = b.cols.iter().position(|x| x.name == *c).unwrap();
            if b.uniq.iter().any(|u| u.1.contains(&k)) && b.rows.iter().any(|(r, row)| a.rows.get(r).is_none_or(|n| n[k] != row[k])) {
                self.stale.insert(t.clone());
            }
        }
        // KF-UPDATE-IN-PLACE
        if self.open(me) {
            return false;
        }
        self.pend = me;
        true
    }
}
/// Does a new row agree on a unique key with one of the other rows?
fn clash(shape: &Db, new: &[(u64, u64, Row)], other: &[(u64, u64, Row)]) -> bool {
    new.iter().any(|(t, r, row)| {
        let Some(tab) = shape.tabs.values().find(|x| x.id == *t) else { return false };
        tab.uniq.iter().any(|(_, cols)| cols.iter().all(|c| !row[*c].is_null()) && other.iter().any(|(ot, or, orow)| ot == t && or != r && orow.len() == row.len() && cols.iter().all(|c| orow[*c] == row[*c])))
    })
}

pub struct Eng {
    pub dir: Scratch,
    pub db: Option<Database>,
    pub ses: Vec<Option<Session>>,
}
impl Eng {
    pub fn new(cfg: Cfg) -> Result<Eng, String> {
        let dir = Scratch::new();
        let db = Database::create(dir.path().join("d.db"), cfg.to()).map_err(|e| format!("create: {e}"))?;
        Ok(Eng { dir, db: Some(db), ses: vec![] })
    }
    pub fn db(&self) -> &Database {
        self.db.as_ref().unwrap()
    }
    pub fn close(&mut self) {
        self.ses.clear();
        self.db = None;
    }
    pub fn open(&mut self, cfg: Cfg) -> Result<(), String> {
        self.db = Some(Database::open(self.dir.path().join("d.db"), cfg.to()).map_err(|e| format!("open: {e}"))?);
        Ok(())
    }
}

pub enum End {
    /// the history is outside the explored space
    Pruned,
    Done(M),
}

/// Reads everything in one view and compares.
fn read_all(p: &Plan, view: &Db, names: &BTreeSet<String>, stale: &BTreeSet<String>, mut f: impl FnMut(&str) -> Res, reads: &mut u64) -> Result<(), String> {
    for n in names {
        let sql = format!("SELECT * FROM {n}");
        *reads += 1;
        match (view.tabs.get(n), f(&sql)) {
            (None, Res::Err(_)) => {}
            (None, r) => return Err(format!("{sql} gives {} although the table does not exist", r.show())),
            (Some(_), r) => {
                let a = view.query(&Sel::from(tab(n)))?;
                compare(&Eff::Rows(a), &r).map_err(|e| format!("{sql}: {e}"))?;
            }
        }
    }
    if !stale.is_empty() {
        return Ok(());
    }
    for q in &p.probes {
        let Ok(a) = view.query(q) else { continue };
        let sql = q.sql(false);
        *reads += 1;
        compare(&Eff::Rows(a), &f(&sql)).map_err(|e| format!("{sql}: {e}"))?;
    }
    Ok(())
}

/// Long texts are cut in reports.
pub fn brief(s: &str) -> String {
    if s.chars().count() <= 220 {
        return s.into();
    }
    format!("{} .. {}", s.chars().take(150).collect::<String>(), s.chars().skip(s.chars().count() - 50).collect::<String>())
}
pub fn execute(p: &Plan, path: &[usize], out: &mut Out) -> Result<End, String> {
    let mut eng = Eng::new(p.cfg)?;
    let mut m = M::default();
    m.ses.resize_with(4, || None);
    eng.ses.resize_with(4, || None);
    let mut names: BTreeSet<String> = BTreeSet::new();
    for s in p.stmts.iter().chain(&p.setup).chain(&p.tail) {
        if let Some(t) = s.table() {
            names.insert(t.to_string());
        }
    }
    for s in &p.setup {
        let e = m.com.exec(s, &mut m.next);
        compare(&e, &run(eng.db(), &s.sql(false))).map_err(|e| format!("setup {}: {e}", brief(&s.sql(false))))?;
    }
    let mut reads = 0;
    for (k, oi) in path.iter().enumerate() {
        let op = &p.ops[*oi];
        if !m.enabled(p, op) {
            return Ok(End::Pruned);
        }
        let before = if p.audit && k + 1 == path.len() { Some(audited(eng.db())?) } else { None };
        if !step(p, op, &mut m, &mut eng).map_err(|e| format!("{}: {e}", p.op_text(op)))? {
            return Ok(End::Pruned);
        }
        if let Some(b) = before {
            let a = audited(eng.db()).map_err(|e| format!("{}: afterwards {e}", p.op_text(op)))?;
            reused(&b, &a).map_err(|e| format!("{}: {e}", p.op_text(op)))?;
        }
        if k + 1 == path.len() || p.read_always {
            if m.pend.is_none() {
                observe(p, &m, &mut eng, &names, &mut reads)?;
            }
        }
    }
    out.transitions += path.len() as u64;
    if m.pend.is_some() {
        // an UPDATE not yet committed: nothing can be said before its COMMIT
        return Ok(End::Done(m));
    }
    if p.audit {
        return finale(p, m, eng);
    }
    let stale = m.stale.clone();
    let fresh = |eng: &Eng, com: &Db, reads: &mut u64, what: &str| {
        let r = read_all(p, com, &names, &stale, |q| run(eng.db(), q), reads);
        r.map_err(|e| format!("{what}: {e}"))
    };
    if m.ses.iter().any(|s| s.is_some()) {
        for s in eng.ses.iter_mut() {
            *s = None;
        }
        fresh(&eng, &m.com, &mut reads, "after all sessions were dropped")?;
    }
    let mut com = m.com.clone();
    let mut next = m.next;
    if p.end_vacuum {
        eng.db().vacuum().map_err(|e| format!("final VACUUM: {e}"))?;
        fresh(&eng, &com, &mut reads, "after a final VACUUM")?;
    }
    if let Some(cfg) = p.end_reopen {
        eng.close();
        eng.open(cfg).map_err(|e| format!("final reopen: {e}"))?;
        fresh(&eng, &com, &mut reads, "after close and reopen")?;
    }
    for s in &p.tail {
        let mut mm = M { com: com.clone(), stale: stale.clone(), ..Default::default() };
        if !mm.allowed(s) {
            continue;
        }
        let before = com.clone();
        let e = com.exec(s, &mut next);
        compare(&e, &run(eng.db(), &s.sql(false))).map_err(|e| format!("afterwards, {}: {e}", brief(&s.sql(false))))?;
        mm.note_update(s, &before, &com, None);
        if mm.stale != stale {
            break;
        }
    }
    if !p.tail.is_empty() {
        fresh(&eng, &com, &mut reads, "after the final statements")?;
    }
    out.transitions += reads;
    Ok(End::Done(m))
}

pub use axmosdb::verif::audit::Report;
pub fn audited(db: &Database) -> Result<Report, String> {
    axmosdb::verif::audit::audit(db)
}
/// The file may only have grown once the free list was used up.
pub fn reused(b: &Report, a: &Report) -> Result<(), String> {
    if a.total > b.total && !b.free.is_empty() && a.free.len() >= b.free.len() && a.free[..b.free.len()] == b.free[..] {
        return Err(format!("the file grew from {} to {} pages while the free list {:?} was not used", b.total, a.total, b.free));
    }
    Ok(())
}
/// What every audited history ends with: all sessions end, VACUUM, (reopen,) all rows go, all tables
/// go; what they owned must be free afterwards, and suffice for the setup.
fn finale(p: &Plan, m: M, mut eng: Eng) -> Result<End, String> {
    for s in eng.ses.iter_mut() {
        *s = None;
    }
    let check = |eng: &Eng, what: &str| audited(eng.db()).map_err(|e| format!("{what}: {e}"));
    check(&eng, "after all sessions were dropped")?;
    let vacuum = |eng: &Eng| eng.db().vacuum().map_err(|e| format!("final VACUUM: {e}"));
    vacuum(&eng)?;
    let r = check(&eng, "after a final VACUUM")?;
    let mut want: Vec<&str> = m.com.tabs.keys().map(|s| s.as_str()).collect();
    want.sort();
    let mut have: Vec<&str> = r.trees.iter().skip(2).map(|t| t.name.as_str()).filter(|n| m.com.tabs.contains_key(*n)).collect();
    have.sort();
    let indexes: usize = m.com.tabs.values().map(|t| t.uniq.len()).sum();
    if want != have || r.trees.len() != 2 + want.len() + indexes {
        return Err(format!("after a final VACUUM there are trees {:?} for tables {want:?} with {indexes} indexes", r.trees.iter().map(|t| &t.name).collect::<Vec<_>>()));
    }
    for t in &r.trees[2..] {
        let Some(x) = m.com.tabs.get(&t.name) else { continue };
        if t.cells != x.rows.len() {
            return Err(format!("after a final VACUUM {} stores {} cells for {} rows", t.name, t.cells, x.rows.len()));
        }
    }
    if let Some(cfg) = p.end_reopen {
        eng.close();
        eng.open(cfg).map_err(|e| format!("final reopen: {e}"))?;
        let s = check(&eng, "after close and reopen")?;
        if s.total != r.total || s.free != r.free {
            return Err(format!("close and reopen after VACUUM changed the file: {} pages, free {:?}; {} pages, free {:?}", r.total, r.free, s.total, s.free));
        }
    }
    for n in &want {
        if let Res::Err(e) = run(eng.db(), &format!("DELETE FROM {n}")) {
            return Err(format!("finally, DELETE FROM {n}: {e}"));
        }
    }
    check(&eng, "after the final DELETEs")?;
    vacuum(&eng)?;
    let r = check(&eng, "after the final DELETEs and VACUUM")?;
    if let Some(t) = r.trees[2..].iter().find(|t| t.cells + t.links != 0 || t.nodes != 1) {
        return Err(format!("after the final DELETEs and VACUUM {} still owns {} nodes and {} links for {} cells", t.name, t.nodes, t.links, t.cells));
    }
    for n in &want {
        if let Res::Err(e) = run(eng.db(), &format!("DROP TABLE {n}")) {
            return Err(format!("finally, DROP TABLE {n}: {e}"));
        }
    }
    check(&eng, "after the final DROPs")?;
    vacuum(&eng)?;
    let r = check(&eng, "after the final DROPs and VACUUM")?;
    if r.trees.len() != 2 || r.trees.iter().any(|t| t.nodes != 1 || t.links + t.cells != 0) {
        return Err(format!("after the final DROPs and VACUUM these trees are left: {:?}", r.trees));
    }
    let before = r;
    for s in &p.setup {
        if let Res::Err(e) = run(eng.db(), &s.sql(false)) {
            return Err(format!("afterwards, {}: {e}", brief(&s.sql(false))));
        }
    }
    let r = check(&eng, "after the setup was repeated")?;
    if r.total > before.total && !r.free.is_empty() || r.total > before.total + r.aborted_list as u64 {
        return Err(format!("repeating the setup grew the file from {} pages ({} free) to {} ({} free)", before.total, before.free.len(), r.total, r.free.len()));
    }
    Ok(End::Done(m))
}

fn observe(p: &Plan, m: &M, eng: &mut Eng, names: &BTreeSet<String>, reads: &mut u64) -> Result<(), String> {
    for s in 0..m.ses.len() {
        if let Some(t) = &m.ses[s] {
            let ses = eng.ses[s].as_mut().unwrap();
            if t.dead {
                if let r @ (Res::Rows(_) | Res::Count(_) | Res::Ddl) = run_s(ses, "SELECT COUNT(*) FROM t") {
                    return Err(format!("s{s} can still execute statements after VACUUM aborted it: {}", r.show()));
                }
                continue;
            }
            read_all(p, &t.view, names, &m.stale, |q| run_s(ses, q), reads).map_err(|e| format!("s{s} reads {e}"))?;
        }
    }
    let db = eng.db();
    read_all(p, &m.com, names, &m.stale, |q| run(db, q), reads).map_err(|e| format!("a new transaction reads {e}"))
}

pub fn step(p: &Plan, op: &Op, m: &mut M, eng: &mut Eng) -> Result<bool, String> {
    match op {
        Op::Auto(i) => {
            let st = &p.stmts[*i];
            let before = m.com.clone();
            let mut after = before.clone();
            let mut next = m.next;
            let want = after.exec(st, &mut next);
            if matches!(&want, Eff::Err(e) if e.starts_with("unspecified")) {
                return Ok(false);
            }
            let may = m.may_fail(None, m.seq, &before, &before, &after, &st.names());
            if !m.clone().note_update(st, &before, &after, None) {
                return Ok(false);
            }
            let got = run(eng.db(), &st.sql(false));
            if (may && got.is_err()) || (p.oom && is_oom(&got)) {
                return Ok(true);
            }
            compare(&want, &got)?;
            m.next = next;
            m.note_update(st, &before, &after, None);
            m.pend = None;
            m.commit(&before, &after);
            check_committed(m)?;
        }
        Op::Batch(v) => {
            let before = m.com.clone();
            let mut after = before.clone();
            let mut next = m.next;
            let mut wants = vec![];
            let mut may = false;
            let mut upd = false;
            for i in v {
                let b = after.clone();
                let w = after.exec(&p.stmts[*i], &mut next);
                may |= m.may_fail(None, m.seq, &before, &b, &after, &p.stmts[*i].names());
                if matches!(p.stmts[*i], St::Upd(..)) && b.tabs != after.tabs {
                    upd = true;
                }
                if matches!(&w, Eff::Err(e) if e.starts_with("unspecified")) {
                    return Ok(false);
                }
                let bad = matches!(w, Eff::Err(_));
                wants.push(w);
                if bad {
                    break;
                }
            }
            let fails = matches!(wants.last(), Some(Eff::Err(_)));
            if upd && (fails || may || m.open(None)) {
                return Ok(false); // KF-UPDATE-IN-PLACE
            }
            let sqls: Vec<String> = v.iter().map(|i| p.stmts[*i].sql(false)).collect();
            let refs: Vec<&str> = sqls.iter().map(|s| s.as_str()).collect();
            match eng.db().execute_batch(&refs) {
                Ok(rs) => {
                    if fails {
                        return Err("the batch was accepted although one of its statements must fail".into());
                    }
                    if rs.len() != v.len() {
                        return Err(format!("{} results for {} statements", rs.len(), v.len()));
                    }
                    for (w, r) in wants.iter().zip(rs) {
                        compare(w, &to_res(Ok(r)))?;
                    }
                    m.next = next;
                    for i in v {
                        m.note_update(&p.stmts[*i], &before, &after, None);
                    }
                    m.pend = None;
                    m.commit(&before, &after);
                    check_committed(m)?;
                }
                Err(e) => {
                    if !fails && !may {
                        return Err(format!("the batch failed: {e}"));
                    }
                }
            }
        }
        Op::Begin(s) => {
            eng.ses[*s] = Some(eng.db().session().map_err(|e| e.to_string())?);
            m.ses[*s] = Some(Txn { base: m.com.clone(), view: m.com.clone(), start: m.seq, dead: false });
            m.begun = m.begun.max(s + 1);
        }
        Op::In(s, i) => {
            let st = &p.stmts[*i];
            let t = m.ses[*s].clone().unwrap();
            let ses = eng.ses[*s].as_mut().unwrap();
            if t.dead {
                return match run_s(ses, &st.sql(false)) {
                    Res::Err(_) => Ok(true),
                    r => Err(format!("accepted ({}) although VACUUM aborted the transaction", r.show())),
                };
            }
            let mut after = t.view.clone();
            let mut next = m.next;
            let want = after.exec(st, &mut next);
            if matches!(&want, Eff::Err(e) if e.starts_with("unspecified")) {
                return Ok(false);
            }
            let may = m.may_fail(Some(*s), t.start, &t.base, &t.view, &after, &st.names());
            if !m.clone().note_update(st, &t.view, &after, Some(*s)) {
                return Ok(false);
            }
            let got = run_s(ses, &st.sql(false));
            if (may && got.is_err()) || (p.oom && is_oom(&got)) {
                return Ok(true);
            }
            compare(&want, &got)?;
            m.next = next;
            m.note_update(st, &t.view, &after, Some(*s));
            m.ses[*s].as_mut().unwrap().view = after;
        }
        Op::Commit(s) => {
            let t = m.ses[*s].take().unwrap();
            let mut ses = eng.ses[*s].take().unwrap();
            let got = ses.commit_transaction();
            drop(ses);
            m.pend = None;
            if t.dead {
                return match got {
                    Err(_) => Ok(true),
                    Ok(_) => Err("accepted although VACUUM aborted the transaction".into()),
                };
            }
            let ch = changed(&t.base, &t.view);
            let late = m.log.iter().filter(|l| l.0 > t.start).any(|l| l.1.intersection(&ch).next().is_some());
            match got {
                Ok(_) if late => return Err("both transactions that modified the same row committed".into()),
                Ok(_) => {
                    m.commit(&t.base, &t.view);
                    check_committed(m)?;
                }
                Err(_) if late => {}
                Err(e) => return Err(format!("refused: {e}")),
            }
        }
        Op::Roll(s) => {
            m.ses[*s] = None;
            let mut ses = eng.ses[*s].take().unwrap();
            ses.abort_transaction().map_err(|e| format!("refused: {e}"))?;
        }
        Op::Kill(s) => {
            m.ses[*s] = None;
            eng.ses[*s] = None;
        }
        Op::Vacuum => {
            m.admin += 1;
            for s in m.ses.iter_mut().flatten() {
                s.dead = true;
            }
            eng.db().vacuum().map_err(|e| e.to_string())?;
        }
        Op::Analyze => {
            m.admin += 1;
            eng.db().analyze(1.0, 1000).map_err(|e| e.to_string())?;
        }
        Op::Flush => {
            m.admin += 1;
            eng.db().flush().map_err(|e| e.to_string())?;
        }
        Op::Reopen(c) => {
            m.admin += 1;
            for s in m.ses.iter_mut() {
                *s = None;
            }
            eng.close();
            eng.ses.resize_with(4, || None);
            eng.open(*c)?;
        }
        Op::Crash => return Err("not in this engine".into()),
    }
    Ok(true)
}
/// The constraints hold in every committed state.
fn check_committed(m: &M) -> Result<(), String> {
    for (n, t) in &m.com.tabs {
        t.unique_ok().map_err(|e| format!("the committed contents of {n} violate a constraint: {e}"))?;
    }
    Ok(())
}

/// All histories that extend `path`.
pub fn explore(p: &Plan, path: &mut Vec<usize>, out: &mut Out, hist: &dyn Fn(&[usize]) -> Value) {
    out.traces += 1;
    match guarded(|| execute(p, path, out)).unwrap_or_else(Err) {
        Err(e) => {
            out.violation(format!("[{}] {} => {e}", p.name, path.iter().map(|o| p.op_text(&p.ops[*o])).collect::<Vec<_>>().join(" | ")), hist(path));
        }
        Ok(End::Pruned) => {
            out.traces -= 1;
        }
        Ok(End::Done(m)) => {
            out.state(hash_of(&(p.name.clone(), path.clone())));
            if path.len() == p.depth {
                out.sample(json!({"plan": p.name, "history": path.iter().map(|o| p.op_text(&p.ops[*o])).collect::<Vec<_>>()}));
            } else {
                for o in 0..p.ops.len() {
                    if m.enabled(p, &p.ops[o]) {
                        path.push(o);
                        explore(p, path, out, hist);
                        path.pop();
                    }
                }
            }
        }
    }
}
/// Items: one per pair of first operations (histories of length 1 belong to the first pair).
pub fn items(plans: &[Plan]) -> Vec<Value> {
    let mut v = vec![];
    for (k, p) in plans.iter().enumerate() {
        for a in 0..p.ops.len() {
            v.push(json!({"plan": k, "name": p.name, "path": [a], "deep": false}));
            for b in 0..p.ops.len() {
                v.push(json!({"plan": k, "name": p.name, "path": [a, b], "deep": true}));
            }
        }
    }
    v
}
pub fn run_item(plans: &[Plan], spec: &Value, out: &mut Out) {
    let p = &plans[spec["plan"].as_u64().unwrap() as usize];
    let mut path: Vec<usize> = spec["path"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let plan = spec["plan"].clone();
    let name = p.name.clone();
    let mode = spec["mode"].clone();
    let hist = move |path: &[usize]| json!({"plan": plan, "name": name, "path": path, "deep": false, "mode": mode});
    if spec["deep"] == true {
        explore(p, &mut path, out, &hist);
        return;
    }
    let limited = Plan { depth: path.len(), name: p.name.clone(), setup: p.setup.clone(), stmts: p.stmts.clone(), ops: p.ops.clone(), probes: p.probes.clone(), tail: p.tail.clone(), ..*p };
    explore(&limited, &mut path, out, &hist);
}
pub fn bounds_of(plans: &[Plan]) -> String {
    plans.iter().map(|p| format!("{}: {} operations, depth {}", p.name, p.ops.len(), p.depth)).collect::<Vec<_>>().join("; ")
}

#[macro_export]
macro_rules! hist_check {
    ($t:ident, $id:expr, $plans:expr, $known:expr) => {
        pub struct $t;
        impl $crate::fw::Check for $t {
            fn id(&self) -> &'static str {
                $id
            }
            fn items(&self, tier: $crate::fw::Tier) -> Vec<serde_json::Value> {
                let mut v = $crate::hist::items(&$plans(tier));
                v.push(serde_json::json!({"known": true}));
                v
            }
            fn run(&self, tier: $crate::fw::Tier, spec: &serde_json::Value, out: &mut $crate::fw::Out) {
                if spec["known"] == true {
                    $known(out);
                    return;
                }
                $crate::hist::run_item(&$plans(tier), spec, out)
            }
            fn bounds(&self, tier: $crate::fw::Tier) -> String {
                format!("every history over these alphabets up to the stated length, each on a fresh database, all contents read back through every open session and fresh transactions. {}", $crate::hist::bounds_of(&$plans(tier)))
            }
            fn assumptions(&self) -> Vec<String> {
                vec![
                    "sessions are driven from one thread: statements of different sessions interleave, they do not overlap (overlap is C14)".into(),
                    "histories in which an UPDATE is rolled back or concurrent with another open session are not explored (KF-UPDATE-IN-PLACE), nor statements that depend on an index after an UPDATE of its columns (KF-INDEX-UPDATE)".into(),
                ]
            }
        }
    };
}
/// The two findings pinned by the repository's own tests, shown on the running engine.
pub fn known_update(out: &mut Out) {
    let Ok(e) = Eng::new(CFG) else { return };
    for q in ["CREATE TABLE t (a INT, b INT)", "CREATE UNIQUE INDEX i ON t (b)", "INSERT INTO t VALUES (1, 100)", "UPDATE t SET b = 150 WHERE a = 1"] {
        run(e.db(), q);
    }
    if matches!(run(e.db(), "SELECT a FROM t WHERE b = 150"), Res::Rows(r) if r.is_empty()) {
        out.known("KF-INDEX-UPDATE", "UPDATE t SET b = 150 WHERE a = 1; SELECT a FROM t WHERE b = 150 finds nothing through the index on b");
    }
}
pub fn known_in_place(out: &mut Out) {
    let Ok(e) = Eng::new(CFG) else { return };
    for q in ["CREATE TABLE t (a INT, b INT)", "INSERT INTO t VALUES (1, 100)"] {
        run(e.db(), q);
    }
    let Ok(mut s) = e.db().session() else { return };
    run_s(&mut s, "UPDATE t SET b = 150");
    let _ = s.abort_transaction();
    if matches!(run(e.db(), "SELECT b FROM t"), Res::Rows(r) if r == vec![vec![i(150)]]) {
        out.known("KF-UPDATE-IN-PLACE", "BEGIN; UPDATE t SET b = 150; ROLLBACK leaves b = 150");
    }
}
/// INSERT of literal rows.
pub fn ins(t: &str, rows: &[&[V]]) -> St {
    St::Ins(t.into(), None, rows.iter().map(|r| r.iter().map(|v| lit(v.clone())).collect()).collect())
}
pub fn inn(t: &str, rows: &[&[i128]]) -> St {
    St::Ins(t.into(), None, rows.iter().map(|r| r.iter().map(|v| n(*v)).collect()).collect())
}
pub fn del(t: &str, w: Option<E>) -> St {
    St::Del(t.into(), w)
}
pub fn upd(t: &str, c: &str, e: E, w: Option<E>) -> St {
    St::Upd(t.into(), vec![(c.into(), e)], w)
}
pub fn create(t: &str, cols: &[(&str, &'static str)], pk: &[&str], uq: &[&[&str]]) -> St {
    St::Create(t.into(), cols.iter().map(|x| c(x.0, x.1)).collect(), pk.iter().map(|x| x.to_string()).collect(), uq.iter().map(|u| u.iter().map(|x| x.to_string()).collect()).collect())
}
pub fn index(nm: &str, t: &str, cols: &[&str]) -> St {
    St::Index(nm.into(), t.into(), cols.iter().map(|x| x.to_string()).collect())
}
/// SELECT * FROM t WHERE c = v, for each v
pub fn by(t: &str, c: &str, vs: &[i128]) -> Vec<Sel> {
    vs.iter().map(|v| Sel::from(tab(t)).wher(eq(col(c), n(*v)))).collect()
}
