//! C11 through SQL: histories of DDL and DML over small and large rows with rollbacks, VACUUM and
//! reopen; the whole file is audited from the catalog roots (facade/audit.rs) after every operation.
use crate::fw::*;
use crate::hist;
use crate::hist::*;
use crate::sqlm::*;
use crate::sqlm::run as run_sql;
use axmosdb::Database;
use serde_json::{Value, json};

fn plans(tier: Tier) -> Vec<Plan> {
    let big = |k: usize| s(&"q".repeat(k));
    let setup = |b: usize| {
        vec![
            create("t", &[("a", "INT"), ("b", "INT")], &["a"], &[]),
            inn("t", &[&[1, 10], &[2, 20]]),
            create("u", &[("k", "INT"), ("x", "TEXT")], &["k"], &[]),
            ins("u", &[&[i(1), s("p")], &[i(2), big(b)], &[i(3), big(b * 3)]]),
        ]
    };
    let stmts = |b: usize| {
        let wide: Vec<Vec<V>> = (10..40).map(|k| vec![i(k), big(b / 10)]).collect();
        let wide: Vec<&[V]> = wide.iter().map(|r| &r[..]).collect();
        vec![
            inn("t", &[&[3, 30]]),
            del("t", Some(eq(col("a"), n(1)))),
            upd("t", "b", bin(col("b"), "+", n(1)), None),
            inn("t", &[&[5, 50], &[2, 99]]),
            // 4
            ins("u", &[&[i(4), big(b * 2)], &[i(5), s("r")]]),
            del("u", Some(eq(col("k"), n(3)))),
            upd("u", "x", lit(s("small")), Some(eq(col("k"), n(3)))),
            upd("u", "x", lit(big(b * 2)), Some(eq(col("k"), n(1)))),
            // 8
            ins("u", &wide),
            del("u", None),
            St::Drop("u".into()),
            create("u", &[("k", "INT"), ("x", "TEXT"), ("y", "INT")], &["k"], &[&["x"]]),
            // 12
            index("iy", "u", &["k", "x"]),
            St::Alter("u".into(), Alt::Add(cdef("z", "INT", i(7)))),
            St::Alter("u".into(), Alt::DropCol("x".into())),
            St::Alter("t".into(), Alt::SetNn("b".into())),
            // 16
            St::Alter("u".into(), Alt::Type("k".into(), "BIGINT")),
            ins("u", &[&[i(6), big(b)], &[i(1), big(b * 4)]]),
            create("w", &[("k", "TEXT")], &["k"], &[]),
            ins("w", &[&[big(b / 3)], &[s("w")]]),
            St::Drop("w".into()),
            // 21: statements that fail half-way
            ins("u", &[&[i(50), big(b * 2)], &[i(51), big(b)], &[i(1), big(b)]]),
            ins("u", &[&[i(60), big(b * 2)], &[i(60), s("x")]]),
            index("ib", "t", &["b"]),
            inn("t", &[&[7, 10], &[8, 20]]),
            // 25
            create("u", &[("k", "INT")], &["k"], &[]),
            St::Raw("CREATE TABLE w (k TEXT, j INT, UNIQUE (k, j), UNIQUE (k, j))".into()),
            St::Alter("u".into(), Alt::Type("x".into(), "INT")),
            St::Alter("u".into(), Alt::Add(cnn("nn", "INT"))),
            // 29
            St::Alter("t".into(), Alt::Uniq(vec!["b".into()])),
            upd("t", "a", n(9), None),
            St::Alter("u".into(), Alt::Uniq(vec!["x".into()])),
            ins("u", &[&[V::N, s("n")]]),
            // 33
            St::Alter("u".into(), Alt::DropCol("k".into())),
            St::Alter("u".into(), Alt::Add(c("x", "INT"))),
            St::Alter("t".into(), Alt::Type("b".into(), "TEXT")),
            St::Raw("CREATE TABLE w (k INT, j INT, FOREIGN KEY (j) REFERENCES nowhere(a))".into()),
            St::Raw(format!("CREATE TABLE w ({})", (0..900).map(|k| format!("a_rather_long_column_name_number_{k} INT")).collect::<Vec<_>>().join(", "))),
            St::Raw(format!("ALTER TABLE u ADD COLUMN d TEXT DEFAULT '{}'", "d".repeat(45000))),
        ]
    };
    let mut out = vec![];
    let small = Cfg { cache: 24, ..CFG };
    let large = Cfg { page: 8192, ..CFG };
    let t = tier == Tier::Thorough;
    for cfg in [CFG, small, large, Cfg { page: 16384, cache: 24, ..CFG }] {
        let full = cfg == CFG;
        let b = (cfg.page - 600).min(4400);
        let p = |name: &str, ops: Vec<Op>, depth: usize| Plan { cfg, audit: true, oom: cfg.cache <= 24, end_reopen: Some(cfg), max_admin: 2, ..Plan::new(&format!("{name}, {cfg:?}"), setup(b), stmts(b), ops, depth) };
        let mut ops = vec![Op::Vacuum, Op::Reopen(cfg)];
        ops.extend((0..21).filter(|k| *k != 2).map(Op::Auto));
        out.push(p("autocommit", ops, if t && full { 3 } else { 2 }));
        if cfg.page == 16384 && !t {
            continue;
        }
        // large rows come, change size and go
        let mut ops = vec![Op::Vacuum, Op::Reopen(cfg)];
        ops.extend([4, 5, 6, 7, 8, 9, 17].map(Op::Auto));
        out.push(p("large rows", ops, if t { 4 } else if full { 3 } else { 2 }));
        // tables and indexes come, are rewritten and go
        let mut ops = vec![Op::Vacuum];
        ops.extend([8, 10, 11, 12, 13, 14, 16, 17].map(Op::Auto));
        out.push(p("definitions", ops, if t && full { 4 } else if t || full { 3 } else { 2 }));
        // statements that fail half-way, alone and with others in one transaction
        let mut ops = vec![Op::Begin(0), Op::Commit(0), Op::Roll(0)];
        ops.extend([24, 4, 21].map(|x| Op::In(0, x)));
        ops.extend([4, 24].into_iter().chain(21..39).map(Op::Auto));
        out.push(p("failing statements", ops, if t && full { 3 } else { 2 }));
        if !full && !t {
            continue;
        }
        let mut ops = vec![Op::Begin(0), Op::Commit(0), Op::Roll(0), Op::Vacuum];
        ops.extend([4, 5, 8, 9, 10, 11, 12, 13, 14, 17].map(|x| Op::In(0, x)));
        ops.extend([4, 9].map(Op::Auto));
        out.push(p("one session", ops, if t && full { 4 } else { 3 }));
        let mut ops = vec![Op::Vacuum];
        for s in 0..2 {
            ops.extend([Op::Begin(s), Op::Commit(s), Op::Roll(s)]);
        }
        ops.extend([Op::In(0, 9), Op::In(0, 10), Op::In(1, 8), Op::In(1, 11), Op::Auto(18), Op::Auto(5)]);
        out.push(p("two sessions", ops, if t && full { 5 } else { 3 }));
    }
    out
}
/// The list of aborted transactions has pages of its own.
fn aborted(spec: &Value, out: &mut Out) -> Result<(), String> {
    let cfg = CFG;
    let dir = Scratch::new();
    let path = dir.path().join("d.db");
    let open = || Database::open(&path, cfg.to()).map_err(|e| format!("open: {e}"));
    let mut db = Database::create(&path, cfg.to()).map_err(|e| e.to_string())?;
    let big = "q".repeat(9000);
    for q in ["CREATE TABLE t (a INT, x TEXT, PRIMARY KEY (a))", &format!("INSERT INTO t VALUES (1, '{big}'), (2, '{big}')")] {
        compare_ok(&run_sql(&db, q), q)?;
    }
    let mut prev = audited(&db)?;
    let mut key = 100;
    let mut see = |db: &Database, what: String| -> Result<Report, String> {
        let a = audited(db).map_err(|e| format!("{what}: {e}"))?;
        reused(&prev, &a).map_err(|e| format!("{what}: {e}"))?;
        out.state(hash_of(&(spec.to_string(), what, a.total, a.free.clone())));
        out.transitions += 1;
        prev = a.clone();
        Ok(a)
    };
    let mut end = vec![];
    for round in 0..spec["rounds"].as_u64().unwrap() {
        for k in spec["steps"].as_array().unwrap() {
            let k = k.as_u64().unwrap();
            match k {
                // that many transactions are rolled back
                0..=2 => {
                    for _ in 0..[8300, 600, 1100][k as usize] {
                        drop(db.session().map_err(|e| e.to_string())?);
                    }
                }
                3 => {
                    for _ in 0..3 {
                        key += 1;
                        let mut s = db.session().map_err(|e| e.to_string())?;
                        run_s(&mut s, &format!("INSERT INTO t VALUES ({key}, '{big}')"));
                        s.abort_transaction().map_err(|e| e.to_string())?;
                    }
                }
                4 => db.flush().map_err(|e| e.to_string())?,
                5 => {
                    drop(db);
                    db = open()?;
                }
                6 => {
                    db.vacuum().map_err(|e| e.to_string())?;
                }
                _ => compare_ok(&run_sql(&db, "DELETE FROM t WHERE a > 2"), "DELETE")?,
            }
            see(&db, format!("round {round}, step {k}"))?;
        }
        db.vacuum().map_err(|e| e.to_string())?;
        let a = see(&db, format!("round {round}, VACUUM"))?;
        end.push((a.total, a.free.len(), a.aborted_list));
        let n: usize = a.trees.iter().map(|t| t.nodes + t.links).sum();
        if n as u64 + a.free.len() as u64 + a.aborted_list as u64 + 1 != a.total {
            return Err(format!("round {round}: {n} pages of trees, {} free, {} of the list of aborted transactions of {}", a.free.len(), a.aborted_list, a.total));
        }
    }
    Ok(())
}
fn compare_ok(r: &Res, q: &str) -> Result<(), String> {
    match r {
        Res::Err(e) => Err(format!("{}: {e}", brief(q))),
        _ => Ok(()),
    }
}
pub fn items(tier: Tier) -> Vec<Value> {
    let mut v = hist::items(&plans(tier));
    for steps in [vec![0, 3, 4, 1, 4, 5], vec![0, 4, 2, 4, 7, 5, 3], vec![0, 5, 1, 5, 2, 6, 3]] {
        v.push(json!({"aborted": true, "steps": steps, "rounds": tier.pick(2, 4)}));
    }
    for x in v.iter_mut() {
        x["mode"] = "sql".into();
    }
    v
}
pub fn run(tier: Tier, spec: &Value, out: &mut Out) {
    if spec["aborted"] == true {
        out.traces += 1;
        if let Err(e) = guarded(|| aborted(spec, out)).unwrap_or_else(Err) {
            out.violation(format!("[aborted transactions] {e}"), spec.clone());
        }
        return;
    }
    hist::run_item(&plans(tier), spec, out)
}
pub fn bounds(tier: Tier) -> String {
    format!("SQL level: every history over these alphabets up to the stated length on a fresh database with rows of a few bytes up to several pages; the file is audited from the catalog roots after every operation (every page one owner, tree depth, sibling links, each entry found where it is stored, file growth only with an empty free list), then after ending all sessions, VACUUM, reopen, deleting all rows + VACUUM (each tree one page), dropping all tables + VACUUM (everything free), repeating the setup (no growth); the same audit with more rolled-back transactions than page zero has room for. {}", hist::bounds_of(&plans(tier)))
}
