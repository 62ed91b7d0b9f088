//! C09: clean close and reopen preserves everything.
use crate::fw::*;
use crate::hist::*;
use crate::sqlm::*;
use axmosdb::Database;
use serde_json::{Value, json};

const SMALL: Cfg = Cfg { page: 4096, cache: 48, pool: 2, min_keys: 4, siblings: 1 };
const WIDE: Cfg = Cfg { page: 16384, cache: 100, pool: 1, min_keys: 3, siblings: 3 };
const HUGE: Cfg = Cfg { page: 65536, cache: 300, pool: 3, min_keys: 5, siblings: 2 };

fn big(k: i128, len: usize) -> V {
    s(&format!("{k}-").repeat(len)[..len])
}
fn probes() -> Vec<Sel> {
    let mut v = by("t", "a", &[1, 2, 3, 4, 5]);
    v.extend(by("t", "b", &[10, 20, 30]));
    v.extend(by("u", "x", &[1, 2]));
    v.push(Sel::from(tab("t")).items(vec![count(), agg("SUM", col("a"))]));
    v
}
fn setup() -> Vec<St> {
    vec![
        St::Create("t".into(), vec![c("a", "INT"), cnn("b", "INT"), cdef("c", "TEXT", s("dflt"))], vec!["a".into()], vec![vec!["b".into()]]),
        inn2("t", &["a", "b"], &[i(1), i(10)]),
        inn2("t", &["a", "b", "c"], &[i(2), i(20), big(2, 9000)]),
        create("u", &[("x", "BIGINT"), ("y", "DOUBLE")], &[], &[]),
        ins("u", &[&[i(1), V::N], &[i(2), i(5)]]),
    ]
}
fn inn2(t: &str, cols: &[&str], vals: &[V]) -> St {
    St::Ins(t.into(), Some(cols.iter().map(|x| x.to_string()).collect()), vec![vals.iter().map(|v| lit(v.clone())).collect()])
}
fn stmts() -> Vec<St> {
    vec![
        /* 0 */ inn2("t", &["a", "b"], &[i(3), i(30)]),
        /* 1 */ del("t", Some(eq(col("a"), n(1)))),
        /* 2 */ upd("t", "c", lit(big(7, 1500)), None),
        /* 3 */ inn2("t", &["a", "b", "c"], &[i(4), i(40), big(4, 8000)]),
        /* 4 */ St::Drop("u".into()),
        /* 5 */ create("u", &[("x", "INT"), ("z", "TEXT")], &["x"], &[]),
        /* 6 */ ins("u", &[&[i(1), s("one")], &[i(2), s("two")]]),
        /* 7 */ index("iu", "u", &["x"]),
        /* 8 */ St::Alter("t".into(), Alt::Add(cdef("d", "INT", i(7)))),
        /* 9 */ St::Alter("t".into(), Alt::DropCol("c".into())),
        /* 10 */ create("w", &[("k", "INT")], &["k"], &[]),
        /* 11 */ inn("w", &[&[1]]),
        /* 12 */ inn2("t", &["a", "b"], &[i(1), i(99)]),
        /* 13 */ inn2("t", &["a"], &[i(8)]),
        /* 14 */ St::Alter("u".into(), Alt::SetNn("x".into())),
        /* 15 */ St::Alter("t".into(), Alt::SetDef("c".into(), s("other"))),
        /* 16 */ ins("u", &[&[V::N, V::N]]),
        /* 17 */ St::Drop("w".into()),
    ]
}
fn tail() -> Vec<St> {
    vec![
        inn2("t", &["a", "b"], &[i(5), i(50)]),
        inn2("t", &["a", "b"], &[i(5), i(51)]),
        inn2("t", &["a", "b"], &[i(6), i(10)]),
        ins("u", &[&[i(3), s("3")]]),
        create("y", &[("k", "INT"), ("v", "TEXT")], &["k"], &[]),
        ins("y", &[&[i(1), s("p")]]),
        ins("y", &[&[i(1), s("q")]]),
        create("w", &[("q", "INT")], &[], &[]),
        inn("w", &[&[3]]),
    ]
}
fn plans(tier: Tier) -> Vec<Plan> {
    let mut out = vec![];
    for (name, cfg, other) in [("4K", CFG, SMALL), ("4K small cache", SMALL, WIDE), ("16K", WIDE, CFG), ("64K", HUGE, SMALL)] {
        let main = name == "4K";
        let plan = |what: &str, ops: Vec<Op>, depth: usize, admin: usize| Plan { cfg, probes: probes(), tail: tail(), max_admin: admin, end_reopen: Some(other), ..Plan::new(&format!("{what}, {name}"), setup(), stmts(), ops, depth) };
        // autocommit, any number of reopens
        let mut ops: Vec<Op> = (0..=17).map(Op::Auto).collect();
        ops.extend([Op::Reopen(cfg), Op::Reopen(other), Op::Flush, Op::Vacuum]);
        out.push(plan("autocommit", ops, if main { tier.pick(3, 4) } else { tier.pick(2, 3) }, 3));
        // transactions: rolled back, killed, open at the close
        let mut ops = vec![Op::Begin(0), Op::Commit(0), Op::Roll(0), Op::Kill(0), Op::Reopen(other), Op::Vacuum];
        ops.extend([0, 1, 3, 4, 5, 8].map(|i| Op::In(0, i)));
        ops.extend([12, 6].map(Op::Auto));
        out.push(plan("transactions", ops, if main { tier.pick(5, 6) } else { tier.pick(4, 5) }, 2));
        // two sessions and flushes in between
        let mut ops = vec![Op::Flush, Op::Reopen(cfg)];
        for s in 0..2 {
            ops.extend([Op::Begin(s), Op::Commit(s), Op::Roll(s), Op::In(s, if s == 0 { 0 } else { 3 }), Op::In(s, if s == 0 { 10 } else { 1 })]);
        }
        out.push(plan("two sessions", ops, tier.pick(if main { 5 } else { 4 }, 5), 2));
    }
    out
}

/// Work repeated over many close/open cycles.
fn cycle(body: &[usize], cfgs: [Cfg; 2], rounds: usize, out: &mut Out) -> Result<(), String> {
    let mut eng = Eng::new(cfgs[0])?;
    let mut com = Db::default();
    let mut next = 0;
    for st in setup() {
        com.exec(&st, &mut next);
        run(eng.db(), &st.sql(false));
    }
    let st = |round: usize| -> Vec<(bool, St)> {
        let r = 100 + round as i128;
        let mut all = vec![
            (true, inn2("t", &["a", "b"], &[i(r), i(r * 1000)])),
            (true, del("t", Some(eq(col("a"), n(r - 1))))),
            (false, inn2("t", &["a", "b"], &[i(r + 500), i(r)])),
            (true, inn2("t", &["a", "b", "c"], &[i(r + 1000), i(r + 1000), big(r, 9000)])),
            (false, del("t", None)),
            (true, create("w", &[("k", "INT")], &["k"], &[])),
            (true, inn("w", &[&[1], &[2]])),
            (true, St::Drop("w".into())),
            (false, create("z", &[("k", "TEXT")], &["k"], &[])),
            (true, upd("u", "y", bin(col("x"), "+", n(r)), None)),
            (true, create(&format!("z{r}"), &[("k", "INT"), ("v", "TEXT")], &["k"], &[])),
            (false, inn("w", &[&[7]])),
        ];
        body.iter().map(|k| std::mem::replace(&mut all[*k], (true, St::Raw(String::new())))).collect()
    };
    for round in 0..rounds {
        for (keep, st) in st(round) {
            let sql = st.sql(false);
            if sql.is_empty() {
                continue;
            }
            out.transitions += 1;
            let before = com.clone();
            let want = com.exec(&st, &mut next);
            let got = if keep {
                run(eng.db(), &sql)
            } else {
                let mut ses = eng.db().session().map_err(|e| e.to_string())?;
                let r = run_s(&mut ses, &sql);
                ses.abort_transaction().map_err(|e| e.to_string())?;
                com = before;
                r
            };
            compare(&want, &got).map_err(|e| format!("round {round}: {}: {e}", brief(&sql)))?;
        }
        eng.close();
        eng.open(cfgs[(round + 1) % 2]).map_err(|e| format!("round {round}: {e}"))?;
        same_contents(&com, |q| run(eng.db(), q)).map_err(|e| format!("after {} close/open cycles: {e}", round + 1))?;
        for q in probes() {
            if let Ok(a) = com.query(&q) {
                compare(&Eff::Rows(a), &run(eng.db(), &q.sql(false))).map_err(|e| format!("after {} close/open cycles: {}: {e}", round + 1, q.sql(false)))?;
            }
        }
        if let Res::Rows(_) | Res::Count(_) | Res::Ddl = run(eng.db(), "SELECT * FROM z") {
            return Err(format!("after {} close/open cycles the table z of rolled-back transactions exists", round + 1));
        }
    }
    Ok(())
}
const STEPS: usize = 12;

/// More transactions than the header has room to remember. `gap` transactions come first.
fn prefix(gap: usize) -> Result<Scratch, String> {
    let dir = Scratch::new();
    let path = dir.path().join("d.db");
    let db = Database::create(&path, CFG.to()).map_err(|e| e.to_string())?;
    for q in ["CREATE TABLE t (a INT, b INT, PRIMARY KEY (a))", "INSERT INTO t VALUES (1, 1)"] {
        run(&db, q);
    }
    for _ in 0..gap {
        drop(db.session().map_err(|e| e.to_string())?);
    }
    drop(db);
    Ok(dir)
}
fn long(gap: usize, base: &Scratch, pattern: &[usize], out: &mut Out) -> Result<(), String> {
    let dir = Scratch::new();
    for f in std::fs::read_dir(base.path()).map_err(|e| e.to_string())?.flatten() {
        std::fs::copy(f.path(), dir.path().join(f.file_name())).map_err(|e| e.to_string())?;
    }
    let path = dir.path().join("d.db");
    let open = || Database::open(&path, CFG.to()).map_err(|e| format!("open: {e}"));
    let mut db = open()?;
    let mut want: Vec<Vec<V>> = vec![vec![i(1), i(1)]];
    let mut key = 10i128;
    let check = |db: &Database, want: &[Vec<V>], what: &str| -> Result<(), String> {
        for q in ["SELECT * FROM t", "SELECT a, b FROM t WHERE a > 0"] {
            let Res::Rows(mut r) = run(db, q) else { return Err(format!("{what}: {q}: {}", run(db, q).show())) };
            r.sort();
            let mut w = want.to_vec();
            w.sort();
            if r != w {
                return Err(format!("{what}: {q} gives {}, expected {}", show(&r), show(&w)));
            }
        }
        Ok(())
    };
    for round in 0..2 {
        for k in pattern {
            key += 1;
            out.transitions += 1;
            match k {
                // committed
                0 => {
                    compare(&Eff::Count(1), &run(&db, &format!("INSERT INTO t VALUES ({key}, 5)")))?;
                    want.push(vec![i(key), i(5)]);
                }
                // rolled back
                1 => {
                    let mut s = db.session().map_err(|e| e.to_string())?;
                    compare(&Eff::Count(1), &run_s(&mut s, &format!("INSERT INTO t VALUES ({key}, 6)")))?;
                    run_s(&mut s, "DELETE FROM t WHERE a = 1");
                    s.abort_transaction().map_err(|e| e.to_string())?;
                }
                // fails in its second row
                2 => {
                    compare(&Eff::Err("duplicate".into()), &run(&db, &format!("INSERT INTO t VALUES ({key}, 7), (1, 7)")))?;
                }
                // close and open
                3 => {
                    drop(db);
                    db = open()?;
                    check(&db, &want, "after close and open")?;
                }
                // many more transactions
                _ => {
                    for _ in 0..200 {
                        drop(db.session().map_err(|e| e.to_string())?);
                    }
                }
            }
        }
        check(&db, &want, "before closing")?;
        if round == 1 {
            db.vacuum().map_err(|e| e.to_string())?;
            check(&db, &want, "after VACUUM")?;
        }
        for again in 0..2 {
            drop(db);
            db = open()?;
            check(&db, &want, &format!("{gap} + {} transactions, after close and open {again}", key - 10))?;
        }
    }
    compare(&Eff::Err("duplicate".into()), &run(&db, "INSERT INTO t VALUES (1, 1)"))?;
    Ok(())
}
fn long_item(spec: &Value, out: &mut Out) {
    let gap = spec["gap"].as_u64().unwrap() as usize;
    let len = spec["len"].as_u64().unwrap() as usize;
    let base = match prefix(gap) {
        Ok(b) => b,
        Err(e) => return out.violation(format!("{gap} transactions: {e}"), spec.clone()),
    };
    let mut all = vec![vec![]];
    for _ in 0..len {
        all = all.into_iter().flat_map(|p: Vec<usize>| (0..5).map(move |k| [p.clone(), vec![k]].concat())).collect();
    }
    if let Some(f) = spec["first"].as_u64() {
        all.retain(|p| p[0] == f as usize);
    }
    if let Some(p) = spec["pattern"].as_array() {
        all = vec![p.iter().map(|x| x.as_u64().unwrap() as usize).collect()];
    }
    for p in all {
        out.traces += 1;
        out.state_of(&(gap, &p));
        if let Err(e) = guarded(|| long(gap, &base, &p, out)).unwrap_or_else(Err) {
            let names = ["commit", "rollback", "failing statement", "close/open", "200 empty transactions"];
            out.violation(format!("{gap} transactions, then [{}] twice: {e}", p.iter().map(|k| names[*k]).collect::<Vec<_>>().join("; ")), json!({"gap": gap, "len": len, "pattern": p}));
        }
    }
}

pub struct C09;
impl Check for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn items(&self, tier: Tier) -> Vec<Value> {
        let mut v: Vec<Value> = vec![];
        for gap in tier.pick(vec![100, 8170, 8184, 20_000], vec![100, 4000, 8160, 8176, 8184, 8188, 16_380, 20_000, 40_000]) {
            for first in 0..5 {
                v.push(json!({"gap": gap, "len": tier.pick(3, 4), "first": first}));
            }
        }
        v.extend((0..STEPS).map(|k| json!({"cycle": k, "len": tier.pick(2, 3)})));
        v.extend(items(&plans(tier)));
        v.push(json!({"known": true}));
        v
    }
    fn run(&self, tier: Tier, spec: &Value, out: &mut Out) {
        if spec["known"] == true {
            known_update(out);
        } else if spec["gap"].is_u64() {
            long_item(spec, out);
        } else if spec["cycle"].is_u64() {
            let first = spec["cycle"].as_u64().unwrap() as usize;
            let len = spec["len"].as_u64().unwrap() as usize;
            let mut bodies = vec![vec![first]];
            let mut k = 0;
            while k < bodies.len() {
                if bodies[k].len() < len {
                    for x in 0..STEPS {
                        bodies.push([bodies[k].clone(), vec![x]].concat());
                    }
                }
                k += 1;
            }
            if let Some(b) = spec["body"].as_array() {
                bodies = vec![b.iter().map(|x| x.as_u64().unwrap() as usize).collect()];
            }
            for b in bodies {
                out.traces += 1;
                out.state_of(&b);
                let cfgs = if b.len() % 2 == 0 { [CFG, SMALL] } else { [SMALL, HUGE] };
                if let Err(e) = guarded(|| cycle(&b, cfgs, tier.pick(8, 14), out)).unwrap_or_else(Err) {
                    out.violation(format!("steps {b:?} repeated over close/open cycles: {e}"), json!({"cycle": first, "len": len, "body": b}));
                }
            }
        } else {
            run_item(&plans(tier), spec, out);
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("every history over these alphabets, closed and opened (same or different configuration values) at every position and at the end, with inserts, creates and constraint probes afterwards; every sequence of up to {} of {STEPS} steps repeated over {} close/open cycles; every pattern of {} transactions (committed, rolled back, failed, reopened) around and beyond the 8192 ids the header's bitmap holds. {}", tier.pick(2, 3), tier.pick(8, 14), tier.pick(3, 4), bounds_of(&plans(tier)))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["histories in which an UPDATE is rolled back or concurrent with another open session (KF-UPDATE-IN-PLACE) and statements that depend on an index after an UPDATE of its columns (KF-INDEX-UPDATE) are not explored".into()]
    }
    fn item_timeout(&self, _tier: Tier) -> std::time::Duration {
        std::time::Duration::from_secs(300)
    }
}
