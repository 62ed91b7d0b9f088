//! C13: VACUUM frees space without changing what anyone can see.
use crate::fw::*;
use crate::hist::*;
use crate::sqlm::*;
use serde_json::{Value, json};

fn plans(tier: Tier) -> Vec<Plan> {
    let setup = || {
        vec![
            create("t", &[("a", "INT"), ("b", "INT")], &["a"], &[]),
            inn("t", &[&[1, 10], &[2, 20]]),
            create("u", &[("x", "TEXT")], &[], &[]),
            ins("u", &[&[s("p")], &[s(&"q".repeat(9000))]]),
        ]
    };
    let probes = || {
        let mut v = by("t", "a", &[1, 2, 3]);
        v.push(Sel::from(tab("t")).items(vec![count(), agg("SUM", col("b"))]));
        v.push(Sel::from(tab("u")).items(vec![count()]));
        v
    };
    let stmts = vec![
        inn("t", &[&[3, 30]]),
        del("t", Some(eq(col("a"), n(1)))),
        upd("t", "b", bin(col("b"), "+", n(1)), None),
        del("t", None),
        inn("t", &[&[1, 11]]),
        del("u", None),
        ins("u", &[&[s(&"r".repeat(5000))]]),
        inn("t", &[&[4, 40], &[2, 99]]),
        St::Drop("u".into()),
        create("u", &[("x", "TEXT"), ("y", "INT")], &[], &[]),
        create("w", &[("k", "INT")], &["k"], &[]),
        inn("w", &[&[1]]),
        St::Drop("w".into()),
        upd("t", "a", bin(col("a"), "+", n(5)), Some(eq(col("a"), n(2)))),
        index("ib", "t", &["b"]),
    ];
    let tail = || vec![inn("t", &[&[1, 12]]), inn("t", &[&[3, 33]]), inn("t", &[&[8, 80]]), ins("u", &[&[s("z")]]), del("t", Some(eq(col("a"), n(3))))];
    let mut out = vec![];
    // one session, rows
    let mut ops = vec![Op::Begin(0), Op::Commit(0), Op::Roll(0), Op::Vacuum];
    ops.extend([0, 1, 3, 4].map(|i| Op::In(0, i)));
    ops.extend([0, 1, 2, 7].map(Op::Auto));
    out.push(Plan { probes: probes(), end_vacuum: true, tail: tail(), max_admin: 3, ..Plan::new("rows", setup(), stmts.clone(), ops, tier.pick(5, 6)) });
    // two sessions open across VACUUM
    let mut ops = vec![Op::Vacuum, Op::Auto(0), Op::Auto(1)];
    for s in 0..2 {
        ops.extend([Op::Begin(s), Op::Commit(s), Op::Roll(s), Op::In(s, 1), Op::In(s, if s == 0 { 4 } else { 0 })]);
    }
    out.push(Plan { probes: probes(), end_vacuum: true, end_reopen: Some(CFG), tail: tail(), ..Plan::new("sessions across VACUUM", setup(), stmts.clone(), ops, tier.pick(5, 6)) });
    // large rows, dropped tables and indexes, reopen
    let mut ops = vec![Op::Begin(0), Op::Commit(0), Op::Kill(0), Op::Vacuum, Op::Reopen(CFG)];
    ops.extend([5, 6, 8, 9, 10, 11].map(|i| Op::In(0, i)));
    ops.extend([5, 6, 8, 9, 10, 11, 12, 14].map(Op::Auto));
    out.push(Plan { probes: probes(), end_vacuum: true, end_reopen: Some(CFG), tail: tail(), max_admin: 3, ..Plan::new("large rows and tables", setup(), stmts.clone(), ops, tier.pick(4, 5)) });
    // updates: versions, keyed updates
    let ops = vec![Op::Auto(2), Op::Auto(13), Op::Auto(0), Op::Auto(1), Op::Vacuum, Op::Flush, Op::Begin(0), Op::In(0, 2), Op::In(0, 1), Op::Commit(0), Op::Roll(0)];
    out.push(Plan { probes: probes(), end_vacuum: true, end_reopen: Some(CFG), max_admin: 3, ..Plan::new("updates", setup(), stmts, ops, tier.pick(5, 6)) });
    out
}

/// Repeated work + VACUUM: the file must stop growing. Every cycle body of at most `len` steps.
const STEPS: [&str; 12] = [
    "UPDATE t SET b = b + 1",
    "UPDATE t SET c = 'abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz'",
    "UPDATE t SET c = NULL",
    "DELETE FROM t",
    "INSERT INTO t VALUES (1, 1, NULL), (2, 2, 'x'), (3, 3, '#BIG')",
    "DELETE FROM t WHERE a = 2",
    "!roll INSERT INTO t VALUES (11, 1, '#BIG'), (12, 2, 'x')",
    "!roll DELETE FROM t",
    "CREATE TABLE w (k INT, UNIQUE (k))",
    "INSERT INTO w VALUES (1), (2)",
    "DROP TABLE w",
    "!roll CREATE TABLE z (k TEXT, UNIQUE (k)); INSERT INTO z VALUES ('#BIG')",
];
fn cycle(body: &[usize], out: &mut Out) -> Result<(), String> {
    let big = "y".repeat(9000);
    let eng = Eng::new(CFG)?;
    let db = eng.db();
    for q in ["CREATE TABLE t (a INT, b INT, c TEXT, PRIMARY KEY (a))", "INSERT INTO t VALUES (1, 1, NULL), (2, 2, 'x')", "INSERT INTO t VALUES (3, 3, 'z')"] {
        run(db, q);
    }
    let file = eng.dir.path().join("d.db");
    let mut sizes = vec![];
    for round in 0..24 {
        for k in body {
            let q = STEPS[*k].replace("#BIG", &big);
            if let Some(q) = q.strip_prefix("!roll ") {
                let mut ses = db.session().map_err(|e| e.to_string())?;
                for q in q.split("; ") {
                    run_s(&mut ses, q);
                }
                ses.abort_transaction().map_err(|e| e.to_string())?;
            } else {
                run(db, &q); // may legitimately fail (table exists / is missing, keys taken)
            }
            out.transitions += 1;
        }
        let before = run(db, "SELECT * FROM t");
        db.vacuum().map_err(|e| e.to_string())?;
        let after = run(db, "SELECT * FROM t");
        let (Res::Rows(a), Res::Rows(b)) = (&before, &after) else { return Err(format!("round {round}: t cannot be read: {} / {}", before.show(), after.show())) };
        let (mut a, mut b) = (a.clone(), b.clone());
        a.sort();
        b.sort();
        if a != b {
            return Err(format!("round {round}: VACUUM changed the contents of t"));
        }
        sizes.push(std::fs::metadata(&file).map_err(|e| e.to_string())?.len());
        if round == 11 && sizes[11] == sizes[5] && sizes[10] == sizes[6] {
            break; // already stable
        }
    }
    let n = sizes.len();
    if n == 24 && sizes[23] > sizes[11] + 2 * 4096 {
        return Err(format!("the file keeps growing although VACUUM runs after every round: {:?} bytes", sizes.iter().step_by(4).collect::<Vec<_>>()));
    }
    Ok(())
}
/// The same work many times before one VACUUM: versions, deltas and rolled-back transactions pile up,
/// past every one-byte counter of the format.
const PILES: [&str; 9] = [
    "!roll ALTER TABLE t ADD COLUMN d INT",
    "!roll DELETE FROM t WHERE a = 1",
    "!roll INSERT INTO t VALUES (5, 1)",
    "!roll CREATE TABLE z (k INT, UNIQUE (k))",
    "UPDATE t SET b = b + 1",
    "INSERT INTO t VALUES (5, 1); DELETE FROM t WHERE a = 5",
    "INSERT INTO t VALUES (#K, #K)",
    "ALTER TABLE t ADD COLUMN d INT; ALTER TABLE t DROP COLUMN d",
    "!analyze",
];
fn pile(kind: usize, times: i64, out: &mut Out) -> Result<(), String> {
    let mut eng = Eng::new(CFG)?;
    for q in ["CREATE TABLE t (a INT, b INT, PRIMARY KEY (a))", "INSERT INTO t VALUES (1, 10), (2, 20)"] {
        run(eng.db(), q);
    }
    let mut want = vec![vec![i(1), i(10)], vec![i(2), i(20)]];
    let db = eng.db();
    for k in 0..times {
        let q = PILES[kind].replace("#K", &(100 + k).to_string());
        if let Some(q) = q.strip_prefix("!roll ") {
            let mut ses = db.session().map_err(|e| e.to_string())?;
            for q in q.split("; ") {
                if let Res::Err(e) = run_s(&mut ses, q) {
                    return Err(format!("round {k}: {q} fails: {e}"));
                }
            }
            ses.abort_transaction().map_err(|e| e.to_string())?;
        } else if q == "!analyze" {
            db.analyze(1.0, 1000).map_err(|e| e.to_string())?;
        } else {
            for q in q.split("; ") {
                if let Res::Err(e) = run(db, q) {
                    return Err(format!("round {k}: {q} fails: {e}"));
                }
            }
        }
        out.transitions += 1;
    }
    match kind {
        4 => want.iter_mut().for_each(|r| {
            let V::I(b) = r[1] else { unreachable!() };
            r[1] = i(b + times as i128)
        }),
        6 => want.extend((0..times).map(|k| vec![i(100 + k as i128), i(100 + k as i128)])),
        _ => {}
    }
    want.sort();
    let look = |eng: &Eng, when: &str, want: &Vec<Vec<V>>| -> Result<(), String> {
        for (q, want) in [("SELECT a, b FROM t", want.clone()), ("SELECT a, b FROM t WHERE a = 1", want.iter().filter(|r| r[0] == i(1)).cloned().collect()), ("SELECT * FROM t", want.clone())] {
            let r = run(eng.db(), q);
            let Res::Rows(mut got) = r else { return Err(format!("{when}: {q}: {}", r.show())) };
            got.sort();
            if got != want {
                return Err(format!("{when}: {q} returns {got:?}, want {want:?}"));
            }
        }
        Ok(())
    };
    look(&eng, "before VACUUM", &want)?;
    eng.db().vacuum().map_err(|e| e.to_string())?;
    look(&eng, "after VACUUM", &want)?;
    run(eng.db(), "INSERT INTO t VALUES (50, 500)");
    want.push(vec![i(50), i(500)]);
    want.sort();
    look(&eng, "after VACUUM and an INSERT", &want)?;
    eng.close();
    eng.open(CFG)?;
    look(&eng, "after VACUUM and reopening", &want)?;
    out.state_of(&("pile", kind, times));
    out.traces += 1;
    Ok(())
}
fn cycles(spec: &Value, out: &mut Out) {
    let first = spec["cycle"].as_u64().unwrap() as usize;
    let len = spec["len"].as_u64().unwrap() as usize;
    let mut bodies = vec![vec![first]];
    let mut k = 0;
    while k < bodies.len() {
        if bodies[k].len() < len {
            for x in 0..STEPS.len() {
                let mut b = bodies[k].clone();
                b.push(x);
                bodies.push(b);
            }
        }
        k += 1;
    }
    if let Some(b) = spec["body"].as_array() {
        bodies = vec![b.iter().map(|x| x.as_u64().unwrap() as usize).collect()];
    }
    for b in bodies {
        out.traces += 1;
        out.state_of(&b);
        if let Err(e) = guarded(|| cycle(&b, out)).unwrap_or_else(Err) {
            out.violation(format!("cycle [{}], then VACUUM: {e}", b.iter().map(|k| STEPS[*k]).collect::<Vec<_>>().join("; ")), json!({"cycle": first, "len": len, "body": b}));
        }
    }
}

pub struct C13;
impl Check for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn items(&self, tier: Tier) -> Vec<Value> {
        let mut v: Vec<Value> = (0..STEPS.len()).map(|k| json!({"cycle": k, "len": tier.pick(2, 3)})).collect();
        for kind in 0..PILES.len() {
            let times: Vec<i64> = tier.pick(vec![255, 256, 257], (1..=9).chain(124..=132).chain(250..=260).collect());
            v.extend(times.into_iter().map(|n| json!({"pile": kind, "times": n})));
        }
        v.extend(items(&plans(tier)));
        v.push(json!({"known": true}));
        v
    }
    fn run(&self, tier: Tier, spec: &Value, out: &mut Out) {
        if spec["known"] == true {
            known_update(out);
        } else if let Some(kind) = spec["pile"].as_u64() {
            let n = spec["times"].as_i64().unwrap();
            if let Err(e) = guarded(|| pile(kind as usize, n, out)).unwrap_or_else(Err) {
                out.violation(format!("{} x {n}: {e}", PILES[kind as usize]), spec.clone());
            }
        } else if spec["cycle"].is_u64() {
            cycles(spec, out);
        } else {
            run_item(&plans(tier), spec, out);
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("every history over these alphabets up to the stated length with VACUUM (and reopen) at every position, plus a final VACUUM, reopen and further statements; every work cycle of up to {} steps out of {} repeated with VACUUM until the file size is stable or 24 rounds; {} kinds of work repeated {} before one VACUUM. {}", tier.pick(2, 3), STEPS.len(), PILES.len(), tier.pick("255, 256 and 257 times", "1-9, 124-132 and 250-260 times"), bounds_of(&plans(tier)))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["sessions are driven from one thread; VACUUM aborts the open sessions, which then must refuse statements".into(), "histories in which an UPDATE is rolled back or concurrent with another open session (KF-UPDATE-IN-PLACE) and statements that depend on an index after an UPDATE of its columns (KF-INDEX-UPDATE) are not explored".into()]
    }
    fn item_timeout(&self, _tier: Tier) -> std::time::Duration {
        std::time::Duration::from_secs(200)
    }
}
