//! C16: any statement yields a result or an error.
use crate::fw::*;
use crate::sqlm::*;
use axmosdb::Database;
use serde_json::{Value, json};
use std::time::{Duration, Instant};

/// Statements of the accepted grammar (and some just outside of it) over the tables below.
const BASE: &[&str] = &[
    "SELECT * FROM t",
    "SELECT a, b + 1 AS c FROM t WHERE b > 5 AND a <> 2 ORDER BY c DESC LIMIT 2 OFFSET 1",
    "SELECT DISTINCT b FROM t WHERE s LIKE 'x%' OR s IS NULL",
    "SELECT COUNT(*), SUM(b), AVG(b), MIN(s), MAX(a) FROM t",
    "SELECT b, COUNT(a) FROM t GROUP BY b HAVING COUNT(*) > 1 ORDER BY b",
    "SELECT SUM(DISTINCT b + a) FROM t WHERE a BETWEEN 1 AND 3",
    "SELECT t.a, u.v FROM t JOIN u ON t.a = u.k WHERE u.x = TRUE",
    "SELECT t.a, u.v FROM t LEFT JOIN u ON t.a = u.k AND u.v > 1.5",
    "SELECT * FROM t RIGHT OUTER JOIN u ON t.b = u.y",
    "SELECT * FROM t FULL JOIN u ON t.a = u.k",
    "SELECT * FROM t CROSS JOIN u",
    "SELECT p.a, q.a FROM t p, t q WHERE p.b = q.b",
    "SELECT x.a FROM (SELECT a, b FROM t WHERE b > 1) AS x WHERE x.b < 20",
    "SELECT a FROM t WHERE a IN (1, 2, NULL)",
    "SELECT a FROM t WHERE a NOT IN (SELECT k FROM u)",
    "SELECT a FROM t WHERE EXISTS (SELECT k FROM u WHERE u.k = t.a)",
    "SELECT a, (SELECT MAX(k) FROM u) FROM t",
    "SELECT CASE WHEN a > 1 THEN 'big' WHEN a = 1 THEN s ELSE NULL END FROM t",
    "SELECT CASE a WHEN 1 THEN 10 ELSE b END FROM t",
    "WITH c AS (SELECT a FROM t) SELECT * FROM c WHERE a = 1",
    "SELECT UPPER(s), LENGTH(s), COALESCE(b, 0), ABS(-a), CONCAT(s, 'y') FROM t",
    "SELECT -a, NOT x, a % 2, b / a FROM t, u",
    "SELECT a / 0 FROM t",
    "SELECT b % 0 FROM t WHERE a = 1",
    "SELECT 9223372036854775807 + a FROM t",
    "SELECT y * y FROM u",
    "SELECT v FROM u ORDER BY 1",
    "SELECT 1",
    "INSERT INTO t VALUES (4, 40, 'n')",
    "INSERT INTO t (a, s) VALUES (5, 'q'), (6, NULL)",
    "INSERT INTO t VALUES (7, 70, 'n'), (1, 10, 'dup')",
    "INSERT INTO t VALUES (NULL, 1, 'x')",
    "INSERT INTO t SELECT k, y, 'z' FROM u WHERE k > 2",
    "INSERT INTO t SELECT a, b, s FROM t",
    "INSERT INTO u VALUES (3000000000, 1.5, TRUE, 1)",
    "INSERT INTO u VALUES (9, 'text', 1, -1)",
    "INSERT INTO w (z) VALUES (1)",
    "INSERT INTO w (q) VALUES (NULL)",
    "INSERT INTO t VALUES (1 / 0, 1, 'x')",
    "UPDATE t SET b = b + 1 WHERE a = 1",
    "UPDATE t SET b = 1 / (a - 2)",
    "UPDATE t SET s = NULL, b = a * 100 WHERE s = 'x'",
    "UPDATE u SET v = k, x = NOT x WHERE y IS NOT NULL",
    "UPDATE t SET a = 1",
    "UPDATE w SET z = NULL",
    "DELETE FROM t WHERE a = 1",
    "DELETE FROM t WHERE 10 / (a - 2) > 1",
    "DELETE FROM u",
    "DELETE FROM nothing WHERE a = 1",
    "CREATE TABLE n (a INT NOT NULL, b TEXT DEFAULT 'x', c DOUBLE, PRIMARY KEY (a), UNIQUE (b, c))",
    "CREATE TABLE IF NOT EXISTS t (a INT)",
    "CREATE TABLE t (a INT)",
    "CREATE TABLE n (a INT, a INT)",
    "CREATE TABLE n (a INT, FOREIGN KEY (a) REFERENCES t (a))",
    "CREATE UNIQUE INDEX j ON t (b, s)",
    "CREATE INDEX j ON t (s)",
    "CREATE UNIQUE INDEX j ON u (x)",
    "DROP TABLE t",
    "DROP TABLE IF EXISTS nothing CASCADE",
    "ALTER TABLE t ADD COLUMN c INT DEFAULT 3",
    "ALTER TABLE t DROP COLUMN b",
    "ALTER TABLE t DROP COLUMN a",
    "ALTER TABLE t ALTER COLUMN s BIGINT",
    "ALTER TABLE u ALTER COLUMN k INT",
    "ALTER TABLE t ALTER COLUMN b SET DEFAULT 5",
    "ALTER TABLE t ALTER COLUMN b SET NOT NULL",
    "ALTER TABLE w ALTER COLUMN z DROP NOT NULL",
    "ALTER TABLE t ADD CONSTRAINT UNIQUE (b)",
    "ALTER TABLE u ADD CONSTRAINT PRIMARY KEY (k)",
    "BEGIN",
    "COMMIT",
    "ROLLBACK",
    "",
    ";",
    "SELECT * FROM t; DROP TABLE t",
    "SELECT a FROM t UNION SELECT k FROM u",
    "SELECT CAST(a AS TEXT) FROM t",
    "EXPLAIN SELECT * FROM t",
    "GRANT ALL ON t TO x",
    "VACUUM",
    "SELECT COUNT(a, b), SUM(*), MAX() FROM t",
    "SELECT SUM(SUM(a)) FROM t",
    "SELECT a FROM t GROUP BY b",
    "SELECT * FROM t WHERE SUM(a) > 1",
    "SELECT NOSUCH(a), t.nosuch, v.a FROM t",
    "SELECT a FROM t WHERE a",
    "SELECT a FROM t WHERE s > 1",
    "SELECT s + 1, -s, s AND TRUE FROM t",
    "SELECT a FROM t LIMIT -1",
    "SELECT a FROM t LIMIT 99999999999999999999999",
    "SELECT '\u{e9}\u{1f600}', LENGTH('\u{1f600}'), UPPER('\u{df}') FROM t WHERE s LIKE '%\u{e9}_'",
];
/// Tokens of the soups and of the substitutions.
const TOK: &[&str] = &[
    "SELECT", "*", "FROM", "t", "WHERE", "a", "=", "1", "(", ")", ",", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE", "CREATE", "TABLE", "INDEX", "DROP", "ALTER", "'x'", "NULL", "AND", "NOT", "IN", "ORDER",
    "BY", "GROUP", "LIMIT", "JOIN", "ON", "AS", "-", "/", ".", ";", "0", "u", "COUNT", "CASE", "WHEN", "END", "BETWEEN", "LIKE", "IS", "EXISTS", "WITH", "UNIQUE", "ADD", "COLUMN", "INT", "1.5", "HAVING", "DISTINCT",
    "TRUE", "UNION", "99999999999999999999", "BEGIN", "COMMIT",
];
const SETUP: &[&str] = &[
    "CREATE TABLE t (a INT, b INT, s TEXT, PRIMARY KEY (a))",
    "CREATE UNIQUE INDEX i ON t (b)",
    "CREATE TABLE u (k BIGINT, v DOUBLE, x BOOLEAN, y INT, UNIQUE (y))",
    "CREATE TABLE w (z INT NOT NULL DEFAULT 5, q TEXT)",
    "INSERT INTO t VALUES (1, 10, 'x'), (2, 20, 'xy'), (3, NULL, NULL)",
    "INSERT INTO u VALUES (1, 1.5, TRUE, 7), (2, -0.5, FALSE, -7), (4, NULL, NULL, NULL)",
];
/// Longest a statement over these few rows may take.
const SLOW: Duration = Duration::from_secs(20);

struct W {
    _dir: Scratch,
    db: Database,
    base: Vec<String>,
    uses: usize,
}
fn digest(read: &mut dyn FnMut(&str) -> Res) -> Vec<String> {
    ["t", "u", "w", "n"]
        .iter()
        .map(|t| match read(&format!("SELECT * FROM {t}")) {
            Res::Err(_) => "missing".to_string(),
            r => r.show(),
        })
        .collect()
}
impl W {
    fn new() -> Self {
        let dir = Scratch::new();
        let db = Database::create(dir.path().join("d.db"), CFG.to()).unwrap();
        for s in SETUP {
            if let Res::Err(e) = run(&db, s) {
                panic!("setup: {s}: {e}");
            }
        }
        let base = digest(&mut |q| run(&db, q));
        W { _dir: dir, db, base, uses: 0 }
    }
}
struct X {
    w: Option<W>,
    /// statements that changed nothing, waiting for the contents to be compared
    batch: Vec<String>,
}
const BATCH: usize = 24;
impl X {
    fn w(&mut self) -> &mut W {
        if self.w.as_ref().is_some_and(|w| w.uses > 3000) {
            self.w = None;
        }
        self.w.get_or_insert_with(W::new)
    }
    /// Takes a statement: those that neither change anything nor control a transaction are executed
    /// a few at a time in the same session, the rest one by one.
    fn go(&mut self, sql: &str, out: &mut Out) -> bool {
        self.batch.push(sql.to_string());
        self.batch.len() < BATCH || self.flush(out)
    }
    fn flush(&mut self, out: &mut Out) -> bool {
        let list = std::mem::take(&mut self.batch);
        let mut rest = &list[..];
        while !rest.is_empty() {
            let (mut done, mut sound) = (0, true);
            let mut changing = None;
            {
                let w = self.w();
                let Ok(mut ses) = w.db.session() else { return self.one(&rest[0], out) };
                let mut want = w.base.clone();
                want[2] = "[(77,'own')]".into();
                take_panic();
                sound &= !run_s(&mut ses, "INSERT INTO w VALUES (77, 'own')").is_err();
                for sql in rest {
                    let t0 = Instant::now();
                    let r = run_s(&mut ses, sql);
                    if !matches!(r, Res::Rows(_) | Res::Err(_)) {
                        changing = Some(sql);
                        break;
                    }
                    let r2 = run(&w.db, sql);
                    done += 1;
                    out.step();
                    out.step();
                    w.uses += 1;
                    sound &= matches!(r2, Res::Rows(_) | Res::Err(_)) && r.is_err() == r2.is_err() && t0.elapsed() < SLOW && take_panic().is_none();
                    if !sound {
                        break;
                    }
                    Self::note(&r, &r2, out);
                }
                if changing.is_none() {
                    sound &= digest(&mut |q| run_s(&mut ses, q)) == want;
                }
                let _ = ses.abort_transaction();
                drop(ses);
                sound &= take_panic().is_none();
                if changing.is_none() {
                    sound &= digest(&mut |q| run(&w.db, q)) == w.base;
                }
            }
            if let Some(sql) = changing {
                // that one by itself, and those before it once more without it
                self.w = None;
                if !self.one(sql, out) {
                    return false;
                }
                let mut without: Vec<String> = rest[..done].to_vec();
                without.extend_from_slice(&rest[done + 1..]);
                if sound {
                    self.batch = without;
                    return self.flush(out);
                }
            } else if sound {
                out.traces += done as u64;
            }
            if !sound {
                self.w = None;
                for sql in &rest[..done] {
                    if !self.one(sql, out) {
                        return false;
                    }
                }
                // together they do what none of them does alone
                self.w = None;
                let before: Vec<String> = rest[..done].to_vec();
                let w = self.w();
                let mut now = vec![];
                for sql in &before {
                    let _ = run(&w.db, sql);
                    now = digest(&mut |q| run(&w.db, q));
                }
                if now != w.base || take_panic().is_some() {
                    out.violation(format!("{before:?}: none of them succeeds in changing anything, and they leave {now:?}"), json!({"batch": before}));
                    self.w = None;
                    return false;
                }
                self.w = None;
            }
            rest = &rest[done..];
        }
        true
    }
    fn note(r: &Res, r2: &Res, out: &mut Out) {
        let kind = |r: &Res| match r {
            Res::Rows(v) => format!("rows {}", v.len()),
            Res::Count(n) => format!("count {n}"),
            Res::Ddl => "ddl".into(),
            Res::Err(e) => e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect(),
        };
        out.state_of(&(kind(r), kind(r2)));
        out.count(if r2.is_err() { "refused" } else { "answered" }, 1);
    }
    /// One statement in a transaction that has already written, and by itself if it changes nothing.
    /// Returns false once a violation was found.
    fn one(&mut self, sql: &str, out: &mut Out) -> bool {
        let shown = if sql.len() > 300 { format!("{}... ({} bytes)", &sql.chars().take(200).collect::<String>(), sql.len()) } else { sql.to_string() };
        let hist = json!({"sql": if sql.len() > 4000 { shown.clone() } else { sql.to_string() }});
        macro_rules! bad {
            ($($a:tt)*) => {{ out.violation(format!("{shown:?}: {}", format!($($a)*)), hist.clone()); self.w = None; return false; }};
        }
        let w = self.w();
        w.uses += 1;
        out.traces += 1;
        let t0 = Instant::now();
        take_panic();
        let mut ses = match w.db.session() {
            Ok(s) => s,
            Err(e) => bad!("no session can be opened: {e}"),
        };
        let own = run_s(&mut ses, "INSERT INTO w VALUES (77, 'own')");
        if own.is_err() {
            bad!("a session cannot insert: {}", own.show());
        }
        let before = {
            let mut b = w.base.clone();
            b[2] = "[(77,'own')]".into();
            b
        };
        let r = run_s(&mut ses, sql);
        out.step();
        if let Some(p) = take_panic() {
            bad!("panicked: {p}");
        }
        let head = sql.trim_start().get(..6).unwrap_or("").to_uppercase();
        let control = ["BEGIN", "COMMIT", "ROLLBA"].iter().any(|k| head.starts_with(k));
        if r.is_err() {
            let after = digest(&mut |q| run_s(&mut ses, q));
            if after[2].contains("own") && after[2] != before[2] || !after[2].contains("own") {
                bad!("failed ({}), and what the transaction had written before is gone: {}", r.show(), after[2]);
            }
            if (0..4).any(|k| k != 2 && after[k] != before[k]) {
                bad!("failed ({}), and the session sees {after:?} instead of {before:?}", r.show());
            }
        }
        let in_place = head.starts_with("UPDATE") && !r.is_err();
        let _ = ses.abort_transaction();
        drop(ses);
        if in_place {
            // KF-UPDATE-IN-PLACE: rolling it back leaves the new values
            self.w = None;
        } else if control && !r.is_err() {
            self.w = None;
        }
        let w = self.w();
        let after = digest(&mut |q| run(&w.db, q));
        if after != w.base {
            let b = w.base.clone();
            bad!("{} in a transaction that was rolled back leaves {after:?} instead of {b:?}", r.show());
        }
        // by itself
        let r2 = run(&w.db, sql);
        out.step();
        if let Some(p) = take_panic() {
            bad!("panicked: {p}");
        }
        let after = digest(&mut |q| run(&w.db, q));
        if r2.is_err() || matches!(r2, Res::Rows(_)) {
            if after != w.base {
                let b = w.base.clone();
                bad!("gives {} and leaves {after:?} instead of {b:?}", r2.show());
            }
        } else {
            self.w = None;
        }
        if let Some(p) = take_panic() {
            bad!("panicked: {p}");
        }
        if t0.elapsed() > SLOW {
            bad!("took {:?}", t0.elapsed());
        }
        Self::note(&r, &r2, out);
        true
    }
}

fn words(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut q = false;
    for c in s.chars() {
        let fresh = match v.last().and_then(|w| w.chars().last()) {
            None => true,
            Some(l) => !q && (c == ' ' || l == ' ' || !(c.is_alphanumeric() || c == '_') || !(l.is_alphanumeric() || l == '_')),
        };
        if fresh {
            v.push(c.to_string());
        } else {
            v.last_mut().unwrap().push(c);
        }
        if c == '\'' {
            q = !q;
        }
    }
    v.retain(|w| w.trim() != "");
    v
}
fn join(v: &[String]) -> String {
    v.join(" ")
}
const OPS: &[&str] = &["+", "-", "*", "/", "%", "||", "=", "<>", "<", ">=", "AND", "OR", "LIKE", "NOT LIKE", "IN", "IS", "^", "&"];
const ATOMS: &[&str] = &[
    "NULL", "0", "1", "-1", "2147483647", "-2147483648", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1.5", "-0.0", "340282346638528859811704183484516925440000000", "'x'", "''", "'%_\\'", "TRUE", "t.a", "t.b", "t.s", "u.k", "u.v", "u.x", "(1, 2)", "*", "()", "(SELECT 1)",
    "(SELECT k FROM u)",
];
const FUNS: &[&str] = &[
    "LENGTH", "UPPER", "LOWER", "LTRIM", "RTRIM", "CONCAT", "ABS", "ROUND", "CEIL", "FLOOR", "SQRT", "COALESCE", "NULLIF", "COUNT", "SUM", "AVG", "MIN", "MAX", "NOW", "NOSUCH", "SUBSTRING", "POWER", "CAST", "IF", "COUNT DISTINCT",
];
/// Shapes that nest or repeat d times.
const SHAPES: &[&str] = &["paren", "not", "minus", "plus", "and", "or", "cmp", "case", "fun", "derived", "exists", "insub", "inlist", "values", "columns", "order", "joins", "comma", "cte", "select-list", "group", "like", "union", "between", "concat", "index", "set", "insert-cols", "open", "close", "quote", "dots", "semis", "nots", "when", "ctes"];
fn shape(k: &str, d: usize) -> String {
    let rep = |s: &str| s.repeat(d);
    let list = |f: &dyn Fn(usize) -> String, sep: &str| (0..d.max(1)).map(f).collect::<Vec<_>>().join(sep);
    match k {
        "paren" => format!("SELECT {}1{} FROM t", rep("("), rep(")")),
        "not" => format!("SELECT a FROM t WHERE {}TRUE", rep("NOT ")),
        "nots" => format!("SELECT a FROM t WHERE {}TRUE{}", rep("NOT ("), rep(")")),
        "minus" => format!("SELECT {}a FROM t", rep("- ")),
        "plus" => format!("SELECT a{} FROM t", rep(" + 1")),
        "and" => format!("SELECT a FROM t WHERE a = 1{}", rep(" AND b = 10")),
        "or" => format!("SELECT a FROM t WHERE a = 1{}", rep(" OR b = 10")),
        "cmp" => format!("SELECT a FROM t WHERE a{}", rep(" = a")),
        "case" => format!("SELECT {}1{} FROM t", rep("CASE WHEN a = 1 THEN "), rep(" ELSE 2 END")),
        "when" => format!("SELECT CASE {} ELSE 2 END FROM t", list(&|i| format!("WHEN a = {i} THEN {i}"), " ")),
        "fun" => format!("SELECT {}a{} FROM t", rep("ABS("), rep(")")),
        "concat" => format!("SELECT CONCAT({}) FROM t", list(&|_| "s".into(), ", ")),
        "derived" => format!("{}SELECT * FROM t{}", rep("SELECT * FROM ("), (0..d).map(|i| format!(") x{i}")).collect::<String>()),
        "exists" => format!("SELECT a FROM t WHERE {}TRUE{}", rep("EXISTS (SELECT k FROM u WHERE "), rep(")")),
        "insub" => format!("SELECT a FROM t WHERE {}TRUE{}", rep("a IN (SELECT k FROM u WHERE "), rep(")")),
        "inlist" => format!("SELECT a FROM t WHERE a IN ({})", list(&|i| i.to_string(), ", ")),
        "values" => format!("INSERT INTO t VALUES {}", list(&|i| format!("({}, {}, 'v')", i + 1000, i + 1000), ", ")),
        "columns" => format!("CREATE TABLE n ({})", list(&|i| format!("c{i} INT"), ", ")),
        "order" => format!("SELECT a FROM t ORDER BY {}", list(&|_| "a".into(), ", ")),
        "group" => format!("SELECT COUNT(*) FROM t GROUP BY {}", list(&|_| "a".into(), ", ")),
        "joins" => format!("SELECT COUNT(*) FROM t{}", (0..d).map(|i| format!(" JOIN u u{i} ON t.a = u{i}.k")).collect::<String>()),
        "comma" => format!("SELECT COUNT(*) FROM t{}", (0..d).map(|i| format!(", u u{i}")).collect::<String>()),
        "cte" => format!("{}SELECT * FROM t", rep("WITH c AS (SELECT 1) ")),
        "ctes" => format!("WITH {} SELECT * FROM c0", list(&|i| format!("c{i} AS (SELECT a FROM t)"), ", ")),
        "select-list" => format!("SELECT {} FROM t", list(&|_| "a".into(), ", ")),
        "like" => format!("SELECT a FROM t WHERE '{}' LIKE '{}b'", rep("a"), "%a".repeat(d.min(3000))),
        "union" => format!("SELECT a FROM t{}", rep(" UNION SELECT a FROM t")),
        "between" => format!("SELECT a FROM t WHERE a{}", rep(" BETWEEN 1 AND 3 AND a")),
        "index" => format!("CREATE UNIQUE INDEX j ON t ({})", list(&|_| "a".into(), ", ")),
        "set" => format!("UPDATE t SET {}", list(&|_| "b = 1".into(), ", ")),
        "insert-cols" => format!("INSERT INTO w ({}) VALUES ({})", list(&|_| "z".into(), ", "), list(&|_| "1".into(), ", ")),
        "open" => rep("("),
        "close" => format!("SELECT 1{}", rep(")")),
        "quote" => format!("SELECT {}", rep("'")),
        "dots" => format!("SELECT t{}.a FROM t", rep(".t")),
        "semis" => format!("SELECT a FROM t{}", rep(";")),
        _ => unreachable!(),
    }
}
/// Values of any size in any place.
const PLACES: &[&str] = &["text", "key", "row2", "update", "name", "table", "column", "literal", "number", "frac", "alias", "default", "comment", "pattern"];
fn sized(k: &str, n: usize) -> String {
    let x = "x".repeat(n);
    match k {
        "text" => format!("INSERT INTO t VALUES (9, 90, '{x}')"),
        "key" => format!("INSERT INTO n VALUES ('{x}')"),
        "row2" => format!("INSERT INTO t VALUES (9, 90, 'small'), (10, 100, '{x}')"),
        "update" => format!("UPDATE t SET s = '{x}'"),
        "name" => format!("SELECT {x} FROM t"),
        "table" => format!("CREATE TABLE {x} (a INT)"),
        "column" => format!("CREATE TABLE n ({x} INT, UNIQUE ({x}))"),
        "literal" => format!("SELECT LENGTH('{x}'), CONCAT('{x}', '{x}') FROM t WHERE s < '{x}'"),
        "number" => format!("SELECT {} FROM t", "9".repeat(n.max(1))),
        "frac" => format!("SELECT 0.{} FROM t", "9".repeat(n.max(1))),
        "alias" => format!("SELECT a AS {x} FROM t ORDER BY {x}"),
        "default" => format!("ALTER TABLE t ADD COLUMN c TEXT DEFAULT '{x}'"),
        "comment" => format!("SELECT a FROM t -- {x}"),
        "pattern" => format!("SELECT a FROM t WHERE s LIKE '{}'", "%_".repeat(n / 2)),
        _ => unreachable!(),
    }
}
const BYTES: &[char] = &['\0', '\t', '\n', '\r', '\u{1b}', '\u{7f}', '\u{80}', '\u{e9}', '\u{2028}', '\u{fffd}', '\u{1f600}', '\u{130}', '\u{df}', '\u{663}'];

pub struct C16;
impl Check for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn items(&self, tier: Tier) -> Vec<Value> {
        let mut v = vec![];
        for k in SHAPES {
            let cap = if matches!(*k, "values") { tier.pick(1000, 3000) } else if matches!(*k, "joins") { 5 } else if matches!(*k, "comma") { 6 } else { tier.pick(30_000, 300_000) };
            for d in [1usize, 2, 3, 4, 5, 6, 10, 20, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 3000, 10_000, 30_000, 100_000, 300_000] {
                if d <= cap {
                    v.push(json!({"k": "deep", "shape": k, "d": d}));
                }
            }
        }
        for p in PLACES {
            v.push(json!({"k": "sized", "place": p}));
        }
        for i in 0..BASE.len() {
            v.push(json!({"k": "mut", "base": i}));
            v.push(json!({"k": "after", "base": i}));
            v.push(json!({"k": "chars", "base": i}));
        }
        for cache in tier.pick(vec![1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 24, 40], (1..=40).collect::<Vec<usize>>()) {
            for what in PRESSURE {
                v.push(json!({"k": "pressure", "cache": cache, "what": what}));
            }
        }
        for o in 0..OPS.len() {
            v.push(json!({"k": "op", "op": o}));
        }
        for f in 0..FUNS.len() {
            v.push(json!({"k": "fun", "fun": f}));
        }
        for i in 0..TOK.len() {
            v.push(json!({"k": "soup", "first": i, "len": 3}));
        }
        for c in (32u8..127).map(|c| c as char).chain(BYTES.iter().copied()) {
            v.push(json!({"k": "bytes", "first": c.to_string()}));
        }
        if tier == Tier::Thorough {
            for i in 0..TOK.len() {
                for j in 0..TOK.len() {
                    v.push(json!({"k": "soup4", "first": i, "second": j}));
                }
            }
            for o in 0..OPS.len() {
                for p in 0..OPS.len() {
                    v.push(json!({"k": "op2", "op": o, "inner": p}));
                }
            }
            for i in 0..BASE.len() {
                v.push(json!({"k": "mut2", "base": i}));
            }
        }
        v
    }
    fn run(&self, tier: Tier, spec: &Value, out: &mut Out) {
        let mut x = X { w: None, batch: vec![] };
        let u = |k: &str| spec[k].as_u64().unwrap_or(0) as usize;
        let st = |k: &str| spec[k].as_str().unwrap_or("");
        if let Some(b) = spec.get("batch").and_then(|b| b.as_array()) {
            x.batch = b.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect();
            x.flush(out);
            return;
        }
        if let Some(b) = spec.get("statements").and_then(|b| b.as_array()) {
            let list: Vec<&str> = b.iter().map(|s| s.as_str().unwrap_or("")).collect();
            seq(&list, spec["session"].as_bool().unwrap_or(false), out);
            return;
        }
        if let Some(sql) = spec.get("sql").and_then(|s| s.as_str()) {
            x.one(sql, out);
            return;
        }
        let mut go = |sql: &str, out: &mut Out| x.go(sql, out);
        match st("k") {
            "deep" => {
                go(&shape(st("shape"), u("d")), out);
            }
            "sized" => {
                let mut sizes: Vec<usize> = (0..=tier.pick(20, 22)).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
                sizes.extend((1000..1400).step_by(tier.pick(50, 5)));
                sizes.extend((3900..4200).step_by(tier.pick(50, 5)));
                sizes.extend((40_000..41_200).step_by(tier.pick(100, 10)));
                sizes.extend((20_000..20_600).step_by(tier.pick(100, 10)));
                sizes.extend([300, 600, 900, 2000, 8000, 12_000, 13_600, 13_700, 16_000, 30_000, 60_000]);
                sizes.sort();
                sizes.dedup();
                for n in sizes {
                    if !go(&sized(st("place"), n), out) {
                        return;
                    }
                }
            }
            "mut" | "mut2" => {
                let w = words(BASE[u("base")]);
                let mut all = vec![BASE[u("base")].to_string()];
                for i in 0..w.len() {
                    let mut a = w.clone();
                    a.remove(i);
                    all.push(join(&a));
                    all.push(join(&w[..i]));
                    all.push(join(&w[i..]));
                    let mut a = w.clone();
                    a.insert(i, w[i].clone());
                    all.push(join(&a));
                    if i + 1 < w.len() {
                        let mut a = w.clone();
                        a.swap(i, i + 1);
                        all.push(join(&a));
                        a.drain(i..i + 2);
                        all.push(join(&a));
                    }
                    for t in TOK {
                        let mut a = w.clone();
                        a[i] = t.to_string();
                        all.push(join(&a));
                        a.insert(i, w[i].clone());
                        all.push(join(&a));
                    }
                    if st("k") == "mut2" {
                        for j in i + 1..w.len() {
                            for t in TOK {
                                for t2 in TOK.iter().step_by(3) {
                                    let mut a = w.clone();
                                    a[i] = t.to_string();
                                    a[j] = t2.to_string();
                                    all.push(join(&a));
                                }
                            }
                        }
                    }
                }
                for s in all {
                    if !go(&s, out) {
                        return;
                    }
                }
            }
            "chars" => {
                let c: Vec<char> = BASE[u("base")].chars().collect();
                for i in 0..=c.len() {
                    let mut all: Vec<String> = vec![c[..i].iter().collect()];
                    for ins in ['\'', '"', '(', ')', ',', '.', '-', '\0', '\u{e9}', ';', '9', '`', '\\', '\n', '%'] {
                        all.push(c[..i].iter().chain([&ins]).chain(&c[i..]).collect());
                        if i < c.len() {
                            all.push(c[..i].iter().chain([&ins]).chain(&c[i + 1..]).collect());
                        }
                    }
                    for s in all {
                        if !go(&s, out) {
                            return;
                        }
                    }
                }
            }
            "pressure" => pressure(u("cache"), st("what"), tier, out),
            "after" => after(u("base"), tier, out),
            "op" | "op2" => {
                let op = OPS[u("op")];
                for l in ATOMS {
                    for r in ATOMS {
                        let e = format!("{l} {op} {r}");
                        let all = if st("k") == "op" {
                            vec![format!("SELECT {e} FROM t, u"), format!("SELECT t.a FROM t, u WHERE {e}"), format!("SELECT SUM({e}), COUNT(*) FROM t, u GROUP BY {e}"), format!("SELECT {e} AS o FROM t LEFT JOIN u ON {e} ORDER BY o"), format!("INSERT INTO t VALUES ({e}, 5, 'x')")]
                        } else {
                            ATOMS.iter().flat_map(|z| [format!("SELECT ({e}) {} {z} FROM t, u", OPS[u("inner")]), format!("SELECT t.a FROM t, u WHERE {z} {} ({e})", OPS[u("inner")])]).collect()
                        };
                        for s in all {
                            if !go(&s, out) {
                                return;
                            }
                        }
                    }
                }
            }
            "fun" => {
                let f = FUNS[u("fun")];
                let call = |a: &str| if f == "COUNT DISTINCT" { format!("COUNT(DISTINCT {a})") } else { format!("{f}({a})") };
                let mut args = vec![String::new()];
                for a in ATOMS {
                    args.push(a.to_string());
                    for b in ATOMS {
                        args.push(format!("{a}, {b}"));
                        if tier == Tier::Thorough {
                            args.extend(ATOMS.iter().map(|c| format!("{a}, {b}, {c}")));
                        }
                    }
                }
                for a in args {
                    let e = call(&a);
                    for s in [format!("SELECT {e} FROM t, u"), format!("SELECT t.a FROM t, u WHERE {e} = 1"), format!("SELECT t.a, {e} FROM t, u GROUP BY t.a HAVING {e} > 0 ORDER BY {e}")] {
                        if !go(&s, out) {
                            return;
                        }
                    }
                }
            }
            "soup" => {
                let a = TOK[u("first")];
                let mut all = vec![a.to_string()];
                for b in TOK {
                    all.push(format!("{a} {b}"));
                    all.push(format!("{a}{b}"));
                    all.extend(TOK.iter().map(|c| format!("{a} {b} {c}")));
                }
                for s in all {
                    if !go(&s, out) {
                        return;
                    }
                }
            }
            "soup4" => {
                let (a, b) = (TOK[u("first")], TOK[u("second")]);
                for c in TOK {
                    for d in TOK {
                        if !go(&format!("{a} {b} {c} {d}"), out) {
                            return;
                        }
                    }
                }
            }
            "bytes" => {
                let a = st("first");
                let set: Vec<char> = (32u8..127).map(|c| c as char).chain(BYTES.iter().copied()).collect();
                let mut all = vec![a.to_string()];
                for b in &set {
                    all.push(format!("{a}{b}"));
                    all.push(format!("SELECT {a}{b}"));
                    all.push(format!("SELECT {a}{b} FROM t"));
                    all.push(format!("SELECT a FROM t WHERE s = '{a}{b}"));
                    all.push(format!("SELECT a FROM t WHERE s LIKE '{a}{b}'"));
                    if tier == Tier::Thorough {
                        all.extend(set.iter().map(|c| format!("{a}{b}{c}")));
                        all.extend(set.iter().map(|c| format!("SELECT {a}{b}{c} FROM t")));
                    }
                }
                for s in all {
                    if !go(&s, out) {
                        return;
                    }
                }
            }
            k => panic!("unknown item {k}"),
        }
        x.flush(out);
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "{} base statements over the whole grammar (3 tables with keys, NULLs, indexes): every deletion, prefix, suffix, duplication, swap, substitution and insertion of each of {} tokens at every position{}, every single character inserted or replaced by 15 others and every prefix; every {} of tokens; every string of up to {} characters of {} (alone, as an expression, in an open string, as a LIKE pattern); every binary operator over every pair of {} operands in 5 positions{}; every function with up to {} of these arguments in 3 positions; {} nesting and repetition shapes up to {} levels; {} places with values of up to {} bytes; every pair of base statements one after the other{} by itself and in a session; 8 long sequences (hundreds of versions of a row, rows of up to 39 kB, hundreds of rows, DDL, joins) on caches of 1 to 40 pages. Each statement runs in a transaction that has already written and by itself; an error has to leave what the session and everyone else sees as it was, and everything has to keep working",
            BASE.len(),
            TOK.len(),
            tier.pick("", " (every pair of positions with a third of the tokens at the second)"),
            tier.pick("sequence of up to 3", "sequence of up to 4"),
            tier.pick(2, 3),
            95 + BYTES.len(),
            ATOMS.len(),
            tier.pick("", " and nested once more"),
            tier.pick(2, 3),
            SHAPES.len(),
            tier.pick(30_000, 300_000),
            PLACES.len(),
            1u64 << tier.pick(20, 22),
            tier.pick("", " (and a third one)")
        )
    }
    fn item_timeout(&self, tier: Tier) -> Duration {
        Duration::from_secs(tier.pick(120, 1200))
    }
}

/// Statements one after the other on the same database and in the same session: an error leaves
/// everything as it was, whatever came before.
fn after(first: usize, tier: Tier, out: &mut Out) {
    let third: Vec<Option<usize>> = tier.pick(vec![None], (0..BASE.len()).step_by(3).map(Some).collect());
    for j in 0..BASE.len() {
        for t in &third {
            let list: Vec<&str> = [Some(first), Some(j), *t].iter().flatten().map(|k| BASE[*k]).collect();
            for session in [false, true] {
                if !seq(&list, session, out) {
                    return;
                }
            }
        }
    }
}
fn full(r: &Res) -> String {
    match r {
        Res::Rows(v) => {
            let mut t: Vec<String> = v.iter().map(|r| r.iter().map(|v| v.text()).collect::<Vec<_>>().join(",")).collect();
            t.sort();
            t.join(" ")
        }
        r => r.show(),
    }
}
const PRESSURE: &[&str] = &["versions", "versions-session", "wide", "rows", "ddl", "delete-insert", "queries", "batch"];
/// Long sequences that grow one row, a table or the catalog, on caches down to a single page: every
/// statement gives a result or an error, an error changes nothing, and statements that only read keep
/// giving the same answer.
fn pressure(cache: usize, what: &str, tier: Tier, out: &mut Out) {
    let dir = Scratch::new();
    let hist = json!({"k": "pressure", "cache": cache, "what": what});
    macro_rules! bad {
        ($($a:tt)*) => {{ out.violation(format!("{what} with {cache} cached pages: {}", format!($($a)*)), hist.clone()); return; }};
    }
    take_panic();
    out.traces += 1;
    let db = match guarded(|| Database::create(dir.path().join("d.db"), Cfg { cache, ..CFG }.to())) {
        Ok(Ok(db)) => db,
        Ok(Err(_)) => {
            out.count("no database with this cache", 1);
            return;
        }
        Err(p) => bad!("creating the database panicked: {p}"),
    };
    let mut stmts: Vec<String> = SETUP.iter().map(|s| s.to_string()).collect();
    let pad = |n: usize, c: u8| String::from_utf8(vec![c; n]).unwrap();
    let session = what == "versions-session";
    let from = stmts.len();
    match what {
        "versions" | "versions-session" => stmts.extend((0..tier.pick(300, 700)).map(|i| format!("UPDATE t SET b = {}, s = 'v{i}' WHERE a = 1", 100 + i))),
        "wide" => {
            for i in 0..tier.pick(14, 40) {
                stmts.push(format!("INSERT INTO t VALUES ({}, {}, '{}')", 100 + i, 100 + i, pad(i * 2900 % 39_000, b'a')));
                stmts.push(format!("UPDATE t SET s = '{}' WHERE a = {}", pad((i * 1700 + 900) % 19_000, b'b'), 100 + i / 2));
                stmts.push("SELECT COUNT(*), MAX(LENGTH(s)) FROM t".into());
            }
        }
        "rows" => {
            for i in 0..tier.pick(120, 400) {
                stmts.push(format!("INSERT INTO t VALUES ({}, {}, '{}')", 100 + i, 1000 - i, pad(200, b'c')));
                if i % 20 == 19 {
                    stmts.push(format!("INSERT INTO t VALUES {}", (0..20).map(|k| format!("({}, {}, 'm')", 5000 + i * 100 + k, 5000 + i * 100 + k)).collect::<Vec<_>>().join(", ")));
                    stmts.push("UPDATE t SET s = 'short' WHERE a > 150".into());
                }
            }
        }
        "ddl" => {
            for i in 0..tier.pick(14, 30) {
                stmts.push(format!("CREATE TABLE n{i} (a INT, b INT, c TEXT, PRIMARY KEY (a), UNIQUE (b), UNIQUE (c, b))"));
                stmts.push(format!("INSERT INTO n{i} VALUES (1, 2, 'x')"));
                stmts.push(format!("ALTER TABLE t ADD COLUMN c{i} INT DEFAULT {i}"));
                stmts.push(format!("DROP TABLE n{i}"));
            }
        }
        "delete-insert" => {
            for i in 0..tier.pick(60, 200) {
                stmts.push("DELETE FROM t WHERE a = 1".into());
                stmts.push(format!("INSERT INTO t VALUES (1, {}, '{}')", 100 + i, pad(i * 37 % 900, b'd')));
            }
        }
        "queries" => {
            stmts.push(format!("INSERT INTO t VALUES {}", (0..60).map(|k| format!("({}, {}, '{}')", 100 + k, 100 + k, pad(100, b'q'))).collect::<Vec<_>>().join(", ")));
            stmts.extend(BASE.iter().filter(|q| q.starts_with("SELECT") || q.starts_with("WITH")).map(|q| q.to_string()));
            stmts.extend(["SELECT COUNT(*) FROM t p, t q, u", "SELECT p.a FROM t p JOIN t q ON p.a = q.b ORDER BY p.s, q.s", "SELECT s, COUNT(*) FROM t GROUP BY s ORDER BY s"].map(|q| q.to_string()));
        }
        _ => {
            for i in 0..tier.pick(20, 60) {
                stmts.push(format!("INSERT INTO t SELECT a + {0}, a + {0}, s FROM t WHERE a < 10", 100 * (i + 1)));
                stmts.push(format!("DELETE FROM t WHERE a > {}", 100 * (i + 1) + 1));
            }
        }
    }
    let mut ses = None;
    let mut before: Option<Vec<String>> = None;
    for (n, q) in stmts.iter().enumerate() {
        if n == from && session {
            ses = db.session().ok();
        }
        let mut exec = |q: &str| match &mut ses {
            Some(s) => run_s(s, q),
            None => run(&db, q),
        };
        let t0 = Instant::now();
        let r = exec(q);
        out.step();
        let shown: String = q.chars().take(60).collect();
        if let Some(p) = take_panic() {
            bad!("statement {n} {shown:?} panicked: {p}");
        }
        if t0.elapsed() > SLOW {
            bad!("statement {n} {shown:?} took {:?}", t0.elapsed());
        }
        // a table that cannot be read within this cache is not compared
        let unreadable = |v: &Vec<String>| v.iter().any(|d| d == "missing");
        let mut read = |t: &str| match exec(t) {
            Res::Err(_) => "missing".to_string(),
            r => full(&r),
        };
        let now: Vec<String> = ["SELECT * FROM t", "SELECT a FROM t WHERE a = 1", "SELECT * FROM u"].iter().map(|q| read(q)).collect();
        if let Some(p) = take_panic() {
            bad!("reading after statement {n} {shown:?} panicked: {p}");
        }
        if let Some(b) = &before {
            if matches!(r, Res::Err(_) | Res::Rows(_)) && now != *b && !unreadable(&now) && !unreadable(b) {
                let k = (0..now.len()).find(|k| now[*k] != b[*k]).unwrap();
                let cut = |s: &String| s.chars().take(300).collect::<String>();
                bad!("statement {n} {shown:?} gives {} and changes {:?} to {:?}", cut(&r.show()), cut(&b[k]), cut(&now[k]));
            }
        }
        if let (Some(b), Res::Count(c)) = (&before, &r) {
            if *c > 0 && q.starts_with("UPDATE") && now[0] == b[0] && !unreadable(&now) {
                bad!("statement {n} {shown:?} reports {c} rows and changes nothing");
            }
        }
        out.state_of(&(r.is_err(), n.min(40)));
        out.count(if r.is_err() { "refused" } else { "answered" }, 1);
        before = Some(now);
    }
    if let Some(mut s) = ses.take() {
        let r = guarded(|| s.commit_transaction().is_ok());
        if let Err(p) = r {
            bad!("COMMIT panicked: {p}");
        }
    }
    drop(db);
    if let Some(p) = take_panic() {
        bad!("closing panicked: {p}");
    }
    // with enough memory, everything is there
    let db = match guarded(|| Database::open(dir.path().join("d.db"), CFG.to())) {
        Ok(Ok(db)) => db,
        Ok(Err(e)) => bad!("cannot be reopened: {e}"),
        Err(p) => bad!("reopening panicked: {p}"),
    };
    let now: Vec<String> = ["SELECT * FROM t", "SELECT a FROM t WHERE a = 1", "SELECT * FROM u"].iter().map(|q| full(&run(&db, q))).collect();
    if let Some(b) = before {
        for k in 0..now.len() {
            if b[k] != "missing" && now[k] != b[k] {
                bad!("after reopening {:?} gives {:?} instead of {:?}", k, now[k].chars().take(300).collect::<String>(), b[k].chars().take(300).collect::<String>());
            }
        }
    }
}
fn seq(list: &[&str], session: bool, out: &mut Out) -> bool {
    let w = W::new();
    let hist = json!({"statements": list, "session": session});
    macro_rules! bad {
        ($($a:tt)*) => {{ out.violation(format!("{list:?}{}: {}", if session { " in a session" } else { "" }, format!($($a)*)), hist.clone()); return false; }};
    }
    let mut ses = if session { w.db.session().ok() } else { None };
    let mut exec = |q: &str| match &mut ses {
        Some(s) => run_s(s, q),
        None => run(&w.db, q),
    };
    take_panic();
    out.traces += 1;
    let mut before = digest(&mut exec);
    for q in list {
        let t0 = Instant::now();
        let r = exec(q);
        out.step();
        let after = digest(&mut exec);
        if let Some(p) = take_panic() {
            bad!("{q:?} panicked: {p}");
        }
        if (r.is_err() || matches!(r, Res::Rows(_))) && after != before {
            bad!("{q:?} gives {} and leaves {after:?} instead of {before:?}", r.show());
        }
        if t0.elapsed() > SLOW {
            bad!("{q:?} took {:?}", t0.elapsed());
        }
        before = after;
        out.state_of(&before);
    }
    // the session can still be ended and the database still works
    if let Some(mut s) = ses.take() {
        let _ = s.commit_transaction();
        drop(s);
        let after = digest(&mut |q| run(&w.db, q));
        let control = list.iter().any(|q| ["BEGIN", "COMMIT", "ROLLBACK"].contains(q));
        if after != before && !control {
            bad!("after COMMIT {after:?} instead of {before:?}");
        }
    }
    let r = run(&w.db, "INSERT INTO w VALUES (123, 'alive')");
    if r.is_err() {
        bad!("afterwards an INSERT gives {}", r.show());
    }
    true
}
