//! C05/C06, truth values: columns of type BOOL holding every pair of TRUE, FALSE and NULL, alone and
//! combined by every operator that takes or gives one.
use crate::c05::*;
use crate::fw::*;
use crate::sqlm::V::*;
use crate::sqlm::*;
use serde_json::{Value, json};

pub const SH: usize = 6;

pub fn table_b() -> Vec<St> {
    let mut v = vec![];
    for (name, shift) in [("q", 0), ("r", 4)] {
        v.push(St::Create(name.into(), vec![c("id", "INT"), c("f", "BOOL"), c("g", "BOOL"), c("a", "INT")], vec![], vec![]));
        let mut rows = vec![];
        let tri = [B(true), B(false), N];
        for i in 0..9usize {
            let j = (i + shift) % 9;
            let a = if i == 5 { N } else { I((i % 3) as i128) };
            rows.push(vec![n(i as i128), lit(tri[j / 3].clone()), lit(tri[j % 3].clone()), lit(a)]);
        }
        v.push(St::Ins(name.into(), None, rows));
    }
    v
}
pub fn indexes(set: usize) -> Vec<St> {
    let ix = |name: &str, t: &str, cols: &[&str]| St::Index(name.into(), t.into(), cols.iter().map(|x| x.to_string()).collect());
    match set {
        1 => vec![ix("ia", "q", &["f", "id"]), ix("ib", "r", &["g", "f", "id"])],
        2 => vec![ix("ia", "q", &["g", "f", "id"]), ix("ib", "r", &["f", "a", "id"])],
        _ => vec![],
    }
}
fn one() -> Vec<E> {
    let (f, g, a) = (|| col("f"), || col("g"), || col("a"));
    let mut v = vec![f(), not(f()), not(not(f())), lit(N), lit(B(true)), eq(a(), n(1)), isnull(f(), false), isnull(f(), true)];
    for op in ["=", "<>", "<", "<=", ">", ">="] {
        v.push(bin(f(), op, g()));
        v.push(bin(f(), op, lit(B(true))));
        v.push(bin(lit(B(false)), op, g()));
        v.push(eq(bin(f(), op, g()), bin(a(), op, n(1))));
    }
    v.push(eq(f(), bin(a(), ">", n(1))));
    v.push(eq(eq(f(), g()), lit(B(false))));
    v.push(eq(f(), lit(N)));
    for neg in [false, true] {
        v.push(inl(f(), vec![lit(B(true))], neg));
        v.push(inl(f(), vec![g()], neg));
        v.push(inl(f(), vec![lit(N)], neg));
        v.push(inl(f(), vec![g(), lit(B(false))], neg));
        v.push(inl(f(), vec![lit(B(true)), lit(N)], neg));
        v.push(between(f(), lit(B(false)), g(), neg));
        v.push(between(f(), g(), lit(B(true)), neg));
        for val in [false, true] {
            v.push(isbool(f(), val, neg));
            v.push(isbool(eq(a(), n(1)), val, neg));
        }
    }
    v
}
fn all() -> Vec<E> {
    let o = one();
    let mut v = o.clone();
    v.extend(o.iter().map(|e| not(e.clone())));
    for x in &o {
        for y in &o {
            for op in ["AND", "OR"] {
                v.push(bin(x.clone(), op, y.clone()));
            }
        }
        for y in [col("f"), col("g"), isnull(col("g"), false), eq(col("f"), col("g"))] {
            for op in ["AND", "OR"] {
                v.push(bin(not(x.clone()), op, y.clone()));
                v.push(not(bin(y.clone(), op, x.clone())));
                for val in [false, true] {
                    v.push(isbool(bin(x.clone(), op, y.clone()), val, true));
                }
            }
            v.push(eq(x.clone(), y.clone()));
        }
    }
    v
}
fn from_q(items: Vec<E>) -> Sel {
    Sel::from(tab("q")).items(items)
}
pub fn filters(tier: Tier) -> Vec<Sel> {
    tier.pick(one(), all()).into_iter().map(|e| from_q(vec![col("id")]).wher(e)).collect()
}
/// The same expressions in the other places an expression can stand.
fn places() -> Vec<Sel> {
    let mut v = vec![];
    for e in all() {
        v.push(from_q(vec![col("id"), e.clone()]));
    }
    for e in one() {
        for asc in [true, false] {
            v.push(from_q(vec![col("id"), col("f"), col("g")]).order(vec![(e.clone(), asc), (col("id"), true)]));
        }
        let mut d = from_q(vec![e.clone()]);
        d.distinct = true;
        v.push(d);
        let mut gq = from_q(vec![col("f"), count(), agg("COUNT", col("g")), aggd("COUNT", e.clone())]);
        gq.group = vec![col("f")];
        v.push(gq.clone());
        gq.items = vec![(col("f"), None), (col("g"), None), (agg("MIN", col("id")), None)];
        gq.group = vec![col("f"), col("g")];
        gq.wher = Some(e.clone());
        v.push(gq);
    }
    for h in [bin(count(), ">", n(2)), eq(agg("MIN", col("f")), lit(B(false))), isnull(agg("MAX", col("g")), false), eq(agg("MAX", col("f")), col("g"))] {
        let mut gq = from_q(vec![col("g"), agg("MIN", col("f")), agg("MAX", col("f")), count()]);
        gq.group = vec![col("g")];
        gq.having = Some(h.clone());
        v.push(gq);
    }
    v.push(from_q(vec![agg("MIN", col("f")), agg("MAX", col("g")), aggd("COUNT", col("f"))]));
    v
}
pub fn joined() -> Vec<Sel> {
    let (qf, qg, rf, rg) = (|| col("q.f"), || col("q.g"), || col("r.f"), || col("r.g"));
    let ons = vec![
        eq(qf(), rf()),
        eq(rg(), qf()),
        and(eq(qf(), rg()), eq(qg(), rf())),
        and(qf(), rf()),
        or(qf(), rf()),
        isbool(eq(qf(), rf()), false, true),
        isbool(and(qf(), rg()), true, true),
        and(eq(qf(), rf()), qg()),
        and(eq(qf(), rf()), not(rg())),
        bin(qf(), "<", rf()),
        and(eq(col("q.id"), col("r.id")), isnull(rf(), false)),
    ];
    let wheres = vec![None, Some(rg()), Some(not(qg())), Some(isnull(rf(), false)), Some(isbool(rf(), true, true)), Some(isbool(eq(qf(), rg()), false, true)), Some(and(qf(), rf()))];
    let mut v = vec![];
    for kind in ["JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN"] {
        for on in &ons {
            for w in &wheres {
                let mut s = Sel::from(join(tab("q"), kind, tab("r"), Some(on.clone()))).items(vec![col("q.id"), col("r.id"), rf()]);
                s.wher = w.clone();
                v.push(s);
            }
        }
    }
    v
}
fn dml() -> Vec<St> {
    let mut v = vec![];
    for e in one() {
        v.push(St::Upd("q".into(), vec![("f".into(), e.clone()), ("g".into(), col("f"))], None));
        v.push(St::Upd("q".into(), vec![("a".into(), n(9))], Some(e.clone())));
        v.push(St::Del("q".into(), Some(e.clone())));
        v.push(St::InsSel("q".into(), from_q(vec![bin(col("id"), "+", n(50)), e.clone(), col("f"), col("a")])));
    }
    v.push(St::Ins("q".into(), None, vec![vec![n(20), eq(n(1), n(1)), not(lit(B(true))), n(1)], vec![n(21), eq(n(1), lit(N)), and(lit(N), lit(B(false))), lit(N)]]));
    v
}
pub fn items() -> Vec<Value> {
    let mut v = vec![];
    for ix in 0..3 {
        for sh in 0..SH {
            v.push(json!({"t": "bool", "f": "queries", "ix": ix, "sh": sh}));
            v.push(json!({"t": "bool", "f": "dml", "ix": ix, "sh": sh}));
        }
    }
    v
}
pub fn run_item(spec: &Value, out: &mut Out) {
    let (ix, sh) = (spec["ix"].as_u64().unwrap() as usize, spec["sh"].as_u64().unwrap() as usize);
    let setup = [table_b(), indexes(ix)].concat();
    if spec["f"] == "dml" {
        for (i, st) in dml().iter().enumerate() {
            if i % SH != sh {
                continue;
            }
            let Some(mut c) = Ctx::new(CFG, &setup, out) else { return };
            out.step();
            out.state(hash_of(&("bool", ix, st.sql(false))));
            let r = c.step(st).and_then(|_| same_contents(&c.model, |s| run(&c.db, s)).map_err(|e| format!("after {}: {e}", st.sql(false))));
            if let Err(e) = r {
                out.violation(e, json!({"setup": c.setup}));
            }
            out.traces += 1;
        }
        return;
    }
    let Some(c) = Ctx::new(CFG, &setup, out) else { return };
    for (i, q) in filters(Tier::Thorough).into_iter().chain(places()).chain(joined()).enumerate() {
        if i % SH == sh {
            c.query(&q, out);
        }
    }
    out.traces += 1;
}
pub fn bounds() -> String {
    format!("BOOL columns holding every pair of TRUE, FALSE and NULL: {} predicates, {} uses of them as output, ordering, grouping and distinct keys, {} joins on them and {} DML statements, without and with two sets of indexes", filters(Tier::Thorough).len(), places().len(), joined().len(), dml().len())
}
