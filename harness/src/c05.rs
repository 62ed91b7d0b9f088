//! C05: query answers against the reference interpreter (sqlm.rs), over enumerated statements.
use crate::fw::*;
use crate::sqlm::V::*;
use crate::sqlm::*;
use axmosdb::Database;
use serde_json::{Value, json};

pub struct C05;

/// p(id, a, b, s): every combination of NULL,0,1,2 for a and b with four strings.
pub fn table_p() -> Vec<St> {
    let mut v = vec![St::Create("p".into(), vec![c("id", "INT"), c("a", "INT"), c("b", "INT"), c("s", "TEXT")], vec![], vec![])];
    let iv = [N, I(0), I(1), I(2)];
    let sv = [N, s(""), s("a"), s("ab")];
    let mut id = 0;
    let mut rows = vec![];
    for a in &iv {
        for b in &iv {
            for t in &sv {
                rows.push(vec![n(id), lit(a.clone()), lit(b.clone()), lit(t.clone())]);
                id += 1;
            }
        }
    }
    for ch in rows.chunks(16) {
        v.push(St::Ins("p".into(), None, ch.to_vec()));
    }
    v
}
pub fn like_e(e: E, p: &str, neg: bool) -> E {
    E::Like(Box::new(e), Box::new(lit(s(p))), neg)
}
pub fn between(e: E, l: E, h: E, neg: bool) -> E {
    E::Between(Box::new(e), Box::new(l), Box::new(h), neg)
}
pub fn inl(e: E, l: Vec<E>, neg: bool) -> E {
    E::In(Box::new(e), l, neg)
}
pub fn isnull(e: E, neg: bool) -> E {
    E::IsNull(Box::new(e), neg)
}
pub fn atoms() -> Vec<E> {
    let (a, b, st) = (|| col("a"), || col("b"), || col("s"));
    let mut v = vec![];
    for op in ["=", "<>", "<", "<=", ">", ">="] {
        v.push(bin(a(), op, b()));
        v.push(bin(a(), op, n(1)));
        v.push(bin(n(1), op, b()));
        v.push(bin(bin(a(), "+", b()), op, n(2)));
        v.push(bin(a(), op, bin(b(), "*", n(2))));
        v.push(bin(st(), op, lit(s("a"))));
    }
    for neg in [false, true] {
        v.push(isnull(a(), neg));
        v.push(isnull(bin(a(), "+", b()), neg));
        v.push(between(a(), n(1), n(2), neg));
        v.push(between(a(), b(), n(1), neg));
        v.push(between(n(1), a(), b(), neg));
        v.push(between(st(), lit(s("")), lit(s("a")), neg));
        v.push(inl(a(), vec![n(0), n(2)], neg));
        v.push(inl(a(), vec![b(), n(1)], neg));
        v.push(inl(a(), vec![n(1), lit(N)], neg));
        v.push(inl(a(), vec![n(1)], neg));
        v.push(inl(a(), vec![b()], neg));
        v.push(inl(a(), vec![lit(N)], neg));
        v.push(inl(n(1), vec![a(), b(), n(1)], neg));
        v.push(inl(st(), vec![lit(s("a")), lit(s("b"))], neg));
        v.push(like_e(st(), "a%", neg));
        v.push(like_e(st(), "_", neg));
    }
    v.push(lit(B(true)));
    v.push(lit(B(false)));
    v.push(eq(a(), lit(N)));
    v.push(eq(n(1), n(1)));
    v.push(eq(n(1), n(2)));
    v.push(bin(bin(a(), "-", b()), "<", E::Neg(Box::new(n(0)))));
    v.push(bin(E::Neg(Box::new(a())), "<", b()));
    v.push(eq(bin(a(), "%", n(2)), n(1)));
    v
}
/// A reduced list with one atom of every shape.
pub fn few() -> Vec<E> {
    let (a, b, st) = (|| col("a"), || col("b"), || col("s"));
    vec![
        eq(a(), n(1)),
        bin(a(), "<", b()),
        bin(b(), ">=", n(1)),
        isnull(a(), false),
        isnull(b(), true),
        between(a(), n(1), n(2), false),
        between(b(), a(), n(2), true),
        inl(a(), vec![n(1), lit(N)], true),
        inl(b(), vec![n(0), n(2)], false),
        like_e(st(), "a%", false),
        bin(st(), "<>", lit(s("a"))),
        bin(bin(a(), "+", b()), "<=", n(2)),
    ]
}
pub fn preds(tier: Tier) -> Vec<E> {
    let mut v = atoms();
    let at = atoms();
    v.extend(at.iter().map(|e| not(e.clone())));
    v.extend(at.iter().map(|e| not(not(e.clone()))));
    for neg in [false, true] {
        for val in [false, true] {
            v.extend(at.iter().map(|e| isbool(e.clone(), val, neg)));
            v.extend(few().iter().map(|e| not(isbool(not(e.clone()), val, neg))));
            v.extend(few().iter().map(|e| and(isbool(e.clone(), val, neg), bin(col("b"), ">=", n(1)))));
        }
    }
    let f = few();
    let two: Vec<E> = if tier == Tier::Thorough { at.clone() } else { f.clone() };
    for x in &at {
        for y in &two {
            for op in ["AND", "OR"] {
                v.push(bin(x.clone(), op, y.clone()));
                v.push(bin(not(x.clone()), op, y.clone()));
                v.push(bin(x.clone(), op, not(y.clone())));
                v.push(not(bin(x.clone(), op, y.clone())));
            }
        }
    }
    let k = tier.pick(5, 12);
    for x in f.iter().take(k) {
        for y in f.iter().skip(1).take(k) {
            for z in f.iter().rev().take(k) {
                for o1 in ["AND", "OR"] {
                    for o2 in ["AND", "OR"] {
                        v.push(bin(bin(x.clone(), o1, y.clone()), o2, z.clone()));
                        v.push(bin(x.clone(), o1, bin(y.clone(), o2, z.clone())));
                        v.push(bin(bin(x.clone(), o1, not(y.clone())), o2, z.clone()));
                        v.push(bin(x.clone(), o1, not(bin(y.clone(), o2, z.clone()))));
                    }
                }
            }
        }
    }
    v
}
/// Every chain of four atoms joined by AND / OR, as precedence groups it, with one NOT anywhere or nowhere.
fn quads() -> Vec<E> {
    let f: Vec<E> = few().into_iter().take(9).collect();
    let mut v = vec![];
    for w in &f {
        for x in &f {
            for y in &f {
                for z in &f {
                    let k = (v.len() / 4) % 5;
                    let m = |i: usize, e: &E| if k == i + 1 { not(e.clone()) } else { e.clone() };
                    let (a, b, c, d) = (m(0, w), m(1, x), m(2, y), m(3, z));
                    v.push(or(and(a.clone(), b.clone()), and(c.clone(), d.clone())));
                    v.push(and(and(a.clone(), or(b.clone(), c.clone())), d.clone()));
                    v.push(or(or(a.clone(), and(b.clone(), c.clone())), d.clone()));
                    v.push(not(or(and(or(a, b), c), d)));
                }
            }
        }
    }
    v
}
/// Arithmetic expressions with every pair / triple of operators in both shapes.
fn exprs(tier: Tier) -> Vec<E> {
    let ops = ["+", "-", "*", "/", "%"];
    let leaves = || vec![col("a"), col("b"), n(2), n(3), E::Neg(Box::new(col("b"))), lit(I(-1)), lit(F(0.5))];
    let mut v = vec![];
    for x in leaves() {
        for y in leaves() {
            for o in ops {
                v.push(bin(x.clone(), o, y.clone()));
                v.push(E::Neg(Box::new(bin(x.clone(), o, y.clone()))));
            }
        }
    }
    let small = vec![col("a"), n(7), n(2), E::Neg(Box::new(col("b")))];
    let third = if tier == Tier::Thorough { leaves() } else { vec![n(3), col("b")] };
    for x in &small {
        for y in &small {
            for z in &third {
                for o1 in ops {
                    for o2 in ops {
                        v.push(bin(bin(x.clone(), o1, y.clone()), o2, z.clone()));
                        v.push(bin(x.clone(), o1, bin(y.clone(), o2, z.clone())));
                    }
                }
            }
        }
    }
    // comparisons mixed with arithmetic and boolean operators, in the select list
    for x in few() {
        v.push(x.clone());
        v.push(not(x.clone()));
        for y in few() {
            v.push(or(x.clone(), and(y.clone(), eq(bin(col("a"), "*", n(2)), bin(col("b"), "+", n(1))))));
            v.push(and(or(x.clone(), y.clone()), not(x.clone())));
        }
    }
    v
}
fn fun(f: &'static str, a: Vec<E>) -> E {
    E::Fun(f, a)
}
fn functions() -> Vec<E> {
    let mut v = vec![];
    for x in [col("s"), lit(s("Ab é")), lit(s("")), bin(col("s"), "||", lit(s("Q"))), bin(bin(col("s"), "||", col("s")), "||", lit(s("Ñ")))] {
        for f in ["UPPER", "LOWER", "LENGTH"] {
            v.push(fun(f, vec![x.clone()]));
        }
        v.push(x.clone());
        v.push(fun("LENGTH", vec![fun("UPPER", vec![x.clone()])]));
        v.push(fun("COALESCE", vec![x.clone(), lit(s("z"))]));
        v.push(fun("NULLIF", vec![x.clone(), lit(s("a"))]));
        v.push(fun("CONCAT", vec![x.clone(), lit(s("-")), col("s")]));
    }
    for x in [col("a"), bin(col("a"), "-", col("b")), lit(I(-3)), lit(F(-2.5)), lit(F(2.5)), bin(col("a"), "*", lit(F(0.75)))] {
        for f in ["ABS", "ROUND", "CEIL", "FLOOR"] {
            v.push(fun(f, vec![x.clone()]));
        }
        v.push(fun("COALESCE", vec![x.clone(), col("b")]));
        v.push(fun("NULLIF", vec![x.clone(), n(1)]));
    }
    v.push(fun("SQRT", vec![fun("ABS", vec![col("a")])]));
    v
}

fn ids_where(p: &E) -> Sel {
    Sel::from(tab("p")).items(vec![col("id")]).wher(p.clone())
}

/// Aggregation / grouping / ordering queries over g(id, k, v, s).
fn grouped(tier: Tier) -> Vec<Sel> {
    let aggs: Vec<E> = vec![
        count(),
        agg("COUNT", col("v")),
        aggd("COUNT", col("v")),
        agg("SUM", col("v")),
        aggd("SUM", col("v")),
        agg("AVG", col("v")),
        agg("MIN", col("v")),
        agg("MAX", col("v")),
        agg("MIN", col("s")),
        agg("MAX", col("s")),
        aggd("COUNT", col("s")),
        agg("SUM", bin(col("v"), "*", n(2))),
        agg("COUNT", bin(col("v"), "+", col("k"))),
    ];
    let wheres: Vec<Option<E>> = vec![None, Some(bin(col("v"), ">", n(1))), Some(isnull(col("k"), true)), Some(lit(B(false))), Some(eq(col("k"), n(1)))];
    let mut v = vec![];
    // no GROUP BY: every pair of aggregates
    for w in &wheres {
        for x in &aggs {
            for y in &aggs {
                let mut q = Sel::from(tab("g")).items(vec![x.clone(), y.clone()]);
                q.wher = w.clone();
                v.push(q);
            }
            let mut q = Sel::from(tab("g")).items(vec![bin(x.clone(), "=", x.clone()), x.clone()]);
            q.wher = w.clone();
            v.push(q);
        }
    }
    let keys: Vec<Vec<E>> = vec![vec![col("k")], vec![col("s")], vec![col("k"), col("s")], vec![bin(col("k"), "%", n(2))], vec![col("s"), col("k")]];
    let having: Vec<Option<E>> = vec![
        None,
        Some(bin(count(), ">", n(1))),
        Some(bin(agg("SUM", col("v")), ">=", n(3))),
        Some(isnull(agg("MAX", col("v")), true)),
        Some(and(bin(count(), "<", n(3)), isnull(agg("MIN", col("v")), true))),
    ];
    for w in &wheres {
        for k in &keys {
            for h in &having {
                for (m, x) in aggs.iter().enumerate() {
                    for shape in 0..5 {
                        let items = match shape {
                            0 => k.iter().cloned().chain([x.clone()]).collect::<Vec<_>>(),
                            1 => [x.clone()].into_iter().chain(k.iter().cloned()).collect(),
                            2 => vec![x.clone()],
                            3 => k.clone(),
                            _ => vec![x.clone(), k[0].clone(), aggs[(m + 3) % aggs.len()].clone()],
                        };
                        if tier == Tier::Quick && shape >= 2 && m % 3 != 0 {
                            continue;
                        }
                        let mut q = Sel::from(tab("g")).items(items);
                        q.wher = w.clone();
                        q.group = k.clone();
                        q.having = h.clone();
                        v.push(q.clone());
                        if shape == 0 {
                            q.order = vec![(x.clone(), m % 2 == 0), (k[0].clone(), true)];
                            v.push(q.clone());
                            q.limit = Some(2);
                            q.offset = Some(m % 3);
                            v.push(q);
                        }
                    }
                }
            }
        }
    }
    v
}
fn ordered(tier: Tier) -> Vec<Sel> {
    let keys: Vec<Vec<(E, bool)>> = {
        let es = [col("k"), col("v"), col("s"), bin(col("v"), "-", col("k"))];
        let mut v: Vec<Vec<(E, bool)>> = vec![vec![]];
        for e in &es {
            for d in [true, false] {
                v.push(vec![(e.clone(), d)]);
                for f in &es {
                    for d2 in [true, false] {
                        if f != e {
                            v.push(vec![(e.clone(), d), (f.clone(), d2)]);
                        }
                    }
                }
            }
        }
        v
    };
    let lims: Vec<Option<usize>> = tier.pick(vec![None, Some(0), Some(1), Some(3), Some(100)], vec![None, Some(0), Some(1), Some(2), Some(3), Some(5), Some(8), Some(9), Some(100)]);
    let offs: Vec<Option<usize>> = tier.pick(vec![None, Some(0), Some(2), Some(100)], vec![None, Some(0), Some(1), Some(2), Some(7), Some(8), Some(9), Some(100)]);
    let mut v = vec![];
    for k in &keys {
        for l in &lims {
            for o in &offs {
                for w in [None, Some(bin(col("v"), ">=", n(1)))] {
                    for items in [vec![col("id"), col("k"), col("v"), col("s")], vec![col("s"), col("id")], vec![]] {
                        let mut q = Sel::from(tab("g")).items(items).order(k.clone());
                        q.wher = w.clone();
                        q.limit = *l;
                        q.offset = *o;
                        v.push(q);
                    }
                }
            }
        }
    }
    // DISTINCT: ordering by selected expressions only
    for items in [vec![col("k")], vec![col("k"), col("s")], vec![col("s"), col("v")], vec![bin(col("v"), "%", n(2))]] {
        for l in &lims {
            for o in &offs {
                for d in 0..3 {
                    let mut q = Sel::from(tab("g")).items(items.clone());
                    q.distinct = true;
                    q.limit = *l;
                    q.offset = *o;
                    if d > 0 {
                        q.order = items.iter().map(|e| (e.clone(), d == 1)).collect();
                    }
                    v.push(q.clone());
                    q.wher = Some(isnull(col("v"), true));
                    v.push(q);
                }
            }
        }
    }
    // aliases
    for asc in [true, false] {
        let mut q = Sel::from(tab("g"));
        q.items = vec![(col("id"), None), (bin(col("v"), "+", n(1)), Some("w".into()))];
        q.order = vec![(col("w"), asc), (col("id"), true)];
        v.push(q.clone());
        q.limit = Some(3);
        v.push(q);
    }
    v
}
/// Contents of g: several small tables.
fn contents_g() -> Vec<Vec<Vec<V>>> {
    let r = |id: i128, k: V, v: V, t: V| vec![I(id), k, v, t];
    vec![
        vec![],
        vec![r(1, I(1), I(1), s("x"))],
        vec![r(1, N, N, N)],
        vec![
            r(1, I(1), I(1), s("x")),
            r(2, I(1), I(2), s("y")),
            r(3, I(2), I(2), s("x")),
            r(4, I(2), N, N),
            r(5, N, I(5), s("x")),
            r(6, N, N, s("")),
            r(7, I(1), I(1), s("x")),
            r(8, I(3), I(0), N),
        ],
    ]
}
fn table_g(k: usize) -> Vec<St> {
    let mut v = vec![St::Create("g".into(), vec![c("id", "INT"), c("k", "INT"), c("v", "INT"), c("s", "TEXT")], vec![], vec![])];
    for r in &contents_g()[k] {
        v.push(St::Ins("g".into(), None, vec![r.iter().cloned().map(lit).collect()]));
    }
    v
}
/// x(xi, k, v), y(yi, k, w), z(zi, k): join tables.
pub fn contents_j() -> Vec<[Vec<Vec<V>>; 3]> {
    let r3 = |v: [V; 3]| v.to_vec();
    vec![
        [vec![], vec![], vec![]],
        [vec![r3([I(1), I(1), I(1)])], vec![], vec![vec![I(1), I(1)]]],
        [vec![], vec![r3([I(1), I(1), I(1)])], vec![]],
        [
            vec![r3([I(1), I(1), I(1)]), r3([I(2), I(2), N]), r3([I(3), N, I(2)])],
            vec![r3([I(1), I(1), I(2)]), r3([I(2), N, I(1)]), r3([I(3), I(3), I(2)])],
            vec![vec![I(1), I(1)], vec![I(2), I(2)], vec![I(3), N]],
        ],
        [
            vec![r3([I(1), I(1), I(1)]), r3([I(2), I(1), I(2)]), r3([I(3), I(2), I(1)]), r3([I(4), N, N]), r3([I(5), I(4), I(0)])],
            vec![r3([I(1), I(1), I(1)]), r3([I(2), I(1), I(1)]), r3([I(3), I(2), N]), r3([I(4), N, I(1)])],
            vec![vec![I(1), I(1)], vec![I(2), I(1)], vec![I(3), I(2)], vec![I(4), I(5)], vec![I(5), N]],
        ],
    ]
}
pub fn table_j(k: usize) -> Vec<St> {
    let mut v = vec![
        St::Create("x".into(), vec![c("xi", "INT"), c("k", "INT"), c("v", "INT")], vec![], vec![]),
        St::Create("y".into(), vec![c("yi", "INT"), c("k", "INT"), c("w", "INT")], vec![], vec![]),
        St::Create("z".into(), vec![c("zi", "INT"), c("k", "INT")], vec![], vec![]),
    ];
    for (t, rows) in ["x", "y", "z"].iter().zip(&contents_j()[k]) {
        for r in rows {
            v.push(St::Ins(t.to_string(), None, vec![r.iter().cloned().map(lit).collect()]));
        }
    }
    v
}
pub const JK: [&str; 6] = ["JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "CROSS JOIN", ","];
pub fn joins(tier: Tier) -> Vec<Sel> {
    let ons = vec![
        eq(col("x.k"), col("y.k")),
        eq(col("y.k"), col("x.k")),
        bin(col("x.k"), "<", col("y.k")),
        and(eq(col("x.k"), col("y.k")), bin(col("x.v"), "<=", col("y.w"))),
        and(eq(col("x.k"), col("y.k")), eq(col("y.w"), n(1))),
        and(eq(col("x.k"), col("y.k")), eq(col("x.v"), n(1))),
        or(eq(col("x.k"), col("y.k")), eq(col("x.v"), col("y.w"))),
        eq(bin(col("x.k"), "+", n(1)), col("y.k")),
        lit(B(true)),
        lit(B(false)),
        and(eq(col("x.k"), col("y.k")), eq(col("x.v"), col("y.w"))),
        eq(col("x.k"), n(1)),
        isbool(eq(col("x.k"), col("y.k")), false, true),
    ];
    let wheres = vec![
        None,
        Some(isbool(bin(col("y.w"), ">", n(1)), true, true)),
        Some(eq(col("x.v"), n(1))),
        Some(eq(col("y.w"), n(1))),
        Some(isnull(col("y.yi"), false)),
        Some(isnull(col("x.xi"), false)),
        Some(or(isnull(col("y.w"), false), bin(col("x.v"), ">", n(1)))),
        Some(bin(bin(col("x.v"), "+", col("y.w")), ">", n(2))),
        Some(eq(col("x.k"), col("y.k"))),
        Some(and(eq(col("x.v"), n(1)), bin(col("y.w"), ">=", n(1)))),
    ];
    let items: Vec<Vec<E>> = vec![
        vec![],
        vec![col("x.xi"), col("y.yi")],
        vec![col("y.w"), col("x.xi"), col("y.yi"), col("x.v")],
        vec![count(), agg("SUM", col("y.w"))],
    ];
    let mut v = vec![];
    for k in JK {
        let cross = k == "," || k == "CROSS JOIN";
        for on in ons.iter().take(if cross { 1 } else { 99 }) {
            for w in &wheres {
                for it in &items {
                    for swap in [false, true] {
                        if swap && tier == Tier::Quick && it.len() > 2 {
                            continue;
                        }
                        let (l, r) = if swap { (tab("y"), tab("x")) } else { (tab("x"), tab("y")) };
                        let mut q = Sel::from(join(l, k, r, if cross { None } else { Some(on.clone()) })).items(it.clone());
                        q.wher = w.clone();
                        v.push(q);
                    }
                }
            }
        }
    }
    // self joins and three tables
    for k in ["JOIN", "LEFT JOIN", "FULL JOIN"] {
        let q = Sel::from(join(tab_as("x", "p"), k, tab_as("x", "q"), Some(eq(col("p.k"), col("q.v"))))).items(vec![col("p.xi"), col("q.xi")]);
        v.push(q);
    }
    let on2 = vec![eq(col("y.k"), col("z.k")), eq(col("x.k"), col("z.k")), and(eq(col("x.k"), col("z.k")), bin(col("y.w"), "<", col("z.zi"))), bin(col("z.zi"), ">", n(2))];
    for k1 in ["JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", ","] {
        for k2 in ["JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", ","] {
            for o1 in [ons[0].clone(), ons[3].clone(), ons[6].clone()] {
                for o2 in &on2 {
                    for w in [None, Some(eq(col("z.k"), n(1))), Some(eq(col("x.v"), n(1))), Some(and(eq(col("x.k"), col("y.k")), eq(col("y.k"), col("z.k"))))] {
                        let a = join(tab("x"), k1, tab("y"), (k1 != ",").then(|| o1.clone()));
                        let f = join(a, k2, tab("z"), (k2 != ",").then(|| o2.clone()));
                        let mut q = Sel::from(f).items(vec![col("x.xi"), col("y.yi"), col("z.zi")]);
                        q.wher = w.clone();
                        v.push(q);
                    }
                }
            }
        }
    }
    // grouping and ordering over a join
    for k in ["JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN"] {
        let f = || join(tab("x"), k, tab("y"), Some(eq(col("x.k"), col("y.k"))));
        let mut q = Sel::from(f()).items(vec![col("x.k"), count(), agg("SUM", col("y.w"))]);
        q.group = vec![col("x.k")];
        v.push(q.clone());
        q.having = Some(bin(count(), ">", n(1)));
        v.push(q);
        for l in [None, Some(2)] {
            let mut q = Sel::from(f()).items(vec![col("x.xi"), col("y.yi")]).order(vec![(col("y.w"), false), (col("x.xi"), true)]);
            q.limit = l;
            v.push(q);
        }
        let mut q = Sel::from(f()).items(vec![col("y.w")]);
        q.distinct = true;
        v.push(q);
    }
    v
}
fn subqueries() -> Vec<Sel> {
    let mut v = vec![];
    let mut inner: Vec<(Sel, &str)> = vec![];
    for w in [None, Some(bin(col("v"), ">", n(1)))] {
        let mut a = Sel::from(tab("g")).items(vec![col("k"), col("v")]);
        a.wher = w.clone();
        inner.push((a.clone(), "v"));
        a.order = vec![(col("v"), true), (col("id"), true)];
        a.limit = Some(3);
        inner.push((a.clone(), "v"));
        let mut d = Sel::from(tab("g")).items(vec![col("k")]);
        d.items.push((bin(col("v"), "+", n(1)), Some("v".into())));
        d.wher = w.clone();
        inner.push((d.clone(), "v"));
        d.distinct = true;
        inner.push((d, "v"));
        let mut gq = Sel::from(tab("g"));
        gq.items = vec![(col("k"), None), (count(), Some("v".into()))];
        gq.group = vec![col("k")];
        gq.wher = w.clone();
        inner.push((gq.clone(), "v"));
        gq.having = Some(bin(count(), ">", n(1)));
        inner.push((gq, "v"));
    }
    for (q, c2) in &inner {
        for cte in [false, true] {
            let mk = |f: fn(Sel, &str) -> Sel| {
                let base = if cte { Sel { with: vec![("q".into(), q.clone())], ..Sel::from(tab("q")) } } else { Sel::from(From::Sub(Box::new(q.clone()), "q".into())) };
                f(base, c2)
            };
            v.push(mk(|b, _| b));
            v.push(mk(|b, c2| b.items(vec![col(c2), col("k")])));
            v.push(mk(|b, c2| b.wher(bin(col(c2), ">=", n(2)))));
            v.push(mk(|b, c2| b.items(vec![col("k")]).wher(isnull(col(c2), true)).order(vec![(col("k"), false)])));
            v.push(mk(|b, c2| b.items(vec![count(), agg("MAX", col(c2))])));
            v.push(mk(|b, c2| {
                let mut q = b.items(vec![col(c2), count()]);
                q.group = vec![col(c2)];
                q
            }));
            v.push(mk(|mut b, c2| {
                b.from = Some(join(b.from.take().unwrap(), "JOIN", tab_as("g", "h"), Some(eq(col("q.k"), col("h.k")))));
                b.items(vec![col(&format!("q.{c2}")), col("h.id")])
            }));
            // the body again, next to itself and on either side of an outer join
            for kind in ["LEFT JOIN", "RIGHT JOIN", "FULL JOIN"] {
                let with = if cte { vec![("q".to_string(), q.clone())] } else { vec![] };
                let other = if cte { tab_as("q", "r") } else { From::Sub(Box::new(q.clone()), "r".into()) };
                let first = if cte { tab("q") } else { From::Sub(Box::new(q.clone()), "q".into()) };
                let on = eq(col("q.k"), col(&format!("r.{c2}")));
                v.push(Sel { with, ..Sel::from(join(first, kind, other, Some(on))) }.items(vec![col("q.k"), col(&format!("q.{c2}")), col("r.k"), col(&format!("r.{c2}"))]));
            }
        }
    }
    // names: a body sees nothing of the query around it, and a name two columns have stands for none
    let body = |p: E| {
        let mut a = Sel::from(tab_as("g", "i")).items(vec![col("i.k")]);
        a.wher = Some(p);
        From::Sub(Box::new(a), "q".into())
    };
    for p in [eq(col("i.k"), col("h.k")), eq(col("h.v"), n(1)), eq(col("i.v"), col("i.id"))] {
        v.push(Sel::from(join(tab_as("g", "h"), ",", body(p.clone()), None)));
        v.push(Sel::from(join(tab_as("g", "h"), "LEFT JOIN", body(p.clone()), Some(eq(col("q.k"), col("h.k"))))));
        v.push(Sel::from(join(body(p.clone()), "JOIN", tab_as("g", "h"), Some(eq(col("q.k"), col("h.k"))))));
    }
    let mut twice = Sel::from(tab("g"));
    twice.items = vec![(col("k"), Some("p".into())), (col("v"), Some("p".into())), (col("id"), Some("o".into()))];
    for item in ["p", "q.p", "o", "q.o"] {
        v.push(Sel::from(From::Sub(Box::new(twice.clone()), "q".into())).items(vec![col(item)]));
        v.push(Sel::from(From::Sub(Box::new(twice.clone()), "q".into())).items(vec![col("o")]).wher(eq(col(item), n(1))));
        v.push(Sel { with: vec![("q".into(), twice.clone())], ..Sel::from(tab("q")).items(vec![col(item)]) });
    }
    v.push(Sel::from(From::Sub(Box::new(twice), "q".into())));
    v
}
fn dml(tier: Tier) -> Vec<St> {
    let mut v = vec![];
    let ps: Vec<Option<E>> = {
        let mut p: Vec<Option<E>> = vec![None];
        p.extend(atoms().into_iter().map(Some));
        p.extend(few().into_iter().map(|e| Some(not(e))));
        let f = few();
        for x in f.iter().take(tier.pick(4, 12)) {
            for y in f.iter().take(tier.pick(6, 12)) {
                p.push(Some(and(x.clone(), y.clone())));
                p.push(Some(or(x.clone(), not(y.clone()))));
            }
        }
        p
    };
    let sets: Vec<Vec<(String, E)>> = vec![
        vec![("a".into(), n(9))],
        vec![("a".into(), bin(col("a"), "+", n(1)))],
        vec![("a".into(), col("b")), ("b".into(), col("a"))],
        vec![("s".into(), lit(N))],
        vec![("s".into(), bin(col("s"), "||", lit(s("zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz")))), ("a".into(), lit(N))],
        vec![("b".into(), bin(col("id"), "*", n(2)))],
    ];
    for p in &ps {
        v.push(St::Del("p".into(), p.clone()));
        for st in &sets {
            v.push(St::Upd("p".into(), st.clone(), p.clone()));
        }
        let mut q = Sel::from(tab("p")).items(vec![bin(col("id"), "+", n(100)), col("b"), col("a"), col("s")]);
        q.wher = p.clone();
        v.push(St::InsSel("p".into(), q));
    }
    v.push(St::Ins("p".into(), Some(vec!["s".into(), "id".into()]), vec![vec![lit(s("q")), n(200)], vec![lit(N), n(201)]]));
    v.push(St::Ins("p".into(), Some(vec!["b".into(), "a".into(), "id".into(), "s".into()]), vec![vec![n(1), n(2), bin(n(100), "*", n(3)), bin(lit(s("a")), "||", lit(s("b")))]]));
    v.push(St::Ins("p".into(), Some(vec!["id".into()]), vec![vec![lit(I(-5))]]));
    v.push(St::Ins("p".into(), None, vec![vec![n(1), n(2)]]));
    // text after a complete statement: no statement at all, whatever its beginning says
    let p1 = || Some(eq(col("a"), n(1)));
    let whole = [
        St::Del("p".into(), None),
        St::Del("p".into(), p1()),
        St::Upd("p".into(), sets[0].clone(), None),
        St::Upd("p".into(), sets[1].clone(), p1()),
        St::Ins("p".into(), None, vec![vec![n(300), n(1), n(2), lit(s("q"))]]),
        St::Create("p9".into(), vec![c("a", "INT")], vec![], vec![]),
        St::Drop("p".into()),
        St::Q(Sel::from(tab("p")).items(vec![col("id")])),
    ];
    // columns nobody may write, and columns written twice
    for sql in [
        "INSERT INTO p (row_id, id) VALUES (0, 9)",
        "INSERT INTO p (id, row_id) VALUES (9, 1), (10, 2)",
        "INSERT INTO p (row_id, id) SELECT id, id FROM p",
        "INSERT INTO p (id, a, id) VALUES (1, 2, 3)",
        "INSERT INTO p (id, id) SELECT id, id FROM p",
        "UPDATE p SET row_id = 1",
        "UPDATE p SET a = 1, b = 2, a = 3",
        "UPDATE p SET a = 1, a = 1 WHERE id = 1",
        "CREATE TABLE p9 (a INT, b INT, a INT)",
        "ALTER TABLE p ALTER COLUMN row_id INT",
        "ALTER TABLE p DROP COLUMN row_id",
    ] {
        v.push(St::Raw(sql.into()));
    }
    for st in &whole {
        for tail in [" 1", " )", " id = 1", " WHERE a = 1 WHERE b = 1", "; DELETE FROM p", "; SELECT id FROM p", " DELETE FROM p", " VALUES (1)", " TRUE", " UNION SELECT id FROM p", " 'x'"] {
            v.push(St::Raw(format!("{}{tail}", st.sql(false))));
        }
    }
    v
}
fn like_space(tier: Tier) -> (Vec<String>, Vec<String>) {
    fn words(al: &[char], k: usize) -> Vec<String> {
        let mut v = vec![String::new()];
        let mut last = v.clone();
        for _ in 0..k {
            last = last.iter().flat_map(|w| al.iter().map(move |c| format!("{w}{c}"))).collect();
            v.extend(last.clone());
        }
        v
    }
    (words(&['a', 'b', 'é', '.'], 3), words(&['a', 'b', 'é', '%', '_', '.'], tier.pick(3, 5)))
}

pub struct Ctx {
    pub db: Database,
    pub model: Db,
    pub next: u64,
    pub setup: Vec<String>,
    _sc: Scratch,
}
impl Ctx {
    pub fn new(cfg: Cfg, setup: &[St], out: &mut Out) -> Option<Ctx> {
        let sc = Scratch::new();
        let db = match Database::create(sc.path().join("d.db"), cfg.to()) {
            Ok(d) => d,
            Err(e) => {
                out.violation(format!("create database: {e}"), json!({}));
                return None;
            }
        };
        let mut c = Ctx { db, model: Db::default(), next: 1, setup: vec![], _sc: sc };
        for st in setup {
            if let Err(e) = c.step(st) {
                out.violation(e, json!({"setup": c.setup}));
                return None;
            }
        }
        Some(c)
    }
    pub fn step(&mut self, st: &St) -> Result<(), String> {
        let sql = st.sql(false);
        self.setup.push(sql.clone());
        let eff = self.model.exec(st, &mut self.next);
        compare(&eff, &run(&self.db, &sql)).map_err(|e| format!("{sql}: {e}"))
    }
    /// Runs a query in both renderings.
    pub fn query(&self, q: &Sel, out: &mut Out) {
        let ans = self.model.query(q);
        let mut texts = vec![q.sql(false), q.sql(true)];
        texts.dedup();
        for t in texts {
            out.step();
            out.state(hash_of(&t));
            let got = run(&self.db, &t);
            let r = match (&ans, &got) {
                (Ok(a), Res::Rows(r)) => a.check(r),
                (Err(_), Res::Err(_)) => Ok(()),
                (Err(e), _) if e.starts_with("unspecified") => Ok(()),
                (Ok(a), g) => Err(format!("{}, expected {}", g.show(), a.show())),
                (Err(e), g) => Err(format!("{}, expected an error ({e})", g.show())),
            };
            if let Err(e) = r {
                out.violation(format!("{t}: {e}"), json!({"setup": self.setup, "query": t}));
            }
        }
    }
}
const SHARDS: usize = 48;

impl Check for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn items(&self, tier: Tier) -> Vec<Value> {
        let mut v = vec![];
        for sh in 0..SHARDS {
            for t in ["pred", "expr", "dml"] {
                v.push(json!({"t": t, "sh": sh}));
            }
            v.push(json!({"t": "like", "sh": sh}));
            for k in 0..contents_g().len() {
                if sh < 12 {
                    v.push(json!({"t": "group", "k": k, "sh": sh}));
                    v.push(json!({"t": "order", "k": k, "sh": sh}));
                }
            }
            for k in 0..contents_j().len() {
                if sh < 12 {
                    v.push(json!({"t": "join", "k": k, "sh": sh}));
                }
            }
        }
        for k in 0..contents_g().len() {
            v.push(json!({"t": "sub", "k": k, "sh": 0}));
        }
        v.extend(crate::c05num::items(tier));
        v.extend(crate::c05bool::items());
        v
    }
    fn run(&self, deep: Tier, spec: &Value, out: &mut Out) {
        if spec["t"] == "num" {
            return crate::c05num::run_item(deep, spec, out);
        }
        if spec["t"] == "bool" {
            return crate::c05bool::run_item(spec, out);
        }
        let tier = Tier::Thorough;
        let sh = spec["sh"].as_u64().unwrap() as usize;
        let k = spec["k"].as_u64().unwrap_or(0) as usize;
        let mine = |n: usize| move |i: &usize| i % n == sh;
        let t = spec["t"].as_str().unwrap();
        let qs: Vec<Sel> = match t {
            "pred" => preds(tier).into_iter().chain(if deep == Tier::Thorough { quads() } else { vec![] }).map(|p| ids_where(&p)).collect(),
            "expr" => exprs(tier).into_iter().chain(functions()).map(|e| Sel::from(tab("p")).items(vec![col("id"), e])).collect(),
            "group" => grouped(tier),
            "order" => ordered(tier),
            "join" => joins(tier),
            "sub" => subqueries(),
            _ => vec![],
        };
        match t {
            "dml" => {
                for (i, st) in dml(tier).iter().enumerate() {
                    if i % SHARDS != sh {
                        continue;
                    }
                    let Some(mut c) = Ctx::new(CFG, &table_p(), out) else { return };
                    out.step();
                    out.state(hash_of(&st.sql(false)));
                    let r = c.step(st).and_then(|_| same_contents(&c.model, |s| run(&c.db, s)).map_err(|e| format!("after {}: {e}", st.sql(false))));
                    if let Err(e) = r {
                        out.violation(e, json!({"setup": c.setup}));
                    }
                    out.traces += 1;
                }
            }
            "like" => {
                let (words, pats) = like_space(tier);
                let mut setup = vec![St::Create("p".into(), vec![c("id", "INT"), c("s", "TEXT")], vec![], vec![])];
                for (i, w) in words.iter().enumerate() {
                    setup.push(St::Ins("p".into(), None, vec![vec![n(i as i128), lit(s(w))]]));
                }
                let Some(c) = Ctx::new(CFG, &setup, out) else { return };
                for (i, p) in pats.iter().enumerate() {
                    if i % SHARDS == sh {
                        c.query(&ids_where(&like_e(col("s"), p, i % 2 == 1)), out);
                        if i % 2 == 1 {
                            c.query(&ids_where(&like_e(col("s"), p, false)), out);
                        }
                    }
                }
                out.traces += 1;
            }
            _ => {
                let setup = match t {
                    "pred" | "expr" => table_p(),
                    "join" => table_j(k),
                    _ => table_g(k),
                };
                let n = match t {
                    "pred" | "expr" => SHARDS,
                    "sub" => 1,
                    _ => 12,
                };
                let Some(c) = Ctx::new(CFG, &setup, out) else { return };
                let f = mine(n);
                for (i, q) in qs.iter().enumerate() {
                    if f(&i) {
                        if i < 3 {
                            out.sample(json!(q.sql(false)));
                        }
                        c.query(q, out);
                    }
                }
                out.traces += 1;
            }
        }
    }
    fn bounds(&self, deep: Tier) -> String {
        let tier = Tier::Thorough;
        format!("{} predicates and {} expressions over a table with every combination of values; {} grouping and {} ordering/limit/distinct queries over {} tables; {} joins over {} contents; {} FROM-subquery/CTE queries; {} DML statements; LIKE: every pattern up to length {} on every string up to length 3; {}; {}; each rendered with minimal and with full parentheses",
            preds(tier).len() + if deep == Tier::Thorough { quads().len() } else { 0 }, exprs(tier).len() + functions().len(), grouped(tier).len(), ordered(tier).len(), contents_g().len(), joins(tier).len(), contents_j().len(), subqueries().len(), dml(tier).len(), tier.pick(3, 5), crate::c05num::bounds(deep), crate::c05bool::bounds())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["NULLs sort last ascending / first descending (the engine's convention); SUM and AVG are floating point; arithmetic stays within the types' ranges".into()]
    }
}
