//! C05, value types: arithmetic, comparison, grouping, joins, functions and DML over columns of all
//! types at once (INT, BIGINT, UINT, BIGUINT, FLOAT, DOUBLE, BOOL), in every pairing.
use crate::c05::*;
use crate::fw::*;
use crate::sqlm::V::*;
use crate::sqlm::*;
use serde_json::{Value, json};

const NUM: [&str; 6] = ["a", "b", "u", "g", "f", "d"];
const OPS: [&str; 5] = ["+", "-", "*", "/", "%"];
const CMP: [&str; 6] = ["=", "<>", "<", "<=", ">", ">="];

pub fn ncols() -> Vec<Col> {
    vec![c("id", "INT"), c("a", "INT"), c("b", "BIGINT"), c("u", "UINT"), c("g", "BIGUINT"), c("f", "FLOAT"), c("d", "DOUBLE"), c("t", "BOOL")]
}
/// 0: small exact values, no zeros; 1: zeros, NULLs and equal values; 2: the limits of the types (compared, never computed with)
fn rows(k: usize) -> Vec<[V; 7]> {
    match k {
        0 => vec![
            [I(1), I(2), I(7), I(5), F(1.5), F(2.25), B(true)],
            [I(-3), I(10), I(4), I(4), F(2.0), F(-0.5), B(false)],
            [I(2), I(-7), I(9), I(3), F(-2.5), F(4.0), N],
            [I(5), I(3), I(3), I(1), F(0.5), F(3.0), B(true)],
            [N, N, N, N, N, N, N],
            [N, I(4), N, I(2), N, F(1.25), B(false)],
            [I(8), N, I(2), N, F(-0.25), N, B(true)],
        ],
        1 => vec![
            [I(0), I(0), I(0), I(0), F(0.0), F(0.0), B(false)],
            [I(2), I(2), I(2), I(2), F(2.0), F(2.0), B(true)],
            [I(2), N, I(2), N, F(2.5), N, B(true)],
            [N, I(3), N, I(3), N, F(2.5), N],
            [I(-1), I(-1), I(3), I(1), F(-1.0), F(-1.5), B(false)],
        ],
        _ => vec![
            [I(i32::MAX as i128), I(i64::MAX as i128), I(u32::MAX as i128), I(u64::MAX as i128), F(16777216.0), F(9007199254740992.0), B(true)],
            [I(i32::MIN as i128), I(i64::MIN as i128), I(0), I(0), F(-16777216.0), F(-9007199254740992.0), B(false)],
            [I(0), I(9007199254740993), I(2147483648), I(9007199254740993), F(0.1f32 as f64), F(0.1), N],
            [I(16777217), I(9007199254740992), I(2147483647), I(9007199254740992), F(0.5), F(2147483648.0), B(true)],
            [I(2147483646), I(-9007199254740993), I(16777217), I(9223372036854775808), F(2147483648.0), F(4294967295.0), B(true)],
            [N, I(2147483648), N, I(9223372036854775807), F(16777218.0), F(9.5), B(false)],
            [I(-1), I(4294967295), I(1), I(18446744073709551614), F(-0.5), F(-1.0), N],
        ],
    }
}
fn text(v: &V) -> E {
    lit(v.clone())
}
pub fn table_n(k: usize, name: &str, shift: usize) -> Vec<St> {
    let mut v = vec![St::Create(name.into(), ncols(), vec![], vec![])];
    let r = rows(k);
    let n_ = r.len();
    let all: Vec<Vec<E>> = (0..n_).map(|j| [lit(I(j as i128))].into_iter().chain(r[(j + shift) % n_].iter().map(text)).collect()).collect();
    v.push(St::Ins(name.into(), None, all));
    v
}
/// Integer arithmetic over unsigned operands only, where the engine refuses a negative result.
fn unsigned(e: &E) -> bool {
    match e {
        E::Col(_, c) => c == "u" || c == "g",
        E::Bin(a, op, b) if OPS.contains(op) => unsigned(a) && unsigned(b),
        _ => false,
    }
}
fn has_unsigned_minus(e: &E) -> bool {
    match e {
        E::Bin(a, op, b) => (*op == "-" && unsigned(a) && unsigned(b) && !(**a == col("u") && **b == col("g"))) || has_unsigned_minus(a) || has_unsigned_minus(b),
        _ => false,
    }
}
/// A quotient of FLOATs is rounded to FLOAT, which the model (all doubles) does not do.
fn float(e: &E) -> bool {
    match e {
        E::Col(_, c) => c == "f",
        E::Bin(a, op, b) if OPS.contains(op) => float(a) && float(b),
        _ => false,
    }
}
fn usable(e: &E) -> bool {
    fn quotient(e: &E) -> bool {
        match e {
            E::Bin(a, op, b) => (*op == "/" && float(a) && float(b) && !(**a == col("f") && **b == col("f"))) || quotient(a) || quotient(b),
            _ => false,
        }
    }
    !has_unsigned_minus(e) && !quotient(e)
}
fn operands() -> Vec<E> {
    NUM.iter().map(|x| col(x)).chain([n(2), lit(I(-1)), lit(F(0.5)), lit(N)]).collect()
}
fn arith1() -> Vec<E> {
    let o = operands();
    let mut v = vec![];
    for x in &o {
        for y in &o {
            for op in OPS {
                let e = bin(x.clone(), op, y.clone());
                if usable(&e) {
                    v.push(e);
                }
            }
        }
    }
    v
}
fn arith2(wide: bool) -> Vec<E> {
    let o: Vec<E> = NUM.iter().map(|x| col(x)).chain([n(2), lit(F(0.5))]).take(if wide { 8 } else { 6 }).collect();
    let mut v = vec![];
    for x in &o {
        for y in &o {
            for z in &o {
                for p in OPS {
                    for q in OPS {
                        for e in [bin(bin(x.clone(), p, y.clone()), q, z.clone()), bin(x.clone(), p, bin(y.clone(), q, z.clone()))] {
                            if usable(&e) {
                                v.push(e);
                            }
                        }
                    }
                }
            }
        }
    }
    v
}
fn fun(f: &'static str, a: Vec<E>) -> E {
    E::Fun(f, a)
}
fn chosen(tier: Tier) -> Vec<E> {
    let o: Vec<E> = NUM.iter().map(|x| col(x)).chain([n(3), lit(F(2.5)), lit(N)]).collect();
    let mut v = vec![];
    for x in &o {
        for y in &o {
            v.push(fun("COALESCE", vec![x.clone(), y.clone()]));
            v.push(fun("NULLIF", vec![x.clone(), y.clone()]));
            for z in &o {
                v.push(fun("COALESCE", vec![x.clone(), y.clone(), z.clone()]));
                if tier == Tier::Thorough {
                    v.push(fun("COALESCE", vec![fun("NULLIF", vec![x.clone(), y.clone()]), z.clone()]));
                    v.push(fun("NULLIF", vec![fun("COALESCE", vec![x.clone(), y.clone()]), z.clone()]));
                }
            }
        }
        for f in ["ABS", "ROUND", "CEIL", "FLOOR"] {
            if *x != lit(N) {
                v.push(fun(f, vec![x.clone()]));
                v.push(fun(f, vec![bin(x.clone(), "*", lit(F(0.5)))]));
            }
        }
    }
    v
}
/// Literals around and beyond the limits of the types.
fn limits() -> Vec<V> {
    let mut v: Vec<V> = [-9223372036854775808i128, -9007199254740993, -2147483649, -2147483648, -1, 0, 1, 16777216, 16777217, 2147483647, 2147483648, 4294967295, 4294967296, 9007199254740992, 9007199254740993, 9223372036854775807, 9223372036854775808, 18446744073709551615].iter().map(|x| I(*x)).collect();
    v.extend([0.1, 0.5, -0.5, 2147483647.5, 16777217.5, -1.5, 2.0, 4294967295.0].map(F));
    v.push(N);
    v
}
fn compares(k: usize) -> Vec<E> {
    let mut v = vec![];
    let lits: Vec<E> = if k == 2 { limits().into_iter().map(lit).collect() } else { [I(-1), I(0), I(2), I(3), F(2.0), F(2.5), F(-0.5), N].into_iter().map(lit).collect() };
    let cols: Vec<E> = NUM.iter().map(|x| col(x)).collect();
    for x in &cols {
        for y in cols.iter().chain(&lits) {
            for op in CMP {
                v.push(bin(x.clone(), op, y.clone()));
                if !cols.contains(y) {
                    v.push(bin(y.clone(), op, x.clone()));
                }
            }
            for z in cols.iter().chain(lits.iter().step_by(if k == 2 { 3 } else { 1 })) {
                v.push(between(x.clone(), y.clone(), z.clone(), false));
                v.push(inl(x.clone(), vec![y.clone(), z.clone()], false));
                v.push(inl(x.clone(), vec![y.clone(), z.clone()], true));
                if v.len() % 2 == 0 {
                    v.push(and(bin(x.clone(), ">", y.clone()), bin(x.clone(), "<=", z.clone())));
                }
            }
        }
    }
    for x in ["t"] {
        for b in [lit(B(true)), lit(B(false)), lit(N), col("t"), bin(col("a"), "=", col("b"))] {
            v.push(eq(col(x), b.clone()));
            v.push(bin(col(x), "<>", b));
        }
        v.push(col(x));
        v.push(not(col(x)));
        v.push(and(col(x), bin(col("a"), ">", col("d"))));
        v.push(or(not(col(x)), bin(col("f"), "<", col("u"))));
    }
    v
}
fn aliased(e: E, a: &str) -> (E, Option<String>) {
    (e, Some(a.into()))
}
/// Queries that use an expression in every place where one can stand.
fn places(e: &E) -> Vec<Sel> {
    let mut v = vec![];
    let t = || Sel::from(tab("n"));
    v.push(t().items(vec![col("id"), e.clone()]));
    for z in [n(2), lit(F(2.5)), col("d"), col("u")] {
        for op in ["=", ">"] {
            v.push(t().items(vec![col("id")]).wher(bin(e.clone(), op, z.clone())));
        }
    }
    let mut inner = t();
    inner.items = vec![aliased(col("id"), "i"), aliased(e.clone(), "x")];
    for cte in [false, true] {
        let base = || if cte { Sel { with: vec![("q".into(), inner.clone())], ..Sel::from(tab("q")) } } else { Sel::from(From::Sub(Box::new(inner.clone()), "q".into())) };
        v.push(base().items(vec![col("i"), col("x")]));
        v.push(base().items(vec![col("i")]).wher(bin(col("x"), ">", lit(F(1.25)))));
        v.push(base().items(vec![count(), agg("SUM", col("x")), agg("MIN", col("x")), agg("MAX", col("x")), agg("AVG", col("x"))]));
        let mut q = base().items(vec![col("x"), count()]);
        q.group = vec![col("x")];
        v.push(q);
        let mut q = base();
        q.from = Some(join(q.from.take().unwrap(), "JOIN", tab_as("n", "h"), Some(eq(col("q.x"), col("h.d")))));
        v.push(q.items(vec![col("q.i"), col("h.id")]));
    }
    let mut q = t().items(vec![e.clone(), count(), agg("MAX", col("id"))]);
    q.group = vec![e.clone()];
    v.push(q);
    v.push(t().items(vec![agg("SUM", e.clone()), agg("MIN", e.clone()), agg("MAX", e.clone()), aggd("COUNT", e.clone()), agg("AVG", e.clone())]));
    v.push(t().items(vec![col("id")]).order(vec![(e.clone(), true), (col("id"), true)]));
    let mut q = t().items(vec![e.clone()]);
    q.distinct = true;
    v.push(q);
    v.push(Sel::from(join(tab_as("n", "l"), "JOIN", tab_as("m", "r"), Some(eq(over(e, "l"), col("r.d"))))).items(vec![col("l.id"), col("r.id")]));
    v.push(Sel::from(join(tab_as("n", "l"), "LEFT JOIN", tab_as("m", "r"), Some(eq(col("r.a"), over(e, "l"))))).items(vec![col("l.id"), col("r.id")]));
    v
}
/// The expression with its columns qualified.
fn over(e: &E, t: &str) -> E {
    match e {
        E::Col(_, c) => E::Col(Some(t.into()), c.clone()),
        E::Bin(a, op, b) => bin(over(a, t), op, over(b, t)),
        E::Fun(f, a) => E::Fun(f, a.iter().map(|x| over(x, t)).collect()),
        x => x.clone(),
    }
}
pub fn joins_n(tier: Tier) -> Vec<Sel> {
    let mut v = vec![];
    let kinds = ["JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN"];
    for x in NUM {
        for y in NUM {
            let (l, r) = (col(&format!("l.{x}")), col(&format!("r.{y}")));
            for k in kinds {
                let mk = |on: E| Sel::from(join(tab_as("n", "l"), k, tab_as("m", "r"), Some(on))).items(vec![col("l.id"), col("r.id")]);
                v.push(mk(eq(l.clone(), r.clone())));
                v.push(mk(eq(r.clone(), l.clone())));
                v.push(mk(bin(l.clone(), "<", r.clone())));
                for z in NUM {
                    v.push(mk(and(eq(l.clone(), r.clone()), eq(col(&format!("l.{z}")), col(&format!("r.{z}"))))));
                    if tier == Tier::Thorough {
                        v.push(mk(and(eq(l.clone(), r.clone()), bin(col(&format!("l.{z}")), ">=", col(&format!("r.{y}"))))));
                    }
                }
            }
            let mut q = Sel::from(join(tab_as("n", "l"), "CROSS JOIN", tab_as("m", "r"), None)).items(vec![col("l.id"), col("r.id")]);
            q.wher = Some(eq(l.clone(), r.clone()));
            v.push(q.clone());
            q.order = vec![(l, false), (r, true)];
            v.push(q);
        }
    }
    v
}
fn groups_n() -> Vec<Sel> {
    let mut v = vec![];
    let all = [&NUM[..], &["t"]].concat();
    for x in &all {
        let t = || Sel::from(tab("n"));
        let c_ = || col(x);
        if *x != "t" {
            v.push(t().items(vec![agg("SUM", c_()), agg("AVG", c_()), agg("MIN", c_()), agg("MAX", c_()), agg("COUNT", c_()), aggd("COUNT", c_())]));
            v.push(t().items(vec![aggd("SUM", c_()), aggd("AVG", c_())]));
        }
        for y in &all {
            let mut q = t().items(vec![col(x), agg("COUNT", col(y)), aggd("COUNT", col(y)), agg("MIN", col(y)), agg("MAX", col(y))]);
            q.group = vec![c_()];
            v.push(q.clone());
            q.order = vec![(c_(), false)];
            v.push(q);
            let mut q = t().items(vec![col(x), col(y)]);
            q.distinct = true;
            v.push(q);
            for (p, q_) in [(true, true), (true, false), (false, true)] {
                let mut q = t().items(vec![col("id"), col(x)]).order(vec![(c_(), p), (col(y), q_), (col("id"), true)]);
                v.push(q.clone());
                q.limit = Some(3);
                q.offset = Some(1);
                v.push(q);
            }
            let mut q = t().items(vec![col(x), count()]);
            q.group = vec![c_(), col(y)];
            q.having = Some(bin(count(), ">", n(1)));
            v.push(q);
        }
    }
    v
}
pub fn indexes(set: usize) -> Vec<St> {
    let ix = |name: &str, cols: &[&str]| St::Index(name.into(), "n".into(), cols.iter().map(|c| c.to_string()).collect());
    match set {
        0 => vec![],
        1 => vec![ix("ia", &["a", "id"]), ix("ib", &["b", "id"]), ix("iu", &["u", "id"]), ix("ig", &["g", "id"])],
        2 => vec![ix("iif", &["f", "id"]), ix("idd", &["d", "id"])],
        _ => vec![ix("ia", &["a", "d", "id"]), ix("iu", &["u", "f", "id"]), ix("ig", &["g", "b", "id"])],
    }
}
fn dml_n() -> Vec<St> {
    let mut v = vec![];
    let exact = |e: &E| !matches!(e, E::Bin(_, op, _) if *op == "/");
    for e in arith1() {
        let whole = |e: &E| match e {
            E::Bin(a, _, b) => [a, b].iter().all(|x| !matches!(&***x, E::Col(_, c) if c == "f" || c == "d") && !matches!(&***x, E::Lit(F(_)))),
            _ => false,
        };
        v.push(St::Upd("n".into(), vec![("d".into(), e.clone())], None));
        if exact(&e) {
            v.push(St::Upd("n".into(), vec![("f".into(), e.clone())], Some(bin(col("id"), ">", n(0)))));
        }
        if whole(&e) {
            v.push(St::Upd("n".into(), vec![("b".into(), e.clone()), ("a".into(), col("b"))], None));
        }
        v.push(St::Del("n".into(), Some(bin(e.clone(), ">", lit(F(1.5))))));
        let mut q = Sel::from(tab("n")).items(vec![col("id"), e.clone()]);
        v.push(St::InsSel("w".into(), q.clone()));
        q.items = vec![(agg("MAX", col("id")), None), (agg("SUM", e.clone()), None)];
        v.push(St::InsSel("w".into(), q));
    }
    for l in limits() {
        for (col_, lo, hi) in [("a", i32::MIN as i128, i32::MAX as i128), ("b", i64::MIN as i128, i64::MAX as i128), ("u", 0, u32::MAX as i128), ("g", 0, u64::MAX as i128)] {
            if let I(x) = &l {
                let st = St::Ins("n".into(), Some(vec!["id".into(), col_.into()]), vec![vec![n(90), lit(l.clone())]]);
                v.push(if (lo..=hi).contains(x) { st } else { St::Raw(st.sql(false)) });
            }
        }
        v.push(St::Ins("n".into(), Some(vec!["id".into(), "f".into(), "d".into()]), vec![vec![n(90), lit(l.clone()), lit(l.clone())]]));
    }
    v
}
const SH: usize = 16;
/// Integer arithmetic at the limits: the exact value, or an error where it does not fit an operand's type.
fn edges() -> Vec<(usize, E)> {
    let cols: Vec<E> = ["a", "b", "u", "g"].iter().map(|x| col(x)).collect();
    let lits: Vec<E> = limits().into_iter().filter(|v| matches!(v, I(_))).chain([I(2), I(3)]).map(lit).collect();
    let mut v = vec![];
    for r in 0..rows(2).len() {
        for x in &cols {
            for op in OPS {
                for y in &cols {
                    v.push((r, bin(x.clone(), op, y.clone())));
                    v.push((r, bin(E::Neg(Box::new(x.clone())), op, y.clone())));
                }
                for y in &lits {
                    v.push((r, bin(x.clone(), op, y.clone())));
                    v.push((r, bin(y.clone(), op, x.clone())));
                }
            }
            v.push((r, E::Neg(Box::new(x.clone()))));
        }
    }
    v
}
/// The ranges of the columns an expression uses.
fn fits(e: &E, x: i128) -> bool {
    match e {
        E::Col(_, c) => match c.as_str() {
            "a" => i32::try_from(x).is_ok(),
            "b" => i64::try_from(x).is_ok(),
            "u" => u32::try_from(x).is_ok(),
            _ => u64::try_from(x).is_ok(),
        },
        E::Lit(_) => i64::try_from(x).is_ok(),
        E::Neg(a) => fits(a, x) && !unsigned(a),
        E::Bin(a, _, b) => fits(a, x) && fits(b, x),
        _ => false,
    }
}
fn neg_fits(e: &E, c: &Ctx, r: usize) -> bool {
    match e {
        E::Neg(a) => matches!(value(c, r, e), Some(I(x)) if fits(a, x) && !unsigned(a)),
        E::Bin(a, _, b) => neg_fits(a, c, r) && neg_fits(b, c, r),
        _ => true,
    }
}
fn one(r: usize, e: &E) -> Sel {
    Sel::from(tab("n")).items(vec![e.clone()]).wher(eq(col("id"), n(r as i128)))
}
fn value(c: &Ctx, r: usize, e: &E) -> Option<V> {
    c.model.query(&one(r, e)).ok().and_then(|a| sorted(&a).pop()).and_then(|mut r| r.pop())
}
pub fn items(_tier: Tier) -> Vec<Value> {
    let mut v = vec![];
    for sh in 0..SH {
        for (f, ks) in [("arith1", &[0, 1][..]), ("arith2", &[0]), ("chosen", &[0, 1]), ("joins", &[0, 1, 2]), ("groups", &[0, 1, 2]), ("dml", &[0])] {
            for k in ks {
                v.push(json!({"t": "num", "f": f, "k": k, "ix": 0, "sh": sh}));
            }
        }
        v.push(json!({"t": "num", "f": "over", "k": 2, "ix": 0, "sh": sh}));
        for k in 0..3 {
            for ix in 0..4 {
                v.push(json!({"t": "num", "f": "cmp", "k": k, "ix": ix, "sh": sh}));
            }
        }
    }
    v
}
fn queries(f: &str, k: usize, tier: Tier) -> Vec<Sel> {
    match f {
        "arith1" => arith1().iter().flat_map(places).collect(),
        "arith2" => arith2(tier == Tier::Thorough).into_iter().map(|e| Sel::from(tab("n")).items(vec![col("id"), e])).collect(),
        "chosen" => chosen(tier).iter().enumerate().flat_map(|(i, e)| places(e).into_iter().take(if i % 9 == 0 || tier == Tier::Thorough { 99 } else { 11 })).collect(),
        "joins" => joins_n(tier),
        "groups" => groups_n(),
        _ => compares_n(k),
    }
}
pub fn compares_n(k: usize) -> Vec<Sel> {
    compares(k).into_iter().enumerate().map(|(i, p)| if i % 5 == 4 { Sel::from(tab("n")).items(vec![col("id"), p]) } else { Sel::from(tab("n")).items(vec![col("id")]).wher(p) }).collect()
}
/// The engine sums in a different order than the model.
fn sums_exact(q: &Sel, k: usize) -> bool {
    fn has_sum(e: &E) -> bool {
        matches!(e, E::Agg(f, _, _) if *f == "SUM" || *f == "AVG")
    }
    fn has_div(e: &E) -> bool {
        match e {
            E::Bin(a, op, b) => *op == "/" || has_div(a) || has_div(b),
            E::Agg(_, _, Some(a)) => has_div(a),
            E::Fun(_, a) => a.iter().any(has_div),
            _ => false,
        }
    }
    let any_sum = q.items.iter().any(|(e, _)| has_sum(e));
    let inner_div = match &q.from {
        Some(From::Sub(s, _)) => s.items.iter().any(|(e, _)| has_div(e)),
        _ => q.with.iter().any(|(_, s)| s.items.iter().any(|(e, _)| has_div(e))),
    };
    !any_sum || (k != 2 && !inner_div && !q.items.iter().any(|(e, _)| has_div(e)))
}
pub fn run_item(tier: Tier, spec: &Value, out: &mut Out) {
    let g = |x: &str| spec[x].as_u64().unwrap() as usize;
    let (k, ix, sh) = (g("k"), g("ix"), g("sh"));
    let f = spec["f"].as_str().unwrap();
    let setup: Vec<St> = [table_n(k, "n", 0), table_n(k, "m", 2), vec![St::Create("w".into(), vec![c("i", "INT"), c("x", "DOUBLE")], vec![], vec![])], indexes(ix)].concat();
    if f == "dml" {
        for (i, st) in dml_n().iter().enumerate() {
            if i % SH != sh {
                continue;
            }
            let Some(mut c) = Ctx::new(CFG, &setup, out) else { return };
            out.step();
            out.state(hash_of(&("num", st.sql(false))));
            let r = c.step(st).and_then(|_| same_contents(&c.model, |s| run(&c.db, s)).map_err(|e| format!("after {}: {e}", st.sql(false))));
            if let Err(e) = r {
                out.violation(e, json!({"setup": c.setup}));
            }
            out.traces += 1;
        }
        return;
    }
    let Some(c) = Ctx::new(CFG, &setup, out) else { return };
    if f == "over" {
        for (i, (r, e)) in edges().iter().enumerate() {
            if i % SH != sh {
                continue;
            }
            let q = one(*r, e).sql(false);
            out.step();
            out.state(hash_of(&("over", &q)));
            let (want, got) = (value(&c, *r, e), run(&c.db, &q));
            let ok = match (&want, &got) {
                (Some(N), Res::Rows(g)) => g.len() == 1 && g[0] == [N],
                (Some(v), Res::Rows(g)) => g.len() == 1 && g[0] == [v.clone()],
                (Some(I(v)), Res::Err(_)) => !fits(e, *v) || !neg_fits(e, &c, *r),
                (Some(N), Res::Err(_)) => !neg_fits(e, &c, *r),
                (None, Res::Err(_)) => true,
                _ => false,
            };
            if !ok {
                out.violation(format!("{q}: {}, expected {want:?}", got.show()), json!({"setup": c.setup, "query": q}));
            }
        }
        out.traces += 1;
        return;
    }
    for (i, q) in queries(f, k, tier).iter().enumerate() {
        if i % SH == sh && sums_exact(q, k) {
            if i < SH {
                out.sample(json!(q.sql(false)));
            }
            c.query(q, out);
        }
    }
    out.traces += 1;
}
pub fn bounds(tier: Tier) -> String {
    let n = |f, k| queries(f, k, tier).len();
    format!(
        "columns of all numeric types and BOOL on 3 contents (exact values; zeros, NULLs and ties; the limits of every type): {} queries placing every operation on two columns or literals wherever an expression can stand, {} operations of depth two, {} COALESCE/NULLIF/rounding queries, {} joins between columns of any two types, {} grouping and ordering queries, {} comparisons each without and with three sets of indexes, {} DML statements, {} integer operations at the limits (exact value, or an error where it does not fit)",
        n("arith1", 0), n("arith2", 0), n("chosen", 0), n("joins", 0), n("groups", 0), n("cmp", 0) + n("cmp", 2), dml_n().len(), edges().len()
    )
}
