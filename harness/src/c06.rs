//! C06: every plan the optimizer can produce gives the answer of the query as written; indexes agree
//! with their tables.
use crate::c05::{self, Ctx};
use crate::c05bool;
use crate::c05num;
use crate::fw::*;
use crate::sqlm::V::*;
use crate::sqlm::*;
use axmosdb::sql::planner::plan_choice;
use serde_json::{Value, json};
use std::sync::{Arc, Mutex};

pub struct C06;

/// Executes `f` once with the choices forced by `dev` (position -> alternative); returns the choice points met.
fn with_choices<T>(dev: &[(usize, usize)], f: impl FnOnce() -> T) -> (T, Vec<(usize, usize)>) {
    let trace: Arc<Mutex<Vec<(usize, usize)>>> = Default::default();
    let (t2, dev) = (trace.clone(), dev.to_vec());
    plan_choice::set(Some(Box::new(move |n, cheapest| {
        let mut t = t2.lock().unwrap();
        let at = t.len();
        t.push((n, cheapest));
        match dev.iter().find(|(p, _)| *p == at) {
            Some((_, a)) => *a,
            None => cheapest,
        }
    })));
    let r = f();
    plan_choice::set(None);
    let t = trace.lock().unwrap().clone();
    (r, t)
}
/// All plans reachable with at most `bound` deviations from the cheapest alternative.
pub fn all_plans(bound: usize, cap: usize, mut f: impl FnMut(&[(usize, usize)]) -> bool, run1: &mut dyn FnMut() -> Res, mut check: impl FnMut(&[(usize, usize)], &Res) -> bool) -> (usize, bool) {
    let mut stack: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut n = 0;
    while let Some(dev) = stack.pop() {
        if n >= cap {
            return (n, true);
        }
        if !f(&dev) {
            continue;
        }
        let (res, trace) = with_choices(&dev, || run1());
        n += 1;
        if !check(&dev, &res) {
            return (n, false);
        }
        if dev.len() < bound {
            let from = dev.last().map(|d| d.0 + 1).unwrap_or(0);
            for (p, (alts, cheapest)) in trace.iter().enumerate().skip(from) {
                for a in 0..*alts {
                    if a != *cheapest {
                        let mut d = dev.clone();
                        d.push((p, a));
                        stack.push(d);
                    }
                }
            }
        }
    }
    (n, false)
}
pub struct PlanStats {
    pub plans: usize,
    pub capped: bool,
}
/// The query in the engine's own choice and under every bounded choice of plan.
pub fn query_all_plans(c: &Ctx, q: &Sel, bound: usize, cap: usize, out: &mut Out) -> Result<PlanStats, String> {
    let t = q.sql(false);
    let ans = match c.model.query(q) {
        Ok(a) => a,
        Err(_) => return Ok(PlanStats { plans: 0, capped: false }),
    };
    let judge = |r: &Res| match r {
        Res::Rows(r) => ans.check(r),
        g => Err(format!("{}, expected {}", g.show(), ans.show())),
    };
    out.step();
    judge(&run(&c.db, &t)).map_err(|e| format!("{t}: {e}"))?;
    let mut bad = None;
    let (plans, capped) = all_plans(bound, cap, |_| true, &mut || run(&c.db, &t), |dev, r| match judge(r) {
        Ok(()) => true,
        Err(e) => {
            let (plan, _) = with_choices(dev, || c.db.explain(&t));
            bad = Some(format!("{t}: with plan choices {dev:?}: {e}\nplan: {}", plan.unwrap_or_default()));
            false
        }
    });
    out.transitions += plans as u64;
    out.count("plans_executed", plans as u64);
    if capped {
        out.count("queries_with_capped_plan_enumeration", 1);
    }
    match bad {
        Some(b) => Err(b),
        None => Ok(PlanStats { plans, capped }),
    }
}

// variants of a database holding the same rows
const VARIANTS: [&str; 6] = ["plain", "indexed", "analyzed", "indexed+analyzed", "reversed", "index-late+analyzed-early"];
fn variant(setup: Vec<St>, idx: Vec<St>, v: usize) -> (Vec<St>, bool, bool) {
    let (cre, ins): (Vec<St>, Vec<St>) = setup.into_iter().partition(|s| matches!(s, St::Create(..)));
    match v {
        0 => ([cre, ins].concat(), false, false),
        1 => ([cre, idx, ins].concat(), false, false),
        2 => ([cre, ins].concat(), false, true),
        3 => ([cre, idx, ins].concat(), false, true),
        4 => ([cre, ins.into_iter().rev().collect()].concat(), false, false),
        _ => ([cre, ins, idx].concat(), true, false),
    }
}
fn idx(name: &str, t: &str, cols: &[&str]) -> St {
    St::Index(name.into(), t.into(), cols.iter().map(|c| c.to_string()).collect())
}
fn idx_j(set: usize) -> Vec<St> {
    match set {
        0 => vec![idx("ix", "x", &["xi"]), idx("iy", "y", &["yi"]), idx("iz", "z", &["zi"])],
        _ => vec![idx("ix", "x", &["k", "xi"]), idx("iy", "y", &["yi", "k"]), idx("iz", "z", &["k", "zi"])],
    }
}
fn idx_p(set: usize) -> Vec<St> {
    match set {
        0 => vec![idx("ip", "p", &["id"])],
        1 => vec![idx("ip", "p", &["a", "b", "s"])],
        2 => vec![idx("ip", "p", &["s", "b", "id"])],
        _ => vec![idx("ip", "p", &["a", "id"]), idx("iq", "p", &["b", "s", "id"])],
    }
}
fn open(setup: &[St], early: bool, analyze: bool, out: &mut Out) -> Option<Ctx> {
    let split = if early { setup.iter().position(|s| matches!(s, St::Index(..))).unwrap_or(setup.len()) } else { setup.len() };
    let mut c = Ctx::new(CFG, &setup[..split], out)?;
    if early || analyze {
        c.setup.push("ANALYZE".into());
        if let Err(e) = c.db.analyze(1.0, 10_000) {
            out.violation(format!("ANALYZE: {e}"), json!({"setup": c.setup}));
            return None;
        }
    }
    for s in &setup[split..] {
        if let Err(e) = c.step(s) {
            out.violation(e, json!({"setup": c.setup}));
            return None;
        }
    }
    Some(c)
}
/// Predicates on p with some over id, so that index bounds of every form occur.
fn p_queries(tier: Tier) -> Vec<Sel> {
    let mut ps: Vec<E> = c05::atoms();
    for op in ["=", "<>", "<", "<=", ">", ">="] {
        for k in [-1, 0, 5, 63, 64] {
            ps.push(bin(col("id"), op, lit(I(k))));
            ps.push(bin(lit(I(k)), op, col("id")));
            for op2 in ["=", "<", ">="] {
                for k2 in [0, 5, 40] {
                    ps.push(and(bin(col("id"), op, lit(I(k))), bin(col("id"), op2, lit(I(k2)))));
                    ps.push(or(bin(col("id"), op, lit(I(k))), bin(col("id"), op2, lit(I(k2)))));
                }
                ps.push(and(bin(col("a"), op2, n(1)), bin(col("id"), op, lit(I(k)))));
                ps.push(and(bin(col("a"), op2, n(1)), bin(col("b"), op, lit(I(k)))));
                ps.push(and(bin(col("s"), op2, lit(s("a"))), bin(col("b"), op, lit(I(k)))));
                ps.push(not(and(bin(col("a"), op2, n(1)), bin(col("id"), op, lit(I(k))))));
            }
        }
    }
    ps.push(c05::between(col("id"), n(3), n(9), false));
    ps.push(c05::between(col("id"), n(9), n(3), false));
    ps.push(c05::between(col("id"), n(3), n(9), true));
    ps.push(c05::inl(col("id"), vec![n(1), n(5), n(5), n(77)], false));
    ps.push(eq(col("id"), lit(N)));
    ps.push(eq(col("id"), lit(F(5.0))));
    ps.push(eq(col("id"), lit(F(5.5))));
    ps.push(bin(col("id"), "<", lit(F(5.5))));
    ps.push(eq(col("id"), bin(n(2), "+", n(3))));
    ps.push(eq(bin(col("id"), "+", n(1)), n(5)));
    let few = c05::few();
    for x in &few {
        for y in few.iter().take(tier.pick(6, 12)) {
            ps.push(and(x.clone(), y.clone()));
            ps.push(or(x.clone(), y.clone()));
        }
    }
    let mut v = vec![];
    for (i, p) in ps.into_iter().enumerate() {
        v.push(Sel::from(tab("p")).items(vec![col("id")]).wher(p.clone()));
        if i % 3 == 0 {
            v.push(Sel::from(tab("p")).items(vec![col("s"), col("a")]).wher(p.clone()).order(vec![(col("id"), i % 2 == 0)]));
            let mut q = Sel::from(tab("p")).items(vec![col("a"), count()]).wher(p.clone());
            q.group = vec![col("a")];
            v.push(q);
        }
        if i % 7 == 0 {
            let mut q = Sel::from(tab("p")).items(vec![col("id"), col("b")]).wher(p.clone()).order(vec![(col("b"), true), (col("id"), false)]);
            q.limit = Some(5);
            q.offset = Some(1);
            v.push(q);
            let mut q = Sel::from(join(tab_as("p", "l"), "JOIN", tab_as("p", "r"), Some(eq(col("l.a"), col("r.id"))))).items(vec![col("l.id"), col("r.id")]);
            q.wher = Some(bin(col("l.id"), "<", lit(I(i as i128 % 9))));
            v.push(q);
        }
    }
    v
}
const SH: usize = 16;

impl Check for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn items(&self, tier: Tier) -> Vec<Value> {
        let mut v = vec![];
        for k in 0..c05::contents_j().len() {
            for var in 0..VARIANTS.len() {
                for ix in 0..2 {
                    if ix == 1 && !VARIANTS[var].contains("index") {
                        continue;
                    }
                    for sh in 0..SH {
                        v.push(json!({"t": "join", "k": k, "var": var, "ix": ix, "sh": sh}));
                    }
                }
            }
        }
        for var in 0..VARIANTS.len() {
            for ix in 0..4 {
                if ix > 0 && !VARIANTS[var].contains("index") {
                    continue;
                }
                for sh in 0..SH {
                    v.push(json!({"t": "pred", "var": var, "ix": ix, "sh": sh}));
                }
            }
        }
        for k in 0..3 {
            for ix in 0..4 {
                for var in 0..VARIANTS.len() {
                    let indexed = VARIANTS[var].contains("index");
                    if (ix > 0) != indexed || (tier == Tier::Quick && var != [1, 3, 5][(ix + k) % 3] && ix > 0) || (tier == Tier::Quick && ix == 0 && var != 2) {
                        continue;
                    }
                    for sh in 0..SH {
                        if k > 0 || tier == Tier::Thorough {
                            v.push(json!({"t": "ncmp", "k": k, "var": var, "ix": ix, "sh": sh}));
                        }
                        v.push(json!({"t": "njoin", "k": k, "var": var, "ix": ix, "sh": sh}));
                    }
                }
            }
        }
        for ix in 0..3 {
            for var in 0..VARIANTS.len() {
                if (ix > 0) != VARIANTS[var].contains("index") || (tier == Tier::Quick && var != [2, 1, 3][ix]) {
                    continue;
                }
                for sh in 0..SH {
                    v.push(json!({"t": "bfilter", "var": var, "ix": ix, "sh": sh}));
                    v.push(json!({"t": "bjoin", "var": var, "ix": ix, "sh": sh}));
                }
            }
        }
        v
    }
    fn run(&self, tier: Tier, spec: &Value, out: &mut Out) {
        let g = |x: &str| spec[x].as_u64().unwrap_or(0) as usize;
        let (var, ix, sh) = (g("var"), g("ix"), g("sh"));
        let (setup, qs, ixs) = match spec["t"].as_str().unwrap() {
            "join" => (c05::table_j(g("k")), c05::joins(tier), idx_j(ix)),
            t @ ("bfilter" | "bjoin") => (c05bool::table_b(), if t == "bfilter" { c05bool::filters(tier) } else { c05bool::joined() }, c05bool::indexes(ix)),
            t @ ("ncmp" | "njoin") => {
                let setup = [c05num::table_n(g("k"), "n", 0), c05num::table_n(g("k"), "m", 2)].concat();
                (setup, if t == "ncmp" { c05num::compares_n(g("k")) } else { c05num::joins_n(tier) }, c05num::indexes(ix))
            }
            _ => (c05::table_p(), p_queries(tier), idx_p(ix)),
        };
        let (setup, early, analyze) = variant(setup, ixs, var);
        let Some(c) = open(&setup, early, analyze, out) else { return };
        let bound = tier.pick(1, 2);
        for (i, q) in qs.iter().enumerate() {
            if i % SH != sh {
                continue;
            }
            out.state(hash_of(&(spec["t"].as_str(), g("k"), var, ix, i)));
            if let Err(e) = query_all_plans(&c, q, bound, tier.pick(60, 400), out) {
                out.violation(e, json!({"setup": c.setup, "query": q.sql(false)}));
            }
        }
        out.traces += 1;
        if sh == 0 {
            out.sample(spec.clone());
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} join queries on {} contents and {} single-table queries, on databases without/with single and composite unique indexes, before/after ANALYZE, in two insertion orders; for every query the engine's own plan and every plan at most {} choices away from it; the same for comparisons and joins between columns of all numeric types and BOOL (three contents, indexes over every type) and for predicates and joins on BOOL columns", c05::joins(tier).len(), c05::contents_j().len(), p_queries(tier).len(), tier.pick(1, 2))
    }
}
