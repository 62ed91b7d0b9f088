//! C04: snapshot isolation.
use crate::fw::*;
use crate::hist::*;
use crate::sqlm::*;

fn plans(tier: Tier) -> Vec<Plan> {
    let setup = || vec![create("t", &[("a", "INT"), ("b", "INT")], &["a"], &[]), inn("t", &[&[1, 10], &[2, 20]])];
    let probes = || {
        let mut v = by("t", "a", &[1, 2, 3]);
        v.push(Sel::from(tab("t")).items(vec![count(), agg("SUM", col("b"))]));
        v
    };
    let stmts = vec![inn("t", &[&[3, 30]]), del("t", Some(eq(col("a"), n(1)))), del("t", None), inn("t", &[&[1, 11]]), upd("t", "b", bin(col("b"), "+", n(1)), None)];
    let mut out = vec![];
    let ses = |k: usize, st: &[usize]| {
        let mut v = vec![];
        for s in 0..k {
            v.push(Op::Begin(s));
            v.extend(st.iter().map(|i| Op::In(s, *i)));
            v.push(Op::Commit(s));
            v.push(Op::Roll(s));
        }
        v
    };
    let mut ops = ses(2, &[0, 1]);
    ops.extend([Op::Auto(0), Op::Auto(1), Op::Auto(4)]);
    out.push(Plan { probes: probes(), ..Plan::new("two sessions", setup(), stmts.clone(), ops, tier.pick(5, 7)) });
    let mut ops = ses(2, &[1, 3, 2]);
    ops.extend([Op::Auto(1)]);
    out.push(Plan { probes: probes(), read_always: true, ..Plan::new("two sessions, read after every step", setup(), stmts.clone(), ops, tier.pick(5, 6)) });
    let mut ops = ses(3, &[0]);
    ops.extend([Op::Auto(1), Op::In(0, 1), Op::In(1, 1)]);
    out.push(Plan { probes: probes(), ..Plan::new("three sessions", setup(), stmts.clone(), ops, tier.pick(5, 7)) });
    out
}
crate::hist_check!(C04, "C04", plans, known_in_place);
