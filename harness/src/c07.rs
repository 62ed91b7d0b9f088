//! C07: UNIQUE, PRIMARY KEY and NOT NULL always hold in committed data.
use crate::fw::*;
use crate::hist::*;
use crate::sqlm::{V::N, *};

fn plans(tier: Tier) -> Vec<Plan> {
    let mut out = vec![];
    let i1 = |k: i128| i(k);
    // PRIMARY KEY and UNIQUE with NULLs, two sessions
    let setup = vec![create("t", &[("a", "INT"), ("b", "INT")], &["a"], &[&["b"]]), inn("t", &[&[1, 10]])];
    let stmts = vec![
        inn("t", &[&[1, 11]]),
        inn("t", &[&[2, 10]]),
        ins("t", &[&[i1(2), N]]),
        ins("t", &[&[i1(3), N], &[i1(2), i1(20)]]),
        ins("t", &[&[N, i1(30)]]),
        del("t", Some(eq(col("a"), n(1)))),
        del("t", Some(E::IsNull(Box::new(col("b")), false))),
        upd("t", "b", n(10), Some(eq(col("a"), n(2)))),
        upd("t", "a", n(2), Some(eq(col("a"), n(1)))),
        upd("t", "a", lit(N), Some(eq(col("a"), n(1)))),
    ];
    let probes = || {
        let mut v = by("t", "a", &[1, 2, 3]);
        v.extend(by("t", "b", &[10, 20]));
        v
    };
    let mut ops: Vec<Op> = (0..10).map(Op::Auto).collect();
    ops.extend([Op::Begin(0), Op::In(0, 0), Op::In(0, 2), Op::In(0, 5), Op::Commit(0), Op::Roll(0)]);
    out.push(Plan { probes: probes(), ..Plan::new("one session", setup.clone(), stmts.clone(), ops, tier.pick(4, 5)) });
    let mut ops = vec![];
    for s in 0..2 {
        ops.extend([Op::Begin(s), Op::In(s, 0), Op::In(s, 2), Op::In(s, 5), Op::Commit(s), Op::Roll(s)]);
    }
    ops.extend([Op::Auto(0), Op::Auto(5)]);
    out.push(Plan { probes: probes(), ..Plan::new("two sessions", setup.clone(), stmts.clone(), ops, tier.pick(5, 6)) });
    // composite keys, text keys
    let setup = vec![create("t", &[("a", "INT"), ("b", "TEXT"), ("k", "INT")], &[], &[&["a", "b"]])];
    let vs = [i1(1), i1(2)];
    let ts = [s("x"), s("xy"), N];
    let mut stmts = vec![];
    for a in vs.iter().chain([&N]) {
        for b in &ts {
            stmts.push(ins("t", &[&[a.clone(), b.clone(), i1(0)]]));
        }
    }
    let nrow = stmts.len();
    stmts.push(del("t", Some(eq(col("a"), n(1)))));
    stmts.push(upd("t", "b", lit(s("x")), None));
    stmts.push(St::Upd("t".into(), vec![("a".into(), n(1)), ("k".into(), n(5))], Some(eq(col("a"), n(2)))));
    let ops: Vec<Op> = (0..stmts.len()).filter(|k| *k != 5 && *k != 7).map(Op::Auto).collect();
    let _ = nrow;
    out.push(Plan { ..Plan::new("composite key", setup, stmts, ops, tier.pick(4, 5)) });
    // NOT NULL, indexes created over existing rows
    let setup = vec![St::Create("t".into(), vec![cnn("a", "INT"), c("b", "INT")], vec![], vec![])];
    let stmts = vec![
        inn("t", &[&[1, 1]]),
        inn("t", &[&[2, 1]]),
        ins("t", &[&[N, i1(1)]]),
        St::Ins("t".into(), Some(vec!["b".into()]), vec![vec![n(3)]]),
        ins("t", &[&[i1(3), N], &[i1(4), N]]),
        index("ia", "t", &["a"]),
        index("ib", "t", &["b"]),
        del("t", Some(eq(col("a"), n(1)))),
        del("t", Some(eq(col("b"), n(1)))),
        upd("t", "a", lit(N), Some(eq(col("b"), n(1)))),
        upd("t", "b", lit(N), Some(eq(col("a"), n(1)))),
        St::InsSel("t".into(), Sel::from(tab("t")).items(vec![col("b"), col("a")])),
        St::InsSel("t".into(), Sel::from(tab("t")).items(vec![bin(col("a"), "+", n(10)), col("b")])),
    ];
    let mut ops: Vec<Op> = (0..stmts.len()).map(Op::Auto).collect();
    out.push(Plan { probes: { let mut v = by("t", "a", &[1, 2]); v.extend(by("t", "b", &[1])); v }, ..Plan::new("constraints added later", setup.clone(), stmts.clone(), ops.clone(), tier.pick(4, 5)) });
    ops = [0, 1, 4, 5, 6, 7].map(Op::Auto).to_vec();
    ops.extend([Op::Begin(0), Op::In(0, 0), Op::In(0, 7), Op::In(0, 5), Op::Commit(0), Op::Roll(0)]);
    out.push(Plan { ..Plan::new("constraints added during transactions", setup, stmts, ops, tier.pick(4, 6)) });
    // many constraints on one table, of one and of two columns
    let setup = vec![create("t", &[("a", "INT"), ("b", "INT"), ("c", "INT"), ("d", "INT")], &["a"], &[&["b"], &["c"], &["b", "d"], &["c", "d"], &["d"]])];
    let mut stmts: Vec<St> = (0..16).map(|k: i128| inn("t", &[&[1 + (k & 1), 1 + (k >> 1 & 1), 1 + (k >> 2 & 1), 1 + (k >> 3)]])).collect();
    stmts.push(del("t", Some(eq(col("a"), n(1)))));
    let ops: Vec<Op> = (0..stmts.len()).map(Op::Auto).collect();
    out.push(Plan { ..Plan::new("many constraints", setup, stmts.clone(), ops.clone(), tier.pick(3, 4)) });
    let setup = vec![create("t", &[("a", "INT"), ("b", "INT"), ("c", "INT"), ("d", "INT")], &[], &[&["a", "b"], &["a", "c"], &["b", "c", "d"]]), index("i1", "t", &["a", "d"]), index("i2", "t", &["d", "c", "b"])];
    out.push(Plan { ..Plan::new("many composite constraints", setup, stmts, ops, tier.pick(3, 4)) });
    out
}
crate::hist_check!(C07, "C07", plans, known_update);
