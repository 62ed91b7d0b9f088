//! C03: ROLLBACK, a failed statement or a failed batch leaves no effects.
use crate::fw::*;
use crate::hist::*;
use crate::sqlm::*;

fn plans(tier: Tier) -> Vec<Plan> {
    let setup = || {
        vec![
            create("t", &[("a", "INT"), ("b", "INT")], &["a"], &[]),
            inn("t", &[&[1, 10], &[2, 20]]),
            create("u", &[("x", "INT")], &[], &[]),
            inn("u", &[&[1], &[2]]),
        ]
    };
    let probes = || {
        let mut v = by("t", "a", &[1, 2, 3, 4]);
        v.extend(by("u", "x", &[1]));
        v
    };
    let mut out = vec![];
    // One session's transaction, autocommit statements around it.
    let stmts = vec![
        inn("t", &[&[3, 30]]),
        inn("t", &[&[4, 40], &[1, 99]]),
        del("t", Some(eq(col("a"), n(1)))),
        inn("t", &[&[1, 11]]),
        St::InsSel("u".into(), Sel::from(tab("t")).items(vec![bin(n(10), "/", bin(col("b"), "-", n(20)))])),
        del("t", Some(bin(bin(n(10), "/", bin(col("b"), "-", n(20))), "<", n(100)))),
        upd("t", "b", bin(col("b"), "+", n(1)), None),
        upd("t", "a", n(7), None),
        upd("u", "x", bin(n(10), "/", bin(col("x"), "-", n(2))), None),
        upd("t", "a", bin(col("a"), "+", n(1)), Some(eq(col("a"), n(2)))),
        del("u", None),
    ];
    let b = Op::Begin(0);
    let ops = vec![b.clone(), Op::In(0, 0), Op::In(0, 1), Op::In(0, 2), Op::In(0, 3), Op::In(0, 4), Op::In(0, 10), Op::Roll(0), Op::Kill(0), Op::Commit(0), Op::Auto(2), Op::Auto(3), Op::Auto(1)];
    out.push(Plan { probes: probes(), ..Plan::new("one transaction", setup(), stmts.clone(), ops, tier.pick(5, 6)) });
    let ops = vec![b.clone(), Op::In(0, 2), Op::In(0, 7), Op::In(0, 8), Op::In(0, 5), Op::In(0, 6), Op::Commit(0), Op::Roll(0), Op::Auto(0), Op::Auto(4), Op::Auto(6), Op::Auto(7), Op::Auto(8), Op::Auto(9), Op::Auto(1)];
    out.push(Plan { probes: probes(), ..Plan::new("failing statements", setup(), stmts.clone(), ops, tier.pick(4, 5)) });
    let ops = vec![
        Op::Batch(vec![0, 1]),
        Op::Batch(vec![2, 3]),
        Op::Batch(vec![2, 3, 1]),
        Op::Batch(vec![10, 4]),
        Op::Batch(vec![0, 0]),
        Op::Batch(vec![2, 6, 0]),
        Op::Batch(vec![10, 8, 0]),
        Op::Auto(0),
        Op::Auto(2),
        Op::Auto(10),
        b.clone(),
        Op::In(0, 2),
        Op::Roll(0),
    ];
    out.push(Plan { probes: probes(), ..Plan::new("batches", setup(), stmts.clone(), ops, tier.pick(4, 5)) });
    // Schema changes.
    let stmts = vec![
        create("w", &[("k", "INT")], &[], &[&["k"]]),
        inn("w", &[&[1]]),
        St::Drop("u".into()),
        create("u", &[("y", "INT"), ("z", "INT")], &["y"], &[]),
        inn("u", &[&[5, 5]]),
        index("iu", "u", &["x"]),
        inn("u", &[&[1]]),
        St::Drop("w".into()),
        del("u", Some(eq(col("x"), n(1)))),
        inn("t", &[&[3, 30]]),
    ];
    let mut ops = vec![b.clone(), Op::Roll(0), Op::Kill(0), Op::Commit(0)];
    ops.extend((0..9).map(|i| Op::In(0, i)));
    ops.extend([0, 2, 5, 6, 7, 9].map(Op::Auto));
    ops.push(Op::Batch(vec![0, 1, 1]));
    ops.push(Op::Batch(vec![2, 3, 9, 9]));
    out.push(Plan { probes: probes(), ..Plan::new("schema changes", setup(), stmts.clone(), ops.clone(), tier.pick(4, 5)) });
    out.push(Plan { probes: probes(), end_vacuum: true, end_reopen: Some(CFG), ..Plan::new("schema changes, then VACUUM and reopen", setup(), stmts, ops, tier.pick(3, 4)) });
    out
}
crate::hist_check!(C03, "C03", plans, known_in_place);
