//! C02: nothing of unfinished, failed or rolled-back transactions is visible after a crash.
use crate::c01::*;
use crate::crash::*;
use crate::fw::*;
use crate::hist::*;
use crate::sqlm::*;

pub fn plans(tier: Tier) -> Vec<CPlan> {
    let rows = || inn("t", &[&[1, 10], &[2, 20]]);
    let d = tier.pick(4, 5);
    let mut v = vec![];
    for flushed in [true, false] {
        let name = |n: &str| if flushed { n.to_string() } else { format!("{n}, nothing checkpointed") };
        let stmts = || {
            vec![
                inn("t", &[&[3, 30]]),
                inn("t", &[&[4, 40], &[5, 50]]),
                del("t", Some(eq(col("a"), n(1)))),
                upd("t", "b", n(99), Some(eq(col("a"), n(2)))),
                inn("t", &[&[6, 60]]),
            ]
        };
        v.push(CPlan {
            flushed,
            ..base(
                &name("one session left open"),
                vec![table(), rows()],
                stmts(),
                vec![Op::Begin(0), Op::In(0, 0), Op::In(0, 1), Op::In(0, 2), Op::In(0, 3), Op::Commit(0), Op::Roll(0), Op::Kill(0), Op::Auto(4), Op::Flush, Op::Vacuum, Op::Crash],
                d,
            )
        });
        v.push(CPlan {
            flushed,
            ..base(
                &name("two sessions left open"),
                vec![table(), rows()],
                stmts(),
                vec![Op::Begin(0), Op::Begin(1), Op::In(0, 0), Op::In(0, 2), Op::In(1, 1), Op::In(1, 3), Op::Commit(0), Op::Commit(1), Op::Roll(1), Op::Flush, Op::Crash],
                tier.pick(5, 6),
            )
        });
        // statements that fail half-way
        v.push(CPlan {
            flushed,
            ..base(
                &name("failing statements"),
                vec![table(), rows()],
                vec![
                    inn("t", &[&[3, 30], &[1, 11]]),
                    inn("t", &[&[4, 40], &[5, 50], &[4, 41]]),
                    upd("t", "a", n(2), Some(eq(col("a"), n(1)))),
                    inn("t", &[&[3, 31]]),
                    del("t", Some(eq(col("a"), n(2)))),
                    inn("u", &[&[3, 31]]),
                ],
                vec![
                    Op::Auto(0),
                    Op::Auto(1),
                    Op::Auto(2),
                    Op::Auto(3),
                    Op::Auto(4),
                    Op::Batch(vec![3, 0]),
                    Op::Batch(vec![4, 3, 5]),
                    Op::Begin(0),
                    Op::In(0, 0),
                    Op::In(0, 3),
                    Op::In(0, 4),
                    Op::Commit(0),
                    Op::Flush,
                    Op::Crash,
                ],
                tier.pick(3, 4),
            )
        });
        v.push(CPlan {
            flushed,
            ..base(
                &name("ddl in a transaction"),
                vec![table(), rows()],
                vec![
                    create("n", &[("a", "INT"), ("b", "INT")], &["a"], &[]),
                    inn("n", &[&[1, 1]]),
                    index("i", "t", &["b"]),
                    St::Drop("t".into()),
                    St::Alter("t".into(), Alt::Add(cdef("c", "INT", i(5)))),
                    St::Alter("t".into(), Alt::Type("b".into(), "BIGINT")),
                    inn("t", &[&[3, 30]]),
                ],
                vec![
                    Op::Begin(0),
                    Op::In(0, 0),
                    Op::In(0, 1),
                    Op::In(0, 2),
                    Op::In(0, 3),
                    Op::In(0, 4),
                    Op::In(0, 5),
                    Op::In(0, 6),
                    Op::Commit(0),
                    Op::Roll(0),
                    Op::Auto(0),
                    Op::Auto(6),
                    Op::Flush,
                    Op::Vacuum,
                    Op::Crash,
                ],
                tier.pick(3, 4),
            )
        });
    }
    // the log is written in the middle of a transaction
    for len in [9000, 20000, 38000] {
        let p = base(
            &format!("rows of {len} bytes"),
            vec![texts(), wide(1, 100)],
            vec![wide(2, len), wide(3, len), wide(4, 10), del("t", Some(eq(col("a"), n(1))))],
            vec![Op::Begin(0), Op::In(0, 0), Op::In(0, 1), Op::In(0, 2), Op::In(0, 3), Op::Commit(0), Op::Roll(0), Op::Auto(2), Op::Flush, Op::Crash],
            tier.pick(4, 5),
        );
        v.push(CPlan { plan: Plan { tail: text_tail(), ..p.plan }, ..p });
    }
    // pages with the work of an open transaction are evicted
    let p = base(
        "small cache",
        vec![texts(), wides(100, 40, 900)],
        vec![wides(1, 20, 900), wide(30, 9000), del("t", Some(bin(col("a"), "<", n(130)))), upd("t", "b", lit(s(&"u".repeat(700))), Some(bin(col("a"), "<", n(120)))), wide(50, 10), wides(60, 2, 900)],
        vec![Op::Begin(0), Op::In(0, 0), Op::In(0, 1), Op::In(0, 2), Op::In(0, 3), Op::Begin(1), Op::In(1, 5), Op::Commit(1), Op::Commit(0), Op::Roll(0), Op::Auto(4), Op::Flush, Op::Vacuum],
        tier.pick(3, 4),
    );
    v.push(CPlan { plan: Plan { cfg: TINY, tail: text_tail(), probes: vec![], ..p.plan }, ..p });
    // long histories: a crash at every write
    let plain = || create("t", &[("a", "INT"), ("b", "INT")], &[], &[]);
    let long = |name: &str, flushed: bool, ops: Vec<Op>, cycle: &[usize], count: usize| CPlan {
        flushed,
        chain: Some((0..count).map(|k| cycle[k % cycle.len()]).collect()),
        ..base(name, vec![plain()], vec![inn("t", &[&[1, 1]]), inn("t", &[&[2, 2], &[3, 3], &[4, 4]]), del("t", Some(eq(col("a"), n(3)))), inn("u", &[&[5, 5]])], ops, 0)
    };
    let k = tier.pick(1, 3);
    v.push(long("rolled-back transactions between commits", true, vec![Op::Begin(0), Op::In(0, 1), Op::Roll(0), Op::Auto(0)], &[0, 1, 2, 3], 160 * k));
    v.push(long("interleaved commits and rollbacks", false, vec![Op::Begin(0), Op::In(0, 1), Op::Begin(1), Op::In(1, 0), Op::Roll(0), Op::Commit(1), Op::Auto(3)], &[0, 1, 2, 3, 4, 5, 6], 140 * k));
    v.push(long("one transaction open all along", true, vec![Op::Begin(1), Op::In(1, 1), Op::Begin(0), Op::In(0, 0), Op::Commit(0), Op::Flush], &[0, 1, 2, 3, 4, 1, 2, 3, 4, 2, 3, 4, 2, 3, 4, 2, 3, 4, 2, 3, 4, 5, 2, 3, 4, 2, 3, 4, 2, 3, 4, 2, 3, 4], 34));
    v
}
crate::crash_check!(C02, "C02", plans, known_in_place);
