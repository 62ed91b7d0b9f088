//! C08: the database reopens after a crash at any instant, and recovery can be repeated.
use crate::c01::*;
use crate::crash::*;
use crate::fw::*;
use crate::hist::*;
use crate::sqlm::*;

pub fn plans(tier: Tier) -> Vec<CPlan> {
    let rows = || inn("t", &[&[1, 10], &[2, 20]]);
    let mut v = vec![];
    for flushed in [true, false] {
        let name = |n: &str| if flushed { n.to_string() } else { format!("{n}, nothing checkpointed") };
        v.push(CPlan {
            flushed,
            nested: tier.pick(2, 3),
            ..base(
                &name("recovery interrupted repeatedly"),
                vec![table(), rows()],
                vec![inn("t", &[&[3, 30]]), del("t", Some(eq(col("a"), n(1)))), upd("t", "b", n(99), Some(eq(col("a"), n(2))))],
                vec![Op::Auto(0), Op::Auto(1), Op::Auto(2), Op::Begin(0), Op::In(0, 0), Op::Flush],
                2,
            )
        });
        v.push(CPlan {
            flushed,
            nested: 1,
            ..base(
                &name("checkpoints, vacuums, closes"),
                vec![table(), rows()],
                vec![inn("t", &[&[3, 30]]), del("t", Some(eq(col("a"), n(1)))), upd("t", "b", n(99), Some(eq(col("a"), n(2)))), inn("t", &[&[4, 40], &[1, 11]])],
                vec![Op::Auto(0), Op::Auto(1), Op::Auto(2), Op::Auto(3), Op::Begin(0), Op::In(0, 0), Op::In(0, 1), Op::Commit(0), Op::Roll(0), Op::Flush, Op::Vacuum, Op::Analyze, Op::Reopen(CFG), Op::Crash],
                tier.pick(3, 4),
            )
        });
        v.push(CPlan {
            flushed,
            nested: 1,
            ..base(
                &name("ddl"),
                vec![table(), rows()],
                vec![
                    create("n", &[("a", "INT"), ("b", "INT")], &["a"], &[]),
                    inn("n", &[&[1, 1]]),
                    index("i", "t", &["b"]),
                    St::Drop("t".into()),
                    St::Alter("t".into(), Alt::Add(cdef("c", "INT", i(5)))),
                    inn("t", &[&[3, 30]]),
                ],
                vec![Op::Auto(0), Op::Auto(1), Op::Auto(2), Op::Auto(3), Op::Auto(4), Op::Auto(5), Op::Begin(0), Op::In(0, 0), Op::In(0, 4), Op::Flush, Op::Vacuum, Op::Crash, Op::Reopen(CFG)],
                tier.pick(2, 3),
            )
        });
    }
    for len in [9000, 38000] {
        let p = base(&format!("rows of {len} bytes"), vec![texts(), wide(1, 100)], vec![wide(2, len), wide(3, len), del("t", Some(eq(col("a"), n(2))))], vec![Op::Auto(0), Op::Auto(1), Op::Auto(2), Op::Batch(vec![0, 1]), Op::Flush, Op::Vacuum, Op::Crash], tier.pick(2, 3));
        v.push(CPlan { nested: 1, plan: Plan { tail: text_tail(), ..p.plan }, ..p });
    }
    // pages are evicted, both while the statements run and while they are recovered
    for (name, reopen) in [("small cache", CFG), ("small cache, also for the recovery", TINY)] {
        let p = base(
            name,
            vec![texts(), wides(100, 40, 900)],
            vec![wides(1, 6, 900), wide(10, 5000), del("t", Some(bin(col("a"), "<", n(120)))), upd("t", "b", lit(s(&"u".repeat(700))), Some(bin(col("a"), "<", n(130)))), St::Drop("t".into()), index("i", "t", &["b"]), wides(200, 40, 300)],
            vec![Op::Auto(0), Op::Auto(1), Op::Auto(2), Op::Auto(3), Op::Auto(4), Op::Auto(5), Op::Auto(6), Op::Begin(0), Op::In(0, 0), Op::In(0, 2), Op::Flush, Op::Vacuum, Op::Crash],
            tier.pick(2, 3),
        );
        v.push(CPlan { reopen, nested: tier.pick(0, 1), plan: Plan { cfg: TINY, tail: text_tail(), probes: vec![], ..p.plan }, ..p });
    }
    // many crashes in a row
    let plain = || create("t", &[("a", "INT"), ("b", "INT")], &[], &[]);
    let long = |name: &str, flushed: bool, ops: Vec<Op>, cycle: &[usize], count: usize| CPlan {
        flushed,
        chain: Some((0..count).map(|k| cycle[k % cycle.len()]).collect()),
        ..base(name, vec![plain()], vec![inn("t", &[&[1, 1]]), inn("t", &[&[2, 2], &[3, 3], &[4, 4]]), del("t", Some(eq(col("a"), n(3))))], ops, 0)
    };
    let k = tier.pick(1, 3);
    let admin = |mut p: CPlan| {
        p.plan.max_admin = 1000;
        p
    };
    v.push(admin(long("a crash after every statement", false, vec![Op::Auto(0), Op::Crash, Op::Auto(1), Op::Auto(2)], &[0, 1, 2, 1, 3, 1], 60 * k)));
    v.push(admin(long("a crash inside every transaction", false, vec![Op::Begin(0), Op::In(0, 1), Op::Crash, Op::Auto(0)], &[0, 1, 2, 3], 60 * k)));
    v.push(admin(long("vacuums and checkpoints", true, vec![Op::Auto(1), Op::Auto(2), Op::Vacuum, Op::Flush, Op::Reopen(CFG)], &[0, 1, 2, 0, 1, 3, 4], 56 * k)));
    for p in &mut v {
        p.plan.audit = true;
    }
    v
}
crate::crash_check!(C08, "C08", plans, |_: &mut Out| {});
