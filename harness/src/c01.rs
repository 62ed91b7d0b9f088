//! C01: acknowledged commits survive a crash.
use crate::crash::*;
use crate::fw::*;
use crate::hist::*;
use crate::sqlm::*;

/// A small cache: pages are evicted in the middle of statements.
pub const TINY: Cfg = Cfg { cache: 8, ..CFG };
pub fn table() -> St {
    create("t", &[("a", "INT"), ("b", "INT")], &["a"], &[])
}
pub fn base(name: &str, setup: Vec<St>, stmts: Vec<St>, ops: Vec<Op>, depth: usize) -> CPlan {
    CPlan {
        plan: Plan {
            probes: by("t", "a", &[1, 2, 3, 4, 5]),
            tail: vec![inn("t", &[&[77, 7]]), upd("t", "b", n(8), Some(eq(col("a"), n(77)))), del("t", Some(eq(col("a"), n(77)))), inn("t", &[&[78, 7]])],
            ..Plan::new(name, setup, stmts, ops, depth)
        },
        flushed: true,
        nested: 0,
        reopen: CFG,
        chain: None,
    }
}
/// One row of the given size.
pub fn wide(a: i128, len: usize) -> St {
    ins("t", &[&[i(a), s(&"x".repeat(len))]])
}
pub fn wides(from: i128, count: i128, len: usize) -> St {
    let rows: Vec<Vec<V>> = (from..from + count).map(|a| vec![i(a), s(&"y".repeat(len))]).collect();
    let refs: Vec<&[V]> = rows.iter().map(|r| &r[..]).collect();
    ins("t", &refs)
}
pub fn texts() -> St {
    create("t", &[("a", "INT"), ("b", "TEXT")], &["a"], &[])
}
pub fn text_tail() -> Vec<St> {
    vec![wide(77, 3), upd("t", "b", lit(s("z")), Some(eq(col("a"), n(77)))), del("t", Some(eq(col("a"), n(77)))), wide(78, 9000)]
}

pub fn plans(tier: Tier) -> Vec<CPlan> {
    let rows = || inn("t", &[&[1, 10], &[2, 20]]);
    let d = tier.pick(3, 4);
    let mut v = vec![];
    for flushed in [true, false] {
        v.push(CPlan {
            flushed,
            ..base(
                if flushed { "rows" } else { "rows, nothing checkpointed" },
                vec![table(), rows()],
                vec![inn("t", &[&[3, 30]]), inn("t", &[&[4, 40], &[5, 50]]), del("t", Some(eq(col("a"), n(1)))), upd("t", "b", n(99), Some(eq(col("a"), n(2))))],
                vec![Op::Auto(0), Op::Auto(1), Op::Auto(2), Op::Auto(3), Op::Batch(vec![0, 2]), Op::Begin(0), Op::In(0, 0), Op::In(0, 2), Op::Commit(0), Op::Roll(0), Op::Flush, Op::Vacuum, Op::Reopen(CFG), Op::Crash],
                d,
            )
        });
        v.push(CPlan {
            flushed,
            ..base(
                if flushed { "ddl" } else { "ddl, nothing checkpointed" },
                vec![table(), rows()],
                vec![
                    create("n", &[("a", "INT"), ("b", "INT")], &["a"], &[]),
                    inn("n", &[&[1, 1]]),
                    index("i", "t", &["b"]),
                    St::Drop("t".into()),
                    St::Alter("t".into(), Alt::Add(cdef("c", "INT", i(5)))),
                    inn("t", &[&[3, 30]]),
                ],
                vec![Op::Auto(0), Op::Auto(1), Op::Auto(2), Op::Auto(3), Op::Auto(4), Op::Auto(5), Op::Begin(0), Op::In(0, 0), Op::In(0, 1), Op::In(0, 4), Op::Commit(0), Op::Roll(0), Op::Flush, Op::Vacuum, Op::Analyze, Op::Crash],
                d,
            )
        });
        v.push(CPlan {
            flushed,
            ..base(
                if flushed { "two sessions" } else { "two sessions, nothing checkpointed" },
                vec![table(), rows()],
                vec![inn("t", &[&[3, 30]]), inn("t", &[&[4, 40]]), del("t", Some(eq(col("a"), n(1)))), upd("t", "b", n(99), Some(eq(col("a"), n(2)))), inn("t", &[&[5, 50]])],
                vec![Op::Begin(0), Op::Begin(1), Op::In(0, 0), Op::In(0, 2), Op::In(1, 1), Op::In(1, 3), Op::Commit(0), Op::Commit(1), Op::Auto(4), Op::Flush],
                tier.pick(5, 6),
            )
        });
    }
    // the log leaves its first block
    for len in [9000, 20000, 38000] {
        let p = base(&format!("rows of {len} bytes"), vec![texts(), wide(1, 100)], vec![wide(2, len), wide(3, len), wide(4, 10), del("t", Some(eq(col("a"), n(2))))], vec![Op::Auto(0), Op::Auto(1), Op::Auto(2), Op::Auto(3), Op::Batch(vec![0, 1]), Op::Begin(0), Op::In(0, 1), Op::Commit(0), Op::Flush, Op::Crash], d);
        v.push(CPlan { plan: Plan { tail: text_tail(), ..p.plan }, ..p });
    }
    // pages are evicted
    let p = base("small cache", vec![texts(), wides(100, 40, 900)], vec![wides(1, 6, 900), wide(10, 5000), del("t", Some(bin(col("a"), "<", n(120)))), upd("t", "b", lit(s(&"u".repeat(700))), Some(bin(col("a"), "<", n(130)))), wide(20, 10)], vec![Op::Auto(0), Op::Auto(1), Op::Auto(2), Op::Auto(3), Op::Begin(0), Op::In(0, 0), Op::In(0, 2), Op::Commit(0), Op::Auto(4), Op::Flush, Op::Vacuum], tier.pick(2, 3));
    v.push(CPlan { plan: Plan { cfg: TINY, tail: text_tail(), probes: vec![], ..p.plan }, ..p });
    // long logs: a crash at every write of many transactions in a row
    let plain = || create("t", &[("a", "INT"), ("b", "INT")], &[], &[]);
    let long = |name: &str, flushed: bool, ops: Vec<Op>, cycle: &[usize], count: usize| CPlan {
        flushed,
        chain: Some((0..count).map(|k| cycle[k % cycle.len()]).collect()),
        ..base(name, vec![plain()], vec![inn("t", &[&[1, 1]]), inn("t", &[&[2, 2], &[3, 3], &[4, 4]]), del("t", Some(eq(col("a"), n(3)))), inn("t", &[&[5, 5]])], ops, 0)
    };
    let k = tier.pick(1, 3);
    v.push(long("150 autocommits", true, vec![Op::Auto(0)], &[0], 150 * k));
    v.push(long("150 autocommits, nothing checkpointed", false, vec![Op::Auto(0), Op::Auto(1), Op::Auto(2)], &[0, 1, 2], 150 * k));
    v.push(long("40 transactions of two sessions", true, vec![Op::Begin(0), Op::In(0, 0), Op::Begin(1), Op::In(1, 3), Op::In(0, 1), Op::Commit(0), Op::Commit(1)], &[0, 1, 2, 3, 4, 5, 6], 140 * k));
    v.push(long("rollbacks in between", true, vec![Op::Begin(0), Op::In(0, 1), Op::Roll(0), Op::Auto(0)], &[0, 1, 2, 3], 160 * k));
    v
}
crate::crash_check!(C01, "C01", plans, |_: &mut Out| {});
