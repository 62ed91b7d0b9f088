//! C12: configuration changes performance, never results.
//!
//! The same workloads, big enough to need many pages and overflow chains, are run as exhaustive
//! histories under every configuration of a grid. Each configuration must agree with the reference
//! model on every statement and on the final contents, hence all configurations agree with each
//! other; the one tolerated difference is the explicit out-of-memory error, without effect.
use crate::fw::*;
use crate::hist::*;
use crate::sqlm::*;

fn text(k: i128, len: usize) -> V {
    let w = format!("r{k}-");
    s(&w.repeat(len / w.len() + 1)[..len])
}
fn rows(from: i128, count: i128, len: usize) -> St {
    St::Ins("t".into(), None, (0..count).map(|k| (from + k * 7919 % count, k)).map(|(a, k)| vec![n(a), n(10_000 - a * 3), lit(text(k, if k % 5 == 0 { len * 2 } else { len }))]).collect())
}
fn wide(from: i128, lens: &[usize]) -> St {
    St::Ins("v".into(), None, lens.iter().enumerate().map(|(k, l)| vec![n(from + k as i128), lit(text(from + k as i128, *l))]).collect())
}
pub const GRID: [Cfg; 10] = [
    Cfg { page: 4096, cache: 24, pool: 1, min_keys: 3, siblings: 1 },
    Cfg { page: 4096, cache: 40, pool: 2, min_keys: 3, siblings: 2 },
    Cfg { page: 4096, cache: 4000, pool: 1, min_keys: 6, siblings: 3 },
    Cfg { page: 8192, cache: 24, pool: 1, min_keys: 4, siblings: 1 },
    Cfg { page: 8192, cache: 1000, pool: 4, min_keys: 3, siblings: 4 },
    Cfg { page: 16384, cache: 24, pool: 1, min_keys: 3, siblings: 2 },
    Cfg { page: 32768, cache: 32, pool: 2, min_keys: 12, siblings: 1 },
    Cfg { page: 65536, cache: 24, pool: 1, min_keys: 3, siblings: 1 },
    Cfg { page: 5000, cache: 64, pool: 1, min_keys: 8, siblings: 2 },
    Cfg { page: 100_000, cache: 500, pool: 3, min_keys: 3, siblings: 8 },
];
fn plans(tier: Tier) -> Vec<Plan> {
    let setup = || {
        vec![
            create("t", &[("a", "INT"), ("b", "INT"), ("p", "TEXT")], &["a"], &[&["b"]]),
            rows(0, 90, 300),
            create("v", &[("k", "INT"), ("p", "TEXT")], &[], &[]),
            wide(0, &[10, 3000, 9000]),
        ]
    };
    let mut probes = by("t", "a", &[0, 41, 89, 120, 500]);
    probes.extend(by("t", "b", &[10_000, 9_700]));
    probes.push(Sel::from(tab("t")).items(vec![count(), agg("SUM", col("a")), agg("MIN", col("p"))]));
    probes.push(Sel::from(tab("t")).items(vec![col("a")]).wher(E::Between(Box::new(col("a")), Box::new(n(20)), Box::new(n(60)), false)).order(vec![(col("p"), true)]));
    probes.push(Sel::from(join(tab("t"), "JOIN", tab("v"), Some(eq(col("t.a"), col("v.k"))))).items(vec![col("t.a"), col("v.p")]));
    let big = |a: E, op: &'static str, v: i128| Some(bin(a, op, n(v)));
    let stmts = vec![
        /* 0 */ rows(100, 100, 200),
        /* 1 */ rows(400, 60, 700),
        /* 2 */ del("t", big(col("a"), "<", 60)),
        /* 3 */ del("t", big(bin(col("a"), "%", n(2)), "=", 0)),
        /* 4 */ del("t", None),
        /* 5 */ upd("t", "p", lit(text(5, 900)), big(col("a"), ">", 40)),
        /* 6 */ upd("t", "p", lit(s("")), None),
        /* 7 */ St::InsSel("t".into(), Sel::from(tab("t")).items(vec![bin(col("a"), "+", n(1000)), bin(col("b"), "+", n(20_000)), col("p")])),
        /* 8 */ wide(10, &[5000, 15_000, 100]),
        /* 9 */ del("v", big(col("k"), ">", 0)),
        /* 10 */ upd("v", "p", lit(text(9, 6000)), None),
        /* 11 */ St::Alter("t".into(), Alt::Add(cdef("c", "BIGINT", i(7)))),
        /* 12 */ index("ip", "v", &["k"]),
        /* 13 */ St::Drop("v".into()),
        /* 14 */ create("v", &[("k", "INT"), ("p", "TEXT")], &["k"], &[]),
        /* 15 */ inn("t", &[&[7000, 7000], &[41, 1]]),
        /* 16 */ St::InsSel("v".into(), Sel::from(tab("t")).items(vec![bin(col("a"), "+", n(50)), col("p")])),
    ];
    let mut out = vec![];
    for (k, cfg) in GRID.iter().enumerate() {
        let tail = vec![rows(3000, 30, 300), del("t", big(col("a"), "<", 3010)), wide(100, &[9000])];
        let mut ops: Vec<Op> = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16].map(Op::Auto).to_vec();
        ops.extend([Op::Vacuum, Op::Flush, Op::Analyze, Op::Reopen(GRID[(k + 3) % GRID.len()])]);
        out.push(Plan { cfg: *cfg, oom: cfg.cache <= 24, probes: probes.clone(), tail: tail.clone(), end_vacuum: k % 2 == 0, end_reopen: Some(*cfg), ..Plan::new(&format!("autocommit, {cfg:?}"), setup(), stmts.clone(), ops, tier.pick(2, 3)) });
        let mut ops = vec![Op::Begin(0), Op::Commit(0), Op::Roll(0), Op::Begin(1), Op::Commit(1), Op::Flush, Op::Vacuum];
        ops.extend([0, 2, 8, 7].map(|i| Op::In(0, i)));
        ops.extend([3, 9, 1].map(|i| Op::In(1, i)));
        ops.extend([5, 4].map(Op::Auto));
        out.push(Plan { cfg: *cfg, oom: cfg.cache <= 24, probes: probes.clone(), tail, end_reopen: Some(*cfg), ..Plan::new(&format!("sessions, {cfg:?}"), setup(), stmts.clone(), ops, tier.pick(3, 4)) });
    }
    out
}
crate::hist_check!(C12, "C12", plans, known);
fn known(_out: &mut Out) {}
