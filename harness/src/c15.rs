//! C15: schema changes are transactional and the catalog stays coherent.
use crate::fw::*;
use crate::hist::*;
use crate::sqlm::*;

fn alt(t: &str, a: Alt) -> St {
    St::Alter(t.into(), a)
}
fn ic(t: &str, cols: &[&str], vals: &[V]) -> St {
    St::Ins(t.into(), Some(cols.iter().map(|x| x.to_string()).collect()), vec![vals.iter().map(|v| lit(v.clone())).collect()])
}
fn plans(tier: Tier) -> Vec<Plan> {
    let setup = || {
        vec![
            create("t", &[("a", "INT"), ("b", "INT")], &[], &[&["b"]]),
            inn("t", &[&[1, 10], &[2, 20]]),
            create("u", &[("x", "INT"), ("y", "TEXT")], &["x"], &[]),
            ins("u", &[&[i(1), s("p")], &[i(2), s("q")]]),
        ]
    };
    let probes = || {
        let mut v = by("t", "b", &[10, 20, 30]);
        v.extend(by("t", "a", &[1]));
        v.extend(by("t", "c", &[7]));
        v.extend(by("u", "x", &[1]));
        v.push(Sel::from(tab("t")).items(vec![col("c"), col("a")]));
        v.push(Sel::from(tab("t")).items(vec![col("b")]));
        v
    };
    let tail = || {
        vec![
            ic("t", &["a"], &[i(5)]),
            ic("t", &["a", "b"], &[i(5), i(10)]),
            ic("t", &["b"], &[i(60)]),
            ic("t", &["a", "b", "c"], &[i(1), i(70), i(8)]),
            ic("u", &["x"], &[i(1)]),
            ic("u", &["x", "y"], &[i(9), s("z")]),
            create("w", &[("k", "INT")], &["k"], &[]),
            inn("w", &[&[1]]),
            inn("w", &[&[1]]),
        ]
    };
    let st = |t: &str| t.to_string();
    let stmts = vec![
        /* 0 */ alt("t", Alt::Add(c("c", "INT"))),
        /* 1 */ alt("t", Alt::Add(cdef("c", "INT", i(7)))),
        /* 2 */ alt("t", Alt::DropCol(st("b"))),
        /* 3 */ alt("t", Alt::DropCol(st("a"))),
        /* 4 */ alt("t", Alt::Type(st("a"), "BIGINT")),
        /* 5 */ alt("t", Alt::Type(st("b"), "DOUBLE")),
        /* 6 */ alt("t", Alt::SetDef(st("b"), i(33))),
        /* 7 */ alt("t", Alt::SetNn(st("b"))),
        /* 8 */ alt("t", Alt::Uniq(vec![st("a")])),
        /* 9 */ alt("t", Alt::Pk(vec![st("a")])),
        /* 10 */ ic("t", &["a"], &[i(1)]),
        /* 11 */ ic("t", &["a", "b"], &[i(3), i(30)]),
        /* 12 */ del("t", Some(eq(col("a"), n(1)))),
        /* 13 */ St::Drop(st("t")),
        /* 14 */ create("t", &[("c", "INT"), ("a", "TEXT")], &["c"], &[]),
        /* 15 */ index("ia", "t", &["a"]),
        /* 16 */ alt("t", Alt::DropNn(st("b"))),
        /* 17 */ alt("t", Alt::DropDef(st("c"))),
        /* 18 */ alt("t", Alt::Add(Col { notnull: true, ..c("d", "INT") })),
        /* 19 */ alt("t", Alt::Add(Col { notnull: true, ..cdef("d", "TEXT", s("x")) })),
        /* 20 */ alt("u", Alt::DropCol(st("x"))),
        /* 21 */ alt("u", Alt::Add(cdef("v", "BIGINT", i(-5)))),
        /* 22 */ inn("u", &[&[3]]),
        /* 23 */ ic("u", &["y"], &[s("r")]),
        /* 24 */ St::Drop(st("u")),
        /* 25 */ create("u", &[("x", "INT"), ("y", "TEXT")], &["x"], &[]),
        /* 26 */ create("w", &[("k", "INT")], &[], &[&["k"]]),
        /* 27 */ inn("w", &[&[1]]),
        /* 28 */ St::Drop(st("w")),
        /* 29 */ ic("t", &["c"], &[i(3)]),
        /* 30 */ upd("t", "a", bin(col("a"), "+", n(100)), None),
    ];
    let mut out = vec![];
    let plan = |name: &str, ops: Vec<Op>, depth: usize| Plan { probes: probes(), tail: tail(), ..Plan::new(name, setup(), stmts.clone(), ops, depth) };
    // every statement, autocommitted
    let ops: Vec<Op> = (0..=23).chain([29, 30]).map(Op::Auto).collect();
    out.push(plan("every change", ops.clone(), tier.pick(3, 4)));
    out.push(Plan { end_vacuum: true, end_reopen: Some(CFG), ..plan("every change, VACUUM, reopen", ops, tier.pick(2, 3)) });
    // one transaction
    let mut ops = vec![Op::Begin(0), Op::Commit(0), Op::Roll(0)];
    ops.extend([1, 2, 5, 8, 10, 11, 12, 15].map(|i| Op::In(0, i)));
    ops.extend([1, 3, 11].map(Op::Auto));
    out.push(plan("one transaction", ops, tier.pick(5, 6)));
    let mut ops = vec![Op::Begin(0), Op::Commit(0), Op::Kill(0), Op::Vacuum];
    ops.extend([0, 2, 4, 13, 14, 29, 26, 28].map(|i| Op::In(0, i)));
    ops.extend([13, 14, 2, 27].map(Op::Auto));
    out.push(Plan { end_reopen: Some(CFG), ..plan("one transaction, tables", ops, tier.pick(4, 5)) });
    // two sessions: schema changes against rows and each other
    let mut ops = vec![];
    for s in 0..2 {
        ops.extend([Op::Begin(s), Op::Commit(s), Op::Roll(s), Op::In(s, if s == 0 { 1 } else { 2 }), Op::In(s, if s == 0 { 11 } else { 12 })]);
    }
    ops.extend([Op::In(0, 15), Op::Auto(10)]);
    out.push(plan("two sessions alter", ops, tier.pick(5, 6)));
    let mut ops = vec![];
    for s in 0..2 {
        ops.extend([Op::Begin(s), Op::Commit(s), Op::Roll(s), Op::In(s, 24), Op::In(s, 25), Op::In(s, 26)]);
    }
    ops.extend([Op::Auto(26), Op::Auto(28), Op::Auto(24), Op::In(0, 22), Op::In(1, 23)]);
    out.push(plan("two sessions create and drop", ops, tier.pick(4, 5)));
    // other tables, VACUUM and reopen in between
    let mut ops = vec![Op::Vacuum, Op::Reopen(CFG), Op::Analyze, Op::Begin(0), Op::In(0, 1), Op::In(0, 21), Op::Roll(0), Op::Commit(0)];
    ops.extend([1, 2, 4, 11, 12, 13, 14, 20, 21, 23, 25, 24].map(Op::Auto));
    out.push(Plan { max_admin: 3, end_vacuum: true, end_reopen: Some(CFG), ..plan("administration in between", ops, tier.pick(4, 5)) });
    // IF EXISTS, IF NOT EXISTS; the name of an index is not the name of a table
    let maybe = |st: St| St::Maybe(Box::new(st));
    let mut stmts3 = stmts.clone();
    let k = stmts3.len();
    stmts3.extend([
        maybe(create("t", &[("c", "INT"), ("a", "TEXT")], &["c"], &[])),
        maybe(St::Drop(st("t"))),
        maybe(create("w", &[("k", "INT")], &[], &[&["k"]])),
        maybe(St::Drop(st("w"))),
        maybe(index("ia", "t", &["a"])),
        maybe(St::Drop(st("ia"))),
        St::Raw("DROP TABLE ia".into()),
        St::Raw("INSERT INTO ia VALUES (7)".into()),
        St::Raw("DELETE FROM ia".into()),
        St::Raw("SELECT * FROM ia".into()),
        St::Raw("ALTER TABLE t_b_unique_idx ADD COLUMN z INT".into()),
    ]);
    let mut ops: Vec<Op> = (k..k + 11).chain([13, 15, 24, 27]).map(Op::Auto).collect();
    out.push(Plan { end_reopen: Some(CFG), ..Plan { stmts: stmts3.clone(), ..plan("if it exists", ops.clone(), tier.pick(3, 4)) } });
    ops.retain(|o| matches!(o, Op::Auto(i) if [k, k + 1, k + 2, k + 3, 27].contains(i)));
    ops.extend([Op::Begin(0), Op::Commit(0), Op::Roll(0)]);
    ops.extend([k, k + 1, k + 2, k + 3, k + 4, 13, 27].map(|i| Op::In(0, i)));
    out.push(Plan { stmts: stmts3, ..plan("if it exists, one transaction", ops, tier.pick(4, 5)) });
    // several constraints and indexes that share columns
    let setup2 = vec![create("v", &[("a", "INT"), ("b", "INT"), ("c", "INT")], &[], &[])];
    let uq = |cols: &[&str]| alt("v", Alt::Uniq(cols.iter().map(|x| x.to_string()).collect()));
    let stmts2 = vec![
        uq(&["a", "b"]),
        uq(&["a", "c"]),
        uq(&["b", "c"]),
        uq(&["c"]),
        alt("v", Alt::Pk(vec![st("a")])),
        index("i1", "v", &["b"]),
        index("i2", "v", &["a", "b", "c"]),
        inn("v", &[&[1, 1, 1]]),
        inn("v", &[&[1, 2, 1]]),
        inn("v", &[&[2, 1, 1]]),
        inn("v", &[&[1, 1, 2]]),
        inn("v", &[&[2, 2, 2]]),
        alt("v", Alt::DropCol(st("c"))),
        alt("v", Alt::Add(cdef("d", "INT", i(7)))),
        create("w", &[("a", "INT"), ("b", "INT"), ("c", "INT")], &[], &[&["a", "b"], &["a", "c"], &["b", "c"]]),
        inn("w", &[&[1, 1, 1]]),
        inn("w", &[&[1, 2, 1]]),
    ];
    let mut ops: Vec<Op> = (0..14).map(Op::Auto).collect();
    ops.extend([Op::Begin(0), Op::In(0, 0), Op::In(0, 1), Op::In(0, 9), Op::Commit(0), Op::Roll(0), Op::Vacuum]);
    out.push(Plan { max_admin: 1, end_reopen: Some(CFG), tail: vec![inn("v", &[&[1, 1, 3]]), inn("v", &[&[1, 3, 1]]), inn("v", &[&[3, 1, 1]])], ..Plan::new("constraints that share columns", setup2.clone(), stmts2.clone(), ops, tier.pick(3, 4)) });
    out.push(Plan { end_reopen: Some(CFG), ..Plan::new("constraints of a new table that share columns", setup2, stmts2, [14, 15, 16].map(Op::Auto).to_vec(), tier.pick(3, 4)) });
    out
}
fn known(_out: &mut Out) {}
crate::hist_check!(C15, "C15", plans, known);
