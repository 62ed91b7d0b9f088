//! C18: row versions.
//!  codec: every chain of updates (subset alphabet) to a depth on every schema of a family, decoded
//!         for the reader of every version, from memory / reloaded / cell bytes, and after trimming
//!         at every horizon.
//!  vis:   every assignment of writers, writer outcomes, deleter and reader to chains.
//!  hist:  every begin/update/delete/commit/abort/trim history to a depth on the real coordinator.
use crate::fw::*;
use crate::val::*;
use axmosdb::types::DataTypeKind;
use axmosdb::verif::tuple::*;
use serde_json::{Value, json};
use std::collections::HashMap;

pub struct C18;

const TEXT: [usize; 8] = [0, 1, 7, 8, 63, 64, 200, 5000];

/// A value of the given kind; `n` selects it, `wide` allows long texts.
fn value(kind: DataTypeKind, n: usize, wide: usize) -> Val {
    match kind {
        DataTypeKind::Bool => Val::B(n % 2 == 0),
        DataTypeKind::Int => Val::I([0, -1, i32::MAX, i32::MIN, 7][n % 5].wrapping_add(n as i32 / 5)),
        DataTypeKind::BigInt => Val::L([-1i64, i64::MIN, 1 << 53, i64::MAX, 0][n % 5].wrapping_sub(n as i64 / 5)),
        DataTypeKind::UInt => Val::U([u32::MAX, 0, 1, 1 << 31][n % 4].wrapping_add(n as u32 / 4)),
        DataTypeKind::BigUInt => Val::UL([0u64, u64::MAX, 1 << 63, (1 << 53) + 1][n % 4].wrapping_sub(n as u64 / 4)),
        DataTypeKind::Float => Val::F([0f32, -0.0, f32::NAN, f32::INFINITY, 1.5, f32::MIN_POSITIVE][n % 6].to_bits()),
        DataTypeKind::Double => Val::D([-0f64, f64::NAN, f64::NEG_INFINITY, 0.1, 9007199254740993.0][n % 5].to_bits()),
        DataTypeKind::Blob => {
            let len = TEXT[(n * 5 + n / 8) % wide.clamp(1, 8)];
            Val::S((0..len).map(|i| ((i * 7 + n * 13) % 251) as u8).collect())
        }
        DataTypeKind::Null => Val::N,
    }
}

#[derive(Clone, Debug)]
struct Shape {
    kinds: Vec<DataTypeKind>,
    keys: usize,
    wide: usize,
}
fn shape(keys: usize, vals: usize, rot: usize, stride: usize, wide: usize) -> Shape {
    let kinds = (0..keys + vals).map(|i| KINDS[(rot + i * stride) % KINDS.len()]).collect();
    Shape { kinds, keys, wide }
}

/// Update operations: which value columns change and to what.
/// a all columns, f first, l last, e even, o odd, n all to NULL, N first to NULL, z last to NULL,
/// m middle, s same values again
const OPS: &[u8] = b"afleonNzms";
fn update(op: u8, step: usize, sh: &Shape, cur: &[Val]) -> Vec<(usize, Val)> {
    let nv = sh.kinds.len() - sh.keys;
    let val = |i: usize| value(sh.kinds[sh.keys + i], step * 3 + i + 1, sh.wide);
    let mut r = vec![];
    for i in 0..nv {
        let (hit, null) = match op {
            b'a' => (true, false),
            b'f' => (i == 0, false),
            b'l' => (i + 1 == nv, false),
            b'e' => (i % 2 == 0, false),
            b'o' => (i % 2 == 1, false),
            b'n' => (true, true),
            b'N' => (i == 0, true),
            b'z' => (i + 1 == nv, true),
            b'm' => (i == nv / 2, false),
            b's' => {
                r.push((i, cur[sh.keys + i].clone()));
                continue;
            }
            _ => unreachable!(),
        };
        if hit {
            r.push((i, if null { Val::N } else { val(i) }));
        }
    }
    r
}

struct Chain {
    versions: Vec<(u64, Vec<Val>)>,
    deleter: Option<u64>,
}
impl Chain {
    fn expect(&self, sees: impl Fn(u64) -> bool) -> Option<&Vec<Val>> {
        if self.deleter.is_some_and(&sees) {
            return None;
        }
        self.versions.iter().rev().find(|(x, _)| sees(*x)).map(|(_, v)| v)
    }
}

fn check_decode(sch: &Sch, t: &Tup, snap: &Snap, want: Option<&Vec<Val>>, how: &str) -> Result<(), String> {
    let got = t.decode(sch, snap)?.map(|r| vals(&r));
    if got.as_ref() != want {
        return Err(format!("{how}: decoded {got:?}, entitled to {want:?}"));
    }
    Ok(())
}

fn codec_chain(sh: &Shape, base: u64, nullpat: usize, ops: &[u8], out: &mut Out) -> Result<(), String> {
    let sch = Sch::new(&sh.kinds, sh.keys);
    let row: Vec<Val> = (0..sh.kinds.len())
        .map(|i| {
            let null = i >= sh.keys
                && match nullpat {
                    0 => false,
                    1 => true,
                    2 => (i - sh.keys) % 2 == 0,
                    _ => (i - sh.keys) % 2 == 1,
                };
            if null { Val::N } else { value(sh.kinds[i], i, sh.wide) }
        })
        .collect();
    let mut c = Chain { versions: vec![(base, row.clone())], deleter: None };
    let mut t = Tup::build(&sch, row.iter().map(|v| v.to()).collect(), base)?;
    let nv = sh.kinds.len() - sh.keys;
    // long chains are only looked at when they are (nearly) complete
    let from = if ops.len() > 20 { ops.len() - 1 } else { 0 };
    for step in 0..=ops.len() {
        if step > 0 {
            let cur = c.versions.last().unwrap().1.clone();
            let m = update(ops[step - 1], step, sh, &cur);
            let hm: HashMap<usize, _> = m.iter().map(|(i, v)| (*i, v.to())).collect();
            let x = base + 2 * step as u64;
            t.update(&sch, &hm, x).map_err(|e| format!("update {step}: {e}"))?;
            if !m.is_empty() {
                let mut n = cur;
                for (i, v) in m {
                    n[sh.keys + i] = v;
                }
                c.versions.push((x, n));
            }
        }
        if step < from {
            continue;
        }
        out.step();
        let last = c.versions.last().unwrap();
        if vals(&t.decode_last(&sch)?) != last.1 || vals(&t.row_from_bytes(&sch)?) != last.1 {
            return Err(format!("after {step} updates: newest version decodes to {:?}, stored {:?}", vals(&t.decode_last(&sch)?), last.1));
        }
        if t.versions(&sch)? != c.versions.len() || t.has_history(&sch) != (c.versions.len() > 1) {
            return Err(format!("after {step} updates: {} versions counted, {} stored", t.versions(&sch)?, c.versions.len()));
        }
        if t.xmin() != last.0 || t.xmax().is_some() {
            return Err(format!("after {step} updates: header says xmin {} xmax {:?}", t.xmin(), t.xmax()));
        }
        let bytes = t.bytes();
        let re = Tup::from_bytes(&bytes)?;
        if re.bytes() != bytes {
            return Err("copying the stored bytes changed them".into());
        }
        let cell = Tup::from_bytes(&t.cell_bytes()[..bytes.len()])?;
        out.state(hash_of(&bytes));
        // the reader of every version; also one that owns the version, and one too old for all
        let readers: Vec<(Snap, Option<&Vec<Val>>)> = {
            let mut r = vec![];
            for (k, (x, v)) in c.versions.iter().enumerate() {
                // committed up to x; everything newer is either above xmax or active
                r.push((Snap::new(x + 1, x + 1, Some(*x), &[], &[]), Some(v)));
                let act: Vec<u64> = c.versions[k + 1..].iter().map(|p| p.0).collect();
                r.push((Snap::new(base + 900, *act.first().unwrap_or(&(base + 900)), Some(base + 901), &act, &[]), Some(v)));
                // rolled back newer versions
                r.push((Snap::new(base + 900, base + 900, Some(base + 901), &[], &act), Some(v)));
                // own uncommitted version: everything older committed, newer ones above
                if k > 0 {
                    r.push((Snap::new(*x, *x, Some(x - 1), &[], &[]), Some(v)));
                } else if base > 0 {
                    r.push((Snap::new(base - 1, base - 1, Some(base - 1), &[], &[]), None));
                }
            }
            r
        };
        for (tt, how) in [(&t, "in memory"), (&re, "reloaded"), (&cell, "from the cell")] {
            for (s, want) in &readers {
                check_decode(&sch, tt, s, *want, how).map_err(|e| format!("after {step} updates, reader {} {e}", s.xid()))?;
            }
        }
        // trimming at every horizon
        let mut hs: Vec<u64> = c.versions.iter().map(|p| p.0).collect();
        hs.push(base + 900);
        for h in hs.iter().flat_map(|h| [*h, h + 1]) {
            let aborted_tail: &[&[u64]] = &[&[]];
            for ab in aborted_tail {
                let mut v = t.clone();
                let vs = Snap::new(base + 950, h, Some(base + 951), &[], ab);
                let before = v.bytes().len();
                let freed = v.vacuum(&sch, h, &vs)?;
                if v.bytes().len() + freed != before {
                    return Err(format!("trim at {h} reports {freed} bytes, length {before} -> {}", v.bytes().len()));
                }
                let left = v.versions(&sch)?;
                if left > c.versions.len() || left == 0 {
                    return Err(format!("trim at {h} left {left} versions"));
                }
                for (s, want) in &readers {
                    // the rolled-back readers assume those writers rolled back; the trim did not
                    if s.xmin() >= h && !aborted_view(s, base) {
                        check_decode(&sch, &v, s, *want, "after trim").map_err(|e| format!("after {step} updates, horizon {h}, reader {} {e}", s.xid()))?;
                    }
                }
                // and the trimmed row can be updated, reloaded and read again
                if nv > 0 {
                    let hm: HashMap<usize, _> = [(nv - 1, value(sh.kinds[sh.keys + nv - 1], 91 + step, sh.wide).to())].into();
                    let mut want = last.1.clone();
                    want[sh.keys + nv - 1] = value(sh.kinds[sh.keys + nv - 1], 91 + step, sh.wide);
                    v.update(&sch, &hm, base + 800)?;
                    if vals(&v.decode_last(&sch)?) != want || v.versions(&sch)? != left + 1 {
                        return Err(format!("after {step} updates, horizon {h}: update after trim decodes {:?}, want {want:?}", vals(&v.decode_last(&sch)?)));
                    }
                    let s = Snap::new(base + 790, base + 790, Some(base + 780), &[], &[]);
                    if h <= base + 790 {
                        check_decode(&sch, &v, &s, Some(&last.1), "trimmed then updated")?;
                    }
                }
            }
        }
        // delete on top
        let mut d = t.clone();
        let dx = base + 700;
        d.delete(dx)?;
        if d.xmax() != Some(dx) {
            return Err("delete not recorded".into());
        }
        let d2 = Tup::from_bytes(&d.bytes())?;
        for (s, want) in &readers {
            if s.xid() < dx {
                check_decode(&sch, &d2, s, *want, "deleted later")?;
            }
        }
        for (s, want) in [
            (Snap::new(dx, dx, Some(dx - 1), &[], &[]), None),
            (Snap::new(dx + 5, dx + 5, Some(dx), &[], &[]), None),
            (Snap::new(dx + 5, dx, Some(dx + 1), &[dx], &[]), Some(&last.1)),
            (Snap::new(dx + 5, dx + 5, Some(dx + 1), &[], &[dx]), Some(&last.1)),
        ] {
            check_decode(&sch, &d2, &s, want, "deleted row")?;
            if d2.row_from_bytes_snap(&sch, &s)?.map(|r| vals(&r)).as_ref() != want {
                return Err("from_bytes_checked_with_snapshot differs".into());
            }
        }
    }
    Ok(())
}
fn aborted_view(s: &Snap, base: u64) -> bool {
    s.xid() == base + 900 && s.xmin() == base + 900
}

/// Chains over writer ids {10,20,30}; reader id and outcomes enumerated.
fn visibility(writers: &[u64], out: &mut Out) -> Result<(), (String, Value)> {
    let sh = shape(1, 3, 0, 1, 4);
    let sch = Sch::new(&sh.kinds, sh.keys);
    let row: Vec<Val> = (0..4).map(|i| value(sh.kinds[i], i, 4)).collect();
    let mut c = Chain { versions: vec![(writers[0], row.clone())], deleter: None };
    let e = |m: String| (m, json!({"vis": writers}));
    let mut t = Tup::build(&sch, row.iter().map(|v| v.to()).collect(), writers[0]).map_err(e)?;
    for (i, x) in writers.iter().enumerate().skip(1) {
        let mut n = c.versions.last().unwrap().1.clone();
        // each update changes one column, so that rebuilding an old version needs every delta
        let col = i % 3;
        n[1 + col] = if i % 4 == 3 { Val::N } else { value(sh.kinds[1 + col], 10 + i, 4) };
        t.update(&sch, &[(col, n[1 + col].to())].into(), *x).map_err(e)?;
        c.versions.push((*x, n));
    }
    let ids = [10u64, 20, 30, 40];
    for del in [None, Some(10u64), Some(20), Some(30), Some(40)] {
        let mut td = t.clone();
        if let Some(d) = del {
            td.delete(d).map_err(e)?;
        }
        c.deleter = del;
        for reader in [5u64, 10, 15, 20, 25, 30, 35, 40, 45] {
            // outcome of every id below the reader: 0 committed, 1 active, 2 rolled back
            let below: Vec<u64> = ids.iter().copied().filter(|x| *x < reader).collect();
            for code in 0..3usize.pow(below.len() as u32) {
                let st = |x: u64| {
                    below.iter().position(|b| *b == x).map(|p| code / 3usize.pow(p as u32) % 3)
                };
                let pick = |k: usize| below.iter().copied().filter(|x| st(*x) == Some(k)).collect::<Vec<_>>();
                let (com, act, abo) = (pick(0), pick(1), pick(2));
                let xmin = act.iter().copied().min().unwrap_or(reader);
                let xmax = Some(com.iter().copied().max().unwrap_or(0));
                let snap = Snap::new(reader, xmin, xmax, &act, &abo);
                let sees = |x: u64| x == reader || com.contains(&x);
                let want = c.expect(sees).cloned();
                out.step();
                let h = || json!({"vis": writers, "deleter": del, "reader": reader, "committed": com, "active": act, "rolled_back": abo});
                check_decode(&sch, &td, &snap, want.as_ref(), "visibility").map_err(|m| (m, h()))?;
                // Trim at every horizon not above this reader's xmin. Ids at or above the horizon
                // may since have ended either way; those below are decided as in the snapshot.
                for hor in [1u64, 10, 11, 20, 21, 30, 31, 40, 45] {
                    if hor > snap.xmin() {
                        continue;
                    }
                    let mut later = abo.clone();
                    later.extend(ids.iter().copied().filter(|x| *x >= hor && !com.contains(x) && *x != reader && !abo.contains(x)));
                    for ab in [&abo, &later] {
                        let mut v = td.clone();
                        let vs = Snap::new(100, hor, Some(99), &[], ab);
                        v.vacuum(&sch, hor, &vs).map_err(|m| (m, h()))?;
                        check_decode(&sch, &v, &snap, want.as_ref(), &format!("after trimming at {hor}")).map_err(|m| (m, h()))?;
                        out.step();
                    }
                }
                out.state_of(&(writers, del, reader, code));
            }
        }
    }
    out.traces += 1;
    Ok(())
}

/// Histories on the real coordinator. Events: 'b' begin; for transaction i: 'u' update one column,
/// 'U' update all columns, 'd' delete, 'c' commit, 'r' roll back; 'v' trim at the smallest xmin.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Ev(u8, usize);
fn ev_str(h: &[Ev]) -> String {
    h.iter().map(|e| if e.0 == b'b' || e.0 == b'v' { (e.0 as char).to_string() } else { format!("{}{}", e.0 as char, e.1) }).collect::<Vec<_>>().join(" ")
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Active,
    Committed,
    Aborted,
}
#[derive(Clone)]
struct M {
    /// index = transaction number; (state, number of commits before begin per txn)
    txs: Vec<(St, Vec<bool>)>,
    versions: Vec<(usize, usize)>, // (writer, content id)
    deleter: Option<usize>,
}
impl M {
    fn enabled(&self, max_tx: usize) -> Vec<Ev> {
        let mut r = vec![];
        if self.txs.len() < max_tx {
            r.push(Ev(b'b', 0));
        }
        let del_dead = self.deleter.is_none_or(|d| self.txs[d].0 == St::Aborted);
        let last = self.versions.last().map(|v| v.0);
        for i in 0..self.txs.len() {
            if self.txs[i].0 != St::Active {
                continue;
            }
            let sees = |w: usize| w == i || self.txs[i].1[w];
            if del_dead {
                // a write needs a newest version that this transaction may build on
                if let Some(w) = last {
                    if sees(w) || self.txs[w].0 == St::Aborted {
                        r.push(Ev(b'U', i));
                    }
                    if sees(w) {
                        r.push(Ev(b'u', i));
                        r.push(Ev(b'd', i));
                    }
                }
            }
            r.push(Ev(b'c', i));
            r.push(Ev(b'r', i));
        }
        if self.versions.len() > 1 {
            r.push(Ev(b'v', 0));
        }
        r
    }
}

fn history(h: &[Ev], out: &mut Out) -> Result<M, String> {
    let sc = Scratch::new();
    let co = Coord::new(&sc.path().join("db"))?;
    let sh = shape(1, 2, 0, 1, 4);
    let sch = Sch::new(&sh.kinds, sh.keys);
    let mut m = M { txs: vec![], versions: vec![], deleter: None };
    let mut tx: Vec<Txn> = vec![];
    let mut contents: Vec<Vec<Val>> = vec![];
    let mut row: Option<Tup> = None;
    for (n, e) in h.iter().enumerate() {
        match e.0 {
            b'b' => {
                tx.push(co.begin()?);
                let seen: Vec<bool> = m.txs.iter().map(|t| t.0 == St::Committed).collect();
                m.txs.push((St::Active, seen));
                let l = m.txs.len();
                for t in m.txs.iter_mut() {
                    t.1.resize(l.max(8), false);
                }
            }
            b'u' | b'U' => {
                let x = tx[e.1].id();
                if row.is_none() {
                    unreachable!();
                }
                let mut v = contents[m.versions.last().unwrap().1].clone();
                v[1] = value(sh.kinds[1], n * 7 + 3, 4);
                let mut hm: HashMap<usize, _> = [(0usize, v[1].to())].into();
                if e.0 == b'U' {
                    v[2] = value(sh.kinds[2], n * 3 + 2, 4);
                    hm.insert(1, v[2].to());
                }
                row.as_mut().unwrap().update(&sch, &hm, x)?;
                contents.push(v);
                m.versions.push((e.1, contents.len() - 1));
                m.deleter = None;
            }
            b'd' => {
                row.as_mut().unwrap().delete(tx[e.1].id())?;
                m.deleter = Some(e.1);
            }
            b'c' => {
                tx[e.1].commit()?;
                m.txs[e.1].0 = St::Committed;
            }
            b'r' => {
                tx[e.1].abort()?;
                m.txs[e.1].0 = St::Aborted;
            }
            b'v' => {
                let s = co.snapshot(1_000_000)?;
                // no live snapshot reaches below the smallest xmin among live transactions
                let hor = (0..tx.len()).filter(|i| m.txs[*i].0 == St::Active).map(|i| tx[i].snap().xmin()).chain([tx.len() as u64]).min().unwrap();
                row.as_mut().unwrap().vacuum(&sch, hor, &s)?;
            }
            _ => unreachable!(),
        }
        // the first transaction inserts the row as soon as it begins
        if n == 0 {
            let v: Vec<Val> = (0..3).map(|i| value(sh.kinds[i], i, 4)).collect();
            row = Some(Tup::build(&sch, v.iter().map(|x| x.to()).collect(), tx[0].id())?);
            contents.push(v);
            m.versions.push((0, 0));
        }
    }
    // every live transaction and a fresh reader
    let t = row.as_ref().unwrap();
    let want = |sees: &dyn Fn(usize) -> bool| -> Option<&Vec<Val>> {
        if m.deleter.is_some_and(|d| sees(d)) {
            return None;
        }
        m.versions.iter().rev().find(|(w, _)| sees(*w)).map(|(_, c)| &contents[*c])
    };
    for i in 0..tx.len() {
        if m.txs[i].0 != St::Active {
            continue;
        }
        let w = want(&|w| w == i || m.txs[i].1[w]);
        check_decode(&sch, t, tx[i].snap(), w, &format!("transaction {i}"))?;
    }
    let fresh = co.begin()?;
    let w = want(&|w| m.txs[w].0 == St::Committed);
    check_decode(&sch, t, fresh.snap(), w, "new transaction")?;
    out.step();
    out.traces += 1;
    Ok(m)
}

fn dfs(h: &mut Vec<Ev>, depth: usize, max_tx: usize, out: &mut Out) {
    let r = guarded(|| history(h, out)).unwrap_or_else(Err);
    let m = match r {
        Ok(m) => m,
        Err(e) => {
            out.violation(format!("history {}: {e}", ev_str(h)), json!({"hist": h.iter().map(|e| json!([e.0, e.1])).collect::<Vec<_>>(), "depth": 0, "max_tx": max_tx}));
            return;
        }
    };
    out.state_of(&h.iter().copied().collect::<Vec<_>>());
    if depth == 0 || out.violations.len() >= 3 {
        return;
    }
    for e in m.enabled(max_tx) {
        // trimming twice in a row adds nothing
        if e.0 == b'v' && h.last().is_some_and(|l| l.0 == b'v') {
            continue;
        }
        h.push(e);
        dfs(h, depth - 1, max_tx, out);
        h.pop();
    }
}

impl Check for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn items(&self, tier: Tier) -> Vec<Value> {
        let mut v = vec![];
        // codec: all schemas of the family, all chains to depth 2/3
        for keys in 1..=3usize {
            for nv in 0..=12usize {
                for rot in 0..8usize {
                    v.push(json!({"codec": [keys, nv, rot, 1 + 2 * (rot % 2), 4], "depth": tier.pick(2, 3), "ops": "afleonNzms", "base": if rot % 2 == 0 { 0u64 } else { 1 << 40 }}));
                }
            }
        }
        // long chains
        for (i, nv) in [1usize, 2, 3, 8, 9, 12].into_iter().enumerate() {
            for wide in [1usize, 8] {
                for alpha in ["anf", "lNz"] {
                    v.push(json!({"codec": [1 + i % 3, nv, i, 1, wide], "depth": tier.pick(6, 8), "ops": alpha, "base": 3, "pre": true}));
                }
            }
        }
        // more versions than the one-byte version number can tell apart
        for n in tier.pick(vec![255, 256, 257], (253..=260).collect()) {
            for (i, nv) in [1usize, 9].into_iter().enumerate() {
                for pat in ["a", "flN"] {
                    let ops: String = pat.chars().cycle().take(n).collect();
                    v.push(json!({"codec": [1, nv, i, 1, 1], "base": 3, "only": [ops, 2], "long": n}));
                }
            }
        }
        let ids = [10u64, 20, 30];
        for len in 1..=tier.pick(4usize, 5) {
            for code in 0..3usize.pow(len as u32) {
                let w: Vec<u64> = (0..len).map(|p| ids[code / 3usize.pow(p as u32) % 3]).collect();
                v.push(json!({"vis": w}));
            }
        }
        // coordinator histories, split on the first events
        let d = tier.pick(7usize, 9);
        let mut heads = vec![vec![Ev(b'b', 0)]];
        for _ in 0..3 {
            let mut n = vec![];
            for h in heads {
                let m = history(&h, &mut Out::default()).ok();
                match m {
                    Some(m) => {
                        for e in m.enabled(4) {
                            let mut x = h.clone();
                            x.push(e);
                            n.push(x);
                        }
                    }
                    None => n.push(h),
                }
            }
            heads = n;
        }
        for h in heads {
            v.push(json!({"hist": h.iter().map(|e| json!([e.0, e.1])).collect::<Vec<_>>(), "depth": d - h.len(), "max_tx": 4}));
        }
        v
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "codec: 1-3 keys x 0-12 values x 8 type rotations x 4 NULL patterns, every chain of {} updates over a 10-letter column-subset alphabet, plus every chain of {} over 3-letter alphabets with texts to 5000 bytes, and chains of {} updates; visibility: every chain to {} versions over 3 writers x deleter x reader x writer outcomes x horizon; histories: every begin/update/delete/commit/rollback/trim history of {} events with 4 transactions on the real coordinator",
            tier.pick(2, 3), tier.pick(6, 8), tier.pick("255-257", "253-260"), tier.pick(4, 5), tier.pick(7, 9)
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "rows of at most 255 value columns (the delta stores a one-byte column number)".into(),
            "a transaction only builds a partial update on a newest version it can see (the engine's callers do)".into(),
        ]
    }
    fn run(&self, _tier: Tier, spec: &Value, out: &mut Out) {
        if let Some(c) = spec["codec"].as_array() {
            let n: Vec<usize> = c.iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let sh = shape(n[0], n[1], n[2], n[3], n[4]);
            let base = spec["base"].as_u64().unwrap();
            let mut go = |ops: &str, np: usize, out: &mut Out| {
                let r = guarded(|| codec_chain(&sh, base, np, ops.as_bytes(), out)).unwrap_or_else(Err);
                out.traces += 1;
                if let Err(e) = r {
                    let mut s = spec.clone();
                    s["only"] = json!([ops, np]);
                    out.violation(format!("{:?} keys {} null pattern {np} updates {ops}: {e}", sh.kinds, sh.keys), s);
                }
            };
            if let Some(o) = spec["only"].as_array() {
                go(o[0].as_str().unwrap(), o[1].as_u64().unwrap() as usize, out);
                return;
            }
            let alpha: Vec<u8> = spec["ops"].as_str().unwrap().bytes().collect();
            let depth = spec["depth"].as_u64().unwrap() as usize;
            for np in 0..4 {
                for code in 0..alpha.len().pow(depth as u32) {
                    let s: String = (0..depth).map(|p| alpha[code / alpha.len().pow(p as u32) % alpha.len()] as char).collect();
                    go(&s, np, out);
                    if out.violations.len() >= 3 {
                        return;
                    }
                }
            }
            out.sample(spec.clone());
        } else if let Some(w) = spec["vis"].as_array() {
            let w: Vec<u64> = w.iter().map(|x| x.as_u64().unwrap()).collect();
            match guarded(|| visibility(&w, out)) {
                Ok(Ok(())) => {}
                Ok(Err((m, h))) => out.violation(format!("{m} [{h}]"), json!({"vis": w})),
                Err(p) => out.violation(p, json!({"vis": w})),
            }
        } else if let Some(h) = spec["hist"].as_array() {
            let mut h: Vec<Ev> = h.iter().map(|e| Ev(e[0].as_u64().unwrap() as u8, e[1].as_u64().unwrap() as usize)).collect();
            dfs(&mut h, spec["depth"].as_u64().unwrap() as usize, spec["max_tx"].as_u64().unwrap() as usize, out);
        }
    }
}
