//! C19: laws of values (equality, hashing, ordering, casts), storing/loading, order in index trees
//! and in query results. Exhaustive over all pairs and triples of a boundary value set of every type.
use crate::fw::*;
use crate::val::*;
use axmosdb::types::{DataType, DataTypeKind};
use axmosdb::verif::tree::{Sch, Store};
use axmosdb::verif::types as tt;
use axmosdb::{DBConfig, Database};
use serde_json::{Value, json};
use std::cmp::Ordering;

pub struct C19;

fn kind(v: &Val) -> DataTypeKind {
    match v {
        Val::N => DataTypeKind::Null,
        Val::B(_) => DataTypeKind::Bool,
        Val::I(_) => DataTypeKind::Int,
        Val::L(_) => DataTypeKind::BigInt,
        Val::U(_) => DataTypeKind::UInt,
        Val::UL(_) => DataTypeKind::BigUInt,
        Val::F(_) => DataTypeKind::Float,
        Val::D(_) => DataTypeKind::Double,
        Val::S(_) => DataTypeKind::Blob,
    }
}
/// Boundary values of a kind.
pub fn of_kind(k: DataTypeKind, tier: Tier) -> Vec<Val> {
    let ints: Vec<i128> = {
        let mut v = vec![];
        for c in [0i128, 1 << 24, 1 << 31, 1 << 32, 1 << 53, 1 << 63, 1 << 64] {
            for d in [-2i128, -1, 0, 1, 2] {
                v.push(c + d);
                v.push(-c + d);
            }
        }
        if tier == Tier::Thorough {
            for p in 2..64 {
                for d in [-1i128, 0, 1] {
                    v.push((1 << p) + d);
                    v.push(-(1 << p) + d);
                }
            }
        }
        v.extend([7, 255, 256, 65535, 1_000_003]);
        v.sort();
        v.dedup();
        v
    };
    let mut fl: Vec<f64> = ints.iter().map(|i| *i as f64).collect();
    fl.extend([
        0.5, -0.5, 1.5, 0.1, 0.1f32 as f64, -0.0, 1e300, -1e300, 1e-300, 5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN,
        f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f32::MAX as f64, f32::MIN_POSITIVE as f64,
        1.0 + f64::EPSILON, 9007199254740994.0, 4503599627370496.5, 16777216.5,
    ]);
    match k {
        DataTypeKind::Null => vec![Val::N],
        DataTypeKind::Bool => vec![Val::B(false), Val::B(true)],
        DataTypeKind::Int => ints.iter().filter_map(|i| i32::try_from(*i).ok()).map(Val::I).collect(),
        DataTypeKind::BigInt => ints.iter().filter_map(|i| i64::try_from(*i).ok()).map(Val::L).collect(),
        DataTypeKind::UInt => ints.iter().filter_map(|i| u32::try_from(*i).ok()).map(Val::U).collect(),
        DataTypeKind::BigUInt => ints.iter().filter_map(|i| u64::try_from(*i).ok()).map(Val::UL).collect(),
        DataTypeKind::Float => {
            let mut v: Vec<u32> = fl.iter().map(|f| (*f as f32).to_bits()).collect();
            v.push(1);
            v.sort();
            v.dedup();
            v.into_iter().map(Val::F).collect()
        }
        DataTypeKind::Double => {
            let mut v: Vec<u64> = fl.iter().map(|f| f.to_bits()).collect();
            v.sort();
            v.dedup();
            v.into_iter().map(Val::D).collect()
        }
        _ => {
            let mut v: Vec<Vec<u8>> = vec![
                vec![], vec![0], vec![0, 0], vec![1], vec![0xff], vec![0xff, 0], b"a".to_vec(), b"a\0".to_vec(), b"ab".to_vec(), b"b".to_vec(),
                b"A".to_vec(), "é".as_bytes().to_vec(), "日本".as_bytes().to_vec(), b"10".to_vec(), b"9".to_vec(),
            ];
            for n in [63usize, 64, 127, 128, 255, 256, 300, 1000] {
                v.push(vec![b'x'; n]);
                let mut w = vec![b'x'; n];
                w[n - 1] = b'y';
                v.push(w);
            }
            if tier == Tier::Thorough {
                for a in 0..=255u8 {
                    v.push(vec![a]);
                    v.push(vec![b'x', a]);
                }
                for n in [8191usize, 8192, 16383, 16384, 20000] {
                    v.push(vec![b'q'; n]);
                }
            }
            v.sort();
            v.dedup();
            v.into_iter().map(Val::S).collect()
        }
    }
}
fn all(tier: Tier) -> Vec<Val> {
    let mut v = vec![Val::N];
    for k in KINDS {
        let mut w = of_kind(k, tier);
        // triples: keep the all-kinds list moderate
        if tier == Tier::Thorough && w.len() > 110 {
            let q = of_kind(k, Tier::Quick);
            w.retain(|x| q.contains(x));
        }
        v.extend(w);
    }
    v
}
enum Num {
    I(i128),
    F(f64),
}
fn num(v: &Val) -> Option<Num> {
    Some(match v {
        Val::I(v) => Num::I(*v as i128),
        Val::L(v) => Num::I(*v as i128),
        Val::U(v) => Num::I(*v as i128),
        Val::UL(v) => Num::I(*v as i128),
        Val::F(v) => Num::F(f32::from_bits(*v) as f64),
        Val::D(v) => Num::F(f64::from_bits(*v)),
        _ => return None,
    })
}
fn cmp_fi(f: f64, i: i128) -> Ordering {
    if f.is_nan() {
        return Ordering::Greater;
    }
    if f.abs() >= 1e30 {
        return if f > 0.0 { Ordering::Greater } else { Ordering::Less };
    }
    let fl = f.floor();
    match (fl as i128).cmp(&i) {
        Ordering::Equal if f > fl => Ordering::Greater,
        o => o,
    }
}
/// Mathematical order; NaN equals itself and is greatest.
fn math(a: &Val, b: &Val) -> Option<Ordering> {
    Some(match (num(a)?, num(b)?) {
        (Num::I(a), Num::I(b)) => a.cmp(&b),
        (Num::F(a), Num::I(b)) => cmp_fi(a, b),
        (Num::I(a), Num::F(b)) => cmp_fi(b, a).reverse(),
        (Num::F(a), Num::F(b)) => match (a.is_nan(), b.is_nan()) {
            (true, true) => Ordering::Equal,
            (true, _) => Ordering::Greater,
            (_, true) => Ordering::Less,
            _ => a.partial_cmp(&b).unwrap(),
        },
    })
}
/// Order within a type.
fn within(a: &Val, b: &Val) -> Option<Ordering> {
    match (a, b) {
        (Val::B(x), Val::B(y)) => Some(x.cmp(y)),
        (Val::S(x), Val::S(y)) => Some(x.cmp(y)),
        _ => math(a, b),
    }
}
fn ser(v: &DataType) -> Result<Vec<u64>, String> {
    let n = tt::size(v);
    let mut b = vec![0u64; n / 8 + 3];
    let s: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(b.as_mut_ptr() as *mut u8, b.len() * 8) };
    tt::write(v, s, 0)?;
    Ok(b)
}
fn bytes(b: &[u64]) -> &[u8] {
    unsafe { std::slice::from_raw_parts(b.as_ptr() as *const u8, b.len() * 8) }
}

fn laws(tier: Tier, i: usize, out: &mut Out) {
    let vs = all(tier);
    let d: Vec<DataType> = vs.iter().map(|v| v.to()).collect();
    let h: Vec<u64> = d.iter().map(|v| hash_of(v)).collect();
    let enc: Vec<Option<Vec<u64>>> = d.iter().map(|v| if v.kind() == DataTypeKind::Null { None } else { ser(v).ok() }).collect();
    let a = &vs[i];
    let bad = |out: &mut Out, what: String, w: &[&Val]| {
        let w: Vec<String> = w.iter().map(|v| format!("{v:?}")).collect();
        out.violation(format!("{what}: {}", w.join(" , ")), json!({"values": w}));
    };
    if d[i] != d[i] || d[i].partial_cmp(&d[i]) != Some(Ordering::Equal) && !a.is_null() {
        bad(out, "a value differs from itself".into(), &[a]);
    }
    if hash_of(&d[i].clone()) != h[i] || Val::of(&d[i].clone()) != *a {
        bad(out, "clone differs".into(), &[a]);
    }
    // eq / lt matrices against row i
    for j in 0..vs.len() {
        let b = &vs[j];
        out.step();
        out.state(hash_of(&(i, j)));
        let (e, o) = (d[i] == d[j], d[i].partial_cmp(&d[j]));
        let (e2, o2) = (d[j] == d[i], d[j].partial_cmp(&d[i]));
        if e != e2 {
            bad(out, "equality is not symmetric".into(), &[a, b]);
        }
        if o.map(|x| x.reverse()) != o2 {
            bad(out, format!("order is not antisymmetric ({o:?} / {o2:?})"), &[a, b]);
        }
        if e && h[i] != h[j] {
            bad(out, "equal values hash differently".into(), &[a, b]);
        }
        if !a.is_null() && !b.is_null() && o.is_some() && e != (o == Some(Ordering::Equal)) {
            bad(out, format!("== says {e} but the order is {o:?}"), &[a, b]);
        }
        let same = std::mem::discriminant(a) == std::mem::discriminant(b);
        if let Some(w) = if same { within(a, b) } else { math(a, b) } {
            if o != Some(w) || e != (w == Ordering::Equal) {
                bad(out, format!("compares {o:?} (== {e}), by value it is {w:?}"), &[a, b]);
            }
        }
        if let (Some(x), Some(y)) = (&enc[i], &enc[j]) {
            match tt::ref_relations(kind(a), bytes(x), kind(b), bytes(y)) {
                Ok((re, ro, ha, hb)) => {
                    if re != e || ro != o {
                        bad(out, format!("borrowed forms compare {re}/{ro:?}, owned {e}/{o:?}"), &[a, b]);
                    }
                    if re && ha != hb {
                        bad(out, "equal borrowed forms hash differently".into(), &[a, b]);
                    }
                }
                Err(x) => bad(out, format!("stored value cannot be read: {x}"), &[a, b]),
            }
        }
        // transitivity over all triples
        for k in 0..vs.len() {
            if e && (d[j] == d[k]) && d[i] != d[k] {
                bad(out, "equality is not transitive".into(), &[a, b, &vs[k]]);
            }
            if o == Some(Ordering::Less) || o == Some(Ordering::Equal) {
                let p = d[j].partial_cmp(&d[k]);
                if p == Some(Ordering::Less) && d[i].partial_cmp(&d[k]) != Some(Ordering::Less) && num(a).is_some() == num(b).is_some() {
                    let q = d[i].partial_cmp(&d[k]);
                    if q.is_some() || (num(a).is_some() && num(&vs[k]).is_some()) || (same && std::mem::discriminant(a) == std::mem::discriminant(&vs[k])) {
                        bad(out, format!("order is not transitive ({q:?})"), &[a, b, &vs[k]]);
                    }
                }
            }
        }
    }
    out.traces += 1;
}

fn casts(tier: Tier, k: usize, out: &mut Out) {
    for v in of_kind(KINDS[k], tier) {
        let d = v.to();
        for t in KINDS {
            out.step();
            out.state(hash_of(&(&v, t as u8)));
            let bad = |out: &mut Out, w: String| out.violation(format!("cast of {v:?} to {t:?}: {w}"), json!({"value": format!("{v:?}"), "to": format!("{t:?}")}));
            let r = d.try_cast(t);
            if t == KINDS[k] {
                match &r {
                    Ok(x) if Val::of(x) == v => {}
                    x => bad(out, format!("same type, gives {x:?}")),
                }
                continue;
            }
            let Ok(x) = r else {
                // in-range integer conversions and all widenings must succeed
                let ok = match (num(&v), t) {
                    (Some(Num::I(i)), DataTypeKind::Int) => i32::try_from(i).is_err(),
                    (Some(Num::I(i)), DataTypeKind::BigInt) => i64::try_from(i).is_err(),
                    (Some(Num::I(i)), DataTypeKind::UInt) => u32::try_from(i).is_err(),
                    (Some(Num::I(i)), DataTypeKind::BigUInt) => u64::try_from(i).is_err(),
                    (Some(_), DataTypeKind::Double) => false,
                    _ => true,
                };
                if !ok {
                    bad(out, "refused although the target type holds it".into());
                }
                continue;
            };
            let y = Val::of(&x);
            if kind(&y) != t {
                bad(out, format!("gives {y:?}"));
                continue;
            }
            match (num(&v), num(&y)) {
                (Some(Num::I(a)), Some(Num::I(b))) if a != b => bad(out, format!("gives {b}")),
                (Some(Num::I(a)), Some(Num::F(b))) => {
                    let want = if t == DataTypeKind::Float { (a as f32) as f64 } else { a as f64 };
                    if b != want {
                        bad(out, format!("gives {b}, nearest is {want}"));
                    }
                    if cmp_fi(b, a) == Ordering::Equal {
                        match x.try_cast(KINDS[k]) {
                            Ok(z) if Val::of(&z) == v => {}
                            z => bad(out, format!("and back gives {z:?}")),
                        }
                    }
                }
                (Some(Num::F(a)), Some(Num::I(b))) => {
                    // a conversion that succeeds keeps the (truncated or rounded) mathematical value
                    if !a.is_finite() || (b as f64 - a).abs() >= 1.0 || a.fract() == 0.0 && cmp_fi(a, b) != Ordering::Equal {
                        bad(out, format!("gives {b}"));
                    }
                }
                (Some(Num::F(a)), Some(Num::F(b))) => {
                    let want = if t == DataTypeKind::Float { (a as f32) as f64 } else { a };
                    if !(b == want || (b.is_nan() && want.is_nan())) {
                        bad(out, format!("gives {b}, nearest is {want}"));
                    }
                    if b == a {
                        match x.try_cast(KINDS[k]) {
                            Ok(z) if Val::of(&z) == v => {}
                            z => bad(out, format!("and back gives {z:?}")),
                        }
                    }
                }
                _ => {}
            }
            // casting is a function of the value: a second cast to the same type is the identity
            match x.try_cast(t) {
                Ok(z) if Val::of(&z) == y => {}
                z => bad(out, format!("casting twice gives {z:?}")),
            }
        }
        match DataType::Null.try_cast(KINDS[k]) {
            Ok(DataType::Null) => {}
            z => out.violation(format!("NULL cast to {:?} gives {z:?}", KINDS[k]), json!({})),
        }
    }
    out.traces += 1;
}

fn roundtrip(tier: Tier, k: usize, out: &mut Out) {
    let vs = of_kind(KINDS[k], tier);
    for v in &vs {
        let d = v.to();
        let n = tt::size(&d);
        for off in 0..24usize {
            for next in [0usize, vs.len() / 2] {
                // v written at off followed directly by another value
                out.step();
                out.state(hash_of(&(v, off, next)));
                let w = &vs[next];
                let dw = w.to();
                let mut b = vec![0xA5A5A5A5A5A5A5A5u64; (off + n + tt::size(&dw)) / 8 + 6];
                let total = b.len() * 8;
                let s: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(b.as_mut_ptr() as *mut u8, total) };
                let r = (|| {
                    let c1 = tt::write(&d, s, off)?;
                    let c2 = tt::write(&dw, s, c1)?;
                    let (x, e1) = tt::read(KINDS[k], s, off)?;
                    let (y, e2) = tt::read(KINDS[k], s, e1)?;
                    if c1 != e1 || c2 != e2 || Val::of(&x) != *v || Val::of(&y) != *w {
                        return Err(format!("read back {:?} up to {e1} and {:?} up to {e2} (written up to {c1}, {c2})", Val::of(&x), Val::of(&y)));
                    }
                    if s[..off].iter().any(|b| *b != 0xA5) || s[c2..].iter().any(|b| *b != 0xA5) {
                        return Err("bytes outside the value were written".into());
                    }
                    Ok(())
                })();
                if let Err(e) = r {
                    out.violation(format!("{v:?} then {w:?} at offset {off}: {e}"), json!({"value": format!("{v:?}"), "offset": off}));
                    return;
                }
            }
        }
        match tt::bytes(&d) {
            Ok(b) if b.len() == n => {}
            x => out.violation(format!("{v:?}: serialize gives {:?} bytes, size is {n}", x.map(|b| b.len())), json!({})),
        }
    }
    out.traces += 1;
}

/// A key tree of every value, inserted in a given order: scan order is value order, lookups find equal values only.
fn tree(tier: Tier, k: usize, ord: usize, index: bool, out: &mut Out) {
    let mut vs = of_kind(KINDS[k], tier);
    vs.retain(|v| !matches!(v, Val::S(s) if s.len() > 300));
    // distinct by value
    let mut ds: Vec<Val> = vec![];
    for v in vs {
        if !ds.iter().any(|x| within(x, &v) == Some(Ordering::Equal)) {
            ds.push(v);
        }
    }
    ds.sort_by(|a, b| within(a, b).unwrap());
    let n = ds.len();
    let order: Vec<usize> = match ord {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => {
            // all residues of a stride walk: a different interleaving for each ord
            let mut st = 2 * ord + 1;
            while gcd(st, n) != 1 {
                st += 1;
            }
            (0..n).map(|i| (i * st + ord) % n).collect()
        }
    };
    let sc = Scratch::new();
    let kinds: Vec<DataTypeKind> = if index { vec![KINDS[k], DataTypeKind::BigUInt] } else { vec![KINDS[k], DataTypeKind::Int] };
    let s = Sch::new(&kinds, if index { 2 } else { 1 }, index);
    let pay = |i: usize| if index { Val::UL(i as u64).to() } else { Val::I(i as i32).to() };
    let bad = |out: &mut Out, w: String| out.violation(format!("{:?} tree (index {index}) order {ord}: {w}", KINDS[k]), json!({"kind": format!("{:?}", KINDS[k]), "order": order}));
    let st = match Store::new(&sc.path().join("t.db"), 4096, 3, 1, 400) {
        Ok(s) => s,
        Err(e) => return bad(out, e),
    };
    let root = st.new_tree().unwrap();
    for (done, i) in order.iter().enumerate() {
        out.step();
        out.state(hash_of(&(k, index, &order[..done])));
        if let Err(e) = st.put(root, &s, 'i', &[ds[*i].to(), pay(*i)]) {
            return bad(out, format!("insert {:?}: {e}", ds[*i]));
        }
    }
    let rows = match st.scan(root, &s) {
        Ok(r) => r,
        Err(e) => return bad(out, e),
    };
    let got: Vec<Vec<Val>> = rows.iter().map(|r| vals(r)).collect();
    let want: Vec<Vec<Val>> = (0..n).map(|i| vec![ds[i].clone(), Val::of(&pay(i))]).collect();
    if got != want {
        let p = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return bad(out, format!("scan has {} rows (expected {n}); first difference at {p}: {:?} instead of {:?}", got.len(), got.get(p), want.get(p)));
    }
    for i in 0..n {
        out.step();
        match st.get(root, &s, &[ds[i].to(), pay(i)]) {
            Ok(Some(r)) if vals(&r) == want[i] => {}
            x => return bad(out, format!("lookup of {:?} gives {x:?}", ds[i])),
        }
    }
    // same key again is refused (unique key), equal values of other bits included
    if !index {
        for v in of_kind(KINDS[k], tier) {
            if matches!(&v, Val::S(s) if s.len() > 300) {
                continue;
            }
            let r = st.get(root, &s, &[v.to(), pay(0)]);
            match r {
                Ok(Some(x)) if within(&Val::of(&x[0]), &v) == Some(Ordering::Equal) => {}
                x => return bad(out, format!("lookup of {v:?} gives {x:?}")),
            }
            if st.put(root, &s, 'i', &[v.to(), pay(0)]).is_ok() {
                return bad(out, format!("second insert of {v:?} accepted"));
            }
        }
    }
    out.traces += 1;
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

// ---------------------------------------------------------------- SQL level
/// (literal, value as stored in a column of the kind)
fn literals(k: DataTypeKind) -> Vec<(String, Val)> {
    let int = |v: i128| -> String { v.to_string() };
    match k {
        DataTypeKind::Int => [0i32, 1, -1, 2, -2, 10, 9, i32::MAX, i32::MIN, 16777217, 16777216].iter().map(|v| (int(*v as i128), Val::I(*v))).collect(),
        DataTypeKind::BigInt => [0i64, 1, -1, 10, 9, i32::MAX as i64 + 1, i32::MIN as i64 - 1, 1 << 53, (1 << 53) + 1, i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1, -(1 << 53) - 1, u32::MAX as i64, u32::MAX as i64 + 1]
            .iter()
            .map(|v| (int(*v as i128), Val::L(*v)))
            .collect(),
        DataTypeKind::UInt => [0u32, 1, 2, 10, 9, i32::MAX as u32, 1 << 31, u32::MAX, 16777217].iter().map(|v| (int(*v as i128), Val::U(*v))).collect(),
        DataTypeKind::BigUInt => [0u64, 1, 10, 9, 1 << 32, 1 << 53, (1 << 53) + 1, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX].iter().map(|v| (int(*v as i128), Val::UL(*v))).collect(),
        DataTypeKind::Double => ["0.0", "1", "-1", "0.5", "-0.5", "0.1", "9007199254740992", "9007199254740994", "4294967296", "10", "9", "1000000000000000000000000", "-1000000000000000000000000", "0.00000000000000000000000001", "9223372036854775808"]
            .iter()
            .map(|s| (s.to_string(), Val::D(s.parse::<f64>().unwrap().to_bits())))
            .collect(),
        DataTypeKind::Float => ["0.0", "1", "-1", "0.5", "-0.5", "0.1", "16777216", "4294967296", "10", "9", "9223372036854775808"]
            .iter()
            .map(|s| (s.to_string(), Val::F((s.parse::<f64>().unwrap() as f32).to_bits())))
            .collect(),
        DataTypeKind::Bool => vec![("TRUE".into(), Val::B(true)), ("FALSE".into(), Val::B(false))],
        _ => ["", "a", "b", "ab", "A", "10", "9", "é", "日本", "z z"].iter().map(|s| (format!("'{s}'"), Val::S(s.as_bytes().to_vec()))).collect(),
    }
}
fn tyname(k: DataTypeKind) -> &'static str {
    match k {
        DataTypeKind::Int => "INT",
        DataTypeKind::BigInt => "BIGINT",
        DataTypeKind::UInt => "UINT",
        DataTypeKind::BigUInt => "BIGUINT",
        DataTypeKind::Float => "FLOAT",
        DataTypeKind::Double => "DOUBLE",
        DataTypeKind::Bool => "BOOL",
        _ => "TEXT",
    }
}
fn q(db: &Database, sql: &str) -> Result<Vec<Vec<Val>>, String> {
    match db.execute(sql) {
        Ok(r) => Ok(match r.into_rows() {
            Some(rs) => rs.iterrows().map(|r| r.iter().map(Val::of).collect()).collect(),
            None => vec![],
        }),
        Err(e) => Err(e.to_string()),
    }
}
fn total(a: &Val, b: &Val) -> Ordering {
    match (a.is_null(), b.is_null()) {
        (true, true) => Ordering::Equal,
        (true, _) => Ordering::Greater,
        (_, true) => Ordering::Less,
        _ => within(a, b).unwrap(),
    }
}
fn sql(k: usize, ord: usize, index: bool, out: &mut Out) {
    let kd = KINDS[k];
    let lits = literals(kd);
    let n = lits.len();
    let sc = Scratch::new();
    let path = sc.path().join("d.db");
    let mut hist: Vec<String> = vec![];
    let mut db = match Database::create(&path, DBConfig::builder().page_size(4096).cache_size(1000).pool_size(1).min_keys_per_page(3).num_siblings_per_side(1).build()) {
        Ok(d) => d,
        Err(e) => return out.violation(format!("create: {e}"), json!({})),
    };
    macro_rules! run {
        ($s:expr) => {{
            let s: String = $s;
            hist.push(s.clone());
            out.step();
            out.state(hash_of(&(k, ord, index, &s, hist.len())));
            match q(&db, &s) {
                Ok(r) => r,
                Err(e) => {
                    out.violation(format!("{s}: {e}"), json!({"history": hist}));
                    return;
                }
            }
        }};
    }
    macro_rules! expect {
        ($s:expr, $want:expr) => {{
            let s: String = $s;
            let got = run!(s.clone());
            let want: Vec<Vec<Val>> = $want;
            if got != want {
                out.violation(format!("{s}: got {got:?}, expected {want:?}"), json!({"history": hist}));
                return;
            }
        }};
    }
    run!(format!("CREATE TABLE t (id INT, v {})", tyname(kd)));
    if index {
        run!("CREATE UNIQUE INDEX iv ON t (v)".to_string());
    }
    let step = [1usize, n - 1, 2, 3, 5][ord.min(4)];
    let mut rows: Vec<(i32, Val)> = vec![];
    let mut seen = std::collections::BTreeSet::new();
    for i in 0..n {
        let mut j = (i * step) % n;
        while !seen.insert(j) {
            j = (j + 1) % n;
        }
        rows.push((j as i32, lits[j].1.clone()));
        run!(format!("INSERT INTO t VALUES ({j}, {})", lits[j].0));
    }
    if !index {
        // duplicates and NULLs
        for j in 0..n.min(4) {
            rows.push((100 + j as i32, lits[j].1.clone()));
            run!(format!("INSERT INTO t VALUES ({}, {})", 100 + j, lits[j].0));
        }
        for j in 0..2 {
            rows.push((200 + j, Val::N));
            run!(format!("INSERT INTO t VALUES ({}, NULL)", 200 + j));
        }
    }
    for pass in 0..2 {
        // stored and loaded unchanged
        let mut by_id: Vec<Vec<Val>> = rows.iter().map(|(i, v)| vec![Val::I(*i), v.clone()]).collect();
        by_id.sort();
        expect!("SELECT id, v FROM t ORDER BY id".to_string(), by_id.clone());
        let mut asc: Vec<Vec<Val>> = rows.iter().map(|(_, v)| vec![v.clone()]).collect();
        asc.sort_by(|a, b| total(&a[0], &b[0]));
        let mut desc = asc.clone();
        desc.reverse();
        expect!("SELECT v FROM t ORDER BY v".to_string(), asc.clone());
        expect!("SELECT v FROM t ORDER BY v DESC".to_string(), desc);
        let mut dis = asc.clone();
        dis.dedup_by(|a, b| total(&a[0], &b[0]) == Ordering::Equal);
        expect!("SELECT DISTINCT v FROM t ORDER BY v".to_string(), dis.clone());
        let grp: Vec<Vec<Val>> = dis.iter().map(|d| vec![d[0].clone(), Val::L(rows.iter().filter(|(_, v)| total(v, &d[0]) == Ordering::Equal).count() as i64)]).collect();
        expect!("SELECT v, COUNT(*) FROM t GROUP BY v ORDER BY v".to_string(), grp);
        let nn: Vec<&Vec<Val>> = asc.iter().filter(|v| !v[0].is_null()).collect();
        expect!("SELECT MIN(v), MAX(v) FROM t".to_string(), vec![vec![nn[0][0].clone(), nn[nn.len() - 1][0].clone()]]);
        for (l, x) in &lits {
            for (op, f) in [
                ("=", (|o| o == Ordering::Equal) as fn(Ordering) -> bool),
                ("<>", |o| o != Ordering::Equal),
                ("<", |o| o == Ordering::Less),
                ("<=", |o| o != Ordering::Greater),
                (">", |o| o == Ordering::Greater),
                (">=", |o| o != Ordering::Less),
            ] {
                // a FLOAT column is compared with the literal as a double: use the literal's own value
                let lx = if kd == DataTypeKind::Float { Val::D(l.parse::<f64>().unwrap().to_bits()) } else { x.clone() };
                let mut want: Vec<Vec<Val>> = rows.iter().filter(|(_, v)| !v.is_null() && f(within(v, &lx).or_else(|| math(v, &lx)).unwrap())).map(|(i, _)| vec![Val::I(*i)]).collect();
                want.sort();
                expect!(format!("SELECT id FROM t WHERE v {op} {l} ORDER BY id"), want);
            }
        }
        // self join on the value
        let mut want: Vec<Vec<Val>> = vec![];
        for (i, a) in &rows {
            for (j, b) in &rows {
                if !a.is_null() && !b.is_null() && within(a, b) == Some(Ordering::Equal) {
                    want.push(vec![Val::I(*i), Val::I(*j)]);
                }
            }
        }
        want.sort();
        expect!("SELECT x.id, y.id FROM t x JOIN t y ON x.v = y.v ORDER BY x.id, y.id".to_string(), want);
        // copying through a column of the same type changes nothing
        if pass == 0 {
            run!(format!("CREATE TABLE t2 (id INT, v {})", tyname(kd)));
            run!("INSERT INTO t2 SELECT id, v FROM t".to_string());
            expect!("SELECT id, v FROM t2 ORDER BY id".to_string(), by_id);
            hist.push("reopen".into());
            if let Err(e) = db.flush() {
                return out.violation(format!("flush: {e}"), json!({"history": hist}));
            }
            drop(db);
            db = match Database::open(&path, DBConfig::builder().page_size(4096).cache_size(1000).pool_size(1).min_keys_per_page(3).num_siblings_per_side(1).build()) {
                Ok(d) => d,
                Err(e) => return out.violation(format!("open: {e}"), json!({"history": hist})),
            };
        }
    }
    out.traces += 1;
}
/// Joins between columns of two different numeric types.
fn cross(a: usize, b: usize, out: &mut Out) {
    let (ka, kb) = (KINDS[a], KINDS[b]);
    let sc = Scratch::new();
    let db = match Database::create(sc.path().join("d.db"), DBConfig::builder().page_size(4096).cache_size(1000).pool_size(1).min_keys_per_page(3).num_siblings_per_side(1).build()) {
        Ok(d) => d,
        Err(e) => return out.violation(format!("create: {e}"), json!({})),
    };
    let mut hist: Vec<String> = vec![];
    let mut stm = vec![format!("CREATE TABLE ta (id INT, v {})", tyname(ka)), format!("CREATE TABLE tb (id INT, v {})", tyname(kb))];
    let (la, lb) = (literals(ka), literals(kb));
    for (t, l) in [("ta", &la), ("tb", &lb)] {
        for (i, (s, _)) in l.iter().enumerate() {
            stm.push(format!("INSERT INTO {t} VALUES ({i}, {s})"));
        }
    }
    for s in stm {
        hist.push(s.clone());
        if let Err(e) = q(&db, &s) {
            return out.violation(format!("{s}: {e}"), json!({"history": hist}));
        }
    }
    for (op, f) in [
        ("=", (|o| o == Ordering::Equal) as fn(Ordering) -> bool),
        ("<", |o| o == Ordering::Less),
        (">=", |o| o != Ordering::Less),
        ("<>", |o| o != Ordering::Equal),
    ] {
        for form in 0..2 {
            let mut want: Vec<Vec<Val>> = vec![];
            for (i, (_, x)) in la.iter().enumerate() {
                for (j, (_, y)) in lb.iter().enumerate() {
                    if f(math(x, y).unwrap()) {
                        want.push(vec![Val::I(i as i32), Val::I(j as i32)]);
                    }
                }
            }
            want.sort();
            let s = if form == 0 {
                format!("SELECT ta.id, tb.id FROM ta JOIN tb ON ta.v {op} tb.v ORDER BY ta.id, tb.id")
            } else {
                format!("SELECT ta.id, tb.id FROM ta, tb WHERE ta.v {op} tb.v ORDER BY ta.id, tb.id")
            };
            out.step();
            out.state(hash_of(&(a, b, &s)));
            match q(&db, &s) {
                Ok(r) if r == want => {}
                r => {
                    hist.push(s.clone());
                    return out.violation(format!("{s} with {ka:?} and {kb:?}: got {r:?}, expected {want:?}"), json!({"history": hist}));
                }
            }
        }
    }
    out.traces += 1;
}

impl Check for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn items(&self, tier: Tier) -> Vec<Value> {
        let mut v = vec![];
        for i in 0..all(tier).len() {
            v.push(json!({"t": "laws", "i": i}));
        }
        for k in 0..KINDS.len() {
            v.push(json!({"t": "cast", "k": k}));
            v.push(json!({"t": "bytes", "k": k}));
            for o in 0..tier.pick(6, 24) {
                v.push(json!({"t": "tree", "k": k, "o": o, "x": false}));
                v.push(json!({"t": "tree", "k": k, "o": o, "x": true}));
            }
            for o in 0..tier.pick(2, 5) {
                v.push(json!({"t": "sql", "k": k, "o": o, "x": false}));
                v.push(json!({"t": "sql", "k": k, "o": o, "x": true}));
            }
            for j in 0..KINDS.len() {
                if j != k && math(&literals(KINDS[k])[0].1, &literals(KINDS[j])[0].1).is_some() {
                    v.push(json!({"t": "cross", "k": k, "j": j}));
                }
            }
        }
        v
    }
    fn run(&self, tier: Tier, s: &Value, out: &mut Out) {
        let g = |x: &str| s[x].as_u64().unwrap_or(0) as usize;
        let x = s["x"].as_bool().unwrap_or(false);
        match s["t"].as_str().unwrap() {
            "laws" => laws(tier, g("i"), out),
            "cast" => casts(tier, g("k"), out),
            "bytes" => roundtrip(tier, g("k"), out),
            "tree" => tree(tier, g("k"), g("o"), x, out),
            "sql" => sql(g("k"), g("o"), x, out),
            _ => cross(g("k"), g("j"), out),
        }
        if g("i") == 40 || s["t"] == "sql" {
            out.sample(s.clone());
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} boundary values over all 8 types and NULL: all pairs and all triples (owned and borrowed forms); every value cast to every type and back; every value stored at 24 alignments; key and index trees of all values of a type in {} insertion orders; SQL ORDER BY/DISTINCT/GROUP BY/MIN/MAX/every comparison/self join per type with and without unique index, before and after reopen; joins between every pair of numeric types", all(tier).len(), tier.pick(6, 24))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["boundary values (around 0, 2^24, 2^31, 2^32, 2^53, 2^63, 2^64, subnormals, infinities, NaN; byte strings around length-prefix boundaries) represent their neighbourhoods".into()]
    }
}
