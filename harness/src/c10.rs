//! C10: the real B+tree against a map, every state audited structurally.
use crate::fw::*;
use crate::treelib::*;
use serde_json::{Value, json};
use std::collections::HashSet;

pub struct C10;

fn cfg_of(v: &Value) -> Cfg {
    let g = |k: &str| v[k].as_u64().unwrap() as usize;
    Cfg { page: g("page"), min_keys: g("min_keys"), siblings: g("siblings"), cache: 400, kind: g("kind") }
}
fn cj(page: usize, min_keys: usize, siblings: usize, kind: usize) -> Value {
    json!({"page": page, "min_keys": min_keys, "siblings": siblings, "kind": kind, "key": kind_name(kind)})
}
fn merge(a: Value, b: Value) -> Value {
    let mut a = a;
    for (k, v) in b.as_object().unwrap() {
        a[k] = v.clone();
    }
    a
}
pub fn history(spec: &Value, ops: &[Op]) -> Value {
    let tail: Vec<String> = ops.iter().map(|o| o.to_string()).collect();
    json!({"item": spec, "ops": tail})
}

/// Replays `ops` on a fresh store (the last one is audited by the caller).
fn replay(cfg: Cfg, n: usize, ops: &[Op]) -> Result<Sim, String> {
    let mut s = Sim::new(cfg, n, 1)?;
    for o in ops {
        s.apply(*o)?;
    }
    Ok(s)
}
/// One audited run of a list of operations.
fn run_ops(spec: &Value, cfg: Cfg, n: usize, ops: &[Op], every: usize, out: &mut Out) -> bool {
    let mut done: Vec<Op> = vec![];
    let r = guarded(|| -> Result<(), String> {
        let mut s = Sim::new(cfg, n, 1)?;
        for (i, o) in ops.iter().enumerate() {
            done.push(*o);
            s.apply(*o)?;
            out.step();
            if i % every == 0 || i + 1 == ops.len() {
                let h = s.audit(0)?;
                out.state_of(&(cfg.page, cfg.kind, h));
            }
        }
        out.traces += 1;
        Ok(())
    });
    match r {
        Ok(Ok(())) => true,
        Ok(Err(e)) | Err(e) => {
            out.violation(e, history(spec, &done));
            false
        }
    }
}
fn put(op: char, key: usize, size: usize) -> Op {
    Op { tree: 0, op, key, size }
}

impl Check for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn items(&self, tier: Tier) -> Vec<Value> {
        let mut v = vec![];
        // every short operation sequence from a family of seed trees
        let t = tier == Tier::Thorough;
        let seeds: Vec<(usize, usize, usize)> = {
            // (keys, pattern, order)
            let mut s = vec![];
            for n in if t { vec![0usize, 2, 3, 4, 5, 7, 9, 12] } else { vec![0, 3, 4, 5, 7] } {
                for p in if t { vec![1, 2, 5, 6, 9, 10, 11] } else { vec![2, 6, 11] } {
                    for o in if t { vec![0, 1, 2, 4] } else { vec![0] } {
                        if n > 0 || (p == 2 && o == 0) {
                            s.push((n, p, o));
                        }
                    }
                }
            }
            s
        };
        for (n, p, o) in &seeds {
            for (mk, sib) in if t { vec![(3, 1), (3, 2), (4, 1)] } else { vec![(3, 1), (3, 2)] } {
                for kind in if t { vec![0, 3, 4] } else { vec![0, 4] } {
                    v.push(merge(cj(4096, mk, sib, kind), json!({"mode": "seq", "n": n, "pattern": p, "order": o, "depth": tier.pick(2, 3)})));
                }
            }
        }
        // all insertion orders and all removal orders
        for kind in if t { (0..KINDS_N).collect() } else { vec![0, 4, 6] } {
            for sib in if t { vec![1, 2, 3] } else { vec![1] } {
                for p in if t { vec![1, 2, 3, 5, 6, 10, 11] } else { vec![2, 6] } {
                    v.push(merge(cj(4096, 3, sib, kind), json!({"mode": "perm", "n": tier.pick(6, 7), "pattern": p})));
                    v.push(merge(cj(4096, 3, sib, kind), json!({"mode": "rperm", "n": tier.pick(6, 7), "pattern": p})));
                }
            }
        }
        // deep trees: fill in one order, drain in another
        let pages: Vec<(usize, usize, usize)> = if t {
            vec![(4096, 3, 1), (4096, 3, 2), (4096, 3, 3), (4096, 4, 1), (4096, 6, 2), (4096, 3, 4), (8192, 3, 1), (8192, 5, 2), (16384, 3, 2), (65536, 3, 2), (65536, 8, 1)]
        } else {
            vec![(4096, 3, 1), (4096, 3, 2), (4096, 4, 3), (8192, 3, 2), (16384, 3, 1), (65536, 3, 2)]
        };
        for (page, mk, sib) in pages {
            for kind in 0..KINDS_N {
                if page > 4096 && !t && kind != 0 && kind != 4 {
                    continue;
                }
                for p in 0..PATTERNS.len() {
                    if !t && p % 3 != kind % 3 {
                        continue;
                    }
                    let os: Vec<(usize, usize)> = if t {
                        (0..ORDERS).flat_map(|a| [(a, a), (a, (a + 1) % ORDERS), (a, (a + 4) % ORDERS)]).collect()
                    } else {
                        vec![(0, 0), (1, 2), (4, 1)]
                    };
                    v.push(merge(
                        cj(page, mk, sib, kind),
                        json!({"mode": "deep", "pattern": p, "orders": os, "n": tier.pick(120, 260)}),
                    ));
                }
            }
        }
        // from a deep tree, every key removed / re-inserted / resized
        for (mk, sib) in if t { vec![(3, 1), (3, 2), (4, 3)] } else { vec![(3, 1), (3, 2)] } {
            for kind in if t { (0..KINDS_N).collect::<Vec<_>>() } else { vec![0, 4, 7] } {
                for p in if t { vec![1, 2, 5, 9, 10, 11] } else { vec![2, 9] } {
                    v.push(merge(cj(4096, mk, sib, kind), json!({"mode": "each", "pattern": p, "n": tier.pick(60, 140)})));
                }
            }
        }
        v
    }
    fn run(&self, tier: Tier, spec: &Value, out: &mut Out) {
        let cfg = cfg_of(spec);
        let n = spec["n"].as_u64().unwrap() as usize;
        let pat = spec["pattern"].as_u64().unwrap() as usize;
        match spec["mode"].as_str().unwrap() {
            "seq" => {
                let ord = order(spec["order"].as_u64().unwrap() as usize, n);
                // odd keys are in the seed, even ones are gaps
                let uni = 2 * n.max(2) + 1;
                let seed: Vec<Op> = ord.iter().map(|k| put('i', 2 * k + 1, size_of(pat, *k))).collect();
                let depth = spec["depth"].as_u64().unwrap() as usize;
                let sizes: &[usize] = tier.pick(&[8, 1250, 5000], &[8, 850, 1250, 5000]);
                let mut alphabet = vec![];
                for k in 0..uni {
                    for s in sizes {
                        alphabet.push(put('p', k, *s));
                    }
                    alphabet.push(put('r', k, 0));
                    alphabet.push(put('i', k, 850));
                    alphabet.push(put('u', k, 640));
                }
                let mut seen: HashSet<u64> = HashSet::new();
                let mut frontier: Vec<Vec<Op>> = vec![vec![]];
                for _ in 0..depth {
                    let mut next = vec![];
                    for path in &frontier {
                        for a in &alphabet {
                            let mut ops = seed.clone();
                            ops.extend(path);
                            let r = guarded(|| -> Result<u64, String> {
                                let mut s = replay(cfg, uni, &ops)?;
                                s.apply(*a)?;
                                let h = s.audit(0)?;
                                out.step();
                                Ok(hash_of(&(h, s.model[0].iter().map(|(k, v)| (*k, v.0)).collect::<Vec<_>>())))
                            });
                            ops.push(*a);
                            match r {
                                Ok(Ok(h)) => {
                                    out.state_of(&(cfg.min_keys, cfg.siblings, cfg.kind, h));
                                    if seen.insert(h) {
                                        let mut p = path.clone();
                                        p.push(*a);
                                        next.push(p);
                                    }
                                }
                                Ok(Err(e)) | Err(e) => {
                                    out.violation(e, history(spec, &ops));
                                    return;
                                }
                            }
                        }
                    }
                    frontier = next;
                    // the next level only starts from shapes not seen before
                    if tier == Tier::Quick && frontier.len() > 70 {
                        // quick: first level complete, second level complete from one path per (operation kind, size)
                        let mut kept: Vec<Vec<Op>> = vec![];
                        for p in frontier {
                            let l = *p.last().unwrap();
                            if kept.iter().filter(|q| q.last().unwrap().op == l.op && q.last().unwrap().size == l.size).count() < 3 {
                                kept.push(p);
                            }
                        }
                        frontier = kept;
                    }
                }
                out.traces += 1;
                out.sample(json!({"seed": seed.iter().map(|o| o.to_string()).collect::<Vec<_>>(), "alphabet": alphabet.len(), "depth": depth}));
            }
            "perm" => {
                for p in perms(n) {
                    let mut ops: Vec<Op> = p.iter().map(|k| put('i', *k, size_of(pat, *k))).collect();
                    ops.extend((0..n).map(|k| put('r', k, 0)));
                    if !run_ops(spec, cfg, n, &ops, 2, out) {
                        return;
                    }
                }
            }
            "rperm" => {
                for p in perms(n) {
                    let mut ops: Vec<Op> = (0..n).map(|k| put('i', k, size_of(pat, k))).collect();
                    ops.extend(p.iter().map(|k| put('r', *k, 0)));
                    ops.extend(p.iter().map(|k| put('i', *k, size_of(pat, *k + 1))));
                    if !run_ops(spec, cfg, n, &ops, 2, out) {
                        return;
                    }
                }
            }
            "deep" => {
                for o in spec["orders"].as_array().unwrap() {
                    let a = order(o[0].as_u64().unwrap() as usize, n);
                    let b = order(o[1].as_u64().unwrap() as usize, n);
                    let mut ops: Vec<Op> = a.iter().map(|k| put('i', *k, size_of(pat, *k))).collect();
                    // resize every third key to every class of size, then drain and refill a little
                    for (j, s) in [3000, 8, 1250, 850].iter().enumerate() {
                        ops.extend(b.iter().filter(|k| *k % 5 == j).map(|k| put('u', *k, *s)));
                    }
                    ops.extend(b.iter().map(|k| put('r', *k, 0)));
                    ops.extend(a.iter().take(n / 4).map(|k| put('p', *k, size_of(pat + 1, *k))));
                    if !run_ops(spec, cfg, n, &ops, tier.pick(7, 3), out) {
                        return;
                    }
                }
            }
            _ => {
                let a = order(4, n);
                for k in 0..n {
                    let mut ops: Vec<Op> = a.iter().map(|k| put('i', *k, size_of(pat, *k))).collect();
                    let seed = ops.len();
                    for s in [8, 3000, 1250] {
                        ops.push(put('u', k, s));
                    }
                    // remove this key and its neighbours, then put them back
                    for j in k..(k + 5).min(n) {
                        ops.push(put('r', j, 0));
                    }
                    for j in (k..(k + 5).min(n)).rev() {
                        ops.push(put('i', j, size_of(pat + 3, j)));
                    }
                    let mut done = vec![];
                    let r = guarded(|| -> Result<(), String> {
                        let mut s = Sim::new(cfg, n, 1)?;
                        for (i, o) in ops.iter().enumerate() {
                            done.push(*o);
                            s.apply(*o)?;
                            out.step();
                            if i >= seed {
                                let h = s.audit(0)?;
                                out.state_of(&(cfg.kind, h));
                            }
                        }
                        out.traces += 1;
                        Ok(())
                    });
                    if let Ok(Err(e)) | Err(e) = r {
                        out.violation(e, history(spec, &done));
                        return;
                    }
                }
            }
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "(a) every sequence of {} operations (insert / update / upsert of {} sizes / remove, every stored and every gap key) from every seed tree of a family (0..{} keys, patterns, orders, min-keys/siblings settings, key kinds); (b) all insertion orders and all removal orders of {} keys; (c) fill/resize/drain/refill runs with {} keys over page sizes 4096..65536, min-keys, siblings 1..4, 9 key kinds (unsigned, signed, text with prefix relations, text longer than a separator, double, composites), 12 payload-size patterns (8 B .. 9000 B) and orders; (d) from 3-level trees: every key resized, removed with its neighbours and re-inserted. After every step of (a), (d) and every few steps of (b), (c): scan, lookups of every key of the universe, structural audit.",
            tier.pick("2 (second level: three representatives per operation class)", "3"),
            tier.pick(3, 4),
            tier.pick(7, 12),
            tier.pick(6, 7),
            tier.pick(120, 260)
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "payload sizes are represented by classes chosen around the page thresholds".into(),
            "the page cache is large enough for no eviction (eviction is C12's subject)".into(),
        ]
    }
}
