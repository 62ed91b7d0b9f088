//! C11: page ownership. Tree level: two trees and the free list of one file, audited after every
//! operation, with freed pages reused before the file grows.
use crate::c10::history;
use crate::fw::*;
use crate::treelib::*;
use serde_json::{Value, json};

pub struct C11;

fn put(tree: usize, op: char, key: usize, size: usize) -> Op {
    Op { tree, op, key, size }
}
/// Audits ownership after an operation and the "free pages first" rule against the state before it.
pub fn step(s: &mut Sim, o: Op, out: &mut Out) -> Result<(), String> {
    let t0 = s.st.total_pages();
    let f0 = s.st.chain(s.st.free_ends().0)?;
    s.apply(o)?;
    out.step();
    let (live, f1) = s.owners()?;
    let t1 = s.st.total_pages();
    if t1 > t0 && !f0.is_empty() && f1.len() >= f0.len() && f1[..f0.len()] == f0[..] {
        return Err(format!("{o}: the file grew from {t0} to {t1} pages while the free list {f0:?} was not used"));
    }
    out.state_of(&(s.cfg.kind, s.cfg.page, live, f1.len(), s.model.clone()));
    Ok(())
}
fn run_ops(spec: &Value, cfg: Cfg, n: usize, trees: usize, ops: &[Op], out: &mut Out, fin: impl FnOnce(&mut Sim) -> Result<(), String>) -> bool {
    let mut done = vec![];
    let r = guarded(|| -> Result<(), String> {
        let mut s = Sim::new(cfg, n, trees)?;
        for o in ops {
            done.push(*o);
            step(&mut s, *o, out)?;
        }
        out.traces += 1;
        fin(&mut s)
    });
    match r {
        Ok(Ok(())) => true,
        Ok(Err(e)) | Err(e) => {
            out.violation(e, history(spec, &done));
            false
        }
    }
}
/// Dropping a tree returns every page it owned.
fn drop_trees(s: &mut Sim) -> Result<(), String> {
    while let Some(r) = s.roots.pop() {
        s.model.pop();
        s.st.dealloc(r).map_err(|e| format!("dealloc of a tree: {e}"))?;
        s.owners().map_err(|e| format!("after dropping a tree: {e}"))?;
    }
    let (live, free) = s.owners()?;
    if live != 0 || free.len() as u64 + 1 != s.st.total_pages() {
        return Err(format!("after dropping every tree {live} pages are live and {} free of {}", free.len(), s.st.total_pages()));
    }
    // everything must be allocatable again without growing the file
    let t = s.st.total_pages();
    let mut got = std::collections::HashSet::new();
    for _ in 1..t {
        got.insert(s.st.new_tree()?);
    }
    if s.st.total_pages() != t || got.len() as u64 != t - 1 {
        return Err(format!("{} free pages gave {} distinct pages and the file went from {t} to {} pages", t - 1, got.len(), s.st.total_pages()));
    }
    Ok(())
}
fn cfg_of(v: &Value) -> Cfg {
    let g = |k: &str| v[k].as_u64().unwrap() as usize;
    Cfg { page: g("page"), min_keys: g("min_keys"), siblings: g("siblings"), cache: g("cache"), kind: g("kind") }
}
pub const SEQ_KEYS: usize = 5;

impl Check for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn items(&self, tier: Tier) -> Vec<Value> {
        let t = tier == Tier::Thorough;
        let mut v = vec![];
        let c = |page: usize, mk: usize, sib: usize, kind: usize, cache: usize, m: Value| {
            let mut a = json!({"page": page, "min_keys": mk, "siblings": sib, "kind": kind, "key": kind_name(kind), "cache": cache});
            for (k, x) in m.as_object().unwrap() {
                a[k] = x.clone();
            }
            a
        };
        // all sequences on two trees sharing a free list, split by first operation
        for kind in if t { vec![0usize, 4, 6] } else { vec![0, 4] } {
            for first in 0..seq_alphabet().len() {
                v.push(c(4096, 3, 1, kind, 300, json!({"mode": "seq", "first": first, "depth": tier.pick(4, 5)})));
            }
        }
        for (page, cache) in if t {
            vec![(4096, 300), (4096, 12), (8192, 300), (8192, 16), (16384, 300), (65536, 60)]
        } else {
            vec![(4096, 300), (4096, 12), (8192, 300)]
        } {
            for sib in if t { vec![1, 2, 3] } else { vec![1, 2] } {
                for kind in if t { (0..KINDS_N).collect::<Vec<_>>() } else { vec![0, 4, 7] } {
                    for p in 0..PATTERNS.len() {
                        if !t && p % 2 != kind % 2 {
                            continue;
                        }
                        v.push(c(page, 3, sib, kind, cache, json!({"mode": "life", "pattern": p, "n": tier.pick(40, 110), "orders": if t { json!([[0, 0], [1, 2], [4, 1], [5, 6], [2, 3]]) } else { json!([[0, 1], [4, 2]]) }})));
                    }
                }
            }
        }
        for x in crate::c11sql::items(tier) {
            v.push(x);
        }
        v
    }
    fn run(&self, tier: Tier, spec: &Value, out: &mut Out) {
        if spec["mode"] == "sql" {
            return crate::c11sql::run(tier, spec, out);
        }
        let cfg = cfg_of(spec);
        match spec["mode"].as_str().unwrap() {
            "seq" => {
                let alpha = seq_alphabet();
                let depth = spec["depth"].as_u64().unwrap() as usize;
                let seeds: Vec<Vec<Op>> = vec![
                    vec![],
                    (0..SEQ_KEYS).map(|k| put(0, 'i', k, 1250)).collect(),
                    (0..SEQ_KEYS).map(|k| put(k % 2, 'i', k, [5000, 850, 14000][k % 3])).collect(),
                ];
                for seed in seeds {
                    let mut path = vec![alpha[spec["first"].as_u64().unwrap() as usize]];
                    if !dfs(spec, cfg, &seed, &mut path, depth, &alpha, out) {
                        return;
                    }
                }
                out.sample(spec.clone());
            }
            _ => {
                let n = spec["n"].as_u64().unwrap() as usize;
                let pat = spec["pattern"].as_u64().unwrap() as usize;
                for o in spec["orders"].as_array().unwrap() {
                    let a = order(o[0].as_u64().unwrap() as usize, n);
                    let b = order(o[1].as_u64().unwrap() as usize, n);
                    let mut ops: Vec<Op> = vec![];
                    ops.extend(a.iter().map(|k| put(k % 2, 'i', *k, size_of(pat, *k))));
                    for (j, s) in [9000, 8, 1250, 5000, 850].iter().enumerate() {
                        ops.extend(b.iter().filter(|k| *k % 5 == j).map(|k| put(k % 2, 'u', *k, *s)));
                    }
                    ops.extend(b.iter().filter(|k| *k % 3 != 0).map(|k| put(k % 2, 'r', *k, 0)));
                    ops.extend(b.iter().map(|k| put(k % 2, 'p', *k, size_of(pat + 1, *k))));
                    if !run_ops(spec, cfg, n, 2, &ops, out, drop_trees) {
                        return;
                    }
                    // identical fill/drain cycles do not grow the file
                    let cyc: Vec<Op> = a
                        .iter()
                        .map(|k| put(0, 'i', *k, size_of(pat, *k)))
                        .chain(b.iter().map(|k| put(0, 'r', *k, 0)))
                        .collect();
                    let r = guarded(|| -> Result<(), String> {
                        let mut s = Sim::new(cfg, n, 1)?;
                        let mut peak = 0;
                        for round in 0..3 {
                            for o in &cyc {
                                s.apply(*o)?;
                                out.step();
                            }
                            s.owners()?;
                            let t = s.st.total_pages();
                            if round > 0 && t > peak {
                                return Err(format!("fill/drain round {round} grew the file from {peak} to {t} pages"));
                            }
                            peak = t;
                        }
                        Ok(())
                    });
                    if let Ok(Err(e)) | Err(e) = r {
                        out.violation(e, history(spec, &cyc));
                        return;
                    }
                }
            }
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "Tree level: every sequence of {} operations over two trees of one file ({} operations: insert/update/remove of {} keys with payloads of one cell, one and several overflow pages), from three seed states, for {} key kinds; life cycles (fill, resize, partial drain, refill, drop of both trees, re-allocation of every page; three identical fill/drain rounds) over page sizes, cache sizes (with eviction), siblings, key kinds, 12 payload patterns. After every operation the whole file is audited: every page is a node of one tree, a link of one chain of one cell, or on the free list; the list is acyclic and ends at its recorded tail; the file does not grow while the list is unused. {}",
            tier.pick(4, 5),
            seq_alphabet().len(),
            SEQ_KEYS,
            tier.pick(2, 3),
            crate::c11sql::bounds(tier)
        )
    }
}
pub fn seq_alphabet() -> Vec<Op> {
    let mut v = vec![];
    for k in 0..SEQ_KEYS {
        let t = k % 2;
        v.push(put(t, 'p', k, 1250));
        v.push(put(t, 'p', k, 5000));
        if k < 3 {
            v.push(put(t, 'p', k, 14000));
            v.push(put(t, 'p', k, 8));
        }
        v.push(put(t, 'r', k, 0));
    }
    v
}
fn dfs(spec: &Value, cfg: Cfg, seed: &[Op], path: &mut Vec<Op>, depth: usize, alpha: &[Op], out: &mut Out) -> bool {
    // run the current path from scratch, audit only from its last operation on (prefixes were audited before)
    let mut done = seed.to_vec();
    let r = guarded(|| -> Result<bool, String> {
        let mut s = Sim::new(cfg, 12, 2)?;
        for o in seed {
            s.apply(*o)?;
        }
        for (i, o) in path.iter().enumerate() {
            done.push(*o);
            if i + 1 == path.len() {
                // removing an absent key changes nothing: no need to go on below it
                let noop = o.op == 'r' && !s.model[o.tree].contains_key(&o.key);
                step(&mut s, *o, out)?;
                if path.len() == depth {
                    out.traces += 1;
                    drop_trees(&mut s)?;
                }
                return Ok(!noop);
            }
            s.apply(*o)?;
        }
        Ok(true)
    });
    match r {
        Ok(Ok(go)) => {
            if go && path.len() < depth {
                for a in alpha {
                    path.push(*a);
                    let ok = dfs(spec, cfg, seed, path, depth, alpha, out);
                    path.pop();
                    if !ok {
                        return false;
                    }
                }
            }
            true
        }
        Ok(Err(e)) | Err(e) => {
            out.violation(e, history(spec, &done));
            false
        }
    }
}
