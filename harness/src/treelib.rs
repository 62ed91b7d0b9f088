//! Shared by C10 and C11: driving the real B+tree and auditing its page graph.
use crate::val::*;
use axmosdb::types::{DataType, DataTypeKind};
use axmosdb::verif::tree::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{DefaultHasher, Hash, Hasher};

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub page: usize,
    pub min_keys: usize,
    pub siblings: usize,
    pub cache: usize,
    pub kind: usize,
}
pub const KINDS_N: usize = 9;
pub fn kind_name(k: usize) -> &'static str {
    ["biguint", "int", "bigint", "text", "longtext", "double", "uint+text", "text+int", "int+int index"][k]
}
/// (key columns, value columns) of one key kind; the last value column is the payload blob.
pub fn schema(kind: usize) -> Sch {
    use DataTypeKind as K;
    match kind {
        0 => Sch::new(&[K::BigUInt, K::Blob], 1, false),
        1 => Sch::new(&[K::Int, K::Bool, K::Blob], 1, false),
        2 => Sch::new(&[K::BigInt, K::Blob], 1, false),
        3 | 4 => Sch::new(&[K::Blob, K::Blob], 1, true),
        5 => Sch::new(&[K::Double, K::Blob], 1, false),
        6 => Sch::new(&[K::UInt, K::Blob, K::Blob], 2, true),
        7 => Sch::new(&[K::Blob, K::Int, K::Blob], 2, true),
        _ => Sch::new(&[K::Int, K::Int, K::Blob], 2, true),
    }
}
/// Key number i of n, strictly increasing in i.
pub fn key(kind: usize, i: usize, n: usize) -> Vec<Val> {
    match kind {
        0 => vec![Val::UL(if i + 1 == n { u64::MAX } else { i as u64 * 300 + 1 })],
        1 => vec![Val::I(if i == 0 { i32::MIN } else { (i as i32 - n as i32 / 2) * 257 })],
        2 => vec![Val::L(if i == 0 { i64::MIN } else { (i as i64 - n as i64 / 2) * 70_000_000_001 })],
        // every prefix relation between neighbours occurs: "", "a", "aa", "ab", ...
        3 => {
            let mut s = vec![];
            let mut v = i;
            while v > 0 {
                v -= 1;
                s.push(b'a' + (v % 3) as u8);
                v /= 3;
            }
            s.reverse();
            // order of base-3 bijective numerals is by length: pad so that it is lexicographic
            let mut t = vec![b'a' + (s.len() as u8)];
            t.extend(s);
            vec![Val::S(t)]
        }
        4 => {
            let mut s = vec![b'k'; 700 + (i % 5) * 160];
            s[..4].copy_from_slice(format!("{:04}", i / 3).as_bytes());
            let l = s.len();
            // three keys in a row differ only at the end of the longest common part
            let mut s = s[..l].to_vec();
            if i % 3 > 0 {
                let p = 690;
                s[p] = b'k' + (i % 3) as u8;
            }
            vec![Val::S(s)]
        }
        5 => vec![Val::D(((i as f64 - n as f64 / 2.0) * 0.75).to_bits())],
        6 => vec![Val::U((i / 3) as u32), Val::S(vec![b'x'; i % 3])],
        7 => vec![Val::S(vec![b'p'; 1 + (i / 4) % 8].into_iter().chain(format!("{:03}", i / 4).bytes()).rev().collect::<Vec<_>>()), Val::I((i % 4) as i32 - 2)],
        _ => vec![Val::I((i / 5) as i32 - 3), Val::I((i % 5) as i32 - 2)],
    }
}
/// The keys of one run, sorted (kind 7's text is not monotone in i).
pub fn keys(kind: usize, n: usize) -> Vec<Vec<Val>> {
    let mut v: Vec<Vec<Val>> = (0..n).map(|i| key(kind, i, n)).collect();
    if matches!(kind, 3 | 4 | 7) {
        v.sort();
    }
    v
}
pub fn row(kind: usize, key: &[Val], size: usize, ver: u64) -> Vec<Val> {
    let mut h = DefaultHasher::new();
    (key, ver).hash(&mut h);
    let b = h.finish().to_le_bytes();
    let data: Vec<u8> = (0..size).map(|i| b[i % 8].wrapping_add((i / 8) as u8)).collect();
    let mut r = key.to_vec();
    if kind == 1 {
        r.push(Val::B(ver % 2 == 0));
    }
    r.push(Val::S(data));
    r
}
pub fn dt(r: &[Val]) -> Vec<DataType> {
    r.iter().map(|v| v.to()).collect()
}
pub fn show(k: &[Val]) -> String {
    format!("{k:?}")
}

pub struct Sim {
    pub st: Store,
    pub sch: Sch,
    pub cfg: Cfg,
    pub keys: Vec<Vec<Val>>,
    pub roots: Vec<u64>,
    pub model: Vec<BTreeMap<usize, (usize, u64)>>,
    pub ver: u64,
    _dir: crate::fw::Scratch,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Op {
    pub tree: usize,
    pub op: char,
    pub key: usize,
    pub size: usize,
}
impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let n = match self.op {
            'i' => "insert",
            'u' => "update",
            'p' => "upsert",
            _ => "remove",
        };
        write!(f, "{n} t{} k{} {}B", self.tree, self.key, self.size)
    }
}
impl Sim {
    pub fn new(cfg: Cfg, nkeys: usize, ntrees: usize) -> Result<Sim, String> {
        let dir = crate::fw::Scratch::new();
        let st = Store::new(&dir.path().join("t.db"), cfg.page, cfg.min_keys, cfg.siblings, cfg.cache)?;
        let mut roots = vec![];
        for _ in 0..ntrees {
            roots.push(st.new_tree()?);
        }
        Ok(Sim {
            st,
            sch: schema(cfg.kind),
            cfg,
            keys: keys(cfg.kind, nkeys),
            model: vec![BTreeMap::new(); ntrees],
            roots,
            ver: 0,
            _dir: dir,
        })
    }
    pub fn row(&self, k: usize, v: (usize, u64)) -> Vec<Val> {
        row(self.cfg.kind, &self.keys[k], v.0, v.1)
    }
    /// Applies one operation to the tree and the model; Err = the outcome is wrong.
    pub fn apply(&mut self, o: Op) -> Result<(), String> {
        self.ver += 1;
        let root = self.roots[o.tree];
        let present = self.model[o.tree].contains_key(&o.key);
        let new = (o.size, self.ver);
        let r = dt(&self.row(o.key, new));
        let res = match o.op {
            'r' => {
                let probe = dt(&self.row(o.key, (0, 0)));
                self.st.remove(root, &self.sch, &probe)
            }
            c => self.st.put(root, &self.sch, c, &r),
        };
        let want_ok = match o.op {
            'i' => !present,
            'p' => true,
            _ => present,
        };
        match (&res, want_ok) {
            (Ok(()), true) => {
                if o.op == 'r' {
                    self.model[o.tree].remove(&o.key);
                } else {
                    self.model[o.tree].insert(o.key, new);
                }
                Ok(())
            }
            (Err(_), false) => Ok(()),
            (Err(e), true) => Err(format!("{o} failed: {e}")),
            (Ok(()), false) => Err(format!("{o} succeeded although the key is {}", if present { "present" } else { "absent" })),
        }
    }
    /// Full comparison with the map and structural audit of one tree. Returns the canonical shape hash.
    pub fn audit(&self, t: usize) -> Result<u64, String> {
        let root = self.roots[t];
        let m = &self.model[t];
        // 1. scan
        let got = self.st.scan(root, &self.sch).map_err(|e| format!("scan: {e}"))?;
        if got.len() != m.len() {
            return Err(format!("scan returns {} rows, map holds {}", got.len(), m.len()));
        }
        for (g, (k, v)) in got.iter().zip(m) {
            let want = self.row(*k, *v);
            if vals(g) != want {
                return Err(format!("scan returns {:?}, map holds {:?}", vals(g), want));
            }
        }
        // 2. lookups of every key of the universe
        for k in 0..self.keys.len() {
            let probe = dt(&self.row(k, (0, 0)));
            let g = self.st.get(root, &self.sch, &probe).map_err(|e| format!("lookup {}: {e}", show(&self.keys[k])))?;
            let want = m.get(&k).map(|v| self.row(k, *v));
            if g.as_deref().map(vals) != want {
                return Err(format!("lookup {} gives {:?}, map holds {:?}", show(&self.keys[k]), g.as_deref().map(vals), want));
            }
        }
        // 3. structure
        let mut w = Walk { sim: self, leaves: vec![], levels: vec![], seen: BTreeSet::new(), depth: None, h: DefaultHasher::new(), index: self.keys.iter().cloned().zip(0..).collect() };
        w.node(root, 0, None, None)?;
        let seps: Vec<Vec<u64>> = w.levels.clone();
        for level in &seps {
            for (i, id) in level.iter().enumerate() {
                let n = self.st.node(&self.sch, *id)?;
                let prev = if i == 0 { None } else { Some(level[i - 1]) };
                let next = level.get(i + 1).copied();
                if (n.prev != prev || n.next != next) {
                    return Err(format!("sibling links of page {id} are {:?}/{:?}, neighbours in key order are {prev:?}/{next:?}", n.prev, n.next));
                }
            }
        }
        if w.leaves != m.keys().copied().collect::<Vec<_>>() {
            return Err(format!("leaves hold keys {:?}, map holds {:?}", w.leaves, m.keys()));
        }
        Ok(w.h.finish())
    }
    /// Page ownership of the whole file: (live pages, free pages).
    pub fn owners(&self) -> Result<(usize, Vec<u64>), String> {
        let total = self.st.total_pages();
        let mut own: HashMap<u64, String> = HashMap::new();
        let mut claim = |id: u64, who: String| -> Result<(), String> {
            if id == 0 || id >= total {
                return Err(format!("{who} refers to page {id}, the file has {total} pages"));
            }
            match own.insert(id, who.clone()) {
                Some(w) => Err(format!("page {id} is owned twice: {w} and {who}")),
                None => Ok(()),
            }
        };
        let (first, last) = self.st.free_ends();
        let free = self.st.chain(first).map_err(|e| format!("free list: {e}"))?;
        if free.last().copied() != last {
            return Err(format!("free list {free:?} does not end at its recorded tail {last:?}"));
        }
        for f in &free {
            claim(*f, "free list".into())?;
        }
        for (t, r) in self.roots.iter().enumerate() {
            let mut todo = vec![*r];
            while let Some(id) = todo.pop() {
                claim(id, format!("node of tree {t}"))?;
                let n = self.st.node(&self.sch, id)?;
                for c in &n.cells {
                    for p in &c.chain {
                        claim(*p, format!("overflow chain of a cell on page {id} of tree {t}"))?;
                    }
                    todo.extend(c.left);
                }
                todo.extend(n.right);
            }
        }
        let live = own.len() - free.len();
        for id in 1..total {
            if !own.contains_key(&id) {
                return Err(format!("page {id} of {total} has no owner (live {live}, free {free:?})"));
            }
        }
        Ok((live, free))
    }
}
struct Walk<'a> {
    sim: &'a Sim,
    leaves: Vec<usize>,
    levels: Vec<Vec<u64>>,
    seen: BTreeSet<u64>,
    depth: Option<usize>,
    h: DefaultHasher,
    index: HashMap<Vec<Val>, usize>,
}
impl Walk<'_> {
    /// lo <= keys <= hi (positions in the universe; separators are keys that were once stored)
    fn node(&mut self, id: u64, depth: usize, lo: Option<usize>, hi: Option<usize>) -> Result<(), String> {
        if !self.seen.insert(id) {
            return Err(format!("page {id} is reached twice"));
        }
        let n = self.sim.st.node(&self.sim.sch, id)?;
        if self.levels.len() <= depth {
            self.levels.push(vec![]);
        }
        self.levels[depth].push(id);
        let mut spans: Vec<(usize, usize)> = n.cells.iter().map(|c| (c.offset, c.offset + c.size)).collect();
        spans.sort();
        let mut at = n.slots_end;
        for (a, b) in spans {
            if a < at || b > n.usable {
                return Err(format!("page {id}: cell at {a}..{b} overlaps its neighbour or leaves the page (limit {at}..{})", n.usable));
            }
            at = b;
        }
        (depth, n.leaf, n.cells.len()).hash(&mut self.h);
        let mut idx = vec![];
        for c in &n.cells {
            let k = c.key.as_ref().map_err(|e| format!("page {id}: undecodable key: {e}"))?;
            let k = vals(k);
            let Some(i) = self.index.get(&k).copied() else {
                return Err(format!("page {id} holds key {} that was never inserted", show(&k)));
            };
            idx.push(i);
            (i, c.offset, c.size, c.chain.len(), c.data.len()).hash(&mut self.h);
        }
        for w in idx.windows(2) {
            if w[0] >= w[1] {
                return Err(format!("page {id}: keys {idx:?} are not in order"));
            }
        }
        if n.leaf {
            if *self.depth.get_or_insert(depth) != depth {
                return Err(format!("leaf {id} is at depth {depth}, another one is at {:?}", self.depth));
            }
            for i in &idx {
                if lo.is_some_and(|l| *i < l) || hi.is_some_and(|h| *i > h) {
                    return Err(format!("leaf {id} holds key {i}, its separators are {lo:?}..{hi:?}"));
                }
            }
            self.leaves.extend(idx);
            return Ok(());
        }
        for (j, c) in n.cells.iter().enumerate() {
            if lo.is_some_and(|l| idx[j] < l) || hi.is_some_and(|h| idx[j] > h) {
                return Err(format!("interior page {id}: separator {} is outside {lo:?}..{hi:?}", idx[j]));
            }
            let Some(l) = c.left else { return Err(format!("interior page {id}: cell {j} has no child")) };
            self.node(l, depth + 1, if j == 0 { lo } else { Some(idx[j - 1]) }, Some(idx[j]))?;
        }
        self.node(n.right.unwrap(), depth + 1, idx.last().copied().or(lo), hi)
    }
}

pub fn order(name: usize, n: usize) -> Vec<usize> {
    match name {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        3 => {
            let mut v: Vec<usize> = order(2, n);
            v.reverse();
            v
        }
        k => {
            // stride permutations
            let mut s = [7, 11, 5, 13, 3, 17, 23][(k - 4) % 7] % n.max(1);
            while s == 0 || gcd(s, n) != 1 {
                s += 1;
            }
            (0..n).map(|i| (i * s + k) % n).collect()
        }
    }
}
pub const ORDERS: usize = 9;
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}
pub const PATTERNS: [&[usize]; 12] = [
    &[8],
    &[850],
    &[1250],
    &[3000],
    &[9000],
    &[8, 1250],
    &[1250, 8, 8],
    &[850, 3000],
    &[8, 8, 8, 8, 9000],
    &[400, 1250, 850, 8, 3000],
    &[1250, 1250, 8, 8, 8, 8],
    &[300, 20, 1100, 640],
];
pub fn size_of(pat: usize, i: usize) -> usize {
    let p = PATTERNS[pat % PATTERNS.len()];
    p[i % p.len()]
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
