// Whole-file audit from the catalog roots. Shared by the facades.
pub mod audit {
    use crate::Database;
    use crate::io::pager::SharedPager;
    use crate::schema::base::Relation;
    use crate::schema::{Schema, meta_index_schema, meta_table_schema};
    use crate::storage::page::{BtreePage, OverflowPage};
    use crate::storage::tuple::{Tuple, TupleReader, TupleRef};
    use crate::storage::{BtreeMetadata, BtreeOps};
    use crate::tree::accessor::BtreeReadAccessor;
    use crate::tree::bplustree::{Btree, SearchResult};
    use crate::tree::cell_ops::Reassembler;
    use std::collections::{BTreeMap, HashMap};

    type R<T> = Result<T, String>;
    fn e<T: std::fmt::Display>(x: T) -> String {
        x.to_string()
    }
    #[derive(Debug, Clone)]
    pub struct TreeInfo {
        pub name: String,
        pub root: u64,
        pub nodes: usize,
        pub links: usize,
        pub cells: usize,
        pub height: usize,
    }
    #[derive(Debug, Clone, Default)]
    pub struct Report {
        pub total: u64,
        pub free: Vec<u64>,
        pub aborted_list: usize,
        pub trees: Vec<TreeInfo>,
    }
    struct Walk {
        pager: SharedPager,
        min_keys: usize,
        siblings: usize,
        owner: BTreeMap<u64, String>,
    }
    struct Tree<'a> {
        root: u64,
        name: &'a str,
        schema: &'a Schema,
        info: TreeInfo,
        /// (id, prev, next) of the leaves from left to right
        leaves: Vec<(u64, Option<u64>, Option<u64>)>,
        depth: Option<usize>,
        /// (leaf, slot) and stored bytes of the leaf cells
        cells: Vec<(u64, usize, Vec<u8>)>,
    }
    impl Walk {
        fn own(&mut self, id: u64, what: String) -> R<()> {
            if id == 0 {
                return Err(format!("page zero is used as {what}"));
            }
            match self.owner.insert(id, what.clone()) {
                None => Ok(()),
                Some(o) => Err(format!("page {id} has two owners: {o} / {what}")),
            }
        }
        fn links(&mut self, start: Option<u64>, what: &str) -> R<Vec<u64>> {
            let mut v = vec![];
            let mut cur = start;
            while let Some(id) = cur {
                self.own(id, what.to_string())?;
                v.push(id);
                cur = self
                    .pager
                    .write()
                    .with_page::<OverflowPage, _, _>(id, |o| o.metadata().next)
                    .map_err(|x| format!("page {id} ({what}): {x}"))?;
            }
            Ok(v)
        }
        fn tree(&self, root: u64) -> Btree<BtreeReadAccessor> {
            Btree::new(root, self.pager.clone(), self.min_keys, self.siblings).with_accessor(BtreeReadAccessor::new())
        }
        fn node(&mut self, t: &mut Tree, id: u64, depth: usize) -> R<()> {
            self.own(id, format!("a node of {}", t.name))?;
            t.info.nodes += 1;
            // (left child, overflow page, bytes)
            let (leaf, kids, prev, next);
            {
                let mut b = self.tree(t.root);
                let p = b.get_page(id).map_err(|x| format!("node {id} of {}: {x}", t.name))?;
                leaf = p.is_leaf();
                let mut v = vec![];
                for k in 0..p.num_slots() {
                    let c = p.cell(k);
                    let over = if c.is_overflow() { c.overflow_page() } else { None };
                    let left = c.left_child();
                    let bytes = if leaf {
                        let mut re = Reassembler::new(self.pager.clone());
                        re.reassemble(c).map_err(|x| format!("cell {k} of node {id} of {}: {x}", t.name))?;
                        re.into_boxed_slice().to_vec()
                    } else {
                        vec![]
                    };
                    v.push((left, over, bytes));
                }
                kids = (v, p.right_child());
                prev = p.prev_sibling();
                next = p.next_sibling();
            }
            if leaf {
                t.leaves.push((id, prev, next));
                if *t.depth.get_or_insert(depth) != depth {
                    return Err(format!("{}: leaf {id} is at depth {depth}, others at {}", t.name, t.depth.unwrap()));
                }
            }
            for (k, (left, over, bytes)) in kids.0.into_iter().enumerate() {
                t.info.links += self.links(over, &format!("the chain of cell {k} of node {id} of {}", t.name))?.len();
                if leaf {
                    t.cells.push((id, k, bytes));
                    t.info.cells += 1;
                } else {
                    let l = left.ok_or_else(|| format!("{}: interior node {id} has a cell without child", t.name))?;
                    self.node(t, l, depth + 1)?;
                }
            }
            if !leaf {
                let r = kids.1.ok_or_else(|| format!("{}: interior node {id} has no right child", t.name))?;
                self.node(t, r, depth + 1)?;
            }
            Ok(())
        }
        fn walk(&mut self, root: u64, name: &str, schema: &Schema) -> R<(TreeInfo, Vec<Vec<u8>>)> {
            let info = TreeInfo { name: name.into(), root, nodes: 0, links: 0, cells: 0, height: 0 };
            let mut t = Tree { root, name, schema, info, leaves: vec![], depth: None, cells: vec![] };
            self.node(&mut t, root, 1)?;
            t.info.height = t.depth.unwrap_or(0);
            // sibling links mirror the key order
            for (k, (id, prev, next)) in t.leaves.iter().enumerate() {
                let p = if k == 0 { None } else { Some(t.leaves[k - 1].0) };
                let n = t.leaves.get(k + 1).map(|x| x.0);
                if *prev != p || *next != n {
                    return Err(format!("{name}: leaf {id} has neighbours {prev:?}/{next:?}, but lies between {p:?} and {n:?}"));
                }
            }
            // every stored entry is found where it is
            for (leaf, slot, bytes) in &t.cells {
                let tuple = Tuple::from_slice_unchecked(bytes).map_err(|x| format!("{name}: cell {slot} of leaf {leaf}: {x}"))?;
                let mut b = self.tree(root);
                let f = b.search_tuple(&tuple, t.schema).map_err(|x| format!("{name}: searching the entry of cell {slot} of leaf {leaf}: {x}"))?;
                match f {
                    SearchResult::Found(p) if p.entry() == *leaf && p.slot() as usize == *slot => {}
                    SearchResult::Found(p) => return Err(format!("{name}: the entry in cell {slot} of leaf {leaf} is found in cell {} of leaf {}", p.slot(), p.entry())),
                    SearchResult::NotFound(_) => return Err(format!("{name}: the entry in cell {slot} of leaf {leaf} is not found")),
                }
            }
            Ok((t.info, t.cells.into_iter().map(|c| c.2).collect()))
        }
    }
    fn relations(cells: &[Vec<u8>]) -> R<Vec<Relation>> {
        let schema = meta_table_schema();
        let reader = TupleReader::from_schema(&schema);
        let mut v = vec![];
        for b in cells {
            for l in reader.parse_versions(b).map_err(e)? {
                let row = TupleRef::new(b, l).to_row_with(&schema).map_err(e)?;
                v.push(Relation::from_meta_table_row(row));
            }
        }
        Ok(v)
    }
    /// At a quiescent point: every page but zero has exactly one owner.
    pub fn audit(db: &Database) -> R<Report> {
        let pager = db.pager().clone();
        let (total, first, last, list, min_keys, siblings) = {
            let p = pager.read();
            let h = p.header_unchecked();
            (p.total_allocated_pages(), h.first_free_page, h.last_free_page, h.aborted_txs_list, p.min_keys_per_page(), p.num_siblings_per_side())
        };
        let mut w = Walk { pager, min_keys, siblings, owner: BTreeMap::new() };
        let mut r = Report { total, ..Default::default() };
        r.free = w.links(first, "a member of the free list")?;
        if r.free.last().copied() != last || first.is_some() != last.is_some() {
            return Err(format!("the free list {:?} ends elsewhere than at its recorded tail {last:?}", r.free));
        }
        r.aborted_list = w.links(list, "the list of aborted transactions")?.len();
        let (mt, cells) = w.walk(1, "the meta table", &meta_table_schema())?;
        let (mi, _) = w.walk(2, "the meta index", &meta_index_schema())?;
        r.trees.push(mt);
        r.trees.push(mi);
        // the last version says what the tree holds; a root occurs once per relation
        let mut roots: HashMap<u64, Relation> = HashMap::new();
        let mut order = vec![];
        for rel in relations(&cells)? {
            if !roots.contains_key(&rel.root()) {
                order.push(rel.root());
            }
            if let Some(o) = roots.get(&rel.root()) {
                if o.object_id() != rel.object_id() {
                    return Err(format!("{} and {} have the same root {}", o.name(), rel.name(), rel.root()));
                }
            } else {
                roots.insert(rel.root(), rel);
            }
        }
        for root in order {
            let rel = &roots[&root];
            let (i, _) = w.walk(root, rel.name(), rel.schema())?;
            r.trees.push(i);
        }
        if let Some(id) = w.owner.keys().find(|id| **id >= total) {
            return Err(format!("page {id} ({}) lies beyond the {total} pages of the file", w.owner[id]));
        }
        let lost: Vec<u64> = (1..total).filter(|id| !w.owner.contains_key(id)).collect();
        if !lost.is_empty() {
            return Err(format!("pages {lost:?} of {total} belong to nothing"));
        }
        Ok(r)
    }
}
