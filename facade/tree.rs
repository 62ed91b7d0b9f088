// The channels the task runner uses under the checker: the ordinary ones, except in mt.rs.
pub use std::sync::mpsc;
pub mod tree {
    use crate::DBConfig;
    use crate::io::pager::{Pager, SharedPager};
    use crate::schema::base::{Column, Schema};
    use crate::storage::cell::CellRef;
    use crate::storage::page::{BtreePage, OverflowPage};
    use crate::storage::tuple::{Row, Tuple, TupleBuilder, TupleReader, TupleRef};
    use crate::storage::{BtreeMetadata, BtreeOps};
    use crate::tree::accessor::{BtreeReadAccessor, BtreeWriteAccessor};
    use crate::tree::bplustree::{Btree, SearchResult};
    use crate::tree::cell_ops::Reassembler;
    use crate::types::{DataType, DataTypeKind};
    use std::path::Path;

    type R<T> = Result<T, String>;
    fn e<T: std::fmt::Display>(x: T) -> String {
        x.to_string()
    }

    pub struct Sch(Schema, Vec<DataTypeKind>);
    impl Sch {
        pub fn new(kinds: &[DataTypeKind], keys: usize, index: bool) -> Self {
            let cols = kinds
                .iter()
                .enumerate()
                .map(|(i, k)| Column::new_with_defaults(*k, &format!("c{i}")))
                .collect();
            Sch(
                if index { Schema::new_index(cols, keys) } else { Schema::new_table_with_num_keys(cols, keys) },
                kinds[..keys].to_vec(),
            )
        }
    }

    pub struct Store {
        pub pager: SharedPager,
        min_keys: usize,
        siblings: usize,
    }
    pub struct Cell {
        pub left: Option<u64>,
        pub chain: Vec<u64>,
        pub data: Vec<u8>,
        pub key: R<Vec<DataType>>,
        pub offset: usize,
        pub size: usize,
    }
    pub struct Node {
        pub id: u64,
        pub leaf: bool,
        pub cells: Vec<Cell>,
        pub right: Option<u64>,
        pub prev: Option<u64>,
        pub next: Option<u64>,
        pub usable: usize,
        pub slots_end: usize,
    }

    impl Store {
        pub fn new(path: &Path, page: usize, min_keys: usize, siblings: usize, cache: usize) -> R<Self> {
            let cfg = DBConfig::builder()
                .page_size(page)
                .cache_size(cache)
                .pool_size(1)
                .min_keys_per_page(min_keys)
                .num_siblings_per_side(siblings)
                .build();
            let pager = Pager::from_config(cfg, path).map_err(e)?;
            Ok(Store { pager: SharedPager::from(pager), min_keys, siblings })
        }
        pub fn total_pages(&self) -> u64 {
            self.pager.read().total_allocated_pages()
        }
        pub fn free_ends(&self) -> (Option<u64>, Option<u64>) {
            let p = self.pager.read();
            let h = p.header_unchecked();
            (h.first_free_page, h.last_free_page)
        }
        /// Follows `next` from `start`; stops (with the repeated id included) at a cycle.
        pub fn chain(&self, start: Option<u64>) -> R<Vec<u64>> {
            let mut v: Vec<u64> = vec![];
            let mut cur = start;
            while let Some(id) = cur {
                v.push(id);
                if v.len() > 1 << 20 || v[..v.len() - 1].contains(&id) {
                    return Err(format!("cycle in page chain {v:?}"));
                }
                cur = self
                    .pager
                    .write()
                    .with_page::<OverflowPage, _, _>(id, |o| o.metadata().next)
                    .map_err(e)?;
            }
            Ok(v)
        }
        pub fn new_tree(&self) -> R<u64> {
            self.pager.write().allocate_page::<BtreePage>().map_err(e)
        }
        pub fn w(&self, root: u64) -> Btree<BtreeWriteAccessor> {
            Btree::new(root, self.pager.clone(), self.min_keys, self.siblings).with_accessor(BtreeWriteAccessor::new())
        }
        pub fn r(&self, root: u64) -> Btree<BtreeReadAccessor> {
            Btree::new(root, self.pager.clone(), self.min_keys, self.siblings).with_accessor(BtreeReadAccessor::new())
        }
        fn tuple(s: &Sch, row: &[DataType]) -> R<Tuple> {
            TupleBuilder::from_schema(&s.0).build(&Row::from(row.to_vec()), 7).map_err(e)
        }
        /// op: 'i' insert, 'u' update, 'p' upsert
        pub fn put(&self, root: u64, s: &Sch, op: char, row: &[DataType]) -> R<()> {
            let t = Self::tuple(s, row)?;
            let mut b = self.w(root);
            match op {
                'i' => b.insert(root, t, &s.0),
                'u' => b.update(root, t, &s.0),
                _ => b.upsert(root, t, &s.0),
            }
            .map_err(e)
        }
        fn key(s: &Sch, row: &[DataType]) -> R<Option<Vec<u8>>> {
            if s.1.len() == 1 { Ok(Some(row[0].serialize().map_err(e)?.to_vec())) } else { Ok(None) }
        }
        /// `row`: any row with the keys to remove.
        pub fn remove(&self, root: u64, s: &Sch, row: &[DataType]) -> R<()> {
            let mut b = self.w(root);
            match Self::key(s, row)? {
                Some(k) => b.remove(root, &k, &s.0).map_err(e),
                None => b.remove_tuple(root, &Self::tuple(s, row)?, &s.0).map_err(e),
            }
        }
        fn decode(s: &Sch, b: &[u8]) -> R<Vec<DataType>> {
            let l = TupleReader::from_schema(&s.0).parse_last_version(b).map_err(e)?;
            Ok(TupleRef::new(b, l).to_row_with(&s.0).map_err(e)?.into_inner().into_vec())
        }
        pub fn get(&self, root: u64, s: &Sch, row: &[DataType]) -> R<Option<Vec<DataType>>> {
            let t = Self::tuple(s, row)?;
            let mut b = self.r(root);
            let by_tuple = b.search_tuple(&t, &s.0).map_err(e)?;
            let r1 = match by_tuple {
                SearchResult::Found(p) => Some(b.with_cell_at(p, |c| Self::decode(s, c)).map_err(e)??),
                SearchResult::NotFound(_) => None,
            };
            if let Some(k) = Self::key(s, row)? {
                let mut b = self.r(root);
                let r2 = match b.search(&k, &s.0).map_err(e)? {
                    SearchResult::Found(p) => Some(b.with_cell_at(p, |c| Self::decode(s, c)).map_err(e)??),
                    SearchResult::NotFound(_) => None,
                };
                if format!("{r1:?}") != format!("{r2:?}") {
                    return Err(format!("search {r2:?} and search_tuple {r1:?} disagree"));
                }
            }
            Ok(r1)
        }
        /// (page, row) of a forward scan.
        pub fn scan(&self, root: u64, s: &Sch) -> R<Vec<Vec<DataType>>> {
            let mut b = self.r(root);
            if b.is_empty().map_err(e)? {
                return Ok(vec![]);
            }
            let mut v = vec![];
            let mut n = 0;
            drop(b);
            let mut b = self.r(root);
            for p in b.iter_forward().map_err(e)? {
                let p = p.map_err(e)?;
                let mut t = self.r(root);
                v.push(t.with_cell_at(p, |c| Self::decode(s, c)).map_err(e)??);
                n += 1;
                if n > 1 << 20 {
                    return Err("endless scan".into());
                }
            }
            Ok(v)
        }
        pub fn height(&self, root: u64) -> R<usize> {
            self.r(root).height().map_err(e)
        }
        pub fn dealloc(&self, root: u64) -> R<()> {
            self.w(root).dealloc().map_err(e)
        }
        fn cell(&self, s: &Sch, c: CellRef<'_>, offset: usize) -> R<Cell> {
            let chain = if c.is_overflow() { self.chain(c.overflow_page())? } else { vec![] };
            let mut re = Reassembler::new(self.pager.clone());
            re.reassemble(c).map_err(e)?;
            let data = re.into_boxed_slice().to_vec();
            let mut cur = Tuple::keys_offset(s.0.num_values());
            let mut key = Ok(vec![]);
            for k in s.0.iter_keys() {
                match k.datatype().deserialize(&data, cur) {
                    Ok((v, next)) => {
                        cur = next;
                        if let Ok(key) = &mut key {
                            key.push(v.to_owned().unwrap_or(DataType::Null));
                        }
                    }
                    Err(x) => {
                        key = Err(x.to_string());
                        break;
                    }
                }
            }
            Ok(Cell { left: c.left_child(), chain, data, key, offset, size: c.total_size() })
        }
        pub fn node(&self, s: &Sch, id: u64) -> R<Node> {
            let mut b = self.r(id);
            let p = b.get_page(id).map_err(e)?;
            let slots: Vec<u16> = p.slot_array().to_vec();
            let mut cells = vec![];
            for i in 0..p.num_slots() {
                cells.push(self.cell(s, p.cell(i), slots[i] as usize)?);
            }
            Ok(Node {
                id,
                leaf: p.is_leaf(),
                cells,
                right: p.right_child(),
                prev: p.prev_sibling(),
                next: p.next_sibling(),
                usable: p.capacity(),
                slots_end: slots.len() * 2,
            })
        }
        pub fn flush(&self) -> R<()> {
            use std::io::Write;
            self.pager.write().flush().map_err(e)
        }
    }
}
include!("audit.rs");
