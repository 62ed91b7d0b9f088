// The channels the task runner uses under the checker: the ordinary ones, except in mt.rs.
pub use std::sync::mpsc;
pub mod tuple {
    use crate::DBConfig;
    use crate::io::pager::{Pager, SharedPager};
    use crate::multithreading::coordinator::{Snapshot, TransactionCoordinator, TransactionHandle};
    use crate::schema::base::{Column, Schema};
    use crate::storage::cell::OwnedCell;
    use crate::storage::tuple::{Row, Tuple, TupleBuilder, TupleReader, TupleRef};
    use crate::types::{DataType, DataTypeKind};
    use std::collections::{HashMap, HashSet};
    use std::path::Path;

    pub struct Sch(Schema);
    impl Sch {
        pub fn new(kinds: &[DataTypeKind], keys: usize) -> Self {
            let cols = kinds
                .iter()
                .enumerate()
                .map(|(i, k)| Column::new_with_defaults(*k, &format!("c{i}")))
                .collect();
            Sch(Schema::new_table_with_num_keys(cols, keys))
        }
    }

    pub struct Snap(Snapshot);
    impl Snap {
        pub fn new(xid: u64, xmin: u64, xmax: Option<u64>, active: &[u64], aborted: &[u64]) -> Self {
            Snap(Snapshot::new(
                xid,
                xmin,
                xmax,
                active.iter().copied().collect::<HashSet<_>>(),
                aborted.iter().copied().collect::<HashSet<_>>(),
            ))
        }
        pub fn xmin(&self) -> u64 {
            self.0.xmin()
        }
        pub fn xid(&self) -> u64 {
            self.0.xid()
        }
    }

    type R<T> = Result<T, String>;
    fn e<T: std::fmt::Display>(x: T) -> String {
        x.to_string()
    }

    #[derive(Clone)]
    pub struct Tup(Tuple);
    impl Tup {
        pub fn build(s: &Sch, row: Vec<DataType>, xmin: u64) -> R<Self> {
            TupleBuilder::from_schema(&s.0).build(&Row::from(row), xmin).map(Tup).map_err(e)
        }
        pub fn update(&mut self, s: &Sch, m: &HashMap<usize, DataType>, xid: u64) -> R<()> {
            self.0.add_version_with(m, xid, &s.0).map_err(e)
        }
        pub fn delete(&mut self, xid: u64) -> R<()> {
            self.0.delete(xid).map_err(e)
        }
        pub fn vacuum(&mut self, s: &Sch, horizon: u64, snap: &Snap) -> R<usize> {
            self.0.vaccum_with(horizon, &snap.0, &s.0).map_err(e)
        }
        pub fn versions(&self, s: &Sch) -> R<usize> {
            self.0.num_versions_with(&s.0).map_err(e)
        }
        pub fn has_history(&self, s: &Sch) -> bool {
            self.0.has_history_with(&s.0)
        }
        pub fn xmin(&self) -> u64 {
            self.0.xmin()
        }
        pub fn xmax(&self) -> Option<u64> {
            self.0.xmax()
        }
        pub fn bytes(&self) -> Vec<u8> {
            self.0.effective_data().to_vec()
        }
        pub fn from_bytes(b: &[u8]) -> R<Self> {
            Tuple::from_slice_unchecked(b).map(Tup).map_err(e)
        }
        /// The bytes as stored in a tree cell.
        pub fn cell_bytes(&self) -> Vec<u8> {
            OwnedCell::from_tuple(self.0.clone()).effective_data().to_vec()
        }
        pub fn decode(&self, s: &Sch, snap: &Snap) -> R<Option<Vec<DataType>>> {
            decode(s, self.0.effective_data(), snap)
        }
        pub fn decode_last(&self, s: &Sch) -> R<Vec<DataType>> {
            let rd = TupleReader::from_schema(&s.0);
            let l = rd.parse_last_version(self.0.effective_data()).map_err(e)?;
            let r = TupleRef::new(self.0.effective_data(), l).to_row_with(&s.0).map_err(e)?;
            Ok(r.into_inner().into_vec())
        }
        pub fn row_from_bytes(&self, s: &Sch) -> R<Vec<DataType>> {
            Row::from_bytes_checked(self.0.effective_data(), &s.0)
                .map(|r| r.into_inner().into_vec())
                .map_err(e)
        }
        pub fn row_from_bytes_snap(&self, s: &Sch, snap: &Snap) -> R<Option<Vec<DataType>>> {
            Row::from_bytes_checked_with_snapshot(self.0.effective_data(), &s.0, &snap.0)
                .map(|r| r.map(|r| r.into_inner().into_vec()))
                .map_err(e)
        }
    }
    pub fn decode(s: &Sch, b: &[u8], snap: &Snap) -> R<Option<Vec<DataType>>> {
        let rd = TupleReader::from_schema(&s.0);
        match rd.parse_for_snapshot(b, &snap.0).map_err(e)? {
            None => Ok(None),
            Some(l) => {
                let r = TupleRef::new(b, l).to_row_with(&s.0).map_err(e)?;
                Ok(Some(r.into_inner().into_vec()))
            }
        }
    }

    pub struct Coord(TransactionCoordinator);
    pub struct Txn(TransactionHandle, Snap);
    impl Coord {
        pub fn new(p: &Path) -> R<Self> {
            let cfg = DBConfig::builder().page_size(4096).cache_size(16).pool_size(1).build();
            let pager = Pager::from_config(cfg, p).map_err(e)?;
            Ok(Coord(TransactionCoordinator::new(SharedPager::from(pager))))
        }
        pub fn begin(&self) -> R<Txn> {
            let h = self.0.begin().map_err(e)?;
            let s = Snap(h.snapshot().clone());
            Ok(Txn(h, s))
        }
        pub fn snapshot(&self, xid: u64) -> R<Snap> {
            self.0.snapshot(xid).map(Snap).map_err(e)
        }
    }
    impl Txn {
        pub fn id(&self) -> u64 {
            self.0.id()
        }
        pub fn snap(&self) -> &Snap {
            &self.1
        }
        pub fn commit(&mut self) -> R<()> {
            self.0.commit().map_err(e)
        }
        pub fn abort(&mut self) -> R<()> {
            self.0.abort().map_err(e)
        }
    }
}
