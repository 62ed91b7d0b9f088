// The channels the task runner uses under the checker: the ordinary ones, except in mt.rs.
pub use std::sync::mpsc;
pub mod wal {
    use crate::io::{disk::FileOperations, wal::WriteAheadLog};
    use crate::storage::wal::{OwnedRecord, RecordType};
    use std::{io, path::Path};

    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Rec {
        pub lsn: u64,
        pub tid: u64,
        pub prev: Option<u64>,
        pub oid: Option<u64>,
        pub row: Option<u64>,
        pub kind: u8,
        pub undo: Vec<u8>,
        pub redo: Vec<u8>,
    }

    fn kind(k: u8) -> RecordType {
        match k {
            0 => RecordType::Begin,
            1 => RecordType::Commit,
            2 => RecordType::Abort,
            3 => RecordType::End,
            6 => RecordType::Update,
            7 => RecordType::Delete,
            8 => RecordType::Insert,
            9 => RecordType::Create,
            10 => RecordType::Drop,
            11 => RecordType::Alter,
            _ => unreachable!("record kind {k}"),
        }
    }

    pub struct Log(WriteAheadLog);

    impl Log {
        pub fn create(p: &Path) -> io::Result<Self> {
            WriteAheadLog::create(p).map(Log)
        }
        pub fn open(p: &Path) -> io::Result<Self> {
            WriteAheadLog::open(p).map(Log)
        }
        pub fn push(&mut self, r: &Rec) -> io::Result<()> {
            self.0.push(OwnedRecord::new(
                r.lsn, r.tid, r.prev, r.oid, r.row, kind(r.kind), &r.undo, &r.redo,
            ))
        }
        pub fn force(&mut self) -> io::Result<()> {
            use std::io::Write;
            self.0.flush()
        }
        pub fn truncate(&mut self) -> io::Result<()> {
            self.0.truncate()
        }
        pub fn max_record(&self) -> usize {
            self.0.max_record_size()
        }
        pub fn last_lsn(&self) -> Option<u64> {
            self.0.last_lsn()
        }
        pub fn read_all(&mut self, read_ahead: usize, limit: usize) -> io::Result<Vec<Rec>> {
            let mut v = Vec::new();
            let mut rd = self.0.reader(read_ahead)?;
            while let Some(r) = rd.next_ref()? {
                let m = r.metadata();
                v.push(Rec {
                    lsn: r.lsn(),
                    tid: r.tid(),
                    prev: m.prev_lsn,
                    oid: m.object_id,
                    row: m.row_id,
                    kind: r.log_type() as u8,
                    undo: r.undo_payload().to_vec(),
                    redo: r.redo_payload().to_vec(),
                });
                if v.len() > limit {
                    return Err(io::Error::other("reader returned more records than ever appended"));
                }
            }
            Ok(v)
        }
        /// Per-transaction LSN chains as recovery's analysis pass sees them.
        pub fn analysis(&mut self) -> io::Result<Vec<(u64, Vec<u64>)>> {
            let a = self.0.run_analysis()?;
            Ok(a.lsn_chains.into_iter().collect())
        }
    }

    pub const RECORD_HEADER: usize = crate::storage::wal::RECORD_HEADER_SIZE;
}
