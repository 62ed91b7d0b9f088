include!("tree.rs");
pub mod types {
    use crate::types::{DataType, DataTypeKind, DataTypeRef};
    type R<T> = Result<T, String>;
    fn e<T: std::fmt::Display>(x: T) -> String {
        x.to_string()
    }
    /// Writes at `cursor`; returns the new cursor.
    pub fn write(v: &DataType, buf: &mut [u8], cursor: usize) -> R<usize> {
        v.write_to(buf, cursor).map_err(e)
    }
    pub fn bytes(v: &DataType) -> R<Vec<u8>> {
        v.serialize().map(|b| b.to_vec()).map_err(e)
    }
    pub fn size(v: &DataType) -> usize {
        v.runtime_size()
    }
    pub fn read(k: DataTypeKind, buf: &[u8], cursor: usize) -> R<(DataType, usize)> {
        let (r, c) = k.deserialize(buf, cursor).map_err(e)?;
        Ok((r.to_owned().unwrap_or(DataType::Null), c))
    }
    /// (eq, partial_cmp, hash equal) of the borrowed forms.
    pub fn ref_relations(ka: DataTypeKind, a: &[u8], kb: DataTypeKind, b: &[u8]) -> R<(bool, Option<std::cmp::Ordering>, u64, u64)> {
        fn h(v: &DataTypeRef<'_>) -> u64 {
            use std::hash::{DefaultHasher, Hash, Hasher};
            let mut s = DefaultHasher::new();
            v.hash(&mut s);
            s.finish()
        }
        let (ra, _) = ka.deserialize(a, 0).map_err(e)?;
        let (rb, _) = kb.deserialize(b, 0).map_err(e)?;
        Ok((ra == rb, ra.partial_cmp(&rb), h(&ra), h(&rb)))
    }
}
