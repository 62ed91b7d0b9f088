//! Exact values (kind + bits), independent of AxmosDB's own equality.
use axmosdb::types::{Blob, DataType, DataTypeKind, Float32, Float64, Int32, Int64, UInt32, UInt64, bool::Bool};

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    N,
    B(bool),
    I(i32),
    L(i64),
    U(u32),
    UL(u64),
    F(u32),
    D(u64),
    S(Vec<u8>),
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::N => write!(f, "NULL"),
            Val::B(b) => write!(f, "{b}"),
            Val::I(v) => write!(f, "{v}i32"),
            Val::L(v) => write!(f, "{v}i64"),
            Val::U(v) => write!(f, "{v}u32"),
            Val::UL(v) => write!(f, "{v}u64"),
            Val::F(v) => write!(f, "{:?}f32", f32::from_bits(*v)),
            Val::D(v) => write!(f, "{:?}f64", f64::from_bits(*v)),
            Val::S(s) if s.len() <= 40 => write!(f, "{:?}", String::from_utf8_lossy(s)),
            Val::S(s) => write!(f, "{:?}..[{} bytes]", String::from_utf8_lossy(&s[..16]), s.len()),
        }
    }
}
pub fn blob_data(b: &Blob) -> Vec<u8> {
    b.data().map(|d| d.to_vec()).unwrap_or_else(|_| b"<undecodable blob>".to_vec())
}
impl Val {
    pub fn of(d: &DataType) -> Val {
        match d {
            DataType::Null => Val::N,
            DataType::Bool(b) => Val::B(b.0),
            DataType::Int(v) => Val::I(v.0),
            DataType::BigInt(v) => Val::L(v.0),
            DataType::UInt(v) => Val::U(v.0),
            DataType::BigUInt(v) => Val::UL(v.0),
            DataType::Float(v) => Val::F(v.0.to_bits()),
            DataType::Double(v) => Val::D(v.0.to_bits()),
            DataType::Blob(b) => Val::S(blob_data(b)),
        }
    }
    pub fn to(&self) -> DataType {
        match self {
            Val::N => DataType::Null,
            Val::B(b) => DataType::Bool(Bool(*b)),
            Val::I(v) => DataType::Int(Int32(*v)),
            Val::L(v) => DataType::BigInt(Int64(*v)),
            Val::U(v) => DataType::UInt(UInt32(*v)),
            Val::UL(v) => DataType::BigUInt(UInt64(*v)),
            Val::F(v) => DataType::Float(Float32(f32::from_bits(*v))),
            Val::D(v) => DataType::Double(Float64(f64::from_bits(*v))),
            Val::S(s) => DataType::Blob(Blob::from_unencoded_slice(s)),
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, Val::N)
    }
}
pub const KINDS: [DataTypeKind; 8] = [
    DataTypeKind::Int,
    DataTypeKind::Blob,
    DataTypeKind::Bool,
    DataTypeKind::BigInt,
    DataTypeKind::UInt,
    DataTypeKind::Double,
    DataTypeKind::Float,
    DataTypeKind::BigUInt,
];
pub fn vals(d: &[DataType]) -> Vec<Val> {
    d.iter().map(Val::of).collect()
}
