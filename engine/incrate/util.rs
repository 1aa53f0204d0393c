//! Shared builders.
use std::sync::Arc;

use arrow_array::{Array, ArrayRef, Int64Array, RecordBatch, StringArray, UInt64Array};
use arrow_schema::{DataType, Field, Schema, SchemaRef};

pub const COMMIT: &str = crate::inmem::immutable::memtable::MVCC_COMMIT_COL;

pub fn kv_schema() -> SchemaRef {
    Arc::new(Schema::new(vec![
        Field::new("id", DataType::Utf8, false),
        Field::new("v", DataType::Int64, true),
    ]))
}

pub fn kv_batch(rows: &[(&str, Option<i64>)]) -> RecordBatch {
    let k: Vec<&str> = rows.iter().map(|r| r.0).collect();
    let v: Vec<Option<i64>> = rows.iter().map(|r| r.1).collect();
    RecordBatch::try_new(
        kv_schema(),
        vec![Arc::new(StringArray::from(k)) as ArrayRef, Arc::new(Int64Array::from(v)) as ArrayRef],
    )
    .expect("kv batch")
}

pub fn delete_schema() -> SchemaRef {
    Arc::new(Schema::new(vec![
        Field::new("id", DataType::Utf8, false),
        Field::new(COMMIT, DataType::UInt64, false),
    ]))
}

pub fn delete_batch(keys: &[&str], ts: u64) -> RecordBatch {
    RecordBatch::try_new(
        delete_schema(),
        vec![
            Arc::new(StringArray::from(keys.to_vec())) as ArrayRef,
            Arc::new(UInt64Array::from(vec![ts; keys.len()])) as ArrayRef,
        ],
    )
    .expect("delete batch")
}

pub fn ts_col(ts: u64, n: usize) -> ArrayRef {
    Arc::new(UInt64Array::from(vec![ts; n]))
}

/// Rows of a two column (id, v) batch.
pub fn kv_rows(b: &RecordBatch) -> Vec<(String, Option<i64>)> {
    let k = b.column(0).as_any().downcast_ref::<StringArray>().expect("id col");
    let v = b.column(1).as_any().downcast_ref::<Int64Array>().expect("v col");
    (0..b.num_rows())
        .map(|i| (k.value(i).to_string(), if v.is_null(i) { None } else { Some(v.value(i)) }))
        .collect()
}
pub fn key_rows(b: &RecordBatch) -> Vec<String> {
    let k = b.column(0).as_any().downcast_ref::<StringArray>().expect("id col");
    (0..b.num_rows()).map(|i| k.value(i).to_string()).collect()
}

/// Text of one cell (floats by bit pattern).
pub fn cell_text(a: &ArrayRef, i: usize) -> String {
    use arrow_array::*;
    if a.is_null(i) {
        return "null".into();
    }
    macro_rules! p { ($($t:ident => $e:expr),* $(,)?) => { $( if let Some(x) = a.as_any().downcast_ref::<$t>() { #[allow(clippy::redundant_closure_call)] return ($e)(x.value(i)); } )* } }
    p!(StringArray => |v: &str| format!("{v:?}"), LargeStringArray => |v: &str| format!("{v:?}"),
       Int64Array => |v: i64| v.to_string(), Int32Array => |v: i32| v.to_string(), Int16Array => |v: i16| v.to_string(), Int8Array => |v: i8| v.to_string(),
       UInt64Array => |v: u64| v.to_string(), UInt32Array => |v: u32| v.to_string(), UInt16Array => |v: u16| v.to_string(), UInt8Array => |v: u8| v.to_string(),
       BooleanArray => |v: bool| v.to_string(),
       Float64Array => |v: f64| format!("f{:016x}", v.to_bits()), Float32Array => |v: f32| format!("f{:08x}", v.to_bits()),
       BinaryArray => |v: &[u8]| format!("b{v:?}"), LargeBinaryArray => |v: &[u8]| format!("b{v:?}"), FixedSizeBinaryArray => |v: &[u8]| format!("b{v:?}"),
       TimestampMicrosecondArray => |v: i64| format!("us{v}"), TimestampMillisecondArray => |v: i64| format!("ms{v}"),
       TimestampNanosecondArray => |v: i64| format!("ns{v}"), TimestampSecondArray => |v: i64| format!("s{v}"), Date32Array => |v: i32| format!("d{v}"));
    format!("{:?}", a.slice(i, 1))
}

/// Canonical text of a record batch (schema names, types and all values).
pub fn batch_text(b: &RecordBatch) -> String {
    let mut s = String::new();
    for f in b.schema().fields() {
        s.push_str(&format!("{}:{:?}:{};", f.name(), f.data_type(), f.is_nullable()));
    }
    let mut md: Vec<_> = b.schema().metadata().iter().map(|(k, v)| format!("{k}={v}")).collect();
    md.sort();
    s.push_str(&format!("{md:?}"));
    for i in 0..b.num_rows() {
        s.push_str(" (");
        for c in b.columns() {
            s.push_str(&cell_text(c, i));
            s.push(',');
        }
        s.push(')');
    }
    s
}
