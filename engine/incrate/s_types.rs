//! Column types on the whole database: every Arrow type the engine takes, in every place a row can
//! live (write buffer, sealed buffer, file, merged file, recovered log), must read back exactly.
use std::sync::Arc;

use arrow_array::{builder::*, types::*, *};
use arrow_buffer::IntervalMonthDayNano;
use arrow_schema::{DataType, Field, Fields, Schema, SchemaRef};

use super::{core::*, exec::{AssumeSend, VExec}, s_db::*, tracefs::TraceFs};
use crate::{ensure, query::Expr};

/// name, three values (the middle one null where the column may hold nulls)
fn types() -> Vec<(&'static str, ArrayRef)> {
    macro_rules! a { ($t:ident, [$a:expr, $b:expr]) => { Arc::new($t::from(vec![Some($a), None, Some($b)])) as ArrayRef }; }
    let mut v: Vec<(&'static str, ArrayRef)> = vec![
        ("bool", a!(BooleanArray, [true, false])),
        ("i8", a!(Int8Array, [i8::MIN, 7])),
        ("i16", a!(Int16Array, [i16::MIN, 7])),
        ("i32", a!(Int32Array, [i32::MIN, 7])),
        ("i64", a!(Int64Array, [i64::MIN, i64::MAX])),
        ("u8", a!(UInt8Array, [0, u8::MAX])),
        ("u16", a!(UInt16Array, [0, u16::MAX])),
        ("u32", a!(UInt32Array, [0, u32::MAX])),
        ("u64", a!(UInt64Array, [0, u64::MAX])),
        ("f32", a!(Float32Array, [-0.5, f32::MAX])),
        ("f64", a!(Float64Array, [-0.5, f64::MAX])),
        ("utf8", a!(StringArray, ["", "\u{10ffff}x"])),
        ("large_utf8", a!(LargeStringArray, ["", "\u{10ffff}x"])),
        ("utf8_view", a!(StringViewArray, ["", "a string longer than twelve bytes"])),
        ("binary", a!(BinaryArray, [b"".as_slice(), b"\x00\xff".as_slice()])),
        ("large_binary", a!(LargeBinaryArray, [b"".as_slice(), b"\x00\xff".as_slice()])),
        ("binary_view", a!(BinaryViewArray, [b"".as_slice(), b"bytes longer than twelve".as_slice()])),
        ("date32", a!(Date32Array, [-1, 20000])),
        ("date64", a!(Date64Array, [-86_400_000, 86_400_000])),
        ("time32s", a!(Time32SecondArray, [0, 86399])),
        ("time32ms", a!(Time32MillisecondArray, [0, 86399])),
        ("time64us", a!(Time64MicrosecondArray, [0, 86399])),
        ("time64ns", a!(Time64NanosecondArray, [0, 86399])),
        ("ts_s", a!(TimestampSecondArray, [-1, 1_700_000_000])),
        ("ts_ms", a!(TimestampMillisecondArray, [-1, 1_700_000_000_000])),
        ("ts_us", a!(TimestampMicrosecondArray, [-1, 1_700_000_000_000_000])),
        ("ts_ns", a!(TimestampNanosecondArray, [-1, 1_700_000_000_000_000_000])),
        ("ts_utc", Arc::new(TimestampMicrosecondArray::from(vec![Some(-1), None, Some(5)]).with_timezone("UTC"))),
        ("duration", a!(DurationMicrosecondArray, [-1, 5])),
        ("interval", a!(IntervalMonthDayNanoArray, [IntervalMonthDayNano::new(1, 2, 3), IntervalMonthDayNano::new(0, 0, -1)])),
        ("decimal128", Arc::new(Decimal128Array::from(vec![Some(-1), None, Some(12345)]).with_precision_and_scale(10, 2).unwrap())),
    ];
    v.push(("fixed_binary", Arc::new(FixedSizeBinaryArray::try_from_sparse_iter_with_size(vec![Some(b"ab".to_vec()), None, Some(b"\x00\xff".to_vec())].into_iter(), 2).unwrap())));
    v.push(("list", Arc::new(ListArray::from_iter_primitive::<Int32Type, _, _>(vec![Some(vec![Some(1), None]), None, Some(vec![])]))));
    v.push(("large_list", Arc::new(LargeListArray::from_iter_primitive::<Int32Type, _, _>(vec![Some(vec![Some(1), None]), None, Some(vec![])]))));
    v.push(("fixed_list", Arc::new(FixedSizeListArray::from_iter_primitive::<Int32Type, _, _>(vec![Some(vec![Some(1), None]), None, Some(vec![Some(3), Some(4)])], 2))));
    let mut lb = ListBuilder::new(LargeStringBuilder::new());
    lb.append_value([Some("x"), None]);
    lb.append_null();
    lb.append_value([Some("")]);
    v.push(("list_large_utf8", Arc::new(lb.finish())));
    let fields: Fields = vec![Field::new("x", DataType::Int32, true), Field::new("y", DataType::Utf8, false)].into();
    v.push((
        "struct",
        Arc::new(StructArray::new(
            fields,
            vec![Arc::new(Int32Array::from(vec![Some(1), None, None])), Arc::new(StringArray::from(vec!["p", "", "q"]))],
            Some(vec![true, false, true].into()),
        )),
    ));
    let mut mb = MapBuilder::new(None, StringBuilder::new(), Int32Builder::new());
    mb.keys().append_value("k1");
    mb.values().append_value(1);
    mb.keys().append_value("k2");
    mb.values().append_null();
    mb.append(true).unwrap();
    mb.append(false).unwrap();
    mb.append(true).unwrap();
    v.push(("map", Arc::new(mb.finish())));
    v.push(("dict", Arc::new(DictionaryArray::<Int32Type>::from_iter(vec![Some("x"), None, Some("y")]))));
    v
}
/// Known finding: the row views have no representation for these.
const UNREADABLE: [&str; 4] = ["utf8_view", "binary_view", "interval", "decimal128"];

#[derive(Clone, Copy, Debug)]
enum Place {
    Buffer,
    Sealed,
    File,
    Merged,
    Split,
    Log,
    FileAfterReopen,
}
use Place::*;

fn check_value(name: &str, a: &ArrayRef, p: Place, rec: &mut Rec) -> R {
    let schema: SchemaRef = Arc::new(Schema::new(vec![Field::new("k", DataType::Utf8, false), Field::new("v", a.data_type().clone(), true)]));
    let o = Opts { table: Some((schema.clone(), 1)), ..Opts::default() };
    let (fs, exec) = (TraceFs::new(), VExec::new());
    let mut node = open_with(&fs, &exec, &o)?;
    let batch = |rows: &[(&str, usize)]| {
        let k: ArrayRef = Arc::new(StringArray::from(rows.iter().map(|r| r.0).collect::<Vec<_>>()));
        let idx = UInt32Array::from(rows.iter().map(|r| r.1 as u32).collect::<Vec<_>>());
        RecordBatch::try_new(schema.clone(), vec![k, arrow_select::take::take(a, &idx, None).unwrap()]).unwrap()
    };
    let w = |n: &Node, rows: &[(&str, usize)]| -> R {
        let b = batch(rows);
        estr(n.write_batch(b, vec![false; rows.len()])?, "write")
    };
    // b: null then overwritten, a and c keep their first version
    w(&node, &[("a", 0), ("b", 1), ("c", 2), ("d", 1)])?;
    if matches!(p, Split | Merged) {
        node.seal()?;
        estr(node.flush()?, "flush")?;
    }
    w(&node, &[("b", 0), ("c", 1)])?;
    match p {
        Buffer | Log | Split => {}
        Sealed => node.seal()?,
        File | FileAfterReopen | Merged => {
            node.seal()?;
            estr(node.flush()?, "flush")?;
        }
    }
    if matches!(p, Merged) {
        node.compact(None)?;
    }
    if matches!(p, Log | FileAfterReopen) {
        node.stop(matches!(p, FileAfterReopen))?;
        node = open_with(&fs, &exec, &o)?;
    }
    rec.steps(4);
    let want = batch(&[("a", 0), ("b", 0), ("c", 1), ("d", 1)]);
    let db = node.db.clone();
    let got = node.exec.block_on(AssumeSend(async move { db.scan().collect().await.map_err(|e| e.to_string()) }))?;
    let got = estr(got, name)?;
    let got = arrow_select::concat::concat_batches(&schema, &got).map_err(|e| Fail::Bad(format!("{name}: result has another schema: {e}")))?;
    rec.eval();
    rec.state(&format!("{name}{p:?}"));
    ensure!(got == want, "{name} column in {p:?}: read {got:?}, written {want:?}");
    Ok(())
}

pub fn run(ctx: &Ctx) {
    if ctx.prop == "C20" {
        return run_filters(ctx);
    }
    let ts = types();
    let pl = [Buffer, Sealed, File, Merged, Split, Log, FileAfterReopen];
    let cases: Vec<(usize, Place)> = (0..ts.len()).flat_map(|i| pl.iter().map(move |p| (i, *p))).collect();
    let s = ctx.suite("db.types", format!("value types {:?} x {pl:?}", ts.iter().map(|t| t.0).collect::<Vec<_>>()));
    s.par_cases(&cases, |c| format!("{}/{:?}", ts[c.0].0, c.1), |c, rec| {
        let (name, a) = &ts[c.0];
        match check_value(name, a, c.1, rec) {
            // accepted at write time, refused when it is read or flushed
            Err(Fail::Bad(m)) if UNREADABLE.contains(name) && (m.contains("unsupported data type") || m.contains("NYI: Attempting to write an Arrow interval")) => {
                Err(Fail::Known("unreadable-types", format!("{name} column accepted by writes but not readable: {m}")))
            }
            r => r,
        }
    });
}

/// Filters on the value column of every type: the comparisons with the stored values and the null
/// tests, judged by the column's own order.
fn check_filter(name: &str, a: &ArrayRef, place: Place, rec: &mut Rec) -> R {
    use datafusion_common::ScalarValue;
    let schema: SchemaRef = Arc::new(Schema::new(vec![Field::new("k", DataType::Utf8, false), Field::new("v", a.data_type().clone(), true)]));
    let o = Opts { table: Some((schema.clone(), 1)), ..Opts::default() };
    let node = open_with(&TraceFs::new(), &VExec::new(), &o)?;
    let k: ArrayRef = Arc::new(StringArray::from(vec!["a", "b", "c"]));
    estr(node.write_batch(RecordBatch::try_new(schema.clone(), vec![k, a.clone()]).unwrap(), vec![false; 3])?, "write")?;
    if !matches!(place, Buffer) {
        node.seal()?;
    }
    if matches!(place, File) {
        estr(node.flush()?, "flush")?;
    }
    rec.steps(2);
    let vals: Vec<ScalarValue> = (0..3).map(|i| ScalarValue::try_from_array(a, i).unwrap()).collect();
    let mut exprs: Vec<(String, Expr, [Option<bool>; 3])> = vec![];
    let nulls = [0, 1, 2].map(|i| Some(a.is_null(i)));
    exprs.push(("is null".into(), Expr::is_null("v"), nulls));
    exprs.push(("is not null".into(), Expr::is_not_null("v"), nulls.map(|x| x.map(|x| !x))));
    if !a.data_type().is_nested() && !matches!(a.data_type(), DataType::Dictionary(..)) {
        for l in [0, 2] {
            let lit = vals[l].clone();
            let ord = [0, 1, 2].map(|i| if a.is_null(i) { None } else { vals[i].partial_cmp(&lit) });
            type P = fn(std::cmp::Ordering) -> bool;
            let ops: [(&str, Expr, P); 6] = [
                ("=", Expr::eq("v", lit.clone()), |o| o.is_eq()),
                ("!=", Expr::not_eq("v", lit.clone()), |o| o.is_ne()),
                ("<", Expr::lt("v", lit.clone()), |o| o.is_lt()),
                ("<=", Expr::lt_eq("v", lit.clone()), |o| o.is_le()),
                (">", Expr::gt("v", lit.clone()), |o| o.is_gt()),
                (">=", Expr::gt_eq("v", lit.clone()), |o| o.is_ge()),
            ];
            for (n, e, p) in ops {
                exprs.push((format!("{n}{lit:?}"), e, ord.map(|o| o.map(p))));
            }
            exprs.push((format!("in {lit:?}"), Expr::in_list("v", vec![lit.clone()]), ord.map(|o| o.map(|o| o.is_eq()))));
        }
    }
    for (what, e, want) in exprs {
        let db = node.db.clone();
        for (neg, e) in [(false, e.clone()), (true, Expr::not(e))] {
            let want: Vec<&str> = (0..3).filter(|i| want[*i] == Some(!neg)).map(|i| ["a", "b", "c"][i]).collect();
            let db = db.clone();
            let got = node.exec.block_on(AssumeSend(async move { db.scan().filter(e).collect().await.map_err(|e| e.to_string()) }))?;
            let got = estr(got, &format!("{name} {what}"))?;
            let got: Vec<String> = got
                .iter()
                .flat_map(|b| b.column(0).as_any().downcast_ref::<StringArray>().unwrap().iter().map(|s| s.unwrap().to_string()).collect::<Vec<_>>())
                .collect();
            rec.eval();
            ensure!(got == want, "{name} column in {place:?}, filter {}(v {what}): keys {got:?}, expected {want:?}", if neg { "not " } else { "" });
        }
    }
    Ok(())
}
pub fn run_filters(ctx: &Ctx) {
    let ts: Vec<_> = types().into_iter().filter(|t| !UNREADABLE.contains(&t.0)).collect();
    let cases: Vec<(usize, Place)> = (0..ts.len()).flat_map(|i| [Buffer, Sealed, File].map(move |p| (i, p))).collect();
    let s = ctx.suite("db.type_filters", format!("value types {:?} x buffer, sealed buffer, file x every comparison with a stored value, null tests, membership and their negations", ts.iter().map(|t| t.0).collect::<Vec<_>>()));
    s.par_cases(&cases, |c| format!("{}/{:?}", ts[c.0].0, c.1), |c, rec| check_filter(ts[c.0].0, &ts[c.0].1, c.1, rec));
}
