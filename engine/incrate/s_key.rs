//! Key order suite: all pairs of keys from boundary domains of every accepted key type, extracted by
//! the real key projection, compared with the rank of the column values.
use std::{
    cmp::Ordering,
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    sync::Arc,
};

use arrow_array::*;
use arrow_schema::{DataType, Field, Schema};

use super::core::*;
use crate::{
    ensure,
    extractor::{self, KeyExtractError},
    key::{KeyOwned, KeyRow, KeyTsOwned, KeyTsViewRaw},
    mvcc::Timestamp,
};

/// A column in ascending value order; `rank[i]` equal means equal keys.
#[derive(Clone)]
struct Col {
    name: &'static str,
    arr: ArrayRef,
    rank: Vec<usize>,
}

fn uniq(name: &'static str, arr: ArrayRef) -> Col {
    let n = arr.len();
    Col { name, arr, rank: (0..n).collect() }
}

fn cols() -> Vec<Col> {
    let strs = vec!["", "\0", "\0\0", "A", "a", "a\0", "a\0b", "aa", "ab", "b", "ba", "z", "\u{7f}", "é", "日", "\u{10000}", "\u{10ffff}"];
    let bins: Vec<&[u8]> = vec![b"", b"\x00", b"\x00\x00", b"\x00\x01", b"\x01", b"a", b"a\x00", b"ab", b"\x7f", b"\x80", b"\xff", b"\xff\x00", b"\xff\xff"];
    let fx: Vec<&[u8]> = vec![b"\x00\x00", b"\x00\x01", b"\x01\x00", b"\x7f\xff", b"\x80\x00", b"\xff\x00", b"\xff\xff"];
    let f64s = vec![f64::NEG_INFINITY, f64::MIN, -1.5, -f64::MIN_POSITIVE, -5e-324, -0.0, 0.0, 5e-324, 0.1, 0.3, 1.0, 1e23, 9007199254740993.0, 123456.789e-10, f64::MAX, f64::INFINITY, f64::NAN, -f64::NAN, f64::from_bits(0x7ff0000000000001)];
    let f64r = vec![0, 1, 2, 3, 4, 5, 5, 6, 7, 8, 9, 11, 10, 6, 12, 13, 14, 14, 14];
    // put the two out-of-order literals at their rank
    let mut fr: Vec<(usize, f64)> = f64r.into_iter().zip(f64s).collect();
    fr[13].0 = 100; // replaced below by value order
    fr.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or_else(|| a.1.is_nan().cmp(&b.1.is_nan())));
    let mut ranks = vec![0];
    for w in fr.windows(2) {
        let same = w[0].1 == w[1].1 || (w[0].1.is_nan() && w[1].1.is_nan());
        ranks.push(ranks.last().unwrap() + !same as usize);
    }
    let f32s = vec![f32::NEG_INFINITY, f32::MIN, -1.5, -f32::MIN_POSITIVE, -1e-45, -0.0, 0.0, 1e-45, 0.1, 0.3, 1.0, 16777216.0, 1e23, f32::MAX, f32::INFINITY, f32::NAN, -f32::NAN];
    let f32r = vec![0, 1, 2, 3, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 14];
    vec![
        uniq("bool", Arc::new(BooleanArray::from(vec![false, true]))),
        uniq("i32", Arc::new(Int32Array::from(vec![i32::MIN, -256, -1, 0, 1, 127, 128, 255, 256, i32::MAX]))),
        uniq("i64", Arc::new(Int64Array::from(vec![i64::MIN, i32::MIN as i64 - 1, -1, 0, 1, i32::MAX as i64 + 1, 1 << 53, (1 << 53) + 1, i64::MAX]))),
        uniq("u32", Arc::new(UInt32Array::from(vec![0, 1, 255, 256, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX]))),
        uniq("u64", Arc::new(UInt64Array::from(vec![0, 1, u32::MAX as u64 + 1, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX]))),
        Col { name: "f64", arr: Arc::new(Float64Array::from(fr.iter().map(|x| x.1).collect::<Vec<_>>())), rank: ranks },
        Col { name: "f32", arr: Arc::new(Float32Array::from(f32s)), rank: f32r },
        uniq("utf8", Arc::new(StringArray::from(strs.clone()))),
        uniq("large_utf8", Arc::new(LargeStringArray::from(strs))),
        uniq("binary", Arc::new(BinaryArray::from(bins.clone()))),
        uniq("large_binary", Arc::new(LargeBinaryArray::from(bins))),
        uniq("fixed2", Arc::new(FixedSizeBinaryArray::try_from(fx).unwrap())),
    ]
}

/// Cross product of columns as a composite key batch, with rank vectors.
fn product(cs: &[Col], take: usize) -> (RecordBatch, Vec<Vec<usize>>) {
    let mut idx: Vec<Vec<usize>> = vec![vec![]];
    for c in cs {
        let n = c.arr.len();
        let pick: Vec<usize> = if n <= take { (0..n).collect() } else { (0..take).map(|i| i * (n - 1) / (take - 1)).collect() };
        let mut next = vec![];
        for p in &idx {
            for &i in &pick {
                let mut q = p.clone();
                q.push(i);
                next.push(q);
            }
        }
        idx = next;
    }
    let ranks = idx.iter().map(|p| p.iter().enumerate().map(|(c, i)| cs[c].rank[*i]).collect()).collect();
    let mut fields = vec![];
    let mut arrays = vec![];
    for (c, col) in cs.iter().enumerate() {
        let sel = UInt64Array::from(idx.iter().map(|p| p[c] as u64).collect::<Vec<_>>());
        arrays.push(arrow_select::take::take(&col.arr, &sel, None).unwrap());
        fields.push(Field::new(format!("c{c}"), col.arr.data_type().clone(), false));
    }
    (RecordBatch::try_new(Arc::new(Schema::new(fields)), arrays).unwrap(), ranks)
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

fn check_batch(batch: &RecordBatch, keycols: Vec<usize>, ranks: &[Vec<usize>], rec: &mut Rec) -> R {
    let n = batch.num_rows();
    let e = extractor::projection_for_columns(batch.schema(), keycols.clone()).map_err(|e| Fail::Bad(format!("projection refused: {e}")))?;
    ensure!(e.key_indices() == keycols.as_slice(), "key indices {:?}", e.key_indices());
    let rows: Vec<usize> = (0..n).collect();
    let views = e.project_view(batch, &rows).map_err(|e| Fail::Bad(format!("extraction failed: {e}")))?;
    // the same keys out of reversed row order and out of slices
    let rev: Vec<usize> = (0..n).rev().collect();
    let views_rev = e.project_view(batch, &rev).map_err(|e| Fail::Bad(e.to_string()))?;
    let owned: Vec<KeyOwned> = views.iter().map(|v| v.to_owned()).collect();
    let stored: Vec<KeyOwned> = owned
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let j = serde_json::to_string(k).map_err(|e| Fail::Bad(format!("key {i} does not serialise: {e}")))?;
            serde_json::from_str(&j).map_err(|e| Fail::Bad(format!("key {i} stored as {j} cannot be restored: {e}")))
        })
        .collect::<R<_>>()?;
    let back: Vec<KeyRow> = owned.iter().map(|k| KeyRow::from_owned(k).unwrap()).collect();
    for i in 0..n {
        rec.state(&format!("{:?}", owned[i].as_row().cells()));
        ensure!(views_rev[n - 1 - i] == views[i], "row {i} extracted differently in another row order");
        let sl = batch.slice(i, 1);
        let v = e.project_view(&sl, &[0]).map_err(|e| Fail::Bad(e.to_string()))?;
        ensure!(v[0] == views[i] && h(&v[0]) == h(&views[i]), "row {i} extracted differently from a slice");
        ensure!(views[i].len() == keycols.len() && owned[i].len() == keycols.len(), "key width");
    }
    for i in 0..n {
        for j in 0..n {
            let want = ranks[i].cmp(&ranks[j]);
            rec.eval();
            let d = || format!("keys {:?} and {:?}", owned[i].as_row().cells(), owned[j].as_row().cells());
            ensure!(views[i].cmp(&views[j]) == want, "{}: borrowed order {:?}, column order {want:?}", d(), views[i].cmp(&views[j]));
            ensure!(views[i].partial_cmp(&views[j]) == Some(want), "{}: partial order", d());
            ensure!(owned[i].cmp(&owned[j]) == want, "{}: owned order {:?}, column order {want:?}", d(), owned[i].cmp(&owned[j]));
            ensure!(owned[i].partial_cmp(&owned[j]) == Some(want), "{}: owned partial order", d());
            ensure!(stored[i].cmp(&owned[j]) == want, "{}: order after storing {:?}, column order {want:?}", d(), stored[i].cmp(&owned[j]));
            ensure!(back[i].cmp(&views[j]) == want, "{}: order of rebuilt view", d());
            ensure!(views[i].partial_cmp(&owned[j]) == Some(want), "{}: borrowed vs owned order", d());
            ensure!(owned[i].partial_cmp(&views[j]) == Some(want), "{}: owned vs borrowed order", d());
            let eq = want == Ordering::Equal;
            ensure!((views[i] == views[j]) == eq, "{}: borrowed equality {}", d(), !eq);
            ensure!((owned[i] == owned[j]) == eq, "{}: owned equality {}", d(), !eq);
            ensure!((views[i] == owned[j]) == eq && (owned[i] == views[j]) == eq, "{}: mixed equality", d());
            ensure!((stored[i] == owned[j]) == eq, "{}: equality after storing", d());
            if eq {
                ensure!(h(&views[i]) == h(&views[j]) && h(&owned[i]) == h(&owned[j]), "{}: equal keys hash differently", d());
                ensure!(h(&views[i]) == h(&owned[j]) && h(&stored[i]) == h(&owned[j]), "{}: owned and borrowed key hash differently", d());
            }
        }
    }
    // versions: key ascending, newer first
    let lim = n.min(24);
    let tss = [0u64, 1, 2, 1 << 40, u64::MAX];
    for i in 0..lim {
        for j in 0..lim {
            for a in tss {
                for b in tss {
                    let want = ranks[i].cmp(&ranks[j]).then(b.cmp(&a));
                    let (va, vb) = (KeyTsViewRaw::new(views[i].clone(), Timestamp::new(a)), KeyTsViewRaw::from_owned(&owned[j], Timestamp::new(b)));
                    let (oa, ob) = (KeyTsOwned::new(owned[i].clone(), Timestamp::new(a)), KeyTsOwned::from((owned[j].clone(), Timestamp::new(b))));
                    rec.eval();
                    ensure!(va.cmp(&vb) == want && oa.cmp(&ob) == want && oa.as_raw_view().cmp(&vb) == want, "version order of ({:?},{a}) and ({:?},{b}): {:?}/{:?}, expected {want:?}", owned[i].as_row().cells(), owned[j].as_row().cells(), va.cmp(&vb), oa.cmp(&ob));
                    ensure!((va == vb) == (want == Ordering::Equal) && (oa == ob) == (want == Ordering::Equal), "version equality");
                    ensure!(want != Ordering::Equal || (h(&va) == h(&vb) && h(&oa) == h(&ob)), "version hash");
                    ensure!(va.timestamp().get() == a && oa.timestamp().get() == a, "timestamp accessor");
                }
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let cs = cols();
    let s = ctx.suite("key.single", "every accepted key type, all ordered pairs of its boundary values: order/equality/hash of borrowed, owned, stored and mixed keys; all version pairs over 5 timestamps");
    s.par_cases(&cs, |c| c.name.to_string(), |c, rec| {
        let b = RecordBatch::try_new(
            Arc::new(Schema::new(vec![Field::new("x", DataType::Int32, true), Field::new("k", c.arr.data_type().clone(), false)])),
            vec![Arc::new(Int32Array::from(vec![7; c.arr.len()])) as ArrayRef, c.arr.clone()],
        )
        .unwrap();
        check_batch(&b, vec![1], &c.rank.iter().map(|r| vec![*r]).collect::<Vec<_>>(), rec)
    });
    drop(s);
    let mut pairs = vec![];
    for a in 0..cs.len() {
        for b in 0..cs.len() {
            pairs.push((a, b));
        }
    }
    let take = ctx.by(5, 8);
    let s = ctx.suite("key.composite2", format!("every ordered pair of key types, {take} boundary values each, both column orders, all key pairs"));
    s.par_cases(&pairs, |(a, b)| format!("{}+{}", cs[*a].name, cs[*b].name), |&(a, b), rec| {
        let (batch, ranks) = product(&[cs[a].clone(), cs[b].clone()], take);
        check_batch(&batch, vec![0, 1], &ranks, rec)?;
        let swapped: Vec<Vec<usize>> = ranks.iter().map(|r| vec![r[1], r[0]]).collect();
        check_batch(&batch, vec![1, 0], &swapped, rec)
    });
    drop(s);
    let t3: Vec<(usize, usize, usize)> = [0, 2, 7, 9].iter().flat_map(|a| [2, 6, 7].iter().flat_map(move |b| [1, 7, 11].iter().map(move |c| (*a, *b, *c)))).collect();
    let take = ctx.by(3, 5);
    let s = ctx.suite("key.composite3", format!("triples of key types, {take} values each, all key pairs"));
    s.par_cases(&t3, |(a, b, c)| format!("{}+{}+{}", cs[*a].name, cs[*b].name, cs[*c].name), |&(a, b, c), rec| {
        let (batch, ranks) = product(&[cs[a].clone(), cs[b].clone(), cs[c].clone()], take);
        check_batch(&batch, vec![0, 1, 2], &ranks, rec)
    });
    drop(s);
    // every arrow type: either refused when the key is declared or ordered like its values
    let s = ctx.suite("key.types", "one representative of each arrow data type: refused at definition, or distinct values are distinct keys in column order");
    s.case("types", |rec| {
        use arrow_schema::{TimeUnit, UnionFields, UnionMode};
        let mut vals: Vec<(DataType, Option<ArrayRef>)> = vec![
            (DataType::Int8, Some(Arc::new(Int8Array::from(vec![-1, 0, 5])))),
            (DataType::Int16, Some(Arc::new(Int16Array::from(vec![-1, 0, 5])))),
            (DataType::UInt8, Some(Arc::new(UInt8Array::from(vec![0, 1, 255])))),
            (DataType::UInt16, Some(Arc::new(UInt16Array::from(vec![0, 1, 65535])))),
            (DataType::Date32, Some(Arc::new(Date32Array::from(vec![-1, 0, 5])))),
            (DataType::Date64, Some(Arc::new(Date64Array::from(vec![-1, 0, 5])))),
            (DataType::Timestamp(TimeUnit::Microsecond, None), Some(Arc::new(TimestampMicrosecondArray::from(vec![-1, 0, 5])))),
            (DataType::Utf8View, Some(Arc::new(StringViewArray::from(vec!["", "a", "b"])))),
        ];
        let ids = Int8Array::from(vec![0i8, 0, 0]);
        let uf = UnionFields::new(vec![0i8, 1], vec![Field::new("i", DataType::Int64, false), Field::new("s", DataType::Utf8, false)]);
        let u = UnionArray::try_new(
            uf.clone(),
            ids.values().clone(),
            Some(vec![0i32, 1, 2].into()),
            vec![Arc::new(Int64Array::from(vec![1, 2, 3])), Arc::new(StringArray::from(Vec::<&str>::new()))],
        )
        .unwrap();
        vals.push((DataType::Union(uf, UnionMode::Dense), Some(Arc::new(u))));
        vals.push((DataType::Null, None));
        vals.push((DataType::new_list(DataType::Int64, true), None));
        for (dt, arr) in vals {
            rec.step();
            let schema = Arc::new(Schema::new(vec![Field::new("k", dt.clone(), false)]));
            match extractor::projection_for_columns(schema.clone(), vec![0]) {
                Err(KeyExtractError::UnsupportedType { .. }) => continue,
                Err(e) => return bad(format!("{dt}: unexpected refusal {e}")),
                Ok(_) => {
                    let Some(arr) = arr else { return bad(format!("{dt} accepted as a key type")) };
                    let b = RecordBatch::try_new(schema, vec![arr]).unwrap();
                    check_batch(&b, vec![0], &[vec![0], vec![1], vec![2]], rec).map_err(|f| match f {
                        Fail::Bad(m) => Fail::Bad(format!("key type {dt} is accepted but {m}")),
                        k => k,
                    })?;
                }
            }
        }
        Ok(())
    });
    drop(s);
    let s = ctx.suite("key.null", "null in each position of single and composite keys");
    s.case("nulls", |rec| {
        for bad_row in 0..3usize {
            for bad_col in 0..2usize {
                let f = |c: usize| -> ArrayRef { Arc::new(Int64Array::from((0..3).map(|r| if r == bad_row && c == bad_col { None } else { Some(r as i64) }).collect::<Vec<_>>())) };
                let schema = Arc::new(Schema::new(vec![Field::new("a", DataType::Int64, true), Field::new("b", DataType::Int64, true)]));
                let b = RecordBatch::try_new(schema.clone(), vec![f(0), f(1)]).unwrap();
                for cols in [vec![0], vec![1], vec![0, 1], vec![1, 0]] {
                    let e = extractor::projection_for_columns(schema.clone(), cols.clone()).unwrap();
                    for r in 0..3 {
                        rec.eval();
                        let refused = e.project_view(&b, &[r]).is_err();
                        let want = r == bad_row && cols.contains(&bad_col);
                        ensure!(refused == want, "null at row {bad_row} column {bad_col}, key columns {cols:?}: extracting row {r} refused={refused}");
                    }
                    ensure!(e.project_view(&b, &[0, 1, 2]).is_err() == cols.contains(&bad_col), "whole-batch extraction with a null key");
                    ensure!(e.project_view(&b, &[3]).is_err(), "row out of bounds accepted");
                }
            }
        }
        Ok(())
    });
}
