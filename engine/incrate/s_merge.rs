//! Read-merge suites: every combination of contents of the transaction buffer, the active buffer and
//! sealed buffers for two keys, merged by the real stream and packaged with filter, limit, projection
//! and batch size, compared with a reference.
use std::{
    collections::BTreeMap,
    future::Future,
    pin::pin,
    sync::Arc,
    task::{Context, Poll, Waker},
};

use aisle::Expr;
use arrow_array::{ArrayRef, Int64Array, RecordBatch, StringArray};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use datafusion_common::ScalarValue;
use fusio::executor::NoopExecutor;
use futures::StreamExt;
use typed_arrow_dyn::{DynCell, DynRow};

use super::{core::*, util::*};
use crate::{
    ensure,
    extractor::{self, KeyProjection},
    inmem::{immutable::memtable::ImmutableMemTable, mutable::DynMem},
    key::KeyOwned,
    mutation::DynMutation,
    mvcc::Timestamp,
    query::stream::{Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, StreamEntry, merge::MergeStream, package::PackageStream},
    transaction::{TransactionScan, TransactionScanEntry},
};

pub fn now<T>(f: impl Future<Output = T>) -> R<T> {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..1000 {
        if let Poll::Ready(t) = f.as_mut().poll(&mut cx) {
            return Ok(t);
        }
    }
    bad("stream over in-memory sources never becomes ready")
}

pub fn kv_mem() -> DynMem {
    let s = kv_schema();
    let ex: Arc<dyn KeyProjection> = extractor::projection_for_field(s.clone(), 0).unwrap().into();
    let dp: Arc<dyn KeyProjection> =
        extractor::projection_for_columns(Arc::new(Schema::new(vec![Field::new("id", DataType::Utf8, false)])), vec![0]).unwrap().into();
    DynMem::new(s, ex, dp)
}

/// One version in a source: key, ts, value (None = delete).
type Ver = (&'static str, u64, Option<i64>);

fn fill(m: &DynMem, vs: &[Ver]) {
    for (k, ts, v) in vs {
        match v {
            Some(v) => {
                m.insert_batch(kv_batch(&[(k, if *v < 0 { None } else { Some(*v) })]), Timestamp::new(*ts)).unwrap();
            }
            None => {
                m.insert_delete_batch(delete_batch(&[k], *ts)).unwrap();
            }
        }
    }
}
fn sealed(vs: &[Ver]) -> Option<Arc<ImmutableMemTable>> {
    let m = kv_mem();
    fill(&m, vs);
    m.seal_now().unwrap().map(Arc::new)
}

/// Content choices of one key in one source, given the source's base timestamp.
fn choices(k: &'static str, base: u64, two: bool) -> Vec<Vec<Ver>> {
    let v = |t: u64| (k, t, Some((t as i64) * 10 + (k.as_bytes()[0] - b'a') as i64));
    let d = |t: u64| (k, t, None);
    let mut out = vec![vec![], vec![v(base)], vec![d(base)]];
    if two {
        out.push(vec![v(base), d(base + 1)]);
        out.push(vec![d(base), v(base + 1)]);
    }
    out
}

struct World {
    txn: Vec<(&'static str, Option<i64>)>,
    mutable: Vec<Ver>,
    imms: Vec<Vec<Ver>>, // newest first
}

impl World {
    /// Reference result at `ts`: key order, newest visible; transaction on top.
    fn expect(&self, ts: u64) -> Vec<(String, u64, Option<i64>)> {
        let mut best: BTreeMap<String, (u64, Option<i64>)> = BTreeMap::new();
        for src in self.imms.iter().rev().chain(std::iter::once(&self.mutable)) {
            for (k, t, v) in src {
                if *t <= ts {
                    let e = best.entry(k.to_string()).or_insert((*t, *v));
                    if *t >= e.0 {
                        *e = (*t, *v);
                    }
                }
            }
        }
        for (k, v) in &self.txn {
            best.insert(k.to_string(), (ts, *v));
        }
        best.into_iter().filter_map(|(k, (t, v))| v.map(|v| (k, t, Some(v).filter(|x| *x >= 0)))).collect()
    }
}

struct Built {
    mem: DynMem,
    imms: Vec<Arc<ImmutableMemTable>>,
    staged: BTreeMap<KeyOwned, DynMutation<DynRow, ()>>,
}
fn build(w: &World) -> Built {
    let mem = kv_mem();
    fill(&mem, &w.mutable);
    let imms = w.imms.iter().filter_map(|v| sealed(v)).collect();
    let staged = w
        .txn
        .iter()
        .map(|(k, v)| {
            let m = match v {
                Some(v) => DynMutation::Upsert(DynRow(vec![Some(DynCell::Str(k.to_string())), if *v < 0 { None } else { Some(DynCell::I64(*v)) }])),
                None => DynMutation::Delete(()),
            };
            (KeyOwned::from(*k), m)
        })
        .collect();
    Built { mem, imms, staged }
}

type S<'t> = ScanStream<'t, NoopExecutor>;

fn streams<'t>(b: &'t Built, ts: u64, proj: Option<SchemaRef>, perm: usize) -> R<Vec<S<'t>>> {
    let e = |m: String| Fail::Bad(m);
    let rt = Timestamp::new(ts);
    let mut out: Vec<S<'t>> = vec![];
    if !b.staged.is_empty() {
        out.push(TransactionScan::new(&b.staged, &kv_schema(), rt, proj.as_ref()).map_err(|x| e(x.to_string()))?.into());
    }
    out.push(OwnedMutableScan::from_guard(b.mem.read(), proj.clone(), rt).map_err(|x| e(x.to_string()))?.into());
    for i in &b.imms {
        out.push(OwnedImmutableScan::from_arc(i.clone(), proj.clone(), rt).map_err(|x| e(x.to_string()))?.into());
    }
    let n = out.len();
    if perm > 0 {
        out.rotate_left(perm % n);
    }
    Ok(out)
}

fn entry(e: StreamEntry) -> R<(String, u64, Option<i64>)> {
    let ts = e.ts().get();
    ensure!(!e.is_tombstone(), "a deleted key came out of the merge: {e:?}");
    let row = e.into_row().ok_or(Fail::Bad("entry without row".into()))?;
    let k = match &row.0[0] {
        Some(DynCell::Str(s)) => s.clone(),
        o => return bad(format!("key cell {o:?}")),
    };
    let v = match &row.0[1] {
        Some(DynCell::I64(v)) => Some(*v),
        None => None,
        o => return bad(format!("value cell {o:?}")),
    };
    Ok((k, ts, v))
}

fn merged(b: &Built, ts: u64, limit: Option<usize>, perm: usize) -> R<Vec<(String, u64, Option<i64>)>> {
    let ss = streams(b, ts, None, perm)?;
    let mut m = now(MergeStream::from_vec(ss, limit, Some(Order::Asc)))?.map_err(|e| Fail::Bad(e.to_string()))?;
    let mut out = vec![];
    while let Some(x) = now(m.next())? {
        out.push(entry(x.map_err(|e| Fail::Bad(e.to_string()))?)?);
        ensure!(out.len() < 100, "merge does not end");
    }
    Ok(out)
}

pub fn atoms() -> Vec<Expr> {
    let i = |x: i64| ScalarValue::Int64(Some(x));
    let s = |x: &str| ScalarValue::Utf8(Some(x.to_string()));
    vec![
        Expr::True,
        Expr::False,
        Expr::eq("v", i(20)),
        Expr::not_eq("v", i(20)),
        Expr::lt("v", i(20)),
        Expr::lt_eq("v", i(20)),
        Expr::gt("v", i(20)),
        Expr::gt_eq("v", i(20)),
        Expr::eq("v", ScalarValue::Int64(None)),
        Expr::eq("v", ScalarValue::UInt32(Some(20))),
        Expr::lt("v", ScalarValue::Float64(Some(20.5))),
        Expr::gt("v", ScalarValue::Float64(Some(-0.5))),
        Expr::between("v", i(10), i(20), true),
        Expr::between("v", i(10), i(20), false),
        Expr::in_list("v", vec![i(10), i(30)]),
        Expr::in_list("v", vec![i(10), ScalarValue::Int64(None)]),
        Expr::is_null("v"),
        Expr::is_not_null("v"),
        Expr::eq("id", s("b")),
        Expr::gt("id", s("a")),
        Expr::starts_with("id", "a"),
        Expr::starts_with("id", ""),
    ]
}

/// Reference three-valued evaluation.
pub fn eval(e: &Expr, k: &str, v: Option<i64>) -> Option<bool> {
    enum Lit {
        N(f64),
        S(String),
        Null,
    }
    fn lit(v: &ScalarValue) -> Lit {
        if v.is_null() {
            return Lit::Null;
        }
        match v {
            ScalarValue::Int64(Some(x)) => Lit::N(*x as f64),
            ScalarValue::UInt32(Some(x)) => Lit::N(*x as f64),
            ScalarValue::Float64(Some(x)) => Lit::N(*x),
            ScalarValue::Utf8(Some(s)) => Lit::S(s.clone()),
            o => panic!("literal {o:?} not in the alphabet"),
        }
    }
    let cmp = |col: &str, l: &ScalarValue| -> Option<std::cmp::Ordering> {
        match (col, lit(l)) {
            (_, Lit::Null) => None,
            ("id", Lit::S(s)) => Some(k.cmp(s.as_str())),
            ("v", Lit::N(x)) => v.and_then(|v| (v as f64).partial_cmp(&x)),
            _ => panic!("comparison not in the alphabet"),
        }
    };
    use std::cmp::Ordering::*;
    let and = |a: Option<bool>, b: Option<bool>| match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    };
    match e {
        Expr::True => Some(true),
        Expr::False => Some(false),
        Expr::Cmp { column, op, value } => {
            let o = cmp(column, value)?;
            use aisle::CmpOp::*;
            Some(match op {
                Eq => o == Equal,
                NotEq => o != Equal,
                Lt => o == Less,
                LtEq => o != Greater,
                Gt => o == Greater,
                GtEq => o != Less,
            })
        }
        Expr::Between { column, low, high, inclusive } => {
            let a = cmp(column, low).map(|o| o == Greater || (*inclusive && o == Equal));
            let b = cmp(column, high).map(|o| o == Less || (*inclusive && o == Equal));
            and(a, b)
        }
        Expr::InList { column, values } => {
            if column == "v" && v.is_none() {
                return None;
            }
            let mut unknown = false;
            for x in values {
                match cmp(column, x) {
                    Some(Equal) => return Some(true),
                    None => unknown = true,
                    _ => {}
                }
            }
            if unknown { None } else { Some(false) }
        }
        Expr::StartsWith { column, prefix } => {
            assert_eq!(column, "id");
            Some(k.starts_with(prefix.as_str()))
        }
        Expr::IsNull { column, negated } => Some((column == "v" && v.is_none()) != *negated),
        Expr::And(c) => c.iter().fold(Some(true), |a, x| and(a, eval(x, k, v))),
        Expr::Or(c) => c.iter().fold(Some(false), |a, x| {
            let b = eval(x, k, v);
            match (a, b) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            }
        }),
        Expr::Not(c) => eval(c, k, v).map(|x| !x),
        _ => panic!("expression not in the alphabet"),
    }
}

/// Expressions: atoms, negations, binary conjunctions and disjunctions.
pub fn exprs(deep: bool) -> Vec<Expr> {
    let a = atoms();
    let mut out = a.clone();
    out.extend(a.iter().map(|x| Expr::not(x.clone())));
    for x in &a {
        for y in &a {
            out.push(Expr::and(vec![x.clone(), y.clone()]));
            out.push(Expr::or(vec![x.clone(), y.clone()]));
            if deep {
                out.push(Expr::and(vec![x.clone(), Expr::not(y.clone())]));
                out.push(Expr::not(Expr::or(vec![x.clone(), y.clone()])));
                out.push(Expr::not(Expr::and(vec![x.clone(), Expr::not(y.clone())])));
            }
        }
    }
    out.push(Expr::and(vec![]));
    out.push(Expr::or(vec![]));
    out
}

fn txn_suite(ctx: &Ctx) {
    let s = ctx.suite("merge.txnscan", "every staging map over 3 keys (absent, value, null value, delete) x 4 projections");
    let opts: [Option<Option<i64>>; 4] = [None, Some(Some(5)), Some(Some(-1)), Some(None)];
    let items = sequences(&opts, 3);
    s.par_cases(&items, |i| format!("{i:?}"), |it, rec| {
        let keys = ["a", "ab", "b"];
        let w = World { txn: keys.iter().zip(it).filter_map(|(k, o)| o.map(|v| (*k, v))).collect(), mutable: vec![], imms: vec![] };
        let b = build(&w);
        for p in 0..4usize {
            let id = Field::new("id", DataType::Utf8, false);
            let v = Field::new("v", DataType::Int64, true);
            let proj = match p {
                0 => None,
                1 => Some(Arc::new(Schema::new(vec![v]))),
                2 => Some(Arc::new(Schema::new(vec![id]))),
                _ => Some(Arc::new(Schema::new(vec![v, id]))),
            };
            let sc = TransactionScan::new(&b.staged, &kv_schema(), Timestamp::new(9), proj.as_ref()).map_err(|e| Fail::Bad(e.to_string()))?;
            let mut got = vec![];
            // collect first, read afterwards: earlier rows stay valid while the scan advances
            let all: Vec<_> = {
                let mut sc = sc;
                let mut raw = vec![];
                for e in sc.by_ref() {
                    raw.push(e.map_err(|e| Fail::Bad(e.to_string()))?);
                }
                for e in raw {
                    match e {
                        TransactionScanEntry::Row((k, r)) => {
                            ensure!(k.timestamp().get() == 9, "timestamp {:?}", k.timestamp());
                            got.push((k.key().to_owned().as_utf8().unwrap_or("?").to_string(), Some(format!("{:?}", r.into_owned().map_err(|e| Fail::Bad(e.to_string()))?.0))));
                        }
                        TransactionScanEntry::Tombstone(k) => got.push((k.key().to_owned().as_utf8().unwrap_or("?").to_string(), None)),
                    }
                }
                got
            };
            let want: Vec<(String, Option<String>)> = w
                .txn
                .iter()
                .map(|(k, v)| {
                    let vs = |v: i64| if v < 0 { "None".to_string() } else { format!("Some(I64({v}))") };
                    let ks = format!("Some(Str({k:?}))");
                    (k.to_string(), v.map(|v| match p { 0 => format!("[{ks}, {}]", vs(v)), 1 => format!("[{}]", vs(v)), 2 => format!("[{ks}]"), _ => format!("[{}, {ks}]", vs(v)) }))
                })
                .collect();
            rec.eval();
            ensure!(all == want, "staged scan with projection {p}: {all:?}, expected {want:?}");
        }
        Ok(())
    });
}

pub fn run(ctx: &Ctx) {
    // timestamps: imm old 2.., imm new 4.., mutable 6..
    let s = ctx.suite("merge.sources", "2 keys x every content (absent, value, delete, value+delete, delete+value) of transaction buffer, active buffer, two sealed buffers; every read time 1..=8, limits 0..=3, source order rotations");
    let per_key = |k: &'static str, rich: bool| -> Vec<(Option<Option<i64>>, Vec<Ver>, Vec<Ver>, Vec<Ver>)> {
        let mut out = vec![];
        for t in [None, Some(Some(500)), Some(None)] {
            for m in choices(k, 6, true) {
                for i1 in choices(k, 4, rich) {
                    for i2 in choices(k, 2, rich) {
                        out.push((t, m.clone(), i1.clone(), i2.clone()));
                    }
                }
            }
        }
        out
    };
    let rich = ctx.thorough();
    let a = per_key("a", rich);
    let b = per_key("b", rich);
    let stride = ctx.by(1, 1);
    s.par(a.len(), |i, s| {
        let x = &a[i];
        for (j, y) in b.iter().enumerate().step_by(stride) {
            s.case(&format!("a={x:?} b={y:?}"), |rec| {
                let cat = |p: &Vec<Ver>, q: &Vec<Ver>| -> Vec<Ver> { let mut v = p.clone(); v.extend(q.clone()); v.sort_by_key(|z| z.1); v };
                let w = World {
                    txn: [("a", x.0), ("b", y.0)].into_iter().filter_map(|(k, o)| o.map(|v| (k, v))).collect(),
                    mutable: cat(&x.1, &y.1),
                    imms: vec![cat(&x.2, &y.2), cat(&x.3, &y.3)],
                };
                let bt = build(&w);
                let tss: &[u64] = if (i + j) % 7 == 0 { &[1, 2, 3, 4, 5, 6, 7, 8] } else { &[3, 6, 8] };
                for &ts in tss {
                    let want = w.expect(ts);
                    rec.state(&format!("{want:?}"));
                    for perm in 0..if (i + j) % 5 == 0 { 3 } else { 1 } {
                        rec.eval();
                        let got = merged(&bt, ts, None, perm)?;
                        ensure!(got == want, "read at {ts} (source rotation {perm}) returned {got:?}, expected {want:?}");
                    }
                    if ts == 8 {
                        for l in 0..=3usize {
                            rec.eval();
                            let got = merged(&bt, ts, Some(l), 0)?;
                            let want: Vec<_> = want.iter().take(l).cloned().collect();
                            ensure!(got == want, "read at {ts} with limit {l} returned {got:?}, expected {want:?}");
                        }
                    }
                }
                Ok(())
            });
        }
    });
    drop(s);

    // limits over several keys
    let s = ctx.suite("merge.limits", "4 keys, each absent, live or deleted in the transaction, active or sealed buffer (deletes over an older row and alone) x limits 0..=5: exactly the first rows that exist");
    let items = sequences(&[0u8, 1, 2, 3, 4, 5, 6, 7], 4);
    s.par_cases(&items, |i| format!("{i:?}"), |it, rec| {
        let mut w = World { txn: vec![], mutable: vec![], imms: vec![vec![], vec![]] };
        for (k, c) in ["a", "b", "c", "d"].into_iter().zip(it) {
            if [2, 4, 6].contains(c) {
                w.imms[1].push((k, 2, Some(2)));
            }
            match c {
                1 => w.mutable.push((k, 5, Some(5))),
                2 | 3 => w.mutable.push((k, 5, None)),
                4 => w.imms[0].push((k, 4, None)),
                5 => w.imms[0].push((k, 4, Some(4))),
                6 => w.txn.push((k, None)),
                7 => w.txn.push((k, Some(7))),
                _ => {}
            }
        }
        let b = build(&w);
        let want = w.expect(8);
        rec.state(&format!("{want:?}"));
        for l in 0..=5usize {
            rec.eval();
            let got = merged(&b, 8, Some(l), l % 3)?;
            ensure!(got == want.iter().take(l).cloned().collect::<Vec<_>>(), "limit {l} returned {got:?} of {want:?}");
        }
        Ok(())
    });
    drop(s);

    // equal timestamps in several sources (one commit split over buffers): the transaction's own write,
    // else a delete, else the more recent source wins
    let s = ctx.suite("merge.ties", "one key with the same timestamp in every subset of the 4 sources, each value or delete");
    let items = sequences(&[0u8, 1, 2], 4);
    s.par_cases(&items, |i| format!("{i:?}"), |it, rec| {
        let src = |c: u8, base: i64| -> Vec<Ver> { match c { 0 => vec![], 1 => vec![("a", 5, Some(base))], _ => vec![("a", 5, None)] } };
        let w = World {
            txn: match it[0] { 0 => vec![], 1 => vec![("a", Some(1))], _ => vec![("a", None)] },
            mutable: src(it[1], 2),
            imms: vec![src(it[2], 3), src(it[3], 4)],
        };
        let b = build(&w);
        rec.eval();
        let got = merged(&b, 5, None, 0)?;
        let win = if it[0] != 0 { Some(0) } else { it.iter().position(|x| *x == 2).or(it.iter().position(|x| *x != 0)) };
        let want = match win { Some(p) if it[p] == 1 => vec![("a".to_string(), 5, Some(p as i64 + 1))], _ => vec![] };
        ensure!(got == want, "returned {got:?}, expected {want:?}");
        Ok(())
    });
    drop(s);
    txn_suite(ctx);

    // filter, limit, projection, batch size
    let es = exprs(ctx.thorough());
    let s = ctx.suite("merge.package", format!("{} filter expressions x limits none,0..=4 x batch sizes 1,2,64 x 3 projections over 5 rows with nulls and a delete in 3 sources", es.len()));
    let w = World {
        txn: vec![("ab", Some(30))],
        mutable: vec![("a", 6, Some(10)), ("b", 7, Some(20)), ("bz", 7, Some(-1))],
        imms: vec![vec![("b", 4, Some(10)), ("c", 4, Some(30)), ("d", 5, None)], vec![("d", 2, Some(20)), ("a", 2, Some(20)), ("e", 2, Some(20))]],
    };
    let ids: Vec<usize> = (0..es.len()).collect();
    s.par_cases(&ids, |i| format!("{:?}", es[*i]), |i, rec| {
        let e = &es[*i];
        let b = build(&w);
        let all = w.expect(9);
        let sat: Vec<_> = all.iter().filter(|(k, _, v)| eval(e, k, *v) == Some(true)).cloned().collect();
        for limit in [None, Some(0), Some(1), Some(2), Some(3), Some(4)] {
            for bs in [1usize, 2, 64] {
                for proj in 0..3usize {
                    let result: SchemaRef = match proj {
                        0 => kv_schema(),
                        1 => Arc::new(Schema::new(vec![kv_schema().field(1).clone()])),
                        _ => Arc::new(Schema::new(vec![kv_schema().field(1).clone(), kv_schema().field(0).clone()])),
                    };
                    let ss = streams(&b, 9, None, 0)?;
                    let m = now(MergeStream::from_vec(ss, None, Some(Order::Asc)))?.map_err(|e| Fail::Bad(e.to_string()))?;
                    let mut p = PackageStream::with_limit(bs, m, kv_schema(), result.clone(), Some(e.clone()), limit).map_err(|e| Fail::Bad(e.to_string()))?;
                    let mut got: Vec<String> = vec![];
                    while let Some(x) = now(p.next())? {
                        let x = x.map_err(|e| Fail::Bad(e.to_string()))?;
                        ensure!(x.num_rows() > 0 && x.num_rows() <= bs, "batch of {} rows with batch size {bs}", x.num_rows());
                        ensure!(x.schema() == result, "result schema {:?}", x.schema());
                        for r in 0..x.num_rows() {
                            got.push(x.columns().iter().map(|c| cell_text(c, r)).collect::<Vec<_>>().join(","));
                        }
                        ensure!(got.len() < 50, "result does not end");
                    }
                    let want: Vec<String> = sat
                        .iter()
                        .take(limit.unwrap_or(99))
                        .map(|(k, _, v)| {
                            let vs = v.map(|v| v.to_string()).unwrap_or("null".into());
                            match proj { 0 => format!("{k:?},{vs}"), 1 => vs, _ => format!("{vs},{k:?}") }
                        })
                        .collect();
                    rec.eval();
                    ensure!(got == want, "filter with limit {limit:?}, batch size {bs}, projection {proj}: {got:?}, expected {want:?}");
                }
            }
        }
        Ok(())
    });
    drop(s);
    numeric(ctx);
}

/// Mixed-type numeric comparisons through the filter.
fn numeric(ctx: &Ctx) {
    let ints: Vec<i64> = vec![i64::MIN, i64::MIN + 1, -(1 << 53) - 1, -(1 << 53), -2, -1, 0, 1, 2, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, i64::MAX - 1, i64::MAX];
    let floats: Vec<f64> = vec![f64::NEG_INFINITY, -1e300, -9.223372036854775808e18, -9007199254740992.0, -1.5, -1.0, -0.5, -5e-324, -0.0, 0.0, 5e-324, 0.5, 1.0, 1.5, 9007199254740992.0, 9007199254740994.0, 9.223372036854775807e18, 1.8446744073709552e19, 1e300, f64::INFINITY, f64::NAN];
    let s = ctx.suite("merge.numeric", format!("every integer of {} boundary values against every float of {} and every unsigned literal, all six operators", ints.len(), floats.len()));
    let ints2 = ints.clone();
    s.par_cases(&ints2, |i| format!("{i}"), |&i, rec| {
        let m = kv_mem();
        m.insert_batch(RecordBatch::try_new(kv_schema(), vec![Arc::new(StringArray::from(vec!["k"])) as ArrayRef, Arc::new(Int64Array::from(vec![i])) as ArrayRef]).unwrap(), Timestamp::new(1)).unwrap();
        let run = |e: Expr| -> R<bool> {
            let ss: Vec<S<'_>> = vec![OwnedMutableScan::from_guard(m.read(), None, Timestamp::new(5)).map_err(|e| Fail::Bad(e.to_string()))?.into()];
            let ms = now(MergeStream::from_vec(ss, None, None))?.map_err(|e| Fail::Bad(e.to_string()))?;
            let mut p = PackageStream::with_limit(4, ms, kv_schema(), kv_schema(), Some(e), None).map_err(|e| Fail::Bad(e.to_string()))?;
            Ok(match now(p.next())? {
                Some(x) => x.map_err(|e| Fail::Bad(e.to_string()))?.num_rows() == 1,
                None => false,
            })
        };
        use std::cmp::Ordering::*;
        let exact = |f: f64| -> Option<std::cmp::Ordering> {
            if f.is_nan() { return None; }
            if f >= 1e30 { return Some(Less); }
            if f <= -1e30 { return Some(Greater); }
            let t = f.trunc() as i128;
            Some((i as i128).cmp(&t).then(if f > f.trunc() { Less } else if f < f.trunc() { Greater } else { Equal }))
        };
        let mut lits: Vec<(ScalarValue, Option<std::cmp::Ordering>)> = floats.iter().map(|f| (ScalarValue::Float64(Some(*f)), exact(*f))).collect();
        for u in [0u64, 1, 2, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX] {
            lits.push((ScalarValue::UInt64(Some(u)), Some((i as i128).cmp(&(u as i128)))));
        }
        for x in &ints {
            lits.push((ScalarValue::Int64(Some(*x)), Some(i.cmp(x))));
        }
        for (l, o) in lits {
            for (n, e, want) in [
                ("=", Expr::eq("v", l.clone()), o.map(|o| o == Equal)),
                ("!=", Expr::not_eq("v", l.clone()), o.map(|o| o != Equal)),
                ("<", Expr::lt("v", l.clone()), o.map(|o| o == Less)),
                ("<=", Expr::lt_eq("v", l.clone()), o.map(|o| o != Greater)),
                (">", Expr::gt("v", l.clone()), o.map(|o| o == Greater)),
                (">=", Expr::gt_eq("v", l.clone()), o.map(|o| o != Less)),
            ] {
                rec.eval();
                let got = run(e)?;
                ensure!(got == want.unwrap_or(false), "{i} {n} {l:?} evaluates to {got}");
            }
        }
        Ok(())
    });
}
