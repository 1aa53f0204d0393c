//! Refused input on the whole database: every kind of malformed write at every position of every
//! short history, through every entry point. It must be refused, and everything else must look as
//! if it had never been tried: contents, log, later writes, recovery.
use std::sync::Arc;

use arrow_array::{ArrayRef, Int64Array, RecordBatch, StringArray};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use typed_arrow_dyn::{DynCell, DynRow};

use super::{core::*, exec::{AssumeSend, VExec}, s_db::{Img, Tdb, estr, rows_of}, tracefs::*};
use crate::{
    db::{DB, WalSyncPolicy},
    ensure,
    key::KeyOwned,
};

fn schema(nullable_key: bool) -> SchemaRef {
    Arc::new(Schema::new(vec![Field::new("id", DataType::Utf8, nullable_key), Field::new("v", DataType::Int64, true)]))
}
fn open(fs: &TraceFs, exec: &VExec, nk: bool) -> R<Tdb> {
    let cfg = estr(crate::schema::SchemaBuilder::from_schema(schema(nk)).primary_key("id").build(), "schema")?;
    let b = estr(DB::<TraceFs, VExec>::builder(cfg).on_durable_fs(Arc::new(fs.clone()), "/db"), "builder")?;
    let b = b.wal_segment_bytes(900).wal_sync_policy(WalSyncPolicy::Always).disable_minor_compaction();
    let e = exec.clone();
    estr(exec.block_on(async move { b.open_with_executor(Arc::new(e)).await.map_err(|e| e.to_string()) })?, "open")
}
fn batch(s: SchemaRef, k: Vec<Option<&str>>, v: Vec<Option<i64>>) -> RecordBatch {
    RecordBatch::try_new(s, vec![Arc::new(StringArray::from(k)) as ArrayRef, Arc::new(Int64Array::from(v)) as ArrayRef]).expect("batch")
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    MissingColumn,
    ExtraColumn,
    RenamedKey,
    RenamedValue,
    Swapped,
    WrongType,
    KeyNullability,
    NullKey,
    NullKeyLast,
    ShortMarks,
    LongMarks,
    NoMarks,
    NullKeyDelete,
    TxArityShort,
    TxArityLong,
    TxType,
    TxKeyType,
    TxNullKey,
    TxBatchSchema,
    TxBatchNullKey,
    TxDeleteArity,
    TxDeleteNull,
}
use Bad::*;
const ALL: [Bad; 22] = [
    MissingColumn, ExtraColumn, RenamedKey, RenamedValue, Swapped, WrongType, KeyNullability, NullKey, NullKeyLast, ShortMarks, LongMarks,
    NoMarks, NullKeyDelete, TxArityShort, TxArityLong, TxType, TxKeyType, TxNullKey, TxBatchSchema, TxBatchNullKey, TxDeleteArity, TxDeleteNull,
];
fn needs_nullable(b: Bad) -> bool {
    matches!(b, NullKey | NullKeyLast | NullKeyDelete | TxBatchNullKey)
}

/// Batches that do not fit the table.
fn malformed(b: Bad, nk: bool) -> Option<RecordBatch> {
    let one = |fields: Vec<Field>, cols: Vec<ArrayRef>| Some(RecordBatch::try_new(Arc::new(Schema::new(fields)), cols).expect("batch"));
    let id = |n: &str| Field::new(n, DataType::Utf8, nk);
    let v = |n: &str| Field::new(n, DataType::Int64, true);
    let k: ArrayRef = Arc::new(StringArray::from(vec!["a", "x"]));
    let i: ArrayRef = Arc::new(Int64Array::from(vec![99, 98]));
    match b {
        MissingColumn => one(vec![id("id")], vec![k]),
        ExtraColumn => one(vec![id("id"), v("v"), v("w")], vec![k, i.clone(), i]),
        RenamedKey => one(vec![id("key"), v("v")], vec![k, i]),
        RenamedValue => one(vec![id("id"), v("u")], vec![k, i]),
        Swapped => one(vec![v("v"), id("id")], vec![i, k]),
        WrongType => one(vec![id("id"), Field::new("v", DataType::Utf8, true)], vec![k.clone(), k]),
        KeyNullability => one(vec![Field::new("id", DataType::Utf8, !nk), v("v")], vec![k, i]),
        _ => None,
    }
}
async fn attempt(db: &Tdb, b: Bad, nk: bool, deletes: bool) -> Result<Result<(), String>, String> {
    let s = schema(nk);
    let e = |x: crate::db::DBError| x.to_string();
    if let Some(m) = malformed(b, nk) {
        let n = m.num_rows();
        return Ok(if deletes { db.ingest_with_tombstones(m, vec![true; n]).await.map_err(e) } else { db.ingest(m).await.map_err(e) });
    }
    let two = |x: Option<&'static str>, y: Option<&'static str>| batch(s.clone(), vec![x, y], vec![Some(99), Some(98)]);
    let row = |c: Vec<Option<DynCell>>| DynRow(c);
    let st = |x: &str| Some(DynCell::Str(x.to_string()));
    let iv = |x: i64| Some(DynCell::I64(x));
    Ok(match b {
        NullKey => {
            let m = two(None, Some("x"));
            if deletes { db.ingest_with_tombstones(m, vec![false, false]).await.map_err(e) } else { db.ingest(m).await.map_err(e) }
        }
        NullKeyLast => {
            let m = two(Some("a"), None);
            if deletes { db.ingest_with_tombstones(m, vec![true, false]).await.map_err(e) } else { db.ingest(m).await.map_err(e) }
        }
        NullKeyDelete => db.ingest_with_tombstones(two(Some("a"), None), vec![false, true]).await.map_err(e),
        ShortMarks => db.ingest_with_tombstones(two(Some("a"), Some("x")), vec![deletes]).await.map_err(e),
        LongMarks => db.ingest_with_tombstones(two(Some("a"), Some("x")), vec![deletes; 3]).await.map_err(e),
        NoMarks => db.ingest_with_tombstones(two(Some("a"), Some("x")), vec![]).await.map_err(e),
        _ => {
            // inside a transaction: the refused call leaves the staged rows as they were, and the
            // transaction can still commit what was accepted
            let mut tx = db.begin_transaction().await.map_err(|e| e.to_string())?;
            tx.upsert(row(vec![st("t"), iv(50)])).map_err(|e| e.to_string())?;
            let r = match b {
                TxArityShort => tx.upsert(row(vec![st("a")])),
                TxArityLong => tx.upsert(row(vec![st("a"), iv(99), iv(98)])),
                TxType => tx.upsert(row(vec![st("a"), st("no")])),
                TxKeyType => tx.upsert(row(vec![iv(1), iv(99)])),
                TxNullKey => tx.upsert(row(vec![None, iv(99)])),
                TxBatchSchema => tx.upsert_batch(&malformed(WrongType, nk).unwrap()),
                TxBatchNullKey => tx.upsert_batch(&two(Some("a"), None)),
                TxDeleteArity => tx.delete(KeyOwned::tuple(vec![KeyOwned::from("a"), KeyOwned::from("x")])),
                _ => tx.delete(KeyOwned::tuple(vec![])),
            }
            .map_err(|e| e.to_string());
            if tx.len() != 1 {
                return Err(format!("{b:?}: {} mutations staged after the refusal, expected the one accepted before", tx.len()));
            }
            if deletes {
                drop(tx);
            } else {
                tx.commit().await.map_err(|e| format!("commit of the accepted rows: {e}"))?;
            }
            r
        }
    })
}
fn scan(exec: &VExec, db: &Tdb) -> R<Img> {
    let db = db.clone();
    estr(exec.block_on(AssumeSend(async move { db.scan().collect().await.map_err(|e| e.to_string()).map(|b| rows_of(&b).into_iter().collect()) }))?, "scan")
}
/// Bytes of the log.
fn log_bytes(fs: &TraceFs) -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = fs.paths().into_iter().filter(|p| p.contains("/wal/")).map(|p| (p.clone(), fs.read_file(&p).map(|c| c.len()).unwrap_or(0))).collect();
    // the writer opens its (empty) first file lazily
    v.retain(|x| x.1 > 0 && !x.0.contains("state"));
    v.sort();
    v
}

pub fn run(ctx: &Ctx) {
    let d = ctx.by(3, 4);
    let s = ctx.suite("db.reject", format!("{} kinds of malformed writes through ingest, ingest with delete marks and transactions x key column nullable or not x every history of up to {d} good writes before, one after, clean and unclean restart", ALL.len()));
    let mut cases = vec![];
    for b in ALL {
        for nk in [false, true] {
            if needs_nullable(b) && !nk {
                continue;
            }
            for del in [false, true] {
                for n in 0..=d {
                    for pat in 0..(1u32 << n) {
                        for clean in [false, true] {
                            cases.push((b, nk, del, n, pat, clean));
                        }
                    }
                }
            }
        }
    }
    s.par_cases(&cases, |c| format!("{:?}-nk{}-d{}-n{}-p{}-{}", c.0, c.1 as u8, c.2 as u8, c.3, c.4, if c.5 { "reopen" } else { "crash" }), |c, rec| {
        let (b, nk, del, n, pat, clean) = *c;
        let (fs, exec) = (TraceFs::new(), VExec::new());
        let db = open(&fs, &exec, nk)?;
        let mut cur = Img::new();
        let good = |db: &Tdb, i: usize, delete: bool, cur: &mut Img| -> R {
            let m = batch(schema(nk), vec![Some("a"), Some(["b", "c"][i % 2])], vec![Some(i as i64), Some(i as i64)]);
            let db = db.clone();
            estr(exec.block_on(async move { db.ingest_with_tombstones(m, vec![delete, false]).await.map_err(|e| e.to_string()) })?, "good write")?;
            if delete {
                cur.remove("a");
            } else {
                cur.insert("a".into(), Some(i as i64));
            }
            cur.insert(["b", "c"][i % 2].into(), Some(i as i64));
            Ok(())
        };
        for i in 0..n {
            good(&db, i as usize, pat >> i & 1 == 1, &mut cur)?;
        }
        let before = log_bytes(&fs);
        let tx = ALL.iter().position(|x| *x == b).unwrap() >= 13;
        let db2 = db.clone();
        let r = exec.block_on(AssumeSend(async move { attempt(&db2, b, nk, del).await }))?;
        let r = estr(r, "attempt")?;
        rec.step();
        ensure!(r.is_err(), "{b:?} was accepted");
        if tx && !del {
            cur.insert("t".into(), Some(50));
        } else {
            ensure!(log_bytes(&fs) == before, "{b:?} was refused but wrote to the log");
        }
        let got = scan(&exec, &db)?;
        rec.eval();
        ensure!(got == cur, "after the refused {b:?}: {got:?}, expected {cur:?}");
        good(&db, 7, false, &mut cur)?;
        let got = scan(&exec, &db)?;
        rec.eval();
        ensure!(got == cur, "write after the refused {b:?}: {got:?}, expected {cur:?}");
        if clean {
            let h = db.verif_inner().wal_handle().cloned();
            drop(db);
            if let Some(h) = h {
                let _ = exec.block_on(AssumeSend(async move { h.shutdown().await.map_err(|e| e.to_string()) }))?;
            }
        } else {
            drop(db);
        }
        exec.kill_all();
        let db = open(&fs, &exec, nk)?;
        let got = scan(&exec, &db)?;
        rec.eval();
        rec.state(&(format!("{b:?}"), format!("{got:?}")));
        ensure!(got == cur, "reopened after the refused {b:?}: {got:?}, expected {cur:?}");
        drop(db);
        exec.kill_all();
        Ok(())
    });
}
