//! Write buffer suites: every operation sequence up to a depth on the real `DynMem`, compared with a
//! reference multi-version map, for every capacity, read timestamp, key range and projection.
use std::{
    collections::BTreeMap,
    ops::Bound,
    sync::Arc,
    time::Duration,
};

use arrow_array::{Array, ArrayRef, Int64Array, RecordBatch, StringArray, UInt64Array};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use typed_arrow_dyn::DynRowOwned;

use super::{core::*, util::*};
use crate::{
    ensure,
    extractor::{self, KeyProjection},
    inmem::{
        immutable::{self, memtable::{ImmutableMemTable, ImmutableVisibleEntry}},
        mutable::{DynMem, memtable::DynRowScanEntry},
        policy::*,
    },
    key::KeyOwned,
    mvcc::Timestamp,
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// upsert these keys in one batch at the next timestamp
    Up(&'static [&'static str]),
    /// delete these keys in one batch at the next timestamp
    Del(&'static [&'static str]),
    /// upsert at the timestamp of the previous operation (same transaction)
    UpSame(&'static [&'static str]),
    DelSame(&'static [&'static str]),
    /// upsert with per-row timestamps older than everything so far
    UpOld(&'static [&'static str]),
    Empty,
    /// batch containing a null key: must be refused
    NullKey,
    /// batch of another schema: must be refused
    WrongSchema,
    /// timestamp column of the wrong length: refused
    BadTs,
    Seal,
}

const ALPHA: &[Op] = &[
    Op::Up(&["b"]),
    Op::Up(&["a", "b"]),
    Op::Up(&["a", "a"]),
    Op::Up(&["ab", "a"]),
    Op::Del(&["a"]),
    Op::Del(&["b", "ab"]),
    Op::UpSame(&["a"]),
    Op::DelSame(&["a", "b"]),
    Op::UpOld(&["a", "b"]),
    Op::Empty,
    Op::NullKey,
    Op::WrongSchema,
    Op::BadTs,
    Op::Seal,
];

type Versions = BTreeMap<(String, std::cmp::Reverse<u64>), Option<i64>>;

fn schema() -> SchemaRef {
    // nullable key column so that null keys reach the buffer
    Arc::new(Schema::new(vec![Field::new("id", DataType::Utf8, true), Field::new("v", DataType::Int64, true)]))
}
fn batch(rows: &[(Option<&str>, i64)]) -> RecordBatch {
    RecordBatch::try_new(
        schema(),
        vec![
            Arc::new(StringArray::from(rows.iter().map(|r| r.0).collect::<Vec<_>>())) as ArrayRef,
            Arc::new(Int64Array::from(rows.iter().map(|r| r.1).collect::<Vec<_>>())) as ArrayRef,
        ],
    )
    .unwrap()
}
fn dbatch(keys: &[&str], ts: u64) -> RecordBatch {
    let s = Arc::new(Schema::new(vec![
        Field::new("id", DataType::Utf8, true),
        Field::new(COMMIT, DataType::UInt64, false),
    ]));
    RecordBatch::try_new(
        s,
        vec![Arc::new(StringArray::from(keys.to_vec())) as ArrayRef, Arc::new(UInt64Array::from(vec![ts; keys.len()])) as ArrayRef],
    )
    .unwrap()
}

pub fn mem(cap: usize) -> DynMem {
    let s = schema();
    let ex: Arc<dyn KeyProjection> = extractor::projection_for_field(s.clone(), 0).unwrap().into();
    let dp: Arc<dyn KeyProjection> = extractor::projection_for_columns(
        Arc::new(Schema::new(vec![Field::new("id", DataType::Utf8, true)])),
        vec![0],
    )
    .unwrap()
    .into();
    DynMem::with_capacity(s, ex, dp, cap)
}

fn key_text(k: &KeyOwned) -> String {
    k.as_utf8().map(|s| s.to_string()).unwrap_or_else(|| format!("{k:?}"))
}

/// Visible entries: key -> (ts, None = tombstone / Some(row text))
type Vis = Vec<(String, u64, Option<String>)>;

pub fn mem_vis(m: &DynMem, proj: Option<SchemaRef>, ts: u64, range: Option<(Bound<KeyOwned>, Bound<KeyOwned>)>) -> R<Vis> {
    let g = m.read();
    let it = match range {
        None => g.scan_visible(proj, Timestamp::new(ts)),
        Some((a, b)) => g.scan_visible_in_range(proj, Timestamp::new(ts), a, b),
    }
    .map_err(|e| Fail::Bad(format!("scan of the write buffer failed: {e}")))?;
    let mut out = vec![];
    for e in it {
        match e.map_err(|e| Fail::Bad(format!("row of the write buffer failed: {e}")))? {
            DynRowScanEntry::Row(k, r) => out.push((
                key_text(&k.key().to_owned()),
                k.timestamp().get(),
                Some(format!("{:?}", DynRowOwned::from_raw(&r).map_err(|e| Fail::Bad(e.to_string()))?.cells())),
            )),
            DynRowScanEntry::Tombstone(k) => out.push((key_text(&k.key().to_owned()), k.timestamp().get(), None)),
        }
    }
    Ok(out)
}
pub fn imm_vis(m: &ImmutableMemTable, proj: Option<SchemaRef>, ts: u64, range: Option<(Bound<KeyOwned>, Bound<KeyOwned>)>) -> R<Vis> {
    let it = match range {
        None => m.scan_visible(proj, Timestamp::new(ts)),
        Some((a, b)) => m.scan_visible_in_range(proj, Timestamp::new(ts), a, b),
    }
    .map_err(|e| Fail::Bad(format!("scan of the sealed buffer failed: {e}")))?;
    let mut out = vec![];
    for e in it {
        match e.map_err(|e| Fail::Bad(format!("row of the sealed buffer failed: {e}")))? {
            ImmutableVisibleEntry::Row(k, r) => out.push((
                key_text(&k.key().to_owned()),
                k.timestamp().get(),
                Some(format!("{:?}", DynRowOwned::from_raw(&r).map_err(|e| Fail::Bad(e.to_string()))?.cells())),
            )),
            ImmutableVisibleEntry::Tombstone(k) => out.push((key_text(&k.key().to_owned()), k.timestamp().get(), None)),
        }
    }
    Ok(out)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Proj {
    All,
    V,
    Id,
    Swapped,
}
impl Proj {
    fn schema(self) -> Option<SchemaRef> {
        let id = Field::new("id", DataType::Utf8, true);
        let v = Field::new("v", DataType::Int64, true);
        match self {
            Proj::All => None,
            Proj::V => Some(Arc::new(Schema::new(vec![v]))),
            Proj::Id => Some(Arc::new(Schema::new(vec![id]))),
            Proj::Swapped => Some(Arc::new(Schema::new(vec![v, id]))),
        }
    }
    fn row(self, k: &str, v: i64) -> String {
        match self {
            Proj::All => format!("[Some(Str({k:?})), Some(I64({v}))]"),
            Proj::V => format!("[Some(I64({v}))]"),
            Proj::Id => format!("[Some(Str({k:?}))]"),
            Proj::Swapped => format!("[Some(I64({v})), Some(Str({k:?}))]"),
        }
    }
}

fn in_range(k: &str, r: &(Bound<String>, Bound<String>)) -> bool {
    (match &r.0 {
        Bound::Included(b) => k >= b.as_str(),
        Bound::Excluded(b) => k > b.as_str(),
        Bound::Unbounded => true,
    }) && (match &r.1 {
        Bound::Included(b) => k <= b.as_str(),
        Bound::Excluded(b) => k < b.as_str(),
        Bound::Unbounded => true,
    })
}

fn model_vis(v: &Versions, proj: Proj, ts: u64, range: Option<&(Bound<String>, Bound<String>)>) -> Vis {
    let mut out: Vis = vec![];
    for ((k, t), val) in v {
        if t.0 > ts || out.last().is_some_and(|l| &l.0 == k) || range.is_some_and(|r| !in_range(k, r)) {
            continue;
        }
        out.push((k.clone(), t.0, val.map(|x| proj.row(k, x))));
    }
    out
}

/// Non-inverted ranges over the probe keys.
fn ranges() -> Vec<(Bound<String>, Bound<String>)> {
    let keys = ["", "a", "aa", "ab", "b", "c"];
    let mut out = vec![];
    let lows: Vec<Bound<String>> = std::iter::once(Bound::Unbounded)
        .chain(keys.iter().flat_map(|k| [Bound::Included(k.to_string()), Bound::Excluded(k.to_string())]))
        .collect();
    for a in &lows {
        for b in &lows {
            let ok = match (a, b) {
                (Bound::Unbounded, _) | (_, Bound::Unbounded) => true,
                (Bound::Included(x), Bound::Included(y)) => x <= y,
                (Bound::Included(x) | Bound::Excluded(x), Bound::Included(y) | Bound::Excluded(y)) => x < y,
            };
            if ok {
                out.push((a.clone(), b.clone()));
            }
        }
    }
    out
}
fn kb(b: &Bound<String>) -> Bound<KeyOwned> {
    match b {
        Bound::Included(k) => Bound::Included(KeyOwned::from(k.as_str())),
        Bound::Excluded(k) => Bound::Excluded(KeyOwned::from(k.as_str())),
        Bound::Unbounded => Bound::Unbounded,
    }
}

fn check_common(v: &Versions, what: &str, max_ts: u64, conflict: &dyn Fn(&KeyOwned, Timestamp) -> bool, vis: &dyn Fn(Proj, u64, Option<&(Bound<String>, Bound<String>)>) -> R<Vis>, full: bool, rec: &mut Rec) -> R {
    for k in ["a", "ab", "b", "zz"] {
        for ts in 0..=max_ts + 1 {
            let want = v.keys().any(|(kk, t)| kk == k && t.0 > ts);
            let got = conflict(&KeyOwned::from(k), Timestamp::new(ts));
            rec.eval();
            ensure!(want == got, "{what}: conflict check for key {k:?} at {ts} says {got}, versions {v:?}");
        }
    }
    for ts in 0..=max_ts + 1 {
        for p in [Proj::All, Proj::V, Proj::Id, Proj::Swapped] {
            let got = vis(p, ts, None)?;
            let want = model_vis(v, p, ts, None);
            rec.eval();
            ensure!(got == want, "{what}: scan at {ts} with projection {p:?} returned {got:?}, expected {want:?}");
        }
        if full || ts == max_ts {
            for r in ranges() {
                let got = vis(Proj::All, ts, Some(&r))?;
                let want = model_vis(v, Proj::All, ts, Some(&r));
                rec.eval();
                ensure!(got == want, "{what}: scan of {r:?} at {ts} returned {got:?}, expected {want:?}");
            }
        }
    }
    Ok(())
}

fn ts_bounds(v: &Versions) -> Option<(u64, u64)> {
    let a = v.keys().map(|k| k.1.0).min()?;
    let b = v.keys().map(|k| k.1.0).max()?;
    Some((a, b))
}

fn check_sealed(imm: &ImmutableMemTable, v: &Versions, max_ts: u64, full: bool, rec: &mut Rec) -> R {
    ensure!(imm.entry_count() == v.len(), "sealed buffer reports {} entries, sealed versions {v:?}", imm.entry_count());
    let rows: Vec<(String, u64, bool)> =
        imm.row_iter().map(|e| (key_text(&e.key), e.commit_ts.get(), e.tombstone)).collect();
    let want: Vec<(String, u64, bool)> = v.iter().map(|((k, t), x)| (k.clone(), t.0, x.is_none())).collect();
    ensure!(rows == want, "sealed buffer iterates {rows:?}, sealed versions {v:?}");
    let (mn, mx) = (imm.min_key().map(|k| key_text(&k)), imm.max_key().map(|k| key_text(&k)));
    let (wn, wx) = (v.keys().next().map(|k| k.0.clone()), v.keys().next_back().map(|k| k.0.clone()));
    ensure!(mn == wn && mx == wx, "sealed buffer key bounds {mn:?}..{mx:?}, expected {wn:?}..{wx:?}");
    // storage + sidecar hold the versions in order
    let st = imm.storage();
    let mv = imm.mvcc_columns();
    let ids = st.column(0).as_any().downcast_ref::<StringArray>().ok_or(Fail::Bad("id column".into()))?;
    let vs = st.column(1).as_any().downcast_ref::<Int64Array>().ok_or(Fail::Bad("v column".into()))?;
    ensure!(mv.commit_ts.len() == st.num_rows() && mv.tombstone.len() == st.num_rows(), "sidecar length");
    let got: Vec<_> = (0..st.num_rows()).map(|i| (ids.value(i).to_string(), mv.commit_ts[i].get(), vs.value(i))).collect();
    let want: Vec<_> = v.iter().filter_map(|((k, t), x)| x.map(|x| (k.clone(), t.0, x))).collect();
    ensure!(got == want, "sealed rows {got:?}, expected {want:?}");
    ensure!(mv.tombstone.iter().all(|t| !t), "tombstone mark on an upserted row");
    let d = imm.delete_sidecar();
    let want: Vec<_> = v.iter().filter(|x| x.1.is_none()).map(|((k, t), _)| (k.clone(), t.0)).collect();
    ensure!(d.len() == want.len() && d.is_empty() == want.is_empty(), "delete count {}", d.len());
    if !want.is_empty() {
        let b = d.to_record_batch().map_err(|e| Fail::Bad(e.to_string()))?;
        let c = b.column_by_name(COMMIT).and_then(|c| c.as_any().downcast_ref::<UInt64Array>().cloned()).ok_or(Fail::Bad("commit column".into()))?;
        let got: Vec<_> = key_rows(&b).into_iter().zip(c.values().iter().copied()).collect();
        ensure!(got == want, "sealed deletes {got:?}, expected {want:?}");
    }
    let got = imm.commit_ts_bounds().map(|(a, b)| (a.get(), b.get()));
    ensure!(got == ts_bounds(v), "sealed buffer reports commit times {got:?}, its versions are {v:?}");
    check_common(v, "sealed buffer", max_ts, &|k, t| imm.has_conflict(k, t), &|p, ts, r| imm_vis(imm, p.schema(), ts, r.map(|r| (kb(&r.0), kb(&r.1)))), full, rec)
}

fn run_seq(cap: usize, seq: &[Op], full: bool, rec: &mut Rec) -> R {
    let m = mem(cap);
    let mut cur: Versions = BTreeMap::new();
    let mut sealed: Vec<(ImmutableMemTable, Versions)> = vec![];
    let mut ts = 10u64; // leave room for old timestamps
    let mut old = 9u64;
    let (mut writes, mut nonempty, mut accepted) = (0u64, 0usize, 0usize);
    let mut val = 0i64;
    for op in seq {
        rec.step();
        let mut rows: Vec<(String, u64, Option<i64>)> = vec![];
        let mut refuse = false;
        let before = cur.clone();
        let res = match op {
            Op::Up(ks) | Op::UpSame(ks) | Op::UpOld(ks) => {
                if matches!(op, Op::Up(_)) {
                    ts += 1;
                }
                let data: Vec<(Option<&str>, i64)> = ks.iter().map(|k| { val += 1; (Some(*k), val) }).collect();
                if matches!(op, Op::UpOld(_)) {
                    let t: Vec<u64> = ks.iter().map(|_| { old -= 1; old }).collect();
                    for (i, d) in data.iter().enumerate() {
                        rows.push((d.0.unwrap().into(), t[i], Some(d.1)));
                    }
                    m.insert_batch_with_mvcc(batch(&data), UInt64Array::from(t))
                } else {
                    for d in &data {
                        rows.push((d.0.unwrap().into(), ts, Some(d.1)));
                    }
                    m.insert_batch(batch(&data), Timestamp::new(ts))
                }
            }
            Op::Del(ks) | Op::DelSame(ks) => {
                if matches!(op, Op::Del(_)) {
                    ts += 1;
                }
                for k in ks.iter() {
                    rows.push((k.to_string(), ts, None));
                }
                m.insert_delete_batch(dbatch(ks, ts))
            }
            Op::Empty => {
                ts += 1;
                m.insert_batch(batch(&[]), Timestamp::new(ts))
            }
            Op::NullKey => {
                ts += 1;
                refuse = true;
                m.insert_batch(batch(&[(Some("a"), -1), (None, -1)]), Timestamp::new(ts))
            }
            Op::WrongSchema => {
                ts += 1;
                refuse = true;
                m.insert_batch(kv_batch(&[("a", Some(-1))]).project(&[1, 0]).unwrap(), Timestamp::new(ts))
            }
            Op::BadTs => {
                refuse = true;
                m.insert_batch_with_mvcc(batch(&[(Some("a"), -1)]), UInt64Array::from(vec![1, 2]))
            }
            Op::Seal => m.seal_now(),
        };
        match res {
            Ok(s) => {
                ensure!(!refuse, "{op:?} was accepted");
                match s {
                    Some(imm) => {
                        ensure!(!before.is_empty(), "{op:?} sealed an empty buffer");
                        sealed.push((imm, before));
                        cur.clear();
                        (writes, nonempty, accepted) = (0, 0, 0);
                    }
                    None => ensure!(!matches!(op, Op::Seal) || before.is_empty(), "seal of a non-empty buffer returned nothing"),
                }
                if !matches!(op, Op::Seal) {
                    accepted += 1;
                    nonempty += !rows.is_empty() as usize;
                }
                writes += rows.len() as u64;
                for (k, t, v) in rows {
                    cur.insert((k, std::cmp::Reverse(t)), v);
                }
            }
            Err(e) => ensure!(refuse, "{op:?} was refused: {e}"),
        }
    }
    rec.state(&(cap, cur.iter().map(|(k, v)| (k.0.clone(), k.1.0, v.is_some())).collect::<Vec<_>>(), sealed.len()));
    let max_ts = ts;
    ensure!(m.row_count() == cur.len(), "row_count {} for versions {cur:?}", m.row_count());
    let (a, b) = m.key_bounds();
    let got = (a.map(|k| key_text(&k)), b.map(|k| key_text(&k)));
    let want = (cur.keys().next().map(|k| k.0.clone()), cur.keys().next_back().map(|k| k.0.clone()));
    ensure!(got == want, "key bounds {got:?}, expected {want:?}");
    let got = m.commit_ts_bounds().map(|(a, b)| (a.get(), b.get()));
    ensure!(got == ts_bounds(&cur), "commit time bounds {got:?} for {cur:?}");
    {
        check_common(&cur, "write buffer", max_ts, &|k, t| m.has_conflict(k, t), &|p, ts, r| mem_vis(&m, p.schema(), ts, r.map(|r| (kb(&r.0), kb(&r.1)))), full, rec)?;
    }
    for (imm, v) in &sealed {
        check_sealed(imm, v, max_ts, full, rec)?;
    }
    // segment pruning never drops a segment holding a visible version
    let segs: Vec<&ImmutableMemTable> = sealed.iter().map(|s| &s.0).collect();
    for t in 0..=max_ts {
        let keep = immutable::prune_segments(&segs, None, Timestamp::new(t));
        for (i, (_, v)) in sealed.iter().enumerate() {
            let needed = v.keys().any(|k| k.1.0 <= t);
            rec.eval();
            ensure!(!needed || keep.contains(&i), "sealed buffer {i} with versions {v:?} is skipped for a read at {t}");
        }
    }
    // stats used by the seal policies
    let st = m.build_stats(None);
    let distinct: std::collections::BTreeSet<&String> = cur.keys().map(|k| &k.0).collect();
    ensure!(st.entries == distinct.len(), "stats report {} distinct keys for {cur:?}", st.entries);
    ensure!(st.inserts == writes && st.replaces == writes - distinct.len() as u64, "stats report {} inserts, {} replaces after {writes} row writes of {} keys", st.inserts, st.replaces, distinct.len());
    ensure!(st.dyn_batches.is_some_and(|b| b >= nonempty && b <= accepted), "stats report {:?} batches after {nonempty}..{accepted}", st.dyn_batches);
    let bytes: usize = st.approx_key_bytes;
    ensure!(bytes >= distinct.iter().map(|k| k.len()).sum::<usize>() && (bytes > 0) == !distinct.is_empty(), "stats report {bytes} key bytes for {distinct:?}");
    Ok(())
}

fn policies(ctx: &Ctx) {
    let s = ctx.suite("mem.policy", "every threshold policy x every value around its limit; every pair under the any-of composite");
    let limits = [0usize, 1, 2, 3, 64];
    let mut items = vec![];
    for &limit in &limits {
        for &x in &limits {
            items.push((limit, x));
        }
    }
    s.par_cases(&items, |i| format!("limit={} value={}", i.0, i.1), |&(limit, x), rec| {
        let seals = |p: &dyn SealPolicy, st: &MemStats| p.evaluate(st) != SealDecision::NoOp;
        for ov in [0usize, 1, 2] {
            for entries in [0usize, 1, 2] {
                let st = MemStats { approx_key_bytes: x, entries, entry_overhead: ov, ..Default::default() };
                rec.eval();
                ensure!(seals(&BytesThreshold { limit }, &st) == (x + entries * ov >= limit), "bytes policy limit {limit} bytes {x} entries {entries} overhead {ov}");
            }
        }
        for o in [None, Some(x)] {
            let st = MemStats { dyn_batches: o, typed_open_rows: o, since_last_seal: o.map(|x| Duration::from_millis(x as u64)), ..Default::default() };
            let want = o.is_some_and(|x| x >= limit);
            rec.eval();
            ensure!(seals(&BatchesThreshold { batches: limit }, &st) == want, "batch policy limit {limit} value {o:?}");
            ensure!(seals(&OpenRowsThreshold { rows: limit }, &st) == want, "rows policy limit {limit} value {o:?}");
            ensure!(seals(&TimeElapsedPolicy { min_interval: Duration::from_millis(limit as u64) }, &st) == want, "time policy limit {limit} value {o:?}");
            ensure!(!seals(&NeverSeal, &st), "never-seal policy sealed");
            for y in limits {
                for z in limits {
                    let st = MemStats { dyn_batches: o, typed_open_rows: Some(y), ..Default::default() };
                    let any = AnyOf::new(vec![
                        Arc::new(BatchesThreshold { batches: limit }) as _,
                        Arc::new(OpenRowsThreshold { rows: z }) as _,
                    ]);
                    rec.eval();
                    ensure!(seals(&any, &st) == (want || y >= z), "any-of policy");
                    // the reported reason carries the measured value and limit
                    if let SealDecision::Seal(SealReason::BatchesReached { count, limit: l }) = any.evaluate(&st) {
                        ensure!(Some(count) == o && l == limit, "reason {count}/{l}");
                    }
                }
            }
        }
        Ok(())
    });
}

pub fn run(ctx: &Ctx) {
    let depth = ctx.by(3, 4);
    let caps: &[usize] = ctx.by(&[1, 2, 8][..], &[1, 2, 3, 8][..]);
    let s = ctx.suite("mem.seq", format!("all operation sequences of length 1..={depth} over {} operations x capacities {caps:?}; at the end of each every read time, projection and key range", ALPHA.len()));
    let seqs = sequences_upto(ALPHA, depth);
    let mut items = vec![];
    for c in caps {
        for q in &seqs {
            items.push((*c, q.clone()));
        }
    }
    s.par_cases(&items, |(c, q)| format!("cap={c} {q:?}"), |(c, q), rec| run_seq(*c, q, q.len() <= 2, rec));
    drop(s);
    let depth = ctx.by(6, 8);
    let small = &[Op::Up(&["a"]), Op::Up(&["b"]), Op::Del(&["a"]), Op::UpSame(&["a"]), Op::Seal];
    let s = ctx.suite("mem.deep", format!("all operation sequences of length {depth} over {small:?} x capacities 2, 8"));
    let seqs = sequences(small, depth);
    let items: Vec<(usize, Vec<Op>)> = [2usize, 8].iter().flat_map(|c| seqs.iter().map(move |q| (*c, q.clone()))).collect();
    s.par_cases(&items, |(c, q)| format!("cap={c} {q:?}"), |(c, q), rec| run_seq(*c, q, false, rec));
    drop(s);
    policies(ctx);
}
