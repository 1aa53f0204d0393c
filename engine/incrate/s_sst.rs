//! Data-file suites: every small content written through the real builder and read back (stream, scan at
//! every read time, statistics), and every small set of input files merged under every split limit.
use std::{
    collections::BTreeMap,
    sync::{Arc, atomic::AtomicU64},
};

use arrow_array::{Array, Int64Array, RecordBatch, StringArray, UInt64Array};
use arrow_schema::{DataType, Field, Schema};
use fusio::{dynamic::DynFs, path::Path};
use futures::StreamExt;
use typed_arrow_dyn::DynCell;

use super::{core::*, exec::VExec, s_merge::kv_mem, tracefs::*, util::*};
use crate::{
    ensure,
    extractor::{self, KeyProjection},
    id::FileId,
    inmem::immutable::memtable::ImmutableMemTable,
    key::KeyOwned,
    mvcc::Timestamp,
    ondisk::{
        merge::SsTableMerger,
        scan::{DeleteStreamWithExtractor, SstableScan, SstableVisibleEntry},
        sstable::{SsTable, SsTableBuilder, SsTableCompression, SsTableConfig, SsTableDescriptor, SsTableId, SsTableReader, open_parquet_stream},
    },
    query::stream::Order,
};

/// key, ts, Some(value) (negative = null value) or None = delete
type Ver = (&'static str, u64, Option<i64>);
type OVer = (String, u64, Option<i64>);

pub const KEYS: [&str; 4] = ["a", "b", "c", "d"];

fn val(k: &str, t: u64) -> i64 {
    if t % 7 == 3 { -1 } else { (t as i64) * 10 + (k.as_bytes()[0] - b'a') as i64 }
}

/// Contents of one key in one input: none, v, d, v then d, d then v, v then v, v,d,v, d then d, d,v,d, and
/// a write and a delete with one commit time, alone or over an older row.
fn choice(k: &'static str, base: u64, c: usize) -> Vec<Ver> {
    let v = |t: u64| (k, t, Some(val(k, t)));
    let d = |t: u64| (k, t, None);
    match c {
        0 => vec![],
        1 => vec![v(base)],
        2 => vec![d(base)],
        3 => vec![v(base), d(base + 10)],
        4 => vec![d(base), v(base + 10)],
        5 => vec![v(base), v(base + 10)],
        6 => vec![v(base), d(base + 10), v(base + 20)],
        7 => vec![d(base), d(base + 10)],
        8 => vec![d(base), v(base + 10), d(base + 20)],
        // written and deleted by one commit: the delete counts
        9 => vec![v(base), d(base)],
        _ => vec![v(base), v(base + 10), d(base + 10)],
    }
}

fn segment(vs: &[Ver]) -> R<Option<Arc<ImmutableMemTable>>> {
    let m = kv_mem();
    for (k, ts, v) in vs {
        let r = match v {
            Some(v) => m.insert_batch(kv_batch(&[(k, if *v < 0 { None } else { Some(*v) })]), Timestamp::new(*ts)).map(|_| ()),
            None => m.insert_delete_batch(delete_batch(&[k], *ts)).map(|_| ()),
        };
        if let Err(e) = r {
            return bad(format!("buffer refused {k}@{ts}: {e}"));
        }
    }
    Ok(m.seal_now().map_err(|e| Fail::Bad(format!("seal: {e}")))?.map(Arc::new))
}

fn extractors() -> (Arc<dyn KeyProjection>, Arc<dyn KeyProjection>) {
    let ex: Arc<dyn KeyProjection> = extractor::projection_for_field(kv_schema(), 0).unwrap().into();
    let dp: Arc<dyn KeyProjection> =
        extractor::projection_for_columns(Arc::new(Schema::new(vec![Field::new("id", DataType::Utf8, false)])), vec![0]).unwrap().into();
    (ex, dp)
}

fn config(fs: &TraceFs, rg: usize, zstd: bool) -> Arc<SsTableConfig> {
    let dynfs: Arc<dyn DynFs> = Arc::new(fs.clone());
    let mut c = SsTableConfig::new(kv_schema(), dynfs, Path::from("t/sst"))
        .with_key_extractor(extractors().0)
        .with_compression(if zstd { SsTableCompression::Zstd } else { SsTableCompression::None });
    if rg > 0 {
        c = c.with_max_row_group_rows(rg);
    }
    Arc::new(c)
}

fn e2<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> R<T> {
    r.map_err(|e| Fail::Bad(format!("{what}: {e}")))
}

fn write_sst(ex: &VExec, cfg: &Arc<SsTableConfig>, id: u64, level: usize, segs: &[Arc<ImmutableMemTable>], wal: Option<Vec<FileId>>) -> R<Result<SsTable, String>> {
    let mut b = SsTableBuilder::new(Arc::clone(cfg), SsTableDescriptor::new(SsTableId::new(id), level));
    b.set_wal_ids(wal);
    for s in segs {
        e2(b.add_immutable(s), "stage")?;
    }
    let e = ex.clone();
    ex.block_on(async move { b.finish(e).await.map_err(|e| e.to_string()) })
}

/// All data rows and deletes of a file, in file order.
pub fn read_sst(ex: &VExec, cfg: &Arc<SsTableConfig>, d: &SsTableDescriptor) -> R<(Vec<OVer>, Vec<(String, u64)>)> {
    let (cfg, d, e) = (Arc::clone(cfg), d.clone(), ex.clone());
    let r: Result<(Vec<OVer>, Vec<(String, u64)>), String> = ex.block_on(async move {
        let r = SsTableReader::open(cfg, d).await.map_err(|e| format!("open: {e}"))?;
        let mut s = r.into_stream(Timestamp::new(u64::MAX), None, e).await.map_err(|e| format!("open stream: {e}"))?;
        let (mut data, mut dels) = (vec![], vec![]);
        while let Some(b) = s.next().await {
            let b = b.map_err(|e| format!("read: {e}"))?;
            if b.data.num_rows() > 0 {
                data.extend(ver_rows(&b.data)?);
            }
            if let Some(d) = &b.delete {
                let ts = col_u64(d)?;
                for (i, k) in key_rows(d).into_iter().enumerate() {
                    dels.push((k, ts[i]));
                }
            }
        }
        Ok((data, dels))
    })?;
    r.map_err(|m| Fail::Bad(format!("reading the file back failed: {m}")))
}
fn col_u64(b: &RecordBatch) -> Result<Vec<u64>, String> {
    b.column_by_name(COMMIT)
        .and_then(|c| c.as_any().downcast_ref::<UInt64Array>().cloned())
        .map(|c| c.values().to_vec())
        .ok_or_else(|| "no commit time column".to_string())
}
fn ver_rows(b: &RecordBatch) -> Result<Vec<OVer>, String> {
    let ts = col_u64(b)?;
    let k = b.column_by_name("id").and_then(|c| c.as_any().downcast_ref::<StringArray>().cloned()).ok_or("id column")?;
    let v = b.column_by_name("v").and_then(|c| c.as_any().downcast_ref::<Int64Array>().cloned()).ok_or("v column")?;
    Ok((0..b.num_rows()).map(|i| (k.value(i).to_string(), ts[i], Some(if v.is_null(i) { -1 } else { v.value(i) }))).collect())
}

/// Entries the per-file scan yields at `ts`.
fn scan_sst(ex: &VExec, cfg: &Arc<SsTableConfig>, d: &SsTableDescriptor, ts: u64) -> R<Vec<OVer>> {
    let (cfg, d, e) = (Arc::clone(cfg), d.clone(), ex.clone());
    let r: Result<Vec<OVer>, String> = ex.block_on(async move {
        let f = |e: crate::ondisk::sstable::SsTableError| e.to_string();
        let data = open_parquet_stream(Arc::clone(cfg.fs()), d.data_path().ok_or("data path")?.clone(), None, None, None, None, e.clone()).await.map_err(f)?;
        let (ext, dext) = extractors();
        let del = match d.delete_path() {
            None => None,
            Some(p) => Some(DeleteStreamWithExtractor {
                stream: open_parquet_stream(Arc::clone(cfg.fs()), p.clone(), None, None, None, None, e.clone()).await.map_err(f)?,
                extractor: dext,
            }),
        };
        let mut s = Box::pin(SstableScan::new(data, del, ext, vec![0, 1], Some(Order::Asc), Timestamp::new(ts)));
        let mut out = vec![];
        while let Some(x) = s.next().await {
            match x.map_err(|e| e.to_string())? {
                SstableVisibleEntry::Tombstone(k) => {
                    let key = k.key().clone();
                    let name = KEYS.iter().find(|n| KeyOwned::from(**n) == key).ok_or("unknown key in delete")?;
                    out.push((name.to_string(), k.timestamp().get(), None));
                }
                SstableVisibleEntry::Row(r) => {
                    let t = r.key_ts().timestamp().get();
                    let row = r.into_row_owned().map_err(|e| e.to_string())?;
                    let k = match &row.0[0] {
                        Some(DynCell::Str(s)) => s.clone(),
                        o => return Err(format!("key cell {o:?}")),
                    };
                    let v = match &row.0[1] {
                        Some(DynCell::I64(v)) => *v,
                        None => -1,
                        o => return Err(format!("value cell {o:?}")),
                    };
                    out.push((k, t, Some(v)));
                }
            }
        }
        Ok(out)
    })?;
    r.map_err(|m| Fail::Bad(format!("scan at {ts} failed: {m}")))
}

fn order(a: &OVer, b: &OVer) -> std::cmp::Ordering {
    a.0.cmp(&b.0).then(b.1.cmp(&a.1))
}
fn own(v: &[Ver]) -> Vec<OVer> {
    let gone = |x: &Ver| x.2.is_some() && v.iter().any(|y| y.0 == x.0 && y.1 == x.1 && y.2.is_none());
    v.iter().filter(|x| !gone(x)).map(|(k, t, v)| (k.to_string(), *t, v.map(|x| if x < 0 { -1 } else { x }))).collect()
}
fn newest(vs: &[OVer], ts: u64) -> Vec<OVer> {
    let mut m: BTreeMap<String, (u64, Option<i64>)> = BTreeMap::new();
    for (k, t, v) in vs {
        if *t <= ts {
            let e = m.entry(k.clone()).or_insert((*t, *v));
            if *t > e.0 || (*t == e.0 && v.is_none()) {
                *e = (*t, *v);
            }
        }
    }
    m.into_iter().map(|(k, (t, v))| (k, t, v)).collect()
}

/// File contents and statistics are exactly `want`.
fn check_file(ex: &VExec, fs: &TraceFs, cfg: &Arc<SsTableConfig>, d: &SsTableDescriptor, want: &[OVer]) -> R {
    let mut w: Vec<OVer> = want.to_vec();
    w.sort_by(order);
    let wd: Vec<OVer> = w.iter().filter(|x| x.2.is_some()).cloned().collect();
    let wx: Vec<(String, u64)> = w.iter().filter(|x| x.2.is_none()).map(|x| (x.0.clone(), x.1)).collect();
    let (data, dels) = read_sst(ex, cfg, d)?;
    ensure!(data == wd, "file rows {data:?}, written {wd:?}");
    ensure!(dels == wx, "file deletes {dels:?}, written {wx:?}");
    let Some(s) = d.stats() else { return bad("no statistics") };
    ensure!(s.rows == wd.len(), "statistics count {} rows, file has {}", s.rows, wd.len());
    ensure!(s.tombstones == wx.len(), "statistics count {} deletes, file has {}", s.tombstones, wx.len());
    let (lo, hi) = (w.first().map(|x| KeyOwned::from(x.0.as_str())), w.last().map(|x| KeyOwned::from(x.0.as_str())));
    ensure!(s.min_key == lo && s.max_key == hi, "key range {:?}..{:?}, contents {:?}..{:?}", s.min_key, s.max_key, lo, hi);
    let (tl, th) = (w.iter().map(|x| x.1).min(), w.iter().map(|x| x.1).max());
    ensure!(
        s.min_commit_ts.map(|t| t.get()) == tl && s.max_commit_ts.map(|t| t.get()) == th,
        "commit range {:?}..{:?}, contents {tl:?}..{th:?}",
        s.min_commit_ts,
        s.max_commit_ts
    );
    let Some(p) = d.data_path() else { return bad("no data path") };
    let Some(bytes) = fs.read_file(&format!("/{}", p.as_ref())).or_else(|| fs.read_file(p.as_ref())) else {
        return bad(format!("data file {p} is not there: {:?}", fs.paths()));
    };
    ensure!(s.bytes == bytes.len(), "statistics say {} bytes, file has {}", s.bytes, bytes.len());
    ensure!(d.delete_path().is_some() == !wx.is_empty(), "delete file {:?} with {} deletes", d.delete_path(), wx.len());
    Ok(())
}

fn roundtrip(ctx: &Ctx) {
    let nch = 7;
    let s = ctx.suite(
        "sst.roundtrip",
        "one buffer over 3 keys and two buffers over 2 keys (either one the older), each key with every history of up to 3 versions (values, null values, deletes); row groups of 1, 2 or all rows, compressed or not: file contents, order, statistics, per-file scan at every read time",
    );
    let mut cases: Vec<(Vec<Vec<usize>>, usize, bool)> = vec![];
    for rg in [1usize, 2, 0] {
        for z in [false, true] {
            if z && rg == 2 && !ctx.thorough() {
                continue;
            }
            for x in sequences(&(0..nch).collect::<Vec<_>>(), 3) {
                cases.push((vec![x], rg, z));
            }
            for x in sequences(&[1usize, 2, 7, 8, 9, 10], 3) {
                cases.push((vec![x], rg, z));
            }
            let alpha: Vec<usize> = if ctx.thorough() { (0..nch).collect() } else { vec![0, 1, 2, 3, 4, 5] };
            if z && !ctx.thorough() {
                continue;
            }
            for x in sequences(&alpha, 4) {
                cases.push((vec![x[..2].to_vec(), x[2..].to_vec()], rg, z));
                if rg == 1 && !z {
                    // the second buffer is the older one
                    cases.push((vec![x[..2].to_vec(), x[2..].to_vec()], 1 << 20, z));
                }
            }
        }
    }
    s.par_cases(&cases, |c| format!("{c:?}"), |(segs, rg, z), rec| {
        let ex = VExec::new();
        let fs = TraceFs::new();
        let cfg = config(&fs, *rg, *z);
        let mut all: Vec<Ver> = vec![];
        let mut built = vec![];
        for (i, seg) in segs.iter().enumerate() {
            let base = if *rg == 1 << 20 { 2 - i as u64 } else { 1 + i as u64 };
            let vs: Vec<Ver> = seg.iter().enumerate().flat_map(|(k, c)| choice(KEYS[k], base, *c)).collect();
            rec.steps(vs.len() as u64);
            if let Some(m) = segment(&vs)? {
                built.push(m);
            }
            all.extend(vs);
        }
        let want = own(&all);
        let wal = vec![crate::wal::wal_segment_file_id(1), crate::wal::wal_segment_file_id(2)];
        let t = match write_sst(&ex, &cfg, 5, 0, &built, Some(wal.clone()))? {
            Ok(t) => t,
            Err(e) => {
                ensure!(want.is_empty(), "writing the file failed: {e}");
                ensure!(fs.paths().is_empty(), "a refused empty write left files {:?}", fs.paths());
                rec.eval();
                return Ok(());
            }
        };
        ensure!(!want.is_empty(), "an empty file was written");
        let d = t.descriptor().clone();
        ensure!(d.id().raw() == 5 && d.level() == 0 && d.wal_ids() == Some(&wal[..]), "descriptor {d:?}");
        check_file(&ex, &fs, &cfg, &d, &want)?;
        rec.eval();
        let mut times: Vec<u64> = want.iter().flat_map(|x| [x.1 - 1, x.1]).collect();
        times.push(u64::MAX);
        times.sort();
        times.dedup();
        for ts in times {
            let got = scan_sst(&ex, &cfg, &d, ts)?;
            let w = newest(&want, ts);
            ensure!(got == w, "scan at {ts}: {got:?}, expected {w:?}; contents {want:?}");
            rec.eval();
            rec.state(&(ts, &w));
        }
        Ok(())
    });
}

struct MergeCase {
    inputs: Vec<Vec<Ver>>,
    rg: usize,
    rows: Option<usize>,
    bytes: Option<usize>,
    chunk: usize,
}

struct MergeSetup {
    ex: VExec,
    fs: TraceFs,
    cfg: Arc<SsTableConfig>,
    inputs: Vec<SsTableDescriptor>,
    all: Vec<OVer>,
    wal: Vec<FileId>,
}

fn merge_setup(c: &MergeCase) -> R<Option<MergeSetup>> {
    let ex = VExec::new();
    let fs = TraceFs::new();
    let cfg = config(&fs, c.rg, false);
    let (mut inputs, mut all, mut wal) = (vec![], vec![], vec![]);
    for (i, vs) in c.inputs.iter().enumerate() {
        // a write and a delete of one commit only get into one file from two buffers
        let (first, second): (Vec<Ver>, Vec<Ver>) =
            vs.iter().cloned().partition(|x| !(x.2.is_none() && vs.iter().any(|y| y.0 == x.0 && y.1 == x.1 && y.2.is_some())));
        let segs: Vec<_> = [segment(&first)?, segment(&second)?].into_iter().flatten().collect();
        if segs.is_empty() {
            continue;
        }
        let w = vec![crate::wal::wal_segment_file_id(i as u64), crate::wal::wal_segment_file_id(i as u64 + 1)];
        wal.extend(w.iter().cloned());
        let t = write_sst(&ex, &cfg, i as u64 + 1, 0, &segs, Some(w))?.map_err(Fail::Bad)?;
        inputs.push(t.descriptor().clone());
        all.extend(own(vs));
    }
    wal.sort();
    wal.dedup();
    if inputs.is_empty() {
        return Ok(None);
    }
    Ok(Some(MergeSetup { ex, fs, cfg, inputs, all, wal }))
}

fn run_merge(m: &MergeSetup, c: &MergeCase, first: u64) -> R<Result<Vec<SsTable>, String>> {
    let merger = SsTableMerger::new(Arc::clone(&m.cfg), m.inputs.clone(), SsTableDescriptor::new(SsTableId::new(first), 1))
        .with_output_id_allocator(Arc::new(AtomicU64::new(first + 1)))
        .with_output_caps(c.rows, c.bytes)
        .with_chunk_rows(c.chunk);
    let e = m.ex.clone();
    m.ex.block_on(async move { merger.execute(e).await.map_err(|e| e.to_string()) })
}

fn check_merge(m: &MergeSetup, c: &MergeCase, outs: &[SsTable]) -> R {
    let want = newest(&m.all, u64::MAX);
    let mut pos = 0usize;
    let mut ids = std::collections::BTreeSet::new();
    for (i, o) in outs.iter().enumerate() {
        let d = o.descriptor();
        ensure!(ids.insert(d.id().raw()), "output id {} used twice", d.id().raw());
        ensure!(d.level() == 1, "output at level {}", d.level());
        ensure!(d.wal_ids() == Some(&m.wal[..]), "output log references {:?}, inputs have {:?}", d.wal_ids(), m.wal);
        let (data, dels) = read_sst(&m.ex, &m.cfg, d)?;
        let n = data.len() + dels.len();
        ensure!(n > 0, "empty output");
        ensure!(pos + n <= want.len(), "outputs hold more entries than there are keys: {data:?} {dels:?}; expected {want:?}");
        // sorted, disjoint, exactly the next keys
        check_file(&m.ex, &m.fs, &m.cfg, d, &want[pos..pos + n])?;
        pos += n;
        if let Some(cap) = c.rows {
            ensure!(data.len() <= cap, "output {i} has {} rows, limit {cap}", data.len());
        }
        if c.bytes == Some(1) {
            ensure!(n == 1, "output {i} has {n} entries under a one byte limit");
        }
        if i + 1 < outs.len() && c.bytes.is_none() {
            ensure!(c.rows.is_some_and(|cap| data.len() >= cap), "output {i} was closed with {} rows before its limit {:?}", data.len(), c.rows);
        }
    }
    ensure!(pos == want.len(), "outputs miss {:?}", &want[pos..]);
    let mut expect_files: Vec<String> = vec![];
    for d in m.inputs.iter().chain(outs.iter().map(|o| o.descriptor())) {
        expect_files.push(d.data_path().map(|p| p.as_ref().to_string()).unwrap_or_default());
        expect_files.extend(d.delete_path().map(|p| p.as_ref().to_string()));
    }
    expect_files.sort();
    let mut have: Vec<String> = m.fs.paths().iter().map(|p| p.trim_start_matches('/').to_string()).collect();
    have.sort();
    ensure!(have == expect_files, "files {have:?}, expected {expect_files:?}");
    Ok(())
}

fn gen_inputs(n: usize, keys: usize, alpha: &[usize], newest_first: bool) -> Vec<Vec<Vec<Ver>>> {
    sequences(alpha, n * keys)
        .into_iter()
        .map(|x| {
            (0..n)
                .map(|i| {
                    let base = if newest_first { (n - i) as u64 } else { 1 + i as u64 };
                    (0..keys).flat_map(|k| choice(KEYS[k], base, x[i * keys + k])).collect()
                })
                .collect()
        })
        .collect()
}

fn merges(ctx: &Ctx) {
    let s = ctx.suite(
        "sst.merge",
        "all sets of 1..=3 input files over 2..=4 keys, each key with every history of up to 3 versions per file (interleaved commit times), inputs in both age orders x row groups of 1 row or all x output limits none / 1 / 2 rows / 1 byte x chunk sizes 1, 2, 1024",
    );
    let full: Vec<usize> = (0..7).collect();
    let six: Vec<usize> = (0..6).collect();
    let mut sets: Vec<(Vec<Vec<Ver>>, bool)> = vec![];
    sets.extend(gen_inputs(1, 3, &full, false).into_iter().map(|x| (x, true)));
    sets.extend(gen_inputs(2, 2, if ctx.thorough() { &full } else { &six }, false).into_iter().map(|x| (x, false)));
    sets.extend(gen_inputs(2, 2, &[0, 1, 2, 3, 4], true).into_iter().map(|x| (x, false)));
    sets.extend(gen_inputs(2, 3, &[0, 1, 2], false).into_iter().map(|x| (x, true)));
    sets.extend(gen_inputs(2, 4, &[1, 2], false).into_iter().map(|x| (x, true)));
    sets.extend(gen_inputs(3, 2, &[0, 1, 2], true).into_iter().map(|x| (x, false)));
    sets.extend(gen_inputs(1, 3, &[1, 2, 7, 8, 9, 10], false).into_iter().map(|x| (x, true)));
    sets.extend(gen_inputs(2, 2, &[0, 1, 7, 9, 10], false).into_iter().map(|x| (x, false)));
    if ctx.thorough() {
        sets.extend(gen_inputs(3, 2, &[0, 1, 2, 3, 4], false).into_iter().map(|x| (x, false)));
        sets.extend(gen_inputs(2, 3, &[0, 1, 2, 3, 4], false).into_iter().map(|x| (x, true)));
    }
    let mut cases = vec![];
    for (inputs, wide) in &sets {
        let cfgs: Vec<(usize, Option<usize>, Option<usize>, usize)> = if ctx.thorough() || *wide {
            vec![(1, None, None, 1024), (0, None, None, 1), (1, Some(1), None, 2), (0, Some(2), None, 1), (1, Some(2), None, 2), (0, None, Some(1), 1024), (0, Some(1), None, 1024), (2, Some(3), None, 2)]
        } else {
            vec![(1, None, None, 2), (0, Some(1), None, 1), (1, Some(2), None, 1024)]
        };
        for (rg, rows, bytes, chunk) in cfgs {
            cases.push(MergeCase { inputs: inputs.clone(), rg, rows, bytes, chunk });
        }
    }
    s.par_cases(
        &cases,
        |c| format!("{:?} rg={} rows={:?} bytes={:?} chunk={}", c.inputs, c.rg, c.rows, c.bytes, c.chunk),
        |c, rec| {
            let Some(m) = merge_setup(c)? else { return Ok(()) };
            rec.steps(m.all.len() as u64);
            let before = m.fs.image();
            let outs = run_merge(&m, c, 50)?.map_err(|e| Fail::Bad(format!("merge failed: {e}")))?;
            rec.state(&newest(&m.all, u64::MAX));
            check_merge(&m, c, &outs)?;
            let after = m.fs.image();
            for (p, f) in &before {
                ensure!(after.get(p).is_some_and(|g| g.data == f.data), "input file {p} changed");
            }
            rec.eval();
            Ok(())
        },
    );
}

/// Rows of one size under a byte limit: every full output holds the same number of them.
fn byte_limits(ctx: &Ctx) {
    let s = ctx.suite(
        "sst.merge_bytes",
        "four rows or four deletes of one size in 1..=2 input files, every split, under byte limits 0..=4000 in steps of 50: outputs complete, and all but the last equally large",
    );
    let mut cases = vec![];
    for del in [false, true] {
        for split in 0..8usize {
            for b in 0..=80usize {
                for chunk in [1usize, 1024] {
                    let mut inputs = vec![vec![], vec![]];
                    for (k, key) in KEYS.iter().enumerate() {
                        let f = if k == 0 { 0 } else { split >> (k - 1) & 1 };
                        inputs[f].extend(choice(key, 1, if del { 2 } else { 1 }));
                    }
                    cases.push(MergeCase { inputs, rg: 0, rows: None, bytes: Some(b * 50), chunk });
                }
            }
        }
    }
    s.par_cases(&cases, |c| format!("{:?} bytes={:?} chunk={}", c.inputs, c.bytes, c.chunk), |c, rec| {
        let Some(m) = merge_setup(c)? else { return Ok(()) };
        let outs = run_merge(&m, c, 50)?.map_err(|e| Fail::Bad(format!("merge failed: {e}")))?;
        check_merge(&m, c, &outs)?;
        let mut n = vec![];
        for o in &outs {
            let st = o.descriptor().stats().cloned();
            n.push(st.map(|s| s.rows + s.tombstones).unwrap_or(0));
        }
        rec.step();
        rec.eval();
        rec.state(&n);
        let full = n[0];
        ensure!(n[..n.len() - 1].iter().all(|x| *x == full) && *n.last().unwrap() <= full, "outputs of {n:?} equally large entries under one byte limit");
        Ok(())
    });
}

fn faults(ctx: &Ctx) {
    let s = ctx.suite(
        "sst.fault",
        "a file write and a merge with every single storage operation failing (no effect / partial effect / together with all later ones) and every single read failing: an error is returned or the result is complete; inputs stay readable, a repeated attempt succeeds and is complete",
    );
    let inputs: Vec<Vec<Vec<Ver>>> = vec![
        vec![[choice("a", 1, 3), choice("b", 1, 1), choice("c", 1, 5)].concat(), [choice("a", 2, 1), choice("b", 2, 2), choice("d", 2, 4)].concat()],
        vec![[choice("a", 1, 1), choice("b", 1, 2)].concat(), [choice("c", 2, 1), choice("d", 2, 1)].concat()],
    ];
    let cfgs: [(usize, Option<usize>); 3] = [(1, None), (0, Some(1)), (1, Some(2))];
    let mut cases = vec![];
    for (ii, _) in inputs.iter().enumerate() {
        for (ci, _) in cfgs.iter().enumerate() {
            for kind in 0..4usize {
                cases.push((ii, ci, kind));
            }
        }
    }
    s.par(cases.len(), |i, s| {
        let (ii, ci, kind) = cases[i];
        let mk = || MergeCase { inputs: inputs[ii].clone(), rg: cfgs[ci].0, rows: cfgs[ci].1, bytes: None, chunk: 1 };
        for n in 0.. {
            let mut hit = false;
            s.case(&format!("merge {ii} cfg {ci} kind {kind} op {n}"), |rec| {
                let c = mk();
                let Some(m) = merge_setup(&c)? else { return Ok(()) };
                match kind {
                    0 => m.fs.set_fault(m.fs.op_count() + n, FaultKind::Err),
                    1 => m.fs.set_fault(m.fs.op_count() + n, FaultKind::Partial),
                    2 => m.fs.set_fault(m.fs.op_count() + n, FaultKind::Dead),
                    _ => m.fs.set_read_fault(m.fs.read_count() + n),
                }
                let r = run_merge(&m, &c, 50)?;
                hit = m.fs.fault_hit().is_some();
                m.fs.clear_fault();
                m.fs.survive();
                rec.step();
                match &r {
                    Ok(outs) => {
                        // every listed output complete
                        let want = newest(&m.all, u64::MAX);
                        let mut got = vec![];
                        for o in outs {
                            let (a, b) = read_sst(&m.ex, &m.cfg, o.descriptor())?;
                            got.extend(a);
                            got.extend(b.into_iter().map(|(k, t)| (k, t, None)));
                        }
                        got.sort_by(order);
                        ensure!(got == want, "merge reported success after a storage error but its outputs hold {got:?}, expected {want:?}");
                    }
                    Err(_) => ensure!(hit, "merge failed without a storage error: {:?}", r.as_ref().err()),
                }
                for (d, vs) in m.inputs.iter().zip(&c.inputs) {
                    check_file(&m.ex, &m.fs, &m.cfg, d, &own(vs))?;
                }
                let outs = run_merge(&m, &c, 80)?.map_err(|e| Fail::Bad(format!("the repeated merge failed: {e}")))?;
                let want = newest(&m.all, u64::MAX);
                let mut got = vec![];
                for o in &outs {
                    let (a, b) = read_sst(&m.ex, &m.cfg, o.descriptor())?;
                    got.extend(a);
                    got.extend(b.into_iter().map(|(k, t)| (k, t, None)));
                }
                got.sort_by(order);
                ensure!(got == want, "repeated merge holds {got:?}, expected {want:?}");
                rec.eval();
                Ok(())
            });
            if !hit || s.stopped() {
                break;
            }
        }
    });
}

pub fn run(ctx: &Ctx) {
    if ["C19", "C01", "C02", "C23"].contains(&ctx.prop.as_str()) {
        roundtrip(ctx);
    }
    if ["C16", "C02", "C23"].contains(&ctx.prop.as_str()) {
        merges(ctx);
        byte_limits(ctx);
    }
    if ["C25", "C16", "C19"].contains(&ctx.prop.as_str()) {
        faults(ctx);
    }
}
