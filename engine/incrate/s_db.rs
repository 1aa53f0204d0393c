//! The whole database on the virtual file system: every operation sequence up to a depth, with
//! every placement of seal, flush, compaction and reopen, against a plain reference history.
use std::{
    collections::BTreeMap,
    sync::{
        Arc,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    time::Duration,
};

use arrow_array::RecordBatch;
use arrow_schema::SchemaRef;
use fusio::{dynamic::DynFs, executor::Timer, path::Path};

use super::{core::*, exec::{AssumeSend, VExec}, tracefs::*, util::*};
use crate::{
    compaction::{
        CompactionWorkerConfig,
        executor::LocalCompactionExecutor,
        planner::{LeveledCompactionPlanner, LeveledPlannerConfig},
    },
    db::{CascadeConfig, CompactionOptions, DB, WalSyncPolicy},
    ensure,
    extractor,
    key::KeyOwned,
    inmem::policy::{MemStats, SealDecision, SealPolicy, SealReason},
    ondisk::sstable::{SsTableConfig, SsTableDescriptor, SsTableId},
};

pub type Tdb = DB<TraceFs, VExec>;
pub type Row = (String, Option<i64>);
pub type Img = BTreeMap<String, Option<i64>>;

/// Seals exactly when the harness asks for it.
pub struct OnDemand(pub Arc<AtomicBool>);
impl SealPolicy for OnDemand {
    fn evaluate(&self, _s: &MemStats) -> SealDecision {
        if self.0.swap(false, Ordering::SeqCst) {
            SealDecision::Seal(SealReason::BatchesReached { count: 1, limit: 1 })
        } else {
            SealDecision::NoOp
        }
    }
}

pub struct Always;
impl SealPolicy for Always {
    fn evaluate(&self, s: &MemStats) -> SealDecision {
        if s.entries > 0 { SealDecision::Seal(SealReason::BatchesReached { count: 1, limit: 1 }) } else { SealDecision::NoOp }
    }
}

pub fn estr<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> R<T> {
    r.map_err(|e| Fail::Bad(format!("{what}: {e}")))
}

#[derive(Clone)]
pub struct Node {
    pub fs: TraceFs,
    pub exec: VExec,
    pub db: Tdb,
    pub seal: Arc<AtomicBool>,
    pub ids: Arc<AtomicU64>,
    pub cfg: Arc<SsTableConfig>,
    _life: Arc<Life>,
}

/// Ends the background tasks of a database that nobody looks at any more (they keep it alive).
struct Life(VExec);
impl Drop for Life {
    fn drop(&mut self) {
        self.0.kill_all();
    }
}

pub const SEG_BYTES: usize = 900;

#[derive(Clone, Default)]
pub struct Opts {
    pub minor: Option<(usize, usize)>,
    pub compaction: Option<CompactionOptions>,
    pub fast: bool,
    pub seg: Option<usize>,
    /// keep the builder's own seal policy
    pub own_policy: bool,
    /// seal after every batch
    pub seal_always: bool,
    /// batches the write buffer holds
    pub cap: Option<usize>,
    /// another table than (id: Utf8, v: Int64): its schema and how many leading columns are the key
    pub table: Option<(SchemaRef, usize)>,
}

pub fn sst_config(fs: &TraceFs) -> Arc<SsTableConfig> {
    sst_config_of(fs, kv_schema(), 1)
}
pub fn sst_config_of(fs: &TraceFs, schema: SchemaRef, keys: usize) -> Arc<SsTableConfig> {
    let dynfs: Arc<dyn DynFs> = Arc::new(fs.clone());
    Arc::new(
        SsTableConfig::new(schema.clone(), dynfs, Path::parse("db/sst").unwrap())
            .with_key_extractor(extractor::projection_for_columns(schema, (0..keys).collect()).unwrap().into()),
    )
}

/// Largest file id ever written below the data directory.
fn max_sst_id(fs: &TraceFs) -> u64 {
    fs.paths()
        .iter()
        .filter(|p| p.contains("db/sst/"))
        .filter_map(|p| p.rsplit('/').next().map(|f| f.chars().take_while(|c| c.is_ascii_digit()).collect::<String>()))
        .filter_map(|d| d.parse::<u64>().ok())
        .max()
        .unwrap_or(0)
}

pub fn open(fs: &TraceFs, exec: &VExec) -> R<Node> {
    open_with(fs, exec, &Opts::default())
}
pub fn open_with(fs: &TraceFs, exec: &VExec, o: &Opts) -> R<Node> {
    match try_open(fs, exec, o)? {
        Ok(n) => Ok(n),
        Err(e) => bad(format!("open: {e}")),
    }
}

pub fn try_open(fs: &TraceFs, exec: &VExec, o: &Opts) -> R<Result<Node, String>> {
    let (schema, keys) = o.table.clone().unwrap_or_else(|| (kv_schema(), 1));
    let names: Vec<String> = schema.fields()[..keys].iter().map(|f| f.name().clone()).collect();
    let cfg = match crate::schema::SchemaBuilder::from_schema(schema.clone()).composite_key(names).build() {
        Ok(c) => c,
        Err(e) => return Ok(Err(e.to_string())),
    };
    let b = estr(DB::<TraceFs, VExec>::builder(cfg).on_durable_fs(Arc::new(fs.clone()), "/db"), "builder")?;
    let mut b = b
        .wal_segment_bytes(o.seg.unwrap_or(SEG_BYTES))
        .wal_sync_policy(WalSyncPolicy::Always)
        .wal_flush_interval(Duration::from_millis(1));
    b = match o.minor {
        Some((n, l)) => b.with_minor_compaction(n, l),
        None => b.disable_minor_compaction(),
    };
    if let Some(c) = &o.compaction {
        b = b.with_compaction_options(c.clone());
    }
    if o.fast {
        b = b.with_commit_ack_mode(crate::transaction::CommitAckMode::Fast);
    }
    let e = exec.clone();
    crate::inmem::mutable::memtable::VERIF_BATCH_CAPACITY.set(o.cap.unwrap_or(1024));
    let r = exec.block_on(async move { b.open_with_executor(Arc::new(e)).await.map_err(|e| e.to_string()) })?;
    let mut db = match r {
        Ok(d) => d,
        Err(e) => return Ok(Err(e)),
    };
    let seal = Arc::new(AtomicBool::new(false));
    if o.seal_always {
        db.verif_set_seal_policy(Arc::new(Always));
    } else if !o.own_policy {
        db.verif_set_seal_policy(Arc::new(OnDemand(seal.clone())));
    }
    Ok(Ok(Node { fs: fs.clone(), exec: exec.clone(), db, seal, ids: Arc::new(AtomicU64::new(max_sst_id(fs) + if o.minor.is_some() || o.compaction.is_some() { 1_000_000 } else { 1 })), cfg: sst_config_of(fs, schema, keys), _life: Arc::new(Life(exec.clone())) }))
}

impl Node {
    pub fn fresh() -> R<Node> {
        open(&TraceFs::new(), &VExec::new())
    }
    pub fn write(&self, rows: &[(&str, Option<i64>)]) -> R<Result<(), String>> {
        self.write_batch(rows_batch(rows), rows.iter().map(|r| r.1.is_none()).collect())
    }
    pub fn write_batch(&self, b: RecordBatch, t: Vec<bool>) -> R<Result<(), String>> {
        let db = self.db.clone();
        self.exec.block_on(async move {
            if t.iter().any(|x| *x) { db.ingest_with_tombstones(b, t).await } else { db.ingest(b).await }.map_err(|e| e.to_string())
        })
    }
    pub fn seal(&self) -> R {
        self.seal.store(true, Ordering::SeqCst);
        estr(self.db.verif_inner().maybe_seal_after_insert(), "seal")
    }
    pub fn flush(&self) -> R<Result<bool, String>> {
        let (db, ids, cfg) = (self.db.clone(), self.ids.clone(), self.cfg.clone());
        self.exec.block_on(async move {
            if db.verif_inner().num_immutable_segments() == 0 {
                return Ok(false);
            }
            let d = SsTableDescriptor::new(SsTableId::new(ids.fetch_add(1, Ordering::SeqCst)), 0);
            db.verif_inner().flush_immutables_with_descriptor(cfg, d).await.map(|_| true).map_err(|e| e.to_string())
        })
    }
    /// One run of the background worker until it is quiet: everything of level 0 goes to level 1.
    pub fn compact(&self, max_rows: Option<usize>) -> R {
        self.exec.block_on(AssumeSend(self.compact_with(max_rows)))
    }
    pub async fn compact_async(&self) {
        self.compact_with(None).await
    }
    async fn compact_with(&self, max_rows: Option<usize>) {
        let driver = Arc::new(self.db.verif_inner().compaction_driver());
        let mut ce = LocalCompactionExecutor::with_id_allocator(self.cfg.clone(), self.ids.clone());
        if let Some(m) = max_rows {
            ce = ce.with_max_output_rows(m);
        }
        let planner = LeveledCompactionPlanner::new(LeveledPlannerConfig {
            l0_trigger: 1,
            l0_max_inputs: 8,
            l0_max_bytes: None,
            level_thresholds: vec![100, 100],
            level_max_bytes: vec![],
            max_inputs_per_task: 8,
            max_task_bytes: None,
        });
        let ex = self.exec.clone();
            let h = driver.spawn_worker(Arc::new(ex.clone()), planner, ce, CompactionWorkerConfig::new(None, 1, 1, CascadeConfig::new(0, Duration::ZERO)));
            h.kick();
            ex.sleep(Duration::from_secs(30)).await;
            drop(h);
            ex.sleep(Duration::from_secs(1)).await;
    }
    pub fn scan(&self) -> R<Vec<Row>> {
        let db = self.db.clone();
        estr(self.exec.block_on(AssumeSend(async move { db.scan().collect().await.map_err(|e| e.to_string()).map(|b| rows_of(&b)) }))?, "scan")
    }
    /// Stop the process cleanly (drop the handle, let background tasks end) or abruptly.
    pub fn stop(self, clean: bool) -> R {
        let Node { exec, db, .. } = self;
        if clean {
            drop(db);
            let e = exec.clone();
            exec.block_on(async move { e.sleep(Duration::from_secs(1)).await })?;
        } else {
            exec.kill_all();
            drop(db);
        }
        exec.kill_all();
        exec.advance(Duration::from_secs(3600));
        Ok(())
    }
}

pub fn rows_batch(rows: &[(&str, Option<i64>)]) -> RecordBatch {
    kv_batch(&rows.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>())
}
pub fn rows_of(bs: &[RecordBatch]) -> Vec<Row> {
    bs.iter().filter(|b| b.num_rows() > 0).flat_map(kv_rows).collect()
}
pub fn img_rows(m: &Img) -> Vec<Row> {
    m.iter().map(|(k, v)| (k.clone(), *v)).collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    PutA,
    PutB,
    DelA,
    /// a deleted and b written in one batch
    Mix,
    /// a transaction that writes a and deletes b
    Tx,
    Seal,
    Flush,
    Compact,
    Reopen,
    /// the log starts a new segment
    Rotate,
    /// the process dies between two operations, and the database is opened again
    Crash,
}
pub const OPS: [Op; 8] = [Op::PutA, Op::PutB, Op::DelA, Op::Mix, Op::Seal, Op::Flush, Op::Compact, Op::Reopen];

pub fn seq_id(s: &[Op]) -> String {
    s.iter()
        .map(|o| match o {
            Op::PutA => 'a',
            Op::PutB => 'b',
            Op::DelA => 'd',
            Op::Mix => 'm',
            Op::Tx => 't',
            Op::Seal => 'S',
            Op::Flush => 'F',
            Op::Compact => 'C',
            Op::Reopen => 'R',
            Op::Rotate => 'W',
            Op::Crash => 'X',
        })
        .collect()
}

/// Sequences in which every maintenance step has something to do.
pub fn useful(s: &[Op]) -> bool {
    let (mut mem, mut imm, mut l0, mut wrote) = (0, 0, 0, false);
    let mut last_reopen = true;
    for o in s {
        match o {
            Op::PutA | Op::PutB | Op::DelA | Op::Mix | Op::Tx => {
                mem += 1;
                wrote = true;
            }
            Op::Seal => {
                if mem == 0 {
                    return false;
                }
                imm += 1;
                mem = 0;
            }
            Op::Flush => {
                if imm == 0 {
                    return false;
                }
                imm = 0;
                l0 += 1;
            }
            Op::Compact => {
                if l0 == 0 {
                    return false;
                }
                l0 = 0;
            }
            Op::Rotate => {}
            Op::Reopen | Op::Crash => {
                if last_reopen || !wrote {
                    return false;
                }
                // everything still logged comes back in the buffer; be generous
                mem += imm + 1;
                imm = 0;
            }
        }
        last_reopen = matches!(o, Op::Reopen | Op::Crash);
    }
    true
}

pub struct Run {
    pub opts: Opts,
    pub node: Option<Node>,
    pub cur: Img,
    pub n: i64,
}
impl Run {
    pub fn new(node: Node) -> Run {
        Run { opts: Opts::default(), node: Some(node), cur: Img::new(), n: 0 }
    }
    pub fn with(opts: &Opts) -> R<Run> {
        let node = open_with(&TraceFs::new(), &VExec::new(), opts)?;
        Ok(Run { opts: opts.clone(), node: Some(node), cur: Img::new(), n: 0 })
    }
    /// A database that has seen one commit (of another key), so that commit time 0 is used up.
    pub fn started() -> R<Run> {
        let mut r = Run::new(Node::fresh()?);
        estr(r.node().write(&[("z", Some(0))])?, "write")?;
        r.cur.insert("z".into(), Some(0));
        Ok(r)
    }
    pub fn node(&self) -> &Node {
        self.node.as_ref().unwrap()
    }
    pub fn step(&mut self, o: Op) -> R {
        self.n += 1;
        let n = self.n;
        let w = |r: &Run, rows: &[(&str, Option<i64>)]| -> R { estr(r.node().write(rows)?, "write") };
        match o {
            Op::PutA => {
                w(self, &[("a", Some(n))])?;
                self.cur.insert("a".into(), Some(n));
            }
            Op::PutB => {
                w(self, &[("b", Some(n))])?;
                self.cur.insert("b".into(), Some(n));
            }
            Op::DelA => {
                w(self, &[("a", None)])?;
                self.cur.remove("a");
            }
            Op::Mix => {
                w(self, &[("a", None), ("b", Some(n))])?;
                self.cur.remove("a");
                self.cur.insert("b".into(), Some(n));
            }
            Op::Tx => {
                let db = self.node().db.clone();
                let r = self.node().exec.block_on(AssumeSend(async move {
                    let mut tx = db.begin_transaction().await.map_err(|e| e.to_string())?;
                    tx.upsert(super::s_txn::row("a", n)).map_err(|e| e.to_string())?;
                    tx.delete(KeyOwned::from("b")).map_err(|e| e.to_string())?;
                    tx.commit().await.map_err(|e| e.to_string())
                }))?;
                estr(r, "transaction")?;
                self.cur.insert("a".into(), Some(n));
                self.cur.remove("b");
            }
            Op::Seal => self.node().seal()?,
            Op::Flush => {
                estr(self.node().flush()?, "flush")?;
            }
            Op::Compact => self.node().compact(None)?,
            Op::Rotate => {
                let db = self.node().db.clone();
                let r = self.node().exec.block_on(async move {
                    let Some(h) = db.verif_inner().wal_handle().cloned() else { return Ok(()) };
                    h.rotate().await.map_err(|e| e.to_string())
                })?;
                estr(r, "rotate")?;
            }
            Op::Reopen | Op::Crash => {
                let node = self.node.take().unwrap();
                let (fs, exec) = (node.fs.clone(), node.exec.clone());
                node.stop(o == Op::Reopen)?;
                self.node = Some(open_with(&fs, &exec, &self.opts)?);
            }
        }
        Ok(())
    }
}

/// Reads through a fixed snapshot.
pub fn snap_scan(n: &Node, sn: &crate::transaction::Snapshot) -> R<Vec<Row>> {
    let (db, sn) = (n.db.clone(), sn.clone());
    estr(
        n.exec.block_on(AssumeSend(async move { sn.scan(&db).collect().await.map_err(|e| e.to_string()).map(|b| rows_of(&b)) }))?,
        "snapshot scan",
    )
}
pub fn snapshot(n: &Node) -> R<crate::transaction::Snapshot> {
    let db = n.db.clone();
    estr(n.exec.block_on(async move { db.begin_snapshot().await.map_err(|e| e.to_string()) })?, "snapshot")
}

fn run_sequences(ctx: &Ctx) {
    let d = ctx.by(6, 7);
    let s = ctx.suite("db.sequences", format!("all useful sequences of {} operations over {:?}, unfiltered scan after every step", d, OPS));
    let mut cases: Vec<Vec<Op>> = sequences(&OPS, d).into_iter().filter(|c| useful(c)).collect();
    if !ctx.thorough() {
        cases.retain(|c| !matches!(c.last(), Some(Op::Seal)));
    }
    s.par_cases(&cases, |c| seq_id(c), |c, rec| {
        let mut r = Run::new(Node::fresh()?);
        for (i, o) in c.iter().enumerate() {
            r.step(*o)?;
            rec.step();
            let got = r.node().scan()?;
            rec.eval();
            rec.state(&(seq_id(&c[..=i]), &got));
            ensure!(got == img_rows(&r.cur), "after {} step {i}: scan returned {got:?}, expected {:?}", seq_id(&c[..=i]), img_rows(&r.cur));
        }
        Ok(())
    });
}

/// One snapshot opened at every position of every sequence, read again after every later step.
fn run_snapshots(ctx: &Ctx) {
    let d = ctx.by(5, 6);
    let s = ctx.suite("db.snapshots", format!("all useful sequences of {d} operations (no reopen) x every position of one snapshot, read again after every later step"));
    let ops: Vec<Op> = OPS.iter().copied().filter(|o| *o != Op::Reopen).collect();
    let mut cases: Vec<(Vec<Op>, usize)> = vec![];
    for c in sequences(&ops, d).into_iter().filter(|c| useful(c)) {
        for p in 0..d {
            cases.push((c.clone(), p));
        }
    }
    s.par_cases(&cases, |(c, p)| format!("{}@{p}", seq_id(c)), |(c, p), rec| {
        let mut r = Run::started()?;
        let mut snap = None;
        for (i, o) in c.iter().enumerate() {
            if i == *p {
                snap = Some((snapshot(r.node())?, img_rows(&r.cur)));
            }
            r.step(*o)?;
            rec.step();
            if let Some((sn, want)) = &snap {
                let got = snap_scan(r.node(), sn)?;
                rec.eval();
                ensure!(&got == want, "{} snapshot at {p}, read after step {i}: {got:?}, expected {want:?}", seq_id(c));
            }
        }
        Ok(())
    });
    // Known: before the first commit ever, a snapshot cannot exclude that commit (both have time 0).
    let s = ctx.suite("db.first-snapshot", "a snapshot opened before anything was committed, x all sequences of 3 operations afterwards");
    let cases: Vec<Vec<Op>> = sequences(&ops, 3).into_iter().filter(|c| useful(c)).collect();
    s.par_cases(&cases, |c| seq_id(c), |c, rec| {
        let mut r = Run::new(Node::fresh()?);
        let sn = snapshot(r.node())?;
        let mut first: Option<Vec<Row>> = None;
        let mut known = false;
        for (i, o) in c.iter().enumerate() {
            r.step(*o)?;
            rec.step();
            first.get_or_insert_with(|| img_rows(&r.cur));
            let got = snap_scan(r.node(), &sn)?;
            rec.eval();
            known |= !got.is_empty();
            ensure!(got.is_empty() || Some(&got) == first.as_ref(), "{} empty snapshot read after step {i}: {got:?}", seq_id(c));
        }
        if known { Err(Fail::Known("first-commit-visible", "a snapshot opened before the first commit shows that commit".into())) } else { Ok(()) }
    });
}

pub fn run(ctx: &Ctx) {
    let p = ctx.prop.as_str();
    if ["C01", "C02", "C12", "C23"].contains(&p) {
        run_sequences(ctx);
    }
    if ["C03"].contains(&p) {
        run_snapshots(ctx);
    }
}
