//! C18, C26, C29 (and C25): the background compaction worker - planner, scheduler, driver and
//! publication - on the real manifest, with an executor that records what it is asked to do.
//! All preemption-bounded schedules against concurrent flushes, all execution failures, all
//! storage faults while publishing.
use std::{
    collections::{BTreeMap, BTreeSet},
    pin::Pin,
    sync::{Arc, Mutex},
    time::Duration,
};

use fusio::{dynamic::MaybeSendFuture, executor::{Executor, JoinHandle, Timer}, path::Path};

use super::{core::*, exec::{VExec, yield_now}, tracefs::*};
use crate::{
    compaction::{
        CompactionDriver, CompactionWorkerConfig,
        executor::{CompactionError, CompactionExecutor, CompactionJob, CompactionOutcome},
        metrics::CompactionMetrics,
        orchestrator,
        planner::{LeveledCompactionPlanner, LeveledPlannerConfig},
    },
    db::{CasBackoffConfig, CascadeConfig},
    ensure,
    id::FileIdGenerator,
    key::KeyOwned,
    manifest::{ManifestResult, SstEntry, TableDefinition, TableId, TonboManifest, VersionEdit, VersionState, bootstrap::init_fs_manifest},
    mvcc::Timestamp,
    ondisk::sstable::{SsTableDescriptor, SsTableId, SsTableStats},
};

type M = TonboManifest<TraceFs, VExec>;

#[derive(Clone, Debug)]
struct Job {
    level: usize,
    target: usize,
    inputs: Vec<u64>,
    outputs: Vec<u64>,
    failed: bool,
    cleaned: bool,
}
#[derive(Default)]
struct World {
    /// tokens (base file ids) held by every file ever produced
    content: BTreeMap<u64, BTreeSet<u64>>,
    jobs: Vec<Job>,
    running: usize,
    peak: usize,
    next: u64,
    problems: Vec<String>,
}
#[derive(Clone)]
struct Mock {
    fs: TraceFs,
    w: Arc<Mutex<World>>,
    outs: usize,
    fail: Option<usize>,
}
fn path_of(id: u64) -> Path {
    Path::parse(format!("sst/f{id}")).unwrap()
}
fn stats(id: u64) -> SsTableStats {
    SsTableStats {
        rows: id as usize,
        bytes: 10,
        tombstones: 0,
        min_key: Some(KeyOwned::from("a")),
        max_key: Some(KeyOwned::from("c")),
        min_commit_ts: Some(Timestamp::new(1)),
        max_commit_ts: Some(Timestamp::new(id)),
    }
}
impl CompactionExecutor for Mock {
    fn execute(&self, job: CompactionJob) -> Pin<Box<dyn MaybeSendFuture<Output = Result<CompactionOutcome, CompactionError>> + '_>> {
        Box::pin(async move {
            let inputs: Vec<u64> = job.inputs.iter().map(|d| d.id().raw()).collect();
            let n;
            let outs: Vec<u64>;
            {
                let mut w = self.w.lock().unwrap();
                n = w.jobs.len();
                w.running += 1;
                w.peak = w.peak.max(w.running);
                outs = (0..self.outs).map(|i| w.next + i as u64).collect();
                w.next += self.outs as u64;
                let tokens: Vec<u64> = inputs.iter().flat_map(|i| w.content.get(i).cloned().unwrap_or_default()).collect();
                for o in &outs {
                    w.content.entry(*o).or_default();
                }
                for (k, t) in tokens.iter().enumerate() {
                    let o = outs[k % outs.len()];
                    w.content.entry(o).or_default().insert(*t);
                }
                for i in &inputs {
                    if self.fs.read_file(&format!("sst/f{i}")).is_none() {
                        w.problems.push(format!("job over missing file {i}"));
                    }
                }
                let want: Vec<u64> = job.task.input.iter().map(|i| i.sst_id.raw()).collect();
                if want != inputs {
                    w.problems.push(format!("job inputs {inputs:?} differ from the plan {want:?}"));
                }
                w.jobs.push(Job { level: job.task.source_level, target: job.task.target_level, inputs: inputs.clone(), outputs: outs.clone(), failed: false, cleaned: false });
            }
            yield_now().await;
            let r = if self.fail == Some(n) {
                self.w.lock().unwrap().jobs[n].failed = true;
                Err(CompactionError::NoInputs)
            } else {
                for o in &outs {
                    self.fs.write_file(&format!("sst/f{o}"), vec![1]);
                }
                let ds: Vec<SsTableDescriptor> = outs
                    .iter()
                    .map(|o| SsTableDescriptor::new(SsTableId::new(*o), job.task.target_level).with_stats(stats(*o)).with_wal_ids(None).with_storage_paths(path_of(*o), None))
                    .collect();
                CompactionOutcome::from_outputs(ds, job.inputs, job.task.target_level as u32, None)
            };
            self.w.lock().unwrap().running -= 1;
            r
        })
    }
    fn cleanup_outputs<'a>(&'a self, outputs: &'a [SsTableDescriptor]) -> Pin<Box<dyn MaybeSendFuture<Output = Result<(), CompactionError>> + 'a>> {
        Box::pin(async move {
            yield_now().await;
            let ids: Vec<u64> = outputs.iter().map(|d| d.id().raw()).collect();
            for id in &ids {
                self.fs.remove_file(&format!("sst/f{id}"));
            }
            let mut w = self.w.lock().unwrap();
            for j in w.jobs.iter_mut().filter(|j| j.outputs == ids) {
                j.cleaned = true;
            }
            Ok(())
        })
    }
}

#[derive(Clone, Debug)]
struct Cfg {
    l0: usize,
    l1: usize,
    trigger: usize,
    th: Vec<usize>,
    jobs: usize,
    queue: usize,
    budget: usize,
    cooldown: u64,
    outs: usize,
    fail: Option<usize>,
    flushes: usize,
    periodic: bool,
}
impl Cfg {
    fn id(&self) -> String {
        format!(
            "L{}.{}-t{}{:?}-j{}q{}-c{}.{}-o{}-f{:?}-fl{}{}",
            self.l0, self.l1, self.trigger, self.th, self.jobs, self.queue, self.budget, self.cooldown, self.outs, self.fail, self.flushes, if self.periodic { "p" } else { "" }
        )
    }
    fn planner(&self) -> LeveledCompactionPlanner {
        LeveledCompactionPlanner::new(LeveledPlannerConfig {
            l0_trigger: self.trigger,
            l0_max_inputs: 2,
            l0_max_bytes: None,
            level_thresholds: self.th.clone(),
            level_max_bytes: vec![],
            max_inputs_per_task: 3,
            max_task_bytes: None,
        })
    }
}

fn def() -> TableDefinition {
    TableDefinition { name: "t".into(), schema_fingerprint: "fp".into(), primary_key_columns: vec!["id".into()], retention: None, schema_version: 1 }
}
fn entry(id: u64) -> SstEntry {
    SstEntry::new(SsTableId::new(id), Some(stats(id)), None, path_of(id), None)
}
fn layout(v: &VersionState) -> BTreeSet<(usize, u64)> {
    v.ssts().iter().enumerate().flat_map(|(l, es)| es.iter().map(move |e| (l, e.sst_id().raw()))).collect()
}
fn me<T>(r: ManifestResult<T>, what: &str) -> R<T> {
    r.map_err(|e| Fail::Bad(format!("{what}: {e}")))
}

struct Sys {
    fs: TraceFs,
    exec: VExec,
    m: M,
    tid: TableId,
    w: Arc<Mutex<World>>,
    flushed: Arc<Mutex<BTreeSet<u64>>>,
    metrics: Arc<CompactionMetrics>,
}

fn start(cfg: &Cfg) -> R<Sys> {
    let fs = TraceFs::new();
    let exec = VExec::new();
    let (m, tid) = exec.block_on({
        let fs = fs.clone();
        let ex = exec.clone();
        async move {
            let m = init_fs_manifest(fs, &Path::parse("db/manifest").unwrap(), ex).await?;
            let meta = m.register_table(&FileIdGenerator::default(), &def()).await?;
            ManifestResult::Ok((m, meta.table_id))
        }
    })?
    .map_err(|e| Fail::Bad(e.to_string()))?;
    let w = Arc::new(Mutex::new(World { next: 100, ..Default::default() }));
    let mut edits = vec![];
    let mut all = BTreeSet::new();
    for (lvl, n, base) in [(0u32, cfg.l0, 1u64), (1, cfg.l1, 11)] {
        for k in 0..n as u64 {
            let id = base + k;
            fs.write_file(&format!("sst/f{id}"), vec![1]);
            w.lock().unwrap().content.insert(id, [id].into());
            all.insert(id);
            edits.push(VersionEdit::AddSsts { level: lvl, entries: vec![entry(id)] });
        }
    }
    if !edits.is_empty() {
        let m2 = m.clone();
        me(exec.block_on(async move { m2.apply_version_edits(tid, &edits).await })?, "initial layout")?;
    }
    Ok(Sys { fs, exec, m, tid, w, flushed: Arc::new(Mutex::new(all)), metrics: Arc::new(CompactionMetrics::new()) })
}

const QUIET: Duration = Duration::from_secs(1000);

/// Run the worker against `cfg.flushes` concurrent flushes until everything is quiet.
/// Returns the number of kicks given.
fn drive(sys: &Sys, cfg: &Cfg, ch: &mut Chooser) -> R {
    let driver = Arc::new(CompactionDriver::new(
        sys.m.clone(),
        sys.tid,
        None,
        None,
        Arc::new(sys.exec.clone()),
        CasBackoffConfig::new(Duration::from_millis(1), Duration::from_millis(4)),
        Some(sys.metrics.clone()),
    ));
    let mock = Mock { fs: sys.fs.clone(), w: sys.w.clone(), outs: cfg.outs, fail: cfg.fail };
    let handle = Arc::new(driver.spawn_worker(
        Arc::new(sys.exec.clone()),
        cfg.planner(),
        mock,
        CompactionWorkerConfig::new(cfg.periodic.then(|| Duration::from_secs(10)), cfg.queue, cfg.jobs, CascadeConfig::new(cfg.budget, Duration::from_millis(cfg.cooldown))),
    ));
    let mut joins = vec![];
    for k in 0..cfg.flushes as u64 {
        let (m, tid, fs, w, h, flushed) = (sys.m.clone(), sys.tid, sys.fs.clone(), sys.w.clone(), handle.clone(), sys.flushed.clone());
        let periodic = cfg.periodic;
        joins.push(sys.exec.spawn(async move {
            let id = 50 + k;
            yield_now().await;
            fs.write_file(&format!("sst/f{id}"), vec![1]);
            w.lock().unwrap().content.insert(id, [id].into());
            flushed.lock().unwrap().insert(id);
            let r = m.apply_version_edits(tid, &[VersionEdit::AddSsts { level: 0, entries: vec![entry(id)] }]).await;
            if r.is_err() {
                flushed.lock().unwrap().insert(1_000_000 + id); // outcome unknown
            }
            if !periodic {
                h.kick();
            }
        }));
    }
    let periodic = cfg.periodic;
    let exec = sys.exec.clone();
    sys.exec.run(ch, async move {
        if !periodic {
            handle.kick();
        }
        for j in joins {
            let _ = j.join().await;
        }
        exec.sleep(if periodic { Duration::from_secs(100) } else { QUIET }).await;
        drop(handle);
        exec.sleep(QUIET).await;
    })
}

fn versions(sys: &Sys) -> R<Vec<VersionState>> {
    let (m, t) = (sys.m.clone(), sys.tid);
    let mut v = me(sys.exec.block_on(async move { m.list_versions(t, 100).await })?, "listing versions")?;
    v.sort_by_key(|x| x.commit_timestamp());
    Ok(v)
}

fn gc_plans(sys: &Sys) -> Vec<(BTreeSet<u64>, usize)> {
    // every recorded garbage list, in the order stored
    let mut out = vec![];
    for e in sys.fs.log() {
        let Ev::Put(path, data, _) = e else { continue };
        if !path.contains("/gc") {
            continue;
        }
        if let Ok(v) = serde_json::from_slice::<serde_json::Value>(&data) {
            find_plans(&v, &mut out);
        }
    }
    out
}
fn find_plans(v: &serde_json::Value, out: &mut Vec<(BTreeSet<u64>, usize)>) {
    match v {
        serde_json::Value::Object(o) => {
            if let Some(serde_json::Value::Array(a)) = o.get("obsolete_ssts") {
                let ids = a.iter().filter_map(|x| x["id"].as_u64()).collect();
                out.push((ids, a.len()));
                return;
            }
            o.values().for_each(|x| find_plans(x, out));
        }
        serde_json::Value::Array(a) => a.iter().for_each(|x| find_plans(x, out)),
        _ => {}
    }
}

/// `faulty`: a storage fault was injected, so files may leak and work may be left over.
fn check(sys: &Sys, cfg: &Cfg, rec: &mut Rec, faulty: bool) -> R {
    let vs = versions(sys)?;
    let w = sys.w.lock().unwrap();
    let flushed = sys.flushed.lock().unwrap().clone();
    rec.eval();
    ensure!(w.problems.is_empty(), "{:?}", w.problems);
    ensure!(w.peak <= cfg.jobs.max(1), "{} jobs ran at once, at most {} allowed", w.peak, cfg.jobs.max(1));
    let mut ever: BTreeSet<u64> = BTreeSet::new();
    let mut published = 0usize;
    let mut used: BTreeSet<usize> = BTreeSet::new();
    let mut prev: Option<BTreeSet<(usize, u64)>> = None;
    for v in &vs {
        let lay = layout(v);
        rec.state(&format!("{lay:?}"));
        let mut seen: BTreeMap<u64, u64> = BTreeMap::new();
        for (l, id) in &lay {
            ever.insert(*id);
            ensure!(sys.fs.read_file(&format!("sst/f{id}")).is_some(), "version {:?} lists file {id} at level {l}, which does not exist any more; jobs {:?}", v.commit_timestamp(), w.jobs);
            let Some(c) = w.content.get(id) else { return bad(format!("unknown file {id} in version {lay:?}")) };
            for t in c {
                if let Some(o) = seen.insert(*t, *id) {
                    return bad(format!("data of file {t} is held by both {o} and {id} in one version {lay:?}; jobs {:?}", w.jobs));
                }
            }
        }
        if let Some(p) = &prev {
            let gone: BTreeSet<(usize, u64)> = p.difference(&lay).copied().collect();
            let new: BTreeSet<(usize, u64)> = lay.difference(p).copied().collect();
            if gone.is_empty() && new.len() == 1 && flushed.contains(&new.iter().next().unwrap().1) {
                // a flush
            } else {
                let j = w.jobs.iter().position(|j| j.outputs.iter().map(|o| (j.target, *o)).collect::<BTreeSet<_>>() == new && j.inputs.iter().copied().collect::<BTreeSet<_>>() == gone.iter().map(|x| x.1).collect());
                let Some(j) = j else { return bad(format!("version step {p:?} -> {lay:?} is neither a flush nor the swap of one executed job {:?}", w.jobs)) };
                ensure!(!w.jobs[j].failed, "a failed job was published");
                ensure!(used.insert(j), "job {j} was published twice");
                published += 1;
            }
        }
        let have: BTreeSet<u64> = seen.keys().copied().collect();
        let before: BTreeSet<u64> = prev.iter().flatten().flat_map(|(_, id)| w.content[id].iter().copied()).collect();
        ensure!(before.is_subset(&have), "version step lost data of files {:?}: {lay:?}", before.difference(&have).collect::<Vec<_>>());
        prev = Some(lay);
    }
    let fin = vs.last();
    if let Some(v) = fin {
        let have: BTreeSet<u64> = layout(v).iter().flat_map(|(_, id)| w.content[id].iter().copied()).collect();
        for f in flushed.iter().filter(|f| **f < 1_000_000 && !flushed.contains(&(**f + 1_000_000))) {
            ensure!(have.contains(f), "data of file {f} is no longer in any live file: {:?}", layout(v));
        }
    }
    // Publications whose outcome was unknown to the worker (another session raced it to the head):
    // their outputs may still be adopted and are kept.
    let snap = sys.metrics.snapshot();
    let failed = w.jobs.iter().filter(|j| j.failed).count() as u64;
    let unknown = snap.job_failures.saturating_sub(failed + snap.cas_aborts) as usize;
    let mut leaked = 0usize;
    for (i, j) in w.jobs.iter().enumerate() {
        ensure!(!(used.contains(&i) && j.cleaned), "outputs of the published job {i} were removed");
        if !used.contains(&i) && j.outputs.iter().any(|o| sys.fs.read_file(&format!("sst/f{o}")).is_some()) {
            leaked += 1;
        }
    }
    ensure!(faulty || leaked <= unknown, "{leaked} discarded jobs left their outputs behind, {unknown} had an unknown outcome: {:?}", w.jobs);
    // garbage lists
    let plans = gc_plans(sys);
    let mut released: BTreeSet<u64> = BTreeSet::new();
    let live: BTreeSet<u64> = fin.map(|v| layout(v).iter().map(|x| x.1).collect()).unwrap_or_default();
    for (ids, n) in &plans {
        ensure!(*n == ids.len(), "garbage list names a file twice: {ids:?}");
        for i in ids {
            ensure!(!live.contains(i), "garbage list names the live file {i}");
            ensure!(released.insert(*i) || faulty, "file {i} released twice");
        }
        ensure!(used.iter().any(|j| &w.jobs[*j].inputs.iter().copied().collect::<BTreeSet<_>>() == ids), "garbage list {ids:?} is not the inputs of a published job");
    }
    if !faulty {
        ensure!(plans.len() <= published && plans.len() + unknown >= published, "{} garbage lists for {published} published jobs", plans.len());
        let s = snap;
        ensure!(s.job_count as usize <= published && s.job_count as usize + unknown >= published, "metrics count {} jobs, published {published}", s.job_count);
        // work left over?
        if (cfg.fail.is_none() && unknown == 0) || cfg.periodic {
            if let Some(v) = fin {
                let left = orchestrator::plan_from_version(&cfg.planner(), v);
                ensure!(left.is_none(), "quiet although a plan exists: {left:?} for {:?}; jobs {:?}", layout(v), w.jobs);
            }
        }
        // cascades
        let kicks = s.trigger_kick + s.trigger_periodic;
        ensure!(s.cascades_scheduled <= cfg.budget as u64 * kicks, "{} cascades for {kicks} triggers with a budget of {}", s.cascades_scheduled, cfg.budget);
        if cfg.cooldown >= 100_000_000 {
            ensure!(s.cascades_scheduled + s.cascades_blocked_cooldown == 0 || s.cascades_scheduled <= 1, "{} cascades within one cool-down period", s.cascades_scheduled);
        }
    }
    Ok(())
}

fn one(cfg: &Cfg, ch: &mut Chooser, rec: &mut Rec) -> R {
    let sys = start(cfg)?;
    sys.fs.set_yield_filter(&["HEAD", "head"]);
    sys.fs.set_yields(true);
    drive(&sys, cfg, ch)?;
    sys.fs.set_yields(false);
    rec.steps(sys.exec.steps());
    check(&sys, cfg, rec, false)?;
    if cfg.fail.is_some() || sys.metrics.snapshot().job_failures > 0 {
        // the failed work is picked up by the next trigger
        let again = Cfg { fail: None, flushes: 0, ..cfg.clone() };
        for _ in 0..2 {
            drive(&sys, &again, &mut Chooser::new(vec![]))?;
            check(&sys, &again, rec, false)?;
        }
        if let Some(v) = versions(&sys)?.last() {
            let left = orchestrator::plan_from_version(&cfg.planner(), v);
            ensure!(left.is_none(), "quiet although a plan exists: {left:?} for {:?}", layout(v));
        }
    }
    Ok(())
}

fn cfgs(ctx: &Ctx) -> Vec<Cfg> {
    let mut v = vec![];
    for (l0, l1) in [(0, 0), (1, 0), (2, 0), (3, 1), (4, 2), (0, 3)] {
        for (trigger, th) in [(2usize, vec![1usize]), (2, vec![2, 1]), (1, vec![])] {
            for (jobs, queue) in [(1usize, 1usize), (2, 1), (3, 4)] {
                for (budget, cooldown) in [(0usize, 0u64), (1, 0), (2, 0), (2, 100_000_000)] {
                    for outs in [1usize, 2] {
                        for flushes in [0usize, 1] {
                            for periodic in [false, true] {
                                if outs == 2 && (trigger == 1 || !th.is_empty()) && th.len() < 2 {
                                    // two outputs over a threshold of one at every level never settle above
                                }
                                if periodic && (outs == 2 || budget == 2 || jobs == 3) {
                                    continue;
                                }
                                if trigger == 1 && outs == 2 && !ctx.thorough() {
                                    continue;
                                }
                                for fail in [None, Some(0), Some(1)] {
                                    if fail.is_some() && (outs == 2 || periodic || budget == 2) && !ctx.thorough() {
                                        continue;
                                    }
                                    v.push(Cfg { l0, l1, trigger, th: th.clone(), jobs, queue, budget, cooldown, outs, fail, flushes, periodic });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

fn schedules(ctx: &Ctx) {
    let all = cfgs(ctx);
    let s = ctx.suite("driver.configs", format!("{} combinations of starting levels, thresholds, parallelism, queue, cascade budget/cool-down, outputs per job, failing job, concurrent flush, kick/periodic trigger; default schedule: file sets, contents, garbage lists, limits and quiescence", all.len()));
    s.par(all.len(), |i, s| {
        s.case(&all[i].id(), |rec| one(&all[i], &mut Chooser::new(vec![]), rec));
    });
    let bound = ctx.by(3, 4);
    let s = ctx.suite("driver.sched", format!("worker with 1..=2 parallel jobs against 1..=2 concurrent flushes with kicks, all schedules with at most {bound} preemptions at job steps and manifest head accesses"));
    let base = Cfg { l0: 2, l1: 0, trigger: 2, th: vec![1], jobs: 1, queue: 1, budget: 1, cooldown: 0, outs: 1, fail: None, flushes: 1, periodic: false };
    let list = vec![
        base.clone(),
        Cfg { jobs: 2, queue: 2, l0: 4, ..base.clone() },
        Cfg { l1: 2, flushes: 1, jobs: 2, budget: 2, ..base.clone() },
        Cfg { flushes: 2, trigger: 3, ..base.clone() },
        Cfg { l0: 3, fail: Some(0), ..base.clone() },
        Cfg { l0: 2, l1: 1, outs: 2, th: vec![2, 1], ..base.clone() },
    ];
    for c in &list {
        explore(&s, &c.id(), if c.flushes > 1 || c.jobs > 1 { bound.min(ctx.by(2, 3)) } else { bound }, 100_000, &|ch, rec| one(c, ch, rec));
    }
}

fn faults(ctx: &Ctx) {
    let base = Cfg { l0: 2, l1: 1, trigger: 2, th: vec![1], jobs: 1, queue: 1, budget: 1, cooldown: 0, outs: 1, fail: None, flushes: 0, periodic: false };
    let list = vec![base.clone(), Cfg { flushes: 1, ..base.clone() }, Cfg { jobs: 2, queue: 2, outs: 2, th: vec![2, 1], ..base.clone() }];
    let s = ctx.suite("driver.fault", "every single storage operation of the worker's publication failing without effect, failing after taking effect, or failing together with everything after it; every single read failing: no listed file is ever removed, no data lost, and the next trigger completes the work");
    let mut cases = vec![];
    for (ci, _) in list.iter().enumerate() {
        for kind in [FaultKind::Err, FaultKind::Partial, FaultKind::Dead] {
            cases.push((ci, Some(kind)));
        }
        cases.push((ci, None));
    }
    s.par(cases.len(), |i, s| {
        let (ci, kind) = cases[i];
        let cfg = &list[ci];
        let mut n = 0u64;
        let mut done = false;
        while !done && n < 400 {
            s.case(&format!("c{ci}-{kind:?}-{n}"), |rec| {
                let sys = start(cfg)?;
                match kind {
                    Some(k) => sys.fs.set_fault(sys.fs.op_count() + n, k),
                    None => sys.fs.set_read_fault(sys.fs.read_count() + n),
                }
                drive(&sys, cfg, &mut Chooser::new(vec![]))?;
                rec.steps(sys.exec.steps());
                let hit = sys.fs.fault_hit();
                if hit.is_none() {
                    done = true;
                }
                sys.fs.clear_fault();
                sys.exec.advance(Duration::from_secs(3600));
                let cx = |e: Fail| match e {
                    Fail::Bad(m) => Fail::Bad(format!("{m}\nafter a fault on {hit:?}")),
                    k => k,
                };
                check(&sys, cfg, rec, true).map_err(cx)?;
                let again = Cfg { flushes: 0, ..cfg.clone() };
                // the first attempt may still find the interrupted update of the failed one
                for _ in 0..2 {
                    drive(&sys, &again, &mut Chooser::new(vec![])).map_err(cx)?;
                    check(&sys, &again, rec, true).map_err(cx)?;
                }
                let v = versions(&sys)?;
                if let Some(v) = v.last() {
                    let left = orchestrator::plan_from_version(&cfg.planner(), v);
                    ensure!(left.is_none(), "work left over after the fault on {hit:?} was gone and a new trigger: {left:?}");
                }
                Ok(())
            });
            if s.ctx.filter.is_some() && n > 200 {
                break;
            }
            n += 1;
        }
    });
}

/// One trigger after another at chosen times; each flushes a file, so each leads to exactly one move
/// from level 0 to level 1 that asks for a follow-up. Decisions against the documented rule.
fn cascade_one(budget: usize, cooldown: u64, gaps: &[u64], rec: &mut Rec) -> R {
    let cfg = Cfg { l0: 0, l1: 0, trigger: 1, th: vec![1], jobs: 1, queue: 8, budget, cooldown, outs: 2, fail: None, flushes: 0, periodic: false };
    let sys = start(&cfg)?;
    let driver = Arc::new(CompactionDriver::new(
        sys.m.clone(),
        sys.tid,
        None,
        None,
        Arc::new(sys.exec.clone()),
        CasBackoffConfig::new(Duration::from_millis(1), Duration::from_millis(4)),
        Some(sys.metrics.clone()),
    ));
    let mock = Mock { fs: sys.fs.clone(), w: sys.w.clone(), outs: cfg.outs, fail: None };
    let h = driver.spawn_worker(Arc::new(sys.exec.clone()), cfg.planner(), mock, CompactionWorkerConfig::new(None, cfg.queue, cfg.jobs, CascadeConfig::new(budget, Duration::from_millis(cooldown))));
    let (exec, m, tid, fs, w, fl, mx) = (sys.exec.clone(), sys.m.clone(), sys.tid, sys.fs.clone(), sys.w.clone(), sys.flushed.clone(), sys.metrics.clone());
    let gaps = gaps.to_vec();
    let out: Arc<Mutex<Vec<(u64, [u64; 3])>>> = Default::default();
    let o = out.clone();
    sys.exec.run(&mut Chooser::new(vec![]), async move {
        let mut t = 0;
        for (k, g) in gaps.iter().enumerate() {
            exec.sleep(Duration::from_millis(*g) - Duration::from_micros(500)).await;
            t += g;
            let id = 50 + k as u64;
            fs.write_file(&format!("sst/f{id}"), vec![1]);
            w.lock().unwrap().content.insert(id, [id].into());
            fl.lock().unwrap().insert(id);
            let _ = m.apply_version_edits(tid, &[VersionEdit::AddSsts { level: 0, entries: vec![entry(id)] }]).await;
            h.kick();
            exec.sleep(Duration::from_micros(500)).await;
            let s = mx.snapshot();
            o.lock().unwrap().push((t, [s.cascades_scheduled, s.cascades_blocked_cooldown, s.cascades_blocked_budget]));
        }
        exec.sleep(QUIET).await;
        drop(h);
        exec.sleep(QUIET).await;
    })?;
    check(&sys, &cfg, rec, false)?;
    let out = out.lock().unwrap().clone();
    let (mut last, mut want) = (None::<u64>, [0u64; 3]);
    for (t, got) in out {
        let d = if budget == 0 {
            2
        } else if last.is_some_and(|l| t - l < cooldown) {
            1
        } else {
            last = Some(t);
            0
        };
        want[d] += 1;
        rec.eval();
        ensure!(got == want, "after the trigger at {t} ms (budget {budget}, cool-down {cooldown} ms): follow-ups scheduled / held back by the cool-down / by the budget {got:?}, expected {want:?}");
    }
    Ok(())
}

fn cascades(ctx: &Ctx) {
    let n = ctx.by(4, 6);
    let s = ctx.suite("driver.cascade", format!("every sequence of {n} flush-and-kick triggers 1, 20, 49, 50, 51 or 120 ms apart x cascade budgets 0, 1, 2 x cool-downs 0, 50 ms: each move from level 0 asks for one follow-up, allowed exactly if the budget is not used up and the cool-down since the last allowed one has passed"));
    let mut cases = vec![];
    for budget in [0usize, 1, 2] {
        for cooldown in [0u64, 50] {
            for g in sequences(&[1u64, 20, 49, 50, 51, 120], n) {
                cases.push((budget, cooldown, g));
            }
        }
    }
    s.par_cases(&cases, |c| format!("{c:?}"), |(b, c, g), rec| cascade_one(*b, *c, g, rec));
}

pub fn run(ctx: &Ctx) {
    match ctx.prop.as_str() {
        "C25" => faults(ctx),
        "C29" => {
            schedules(ctx);
            faults(ctx);
        }
        "C26" => {
            schedules(ctx);
            cascades(ctx);
            faults(ctx);
        }
        _ => {
            schedules(ctx);
            faults(ctx);
        }
    }
}
