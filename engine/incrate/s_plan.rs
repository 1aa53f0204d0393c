//! C17: compaction plans; C18/C29: turning a compaction result into a version update and a garbage
//! list. All small layouts and configurations on the real planner and orchestrator.
use std::collections::{BTreeMap, BTreeSet};

use fusio::path::Path;

use super::core::*;
use crate::{
    compaction::{
        executor::CompactionOutcome,
        orchestrator,
        planner::{CompactionTask, LeveledCompactionPlanner, LeveledPlannerConfig},
    },
    ensure,
    id::{FileId, FileIdGenerator},
    key::KeyOwned,
    manifest::{SstEntry, TableId, VersionEdit, VersionState, WalSegmentRef},
    mvcc::Timestamp,
    ondisk::sstable::{SsTableDescriptor, SsTableId, SsTableStats},
};

const KEYS: [&str; 3] = ["a", "b", "c"];
/// Key ranges (indexes into KEYS); None: no statistics.
const RANGES: [Option<(usize, usize)>; 7] =
    [Some((0, 0)), Some((0, 1)), Some((1, 1)), Some((1, 2)), Some((0, 2)), Some((2, 2)), None];

#[derive(Clone, Debug)]
struct F {
    id: u64,
    range: Option<(usize, usize)>,
    bytes: usize,
}
fn stats(f: &F) -> Option<SsTableStats> {
    f.range.map(|(lo, hi)| SsTableStats {
        rows: 1,
        bytes: f.bytes,
        tombstones: 0,
        min_key: Some(KeyOwned::from(KEYS[lo])),
        max_key: Some(KeyOwned::from(KEYS[hi])),
        min_commit_ts: Some(Timestamp::new(f.id)),
        max_commit_ts: Some(Timestamp::new(f.id + 100)),
    })
}
fn data_path(id: u64) -> Path {
    Path::parse(format!("sst/d{id}")).unwrap()
}
fn version(levels: &[Vec<F>], tid: TableId) -> VersionState {
    let mut v = VersionState::empty(tid);
    let edits: Vec<VersionEdit> = levels
        .iter()
        .enumerate()
        .filter(|(_, l)| !l.is_empty())
        .map(|(i, l)| VersionEdit::AddSsts {
            level: i as u32,
            entries: l.iter().map(|f| SstEntry::new(SsTableId::new(f.id), stats(f), None, data_path(f.id), None)).collect(),
        })
        .collect();
    v.apply_edits(&edits).expect("layout");
    v
}
fn fbytes(f: &F) -> usize {
    if f.range.is_some() { f.bytes } else { 0 }
}
fn over(cfg: &LeveledPlannerConfig, level: usize, files: &[F]) -> bool {
    if files.is_empty() {
        return false;
    }
    let bytes: usize = files.iter().map(fbytes).sum();
    if level == 0 {
        files.len() >= cfg.l0_trigger || cfg.l0_max_bytes.is_some_and(|c| bytes >= c)
    } else {
        match cfg.level_thresholds.get(level - 1) {
            None => false,
            Some(limit) => files.len() > *limit || cfg.level_max_bytes.get(level - 1).and_then(|b| *b).is_some_and(|c| bytes >= c),
        }
    }
}
fn hull<'a>(fs: impl Iterator<Item = &'a F>) -> Option<(usize, usize)> {
    let mut r: Option<(usize, usize)> = None;
    for f in fs {
        let (lo, hi) = f.range?;
        r = Some(r.map_or((lo, hi), |(a, b)| (a.min(lo), b.max(hi))));
    }
    r
}
fn overlap(a: (usize, usize), b: (usize, usize)) -> bool {
    a.0 <= b.1 && b.0 <= a.1
}
fn check_plan(cfg: &LeveledPlannerConfig, levels: &[Vec<F>], min_level: usize, plan: Option<CompactionTask>) -> R {
    let eligible: Vec<usize> = (min_level..levels.len()).filter(|l| over(cfg, *l, &levels[*l])).collect();
    let Some(t) = plan else {
        ensure!(eligible.is_empty(), "no plan although level(s) {eligible:?} exceed their limits");
        return Ok(());
    };
    ensure!(eligible.contains(&t.source_level), "plan for level {} which is within its limits (over: {eligible:?}): {t:?}", t.source_level);
    ensure!(t.target_level == t.source_level + 1, "plan moves level {} to {}", t.source_level, t.target_level);
    let mut seen = BTreeSet::new();
    let mut by_level: BTreeMap<usize, Vec<&F>> = BTreeMap::new();
    for i in &t.input {
        ensure!(seen.insert((i.level, i.sst_id.raw())), "file {:?} named twice: {t:?}", i.sst_id);
        let f = levels.get(i.level).and_then(|l| l.iter().find(|f| f.id == i.sst_id.raw()));
        let Some(f) = f else { return bad(format!("plan names file {:?} which is not at level {}", i.sst_id, i.level)) };
        ensure!(i.level == t.source_level || i.level == t.target_level, "plan for level {} names a file of level {}", t.source_level, i.level);
        by_level.entry(i.level).or_default().push(f);
    }
    let run = by_level.get(&t.source_level).cloned().unwrap_or_default();
    ensure!(!run.is_empty(), "plan without source files: {t:?}");
    let cap = if t.source_level == 0 { cfg.l0_max_inputs } else { cfg.max_inputs_per_task }.max(1);
    ensure!(run.len() <= cap, "{} source files exceed the limit of {cap}", run.len());
    if let Some(b) = cfg.max_task_bytes {
        let sum: usize = run.iter().map(|f| fbytes(f)).sum();
        ensure!(run.len() == 1 || sum <= b, "{sum} bytes of source files exceed the limit of {b}");
    }
    let empty = vec![];
    let next = levels.get(t.target_level).unwrap_or(&empty);
    let mut range = hull(run.iter().copied());
    if t.source_level > 0 && let Some(r) = range {
        for f in next {
            if let Some(fr) = f.range && overlap(fr, r) {
                ensure!(seen.contains(&(t.target_level, f.id)), "target file {} {:?} overlaps the run {r:?} but is not in the plan", f.id, f.range);
            }
        }
    }
    // nothing of the target level that does not overlap what is merged
    let mut rest: Vec<&F> = by_level.get(&t.target_level).cloned().unwrap_or_default();
    loop {
        let before = rest.len();
        rest.retain(|f| match (f.range, range) {
            (Some(fr), Some(r)) if overlap(fr, r) => {
                range = Some((r.0.min(fr.0), r.1.max(fr.1)));
                false
            }
            _ => true,
        });
        if rest.len() == before {
            break;
        }
    }
    ensure!(rest.is_empty(), "plan pulls in target files that do not overlap it: {rest:?}");
    let all = hull(by_level.values().flatten().copied());
    match (&t.key_range, all) {
        (Some((lo, hi)), Some((a, b))) => ensure!(
            *lo == KeyOwned::from(KEYS[a]) && *hi == KeyOwned::from(KEYS[b]),
            "reported key range {:?} is not the range {a}..{b} of the inputs", t.key_range
        ),
        (None, Some(_)) => return bad("no key range although all inputs have statistics"),
        _ => {}
    }
    Ok(())
}

fn mk(seq: &[Option<(usize, usize)>], first: u64, bytes: u8) -> Vec<F> {
    seq.iter()
        .enumerate()
        .map(|(i, r)| F { id: first + i as u64, range: *r, bytes: match bytes { 0 => 1, 1 => i + 1, _ => seq.len() - i } })
        .collect()
}

pub fn run_plans(ctx: &Ctx) {
    let tid = TableId::new(&FileIdGenerator::default());
    // level 0
    let s = ctx.suite("plan.l0", "all level-0 layouts of <=3 (thorough: 4) files over 6 key ranges or no statistics, 3 byte patterns, x triggers, input/byte limits, level 1 empty / within / over");
    let seqs = sequences_upto(&RANGES, ctx.by(3, 4));
    let mut cfgs = vec![];
    for l0_trigger in [0usize, 1, 2, 3] {
        for l0_max_inputs in [0usize, 1, 2, 9] {
            for l0_max_bytes in [None, Some(2), Some(4)] {
                for max_task_bytes in [None, Some(1), Some(3)] {
                    cfgs.push(LeveledPlannerConfig { l0_trigger, l0_max_inputs, l0_max_bytes, level_thresholds: vec![1, 1], level_max_bytes: vec![], max_inputs_per_task: 2, max_task_bytes });
                }
            }
        }
    }
    s.par(seqs.len(), |i, s| {
        s.case(&format!("l0-{i}"), |rec| {
            for bytes in 0..3u8 {
                for l1 in [0usize, 1, 2] {
                    let levels = vec![mk(&seqs[i], 1, bytes), mk(&[Some((0, 1)), Some((2, 2))][..l1], 50, 0)];
                    let v = version(&levels, tid);
                    rec.state(&format!("{levels:?}"));
                    for cfg in &cfgs {
                        let p = LeveledCompactionPlanner::new(cfg.clone());
                        rec.step();
                        rec.eval();
                        check_plan(cfg, &levels, 0, orchestrator::plan_from_version(&p, &v)).map_err(|e| ctxerr(e, &levels, cfg))?;
                    }
                }
            }
            Ok(())
        })
    });
    let s = ctx.suite("plan.overlap", "all layouts of <=3 level-1 files and <=2 (thorough: 3) level-2 files over 6 key ranges or no statistics, 2 byte patterns, x thresholds, input/byte limits, minimum levels 0..=2");
    let seqs = sequences_upto(&RANGES, 3);
    let seqs2 = sequences_upto(&RANGES, ctx.by(2, 3));
    let mut cfgs = vec![];
    for th in [0usize, 1, 2] {
        for max_inputs_per_task in [0usize, 1, 2, 9] {
            for lb in [None, Some(3)] {
                for max_task_bytes in [None, Some(1), Some(3)] {
                    cfgs.push(LeveledPlannerConfig { l0_trigger: 4, l0_max_inputs: 4, l0_max_bytes: None, level_thresholds: vec![th, 3], level_max_bytes: vec![lb], max_inputs_per_task, max_task_bytes });
                }
            }
        }
    }
    s.par(seqs.len(), |i, s| {
        s.case(&format!("ov-{i}"), |rec| {
            for l2 in &seqs2 {
                for bytes in 1..3u8 {
                    let levels = vec![vec![], mk(&seqs[i], 1, bytes), mk(l2, 50, 0)];
                    let v = version(&levels, tid);
                    rec.state(&format!("{levels:?}"));
                    for (ci, cfg) in cfgs.iter().enumerate() {
                        let p = LeveledCompactionPlanner::new(cfg.clone());
                        let min = ci % 3;
                        rec.step();
                        rec.eval();
                        check_plan(cfg, &levels, min, orchestrator::plan_from_version_with_min_level(&p, &v, min)).map_err(|e| ctxerr(e, &levels, cfg))?;
                    }
                }
            }
            Ok(())
        })
    });
    let s = ctx.suite("plan.levels", "file counts 0..=3 on each of 4 levels (identical or disjoint ranges) x thresholds 0..=2 per level and missing x byte caps x minimum level 0..=4");
    let counts = sequences(&[0usize, 1, 2, 3], 4);
    let ths: Vec<Vec<usize>> = {
        let mut t = sequences_upto(&[0usize, 1, 2], 3);
        t.dedup();
        t
    };
    s.par(counts.len(), |i, s| {
        s.case(&format!("lv-{i}"), |rec| {
            for same in [true, false] {
                let levels: Vec<Vec<F>> = counts[i]
                    .iter()
                    .enumerate()
                    .map(|(l, n)| (0..*n).map(|k| F { id: (l * 10 + k + 1) as u64, range: Some(if same { (0, 2) } else { (k % 3, k % 3) }), bytes: 2 }).collect())
                    .collect();
                let v = version(&levels, tid);
                for th in &ths {
                    for caps in [vec![], vec![None, Some(4)], vec![Some(5), None, Some(2)]] {
                        for l0 in [1usize, 3, 5] {
                            let cfg = LeveledPlannerConfig { l0_trigger: l0, l0_max_inputs: 2, l0_max_bytes: None, level_thresholds: th.clone(), level_max_bytes: caps.clone(), max_inputs_per_task: 2, max_task_bytes: Some(4) };
                            let p = LeveledCompactionPlanner::new(cfg.clone());
                            for min in 0..=4usize {
                                rec.step();
                                rec.eval();
                                check_plan(&cfg, &levels, min, orchestrator::plan_from_version_with_min_level(&p, &v, min)).map_err(|e| ctxerr(e, &levels, &cfg))?;
                            }
                            check_plan(&cfg, &levels, 0, orchestrator::plan_from_version(&p, &v)).map_err(|e| ctxerr(e, &levels, &cfg))?;
                        }
                    }
                }
            }
            Ok(())
        })
    });
    let s = ctx.suite("plan.inputs", "every task over existing, missing and wrong-level files of a small layout: resolved inputs are exactly the named files, or an error");
    s.case("resolve", |rec| {
        let levels = vec![mk(&[Some((0, 1)), Some((1, 2))], 1, 0), mk(&[Some((0, 2))], 7, 0)];
        let v = version(&levels, tid);
        let alpha: Vec<(usize, u64)> = vec![(0, 1), (0, 2), (1, 7), (0, 7), (1, 1), (2, 1), (0, 9)];
        for seq in sequences_upto(&alpha, 3) {
            rec.eval();
            let task = CompactionTask {
                source_level: 0,
                target_level: 1,
                input: seq.iter().map(|(l, id)| crate::compaction::planner::CompactionInput { level: *l, sst_id: SsTableId::new(*id) }).collect(),
                key_range: None,
            };
            let ok = seq.iter().all(|(l, id)| levels.get(*l).is_some_and(|fs| fs.iter().any(|f| f.id == *id)));
            match orchestrator::resolve_inputs(&v, &task) {
                Ok(ds) => {
                    ensure!(ok, "task over missing files {seq:?} resolved");
                    let got: Vec<(usize, u64)> = ds.iter().map(|d| (d.level(), d.id().raw())).collect();
                    ensure!(got == seq, "resolved {got:?} for {seq:?}");
                    for d in &ds {
                        ensure!(d.data_path() == Some(&data_path(d.id().raw())), "wrong path {:?}", d.data_path());
                        let f = levels.iter().flatten().find(|f| f.id == d.id().raw()).unwrap();
                        ensure!(d.stats().map(|s| (s.min_key.clone(), s.max_key.clone(), s.bytes)) == stats(f).map(|s| (s.min_key, s.max_key, s.bytes)), "wrong statistics");
                    }
                }
                Err(_) => ensure!(!ok, "task over existing files {seq:?} refused"),
            }
        }
        Ok(())
    });
}
fn ctxerr(e: Fail, levels: &[Vec<F>], cfg: &LeveledPlannerConfig) -> Fail {
    match e {
        Fail::Bad(m) => Fail::Bad(format!("{m}\nlayout {levels:?}\nconfig {cfg:?}")),
        k => k,
    }
}

/// Log reference patterns of a file: None: unknown; otherwise a subset of the log files 1..=3.
const WALS: [Option<&[u64]>; 6] = [None, Some(&[]), Some(&[0]), Some(&[1]), Some(&[2]), Some(&[0, 2])];

pub fn run_publish(ctx: &Ctx) {
    let g = FileIdGenerator::default();
    let tid = TableId::new(&g);
    let wid: Vec<FileId> = (0..3).map(|i| crate::wal::wal_segment_file_id(i + 10)).collect();
    let s = ctx.suite("publish.outcome", "files: 2 at level 0, 1 at level 1 (thorough: 2+2) x 6 log-reference patterns each x 5 recorded log lists (gaps, empty) x every set of consumed files x 0..=2 outputs with 3 reference patterns: resulting version, log list, floor and garbage list");
    let nf = ctx.by(3, 4);
    let pats = sequences(&[0usize, 1, 2, 3, 4, 5], nf);
    let lists: [&[u64]; 5] = [&[], &[10, 11, 12], &[10, 12], &[11, 14, 15], &[12]];
    s.par(pats.len(), |pi, s| {
        s.case(&format!("pub-{pi}"), |rec| {
            let lv = |i: usize| if i < nf.div_ceil(2) { 0usize } else { 1 };
            let refs = |p: usize| WALS[p].map(|ids| ids.iter().map(|i| wid[*i as usize]).collect::<Vec<_>>());
            for (li, list) in lists.iter().enumerate() {
                let segs: Vec<WalSegmentRef> = list.iter().map(|q| WalSegmentRef::new(*q, crate::wal::wal_segment_file_id(*q), *q * 10, *q * 10 + 5)).collect();
                let mut v = VersionState::empty(tid);
                let entry = |i: usize| {
                    SstEntry::new(SsTableId::new(i as u64 + 1), stats(&F { id: i as u64 + 1, range: Some((0, 1)), bytes: 3 }), refs(pats[pi][i]), data_path(i as u64 + 1), (i == 1).then(|| Path::parse("sst/del2").unwrap()))
                };
                let mut edits: Vec<VersionEdit> = (0..nf).map(|i| VersionEdit::AddSsts { level: lv(i) as u32, entries: vec![entry(i)] }).collect();
                edits.push(VersionEdit::SetWalSegments { segments: segs.clone() });
                v.apply_edits(&edits).expect("layout");
                let before = dump(&v);
                for mask in 1u32..(1 << nf) {
                    for outs in 0..=2usize {
                        for owal in 0..3usize {
                            if outs == 0 && owal > 0 {
                                continue;
                            }
                            rec.step();
                            rec.eval();
                            let removed: Vec<SsTableDescriptor> = {
                                let task = CompactionTask {
                                    source_level: 0,
                                    target_level: 1,
                                    input: (0..nf).filter(|i| mask & (1 << i) != 0).map(|i| crate::compaction::planner::CompactionInput { level: lv(i), sst_id: SsTableId::new(i as u64 + 1) }).collect(),
                                    key_range: None,
                                };
                                orchestrator::resolve_inputs(&v, &task).map_err(|e| Fail::Bad(format!("resolve: {e}")))?
                            };
                            let out_refs: Option<Vec<FileId>> = match owal {
                                0 => {
                                    let mut u: Vec<FileId> = removed.iter().flat_map(|d| d.wal_ids().unwrap_or(&[]).to_vec()).collect();
                                    u.dedup();
                                    Some(u)
                                }
                                1 => None,
                                _ => Some(vec![wid[1]]),
                            };
                            let outputs: Vec<SsTableDescriptor> = (0..outs)
                                .map(|o| {
                                    SsTableDescriptor::new(SsTableId::new(100 + o as u64), 1)
                                        .with_stats(stats(&F { id: 100 + o as u64, range: Some((o, o)), bytes: 3 }).unwrap())
                                        .with_wal_ids(out_refs.clone())
                                        .with_storage_paths(data_path(100 + o as u64), (o == 1).then(|| Path::parse("sst/delout").unwrap()))
                                })
                                .collect();
                            let mut oc = CompactionOutcome::from_outputs(outputs.clone(), removed.clone(), 1, None).map_err(|e| Fail::Bad(format!("outcome: {e}")))?;
                            oc.obsolete_sst_ids = removed.iter().map(|d| d.id().clone()).collect();
                            orchestrator::reconcile_wal_segments(&v, &mut oc, v.wal_segments(), v.cloned_wal_floor());
                            let gc = orchestrator::gc_plan_from_outcome(&oc).map_err(|e| Fail::Bad(format!("gc: {e}")))?;
                            let mut after = v.clone();
                            after.apply_edits(&oc.to_version_edits()).map_err(|e| Fail::Bad(format!("apply: {e}")))?;
                            let what = || format!("refs {:?} list {list:?} consumed {mask:b} outputs {outs}/{owal}", pats[pi]);
                            // files
                            let mut want: BTreeMap<(usize, u64), String> = before.clone();
                            want.retain(|(l, id), _| !((1..=nf as u64).contains(id) && mask & (1 << (id - 1)) != 0 && lv(*id as usize - 1) == *l));
                            for d in &outputs {
                                let e = SstEntry::new(d.id().clone(), d.stats().cloned(), d.wal_ids().map(|x| x.to_vec()), d.data_path().unwrap().clone(), d.delete_path().cloned());
                                want.insert((1, d.id().raw()), entry_str(&e));
                            }
                            ensure!(dump(&after) == want, "{}: files after {:?}\nexpected {want:?}", what(), dump(&after));
                            // log references
                            let fin: Vec<u64> = after.wal_segments().iter().map(|w| w.seq()).collect();
                            ensure!(fin.iter().all(|q| list.contains(q)), "{}: log list {fin:?} refers to files that were not listed", what());
                            ensure!(after.wal_segments().iter().all(|w| segs.contains(w)), "{}: log reference changed", what());
                            let survivors: Vec<Option<Vec<FileId>>> = (0..nf).filter(|i| mask & (1 << i) == 0).map(|i| refs(pats[pi][i])).chain((0..outs).map(|_| out_refs.clone())).collect();
                            for w in &segs {
                                let needed = survivors.iter().any(|r| r.as_ref().is_none_or(|ids| ids.contains(w.file_id())));
                                ensure!(!needed || fin.contains(&w.seq()), "{}: log file {} is still referred to but dropped (left {fin:?})", what(), w.seq());
                            }
                            let floor = after.cloned_wal_floor().map(|w| w.seq());
                            ensure!(floor == fin.first().copied(), "{}: floor {floor:?} for list {fin:?}", what());
                            // a log file that is not listed may hold rows nobody flushed: the floor stays in front of it
                            if let (Some(old), Some(new)) = (list.first(), floor) {
                                ensure!((*old..new).all(|q| list.contains(&q)), "{}: the floor moved from {old} to {new} over a log file that is not listed", what());
                            }
                            // the update removes exactly what was consumed, from where it was
                            let mut rm: Vec<(u32, u64)> = oc.to_version_edits().iter().flat_map(|e| match e {
                                VersionEdit::RemoveSsts { level, sst_ids } => sst_ids.iter().map(|i| (*level, i.raw())).collect(),
                                _ => vec![],
                            }).collect();
                            rm.sort();
                            let mut wrm: Vec<(u32, u64)> = removed.iter().map(|d| (d.level() as u32, d.id().raw())).collect();
                            wrm.sort();
                            ensure!(rm == wrm, "{}: the update removes {rm:?}, consumed were {wrm:?}", what());
                            // outputs carry commit times 200, 201 (see `stats`)
                            let wm = oc.to_version_edits().iter().find_map(|e| match e {
                                VersionEdit::SetTombstoneWatermark { watermark } => Some(*watermark),
                                _ => None,
                            });
                            ensure!(wm == outs.checked_sub(1).map(|o| 200 + o as u64), "{}: watermark {wm:?} after {outs} outputs", what());
                            // garbage
                            let gone: BTreeSet<u64> = list.iter().copied().filter(|q| !fin.contains(q)).collect();
                            let Some(gc) = gc else { return bad(format!("{}: no garbage list although files were consumed", what())) };
                            let gf: BTreeSet<String> = gc.obsolete_ssts.iter().map(|r| format!("{} L{} {} {:?}", r.id.raw(), r.level, r.data_path, r.delete_path.as_ref().map(|p| p.to_string()))).collect();
                            let wf: BTreeSet<String> = removed.iter().map(|d| format!("{} L{} {} {:?}", d.id().raw(), d.level(), d.data_path().unwrap(), d.delete_path().map(|p| p.to_string()))).collect();
                            ensure!(gf == wf && gc.obsolete_ssts.len() == wf.len(), "{}: garbage {gf:?}, consumed {wf:?}", what());
                            let gw: BTreeSet<u64> = gc.obsolete_wal_segments.iter().map(|w| w.seq()).collect();
                            ensure!(gw == gone, "{}: garbage log files {gw:?}, dropped {gone:?}", what());
                            rec.state(&(li, mask, outs, fin));
                        }
                    }
                }
                // nothing consumed, nothing dropped: no garbage
                let mut oc = CompactionOutcome::from_outputs(vec![], vec![], 1, None).map_err(|e| Fail::Bad(format!("outcome: {e}")))?;
                oc.obsolete_wal_segments.clear();
                ensure!(orchestrator::gc_plan_from_outcome(&oc).map_err(|e| Fail::Bad(format!("gc: {e}")))?.is_none(), "garbage list for an empty outcome");
            }
            Ok(())
        })
    });
}
fn entry_str(e: &SstEntry) -> String {
    let mut w: Option<Vec<String>> = e.wal_segments().map(|i| i.iter().map(|x| format!("{x:?}")).collect());
    if let Some(w) = w.as_mut() {
        w.sort();
    }
    format!("{} {} {:?} {:?} {:?}", e.sst_id().raw(), e.data_path(), e.delete_path().map(|p| p.to_string()), w, e.stats().map(|s| format!("{s:?}")))
}
fn dump(v: &VersionState) -> BTreeMap<(usize, u64), String> {
    v.ssts().iter().enumerate().flat_map(|(l, es)| es.iter().map(move |e| ((l, e.sst_id().raw()), entry_str(e)))).collect()
}

pub fn run(ctx: &Ctx) {
    if ctx.prop == "C17" {
        run_plans(ctx);
    } else {
        run_publish(ctx);
    }
}
