//! C13, C14, C15 (and C25): the metadata store. Operation sequences, reopening, crash points,
//! storage faults and interleaved sessions against the real manifest on a traced filesystem,
//! compared with a reference model of tables and versions.
use std::{collections::BTreeMap, sync::{Arc, Mutex}, time::Duration};

use fusio::{executor::{Executor, JoinHandle}, path::Path};
use ulid::Ulid;

use super::{core::*, exec::VExec, tracefs::*};
use crate::{
    ensure,
    id::FileIdGenerator,
    manifest::{
        ManifestError, SstEntry, TableDefinition, TableId, TonboManifest, VersionEdit, VersionState, WalSegmentRef,
        bootstrap::init_fs_manifest,
    },
    mvcc::Timestamp,
    ondisk::sstable::{SsTableId, SsTableStats},
};

type M = TonboManifest<TraceFs, VExec>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum E {
    Add(u32, u64, u8),
    Rm(u32, &'static [u64]),
    Wal(&'static [(u64, u64)]),
    Mark(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Cas {
    No,
    Current,
    Stale,
    Empty,
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Apply(usize, Cas, &'static [E]),
    Reg(usize, u8),
    Reopen,
}

fn op_id(o: &Op) -> String {
    match o {
        Op::Apply(t, c, e) => format!("T{t}{}{e:?}", match c { Cas::No => "", Cas::Current => "?cur", Cas::Stale => "?stale", Cas::Empty => "?none" }),
        Op::Reg(t, v) => format!("reg{t}.{v}"),
        Op::Reopen => "reopen".into(),
    }
}
fn seq_id(s: &[Op]) -> String {
    s.iter().map(op_id).collect::<Vec<_>>().join(" ; ")
}

fn entry(id: u64, variant: u8) -> SstEntry {
    let stats = match variant {
        0 => None,
        v => Some(SsTableStats { rows: id as usize + v as usize, bytes: 100 * id as usize, tombstones: v as usize, ..Default::default() }),
    };
    let wal = (variant != 0).then(|| vec![Ulid::from(id as u128), Ulid::from(u128::from(variant))]);
    let del = (variant == 2).then(|| Path::parse(format!("sst/{id}-{variant}.del")).unwrap());
    SstEntry::new(SsTableId::new(id), stats, wal, Path::parse(format!("sst/{id}-{variant}.dat")).unwrap(), del)
}
fn entry_text(e: &SstEntry) -> String {
    format!("{}|{}|{:?}|{:?}|{:?}", e.sst_id().raw(), e.data_path(), e.delete_path(), e.stats(), e.wal_segments())
}
fn wal_ref((seq, first): (u64, u64)) -> WalSegmentRef {
    WalSegmentRef::new(seq, Ulid::from(seq as u128), first, first + 3)
}
fn edit(e: &E) -> VersionEdit {
    match e {
        E::Add(l, id, v) => VersionEdit::AddSsts { level: *l, entries: vec![entry(*id, *v)] },
        E::Rm(l, ids) => VersionEdit::RemoveSsts { level: *l, sst_ids: ids.iter().map(|i| SsTableId::new(*i)).collect() },
        E::Wal(s) => VersionEdit::SetWalSegments { segments: s.iter().map(|x| wal_ref(*x)).collect() },
        E::Mark(w) => VersionEdit::SetTombstoneWatermark { watermark: *w },
    }
}

// ---- model
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Ver {
    levels: Vec<BTreeMap<u64, u8>>,
    wal: Vec<(u64, u64)>,
    mark: Option<u64>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Tab {
    def: u8,
    vers: Vec<Ver>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Model {
    tabs: BTreeMap<usize, Tab>,
}
impl Ver {
    /// None: the edit list must be refused.
    fn apply(&self, es: &[E]) -> Option<Ver> {
        if es.is_empty() {
            return None;
        }
        let mut v = self.clone();
        for e in es {
            match e {
                E::Add(l, id, x) => {
                    let l = *l as usize;
                    if v.levels.len() <= l {
                        v.levels.resize(l + 1, BTreeMap::new());
                    }
                    v.levels[l].insert(*id, *x);
                }
                E::Rm(l, ids) => {
                    let b = v.levels.get_mut(*l as usize)?;
                    for i in ids.iter() {
                        b.remove(i);
                    }
                }
                E::Wal(s) => {
                    v.wal = s.to_vec();
                }
                E::Mark(w) => v.mark = Some(*w),
            }
        }
        while v.levels.last().is_some_and(|l| l.is_empty()) {
            v.levels.pop();
        }
        v.wal.sort();
        Some(v)
    }
    fn text(&self, ts: u64) -> String {
        let mut s = format!("ts={ts};");
        for (i, l) in self.levels.iter().enumerate() {
            for (id, v) in l {
                s.push_str(&format!("L{i}:{};", entry_text(&entry(*id, *v))));
            }
        }
        s.push_str(&format!("wal={:?};floor={:?};mark={:?}", self.wal, self.wal.first(), self.mark));
        s
    }
}
fn wal_text(w: &WalSegmentRef) -> (u64, u64) {
    assert_eq!(w.last_frame(), w.first_frame() + 3, "log reference changed");
    assert_eq!(*w.file_id(), Ulid::from(w.seq() as u128), "log file id changed");
    (w.seq(), w.first_frame())
}
fn state_text(v: &VersionState) -> String {
    let mut s = format!("ts={};", v.commit_timestamp().get());
    for (i, l) in v.ssts().iter().enumerate() {
        for e in l {
            s.push_str(&format!("L{i}:{};", entry_text(e)));
        }
    }
    let wal: Vec<_> = v.wal_segments().iter().map(wal_text).collect();
    let j = serde_json::to_value(v).expect("json");
    let mark = j.get("tombstone_watermark").and_then(|x| x.as_u64());
    let floor = v.cloned_wal_floor().map(|w| wal_text(&w));
    s.push_str(&format!("wal={wal:?};floor={:?};mark={mark:?}", floor.as_ref()));
    s
}

const NAMES: [&str; 2] = ["t", "u"];
fn def(t: usize, v: u8) -> TableDefinition {
    let mut d = TableDefinition {
        name: NAMES[t].into(),
        schema_fingerprint: format!("fp{t}"),
        primary_key_columns: vec!["id".into(), "k2".into()],
        retention: None,
        schema_version: 1,
    };
    match v {
        1 => d.schema_fingerprint = "other".into(),
        2 => d.primary_key_columns = vec!["id".into()],
        3 => d.schema_version = 2,
        4 => d.retention = Some(Default::default()),
        5 => d.primary_key_columns.swap(0, 1),
        _ => {}
    }
    d
}

struct Sys {
    exec: VExec,
    fs: TraceFs,
    m: M,
    ids: BTreeMap<usize, TableId>,
    files: FileIdGenerator,
}
fn open(fs: &TraceFs, exec: &VExec) -> R<Result<M, ManifestError>> {
    let (fs, e) = (fs.clone(), exec.clone());
    exec.block_on(async move { init_fs_manifest(fs, &Path::parse("db").unwrap(), e).await })
}
impl Sys {
    fn new(fs: TraceFs) -> R<Sys> {
        let exec = VExec::new();
        let m = open(&fs, &exec)?.map_err(|e| Fail::Bad(format!("open: {e}")))?;
        Ok(Sys { exec, fs, m, ids: BTreeMap::new(), files: FileIdGenerator::default() })
    }
    fn apply(&self, t: usize, cas: Option<Option<u64>>, es: &[E]) -> R<Result<u64, ManifestError>> {
        let edits: Vec<_> = es.iter().map(edit).collect();
        let id = self.ids[&t];
        let m = self.m.clone();
        self.exec.block_on(async move {
            match cas {
                None => m.apply_version_edits(id, &edits).await,
                Some(h) => m.apply_version_edits_cas(id, h.map(Timestamp::new), &edits).await,
            }
            .map(|t| t.get())
        })
    }
    fn reg(&self, t: usize, v: u8) -> R<Result<TableId, ManifestError>> {
        let m = self.m.clone();
        let files = &self.files;
        let d = def(t, v);
        self.exec.block_on(async move { m.register_table(files, &d).await.map(|x| x.table_id) })
    }
    /// Complete observable contents: for each known table the versions, newest last.
    fn contents(&self, t: usize) -> R<Vec<String>> {
        let id = self.ids[&t];
        let m = self.m.clone();
        let r: Result<_, String> = self.exec.block_on(async move {
            let all = m.list_versions(id, 0).await.map_err(|e| format!("list: {e}"))?;
            let latest = m.snapshot_latest(id).await.map_err(|e| format!("latest: {e}"))?;
            let floor = m.wal_floor(id).await.map_err(|e| format!("floor: {e}"))?;
            let mut at = vec![];
            for v in &all {
                let s = m.snapshot_at_version(id, v.commit_timestamp()).await.map_err(|e| format!("at: {e}"))?;
                at.push(s.latest_version);
            }
            let n = all.first().map(|v| v.commit_timestamp().get()).unwrap_or(0);
            let beyond = m.snapshot_at_version(id, Timestamp::new(n + 1)).await.map_err(|e| format!("at: {e}"))?;
            let lim1 = m.list_versions(id, 1).await.map_err(|e| format!("list: {e}"))?;
            let lim2 = m.list_versions(id, 2).await.map_err(|e| format!("list: {e}"))?;
            Ok((all, latest, floor, at, beyond.latest_version, lim1, lim2))
        })?;
        let (all, latest, floor, at, beyond, lim1, lim2) = r.map_err(Fail::Bad)?;
        let txt: Vec<String> = all.iter().map(state_text).collect();
        ensure!(latest.latest_version.as_ref().map(state_text) == txt.first().cloned(), "newest version {:?} differs from first listed {:?}", latest.latest_version.as_ref().map(state_text), txt.first());
        ensure!(latest.head.last_manifest_txn.map(|t| t.get()) == all.first().map(|v| v.commit_timestamp().get()), "head pointer {:?} is not the newest version", latest.head.last_manifest_txn);
        let fl = all.first().and_then(|v| v.cloned_wal_floor());
        ensure!(floor == fl, "stored floor {floor:?} differs from the newest version's {fl:?}");
        ensure!(latest.head.wal_floor == fl, "head floor {:?} differs from the newest version's {fl:?}", latest.head.wal_floor);
        for (i, a) in at.iter().enumerate() {
            ensure!(a.as_ref().map(state_text).as_ref() == Some(&txt[i]), "version read at its timestamp {:?} differs from listed {}", a.as_ref().map(state_text), txt[i]);
        }
        ensure!(beyond.is_none(), "a version that was never recorded is readable: {beyond:?}");
        let l1: Vec<_> = lim1.iter().map(state_text).collect();
        let l2: Vec<_> = lim2.iter().map(state_text).collect();
        ensure!(l1[..] == txt[..txt.len().min(1)] && l2[..] == txt[..txt.len().min(2)], "limited listing {l1:?} {l2:?} is not the newest of {txt:?}");
        let mut t = txt;
        t.reverse();
        Ok(t)
    }
    fn check(&self, model: &Model, rec: &mut Rec) -> R {
        for (t, tab) in &model.tabs {
            rec.eval();
            let got = self.contents(*t)?;
            let want: Vec<String> = tab.vers.iter().enumerate().map(|(i, v)| v.text(i as u64 + 1)).collect();
            ensure!(got == want, "table {}: versions {got:#?}\nexpected {want:#?}", NAMES[*t]);
        }
        rec.state(&format!("{model:?}"));
        Ok(())
    }
}

/// Model transition. Ok(true): must succeed, Ok(false): must be refused.
fn model_step(m: &mut Model, o: &Op) -> bool {
    match o {
        Op::Reopen => true,
        Op::Reg(t, v) => match m.tabs.get(t) {
            Some(x) => x.def == *v,
            None => {
                m.tabs.insert(*t, Tab { def: *v, vers: vec![] });
                true
            }
        },
        Op::Apply(t, c, es) => {
            let tab = m.tabs.get_mut(t).expect("registered");
            let n = tab.vers.len();
            let ok = match c {
                Cas::No | Cas::Current => true,
                Cas::Stale => false,
                Cas::Empty => n == 0,
            };
            if !ok {
                return false;
            }
            match tab.vers.last().cloned().unwrap_or_default().apply(es) {
                Some(v) => {
                    tab.vers.push(v);
                    true
                }
                None => false,
            }
        }
    }
}
fn cas_arg(m: &Model, t: usize, c: Cas) -> Option<Option<u64>> {
    let n = m.tabs[&t].vers.len() as u64;
    match c {
        Cas::No => None,
        Cas::Current => Some((n > 0).then_some(n)),
        Cas::Stale => Some(Some(if n > 1 { n - 1 } else { n + 7 })),
        Cas::Empty => Some(None),
    }
}

/// Run one operation on the system; Ok(Ok) success, Ok(Err(text)) refusal.
fn sys_step(s: &mut Sys, model: &Model, o: &Op) -> R<Result<(), ManifestError>> {
    match o {
        Op::Reopen => {
            // a later process: the clock goes on, past any lease of the earlier one
            let now = s.exec.clone();
            now.advance(Duration::from_secs(3600));
            match open(&s.fs, &s.exec)? {
                Ok(m) => {
                    s.m = m;
                    Ok(Ok(()))
                }
                Err(e) => Ok(Err(e)),
            }
        }
        Op::Reg(t, v) => Ok(match s.reg(*t, *v)? {
            Ok(id) => {
                if let Some(old) = s.ids.get(t) {
                    ensure!(*old == id, "registering the same table again gave a different identity");
                }
                for (o, x) in &s.ids {
                    ensure!(o == t || *x != id, "two tables share one identity");
                }
                s.ids.insert(*t, id);
                Ok(())
            }
            Err(e) => Err(e),
        }),
        Op::Apply(t, c, es) => {
            let r = s.apply(*t, cas_arg(model, *t, *c), es)?;
            Ok(match r {
                Ok(ts) => {
                    let n = model.tabs[t].vers.len() as u64;
                    ensure!(ts == n + 1, "update returned version {ts}, expected {}", n + 1);
                    Ok(())
                }
                Err(e) => Err(e),
            })
        }
    }
}

const A1: E = E::Add(0, 1, 1);
const COMPACT: &[E] = &[E::Rm(0, &[1, 2]), E::Add(1, 3, 1), E::Wal(&[(5, 0)])];
fn ops() -> Vec<Op> {
    use Cas::*;
    vec![
        Op::Apply(0, No, &[A1]),
        Op::Apply(0, No, &[E::Add(0, 1, 2)]),
        Op::Apply(0, Current, &[E::Add(0, 2, 2), E::Wal(&[(4, 9), (4, 2), (3, 7)])]),
        Op::Apply(0, Current, COMPACT),
        Op::Apply(0, No, &[E::Rm(0, &[2])]),
        Op::Apply(0, No, &[E::Rm(2, &[3])]),
        Op::Apply(0, No, &[E::Add(2, 3, 0), E::Rm(0, &[1, 9])]),
        Op::Apply(0, No, &[E::Mark(7), E::Wal(&[])]),
        Op::Apply(0, No, &[]),
        Op::Apply(0, Stale, &[A1]),
        Op::Apply(0, Empty, &[E::Add(0, 4, 0)]),
        Op::Apply(1, No, &[E::Add(0, 1, 0), E::Wal(&[(1, 1)])]),
        Op::Apply(1, Current, &[E::Rm(0, &[1])]),
        Op::Reg(0, 0),
        Op::Reg(0, 1),
        Op::Reg(1, 3),
        Op::Reopen,
    ]
}

fn start() -> R<(Sys, Model)> {
    let mut s = Sys::new(TraceFs::new())?;
    let mut m = Model::default();
    for t in 0..2 {
        let o = Op::Reg(t, 0);
        model_step(&mut m, &o);
        sys_step(&mut s, &m, &o)?.map_err(|e| Fail::Bad(format!("register: {e}")))?;
    }
    Ok((s, m))
}

fn is_conflict(e: &ManifestError) -> bool {
    matches!(e, ManifestError::CasConflict(_))
}

fn seqs(ctx: &Ctx) {
    let d = ctx.by(4, 5);
    let s = ctx.suite("manifest.seq", format!("all sequences of length 4 (thorough: 5) over {} metadata operations on two tables (edits with adds, replacements, removals from existing and missing levels, log references, watermark, empty edits, conditional updates on the current, a stale and no head, re-registration with equal and different definitions, reopening); after every operation the full history of both tables is read back (latest, every version at its timestamp, listings with limits, floors)", ops().len()));
    let all = sequences(&ops(), d);
    s.par_cases(&all, |q| seq_id(q), |q, rec| {
        let (mut sys, mut model) = start()?;
        for o in q {
            let before = model.clone();
            let ok = model_step(&mut model, o);
            rec.step();
            let r = sys_step(&mut sys, &before, o)?;
            match (ok, r) {
                (true, Ok(())) => {}
                (false, Err(e)) => {
                    if let Op::Apply(_, Cas::Stale | Cas::Empty, es) = o {
                        if !es.is_empty() {
                            ensure!(is_conflict(&e), "stale conditional update refused with `{e}` instead of a conflict");
                        }
                    }
                    ensure!(before == model, "model");
                }
                (true, Err(e)) => return bad(format!("{} failed: {e}", op_id(o))),
                (false, Ok(())) => return bad(format!("{} succeeded but must be refused", op_id(o))),
            }
            // checking every step of every sequence would repeat shared prefixes: the sequences
            // of smaller length are prefixes, so the last step and the final state suffice
        }
        sys.check(&model, rec)?;
        Ok(())
    });
    // definitions
    let s = ctx.suite("manifest.define", "every pair of 6 definitions of one table name, same session and after reopening, with and without versions recorded");
    let mut cases = vec![];
    for a in 0..6u8 {
        for b in 0..6u8 {
            for re in [false, true] {
                for vers in 0..2 {
                    cases.push((a, b, re, vers));
                }
            }
        }
    }
    s.par_cases(&cases, |c| format!("{c:?}"), |(a, b, re, vers), rec| {
        let mut sys = Sys::new(TraceFs::new())?;
        let mut model = Model::default();
        let mut run = vec![Op::Reg(0, *a)];
        if *vers == 1 {
            run.push(Op::Apply(0, Cas::Empty, &[A1]));
        }
        if *re {
            run.push(Op::Reopen);
        }
        run.push(Op::Reg(0, *b));
        run.push(Op::Reg(1, *b));
        run.push(Op::Reg(0, *a));
        run.push(Op::Apply(0, Cas::Current, &[E::Add(1, 8, 1)]));
        for o in run {
            let before = model.clone();
            let ok = model_step(&mut model, &o);
            rec.step();
            let r = sys_step(&mut sys, &before, &o)?;
            match (ok, r) {
                (true, Ok(())) => {}
                (false, Err(e)) => ensure!(matches!(e, ManifestError::CatalogConflict(_)), "{} refused with `{e}`", op_id(&o)),
                (true, Err(e)) => return bad(format!("{} failed: {e}", op_id(&o))),
                (false, Ok(())) => return bad(format!("{} accepted", op_id(&o))),
            }
            sys.check(&model, rec)?;
        }
        Ok(())
    });
}

fn long(ctx: &Ctx) {
    let s = ctx.suite("manifest.long", "histories of 24 updates cycling through every start offset of the update alphabet, with a reopening in the middle; the whole history is read back after every update");
    let upd: Vec<Op> = ops().into_iter().filter(|o| matches!(o, Op::Apply(..))).collect();
    let starts: Vec<usize> = (0..upd.len()).collect();
    s.par_cases(&starts, |i| i.to_string(), |i, rec| {
        let (mut sys, mut model) = start()?;
        for k in 0..24 {
            let o = if k == 12 { Op::Reopen } else { upd[(i + k) % upd.len()].clone() };
            let before = model.clone();
            let ok = model_step(&mut model, &o);
            rec.step();
            let r = sys_step(&mut sys, &before, &o)?;
            ensure!(ok == r.is_ok(), "{}: {r:?}", op_id(&o));
            sys.check(&model, rec)?;
        }
        Ok(())
    });
}

fn crash_ops() -> Vec<Op> {
    vec![
        Op::Apply(0, Cas::No, &[E::Add(0, 1, 1), E::Wal(&[(3, 7)])]),
        Op::Apply(0, Cas::Current, COMPACT),
        Op::Apply(0, Cas::No, &[E::Add(0, 2, 2)]),
        Op::Apply(1, Cas::No, &[E::Add(0, 1, 0)]),
        Op::Reg(0, 0),
        Op::Reg(0, 1),
    ]
}

/// After an interruption: contents must be one of `cands`; returns the matching ones.
fn settle(sys: &Sys, cands: Vec<Model>, rec: &mut Rec) -> R<Vec<Model>> {
    let mut err = None;
    let mut out = vec![];
    for c in &cands {
        match sys.check(c, rec) {
            Ok(()) => out.push(c.clone()),
            Err(e) => err = Some(e),
        }
    }
    if out.is_empty() { Err(err.unwrap_or_else(|| Fail::Bad("no candidate".into()))) } else { Ok(out) }
}

/// Continue after an interruption with one more update that must build on a legal state.
fn follow_up(sys: &mut Sys, before: Model, after: Model, rec: &mut Rec) -> R {
    // The unfinished update may be completed by the next writer, so both remain possible until then.
    settle(sys, vec![before.clone(), after.clone()], rec)?;
    for (t, o) in [(0, Op::Apply(0, Cas::No, &[E::Add(1, 11, 1)])), (1, Op::Apply(1, Cas::No, &[E::Add(0, 12, 0)]))] {
        let _ = t;
        let mut cands = vec![];
        for c in [&before, &after] {
            let mut c = c.clone();
            model_step(&mut c, &o);
            if !cands.contains(&c) {
                cands.push(c);
            }
        }
        rec.step();
        let Op::Apply(t, _, es) = o else { unreachable!() };
        let ts = sys.apply(t, None, es)?.map_err(|e| Fail::Bad(format!("an update after the interruption failed: {e}")))?;
        let left = if t == 0 { settle_first(sys, &before, &after, rec)? } else { settle2(sys, &before, &after, rec)? };
        ensure!(left.iter().any(|c| c.tabs[&t].vers.len() as u64 == ts), "update returned version {ts}");
    }
    Ok(())
}
fn add(m: &Model, t: usize, es: &'static [E]) -> Model {
    let mut m = m.clone();
    model_step(&mut m, &Op::Apply(t, Cas::No, es));
    m
}
const F0: &[E] = &[E::Add(1, 11, 1)];
const F1: &[E] = &[E::Add(0, 12, 0)];
fn settle_first(sys: &Sys, b: &Model, a: &Model, rec: &mut Rec) -> R<Vec<Model>> {
    settle(sys, vec![add(b, 0, F0), add(a, 0, F0)], rec)
}
fn settle2(sys: &Sys, b: &Model, a: &Model, rec: &mut Rec) -> R<Vec<Model>> {
    settle(sys, vec![add(&add(b, 0, F0), 1, F1), add(&add(a, 0, F0), 1, F1)], rec)
}

fn crashes(ctx: &Ctx) {
    let d = ctx.by(3, 4);
    let s = ctx.suite("manifest.crash", "all sequences of 3 (thorough: 4) metadata operations after creation, interrupted after every filesystem effect (object puts are atomic), reopened: contents must be those before or after the interrupted operation, and further updates must succeed once leases of the dead process expired; before expiry they may fail but must not damage");
    let all = sequences(&crash_ops(), d);
    s.par_cases(&all, |q| seq_id(q), |q, rec| {
        // reference run
        let fs = TraceFs::new();
        let mut sys = Sys::new(fs.clone())?;
        let mut models = vec![Model::default()];
        fs.mark("op 0");
        let mut script = vec![Op::Reg(0, 0), Op::Reg(1, 0)];
        script.extend(q.iter().cloned());
        for (i, o) in script.iter().enumerate() {
            let before = models.last().unwrap().clone();
            let mut m = before.clone();
            model_step(&mut m, o);
            let _ = sys_step(&mut sys, &before, o)?;
            models.push(m);
            fs.mark(format!("op {}", i + 1));
        }
        let ids = sys.ids.clone();
        let log = fs.log();
        let mut done = 0usize; // completed operations
        let mut opened = false;
        for k in 0..=log.len() {
            if k > 0 {
                if let Ev::Mark(m) = &log[k - 1] {
                    done = m[3..].parse().unwrap();
                    opened = true;
                    if k != log.len() {
                        continue;
                    }
                }
            }
            if opened && done < 2 {
                // registration in progress: check through registration below
            }
            for wait in [true, false] {
                rec.step();
                let fs = TraceFs::from_image(replay_log(&Image::new(), &log[..k]));
                let exec = VExec::new();
                if wait {
                    exec.advance(Duration::from_secs(3600));
                }
                let m = match open(&fs, &exec)? {
                    Ok(m) => m,
                    Err(e) => {
                        if wait {
                            return bad(format!("reopening after event {k} failed: {e}"));
                        }
                        continue;
                    }
                };
                let mut sys = Sys { exec, fs, m, ids: BTreeMap::new(), files: FileIdGenerator::default() };
                let before = models[done].clone();
                let after = models.get(done + 1).unwrap_or(&models[done]).clone();
                // tables must be found again under their identity
                let mut skip = false;
                for t in 0..2usize {
                    match sys.reg(t, 0)? {
                        Ok(id) => {
                            if before.tabs.contains_key(&t) {
                                ensure!(ids[&t] == id, "table {} has a new identity after the crash", NAMES[t]);
                            }
                            sys.ids.insert(t, id);
                        }
                        Err(e) => {
                            ensure!(!wait, "registering after event {k} failed: {e}");
                            skip = true;
                        }
                    }
                }
                if skip {
                    continue;
                }
                let full = |m: &Model| {
                    let mut m = m.clone();
                    for t in 0..2 {
                        m.tabs.entry(t).or_insert(Tab { def: 0, vers: vec![] });
                    }
                    m
                };
                if wait {
                    follow_up(&mut sys, full(&before), full(&after), rec).map_err(|e| ctxt(e, &format!("crash after event {k}")))?;
                } else {
                    settle(&sys, vec![full(&before), full(&after)], rec).map_err(|e| ctxt(e, &format!("crash after event {k}")))?;
                    match sys.apply(0, None, F0)? {
                        Ok(_) => {
                            settle_first(&sys, &full(&before), &full(&after), rec).map_err(|e| ctxt(e, &format!("crash after event {k}, update before expiry")))?;
                        }
                        Err(_) => {
                            settle(&sys, vec![full(&before), full(&after)], rec).map_err(|e| ctxt(e, &format!("crash after event {k}, refused update before expiry")))?;
                        }
                    }
                }
            }
        }
        Ok(())
    });
}

fn ctxt(e: Fail, c: &str) -> Fail {
    match e {
        Fail::Bad(m) => Fail::Bad(format!("{c}: {m}")),
        k => k,
    }
}

fn faults(ctx: &Ctx) {
    let s = ctx.suite("manifest.fault", "every metadata operation after two different prefixes, with every single storage operation (mutations: no effect / effect then error; reads) failing: success means applied, an error means the state before or after, a conflict answer means not applied, later updates succeed");
    let mut cases = vec![];
    let mut ops2 = crash_ops();
    ops2.push(Op::Apply(0, Cas::Stale, &[A1]));
    ops2.push(Op::Reg(1, 2));
    for p in 0..2 {
        for o in &ops2 {
            for k in ["err", "partial", "read"] {
                cases.push((p, o.clone(), k));
            }
        }
    }
    s.par_cases(&cases, |(p, o, k)| format!("{p} {} {k}", op_id(o)), |(p, o, kind), rec| {
        let mut n = 0;
        loop {
            let mut sys = Sys::new(TraceFs::new())?;
            let mut model = Model::default();
            let mut pre = vec![Op::Reg(0, 0), Op::Reg(1, 0)];
            if *p == 1 {
                pre.push(Op::Apply(0, Cas::No, &[E::Add(0, 1, 1), E::Add(0, 2, 0)]));
                pre.push(Op::Apply(0, Cas::No, &[E::Add(0, 6, 1)]));
            }
            for x in &pre {
                let before = model.clone();
                model_step(&mut model, x);
                sys_step(&mut sys, &before, x)?.map_err(|e| Fail::Bad(e.to_string()))?;
            }
            let before = model.clone();
            let mut after = model.clone();
            let ok = model_step(&mut after, o);
            let base = if *kind == "read" { sys.fs.read_count() } else { sys.fs.op_count() };
            match *kind {
                "err" => sys.fs.set_fault(base + n, FaultKind::Err),
                "partial" => sys.fs.set_fault(base + n, FaultKind::Partial),
                _ => sys.fs.set_read_fault(base + n),
            }
            let r = sys_step(&mut sys, &before, o)?;
            let hit = sys.fs.fault_hit();
            sys.fs.clear_fault();
            rec.step();
            let what = format!("fault {n} ({hit:?})");
            let cands = match &r {
                Ok(()) => {
                    ensure!(ok, "{what}: refused operation succeeded");
                    vec![after.clone()]
                }
                Err(e) if is_conflict(e) => vec![before.clone()],
                Err(_) => vec![before.clone(), after.clone()],
            };
            let ctx = |e| ctxt(e, &what);
            settle(&sys, cands.clone(), rec).map_err(ctx)?;
            let b = cands[0].clone();
            let a = cands.last().unwrap().clone();
            // leases of a failed session may linger for their time to live
            sys.exec.advance(Duration::from_secs(3600));
            follow_up(&mut sys, b, a, rec).map_err(ctx)?;
            if hit.is_none() {
                return Ok(());
            }
            n += 1;
            ensure!(n < 200, "fault point count");
        }
    });
}

fn races(ctx: &Ctx) {
    let bound = ctx.by(2, 3);
    let s = ctx.suite("manifest.race", format!("two (three for readers) concurrent sessions, on one shared handle or two separate ones, all schedules with at most {bound} preemptions at filesystem accesses: acknowledged updates are all applied exactly once in some order, refused ones not, readers see only complete versions"));
    let pairs: Vec<(&str, Vec<Op>)> = vec![
        ("add-add", vec![Op::Apply(0, Cas::No, &[E::Add(0, 1, 1), E::Wal(&[(3, 7)])]), Op::Apply(0, Cas::No, &[E::Add(0, 2, 2)])]),
        ("flush-compact", vec![Op::Apply(0, Cas::No, &[E::Add(0, 5, 2)]), Op::Apply(0, Cas::Current, COMPACT)]),
        ("compact-compact", vec![Op::Apply(0, Cas::Current, &[E::Rm(0, &[1]), E::Add(1, 4, 1)]), Op::Apply(0, Cas::Current, COMPACT)]),
        ("two-tables", vec![Op::Apply(0, Cas::No, &[E::Add(0, 5, 2)]), Op::Apply(1, Cas::No, &[E::Add(0, 1, 0)])]),
        ("reg-same", vec![Op::Reg(0, 0), Op::Reg(0, 0)]),
        ("reg-differ", vec![Op::Reg(0, 0), Op::Reg(0, 1)]),
        ("reg-two", vec![Op::Reg(0, 0), Op::Reg(1, 0)]),
    ];
    for (name, ops) in &pairs {
        for shared in [true, false] {
            explore(&s, &format!("{name}/{}", if shared { "one" } else { "two" }), bound, 100_000, &|ch, rec| race(ops, shared, name.starts_with("reg"), ch, rec));
        }
    }
}

fn race(ops: &[Op], shared: bool, fresh: bool, ch: &mut Chooser, rec: &mut Rec) -> R {
    let (mut sys, mut model) = if fresh { (Sys::new(TraceFs::new())?, Model::default()) } else { start()? };
    if !fresh {
        for x in [Op::Apply(0, Cas::No, &[E::Add(0, 1, 1), E::Add(0, 2, 0)]), Op::Apply(0, Cas::No, &[E::Add(0, 6, 1)])] {
            let before = model.clone();
            model_step(&mut model, &x);
            sys_step(&mut sys, &before, &x)?.map_err(|e| Fail::Bad(e.to_string()))?;
        }
    }
    let other = if shared { sys.m.clone() } else { open(&sys.fs, &sys.exec)?.map_err(|e| Fail::Bad(e.to_string()))? };
    sys.fs.set_yields(true);
    let results: Arc<Mutex<BTreeMap<usize, Result<Option<TableId>, ManifestError>>>> = Default::default();
    let seen: Arc<Mutex<Vec<String>>> = Default::default();
    let mut joins = vec![];
    for (i, o) in ops.iter().enumerate() {
        let m = if i == 0 { sys.m.clone() } else { other.clone() };
        let ids = sys.ids.clone();
        let model = model.clone();
        let o = o.clone();
        let results = results.clone();
        joins.push(sys.exec.spawn(async move {
            let r = match &o {
                Op::Reg(t, v) => {
                    let f = FileIdGenerator::default();
                    m.register_table(&f, &def(*t, *v)).await.map(|x| Some(x.table_id))
                }
                Op::Apply(t, c, es) => {
                    let edits: Vec<_> = es.iter().map(edit).collect();
                    match cas_arg(&model, *t, *c) {
                        None => m.apply_version_edits(ids[t], &edits).await,
                        Some(h) => m.apply_version_edits_cas(ids[t], h.map(Timestamp::new), &edits).await,
                    }
                    .map(|_| None)
                }
                Op::Reopen => unreachable!(),
            };
            results.lock().unwrap().insert(i, r);
        }));
    }
    if !fresh {
        let m = other.clone();
        let id = sys.ids[&0];
        let seen2 = seen.clone();
        joins.push(sys.exec.spawn(async move {
            let r = m.snapshot_latest(id).await;
            seen2.lock().unwrap().push(match r {
                Ok(s) => s.latest_version.map(|v| state_text(&v)).unwrap_or_default(),
                Err(e) => format!("error {e}"),
            });
        }));
    }
    sys.exec.run(ch, async move {
        for j in joins {
            let _ = j.join().await;
        }
    })?;
    sys.fs.set_yields(false);
    rec.steps(ops.len() as u64);
    // candidate outcomes: some order of the acknowledged (and possibly the failed) ones
    let res = std::mem::take(&mut *results.lock().unwrap());
    let mut must = vec![];
    let mut may = vec![];
    for (i, r) in &res {
        match r {
            Ok(_) => must.push(*i),
            Err(ManifestError::CasConflict(_)) | Err(ManifestError::CatalogConflict(_)) => {}
            Err(ManifestError::Backend(_)) => may.push(*i),
            Err(e) => return bad(format!("{} failed: {e}", op_id(&ops[*i]))),
        }
    }
    // An update whose session reports a backend error may have been completed by another session.
    let refused: Vec<usize> = res.iter().filter(|(_, r)| matches!(r, Err(ManifestError::CasConflict(_)))).map(|x| *x.0).collect();
    if fresh {
        ensure!(!must.is_empty() || !may.is_empty(), "no session succeeded: {:?}", res);
        let mut m = model.clone();
        for i in &must {
            ensure!(model_step(&mut m, &ops[*i]), "both of two different definitions were accepted");
        }
        for i in &must {
            let Op::Reg(t, _) = ops[*i] else { unreachable!() };
            let id = res[i].as_ref().unwrap().unwrap();
            if let Some(x) = sys.ids.get(&t) {
                ensure!(*x == id, "one table registered twice under different identities");
            }
            ensure!(!sys.ids.iter().any(|(o, x)| *o != t && *x == id), "two tables share an identity");
            sys.ids.insert(t, id);
        }
        sys.exec.advance(Duration::from_secs(3600));
        sys.check(&m, rec)?;
        for i in &must {
            let Op::Reg(t, v) = ops[*i] else { unreachable!() };
            let id = sys.reg(t, v)?.map_err(|e| Fail::Bad(format!("re-registering failed: {e}")))?;
            ensure!(id == sys.ids[&t], "identity changed on re-registration");
            sys.apply(t, None, &[A1])?.map_err(|e| Fail::Bad(format!("update failed: {e}")))?;
        }
        return Ok(());
    }
    let mut cands = vec![];
    let mut states = vec![model.clone()];
    let n = ops.len();
    for mask in 0..1usize << n {
        if must.iter().any(|i| mask & (1 << i) == 0) || (0..n).any(|i| mask & (1 << i) != 0 && !must.contains(&i) && !may.contains(&i)) {
            continue;
        }
        if !refused.is_empty() && mask == 0 {
            continue; // a conflict answer means somebody else's update was applied
        }
        let set: Vec<usize> = (0..n).filter(|i| mask & (1 << i) != 0).collect();
        let orders: Vec<Vec<usize>> = if set.len() == 2 { vec![set.clone(), vec![set[1], set[0]]] } else { vec![set.clone()] };
        for ord in orders {
            let mut m = model.clone();
            let mut mid = vec![];
            let mut ok = true;
            for i in &ord {
                let Op::Apply(t, c, es) = &ops[*i] else { unreachable!() };
                // a conditional update is based on the head before the race
                if *c == Cas::Current && m.tabs[t].vers.len() != model.tabs[t].vers.len() {
                    ok = false;
                    break;
                }
                model_step(&mut m, &Op::Apply(*t, Cas::No, es));
                mid.push(m.clone());
            }
            if ok {
                states.extend(mid);
                if !cands.contains(&m) {
                    cands.push(m);
                }
            }
        }
    }
    ensure!(!cands.is_empty(), "conditional updates based on the same head both succeeded: {res:?}");
    let left = settle(&sys, cands, rec).map_err(|e| ctxt(e, &format!("outcomes {res:?}")))?;
    for r in seen.lock().unwrap().iter() {
        let legal: Vec<String> = states.iter().map(|m| { let v = &m.tabs[&0].vers; v.last().map(|x| x.text(v.len() as u64)).unwrap_or_default() }).collect();
        ensure!(legal.contains(r), "reader saw {r}, not one of {legal:?}");
    }
    sys.exec.advance(Duration::from_secs(3600));
    let b = left[0].clone();
    let mut a = b.clone();
    if let Some(i) = may.first() {
        // a failed update may still be completed by the next writer
        if left.len() == 1 {
            if let Op::Apply(t, Cas::No, es) = &ops[*i] {
                model_step(&mut a, &Op::Apply(*t, Cas::No, es));
            }
        }
    }
    follow_up(&mut sys, b, a, rec)?;
    Ok(())
}

pub fn run(ctx: &Ctx) {
    match ctx.prop.as_str() {
        "C13" => { seqs(ctx); crashes(ctx); faults(ctx); races(ctx); }
        "C14" => { seqs(ctx); long(ctx); crashes(ctx); }
        "C15" => { seqs(ctx); crashes(ctx); faults(ctx); races(ctx); }
        _ => faults(ctx),
    }
}
