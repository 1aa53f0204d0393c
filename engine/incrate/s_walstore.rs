//! C09, C11, C27: the log directory on storage. Replay, tail repair, listing, pruning, manifest
//! references and the state record, over every division of record sequences into files, every
//! truncation, every floor.
use std::{collections::BTreeMap, sync::Arc};

use fusio::{DynFs, fs::FsCas, path::Path};
use futures::executor::block_on;

use super::{core::*, s_frame::{Cmd, encode, event_text, expect}, tracefs::*};
use crate::{
    ensure,
    manifest::WalSegmentRef,
    wal::{
        WalConfig, WalRecoveryMode,
        frame::FRAME_HEADER_SIZE,
        manifest_ext::{collect_wal_segment_refs, prune_wal_segments},
        replay::Replayer,
        state::{FsWalStateStore, WalSegmentBounds, WalStateHandle},
        storage::WalStorage,
    },
};

const DIR: &str = "w";
pub fn seg_path(seq: u64) -> String {
    format!("{DIR}/wal-{seq:020}.tonwal")
}
pub fn cfg(fs: &TraceFs, state: bool) -> WalConfig {
    let mut c = WalConfig {
        dir: Path::parse(DIR).unwrap(),
        segment_backend: Arc::new(fs.clone()) as Arc<dyn DynFs>,
        state_store: None,
        ..WalConfig::default()
    };
    if state {
        c = c.with_state_store(Arc::new(FsWalStateStore::new(Arc::new(fs.clone()) as Arc<dyn FsCas>)));
    }
    c
}
fn storage(fs: &TraceFs) -> WalStorage {
    WalStorage::new(Arc::new(fs.clone()) as Arc<dyn DynFs>, Path::parse(DIR).unwrap())
}
fn we(e: impl std::fmt::Display) -> Fail {
    Fail::Bad(e.to_string())
}

/// One record: file, sequence, byte range in its file, decoded text, transaction id
#[derive(Clone, Debug)]
struct Rcd {
    seg: u64,
    seq: u64,
    end: usize,
    start: usize,
    text: String,
}

struct Layout {
    fs: TraceFs,
    recs: Vec<Rcd>,
    segs: Vec<u64>,
}

/// Write `cmds` into files: `cuts[i]` says how many files to advance before command i (0: same).
fn layout(cmds: &[Cmd], cuts: &[u64], first_seg: u64, trailing_empty: bool) -> R<Layout> {
    let fs = TraceFs::new();
    let mut seg = first_seg;
    let mut files: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    files.insert(seg, vec![]);
    let mut recs = vec![];
    for (i, c) in cmds.iter().enumerate() {
        if cuts[i] > 0 {
            seg += cuts[i];
            files.insert(seg, vec![]);
        }
        let f = files.get_mut(&seg).unwrap();
        let seq = 1 + i as u64;
        let b = encode(c, seq)?;
        let start = f.len();
        f.extend(b);
        recs.push(Rcd { seg, seq, start, end: f.len(), text: expect(c) });
    }
    if trailing_empty {
        seg += 1;
        files.insert(seg, vec![]);
    }
    let segs = files.keys().copied().collect();
    for (s, d) in files {
        fs.write_file(&seg_path(s), d);
    }
    Ok(Layout { fs, recs, segs })
}

fn alphabet() -> Vec<Cmd> {
    vec![Cmd::Begin(2), Cmd::Row(1, 1, 9), Cmd::Del(1, 1, 9), Cmd::Commit(1, 9), Cmd::Abort(2)]
}

fn replay(fs: &TraceFs, floor: Option<&WalSegmentRef>) -> Result<Vec<String>, String> {
    let r = Replayer::new(cfg(fs, false));
    block_on(r.scan_with_floor(floor)).map(|v| v.iter().map(event_text).collect()).map_err(|e| e.to_string())
}

fn sref(seq: u64, first: u64, last: u64) -> WalSegmentRef {
    WalSegmentRef::new(seq, ulid::Ulid::from_parts(seq, 1), first, last)
}

pub fn run(ctx: &Ctx) {
    let n = ctx.by(3usize, 4);
    let mut shapes = vec![];
    for len in 1..=n {
        for cmds in sequences(&alphabet(), len) {
            for cuts in sequences(&[0u64, 1], len) {
                for empty in [false, true] {
                    shapes.push((cmds.clone(), cuts.clone(), empty));
                }
            }
        }
    }
    // gaps between file numbers, numbers of different width, longer logs
    let long: Vec<Cmd> = vec![Cmd::Row(1, 1, 3), Cmd::Commit(1, 3), Cmd::Begin(2), Cmd::Row(2, 3, 4), Cmd::Del(2, 2, 4), Cmd::Commit(2, 4), Cmd::Abort(3)];
    for cuts in sequences(&[0u64, 1, 7], ctx.by(4, 5)) {
        let mut c = vec![0; long.len() - cuts.len()];
        c.extend(cuts);
        shapes.push((long.clone(), c, false));
    }
    let on = |p: &[&str]| p.contains(&ctx.prop.as_str());

    if on(&["C09"]) {
        let s = ctx.suite(
            "replay.layout",
            format!("{} logs (every sequence of up to {n} records over 5 kinds, every division into files, with and without an empty last file; longer logs with gaps in the file numbers): replay without floor, and with every floor (file, first record) including files that do not exist", shapes.len()),
        );
        s.par_cases(&shapes, |c| format!("{c:?}"), |(cmds, cuts, empty), rec| {
            for first_seg in [0u64, 9] {
                let l = layout(cmds, cuts, first_seg, *empty)?;
                // files that are not log files must be ignored
                l.fs.write_file("w/wal-1.tonwal", b"junk".to_vec());
                l.fs.write_file("w/state.json", b"{}".to_vec());
                l.fs.write_file("w/wal-00000000000000000003.tonwal.tmp", b"junk".to_vec());
                let want: Vec<String> = l.recs.iter().map(|r| r.text.clone()).collect();
                let got = replay(&l.fs, None);
                rec.step();
                rec.eval();
                rec.state(&want);
                ensure!(got == Ok(want.clone()), "replay of {want:?} in files {:?} gave {got:?}", l.segs);
                let hi = *l.segs.last().unwrap() + 1;
                for fseg in first_seg.saturating_sub(1)..=hi {
                    for ff in 0..=(l.recs.len() as u64 + 1) {
                        let fl = sref(fseg, ff, ff + 3);
                        let w: Vec<String> = l
                            .recs
                            .iter()
                            .filter(|r| r.seg > fseg || (r.seg == fseg && r.seq >= ff))
                            .map(|r| r.text.clone())
                            .collect();
                        let g = replay(&l.fs, Some(&fl));
                        rec.step();
                        rec.eval();
                        ensure!(g == Ok(w.clone()), "floor (file {fseg}, record {ff}) over files {:?}: got {g:?}, want {w:?}", l.segs);
                    }
                }
            }
            Ok(())
        });
        drop(s);

        let s = ctx.suite(
            "replay.truncate",
            format!("every truncation length (records of up to 64 bytes: every byte; longer ones: header, and every 16th payload byte, first and last) of the last non-empty file, and of every earlier file, of the logs of up to {} records", ctx.by(2, 3)),
        );
        let small: Vec<_> = shapes.iter().filter(|x| x.0.len() <= ctx.by(2, 3) || x.0.len() > 4).cloned().collect();
        s.par_cases(&small, |c| format!("{c:?}"), |(cmds, cuts, empty), rec| {
            let l = layout(cmds, cuts, 0, *empty)?;
            for &sg in &l.segs {
                let p = seg_path(sg);
                let full = l.fs.read_file(&p).unwrap();
                let mine: Vec<&Rcd> = l.recs.iter().filter(|r| r.seg == sg).collect();
                for r in &mine {
                    let len = r.end - r.start;
                    for cut in r.start + 1..r.end {
                        let o = cut - r.start;
                        if len > 64 && o > FRAME_HEADER_SIZE + 2 && cut + 2 < r.end && o % 16 != 0 {
                            continue;
                        }
                        l.fs.write_file(&p, full[..cut].to_vec());
                        let want: Vec<String> = l.recs.iter().take_while(|x| x.seq < r.seq).map(|x| x.text.clone()).collect();
                        let got = replay(&l.fs, None);
                        rec.step();
                        rec.eval();
                        ensure!(got == Ok(want.clone()), "file {sg} cut at {cut} inside record {}: got {got:?}, want {want:?}", r.seq);
                    }
                }
                l.fs.write_file(&p, full);
            }
            Ok(())
        });
        drop(s);

        let s = ctx.suite(
            "replay.damage",
            "every byte of every record of 3-record logs in 1..3 files replaced (2 values): an error, or, when the damage makes a record look longer than the file, a clean stop before it; never a different or later record",
        );
        let three: Vec<(Vec<Cmd>, Vec<u64>)> = sequences(&[0u64, 1], 3)
            .into_iter()
            .flat_map(|cuts| {
                [vec![Cmd::Row(1, 1, 9), Cmd::Commit(1, 9), Cmd::Abort(3)], vec![Cmd::Begin(1), Cmd::Del(1, 2, 9), Cmd::Commit(1, 9)]]
                    .into_iter()
                    .map(move |c| (c, cuts.clone()))
            })
            .collect();
        s.par_cases(&three, |c| format!("{c:?}"), |(cmds, cuts), rec| {
            let l = layout(cmds, cuts, 0, false)?;
            let all: Vec<String> = l.recs.iter().map(|r| r.text.clone()).collect();
            for r in &l.recs {
                let p = seg_path(r.seg);
                let full = l.fs.read_file(&p).unwrap();
                for i in r.start..r.end {
                    let o = i - r.start;
                    // record type and sequence are not covered by the checksum (bytes 6..16)
                    if (6..16).contains(&o) {
                        continue;
                    }
                    for x in [0x01u8, 0xff] {
                        let mut d = full.clone();
                        d[i] ^= x;
                        l.fs.write_file(&p, d);
                        let got = replay(&l.fs, None);
                        rec.step();
                        rec.eval();
                        let is_len = (16..20).contains(&o);
                        match got {
                            Err(_) => {}
                            Ok(v) => {
                                let want = &all[..(r.seq - 1) as usize];
                                ensure!(is_len && v == want, "byte {o} of record {} damaged: replay returned {v:?} without error", r.seq)
                            }
                        }
                    }
                }
                l.fs.write_file(&p, full);
            }
            Ok(())
        });
        drop(s);

        let s = ctx.suite("replay.modes", "each recovery mode; empty and missing directory; reads failing at every read operation");
        s.case("modes", |rec| {
            let l = layout(&long, &[0, 1, 0, 0, 1, 0, 0], 0, false)?;
            for (m, ok) in [
                (WalRecoveryMode::PointInTime, true),
                (WalRecoveryMode::TolerateCorruptedTail, true),
                (WalRecoveryMode::AbsoluteConsistency, false),
                (WalRecoveryMode::SkipCorrupted, false),
            ] {
                let mut c = cfg(&l.fs, false);
                c.recovery = m;
                let r = block_on(Replayer::new(c).scan_with_floor(None));
                rec.eval();
                match r {
                    Ok(v) => ensure!(v.len() == long.len(), "mode {m:?} returned {} of {} records", v.len(), long.len()),
                    Err(e) => ensure!(!ok, "mode {m:?} failed: {e}"),
                }
            }
            let e = replay(&TraceFs::new(), None);
            ensure!(e == Ok(vec![]), "empty directory: {e:?}");
            let clean = replay(&l.fs, None);
            let reads = l.fs.read_count();
            for k in 0..reads + 20 {
                let fs = TraceFs::from_image(l.fs.image());
                fs.set_read_fault(k);
                let r = replay(&fs, None);
                rec.step();
                rec.eval();
                if fs.fault_hit().is_some() {
                    ensure!(r.is_err(), "read {k} failed but replay returned {r:?}");
                } else {
                    ensure!(r == clean, "replay differs without a fault: {r:?}");
                }
            }
            Ok(())
        });
    }

    if on(&["C09", "C07", "C11", "C27"]) {
        let s = ctx.suite(
            "tail.repair",
            format!("the same logs with every truncation of the last file: tail inspection keeps exactly the complete records, is idempotent, touches no other file, and replay before and after agree; {} logs", shapes.len()),
        );
        let small: Vec<_> = shapes.iter().filter(|x| x.0.len() <= ctx.by(2, 3) || x.0.len() > 4).cloned().collect();
        s.par_cases(&small, |c| format!("{c:?}"), |(cmds, cuts, empty), rec| {
            let l = layout(cmds, cuts, 0, *empty)?;
            let st = storage(&l.fs);
            let sg = *l.segs.last().unwrap();
            let p = seg_path(sg);
            let full = l.fs.read_file(&p).unwrap();
            for cut in 0..=full.len() {
                let inrec = l.recs.iter().find(|r| r.seg == sg && cut > r.start && cut < r.end);
                if let Some(r) = inrec {
                    let o = cut - r.start;
                    if r.end - r.start > 64 && o > FRAME_HEADER_SIZE + 9 && cut + 2 < r.end && o % 16 != 0 {
                        continue;
                    }
                }
                l.fs.write_file(&p, full[..cut].to_vec());
                let before = l.fs.image();
                let rb = replay(&l.fs, None).map_err(Fail::Bad)?;
                block_on(st.tail_metadata_with_hint(None)).map_err(we)?;
                let after = l.fs.read_file(&p).unwrap();
                let keep = l.recs.iter().filter(|r| r.seg == sg && r.end <= cut).map(|r| r.end).max().unwrap_or(0);
                rec.step();
                rec.eval();
                ensure!(after == full[..keep], "file {sg} cut at {cut}: repaired to {} bytes, complete records end at {keep}", after.len());
                for (k, v) in &before {
                    if *k != p {
                        ensure!(l.fs.read_file(k).as_ref() == Some(&v.data), "tail inspection changed {k}");
                    }
                }
                let ra = replay(&l.fs, None).map_err(Fail::Bad)?;
                ensure!(rb == ra, "replay before repair {rb:?}, after {ra:?}");
                let n0 = l.fs.log_len();
                block_on(st.tail_metadata_with_hint(Some(sg))).map_err(we)?;
                ensure!(l.fs.log_len() == n0, "second tail inspection rewrote the file");
            }
            Ok(())
        });
    }

    if on(&["C11", "C09"]) {
        let s = ctx.suite(
            "wal.refs",
            format!("{} logs x every published floor x every live record floor: the references have exact bounds, in order, once each, cover every file with a live record and every file after the published floor; pruning to every floor removes exactly the files below it", shapes.len()),
        );
        s.par_cases(&shapes, |c| format!("{c:?}"), |(cmds, cuts, empty), rec| {
            let first_seg = 3;
            let l = layout(cmds, cuts, first_seg, *empty)?;
            let hi = *l.segs.last().unwrap() + 1;
            let mut bounds: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
            for r in &l.recs {
                let e = bounds.entry(r.seg).or_insert((r.seq, r.seq));
                e.1 = r.seq;
            }
            let c = cfg(&l.fs, true);
            for floor in std::iter::once(None).chain((first_seg - 1..=hi).map(Some)) {
                for live in std::iter::once(None).chain((1..=l.recs.len() as u64 + 1).map(Some)) {
                    let fr = floor.map(|f| sref(f, bounds.get(&f).map(|b| b.0).unwrap_or(1), 9));
                    let got = block_on(collect_wal_segment_refs(&c, fr.as_ref(), live)).map_err(we)?;
                    rec.step();
                    rec.eval();
                    let gv: Vec<(u64, u64, u64)> = got.iter().map(|r| (r.seq(), r.first_frame(), r.last_frame())).collect();
                    ensure!(gv.windows(2).all(|w| w[0].0 < w[1].0), "references not strictly ordered: {gv:?}");
                    for (sg, f, la) in &gv {
                        ensure!(bounds.get(sg) == Some(&(*f, *la)), "reference {:?} but the file holds {:?}", (sg, f, la), bounds.get(sg));
                    }
                    for (sg, (f, la)) in &bounds {
                        let live_here = live.is_some_and(|x| *la >= x);
                        let after = floor.is_none_or(|x| *sg > x);
                        if live_here || after {
                            ensure!(gv.iter().any(|g| g.0 == *sg), "file {sg} (records {f}..={la}) is needed (floor {floor:?}, live from {live:?}) but not referenced: {gv:?}");
                        }
                    }
                    let mut ids: Vec<_> = got.iter().map(|r| *r.file_id()).collect();
                    ids.sort();
                    ids.dedup();
                    ensure!(ids.len() == got.len(), "two files share an identity");
                }
            }
            for f in 0..=hi + 1 {
                for dry in [false, true] {
                    let fs = TraceFs::from_image(l.fs.image());
                    let c = cfg(&fs, false).with_prune_dry_run(dry);
                    let n = block_on(prune_wal_segments(&c, &sref(f, 1, 1))).map_err(we)?;
                    let left: Vec<u64> = l.segs.iter().copied().filter(|s| fs.read_file(&seg_path(*s)).is_some()).collect();
                    let want: Vec<u64> = l.segs.iter().copied().filter(|s| dry || *s >= f).collect();
                    rec.step();
                    rec.eval();
                    ensure!(left == want, "pruning below {f} (dry run {dry}) of {:?} left {left:?}", l.segs);
                    let cnt = l.segs.iter().filter(|s| **s < f).count();
                    ensure!(n == cnt, "pruning reported {n}, expected {cnt}");
                    for (k, v) in l.fs.image() {
                        if let Some(d) = fs.read_file(&k) {
                            ensure!(d == v.data, "pruning changed {k}");
                        }
                    }
                }
            }
            Ok(())
        });
    }

    if on(&["C27"]) {
        #[derive(Clone, Copy, Debug)]
        enum O {
            Load(usize),
            Edit(usize, u64),
            Put(usize),
            Seal(usize),
        }
        let mut al = vec![];
        for h in 0..2 {
            al.extend([O::Load(h), O::Edit(h, 5 + h as u64), O::Put(h), O::Seal(h)]);
        }
        let d = ctx.by(5, 6);
        let seqs = sequences(&al, d);
        let s = ctx.suite(
            "state.handles",
            format!("every sequence of {d} operations (load, edit, seal, store) by two holders of the state record: a store either replaces the record completely or fails and leaves it, it fails exactly if the other holder stored since; reading returns the last stored record"),
        );
        s.par_cases(&seqs, |c| format!("{c:?}"), |ops, rec| {
            let fs = TraceFs::new();
            let store = || -> Arc<dyn crate::wal::state::WalStateStore> { Arc::new(FsWalStateStore::new(Arc::new(fs.clone()) as Arc<dyn FsCas>)) };
            let dir = Path::parse(DIR).unwrap();
            let load = || block_on(WalStateHandle::load(store(), &dir)).map_err(we);
            let mut hs = vec![load()?, load()?];
            let mut seen = [0u64, 0]; // generation each holder is based on
            let mut gen_ = 0u64;
            let mut cur = serde_json::to_value(hs[0].state()).map_err(we)?;
            for o in ops {
                rec.step();
                match *o {
                    O::Load(h) => {
                        hs[h] = load()?;
                        seen[h] = gen_;
                        let v = serde_json::to_value(hs[h].state()).map_err(we)?;
                        ensure!(v == cur, "loaded {v} but last stored {cur}");
                    }
                    O::Edit(h, x) => {
                        let st = hs[h].state_mut();
                        let n = st.last_frame_seq.unwrap_or(0) + x;
                        st.set_frame_seq(n);
                        st.set_active_segment(WalSegmentBounds::new(x, ulid::Ulid::from_parts(x, 0), 1, n));
                    }
                    O::Seal(h) => {
                        let st = hs[h].state_mut();
                        let k = st.last_segment_seq.map(|s| s + 1).unwrap_or(0);
                        st.set_segment_seq(k);
                        st.upsert_sealed_segment(WalSegmentBounds::new(k, ulid::Ulid::from_parts(k, 0), 1, 2));
                        st.clear_active_segment();
                        let n = st.sealed_segments().len();
                        st.upsert_sealed_segment(WalSegmentBounds::new(k, ulid::Ulid::from_parts(k, 0), 1, 3));
                        ensure!(st.sealed_segments().len() == n, "a sealed file is listed twice");
                    }
                    O::Put(h) => {
                        let want = serde_json::to_value(hs[h].state()).map_err(we)?;
                        let r = block_on(hs[h].persist());
                        rec.eval();
                        if seen[h] == gen_ {
                            ensure!(r.is_ok(), "store by the only writer failed: {:?}", r.err());
                            gen_ += 1;
                            seen[h] = gen_;
                            cur = want;
                        } else {
                            ensure!(r.is_err(), "a store based on an outdated record overwrote a newer one");
                        }
                        let v = serde_json::to_value(load()?.state()).map_err(we)?;
                        ensure!(v == cur, "after a store the record reads {v}, expected {cur}");
                    }
                }
                rec.state(&(cur.to_string(), seen[0] == gen_, seen[1] == gen_));
            }
            Ok(())
        });
        drop(s);
        let s = ctx.suite("state.damage", "state record empty, missing, truncated at every length, and stores failing: an interrupted store leaves the previous record; damage is an error, never a wrong record");
        s.case("truncate", |rec| {
            let fs = TraceFs::new();
            let store: Arc<dyn crate::wal::state::WalStateStore> = Arc::new(FsWalStateStore::new(Arc::new(fs.clone()) as Arc<dyn FsCas>));
            let dir = Path::parse(DIR).unwrap();
            let mut h = block_on(WalStateHandle::load(store.clone(), &dir)).map_err(we)?;
            h.state_mut().set_frame_seq(7);
            h.state_mut().set_segment_seq(3);
            block_on(h.persist()).map_err(we)?;
            let p = fs.paths().into_iter().find(|p| p.ends_with("state.json")).ok_or_else(|| Fail::Bad("no state file".into()))?;
            let full = fs.read_file(&p).unwrap();
            for n in 0..full.len() {
                fs.write_file(&p, full[..n].to_vec());
                rec.step();
                rec.eval();
                match block_on(WalStateHandle::load(store.clone(), &dir)) {
                    Err(_) => {}
                    Ok(h) => ensure!(n == 0 && h.state().last_frame_seq.is_none(), "{n} bytes of a state record were accepted"),
                }
            }
            // an empty record counts as no record: the next store replaces it
            fs.write_file(&p, vec![]);
            if let Ok(mut h) = block_on(WalStateHandle::load(store.clone(), &dir)) {
                h.state_mut().set_frame_seq(2);
                block_on(h.persist()).map_err(|e| Fail::Bad(format!("an empty record was accepted but cannot be replaced: {e}")))?;
                let h = block_on(WalStateHandle::load(store.clone(), &dir)).map_err(we)?;
                ensure!(h.state().last_frame_seq == Some(2), "the record stored over an empty one is lost");
            }
            fs.write_file(&p, full.clone());
            let mut h = block_on(WalStateHandle::load(store.clone(), &dir)).map_err(we)?;
            ensure!(h.state().last_frame_seq == Some(7) && h.state().last_segment_seq == Some(3), "state lost fields");
            h.state_mut().set_frame_seq(8);
            fs.set_fault(fs.op_count(), FaultKind::Err);
            ensure!(block_on(h.persist()).is_err(), "failing store reported success");
            ensure!(fs.read_file(&p) == Some(full), "failing store changed the record");
            fs.clear_fault();
            block_on(h.persist()).map_err(we)?;
            let h = block_on(WalStateHandle::load(store, &dir)).map_err(we)?;
            ensure!(h.state().last_frame_seq == Some(8), "retry after a failed store lost the update");
            Ok(())
        });
    }
}
