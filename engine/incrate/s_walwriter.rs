//! C10, C25, C27, C06, C07: the log writer. Command sequences, restarts, crash points, storage
//! faults and client interleavings against the real writer task on a traced filesystem.
use std::{
    path::PathBuf,
    sync::{
        Arc,
        atomic::{AtomicU64, AtomicUsize, Ordering},
    },
    time::Duration,
};

use fusio::{
    DynFs,
    executor::{Executor, Timer},
    fs::FsCas,
    path::Path,
};
use futures::{SinkExt, channel::{mpsc, oneshot}};

use super::{core::*, exec::VExec, s_frame::{Cmd, event_text, expect, to_wal}, tracefs::*};
use crate::{
    ensure,
    wal::{
        WalAck, WalConfig, WalResult, WalSnapshot, WalSyncPolicy,
        frame::{FRAME_HEADER_SIZE, FrameHeader, INITIAL_FRAME_SEQ, decode_frame, encode_command},
        metrics::WalMetrics,
        replay::Replayer,
        state::{FsWalStateStore, WalStateHandle, WalStateStore},
        storage::WalStorage,
        writer::{WriterMsg, spawn_writer},
    },
};

static CASE: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug, PartialEq)]
pub enum Sync {
    Always,
    Bytes(usize),
    Time(u64),
    Off,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub sync: Sync,
    pub max: usize,
    pub age: Option<u64>,
    pub state: bool,
    pub retain: Option<usize>,
}

/// A private scratch root whose syncs are observed.
pub struct Root(pub PathBuf);
impl Root {
    pub fn new() -> Self {
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        let p = PathBuf::from(base).join(format!("w{:09}", CASE.fetch_add(1, Ordering::Relaxed)));
        let _ = std::fs::create_dir_all(&p);
        Root(p)
    }
    pub fn dir(&self) -> Path {
        Path::parse(self.0.join("wal").to_string_lossy()).expect("wal dir")
    }
}
impl Drop for Root {
    fn drop(&mut self) {
        TraceFs::unregister(&self.0);
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn wal_cfg(fs: &TraceFs, dir: &Path, c: &Cfg) -> WalConfig {
    let mut w = WalConfig {
        dir: dir.clone(),
        segment_backend: Arc::new(fs.clone()) as Arc<dyn DynFs>,
        state_store: None,
        segment_max_bytes: c.max,
        segment_max_age: c.age.map(Duration::from_millis),
        flush_interval: Duration::ZERO,
        retention_bytes: c.retain,
        sync: match c.sync {
            Sync::Always => WalSyncPolicy::Always,
            Sync::Bytes(n) => WalSyncPolicy::IntervalBytes(n),
            Sync::Time(ms) => WalSyncPolicy::IntervalTime(Duration::from_millis(ms)),
            Sync::Off => WalSyncPolicy::Disabled,
        },
        ..WalConfig::default()
    };
    if c.state {
        w = w.with_state_store(Arc::new(FsWalStateStore::new(Arc::new(fs.clone()) as Arc<dyn FsCas>)));
    }
    w
}

pub struct Writer {
    pub exec: Arc<VExec>,
    pub tx: mpsc::Sender<WriterMsg>,
    depth: Arc<AtomicUsize>,
    join: Option<super::exec::VJoin<WalResult<()>>>,
}

impl Writer {
    pub fn open(exec: &Arc<VExec>, fs: &TraceFs, cfg: WalConfig) -> Writer {
        let storage = WalStorage::new(Arc::new(fs.clone()) as Arc<dyn DynFs>, cfg.dir.clone());
        let metrics = Arc::new(VExec::rw_lock(WalMetrics::default()));
        let h = spawn_writer(Arc::clone(exec), storage, cfg, metrics, 0, INITIAL_FRAME_SEQ);
        let (tx, depth, join) = h.into_parts();
        Writer { exec: exec.clone(), tx, depth, join: Some(join) }
    }
    pub fn enqueue(&self, c: &Cmd) -> (impl std::future::Future<Output = bool> + Send + 'static, oneshot::Receiver<WalResult<WalAck>>) {
        let (ack_tx, ack_rx) = oneshot::channel();
        self.depth.fetch_add(1, Ordering::SeqCst);
        let msg = WriterMsg::Enqueue { _submission_seq: 0, command: to_wal(c), enqueued_at: std::time::Instant::now(), ack_tx };
        let mut tx = self.tx.clone();
        (async move { tx.send(msg).await.is_ok() }, ack_rx)
    }
    pub fn one(&self, c: &Cmd) -> R<Result<WalAck, String>> {
        let (send, rx) = self.enqueue(c);
        self.exec.block_on(async move {
            if !send.await {
                return Err("closed".to_string());
            }
            match rx.await {
                Ok(r) => r.map_err(|e| e.to_string()),
                Err(_) => Err("dropped".into()),
            }
        })
    }
    pub fn rotate(&self) -> R<Result<(), String>> {
        let (ack_tx, rx) = oneshot::channel();
        let mut tx = self.tx.clone();
        self.exec.block_on(async move {
            if tx.send(WriterMsg::Rotate { ack_tx }).await.is_err() {
                return Err("closed".into());
            }
            match rx.await {
                Ok(r) => r.map_err(|e| e.to_string()),
                Err(_) => Err("dropped".into()),
            }
        })
    }
    pub fn snapshot(&self) -> R<Result<WalSnapshot, String>> {
        let (ack_tx, rx) = oneshot::channel();
        let mut tx = self.tx.clone();
        self.exec.block_on(async move {
            if tx.send(WriterMsg::Snapshot { ack_tx }).await.is_err() {
                return Err("closed".into());
            }
            match rx.await {
                Ok(r) => r.map_err(|e| e.to_string()),
                Err(_) => Err("dropped".into()),
            }
        })
    }
    pub fn shutdown(mut self) -> R<Result<(), String>> {
        self.tx.close_channel();
        drop(self.tx);
        let j = self.join.take().unwrap();
        let exec = self.exec.clone();
        exec.block_on(async move {
            use fusio::executor::JoinHandle;
            match j.join().await {
                Ok(r) => r.map_err(|e| e.to_string()),
                Err(e) => Err(e.to_string()),
            }
        })
    }
    pub fn sleep(&self, ms: u64) -> R {
        let s = self.exec.sleep(Duration::from_millis(ms));
        self.exec.block_on(async move { s.await })
    }
}

/// Records found in the log files of an image: (file, seq, text, end offset), complete ones only;
/// plus whether a torn tail exists.
pub fn parse(img: &Image) -> R<Vec<(u64, u64, String, usize)>> {
    let mut out = vec![];
    for (p, f) in img {
        let Some(name) = p.rsplit('/').next() else { continue };
        let Some(n) = name.strip_prefix("wal-").and_then(|x| x.strip_suffix(".tonwal")) else { continue };
        let seg: u64 = n.parse().map_err(|_| Fail::Bad(format!("odd log file name {name}")))?;
        let d = &f.data;
        let mut o = 0;
        while o < d.len() {
            let Ok((h, _)) = FrameHeader::decode_from(&d[o..]) else { break };
            let end = o + FRAME_HEADER_SIZE + h.len as usize;
            let e = decode_frame(h.frame_type, &d[o + FRAME_HEADER_SIZE..end]).map_err(|e| Fail::Bad(format!("file {name}: {e}")))?;
            out.push((seg, h.seq, event_text(&e), end));
            o = end;
        }
    }
    Ok(out)
}

fn frames_of(c: &Cmd) -> (u64, usize) {
    let f = encode_command(to_wal(c)).expect("encode");
    let n = f.len() as u64;
    let b = f.into_iter().map(|f| f.into_bytes(1).len()).sum();
    (n, b)
}

fn seg_files(img: &Image) -> Vec<(String, usize, usize)> {
    img.iter().filter(|(p, _)| p.ends_with(".tonwal")).map(|(p, f)| (p.clone(), f.data.len(), f.synced)).collect()
}

fn check_log(img: &Image, want: &[String], what: &str) -> R {
    let got = parse(img)?;
    for (i, (_, s, t, _)) in got.iter().enumerate() {
        ensure!(*s == 1 + i as u64, "{what}: record {i} of the log has sequence {s}; sequences {:?}", got.iter().map(|g| g.1).collect::<Vec<_>>());
        ensure!(want.get(i) == Some(t), "{what}: record {i} is {t}, expected {:?}", want.get(i));
    }
    ensure!(got.len() == want.len(), "{what}: the log holds {} of {} records", got.len(), want.len());
    Ok(())
}

fn check_state(fs: &TraceFs, dir: &Path, nrec: u64, what: &str) -> R {
    let store: Arc<dyn WalStateStore> = Arc::new(FsWalStateStore::new(Arc::new(fs.clone()) as Arc<dyn FsCas>));
    let h = futures::executor::block_on(WalStateHandle::load(store, dir)).map_err(|e| Fail::Bad(format!("{what}: state record unreadable: {e}")))?;
    let st = h.state();
    ensure!(st.last_frame_seq.unwrap_or(0) <= nrec, "{what}: state record names record {:?} but the log ends at {nrec}", st.last_frame_seq);
    let recs = parse(&fs.image())?;
    for b in st.sealed_segments.iter().chain(st.active_segment.iter()) {
        let mine: Vec<u64> = recs.iter().filter(|r| r.0 == b.seq).map(|r| r.1).collect();
        if let (Some(f), Some(l)) = (mine.first(), mine.last()) {
            ensure!(b.first_frame == *f && b.last_frame <= *l, "{what}: state record bounds {b:?}, file holds {f}..={l}");
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Op {
    C(Cmd),
    /// several commands enqueued before any acknowledgement is awaited
    Burst(Vec<Cmd>),
    Rotate,
    Snap,
    Sleep(u64),
    Restart,
    Crash,
}

fn ops_alpha(deep: bool) -> Vec<Op> {
    let mut v = vec![
        Op::C(Cmd::Row(1, 1, 9)),
        Op::C(Cmd::Commit(1, 9)),
        Op::Burst(vec![Cmd::Row(2, 1, 10), Cmd::Commit(2, 10)]),
        Op::Rotate,
        Op::Restart,
        Op::Crash,
        Op::Sleep(60),
    ];
    if deep {
        v.push(Op::Snap);
        v.push(Op::C(Cmd::Del(3, 2, 11)));
        v.push(Op::C(Cmd::Abort(3)));
    }
    v
}

struct Sim {
    root: Root,
    fs: TraceFs,
    exec: Arc<VExec>,
    w: Option<Writer>,
    cfg: Cfg,
    want: Vec<String>,
    next: u64,
    first_kept: usize,
}

impl Sim {
    fn new(cfg: Cfg) -> Sim {
        let root = Root::new();
        let fs = TraceFs::new();
        fs.local_with_syncs(&root.0);
        let mut s = Sim { root, fs, exec: Arc::new(VExec::new()), w: None, cfg, want: vec![], next: 1, first_kept: 0 };
        s.open();
        s
    }
    fn open(&mut self) {
        let c = wal_cfg(&self.fs, &self.root.dir(), &self.cfg);
        self.w = Some(Writer::open(&self.exec, &self.fs, c));
    }
    fn on_ack(&mut self, c: &Cmd, a: Result<WalAck, String>, at_ack: &Image) -> R {
        let a = a.map_err(|e| Fail::Bad(format!("{c:?} failed without a fault: {e}")))?;
        let (n, b) = frames_of(c);
        ensure!(a.first_seq == self.next && a.last_seq == self.next + n - 1, "{c:?} acknowledged as {}..={}, expected {}..={}", a.first_seq, a.last_seq, self.next, self.next + n - 1);
        ensure!(a.bytes_flushed == b, "{c:?} acknowledged with {} bytes, wrote {b}", a.bytes_flushed);
        self.next += n;
        self.want.push(expect(c));
        let recs = parse(at_ack)?;
        ensure!(recs.iter().any(|r| r.1 == a.last_seq), "{c:?} acknowledged before its record is in the log");
        match self.cfg.sync {
            Sync::Always => {
                for (p, len, synced) in seg_files(at_ack) {
                    ensure!(synced >= len, "{c:?} acknowledged under always-sync but {p} has {synced} of {len} bytes synced");
                }
            }
            Sync::Bytes(n) => {
                let un: usize = seg_files(at_ack).iter().map(|x| x.1 - x.2).sum();
                ensure!(un < n, "{c:?} acknowledged with {un} unsynced bytes under a {n}-byte interval");
            }
            _ => {}
        }
        Ok(())
    }
    fn step(&mut self, o: &Op, rec: &mut Rec) -> R {
        rec.step();
        let fs = self.fs.clone();
        match o {
            Op::C(c) => {
                let a = self.w.as_ref().unwrap().one(c)?;
                let img = fs.image();
                self.on_ack(c, a, &img)?;
            }
            Op::Burst(cs) => {
                let w = self.w.as_ref().unwrap();
                let mut rxs = vec![];
                let mut sends = vec![];
                for c in cs {
                    let (s, r) = w.enqueue(c);
                    sends.push(s);
                    rxs.push(r);
                }
                let fs2 = fs.clone();
                let got = self.exec.block_on(async move {
                    for s in sends {
                        s.await;
                    }
                    let mut out = vec![];
                    for r in rxs {
                        let a = match r.await {
                            Ok(r) => r.map_err(|e| e.to_string()),
                            Err(_) => Err("dropped".to_string()),
                        };
                        out.push((a, fs2.image()));
                    }
                    out
                })?;
                for (c, (a, img)) in cs.iter().zip(got) {
                    self.on_ack(c, a, &img)?;
                }
            }
            Op::Rotate => {
                let before = seg_files(&fs.image());
                self.w.as_ref().unwrap().rotate()?.map_err(|e| Fail::Bad(format!("rotate: {e}")))?;
                let after = seg_files(&fs.image());
                let had = before.last().is_some_and(|x| x.1 > 0);
                ensure!(self.cfg.retain.is_some() || after.len() == before.len() + had as usize, "rotation of a {}empty file: {} files before, {} after", if had { "non-" } else { "" }, before.len(), after.len());
            }
            Op::Snap => {
                self.snap()?;
            }
            Op::Sleep(ms) => {
                self.w.as_ref().unwrap().sleep(*ms)?;
                if let Sync::Time(t) = self.cfg.sync {
                    if *ms > t {
                        for (p, len, synced) in seg_files(&fs.image()) {
                            ensure!(synced >= len, "{p}: {} bytes still unsynced {ms} ms after the last write ({t} ms interval)", len - synced);
                        }
                    }
                }
                if let Some(a) = self.cfg.age {
                    if *ms > a {
                        let s = seg_files(&fs.image());
                        ensure!(s.last().is_none_or(|x| x.1 == 0), "file not rotated {ms} ms after its first record (maximum age {a} ms)");
                    }
                }
            }
            Op::Restart => {
                self.w.take().unwrap().shutdown()?.map_err(|e| Fail::Bad(format!("shutdown: {e}")))?;
                if self.cfg.sync != Sync::Off {
                    for (p, len, synced) in seg_files(&fs.image()) {
                        ensure!(synced >= len, "{p} not synced at shutdown");
                    }
                }
                self.open();
            }
            Op::Crash => {
                self.w = None;
                self.exec.kill_all();
                self.fs.survive();
                self.open();
            }
        }
        // the writer is a background task: let it settle before looking (a crash may interrupt it)
        if !matches!(o, Op::Crash) {
            self.snap()?;
        }
        rec.eval();
        let img = fs.image();
        if self.cfg.retain.is_none() {
            check_log(&img, &self.want, &format!("after {o:?}"))?;
        } else {
            let got = parse(&img)?;
            let first = got.first().map(|g| g.1 as usize - 1).unwrap_or(self.want.len());
            ensure!(first >= self.first_kept, "removed records came back");
            self.first_kept = first;
            let k: Vec<_> = got.iter().map(|g| g.2.clone()).collect();
            ensure!(k[..] == self.want[first.min(self.want.len())..], "after {o:?}: retained log is not a suffix of what was written: {k:?}");
            let s = seg_files(&img);
            let total: usize = s.iter().map(|x| x.1).sum();
            let active = s.last().map(|x| x.1).unwrap_or(0);
            let lim = self.cfg.retain.unwrap();
            if matches!(o, Op::Rotate | Op::Restart) {
                ensure!(total <= lim.max(active), "retained {total} bytes over the limit {lim} with sealed files left");
            }
        }
        if self.cfg.state {
            check_state(&fs, &self.root.dir(), self.want.len() as u64, &format!("after {o:?}"))?;
        }
        if self.cfg.max > 0 && !matches!(o, Op::Crash) {
            let s = seg_files(&img);
            if let Some(l) = s.last() {
                ensure!(l.1 < self.cfg.max, "active file has {} bytes, maximum {}", l.1, self.cfg.max);
            }
        }
        rec.state(&(seg_files(&img).iter().map(|x| (x.1, x.2)).collect::<Vec<_>>(), self.next));
        Ok(())
    }
    fn snap(&mut self) -> R {
        let s = self.w.as_ref().unwrap().snapshot()?.map_err(|e| Fail::Bad(format!("snapshot: {e}")))?;
        let recs = parse(&self.fs.image())?;
        let mut want: Vec<(u64, u64, u64)> = vec![];
        for r in &recs {
            match want.last_mut() {
                Some(w) if w.0 == r.0 => w.2 = r.1,
                _ => want.push((r.0, r.1, r.1)),
            }
        }
        let got: Vec<(u64, u64, u64)> = s.iter().map(|b| (b.seq, b.first_frame, b.last_frame)).collect();
        ensure!(got == want, "snapshot reports files {got:?}, the log holds {want:?}");
        Ok(())
    }
}

/// What the sync policy promises must have reached the file itself, not only the handle's buffer.
fn lazy_session(c: &Cfg, ops: &[Op], rec: &mut Rec) -> R {
    let root = Root::new();
    let fs = TraceFs::new();
    fs.local_with_syncs(&root.0);
    fs.set_buffered(true);
    let exec = Arc::new(VExec::new());
    let cfg = || WalConfig { flush_interval: Duration::from_secs(3600), ..wal_cfg(&fs, &root.dir(), c) };
    let mut w = Some(Writer::open(&exec, &fs, cfg()));
    let mut want: Vec<String> = vec![]; // acknowledged since the start
    let mut sure = 0; // of those, the ones that must survive
    for o in ops {
        rec.step();
        let cmds: &[Cmd] = match o {
            Op::C(x) => std::slice::from_ref(x),
            Op::Burst(x) => x,
            _ => &[],
        };
        for x in cmds {
            let a = w.as_ref().unwrap().one(x)?;
            a.map_err(|e| Fail::Bad(format!("{x:?} failed without a fault: {e}")))?;
            want.push(expect(x));
            let img = fs.image();
            let have = parse(&img)?;
            let tail: usize = seg_files(&img).iter().map(|x| x.1 - x.2).sum();
            if matches!(c.sync, Sync::Always | Sync::Bytes(1)) {
                ensure!(have.len() == want.len(), "{x:?} acknowledged under {:?}: {} of {} records reached the file", c.sync, have.len(), want.len());
                ensure!(tail == 0, "{x:?} acknowledged under {:?} with {tail} unsynced bytes", c.sync);
                sure = want.len();
            }
        }
        match o {
            Op::Rotate => {
                w.as_ref().unwrap().rotate()?.map_err(|e| Fail::Bad(format!("rotate: {e}")))?;
                sure = want.len();
            }
            Op::Restart => {
                w.take().unwrap().shutdown()?.map_err(|e| Fail::Bad(format!("shutdown: {e}")))?;
                sure = want.len();
            }
            Op::Sleep(ms) => {
                w.as_ref().unwrap().sleep(*ms)?;
                if matches!(c.sync, Sync::Time(t) if *ms > t) {
                    sure = want.len();
                    let un: usize = seg_files(&fs.image()).iter().map(|x| x.1 - x.2).sum();
                    ensure!(un == 0, "{un} bytes unsynced after a pause longer than the sync interval");
                }
            }
            Op::Crash => {
                w = None;
                exec.kill_all();
                fs.survive();
            }
            _ => {}
        }
        rec.eval();
        let got: Vec<String> = parse(&fs.image())?.into_iter().map(|r| r.2).collect();
        let all: Vec<String> = want.clone();
        ensure!(got.len() <= all.len() && got[..] == all[..got.len()], "after {o:?}: file holds {got:?}, written {all:?}");
        ensure!(got.len() >= sure, "after {o:?} under {:?}: file holds {} records, {sure} must have reached it", c.sync, got.len());
        if w.is_none() {
            // what was only in the dropped handle is gone
            want.truncate(got.len());
            sure = want.len();
            w = Some(Writer::open(&exec, &fs, cfg()));
        }
        rec.state(&(got.len(), sure));
    }
    Ok(())
}

/// The sync interval and the age limit count from the first write they apply to: later writes,
/// rotations and snapshots do not put them off.
fn paced_session(c: &Cfg, ops: &[Op], rec: &mut Rec) -> R {
    let mut m = Sim::new(c.clone());
    let mut now = 0u64;
    let mut written: Vec<(u64, usize)> = vec![]; // time, bytes
    let mut active: Option<(usize, u64)> = None; // active file (count of files), time of its first record
    for o in ops {
        m.step(o, rec)?;
        let cmds: &[Cmd] = match o {
            Op::C(x) => std::slice::from_ref(x),
            Op::Burst(x) => x,
            _ => &[],
        };
        written.extend(cmds.iter().map(|x| (now, frames_of(x).1)));
        if let Op::Sleep(ms) = o {
            now += ms;
        }
        let files = seg_files(&m.fs.image());
        let unsynced: usize = files.iter().map(|x| x.1 - x.2).sum();
        rec.eval();
        if let Sync::Time(t) = c.sync {
            let fresh: usize = written.iter().filter(|w| w.0 + t >= now).map(|w| w.1).sum();
            ensure!(unsynced <= fresh, "at {now} ms: {unsynced} bytes are not synced, but only {fresh} were written in the last {t} ms");
        }
        let used = files.last().is_some_and(|x| x.1 > 0);
        match active {
            Some((n, _)) if used && n == files.len() => {}
            _ => active = used.then_some((files.len(), now)),
        }
        if let (Some(age), Some((_, t0))) = (c.age, active) {
            ensure!(t0 + age >= now, "at {now} ms: the log file whose first record is from {t0} ms is still in use (maximum age {age} ms)");
        }
    }
    Ok(())
}

fn cfgs(thorough: bool) -> Vec<Cfg> {
    let mut v = vec![];
    for sync in [Sync::Always, Sync::Bytes(700), Sync::Time(50), Sync::Off] {
        for max in [0usize, 1, 600] {
            for state in [true, false] {
                v.push(Cfg { sync: sync.clone(), max, age: None, state, retain: None });
            }
        }
    }
    for state in [true, false] {
        v.push(Cfg { sync: Sync::Time(20), max: 0, age: Some(50), state, retain: None });
        v.push(Cfg { sync: Sync::Always, max: 1, age: None, state, retain: Some(3000) });
        if thorough {
            v.push(Cfg { sync: Sync::Time(50), max: 600, age: Some(30), state, retain: None });
            v.push(Cfg { sync: Sync::Bytes(1), max: 900, age: None, state, retain: Some(2500) });
        }
    }
    v
}

/// One write session recorded on a traced filesystem: (event log, position -> acked count)
struct Hist {
    log: Vec<Ev>,
    acked_at: Vec<(usize, usize)>, // (log length when acked, number of acked records)
    want: Vec<String>,
    cfg: Cfg,
}

fn crash_image(init: &Image, log: &[Ev], power: Option<usize>) -> Image {
    let mut img = replay_log(init, log);
    if let Some(keep) = power {
        // power loss: unsynced bytes of log files are lost except the first `keep` of each
        for (p, f) in img.iter_mut() {
            if p.ends_with(".tonwal") {
                let n = (f.synced + keep).min(f.data.len());
                f.data.truncate(n);
            }
        }
    }
    img
}

pub fn run(ctx: &Ctx) {
    let on = |p: &[&str]| p.contains(&ctx.prop.as_str());
    if on(&["C10", "C27"]) {
        let al = ops_alpha(false);
        let d = ctx.by(4, 5);
        let mut jobs = vec![];
        for c in cfgs(ctx.thorough()) {
            for ops in sequences(&al, d) {
                // sequences starting with maintenance only are covered by shorter ones
                if !matches!(ops[0], Op::C(_) | Op::Burst(_)) {
                    continue;
                }
                jobs.push((c.clone(), ops));
            }
        }
        if ctx.thorough() {
            for c in cfgs(true) {
                for ops in sequences(&ops_alpha(true), 3) {
                    jobs.push((c.clone(), ops));
                }
            }
        }
        let s = ctx.suite(
            "writer.seq",
            format!("{} runs: every sequence of {d} operations (append, commit, pipelined pair, rotate, orderly restart, process crash, 60 ms pause) starting with a write, under {} configurations (sync always / every 700 bytes / every 50 ms / off; file size limit none, 1, 600 bytes; age limit; retention limit; with and without state record)", jobs.len(), cfgs(ctx.thorough()).len()),
        );
        s.par_cases(&jobs, |j| format!("{j:?}"), |(c, ops), rec| {
            let mut m = Sim::new(c.clone());
            for o in ops {
                m.step(o, rec)?;
            }
            Ok(())
        });
    }

    if on(&["C10"]) {
        let al = vec![
            Op::C(Cmd::Row(1, 1, 9)),
            Op::Burst(vec![Cmd::Row(2, 1, 10), Cmd::Commit(2, 10)]),
            Op::Sleep(20),
            Op::Sleep(30),
            Op::Rotate,
        ];
        let d = ctx.by(6, 7);
        let mut jobs = vec![];
        for (sync, age, max) in [(Sync::Time(50), None, 0usize), (Sync::Time(50), Some(70), 0), (Sync::Time(50), None, 900), (Sync::Off, Some(70), 0)] {
            for o in sequences(&al, d) {
                if matches!(o[0], Op::C(_) | Op::Burst(_)) && o.iter().filter(|x| matches!(x, Op::Sleep(_))).count() >= 3 {
                    jobs.push((Cfg { sync: sync.clone(), max, age, state: false, retain: None }, o));
                }
            }
        }
        let s = ctx.suite(
            "writer.pace",
            format!("{} sessions of {d} writes, rotations and pauses of 20 or 30 ms under a 50 ms sync interval and a 70 ms file age limit: at no time is a byte older than the interval unsynced or a file older than the limit in use, however writes are spaced", jobs.len()),
        );
        s.par_cases(&jobs, |j| format!("{j:?}"), |(c, ops), rec| paced_session(c, ops, rec));
    }

    if on(&["C10", "C06"]) {
        let al = vec![
            Op::C(Cmd::Row(1, 1, 9)),
            Op::Burst(vec![Cmd::Row(2, 1, 10), Cmd::Commit(2, 10)]),
            Op::Rotate,
            Op::Sleep(60),
            Op::Restart,
            Op::Crash,
        ];
        let mut jobs = vec![];
        for sync in [Sync::Always, Sync::Bytes(1), Sync::Bytes(700), Sync::Time(50), Sync::Off] {
            for max in [0usize, 1, 600] {
                for o in sequences(&al, ctx.by(3, 5)) {
                    if matches!(o[0], Op::C(_) | Op::Burst(_)) {
                        jobs.push((Cfg { sync: sync.clone(), max, age: None, state: true, retain: None }, o));
                    }
                }
            }
        }
        let s = ctx.suite(
            "writer.buffered",
            format!("{} sessions on a filesystem that keeps writes in the open handle until it is flushed or closed, with a flush interval that never elapses by itself: every acknowledgement, pause, rotation, shutdown and crash, under {} sync policies x file size limits", jobs.len(), 5),
        );
        s.par_cases(&jobs, |j| format!("{j:?}"), |(c, ops), rec| lazy_session(c, ops, rec));
    }

    if on(&["C10", "C06", "C07", "C27"]) {
        // Crash points: record a session, then crash at every event (and every retained unsynced
        // byte count at record boundaries) and reopen.
        let mut jobs = vec![];
        let seqs: Vec<Vec<Op>> = {
            let al = vec![
                Op::C(Cmd::Row(1, 1, 9)),
                Op::Burst(vec![Cmd::Row(2, 1, 10), Cmd::Commit(2, 10)]),
                Op::C(Cmd::Abort(3)),
                Op::Rotate,
                Op::Restart,
            ];
            sequences(&al, ctx.by(3, 4))
        };
        for c in cfgs(ctx.thorough()).into_iter().filter(|c| c.retain.is_none()) {
            for o in &seqs {
                if matches!(o[0], Op::C(_) | Op::Burst(_)) {
                    jobs.push((c.clone(), o.clone()));
                }
            }
        }
        let s = ctx.suite(
            "writer.crash",
            format!("{} sessions x crash after every storage event, as a process crash (all issued bytes survive), a torn last write (half of it) and a power loss (unsynced log bytes lost, or all but the first 10 of them), then reopen, append, and crash again during the reopening at every event", jobs.len()),
        );
        s.par_cases(&jobs, |j| format!("{j:?}"), |(c, ops), rec| {
            let mut m = Sim::new(c.clone());
            let mut acked_at = vec![];
            for o in ops {
                m.step(o, &mut Rec::default())?;
                acked_at.push((m.fs.log_len(), m.want.len()));
            }
            let h = Hist { log: m.fs.log(), acked_at, want: m.want.clone(), cfg: c.clone() };
            drop(m);
            for cut in 0..=h.log.len() {
                let acked = h.acked_at.iter().filter(|a| a.0 <= cut).map(|a| a.1).max().unwrap_or(0);
                let mut images = vec![("process crash", crash_image(&Image::new(), &h.log[..cut], None), acked)];
                if cut > 0 {
                    if let Ev::Append(p, d) = &h.log[cut - 1] {
                        if d.len() > 1 {
                            let mut l = h.log[..cut - 1].to_vec();
                            l.push(Ev::Append(p.clone(), d[..d.len() / 2].to_vec()));
                            let ack = h.acked_at.iter().filter(|a| a.0 < cut).map(|a| a.1).max().unwrap_or(0);
                            images.push(("torn write", crash_image(&Image::new(), &l, None), ack));
                        }
                    }
                    for keep in [0usize, 10] {
                        let need = if h.cfg.sync == Sync::Always { acked } else { 0 };
                        images.push(("power loss", crash_image(&Image::new(), &h.log[..cut], Some(keep)), need));
                    }
                }
                for (kind, img, need) in images {
                    if kind == "power loss" && h.cfg.sync != Sync::Always {
                        continue; // no promise without sync; covered as a process crash
                    }
                    rec.step();
                    rec.eval();
                    reopen_check(&h, &img, need, &format!("{kind} after event {cut}"), rec, ctx.thorough())?;
                }
            }
            Ok(())
        });
    }

    if on(&["C25", "C10"]) {
        let al = vec![
            Op::C(Cmd::Row(1, 1, 9)),
            Op::Burst(vec![Cmd::Row(2, 1, 10), Cmd::Commit(2, 10)]),
            Op::C(Cmd::Abort(3)),
            Op::Rotate,
        ];
        let mut jobs = vec![];
        for c in cfgs(ctx.thorough()).into_iter().filter(|c| c.retain.is_none()) {
            for o in sequences(&al, ctx.by(3, 4)) {
                if !matches!(o[0], Op::Rotate) {
                    jobs.push((c.clone(), o));
                }
            }
        }
        let s = ctx.suite(
            "writer.fault",
            format!("{} sessions x every mutating storage operation failing (no effect / partial effect / this and all later ones): a success is never reported for a record that is not in the log, later commands fail or succeed but do not hang, and reopening keeps every acknowledged record and continues with unused sequence numbers", jobs.len()),
        );
        s.par_cases(&jobs, |j| format!("{j:?}"), |(c, ops), rec| {
            let total = {
                let r = Root::new();
                let fs = TraceFs::new();
                fs.local_with_syncs(&r.0);
                fault_session(&r, &fs, c, ops, rec)?;
                fs.op_count()
            };
            for k in [FaultKind::Err, FaultKind::Partial, FaultKind::Dead] {
                for n in 0..total {
                    let r = Root::new();
                    let fs = TraceFs::new();
                    fs.local_with_syncs(&r.0);
                    fs.set_fault(n, k);
                    let acked = fault_session(&r, &fs, c, ops, rec)?;
                    rec.step();
                    rec.eval();
                    let hit = fs.fault_hit().unwrap_or_default();
                    // reopen on what is left
                    fs.clear_fault();
                    let fs2 = TraceFs::from_image(fs.image());
                    fs2.local_with_syncs(&r.0);
                    let exec = Arc::new(VExec::new());
                    let w = Writer::open(&exec, &fs2, wal_cfg(&fs2, &r.dir(), c));
                    let a = w.one(&Cmd::Commit(77, 77))?.map_err(|e| Fail::Bad(format!("reopening after fault {k:?} at {n} ({hit}): {e}")))?;
                    let recs = parse(&fs2.image())?;
                    for w in recs.windows(2) {
                        ensure!(w[0].1 < w[1].1, "fault {k:?} at {n} ({hit}): sequences not increasing after reopening: {:?}", recs.iter().map(|r| r.1).collect::<Vec<_>>());
                    }
                    ensure!(recs.last().is_some_and(|r| r.1 == a.last_seq && r.2 == "commit 77 77"), "fault {k:?} at {n} ({hit}): record written after reopening is not the last one");
                    if c.retain.is_none() {
                        for (f, l, t) in &acked {
                            ensure!(recs.iter().any(|r| r.1 == *l && r.2 == *t), "fault {k:?} at {n} ({hit}): record {f}..={l} was acknowledged but is not in the log: {:?}", recs.iter().map(|r| (r.1, &r.2)).collect::<Vec<_>>());
                        }
                        let rp = exec_replay(&fs2, &r.dir(), c)?;
                        ensure!(rp.len() == recs.len(), "fault {k:?} at {n} ({hit}): replay yields {} of {} records", rp.len(), recs.len());
                    }
                }
            }
            Ok(())
        });
    }

    if on(&["C10"]) {
        let s = ctx.suite(
            "writer.clients",
            format!("two clients with 2-3 commands each (pipelined or awaited) and a rotation request, queue sizes 1 and 8: every schedule of clients, writer and storage steps with at most {} deviations from the default", ctx.by(2, 3)),
        );
        for (pi, pipelined) in [false, true].into_iter().enumerate() {
            for q in [1usize, 8] {
                for max in [0usize, 600] {
                    for rot in [false, true] {
                        let id = format!("pipe={pi} q={q} max={max} rot={rot}");
                        explore(&s, &id, ctx.by(2, 3), 100_000, &|ch, rec| clients(ch, rec, pipelined, q, max, rot));
                    }
                }
            }
        }
    }
}

fn exec_replay(fs: &TraceFs, dir: &Path, c: &Cfg) -> R<Vec<String>> {
    let r = Replayer::new(wal_cfg(fs, dir, c));
    futures::executor::block_on(r.scan_with_floor(None))
        .map(|v| v.iter().map(event_text).collect())
        .map_err(|e| Fail::Bad(format!("replay: {e}")))
}

fn reopen_check(h: &Hist, img: &Image, need: usize, what: &str, rec: &mut Rec, deep: bool) -> R {
    let root = Root::new();
    // the recorded session ran under another root: rebase
    let old = img.keys().find_map(|k| k.find("/wal/").map(|i| k[..i].to_string()));
    let newp = root.0.to_string_lossy().trim_start_matches('/').to_string();
    let img: Image = img.iter().map(|(k, v)| (match &old { Some(o) => k.replacen(o.as_str(), &newp, 1), None => k.clone() }, v.clone())).collect();
    let check = |fs: &TraceFs, what: &str| -> R {
        let before = exec_replay(fs, &root.dir(), &h.cfg)?;
        ensure!(before.len() >= need, "{what}: replay yields {} records, {need} were acknowledged", before.len());
        ensure!(before.len() <= h.want.len() && before[..] == h.want[..before.len()], "{what}: replay yields {before:?}, written {:?}", h.want);
        let exec = Arc::new(VExec::new());
        let w = Writer::open(&exec, fs, wal_cfg(fs, &root.dir(), &h.cfg));
        let a = w.one(&Cmd::Commit(77, 77))?.map_err(|e| Fail::Bad(format!("{what}: reopening failed: {e}")))?;
        ensure!(a.first_seq == before.len() as u64 + 1, "{what}: the log holds {} records but the next one got sequence {}", before.len(), a.first_seq);
        let mut want = before.clone();
        want.push("commit 77 77".into());
        check_log(&fs.image(), &want, what)?;
        let after = exec_replay(fs, &root.dir(), &h.cfg)?;
        ensure!(after == want, "{what}: after reopening replay yields {after:?}, expected {want:?}");
        drop(w);
        exec.kill_all();
        Ok(())
    };
    let fs = TraceFs::from_image(img.clone());
    fs.local_with_syncs(&root.0);
    check(&fs, what)?;
    // crash during reopening at every event
    let log = fs.log();
    let upto = if deep { log.len() } else { log.len().min(12) };
    for cut in 1..upto {
        let img2 = crash_image(&img, &log[..cut], None);
        let fs2 = TraceFs::from_image(img2);
        fs2.local_with_syncs(&root.0);
        rec.step();
        rec.eval();
        let rp = exec_replay(&fs2, &root.dir(), &h.cfg)?;
        let base: Vec<String> = rp.iter().filter(|t| *t != "commit 77 77").cloned().collect();
        if base.len() < need || base[..] != h.want[..base.len().min(h.want.len())] {
            let m = format!("{what}, then a crash during reopening after event {} ({}): replay yields {} records, {need} were acknowledged", cut, log[cut - 1].brief(), base.len());
            return bad(m);
        }
    }
    Ok(())
}

/// Runs the session tolerating failures; returns acknowledged records (first, last, text).
fn fault_session(root: &Root, fs: &TraceFs, c: &Cfg, ops: &[Op], rec: &mut Rec) -> R<Vec<(u64, u64, String)>> {
    let exec = Arc::new(VExec::new());
    let w = Writer::open(&exec, fs, wal_cfg(fs, &root.dir(), c));
    let mut acked = vec![];
    for o in ops {
        rec.step();
        match o {
            Op::C(cmd) => {
                if let Ok(a) = w.one(cmd)? {
                    acked.push((a.first_seq, a.last_seq, expect(cmd)));
                }
            }
            Op::Burst(cs) => {
                let mut sends = vec![];
                let mut rxs = vec![];
                for cmd in cs {
                    let (s, r) = w.enqueue(cmd);
                    sends.push(s);
                    rxs.push(r);
                }
                let got = exec.block_on(async move {
                    let mut out = vec![];
                    for s in sends {
                        s.await;
                    }
                    for r in rxs {
                        out.push(matches!(r.await, Ok(Ok(_))));
                    }
                    out
                })?;
                for (cmd, ok) in cs.iter().zip(got) {
                    if ok {
                        let recs = parse(&fs.image())?;
                        let t = expect(cmd);
                        let Some(r) = recs.iter().rev().find(|r| r.2 == t) else {
                            return bad(format!("{cmd:?} acknowledged but not in the log"));
                        };
                        acked.push((r.1, r.1, t));
                    }
                }
            }
            Op::Rotate => {
                let _ = w.rotate()?;
            }
            _ => {}
        }
    }
    let _ = w.shutdown()?;
    Ok(acked)
}

fn clients(ch: &mut Chooser, rec: &mut Rec, pipelined: bool, q: usize, max: usize, rot: bool) -> R {
    let root = Root::new();
    let fs = TraceFs::new();
    fs.local_with_syncs(&root.0);
    let exec = Arc::new(VExec::new());
    let c = Cfg { sync: Sync::Always, max, age: None, state: true, retain: None };
    let mut wc = wal_cfg(&fs, &root.dir(), &c);
    wc.queue_size = q;
    let w = Arc::new(Writer::open(&exec, &fs, wc));
    fs.set_yields(true);
    let sets: Vec<Vec<Cmd>> = vec![
        vec![Cmd::Row(1, 1, 9), Cmd::Del(1, 1, 9), Cmd::Commit(1, 9)],
        vec![Cmd::Begin(2), Cmd::Abort(2)],
    ];
    let mut joins = vec![];
    for cs in sets.clone() {
        let w = w.clone();
        let fs = fs.clone();
        joins.push(exec.spawn(async move {
            let mut out: Vec<(Cmd, Result<WalAck, String>, bool)> = vec![];
            let mut pend = vec![];
            for cmd in cs {
                let (s, r) = w.enqueue(&cmd);
                s.await;
                if pipelined {
                    pend.push((cmd, r));
                } else {
                    let a = match r.await {
                        Ok(r) => r.map_err(|e| e.to_string()),
                        Err(_) => Err("dropped".into()),
                    };
                    let dur = seg_files(&fs.image()).iter().all(|x| x.1 == x.2) || a.as_ref().is_ok_and(|a| synced_upto(&fs.image(), a.last_seq));
                    out.push((cmd, a, dur));
                }
            }
            for (cmd, r) in pend {
                let a = match r.await {
                    Ok(r) => r.map_err(|e| e.to_string()),
                    Err(_) => Err("dropped".into()),
                };
                let dur = a.as_ref().is_ok_and(|a| synced_upto(&fs.image(), a.last_seq));
                out.push((cmd, a, dur));
            }
            out
        }));
    }
    let rj = rot.then(|| {
        let mut tx = w.tx.clone();
        exec.spawn(async move {
            let (ack_tx, rx) = oneshot::channel();
            if tx.send(WriterMsg::Rotate { ack_tx }).await.is_err() {
                return false;
            }
            matches!(rx.await, Ok(Ok(())))
        })
    });
    use fusio::executor::JoinHandle;
    let res = exec.run(ch, async move {
        let mut v = vec![];
        for j in joins {
            v.push(j.join().await);
        }
        let r = match rj {
            Some(j) => j.join().await.unwrap_or(false),
            None => true,
        };
        (v.into_iter().map(|x| x.map_err(|e| e.to_string())).collect::<Vec<_>>(), r)
    })?;
    rec.steps(exec.steps());
    rec.eval();
    ensure!(res.1, "rotation request failed");
    let recs = parse(&fs.image())?;
    for (i, r) in recs.iter().enumerate() {
        ensure!(r.1 == 1 + i as u64, "sequences not gap-free: {:?}", recs.iter().map(|r| r.1).collect::<Vec<_>>());
    }
    ensure!(recs.len() == 5, "log holds {} of 5 records", recs.len());
    for r in res.0 {
        let r = r.map_err(Fail::Bad)?;
        let mut last = 0;
        for (cmd, a, dur) in r {
            let a = a.map_err(|e| Fail::Bad(format!("{cmd:?}: {e}")))?;
            ensure!(a.first_seq > last, "commands of one client logged out of order");
            last = a.last_seq;
            let got = recs.iter().find(|r| r.1 == a.first_seq).map(|r| r.2.clone());
            ensure!(got == Some(expect(&cmd)) && a.first_seq == a.last_seq, "{cmd:?} acknowledged as record {}, which holds {got:?}", a.first_seq);
            ensure!(dur, "{cmd:?} acknowledged before it was synced");
        }
    }
    rec.state(&recs.iter().map(|r| (r.0, r.2.clone())).collect::<Vec<_>>());
    Ok(())
}

fn synced_upto(img: &Image, seq: u64) -> bool {
    let Ok(recs) = parse(img) else { return false };
    let Some(r) = recs.iter().find(|r| r.1 == seq) else { return false };
    img.iter().any(|(p, f)| p.ends_with(&format!("wal-{:020}.tonwal", r.0)) && f.synced >= r.3)
}
