//! Concurrent clients of the whole database: every schedule of two or three tasks at await points
//! (each storage access is one) up to a number of preemptions, against all sequential orders.
use std::{
    collections::BTreeMap,
    sync::{
        Arc, Mutex,
        atomic::{AtomicU64, Ordering},
    },
};

use fusio::executor::{Executor, JoinHandle};

use super::{core::*, exec::{AssumeSend, VExec, yield_now}, s_db::*, tracefs::*};
use crate::{
    ensure,
    key::KeyOwned,
    ondisk::sstable::{SsTableDescriptor, SsTableError, SsTableId},
    transaction::TransactionCommitError,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum C {
    /// write a
    A,
    /// write b
    B,
    /// write a and b in one batch
    Ab,
    /// delete a
    D,
    /// delete a and write b in one batch
    Db,
    /// transaction: read a, write a
    Rmw,
    /// transaction: read a, write a and b
    Rmw2,
    /// one scan
    Scan,
    /// a snapshot scanned twice
    Snap,
    /// seal, then flush
    Flush,
    /// seal only
    Seal,
    /// merge all files
    Compact,
    /// the log starts a new file
    Rotate,
}

/// What happened at one point of a history; `inv..resp` bounds the moment it took effect.
#[derive(Clone, Debug)]
struct Point {
    inv: u64,
    resp: u64,
    what: What,
}
#[derive(Clone, Debug)]
enum What {
    Write(Vec<(&'static str, Option<i64>)>),
    Read(Img),
    /// transaction `id` takes its snapshot and sees `a` as given
    TxSnap(usize, Option<i64>),
    TxCommit(usize, Vec<(&'static str, Option<i64>)>, bool),
}

struct Hist {
    tick: AtomicU64,
    pts: Mutex<Vec<Point>>,
    errs: Mutex<Vec<String>>,
    done: AtomicU64,
}
impl Hist {
    fn t(&self) -> u64 {
        self.tick.fetch_add(1, Ordering::SeqCst)
    }
    fn put(&self, inv: u64, what: What) {
        let resp = self.t();
        self.pts.lock().unwrap().push(Point { inv, resp, what });
    }
    fn err(&self, e: String) {
        self.errs.lock().unwrap().push(e);
    }
}

async fn flush(n: &Node) -> Result<(), String> {
    if n.db.verif_inner().num_immutable_segments() == 0 {
        return Ok(());
    }
    let d = SsTableDescriptor::new(SsTableId::new(n.ids.fetch_add(1, Ordering::SeqCst)), 0);
    match n.db.verif_inner().flush_immutables_with_descriptor(n.cfg.clone(), d).await {
        // somebody else flushed them in the meantime
        Ok(_) | Err(SsTableError::NoImmutableSegments) => Ok(()),
        Err(e) => Err(e.to_string()),
    }
}

async fn client(n: Node, h: Arc<Hist>, base: i64, script: Vec<C>) {
    let img = |b: Vec<arrow_array::RecordBatch>| rows_of(&b).into_iter().collect::<Img>();
    for (i, c) in script.iter().enumerate() {
        let v = base + i as i64;
        let inv = h.t();
        match c {
            C::A | C::B | C::Ab | C::D | C::Db => {
                let rows: Vec<(&'static str, Option<i64>)> = match c {
                    C::A => vec![("a", Some(v))],
                    C::B => vec![("b", Some(v))],
                    C::Ab => vec![("a", Some(v)), ("b", Some(v))],
                    C::D => vec![("a", None)],
                    _ => vec![("a", None), ("b", Some(v))],
                };
                let b = rows_batch(&rows);
                let t: Vec<bool> = rows.iter().map(|r| r.1.is_none()).collect();
                let r = if t.contains(&true) { n.db.ingest_with_tombstones(b, t).await } else { n.db.ingest(b).await };
                match r {
                    Ok(()) => h.put(inv, What::Write(rows)),
                    Err(e) => h.err(format!("{c:?}: {e}")),
                }
            }
            C::Rmw | C::Rmw2 => {
                let id = (base as usize) * 10 + i;
                let mut tx = match n.db.begin_transaction().await {
                    Ok(t) => t,
                    Err(e) => {
                        h.err(format!("begin: {e}"));
                        continue;
                    }
                };
                let snap = h.t();
                match tx.get(&KeyOwned::from("a")).await {
                    Ok(r) => {
                        let seen = r.map(|r| match &r.0[1] {
                            Some(typed_arrow_dyn::DynCell::I64(v)) => *v,
                            _ => -1,
                        });
                        h.pts.lock().unwrap().push(Point { inv, resp: snap, what: What::TxSnap(id, seen) });
                    }
                    Err(e) => {
                        h.err(format!("get: {e}"));
                        continue;
                    }
                }
                let mut rows = vec![("a", Some(v))];
                if *c == C::Rmw2 {
                    rows.push(("b", Some(v)));
                }
                for (k, _) in &rows {
                    if let Err(e) = tx.upsert(super::s_txn::row(k, v)) {
                        h.err(format!("upsert: {e}"));
                    }
                }
                let inv = h.t();
                match tx.commit().await {
                    Ok(()) => h.put(inv, What::TxCommit(id, rows, true)),
                    Err(TransactionCommitError::WriteConflict(_)) => h.put(inv, What::TxCommit(id, rows, false)),
                    Err(e) => h.err(format!("commit: {e}")),
                }
            }
            C::Scan => match n.db.scan().collect().await {
                Ok(b) => h.put(inv, What::Read(img(b))),
                Err(e) => h.err(format!("scan: {e}")),
            },
            C::Snap => match n.db.begin_snapshot().await {
                Ok(s) => {
                    let resp = h.t();
                    for _ in 0..2 {
                        match s.scan(&n.db).collect().await {
                            Ok(b) => h.pts.lock().unwrap().push(Point { inv, resp, what: What::Read(img(b)) }),
                            Err(e) => h.err(format!("snapshot scan: {e}")),
                        }
                        yield_now().await;
                    }
                }
                Err(e) => h.err(format!("snapshot: {e}")),
            },
            C::Seal | C::Flush => {
                n.seal.store(true, Ordering::SeqCst);
                if let Err(e) = n.db.verif_inner().maybe_seal_after_insert() {
                    h.err(format!("seal: {e}"));
                }
                if *c == C::Flush {
                    yield_now().await;
                    if let Err(e) = flush(&n).await {
                        h.err(format!("flush: {e}"));
                    }
                }
            }
            C::Compact => n.compact_async().await,
            C::Rotate => {
                if let Some(w) = n.db.verif_inner().wal_handle().cloned() {
                    if let Err(e) = w.rotate().await {
                        h.err(format!("rotate: {e}"));
                    }
                }
            }
        }
    }
    h.done.fetch_add(1, Ordering::SeqCst);
}

// ---------------------------------------------------------------- oracle
#[derive(Clone)]
struct St {
    cur: Img,
    /// keys written after each open transaction's snapshot
    dirty: BTreeMap<usize, Vec<&'static str>>,
}
fn apply(m: &mut Img, rows: &[(&'static str, Option<i64>)]) {
    for (k, v) in rows {
        match v {
            Some(v) => {
                m.insert(k.to_string(), Some(*v));
            }
            None => {
                m.remove(*k);
            }
        }
    }
}
/// Is there an order of the points within their bounds that explains every result?
fn sequential(pts: &[Point], used: u64, st: &St, last: &Img) -> bool {
    if used.count_ones() as usize == pts.len() {
        return st.cur == *last;
    }
    // a point may come next if no unused point had to be over before it began
    let horizon = pts.iter().enumerate().filter(|(i, _)| used & (1 << i) == 0).map(|(_, p)| p.resp).min().unwrap();
    for (i, p) in pts.iter().enumerate() {
        if used & (1 << i) != 0 || p.inv > horizon {
            continue;
        }
        let mut s = st.clone();
        let write = |s: &mut St, rows: &[(&'static str, Option<i64>)]| {
            apply(&mut s.cur, rows);
            for d in s.dirty.values_mut() {
                d.extend(rows.iter().map(|r| r.0));
            }
        };
        match &p.what {
            What::Write(rows) => write(&mut s, rows),
            What::Read(img) => {
                if *img != s.cur {
                    continue;
                }
            }
            What::TxSnap(id, a) => {
                if s.cur.get("a").copied().flatten() != *a {
                    continue;
                }
                s.dirty.insert(*id, vec![]);
            }
            What::TxCommit(id, rows, ok) => {
                let Some(d) = s.dirty.remove(id) else { continue };
                let clash = rows.iter().any(|r| d.contains(&r.0));
                if clash == *ok {
                    continue;
                }
                if *ok {
                    write(&mut s, rows);
                }
            }
        }
        if sequential(pts, used | (1 << i), &s, last) {
            return true;
        }
    }
    false
}

/// Withholds one poll of a client (its thread is not scheduled) until the others are finished, or
/// wait for it.
struct Stall {
    inner: std::pin::Pin<Box<dyn Future<Output = ()>>>,
    at: usize,
    polls: usize,
    wait: Option<std::pin::Pin<Box<dyn Future<Output = ()>>>>,
    exec: VExec,
    h: Arc<Hist>,
    others: u64,
    hit: Arc<AtomicU64>,
}
impl Future for Stall {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        use std::task::Poll;
        self.polls += 1;
        if self.polls == self.at {
            self.hit.store(1, Ordering::SeqCst);
            let (exec, h, others) = (self.exec.clone(), self.h.clone(), self.others);
            self.wait = Some(Box::pin(async move {
                for _ in 0..400 {
                    if h.done.load(Ordering::SeqCst) >= others {
                        break;
                    }
                    fusio::executor::Timer::sleep(&exec, std::time::Duration::from_millis(5)).await;
                }
            }));
        }
        if let Some(w) = self.wait.as_mut() {
            if w.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            self.wait = None;
        }
        self.inner.as_mut().poll(cx)
    }
}

#[derive(Clone, Copy, Debug)]
struct Env {
    /// rows start in a file
    file: bool,
    /// the database seals and flushes by itself after every write
    auto: bool,
    seg: usize,
}

/// With `stall`, the first client's poll of that number is withheld until the others are done.
/// Returns whether it had that many polls.
fn race(scripts: &[Vec<C>], env: Env, stall: Option<usize>, ch: &mut Chooser, rec: &mut Rec) -> R<bool> {
    let opts = Opts { seg: Some(env.seg), minor: env.auto.then_some((1, 0)), seal_always: env.auto, ..Default::default() };
    let mut r = Run::with(&opts)?;
    estr(r.node().write(&[("z", Some(0))])?, "write")?;
    estr(r.node().write(&[("a", Some(1))])?, "write")?;
    r.cur.insert("z".into(), Some(0));
    r.cur.insert("a".into(), Some(1));
    if env.file && !env.auto {
        r.step(Op::Seal)?;
        r.step(Op::Flush)?;
        // a second file with the newest version, and a log floor that has moved
        estr(r.node().write(&[("a", Some(2))])?, "write")?;
        r.cur.insert("a".into(), Some(2));
        r.step(Op::Seal)?;
        r.step(Op::Flush)?;
    }
    let n = r.node().clone();
    let h = Arc::new(Hist { tick: AtomicU64::new(0), pts: Default::default(), errs: Default::default(), done: AtomicU64::new(0) });
    n.fs.set_yields(true);
    n.fs.set_split(true);
    let mut joins = vec![];
    let hit = Arc::new(AtomicU64::new(0));
    for (i, s) in scripts.iter().enumerate() {
        let c = client(n.clone(), h.clone(), (i as i64 + 1) * 10, s.clone());
        let (at, others) = if i == 0 { (stall.unwrap_or(0), scripts.len() as u64 - 1) } else { (0, 0) };
        let c = Stall { inner: Box::pin(c), at, polls: 0, wait: None, exec: n.exec.clone(), h: h.clone(), others, hit: hit.clone() };
        joins.push(n.exec.spawn(AssumeSend(c)));
    }
    n.exec.run(ch, async move {
        for j in joins {
            let _ = j.join().await;
        }
    })?;
    n.fs.set_yields(false);
    n.fs.set_split(false);
    rec.steps(scripts.iter().map(|s| s.len() as u64).sum());
    ensure!(h.done.load(Ordering::SeqCst) == scripts.len() as u64, "a client task died");
    let errs = std::mem::take(&mut *h.errs.lock().unwrap());
    ensure!(errs.is_empty(), "operations failed without a fault: {errs:?}");
    let pts = std::mem::take(&mut *h.pts.lock().unwrap());
    let last: Img = n.scan()?.into_iter().collect();
    rec.eval();
    rec.state(&format!("{pts:?}{last:?}"));
    let st = St { cur: r.cur.clone(), dirty: BTreeMap::new() };
    ensure!(sequential(&pts, 0, &st, &last), "no sequential order explains {pts:?}, final contents {last:?}");
    drop(n);
    // everything was acknowledged: it survives a crash, and reaches files unchanged
    for o in [Op::Crash, Op::Seal, Op::Flush, Op::Crash] {
        r.step(o)?;
        rec.eval();
        let got: Img = r.node().scan()?.into_iter().collect();
        ensure!(got == last, "after the race and {o:?}: {got:?}, before {last:?}; history {pts:?}");
    }
    Ok(hit.load(Ordering::SeqCst) == 1)
}

pub fn run(ctx: &Ctx) {
    if !["C06", "C11", "C12"].contains(&ctx.prop.as_str()) {
        run_tasks(ctx);
    }
    run_stalled(ctx);
}
fn has(set: &[Vec<C>], of: &[C]) -> bool {
    set.iter().flatten().any(|c| of.contains(c))
}
fn run_tasks(ctx: &Ctx) {
    use C::*;
    let bound = ctx.by(1, 2);
    let sets: Vec<Vec<Vec<C>>> = vec![
        vec![vec![A], vec![Scan, Scan]],
        vec![vec![Ab], vec![Scan, Scan]],
        vec![vec![Ab], vec![Snap]],
        vec![vec![Db], vec![Snap]],
        vec![vec![A], vec![Rmw]],
        vec![vec![D], vec![Rmw]],
        vec![vec![Rmw], vec![Rmw]],
        vec![vec![Rmw2], vec![Rmw2]],
        vec![vec![A, A], vec![Flush, Flush]],
        vec![vec![Rmw], vec![Flush]],
        vec![vec![Scan, Scan], vec![Flush]],
        vec![vec![A, D], vec![A]],
        vec![vec![A], vec![A], vec![Flush]],
        vec![vec![Rmw], vec![A], vec![Flush]],
        vec![vec![A], vec![Flush], vec![Flush]],
        vec![vec![A, Scan], vec![Compact]],
        vec![vec![Snap], vec![Compact]],
        vec![vec![Flush], vec![Compact]],
        vec![vec![D], vec![Flush], vec![Compact]],
        vec![vec![Snap], vec![Seal, A], vec![Flush]],
        vec![vec![Ab], vec![A], vec![Scan]],
    ];
    let sets: Vec<Vec<Vec<C>>> = sets
        .into_iter()
        .filter(|x| match ctx.prop.as_str() {
            "C03" => has(x, &[Scan, Snap]),
            "C04" => has(x, &[Rmw, Rmw2]),
            _ => true,
        })
        .collect();
    let s = ctx.suite(
        "conc.tasks",
        format!("{} sets of two or three concurrent clients, every schedule at storage accesses with at most {bound} preemptions (quick: one more for two clients on buffered rows), rows starting in the buffer or in a file, log segments of 150, 900 or 100000 bytes, and with the database sealing and flushing by itself", sets.len()),
    );
    for set in &sets {
        for env in [Env { file: false, auto: false, seg: 900 }, Env { file: true, auto: false, seg: 100_000 }, Env { file: true, auto: false, seg: 150 }, Env { file: true, auto: true, seg: 900 }] {
            let id = format!("{}/{}{}", set.iter().map(|x| x.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(".")).collect::<Vec<_>>().join("|"), if env.auto { "auto" } else if env.file { "file" } else { "mem" }, env.seg);
            let bound = if !env.file && set.len() == 2 && !ctx.thorough() { bound + 1 } else { bound };
            explore(&s, &id, bound, 100_000, &|ch, rec| race(set, env, None, ch, rec).map(|_| ()));
        }
    }
}

fn run_stalled(ctx: &Ctx) {
    use C::*;
    // one client is not scheduled for a long time, at every point it can be
    let long = vec![Rotate, B, Flush, Rotate, B, Flush];
    let mut sets: Vec<Vec<Vec<C>>> = vec![];
    for x in [A, Ab, D, Db, Rmw, Rmw2, Snap, Scan, Flush, Compact] {
        for y in [long.clone(), vec![A, Flush, A, Flush, Compact], vec![D, Flush, Compact], vec![Rmw, Seal, A, Rmw], vec![Seal, B, Flush, Compact, Db]] {
            sets.push(vec![vec![x], y]);
        }
    }
    let sets: Vec<Vec<Vec<C>>> = sets
        .into_iter()
        .filter(|x| match ctx.prop.as_str() {
            "C03" => has(x, &[Scan, Snap]),
            "C04" => has(x, &[Rmw, Rmw2]),
            _ => true,
        })
        .collect();
    let s = ctx.suite(
        "conc.stalled",
        format!("{} pairs of an operation and a longer script: the operation is held back at each point where it waits (storage access, log, lock) until the script is finished or waits for it; then a crash, recovery, flush and crash", sets.len()),
    );
    let mut cases = vec![];
    for set in &sets {
        for env in [Env { file: false, auto: false, seg: 900 }, Env { file: true, auto: false, seg: 100_000 }, Env { file: true, auto: true, seg: 900 }] {
            cases.push((set.clone(), env));
        }
    }
    s.par_cases(
        &cases,
        |(set, env)| format!("{}/{}{}", set.iter().map(|x| x.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(".")).collect::<Vec<_>>().join("|"), if env.auto { "auto" } else if env.file { "file" } else { "mem" }, env.seg),
        |(set, env), rec| {
            for at in 1..200 {
                let mut ch = Chooser::new(vec![]);
                let more = race(set, *env, Some(at), &mut ch, rec).map_err(|e| match e {
                    Fail::Bad(m) => Fail::Bad(format!("held back at its poll {at}: {m}")),
                    e => e,
                })?;
                if !more {
                    return Ok(());
                }
            }
            Err(Fail::Bad("an operation of more than 200 polls".into()))
        },
    );
}
