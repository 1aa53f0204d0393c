//! Write throttling of the whole database on virtual time: every small pair of level-0 limits, every
//! number of level-0 files around them, every way and moment of draining the level.
use std::time::Duration;

use fusio::executor::{Executor, JoinHandle, Timer};

use super::{core::*, exec::AssumeSend, s_db::*};
use crate::{
    compaction::planner::{CompactionStrategy, LeveledPlannerConfig},
    db::{CascadeConfig, CompactionOptions, L0BackpressureConfig},
    ensure,
    manifest::VersionEdit,
};

const SLOW: Duration = Duration::from_millis(30);
const STOP: Duration = Duration::from_millis(100);

fn planner(trigger: usize) -> CompactionStrategy {
    CompactionStrategy::Leveled(LeveledPlannerConfig {
        l0_trigger: trigger,
        l0_max_inputs: 64,
        l0_max_bytes: None,
        level_thresholds: vec![1000, 1000],
        level_max_bytes: vec![],
        max_inputs_per_task: 64,
        max_task_bytes: None,
    })
}
fn options(trigger: usize, bp: Option<L0BackpressureConfig>) -> Opts {
    let mut c = CompactionOptions::new().strategy(planner(trigger)).cascade(CascadeConfig::new(0, Duration::ZERO));
    c = match bp {
        Some(b) => c.l0_backpressure(b.slowdown_delay(SLOW).stop_delay(STOP)),
        None => c.disable_l0_backpressure(),
    };
    Opts { compaction: Some(c), ..Default::default() }
}
/// A database with `n` files in level 0 (none of them merged: the worker's trigger is far away).
fn with_files(o: &Opts, n: usize) -> R<Run> {
    // made without throttling, then opened with it
    let quiet = Opts { compaction: None, ..o.clone() };
    let mut r = Run::with(&quiet)?;
    for _ in 0..n {
        r.step(Op::PutB)?;
        r.step(Op::Seal)?;
        r.step(Op::Flush)?;
    }
    r.opts = o.clone();
    r.step(Op::Reopen)?;
    Ok(r)
}
fn l0(n: &Node) -> R<Vec<(crate::ondisk::sstable::SsTableId, usize)>> {
    let db = n.db.clone();
    estr(
        n.exec.block_on(async move {
            let d = db.verif_inner().compaction_driver();
            let s = d.manifest.snapshot_latest(d.table_id).await.map_err(|e| e.to_string())?;
            Ok::<_, String>(
                s.latest_version
                    .and_then(|v| v.ssts().first().map(|l| l.iter().map(|e| (e.sst_id().clone(), e.stats().map(|s| s.bytes).unwrap_or(0))).collect()))
                    .unwrap_or_default(),
            )
        })?,
        "files",
    )
}
async fn drain(n: &Node, ids: Vec<crate::ondisk::sstable::SsTableId>) -> Result<(), String> {
    let d = n.db.verif_inner().compaction_driver();
    d.manifest
        .apply_version_edits(d.table_id, &[VersionEdit::RemoveSsts { level: 0, sst_ids: ids }])
        .await
        .map(|_| ())
        .map_err(|e| e.to_string())
}
fn ms(d: Duration) -> u64 {
    d.as_micros() as u64
}
/// How long one write takes; `plan` removes files from level 0 that long after it began.
fn timed_write(n: &Node, plan: Option<(Duration, Vec<crate::ondisk::sstable::SsTableId>)>) -> R<Duration> {
    // statistics older than the re-check interval are not used
    n.exec.advance(STOP + Duration::from_millis(1));
    let n2 = n.clone();
    estr(
        n.exec.block_on(AssumeSend(async move {
            let t0 = n2.exec.now();
            let n3 = n2.clone();
            let j = plan.map(|(d, ids)| {
                n2.exec.spawn(AssumeSend(async move {
                    n3.exec.sleep(d).await;
                    drain(&n3, ids).await
                }))
            });
            n2.db.ingest(rows_batch(&[("a", Some(7))])).await.map_err(|e| e.to_string())?;
            let took = n2.exec.now() - t0;
            if let Some(j) = j {
                j.join().await.map_err(|_| "drain task died".to_string())??;
            }
            Ok::<_, String>(took)
        }))?,
        "write",
    )
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Band {
    Free,
    Slow,
    Stop,
}
/// What the documentation of the limits says.
fn band(files: usize, bytes: usize, slow: usize, stop: usize, sb: Option<usize>, tb: Option<usize>) -> Band {
    if files >= stop || tb.is_some_and(|l| bytes >= l) {
        Band::Stop
    } else if files >= slow || sb.is_some_and(|l| bytes >= l) {
        Band::Slow
    } else {
        Band::Free
    }
}
fn check(n: &Node, b: impl Fn(usize, usize) -> Band, at: Duration, keep: usize, rec: &mut Rec) -> R {
    let files = l0(n)?;
    let total = |f: &[(crate::ondisk::sstable::SsTableId, usize)]| f.iter().map(|x| x.1).sum::<usize>();
    let now = b(files.len(), total(&files));
    let plan = (now == Band::Stop).then(|| (at, files[keep..].iter().map(|x| x.0.clone()).collect::<Vec<_>>()));
    let after = b(keep, total(&files[..keep]));
    if now == Band::Stop && after == Band::Stop {
        return Ok(());
    }
    let took = timed_write(n, plan)?;
    rec.eval();
    rec.step();
    rec.state(&(files.len(), format!("{now:?}{after:?}"), ms(took)));
    let want = match now {
        Band::Free => Duration::ZERO,
        Band::Slow => SLOW,
        Band::Stop => {
            let rounds = at.as_micros().div_ceil(STOP.as_micros()) as u32;
            STOP * rounds + if after == Band::Slow { SLOW } else { Duration::ZERO }
        }
    };
    // work on the (virtual) disk costs no time, so the waiting time is exact
    ensure!(took == want, "{} files in level 0 ({now:?}), drained to {keep} ({after:?}) at {at:?}: the write took {took:?}, limits ask for {want:?}", files.len());
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let m = ctx.by(4usize, 6usize);
    let s = ctx.suite("throttle.files", format!("all slow-down limits 1..={m} x stop limits up to {m} (also below the slow-down limit) x 0..={} files x drain to every remainder x drained before the 1st, at the 2nd and before the 3rd re-check", m + 1));
    let mut cases = vec![];
    for slow in 0..=m {
        for stop in 0..=m {
            for n in 0..=m + 1 {
                // the constructor raises limits: slow-down at least 1, stop at least slow-down
                let (s1, s2) = (slow.max(1), stop.max(slow.max(1)));
                let keeps: Vec<usize> = if n >= s2 { (0..s2.min(n)).collect() } else { vec![0] };
                let ats: &[u64] = if n >= s2 { &[50, 150, 250] } else { &[50] };
                for k in keeps {
                    for at in ats {
                        cases.push((slow, stop, s1, s2, n, k, *at));
                    }
                }
            }
        }
    }
    s.par_cases(&cases, |c| format!("slow{}-stop{}-n{}-keep{}-at{}", c.0, c.1, c.4, c.5, c.6), |c, rec| {
        let o = options(1000, Some(L0BackpressureConfig::new(c.0, c.1)));
        let r = with_files(&o, c.4)?;
        check(r.node(), |f, b| band(f, b, c.2, c.3, None, None), Duration::from_millis(c.6), c.5, rec)
    });

    let s = ctx.suite("throttle.bytes", "limits on the size of level 0: for 1..=3 files, slow-down and stop limits one below, at and one above every prefix sum, set in both orders");
    let mut cases = vec![];
    for n in 1..=3usize {
        for sl in 0..=n {
            for st in sl..=n {
                for (dl, dt) in [(-1i64, -1i64), (-1, 0), (0, 0), (0, 1), (1, 1), (-1, 1)] {
                    for order in [false, true] {
                        cases.push((n, sl, st, dl, dt, order));
                    }
                }
            }
        }
    }
    s.par_cases(&cases, |c| format!("n{}-slow{}{:+}-stop{}{:+}-{}", c.0, c.1, c.3, c.2, c.4, c.5), |c, rec| {
        let probe = with_files(&options(1000, None), c.0)?;
        let sizes: Vec<usize> = l0(probe.node())?.into_iter().map(|x| x.1).collect();
        ensure!(sizes.iter().all(|b| *b > 0), "file sizes are recorded: {sizes:?}");
        let lim = |k: usize, d: i64| ((sizes[..k].iter().sum::<usize>() as i64 + d).max(1)) as usize;
        let (sb, tb) = (lim(c.1, c.3), lim(c.2, c.4));
        let tb = tb.max(sb);
        let base = L0BackpressureConfig::new(100, 200);
        let bp = if c.5 { base.slowdown_bytes(sb).stop_bytes(tb) } else { base.stop_bytes(tb).slowdown_bytes(sb) };
        let o = options(1000, Some(bp));
        let r = with_files(&o, c.0)?;
        check(r.node(), |f, b| band(f, b, 100, 200, Some(sb), Some(tb)), Duration::from_millis(150), 0, rec)
    });

    // without throttling or without a worker nothing is ever delayed
    let s = ctx.suite("throttle.off", "throttling disabled, or no background worker: 0..=4 files");
    let cases: Vec<(bool, usize)> = (0..=4).flat_map(|n| [(false, n), (true, n)]).collect();
    s.par_cases(&cases, |c| format!("worker{}-n{}", c.0, c.1), |c, rec| {
        let mut o = options(1000, None);
        if !c.0 {
            o.compaction = None;
        }
        let r = with_files(&o, c.1)?;
        let took = timed_write(r.node(), None)?;
        rec.eval();
        ensure!(took.is_zero(), "unthrottled write took {took:?}");
        Ok(())
    });

    // the stalled writer is released by the worker it wakes up, for every schedule
    let bound = ctx.by(1, 2);
    let s = ctx.suite("throttle.release", format!("1 and 2 writers stalled on a level the woken worker (no timer) must drain: stop limits 2..=3, all schedules with up to {bound} preemptions"));
    let cases: Vec<(usize, usize)> = [2usize, 3].iter().flat_map(|s| [1usize, 2].map(|w| (*s, w))).collect();
    s.par(cases.len(), |i, s| {
        let (stop, writers) = cases[i];
        explore(s, &format!("stop{stop}-w{writers}"), bound, 100_000, &|ch: &mut Chooser, rec: &mut Rec| {
            let o = options(stop, Some(L0BackpressureConfig::new(1, stop)));
            let r = with_files(&o, stop)?;
            let n = r.node().clone();
            n.exec.advance(STOP + Duration::from_millis(1));
            let t0 = n.exec.now();
            let mut joins = vec![];
            n.fs.set_yields(true);
            for w in 0..writers {
                let n2 = n.clone();
                joins.push(n.exec.spawn(AssumeSend(async move {
                    n2.db.ingest(rows_batch(&[(["a", "c"][w], Some(70 + w as i64))])).await.map_err(|e| e.to_string())
                })));
            }
            let rs = n.exec.run(ch, async move {
                let mut v = vec![];
                for j in joins {
                    v.push(j.join().await.map_err(|_| "writer died".to_string()).and_then(|x| x));
                }
                v
            })?;
            n.fs.set_yields(false);
            rec.eval();
            rec.steps(writers as u64);
            ensure!(rs.iter().all(|x| x.is_ok()), "stalled writes failed: {rs:?}");
            ensure!(n.exec.now() - t0 <= Duration::from_secs(5), "stalled writers came back only after {:?}", n.exec.now() - t0);
            let got = n.scan()?;
            let mut want = vec![("a".to_string(), Some(70))];
            want.push(("b".into(), r.cur["b"]));
            if writers == 2 {
                want.push(("c".into(), Some(71)));
            }
            ensure!(got == want, "contents after the stall: {got:?}, expected {want:?}");
            rec.state(&(stop, writers, ms(n.exec.now() - t0)));
            Ok(())
        });
    });
}
