//! Storage failures under the whole database: a failure at every storage access of the last
//! operation of every short operation sequence.
use std::time::Duration;

use super::{core::*, s_db::*, tracefs::*};
use crate::ensure;

const OPS: [Op; 8] = [Op::PutA, Op::DelA, Op::Mix, Op::Tx, Op::Seal, Op::Flush, Op::Compact, Op::Reopen];

fn prefix(f: Fail, what: &str) -> Fail {
    match f {
        Fail::Bad(m) => Fail::Bad(format!("{what}: {m}")),
        f => f,
    }
}

/// One injected failure. Returns whether it was reached.
fn one(c: &[Op], kind: Option<FaultKind>, n: u64, rec: &mut Rec) -> R<bool> {
    let mut r = Run::with(&Opts::default())?;
    estr(r.node().write(&[("z", Some(0)), ("b", Some(0))])?, "write")?;
    r.cur.insert("z".into(), Some(0));
    r.cur.insert("b".into(), Some(0));
    let (last, init) = c.split_last().unwrap();
    for o in init {
        r.step(*o)?;
    }
    let before = r.cur.clone();
    let fs = r.node().fs.clone();
    let exec = r.node().exec.clone();
    match kind {
        Some(k) => fs.set_fault(fs.op_count() + n, k),
        None => fs.set_read_fault(fs.read_count() + n),
    }
    let res = r.step(*last);
    let hit = fs.fault_hit();
    rec.step();
    let after = match last {
        Op::PutA | Op::DelA | Op::Mix | Op::Tx => expected(&before, *last, r.n),
        _ => before.clone(),
    };
    let ok = match &res {
        Ok(()) => true,
        Err(Fail::Bad(m)) if m.contains("livelock") || m.contains("deadlock") => return bad(format!("{m} after a failure of {hit:?}")),
        Err(Fail::Bad(_)) => false,
        Err(_) => return res.map(|_| true),
    };
    if hit.is_none() {
        fs.clear_fault();
        ensure!(ok, "{} failed without a fault: {:?}", seq_id(c), res.err().map(|e| format!("{e:?}")));
        return Ok(false);
    }
    let what = format!("{} with a failure of {hit:?} ({kind:?} {n}), which was {}", seq_id(c), if ok { "survived" } else { "reported" });
    let allowed: Vec<&Img> = if ok { vec![&after] } else { vec![&before, &after] };
    // the running process still serves what was acknowledged (a read registers a lease, so it may
    // fail while the store refuses everything)
    if matches!(kind, None | Some(FaultKind::Dead)) {
        fs.clear_fault();
    }
    let check = |got: &[Row], when: &str, rec: &mut Rec| -> R {
        rec.eval();
        ensure!(allowed.iter().any(|a| img_rows(a) == got), "{what}: {when}: {got:?}, expected {:?}", allowed.iter().map(|a| img_rows(a)).collect::<Vec<_>>());
        Ok(())
    };
    let mut maybe: Vec<Img> = vec![];
    if let Some(node) = &r.node {
        let got = node.scan().map_err(|e| prefix(e, &what))?;
        check(&got, "in the running process", rec)?;
        fs.clear_fault();
        exec.advance(Duration::from_secs(3600));
        let got = node.scan().map_err(|e| prefix(e, &what))?;
        check(&got, "in the running process after the fault was gone", rec)?;
        // a further write may be refused, but then it must not be half there
        if let Ok(()) = node.write(&[("c", Some(9)), ("d", Some(9))])? {
            for a in &allowed {
                let mut m = (*a).clone();
                m.insert("c".into(), Some(9));
                m.insert("d".into(), Some(9));
                maybe.push(m);
            }
            let got = node.scan().map_err(|e| prefix(e, &what))?;
            rec.eval();
            ensure!(maybe.iter().any(|a| img_rows(a) == got), "{what}: after another write: {got:?}, expected one of {:?}", maybe.iter().map(img_rows).collect::<Vec<_>>());
        } else {
            for a in &allowed {
                let mut m = (*a).clone();
                maybe.push(m.clone());
                m.insert("c".into(), Some(9));
                m.insert("d".into(), Some(9));
                maybe.push(m);
            }
        }
    } else {
        fs.clear_fault();
        maybe = allowed.iter().map(|a| (*a).clone()).collect();
    }
    // reopening
    if let Some(node) = r.node.take() {
        node.stop(false)?;
    } else {
        exec.kill_all();
        exec.advance(Duration::from_secs(3600));
    }
    let node = open_with(&fs, &exec, &r.opts).map_err(|e| prefix(e, &format!("{what}: reopening")))?;
    let got = node.scan().map_err(|e| prefix(e, &what))?;
    rec.eval();
    ensure!(maybe.iter().any(|a| img_rows(a) == got), "{what}: after reopening: {got:?}, expected one of {:?}", maybe.iter().map(img_rows).collect::<Vec<_>>());
    let mut want: Img = got.into_iter().collect();
    estr(node.write(&[("a", Some(77)), ("e", Some(1))])?, "write after reopening").map_err(|e| prefix(e, &what))?;
    want.insert("a".into(), Some(77));
    want.insert("e".into(), Some(1));
    node.seal()?;
    estr(node.flush()?, "flush after reopening").map_err(|e| prefix(e, &what))?;
    node.compact(None)?;
    node.stop(false)?;
    let node = open_with(&fs, &exec, &r.opts).map_err(|e| prefix(e, &format!("{what}: second reopening")))?;
    let got = node.scan().map_err(|e| prefix(e, &what))?;
    rec.eval();
    rec.steps(4);
    ensure!(got == img_rows(&want), "{what}: after writing, flushing, merging and reopening: {got:?}, expected {:?}", img_rows(&want));
    Ok(true)
}

fn expected(before: &Img, o: Op, n: i64) -> Img {
    let mut m = before.clone();
    match o {
        Op::PutA => {
            m.insert("a".into(), Some(n));
        }
        Op::DelA => {
            m.remove("a");
        }
        Op::Mix => {
            m.remove("a");
            m.insert("b".into(), Some(n));
        }
        Op::Tx => {
            m.insert("a".into(), Some(n));
            m.remove("b");
        }
        _ => {}
    }
    m
}

pub fn run(ctx: &Ctx) {
    let d = ctx.by(3, 4);
    let s = ctx.suite(
        "db.fault",
        format!("all useful sequences of 1..={d} operations over {OPS:?} x a failure of every storage access of the last operation (failing cleanly, half done, for good, or on reading); contents in the running process, after another write, after reopening, and after writing, flushing and merging again"),
    );
    let mut cases: Vec<(Vec<Op>, Option<FaultKind>)> = vec![];
    for l in 1..=d {
        for c in sequences(&OPS, l).into_iter().filter(|c| useful(c)) {
            if matches!(c.last(), Some(Op::Seal)) {
                continue;
            }
            for k in [Some(FaultKind::Err), Some(FaultKind::Partial), Some(FaultKind::Dead), None] {
                cases.push((c.clone(), k));
            }
        }
    }
    s.par(cases.len(), |i, s| {
        let (c, k) = &cases[i];
        for n in 0..300u64 {
            let mut hit = false;
            s.case(&format!("{}/{k:?}/{n}", seq_id(c)), |rec| {
                hit = true;
                hit = one(c, *k, n, rec)?;
                Ok(())
            });
            if !hit && s.ctx.filter.is_none() {
                break;
            }
        }
    });
}
