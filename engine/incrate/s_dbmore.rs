//! More of the whole database: order inside one batch, the buffer's capacity, maintenance started
//! by the database itself, and queries with filters, projections and limits.
use std::{sync::Arc, time::Duration};

use arrow_schema::{DataType, Field, Schema};
use fusio::executor::Timer;

use super::{core::*, exec::{AssumeSend, VExec}, s_db::*, tracefs::*};
use crate::{
    ensure,
    query::{Expr, ScalarValue},
};

// ---------------------------------------------------------------- one batch
const BATCH_ROWS: [(&str, bool); 4] = [("a", false), ("a", true), ("b", false), ("b", true)];

fn run_batches(ctx: &Ctx) {
    let m = ctx.by(3, 4);
    let s = ctx.suite(
        "db.batches",
        format!("every batch of 1..={m} rows that write or delete keys a and b in every order, on an empty database and over older rows (active, sealed or in a file), kept in one write buffer or with the deletes overflowing into the next one, then seal, flush, compact and reopen"),
    );
    let mut cases: Vec<(Vec<(&str, bool)>, u8, bool)> = vec![];
    for l in 1..=m {
        for b in sequences(&BATCH_ROWS, l) {
            for base in 0..4u8 {
                cases.push((b.clone(), base, false));
            }
            if b.iter().any(|x| x.1) && b.iter().any(|x| !x.1) {
                cases.push((b.clone(), 0, true));
                cases.push((b.clone(), 3, true));
            }
        }
    }
    s.par_cases(
        &cases,
        |(b, base, split)| format!("{base}{}:{}", if *split { "/" } else { "" }, b.iter().map(|(k, d)| format!("{}{k}", if *d { '-' } else { '+' })).collect::<String>()),
        |(b, base, split), rec| {
            let mut r = Run::with(&Opts { cap: if *split { Some(1) } else { None }, ..Default::default() })?;
            estr(r.node().write(&[("z", Some(0))])?, "write")?;
            r.cur.insert("z".into(), Some(0));
            if *base > 0 {
                estr(r.node().write(&[("a", Some(100)), ("b", Some(101))])?, "write")?;
                r.cur.insert("a".into(), Some(100));
                r.cur.insert("b".into(), Some(101));
            }
            if *base > 1 {
                r.step(Op::Seal)?;
            }
            if *base > 2 {
                r.step(Op::Flush)?;
            }
            if *split {
                // fills the buffer's only slot for deletes
                if *base == 0 {
                    r.step(Op::Seal)?;
                }
                estr(r.node().write(&[("z", None)])?, "write")?;
                r.cur.remove("z");
            }
            let rows: Vec<(&str, Option<i64>)> = b.iter().enumerate().map(|(i, (k, d))| (*k, if *d { None } else { Some(i as i64) })).collect();
            estr(r.node().write(&rows)?, "write")?;
            for (k, v) in &rows {
                match v {
                    Some(v) => {
                        r.cur.insert(k.to_string(), Some(*v));
                    }
                    None => {
                        r.cur.remove(*k);
                    }
                }
            }
            // Which of a delete and a later write of the same key in one batch counts is not promised
            // anywhere (the tree lets the delete win); but the choice must not change later.
            let now = r.node().scan()?;
            for k in ["a", "b"] {
                let del = rows.iter().position(|(x, v)| *x == k && v.is_none());
                if let Some(d) = del {
                    if rows[d..].iter().any(|(x, v)| *x == k && v.is_some()) && !now.iter().any(|(x, _)| x == k) {
                        r.cur.remove(k);
                    }
                }
            }
            for (i, o) in [None, Some(Op::Reopen), Some(Op::Seal), Some(Op::Flush), Some(Op::Compact), Some(Op::Reopen)].into_iter().enumerate() {
                if *split && i == 1 {
                    // recovery would put the batch into one buffer
                    continue;
                }
                if let Some(o) = o {
                    r.step(o)?;
                }
                rec.step();
                let got = r.node().scan()?;
                rec.eval();
                ensure!(got == img_rows(&r.cur), "after the batch and step {i} ({o:?}): {got:?}, expected {:?}", img_rows(&r.cur));
                let got = super::s_txn::gets(r.node(), &["a", "b", "z"])?;
                ensure!(got == img_rows(&r.cur), "after the batch and step {i} ({o:?}) point reads return {got:?}, expected {:?}", img_rows(&r.cur));
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- capacity of the buffer
#[derive(Clone, Copy, Debug)]
enum Last {
    Put,
    Del,
    Mix,
    Tx,
}
fn run_capacity(ctx: &Ctx) {
    let s = ctx.suite(
        "db.capacity",
        "the number of batches around the write buffer's capacity (1022..=1026, and twice that) x kind of the batches crossing it x flush or not, then a crash and recovery",
    );
    let mut cases = vec![];
    for n in [1022usize, 1023, 1024, 1025, 1026, 2048, 2049] {
        if n > 2000 && !ctx.thorough() {
            continue;
        }
        for k in [Last::Put, Last::Del, Last::Mix, Last::Tx] {
            for flush in [false, true] {
                cases.push((n, k, flush));
            }
        }
    }
    s.par_cases(&cases, |(n, k, f)| format!("{n}/{k:?}/{f}"), |(n, k, flush), rec| {
        let mut r = Run::with(&Opts { seg: Some(2000), ..Default::default() })?;
        let keys = ["a", "b", "c", "d", "e"];
        for i in 0..*n {
            let key = keys[i % 5];
            if i + 4 < *n {
                estr(r.node().write(&[(key, Some(i as i64))])?, "write")?;
                r.cur.insert(key.into(), Some(i as i64));
            } else {
                match k {
                    Last::Put => {
                        estr(r.node().write(&[(key, Some(i as i64))])?, "write")?;
                        r.cur.insert(key.into(), Some(i as i64));
                    }
                    Last::Del => {
                        estr(r.node().write(&[(key, None)])?, "write")?;
                        r.cur.remove(key);
                    }
                    Last::Mix => {
                        r.n = i as i64;
                        r.step(Op::Mix)?;
                    }
                    Last::Tx => {
                        r.n = i as i64;
                        r.step(Op::Tx)?;
                    }
                }
                rec.step();
            }
        }
        rec.eval();
        let got = r.node().scan()?;
        ensure!(got == img_rows(&r.cur), "before the crash: {got:?}, expected {:?}", img_rows(&r.cur));
        if *flush {
            estr(r.node().flush()?, "flush")?;
            let got = r.node().scan()?;
            ensure!(got == img_rows(&r.cur), "after the flush: {got:?}, expected {:?}", img_rows(&r.cur));
        }
        let n = r.node.take().unwrap();
        let (fs, exec) = (n.fs.clone(), n.exec.clone());
        n.stop(false)?;
        let n = open_with(&fs, &exec, &r.opts)?;
        let got = n.scan()?;
        rec.eval();
        ensure!(got == img_rows(&r.cur), "after the crash: {got:?}, expected {:?}", img_rows(&r.cur));
        Ok(())
    });
}

// ---------------------------------------------------------------- a small buffer
fn run_small(ctx: &Ctx) {
    const OPS: [Op; 8] = [Op::PutA, Op::DelA, Op::Mix, Op::Tx, Op::Seal, Op::Flush, Op::Rotate, Op::Crash];
    let d = ctx.by(6, 7);
    let s = ctx.suite(
        "db.small-buffer",
        format!("all sequences of {d} operations over {OPS:?} with a write buffer of 1 or 2 batches that seals by itself when a batch does not fit, log segments changed by the harness; then a crash, recovery, one more flush and another crash"),
    );
    let mut cases: Vec<(Vec<Op>, usize)> = vec![];
    let idle = |o: &Op| matches!(o, Op::Seal | Op::Flush | Op::Rotate | Op::Crash);
    for c in sequences(&OPS, d) {
        if idle(&c[0]) || c.windows(2).any(|w| w[0] == w[1] && idle(&w[0])) || c.windows(2).any(|w| w[0] == Op::Crash && w[1] == Op::Rotate) {
            continue;
        }
        // one of the two orders of steps that do not touch the same thing
        if c.windows(2).any(|w| w[0] == Op::Rotate && w[1] == Op::Seal) {
            continue;
        }
        if !ctx.thorough() && (c.iter().filter(|o| matches!(o, Op::Tx | Op::Mix | Op::DelA)).count() > 2 || c.last() == Some(&Op::Crash)) {
            continue;
        }
        if c.iter().filter(|o| **o == Op::Flush).count() == 0 {
            continue;
        }
        for cap in [1, 2] {
            cases.push((c.clone(), cap));
        }
    }
    s.par_cases(&cases, |(c, cap)| format!("{}/{cap}", seq_id(c)), |(c, cap), rec| {
        let mut r = Run::with(&Opts { seg: Some(1 << 20), cap: Some(*cap), ..Default::default() })?;
        for o in c {
            r.step(*o)?;
            rec.step();
        }
        for (i, o) in [Op::Crash, Op::Flush, Op::Crash].into_iter().enumerate() {
            r.step(o)?;
            rec.step();
            rec.eval();
            let got = r.node().scan()?;
            ensure!(got == img_rows(&r.cur), "{} with a buffer of {cap}, then step {i} ({o:?}): {got:?}, expected {:?}", seq_id(c), img_rows(&r.cur));
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- the log does not grow for ever
fn run_bound(ctx: &Ctx) {
    const OPS: [Op; 7] = [Op::PutA, Op::DelA, Op::Tx, Op::Seal, Op::Rotate, Op::Compact, Op::Reopen];
    let d = ctx.by(3, 4);
    let s = ctx.suite(
        "db.log-bound",
        format!("every round of 2..={d} operations over {OPS:?} with a write and a new log file in it, closed by a flush, repeated 9 times: the number of log files after the rounds stops growing"),
    );
    let mut cases: Vec<Vec<Op>> = vec![];
    for l in 2..=d {
        for c in sequences(&OPS, l) {
            let idle = |o: &Op| matches!(o, Op::Seal | Op::Compact | Op::Rotate | Op::Reopen);
            if c.windows(2).any(|w| w[0] == w[1] && idle(&w[0])) || !c.contains(&Op::Rotate) || c.iter().all(idle) {
                continue;
            }
            cases.push(c);
        }
    }
    s.par_cases(&cases, |c| seq_id(c), |c, rec| {
        let mut r = Run::with(&Opts { seg: Some(1 << 20), ..Default::default() })?;
        let mut n = vec![];
        for _ in 0..9 {
            for o in c {
                r.step(*o)?;
                rec.step();
            }
            r.step(Op::Seal)?;
            r.step(Op::Flush)?;
            n.push(r.node().fs.paths().iter().filter(|p| p.contains("/wal-") && p.ends_with(".tonwal")).count());
            rec.eval();
        }
        rec.state(&n);
        let got = r.node().scan()?;
        ensure!(got == img_rows(&r.cur), "scan {got:?}, expected {:?}", img_rows(&r.cur));
        ensure!(n[8] <= n[4] && n[7] <= n[4].max(n[5]), "log files after each round: {n:?}");
        Ok(())
    });
}

// ---------------------------------------------------------------- commit time without the log
fn run_clock(ctx: &Ctx) {
    const OPS: [Op; 8] = [Op::PutA, Op::PutB, Op::DelA, Op::Tx, Op::Seal, Op::Flush, Op::Compact, Op::Rotate];
    let d = ctx.by(3, 4);
    let s = ctx.suite(
        "db.clock",
        format!("all useful sequences of 1..={d} operations over {OPS:?}, flushed to files, then the state file or the whole log directory is lost while the database is closed: the same contents after opening, and later writes, deletes and transactions win, also after more flushes and crashes"),
    );
    let mut cases: Vec<(Vec<Op>, u8)> = vec![];
    for l in 1..=d {
        for c in sequences(&OPS, l) {
            if useful(&c) && !c.windows(2).any(|w| w[0] == Op::Rotate && w[1] == Op::Rotate) {
                for k in 0..3u8 {
                    cases.push((c.clone(), k));
                }
            }
        }
    }
    s.par_cases(&cases, |(c, k)| format!("{}-{k}", seq_id(c)), |(c, k), rec| {
        let mut r = Run::started()?;
        for o in c {
            r.step(*o)?;
            rec.step();
        }
        r.step(Op::Seal)?;
        r.step(Op::Flush)?;
        let node = r.node.take().unwrap();
        let (fs, exec) = (node.fs.clone(), node.exec.clone());
        node.stop(true)?;
        for p in fs.paths() {
            if (*k == 1 && p.ends_with("state.json")) || (*k == 2 && p.contains("/wal/")) {
                fs.remove_file(&p);
            }
        }
        r.node = Some(open_with(&fs, &exec, &r.opts)?);
        let what = ["nothing", "the state file", "the log directory"][*k as usize];
        let mut check = |r: &Run, when: &str| -> R {
            rec.eval();
            let got = r.node().scan()?;
            rec.state(&(when, &got));
            ensure!(got == img_rows(&r.cur), "{} lost, {when}: {got:?}, expected {:?}", what, img_rows(&r.cur));
            Ok(())
        };
        check(&r, "after opening")?;
        for o in [Op::PutA, Op::Tx, Op::DelA, Op::Seal, Op::Flush, Op::PutB, Op::Crash, Op::PutA, Op::Compact, Op::Crash] {
            r.step(o)?;
            check(&r, &format!("after {o:?}"))?;
        }
        Ok(())
    });
}
// ---------------------------------------------------------------- self-driven maintenance
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Auto {
    Put(&'static str),
    Del(&'static str),
    Tx,
    Sleep,
    Stop,
    Crash,
}
fn run_auto(ctx: &Ctx) {
    let d = ctx.by(5, 6);
    let ops = [Auto::Put("a"), Auto::Put("b"), Auto::Del("a"), Auto::Tx, Auto::Sleep, Auto::Stop, Auto::Crash];
    let s = ctx.suite(
        "db.auto",
        format!("all sequences of {d} operations over {ops:?} with the database sealing after every batch and flushing (threshold 1, 2) by itself, with and without the background compaction worker; scan after every step"),
    );
    let mut cases = vec![];
    for c in sequences(&ops, d) {
        // something to look at, and no two idle steps in a row
        let idle = |o: &Auto| matches!(o, Auto::Sleep | Auto::Stop | Auto::Crash);
        if idle(&c[0]) || c.windows(2).any(|w| idle(&w[0]) && idle(&w[1])) {
            continue;
        }
        if !ctx.thorough() && c.iter().filter(|o| idle(o)).count() > 2 {
            continue;
        }
        for (minor, comp) in [((1, 0), false), ((1, 0), true), ((2, 0), true)] {
            if minor.0 == 2 && !ctx.thorough() && c.contains(&Auto::Tx) {
                continue;
            }
            cases.push((c.clone(), minor, comp));
        }
    }
    s.par_cases(
        &cases,
        |(c, m, w)| format!("{}{}{}", c.iter().map(|o| match o { Auto::Put(k) => format!("+{k}"), Auto::Del(k) => format!("-{k}"), o => format!("{o:?}.") }).collect::<String>(), m.0, if *w { "w" } else { "" }),
        |(c, minor, comp), rec| {
            let opts = Opts {
                minor: Some(*minor),
                compaction: comp.then(|| {
                    crate::db::CompactionOptions::new()
                        .strategy(crate::db::CompactionStrategy::Leveled(crate::db::LeveledPlannerConfig {
                            l0_trigger: 2,
                            l0_max_inputs: 8,
                            l0_max_bytes: None,
                            level_thresholds: vec![2, 2],
                            level_max_bytes: vec![],
                            max_inputs_per_task: 8,
                            max_task_bytes: None,
                        }))
                        .periodic_tick(Duration::from_millis(50))
                }),
                seal_always: true,
                ..Default::default()
            };
            let mut r = Run::with(&opts)?;
            for (i, o) in c.iter().enumerate() {
                r.n += 1;
                let n = r.n;
                match o {
                    Auto::Put(k) => {
                        estr(r.node().write(&[(k, Some(n))])?, "write")?;
                        r.cur.insert(k.to_string(), Some(n));
                    }
                    Auto::Del(k) => {
                        estr(r.node().write(&[(k, None)])?, "write")?;
                        r.cur.remove(*k);
                    }
                    Auto::Tx => r.step(Op::Tx)?,
                    Auto::Sleep => {
                        let e = r.node().exec.clone();
                        r.node().exec.block_on(async move { e.sleep(Duration::from_secs(5)).await })?;
                    }
                    Auto::Stop | Auto::Crash => {
                        let node = r.node.take().unwrap();
                        let (fs, exec) = (node.fs.clone(), node.exec.clone());
                        node.stop(*o == Auto::Stop)?;
                        r.node = Some(open_with(&fs, &exec, &opts)?);
                    }
                }
                rec.step();
                let got = r.node().scan()?;
                rec.eval();
                rec.state(&(i, &got));
                ensure!(got == img_rows(&r.cur), "after step {i} ({o:?}): {got:?}, expected {:?}", img_rows(&r.cur));
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- queries
fn filters() -> Vec<(&'static str, Expr, fn(&Row) -> bool)> {
    let i = |n: i64| ScalarValue::Int64(Some(n));
    let u = |s: &str| ScalarValue::Utf8(Some(s.into()));
    vec![
        ("true", Expr::True, |_| true),
        ("id=a", Expr::eq("id", u("a")), |r| r.0 == "a"),
        ("id>a", Expr::gt("id", u("a")), |r| r.0.as_str() > "a"),
        ("id<b", Expr::lt("id", u("b")), |r| r.0.as_str() < "b"),
        ("v=1", Expr::eq("v", i(1)), |r| r.1 == Some(1)),
        ("v<2", Expr::lt("v", i(2)), |r| r.1.is_some_and(|v| v < 2)),
        ("v>=2", Expr::gt_eq("v", i(2)), |r| r.1.is_some_and(|v| v >= 2)),
        ("not v=1", Expr::not(Expr::eq("v", i(1))), |r| r.1.is_some_and(|v| v != 1)),
        ("id=a and v<2", Expr::and(vec![Expr::eq("id", u("a")), Expr::lt("v", i(2))]), |r| r.0 == "a" && r.1.is_some_and(|v| v < 2)),
        ("id=b or v=1", Expr::or(vec![Expr::eq("id", u("b")), Expr::eq("v", i(1))]), |r| r.0 == "b" || r.1 == Some(1)),
    ]
}

fn run_filters(ctx: &Ctx) {
    let d = ctx.by(5, 6);
    let ops: Vec<Op> = vec![Op::PutA, Op::PutB, Op::DelA, Op::Seal, Op::Flush, Op::Compact];
    let s = ctx.suite(
        "db.filters",
        format!("all useful sequences of {d} operations over {ops:?}; after the last one every filter of {:?} x limit none, 0, 1, 2 x projection of all columns, the key, the value", filters().iter().map(|f| f.0).collect::<Vec<_>>()),
    );
    let cases: Vec<Vec<Op>> = (1..=d).flat_map(|l| sequences(&ops, l)).filter(|c| useful(c)).collect();
    let proj = [None, Some(vec!["id"]), Some(vec!["v"])];
    s.par_cases(&cases, |c| seq_id(c), |c, rec| {
        let mut r = Run::new(Node::fresh()?);
        for o in c.iter() {
            r.step(*o)?;
        }
        let all = img_rows(&r.cur);
        for (name, e, f) in filters() {
            for limit in [None, Some(0), Some(1), Some(2)] {
                for p in &proj {
                    let mut want: Vec<Row> = all.iter().filter(|r| f(r)).cloned().collect();
                    if let Some(l) = limit {
                        want.truncate(l);
                    }
                    let (db, e2, p2) = (r.node().db.clone(), e.clone(), p.clone());
                    let got = r.node().exec.block_on(AssumeSend(async move {
                        let mut b = db.scan().filter(e2);
                        if let Some(l) = limit {
                            b = b.limit(l);
                        }
                        if let Some(p) = p2 {
                            b = b.projection(schema_of(&p));
                        }
                        b.collect().await.map_err(|e| e.to_string())
                    }))?;
                    rec.eval();
                    let got = estr(got, &format!("{name} limit {limit:?} {p:?}"))?;
                    let got: Vec<String> = got.iter().flat_map(|b| show(b, p.as_deref())).collect();
                    let want: Vec<String> = want.iter().map(|r| match p.as_deref() {
                        None => format!("{r:?}"),
                        Some(["id"]) => format!("{:?}", r.0),
                        _ => format!("{:?}", r.1),
                    }).collect();
                    ensure!(got == want, "{} filter {name} limit {limit:?} columns {p:?}: {got:?}, expected {want:?}", seq_id(c));
                }
            }
        }
        rec.steps(c.len() as u64);
        rec.state(&all);
        Ok(())
    });
}
fn schema_of(p: &[&str]) -> arrow_schema::SchemaRef {
    Arc::new(Schema::new(p.iter().map(|n| match *n {
        "id" => Field::new("id", DataType::Utf8, false),
        _ => Field::new("v", DataType::Int64, true),
    }).collect::<Vec<_>>()))
}
fn show(b: &arrow_array::RecordBatch, p: Option<&[&str]>) -> Vec<String> {
    use arrow_array::{Array, cast::AsArray, types::Int64Type};
    let col = |i: usize, r: usize| -> String {
        let a = b.column(i);
        match a.data_type() {
            DataType::Utf8 => format!("{:?}", a.as_string::<i32>().value(r)),
            _ => {
                let a = a.as_primitive::<Int64Type>();
                format!("{:?}", if a.is_null(r) { None } else { Some(a.value(r)) })
            }
        }
    };
    (0..b.num_rows()).map(|r| match p {
        None => format!("({}, {})", col(0, r), col(1, r)),
        Some(_) => col(0, r),
    }).collect()
}

pub fn run(ctx: &Ctx) {
    let p = ctx.prop.as_str();
    if ["C01", "C23"].contains(&p) {
        run_batches(ctx);
    }
    if p == "C11" {
        run_bound(ctx);
    }
    if ["C12", "C02", "C27"].contains(&p) {
        run_clock(ctx);
    }
    if ["C06", "C11", "C24"].contains(&p) {
        run_capacity(ctx);
        run_small(ctx);
    }
    if ["C02", "C06", "C12", "C23"].contains(&p) {
        run_auto(ctx);
    }
    if ["C20", "C01", "C02"].contains(&p) {
        run_filters(ctx);
    }
}
