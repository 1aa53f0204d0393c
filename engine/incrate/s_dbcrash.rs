//! Crashes of the whole database: after every storage event of the last operation of every
//! operation sequence (also with the last write torn), then reopen, write, reopen, and crash again
//! at every event of the recovery itself.
use super::{core::*, exec::VExec, s_db::*, tracefs::*};
use crate::ensure;

const OPS: [Op; 8] = [Op::PutA, Op::DelA, Op::Mix, Op::Tx, Op::Seal, Op::Flush, Op::Compact, Op::Reopen];

fn recover(img: Image, opts: &Opts) -> R<Node> {
    let exec = VExec::new();
    // the leases of the crashed process run out before the database is opened again
    exec.advance(std::time::Duration::from_secs(3600));
    open_with(&TraceFs::from_image(img), &exec, opts)
}

struct Hist {
    /// states before and after the last operation
    before: Img,
    after: Img,
    log: Vec<Ev>,
    /// first event of the last operation, and the event count at its return
    from: usize,
}

fn play(c: &[Op], opts: &Opts) -> R<Hist> {
    let mut r = Run::with(opts)?;
    let fs = r.node().fs.clone();
    let mut before = r.cur.clone();
    let mut from = 0;
    for (i, o) in c.iter().enumerate() {
        if i + 1 == c.len() {
            before = r.cur.clone();
            from = fs.log_len();
        }
        r.step(*o)?;
    }
    let log = fs.log();
    Ok(Hist { before, after: r.cur.clone(), log, from })
}

/// Contents after recovery; then the database must accept and keep a write.
fn examine(img: &Image, opts: &Opts, allowed: &[&Img], what: &str, rec: &mut Rec, deep: bool) -> R {
    let n = recover(img.clone(), opts).map_err(|e| prefix(e, what))?;
    rec.step();
    rec.eval();
    let got = n.scan()?;
    ensure!(allowed.iter().any(|a| img_rows(a) == got), "{what}: recovered {got:?}, expected {:?}", allowed.iter().map(|a| img_rows(a)).collect::<Vec<_>>());
    let recovery = n.fs.log();
    // overwrite and delete after recovery win over everything older
    estr(n.write(&[("a", Some(77)), ("c", Some(78))])?, "write after recovery").map_err(|e| prefix(e, what))?;
    estr(n.write(&[("b", None)])?, "delete after recovery").map_err(|e| prefix(e, what))?;
    let mut want: Img = got.iter().cloned().collect();
    want.insert("a".into(), Some(77));
    want.insert("c".into(), Some(78));
    want.remove("b");
    let now = n.scan()?;
    ensure!(now == img_rows(&want), "{what}: after writing to the recovered database: {now:?}, expected {:?}", img_rows(&want));
    let (fs, exec) = (n.fs.clone(), n.exec.clone());
    n.stop(deep)?;
    let n = open_with(&fs, &exec, opts).map_err(|e| prefix(e, &format!("{what}, second reopening")))?;
    let again = n.scan()?;
    ensure!(again == img_rows(&want), "{what}: after a second reopening: {again:?}, expected {:?}", img_rows(&want));
    rec.steps(3);
    if deep {
        // the rows now reach files; nothing changes, also after another reopening
        n.seal()?;
        estr(n.flush()?, "flush after recovery").map_err(|e| prefix(e, what))?;
        let x = n.scan()?;
        ensure!(x == img_rows(&want), "{what}: after flushing the recovered database: {x:?}, expected {:?}", img_rows(&want));
        let (fs, exec) = (n.fs.clone(), n.exec.clone());
        n.stop(false)?;
        let n = open_with(&fs, &exec, opts).map_err(|e| prefix(e, &format!("{what}, third reopening")))?;
        let x = n.scan()?;
        ensure!(x == img_rows(&want), "{what}: after flushing and a third reopening: {x:?}, expected {:?}", img_rows(&want));
        // crash at every event of the first recovery
        for cut in 0..recovery.len() {
            let img2 = replay_log(img, &recovery[..cut]);
            let n = recover(img2, opts).map_err(|e| prefix(e, &format!("{what}, crash during recovery at {cut}")))?;
            let g = n.scan()?;
            rec.eval();
            ensure!(g == got, "{what}: crash during recovery after event {cut}: recovered {g:?}, before it was {got:?}");
        }
    }
    Ok(())
}
fn prefix(f: Fail, what: &str) -> Fail {
    match f {
        Fail::Bad(m) => Fail::Bad(format!("{what}: {m}")),
        f => f,
    }
}

pub fn run(ctx: &Ctx) {
    let d = ctx.by(4, 5);
    let s = ctx.suite(
        "db.crash",
        format!("all useful sequences of 1..={d} operations over {OPS:?} x log segments of 900 or 8192 bytes x crash after every storage event of the last operation (and with that event's write torn in half); recover, write, reopen, flush, reopen, and crash at every event of the recovery"),
    );
    let mut cases: Vec<(Vec<Op>, usize)> = vec![];
    for l in 1..=d {
        for c in sequences(&OPS, l).into_iter().filter(|c| useful(c)) {
            if matches!(c.last(), Some(Op::Seal)) {
                continue;
            }
            for seg in [SEG_BYTES, 8192] {
                if seg == 8192 && l > 3 && !ctx.thorough() {
                    continue;
                }
                cases.push((c.clone(), seg));
            }
        }
    }
    s.par_cases(&cases, |(c, seg)| format!("{}/{seg}", seq_id(c)), |(c, seg), rec| {
        let opts = Opts { seg: Some(*seg), ..Default::default() };
        let h = play(c, &opts)?;
        for cut in h.from..=h.log.len() {
            let img = replay_log(&Image::new(), &h.log[..cut]);
            let done = cut == h.log.len();
            let allowed: Vec<&Img> = if done { vec![&h.after] } else { vec![&h.before, &h.after] };
            examine(&img, &opts, &allowed, &format!("{} crash after event {cut} of {}", seq_id(c), h.log.len()), rec, c.len() <= 3 || ctx.thorough())?;
            if let Some(Ev::Append(p, data)) = h.log.get(cut) {
                if data.len() > 1 {
                    let mut l = h.log[..cut].to_vec();
                    l.push(Ev::Append(p.clone(), data[..data.len() / 2].to_vec()));
                    let img = replay_log(&Image::new(), &l);
                    examine(&img, &opts, &[&h.before, &h.after], &format!("{} torn write at event {cut}", seq_id(c)), rec, false)?;
                }
            }
        }
        Ok(())
    });
}
