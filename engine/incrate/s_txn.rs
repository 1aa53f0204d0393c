//! Transactions on the whole database: every valid interleaving of two transactions, autocommit
//! writes and maintenance up to a depth, against a reference with snapshots and first-committer-wins.
use std::collections::{BTreeMap, BTreeSet};

use typed_arrow_dyn::{DynCell, DynRow};

use super::{core::*, exec::{AssumeSend, VExec}, s_db::*, tracefs::*};
use crate::{
    ensure,
    key::KeyOwned,
    transaction::{Transaction, TransactionCommitError},
};

type Tx = Transaction<TraceFs, VExec>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Begin(usize),
    Put(usize, &'static str),
    Del(usize, &'static str),
    Commit(usize),
    Abort(usize),
    W(&'static str),
    D(&'static str),
    Seal,
    Flush,
    Compact,
    Reopen,
}
pub fn tid(s: &[T]) -> String {
    s.iter()
        .map(|t| match t {
            T::Begin(i) => format!("B{i}"),
            T::Put(i, k) => format!("p{i}{k}"),
            T::Del(i, k) => format!("d{i}{k}"),
            T::Commit(i) => format!("C{i}"),
            T::Abort(i) => format!("A{i}"),
            T::W(k) => format!("w{k}"),
            T::D(k) => format!("x{k}"),
            T::Seal => "S".into(),
            T::Flush => "F".into(),
            T::Compact => "M".into(),
            T::Reopen => "R".into(),
        })
        .collect::<Vec<_>>()
        .join(".")
}

/// Depth-first generation of the valid sequences; symmetric transaction names are used in order.
fn gen_seqs(alpha: &[T], depth: usize, out: &mut Vec<Vec<T>>, cur: &mut Vec<T>) {
    if cur.len() == depth {
        // the last step must be able to show something
        out.push(cur.clone());
        return;
    }
    for t in alpha {
        if valid(cur, *t) {
            cur.push(*t);
            gen_seqs(alpha, depth, out, cur);
            cur.pop();
        }
    }
}
fn open_tx(cur: &[T], i: usize) -> Option<usize> {
    // number of staged operations of an open transaction
    let mut st = None;
    for t in cur {
        match t {
            T::Begin(j) if *j == i => st = Some(0),
            T::Put(j, _) | T::Del(j, _) if *j == i => st = st.map(|n| n + 1),
            T::Commit(j) | T::Abort(j) if *j == i => st = None,
            T::Reopen => st = None,
            _ => {}
        }
    }
    st
}
fn valid(cur: &[T], t: T) -> bool {
    let begun = |i: usize| cur.iter().any(|x| *x == T::Begin(i));
    match t {
        T::Begin(i) => !begun(i) && (i == 0 || begun(i - 1)),
        T::Put(i, _) | T::Del(i, _) => open_tx(cur, i).is_some_and(|n| n < 2),
        T::Commit(i) | T::Abort(i) => open_tx(cur, i).is_some_and(|n| n > 0),
        T::W(_) | T::D(_) => true,
        T::Seal => {
            // something unsealed: any write or commit since the last seal
            let last = cur.iter().rposition(|x| *x == T::Seal).map(|p| p + 1).unwrap_or(0);
            last == 0 || cur[last..].iter().any(|x| matches!(x, T::W(_) | T::D(_) | T::Commit(_) | T::Reopen))
        }
        T::Flush => {
            let last = cur.iter().rposition(|x| matches!(x, T::Flush | T::Reopen)).map(|p| p + 1).unwrap_or(0);
            cur[last..].contains(&T::Seal)
        }
        T::Compact => {
            let last = cur.iter().rposition(|x| *x == T::Compact).map(|p| p + 1).unwrap_or(0);
            cur[last..].contains(&T::Flush)
        }
        T::Reopen => cur.last().is_some_and(|l| *l != T::Reopen),
    }
}

struct MTx {
    snap: Img,
    begin: usize,
    staged: BTreeMap<String, Option<i64>>,
}
impl MTx {
    fn view(&self) -> Img {
        let mut v = self.snap.clone();
        for (k, x) in &self.staged {
            match x {
                Some(n) => {
                    v.insert(k.clone(), Some(*n));
                }
                None => {
                    v.remove(k);
                }
            }
        }
        v
    }
}

pub fn row(k: &str, v: i64) -> DynRow {
    DynRow(vec![Some(DynCell::Str(k.into())), Some(DynCell::I64(v))])
}
fn row_val(r: &DynRow) -> Row {
    let k = match &r.0[0] {
        Some(DynCell::Str(s)) => s.to_string(),
        x => format!("{x:?}"),
    };
    let v = match &r.0[1] {
        Some(DynCell::I64(v)) => Some(*v),
        _ => None,
    };
    (k, v)
}

pub fn begin(n: &Node) -> R<Tx> {
    let db = n.db.clone();
    let r = n.exec.block_on(AssumeSend(async move { AssumeSend(db.begin_transaction().await.map_err(|e| e.to_string())) }))?;
    estr(r.0, "begin")
}
pub enum Outcome {
    Done,
    Conflict,
    Error(String),
}
pub fn commit(n: &Node, tx: Tx) -> R<Outcome> {
    n.exec.block_on(AssumeSend(async move {
        match tx.commit().await {
            Ok(()) => Outcome::Done,
            Err(TransactionCommitError::WriteConflict(_)) => Outcome::Conflict,
            Err(e) => Outcome::Error(e.to_string()),
        }
    }))
}

/// What a fresh transaction's point reads return.
pub fn gets(n: &Node, keys: &[&str]) -> R<Vec<(String, Option<i64>)>> {
    let tx = begin(n)?;
    let cell = std::cell::RefCell::new(vec![]);
    n.exec.block_on(AssumeSend(async {
        for k in keys {
            let g = tx.get(&KeyOwned::from(*k)).await.map_err(|e| e.to_string()).map(|r| r.map(|r| row_val(&r)));
            cell.borrow_mut().push(g);
        }
    }))?;
    let mut out = vec![];
    for g in cell.into_inner() {
        out.extend(estr(g, "transaction get")?);
    }
    Ok(out)
}

fn check_tx(n: &Node, tx: &Tx, m: &MTx, what: &str) -> R {
    let want = m.view();
    let cell = std::cell::RefCell::new((None, vec![]));
    n.exec.block_on(AssumeSend(async {
        let s = tx.scan().collect().await.map_err(|e| e.to_string()).map(|b| rows_of(&b));
        let mut gets = vec![];
        for k in ["a", "b", "z"] {
            gets.push((k, tx.get(&KeyOwned::from(k)).await.map_err(|e| e.to_string()).map(|r| r.map(|r| row_val(&r)))));
        }
        *cell.borrow_mut() = (Some(s), gets);
    }))?;
    let (scan, gets) = cell.into_inner();
    let got = estr(scan.unwrap(), "transaction scan")?;
    ensure!(got == img_rows(&want), "{what}: transaction scan returned {got:?}, expected {:?}", img_rows(&want));
    for (k, g) in gets {
        let g = estr(g, "transaction get")?;
        let w = want.get(k).map(|v| (k.to_string(), *v));
        ensure!(g == w, "{what}: transaction get({k}) returned {g:?}, expected {w:?}");
    }
    Ok(())
}

fn run_case(c: &[T], rec: &mut Rec, opts: &Opts) -> R {
    let mut r = Run::new(open_with(&TraceFs::new(), &VExec::new(), opts)?);
    estr(r.node().write(&[("z", Some(0))])?, "write")?;
    r.cur.insert("z".into(), Some(0));
    let mut txs: BTreeMap<usize, (Tx, MTx)> = BTreeMap::new();
    // keys of every commit so far
    let mut commits: Vec<BTreeSet<String>> = vec![];
    for (i, t) in c.iter().enumerate() {
        let what = format!("{} step {i}", tid(&c[..=i]));
        let n = 10 + i as i64;
        match *t {
            T::Begin(j) => {
                let tx = begin(r.node())?;
                txs.insert(j, (tx, MTx { snap: r.cur.clone(), begin: commits.len(), staged: BTreeMap::new() }));
            }
            T::Put(j, k) => {
                let (tx, m) = txs.get_mut(&j).unwrap();
                estr(tx.upsert(row(k, n)), "upsert")?;
                m.staged.insert(k.into(), Some(n));
            }
            T::Del(j, k) => {
                let (tx, m) = txs.get_mut(&j).unwrap();
                estr(tx.delete(KeyOwned::from(k)), "delete")?;
                m.staged.insert(k.into(), None);
            }
            T::Commit(j) => {
                let (tx, m) = txs.remove(&j).unwrap();
                let conflict = commits[m.begin..].iter().any(|ks| m.staged.keys().any(|k| ks.contains(k)));
                match commit(r.node(), tx)? {
                    Outcome::Done if conflict => return bad(format!("{what}: a conflicting commit succeeded")),
                    Outcome::Conflict if !conflict => return bad(format!("{what}: commit refused without a conflict")),
                    Outcome::Error(e) => return bad(format!("{what}: commit failed: {e}")),
                    Outcome::Conflict => {}
                    Outcome::Done => {
                        for (k, v) in &m.staged {
                            match v {
                                Some(v) => {
                                    r.cur.insert(k.clone(), Some(*v));
                                }
                                None => {
                                    r.cur.remove(k);
                                }
                            }
                        }
                        commits.push(m.staged.keys().cloned().collect());
                    }
                }
            }
            T::Abort(j) => {
                let (tx, _) = txs.remove(&j).unwrap();
                if i % 2 == 0 {
                    tx.abort();
                } else {
                    drop(tx);
                }
            }
            T::W(k) => {
                estr(r.node().write(&[(k, Some(n))])?, "write")?;
                r.cur.insert(k.into(), Some(n));
                commits.push([k.to_string()].into());
            }
            T::D(k) => {
                estr(r.node().write(&[(k, None)])?, "write")?;
                r.cur.remove(k);
                commits.push([k.to_string()].into());
            }
            T::Seal => r.node().seal()?,
            T::Flush => {
                estr(r.node().flush()?, "flush")?;
            }
            T::Compact => r.node().compact(None)?,
            T::Reopen => {
                txs.clear();
                let node = r.node.take().unwrap();
                let (fs, exec) = (node.fs.clone(), node.exec.clone());
                node.stop(true)?;
                r.node = Some(open_with(&fs, &exec, opts)?);
            }
        }
        rec.step();
        rec.eval();
        let got = r.node().scan()?;
        rec.state(&(tid(&c[..=i]), &got));
        ensure!(got == img_rows(&r.cur), "{what}: scan returned {got:?}, expected {:?}", img_rows(&r.cur));
        for (j, (tx, m)) in &txs {
            check_tx(r.node(), tx, m, &format!("{what}, transaction {j}"))?;
        }
    }
    // what was committed, and nothing else, is there after a restart
    if !matches!(c.last(), Some(T::Reopen)) {
        txs.clear();
        let node = r.node.take().unwrap();
        let (fs, exec) = (node.fs.clone(), node.exec.clone());
        node.stop(true)?;
        r.node = Some(open_with(&fs, &exec, opts)?);
        let got = r.node().scan()?;
        ensure!(got == img_rows(&r.cur), "{} after reopening: {got:?}, expected {:?}", tid(c), img_rows(&r.cur));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    // one transaction, everything around it
    let d = ctx.by(6, 7);
    let alpha = [T::Begin(0), T::Put(0, "a"), T::Del(0, "a"), T::Put(0, "b"), T::Commit(0), T::Abort(0), T::W("a"), T::D("a"), T::Seal, T::Flush, T::Compact, T::Reopen];
    let mut cases = vec![];
    gen_seqs(&alpha, d, &mut cases, &mut vec![]);
    cases.retain(|c| c.contains(&T::Put(0, "a")) || c.contains(&T::Del(0, "a")) || c.contains(&T::Put(0, "b")));
    let s = ctx.suite("db.txn-one", format!("all valid sequences of {d} steps of one transaction (writes and deletes of 2 keys, commit, abort or drop) among autocommit writes and deletes, seal, flush, compaction, reopen; database scan, transaction scan and point reads after every step"));
    s.par_cases(&cases, |c| tid(c), |c, rec| run_case(c, rec, &Opts::default()));
    let d = ctx.by(7, 8);
    let alpha = [T::Begin(0), T::Begin(1), T::Put(0, "a"), T::Put(0, "b"), T::Put(1, "a"), T::Del(1, "a"), T::Commit(0), T::Commit(1), T::W("b"), T::Seal, T::Flush];
    let mut cases = vec![];
    gen_seqs(&alpha, d, &mut cases, &mut vec![]);
    cases.retain(|c| c.contains(&T::Commit(0)) && c.contains(&T::Begin(1)) && (0..2).all(|i| c.iter().any(|t| matches!(t, T::Put(j, _) | T::Del(j, _) if *j == i))));
    let s = ctx.suite("db.txn-two", format!("all valid sequences of {d} steps of two transactions over 2 keys with autocommit writes, seal and flush"));
    s.par_cases(&cases, |c| tid(c), |c, rec| run_case(c, rec, &Opts::default()));
}
