//! C08: WAL frame codec: every command round-trips; every truncation and payload corruption is
//! rejected; concatenated frames split back exactly.
use std::sync::Arc;

use arrow_array::{Array, ArrayRef, BinaryArray, BooleanArray, Float64Array, Int32Array, Int64Array, RecordBatch, StringArray};
use arrow_schema::{DataType, Field, Schema};

use super::{core::*, util::*};
use crate::{
    ensure,
    mvcc::Timestamp,
    wal::{
        DynBatchPayload, WalCommand,
        frame::{FRAME_HEADER_SIZE, Frame, FrameHeader, FrameType, INITIAL_FRAME_SEQ, WalEvent, decode_frame, encode_command},
    },
};

#[derive(Clone, Debug)]
pub enum Cmd {
    Begin(u64),
    Row(u64, usize, u64),
    Del(u64, usize, u64),
    Commit(u64, u64),
    Abort(u64),
}

/// Catalogue of row batches: empty, single, nulls, several types, metadata, sliced.
pub fn batches() -> Vec<RecordBatch> {
    let wide = Arc::new(Schema::new_with_metadata(
        vec![
            Field::new("id", DataType::Utf8, false),
            Field::new("b", DataType::Boolean, true),
            Field::new("f", DataType::Float64, true),
            Field::new("i", DataType::Int32, true),
            Field::new("bin", DataType::Binary, true),
        ],
        [("k".to_string(), "meta".to_string())].into_iter().collect(),
    ));
    let w = RecordBatch::try_new(
        wide,
        vec![
            Arc::new(StringArray::from(vec!["", "é\u{0}x", "zz"])) as ArrayRef,
            Arc::new(BooleanArray::from(vec![Some(true), None, Some(false)])) as ArrayRef,
            Arc::new(Float64Array::from(vec![Some(f64::NAN), Some(-0.0), None])) as ArrayRef,
            Arc::new(Int32Array::from(vec![Some(i32::MIN), None, Some(i32::MAX)])) as ArrayRef,
            Arc::new(BinaryArray::from(vec![Some(&b""[..]), None, Some(&b"\xff\x00"[..])])) as ArrayRef,
        ],
    )
    .expect("wide");
    let sliced = kv_batch(&[("a", Some(1)), ("b", None), ("c", Some(3))]).slice(1, 2);
    vec![
        kv_batch(&[]),
        kv_batch(&[("k", Some(7))]),
        kv_batch(&[("a", None), ("a", Some(i64::MIN)), ("", Some(i64::MAX))]),
        w,
        sliced,
    ]
}

pub fn to_wal(c: &Cmd) -> WalCommand {
    match c {
        Cmd::Begin(p) => WalCommand::TxnBegin { provisional_id: *p },
        Cmd::Row(p, b, ts) => {
            let batch = batches()[*b].clone();
            let n = batch.num_rows();
            WalCommand::TxnAppend { provisional_id: *p, payload: DynBatchPayload::Row { batch, commit_ts_column: ts_col(*ts, n) } }
        }
        Cmd::Del(p, n, ts) => {
            let keys: Vec<&str> = ["x", "", "yy"][..*n].to_vec();
            WalCommand::TxnAppend { provisional_id: *p, payload: DynBatchPayload::Delete { batch: delete_batch(&keys, *ts) } }
        }
        Cmd::Commit(p, ts) => WalCommand::TxnCommit { provisional_id: *p, commit_ts: Timestamp::new(*ts) },
        Cmd::Abort(p) => WalCommand::TxnAbort { provisional_id: *p },
    }
}

/// Canonical text of what a command must decode to.
pub fn expect(c: &Cmd) -> String {
    match c {
        Cmd::Begin(p) => format!("begin {p}"),
        Cmd::Row(p, b, ts) => {
            let batch = batches()[*b].clone();
            let n = batch.num_rows();
            format!("row {p} {} hint={:?} ts={:?}", batch_text(&compact(&batch)), (n > 0).then_some(*ts), vec![*ts; n])
        }
        Cmd::Del(p, n, ts) => {
            let keys: Vec<&str> = ["x", "", "yy"][..*n].to_vec();
            format!("del {p} {} hint={:?}", batch_text(&delete_batch(&keys, *ts)), (*n > 0).then_some(*ts))
        }
        Cmd::Commit(p, ts) => format!("commit {p} {ts}"),
        Cmd::Abort(p) => format!("abort {p}"),
    }
}

/// Offset-free copy (slices decode as compact arrays).
fn compact(b: &RecordBatch) -> RecordBatch {
    let idx = arrow_array::UInt32Array::from((0..b.num_rows() as u32).collect::<Vec<_>>());
    let cols = b.columns().iter().map(|c| arrow_select::take::take(c, &idx, None).expect("take")).collect();
    RecordBatch::try_new_with_options(
        b.schema(),
        cols,
        &arrow_array::RecordBatchOptions::new().with_row_count(Some(b.num_rows())),
    )
    .expect("compact")
}

pub fn event_text(e: &WalEvent) -> String {
    match e {
        WalEvent::TxnBegin { provisional_id } => format!("begin {provisional_id}"),
        WalEvent::DynAppend { provisional_id, payload } => {
            let c = payload.commit_ts_column.as_any().downcast_ref::<arrow_array::UInt64Array>().expect("u64");
            format!(
                "row {provisional_id} {} hint={:?} ts={:?}",
                batch_text(&compact(&payload.batch)),
                payload.commit_ts_hint.map(|t| t.get()),
                c.values().to_vec()
            )
        }
        WalEvent::DynDelete { provisional_id, payload } => format!(
            "del {provisional_id} {} hint={:?}",
            batch_text(&compact(&payload.batch)),
            payload.commit_ts_hint.map(|t| t.get())
        ),
        WalEvent::TxnCommit { provisional_id, commit_ts } => format!("commit {provisional_id} {}", commit_ts.get()),
        WalEvent::TxnAbort { provisional_id } => format!("abort {provisional_id}"),
        WalEvent::SealMarker => "seal".into(),
    }
}

fn alphabet(full: bool) -> Vec<Cmd> {
    let ids: &[u64] = if full { &[0, 1, u64::MAX] } else { &[1, u64::MAX] };
    let tss: &[u64] = if full { &[0, 1, u64::MAX] } else { &[1, u64::MAX] };
    let mut v = vec![];
    for &p in ids {
        v.push(Cmd::Begin(p));
        v.push(Cmd::Abort(p));
        for &t in tss {
            v.push(Cmd::Commit(p, t));
            for b in 0..batches().len() {
                v.push(Cmd::Row(p, b, t));
            }
            for n in 0..=3 {
                v.push(Cmd::Del(p, n, t));
            }
        }
    }
    v
}

pub fn encode(c: &Cmd, seq: u64) -> R<Vec<u8>> {
    let frames = encode_command(to_wal(c)).map_err(|e| Fail::Bad(format!("encode {c:?}: {e}")))?;
    ensure!(frames.len() == 1, "{c:?} produced {} frames", frames.len());
    Ok(frames.into_iter().next().unwrap().into_bytes(seq))
}

fn decode_all(mut bytes: &[u8]) -> Result<Vec<(u64, String)>, String> {
    let mut out = vec![];
    while !bytes.is_empty() {
        let (h, rest) = FrameHeader::decode_from(bytes).map_err(|e| e.to_string())?;
        let end = FRAME_HEADER_SIZE + h.len as usize;
        if end > bytes.len() {
            return Err("header longer than data".into());
        }
        if bytes.len() - end != rest.len() {
            return Err("remaining slice inconsistent with length".into());
        }
        let e = decode_frame(h.frame_type, &bytes[FRAME_HEADER_SIZE..end]).map_err(|e| e.to_string())?;
        out.push((h.seq, event_text(&e)));
        bytes = rest;
    }
    Ok(out)
}

pub fn run(ctx: &Ctx) {
    let cmds = alphabet(ctx.thorough());
    {
        let s = ctx.suite(
            "frame.single",
            format!("every one of {} commands x 3 sequence numbers: round trip; every truncation length; every byte of the payload x every single-bit flip; every stretch of bytes zeroed; every header byte replaced (magic, version, unknown type, zero sequence)", cmds.len()),
        );
        s.par_cases(&cmds, |c| format!("{c:?}"), |c, rec| {
            for seq in [1u64, 2, u64::MAX] {
                let b = encode(c, seq)?;
                let d = decode_all(&b);
                rec.step();
                rec.eval();
                ensure!(d == Ok(vec![(seq, expect(c))]), "round trip of {c:?} seq {seq}: got {d:?}, want {}", expect(c));
            }
            let b = encode(c, 5)?;
            rec.state(&b);
            // truncation: never decodes
            for n in 0..b.len() {
                rec.step();
                rec.eval();
                match FrameHeader::decode_from(&b[..n]) {
                    Err(_) => {}
                    Ok(_) => return bad(format!("{c:?}: {n} of {} bytes accepted as a whole frame", b.len())),
                }
            }
            // payload corruption: every bit
            let stride = if b.len() > 1500 && !ctx.thorough() { 3 } else { 1 };
            let mut i = FRAME_HEADER_SIZE;
            while i < b.len() {
                for bit in 0..8 {
                    let mut x = b.clone();
                    x[i] ^= 1 << bit;
                    rec.step();
                    rec.eval();
                    ensure!(FrameHeader::decode_from(&x).is_err(), "{c:?}: payload byte {i} bit {bit} flipped undetected");
                }
                i += stride;
            }
            // header validation: magic, version, length, checksum fields
            for i in (0..6).chain(16..24) {
                for v in 0..=255u8 {
                    if b[i] == v {
                        continue;
                    }
                    let mut x = b.clone();
                    x[i] = v;
                    rec.step();
                    rec.eval();
                    ensure!(FrameHeader::decode_from(&x).is_err(), "{c:?}: header byte {i} set to {v} undetected");
                }
            }
            // a zeroed stretch anywhere (a hole left by a torn write), beyond sequence and type
            let step = if b.len() > 300 { ctx.by(16, 8) } else { ctx.by(2, 1) };
            let ends: Vec<usize> = (0..FRAME_HEADER_SIZE).chain((FRAME_HEADER_SIZE..b.len()).step_by(step)).chain([b.len()]).collect();
            for (n, &i) in ends.iter().enumerate() {
                for &j in &ends[n + 1..] {
                    let mut x = b.clone();
                    x[i..j].fill(0);
                    if x[..6] == b[..6] && x[16..] == b[16..] {
                        continue;
                    }
                    rec.step();
                    rec.eval();
                    ensure!(decode_all(&x).is_err(), "{c:?}: bytes {i}..{j} zeroed undetected");
                }
            }
            for ty in 6u16..=300 {
                let mut x = b.clone();
                x[6..8].copy_from_slice(&ty.to_le_bytes());
                ensure!(FrameHeader::decode_from(&x).is_err(), "unknown frame type {ty} accepted");
            }
            let mut x = b.clone();
            x[8..16].copy_from_slice(&[0; 8]);
            ensure!(FrameHeader::decode_from(&x).is_err(), "reserved sequence 0 accepted");
            Ok(())
        });
    }
    {
        let small: Vec<Cmd> = vec![
            Cmd::Begin(1),
            Cmd::Row(1, 1, 9),
            Cmd::Row(2, 3, 10),
            Cmd::Row(2, 0, 10),
            Cmd::Del(1, 2, 9),
            Cmd::Commit(1, 9),
            Cmd::Abort(2),
        ];
        let depth = ctx.by(3, 4);
        let seqs = sequences_upto(&small, depth);
        let s = ctx.suite(
            "frame.stream",
            format!("every sequence of up to {depth} commands over {} commands, concatenated, at every truncation of the last frame", small.len()),
        );
        s.par_cases(&seqs, |c| format!("{c:?}"), |cs, rec| {
            let mut all = vec![];
            let mut want = vec![];
            let mut last_start = 0;
            for (i, c) in cs.iter().enumerate() {
                last_start = all.len();
                all.extend(encode(c, 1 + i as u64)?);
                want.push((1 + i as u64, expect(c)));
                rec.step();
            }
            rec.state(&all);
            rec.eval();
            let got = decode_all(&all);
            ensure!(got == Ok(want.clone()), "stream {cs:?} decoded to {got:?}");
            let step = if ctx.thorough() { 1 } else { 5 };
            let mut n = last_start + 1;
            while n < all.len() {
                rec.eval();
                let r = decode_all(&all[..n]);
                ensure!(r.is_err(), "stream cut at {n}/{} decoded to {r:?}", all.len());
                n += step;
            }
            Ok(())
        });
    }
    {
        // Payload-level decoding rejects wrong-size payloads for fixed-size frames.
        let s = ctx.suite("frame.payload_len", "fixed-size frames with every payload length 0..=40; appends with every mode/row-mode byte");
        let tys = [FrameType::TxnBegin, FrameType::TxnCommit, FrameType::TxnAbort, FrameType::SealMarker];
        s.par_cases(&tys, |t| format!("{t:?}"), |t, rec| {
            let ok = match t {
                FrameType::TxnBegin | FrameType::TxnAbort => 8,
                FrameType::TxnCommit => 16,
                _ => 0,
            };
            for n in 0..=40usize {
                let p = vec![1u8; n];
                rec.step();
                rec.eval();
                rec.state(&(format!("{t:?}"), n));
                let r = decode_frame(*t, &p);
                ensure!(r.is_ok() == (n == ok), "{t:?} payload of {n} bytes: ok={}", r.is_ok());
            }
            Ok(())
        });
        s.case("append-modes", |rec| {
            for (c, modes_ok) in [(Cmd::Row(1, 1, 9), (0u8, 0u8)), (Cmd::Del(1, 1, 9), (0, 1))] {
                let b = encode(&c, 1)?;
                let pl = &b[FRAME_HEADER_SIZE..];
                for m in 0..=255u8 {
                    for rm in [0u8, 1, 2, 3, 127, 255] {
                        let mut x = pl.to_vec();
                        x[8] = m;
                        x[9] = rm;
                        rec.step();
                        rec.eval();
                        let r = decode_frame(FrameType::TxnAppend, &x);
                        if (m, rm) == modes_ok {
                            ensure!(r.is_ok(), "valid append rejected");
                        } else if m != 0 || rm > 1 {
                            ensure!(r.is_err(), "append with mode {m} row mode {rm} accepted");
                        }
                    }
                }
            }
            Ok(())
        });
    }
}
