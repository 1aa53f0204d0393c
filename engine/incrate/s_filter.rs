//! Filters on the whole database: every key type x every placement of the versions (write buffer,
//! sealed buffer, files, merged files) x every filter of a small grammar, against an independent
//! three-valued evaluation of the filter on the reference rows.
use std::{cmp::Ordering, sync::Arc};

use arrow_array::*;
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use datafusion_common::ScalarValue;

use super::{core::*, exec::{AssumeSend, VExec}, s_db::*, tracefs::TraceFs};
use crate::{ensure, query::Expr};

/// What a cell or a literal means.
#[derive(Clone, Debug, PartialEq)]
enum Val {
    Null,
    B(bool),
    I(i128),
    F(f64),
    S(String),
    X(Vec<u8>),
}
fn val(s: &ScalarValue) -> Val {
    use ScalarValue::*;
    match s {
        Boolean(Some(v)) => Val::B(*v),
        Int8(Some(v)) => Val::I(*v as i128),
        Int16(Some(v)) => Val::I(*v as i128),
        Int32(Some(v)) => Val::I(*v as i128),
        Int64(Some(v)) => Val::I(*v as i128),
        UInt8(Some(v)) => Val::I(*v as i128),
        UInt16(Some(v)) => Val::I(*v as i128),
        UInt32(Some(v)) => Val::I(*v as i128),
        UInt64(Some(v)) => Val::I(*v as i128),
        Float32(Some(v)) => Val::F(*v as f64),
        Float64(Some(v)) => Val::F(*v),
        Utf8(Some(v)) | LargeUtf8(Some(v)) | Utf8View(Some(v)) => Val::S(v.clone()),
        Binary(Some(v)) | LargeBinary(Some(v)) | BinaryView(Some(v)) | FixedSizeBinary(_, Some(v)) => Val::X(v.clone()),
        _ => Val::Null,
    }
}
fn cmp(a: &Val, b: &Val) -> Option<Ordering> {
    match (a, b) {
        (Val::B(a), Val::B(b)) => Some(a.cmp(b)),
        (Val::I(a), Val::I(b)) => Some(a.cmp(b)),
        (Val::F(a), Val::F(b)) => a.partial_cmp(b),
        // the domains below only hold small integers here
        (Val::I(a), Val::F(b)) => (*a as f64).partial_cmp(b),
        (Val::F(a), Val::I(b)) => a.partial_cmp(&(*b as f64)),
        (Val::S(a), Val::S(b)) => Some(a.cmp(b)),
        (Val::X(a), Val::X(b)) => Some(a.cmp(b)),
        _ => None,
    }
}
type Cells = Vec<Val>;
type T = Option<bool>;
fn and(a: T, b: T) -> T {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
fn not(a: T) -> T {
    a.map(|x| !x)
}
fn holds(e: &Expr, names: &[String], row: &Cells) -> T {
    let get = |c: &String| row[names.iter().position(|n| n == c).unwrap()].clone();
    let one = |c: &String, op: &str, v: &ScalarValue| -> T {
        let o = cmp(&get(c), &val(v))?;
        Some(match op {
            "=" => o.is_eq(),
            "!=" => o.is_ne(),
            "<" => o.is_lt(),
            "<=" => o.is_le(),
            ">" => o.is_gt(),
            _ => o.is_ge(),
        })
    };
    match e {
        Expr::True => Some(true),
        Expr::False => Some(false),
        Expr::Cmp { column, op, value } => one(column, op_name(*op), value),
        Expr::Between { column, low, high, inclusive } => {
            let (l, h) = if *inclusive { (">=", "<=") } else { (">", "<") };
            and(one(column, l, low), one(column, h, high))
        }
        Expr::InList { column, values } => {
            let mut acc = Some(false);
            for v in values {
                acc = not(and(not(acc), not(one(column, "=", v))));
            }
            acc
        }
        Expr::StartsWith { column, prefix } => match get(column) {
            Val::S(s) => Some(s.starts_with(prefix.as_str())),
            _ => None,
        },
        Expr::IsNull { column, negated } => Some((get(column) == Val::Null) != *negated),
        Expr::And(v) => v.iter().fold(Some(true), |a, e| and(a, holds(e, names, row))),
        Expr::Or(v) => not(v.iter().fold(Some(true), |a, e| and(a, not(holds(e, names, row))))),
        Expr::Not(e) => not(holds(e, names, row)),
        _ => unreachable!(),
    }
}
fn op_name(op: aisle::CmpOp) -> &'static str {
    use aisle::CmpOp::*;
    match op {
        Eq => "=",
        NotEq => "!=",
        Lt => "<",
        LtEq => "<=",
        Gt => ">",
        GtEq => ">=",
    }
}
fn lit(v: &ScalarValue) -> String {
    match val(v) {
        Val::S(s) => format!("'{}'", s.escape_unicode()),
        x => format!("{:?}:{x:?}", v.data_type()),
    }
}
fn show(e: &Expr) -> String {
    match e {
        Expr::Cmp { column, op, value } => format!("{column}{}{}", op_name(*op), lit(value)),
        Expr::Between { column, low, high, inclusive } => format!("{column} in {}{}..{}", if *inclusive { "=" } else { "" }, lit(low), lit(high)),
        Expr::InList { column, values } => format!("{column} in {:?}", values.iter().map(lit).collect::<Vec<_>>()),
        Expr::StartsWith { column, prefix } => format!("{column}~'{}'", prefix.escape_unicode()),
        Expr::IsNull { column, negated } => format!("{column} is{} null", if *negated { " not" } else { "" }),
        Expr::And(v) => format!("({})", v.iter().map(show).collect::<Vec<_>>().join(" and ")),
        Expr::Or(v) => format!("({})", v.iter().map(show).collect::<Vec<_>>().join(" or ")),
        Expr::Not(e) => format!("not {}", show(e)),
        o => format!("{o:?}"),
    }
}

/// A key type: four ascending keys that are stored, literals between and around them, literals of
/// other types it is compared with, prefixes.
#[derive(Clone)]
struct Kind {
    name: &'static str,
    dt: DataType,
    keys: [ScalarValue; 4],
    gaps: Vec<ScalarValue>,
    other: Vec<ScalarValue>,
    prefixes: Vec<&'static str>,
}
fn kinds() -> Vec<Kind> {
    use ScalarValue::*;
    let s = |x: &str| Some(x.to_string());
    let b = |x: &[u8]| Some(x.to_vec());
    let k = |name, dt, keys, gaps, other| Kind { name, dt, keys, gaps, other, prefixes: vec![] };
    let mut v = vec![
        k("i32", DataType::Int32, [-7, 0, 3, 2_000_000_000].map(|x| Int32(Some(x))), vec![Int32(Some(-1)), Int32(Some(1)), Int32(Some(i32::MAX)), Int32(None)],
          vec![Int64(Some(0)), Int64(Some(3_000_000_000)), Int64(Some(-3_000_000_000)), UInt64(Some(3)), Float64(Some(0.5)), Float64(Some(3.0)), Int8(Some(3))]),
        k("i64", DataType::Int64, [i64::MIN, -1, 0, 1 << 40].map(|x| Int64(Some(x))), vec![Int64(Some(-2)), Int64(Some(5)), Int64(Some(i64::MAX)), Int64(None)],
          vec![Int32(Some(0)), UInt64(Some(0)), UInt64(Some(u64::MAX)), Float64(Some(-0.5)), Float32(Some(-1.0)), UInt8(Some(0))]),
        k("u32", DataType::UInt32, [0, 1, 7, u32::MAX].map(|x| UInt32(Some(x))), vec![UInt32(Some(3)), UInt32(None)],
          vec![Int32(Some(-1)), Int32(Some(1)), Int64(Some(7)), UInt64(Some(1 << 33)), Float64(Some(0.5)), Float32(Some(7.0))]),
        k("u64", DataType::UInt64, [0, 3, 1 << 40, u64::MAX].map(|x| UInt64(Some(x))), vec![UInt64(Some(5)), UInt64(Some(u64::MAX - 1)), UInt64(None)],
          vec![Int64(Some(-1)), Int64(Some(3)), Int32(Some(3)), UInt32(Some(3)), Float64(Some(2.5))]),
        k("f32", DataType::Float32, [-1.5f32, 0.25, 0.5, 8.0].map(|x| Float32(Some(x))), vec![Float32(Some(0.3)), Float32(Some(100.0)), Float32(None)],
          vec![Float64(Some(0.25)), Float64(Some(0.1)), Int64(Some(0)), Int32(Some(8))]),
        k("f64", DataType::Float64, [-1e300, 0.1, 0.5, 2.0].map(|x| Float64(Some(x))), vec![Float64(Some(0.3)), Float64(Some(1e301)), Float64(None)],
          vec![Float32(Some(0.5)), Float32(Some(0.1)), Int64(Some(2)), UInt32(Some(1))]),
        Kind {
            name: "utf8", dt: DataType::Utf8, keys: ["a", "ab", "b", "b\u{10ffff}"].map(|x| Utf8(s(x))),
            gaps: vec![Utf8(s("")), Utf8(s("aa")), Utf8(s("c")), Utf8(None)], other: vec![],
            prefixes: vec!["", "a", "ab", "b", "c", "\u{10ffff}", "b\u{10ffff}", "abc"],
        },
        Kind {
            name: "large_utf8", dt: DataType::LargeUtf8, keys: ["a", "ab", "b", "z"].map(|x| LargeUtf8(s(x))),
            gaps: vec![LargeUtf8(s("")), LargeUtf8(s("aa")), LargeUtf8(None)], other: vec![Utf8(s("ab"))],
            prefixes: vec!["", "a", "b"],
        },
        k("binary", DataType::Binary, [b"\x00".as_slice(), b"a", b"a\x00", b"\xff\xff"].map(|x| Binary(b(x))), vec![Binary(b(b"")), Binary(b(b"a\x01")), Binary(None)], vec![]),
        k("large_binary", DataType::LargeBinary, [b"\x00".as_slice(), b"a", b"a\x00", b"\xff"].map(|x| LargeBinary(b(x))), vec![LargeBinary(b(b"")), LargeBinary(b(b"b"))], vec![Binary(b(b"a"))]),
        k("fixed2", DataType::FixedSizeBinary(2), [b"\x00\x00".as_slice(), b"\x00\x01", b"a\x00", b"\xff\xff"].map(|x| FixedSizeBinary(2, b(x))), vec![FixedSizeBinary(2, b(b"b\x00"))], vec![Binary(b(b"a\x00"))]),
    ];
    // a two valued key still needs four rows: the pair (bool, tag) is the composite case below
    v.push(Kind { name: "bool", dt: DataType::Boolean, keys: [false, true, true, true].map(|x| Boolean(Some(x))), gaps: vec![Boolean(None)], other: vec![], prefixes: vec![] });
    v
}

fn cmps(c: &str, v: &ScalarValue) -> Vec<Expr> {
    vec![
        Expr::eq(c, v.clone()),
        Expr::not_eq(c, v.clone()),
        Expr::lt(c, v.clone()),
        Expr::lt_eq(c, v.clone()),
        Expr::gt(c, v.clone()),
        Expr::gt_eq(c, v.clone()),
    ]
}
fn key_atoms(k: &Kind, full: bool) -> Vec<Expr> {
    let lits: Vec<ScalarValue> = k.keys.iter().chain(&k.gaps).chain(&k.other).cloned().collect();
    let mut v: Vec<Expr> = lits.iter().flat_map(|l| cmps("k", l)).collect();
    for l in &lits {
        for h in &lits {
            v.push(Expr::between("k", l.clone(), h.clone(), true));
            if full {
                v.push(Expr::between("k", l.clone(), h.clone(), false));
            }
            v.push(Expr::in_list("k", vec![l.clone(), h.clone()]));
        }
    }
    for p in &k.prefixes {
        v.push(Expr::starts_with("k", *p));
    }
    v.push(Expr::in_list("k", vec![]));
    v.push(Expr::is_null("k"));
    v.push(Expr::is_not_null("k"));
    v
}
fn few_key_atoms(k: &Kind) -> Vec<Expr> {
    let mut v = vec![
        Expr::eq("k", k.keys[1].clone()),
        Expr::not_eq("k", k.keys[2].clone()),
        Expr::lt("k", k.keys[2].clone()),
        Expr::gt_eq("k", k.keys[2].clone()),
        Expr::gt("k", k.keys[0].clone()),
        Expr::in_list("k", vec![k.keys[0].clone(), k.keys[3].clone()]),
        Expr::eq("k", k.gaps.last().unwrap().clone()),
    ];
    if let Some(o) = k.other.first() {
        v.push(Expr::lt_eq("k", o.clone()));
    }
    if let Some(p) = k.prefixes.get(1) {
        v.push(Expr::starts_with("k", *p));
    }
    v
}
fn value_atoms() -> Vec<Expr> {
    let i = |x| ScalarValue::Int64(Some(x));
    vec![
        Expr::eq("v", i(2)),
        Expr::not_eq("v", i(1)),
        Expr::lt("v", i(2)),
        Expr::gt_eq("v", ScalarValue::Int32(Some(2))),
        Expr::between("v", i(1), i(2), false),
        Expr::in_list("v", vec![i(1), ScalarValue::Int64(None)]),
        Expr::is_null("v"),
        Expr::is_not_null("v"),
        Expr::eq("v", ScalarValue::Int64(None)),
        Expr::lt("v", ScalarValue::Float64(Some(1.5))),
    ]
}
fn grammar(k: &Kind, full: bool) -> Vec<Expr> {
    let ka = key_atoms(k, full);
    let va = value_atoms();
    let few: Vec<Expr> = few_key_atoms(k).into_iter().chain(va.iter().cloned().take(if full { 10 } else { 7 })).collect();
    let mut v = vec![Expr::True, Expr::False];
    v.extend(ka.iter().cloned());
    v.extend(va.iter().cloned());
    v.extend(few.iter().map(|e| Expr::not(e.clone())));
    for a in &few {
        for b in &few {
            v.push(Expr::and(vec![a.clone(), b.clone()]));
            v.push(Expr::or(vec![a.clone(), b.clone()]));
            if full {
                v.push(Expr::not(Expr::and(vec![a.clone(), b.clone()])));
                v.push(Expr::and(vec![a.clone(), Expr::not(b.clone())]));
                v.push(Expr::or(vec![Expr::not(a.clone()), b.clone()]));
            }
        }
    }
    v
}

/// One step of building a placement: write (key index, value or delete) rows, or maintenance.
#[derive(Clone, Copy, Debug)]
enum St {
    W(&'static [(usize, Option<i64>, bool)]),
    Seal,
    Flush,
    Compact,
    /// stop (cleanly or not) and open again
    Reopen(bool),
}
use St::*;
const BASE: &[(usize, Option<i64>, bool)] = &[(0, Some(1), false), (1, Some(2), false), (2, None, false), (3, Some(3), false)];
fn placements() -> Vec<(&'static str, Vec<St>)> {
    const NEW: &[(usize, Option<i64>, bool)] = &[(1, Some(1), false), (3, None, false)];
    const DEL: &[(usize, Option<i64>, bool)] = &[(2, None, true), (0, Some(2), false)];
    vec![
        ("buffer", vec![W(BASE)]),
        ("sealed", vec![W(BASE), Seal]),
        ("file", vec![W(BASE), Seal, Flush]),
        ("versions in buffer", vec![W(BASE), W(NEW), W(DEL)]),
        ("file+sealed+buffer", vec![W(BASE), Seal, Flush, W(NEW), Seal, W(DEL)]),
        ("three files", vec![W(BASE), Seal, Flush, W(NEW), Seal, Flush, W(DEL), Seal, Flush]),
        ("one file of versions", vec![W(BASE), W(NEW), W(DEL), Seal, Flush]),
        ("merged", vec![W(BASE), Seal, Flush, W(NEW), Seal, Flush, W(DEL), Seal, Flush, Compact]),
        ("recovered log", vec![W(BASE), W(NEW), W(DEL), Reopen(false)]),
        ("recovered files", vec![W(BASE), Seal, Flush, W(NEW), Seal, Flush, Reopen(true), W(DEL)]),
    ]
}

fn run_kind(ctx: &Ctx) {
    let full = ctx.by(false, true);
    let ks = kinds();
    let pl = placements();
    let n: Vec<(usize, usize)> = (0..ks.len()).flat_map(|a| (0..pl.len()).map(move |b| (a, b))).collect();
    let s = ctx.suite(
        "db.filter_grammar",
        format!(
            "key types {:?} x placements {:?} x every filter of a grammar (six comparisons, between, in list, prefix, null tests on the key with equal, neighbouring, null and differently typed literals, on the value, their negations and every pair under and/or) x all columns or the value alone",
            ks.iter().map(|k| k.name).collect::<Vec<_>>(),
            pl.iter().map(|p| p.0).collect::<Vec<_>>()
        ),
    );
    s.par_cases(&n, |c| format!("{}/{}", ks[c.0].name, pl[c.1].0), |c, rec| {
        let (k, steps) = (&ks[c.0], &pl[c.1].1);
        check_kind(k, steps, &grammar(k, full), rec)
    });
}
fn check_kind(k: &Kind, steps: &[St], exprs: &[Expr], rec: &mut Rec) -> R {
    let schema: SchemaRef = Arc::new(Schema::new(vec![Field::new("k", k.dt.clone(), false), Field::new("v", DataType::Int64, true)]));
    let (fs, exec, o) = (TraceFs::new(), VExec::new(), Opts { table: Some((schema.clone(), 1)), ..Opts::default() });
    let mut node = open_with(&fs, &exec, &o)?;
    let distinct = if k.name == "bool" { 2 } else { 4 };
    let mut model: Vec<Option<Option<i64>>> = vec![None; distinct];
    for st in steps {
        match st {
            W(rows) => {
                let rows: Vec<_> = rows.iter().filter(|r| r.0 < distinct).collect();
                let key = ScalarValue::iter_to_array(rows.iter().map(|r| k.keys[r.0].clone())).unwrap();
                let v: ArrayRef = Arc::new(Int64Array::from(rows.iter().map(|r| r.1).collect::<Vec<_>>()));
                let b = RecordBatch::try_new(schema.clone(), vec![key, v]).unwrap();
                estr(node.write_batch(b, rows.iter().map(|r| r.2).collect())?, "write")?;
                for r in rows {
                    model[r.0] = if r.2 { None } else { Some(r.1) };
                }
            }
            Seal => node.seal()?,
            Flush => {
                estr(node.flush()?, "flush")?;
            }
            Compact => node.compact(None)?,
            Reopen(clean) => {
                node.stop(*clean)?;
                node = open_with(&fs, &exec, &o)?;
            }
        }
        rec.step();
    }
    let names = vec!["k".to_string(), "v".to_string()];
    let rows: Vec<Cells> = model
        .iter()
        .enumerate()
        .filter_map(|(i, m)| m.map(|v| vec![val(&k.keys[i]), v.map_or(Val::Null, |x| Val::I(x as i128))]))
        .collect();
    for e in exprs {
        for only_v in [false, true] {
            let want: Vec<Cells> = rows
                .iter()
                .filter(|r| holds(e, &names, r) == Some(true))
                .map(|r| if only_v { vec![r[1].clone()] } else { r.clone() })
                .collect();
            let (db, e2) = (node.db.clone(), e.clone());
            let got = node.exec.block_on(AssumeSend(async move {
                let mut b = db.scan().filter(e2);
                if only_v {
                    b = b.projection(Arc::new(Schema::new(vec![Field::new("v", DataType::Int64, true)])));
                }
                b.collect().await.map_err(|e| e.to_string())
            }))?;
            rec.eval();
            let got = estr(got, &format!("{} {}", k.name, show(e)))?;
            let got: Vec<Cells> = got
                .iter()
                .flat_map(|b| {
                    (0..b.num_rows())
                        .map(|r| b.columns().iter().map(|c| val(&ScalarValue::try_from_array(c, r).unwrap())).collect::<Cells>())
                        .collect::<Vec<_>>()
                })
                .collect();
            rec.state(&format!("{}{got:?}", k.name));
            ensure!(got == want, "{} key, filter {}{}: {got:?}, expected {want:?}", k.name, show(e), if only_v { " (value column)" } else { "" });
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    run_kind(ctx);
}
