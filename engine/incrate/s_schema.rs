//! Schema definition suites: every key declaration of small schemas against the documented rules.
use std::{collections::HashMap, sync::Arc};

use arrow_array::{ArrayRef, Int64Array, RecordBatch, StringArray, UInt64Array};
use arrow_schema::{DataType, Field, Schema, SchemaRef};

use super::{core::*, util::*};
use crate::{
    ensure,
    extractor::{self, KeyExtractError},
    mode::{DynModeConfig, fingerprint_schema, table_definition},
    schema::SchemaBuilder,
};

const MARKS: [Option<&str>; 7] = [None, Some("true"), Some("0"), Some("1"), Some("2"), Some("no"), Some(" yes ")];

fn schema_with(marks: &[Option<&str>], md: Option<&str>) -> SchemaRef {
    let types = [DataType::Utf8, DataType::Int64, DataType::UInt32];
    let fields: Vec<Field> = marks
        .iter()
        .enumerate()
        .map(|(i, m)| {
            let f = Field::new(format!("f{i}"), types[i % 3].clone(), false);
            match m {
                Some(m) => f.with_metadata(HashMap::from([("tonbo.key".to_string(), m.to_string())])),
                None => f,
            }
        })
        .collect();
    let mut h = HashMap::new();
    if let Some(m) = md {
        h.insert("tonbo.keys".to_string(), m.to_string());
    }
    Arc::new(Schema::new_with_metadata(fields, h))
}

fn expected(marks: &[Option<&str>], md: Option<&str>) -> Result<Vec<usize>, ()> {
    let mut m: Vec<(Option<u32>, usize)> = vec![];
    for (i, x) in marks.iter().enumerate() {
        match x.map(|x| x.trim()) {
            Some("true" | "yes") => m.push((None, i)),
            Some(o) if o.parse::<u32>().is_ok() => m.push((o.parse().ok(), i)),
            _ => {}
        }
    }
    if m.len() == 1 {
        return Ok(vec![m[0].1]);
    }
    if m.len() > 1 {
        if m.iter().any(|x| x.0.is_none()) {
            return Err(());
        }
        m.sort();
        return Ok(m.into_iter().map(|x| x.1).collect());
    }
    match md {
        Some("f0") => Ok(vec![0]),
        Some("[\"f1\"]") if marks.len() > 1 => Ok(vec![1]),
        Some("[\"f1\", \"f0\"]") if marks.len() > 1 => Ok(vec![1, 0]),
        _ => Err(()),
    }
}

pub fn run(ctx: &Ctx) {
    let s = ctx.suite("schema.metadata", "every combination of 7 field markers on 1..=3 columns x 7 schema-level declarations");
    let mut items = vec![];
    for n in 1..=3usize {
        for marks in sequences(&MARKS, n) {
            for md in [None, Some("f0"), Some("[\"f1\"]"), Some("[\"f1\", \"f0\"]"), Some("[]"), Some("nope"), Some("[\"f0\",\"nope\"]")] {
                items.push((marks.clone(), md));
            }
        }
    }
    s.par_cases(&items, |(m, d)| format!("{m:?} {d:?}"), |(m, d), rec| {
        rec.eval();
        let sc = schema_with(m, *d);
        let want = expected(m, *d);
        let dup = {
            let o: Vec<u32> = m.iter().flatten().filter_map(|x| x.trim().parse().ok()).collect();
            (1..o.len()).any(|i| o[..i].contains(&o[i]))
        };
        match (DynModeConfig::from_metadata(sc.clone()), want) {
            (Ok(c), Ok(w)) => {
                ensure!(c.extractor.key_indices() == w.as_slice() || dup, "key columns {:?}, declared {w:?}", c.extractor.key_indices());
                let t = table_definition(&c, "t");
                let names: Vec<String> = c.extractor.key_indices().iter().map(|i| format!("f{i}")).collect();
                ensure!(t.name == "t" && t.primary_key_columns == names, "table definition lists {:?} for {names:?}", t.primary_key_columns);
                ensure!(t.schema_fingerprint == fingerprint_schema(&sc), "fingerprint is not that of the schema");
                let (s2, del, _, _mem) = c.build().map_err(|e| Fail::Bad(e.to_string()))?;
                ensure!(s2 == sc, "schema changed");
                let mut want: Vec<(String, DataType)> = names.iter().map(|n| (n.clone(), sc.field_with_name(n).unwrap().data_type().clone())).collect();
                want.push((COMMIT.to_string(), DataType::UInt64));
                let got: Vec<(String, DataType)> = del.fields().iter().map(|f| (f.name().clone(), f.data_type().clone())).collect();
                ensure!(got == want, "delete record schema {got:?}, expected {want:?}");
            }
            (Err(_), Err(())) => {}
            (Ok(c), Err(())) => return bad(format!("accepted with key columns {:?}", c.extractor.key_indices())),
            (Err(e), Ok(w)) => {
                if !dup {
                    return bad(format!("refused ({e}) although it declares {w:?}"));
                }
            }
        }
        Ok(())
    });
    drop(s);

    let s = ctx.suite("schema.builder", "every key list of length 0..=3 over 3 columns and an unknown one, with and without metadata; every column index; unsupported types");
    let mut lists: Vec<Vec<&str>> = vec![vec![]];
    lists.extend(sequences_upto(&["f0", "f1", "f2", "zz"], 3));
    s.par_cases(&lists, |l| format!("{l:?}"), |l, rec| {
        let sc = schema_with(&[None, None, None], None);
        let dup = (1..l.len()).any(|i| l[..i].contains(&l[i]));
        for with_md in [false, true] {
            rec.eval();
            let mut b = SchemaBuilder::from_schema(sc.clone()).composite_key(l.clone());
            if with_md {
                b = b.with_metadata();
            }
            let ok = !l.is_empty() && !l.contains(&"zz");
            match b.build() {
                Ok(c) => {
                    ensure!(ok, "accepted key {l:?}");
                    let names: Vec<String> = c.extractor.key_indices().iter().map(|i| format!("f{i}")).collect();
                    ensure!(names == *l, "key columns {names:?} for {l:?}");
                    if with_md && !dup {
                        let again = DynModeConfig::from_schema(c.schema()).map_err(|e| Fail::Bad(format!("declaration written to metadata is refused: {e}")))?;
                        ensure!(again.extractor.key_indices() == c.extractor.key_indices(), "declaration written to metadata reads back differently");
                    } else if !with_md {
                        ensure!(c.schema() == sc, "schema changed");
                    }
                }
                Err(_) => ensure!(!ok || dup, "refused key {l:?}"),
            }
            // the incremental forms agree
            let mut b = SchemaBuilder::from_schema(sc.clone());
            for (i, p) in l.iter().enumerate() {
                b = if i == 0 { b.primary_key(*p) } else { b.add_key_part(*p) };
            }
            let r = b.build();
            ensure!(r.is_ok() == ok || dup, "incremental key {l:?}");
            if let Ok(c) = r {
                let names: Vec<String> = c.extractor.key_indices().iter().map(|i| format!("f{i}")).collect();
                ensure!(names == *l, "incremental key columns {names:?} for {l:?}");
            }
        }
        Ok(())
    });
    s.case("by index and name", |rec| {
        let sc = schema_with(&[None, None, None], None);
        for i in 0..6usize {
            rec.eval();
            let r = DynModeConfig::from_key_col(sc.clone(), i);
            ensure!(r.is_ok() == (i < 3), "key column index {i}");
            let r = DynModeConfig::from_key_name(sc.clone(), &format!("f{i}"));
            match r {
                Ok(c) => ensure!(i < 3 && c.extractor.key_indices() == [i], "key name f{i}"),
                Err(e) => ensure!(i >= 3 && matches!(e, KeyExtractError::NoSuchField { .. }), "key name f{i}: {e}"),
            }
        }
        ensure!(DynModeConfig::from_schema(sc).is_err(), "schema without key declaration accepted");
        for dt in [DataType::Int8, DataType::Int16, DataType::UInt8, DataType::UInt16, DataType::Date32, DataType::Null, DataType::new_list(DataType::Int32, true), DataType::Struct(vec![Field::new("x", DataType::Int32, false)].into())] {
            let sc = Arc::new(Schema::new(vec![Field::new("k", dt.clone(), false), Field::new("v", DataType::Int64, true)]));
            rec.eval();
            ensure!(matches!(DynModeConfig::from_key_col(sc, 0), Err(KeyExtractError::UnsupportedType { .. })), "key type {dt} accepted");
        }
        Ok(())
    });
    drop(s);

    let s = ctx.suite("schema.compat", "every pair of 12 schemas: a batch of another schema is refused, one with a trailing commit column accepted");
    let base = vec![Field::new("id", DataType::Utf8, false), Field::new("v", DataType::Int64, true)];
    let c = Field::new(COMMIT, DataType::UInt64, false);
    let mut schemas: Vec<(&str, Vec<Field>)> = vec![
        ("base", base.clone()),
        ("swapped", vec![base[1].clone(), base[0].clone()]),
        ("missing", vec![base[0].clone()]),
        ("extra", vec![base[0].clone(), base[1].clone(), Field::new("x", DataType::Int64, true)]),
        ("renamed", vec![base[0].clone(), Field::new("w", DataType::Int64, true)]),
        ("retyped", vec![base[0].clone(), Field::new("v", DataType::UInt64, true)]),
        ("keyretyped", vec![Field::new("id", DataType::LargeUtf8, false), base[1].clone()]),
        ("nullability", vec![base[0].clone(), Field::new("v", DataType::Int64, false)]),
        ("commit_i64", vec![base[0].clone(), base[1].clone(), Field::new(COMMIT, DataType::Int64, false)]),
        ("commit_null", vec![base[0].clone(), base[1].clone(), Field::new(COMMIT, DataType::UInt64, true)]),
        ("commit_first", vec![c.clone(), base[0].clone(), base[1].clone()]),
    ];
    schemas.push(("commit_ok", vec![base[0].clone(), base[1].clone(), c]));
    s.par_cases(&schemas, |x| x.0.to_string(), |(name, f), rec| {
        rec.eval();
        let e = extractor::projection_for_field(Arc::new(Schema::new(base.clone())), 0).map_err(|e| Fail::Bad(e.to_string()))?;
        let sc = Arc::new(Schema::new(f.clone()));
        let ok = matches!(*name, "base" | "commit_ok");
        ensure!(e.validate_schema(&sc).is_ok() == ok, "validation of schema {name}");
        let cols: Vec<ArrayRef> = f
            .iter()
            .map(|f| match f.data_type() {
                DataType::Utf8 => Arc::new(StringArray::from(vec!["a"])) as ArrayRef,
                DataType::Int64 => Arc::new(Int64Array::from(vec![1])) as ArrayRef,
                DataType::UInt64 => Arc::new(UInt64Array::from(vec![1])) as ArrayRef,
                _ => Arc::new(arrow_array::LargeStringArray::from(vec!["a"])) as ArrayRef,
            })
            .collect();
        let b = RecordBatch::try_new(sc, cols).unwrap();
        ensure!(e.project_view(&b, &[0]).is_ok() == ok, "extraction from a batch of schema {name}");
        Ok(())
    });
    drop(s);

    let s = ctx.suite("schema.fingerprint", "all pairs of 40+ distinct schemas, metadata in every insertion order");
    s.case("pairs", |rec| {
        let mut all: Vec<SchemaRef> = schemas.iter().map(|x| Arc::new(Schema::new(x.1.clone()))).collect();
        for n in 1..=2usize {
            for m in sequences(&[None, Some("0"), Some("1")], n) {
                for d in [None, Some("f0"), Some("f1")] {
                    all.push(schema_with(&m, d));
                }
            }
        }
        let fps: Vec<String> = all.iter().map(fingerprint_schema).collect();
        for i in 0..all.len() {
            for j in 0..all.len() {
                rec.eval();
                ensure!((fps[i] == fps[j]) == (all[i] == all[j]), "fingerprints of {:?} and {:?}", all[i], all[j]);
            }
        }
        // insertion order of metadata does not matter
        let names = ["a", "b", "c", "d", "e", "f", "g"];
        let mut fp = None;
        for rot in 0..names.len() {
            let mut h = HashMap::with_capacity(1 << rot);
            for i in 0..names.len() {
                h.insert(names[(i + rot) % names.len()].to_string(), "x".to_string());
            }
            let sc = Arc::new(Schema::new_with_metadata(vec![Field::new("k", DataType::Utf8, false).with_metadata(h.clone())], h));
            let f = fingerprint_schema(&sc);
            ensure!(fp.get_or_insert_with(|| f.clone()) == &f, "fingerprint depends on metadata insertion order");
        }
        Ok(())
    });
}
