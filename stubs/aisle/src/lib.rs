//! Offline stand-in for the `aisle` crate, which tonbo depends on by git URL and which is not
//! available in this sandbox.  It offers exactly the API surface tonbo uses:
//!
//! * the predicate AST (`Expr`, `CmpOp`);
//! * `RowFilter`: an exact, SQL three-valued evaluation of an `Expr` as a Parquet row filter;
//! * `Pruner` / `PruneRequest`: *sound* pruning (a row group or page is dropped only when its
//!   statistics or bloom filter prove that no row in it can satisfy the predicate).
use std::cmp::Ordering;
use std::collections::HashMap;
use std::future::Future;
use std::sync::Arc;

use arrow_array::{Array, ArrayRef, BooleanArray, RecordBatch};
use arrow_schema::{ArrowError, Schema, SchemaRef};
use datafusion_common::ScalarValue;
use parquet::arrow::arrow_reader::statistics::StatisticsConverter;
use parquet::arrow::arrow_reader::{ArrowPredicate, RowSelection, RowSelector};
use parquet::arrow::ProjectionMask;
use parquet::bloom_filter::Sbbf;
use parquet::file::metadata::ParquetMetaData;
use parquet::schema::types::SchemaDescriptor;

/// Comparison operators.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum CmpOp {
    Eq,
    NotEq,
    Lt,
    LtEq,
    Gt,
    GtEq,
}

/// Predicate AST.
#[derive(Debug, Clone, PartialEq)]
#[non_exhaustive]
pub enum Expr {
    True,
    False,
    Cmp { column: String, op: CmpOp, value: ScalarValue },
    Between { column: String, low: ScalarValue, high: ScalarValue, inclusive: bool },
    InList { column: String, values: Vec<ScalarValue> },
    BloomFilterEq { column: String, value: ScalarValue },
    BloomFilterInList { column: String, values: Vec<ScalarValue> },
    StartsWith { column: String, prefix: String },
    IsNull { column: String, negated: bool },
    And(Vec<Expr>),
    Or(Vec<Expr>),
    Not(Box<Expr>),
}

impl Expr {
    fn cmp(column: impl Into<String>, op: CmpOp, value: ScalarValue) -> Self {
        Expr::Cmp { column: column.into(), op, value }
    }
    pub fn eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Eq, value)
    }
    pub fn not_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::NotEq, value)
    }
    pub fn lt(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Lt, value)
    }
    pub fn lt_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::LtEq, value)
    }
    pub fn gt(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Gt, value)
    }
    pub fn gt_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::GtEq, value)
    }
    pub fn between(
        column: impl Into<String>,
        low: ScalarValue,
        high: ScalarValue,
        inclusive: bool,
    ) -> Self {
        Expr::Between { column: column.into(), low, high, inclusive }
    }
    pub fn in_list(column: impl Into<String>, values: Vec<ScalarValue>) -> Self {
        Expr::InList { column: column.into(), values }
    }
    pub fn starts_with(column: impl Into<String>, prefix: impl Into<String>) -> Self {
        Expr::StartsWith { column: column.into(), prefix: prefix.into() }
    }
    pub fn is_null(column: impl Into<String>) -> Self {
        Expr::IsNull { column: column.into(), negated: false }
    }
    pub fn is_not_null(column: impl Into<String>) -> Self {
        Expr::IsNull { column: column.into(), negated: true }
    }
    pub fn and(parts: Vec<Expr>) -> Self {
        Expr::And(parts)
    }
    pub fn or(parts: Vec<Expr>) -> Self {
        Expr::Or(parts)
    }
    #[allow(clippy::should_implement_trait)]
    pub fn not(expr: Expr) -> Self {
        Expr::Not(Box::new(expr))
    }

    fn columns<'a>(&'a self, out: &mut Vec<&'a str>) {
        match self {
            Expr::True | Expr::False => {}
            Expr::Cmp { column, .. }
            | Expr::Between { column, .. }
            | Expr::InList { column, .. }
            | Expr::BloomFilterEq { column, .. }
            | Expr::BloomFilterInList { column, .. }
            | Expr::StartsWith { column, .. }
            | Expr::IsNull { column, .. } => out.push(column),
            Expr::And(v) | Expr::Or(v) => v.iter().for_each(|e| e.columns(out)),
            Expr::Not(e) => e.columns(out),
        }
    }
}

// ---------------------------------------------------------------- exact row evaluation

/// Compare two scalars; numeric types are widened. `None` when either is null or incomparable.
fn scalar_cmp(a: &ScalarValue, b: &ScalarValue) -> Option<Ordering> {
    if a.is_null() || b.is_null() {
        return None;
    }
    if a.data_type() == b.data_type() {
        return a.partial_cmp(b);
    }
    if let (Some(x), Some(y)) = (as_i128(a), as_i128(b)) {
        return Some(x.cmp(&y));
    }
    if let (Some(x), Some(y)) = (as_str(a), as_str(b)) {
        return Some(x.cmp(y));
    }
    if let (Some(x), Some(y)) = (as_bin(a), as_bin(b)) {
        return Some(x.cmp(y));
    }
    if let (Some(x), Some(y)) = (as_f64(a), as_f64(b)) {
        return Some(x.total_cmp(&y));
    }
    None
}

fn as_i128(v: &ScalarValue) -> Option<i128> {
    use ScalarValue::*;
    Some(match v {
        Int8(Some(x)) => *x as i128,
        Int16(Some(x)) => *x as i128,
        Int32(Some(x)) => *x as i128,
        Int64(Some(x)) => *x as i128,
        UInt8(Some(x)) => *x as i128,
        UInt16(Some(x)) => *x as i128,
        UInt32(Some(x)) => *x as i128,
        UInt64(Some(x)) => *x as i128,
        _ => return None,
    })
}
fn as_f64(v: &ScalarValue) -> Option<f64> {
    use ScalarValue::*;
    Some(match v {
        Float32(Some(x)) => *x as f64,
        Float64(Some(x)) => *x,
        other => as_i128(other)? as f64,
    })
}
fn as_str(v: &ScalarValue) -> Option<&str> {
    use ScalarValue::*;
    match v {
        Utf8(Some(s)) | LargeUtf8(Some(s)) | Utf8View(Some(s)) => Some(s),
        _ => None,
    }
}
fn as_bin(v: &ScalarValue) -> Option<&[u8]> {
    use ScalarValue::*;
    match v {
        Binary(Some(s)) | LargeBinary(Some(s)) | BinaryView(Some(s)) => Some(s),
        FixedSizeBinary(_, Some(s)) => Some(s),
        _ => None,
    }
}

fn cmp_holds(op: CmpOp, ord: Ordering) -> bool {
    match op {
        CmpOp::Eq => ord == Ordering::Equal,
        CmpOp::NotEq => ord != Ordering::Equal,
        CmpOp::Lt => ord == Ordering::Less,
        CmpOp::LtEq => ord != Ordering::Greater,
        CmpOp::Gt => ord == Ordering::Greater,
        CmpOp::GtEq => ord != Ordering::Less,
    }
}

fn eval(expr: &Expr, batch: &RecordBatch, row: usize) -> Result<Option<bool>, ArrowError> {
    let get = |column: &str| -> Result<ScalarValue, ArrowError> {
        let idx = batch.schema().index_of(column)?;
        ScalarValue::try_from_array(batch.column(idx), row)
            .map_err(|e| ArrowError::ComputeError(e.to_string()))
    };
    Ok(match expr {
        Expr::True => Some(true),
        Expr::False => Some(false),
        Expr::Cmp { column, op, value } => {
            scalar_cmp(&get(column)?, value).map(|o| cmp_holds(*op, o))
        }
        Expr::Between { column, low, high, inclusive } => {
            let v = get(column)?;
            let (lo, hi) = if *inclusive { (CmpOp::GtEq, CmpOp::LtEq) } else { (CmpOp::Gt, CmpOp::Lt) };
            and3(
                scalar_cmp(&v, low).map(|o| cmp_holds(lo, o)),
                scalar_cmp(&v, high).map(|o| cmp_holds(hi, o)),
            )
        }
        Expr::InList { column, values } => {
            let v = get(column)?;
            let mut acc = Some(false);
            for candidate in values {
                acc = or3(acc, scalar_cmp(&v, candidate).map(|o| o == Ordering::Equal));
            }
            acc
        }
        Expr::BloomFilterEq { column, value } => {
            scalar_cmp(&get(column)?, value).map(|o| o == Ordering::Equal)
        }
        Expr::BloomFilterInList { column, values } => {
            let v = get(column)?;
            let mut acc = Some(false);
            for candidate in values {
                acc = or3(acc, scalar_cmp(&v, candidate).map(|o| o == Ordering::Equal));
            }
            acc
        }
        Expr::StartsWith { column, prefix } => {
            let v = get(column)?;
            as_str(&v).map(|s| s.starts_with(prefix.as_str()))
        }
        Expr::IsNull { column, negated } => Some(get(column)?.is_null() != *negated),
        Expr::And(parts) => {
            let mut acc = Some(true);
            for p in parts {
                acc = and3(acc, eval(p, batch, row)?);
            }
            acc
        }
        Expr::Or(parts) => {
            let mut acc = Some(false);
            for p in parts {
                acc = or3(acc, eval(p, batch, row)?);
            }
            acc
        }
        Expr::Not(p) => eval(p, batch, row)?.map(|b| !b),
    })
}

fn and3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
fn or3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(true), _) | (_, Some(true)) => Some(true),
        (Some(false), Some(false)) => Some(false),
        _ => None,
    }
}

/// Exact Parquet row filter.
pub struct RowFilter {
    expr: Expr,
    mask: ProjectionMask,
}

impl RowFilter {
    pub fn new(expr: Expr, schema: &SchemaDescriptor) -> Self {
        let mut cols = Vec::new();
        expr.columns(&mut cols);
        let roots: Vec<usize> = schema
            .root_schema()
            .get_fields()
            .iter()
            .enumerate()
            .filter(|(_, f)| cols.contains(&f.name()))
            .map(|(i, _)| i)
            .collect();
        let mask = ProjectionMask::roots(schema, roots);
        Self { expr, mask }
    }
}

impl ArrowPredicate for RowFilter {
    fn projection(&self) -> &ProjectionMask {
        &self.mask
    }
    fn evaluate(&mut self, batch: RecordBatch) -> Result<BooleanArray, ArrowError> {
        (0..batch.num_rows())
            .map(|row| eval(&self.expr, &batch, row).map(|v| Some(v == Some(true))))
            .collect::<Result<BooleanArray, _>>()
    }
}

// ---------------------------------------------------------------- sound pruning

/// Source of bloom filters for a Parquet file.
#[allow(async_fn_in_trait)]
pub trait AsyncBloomFilterProvider {
    fn bloom_filter(
        &mut self,
        row_group_idx: usize,
        column_idx: usize,
    ) -> impl Future<Output = Option<Sbbf>>;

    fn bloom_filters_batch<'a>(
        &'a mut self,
        requests: &'a [(usize, usize)],
    ) -> impl Future<Output = HashMap<(usize, usize), Sbbf>> + 'a;
}

/// Pruning outcome.
#[derive(Debug, Clone)]
pub struct PruneResult {
    row_groups: Vec<usize>,
    row_selection: Option<RowSelection>,
}

impl PruneResult {
    pub fn row_groups(&self) -> &[usize] {
        &self.row_groups
    }
    pub fn row_selection(&self) -> Option<&RowSelection> {
        self.row_selection.as_ref()
    }
}

/// Error type of [`Pruner::try_new`].
#[derive(Debug)]
pub struct PrunerError;
impl std::fmt::Display for PrunerError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("pruner error")
    }
}
impl std::error::Error for PrunerError {}

/// Reusable pruner for one schema.
#[derive(Debug, Clone)]
pub struct Pruner {
    schema: SchemaRef,
}

impl Pruner {
    pub fn try_new(schema: SchemaRef) -> Result<Self, PrunerError> {
        Ok(Self { schema })
    }
    pub async fn prune_ir_with_bloom_provider<P: AsyncBloomFilterProvider>(
        &self,
        metadata: &ParquetMetaData,
        exprs: &[Expr],
        provider: &mut P,
    ) -> PruneResult {
        prune(metadata, &self.schema, exprs, Some(provider)).await
    }
}

/// One-shot pruning request.
pub struct PruneRequest<'a> {
    metadata: &'a ParquetMetaData,
    schema: &'a Schema,
    exprs: Vec<Expr>,
    bloom: bool,
}

impl<'a> PruneRequest<'a> {
    pub fn new(metadata: &'a ParquetMetaData, schema: &'a Schema) -> Self {
        Self { metadata, schema, exprs: Vec::new(), bloom: false }
    }
    pub fn with_predicate(mut self, expr: &Expr) -> Self {
        self.exprs.push(expr.clone());
        self
    }
    pub fn enable_page_index(self, _on: bool) -> Self {
        self
    }
    pub fn enable_bloom_filter(mut self, on: bool) -> Self {
        self.bloom = on;
        self
    }
    pub async fn prune_async<P: AsyncBloomFilterProvider>(self, provider: &mut P) -> PruneResult {
        let provider = if self.bloom { Some(provider) } else { None };
        prune(self.metadata, self.schema, &self.exprs, provider).await
    }
}

/// Min/max/null facts about one container (row group or page) of one column.
#[derive(Clone)]
struct Facts {
    min: Option<ScalarValue>,
    max: Option<ScalarValue>,
    nulls: Option<u64>,
    rows: u64,
}

/// May some row of the container satisfy `expr`?  (`true` whenever in doubt.)
fn may_match(expr: &Expr, facts: &dyn Fn(&str) -> Option<Facts>) -> bool {
    let range = |column: &str, lo: Option<(&ScalarValue, bool)>, hi: Option<(&ScalarValue, bool)>| {
        let Some(f) = facts(column) else { return true };
        if f.nulls == Some(f.rows) && f.rows > 0 {
            return false; // all null: comparisons are never true
        }
        if let (Some((lo, incl)), Some(max)) = (lo, f.max.as_ref()) {
            if !max.is_null() {
                match scalar_cmp(max, lo) {
                    Some(Ordering::Less) => return false,
                    Some(Ordering::Equal) if !incl => return false,
                    _ => {}
                }
            }
        }
        if let (Some((hi, incl)), Some(min)) = (hi, f.min.as_ref()) {
            if !min.is_null() {
                match scalar_cmp(min, hi) {
                    Some(Ordering::Greater) => return false,
                    Some(Ordering::Equal) if !incl => return false,
                    _ => {}
                }
            }
        }
        true
    };
    match expr {
        Expr::True => true,
        Expr::False => false,
        Expr::Cmp { column, op, value } => {
            if value.is_null() {
                return false;
            }
            match op {
                CmpOp::Eq => range(column, Some((value, true)), Some((value, true))),
                CmpOp::NotEq => true,
                CmpOp::Lt => range(column, None, Some((value, false))),
                CmpOp::LtEq => range(column, None, Some((value, true))),
                CmpOp::Gt => range(column, Some((value, false)), None),
                CmpOp::GtEq => range(column, Some((value, true)), None),
            }
        }
        Expr::Between { column, low, high, inclusive } => {
            if low.is_null() || high.is_null() {
                return false;
            }
            range(column, Some((low, *inclusive)), Some((high, *inclusive)))
        }
        Expr::InList { column, values } | Expr::BloomFilterInList { column, values } => values
            .iter()
            .filter(|v| !v.is_null())
            .any(|v| range(column, Some((v, true)), Some((v, true)))),
        Expr::BloomFilterEq { column, value } => {
            range(column, Some((value, true)), Some((value, true)))
        }
        Expr::StartsWith { column, prefix } => {
            let Some(f) = facts(column) else { return true };
            if let Some(max) = f.max.as_ref().and_then(as_str) {
                if max < prefix.as_str() {
                    return false;
                }
            }
            if let Some(min) = f.min.as_ref().and_then(as_str) {
                if min > prefix.as_str() && !min.starts_with(prefix.as_str()) {
                    return false;
                }
            }
            true
        }
        Expr::IsNull { column, negated } => {
            let Some(f) = facts(column) else { return true };
            match f.nulls {
                Some(0) if !*negated => false,
                Some(n) if *negated && n == f.rows => false,
                _ => true,
            }
        }
        Expr::And(parts) => parts.iter().all(|p| may_match(p, facts)),
        Expr::Or(parts) => parts.iter().any(|p| may_match(p, facts)),
        Expr::Not(_) => true,
    }
}

fn scalar_at(array: &ArrayRef, idx: usize) -> Option<ScalarValue> {
    if array.is_null(idx) {
        return None;
    }
    ScalarValue::try_from_array(array, idx).ok()
}

async fn prune<P: AsyncBloomFilterProvider>(
    metadata: &ParquetMetaData,
    schema: &Schema,
    exprs: &[Expr],
    provider: Option<&mut P>,
) -> PruneResult {
    let expr = Expr::And(exprs.to_vec());
    let parquet_schema = metadata.file_metadata().schema_descr();
    let mut cols = Vec::new();
    expr.columns(&mut cols);
    cols.sort_unstable();
    cols.dedup();

    // Row-group statistics.
    let mut rg_facts: HashMap<String, Vec<Facts>> = HashMap::new();
    for col in &cols {
        let Ok(conv) = StatisticsConverter::try_new(col, schema, parquet_schema) else { continue };
        let (Ok(mins), Ok(maxs), Ok(nulls)) = (
            conv.row_group_mins(metadata.row_groups().iter()),
            conv.row_group_maxes(metadata.row_groups().iter()),
            conv.row_group_null_counts(metadata.row_groups().iter()),
        ) else {
            continue;
        };
        let facts = (0..metadata.num_row_groups())
            .map(|i| Facts {
                min: scalar_at(&mins, i),
                max: scalar_at(&maxs, i),
                nulls: if nulls.is_null(i) { None } else { Some(nulls.value(i)) },
                rows: metadata.row_group(i).num_rows() as u64,
            })
            .collect();
        rg_facts.insert((*col).to_string(), facts);
    }
    let mut row_groups: Vec<usize> = (0..metadata.num_row_groups())
        .filter(|&i| may_match(&expr, &|c: &str| rg_facts.get(c).map(|v| v[i].clone())))
        .collect();

    // Bloom filters for equality conjuncts.
    if let Some(provider) = provider {
        let mut eqs: Vec<(usize, &ScalarValue)> = Vec::new();
        collect_eqs(&expr, &mut |column, value| {
            // A literal of another type hashes differently: it says nothing about the column.
            let same_type = schema
                .field_with_name(column)
                .is_ok_and(|f| f.data_type() == &value.data_type());
            if !same_type {
                return;
            }
            if let Some(idx) = parquet_schema
                .columns()
                .iter()
                .position(|c| c.path().parts().len() == 1 && c.name() == column)
            {
                eqs.push((idx, value));
            }
        });
        if !eqs.is_empty() {
            let requests: Vec<(usize, usize)> = row_groups
                .iter()
                .flat_map(|rg| eqs.iter().map(move |(c, _)| (*rg, *c)))
                .collect();
            let filters = provider.bloom_filters_batch(&requests).await;
            row_groups.retain(|rg| {
                eqs.iter().all(|(c, v)| match filters.get(&(*rg, *c)) {
                    Some(f) => bloom_may_contain(f, v),
                    None => true,
                })
            });
        }
    }

    // Page index: row selection over the surviving row groups.
    let row_selection = page_selection(metadata, schema, &expr, &cols, &row_groups);
    PruneResult { row_groups, row_selection }
}

fn collect_eqs<'a>(expr: &'a Expr, f: &mut dyn FnMut(&'a str, &'a ScalarValue)) {
    match expr {
        Expr::Cmp { column, op: CmpOp::Eq, value } if !value.is_null() => f(column, value),
        Expr::BloomFilterEq { column, value } if !value.is_null() => f(column, value),
        Expr::And(parts) => parts.iter().for_each(|p| collect_eqs(p, f)),
        _ => {}
    }
}

fn bloom_may_contain(f: &Sbbf, v: &ScalarValue) -> bool {
    match v {
        ScalarValue::Utf8(Some(s)) => f.check(&s.as_str()),
        ScalarValue::Int32(Some(x)) => f.check(x),
        ScalarValue::Int64(Some(x)) => f.check(x),
        _ => true,
    }
}

fn page_selection(
    metadata: &ParquetMetaData,
    schema: &Schema,
    expr: &Expr,
    cols: &[&str],
    row_groups: &[usize],
) -> Option<RowSelection> {
    let column_index = metadata.column_index()?;
    let offset_index = metadata.offset_index()?;
    let parquet_schema = metadata.file_metadata().schema_descr();
    let mut selectors: Vec<RowSelector> = Vec::new();
    let mut pruned = false;
    for &rg in row_groups {
        let rows = metadata.row_group(rg).num_rows() as usize;
        // row -> facts per column, as page boundaries per column
        let mut pages: HashMap<String, (Vec<usize>, Vec<Facts>)> = HashMap::new();
        let mut cuts: Vec<usize> = vec![0, rows];
        for col in cols {
            let Ok(conv) = StatisticsConverter::try_new(col, schema, parquet_schema) else { continue };
            let Some(idx) = conv.parquet_column_index() else { continue };
            let rg_indices = [rg];
            let (Ok(mins), Ok(maxs), Ok(nulls)) = (
                conv.data_page_mins(column_index, offset_index, rg_indices.iter()),
                conv.data_page_maxes(column_index, offset_index, rg_indices.iter()),
                conv.data_page_null_counts(column_index, offset_index, rg_indices.iter()),
            ) else {
                continue;
            };
            let starts: Vec<usize> = offset_index[rg][idx]
                .page_locations()
                .iter()
                .map(|l| l.first_row_index as usize)
                .collect();
            if starts.len() != mins.len() {
                continue;
            }
            let facts = (0..starts.len())
                .map(|i| {
                    let end = starts.get(i + 1).copied().unwrap_or(rows);
                    Facts {
                        min: scalar_at(&mins, i),
                        max: scalar_at(&maxs, i),
                        nulls: if nulls.is_null(i) { None } else { Some(nulls.value(i)) },
                        rows: (end - starts[i]) as u64,
                    }
                })
                .collect();
            cuts.extend(starts.iter().copied());
            pages.insert((*col).to_string(), (starts, facts));
        }
        cuts.sort_unstable();
        cuts.dedup();
        for w in cuts.windows(2) {
            let keep = may_match(expr, &|c: &str| {
                let (starts, facts) = pages.get(c)?;
                let i = starts.partition_point(|s| *s <= w[0]).checked_sub(1)?;
                // Facts are per page; null facts only apply to the whole page.
                let mut f = facts[i].clone();
                if f.nulls != Some(0) && f.nulls != Some(f.rows) {
                    f.nulls = None;
                }
                Some(f)
            });
            let n = w[1] - w[0];
            if keep {
                selectors.push(RowSelector::select(n));
            } else {
                pruned = true;
                selectors.push(RowSelector::skip(n));
            }
        }
    }
    if pruned {
        Some(RowSelection::from(selectors))
    } else {
        None
    }
}

#[allow(dead_code)]
fn _assert_send(_: &Arc<Pruner>) {}
