//@prelude
use std::cmp::{self, max, min, Ordering}; use std::collections::{BTreeMap, HashMap, HashSet, VecDeque}; use std::fmt::Display; use std::hash::Hash; use std::ops::{Bound as StdBound, RangeBounds}; use std::sync::Arc;
type Timestamp = i64;
macro_rules! quiet { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
mod trace { macro_rules! skip { ($($t:tt)*) => { { let _ = format!($($t)*); } } } pub(crate) use skip as trace; pub(crate) use skip as debug; pub(crate) use skip as info; pub(crate) use skip as warn; pub(crate) use skip as error; }
// ---- DataFusion stand-ins: value, column, expression, visitor
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum DataType { Null, Utf8, Int64, Float64, Boolean, Timestamp(TimeUnit, Option<u8>) }
type ArrowDataType = DataType;
impl Display for DataType { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum ScalarValue { Null, Boolean(Option<bool>), List(u8, u8), IntervalYearMonth(u8), IntervalDayTime(u8), IntervalMonthDayNano(u8), Dictionary(u8, u8), Struct(u8, u8), Float32(u8), Float64(u8), Decimal128(u8, u8, u8),
    Int8(u8), Int16(u8), Int32(u8), Int64(Option<i64>), UInt8(u8), UInt16(u8), UInt32(u8), UInt64(u8), Utf8(Option<String>), LargeUtf8(u8), Binary(u8), LargeBinary(u8), FixedSizeBinary(u8, u8), Date32(u8), Date64(u8),
    Time32Second(u8), Time32Millisecond(u8), Time64Microsecond(u8), Time64Nanosecond(u8), TimestampSecond(Option<i64>, Option<u8>), TimestampMillisecond(Option<i64>, Option<u8>), TimestampMicrosecond(Option<i64>, Option<u8>), TimestampNanosecond(Option<i64>, Option<u8>) }
use ScalarValue as SV;
impl PartialOrd for ScalarValue { fn partial_cmp(&self, o: &ScalarValue) -> Option<Ordering> { match (self, o) {
    (SV::Boolean(a), SV::Boolean(b)) => a.partial_cmp(b), (SV::Int64(a), SV::Int64(b)) => a.partial_cmp(b), (SV::Utf8(a), SV::Utf8(b)) => a.partial_cmp(b),
    (SV::TimestampSecond(a, _), SV::TimestampSecond(b, _)) => a.partial_cmp(b), (SV::TimestampMillisecond(a, _), SV::TimestampMillisecond(b, _)) => a.partial_cmp(b),
    (SV::TimestampMicrosecond(a, _), SV::TimestampMicrosecond(b, _)) => a.partial_cmp(b), (SV::TimestampNanosecond(a, _), SV::TimestampNanosecond(b, _)) => a.partial_cmp(b), _ => None } } }
impl ScalarValue {
    fn is_null(&self) -> bool { matches!(self, SV::Null | SV::Boolean(None) | SV::Int64(None) | SV::Utf8(None) | SV::TimestampSecond(None, _) | SV::TimestampMillisecond(None, _) | SV::TimestampMicrosecond(None, _) | SV::TimestampNanosecond(None, _)) }
    fn get_datatype(&self) -> DataType { match self { SV::Boolean(_) => DataType::Boolean, SV::Int64(_) => DataType::Int64, SV::Utf8(_) => DataType::Utf8, SV::TimestampSecond(_, t) => DataType::Timestamp(TimeUnit::Second, *t), SV::TimestampMillisecond(_, t) => DataType::Timestamp(TimeUnit::Millisecond, *t),
        SV::TimestampMicrosecond(_, t) => DataType::Timestamp(TimeUnit::Microsecond, *t), SV::TimestampNanosecond(_, t) => DataType::Timestamp(TimeUnit::Nanosecond, *t), _ => DataType::Null } }
}
impl TryFrom<ScalarValue> for i64 { type Error = (); fn try_from(v: ScalarValue) -> std::result::Result<i64, ()> { match v { SV::Int64(Some(x)) | SV::TimestampSecond(Some(x), _) | SV::TimestampMillisecond(Some(x), _) | SV::TimestampMicrosecond(Some(x), _) | SV::TimestampNanosecond(Some(x), _) => Ok(x), _ => Err(()) } } }
impl Display for ScalarValue { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Operator { Eq, NotEq, Lt, LtEq, Gt, GtEq, And, Or, Plus, IsDistinctFrom, StringConcat }
impl Display for Operator { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Column { relation: Option<u8>, name: String }
impl Display for Column { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.name) } }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct BinaryExpr { left: Box<Expr>, op: Operator, right: Box<Expr> }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Cast { expr: Box<Expr>, data_type: DataType }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Between { x: u8 }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum Expr { Column(Column), Literal(ScalarValue), BinaryExpr(BinaryExpr), Cast(Cast), Alias(Box<Expr>), Like(u8), ILike(u8), SimilarTo(u8), Not(Box<Expr>), IsNotNull(Box<Expr>), IsNull(Box<Expr>), IsTrue(Box<Expr>), IsFalse(Box<Expr>),
    IsUnknown(Box<Expr>), IsNotTrue(Box<Expr>), IsNotFalse(Box<Expr>), IsNotUnknown(Box<Expr>), Between(Between), InList { expr: Box<Expr>, list: Vec<Expr>, negated: bool } }
impl Display for Expr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { Expr::Column(c) => write!(f, "{c}"), Expr::Literal(v) => write!(f, "{v}"), Expr::BinaryExpr(b) => write!(f, "({} {} {})", b.left, b.op, b.right), Expr::Cast(c) => write!(f, "CAST({} AS {})", c.expr, c.data_type), e => write!(f, "{e:?}") } } }
#[derive(Debug)]
enum DataFusionError { NotImplemented(String), Plan(String), Internal(String), Execution(String) }
type Result<T> = std::result::Result<T, DataFusionError>; type DFResult<T> = Result<T>;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum VisitRecursion { Continue, Skip, Stop }
trait TreeNodeVisitor { type N; fn pre_visit(&mut self, node: &Self::N) -> Result<VisitRecursion>; fn post_visit(&mut self, _node: &Self::N) -> Result<VisitRecursion> { Ok(VisitRecursion::Continue) } }
impl Expr {
    fn children(&self) -> Vec<&Expr> { match self { Expr::BinaryExpr(b) => vec![&b.left, &b.right], Expr::Cast(c) => vec![&c.expr], Expr::Alias(e) | Expr::Not(e) | Expr::IsNotNull(e) | Expr::IsNull(e) | Expr::IsTrue(e) | Expr::IsFalse(e) | Expr::IsUnknown(e) | Expr::IsNotTrue(e) | Expr::IsNotFalse(e) | Expr::IsNotUnknown(e) => vec![e],
        Expr::InList { expr, list, .. } => std::iter::once(&**expr).chain(list.iter()).collect(), _ => vec![] } }
    fn visit<V: TreeNodeVisitor<N = Expr>>(&self, v: &mut V) -> Result<VisitRecursion> {
        match v.pre_visit(self)? { VisitRecursion::Continue => {} VisitRecursion::Skip => return Ok(VisitRecursion::Continue), VisitRecursion::Stop => return Ok(VisitRecursion::Stop) }
        for c in self.children() { match c.visit(v)? { VisitRecursion::Continue => {} VisitRecursion::Skip => return Ok(VisitRecursion::Continue), VisitRecursion::Stop => return Ok(VisitRecursion::Stop) } }
        v.post_visit(self)
    }
}
#[derive(Debug)]
struct ModelError(String);
struct InternalSnafu<T> { err: T }
impl<T: ToString> InternalSnafu<T> { fn build(self) -> ModelError { ModelError(self.err.to_string()) } fn fail<X>(self) -> ModelResult<X> { Err(self.build()) } }
type ModelResult<T> = std::result::Result<T, ModelError>;
//@extract common/models/src/schema/mod.rs const TIME_FIELD_NAME
@end
//@extract common/models/src/predicate/domain.rs enum Bound
@derive Debug, Clone, PartialEq, PartialOrd, Ord, Eq
@end
//@extract common/models/src/predicate/domain.rs struct Marker
@derive Debug, Clone, Eq
@end
//@extract common/models/src/predicate/domain.rs impl From<&'a Marker> for Bound
@end
//@extract common/models/src/predicate/domain.rs impl Marker
@end
//@extract common/models/src/predicate/domain.rs impl PartialEq for Marker
@end
//@extract common/models/src/predicate/domain.rs impl Ord for Marker
@end
//@extract common/models/src/predicate/domain.rs impl PartialOrd for Marker
@end
//@extract common/models/src/predicate/domain.rs struct Range
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl RangeBounds<ScalarValue> for Range
@end
//@extract common/models/src/predicate/domain.rs impl Range
@end
//@extract common/models/src/predicate/domain.rs struct ValueEntry
@derive Debug, Clone, PartialEq, Eq, Hash
@end
//@extract common/models/src/predicate/domain.rs impl ValueEntry
@end
//@extract common/models/src/predicate/domain.rs struct RangeValueSet
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl RangeValueSet
@end
//@extract common/models/src/predicate/domain.rs struct EqutableValueSet
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl EqutableValueSet
@end
//@extract common/models/src/predicate/domain.rs enum Domain
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl Domain
@end
//@extract common/models/src/predicate/domain.rs struct ColumnDomains
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl ColumnDomains
@end
//@extract common/models/src/predicate/domain.rs impl Display for Range
@opt
@end
//@extract common/models/src/predicate/domain.rs impl Display for RangeValueSet
@opt
@end
//@extract common/models/src/predicate/domain.rs impl Display for EqutableValueSet
@opt
@end
//@extract common/models/src/predicate/domain.rs impl Display for Domain
@opt
@end
//@extract common/models/src/predicate/domain.rs impl Display for ColumnDomains
@opt
@end
//@extract common/models/src/predicate/domain.rs impl Display for ValueEntry
@opt
@end
//@extract common/models/src/predicate/domain.rs impl Display for Marker
@opt
@end
//@extract common/models/src/predicate/domain.rs impl Display for Bound
@opt
@end
//@extract common/models/src/predicate/domain.rs struct TimeRange
@derive Default, Debug, Clone, Copy, PartialEq, Eq, Hash
@end
//@extract common/models/src/predicate/domain.rs impl From<(StdBound<i64>,StdBound<i64>)> for TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl From<(Timestamp,Timestamp)> for TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl PartialOrd for TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl Ord for TimeRange
@end
//@extract common/models/src/predicate/domain.rs struct TimeRanges
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl TimeRanges
@end
//@extract common/models/src/predicate/domain.rs impl From<(Timestamp,Timestamp)> for TimeRanges
@end
//@extract common/models/src/predicate/transformation.rs struct RowExpressionToDomainsVisitorContext
@derive Clone, Default
@end
//@extract common/models/src/predicate/transformation.rs struct NormalizedSimpleComparison
@end
//@extract common/models/src/predicate/transformation.rs impl NormalizedSimpleComparison
@end
//@extract common/models/src/predicate/transformation.rs struct RowExpressionToDomainsVisitor
@end
//@extract common/models/src/predicate/transformation.rs get_range_fn
@end
//@extract common/models/src/predicate/transformation.rs impl TreeNodeVisitor for RowExpressionToDomainsVisitor
@end
//@extract common/models/src/predicate/transformation.rs impl RowExpressionToDomainsVisitor
@end
//@extract common/models/src/predicate/transformation.rs struct DeleteSelectionExpressionToDomainsVisitorContext
@derive Clone, Default
@end
//@extract common/models/src/predicate/transformation.rs impl DeleteSelectionExpressionToDomainsVisitorContext
@subst /println!/ => quiet!
@end
//@extract common/models/src/predicate/transformation.rs struct DeleteSelectionExpressionToDomainsVisitor
@end
//@extract common/models/src/predicate/transformation.rs impl TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor
@end
//@extract common/models/src/predicate/transformation.rs impl DeleteSelectionExpressionToDomainsVisitor
@end
mod utils { use super::*; use std::ops::Bound;
//@extract common/models/src/predicate/utils.rs filter_to_time_ranges
@subst /^(pub )?fn/ => pub fn
@end
}
use utils::filter_to_time_ranges;
//@extract common/utils/src/precision.rs enum Precision
@derive Debug, Clone, Copy, PartialEq, Eq, Hash
@end
//@extract common/utils/src/precision.rs fn timestamp_convert
@end
//@extract query_server/query/src/execution/dml/delete_from_table.rs fn time_range_convert
@opt
@end
// ---- the part of DELETE's execution between the precision and the predicate
#[derive(Debug)]
struct QueryError(String);
impl From<DataFusionError> for QueryError { fn from(e: DataFusionError) -> QueryError { QueryError(format!("{e:?}")) } }
impl From<ModelError> for QueryError { fn from(e: ModelError) -> QueryError { QueryError(format!("{e:?}")) } }
struct InvalidParamSnafu { reason: String }
impl InvalidParamSnafu { fn build(self) -> QueryError { QueryError(self.reason) } }
struct ModelsSnafu;
trait Context<T> { fn context(self, s: ModelsSnafu) -> std::result::Result<T, QueryError>; }
impl<T> Context<T> for ModelResult<T> { fn context(self, _: ModelsSnafu) -> std::result::Result<T, QueryError> { Ok(self?) } }
struct ResolvedPredicate { time_ranges: Arc<TimeRanges>, tags: ColumnDomains<String> }
impl ResolvedPredicate { fn new(time_ranges: Arc<TimeRanges>, tags: ColumnDomains<String>, _: Option<u8>) -> ModelResult<ResolvedPredicate> { Ok(ResolvedPredicate { time_ranges, tags }) } }
//@extract query_server/query/src/execution/dml/delete_from_table.rs DMLDefinitionTask for DeleteFromTableTask::execute
@header none
@subst /^.*?let precision = [^;]*;(.*?)trace::info!.*$/ => fn predicate(selection: &Option<Expr>, precision: Precision) -> std::result::Result<ResolvedPredicate, QueryError> { \1 Ok(predicate) }
@end
//@helpers

// ================= the reference: SQL's three-valued logic over a row ====================
// a row: tags a and b, field i, field f (boolean), time in nanoseconds
#[derive(Debug, Clone, Hash)]
struct RowV { a: Option<String>, b: Option<String>, i: Option<i64>, f: Option<bool>, time: i64 }
fn null() -> SV { SV::Null }
fn col(r: &RowV, n: &str) -> SV { match n { "a" => SV::Utf8(r.a.clone()), "b" => SV::Utf8(r.b.clone()), "i" => SV::Int64(r.i), "f" => SV::Boolean(r.f), _ => SV::TimestampNanosecond(Some(r.time), None) } }
fn num(v: &SV) -> Option<i128> { match v { SV::Int64(Some(x)) => Some(*x as i128), SV::Boolean(Some(b)) => Some(*b as i128), SV::TimestampNanosecond(Some(x), _) => Some(*x as i128), SV::TimestampMicrosecond(Some(x), _) => Some(*x as i128 * 1_000), SV::TimestampMillisecond(Some(x), _) => Some(*x as i128 * 1_000_000), SV::TimestampSecond(Some(x), _) => Some(*x as i128 * 1_000_000_000), _ => None } }
fn cmpv(a: &SV, b: &SV) -> Option<Ordering> { if a.is_null() || b.is_null() { return None; } match (a, b) { (SV::Utf8(x), SV::Utf8(y)) => Some(x.cmp(y)), _ => Some(num(a)?.cmp(&num(b)?)) } }
fn value(e: &Expr, r: &RowV) -> SV { match e { Expr::Column(c) => col(r, &c.name), Expr::Literal(v) => v.clone(),
    Expr::Cast(c) => { let v = value(&c.expr, r); if v.is_null() { return null(); } match (&v, &c.data_type) {
        (SV::Utf8(_), DataType::Utf8) => v, (SV::Utf8(Some(s)), DataType::Int64) => SV::Int64(s.parse().ok()), (SV::Int64(Some(x)), DataType::Utf8) => SV::Utf8(Some(x.to_string())), (SV::Int64(Some(x)), DataType::Boolean) => SV::Boolean(Some(*x != 0)),
        (SV::Boolean(Some(x)), DataType::Int64) => SV::Int64(Some(*x as i64)), (SV::TimestampNanosecond(Some(x), _), DataType::Int64) => SV::Int64(Some(*x)), (SV::TimestampNanosecond(Some(x), _), DataType::Timestamp(u, _)) => match u { TimeUnit::Nanosecond => v, TimeUnit::Microsecond => SV::TimestampMicrosecond(Some(x / 1_000), None), TimeUnit::Millisecond => SV::TimestampMillisecond(Some(x / 1_000_000), None), TimeUnit::Second => SV::TimestampSecond(Some(x / 1_000_000_000), None) },
        (SV::TimestampNanosecond(Some(x), _), DataType::Utf8) => SV::Utf8(Some(x.to_string())), (a, t) if a.get_datatype() == *t => v, _ => null() } }
    e => SV::Boolean(eval(e, r)) } }
fn eval(e: &Expr, r: &RowV) -> Option<bool> { match e {
    Expr::BinaryExpr(b) => match b.op {
        Operator::And => { let (x, y) = (eval(&b.left, r), eval(&b.right, r)); if x == Some(false) || y == Some(false) { Some(false) } else if x.is_none() || y.is_none() { None } else { Some(true) } }
        Operator::Or => { let (x, y) = (eval(&b.left, r), eval(&b.right, r)); if x == Some(true) || y == Some(true) { Some(true) } else if x.is_none() || y.is_none() { None } else { Some(false) } }
        Operator::IsDistinctFrom => { let (x, y) = (value(&b.left, r), value(&b.right, r)); Some(if x.is_null() || y.is_null() { x.is_null() != y.is_null() } else { cmpv(&x, &y) != Some(Ordering::Equal) }) }
        op => { let o = cmpv(&value(&b.left, r), &value(&b.right, r))?; Some(match op { Operator::Eq => o.is_eq(), Operator::NotEq => o.is_ne(), Operator::Lt => o.is_lt(), Operator::LtEq => o.is_le(), Operator::Gt => o.is_gt(), Operator::GtEq => o.is_ge(), _ => return None }) } },
    Expr::Literal(SV::Boolean(b)) => *b, Expr::Literal(_) => None, Expr::Column(c) => match col(r, &c.name) { SV::Boolean(b) => b, _ => None },
    Expr::Cast(_) => match value(e, r) { SV::Boolean(b) => b, _ => None }, Expr::Alias(x) => eval(x, r),
    Expr::Not(x) => eval(x, r).map(|b| !b), Expr::IsNull(x) => Some(value(x, r).is_null()), Expr::IsNotNull(x) => Some(!value(x, r).is_null()),
    Expr::IsTrue(x) => Some(eval(x, r) == Some(true)), Expr::IsFalse(x) => Some(eval(x, r) == Some(false)), Expr::IsUnknown(x) => Some(eval(x, r).is_none()), Expr::IsNotTrue(x) => Some(eval(x, r) != Some(true)), Expr::IsNotFalse(x) => Some(eval(x, r) != Some(false)), Expr::IsNotUnknown(x) => Some(eval(x, r).is_some()),
    Expr::InList { expr, list, negated } => { let v = value(expr, r); if v.is_null() { return None; } let hit = list.iter().any(|l| cmpv(&v, &value(l, r)) == Some(Ordering::Equal)); Some(hit != *negated) }
    _ => None } }
// membership as the storage reads it; a NULL lies in the full domain only
fn has(d: &Domain, v: &SV) -> bool { match d { Domain::All => true, _ if v.is_null() => false, Domain::None => false,
    Domain::Range(s) => s.low_indexed_ranges().into_iter().any(|(_, r)| RangeBounds::<ScalarValue>::contains(r, v)),
    Domain::Equtable(s) => s.entries().into_iter().any(|e| e.value() == v) == s.is_white_list() } }
fn b(l: Expr, op: Operator, r: Expr) -> Expr { Expr::BinaryExpr(BinaryExpr { left: Box::new(l), op, right: Box::new(r) }) }
fn c(n: &str) -> Expr { Expr::Column(Column { relation: None, name: n.to_string() }) }
fn cast(e: Expr, t: DataType) -> Expr { Expr::Cast(Cast { expr: Box::new(e), data_type: t }) }
fn lit(v: SV) -> Expr { Expr::Literal(v) }
fn utf(s: &str) -> SV { SV::Utf8(Some(s.to_string())) }
const CMP: [Operator; 6] = [Operator::Eq, Operator::NotEq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq];
const STR: [&str; 5] = ["", "1", "10", "9", "z"];
// nanoseconds around multiples of the coarser units, below and above zero
const T: [i64; 12] = [-2_000_001_000, -2_000_000_000, -1_999_999_999, -1_001, -1_000, -1, 0, 1, 999, 1_000, 1_000_001, 2_000_000_000];
fn lit_for(r: &mut Rng, n: &str) -> SV { if r.below(12) == 0 { return match n { "a" | "b" => SV::Utf8(None), "i" => SV::Int64(None), "f" => SV::Boolean(None), _ => SV::TimestampNanosecond(None, None) }; }
    match n { "a" | "b" => utf(&r.pick(&STR)), "i" => SV::Int64(Some(r.below(5) as i64 - 2)), "f" => SV::Boolean(Some(r.below(2) == 0)), _ => SV::TimestampNanosecond(Some(r.pick(&T)), None) } }
fn swap(r: &mut Rng, x: Expr, op: Operator, y: Expr) -> Expr { if r.below(3) == 0 { b(y, op, x) } else { b(x, op, y) } }
fn gen(r: &mut Rng, depth: u64) -> Expr {
    let n = r.pick(&["a", "b", "i", "f", "time"]);
    let k = if depth == 0 { r.below(12) } else { r.below(24) };
    let op = r.pick(&CMP);
    match k {
        0..=6 => { let v = lit_for(r, n); swap(r, c(n), op, lit(v)) }
        7 => { let (t, v) = match (n, r.below(2)) { ("a" | "b", 0) => (DataType::Int64, SV::Int64(Some(r.below(11) as i64))), ("i", 0) => (DataType::Utf8, utf(&r.pick(&STR))), ("i", _) => (DataType::Boolean, SV::Boolean(Some(r.below(2) == 0))), ("f", _) => (DataType::Int64, SV::Int64(Some(r.below(2) as i64))), ("time", 0) => (DataType::Int64, SV::Int64(Some(r.pick(&T)))), ("time", _) => (DataType::Timestamp(TimeUnit::Microsecond, None), SV::TimestampMicrosecond(Some(r.below(5) as i64 - 2), None)), _ => (DataType::Utf8, utf(&r.pick(&STR))) }; swap(r, cast(c(n), t), op, lit(v)) }
        8 => c("f"), 9 => lit(match r.below(4) { 0 => SV::Boolean(Some(true)), 1 => SV::Boolean(Some(false)), 2 => SV::Boolean(None), _ => SV::Null }),
        10 => { let m = if n == "a" { "b" } else if n == "b" { "a" } else { n }; b(c(n), if r.below(5) == 0 { Operator::IsDistinctFrom } else { op }, c(m)) }
        11 => { let l = (0..r.below(3)).map(|_| lit(lit_for(r, n))).filter(|e| !matches!(e, Expr::Literal(v) if v.is_null())).collect(); Expr::InList { expr: Box::new(c(n)), list: l, negated: r.below(2) == 0 } }
        12..=16 => { let (x, y) = (gen(r, depth - 1), gen(r, depth - 1)); b(x, Operator::And, y) }
        17..=19 => { let (x, y) = (gen(r, depth - 1), gen(r, depth - 1)); b(x, Operator::Or, y) }
        20 => { let (x, y) = (gen(r, depth - 1), gen(r, depth - 1)); b(x, op, y) }
        21 => { let x = gen(r, depth - 1); swap(r, x, op, lit(SV::Boolean(Some(true)))) }
        22 => { let x = Box::new(gen(r, depth - 1)); match r.below(8) { 0 => Expr::IsTrue(x), 1 => Expr::IsFalse(x), 2 => Expr::IsUnknown(x), 3 => Expr::IsNotTrue(x), 4 => Expr::IsNotFalse(x), 5 => Expr::IsNotUnknown(x), 6 => Expr::Alias(x), _ => Expr::Not(x) } }
        _ => { let x = Box::new(c(n)); if r.below(2) == 0 { Expr::IsNull(x) } else { Expr::IsNotNull(x) } }
    }
}
// selections of DELETE: mostly what it supports
fn gen_delete(r: &mut Rng, depth: u64) -> Expr {
    let n = r.pick(&["a", "b", "time", "time"]); let op = r.pick(&CMP);
    match if depth == 0 { r.below(10) } else { r.below(20) } {
        0..=5 => { let v = if n == "time" && r.below(2) == 0 { let t = r.pick(&T); match r.below(3) { 0 => SV::TimestampMicrosecond(Some(t / 1_000), None), 1 => SV::TimestampMillisecond(Some(t / 1_000_000), None), _ => SV::TimestampSecond(Some(t / 1_000_000_000), None) } } else { lit_for(r, n) }; swap(r, c(n), op, lit(v)) }
        6 => { let (t, v) = match (n, r.below(3)) { ("time", 0) => (DataType::Int64, SV::Int64(Some(r.pick(&T)))), ("time", 1) => (DataType::Timestamp(TimeUnit::Millisecond, None), SV::TimestampMillisecond(Some(r.below(5) as i64 - 2), None)), ("time", _) => (DataType::Timestamp(TimeUnit::Nanosecond, None), SV::TimestampNanosecond(Some(r.pick(&T)), None)), (_, 0) => (DataType::Int64, SV::Int64(Some(r.below(11) as i64))), _ => (DataType::Utf8, utf(&r.pick(&STR))) }; swap(r, cast(c(n), t), op, lit(v)) }
        7 => lit(match r.below(5) { 0 => SV::Boolean(Some(false)), 1 => SV::Boolean(None), 2 => SV::Null, _ => SV::Boolean(Some(true)) }),
        8 => gen(r, 0), 9 => { let v = lit_for(r, n); b(c(n), op, lit(v)) }
        18 => { let (x, y) = (gen_delete(r, depth - 1), gen_delete(r, depth - 1)); b(x, if r.below(2) == 0 { Operator::Or } else { op }, y) }
        _ => { let (x, y) = (gen_delete(r, depth - 1), gen_delete(r, depth - 1)); b(x, Operator::And, y) }
    }
}
fn fields(e: &Expr) -> bool { match e { Expr::Column(c) => c.name == "i" || c.name == "f", e => e.children().iter().any(|x| fields(x)) } }
fn rows(r: &mut Rng, n: u64) -> Vec<RowV> { (0..n).map(|_| RowV { a: if r.below(5) == 0 { None } else { Some(r.pick(&STR).to_string()) }, b: if r.below(5) == 0 { None } else { Some(r.pick(&STR).to_string()) }, i: if r.below(4) == 0 { None } else { Some(r.below(5) as i64 - 2) }, f: match r.below(3) { 0 => None, x => Some(x == 1) },
    time: { let t = r.pick(&T); t + r.below(3) as i64 - 1 } }).collect() }
fn query(e: &Expr, rows: &[RowV]) -> std::result::Result<(), String> {
    let d = match RowExpressionToDomainsVisitor::expr_to_column_domains(e) { Ok(d) => d, Err(x) => return Err(format!("{x:?}")) };
    for r in rows { if eval(e, r) == Some(true) && !d.domains().map_or(false, |m| m.iter().all(|(k, d)| has(d, &col(r, &k.name)))) { return Err(format!("row {r:?} satisfies the filter but not the domains {d:?}")); } }
    Ok(())
}
fn delete(e: &Expr, rows: &[RowV]) -> std::result::Result<(), String> {
    for (p, u) in [(Precision::NS, 1), (Precision::US, 1_000), (Precision::MS, 1_000_000)] {
        let d = match predicate(&Some(e.clone()), p) { Ok(d) => d, Err(QueryError(m)) if m.contains("NotImplemented") => return Ok(()), Err(e) => return Err(format!("{e:?}")) };
        for r in rows {
            let stored = r.time / u; let mut r = r.clone(); r.time = stored * u;
            let tags = d.tags.domains().map_or(false, |m| m.iter().all(|(k, d)| has(d, &col(&r, k))));
            let got = tags && d.time_ranges.contains(stored); let want = eval(e, &r) == Some(true);
            if got != want { return Err(format!("{p:?} database: row {r:?} is {}deleted", if got { "" } else { "not " })); }
        }
    }
    Ok(())
}
fn time_range(a: i64, z: i64, p: Precision, u: i128, ts: &[i64]) -> std::result::Result<(), String> {
    let (lo, hi) = (b(c("time"), Operator::GtEq, lit(SV::TimestampNanosecond(Some(a), None))), b(c("time"), Operator::LtEq, lit(SV::TimestampNanosecond(Some(z), None))));
    let e = match (a == i64::MIN, z == i64::MAX) { (true, true) => None, (true, _) => Some(hi), (_, true) => Some(lo), _ => Some(b(lo, Operator::And, hi)) };
    let d = predicate(&e, p).map_err(|e| format!("{e:?}"))?;
    for t in ts { let n = *t as i128 * u; let want = (a == i64::MIN || a as i128 <= n) && (z == i64::MAX || n <= z as i128); if d.time_ranges.contains(*t) != want { return Err(format!("timestamp {t} is {}in {:?}", if want { "not " } else { "" }, d.time_ranges)); } }
    Ok(())
}
fn main() {
    let mut h = H::new(); let mut r = h.rng(29);
    for op in CMP { for n in ["a", "i", "f", "time"] { for _ in 0..200 { let v = lit_for(&mut r, n); let rs = rows(&mut r, 30);
        for e in [b(c(n), op, lit(v.clone())), b(lit(v.clone()), op, c(n))] { h.case("query", hash(&(&e, rs[0].time)), &|| format!("{e}"), &mut || query(&e, &rs)); if !fields(&e) { h.case("delete", hash(&(&e, rs[0].time)), &|| format!("{e}"), &mut || delete(&e, &rs)); } } } } }
    for _ in 0..h.scale(40_000, 3_000_000) {
        let d = r.below(4); let rs = rows(&mut r, 30);
        let e = gen(&mut r, d); h.case("query", hash(&e), &|| format!("{e}"), &mut || query(&e, &rs));
        let e = gen_delete(&mut r, d); if !fields(&e) { h.case("delete", hash(&e), &|| format!("{e}"), &mut || delete(&e, &rs)); }
        let (p, u) = r.pick(&[(Precision::NS, 1), (Precision::US, 1_000), (Precision::MS, 1_000_000)]);
        let pickt = |r: &mut Rng| match r.below(8) { 0 => i64::MIN, 1 => i64::MAX, 2 | 3 => r.word() as i64, _ => r.pick(&T) };
        let (a, z) = (pickt(&mut r), pickt(&mut r));
        let mut ts = vec![0, i64::MIN, i64::MAX]; for x in [a, z] { for k in -2..=2 { ts.push((x as i128 / u) as i64 + if (x as i128 / u) as i64 > i64::MAX - 3 || ((x as i128 / u) as i64) < i64::MIN + 3 { 0 } else { k }); } }
        h.case("time_range", hash(&(a, z, u as i64)), &|| format!("[{a}, {z}] in {p:?}"), &mut || time_range(a, z, p, u, &ts));
    }
    h.done();
}
