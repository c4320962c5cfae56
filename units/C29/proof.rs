#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::VecDeque;
verus! {
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(())
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::back](v: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r is Some && *r->0 == v@.last();
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter](o: Option<T>, p: P) -> (r: Option<T>)
    requires o is Some ==> p.requires((&o->0,))
    ensures o is None ==> r is None, o is Some && r is Some ==> r == o && p.ensures((&o->0,), true), o is Some && r is None ==> p.ensures((&o->0,), false);
// ================= DataFusion: values, columns, expressions ================================
#[derive(Debug)]
enum DataFusionError { NotImplemented(u8) }
type Result<T> = std::result::Result<T, DataFusionError>;
type DFResult<T> = Result<T>;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
enum VisitRecursion { Continue, Skip, Stop }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
enum Operator { Eq, NotEq, Lt, LtEq, Gt, GtEq, And, Or, Plus, Minus, IsDistinctFrom, BitwiseAnd, StringConcat }
impl Operator { fn eq(&self, o: &Operator) -> (r: bool) ensures r == (*self == *o) { *self == *o } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
type Tz = u8;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
enum DataType { Utf8, Int64, Boolean, Timestamp(TimeUnit, Tz), Other(u8) }
#[derive(Clone, Copy)]
enum ScalarValue { Boolean(Option<bool>), Null, List(u8, u8), IntervalYearMonth(u8), IntervalDayTime(u8), IntervalMonthDayNano(u8), Dictionary(u8, u8), Struct(u8, u8), Float32(u8), Float64(u8),
    Decimal128(u8, u8, u8), Int8(u8), Int16(u8), Int32(u8), Int64(u8), UInt8(u8), UInt16(u8), UInt32(u8), UInt64(u8), Utf8(u8), LargeUtf8(u8), Binary(u8), LargeBinary(u8), FixedSizeBinary(u8, u8), Date32(u8), Date64(u8),
    Time32Second(u8), Time32Millisecond(u8), Time64Microsecond(u8), Time64Nanosecond(u8), TimestampSecond(Option<i64>, Tz), TimestampMillisecond(Option<i64>, Tz), TimestampMicrosecond(Option<i64>, Tz), TimestampNanosecond(Option<i64>, Tz) }
uninterp spec fn okey(v: ScalarValue) -> int;
uninterp spec fn onull(v: ScalarValue) -> bool;
// the place of a value in the order of its type; timestamps of any unit share one line of nanoseconds
spec fn key(v: ScalarValue) -> int { match v {
    ScalarValue::TimestampSecond(Some(x), _) => x * 1_000_000_000, ScalarValue::TimestampMillisecond(Some(x), _) => x * 1_000_000, ScalarValue::TimestampMicrosecond(Some(x), _) => x * 1_000, ScalarValue::TimestampNanosecond(Some(x), _) => x as int,
    ScalarValue::Boolean(Some(b)) => if b { 1 } else { 0 }, _ => okey(v) } }
spec fn isnull(v: ScalarValue) -> bool { match v { ScalarValue::Null | ScalarValue::Boolean(None) => true, ScalarValue::Boolean(Some(_)) => false,
    ScalarValue::TimestampSecond(x, _) => x is None, ScalarValue::TimestampMillisecond(x, _) => x is None, ScalarValue::TimestampMicrosecond(x, _) => x is None, ScalarValue::TimestampNanosecond(x, _) => x is None, _ => onull(v) } }
spec fn ordered(v: ScalarValue) -> bool { !(v is Boolean || v is Null || v is List || v is IntervalYearMonth || v is IntervalDayTime || v is IntervalMonthDayNano || v is Dictionary || v is Struct) }
impl ScalarValue {
    #[verifier::external_body]
    fn is_null(&self) -> (r: bool) ensures r == isnull(*self) { unimplemented!() }
    #[verifier::external_body]
    fn get_datatype(&self) -> (r: DataType) { unimplemented!() }
}
#[derive(Clone, Copy)]
struct Name { x: u64 }
uninterp spec fn nid(n: Name) -> int;
spec fn TIME() -> int { 0 }
#[verifier::external_body]
fn is_time_name(n: &Name) -> (r: bool) ensures r == (nid(*n) == TIME()) { unimplemented!() }
#[derive(Clone, Copy)]
struct Column { relation: u8, name: Name }
spec fn cid(c: Column) -> int { nid(c.name) }
enum Expr { Column(Column), Literal(ScalarValue), BinaryExpr(BinaryExpr), Cast(Cast), Alias(u64), Negative(u64), ScalarVariable(u64), Case(u64), TryCast(u64), ScalarFunction(u64), ScalarUDF(u64), Exists(u64), InSubquery(u64), Wildcard,
    Like(u64), ILike(u64), SimilarTo(u64), Not(Box<Expr>), IsNotNull(Box<Expr>), IsNull(Box<Expr>), IsTrue(Box<Expr>), IsFalse(Box<Expr>), IsUnknown(Box<Expr>), IsNotTrue(Box<Expr>), IsNotFalse(Box<Expr>), IsNotUnknown(Box<Expr>), Between(u64), InList(u64) }
struct BinaryExpr { left: Box<Expr>, op: Operator, right: Box<Expr> }
struct Cast { expr: Box<Expr>, data_type: DataType }
impl Expr {
    #[verifier::external_body]
    fn clone(&self) -> (r: Expr) ensures r == *self { unimplemented!() }
}
// ================= what the filter means ==================================================
// a row: the value of every column, by name, or NULL.  Time is in nanoseconds.
type Row = spec_fn(int) -> Option<int>;
spec fn keeps(dt: DataType, c: int) -> bool { if c == TIME() { dt is Timestamp && dt->Timestamp_0 is Nanosecond } else { dt is Utf8 } }
uninterp spec fn ocast(dt: DataType, x: Option<int>) -> Option<int>;
spec fn castval(dt: DataType, c: int, x: Option<int>) -> Option<int> { if keeps(dt, c) { x } else { ocast(dt, x) } }
uninterp spec fn oval(e: Expr, r: Row) -> Option<int>;
spec fn val(e: Expr, r: Row) -> Option<int> { match e {
    Expr::Column(c) => r(cid(c)), Expr::Literal(v) => if isnull(v) { None } else { Some(key(v)) },
    Expr::Cast(c) => match *c.expr { Expr::Column(k) => castval(c.data_type, cid(k), r(cid(k))), _ => oval(e, r) }, _ => oval(e, r) } }
spec fn iscmp(op: Operator) -> bool { op is Eq || op is NotEq || op is Lt || op is LtEq || op is Gt || op is GtEq }
spec fn cmpv(op: Operator, a: int, b: int) -> bool { match op { Operator::Eq => a == b, Operator::NotEq => a != b, Operator::Lt => a < b, Operator::LtEq => a <= b, Operator::Gt => a > b, Operator::GtEq => a >= b, _ => true } }
spec fn cmp3(op: Operator, a: Option<int>, b: Option<int>) -> Option<bool> { if a is Some && b is Some { Some(cmpv(op, a->0, b->0)) } else { None } }
uninterp spec fn atom(e: Expr, r: Row) -> Option<bool>;
// SQL's three-valued logic
spec fn eval(e: Expr, r: Row) -> Option<bool> decreases e { match e {
    Expr::BinaryExpr(b) => if iscmp(b.op) { cmp3(b.op, val(*b.left, r), val(*b.right, r)) }
        else if b.op is And { let x = eval(*b.left, r); let y = eval(*b.right, r); if x == Some(false) || y == Some(false) { Some(false) } else if x is Some && y is Some { Some(true) } else { None } }
        else if b.op is Or { let x = eval(*b.left, r); let y = eval(*b.right, r); if x == Some(true) || y == Some(true) { Some(true) } else if x is Some && y is Some { Some(false) } else { None } }
        else { atom(e, r) },
    Expr::Literal(ScalarValue::Boolean(x)) => x, Expr::Literal(ScalarValue::Null) => None,
    Expr::Not(x) => match eval(*x, r) { Some(b) => Some(!b), None => None }, Expr::IsNull(x) => atom(e, r), _ => atom(e, r) } }
spec fn sat(e: Expr, r: Row) -> bool { eval(e, r) == Some(true) }

// ================= domains: the contracts proved in C07 ===================================
// a NULL value lies in the full domain only
#[verifier::external_body]
struct Range { x: u64 }
uninterp spec fn rg(r: Range, x: int) -> bool;
impl Range {
    #[verifier::external_body]
    fn eq(dt: &DataType, v: &ScalarValue) -> (r: Range) ensures forall|x: int| #[trigger] rg(r, x) <==> x == key(*v) { unimplemented!() }
    #[verifier::external_body]
    fn lt(dt: &DataType, v: &ScalarValue) -> (r: Range) ensures forall|x: int| #[trigger] rg(r, x) <==> x < key(*v) { unimplemented!() }
    #[verifier::external_body]
    fn le(dt: &DataType, v: &ScalarValue) -> (r: Range) ensures forall|x: int| #[trigger] rg(r, x) <==> x <= key(*v) { unimplemented!() }
    #[verifier::external_body]
    fn gt(dt: &DataType, v: &ScalarValue) -> (r: Range) ensures forall|x: int| #[trigger] rg(r, x) <==> x > key(*v) { unimplemented!() }
    #[verifier::external_body]
    fn ge(dt: &DataType, v: &ScalarValue) -> (r: Range) ensures forall|x: int| #[trigger] rg(r, x) <==> x >= key(*v) { unimplemented!() }
    #[verifier::external_body]
    fn ne(dt: &DataType, v: &ScalarValue) -> (r: Vec<Range>) ensures forall|x: int| #[trigger] rgs(r@, x) <==> x != key(*v) { unimplemented!() }
}
spec fn rgs(l: Seq<Range>, x: int) -> bool { exists|i: int| 0 <= i < l.len() && rg(#[trigger] l[i], x) }
#[verifier::external_body]
struct RangeValueSet { x: u64 }
#[verifier::external_body]
struct EqutableValueSet { x: u64 }
uninterp spec fn rset(s: RangeValueSet, x: int) -> bool;
uninterp spec fn eset(s: EqutableValueSet, x: int) -> bool;
enum Domain { Range(RangeValueSet), Equtable(EqutableValueSet), None, All }
spec fn dhas(d: Domain, x: Option<int>) -> bool { match d { Domain::All => true, Domain::None => false, Domain::Range(s) => x is Some && rset(s, x->0), Domain::Equtable(s) => x is Some && eset(s, x->0) } }
impl Domain {
    #[verifier::external_body]
    fn of_ranges(l: &Vec<Range>) -> (r: Result<Domain>) ensures r is Ok, forall|x: Option<int>| #[trigger] dhas(r->Ok_0, x) <==> x is Some && rgs(l@, x->0) { unimplemented!() }
    #[verifier::external_body]
    fn of_values(dt: &DataType, white: bool, l: &[&ScalarValue]) -> (r: Domain)
        ensures forall|x: Option<int>| #[trigger] dhas(r, x) <==> x is Some && white == vals(l@, x->0) { unimplemented!() }
}
spec fn vals(l: Seq<&ScalarValue>, x: int) -> bool { exists|i: int| 0 <= i < l.len() && key(*#[trigger] l[i]) == x }
#[verifier::external_body]
struct ColumnDomains { x: u64 }
// None: no row; otherwise a row satisfies the domain of every column that has one
uninterp spec fn cmap(c: ColumnDomains) -> Option<Map<int, Domain>>;
#[verifier::opaque]
spec fn chas(c: ColumnDomains, r: Row) -> bool { cmap(c) is Some && forall|k: int| #[trigger] (cmap(c)->0).dom().contains(k) ==> dhas((cmap(c)->0)[k], r(k)) }
spec fn keys(c: ColumnDomains, k: int) -> bool { cmap(c) is Some && (cmap(c)->0).dom().contains(k) }
// what a DELETE needs to tell tags from time: the columns a domain speaks about
spec fn kind(c: ColumnDomains, is_time: bool) -> bool { forall|k: int| #[trigger] keys(c, k) ==> is_time == (k == TIME()) }
impl ColumnDomains {
    #[verifier::external_body]
    fn all() -> (c: ColumnDomains) ensures forall|r: Row| #[trigger] chas(c, r), forall|k: int| !#[trigger] keys(c, k) { unimplemented!() }
    #[verifier::external_body]
    fn none() -> (c: ColumnDomains) ensures forall|r: Row| !#[trigger] chas(c, r), forall|k: int| !#[trigger] keys(c, k) { unimplemented!() }
    #[verifier::external_body]
    fn of(k: Column, d: &Domain) -> (c: ColumnDomains) ensures forall|r: Row| #[trigger] chas(c, r) <==> dhas(*d, r(cid(k))) { unimplemented!() }
    #[verifier::external_body]
    fn of_name(k: Name, d: &Domain) -> (c: ColumnDomains) ensures forall|r: Row| #[trigger] chas(c, r) <==> dhas(*d, r(nid(k))), forall|j: int| #[trigger] keys(c, j) ==> j == nid(k) { unimplemented!() }
    #[verifier::external_body]
    fn intersect(&mut self, o: &ColumnDomains) ensures forall|r: Row| #[trigger] chas(*final(self), r) <==> chas(*old(self), r) && chas(*o, r), forall|k: int| #[trigger] keys(*final(self), k) ==> keys(*old(self), k) || keys(*o, k) { unimplemented!() }
    #[verifier::external_body]
    fn column_wise_union(&mut self, o: &ColumnDomains) ensures forall|r: Row| chas(*old(self), r) || chas(*o, r) ==> #[trigger] chas(*final(self), r) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (c: ColumnDomains) ensures c == *self { unimplemented!() }
    #[verifier::external_body]
    fn is_none(&self) -> (r: bool) ensures r == (cmap(*self) is None) { unimplemented!() }
    #[verifier::external_body]
    fn is_all(&self) -> (r: bool) ensures r == (cmap(*self) is Some && forall|k: int| !#[trigger] keys(*self, k)) { unimplemented!() }
    #[verifier::external_body]
    fn domains(&self) -> (r: Option<&DomainMap>) ensures r is Some == cmap(*self) is Some, r is Some ==> mp(*r->0) == cmap(*self)->0 { unimplemented!() }
}
#[verifier::external_body]
struct DomainMap { x: u64 }
uninterp spec fn mp(m: DomainMap) -> Map<int, Domain>;
impl DomainMap {
    #[verifier::external_body]
    fn get_time(&self) -> (r: Option<&Domain>) ensures r is Some == mp(*self).dom().contains(TIME()), r is Some ==> *r->0 == mp(*self)[TIME()] { unimplemented!() }
}

// ================= comparisons ============================================================
//@extract common/models/src/predicate/transformation.rs struct NormalizedSimpleComparison
@end
spec fn iscolcast(e: Expr) -> bool { e is Column || (e is Cast && (*(e->Cast_0).expr) is Column) }
spec fn simple(l: Expr, r: Expr) -> bool { (iscolcast(l) && r is Literal) || (l is Literal && iscolcast(r)) }
// the value of the column side
spec fn colval(l: Expr, r: Expr, row: Row) -> Option<int> { if iscolcast(l) { val(l, row) } else { val(r, row) } }
spec fn colid(e: Expr) -> int { match e { Expr::Column(c) => cid(c), Expr::Cast(c) => match *c.expr { Expr::Column(k) => cid(k), _ => 0 }, _ => 0 } }
//@extract common/models/src/predicate/transformation.rs NormalizedSimpleComparison::reverse_op
@ret r
@spec
    ensures forall|a: int, b: int| iscmp(op) ==> cmpv(op, a, b) == #[trigger] cmpv(r, b, a), iscmp(op) ==> iscmp(r), (r is Eq) == (op is Eq), (r is NotEq) == (op is NotEq)
@end
//@extract common/models/src/predicate/transformation.rs NormalizedSimpleComparison::is_comparison_op
@ret r
@spec
    ensures r == iscmp(op)
@end
//@extract common/models/src/predicate/transformation.rs NormalizedSimpleComparison::is_eq_op
@ret r
@spec
    ensures r == (self.op is Eq)
@end
//@extract common/models/src/predicate/transformation.rs NormalizedSimpleComparison::is_orderable
@ret r
@spec
    ensures r == ordered(self.value)
@end
//@extract common/models/src/predicate/transformation.rs NormalizedSimpleComparison::of
@ret r
@subst /\.and_then\(\|e\| \{(.*?)\n        \}\)/ => .and_then(|e: NormalizedSimpleComparison| -> (q: Option<NormalizedSimpleComparison>) ensures q == (if isnull(e.value) { None } else { Some(e) }) {\1})
@spec
    ensures
      r is Some ==> simple(left, right) && iscmp(op) && iscmp(r->0.op) && (r->0.op is Eq) == (op is Eq) && (r->0.op is NotEq) == (op is NotEq) && !isnull(r->0.value) && cid(r->0.column) == (if iscolcast(left) { colid(left) } else { colid(right) })
        && r->0.value == (if left is Literal { left->Literal_0 } else { right->Literal_0 })
        && forall|row: Row| #[trigger] cmp3(op, val(left, row), val(right, row)) == cmp3(r->0.op, colval(left, right, row), Some(key(r->0.value))),
      r is None && iscmp(op) && simple(left, right) ==> forall|row: Row| #[trigger] cmp3(op, val(left, row), val(right, row)) is None
@end
//@extract common/models/src/predicate/transformation.rs get_range_fn
@ret r
@subst /Some\(vec!\[(Range::\w+)\(data_type, scalar_value\)\]\)/ => Some(one(\1(data_type, scalar_value)))
@spec
    ensures iscmp(*op) ==> r is Some && forall|x: int| #[trigger] rgs((r->0)@, x) <==> cmpv(*op, x, key(*scalar_value))
@end
fn one(a: Range) -> (r: Vec<Range>) ensures r@ == seq![a], forall|x: int| #[trigger] rgs(r@, x) <==> rg(a, x) { let mut v = Vec::new(); v.push(a); proof { assert(v@[0] == a); assert forall|x: int| #[trigger] rgs(v@, x) <==> rg(a, x) by { if rg(a, x) { assert(rg(v@[0], x)); } } } v }
spec fn nsat(n: NormalizedSimpleComparison, row: Row) -> bool { cmp3(n.op, row(cid(n.column)), Some(key(n.value))) == Some(true) }

// ================= query filters ==========================================================
//@extract common/models/src/predicate/transformation.rs struct RowExpressionToDomainsVisitorContext
@subst /ColumnDomains<Column>/ => ColumnDomains
@end
//@extract common/models/src/predicate/transformation.rs struct RowExpressionToDomainsVisitor
@subst /<'a>/ => 
@subst /&'a mut / => 
@end
spec fn covers(d: ColumnDomains, e: Expr) -> bool { forall|r: Row| sat(e, r) ==> #[trigger] chas(d, r) }
//@extract common/models/src/predicate/transformation.rs RowExpressionToDomainsVisitor::nsc_to_column_domains_with_range
@header impl RowExpressionToDomainsVisitor
@ret r
@subst /ColumnDomains<Column>/ => ColumnDomains
@subst /\.map\(\|r\| (.*?)\)\n/ => .map(|r: Vec<Range>| -> (d: Domain) ensures forall|x: Option<int>| #[trigger] dhas(d, x) <==> x is Some && rgs(r@, x->0) { \1 })
@subst /col\.to_owned\(\)/ => *col
@spec
    requires iscmp(nsc.op)
    ensures forall|row: Row| #[trigger] chas(r, row) <==> nsat(*nsc, row)
@end
//@extract common/models/src/predicate/transformation.rs RowExpressionToDomainsVisitor::nsc_to_domains_with_equtable
@header impl RowExpressionToDomainsVisitor
@ret r
@subst /ColumnDomains<Column>/ => ColumnDomains
@subst /col\.to_owned\(\)/ => *col
@at tail
    proof { let l = [value]@; assert(l[0] == value); }
@spec
    requires iscmp(nsc.op)
    ensures forall|row: Row| nsat(*nsc, row) ==> #[trigger] chas(r, row)
@end
//@extract common/models/src/predicate/transformation.rs RowExpressionToDomainsVisitor::construct_value_set_and_push_current_domain_stack
@header impl RowExpressionToDomainsVisitor
@subst /\.filter\(\|_\| (.*?)\)\n/ => .filter(|_n: &NormalizedSimpleComparison| -> (b: bool) ensures b == !(*left is Cast || *right is Cast) { \1 })
@subst /\.map\(\|ref nsc\| \{(.*?)\n            \}\)/ => .map(|nsc0: NormalizedSimpleComparison| -> (d: ColumnDomains) requires iscmp(nsc0.op) ensures forall|row: Row| nsat(nsc0, row) ==> #[trigger] chas(d, row) { let nsc = &nsc0; \1 })
@subst /\.or_else\(\|\| (Some\(.*?\))\);/ => .or_else(|| -> (d: Option<ColumnDomains>) ensures d is Some, forall|row: Row| #[trigger] chas(d->0, row) { \1 });
@spec
    requires iscmp(*op)
    ensures pushed1(old(ctx).current_domain_stack@, final(ctx).current_domain_stack@), forall|r: Row| cmp3(*op, val(*left, r), val(*right, r)) == Some(true) ==> #[trigger] chas(final(ctx).current_domain_stack@.last(), r)
@end
spec fn pushed1(a: Seq<ColumnDomains>, b: Seq<ColumnDomains>) -> bool { b.len() == a.len() + 1 && b.drop_last() =~= a }
// the expressions whose children are visited
spec fn followed(e: Expr) -> bool { (e is BinaryExpr && (e->BinaryExpr_0.op is And || e->BinaryExpr_0.op is Or)) || e is Column || e is Literal }
// a condition adds one domain that covers it, or it leaves no more domains than there were
spec fn effect(a: Seq<ColumnDomains>, b: Seq<ColumnDomains>, e: Expr) -> bool { b.len() <= a.len() || (pushed1(a, b) && covers(b.last(), e)) }
//@extract common/models/src/predicate/transformation.rs TreeNodeVisitor for RowExpressionToDomainsVisitor::pre_visit
@header impl RowExpressionToDomainsVisitor
@ret r
@subst /self\.ctx, left/ => &mut self.ctx, left
@spec
    ensures r is Ok && r->Ok_0 is Continue ==> *final(self) == *old(self) && followed(*expr),
      r is Ok && r->Ok_0 is Skip ==> effect(old(self).ctx.current_domain_stack@, final(self).ctx.current_domain_stack@, *expr),
      r is Ok ==> !(r->Ok_0 is Stop)
@end
//@extract common/models/src/predicate/transformation.rs TreeNodeVisitor for RowExpressionToDomainsVisitor::post_visit
@header impl RowExpressionToDomainsVisitor
@ret r
@subst /Some\(ref mut (\w+)\)/ => Some(mut \1)
@subst /d1\.to_owned\(\)/ => d1
@spec
    ensures r is Ok ==> r->Ok_0 is Continue,
     ({ let a = old(self).ctx.current_domain_stack@; let b = final(self).ctx.current_domain_stack@;
        if expr is BinaryExpr && (expr->BinaryExpr_0.op is And || expr->BinaryExpr_0.op is Or) {
            if a.len() >= 2 { pushed1(a.drop_last().drop_last(), b) && forall|row: Row| (if expr->BinaryExpr_0.op is And { chas(a.last(), row) && chas(a[a.len() - 2], row) } else { chas(a.last(), row) || chas(a[a.len() - 2], row) }) ==> #[trigger] chas(b.last(), row) }
            else { b.len() == 0 }
        } else { b == a } })
@end
proof fn lemma_and_or(b: BinaryExpr, row: Row)
    ensures b.op is And && sat(Expr::BinaryExpr(b), row) ==> sat(*b.left, row) && sat(*b.right, row), b.op is Or && sat(Expr::BinaryExpr(b), row) ==> sat(*b.left, row) || sat(*b.right, row)
{ let e = Expr::BinaryExpr(b); let x = eval(*b.left, row); let y = eval(*b.right, row);
  if b.op is And { assert(eval(e, row) == (if x == Some(false) || y == Some(false) { Some(false) } else if x is Some && y is Some { Some(true) } else { None::<bool> })); if sat(e, row) { assert(x is Some && y is Some); assert(x->0 && y->0); } }
  if b.op is Or { assert(eval(e, row) == (if x == Some(true) || y == Some(true) { Some(true) } else if x is Some && y is Some { Some(false) } else { None::<bool> })); } }
// DataFusion's TreeNode::visit: pre_visit, the children from left to right, post_visit; Skip leaves the children and post_visit out
fn visit(e: &Expr, v: &mut RowExpressionToDomainsVisitor) -> (r: Result<VisitRecursion>)
    ensures r is Ok ==> r->Ok_0 is Continue && effect(old(v).ctx.current_domain_stack@, final(v).ctx.current_domain_stack@, *e)
    decreases e
{
    match v.pre_visit(e)? { VisitRecursion::Continue => {} VisitRecursion::Skip => return Ok(VisitRecursion::Continue), VisitRecursion::Stop => return Ok(VisitRecursion::Stop) }
    let ghost s0 = v.ctx.current_domain_stack@;
    match e {
        Expr::BinaryExpr(b) => {
            match visit(&b.left, v)? { VisitRecursion::Continue => {} VisitRecursion::Skip => return Ok(VisitRecursion::Continue), VisitRecursion::Stop => return Ok(VisitRecursion::Stop) }
            let ghost s1 = v.ctx.current_domain_stack@;
            match visit(&b.right, v)? { VisitRecursion::Continue => {} VisitRecursion::Skip => return Ok(VisitRecursion::Continue), VisitRecursion::Stop => return Ok(VisitRecursion::Stop) }
            let ghost s2 = v.ctx.current_domain_stack@;
            let r = v.post_visit(e);
            proof { let s3 = v.ctx.current_domain_stack@;
                if s1.len() > s0.len() && s2.len() > s1.len() { assert(s2.drop_last().drop_last() =~= s0); assert(s2[s2.len() - 2] == s1.last());
                    assert(covers(s1.last(), *b.left) && covers(s2.last(), *b.right));
                    assert forall|row: Row| sat(*e, row) implies #[trigger] chas(s3.last(), row) by {
                        lemma_and_or(*b, row); assert(*e == Expr::BinaryExpr(*b)); assert(chas(s1.last(), row) <== sat(*b.left, row)); assert(chas(s2.last(), row) <== sat(*b.right, row));
                        assert(if b.op is And { sat(*b.left, row) && sat(*b.right, row) } else { sat(*b.left, row) || sat(*b.right, row) }); } } }
            return r;
        }
        Expr::Column(_) | Expr::Literal(_) => {}
        _ => { assert(false); }
    }
    v.post_visit(e)
}
//@extract common/models/src/predicate/transformation.rs RowExpressionToDomainsVisitor::expr_to_column_domains
@header impl RowExpressionToDomainsVisitor
@ret r
@subst /ColumnDomains<Column>/ => ColumnDomains
@subst /let mut ctx = RowExpressionToDomainsVisitorContext::default\(\);/ => let mut vis = RowExpressionToDomainsVisitor { ctx: RowExpressionToDomainsVisitorContext { current_domain_stack: VecDeque::new() } };
@subst /expr\.visit\(&mut RowExpressionToDomainsVisitor \{ ctx: &mut ctx \}\)/ => visit(expr, &mut vis)
@subst /Ok\(ctx\b/ => Ok(vis.ctx
@subst /\.unwrap_or_else\(ColumnDomains::all\)/ => .unwrap_or_else(|| -> (d: ColumnDomains) ensures forall|r: Row| #[trigger] chas(d, r) { ColumnDomains::all() })
@spec
    ensures r is Ok ==> covers(r->Ok_0, *expr)
@end

// ================= DELETE selections ======================================================
//@extract common/models/src/predicate/transformation.rs struct DeleteSelectionExpressionToDomainsVisitorContext
@subst /ColumnDomains<String>/ => ColumnDomains
@end
//@extract common/models/src/predicate/transformation.rs struct DeleteSelectionExpressionToDomainsVisitor
@subst /<'a>/ => 
@subst /&'a mut / => 
@end
type DCtx = DeleteSelectionExpressionToDomainsVisitorContext;
spec fn allhas(s: Seq<ColumnDomains>, r: Row) -> bool { forall|i: int| 0 <= i < s.len() ==> chas(#[trigger] s[i], r) }
spec fn allkind(s: Seq<ColumnDomains>, is_time: bool) -> bool { forall|i: int| 0 <= i < s.len() ==> kind(#[trigger] s[i], is_time) }
// the rows selected so far: those in every domain pushed
spec fn sel(c: DCtx, r: Row) -> bool { allhas(c.tag_domain_stack@, r) && allhas(c.time_domain_stack@, r) }
spec fn cnt(s: Seq<bool>, b: bool) -> nat decreases s.len() { if s.len() == 0 { 0 } else { cnt(s.drop_last(), b) + if s.last() == b { 1nat } else { 0nat } } }
// every flag stands for a domain of its stack; time domains speak about time only, tag domains about tags only
spec fn inv(c: DCtx) -> bool { cnt(c.is_time_domain_stack@, true) <= c.time_domain_stack@.len() && cnt(c.is_time_domain_stack@, false) <= c.tag_domain_stack@.len() && allkind(c.tag_domain_stack@, false) && allkind(c.time_domain_stack@, true) }
proof fn lemma_push(s: Seq<ColumnDomains>, d: ColumnDomains) ensures forall|r: Row| #[trigger] allhas(s.push(d), r) <==> allhas(s, r) && chas(d, r), forall|t: bool| allkind(s, t) && kind(d, t) ==> #[trigger] allkind(s.push(d), t)
{ assert forall|r: Row| #[trigger] allhas(s.push(d), r) <==> allhas(s, r) && chas(d, r) by { if allhas(s.push(d), r) { assert(s.push(d)[s.len() as int] == d); assert forall|i: int| 0 <= i < s.len() implies chas(#[trigger] s[i], r) by { assert(s.push(d)[i] == s[i]); } } } }
proof fn lemma_cntpush(s: Seq<bool>, x: bool) ensures cnt(s.push(x), true) == cnt(s, true) + if x { 1nat } else { 0nat }, cnt(s.push(x), false) == cnt(s, false) + if x { 0nat } else { 1nat }
{ assert(s.push(x).drop_last() =~= s); }
proof fn lemma_pop(s: Seq<ColumnDomains>) requires s.len() > 0 ensures s == s.drop_last().push(s.last()), forall|t: bool| allkind(s, t) ==> #[trigger] allkind(s.drop_last(), t) && kind(s.last(), t)
{ assert(s =~= s.drop_last().push(s.last())); }
proof fn lemma_cntpop(s: Seq<bool>) requires s.len() > 0 ensures s == s.drop_last().push(s.last()), cnt(s, true) == cnt(s.drop_last(), true) + if s.last() { 1nat } else { 0nat }, cnt(s, false) == cnt(s.drop_last(), false) + if s.last() { 0nat } else { 1nat }
{ assert(s =~= s.drop_last().push(s.last())); }
//@extract common/models/src/predicate/transformation.rs DeleteSelectionExpressionToDomainsVisitorContext::push_back
@log
@subst /ColumnDomains<String>/ => ColumnDomains
@at start
    proof { lemma_push(self.tag_domain_stack@, domain); lemma_push(self.time_domain_stack@, domain); lemma_cntpush(self.is_time_domain_stack@, is_time_domain); }
@spec
    requires inv(*old(self)), kind(domain, is_time_domain)
    ensures inv(*final(self)), forall|r: Row| #[trigger] sel(*final(self), r) <==> sel(*old(self), r) && chas(domain, r)
@end
//@extract common/models/src/predicate/transformation.rs DeleteSelectionExpressionToDomainsVisitorContext::try_intersect_top2_domains
@log
@subst /println!\(.*?\);/ => 
@subst /=> self\.is_time_domain_stack\.push_back\(t1\)/ => => { self.is_time_domain_stack.push_back(t1) }
@at start
    proof {
        let f = self.is_time_domain_stack@;
        if f.len() > 0 { lemma_cntpop(f); if f.len() > 1 { lemma_cntpop(f.drop_last()); } }
    }
@at after /self\.time_domain_stack\.push_back\(domains1\);/
    proof { let b = old(self).time_domain_stack@; let b1 = self.time_domain_stack@; assert(b1 =~= b.drop_last().drop_last().push(b1.last())); lemma_two(b, b1, true); }
@at after /self\.tag_domain_stack\.push_back\(domains1\);/
    proof { let b = old(self).tag_domain_stack@; let b1 = self.tag_domain_stack@; assert(b1 =~= b.drop_last().drop_last().push(b1.last())); lemma_two(b, b1, false); }
@at after /self\.is_time_domain_stack\.push_back\(t1\)/
    ; proof { assert(self.is_time_domain_stack@ =~= old(self).is_time_domain_stack@); }
@spec
    requires inv(*old(self))
    ensures inv(*final(self)), forall|r: Row| #[trigger] sel(*final(self), r) <==> sel(*old(self), r)
@end
// one domain that holds what the last two hold in their place
proof fn lemma_two(s: Seq<ColumnDomains>, t: Seq<ColumnDomains>, k: bool)
    requires s.len() >= 2, t == s.drop_last().drop_last().push(t.last()), forall|r: Row| #[trigger] chas(t.last(), r) <==> chas(s.last(), r) && chas(s.drop_last().last(), r), forall|j: int| #[trigger] keys(t.last(), j) ==> keys(s.last(), j) || keys(s.drop_last().last(), j), allkind(s, k)
    ensures forall|r: Row| #[trigger] allhas(s, r) <==> allhas(t, r), allkind(t, k)
{
    let a = s.drop_last(); let b = a.drop_last();
    lemma_pop(s); lemma_pop(a); lemma_push(a, s.last()); lemma_push(b, a.last()); lemma_push(b, t.last());
    assert forall|r: Row| #[trigger] allhas(s, r) <==> allhas(t, r) by {}
}

//@extract common/models/src/predicate/transformation.rs DeleteSelectionExpressionToDomainsVisitorContext::into_tag_and_time_domains
@subst /ColumnDomains<String>/ => ColumnDomains
@iter 0 it
@iter 1 jt
@loop 0
    invariant it.seq().len() == self.tag_domain_stack@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == self.tag_domain_stack@[k], allkind(self.tag_domain_stack@, false), kind(tag_domains, false),
        forall|r: Row| #[trigger] chas(tag_domains, r) <==> allhas(self.tag_domain_stack@.take(it.index@), r)
@loop 1
    invariant jt.seq().len() == self.time_domain_stack@.len(), forall|k: int| 0 <= k < jt.seq().len() ==> *(#[trigger] jt.seq()[k]) == self.time_domain_stack@[k], allkind(self.time_domain_stack@, true), kind(time_domains, true),
        forall|r: Row| #[trigger] chas(time_domains, r) <==> allhas(self.time_domain_stack@.take(jt.index@), r)
@at loop-start 0
    proof { let s = self.tag_domain_stack@; assert(s.take(it.index@ + 1) =~= s.take(it.index@).push(s[it.index@])); lemma_push(s.take(it.index@), s[it.index@]); assert(*domains == s[it.index@]); }
@at loop-start 1
    proof { let s = self.time_domain_stack@; assert(s.take(jt.index@ + 1) =~= s.take(jt.index@).push(s[jt.index@])); lemma_push(s.take(jt.index@), s[jt.index@]); assert(*domains == s[jt.index@]); }
@at tail
    proof { assert(self.tag_domain_stack@.take(self.tag_domain_stack@.len() as int) =~= self.tag_domain_stack@); assert(self.time_domain_stack@.take(self.time_domain_stack@.len() as int) =~= self.time_domain_stack@); }
@ret r
@spec
    requires inv(self)
    ensures forall|w: Row| #![trigger sel(self, w)] #![trigger chas(r.0, w)] #![trigger chas(r.1, w)] sel(self, w) <==> chas(r.0, w) && chas(r.1, w), kind(r.0, false), kind(r.1, true)
@end
//@extract common/models/src/predicate/transformation.rs DeleteSelectionExpressionToDomainsVisitor::nsc_to_string_domains_with_range
@header impl DeleteSelectionExpressionToDomainsVisitor
@ret r
@subst /ColumnDomains<String>/ => ColumnDomains
@subst /\.map\(\|r\| (.*?)\)\n/ => .map(|r: Vec<Range>| -> (d: Domain) ensures forall|x: Option<int>| #[trigger] dhas(d, x) <==> x is Some && rgs(r@, x->0) { \1 })
@subst /ColumnDomains::of\(col\.name\.to_owned\(\)/ => ColumnDomains::of_name(col.name
@spec
    requires iscmp(nsc.op)
    ensures forall|row: Row| #[trigger] chas(r, row) <==> nsat(*nsc, row), forall|k: int| #[trigger] keys(r, k) ==> k == cid(nsc.column)
@end
//@extract common/models/src/predicate/transformation.rs DeleteSelectionExpressionToDomainsVisitor::nsc_to_domains_with_equtable
@header impl DeleteSelectionExpressionToDomainsVisitor
@ret r
@subst /ColumnDomains<String>/ => ColumnDomains
@subst /ColumnDomains::of\(col\.name\.to_owned\(\)/ => ColumnDomains::of_name(col.name
@at tail
    proof { let l = [value]@; assert(l[0] == value); }
@spec
    requires nsc.op is Eq || nsc.op is NotEq
    ensures forall|row: Row| #[trigger] chas(r, row) <==> nsat(*nsc, row), forall|k: int| #[trigger] keys(r, k) ==> k == cid(nsc.column)
@end
//@extract common/models/src/predicate/transformation.rs DeleteSelectionExpressionToDomainsVisitor::cast_keeps_value
@header impl DeleteSelectionExpressionToDomainsVisitor
@ret r
@subst /column\.name == TIME_FIELD_NAME/ => is_time_name(&column.name)
@spec
    ensures r ==> expr is Column && keeps(*data_type, cid(expr->Column_0))
@end
//@extract common/models/src/predicate/transformation.rs DeleteSelectionExpressionToDomainsVisitor::to_nanosecond
@header impl DeleteSelectionExpressionToDomainsVisitor
@ret r
@spec
    ensures r is Some ==> key(r->0) == key(*value) && ordered(r->0) == ordered(*value) && (ists(*value) && !isnull(*value) ==> isns(r->0)) && isnull(r->0) == isnull(*value)
@end
spec fn ists(v: ScalarValue) -> bool { v is TimestampSecond || v is TimestampMillisecond || v is TimestampMicrosecond || v is TimestampNanosecond }
spec fn isns(v: ScalarValue) -> bool { v is TimestampNanosecond && v->TimestampNanosecond_0 is Some }
// what the planner guarantees: a literal compared with a column is NULL or has an order (booleans have none and no tag is one), or the comparison is = or !=
spec fn lit_ok(op: Operator, e: Expr) -> bool { e is Literal ==> isnull(e->Literal_0) || ordered(e->Literal_0) || op is Eq || op is NotEq }
//@extract common/models/src/predicate/transformation.rs DeleteSelectionExpressionToDomainsVisitor::construct_value_set_and_push_domain_stack
@header impl DeleteSelectionExpressionToDomainsVisitor
@ret r
@subst /nsc\.column\.name == TIME_FIELD_NAME/ => is_time_name(&nsc.column.name)
@subst /\.ok_or_else\(\|\| \{.*?\}\)\?/ => .ok_or(DataFusionError::NotImplemented(0))?
@spec
    requires inv(*old(ctx)), iscmp(*op), simple(*left, *right), lit_ok(*op, *left), lit_ok(*op, *right), castok(*left), castok(*right)
    ensures r is Ok ==> inv(*final(ctx)) && forall|w: Row| #[trigger] sel(*final(ctx), w) <==> sel(*old(ctx), w) && cmp3(*op, val(*left, w), val(*right, w)) == Some(true)
@end
spec fn castok(e: Expr) -> bool { e is Cast ==> (*(e->Cast_0).expr) is Column && keeps((e->Cast_0).data_type, cid((*(e->Cast_0).expr)->Column_0)) }
//@extract common/models/src/predicate/transformation.rs DeleteSelectionExpressionToDomainsVisitor::check_condition
@header impl DeleteSelectionExpressionToDomainsVisitor
@ret r
@subst /format!\(.*?\)/ => 0
@spec
    requires inv(*old(ctx))
    ensures r is Ok ==> inv(*final(ctx)) && (*expr is BinaryExpr || *expr is Literal) && forall|w: Row| #[trigger] sel(*final(ctx), w) <==> sel(*old(ctx), w) && (*expr is Literal ==> sat(*expr, w))
@end
//@extract common/models/src/predicate/transformation.rs TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor::pre_visit
@header impl DeleteSelectionExpressionToDomainsVisitor
@ret r
@log
@subst /format!\(.*?\)\)\)/ => 0))
@spec
    ensures r is Ok ==> *final(self) == *old(self) && r->Ok_0 is Continue && (*expr is Column || *expr is Literal || *expr is Cast || *expr is BinaryExpr)
@end
// a comparison is between two of these
spec fn lits_ok(e: Expr) -> bool { e is BinaryExpr && iscmp(e->BinaryExpr_0.op) ==> lit_ok(e->BinaryExpr_0.op, *e->BinaryExpr_0.left) && lit_ok(e->BinaryExpr_0.op, *e->BinaryExpr_0.right) }
//@extract common/models/src/predicate/transformation.rs TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor::post_visit
@header impl DeleteSelectionExpressionToDomainsVisitor
@ret r
@log
@subst /format!\(.*?\)\)\)/ => 0))
@subst /self\.ctx, left/ => &mut self.ctx, left
@subst /self\.ctx, right/ => &mut self.ctx, right
@subst /\(left\.as_ref\(\), right\.as_ref\(\)\)/ => (&**left, &**right)
@spec
    requires inv(old(self).ctx), lits_ok(*expr)
    ensures r is Ok ==> r->Ok_0 is Continue && inv(final(self).ctx) && (if expr is BinaryExpr {
        let b = expr->BinaryExpr_0;
        if iscmp(b.op) { !(*b.left is BinaryExpr) && !(*b.right is BinaryExpr) && castok(*b.left) && castok(*b.right) && forall|w: Row| #[trigger] sel(final(self).ctx, w) <==> sel(old(self).ctx, w) && sat(*expr, w) }
        else { b.op is And && (*b.left is BinaryExpr || *b.left is Literal) && (*b.right is BinaryExpr || *b.right is Literal) && forall|w: Row| #[trigger] sel(final(self).ctx, w) <==> sel(old(self).ctx, w) && (*b.left is Literal ==> sat(*b.left, w)) && (*b.right is Literal ==> sat(*b.right, w)) } }
      else { (*expr is Column || *expr is Literal || *expr is Cast) && forall|w: Row| #[trigger] sel(final(self).ctx, w) <==> sel(old(self).ctx, w) })
@end

// the conditions an expression adds by being visited
spec fn contrib(e: Expr, w: Row) -> bool decreases e { match e { Expr::BinaryExpr(b) => sat(e, w), Expr::Cast(c) => contrib(*c.expr, w), _ => true } }
spec fn all_lits_ok(e: Expr) -> bool decreases e { lits_ok(e) && match e { Expr::BinaryExpr(b) => all_lits_ok(*b.left) && all_lits_ok(*b.right), Expr::Cast(c) => all_lits_ok(*c.expr), _ => true } }
proof fn lemma_bin(b: BinaryExpr, w: Row)
    ensures iscmp(b.op) ==> sat(Expr::BinaryExpr(b), w) == (cmp3(b.op, val(*b.left, w), val(*b.right, w)) == Some(true)), b.op is And ==> sat(Expr::BinaryExpr(b), w) == (sat(*b.left, w) && sat(*b.right, w))
{ lemma_and_or(b, w); }
// DataFusion's TreeNode::visit
fn visit_delete(e: &Expr, v: &mut DeleteSelectionExpressionToDomainsVisitor) -> (r: Result<VisitRecursion>)
    requires inv(old(v).ctx), all_lits_ok(*e)
    ensures r is Ok ==> r->Ok_0 is Continue && inv(final(v).ctx) && forall|w: Row| #[trigger] sel(final(v).ctx, w) <==> sel(old(v).ctx, w) && contrib(*e, w)
    decreases e
{
    match v.pre_visit(e)? { VisitRecursion::Continue => {} VisitRecursion::Skip => return Ok(VisitRecursion::Continue), VisitRecursion::Stop => return Ok(VisitRecursion::Stop) }
    match e {
        Expr::BinaryExpr(b) => {
            match visit_delete(&b.left, v)? { VisitRecursion::Continue => {} VisitRecursion::Skip => return Ok(VisitRecursion::Continue), VisitRecursion::Stop => return Ok(VisitRecursion::Stop) }
            match visit_delete(&b.right, v)? { VisitRecursion::Continue => {} VisitRecursion::Skip => return Ok(VisitRecursion::Continue), VisitRecursion::Stop => return Ok(VisitRecursion::Stop) }
            let ghost c2 = v.ctx;
            let r = v.post_visit(e);
            proof { if r is Ok { assert(*e == Expr::BinaryExpr(*b));
                assert forall|w: Row| #[trigger] sel(v.ctx, w) <==> sel(old(v).ctx, w) && contrib(*e, w) by { lemma_bin(*b, w); assert(sel(c2, w) <==> sel(old(v).ctx, w) && contrib(*b.left, w) && contrib(*b.right, w)); assert(contrib(*e, w) == sat(*e, w)); lemma_cast(*b.left, w); lemma_cast(*b.right, w); } } }
            return r;
        }
        Expr::Cast(c) => { match visit_delete(&c.expr, v)? { VisitRecursion::Continue => {} VisitRecursion::Skip => return Ok(VisitRecursion::Continue), VisitRecursion::Stop => return Ok(VisitRecursion::Stop) } }
        Expr::Column(_) | Expr::Literal(_) => {}
        _ => { assert(false); }
    }
    v.post_visit(e)
}
// a column adds no condition, cast or not
proof fn lemma_cast(e: Expr, w: Row) ensures castok(e) && e is Cast ==> contrib(e, w) { if castok(e) && e is Cast { let c = e->Cast_0; assert(contrib(*c.expr, w)); } }
//@extract common/models/src/predicate/transformation.rs DeleteSelectionExpressionToDomainsVisitor::expr_to_tag_and_time_domains
@header impl DeleteSelectionExpressionToDomainsVisitor
@ret r
@subst /ColumnDomains<String>/ => ColumnDomains
@subst /let mut ctx = DeleteSelectionExpressionToDomainsVisitorContext::default\(\);/ => let mut vis = DeleteSelectionExpressionToDomainsVisitor { ctx: DeleteSelectionExpressionToDomainsVisitorContext { is_time_domain_stack: VecDeque::new(), tag_domain_stack: VecDeque::new(), time_domain_stack: VecDeque::new() } };
@subst /expr\.visit\(&mut DeleteSelectionExpressionToDomainsVisitor \{ ctx: &mut ctx \}\)/ => visit_delete(expr, &mut vis)
@subst /\(&mut ctx/ => (&mut vis.ctx
@subst /Ok\(ctx\b/ => Ok(vis.ctx
@spec
    requires all_lits_ok(*expr)
    ensures r is Ok ==> (forall|w: Row| #[trigger] sat(*expr, w) <==> chas((r->Ok_0).0, w) && chas((r->Ok_0).1, w)) && kind((r->Ok_0).0, false) && kind((r->Ok_0).1, true)
@end

// ================= time ranges ============================================================
type Timestamp = i64;
use std::ops::Bound;
spec fn above(b: Bound<int>, t: int) -> bool { match b { Bound::Included(v) => v <= t, Bound::Excluded(v) => v < t, Bound::Unbounded => true } }
spec fn below(b: Bound<int>, t: int) -> bool { match b { Bound::Included(v) => t <= v, Bound::Excluded(v) => t < v, Bound::Unbounded => true } }
//@extract common/models/src/predicate/domain.rs struct TimeRange
@derive Clone, Copy
@end
spec fn tr(r: TimeRange, t: int) -> bool { r.min_ts <= t && t <= r.max_ts }
//@extract common/models/src/predicate/domain.rs TimeRange::new
@ret r
@spec
    ensures forall|t: int| #[trigger] tr(r, t) <==> min_ts <= t <= max_ts, r.min_ts == min_ts, r.max_ts == max_ts
@end
//@extract common/models/src/predicate/domain.rs TimeRange::all
@ret r
@spec
    ensures forall|t: i64| #[trigger] tr(r, t as int)
@end
// the value a bound or an entry holds
spec fn sbound(b: Bound<&ScalarValue>) -> Bound<int> { match b { Bound::Included(v) => Bound::Included(key(*v)), Bound::Excluded(v) => Bound::Excluded(key(*v)), Bound::Unbounded => Bound::Unbounded } }
spec fn ibound(b: Bound<i64>) -> Bound<int> { match b { Bound::Included(v) => Bound::Included(v as int), Bound::Excluded(v) => Bound::Excluded(v as int), Bound::Unbounded => Bound::Unbounded } }
spec fn nsbound(b: Bound<&ScalarValue>) -> bool { match b { Bound::Included(v) => isns(*v), Bound::Excluded(v) => isns(*v), Bound::Unbounded => true } }
impl TimeRange {
    // the contract proved in C06
    #[verifier::external_body]
    fn from_bounds(b: (Bound<i64>, Bound<i64>)) -> (r: TimeRange) ensures forall|t: i64| #[trigger] tr(r, t as int) <==> above(ibound(b.0), t as int) && below(ibound(b.1), t as int) { unimplemented!() }
}
uninterp spec fn lo(r: Range) -> Bound<&'static ScalarValue>;
uninterp spec fn hi(r: Range) -> Bound<&'static ScalarValue>;
impl Range {
    #[verifier::external_body]
    fn start_bound(&self) -> (r: Bound<&ScalarValue>) ensures r == lo(*self) { unimplemented!() }
    #[verifier::external_body]
    fn end_bound(&self) -> (r: Bound<&ScalarValue>) ensures r == hi(*self) { unimplemented!() }
}
// a range is its bounds
spec fn rgwf(r: Range) -> bool { nsbound(lo(r)) && nsbound(hi(r)) && forall|x: int| #[trigger] rg(r, x) <==> above(sbound(lo(r)), x) && below(sbound(hi(r)), x) }
uninterp spec fn rlist(s: RangeValueSet) -> Seq<Range>;
impl RangeValueSet {
    #[verifier::external_body]
    fn ranges(&self) -> (r: &Vec<Range>) ensures r@ == rlist(*self), forall|x: int| #[trigger] rset(*self, x) <==> rgs(r@, x) { unimplemented!() }
}
struct ValueEntry { value: ScalarValue }
impl ValueEntry { fn value(&self) -> (r: &ScalarValue) ensures *r == self.value { &self.value } }
uninterp spec fn elist(s: EqutableValueSet) -> Seq<ValueEntry>;
uninterp spec fn white(s: EqutableValueSet) -> bool;
spec fn ehas(l: Seq<ValueEntry>, x: int) -> bool { exists|i: int| 0 <= i < l.len() && key((#[trigger] l[i]).value) == x }
impl EqutableValueSet {
    #[verifier::external_body]
    fn is_white_list(&self) -> (r: bool) ensures r == white(*self) { unimplemented!() }
    #[verifier::external_body]
    fn values(&self) -> (r: &Vec<ValueEntry>) ensures r@ == elist(*self), forall|x: int| #[trigger] eset(*self, x) <==> white(*self) == ehas(r@, x) { unimplemented!() }
}
// the bounds and values of a time domain are timestamps in nanoseconds
spec fn nsdom(d: Domain) -> bool { match d { Domain::Range(s) => forall|i: int| 0 <= i < rlist(s).len() ==> rgwf(#[trigger] rlist(s)[i]), Domain::Equtable(s) => forall|i: int| 0 <= i < elist(s).len() ==> isns((#[trigger] elist(s)[i]).value), _ => true } }
spec fn black(d: Domain) -> bool { d is Equtable && !white(d->Equtable_0) }
fn is_ts(v: &ScalarValue) -> (r: bool) ensures r == ists(*v) { matches!(v, ScalarValue::TimestampSecond(_, _) | ScalarValue::TimestampMillisecond(_, _) | ScalarValue::TimestampMicrosecond(_, _) | ScalarValue::TimestampNanosecond(_, _)) }
// ScalarValue -> i64
#[verifier::external_body]
fn raw(v: &ScalarValue) -> (r: i64) requires ists(*v) && !isnull(*v) ensures isns(*v) ==> Some(r) == v->TimestampNanosecond_0 { unimplemented!() }
spec fn trs(l: Seq<TimeRange>, t: int) -> bool { exists|i: int| 0 <= i < l.len() && tr(#[trigger] l[i], t) }
proof fn lemma_trs(l: Seq<TimeRange>, r: TimeRange) ensures forall|t: int| #[trigger] trs(l.push(r), t) <==> trs(l, t) || tr(r, t)
{ assert forall|t: int| #[trigger] trs(l.push(r), t) <==> trs(l, t) || tr(r, t) by { let p = l.push(r); if trs(l, t) { let i = choose|i: int| 0 <= i < l.len() && tr(#[trigger] l[i], t); assert(p[i] == l[i]); } if tr(r, t) { assert(p[l.len() as int] == r); } } }
proof fn lemma_rgs(l: Seq<Range>, r: Range) ensures forall|t: int| #[trigger] rgs(l.push(r), t) <==> rgs(l, t) || rg(r, t)
{ assert forall|t: int| #[trigger] rgs(l.push(r), t) <==> rgs(l, t) || rg(r, t) by { let p = l.push(r); if rgs(l, t) { let i = choose|i: int| 0 <= i < l.len() && rg(#[trigger] l[i], t); assert(p[i] == l[i]); } if rg(r, t) { assert(p[l.len() as int] == r); } } }
proof fn lemma_ehas(l: Seq<ValueEntry>, r: ValueEntry) ensures forall|t: int| #[trigger] ehas(l.push(r), t) <==> ehas(l, t) || key(r.value) == t
{ assert forall|t: int| #[trigger] ehas(l.push(r), t) <==> ehas(l, t) || key(r.value) == t by { let p = l.push(r); if ehas(l, t) { let i = choose|i: int| 0 <= i < l.len() && key((#[trigger] l[i]).value) == t; assert(p[i] == l[i]); } if key(r.value) == t { assert(p[l.len() as int] == r); } } }
fn one_range(a: TimeRange) -> (r: Vec<TimeRange>) ensures r@ == seq![a], forall|t: int| #[trigger] trs(r@, t) <==> tr(a, t) { let mut v = Vec::new(); v.push(a); proof { lemma_trs(Seq::empty(), a); assert(v@ =~= Seq::empty().push(a)); } v }
// the timestamps of a time domain
spec fn tdom(c: ColumnDomains, t: int) -> bool { cmap(c) is Some && (keys(c, TIME()) ==> dhas((cmap(c)->0)[TIME()], Some(t))) }
proof fn lemma_tdom(c: ColumnDomains, w: Row, t: int) requires kind(c, true), w(TIME()) == Some(t) ensures chas(c, w) == tdom(c, t)
{ reveal(chas); if cmap(c) is Some { assert forall|k: int| #[trigger] (cmap(c)->0).dom().contains(k) implies k == TIME() by { assert(keys(c, k)); } } }
//@extract common/models/src/predicate/utils.rs filter_to_time_ranges
@attr #[verifier::loop_isolation(false)]
@ret r
@subst /ColumnDomains<String>/ => ColumnDomains
@subst /time_domain\.get\(TIME_FIELD_NAME\)/ => time_domain.get_time()
@subst /return vec!\[TimeRange::all\(\)\]/ => return one_range(TimeRange::all())
@subst /return vec!\[\]/ => return Vec::new()
@subst /\|v: &ScalarValue\| \{/ => |v: &ScalarValue| -> (x: i64) requires isns(*v) ensures x == key(*v) {
@subst /assert!\(matches!\(v\.get_datatype\(\), ArrowDataType::Timestamp\(_, _\)\)\);/ => { let is = is_ts(v); assert(is); }
@subst /unsafe \{ i64::try_from\(v\.clone\(\)\)\.unwrap_unchecked\(\) \}/ => raw(v)
@subst /for \(_, range\) in range_set\.low_indexed_ranges\(\)\.into_iter\(\)/ => for range in range_set.ranges().iter()
@subst /for entry in vals\.entries\(\)\.into_iter\(\)/ => for entry in vals.values().iter()
@subst /\|bound: Bound<&ScalarValue>\| match bound \{(.*?)\n( *)\};/ => |bound: Bound<&ScalarValue>| -> (x: Bound<i64>) requires nsbound(bound) ensures ibound(x) == sbound(bound) { match bound { \1 } };
@subst /range\.into\(\)/ => TimeRange::from_bounds(range)
@at start
    let ghost time_domain0 = time_domain;
@iter 0 it
@iter 1 jt
@loop 0
    invariant it.seq().len() == rlist(*range_set).len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == rlist(*range_set)[k], nsdom(*domain), *domain == Domain::Range(*range_set),
        forall|t: i64| #[trigger] trs(time_ranges@, t as int) <==> rgs(rlist(*range_set).take(it.index@), t as int)
@loop 1
    invariant jt.seq().len() == elist(*vals).len(), forall|k: int| 0 <= k < jt.seq().len() ==> *(#[trigger] jt.seq()[k]) == elist(*vals)[k], nsdom(*domain), *domain == Domain::Equtable(*vals),
        forall|t: i64| #[trigger] trs(time_ranges@, t as int) <==> ehas(elist(*vals).take(jt.index@), t as int)
@at before-loop 0
    proof { assert(rlist(*range_set).take(0) =~= Seq::empty()); }
@at before-loop 1
    proof { assert(elist(*vals).take(0) =~= Seq::empty()); }
@at after /let range: &Range = range;/
    proof { let s = rlist(*range_set); let n = it.index@; assert(s.take(n + 1) =~= s.take(n).push(s[n])); lemma_rgs(s.take(n), s[n]); assert(*range == s[n]); }
    let ghost old_ranges = time_ranges@;
@at after /time_ranges\.push\(TimeRange::from_bounds\(range\)\);/
    proof { lemma_trs(old_ranges, time_ranges@.last()); assert(time_ranges@ =~= old_ranges.push(time_ranges@.last())); }
@at after /let entry: &ValueEntry = entry;/
    proof { let s = elist(*vals); let n = jt.index@; assert(s.take(n + 1) =~= s.take(n).push(s[n])); lemma_ehas(s.take(n), s[n]); assert(*entry == s[n]); }
    let ghost old_ranges = time_ranges@;
@at after /time_ranges\.push\(TimeRange::new\(ts, ts\)\);/
    proof { lemma_trs(old_ranges, time_ranges@.last()); assert(time_ranges@ =~= old_ranges.push(time_ranges@.last())); }
@at after-loop 0
    proof { let s = rlist(*range_set); assert(s.take(s.len() as int) =~= s); assert(keys(*time_domain0, TIME()) && (cmap(*time_domain0)->0)[TIME()] == Domain::Range(*range_set)); assert forall|t: i64| #[trigger] trs(time_ranges@, t as int) == tdom(*time_domain0, t as int) by { assert(rset(*range_set, t as int) == rgs(s, t as int)); } }
@at after-loop 1
    proof { let s = elist(*vals); assert(s.take(s.len() as int) =~= s); assert(keys(*time_domain0, TIME()) && (cmap(*time_domain0)->0)[TIME()] == Domain::Equtable(*vals)); assert forall|t: i64| #[trigger] trs(time_ranges@, t as int) == tdom(*time_domain0, t as int) by { assert(eset(*vals, t as int) == ehas(s, t as int)); } }
@at before /time_ranges\s*\}\s*$/
    proof { if time_ranges@.len() == 1 { lemma_trs(Seq::empty(), time_ranges@[0]); assert(time_ranges@ =~= Seq::empty().push(time_ranges@[0])); }
        assert(keys(*time_domain0, TIME()) == (cmap(*time_domain0)->0).dom().contains(TIME())); }
@spec
    requires kind(*time_domain, true), keys(*time_domain, TIME()) ==> nsdom((cmap(*time_domain)->0)[TIME()])
    ensures
      forall|t: i64| tdom(*time_domain, t as int) ==> #[trigger] trs(r@, t as int),
      !(keys(*time_domain, TIME()) && black((cmap(*time_domain)->0)[TIME()])) ==> forall|t: i64| #[trigger] trs(r@, t as int) ==> tdom(*time_domain, t as int)
@end

// ---- timestamps of another precision
//@extract common/utils/src/precision.rs enum Precision
@derive Clone, Copy
@end
spec fn in_ns(p: Precision, t: int) -> int { match p { Precision::NS => t, Precision::US => t * 1_000, Precision::MS => t * 1_000_000 } }
spec fn trunc(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
spec fn fits(x: int) -> bool { i64::MIN <= x <= i64::MAX }
//@extract common/utils/src/precision.rs fn timestamp_convert
@ret r
@spec
    ensures
        to is NS ==> r == (if fits(in_ns(from, ts as int)) { Some(in_ns(from, ts as int) as i64) } else { None }),
        from is NS ==> r == Some((match to { Precision::NS => ts as int, Precision::US => trunc(ts as int, 1_000), Precision::MS => trunc(ts as int, 1_000_000) }) as i64)
@end
//@extract query_server/query/src/execution/dml/delete_from_table.rs fn time_range_convert
@ret r
@subst /Timestamp::/ => i64::
@spec
    ensures r is Some,
      forall|t: i64| #[trigger] tr(r->0, t as int) <==> (range.min_ts == i64::MIN || range.min_ts <= in_ns(precision, t as int)) && (range.max_ts == i64::MAX || in_ns(precision, t as int) <= range.max_ts)
@end
//@helpers
}
