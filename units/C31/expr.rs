use vstd::prelude::*;
verus! {
type TskvResult<T, X> = Result<T, X>;
type Row = spec_fn(int) -> Option<int>;
#[verifier::external_body] struct ArrowError { x: u8 }
#[verifier::external_body] struct Field { x: u8 }
enum DataFusionError { ArrowError(ArrowError), Other }
#[derive(Clone, Copy)] struct SchemaRef { x: u8 }
#[derive(Clone, Copy)] struct Name { x: u8 }
impl SchemaRef {
    // the position of the column of this name
    uninterp spec fn pos(self, n: Name) -> Option<int>;
    #[verifier::external_body] fn index_of(&self, n: Name) -> (r: Result<usize, ArrowError>) ensures r is Ok <==> self.pos(n) is Some, r is Ok ==> self.pos(n) == Some(r->Ok_0 as int) { unimplemented!() }
    #[verifier::external_body] fn field_with_name(&self, n: Name) -> (r: Result<Field, ArrowError>) ensures r is Ok <==> self.pos(n) is Some { unimplemented!() }
}
// a filter: what it says of a row (a column the row lacks is null, and null is not true), the columns it uses
#[verifier::external_body] #[derive(Clone, Copy)] struct Expr { x: u8 }
#[derive(PartialEq, Eq, Clone, Copy)] enum Operator { And, Or, Eq, NotEq, Lt, Gt }
#[derive(Clone, Copy)] struct BinaryExpr { l: Expr, o: Operator, r: Expr }
#[derive(Clone, Copy)] struct Column { n: Name, i: usize }
impl Column { fn name(&self) -> (r: Name) ensures r == self.n { self.n } fn new(n: Name, i: usize) -> (r: Expr) ensures r.column() == Some(Column { n, i }) { col_expr(n, i) } }
#[verifier::external_body] fn col_expr(n: Name, i: usize) -> (r: Expr) ensures r.column() == Some(Column { n, i }) { unimplemented!() }
impl Expr {
    uninterp spec fn truth(self, w: Row) -> bool;
    uninterp spec fn size(self) -> nat;
    uninterp spec fn column(self) -> Option<Column>;
    // all its columns are of the schema; those that are have the position they have there
    uninterp spec fn within(self, s: SchemaRef) -> bool;
    uninterp spec fn placed(self, s: SchemaRef) -> bool;
    #[verifier::external_body] fn as_binary(&self) -> (r: Option<&BinaryExpr>)
        ensures r is Some ==> is_binary(*r->0, *self) && r->0.l.size() < self.size() && r->0.r.size() < self.size() { unimplemented!() }
    #[verifier::external_body] fn as_column(&self) -> (r: Option<&Column>) ensures r is Some <==> self.column() is Some, r is Some ==> *r->0 == self.column()->0 { unimplemented!() }
    // every node is visited, from the root, until the visitor says Stop
    #[verifier::external_body] fn visit(&self, v: &mut ColumnVistor) -> (r: Result<u8, DataFusionError>) ensures r is Ok ==> final(v).has_col_not_in_file == (old(v).has_col_not_in_file || !self.within(old(v).part_schema)), final(v).part_schema == old(v).part_schema { unimplemented!() }
    // every node is replaced by what the rewriter makes of it
    #[verifier::external_body] fn rewrite(self, w: &mut PredicateColumnsReassigner) -> (r: Result<Expr, DataFusionError>) ensures r is Ok ==> r->Ok_0.placed(old(w).file_schema) && forall|x: Row| #![trigger r->Ok_0.truth(x)] #![trigger self.truth(x)] r->Ok_0.truth(x) == self.truth(x) { unimplemented!() }
}
spec fn is_binary(b: BinaryExpr, e: Expr) -> bool {
    &&& b.o is And ==> forall|w: Row| #[trigger] e.truth(w) == (b.l.truth(w) && b.r.truth(w))
    &&& b.o is Or ==> forall|w: Row| #[trigger] e.truth(w) == (b.l.truth(w) || b.r.truth(w))
    &&& forall|s: SchemaRef| #[trigger] e.within(s) == (b.l.within(s) && b.r.within(s))
    &&& forall|s: SchemaRef| #[trigger] e.placed(s) == (b.l.placed(s) && b.r.placed(s))
}
impl BinaryExpr {
    fn op(&self) -> (r: Operator) ensures r == self.o { self.o }
    fn left(&self) -> (r: &Expr) ensures *r == self.l { &self.l }
    fn right(&self) -> (r: &Expr) ensures *r == self.r { &self.r }
    #[verifier::external_body] fn new(l: Expr, o: Operator, r: Expr) -> (e: Expr) ensures is_binary(BinaryExpr { l, o, r }, e) { unimplemented!() }
}
fn opt_or(a: Option<Expr>, b: Option<Expr>) -> (r: Option<Expr>) ensures r == (if a is Some { a } else { b }) { match a { Some(x) => Some(x), None => b } }
enum VisitRecursion { Continue, Skip, Stop }
// what is left of a filter: it can be evaluated on rows of the schema, and no row that passes the filter fails it
spec fn part_of(p: Expr, e: Expr, s: SchemaRef) -> bool { p.within(s) && p.placed(s) && forall|w: Row| #[trigger] e.truth(w) ==> p.truth(w) }

//@extract tskv/src/reader/utils.rs struct PredicateColumnsReassigner
@end
//@extract tskv/src/reader/utils.rs struct ColumnVistor
@end
//@extract tskv/src/reader/utils.rs TreeNodeVisitor for ColumnVistor::pre_visit
@header impl ColumnVistor
@subst /&Self::N/ => &Expr
@subst /datafusion::common::Result<VisitRecursion>/ => Result<VisitRecursion, DataFusionError>
@subst /(\w+)\.as_any\(\)\.downcast_ref::<Column>\(\)/ => \1.as_column()
@ret r
@spec
    ensures final(self).part_schema == old(self).part_schema,
        r is Ok ==> final(self).has_col_not_in_file == (old(self).has_col_not_in_file || (node.column() is Some && old(self).part_schema.pos(node.column()->0.n) is None)),
        r is Ok ==> !(r->Ok_0 is Skip) && (r->Ok_0 is Stop ==> final(self).has_col_not_in_file)
@end
//@extract tskv/src/reader/utils.rs TreeNodeRewriter for PredicateColumnsReassigner::mutate
@header impl PredicateColumnsReassigner
@subst /Arc<dyn PhysicalExpr>/ => Expr
@subst /(\w+)\.as_any\(\)\.downcast_ref::<Column>\(\)/ => \1.as_column()
@subst /Arc::new\(/ => (
@ret r
@spec
    ensures *final(self) == *old(self), r is Ok ==> (match expr.column() {
        None => r->Ok_0 == expr,
        Some(c) => match old(self).file_schema.pos(c.n) { Some(i) => r->Ok_0.column() is Some && r->Ok_0.column()->0.n == c.n && r->Ok_0.column()->0.i == i, None => r->Ok_0 == expr && old(self).full_schema.pos(c.n) is Some } })
@end
//@extract tskv/src/reader/utils.rs evaluable_part
@subst /Arc<dyn PhysicalExpr>/ => Expr
@subst /(\w+)\.as_any\(\)\.downcast_ref::<BinaryExpr>\(\)/ => \1.as_binary()
@subst /Arc::new\(/ => (
@subst /file_schema\.clone\(\)/ => *file_schema
@subst /expr\.clone\(\)/ => *expr
@subst /\.op\(\)\.to_owned\(\)/ => .op()
@subst /left\.or\(right\)/ => opt_or(left, right)
@ret r
@spec
    requires expr.placed(*file_schema)
    ensures r is Ok && r->Ok_0 is Some ==> part_of(r->Ok_0->0, *expr, *file_schema)
    decreases expr.size()
@end
struct Predicate { e: Option<Expr>, s: SchemaRef }
impl Predicate { fn schema(&self) -> (r: SchemaRef) ensures r == self.s { self.s } fn expr(&self) -> (r: Option<Expr>) ensures r == self.e { self.e } }
//@extract tskv/src/reader/utils.rs reassign_predicate_columns
@subst /Arc<dyn PhysicalExpr>/ => Expr
@subst /Arc<Predicate>/ => Predicate
@subst /(expr|file_schema)\.clone\(\)/ => \1
@ret r
@spec
    ensures r is Ok && r->Ok_0 is Some ==> pred.e is Some && part_of(r->Ok_0->0, pred.e->0, file_schema)
@end
}
fn main() {}
