enum TskvError { Common, Other }
type TskvResult<T> = Result<T, TskvError>;
// a row: its time and the cell of every column
ghost struct R { t: int, f: spec_fn(int) -> Option<int> }
#[derive(Clone, Copy)] struct SchemaRef { x: u8 }
uninterp spec fn tcol() -> int;
uninterp spec fn ncols(s: SchemaRef) -> int;
struct Fields { n: usize }
impl Fields { fn len(&self) -> (r: usize) ensures r == self.n { self.n } }
impl SchemaRef { #[verifier::external_body] fn fields(&self) -> (r: Fields) ensures r.n == ncols(*self), 0 <= tcol() < ncols(*self), r.n < 0x7fff_ffff { unimplemented!() } }
struct RecordBatch { x: u8 }
struct Column { x: u8 }
impl Column { uninterp spec fn at(self) -> Seq<Option<int>>;
    #[verifier::external_body] fn is_valid(&self, r: usize) -> (b: bool) requires r < self.at().len() ensures b == (self.at()[r as int] is Some) { unimplemented!() }
    #[verifier::external_body] fn values(&self) -> (r: Times) ensures r.at().len() == self.at().len(), forall|i: int| 0 <= i < self.at().len() && self.at()[i] is Some ==> #[trigger] r.at()[i] == self.at()[i]->0 { unimplemented!() } }
impl RecordBatch {
    uninterp spec fn n(self) -> int;
    uninterp spec fn cols(self) -> int;
    uninterp spec fn cell(self, c: int, r: int) -> Option<int>;
    #[verifier::external_body] fn column(&self, c: usize) -> (r: &Column) requires c < self.cols() ensures r.at().len() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at()[i] == self.cell(c as int, i) { unimplemented!() }
    #[verifier::external_body] fn try_new(schema: SchemaRef, columns: Vec<Column>) -> (r: TskvResult<RecordBatch>)
        ensures r is Ok ==> columns.len() > 0 && r->Ok_0.cols() == columns.len() && r->Ok_0.n() == columns@[0].at().len() && forall|c: int, i: int| 0 <= c < columns.len() && 0 <= i < r->Ok_0.n() ==> #[trigger] r->Ok_0.cell(c, i) == columns@[c].at()[i] { unimplemented!() }
}
// what a batch of the schema looks like: a time in every row
spec fn bwf(s: SchemaRef, b: RecordBatch) -> bool { 0 <= tcol() < ncols(s) && b.cols() == ncols(s) && 0 <= b.n() <= usize::MAX && forall|r: int| 0 <= r < b.n() ==> (#[trigger] b.cell(tcol(), r)) is Some }
spec fn rr(b: RecordBatch, r: int) -> R { R { t: b.cell(tcol(), r)->0, f: |c: int| b.cell(c, r) } }
type Bs = Seq<(Option<usize>, RecordBatch)>;
type G = Seq<(usize, usize)>;
spec fn rv(bs: Bs, x: (usize, usize)) -> bool { x.0 < bs.len() && x.1 < bs[x.0 as int].1.n() }
spec fn rt(bs: Bs, x: (usize, usize)) -> int { bs[x.0 as int].1.cell(tcol(), x.1 as int)->0 }
spec fn rcell(bs: Bs, x: (usize, usize), c: int) -> Option<int> { bs[x.0 as int].1.cell(c, x.1 as int) }
// the row a column is taken from: the last one of the group with a value, else the first
spec fn pick(bs: Bs, g: G, c: int) -> (usize, usize) decreases g.len() { if g.len() <= 1 || rcell(bs, g.last(), c) is Some { g.last() } else { pick(bs, g.drop_last(), c) } }
spec fn grp(bs: Bs, g: G) -> bool { g.len() > 0 && (forall|i: int| 0 <= i < g.len() ==> rv(bs, #[trigger] g[i]) && rt(bs, g[i]) == rt(bs, g[0])) }
struct Log { groups: Seq<G>, e: int }
//@extract tskv/src/reader/batch_builder.rs struct BatchCursor
@derive Clone, Copy
@end
//@extract tskv/src/reader/batch_builder.rs struct BatchMergeBuilder
@subst /<T: FieldArray>/ =>
@subst /phantom: PhantomData<T>/ => g: Ghost<Log>
@end
spec fn bok0(b: BatchMergeBuilder) -> bool {
    let gs = b.g@.groups; let e = b.g@.e; let bs = b.batches@; let s = b.last_same_rows@; let n = ncols(b.schema);
    &&& 0 <= tcol() < n && b.indices.len() == n && 0 <= e <= gs.len()
    &&& forall|i: int| 0 <= i < bs.len() ==> bwf(b.schema, (#[trigger] bs[i]).1)
    &&& forall|c: int| 0 <= c < n ==> (#[trigger] b.indices@[c])@.len() == gs.len() - e
    &&& forall|c: int, j: int| 0 <= c < n && e <= j < gs.len() ==> #[trigger] b.indices@[c]@[j - e] == pick(bs, gs[j], c)
    &&& forall|j: int| 0 <= j < gs.len() ==> grp(bs, #[trigger] gs[j])
    &&& s.len() > 0 ==> grp(bs, s)
    &&& forall|i: int, j: int| 0 <= i < j < gs.len() ==> rt(bs, (#[trigger] gs[i])[0]) < rt(bs, (#[trigger] gs[j])[0])
    &&& s.len() > 0 ==> forall|i: int| 0 <= i < gs.len() ==> rt(bs, (#[trigger] gs[i])[0]) < rt(bs, s[0])
}
spec fn bok(b: BatchMergeBuilder) -> bool {
    let gs = b.g@.groups; let bs = b.batches@; let s = b.last_same_rows@;
    &&& bok0(b)
    &&& b.last is None <==> gs.len() == 0 && s.len() == 0
    &&& b.last is Some ==> rv(bs, ((b.last->0).0, (b.last->0).2)) && (b.last->0).1 == tcol() && rt(bs, ((b.last->0).0, (b.last->0).2)) == rt(bs, if s.len() > 0 { s[0] } else { gs.last()[0] })
}
// batch r holds the groups from e on: every cell is the one picked from its group
spec fn rows_of(bs: Bs, gs: Seq<G>, e: int, n: int, r: RecordBatch) -> bool {
    r.cols() == n && r.n() == gs.len() - e && forall|c: int, j: int| 0 <= c < n && e <= j < gs.len() ==> #[trigger] r.cell(c, j - e) == rcell(bs, pick(bs, gs[j], c), c)
}
