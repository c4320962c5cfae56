struct TskvBatches { x: u8 }
#[derive(Clone, Copy)] struct Context { x: u8 }
enum Poll<T> { Ready(T), Pending }
fn transpose(r: TskvResult<Option<RecordBatch>>) -> (o: Option<TskvResult<RecordBatch>>)
    ensures r is Err ==> o == Some(TskvResult::<RecordBatch>::Err(r->Err_0)), r is Ok && r->Ok_0 is None ==> o is None, r is Ok && r->Ok_0 is Some ==> o == Some(TskvResult::<RecordBatch>::Ok(r->Ok_0->0))
{ match r { Err(e) => Some(Err(e)), Ok(None) => None, Ok(Some(b)) => Some(Ok(b)) } }
spec fn cells_of(cu: ColumnCursor, b: RecordBatch) -> bool { cu.column_index == tcol() && cu.values.at().len() == b.n() && forall|r: int| 0 <= r < b.n() ==> (#[trigger] cu.values.at()[r]) as int == b.cell(tcol(), r)->0 }
// the next batch of a stream whose rows left are a, with b left afterwards
spec fn next_batch(s: SchemaRef, a: Seq<R>, b: Seq<R>, rb: RecordBatch) -> bool {
    bwf(s, rb) && rb.n() > 0 && a.len() == rb.n() + b.len() && (forall|r: int| 0 <= r < rb.n() ==> #[trigger] a[r] == rr(rb, r)) && (forall|r: int| 0 <= r < b.len() ==> #[trigger] b[r] == a[rb.n() + r])
}
// what a poll of stream i gives; proved of the real poll_next in cursors.rs
spec fn polled(a: ColumnCursorStream, b: ColumnCursorStream, i: int, r: Poll<Option<TskvResult<(ColumnCursor, RecordBatch)>>>) -> bool {
    &&& b.cwf() && b.parts() == a.parts() && b.schema() == a.schema() && forall|j: int| j != i ==> #[trigger] b.rem(j) == a.rem(j)
    &&& r is Pending ==> b.rem(i) == a.rem(i)
    &&& r is Ready && r->0 is None ==> a.rem(i).len() == 0 && b.rem(i) == a.rem(i)
    &&& r is Ready && r->0 is Some && (r->0)->0 is Ok ==> ({ let x = (r->0)->0->Ok_0; x.0.offset == 0 && cells_of(x.0, x.1) && next_batch(a.schema(), a.rem(i), b.rem(i), x.1) })
}
