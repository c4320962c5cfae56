use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include cursor.inc
//@include builder.inc
//@include cursors.inc
// a stream of batches: the schema and the rows that are left
#[verifier::external_body] struct Stream { x: u8 }
impl Stream { uninterp spec fn rows(self) -> Seq<R>; uninterp spec fn sch(self) -> SchemaRef; }
spec fn given(s: SchemaRef, a: Seq<R>, b: Seq<R>, rb: RecordBatch) -> bool {
    bwf(s, rb) && a.len() == rb.n() + b.len() && (forall|r: int| 0 <= r < rb.n() ==> #[trigger] a[r] == rr(rb, r)) && (forall|r: int| 0 <= r < b.len() ==> #[trigger] b[r] == a[rb.n() + r])
}
#[verifier::external_body] fn poll_at(v: &mut Vec<Stream>, i: usize, cx: Context) -> (r: Poll<Option<TskvResult<RecordBatch>>>)
    requires i < old(v).len()
    ensures final(v).len() == old(v).len(), forall|j: int| 0 <= j < old(v).len() && j != i ==> #[trigger] final(v)@[j] == old(v)@[j], final(v)@[i as int].sch() == old(v)@[i as int].sch(),
        ({ let a = old(v)@[i as int].rows(); let b = final(v)@[i as int].rows();
           &&& r is Pending ==> b == a
           &&& r is Ready && r->0 is None ==> a.len() == 0 && b == a
           &&& r is Ready && r->0 is Some && (r->0)->0 is Ok ==> given(old(v)@[i as int].sch(), a, b, (r->0)->0->Ok_0) })
{ unimplemented!() }
impl RecordBatch { #[verifier::external_body] fn num_rows(&self) -> (r: usize) ensures r == self.n() { unimplemented!() } }
// the column of that name: the time, for every schema read
#[verifier::external_body] fn column_indexes(v: &Vec<Stream>, name: &str) -> (r: TskvResult<Vec<usize>>) ensures r is Ok ==> r->Ok_0.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] r->Ok_0@[i] == tcol() { unimplemented!() }
fn and_then_cursor(c: &mut ColumnCursorStream, p: Option<TskvResult<RecordBatch>>, stream_idx: usize) -> (r: Option<TskvResult<(ColumnCursor, RecordBatch)>>)
    requires old(c).cwf(), stream_idx < old(c).streams.0.len(), p is Some && p->0 is Ok ==> bwf(old(c).schema(), p->0->Ok_0)
    ensures *final(c) == *old(c), r is None <==> p is None, r is Some && r->0 is Ok ==> p is Some && p->0 is Ok && r->0->Ok_0.1 == p->0->Ok_0 && r->0->Ok_0.0.offset == 0 && cells_of(r->0->Ok_0.0, r->0->Ok_0.1)
{ match p { None => None, Some(Err(e)) => Some(Err(e)), Some(Ok(batch)) => { let idx = c.time_column_idx[stream_idx]; proof { assert(c.streams.0@[stream_idx as int].sch() == c.schema()); } match c.convert_batch(&batch, idx) { Ok(cursor) => Some(Ok((cursor, batch))), Err(e) => Some(Err(e)) } } } }
//@extract tskv/src/reader/partitioned_stream.rs struct FusedStreams
@subst /Fuse<SendableSchemableTskvRecordBatchStream>/ => Stream
@end
//@extract tskv/src/reader/partitioned_stream.rs struct ColumnCursorStream
@subst /<T: FieldArray>/ =>
@subst /phantom: PhantomData<fn\(T\) -> T>,?/ =>
@end
impl ColumnCursorStream {
    spec fn parts(self) -> int { self.streams.0.len() as int }
    spec fn schema(self) -> SchemaRef { self.streams.0@[0].sch() }
    spec fn rem(self, i: int) -> Seq<R> { if 0 <= i < self.streams.0.len() { self.streams.0@[i].rows() } else { Seq::empty() } }
    spec fn cwf(self) -> bool { self.time_column_idx.len() == self.streams.0.len() && forall|i: int| 0 <= i < self.streams.0.len() ==> (#[trigger] self.streams.0@[i]).sch() == self.schema() && self.time_column_idx@[i] == tcol() }
}
//@extract tskv/src/reader/sort_merge.rs ColumnCursor::new
@header impl ColumnCursor
@subst /<A: FieldArray<Values = T>>/ =>
@subst /array: &A/ => array: &Column
@ret r
@spec
    ensures r.offset == 0, r.column_index == column_idx, r.values.at().len() == array.at().len(), forall|i: int| 0 <= i < array.at().len() && array.at()[i] is Some ==> #[trigger] r.values.at()[i] == array.at()[i]->0
@end
//@extract tskv/src/reader/partitioned_stream.rs FusedStreams::poll_next
@header impl FusedStreams
@attr #[verifier::exec_allows_no_decreases_clause]
@subst /cx: &mut Context<'_>/ => cx: Context
@subst /self\.0\[(\w+)\]\.poll_next_unpin\(cx\)/ => poll_at(&mut self.0, \1, cx)
@subst /match (?:futures::)?ready!\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\) \{/ => let polled = match \1 { Poll::Ready(v) => v, Poll::Pending => { return Poll::Pending; } }; assert(self.0.len() == s0.0.len()); match polled {
@subst /match polled \{\s*Some\(Ok\((\w+)\)\) if ([^{}]*?) => continue,\s*(\w+) => return Poll::Ready\(\3\),\s*\}/ => let again = match &polled { Some(Ok(\1)) => \2, _ => false }; if again { continue; } return Poll::Ready(polled);
@ret res
@spec
    requires stream_idx < old(self).0.len()
    ensures final(self).0.len() == old(self).0.len(), forall|j: int| 0 <= j < old(self).0.len() && j != stream_idx ==> #[trigger] final(self).0@[j] == old(self).0@[j], final(self).0@[stream_idx as int].sch() == old(self).0@[stream_idx as int].sch(),
        ({ let a = old(self).0@[stream_idx as int].rows(); let b = final(self).0@[stream_idx as int].rows();
           &&& res is Pending ==> b =~= a
           &&& res is Ready && res->0 is None ==> a.len() == 0 && b =~= a
           &&& res is Ready && res->0 is Some && (res->0)->0 is Ok ==> next_batch(old(self).0@[stream_idx as int].sch(), a, b, (res->0)->0->Ok_0) })
@at start
    let ghost s0 = *self; let ghost i0 = stream_idx as int;
@loop 0
    invariant s0 == *old(self), i0 == stream_idx, i0 < s0.0.len(), self.0.len() == s0.0.len(), forall|j: int| 0 <= j < s0.0.len() && j != i0 ==> #[trigger] self.0@[j] == s0.0@[j], self.0@[i0].sch() == s0.0@[i0].sch(), self.0@[i0].rows() =~= s0.0@[i0].rows()
@end
//@extract tskv/src/reader/partitioned_stream.rs ColumnCursorStream::new
@header impl ColumnCursorStream
@subst /Vec<SendableSchemableTskvRecordBatchStream>/ => Vec<Stream>
@subst /streams\s*\.iter\(\)\s*\.map\(\|(\w+)\| \{\s*\1\.schema\(\)\s*\.column_with_name\(column_name\).*?\.collect::<TskvResult<Vec<usize>>>\(\)\?/ => column_indexes(&streams, column_name)?
@subst /streams\.into_iter\(\)\.map\(\|(\w+)\| \1\.fuse\(\)\)\.collect\(\)/ => streams
@subst /phantom: Default::default\(\),?/ =>
@ret r
@spec
    requires forall|i: int| 0 <= i < streams.len() ==> (#[trigger] streams@[i]).sch() == streams@[0].sch()
    ensures r is Ok ==> r->Ok_0.cwf() && r->Ok_0.streams.0 == streams
@end
//@extract tskv/src/reader/partitioned_stream.rs ColumnCursorStream::convert_batch
@header impl ColumnCursorStream
@subst /T::Values/ => Times
@subst /ColumnCursor<Times>/ => ColumnCursor
@subst /let (\w+) = \1\.as_any\(\)\.downcast_ref::<T>\(\)\.expect\("[^"]*"\);/ =>
@ret r
@spec
    requires idx < batch.cols(), idx == tcol(), forall|x: int| 0 <= x < batch.n() ==> (#[trigger] batch.cell(tcol(), x)) is Some
    ensures *final(self) == *old(self), r is Ok ==> r->Ok_0.offset == 0 && cells_of(r->Ok_0, *batch)
@end
//@extract tskv/src/reader/partitioned_stream.rs PartitionedStream for ColumnCursorStream::partitions
@header impl ColumnCursorStream
@ret r
@spec
    ensures r == self.parts()
@end
//@extract tskv/src/reader/partitioned_stream.rs PartitionedStream for ColumnCursorStream::poll_next
@header impl ColumnCursorStream
@subst /cx: &mut Context<'_>/ => cx: Context
@subst /Poll<Option<Self::Output>>/ => Poll<Option<TskvResult<(ColumnCursor, RecordBatch)>>>
@subst /Poll::Ready\(ready!\(self\.streams\.poll_next\(cx, stream_idx\)\)\.map\(\|r\| \{\s*r\.and_then\(\|batch\| \{\s*let cursor = self\.convert_batch\(&batch, self\.time_column_idx\[stream_idx\]\)\?;\s*Ok\(\(cursor, batch\)\)\s*\}\)\s*\}\)\)/ => let polled = match self.streams.poll_next(cx, stream_idx) { Poll::Ready(v) => v, Poll::Pending => { return Poll::Pending; } }; Poll::Ready(and_then_cursor(self, polled, stream_idx))
@ret r
@spec
    requires old(self).cwf(), stream_idx < old(self).parts() ensures polled(*old(self), *final(self), stream_idx as int, r)
@end
}
fn main() {}
