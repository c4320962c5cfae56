use vstd::prelude::*;
use vstd::seq_lib::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include base.inc
// lexicographic order of byte strings
spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less } else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.drop_first(), b.drop_first()) }
}
// ---- the hash: one polynomial over the bytes, whatever the chunking --------------------
spec fn poly(n: u64, b: Seq<u8>) -> u64 decreases b.len()
{
    if b.len() == 0 { n } else {
        let p = poly(n, b.drop_last()) as int;
        ((p * 1313 + b.last()) % 0x1_0000_0000_0000_0000) as u64
    }
}
proof fn poly_concat(n: u64, a: Seq<u8>, b: Seq<u8>) ensures poly(n, a + b) == poly(poly(n, a), b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); poly_concat(n, a, b.drop_last()); }
}
// the bytes of a row's series: table, then name and value of each tag
spec fn flat(t: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8> decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { flat(t.drop_last()) + t.last().0 + t.last().1 } }
spec fn series_hash(table: Seq<u8>, t: Seq<(Seq<u8>, Seq<u8>)>) -> u64 { poly(0, table + flat(t)) }
proof fn flat_step(table: Seq<u8>, t: Seq<(Seq<u8>, Seq<u8>)>, i: int)
    requires 0 <= i < t.len()
    ensures poly(poly(series_hash(table, t.take(i)), t[i].0), t[i].1) == series_hash(table, t.take(i + 1))
{
    assert(t.take(i + 1).drop_last() =~= t.take(i));
    poly_concat(0, table + flat(t.take(i)), t[i].0);
    poly_concat(0, table + flat(t.take(i)) + t[i].0, t[i].1);
    assert(table + flat(t.take(i + 1)) =~= table + flat(t.take(i)) + t[i].0 + t[i].1);
}

//@extract common/utils/src/bkdr_hash.rs const SEED
@end
//@extract common/utils/src/bkdr_hash.rs struct BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs BkdrHasher::new
@ret r
@spec
    ensures r.number == 0, r.prefix is None
@end
//@extract common/utils/src/bkdr_hash.rs Hasher for BkdrHasher::write
@header impl BkdrHasher
@loops 1
@iter 0 it
@spec
    ensures final(self).number == poly(old(self).number, bytes@), final(self).prefix == old(self).prefix
@loop 0
    invariant self.number == poly(old(self).number, bytes@.take(it.index as int)), self.prefix == old(self).prefix, it.seq().len() == bytes@.len(), forall|k: int| 0 <= k < bytes@.len() ==> *(#[trigger] it.seq()[k]) == bytes@[k], SEED == 1313
@at loop-start 0
    proof { assert(bytes@.take(it.index as int + 1).drop_last() =~= bytes@.take(it.index as int)); assert(bytes@.take(it.index as int + 1).last() == *c);
        let p = self.number as int; assert(((p * 1313) % 0x1_0000_0000_0000_0000 + *c as int) % 0x1_0000_0000_0000_0000 == (p * 1313 + *c as int) % 0x1_0000_0000_0000_0000) by {
          vstd::arithmetic::div_mod::lemma_add_mod_noop(p * 1313, *c as int, 0x1_0000_0000_0000_0000); vstd::arithmetic::div_mod::lemma_small_mod(*c as nat, 0x1_0000_0000_0000_0000); } }
@at after-loop 0
    proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
@end
//@extract common/utils/src/bkdr_hash.rs BkdrHasher::hash_with
@ret r
@spec
    ensures r.number == poly(old(self).number, bytes@), r.prefix == old(self).prefix, *final(self) == *final(r)
@end
//@extract common/utils/src/bkdr_hash.rs BkdrHasher::number
@ret r
@spec
    ensures r == self.number
@end

// ---- arrow: assumed contracts ----
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
enum DataType { Timestamp(TimeUnit, u8), Int64, Utf8, Other(u8) }
// a null has a value in its place
ghost enum Arr { S(Seq<Option<B>>), T(TimeUnit, Seq<(bool, i64)>), I(Seq<(bool, i64)>), O(Seq<bool>) }
spec fn isnull(a: Arr, i: int) -> bool { match a { Arr::S(v) => v[i] is None, Arr::T(_, v) => !v[i].0, Arr::I(v) => !v[i].0, Arr::O(v) => !v[i] } }
struct ArrayRef { v: Ghost<Arr> }
struct Ints { v: Ghost<Seq<(bool, i64)>> }
impl Ints { #[verifier::external_body] fn value(&self, i: usize) -> (r: i64) ensures r == self.v@[i as int].1 { unimplemented!() } }
struct Strings { v: Ghost<Seq<Option<B>>> }
impl Strings {
    #[verifier::external_body] fn is_null(&self, i: usize) -> (r: bool) ensures r == (self.v@[i as int] is None) { unimplemented!() }
    #[verifier::external_body] fn value(&self, i: usize) -> (r: &Name) ensures self.v@[i as int] is Some ==> r.x@ == self.v@[i as int]->0 { unimplemented!() }
}
impl ArrayRef {
    #[verifier::external_body] fn data_type(&self) -> (r: &DataType) ensures match self.v@ { Arr::S(_) => *r == DataType::Utf8, Arr::T(u, _) => (*r matches DataType::Timestamp(w, _) && w == u), Arr::I(_) => *r == DataType::Int64, Arr::O(_) => *r is Other } { unimplemented!() }
    #[verifier::external_body] fn is_null(&self, i: usize) -> (r: bool) ensures r == isnull(self.v@, i as int) { unimplemented!() }
    #[verifier::external_body] fn strings(&self) -> (r: Option<&Strings>) ensures r matches Some(s) ==> self.v@ == Arr::S(s.v@) { unimplemented!() }
    #[verifier::external_body] fn ints(&self) -> (r: Option<&Ints>) ensures r matches Some(s) ==> self.v@ == Arr::I(s.v@) { unimplemented!() }
    #[verifier::external_body] fn ms(&self) -> (r: Option<&Ints>) ensures r matches Some(s) ==> self.v@ == Arr::T(TimeUnit::Millisecond, s.v@) { unimplemented!() }
    #[verifier::external_body] fn us(&self) -> (r: Option<&Ints>) ensures r matches Some(s) ==> self.v@ == Arr::T(TimeUnit::Microsecond, s.v@) { unimplemented!() }
    #[verifier::external_body] fn ns(&self) -> (r: Option<&Ints>) ensures r matches Some(s) ==> self.v@ == Arr::T(TimeUnit::Nanosecond, s.v@) { unimplemented!() }
}
struct FieldDef { n: Name }
impl FieldDef { fn name(&self) -> (r: &Name) ensures *r == self.n { &self.n } }
struct RecordBatch { cols: Vec<ArrayRef>, defs: Vec<FieldDef>, rows: usize }
impl RecordBatch {
    fn columns(&self) -> (r: &Vec<ArrayRef>) ensures *r == self.cols { &self.cols }
    fn fields(&self) -> (r: &Vec<FieldDef>) ensures *r == self.defs { &self.defs }
    fn schema(&self) -> (r: &Vec<FieldDef>) ensures *r == self.defs { &self.defs }
    fn num_rows(&self) -> (r: usize) ensures r == self.rows { self.rows }
}
uninterp spec fn taken(a: Arr, i: Seq<u32>) -> Arr;
spec fn views(c: Seq<ArrayRef>) -> Seq<Arr> { Seq::new(c.len(), |j: int| c[j].v@) }
spec fn all_taken(c: Seq<ArrayRef>, i: Seq<u32>) -> Seq<Arr> { Seq::new(c.len(), |j: int| taken(c[j].v@, i)) }
struct UInt32Array { i: Vec<u32> }
impl UInt32Array {
    fn from(i: Vec<u32>) -> (r: UInt32Array) ensures r.i@ == i@ { UInt32Array { i } }
    fn len(&self) -> (r: usize) ensures r == self.i@.len() { self.i.len() }
}
#[verifier::external_body] fn take_all(c: &Vec<ArrayRef>, i: &UInt32Array) -> (r: CoordinatorResult<Vec<ArrayRef>>) ensures r matches Ok(v) ==> views(v@) == all_taken(c@, i.i@) { unimplemented!() }
// ---- the table ----
struct ValueType { x: u8 }
//@extract common/models/src/schema/tskv_table_schema.rs enum ColumnType
@derive
@end
struct TableColumn { column_type: ColumnType }
struct Table { tenant: Name, db: Name, name: Name, cols: Ghost<Map<B, TableColumn>> }
impl Table {
    #[verifier::external_body] fn column(&self, n: &Name) -> (r: Option<&TableColumn>) ensures r matches Some(c) ==> self.cols@.dom().contains(n.x@) && self.cols@[n.x@] == *c { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Table) ensures r == *self { unimplemented!() }
}
spec fn time_() -> B { seq![116u8, 105, 109, 101] }
#[verifier::external_body] fn is_time(n: &Name) -> (r: bool) ensures r == (n.x@ == time_()) { unimplemented!() }
// what the points of some rows are is C36's matter
uninterp spec fn encoded(t: Table, c: Seq<Arr>, d: Seq<FieldDef>, n: int) -> B;
#[verifier::external_body] fn arrow_array_to_points(c: Vec<ArrayRef>, d: &Vec<FieldDef>, t: Table, n: usize) -> (r: CoordinatorResult<Vec<u8>>) ensures r matches Ok(b) ==> b@ == encoded(t, views(c@), d@, n as int) { unimplemented!() }
// ---- a row ----
type Tags = Seq<(B, B)>;
spec fn stamp(a: Arr, i: int) -> Option<(Precision, i64)> { match a {
    Arr::T(TimeUnit::Millisecond, v) => Some((Precision::MS, v[i].1)), Arr::T(TimeUnit::Microsecond, v) => Some((Precision::US, v[i].1)), Arr::T(TimeUnit::Nanosecond, v) => Some((Precision::NS, v[i].1)), Arr::I(v) => Some((Precision::NS, v[i].1)), _ => None } }
spec fn is_tag(t: Table, n: Name) -> bool { t.cols@[n.x@].column_type is Tag }
spec fn is_field(t: Table, n: Name) -> bool { t.cols@[n.x@].column_type is Field }
spec fn tag_at(a: Arr, i: int) -> Option<B> { match a { Arr::S(v) => v[i], _ => None } }
// the tags the row has a value of
spec fn tags_of(t: Table, b: RecordBatch, i: int, j: int) -> Tags decreases j { if j <= 0 { Seq::empty() } else { let s = tags_of(t, b, i, j - 1); if is_tag(t, b.defs@[j - 1].n) && tag_at(b.cols@[j - 1].v@, i) is Some { s.push((b.defs@[j - 1].n.x@, tag_at(b.cols@[j - 1].v@, i)->0)) } else { s } } }
spec fn time_of(b: RecordBatch, i: int, j: int) -> Option<(Precision, i64)> decreases j { if j <= 0 { None } else if b.defs@[j - 1].n.x@ == time_() { stamp(b.cols@[j - 1].v@, i) } else { time_of(b, i, j - 1) } }
spec fn in_prec(b: RecordBatch, i: int, p: Precision) -> bool { time_of(b, i, b.cols@.len() as int) matches Some(x) && x.0 == p }
spec fn some_field(t: Table, b: RecordBatch, i: int, j: int) -> bool decreases j { if j <= 0 { false } else { some_field(t, b, i, j - 1) || is_field(t, b.defs@[j - 1].n) && !isnull(b.cols@[j - 1].v@, i) } }
proof fn same_precision(b: RecordBatch, i: int, k: int, j: int)
    ensures (time_of(b, i, j) is Some) == (time_of(b, k, j) is Some), time_of(b, i, j) is Some ==> (time_of(b, i, j)->0).0 == (time_of(b, k, j)->0).0
    decreases j
{ if j > 0 { same_precision(b, i, k, j - 1); } }
spec fn tv(t: Seq<(&Name, &Name)>) -> Tags { t.map(|i: int, x: (&Name, &Name)| (x.0.x@, x.1.x@)) }
spec fn by_name(t: Tags) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> lex((#[trigger] t[i]).0, (#[trigger] t[j]).0) != Ordering::Greater }
// std: the same pairs, in the order of their names
#[verifier::external_body] fn sort_pairs(t: &mut Vec<(&Name, &Name)>) ensures tv(final(t)@).to_multiset() == tv(old(t)@).to_multiset(), by_name(tv(final(t)@)) { unimplemented!() }
// the hash of the row's series, as C22 has it for a line
spec fn sorted_as(s: Tags, t: Tags) -> bool { s.to_multiset() == t.to_multiset() && by_name(s) }
spec fn hash_of(t: Table, b: RecordBatch, i: int, h: u64) -> bool { exists|s: Tags| #[trigger] sorted_as(s, tags_of(t, b, i, b.cols@.len() as int)) && h == series_hash(t.name.x@, s) }
spec fn goes(t: Table, b: RecordBatch, to: Precision, i: int, h: u64, s: ReplicationSet) -> bool {
    &&& time_of(b, i, b.cols@.len() as int) matches Some(p) && conv(p.0, to, p.1) is Some && assigned(t.tenant.x@, t.db.x@, h, conv(p.0, to, p.1)->0, s)
}
spec fn belongs(t: Table, b: RecordBatch, to: Precision, i: int, s: ReplicationSet) -> bool { some_field(t, b, i, b.cols@.len() as int) && exists|h: u64| #[trigger] hash_of(t, b, i, h) && goes(t, b, to, i, h, s) }
// the rows of a set, in the order of the batch
spec fn mine(at: Seq<ReplicationSet>, s: ReplicationSet, k: int) -> Seq<u32> decreases k { if k <= 0 { Seq::empty() } else if at[k - 1] == s { mine(at, s, k - 1).push((k - 1) as u32) } else { mine(at, s, k - 1) } }
spec fn sent_to(f: Seq<Fut>, s: ReplicationSet) -> bool { exists|j: int| 0 <= j < f.len() && (#[trigger] f[j]).set@ == s }
spec fn carries(f: Fut, t: Table, b: RecordBatch, at: Seq<ReplicationSet>) -> bool { let m = mine(at, f.set@, at.len() as int); exists|p: Precision| m.len() > 0 && (forall|i: int| 0 <= i < b.rows ==> #[trigger] in_prec(b, i, p)) && #[trigger] asks(f, t.tenant.x@, t.db.x@, p, f.set@, encoded(t, all_taken(b.cols@, m), b.defs@, m.len() as int)) }
spec fn routed(t: Table, b: RecordBatch, to: Precision, at: Seq<ReplicationSet>, f: Seq<Fut>) -> bool {
    &&& at.len() == b.rows
    &&& forall|i: int| 0 <= i < b.rows ==> belongs(t, b, to, i, #[trigger] at[i])
    &&& forall|i: int| 0 <= i < b.rows ==> sent_to(f, #[trigger] at[i])
    &&& forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).set@ != (#[trigger] f[j]).set@
    &&& forall|j: int| 0 <= j < f.len() ==> carries(#[trigger] f[j], t, b, at)
}
spec fn written(t: Table, b: RecordBatch, to: Precision, f: Seq<Fut>) -> bool { exists|at: Seq<ReplicationSet>| #[trigger] routed(t, b, to, at, f) }
spec fn all_done(f: Seq<Fut>) -> bool { forall|j: int| 0 <= j < f.len() ==> done(#[trigger] f[j]) }
struct BySet { m: Ghost<Map<ReplicationSet, Vec<u32>>> }
impl BySet {
    #[verifier::external_body] fn new() -> (r: BySet) ensures r.m@ == Map::<ReplicationSet, Vec<u32>>::empty() { unimplemented!() }
    #[verifier::external_body] fn or_default(&mut self, k: ReplicationSet) -> (r: &mut Vec<u32>) ensures final(self).m@ == old(self).m@.insert(k, *final(r)), if old(self).m@.dom().contains(k) { *r == old(self).m@[k] } else { r@ == Seq::<u32>::empty() } { unimplemented!() }
    // some entry not seen yet
    #[verifier::external_body] fn next(&mut self) -> (r: Option<(ReplicationSet, Vec<u32>)>) ensures r matches Some(e) ==> old(self).m@.dom().contains(e.0) && old(self).m@[e.0] == e.1 && final(self).m@ == old(self).m@.remove(e.0), r is None ==> old(self).m@.dom() =~= Set::<ReplicationSet>::empty() && final(self).m@ == old(self).m@ { unimplemented!() }
}
spec fn kept(m: Map<ReplicationSet, Vec<u32>>, at: Seq<ReplicationSet>, n: int, s: ReplicationSet) -> bool { if m.dom().contains(s) { m[s]@ == mine(at, s, n) && mine(at, s, n).len() > 0 } else { mine(at, s, n).len() == 0 } }
proof fn mine_ext(a: Seq<ReplicationSet>, b: Seq<ReplicationSet>, s: ReplicationSet, k: int)
    requires 0 <= k <= a.len(), 0 <= k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures mine(a, s, k) == mine(b, s, k)
    decreases k
{ if k > 0 { mine_ext(a, b, s, k - 1); } }
proof fn mine_has(at: Seq<ReplicationSet>, i: int, k: int)
    requires 0 <= i < k <= at.len()
    ensures mine(at, at[i], k).len() > 0
    decreases k
{ if i < k - 1 { mine_has(at, i, k - 1); } }
//@extract coordinator/src/service.rs fn get_precision_and_value_from_arrow_column
@ret r
@subst /CommonSnafu \{[^}]*\}\s*\.build\(\)/ => Error {}
@subst /\.ok_or_else\(\|\| \{\s*Error \{\}\s*\}\)\?/ => .ok_or(Error {})?
@subst /column\s*\.as_any\(\)\s*\.downcast_ref::<TimestampMillisecondArray>\(\)/ => column.ms()
@subst /column\s*\.as_any\(\)\s*\.downcast_ref::<TimestampMicrosecondArray>\(\)/ => column.us()
@subst /column\s*\.as_any\(\)\s*\.downcast_ref::<TimestampNanosecondArray>\(\)/ => column.ns()
@subst /column\s*\.as_any\(\)\s*\.downcast_ref::<Int64Array>\(\)/ => column.ints()
@spec
    ensures r matches Ok(p) ==> stamp(column.v@, idx as int) == Some(p)
@end
//@extract coordinator/src/service.rs Coordinator for CoordService::write_record_batch
@header impl CoordService
@ret r
@subst /async fn write_record_batch<'a>/ => fn write_record_batch
@subst /table_schema: TskvTableSchemaRef/ => table_schema: Table
@subst /span_ctx: Option<&SpanContext>,/ => log: &mut Log,
@subst /let pre_write_start = [^;]*;/ => let ghost log0 = log.v@;
@subst /\.await/ =>
@subst /\.ok_or_else\(\|\| \{\s*CoordinatorError::TenantNotFound \{[\s\S]*?\}\s*\}\)\?/ => .ok_or(Error {})?
@subst /let mut repl_idx: HashMap<ReplicationSet, Vec<u32>> = HashMap::new\(\);/ => let mut repl_idx = BySet::new(); let ghost mut at: Seq<ReplicationSet> = Seq::empty(); let ghost nc = record_batch.cols@.len() as int; let mut ri: usize = 0;
@subst /record_batch\.schema\(\)\.fields\.clone\(\)/ => record_batch.fields()
@subst /for idx in 0\.\.record_batch\.num_rows\(\) \{/ => while ri < record_batch.num_rows() { let idx = ri; ri = ri + 1; let mut cj: usize = 0; let ghost m0 = repl_idx.m@; let ghost at0 = at;
@subst /let mut tags = Vec::new\(\);/ => let mut tags: Vec<(&Name, &Name)> = Vec::new();
@subst /for \(column, schema\) in columns\.iter\(\)\.zip\(schema\.iter\(\)\) \{/ => while cj < columns.len() && cj < schema.len() { let column = &columns[cj]; let schema = &schema[cj]; let ghost tags0 = tags@; cj = cj + 1;
@subst /schema\.name\(\)\.as_str\(\)/ => schema.name()
@subst /\.ok_or_else\(\|\| \{\s*CommonSnafu \{[^}]*\{\}[^}]*\{\}[^}]*\}\s*\.build\(\)\s*\}\)\?/ => .ok_or(Error {})?
@subst /\.ok_or_else\(\|\| \{\s*CommonSnafu \{[^}]*\{\}[^}]*\}\s*\.build\(\)\s*\}\)\?/ => .ok_or(Error {})?
@subst /\.ok_or_else\(\|\| \{\s*CommonSnafu \{[^}]*\}\s*\.build\(\)\s*\}\)\?/ => .ok_or(Error {})?
@subst /CommonSnafu \{[^}]*\{\}[^}]*\{\}[^}]*\}\s*\.build\(\)/ => Error {}
@subst /FieldsIsEmptySnafu\.build\(\)/ => Error {}
@subst /name == TIME_FIELD_NAME/ => is_time(name)
@subst /column\s*\.as_any\(\)\s*\.downcast_ref::<StringArray>\(\)/ => column.strings()
@subst /tags\.sort\(\)/ => sort_pairs(&mut tags)
@subst /for \(name, value\) in tags \{/ => let ghost st = tv(tags@); let mut ti: usize = 0; while ti < tags.len() { let (name, value) = tags[ti]; proof { flat_step(table_name.x@, st, ti as int); } ti = ti + 1;
@subst /\.context\(MetaSnafu\)/ =>
@subst /repl_idx\.entry\(info\)\.or_default\(\)\.push\(idx as u32\);/ => proof { at = at.push(info); } let ghost this = info; repl_idx.or_default(info).push(idx as u32);
@subst /for \(repl, idxs\) in repl_idx \{/ => let ghost all = repl_idx.m@; loop { let ghost left = repl_idx.m@; let ghost rq = requests@; let (repl, idxs) = match repl_idx.next() { Some(e) => e, None => { break; } }; let ghost ii = idxs@; let ghost key = repl;
@subst /let mut requests = Vec::new\(\);/ => let mut requests: Vec<Fut> = Vec::new();
@subst /record_batch\s*\.columns\(\)\s*\.iter\(\)\s*\.map\(\|column\| \{\s*take\(column, &indices, None\)[\s\S]*?\.collect::<Result<Vec<_>, _>>\(\)\?/ => take_all(record_batch.columns(), &indices)?
@subst /\.map_err\(\|e\| \{[\s\S]*?\.build\(\)\s*\}\)\?/ => ?
@subst /Arc::new\(\s*(arrow_array_to_points\([^;]*?\)\s*\?),\s*\);/ => \1;
@subst /write_bytes \+= points\.len\(\);/ => write_bytes = write_bytes.wrapping_add(points.len()); let ghost data = points@; let ghost pr = precision;
@subst /requests\.extend\(\s*(self\.push_points_to_requests\([^;]*?), span_ctx\)\s*\?,\s*\);/ => let mut more = \1)?; requests.append(&mut more);
@subst /self\.push_points_to_requests\(tenant, db,/ => self.push_points_to_requests(tenant, db,
@subst /self\.metrics\s*\.write_\w+\(tenant, db\)\s*\.add\([^;]*;/ =>
@subst /let now = [^;]*;/ => let ghost rq = requests@;
@subst /for res in futures::future::join_all\(requests\) \{/ => let results = join_all(requests, log); let mut ri: usize = 0; while ri < results.len() { let res = results.taken(ri); ri = ri + 1;
@subst /debug!\([^;]*\);?/ =>
@spec
    requires record_batch.cols@.len() == record_batch.defs@.len(), record_batch.rows <= u32::MAX
    ensures
        final(log).v@ == old(log).v@ || exists|f: Seq<Fut>| #[trigger] written(table_schema, record_batch, db_precision, f) && final(log).v@ == old(log).v@ + f,
        r is Ok ==> exists|f: Seq<Fut>| #[trigger] written(table_schema, record_batch, db_precision, f) && final(log).v@ == old(log).v@ + f && all_done(f),
@loop 0
    invariant log0 == old(log).v@, log.v@ == log0, ri <= record_batch.rows <= u32::MAX, at.len() == ri, *schema == record_batch.defs, *columns == record_batch.cols, nc == columns@.len() == schema@.len(), *table_name == table_schema.name, *db == table_schema.db, *tenant == table_schema.tenant, meta_client.data.tenant@ == tenant.x@,
        forall|s: ReplicationSet| #[trigger] kept(repl_idx.m@, at, ri as int, s),
        forall|i: int| 0 <= i < ri ==> belongs(table_schema, record_batch, db_precision, i, #[trigger] at[i]),
        forall|i: int| 0 <= i < ri ==> #[trigger] in_prec(record_batch, i, precision)
    decreases record_batch.rows - ri
@loop 1
    invariant log.v@ == log0, nc == record_batch.cols@.len(), cj <= nc, *schema == record_batch.defs, *columns == record_batch.cols, nc == columns@.len() == schema@.len(), idx == ri - 1, ri <= record_batch.rows, tv(tags@) == tags_of(table_schema, record_batch, idx as int, cj as int), has_fileds == some_field(table_schema, record_batch, idx as int, cj as int),
        has_ts ==> (time_of(record_batch, idx as int, cj as int) matches Some(p) && p.0 == precision && conv(p.0, db_precision, p.1) == Some(ts)), !has_ts ==> time_of(record_batch, idx as int, cj as int) is None,
        !has_ts ==> forall|i: int| 0 <= i < idx ==> #[trigger] in_prec(record_batch, i, precision)
    decreases nc - cj
@at before-loop 1
    proof { assert(tv(tags@) =~= Seq::<(B, B)>::empty()); }
@at loop-end 1
    proof { if tags@.len() == tags0.len() { assert(tags@ =~= tags0); } else { assert(tv(tags@) =~= tv(tags0).push((tags@.last().0.x@, tags@.last().1.x@))); } }
@loop 2
    invariant log.v@ == log0, ti <= tags@.len(), st == tv(tags@), hasher.number == series_hash(table_name.x@, st.take(ti as int))
    decreases tags@.len() - ti
@at before-loop 2
    proof { assert(table_name.x@ + flat(st.take(0)) =~= table_name.x@); }
@at after-loop 2
    proof { assert(st.take(st.len() as int) =~= st); }
@at loop-end 0
    proof {
        let i = ri - 1;
        assert(sorted_as(st, tags_of(table_schema, record_batch, i, nc)));
        assert(hash_of(table_schema, record_batch, i, hash));
        assert(goes(table_schema, record_batch, db_precision, i, hash, this));
        assert(belongs(table_schema, record_batch, db_precision, i, this));
        assert forall|s: ReplicationSet| #[trigger] kept(repl_idx.m@, at, ri as int, s) by { assert(kept(m0, at0, i, s)); assert(kept(m0, at0, i, this)); mine_ext(at0, at, s, i); assert(at[i] == this); if s == this { assert(repl_idx.m@[s]@ == mine(at0, s, i).push(i as u32)); } else { assert(repl_idx.m@.dom().contains(s) == m0.dom().contains(s)); } }
        assert forall|k: int| 0 <= k < ri implies belongs(table_schema, record_batch, db_precision, k, #[trigger] at[k]) by { if k < i { assert(at[k] == at0[k]); } }
        assert forall|k: int| 0 <= k < ri implies #[trigger] in_prec(record_batch, k, precision) by { same_precision(record_batch, k, i, nc); }
    }
@loop 3
    invariant log0 == old(log).v@, log.v@ == log0, at.len() == record_batch.rows, nc == record_batch.cols@.len(), *db == table_schema.db, *tenant == table_schema.tenant,
        forall|s: ReplicationSet| #[trigger] kept(all, at, at.len() as int, s),
        forall|i: int| 0 <= i < at.len() ==> belongs(table_schema, record_batch, db_precision, i, #[trigger] at[i]),
        forall|i: int| 0 <= i < at.len() ==> #[trigger] in_prec(record_batch, i, precision),
        forall|s: ReplicationSet| #[trigger] repl_idx.m@.dom().contains(s) ==> all.dom().contains(s) && repl_idx.m@[s] == all[s],
        forall|s: ReplicationSet| #[trigger] all.dom().contains(s) && !repl_idx.m@.dom().contains(s) ==> sent_to(requests@, s),
        forall|j: int| 0 <= j < requests@.len() ==> all.dom().contains((#[trigger] requests@[j]).set@) && !repl_idx.m@.dom().contains(requests@[j].set@) && carries(requests@[j], table_schema, record_batch, at),
        forall|i: int, j: int| 0 <= i < j < requests@.len() ==> (#[trigger] requests@[i]).set@ != (#[trigger] requests@[j]).set@
    ensures repl_idx.m@.dom() =~= Set::<ReplicationSet>::empty()
@at loop-end 3
    proof {
        assert(kept(all, at, at.len() as int, key));
        let f = requests@.last();
        assert(requests@ =~= rq.push(f));
        assert(data == encoded(table_schema, all_taken(record_batch.cols@, ii), record_batch.defs@, ii.len() as int));
        assert(asks(f, tenant.x@, db.x@, pr, key, data));
        assert(carries(f, table_schema, record_batch, at));
        assert forall|s: ReplicationSet| #[trigger] all.dom().contains(s) && !repl_idx.m@.dom().contains(s) implies sent_to(requests@, s) by {
            if s == key { assert(requests@[rq.len() as int].set@ == s); } else { assert(!left.dom().contains(s)); assert(sent_to(rq, s)); let j = choose|j: int| 0 <= j < rq.len() && (#[trigger] rq[j]).set@ == s; assert(requests@[j].set@ == s); } }
        assert forall|j: int| 0 <= j < requests@.len() implies all.dom().contains((#[trigger] requests@[j]).set@) && !repl_idx.m@.dom().contains(requests@[j].set@) && carries(requests@[j], table_schema, record_batch, at) by { if j < rq.len() { assert(requests@[j] == rq[j]); } }
        assert forall|i: int, j: int| 0 <= i < j < requests@.len() implies (#[trigger] requests@[i]).set@ != (#[trigger] requests@[j]).set@ by { assert(requests@[i] == rq[i]); if j < rq.len() { assert(requests@[j] == rq[j]); } }
    }
@at after-loop 3
    proof {
        assert forall|i: int| 0 <= i < at.len() implies sent_to(requests@, #[trigger] at[i]) by { mine_has(at, i, at.len() as int); assert(kept(all, at, at.len() as int, at[i])); assert(!repl_idx.m@.dom().contains(at[i])); assert(all.dom().contains(at[i])); }
        assert(routed(table_schema, record_batch, db_precision, at, requests@));
        assert(written(table_schema, record_batch, db_precision, requests@));
    }
@loop 4
    invariant log0 == old(log).v@, ri <= rq.len(), results.v@ == rq, log.v@ == log0 + rq, written(table_schema, record_batch, db_precision, rq), forall|j: int| 0 <= j < ri ==> done(#[trigger] rq[j])
    decreases rq.len() - ri
@attr #[verifier::exec_allows_no_decreases_clause]
@end
}
fn main() {}
