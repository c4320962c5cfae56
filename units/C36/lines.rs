use vstd::prelude::*;
verus! {
global size_of usize == 8;
type B = Seq<u8>;
struct Error {}
type Result<T> = std::result::Result<T, Error>;
type ModelResult<T> = Result<T>;
type ColumnDataResult<T> = Result<T>;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
//@extract common/protos/src/lib.rs enum FieldValue
@derive
@end
//@extract common/models/src/value_type.rs enum PhysicalDType
@derive PartialEq, Eq, Structural, Clone, Copy
@end
use PhysicalDType as ValueType;
//@extract common/models/src/schema/tskv_table_schema.rs enum PhysicalCType
@derive PartialEq, Eq, Structural, Clone, Copy
@end
//@extract common/models/src/schema/tskv_table_schema.rs PhysicalCType::default_time
@ret r
@spec
    ensures r == PhysicalCType::Time(TimeUnit::Nanosecond)
@end
//@extract common/models/src/schema/tskv_table_schema.rs PhysicalCType::to_physical_data_type
@ret r
@spec
    ensures r == dtype(*self)
@end
spec fn dtype(c: PhysicalCType) -> PhysicalDType { match c { PhysicalCType::Tag => PhysicalDType::String, PhysicalCType::Time(_) => PhysicalDType::Integer, PhysicalCType::Field(t) => t } }
// ---- std and arrow: assumed contracts ----
#[verifier::external_body] fn resize<T: Copy>(v: &mut Vec<T>, n: usize, x: T)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { x }) { v.resize(n, x) }
#[verifier::external_body] fn pad<T: Copy>(v: &mut Vec<T>, x: T, n: usize)
    ensures final(v)@.len() == old(v)@.len() + n, forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i] { unimplemented!() }
#[verifier::external_body] fn zeros<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n { unimplemented!() }
#[verifier::external_body] fn no_bytes() -> (r: &'static [u8]) ensures r@.len() == 0 { unimplemented!() }
struct BooleanBufferBuilder { v: Ghost<Seq<bool>>, n: usize }
impl BooleanBufferBuilder {
    #[verifier::external_body] fn new(cap: usize) -> (r: Self) ensures r.v@.len() == 0 { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.v@.len() { unimplemented!() }
    #[verifier::external_body] fn append(&mut self, b: bool) ensures final(self).v@ == old(self).v@.push(b) { unimplemented!() }
    #[verifier::external_body] fn append_n(&mut self, k: usize, b: bool) ensures final(self).v@.len() == old(self).v@.len() + k, forall|i: int| 0 <= i < final(self).v@.len() ==> #[trigger] final(self).v@[i] == (if i < old(self).v@.len() { old(self).v@[i] } else { b }) { unimplemented!() }
}
#[verifier::external_body] fn vec_of(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
struct Names { m: Ghost<Map<B, usize>> }
impl Names {
    #[verifier::external_body] fn new() -> (r: Names) ensures r.m@ == Map::<B, usize>::empty() { unimplemented!() }
    #[verifier::external_body] fn get(&self, k: &[u8]) -> (r: Option<&usize>) ensures r matches Some(i) ==> self.m@.dom().contains(k@) && self.m@[k@] == *i, r is None ==> !self.m@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: Vec<u8>, i: usize) ensures final(self).m@ == old(self).m@.insert(k@, i) { unimplemented!() }
}
spec fn time_() -> B { seq![116u8, 105, 109, 101] }
#[verifier::external_body] fn time_name() -> (r: &'static [u8]) ensures r@ == time_() { unimplemented!() }
//@extract common/models/src/mutable_batch.rs struct MutableBatch
@derive
@subst /HashMap<String, usize>/ => Names
@end
//@extract common/models/src/mutable_batch.rs struct Column
@derive
@end
//@extract common/models/src/column_data_ref.rs struct ColumnDataRef
@derive
@end
//@extract common/models/src/column_data_ref.rs enum PrimaryColumnDataRef
@derive
@end
// ---- what a batch holds ----
ghost enum Val { F(f64), I(i64), U(u64), S(B), B(bool) }
type Item = (PhysicalCType, Val);
spec fn dlen(p: PrimaryColumnDataRef) -> int { match p { PrimaryColumnDataRef::F64(v, _, _) => v@.len() as int, PrimaryColumnDataRef::I64(v, _, _) => v@.len() as int, PrimaryColumnDataRef::U64(v, _, _) => v@.len() as int, PrimaryColumnDataRef::String(v, _, _) => v@.len() as int, PrimaryColumnDataRef::Bool(v, _, _) => v@.len() as int } }
spec fn dat(p: PrimaryColumnDataRef, r: int) -> Val { match p { PrimaryColumnDataRef::F64(v, _, _) => Val::F(v@[r]), PrimaryColumnDataRef::I64(v, _, _) => Val::I(v@[r]), PrimaryColumnDataRef::U64(v, _, _) => Val::U(v@[r]), PrimaryColumnDataRef::String(v, _, _) => Val::S(v@[r]@), PrimaryColumnDataRef::Bool(v, _, _) => Val::B(v@[r]) } }
spec fn ptype(p: PrimaryColumnDataRef) -> PhysicalDType { match p { PrimaryColumnDataRef::F64(..) => PhysicalDType::Float, PrimaryColumnDataRef::I64(..) => PhysicalDType::Integer, PrimaryColumnDataRef::U64(..) => PhysicalDType::Unsigned, PrimaryColumnDataRef::String(..) => PhysicalDType::String, PrimaryColumnDataRef::Bool(..) => PhysicalDType::Boolean } }
spec fn vlen(c: Column) -> int { c.column_data.valid.v@.len() as int }
spec fn cell(c: Column, r: int) -> Option<Item> { if 0 <= r < vlen(c) && c.column_data.valid.v@[r] { Some((c.column_type, dat(c.column_data.primary_data, r))) } else { None } }
spec fn names(b: MutableBatch, x: B) -> bool { b.column_names.m@.dom().contains(x) }
spec fn column_of(b: MutableBatch, x: B) -> Column { b.columns@[b.column_names.m@[x] as int] }
spec fn bcell(b: MutableBatch, x: B, r: int) -> Option<Item> { if names(b, x) { cell(column_of(b, x), r) } else { None } }
// a column while row n is written: up to n rows, or n + 1 if the row has a value there
spec fn col_ok(c: Column, n: int) -> bool { &&& vlen(c) <= dlen(c.column_data.primary_data) <= n + 1 &&& (dlen(c.column_data.primary_data) == n + 1 ==> vlen(c) == n + 1) &&& ptype(c.column_data.primary_data) == dtype(c.column_type) }
spec fn wf(b: MutableBatch, n: int) -> bool {
    &&& b.row_count == n
    &&& forall|x: B| #[trigger] names(b, x) ==> b.column_names.m@[x] < b.columns@.len()
    &&& forall|x: B, y: B| names(b, x) && names(b, y) && b.column_names.m@[x] == b.column_names.m@[y] ==> x == y
    &&& forall|i: int| 0 <= i < b.columns@.len() ==> col_ok(#[trigger] b.columns@[i], n)
}
// between rows
spec fn full(b: MutableBatch, n: int) -> bool { wf(b, n) && forall|i: int| 0 <= i < b.columns@.len() ==> vlen(#[trigger] b.columns@[i]) <= n && dlen(b.columns@[i].column_data.primary_data) <= n }
//@extract common/models/src/mutable_batch.rs MutableBatch::new
@header impl<'a> MutableBatch<'a>
@subst /column_names: Default::default\(\)/ => column_names: Names::new()
@subst /columns: Default::default\(\)/ => columns: Vec::new()
@ret r
@spec
    ensures r.columns@.len() == 0, r.row_count == 0, forall|x: B| !names(r, x)
@end
//@extract common/models/src/column_data_ref.rs ColumnDataRef::new
@header impl<'a> ColumnDataRef<'a>
@subst /"".as_bytes\(\)/ => no_bytes()
@subst /return Err\([\s\S]*?\.build\(\)\)/ => return Err(Error {})
@subst /vec!\[0\.0; len\], f64::MAX, f64::MIN/ => zeros(0.0f64, len), 0.0f64, 0.0f64
@subst /vec!\[([^;]+); len\]/ => zeros(\1, len)
@ret r
@spec
    ensures r matches Ok(d) ==> d.valid.v@.len() == 0 && dlen(d.primary_data) == len && ptype(d.primary_data) == column_type, r is Err ==> column_type is Unknown
@end
//@extract common/models/src/mutable_batch.rs Column::new
@header impl<'a> Column<'a>
@subst /\s*\.map_err\(\|e\|[\s\S]*?\.build\(\)\)\?/ => ?
@ret r
@spec
    ensures r matches Ok(c) ==> c.column_type == column_type && vlen(c) == 0 && dlen(c.column_data.primary_data) == row_count && ptype(c.column_data.primary_data) == dtype(column_type), r is Err ==> dtype(column_type) is Unknown
@end
// the column of a name in the batch, made if it is not there yet
spec fn got(b0: MutableBatch, x: B, ct: PhysicalCType, b1: MutableBatch, c: Column, c1: Column) -> bool {
    if names(b0, x) { &&& c == column_of(b0, x) &&& c.column_type == ct &&& b1.column_names.m@ == b0.column_names.m@ &&& b1.columns@ == b0.columns@.update(b0.column_names.m@[x] as int, c1) }
    else { &&& c.column_type == ct &&& vlen(c) == 0 &&& dlen(c.column_data.primary_data) == b0.row_count &&& ptype(c.column_data.primary_data) == dtype(ct) &&& b0.columns@.len() <= usize::MAX &&& b1.column_names.m@ == b0.column_names.m@.insert(x, b0.columns@.len() as usize) &&& b1.columns@ == b0.columns@.push(c).update(b0.columns@.len() as int, c1) }
}
//@extract common/models/src/mutable_batch.rs MutableBatch::column_mut
@header impl<'a> MutableBatch<'a>
@subst /name: &str/ => name: &[u8]
@subst /name\.to_string\(\)/ => vec_of(name)
@subst /self\.columns\[\*column_idx\]\.column_type != col_type/ => !same_type(&self.columns[*column_idx].column_type, &col_type)
@subst /return Err\([\s\S]*?\.build\(\)\)/ => return Err(Error {})
@at start
    let ghost known = names(*self, name@);
@subst /&mut self\.columns\[column_idx\] as _/ => &mut self.columns[column_idx]
@ret r
@spec
    requires wf(*old(self), old(self).row_count as int)
    ensures
        r matches Ok(c) ==> got(*old(self), name@, col_type, *final(self), *c, *final(c)) && final(self).row_count == old(self).row_count,
        // refused only for a type that is none, or one the column does not have
        r is Err ==> dtype(col_type) is Unknown || (names(*old(self), name@) && column_of(*old(self), name@).column_type != col_type)
@end
fn same_type(a: &PhysicalCType, b: &PhysicalCType) -> (r: bool) ensures r == (*a == *b) { *a == *b }
// ---- a value put into row n of its column; nothing else changes ----
spec fn put(b0: MutableBatch, b1: MutableBatch, x: B, v: Item, n: int) -> bool {
    &&& wf(b1, n)
    &&& forall|y: B| #[trigger] names(b1, y) <==> names(b0, y) || y == x
    &&& names(b1, x) && vlen(column_of(b1, x)) == n + 1 && bcell(b1, x, n) == Some(v) && column_of(b1, x).column_type == v.0
    &&& names(b0, x) ==> column_of(b0, x).column_type == v.0
    &&& forall|r: int| r < n ==> #[trigger] bcell(b1, x, r) == bcell(b0, x, r)
    &&& forall|y: B| y != x && #[trigger] names(b0, y) ==> column_of(b1, y) == column_of(b0, y)
}
proof fn lemma_put(b0: MutableBatch, b1: MutableBatch, x: B, c: Column, c1: Column, v: Item, n: int)
    requires wf(b0, n), got(b0, x, v.0, b1, c, c1), b1.row_count == n, vlen(c) <= n,
        c1.column_type == c.column_type, col_ok(c1, n), vlen(c1) == n + 1, cell(c1, n) == Some(v), forall|r: int| 0 <= r < n ==> #[trigger] cell(c1, r) == cell(c, r)
    ensures put(b0, b1, x, v, n)
{
    assert forall|y: B| #[trigger] names(b1, y) implies b1.column_names.m@[y] < b1.columns@.len() by { if y != x { assert(names(b0, y)); } else { assert(names(b0, x) || !names(b0, x)); } }
    assert forall|i: int| 0 <= i < b1.columns@.len() implies col_ok(#[trigger] b1.columns@[i], n) by { if b1.columns@[i] != c1 { assert(b1.columns@[i] == b0.columns@[i]); } }
    assert forall|y: B, z: B| names(b1, y) && names(b1, z) && b1.column_names.m@[y] == b1.column_names.m@[z] implies y == z by { assert(names(b0, x) || !names(b0, x)); if y != x { assert(names(b0, y)); } if z != x { assert(names(b0, z)); } }
    assert(column_of(b1, x) == c1);
    assert forall|y: B| y != x && #[trigger] names(b0, y) implies column_of(b1, y) == column_of(b0, y) by { assert(names(b1, y)); if names(b0, x) { assert(b0.column_names.m@[y] != b0.column_names.m@[x]); } }
    assert forall|r: int| r < n implies #[trigger] bcell(b1, x, r) == bcell(b0, x, r) by { if r >= 0 { assert(cell(c1, r) == cell(c, r)); } }
}
// ---- a line ----
//@extract common/protocol_parser/src/lib.rs struct Line
@derive
@subst /struct Line<'a>/ => struct Line
@subst /Cow<'a, str>/ => Vec<u8>
@end
spec fn field(v: FieldValue) -> Item { match v { FieldValue::U64(k) => (PhysicalCType::Field(PhysicalDType::Unsigned), Val::U(k)), FieldValue::I64(k) => (PhysicalCType::Field(PhysicalDType::Integer), Val::I(k)), FieldValue::Str(s) => (PhysicalCType::Field(PhysicalDType::String), Val::S(s@)), FieldValue::F64(k) => (PhysicalCType::Field(PhysicalDType::Float), Val::F(k)), FieldValue::Bool(k) => (PhysicalCType::Field(PhysicalDType::Boolean), Val::B(k)) } }
spec fn tag_of(l: Line, k: int, x: B) -> Option<Item> decreases k { if k <= 0 { None } else if l.tags@[k - 1].0@ == x { Some((PhysicalCType::Tag, Val::S(l.tags@[k - 1].1@))) } else { tag_of(l, k - 1, x) } }
spec fn field_of(l: Line, k: int, x: B) -> Option<Item> decreases k { if k <= 0 { None } else if l.fields@[k - 1].0@ == x { Some(field(l.fields@[k - 1].1)) } else { field_of(l, k - 1, x) } }
spec fn time_of(l: Line) -> Item { (PhysicalCType::Time(TimeUnit::Nanosecond), Val::I(l.timestamp)) }
// what the first kt tags, the first kf fields and, if t, the time of a line say of a name
spec fn said(l: Line, kt: int, kf: int, t: bool, x: B) -> Option<Item> { if t && x == time_() { Some(time_of(l)) } else if field_of(l, kf, x) is Some { field_of(l, kf, x) } else { tag_of(l, kt, x) } }
spec fn says(l: Line, x: B) -> Option<Item> { said(l, l.tags@.len() as int, l.fields@.len() as int, true, x) }
spec fn distinct(l: Line) -> bool { (forall|i: int, j: int| 0 <= i < j < l.tags@.len() ==> l.tags@[i].0@ != l.tags@[j].0@) && (forall|i: int, j: int| 0 <= i < j < l.fields@.len() ==> l.fields@[i].0@ != l.fields@[j].0@) }
proof fn lemma_tag(l: Line, k: int, x: B) requires 0 <= k <= l.tags@.len() ensures tag_of(l, k, x) is Some ==> (tag_of(l, k, x)->0).0 is Tag && exists|i: int| 0 <= i < k && l.tags@[i].0@ == x decreases k { if k > 0 && l.tags@[k - 1].0@ != x { lemma_tag(l, k - 1, x); } }
proof fn lemma_field(l: Line, k: int, x: B) requires 0 <= k <= l.fields@.len() ensures field_of(l, k, x) is Some ==> (field_of(l, k, x)->0).0 is Field && exists|i: int| 0 <= i < k && l.fields@[i].0@ == x decreases k { if k > 0 && l.fields@[k - 1].0@ != x { lemma_field(l, k - 1, x); } }
// row n of the batch while a line is put there: a0 is the batch before the line
spec fn row(a0: MutableBatch, b: MutableBatch, l: Line, kt: int, kf: int, t: bool, n: int) -> bool {
    &&& wf(b, n)
    &&& forall|x: B| #[trigger] names(b, x) <==> names(a0, x) || said(l, kt, kf, t, x) is Some
    &&& forall|x: B| said(l, kt, kf, t, x) is Some && #[trigger] names(b, x) ==> vlen(column_of(b, x)) == n + 1 && bcell(b, x, n) == said(l, kt, kf, t, x) && column_of(b, x).column_type == (said(l, kt, kf, t, x)->0).0
    &&& forall|x: B| said(l, kt, kf, t, x) is None && #[trigger] names(b, x) ==> vlen(column_of(b, x)) <= n
    &&& forall|x: B, r: int| r < n ==> #[trigger] bcell(b, x, r) == bcell(a0, x, r)
}
proof fn lemma_row(a0: MutableBatch, b: MutableBatch, b1: MutableBatch, l: Line, kt: int, kf: int, t: bool, kt1: int, kf1: int, t1: bool, n: int, x: B, v: Item)
    requires row(a0, b, l, kt, kf, t, n), put(b, b1, x, v, n), said(l, kt1, kf1, t1, x) == Some(v), forall|y: B| y != x ==> said(l, kt1, kf1, t1, y) == said(l, kt, kf, t, y)
    ensures row(a0, b1, l, kt1, kf1, t1, n)
{
    assert forall|y: B| #[trigger] names(b1, y) <==> names(a0, y) || said(l, kt1, kf1, t1, y) is Some by {
        assert(names(b1, y) <==> names(b, y) || y == x); assert(names(b, y) <==> names(a0, y) || said(l, kt, kf, t, y) is Some);
        if y == x { assert(said(l, kt1, kf1, t1, x) is Some); } else { assert(said(l, kt1, kf1, t1, y) == said(l, kt, kf, t, y)); }
    }
    assert forall|y: B| said(l, kt1, kf1, t1, y) is Some && #[trigger] names(b1, y) implies vlen(column_of(b1, y)) == n + 1 && bcell(b1, y, n) == said(l, kt1, kf1, t1, y) && column_of(b1, y).column_type == (said(l, kt1, kf1, t1, y)->0).0 by { if y != x { assert(names(b, y)); } }
    assert forall|y: B| said(l, kt1, kf1, t1, y) is None && #[trigger] names(b1, y) implies vlen(column_of(b1, y)) <= n by { if y != x { assert(names(b, y)); } }
    assert forall|y: B, r: int| r < n implies #[trigger] bcell(b1, y, r) == bcell(a0, y, r) by { assert(bcell(b, y, r) == bcell(a0, y, r)); if y != x { assert(names(b1, y) <==> names(b, y)); if names(b, y) { assert(column_of(b1, y) == column_of(b, y)); } } }
}
// ---- all batches ----
struct Batches<'a> { m: Ghost<Map<B, MutableBatch<'a>>> }
impl<'a> Batches<'a> {
    #[verifier::external_body] fn new() -> (r: Self) ensures r.m@ == Map::<B, MutableBatch<'a>>::empty() { unimplemented!() }
    // HashMap::get_mut, or else entry().or_insert_with(MutableBatch::new)
    #[verifier::external_body] fn of(&mut self, k: &[u8]) -> (r: &mut MutableBatch<'a>)
        ensures old(self).m@.dom().contains(k@) ==> *r == old(self).m@[k@], !old(self).m@.dom().contains(k@) ==> r.columns@.len() == 0 && r.row_count == 0 && r.column_names.m@ == Map::<B, usize>::empty(), final(self).m@ == old(self).m@.insert(k@, *final(r)) { unimplemented!() }
    // iter_mut: each batch once
    #[verifier::external_body] fn finish_each(&mut self)
        requires forall|t: B| #[trigger] old(self).m@.dom().contains(t) ==> full(old(self).m@[t], old(self).m@[t].row_count as int)
        ensures final(self).m@.dom() == old(self).m@.dom(), forall|t: B| #[trigger] old(self).m@.dom().contains(t) ==> finished(old(self).m@[t], final(self).m@[t]) { unimplemented!() }
}
spec fn finished(b0: MutableBatch, b1: MutableBatch) -> bool {
    &&& b1.row_count == b0.row_count && b1.column_names.m@ == b0.column_names.m@ && b1.columns@.len() == b0.columns@.len()
    &&& forall|i: int| 0 <= i < b1.columns@.len() ==> padded(b0.columns@[i], #[trigger] b1.columns@[i], b0.row_count as int)
}
spec fn padded(c0: Column, c: Column, n: int) -> bool { &&& c.column_type == c0.column_type &&& vlen(c) == n &&& ptype(c.column_data.primary_data) == ptype(c0.column_data.primary_data) &&& (dlen(c0.column_data.primary_data) > 0 ==> dlen(c.column_data.primary_data) == n) &&& forall|r: int| #[trigger] cell(c, r) == cell(c0, r) }
//@extract common/models/src/mutable_batch.rs MutableBatch::finish
@header impl<'a> MutableBatch<'a>
@subst /for column in self\.columns\.iter_mut\(\) \{/ => let ghost s0 = *self; let mut ci: usize = 0; while ci < self.columns.len() { let ghost s1 = *self; let column = &mut self.columns[ci]; let ghost c0 = *column;
@subst /match column\.column_data\.primary_data \{/ => match &mut column.column_data.primary_data {
@subst /ref mut value/ => value
@subst /"".as_bytes\(\)/ => no_bytes()
@subst /\.append\(&mut vec!\[([^;]+); ([^\]]+)\]\)/ => .append(&mut zeros(\1, \2))
@subst /zeros\(0, self/ => zeros(0, self
@subst /self\.row_count/ => n_rows
@at start
    let n_rows = self.row_count;
@spec
    requires full(*old(self), old(self).row_count as int)
    ensures finished(*old(self), *final(self))
@loop 0
    invariant s0 == *old(self), full(s0, n_rows as int), n_rows == s0.row_count, self.row_count == s0.row_count, self.column_names.m@ == s0.column_names.m@, self.columns@.len() == s0.columns@.len(), ci <= self.columns@.len(),
        forall|i: int| 0 <= i < ci ==> padded(s0.columns@[i], #[trigger] self.columns@[i], n_rows as int), forall|i: int| ci <= i < s0.columns@.len() ==> #[trigger] self.columns@[i] == s0.columns@[i]
    decreases self.columns@.len() - ci
@at loop-end 0
    proof { let c1 = self.columns@[ci as int];
        assert(col_ok(s0.columns@[ci as int], n_rows as int));
        assert forall|r: int| #[trigger] cell(c1, r) == cell(c0, r) by { if 0 <= r < vlen(c0) { assert(c1.column_data.valid.v@[r] == c0.column_data.valid.v@[r]); assert(dat(c1.column_data.primary_data, r) == dat(c0.column_data.primary_data, r)); } else if 0 <= r < vlen(c1) { assert(!c1.column_data.valid.v@[r]); } }
        assert(padded(c0, c1, n_rows as int)); }
    ci = ci + 1;
@end
spec fn of_table(s: Seq<Line>, k: int, t: B) -> Seq<Line> decreases k { if k <= 0 { Seq::empty() } else if s[k - 1].table@ == t { of_table(s, k - 1, t).push(s[k - 1]) } else { of_table(s, k - 1, t) } }
// the batch holds these rows, and nothing else
spec fn holds(b: MutableBatch, rows: Seq<Line>) -> bool { b.row_count == rows.len() && (forall|x: B, r: int| 0 <= r < rows.len() ==> #[trigger] bcell(b, x, r) == says(rows[r], x)) && (forall|x: B| #[trigger] names(b, x) ==> exists|r: int| 0 <= r < rows.len() && says(#[trigger] rows[r], x) is Some) }
spec fn table_in(s: Seq<Line>, k: int, t: B) -> bool { exists|i: int| 0 <= i < k && #[trigger] s[i].table@ == t }
spec fn so_far(m: Map<B, MutableBatch>, s: Seq<Line>, k: int) -> bool {
    &&& forall|t: B| #[trigger] m.dom().contains(t) <==> of_table(s, k, t).len() > 0
    &&& forall|t: B| #[trigger] m.dom().contains(t) ==> full(m[t], m[t].row_count as int) && holds(m[t], of_table(s, k, t))
}
proof fn lemma_len(s: Seq<Line>, k: int, t: B) requires 0 <= k <= s.len() ensures of_table(s, k, t).len() <= k decreases k { if k > 0 { lemma_len(s, k - 1, t); } }
proof fn lemma_next(m: Map<B, MutableBatch>, m1: Map<B, MutableBatch>, s: Seq<Line>, k: int, a0: MutableBatch, a1: MutableBatch, b1: MutableBatch, n: int)
    requires 0 <= k < s.len(), so_far(m, s, k), n >= 0, m.dom().contains(s[k].table@) ==> a0 == m[s[k].table@] && n == m[s[k].table@].row_count, !m.dom().contains(s[k].table@) ==> n == 0 && (forall|x: B| !names(a0, x)),
        row(a0, a1, s[k], s[k].tags@.len() as int, s[k].fields@.len() as int, true, n), b1.row_count == n + 1, b1.columns == a1.columns, b1.column_names == a1.column_names, m1 == m.insert(s[k].table@, b1)
    ensures so_far(m1, s, k + 1)
{
    let t = s[k].table@; let rows = of_table(s, k, t); let rows1 = of_table(s, k + 1, t);
    assert(rows1 == rows.push(s[k]));
    assert(rows.len() == n) by { if m.dom().contains(t) { assert(holds(m[t], rows)); } }
    assert forall|u: B| #[trigger] m1.dom().contains(u) implies full(m1[u], m1[u].row_count as int) && holds(m1[u], of_table(s, k + 1, u)) by {
        if u != t { assert(m.dom().contains(u)); assert(of_table(s, k + 1, u) == of_table(s, k, u)); } else {
            assert forall|i: int| 0 <= i < b1.columns@.len() implies vlen(#[trigger] b1.columns@[i]) <= n + 1 && dlen(b1.columns@[i].column_data.primary_data) <= n + 1 && col_ok(b1.columns@[i], n + 1) by { assert(col_ok(a1.columns@[i], n)); }
            assert forall|x: B| #[trigger] names(b1, x) implies b1.column_names.m@[x] < b1.columns@.len() by { assert(names(a1, x)); }
            assert forall|x: B, y: B| names(b1, x) && names(b1, y) && b1.column_names.m@[x] == b1.column_names.m@[y] implies x == y by { assert(names(a1, x) && names(a1, y)); }
            assert(wf(b1, n + 1));
            assert forall|x: B, r: int| 0 <= r < rows1.len() implies #[trigger] bcell(b1, x, r) == says(rows1[r], x) by {
                assert(bcell(b1, x, r) == bcell(a1, x, r));
                if r < n { assert(bcell(a1, x, r) == bcell(a0, x, r)); assert(rows1[r] == rows[r]); } else {
                    assert(names(a1, x) <==> names(a0, x) || says(s[k], x) is Some);
                    if names(a1, x) && says(s[k], x) is None { assert(vlen(column_of(a1, x)) <= n); }
                }
            }
            assert forall|x: B| #[trigger] names(b1, x) implies exists|r: int| 0 <= r < rows1.len() && says(#[trigger] rows1[r], x) is Some by {
                assert(names(a1, x));
                if says(s[k], x) is Some { assert(rows1[n] == s[k]); } else { assert(names(a0, x)); assert(m.dom().contains(t)); let r = choose|r: int| 0 <= r < rows.len() && says(#[trigger] rows[r], x) is Some; assert(rows1[r] == rows[r]); }
            }
        }
    }
    assert forall|u: B| #[trigger] m1.dom().contains(u) <==> of_table(s, k + 1, u).len() > 0 by { if u != t { assert(m.dom().contains(u) <==> of_table(s, k, u).len() > 0); } }
}
proof fn lemma_done(b: MutableBatch, b1: MutableBatch, rows: Seq<Line>)
    requires full(b, b.row_count as int), holds(b, rows), finished(b, b1), b.row_count > 0
    ensures holds(b1, rows), forall|x: B| #[trigger] names(b1, x) ==> vlen(column_of(b1, x)) == rows.len() && dlen(column_of(b1, x).column_data.primary_data) == rows.len() && ptype(column_of(b1, x).column_data.primary_data) == dtype(column_of(b1, x).column_type)
{
    assert forall|x: B| #[trigger] names(b1, x) implies vlen(column_of(b1, x)) == rows.len() && dlen(column_of(b1, x).column_data.primary_data) == rows.len() && ptype(column_of(b1, x).column_data.primary_data) == dtype(column_of(b1, x).column_type) && column_of(b1, x).column_type == column_of(b, x).column_type by {
        assert(names(b, x)); let i = b.column_names.m@[x] as int; assert(padded(b.columns@[i], b1.columns@[i], b.row_count as int));
        let r = choose|r: int| 0 <= r < rows.len() && says(#[trigger] rows[r], x) is Some;
        assert(bcell(b, x, r) == says(rows[r], x)); assert(vlen(b.columns@[i]) > 0); assert(col_ok(b.columns@[i], b.row_count as int));
    }
    assert forall|x: B, r: int| 0 <= r < rows.len() implies #[trigger] bcell(b1, x, r) == says(rows[r], x) by { assert(bcell(b, x, r) == says(rows[r], x)); assert(names(b, x) <==> names(b1, x)); if names(b, x) { let i = b.column_names.m@[x] as int; assert(padded(b.columns@[i], b1.columns@[i], b.row_count as int)); assert(cell(b1.columns@[i], r) == cell(b.columns@[i], r)); } }
    assert forall|x: B| #[trigger] names(b1, x) implies exists|r: int| 0 <= r < rows.len() && says(#[trigger] rows[r], x) is Some by { assert(names(b, x)); }
}
//@extract common/protocol_parser/src/lines_convert.rs fn line_to_batches
@subst /lines: &'a \[Line<'a>\]/ => lines: &'a [Line]
@subst /HashMap<String, MutableBatch<'a>>/ => Batches<'a>
@subst /HashMap::new\(\)/ => Batches::new()
@subst /for line in lines\.iter\(\) \{/ => let mut li: usize = 0; while li < lines.len() { let line = &lines[li]; let ghost m0 = batches.m@; proof { lemma_len(lines@, li as int, line.table@); }
@subst /match batches\.get_mut\(line\.table\.as_ref\(\)\) \{[\s\S]*?\.or_insert_with\(MutableBatch::new\),\s*\};/ => batches.of(line.table.as_slice()); let ghost a0 = *batch;
@subst /for \(tag_key, tag_value\) in line\.tags\.iter\(\) \{/ => let mut ti: usize = 0; while ti < line.tags.len() { let tag_key = &line.tags[ti].0; let tag_value = &line.tags[ti].1; let ghost b0 = *batch; let ghost mut c0: Column = arbitrary(); let ghost it: Item = (PhysicalCType::Tag, Val::S(tag_value@)); let ghost key: B = tag_key@; proof { lemma_tag(*line, ti as int, tag_key@); }
@subst /for \(field_key, field_value\) in line\.fields\.iter\(\) \{/ => let mut fi: usize = 0; while fi < line.fields.len() { let field_key = &line.fields[fi].0; let field_value = &line.fields[fi].1; let ghost b0 = *batch; let ghost mut c0: Column = arbitrary(); let ghost it: Item = field(*field_value); let ghost key: B = field_key@; proof { lemma_field(*line, fi as int, field_key@); lemma_tag(*line, line.tags@.len() as int, field_key@); }
@subst /\s*\.map_err\(\|e\| Error::Common \{[\s\S]*?\}\)\?/ => ?
@subst /return Err\(Error::Common \{[\s\S]*?\}\)/ => return Err(Error {})
@subst /\.column_mut\("time"/ => .column_mut(time_name()
@subst /\.column_mut\((\w+), / => .column_mut(\1.as_slice(), 
@subst /let col = batch/ => let ghost b0 = *batch; let col = batch
@subst /match col\.column_data\.primary_data \{/ => match &mut col.column_data.primary_data {
@subst /ref mut data/ => data
@subst /data\.resize\(row_count \+ 1, "".as_bytes\(\)\)/ => resize(data, row_count + 1, no_bytes())
@subst /data\.resize\(/ => resize(data, 
@subst /tag_value\.as_bytes\(\)/ => tag_value.as_slice()
@subst /data\[row_count\] = value;/ => data.set(row_count, value.as_slice());
@subst /data\[row_count\] = ([^;]+);/ => data.set(row_count, \1);
@subst /(let ghost b0 = \*batch; let col = batch\s*\.column_mut\((\w+)(?:\.as_slice\(\)|\(\)),\s*[^;]*;)/ => \1 proof { c0 = *col; }
@subst /let time = line\.timestamp;/ => let time = line.timestamp; let ghost key: B = time_(); let ghost it = time_of(*line); let ghost mut c0: Column = arbitrary(); proof { lemma_tag(*line, line.tags@.len() as int, key); lemma_field(*line, line.fields@.len() as int, key); }
@subst /batches\.iter_mut\(\)\.for_each\(\|\(_(?:unused)?, batch\)\| \{\s*batch\.finish\(\);\s*\}\);/ => let ghost m0 = batches.m@; batches.finish_each();
@ret r
@spec
    requires forall|i: int| 0 <= i < lines@.len() ==> distinct(#[trigger] lines@[i]), lines@.len() < usize::MAX
    ensures r matches Ok(b) ==> {
        // a batch for each table, in it a row for each line of the table, in order; in each column of a row what the line says of the name, and of its type; nothing where it says nothing
        &&& forall|t: B| #[trigger] b.m@.dom().contains(t) <==> of_table(lines@, lines@.len() as int, t).len() > 0
        &&& forall|t: B| #[trigger] b.m@.dom().contains(t) ==> holds(b.m@[t], of_table(lines@, lines@.len() as int, t))
        // and every column is as long as the batch
        &&& forall|t: B, x: B| b.m@.dom().contains(t) && #[trigger] names(b.m@[t], x) ==> vlen(column_of(b.m@[t], x)) == b.m@[t].row_count && dlen(column_of(b.m@[t], x).column_data.primary_data) == b.m@[t].row_count && ptype(column_of(b.m@[t], x).column_data.primary_data) == dtype(column_of(b.m@[t], x).column_type)
    }
@loop 0
    invariant forall|i: int| 0 <= i < lines@.len() ==> distinct(#[trigger] lines@[i]), lines@.len() < usize::MAX, li <= lines@.len(), so_far(batches.m@, lines@, li as int)
    decreases lines@.len() - li
@loop 1
    invariant distinct(*line), ti <= line.tags@.len(), row_count < lines@.len() < usize::MAX, row(a0, *batch, *line, ti as int, 0, false, row_count as int)
    decreases line.tags@.len() - ti
@at loop-end 1
    proof { lemma_put(b0, *batch, key, c0, column_of(*batch, key), it, row_count as int); lemma_row(a0, b0, *batch, *line, ti as int, 0, false, ti + 1, 0, false, row_count as int, key, it); }
    ti = ti + 1;
@loop 2
    invariant distinct(*line), fi <= line.fields@.len(), row_count < lines@.len() < usize::MAX, row(a0, *batch, *line, line.tags@.len() as int, fi as int, false, row_count as int)
    decreases line.fields@.len() - fi
@at loop-end 2
    proof { lemma_put(b0, *batch, key, c0, column_of(*batch, key), it, row_count as int); lemma_row(a0, b0, *batch, *line, line.tags@.len() as int, fi as int, false, line.tags@.len() as int, fi + 1, false, row_count as int, key, it); }
    fi = fi + 1;
@at before /batch\.row_count \+= 1;/
    let ghost a1 = *batch;
    proof { lemma_put(b0, a1, key, c0, column_of(a1, key), it, row_count as int); lemma_row(a0, b0, a1, *line, line.tags@.len() as int, line.fields@.len() as int, false, line.tags@.len() as int, line.fields@.len() as int, true, row_count as int, key, it); }
@at tail
    proof { assert forall|t: B| #[trigger] batches.m@.dom().contains(t) implies holds(batches.m@[t], of_table(lines@, lines@.len() as int, t)) && forall|x: B| #[trigger] names(batches.m@[t], x) ==> vlen(column_of(batches.m@[t], x)) == batches.m@[t].row_count && dlen(column_of(batches.m@[t], x).column_data.primary_data) == batches.m@[t].row_count && ptype(column_of(batches.m@[t], x).column_data.primary_data) == dtype(column_of(batches.m@[t], x).column_type) by { assert(m0.dom().contains(t)); lemma_done(m0[t], batches.m@[t], of_table(lines@, lines@.len() as int, t)); } }
@at loop-end 0
    proof { lemma_next(m0, batches.m@, lines@, li as int, a0, a1, batches.m@[line.table@], row_count as int); }
    li = li + 1;
@end
fn main() {}
}
