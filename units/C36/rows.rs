use vstd::prelude::*;
verus! {
global size_of usize == 8;
type B = Seq<u8>;
struct Error {}
type TskvResult<T> = std::result::Result<T, Error>;
type ModelResult<T> = std::result::Result<T, Error>;
type ColumnId = u32;
#[derive(Clone, Copy)]
enum ColumnType { Unknown, Time, Tag, Field }
#[derive(Clone, Copy)]
enum FieldType { Unknown, Float, Integer, Unsigned, Boolean, String }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
enum Precision { MS, US, NS }
//@extract common/models/src/value_type.rs enum PhysicalDType
@derive PartialEq, Eq, Structural, Clone, Copy
@end
//@extract common/models/src/schema/tskv_table_schema.rs enum PhysicalCType
@derive PartialEq, Eq, Structural, Clone, Copy
@end
ghost enum Val { F(f64), I(i64), U(u64), S(B), B(bool) }
enum FieldVal { Float(f64), Integer(i64), Unsigned(u64), Boolean(bool), Bytes(Vec<u8>) }
spec fn fv(x: FieldVal) -> Val { match x { FieldVal::Float(k) => Val::F(k), FieldVal::Integer(k) => Val::I(k), FieldVal::Unsigned(k) => Val::U(k), FieldVal::Boolean(k) => Val::B(k), FieldVal::Bytes(s) => Val::S(s@) } }
spec fn fvs(x: Seq<Option<FieldVal>>) -> Seq<Option<Val>> { x.map_values(|o: Option<FieldVal>| match o { Some(k) => Some(fv(k)), None => None }) }
// ---- the flatbuffer of a table, as the generated accessors read it: assumed contracts ----
#[derive(Clone, Copy)]
struct Bits { v: Ghost<Seq<bool>> }
impl Bits {
    // arrow's BooleanBuffer over the bytes: so many of the bits; too few of them panic
    #[verifier::external_body] fn first(&self, n: usize) -> (r: Bits) requires n <= self.v@.len() ensures r.v@ == self.v@.take(n as int) { unimplemented!() }
    #[verifier::external_body] fn value(&self, i: usize) -> (r: bool) requires i < self.v@.len() ensures r == self.v@[i as int] { unimplemented!() }
}
struct Values<T> { v: Ghost<Seq<T>>, t: Option<T> }
impl<T> Values<T> { #[verifier::external_body] fn get(&self, i: usize) -> (r: T) requires i < self.v@.len() ensures r == self.v@[i as int] { unimplemented!() } }
struct Texts { v: Ghost<Seq<B>> }
impl Texts { #[verifier::external_body] fn get(&self, i: usize) -> (r: &'static [u8]) requires i < self.v@.len() ensures r@ == self.v@[i as int] { unimplemented!() } }
#[derive(Clone, Copy)]
struct Column { named: Ghost<B>, kind: ColumnType, dtype: FieldType, bits: Ghost<Seq<bool>>, floats: Ghost<Seq<f64>>, ints: Ghost<Seq<i64>>, uints: Ghost<Seq<u64>>, bools: Ghost<Seq<bool>>, texts: Ghost<Seq<B>> }
impl Column {
    #[verifier::external_body] fn name_ext(&self) -> (r: TskvResult<&'static [u8]>) ensures r matches Ok(n) ==> n@ == self.named@ { unimplemented!() }
    #[verifier::external_body] fn name(&self) -> (r: Option<&'static [u8]>) ensures r matches Some(n) ==> n@ == self.named@ { unimplemented!() }
    #[verifier::external_body] fn nullbit_ext(&self) -> (r: TskvResult<Bits>) ensures r matches Ok(b) ==> b.v@ == self.bits@ { unimplemented!() }
    #[verifier::external_body] fn nullbits(&self) -> (r: Option<Bits>) ensures r matches Some(b) ==> b.v@ == self.bits@ { unimplemented!() }
    fn column_type(&self) -> (r: ColumnType) ensures r == self.kind { self.kind }
    fn field_type(&self) -> (r: FieldType) ensures r == self.dtype { self.dtype }
    #[verifier::external_body] fn float_values_len(&self) -> (r: TskvResult<usize>) ensures r matches Ok(n) ==> n == self.floats@.len() { unimplemented!() }
    #[verifier::external_body] fn float_values(&self) -> (r: TskvResult<Values<f64>>) ensures r matches Ok(n) ==> n.v@ == self.floats@ { unimplemented!() }
    #[verifier::external_body] fn int_values_len(&self) -> (r: TskvResult<usize>) ensures r matches Ok(n) ==> n == self.ints@.len() { unimplemented!() }
    #[verifier::external_body] fn int_values(&self) -> (r: TskvResult<Values<i64>>) ensures r matches Ok(n) ==> n.v@ == self.ints@ { unimplemented!() }
    #[verifier::external_body] fn uint_values_len(&self) -> (r: TskvResult<usize>) ensures r matches Ok(n) ==> n == self.uints@.len() { unimplemented!() }
    #[verifier::external_body] fn uint_values(&self) -> (r: TskvResult<Values<u64>>) ensures r matches Ok(n) ==> n.v@ == self.uints@ { unimplemented!() }
    #[verifier::external_body] fn bool_values_len(&self) -> (r: TskvResult<usize>) ensures r matches Ok(n) ==> n == self.bools@.len() { unimplemented!() }
    #[verifier::external_body] fn bool_values(&self) -> (r: TskvResult<Values<bool>>) ensures r matches Ok(n) ==> n.v@ == self.bools@ { unimplemented!() }
    #[verifier::external_body] fn string_values_len(&self) -> (r: TskvResult<usize>) ensures r matches Ok(n) ==> n == self.texts@.len() { unimplemented!() }
    #[verifier::external_body] fn string_values(&self) -> (r: TskvResult<Texts>) ensures r matches Ok(n) ==> n.v@ == self.texts@ { unimplemented!() }
}
struct Columns { v: Ghost<Seq<Column>> }
impl Columns {
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.v@.len() { unimplemented!() }
    #[verifier::external_body] fn get(&self, i: usize) -> (r: Column) requires i < self.v@.len() ensures r == self.v@[i as int] { unimplemented!() }
}
#[verifier::external_body] fn mini(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
#[verifier::external_body] fn nones(n: usize) -> (r: Vec<Option<FieldVal>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) is None { unimplemented!() }
// ---- the schema of the table ----
struct FieldCType { t: Ghost<PhysicalCType> }
impl FieldCType { #[verifier::external_body] fn to_physical_type(&self) -> (r: PhysicalCType) ensures r == self.t@ { unimplemented!() } }
fn same_type(a: PhysicalCType, b: PhysicalCType) -> (r: bool) ensures r == (a == b) { a == b }
struct TableColumn { id: ColumnId, column_type: FieldCType }
struct FieldIds { m: Ghost<Map<u32, usize>>, n: usize }
impl FieldIds {
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.n { unimplemented!() }
    #[verifier::external_body] fn at(&self, id: &u32) -> (r: Option<usize>) ensures r == (if self.m@.dom().contains(*id) { Some(self.m@[*id]) } else { None }) { unimplemented!() }
}
struct TskvTableSchema { cols: Ghost<Map<B, TableColumn>>, ids: FieldIds, prec: Ghost<Precision> }
impl TskvTableSchema {
    #[verifier::external_body] fn column(&self, n: &[u8]) -> (r: Option<&TableColumn>) ensures r matches Some(c) ==> self.cols@.dom().contains(n@) && self.cols@[n@] == *c, r is None ==> !self.cols@.dom().contains(n@) { unimplemented!() }
    fn fields_id(&self) -> (r: &FieldIds) ensures *r == self.ids { &self.ids }
    #[verifier::external_body] fn time_column_precision(&self) -> (r: Precision) ensures r == self.prec@ { unimplemented!() }
}
// what timestamp_convert computes is proved in C14
spec fn conv(a: Precision, b: Precision, t: i64) -> Option<i64>;
#[verifier::external_body] fn timestamp_convert(a: Precision, b: Precision, t: i64) -> (r: Option<i64>) ensures r == conv(a, b, t) { unimplemented!() }
// ---- what a row of the table is ----
spec fn dt(c: Column) -> Option<PhysicalDType> { match c.dtype { FieldType::Integer => Some(PhysicalDType::Integer), FieldType::Float => Some(PhysicalDType::Float), FieldType::Unsigned => Some(PhysicalDType::Unsigned), FieldType::Boolean => Some(PhysicalDType::Boolean), FieldType::String => Some(PhysicalDType::String), FieldType::Unknown => None } }
spec fn len_(c: Column) -> int { match c.dtype { FieldType::Integer => c.ints@.len() as int, FieldType::Float => c.floats@.len() as int, FieldType::Unsigned => c.uints@.len() as int, FieldType::Boolean => c.bools@.len() as int, FieldType::String => c.texts@.len() as int, FieldType::Unknown => 0 } }
spec fn val(c: Column, r: int) -> Val { match c.dtype { FieldType::Integer => Val::I(c.ints@[r]), FieldType::Float => Val::F(c.floats@[r]), FieldType::Unsigned => Val::U(c.uints@[r]), FieldType::Boolean => Val::B(c.bools@[r]), _ => Val::S(c.texts@[r]) } }
// the value of a field column in a row
spec fn given(c: Column, r: int) -> Option<Val> { if c.kind is Field && dt(c) is Some && c.bits@[r] { Some(val(c, r)) } else { None } }
// the place it has in a row: that of the field of the same name and type
spec fn place(s: TskvTableSchema, c: Column) -> Option<int> {
    if s.cols@.dom().contains(c.named@) && s.cols@[c.named@].column_type.t@ == PhysicalCType::Field(dt(c)->0) && s.ids.m@.dom().contains(s.cols@[c.named@].id) { Some(s.ids.m@[s.cols@[c.named@].id] as int) } else { None }
}
spec fn fld(s: TskvTableSchema, cs: Seq<Column>, k: int, r: int, j: int) -> Option<Val> decreases k { if k <= 0 { None } else if given(cs[k - 1], r) is Some && place(s, cs[k - 1]) == Some(j) { given(cs[k - 1], r) } else { fld(s, cs, k - 1, r, j) } }
spec fn any(s: TskvTableSchema, cs: Seq<Column>, k: int, r: int) -> bool decreases k { k > 0 && ((given(cs[k - 1], r) is Some && place(s, cs[k - 1]) is Some) || any(s, cs, k - 1, r)) }
spec fn time_col(cs: Seq<Column>, k: int) -> Option<Column> decreases k { if k <= 0 { None } else if cs[k - 1].kind is Time { Some(cs[k - 1]) } else { time_col(cs, k - 1) } }
spec fn all_placed(s: TskvTableSchema, cs: Seq<Column>, k: int, r: int) -> bool { forall|i: int| 0 <= i < k ==> (given(#[trigger] cs[i], r) is Some ==> place(s, cs[i]) is Some) }
ghost struct Row { ts: i64, fields: Seq<Option<Val>> }
spec fn row(s: TskvTableSchema, p: Precision, cs: Seq<Column>, r: int) -> Row { Row { ts: conv(p, s.prec@, time_col(cs, cs.len() as int)->0.ints@[r])->0, fields: Seq::new(s.ids.n as nat, |j: int| fld(s, cs, cs.len() as int, r, j)) } }
// the rows that hold a value
spec fn rows(s: TskvTableSchema, p: Precision, cs: Seq<Column>, idx: Seq<usize>, k: int) -> Seq<Row> decreases k { if k <= 0 { Seq::empty() } else if any(s, cs, cs.len() as int, idx[k - 1] as int) { rows(s, p, cs, idx, k - 1).push(row(s, p, cs, idx[k - 1] as int)) } else { rows(s, p, cs, idx, k - 1) } }
// a flatbuffer as mutable_batches_to_point and arrow_array_to_points make it: every column has a value and a bit for row r
spec fn sound(cs: Seq<Column>, r: int) -> bool { forall|i: int| 0 <= i < cs.len() ==> ((#[trigger] cs[i]).kind is Field && dt(cs[i]) is Some ==> r < len_(cs[i]) <= cs[i].bits@.len()) && (cs[i].kind is Time ==> r < cs[i].ints@.len()) && (cs[i].kind is Tag ==> r < cs[i].texts@.len() <= cs[i].bits@.len()) }
//@extract tskv/src/mem_cache/row_data.rs struct RowData
@derive
@end
spec fn row_(x: RowData) -> Row { Row { ts: x.ts, fields: fvs(x.fields@) } }
spec fn rows_(x: Seq<RowData>) -> Seq<Row> { x.map_values(|d: RowData| row_(d)) }
proof fn step(s: TskvTableSchema, cs: Seq<Column>, k: int, r: int)
    requires 0 < k <= cs.len()
    ensures forall|j: int| #[trigger] fld(s, cs, k, r, j) == (if given(cs[k - 1], r) is Some && place(s, cs[k - 1]) == Some(j) { given(cs[k - 1], r) } else { fld(s, cs, k - 1, r, j) })
{}
proof fn time_at(cs: Seq<Column>, k: int)
    requires 0 <= k <= cs.len()
    ensures time_col(cs, k) matches Some(c) ==> exists|i: int| 0 <= i < k && #[trigger] cs[i] == c && c.kind is Time
    decreases k
{ if k > 0 { if !(cs[k - 1].kind is Time) { time_at(cs, k - 1); } else { assert(cs[k - 1] == time_col(cs, k)->0); } } }
//@extract tskv/src/mem_cache/row_data.rs RowData::field_index
@subst /&HashMap<ColumnId, usize>/ => &FieldIds
@subst /field\.column_type\.to_physical_type\(\) != PhysicalCType::Field\(data_type\)/ => !same_type(field.column_type.to_physical_type(), PhysicalCType::Field(data_type))
@subst /fields_id\.get\(&field\.id\)\.copied\(\)/ => fields_id.at(&field.id)
@ret r
@spec
    requires *fields_id == schema.ids
    ensures r matches Ok(o) ==> (match o { Some(i) => dt(*column) is Some && place(*schema, *column) == Some(i as int), None => dt(*column) is None || place(*schema, *column) is None })
@end
//@extract tskv/src/mem_cache/row_data.rs RowData::point_to_row_data
@log
@subst /&Vector<ForwardsUOffset<Column>>/ => &Columns
@subst /protos::models::ColumnType/ => ColumnType
@subst /for row_count in row_idx\.into_iter\(\) \{/ => let ghost cs = columns.v@; let ghost idx = row_idx@; let mut ri: usize = 0; while ri < row_idx.len() { let row_count = row_idx[ri]; ri = ri + 1; let ghost res0 = res@;
@subst /for column in columns \{/ => let mut ci: usize = 0; while ci < columns.len() { let column = columns.get(ci); ci = ci + 1; let ghost f0 = fields@; proof { step(*schema, cs, ci as int, row_count as int); time_at(cs, ci as int); assert(forall|j: int| 0 <= j < f0.len() ==> #[trigger] fvs(f0)[j] == fld(*schema, cs, ci - 1, row_count as int, j)); }
@subst /vec!\[None; fields_id\.len\(\)\]/ => nones(fields_id.len())
@subst /Vec::with_capacity\(row_idx\.len\(\)\)/ => Vec::new()
@subst /BooleanBuffer::new\(\s*Buffer::from_slice_ref\(column_nullbit\.bytes\(\)\),\s*0,\s*len,?\s*\)/ => column_nullbit.first(len)
@subst /return Err\(CommonSnafu \{[\s\S]*?\.build\(\)\)/ => return Err(Error {})
@subst /return Err\(FieldsIsEmptySnafu\.build\(\)\)/ => return Err(Error {})
@subst /\.context\(CommonSnafu \{[\s\S]*?\}\)\?/ => .ok_or(Error {})?
@subst /MiniVec::from\(val\.as_bytes\(\)\)/ => mini(val)
@subst /fields\[\*?(\w+)\] = ([^;]*);/ => fields.set(\1, \2);
@ret r
@spec
    requires forall|id: u32| schema.ids.m@.dom().contains(id) ==> schema.ids.m@[id] < schema.ids.n, forall|i: int| 0 <= i < row_idx@.len() ==> sound(columns.v@, #[trigger] row_idx@[i] as int)
    ensures r matches Ok(v) ==> {
        // a row for each row that has a value, in order, with its time and each value at its field
        &&& rows_(v@) == rows(*schema, from_precision, columns.v@, row_idx@, row_idx@.len() as int)
        &&& time_col(columns.v@, columns.v@.len() as int) is Some || v@.len() == 0
        // a write, as opposed to a replay, leaves no row and no value out
        &&& !recover_from_wal ==> v@.len() == row_idx@.len() && forall|i: int| 0 <= i < row_idx@.len() ==> all_placed(*schema, columns.v@, columns.v@.len() as int, #[trigger] row_idx@[i] as int)
    }
@loop 0
    invariant cs == columns.v@, idx == row_idx@, ri <= row_idx@.len(), *fields_id == schema.ids, forall|id: u32| schema.ids.m@.dom().contains(id) ==> schema.ids.m@[id] < schema.ids.n, forall|i: int| 0 <= i < row_idx@.len() ==> sound(columns.v@, #[trigger] row_idx@[i] as int),
        rows_(res@) == rows(*schema, from_precision, cs, idx, ri as int), time_col(cs, cs.len() as int) is Some || res@.len() == 0,
        !recover_from_wal ==> res@.len() == ri && forall|i: int| 0 <= i < ri ==> all_placed(*schema, cs, cs.len() as int, #[trigger] idx[i] as int)
    decreases row_idx@.len() - ri
@loop 1
    invariant cs == columns.v@, idx == row_idx@, 0 < ri <= row_idx@.len(), row_count == row_idx@[ri - 1], sound(cs, row_count as int), *fields_id == schema.ids, forall|id: u32| schema.ids.m@.dom().contains(id) ==> schema.ids.m@[id] < schema.ids.n, ci <= cs.len(),
        fields@.len() == schema.ids.n, forall|j: int| 0 <= j < fields@.len() ==> #[trigger] fvs(fields@)[j] == fld(*schema, cs, ci as int, row_count as int, j), has_fields == any(*schema, cs, ci as int, row_count as int), time_column == time_col(cs, ci as int),
        !recover_from_wal ==> all_placed(*schema, cs, ci as int, row_count as int)
    decreases cs.len() - ci
@at after-loop 1
    proof { time_at(cs, cs.len() as int); assert(fvs(fields@) =~= row(*schema, from_precision, cs, row_count as int).fields); }
@at loop-end 1
    proof { assert forall|j: int| 0 <= j < fields@.len() implies #[trigger] fvs(fields@)[j] == fld(*schema, cs, ci as int, row_count as int, j) by { assert(fvs(f0)[j] == fld(*schema, cs, ci - 1, row_count as int, j)); } }
@at loop-end 0
    proof { assert(rows_(res@) =~= rows_(res0).push(row(*schema, from_precision, cs, row_count as int))); }
@end
// ---- the series of a row: its table and the tags it has, each by the id of its column, sorted ----
struct Tag { key: Vec<u8>, value: Vec<u8> }
ghost struct T { key: B, value: B }
spec fn t_(t: Tag) -> T { T { key: t.key@, value: t.value@ } }
spec fn ts_(t: Seq<Tag>) -> Seq<T> { t.map_values(|x: Tag| t_(x)) }
spec fn digits(id: u32) -> B;
spec fn sorted_by_key(t: Seq<T>) -> Seq<T>;
#[verifier::external_body] fn tag_of(id: u32, v: Vec<u8>) -> (r: Tag) ensures t_(r) == (T { key: digits(id), value: v@ }) { unimplemented!() }
// std's stable sort by key
#[verifier::external_body] fn sort_tags(t: &mut Vec<Tag>) ensures ts_(final(t)@) == sorted_by_key(ts_(old(t)@)) { unimplemented!() }
#[verifier::external_body] fn bytes(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
spec fn tag_at(s: TskvTableSchema, cs: Seq<Column>, i: int, r: int) -> T { T { key: digits(s.cols@[cs[i].named@].id), value: cs[i].texts@[r] } }
spec fn tags_(s: TskvTableSchema, cs: Seq<Column>, idx: Seq<usize>, k: int, r: int) -> Seq<T> decreases k { if k <= 0 { Seq::empty() } else if cs[idx[k - 1] as int].bits@[r] { tags_(s, cs, idx, k - 1, r).push(tag_at(s, cs, idx[k - 1] as int, r)) } else { tags_(s, cs, idx, k - 1, r) } }
//@extract common/models/src/series_info.rs struct SeriesKey
@derive
@subst /String/ => Vec<u8>
@end
//@extract common/models/src/series_info.rs SeriesKey::build_series_key
@subst /&Vector<ForwardsUOffset<Column>>/ => &Columns
@subst /tab_name: &str/ => tab_name: &[u8]
@subst /tab_name\.to_string\(\)/ => bytes(tab_name)
@subst /for (&?\w+) in tag_idx(?:\.iter\(\))? \{/ => let ghost cs = columns.v@; let mut ti: usize = 0; while ti < tag_idx.len() { let idx = &tag_idx[ti]; ti = ti + 1; let ghost t0 = tags@;
@subst /let mut tags = Vec::new\(\)/ => let mut tags: Vec<Tag> = Vec::new()
@subst /\.context\(Invalid\w+ \{[\s\S]*?\}\)\?/ => .ok_or(Error {})?
@subst /\.context\(InvalidPointSnafu\)\?/ => ?
@subst /BooleanBuffer::new\(\s*Buffer::from_slice_ref\(tag_nullbit_buffer\.bytes\(\)\),\s*0,\s*len,?\s*\)/ => tag_nullbit_buffer.first(len)
@subst /Tag::new_with_column_id\(/ => tag_of(
@subst /tag_value\.as_bytes\(\)\.to_vec\(\)/ => bytes(tag_value)
@subst /tag::sort_tags\(&mut tags\)/ => sort_tags(&mut tags)
@ret r
@spec
    requires sound(columns.v@, row_count as int), forall|i: int| 0 <= i < tag_idx@.len() ==> (#[trigger] tag_idx@[i]) < columns.v@.len() && columns.v@[tag_idx@[i] as int].kind is Tag
    ensures r matches Ok(k) ==> k.table@ == tab_name@ && ts_(k.tags@) == sorted_by_key(tags_(*table_schema, columns.v@, tag_idx@, tag_idx@.len() as int, row_count as int))
@loop 0
    invariant cs == columns.v@, ti <= tag_idx@.len(), sound(cs, row_count as int), forall|i: int| 0 <= i < tag_idx@.len() ==> (#[trigger] tag_idx@[i]) < cs.len() && cs[tag_idx@[i] as int].kind is Tag, ts_(tags@) == tags_(*table_schema, cs, tag_idx@, ti as int, row_count as int)
    decreases tag_idx@.len() - ti
@at loop-end 0
    proof { assert(ts_(tags@) =~= ts_(t0).push(tag_at(*table_schema, cs, tag_idx@[ti - 1] as int, row_count as int))); }
@end
// ---- what the columns of a table are: every tag is in its place among the tags, every field among the fields ----
spec fn of_kind(cs: Seq<Column>, k: int, f: bool) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else if (f && cs[k - 1].kind is Field) || (!f && cs[k - 1].kind is Tag) { of_kind(cs, k - 1, f).push(k - 1) } else { of_kind(cs, k - 1, f) } }
spec fn ix(s: Seq<usize>) -> Seq<int> { s.map_values(|i: usize| i as int) }
spec fn names(s: Seq<&'static [u8]>) -> Seq<B> { s.map_values(|i: &'static [u8]| i@) }
spec fn named(cs: Seq<Column>, s: Seq<int>) -> Seq<B> { s.map_values(|i: int| cs[i].named@) }
spec fn types(cs: Seq<Column>, s: Seq<int>) -> Seq<FieldType> { s.map_values(|i: int| cs[i].dtype) }
struct FbSchema { table: &'static [u8], time_index: usize, tag_indexes: Vec<usize>, tag_names: Vec<&'static [u8]>, field_indexes: Vec<usize>, field_names: Vec<&'static [u8]>, field_types: Vec<FieldType> }
//@extract tskv/src/database.rs FbSchema::from_fb_column
@header impl FbSchema
@subst /Vector<'a, ForwardsUOffset<Column<'a>>>/ => Columns
@subst /table: &'a str/ => table: &'static [u8]
@subst /FbSchema<'a>/ => FbSchema
@subst /let mut (tag|field)_indexes = vec!\[\];/ => let mut \1_indexes: Vec<usize> = Vec::new();
@subst /let mut (tag|field)_names = vec!\[\];/ => let mut \1_names: Vec<&'static [u8]> = Vec::new();
@subst /let mut field_types = vec!\[\];/ => let mut field_types: Vec<FieldType> = Vec::new();
@subst /for \(index, column\) in columns\.iter\(\)\.enumerate\(\) \{/ => let ghost cs = columns.v@; let mut ci: usize = 0; while ci < columns.len() { let index = ci; let column = columns.get(ci); ci = ci + 1; let ghost (a0, b0, c0, d0, e0) = (tag_indexes@, tag_names@, field_indexes@, field_names@, field_types@);
@subst /Cow::Borrowed\(column_name\)/ => column_name
@subst /\.context\(CommonSnafu \{[\s\S]*?\}\)\?/ => .ok_or(Error {})?
@subst /return Err\(CommonSnafu \{[\s\S]*?\.build\(\)\);/ => return Err(Error {});
@ret r
@spec
    requires columns.v@.len() < usize::MAX
    ensures r matches Ok(f) ==> { let (cs, n) = (columns.v@, columns.v@.len() as int);
        &&& f.table == table && f.time_index < n && cs[f.time_index as int].kind is Time
        &&& ix(f.tag_indexes@) == of_kind(cs, n, false) && names(f.tag_names@) == named(cs, of_kind(cs, n, false))
        &&& ix(f.field_indexes@) == of_kind(cs, n, true) && names(f.field_names@) == named(cs, of_kind(cs, n, true)) && f.field_types@ == types(cs, of_kind(cs, n, true))
    }
@loop 0
    invariant cs == columns.v@, ci <= cs.len() < usize::MAX, time_index == usize::MAX || (time_index < cs.len() && cs[time_index as int].kind is Time),
        ix(tag_indexes@) == of_kind(cs, ci as int, false), names(tag_names@) == named(cs, of_kind(cs, ci as int, false)), ix(field_indexes@) == of_kind(cs, ci as int, true), names(field_names@) == named(cs, of_kind(cs, ci as int, true)), field_types@ == types(cs, of_kind(cs, ci as int, true))
    decreases cs.len() - ci
@at loop-end 0
    proof { let k = ci - 1; let (t, f) = (of_kind(cs, k, false), of_kind(cs, k, true));
        assert(named(cs, t.push(k)) =~= named(cs, t).push(cs[k].named@)); assert(named(cs, f.push(k)) =~= named(cs, f).push(cs[k].named@)); assert(types(cs, f.push(k)) =~= types(cs, f).push(cs[k].dtype));
        if cs[k].kind is Tag { assert(ix(tag_indexes@) =~= ix(a0).push(k)); assert(names(tag_names@) =~= names(b0).push(cs[k].named@)); }
        if cs[k].kind is Field { assert(ix(field_indexes@) =~= ix(c0).push(k)); assert(names(field_names@) =~= names(d0).push(cs[k].named@)); } }
@end
// ---- the rows of a table by series: each series gets exactly its rows, in order ----
ghost struct K { table: B, tags: Seq<T> }
spec fn key_(k: SeriesKey) -> K { K { table: k.table@, tags: ts_(k.tags@) } }
//@extract common/models/src/series_info.rs SeriesKey::tags
@ret r
@spec
    ensures *r == self.tags
@end
//@extract common/models/src/series_info.rs SeriesKey::table
@subst /String/ => Vec<u8>
@ret r
@spec
    ensures *r == self.table
@end
impl SeriesKey { #[verifier::external_body] fn clone(&self) -> (r: SeriesKey) ensures key_(r) == key_(*self) { unimplemented!() } }
struct TimeRange { min_ts: i64, max_ts: i64 }
impl TimeRange {
    fn none() -> (r: TimeRange) ensures r.min_ts == i64::MAX, r.max_ts == i64::MIN { TimeRange { min_ts: i64::MAX, max_ts: i64::MIN } }
    fn new(a: i64, b: i64) -> (r: TimeRange) ensures r.min_ts == a, r.max_ts == b { TimeRange { min_ts: a, max_ts: b } }
    fn merge(&mut self, o: &TimeRange) ensures final(self).min_ts == (if o.min_ts < old(self).min_ts { o.min_ts } else { old(self).min_ts }), final(self).max_ts == (if o.max_ts > old(self).max_ts { o.max_ts } else { old(self).max_ts }) { if o.min_ts < self.min_ts { self.min_ts = o.min_ts; } if o.max_ts > self.max_ts { self.max_ts = o.max_ts; } }
}
struct OrderedRowsData { v: Ghost<Seq<Row>> }
impl OrderedRowsData {
    #[verifier::external_body] fn new() -> (r: OrderedRowsData) ensures r.v@ == Seq::<Row>::empty() { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, r: RowData) ensures final(self).v@ == old(self).v@.push(row_(r)) { unimplemented!() }
}
struct RowGroup { schema: Ghost<TskvTableSchema>, range: TimeRange, rows: OrderedRowsData, size: usize }
struct Rows { m: Ghost<Map<u32, (SeriesKey, RowGroup)>> }
impl Rows { #[verifier::external_body] fn insert(&mut self, k: u32, v: (SeriesKey, RowGroup)) -> (r: Option<u8>) ensures final(self).m@ == old(self).m@.insert(k, v) { unimplemented!() } }
struct BySid { m: Ghost<Map<u32, (SeriesKey, Vec<usize>)>> }
impl BySid {
    #[verifier::external_body] fn new() -> (r: BySid) ensures r.m@ == Map::<u32, (SeriesKey, Vec<usize>)>::empty() { unimplemented!() }
    #[verifier::external_body] fn or_default(&mut self, k: u32) -> (r: &mut (SeriesKey, Vec<usize>)) ensures final(self).m@ == old(self).m@.insert(k, *final(r)), if old(self).m@.dom().contains(k) { *r == old(self).m@[k] } else { r.0.table@.len() == 0 && r.0.tags@.len() == 0 && r.1@ == Seq::<usize>::empty() } { unimplemented!() }
    // some entry not seen yet
    #[verifier::external_body] fn next(&mut self) -> (r: Option<(u32, (SeriesKey, Vec<usize>))>) ensures r matches Some(e) ==> old(self).m@.dom().contains(e.0) && old(self).m@[e.0] == e.1 && final(self).m@ == old(self).m@.remove(e.0), r is None ==> old(self).m@.dom() =~= Set::<u32>::empty() && final(self).m@ == old(self).m@ { unimplemented!() }
}
#[verifier::external_body] fn taken(v: &Vec<RowData>, i: usize) -> (r: RowData) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
spec fn idxs(sids: Seq<(u32, SeriesKey)>, sid: u32, k: int) -> Seq<usize> decreases k { if k <= 0 { Seq::empty() } else if sids[k - 1].0 == sid { idxs(sids, sid, k - 1).push((k - 1) as usize) } else { idxs(sids, sid, k - 1) } }
spec fn lo(r: Seq<Row>) -> i64 decreases r.len() { if r.len() == 0 { i64::MAX } else if r.last().ts < lo(r.drop_last()) { r.last().ts } else { lo(r.drop_last()) } }
spec fn hi(r: Seq<Row>) -> i64 decreases r.len() { if r.len() == 0 { i64::MIN } else if r.last().ts > hi(r.drop_last()) { r.last().ts } else { hi(r.drop_last()) } }
spec fn group(g: RowGroup, s: TskvTableSchema, r: Seq<Row>) -> bool { g.schema@ == s && g.rows.v@ == r && g.range.min_ts == lo(r) && g.range.max_ts == hi(r) }
// what the table's rows make of a series
spec fn of_sid(s: TskvTableSchema, p: Precision, cs: Seq<Column>, sids: Seq<(u32, SeriesKey)>, sid: u32) -> Seq<Row> { rows(s, p, cs, idxs(sids, sid, sids.len() as int), idxs(sids, sid, sids.len() as int).len() as int) }
spec fn done(m: Map<u32, (SeriesKey, RowGroup)>, m0: Map<u32, (SeriesKey, RowGroup)>, s: TskvTableSchema, r: Seq<Row>, sid: u32) -> bool { if r.len() == 0 { m.dom().contains(sid) == m0.dom().contains(sid) && m[sid] == m0[sid] } else { m.dom().contains(sid) && group(m[sid].1, s, r) } }
spec fn keyed(m: Map<u32, (SeriesKey, RowGroup)>, sids: Seq<(u32, SeriesKey)>, i: int, r: Seq<Row>) -> bool { r.len() > 0 ==> key_(m[sids[i].0].0) == key_(sids[i].1) }
proof fn in_range(sids: Seq<(u32, SeriesKey)>, sid: u32, k: int)
    requires 0 <= k <= sids.len() <= usize::MAX
    ensures forall|i: int| 0 <= i < idxs(sids, sid, k).len() ==> (#[trigger] idxs(sids, sid, k)[i]) < k, idxs(sids, sid, k).len() <= k, (exists|j: int| 0 <= j < k && (#[trigger] sids[j]).0 == sid) <==> idxs(sids, sid, k).len() > 0
    decreases k
{ if k > 0 { in_range(sids, sid, k - 1); if sids[k - 1].0 == sid { assert(idxs(sids, sid, k).len() > 0); } else if idxs(sids, sid, k).len() > 0 { let j = choose|j: int| 0 <= j < k - 1 && (#[trigger] sids[j]).0 == sid; assert(0 <= j < k); } } }
struct Database {}
//@extract tskv/src/database.rs Database::build_row_data
@subst /&Vector<ForwardsUOffset<Column>>/ => &Columns
@subst /table_schema: TskvTableSchemaRef/ => table_schema: TskvTableSchema
@subst /map: &mut HashMap<SeriesId, \(SeriesKey, RowGroup\)>/ => map: &mut Rows
@subst /sids: &\[\(u32, SeriesKey\)\]/ => sids: &Vec<(u32, SeriesKey)>
@subst /let mut sid_map: HashMap<u32, \(SeriesKey, Vec<usize>\)> = HashMap::new\(\);/ => let mut sid_map = BySid::new(); let ghost cs = columns.v@; let ghost n = sids@.len() as int; let ghost m0 = map.m@; let mut si: usize = 0;
@subst /for \(row_count, \(sid, series_key\)\) in sids\.iter\(\)\.enumerate\(\) \{/ => while si < sids.len() { let row_count = si; let (sid, series_key) = (&sids[si].0, &sids[si].1); si = si + 1; let ghost s0 = sid_map.m@; proof { in_range(sids@, *sid, si - 1); }
@subst /sid_map\.entry\(\*sid\)\.or_default\(\)/ => sid_map.or_default(*sid)
@subst /for \(sid, \(series_key_buf, row_idx\)\) in sid_map\.into_iter\(\) \{/ => let ghost all = sid_map.m@; loop { let ghost left = sid_map.m@; let ghost mb = map.m@; let (sid, (series_key_buf, row_idx)) = match sid_map.next() { Some(e) => e, None => { break; } }; proof { in_range(sids@, sid, n); } let ghost ri = row_idx@;
@subst /table_schema\.as_ref\(\)/ => &table_schema
@subst /if rows\.is_empty\(\) \{/ => let ghost rs = rows_(rows@); proof { assert(rs == of_sid(table_schema, precision, cs, sids@, sid)); assert(rs.len() == rows@.len()); } if rows.len() == 0 {
@subst /schema: table_schema\.clone\(\),/ => schema: Ghost(table_schema),
@subst /size_of::<RowGroup>\(\)/ => 0
@subst /for row in rows \{/ => let mut rr: usize = 0; while rr < rows.len() { let row = taken(&rows, rr); rr = rr + 1; proof { assert(rs.take(rr as int).drop_last() =~= rs.take(rr - 1)); assert(rs.take(rr as int) =~= rs.take(rr - 1).push(rs[rr - 1])); }
@subst /row_group\.size \+= row\.size\(\);/ =>
@subst /let res = map\.insert/ => let _res = map.insert
@subst /debug_assert!\(res\.is_none\(\)\);?/ =>
@ret r
@spec
    requires sids@.len() <= usize::MAX, forall|id: u32| table_schema.ids.m@.dom().contains(id) ==> table_schema.ids.m@[id] < table_schema.ids.n, forall|i: int| 0 <= i < sids@.len() ==> #[trigger] sound(columns.v@, i),
        // one id stands for one series
        forall|i: int, j: int| 0 <= i < sids@.len() && 0 <= j < sids@.len() && (#[trigger] sids@[i]).0 == (#[trigger] sids@[j]).0 ==> key_(sids@[i].1) == key_(sids@[j].1),
    ensures r is Ok ==> (forall|sid: u32| #[trigger] done(final(map).m@, old(map).m@, table_schema, of_sid(table_schema, precision, columns.v@, sids@, sid), sid))
        && (forall|i: int| 0 <= i < sids@.len() ==> #[trigger] keyed(final(map).m@, sids@, i, of_sid(table_schema, precision, columns.v@, sids@, sids@[i].0)))
@loop 0
    invariant n == sids@.len() <= usize::MAX, si <= n, cs == columns.v@, m0 == map.m@, forall|sid: u32| #[trigger] sid_map.m@.dom().contains(sid) <==> idxs(sids@, sid, si as int).len() > 0, forall|sid: u32| #[trigger] sid_map.m@.dom().contains(sid) ==> sid_map.m@[sid].1@ == idxs(sids@, sid, si as int),
        forall|i: int, j: int| 0 <= i < sids@.len() && 0 <= j < sids@.len() && (#[trigger] sids@[i]).0 == (#[trigger] sids@[j]).0 ==> key_(sids@[i].1) == key_(sids@[j].1),
        forall|i: int| 0 <= i < si ==> sid_map.m@.dom().contains((#[trigger] sids@[i]).0) && key_(sid_map.m@[sids@[i].0].0) == key_(sids@[i].1)
    decreases n - si
@loop 1
    invariant n == sids@.len() <= usize::MAX, cs == columns.v@, forall|id: u32| table_schema.ids.m@.dom().contains(id) ==> table_schema.ids.m@[id] < table_schema.ids.n, forall|i: int| 0 <= i < sids@.len() ==> #[trigger] sound(columns.v@, i),
        forall|sid: u32| #[trigger] all.dom().contains(sid) <==> idxs(sids@, sid, n).len() > 0, forall|sid: u32| #[trigger] all.dom().contains(sid) ==> all[sid].1@ == idxs(sids@, sid, n),
        forall|i: int| 0 <= i < n ==> all.dom().contains((#[trigger] sids@[i]).0) && key_(all[sids@[i].0].0) == key_(sids@[i].1),
        forall|sid: u32| #[trigger] sid_map.m@.dom().contains(sid) ==> all.dom().contains(sid) && sid_map.m@[sid] == all[sid],
        forall|sid: u32| if #[trigger] sid_map.m@.dom().contains(sid) || !all.dom().contains(sid) { map.m@.dom().contains(sid) == m0.dom().contains(sid) && map.m@[sid] == m0[sid] } else { done(map.m@, m0, table_schema, of_sid(table_schema, precision, cs, sids@, sid), sid) && (of_sid(table_schema, precision, cs, sids@, sid).len() > 0 ==> key_(map.m@[sid].0) == key_(all[sid].0)) }
    ensures sid_map.m@.dom() =~= Set::<u32>::empty()
@loop 2
    invariant rr <= rows@.len(), rs == rows_(rows@), group(row_group, table_schema, rs.take(rr as int))
    decreases rows@.len() - rr
@at before-loop 2
    proof { assert(rs.take(0) =~= Seq::<Row>::empty()); }
@at after-loop 2
    proof { assert(rs.take(rr as int) =~= rs); assert(rs == of_sid(table_schema, precision, cs, sids@, sid)); }
@at loop-end 1
    proof {
        assert forall|d: u32| (if #[trigger] sid_map.m@.dom().contains(d) || !all.dom().contains(d) { map.m@.dom().contains(d) == m0.dom().contains(d) && map.m@[d] == m0[d] } else { done(map.m@, m0, table_schema, of_sid(table_schema, precision, cs, sids@, d), d) && (of_sid(table_schema, precision, cs, sids@, d).len() > 0 ==> key_(map.m@[d].0) == key_(all[d].0)) }) by {
            if d != sid { assert(map.m@[d] == mb[d]); assert(left.dom().contains(d) == sid_map.m@.dom().contains(d)); } else { assert(all.dom().contains(d)); assert(!sid_map.m@.dom().contains(d)); }
        }
    }
@at after-loop 1
    proof {
        assert forall|sid: u32| #[trigger] done(map.m@, m0, table_schema, of_sid(table_schema, precision, cs, sids@, sid), sid) by { assert(!sid_map.m@.dom().contains(sid)); if !all.dom().contains(sid) { assert(idxs(sids@, sid, n).len() == 0); } }
        assert forall|i: int| 0 <= i < sids@.len() implies #[trigger] keyed(map.m@, sids@, i, of_sid(table_schema, precision, cs, sids@, sids@[i].0)) by { let sid = sids@[i].0; assert(!sid_map.m@.dom().contains(sid)); assert(all.dom().contains(sid)); }
    }
@attr #[verifier::exec_allows_no_decreases_clause]
@end
// ---- the series of every row of a table: the index's id of its series, in the place of the row ----
// id is the index's for the series (what the index gives is C21's matter); it gives one series one id and one id one series
spec fn reg(id: u32, k: K) -> bool;
struct TSIndex { x: u64 }
struct Ids { v: Ghost<Seq<(u32, SeriesKey)>>, at: Ghost<int> }
impl Ids {
    fn into_iter(self) -> (r: Ids) ensures r == self { self }
    #[verifier::external_body] fn next(&mut self) -> (r: Option<(u32, SeriesKey)>) ensures final(self).v@ == old(self).v@, if 0 <= old(self).at@ < old(self).v@.len() { r == Some(old(self).v@[old(self).at@]) && final(self).at@ == old(self).at@ + 1 } else { r is None } { unimplemented!() }
}
impl TSIndex {
    #[verifier::external_body] fn read(&self) -> (r: &TSIndex) { unimplemented!() }
    #[verifier::external_body] fn write(&self) -> (r: &TSIndex) { unimplemented!() }
    #[verifier::external_body] fn get_series_id(&self, k: &SeriesKey) -> (r: TskvResult<Option<u32>>) ensures r matches Ok(Some(id)) ==> reg(id, key_(*k)) { unimplemented!() }
    #[verifier::external_body] fn get_tombstone_series_id(&self, k: &SeriesKey) -> (r: TskvResult<Option<u32>>) ensures r matches Ok(Some(id)) ==> reg(id, key_(*k)) { unimplemented!() }
    #[verifier::external_body] fn add_series_if_not_exists(&self, k: Vec<SeriesKey>) -> (r: TskvResult<Ids>) ensures r matches Ok(v) ==> v.at@ == 0 && v.v@.len() == k@.len() && forall|i: int| 0 <= i < k@.len() ==> key_((#[trigger] v.v@[i]).1) == key_(k@[i]) && reg(v.v@[i].0, key_(k@[i])) { unimplemented!() }
}
spec fn gap(s: Seq<Option<(u32, SeriesKey)>>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else if s[k - 1] is None { gap(s, k - 1).push(k - 1) } else { gap(s, k - 1) } }
#[verifier::external_body] fn flattened(v: Vec<Option<(u32, SeriesKey)>>) -> (r: Vec<(u32, SeriesKey)>) ensures (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Some) ==> r@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] r@[i]) == v@[i]->0 { v.into_iter().flatten().collect() }
spec fn series(f: FbSchema, cs: Seq<Column>, s: TskvTableSchema, r: int) -> K { K { table: f.table@, tags: sorted_by_key(tags_(s, cs, f.tag_indexes@, f.tag_indexes@.len() as int, r)) } }
spec fn right(e: (u32, SeriesKey), k: K) -> bool { key_(e.1) == k && reg(e.0, k) }
proof fn gap_le(s: Seq<Option<(u32, SeriesKey)>>, k: int, n: int)
    requires 0 <= k <= n <= s.len()
    ensures gap(s, k).len() <= gap(s, n).len(), forall|i: int| 0 <= i < gap(s, k).len() ==> #[trigger] gap(s, k)[i] == gap(s, n)[i]
    decreases n
{ if k < n { gap_le(s, k, n - 1); } }
proof fn gap_push(s: Seq<Option<(u32, SeriesKey)>>, x: Option<(u32, SeriesKey)>, k: int)
    requires 0 <= k <= s.len()
    ensures gap(s.push(x), k) == gap(s, k)
    decreases k
{ if k > 0 { gap_push(s, x, k - 1); } }
//@extract tskv/src/database.rs Database::build_index
@subst /pub async fn/ => fn
@subst /build_index<'a>/ => build_index
@subst /&'a FbSchema<'a>/ => &FbSchema
@subst /&Vector<'a, ForwardsUOffset<Column<'a>>>/ => &Columns
@subst /Arc<RwLock<TSIndex>>/ => TSIndex
@subst /\.await/ =>
@subst /\.context\((ModelSnafu|IndexErrSnafu)\)\?/ => ?
@subst /\.context\(CommonSnafu \{[\s\S]*?\}\)\?/ => .ok_or(Error {})?
@subst /Vec::with_capacity\(row_num\)/ => Vec::new()
@subst /drop\(ts_index_r\);/ =>
@subst /for row_count in 0\.\.row_num \{/ => let ghost cs = columns.v@; let mut rc: usize = 0; while rc < row_num { let row_count = rc; rc = rc + 1; let ghost r0 = res_sids@; let ghost k0 = series_keys@; proof { assert forall|x: Option<(u32, SeriesKey)>| #![trigger r0.push(x)] gap(r0.push(x), row_count + 1) == (if x is None { gap(r0, row_count as int).push(row_count as int) } else { gap(r0, row_count as int) }) by { gap_push(r0, x, row_count as int); } }
@subst /for item in res_sids\.iter_mut\(\) \{/ => let ghost old_ = res_sids@; let mut ii: usize = 0; while ii < res_sids.len() { proof { gap_le(old_, ii + 1, old_.len() as int); } let item = &mut res_sids[ii]; ii = ii + 1;
@subst /res_sids\.into_iter\(\)\.flatten\(\)\.collect::<Vec<_>>\(\)/ => flattened(res_sids)
@subst /&fb_schema\.tag_indexes,/ => fb_schema.tag_indexes.as_slice(),
@ret r
@spec
    requires forall|i: int| 0 <= i < row_num ==> #[trigger] sound(columns.v@, i), forall|i: int| 0 <= i < fb_schema.tag_indexes@.len() ==> (#[trigger] fb_schema.tag_indexes@[i]) < columns.v@.len() && columns.v@[fb_schema.tag_indexes@[i] as int].kind is Tag
    ensures r matches Ok(v) ==> v@.len() == row_num && forall|i: int| 0 <= i < row_num ==> right(#[trigger] v@[i], series(*fb_schema, columns.v@, *table_column, i))
@loop 0
    invariant cs == columns.v@, rc <= row_num, forall|i: int| 0 <= i < row_num ==> #[trigger] sound(columns.v@, i), forall|i: int| 0 <= i < fb_schema.tag_indexes@.len() ==> (#[trigger] fb_schema.tag_indexes@[i]) < columns.v@.len() && columns.v@[fb_schema.tag_indexes@[i] as int].kind is Tag,
        res_sids@.len() == rc, forall|i: int| 0 <= i < rc ==> ((#[trigger] res_sids@[i]) matches Some(e) ==> right(e, series(*fb_schema, cs, *table_column, i))),
        series_keys@.len() == gap(res_sids@, rc as int).len(), forall|i: int| 0 <= i < series_keys@.len() ==> key_(#[trigger] series_keys@[i]) == series(*fb_schema, cs, *table_column, gap(res_sids@, rc as int)[i])
    decreases row_num - rc
@loop 1
    invariant cs == columns.v@, ii <= res_sids@.len() == old_.len() == row_num, ids.at@ == gap(old_, ii as int).len(), ids.v@.len() == gap(old_, row_num as int).len(), forall|i: int| 0 <= i < ids.v@.len() ==> right(#[trigger] ids.v@[i], series(*fb_schema, cs, *table_column, gap(old_, row_num as int)[i])),
        forall|i: int| ii <= i < row_num ==> res_sids@[i] == #[trigger] old_[i], forall|i: int| 0 <= i < row_num ==> ((#[trigger] old_[i]) matches Some(e) ==> right(e, series(*fb_schema, cs, *table_column, i))),
        forall|i: int| 0 <= i < ii ==> ((#[trigger] res_sids@[i]) matches Some(e) && right(e, series(*fb_schema, cs, *table_column, i)))
    decreases row_num - ii
@at loop-end 1
    proof { if old_[ii - 1] is None { let q = gap(old_, ii - 1).len() as int; assert(gap(old_, ii as int)[q] == ii - 1); assert(right(ids.v@[q], series(*fb_schema, cs, *table_column, ii - 1))); } }
@end
fn main() {}
}
