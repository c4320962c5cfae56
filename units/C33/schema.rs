use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include ../C32/schema.inc
//@include grow.inc
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::new
@header impl TskvTableSchema
@subst /String/ => Name
@subst /let columns_index = columns\s*\.iter\(\)\s*\.enumerate\(\)\s*\.map\(\|\(idx, e\)\| \(e\.name\.clone\(\), idx\)\)\s*\.collect\(\);/ => let mut columns_index = Names::new(); let mut xi: usize = 0; while xi < columns.len() { let idx = xi; let e = &columns[xi]; xi = xi + 1; let ghost m0 = columns_index.at(); columns_index.insert(e.name, idx); proof { lemma_built(columns@, m0, idx); } }
@subst /columns\.len\(\) as ColumnId/ => columns.len() as u32
@ret r
@spec
    requires uniq(columns@), columns@.len() < 0x1_0000_0000, forall|i: int| 0 <= i < columns@.len() ==> (#[trigger] columns@[i]).id < columns@.len()
    ensures sound(r), r.columns@ == columns@, r.next_column_id == columns@.len(), r.schema_version == 0, r.tenant == tenant, r.db == db, r.name == name
@loop 0
    invariant xi <= columns@.len(), uniq(columns@), built(columns@, columns_index.at(), xi as int)
    decreases columns@.len() - xi
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::add_column
@header impl TskvTableSchema
@subst /self\s*\.columns_index\s*\.entry\(col\.name\.clone\(\)\)\s*\.or_insert_with\(\|\| \{([^{}]*?)([^;{}]*)\}\);/ => let nm = col.name; if !self.columns_index.contains_key(&nm) {\1 let last = \2; self.columns_index.insert(nm, last); }
@spec
    requires sound(*old(self)), col.id >= old(self).next_column_id || known(*old(self), col.name), col.id <= old(self).next_column_id || known(*old(self), col.name), old(self).next_column_id < u32::MAX, old(self).columns@.len() < u32::MAX
    ensures sound(*final(self)), same_but_columns(*old(self), *final(self)), final(self).next_column_id == old(self).next_column_id + 1, final(self).columns@ == (if known(*old(self), col.name) { old(self).columns@ } else { old(self).columns@.push(col) }), known(*final(self), col.name)
@at start
    let ghost s0 = self.columns@; let ghost m0 = self.columns_index.at();
    proof { if !known(*self, col.name) { lemma_pushed(s0, m0, col, *self); } }
@end
proof fn lemma_pushed(s: Seq<TableColumn>, m: Map<Name, usize>, c: TableColumn, t: TskvTableSchema) requires sound(t), s == t.columns@, m == t.columns_index.at(), !m.dom().contains(c.name), c.id >= t.next_column_id ensures uniq(s.push(c)), forall|k: usize| k == s.len() ==> index(s.push(c), #[trigger] m.insert(c.name, k)) {
    let u = s.push(c);
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).id != (#[trigger] u[j]).id && u[i].name != u[j].name by { assert(u[i] == s[i]); assert(m.dom().contains(s[i].name)); if j < s.len() { assert(u[j] == s[j]); } else { assert(u[j] == c); } }
    assert forall|k: usize| k == s.len() implies index(u, #[trigger] m.insert(c.name, k)) by { let m1 = m.insert(c.name, k);
        assert forall|i: int| 0 <= i < u.len() implies m1.dom().contains((#[trigger] u[i]).name) && m1[u[i].name] == i by { if i < s.len() { assert(u[i] == s[i]); assert(m.dom().contains(s[i].name)); } }
        assert forall|n: Name| #[trigger] m1.dom().contains(n) implies m1[n] < u.len() && u[m1[n] as int].name == n by { if n != c.name { assert(m.dom().contains(n)); assert(u[m[n] as int] == s[m[n] as int]); } } }
}
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::change_column
@header impl TskvTableSchema
@subst /col_name: &str/ => col_name: &Name
@subst /new_column\.name\.clone\(\)/ => new_column.name
@subst /self\.columns\[(\w+)\] = new_column;/ => self.columns.set(\1, new_column);
@spec
    requires ok(*old(self)), known(*old(self), *col_name) ==> new_column.id == old(self).columns@[at(*old(self), *col_name)].id && (new_column.name == *col_name || !known(*old(self), new_column.name))
    ensures ok(*final(self)), same_but_columns(*old(self), *final(self)), final(self).next_column_id == old(self).next_column_id, final(self).columns@ == (if known(*old(self), *col_name) { old(self).columns@.update(at(*old(self), *col_name), new_column) } else { old(self).columns@ })
@at start
    let ghost s0 = self.columns@; let ghost m0 = self.columns_index.at();
    proof { if m0.dom().contains(*col_name) { lemma_changed(s0, m0, *col_name, new_column); } }
@end
proof fn lemma_changed(s: Seq<TableColumn>, m: Map<Name, usize>, n: Name, c: TableColumn) requires uniq(s), index(s, m), m.dom().contains(n), c.id == s[m[n] as int].id, c.name == n || !m.dom().contains(c.name) ensures uniq(s.update(m[n] as int, c)), index(s.update(m[n] as int, c), m.remove(n).insert(c.name, m[n])) {
    let k = m[n] as int; let u = s.update(k, c); let m1 = m.remove(n).insert(c.name, m[n]);
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).id != (#[trigger] u[j]).id && u[i].name != u[j].name by { assert(s[i].id != s[j].id && s[i].name != s[j].name); assert(m.dom().contains(s[i].name)); assert(m.dom().contains(s[j].name)); }
    assert forall|i: int| 0 <= i < u.len() implies m1.dom().contains((#[trigger] u[i]).name) && m1[u[i].name] == i by { if i != k { assert(u[i] == s[i]); assert(m.dom().contains(s[i].name)); if s[i].name == n { assert(m[s[i].name] == i); } } }
    assert forall|x: Name| #[trigger] m1.dom().contains(x) implies m1[x] < u.len() && u[m1[x] as int].name == x by { if x != c.name { assert(m.dom().contains(x)); assert(x != n); assert(s[m[x] as int].name == x); assert(m[x] != k) by { if m[x] == k { assert(s[k].name == n); } } } }
}
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::contains_column
@header impl TskvTableSchema
@subst /column_name: &str/ => column_name: &Name
@ret r
@spec
    ensures r == known(*self, *column_name)
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::next_column_id
@header impl TskvTableSchema
@ret r
@spec
    ensures r == self.next_column_id
@end
#[verifier::external_body] fn col_at<'a>(v: &'a Vec<TableColumn>, i: usize) -> (r: &'a TableColumn) requires i < v.len() ensures *r == v@[i as int] { unimplemented!() }
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::column
@header impl TskvTableSchema
@subst /name: &str/ => name: &Name
@subst /self\s*\.columns_index\s*\.get\(name\)\s*\.map\(\|idx\| unsafe \{ self\.columns\.get_unchecked\(\*idx\) \}\)/ => match self.columns_index.get(name) { Some(idx) => Some(col_at(&self.columns, *idx)), None => None }
@ret r
@spec
    requires ok(*self)
    ensures (r is Some) == known(*self, *name), r is Some ==> *(r->0) == self.columns@[at(*self, *name)] && (r->0).name == *name
@end
//@include chain.inc
// ---- the table as the metadata keep it ----
// s is a schema the table had at some time
uninterp spec fn held(s: TskvTableSchema) -> bool;
// b is made from a schema the table had, and comes after it
spec fn step(b: TskvTableSchema) -> bool { exists|a: TskvTableSchema| #[trigger] held(a) && grows(a, b) }
// ids do not run out
spec fn room(s: TskvTableSchema, n: int) -> bool { s.schema_version < u64::MAX && s.next_column_id + n < u32::MAX && s.columns@.len() + n < u32::MAX }
impl TskvTableSchema { #[verifier::external_body] fn clone(&self) -> (r: TskvTableSchema) ensures r == *self { unimplemented!() } }
enum QueryError { DatabaseNotFound, NotSupport, ColumnAlreadyExists, ColumnNotFound, EncodingType, TableAlreadyExists, UpdateTableConflict, ColumnType, Other }
type MetaError = QueryError;
#[derive(Clone, Copy)] enum TableName { N }
enum TableSchema { TsKvTableSchema(TskvTableSchema), ExternalTableSchema(u8), StreamTableSchema(u8) }
impl TableColumn { #[verifier::external_body] fn encoding_valid(&self) -> bool { unimplemented!() } }
// the schema an operation on columns asks for
enum ResourceOperator { AddColumn(TskvTableSchema, TableColumn), DropColumn(Name, TskvTableSchema), AlterColumn(Name, TskvTableSchema, TableColumn) }
spec fn asks(o: ResourceOperator) -> TskvTableSchema { match o { ResourceOperator::AddColumn(s, c) => s, ResourceOperator::DropColumn(n, s) => s, ResourceOperator::AlterColumn(n, s, c) => s } }
#[verifier::external_body] fn add_resource_task(o: ResourceOperator) -> Result<bool, QueryError> requires step(asks(o)) { unimplemented!() }
struct Client {}
impl Client {
    #[verifier::external_body] fn tskv_table(&self) -> (r: Result<Option<TskvTableSchema>, QueryError>) ensures r matches Ok(Some(s)) ==> held(s) && sound(s) && room(s, 1) { unimplemented!() }
    #[verifier::external_body] fn update_table(&self, s: &TableSchema) -> (r: Result<(), MetaError>) requires *s is TsKvTableSchema, step(s->TsKvTableSchema_0) ensures r is Ok ==> held(s->TsKvTableSchema_0) { unimplemented!() }
    #[verifier::external_body] fn create_table(&self, s: &TableSchema) -> (r: Result<(), MetaError>) requires *s is TsKvTableSchema, sound(s->TsKvTableSchema_0), s->TsKvTableSchema_0.schema_version == 0 ensures r is Ok ==> held(s->TsKvTableSchema_0) { unimplemented!() }
}
//@extract query_server/spi/src/query/logical_planner.rs enum AlterTableAction
@subst /String/ => Name
@end
struct AlterTable { alter_action: AlterTableAction }
struct AlterTableTask { stmt: AlterTable }
// one column more
spec fn adds(a: TskvTableSchema, b: TskvTableSchema, c: TableColumn) -> bool { sound(b) && same_but_columns(a, b) && b.next_column_id == a.next_column_id + 1 && c.id == a.next_column_id && b.columns@ == a.columns@.push(c) }
proof fn lemma_add(a: TskvTableSchema, b: TskvTableSchema, b1: TskvTableSchema, c: TableColumn) requires adds(a, b, c), b1 == (TskvTableSchema { schema_version: b1.schema_version, ..b }), b1.schema_version == a.schema_version + 1, held(a) ensures step(b1) { assert forall|j: int| 0 <= j < b1.columns@.len() implies was(a.columns@, #[trigger] b1.columns@[j]) || b1.columns@[j].id >= a.next_column_id by { if j < a.columns@.len() { assert(a.columns@[j] == b1.columns@[j]); } } assert(grows(a, b1)); }
proof fn lemma_drop(a: TskvTableSchema, b: TskvTableSchema, b1: TskvTableSchema, n: Name) requires sound(a), ok(b), same_but_columns(a, b), b.next_column_id == a.next_column_id, b.columns@ == (if known(a, n) { a.columns@.remove(at(a, n)) } else { a.columns@ }), b1 == (TskvTableSchema { schema_version: b1.schema_version, ..b }), b1.schema_version == a.schema_version + 1, held(a) ensures step(b1) {
    let i = at(a, n); assert(known(a, n) ==> 0 <= i < a.columns@.len());
    assert forall|j: int| 0 <= j < b1.columns@.len() implies was(a.columns@, #[trigger] b1.columns@[j]) && b1.columns@[j].id < b1.next_column_id by { let x = if known(a, n) && j >= i { j + 1 } else { j }; assert(a.columns@[x] == b1.columns@[j]); } assert(grows(a, b1));
}
proof fn lemma_change(a: TskvTableSchema, b: TskvTableSchema, b1: TskvTableSchema, n: Name, c: TableColumn) requires sound(a), ok(b), known(a, n), same_but_columns(a, b), b.next_column_id == a.next_column_id, b.columns@ == a.columns@.update(at(a, n), c), c.id == a.columns@[at(a, n)].id, c.column_type == a.columns@[at(a, n)].column_type, b1 == (TskvTableSchema { schema_version: b1.schema_version, ..b }), b1.schema_version == a.schema_version + 1, held(a) ensures step(b1) {
    let i = at(a, n); assert(0 <= i < a.columns@.len());
    assert forall|j: int| 0 <= j < b1.columns@.len() implies was(a.columns@, #[trigger] b1.columns@[j]) && b1.columns@[j].id < b1.next_column_id by { let o = a.columns@[j]; if j == i { assert(o.id == c.id && o.column_type == c.column_type); } else { assert(o == b1.columns@[j]); } } assert(grows(a, b1));
}
//@extract query_server/query/src/execution/ddl/alter_table.rs DDLDefinitionTask for AlterTableTask::execute
@header impl AlterTableTask
@subst /query_state_machine: QueryStateMachineRef/ => client: &Client
@subst /QueryResult<Output>/ => Result<(), QueryError>
@subst /let table_name = &self\.stmt\.table_name;[\s\S]*?\.clone\(\);/ => let mut schema = match client.tskv_table()? { Some(s) => s, None => { return Err(QueryError::Other); } };
@subst /QueryError::(\w+) \{(?:[^{}]|\{[^{}]*\})*\}/ => QueryError::\1
@subst /\.ok_or_else\(\|\| (QueryError::\w+)\)/ => .ok_or(\1)
@subst /\.to_owned\(\)/ => .clone()
@subst /(column_name|table_column\.name|old_column_name|new_column_name)\.clone\(\)/ => \1.cp()
@subst /(column_name|table_column\.name|old_column_name|new_column_name)\.to_string\(\)/ => \1.cp()
@subst /new_name\.to_string\(\)/ => new_name.cp()
@subst /\.column_type\.clone\(\)/ => .column_type.cp()
@subst /let alter_schema_func =\s*\|schema: &mut TskvTableSchema, old_column_name: &str, new_name: &str\| \{([\s\S]*?)\n\s*Ok\(\(\)\)\s*\};\s*alter_schema_func\(&mut schema, old_column_name, new_column_name\)\?;/ => let new_name = new_column_name; \1
@subst /let resourceinfo = ResourceInfo::new\([\s\S]*?info\.1,[\s\S]*?\);\s*ResourceManager::add_resource_task\(query_state_machine\.coord\.clone\(\), resourceinfo\)/ => add_resource_task(info.1)
@subst /\.context\(\w+\)/ =>
@subst /&TableSchema::TsKvTableSchema\(Arc::new\((\w+)\)\)/ => &TableSchema::TsKvTableSchema(\1)
@subst /Ok\(Output::Nil\(\(\)\)\)/ => Ok(())
@at before /let operator_info/
    let ghost s0 = schema;
@at before /Some\(\(\s*table_column\.name/
    proof { let b = schema; lemma_add(s0, TskvTableSchema { schema_version: s0.schema_version, ..b }, schema, table_column); }
@at before /Some\(\(\s*column_name\.cp\(\),\s*ResourceOperator::DropColumn/
    proof { let b = schema; lemma_drop(s0, TskvTableSchema { schema_version: s0.schema_version, ..b }, schema, *column_name); }
@at before /Some\(\(\s*column_name\.cp\(\),\s*ResourceOperator::AlterColumn/
    proof { let b = schema; lemma_change(s0, TskvTableSchema { schema_version: s0.schema_version, ..b }, schema, *column_name, new_column); }
@at after /schema\.change_column\(old_column_name, new_column\);\s*schema\.schema_version \+= 1;/
    proof { let b = schema; let i = at(s0, *old_column_name); lemma_change(s0, TskvTableSchema { schema_version: s0.schema_version, ..b }, schema, *old_column_name, b.columns@[i]); }
@end
// ---- a write: the columns its values go to ----
struct TimeUnit {}
enum FieldType { F(u8) }
uninterp spec fn matches(a: ColumnType, b: ColumnType) -> bool;
uninterp spec fn proto(t: FieldType) -> ColumnType;
spec fn time_name() -> Name { Name { w: 0 } }
impl ColumnType {
    #[verifier::external_body] fn matches_type(&self, o: &ColumnType) -> (r: bool) ensures r == matches(*self, *o) { unimplemented!() }
    #[verifier::external_body] fn from_proto_field_type(t: FieldType) -> (r: ColumnType) ensures r == proto(t), matches(r, r), !(r is Tag) { unimplemented!() }
}
impl FieldType { fn cp(&self) -> (r: FieldType) ensures r == *self { match self { FieldType::F(k) => FieldType::F(*k) } } }
impl TableColumn {
    #[verifier::external_body] fn new_time_column(id: ColumnId) -> (r: TableColumn) ensures r.id == id, r.name == time_name(), r.column_type is Time { unimplemented!() }
    #[verifier::external_body] fn new_tag_column(id: ColumnId, name: Name) -> (r: TableColumn) ensures r.id == id, r.name == name, r.column_type is Tag { unimplemented!() }
}
struct FbSchema { table: Name, tag_names: Vec<Name>, field_names: Vec<Name>, field_types: Vec<FieldType> }
// every value of the write has a column of its type
spec fn fits_tags(s: TskvTableSchema, v: Seq<Name>, n: int) -> bool { forall|i: int| 0 <= i < n ==> known(s, #[trigger] v[i]) && s.columns@[at(s, v[i])].column_type is Tag }
spec fn fits_fields(s: TskvTableSchema, v: Seq<Name>, y: Seq<FieldType>, n: int) -> bool { forall|i: int| 0 <= i < n ==> known(s, #[trigger] v[i]) && matches(s.columns@[at(s, v[i])].column_type, proto(y[i])) }
spec fn fits(s: TskvTableSchema, f: FbSchema) -> bool { fits_tags(s, f.tag_names@, f.tag_names@.len() as int) && fits_fields(s, f.field_names@, f.field_types@, f.field_names@.len() as int) }
spec fn size(f: FbSchema) -> int { f.tag_names@.len() as int + f.field_names@.len() as int + 1 }
// b has the columns of a and maybe more
spec fn widens(a: TskvTableSchema, b: TskvTableSchema) -> bool {
    &&& sound(b) && same_but_columns(a, b) && b.next_column_id >= a.next_column_id && b.columns@.len() >= a.columns@.len()
    &&& forall|j: int| 0 <= j < b.columns@.len() ==> (if j < a.columns@.len() { #[trigger] b.columns@[j] == a.columns@[j] } else { b.columns@[j].id >= a.next_column_id })
}
proof fn lemma_keeps(a: TskvTableSchema, b: TskvTableSchema, f: FbSchema, n: int, m: int) requires sound(a), widens(a, b), 0 <= n <= f.tag_names@.len(), 0 <= m <= f.field_names@.len(), fits_tags(a, f.tag_names@, n), fits_fields(a, f.field_names@, f.field_types@, m) ensures fits_tags(b, f.tag_names@, n), fits_fields(b, f.field_names@, f.field_types@, m) {
    assert forall|x: Name| known(a, x) implies #[trigger] known(b, x) && at(b, x) == at(a, x) by { let i = at(a, x); assert(a.columns@[i].name == x); assert(b.columns@[i] == a.columns@[i]); }
    assert forall|i: int| 0 <= i < n implies known(b, #[trigger] f.tag_names@[i]) && b.columns@[at(b, f.tag_names@[i])].column_type is Tag by { let x = f.tag_names@[i]; assert(known(a, x)); assert(known(b, x)); let k = at(a, x); assert(b.columns@[k] == a.columns@[k]); }
    assert forall|i: int| 0 <= i < m implies known(b, #[trigger] f.field_names@[i]) && matches(b.columns@[at(b, f.field_names@[i])].column_type, proto(f.field_types@[i])) by { let x = f.field_names@[i]; assert(known(a, x)); assert(known(b, x)); let k = at(a, x); assert(b.columns@[k] == a.columns@[k]); }
}
proof fn lemma_added(s0: TskvTableSchema, a: TskvTableSchema, b: TskvTableSchema, c: TableColumn) requires sound(a), widens(s0, a), !known(a, c.name), c.id == a.next_column_id, sound(b), same_but_columns(a, b), b.next_column_id == a.next_column_id + 1, b.columns@ == a.columns@.push(c) ensures widens(s0, b), widens(a, b), known(b, c.name), b.columns@[at(b, c.name)] == c {
    let n = a.columns@.len() as int; assert(b.columns@[n] == c); assert(known(b, b.columns@[n].name));
    assert forall|j: int| 0 <= j < b.columns@.len() implies (if j < s0.columns@.len() { #[trigger] b.columns@[j] == s0.columns@[j] } else { b.columns@[j].id >= s0.next_column_id }) by { if j < n { assert(b.columns@[j] == a.columns@[j]); } }
}
proof fn lemma_wider(a: TskvTableSchema, b: TskvTableSchema, b1: TskvTableSchema) requires held(a), widens(a, b), b1 == (TskvTableSchema { schema_version: b1.schema_version, ..b }), b1.schema_version == a.schema_version + 1 ensures step(b1) {
    assert forall|j: int| 0 <= j < b1.columns@.len() implies was(a.columns@, #[trigger] b1.columns@[j]) || b1.columns@[j].id >= a.next_column_id by { assert(b.columns@[j] == b1.columns@[j]); if j < a.columns@.len() { assert(a.columns@[j] == b1.columns@[j]); } } assert(grows(a, b1));
}
struct DBschemas { client: Client }
impl DBschemas {
    #[verifier::external_body] fn tenant_meta(&self) -> (r: Result<Client, QueryError>) { unimplemented!() }
    #[verifier::external_body] fn get_table_schema_by_meta(&self, t: Name) -> (r: Result<Option<TskvTableSchema>, QueryError>) ensures r matches Ok(Some(s)) ==> held(s) && sound(s) { unimplemented!() }
    #[verifier::external_body] fn get_table_schema(&self, f: &FbSchema) -> (r: Result<Option<TskvTableSchema>, QueryError>) ensures r matches Ok(Some(s)) ==> held(s) && sound(s) && room(s, size(*f)) { unimplemented!() }
    #[verifier::external_body] fn db_schema_by_meta(&self) -> Result<TimeUnit, QueryError> { unimplemented!() }
    #[verifier::external_body] fn tenant_name(&self) -> Name { unimplemented!() }
    #[verifier::external_body] fn database_name(&self) -> Name { unimplemented!() }
}
//@extract tskv/src/schema/schemas.rs DBschemas::check_field_type_or_else_add_impl
@header impl DBschemas
@attr #[verifier::exec_allows_no_decreases_clause]
@subst /<'a>/ =>
@subst /&'a FbSchema/ => &FbSchema
@subst /SchemaResult<TskvTableSchemaRef>/ => Result<TskvTableSchema, QueryError>
@subst /get_table_schema\(fb_schema\.table\)/ => get_table_schema(fb_schema)
@subst /match opt_schema\.as_ref\(\) \{/ => match &opt_schema {
@subst /Cow::Borrowed\(schema\.as_ref\(\)\)/ => schema.clone()
@subst /Cow::Owned\(schema\)/ => schema
@subst /\.to_mut\(\)/ =>
@subst /\.into_owned\(\)\.into\(\)/ =>
@subst /: TskvTableSchemaRef/ =>
@subst /\.(into|to_string)\(\)/ =>
@subst /vec!\[\],/ => Vec::new(),
@subst /let precision = db_schema\.config\.precision\(\);/ =>
@subst /TableColumn::new_time_column\(\s*schema\.next_column_id\(\),[^;]*\);/ => TableColumn::new_time_column(schema.next_column_id()));
@subst /for tag_name in &fb_schema\.tag_names \{/ => let mut ti: usize = 0; while ti < fb_schema.tag_names.len() { let tag_name = &fb_schema.tag_names[ti]; ti = ti + 1; let ghost b0 = schema;
@subst /for \(field_name, field_type\) in fb_schema\s*\.field_names\s*\.iter\(\)\s*\.zip\(fb_schema\.field_types\.iter\(\)\)\s*\{/ => let mut fi: usize = 0; while fi < fb_schema.field_names.len() { let field_name = &fb_schema.field_names[fi]; let field_type = &fb_schema.field_types[fi]; fi = fi + 1; let ghost b0 = schema;
@subst /(tag_name|field_name),\s*\)\);/ => \1.cp(), ));
@subst /next_column_id,\s*(tag_name|field_name),/ => next_column_id, \1.cp(),
@subst /\(\*field_type\)/ => (field_type.cp())
@subst /Encoding::Default/ => 0
@subst /return Err\(ColumnTypeSnafu \{[^{}]*\}\s*\.build\(\)\);/ => return Err(QueryError::ColumnType);
@subst /res\.as_ref\(\)/ => &res
@subst /unsafe \{ opt_schema\.unwrap_unchecked\(\) \}/ => opt_schema.unwrap()
@subst /MetaError::(\w+) \{ \.\. \}/ => QueryError::\1
@ret r
@spec
    requires fb_schema.field_types@.len() == fb_schema.field_names@.len(), size(*fb_schema) < 0x1000_0000
    ensures r matches Ok(s) ==> held(s) && fits(s, *fb_schema)
@at before-loop 0
    let ghost s0 = schema;
    proof { assert(widens(s0, s0)); }
@loop 0
    invariant ti <= fb_schema.tag_names@.len(), sound(schema), widens(s0, schema), fits_tags(schema, fb_schema.tag_names@, ti as int), schema.next_column_id <= s0.next_column_id + ti, schema.columns@.len() <= s0.columns@.len() + ti, room(s0, size(*fb_schema) - 1), schema_changed || schema == s0
    decreases fb_schema.tag_names@.len() - ti
@loop 1
    invariant fi <= fb_schema.field_names@.len(), fb_schema.field_types@.len() == fb_schema.field_names@.len(), sound(schema), widens(s0, schema), fits_tags(schema, fb_schema.tag_names@, fb_schema.tag_names@.len() as int), fits_fields(schema, fb_schema.field_names@, fb_schema.field_types@, fi as int), schema.next_column_id <= s0.next_column_id + fb_schema.tag_names@.len() + fi, schema.columns@.len() <= s0.columns@.len() + fb_schema.tag_names@.len() + fi, room(s0, size(*fb_schema) - 1), schema_changed || schema == s0
    decreases fb_schema.field_names@.len() - fi
@at loop-end 0
    proof { let n = fb_schema.tag_names@[ti - 1]; if !known(b0, n) { let c = schema.columns@[b0.columns@.len() as int]; lemma_added(s0, b0, schema, c); } else { assert(schema == b0); } lemma_keeps(b0, schema, *fb_schema, ti - 1, 0); }
@at loop-end 1
    proof { let n = fb_schema.field_names@[fi - 1]; if !known(b0, n) { let c = schema.columns@[b0.columns@.len() as int]; lemma_added(s0, b0, schema, c); } else { assert(schema == b0); } lemma_keeps(b0, schema, *fb_schema, fb_schema.tag_names@.len() as int, fi - 1); }
@end
// ---- the metadata: for each key the schemas it had since its table was created ----
type MetaResult<T> = Result<T, MetaError>;
struct TenantMetaData {}
impl TableSchema {
    #[verifier::external_body] fn name(&self) -> (r: Name) ensures r == named_(*self) { unimplemented!() }
    #[verifier::external_body] fn db(&self) -> (r: Name) ensures r == db_(*self) { unimplemented!() }
}
uninterp spec fn named_(s: TableSchema) -> Name;
uninterp spec fn db_(s: TableSchema) -> Name;
#[derive(Clone, Copy)] enum Key { Db(Name), Table(Name, Name) }
struct KeyPath {}
impl KeyPath {
    fn tenant_db_name(db: Name) -> (r: Key) ensures r == Key::Db(db) { Key::Db(db) }
    fn tenant_schema_name(db: Name, name: Name) -> (r: Key) ensures r == Key::Table(db, name) { Key::Table(db, name) }
}
struct StateMachine { g: Ghost<Map<Key, Seq<TableSchema>>> }
spec fn tskv(l: Seq<TableSchema>) -> Seq<TskvTableSchema> { l.map_values(|s: TableSchema| s->TsKvTableSchema_0) }
spec fn all_tskv(l: Seq<TableSchema>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is TsKvTableSchema }
// what was stored under one key is the history of one table
spec fn history(l: Seq<TableSchema>) -> bool { all_tskv(l) ==> chain(tskv(l)) && forall|i: int| 0 <= i < l.len() ==> sound(#[trigger] tskv(l)[i]) }
spec fn key_of(s: TableSchema) -> Key { Key::Table(db_(s), named_(s)) }
// s was made from a schema the table had
spec fn made(l: Seq<TableSchema>, s: TableSchema) -> bool { l.len() > 0 && (all_tskv(l) && s is TsKvTableSchema ==> exists|i: int| 0 <= i < l.len() && grows(#[trigger] tskv(l)[i], s->TsKvTableSchema_0)) }
spec fn told(l: Seq<TableSchema>, l1: Seq<TableSchema>, s: TableSchema) -> bool { l1 == l || l1 == l.push(s) }
impl StateMachine {
    spec fn log(self, k: Key) -> Seq<TableSchema> { self.g@[k] }
    spec fn others(a: StateMachine, b: StateMachine, k: Key) -> bool { forall|j: Key| j != k ==> #[trigger] b.log(j) == a.log(j) }
    #[verifier::external_body] fn contains_key(&self, k: &Key) -> (r: MetaResult<bool>) ensures r matches Ok(b) ==> b == (self.log(*k).len() > 0) { unimplemented!() }
    #[verifier::external_body] fn get_struct(&self, k: &Key) -> (r: MetaResult<Option<TableSchema>>) ensures r matches Ok(o) ==> (o is Some) == (self.log(*k).len() > 0) && (o is Some ==> o->0 == self.log(*k).last()) { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: &Key, s: &TableSchema) -> (r: MetaResult<()>) ensures r is Ok ==> final(self).log(*k) == old(self).log(*k).push(*s), r is Err ==> told(old(self).log(*k), final(self).log(*k), *s), Self::others(*old(self), *final(self), *k) { unimplemented!() }
    #[verifier::external_body] fn to_tenant_meta_data(&self) -> MetaResult<TenantMetaData> { unimplemented!() }
}
proof fn lemma_first(l: Seq<TableSchema>, s: TableSchema) requires l.len() == 0, s is TsKvTableSchema ==> sound(s->TsKvTableSchema_0) ensures history(l.push(s)) { let u = l.push(s); if all_tskv(u) { assert(u[0] is TsKvTableSchema); assert(tskv(u)[0] == s->TsKvTableSchema_0); } }
proof fn lemma_next(l: Seq<TableSchema>, s: TableSchema) requires history(l), made(l, s), s is TsKvTableSchema, l.last() is TsKvTableSchema, l.last()->TsKvTableSchema_0.schema_version < s->TsKvTableSchema_0.schema_version ensures history(l.push(s)) {
    let u = l.push(s); let b = s->TsKvTableSchema_0;
    if all_tskv(u) {
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) is TsKvTableSchema by { assert(u[i] == l[i]); }
        let t = tskv(l); let i = choose|i: int| 0 <= i < l.len() && grows(#[trigger] tskv(l)[i], b); assert(t.contains(t[i])); assert(t.last() == l.last()->TsKvTableSchema_0);
        lemma_versions(t, i, t.len() - 1); lemma_accepted(t, t[i], b); assert(tskv(u) =~= t.push(b));
        assert forall|i: int| 0 <= i < u.len() implies sound(#[trigger] tskv(u)[i]) by { if i < l.len() { assert(tskv(u)[i] == t[i]); } }
    }
}
//@extract meta/src/store/storage.rs StateMachine::process_create_table
@header impl StateMachine
@subst /&self,/ => &mut self,
@subst /\s*(cluster|tenant): &str,/ =>
@subst /\bcluster, tenant, / =>
@subst /\(cluster, tenant\)/ => ()
@subst /&value_encode\((\w+)\)\?/ => \1
@subst /MetaError::(\w+) \{[^{}]*\}/ => MetaError::\1
@ret r
@spec
    requires schema is TsKvTableSchema ==> sound(schema->TsKvTableSchema_0), history(old(self).log(key_of(*schema)))
    ensures r is Ok ==> old(self).log(key_of(*schema)).len() == 0 && final(self).log(key_of(*schema)) == old(self).log(key_of(*schema)).push(*schema),
        told(old(self).log(key_of(*schema)), final(self).log(key_of(*schema)), *schema), history(final(self).log(key_of(*schema))), Self::others(*old(self), *final(self), key_of(*schema))
@at start
    proof { let l = self.log(key_of(*schema)); if l.len() == 0 { lemma_first(l, *schema); } }
@end
//@extract meta/src/store/storage.rs StateMachine::process_update_table
@header impl StateMachine
@subst /&self,/ => &mut self,
@subst /\s*(cluster|tenant): &str,/ =>
@subst /\bcluster, tenant, / =>
@subst /get_struct::<TableSchema>/ => get_struct
@subst /&value_encode\((\w+)\)\?/ => \1
@subst /MetaError::(\w+) \{[^{}]*\}/ => MetaError::\1
@subst /match \(val, schema\) \{/ => match (&val, schema) {
@ret r
@spec
    requires old(self).log(key_of(*schema)).last() matches TableSchema::TsKvTableSchema(t) ==> t.schema_version < u64::MAX, history(old(self).log(key_of(*schema))), made(old(self).log(key_of(*schema)), *schema)
    ensures r is Ok ==> final(self).log(key_of(*schema)) == old(self).log(key_of(*schema)).push(*schema),
        told(old(self).log(key_of(*schema)), final(self).log(key_of(*schema)), *schema), history(final(self).log(key_of(*schema))), Self::others(*old(self), *final(self), key_of(*schema))
@at start
    proof { let l = self.log(key_of(*schema)); if *schema is TsKvTableSchema && l.last() is TsKvTableSchema && l.last()->TsKvTableSchema_0.schema_version < schema->TsKvTableSchema_0.schema_version { lemma_next(l, *schema); } }
@end
fn main() {}
}
