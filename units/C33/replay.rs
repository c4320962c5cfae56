//@prelude
mod mc {
use std::borrow::Cow; use std::cell::RefCell; use std::collections::{BTreeMap, HashMap, VecDeque}; use std::sync::Arc;
pub type ColumnId = u32; pub type SchemaVersion = u64; pub type TskvTableSchemaRef = Arc<TskvTableSchema>; const TIME_FIELD_NAME: &str = "time";
// ---- stand-ins: column types and the errors ----
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum TimeUnit { Second, Nanosecond } #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum Precision { NS } impl From<Precision> for TimeUnit { fn from(_: Precision) -> Self { TimeUnit::Nanosecond } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum ValueType { Integer, Float } #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum FieldType { Integer, Float } #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)] pub enum Encoding { #[default] Default, Delta }
#[derive(Debug, Clone, PartialEq, Eq)] pub enum ColumnType { Tag, Time(TimeUnit), Field(ValueType) }
impl ColumnType { pub fn is_tag(&self) -> bool { matches!(self, ColumnType::Tag) } pub fn is_time(&self) -> bool { matches!(self, ColumnType::Time(_)) } pub fn is_field(&self) -> bool { matches!(self, ColumnType::Field(_)) } pub fn matches_type(&self, o: &ColumnType) -> bool { self == o }
 pub fn from_proto_field_type(f: FieldType) -> Self { ColumnType::Field(match f { FieldType::Integer => ValueType::Integer, FieldType::Float => ValueType::Float }) } }
impl std::fmt::Display for ColumnType { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
#[derive(Debug, Clone, PartialEq, Eq)] pub enum MetaError { TenantNotFound { tenant: String }, TableNotFound { table: String }, DatabaseNotFound { database: String }, TableAlreadyExists { table_name: String }, UpdateTableConflict { name: String }, NotSupport { msg: String } } pub type MetaResult<T> = Result<T, MetaError>;
#[derive(Debug)] pub enum SchemaError { Meta(MetaError), ColumnType { column: String, found: ColumnType, expected: ColumnType } } pub type SchemaResult<T> = Result<T, SchemaError>; impl From<MetaError> for SchemaError { fn from(e: MetaError) -> Self { SchemaError::Meta(e) } }
pub struct ColumnTypeSnafu { column: String, found: ColumnType, expected: ColumnType } impl ColumnTypeSnafu { fn build(self) -> SchemaError { SchemaError::ColumnType { column: self.column, found: self.found, expected: self.expected } } }
#[derive(Debug)] pub enum QueryError { Meta { source: MetaError }, Coordinator { source: MetaError }, Common { msg: String }, NotImplemented { err: String }, ColumnAlreadyExists { table: String, column: String }, ColumnNotExists { column: String, table: String }, ColumnNotFound { col: String }, DropTag { column: String }, AtLeastOneField, AtLeastOneTag, TagNotSupportCompression, TimeColumnAlter, EncodingType { encoding_type: Encoding, data_type: String } } pub type QueryResult<T> = Result<T, QueryError>;
pub struct MetaSnafu; pub struct CoordinatorSnafu; pub struct CommonSnafu { msg: String } impl CommonSnafu { fn build(self) -> QueryError { QueryError::Common { msg: self.msg } } } pub trait Ctx<T, S> { fn context(self, s: S) -> QueryResult<T>; } impl<T> Ctx<T, MetaSnafu> for MetaResult<T> { fn context(self, _: MetaSnafu) -> QueryResult<T> { self.map_err(|source| QueryError::Meta { source }) } } impl<T> Ctx<T, CoordinatorSnafu> for MetaResult<T> { fn context(self, _: CoordinatorSnafu) -> QueryResult<T> { self.map_err(|source| QueryError::Coordinator { source }) } }
// ---- the schema of a table ----
//@extract common/models/src/schema/tskv_table_schema.rs struct TableColumn
@derive Debug, Clone, PartialEq, Eq
@end
impl TableColumn { pub fn encoding_valid(&self) -> bool { true } }
//@extract common/models/src/schema/tskv_table_schema.rs TableColumn::new
@end
//@extract common/models/src/schema/tskv_table_schema.rs TableColumn::new_time_column
@end
//@extract common/models/src/schema/tskv_table_schema.rs TableColumn::new_tag_column
@end
//@extract common/models/src/schema/tskv_table_schema.rs struct TskvTableSchema
@derive Debug, Clone, PartialEq, Eq
@end
impl TskvTableSchema { pub fn index(&self) -> &HashMap<String, usize> { &self.columns_index } }
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::new
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::build_fields_ids
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::add_column
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::drop_column
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::change_column
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::column
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::columns
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::contains_column
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::next_column_id
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::field_num
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::fields_id
@end
#[derive(Debug, Clone, PartialEq, Eq)] pub enum TableSchema { TsKvTableSchema(TskvTableSchemaRef), ExternalTableSchema(u8) }
impl TableSchema { fn name(&self) -> &str { match self { TableSchema::TsKvTableSchema(s) => &s.name, _ => "" } } fn db(&self) -> &str { match self { TableSchema::TsKvTableSchema(s) => &s.db, _ => "" } } }
// ---- stand-in: the store of the meta service; what happens meanwhile on other nodes happens before each call to it ----
pub struct KeyPath; impl KeyPath { fn tenant_db_name(c: &str, t: &str, d: &str) -> String { format!("/{c}/{t}/{d}") } fn tenant_schema_name(c: &str, t: &str, d: &str, n: &str) -> String { format!("/{c}/{t}/{d}/{n}") } }
pub fn value_encode(s: &TableSchema) -> MetaResult<TableSchema> { Ok(s.clone()) }
#[derive(Default)] pub struct StateMachine { pub kv: RefCell<BTreeMap<String, TableSchema>>, pub log: RefCell<Vec<TskvTableSchemaRef>>, version: RefCell<u64> }
impl StateMachine { fn contains_key(&self, k: &str) -> MetaResult<bool> { Ok(k == "/c/t/d" || self.kv.borrow().contains_key(k)) } fn get_struct<T>(&self, k: &str) -> MetaResult<Option<TableSchema>> { let _ = std::marker::PhantomData::<T>; Ok(self.kv.borrow().get(k).cloned()) }
 fn insert(&self, k: &str, v: &TableSchema) -> MetaResult<()> { self.kv.borrow_mut().insert(k.to_string(), v.clone()); if let TableSchema::TsKvTableSchema(s) = v { self.log.borrow_mut().push(s.clone()); } *self.version.borrow_mut() += 1; Ok(()) }
 pub fn to_tenant_meta_data(&self, _: &str, _: &str) -> MetaResult<TenantMetaData> { let tables = self.kv.borrow().values().map(|v| (v.name().to_string(), v.clone())).collect(); Ok(TenantMetaData { version: *self.version.borrow(), dbs: HashMap::from([("d".to_string(), DatabaseInfo { tables })]) }) } }
//@extract meta/src/store/storage.rs StateMachine::process_create_table
@end
//@extract meta/src/store/storage.rs StateMachine::process_update_table
@end
#[derive(Debug, Clone, Default)] pub struct DatabaseInfo { tables: HashMap<String, TableSchema> } #[derive(Debug, Clone, Default)] pub struct TenantMetaData { version: u64, dbs: HashMap<String, DatabaseInfo> }
impl TenantMetaData { fn table_schema(&self, d: &str, t: &str) -> Option<TableSchema> { self.dbs.get(d)?.tables.get(t).cloned() } }
pub mod command { pub enum WriteCommand { CreateTable(String, String, super::TableSchema), UpdateTable(String, String, super::TableSchema) } }
pub enum ReadCommand { TableSchema(String, String, String, String) }
pub enum Resp { Unit, Data(TenantMetaData), Table(Option<TableSchema>) } pub trait FromResp { fn of(r: Resp) -> Self; } impl FromResp for () { fn of(_: Resp) {} } impl FromResp for TenantMetaData { fn of(r: Resp) -> Self { match r { Resp::Data(d) => d, _ => panic!("not a tenant") } } } impl FromResp for Option<TableSchema> { fn of(r: Resp) -> Self { match r { Resp::Table(d) => d, _ => panic!("not a table") } } }
pub type Act = Box<dyn FnOnce()>; thread_local! { pub static SLOTS: RefCell<VecDeque<Option<Act>>> = const { RefCell::new(VecDeque::new()) }; pub static STORE: RefCell<std::rc::Rc<StateMachine>> = RefCell::new(Default::default()); pub static TASKS: RefCell<Vec<(Arc<MetaClient>, ResourceOperator)>> = const { RefCell::new(vec![]) }; }
pub fn store() -> std::rc::Rc<StateMachine> { STORE.with(|s| s.borrow().clone()) }
pub fn meanwhile() { loop { let a = SLOTS.with(|s| s.borrow_mut().pop_front()); match a { Some(Some(a)) => a(), _ => return } } }
#[derive(Debug, Default)] pub struct Client;
impl Client {
    fn write<T: FromResp>(&self, req: &command::WriteCommand) -> MetaResult<T> { meanwhile(); Ok(T::of(match req { command::WriteCommand::CreateTable(c, t, s) => Resp::Data(store().process_create_table(c, t, s)?), command::WriteCommand::UpdateTable(c, t, s) => { store().process_update_table(c, t, s)?; Resp::Unit } })) }
    fn read<T: FromResp>(&self, req: &ReadCommand) -> MetaResult<T> { meanwhile(); let ReadCommand::TableSchema(c, t, d, n) = req; Ok(T::of(Resp::Table(store().get_struct::<TableSchema>(&KeyPath::tenant_schema_name(c, t, d, n))?))) }
}
pub struct Lock<T>(RefCell<T>); impl<T: Default> Default for Lock<T> { fn default() -> Self { Lock(RefCell::new(T::default())) } } impl<T: std::fmt::Debug> std::fmt::Debug for Lock<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("lock") } } impl<T> Lock<T> { fn read(&self) -> std::cell::Ref<'_, T> { self.0.borrow() } fn write(&self) -> std::cell::RefMut<'_, T> { self.0.borrow_mut() } }
#[derive(Debug, Default)] pub struct Tenant(u32); impl Tenant { fn name(&self) -> &str { "t" } fn id(&self) -> &u32 { &self.0 } }
#[derive(Debug, Default)] pub struct TenantMeta { cluster: String, tenant: Tenant, data: Lock<TenantMetaData>, client: Client } pub type MetaClient = TenantMeta; pub type MetaClientRef = Arc<MetaClient>;
impl TenantMeta { pub fn fresh() -> Arc<Self> { let d = store().to_tenant_meta_data("c", "t").unwrap(); Arc::new(Self { cluster: "c".into(), tenant: Tenant(0), data: Lock(RefCell::new(d)), client: Client }) } fn tenant_name(&self) -> String { "t".into() } fn tenant(&self) -> &Tenant { &self.tenant } pub fn sync(&self) { *self.data.write() = store().to_tenant_meta_data("c", "t").unwrap(); } }
//@extract meta/src/model/meta_tenant.rs TenantMeta::write_with_data
@end
//@extract meta/src/model/meta_tenant.rs TenantMeta::create_table
@end
//@extract meta/src/model/meta_tenant.rs TenantMeta::update_table
@end
//@extract meta/src/model/meta_tenant.rs TenantMeta::get_tskv_table_schema
@end
//@extract meta/src/model/meta_tenant.rs TenantMeta::get_tskv_table_schema_by_meta
@end
// ---- writes ----
pub struct FbSchema<'a> { pub table: &'a str, pub tag_names: Vec<Cow<'a, str>>, pub field_names: Vec<&'a str>, pub field_types: Vec<FieldType> }
pub struct Config(Precision); impl Config { fn precision(&self) -> &Precision { &self.0 } } pub struct DatabaseSchema { config: Config }
pub struct DBschemas { client: MetaClientRef, tenant_name: String, database_name: String } impl DBschemas { pub fn on(client: MetaClientRef) -> Self { Self { client, tenant_name: "t".into(), database_name: "d".into() } } fn tenant_meta(&self) -> SchemaResult<MetaClientRef> { Ok(self.client.clone()) } fn db_schema_by_meta(&self) -> SchemaResult<DatabaseSchema> { Ok(DatabaseSchema { config: Config(Precision::NS) }) } }
//@extract tskv/src/schema/schemas.rs DBschemas::database_name
@end
//@extract tskv/src/schema/schemas.rs DBschemas::tenant_name
@end
//@extract tskv/src/schema/schemas.rs DBschemas::check_field_type_or_else_add_impl
@end
//@extract tskv/src/schema/schemas.rs DBschemas::check_field_type_or_else_add
@end
//@extract tskv/src/schema/schemas.rs DBschemas::get_table_schema
@end
//@extract tskv/src/schema/schemas.rs DBschemas::get_table_schema_by_meta
@end
// ---- ALTER TABLE: the plan is made first, and run later ----
#[derive(Clone, Debug)] pub struct Ident(pub String); fn normalize_ident(i: Ident) -> String { i.0 } #[derive(Clone, Debug)] pub struct TableRef; #[derive(Clone, Debug)] pub struct ResolvedTable; impl TableRef { fn resolve_object(self, _: u8, _: u8) -> QueryResult<ResolvedTable> { Ok(ResolvedTable) } } impl ResolvedTable { fn tenant(&self) -> &str { "t" } fn database(&self) -> &str { "d" } fn table(&self) -> &str { "m" } }
impl std::fmt::Display for ResolvedTable { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("m") } }
fn normalize_sql_object_name(_: u8) -> QueryResult<TableRef> { Ok(TableRef) } #[derive(Clone, Debug)] pub struct ColumnOption { pub name: Ident, pub column_type: ColumnType } pub struct ASTAlterTable { pub table_name: u8, pub alter_action: ASTAlterTableAction }
#[derive(Clone, Debug)] pub enum ASTAlterTableAction { AddColumn { column: ColumnOption }, DropColumn { column_name: Ident }, AlterColumnEncoding { column_name: Ident, encoding: Encoding }, RenameColumn { old_column_name: Ident, new_column_name: Ident } }
//@extract query_server/spi/src/query/logical_planner.rs enum AlterTableAction
@derive Debug, Clone, PartialEq, Eq
@end
#[derive(Clone, Debug)] pub struct AlterTable { pub table_name: ResolvedTable, pub alter_action: AlterTableAction } pub enum DDLPlan { AlterTable(AlterTable) } pub enum Plan { DDL(DDLPlan) } pub struct PlanWithPrivileges { pub plan: Plan, privileges: Vec<Privilege> } pub enum DatabasePrivilege { Full } pub enum TenantObjectPrivilege { Database(DatabasePrivilege, Option<String>) } pub enum Privilege { TenantObject(TenantObjectPrivilege, Option<u32>) }
pub struct SessionCtx(u32); impl SessionCtx { pub fn fresh() -> Self { Self(0) } fn tenant(&self) -> u8 { 0 } fn default_database(&self) -> u8 { 0 } fn tenant_id(&self) -> &u32 { &self.0 } }
pub struct Handle(TskvTableSchemaRef); impl Handle { fn table_schema(&self) -> TskvTableSchemaRef { self.0.clone() } } pub enum TableHandle { Tskv(Handle), External } pub trait ContextProviderExtension {} impl ContextProviderExtension for u8 {}
pub struct SqlPlanner<'a, S> { client: MetaClientRef, _p: std::marker::PhantomData<&'a S> }
impl<'a, S> SqlPlanner<'a, S> { pub fn on(client: MetaClientRef) -> Self { Self { client, _p: std::marker::PhantomData } } fn get_table_handle(&self, _: TableRef) -> QueryResult<TableHandle> { let _ = || TableHandle::External; match self.client.get_tskv_table_schema("d", "m") { Ok(Some(s)) => Ok(TableHandle::Tskv(Handle(s))), _ => Err(QueryError::Common { msg: "no table".into() }) } } fn column_opt_to_table_column(&self, c: ColumnOption, id: ColumnId, _: TimeUnit) -> QueryResult<TableColumn> { Ok(TableColumn::new(id, normalize_ident(c.name), c.column_type, Encoding::Default)) } }
impl<'a, S: ContextProviderExtension + Send + Sync + 'a> SqlPlanner<'a, S> { pub fn plan(&self, a: ASTAlterTableAction) -> QueryResult<AlterTable> { let Plan::DDL(DDLPlan::AlterTable(p)) = self.alter_table_to_plan(ASTAlterTable { table_name: 0, alter_action: a }, &SessionCtx::fresh())?.plan; Ok(p) } }
//@extract query_server/query/src/sql/planner.rs SqlPlanner::alter_table_to_plan
@end
#[derive(Debug, Clone)] pub enum ResourceOperator { AddColumn(TskvTableSchema, TableColumn), DropColumn(String, TskvTableSchema), AlterColumn(String, TskvTableSchema, TableColumn) } impl ResourceOperator { fn schema(&self) -> &TskvTableSchema { match self { ResourceOperator::AddColumn(s, _) | ResourceOperator::DropColumn(_, s) | ResourceOperator::AlterColumn(_, s, _) => s } } }
pub struct ResourceInfo(ResourceOperator); impl ResourceInfo { fn new(_: (u32, String), _: String, op: ResourceOperator, _: &Option<u8>, _: u64) -> Self { ResourceInfo(op) } }
#[derive(Clone)] pub struct Coord(MetaClientRef, bool); impl Coord { fn node_id(&self) -> u64 { 0 } } pub struct ResourceManager; impl ResourceManager { fn add_resource_task(c: Coord, i: ResourceInfo) -> MetaResult<()> { if c.1 { TASKS.with(|t| t.borrow_mut().push((c.0.clone(), i.0))); Ok(()) } else { c.0.update_table(&TableSchema::TsKvTableSchema(Arc::new(i.0.schema().clone()))) } } }
pub fn late() { let t = TASKS.with(|t| t.borrow_mut().pop()); if let Some((c, op)) = t { let _ = c.update_table(&TableSchema::TsKvTableSchema(Arc::new(op.schema().clone()))); } }
pub struct Meta(MetaClientRef); impl Meta { fn tenant_meta(&self, _: &str) -> Option<MetaClientRef> { meanwhile(); Some(self.0.clone()) } } pub struct QueryStateMachine { meta: Meta, coord: Coord } pub type QueryStateMachineRef = Arc<QueryStateMachine>; pub enum Output { Nil(()) }
pub struct AlterTableTask { stmt: AlterTable } impl AlterTableTask { pub fn run(stmt: AlterTable, c: MetaClientRef, late: bool) -> QueryResult<()> { Self { stmt }.execute(Arc::new(QueryStateMachine { meta: Meta(c.clone()), coord: Coord(c, late) })).map(|o| match o { Output::Nil(()) => () }) } }
//@extract query_server/query/src/execution/ddl/alter_table.rs DDLDefinitionTask for AlterTableTask::execute
@header impl AlterTableTask
@end
//@helpers
}
use mc::*; use std::borrow::Cow; use std::cell::RefCell; use std::collections::{BTreeMap, VecDeque}; use std::rc::Rc; use std::sync::Arc;
#[derive(Debug, Clone)] enum Op { Write { tags: Vec<String>, fields: Vec<(String, FieldType)> }, Alter { act: ASTAlterTableAction, late: bool }, Sync, Late }
#[derive(Default)] struct World { clients: Vec<MetaClientRef>, errs: Vec<String>, taken: Vec<(Op, TskvTableSchemaRef)> }
// one operation on a node; ops that stand behind it in `rest` happen while it runs
fn go(w: &Rc<RefCell<World>>, node: usize, op: &Op) {
    let c = w.borrow().clients[node].clone();
    match op {
        Op::Sync => c.sync(), Op::Late => late(),
        Op::Write { tags, fields } => { let fb = FbSchema { table: "m", tag_names: tags.iter().map(|t| Cow::Borrowed(t.as_str())).collect(), field_names: fields.iter().map(|f| f.0.as_str()).collect(), field_types: fields.iter().map(|f| f.1).collect() }; if let Ok(s) = DBschemas::on(c).check_field_type_or_else_add(&fb) { w.borrow_mut().taken.push((op.clone(), s)); } }
        Op::Alter { act, late } => { if let Ok(p) = SqlPlanner::<u8>::on(c.clone()).plan(act.clone()) { let _ = AlterTableTask::run(p, c, *late); } }
    }
}
fn sound(s: &TskvTableSchema) -> Result<(), String> {
    let c = s.columns(); for i in 0..c.len() { for j in 0..i { if c[i].id == c[j].id { return Err(format!("{} and {} have the id {}", c[j].name, c[i].name, c[i].id)); } if c[i].name == c[j].name { return Err(format!("two columns {}", c[i].name)); } } if s.index().get(&c[i].name) != Some(&i) { return Err(format!("{} is not found at {i}", c[i].name)); } if c[i].id >= s.next_column_id() { return Err(format!("the id {} of {} will be given again", c[i].id, c[i].name)); } }
    if s.index().len() != c.len() { return Err("names of no column".into()); } let mut f: Vec<u32> = c.iter().filter(|c| c.column_type.is_field()).map(|c| c.id).collect(); f.sort(); if s.fields_id().len() != f.len() || f.iter().enumerate().any(|(i, d)| s.fields_id().get(d) != Some(&i)) { return Err(format!("fields {f:?} stand at {:?}", s.fields_id())); } Ok(())
}
fn judge(w: &World) -> Result<(), String> {
    let st = store(); let log = st.log.borrow(); let mut types: BTreeMap<u32, ColumnType> = BTreeMap::new(); let show = |s: &TskvTableSchema| format!("{:?}", s.columns().iter().map(|c| (c.id, c.name.as_str())).collect::<Vec<_>>());
    for (k, s) in log.iter().enumerate() {
        sound(s).map_err(|e| format!("schema {k} stored, {}: {e}", show(s)))?; if s.schema_version != k as u64 { return Err(format!("schema {k} is stored with version {}", s.schema_version)); }
        for c in s.columns() { match types.get(&c.id) { None => (), Some(t) if *t != c.column_type => return Err(format!("the column {} was {t:?} and is now {:?} ({})", c.id, c.column_type, c.name)), Some(_) => if !log[k - 1].columns().iter().any(|d| d.id == c.id) { return Err(format!("the id {} of a dropped column is given to {} again, {}", c.id, c.name, show(s))); } } }
        let top = types.keys().last().copied(); for c in s.columns() { if !types.contains_key(&c.id) { if top.map_or(false, |t| c.id <= t) { return Err(format!("the new column {} has the id {}, {} is taken", c.name, c.id, top.unwrap())); } } } for c in s.columns() { types.insert(c.id, c.column_type.clone()); }
        if k > 0 { let p = &log[k - 1]; for c in p.columns() { if let Some(d) = s.columns().iter().find(|d| d.name == c.name) { if d.id != c.id && p.columns().iter().any(|x| x.id == d.id) { return Err(format!("{} was column {} and is now {}", c.name, c.id, d.id)); } } } }
    }
    for (op, s) in &w.taken { sound(s)?; if !log.iter().any(|l| l == s) { return Err(format!("{op:?} is written under {} (version {}), which the table never had: {}", show(s), s.schema_version, log.iter().map(|l| show(l)).collect::<Vec<_>>().join(" "))); }
        if let Op::Write { tags, fields } = op { for t in tags { if !s.column(t).map_or(false, |c| c.column_type.is_tag()) { return Err(format!("{op:?}: no tag {t}")); } } for (f, t) in fields { if !s.column(f).map_or(false, |c| c.column_type == ColumnType::from_proto_field_type(*t)) { return Err(format!("{op:?}: no field {f}")); } } } }
    if let Some(e) = w.errs.first() { return Err(e.clone()); } Ok(())
}
fn run(ops: &[(usize, Op, usize)], nodes: usize) -> Result<(), String> {
    STORE.with(|s| *s.borrow_mut() = Default::default()); TASKS.with(|t| t.borrow_mut().clear()); SLOTS.with(|s| s.borrow_mut().clear());
    let w = Rc::new(RefCell::new(World { clients: (0..nodes).map(|_| TenantMeta::fresh()).collect(), ..Default::default() })); let mut k = 0;
    while k < ops.len() { let (node, op, more) = &ops[k]; k += 1; let mut q: VecDeque<Option<Act>> = VecDeque::new(); for _ in 0..*more { if k < ops.len() { let (n, o, gap) = ops[k].clone(); k += 1; for _ in 0..gap { q.push_back(None); } let w = w.clone(); q.push_back(Some(Box::new(move || go(&w, n, &o)))); } } SLOTS.with(|s| *s.borrow_mut() = q); go(&w, *node, op); let rest = SLOTS.with(|s| std::mem::take(&mut *s.borrow_mut())); for a in rest.into_iter().flatten() { a(); } }
    while TASKS.with(|t| !t.borrow().is_empty()) { late(); } let r = judge(&w.borrow()); r
}
fn main() {
    let mut h = vx::H::new();
    for seed in 0..h.scale(20000, 200000) {
        let mut r = h.rng(seed as u64); let names = ["a", "b", "c", "d", "time"]; let nodes = 1 + r.below(3) as usize; let n = 1 + r.below(9) as usize; let mut ops = vec![]; let focus = if r.chance(1, 2) { 2 } else { 4 };
        if r.chance(1, 2) { ops.push((0, Op::Write { tags: vec!["b".into()], fields: vec![("a".into(), FieldType::Integer), ("c".into(), FieldType::Integer)] }, 0)); for m in 0..nodes { if r.chance(3, 4) { ops.push((m, Op::Sync, 0)); } } }
        for _ in 0..n { let nm = |k: u64| names[if k < 12 { k as usize % focus } else { k as usize % 5 }].to_string(); let op = match r.below(12) {
            0..=3 => { let mut tags = vec![]; let mut fields = vec![]; for _ in 0..r.below(3) { let k = r.below(14); tags.push(nm(k)); } for _ in 0..1 + r.below(3) { let k = r.below(14); let t = if r.chance(3, 4) { FieldType::Integer } else { FieldType::Float }; fields.push((nm(k), t)); } Op::Write { tags, fields } }
            4 | 5 => { let k = r.below(14); let t = r.pick(&[ColumnType::Tag, ColumnType::Field(ValueType::Integer), ColumnType::Field(ValueType::Integer), ColumnType::Field(ValueType::Float)]); Op::Alter { act: ASTAlterTableAction::AddColumn { column: ColumnOption { name: Ident(nm(k)), column_type: t } }, late: r.chance(1, 4) } }
            6 => { let k = r.below(14); Op::Alter { act: ASTAlterTableAction::DropColumn { column_name: Ident(nm(k)) }, late: r.chance(1, 4) } }
            7 => { let k = r.below(14); let j = r.below(14); Op::Alter { act: ASTAlterTableAction::RenameColumn { old_column_name: Ident(nm(k)), new_column_name: Ident(nm(j)) }, late: false } }
            8 | 9 => { let k = r.below(14); Op::Alter { act: ASTAlterTableAction::AlterColumnEncoding { column_name: Ident(nm(k)), encoding: r.pick(&[Encoding::Default, Encoding::Delta]) }, late: r.chance(1, 4) } }
            _ => if r.chance(2, 3) { Op::Sync } else { Op::Late } };
            let node = r.below(nodes as _) as usize; ops.push((node, op, r.pick(&[0usize, 0, 1, 1, 2, 3, 4]))); if r.chance(1, 2) { let m = r.below(nodes as _) as usize; ops.push((m, Op::Sync, 0)); } }
        let show = format!("{ops:?}"); h.case("history", vx::hash(&show), &|| show.clone(), &mut || run(&ops, nodes));
    }
    h.done();
}
