// ---- no id of a table is given twice: every id in use is below the next one ----
spec fn fresh(t: TskvTableSchema) -> bool { forall|i: int| 0 <= i < t.columns@.len() ==> (#[trigger] t.columns@[i]).id < t.next_column_id }
spec fn known(t: TskvTableSchema, n: Name) -> bool { t.columns_index.at().dom().contains(n) }
spec fn at(t: TskvTableSchema, n: Name) -> int { t.columns_index.at()[n] as int }
spec fn sound(t: TskvTableSchema) -> bool { ok(t) && fresh(t) }
spec fn was(a: Seq<TableColumn>, c: TableColumn) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).id == c.id && a[i].column_type == c.column_type }
// b comes after a: an id of b is the same column in a, or was not given yet
spec fn grows(a: TskvTableSchema, b: TskvTableSchema) -> bool {
    &&& sound(b) && b.schema_version == a.schema_version + 1 && b.next_column_id >= a.next_column_id && b.tenant == a.tenant && b.db == a.db && b.name == a.name
    &&& forall|j: int| 0 <= j < b.columns@.len() ==> was(a.columns@, #[trigger] b.columns@[j]) || b.columns@[j].id >= a.next_column_id
}
spec fn taken(t: TskvTableSchema, c: u32) -> bool { exists|i: int| 0 <= i < t.columns@.len() && (#[trigger] t.columns@[i]).id == c }
spec fn typed(t: TskvTableSchema, c: u32, y: ColumnType) -> bool { exists|i: int| 0 <= i < t.columns@.len() && (#[trigger] t.columns@[i]).id == c && t.columns@[i].column_type == y }
impl Name { fn cp(&self) -> (r: Name) ensures r == *self { *self } }
impl ColumnType { #[verifier::external_body] fn cp(&self) -> (r: ColumnType) ensures r == *self { unimplemented!() } fn is_tag(&self) -> (r: bool) ensures r == (*self is Tag) { matches!(self, ColumnType::Tag) } fn is_time(&self) -> (r: bool) ensures r == (*self is Time) { matches!(self, ColumnType::Time(_)) } }
impl TableColumn { fn new(id: ColumnId, name: Name, column_type: ColumnType, encoding: u8) -> (r: TableColumn) ensures r.id == id, r.name == name, r.column_type == column_type, r.encoding == encoding { TableColumn { id, name, column_type, encoding } } }
