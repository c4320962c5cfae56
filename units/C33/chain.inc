// ---- the table over time ----
// log: the schemas the table had, one after the other
spec fn chain(log: Seq<TskvTableSchema>) -> bool { forall|i: int, j: int| 0 <= i && j == i + 1 && j < log.len() ==> grows(#[trigger] log[i], #[trigger] log[j]) }
// a schema made from one the table had is accepted (its version is the next): then it was made from the last
proof fn lemma_accepted(log: Seq<TskvTableSchema>, a: TskvTableSchema, b: TskvTableSchema) requires log.len() > 0, chain(log), log.contains(a), grows(a, b), log.last().schema_version + 1 == b.schema_version ensures chain(log.push(b)) {
    let i = choose|i: int| 0 <= i < log.len() && log[i] == a; lemma_versions(log, i, log.len() - 1); let u = log.push(b);
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < u.len() implies grows(#[trigger] u[i], #[trigger] u[j]) by { if j < log.len() { assert(u[i] == log[i] && u[j] == log[j]); } else { assert(u[i] == log.last()); } }
}
proof fn lemma_versions(log: Seq<TskvTableSchema>, i: int, j: int) requires chain(log), 0 <= i <= j < log.len() ensures log[j].schema_version == log[i].schema_version + (j - i), log[j].next_column_id >= log[i].next_column_id decreases j - i { if i < j { lemma_versions(log, i, j - 1); assert(grows(log[j - 1], log[j])); } }
// an id given by then is the same column with the same type later on, or gone
proof fn lemma_ids_stay(log: Seq<TskvTableSchema>, i: int, j: int, c: u32, y: ColumnType) requires chain(log), 0 <= i <= j < log.len(), c < log[i].next_column_id, typed(log[j], c, y) ensures typed(log[i], c, y) decreases j - i {
    if i < j { let b = log[j]; let a = log[j - 1]; assert(grows(a, b)); lemma_versions(log, i, j - 1); let k = choose|k: int| 0 <= k < b.columns@.len() && (#[trigger] b.columns@[k]).id == c && b.columns@[k].column_type == y; assert(was(a.columns@, b.columns@[k]));
        let x = choose|x: int| 0 <= x < a.columns@.len() && (#[trigger] a.columns@[x]).id == c && a.columns@[x].column_type == y; assert(typed(a, c, y)); lemma_ids_stay(log, i, j - 1, c, y); }
}
// the id of a dropped column is never in use again
proof fn lemma_never_again(log: Seq<TskvTableSchema>, h: int, i: int, j: int, c: u32) requires chain(log), 0 <= h <= i <= j < log.len(), sound(log[h]), taken(log[h], c), !taken(log[i], c) ensures !taken(log[j], c) {
    lemma_versions(log, h, i); assert(c < log[i].next_column_id);
    if taken(log[j], c) { let k = choose|k: int| 0 <= k < log[j].columns@.len() && (#[trigger] log[j].columns@[k]).id == c; let y = log[j].columns@[k].column_type; assert(typed(log[j], c, y)); lemma_ids_stay(log, i, j, c, y); }
}
