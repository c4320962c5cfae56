import sys
sys.argv, args = [sys.argv[0], '-'], sys.argv[1:]
sys.path.insert(0, '/verif/tools')
exec(open('/verif/tools/seeds2.py').read().split("T='tskv")[0])
only = args
M='tskv/src/mem_cache/'
W='''
fn w(schema: usize, rows: &[(i64, &[(u32, i64)])]) -> Op { Op::Write { sid: 1, schema, rows: rows.iter().map(|r| (r.0, r.1.iter().map(|v| (v.0, FieldVal::Integer(v.1))).collect())).collect() } }
fn all() -> Op { Op::Read { sid: 1, ids: vec![2, 3, 4], ranges: vec![(i64::MIN, i64::MAX)] } }
fn sch(v: u64, ids: &[u32]) -> Arc<TskvTableSchema> { schema(v, ids.iter().map(|i| col(*i, false)).collect()) }
'''
S('cache_groups_order','C32',[(M+'series_data.rs','in self.vec_pq.iter_mut().rev() {','in self.vec_pq.iter_mut() {')],
 'two writes of the same field at the same time with a schema change in between','the cache reads and flushes the older value',
 head2('C32')+W+'''
fn main() { run(&[sch(0, &[2]), sch(1, &[2, 3])], &[w(0, &[(5, &[(2, 1)]), (6, &[(2, 2)])]), all(), w(1, &[(5, &[(2, 7)]), (8, &[(3, 2)])]), all()], 2).unwrap(); }
''')
S('cache_drop_place','C32',[(M+'series_data.rs','row.fields.remove(index);','row.fields.swap_remove(index);')],
 'a column dropped that has at least two fields behind it, while rows are in the memory cache','the values of the last field and of the others change places',
 head2('C32')+W+'''
fn main() { run(&[sch(0, &[2, 3, 4]), sch(1, &[3, 4])], &[w(0, &[(5, &[(2, 1), (3, 2), (4, 3)])]), all(), Op::Drop { sid: 1, id: 2 }, all(), w(1, &[(6, &[(3, 5), (4, 6)])]), all()], 2).unwrap(); }
''')
S('cache_delete_edge','C32',[(M+'series_data.rs','if time_range.max_ts < self.range.min_ts || time_range.min_ts > self.range.max_ts {','if time_range.max_ts <= self.range.min_ts || time_range.min_ts >= self.range.max_ts {')],
 'a delete whose range ends at the first time of a series in the memory cache, or begins at its last','the row at this time stays',
 head2('C32')+W+'''
fn main() { run(&[sch(0, &[2, 3])], &[w(0, &[(5, &[(2, 1)]), (6, &[(2, 2)]), (9, &[(3, 2)])]), all(), Op::Delete { sid: 1, ranges: vec![(9, 20)] }, all(), Op::Delete { sid: 1, ranges: vec![(-5, 5)] }, all()], 1).unwrap(); }
''')
X='''
fn w(f: &[&str]) -> Op { Op::Write { tags: vec!["t".into()], fields: f.iter().map(|n| (n.to_string(), FieldType::Integer)).collect() } }
fn alter(act: ASTAlterTableAction) -> Op { Op::Alter { act, late: false } }
fn id(n: &str) -> Ident { Ident(n.to_string()) }
fn drop(n: &str) -> Op { alter(ASTAlterTableAction::DropColumn { column_name: id(n) }) }
fn enc(n: &str) -> Op { alter(ASTAlterTableAction::AlterColumnEncoding { column_name: id(n), encoding: Encoding::Delta }) }
'''
MS='common/models/src/schema/tskv_table_schema.rs'
S('schema_id_reuse','C33',[(MS,'        self.next_column_id += 1;','        self.next_column_id = self.columns.len() as ColumnId;')],
 'a column dropped, and two added afterwards, one after the other','the second has the id of the first, so that their values mix',
 head2('C33')+X+'''
fn main() { run(&[(0, w(&["a", "b"]), 0), (0, Op::Sync, 0), (0, w(&["c"]), 0), (0, Op::Sync, 0), (0, drop("c"), 0), (0, Op::Sync, 0), (0, w(&["d"]), 0), (0, Op::Sync, 0), (0, drop("d"), 0), (0, drop("b"), 0), (0, Op::Sync, 0), (0, w(&["e"]), 0), (0, Op::Sync, 0), (0, drop("e"), 0), (0, w(&["f", "g"]), 0)], 1).unwrap();
    for k in 1..5usize { let mut ops = vec![(0, w(&["a", "b", "c"]), 0)]; ops.push((0, Op::Sync, 0)); for i in 0..k { ops.push((0, drop(["c", "b", "x0", "x1", "x2"][i]), 0)); ops.push((0, Op::Sync, 0)); ops.push((0, w(&[&format!("x{i}"), &format!("y{i}")]), 0)); ops.push((0, Op::Sync, 0)); } run(&ops, 1).unwrap(); } }
''')
S('schema_conflict_weak','C33',[('meta/src/store/storage.rs','if val.schema_version + 1 != schema.schema_version {','if val.schema_version > schema.schema_version {')],
 'two nodes that add a column to a table starting from the same schema','the second schema replaces the first: two columns have had one id, and one of them is gone',
 head2('C33')+X+'''
fn main() { run(&[(0, w(&["a"]), 0), (0, Op::Sync, 0), (1, Op::Sync, 0), (0, w(&["a", "b"]), 0), (1, w(&["a", "c"]), 0), (1, Op::Sync, 0), (1, w(&["a", "b", "c"]), 0)], 2).unwrap(); }
''')
S('schema_index_lost','C33',[(MS,'        self.columns_index.remove(col_name);\n        self.columns_index.insert(new_column.name.clone(), id);','        self.columns_index.insert(new_column.name.clone(), id);\n        self.columns_index.remove(col_name);')],
 'the encoding of a column changed, and a write to it afterwards','the column is not found by its name any more, and the write adds a second one of this name',
 head2('C33')+X+'''
fn main() { run(&[(0, w(&["a", "b"]), 0), (0, Op::Sync, 0), (0, enc("a"), 0), (0, Op::Sync, 0), (0, w(&["a"]), 0), (0, Op::Sync, 0), (0, w(&["a", "b"]), 0)], 1).unwrap(); }
''')
TW='query_server/query/src/extension/analyse/transform_time_window.rs'
S('window_too_few','C34',[(TW,'let overlapping_windows = (window_ns + slide_ns - 1) / slide_ns;','let overlapping_windows = (window_ns / slide_ns).max(1);')],
 'a window that is no multiple of its slide','rows are missing from the earliest of their windows',
 head2('C34')+'''
fn main() { for (w, s) in [(10, 6), (9, 2), (10, 5), (7, 7), (3, 8)] { let t: Vec<Option<i64>> = (-30..30).map(|k| Some(k * MS)).collect(); judge(&t, w * MS, s * MS, 0).unwrap(); judge(&t, w * MS, s * MS, 4 * MS).unwrap(); } }
''')
S('window_gap_rows','C34',[(TW,'    let filter = if window_ns % slide_ns == 0 {','    let filter = if overlapping_windows == 1 || window_ns % slide_ns == 0 {')],
 'a slide longer than the window, and a row between two windows','the row stands in the window that ended before it',
 head2('C34')+'''
fn main() { for (w, s) in [(10, 5), (7, 7), (3, 8), (2, 9)] { let t: Vec<Option<i64>> = (-30..30).map(|k| Some(k * MS)).collect(); judge(&t, w * MS, s * MS, 0).unwrap(); judge(&t, w * MS, s * MS, 4 * MS).unwrap(); } }
''')
S('window_column_start','C34',[(TW,'''    let i64_time = cast(ns_time, DataType::Int64);''','''    let i64_time = cast(if i == 0 { ns_time } else { minus(ns_time, lit(i)) }, DataType::Int64);''')],
 'a sliding window, and a row at the very start of a slide','the row skips a window and stands twice in none or one of its windows',
 head2('C34')+'''
fn main() { for (w, s) in [(10, 5), (12, 3), (7, 7)] { let t: Vec<Option<i64>> = (-30..30).map(|k| Some(k * MS)).collect(); judge(&t, w * MS, s * MS, 0).unwrap(); judge(&t, w * MS, s * MS, 4 * MS).unwrap(); } }
''')
LP='common/protocol_parser/src/line_protocol/parser.rs'
R='''
fn f(k: &str, v: &str) -> (String, String, FieldValue) { (k.into(), String::new(), FieldValue::Str(v.as_bytes().to_vec())) }
fn b(k: &str, v: bool) -> (String, String, FieldValue) { (k.into(), v.to_string(), FieldValue::Bool(v)) }
fn p(tags: &[(&str, &str)], fields: &[(String, String, FieldValue)], ts: Option<i64>) -> Option<P> { Some(P { table: "a table".into(), tags: tags.iter().map(|t| (t.0.to_string(), t.1.to_string())).collect(), fields: fields.to_vec(), ts, gaps: (0, 0, 0) }) }
'''
S('lp_flag_leak','C35',[(LP,'''                        key_idx.1 = index;
                        val_idx = (index + 1, 0, false);
                        status = ParseStatus::FieldValue;''','''                        key_idx.1 = index;
                        val_idx = (index + 1, 0, val_idx.2);
                        status = ParseStatus::FieldValue;''')],
 'a tag value with an escape, and an empty string as a field of its line','the parser panics, or takes characters out of a string',
 head2('C35')+R+'''
fn main() { for v in ["", "x", "y z"] { round(&[p(&[("t", "a,b")], &[f("f", v), b("g", true)], Some(5)), p(&[], &[f("f", v)], None)], true, "\\n").unwrap(); } }
''')
S('lp_backslashes','C35',[(LP,'''            if in_unescape && v2 == b'"' {''','''            if in_unescape {''')],
 'a string with two backslashes in a row','the batch is refused',
 head2('C35')+R+'''
fn main() { for v in ["", "C:\\\\", "\\\\\\\\host\\\\x", "a\\"b\\\\\\"", "\\n"] { round(&[p(&[], &[f("f", v)], Some(5)), p(&[], &[b("f", true)], None)], true, "\\n").unwrap(); } }
''')
S('lp_dup_field','C35',[('common/protocol_parser/src/lib.rs','''        self.fields.sort_by(|a, b| a.0.cmp(&b.0));
        self.tags.dedup_by(|a, b| a.0 == b.0);
        self.fields.dedup_by(|a, b| a.0 == b.0);''','''        self.fields.dedup_by(|a, b| a.0 == b.0);
        self.fields.sort_by(|a, b| a.0.cmp(&b.0));
        self.tags.dedup_by(|a, b| a.0 == b.0);''')],
 'a field written twice in a line, with another one in between','both stay, and the point has two values for one column',
 head2('C35')+R+'''
fn main() { round(&[p(&[], &[b("f", true), b("f", false)], Some(5))], true, "\\n").unwrap(); round(&[p(&[("t", "a")], &[b("f", true), b("g", true), b("f", false)], Some(5))], true, "\\n").unwrap(); }
''')
S('lp_open_string','C35',[(LP,'''            if inside_quotes {
                return Err(Error::UnexpectedEnd { pos: val_idx.0 });
            }
''','''            if inside_quotes && next_escape {
                return Err(Error::UnexpectedEnd { pos: val_idx.0 });
            }
''')],
 'a batch cut off just behind a quote inside of a string','a part of the string is stored as the whole',
 head2('C35')+'''
fn main() { for s in ["m f=\\"a", "m f=\\"a\\\\\\"", "m f=\\"\\\\\\"", "m f=1,g=\\"b, \\\\\\""] { if let Ok(g) = read(s, DT) { eprintln!("{s:?} is read as {g:?}"); std::process::exit(1); } } assert!(read("m f=\\"a\\"", DT).is_ok()); }
''')
