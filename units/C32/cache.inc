// ---- dropped: values are opaque, keys too; Arc is the value it holds ----
type ColumnId = u32; type Timestamp = i64; type SchemaVersion = u64; type TskvTableSchemaRef = Arc<TskvTableSchema>;
struct FieldVal { w: u64 } struct SeriesKey { w: u64 } struct TskvError {} type TskvResult<T> = Result<T, TskvError>;
impl FieldVal { #[verifier::external_body] fn clone(&self) -> (r: FieldVal) ensures r == *self { unimplemented!() } }
struct Arc<T> { inner: T }
impl Arc<TskvTableSchema> {
    fn new(t: TskvTableSchema) -> (r: Self) ensures r.inner == t { Arc { inner: t } }
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    fn as_ref(&self) -> (r: &TskvTableSchema) ensures *r == self.inner { &self.inner }
}
// ---- the table schema: which column of which id is in which place (contracts proved in schema.rs) ----
struct Ids { g: Ghost<Map<u32, usize>> }
impl Ids {
    spec fn at(self) -> Map<u32, usize> { self.g@ }
    #[verifier::external_body] fn get(&self, c: &u32) -> (r: Option<&usize>) ensures (r is Some) == self.at().dom().contains(*c), r is Some ==> *(r->0) == self.at()[*c] { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Ids) ensures r.at() == self.at() { unimplemented!() }
}
#[verifier::external_body] fn same_ids(a: &Ids, b: &Ids) -> (r: bool) ensures r == (a.at() == b.at()) { unimplemented!() }
enum ColumnType { Tag, Time(u8), Field(u8) }
struct TableColumn { id: ColumnId, name: u64, column_type: ColumnType }
impl TableColumn { #[verifier::external_body] fn clone(&self) -> (r: TableColumn) ensures r == *self { unimplemented!() } }
struct TskvTableSchema { schema_version: SchemaVersion, ids: Ids, names: Ghost<Map<u32, u64>> }
// the field columns in the order of their ids: place k holds the column at position k
spec fn places(f: Seq<TableColumn>, ids: Map<u32, usize>) -> bool {
    &&& forall|k: int| 0 <= k < f.len() ==> ids.dom().contains((#[trigger] f[k]).id) && ids[f[k].id] == k
    &&& forall|c: u32| #[trigger] ids.dom().contains(c) ==> ids[c] < f.len() && f[ids[c] as int].id == c
}
spec fn without(m: Map<u32, usize>, m1: Map<u32, usize>, c: u32) -> bool {
    &&& forall|d: u32| #[trigger] m1.dom().contains(d) <==> m.dom().contains(d) && d != c
    &&& forall|d: u32| #[trigger] m1.dom().contains(d) ==> m[d] != m[c] && m1[d] == (if m[d] < m[c] { m[d] as int } else { m[d] - 1 })
}
impl TskvTableSchema {
    spec fn at(self) -> Map<u32, usize> { self.ids.at() }
    fn fields_id(&self) -> (r: &Ids) ensures r.at() == self.at() { &self.ids }
    #[verifier::external_body] fn clone(&self) -> (r: TskvTableSchema) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn fields_orderby_id(&self) -> (r: Vec<TableColumn>) ensures places(r@, self.at()) { unimplemented!() }
    #[verifier::external_body] fn time_column(&self) -> TableColumn { unimplemented!() }
    #[verifier::external_body] fn column_name(&self, c: ColumnId) -> (r: Option<&u64>) ensures (r is Some) == self.names@.dom().contains(c), r is Some ==> *(r->0) == self.names@[c], self.at().dom().contains(c) ==> r is Some { unimplemented!() }
    #[verifier::external_body] fn drop_column(&mut self, name: &u64)
        ensures final(self).schema_version == old(self).schema_version, forall|c: u32| #![trigger old(self).names@.dom().contains(c)] old(self).names@.dom().contains(c) && old(self).names@[c] == *name && old(self).at().dom().contains(c) ==> without(old(self).at(), final(self).at(), c) { unimplemented!() }
}
// ---- rows ----
//@extract tskv/src/mem_cache/row_data.rs struct RowData
@end
impl RowData { #[verifier::external_body] fn clone(&self) -> (r: RowData) ensures r == *self { unimplemented!() } }
//@extract tskv/src/mem_cache/row_data.rs struct RowDataRef
@end
spec fn fld(r: RowData, k: int) -> Option<FieldVal> { if 0 <= k < r.fields@.len() { r.fields@[k] } else { None } }
spec fn srt(s: Seq<RowData>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).ts <= (#[trigger] s[j]).ts }
spec fn rhas(s: Seq<RowData>, t: i64) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ts == t }
// the first value at place k among the rows of time t, which stand with the newest first
spec fn gval(s: Seq<RowData>, k: int, t: i64) -> Option<FieldVal> decreases s.len() {
    if s.len() == 0 { None } else if s[0].ts == t && fld(s[0], k) is Some { fld(s[0], k) } else { gval(s.subrange(1, s.len() as int), k, t) }
}
spec fn over(a: Option<FieldVal>, b: Option<FieldVal>) -> Option<FieldVal> { if a is Some { a } else { b } }
spec fn ins(s: Seq<RowData>, s1: Seq<RowData>, r: RowData, p: int) -> bool { 0 <= p <= s.len() && s1 == s.insert(p, r) && (forall|i: int| 0 <= i < p ==> (#[trigger] s[i]).ts < r.ts) && (forall|i: int| p <= i < s.len() ==> r.ts <= (#[trigger] s[i]).ts) }
// stand-in for skiplist::OrderedSkipList ordered by time: a row goes before the rows that are not before it
struct OrderedSkipList { v: Vec<RowData> }
impl OrderedSkipList {
    fn new() -> (r: Self) ensures r.v@ == Seq::<RowData>::empty() { OrderedSkipList { v: Vec::new() } }
    fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
    fn clear(&mut self) ensures final(self).v@ == Seq::<RowData>::empty() { self.v = Vec::new(); }
    #[verifier::external_body] fn insert(&mut self, r: RowData) requires srt(old(self).v@) ensures exists|p: int| #[trigger] ins(old(self).v@, final(self).v@, r, p) { unimplemented!() }
    #[verifier::external_body] fn at(&self, i: usize) -> (r: &RowData) requires i < self.v.len() ensures *r == self.v@[i as int] { unimplemented!() }
    #[verifier::external_body] fn iter(&self) -> (r: Iter<'_>) ensures r.rem() == self.v@ { unimplemented!() }
    #[verifier::external_body] fn to_rows(&self) -> (r: Vec<RowData>) ensures r@ == self.v@ { unimplemented!() }
}
struct Iter<'a> { v: &'a Vec<RowData>, at: usize }
impl<'a> Iter<'a> {
    spec fn rem(self) -> Seq<RowData> { if self.at <= self.v@.len() { self.v@.subrange(self.at as int, self.v@.len() as int) } else { Seq::empty() } }
    #[verifier::external_body] fn next(&mut self) -> (r: Option<&'a RowData>) ensures (r is Some) == (old(self).rem().len() > 0), r is Some ==> *(r->0) == old(self).rem()[0] && final(self).rem() == old(self).rem().subrange(1, old(self).rem().len() as int), r is None ==> final(self).rem() == old(self).rem() { unimplemented!() }
}
//@extract tskv/src/mem_cache/row_data.rs struct OrderedRowsData
@subst /OrderedSkipList<RowData>/ => OrderedSkipList
@end
impl OrderedRowsData { spec fn at(self) -> Seq<RowData> { self.rows.v@ } }
// ---- groups: value of column c at time t, the newest group is the last ----
//@extract tskv/src/mem_cache/series_data.rs struct RowGroup
@end
spec fn cval(g: RowGroup, c: u32, t: i64) -> Option<FieldVal> { if g.schema.inner.at().dom().contains(c) { gval(g.rows.at(), g.schema.inner.at()[c] as int, t) } else { None } }
spec fn sval(g: Seq<RowGroup>, c: u32, t: i64) -> Option<FieldVal> decreases g.len() { if g.len() == 0 { None } else { over(cval(g.last(), c, t), sval(g.drop_last(), c, t)) } }
spec fn shas(g: Seq<RowGroup>, t: i64) -> bool { exists|j: int| 0 <= j < g.len() && rhas((#[trigger] g[j]).rows.at(), t) }
spec fn gok(g: Seq<RowGroup>) -> bool { forall|j: int| 0 <= j < g.len() ==> srt((#[trigger] g[j]).rows.at()) }
// stand-in for LinkedList<RowGroup>
struct Groups { v: Vec<RowGroup> }
impl Groups {
    fn new() -> (r: Self) ensures r.v@.len() == 0 { Groups { v: Vec::new() } }
    fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
    fn at(&self, i: usize) -> (r: &RowGroup) requires i < self.v.len() ensures *r == self.v@[i as int] { &self.v[i] }
    #[verifier::external_body] fn at_mut(&mut self, i: usize) -> (r: &mut RowGroup) requires i < old(self).v.len() ensures *r == old(self).v@[i as int], final(self).v@ == old(self).v@.update(i as int, *final(r)), final(self).v.len() == old(self).v.len() { unimplemented!() }
    fn push_back(&mut self, g: RowGroup) ensures final(self).v@ == old(self).v@.push(g) { self.v.push(g); }
}
//@extract tskv/src/mem_cache/series_data.rs struct SeriesData
@subst /SeriesId/ => u32
@subst /LinkedList<RowGroup>/ => Groups
@end
#[derive(Clone, Copy)]
struct TimeRange { min_ts: i64, max_ts: i64 }
spec fn mem(r: TimeRange, t: i64) -> bool { r.min_ts <= t <= r.max_ts }
impl TimeRange { #[verifier::external_body] fn merge(&mut self, o: &TimeRange) ensures forall|t: i64| mem(*old(self), t) || mem(*o, t) ==> #[trigger] mem(*final(self), t) { unimplemented!() } }
struct TimeRanges { g: Ghost<Seq<TimeRange>> }
impl TimeRanges {
    spec fn has(&self, t: i64) -> bool { exists|i: int| 0 <= i < self.g@.len() && mem(#[trigger] self.g@[i], t) }
    #[verifier::external_body] fn time_ranges(&self) -> (r: Vec<TimeRange>) ensures r@ == self.g@ { unimplemented!() }
    #[verifier::external_body] fn contains(&self, t: i64) -> (r: bool) ensures r == self.has(t) { unimplemented!() }
}
// every row of the series is inside its stated time range
spec fn sr(s: SeriesData) -> bool { forall|t: i64| #[trigger] shas(s.groups.v@, t) ==> mem(s.range, t) }
spec fn gr(g: RowGroup) -> bool { forall|t: i64| #[trigger] rhas(g.rows.at(), t) ==> mem(g.range, t) }
spec fn sok(s: SeriesData) -> bool { gok(s.groups.v@) && sr(s) }
// ---- lemmas ----
proof fn lemma_sub(s: Seq<RowData>) requires srt(s), s.len() > 0 ensures srt(s.subrange(1, s.len() as int)) {}
proof fn lemma_none(s: Seq<RowData>, k: int, t: i64) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ts != t ensures gval(s, k, t) is None decreases s.len() { if s.len() > 0 { let u = s.subrange(1, s.len() as int); assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).ts != t by { assert(u[i] == s[i + 1]); } lemma_none(u, k, t); } }
proof fn lemma_ins_srt(s: Seq<RowData>, s1: Seq<RowData>, r: RowData, p: int) requires srt(s), ins(s, s1, r, p) ensures srt(s1) {
    assert forall|i: int, j: int| 0 <= i <= j < s1.len() implies (#[trigger] s1[i]).ts <= (#[trigger] s1[j]).ts by {
        let a = if i < p { i } else { i - 1 }; let b = if j < p { j } else { j - 1 };
        assert(s1[i] == (if i < p { s[i] } else if i == p { r } else { s[i - 1] })); assert(s1[j] == (if j < p { s[j] } else if j == p { r } else { s[j - 1] }));
        if i != p && j != p { assert(0 <= a <= b < s.len()); assert(s[a].ts <= s[b].ts); }
    }
}
proof fn lemma_ins_has(s: Seq<RowData>, s1: Seq<RowData>, r: RowData, p: int, t: i64) requires ins(s, s1, r, p) ensures rhas(s1, t) <==> rhas(s, t) || r.ts == t {
    if rhas(s, t) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ts == t; let j = if i < p { i } else { i + 1 }; assert(s1[j] == s[i]); }
    if r.ts == t { assert(s1[p] == r); }
    if rhas(s1, t) { let j = choose|j: int| 0 <= j < s1.len() && (#[trigger] s1[j]).ts == t; if j < p { assert(s[j] == s1[j]); } else if j > p { assert(s[j - 1] == s1[j]); } else { assert(s1[p] == r); } }
}
// a row inserted hides what is there at its time
proof fn lemma_ins_val(s: Seq<RowData>, s1: Seq<RowData>, r: RowData, p: int, k: int, t: i64) requires srt(s), ins(s, s1, r, p)
    ensures gval(s1, k, t) == (if r.ts == t { over(fld(r, k), gval(s, k, t)) } else { gval(s, k, t) }) decreases s.len() {
    assert(s1[p] == r);
    if p == 0 { assert(s1.subrange(1, s1.len() as int) =~= s); } else {
        let u = s.subrange(1, s.len() as int); let u1 = s1.subrange(1, s1.len() as int); assert(s1[0] == s[0]); assert(u1 =~= u.insert(p - 1, r));
        assert forall|i: int| 0 <= i < p - 1 implies (#[trigger] u[i]).ts < r.ts by { assert(u[i] == s[i + 1]); }
        assert forall|i: int| p - 1 <= i < u.len() implies r.ts <= (#[trigger] u[i]).ts by { assert(u[i] == s[i + 1]); }
        lemma_sub(s); lemma_ins_val(u, u1, r, p - 1, k, t);
    }
}
// rows before the time asked for do not matter
proof fn lemma_skip(s: Seq<RowData>, n: int, k: int, t: i64) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).ts != t ensures gval(s.subrange(n, s.len() as int), k, t) == gval(s, k, t) decreases n {
    if n == 0 { assert(s.subrange(0, s.len() as int) =~= s); } else { let u = s.subrange(1, s.len() as int); assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] u[i]).ts != t by { assert(u[i] == s[i + 1]); } lemma_skip(u, n - 1, k, t); assert(u.subrange(n - 1, u.len() as int) =~= s.subrange(n, s.len() as int)); }
}
proof fn lemma_sval_push(g: Seq<RowGroup>, x: RowGroup, c: u32, t: i64) ensures sval(g.push(x), c, t) == over(cval(x, c, t), sval(g, c, t)) { assert(g.push(x).drop_last() =~= g); }
// two stacks of groups that agree group by group
proof fn lemma_sval_each(g: Seq<RowGroup>, h: Seq<RowGroup>, c: u32, t: i64) requires g.len() == h.len(), forall|j: int| 0 <= j < g.len() ==> #[trigger] cval(g[j], c, t) == cval(h[j], c, t) ensures sval(g, c, t) == sval(h, c, t) decreases g.len() {
    if g.len() > 0 { let a = g.drop_last(); let b = h.drop_last(); assert forall|j: int| 0 <= j < a.len() implies #[trigger] cval(a[j], c, t) == cval(b[j], c, t) by { assert(a[j] == g[j] && b[j] == h[j]); assert(cval(g[j], c, t) == cval(h[j], c, t)); } lemma_sval_each(a, b, c, t); assert(cval(g[g.len() - 1], c, t) == cval(h[h.len() - 1], c, t)); }
}
proof fn lemma_sval_none(g: Seq<RowGroup>, c: u32, t: i64) requires forall|j: int| 0 <= j < g.len() ==> #[trigger] cval(g[j], c, t) is None ensures sval(g, c, t) is None decreases g.len() {
    if g.len() > 0 { let a = g.drop_last(); assert forall|j: int| 0 <= j < a.len() implies #[trigger] cval(a[j], c, t) is None by { assert(a[j] == g[j]); assert(cval(g[j], c, t) is None); } lemma_sval_none(a, c, t); assert(cval(g[g.len() - 1], c, t) is None); }
}
