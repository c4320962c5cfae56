// ---- dropped: names are opaque, HashMap is the map it holds ----
type ColumnId = u32;
#[derive(Clone, Copy, PartialEq, Eq)] struct Name { w: u64 }
enum ColumnType { Tag, Time(u8), Field(u8) }
impl ColumnType { fn is_field(&self) -> (r: bool) ensures r == (*self is Field) { matches!(self, ColumnType::Field(_)) } }
struct TableColumn { id: ColumnId, name: Name, column_type: ColumnType, encoding: u8 }
impl TableColumn { #[verifier::external_body] fn clone(&self) -> (r: TableColumn) ensures r == *self { unimplemented!() } }
struct Ids { g: Ghost<Map<u32, usize>> }
impl Ids {
    spec fn at(self) -> Map<u32, usize> { self.g@ }
    #[verifier::external_body] fn new() -> (r: Ids) ensures r.at() == Map::<u32, usize>::empty() { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: u32, v: usize) ensures final(self).at() == old(self).at().insert(k, v) { unimplemented!() }
}
struct Names { g: Ghost<Map<Name, usize>> }
impl Names {
    spec fn at(self) -> Map<Name, usize> { self.g@ }
    #[verifier::external_body] fn new() -> (r: Names) ensures r.at() == Map::<Name, usize>::empty() { unimplemented!() }
    #[verifier::external_body] fn get(&self, k: &Name) -> (r: Option<&usize>) ensures (r is Some) == self.at().dom().contains(*k), r is Some ==> *(r->0) == self.at()[*k] { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: Name, v: usize) ensures final(self).at() == old(self).at().insert(k, v) { unimplemented!() }
    #[verifier::external_body] fn remove(&mut self, k: &Name) ensures final(self).at() == old(self).at().remove(*k) { unimplemented!() }
    #[verifier::external_body] fn contains_key(&self, k: &Name) -> (r: bool) ensures r == self.at().dom().contains(*k) { unimplemented!() }
}
//@extract common/models/src/schema/tskv_table_schema.rs struct TskvTableSchema
@subst /String,/ => Name,
@subst /SchemaVersion/ => u64
@subst /HashMap<Name, usize>/ => Names
@subst /HashMap<String, usize>/ => Names
@subst /HashMap<ColumnId, usize>/ => Ids
@end
// ---- what a schema is: names and ids each stand for one column, the name index leads to it, fields stand in the order of their ids ----
spec fn fid(c: TableColumn) -> bool { c.column_type is Field }
spec fn uniq(s: Seq<TableColumn>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).id != (#[trigger] s[j]).id && s[i].name != s[j].name }
spec fn index(s: Seq<TableColumn>, m: Map<Name, usize>) -> bool { &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).name) && m[s[i].name] == i &&& forall|n: Name| #[trigger] m.dom().contains(n) ==> m[n] < s.len() && s[m[n] as int].name == n }
spec fn sorted(v: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] < #[trigger] v[j] }
// v is the ids of the fields of s, each once
spec fn ids_of(s: Seq<TableColumn>, v: Seq<u32>) -> bool { &&& forall|k: int| 0 <= k < v.len() ==> fieldid(s, #[trigger] v[k]) &&& forall|c: u32| #[trigger] fieldid(s, c) ==> v.contains(c) }
spec fn fieldid(s: Seq<TableColumn>, c: u32) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == c && fid(s[i]) }
spec fn listed(v: Seq<u32>, m: Map<u32, usize>) -> bool { &&& forall|k: int| 0 <= k < v.len() ==> m.dom().contains(#[trigger] v[k]) && m[v[k]] == k &&& forall|c: u32| #[trigger] m.dom().contains(c) ==> m[c] < v.len() && v[m[c] as int] == c }
spec fn fields_in(s: Seq<TableColumn>, m: Map<u32, usize>) -> bool { exists|v: Seq<u32>| #[trigger] sorted(v) && ids_of(s, v) && listed(v, m) }
spec fn ok(t: TskvTableSchema) -> bool { uniq(t.columns@) && index(t.columns@, t.columns_index.at()) && fields_in(t.columns@, t.fields_ids.at()) && t.columns@.len() < 0x1_0000_0000 }
// the contracts unit C32 takes
spec fn places(f: Seq<TableColumn>, ids: Map<u32, usize>) -> bool {
    &&& forall|k: int| 0 <= k < f.len() ==> ids.dom().contains((#[trigger] f[k]).id) && ids[f[k].id] == k
    &&& forall|c: u32| #[trigger] ids.dom().contains(c) ==> ids[c] < f.len() && f[ids[c] as int].id == c
}
spec fn without(m: Map<u32, usize>, m1: Map<u32, usize>, c: u32) -> bool {
    &&& forall|d: u32| #[trigger] m1.dom().contains(d) <==> m.dom().contains(d) && d != c
    &&& forall|d: u32| #[trigger] m1.dom().contains(d) ==> m[d] != m[c] && m1[d] == (if m[d] < m[c] { m[d] as int } else { m[d] - 1 })
}
#[verifier::external_body] fn sort_ids(v: &mut Vec<u32>) requires uids(old(v)@) ensures sorted(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset(), forall|c: u32| old(v)@.contains(c) <==> #[trigger] final(v)@.contains(c) { unimplemented!() }
#[verifier::external_body] fn sort_columns(v: &mut Vec<TableColumn>) requires uniq(old(v)@) ensures forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).id < (#[trigger] final(v)@[j]).id, forall|c: TableColumn| old(v)@.contains(c) <==> #[trigger] final(v)@.contains(c) { unimplemented!() }
spec fn uids(v: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] != #[trigger] v[j] }
// ids taken so far, in the order of the columns
spec fn upto(s: Seq<TableColumn>, v: Seq<u32>, n: int) -> bool { &&& uids(v) &&& forall|k: int| 0 <= k < v.len() ==> fieldid(s.subrange(0, n), #[trigger] v[k]) &&& forall|i: int| 0 <= i < n && fid(#[trigger] s[i]) ==> v.contains(s[i].id) }
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::build_fields_ids
@header impl TskvTableSchema
@subst /columns: &\[TableColumn\]/ => columns: &Vec<TableColumn>
@subst /HashMap<ColumnId, usize>/ => Ids
@subst /let mut ans = vec!\[\];/ => let mut ans: Vec<u32> = Vec::new();
@subst /for i in columns\.iter\(\) \{/ => let mut ci: usize = 0; while ci < columns.len() { let i = &columns[ci]; ci = ci + 1; let ghost a0 = ans@;
@subst /ans\.sort(_unstable)?\(\);/ => let ghost a1 = ans@; sort_ids(&mut ans); proof { lemma_sorted(columns@, a1, ans@); }
@subst /HashMap::new\(\)/ => Ids::new()
@subst /for \(i, id\) in ans\.iter\(\)\.enumerate\(\) \{/ => let mut ai: usize = 0; while ai < ans.len() { let i = ai; ai = ai + 1; let id = &ans[i];
@ret r
@spec
    requires uniq(columns@)
    ensures fields_in(columns@, r.at())
@loop 0
    invariant ci <= columns@.len(), uniq(columns@), upto(columns@, ans@, ci as int)
    decreases columns@.len() - ci
@loop 1
    invariant ai <= ans@.len(), sorted(ans@), ids_of(columns@, ans@), listed(ans@.subrange(0, ai as int), map.at())
    decreases ans@.len() - ai
@at loop-end 0
    proof { lemma_upto(columns@, a0, ans@, ci - 1); }
@at loop-end 1
    proof { let v = ans@.subrange(0, ai as int); let v0 = ans@.subrange(0, i as int); assert forall|k: int| 0 <= k < v.len() implies map.at().dom().contains(#[trigger] v[k]) && map.at()[v[k]] == k by { if k < i { assert(v[k] == v0[k]); assert(v[k] != ans@[i as int]); } } assert forall|c: u32| #[trigger] map.at().dom().contains(c) implies map.at()[c] < v.len() && v[map.at()[c] as int] == c by { if c != ans@[i as int] { assert(v0[map.at()[c] as int] == c); } } }
@at tail
    proof { assert(ans@.subrange(0, ans@.len() as int) =~= ans@); assert(fields_in(columns@, map.at())); }
@end
proof fn lemma_upto(s: Seq<TableColumn>, a0: Seq<u32>, a1: Seq<u32>, n: int) requires uniq(s), 0 <= n < s.len(), upto(s, a0, n), a1 == (if fid(s[n]) { a0.push(s[n].id) } else { a0 }) ensures upto(s, a1, n + 1) {
    let h = s.subrange(0, n); let h1 = s.subrange(0, n + 1);
    assert forall|k: int| 0 <= k < a1.len() implies fieldid(h1, #[trigger] a1[k]) by { if k < a0.len() { assert(fieldid(h, a0[k])); let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).id == a0[k] && fid(h[i]); assert(h1[i] == h[i]); } else { assert(h1[n] == s[n]); } }
    assert forall|i: int, j: int| 0 <= i < j < a1.len() implies #[trigger] a1[i] != #[trigger] a1[j] by { assert(fieldid(h, a0[i])); if j == a0.len() { let x = choose|x: int| 0 <= x < h.len() && (#[trigger] h[x]).id == a0[i] && fid(h[x]); assert(h[x] == s[x]); assert(s[x].id != s[n].id); } else { assert(a0[i] != a0[j]); } }
    assert forall|i: int| 0 <= i < n + 1 && fid(#[trigger] s[i]) implies a1.contains(s[i].id) by { if i < n { assert(a0.contains(s[i].id)); let k = choose|k: int| 0 <= k < a0.len() && a0[k] == s[i].id; assert(a1[k] == s[i].id); } else { assert(a1[a0.len() as int] == s[n].id); } }
}
proof fn lemma_sorted(s: Seq<TableColumn>, a: Seq<u32>, b: Seq<u32>) requires upto(s, a, s.len() as int), sorted(b), forall|c: u32| a.contains(c) <==> #[trigger] b.contains(c) ensures ids_of(s, b) {
    assert(s.subrange(0, s.len() as int) =~= s);
    assert forall|k: int| 0 <= k < b.len() implies fieldid(s, #[trigger] b[k]) by { assert(b.contains(b[k])); let i = choose|i: int| 0 <= i < a.len() && a[i] == b[k]; assert(fieldid(s.subrange(0, s.len() as int), a[i])); }
    assert forall|c: u32| #[trigger] fieldid(s, c) implies b.contains(c) by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == c && fid(s[i]); assert(a.contains(s[i].id)); }
}
// two ascending lists of the same ids are one
proof fn lemma_same(a: Seq<u32>, b: Seq<u32>, n: int) requires sorted(a), sorted(b), 0 <= n <= a.len(), n <= b.len(), forall|c: u32| a.contains(c) <==> #[trigger] b.contains(c) ensures forall|k: int| 0 <= k < n ==> a[k] == b[k] decreases n {
    if n > 0 { lemma_same(a, b, n - 1); let k = n - 1;
        assert(b.contains(a[k])) by { assert(a.contains(a[k])); } let j = choose|j: int| 0 <= j < b.len() && b[j] == a[k]; if j < k { assert(a[j] == b[j]); assert(a[j] < a[k]); }
        assert(a.contains(b[k])) by { assert(b.contains(b[k])); } let i = choose|i: int| 0 <= i < a.len() && a[i] == b[k]; if i < k { assert(a[i] == b[i]); assert(b[i] < b[k]); }
        if a[k] < b[k] { assert(j < k) by { if j >= k { if j > k { assert(b[k] < b[j]); } } } } if b[k] < a[k] { assert(i < k) by { if i > k { assert(a[k] < a[i]); } } }
    }
}
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::fields_orderby_id
@header impl TskvTableSchema
@subst /self\s*\.columns\s*\.iter\(\)\s*\.filter\(\|column\| ([^\n]*)\)\s*\.cloned\(\)\s*\.collect\(\);/ => Vec::new(); let mut ci: usize = 0; while ci < self.columns.len() { let column = &self.columns[ci]; ci = ci + 1; let ghost c0 = columns@; if \1 { columns.push(column.clone()); } proof { lemma_picked(self.columns@, c0, columns@, ci - 1); } }
@subst /columns\.sort(_unstable)?_by_key\(\|k\| k\.id\);/ => let ghost c1 = columns@; sort_columns(&mut columns); proof { lemma_places(self.columns@, c1, columns@, self.fields_ids.at()); }
@ret r
@spec
    requires ok(*self)
    ensures places(r@, self.fields_ids.at()), forall|c: TableColumn| #[trigger] r@.contains(c) <==> self.columns@.contains(c) && fid(c)
@loop 0
    invariant ci <= self.columns@.len(), uniq(self.columns@), picked(self.columns@, columns@, ci as int)
    decreases self.columns@.len() - ci
@end
spec fn picked(s: Seq<TableColumn>, v: Seq<TableColumn>, n: int) -> bool { &&& uniq(v) &&& forall|c: TableColumn| #[trigger] v.contains(c) <==> s.subrange(0, n).contains(c) && fid(c) }
proof fn lemma_picked(s: Seq<TableColumn>, v0: Seq<TableColumn>, v1: Seq<TableColumn>, n: int) requires uniq(s), 0 <= n < s.len(), picked(s, v0, n), v1 == (if fid(s[n]) { v0.push(s[n]) } else { v0 }) ensures picked(s, v1, n + 1) {
    let h = s.subrange(0, n); let h1 = s.subrange(0, n + 1);
    assert forall|c: TableColumn| h1.contains(c) <==> h.contains(c) || c == s[n] by { if h.contains(c) { let i = choose|i: int| 0 <= i < h.len() && h[i] == c; assert(h1[i] == c); } if h1.contains(c) { let i = choose|i: int| 0 <= i < h1.len() && h1[i] == c; if i < n { assert(h[i] == c); } } if c == s[n] { assert(h1[n] == c); } }
    if fid(s[n]) {
        assert forall|c: TableColumn| #[trigger] v1.contains(c) <==> v0.contains(c) || c == s[n] by { if v0.contains(c) { let i = choose|i: int| 0 <= i < v0.len() && v0[i] == c; assert(v1[i] == c); } if v1.contains(c) { let i = choose|i: int| 0 <= i < v1.len() && v1[i] == c; if i < v0.len() { assert(v0[i] == c); } } if c == s[n] { assert(v1[v0.len() as int] == c); } }
        assert forall|i: int, j: int| 0 <= i < j < v1.len() implies (#[trigger] v1[i]).id != (#[trigger] v1[j]).id && v1[i].name != v1[j].name by { assert(v1[i] == v0[i]); if j < v0.len() { assert(v1[j] == v0[j]); } else { assert(v0.contains(v0[i])); let x = choose|x: int| 0 <= x < h.len() && h[x] == v0[i]; assert(h[x] == s[x]); assert(s[x].id != s[n].id); } }
    }
}
proof fn lemma_places(s: Seq<TableColumn>, a: Seq<TableColumn>, f: Seq<TableColumn>, m: Map<u32, usize>) requires uniq(s), picked(s, a, s.len() as int), fields_in(s, m), forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).id < (#[trigger] f[j]).id, forall|c: TableColumn| a.contains(c) <==> #[trigger] f.contains(c) ensures places(f, m), forall|c: TableColumn| #[trigger] f.contains(c) <==> s.contains(c) && fid(c) {
    assert(s.subrange(0, s.len() as int) =~= s);
    let v = choose|v: Seq<u32>| #[trigger] sorted(v) && ids_of(s, v) && listed(v, m); let w = Seq::new(f.len(), |i: int| f[i].id);
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies #[trigger] w[i] < #[trigger] w[j] by { assert(f[i].id < f[j].id); }
    assert forall|c: u32| w.contains(c) <==> #[trigger] v.contains(c) by {
        if w.contains(c) { let i = choose|i: int| 0 <= i < w.len() && w[i] == c; assert(f.contains(f[i])); assert(s.contains(f[i])); let x = choose|x: int| 0 <= x < s.len() && s[x] == f[i]; assert(s[x].id == c && fid(s[x])); assert(fieldid(s, c)); }
        if v.contains(c) { let k = choose|k: int| 0 <= k < v.len() && v[k] == c; assert(fieldid(s, v[k])); let x = choose|x: int| 0 <= x < s.len() && (#[trigger] s[x]).id == c && fid(s[x]); assert(s.contains(s[x])); assert(f.contains(s[x])); let i = choose|i: int| 0 <= i < f.len() && f[i] == s[x]; assert(w[i] == c); }
    }
    let n = if w.len() < v.len() { w.len() } else { v.len() }; lemma_same(w, v, n as int);
    if w.len() < v.len() { assert(w.contains(v[n as int])) by { assert(v.contains(v[n as int])); } let i = choose|i: int| 0 <= i < w.len() && w[i] == v[n as int]; assert(v[i] < v[n as int]); }
    if v.len() < w.len() { assert(v.contains(w[n as int])) by { assert(w.contains(w[n as int])); } let i = choose|i: int| 0 <= i < v.len() && v[i] == w[n as int]; assert(w[i] < w[n as int]); }
    assert forall|k: int| 0 <= k < f.len() implies m.dom().contains((#[trigger] f[k]).id) && m[f[k].id] == k by { assert(w[k] == v[k]); }
    assert forall|c: u32| #[trigger] m.dom().contains(c) implies m[c] < f.len() && f[m[c] as int].id == c by { assert(w[m[c] as int] == v[m[c] as int]); }
}

spec fn named(s: Seq<TableColumn>, n: Name, i: int) -> bool { 0 <= i < s.len() && s[i].name == n }
proof fn lemma_index(s: Seq<TableColumn>, m: Map<Name, usize>, n: Name, i: int) requires uniq(s), index(s, m), named(s, n, i) ensures m.dom().contains(n), m[n] == i { assert(s[i].name == n); }
// the name index is built anew from the columns
spec fn built(s: Seq<TableColumn>, m: Map<Name, usize>, n: int) -> bool { &&& forall|i: int| 0 <= i < n ==> m.dom().contains((#[trigger] s[i]).name) && m[s[i].name] == i &&& forall|x: Name| #[trigger] m.dom().contains(x) ==> m[x] < n && s[m[x] as int].name == x }
proof fn lemma_built(s: Seq<TableColumn>, m0: Map<Name, usize>, n: usize) requires uniq(s), 0 <= n < s.len(), built(s, m0, n as int) ensures built(s, m0.insert(s[n as int].name, n), n + 1) { let m = m0.insert(s[n as int].name, n); assert forall|i: int| 0 <= i < n + 1 implies m.dom().contains((#[trigger] s[i]).name) && m[s[i].name] == i by { if i < n { assert(s[i].name != s[n as int].name); } } }
proof fn lemma_dropped(s: Seq<TableColumn>, i: int) requires uniq(s), 0 <= i < s.len() ensures uniq(s.remove(i)), forall|c: TableColumn| #[trigger] s.remove(i).contains(c) <==> s.contains(c) && c != s[i] {
    let u = s.remove(i);
    assert forall|a: int, b: int| 0 <= a < b < u.len() implies (#[trigger] u[a]).id != (#[trigger] u[b]).id && u[a].name != u[b].name by { let x = if a < i { a } else { a + 1 }; let y = if b < i { b } else { b + 1 }; assert(u[a] == s[x] && u[b] == s[y]); assert(s[x].id != s[y].id && s[x].name != s[y].name); }
    assert forall|c: TableColumn| #[trigger] u.contains(c) <==> s.contains(c) && c != s[i] by {
        if u.contains(c) { let a = choose|a: int| 0 <= a < u.len() && u[a] == c; let x = if a < i { a } else { a + 1 }; assert(s[x] == c); if x < i { assert(s[x].id != s[i].id); } else { assert(s[i].id != s[x].id); } }
        if s.contains(c) && c != s[i] { let x = choose|x: int| 0 <= x < s.len() && s[x] == c; let a = if x < i { x } else { x - 1 }; assert(u[a] == c); }
    }
}
proof fn lemma_cut(v: Seq<u32>, k: int) requires sorted(v), 0 <= k < v.len() ensures sorted(v.remove(k)), forall|d: u32| #[trigger] v.remove(k).contains(d) <==> v.contains(d) && d != v[k] {
    let w = v.remove(k);
    assert forall|a: int, b: int| 0 <= a < b < w.len() implies #[trigger] w[a] < #[trigger] w[b] by { let x = if a < k { a } else { a + 1 }; let y = if b < k { b } else { b + 1 }; assert(v[x] < v[y]); }
    assert forall|d: u32| #[trigger] w.contains(d) <==> v.contains(d) && d != v[k] by {
        if w.contains(d) { let a = choose|a: int| 0 <= a < w.len() && w[a] == d; let x = if a < k { a } else { a + 1 }; assert(v[x] == d); if x < k { assert(v[x] < v[k]); } else { assert(v[k] < v[x]); } }
        if v.contains(d) && d != v[k] { let x = choose|x: int| 0 <= x < v.len() && v[x] == d; let a = if x < k { x } else { x - 1 }; assert(w[a] == d); }
    }
}
proof fn lemma_fieldid(s: Seq<TableColumn>, i: int, d: u32) requires uniq(s), 0 <= i < s.len() ensures fieldid(s.remove(i), d) <==> fieldid(s, d) && d != s[i].id {
    let u = s.remove(i);
    if fieldid(u, d) { let a = choose|a: int| 0 <= a < u.len() && (#[trigger] u[a]).id == d && fid(u[a]); let x = if a < i { a } else { a + 1 }; assert(s[x] == u[a]); if x < i { assert(s[x].id != s[i].id); } else { assert(s[i].id != s[x].id); } }
    if fieldid(s, d) && d != s[i].id { let x = choose|x: int| 0 <= x < s.len() && (#[trigger] s[x]).id == d && fid(s[x]); let a = if x < i { x } else { x - 1 }; assert(u[a] == s[x]); }
}
// without one field the fields after it move up by one place
proof fn lemma_without(s: Seq<TableColumn>, i: int, m: Map<u32, usize>, m1: Map<u32, usize>) requires uniq(s), 0 <= i < s.len(), fid(s[i]), fields_in(s, m), fields_in(s.remove(i), m1) ensures without(m, m1, s[i].id) {
    let u = s.remove(i); let c = s[i].id; let v = choose|v: Seq<u32>| #[trigger] sorted(v) && ids_of(s, v) && listed(v, m); let v1 = choose|v: Seq<u32>| #[trigger] sorted(v) && ids_of(u, v) && listed(v, m1);
    assert(fieldid(s, c)); assert(v.contains(c)); let k = choose|k: int| 0 <= k < v.len() && v[k] == c; let w = v.remove(k); assert(m[v[k]] == k); lemma_cut(v, k);
    lemma_ids(s, v); lemma_ids(u, v1);
    assert forall|d: u32| w.contains(d) <==> #[trigger] v1.contains(d) by { lemma_fieldid(s, i, d); assert(v.contains(d) <==> fieldid(s, d)); assert(v1.contains(d) <==> fieldid(u, d)); }
    lemma_equal(w, v1); lemma_moved(v, k, m, m1);
}
proof fn lemma_ids(s: Seq<TableColumn>, v: Seq<u32>) requires ids_of(s, v) ensures forall|d: u32| #[trigger] v.contains(d) <==> fieldid(s, d) { assert forall|d: u32| #[trigger] v.contains(d) <==> fieldid(s, d) by { if v.contains(d) { let k = choose|k: int| 0 <= k < v.len() && v[k] == d; assert(fieldid(s, v[k])); } } }
proof fn lemma_moved(v: Seq<u32>, k: int, m: Map<u32, usize>, m1: Map<u32, usize>) requires sorted(v), 0 <= k < v.len(), listed(v, m), listed(v.remove(k), m1) ensures without(m, m1, v[k]) {
    let w = v.remove(k); let c = v[k];
    assert(m[v[k]] == k);
    assert forall|d: u32| #[trigger] m1.dom().contains(d) implies m.dom().contains(d) && d != c && m[d] != m[c] && m1[d] == (if m[d] < m[c] { m[d] as int } else { m[d] - 1 }) by { let a = m1[d] as int; assert(w[a] == d); let x = if a < k { a } else { a + 1 }; assert(v[x] == d); assert(m.dom().contains(v[x]) && m[v[x]] == x); }
    assert forall|d: u32| m.dom().contains(d) && d != c implies #[trigger] m1.dom().contains(d) by { let x = m[d] as int; assert(v[x] == d); let a = if x < k { x } else { x - 1 }; assert(w[a] == d); assert(m1.dom().contains(w[a])); }
}
proof fn lemma_equal(w: Seq<u32>, v: Seq<u32>) requires sorted(w), sorted(v), forall|c: u32| w.contains(c) <==> #[trigger] v.contains(c) ensures w == v {
    let n = if w.len() < v.len() { w.len() } else { v.len() }; lemma_same(w, v, n as int);
    if w.len() < v.len() { assert(w.contains(v[n as int])) by { assert(v.contains(v[n as int])); } let i = choose|i: int| 0 <= i < w.len() && w[i] == v[n as int]; assert(v[i] < v[n as int]); }
    if v.len() < w.len() { assert(v.contains(w[n as int])) by { assert(w.contains(w[n as int])); } let i = choose|i: int| 0 <= i < v.len() && v[i] == w[n as int]; assert(w[i] < w[n as int]); }
    assert(w =~= v);
}
spec fn same_but_columns(a: TskvTableSchema, b: TskvTableSchema) -> bool { a.schema_version == b.schema_version && a.tenant == b.tenant && a.db == b.db && a.name == b.name }
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::drop_column
@header impl TskvTableSchema
@subst /col_name: &str/ => col_name: &Name
@subst /let columns_index = self\s*\.columns\s*\.iter\(\)\s*\.enumerate\(\)\s*\.map\(\|\(idx, e\)\| \(e\.name\.clone\(\), idx\)\)\s*\.collect\(\);/ => let mut columns_index = Names::new(); let mut xi: usize = 0; while xi < self.columns.len() { let idx = xi; let e = &self.columns[xi]; xi = xi + 1; let ghost m0 = columns_index.at(); columns_index.insert(e.name, idx); proof { lemma_built(self.columns@, m0, idx); } }
@spec
    requires ok(*old(self))
    ensures ok(*final(self)), same_but_columns(*old(self), *final(self)), final(self).next_column_id == old(self).next_column_id,
        old(self).columns_index.at().dom().contains(*col_name) ==> final(self).columns@ == old(self).columns@.remove(old(self).columns_index.at()[*col_name] as int),
        !old(self).columns_index.at().dom().contains(*col_name) ==> final(self).columns@ == old(self).columns@,
        forall|c: u32| #[trigger] fieldid(old(self).columns@, c) && namedid(old(self).columns@, *col_name, c) ==> without(old(self).fields_ids.at(), final(self).fields_ids.at(), c)
@loop 0
    invariant xi <= self.columns@.len(), uniq(self.columns@), built(self.columns@, columns_index.at(), xi as int)
    decreases self.columns@.len() - xi
@at start
    let ghost s0 = self.columns@; let ghost at0 = self.columns_index.at();
    proof { if at0.dom().contains(*col_name) { lemma_dropped(s0, at0[*col_name] as int); } }
@at before-loop 0
    proof { assert(uniq(self.columns@)); }
@at tail
    proof {
        assert forall|c: u32| #[trigger] fieldid(s0, c) && namedid(s0, *col_name, c) implies without(old(self).fields_ids.at(), self.fields_ids.at(), c) by {
            let i = choose|i: int| named(s0, *col_name, i) && s0[i].id == c; lemma_index(s0, at0, *col_name, i); let j = choose|j: int| 0 <= j < s0.len() && (#[trigger] s0[j]).id == c && fid(s0[j]);
            if i < j { assert(s0[i].id != s0[j].id); } if j < i { assert(s0[j].id != s0[i].id); } lemma_without(s0, i, old(self).fields_ids.at(), self.fields_ids.at());
        }
    }
@end
spec fn namedid(s: Seq<TableColumn>, n: Name, c: u32) -> bool { exists|i: int| #[trigger] named(s, n, i) && s[i].id == c }
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::column_name
@header impl TskvTableSchema
@subst /Option<&str>/ => Option<&Name>
@subst /for column in self\.columns\.iter\(\) \{/ => let mut ci: usize = 0; while ci < self.columns.len() { let column = &self.columns[ci]; ci = ci + 1;
@ret r
@spec
    requires ok(*self)
    ensures r is Some ==> namedid(self.columns@, *(r->0), id), r is None ==> forall|i: int| 0 <= i < self.columns@.len() ==> (#[trigger] self.columns@[i]).id != id
@loop 0
    invariant ci <= self.columns@.len(), forall|i: int| 0 <= i < ci ==> (#[trigger] self.columns@[i]).id != id
    decreases self.columns@.len() - ci
@at before /return Some/
    proof { assert(named(self.columns@, column.name, ci - 1)); }
@end
