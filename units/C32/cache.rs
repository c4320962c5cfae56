use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include cache.inc
//@extract tskv/src/mem_cache/row_data.rs OrderedRowsData::new
@header impl OrderedRowsData
@subst /let mut rows: OrderedSkipList<RowData> = / => let rows = 
@subst /unsafe \{ rows\.sort_by\(\|a: &RowData, b: &RowData\| a\.partial_cmp\(b\)\.unwrap\(\)\) \}/ => 
@ret r
@spec
    ensures r.at() == Seq::<RowData>::empty()
@end
//@extract tskv/src/mem_cache/row_data.rs OrderedRowsData::insert
@header impl OrderedRowsData
@spec
    requires srt(old(self).rows.v@)
    ensures exists|p: int| #[trigger] ins(old(self).rows.v@, final(self).rows.v@, row, p)
@at start
    let ghost a0 = self.rows.v@; let ghost r0 = row;
@at tail
    proof { let p = choose|p: int| #[trigger] ins(a0, self.rows.v@, r0, p); assert(ins(a0, self.rows.v@, r0, p)); }
@end
//@extract tskv/src/mem_cache/row_data.rs OrderedRowsData::clear
@header impl OrderedRowsData
@spec
    ensures final(self).at() == Seq::<RowData>::empty()
@end
//@extract tskv/src/mem_cache/row_data.rs OrderedRowsData::get_rows
@header impl OrderedRowsData
@subst /OrderedSkipList<RowData>/ => OrderedSkipList
@ret r
@spec
    ensures r.v@ == self.at()
@end
//@extract tskv/src/mem_cache/row_data.rs OrderedRowsData::get_ref_rows
@header impl OrderedRowsData
@subst /OrderedSkipList<RowData>/ => OrderedSkipList
@ret r
@spec
    ensures r.v@ == self.at()
@end
//@extract tskv/src/mem_cache/row_data.rs Clone for OrderedRowsData::clone
@header impl OrderedRowsData
@subst /let mut clone_rows: OrderedSkipList<RowData> = OrderedSkipList::new\(\);/ => let mut clone_rows = OrderedSkipList::new(); let ghost s0 = self.at(); let mut ri = self.rows.len(); proof { assert(s0.subrange(ri as int, s0.len() as int) =~= Seq::<RowData>::empty()); }
@subst /unsafe \{ clone_rows\.sort_by\(\|a: &RowData, b: &RowData\| a\.partial_cmp\(b\)\.unwrap\(\)\) \}/ => 
@subst /self\.rows\.iter\(\)\.rev\(\)\.for_each\(\|row\| \{([^{}]*)\}\);/ => while ri > 0 { ri = ri - 1; let row = self.rows.at(ri); let ghost c0 = clone_rows.v@; \1 }
@ret r
@spec
    requires srt(self.at())
    ensures r.at() == self.at()
@loop 0
    invariant s0 == self.at(), srt(s0), ri <= s0.len(), clone_rows.v@ == s0.subrange(ri as int, s0.len() as int)
    decreases ri
@at loop-end 0
    proof { let p = choose|p: int| #[trigger] ins(c0, clone_rows.v@, *row, p); lemma_front(s0, ri as int, c0, clone_rows.v@, p); }
@end
// a row put into the rows that follow it goes to the front
proof fn lemma_front(s: Seq<RowData>, k: int, c0: Seq<RowData>, c1: Seq<RowData>, p: int) requires srt(s), 0 <= k < s.len(), c0 == s.subrange(k + 1, s.len() as int), ins(c0, c1, s[k], p) ensures c1 == s.subrange(k, s.len() as int) {
    if p > 0 { assert(c0[0] == s[k + 1]); assert(c0[0].ts < s[k].ts); assert(s[k].ts <= s[k + 1].ts); assert(false); }
    assert(c1 =~= s.subrange(k, s.len() as int));
}

// ---- a written group: its values hide the older ones ----
proof fn lemma_moved(a: Seq<RowData>, s0: Seq<RowData>, k: int, c0: Seq<RowData>, c1: Seq<RowData>, p: int, f: int, t: i64)
    requires 0 <= k < a.len(), srt(c0), ins(c0, c1, a[k], p), gval(c0, f, t) == over(gval(a.subrange(k + 1, a.len() as int), f, t), gval(s0, f, t))
    ensures gval(c1, f, t) == over(gval(a.subrange(k, a.len() as int), f, t), gval(s0, f, t))
{ lemma_ins_val(c0, c1, a[k], p, f, t); let u = a.subrange(k, a.len() as int); assert(u.subrange(1, u.len() as int) =~= a.subrange(k + 1, a.len() as int)); assert(u[0] == a[k]); }
spec fn moved(a: Seq<RowData>, s0: Seq<RowData>, k: int, c: Seq<RowData>) -> bool {
    &&& srt(c)
    &&& forall|f: int, t: i64| #[trigger] gval(c, f, t) == over(gval(a.subrange(k, a.len() as int), f, t), gval(s0, f, t))
    &&& forall|t: i64| #[trigger] rhas(c, t) <==> rhas(s0, t) || rhas(a.subrange(k, a.len() as int), t)
}
proof fn lemma_moved0(a: Seq<RowData>, s0: Seq<RowData>) requires srt(s0) ensures moved(a, s0, a.len() as int, s0) { assert(a.subrange(a.len() as int, a.len() as int) =~= Seq::<RowData>::empty()); }
proof fn lemma_moved1(a: Seq<RowData>, s0: Seq<RowData>, k: int, c0: Seq<RowData>, c1: Seq<RowData>, p: int) requires 0 <= k < a.len(), moved(a, s0, k + 1, c0), ins(c0, c1, a[k], p) ensures moved(a, s0, k, c1) {
    lemma_ins_srt(c0, c1, a[k], p); let u = a.subrange(k, a.len() as int); let w = a.subrange(k + 1, a.len() as int);
    assert forall|f: int, t: i64| #[trigger] gval(c1, f, t) == over(gval(u, f, t), gval(s0, f, t)) by { assert(gval(c0, f, t) == over(gval(w, f, t), gval(s0, f, t))); lemma_moved(a, s0, k, c0, c1, p, f, t); }
    assert forall|t: i64| #[trigger] rhas(c1, t) <==> rhas(s0, t) || rhas(u, t) by {
        lemma_ins_has(c0, c1, a[k], p, t); assert(rhas(c0, t) <==> rhas(s0, t) || rhas(w, t)); assert(u[0] == a[k]);
        if rhas(w, t) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).ts == t; assert(u[i + 1] == w[i]); }
        if rhas(u, t) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).ts == t; if i > 0 { assert(w[i - 1] == u[i]); } }
    }
}
spec fn written(g0: Seq<RowGroup>, g1: Seq<RowGroup>, x: RowGroup) -> bool {
    &&& forall|c: u32, t: i64| #[trigger] sval(g1, c, t) == over(cval(x, c, t), sval(g0, c, t))
    &&& forall|t: i64| #[trigger] shas(g1, t) <==> shas(g0, t) || rhas(x.rows.at(), t)
}
proof fn lemma_joined(g0: Seq<RowGroup>, g1: Seq<RowGroup>, x: RowGroup) requires gok(g0), srt(x.rows.at()), g0.len() > 0, g1.len() == g0.len(), g1.drop_last() == g0.drop_last(), moved(x.rows.at(), g0.last().rows.at(), 0, g1.last().rows.at()),
    g1.last().schema == x.schema, x.schema.inner.at() == g0.last().schema.inner.at() ensures written(g0, g1, x), gok(g1) {
    let a = x.rows.at(); assert(a.subrange(0, a.len() as int) =~= a); let n = g0.len() - 1;
    assert forall|c: u32, t: i64| #[trigger] sval(g1, c, t) == over(cval(x, c, t), sval(g0, c, t)) by { let k = x.schema.inner.at()[c] as int; assert(gval(g1.last().rows.at(), k, t) == over(gval(a, k, t), gval(g0.last().rows.at(), k, t))); }
    assert forall|j: int| 0 <= j < n implies #[trigger] g1[j] == g0[j] by { assert(g1.drop_last()[j] == g1[j]); assert(g0.drop_last()[j] == g0[j]); }
    assert forall|t: i64| #[trigger] shas(g1, t) <==> shas(g0, t) || rhas(a, t) by {
        assert(rhas(g1[n].rows.at(), t) <==> rhas(g0[n].rows.at(), t) || rhas(a, t));
        if shas(g0, t) { let j = choose|j: int| 0 <= j < g0.len() && rhas((#[trigger] g0[j]).rows.at(), t); assert(rhas(g1[j].rows.at(), t)); }
        if shas(g1, t) { let j = choose|j: int| 0 <= j < g1.len() && rhas((#[trigger] g1[j]).rows.at(), t); if j < n { assert(rhas(g0[j].rows.at(), t)); } }
        if rhas(a, t) { assert(rhas(g1[n].rows.at(), t)); }
    }
    assert forall|j: int| 0 <= j < g1.len() implies srt((#[trigger] g1[j]).rows.at()) by { if j < n { assert(srt(g0[j].rows.at())); } }
}
proof fn lemma_added(g0: Seq<RowGroup>, x: RowGroup) requires gok(g0), srt(x.rows.at()) ensures written(g0, g0.push(x), x), gok(g0.push(x)) {
    let g1 = g0.push(x);
    assert forall|c: u32, t: i64| #[trigger] sval(g1, c, t) == over(cval(x, c, t), sval(g0, c, t)) by { lemma_sval_push(g0, x, c, t); }
    assert forall|t: i64| #[trigger] shas(g1, t) <==> shas(g0, t) || rhas(x.rows.at(), t) by {
        if shas(g0, t) { let j = choose|j: int| 0 <= j < g0.len() && rhas((#[trigger] g0[j]).rows.at(), t); assert(g1[j] == g0[j]); }
        if rhas(x.rows.at(), t) { assert(g1[g0.len() as int] == x); }
        if shas(g1, t) { let j = choose|j: int| 0 <= j < g1.len() && rhas((#[trigger] g1[j]).rows.at(), t); if j < g0.len() { assert(g0[j] == g1[j]); } }
    }
}
//@extract tskv/src/mem_cache/series_data.rs SeriesData::new
@header impl SeriesData
@subst /SeriesId/ => u32
@subst /LinkedList::new\(\)/ => Groups::new()
@ret r
@spec
    ensures sok(r), r.groups.v@.len() == 0, r.series_id == series_id, r.series_key == series_key
@end
//@extract tskv/src/mem_cache/series_data.rs SeriesData::write
@header impl SeriesData
@subst /if let Some\((\w+)\) = self\.groups\.back_mut\(\) \{/ => if self.groups.len() > 0 { let gl = self.groups.len() - 1; let \1 = self.groups.at_mut(gl); let ghost x0 = *\1; proof { assert(srt(g0[gl as int].rows.at())); }
@subst /item\.schema\.fields_id\(\) == group\.schema\.fields_id\(\)/ => same_ids(item.schema.as_ref().fields_id(), group.schema.as_ref().fields_id())
@subst /(item|group)\.schema\.schema_version/ => \1.schema.as_ref().schema_version
@subst /let rows: Vec<RowData> = group\.rows\.get_rows\(\)\.into_iter\(\)\.collect\(\);/ => let rows: Vec<RowData> = group.rows.get_rows().to_rows(); let mut ri = rows.len(); proof { lemma_moved0(rows@, x0.rows.at()); }
@subst /rows\.into_iter\(\)\.rev\(\)\.for_each\(\|row\| \{([^{}]*)\}\);/ => while ri > 0 { ri = ri - 1; let row = rows[ri].clone(); let ghost c0 = item.rows.rows.v@; \1 proof { let p = choose|p: int| #[trigger] ins(c0, item.rows.rows.v@, row, p); lemma_moved1(rows@, x0.rows.at(), ri as int, c0, item.rows.rows.v@, p); } }
@subst /item\.schema = group\.schema;\s*return;/ => item.schema = group.schema; proof { assert(self.groups.v@.drop_last() =~= g0.drop_last()); lemma_joined(g0, self.groups.v@, gx); lemma_within(*old(self), *self, gx); } return;
@spec
    requires sok(*old(self)), srt(group.rows.at()), gr(group)
    ensures sok(*final(self)), written(old(self).groups.v@, final(self).groups.v@, group), final(self).series_id == old(self).series_id, final(self).series_key == old(self).series_key
@loop 0
    invariant ri <= rows@.len(), moved(rows@, x0.rows.at(), ri as int, item.rows.at()), rows@ == gx.rows.at(), item.schema == x0.schema
    decreases ri
@at start
    let ghost g0 = self.groups.v@; let ghost gx = group;
@at tail
    proof { assert(self.groups.v@ =~= g0.push(gx)); lemma_added(g0, gx); lemma_within(*old(self), *self, gx); }
@end
proof fn lemma_within(a: SeriesData, b: SeriesData, x: RowGroup) requires sr(a), gr(x), written(a.groups.v@, b.groups.v@, x), forall|t: i64| mem(a.range, t) || mem(x.range, t) ==> #[trigger] mem(b.range, t) ensures sr(b) {}
// ---- dropping a column ----
spec fn cut(r: RowData, k: int, q: RowData) -> bool { q.ts == r.ts && (if k < r.fields@.len() { q.fields@ == r.fields@.remove(k) } else { q.fields@ == r.fields@ }) }
spec fn cuts(s: Seq<RowData>, k: int, q: Seq<RowData>) -> bool { s.len() == q.len() && forall|i: int| 0 <= i < s.len() ==> cut(#[trigger] s[i], k, #[trigger] q[i]) }
proof fn lemma_cut_val(s: Seq<RowData>, q: Seq<RowData>, k: int, f: int, t: i64) requires cuts(s, k, q), 0 <= k, 0 <= f, f != k ensures gval(q, if f < k { f } else { f - 1 }, t) == gval(s, f, t) decreases s.len() {
    if s.len() > 0 { let u = s.subrange(1, s.len() as int); let w = q.subrange(1, q.len() as int); assert(cut(s[0], k, q[0]));
        assert forall|i: int| 0 <= i < u.len() implies cut(#[trigger] u[i], k, #[trigger] w[i]) by { assert(u[i] == s[i + 1] && w[i] == q[i + 1]); } lemma_cut_val(u, w, k, f, t); }
}
spec fn dropped1(x: RowGroup, y: RowGroup, c: u32) -> bool {
    &&& y.schema.inner.schema_version == x.schema.inner.schema_version
    &&& srt(y.rows.at())
    &&& forall|t: i64| #[trigger] rhas(y.rows.at(), t) <==> rhas(x.rows.at(), t)
    &&& forall|d: u32, t: i64| #[trigger] cval(y, d, t) == (if d == c { None } else { cval(x, d, t) })
}
proof fn lemma_dropped1(x: RowGroup, y: RowGroup, c: u32) requires srt(x.rows.at()), x.schema.inner.at().dom().contains(c), without(x.schema.inner.at(), y.schema.inner.at(), c), cuts(x.rows.at(), x.schema.inner.at()[c] as int, y.rows.at()), y.schema.inner.schema_version == x.schema.inner.schema_version ensures dropped1(x, y, c) {
    let s = x.rows.at(); let q = y.rows.at(); let k = x.schema.inner.at()[c] as int;
    assert forall|i: int, j: int| 0 <= i <= j < q.len() implies (#[trigger] q[i]).ts <= (#[trigger] q[j]).ts by { assert(cut(s[i], k, q[i]) && cut(s[j], k, q[j])); }
    assert forall|t: i64| #[trigger] rhas(q, t) <==> rhas(s, t) by { if rhas(q, t) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).ts == t; assert(cut(s[i], k, q[i])); } if rhas(s, t) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ts == t; assert(cut(s[i], k, q[i])); } }
    assert forall|d: u32, t: i64| #[trigger] cval(y, d, t) == (if d == c { None } else { cval(x, d, t) }) by { if d != c && x.schema.inner.at().dom().contains(d) { assert(y.schema.inner.at().dom().contains(d)); lemma_cut_val(s, q, k, x.schema.inner.at()[d] as int, t); } }
}
proof fn lemma_cut_front(s: Seq<RowData>, f: int, k: int, q: RowData, c0: Seq<RowData>, c1: Seq<RowData>, p: int) requires srt(s), 0 <= k < s.len(), cuts(s.subrange(k + 1, s.len() as int), f, c0), cut(s[k], f, q), ins(c0, c1, q, p) ensures cuts(s.subrange(k, s.len() as int), f, c1), srt(c1) {
    let w = s.subrange(k + 1, s.len() as int); let u = s.subrange(k, s.len() as int);
    if p > 0 { assert(cut(w[0], f, c0[0])); assert(w[0] == s[k + 1]); assert(c0[0].ts < q.ts); assert(s[k].ts <= s[k + 1].ts); assert(false); }
    assert forall|i: int| 0 <= i < u.len() implies cut(#[trigger] u[i], f, #[trigger] c1[i]) by { if i > 0 { assert(u[i] == w[i - 1]); assert(c1[i] == c0[i - 1]); assert(cut(w[i - 1], f, c0[i - 1])); } else { assert(u[0] == s[k]); assert(c1[0] == q); } }
    assert forall|i: int, j: int| 0 <= i <= j < c1.len() implies (#[trigger] c1[i]).ts <= (#[trigger] c1[j]).ts by { assert(cut(u[i], f, c1[i]) && cut(u[j], f, c1[j])); assert(u[i] == s[k + i] && u[j] == s[k + j]); }
}
spec fn absent(x: RowGroup, c: u32) -> bool { !x.schema.inner.at().dom().contains(c) }
//@extract tskv/src/mem_cache/series_data.rs SeriesData::drop_column
@header impl SeriesData
@subst /for item in self\.groups\.iter_mut\(\) \{/ => let gn = self.groups.len(); let mut gi: usize = 0; while gi < gn { let item = self.groups.at_mut(gi); gi = gi + 1; let ghost x0 = *item; proof { assert(srt(g0[gi - 1].rows.at())); assert(x0 == g0[gi - 1]); }
@subst /let name = match item\.schema\.column_name\(column_id\) \{\s*None => continue,\s*Some\(name\) => name\.to_string\(\),\s*\};/ => let name = match item.schema.as_ref().column_name(column_id) { None => { proof { lemma_absent(x0, column_id); } continue; } Some(name) => *name };
@subst /let index = match item\.schema\.fields_id\(\)\.get\(&column_id\) \{\s*None => continue,/ => let index = match item.schema.as_ref().fields_id().get(&column_id) { None => { proof { lemma_absent(x0, column_id); } continue; }
@subst /let mut rowdata_vec: Vec<RowData> = item\.rows\.get_ref_rows\(\)\.iter\(\)\.cloned\(\)\.collect\(\);/ => let mut rowdata_vec: Vec<RowData> = item.rows.get_ref_rows().to_rows(); let ghost s0 = rowdata_vec@; let mut ri = rowdata_vec.len();
@subst /for row in rowdata_vec\.iter_mut\(\)\.rev\(\) \{/ => proof { assert(s0.subrange(ri as int, s0.len() as int) =~= Seq::<RowData>::empty()); } while ri > 0 { ri = ri - 1; let mut row = rowdata_vec[ri].clone(); let ghost c0 = item.rows.rows.v@; let ghost r0 = row;
@subst /item\.rows\.insert\(row\.clone\(\)\);/ => item.rows.insert(row.clone()); proof { let p = choose|p: int| #[trigger] ins(c0, item.rows.rows.v@, row, p); lemma_cut_front(s0, index as int, ri as int, row, c0, item.rows.rows.v@, p); }
@subst /item\.schema\.as_ref\(\)\.clone\(\)/ => item.schema.as_ref().clone()
@subst /item\.schema = Arc::new\(schema_t\)/ => item.schema = Arc::new(schema_t); proof { assert(s0.subrange(0, s0.len() as int) =~= s0); lemma_dropped1(x0, *item, column_id); }
@spec
    requires sok(*old(self))
    ensures sok(*final(self)), final(self).series_id == old(self).series_id, final(self).series_key == old(self).series_key,
        forall|d: u32, t: i64| #[trigger] sval(final(self).groups.v@, d, t) == (if d == column_id { None } else { sval(old(self).groups.v@, d, t) }),
        forall|t: i64| #[trigger] shas(final(self).groups.v@, t) <==> shas(old(self).groups.v@, t)
@loop 0
    invariant gi <= gn, gn == g0.len(), self.groups.v@.len() == gn, gok(g0), self.range == old(self).range, self.series_id == old(self).series_id, self.series_key == old(self).series_key,
        forall|j: int| 0 <= j < gi ==> dropped1(g0[j], #[trigger] self.groups.v@[j], column_id), forall|j: int| gi <= j < gn ==> #[trigger] self.groups.v@[j] == g0[j]
    decreases gn - gi
@loop 1
    invariant ri <= s0.len(), rowdata_vec@ == s0, s0 == x0.rows.at(), srt(s0), srt(item.rows.rows.v@), cuts(s0.subrange(ri as int, s0.len() as int), index as int, item.rows.rows.v@), item.schema == x0.schema
    decreases ri
@at start
    let ghost g0 = self.groups.v@;
@at tail
    proof { lemma_dropped(g0, self.groups.v@, column_id); assert(sr(*old(self))); assert forall|t: i64| #[trigger] shas(self.groups.v@, t) implies mem(self.range, t) by { assert(shas(g0, t)); } }
@end
proof fn lemma_absent(x: RowGroup, c: u32) requires srt(x.rows.at()), absent(x, c) ensures dropped1(x, x, c) {}
proof fn lemma_dropped(g: Seq<RowGroup>, h: Seq<RowGroup>, c: u32) requires g.len() == h.len(), forall|j: int| 0 <= j < g.len() ==> dropped1(g[j], #[trigger] h[j], c)
    ensures gok(h), forall|d: u32, t: i64| #[trigger] sval(h, d, t) == (if d == c { None } else { sval(g, d, t) }), forall|t: i64| #[trigger] shas(h, t) <==> shas(g, t) {
    assert forall|d: u32, t: i64| #[trigger] sval(h, d, t) == (if d == c { None } else { sval(g, d, t) }) by {
        if d == c { assert forall|j: int| 0 <= j < h.len() implies #[trigger] cval(h[j], d, t) is None by { assert(dropped1(g[j], h[j], c)); } lemma_sval_none(h, d, t); }
        else { assert forall|j: int| 0 <= j < g.len() implies #[trigger] cval(g[j], d, t) == cval(h[j], d, t) by { assert(dropped1(g[j], h[j], c)); } lemma_sval_each(g, h, d, t); }
    }
    assert forall|t: i64| #[trigger] shas(h, t) <==> shas(g, t) by {
        if shas(h, t) { let j = choose|j: int| 0 <= j < h.len() && rhas((#[trigger] h[j]).rows.at(), t); assert(dropped1(g[j], h[j], c)); assert(rhas(g[j].rows.at(), t)); }
        if shas(g, t) { let j = choose|j: int| 0 <= j < g.len() && rhas((#[trigger] g[j]).rows.at(), t); assert(dropped1(g[j], h[j], c)); assert(rhas(h[j].rows.at(), t)); }
    }
}

// ---- deleting a range of time ----
spec fn kpt(s: Seq<RowData>, q: Seq<RowData>, r: TimeRange) -> bool {
    &&& srt(q)
    &&& forall|f: int, t: i64| #[trigger] gval(q, f, t) == (if mem(r, t) { None } else { gval(s, f, t) })
    &&& forall|t: i64| #[trigger] rhas(q, t) <==> rhas(s, t) && !mem(r, t)
}
proof fn lemma_kpt0(s: Seq<RowData>, q: Seq<RowData>, r: TimeRange) requires s.len() == 0, q.len() == 0 ensures kpt(s, q, r) {}
proof fn lemma_push_val(q: Seq<RowData>, r: RowData, f: int, t: i64) ensures gval(q.push(r), f, t) == over(gval(q, f, t), if r.ts == t { fld(r, f) } else { None }) decreases q.len() {
    let q1 = q.push(r); let u1 = q1.subrange(1, q1.len() as int);
    if q.len() == 0 { assert(q1[0] == r); assert(u1.len() == 0); assert(gval(u1, f, t) is None); assert(gval(q, f, t) is None); } else { let u = q.subrange(1, q.len() as int); assert(u1 =~= u.push(r)); assert(q1[0] == q[0]); lemma_push_val(u, r, f, t); }
}
proof fn lemma_push_has(q: Seq<RowData>, r: RowData, t: i64) ensures rhas(q.push(r), t) <==> rhas(q, t) || r.ts == t {
    let q1 = q.push(r); if rhas(q, t) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).ts == t; assert(q1[i] == q[i]); } if r.ts == t { assert(q1[q.len() as int] == r); }
    if rhas(q1, t) { let i = choose|i: int| 0 <= i < q1.len() && (#[trigger] q1[i]).ts == t; if i < q.len() { assert(q[i] == q1[i]); } }
}
// going forward: the next row is kept at the end, or left out
proof fn lemma_kpt_next(s: Seq<RowData>, i: int, q: Seq<RowData>, r: TimeRange, keep: bool) requires srt(s), 0 <= i < s.len(), kpt(s.subrange(0, i), q, r), keep == !mem(r, s[i].ts) ensures kpt(s.subrange(0, i + 1), if keep { q.push(s[i]) } else { q }, r) {
    let a = s.subrange(0, i); let b = s.subrange(0, i + 1); assert(b =~= a.push(s[i])); let q1 = if keep { q.push(s[i]) } else { q };
    assert forall|f: int, t: i64| #[trigger] gval(q1, f, t) == (if mem(r, t) { None } else { gval(b, f, t) }) by { assert(gval(q, f, t) == (if mem(r, t) { None } else { gval(a, f, t) })); lemma_push_val(a, s[i], f, t); lemma_push_val(q, s[i], f, t); }
    assert forall|t: i64| #[trigger] rhas(q1, t) <==> rhas(b, t) && !mem(r, t) by { assert(rhas(q, t) <==> rhas(a, t) && !mem(r, t)); lemma_push_has(a, s[i], t); lemma_push_has(q, s[i], t); }
    assert forall|x: int, y: int| 0 <= x <= y < q1.len() implies (#[trigger] q1[x]).ts <= (#[trigger] q1[y]).ts by {
        if y < q.len() { assert(q1[x] == q[x] && q1[y] == q[y]); } else if x < q.len() { assert(q1[x] == q[x]); let t = q[x].ts; assert(rhas(q, t)); assert(rhas(a, t)); let z = choose|z: int| 0 <= z < a.len() && (#[trigger] a[z]).ts == t; assert(a[z] == s[z]); assert(s[z].ts <= s[i].ts); }
    }
}
// going backward: the next row is put in, or left out
proof fn lemma_kpt_prev(s: Seq<RowData>, k: int, q: Seq<RowData>, q1: Seq<RowData>, p: int, r: TimeRange) requires srt(s), 0 <= k < s.len(), kpt(s.subrange(k + 1, s.len() as int), q, r), if mem(r, s[k].ts) { q1 == q } else { ins(q, q1, s[k], p) } ensures kpt(s.subrange(k, s.len() as int), q1, r) {
    let a = s.subrange(k + 1, s.len() as int); let b = s.subrange(k, s.len() as int); assert(b.subrange(1, b.len() as int) =~= a); assert(b[0] == s[k]);
    assert(ins(a, b, s[k], 0)) by { assert(b =~= a.insert(0, s[k])); assert forall|i: int| 0 <= i < a.len() implies s[k].ts <= (#[trigger] a[i]).ts by { assert(a[i] == s[k + 1 + i]); } }
    if !mem(r, s[k].ts) { lemma_ins_srt(q, q1, s[k], p); }
    assert forall|i: int, j: int| 0 <= i <= j < a.len() implies (#[trigger] a[i]).ts <= (#[trigger] a[j]).ts by { assert(a[i] == s[k + 1 + i] && a[j] == s[k + 1 + j]); }
    assert forall|f: int, t: i64| #[trigger] gval(q1, f, t) == (if mem(r, t) { None } else { gval(b, f, t) }) by { assert(gval(q, f, t) == (if mem(r, t) { None } else { gval(a, f, t) })); lemma_ins_val(a, b, s[k], 0, f, t); if !mem(r, s[k].ts) { lemma_ins_val(q, q1, s[k], p, f, t); } }
    assert forall|t: i64| #[trigger] rhas(q1, t) <==> rhas(b, t) && !mem(r, t) by { assert(rhas(q, t) <==> rhas(a, t) && !mem(r, t)); lemma_ins_has(a, b, s[k], 0, t); if !mem(r, s[k].ts) { lemma_ins_has(q, q1, s[k], p, t); } }
}
spec fn kept1(x: RowGroup, y: RowGroup, r: TimeRange) -> bool { y.schema == x.schema && kpt(x.rows.at(), y.rows.at(), r) }
spec fn schemas_same(g: Seq<RowGroup>, h: Seq<RowGroup>) -> bool { g.len() == h.len() && forall|j: int| 0 <= j < g.len() ==> (#[trigger] h[j]).schema == g[j].schema }
spec fn deleted(g: Seq<RowGroup>, h: Seq<RowGroup>, r: TimeRange) -> bool {
    &&& schemas_same(g, h) && gok(h)
    &&& forall|d: u32, t: i64| #[trigger] sval(h, d, t) == (if mem(r, t) { None } else { sval(g, d, t) })
    &&& forall|t: i64| #[trigger] shas(h, t) <==> shas(g, t) && !mem(r, t)
}
proof fn lemma_deleted(g: Seq<RowGroup>, h: Seq<RowGroup>, r: TimeRange) requires g.len() == h.len(), forall|j: int| 0 <= j < g.len() ==> kept1(g[j], #[trigger] h[j], r) ensures deleted(g, h, r) {
    assert forall|d: u32, t: i64| #[trigger] sval(h, d, t) == (if mem(r, t) { None } else { sval(g, d, t) }) by {
        assert forall|j: int| 0 <= j < h.len() implies #[trigger] cval(h[j], d, t) == (if mem(r, t) { None } else { cval(g[j], d, t) }) by { assert(kept1(g[j], h[j], r)); }
        if mem(r, t) { lemma_sval_none(h, d, t); } else { assert forall|j: int| 0 <= j < g.len() implies #[trigger] cval(g[j], d, t) == cval(h[j], d, t) by { assert(cval(h[j], d, t) == cval(g[j], d, t)); } lemma_sval_each(g, h, d, t); }
    }
    assert forall|t: i64| #[trigger] shas(h, t) <==> shas(g, t) && !mem(r, t) by {
        if shas(h, t) { let j = choose|j: int| 0 <= j < h.len() && rhas((#[trigger] h[j]).rows.at(), t); assert(kept1(g[j], h[j], r)); assert(rhas(g[j].rows.at(), t)); }
        if shas(g, t) && !mem(r, t) { let j = choose|j: int| 0 <= j < g.len() && rhas((#[trigger] g[j]).rows.at(), t); assert(kept1(g[j], h[j], r)); assert(rhas(h[j].rows.at(), t)); }
    }
    assert forall|j: int| 0 <= j < h.len() implies srt((#[trigger] h[j]).rows.at()) by { assert(kept1(g[j], h[j], r)); }
    assert forall|j: int| 0 <= j < g.len() implies (#[trigger] h[j]).schema == g[j].schema by { assert(kept1(g[j], h[j], r)); }
}
// no row there: nothing to delete
proof fn lemma_nothing(s: SeriesData, r: TimeRange) requires sok(s), r.max_ts < s.range.min_ts || r.min_ts > s.range.max_ts ensures deleted(s.groups.v@, s.groups.v@, r) {
    let g = s.groups.v@; assert forall|t: i64| mem(r, t) implies !#[trigger] shas(g, t) by { if shas(g, t) { assert(mem(s.range, t)); } }
    assert forall|d: u32, t: i64| #[trigger] sval(g, d, t) == (if mem(r, t) { None } else { sval(g, d, t) }) by { if mem(r, t) { assert(!shas(g, t)); lemma_no_row(g, d, t); } }
}
proof fn lemma_no_row(g: Seq<RowGroup>, d: u32, t: i64) requires !shas(g, t) ensures sval(g, d, t) is None {
    assert forall|j: int| 0 <= j < g.len() implies #[trigger] cval(g[j], d, t) is None by { let s = g[j].rows.at(); assert(!rhas(s, t)); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).ts != t by {} if g[j].schema.inner.at().dom().contains(d) { lemma_none(s, g[j].schema.inner.at()[d] as int, t); } } lemma_sval_none(g, d, t);
}
//@extract tskv/src/mem_cache/series_data.rs SeriesData::delete_series
@header impl SeriesData
@subst /for item in self\.groups\.iter_mut\(\) \{/ => let gn = self.groups.len(); let mut gi: usize = 0; while gi < gn { let item = self.groups.at_mut(gi); gi = gi + 1; let ghost x0 = *item; proof { assert(srt(g0[gi - 1].rows.at())); assert(x0 == g0[gi - 1]); }
@subst /item\s*\.rows\s*\.retain\(\|row\| ([^;{}]*)\);/ => let all = item.rows.get_ref_rows().to_rows(); let mut kept: Vec<RowData> = Vec::new(); let mut ri: usize = 0; proof { assert(all@.subrange(0, 0) =~= Seq::<RowData>::empty()); lemma_kpt0(all@.subrange(0, 0), kept@, *range); } while ri < all.len() { let row = all[ri].clone(); let ghost q0 = kept@; let keep = \1; if keep { kept.push(row); } proof { lemma_kpt_next(all@, ri as int, q0, *range, keep); } ri = ri + 1; } item.rows.rows.v = kept; proof { assert(all@.subrange(0, all@.len() as int) =~= all@); assert(kept1(x0, *item, *range)); }
@spec
    requires sok(*old(self))
    ensures sok(*final(self)), deleted(old(self).groups.v@, final(self).groups.v@, *range), final(self).series_id == old(self).series_id, final(self).series_key == old(self).series_key
@loop 0
    invariant gi <= gn, gn == g0.len(), self.groups.v@.len() == gn, gok(g0), self.range == old(self).range, self.series_id == old(self).series_id, self.series_key == old(self).series_key,
        forall|j: int| 0 <= j < gi ==> kept1(g0[j], #[trigger] self.groups.v@[j], *range), forall|j: int| gi <= j < gn ==> #[trigger] self.groups.v@[j] == g0[j]
    decreases gn - gi
@loop 1
    invariant ri <= all@.len(), srt(all@), kpt(all@.subrange(0, ri as int), kept@, *range), item.schema == x0.schema
    decreases all@.len() - ri
@at start
    let ghost g0 = self.groups.v@; proof { if range.max_ts < self.range.min_ts || range.min_ts > self.range.max_ts { lemma_nothing(*self, *range); } }
@at tail
    proof { lemma_deleted(g0, self.groups.v@, *range); assert(sr(*old(self))); assert forall|t: i64| #[trigger] shas(self.groups.v@, t) implies mem(self.range, t) by { assert(shas(g0, t)); } }
@end
spec fn upto(v: Seq<TimeRange>, n: int, t: i64) -> bool { exists|i: int| 0 <= i < n && mem(#[trigger] v[i], t) }
spec fn deleted_upto(g: Seq<RowGroup>, h: Seq<RowGroup>, v: Seq<TimeRange>, n: int) -> bool {
    &&& schemas_same(g, h) && gok(h)
    &&& forall|d: u32, t: i64| #[trigger] sval(h, d, t) == (if upto(v, n, t) { None } else { sval(g, d, t) })
    &&& forall|t: i64| #[trigger] shas(h, t) <==> shas(g, t) && !upto(v, n, t)
}
proof fn lemma_upto(g: Seq<RowGroup>, h: Seq<RowGroup>, k: Seq<RowGroup>, v: Seq<TimeRange>, n: int) requires 0 <= n < v.len(), deleted_upto(g, h, v, n), deleted(h, k, v[n]) ensures deleted_upto(g, k, v, n + 1) {
    assert forall|t: i64| #[trigger] upto(v, n + 1, t) <==> upto(v, n, t) || mem(v[n], t) by { if upto(v, n, t) { let i = choose|i: int| 0 <= i < n && mem(#[trigger] v[i], t); assert(mem(v[i], t)); } }
    assert forall|d: u32, t: i64| #[trigger] sval(k, d, t) == (if upto(v, n + 1, t) { None } else { sval(g, d, t) }) by { assert(sval(h, d, t) == (if upto(v, n, t) { None } else { sval(g, d, t) })); }
    assert forall|t: i64| #[trigger] shas(k, t) <==> shas(g, t) && !upto(v, n + 1, t) by { assert(shas(h, t) <==> shas(g, t) && !upto(v, n, t)); }
    assert forall|j: int| 0 <= j < g.len() implies (#[trigger] k[j]).schema == g[j].schema by { assert(h[j].schema == g[j].schema); }
}
//@extract tskv/src/mem_cache/series_data.rs SeriesData::delete_by_time_ranges
@header impl SeriesData
@subst /for time_range in time_ranges\.time_ranges\(\) \{/ => let tv = time_ranges.time_ranges(); let mut ti: usize = 0; while ti < tv.len() { let time_range = tv[ti]; ti = ti + 1; let ghost g0 = self.groups.v@; proof { if time_range.max_ts < self.range.min_ts || time_range.min_ts > self.range.max_ts { lemma_nothing(*self, time_range); lemma_upto(go, g0, g0, tv@, ti - 1); } }
@subst /for item in self\.groups\.iter_mut\(\) \{/ => let gn = self.groups.len(); let mut gi: usize = 0; while gi < gn { let item = self.groups.at_mut(gi); gi = gi + 1; let ghost x0 = *item; proof { assert(srt(g0[gi - 1].rows.at())); assert(x0 == g0[gi - 1]); }
@subst /item\s*\.rows\s*\.get_ref_rows\(\)\s*\.iter\(\)\s*\.rev\(\)\s*\.filter\(\|row\| ([^;{}]*)\)\s*\.for_each\(\|row\| \{([^{}]*)\}\);/ => let all = item.rows.get_ref_rows().to_rows(); let mut ri = all.len(); proof { assert(all@.subrange(ri as int, ri as int) =~= Seq::<RowData>::empty()); lemma_kpt0(all@.subrange(ri as int, ri as int), rows.rows.v@, time_range); } while ri > 0 { ri = ri - 1; let row = all[ri].clone(); let ghost c0 = rows.rows.v@; let ghost mut p: int = 0; if \1 { \2 proof { p = choose|p: int| #[trigger] ins(c0, rows.rows.v@, row, p); } } proof { lemma_kpt_prev(all@, ri as int, c0, rows.rows.v@, p, time_range); } }
@subst /item\.rows = rows;/ => item.rows = rows; proof { assert(all@.subrange(0, all@.len() as int) =~= all@); assert(kept1(x0, *item, time_range)); }
@spec
    requires sok(*old(self))
    ensures sok(*final(self)), final(self).series_id == old(self).series_id, final(self).series_key == old(self).series_key, deleted_upto(old(self).groups.v@, final(self).groups.v@, time_ranges.g@, time_ranges.g@.len() as int)
@loop 0
    invariant ti <= tv@.len(), tv@ == time_ranges.g@, sok(*self), deleted_upto(go, self.groups.v@, tv@, ti as int), self.range == r0, self.series_id == old(self).series_id, self.series_key == old(self).series_key
    decreases tv@.len() - ti
@loop 1
    invariant gi <= gn, gn == g0.len(), self.groups.v@.len() == gn, gok(g0), self.range == r0, self.series_id == old(self).series_id, self.series_key == old(self).series_key,
        forall|j: int| 0 <= j < gi ==> kept1(g0[j], #[trigger] self.groups.v@[j], time_range), forall|j: int| gi <= j < gn ==> #[trigger] self.groups.v@[j] == g0[j]
    decreases gn - gi
@loop 2
    invariant ri <= all@.len(), srt(all@), kpt(all@.subrange(ri as int, all@.len() as int), rows.at(), time_range), item.schema == x0.schema
    decreases ri
@at start
    let ghost go = self.groups.v@; let ghost r0 = self.range;
@at loop-start 0
    let ghost g1 = self.groups.v@;
@at after-loop 1
    proof { lemma_deleted(g0, self.groups.v@, time_range); lemma_upto(go, g0, self.groups.v@, tv@, ti - 1); assert(shas(go, 0) || !shas(go, 0)); assert forall|t: i64| #[trigger] shas(self.groups.v@, t) implies mem(self.range, t) by { assert(shas(g0, t)); } }
@end
fn main() {}
}
