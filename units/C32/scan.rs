use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include cache.inc
//@extract tskv/src/mem_cache/row_data.rs OrderedRowsData::get_ref_rows
@header impl OrderedRowsData
@subst /OrderedSkipList<RowData>/ => OrderedSkipList
@ret r
@spec
    ensures r.v@ == self.at()
@end
spec fn de(x: Option<&FieldVal>) -> Option<FieldVal> { match x { Some(v) => Some(*v), None => None } }
#[verifier::external_body] fn none_refs<'a>(n: usize) -> (r: Vec<Option<&'a FieldVal>>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] is None { unimplemented!() }
#[verifier::external_body] fn none_vals(n: usize) -> (r: Vec<Option<FieldVal>>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] is None { unimplemented!() }
#[verifier::external_body] fn fld_ref<'a>(row: &'a RowData, i: usize) -> (r: Option<&'a FieldVal>) ensures de(r) == fld(*row, i as int) { unimplemented!() }
#[verifier::external_body] fn ref_at<'a>(row: &RowDataRef<'a>, i: usize) -> (r: Option<&'a FieldVal>) ensures de(r) == (if i < row.fields@.len() { de(row.fields@[i as int]) } else { None }) { unimplemented!() }
impl<'a> Iter<'a> { #[verifier::external_body] fn clone(&self) -> (r: Iter<'a>) ensures r == *self { unimplemented!() } }
//@extract tskv/src/mem_cache/series_data.rs struct SeriesDedupMergeSortIterator
@subst /HashMap<u32, usize>/ => Ids
@subst /skiplist::Iter<'a, RowData>/ => Iter<'a>
@subst /align_fileds: Vec<TableColumn>,/ => align_fileds: Vec<TableColumn>, g: Ghost<Seq<RowGroup>>, b: Ghost<int>,
@end
spec fn pend(x: (usize, Option<&RowData>, Iter)) -> Seq<RowData> { match x.1 { Some(d) => seq![*d] + x.2.rem(), None => Seq::empty() } }
// p is what is left of s from time b on
spec fn sat(s: Seq<RowData>, p: Seq<RowData>, n: int, b: int) -> bool { 0 <= n <= s.len() && p == s.subrange(n, s.len() as int) && (forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).ts < b) && (forall|i: int| n <= i < s.len() ==> (#[trigger] s[i]).ts >= b) }
spec fn sfx(s: Seq<RowData>, p: Seq<RowData>, b: int) -> bool { exists|n: int| #[trigger] sat(s, p, n, b) }
spec fn isg(v: Seq<(Arc<TskvTableSchema>, Ids, &OrderedRowsData)>, g: Seq<RowGroup>) -> bool { v.len() == g.len() && forall|i: int| 0 <= i < g.len() ==> (#[trigger] v[i]).1.at() == g[i].schema.inner.at() && v[i].2.at() == g[i].rows.at() }
spec fn lane(x: (usize, Option<&RowData>, Iter), s: Seq<RowData>, i: int, b: int) -> bool { x.0 == i && (x.1 is None ==> x.2.rem().len() == 0) && sfx(s, pend(x), b) }
spec fn ist(it: SeriesDedupMergeSortIterator) -> bool { &&& isg(it.groups@, it.g@) &&& gok(it.g@) &&& it.vec_pq@.len() == it.g@.len() &&& forall|i: int| 0 <= i < it.g@.len() ==> lane(#[trigger] it.vec_pq@[i], it.g@[i].rows.at(), i, it.b@) }
proof fn lemma_sat0(s: Seq<RowData>) ensures sfx(s, s, i64::MIN as int) { assert(s.subrange(0, s.len() as int) =~= s); assert(sat(s, s, 0, i64::MIN as int)); }
//@extract tskv/src/mem_cache/series_data.rs SeriesDedupMergeSortIterator::new
@header impl<'a> SeriesDedupMergeSortIterator<'a>
@subst /HashMap<u32, usize>/ => Ids
@subst /align_schema: Arc<TskvTableSchema>,/ => align_schema: Arc<TskvTableSchema>, g: Ghost<Seq<RowGroup>>,
@subst /for \(idx, group\) in groups\.iter\(\)\.enumerate\(\) \{/ => let mut ix: usize = 0; while ix < groups.len() { let idx = ix; ix = ix + 1;
@subst /group\.2\.get_ref_rows\(\)\.iter\(\)/ => groups[idx].2.get_ref_rows().iter()
@subst /let data = iter\.next\(\);/ => let ghost s0 = iter.rem(); let data = iter.next();
@subst /align_schema\.fields_orderby_id\(\)/ => align_schema.as_ref().fields_orderby_id()
@subst /(\n\s*)align_fileds,(\s*\})/ => \1align_fileds, g: g, b: Ghost(i64::MIN as int),\2
@ret r
@spec
    requires isg(groups@, g@), gok(g@)
    ensures ist(r), r.g@ == g@, r.b@ == i64::MIN, places(r.align_fileds@, align_schema.inner.at())
@loop 0
    invariant ix <= groups@.len(), isg(groups@, g@), vec_pq@.len() == ix, forall|i: int| 0 <= i < ix ==> lane(#[trigger] vec_pq@[i], g@[i].rows.at(), i, i64::MIN as int)
    decreases groups@.len() - ix
@at loop-end 0
    proof { let x = vec_pq@[idx as int]; assert(s0 == g@[idx as int].rows.at()); assert(pend(x) =~= s0); lemma_sat0(s0); }
@end
// ---- one row out of the groups ----
proof fn lemma_gval_app(a: Seq<RowData>, b: Seq<RowData>, k: int, t: i64) ensures gval(a + b, k, t) == over(gval(a, k, t), gval(b, k, t)) decreases a.len() {
    let c = a + b; if a.len() == 0 { assert(c =~= b); assert(gval(a, k, t) is None); } else { let u = a.subrange(1, a.len() as int); assert(c.subrange(1, c.len() as int) =~= u + b); assert(c[0] == a[0]); lemma_gval_app(u, b, k, t); }
}
proof fn lemma_push_val(q: Seq<RowData>, r: RowData, f: int, t: i64) ensures gval(q.push(r), f, t) == over(gval(q, f, t), if r.ts == t { fld(r, f) } else { None }) {
    let one = seq![r]; assert(q.push(r) =~= q + one); lemma_gval_app(q, one, f, t); assert(one.subrange(1, one.len() as int) =~= Seq::<RowData>::empty()); assert(one[0] == r); assert(gval(Seq::<RowData>::empty(), f, t) is None);
}
proof fn lemma_sval_front(g: Seq<RowGroup>, k: int, c: u32, t: i64) requires 0 <= k < g.len() ensures sval(g.subrange(k, g.len() as int), c, t) == over(sval(g.subrange(k + 1, g.len() as int), c, t), cval(g[k], c, t)) decreases g.len() - k {
    let u = g.subrange(k, g.len() as int); let w = g.subrange(k + 1, g.len() as int); assert(u.last() == g.last());
    if k + 1 == g.len() { assert(w.len() == 0); assert(u.drop_last().len() == 0); assert(sval(u.drop_last(), c, t) is None); assert(sval(w, c, t) is None); }
    else { let h = g.drop_last(); assert(u.drop_last() =~= h.subrange(k, h.len() as int)); assert(w.drop_last() =~= h.subrange(k + 1, h.len() as int)); assert(w.last() == g.last()); assert(h[k] == g[k]); lemma_sval_front(h, k, c, t); }
}
spec fn place(v: Map<u32, usize>, c: u32) -> int { if v.dom().contains(c) { v[c] as int } else { -1 } }
proof fn lemma_minus(s: Seq<RowData>, t: i64) ensures gval(s, -1, t) is None decreases s.len() { if s.len() > 0 { lemma_minus(s.subrange(1, s.len() as int), t); } }
// what is left of a lane when the rows of one time are taken
proof fn lemma_taken(s: Seq<RowData>, p0: Seq<RowData>, m: int, b: int, t: i64) requires srt(s), sfx(s, p0, b), b <= t, 0 <= m <= p0.len(), forall|i: int| 0 <= i < p0.len() ==> (#[trigger] p0[i]).ts >= t, forall|i: int| 0 <= i < m ==> (#[trigger] p0[i]).ts == t, m < p0.len() ==> p0[m].ts != t
    ensures sfx(s, p0.subrange(m, p0.len() as int), t + 1), forall|k: int| #[trigger] gval(p0.subrange(0, m), k, t) == gval(s, k, t), rhas(s, t) <==> m > 0, forall|u: i64| b <= u < t ==> !rhas(s, u) {
    let n = choose|n: int| #[trigger] sat(s, p0, n, b); let p = p0.subrange(m, p0.len() as int); assert(p =~= s.subrange(n + m, s.len() as int));
    assert forall|i: int| 0 <= i < n + m implies (#[trigger] s[i]).ts < t + 1 by { if i >= n { assert(p0[i - n] == s[i]); } }
    assert forall|i: int| n + m <= i < s.len() implies (#[trigger] s[i]).ts >= t + 1 by { assert(p0[i - n] == s[i]); assert(p0[m] == s[n + m]); assert(s[n + m].ts <= s[i].ts); }
    assert(sat(s, p, n + m, t + 1));
    assert forall|k: int| #[trigger] gval(p0.subrange(0, m), k, t) == gval(s, k, t) by {
        lemma_skip(s, n, k, t); assert(p0 =~= p0.subrange(0, m) + p); lemma_gval_app(p0.subrange(0, m), p, k, t); assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).ts != t by { assert(p[i] == s[n + m + i]); } lemma_none(p, k, t);
    }
    if m > 0 { assert(p0[0] == s[n]); }
    if rhas(s, t) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ts == t; if m == 0 && i >= n { assert(s[i].ts >= t + 1); } }
    assert forall|u: i64| b <= u < t implies !rhas(s, u) by { if rhas(s, u) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ts == u; if i >= n { assert(p0[i - n] == s[i]); } } }
}
spec fn acc(f: Seq<Option<&FieldVal>>, base: Seq<Option<&FieldVal>>, al: Seq<TableColumn>, v: Map<u32, usize>, q: Seq<RowData>, t: i64, n: int) -> bool { f.len() == al.len() && base.len() == al.len() && forall|a: int| 0 <= a < n ==> de(#[trigger] f[a]) == over(de(base[a]), gval(q, place(v, al[a].id), t)) }
// the rows not yet taken, the least time among the first n lanes
spec fn least(v: Seq<(usize, Option<&RowData>, Iter)>, n: int, t: i64, none: bool) -> bool {
    &&& forall|i: int| 0 <= i < n && (#[trigger] v[i]).1 is Some ==> !none && t <= (v[i].1->0).ts
    &&& !none ==> exists|i: int| 0 <= i < n && (#[trigger] v[i]).1 is Some && (v[i].1->0).ts == t
}
proof fn lemma_head(it: SeriesDedupMergeSortIterator, i: int, t: i64) requires ist(it), 0 <= i < it.g@.len(), it.vec_pq@[i].1 is Some ==> t <= (it.vec_pq@[i].1->0).ts ensures ({ let p = pend(it.vec_pq@[i]); forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).ts >= t }) {
    let s = it.g@[i].rows.at(); assert(srt(s)); assert(lane(it.vec_pq@[i], s, i, it.b@)); let p = pend(it.vec_pq@[i]); let n = choose|n: int| #[trigger] sat(s, p, n, it.b@);
    assert forall|j: int| 0 <= j < p.len() implies (#[trigger] p[j]).ts >= t by { assert(p[j] == s[n + j]); assert(p[0] == s[n]); assert(s[n].ts <= s[n + j].ts); }
}
proof fn lemma_over(it: SeriesDedupMergeSortIterator, none: bool, t: i64) requires ist(it), least(it.vec_pq@, it.g@.len() as int, t, none) ensures none ==> forall|u: i64| u >= it.b@ ==> !#[trigger] shas(it.g@, u), !none ==> t >= it.b@ && shas(it.g@, t) {
    if none { assert forall|u: i64| u >= it.b@ implies !#[trigger] shas(it.g@, u) by { if shas(it.g@, u) { let i = choose|i: int| 0 <= i < it.g@.len() && rhas((#[trigger] it.g@[i]).rows.at(), u); let s = it.g@[i].rows.at(); assert(lane(it.vec_pq@[i], s, i, it.b@)); let n = choose|n: int| #[trigger] sat(s, pend(it.vec_pq@[i]), n, it.b@); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).ts == u; assert(pend(it.vec_pq@[i]).len() == 0); assert(s.subrange(n, s.len() as int).len() == 0); } } }
    else { let i = choose|i: int| 0 <= i < it.vec_pq@.len() && (#[trigger] it.vec_pq@[i]).1 is Some && (it.vec_pq@[i].1->0).ts == t; let s = it.g@[i].rows.at(); assert(lane(it.vec_pq@[i], s, i, it.b@)); let n = choose|n: int| #[trigger] sat(s, pend(it.vec_pq@[i]), n, it.b@); let p = pend(it.vec_pq@[i]); assert(p[0] == *(it.vec_pq@[i].1->0)); assert(p.len() > 0); assert(p == s.subrange(n, s.len() as int)); assert(p[0] == s[n]); assert(s[n].ts == t); assert(rhas(s, t)); }
}
// the state of the loop over the groups: from group k on they are done
spec fn mid(now: SeriesDedupMergeSortIterator, was: SeriesDedupMergeSortIterator, k: int, t: i64) -> bool {
    &&& now.g@ == was.g@ && now.groups == was.groups && now.align_fileds == was.align_fileds && now.vec_pq@.len() == was.vec_pq@.len()
    &&& forall|i: int| 0 <= i < k ==> #[trigger] now.vec_pq@[i] == was.vec_pq@[i]
    &&& forall|i: int| k <= i < now.g@.len() ==> lane(#[trigger] now.vec_pq@[i], now.g@[i].rows.at(), i, t + 1) && forall|u: i64| was.b@ <= u < t ==> !rhas(now.g@[i].rows.at(), u)
}
spec fn vals(f: Seq<Option<&FieldVal>>, al: Seq<TableColumn>, g: Seq<RowGroup>, t: i64) -> bool { f.len() == al.len() && forall|a: int| 0 <= a < al.len() ==> de(#[trigger] f[a]) == sval(g, al[a].id, t) }
spec fn nexted(a: SeriesDedupMergeSortIterator, z: SeriesDedupMergeSortIterator, x: RowDataRef) -> bool { &&& z.b@ == x.ts + 1 &&& x.ts >= a.b@ &&& shas(a.g@, x.ts) &&& vals(x.fields@, a.align_fileds@, a.g@, x.ts) &&& forall|u: i64| a.b@ <= u < x.ts ==> !#[trigger] shas(a.g@, u) }
//@extract tskv/src/mem_cache/series_data.rs Iterator for SeriesDedupMergeSortIterator::next
@header impl<'a> SeriesDedupMergeSortIterator<'a>
@subst /Option<Self::Item>/ => Option<RowDataRef<'a>>
@subst /for \(_, data, _\) in self\.vec_pq\.iter\(\) \{/ => let mut qi: usize = 0; while qi < self.vec_pq.len() { let data = self.vec_pq[qi].1; qi = qi + 1;
@subst /vec!\[None; ([^\]]*)\]/ => none_refs(\1)
@subst /for \(idx, data, it\) in self\.vec_pq\.iter_mut\(\)\.rev\(\) \{/ => let mut qj = self.vec_pq.len(); while qj > 0 { qj = qj - 1; let idx = self.vec_pq[qj].0; let mut data = self.vec_pq[qj].1; let mut it = self.vec_pq[qj].2.clone();
@subst /while let Some\(row\) = data \{/ => loop { let row = match data { Some(row) => row, None => { break; } };
@subst /for \(align_idx, col\) in self\.align_fileds\.iter\(\)\.enumerate\(\) \{/ => let ghost f0 = result.fields@; let ghost q0 = p0.subrange(0, m); let mut aj: usize = 0; while aj < self.align_fileds.len() { let align_idx = aj; aj = aj + 1; let col = &self.align_fileds[align_idx];
@subst /self\.groups\[\*idx\]/ => self.groups[idx]
@subst /if let Some\(Some\(field\)\) = row\.fields\.get\(\*index\) \{/ => if let Some(field) = fld_ref(row, *index) {
@subst /result\.fields\[align_idx\] = Some\(field\);/ => result.fields.set(align_idx, Some(field));
@subst /\*data = it\.next\(\);/ => proof { lemma_row_done(f0, result.fields@, base, self.align_fileds@, ids, q0, *row, min_ts); assert(p0.subrange(0, m + 1) =~= q0.push(*row)); m = m + 1; } let ghost r0 = it.rem(); let ghost pp = pend((idx, data, it)); data = it.next(); proof { assert(pend((idx, data, it)) =~= r0); assert(pp == p0.subrange(m - 1, p0.len() as int)); assert(pp =~= seq![*row] + r0); assert(pp.subrange(1, pp.len() as int) =~= r0); assert(pp.subrange(1, pp.len() as int) =~= p0.subrange(m, p0.len() as int)); assert(p0.subrange(m, p0.len() as int) =~= r0); }
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@spec
    requires ist(*old(self))
    ensures ist(*final(self)), final(self).g == old(self).g, final(self).align_fileds == old(self).align_fileds,
        r is None ==> final(self).b == old(self).b && forall|u: i64| u >= old(self).b@ ==> !#[trigger] shas(old(self).g@, u),
        r is Some ==> nexted(*old(self), *final(self), r->0)
@loop 0
    invariant qi <= self.vec_pq@.len(), *self == i0, least(self.vec_pq@, qi as int, min_ts, finished), finished ==> min_ts == i64::MAX
    decreases self.vec_pq@.len() - qi
@loop 1
    invariant qj <= self.vec_pq@.len(), ist(i0), gok(self.g@), mid(*self, i0, qj as int, min_ts), least(i0.vec_pq@, i0.g@.len() as int, min_ts, false), result.ts == min_ts, vals(result.fields@, self.align_fileds@, self.g@.subrange(qj as int, self.g@.len() as int), min_ts), min_ts >= i0.b@
    decreases qj
@loop 2
    invariant mid(*self, i0, qj + 1, min_ts), idx == qj, qj < self.groups@.len(), ids == self.groups@[qj as int].1.at(), base.len() == self.align_fileds@.len(), result.ts == min_ts,
        0 <= m <= p0.len(), pend((idx, data, it)) == p0.subrange(m, p0.len() as int), data is None ==> it.rem().len() == 0, forall|i: int| 0 <= i < m ==> (#[trigger] p0[i]).ts == min_ts, acc(result.fields@, base, self.align_fileds@, ids, p0.subrange(0, m), min_ts, self.align_fileds@.len() as int)
    ensures m < p0.len() ==> p0[m].ts != min_ts
@loop 3
    invariant aj <= self.align_fileds@.len(), idx == qj, qj < self.groups@.len(), ids == self.groups@[qj as int].1.at(), f0.len() == self.align_fileds@.len(), result.fields@.len() == f0.len(), result.ts == min_ts,
        forall|a: int| aj <= a < f0.len() ==> #[trigger] result.fields@[a] == f0[a], forall|a: int| 0 <= a < aj ==> de(#[trigger] result.fields@[a]) == over(de(f0[a]), fld(*row, place(ids, self.align_fileds@[a].id)))
    decreases self.align_fileds@.len() - aj
@at start
    let ghost i0 = *self;
@at after-loop 0
    proof { lemma_over(*self, finished, min_ts); }
@at before-loop 1
    proof { let gg = self.g@.subrange(self.g@.len() as int, self.g@.len() as int); assert(gg.len() == 0); assert forall|a: int| 0 <= a < self.align_fileds@.len() implies de(#[trigger] result.fields@[a]) == sval(gg, self.align_fileds@[a].id, min_ts) by { assert(sval(gg, self.align_fileds@[a].id, min_ts) is None); } }
@at before-loop 2
    let ghost p0 = pend(i0.vec_pq@[qj as int]); let ghost mut m: int = 0; let ghost base = result.fields@; let ghost ids = self.groups@[qj as int].1.at(); let ghost s = self.g@[qj as int].rows.at();
    proof { assert(lane(i0.vec_pq@[qj as int], s, qj as int, i0.b@)); assert(self.vec_pq@[qj as int] == i0.vec_pq@[qj as int]); lemma_head(i0, qj as int, min_ts); assert(p0.subrange(0, p0.len() as int) =~= p0); assert(p0.subrange(0, 0) =~= Seq::<RowData>::empty()); assert forall|k: int| #[trigger] gval(p0.subrange(0, 0), k, min_ts) is None by {} }
@at loop-start 2
    proof { if data is Some { let pq = pend((idx, data, it)); assert(pq[0] == *(data->0)); assert(pq.len() > 0); assert(pq == p0.subrange(m, p0.len() as int)); assert(p0.subrange(m, p0.len() as int)[0] == p0[m]); assert(*(data->0) == p0[m]); } else { assert(p0.subrange(m, p0.len() as int).len() == 0); } }
@at loop-end 1
    let ghost v0 = self.vec_pq@; self.vec_pq.set(qj, (idx, data, it));
    proof {
        assert(srt(s)); lemma_taken(s, p0, m, i0.b@, min_ts); assert(pend(self.vec_pq@[qj as int]) == p0.subrange(m, p0.len() as int));
        let gg = self.g@.subrange(qj as int, self.g@.len() as int);
        assert forall|a: int| 0 <= a < self.align_fileds@.len() implies de(#[trigger] result.fields@[a]) == sval(gg, self.align_fileds@[a].id, min_ts) by {
            let c = self.align_fileds@[a].id; lemma_sval_front(self.g@, qj as int, c, min_ts); assert(gval(p0.subrange(0, m), place(ids, c), min_ts) == gval(s, place(ids, c), min_ts)); if !ids.dom().contains(c) { lemma_minus(s, min_ts); }
        }
        assert forall|i: int| qj <= i < self.g@.len() implies lane(#[trigger] self.vec_pq@[i], self.g@[i].rows.at(), i, min_ts + 1) && forall|u: i64| i0.b@ <= u < min_ts ==> !rhas(self.g@[i].rows.at(), u) by {}
        assert forall|i: int| 0 <= i < qj implies #[trigger] self.vec_pq@[i] == i0.vec_pq@[i] by { assert(v0[i] == i0.vec_pq@[i]); }
        assert(mid(*self, i0, qj as int, min_ts));
    }
@at tail
    proof { self.b = Ghost(min_ts + 1); assert(self.g@.subrange(0, self.g@.len() as int) =~= self.g@); lemma_done(i0, *self, min_ts); }
@end
proof fn lemma_row_done(f0: Seq<Option<&FieldVal>>, f1: Seq<Option<&FieldVal>>, base: Seq<Option<&FieldVal>>, al: Seq<TableColumn>, v: Map<u32, usize>, q: Seq<RowData>, r: RowData, t: i64) requires acc(f0, base, al, v, q, t, al.len() as int), r.ts == t, f1.len() == al.len(), forall|a: int| 0 <= a < f0.len() ==> de(#[trigger] f1[a]) == over(de(f0[a]), fld(r, place(v, al[a].id))) ensures acc(f1, base, al, v, q.push(r), t, al.len() as int) {
    assert forall|a: int| 0 <= a < al.len() implies de(#[trigger] f1[a]) == over(de(base[a]), gval(q.push(r), place(v, al[a].id), t)) by { assert(de(f0[a]) == over(de(base[a]), gval(q, place(v, al[a].id), t))); lemma_push_val(q, r, place(v, al[a].id), t); }
}
proof fn lemma_done(a: SeriesDedupMergeSortIterator, z: SeriesDedupMergeSortIterator, t: i64) requires ist(a), z.g == a.g, z.groups == a.groups, z.vec_pq@.len() == a.vec_pq@.len(), forall|i: int| 0 <= i < z.g@.len() ==> lane(#[trigger] z.vec_pq@[i], z.g@[i].rows.at(), i, t + 1) && forall|u: i64| a.b@ <= u < t ==> !rhas(z.g@[i].rows.at(), u), z.b@ == t + 1 ensures ist(z), forall|u: i64| a.b@ <= u < t ==> !#[trigger] shas(a.g@, u) {
    assert forall|u: i64| a.b@ <= u < t implies !#[trigger] shas(a.g@, u) by { if shas(a.g@, u) { let i = choose|i: int| 0 <= i < a.g@.len() && rhas((#[trigger] a.g@[i]).rows.at(), u); assert(lane(z.vec_pq@[i], z.g@[i].rows.at(), i, t + 1)); } }
}

// ---- readers of the rows ----
struct Rows { g: Ghost<Seq<RowData>> } impl Rows { #[verifier::external_body] fn put(&mut self, r: &RowData) ensures final(self).g@ == old(self).g@.push(*r) { unimplemented!() } }
struct Times { g: Ghost<Seq<i64>> } impl Times { #[verifier::external_body] fn put(&mut self, t: i64) ensures final(self).g@ == old(self).g@.push(t) { unimplemented!() } }
spec fn newest(g: Seq<RowGroup>, s: Arc<TskvTableSchema>) -> bool { exists|j: int| newest_at(g, s, j) }
spec fn newest_at(g: Seq<RowGroup>, s: Arc<TskvTableSchema>, j: int) -> bool { 0 <= j < g.len() && g[j].schema == s && (forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).schema.inner.schema_version <= s.inner.schema_version) && (forall|i: int| j < i < g.len() ==> (#[trigger] g[i]).schema.inner.schema_version < s.inner.schema_version) }
//@extract tskv/src/mem_cache/series_data.rs SeriesData::get_schema
@header impl SeriesData
@subst /self\.groups\s*\.iter\(\)\s*\.max_by_key\(\|item\| item\.([\w.]+)\)\s*\.map\(\|item\| item\.schema\.clone\(\)\)/ => { let gn = self.groups.len(); let mut gi: usize = 0; let mut best: usize = 0; while gi < gn { let item = self.groups.at(gi); let key = item.\1; let other = self.groups.at(best); if gi == 0 || key >= other.\1 { best = gi; } gi = gi + 1; } if gn == 0 { None } else { proof { assert(newest_at(self.groups.v@, self.groups.v@[best as int].schema, best as int)); } Some(self.groups.at(best).schema.clone()) } }
@subst /(item|other)\.schema\.schema_version/ => \1.schema.as_ref().schema_version
@ret r
@spec
    ensures r is None <==> self.groups.v@.len() == 0, r is Some ==> newest(self.groups.v@, r->0)
@loop 0
    invariant gi <= gn, gn == self.groups.v@.len(), gi > 0 ==> best < gi, gi == 0 ==> best == 0, forall|i: int| 0 <= i < gi ==> (#[trigger] self.groups.v@[i]).schema.inner.schema_version <= self.groups.v@[best as int].schema.inner.schema_version, forall|i: int| best < i < gi ==> (#[trigger] self.groups.v@[i]).schema.inner.schema_version < self.groups.v@[best as int].schema.inner.schema_version
    decreases gn - gi
@end
//@extract tskv/src/mem_cache/series_data.rs SeriesData::flat_groups
@header impl SeriesData
@subst /HashMap<ColumnId, usize>/ => Ids
@subst /self\.groups\s*\.iter\(\)\s*\.map\(\|g\| \(([^|]*)\)\)\s*\.collect\(\)/ => { let gn = self.groups.len(); let mut gi: usize = 0; let mut out: Vec<(Arc<TskvTableSchema>, Ids, &OrderedRowsData)> = Vec::new(); while gi < gn { let g = self.groups.at(gi); gi = gi + 1; out.push((\1)); } out }
@subst /g\.schema\.fields_id\(\)/ => g.schema.as_ref().fields_id()
@ret r
@spec
    ensures isg(r@, self.groups.v@)
@loop 0
    invariant gi <= gn, gn == self.groups.v@.len(), out@.len() == gi, forall|i: int| 0 <= i < gi ==> (#[trigger] out@[i]).1.at() == self.groups.v@[i].schema.inner.at() && out@[i].2.at() == self.groups.v@[i].rows.at()
    decreases gn - gi
@end
// the values asked for of one row
spec fn asked(x: RowData, ids: Seq<u32>, g: Seq<RowGroup>, s: Arc<TskvTableSchema>) -> bool { x.fields@.len() == ids.len() && forall|k: int| 0 <= k < ids.len() ==> #[trigger] x.fields@[k] == (if s.inner.at().dom().contains(ids[k]) { sval(g, ids[k], x.ts) } else { None }) }
// all rows of the time ranges before time b, each once and in the order of time
spec fn got(out: Seq<RowData>, ids: Seq<u32>, g: Seq<RowGroup>, s: Arc<TskvTableSchema>, r: TimeRanges, b: int) -> bool {
    &&& forall|i: int| 0 <= i < out.len() ==> asked(#[trigger] out[i], ids, g, s) && r.has(out[i].ts) && shas(g, out[i].ts) && out[i].ts < b
    &&& forall|i: int, j: int| 0 <= i < j < out.len() ==> (#[trigger] out[i]).ts < (#[trigger] out[j]).ts
    &&& forall|t: i64| t < b && #[trigger] shas(g, t) && r.has(t) ==> rhas(out, t)
}
proof fn lemma_got(o0: Seq<RowData>, o1: Seq<RowData>, ids: Seq<u32>, g: Seq<RowGroup>, s: Arc<TskvTableSchema>, r: TimeRanges, b: int, x: RowData) requires got(o0, ids, g, s, r, b), x.ts >= b, shas(g, x.ts), forall|u: i64| b <= u < x.ts ==> !#[trigger] shas(g, u), r.has(x.ts) ==> asked(x, ids, g, s) && o1 == o0.push(x), !r.has(x.ts) ==> o1 == o0 ensures got(o1, ids, g, s, r, x.ts + 1) {
    assert forall|t: i64| t < x.ts + 1 && #[trigger] shas(g, t) && r.has(t) implies rhas(o1, t) by { if t < b { assert(rhas(o0, t)); let i = choose|i: int| 0 <= i < o0.len() && (#[trigger] o0[i]).ts == t; assert(o1[i] == o0[i]); } else { assert(t == x.ts); assert(o1[o0.len() as int] == x); } }
    assert forall|i: int| 0 <= i < o1.len() implies asked(#[trigger] o1[i], ids, g, s) && r.has(o1[i].ts) && shas(g, o1[i].ts) && o1[i].ts < x.ts + 1 by { if i < o0.len() { assert(o1[i] == o0[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < o1.len() implies (#[trigger] o1[i]).ts < (#[trigger] o1[j]).ts by { assert(o1[i] == o0[i]); if j < o0.len() { assert(o1[j] == o0[j]); } }
}
//@extract tskv/src/mem_cache/series_data.rs SeriesData::read_data
@header impl SeriesData
@subst /mut handle_data: impl FnMut\(&RowData\)/ => handle_data: &mut Rows
@subst /SeriesDedupMergeSortIterator::new\(groups, latest_schema\.clone\(\)\)/ => SeriesDedupMergeSortIterator::new(groups, latest_schema.clone(), Ghost(self.groups.v@))
@subst /let iter = / => let mut iter = 
@subst /for row_data in iter \{/ => let mut more = true; while more { let ghost i0 = iter; let ghost o0 = handle_data.g@; let nx = iter.next(); if nx.is_none() { more = false; continue; } let row_data = nx.unwrap();
@subst /if !time_ranges\.contains\(row_data\.ts\) \{\s*continue;/ => if !time_ranges.contains(row_data.ts) { proof { lemma_got(o0, o0, column_ids@, self.groups.v@, latest_schema, *time_ranges, i0.b@, RowData { ts: row_data.ts, fields: gf }); } continue;
@subst /latest_schema\.fields_id\(\)/ => latest_schema.as_ref().fields_id()
@subst /vec!\[None; ([^\]]*)\]/ => none_vals(\1)
@subst /column_ids\.iter\(\)\.enumerate\(\)\.for_each\(\|\(i, column_id\)\| \{/ => let mut ci: usize = 0; while ci < column_ids.len() { let i = ci; ci = ci + 1; let column_id = &column_ids[i];
@subst /\}\);(\s*)handle_data\(&RowData \{([^{}]*)\}\);/ => }\1let row = RowData {\2}; proof { assert(asked(row, column_ids@, self.groups.v@, latest_schema)); } handle_data.put(&row); proof { lemma_got(o0, handle_data.g@, column_ids@, self.groups.v@, latest_schema, *time_ranges, i0.b@, row); }
@subst /if let Some\(Some\(field\)\) = row_data\.fields\.get\(\*index\) \{/ => if let Some(field) = ref_at(&row_data, *index) {
@subst /fields\[i\] = Some\(\(\*field\)\.clone\(\)\);/ => fields.set(i, Some((*field).clone()));
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires sok(*self), old(handle_data).g@.len() == 0
    ensures self.groups.v@.len() == 0 ==> final(handle_data).g@.len() == 0,
        self.groups.v@.len() > 0 ==> exists|s: Arc<TskvTableSchema>| newest(self.groups.v@, s) && #[trigger] got(final(handle_data).g@, column_ids@, self.groups.v@, s, *time_ranges, i64::MAX + 1)
@loop 0
    invariant al == iter.align_fileds@, ist(iter), iter.g@ == self.groups.v@, places(iter.align_fileds@, latest_schema.inner.at()), got(handle_data.g@, column_ids@, self.groups.v@, latest_schema, *time_ranges, iter.b@), !more ==> got(handle_data.g@, column_ids@, self.groups.v@, latest_schema, *time_ranges, i64::MAX + 1)
@loop 1
    invariant ci <= column_ids@.len(), fields@.len() == column_ids@.len(), forall|k: int| ci <= k < column_ids@.len() ==> #[trigger] fields@[k] is None, places(al, latest_schema.inner.at()), vals(row_data.fields@, al, self.groups.v@, row_data.ts), field_index.at() == latest_schema.inner.at(),
        forall|k: int| 0 <= k < ci ==> #[trigger] fields@[k] == (if latest_schema.inner.at().dom().contains(column_ids@[k]) { sval(self.groups.v@, column_ids@[k], row_data.ts) } else { None })
    decreases column_ids@.len() - ci
@at before /let mut more = true;/
    proof { assert(shas(self.groups.v@, 0) || !shas(self.groups.v@, 0)); assert forall|t: i64| t < i64::MIN && #[trigger] shas(self.groups.v@, t) && time_ranges.has(t) implies rhas(handle_data.g@, t) by {} } let ghost al = iter.align_fileds@; let ghost gf: Vec<Option<FieldVal>> = arbitrary();
@end

spec fn thas(s: Seq<i64>, t: i64) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == t }
spec fn tgot(out: Seq<i64>, g: Seq<RowGroup>, r: TimeRanges, b: int) -> bool {
    &&& forall|i: int| 0 <= i < out.len() ==> r.has(#[trigger] out[i]) && shas(g, out[i]) && out[i] < b
    &&& forall|i: int, j: int| 0 <= i < j < out.len() ==> #[trigger] out[i] < #[trigger] out[j]
    &&& forall|t: i64| t < b && #[trigger] shas(g, t) && r.has(t) ==> thas(out, t)
}
proof fn lemma_tgot(o0: Seq<i64>, o1: Seq<i64>, g: Seq<RowGroup>, r: TimeRanges, b: int, x: i64) requires tgot(o0, g, r, b), x >= b, shas(g, x), forall|u: i64| b <= u < x ==> !#[trigger] shas(g, u), o1 == (if r.has(x) { o0.push(x) } else { o0 }) ensures tgot(o1, g, r, x + 1) {
    assert forall|t: i64| t < x + 1 && #[trigger] shas(g, t) && r.has(t) implies thas(o1, t) by { if t < b { assert(thas(o0, t)); let i = choose|i: int| 0 <= i < o0.len() && #[trigger] o0[i] == t; assert(o1[i] == o0[i]); } else { assert(t == x); assert(o1[o0.len() as int] == x); } }
    assert forall|i: int| 0 <= i < o1.len() implies r.has(#[trigger] o1[i]) && shas(g, o1[i]) && o1[i] < x + 1 by { if i < o0.len() { assert(o1[i] == o0[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < o1.len() implies #[trigger] o1[i] < #[trigger] o1[j] by { assert(o1[i] == o0[i]); if j < o0.len() { assert(o1[j] == o0[j]); } }
}
//@extract tskv/src/mem_cache/series_data.rs SeriesData::read_timestamps
@header impl SeriesData
@subst /mut handle_data: impl FnMut\(Timestamp\)/ => handle_data: &mut Times
@subst /SeriesDedupMergeSortIterator::new\(groups, latest_schema\.clone\(\)\)/ => SeriesDedupMergeSortIterator::new(groups, latest_schema.clone(), Ghost(self.groups.v@))
@subst /let iter = / => let mut iter = 
@subst /for row_data in iter \{/ => let mut more = true; while more { let ghost i0 = iter; let ghost o0 = handle_data.g@; let nx = iter.next(); if nx.is_none() { more = false; continue; } let row_data = nx.unwrap();
@subst /handle_data\(row_data\.ts\);/ => handle_data.put(row_data.ts);
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires sok(*self), old(handle_data).g@.len() == 0
    ensures tgot(final(handle_data).g@, self.groups.v@, *time_ranges, i64::MAX + 1)
@loop 0
    invariant ist(iter), iter.g@ == self.groups.v@, tgot(handle_data.g@, self.groups.v@, *time_ranges, iter.b@), !more ==> tgot(handle_data.g@, self.groups.v@, *time_ranges, i64::MAX + 1)
@at before /let mut more = true;/
    proof { assert forall|t: i64| t < i64::MIN && #[trigger] shas(self.groups.v@, t) && time_ranges.has(t) implies thas(handle_data.g@, t) by {} }
@at loop-end 0
    proof { lemma_tgot(o0, handle_data.g@, self.groups.v@, *time_ranges, i0.b@, row_data.ts); }
@end
// ---- flush ----
struct MutableColumnRef { id: u32, times: Ghost<Seq<i64>>, vals: Ghost<Seq<Option<FieldVal>>> }
impl MutableColumnRef {
    #[verifier::external_body] fn empty(c: TableColumn) -> (r: TskvResult<MutableColumnRef>) ensures r is Ok ==> r->Ok_0.id == c.id && r->Ok_0.times@.len() == 0 && r->Ok_0.vals@.len() == 0 { unimplemented!() }
    #[verifier::external_body] fn push_ts(&mut self, t: i64) -> (r: TskvResult<()>) ensures r is Ok ==> final(self).times@ == old(self).times@.push(t) && final(self).vals == old(self).vals && final(self).id == old(self).id { unimplemented!() }
    #[verifier::external_body] fn push(&mut self, v: Option<&FieldVal>) -> (r: TskvResult<()>) ensures r is Ok ==> final(self).vals@ == old(self).vals@.push(de(v)) && final(self).times == old(self).times && final(self).id == old(self).id { unimplemented!() }
    #[verifier::external_body] fn rows(&self) -> (r: usize) ensures r == self.times@.len() { unimplemented!() }
    #[verifier::external_body] fn rows_set(&self) -> usize { unimplemented!() }
}
#[verifier::external_body] fn col_mut(v: &mut Vec<MutableColumnRef>, i: usize) -> (r: &mut MutableColumnRef) requires i < old(v).len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)), final(v).len() == old(v).len() { unimplemented!() }
#[verifier::external_body] fn invalid_time() -> TskvError { unimplemented!() }
struct Page { id: u32, times: Ghost<Seq<i64>>, vals: Ghost<Seq<Option<FieldVal>>> }
spec fn pg(c: MutableColumnRef, p: Page) -> bool { p.id == c.id && p.times == c.times && p.vals == c.vals }
#[verifier::external_body] fn page_of(c: MutableColumnRef) -> (r: TskvResult<Page>) ensures r is Ok ==> pg(c, r->Ok_0) { unimplemented!() }
spec fn every(t: Seq<i64>, g: Seq<RowGroup>, b: int) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> shas(g, #[trigger] t[i]) && t[i] < b
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i] < #[trigger] t[j]
    &&& forall|u: i64| u < b && #[trigger] shas(g, u) ==> thas(t, u)
}
spec fn column(v: Seq<Option<FieldVal>>, t: Seq<i64>, n: int, g: Seq<RowGroup>, c: u32) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] v[i] == sval(g, c, t[i]) }
spec fn cols(v: Seq<MutableColumnRef>, f: Seq<TableColumn>, t: Seq<i64>, g: Seq<RowGroup>) -> bool { v.len() == f.len() && forall|k: int| 0 <= k < f.len() ==> (#[trigger] v[k]).id == f[k].id && column(v[k].vals@, t, t.len() as int, g, f[k].id) }
spec fn flushed(p: Seq<Page>, s: Arc<TskvTableSchema>, g: Seq<RowGroup>, f: Seq<TableColumn>) -> bool {
    &&& newest(g, s) && places(f, s.inner.at())
    &&& p.len() == 0 ==> forall|t: i64| !#[trigger] shas(g, t)
    &&& p.len() > 0 ==> p.len() == f.len() + 1 && every(p[0].times@, g, i64::MAX + 1) && forall|j: int| 1 <= j < p.len() ==> (#[trigger] p[j]).id == f[j - 1].id && column(p[j].vals@, p[0].times@, p[0].times@.len() as int, g, f[j - 1].id)
}
spec fn flushes(p: Seq<Page>, s: Arc<TskvTableSchema>, g: Seq<RowGroup>) -> bool { exists|f: Seq<TableColumn>| #[trigger] flushed(p, s, g, f) }
proof fn lemma_every(t0: Seq<i64>, g: Seq<RowGroup>, b: int, x: i64) requires every(t0, g, b), x >= b, shas(g, x), forall|u: i64| b <= u < x ==> !#[trigger] shas(g, u) ensures every(t0.push(x), g, x + 1) {
    let t1 = t0.push(x);
    assert forall|u: i64| u < x + 1 && #[trigger] shas(g, u) implies thas(t1, u) by { if u < b { assert(thas(t0, u)); let i = choose|i: int| 0 <= i < t0.len() && #[trigger] t0[i] == u; assert(t1[i] == t0[i]); } else { assert(u == x); assert(t1[t0.len() as int] == x); } }
    assert forall|i: int| 0 <= i < t1.len() implies shas(g, #[trigger] t1[i]) && t1[i] < x + 1 by { if i < t0.len() { assert(t1[i] == t0[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < t1.len() implies #[trigger] t1[i] < #[trigger] t1[j] by { assert(t1[i] == t0[i]); if j < t0.len() { assert(t1[j] == t0[j]); } }
}
proof fn lemma_cols(v0: Seq<MutableColumnRef>, v1: Seq<MutableColumnRef>, f: Seq<TableColumn>, t0: Seq<i64>, x: i64, g: Seq<RowGroup>, w: Seq<Option<&FieldVal>>) requires cols(v0, f, t0, g), v1.len() == v0.len(), vals(w, f, g, x), forall|k: int| 0 <= k < f.len() ==> (#[trigger] v1[k]).id == v0[k].id && v1[k].vals@ == v0[k].vals@.push(de(w[k])) ensures cols(v1, f, t0.push(x), g) {
    let t1 = t0.push(x);
    assert forall|k: int| 0 <= k < f.len() implies (#[trigger] v1[k]).id == f[k].id && column(v1[k].vals@, t1, t1.len() as int, g, f[k].id) by {
        assert(v0[k].id == f[k].id && column(v0[k].vals@, t0, t0.len() as int, g, f[k].id)); let a = v1[k].vals@; let b = v0[k].vals@;
        assert forall|i: int| 0 <= i < t1.len() implies #[trigger] a[i] == sval(g, f[k].id, t1[i]) by { if i < t0.len() { assert(a[i] == b[i]); assert(b[i] == sval(g, f[k].id, t0[i])); } }
    }
}
//@extract tskv/src/mem_cache/series_data.rs SeriesData::convert_to_page
@header impl SeriesData
@subst /Vec<page::Page>/ => Vec<Page>
@subst /latest_schema\.(time_column|fields_orderby_id)\(\)/ => latest_schema.as_ref().\1()
@subst /fields_schema\s*\.iter\(\)\s*\.map\(\|col\| ([^|]*)\)\s*\.collect::<TskvResult<Vec<_>>>\(\)\?/ => { let mut out: Vec<MutableColumnRef> = Vec::new(); let mut fi: usize = 0; while fi < fields_schema.len() { let col = &fields_schema[fi]; fi = fi + 1; let one = \1?; out.push(one); } out }
@subst /SeriesDedupMergeSortIterator::new\(self\.flat_groups\(\), latest_schema\.clone\(\)\)/ => SeriesDedupMergeSortIterator::new(self.flat_groups(), latest_schema.clone(), Ghost(self.groups.v@))
@subst /let iter = / => let mut iter = 
@subst /for row_data in iter \{/ => let mut more = true; while more { let ghost i0 = iter; let ghost t0 = time_array.times@; let ghost v0 = fields_array@; let nx = iter.next(); if nx.is_none() { more = false; continue; } let row_data = nx.unwrap();
@subst /for \(idx, field\) in row_data\.fields\.iter\(\)\.enumerate\(\) \{/ => let mut ki: usize = 0; while ki < row_data.fields.len() { let idx = ki; ki = ki + 1; let field = &row_data.fields[idx];
@subst /fields_array\[idx\]\.push\(/ => col_mut(&mut fields_array, idx).push(
@subst /time_array\s*\.column_data\s*\.valid\s*\.finish_cloned\(\)\s*\.count_set_bits\(\)/ => time_array.rows_set()
@subst /time_array\.column_data\.valid\.len\(\)/ => time_array.rows()
@subst /!time_array\.column_data\.valid\.is_empty\(\)/ => time_array.rows() != 0
@subst /CommonSnafu \{[^{}]*\}\s*\.build\(\)/ => invalid_time()
@subst /vec!\[\]/ => Vec::<Page>::new()
@subst /page::Page::colref_to_page\(/ => page_of(
@attr #[verifier::exec_allows_no_decreases_clause]
@iter 3 it
@ret r
@spec
    requires sok(*self)
    ensures r is Ok && r->Ok_0 is None ==> self.groups.v@.len() == 0, r is Ok && r->Ok_0 is Some ==> flushes((r->Ok_0->0).1@, (r->Ok_0->0).0, self.groups.v@)
@loop 0
    invariant fi <= fields_schema@.len(), out@.len() == fi, forall|k: int| 0 <= k < fi ==> (#[trigger] out@[k]).id == fields_schema@[k].id && out@[k].vals@.len() == 0
    decreases fields_schema@.len() - fi
@loop 1
    invariant ist(iter), iter.g@ == self.groups.v@, iter.align_fileds@ == al, places(fields_schema@, latest_schema.inner.at()), places(al, latest_schema.inner.at()), al.len() == fields_schema@.len(), forall|k: int| 0 <= k < al.len() ==> (#[trigger] al[k]).id == fields_schema@[k].id,
        every(time_array.times@, self.groups.v@, iter.b@), cols(fields_array@, al, time_array.times@, self.groups.v@), !more ==> every(time_array.times@, self.groups.v@, i64::MAX + 1)
@loop 2
    invariant ki <= row_data.fields@.len(), row_data.fields@.len() == al.len(), fields_array@.len() == al.len(), v0.len() == al.len(), forall|k: int| 0 <= k < ki ==> (#[trigger] fields_array@[k]).id == v0[k].id && fields_array@[k].vals@ == v0[k].vals@.push(de(row_data.fields@[k])), forall|k: int| ki <= k < al.len() ==> #[trigger] fields_array@[k] == v0[k]
    decreases row_data.fields@.len() - ki
@loop 3
    invariant it.seq() == fa, ts.len() > 0, pages_data@.len() == it.index@ + 1, pages_data@[0].times@ == ts, forall|j: int| 1 <= j <= it.index@ ==> pg(fa[j - 1], #[trigger] pages_data@[j])
@at before /let mut more = true;/
    proof { let al = iter.align_fileds@; let f = fields_schema@; lemma_places(al, f, latest_schema.inner.at()); assert forall|u: i64| u < i64::MIN && #[trigger] shas(self.groups.v@, u) implies thas(time_array.times@, u) by {} } let ghost al = iter.align_fileds@;
@at loop-end 1
    proof { lemma_every(t0, self.groups.v@, i0.b@, row_data.ts); lemma_cols(v0, fields_array@, al, t0, row_data.ts, self.groups.v@, row_data.fields@); }
@at after-loop 1
    let ghost fa = fields_array@; let ghost ts = time_array.times@;
    proof { if ts.len() == 0 { assert forall|t: i64| !#[trigger] shas(self.groups.v@, t) by { if shas(self.groups.v@, t) { assert(thas(ts, t)); } } } }
@at after-loop 3
    proof { assert(pages_data@.len() == fa.len() + 1); }
@at before /Ok\(Some\(\(latest_schema/
    proof {
        let p = pages_data@;
        assert(newest(self.groups.v@, latest_schema)); assert(places(al, latest_schema.inner.at())); assert(cols(fa, al, ts, self.groups.v@)); assert(every(ts, self.groups.v@, i64::MAX + 1));
        if p.len() > 0 {
            assert(p[0].times@ == ts);
            assert forall|j: int| 1 <= j < p.len() implies (#[trigger] p[j]).id == al[j - 1].id && column(p[j].vals@, ts, ts.len() as int, self.groups.v@, al[j - 1].id) by { assert(pg(fa[j - 1], p[j])); assert(fa[j - 1].id == al[j - 1].id); }
        }
        assert(flushed(p, latest_schema, self.groups.v@, al));
    }
@end
proof fn lemma_places(a: Seq<TableColumn>, f: Seq<TableColumn>, m: Map<u32, usize>) requires places(a, m), places(f, m) ensures a.len() == f.len(), forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).id == f[k].id {
    assert forall|k: int| 0 <= k < a.len() implies k < f.len() && (#[trigger] a[k]).id == f[k].id by { assert(m.dom().contains(a[k].id)); }
    if a.len() > f.len() { assert(m.dom().contains(a[a.len() - 1].id)); } if f.len() > a.len() { assert(m.dom().contains(f[f.len() - 1].id)); }
}
fn main() {}
}
