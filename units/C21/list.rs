use vstd::prelude::*;
verus! {
global size_of usize == 8;
type B = Seq<u8>;
type S = Set<u32>;
struct IndexError {}
type IndexResult<T> = std::result::Result<T, IndexError>;
/// a series: its table and its tags (the id of the column, the value)
struct Series { table: B, tags: Seq<(B, B)> }
type Live = Map<u32, Series>;
spec fn table_ok(t: B) -> bool { !t.contains(61u8) } // no '='
spec fn tag_ok(k: B) -> bool { !k.contains(61u8) && !k.contains(46u8) } // neither '=' nor '.'
/// the entries of the inverted index that a series has: one for each of its tags, or one without name and value
spec fn entry(s: Series, t: B, k: B, v: B) -> bool { s.table == t && (s.tags.contains((k, v)) || s.tags.len() == 0 && k.len() == 0 && v.len() == 0) }
spec fn series_ok(s: Series) -> bool { table_ok(s.table) && forall|i: int| 0 <= i < s.tags.len() ==> tag_ok((#[trigger] s.tags[i]).0) }
/// a series is of the table and has all of the tags
spec fn wanted(s: Series, t: B, tags: Seq<(B, B)>) -> bool { s.table == t && forall|i: int| 0 <= i < tags.len() ==> s.tags.contains(#[trigger] tags[i]) }
// ---- bytes ----
#[verifier::external_body] fn text(a: &Vec<u8>) -> (r: &[u8]) ensures r@ == a@ { a.as_slice() }
struct It { s: Ghost<B> }
#[verifier::external_body] fn bytes(a: &[u8]) -> (r: It) ensures r.s@ == a@ { unimplemented!() }
impl It {
    #[verifier::external_body] fn chain(self, o: &[u8]) -> (r: It) ensures r.s@ == self.s@ + o@ { unimplemented!() }
    #[verifier::external_body] fn cloned(self) -> (r: It) ensures r.s@ == self.s@ { unimplemented!() }
    #[verifier::external_body] fn collect(self) -> (r: Vec<u8>) ensures r@ == self.s@ { unimplemented!() }
}
#[verifier::external_body] fn one(c: u8) -> (r: &'static [u8]) ensures r@ == seq![c] { unimplemented!() }
#[verifier::external_body] fn format_dot(t: &[u8]) -> (r: Vec<u8>) ensures r@ == t@ + seq![46u8] { unimplemented!() }
#[verifier::external_body] fn from(a: &Vec<u8>, i: usize) -> (r: &[u8]) requires i <= a@.len() ensures r@ == a@.skip(i as int) { &a[i..] }
// ---- keys ----
spec fn inv(t: B, k: B, v: B) -> B { t + seq![46u8] + k + seq![61u8] + v }
//@extract tskv/src/index/ts_index.rs fn encode_inverted_index_key
@subst /tab: &str/ => tab: &[u8]
@subst /tab\.as_bytes\(\)\s*\.iter\(\)/ => bytes(tab)
@subst /"\."\.as_bytes\(\)/ => one(46)
@subst /"="\.as_bytes\(\)/ => one(61)
@ret r
@spec
    ensures r@ == inv(tab@, tag_key@, tag_val@)
@end
//@extract tskv/src/index/ts_index.rs fn encode_inverted_min_index_key
@subst /tab: &str/ => tab: &[u8]
@subst /tab\.as_bytes\(\)\s*\.iter\(\)/ => bytes(tab)
@subst /"\."\.as_bytes\(\)/ => one(46)
@subst /"<"\.as_bytes\(\)/ => one(60)
@ret r
@spec
    ensures r@ == tab@ + seq![46u8] + tag_key@ + seq![60u8]
@end
//@extract tskv/src/index/ts_index.rs fn encode_inverted_max_index_key
@subst /tab: &str/ => tab: &[u8]
@subst /tab\.as_bytes\(\)\s*\.iter\(\)/ => bytes(tab)
@subst /"\."\.as_bytes\(\)/ => one(46)
@subst /">"\.as_bytes\(\)/ => one(62)
@ret r
@spec
    ensures r@ == tab@ + seq![46u8] + tag_key@ + seq![62u8]
@end
/// of '.' and '=', the one that comes first is '='
spec fn named(s: B) -> bool { exists|i: int| eq_at(s, i) }
spec fn eq_at(s: B, i: int) -> bool { 0 <= i < s.len() && s[i] == 61 && forall|j: int| 0 <= j < i ==> s[j] != 46 && s[j] != 61 }
fn first_is(s: &[u8], a: u8, b: u8, c: u8) -> (r: bool)
    ensures r == (exists|i: int| #[trigger] first_at(s@, a, b, c, i))
{
    let mut i = 0usize;
    while i < s.len()
        invariant i <= s.len(), forall|j: int| 0 <= j < i ==> s@[j] != a && s@[j] != b
        decreases s.len() - i
    {
        if s[i] == a || s[i] == b {
            proof { if s@[i as int] == c { assert(first_at(s@, a, b, c, i as int)); } else { assert forall|j: int| !#[trigger] first_at(s@, a, b, c, j) by { if first_at(s@, a, b, c, j) { if j < i { } else if j > i { assert(s@[i as int] != a); } } } } }
            return s[i] == c;
        }
        i = i + 1;
    }
    false
}
spec fn first_at(s: B, a: u8, b: u8, c: u8, i: int) -> bool { 0 <= i < s.len() && (s[i] == a || s[i] == b) && s[i] == c && forall|j: int| 0 <= j < i ==> s[j] != a && s[j] != b }
//@extract tskv/src/index/engine2.rs fn is_tag_and_value
@subst /key\.iter\(\)\.find\(\|b\| matches!\(b, (b'.') \| (b'.')\)\) == Some\(&(b'.')\)/ => first_is(key, \1, \2, \3)
@ret r
@spec
    ensures r == named(key@)
@at start
    proof { assert forall|i: int| eq_at(key@, i) == #[trigger] first_at(key@, 46, 61, 61, i) by {} if named(key@) { let i = choose|i: int| eq_at(key@, i); assert(first_at(key@, 46, 61, 61, i)); } if exists|i: int| first_at(key@, 46, 61, 61, i) { let i = choose|i: int| first_at(key@, 46, 61, 61, i); assert(eq_at(key@, i)); } }
@end
spec fn under(key: B, t: B) -> bool { key.len() > t.len() && key.take(t.len() as int + 1) == t + seq![46u8] && named(key.skip(t.len() as int + 1)) }
/// of the entries, those under the name of a table, a dot and then a tag are those of that table
proof fn lemma_under(t: B, t2: B, k: B, v: B) requires table_ok(t), table_ok(t2), tag_ok(k) ensures under(inv(t2, k, v), t) == (t == t2)
{
    let key = inv(t2, k, v); let n = t.len() as int; let p: int = t2.len() as int + 1 + k.len() as int; // where its first '=' is
    assert(key[p] == 61); assert(key[t2.len() as int] == 46);
    assert forall|j: int| 0 <= j < p implies key[j] != 61 by { if j < t2.len() { assert(key[j] == t2[j]); assert(t2.contains(t2[j])); } else if j > t2.len() { assert(key[j] == k[j - t2.len() - 1]); assert(k.contains(k[j - t2.len() - 1])); } }
    assert forall|j: int| t2.len() < j < p implies key[j] != 46 by { assert(key[j] == k[j - t2.len() - 1]); assert(k.contains(k[j - t2.len() - 1])); }
    if t == t2 {
        assert(key.take(n + 1) =~= t + seq![46u8]); assert(eq_at(key.skip(n + 1), p - n - 1));
    } else if under(key, t) {
        let h = key.take(n + 1); assert(h[n] == 46 && h[n] == key[n]); assert forall|j: int| 0 <= j < n implies key[j] == t[j] by { assert(h[j] == (t + seq![46u8])[j]); }
        if n >= p { if n > p { assert(key[p] == t[p]); assert(t.contains(t[p])); } assert(false); }
        if n > t2.len() { assert(false); }
        if n == t2.len() { assert(t =~= t2) by { assert forall|j: int| 0 <= j < n implies t[j] == t2[j] by { assert(key[j] == t2[j]); } } assert(false); }
        let r = key.skip(n + 1); let i = choose|i: int| eq_at(r, i); assert(r[i] == key[n + 1 + i]); assert(n + 1 + i >= p); assert(r[t2.len() - n - 1] == 46); assert(false);
    }
}
/// no two entries have one key
proof fn lemma_inv(t: B, k: B, v: B, t2: B, k2: B, v2: B) requires table_ok(t), table_ok(t2), tag_ok(k), tag_ok(k2), inv(t, k, v) == inv(t2, k2, v2) ensures t == t2, k == k2, v == v2
{
    lemma_under(t, t, k, v); lemma_under(t, t2, k2, v2); assert(t == t2);
    let a = inv(t, k, v); let n = t.len() as int + 1; let r = a.skip(n); assert(r =~= k + seq![61u8] + v); assert(r =~= k2 + seq![61u8] + v2);
    if k.len() < k2.len() { assert(r[k.len() as int] == 61); assert(k2[k.len() as int] == r[k.len() as int]); assert(k2.contains(61u8)); }
    if k2.len() < k.len() { assert(r[k2.len() as int] == 61); assert(k[k2.len() as int] == r[k2.len() as int]); assert(k.contains(61u8)); }
    assert(k =~= r.take(k.len() as int)); assert(k2 =~= r.take(k.len() as int)); assert(v =~= r.skip(k.len() as int + 1)); assert(v2 =~= r.skip(k.len() as int + 1));
}
// ---- sets of ids ----
struct Rb { s: Ghost<S> }
trait Bits { spec fn ids(&self) -> S; }
impl Bits for Rb { spec fn ids(&self) -> S { self.s@ } }
impl Bits for &Rb { spec fn ids(&self) -> S { (**self).s@ } }
impl Rb {
    #[verifier::external_body] fn new() -> (r: Rb) ensures r.s@ == S::empty() { unimplemented!() }
    #[verifier::external_body] fn bitor<T: Bits>(self, o: T) -> (r: Rb) ensures r.s@ == self.s@.union(o.ids()) { unimplemented!() }
    #[verifier::external_body] fn bitand<T: Bits>(self, o: T) -> (r: Rb) ensures r.s@ == self.s@.intersect(o.ids()) { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Rb) ensures r.s@ == self.s@ { unimplemented!() }
}
#[verifier::external_body] fn or_empty(o: Option<Rb>) -> (r: Rb) ensures r.s@ == (match o { Some(b) => b.s@, None => S::empty() }) { unimplemented!() }
#[verifier::external_body] fn decode(b: &Raw) -> (r: IndexResult<Rb>) ensures r matches Ok(x) ==> x.s@ == b.s@ { unimplemented!() }
struct Raw { s: Ghost<S> }
struct Tag { key: Vec<u8>, value: Vec<u8> }
spec fn pairs(t: Seq<Tag>) -> Seq<(B, B)> { t.map_values(|x: Tag| (x.key@, x.value@)) }
// ---- the entries that are flushed ----
struct IndexEngine2 { inverted: Ghost<Map<B, S>> }
spec fn at(m: Map<B, S>, key: B, id: u32) -> bool { m.dom().contains(key) && m[key].contains(id) }
spec fn listed(m: Map<B, S>, t: B, tags: Seq<(B, B)>, id: u32) -> bool { if tags.len() == 0 { exists|key: B| under(key, t) && #[trigger] at(m, key, id) } else { forall|i: int| 0 <= i < tags.len() ==> at(m, inv(t, (#[trigger] tags[i]).0, tags[i].1), id) } }
impl IndexEngine2 {
    #[verifier::external_body] fn get_rb(&self, key: &[u8]) -> (r: IndexResult<Option<Rb>>) ensures r matches Ok(o) ==> (match o { Some(b) => self.inverted@.dom().contains(key@) && b.s@ == self.inverted@[key@], None => !self.inverted@.dom().contains(key@) }) { unimplemented!() }
    #[verifier::external_body] fn prefix_iter(&self, p: &[u8]) -> (r: IndexResult<Vec<(Vec<u8>, Raw)>>) ensures r matches Ok(v) ==> (forall|i: int| 0 <= i < v@.len() ==> starts((#[trigger] v@[i]).0@, p@) && self.inverted@.dom().contains(v@[i].0@) && self.inverted@[v@[i].0@] == v@[i].1.s@) && (forall|k: B| self.inverted@.dom().contains(k) && #[trigger] starts(k, p@) ==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).0@ == k) { unimplemented!() }
}
spec fn starts(k: B, p: B) -> bool { k.len() >= p.len() && k.take(p.len() as int) == p }
spec fn seen(v: Seq<(Vec<u8>, Raw)>, n: int, t: B, id: u32) -> bool { exists|i: int| 0 <= i < n && under((#[trigger] v[i]).0@, t) && v[i].1.s@.contains(id) }
//@extract tskv/src/index/engine2.rs IndexEngine2::get_series_id_by_tags
@subst /tab: &str/ => tab: &[u8]
@subst /&\[models::Tag\]/ => &[Tag]
@subst /roaring::RoaringBitmap/ => Rb
@subst /RoaringBitmap::deserialize_from\(val\.1\)\.context\(RoaringBitmapSnafu\)\?/ => decode(&val.1)?
@subst /RoaringBitmap/ => Rb
@subst /let reader = self\.reader_txn\(\)\?;/ => 
@subst /format!\("\{\}\.", tab\)/ => format_dot(tab)
@subst /self\s*\.db\s*\.prefix_iter\(&reader, prefix\.as_bytes\(\)\)\s*\.map_err\(\|e\| IndexStorageSnafu \{ msg: e\.to_string\(\) \}\.build\(\)\)\?/ => self.prefix_iter(text(&prefix))?
@subst /for val in it \{/ => let mut ti = 0usize; while ti < it.len() { let val = &it[ti]; ti = ti + 1;
@subst /let val = val\.map_err\(\|e\| IndexStorageSnafu \{ msg: e\.to_string\(\) \}\.build\(\)\)\?;/ => 
@subst /&val\.0\[prefix\.len\(\)\.\.\]/ => from(&val.0, prefix.len())
@subst /super::ts_index::/ => 
@subst /self\.get_rb\(&key\)/ => self.get_rb(text(&key))
@subst /&tags\[0\]\.key, &tags\[0\]\.value/ => text(&tags[0].key), text(&tags[0].value)
@subst /&tag\.key, &tag\.value/ => text(&tag.key), text(&tag.value)
@subst /for tag in &tags\[(\d+)\.\.\] \{/ => let mut tj: usize = \1; while tj < tags.len() { let tag = &tags[tj]; tj = tj + 1;
@ret r
@spec
    ensures r matches Ok(b) ==> forall|id: u32| #[trigger] b.s@.contains(id) == listed(self.inverted@, tab@, pairs(tags@), id)
@loop 0
    invariant ti <= it@.len(), prefix@ == tab@ + seq![46u8],
        forall|i: int| 0 <= i < it@.len() ==> starts((#[trigger] it@[i]).0@, prefix@) && self.inverted@.dom().contains(it@[i].0@) && self.inverted@[it@[i].0@] == it@[i].1.s@,
        forall|k: B| self.inverted@.dom().contains(k) && #[trigger] starts(k, prefix@) ==> exists|i: int| 0 <= i < it@.len() && (#[trigger] it@[i]).0@ == k,
        forall|id: u32| #[trigger] bitmap.s@.contains(id) == seen(it@, ti as int, tab@, id),
    decreases it@.len() - ti
@loop 1
    invariant 1 <= tj <= tags@.len(),
        forall|id: u32| #[trigger] bitmap.s@.contains(id) == (forall|i: int| 0 <= i < tj ==> at(self.inverted@, inv(tab@, (#[trigger] pairs(tags@)[i]).0, pairs(tags@)[i].1), id)),
    decreases tags@.len() - tj
@at after /ti = ti \+ 1;/
    proof { lemma_seen(it@, ti as int, tab@); assert(starts(it@[ti - 1].0@, prefix@)); assert(it@[ti - 1].0@.take(prefix@.len() as int) == prefix@); }
@at after /tj = tj \+ 1;/
    assert(pairs(tags@)[tj - 1] == (tag.key@, tag.value@));
@at before /let mut tj: usize/
    proof { assert(pairs(tags@)[0] == (tags@[0].key@, tags@[0].value@)); }
@at before-loop 0
    proof { lemma_seen(it@, 0, tab@); }
@at after-loop 0
    proof {
        assert forall|id: u32| #[trigger] bitmap.s@.contains(id) == listed(self.inverted@, tab@, pairs(tags@), id) by {
            if seen(it@, it@.len() as int, tab@, id) { let i = choose|i: int| 0 <= i < it@.len() && under((#[trigger] it@[i]).0@, tab@) && it@[i].1.s@.contains(id); assert(at(self.inverted@, it@[i].0@, id)); }
            if listed(self.inverted@, tab@, pairs(tags@), id) { let k = choose|k: B| under(k, tab@) && #[trigger] at(self.inverted@, k, id); assert(starts(k, prefix@)); }
        }
    }
@end
proof fn lemma_seen(v: Seq<(Vec<u8>, Raw)>, n: int, t: B) requires 0 <= n <= v.len() ensures n == 0 ==> forall|id: u32| !#[trigger] seen(v, 0, t, id), n > 0 ==> forall|id: u32| #[trigger] seen(v, n, t, id) == (seen(v, n - 1, t, id) || under(v[n - 1].0@, t) && v[n - 1].1.s@.contains(id))
{ if n > 0 { assert forall|id: u32| #[trigger] seen(v, n, t, id) == (seen(v, n - 1, t, id) || under(v[n - 1].0@, t) && v[n - 1].1.s@.contains(id)) by {
    if seen(v, n, t, id) { let i = choose|i: int| 0 <= i < n && under((#[trigger] v[i]).0@, t) && v[i].1.s@.contains(id); if i < n - 1 { assert(seen(v, n - 1, t, id)); } }
    if seen(v, n - 1, t, id) { let i = choose|i: int| 0 <= i < n - 1 && under((#[trigger] v[i]).0@, t) && v[i].1.s@.contains(id); assert(seen(v, n, t, id)); }
    if under(v[n - 1].0@, t) && v[n - 1].1.s@.contains(id) { assert(seen(v, n, t, id)); } } } }
// ---- the entries that are not flushed yet ----
struct IndexMemCache { inverted: Ghost<Map<(B, B, B), S>> }
spec fn mat(m: Map<(B, B, B), S>, t: B, k: B, v: B, id: u32) -> bool { m.dom().contains((t, k, v)) && m[(t, k, v)].contains(id) }
spec fn mlisted(m: Map<(B, B, B), S>, t: B, tags: Seq<(B, B)>, id: u32) -> bool { if tags.len() == 0 { exists|k: B, v: B| #[trigger] mat(m, t, k, v, id) } else { forall|i: int| 0 <= i < tags.len() ==> mat(m, t, (#[trigger] tags[i]).0, tags[i].1, id) } }
type Vals = Vec<(Vec<u8>, Rb)>;
spec fn in_vals(v: Seq<(Vec<u8>, Rb)>, n: int, id: u32) -> bool { exists|i: int| 0 <= i < n && (#[trigger] v[i]).1.s@.contains(id) }
spec fn in_item(w: Seq<(Vec<u8>, Vals)>, n: int, id: u32) -> bool { exists|i: int| 0 <= i < n && in_vals((#[trigger] w[i]).1@, w[i].1@.len() as int, id) }
proof fn lemma_vals(v: Seq<(Vec<u8>, Rb)>, n: int) requires 0 < n <= v.len() ensures forall|id: u32| #[trigger] in_vals(v, n, id) == (in_vals(v, n - 1, id) || v[n - 1].1.s@.contains(id))
{ assert forall|id: u32| #[trigger] in_vals(v, n, id) == (in_vals(v, n - 1, id) || v[n - 1].1.s@.contains(id)) by { if in_vals(v, n - 1, id) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] v[i]).1.s@.contains(id); assert(in_vals(v, n, id)); } if v[n - 1].1.s@.contains(id) { assert(in_vals(v, n, id)); } if in_vals(v, n, id) { let i = choose|i: int| 0 <= i < n && (#[trigger] v[i]).1.s@.contains(id); if i < n - 1 { assert(in_vals(v, n - 1, id)); } } } }
proof fn lemma_item(w: Seq<(Vec<u8>, Vals)>, n: int) requires 0 < n <= w.len() ensures forall|id: u32| #[trigger] in_item(w, n, id) == (in_item(w, n - 1, id) || in_vals(w[n - 1].1@, w[n - 1].1@.len() as int, id))
{ let l = w[n - 1].1@.len() as int; assert forall|id: u32| #[trigger] in_item(w, n, id) == (in_item(w, n - 1, id) || in_vals(w[n - 1].1@, l, id)) by { if in_item(w, n - 1, id) { let i = choose|i: int| 0 <= i < n - 1 && in_vals((#[trigger] w[i]).1@, w[i].1@.len() as int, id); assert(in_item(w, n, id)); } if in_vals(w[n - 1].1@, l, id) { assert(in_item(w, n, id)); } if in_item(w, n, id) { let i = choose|i: int| 0 <= i < n && in_vals((#[trigger] w[i]).1@, w[i].1@.len() as int, id); if i < n - 1 { assert(in_item(w, n - 1, id)); } } } }
impl IndexMemCache {
    #[verifier::external_body] fn lookup(&self, t: &[u8], k: &Vec<u8>, v: &Vec<u8>) -> (r: Option<&Rb>) ensures match r { Some(b) => self.inverted@.dom().contains((t@, k@, v@)) && b.s@ == self.inverted@[(t@, k@, v@)], None => !self.inverted@.dom().contains((t@, k@, v@)) } { unimplemented!() }
    /// the values of each tag of a table
    #[verifier::external_body] fn of_table(&self, t: &[u8]) -> (r: Option<Vec<(Vec<u8>, Vals)>>) ensures match r { Some(w) => forall|id: u32| #[trigger] in_item(w@, w@.len() as int, id) == mlisted(self.inverted@, t@, Seq::empty(), id), None => forall|id: u32| !#[trigger] mlisted(self.inverted@, t@, Seq::empty(), id) } { unimplemented!() }
}
//@extract tskv/src/index/cache.rs IndexMemCache::get_inverted_by_tags
@subst /tab: &str/ => tab: &[u8]
@subst /&\[models::Tag\]/ => &[Tag]
@subst /roaring::RoaringBitmap/ => Rb
@subst /= self\.inverted\.get\(tab\) \{/ => = self.of_table(tab) {
@subst /for \(_, tags_map\) in item\.iter\(\) \{/ => let mut ti = 0usize; while ti < item.len() { let tags_map = &item[ti].1; ti = ti + 1;
@subst /for \(_, vals_map\) in tags_map\.iter\(\) \{/ => let mut tv = 0usize; while tv < tags_map.len() { let vals_map = &tags_map[tv].1; tv = tv + 1;
@subst /for tag in tags \{/ => let mut tj: usize = 0; while tj < tags.len() { let tag = &tags[tj]; tj = tj + 1;
@subst /self\s*\.inverted\s*\.get\(tab\)\s*\.and_then\(\|item\| item\.get\(&tag\.key\)\)\s*\.and_then\(\|item\| item\.get\(&tag\.value\)\)/ => self.lookup(tab, &tag.key, &tag.value)
@subst /bitmap\.unwrap_or_default\(\)/ => or_empty(bitmap)
@ret r
@spec
    ensures forall|id: u32| #[trigger] r.s@.contains(id) == mlisted(self.inverted@, tab@, pairs(tags@), id)
@loop 0
    invariant ti <= item@.len(), forall|id: u32| #[trigger] bitmap.s@.contains(id) == in_item(item@, ti as int, id)
    decreases item@.len() - ti
@loop 1
    invariant 0 < ti <= item@.len(), *tags_map == item@[ti - 1].1, tv <= tags_map@.len(), forall|id: u32| #[trigger] bitmap.s@.contains(id) == (in_item(item@, ti - 1, id) || in_vals(tags_map@, tv as int, id))
    decreases tags_map@.len() - tv
@loop 2
    invariant tj <= tags@.len(), (bitmap is None) == (tj == 0), bitmap is Some ==> forall|id: u32| #[trigger] (bitmap->0).s@.contains(id) == (forall|i: int| 0 <= i < tj ==> mat(self.inverted@, tab@, (#[trigger] pairs(tags@)[i]).0, pairs(tags@)[i].1, id))
    decreases tags@.len() - tj
@at after /tv = tv \+ 1;/
    proof { lemma_vals(tags_map@, tv as int); }
@at after /ti = ti \+ 1;/
    proof { lemma_item(item@, ti as int); }
@at after /tj = tj \+ 1;/
    assert(pairs(tags@)[tj - 1] == (tag.key@, tag.value@));
@at start
    proof { if tags@.len() == 0 { assert(pairs(tags@) =~= Seq::empty()); } }
@end
// ---- both ----
struct IndexCache { write_cache: IndexMemCache }
struct TSIndex { cache: IndexCache, storage: IndexEngine2, live: Ghost<Live>, fresh: Ghost<S> }
impl TSIndex {
    /// a series that is not deleted has its entries in memory, if it is not flushed yet, or in the store
    spec fn wf(&self) -> bool {
        let (live, fresh) = (self.live@, self.fresh@);
        &&& forall|id: u32| live.dom().contains(id) ==> series_ok(#[trigger] live[id])
        &&& forall|t: B, k: B, v: B, id: u32| #[trigger] mat(self.cache.write_cache.inverted@, t, k, v, id) == (fresh.contains(id) && live.dom().contains(id) && entry(live[id], t, k, v))
        &&& forall|key: B, id: u32| #[trigger] at(self.storage.inverted@, key, id) == (!fresh.contains(id) && live.dom().contains(id) && has_key(live[id], key))
    }
}
spec fn has_key(s: Series, key: B) -> bool { exists|t: B, k: B, v: B| key == inv(t, k, v) && #[trigger] entry(s, t, k, v) }
proof fn lemma_entry(s: Series, t: B, k: B, v: B) requires series_ok(s), entry(s, t, k, v) ensures table_ok(t), tag_ok(k)
{ if s.tags.contains((k, v)) { let i = choose|i: int| 0 <= i < s.tags.len() && s.tags[i] == (k, v); assert(tag_ok(s.tags[i].0)); } }
spec fn tags_ok(t: Seq<(B, B)>) -> bool { forall|i: int| 0 <= i < t.len() ==> tag_ok((#[trigger] t[i]).0) && t[i].0.len() > 0 }
proof fn lemma_has(s: Series, t: B, k: B, v: B) requires series_ok(s), table_ok(t), tag_ok(k) ensures has_key(s, inv(t, k, v)) == entry(s, t, k, v)
{ if has_key(s, inv(t, k, v)) { let (t2, k2, v2) = choose|t2: B, k2: B, v2: B| inv(t, k, v) == inv(t2, k2, v2) && #[trigger] entry(s, t2, k2, v2); lemma_entry(s, t2, k2, v2); lemma_inv(t, k, v, t2, k2, v2); } }
/// a series has an entry
spec fn some_entry(s: Series) -> (B, B) { if s.tags.len() == 0 { (Seq::empty(), Seq::empty()) } else { s.tags[0] } }
proof fn lemma_disk(m: Map<B, S>, s: Series, t: B, tags: Seq<(B, B)>, id: u32)
    requires series_ok(s), table_ok(t), tags_ok(tags), forall|key: B| #[trigger] at(m, key, id) == has_key(s, key)
    ensures listed(m, t, tags, id) == wanted(s, t, tags)
{
    if tags.len() == 0 {
        if listed(m, t, tags, id) { let key = choose|key: B| under(key, t) && #[trigger] at(m, key, id); let (t2, k, v) = choose|t2: B, k: B, v: B| key == inv(t2, k, v) && #[trigger] entry(s, t2, k, v); lemma_entry(s, t2, k, v); lemma_under(t, t2, k, v); }
        if s.table == t { let e = some_entry(s); assert(entry(s, t, e.0, e.1)); lemma_entry(s, t, e.0, e.1); lemma_under(t, t, e.0, e.1); assert(has_key(s, inv(t, e.0, e.1))); assert(at(m, inv(t, e.0, e.1), id)); }
    } else {
        assert forall|i: int| 0 <= i < tags.len() implies at(m, inv(t, (#[trigger] tags[i]).0, tags[i].1), id) == (s.table == t && s.tags.contains(tags[i])) by { lemma_has(s, t, tags[i].0, tags[i].1); }
        if listed(m, t, tags, id) { assert(at(m, inv(t, tags[0].0, tags[0].1), id)); assert forall|i: int| 0 <= i < tags.len() implies s.tags.contains(#[trigger] tags[i]) by { assert(at(m, inv(t, tags[i].0, tags[i].1), id)); } }
    }
}
proof fn lemma_mem(m: Map<(B, B, B), S>, s: Series, t: B, tags: Seq<(B, B)>, id: u32)
    requires tags_ok(tags), forall|t2: B, k: B, v: B| #[trigger] mat(m, t2, k, v, id) == entry(s, t2, k, v)
    ensures mlisted(m, t, tags, id) == wanted(s, t, tags)
{
    if tags.len() == 0 { if s.table == t { let e = some_entry(s); assert(entry(s, t, e.0, e.1)); assert(mat(m, t, e.0, e.1, id)); } }
    else { assert forall|i: int| 0 <= i < tags.len() implies mat(m, t, (#[trigger] tags[i]).0, tags[i].1, id) == (s.table == t && s.tags.contains(tags[i])) by { assert(mat(m, t, tags[i].0, tags[i].1, id) == entry(s, t, tags[i].0, tags[i].1)); }
        if mlisted(m, t, tags, id) { assert(mat(m, t, tags[0].0, tags[0].1, id)); assert forall|i: int| 0 <= i < tags.len() implies s.tags.contains(#[trigger] tags[i]) by { assert(mat(m, t, tags[i].0, tags[i].1, id)); } } }
}
//@extract tskv/src/index/ts_index.rs TSIndex::get_series_id_bitmap
@subst /async fn/ => fn
@subst /tab: &str/ => tab: &[u8]
@subst /roaring::RoaringBitmap/ => Rb
@ret r
@spec
    requires self.wf(), table_ok(tab@), tags_ok(pairs(tags@))
    ensures r matches Ok(b) ==> forall|id: u32| #[trigger] b.s@.contains(id) == (self.live@.dom().contains(id) && wanted(self.live@[id], tab@, pairs(tags@)))
@at start
    proof {
        let (m, d, t, g) = (self.cache.write_cache.inverted@, self.storage.inverted@, tab@, pairs(tags@));
        assert forall|id: u32| self.live@.dom().contains(id) && self.fresh@.contains(id) implies #[trigger] mlisted(m, t, g, id) == wanted(self.live@[id], t, g) by { assert forall|t2: B, k: B, v: B| #[trigger] mat(m, t2, k, v, id) == entry(self.live@[id], t2, k, v) by {} lemma_mem(m, self.live@[id], t, g, id); }
        assert forall|id: u32| self.live@.dom().contains(id) && !self.fresh@.contains(id) implies #[trigger] listed(d, t, g, id) == wanted(self.live@[id], t, g) by { assert forall|key: B| #[trigger] at(d, key, id) == has_key(self.live@[id], key) by {} lemma_disk(d, self.live@[id], t, g, id); }
        assert forall|id: u32| !(self.live@.dom().contains(id) && self.fresh@.contains(id)) implies !#[trigger] mlisted(m, t, g, id) by { if mlisted(m, t, g, id) { if g.len() > 0 { assert(mat(m, t, g[0].0, g[0].1, id)); } } }
        assert forall|id: u32| !(self.live@.dom().contains(id) && !self.fresh@.contains(id)) implies !#[trigger] listed(d, t, g, id) by { if listed(d, t, g, id) { if g.len() > 0 { assert(at(d, inv(t, g[0].0, g[0].1), id)); } } }
    }
@end
fn main() {}
}
