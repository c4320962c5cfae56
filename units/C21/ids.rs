use vstd::prelude::*;
verus! {
global size_of usize == 8;
type B = Seq<u8>;
type S = Set<u32>;
struct IndexError {}
type IndexResult<T> = std::result::Result<T, IndexError>;
#[derive(PartialEq, Eq, Structural)] enum Ordering { Relaxed }
/// a series: its table and its tags (the id of the column, the value)
#[verifier::ext_equal] struct Series { table: B, tags: Seq<(B, B)> }
type Live = Map<u32, Series>;
struct Tag { key: Vec<u8>, value: Vec<u8> }
spec fn pairs(t: Seq<Tag>) -> Seq<(B, B)> { t.map_values(|x: Tag| (x.key@, x.value@)) }
struct SeriesKey { tags: Vec<Tag>, table: Vec<u8> }
impl SeriesKey {
    spec fn v(&self) -> Series { Series { table: self.table@, tags: pairs(self.tags@) } }
    fn tags(&self) -> (r: &[Tag]) ensures r@ == self.tags@ { self.tags.as_slice() }
    fn table(&self) -> (r: &[u8]) ensures r@ == self.table@ { self.table.as_slice() }
    #[verifier::external_body] fn clone(&self) -> (r: SeriesKey) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body] fn eq(&self, o: &SeriesKey) -> (r: bool) ensures r == (self.v() == o.v()) { unimplemented!() }
    #[verifier::external_body] fn hash(&self) -> u64 { unimplemented!() }
    #[verifier::external_body] fn decode(b: &Vec<u8>) -> (r: IndexResult<SeriesKey>) ensures r matches Ok(k) ==> forall|s: Series| b@ == written(s) ==> k.v() == s { unimplemented!() }
}
spec fn written(s: Series) -> B; // what SeriesKey::encode makes of it
// ---- bytes ----
#[verifier::external_body] fn text(a: &Vec<u8>) -> (r: &[u8]) ensures r@ == a@ { a.as_slice() }
spec fn b16(n: int) -> B { seq![((n as u16) >> 8) as u8, (n as u16) as u8] }
spec fn b32(n: u32) -> B { seq![(n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8] }
#[verifier::external_body] fn be16(n: u16) -> (r: Vec<u8>) ensures r@ == b16(n as int) { n.to_be_bytes().to_vec() }
#[verifier::external_body] fn be32(n: u32) -> (r: Vec<u8>) ensures r@ == b32(n) { n.to_be_bytes().to_vec() }
#[verifier::external_body] fn decode_be_u32(b: &Vec<u8>) -> (r: u32) ensures forall|n: u32| b@ == b32(n) ==> r == n { unimplemented!() }
proof fn lemma_b16(m: int, n: int) requires 0 <= m < 65536, 0 <= n < 65536, b16(m) == b16(n) ensures m == n
{ let (a, b) = (m as u16, n as u16); let (s, t) = (b16(m), b16(n)); assert(s[0] == t[0] && s[1] == t[1]); assert((a >> 8) as u8 == (b >> 8) as u8 && a as u8 == b as u8 ==> a == b) by (bit_vector); }
proof fn lemma_b32(a: u32, b: u32) requires b32(a) == b32(b) ensures a == b
{ let (s, t) = (b32(a), b32(b)); assert(s[0] == t[0] && s[1] == t[1] && s[2] == t[2] && s[3] == t[3]); assert((a >> 24) as u8 == (b >> 24) as u8 && (a >> 16) as u8 == (b >> 16) as u8 && (a >> 8) as u8 == (b >> 8) as u8 && a as u8 == b as u8 ==> a == b) by (bit_vector); }
// ---- the key of a series in the store: lengths before texts ----
spec fn lp(s: B) -> B { b16(s.len() as int) + s }
spec fn tags_b(t: Seq<(B, B)>) -> B decreases t.len() { if t.len() == 0 { Seq::empty() } else { lp(t[0].0) + lp(t[0].1) + tags_b(t.skip(1)) } }
spec fn key_of(p: B, s: Series) -> B { p + lp(s.table) + tags_b(s.tags) }
spec fn short(s: Series) -> bool { s.table.len() < 65536 && short_tags(s.tags) }
spec fn short_tags(t: Seq<(B, B)>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0.len() < 65536 && t[i].1.len() < 65536 }
proof fn lemma_push(t: Seq<(B, B)>, n: int) requires 0 <= n < t.len() ensures tags_b(t.take(n + 1)) == tags_b(t.take(n)) + lp(t[n].0) + lp(t[n].1) decreases n
{
    let (a, b) = (t.take(n + 1), t.take(n));
    if n == 0 { assert(a.skip(1) =~= Seq::empty()); assert(tags_b(a.skip(1)) == B::empty()); assert(tags_b(b) == B::empty()); assert(tags_b(a) =~= tags_b(b) + lp(t[n].0) + lp(t[n].1)); }
    else { lemma_push(t.skip(1), n - 1); assert(a.skip(1) =~= t.skip(1).take(n)); assert(b.skip(1) =~= t.skip(1).take(n - 1)); assert(t.skip(1)[n - 1] == t[n]); assert(tags_b(a) =~= tags_b(b) + lp(t[n].0) + lp(t[n].1)); }
}
proof fn lemma_lp(a: B, b: B, x: B, y: B) requires a.len() < 65536, b.len() < 65536, lp(a) + x == lp(b) + y ensures a == b, x == y
{
    let l = lp(a) + x; let r = lp(b) + y; assert(l.take(2) =~= b16(a.len() as int)); assert(r.take(2) =~= b16(b.len() as int)); lemma_b16(a.len() as int, b.len() as int);
    let n = a.len() as int; assert(l.subrange(2, 2 + n) =~= a); assert(r.subrange(2, 2 + n) =~= b); assert(l.skip(2 + n) =~= x); assert(r.skip(2 + n) =~= y);
}
proof fn lemma_tags(a: Seq<(B, B)>, b: Seq<(B, B)>) requires short_tags(a), short_tags(b), tags_b(a) == tags_b(b) ensures a == b decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(tags_b(b).len() >= 2); } assert(a =~= b); }
    else if b.len() == 0 { assert(tags_b(a).len() >= 2); }
    else {
        let (x, y) = (tags_b(a.skip(1)), tags_b(b.skip(1)));
        assert(tags_b(a) =~= lp(a[0].0) + (lp(a[0].1) + x)); assert(tags_b(b) =~= lp(b[0].0) + (lp(b[0].1) + y));
        lemma_lp(a[0].0, b[0].0, lp(a[0].1) + x, lp(b[0].1) + y); lemma_lp(a[0].1, b[0].1, x, y);
        assert forall|i: int| 0 <= i < a.len() - 1 implies (#[trigger] a.skip(1)[i]).0.len() < 65536 && a.skip(1)[i].1.len() < 65536 by { assert(a.skip(1)[i] == a[i + 1]); }
        assert forall|i: int| 0 <= i < b.len() - 1 implies (#[trigger] b.skip(1)[i]).0.len() < 65536 && b.skip(1)[i].1.len() < 65536 by { assert(b.skip(1)[i] == b[i + 1]); }
        lemma_tags(a.skip(1), b.skip(1)); assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); assert(a[0] == b[0]);
    }
}
/// no two series have one key
proof fn lemma_key(p: B, a: Series, b: Series) requires short(a), short(b), key_of(p, a) == key_of(p, b) ensures a == b
{
    let n = p.len() as int; let (x, y) = (key_of(p, a).skip(n), key_of(p, b).skip(n)); assert(x =~= lp(a.table) + tags_b(a.tags)); assert(y =~= lp(b.table) + tags_b(b.tags));
    lemma_lp(a.table, b.table, tags_b(a.tags), tags_b(b.tags)); lemma_tags(a.tags, b.tags);
}
spec fn pre_key() -> B { seq![95u8, 107, 101, 121, 95] } // _key_
spec fn pre_id() -> B { seq![95u8, 105, 100, 95] } // _id_
#[verifier::external_body] fn key_prefix() -> (r: &'static [u8]) ensures r@ == pre_key() { b"_key_" }
#[verifier::external_body] fn id_prefix() -> (r: &'static [u8]) ensures r@ == pre_id() { b"_id_" }
spec fn skey(s: Series) -> B { key_of(pre_key(), s) }
spec fn ikey(i: u32) -> B { pre_id() + b32(i) }
proof fn lemma_ikey(a: u32, b: u32) requires ikey(a) == ikey(b) ensures a == b { assert(ikey(a).skip(4) =~= b32(a)); assert(ikey(b).skip(4) =~= b32(b)); lemma_b32(a, b); }
//@extract tskv/src/index/ts_index.rs fn encode_series_key_with_prefix
@subst /prefix: &str, tab: &str/ => prefix: &[u8], tab: &[u8]
@subst /let mut len = prefix\.len\(\) \+ 2 \+ tab\.len\(\);\s*for tag in tags\.iter\(\) \{\s*len \+= 2 \+ tag\.key\.len\(\);\s*len \+= 2 \+ tag\.value\.len\(\);\s*\}/ => 
@subst /Vec::with_capacity\(len\)/ => Vec::<u8>::new()
@subst /&\((\w+(?:\.\w+)?)\.len\(\) as u16\)\.to_be_bytes\(\)/ => text(&be16(\1.len() as u16))
@subst /(prefix|tab)\.as_bytes\(\)/ => \1
@subst /extend_from_slice\(&tag\.(\w+)\)/ => extend_from_slice(text(&tag.\1))
@subst /for tag in tags\.iter\(\) \{/ => let mut ti = 0usize; while ti < tags.len() { let tag = &tags[ti]; ti = ti + 1;
@ret r
@spec
    ensures short(Series { table: tab@, tags: pairs(tags@) }) ==> r@ == key_of(prefix@, Series { table: tab@, tags: pairs(tags@) })
@loop 0
    invariant ti <= tags@.len(), short(Series { table: tab@, tags: pairs(tags@) }) ==> buf@ == prefix@ + lp(tab@) + tags_b(pairs(tags@).take(ti as int))
    decreases tags@.len() - ti
@at after /ti = ti \+ 1;/
    proof { lemma_push(pairs(tags@), ti - 1); assert(pairs(tags@)[ti - 1] == (tag.key@, tag.value@)); if short(Series { table: tab@, tags: pairs(tags@) }) { assert(tag.key@.len() < 65536 && tag.value@.len() < 65536); } }
@at loop-end 0
    proof { if short(Series { table: tab@, tags: pairs(tags@) }) { assert(buf@ =~= prefix@ + lp(tab@) + tags_b(pairs(tags@).take(ti as int))); } }
@at before-loop 0
    proof { assert(pairs(tags@).take(0) =~= Seq::empty()); if tab@.len() < 65536 { assert(buf@ =~= prefix@ + lp(tab@) + tags_b(pairs(tags@).take(0))); } }
@at after-loop 0
    proof { assert(pairs(tags@).take(tags@.len() as int) =~= pairs(tags@)); }
@end
//@extract tskv/src/index/ts_index.rs fn encode_series_key
@subst /tab: &str/ => tab: &[u8]
@subst /SERIES_KEY_PREFIX/ => key_prefix()
@ret r
@spec
    ensures short(Series { table: tab@, tags: pairs(tags@) }) ==> r@ == skey(Series { table: tab@, tags: pairs(tags@) })
@end
//@extract tskv/src/index/ts_index.rs fn encode_series_id_key
@subst /let len = SERIES_ID_PREFIX\.len\(\) \+ 4;/ => 
@subst /Vec::with_capacity\(len\)/ => Vec::<u8>::new()
@subst /SERIES_ID_PREFIX\.as_bytes\(\)/ => id_prefix()
@subst /&id\.to_be_bytes\(\)/ => text(&be32(id))
@ret r
@spec
    ensures r@ == ikey(id)
@at after /buf\.extend_from_slice\(text\(&be32\(id\)\)\);/
    proof { assert(buf@ =~= ikey(id)); }
@end
// ---- caches ----
struct Info { key: SeriesKey, hash: u64, id: u32 }
/// what is read may be kept here: each entry is of a series that lives
struct ForwardCache { live: Ghost<Live> }
impl ForwardCache {
    #[verifier::external_body] fn by_hash(&self, h: &u64) -> (r: Option<&Info>) ensures r matches Some(i) ==> self.live@.dom().contains(i.id) && self.live@[i.id] == i.key.v() { unimplemented!() }
    #[verifier::external_body] fn by_id(&self, id: &u32) -> (r: Option<&Info>) ensures r matches Some(i) ==> i.id == *id && self.live@.dom().contains(i.id) && self.live@[i.id] == i.key.v() { unimplemented!() }
    #[verifier::external_body] fn add(&self, id: u32, key: SeriesKey) requires self.live@.dom().contains(id), self.live@[id] == key.v() { unimplemented!() }
}
//@extract tskv/src/index/cache.rs ForwardCache::get_series_id_by_key
@subst /SeriesId/ => u32
@subst /self\.hash_map\.get\(&hash\)/ => self.by_hash(&hash)
@ret r
@spec
    ensures r matches Some(i) ==> self.live@.dom().contains(i) && self.live@[i] == key.v()
@end
//@extract tskv/src/index/cache.rs ForwardCache::get_series_key_by_id
@subst /SeriesId/ => u32
@subst /self\.id_map\.get\((&?\w+)\)\.map\(\|info\| (info\.key\.clone\(\))\)/ => match self.by_id(\1) { Some(info) => Some(\2), None => None }
@ret r
@spec
    ensures r matches Some(k) ==> self.live@.dom().contains(id) && self.live@[id] == k.v()
@end
struct IndexMemCache { keys: Ghost<Map<B, u32>>, ids: Ghost<Live> }
impl IndexMemCache {
    #[verifier::external_body] fn by_key(&self, k: &Vec<u8>) -> (r: Option<&Info>) ensures match r { Some(i) => self.keys@.dom().contains(k@) && i.id == self.keys@[k@], None => !self.keys@.dom().contains(k@) } { unimplemented!() }
    #[verifier::external_body] fn by_id(&self, id: &u32) -> (r: Option<&Info>) ensures match r { Some(i) => self.ids@.dom().contains(*id) && i.key.v() == self.ids@[*id], None => !self.ids@.dom().contains(*id) } { unimplemented!() }
}
//@extract tskv/src/index/cache.rs IndexMemCache::get_series_id_by_key
@subst /SeriesId/ => u32
@subst /encode_series_key\(&key\.table, &key\.tags\)/ => encode_series_key(key.table(), key.tags())
@subst /self\.key_map\.get\(&key_buf\)/ => self.by_key(&key_buf)
@ret r
@spec
    requires short(key.v())
    ensures match r { Some(i) => self.keys@.dom().contains(skey(key.v())) && i == self.keys@[skey(key.v())], None => !self.keys@.dom().contains(skey(key.v())) }
@end
//@extract tskv/src/index/cache.rs IndexMemCache::get_series_key_by_id
@subst /SeriesId/ => u32
@subst /self\.id_map\.get\((&?\w+)\)\.map\(\|info\| (info\.key\.clone\(\))\)/ => match self.by_id(\1) { Some(info) => Some(\2), None => None }
@ret r
@spec
    ensures match r { Some(k) => self.ids@.dom().contains(id) && self.ids@[id] == k.v(), None => !self.ids@.dom().contains(id) }
@end
struct IndexCache { read_cache: ForwardCache, write_cache: IndexMemCache }
impl IndexCache {
    #[verifier::external_body] fn write(&mut self, id: u32, key: SeriesKey)
        requires !old(self).read_cache.live@.dom().contains(id)
        ensures final(self).read_cache.live@ == old(self).read_cache.live@.insert(id, key.v()), short(key.v()) ==> final(self).write_cache.keys@ == old(self).write_cache.keys@.insert(skey(key.v()), id), final(self).write_cache.ids@ == old(self).write_cache.ids@.insert(id, key.v())
    { unimplemented!() }
    #[verifier::external_body] fn del(&mut self, id: u32, key: &SeriesKey)
        ensures final(self).read_cache.live@ == old(self).read_cache.live@.remove(id), short(key.v()) ==> final(self).write_cache.keys@ == old(self).write_cache.keys@.remove(skey(key.v())), final(self).write_cache.ids@ == old(self).write_cache.ids@.remove(id)
    { unimplemented!() }
}
#[verifier::external_body] fn encode_inverted_index_key(t: &[u8], k: &[u8], v: &[u8]) -> Vec<u8> { unimplemented!() }
//@extract tskv/src/index/cache.rs IndexCache::cache
@subst /SeriesId/ => u32
@spec
    requires self.read_cache.live@.dom().contains(id), self.read_cache.live@[id] == key.v()
@end
//@extract tskv/src/index/cache.rs IndexCache::get_series_id_by_key
@subst /SeriesId/ => u32
@ret r
@spec
    requires short(key.v())
    ensures match r { Some(i) => self.write_cache.keys@.dom().contains(skey(key.v())) && i == self.write_cache.keys@[skey(key.v())] || self.read_cache.live@.dom().contains(i) && self.read_cache.live@[i] == key.v(), None => !self.write_cache.keys@.dom().contains(skey(key.v())) }
@end
//@extract tskv/src/index/cache.rs IndexCache::get_series_key_by_id
@subst /SeriesId/ => u32
@ret r
@spec
    ensures match r { Some(k) => self.write_cache.ids@.dom().contains(id) && self.write_cache.ids@[id] == k.v() || self.read_cache.live@.dom().contains(id) && self.read_cache.live@[id] == k.v(), None => !self.write_cache.ids@.dom().contains(id) }
@end
// ---- the index ----
struct IndexEngine2 { disk: Ghost<Map<B, B>> }
impl IndexEngine2 {
    #[verifier::external_body] fn delete(&mut self, key: &Vec<u8>) -> (r: IndexResult<()>) ensures final(self).disk@ == old(self).disk@.remove(key@) { unimplemented!() }
    /// an entry of the inverted index, which is not looked at here
    #[verifier::external_body] fn modify(&mut self, key: &Vec<u8>, id: u32, add: bool) -> (r: IndexResult<()>) ensures final(self).disk@ == old(self).disk@ { unimplemented!() }
    #[verifier::external_body] fn get(&self, key: &Vec<u8>) -> (r: IndexResult<Option<Vec<u8>>>) ensures r matches Ok(o) ==> (match o { Some(b) => self.disk@.dom().contains(key@) && b@ == self.disk@[key@], None => !self.disk@.dom().contains(key@) }) { unimplemented!() } }
struct Counter { n: u32 }
impl Counter { fn fetch_add(&mut self, k: u32, o: Ordering) -> (r: u32) requires old(self).n + k <= u32::MAX ensures r == old(self).n, final(self).n == old(self).n + k { let r = self.n; self.n = self.n + k; r } }
struct TSIndex { cache: IndexCache, storage: IndexEngine2, incr_id: Counter }
spec fn on_disk(d: Map<B, B>, s: Series, id: u32) -> bool { d.dom().contains(skey(s)) && d[skey(s)] == b32(id) && d.dom().contains(ikey(id)) && d[ikey(id)] == written(s) }
spec fn has(live: Live, id: u32, s: Series) -> bool { live.dom().contains(id) && live[id] == s }
impl TSIndex {
    spec fn live(&self) -> Live { self.cache.read_cache.live@ }
    /// the series that live: each has one key and one id, in memory or in the store; no id is above the counter
    spec fn wf(&self) -> bool {
        &&& forall|i: u32| self.live().dom().contains(i) ==> short(#[trigger] self.live()[i]) && i <= self.incr_id.n
        &&& forall|i: u32, j: u32| self.live().dom().contains(i) && self.live().dom().contains(j) && #[trigger] self.live()[i] == #[trigger] self.live()[j] ==> i == j
        &&& forall|i: u32| #[trigger] self.cache.write_cache.ids@.dom().contains(i) ==> has(self.live(), i, self.cache.write_cache.ids@[i]) && self.cache.write_cache.keys@.dom().contains(skey(self.live()[i])) && self.cache.write_cache.keys@[skey(self.live()[i])] == i
        &&& forall|k: B| #[trigger] self.cache.write_cache.keys@.dom().contains(k) ==> self.cache.write_cache.ids@.dom().contains(self.cache.write_cache.keys@[k]) && skey(self.cache.write_cache.ids@[self.cache.write_cache.keys@[k]]) == k
        &&& forall|i: u32| #[trigger] self.live().dom().contains(i) && !self.cache.write_cache.ids@.dom().contains(i) ==> on_disk(self.storage.disk@, self.live()[i], i)
        &&& forall|s: Series| short(s) && self.storage.disk@.dom().contains(#[trigger] skey(s)) ==> exists|i: u32| #[trigger] has(self.live(), i, s) && self.storage.disk@[skey(s)] == b32(i)
        &&& forall|i: u32| self.storage.disk@.dom().contains(#[trigger] ikey(i)) ==> self.live().dom().contains(i) && self.storage.disk@[ikey(i)] == written(self.live()[i])
    }
    /// keys of tombstones are of another form, and not looked at here
    #[verifier::external_body] fn add_tombstone_series(&mut self, id: u32, k: &SeriesKey) -> (r: IndexResult<()>) ensures final(self).cache == old(self).cache, final(self).storage == old(self).storage, final(self).incr_id == old(self).incr_id { unimplemented!() }
    /// the entries in memory may be put in the store
    #[verifier::external_body] fn check_to_flush(&mut self, force: bool) -> (r: IndexResult<()>) requires old(self).wf() ensures final(self).wf(), final(self).live() == old(self).live(), final(self).incr_id.n == old(self).incr_id.n { unimplemented!() }
}
//@extract tskv/src/index/ts_index.rs TSIndex::get_series_id
@subst /async fn/ => fn
@subst /byte_utils::/ => 
@ret r
@spec
    requires self.wf(), short(series_key.v())
    ensures r matches Ok(o) ==> (match o { Some(i) => has(self.live(), i, series_key.v()), None => forall|i: u32| !#[trigger] has(self.live(), i, series_key.v()) })
@at start
    proof { let s = series_key.v(); let k = skey(s); let m = self.cache.write_cache; if m.keys@.dom().contains(k) { let i = m.keys@[k]; assert(m.ids@.dom().contains(i)); lemma_key(pre_key(), m.ids@[i], s); }
        if self.storage.disk@.dom().contains(k) { let i = choose|i: u32| #[trigger] has(self.live(), i, s) && self.storage.disk@[k] == b32(i); assert(has(self.live(), i, s)); }
        assert forall|i: u32| #[trigger] has(self.live(), i, s) implies m.keys@.dom().contains(k) || self.storage.disk@.dom().contains(k) by { assert(self.live().dom().contains(i)); } }
@end
//@extract tskv/src/index/ts_index.rs TSIndex::get_series_key
@subst /async fn/ => fn
@subst /SeriesId/ => u32
@subst /\.map_err\(\|e\| DecodeSeriesKeySnafu \{ msg: e\.to_string\(\) \}\.build\(\)\)\?/ => ?
@ret r
@spec
    requires self.wf()
    ensures r matches Ok(o) ==> (match o { Some(k) => has(self.live(), sid, k.v()), None => !self.live().dom().contains(sid) })
@end
/// a series that does not live yet is written to memory
proof fn lemma_write(a: TSIndex, b: TSIndex, id: u32, nk: Series)
    requires a.wf(), id <= b.incr_id.n, a.incr_id.n <= b.incr_id.n, !a.live().dom().contains(id), forall|i: u32| !#[trigger] has(a.live(), i, nk), short(nk),
        b.live() == a.live().insert(id, nk), b.cache.write_cache.keys@ == a.cache.write_cache.keys@.insert(skey(nk), id), b.cache.write_cache.ids@ == a.cache.write_cache.ids@.insert(id, nk), b.storage == a.storage
    ensures b.wf()
{
    let was = a.live(); let live = b.live(); let om = a.cache.write_cache; let m = b.cache.write_cache; let d = b.storage.disk@;
    assert forall|i: u32| live.dom().contains(i) implies short(#[trigger] live[i]) && i <= b.incr_id.n by { if i != id { assert(was.dom().contains(i)); assert(short(was[i])); } }
    assert forall|i: u32, j: u32| live.dom().contains(i) && live.dom().contains(j) && #[trigger] live[i] == #[trigger] live[j] implies i == j by { if i != id && j == id { assert(has(was, i, nk)); } else if j != id && i == id { assert(has(was, j, nk)); } else if i != id { assert(was[i] == was[j]); } }
    assert forall|i: u32| #[trigger] m.ids@.dom().contains(i) implies has(live, i, m.ids@[i]) && m.keys@.dom().contains(skey(live[i])) && m.keys@[skey(live[i])] == i by { if i != id { assert(om.ids@.dom().contains(i)); assert(short(was[i])); if skey(live[i]) == skey(nk) { lemma_key(pre_key(), live[i], nk); assert(has(was, i, nk)); } } }
    assert forall|k: B| #[trigger] m.keys@.dom().contains(k) implies m.ids@.dom().contains(m.keys@[k]) && skey(m.ids@[m.keys@[k]]) == k by { if k != skey(nk) { assert(om.keys@.dom().contains(k)); assert(om.ids@.dom().contains(om.keys@[k])); assert(was.dom().contains(om.keys@[k])); } }
    assert forall|i: u32| #[trigger] live.dom().contains(i) && !m.ids@.dom().contains(i) implies on_disk(d, live[i], i) by { assert(was.dom().contains(i)); assert(!om.ids@.dom().contains(i)); }
    assert forall|s: Series| short(s) && d.dom().contains(#[trigger] skey(s)) implies exists|i: u32| #[trigger] has(live, i, s) && d[skey(s)] == b32(i) by { let i = choose|i: u32| #[trigger] has(was, i, s) && d[skey(s)] == b32(i); assert(has(live, i, s)); }
    assert forall|i: u32| d.dom().contains(#[trigger] ikey(i)) implies live.dom().contains(i) && d[ikey(i)] == written(live[i]) by { assert(was.dom().contains(i)); }
}
/// a series is taken from memory and from the store
proof fn lemma_del(a: TSIndex, b: TSIndex, id: u32)
    requires a.wf(), a.live().dom().contains(id), b.incr_id.n == a.incr_id.n, b.live() == a.live().remove(id), b.cache.write_cache.keys@ == a.cache.write_cache.keys@.remove(skey(a.live()[id])), b.cache.write_cache.ids@ == a.cache.write_cache.ids@.remove(id), b.storage.disk@ == a.storage.disk@.remove(ikey(id)).remove(skey(a.live()[id]))
    ensures b.wf()
{
    let was = a.live(); let live = b.live(); let nk = was[id]; let om = a.cache.write_cache; let m = b.cache.write_cache; let od = a.storage.disk@; let d = b.storage.disk@; assert(short(nk));
    assert forall|s: Series, i: u32| #[trigger] skey(s) != #[trigger] ikey(i) by { assert(skey(s)[1] == 107); assert(ikey(i)[1] == 105); }
    assert forall|i: u32| #[trigger] live.dom().contains(i) implies i != id && was.dom().contains(i) && live[i] == was[i] && short(was[i]) && skey(was[i]) != skey(nk) by { if skey(was[i]) == skey(nk) { lemma_key(pre_key(), was[i], nk); assert(was[i] == was[id]); } }
    assert forall|i: u32, j: u32| live.dom().contains(i) && live.dom().contains(j) && #[trigger] live[i] == #[trigger] live[j] implies i == j by { assert(was[i] == was[j]); }
    assert forall|i: u32| #[trigger] m.ids@.dom().contains(i) implies has(live, i, m.ids@[i]) && m.keys@.dom().contains(skey(live[i])) && m.keys@[skey(live[i])] == i by { assert(om.ids@.dom().contains(i)); assert(live.dom().contains(i)); }
    assert forall|k: B| #[trigger] m.keys@.dom().contains(k) implies m.ids@.dom().contains(m.keys@[k]) && skey(m.ids@[m.keys@[k]]) == k by { assert(om.keys@.dom().contains(k)); assert(om.ids@.dom().contains(om.keys@[k])); }
    assert forall|i: u32| #[trigger] live.dom().contains(i) && !m.ids@.dom().contains(i) implies on_disk(d, live[i], i) by { assert(was.dom().contains(i)); assert(!om.ids@.dom().contains(i)); if ikey(i) == ikey(id) { lemma_ikey(i, id); } }
    assert forall|s: Series| short(s) && d.dom().contains(#[trigger] skey(s)) implies exists|i: u32| #[trigger] has(live, i, s) && d[skey(s)] == b32(i) by { assert(od.dom().contains(skey(s))); let i = choose|i: u32| #[trigger] has(was, i, s) && od[skey(s)] == b32(i); assert(i != id); assert(has(live, i, s)); }
    assert forall|i: u32| d.dom().contains(#[trigger] ikey(i)) implies live.dom().contains(i) && d[ikey(i)] == written(live[i]) by { assert(od.dom().contains(ikey(i))); }
}
spec fn given(ids: Seq<(u32, SeriesKey)>, keys: Seq<SeriesKey>, n: int, live: Live, was: Live, last: u32) -> bool { forall|j: int| 0 <= j < n ==> has(live, (#[trigger] ids[j]).0, keys[j].v()) && ids[j].1.v() == keys[j].v() && (was.dom().contains(ids[j].0) || ids[j].0 > last) }
//@extract tskv/src/index/ts_index.rs TSIndex::add_series_if_not_exists
@subst /async fn/ => fn
@subst /byte_utils::/ => 
@subst /trace::debug!\([^;]*;/ => 
@subst /Vec::with_capacity\(series_keys\.len\(\)\)/ => Vec::new()
@subst /for series_key in series_keys\.into_iter\(\) \{/ => let mut ti = 0usize; while ti < series_keys.len() { let series_key = series_keys[ti].clone(); ti = ti + 1;
@ret r
@spec
    requires old(self).wf(), old(self).incr_id.n + series_keys@.len() < u32::MAX, forall|j: int| 0 <= j < series_keys@.len() ==> short((#[trigger] series_keys@[j]).v())
    ensures final(self).wf(), old(self).live().submap_of(final(self).live()),
        r matches Ok(ids) ==> ids@.len() == series_keys@.len() && given(ids@, series_keys@, ids@.len() as int, final(self).live(), old(self).live(), old(self).incr_id.n),
@loop 0
    invariant ti <= series_keys@.len(), ids@.len() == ti, self.wf(), old(self).wf(), old(self).live().submap_of(self.live()), old(self).incr_id.n <= self.incr_id.n <= old(self).incr_id.n + ti, old(self).incr_id.n + series_keys@.len() < u32::MAX,
        forall|j: int| 0 <= j < series_keys@.len() ==> short((#[trigger] series_keys@[j]).v()),
        given(ids@, series_keys@, ti as int, self.live(), old(self).live(), old(self).incr_id.n),
        forall|i: u32| #[trigger] self.live().dom().contains(i) ==> old(self).live().dom().contains(i) || i > old(self).incr_id.n,
    decreases series_keys@.len() - ti
@at after /ti = ti \+ 1;/
    let ghost was = self.live(); let ghost n0 = self.incr_id.n;
    proof { let s = series_key.v(); assert(s == series_keys@[ti - 1].v()); let k = skey(s); let m = self.cache.write_cache; if m.keys@.dom().contains(k) { let i = m.keys@[k]; assert(m.ids@.dom().contains(i)); lemma_key(pre_key(), m.ids@[i], s); }
        if self.storage.disk@.dom().contains(k) { let i = choose|i: u32| #[trigger] has(self.live(), i, s) && self.storage.disk@[k] == b32(i); assert(has(self.live(), i, s)); }
        assert forall|i: u32| #[trigger] has(self.live(), i, s) implies m.keys@.dom().contains(k) || self.storage.disk@.dom().contains(k) by { assert(self.live().dom().contains(i)); } }
@at before /self\.cache\.write\(id, series_key\);/
    let ghost nk = series_key.v(); let ghost g0 = *self;
    proof { assert(forall|i: u32| !#[trigger] has(was, i, nk)); assert(!was.dom().contains(id)); }
@at after /self\.cache\.write\(id, series_key\);/
    proof { lemma_write(g0, *self, id, nk); }
@end
//@extract tskv/src/index/ts_index.rs TSIndex::del_series_info
@subst /async fn/ => fn
@subst /trace::debug!\([^;]*;/ => 
@subst /&tag\.key, &tag\.value/ => text(&tag.key), text(&tag.value)
@subst /for tag in series_key\.tags\(\) \{/ => let all = series_key.tags(); let mut ti = 0usize; while ti < all.len() { let tag = &all[ti]; ti = ti + 1;
@ret r
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).incr_id.n == old(self).incr_id.n, r is Ok ==> final(self).live() == old(self).live().remove(sid)
@at after /let series_key = self\.get_series_key\(sid\)\.await\?;|let series_key = self\.get_series_key\(sid\)\?;/
    let ghost g0 = *self;
@at before-loop 0
    proof { lemma_del(g0, *self, sid); }
@loop 0
    invariant self.wf(), self.live() == old(self).live().remove(sid), self.incr_id.n == old(self).incr_id.n, ti <= all@.len()
    decreases all@.len() - ti
@at before /let _ = self\.check_to_flush\(false\);|let _ = self\.check_to_flush\(false\)\.await;/
    proof { if !g0.live().dom().contains(sid) { assert(!g0.storage.disk@.dom().contains(ikey(sid))); assert(self.storage.disk@ =~= g0.storage.disk@); assert(g0.live() =~= g0.live().remove(sid)); assert(self.wf()); } }
@end
/// an update that may be done: each id lives and is named once, and no new key is that of a series
spec fn update_ok(live: Live, new: Seq<SeriesKey>, ids: Seq<u32>) -> bool {
    &&& new.len() == ids.len()
    &&& forall|j: int| 0 <= j < new.len() ==> short((#[trigger] new[j]).v()) && free(live, new[j].v())
    &&& forall|j: int, k: int| 0 <= j < k < new.len() ==> (#[trigger] new[j]).v() != (#[trigger] new[k]).v()
    &&& forall|j: int| 0 <= j < ids.len() ==> live.dom().contains(#[trigger] ids[j])
    &&& forall|j: int, k: int| 0 <= j < k < ids.len() ==> #[trigger] ids[j] != #[trigger] ids[k]
}
spec fn free(live: Live, s: Series) -> bool { forall|i: u32| !#[trigger] has(live, i, s) }
/// the first n of the series have their new keys, the others are as they were
spec fn updated(was: Live, new: Seq<SeriesKey>, ids: Seq<u32>, n: int, live: Live) -> bool {
    &&& live.dom() =~= was.dom()
    &&& forall|j: int| 0 <= j < n ==> live[#[trigger] ids[j]] == new[j].v()
    &&& forall|i: u32| #[trigger] live.dom().contains(i) ==> live[i] == was[i] || exists|j: int| 0 <= j < n && #[trigger] ids[j] == i
}
//@extract tskv/src/index/ts_index.rs TSIndex::update_series_key
@subst /async fn/ => fn
@subst /SeriesId/ => u32
@subst /trace::debug!\([^;]*;/ => 
@subst /for \(\(old_series, new_series\), sid\) in old_series_keys\s*\.iter\(\)\s*\.zip\(new_series_keys\.iter\(\)\)\s*\.zip\(sids\.iter\(\)\)\s*\{/ => let mut ti = 0usize; while ti < old_series_keys.len() && ti < new_series_keys.len() && ti < sids.len() { let old_series = &old_series_keys[ti]; let new_series = &new_series_keys[ti]; let sid = &sids[ti]; ti = ti + 1;
@ret r
@spec
    requires old(self).wf(), update_ok(old(self).live(), new_series_keys@, sids@), old_series_keys@.len() == sids@.len()
    ensures final(self).wf(), r is Ok ==> updated(old(self).live(), new_series_keys@, sids@, sids@.len() as int, final(self).live())
@loop 0
    invariant self.wf(), old(self).wf(), self.incr_id.n == old(self).incr_id.n, ti <= sids@.len(), update_ok(old(self).live(), new_series_keys@, sids@), old_series_keys@.len() == sids@.len(),
        updated(old(self).live(), new_series_keys@, sids@, ti as int, self.live()),
    decreases sids@.len() - ti
@at after /ti = ti \+ 1;/
    let ghost l0 = self.live(); let ghost was = old(self).live();
    proof { assert(*sid == sids@[ti - 1]); assert(was.dom().contains(sids@[ti - 1])); assert(short(new_series_keys@[ti - 1].v()) && free(was, new_series_keys@[ti - 1].v())); }
@at before /self\.cache\.write\(\*sid, new_series\.clone\(\)\);/
    let ghost g0 = *self;
    proof {
        let nk = new_series.v(); assert(nk == new_series_keys@[ti - 1].v()); assert(self.live() == l0.remove(*sid));
        assert forall|i: u32| !#[trigger] has(self.live(), i, nk) by { if has(self.live(), i, nk) { assert(l0.dom().contains(i)); if l0[i] == was[i] { assert(has(was, i, nk)); } else { let j = choose|j: int| 0 <= j < ti - 1 && #[trigger] sids@[j] == i; assert(l0[sids@[j]] == new_series_keys@[j].v()); } } }
    }
@at after /self\.cache\.write\(\*sid, new_series\.clone\(\)\);/
    proof {
        assert(l0.dom().contains(*sid)); lemma_write(g0, *self, *sid, new_series.v()); let live = self.live(); assert(live == g0.live().insert(*sid, new_series.v()));
        assert forall|j: int| 0 <= j < ti implies live[#[trigger] sids@[j]] == new_series_keys@[j].v() by { if j < ti - 1 { assert(sids@[j] != sids@[ti - 1]); } }
        assert forall|i: u32| #[trigger] live.dom().contains(i) implies live[i] == was[i] || exists|j: int| 0 <= j < ti && #[trigger] sids@[j] == i by { if i == *sid { assert(sids@[ti - 1] == i); } else { assert(l0.dom().contains(i)); if l0[i] != was[i] { let j = choose|j: int| 0 <= j < ti - 1 && #[trigger] sids@[j] == i; assert(sids@[j] == i); } } }
        assert(updated(was, new_series_keys@, sids@, ti as int, live));
    }
@end
// ---- what an update makes of the keys ----
struct UpdateSetValue { key: Vec<u8>, value: Option<Vec<u8>> }
type Tm = Map<B, Option<B>>;
spec fn opt(v: Option<Vec<u8>>) -> Option<B> { match v { Some(x) => Some(x@), None => None } }
spec fn map_of(t: Seq<(B, B)>) -> Tm decreases t.len() { if t.len() == 0 { Map::empty() } else { map_of(t.drop_last()).insert(t.last().0, Some(t.last().1)) } }
/// tags, after n of the assignments; one to NULL takes the tag away
spec fn assigned(m: Tm, new: Seq<UpdateSetValue>, n: int) -> Tm decreases n { if n <= 0 { m } else { assigned(m, new, n - 1).insert(new[n - 1].key@, opt(new[n - 1].value)) } }
spec fn tags_are(t: Seq<(B, B)>, m: Tm) -> bool { forall|k: B, v: B| #[trigger] t.contains((k, v)) == (m.dom().contains(k) && m[k] == Some(v)) }
spec fn changed(o: Series, n: Series, new: Seq<UpdateSetValue>) -> bool { n.table == o.table && tags_are(n.tags, assigned(map_of(o.tags), new, new.len() as int)) }
struct TagMap { m: Ghost<Tm> }
#[verifier::external_body] fn tag_map(t: &Vec<Tag>) -> (r: TagMap) ensures r.m@ == map_of(pairs(t@)) { unimplemented!() }
impl TagMap {
    #[verifier::external_body] fn insert(&mut self, k: &Vec<u8>, v: &Option<Vec<u8>>) ensures final(self).m@ == old(self).m@.insert(k@, opt(*v)) { unimplemented!() }
    /// the tags that have a value
    #[verifier::external_body] fn present(&self) -> (r: Vec<Tag>) ensures tags_are(pairs(r@), self.m@) { unimplemented!() }
}
#[verifier::external_body] fn sort_tags(t: &mut Vec<Tag>) ensures forall|k: B, v: B| #[trigger] pairs(final(t)@).contains((k, v)) == pairs(old(t)@).contains((k, v)) { unimplemented!() }
spec fn views(k: Seq<SeriesKey>) -> Seq<Series> { k.map_values(|x: SeriesKey| x.v()) }
struct KeySet { s: Ghost<Seq<Series>> }
impl KeySet {
    #[verifier::external_body] fn new() -> (r: KeySet) ensures r.s@.len() == 0 { unimplemented!() }
    #[verifier::external_body] fn extend(&mut self, k: Vec<SeriesKey>) ensures final(self).s@ == old(self).s@ + views(k@) { unimplemented!() }
    /// the number of different ones of those that were put into it
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures (r == self.s@.len()) == self.s@.no_duplicates() { unimplemented!() }
}
#[verifier::external_body] fn copies(k: &Vec<SeriesKey>) -> (r: Vec<SeriesKey>) ensures views(r@) == views(k@) { unimplemented!() }
#[verifier::external_body] fn exists_error() -> IndexError { unimplemented!() }
#[verifier::external_body] fn copy(t: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == t@ { t.clone() }
/// each is a series that lives, with its id, one of those that matched; each once
spec fn matched(live: Live, from: Seq<SeriesKey>, n: int, old: Seq<SeriesKey>, ids: Seq<u32>) -> bool {
    &&& old.len() == ids.len()
    &&& forall|j: int| 0 <= j < ids.len() ==> has(live, #[trigger] ids[j], old[j].v())
    &&& forall|j: int| 0 <= j < ids.len() ==> exists|k: int| 0 <= k < n && (#[trigger] from[k]).v() == live[#[trigger] ids[j]]
    &&& forall|k: int, i: u32| 0 <= k < n && #[trigger] has(live, i, (#[trigger] from[k]).v()) ==> ids.contains(i)
    &&& forall|j: int, k: int| 0 <= j < k < ids.len() ==> #[trigger] ids[j] != #[trigger] ids[k]
}
//@extract tskv/src/index/ts_index.rs TSIndex::prepare_update_tags_value
@subst /async fn/ => fn
@subst /SeriesId/ => u32
@subst /UpdateSetValue<TagKey, TagValue>/ => UpdateSetValue
@subst /for key in matched_series \{/ => let mut ti = 0usize; while ti < matched_series.len() { let key = &matched_series[ti]; ti = ti + 1;
@subst /for key in &old_keys \{/ => let mut tj = 0usize; while tj < old_keys.len() { let key = &old_keys[tj]; tj = tj + 1;
@subst /let mut new_keys_set = HashSet::new\(\);/ => let mut new_keys_set = KeySet::new();
@subst /let mut old_tags = key\s*\.tags\s*\.iter\(\)\s*\.map\(\|Tag \{ key, value \}\| \(key, Some\(value\.as_ref\(\)\)\)\)\s*\.collect::<HashMap<_, _>>\(\);/ => let mut old_tags = tag_map(&key.tags);
@subst /for UpdateSetValue \{ key, value \} in new_tags \{/ => let mut tk = 0usize; while tk < new_tags.len() { let key = &new_tags[tk].key; let value = &new_tags[tk].value; tk = tk + 1;
@subst /old_tags\.insert\(key, value\.as_deref\(\)\)/ => old_tags.insert(key, value)
@subst /let mut tags = old_tags\s*\.iter\(\)\s*\.flat_map\(\|\(key, value\)\| value\.map\(\|val\| Tag::new\(key\.to_vec\(\), val\.to_vec\(\)\)\)\)\s*\.collect::<Vec<_>>\(\);/ => let mut tags = old_tags.present();
@subst /let mut new_keys = vec!\[\];/ => let mut new_keys: Vec<SeriesKey> = vec![];
@subst /let mut old_keys = vec!\[\];/ => let mut old_keys: Vec<SeriesKey> = vec![];
@subst /let mut ids = vec!\[\];/ => let mut ids: Vec<u32> = vec![];
@subst /tag::sort_tags/ => sort_tags
@subst /key\.table\.clone\(\)/ => copy(&key.table)
@subst /trace::warn!\([^;]*;/ => 
@subst /Err\(SeriesAlreadyExistsSnafu \{[\s\S]*?\}\s*\.build\(\)\)/ => Err(exists_error())
@subst /new_keys_set\.extend\(new_keys\.clone\(\)\)/ => new_keys_set.extend(copies(&new_keys))
@ret r
@spec
    requires self.wf(), check_conflict,
        forall|j: int| 0 <= j < matched_series@.len() ==> short((#[trigger] matched_series@[j]).v()),
        forall|j: int, k: int| 0 <= j < k < matched_series@.len() ==> (#[trigger] matched_series@[j]).v() != (#[trigger] matched_series@[k]).v(),
        // what is assigned is short as well
        forall|o: Series, n: Series| short(o) && #[trigger] changed(o, n, new_tags@) ==> short(n),
    ensures r matches Ok(x) ==> matched(self.live(), matched_series@, matched_series@.len() as int, x.0@, x.2@) && update_ok(self.live(), x.1@, x.2@) && forall|j: int| 0 <= j < x.1@.len() ==> changed((#[trigger] x.0@[j]).v(), x.1@[j].v(), new_tags@),
@loop 0
    invariant self.wf(), ti <= matched_series@.len(), matched(self.live(), matched_series@, ti as int, old_keys@, ids@),
        forall|j: int| 0 <= j < matched_series@.len() ==> short((#[trigger] matched_series@[j]).v()),
        forall|j: int, k: int| 0 <= j < k < matched_series@.len() ==> (#[trigger] matched_series@[j]).v() != (#[trigger] matched_series@[k]).v(),
    decreases matched_series@.len() - ti
@at after /ti = ti \+ 1;/
    let ghost i0 = ids@; let ghost o0 = old_keys@;
@at loop-end 0
    proof {
        let live = self.live(); let s = key.v(); assert(s == matched_series@[ti - 1].v());
        if ids@.len() > i0.len() {
            let sid = ids@.last(); assert(ids@ == i0.push(sid));
            assert forall|j: int, k: int| 0 <= j < k < ids@.len() implies #[trigger] ids@[j] != #[trigger] ids@[k] by { if k == i0.len() { assert(i0[j] == ids@[j]); let q = choose|q: int| 0 <= q < ti - 1 && (#[trigger] matched_series@[q]).v() == live[i0[j]]; assert(matched_series@[q].v() != matched_series@[ti - 1].v()); } else { assert(i0[j] == ids@[j] && i0[k] == ids@[k]); } }
            assert forall|j: int| 0 <= j < ids@.len() implies has(live, #[trigger] ids@[j], old_keys@[j].v()) by { if j < i0.len() { assert(has(live, i0[j], o0[j].v())); } }
            assert forall|j: int| 0 <= j < ids@.len() implies exists|k: int| 0 <= k < ti && (#[trigger] matched_series@[k]).v() == live[#[trigger] ids@[j]] by { if j < i0.len() { assert(ids@[j] == i0[j]); let q = choose|q: int| 0 <= q < ti - 1 && (#[trigger] matched_series@[q]).v() == live[i0[j]]; assert(matched_series@[q].v() == live[ids@[j]]); } else { assert(matched_series@[ti - 1].v() == live[ids@[j]]); } }
            assert forall|k: int, i: u32| 0 <= k < ti && #[trigger] has(live, i, (#[trigger] matched_series@[k]).v()) implies ids@.contains(i) by { if k < ti - 1 { assert(i0.contains(i)); let q = choose|q: int| 0 <= q < i0.len() && i0[q] == i; assert(ids@[q] == i); } else { assert(has(live, sid, s)); assert(live[i] == live[sid]); assert(ids@[i0.len() as int] == i); } }
        } else {
            assert(ids@ == i0 && old_keys@ == o0);
            assert forall|j: int| 0 <= j < ids@.len() implies exists|k: int| 0 <= k < ti && (#[trigger] matched_series@[k]).v() == live[#[trigger] ids@[j]] by { let q = choose|q: int| 0 <= q < ti - 1 && (#[trigger] matched_series@[q]).v() == live[i0[j]]; assert(matched_series@[q].v() == live[ids@[j]]); }
        }
    }
@loop 1
    invariant self.wf(), check_conflict, tj <= old_keys@.len(), new_keys@.len() == tj, new_keys_set.s@.len() == 0, matched(self.live(), matched_series@, matched_series@.len() as int, old_keys@, ids@),
        forall|o: Series, n: Series| short(o) && #[trigger] changed(o, n, new_tags@) ==> short(n),
        forall|j: int| 0 <= j < tj ==> short((#[trigger] new_keys@[j]).v()) && free(self.live(), new_keys@[j].v()) && changed(old_keys@[j].v(), new_keys@[j].v(), new_tags@),
    decreases old_keys@.len() - tj
@loop 2
    invariant tk <= new_tags@.len(), old_tags.m@ == assigned(map_of(pairs(old_keys@[tj - 1].tags@)), new_tags@, tk as int), 0 < tj <= old_keys@.len()
    decreases new_tags@.len() - tk
@at after /tj = tj \+ 1;/
    let ghost kv = key.v(); proof { assert(has(self.live(), ids@[tj - 1], old_keys@[tj - 1].v())); assert(short(self.live()[ids@[tj - 1]])); }
@at before /if check_conflict/
    proof { assert(changed(kv, new_key.v(), new_tags@)); assert(short(new_key.v())); }
@at before /Ok\(\(old_keys, new_keys, ids\)\)/
    proof {
        assert(new_keys_set.s@ =~= views(new_keys@));
        assert forall|j: int, k: int| 0 <= j < k < new_keys@.len() implies (#[trigger] new_keys@[j]).v() != (#[trigger] new_keys@[k]).v() by { assert(views(new_keys@)[j] != views(new_keys@)[k]); }
        assert forall|j: int| 0 <= j < ids@.len() implies self.live().dom().contains(#[trigger] ids@[j]) by { assert(has(self.live(), ids@[j], old_keys@[j].v())); }
    }
@end
fn main() {}
}
