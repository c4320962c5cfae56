use vstd::prelude::*;
verus! {
pub assume_specification [i64::saturating_add] (a: i64, b: i64) -> (r: i64) ensures r == (if a + b > i64::MAX { i64::MAX as int } else if a + b < i64::MIN { i64::MIN as int } else { a + b });
pub assume_specification [i64::saturating_sub] (a: i64, b: i64) -> (r: i64) ensures r == (if a - b > i64::MAX { i64::MAX as int } else if a - b < i64::MIN { i64::MIN as int } else { a - b });
//@extract common/utils/src/precision.rs enum Precision
@derive Clone, Copy
@end
struct ReplicationSet { x: u64 }
//@extract common/models/src/meta_data.rs struct BucketInfo
@end
impl BucketInfo {
    #[verifier::external_body]
    fn clone(&self) -> (r: BucketInfo) ensures r == *self { unimplemented!() }
}
// the timestamps of a bucket: the end is exclusive, and nothing comes after the largest timestamp
spec fn within(s: i64, e: i64, t: i64) -> bool { s <= t && (t < e || e == i64::MAX) }
spec fn inb(b: BucketInfo, t: i64) -> bool { within(b.start_time, b.end_time, t) }

// ---- where a bucket lies
//@extract common/models/src/meta_data.rs get_time_range
@ret r
@at start
    proof { lemma_range(ts as int, duration as int); }
@spec
    ensures
      within(r.0, r.1, ts),
      // a bucket is one period long and starts at a multiple of it (or at the ends of the line), so two timestamps have the same bucket or disjoint ones
      duration <= 0 ==> r == (i64::MIN, i64::MAX),
      duration > 0 ==> (cell(ts as int, duration as int) * duration >= i64::MIN ==> r.0 == cell(ts as int, duration as int) * duration) && (cell(ts as int, duration as int) * duration < i64::MIN ==> r.0 == i64::MIN)
        && ((cell(ts as int, duration as int) + 1) * duration <= i64::MAX ==> r.1 == (cell(ts as int, duration as int) + 1) * duration) && ((cell(ts as int, duration as int) + 1) * duration > i64::MAX ==> r.1 == i64::MAX)
@end
// the number of the period a timestamp is in, counted from the epoch (floor division)
spec fn cell(t: int, d: int) -> int { t / d }
spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
proof fn lemma_range(t: int, d: int)
    requires i64::MIN <= t <= i64::MAX
    ensures d > 0 ==> cell(t, d) * d <= t < (cell(t, d) + 1) * d, d > 0 ==> (cell(t, d) + 1) * d == cell(t, d) * d + d,
      d > 0 && t < 0 ==> -((-(t + 1)) / d) == cell(t, d) + 1 && i64::MIN <= (cell(t, d) + 1) * d <= 0,
      d > 0 && t >= 0 ==> 0 <= cell(t, d) * d <= i64::MAX
{
    if d > 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, d);
        assert(0 <= t % d < d) by { vstd::arithmetic::div_mod::lemma_mod_bound(t, d); }
        let c = t / d; let m = t % d;
        assert((c + 1) * d == c * d + d) by (nonlinear_arith);
        assert(c * d == d * c) by (nonlinear_arith);
        if t < 0 {
            // -(t+1) = -(c+1)*d + (d - 1 - m)
            let q = -(c + 1); let rem = d - 1 - m;
            assert(-(t + 1) == q * d + rem) by (nonlinear_arith) requires t == d * c + m, q == -(c + 1), rem == d - 1 - m;
            assert(0 <= rem < d);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-(t + 1), d, q, rem);
            assert((c + 1) * d <= 0) by (nonlinear_arith) requires q >= 0, q == -(c + 1), d > 0;
        }
        if t >= 0 { assert(c >= 0) by (nonlinear_arith) requires t == d * c + m, 0 <= m < d, t >= 0, d > 0; assert(c * d >= 0) by (nonlinear_arith) requires c >= 0, d > 0; }
    }
}
proof fn lemma_disjoint(t: i64, u: i64, d: i64, a: (i64, i64), b: (i64, i64), x: i64)
    requires d > 0, x < i64::MAX, span(t, d, a), span(u, d, b), within(a.0, a.1, x), within(b.0, b.1, x)
    ensures a == b
{
    lemma_range(t as int, d as int); lemma_range(u as int, d as int); lemma_range(x as int, d as int);
    let (c, e) = (cell(t as int, d as int), cell(u as int, d as int));
    assert(c == e) by (nonlinear_arith) requires c * d <= x < (c + 1) * d, e * d <= x < (e + 1) * d, d > 0;
}
// what get_time_range returns (its postcondition)
spec fn span(t: i64, d: i64, r: (i64, i64)) -> bool { let c = cell(t as int, d as int); (c * d >= i64::MIN ==> r.0 == c * d) && (c * d < i64::MIN ==> r.0 == i64::MIN) && ((c + 1) * d <= i64::MAX ==> r.1 == (c + 1) * d) && ((c + 1) * d > i64::MAX ==> r.1 == i64::MAX) }

// ---- finding buckets
//@extract common/models/src/meta_data.rs BucketInfo::contains
@ret r
@spec
    ensures r == inb(*self, ts)
@end
struct TableSchema { x: u64 }
struct Duration { x: u64 }
spec fn ns(d: Duration) -> nat { d.x as nat }
//@extract common/utils/src/duration.rs struct CnosDuration
@end
spec fn whole(d: CnosDuration, u: int) -> int { if d.is_inf || ns(d.duration) as int / u > i64::MAX { i64::MAX as int } else { ns(d.duration) as int / u } }
impl CnosDuration { // proved in C15
    #[verifier::external_body]
    fn to_nanoseconds(&self) -> (r: i64) ensures r == whole(*self, 1) { unimplemented!() }
    #[verifier::external_body]
    fn to_microseconds(&self) -> (r: i64) ensures r == whole(*self, 1_000) { unimplemented!() }
    #[verifier::external_body]
    fn to_millisecond(&self) -> (r: i64) ensures r == whole(*self, 1_000_000) { unimplemented!() }
}
spec fn unit_ns(p: Precision) -> int { match p { Precision::NS => 1, Precision::US => 1_000, Precision::MS => 1_000_000 } }
struct DatabaseOptions { ttl: CnosDuration }
impl DatabaseOptions { fn ttl(&self) -> (r: &CnosDuration) ensures *r == self.ttl { &self.ttl } }
struct DatabaseConfig { precision: Precision }
impl DatabaseConfig { fn precision(&self) -> (r: &Precision) ensures *r == self.precision { &self.precision } }
struct DatabaseSchema { options: DatabaseOptions, config: DatabaseConfig, tenant: u8, database: u8, is_hidden: bool }
impl DatabaseSchema { fn config(&self) -> (r: &DatabaseConfig) ensures *r == self.config { &self.config } fn options(&self) -> (r: &DatabaseOptions) ensures *r == self.options { &self.options } }
// the clock, in the unit asked for: some time after the epoch
uninterp spec fn now(u: int, n: i64) -> bool;
#[verifier::external_body]
fn now_timestamp_millis() -> (r: i64) ensures r >= 0, now(1_000_000, r) { unimplemented!() }
#[verifier::external_body]
fn now_timestamp_micros() -> (r: i64) ensures r >= 0, now(1_000, r) { unimplemented!() }
#[verifier::external_body]
fn now_timestamp_nanos() -> (r: i64) ensures r >= 0, now(1, r) { unimplemented!() }
// the oldest timestamp a database keeps
spec fn keeps_from(s: DatabaseSchema, m: i64) -> bool { let t = whole(s.options.ttl, unit_ns(s.config.precision)); if t == i64::MAX { m == i64::MIN } else { exists|n: i64| n >= 0 && #[trigger] now(unit_ns(s.config.precision), n) && m == n - t } }
//@extract common/models/src/schema/database_schema.rs DatabaseSchema::time_to_expired
@ret r
@subst /crate::utils::/ => 
@spec
    ensures keeps_from(*self, r), self.options.ttl.is_inf ==> r == i64::MIN
@end
struct DatabaseInfo { schema: DatabaseSchema, buckets: Vec<BucketInfo> }
//@extract common/models/src/meta_data.rs DatabaseInfo::time_to_expired
@ret r
@spec
    ensures keeps_from(self.schema, r), self.schema.options.ttl.is_inf ==> r == i64::MIN
@end
#[verifier::external_body]
struct Dbs { x: u64 }
#[verifier::external_body]
struct Name { x: u64 }
uninterp spec fn nv(n: Name) -> int;
uninterp spec fn dbm(d: Dbs) -> Map<int, DatabaseInfo>;
impl Dbs {
    #[verifier::external_body]
    fn get(&self, n: &Name) -> (r: Option<&DatabaseInfo>) ensures r is Some == dbm(*self).dom().contains(nv(*n)), r is Some ==> *r->0 == dbm(*self)[nv(*n)] { unimplemented!() }
}
struct TenantMetaData { dbs: Dbs }
spec fn db(t: TenantMetaData, n: Name) -> Seq<BucketInfo> { if dbm(t.dbs).dom().contains(nv(n)) { dbm(t.dbs)[nv(n)].buckets@ } else { Seq::empty() } }
fn find_bucket<F: Fn(&BucketInfo) -> bool>(v: &Vec<BucketInfo>, f: F) -> (r: Option<&BucketInfo>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],))
    ensures r is Some ==> has(v@, *r->0) && f.ensures((r->0,), true), r is None ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false)
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < v@.len() ==> f.requires((&#[trigger] v@[k],)), forall|k: int| 0 <= k < i ==> f.ensures((&#[trigger] v@[k],), false)
        decreases v@.len() - i
    { let b = &v[i]; if f(b) { return Some(b); } i += 1; }
    None
}
//@extract common/models/src/meta_data.rs TenantMetaData::bucket_by_timestamp
@ret r
@subst /&str/ => &Name
@subst /db\s*\.buckets\s*\.iter\(\)\s*\.find\(\|bucket\| (.*?)\) \{/ => find_bucket(&db.buckets, |bucket: &BucketInfo| -> (b: bool) ensures b == inb(*bucket, ts) { \1 }) {
@spec
    ensures
      r is Some ==> inb(*r->0, ts) && has(db(*self, *db_name), *r->0),
      r is None ==> forall|i: int| 0 <= i < db(*self, *db_name).len() ==> !inb(#[trigger] db(*self, *db_name)[i], ts)
@end
spec fn has(s: Seq<BucketInfo>, b: BucketInfo) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == b }
//@extract common/models/src/meta_data.rs TenantMetaData::mapping_bucket
@ret r
@subst /&str/ => &Name
@subst /let mut result = vec!\[\];/ => let mut result: Vec<BucketInfo> = Vec::new();
@subst /vec!\[\]/ => Vec::new()
@subst /if (end < [^{]*?) \{\s*continue;\s*\}\s*(result\.push\(item\.clone\(\)\);)/ => if !(\1) { \2 }
@subst /result\.push\(item\.clone\(\)\);/ => let ghost before = result@; result.push(item.clone()); proof { assert(result@[before.len() as int] == *item); assert forall|b: BucketInfo| has(before, b) implies has(result@, b) by { let i = choose|i: int| 0 <= i < before.len() && #[trigger] before[i] == b; assert(result@[i] == b); } }
@iter 0 it
@loop 0
    invariant it.seq().len() == db.buckets@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == db.buckets@[k],
      forall|i: int, t: i64| 0 <= i < it.index@ && start <= t <= end && inb(#[trigger] db.buckets@[i], #[trigger] idt(t)) ==> has(result@, db.buckets@[i]),
      forall|j: int| 0 <= j < result@.len() ==> has(db.buckets@, #[trigger] result@[j])
@spec
    ensures
      // every bucket with a timestamp of the range is read
      forall|i: int, t: i64| 0 <= i < db(*self, *db_name).len() && start <= t <= end && inb(#[trigger] db(*self, *db_name)[i], #[trigger] idt(t)) ==> has(r@, db(*self, *db_name)[i]),
      forall|j: int| 0 <= j < r@.len() ==> has(db(*self, *db_name), #[trigger] r@[j])
@end
spec fn idt(t: i64) -> i64 { t }

// ---- dropping buckets
struct Lock { t: u64 }
struct ExpiredBucketInfo { tenant: Str, database: Name, bucket: BucketInfo }
struct Str { x: u64 }
impl Name { #[verifier::external_body] fn clone(&self) -> (r: Name) ensures r == *self { unimplemented!() } }
struct MetaClient { data: Lock }
uninterp spec fn dbl(l: Lock) -> Seq<(Name, DatabaseInfo)>;
impl MetaClient {
    #[verifier::external_body]
    fn tenant_name(&self) -> (r: Str) { unimplemented!() }
    #[verifier::external_body]
    fn databases(&self) -> (r: Vec<(Name, DatabaseInfo)>) ensures r@ == dbl(self.data) { unimplemented!() }
}
// a bucket may go only when everything in it is older than what its database keeps; nothing of a database that keeps everything goes
spec fn may_go(e: ExpiredBucketInfo, s: DatabaseSchema) -> bool { !s.options.ttl.is_inf && exists|m: i64| #[trigger] keeps_from(s, m) && forall|t: i64| inb(e.bucket, t) ==> t < m }
spec fn goes(e: ExpiredBucketInfo, all: Seq<(Name, DatabaseInfo)>) -> bool { exists|i: int| 0 <= i < all.len() && e.database == (#[trigger] all[i]).0 && has(all[i].1.buckets@, e.bucket) && may_go(e, all[i].1.schema) }
//@extract meta/src/model/meta_tenant.rs TenantMeta::expired_bucket
@attr #[verifier::loop_isolation(false)]
@header impl MetaClient
@ret r
@subst /let mut list = vec!\[\];/ => let mut list: Vec<ExpiredBucketInfo> = Vec::new(); let all = self.databases(); let ghost al = all@;
@subst /for \((\w+), (\w+)\) in self\.data\.read\(\)\.dbs\.iter\(\) \{/ => for kv in all.iter() { let (\1, \2) = (&kv.0, &kv.1); let ghost db1 = *kv; assert(exists|i: int| 0 <= i < al.len() && #[trigger] al[i] == db1);
@subst /list\.push\(info\)/ => proof { assert(may_go(info, db1.1.schema)); assert(has(db1.1.buckets@, info.bucket)); assert(goes(info, al)); } list.push(info);
@iter 0 it
@loop 0
    invariant it.seq().len() == al.len(), all@ == al, al == dbl(self.data), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == al[k], forall|j: int| 0 <= j < list@.len() ==> goes(#[trigger] list@[j], al)
@iter 1 jt
@loop 1
    invariant jt.seq().len() == val.buckets@.len(), forall|k: int| 0 <= k < jt.seq().len() ==> *(#[trigger] jt.seq()[k]) == val.buckets@[k], al == dbl(self.data), exists|i: int| 0 <= i < al.len() && #[trigger] al[i] == db1, db1 == *kv, *key == kv.0, *val == kv.1, forall|j: int| 0 <= j < list@.len() ==> goes(#[trigger] list@[j], al)
@spec
    ensures forall|j: int| 0 <= j < r@.len() ==> goes(#[trigger] r@[j], dbl(self.data))
@end
}
