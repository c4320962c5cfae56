//@prelude
use core::time::Duration;
use std::cmp::min;
use std::collections::HashMap;
use std::fmt::{Display, Formatter};
use humantime::{format_duration, parse_duration};
//@extract common/utils/src/precision.rs enum Precision
@derive Clone, Copy, PartialEq, Debug
@end
//@extract common/utils/src/duration.rs struct CnosDuration
@derive Debug, Clone, PartialEq
@end
//@extract common/utils/src/duration.rs impl CnosDuration
@end
#[derive(Clone, Debug, PartialEq)]
struct ReplicationSet { x: u64 }
#[derive(Clone, Debug)]
struct TableSchema { x: u64 }
//@extract common/models/src/meta_data.rs struct BucketInfo
@derive Clone, Debug, PartialEq
@end
//@extract common/models/src/meta_data.rs BucketInfo::contains
@end
//@extract common/models/src/meta_data.rs get_time_range
@end
struct DatabaseOptions { ttl: CnosDuration }
impl DatabaseOptions { fn ttl(&self) -> &CnosDuration { &self.ttl } }
struct DatabaseConfig { precision: Precision }
impl DatabaseConfig { fn precision(&self) -> &Precision { &self.precision } }
struct DatabaseSchema { options: DatabaseOptions, config: DatabaseConfig, hidden: bool }
impl DatabaseSchema { fn config(&self) -> &DatabaseConfig { &self.config } fn options(&self) -> &DatabaseOptions { &self.options } fn is_hidden(&self) -> bool { self.hidden } }
thread_local! { static NOW: std::cell::Cell<i64> = std::cell::Cell::new(0); }
fn now_timestamp_nanos() -> i64 { NOW.with(|n| n.get()) }
fn now_timestamp_micros() -> i64 { now_timestamp_nanos() / 1_000 }
fn now_timestamp_millis() -> i64 { now_timestamp_nanos() / 1_000_000 }
//@extract common/models/src/schema/database_schema.rs DatabaseSchema::time_to_expired
@subst /crate::utils::/ => 
@end
struct DatabaseInfo { schema: DatabaseSchema, buckets: Vec<BucketInfo>, tables: HashMap<String, TableSchema> }
//@extract common/models/src/meta_data.rs DatabaseInfo::time_to_expired
@end
struct TenantMetaData { version: u64, dbs: HashMap<String, DatabaseInfo> }
//@extract common/models/src/meta_data.rs TenantMetaData::bucket_by_timestamp
@end
//@extract common/models/src/meta_data.rs TenantMetaData::mapping_bucket
@end
struct RwLock(TenantMetaData);
impl RwLock { fn read(&self) -> &TenantMetaData { &self.0 } }
#[derive(Debug)]
struct ExpiredBucketInfo { tenant: String, database: String, bucket: BucketInfo }
struct TenantMeta { data: RwLock }
impl TenantMeta { fn tenant_name(&self) -> String { "t".into() } }
//@extract meta/src/model/meta_tenant.rs TenantMeta::expired_bucket
@end
//@helpers
fn inb(b: &BucketInfo, t: i64) -> bool { b.start_time <= t && (t < b.end_time || b.end_time == i64::MAX) }
fn main() {
    let mut h = H::new();
    let mut r = h.rng(11);
    for n in 0..h.scale(60_000, 1_500_000) {
        let d = match n % 6 { 0 => r.below(20) as i64, 1 => i64::MAX - r.below(3) as i64, 2 => 31_536_000_000_000_000, 3 => 86_400_000, _ => r.word() as i64 };
        let t = match n % 7 { 0 => i64::MIN + r.below(5) as i64, 1 => i64::MAX - r.below(5) as i64, 2 => (r.below(41) as i64).wrapping_sub(20).wrapping_mul(d), 3 => (r.below(41) as i64).wrapping_sub(20).wrapping_mul(d).wrapping_add(r.below(3) as i64 - 1), _ => r.word() as i64 };
        h.case("range", hash(&(t, d)), &|| format!("timestamp {t}, period {d}"), &mut || {
            let g = get_time_range(t, d);
            let w = if d <= 0 { (i64::MIN, i64::MAX) } else { let c = (t as i128).div_euclid(d as i128); ((c * d as i128).max(i64::MIN as i128) as i64, ((c + 1) * d as i128).min(i64::MAX as i128) as i64) };
            if g != w { return Err(format!("range {g:?}, must be {w:?}")); }
            Ok(())
        });
    }
    for n in 0..h.scale(6_000, 150_000) {
        let d = match n % 5 { 0 => 0, 1 => i64::MAX, 2 => (i64::MAX / 3) + r.below(9) as i64, 3 => 1 + r.below(20) as i64, _ => 1 + (r.word() >> 1) as i64 / 2 };
        let ts: Vec<i64> = (0..1 + r.below(10)).map(|_| match r.below(4) { 0 => r.below(60) as i64 - 30, 1 => if r.chance(1, 2) { i64::MAX - r.below(3) as i64 } else { i64::MIN + r.below(3) as i64 }, 2 => (r.below(7) as i64 - 3).wrapping_mul(d), _ => r.word() as i64 }).collect();
        let (mut a, mut b) = (r.word() as i64, r.word() as i64); if r.chance(1, 2) { a = r.pick(&ts); } if r.chance(1, 3) { b = r.pick(&ts); } if a > b { std::mem::swap(&mut a, &mut b); }
        let ttl = match r.below(5) { 0 => CnosDuration::new_inf(), 1 => CnosDuration::init(Duration::new(r.word(), 0), false), 2 => CnosDuration::init(Duration::new(r.below(9) * 1_000_000_000, r.below(1_000_000_000) as u32), false), _ => CnosDuration::init(Duration::new(r.below(1_000_000_000), 0), false) };
        let now = match r.below(3) { 0 => r.below(2_000_000_000_000_000_000) as i64, 1 => 0, _ => i64::MAX };
        let p = r.pick(&[Precision::NS, Precision::US, Precision::MS]);
        h.case("history", hash(&(d, &ts, a, b, now)), &|| format!("period {d}, writes at {ts:?}, read {a}..={b}, now {now}, ttl {ttl:?}, {p:?}"), &mut || {
            NOW.with(|c| c.set(now));
            let mut m = TenantMetaData { version: 0, dbs: HashMap::new() };
            m.dbs.insert("d".into(), DatabaseInfo { schema: DatabaseSchema { options: DatabaseOptions { ttl: ttl.clone() }, config: DatabaseConfig { precision: p }, hidden: false }, buckets: vec![], tables: HashMap::new() });
            for (i, t) in ts.iter().enumerate() {
                if m.bucket_by_timestamp("d", *t).is_none() {
                    let (s, e) = get_time_range(*t, d);
                    let nb = BucketInfo { id: i as u32, start_time: s, end_time: e, shard_group: vec![] };
                    m.dbs.get_mut("d").unwrap().buckets.push(nb);
                }
                match m.bucket_by_timestamp("d", *t) { Some(x) if inb(x, *t) => {} x => return Err(format!("the bucket of {t} is {x:?}")) }
            }
            if m.bucket_by_timestamp("e", ts[0]).is_some() { return Err("a database that does not exist has a bucket".into()); }
            let bs = m.dbs["d"].buckets.clone();
            for (i, x) in bs.iter().enumerate() { for y in &bs[..i] { for t in ts.iter().chain([&x.start_time, &y.start_time]) { if *t < i64::MAX && inb(x, *t) && inb(y, *t) { return Err(format!("{t} is in the two buckets {x:?} and {y:?}")); } } } }
            let read = m.mapping_bucket("d", a, b);
            for x in &bs { if ts.iter().any(|t| a <= *t && *t <= b && inb(x, *t)) && !read.contains(x) { return Err(format!("bucket {x:?} is not read")); } }
            for x in &read { if !bs.contains(x) { return Err(format!("{x:?} is no bucket of the database")); } }
            let db = &m.dbs["d"];
            let u = match p { Precision::NS => 1, Precision::US => 1_000, Precision::MS => 1_000_000 };
            let keep = if ttl == CnosDuration::new_inf() || ttl.to_precision(p) == i64::MAX { i64::MIN } else { now / u - ttl.to_precision(p) };
            if db.time_to_expired() != keep { return Err(format!("keeps from {}, must be {keep}", db.time_to_expired())); }
            let tm = TenantMeta { data: RwLock(m) };
            for e in tm.expired_bucket() { if e.database != "d" || !bs.contains(&e.bucket) || e.bucket.end_time == i64::MAX || e.bucket.end_time > keep { return Err(format!("{e:?} is dropped though timestamps from {keep} are kept")); } }
            Ok(())
        });
    }
    h.done();
}
