struct Error {}
type CoordinatorError = Error;
type CoordinatorResult<T> = std::result::Result<T, Error>;
type MetaResult<T> = std::result::Result<T, Error>;
type B = Seq<u8>;
// ---- names: opaque owners of bytes ----
struct Name { x: Ghost<B> }
impl Name {
    fn to_string(&self) -> (r: Name) ensures r == *self { Name { x: self.x } }
    #[verifier::external_body] fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.x@ { unimplemented!() }
    fn as_str(&self) -> (r: &Name) ensures *r == *self { self }
}
type NodeId = u64;
type VnodeId = u32;
type ReplicationSetId = u32;
struct VnodeInfo { x: u64 }
//@extract common/models/src/meta_data.rs struct ReplicationSet
@derive
@end
impl ReplicationSet { #[verifier::external_body] fn clone(&self) -> (r: ReplicationSet) ensures r == *self { unimplemented!() } }
//@extract common/utils/src/precision.rs enum Precision
@derive PartialEq, Eq, Structural, Clone, Copy
@end
// what timestamp_convert computes is proved in C14
uninterp spec fn conv(a: Precision, b: Precision, t: i64) -> Option<i64>;
#[verifier::external_body] fn timestamp_convert(a: Precision, b: Precision, t: i64) -> (r: Option<i64>) ensures r == conv(a, b, t) { unimplemented!() }

// ---- where a row belongs: a replication set of the bucket of its time, chosen by the hash of its series ----
//@extract common/models/src/meta_data.rs struct BucketInfo
@derive
@end
spec fn inb(b: BucketInfo, t: i64) -> bool { b.start_time <= t && (t < b.end_time || b.end_time == i64::MAX) }
//@extract common/models/src/meta_data.rs BucketInfo::vnode_for
@ret r
@spec
    requires self.shard_group@.len() > 0
    ensures r == self.shard_group@[(id as int) % (self.shard_group@.len() as int)]
@end
impl BucketInfo { #[verifier::external_body] fn clone(&self) -> (r: BucketInfo) ensures r == *self { unimplemented!() } }
// the meta service says that b is a bucket of the database
uninterp spec fn known(tenant: B, db: B, b: BucketInfo) -> bool;
spec fn chosen(tenant: B, db: B, h: u64, t: i64, s: ReplicationSet, b: BucketInfo) -> bool { known(tenant, db, b) && inb(b, t) && b.shard_group@.len() > 0 && s == b.shard_group@[(h as int) % (b.shard_group@.len() as int)] }
spec fn assigned(tenant: B, db: B, h: u64, t: i64, s: ReplicationSet) -> bool { exists|b: BucketInfo| #[trigger] chosen(tenant, db, h, t, s, b) }
struct Cached { tenant: Ghost<B> }
impl Cached {
    fn read(&self) -> (r: &Cached) ensures *r == *self { self }
    // proved in C11: the bucket holds the time; a bucket has a set (C12)
    #[verifier::external_body] fn bucket_by_timestamp(&self, db: &Name, t: i64) -> (r: Option<&BucketInfo>) ensures r matches Some(b) ==> known(self.tenant@, db.x@, *b) && inb(*b, t) && b.shard_group@.len() > 0 { unimplemented!() }
}
struct Command {}
struct MetaClient { data: Cached, x: u64 }
impl MetaClient {
    #[verifier::external_body] fn create_bucket_command(&self, db: &Name, t: i64) -> Command { unimplemented!() }
    #[verifier::external_body] fn write_with_data(&self, c: &Command) -> std::result::Result<u8, Error> { unimplemented!() }
    #[verifier::external_body] fn get_db_schema(&self, db: &Name) -> (r: CoordinatorResult<DbSchema>) ensures r matches Ok(s) ==> s.hidden@ == hidden(self.data.tenant@, db.x@) && s.config.p@ == precision_of(self.data.tenant@, db.x@) { unimplemented!() }
}
uninterp spec fn hidden(tenant: B, db: B) -> bool;
uninterp spec fn precision_of(tenant: B, db: B) -> Precision;
struct DbConfig { p: Ghost<Precision> }
impl DbConfig { #[verifier::external_body] fn precision(&self) -> (r: &Precision) ensures *r == self.p@ { unimplemented!() } }
struct DbSchema { hidden: Ghost<bool>, config: DbConfig }
impl DbSchema { #[verifier::external_body] fn is_hidden(&self) -> (r: bool) ensures r == self.hidden@ { unimplemented!() } }
//@extract meta/src/model/meta_tenant.rs TenantMeta::create_bucket
@header impl MetaClient
@ret r
@subst /async fn/ => fn
@subst /&str/ => &Name
@subst /command::WriteCommand::CreateBucket\(\s*self\.cluster\.clone\(\),\s*self\.tenant_name\(\),\s*db\.to_string\(\),\s*ts,\s*\)/ => self.create_bucket_command(db, ts)
@subst /self\.write_with_data\(&req\)\.await\?;/ => self.write_with_data(&req)?;
@subst /MetaError::CommonError \{[\s\S]*?\}\)/ => Error {})
@spec
    ensures r matches Ok(b) ==> known(self.data.tenant@, db.x@, b) && inb(b, ts) && b.shard_group@.len() > 0
@end
//@extract meta/src/model/meta_tenant.rs TenantMeta::locate_replication_set_for_write
@header impl MetaClient
@ret r
@subst /async fn/ => fn
@subst /&str/ => &Name
@subst /\.await/ =>
@subst /return Ok\(bucket\.vnode_for\(hash_id\)\);/ => let s = bucket.vnode_for(hash_id); proof { assert(chosen(self.data.tenant@, db.x@, hash_id, ts, s, *bucket)); } return Ok(s);
@subst /Ok\(bucket\.vnode_for\(hash_id\)\)\s*\}$/ => let s = bucket.vnode_for(hash_id); proof { assert(chosen(self.data.tenant@, db.x@, hash_id, ts, s, bucket)); } Ok(s) }
@spec
    ensures r matches Ok(s) ==> assigned(self.data.tenant@, db.x@, hash_id, ts, s)
@end
// ---- requests ----
struct WriteDataRequest { data: Vec<u8>, precision: u32 }
enum Command_ { WriteData(WriteDataRequest), Other }
struct RaftWriteCommand { replica_id: u32, db_name: Name, tenant: Name, command: Option<Command_> }
// a request on its way to the leader of a set; nothing happens until it is awaited
struct Fut { set: Ghost<ReplicationSet>, req: Ghost<RaftWriteCommand> }
spec fn asks(f: Fut, tenant: B, db: B, p: Precision, s: ReplicationSet, data: B) -> bool {
    &&& f.set@ == s &&& f.req@.replica_id == s.id &&& f.req@.tenant.x@ == tenant &&& f.req@.db_name.x@ == db
    &&& (f.req@.command matches Some(Command_::WriteData(w)) && w.data@ == data && w.precision == p as u32)
}
// the request was carried out
uninterp spec fn done(f: Fut) -> bool;
// what was sent so far
struct Log { v: Ghost<Seq<Fut>> }
struct Results { v: Ghost<Seq<Fut>>, n: usize }
impl Results {
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.v@.len() { unimplemented!() }
    #[verifier::external_body] fn taken(&self, i: usize) -> (r: CoordinatorResult<()>) requires i < self.v@.len() ensures r is Ok ==> done(self.v@[i as int]) { unimplemented!() }
}
#[verifier::external_body] fn join_all(r: Vec<Fut>, log: &mut Log) -> (a: Results) ensures final(log).v@ == old(log).v@ + r@, a.v@ == r@ { unimplemented!() }
struct Limiter {}
impl Limiter { #[verifier::external_body] fn check_coord_writes(&self) -> CoordinatorResult<()> { unimplemented!() } #[verifier::external_body] fn check_coord_data_in(&self, n: usize) -> CoordinatorResult<()> { unimplemented!() } }
struct Meta { x: u64 }
impl Meta {
    #[verifier::external_body] fn limiter(&self, tenant: &Name) -> CoordinatorResult<Limiter> { unimplemented!() }
    #[verifier::external_body] fn tenant_meta(&self, tenant: &Name) -> (r: Option<MetaClient>) ensures r matches Some(m) ==> m.data.tenant@ == tenant.x@ { unimplemented!() }
}
struct CoordService { meta: Meta }
impl CoordService { #[verifier::external_body] fn write_replica_by_raft(&self, s: ReplicationSet, q: RaftWriteCommand) -> (r: Fut) ensures r.set@ == s, r.req@ == q { unimplemented!() } }
//@extract coordinator/src/service.rs CoordService::push_points_to_requests
@header impl CoordService
@ret r
@subst /async fn push_points_to_requests<'a>/ => fn push_points_to_requests
@subst /&'a self/ => &self
@subst /&'a str/ => &Name
@subst /Arc<Vec<u8>>/ => Vec<u8>
@subst /span_ctx: Option<&'a SpanContext>,/ =>
@subst /-> CoordinatorResult<Vec<impl[\s\S]*?\+ 'a>>/ => -> CoordinatorResult<Vec<Fut>>
@subst /let _span = Span::from_context\([^;]*;/ =>
@subst /\.await/ =>
@subst /\.context\(MetaSnafu\)/ =>
@subst /self\.metrics\.coord_writes\(tenant, db\)\.inc_one\(\);/ =>
@subst /self\.metrics\s*\.coord_data_in\(tenant, db\)\s*\.inc\(write_size as u64\);/ =>
@subst /CommonSnafu \{[^}]*\}\s*\.build\(\)/ => Error {}
@subst /info\.vnodes\.is_empty\(\)/ => info.vnodes.len() == 0
@subst /let mut requests: Vec<Pin<[^;]*> =\s*Vec::new\(\);/ => let mut requests: Vec<Fut> = Vec::new();
@subst /Arc::unwrap_or_clone\(points\)/ => points
@subst /raft_write_command::Command::/ => Command_::
@subst /, span_ctx\);/ => );
@subst /Box::pin\(request\)/ => request
@spec
    ensures r matches Ok(v) ==> v@.len() == 1 && asks(v@[0], tenant.x@, db.x@, precision, info, points@)
@end
