use vstd::prelude::*;
verus! {
struct NodeInfo { id: u64, grpc_addr: u8 }
type VnodeId = u32; type NodeId = u64; type ReplicationSetId = u32;
//@extract common/models/src/meta_data.rs enum VnodeStatus
@derive Clone, Copy
@end
//@extract common/models/src/meta_data.rs struct VnodeInfo
@end
//@extract common/models/src/meta_data.rs struct ReplicationSet
@end
//@extract common/models/src/meta_data.rs struct BucketInfo
@end
impl VnodeStatus { fn default() -> (r: VnodeStatus) { VnodeStatus::Running } }
//@extract common/models/src/meta_data.rs VnodeInfo::new
@ret r
@subst /\.\.Default::default\(\)/ => status: VnodeStatus::default()
@spec
    ensures r.id == id, r.node_id == node_id
@end
impl VnodeInfo {
    #[verifier::external_body]
    fn clone(&self) -> (r: VnodeInfo) ensures r == *self { unimplemented!() }
}
impl ReplicationSet {
    #[verifier::external_body]
    fn clone(&self) -> (r: ReplicationSet) ensures r == *self { unimplemented!() }
}
//@extract common/models/src/meta_data.rs ReplicationSet::vnode
@ret r
@iter 0 it
@loop 0
    invariant it.seq().len() == self.vnodes@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == self.vnodes@[k], forall|k: int| 0 <= k < it.index@ ==> self.vnodes@[k].id != id
@spec
    ensures r is Some ==> hasv(*self, r->0) && r->0.id == id, r is None ==> forall|k: int| 0 <= k < self.vnodes@.len() ==> (#[trigger] self.vnodes@[k]).id != id
@end
spec fn hasv(s: ReplicationSet, v: VnodeInfo) -> bool { exists|k: int| 0 <= k < s.vnodes@.len() && #[trigger] s.vnodes@[k] == v }
//@extract common/models/src/meta_data.rs ReplicationSet::by_node_id
@ret r
@iter 0 it
@loop 0
    invariant it.seq().len() == self.vnodes@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == self.vnodes@[k], forall|k: int| 0 <= k < it.index@ ==> self.vnodes@[k].node_id != id
@spec
    ensures r is Some ==> hasv(*self, r->0) && r->0.node_id == id, r is None ==> forall|k: int| 0 <= k < self.vnodes@.len() ==> (#[trigger] self.vnodes@[k]).node_id != id
@end
//@extract common/models/src/meta_data.rs BucketInfo::vnode_for
@ret r
@spec
    requires self.shard_group@.len() > 0
    ensures r == self.shard_group@[(id as usize as int) % (self.shard_group@.len() as int)]
@end

// ---- placement: what a replication set must be
spec fn factor(replica: u32, n: int) -> int { if replica == 0 { 1 } else if replica > n { n } else { replica as int } }
// the ids of set i (its own and those of its vnodes) are the next 1 + f ids after `from`
spec fn placed(s: ReplicationSet, from: int, f: int, nodes: Seq<NodeInfo>) -> bool {
    &&& s.id == from && s.vnodes@.len() == f
    &&& forall|j: int| 0 <= j < f ==> (#[trigger] s.vnodes@[j]).id == from + 1 + j
    &&& spread(s.vnodes@, nodes)
    &&& s.leader_vnode_id == s.vnodes@[0].id && s.leader_node_id == s.vnodes@[0].node_id
}
// every vnode is on one of the nodes and no two of a set are on the same one
spec fn is_node(nodes: Seq<NodeInfo>, id: u64) -> bool { exists|k: int| 0 <= k < nodes.len() && (#[trigger] nodes[k]).id == id }
spec fn spread(v: Seq<VnodeInfo>, nodes: Seq<NodeInfo>) -> bool {
    &&& forall|j: int| 0 <= j < v.len() ==> is_node(nodes, (#[trigger] v[j]).node_id)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).node_id != (#[trigger] v[j]).node_id
}
spec fn distinct(nodes: Seq<NodeInfo>) -> bool { forall|i: int, j: int| 0 <= i < j < nodes.len() ==> (#[trigger] nodes[i]).id != (#[trigger] nodes[j]).id }
proof fn lemma_step(i: int, j: int, n: int) requires 0 <= i < j, j - i < n ensures i % n != j % n
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, n); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j, n);
    if i % n == j % n { let a = i / n; let b = j / n; assert(j - i == n * (b - a)) by (nonlinear_arith) requires i == n * a + i % n, j == n * b + j % n, i % n == j % n; assert(b - a <= 0 || n * (b - a) >= n) by (nonlinear_arith) requires n > 0; assert(b - a > 0 || n * (b - a) <= 0) by (nonlinear_arith) requires n > 0; }
}
proof fn lemma_mul(k: int, s: int, f: int) requires 0 <= k < s, f >= 0 ensures (k + 1) * (1 + f) == k * (1 + f) + 1 + f, (k + 1) * (1 + f) <= s * (1 + f), (k + 1) * f == k * f + f, (k + 1) * f <= (k + 1) * (1 + f), k * f >= 0, k * (1 + f) >= 0
{
    assert((k + 1) * (1 + f) == k * (1 + f) + 1 + f) by (nonlinear_arith); assert((k + 1) * f == k * f + f) by (nonlinear_arith);
    assert((k + 1) * (1 + f) <= s * (1 + f)) by (nonlinear_arith) requires k + 1 <= s, f >= 0;
    assert((k + 1) * f <= (k + 1) * (1 + f)) by (nonlinear_arith) requires k >= 0, f >= 0; assert(k * f >= 0) by (nonlinear_arith) requires k >= 0, f >= 0; assert(k * (1 + f) >= 0) by (nonlinear_arith) requires k >= 0, f >= 0;
}
//@extract common/models/src/meta_data.rs allocation_replication_set
@attr #[verifier::loop_isolation(false)]
@ret r
@subst /let mut group = vec!\[\];/ => let mut group: Vec<ReplicationSet> = Vec::new();
@subst /let mut index = 0;/ => let mut index: u32 = 0;
@subst /vec!\[\]/ => Vec::new()
@subst /nodes\.get\(\((.*?)\) as usize\)\.unwrap\(\)\.id/ => nodes[(\1) as usize].id
@iter 0 ot
@iter 1 jt
@at before-loop 0
    let ghost f = factor(old_replica, nodes@.len() as int);
    assert(f == replica && f <= node_count);
@at start
    let ghost old_replica = replica; let ghost begin = begin_seq as int;
@loop 0
    invariant group@.len() == ot.index@, ot.seq().len() == shards,
      incr_id == begin + ot.index@ * (1 + f), index == ot.index@ * f,
      forall|i: int| 0 <= i < group@.len() ==> #[trigger] placed(group@[i], begin + i * (1 + f), f, nodes@)
@at loop-start 0
    let ghost k = ot.index@ as int; let ghost from = incr_id as int; let ghost at0 = index as int; let ghost g0 = group@;
    proof { lemma_mul(k, shards as int, f); }
@loop 1
    invariant repl_set.id == from, repl_set.vnodes@.len() == jt.index@, jt.seq().len() == f, incr_id == from + 1 + jt.index@, index == at0 + jt.index@,
      forall|j: int| 0 <= j < repl_set.vnodes@.len() ==> (#[trigger] repl_set.vnodes@[j]).id == from + 1 + j && repl_set.vnodes@[j].node_id == nodes@[(at0 + j) % (nodes@.len() as int)].id
@at loop-start 1
    proof { assert(0 <= (index as int) % (nodes@.len() as int) < nodes@.len()); }
@at after-loop 1
    proof {
        let v = repl_set.vnodes@; let n = nodes@.len() as int;
        assert forall|j: int| 0 <= j < v.len() implies is_node(nodes@, (#[trigger] v[j]).node_id) by { assert(0 <= (at0 + j) % n < n); assert(v[j].node_id == nodes@[(at0 + j) % n].id); }
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).node_id != (#[trigger] v[j]).node_id by {
            lemma_step(at0 + i, at0 + j, n);
            let (a, b) = ((at0 + i) % n, (at0 + j) % n); assert(0 <= a < n && 0 <= b < n && a != b);
            if a < b { assert(nodes@[a].id != nodes@[b].id); } else { assert(nodes@[b].id != nodes@[a].id); }
        }
        assert(repl_set.vnodes@[0].id == from + 1);
    }
@at loop-end 0
    proof { assert(placed(group@[k], begin + k * (1 + f), f, nodes@)); assert forall|i: int| 0 <= i < group@.len() implies #[trigger] placed(group@[i], begin + i * (1 + f), f, nodes@) by { if i < k { assert(group@[i] == g0[i]); } } }
@spec
    requires nodes@.len() > 0, nodes@.len() <= u32::MAX, distinct(nodes@), begin_seq + shards * (1 + factor(replica, nodes@.len() as int)) <= u32::MAX
    ensures
      r.0@.len() == shards, r.1 == shards * (1 + factor(replica, nodes@.len() as int)),
      forall|i: int| 0 <= i < shards ==> #[trigger] placed(r.0@[i], begin_seq + i * (1 + factor(replica, nodes@.len() as int)), factor(replica, nodes@.len() as int), nodes@)
@end

// ---- creating a bucket in the meta store
#[derive(Debug)]
enum MetaError { Other }
type MetaResult<T> = Result<T, MetaError>;
impl MetaError { #[verifier::external_body] fn some() -> (r: MetaError) { unimplemented!() } }
//@extract meta/src/store/storage.rs check_node_enough
@ret r
@subst /Err\(MetaError::ValidNodeNotEnough \{.*?\}\)/ => Err(MetaError::some())
@spec
    ensures r is Ok ==> need <= node_list@.len()
@end
//@extract common/models/src/meta_data.rs BucketInfo::contains
@ret r
@spec
    ensures r == inb(*self, ts)
@end
spec fn inb(b: BucketInfo, t: i64) -> bool { b.start_time <= t && (t < b.end_time || b.end_time == i64::MAX) }
#[verifier::external_body]
fn get_time_range(ts: i64, duration: i64) -> (r: (i64, i64)) // proved in C11
    ensures r.0 <= ts && (ts < r.1 || r.1 == i64::MAX)
{ unimplemented!() }
#[derive(Clone, Copy)]
struct Precision { x: u8 }
struct CnosDuration { x: u64 }
impl CnosDuration { #[verifier::external_body] fn to_precision(&self, p: Precision) -> (r: i64) { unimplemented!() } }
struct DatabaseOptions { shard_num: u64, replica: u64, dur: CnosDuration }
impl DatabaseOptions { fn shard_num(&self) -> (r: u64) ensures r == self.shard_num { self.shard_num } fn replica(&self) -> (r: u64) ensures r == self.replica { self.replica } fn vnode_duration(&self) -> (r: &CnosDuration) { &self.dur } }
struct DatabaseConfig { p: Precision }
impl DatabaseConfig { fn precision(&self) -> (r: &Precision) { &self.p } }
struct DatabaseSchema { options: DatabaseOptions, config: DatabaseConfig }
impl DatabaseSchema { #[verifier::external_body] fn time_to_expired(&self) -> (r: i64) { unimplemented!() } }
struct TenantMetaData { x: u64 }
struct Str { x: u8 }
#[verifier::external_body]
struct Key { x: u64 }
// the store: the next free id and the buckets ever written (every other part is left out)
#[verifier::external_body]
struct StateMachine { x: u64 }
uninterp spec fn next(s: StateMachine) -> int;
uninterp spec fn written(s: StateMachine) -> Seq<BucketInfo>;
uninterp spec fn live(s: StateMachine, k: Key) -> Seq<BucketInfo>;
uninterp spec fn schema(s: StateMachine, k: Key) -> Option<DatabaseSchema>;
uninterp spec fn dbkey(c: Str, t: Str, d: Str) -> Key;
uninterp spec fn below(k: Key) -> Key;
uninterp spec fn bucketkey(c: Str, t: Str, d: Str, id: u32) -> Key;
uninterp spec fn nodes_of(s: StateMachine, c: Str) -> Seq<NodeInfo>;
struct KeyPath { x: u8 }
impl KeyPath {
    #[verifier::external_body] fn tenant_db_name(c: &Str, t: &Str, d: &Str) -> (r: Key) ensures r == dbkey(*c, *t, *d) { unimplemented!() }
    #[verifier::external_body] fn tenant_bucket_id(c: &Str, t: &Str, d: &Str, id: u32) -> (r: Key) ensures r == bucketkey(*c, *t, *d, id) { unimplemented!() }
}
#[verifier::external_body]
fn buckets_of(k: &Key) -> (r: Key) ensures r == below(*k) { unimplemented!() }
#[verifier::external_body]
struct Text { x: u64 }
uninterp spec fn tv(t: Text) -> BucketInfo;
#[verifier::external_body]
fn value_encode(b: &BucketInfo) -> (r: MetaResult<Text>) ensures r is Ok ==> tv(r->Ok_0) == *b { unimplemented!() }
#[verifier::external_body]
fn ping_servers(n: &Vec<NodeInfo>) -> (r: Vec<NodeInfo>) ensures r@.len() <= n@.len(), distinct(n@) ==> distinct(r@), forall|i: int| 0 <= i < r@.len() ==> is_node(n@, (#[trigger] r@[i]).id) { unimplemented!() }
impl StateMachine {
    #[verifier::external_body] fn children_data(&self, k: &Key) -> (r: MetaResult<Vec<(u8, BucketInfo)>>) ensures r is Ok ==> r->Ok_0@.len() == live(*self, *k).len() && forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i]).1 == live(*self, *k)[i] { unimplemented!() }
    #[verifier::external_body] fn get_schema(&self, k: &Key) -> (r: MetaResult<DatabaseSchema>) ensures r is Ok ==> schema(*self, *k) == Some(r->Ok_0) { unimplemented!() }
    #[verifier::external_body] fn get_valid_node_list(&self, c: &Str) -> (r: MetaResult<Vec<NodeInfo>>) ensures r is Ok ==> r->Ok_0@ == nodes_of(*self, *c) { unimplemented!() }
    #[verifier::external_body] fn to_tenant_meta_data(&self, c: &Str, t: &Str) -> (r: MetaResult<TenantMetaData>) { unimplemented!() }
    #[verifier::external_body] fn fetch_and_add_incr_id(&mut self, c: &Str, count: u32) -> (r: MetaResult<u32>)
        ensures written(*final(self)) == written(*old(self)), r is Ok ==> r->Ok_0 == next(*old(self)) && next(*final(self)) == next(*old(self)) + count, r is Err ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: &Key, v: &Text) -> (r: MetaResult<()>) ensures r is Ok ==> written(*final(self)) == written(*old(self)).push(tv(*v)), r is Err ==> written(*final(self)) == written(*old(self)), next(*final(self)) == next(*old(self)) { unimplemented!() }
}
// all ids of a bucket (its own, its replication sets', their vnodes') lie in [a, b), each used once
spec fn ids_in(b: BucketInfo, from: int, to: int) -> bool {
    from <= b.id < to
    && (forall|i: int| 0 <= i < b.shard_group@.len() ==> b.id < (#[trigger] b.shard_group@[i]).id < to && forall|j: int| 0 <= j < b.shard_group@[i].vnodes@.len() ==> b.shard_group@[i].id < (#[trigger] b.shard_group@[i].vnodes@[j]).id < to)
    && (forall|i: int, k: int, j: int| 0 <= i < k < b.shard_group@.len() && 0 <= j < b.shard_group@[i].vnodes@.len() ==> #[trigger] b.shard_group@[i].vnodes@[j].id < (#[trigger] b.shard_group@[k]).id)
}
spec fn good(b: BucketInfo, s: DatabaseSchema, ts: i64, nodes: Seq<NodeInfo>) -> bool {
    &&& inb(b, ts) && b.shard_group@.len() == s.options.shard_num as u32
    &&& forall|i: int| 0 <= i < b.shard_group@.len() ==> { let g = #[trigger] b.shard_group@[i]; g.vnodes@.len() == s.options.replica && spread(g.vnodes@, nodes) && g.leader_vnode_id == g.vnodes@[0].id && g.leader_node_id == g.vnodes@[0].node_id }
}
proof fn lemma_ids(b: BucketInfo, s: DatabaseSchema, ts: i64, f: int, list: Seq<NodeInfo>, nodes: Seq<NodeInfo>)
    requires b.shard_group@.len() == s.options.shard_num as u32, f == s.options.replica, inb(b, ts), f > 0, forall|i: int| 0 <= i < list.len() ==> is_node(nodes, (#[trigger] list[i]).id),
      forall|i: int| 0 <= i < b.shard_group@.len() ==> #[trigger] placed(b.shard_group@[i], b.id + 1 + i * (1 + f), f, list)
    ensures ids_in(b, b.id as int, b.id + 1 + b.shard_group@.len() * (1 + f)), good(b, s, ts, nodes)
{
    let g = b.shard_group@; let to = b.id + 1 + g.len() * (1 + f);
    assert forall|i: int| 0 <= i < g.len() implies b.id < (#[trigger] g[i]).id < to && forall|j: int| 0 <= j < g[i].vnodes@.len() ==> g[i].id < (#[trigger] g[i].vnodes@[j]).id < to by { lemma_mul(i, g.len() as int, f); assert(placed(g[i], b.id + 1 + i * (1 + f), f, list)); }
    assert(b.id < to) by (nonlinear_arith) requires to == b.id + 1 + g.len() * (1 + f), f > 0;
    assert forall|i: int, k: int, j: int| 0 <= i < k < g.len() && 0 <= j < g[i].vnodes@.len() implies #[trigger] g[i].vnodes@[j].id < (#[trigger] g[k]).id by {
        assert(placed(g[i], b.id + 1 + i * (1 + f), f, list)); assert(placed(g[k], b.id + 1 + k * (1 + f), f, list)); lemma_mul(i, k, f);
    }
    assert forall|i: int| 0 <= i < g.len() implies g[i].vnodes@.len() == f && spread(#[trigger] g[i].vnodes@, nodes) && g[i].leader_vnode_id == g[i].vnodes@[0].id && g[i].leader_node_id == g[i].vnodes@[0].node_id by {
        assert(placed(g[i], b.id + 1 + i * (1 + f), f, list));
        let v = g[i].vnodes@;
        assert forall|j: int| 0 <= j < v.len() implies is_node(nodes, (#[trigger] v[j]).node_id) by { assert(is_node(list, v[j].node_id)); let k = choose|k: int| 0 <= k < list.len() && (#[trigger] list[k]).id == v[j].node_id; assert(is_node(nodes, list[k].id)); }
    }
}
//@extract meta/src/store/storage.rs StateMachine::process_create_bucket
@header impl StateMachine
@ret r
@subst /async fn/ => fn
@subst /\.await/ => 
@subst /&self,/ => &mut self,
@subst /&str/ => &Str
@subst /&\(db_path\.clone\(\) \+ "\/buckets"\)/ => &buckets_of(&db_path)
@subst /children_data::<BucketInfo>/ => children_data
@subst /for \(_, val\) in buckets\.iter\(\) \{/ => for kv in buckets.iter() { let val = &kv.1;
@subst /self\s*\.get_struct::<DatabaseSchema>\(&db_path\)\?\s*\.ok_or_else\(.*?\}\)\?/ => self.get_schema(&db_path)?
@subst /Err\(MetaError::\w+ \{.*?\}\)/ => Err(MetaError::some())
@subst /vec!\[\]/ => Vec::new()
@subst /let key = / => proof { lemma_ids(bucket, db_schema, *ts, db_schema.options.replica as int, node_list@, nodes_of(*old(self), *cluster)); } let key = 
@subst /\(bucket\.start_time, bucket\.end_time\) = (get_time_range\(.*?\));\s*let \(/ => let range = \1; bucket.start_time = range.0; bucket.end_time = range.1; let (
@subst /node_list,/ => clone_list(&node_list),
@iter 0 it
@loop 0
    invariant it.seq().len() == buckets@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == buckets@[k], forall|k: int| 0 <= k < it.index@ ==> !inb(#[trigger] live(*old(self), below(db_path))[k], *ts),
      buckets@.len() == live(*old(self), below(db_path)).len(), forall|i: int| 0 <= i < buckets@.len() ==> (#[trigger] buckets@[i]).1 == live(*old(self), below(db_path))[i], db_path == dbkey(*cluster, *tenant, *db), *self == *old(self)
@spec
    requires
      distinct(nodes_of(*old(self), *cluster)), nodes_of(*old(self), *cluster).len() <= u32::MAX,
      // REPLICA 0 is rejected by the parser; the id space is not used up
      schema(*old(self), dbkey(*cluster, *tenant, *db)) is Some ==> { let o = schema(*old(self), dbkey(*cluster, *tenant, *db))->0.options; 0 < o.replica && next(*old(self)) + 1 + (o.shard_num as u32) * (1 + o.replica) <= u32::MAX && o.shard_num <= u32::MAX },
    ensures
      next(*final(self)) >= next(*old(self)),
      written(*final(self)) == written(*old(self)) || {
        // at most one bucket is written, of fresh ids, holding the timestamp, for a database that had none for it
        let b = written(*final(self)).last();
        &&& written(*final(self)) == written(*old(self)).push(b) && ids_in(b, next(*old(self)), next(*final(self)))
        &&& schema(*old(self), dbkey(*cluster, *tenant, *db)) is Some && good(b, schema(*old(self), dbkey(*cluster, *tenant, *db))->0, *ts, nodes_of(*old(self), *cluster))
        &&& forall|i: int| 0 <= i < live(*old(self), below(dbkey(*cluster, *tenant, *db))).len() ==> !inb(#[trigger] live(*old(self), below(dbkey(*cluster, *tenant, *db)))[i], *ts)
      }
@end
#[verifier::external_body]
fn clone_list(v: &Vec<NodeInfo>) -> (r: Vec<NodeInfo>) ensures r@ == v@ { unimplemented!() }
}
