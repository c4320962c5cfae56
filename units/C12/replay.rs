//@prelude
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
#[derive(Clone, Debug, PartialEq)]
struct NodeInfo { id: u64, grpc_addr: String }
type VnodeId = u32; type NodeId = u64; type ReplicationSetId = u32;
//@extract common/models/src/meta_data.rs enum VnodeStatus
@derive Clone, Copy, Debug, PartialEq
@end
impl Default for VnodeStatus { fn default() -> Self { VnodeStatus::Running } }
//@extract common/models/src/meta_data.rs struct VnodeInfo
@derive Clone, Debug, Default, PartialEq
@subst /#\[serde\(.*?\)\]/ => 
@end
//@extract common/models/src/meta_data.rs struct ReplicationSet
@derive Clone, Debug, PartialEq
@end
//@extract common/models/src/meta_data.rs struct BucketInfo
@derive Clone, Debug, PartialEq
@end
//@extract common/models/src/meta_data.rs VnodeInfo::new
@end
//@extract common/models/src/meta_data.rs ReplicationSet::vnode
@end
//@extract common/models/src/meta_data.rs ReplicationSet::by_node_id
@end
//@extract common/models/src/meta_data.rs BucketInfo::vnode_for
@end
//@extract common/models/src/meta_data.rs BucketInfo::contains
@end
//@extract common/models/src/meta_data.rs get_time_range
@end
//@extract common/models/src/meta_data.rs allocation_replication_set
@end
#[derive(Debug)]
enum MetaError { ValidNodeNotEnough { need: u64, valid_node_num: u32 }, DatabaseNotFound { database: String }, DatabaseSchemaInvalid { name: String }, NotSupport { msg: String } }
type MetaResult<T> = Result<T, MetaError>;
//@extract meta/src/store/storage.rs check_node_enough
@end
#[derive(Clone, Copy)] enum Precision { NS }
#[derive(Clone)] struct CnosDuration(i64);
impl CnosDuration { fn to_precision(&self, _p: Precision) -> i64 { self.0 } }
#[derive(Clone)] struct DatabaseOptions { shard_num: u64, replica: u64, dur: CnosDuration }
impl DatabaseOptions { fn shard_num(&self) -> u64 { self.shard_num } fn replica(&self) -> u64 { self.replica } fn vnode_duration(&self) -> &CnosDuration { &self.dur } }
#[derive(Clone)] struct DatabaseConfig { p: Precision }
impl DatabaseConfig { fn precision(&self) -> &Precision { &self.p } }
#[derive(Clone)] struct DatabaseSchema { options: DatabaseOptions, config: DatabaseConfig, keep: i64 }
impl DatabaseSchema { fn time_to_expired(&self) -> i64 { self.keep } }
struct TenantMetaData;
struct KeyPath;
impl KeyPath { fn tenant_db_name(_: &str, _: &str, d: &str) -> String { d.to_string() } fn tenant_bucket_id(_: &str, _: &str, d: &str, id: u32) -> String { format!("{d}/{id}") } }
fn value_encode(b: &BucketInfo) -> MetaResult<BucketInfo> { Ok(b.clone()) }
fn ping_servers(n: &[NodeInfo]) -> Vec<NodeInfo> { n.to_vec() }
struct StateMachine { next: Cell<u32>, nodes: RefCell<Vec<NodeInfo>>, dbs: RefCell<BTreeMap<String, DatabaseSchema>>, buckets: RefCell<Vec<(String, BucketInfo)>> }
impl StateMachine {
    fn children_data(&self, k: &str) -> MetaResult<BTreeMap<u32, BucketInfo>> { Ok(self.buckets.borrow().iter().filter(|(d, _)| format!("{d}/buckets") == k).map(|(_, b)| (b.id, b.clone())).collect()) }
    fn get_struct(&self, k: &str) -> MetaResult<Option<DatabaseSchema>> { Ok(self.dbs.borrow().get(k).cloned()) }
    fn get_valid_node_list(&self, _c: &str) -> MetaResult<Vec<NodeInfo>> { Ok(self.nodes.borrow().clone()) }
    fn to_tenant_meta_data(&self, _c: &str, _t: &str) -> MetaResult<TenantMetaData> { Ok(TenantMetaData) }
    fn fetch_and_add_incr_id(&self, _c: &str, n: u32) -> MetaResult<u32> { let r = self.next.get(); self.next.set(r + n); Ok(r) }
    fn insert(&self, k: &str, v: &BucketInfo) -> MetaResult<()> { self.buckets.borrow_mut().push((k.rsplit_once('/').unwrap().0.to_string(), v.clone())); Ok(()) }
}
//@extract meta/src/store/storage.rs StateMachine::process_create_bucket
@header impl StateMachine
@subst /async fn/ => fn
@subst /\.await/ => 
@subst /children_data::<BucketInfo>/ => children_data
@subst /get_struct::<DatabaseSchema>/ => get_struct
@end
//@helpers
fn check(sets: &[ReplicationSet], used: u32, nodes: &[NodeInfo], shards: u32, replica: u32, from: u32) -> Result<(), String> {
    let f = replica.max(1).min(nodes.len() as u32);
    if sets.len() != shards as usize { return Err(format!("{} sets", sets.len())); }
    let mut ids = HashSet::new(); let mut load = BTreeMap::new();
    for s in sets {
        if s.vnodes.len() != f as usize { return Err(format!("{s:?} has not {f} vnodes")); }
        let mut on = HashSet::new();
        for id in s.vnodes.iter().map(|v| v.id).chain([s.id]) { if id < from || id >= from + used { return Err(format!("id {id} is not reserved ({from}..{})", from + used)); } if !ids.insert(id) { return Err(format!("id {id} is used twice")); } }
        for v in &s.vnodes { if !on.insert(v.node_id) { return Err(format!("two vnodes of a set on node {}: {s:?}", v.node_id)); } if !nodes.iter().any(|n| n.id == v.node_id) { return Err(format!("no node {}", v.node_id)); } *load.entry(v.node_id).or_insert(0u32) += 1; 
            if s.vnode(v.id).as_ref() != Some(v) || s.by_node_id(v.node_id).as_ref() != Some(v) { return Err(format!("{v:?} is not found in {s:?}")); } }
        if !s.vnodes.iter().any(|v| v.id == s.leader_vnode_id && v.node_id == s.leader_node_id) { return Err(format!("the leader is no vnode of {s:?}")); }
        if s.vnode(s.id).is_some() || s.by_node_id(u64::MAX).is_some() { return Err("found a vnode that does not exist".into()); }
    }
    Ok(())
}
fn main() {
    let mut h = H::new();
    let mut r = h.rng(12);
    for n in 1..7usize { for shards in 0..8u32 { for replica in 0..8u32 { for from in [0u32, 1, 1000] {
        let nodes: Vec<NodeInfo> = (0..n).map(|i| NodeInfo { id: 1000 + (i as u64 * 7919) % 101, grpc_addr: String::new() }).collect();
        h.case("allocate", hash(&(n, shards, replica, from)), &|| format!("{n} nodes, {shards} shards, {replica} replicas from id {from}"), &mut || {
            let (sets, used) = allocation_replication_set(nodes.clone(), shards, replica, from);
            check(&sets, used, &nodes, shards, replica, from)
        });
    } } } }
    h.exhaustive("1..=6 nodes, 0..=7 shards, 0..=7 replicas");
    for _ in 0..h.scale(4_000, 100_000) {
        let nn = 1 + r.below(6); let ndb = 1 + r.below(3);
        let ops: Vec<(u64, i64)> = (0..1 + r.below(8)).map(|_| (r.below(ndb + 1), match r.below(4) { 0 => i64::MAX, 1 => i64::MIN, 2 => r.below(500) as i64 - 100, _ => r.word() as i64 })).collect();
        let opt: Vec<(u64, u64, i64, i64)> = (0..ndb).map(|_| (r.below(5), 1 + r.below(4), match r.below(3) { 0 => 100, 1 => i64::MAX, _ => (r.word() >> 1) as i64 }, if r.chance(1, 3) { r.below(300) as i64 } else { i64::MIN })).collect();
        let first = 1 + r.below(1000) as u32;
        h.case("create", hash(&(nn, &ops, &opt)), &|| format!("{nn} nodes, databases (shards, replicas, period, kept from) {opt:?}, create {ops:?}, first id {first}"), &mut || {
            let sm = StateMachine { next: Cell::new(first), nodes: RefCell::new((0..nn).map(|i| NodeInfo { id: 7 * i + 3, grpc_addr: String::new() }).collect()), dbs: RefCell::new(BTreeMap::new()), buckets: RefCell::new(vec![]) };
            for (i, o) in opt.iter().enumerate() { sm.dbs.borrow_mut().insert(format!("db{i}"), DatabaseSchema { options: DatabaseOptions { shard_num: o.0, replica: o.1, dur: CnosDuration(o.2) }, config: DatabaseConfig { p: Precision::NS }, keep: o.3 }); }
            let mut ids = HashSet::new();
            for (d, t) in &ops {
                let name = format!("db{d}"); let before = sm.buckets.borrow().clone(); let n0 = sm.next.get();
                let had = before.iter().any(|(x, b)| *x == name && b.start_time <= *t && (*t < b.end_time || b.end_time == i64::MAX));
                let res = sm.process_create_bucket("c", "t", &name, t);
                let after = sm.buckets.borrow().clone();
                if after[..before.len()] != before[..] { return Err("an existing bucket changed".into()); }
                let o = opt.get(*d as usize);
                let may = o.map_or(false, |o| o.0 > 0 && o.1 <= nn && *t >= o.3);
                if res.is_ok() != (had || may) { return Err(format!("creating for {name} at {t}: {:?}", res.err())); }
                if after.len() != before.len() + (!had && may) as usize { return Err(format!("{} new buckets for {name} at {t}", after.len() - before.len())); }
                if let Some((x, b)) = after.get(before.len()) {
                    let o = o.unwrap();
                    if *x != name || !(b.start_time <= *t && (*t < b.end_time || b.end_time == i64::MAX)) { return Err(format!("{x}: {b:?} for {name} at {t}")); }
                    if b.id < n0 || b.id >= sm.next.get() || !ids.insert(b.id) { return Err(format!("bucket id {} is not fresh", b.id)); }
                    check(&b.shard_group, sm.next.get() - n0, &sm.nodes.borrow(), o.0 as u32, o.1 as u32, n0)?;
                    for id in b.shard_group.iter().flat_map(|s| s.vnodes.iter().map(|v| v.id).chain([s.id])) { if !ids.insert(id) { return Err(format!("id {id} is used twice")); } }
                    for hsh in [0u64, 1, 5, u64::MAX, 1 << 40] { let s = b.vnode_for(hsh); if s != b.vnode_for(hsh) || !b.shard_group.contains(&s) { return Err("the set chosen for a series is not of the bucket".into()); } }
                }
            }
            Ok(())
        });
    }
    h.done();
}
