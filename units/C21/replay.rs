//@prelude
pub use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet}; pub use std::rc::Rc; pub use std::cell::RefCell; pub use std::sync::Arc; pub use std::ops::{BitAnd, BitOr, Bound, RangeBounds}; pub use std::sync::atomic::{AtomicU32, Ordering}; pub use std::path::Path;
pub type SeriesId = u32; pub type ColumnId = u32; pub type TagKey = Vec<u8>; pub type TagValue = Vec<u8>;
pub struct BkdrHasher(u64); impl BkdrHasher { pub fn new() -> Self { Self(0) } pub fn hash_with(&mut self, b: &[u8]) { for c in b { self.0 = self.0.wrapping_mul(1313).wrapping_add(*c as u64); } } pub fn number(&self) -> u64 { self.0 } }
// ---- a set of ids; a store of keys in order, whose transactions are seen when they are committed ----
pub mod roaring { use super::*;
#[derive(Debug, Clone, PartialEq, Default)] pub struct RoaringBitmap(pub BTreeSet<u32>);
impl RoaringBitmap { pub fn new() -> Self { Self::default() } pub fn insert(&mut self, i: u32) -> bool { self.0.insert(i) } pub fn remove(&mut self, i: u32) -> bool { self.0.remove(&i) } pub fn is_empty(&self) -> bool { self.0.is_empty() } pub fn contains(&self, i: u32) -> bool { self.0.contains(&i) } pub fn len(&self) -> u64 { self.0.len() as u64 } pub fn iter(&self) -> impl Iterator<Item = u32> + '_ { self.0.iter().copied() }
    pub fn serialize_into(&self, v: &mut Vec<u8>) -> Result<(), String> { v.extend(b"rb"); for i in &self.0 { v.extend(i.to_be_bytes()); } Ok(()) } pub fn deserialize_from(b: &[u8]) -> Result<Self, String> { if b.len() % 4 != 2 || &b[..2] != b"rb" { return Err(format!("not a bitmap: {b:?}")); } Ok(Self(b[2..].chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect())) } }
impl IntoIterator for RoaringBitmap { type Item = u32; type IntoIter = std::collections::btree_set::IntoIter<u32>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
macro_rules! op { ($t:ident, $f:ident, $m:ident) => { impl $t<&RoaringBitmap> for RoaringBitmap { type Output = RoaringBitmap; fn $f(self, o: &RoaringBitmap) -> RoaringBitmap { RoaringBitmap(self.0.$m(&o.0).copied().collect()) } } impl $t<RoaringBitmap> for RoaringBitmap { type Output = RoaringBitmap; fn $f(self, o: RoaringBitmap) -> RoaringBitmap { self.$f(&o) } } impl $t<&RoaringBitmap> for &RoaringBitmap { type Output = RoaringBitmap; fn $f(self, o: &RoaringBitmap) -> RoaringBitmap { self.clone().$f(o) } } } }
op!(BitAnd, bitand, intersection); op!(BitOr, bitor, union);
}
pub mod heed { use super::*; use std::marker::PhantomData; type M = BTreeMap<Vec<u8>, Vec<u8>>;
thread_local! { pub static DISK: RefCell<HashMap<String, Rc<RefCell<M>>>> = RefCell::new(HashMap::new()); }
pub mod types { pub struct Bytes; } pub struct EnvFlags; impl EnvFlags { pub const NO_SYNC: u32 = 0; pub const NO_META_SYNC: u32 = 0; }
pub struct EnvOpenOptions; impl EnvOpenOptions { pub fn new() -> Self { Self } pub unsafe fn flags(&mut self, _: u32) -> &mut Self { self } pub fn map_size(&mut self, _: usize) -> &mut Self { self } pub fn max_dbs(&mut self, _: u32) -> &mut Self { self } pub fn max_readers(&mut self, _: u32) -> &mut Self { self } pub unsafe fn open(&self, p: impl AsRef<Path>) -> Result<Env, String> { Ok(Env(DISK.with(|d| d.borrow_mut().entry(p.as_ref().display().to_string()).or_default().clone()))) } }
#[derive(Clone)] pub struct Env(Rc<RefCell<M>>); pub struct RoTxn(M); pub struct RwTxn(RoTxn, Rc<RefCell<M>>);
impl std::ops::Deref for RwTxn { type Target = RoTxn; fn deref(&self) -> &RoTxn { &self.0 } }
impl Env { pub fn read_txn(&self) -> Result<RoTxn, String> { Ok(RoTxn(self.0.borrow().clone())) } pub fn write_txn(&self) -> Result<RwTxn, String> { Ok(RwTxn(RoTxn(self.0.borrow().clone()), self.0.clone())) } pub fn create_database<K, V>(&self, _: &mut RwTxn, _: Option<&str>) -> Result<Database<K, V>, String> { Ok(Database(PhantomData)) } pub fn force_sync(&self) -> Result<(), String> { Ok(()) } }
impl RwTxn { pub fn commit(self) -> Result<(), String> { *self.1.borrow_mut() = self.0.0; Ok(()) } }
pub struct Database<K, V>(PhantomData<(K, V)>); type Kv<'a> = Result<(&'a [u8], &'a [u8]), String>;
impl<K, V> Database<K, V> { pub fn put(&self, w: &mut RwTxn, k: &[u8], v: &[u8]) -> Result<(), String> { w.0.0.insert(k.to_vec(), v.to_vec()); Ok(()) } pub fn get<'t>(&self, t: &'t RoTxn, k: &[u8]) -> Result<Option<&'t [u8]>, String> { Ok(t.0.get(k).map(|v| &v[..])) } pub fn delete(&self, w: &mut RwTxn, k: &[u8]) -> Result<bool, String> { Ok(w.0.0.remove(k).is_some()) }
    pub fn delete_range<'a>(&self, w: &mut RwTxn, r: &(Bound<&'a [u8]>, Bound<&'a [u8]>)) -> Result<usize, String> { let n = w.0.0.len(); w.0.0.retain(|k, _| !(*r).contains(&k[..])); Ok(n - w.0.0.len()) }
    pub fn range<'t, 'a>(&self, t: &'t RoTxn, r: &'a (Bound<&'a [u8]>, Bound<&'a [u8]>)) -> Result<std::vec::IntoIter<Kv<'t>>, String> { Ok(t.0.iter().filter(|(k, _)| (*r).contains(&k[..])).map(|(k, v)| Ok((&k[..], &v[..]))).collect::<Vec<_>>().into_iter()) }
    pub fn prefix_iter<'t>(&self, t: &'t RoTxn, p: &[u8]) -> Result<std::vec::IntoIter<Kv<'t>>, String> { Ok(t.0.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| Ok((&k[..], &v[..]))).collect::<Vec<_>>().into_iter()) } }
}
pub mod cache { use super::*; pub trait SyncCache {} #[derive(Debug)] pub struct ShardedSyncCache<K, V>(RefCell<Vec<(K, V)>>, usize);
impl<K: PartialEq, V: Clone> ShardedSyncCache<K, V> { pub fn create_lru_sharded_cache(n: usize) -> Self { Self(RefCell::new(vec![]), n) } pub fn insert(&self, k: K, v: V) -> Option<V> { let r = self.remove(&k); let mut m = self.0.borrow_mut(); m.push((k, v)); if m.len() > self.1 { m.remove(0); } r } pub fn remove(&self, k: &K) -> Option<V> { let mut m = self.0.borrow_mut(); let i = m.iter().position(|x| x.0 == *k)?; Some(m.remove(i).1) } pub fn get(&self, k: &K) -> Option<V> { self.0.borrow().iter().find(|x| x.0 == *k).map(|x| x.1.clone()) } } }
pub mod err { #[derive(Debug, PartialEq)] pub enum IndexError { Storage(String), Exists(String), Decode(String) } pub type IndexResult<T> = Result<T, IndexError>; #[derive(Debug)] pub enum TskvError { Index(IndexError), Column(String) }
pub trait Snaf<S> { type E; fn mk(self, s: S) -> Self::E; } pub trait ResultExt<T, S> { fn context<C: Snaf<S>>(self, c: C) -> Result<T, C::E>; } impl<T, S> ResultExt<T, S> for Result<T, S> { fn context<C: Snaf<S>>(self, c: C) -> Result<T, C::E> { self.map_err(|s| c.mk(s)) } } pub trait OptionExt<T> { fn context<C: Snaf<()>>(self, c: C) -> Result<T, C::E>; } impl<T> OptionExt<T> for Option<T> { fn context<C: Snaf<()>>(self, c: C) -> Result<T, C::E> { self.ok_or(()).map_err(|s| c.mk(s)) } }
pub struct IndexStorageSnafu { pub msg: String } impl IndexStorageSnafu { pub fn build(self) -> IndexError { IndexError::Storage(self.msg) } } pub struct RoaringBitmapSnafu; impl Snaf<String> for RoaringBitmapSnafu { type E = IndexError; fn mk(self, s: String) -> IndexError { IndexError::Storage(s) } } pub struct DecodeSeriesKeySnafu { pub msg: String } impl DecodeSeriesKeySnafu { pub fn build(self) -> IndexError { IndexError::Decode(self.msg) } } pub struct SeriesAlreadyExistsSnafu { pub key: String } impl SeriesAlreadyExistsSnafu { pub fn build(self) -> IndexError { IndexError::Exists(self.key) } }
pub struct ColumnNotFoundSnafu { pub column: String } impl Snaf<()> for ColumnNotFoundSnafu { type E = TskvError; fn mk(self, _: ()) -> TskvError { TskvError::Column(self.column) } } pub struct IndexErrSnafu; impl Snaf<IndexError> for IndexErrSnafu { type E = TskvError; fn mk(self, s: IndexError) -> TskvError { TskvError::Index(s) } } }
pub mod byte_utils {
//@extract tskv/src/byte_utils.rs fn decode_be_u32
@end
//@helpers
pub fn be(b: &[u8]) -> u32 { decode_be_u32(b) }
}
pub mod tag { use super::*;
//@extract common/models/src/tag.rs struct Tag
@derive Debug, PartialEq, Hash, Clone, Eq, serde::Serialize, serde::Deserialize
@end
//@extract common/models/src/tag.rs Tag::new_with_column_id
@end
//@extract common/models/src/tag.rs Tag::new
@end
mod st { use super::Tag; use std::cmp::Ordering;
//@extract common/models/src/tag.rs fn sort_tags
@end
//@helpers
pub fn s(t: &mut [Tag]) { sort_tags(t) } }
pub fn sort_tags(t: &mut [Tag]) { st::s(t) }
impl Tag { pub fn mk(id: u32, v: &str) -> Tag { Tag::new_with_column_id(id, v.as_bytes().to_vec()) } pub fn of(k: Vec<u8>, v: Vec<u8>) -> Tag { Tag::new(k, v) } }
}
pub use tag::Tag;
pub mod models { pub use super::Tag; }
pub mod key { use super::*; use super::tag; pub type ModelResult<T> = Result<T, String>; use super::err::*; struct InvalidSerdeMessageSnafu; impl Snaf<Box<bincode::ErrorKind>> for InvalidSerdeMessageSnafu { type E = String; fn mk(self, s: Box<bincode::ErrorKind>) -> String { s.to_string() } }
//@extract common/models/src/series_info.rs struct SeriesKey
@derive Default, Debug, Clone, Hash, PartialEq, Eq, serde::Serialize, serde::Deserialize
@end
//@extract common/models/src/series_info.rs SeriesKey::tags
@end
//@extract common/models/src/series_info.rs SeriesKey::table
@end
//@extract common/models/src/series_info.rs SeriesKey::hash
@end
//@extract common/models/src/series_info.rs SeriesKey::encode
@end
//@extract common/models/src/series_info.rs SeriesKey::decode
@end
impl std::fmt::Display for SeriesKey { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl SeriesKey { pub fn tags_(&self) -> &Vec<Tag> { self.tags() } }
}
pub use key::SeriesKey;
pub mod dom { use super::*; #[derive(Debug, Clone, PartialEq)] pub enum ScalarValue { Utf8(Option<String>), Int64(i64) } #[derive(Debug, PartialEq)] pub enum DataType { Utf8, Int64 } impl ScalarValue { pub fn get_datatype(&self) -> DataType { match self { Self::Utf8(_) => DataType::Utf8, _ => DataType::Int64 } } }
pub fn utf8_from(v: &ScalarValue) -> Option<&str> { match v { ScalarValue::Utf8(v) => v.as_deref(), _ => None } }
#[derive(Debug, Clone)] pub struct Range(pub Bound<ScalarValue>, pub Bound<ScalarValue>); impl RangeBounds<ScalarValue> for Range { fn start_bound(&self) -> Bound<&ScalarValue> { self.0.as_ref() } fn end_bound(&self) -> Bound<&ScalarValue> { self.1.as_ref() } }
#[derive(Debug, Clone)] pub struct RangeValueSet(pub Vec<((), Range)>); impl RangeValueSet { pub fn low_indexed_ranges(&self) -> impl Iterator<Item = (&(), &Range)> { self.0.iter().map(|x| (&x.0, &x.1)) } }
#[derive(Debug, Clone)] pub struct ValueEntry(pub ScalarValue); impl ValueEntry { pub fn value(&self) -> &ScalarValue { &self.0 } } #[derive(Debug, Clone)] pub struct EqutableValueSet(pub bool, pub Vec<ValueEntry>); impl EqutableValueSet { pub fn is_white_list(&self) -> bool { self.0 } pub fn entries(&self) -> &Vec<ValueEntry> { &self.1 } }
#[derive(Debug, Clone)] pub enum Domain { Range(RangeValueSet), Equtable(EqutableValueSet), None, All }
#[derive(Debug, Clone)] pub struct ColumnDomains<T>(pub Option<HashMap<T, Domain>>); impl<T> ColumnDomains<T> { pub fn is_all(&self) -> bool { self.0.as_ref().is_some_and(|m| m.is_empty()) } pub fn is_none(&self) -> bool { self.0.is_none() } pub fn domains(&self) -> Option<&HashMap<T, Domain>> { self.0.as_ref() } } }
#[derive(Debug, Clone)] pub struct UpdateSetValue<K, V> { pub key: K, pub value: Option<V> }
pub struct RwLock<T>(pub T); impl<T> RwLock<T> { pub fn new(t: T) -> Self { Self(t) } }
pub mod trace { macro_rules! t_ { ($($x:tt)*) => { () } } pub(crate) use t_ as debug; pub(crate) use t_ as info; pub(crate) use t_ as warn; }
pub mod engine2 { use super::*; use super::heed::{self, types::*, Database, Env, EnvFlags}; use super::err::*; use super::roaring::{self, RoaringBitmap}; use super::models; use super::trace::info;
mod fs { pub fn create_dir_all(_: &std::path::Path) -> Result<(), ()> { Ok(()) } } trait BufMut { fn put_u8(&mut self, b: u8); } impl BufMut for Vec<u8> { fn put_u8(&mut self, b: u8) { self.push(b) } } use super::idx as ts_index_;
mod super_ {}
//@extract tskv/src/index/engine2.rs struct IndexEngine2
@derive
@end
//@extract tskv/src/index/engine2.rs impl IndexEngine2
@subst /super::ts_index::encode_inverted_index_key/ => ts_index_::inverted
@end
//@helpers
}
pub mod memo { use super::*; use super::cache::*; use super::err::*; use super::{roaring, engine2, trace}; use super::idx::{inverted as encode_inverted_index_key, series_key_buf as encode_series_key, id_key as encode_series_id_key};
macro_rules! btreemap { ($k:expr => $v:expr) => { BTreeMap::from([($k, $v)]) } } macro_rules! hashmap { ($k:expr => $v:expr) => { HashMap::from([($k, $v)]) } }
//@extract tskv/src/index/cache.rs struct IndexCache
@derive Debug
@end
//@extract tskv/src/index/cache.rs impl IndexCache
@end
//@extract tskv/src/index/cache.rs struct SeriesKeyInfo
@derive Debug
@end
//@extract tskv/src/index/cache.rs struct ForwardCache
@derive Debug
@end
//@extract tskv/src/index/cache.rs impl ForwardCache
@end
//@extract tskv/src/index/cache.rs struct IndexMemCache
@derive Debug
@end
//@extract tskv/src/index/cache.rs impl IndexMemCache
@subst /super::engine2::/ => engine2::
@end
//@helpers
}
pub mod idx { use super::*; use super::dom::*; use super::err::*; use super::engine2::IndexEngine2; use super::memo::IndexCache; use super::{roaring, trace, tag, byte_utils}; use super::trace::info;
pub struct IndexEngine; impl IndexEngine { pub fn new(_: &Path) -> IndexResult<Self> { unreachable!() } pub fn copy_to_engine2(&self, _: &IndexEngine2) -> IndexResult<usize> { unreachable!() } }
pub struct Col { pub id: u32, pub name: String } pub struct TskvTableSchema { pub name: String, pub cols: Vec<Col> } impl TskvTableSchema { pub fn column(&self, n: &str) -> Option<&Col> { self.cols.iter().find(|c| c.name == n) } }
//@extract tskv/src/index/ts_index.rs const SERIES_ID_PREFIX
@end
//@extract tskv/src/index/ts_index.rs const SERIES_KEY_PREFIX
@end
//@extract tskv/src/index/ts_index.rs const TOMBSTONE_PREFIX
@end
//@extract tskv/src/index/ts_index.rs const AUTO_INCR_ID_KEY
@end
//@extract tskv/src/index/ts_index.rs struct TSIndex
@derive
@end
//@extract tskv/src/index/ts_index.rs impl TSIndex
@end
//@extract tskv/src/index/ts_index.rs fn encode_inverted_index_key
@end
//@extract tskv/src/index/ts_index.rs fn encode_series_key
@end
//@extract tskv/src/index/ts_index.rs fn encode_series_id_key
@end
//@helpers
pub fn inverted(t: &str, k: &[u8], v: &[u8]) -> Vec<u8> { encode_inverted_index_key(t, k, v) } pub fn series_key_buf(t: &str, g: &[Tag]) -> Vec<u8> { encode_series_key(t, g) } pub fn id_key(i: u32) -> Vec<u8> { encode_series_id_key(i) }
pub struct Ix(TSIndex);
impl Ix {
    pub fn open(p: &str, cap: u64) -> Ix { Ix(Arc::try_unwrap(TSIndex::new(p, cap).unwrap()).ok().unwrap().0) }
    pub fn add(&mut self, k: Vec<SeriesKey>) -> IndexResult<Vec<(u32, SeriesKey)>> { self.0.add_series_if_not_exists(k) } pub fn rebuild(&mut self, i: u32, k: &SeriesKey) -> IndexResult<()> { self.0.add_series_for_rebuild(i, k) } pub fn id(&self, k: &SeriesKey) -> IndexResult<Option<u32>> { self.0.get_series_id(k) } pub fn key(&self, i: u32) -> IndexResult<Option<SeriesKey>> { self.0.get_series_key(i) } pub fn del(&mut self, i: u32) -> IndexResult<()> { self.0.del_series_info(i) }
    pub fn list(&self, t: &str, g: &[Tag]) -> IndexResult<Vec<u32>> { self.0.get_series_id_list(t, g) } pub fn by(&self, s: &TskvTableSchema, d: &ColumnDomains<String>) -> Result<Vec<u32>, TskvError> { self.0.get_series_ids_by_domains(s, d) } pub fn prepare(&self, n: &[UpdateSetValue<TagKey, TagValue>], m: &[SeriesKey]) -> IndexResult<(Vec<SeriesKey>, Vec<SeriesKey>, Vec<u32>)> { self.0.prepare_update_tags_value(n, m, true) } pub fn update(&mut self, o: Vec<SeriesKey>, n: Vec<SeriesKey>, i: Vec<u32>) -> IndexResult<()> { self.0.update_series_key(o, n, i, false) }
    pub fn flush(&mut self) -> IndexResult<()> { self.0.flush() } pub fn tomb(&self, k: &SeriesKey) -> IndexResult<Option<u32>> { self.0.get_tombstone_series_id(k) } pub fn clear(&mut self) -> IndexResult<()> { self.0.clear_tombstone_series() }
}
}
use dom::*; use idx::{Col, Ix, TskvTableSchema};
fn sk(t: &str, g: &[(u32, &str)]) -> SeriesKey { let mut tags: Vec<Tag> = g.iter().map(|x| Tag::mk(x.0, x.1)).collect(); tag::sort_tags(&mut tags); SeriesKey { tags, table: t.into() } }
const TABS: &[&str] = &["a", "a.b", "a.b.1", "ab", "a.1", "中"]; const VALS: &[&str] = &["", "x", "y", "xy", "=", "x=1.2", "<", ">", "a.b", "中", "\u{7f}", "0", "2"]; const TAGS: &[u32] = &[1, 2, 3, 10, 12];
#[derive(Debug, Clone)] enum Op { Add(Vec<SeriesKey>), Del(usize), Update(Vec<usize>, Vec<UpdateSetValue<TagKey, TagValue>>), Flush, Reopen, Rebuild, Clear, Get(SeriesKey), List(String, Vec<Tag>), By(String, Option<Vec<(u32, Domain)>>) }
fn value(k: &SeriesKey, id: u32) -> Option<String> { k.tags.iter().find(|t| t.key == id.to_string().into_bytes()).map(|t| String::from_utf8(t.value.clone()).unwrap()) }
fn inside(r: &Range, v: &str) -> bool { r.contains(&Txt(v)) } struct Txt<'a>(&'a str); impl PartialEq<ScalarValue> for Txt<'_> { fn eq(&self, o: &ScalarValue) -> bool { utf8_from(o) == Some(self.0) } } impl PartialOrd<ScalarValue> for Txt<'_> { fn partial_cmp(&self, o: &ScalarValue) -> Option<std::cmp::Ordering> { utf8_from(o).map(|x| self.0.as_bytes().cmp(x.as_bytes())) } } impl PartialEq<Txt<'_>> for ScalarValue { fn eq(&self, o: &Txt<'_>) -> bool { utf8_from(self) == Some(o.0) } } impl PartialOrd<Txt<'_>> for ScalarValue { fn partial_cmp(&self, o: &Txt<'_>) -> Option<std::cmp::Ordering> { utf8_from(self).map(|x| x.as_bytes().cmp(o.0.as_bytes())) } }
fn run(ops: &[Op], cap: u64) -> Result<(), String> {
    heed::DISK.with(|d| d.borrow_mut().clear()); let p = "/nonexistent/verif-index"; let mut ix = Ix::open(p, cap); let mut live: BTreeMap<u32, SeriesKey> = BTreeMap::new(); let mut used: BTreeSet<u32> = BTreeSet::new(); let mut tomb: HashMap<SeriesKey, u32> = HashMap::new(); let mut dirty = false;
    let e = |x: err::IndexError| format!("failed: {x:?}");
    for (n, op) in ops.iter().enumerate() { let at = |m: String| format!("step {n} {op:?}: {m}");
        match op {
            Op::Add(k) => { let got = ix.add(k.clone()).map_err(e)?; if got.len() != k.len() { return Err(at(format!("{got:?}"))); } for ((i, g), k) in got.iter().zip(k) { if g != k { return Err(at(format!("{got:?}"))); } match live.iter().find(|x| x.1 == k) { Some((j, _)) if j == i => {} Some((j, _)) => return Err(at(format!("{k} has the id {j}, is given {i}"))), None => { if !used.insert(*i) { return Err(at(format!("{k} is given the used id {i}"))); } live.insert(*i, k.clone()); dirty = true; } } } }
            Op::Del(j) => if let Some(i) = live.keys().nth(*j).copied() { ix.del(i).map_err(e)?; live.remove(&i); dirty = true; },
            Op::Update(js, set) => { let m: Vec<SeriesKey> = js.iter().filter_map(|j| live.values().nth(*j).cloned()).fold(vec![], |mut v, k| { if !v.contains(&k) { v.push(k); } v });
                let new: Vec<(u32, SeriesKey)> = m.iter().map(|k| { let i = *live.iter().find(|x| x.1 == k).unwrap().0; let mut t: BTreeMap<Vec<u8>, Vec<u8>> = k.tags.iter().map(|t| (t.key.clone(), t.value.clone())).collect(); for s in set { match &s.value { Some(v) => { t.insert(s.key.clone(), v.clone()); } None => { t.remove(&s.key); } } } (i, SeriesKey { tags: t.into_iter().map(|(k, v)| Tag::of(k, v)).collect(), table: k.table.clone() }) }).collect();
                let clash = new.iter().any(|x| live.values().any(|k| *k == x.1)) || new.iter().map(|x| &x.1).collect::<HashSet<_>>().len() != new.len();
                match ix.prepare(set, &m) { Err(err::IndexError::Exists(_)) if clash => {} Err(x) => return Err(at(format!("failed: {x:?}"))), Ok(_) if clash => return Err(at("two series become one".into())), Ok((o, nk, ids)) => { if o != m || ids != new.iter().map(|x| x.0).collect::<Vec<_>>() || nk != new.iter().map(|x| x.1.clone()).collect::<Vec<_>>() { return Err(at(format!("{o:?} {nk:?} {ids:?}, must be {m:?} {new:?}"))); } ix.update(o.clone(), nk, ids).map_err(e)?; for (k, (i, nk)) in o.into_iter().zip(new) { live.insert(i, nk); tomb.insert(k, i); } dirty = true; } } }
            Op::Flush => { ix.flush().map_err(e)?; dirty = false; }
            Op::Reopen => if !dirty { ix = Ix::open(p, cap); },
            Op::Rebuild => { heed::DISK.with(|d| d.borrow_mut().clear()); ix = Ix::open(p, cap); for (i, k) in live.iter() { ix.rebuild(*i, k).map_err(e)?; } ix.flush().map_err(e)?; tomb.clear(); dirty = false; used = live.keys().copied().collect(); }
            Op::Clear => { ix.clear().map_err(e)?; tomb.clear(); }
            Op::Get(k) => { let w = live.iter().find(|x| x.1 == k).map(|x| *x.0); let g = ix.id(k).map_err(e)?; if g != w { return Err(at(format!("{g:?}, must be {w:?}"))); } let g = ix.tomb(k).map_err(e)?; if g != tomb.get(k).copied() { return Err(at(format!("before its update {g:?}, must be {:?}", tomb.get(k)))); } for i in used.iter().rev().take(4) { let g = ix.key(*i).map_err(e)?; if g.as_ref() != live.get(i) { return Err(at(format!("the key of {i} is {g:?}, must be {:?}", live.get(i)))); } } }
            Op::List(t, g) => { let w: Vec<u32> = live.iter().filter(|x| x.1.table == *t && g.iter().all(|t| x.1.tags.contains(t))).map(|x| *x.0).collect(); let got = ix.list(t, g).map_err(e)?; if got != w { return Err(at(format!("{got:?}, must be {w:?} of {live:?}"))); } }
            Op::By(t, d) => { let s = TskvTableSchema { name: t.clone(), cols: TAGS.iter().map(|i| Col { id: *i, name: format!("t{i}") }).collect() }; let dm = ColumnDomains(d.as_ref().map(|d| d.iter().map(|(i, x)| (format!("t{i}"), x.clone())).collect())); let got = ix.by(&s, &dm).map_err(|x| at(format!("failed: {x:?}")))?;
                // a list of values that are not wanted is left to the filter above: all series are read
                let w: Vec<u32> = live.iter().filter(|x| x.1.table == *t && d.as_ref().is_some_and(|d| d.iter().all(|(i, m)| { let v = value(x.1, *i); match m { Domain::All => true, Domain::None => false, Domain::Range(r) => v.is_some_and(|v| r.0.iter().any(|r| inside(&r.1, &v))), Domain::Equtable(q) if q.0 => v.is_some_and(|v| q.1.iter().any(|y| utf8_from(&y.0) == Some(&v))), Domain::Equtable(_) => true } }))).map(|x| *x.0).collect();
                if got != w { return Err(at(format!("{got:?}, must be {w:?} of {live:?}"))); } }
        }
    }
    Ok(())
}
fn key_(r: &mut vx::Rng) -> SeriesKey { let t = r.pick(TABS); let n = r.below(4); let mut g: BTreeMap<u32, &str> = BTreeMap::new(); for _ in 0..n { let i = r.below(TAGS.len() as u64) as usize; g.insert(TAGS[i], if r.chance(2, 3) { ["", "x", "y", "2", "0"][r.below(5) as usize] } else { r.pick(VALS) }); } sk(t, &g.into_iter().collect::<Vec<_>>()) }
fn text_(r: &mut vx::Rng) -> ScalarValue { ScalarValue::Utf8(Some(r.pick(VALS).to_string())) }
fn domain(r: &mut vx::Rng) -> Domain { match r.below(8) { 0 => Domain::All, 1 => Domain::None, 2 => Domain::Equtable(EqutableValueSet(false, vec![ValueEntry(text_(r))])), 3 | 4 => Domain::Equtable(EqutableValueSet(true, (0..r.below(4)).map(|_| ValueEntry(text_(r))).collect())), _ => { let mut v: Vec<String> = (0..4).map(|_| r.pick(VALS).to_string()).collect(); v.sort(); v.dedup(); let s = |x: &String| ScalarValue::Utf8(Some(x.clone())); let lo = r.below(4); let mut o = vec![]; let mut i = 0; while i < v.len() { let a = if i == 0 && lo == 0 { Bound::Unbounded } else if r.chance(1, 2) { Bound::Included(s(&v[i])) } else { Bound::Excluded(s(&v[i])) }; let b = if i + 1 >= v.len() { if matches!(a, Bound::Included(_)) && r.chance(1, 2) { Bound::Included(s(&v[i])) } else { Bound::Unbounded } } else if r.chance(1, 2) { Bound::Included(s(&v[i + 1])) } else { Bound::Excluded(s(&v[i + 1])) }; o.push(((), Range(a, b))); i += 2; } Domain::Range(RangeValueSet(o)) } } }
fn op(r: &mut vx::Rng) -> Op { match r.below(20) { 0..=4 => Op::Add((0..1 + r.below(3)).map(|_| key_(r)).collect()), 5 => Op::Del(r.below(8) as usize), 6 | 7 => Op::Update((0..1 + r.below(2)).map(|_| r.below(8) as usize).collect(), { let mut g: BTreeMap<u32, Option<TagValue>> = BTreeMap::new(); for _ in 0..1 + r.below(2) { let i = r.below(3) as usize; g.insert(TAGS[i], if r.chance(1, 4) { None } else { Some(r.pick(VALS).as_bytes().to_vec()) }); } g.into_iter().map(|(k, value)| UpdateSetValue { key: k.to_string().into_bytes(), value }).collect() }), 8 | 9 => Op::Flush, 10 => Op::Reopen, 11 => if r.chance(1, 4) { Op::Rebuild } else { Op::Clear }, 12 | 13 => Op::Get(key_(r)), 14..=16 => Op::List(r.pick(TABS).into(), { let n = r.below(4); let k = key_(r); k.tags.into_iter().take(n as usize).collect() }), _ => Op::By(r.pick(TABS).into(), if r.chance(1, 12) { None } else { let mut g: Vec<(u32, Domain)> = vec![]; for _ in 0..r.below(3) { let i = r.below(TAGS.len() as u64) as usize; if !g.iter().any(|x| x.0 == TAGS[i]) { g.push((TAGS[i], domain(r))); } } Some(g) }) } }
fn main() {
    let mut h = vx::H::new(); let mut r = h.rng(21);
    for _ in 0..h.scale(4_000, 120_000) { let n = 3 + r.below(26); let ops: Vec<Op> = (0..n).map(|_| op(&mut r)).collect(); let cap = r.pick(&[0u64, 1, 3, 100]); h.case("history", vx::hash(&format!("{ops:?}{cap}")), &|| format!("an index with a cache of {cap}: {ops:?}"), &mut || run(&ops, cap)); }
    // values that look like the lengths and the tags that follow
    for (a, b) in [(sk("a", &[(1, "x\0\u{1}2y")]), sk("a", &[(1, "x"), (2, "y")])), (sk("a", &[(1, "x\0\u{1}2\0\u{1}y")]), sk("a", &[(1, "x"), (2, "y")])), (sk("a", &[(1, "2")]), sk("a", &[(12, "")])), (sk("a", &[]), sk("a\0\u{1}1\0\u{1}x", &[])), (sk("a", &[(1, "x")]), sk("a\0\u{1}1\0\u{1}x", &[])), (sk("a", &[(1, "x")]), sk("a1x", &[]))] { for f in [vec![], vec![Op::Flush], vec![Op::Flush, Op::Reopen]] { for cap in [0u64, 100] {
        let mut ops = vec![Op::Add(vec![a.clone()])]; ops.extend(f.clone()); ops.push(Op::Add(vec![b.clone()])); ops.extend(f.clone()); for k in [&a, &b] { ops.push(Op::Get(k.clone())); ops.push(Op::List(k.table.clone(), vec![])); ops.push(Op::List(k.table.clone(), k.tags.clone())); } ops.push(Op::Del(0)); ops.extend(f.clone()); ops.push(Op::Get(b.clone())); ops.push(Op::Get(a.clone()));
        h.case("look-alikes", vx::hash(&format!("{ops:?}{cap}")), &|| format!("an index with a cache of {cap}: {ops:?}"), &mut || run(&ops, cap)); } } }
    h.done();
}
