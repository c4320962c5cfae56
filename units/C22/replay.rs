//@prelude
use std::borrow::Cow; use std::cmp::Ordering; use std::hash::{Hash, Hasher};
#[derive(Debug, Default, PartialEq, Clone)] pub struct FieldValue(u8);
type TagKey = Vec<u8>; type TagValue = Vec<u8>;
//@extract common/utils/src/bkdr_hash.rs const SEED
@end
//@extract common/utils/src/bkdr_hash.rs struct BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs impl BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs impl Hasher for BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs impl Default for BkdrHasher
@end
//@extract common/models/src/tag.rs struct Tag
@derive Clone, Debug, PartialEq, Eq, Hash
@end
//@extract common/models/src/tag.rs fn sort_tags
@end
//@extract common/models/src/tag.rs fn tags_hash_id
@end
//@extract common/models/src/series_info.rs struct SeriesKey
@end
//@extract common/models/src/series_info.rs SeriesKey::hash
@end
//@extract common/protocol_parser/src/lib.rs struct Line
@end
//@extract common/protocol_parser/src/lib.rs Line::init_hash_id
@end
//@extract common/protocol_parser/src/lib.rs Line::init_ordered_hash_id
@end
//@extract common/protocol_parser/src/lib.rs Line::new
@end
//@extract common/protocol_parser/src/lib.rs Line::sort_dedup_and_hash
@end
mod json {
use super::{Cow, Line}; use std::collections::BTreeMap;
#[derive(Debug, Clone, PartialEq)] pub enum FieldValue { U64(u64), I64(i64), Str(Vec<u8>), F64(f64), Bool(bool) }
#[derive(Debug)] pub enum Error { ParseTime, Common { content: String } } type Result<T> = std::result::Result<T, Error>; fn now_timestamp_nanos() -> i64 { 7 }
pub enum JsonProtocol { Ndjson(BTreeMap<String, serde_json::Value>) } impl JsonProtocol { pub fn get_fields(&self) -> &BTreeMap<String, serde_json::Value> { let JsonProtocol::Ndjson(m) = self; m } }
impl From<FieldValue> for super::FieldValue { fn from(_: FieldValue) -> Self { super::FieldValue(1) } }
//@extract common/protocol_parser/src/json_protocol/parser.rs fn parse_to_line
@subst /fields\.push\(\(Cow::Borrowed\(key\.as_str\(\)\), field\)\);/ => fields.push((Cow::Borrowed(key.as_str()), field.into()));
@end
}
//@helpers
fn poly(mut n: u64, b: &[u8]) -> u64 { for c in b { n = n.wrapping_mul(1313).wrapping_add(*c as u64); } n }
fn want(table: &str, tags: &[(String, String)]) -> u64 { let mut b = table.as_bytes().to_vec(); for (k, v) in tags { b.extend(k.as_bytes()); b.extend(v.as_bytes()); } poly(0, &b) }
fn word(r: &mut Rng, max: u64) -> String { let n = r.below(max + 1); (0..n).map(|_| r.pick(&['a', 'b', 'z', 'A', '0', '_', ' ', ',', '=', '中', 'é', '\u{7f}'])).collect() }
fn main() {
    let mut h = H::new(); let mut r = h.rng(22);
    for i in 0..h.scale(40_000, 2_000_000) {
        let n = if i % 500 == 0 { 5000 } else { r.below(40) as usize }; let b = r.bytes(n);
        let mut cuts: Vec<usize> = (0..r.below(5)).map(|_| r.below(n as u64 + 1) as usize).collect(); cuts.sort();
        let (p, s) = (r.word(), r.word());
        h.case("chunks", hash(&(&b, &cuts)), &|| format!("bytes {b:?} cut at {cuts:?} start {s} prefix {p}"), &mut || {
            let w = poly(0, &b);
            let mut a = BkdrHasher::new(); let mut x = 0; for c in &cuts { a.hash_with(&b[x..*c]); x = *c; } a.hash_with(&b[x..]);
            if a.number() != w || a.finish() != w { return Err(format!("hash {} in chunks, must be {w}", a.number())); }
            if a.number_with_prefix() != w as u128 { return Err("no prefix: prefixed number differs".into()); }
            let mut a = BkdrHasher::with_number(s); let mut x = 0; for c in &cuts { a.write(&b[x..*c]); x = *c; } a.write(&b[x..]);
            if a.number() != poly(s, &b) { return Err(format!("continuing from {s}: {} must be {}", a.number(), poly(s, &b))); }
            let mut a = BkdrHasher::with_prefix(p); a.hash_with(&b);
            if a.number() != w || a.number_with_prefix() != (p as u128) << 64 | w as u128 { return Err("prefixed number".into()); }
            Ok(())
        });
    }
    for _ in 0..h.scale(20_000, 500_000) {
        let table = word(&mut r, 6); let nt = r.below(6);
        let mut tags: Vec<(String, String)> = vec![];
        for _ in 0..nt { let k = word(&mut r, 4); if !tags.iter().any(|t| t.0 == k) { tags.push((k, word(&mut r, 5))); } }
        let mut sorted = tags.clone(); sorted.sort();
        let w = want(&table, &sorted);
        h.case("series", hash(&(&table, &tags)), &|| format!("table {table:?} tags {tags:?}"), &mut || {
            let line = |t: &[(String, String)]| Line { hash_id: 0, table: Cow::Owned(table.clone()), tags: t.iter().map(|x| (Cow::Owned(x.0.clone()), Cow::Owned(x.1.clone()))).collect(), fields: vec![], timestamp: 1 };
            let mut perm = tags.clone();
            for rot in 0..perm.len().max(1) {
                let mut a = line(&perm); a.init_hash_id();
                if a.hash_id != w { return Err(format!("line hash {} for order {perm:?}, must be {w}", a.hash_id)); }
                let got: Vec<_> = a.tags.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect();
                if got != sorted { return Err(format!("tags after hashing {got:?}")); }
                let b = Line::new(Cow::Owned(table.clone()), line(&perm).tags, vec![], 1);
                if b.hash_id != w { return Err(format!("Line::new hash {}, must be {w}", b.hash_id)); }
                let mut c = line(&perm); c.sort_dedup_and_hash();
                if c.hash_id != w { return Err(format!("sort_dedup_and_hash {}, must be {w}", c.hash_id)); }
                if perm.len() > 1 { if rot % 2 == 0 { perm.rotate_left(1) } else { perm.swap(0, 1) } }
            }
            let mut a = line(&sorted); a.init_ordered_hash_id();
            if a.hash_id != w { return Err(format!("ordered hash {}, must be {w}", a.hash_id)); }
            let mut ts: Vec<Tag> = tags.iter().map(|t| Tag { key: t.0.as_bytes().to_vec(), value: t.1.as_bytes().to_vec() }).collect();
            sort_tags(&mut ts);
            if tags_hash_id(&table, &ts) != w { return Err(format!("tags_hash_id {}, must be {w}", tags_hash_id(&table, &ts))); }
            // a log
            let mut m = std::collections::BTreeMap::new(); for t in &tags { if t.0 != "m" && t.0 != "time" && t.0.trim() == t.0 && !t.0.contains(',') && !t.1.contains('"') { m.insert(t.0.clone(), serde_json::Value::String(t.1.clone())); } }
            let names = m.keys().cloned().collect::<Vec<_>>().join(","); let tagged: Vec<(String, String)> = m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect(); m.insert("m".into(), serde_json::Value::Bool(true));
            let log = json::JsonProtocol::Ndjson(m); let line = json::parse_to_line(&log, &table, "time", &names).map_err(|e| format!("{e:?}"))?; let lt: Vec<_> = line.tags.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect();
            if line.hash_id != want(&table, &lt) { return Err(format!("a log of tags {lt:?} ({tagged:?}) has hash {}, must be {}", line.hash_id, want(&table, &lt))); }
            let k = SeriesKey { tags: ts, table: table.clone() };
            if k.hash() != w { return Err(format!("series key hash {}, must be {w}", k.hash())); }
            Ok(())
        });
    }
    h.done();
}
