import sys; sys.path.insert(0, '/verif/tools')
from seed import seed
import re
U='/verif/units/'
def head(u, cut='//@helpers'):   # the extraction part of a replay template, reused for the demonstration
    s=open(f'{U}{u}/replay.rs').read(); s=s.replace('//@prelude','')
    return s[:s.index(cut)]+'//@helpers\n'
seed('dedup_leak','C16',[('common/utils/src/dedup.rs',
 '''                /* We have found duplicate, drop it in-place */
                ptr::drop_in_place(prev_ptr);''',
 '''                /* We have found duplicate, drop it in-place,
                 * unless its slot is the one filled next */
                if gap.prev != gap.write + 1 {
                    ptr::drop_in_place(prev_ptr);
                }''')],
 'elements that own something, and a run of equal keys long enough for the skipped slot',
 'an entry removed by deduplication is never released',
'''use std::fmt::Debug; use std::{mem, ptr}; use std::rc::Rc;
//@extract common/utils/src/dedup.rs fn dedup_front_by
@end
//@helpers
fn main() {
    let keys = [1, 1, 1, 2, 3, 3, 3, 3];
    let probe = Rc::new(());
    let mut v: Vec<(i32, usize, Rc<()>)> = keys.iter().enumerate().map(|(i, k)| (*k, i, probe.clone())).collect();
    dedup_front_by(&mut v, |a, b| a.0 == b.0);
    assert_eq!(v.iter().map(|x| x.1).collect::<Vec<_>>(), vec![2, 3, 7]);
    assert_eq!(Rc::strong_count(&probe), 1 + v.len(), "removed entries were not released");
}
''')
seed('precision_floor','C14',[('common/utils/src/precision.rs','(Precision::NS, Precision::MS) => Some(ts / 1_000_000),','(Precision::NS, Precision::MS) => Some((ts >> 6).div_euclid(15_625)),')],
 'a timestamp before 1970 that is not a whole number of milliseconds','conversion to milliseconds rounds down instead of toward zero for negative timestamps',
'''type Timestamp = i64;
//@extract common/utils/src/precision.rs enum Precision
@derive Clone, Copy, PartialEq, Eq
@end
//@extract common/utils/src/precision.rs fn timestamp_convert
@end
//@helpers
fn main() {
    for ts in [0i64, 1, 999_999, 1_000_000, 1_722_000_000_123_456_789, -1_000_000, -1, -1_500_000, -123_456_789_012] {
        assert_eq!(timestamp_convert(Precision::NS, Precision::MS, ts), Some(ts / 1_000_000), "{ts}");
    }
}
''')
seed('precision_saturate','C14',[('common/utils/src/precision.rs','(Precision::MS, Precision::NS) => ts.checked_mul(1_000_000),','(Precision::MS, Precision::NS) => ts.checked_mul(1_000).map(|us| us.wrapping_mul(1_000)),')],
 'a millisecond timestamp that fits the range in microseconds but not in nanoseconds','an out-of-range conversion returns a wrapped timestamp instead of failing',
'''type Timestamp = i64;
//@extract common/utils/src/precision.rs enum Precision
@derive Clone, Copy, PartialEq, Eq
@end
//@extract common/utils/src/precision.rs fn timestamp_convert
@end
//@helpers
fn main() {
    for ts in [0i64, 1, -5, 9_223_372_036_854, 9_223_372_036_855, 253_402_300_799_999, -9_223_372_036_855, i64::MAX] {
        assert_eq!(timestamp_convert(Precision::MS, Precision::NS, ts), ts.checked_mul(1_000_000), "{ts}");
    }
}
''')
seed('duration_via_nanos','C15',[('common/utils/src/duration.rs','min(self.duration.as_micros(), i64::MAX as u128) as i64','self.to_nanoseconds() / 1_000')],
 'a duration longer than 292 years (its nanoseconds saturate)','long durations are cut to about 292 years when asked for in microseconds',
 head('C15')+'''
fn main() {
    for d in [0u64, 1, 365, 100_000, 106_751, 106_752, 200_000, 10_000_000] {
        let x = CnosDuration::new_with_day(d);
        assert_eq!(x.to_microseconds() as i128, (d as i128 * 86_400_000_000).min(i64::MAX as i128), "{d} days");
    }
}
''','base')
seed('bloom_empty_item','C17',[('common/utils/src/bloom_filter.rs','''    pub fn maybe_contains(&self, data: &[u8]) -> bool {
''','''    pub fn maybe_contains(&self, data: &[u8]) -> bool {
        // nothing to look for, or nothing inserted yet
        if data.is_empty() || self.b[0] == 0 && self.b.iter().all(|b| *b == 0) {
            return false;
        }
''')],
 'an empty item (zero bytes long) that was inserted','an inserted empty item is reported absent',
 head('C17')+'''
fn main() {
    let mut f = BloomFilter::new(512);
    let items: [&[u8]; 5] = [b"a", b"", b"\\0", b"cpu", &[0; 40]];
    for x in items { f.insert(x); }
    for x in items { assert!(f.maybe_contains(x), "{x:?} lost"); }
}
''','base')
seed('ring_wrap','C18',[('common/cache/src/circular_kvcache.rs','''        let mut list = vec![];
        let mut current = self.head;
        loop {
            if self.is_empty() {
                break;
            }
''','''        let mut list = vec![];
        let mut current = self.head;
        // everything goes: no need to look at the entries one by one
        if !self.is_empty() && self.buffer[self.tail] < key {
            for index in self.head..=self.tail {
                list.push(self.take(index));
            }
            self.head = self.tail;
            self.empty = true;
            return list;
        }
        loop {
            if self.is_empty() {
                break;
            }
''')],
 'the ring has wrapped past the end of its buffer and a truncation drops every entry','entries truncated away can still be looked up and are never evicted',
 head('C18')+'''
fn main() {
    for n in 3..30u64 {
        let mut c: CircularKVCache<u64, u64> = CircularKVCache::new(8);
        for k in 1..=n { c.put(k, k); }
        c.del_before(n + 5);
        for k in 1..=n { assert_eq!(c.get(&k), None, "{k} of {n} survives"); }
        c.put(n + 5, 1); assert_eq!(c.last(), Some(&1));
    }
}
''')
seed('ring_update_front','C18',[('common/cache/src/circular_kvcache.rs','''            self.cache.insert(key, value);
            return;
        }

        if self.buffer.is_full() {''','''            self.cache.insert(key.clone(), value);
            // the refreshed entry becomes the newest one
            if self.buffer.get_tail().map_or(false, |last| last < key) {
                self.buffer.push(key);
            }
            return;
        }

        if self.buffer.is_full() {''')],
 'an entry is stored again under an existing key that is greater than the newest key (keys not inserted in ascending order)','the key is tracked twice, so evicting its old position removes the newer value',
 head('C18')+'''
fn main() {
    let mut c: CircularKVCache<u64, u64> = CircularKVCache::new(4);
    c.put(9, 1); c.put(2, 2); c.put(9, 3); 
    for k in [20, 21] { c.put(k, k); }
    assert_eq!(c.get(&9), Some(&3)); assert_eq!(c.get(&2), Some(&2)); assert_eq!(c.get(&21), Some(&21));
}
''')
seed('rate_remainder','C19',[('common/limiter_bucket/src/rate_bucket.rs','let deadline = now + (interval - chrono::Duration::milliseconds(rem));','let deadline = if now == deadline { now } else { now + (interval - chrono::Duration::milliseconds(rem)) };')],
 'a refill at exactly the nanosecond it falls due, followed by another request in the same instant or interval','the refill that fell due on the boundary is granted twice',
 head('C19')+'''
fn main() {
    let mut b = RateBucketBuilder::default(); b.max = Some(1000); b.initial = 0; b.refill = 10; b.interval = 100;
    let l = b.build();
    let mut got = 0;
    for step in 0..=10 { NOW.with(|n| n.set(step * 100 * 1_000_000)); got += l.acquire_closed(7); got += l.acquire_closed(7); }
    // refills fell due at 100, 200, .. 1000 ms at the latest
    assert!(got <= 110, "granted {got} of at most 110");
}
''','base')
seed('bkdr_block','C22',[('common/utils/src/bkdr_hash.rs','''    fn write(&mut self, bytes: &[u8]) {
''','''    fn write(&mut self, bytes: &[u8]) {
        // long runs are mixed in 32 bytes at a time
        const SEED_2: u64 = SEED * SEED;
        if bytes.len() >= 32 {
            let (pairs, rest) = bytes.split_at(bytes.len() & !1);
            for p in pairs.chunks_exact(2) {
                let v = (p[0] as u64).wrapping_mul(SEED) | p[1] as u64;
                self.number = self.number.wrapping_mul(SEED_2).wrapping_add(v);
            }
            for c in rest {
                self.number = self.number.wrapping_mul(SEED).wrapping_add(*c as u64);
            }
            return;
        }
''')],
 'a tag value or table name of at least 32 bytes, hashed once in one piece and once in pieces','the hash of a long byte string depends on how it was split into pieces',
'''use std::hash::Hasher;
//@extract common/utils/src/bkdr_hash.rs const SEED
@end
//@extract common/utils/src/bkdr_hash.rs struct BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs impl BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs impl Hasher for BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs impl Default for BkdrHasher
@end
//@helpers
fn main() {
    let text = b"a table name or tag value that is longer than a few dozen bytes, as some are";
    for cut in 0..text.len() {
        let mut a = BkdrHasher::new(); a.write(text);
        let mut b = BkdrHasher::new(); b.write(&text[..cut]); b.write(&text[cut..]);
        assert_eq!(a.finish(), b.finish(), "split at {cut}");
    }
}
''')
seed('hist_boundary','C23',[('common/metrics/src/histogram.rs','''        if let Some(bucket) = state
            .buckets
            .iter_mut()
            .find(|bucket| value <= bucket.le)
            .as_mut()
        {''','''        // thresholds are sorted: look the bucket up by bisection
        let idx = state.buckets.partition_point(|bucket| bucket.le <= value);
        if let Some(bucket) = state.buckets.get_mut(idx) {''')],
 'a value exactly on a bucket threshold','the observation lands in the next bucket, or is lost when it is on the last threshold',
 head('C23')+'''
fn main() {
    let h = U64Histogram::new(vec![1u64, 10, 100].into_iter());
    for v in [0, 1, 2, 10, 11, 99, 100, 101] { h.record(v); }
    let c: Vec<u64> = h.fetch().buckets.iter().map(|b| b.count).collect();
    assert_eq!(c, vec![2, 2, 3]); assert_eq!(h.fetch().total, 223);
}
''','base')
seed('cache_percap','C24',[('common/cache/src/lib.rs','let per_shard = (capacity + (shard_len - 1)) / shard_len;','let per_shard = (capacity + shard_len / 2) / shard_len;')],
 'a capacity whose remainder modulo the number of shards is below half','the shards together hold fewer entries than the configured capacity',
 '''use std::num::NonZeroUsize;
//@extract common/cache/src/lib.rs fn per_shard
@end
//@helpers
fn main() {
    for cap in 0..5000usize { let n = per_shard(cap, 16).get() * 16; assert!(n >= cap && n < cap + 16 + (cap == 0) as usize, "capacity {cap}: {n}"); }
}
''')
