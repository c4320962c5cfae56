//@prelude
use std::sync::Arc; use parking_lot::Mutex; use std::sync::atomic::{AtomicU64, Ordering}; use std::time::Duration;
//@extract common/metrics/src/metric_value.rs struct ValueBucket
@derive Clone, Debug, Eq, PartialEq
@end
//@extract common/metrics/src/metric_value.rs struct HistogramValue
@derive Clone, Debug, Eq, PartialEq
@end
//@extract common/metrics/src/histogram.rs struct U64HistogramOptions
@derive Debug, Clone
@end
//@extract common/metrics/src/histogram.rs impl U64HistogramOptions
@end
//@extract common/metrics/src/histogram.rs struct U64Histogram
@derive Debug, Clone
@end
//@extract common/metrics/src/histogram.rs impl U64Histogram
@end
//@extract common/metrics/src/count.rs struct U64Counter
@derive Debug, Clone, Default
@end
//@extract common/metrics/src/count.rs impl U64Counter
@end
//@extract common/metrics/src/gauge.rs struct U64Gauge
@derive Debug, Clone, Default
@end
//@extract common/metrics/src/gauge.rs impl U64Gauge
@end
//@extract common/metrics/src/duration.rs struct DurationHistogram
@derive Debug, Clone
@end
//@extract common/metrics/src/duration.rs impl DurationHistogram
@end
//@extract common/metrics/src/duration.rs struct DurationCounter
@derive Debug, Clone, Default
@end
//@extract common/metrics/src/duration.rs impl DurationCounter
@end
//@extract common/metrics/src/duration.rs struct DurationGauge
@derive Debug, Clone, Default
@end
//@extract common/metrics/src/duration.rs impl DurationGauge
@end
//@helpers
fn main() {
    let mut h = H::new(); let mut r = h.rng(23);
    for _ in 0..h.scale(20_000, 1_000_000) {
        let nt = r.below(6); let small = r.chance(1, 2);
        let mut w = |r: &mut Rng| if small { r.below(12) } else { r.word() };
        let th: Vec<u64> = (0..nt).map(|_| w(&mut r)).collect();
        let ops: Vec<(u64, u64)> = (0..r.below(8)).map(|_| (if r.chance(1, 3) && nt > 0 { r.pick(&th).wrapping_add(r.below(3)).wrapping_sub(1) } else { w(&mut r) }, match r.below(3) { 0 => 1, 1 => r.below(5), _ => r.word() })).collect();
        h.case("histogram", hash(&(&th, &ops)), &|| format!("thresholds {th:?} observations (value, times) {ops:?}"), &mut || {
            let o = U64HistogramOptions::new(th.clone());
            let hist = U64Histogram::new(o.buckets.clone().into_iter());
            let dh = DurationHistogram { inner: U64Histogram::new(o.buckets.clone().into_iter()) };
            let mut s = th.clone(); s.sort();
            let mut want = HistogramValue { total: 0u64, buckets: s.iter().map(|le| ValueBucket { le: *le, count: 0 }).collect() };
            let c = U64Counter::default(); let dc = DurationCounter::default(); let g = U64Gauge::default(); let dg = DurationGauge::default(); let mut cs = 0u64;
            for (v, n) in &ops {
                if *n == 1 { hist.record(*v); dh.record(Duration::from_nanos(*v)); } else { hist.record_multiple(*v, *n); dh.record_multiple(Duration::from_nanos(*v), *n); }
                if let Some(i) = s.iter().position(|le| v <= le) { want.buckets[i].count = want.buckets[i].count.wrapping_add(*n); want.total = want.total.wrapping_add(v.wrapping_mul(*n)); }
                if *v == 1 { c.inc_one() } else { c.inc(*v); } dc.inc(Duration::from_nanos(*v)); g.set(*v); dg.set(Duration::from_nanos(*v)); cs = cs.wrapping_add(*v);
                if c.fetch() != cs || dc.fetch() != Duration::from_nanos(cs) { return Err(format!("counter {} / {:?}, must be {cs}", c.fetch(), dc.fetch())); }
                if g.fetch() != *v || dg.fetch() != Duration::from_nanos(*v) { return Err(format!("gauge {} after set {v}", g.fetch())); }
            }
            let got = hist.fetch();
            if got != want { return Err(format!("{got:?}, must be {want:?}")); }
            let gd = dh.fetch();
            if gd.total != Duration::from_nanos(want.total) || gd.buckets.len() != want.buckets.len() || gd.buckets.iter().zip(&want.buckets).any(|(a, b)| a.le != Duration::from_nanos(b.le) || a.count != b.count) { return Err(format!("duration histogram {gd:?}, must be {want:?}")); }
            Ok(())
        });
    }
    h.done();
}
