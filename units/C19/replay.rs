//@prelude
use chrono::{DateTime, Utc};
use parking_lot::{Mutex, MutexGuard};
use std::cell::Cell;
thread_local! { static NOW: Cell<i64> = Cell::new(0); }
fn mock_now() -> DateTime<Utc> { let ns = NOW.with(|n| n.get()); DateTime::<Utc>::from_timestamp(1_700_000_000 + ns / 1_000_000_000, (ns % 1_000_000_000) as u32).unwrap() }
//@extract config/src/common/limiter_config.rs struct RateBucketConfig
@derive Clone, Copy, Debug
@end
//@extract config/src/common/limiter_config.rs struct CountBucketConfig
@derive Clone, Copy, Debug
@end
//@extract common/limiter_bucket/src/rate_bucket.rs struct Critical
@derive Copy, Clone, Debug, PartialEq
@end
//@extract common/limiter_bucket/src/rate_bucket.rs struct RateBucket
@derive Debug
@end
//@extract common/limiter_bucket/src/rate_bucket.rs struct RateBucketBuilder
@derive Debug, Clone, Copy
@end
//@extract common/limiter_bucket/src/rate_bucket.rs impl RateBucket
@end
//@extract common/limiter_bucket/src/rate_bucket.rs impl RateBucketBuilder
@subst /Utc::now\(\)/ => mock_now()
@end
//@extract common/limiter_bucket/src/rate_bucket.rs impl Default for RateBucketBuilder
@end
//@extract common/limiter_bucket/src/rate_bucket.rs impl From<&RateBucketConfig> for RateBucketBuilder
@end
//@extract common/limiter_bucket/src/rate_bucket.rs fn calculate_drain
@subst /Utc::now\(\)/ => mock_now()
@end
//@extract common/limiter_bucket/src/count_bucket.rs struct CountBucket
@derive Default, Debug
@end
//@extract common/limiter_bucket/src/count_bucket.rs impl CountBucket
@end
//@extract meta/src/limiter/local_request_limiter.rs enum RequireResult
@derive Debug, PartialEq
@end
struct LocalRequestLimiter;
//@extract meta/src/limiter/local_request_limiter.rs LocalRequestLimiter::require
@end
//@helpers
fn main() {
    let mut h = H::new();
    let mut r = h.rng(19);
    for n in 0..h.scale(20_000, 400_000) {
        let interval = match n % 4 { 0 => 1, 1 => 100, _ => 1 + r.below(5000) as i64 };
        let big = |r: &mut Rng, m: u64| if r.chance(1, 12) { r.word() as usize } else { r.below(m) as usize };
        let cfg = RateBucketConfig { max: if r.chance(1, 3) { None } else { Some(big(&mut r, 2000)) }, initial: big(&mut r, 1500), refill: big(&mut r, 700), interval };
        let steps: Vec<(i64, usize, bool)> = (0..1 + r.below(12)).map(|_| {
            let dt = match r.below(6) { 0 => 0, 1 => interval * 1_000_000, 2 => r.below(interval as u64 * 1_000_000) as i64, 3 => interval * 1_000_000 * r.below(6) as i64 + r.below(3) as i64 - 1, _ => r.below(interval as u64 * 5_000_000) as i64 };
            (dt.max(0), if r.chance(1, 15) { 0 } else { big(&mut r, 900) }, r.chance(1, 2))
        }).collect();
        h.case("rate", hash(&(cfg.max, cfg.initial, cfg.refill, interval, &steps)), &|| format!("{cfg:?}, (ns passed, permits, all-or-nothing) {steps:?}"), &mut || {
            NOW.with(|x| x.set(0));
            let b = RateBucketBuilder::from(&cfg).build();
            let max = cfg.max.map(|m| m as u128).unwrap_or((cfg.refill.max(cfg.initial) as u128 * 10).min(usize::MAX as u128));
            let (mut now, mut bal, mut dl) = (0i64, (cfg.initial as u128).min(max), interval as i128 * 1_000_000);
            if b.balance() as u128 != bal { return Err(format!("starts with {} tokens, must be {bal}", b.balance())); }
            for (i, (dt, p, strict)) in steps.iter().enumerate() {
                now += dt; NOW.with(|x| x.set(now));
                let got = if *strict { b.acquire(*p).is_ok() as u128 * *p as u128 } else { b.acquire_closed(*p) as u128 };
                if *p > 0 {
                    if now as i128 >= dl {
                        let since = (now as i128 - dl) / 1_000_000; let k = since / interval as i128 + 1;
                        bal = max.min(bal + k as u128 * cfg.refill as u128);
                        let base = dl + k * interval as i128 * 1_000_000;
                        let g = b.critical.lock().deadline.signed_duration_since(DateTime::<Utc>::from_timestamp(1_700_000_000, 0).unwrap()).num_nanoseconds().unwrap() as i128;
                        if g < base || g >= base + 1_000_000 { return Err(format!("step {i}: the next refill moved to {g} ns, must be {base} ns")); }
                        dl = g;
                    }
                    let w = if *strict { if bal >= *p as u128 { *p as u128 } else { 0 } } else { bal.min(*p as u128) };
                    if got != w { return Err(format!("step {i}: granted {got}, must be {w} (bucket holds {bal})")); }
                    bal -= w;
                } else if got != 0 { return Err(format!("step {i}: granted {got} of 0")); }
                if b.balance() as u128 != bal { return Err(format!("step {i}: {} tokens left, must be {bal}", b.balance())); }
            }
            Ok(())
        });
        let (c, m, q) = (if r.chance(1, 3) { r.below(5) as i64 - 2 } else { r.below(400) as i64 - 200 }, if r.chance(1, 4) { None } else { Some(r.below(200) as i64) }, r.below(300) as i64 - 20);
        h.case("require", hash(&(c, m, q)), &|| format!("count {c}, max {m:?}, request {q}"), &mut || {
            let mx = parking_lot::Mutex::new(CountBucket::new_with_init(c, m));
            let mut g = mx.lock();
            let res = LocalRequestLimiter.require(&mut g, q);
            let left = g.fetch();
            let want = if q < 0 { RequireResult::Fail } else if c > q { RequireResult::Success } else {
                match m { None => RequireResult::RequestMeta { min: q, max: q },
                    Some(m) if c <= 0 && q <= m => RequireResult::RequestMeta { min: q - c, max: m - c },
                    Some(m) if c > 0 && c + m > q => RequireResult::Success,
                    _ => RequireResult::Fail } };
            if res != want { return Err(format!("{res:?}, must be {want:?}")); }
            if left != if want == RequireResult::Success { c - q } else { c } { return Err(format!("{left} tokens left")); }
            let mut k = CountBucket::new(m); k.inc(q); k.inc(c); k.dec(q);
            if k.fetch() != c { return Err("inc/dec do not add up".into()); }
            Ok(())
        });
    }
    for interval in [0i64] {
        h.case("config_interval", 1, &|| format!("interval {interval}"), &mut || {
            NOW.with(|x| x.set(0));
            let b = RateBucketBuilder::from(&RateBucketConfig { max: Some(10), initial: 1, refill: 1, interval }).build();
            b.acquire(1)
        });
    }
    h.done();
}
