//@prelude
use core::time::Duration;
use std::cmp::min;
use std::fmt::{Display, Formatter};
use humantime::{format_duration, parse_duration};
//@extract common/utils/src/precision.rs enum Precision
@derive Clone, Copy, PartialEq, Debug
@end
//@extract common/utils/src/duration.rs struct CnosDuration
@derive Debug, Clone, PartialEq
@end
//@extract common/utils/src/duration.rs impl Display for CnosDuration
@end
//@extract common/utils/src/duration.rs impl CnosDuration
@end
//@helpers
fn want(d: Duration, inf: bool, u: u128) -> i64 { if inf { i64::MAX } else { i64::try_from(d.as_nanos() / u).unwrap_or(i64::MAX) } }
fn main() {
    let mut h = H::new();
    let mut r = h.rng(15);
    for n in 0..h.scale(60_000, 2_000_000) {
        let secs = match n % 5 { 0 => r.below(10), 1 => i64::MAX as u64 / 1_000_000_000 + r.below(3), 2 => i64::MAX as u64 / 1_000 + r.below(3), _ => r.word() };
        let d = Duration::new(secs, if n % 3 == 0 { 0 } else { r.below(1_000_000_000) as u32 });
        let inf = r.chance(1, 10);
        h.case("convert", hash(&(d, inf)), &|| format!("{d:?} inf={inf}"), &mut || {
            let c = CnosDuration::init(d, inf);
            let g = (c.to_precision(Precision::NS), c.to_precision(Precision::US), c.to_precision(Precision::MS));
            let w = (want(d, inf, 1), want(d, inf, 1_000), want(d, inf, 1_000_000));
            if g != w { return Err(format!("ns/us/ms = {g:?}, must be {w:?}")); }
            if (c.to_nanoseconds(), c.to_microseconds(), c.to_millisecond()) != w { return Err("to_precision disagrees with the single-unit conversions".into()); }
            Ok(())
        });
        let day = match n % 4 { 0 => u64::MAX / 86_400 + r.below(3) - 1, 1 => r.below(100_000), _ => r.word() };
        h.case("days", hash(&day), &|| format!("{day} days"), &mut || {
            let c = CnosDuration::new_with_day(day);
            let w = day as u128 * 86_400;
            if w > u64::MAX as u128 { if c.to_nanoseconds() != i64::MAX || c.to_string() != "INF" { return Err(format!("{c:?}, must be infinite")); } }
            else if c.duration.as_nanos() != w * 1_000_000_000 || c.to_string() == "INF" { return Err(format!("{c:?}, must be {w} s")); }
            match CnosDuration::new(&day.to_string()) { Some(t) if t == c => Ok(()), t => Err(format!("text \"{day}\" gives {t:?}, must be {c:?}")) }
        });
        // what SHOW prints parses back to the same duration
        let sh = r.below(40) + 1; let d2 = Duration::new(r.below(1 << sh), if n % 2 == 0 { 0 } else { r.below(1_000_000_000) as u32 });
        h.case("text", hash(&(d2, inf, 1)), &|| format!("{d2:?} inf={inf}"), &mut || {
            let c = if inf { CnosDuration::new_inf() } else { CnosDuration::new_with_duration(d2) };
            let s = c.to_string();
            if s == "0s" && !inf { return Ok(()); }
            match CnosDuration::new(&s) { Some(t) if t == c => Ok(()), t => Err(format!("prints \"{s}\" which parses to {t:?}")) }
        });
    }
    for (s, w) in [("INF", true), ("inf", true), ("Inf", true), ("x", false), ("", false)] {
        h.case("words", hash(&s), &|| format!("\"{s}\""), &mut || match CnosDuration::new(s) { Some(d) if w && d == CnosDuration::new_inf() => Ok(()), None if !w => Ok(()), o => Err(format!("{o:?}")) });
    }
    h.done();
}
