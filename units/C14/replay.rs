//@prelude
pub type Timestamp = i64;
//@extract common/utils/src/precision.rs enum Precision
@derive Clone, Copy, PartialEq, Debug
@end
//@extract common/utils/src/precision.rs fn timestamp_convert
@end
//@helpers
fn ns(p: Precision) -> i128 { match p { Precision::NS => 1, Precision::US => 1_000, Precision::MS => 1_000_000 } }
fn want(from: Precision, to: Precision, ts: i64) -> Option<i64> {
    let (f, t) = (ns(from), ns(to));
    if f >= t { i64::try_from(ts as i128 * (f / t)).ok() } else { Some((ts as i128 / (t / f)) as i64) }
}
fn main() {
    let mut h = H::new();
    let all = [Precision::MS, Precision::US, Precision::NS];
    let mut xs: Vec<i64> = vec![];
    for b in [0i128, i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 / 1000, i64::MIN as i128 / 1000, i64::MAX as i128 / 1_000_000, i64::MIN as i128 / 1_000_000,
              1000, 1_000_000, -1000, -1_000_000, 999_999_999, 1 << 31, 1 << 32, 1 << 53, -(1 << 53)] {
        for d in -1005i128..=1005 { if let Ok(x) = i64::try_from(b + d) { xs.push(x); } }
    }
    let mut r = h.rng(1);
    for _ in 0..h.scale(20_000, 2_000_000) { xs.push(r.word() as i64); }
    for x in xs { for f in all { for t in all {
        h.case("timestamp_convert", hash(&(x, f as u8, t as u8)), &|| format!("{f:?} -> {t:?}, {x}"), &mut || {
            let (g, w) = (timestamp_convert(f, t, x), want(f, t, x));
            if g == w { Ok(()) } else { Err(format!("got {g:?}, must be {w:?}")) }
        });
    } } }
    h.done();
}
