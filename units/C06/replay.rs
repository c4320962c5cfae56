//@prelude
use std::cmp::{self, max, min}; use std::collections::BTreeMap; use std::fmt::Display; use std::ops::Bound as StdBound;
type Timestamp = i64;
//@extract common/models/src/predicate/domain.rs struct TimeRange
@derive Default, Debug, Clone, Copy, PartialEq, Eq, Hash
@end
//@extract common/models/src/predicate/domain.rs impl From<(StdBound<i64>,StdBound<i64>)> for TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl From<(Timestamp,Timestamp)> for TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl PartialOrd for TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl Ord for TimeRange
@end
//@extract common/models/src/predicate/domain.rs struct TimeRanges
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl TimeRanges
@end
//@extract common/models/src/predicate/domain.rs impl From<(Timestamp,Timestamp)> for TimeRanges
@end
//@helpers
// timestamps that decide everything: every set used below has its ends on (or next to) grid points
fn grid(base: i64, n: i64) -> Vec<i64> { (0..n).filter_map(|i| base.checked_add(i)).collect() }
fn has(s: &[(i64, i64)], t: i64) -> bool { s.iter().any(|r| r.0 <= t && t <= r.1) }
fn pts(s: &TimeRanges) -> Vec<(i64, i64)> { s.ranges().collect() }
// representation: sorted, disjoint, not adjacent, non-empty; hull right
fn rep(s: &TimeRanges) -> Result<(), String> {
    let v = pts(s);
    for r in &v { if r.0 > r.1 { return Err(format!("holds the empty range {r:?}: {v:?}")); } }
    for w in v.windows(2) { if w[0].1.checked_add(1).map_or(true, |x| x >= w[1].0) { return Err(format!("ranges not sorted and separate: {v:?}")); } }
    let hull = if v.is_empty() { (i64::MAX, i64::MIN) } else { (v[0].0, v[v.len() - 1].1) };
    if (s.min_ts(), s.max_ts()) != hull { return Err(format!("bounds {:?} of {v:?}", (s.min_ts(), s.max_ts()))); }
    if s.len() != v.len() || s.is_empty() != v.is_empty() { return Err("len".into()); }
    if s.is_boundless() != (v == [(i64::MIN, i64::MAX)]) { return Err(format!("is_boundless() = {} for {v:?}", s.is_boundless())); }
    let tr: Vec<(i64, i64)> = s.time_ranges().map(|t| (t.min_ts, t.max_ts)).collect();
    if tr != v { return Err("time_ranges() and ranges() differ".into()); }
    let m = s.max_time_range(); if (m.min_ts, m.max_ts) != hull { return Err("max_time_range".into()); }
    Ok(())
}
fn same(what: &str, s: &TimeRanges, want: &dyn Fn(i64) -> bool, probe: &[i64]) -> Result<(), String> {
    rep(s).map_err(|e| format!("{what}: {e}"))?;
    let v = pts(s);
    for &t in probe { if has(&v, t) != want(t) { return Err(format!("{what}: {v:?} {} {t}", if want(t) { "lacks" } else { "must not contain" })); } }
    Ok(())
}
fn single(a: TimeRange, b: TimeRange, probe: &[i64]) -> Result<(), String> {
    let ina = |t: i64| a.min_ts <= t && t <= a.max_ts; let inb = |t: i64| b.min_ts <= t && t <= b.max_ts;
    let any = probe.iter().any(|t| ina(*t) && inb(*t));
    if a.overlaps(&b) != any { return Err(format!("overlaps = {}", !any)); }
    if a.includes(&b) != probe.iter().all(|t| !inb(*t) || ina(*t)) { return Err(format!("includes = {}", a.includes(&b))); }
    for &t in probe { if a.contains(t) != ina(t) { return Err(format!("contains({t}) = {}", a.contains(t))); } }
    match a.intersect(&b) {
        None => if any { return Err("no intersection".into()) },
        Some(c) => for &t in probe { if c.contains(t) != (ina(t) && inb(t)) { return Err(format!("intersection {c:?} at {t}")); } },
    }
    let mut m = a; m.merge(&b);
    if (m.min_ts, m.max_ts) != (a.min_ts.min(b.min_ts), a.max_ts.max(b.max_ts)) { return Err(format!("merge gives {m:?}")); }
    let (l, r) = a.exclude(&b);
    for x in [l, r].iter().flatten() { if x.is_none() { return Err(format!("exclude gives the empty {x:?}")); } }
    for &t in probe { if (l.map_or(false, |x| x.contains(t)) || r.map_or(false, |x| x.contains(t))) != (ina(t) && !inb(t)) { return Err(format!("exclude gives {l:?} {r:?}: wrong at {t}")); } }
    if !(a.min_ts == i64::MIN && a.max_ts == i64::MAX) && a.total_time() != (a.max_ts as i128 - a.min_ts as i128 + 1) as u64 { return Err(format!("total_time {}", a.total_time())); }
    if a.is_boundless() != (a.min_ts == i64::MIN && a.max_ts == i64::MAX) { return Err("is_boundless".into()); }
    if a.cmp(&b) != (a.min_ts, a.max_ts).cmp(&(b.min_ts, b.max_ts)) || a.partial_cmp(&b) != Some(a.cmp(&b)) { return Err("order".into()); }
    Ok(())
}
fn set(adds: &[(i64, i64)], q: (i64, i64), probe: &[i64]) -> Result<(), String> {
    let trs: Vec<TimeRange> = adds.iter().map(|r| TimeRange::new(r.0, r.1)).collect();
    let s = TimeRanges::new(trs.clone());
    same("new", &s, &|t| has(adds, t), probe)?;
    let mut p = TimeRanges::empty();
    for (i, r) in trs.iter().enumerate() { p.push(*r); same(&format!("push {i}"), &p, &|t| has(&adds[..=i], t), probe)?; }
    let k = adds.len() / 2; let mut e = TimeRanges::new(trs[..k].to_vec()); e.extend_from_slice(&trs[k..]);
    same("extend", &e, &|t| has(adds, t), probe)?;
    if p != s || e != s { return Err("the same set built in different ways differs".into()); }
    let qr = TimeRange::new(q.0, q.1);
    let inq = |t: i64| q.0 <= t && t <= q.1;
    for &t in probe { if s.contains(t) != has(adds, t) { return Err(format!("contains({t}) = {}", s.contains(t))); } }
    if q.0 <= q.1 {
        let ov = probe.iter().any(|t| inq(*t) && has(adds, *t));
        if s.overlaps(&qr) != ov { return Err(format!("overlaps({q:?}) = {}", !ov)); }
        if s.includes(&qr) != probe.iter().all(|t| !inq(*t) || has(adds, *t)) { return Err(format!("includes({q:?}) = {}", s.includes(&qr))); }
        match s.intersect(&qr) { None => if ov { return Err(format!("intersect({q:?}) = None")) }, Some(x) => same("intersect", &x, &|t| inq(t) && has(adds, t), probe)? }
        same("exclude", &s.exclude(&qr), &|t| !inq(t) && has(adds, t), probe)?;
        match qr.exclude_time_ranges(&s) { None => if probe.iter().any(|t| inq(*t) && !has(adds, *t)) { return Err(format!("{q:?} without the set: nothing left")) },
            Some(x) => { if x.is_empty() { return Err("exclude_time_ranges gives an empty set, not None".into()); } same("exclude_time_ranges", &x, &|t| inq(t) && !has(adds, t), probe)? } }
    }
    let others: Vec<&TimeRange> = trs.iter().take(2).filter(|t| !t.is_none()).collect();
    same("exclude several", &s.exclude_time_ranges(&others), &|t| has(adds, t) && !others.iter().any(|o| o.contains(t)), probe)?;
    if s.max_time_range().is_none() != s.is_empty() { return Err("max_time_range".into()); }
    Ok(())
}
fn main() {
    let mut h = H::new(); let mut r = h.rng(6);
    let lo = grid(i64::MIN, 4); let mid = grid(-2, 5); let hi = grid(i64::MAX - 3, 4);
    let mut g = lo.clone(); g.extend(&mid); g.extend(&hi);
    let mut probe = g.clone(); for x in g.clone() { for d in [-1i64, 1] { if let Some(y) = x.checked_add(d) { probe.push(y); } } } probe.push(1 << 40); probe.push(-(1 << 40)); probe.sort(); probe.dedup();
    let mut rs = vec![]; for a in &g { for b in &g { if a <= b { rs.push((*a, *b)); } } }
    for a in &rs { for b in &rs {
        h.case("pair", hash(&(a, b)), &|| format!("{a:?} and {b:?}"), &mut || single(TimeRange::new(a.0, a.1), TimeRange::new(b.0, b.1), &probe));
        h.case("set1", hash(&(a, b, 1)), &|| format!("set {{{a:?}}}, range {b:?}"), &mut || set(&[*a], *b, &probe));
    } }
    h.exhaustive("every pair of ranges with ends among 13 timestamps at both ends of the 64-bit range and around 0");
    use StdBound::*;
    for &v in &g { for &w in &g { for kind in 0..9 {
        let b = (match kind / 3 { 0 => Included(v), 1 => Excluded(v), _ => Unbounded }, match kind % 3 { 0 => Included(w), 1 => Excluded(w), _ => Unbounded });
        h.case("bounds", hash(&(v, w, kind)), &|| format!("{b:?}"), &mut || { let t = TimeRange::from(b); use std::ops::RangeBounds; for p in &probe { if t.contains(*p) != b.contains(p) { return Err(format!("gives {t:?}: wrong at {p}")); } } Ok(()) });
    } } }
    // sets over a small line (adjacent, nested, overlapping, empty ranges in any order)
    let line: Vec<i64> = (0..9).collect(); let lp: Vec<i64> = (-1..10).collect();
    let mut lr = vec![]; for a in &line { for b in &line { if a <= b || a - b == 1 { lr.push((*a, *b)); } } }
    for n in 0..h.scale(40_000, 3_000_000) {
        let (ranges, pr): (&[(i64, i64)], &[i64]) = if n % 3 == 0 { (&rs, &probe) } else { (&lr, &lp) };
        let k = r.below(6);
        let adds: Vec<(i64, i64)> = (0..k).map(|_| r.pick(ranges)).collect(); let q = r.pick(ranges);
        h.case("sets", hash(&(&adds, q)), &|| format!("ranges {adds:?}, query {q:?}"), &mut || set(&adds, q, pr));
    }
    h.done();
}
