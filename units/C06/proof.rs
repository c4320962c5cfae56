use vstd::prelude::*;
verus! {
type Timestamp = i64;
const fn min(a: i64, b: i64) -> (r: i64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
const fn max(a: i64, b: i64) -> (r: i64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
enum StdBound<T> { Included(T), Excluded(T), Unbounded }
spec fn above(b: StdBound<i64>, t: i64) -> bool { match b { StdBound::Included(v) => v <= t, StdBound::Excluded(v) => v < t, StdBound::Unbounded => true } }
spec fn below(b: StdBound<i64>, t: i64) -> bool { match b { StdBound::Included(v) => t <= v, StdBound::Excluded(v) => t < v, StdBound::Unbounded => true } }

//@extract common/models/src/predicate/domain.rs struct TimeRange
@derive Clone, Copy, PartialEq, Eq
@end
spec fn mem(r: TimeRange, t: i64) -> bool { r.min_ts <= t && t <= r.max_ts }
spec fn omem(r: Option<TimeRange>, t: i64) -> bool { r is Some && mem(r->0, t) }
// the range stands for exactly the timestamps between the bounds
//@extract common/models/src/predicate/domain.rs From<(StdBound<i64>,StdBound<i64>)> for TimeRange::from
@header impl TimeRange
@subst /fn from/ => fn from_bounds
@ret r
@spec
    ensures forall|t: i64| mem(r, t) <==> above(range.0, t) && below(range.1, t)
@end
//@extract common/models/src/predicate/domain.rs TimeRange::new
@ret r
@spec
    ensures r.min_ts == min_ts, r.max_ts == max_ts
@end
//@extract common/models/src/predicate/domain.rs TimeRange::all
@ret r
@spec
    ensures forall|t: i64| mem(r, t)
@end
//@extract common/models/src/predicate/domain.rs TimeRange::none
@ret r
@spec
    ensures forall|t: i64| !mem(r, t), r.min_ts > r.max_ts, r.min_ts == i64::MAX, r.max_ts == i64::MIN
@end
//@extract common/models/src/predicate/domain.rs TimeRange::is_boundless
@ret r
@spec
    ensures r <==> (forall|t: i64| mem(*self, t))
@at start
    proof { if forall|t: i64| mem(*self, t) { assert(mem(*self, i64::MIN)); assert(mem(*self, i64::MAX)); } }
@end
//@extract common/models/src/predicate/domain.rs TimeRange::overlaps
@ret r
@spec
    ensures self.min_ts <= self.max_ts && range.min_ts <= range.max_ts ==> (r <==> exists|t: i64| mem(*self, t) && mem(*range, t)),
       r == (self.min_ts <= range.max_ts && self.max_ts >= range.min_ts)
@at start
    proof { if self.min_ts <= self.max_ts && range.min_ts <= range.max_ts && self.min_ts <= range.max_ts && self.max_ts >= range.min_ts {
        let w = if self.min_ts >= range.min_ts { self.min_ts } else { range.min_ts }; assert(mem(*self, w) && mem(*range, w)); } }
@end
//@extract common/models/src/predicate/domain.rs TimeRange::includes
@ret r
@spec
    ensures other.min_ts <= other.max_ts ==> (r <==> forall|t: i64| mem(*other, t) ==> mem(*self, t)),
       r == (self.min_ts <= other.min_ts && self.max_ts >= other.max_ts)
@at start
    proof { if other.min_ts <= other.max_ts { assert(mem(*other, other.min_ts)); assert(mem(*other, other.max_ts)); } }
@end
//@extract common/models/src/predicate/domain.rs TimeRange::contains
@ret r
@spec
    ensures r == mem(*self, time_stamp)
@end
//@extract common/models/src/predicate/domain.rs TimeRange::intersect
@ret r
@subst /cmp::(max|min)\(/ => \1(
@spec
    requires self.min_ts <= self.max_ts, other.min_ts <= other.max_ts
    ensures forall|t: i64| omem(r, t) <==> mem(*self, t) && mem(*other, t), r matches Some(x) ==> x.min_ts <= x.max_ts
@end
//@extract common/models/src/predicate/domain.rs TimeRange::total_time
@ret r
@spec
    requires !(self.min_ts == i64::MIN && self.max_ts == i64::MAX)
    ensures r == (if self.max_ts < self.min_ts { 0 } else { self.max_ts - self.min_ts + 1 })
@end
//@extract common/models/src/predicate/domain.rs TimeRange::merge
@subst /(self\.m\w+_ts)\.(min|max)\(/ => \2(\1, 
@spec
    ensures forall|t: i64| mem(*old(self), t) || mem(*other, t) ==> mem(*final(self), t),
      final(self).min_ts == old(self).min_ts || final(self).min_ts == other.min_ts, final(self).max_ts == old(self).max_ts || final(self).max_ts == other.max_ts,
      final(self).min_ts <= old(self).min_ts && final(self).min_ts <= other.min_ts && final(self).max_ts >= old(self).max_ts && final(self).max_ts >= other.max_ts
@end
//@extract common/models/src/predicate/domain.rs TimeRange::exclude
@ret r
@spec
    requires self.min_ts <= self.max_ts, other.min_ts <= other.max_ts
    ensures forall|t: i64| (#[trigger] omem(r.0, t) || omem(r.1, t)) <==> (mem(*self, t) && !mem(*other, t)),
       r.0 matches Some(x) ==> x.min_ts <= x.max_ts, r.1 matches Some(x) ==> x.min_ts <= x.max_ts
@end
//@extract common/models/src/predicate/domain.rs TimeRange::is_none
@ret r
@spec
    ensures r <==> (forall|t: i64| !mem(*self, t)), r == (self.min_ts > self.max_ts)
@at start
    proof { if self.min_ts <= self.max_ts { assert(mem(*self, self.min_ts)); } }
@end

// ---- the ordered map of ranges (std BTreeMap) ---------------------------------------------
struct Inner { x: Vec<i64> }
impl Inner {
    uninterp spec fn view(&self) -> Map<i64, i64>;
    #[verifier::external_body]
    fn new() -> (r: Inner) ensures r@ == Map::<i64, i64>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn of(e: (i64, i64)) -> (r: Inner) ensures r@ == Map::<i64, i64>::empty().insert(e.0, e.1) { unimplemented!() }
    // range(..=bound).rev().take_while(f on the value).map(key).collect()
    #[verifier::external_body]
    fn keys_desc_while<F: Fn(i64) -> bool>(&self, bound: i64, f: F) -> (r: Vec<i64>)
        requires forall|m: i64| f.requires((m,))
        ensures
          forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains(#[trigger] r@[i]) && r@[i] <= bound && f.ensures((self@[r@[i]],), true),
          forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] > r@[j],
          // nothing skipped: a key in range that is missing lies at or below a key whose value fails f
          forall|k: i64| #[trigger] self@.dom().contains(k) && k <= bound && !r@.contains(k) ==> exists|s: i64| #[trigger] self@.dom().contains(s) && k <= s <= bound && f.ensures((self@[s],), false)
              && forall|i: int| 0 <= i < r@.len() ==> s < #[trigger] r@[i],
    { unimplemented!() }
    #[verifier::external_body]
    fn at(&self, k: &i64) -> (r: i64) requires self@.dom().contains(*k) ensures r == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &i64) -> (r: Option<&i64>) ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &i64) -> (r: Option<i64>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: i64, v: i64) -> (r: Option<i64>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r <==> self@.dom() == Set::<i64>::empty() { unimplemented!() }
    // range(..=bound).next_back()
    #[verifier::external_body]
    fn last_le(&self, bound: i64) -> (r: Option<(i64, i64)>)
        ensures r is None ==> forall|k: i64| #[trigger] self@.dom().contains(k) ==> k > bound,
          r is Some ==> self@.dom().contains((r->0).0) && self@[(r->0).0] == (r->0).1 && (r->0).0 <= bound && forall|k: i64| #[trigger] self@.dom().contains(k) && k <= bound ==> k <= (r->0).0
    { unimplemented!() }
    // iter().flat_map(f).collect().into_iter().flatten().collect()
    #[verifier::external_body]
    fn flat_collect<F: Fn((&i64, &i64)) -> [Option<TimeRange>; 2]>(&self, f: F) -> (r: Vec<TimeRange>)
        requires forall|k: i64| self@.dom().contains(k) ==> f.requires(((&k, &#[trigger] self@[k]),))
        ensures
          forall|i: int| 0 <= i < r@.len() ==> exists|k: i64, a: [Option<TimeRange>; 2]| self@.dom().contains(k) && f.ensures(((&k, &self@[k]),), a) && (a[0] == Some(#[trigger] r@[i]) || a[1] == Some(r@[i])),
          forall|k: i64| #[trigger] self@.dom().contains(k) ==> exists|a: [Option<TimeRange>; 2]| f.ensures(((&k, &self@[k]),), a) && (a[0] is Some ==> r@.contains(a[0]->0)) && (a[1] is Some ==> r@.contains(a[1]->0)),
    { unimplemented!() }
}
#[verifier::external_body]
fn same_ref(a: Option<&i64>, b: Option<&i64>) -> (r: bool) ensures r == ((a is None && b is None) || (a is Some && b is Some && *a->0 == *b->0)) { unimplemented!() }
spec fn wfm(m: Map<i64, i64>) -> bool {
    &&& forall|k: i64| #[trigger] m.dom().contains(k) ==> k <= m[k]
    &&& forall|a: i64, b: i64| #[trigger] m.dom().contains(a) && #[trigger] m.dom().contains(b) && a < b ==> m[a] + 1 < b
}
spec fn cov1(m: Map<i64, i64>, k: i64, t: i64) -> bool { m.dom().contains(k) && k <= t <= m[k] }
spec fn cov(m: Map<i64, i64>, t: i64) -> bool { exists|k: i64| #[trigger] cov1(m, k, t) }
//@extract common/models/src/predicate/domain.rs struct TimeRanges
@subst /BTreeMap<i64, i64>/ => Inner
@end
spec fn hull(m: Map<i64, i64>, lo: i64, hi: i64) -> bool {
    ||| (m.dom() == Set::<i64>::empty() && lo == i64::MAX && hi == i64::MIN)
    ||| (m.dom().contains(lo) && (forall|k: i64| #[trigger] m.dom().contains(k) ==> lo <= k && m[k] <= hi) && exists|k: i64| #[trigger] m.dom().contains(k) && m[k] == hi)
}
impl TimeRanges {
    spec fn wf(&self) -> bool { wfm(self.inner@) && hull(self.inner@, self.min_ts, self.max_ts) }
    spec fn has(&self, t: i64) -> bool { cov(self.inner@, t) }
    // stand-ins for the iterator-returning accessors (BTreeMap::iter in key order)
    #[verifier::external_body]
    fn ranges(&self) -> (r: Vec<(i64, i64)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self.inner@.dom().contains((#[trigger] r@[i]).0) && self.inner@[r@[i].0] == r@[i].1,
          forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 < (#[trigger] r@[j]).0,
          forall|k: i64| #[trigger] self.inner@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k
    { unimplemented!() }
    #[verifier::external_body]
    fn time_ranges(&self) -> (r: List)
        ensures forall|i: int| 0 <= i < r.v@.len() ==> self.inner@.dom().contains((#[trigger] r.v@[i]).min_ts) && self.inner@[r.v@[i].min_ts] == r.v@[i].max_ts,
          forall|k: i64| #[trigger] self.inner@.dom().contains(k) ==> exists|i: int| 0 <= i < r.v@.len() && (#[trigger] r.v@[i]).min_ts == k
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: TimeRanges) ensures r == *self { unimplemented!() }
}
struct List { v: Vec<TimeRange> }
impl List {
    #[verifier::external_body]
    fn any<F: Fn(TimeRange) -> bool>(&self, f: F) -> (r: bool)
        requires forall|t: TimeRange| f.requires((t,))
        ensures r ==> exists|i: int| 0 <= i < self.v@.len() && f.ensures((#[trigger] self.v@[i],), true), !r ==> forall|i: int| 0 <= i < self.v@.len() ==> f.ensures((#[trigger] self.v@[i],), false)
    { unimplemented!() }
}
spec fn seq_has(s: Seq<TimeRange>, t: i64) -> bool { exists|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], t) }

// a boundless set is the one that contains everything
//@extract common/models/src/predicate/domain.rs TimeRanges::is_boundless
@ret r
@subst /self\.inner\.get\(&Timestamp::MIN\) == Some\(&Timestamp::MAX\)/ => same_ref(self.inner.get(&Timestamp::MIN), Some(&Timestamp::MAX))
@spec
    requires self.wf()
    ensures r ==> forall|t: i64| self.has(t)
@at start
    proof { let m = self.inner@; if m.dom().contains(i64::MIN) && m[i64::MIN] == i64::MAX { assert forall|t: i64| self.has(t) by { assert(cov1(m, i64::MIN, t)); } } }
@end
// adding a range adds exactly its timestamps
//@extract common/models/src/predicate/domain.rs TimeRanges::add_time_range
@subst /self\s*\.inner\s*\.range\(\s*\.\.=(.*?),?\s*\)\s*\.rev\(\)\s*\.take_while\(\|\(_, &max\)\| \{(.*?)\}\)\s*\.map\(\|\(&min, _\)\| min\)\s*\.collect::<Vec<_>>\(\)/ => self.inner.keys_desc_while(\1, |max: i64| -> (q: bool) ensures q == (max as int >= time_range.min_ts - 1) {\2})
@subst /time_range\s*\.max_ts\s*\.checked_add\(1\)\s*\.unwrap_or\(time_range\.max_ts\)/ => or_else(time_range.max_ts.checked_add(1), time_range.max_ts)
@subst /time_range\s*\.min_ts\s*\.checked_sub\(1\)\s*\.unwrap_or\(time_range\.min_ts\)/ => or_else(time_range.min_ts.checked_sub(1), time_range.min_ts)
@subst /new_range\.(\d)\.(min|max)\(/ => \2(new_range.\1, 
@subst /self\.inner\[&timestamps\[0\]\]/ => self.inner.at(&timestamps[0])
@subst /timestamps\.iter\(\)\.for_each\(\|ts\| \{(.*?)\}\);/ => for ts in timestamps.iter() {\1}
@loops 1
@iter 0 it
@spec
    requires old(self).wf()
    ensures final(self).wf(), forall|t: i64| #[trigger] final(self).has(t) <==> old(self).has(t) || mem(time_range, t)
@at before-loop 0
    let ghost m0 = self.inner@;
    proof { assert(m0 == old(self).inner@); assert(timestamps@.len() > 0); }
@loop 0
    invariant it.seq().len() == timestamps@.len(), forall|k: int| 0 <= k < timestamps@.len() ==> *(#[trigger] it.seq()[k]) == timestamps@[k],
       self.inner@.dom() =~= m0.dom().difference(Set::new(|k: i64| exists|j: int| 0 <= j < it.index@ && timestamps@[j] == k)->0) || true,
       forall|k: i64| #[trigger] self.inner@.dom().contains(k) <==> m0.dom().contains(k) && forall|j: int| 0 <= j < it.index@ ==> #[trigger] timestamps@[j] != k,
       forall|k: i64| #[trigger] self.inner@.dom().contains(k) ==> self.inner@[k] == m0[k],
       self.min_ts == min_ts_of(old(self).min_ts, time_range.min_ts), self.max_ts == max_ts_of(old(self).max_ts, time_range.max_ts)
@at end
    proof { let ghost mo = old(self).inner@; assert forall|k: i64| #[trigger] mo.dom().contains(k) && !timestamps@.contains(k) && k as int <= time_range.max_ts + 1 implies has_stop(mo, time_range, k) by { reveal(has_stop); }
        add_lemma(old(self).inner@, self.inner@, timestamps@, time_range, new_range, old(self).min_ts, old(self).max_ts, self.min_ts, self.max_ts); }
@end
spec fn min_ts_of(a: i64, b: i64) -> i64 { if a <= b { a } else { b } }
spec fn max_ts_of(a: i64, b: i64) -> i64 { if a >= b { a } else { b } }
fn or_else(o: Option<i64>, d: i64) -> (r: i64) ensures r == (if o is Some { o->0 } else { d }) { match o { Some(x) => x, None => d } }
#[verifier::opaque]
spec fn has_stop(m0: Map<i64, i64>, tr: TimeRange, k: i64) -> bool { exists|s: i64| #[trigger] m0.dom().contains(s) && k <= s && (m0[s] as int) < tr.min_ts - 1 }
proof fn get_stop(m0: Map<i64, i64>, tr: TimeRange, k: i64) -> (s: i64)
    requires has_stop(m0, tr, k) ensures m0.dom().contains(s) && k <= s && (m0[s] as int) < tr.min_ts - 1
{ reveal(has_stop); choose|s: i64| #[trigger] m0.dom().contains(s) && k <= s && (m0[s] as int) < tr.min_ts - 1 }
spec fn add_pre(m0: Map<i64, i64>, m1: Map<i64, i64>, ts: Seq<i64>, tr: TimeRange, nr: (i64, i64), lo0: i64, hi0: i64) -> bool {
    &&& wfm(m0) && hull(m0, lo0, hi0) && tr.min_ts <= tr.max_ts
    &&& forall|i: int| 0 <= i < ts.len() ==> m0.dom().contains(#[trigger] ts[i]) && ts[i] as int <= tr.max_ts + 1 && m0[ts[i]] as int >= tr.min_ts - 1
    &&& forall|i: int, j: int| 0 <= i < j < ts.len() ==> ts[i] > ts[j]
    &&& forall|k: i64| #[trigger] m0.dom().contains(k) && !ts.contains(k) ==> k as int > tr.max_ts + 1 || has_stop(m0, tr, k)
    &&& nr.0 == (if ts.len() > 0 { min_ts_of(tr.min_ts, ts.last()) } else { tr.min_ts })
    &&& nr.1 == (if ts.len() > 0 { max_ts_of(tr.max_ts, m0[ts[0]]) } else { tr.max_ts })
    &&& m1.dom().contains(nr.0) && m1[nr.0] == nr.1
    &&& forall|k: i64| k != nr.0 ==> (#[trigger] m1.dom().contains(k) <==> m0.dom().contains(k) && !ts.contains(k))
    &&& forall|k: i64| k != nr.0 && #[trigger] m1.dom().contains(k) ==> m1[k] == m0[k]
}
// the largest and smallest removed keys
proof fn add_ends(m0: Map<i64, i64>, m1: Map<i64, i64>, ts: Seq<i64>, tr: TimeRange, nr: (i64, i64), lo0: i64, hi0: i64)
    requires add_pre(m0, m1, ts, tr, nr, lo0, hi0)
    ensures ts.len() > 0 ==> m0.dom().contains(ts[0]) && m0.dom().contains(ts.last()) && ts.contains(ts[0]) && ts.contains(ts.last()) && m0[ts[0]] >= ts[0] && m0[ts.last()] >= tr.min_ts - 1 && ts[0] <= tr.max_ts + 1,
       forall|k: i64| #[trigger] ts.contains(k) ==> m0.dom().contains(k) && ts.len() > 0 && ts.last() <= k <= ts[0] && m0[k] <= m0[ts[0]] && k <= m0[k],
       nr.0 <= tr.min_ts && tr.max_ts <= nr.1
{
    if ts.len() > 0 { let a = ts[0]; let b = ts.last(); assert(ts.contains(a)); assert(ts.contains(b)); }
    assert forall|k: i64| #[trigger] ts.contains(k) implies m0.dom().contains(k) && ts.len() > 0 && ts.last() <= k <= ts[0] && m0[k] <= m0[ts[0]] && k <= m0[k] by {
        let i = choose|i: int| 0 <= i < ts.len() && ts[i] == k;
        assert(ts[i] >= ts.last()); assert(ts[0] >= ts[i]); assert(m0.dom().contains(ts[i]));
        assert(m0.dom().contains(ts[0]));
        if k < ts[0] { assert(m0[k] + 1 < ts[0]); }
    }
}
// a key that stays lies wholly to one side of the new range, with a gap
proof fn add_gap(m0: Map<i64, i64>, m1: Map<i64, i64>, ts: Seq<i64>, tr: TimeRange, nr: (i64, i64), lo0: i64, hi0: i64, k: i64)
    requires add_pre(m0, m1, ts, tr, nr, lo0, hi0), m0.dom().contains(k), !ts.contains(k)
    ensures k as int > nr.1 + 1 || (m0[k] as int) < nr.0 - 1
{
    add_ends(m0, m1, ts, tr, nr, lo0, hi0);
    if k as int > tr.max_ts + 1 { if ts.len() > 0 { assert(k != ts[0]); assert(m0[ts[0]] + 1 < k); } }
    else {
        let s = get_stop(m0, tr, k);
        assert(m0[k] <= m0[s]) by { assert(s <= m0[s]); if k < s { assert(m0[k] + 1 < s); } }
        if ts.len() > 0 { let l = ts.last(); assert(k != l); if k > l { assert(m0[l] + 1 < k); assert(k <= m0[k]); } assert(k < l); assert(m0[k] + 1 < l); }
    }
}
proof fn add_wfm(m0: Map<i64, i64>, m1: Map<i64, i64>, ts: Seq<i64>, tr: TimeRange, nr: (i64, i64), lo0: i64, hi0: i64)
    requires add_pre(m0, m1, ts, tr, nr, lo0, hi0)
    ensures wfm(m1)
{
    add_ends(m0, m1, ts, tr, nr, lo0, hi0);
    assert forall|k: i64| #[trigger] m1.dom().contains(k) implies k <= m1[k] by { if k != nr.0 { assert(m0.dom().contains(k)); } }
    assert forall|a: i64, b: i64| #[trigger] m1.dom().contains(a) && #[trigger] m1.dom().contains(b) && a < b implies m1[a] + 1 < b by {
        if a != nr.0 { assert(m0.dom().contains(a)); add_gap(m0, m1, ts, tr, nr, lo0, hi0, a); }
        if b != nr.0 { assert(m0.dom().contains(b)); add_gap(m0, m1, ts, tr, nr, lo0, hi0, b); assert(b <= m0[b]); }
    }
}
proof fn add_cov(m0: Map<i64, i64>, m1: Map<i64, i64>, ts: Seq<i64>, tr: TimeRange, nr: (i64, i64), lo0: i64, hi0: i64, t: i64)
    requires add_pre(m0, m1, ts, tr, nr, lo0, hi0)
    ensures cov(m1, t) <==> cov(m0, t) || mem(tr, t)
{
    add_ends(m0, m1, ts, tr, nr, lo0, hi0);
    if cov(m1, t) {
        let k = choose|k: i64| #[trigger] cov1(m1, k, t);
        if k == nr.0 {
            if t < tr.min_ts { assert(cov1(m0, ts.last(), t)); } else if t > tr.max_ts { assert(cov1(m0, ts[0], t)); }
        } else { assert(m0.dom().contains(k)); assert(cov1(m0, k, t)); }
    }
    if mem(tr, t) { assert(cov1(m1, nr.0, t)); }
    else if cov(m0, t) {
        let k = choose|k: i64| #[trigger] cov1(m0, k, t);
        if ts.contains(k) { assert(cov1(m1, nr.0, t)); }
        else {
            add_gap(m0, m1, ts, tr, nr, lo0, hi0, k); assert(k != nr.0); assert(m1.dom().contains(k)); assert(cov1(m1, k, t));
        }
    }
}
proof fn add_hull(m0: Map<i64, i64>, m1: Map<i64, i64>, ts: Seq<i64>, tr: TimeRange, nr: (i64, i64), lo0: i64, hi0: i64, lo1: i64, hi1: i64)
    requires add_pre(m0, m1, ts, tr, nr, lo0, hi0), lo1 == min_ts_of(lo0, tr.min_ts), hi1 == max_ts_of(hi0, tr.max_ts),
    ensures hull(m1, lo1, hi1)
{
    add_ends(m0, m1, ts, tr, nr, lo0, hi0);
    if m0.dom() == Set::<i64>::empty() {
        assert(ts.len() == 0) by { if ts.len() > 0 { assert(m0.dom().contains(ts[0])); } }
        assert forall|k: i64| #[trigger] m1.dom().contains(k) implies k == nr.0 by { if k != nr.0 { assert(m0.dom().contains(k)); } }
    } else {
        assert(m0.dom().contains(lo0));
        let kh = choose|k: i64| #[trigger] m0.dom().contains(k) && m0[k] == hi0;
        if ts.contains(lo0) { assert(nr.0 == lo1); }
        else { add_gap(m0, m1, ts, tr, nr, lo0, hi0, lo0);
            assert(lo0 <= m0[lo0]);
            if tr.min_ts < lo0 { assert(ts.len() > 0 ==> ts.last() >= lo0); assert(nr.0 == tr.min_ts); }
            else { assert(lo1 == lo0); assert(ts.len() > 0 ==> ts.last() >= lo0); assert(lo0 != nr.0); assert(m1.dom().contains(lo0)); } }
        assert(m1.dom().contains(lo1));
        assert(nr.0 >= lo1); assert(nr.1 <= hi1);
        assert forall|k: i64| #[trigger] m1.dom().contains(k) implies lo1 <= k && m1[k] <= hi1 by { if k != nr.0 { assert(m0.dom().contains(k)); } }
        if tr.max_ts >= hi0 { assert(nr.1 == hi1); assert(m1.dom().contains(nr.0) && m1[nr.0] == hi1); }
        else if ts.contains(kh) { assert(nr.1 == hi1); assert(m1.dom().contains(nr.0) && m1[nr.0] == hi1); }
        else { add_gap(m0, m1, ts, tr, nr, lo0, hi0, kh); assert(m0.dom().contains(kh) && m0[kh] == hi0); assert(kh <= m0[kh]); assert(kh != nr.0); assert(m1.dom().contains(kh)); assert(hi1 == hi0); assert(m1[kh] == m0[kh]); }
    }
}
proof fn add_lemma(m0: Map<i64, i64>, m1: Map<i64, i64>, ts: Seq<i64>, tr: TimeRange, nr: (i64, i64), lo0: i64, hi0: i64, lo1: i64, hi1: i64)
    requires add_pre(m0, m1, ts, tr, nr, lo0, hi0), lo1 == min_ts_of(lo0, tr.min_ts), hi1 == max_ts_of(hi0, tr.max_ts),
    ensures wfm(m1), hull(m1, lo1, hi1), forall|t: i64| #[trigger] cov(m1, t) <==> cov(m0, t) || mem(tr, t)
{
    add_wfm(m0, m1, ts, tr, nr, lo0, hi0); add_hull(m0, m1, ts, tr, nr, lo0, hi0, lo1, hi1);
    assert forall|t: i64| #[trigger] cov(m1, t) <==> cov(m0, t) || mem(tr, t) by { add_cov(m0, m1, ts, tr, nr, lo0, hi0, t); }
}
//@extract common/models/src/predicate/domain.rs TimeRanges::empty
@ret r
@subst /BTreeMap::new\(\)/ => Inner::new()
@spec
    ensures r.wf(), forall|t: i64| !r.has(t)
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::all
@ret r
@subst /BTreeMap::from\(\[(.*?)\]\)/ => Inner::of(\1)
@spec
    ensures r.wf(), forall|t: i64| r.has(t)
@at start
    proof { let m = Map::<i64, i64>::empty().insert(i64::MIN, i64::MAX); assert(m.dom().contains(i64::MIN)); assert forall|t: i64| cov(m, t) by { assert(cov1(m, i64::MIN, t)); } }
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::with_inclusive_bounds
@ret r
@subst /BTreeMap::from\(\[(.*?)\]\)/ => Inner::of(\1)
@spec
    requires min_ts <= max_ts
    ensures r.wf(), forall|t: i64| #[trigger] r.has(t) <==> min_ts <= t <= max_ts
@at start
    proof { let m = Map::<i64, i64>::empty().insert(min_ts, max_ts); assert(m.dom().contains(min_ts)); assert forall|t: i64| min_ts <= t <= max_ts implies cov(m, t) by { assert(cov1(m, min_ts, t)); } }
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::push
@spec
    requires old(self).wf()
    ensures final(self).wf(), forall|t: i64| #[trigger] final(self).has(t) <==> old(self).has(t) || mem(time_range, t)
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::extend_from_slice
@loops 1
@iter 0 it
@spec
    requires old(self).wf()
    ensures final(self).wf(), forall|t: i64| #[trigger] final(self).has(t) <==> old(self).has(t) || seq_has(time_ranges@, t)
@loop 0
    invariant self.wf(), it.seq().len() == time_ranges@.len(), forall|k: int| 0 <= k < time_ranges@.len() ==> *(#[trigger] it.seq()[k]) == time_ranges@[k],
      forall|t: i64| #[trigger] self.has(t) <==> old(self).has(t) || seq_has(time_ranges@.take(it.index@), t)
@at loop-start 0
    let ghost pre = *self;
@at loop-end 0
    proof { let n = it.index@; let a = time_ranges@.take(n); let b = time_ranges@.take(n + 1);
        assert forall|t: i64| seq_has(b, t) <==> seq_has(a, t) || mem(time_ranges@[n], t) by {
            if seq_has(a, t) { let i = choose|i: int| 0 <= i < a.len() && mem(#[trigger] a[i], t); assert(mem(b[i], t)); }
            if mem(time_ranges@[n], t) { assert(mem(b[n], t)); }
            if seq_has(b, t) { let i = choose|i: int| 0 <= i < b.len() && mem(#[trigger] b[i], t); if i < n { assert(mem(a[i], t)); } }
        } }
@at after-loop 0
    proof { assert(time_ranges@.take(time_ranges@.len() as int) =~= time_ranges@); }
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::new
@ret r
@subst /extend_from_slice\(&time_ranges\)/ => extend_from_slice(time_ranges.as_slice())
@spec
    ensures r.wf(), forall|t: i64| #[trigger] r.has(t) <==> seq_has(time_ranges@, t)
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::is_empty
@ret r
@spec
    requires self.wf()
    ensures r <==> forall|t: i64| !self.has(t)
@at start
    proof { let m = self.inner@; if m.dom() != Set::<i64>::empty() { let k = self.min_ts; assert(cov1(m, k, k)); assert(self.has(k)); } }
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::min_ts
@ret r
@spec
    ensures r == self.min_ts
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::max_ts
@ret r
@spec
    ensures r == self.max_ts
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::max_time_range
@ret r
@spec
    ensures r.min_ts == self.min_ts, r.max_ts == self.max_ts
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::overlaps
@ret r
@subst /\|tr\| (tr\.overlaps\(time_range\))/ => |tr: TimeRange| -> (q: bool) ensures q == (tr.min_ts <= time_range.max_ts && tr.max_ts >= time_range.min_ts) { \1 }
@spec
    requires self.wf(), time_range.min_ts <= time_range.max_ts
    ensures r <==> exists|t: i64| self.has(t) && mem(*time_range, t)
@at start
    proof { let m = self.inner@;
        assert forall|k: i64| #[trigger] m.dom().contains(k) && k <= time_range.max_ts && m[k] >= time_range.min_ts implies exists|t: i64| self.has(t) && mem(*time_range, t) by {
            let t = if k >= time_range.min_ts { k } else { time_range.min_ts }; assert(cov1(m, k, t)); assert(self.has(t) && mem(*time_range, t)); }
        if exists|t: i64| self.has(t) && mem(*time_range, t) {
            let t = choose|t: i64| self.has(t) && mem(*time_range, t); let k = choose|k: i64| #[trigger] cov1(m, k, t);
            assert(m.dom().contains(k) && k <= time_range.max_ts && m[k] >= time_range.min_ts);
            assert(self.min_ts <= k && m[k] <= self.max_ts);
        } }
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::includes
@ret r
@subst /self\.inner\.range\(\.\.=time_range\.max_ts\)\.next_back\(\)/ => self.inner.last_le(time_range.max_ts)
@subst /Some\(\(&(\w+), &(\w+)\)\)/ => Some((\1, \2))
@spec
    requires self.wf(), time_range.min_ts <= time_range.max_ts
    ensures r <==> forall|t: i64| mem(*time_range, t) ==> self.has(t)
@at start
    proof { let m = self.inner@;
        assert forall|k: i64| #[trigger] m.dom().contains(k) && k <= time_range.min_ts && m[k] >= time_range.max_ts implies (forall|t: i64| mem(*time_range, t) ==> self.has(t)) by {
            assert forall|t: i64| mem(*time_range, t) implies self.has(t) by { assert(cov1(m, k, t)); } }
        if forall|t: i64| mem(*time_range, t) ==> self.has(t) {
            // one single range covers both ends: otherwise the timestamp after the left one is missing
            assert(mem(*time_range, time_range.min_ts)); assert(self.has(time_range.min_ts));
            let k = choose|k: i64| #[trigger] cov1(m, k, time_range.min_ts);
            if m[k] < time_range.max_ts {
                let t = (m[k] + 1) as i64; assert(mem(*time_range, t)); assert(self.has(t));
                let k2 = choose|k2: i64| #[trigger] cov1(m, k2, t);
                assert(m.dom().contains(k) && m.dom().contains(k2)); assert(k2 != k); assert(false);
            }
            assert(m.dom().contains(k) && k <= time_range.min_ts && m[k] >= time_range.max_ts);
            assert forall|k2: i64| #[trigger] m.dom().contains(k2) && k2 <= time_range.max_ts implies k2 <= k by { if k2 > k { assert(m[k] + 1 < k2); } }
        } }
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::contains
@ret r
@spec
    requires self.wf()
    ensures r <==> self.has(timestamp)
@at start
    proof { assert(mem(TimeRange { min_ts: timestamp, max_ts: timestamp }, timestamp)); }
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::intersect
@ret r
@loops 1
@iter 0 it
@subst /for tr in self\.time_ranges\(\)/ => let lst = self.time_ranges().v; let ghost gs = lst@; for tr in lst
@spec
    requires self.wf(), time_range.min_ts <= time_range.max_ts
    ensures r is None ==> forall|t: i64| !(self.has(t) && mem(*time_range, t)),
      r matches Some(x) ==> x.wf() && forall|t: i64| #[trigger] x.has(t) <==> self.has(t) && mem(*time_range, t)
@loop 0
    invariant it.seq() == gs, self.wf(), time_range.min_ts <= time_range.max_ts,
      forall|i: int| 0 <= i < gs.len() ==> self.inner@.dom().contains((#[trigger] gs[i]).min_ts) && self.inner@[gs[i].min_ts] == gs[i].max_ts,
      forall|k: i64| #[trigger] self.inner@.dom().contains(k) ==> exists|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).min_ts == k,
      forall|t: i64| #[trigger] seq_has(new_time_ranges@, t) <==> exists|i: int| 0 <= i < it.index@ && mem(#[trigger] gs[i], t) && mem(*time_range, t),
      forall|i: int| 0 <= i < new_time_ranges@.len() ==> (#[trigger] new_time_ranges@[i]).min_ts <= new_time_ranges@[i].max_ts,
@at loop-start 0
    let ghost a = new_time_ranges@; let ghost n = it.index@;
@at loop-end 0
    proof { let b = new_time_ranges@;
        assert forall|t: i64| #[trigger] seq_has(b, t) <==> exists|i: int| 0 <= i < n + 1 && mem(#[trigger] gs[i], t) && mem(*time_range, t) by {
            assert(seq_has(a, t) ==> seq_has(b, t)) by { if seq_has(a, t) { let i = choose|i: int| 0 <= i < a.len() && mem(#[trigger] a[i], t); assert(mem(b[i], t)); } }
            if mem(gs[n], t) && mem(*time_range, t) { assert(mem(b[b.len() - 1], t)); }
            if seq_has(b, t) && !seq_has(a, t) { let i = choose|i: int| 0 <= i < b.len() && mem(#[trigger] b[i], t); if i < a.len() { assert(mem(a[i], t)); } assert(mem(gs[n], t)); }
        } }
@at after-loop 0
    proof {
        assert forall|t: i64| seq_has(new_time_ranges@, t) <==> self.has(t) && mem(*time_range, t) by {
            if seq_has(new_time_ranges@, t) { let i = choose|i: int| 0 <= i < gs.len() && mem(#[trigger] gs[i], t) && mem(*time_range, t); assert(cov1(self.inner@, gs[i].min_ts, t)); }
            if self.has(t) && mem(*time_range, t) { let k = choose|k: i64| #[trigger] cov1(self.inner@, k, t); assert(self.inner@.dom().contains(k)); let i = choose|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).min_ts == k; assert(mem(gs[i], t)); }
        }
        if new_time_ranges@.len() > 0 { assert(mem(new_time_ranges@[0], new_time_ranges@[0].min_ts)); }
    }
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::exclude
@ret r
@subst /let trs = self\s*\.inner\s*\.iter\(\)\s*\.flat_map\(\|tr\| \{(.*?)\n            \}\)\s*\.collect::<Vec<Option<TimeRange>>>\(\)\s*\.into_iter\(\)\s*\.flatten\(\)\s*\.collect::<Vec<TimeRange>>\(\)/ => let cl = |tr: (&i64, &i64)| -> (q: [Option<TimeRange>; 2]) requires *tr.0 <= *tr.1 ensures excl_ok(q[0], q[1], *tr.0, *tr.1, *time_range) { let q = {\1}; proof { let q0 = q[0]; let q1 = q[1]; assert forall|t: i64| #![all_triggers] (omem(q0, t) || omem(q1, t)) <==> (*tr.0 <= t && t <= *tr.1 && !mem(*time_range, t)) by { assert(omem(q0, t) || true); } } q }; let trs = self.inner.flat_collect(cl)
@spec
    requires self.wf(), time_range.min_ts <= time_range.max_ts
    ensures r.wf(), forall|t: i64| #[trigger] r.has(t) <==> self.has(t) && !mem(*time_range, t)
@at before /TimeRanges::new\(trs\)/
    proof {
        let m = self.inner@;
        assert forall|t: i64| seq_has(trs@, t) <==> self.has(t) && !mem(*time_range, t) by {
            if seq_has(trs@, t) {
                let i = choose|i: int| 0 <= i < trs@.len() && mem(#[trigger] trs@[i], t);
                let x = trs@[i];
                let (k, a) = choose|k: i64, a: [Option<TimeRange>; 2]| m.dom().contains(k) && #[trigger] cl.ensures(((&k, &m[k]),), a) && (a[0] == Some(x) || a[1] == Some(x));
                assert(omem(a[0], t) || omem(a[1], t)); assert(excl_ok(a[0], a[1], k, m[k], *time_range)); assert(cov1(m, k, t));
            }
            if self.has(t) && !mem(*time_range, t) {
                let k = choose|k: i64| #[trigger] cov1(m, k, t); assert(m.dom().contains(k));
                let a = choose|a: [Option<TimeRange>; 2]| #[trigger] cl.ensures(((&k, &m[k]),), a) && (a[0] is Some ==> trs@.contains(a[0]->0)) && (a[1] is Some ==> trs@.contains(a[1]->0));
                assert(omem(a[0], t) || omem(a[1], t));
                let x = if omem(a[0], t) { a[0]->0 } else { a[1]->0 };
                let i = choose|i: int| 0 <= i < trs@.len() && trs@[i] == x; assert(mem(trs@[i], t));
            }
        }
    }
@end
//@extract common/models/src/predicate/domain.rs TimeRanges::exclude_time_ranges
@ret r
@subst /other\.iter\(\)\.for_each\(\|o\| (.*?)\);/ => for o in other.iter() { \1; }
@loops 1
@iter 0 it
@spec
    requires self.wf(), forall|i: int| 0 <= i < other@.len() ==> (#[trigger] other@[i]).min_ts <= other@[i].max_ts
    ensures r.wf(), forall|t: i64| #[trigger] r.has(t) <==> self.has(t) && forall|i: int| 0 <= i < other@.len() ==> !mem(*(#[trigger] other@[i]), t)
@loop 0
    invariant self.wf(), res.wf(), it.seq().len() == other@.len(), forall|k: int| 0 <= k < other@.len() ==> *(#[trigger] it.seq()[k]) == other@[k],
       forall|i: int| 0 <= i < other@.len() ==> (#[trigger] other@[i]).min_ts <= other@[i].max_ts,
       forall|t: i64| #[trigger] res.has(t) <==> self.has(t) && forall|i: int| 0 <= i < it.index@ ==> !mem(*(#[trigger] other@[i]), t)
@end
// what is left of a range after taking out a set
//@extract common/models/src/predicate/domain.rs TimeRange::exclude_time_ranges
@ret r
@loops 1
@iter 0 it
@subst /\((tmp_tr_min_ts), (min_ts - 1|self\.max_ts)\)\.into\(\)/ => TimeRange::new(\1, \2)
@subst /for (\S+ \S+) in time_ranges\.ranges\(\)/ => let lst = time_ranges.ranges(); let ghost gs = lst@; for \1 in lst
@spec
    requires time_ranges.wf()
    ensures r is None ==> forall|t: i64| mem(*self, t) ==> time_ranges.has(t),
      r matches Some(x) ==> x.wf() && (forall|t: i64| #[trigger] x.has(t) <==> mem(*self, t) && !time_ranges.has(t))
@at start
    proof { if self.min_ts <= self.max_ts { assert(mem(*self, self.min_ts)); } }
@at before-loop 0
    let ghost m = time_ranges.inner@;
@loop 0
    invariant_except_break
      // the ranges passed so far end before the cursor, or begin behind the range itself
      forall|i: int| 0 <= i < it.index@ ==> (#[trigger] gs[i]).1 < tmp_tr_min_ts || gs[i].0 > self.max_ts,
    invariant it.seq() == gs, time_ranges.wf(), m == time_ranges.inner@, self.min_ts <= self.max_ts, tmp_tr_min_ts >= self.min_ts,
      forall|i: int| 0 <= i < gs.len() ==> m.dom().contains((#[trigger] gs[i]).0) && m[gs[i].0] == gs[i].1,
      forall|i: int, j: int| 0 <= i < j < gs.len() ==> (#[trigger] gs[i]).0 < (#[trigger] gs[j]).0,
      forall|k: i64| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).0 == k,
      forall|t: i64| #[trigger] seq_has(remained_ranges@, t) <==> mem(*self, t) && t < tmp_tr_min_ts && !time_ranges.has(t),
    ensures tmp_tr_min_ts > self.max_ts || forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).1 < tmp_tr_min_ts || gs[i].0 > self.max_ts,
@at loop-start 0
    let ghost a = remained_ranges@; let ghost c = tmp_tr_min_ts; let ghost n = it.index@;
    proof { assert(m.dom().contains(min_ts)); 
       assert forall|t: i64| min_ts <= t <= max_ts implies #[trigger] time_ranges.has(t) by { assert(cov1(m, min_ts, t)); }
       assert forall|t: i64| c <= t < min_ts && min_ts <= self.max_ts implies !#[trigger] time_ranges.has(t) by {
          if time_ranges.has(t) { let k = choose|k: i64| #[trigger] cov1(m, k, t); assert(m.dom().contains(k)); let i = choose|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).0 == k; assert(gs[n].0 == min_ts); if i > n { assert(gs[n].0 < gs[i].0); } else if i < n { assert(gs[i].1 < c || gs[i].0 > self.max_ts); assert(gs[i].0 < gs[n].0); } } }
    }
@at loop-end 0
    proof { step_has(a, remained_ranges@); }
@at before /match max_ts.checked_add/
    proof { step_has(a, remained_ranges@); if min_ts > c { assert(remained_ranges@ == a.push(TimeRange { min_ts: c, max_ts: (min_ts - 1) as i64 })); } else { assert(remained_ranges@ == a); } }
@at before /return if remained_ranges/
    proof { assert forall|t: i64| mem(*self, t) && remained_ranges@.len() == 0 implies time_ranges.has(t) by { assert(!seq_has(remained_ranges@, t)); assert(!seq_has(a, t)); } }
@at after-loop 0
    let ghost a2 = remained_ranges@;
    proof { if tmp_tr_min_ts <= self.max_ts {
       assert forall|t: i64| tmp_tr_min_ts <= t <= self.max_ts implies !#[trigger] time_ranges.has(t) by {
          if time_ranges.has(t) { let k = choose|k: i64| #[trigger] cov1(m, k, t); assert(m.dom().contains(k)); let i = choose|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).0 == k; } } } }
@at before /if remained_ranges.is_empty\(\) \{\s*None\s*\} else \{\s*Some\(TimeRanges::new\(remained_ranges\)\)\s*\}\s*\}$/
    proof { step_has(a2, remained_ranges@); assert forall|t: i64| mem(*self, t) && remained_ranges@.len() == 0 implies time_ranges.has(t) by { assert(!seq_has(remained_ranges@, t)); assert(!seq_has(a2, t)); } }
@end
proof fn step_has(a: Seq<TimeRange>, b: Seq<TimeRange>)
    ensures b.len() > 0 && b == a.push(b.last()) ==> forall|t: i64| #[trigger] seq_has(b, t) <==> seq_has(a, t) || mem(b.last(), t), a == b ==> forall|t: i64| #[trigger] seq_has(b, t) <==> seq_has(a, t)
{
    if b.len() > 0 && b == a.push(b.last()) {
        let n = a.len() as int;
        assert forall|t: i64| #[trigger] seq_has(b, t) <==> seq_has(a, t) || mem(b.last(), t) by {
            if seq_has(a, t) { let i = choose|i: int| 0 <= i < a.len() && mem(#[trigger] a[i], t); assert(mem(b[i], t)); }
            if mem(b.last(), t) { assert(mem(b[n], t)); }
            if seq_has(b, t) { let i = choose|i: int| 0 <= i < b.len() && mem(#[trigger] b[i], t); if i < n { assert(mem(a[i], t)); } }
        }
    }
}
spec fn excl_ok(a: Option<TimeRange>, b: Option<TimeRange>, lo: i64, hi: i64, x: TimeRange) -> bool { forall|t: i64| #![all_triggers] (omem(a, t) || omem(b, t)) <==> (lo <= t && t <= hi && !mem(x, t)) }
//@helpers
}
