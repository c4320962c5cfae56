use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
#[derive(Debug)]
struct ModelError { x: u8 }
type ModelResult<T> = Result<T, ModelError>;
#[verifier::external_body]
fn model_error() -> ModelError { unimplemented!() }
// ---- values of one column type: a linear order, nothing else is used ----------------------
#[verifier::external_body]
struct ScalarValue { x: u64 }
uninterp spec fn key(v: ScalarValue) -> int;
impl ScalarValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: ScalarValue) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn partial_cmp(&self, o: &ScalarValue) -> (r: Option<Ordering>)
        ensures r == Some(if key(*self) < key(*o) { Ordering::Less } else if key(*self) == key(*o) { Ordering::Equal } else { Ordering::Greater })
    { unimplemented!() }
}
#[verifier::external_body]
fn value_eq(a: &Option<ScalarValue>, b: &Option<ScalarValue>) -> (r: bool)
    ensures r <==> (match (*a, *b) { (None, None) => true, (Some(x), Some(y)) => key(x) == key(y), _ => false })
{ unimplemented!() }
fn value_ne(a: &Option<ScalarValue>, b: &Option<ScalarValue>) -> (r: bool)
    ensures r <==> !(match (*a, *b) { (None, None) => true, (Some(x), Some(y)) => key(x) == key(y), _ => false })
{ !value_eq(a, b) }
#[verifier::external_body]
struct DataType { x: u64 }
uninterp spec fn ty(v: DataType) -> int;
impl DataType {
    #[verifier::external_body]
    fn clone(&self) -> (r: DataType) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn type_eq(a: &DataType, b: &DataType) -> (r: bool) ensures r == (ty(*a) == ty(*b)) { unimplemented!() }

//@extract common/models/src/predicate/domain.rs enum Bound
@derive Clone, Copy, PartialEq, Eq, Structural
@end
spec fn brank(b: Bound) -> int { match b { Bound::Below => 0, Bound::Exactly => 1, Bound::Above => 2 } }
impl Bound {
    // the derived order is the order of declaration
    #[verifier::external_body]
    fn cmp(&self, o: &Bound) -> (r: Ordering)
        ensures r == (if (*self as int) < (*o as int) { Ordering::Less } else if (*self as int) == (*o as int) { Ordering::Equal } else { Ordering::Greater })
    { unimplemented!() }
}
//@extract common/models/src/predicate/domain.rs struct Marker
@end
impl Marker {
    #[verifier::external_body]
    fn clone(&self) -> (r: Marker) ensures r == *self { unimplemented!() }
}
// a point of the extended line: tier -1 / 1 are the two infinities; inside a value: just below, at, just above
struct Pt { tier: int, k: int, b: int }
spec fn pt(m: Marker) -> Pt {
    if m.value is None { if m.bound is Above { Pt { tier: -1, k: 0, b: 0 } } else { Pt { tier: 1, k: 0, b: 0 } } }
    else { Pt { tier: 0, k: key(m.value->0), b: brank(m.bound) } }
}
spec fn at(x: int) -> Pt { Pt { tier: 0, k: x, b: 1 } }
spec fn le(p: Pt, q: Pt) -> bool { p.tier < q.tier || (p.tier == q.tier && (p.k < q.k || (p.k == q.k && p.b <= q.b))) }
spec fn lt(p: Pt, q: Pt) -> bool { !le(q, p) }
spec fn mwf(m: Marker) -> bool { m.value is None ==> !(m.bound is Exactly) }
proof fn bound_order() ensures Bound::Below as int == 0, Bound::Exactly as int == 1, Bound::Above as int == 2,
    forall|b: Bound| #[trigger] brank(b) == (b as int) {}

//@extract common/models/src/predicate/domain.rs Marker::lower_unbound
@ret r
@spec
    ensures pt(r) == (Pt { tier: -1, k: 0, b: 0 }), mwf(r), ty(r.data_type) == ty(data_type)
@end
//@extract common/models/src/predicate/domain.rs Marker::upper_unbound
@ret r
@spec
    ensures pt(r) == (Pt { tier: 1, k: 0, b: 0 }), mwf(r), ty(r.data_type) == ty(data_type)
@end
//@extract common/models/src/predicate/domain.rs Marker::lower_bounded
@ret r
@spec
    ensures pt(r) == (Pt { tier: 0, k: key(value), b: 2 }), mwf(r), ty(r.data_type) == ty(data_type)
@end
//@extract common/models/src/predicate/domain.rs Marker::upper_bounded
@ret r
@spec
    ensures pt(r) == (Pt { tier: 0, k: key(value), b: 0 }), mwf(r), ty(r.data_type) == ty(data_type)
@end
//@extract common/models/src/predicate/domain.rs Marker::exactly
@ret r
@spec
    ensures pt(r) == at(key(value)), mwf(r), ty(r.data_type) == ty(data_type)
@end
//@extract common/models/src/predicate/domain.rs Marker::is_lower_unbound
@ret r
@spec
    ensures r == (self.value is None && self.bound is Above)
@end
//@extract common/models/src/predicate/domain.rs Marker::is_upper_unbound
@ret r
@spec
    ensures r == (self.value is None && self.bound is Below)
@end
//@extract common/models/src/predicate/domain.rs Marker::check_type_compatibility
@ret r
@subst /self\.data_type == other\.data_type/ => type_eq(&self.data_type, &other.data_type)
@spec
    ensures r == (ty(self.data_type) == ty(other.data_type))
@end
// no value lies between the two points
//@extract common/models/src/predicate/domain.rs Marker::adjoins
@ret r
@subst /self\.value == next\.value/ => value_eq(&self.value, &next.value)
@spec
    ensures r <==> (self.value is Some && next.value is Some && pt(*self).k == pt(*next).k && pt(*next).b == pt(*self).b + 1)
@end
//@extract common/models/src/predicate/domain.rs PartialEq for Marker::eq
@header impl Marker
@ret r
@subst /self\.value == other\.value/ => value_eq(&self.value, &other.value)
@subst /self\.value != other\.value/ => value_ne(&self.value, &other.value)
@spec
    requires mwf(*self), mwf(*other)
    ensures r <==> (ty(self.data_type) == ty(other.data_type) && pt(*self) == pt(*other))
@end
//@extract common/models/src/predicate/domain.rs Ord for Marker::cmp
@header impl Marker
@ret r
@subst /debug_assert!\([^;]*\);/ => 
@spec
    requires mwf(*self), mwf(*other), ty(self.data_type) == ty(other.data_type)
    ensures r is Less <==> lt(pt(*self), pt(*other)), r is Equal <==> pt(*self) == pt(*other), r is Greater <==> lt(pt(*other), pt(*self))
@at start
    proof { bound_order(); }
@end
// the provided methods of PartialOrd / std::cmp over Marker::cmp
fn marker_le(a: &Marker, b: &Marker) -> (r: bool) requires mwf(*a), mwf(*b), ty(a.data_type) == ty(b.data_type) ensures r == le(pt(*a), pt(*b)) { match a.cmp(b) { Ordering::Greater => false, _ => true } }
fn marker_lt(a: &Marker, b: &Marker) -> (r: bool) requires mwf(*a), mwf(*b), ty(a.data_type) == ty(b.data_type) ensures r == lt(pt(*a), pt(*b)) { match a.cmp(b) { Ordering::Less => true, _ => false } }
fn marker_max<'a>(a: &'a Marker, b: &'a Marker) -> (r: &'a Marker) requires mwf(*a), mwf(*b), ty(a.data_type) == ty(b.data_type)
    ensures *r == *a || *r == *b, le(pt(*a), pt(*r)), le(pt(*b), pt(*r)), { match a.cmp(b) { Ordering::Greater => a, _ => b } }
fn marker_min<'a>(a: &'a Marker, b: &'a Marker) -> (r: &'a Marker) requires mwf(*a), mwf(*b), ty(a.data_type) == ty(b.data_type)
    ensures *r == *a || *r == *b, le(pt(*r), pt(*a)), le(pt(*r), pt(*b)), { match a.cmp(b) { Ordering::Greater => b, _ => a } }

//@extract common/models/src/predicate/domain.rs struct Range
@end
impl Range {
    #[verifier::external_body]
    fn clone(&self) -> (r: Range) ensures r == *self { unimplemented!() }
    fn to_owned(&self) -> (r: Range) ensures r == *self { self.clone() }
}
spec fn rty(r: Range) -> int { ty(r.low.data_type) }
spec fn rwf(r: Range) -> bool { mwf(r.low) && mwf(r.high) && ty(r.low.data_type) == ty(r.high.data_type) && le(pt(r.low), pt(r.high)) }
// the low marker is never "just below" a value and the high one never "just above": what the std Bound conversion relies on
spec fn rproper(r: Range) -> bool { pt(r.low).tier <= 0 && pt(r.high).tier >= 0 && (pt(r.low).tier == 0 ==> pt(r.low).b >= 1) && (pt(r.high).tier == 0 ==> pt(r.high).b <= 1) }
// the values of the range
spec fn has(r: Range, x: int) -> bool { le(pt(r.low), at(x)) && le(at(x), pt(r.high)) }

//@extract common/models/src/predicate/domain.rs Range::get_type
@ret r
@spec
    ensures ty(*r) == rty(*self)
@end
//@extract common/models/src/predicate/domain.rs Range::check_type_compatibility
@ret r
@subst /InternalSnafu \{.*?\}\s*\.build\(\)/ => model_error()
@spec
    ensures r is Ok == (rty(*self) == rty(*other))
@end
//@extract common/models/src/predicate/domain.rs Range::all
@ret r
@spec
    ensures forall|x: int| #[trigger] has(r, x), rwf(r), rproper(r), rty(r) == ty(*data_type)
@end
//@extract common/models/src/predicate/domain.rs Range::eq
@ret r
@spec
    ensures forall|x: int| #[trigger] has(r, x) <==> x == key(*scalar_value), rwf(r), rproper(r), rty(r) == ty(*data_type)
@end
//@extract common/models/src/predicate/domain.rs Range::ne
@ret r
@spec
    ensures r.len() == 2, forall|x: int| (#[trigger] has(r[0], x) || has(r[1], x)) <==> x != key(*scalar_value),
      rwf(r[0]), rwf(r[1]), rproper(r[0]), rproper(r[1]), rty(r[0]) == ty(*data_type), rty(r[1]) == ty(*data_type)
@end
//@extract common/models/src/predicate/domain.rs Range::gt
@ret r
@spec
    ensures forall|x: int| #[trigger] has(r, x) <==> x > key(*scalar_value), rwf(r), rproper(r), rty(r) == ty(*data_type)
@end
//@extract common/models/src/predicate/domain.rs Range::ge
@ret r
@spec
    ensures forall|x: int| #[trigger] has(r, x) <==> x >= key(*scalar_value), rwf(r), rproper(r), rty(r) == ty(*data_type)
@end
//@extract common/models/src/predicate/domain.rs Range::lt
@ret r
@spec
    ensures forall|x: int| #[trigger] has(r, x) <==> x < key(*scalar_value), rwf(r), rproper(r), rty(r) == ty(*data_type)
@end
//@extract common/models/src/predicate/domain.rs Range::le
@ret r
@spec
    ensures forall|x: int| #[trigger] has(r, x) <==> x <= key(*scalar_value), rwf(r), rproper(r), rty(r) == ty(*data_type)
@end
//@extract common/models/src/predicate/domain.rs Range::gtlt
@ret r
@spec
    ensures forall|x: int| #[trigger] has(r, x) <==> key(*low) < x < key(*high), rproper(r), key(*low) < key(*high) ==> rwf(r), rty(r) == ty(*data_type)
@end
//@extract common/models/src/predicate/domain.rs Range::gelt
@ret r
@spec
    ensures forall|x: int| #[trigger] has(r, x) <==> key(*low) <= x < key(*high), rproper(r), key(*low) < key(*high) ==> rwf(r), rty(r) == ty(*data_type)
@end
//@extract common/models/src/predicate/domain.rs Range::gtle
@ret r
@spec
    ensures forall|x: int| #[trigger] has(r, x) <==> key(*low) < x <= key(*high), rproper(r), key(*low) < key(*high) ==> rwf(r), rty(r) == ty(*data_type)
@end
//@extract common/models/src/predicate/domain.rs Range::gele
@ret r
@spec
    ensures forall|x: int| #[trigger] has(r, x) <==> key(*low) <= x <= key(*high), rproper(r), key(*low) <= key(*high) ==> rwf(r), rty(r) == ty(*data_type)
@end
//@extract common/models/src/predicate/domain.rs Range::is_all
@ret r
@spec
    requires rwf(*self)
    ensures r == (pt(self.low).tier == -1 && pt(self.high).tier == 1), r ==> forall|x: int| #[trigger] has(*self, x)
@end
//@extract common/models/src/predicate/domain.rs Range::low_ref
@ret r
@spec
    ensures *r == self.low
@end
//@extract common/models/src/predicate/domain.rs Range::high_ref
@ret r
@spec
    ensures *r == self.high
@end
//@extract common/models/src/predicate/domain.rs Range::overlaps
@ret r
@subst /(\w+(?:\.\w+)+) <= (\w+(?:\.\w+)+)/ => marker_le(&\1, &\2)
@subst /(\w+(?:\.\w+)+) >= (\w+(?:\.\w+)+)/ => marker_le(&\2, &\1)
@subst /(\w+(?:\.\w+)+) < (\w+(?:\.\w+)+)/ => marker_lt(&\1, &\2)
@subst /(\w+(?:\.\w+)+) > (\w+(?:\.\w+)+)/ => marker_lt(&\2, &\1)
@spec
    requires rwf(*self), rwf(*other)
    ensures r is Ok == (rty(*self) == rty(*other)), r matches Ok(b) ==> b == (le(pt(self.low), pt(other.high)) && le(pt(other.low), pt(self.high)))
@end
spec fn adj(p: Pt, q: Pt) -> bool { p.tier == 0 && q.tier == 0 && p.k == q.k && q.b == p.b + 1 }
spec fn conn(a: Range, b: Range) -> bool { (le(pt(a.low), pt(b.high)) && le(pt(b.low), pt(a.high))) || adj(pt(a.high), pt(b.low)) || adj(pt(b.high), pt(a.low)) }
//@extract common/models/src/predicate/domain.rs Range::is_connected
@ret r
@spec
    requires rwf(*self), rwf(*other)
    ensures r is Ok == (rty(*self) == rty(*other)), r matches Ok(b) ==> b == conn(*self, *other)
@end
//@extract common/models/src/predicate/domain.rs Range::intersect
@ret r
@subst /cmp::(max|min)\(/ => marker_\1(
@subst /InternalSnafu \{.*?\}\s*\.build\(\)/ => model_error()
@spec
    requires rwf(*self), rwf(*other)
    ensures
      r is Ok == (rty(*self) == rty(*other) && le(pt(self.low), pt(other.high)) && le(pt(other.low), pt(self.high))),
      r is Err && rty(*self) == rty(*other) ==> forall|x: int| !(#[trigger] has(*self, x) && has(*other, x)),
      r matches Ok(o) ==> rwf(o) && rty(o) == rty(*self) && (rproper(*self) && rproper(*other) ==> rproper(o)) && forall|x: int| #[trigger] has(o, x) <==> has(*self, x) && has(*other, x),
@end
//@extract common/models/src/predicate/domain.rs Range::span
@ret r
@subst /cmp::(max|min)\(/ => marker_\1(
@subst /InternalSnafu \{.*?\}\s*\.build\(\)/ => model_error()
@spec
    requires rwf(*self), rwf(*other)
    ensures
      r is Ok == (rty(*self) == rty(*other) && conn(*self, *other)),
      r matches Ok(o) ==> rwf(o) && rty(o) == rty(*self) && (rproper(*self) && rproper(*other) ==> rproper(o)) && (forall|x: int| #[trigger] has(o, x) <==> has(*self, x) || has(*other, x))
        && (pt(o.low) == pt(self.low) || pt(o.low) == pt(other.low)) && le(pt(o.low), pt(self.low)) && (pt(o.high) == pt(self.high) || pt(o.high) == pt(other.high)) && le(pt(self.high), pt(o.high)) && le(pt(other.high), pt(o.high)),
@end

// ---- sets of ranges (std BTreeMap<Marker, Range>, kept in key order) ----------------------
struct RMap { x: Vec<Range> }
impl RMap {
    uninterp spec fn view(&self) -> Seq<Range>;
    #[verifier::external_body]
    fn default() -> (r: RMap) ensures r@ == Seq::<Range>::empty() { unimplemented!() }
    // a new largest key goes to the end
    #[verifier::external_body]
    fn insert(&mut self, k: Marker, v: Range)
        requires pt(k) == pt(v.low), forall|i: int| 0 <= i < old(self)@.len() ==> lt(pt((#[trigger] old(self)@[i]).low), pt(k))
        ensures final(self)@ == old(self)@.push(v)
    { unimplemented!() }
    #[verifier::external_body]
    fn values(&self) -> (r: RIter) ensures r.all() == self@, r.pos() == 0 { unimplemented!() }
}
struct RIter<'a> { x: &'a RMap }
impl<'a> RIter<'a> {
    uninterp spec fn all(&self) -> Seq<Range>;
    uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a Range>)
        requires 0 <= old(self).pos() <= old(self).all().len()
        ensures final(self).all() == old(self).all(),
          match r { Some(v) => old(self).pos() < old(self).all().len() && *v == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
                    None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos() }
    { unimplemented!() }
    #[verifier::external_body]
    fn cloned_vec(self) -> (r: Vec<Range>) requires self.pos() == 0 ensures r@ == self.all() { unimplemented!() }
}
#[verifier::external_body]
fn clone_ranges(v: &[Range]) -> (r: Vec<Range>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
fn tail(v: &Vec<Range>) -> (r: &[Range]) requires v@.len() >= 1 ensures r@ == v@.subrange(1, v@.len() as int) { unimplemented!() }
fn first_range(v: &Vec<Range>) -> (r: &Range) requires v@.len() >= 1 ensures *r == v@[0] { &v[0] }
spec fn has_item(s: Seq<Range>, r: Range) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == r }
spec fn notgt<F: FnMut(&Range, &Range) -> Ordering>(f: F, a: Range, b: Range) -> bool { exists|o: Ordering| !(o is Greater) && #[trigger] f.ensures((&a, &b), o) }
// slice::sort_by: a permutation in which no later element is smaller for the comparison
#[verifier::external_body]
fn sort_by<F: FnMut(&Range, &Range) -> Ordering>(v: &mut Vec<Range>, f: F)
    requires forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> f.requires((&#[trigger] old(v)@[i], &#[trigger] old(v)@[j]))
    ensures final(v)@.len() == old(v)@.len(),
      forall|i: int| 0 <= i < final(v)@.len() ==> has_item(old(v)@, #[trigger] final(v)@[i]),
      forall|j: int| 0 <= j < old(v)@.len() ==> has_item(final(v)@, #[trigger] old(v)@[j]),
      forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> notgt(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ unimplemented!() }
spec fn shas(s: Seq<Range>, x: int) -> bool { exists|i: int| 0 <= i < s.len() && has(#[trigger] s[i], x) }
spec fn swf(s: Seq<Range>, t: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> rwf(#[trigger] s[i]) && rproper(s[i]) && rty(s[i]) == t
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(pt((#[trigger] s[i]).high), pt((#[trigger] s[j]).low))
}
spec fn allwf(s: Seq<Range>, t: int) -> bool { forall|i: int| 0 <= i < s.len() ==> rwf(#[trigger] s[i]) && rproper(s[i]) && rty(s[i]) == t }
proof fn shas_push(s: Seq<Range>, r: Range, x: int) ensures shas(s.push(r), x) <==> shas(s, x) || has(r, x)
{
    if shas(s, x) { let i = choose|i: int| 0 <= i < s.len() && has(#[trigger] s[i], x); assert(has(s.push(r)[i], x)); }
    if has(r, x) { assert(has(s.push(r)[s.len() as int], x)); }
    if shas(s.push(r), x) { let i = choose|i: int| 0 <= i < s.push(r).len() && has(#[trigger] s.push(r)[i], x); if i < s.len() { assert(has(s[i], x)); } }
}
proof fn shas_same(s: Seq<Range>, t: Seq<Range>, x: int)
    requires forall|i: int| 0 <= i < t.len() ==> has_item(s, #[trigger] t[i])
    ensures shas(t, x) ==> shas(s, x)
{
    if shas(t, x) { let i = choose|i: int| 0 <= i < t.len() && has(#[trigger] t[i], x); let j = choose|j: int| 0 <= j < s.len() && t[i] == #[trigger] s[j]; assert(has(s[j], x)); }
}
#[verifier::opaque]
spec fn ranges_of(s: Seq<Range>, t: int) -> bool { allwf(s, t) && orderable(t) }
#[verifier::opaque]
spec fn sorted(s: Seq<Range>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> le(pt((#[trigger] s[i]).low), pt((#[trigger] s[j]).low)) }
// the first k ranges are merged into map + current
#[verifier::opaque]
spec fn merged(map: Seq<Range>, cur: Range, rgs: Seq<Range>, k: int, t: int) -> bool {
    &&& swf(map.push(cur), t)
    &&& forall|i: int| k <= i < rgs.len() ==> le(pt(cur.low), pt((#[trigger] rgs[i]).low))
    &&& forall|x: int| #[trigger] shas(map.push(cur), x) <==> shas(rgs.take(k), x)
}
proof fn merged_init(cur: Range, rgs: Seq<Range>, t: int)
    requires ranges_of(rgs, t), sorted(rgs), rgs.len() >= 1, cur == rgs[0]
    ensures merged(Seq::empty(), cur, rgs, 1, t)
{
    reveal(ranges_of); reveal(sorted); reveal(merged);
    assert(Seq::empty().push(cur) =~= seq![cur]); assert(rgs.take(1) =~= seq![cur]);
}
proof fn merged_facts(map: Seq<Range>, cur: Range, rgs: Seq<Range>, k: int, t: int)
    requires merged(map, cur, rgs, k, t), ranges_of(rgs, t), 0 <= k <= rgs.len()
    ensures rwf(cur), rproper(cur), rty(cur) == t, forall|i: int| 0 <= i < map.len() ==> lt(pt((#[trigger] map[i]).low), pt(cur.low)), k < rgs.len() ==> rwf(rgs[k]) && rproper(rgs[k]) && rty(rgs[k]) == t && le(pt(cur.low), pt(rgs[k].low))
{
    reveal(ranges_of); reveal(merged);
    assert(map.push(cur)[map.len() as int] == cur);
    assert forall|i: int| 0 <= i < map.len() implies lt(pt((#[trigger] map[i]).low), pt(cur.low)) by {
        assert(map.push(cur)[i] == map[i]); assert(lt(pt(map.push(cur)[i].high), pt(map.push(cur)[map.len() as int].low)));
    }
}
proof fn merged_step(map: Seq<Range>, cur: Range, next: Range, rgs: Seq<Range>, k: int, t: int)
    requires merged(map, cur, rgs, k, t), ranges_of(rgs, t), sorted(rgs), 0 <= k < rgs.len(), next == rgs[k]
    ensures !conn(cur, next) ==> merged(map.push(cur), next, rgs, k + 1, t),
       conn(cur, next) ==> forall|o: Range| rwf(o) && rproper(o) && rty(o) == t && pt(o.low) == pt(cur.low) && (forall|x: int| #[trigger] has(o, x) <==> has(cur, x) || has(next, x)) ==> #[trigger] merged(map, o, rgs, k + 1, t)
{
    merged_facts(map, cur, rgs, k, t);
    reveal(ranges_of); reveal(sorted); reveal(merged);
    assert(rgs.take(k + 1) =~= rgs.take(k).push(next));
    assert(map.push(cur)[map.len() as int] == cur);
    assert forall|i: int, j: int| 0 <= i < j < map.len() implies lt(pt((#[trigger] map[i]).high), pt((#[trigger] map[j]).low)) by { assert(map.push(cur)[i] == map[i]); assert(map.push(cur)[j] == map[j]); }
    assert forall|i: int| 0 <= i < map.len() implies rwf(#[trigger] map[i]) && rproper(map[i]) && rty(map[i]) == t && lt(pt(map[i].high), pt(cur.low)) by { assert(map.push(cur)[i] == map[i]); }
    if !conn(cur, next) {
        assert(lt(pt(cur.high), pt(next.low)));
        let m2 = map.push(cur);
        assert forall|x: int| #[trigger] shas(m2.push(next), x) <==> shas(rgs.take(k + 1), x) by { shas_push(m2, next, x); shas_push(rgs.take(k), next, x); assert(shas(map.push(cur), x) <==> shas(rgs.take(k), x)); }
    } else {
        assert forall|o: Range| rwf(o) && rproper(o) && rty(o) == t && pt(o.low) == pt(cur.low) && (forall|x: int| #[trigger] has(o, x) <==> has(cur, x) || has(next, x)) implies #[trigger] merged(map, o, rgs, k + 1, t) by {
            assert forall|x: int| #[trigger] shas(map.push(o), x) <==> shas(rgs.take(k + 1), x) by { shas_push(map, o, x); shas_push(map, cur, x); shas_push(rgs.take(k), next, x); assert(shas(map.push(cur), x) <==> shas(rgs.take(k), x)); }
        }
    }
}
proof fn merged_fin(map: Seq<Range>, cur: Range, rgs: Seq<Range>, t: int)
    requires merged(map, cur, rgs, rgs.len() as int, t), ranges_of(rgs, t)
    ensures swf(map.push(cur), t), forall|x: int| #[trigger] shas(map.push(cur), x) <==> shas(rgs, x), orderable(t)
{ reveal(ranges_of); reveal(merged); assert(rgs.take(rgs.len() as int) =~= rgs); }
// ---- sets of values (std HashSet<ValueEntry>) ---------------------------------------------
//@extract common/models/src/predicate/domain.rs struct ValueEntry
@end
struct EntrySet { x: Vec<ValueEntry> }
impl EntrySet {
    uninterp spec fn view(&self) -> Set<int>;
    #[verifier::external_body]
    fn intersection(&self, o: &EntrySet) -> (r: EntryIter) ensures r@ == self@.intersect(o@) { unimplemented!() }
    #[verifier::external_body]
    fn difference(&self, o: &EntrySet) -> (r: EntryIter) ensures r@ == self@.difference(o@) { unimplemented!() }
    #[verifier::external_body]
    fn union(&self, o: &EntrySet) -> (r: EntryIter) ensures r@ == self@.union(o@) { unimplemented!() }
}
spec fn vals(v: Seq<&ScalarValue>, x: int) -> bool { exists|i: int| 0 <= i < v.len() && key(*#[trigger] v[i]) == x }
struct EntryIter<'a> { x: &'a EntrySet }
impl<'a> EntryIter<'a> {
    uninterp spec fn view(&self) -> Set<int>;
    // .map(|e| &e.value).collect()
    #[verifier::external_body]
    fn values_vec(self) -> (r: Vec<&'a ScalarValue>)
        ensures forall|k: int| #[trigger] vals(r@, k) <==> self@.contains(k)
    { unimplemented!() }
}
spec fn collected<F: Fn(&&ScalarValue) -> ValueEntry>(f: F, v: Seq<&ScalarValue>, outs: Seq<ValueEntry>, r: Set<int>) -> bool {
    &&& outs.len() == v.len() &&& forall|i: int| 0 <= i < v.len() ==> f.ensures((&v[i],), #[trigger] outs[i])
    &&& forall|k: int| #[trigger] r.contains(k) <==> exists|i: int| 0 <= i < outs.len() && key((#[trigger] outs[i]).value) == k
}
#[verifier::external_body]
fn collect_map<F: Fn(&&ScalarValue) -> ValueEntry>(v: &[&ScalarValue], f: F) -> (r: EntrySet)
    requires forall|e: &&ScalarValue| f.requires((e,))
    ensures exists|outs: Seq<ValueEntry>| #[trigger] collected(f, v@, outs, r@)
{ unimplemented!() }

//@extract common/models/src/predicate/domain.rs struct RangeValueSet
@subst /BTreeMap<Marker, Range>/ => RMap
@end
//@extract common/models/src/predicate/domain.rs struct EqutableValueSet
@subst /HashSet<ValueEntry>/ => EntrySet
@end
//@extract common/models/src/predicate/domain.rs enum Domain
@end
uninterp spec fn orderable(t: int) -> bool;   // whether the comparison domain of a type is kept as ranges or as a value list
spec fn vhas(s: EqutableValueSet, x: int) -> bool { s.white_list == s.entries@.contains(x) }
spec fn dhas(d: Domain, x: int) -> bool { match d { Domain::Range(s) => shas(s.low_indexed_ranges@, x), Domain::Equtable(s) => vhas(s, x), Domain::None => false, Domain::All => true } }
spec fn dwf(d: Domain, t: int) -> bool { match d {
    Domain::Range(s) => orderable(t) && swf(s.low_indexed_ranges@, t) && s.low_indexed_ranges@.len() > 0,
    Domain::Equtable(s) => !orderable(t) && ty(s.data_type) == t, _ => true } }
impl Domain {
    #[verifier::external_body]
    fn clone(&self) -> (r: Domain) ensures r == *self { unimplemented!() }
}
//@extract common/models/src/predicate/domain.rs Domain::of_ranges
@ret r
@loops 1
@iter 0 it
@subst /res\.to_vec\(\)/ => clone_ranges(res)
@subst /ranges\.sort_by\(\|(\w+), (\w+)\| (.*?)\);/ => let cl = |\1: &Range, \2: &Range| -> (o: Ordering) requires rwf(*\1), rwf(*\2), rty(*\1) == rty(*\2) ensures o is Less <==> lt(pt(\1.low), pt(\2.low)), o is Greater <==> lt(pt(\2.low), pt(\1.low)) { \3 }; sort_by(&mut ranges, cl);
@subst /ranges\.first\(\)\.unwrap\(\)/ => first_range(&ranges)
@subst /&ranges\[1\.\.\]/ => tail(&ranges)
@subst /BTreeMap<Marker, Range>/ => RMap
@subst /BTreeMap::/ => RMap::
@spec
    requires exists|t: int| #[trigger] ranges_of(res@, t)
    ensures r is Ok, forall|x: int| #[trigger] dhas(r->Ok_0, x) <==> shas(res@, x), forall|t: int| #[trigger] ranges_of(res@, t) ==> dwf(r->Ok_0, t),
       res@.len() > 0 ==> r->Ok_0 is Range
@loop 0
    invariant rgs.len() >= 1, it.seq().len() == rgs.len() - 1, forall|k: int| 0 <= k < rgs.len() - 1 ==> *(#[trigger] it.seq()[k]) == rgs[k + 1],
      ranges_of(rgs, t), sorted(rgs), merged(low_indexed_ranges@, current, rgs, it.index@ + 1, t)
@at before /let cl/
    proof { reveal(ranges_of); let t = choose|t: int| #[trigger] ranges_of(res@, t); assert forall|i: int| 0 <= i < ranges@.len() implies rwf(#[trigger] ranges@[i]) && rty(ranges@[i]) == t by { assert(ranges@[i] == res@[i]); } }
@at before /let mut current/
    let ghost rgs = ranges@;
    let ghost t = choose|t: int| #[trigger] ranges_of(res@, t);
    proof { assert(ranges_of(rgs, t)) by { reveal(ranges_of); assert forall|i: int| 0 <= i < rgs.len() implies rwf(#[trigger] rgs[i]) && rproper(rgs[i]) && rty(rgs[i]) == t by { assert(has_item(res@, rgs[i])); } }
       assert(sorted(rgs)) by { reveal(sorted); assert forall|i: int, j: int| 0 <= i < j < rgs.len() implies le(pt((#[trigger] rgs[i]).low), pt((#[trigger] rgs[j]).low)) by { assert(notgt(cl, rgs[i], rgs[j])); } }
       assert forall|x: int| shas(rgs, x) <==> shas(res@, x) by { shas_same(res@, rgs, x); shas_same(rgs, res@, x); }
    }
@at before-loop 0
    proof { merged_init(current, rgs, t); assert(low_indexed_ranges@ =~= Seq::<Range>::empty()); }
@at loop-start 0
    let ghost cur0 = current; let ghost map0 = low_indexed_ranges@; let ghost kk = it.index@;
    proof { assert(*next == rgs[kk + 1]); merged_facts(map0, cur0, rgs, kk + 1, t); merged_step(map0, cur0, *next, rgs, kk + 1, t); }
@at after-loop 0
    proof { merged_facts(low_indexed_ranges@, current, rgs, rgs.len() as int, t); merged_fin(low_indexed_ranges@, current, rgs, t); 
       assert forall|u: int| #[trigger] ranges_of(res@, u) implies u == t by { reveal(ranges_of); assert(rty(res@[0]) == u); assert(rty(res@[0]) == t); } }
@end
//@extract common/models/src/predicate/domain.rs Domain::of_values
@ret r
@subst /HashSet<ValueEntry>/ => EntrySet
@subst /let (\w+): \w+(?:<ValueEntry>)? = values\s*\.iter\(\)\s*\.map\(\|(\w+)\| (.*?)\)\s*\.collect\(\);/ => let cl = |\2: &&ScalarValue| -> (o: ValueEntry) ensures o.value == **\2 { \3 }; let \1: EntrySet = collect_map(values, cl);
@spec
    ensures forall|x: int| #[trigger] dhas(r, x) <==> white_list == vals(values@, x), r is Equtable, ty(r->Equtable_0.data_type) == ty(*data_type)
@at tail
    proof {
        let outs = choose|outs: Seq<ValueEntry>| #[trigger] collected(cl, values@, outs, entries@);
        assert forall|i: int| 0 <= i < outs.len() implies (#[trigger] outs[i]).value == *values@[i] by {}
        assert forall|x: int| #[trigger] entries@.contains(x) <==> vals(values@, x) by {
            if entries@.contains(x) { let i = choose|i: int| 0 <= i < outs.len() && key((#[trigger] outs[i]).value) == x; assert(key(*values@[i]) == x); }
            if vals(values@, x) { let i = choose|i: int| 0 <= i < values@.len() && key(*#[trigger] values@[i]) == x; assert(key(outs[i].value) == x); }
        }
    }
@end
//@extract common/models/src/predicate/domain.rs Domain::value_intersect
@ret r
@subst /\.map\(\|e\| &e\.value\)\s*\.collect\(\)/ => .values_vec()
@subst /result_entries\.as_ref\(\)/ => result_entries.as_slice()
@spec
    requires ty(first.data_type) == ty(other.data_type)
    ensures r is Ok, r->Ok_0 is Equtable, ty((r->Ok_0)->Equtable_0.data_type) == ty(first.data_type), forall|x: int| #[trigger] dhas(r->Ok_0, x) <==> vhas(*first, x) && vhas(*other, x)
@end
//@extract common/models/src/predicate/domain.rs Domain::value_union
@ret r
@subst /\.map\(\|e\| &e\.value\)\s*\.collect\(\)/ => .values_vec()
@subst /result_entries\.as_ref\(\)/ => result_entries.as_slice()
@spec
    requires ty(first.data_type) == ty(other.data_type)
    ensures r is Ok, r->Ok_0 is Equtable, ty((r->Ok_0)->Equtable_0.data_type) == ty(first.data_type), forall|x: int| #[trigger] dhas(r->Ok_0, x) <==> vhas(*first, x) || vhas(*other, x)
@end

spec fn from(s: Seq<Range>, i: int, x: int) -> bool { exists|k: int| i <= k < s.len() && has(#[trigger] s[k], x) }
proof fn from_step(s: Seq<Range>, i: int, x: int) requires 0 <= i < s.len() ensures from(s, i, x) <==> has(s[i], x) || from(s, i + 1, x)
{
    if from(s, i, x) { let k = choose|k: int| i <= k < s.len() && has(#[trigger] s[k], x); if k > i { assert(has(s[k], x)); } }
    if from(s, i + 1, x) { let k = choose|k: int| i + 1 <= k < s.len() && has(#[trigger] s[k], x); assert(has(s[k], x)); }
    if has(s[i], x) { assert(has(s[i], x)); }
}
proof fn from_all(s: Seq<Range>, x: int) ensures from(s, 0, x) <==> shas(s, x), !from(s, s.len() as int, x)
{ if shas(s, x) { let k = choose|k: int| 0 <= k < s.len() && has(#[trigger] s[k], x); assert(has(s[k], x)); } }
// what lies beyond the current range of one side lies above its high end
proof fn from_above(s: Seq<Range>, i: int, t: int, x: int) requires swf(s, t), 0 <= i < s.len(), from(s, i + 1, x) ensures lt(pt(s[i].high), at(x))
{ let k = choose|k: int| i + 1 <= k < s.len() && has(#[trigger] s[k], x); assert(lt(pt(s[i].high), pt(s[k].low))); }
#[verifier::opaque]
spec fn inter_inv(a: Seq<Range>, b: Seq<Range>, i: int, j: int, res: Seq<Range>) -> bool {
    forall|x: int| #![trigger shas(res, x)] shas(a, x) && shas(b, x) <==> shas(res, x) || (from(a, i, x) && from(b, j, x))
}
proof fn inter_init(a: Seq<Range>, b: Seq<Range>) ensures inter_inv(a, b, 0, 0, Seq::<Range>::empty())
{ reveal(inter_inv); assert forall|x: int| shas(a, x) && shas(b, x) <==> #[trigger] shas(Seq::<Range>::empty(), x) || (from(a, 0, x) && from(b, 0, x)) by { from_all(a, x); from_all(b, x); } }
spec fn inter_added(a: Range, b: Range, res: Seq<Range>, res2: Seq<Range>) -> bool { forall|x: int| #[trigger] shas(res2, x) <==> shas(res, x) || (has(a, x) && has(b, x)) }
proof fn inter_step_a(a: Seq<Range>, b: Seq<Range>, i: int, j: int, res: Seq<Range>, res2: Seq<Range>, t: int)
    requires inter_inv(a, b, i, j, res), swf(a, t), swf(b, t), 0 <= i < a.len(), 0 <= j < b.len(), inter_added(a[i], b[j], res, res2), le(pt(a[i].high), pt(b[j].high))
    ensures inter_inv(a, b, i + 1, j, res2)
{
    reveal(inter_inv);
    assert forall|x: int| shas(a, x) && shas(b, x) <==> #[trigger] shas(res2, x) || (from(a, i + 1, x) && from(b, j, x)) by {
        assert(shas(res, x) == shas(res, x)); from_step(a, i, x); from_step(b, j, x); if from(b, j + 1, x) { from_above(b, j, t, x); }
    }
}
proof fn inter_step_b(a: Seq<Range>, b: Seq<Range>, i: int, j: int, res: Seq<Range>, res2: Seq<Range>, t: int)
    requires inter_inv(a, b, i, j, res), swf(a, t), swf(b, t), 0 <= i < a.len(), 0 <= j < b.len(), inter_added(a[i], b[j], res, res2), le(pt(b[j].high), pt(a[i].high))
    ensures inter_inv(a, b, i, j + 1, res2)
{
    reveal(inter_inv);
    assert forall|x: int| shas(a, x) && shas(b, x) <==> #[trigger] shas(res2, x) || (from(a, i, x) && from(b, j + 1, x)) by {
        assert(shas(res, x) == shas(res, x)); from_step(a, i, x); from_step(b, j, x); if from(a, i + 1, x) { from_above(a, i, t, x); }
    }
}
proof fn inter_fin(a: Seq<Range>, b: Seq<Range>, i: int, j: int, res: Seq<Range>)
    requires inter_inv(a, b, i, j, res), i == a.len() || j == b.len()
    ensures forall|x: int| shas(a, x) && shas(b, x) <==> #[trigger] shas(res, x)
{ reveal(inter_inv); assert forall|x: int| shas(a, x) && shas(b, x) <==> #[trigger] shas(res, x) by { from_all(a, x); from_all(b, x); } }

//@extract common/models/src/predicate/domain.rs Domain::range_intersect
@ret r
@loops 1
@subst /Vec::default\(\)/ => Vec::new()
@subst /InternalSnafu \{.*?\}\s*\.build\(\)/ => model_error()
@subst /result\.as_ref\(\)/ => result.as_slice()
@spec
    requires exists|t: int| #[trigger] both_wf(*first, *other, t)
    ensures r is Ok, forall|x: int| #[trigger] dhas(r->Ok_0, x) <==> shas(first.low_indexed_ranges@, x) && shas(other.low_indexed_ranges@, x), forall|t: int| #[trigger] both_wf(*first, *other, t) ==> dwf(r->Ok_0, t)
@at start
    let ghost a = first.low_indexed_ranges@; let ghost b = other.low_indexed_ranges@; let ghost mut i: int = 0; let ghost mut j: int = 0;
    let ghost t = choose|t: int| #[trigger] both_wf(*first, *other, t);
    proof { inter_init(a, b); assert(rty(a[0]) == t); assert forall|u: int| #[trigger] both_wf(*first, *other, u) implies u == t by { assert(rty(a[0]) == u); } }
@at before-loop 0
    proof { assert(result@ =~= Seq::<Range>::empty()); }
@loop 0
    invariant_except_break i < a.len(), j < b.len(), first_current_range == a[i], other_current_range == b[j],
       first_values.all() == a, other_values.all() == b, first_values.pos() == i + 1, other_values.pos() == j + 1,
    invariant 0 <= i, 0 <= j, swf(a, t), swf(b, t), orderable(t), inter_inv(a, b, i, j, result@), allwf(result@, t)
    ensures i == a.len() || j == b.len()
    decreases a.len() + b.len() - i - j
@at loop-start 0
    let ghost res0 = result@;
@at before /match first_current_range\.high/
    proof {
        assert forall|x: int| #[trigger] shas(result@, x) <==> shas(res0, x) || (has(a[i], x) && has(b[j], x)) by {
            if result@.len() > res0.len() { shas_push(res0, result@[res0.len() as int], x); assert(result@ =~= res0.push(result@[res0.len() as int])); }
        }
        assert(inter_added(a[i], b[j], res0, result@));
        if le(pt(a[i].high), pt(b[j].high)) { inter_step_a(a, b, i, j, res0, result@, t); if pt(a[i].high) == pt(b[j].high) { inter_step_b(a, b, i, j, res0, result@, t); } }
        else { inter_step_b(a, b, i, j, res0, result@, t); }
    }
@subst /if let Some\((\w+)\) = first_values\.next\(\)/ => let nx = first_values.next(); proof { i = i + 1; } if let Some(\1) = nx
@subst /if let Some\((\w+)\) = other_values\.next\(\)/ => let nx = other_values.next(); proof { j = j + 1; } if let Some(\1) = nx
@at before /Domain::of_ranges\(/
    proof { inter_fin(a, b, i, j, result@); assert(ranges_of(result@, t)) by { reveal(ranges_of); } }
@end
spec fn both_wf(f: RangeValueSet, o: RangeValueSet, t: int) -> bool { orderable(t) && swf(f.low_indexed_ranges@, t) && swf(o.low_indexed_ranges@, t) && f.low_indexed_ranges@.len() > 0 && o.low_indexed_ranges@.len() > 0 }
proof fn shas_append(s: Seq<Range>, t: Seq<Range>, x: int) ensures shas(s + t, x) <==> shas(s, x) || shas(t, x)
{
    if shas(s, x) { let i = choose|i: int| 0 <= i < s.len() && has(#[trigger] s[i], x); assert(has((s + t)[i], x)); }
    if shas(t, x) { let i = choose|i: int| 0 <= i < t.len() && has(#[trigger] t[i], x); assert(has((s + t)[s.len() + i], x)); }
    if shas(s + t, x) { let i = choose|i: int| 0 <= i < (s + t).len() && has(#[trigger] (s + t)[i], x); if i < s.len() { assert(has(s[i], x)); } else { assert(has(t[i - s.len()], x)); } }
}
//@extract common/models/src/predicate/domain.rs Domain::range_union
@ret r
@subst /\.values\(\)\s*\.cloned\(\)\s*\.collect\(\)/ => .values().cloned_vec()
@subst /Domain::of_ranges\(&result\)/ => Domain::of_ranges(result.as_slice())
@spec
    requires exists|t: int| #[trigger] both_wf(*first, *other, t)
    ensures r is Ok, forall|x: int| #[trigger] dhas(r->Ok_0, x) <==> shas(first.low_indexed_ranges@, x) || shas(other.low_indexed_ranges@, x), forall|t: int| #[trigger] both_wf(*first, *other, t) ==> dwf(r->Ok_0, t), r->Ok_0 is Range
@at start
    let ghost a = first.low_indexed_ranges@; let ghost b = other.low_indexed_ranges@;
    let ghost t = choose|t: int| #[trigger] both_wf(*first, *other, t);
    proof { assert(rty(a[0]) == t); assert forall|u: int| #[trigger] both_wf(*first, *other, u) implies u == t by { assert(rty(a[0]) == u); } }
@at before /Domain::of_ranges\(/
    proof {
        assert(ranges_of(result@, t)) by { reveal(ranges_of); }
        assert forall|x: int| shas(result@, x) <==> shas(a, x) || shas(b, x) by { if result@ =~= a + b { shas_append(a, b, x); } else { assert(result@ =~= b + a); shas_append(b, a, x); } }
    }
@end
spec fn dty(a: Domain, b: Domain, t: int) -> bool { dwf(a, t) && dwf(b, t) }
//@extract common/models/src/predicate/domain.rs Domain::intersect
@ret r
@subst /\(ref (\w+)\)/ => (\1)
@subst /InternalSnafu \{.*?\}\s*\.build\(\)/ => model_error()
@spec
    requires exists|t: int| #[trigger] dty(*self, *other, t)
    ensures r is Ok, forall|x: int| #[trigger] dhas(r->Ok_0, x) <==> dhas(*self, x) && dhas(*other, x), forall|t: int| #[trigger] dty(*self, *other, t) ==> dwf(r->Ok_0, t)
@at start
    let ghost t = choose|t: int| #[trigger] dty(*self, *other, t);
    proof { if *self is Range && *other is Range { assert(both_wf(self->Range_0, other->Range_0, t)); 
      assert forall|u: int| #[trigger] dty(*self, *other, u) implies both_wf(self->Range_0, other->Range_0, u) by {} } }
@end
//@extract common/models/src/predicate/domain.rs Domain::union
@ret r
@subst /\(ref (\w+)\)/ => (\1)
@subst /InternalSnafu \{.*?\}\s*\.build\(\)/ => model_error()
@spec
    requires exists|t: int| #[trigger] dty(*self, *other, t)
    ensures r is Ok, forall|x: int| #[trigger] dhas(r->Ok_0, x) <==> dhas(*self, x) || dhas(*other, x), forall|t: int| #[trigger] dty(*self, *other, t) ==> dwf(r->Ok_0, t)
@at start
    let ghost t = choose|t: int| #[trigger] dty(*self, *other, t);
    proof { if *self is Range && *other is Range { assert(both_wf(self->Range_0, other->Range_0, t));
      assert forall|u: int| #[trigger] dty(*self, *other, u) implies both_wf(self->Range_0, other->Range_0, u) by {} } }
@end

// ---- conversion to standard-library bounds ------------------------------------------------
enum StdBound<'a> { Included(&'a ScalarValue), Excluded(&'a ScalarValue), Unbounded }
spec fn above(b: StdBound, x: int) -> bool { match b { StdBound::Included(v) => key(*v) <= x, StdBound::Excluded(v) => key(*v) < x, StdBound::Unbounded => true } }
spec fn below(b: StdBound, x: int) -> bool { match b { StdBound::Included(v) => x <= key(*v), StdBound::Excluded(v) => x < key(*v), StdBound::Unbounded => true } }
//@extract common/models/src/predicate/domain.rs From<&'a Marker> for Bound::from
@header impl<'a> StdBound<'a>
@ret r
@subst /fn from\(/ => fn from_marker(
@subst /std::ops::Bound::/ => StdBound::
@subst /std::ops::Bound/ => StdBound
@subst /unsafe \{(.*?)\n\s*\}/ => { \1 }
@subst /unwrap_unchecked\(\)/ => unwrap()
@spec
    requires mwf(*marker)
    ensures marker.value is None ==> r is Unbounded,
      pt(*marker).tier <= 0 && (pt(*marker).tier == 0 ==> pt(*marker).b >= 1) ==> forall|x: int| above(r, x) <==> le(pt(*marker), #[trigger] at(x)),
      pt(*marker).tier >= 0 && (pt(*marker).tier == 0 ==> pt(*marker).b <= 1) ==> forall|x: int| below(r, x) <==> le(#[trigger] at(x), pt(*marker)),
@end
//@extract common/models/src/predicate/domain.rs RangeBounds<ScalarValue> for Range::start_bound
@header impl Range
@ret r
@subst /std::ops::Bound<&ScalarValue>/ => StdBound<'_>
@subst /(self\.\w+\(\))\.into\(\)/ => StdBound::from_marker(\1)
@spec
    requires rwf(*self), rproper(*self)
    ensures forall|x: int| above(r, x) <==> le(pt(self.low), #[trigger] at(x))
@end
//@extract common/models/src/predicate/domain.rs RangeBounds<ScalarValue> for Range::end_bound
@header impl Range
@ret r
@subst /std::ops::Bound<&ScalarValue>/ => StdBound<'_>
@subst /(self\.\w+\(\))\.into\(\)/ => StdBound::from_marker(\1)
@spec
    requires rwf(*self), rproper(*self)
    ensures forall|x: int| below(r, x) <==> le(#[trigger] at(x), pt(self.high))
@end
// ---- domains of several columns -----------------------------------------------------------
#[verifier::external_body]
struct T { x: u64 }
uninterp spec fn col(c: T) -> int;
impl T {
    #[verifier::external_body]
    fn clone(&self) -> (r: T) ensures r == *self { unimplemented!() }
}
struct DMap { x: Vec<T> }
impl DMap {
    uninterp spec fn view(&self) -> Map<int, Domain>;
    #[verifier::external_body]
    fn default() -> (r: DMap) ensures r@ == Map::<int, Domain>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: DMap) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r <==> self@.dom() =~= Set::<int>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: T, v: Domain) -> (r: Option<Domain>) ensures final(self)@ == old(self)@.insert(col(k), v) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &T) -> (r: Option<&Domain>)
        ensures match r { Some(v) => self@.dom().contains(col(*k)) && *v == self@[col(*k)], None => !self@.dom().contains(col(*k)) } { unimplemented!() }
    #[verifier::external_body]
    fn take(&mut self, k: &T) -> (r: Option<Domain>)
        ensures final(self)@ == old(self)@.remove(col(*k)), match r { Some(v) => old(self)@.dom().contains(col(*k)) && v == old(self)@[col(*k)], None => !old(self)@.dom().contains(col(*k)) } { unimplemented!() }
    // the entries, each key once
    #[verifier::external_body]
    fn list(&self) -> (r: Vec<(T, Domain)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains(col((#[trigger] r@[i]).0)) && self@[col(r@[i].0)] == r@[i].1,
          forall|i: int, j: int| 0 <= i < j < r@.len() ==> col((#[trigger] r@[i]).0) != col((#[trigger] r@[j]).0),
          forall|c: int| #[trigger] self@.dom().contains(c) ==> listed(r@, r@.len() as int, c)
    { unimplemented!() }
}
#[verifier::external_body]
fn clone_map(m: &Option<DMap>) -> (r: Option<DMap>) ensures r is Some == m is Some, m is Some ==> (r->0)@ == (m->0)@ { unimplemented!() }
spec fn listed(l: Seq<(T, Domain)>, n: int, c: int) -> bool { exists|i: int| 0 <= i < n && col((#[trigger] l[i]).0) == c }
fn or_domain(r: ModelResult<Domain>, d: Domain) -> (o: Domain) ensures r is Ok ==> o == r->Ok_0, r is Err ==> o == d { match r { Ok(x) => x, Err(_) => d } }
//@extract common/models/src/predicate/domain.rs struct ColumnDomains
@subst /ColumnDomains<T>/ => ColumnDomains
@subst /where\s*T: Eq \+ Hash \+ Clone,/ => 
@subst /HashMap<T, Domain>/ => DMap
@end
// a row gives every column a value; the domains select the rows whose every column lies in its domain
spec fn chas(c: ColumnDomains, row: spec_fn(int) -> int) -> bool { c.column_to_domain is Some && rowin((c.column_to_domain->0)@, row) }
spec fn rowin(m: Map<int, Domain>, row: spec_fn(int) -> int) -> bool { forall|k: int| #[trigger] m.dom().contains(k) ==> dhas(m[k], row(k)) }
uninterp spec fn ctype(c: int) -> int;     // the type of a column
spec fn cwf(c: ColumnDomains) -> bool { c.column_to_domain is Some ==> mapwf((c.column_to_domain->0)@) }
spec fn mapwf(m: Map<int, Domain>) -> bool { forall|k: int| #[trigger] m.dom().contains(k) ==> dwf(m[k], ctype(k)) }
spec fn mhas(m: Map<int, Domain>, k: int, x: int) -> bool { m.dom().contains(k) ==> dhas(m[k], x) }

//@extract common/models/src/predicate/domain.rs ColumnDomains::all
@header impl ColumnDomains
@ret r
@subst /HashMap::/ => DMap::
@spec
    ensures forall|row: spec_fn(int) -> int| #[trigger] chas(r, row), cwf(r), r.column_to_domain is Some, (r.column_to_domain->0)@ == Map::<int, Domain>::empty()
@end
//@extract common/models/src/predicate/domain.rs ColumnDomains::none
@header impl ColumnDomains
@ret r
@spec
    ensures forall|row: spec_fn(int) -> int| !#[trigger] chas(r, row), cwf(r), r.column_to_domain is None
@end
//@extract common/models/src/predicate/domain.rs ColumnDomains::of
@header impl ColumnDomains
@ret r
@subst /col: T/ => c: T
@subst /result\s*\.column_to_domain\s*\.as_mut\(\)\s*\.and_then\(\|map\| map\.insert\(col, (.*?)\)\);/ => match result.column_to_domain.as_mut() { Some(map) => { map.insert(c, \1); } None => {} };
@spec
    requires dwf(*domain, ctype(col(c)))
    ensures forall|row: spec_fn(int) -> int| #[trigger] chas(r, row) <==> dhas(*domain, row(col(c))), cwf(r)
@at tail
    proof { assert forall|row: spec_fn(int) -> int| #[trigger] chas(result, row) <==> dhas(*domain, row(col(c))) by { assert((result.column_to_domain->0)@.dom().contains(col(c))); } }
@end
//@extract common/models/src/predicate/domain.rs ColumnDomains::is_all
@header impl ColumnDomains
@ret r
@spec
    ensures r ==> forall|row: spec_fn(int) -> int| #[trigger] chas(*self, row)
@end
//@extract common/models/src/predicate/domain.rs ColumnDomains::is_none
@header impl ColumnDomains
@ret r
@spec
    ensures r == (self.column_to_domain is None), r ==> forall|row: spec_fn(int) -> int| !#[trigger] chas(*self, row)
@end
//@extract common/models/src/predicate/domain.rs ColumnDomains::intersect
@header impl ColumnDomains
@subst /ColumnDomains<T>/ => ColumnDomains
@subst /map1\s*\.entry\(k2\.clone\(\)\)\s*\.and_modify\(\|v1\| \{\s*\*v1 = (.*?);\s*\}\)\s*\.or_insert_with\(\|\| (.*?)\);/ => match map1.take(k2) { Some(v1) => { let nv = \1; map1.insert(k2.clone(), nv); } None => { map1.insert(k2.clone(), \2); } }
@subst /map2\.iter\(\)\.for_each\(\|\(k2, v2\)\| \{(.*?)\}\);(\s*\}\s*\(_, None\))/ => let lst = map2.list(); let ghost gs = lst@; let ghost m2 = map2@; let ghost m1 = map1@; for kv in lst.iter() { let k2 = &kv.0; let v2 = &kv.1; \1 } proof { istep_fin(gs, m1, m2, map1@); } \2
@subst /v1\.(\w+)\(v2\)\.unwrap_or\((.*?)\);/ => or_domain(v1.\1(v2), \2);
@subst /\(\s*self\.column_to_domain\.as_mut\(\),\s*other\.column_to_domain\.as_ref\(\),\s*\)/ => (&mut self.column_to_domain, other.column_to_domain.as_ref())
@iter 0 it
@loop 0
    invariant it.seq().len() == gs.len(), forall|k: int| 0 <= k < gs.len() ==> *(#[trigger] it.seq()[k]) == gs[k],
      mapwf(m1), mapwf(m2), mapwf(map1@),
      forall|i: int| 0 <= i < gs.len() ==> m2.dom().contains(col((#[trigger] gs[i]).0)) && m2[col(gs[i].0)] == gs[i].1,
      forall|i: int, j: int| 0 <= i < j < gs.len() ==> col((#[trigger] gs[i]).0) != col((#[trigger] gs[j]).0),
      istep(gs, it.index@, m1, m2, map1@)
@at before-loop 0
    proof { istep_init(gs, m1, m2); }
@at loop-start 0
    let ghost mm0 = map1@; let ghost n = it.index@;
    proof { assert(*kv == gs[n]); assert(m2.dom().contains(col(gs[n].0))); assert(dwf(gs[n].1, ctype(col(gs[n].0)))); if mm0.dom().contains(col(gs[n].0)) { assert(dty(mm0[col(gs[n].0)], gs[n].1, ctype(col(gs[n].0)))); } }
@at loop-end 0
    proof { let d = map1@[col(gs[n].0)]; assert(map1@ =~= mm0.insert(col(gs[n].0), d)); 
      assert forall|x: int| #[trigger] dhas(d, x) <==> mhas(mm0, col(gs[n].0), x) && dhas(gs[n].1, x) by {}
      istep_next(gs, n, m1, m2, mm0, map1@, d); }
@loops 1
@spec
    requires cwf(*old(self)), cwf(*other)
    ensures forall|row: spec_fn(int) -> int| #[trigger] chas(*final(self), row) <==> chas(*old(self), row) && chas(*other, row), cwf(*final(self))
@end
#[verifier::opaque]
spec fn istep(l: Seq<(T, Domain)>, n: int, m1: Map<int, Domain>, m2: Map<int, Domain>, m: Map<int, Domain>) -> bool {
    &&& forall|c: int| #[trigger] m.dom().contains(c) <==> m1.dom().contains(c) || listed(l, n, c)
    &&& forall|c: int, x: int| #[trigger] mhas(m, c, x) <==> mhas(m1, c, x) && (listed(l, n, c) ==> mhas(m2, c, x))
}
proof fn istep_init(l: Seq<(T, Domain)>, m1: Map<int, Domain>, m2: Map<int, Domain>) ensures istep(l, 0, m1, m2, m1) { reveal(istep); }
proof fn listed_next(l: Seq<(T, Domain)>, n: int, c: int) requires 0 <= n < l.len() ensures listed(l, n + 1, c) <==> listed(l, n, c) || col(l[n].0) == c
{ if listed(l, n, c) { let i = choose|i: int| 0 <= i < n && col((#[trigger] l[i]).0) == c; assert(col(l[i].0) == c); }
  if col(l[n].0) == c { assert(col(l[n].0) == c); }
  if listed(l, n + 1, c) { let i = choose|i: int| 0 <= i < n + 1 && col((#[trigger] l[i]).0) == c; if i < n { assert(col(l[i].0) == c); } } }
proof fn istep_next(l: Seq<(T, Domain)>, n: int, m1: Map<int, Domain>, m2: Map<int, Domain>, m: Map<int, Domain>, mm: Map<int, Domain>, d: Domain)
    requires istep(l, n, m1, m2, m), 0 <= n < l.len(), m2.dom().contains(col(l[n].0)), m2[col(l[n].0)] == l[n].1, mm == m.insert(col(l[n].0), d),
      forall|i: int, j: int| 0 <= i < j < l.len() ==> col((#[trigger] l[i]).0) != col((#[trigger] l[j]).0),
      forall|x: int| #[trigger] dhas(d, x) <==> mhas(m, col(l[n].0), x) && dhas(l[n].1, x)
    ensures istep(l, n + 1, m1, m2, mm)
{
    reveal(istep);
    let k = col(l[n].0);
    assert(!listed(l, n, k));
    assert forall|c: int| #[trigger] mm.dom().contains(c) <==> m1.dom().contains(c) || listed(l, n + 1, c) by { listed_next(l, n, c); assert(m.dom().contains(c) == m.dom().contains(c)); }
    assert forall|c: int, x: int| #[trigger] mhas(mm, c, x) <==> mhas(m1, c, x) && (listed(l, n + 1, c) ==> mhas(m2, c, x)) by { listed_next(l, n, c); assert(mhas(m, c, x) <==> mhas(m1, c, x) && (listed(l, n, c) ==> mhas(m2, c, x))); if c == k { assert(mm[c] == d); assert(mhas(mm, c, x) <==> dhas(d, x)); assert(dhas(d, x) <==> mhas(m, k, x) && dhas(l[n].1, x)); assert(mhas(m2, c, x) == dhas(l[n].1, x)); } else { assert(mhas(mm, c, x) == mhas(m, c, x)); } }
}
proof fn istep_fin(l: Seq<(T, Domain)>, m1: Map<int, Domain>, m2: Map<int, Domain>, m: Map<int, Domain>)
    requires istep(l, l.len() as int, m1, m2, m), forall|c: int| #[trigger] m2.dom().contains(c) ==> listed(l, l.len() as int, c)
    ensures forall|row: spec_fn(int) -> int| #[trigger] rowin(m, row) <==> rowin(m1, row) && rowin(m2, row)
{
    reveal(istep);
    assert forall|row: spec_fn(int) -> int| #[trigger] rowin(m, row) <==> rowin(m1, row) && rowin(m2, row) by {
        if rowin(m, row) { assert forall|k: int| #[trigger] m1.dom().contains(k) implies dhas(m1[k], row(k)) by { assert(m.dom().contains(k)); assert(mhas(m, k, row(k))); }
            assert forall|k: int| #[trigger] m2.dom().contains(k) implies dhas(m2[k], row(k)) by { assert(m.dom().contains(k)); assert(mhas(m, k, row(k))); } }
        if rowin(m1, row) && rowin(m2, row) { assert forall|k: int| #[trigger] m.dom().contains(k) implies dhas(m[k], row(k)) by { assert(mhas(m1, k, row(k))); assert(mhas(m2, k, row(k))); assert(mhas(m, k, row(k))); } }
    }
}

//@extract common/models/src/predicate/domain.rs ColumnDomains::column_wise_union
@header impl ColumnDomains
@subst /ColumnDomains<T>/ => ColumnDomains
@subst /HashMap<T, Domain>/ => DMap
@subst /HashMap::/ => DMap::
@subst /map2\.iter\(\)\.for_each\(\|\(k2, v2\)\| \{(.*?)\n\s*\}\);(\s*self\.)/ => let lst = map2.list(); let ghost gs = lst@; let ghost m2 = map2@; let ghost m1 = map1@; for kv in lst.iter() { let k2 = &kv.0; let v2 = &kv.1; \1 } proof { ustep_fin(gs, m1, m2, result@); } \2
@subst /map1\.get\(k2\)\.map\(\|v1\| (.*?)\);/ => match map1.get(k2) { Some(v1) => Some(\1), None => None };
@subst /v1\.(\w+)\(v2\)\.unwrap_or\((.*?)\)/ => or_domain(v1.\1(v2), \2)
@subst /other\.column_to_domain\.clone\(\)/ => clone_map(&other.column_to_domain)
@loops 1
@iter 0 it
@loop 0
    invariant it.seq().len() == gs.len(), forall|k: int| 0 <= k < gs.len() ==> *(#[trigger] it.seq()[k]) == gs[k],
      mapwf(m1), mapwf(m2), mapwf(result@), m1 == map1@,
      forall|i: int| 0 <= i < gs.len() ==> m2.dom().contains(col((#[trigger] gs[i]).0)) && m2[col(gs[i].0)] == gs[i].1,
      forall|i: int, j: int| 0 <= i < j < gs.len() ==> col((#[trigger] gs[i]).0) != col((#[trigger] gs[j]).0),
      ustep(gs, it.index@, m1, m2, result@)
@at before-loop 0
    proof { assert(ustep(gs, 0, m1, m2, result@)) by { reveal(ustep); } }
@at loop-start 0
    let ghost mm0 = result@; let ghost n = it.index@;
    proof { assert(*kv == gs[n]); assert(m2.dom().contains(col(gs[n].0))); assert(dwf(gs[n].1, ctype(col(gs[n].0)))); if m1.dom().contains(col(gs[n].0)) { assert(dty(m1[col(gs[n].0)], gs[n].1, ctype(col(gs[n].0)))); } }
@at loop-end 0
    proof { reveal(ustep); let k = col(gs[n].0);
       assert(!listed(gs, n, k));
       assert forall|c: int| #[trigger] result@.dom().contains(c) <==> m1.dom().contains(c) && listed(gs, n + 1, c) by { listed_next(gs, n, c); assert(mm0.dom().contains(c) <==> m1.dom().contains(c) && listed(gs, n, c)); }
       assert forall|c: int, x: int| #[trigger] mhas(result@, c, x) <==> (result@.dom().contains(c) ==> mhas(m1, c, x) || mhas(m2, c, x)) by { listed_next(gs, n, c); assert(mhas(mm0, c, x) <==> (mm0.dom().contains(c) ==> mhas(m1, c, x) || mhas(m2, c, x)));
          if c != k { assert(result@.dom().contains(c) == mm0.dom().contains(c)); assert(mhas(result@, c, x) == mhas(mm0, c, x)); } else if m1.dom().contains(k) { assert(dhas(result@[k], x) <==> dhas(m1[k], x) || dhas(gs[n].1, x)); } } }
@spec
    requires cwf(*old(self)), cwf(*other)
    ensures cwf(*final(self)), forall|row: spec_fn(int) -> int| chas(*old(self), row) || chas(*other, row) ==> #[trigger] chas(*final(self), row),
      old(self).column_to_domain is Some && other.column_to_domain is Some ==> final(self).column_to_domain is Some && ustep_done((old(self).column_to_domain->0)@, (other.column_to_domain->0)@, (final(self).column_to_domain->0)@),
      old(self).column_to_domain is None ==> forall|row: spec_fn(int) -> int| chas(*other, row) <==> #[trigger] chas(*final(self), row),
      other.column_to_domain is None ==> *final(self) == *old(self)
@end
// only the columns restricted on both sides stay restricted, each to the union
spec fn ustep_done(m1: Map<int, Domain>, m2: Map<int, Domain>, m: Map<int, Domain>) -> bool {
    &&& forall|c: int| #[trigger] m.dom().contains(c) <==> m1.dom().contains(c) && m2.dom().contains(c)
    &&& forall|c: int, x: int| m.dom().contains(c) ==> (#[trigger] mhas(m, c, x) <==> mhas(m1, c, x) || mhas(m2, c, x))
}
#[verifier::opaque]
spec fn ustep(l: Seq<(T, Domain)>, n: int, m1: Map<int, Domain>, m2: Map<int, Domain>, m: Map<int, Domain>) -> bool {
    &&& forall|c: int| #[trigger] m.dom().contains(c) <==> m1.dom().contains(c) && listed(l, n, c)
    &&& forall|c: int, x: int| #[trigger] mhas(m, c, x) <==> (m.dom().contains(c) ==> mhas(m1, c, x) || mhas(m2, c, x))
}
proof fn ustep_fin(l: Seq<(T, Domain)>, m1: Map<int, Domain>, m2: Map<int, Domain>, m: Map<int, Domain>)
    requires ustep(l, l.len() as int, m1, m2, m), forall|c: int| #[trigger] m2.dom().contains(c) ==> listed(l, l.len() as int, c), forall|i: int| 0 <= i < l.len() ==> m2.dom().contains(col((#[trigger] l[i]).0))
    ensures ustep_done(m1, m2, m), forall|row: spec_fn(int) -> int| rowin(m1, row) || rowin(m2, row) ==> #[trigger] rowin(m, row)
{
    reveal(ustep);
    assert forall|c: int| #[trigger] m.dom().contains(c) <==> m1.dom().contains(c) && m2.dom().contains(c) by { if listed(l, l.len() as int, c) { let i = choose|i: int| 0 <= i < l.len() && col((#[trigger] l[i]).0) == c; assert(m2.dom().contains(col(l[i].0))); } }
    assert forall|row: spec_fn(int) -> int| rowin(m1, row) || rowin(m2, row) implies #[trigger] rowin(m, row) by {
        assert forall|k: int| #[trigger] m.dom().contains(k) implies dhas(m[k], row(k)) by { assert(m1.dom().contains(k) && m2.dom().contains(k)); assert(mhas(m, k, row(k)) <==> (m.dom().contains(k) ==> mhas(m1, k, row(k)) || mhas(m2, k, row(k)))); }
    }
}
//@extract common/models/src/predicate/domain.rs ColumnDomains::insert_or_intersect
@header impl ColumnDomains
@subst /col: T/ => c: T
@subst /self\.column_to_domain\.as_mut\(\)/ => &mut self.column_to_domain
@subst /map\.entry\(col\)\s*\.and_modify\(\|e\| \{\s*\*e = (.*?);\s*\}\)\s*\.or_insert_with\(\|\| (.*?)\);/ => match map.take(&c) { Some(e) => { let nv = \1; map.insert(c, nv); } None => { map.insert(c, \2); } }
@subst /e\.(\w+)\(domain\)\.unwrap_or\((.*?)\);/ => or_domain(e.\1(domain), \2);
@at start
    let ghost k = col(c); let ghost m0 = (self.column_to_domain->0)@;
    proof { if self.column_to_domain is Some && m0.dom().contains(k) { assert(dwf(m0[k], ctype(k))); assert(dty(m0[k], *domain, ctype(k))); } }
@at end
    proof { if old(self).column_to_domain is Some { let m1 = (self.column_to_domain->0)@;
      assert forall|row: spec_fn(int) -> int| #[trigger] rowin(m1, row) <==> rowin(m0, row) && dhas(*domain, row(k)) by {
        if rowin(m1, row) { assert(m1.dom().contains(k)); assert forall|j: int| #[trigger] m0.dom().contains(j) implies dhas(m0[j], row(j)) by { assert(m1.dom().contains(j)); } }
        if rowin(m0, row) && dhas(*domain, row(k)) { assert forall|j: int| #[trigger] m1.dom().contains(j) implies dhas(m1[j], row(j)) by { if j != k { assert(m0.dom().contains(j)); } else if m0.dom().contains(k) { } } }
      } } }
@spec
    requires cwf(*old(self)), dwf(*domain, ctype(col(c)))
    ensures cwf(*final(self)), forall|row: spec_fn(int) -> int| #[trigger] chas(*final(self), row) <==> chas(*old(self), row) && dhas(*domain, row(col(c)))
@end
//@extract common/models/src/predicate/domain.rs ColumnDomains::insert_or_union
@header impl ColumnDomains
@subst /col: T/ => c: T
@subst /self\.column_to_domain\s*\.get_or_insert\(HashMap::default\(\)\)\s*\.entry\(col\)\s*\.and_modify\(\|e\| \{(.*?)\}\)\s*\.or_insert_with\(\|\| (.*?)\);/ => if self.column_to_domain.is_none() { self.column_to_domain = Some(DMap::default()); } match &mut self.column_to_domain { Some(map) => { match map.take(&c) { Some(e0) => { let mut e = e0; \1 map.insert(c, e); } None => { map.insert(c, \2); } } } None => {} };
@subst /self\s+\.column_to_domain\s*\.get_or_insert\(HashMap::default\(\)\)\s*\.entry\(col\)\s*\.and_modify\(\|e\| \{(.*?)\}\)\s*\.or_insert_with\(\|\| (.*?)\);/ => if self.column_to_domain.is_none() { self.column_to_domain = Some(DMap::default()); } match &mut self.column_to_domain { Some(map) => { match map.take(&c) { Some(e0) => { let mut e = e0; \1 map.insert(c, e); } None => { map.insert(c, \2); } } } None => {} };
@subst /\*e = / => e = 
@at start
    let ghost k = col(c); let ghost m0 = (self.column_to_domain->0)@;
    proof { if self.column_to_domain is Some && m0.dom().contains(k) { assert(dwf(m0[k], ctype(k))); assert(dty(m0[k], *domain, ctype(k))); } }
@spec
    requires cwf(*old(self)), dwf(*domain, ctype(col(c)))
    ensures cwf(*final(self)), final(self).column_to_domain is Some,
      ({ let m = (final(self).column_to_domain->0)@; let m0 = if old(self).column_to_domain is Some { (old(self).column_to_domain->0)@ } else { Map::<int, Domain>::empty() }; let k = col(c);
         m.dom() =~= m0.dom().insert(k) && (forall|j: int| m0.dom().contains(j) && j != k ==> #[trigger] m[j] == m0[j])
         && forall|x: int| #[trigger] mhas(m, k, x) <==> dhas(*domain, x) || (m0.dom().contains(k) && mhas(m0, k, x)) })
@end
}
