use vstd::prelude::*;
verus! {
type T = u64;   // elements are opaque: only same() looks at them
uninterp spec fn same(a: T, b: T) -> bool;

// ---- the vector buffer as the unsafe code sees it: slots that are live or moved out ------
struct Slots { x: Vec<T> }
impl Slots {
    uninterp spec fn mem(&self) -> Seq<Option<T>>;
    uninterp spec fn size(&self) -> nat;         // the Vec's length field
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.size() { unimplemented!() }
    #[verifier::external_body]
    fn same(&mut self, a: usize, b: usize) -> (r: bool)
        requires a < old(self).mem().len(), b < old(self).mem().len(), a != b, old(self).mem()[a as int] is Some, old(self).mem()[b as int] is Some
        ensures r == same(old(self).mem()[a as int]->0, old(self).mem()[b as int]->0), final(self).mem() == old(self).mem(), final(self).size() == old(self).size()
    { unimplemented!() }
    #[verifier::external_body]
    fn drop_in_place(&mut self, a: usize)
        requires a < old(self).mem().len(), old(self).mem()[a as int] is Some
        ensures final(self).mem() == old(self).mem().update(a as int, None), final(self).size() == old(self).size()
    { unimplemented!() }
    // a move: the destination must not hold a live value (it would be leaked), the source stops being live
    #[verifier::external_body]
    fn copy(&mut self, src: usize, dst: usize, n: usize)
        requires n == 1, src < old(self).mem().len(), dst < old(self).mem().len(), old(self).mem()[src as int] is Some,
           src != dst ==> old(self).mem()[dst as int] is None
        ensures final(self).mem() == (if src == dst { old(self).mem() } else { old(self).mem().update(dst as int, old(self).mem()[src as int]).update(src as int, None) }), final(self).size() == old(self).size()
    { unimplemented!() }
    #[verifier::external_body]
    fn set_len(&mut self, n: usize)
        requires n <= old(self).mem().len(), forall|i: int| 0 <= i < n ==> old(self).mem()[i] is Some,
           forall|i: int| n <= i < old(self).mem().len() ==> old(self).mem()[i] is None
        ensures final(self).mem() == old(self).mem(), final(self).size() == n
    { unimplemented!() }
}
struct Gap { read: usize, prev: usize, write: usize }

// the contract: walk left to right, an element survives iff it is not the same as its right neighbour
spec fn keep_last(s: Seq<T>) -> Seq<T> decreases s.len()
{
    if s.len() <= 1 { s }
    else if same(s[s.len() - 2], s[s.len() - 1]) { keep_last(s.drop_last()).drop_last().push(s.last()) }
    else { keep_last(s.drop_last()).push(s.last()) }
}
proof fn lemma_nonempty(s: Seq<T>) requires s.len() > 0 ensures 1 <= keep_last(s).len() <= s.len(), keep_last(s).last() == s.last() decreases s.len()
{ if s.len() > 1 { lemma_nonempty(s.drop_last()); } }
proof fn lemma_step(s: Seq<T>, n: int)
    requires 1 <= n < s.len()
    ensures keep_last(s.take(n + 1)) == (if same(s[n - 1], s[n]) { keep_last(s.take(n)).drop_last().push(s[n]) } else { keep_last(s.take(n)).push(s[n]) }),
      keep_last(s.take(n)).len() >= 1, keep_last(s.take(n)).last() == s[n - 1], keep_last(s.take(n)).len() <= n,
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    lemma_nonempty(s.take(n));
}
spec fn live(v: Slots) -> Seq<T> { Seq::new(v.size(), |i: int| v.mem()[i]->0) }
spec fn wf(v: Slots) -> bool {
    v.size() <= v.mem().len() && (forall|i: int| 0 <= i < v.size() ==> #[trigger] v.mem()[i] is Some)
    && (forall|i: int| v.size() <= i < v.mem().len() ==> #[trigger] v.mem()[i] is None)
}

//@extract common/utils/src/dedup.rs fn dedup_front_by
@ret
@loops 1
@subst /pub fn dedup_front_by<T, F>\(v: &mut Vec<T>, mut same_bucket: F\)\s*where.*?bool,/ => fn dedup_front_by(v: &mut Slots)
@subst /fn dedup_front_by<T, F>\(v: &mut Vec<T>, mut same_bucket: F\)\s*where.*?bool,/ => fn dedup_front_by(v: &mut Slots)
@subst /struct FillGapOnDrop<.*?\n    \}\n/ => 
@subst /impl<'a, T> Drop for FillGapOnDrop<'a, T> \{.*?\n    \}\n/ => 
@subst /FillGapOnDrop \{/ => Gap {
@subst /vec: v,/ => 
@subst /let ptr = gap\.vec\.as_mut_ptr\(\);/ => 
@subst /ptr\.add\(([^()]*(?:\([^()]*\))?)\)/ => (\1)
@subst /same_bucket\(&mut \*(\w+), &mut \*(\w+)\)/ => v.same(\1, \2)
@subst /ptr::drop_in_place\(/ => v.drop_in_place(
@subst /ptr::copy\(/ => v.copy(
@subst /gap\.vec\.set_len\(/ => v.set_len(
@subst /mem::forget\(gap\);/ => 
@spec
    requires wf(*old(v)), old(v).mem().len() < usize::MAX
    ensures wf(*final(v)), live(*final(v)) =~= keep_last(live(*old(v)))
@loop 0
    invariant len == old(v).size(), len >= 2, v.size() == len, v.mem().len() == old(v).mem().len(), wf(*old(v)), v.mem().len() < usize::MAX,
       1 <= gap.read <= len, gap.prev == gap.read - 1, gap.write <= gap.prev,
       gap.write + 1 == keep_last(live(*old(v)).take(gap.read as int)).len(),
       forall|i: int| 0 <= i < gap.write ==> #[trigger] v.mem()[i] == Some(keep_last(live(*old(v)).take(gap.read as int))[i]),
       forall|i: int| gap.write <= i < gap.prev ==> #[trigger] v.mem()[i] is None,
       forall|i: int| gap.prev <= i < v.mem().len() ==> #[trigger] v.mem()[i] == old(v).mem()[i],
    decreases len - gap.read
@at before-loop 0
    proof { assert(live(*old(v)).take(1).len() == 1); }
@at loop-start 0
    proof { lemma_step(live(*old(v)), gap.read as int); }
    let ghost kl = keep_last(live(*old(v)).take(gap.read as int));
@at after-loop 0
    proof { assert(live(*old(v)).take(len as int) =~= live(*old(v))); lemma_nonempty(live(*old(v))); }
@at start
    proof { if v.size() <= 1 { assert(live(*v).len() <= 1); } }
@end
}
