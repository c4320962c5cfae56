use vstd::prelude::*;
use std::collections::HashMap;
verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;

// The ring is generic; it is verified at T = u64, the only key type the system instantiates it with
// (raft log indexes).
type T = u64;
type K = u64;
//@extract common/cache/src/circular_kvcache.rs struct CircularBuffer
@end
//@extract common/cache/src/circular_kvcache.rs struct CircularKVCache
@end

impl CircularBuffer<T> {
    spec fn cap(&self) -> int { self.buffer.len() as int }
    spec fn wf(&self) -> bool {
        &&& self.cap() > 0 && self.head < self.cap() && self.tail < self.cap()
        &&& self.empty ==> self.head == self.tail
    }
    spec fn count(&self) -> int {
        if self.empty { 0 } else if self.tail >= self.head { self.tail - self.head + 1 } else { self.tail - self.head + self.cap() + 1 }
    }
    spec fn slot(&self, i: int) -> int { if self.head + i < self.cap() { self.head + i } else { self.head + i - self.cap() } }
    // oldest first
    spec fn view(&self) -> Seq<u64> { Seq::new(self.count() as nat, |i: int| self.buffer@[self.slot(i)]) }
}

pub assume_specification<U: std::default::Default>[ std::mem::take::<U> ](x: &mut U) -> (r: U)
    ensures r == *old(x);

proof fn lemma_step(x: int, n: int)
    requires 0 <= x < n
    ensures (x + 1) % n == (if x + 1 < n { x + 1 } else { 0 }), x % n == x
{
    vstd::arithmetic::div_mod::lemma_small_mod(x as nat, n as nat);
    if x + 1 < n { vstd::arithmetic::div_mod::lemma_small_mod((x + 1) as nat, n as nat); }
    else { vstd::arithmetic::div_mod::lemma_mod_self_0(n); }
}

spec fn sorted(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
proof fn lemma_push(s: Seq<u64>, k: u64)
    ensures forall|x: u64| #[trigger] s.push(k).contains(x) <==> s.contains(x) || x == k,
      s.no_duplicates() && !s.contains(k) ==> s.push(k).no_duplicates(),
{
    assert forall|x: u64| #[trigger] s.push(k).contains(x) <==> s.contains(x) || x == k by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(k)[i] == x); }
        if x == k { assert(s.push(k)[s.len() as int] == x); }
    }
}
proof fn lemma_drop_first(s: Seq<u64>)
    requires s.len() > 0, s.no_duplicates()
    ensures forall|x: u64| #[trigger] s.drop_first().contains(x) <==> s.contains(x) && x != s[0], s.drop_first().no_duplicates(),
{
    assert forall|x: u64| #[trigger] s.drop_first().contains(x) <==> s.contains(x) && x != s[0] by {
        if s.contains(x) && x != s[0] { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.drop_first()[i - 1] == x); }
        if s.drop_first().contains(x) { let i = choose|i: int| 0 <= i < s.len() - 1 && s.drop_first()[i] == x; assert(s[i + 1] == x); }
    }
}
// what cutting an ascending sequence in two means for membership
proof fn lemma_cut(s: Seq<u64>, a: Seq<u64>, b: Seq<u64>, key: u64)
    requires s =~= a + b, sorted(s),
       a.len() > 0 ==> a.last() < key, b.len() > 0 ==> b[0] >= key,
    ensures sorted(a), sorted(b), a.no_duplicates(), b.no_duplicates(),
       forall|x: u64| #[trigger] s.contains(x) <==> a.contains(x) || b.contains(x),
       forall|x: u64| #[trigger] a.contains(x) <==> s.contains(x) && x < key,
       forall|x: u64| #[trigger] b.contains(x) <==> s.contains(x) && x >= key,
{
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies a[i] < a[j] by { assert(s[i] < s[j]); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i] < b[j] by { assert(s[i + a.len()] < s[j + a.len()]); }
    assert forall|i: int| 0 <= i < a.len() implies a[i] < key by { if i < a.len() - 1 { assert(a[i] < a[a.len() - 1]); } }
    assert forall|i: int| 0 <= i < b.len() implies b[i] >= key by { if i > 0 { assert(b[0] < b[i]); } }
    assert forall|x: u64| #[trigger] s.contains(x) <==> a.contains(x) || b.contains(x) by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(s[i] == x); }
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(s[i + a.len()] == x); }
    }
    assert forall|x: u64| #[trigger] a.contains(x) <==> s.contains(x) && x < key by { s.contains(x); b.contains(x); }
    assert forall|x: u64| #[trigger] b.contains(x) <==> s.contains(x) && x >= key by { s.contains(x); a.contains(x); }
}
proof fn lemma_reverse(a: Seq<u64>)
    ensures forall|x: u64| #[trigger] a.reverse().contains(x) <==> a.contains(x),
       forall|x: u64| #[trigger] a.contains(x) <==> a.reverse().contains(x),
{
    assert forall|x: u64| #[trigger] a.reverse().contains(x) <==> a.contains(x) by {
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(a.reverse()[a.len() - 1 - i] == x); }
        if a.reverse().contains(x) { let i = choose|i: int| 0 <= i < a.len() && a.reverse()[i] == x; assert(a[a.len() - 1 - i] == x); }
    }
}
proof fn lemma_take_next(s: Seq<u64>, n: int)
    requires 0 <= n < s.len()
    ensures forall|x: u64| #[trigger] s.take(n + 1).contains(x) <==> s.take(n).contains(x) || x == s[n]
{
    assert(s.take(n + 1) =~= s.take(n).push(s[n]));
    lemma_push(s.take(n), s[n]);
}

//@extract common/cache/src/circular_kvcache.rs CircularBuffer::new
@header impl CircularBuffer<T>
@ret r
@subst /Default::default\(\)/ => 0u64
@spec
    requires size > 0
    ensures r.wf(), r.cap() == size, r.view() == Seq::<u64>::empty()
@end

//@extract common/cache/src/circular_kvcache.rs CircularBuffer::is_empty
@header impl CircularBuffer<T>
@ret r
@spec
    requires self.wf()
    ensures r == (self.view().len() == 0)
@end

//@extract common/cache/src/circular_kvcache.rs CircularBuffer::is_full
@header impl CircularBuffer<T>
@ret r
@spec
    requires self.wf()
    ensures r && !self.empty ==> self.view().len() == self.cap(),
            !r ==> self.view().len() < self.cap(),
            self.cap() > 1 && self.empty ==> !r,
@at start
    proof { lemma_step(self.tail as int, self.cap()); }
@end

//@extract common/cache/src/circular_kvcache.rs CircularBuffer::take
@header impl CircularBuffer<T>
@ret r
@spec
    requires index < old(self).buffer@.len()
    ensures r == old(self).buffer@[index as int], final(self).buffer@ == old(self).buffer@.update(index as int, final(self).buffer@[index as int]),
       final(self).head == old(self).head, final(self).tail == old(self).tail, final(self).empty == old(self).empty
@end

//@extract common/cache/src/circular_kvcache.rs CircularBuffer::get_tail
@header impl CircularBuffer<T>
@ret r
@spec
    requires self.wf()
    ensures self.view().len() == 0 ==> r is None, self.view().len() > 0 ==> r == Some(self.view().last())
@end

//@extract common/cache/src/circular_kvcache.rs CircularBuffer::push
@header impl CircularBuffer<T>
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).cap() == old(self).cap(),
      old(self).view().len() < old(self).cap() ==> final(self).view() =~= old(self).view().push(item),
      old(self).view().len() == old(self).cap() ==> final(self).view() =~= old(self).view().drop_first().push(item),
@at start
    proof { lemma_step(self.tail as int, self.cap()); lemma_step(self.head as int, self.cap()); }
@end

//@extract common/cache/src/circular_kvcache.rs CircularBuffer::pop
@header impl CircularBuffer<T>
@ret r
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).cap() == old(self).cap(),
      old(self).view().len() == 0 ==> r is None && final(self).view() == old(self).view(),
      old(self).view().len() > 0 ==> r == Some(old(self).view()[0]) && final(self).view() =~= old(self).view().drop_first(),
@at start
    proof { lemma_step(self.tail as int, self.cap()); lemma_step(self.head as int, self.cap()); }
@end

//@extract common/cache/src/circular_kvcache.rs CircularBuffer::del_before
@header impl CircularBuffer<T>
@ret r
@loops 1
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).cap() == old(self).cap(),
      r@ + final(self).view() =~= old(self).view(),
      forall|i: int| 0 <= i < r@.len() ==> r@[i] < key,
      final(self).view().len() > 0 ==> final(self).view()[0] >= key,
@loop 0
    invariant self.wf(), self.cap() == old(self).cap(), list@ + self.view() =~= old(self).view(),
       forall|i: int| 0 <= i < list@.len() ==> list@[i] < key, current == self.head,
    ensures self.view().len() > 0 ==> self.view()[0] >= key,
    decreases self.view().len()
@at loop-start 0
    let ghost pre = self.view();
    proof { lemma_step(self.head as int, self.cap()); }
@end

//@extract common/cache/src/circular_kvcache.rs CircularBuffer::del_after
@header impl CircularBuffer<T>
@ret r
@loops 1
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).cap() == old(self).cap(),
      final(self).view() + r@.reverse() =~= old(self).view(),
      forall|i: int| 0 <= i < r@.len() ==> r@[i] >= key,
      final(self).view().len() > 0 ==> final(self).view().last() < key,
@loop 0
    invariant self.wf(), self.cap() == old(self).cap(), self.view() + list@.reverse() =~= old(self).view(),
       forall|i: int| 0 <= i < list@.len() ==> list@[i] >= key, current == self.tail,
    ensures self.view().len() > 0 ==> self.view().last() < key,
    decreases self.view().len()
@at loop-start 0
    proof { if self.tail > 0 { lemma_step(self.tail as int - 1, self.cap()); } }
@end


// exactly the entries whose key satisfies p survive, with their values
spec fn kept<V>(a: Map<u64, V>, b: Map<u64, V>, p: spec_fn(u64) -> bool) -> bool {
    forall|k: u64| (#[trigger] b.contains_key(k) <==> a.contains_key(k) && p(k)) && (b.contains_key(k) ==> b[k] == a[k])
}
spec fn removed<V>(a: Map<u64, V>, b: Map<u64, V>, gone: Seq<u64>) -> bool {
    forall|k: u64| (#[trigger] b.contains_key(k) <==> a.contains_key(k) && !gone.contains(k)) && (b.contains_key(k) ==> b[k] == a[k])
}
impl<V> CircularKVCache<K, V> {
    spec fn wf(&self) -> bool {
        &&& self.buffer.wf()
        &&& self.buffer.view().no_duplicates()
        &&& forall|k: u64| self.cache@.contains_key(k) <==> self.buffer.view().contains(k)
    }
    spec fn order(&self) -> Seq<u64> { self.buffer.view() }
    spec fn cap(&self) -> int { self.buffer.cap() }
}

//@extract common/cache/src/circular_kvcache.rs CircularKVCache::new
@header impl<V> CircularKVCache<K, V>
@ret r
@spec
    requires capacity > 0
    ensures r.wf(), r.cap() == capacity, r.order() == Seq::<u64>::empty(), r.cache@ == Map::<u64, V>::empty()
@end
//@extract common/cache/src/circular_kvcache.rs CircularKVCache::get
@header impl<V> CircularKVCache<K, V>
@ret r
@spec
    requires self.wf()
    ensures match r { Some(v) => self.cache@.contains_key(*key) && *v == self.cache@[*key], None => !self.cache@.contains_key(*key) }
@end
//@extract common/cache/src/circular_kvcache.rs CircularKVCache::last
@header impl<V> CircularKVCache<K, V>
@ret r
@spec
    requires self.wf()
    ensures self.order().len() == 0 ==> r is None,
            self.order().len() > 0 ==> r is Some && *r->0 == self.cache@[self.order().last()],
@at start
    proof { if self.order().len() > 0 { assert(self.order().contains(self.order().last())); } }
@end
//@extract common/cache/src/circular_kvcache.rs CircularKVCache::put
@header impl<V> CircularKVCache<K, V>
@spec
    requires old(self).wf(), old(self).cap() > 1
    ensures final(self).wf(), final(self).cap() == old(self).cap(),
      old(self).cache@.contains_key(key) ==> final(self).order() == old(self).order() && final(self).cache@ == old(self).cache@.insert(key, value),
      !old(self).cache@.contains_key(key) && old(self).order().len() < old(self).cap() ==>
          final(self).order() =~= old(self).order().push(key) && final(self).cache@ =~= old(self).cache@.insert(key, value),
      !old(self).cache@.contains_key(key) && old(self).order().len() == old(self).cap() ==>
          final(self).order() =~= old(self).order().drop_first().push(key)
          && final(self).cache@ =~= old(self).cache@.remove(old(self).order()[0]).insert(key, value),
@at start
    proof {
        lemma_push(self.order(), key);
        if self.order().len() > 0 {
            lemma_drop_first(self.order()); lemma_push(self.order().drop_first(), key);
            assert(self.order().contains(self.order()[0]));
        }
    }
@end
//@extract common/cache/src/circular_kvcache.rs CircularKVCache::del_before
@header impl<V> CircularKVCache<K, V>
@loops 1
@spec
    requires old(self).wf(), sorted(old(self).order())
    ensures final(self).wf(), final(self).cap() == old(self).cap(), sorted(final(self).order()),
      kept(old(self).cache@, final(self).cache@, |k: u64| k >= key), forall|x: u64| final(self).order().contains(x) <==> #[trigger] old(self).order().contains(x) && x >= key,
@iter 0 it
@loop 0
    invariant removed(old(self).cache@, self.cache@, it.seq().take(it.index@ as int)), it.seq() == items@, self.buffer == buf1, 
@at before-loop 0
    let ghost buf1 = self.buffer;
    proof { lemma_cut(old(self).order(), items@, self.order(), key); assert(items@.take(0).len() == 0); assert(items@.take(items@.len() as int) =~= items@); }
@at loop-start 0
    proof { lemma_take_next(items@, it.index@ as int); }
@end
//@extract common/cache/src/circular_kvcache.rs CircularKVCache::del_after
@header impl<V> CircularKVCache<K, V>
@loops 1
@spec
    requires old(self).wf(), sorted(old(self).order())
    ensures final(self).wf(), final(self).cap() == old(self).cap(), sorted(final(self).order()),
      kept(old(self).cache@, final(self).cache@, |k: u64| k < key), forall|x: u64| final(self).order().contains(x) <==> #[trigger] old(self).order().contains(x) && x < key,
@iter 0 it
@loop 0
    invariant removed(old(self).cache@, self.cache@, it.seq().take(it.index@ as int)), it.seq() == items@, self.buffer == buf1, 
@at before-loop 0
    let ghost buf1 = self.buffer;
    proof { lemma_reverse(items@); lemma_cut(old(self).order(), self.order(), items@.reverse(), key); assert(items@.take(0).len() == 0); assert(items@.take(items@.len() as int) =~= items@); }
@at loop-start 0
    proof { lemma_take_next(items@, it.index@ as int); }
@end
//@helpers
}
