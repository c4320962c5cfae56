// ---- stand-ins for the arrow types the decoders build: a row mask, and a column of optional values ----
use std::sync::Arc;
struct NullBuffer { bits: Vec<bool> }
impl NullBuffer {
    fn len(&self) -> (r: usize) ensures r == self.bits.len() { self.bits.len() }
    fn is_valid(&self, i: usize) -> (r: bool) requires i < self.bits.len() ensures r == self.bits@[i as int] { self.bits[i] }
    spec fn n(&self) -> int { nv(self.bits@, self.bits.len() as int) }
}
// how many of the first i rows hold a value
spec fn nv(bits: Seq<bool>, i: int) -> int decreases i { if i <= 0 { 0 } else { nv(bits, i - 1) + (if bits[i - 1] { 1int } else { 0 }) } }
// the column: values in order in the rows marked valid, null elsewhere
spec fn spread<T>(bits: Seq<bool>, vals: Seq<T>) -> Seq<Option<T>> { Seq::new(bits.len(), |i: int| if bits[i] { Some(vals[nv(bits, i)]) } else { None }) }
proof fn lemma_nv(bits: Seq<bool>, i: int, j: int)
    requires 0 <= i <= j <= bits.len()
    ensures 0 <= nv(bits, i) <= nv(bits, j) <= j, nv(bits, i) <= i, i < j && bits[i] ==> nv(bits, i) < nv(bits, j)
    decreases i + j
{ if i < j { lemma_nv(bits, i, j - 1); } else if i > 0 { lemma_nv(bits, i - 1, i); } }
proof fn lemma_all_null<T>(bits: Seq<bool>, vals: Seq<T>)
    requires nv(bits, bits.len() as int) == 0
    ensures spread(bits, vals) =~= Seq::new(bits.len(), |i: int| None::<T>)
{ assert forall|i: int| 0 <= i < bits.len() implies !bits[i] by { lemma_nv(bits, i, bits.len() as int); } }
