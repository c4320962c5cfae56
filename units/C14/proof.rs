use vstd::prelude::*;
verus! {

type Timestamp = i64;

//@extract common/utils/src/precision.rs enum Precision
@derive Clone, Copy
@end

// nanoseconds per unit: the meaning of a precision
spec fn unit_ns(p: Precision) -> int {
    match p { Precision::NS => 1, Precision::US => 1_000, Precision::MS => 1_000_000 }
}
// truncation toward zero, written over mathematical integers
spec fn trunc_div(a: int, b: int) -> int
    recommends b > 0
{ if a >= 0 { a / b } else { -((-a) / b) } }

spec fn fits(x: int) -> bool { i64::MIN <= x <= i64::MAX }

// what converting means (each factor a literal: unit_ns(a) / unit_ns(b), see lemma_factor)
spec fn factor(coarse: Precision, fine: Precision) -> int {
    match (coarse, fine) {
        (Precision::MS, Precision::NS) => 1_000_000,
        (Precision::MS, Precision::US) => 1_000,
        (Precision::US, Precision::NS) => 1_000,
        _ => 1,
    }
}
spec fn scale(a: int, from: Precision, to: Precision) -> int {
    match (from, to) {
        (Precision::MS, Precision::NS) => a * 1_000_000,
        (Precision::MS, Precision::US) => a * 1_000,
        (Precision::US, Precision::NS) => a * 1_000,
        _ => a,
    }
}
spec fn convert(from: Precision, to: Precision, ts: int) -> int {
    if unit_ns(from) >= unit_ns(to) { scale(ts, from, to) }
    else {
        match (to, from) {
            (Precision::MS, Precision::NS) => trunc_div(ts, 1_000_000),
            _ => trunc_div(ts, 1_000),
        }
    }
}
proof fn lemma_factor(a: Precision, b: Precision)
    ensures unit_ns(a) >= unit_ns(b) ==> unit_ns(a) == factor(a, b) * unit_ns(b),
            forall|x: int| unit_ns(a) >= unit_ns(b) ==> #[trigger] scale(x, a, b) == x * factor(a, b),
{}

//@extract common/utils/src/precision.rs fn timestamp_convert
@ret r
@spec
    ensures
        fits(convert(from, to, ts as int)) ==> r == Some(convert(from, to, ts as int) as i64),
        !fits(convert(from, to, ts as int)) ==> r is None,
        unit_ns(to) >= unit_ns(from) ==> r is Some,
@end

//@helpers

// ---- consequences of the contract -------------------------------------------------------
proof fn lemma_identity(p: Precision, ts: i64)
    ensures convert(p, p, ts as int) == ts
{}
proof fn lemma_widen_then_narrow(from: Precision, to: Precision, ts: i64)
    requires unit_ns(from) >= unit_ns(to), fits(convert(from, to, ts as int)),
    ensures convert(to, from, convert(from, to, ts as int)) == ts,
{}
proof fn lemma_monotone(from: Precision, to: Precision, a: i64, b: i64)
    requires a <= b
    ensures convert(from, to, a as int) <= convert(from, to, b as int)
{}
proof fn lemma_compose(ts: i64)
    ensures convert(Precision::US, Precision::MS, convert(Precision::NS, Precision::US, ts as int)) == convert(Precision::NS, Precision::MS, ts as int)
{}
} // verus!
