//@include nulls.inc
struct Int64Array { v: Vec<Option<i64>> }
impl Int64Array { fn from(v: Vec<Option<i64>>) -> (r: Int64Array) ensures r.v == v { Int64Array { v } } }
struct UInt64Array { v: Vec<Option<u64>> }
impl UInt64Array { fn from(v: Vec<Option<u64>>) -> (r: UInt64Array) ensures r.v == v { UInt64Array { v } } }
struct Int64Builder { v: Vec<Option<i64>> }
impl Int64Builder {
    fn new() -> (r: Int64Builder) ensures r.v@ == Seq::<Option<i64>>::empty() { Int64Builder { v: Vec::new() } }
    fn with_capacity(n: usize) -> (r: Int64Builder) ensures r.v@ == Seq::<Option<i64>>::empty() { Int64Builder { v: Vec::new() } }
    fn append_value(&mut self, x: i64) ensures final(self).v@ == old(self).v@.push(Some(x)) { self.v.push(Some(x)); }
    fn append_null(&mut self) ensures final(self).v@ == old(self).v@.push(None) { self.v.push(None); }
    #[verifier::external_body]
    fn finish(&mut self) -> (r: Int64Array) ensures r.v@ == old(self).v@ { Int64Array { v: std::mem::take(&mut self.v) } }
}
