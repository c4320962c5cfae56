#[verifier::external_body] struct Times { x: u8 }
impl Times {
    uninterp spec fn at(self) -> Seq<i64>;
    #[verifier::external_body] fn value(&self, i: usize) -> (r: i64) requires i < self.at().len() ensures r == self.at()[i as int] { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.at().len() { unimplemented!() }
}
#[verifier::external_body] fn compare(a: i64, b: i64) -> (r: Ordering) ensures r is Less <==> a < b, r is Greater <==> a > b, r is Equal <==> a == b { unimplemented!() }
#[verifier::external_body] fn cmp_idx(a: usize, b: usize) -> (r: Ordering) ensures r is Less <==> a < b, r is Greater <==> a > b, r is Equal <==> a == b { unimplemented!() }
fn gt2(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a is Greater || (a is Equal && b is Greater)) { match a { Ordering::Greater => true, Ordering::Equal => matches!(b, Ordering::Greater), Ordering::Less => false } }
//@extract tskv/src/reader/sort_merge.rs struct ColumnCursor
@subst /<T: FieldValues>/ =>
@subst /values: T/ => values: Times
@end
