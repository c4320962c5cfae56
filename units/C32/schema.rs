use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include schema.inc
fn main() {}
}
