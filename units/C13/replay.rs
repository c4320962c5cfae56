//@prelude
//@extract common/models/src/utils.rs fn split_id
@end
//@extract common/models/src/utils.rs fn unite_id
@end
//@helpers
fn main() {
    let mut h = H::new();
    let mut r = h.rng(13);
    for n in 0..h.scale(200_000, 5_000_000) {
        let id = if n < 128 { let b = 1u64 << (n / 2); if n % 2 == 0 { b } else { !b } } else { r.word() };
        h.case("id", hash(&id), &|| format!("id {id:#x}"), &mut || {
            let (a, b) = split_id(id);
            if (a as u64, b as u64) != (id >> 32, id & 0xffff_ffff) { return Err(format!("split into {a:#x}, {b:#x}")); }
            let u = unite_id(a, b);
            if u != id { return Err(format!("split then united gives {u:#x}")); }
            Ok(())
        });
    }
    h.done();
}
