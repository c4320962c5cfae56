// columns of 64-bit patterns whose differences cover every shape the encoders look for
pub fn column(r: &mut Rng) -> Vec<u64> {
    let n = match r.below(10) { 0 => r.below(4), 1..=5 => r.below(12), 6 | 7 => 100 + r.below(160), 8 => 230 + r.below(300), _ => 1 + r.below(40) } as usize;
    let mut v: Vec<u64> = vec![];
    let kind = r.below(14);
    let bits = r.below(64); let step = r.word(); let p10 = 10u64.pow(r.below(14) as u32); let burst = 100 + r.below(150);
    let mut cur = if r.chance(1, 2) { r.word() } else { r.below(1 << 20) };
    for i in 0..n {
        v.push(cur);
        let d = match kind {
            0 => 0, 1 => step, 2 => step.wrapping_neg(), 3 => p10.wrapping_mul(1 + r.below(9)), 4 => p10, 5 => r.next() >> bits, 6 => (r.next() >> bits).wrapping_neg(),
            7 => r.word(), 8 => if (i as u64) < burst { 1 } else { r.below(5) }, 9 => if r.chance(1, 60) { r.next() >> bits } else { 1 }, 10 => (1u64 << 60).wrapping_sub(2).wrapping_add(r.below(4)),
            11 => (1u64 << bits).wrapping_sub(r.below(2)), 12 => if i + 2 >= n { step } else { p10 },
            _ => if (i as u64) < burst { u64::MAX } else { r.below(4).wrapping_sub(2) },
        };
        cur = cur.wrapping_add(d);
    }
    v
}
