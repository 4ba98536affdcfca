// ---- prelude: FRI layers ----------------------------------------------------------------------
/// offset^(2^k), the offset of layer k.
pub open spec fn sq(x: int, k: int) -> int decreases k { if k <= 0 { x } else { sq(x, k - 1) * sq(x, k - 1) } }
pub open spec fn halved(n: int, k: int) -> int decreases k { if k <= 0 { n } else { halved(n, k - 1) / 2 } }
pub proof fn lemma_shl(n: u32) requires n < 63 ensures 1usize << n == ipow(2, n as nat), ipow(2, n as nat) > 0 decreases n {
    if n == 0 { assert(1usize << 0u32 == 1) by (bit_vector); assert(ipow(2, 0) == 1); }
    else { lemma_shl((n - 1) as u32); let m = (n - 1) as u32; assert(m < 62 ==> 1usize << ((m + 1) as u32) == 2 * (1usize << m)) by (bit_vector); assert(((m + 1) as u32) == n); }
}
