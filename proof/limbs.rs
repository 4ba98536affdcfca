// ---- shared: sixteen-bit limbs -------------------------------------------------------------------
pub proof fn lemma_ipow_pos(b: int, e: nat) requires b > 0 ensures ipow(b, e) > 0 decreases e
{ if e > 0 { lemma_ipow_pos(b, (e - 1) as nat); assert(b * ipow(b, (e - 1) as nat) > 0) by (nonlinear_arith) requires b > 0, ipow(b, (e - 1) as nat) > 0; } }
pub open spec fn limbs_value(x: int, n: nat) -> int decreases n { if n == 0 { 0 } else { limbs_value(x, (n - 1) as nat) + (x / ipow(0x1_0000, (n - 1) as nat) % 0x1_0000) * ipow(0x1_0000, (n - 1) as nat) } }
/// The limbs recompose to the value modulo 2^(16 n); eight of them to every value below 2^128.
pub proof fn theorem_recompose(x: int, n: nat) requires x >= 0 ensures limbs_value(x, n) == x % ipow(0x1_0000, n) decreases n
{
    if n > 0 {
        let b = ipow(0x1_0000, (n - 1) as nat);
        lemma_ipow_pos(0x1_0000, (n - 1) as nat);
        theorem_recompose(x, (n - 1) as nat);
        vstd::arithmetic::div_mod::lemma_mod_breakdown(x, b, 0x1_0000);
        assert(b * 0x1_0000 == 0x1_0000 * b);
        assert(b * (x / b % 0x1_0000) == (x / b % 0x1_0000) * b) by (nonlinear_arith);
    }
}
