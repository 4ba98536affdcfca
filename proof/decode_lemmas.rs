// ---- shared: the fields of an instruction word spell its flag bits --------------------------------
proof fn never_undefined(w: int, f: CairoInstructionFlags) requires decodes(w, f) ensures !(f.res_logic is Unconstrained), !(f.ap_update is Add2) {}
proof fn sub(x: int, n: int, j: nat)
    requires x >= 0, j <= 2, x % 8 == n || (j <= 1 && x % 4 == n) || (j == 0 && x % 2 == n)
    ensures j == 0 ==> n % 2 == x % 2, j == 1 ==> n / 2 % 2 == x / 2 % 2, j == 2 ==> n / 4 % 2 == x / 4 % 2
{
}
/// Decoding then spelling out the trace representation gives the word's own fifteen flag bits.
pub proof fn flags_round_trip(w: int, f: CairoInstructionFlags, i: int)
    requires 0 <= w, decodes(w, f), 0 <= i < 15
    ensures flag_bit(f, i) == (w / ipow(2, (48 + i) as nat)) % 2
{
    if i < 2 {}
    else if i < 5 { rt(w, 2, i - 2, op1_n(f.op1_src), 8); }
    else if i < 7 { rt(w, 5, i - 5, res_n(f.res_logic), 4); }
    else if i < 10 { rt(w, 7, i - 7, pc_n(f.pc_update), 8); }
    else if i < 12 { rt(w, 10, i - 10, ap_n(f.ap_update), 4); }
    else { rt(w, 12, i - 12, opc_n(f.opcode), 8); }
}
proof fn rt(w: int, lo: nat, j: int, n: int, m: int)
    requires 0 <= w, fl(w, lo, m) == n, (m == 8 && 0 <= j <= 2) || (m == 4 && 0 <= j <= 1)
    ensures (w / ipow(2, (48 + lo + j) as nat)) % 2 == (if j == 0 { n % 2 } else if j == 1 { n / 2 % 2 } else { n / 4 % 2 })
{
    let x = w / ipow(2, 48 + lo);
    pos(48 + lo);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(w, ipow(2, 48 + lo));
    half(w, 48 + lo, j as nat);
    assert((48 + lo) + (j as nat) == (48 + lo + j) as nat);
    sub(x, n, j as nat);
}
proof fn pos(k: nat) ensures ipow(2, k) > 0 decreases k { if k > 0 { pos((k - 1) as nat); } }
/// Bit j above bit k, for j up to 2.
proof fn half(w: int, k: nat, j: nat) requires 0 <= w, j <= 2
    ensures w / ipow(2, k + j) == (if j == 0 { w / ipow(2, k) } else if j == 1 { w / ipow(2, k) / 2 } else { w / ipow(2, k) / 4 })
{
    pos(k);
    reveal_with_fuel(ipow, 3);
    if j > 0 {
        let d: int = if j == 1 { 2 } else { 4 };
        assert(ipow(2, k + j) == ipow(2, k) * d) by { assert(ipow(2, k + 1) == 2 * ipow(2, k)); if j == 2 { assert(ipow(2, k + 2) == 2 * ipow(2, k + 1)); } }
        vstd::arithmetic::div_mod::lemma_div_denominator(w, ipow(2, k), d);
    }
}
