//@ include fe.rs
//@ include num.rs
//@ item starks/proof/errors.rs InsecureOptionError
//@ item starks/proof/options.rs SecurityLevel
//@ item starks/proof/options.rs ProofOptions
//@ consts starks/proof/options.rs ProofOptions
//@ raw
/// The erased field type: only its bit size matters here.
pub struct Fld {}
pub uninterp spec fn field_bits() -> int;
impl Fld {
    #[verifier::external_body]
    pub fn field_bit_size() -> (r: usize) ensures r == field_bits(), r < 0x1_0000 { unimplemented!() }
}
/// Conjecturable and provable estimates of a parameter set whose blowup is a power of two.
pub open spec fn conjecturable(o: ProofOptions) -> int { o.fri_number_of_queries * log2(o.blowup_factor as int) + o.grinding_factor - 1 }
pub open spec fn provable(o: ProofOptions) -> int { o.grinding_factor + o.fri_number_of_queries * log2(o.blowup_factor as int) / 2 }
pub open spec fn given(o: ProofOptions, b: u8, q: usize, c: u64, g: u8) -> bool {
    o.blowup_factor == b && o.fri_number_of_queries == q && o.coset_offset == c && o.grinding_factor == g
}
pub open spec fn bits_of(l: SecurityLevel) -> int {
    match l { SecurityLevel::Conjecturable80Bits => 80, SecurityLevel::Conjecturable100Bits => 100, SecurityLevel::Conjecturable128Bits => 128,
              SecurityLevel::Provable80Bits => 80, SecurityLevel::Provable100Bits => 100, SecurityLevel::Provable128Bits => 128 }
}
pub open spec fn is_provable(l: SecurityLevel) -> bool { l is Provable80Bits || l is Provable100Bits || l is Provable128Bits }
//@ fn starks/proof/options.rs ProofOptions::new_secure
ensures is_pow2(ret.blowup_factor as int), ret.coset_offset == coset_offset,
    conjecturable(ret) > bits_of(security_level),
    is_provable(security_level) ==> provable(ret) > bits_of(security_level),
//@ bodystart
reveal_with_fuel(is_pow2, 9); reveal_with_fuel(log2, 9);
//@ fn starks/proof/options.rs ProofOptions::check_field_security
ensures ret.is_ok() == (field_bits() > security_target + 40), ret.is_err() ==> ret->Err_0 is FieldSize,
//@ fn starks/proof/options.rs ProofOptions::new_with_checked_security
ensures
    ret.is_ok() == (is_pow2(blowup_factor as int) && field_bits() > security_target + 40
        && fri_number_of_queries * log2(blowup_factor as int) + grinding_factor - 1 > security_target),
    ret.is_ok() ==> given(ret->Ok_0, blowup_factor, fri_number_of_queries, coset_offset, grinding_factor),
//@ bodystart
proof {
    reveal_with_fuel(is_pow2, 9);
    if is_pow2(blowup_factor as int) { lemma_tz_log2(blowup_factor as int); }
    assert(log2(blowup_factor as int) * fri_number_of_queries == fri_number_of_queries * log2(blowup_factor as int)) by (nonlinear_arith);
}
//@ fn starks/proof/options.rs ProofOptions::new_with_checked_provable_security
ensures
    ret.is_ok() == (is_pow2(blowup_factor as int) && field_bits() > security_target + 40
        && grinding_factor + fri_number_of_queries * log2(blowup_factor as int) / 2 > security_target),
    ret.is_ok() ==> given(ret->Ok_0, blowup_factor, fri_number_of_queries, coset_offset, grinding_factor),
//@ bodystart
proof {
    reveal_with_fuel(is_pow2, 9);
    if is_pow2(blowup_factor as int) { lemma_tz_log2(blowup_factor as int); }
    assert(log2(blowup_factor as int) * fri_number_of_queries == fri_number_of_queries * log2(blowup_factor as int)) by (nonlinear_arith);
}
