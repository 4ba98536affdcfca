//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include pow.rs
//@ config
{"methods": {"to_le_bytes": "vx_to_le", "to_be_bytes": "vx_to_be", "try_into": "fn vx_try_into"}, "paths": {"u64::from_be_bytes": "vx_u64_from_be", "u64::from_le_bytes": "vx_u64_from_le"}}
//@ raw
pub struct Keccak256 {}
impl Keccak256 {
    #[verifier::external_body]
    pub fn digest<const N: usize>(m: [u8; N]) -> (r: [u8; 32]) ensures r@ == keccak(m@) { unimplemented!() }
}
//@ fn starks/grinding.rs hash_transcript_with_int_and_get_leading_zeros
ensures ret == difficulty(transcript_challenge@, value as int),
//@ let digest
proof { assert(data@ =~= transcript_challenge@ + le_bytes(value as int, 8)); }
//@ fn starks/grinding.rs generate_nonce_with_grinding
ensures
    // the least nonce that meets the difficulty, and none only if none below 2^64 - 1 does
    ret.is_some() ==> difficulty(transcript_challenge@, ret.unwrap() as int) >= grinding_factor
        && forall|n: int| 0 <= n < ret.unwrap() ==> #[trigger] difficulty(transcript_challenge@, n) < grinding_factor,
    ret.is_none() ==> forall|n: int| 0 <= n < u64::MAX ==> #[trigger] difficulty(transcript_challenge@, n) < grinding_factor,
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == u64::MAX,
    va_0.is_none() ==> forall|n: int| 0 <= n < vi_0 ==> #[trigger] difficulty(transcript_challenge@, n) < grinding_factor,
    va_0.is_some() ==> difficulty(transcript_challenge@, va_0.unwrap() as int) >= grinding_factor
        && forall|n: int| 0 <= n < va_0.unwrap() ==> #[trigger] difficulty(transcript_challenge@, n) < grinding_factor,
decreases vn_0 - vi_0
