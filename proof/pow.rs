// ---- prelude: grinding -----------------------------------------------------------------------------
pub uninterp spec fn keccak(m: Seq<u8>) -> Seq<u8>;
/// The difficulty a nonce meets: trailing zero bits of the first eight digest bytes (big endian) of
/// Keccak(challenge || nonce as eight little-endian bytes); 64 when they are all zero.
pub open spec fn difficulty(c: Seq<u8>, nonce: int) -> int {
    let h = be(keccak(c + le_bytes(nonce, 8)).subrange(0, 8));
    if h == 0 { 64 } else { tz(h) }
}
