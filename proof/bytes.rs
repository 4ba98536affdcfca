// ---- prelude: byte strings --------------------------------------------------------------------
pub open spec fn be(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() } }
pub open spec fn le(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] + 256 * le(s.subrange(1, s.len() as int)) } }
/// The unique n-byte strings of a value.
pub uninterp spec fn be_bytes(v: int, n: nat) -> Seq<u8>;
pub uninterp spec fn le_bytes(v: int, n: nat) -> Seq<u8>;
pub broadcast axiom fn axiom_be_bytes(v: int, n: nat) requires 0 <= v < ipow(256, n)
    ensures (#[trigger] be_bytes(v, n)).len() == n, be(be_bytes(v, n)) == v;
pub broadcast axiom fn axiom_le_bytes(v: int, n: nat) requires 0 <= v < ipow(256, n)
    ensures (#[trigger] le_bytes(v, n)).len() == n, le(le_bytes(v, n)) == v;
pub trait VxBytes: Sized {
    spec fn vx_v(&self) -> int;
    spec fn vx_w() -> nat;
    fn vx_to_be(self) -> (r: Vec<u8>) ensures r@ == be_bytes(self.vx_v(), Self::vx_w()), r@.len() == Self::vx_w();
    fn vx_to_le(self) -> (r: Vec<u8>) ensures r@ == le_bytes(self.vx_v(), Self::vx_w()), r@.len() == Self::vx_w();
}
macro_rules! vxbytes { ($t:ty, $n:expr, $A:ident, $fb:ident, $fl:ident) => { verus! {
  impl VxBytes for $t {
    open spec fn vx_v(&self) -> int { *self as int }
    open spec fn vx_w() -> nat { $n }
    #[verifier::external_body] fn vx_to_be(self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_le(self) -> (r: Vec<u8>) { unimplemented!() }
  }
  #[verifier::external_body] pub fn $fb(b: [u8; $n]) -> (r: $t) ensures r == be(b@), be_bytes(r as int, $n) == b@ { unimplemented!() }
  #[verifier::external_body] pub fn $fl(b: [u8; $n]) -> (r: $t) ensures r == le(b@), le_bytes(r as int, $n) == b@ { unimplemented!() }
} } }
vxbytes!(u8, 1, A1, vx_u8_from_be, vx_u8_from_le);
vxbytes!(u16, 2, A2, vx_u16_from_be, vx_u16_from_le);
vxbytes!(u32, 4, A4, vx_u32_from_be, vx_u32_from_le);
vxbytes!(u64, 8, A8, vx_u64_from_be, vx_u64_from_le);
vxbytes!(usize, 8, A8, vx_usize_from_be, vx_usize_from_le);
#[verifier::external_body] pub fn vx_i16_from_le(b: [u8; 2]) -> (r: i16) ensures r == (if le(b@) < 0x8000 { le(b@) } else { le(b@) - 0x1_0000 }) { unimplemented!() }
pub proof fn lemma_be_bound(s: Seq<u8>) ensures 0 <= be(s) < ipow(256, s.len()) decreases s.len() { if s.len() > 0 { lemma_be_bound(s.drop_last()); } }
pub proof fn lemma_be_cat(a: Seq<u8>, b: Seq<u8>) ensures be(a + b) == be(a) * ipow(256, b.len()) + be(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_be_cat(a, b.drop_last());
        assert((be(a) * ipow(256, (b.len() - 1) as nat)) * 256 == be(a) * (256 * ipow(256, (b.len() - 1) as nat))) by (nonlinear_arith);
    }
}
/// The last k bytes hold the value modulo 256^k.
pub proof fn lemma_be_tail(s: Seq<u8>, k: int) requires 0 <= k <= s.len() ensures be(s.subrange(s.len() - k, s.len() as int)) == be(s) % ipow(256, k as nat) {
    let (a, b) = (s.subrange(0, s.len() - k), s.subrange(s.len() - k, s.len() as int));
    assert(a + b =~= s);
    lemma_be_cat(a, b); lemma_be_bound(b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(be(s), ipow(256, k as nat), be(a), be(b));
}
#[verifier::external_body]
#[derive(Debug)]
pub struct TryFromSliceError { x: u8 }
/// `&[u8]` to `[u8; N]` (an error when the length differs) or to itself.
pub trait VxFromSlice<'a>: Sized { spec fn fits(n: nat) -> bool; spec fn got(&self) -> Seq<u8>; }
impl<'a, const N: usize> VxFromSlice<'a> for [u8; N] { open spec fn fits(n: nat) -> bool { n == N } open spec fn got(&self) -> Seq<u8> { self@ } }
impl<'a> VxFromSlice<'a> for &'a [u8] { open spec fn fits(n: nat) -> bool { true } open spec fn got(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn vx_try_into<'a, T: VxFromSlice<'a>>(x: &'a [u8]) -> (r: Result<T, TryFromSliceError>)
    ensures r.is_ok() == T::fits(x@.len()), r.is_ok() ==> r->Ok_0.got() == x@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_copy_range<const N: usize>(d: &mut [u8; N], a: usize, b: usize, s: &[u8])
    requires a <= b <= N, s@.len() == b - a
    ensures final(d)@ == old(d)@.subrange(0, a as int) + s@ + old(d)@.subrange(b as int, N as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_copy_from<const N: usize>(d: &mut [u8; N], a: usize, s: &[u8])
    requires a <= N, s@.len() == N - a
    ensures final(d)@ == old(d)@.subrange(0, a as int) + s@ { unimplemented!() }

impl FE {
    /// Canonical big-endian bytes.
    #[verifier::external_body]
    pub fn to_bytes_be(&self) -> (r: Vec<u8>) ensures r@.len() == 32, be(r@) == rep(*self), r@ == be_bytes(rep(*self), 32) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bytes_le(&self) -> (r: Vec<u8>) ensures r@.len() == 32, le(r@) == rep(*self), r@ == le_bytes(rep(*self), 32) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Debug)]
pub struct ByteConversionError { x: u8 }
impl FE {
    /// The first 32 bytes, reduced modulo the prime; an error when there are fewer.
    #[verifier::external_body]
    pub fn from_bytes_be(b: &[u8]) -> (r: Result<FE, ByteConversionError>) ensures r.is_ok() == (b@.len() >= 32), r.is_ok() ==> congr(r->Ok_0@, be(b@.subrange(0, 32))) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes_le(b: &[u8]) -> (r: Result<FE, ByteConversionError>) ensures r.is_ok() == (b@.len() >= 32), r.is_ok() ==> congr(r->Ok_0@, le(b@.subrange(0, 32))) { unimplemented!() }
}
/// The bytes a field element is sent as: 32, big endian, canonical.
pub open spec fn fe_bytes(a: FE) -> Seq<u8> { be_bytes(rep(a), 32) }
