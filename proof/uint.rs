// ---- prelude: representatives (multi-limb unsigned integers) ----------------------------------
// UnsignedInteger stands for the representative type; its view is the integer it denotes.
#[verifier::external_body]
pub struct UnsignedInteger<const N: usize> { x: u64 }
impl<const N: usize> Clone for UnsignedInteger<N> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<const N: usize> Copy for UnsignedInteger<N> {}
impl<const N: usize> View for UnsignedInteger<N> { type V = int; uninterp spec fn view(&self) -> int; }
#[verifier::external_body]
pub proof fn axiom_uint<const N: usize>(x: UnsignedInteger<N>) ensures x@ >= 0 { }
impl<const N: usize> UnsignedInteger<N> {
    #[verifier::external_body]
    pub fn from_hex(s: &str) -> (r: Result<Self, HexErr>) ensures r.is_ok() && r.unwrap()@ == hexval(s@) { unimplemented!() }
}
impl FE {
    #[verifier::external_body]
    pub fn representative(&self) -> (r: UnsignedInteger<4>) ensures r@ == rep(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_uint(x: &UnsignedInteger<4>) -> (r: FE) ensures congr(r@, x@) { unimplemented!() }
}
/// u16::from of a representative keeps its low 16 bits.
#[verifier::external_body]
pub fn vx_u16_from(x: UnsignedInteger<4>) -> (r: u16) ensures r == x@ % 0x1_0000 { unimplemented!() }
impl<const N: usize> vstd::std_specs::ops::BitAndSpecImpl<UnsignedInteger<N>> for UnsignedInteger<N> {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: UnsignedInteger<N>) -> bool { true }
    open spec fn bitand_spec(self, rhs: UnsignedInteger<N>) -> UnsignedInteger<N> { arbitrary() }
}
impl<const N: usize> std::ops::BitAnd<UnsignedInteger<N>> for UnsignedInteger<N> { type Output = UnsignedInteger<N>;
    #[verifier::external_body]
    fn bitand(self, rhs: UnsignedInteger<N>) -> (r: UnsignedInteger<N>) ensures is_pow2(rhs@ + 1) ==> r@ == self@ % (rhs@ + 1) { unimplemented!() }
}
impl<const N: usize> vstd::std_specs::ops::ShrSpecImpl<usize> for UnsignedInteger<N> {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, rhs: usize) -> bool { true }
    open spec fn shr_spec(self, rhs: usize) -> UnsignedInteger<N> { arbitrary() }
}
impl<const N: usize> std::ops::Shr<usize> for UnsignedInteger<N> { type Output = UnsignedInteger<N>;
    #[verifier::external_body]
    fn shr(self, rhs: usize) -> (r: UnsignedInteger<N>) ensures r@ == self@ / ipow(2, rhs as nat) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_to_array<T, const N: usize>(v: Vec<T>) -> (r: Option<[T; N]>) ensures r.is_some() == (v@.len() == N), r.is_some() ==> r.unwrap()@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_sort_u16(v: &mut Vec<u16>) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(),
    forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> final(v)@[i] <= final(v)@[j] { v.sort() }
pub proof fn lemma_same_elems(a: Seq<u16>, b: Seq<u16>)
    requires a.to_multiset() == b.to_multiset()
    ensures forall|x: u16| a.contains(x) == b.contains(x)
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|x: u16| a.contains(x) == b.contains(x) by { assert(a.contains(x) == (a.to_multiset().count(x) > 0)); assert(b.contains(x) == (b.to_multiset().count(x) > 0)); }
}
impl<const N: usize> vstd::std_specs::cmp::PartialEqSpecImpl for UnsignedInteger<N> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self@ == other@ }
}
impl<const N: usize> PartialEq for UnsignedInteger<N> { #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() } }
impl<const N: usize> vstd::std_specs::cmp::PartialOrdSpecImpl for UnsignedInteger<N> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> { Some(if self@ < other@ { core::cmp::Ordering::Less } else if self@ == other@ { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) }
}
impl<const N: usize> PartialOrd for UnsignedInteger<N> { #[verifier::external_body] fn partial_cmp(&self, other: &Self) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
pub open spec fn ucmp(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
impl<const N: usize> UnsignedInteger<N> {
    #[verifier::external_body]
    pub fn vx_cmp(&self, o: &Self) -> (r: core::cmp::Ordering) ensures r == ucmp(self@, o@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_uint_from(x: u64) -> (r: UnsignedInteger<4>) ensures r@ == x { unimplemented!() }
/// Stable sort of field elements by a key, which has to be the representative.
#[verifier::external_body]
pub fn vx_sort_by_key<F: Fn(&FE) -> UnsignedInteger<4>>(v: &mut Vec<FE>, f: F)
    requires forall|x: FE| f.requires((&x,)), forall|x: FE, a: UnsignedInteger<4>| #[trigger] f.ensures((&x,), a) ==> a@ == rep(x),
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), sorted_reps(final(v)@),
{ unimplemented!() }
/// Stable sort of pairs by a comparison, which has to be that of the first components' representatives.
#[verifier::external_body]
pub fn vx_sort_by<F: Fn(&(FE, FE), &(FE, FE)) -> core::cmp::Ordering>(v: &mut Vec<(FE, FE)>, f: F)
    requires forall|x: (FE, FE), y: (FE, FE)| f.requires((&x, &y)), forall|x: (FE, FE), y: (FE, FE), o: core::cmp::Ordering| #[trigger] f.ensures((&x, &y), o) ==> o == ucmp(rep(x.0), rep(y.0)),
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(),
        forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> rep(final(v)@[i].0) <= rep(final(v)@[j].0),
{ unimplemented!() }
pub open spec fn sorted_reps(s: Seq<FE>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> rep(s[i]) <= rep(s[j]) }
pub open spec fn listed(s: Seq<FE>, v: int) -> bool { exists|i: int| 0 <= i < s.len() && rep(#[trigger] s[i]) == v }
