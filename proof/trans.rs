// ---- prelude: transcript and Merkle commitments --------------------------------------------------
/// What happened to a transcript: messages in, challenges out.
pub enum Ev { App(Seq<u8>), Smp }
/// The challenge a transcript with this history hands out.
pub uninterp spec fn digest(log: Seq<Ev>) -> Seq<u8>;
#[verifier::external_body]
pub struct VxTranscript { x: u8 }
impl VxTranscript {
    pub uninterp spec fn log(&self) -> Seq<Ev>;
    #[verifier::external_body]
    pub fn append(&mut self, b: &[u8]) ensures final(self).log() == old(self).log().push(Ev::App(b@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn challenge(&mut self) -> (r: [u8; 32]) ensures r@ == digest(old(self).log()), final(self).log() == old(self).log().push(Ev::Smp) { unimplemented!() }
}
/// Bits needed for the field's largest element.
pub uninterp spec fn field_bits() -> int;
/// The field element read from challenge bytes: the low field_bits() - 1 bits.
pub open spec fn field_of(h: Seq<u8>) -> int { be(h) % ipow(2, (field_bits() - 1) as nat) }
/// The index read from challenge bytes: the first eight bytes, big endian.
pub open spec fn index_of(h: Seq<u8>) -> int { be(h.subrange(0, 8)) }
/// Root of the tree over these leaves; whether a path opens a root at a position to a leaf.
pub uninterp spec fn merkle_root(leaves: Seq<Seq<int>>) -> Seq<u8>;
pub uninterp spec fn opens(path: Seq<Seq<u8>>, root: Seq<u8>, pos: int, leaf: Seq<int>) -> bool;
pub open spec fn reps(v: Seq<FE>) -> Seq<int> { Seq::new(v.len(), |i: int| rep(v[i])) }
pub open spec fn hashes(v: Seq<[u8; 32]>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
pub type Commitment = [u8; 32];
pub struct Proof { pub merkle_path: Vec<Commitment> }
impl Clone for Proof { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct MerkleTree<D> { pub root: Commitment, pub leaves: Ghost<Seq<Seq<int>>>, pub d: Ghost<Option<D>> }
impl<D> Clone for MerkleTree<D> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub trait VxLeaf { spec fn leaf(&self) -> Seq<int>; }
impl VxLeaf for FE { open spec fn leaf(&self) -> Seq<int> { seq![rep(*self)] } }
impl VxLeaf for Vec<FE> { open spec fn leaf(&self) -> Seq<int> { reps(self@) } }
impl VxLeaf for &Vec<FE> { open spec fn leaf(&self) -> Seq<int> { reps(self@) } }
pub type FriMerkleTree = MerkleTree<FE>;
pub type BatchedMerkleTree = MerkleTree<Vec<FE>>;
/// A tree built by `build`.
pub open spec fn tree_of<D>(t: MerkleTree<D>, leaves: Seq<Seq<int>>) -> bool { t.leaves@ == leaves && t.root@ == merkle_root(leaves) }
/// A path through a full tree over this many leaves has one node per level.
pub open spec fn path_fits(p: Proof, leaves: int) -> bool { is_pow2(leaves) && leaves >= 2 ==> p.merkle_path@.len() == log2(leaves) }
/// A path decides only as many bits of the position as it has nodes.
pub axiom fn axiom_opens_mod(path: Seq<Seq<u8>>, root: Seq<u8>, pos: int, leaf: Seq<int>) requires pos >= 0 ensures opens(path, root, pos, leaf) == opens(path, root, pos % ipow(2, path.len()), leaf);
impl<D: VxLeaf> MerkleTree<D> {
    #[verifier::external_body]
    pub fn build(v: &[D]) -> (r: Self) ensures tree_of(r, Seq::new(v@.len(), |i: int| v@[i].leaf())) { unimplemented!() }
    /// The path of an existing leaf; it opens the tree's root.
    #[verifier::external_body]
    pub fn get_proof_by_pos(&self, pos: usize) -> (r: Option<Proof>)
        ensures pos < self.leaves@.len() ==> r.is_some(), r.is_some() ==> path_fits(r->Some_0, self.leaves@.len() as int),
            r.is_some() && pos < self.leaves@.len() && self.root@ == merkle_root(self.leaves@) ==> opens(hashes(r->Some_0.merkle_path@), self.root@, pos as int, self.leaves@[pos as int])
    { unimplemented!() }
}
impl Proof {
    #[verifier::external_body]
    pub fn vx_verify<D: VxLeaf>(&self, root: &Commitment, pos: usize, leaf: &D) -> (r: bool) ensures r == opens(hashes(self.merkle_path@), root@, pos as int, leaf.leaf()) { unimplemented!() }
}
pub struct Fld {}
pub broadcast axiom fn axiom_field_bits() ensures 130 <= #[trigger] field_bits() <= 256;
#[verifier::external_body]
pub const fn vx_two_adicity() -> (r: u64) ensures r == two_adicity() { 0 }
impl Fld {
    /// Largest k for which the field has a 2^k-th root of unity.
    pub exec const TWO_ADICITY: u64 ensures Fld::TWO_ADICITY == two_adicity() { vx_two_adicity() }
    #[verifier::external_body]
    pub fn field_bit_size() -> (r: usize) ensures r == field_bits(), 130 <= r <= 256 { unimplemented!() }
    /// The generator of the subgroup of order 2^k (k at least one).
    #[verifier::external_body]
    pub fn get_primitive_root_of_unity(k: u64) -> (r: Result<FE, FFTError>) ensures r.is_ok() == (1 <= k <= two_adicity()), r.is_ok() ==> r->Ok_0@ == omega(k as int) { unimplemented!() }
}
#[verifier::external_body]
pub fn get_powers_of_primitive_root_coset(k: u64, count: usize, offset: &FE) -> (r: Result<Vec<FE>, FFTError>)
    ensures r.is_ok() == (1 <= k <= two_adicity()), r.is_ok() ==> r->Ok_0@.len() == count && forall|i: int| 0 <= i < count ==> congr((#[trigger] r->Ok_0@[i])@, offset@ * ipow(omega(k as int), i as nat)) { unimplemented!() }
pub assume_specification[u8::checked_shl](x: u8, n: u32) -> (r: Option<u8>) ensures r.is_some() == (n < 8), r.is_some() ==> r->Some_0 == x << n;
/// The transcript after k challenges in a row.
pub open spec fn samples(log: Seq<Ev>, k: int) -> Seq<Ev> decreases k { if k <= 0 { log } else { samples(log, k - 1).push(Ev::Smp) } }
pub open spec fn in_domains(v: int, a: Seq<FE>, b: Seq<FE>) -> bool { (exists|i: int| 0 <= i < a.len() && congr(v, (#[trigger] a[i])@)) || (exists|i: int| 0 <= i < b.len() && congr(v, (#[trigger] b[i])@)) }
/// Challenge number k is the first outside both domains.
pub open spec fn first_outside(log: Seq<Ev>, k: int, a: Seq<FE>, b: Seq<FE>) -> bool {
    k >= 0 && !in_domains(field_of(digest(samples(log, k))), a, b) && forall|j: int| 0 <= j < k ==> in_domains(#[trigger] field_of(digest(samples(log, j))), a, b)
}
