// ---- prelude: hash maps -------------------------------------------------------------------
// VxMap stands for HashMap.  Its view is a map from key identity (an integer the key type
// determines; equal keys have equal identities) to values.
pub trait VxKey: Sized { spec fn k(&self) -> int; }
impl VxKey for FE { open spec fn k(&self) -> int { rep(*self) } }
impl VxKey for u64 { open spec fn k(&self) -> int { *self as int } }
impl VxKey for usize { open spec fn k(&self) -> int { *self as int } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<K: VxKey, V> View for VxMap<K, V> { type V = Map<int, V>; uninterp spec fn view(&self) -> Map<int, V>; }
impl<K: VxKey, V> VxMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<int, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<int, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(k.k()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r.is_some() == self@.dom().contains(k.k()), r.is_some() ==> *r.unwrap() == self@[k.k()] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.k(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), self@.dom().finite() { unimplemented!() }
}
impl<K: VxKey, V> Clone for VxMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// The keys, each once, in some order.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct VxKeys<K> { x: std::marker::PhantomData<K> }
impl<K> View for VxKeys<K> { type V = Seq<K>; uninterp spec fn view(&self) -> Seq<K>; }
pub open spec fn keys_of<K: VxKey, V>(ks: Seq<K>, m: Map<int, V>) -> bool {
    (forall|i: int| 0 <= i < ks.len() ==> m.dom().contains((#[trigger] ks[i]).k()))
    && (forall|k: int| m.dom().contains(k) ==> exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).k() == k)
    && (forall|i: int, j: int| 0 <= i < j < ks.len() ==> ks[i].k() != ks[j].k())
}
impl<K: VxKey, V> VxMap<K, V> {
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VxKeys<K>) ensures keys_of(r@, self@), r@.len() == self@.dom().len() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_extend_keys<K>(v: &mut Vec<K>, ks: VxKeys<K>) ensures final(v)@ == old(v)@ + ks@ { unimplemented!() }
