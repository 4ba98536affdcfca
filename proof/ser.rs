// ---- prelude: serialized forms ------------------------------------------------------------------
// A parser takes a byte string and returns a value and what is left, or nothing.
pub type R<T> = Option<(T, Seq<u8>)>;
#[derive(Debug)]
pub enum DeserializationError { InvalidAmountOfBytes, FieldFromBytesError }
/// FieldElement::from_bytes_be with its error converted as `?` does.
#[verifier::external_body]
pub fn vx_fe_from_be(b: &[u8]) -> (r: Result<FE, DeserializationError>) ensures r.is_ok() == (b@.len() >= 32), r.is_ok() ==> rep(r->Ok_0) == be(b@.subrange(0, 32)) % P() { unimplemented!() }
pub trait VxB { spec fn bs(&self) -> Seq<u8>; }
impl VxB for Vec<u8> { open spec fn bs(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxB for [u8; N] { open spec fn bs(&self) -> Seq<u8> { self@ } }
impl<T: VxB> VxB for &T { open spec fn bs(&self) -> Seq<u8> { (**self).bs() } }
#[verifier::external_body]
pub fn vx_extend<T: VxB>(d: &mut Vec<u8>, x: T) ensures final(d)@ == old(d)@ + x.bs() { unimplemented!() }
/// A count read from the input is no capacity: only a bounded one may be reserved ahead.
#[verifier::external_body]
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>) requires n <= 0x100_0000 ensures r@ == Seq::<T>::empty() { unimplemented!() }
pub fn vx_or<T>(a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a.is_some() { a } else { b }) { match a { Some(x) => Some(x), None => b } }
#[verifier::external_body]
pub fn vx_first<T>(x: &[T]) -> (r: Option<&T>) ensures r.is_some() == (x@.len() > 0), r.is_some() ==> *r->Some_0 == x@[0] { unimplemented!() }

pub open spec fn r_int(s: Seq<u8>, w: int) -> R<int> { if s.len() >= w { Some((be(s.subrange(0, w)), s.subrange(w, s.len() as int))) } else { None } }
pub open spec fn r_raw(s: Seq<u8>, w: int) -> R<Seq<u8>> { if s.len() >= w { Some((s.subrange(0, w), s.subrange(w, s.len() as int))) } else { None } }
pub open spec fn r_fe(s: Seq<u8>, w: int) -> R<int> { if s.len() >= w && w >= 32 { Some((be(s.subrange(0, 32)) % P(), s.subrange(w, s.len() as int))) } else { None } }
pub open spec fn r_list<T>(s: Seq<u8>, n: nat, f: spec_fn(Seq<u8>) -> R<T>) -> R<Seq<T>> decreases n {
    if n == 0 { Some((Seq::empty(), s)) } else {
        match f(s) { None => None, Some((x, r)) => match r_list(r, (n - 1) as nat, f) { None => None, Some((xs, q)) => Some((seq![x] + xs, q)) } }
    }
}
/// What a list parser returns when `acc` came before.
pub open spec fn pre<T>(acc: Seq<T>, r: R<Seq<T>>) -> R<Seq<T>> { match r { None => None, Some((xs, q)) => Some((acc + xs, q)) } }
pub proof fn lemma_pre0<T>(r: R<Seq<T>>) ensures pre(Seq::empty(), r) == r { if let Some((xs, q)) = r { assert(Seq::<T>::empty() + xs =~= xs); } }
pub proof fn lemma_step<T>(acc: Seq<T>, s: Seq<u8>, n: nat, f: spec_fn(Seq<u8>) -> R<T>) requires n > 0
    ensures match f(s) { None => r_list(s, n, f) == None::<(Seq<T>, Seq<u8>)>, Some((x, r)) => pre(acc, r_list(s, n, f)) == pre(acc.push(x), r_list(r, (n - 1) as nat, f)) }
{
    if let Some((x, r)) = f(s) { if let Some((xs, q)) = r_list(r, (n - 1) as nat, f) { assert(acc + (seq![x] + xs) =~= acc.push(x) + xs); } }
}
pub proof fn lemma_done<T>(acc: Seq<T>, s: Seq<u8>, f: spec_fn(Seq<u8>) -> R<T>) ensures pre(acc, r_list(s, 0, f)) == Some((acc, s)) { assert(acc + Seq::<T>::empty() =~= acc); }

pub open spec fn e_list<T>(xs: Seq<T>, e: spec_fn(T) -> Seq<u8>) -> Seq<u8> decreases xs.len() { if xs.len() == 0 { Seq::empty() } else { e_list(xs.drop_last(), e) + e(xs.last()) } }
pub proof fn lemma_e_next<T>(xs: Seq<T>, k: int, e: spec_fn(T) -> Seq<u8>) requires 0 <= k < xs.len()
    ensures e_list(xs.take(k + 1), e) == e_list(xs.take(k), e) + e(xs[k]) { assert(xs.take(k + 1).drop_last() =~= xs.take(k)); }
pub proof fn lemma_e_ends<T>(xs: Seq<T>, e: spec_fn(T) -> Seq<u8>, b: Seq<u8>) ensures e_list(xs.take(0), e) == Seq::<u8>::empty(), b + e_list(xs.take(0), e) == b, xs.take(xs.len() as int) == xs
{ assert(xs.take(xs.len() as int) =~= xs); assert(b + Seq::<u8>::empty() =~= b); }
pub proof fn lemma_e_front<T>(x: T, xs: Seq<T>, e: spec_fn(T) -> Seq<u8>) ensures e_list(seq![x] + xs, e) == e(x) + e_list(xs, e) decreases xs.len()
{
    reveal_with_fuel(e_list, 2);
    if xs.len() == 0 { assert(seq![x] + xs =~= seq![x]); assert(seq![x].drop_last() =~= Seq::<T>::empty()); assert(e_list(seq![x], e) =~= e(x)); assert(e(x) + Seq::<u8>::empty() =~= e(x)); }
    else {
        let ys = seq![x] + xs;
        assert(ys.drop_last() =~= seq![x] + xs.drop_last()); assert(ys.last() == xs.last());
        lemma_e_front(x, xs.drop_last(), e);
        assert(e(x) + e_list(xs.drop_last(), e) + e(xs.last()) =~= e(x) + (e_list(xs.drop_last(), e) + e(xs.last())));
    }
}
/// `f` reads back what `e` wrote for x, whatever follows.
pub open spec fn reads<T>(x: T, e: spec_fn(T) -> Seq<u8>, f: spec_fn(Seq<u8>) -> R<T>) -> bool { forall|r: Seq<u8>| #[trigger] f(e(x) + r) == Some((x, r)) }
pub proof fn lemma_list_back<T>(xs: Seq<T>, e: spec_fn(T) -> Seq<u8>, f: spec_fn(Seq<u8>) -> R<T>, rest: Seq<u8>)
    requires forall|i: int| 0 <= i < xs.len() ==> reads(#[trigger] xs[i], e, f)
    ensures r_list(e_list(xs, e) + rest, xs.len(), f) == Some((xs, rest)) decreases xs.len()
{
    if xs.len() == 0 { assert(Seq::<u8>::empty() + rest =~= rest); assert(xs =~= Seq::empty()); }
    else {
        let x = xs[0]; let ys = xs.drop_first();
        assert(seq![x] + ys =~= xs);
        lemma_e_front(x, ys, e);
        assert(forall|i: int| 0 <= i < ys.len() ==> ys[i] == xs[i + 1]);
        lemma_list_back(ys, e, f, rest);
        assert(e(x) + e_list(ys, e) + rest =~= e(x) + (e_list(ys, e) + rest));
        assert(reads(x, e, f));
    }
}
pub open spec fn be8(n: int) -> Seq<u8> { be_bytes(n, 8) }
pub proof fn lemma_int_back(n: int, w: nat, rest: Seq<u8>) requires 0 <= n < ipow(256, w) ensures r_int(be_bytes(n, w) + rest, w as int) == Some((n, rest))
{
    axiom_be_bytes(n, w); let s = be_bytes(n, w) + rest;
    assert(s.subrange(0, w as int) =~= be_bytes(n, w)); assert(s.subrange(w as int, s.len() as int) =~= rest);
}
pub proof fn lemma_int_back8(n: int, rest: Seq<u8>) requires 0 <= n < 0x1_0000_0000_0000_0000 ensures r_int(be8(n) + rest, 8) == Some((n, rest))
{ assert(ipow(256, 8) == 0x1_0000_0000_0000_0000) by (compute); lemma_int_back(n, 8, rest); }
pub open spec fn fe_ok(x: int) -> bool { 0 <= x < P() }
pub open spec fn e_felt(x: int) -> Seq<u8> { be_bytes(x, 32) }
pub proof fn lemma_fe_back(x: int, rest: Seq<u8>) requires fe_ok(x) ensures r_fe(e_felt(x) + rest, 32) == Some((x, rest))
{
    broadcast use axiom_P;
    lemma_p_bytes(); axiom_be_bytes(x, 32); let s = e_felt(x) + rest;
    assert(s.subrange(0, 32) =~= e_felt(x)); assert(s.subrange(32, s.len() as int) =~= rest);
    vstd::arithmetic::div_mod::lemma_small_mod(x as nat, P() as nat);
}
pub proof fn lemma_raw_back(h: Seq<u8>, rest: Seq<u8>) ensures r_raw(h + rest, h.len() as int) == Some((h, rest))
{ let s = h + rest; assert(s.subrange(0, h.len() as int) =~= h); assert(s.subrange(h.len() as int, s.len() as int) =~= rest); }
pub open spec fn f_hash() -> spec_fn(Seq<u8>) -> R<Seq<u8>> { |s: Seq<u8>| r_raw(s, 32) }
pub open spec fn f_felt(w: int) -> spec_fn(Seq<u8>) -> R<int> { |s: Seq<u8>| r_fe(s, w) }
pub open spec fn f_path() -> spec_fn(Seq<u8>) -> R<Seq<Seq<u8>>> { |s: Seq<u8>| r_path(s) }
pub open spec fn w_hash() -> spec_fn(Seq<u8>) -> Seq<u8> { |h: Seq<u8>| h }
pub open spec fn w_felt() -> spec_fn(int) -> Seq<u8> { |x: int| e_felt(x) }
pub open spec fn w_path() -> spec_fn(Seq<Seq<u8>>) -> Seq<u8> { |p: Seq<Seq<u8>>| e_path(p) }
pub open spec fn r_path(s: Seq<u8>) -> R<Seq<Seq<u8>>> { match r_int(s, 8) { None => None, Some((n, r)) => r_list(r, n as nat, f_hash()) } }
pub open spec fn e_path(p: Seq<Seq<u8>>) -> Seq<u8> { be8(p.len() as int) + e_list(p, w_hash()) }
pub open spec fn cnt(n: int) -> bool { 0 <= n < 0x1_0000_0000_0000_0000 }
pub open spec fn hashes_ok(p: Seq<Seq<u8>>) -> bool { cnt(p.len() as int) && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() == 32 }
pub open spec fn felts_ok(p: Seq<int>) -> bool { cnt(p.len() as int) && forall|i: int| 0 <= i < p.len() ==> fe_ok(#[trigger] p[i]) }
pub open spec fn paths_ok(p: Seq<Seq<Seq<u8>>>) -> bool { cnt(p.len() as int) && forall|i: int| 0 <= i < p.len() ==> hashes_ok(#[trigger] p[i]) }
pub proof fn lemma_hashes_back(p: Seq<Seq<u8>>, rest: Seq<u8>) requires hashes_ok(p) ensures r_list(e_list(p, w_hash()) + rest, p.len(), f_hash()) == Some((p, rest))
{
    assert forall|i: int| 0 <= i < p.len() implies reads(#[trigger] p[i], w_hash(), f_hash()) by {
        assert forall|r: Seq<u8>| #[trigger] f_hash()(w_hash()(p[i]) + r) == Some((p[i], r)) by { lemma_raw_back(p[i], r); }
    }
    lemma_list_back(p, w_hash(), f_hash(), rest);
}
pub proof fn lemma_felts_back(p: Seq<int>, rest: Seq<u8>) requires felts_ok(p) ensures r_list(e_list(p, w_felt()) + rest, p.len(), f_felt(32)) == Some((p, rest))
{
    assert forall|i: int| 0 <= i < p.len() implies reads(#[trigger] p[i], w_felt(), f_felt(32)) by {
        assert forall|r: Seq<u8>| #[trigger] f_felt(32)(w_felt()(p[i]) + r) == Some((p[i], r)) by { lemma_fe_back(p[i], r); }
    }
    lemma_list_back(p, w_felt(), f_felt(32), rest);
}
pub proof fn lemma_path_back(p: Seq<Seq<u8>>, rest: Seq<u8>) requires hashes_ok(p) ensures r_path(e_path(p) + rest) == Some((p, rest))
{
    let t = e_list(p, w_hash());
    assert(e_path(p) + rest =~= be8(p.len() as int) + (t + rest));
    lemma_int_back8(p.len() as int, t + rest);
    lemma_hashes_back(p, rest);
}
pub proof fn lemma_paths_back(p: Seq<Seq<Seq<u8>>>, rest: Seq<u8>) requires paths_ok(p) ensures r_list(e_list(p, w_path()) + rest, p.len(), f_path()) == Some((p, rest))
{
    assert forall|i: int| 0 <= i < p.len() implies reads(#[trigger] p[i], w_path(), f_path()) by {
        assert forall|r: Seq<u8>| #[trigger] f_path()(w_path()(p[i]) + r) == Some((p[i], r)) by { lemma_path_back(p[i], r); }
    }
    lemma_list_back(p, w_path(), f_path(), rest);
}
pub axiom fn lemma_p_bytes() ensures P() <= ipow(256, 32);
pub open spec fn v_paths(v: Seq<Proof>) -> Seq<Seq<Seq<u8>>> { Seq::new(v.len(), |i: int| hashes(v[i].merkle_path@)) }
pub proof fn lemma_hashes_push(v: Seq<[u8; 32]>, x: [u8; 32]) ensures hashes(v.push(x)) == hashes(v).push(x@) { assert(hashes(v.push(x)) =~= hashes(v).push(x@)); }
pub proof fn lemma_reps_push(v: Seq<FE>, x: FE) ensures reps(v.push(x)) == reps(v).push(rep(x)) { assert(reps(v.push(x)) =~= reps(v).push(rep(x))); }
pub proof fn lemma_paths_push(v: Seq<Proof>, x: Proof) ensures v_paths(v.push(x)) == v_paths(v).push(hashes(x.merkle_path@)) { assert(v_paths(v.push(x)) =~= v_paths(v).push(hashes(x.merkle_path@))); }
