// ---- prelude: field elements and std helpers -------------------------------------------
// FE stands for FieldElement<F> of any prime field the code is used with.  Its view is an
// integer that represents the element (a ghost lift); the field value is that integer modulo
// P().  +, -, * act exactly on lifts, comparison sees only the residue.
use std::ops::{Add, Mul, Neg, Sub};

pub uninterp spec fn P() -> int;
pub broadcast axiom fn axiom_P() ensures #[trigger] P() > 0x1_0000_0000_0000_0000_0000_0000_0000_0000;

#[verifier::external_body]
pub struct FE { x: u64 }
impl Clone for FE { #[verifier::external_body] fn clone(&self) -> (r: FE) ensures r == *self { unimplemented!() } }
impl Copy for FE {}
impl View for FE { type V = int; uninterp spec fn view(&self) -> int; }

/// The canonical representative of an element.
pub open spec fn rep(a: FE) -> int { a@ % P() }
pub open spec fn congr(a: int, b: int) -> bool { a % P() == b % P() }
pub open spec fn feq(a: FE, b: FE) -> bool { congr(a@, b@) }

macro_rules! binop { ($Tr:ident, $SpecTr:ident, $f:ident, $req:ident, $obeys:ident, $spec:ident, $l:ty, $r:ty, $op:tt) => {
  verus! {
    impl vstd::std_specs::ops::$SpecTr<$r> for $l {
       open spec fn $obeys() -> bool { false }
       open spec fn $req(self, rhs: $r) -> bool { true }
       open spec fn $spec(self, rhs: $r) -> FE { arbitrary() }
    }
    impl $Tr<$r> for $l { type Output = FE;
       #[verifier::external_body]
       fn $f(self, rhs: $r) -> (res: FE) ensures res@ == self@ $op rhs@ { unimplemented!() }
    }
  }
} }
binop!(Add, AddSpecImpl, add, add_req, obeys_add_spec, add_spec, FE, FE, +);
binop!(Add, AddSpecImpl, add, add_req, obeys_add_spec, add_spec, FE, &FE, +);
binop!(Add, AddSpecImpl, add, add_req, obeys_add_spec, add_spec, &FE, FE, +);
binop!(Add, AddSpecImpl, add, add_req, obeys_add_spec, add_spec, &FE, &FE, +);
binop!(Sub, SubSpecImpl, sub, sub_req, obeys_sub_spec, sub_spec, FE, FE, -);
binop!(Sub, SubSpecImpl, sub, sub_req, obeys_sub_spec, sub_spec, FE, &FE, -);
binop!(Sub, SubSpecImpl, sub, sub_req, obeys_sub_spec, sub_spec, &FE, FE, -);
binop!(Sub, SubSpecImpl, sub, sub_req, obeys_sub_spec, sub_spec, &FE, &FE, -);
binop!(Mul, MulSpecImpl, mul, mul_req, obeys_mul_spec, mul_spec, FE, FE, *);
binop!(Mul, MulSpecImpl, mul, mul_req, obeys_mul_spec, mul_spec, FE, &FE, *);
binop!(Mul, MulSpecImpl, mul, mul_req, obeys_mul_spec, mul_spec, &FE, FE, *);
binop!(Mul, MulSpecImpl, mul, mul_req, obeys_mul_spec, mul_spec, &FE, &FE, *);

macro_rules! negop { ($t:ty) => { verus! {
    impl vstd::std_specs::ops::NegSpecImpl for $t {
       open spec fn obeys_neg_spec() -> bool { false }
       open spec fn neg_req(self) -> bool { true }
       open spec fn neg_spec(self) -> FE { arbitrary() }
    }
    impl Neg for $t { type Output = FE;
       #[verifier::external_body]
       fn neg(self) -> (res: FE) ensures res@ == -self@ { unimplemented!() }
    }
} } }
negop!(FE);
negop!(&FE);

impl vstd::std_specs::cmp::PartialEqSpecImpl for FE {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &FE) -> bool { congr(self@, other@) }
}
impl PartialEq for FE { #[verifier::external_body] fn eq(&self, other: &FE) -> (r: bool) { unimplemented!() } }
impl Eq for FE {}

pub open spec fn ipow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) } }

pub trait Exp: Sized { spec fn e(&self) -> nat; }
impl Exp for u64 { open spec fn e(&self) -> nat { *self as nat } }
impl Exp for u32 { open spec fn e(&self) -> nat { *self as nat } }
impl Exp for usize { open spec fn e(&self) -> nat { *self as nat } }
impl Exp for u128 { open spec fn e(&self) -> nat { *self as nat } }

#[verifier::external_body]
#[derive(Debug)]
pub struct HexErr { x: u8 }
pub open spec fn hexdigit(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int } else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 }
    else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 } else { 0 }
}
/// Value of a string of hexadecimal digits.
pub open spec fn hexval(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { hexval(s.drop_last()) * 16 + hexdigit(s.last()) } }

impl FE {
    #[verifier::external_body]
    pub fn zero() -> (r: FE) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: FE) ensures r@ == 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn from(x: u64) -> (r: FE) ensures r@ == x as int { unimplemented!() }
    #[verifier::external_body]
    pub fn from_hex(s: &str) -> (r: Result<FE, HexErr>) ensures r.is_ok() && r.unwrap()@ == hexval(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn pow<T: Exp>(&self, e: T) -> (r: FE) ensures r@ == ipow(self@, e.e()) { unimplemented!() }
    #[verifier::external_body]
    pub fn square(&self) -> (r: FE) ensures r@ == self@ * self@ { unimplemented!() }
    /// Inverting zero panics.
    #[verifier::external_body]
    pub fn inv(&self) -> (r: FE) requires !congr(self@, 0) ensures congr(self@ * r@, 1) { unimplemented!() }
    /// Replaces every element by its inverse; panics if one is zero.
    #[verifier::external_body]
    pub fn inplace_batch_inverse(v: &mut Vec<FE>)
        requires forall|i: int| #![auto] 0 <= i < old(v)@.len() ==> !congr(old(v)@[i]@, 0)
        ensures final(v)@.len() == old(v)@.len(),
            forall|i: int| 0 <= i < old(v)@.len() ==> congr(#[trigger] final(v)@[i]@ * old(v)@[i]@, 1)
    { unimplemented!() }
}

// ---- std helpers ------------------------------------------------------------------------
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }
/// A refusal the property allows: does not return.
#[verifier::external_body]
pub fn vx_refuse() -> ! ensures false { panic!() }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vx_sat_sub(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }
pub fn vx_div_up(a: usize, b: usize) -> (r: usize) requires b > 0
    ensures r as int == (a + b - 1) / (b as int), r as int * b as int >= a, r > 0 ==> (r - 1) * b < a
{
    proof {
        let (x, y) = (a as int, b as int);
        assert(x == y * (x / y) + x % y && 0 <= x % y < y) by (nonlinear_arith) requires y > 0;
        assert((x + y - 1) / y == x / y + (if x % y > 0 { 1int } else { 0int })) by (nonlinear_arith)
            requires x == y * (x / y) + x % y, 0 <= x % y < y, y > 0, x >= 0;
        assert(x / y <= x) by (nonlinear_arith) requires x >= 0, y > 0;
        assert(x % y > 0 ==> x / y < x) by (nonlinear_arith) requires x >= 0, y > 0, x == y * (x / y) + x % y;
        assert((x / y) * y == y * (x / y)) by (nonlinear_arith);
        assert((x / y + 1) * y == y * (x / y) + y) by (nonlinear_arith);
        assert((x / y - 1) * y == y * (x / y) - y) by (nonlinear_arith);
    }
    if a % b > 0 { a / b + 1 } else { a / b }
}
/// Keys `unique_by` compares.
pub trait VxIdent: Sized { spec fn key(&self) -> int; fn vx_same(&self, o: &Self) -> (r: bool) ensures r == (self.key() == o.key()); }
impl VxIdent for usize { open spec fn key(&self) -> int { *self as int } fn vx_same(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VxIdent for &usize { open spec fn key(&self) -> int { **self as int } fn vx_same(&self, o: &Self) -> (r: bool) { **self == **o } }
/// Whether a key is among the keys seen (the memory of `unique_by`).
pub fn vx_has<K: VxIdent>(v: &Vec<K>, k: &K) -> (r: bool) ensures r == (exists|j: int| 0 <= j < v@.len() && (#[trigger] v@[j]).key() == k.key()) {
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]).key() != k.key() decreases v@.len() - i {
        if v[i].vx_same(k) { assert(v@[i as int].key() == k.key()); return true; }
        i = i + 1;
    }
    false
}
#[verifier::external_body]
pub fn vx_slice<T>(x: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= x@.len() ensures r@ == x@.subrange(a as int, b as int) { &x[a..b] }
#[verifier::external_body]
pub fn vx_slice_from<T>(x: &[T], a: usize) -> (r: &[T]) requires a <= x@.len() ensures r@ == x@.subrange(a as int, x@.len() as int) { &x[a..] }
#[verifier::external_body]
pub fn vx_slice_to<T>(x: &[T], b: usize) -> (r: &[T]) requires b <= x@.len() ensures r@ == x@.subrange(0, b as int) { &x[..b] }
#[verifier::external_body]
pub fn vx_get_range<T>(x: &[T], a: usize, b: usize) -> (r: Option<&[T]>)
    ensures r.is_some() == (a <= b <= x@.len()), r.is_some() ==> r.unwrap()@ == x@.subrange(a as int, b as int) { x.get(a..b) }
#[verifier::external_body]
pub fn vx_get_from<T>(x: &[T], a: usize) -> (r: Option<&[T]>)
    ensures r.is_some() == (a <= x@.len()), r.is_some() ==> r.unwrap()@ == x@.subrange(a as int, x@.len() as int) { x.get(a..) }
#[verifier::external_body]
pub fn vx_get_to<T>(x: &[T], b: usize) -> (r: Option<&[T]>)
    ensures r.is_some() == (b <= x@.len()), r.is_some() ==> r.unwrap()@ == x@.subrange(0, b as int) { x.get(..b) }
/// vec![x; n]; every element type used here has a structural clone.
#[verifier::external_body]
pub fn vx_vec_from_elem<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { vec![x; n] }
#[verifier::external_body]
pub fn vx_last<T>(x: &[T]) -> (r: Option<&T>) ensures r.is_some() == (x@.len() > 0), r.is_some() ==> *r.unwrap() == x@.last() { x.last() }
#[verifier::external_body]
pub fn vx_max(x: &[usize]) -> (r: Option<&usize>)
    ensures r.is_some() == (x@.len() > 0), r.is_some() ==> x@.contains(*r.unwrap()) && forall|i: int| 0 <= i < x@.len() ==> x@[i] <= *r.unwrap() { x.iter().max() }
/// Copies a slice; every element type used here has a structural clone.
pub assume_specification<T: Clone>[<[T]>::to_vec](x: &[T]) -> (r: Vec<T>) ensures r@ == x@;
pub fn vx_some_or<T>(x: Option<T>, d: T) -> (r: T) ensures r == (match x { Some(v) => v, None => d }) { match x { Some(v) => v, None => d } }
