// ---- prelude: polynomial arithmetic by value ------------------------------------------------------
pub open spec fn sum_len(a: nat, b: nat) -> nat { if a > b { a } else { b } }
pub open spec fn mul_len(a: nat, b: nat) -> nat { if a == 0 || b == 0 { 0 } else { (a + b - 1) as nat } }
macro_rules! poly_poly { ($Tr:ident, $SpecTr:ident, $f:ident, $req:ident, $obeys:ident, $spec:ident, $l:ty, $r:ty, $op:tt, $len:ident) => {
  verus! {
    impl vstd::std_specs::ops::$SpecTr<$r> for $l {
       open spec fn $obeys() -> bool { false }
       open spec fn $req(self, rhs: $r) -> bool { true }
       open spec fn $spec(self, rhs: $r) -> Polynomial<FE> { arbitrary() }
    }
    impl $Tr<$r> for $l { type Output = Polynomial<FE>;
       #[verifier::external_body]
       fn $f(self, rhs: $r) -> (res: Polynomial<FE>)
           ensures forall|x: int| congr(#[trigger] peval(res@, x), peval(self@, x) $op peval(rhs@, x)), res@.len() <= $len(self@.len(), rhs@.len()) { unimplemented!() }
    }
  }
} }
macro_rules! poly_const { ($Tr:ident, $SpecTr:ident, $f:ident, $req:ident, $obeys:ident, $spec:ident, $l:ty, $r:ty, $op:tt, $len:ident) => {
  verus! {
    impl vstd::std_specs::ops::$SpecTr<$r> for $l {
       open spec fn $obeys() -> bool { false }
       open spec fn $req(self, rhs: $r) -> bool { true }
       open spec fn $spec(self, rhs: $r) -> Polynomial<FE> { arbitrary() }
    }
    impl $Tr<$r> for $l { type Output = Polynomial<FE>;
       #[verifier::external_body]
       fn $f(self, rhs: $r) -> (res: Polynomial<FE>)
           ensures forall|x: int| congr(#[trigger] peval(res@, x), peval(self@, x) $op rhs@), res@.len() <= $len(self@.len(), 1) { unimplemented!() }
    }
  }
} }
macro_rules! const_poly { ($Tr:ident, $SpecTr:ident, $f:ident, $req:ident, $obeys:ident, $spec:ident, $l:ty, $r:ty, $op:tt, $len:ident) => {
  verus! {
    impl vstd::std_specs::ops::$SpecTr<$r> for $l {
       open spec fn $obeys() -> bool { false }
       open spec fn $req(self, rhs: $r) -> bool { true }
       open spec fn $spec(self, rhs: $r) -> Polynomial<FE> { arbitrary() }
    }
    impl $Tr<$r> for $l { type Output = Polynomial<FE>;
       #[verifier::external_body]
       fn $f(self, rhs: $r) -> (res: Polynomial<FE>)
           ensures forall|x: int| congr(#[trigger] peval(res@, x), self@ $op peval(rhs@, x)), res@.len() <= $len(1, rhs@.len()) { unimplemented!() }
    }
  }
} }
poly_poly!(Mul, MulSpecImpl, mul, mul_req, obeys_mul_spec, mul_spec, Polynomial<FE>, Polynomial<FE>, *, mul_len);
poly_poly!(Mul, MulSpecImpl, mul, mul_req, obeys_mul_spec, mul_spec, &Polynomial<FE>, &Polynomial<FE>, *, mul_len);
poly_const!(Mul, MulSpecImpl, mul, mul_req, obeys_mul_spec, mul_spec, Polynomial<FE>, FE, *, mul_len);
poly_const!(Mul, MulSpecImpl, mul, mul_req, obeys_mul_spec, mul_spec, Polynomial<FE>, &FE, *, mul_len);
const_poly!(Mul, MulSpecImpl, mul, mul_req, obeys_mul_spec, mul_spec, FE, Polynomial<FE>, *, mul_len);
const_poly!(Mul, MulSpecImpl, mul, mul_req, obeys_mul_spec, mul_spec, &FE, Polynomial<FE>, *, mul_len);
poly_const!(Sub, SubSpecImpl, sub, sub_req, obeys_sub_spec, sub_spec, &Polynomial<FE>, &FE, -, sum_len);
poly_const!(Sub, SubSpecImpl, sub, sub_req, obeys_sub_spec, sub_spec, &Polynomial<FE>, FE, -, sum_len);
// The verifier resolves an operator on a reference only where the owned operand has one as well.
poly_const!(Sub, SubSpecImpl, sub, sub_req, obeys_sub_spec, sub_spec, Polynomial<FE>, FE, -, sum_len);
poly_const!(Sub, SubSpecImpl, sub, sub_req, obeys_sub_spec, sub_spec, Polynomial<FE>, &FE, -, sum_len);
impl Polynomial<FE> {
    #[verifier::external_body]
    pub fn new_monomial(c: FE, d: usize) -> (r: Self) ensures forall|x: int| congr(#[trigger] peval(r@, x), c@ * ipow(x, d as nat)), r@.len() <= d + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    /// Quotient by x - b; the remainder is the value at b.
    #[verifier::external_body]
    pub fn ruffini_division_inplace(&mut self, b: &FE)
        ensures forall|x: int| congr(peval(old(self)@, x), (x - b@) * #[trigger] peval(final(self)@, x) + peval(old(self)@, b@)),
            old(self)@.len() == 0 ==> final(self)@.len() == 0, old(self)@.len() > 0 ==> final(self)@.len() <= old(self)@.len() - 1 { unimplemented!() }
}
pub proof fn lemma_peval_add(r: Seq<int>, a: Seq<int>, b: Seq<int>, x: int) requires forall|i: int| congr(#[trigger] co(r, i), co(a, i) + co(b, i)) ensures congr(peval(r, x), peval(a, x) + peval(b, x)) decreases r.len() + a.len() + b.len() {
    if r.len() + a.len() + b.len() == 0 { } else {
        let (r1, a1, b1) = (if r.len() > 0 { r.drop_first() } else { r }, if a.len() > 0 { a.drop_first() } else { a }, if b.len() > 0 { b.drop_first() } else { b });
        assert forall|i: int| congr(#[trigger] co(r1, i), co(a1, i) + co(b1, i)) by {
            if i >= 0 { assert(co(r1, i) == co(r, i + 1)); assert(co(a1, i) == co(a, i + 1)); assert(co(b1, i) == co(b, i + 1)); assert(congr(co(r, i + 1), co(a, i + 1) + co(b, i + 1))); }
        }
        lemma_peval_add(r1, a1, b1, x);
        assert(congr(co(r, 0), co(a, 0) + co(b, 0)));
        lemma_congr_mul(x, x, peval(r1, x), peval(a1, x) + peval(b1, x));
        assert(x * 0 == 0);
        assert(peval(r, x) == co(r, 0) + x * peval(r1, x)); assert(peval(a, x) == co(a, 0) + x * peval(a1, x)); assert(peval(b, x) == co(b, 0) + x * peval(b1, x));
        assert(x * (peval(a1, x) + peval(b1, x)) == x * peval(a1, x) + x * peval(b1, x)) by (nonlinear_arith);
        lemma_congr_add(co(r, 0), co(a, 0) + co(b, 0), x * peval(r1, x), x * (peval(a1, x) + peval(b1, x)));
    }
}
