use crate::field::{element::FieldElement, traits::IsField};
use core::ops::*;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum InterpolateError {
    UnequalLengths(usize, usize),
    NonUniqueXs,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Polynomial<FE> {
    pub coefficients: Vec<FE>,
}

impl<F: IsField> Polynomial<FieldElement<F>> {
    /// Removes trailing zero coefficients.
    pub fn new(coefficients: &[FieldElement<F>]) -> Self {
        let mut n = coefficients.len();
        while n > 0 && coefficients[n - 1] == FieldElement::zero() {
            n -= 1;
        }
        Self {
            coefficients: coefficients[..n].to_vec(),
        }
    }
    pub fn new_monomial(coefficient: FieldElement<F>, degree: usize) -> Self {
        let mut coefficients = vec![FieldElement::zero(); degree];
        coefficients.push(coefficient);
        Self::new(&coefficients)
    }
    pub fn zero() -> Self {
        Self::new(&[])
    }
    pub fn interpolate(
        xs: &[FieldElement<F>],
        ys: &[FieldElement<F>],
    ) -> Result<Self, InterpolateError> {
        if xs.len() != ys.len() {
            return Err(InterpolateError::UnequalLengths(xs.len(), ys.len()));
        }
        if xs.is_empty() {
            return Ok(Polynomial::new(&[]));
        }
        let mut result = Polynomial::zero();
        for i in 0..xs.len() {
            let mut num = Polynomial::new(&[FieldElement::one()]);
            let mut den = FieldElement::one();
            for j in 0..xs.len() {
                if i == j {
                    continue;
                }
                let d = &xs[i] - &xs[j];
                if d == FieldElement::zero() {
                    return Err(InterpolateError::NonUniqueXs);
                }
                den = den * d;
                num = num.mul_with_ref(&Polynomial::new(&[-&xs[j], FieldElement::one()]));
            }
            result = result + num * (&ys[i] / &den);
        }
        Ok(result)
    }
    pub fn evaluate(&self, x: &FieldElement<F>) -> FieldElement<F> {
        self.coefficients
            .iter()
            .rev()
            .fold(FieldElement::zero(), |acc, c| acc * x + c)
    }
    pub fn evaluate_slice(&self, input: &[FieldElement<F>]) -> Vec<FieldElement<F>> {
        input.iter().map(|x| self.evaluate(x)).collect()
    }
    pub fn degree(&self) -> usize {
        if self.coefficients.is_empty() {
            0
        } else {
            self.coefficients.len() - 1
        }
    }
    pub fn leading_coefficient(&self) -> FieldElement<F> {
        self.coefficients
            .last()
            .cloned()
            .unwrap_or_else(FieldElement::zero)
    }
    pub fn coefficients(&self) -> &[FieldElement<F>] {
        &self.coefficients
    }
    pub fn coeff_len(&self) -> usize {
        self.coefficients().len()
    }
    pub fn pad_with_zero_coefficients_to_length(pa: &mut Self, n: usize) {
        pa.coefficients.resize(n, FieldElement::zero());
    }
    pub fn pad_with_zero_coefficients(pa: &Self, pb: &Self) -> (Self, Self) {
        let n = pa.coefficients.len().max(pb.coefficients.len());
        let (mut a, mut b) = (pa.clone(), pb.clone());
        a.coefficients.resize(n, FieldElement::zero());
        b.coefficients.resize(n, FieldElement::zero());
        (a, b)
    }
    pub fn ruffini_division(&self, b: &FieldElement<F>) -> Self {
        let mut r = self.clone();
        r.ruffini_division_inplace(b);
        r
    }
    /// Computes quotient with `x - b` in place.
    pub fn ruffini_division_inplace(&mut self, b: &FieldElement<F>) {
        let mut c = FieldElement::zero();
        for coeff in self.coefficients.iter_mut().rev() {
            *coeff = &*coeff + b * &c;
            core::mem::swap(coeff, &mut c);
        }
        self.coefficients.pop();
    }
    pub fn long_division_with_remainder(self, dividend: &Self) -> (Self, Self) {
        if dividend.coefficients.is_empty() {
            panic!("Division by zero polynomial");
        }
        if dividend.degree() > self.degree() || self.coefficients.is_empty() {
            return (Polynomial::zero(), self);
        }
        let mut n = self;
        let mut q = vec![FieldElement::zero(); n.degree() + 1];
        let denominator = dividend.leading_coefficient().inv();
        while n != Polynomial::zero() && n.degree() >= dividend.degree() {
            let new_coefficient = n.leading_coefficient() * &denominator;
            let shift = n.degree() - dividend.degree();
            q[shift] = new_coefficient.clone();
            for (i, d) in dividend.coefficients.iter().enumerate() {
                n.coefficients[shift + i] = &n.coefficients[shift + i] - &(d * &new_coefficient);
            }
            n = Polynomial::new(&n.coefficients);
        }
        (Polynomial::new(&q), n)
    }
    pub fn div_with_ref(self, dividend: &Self) -> Self {
        self.long_division_with_remainder(dividend).0
    }
    pub fn mul_with_ref(&self, factor: &Self) -> Self {
        if self.coefficients.is_empty() || factor.coefficients.is_empty() {
            return Polynomial::zero();
        }
        let mut coefficients =
            vec![FieldElement::zero(); self.degree() + factor.degree() + 1];
        for i in 0..self.coefficients.len() {
            for j in 0..factor.coefficients.len() {
                coefficients[i + j] =
                    &coefficients[i + j] + &self.coefficients[i] * &factor.coefficients[j];
            }
        }
        Polynomial::new(&coefficients)
    }
    /// p(factor * x)
    pub fn scale(&self, factor: &FieldElement<F>) -> Self {
        let mut out = Vec::with_capacity(self.coefficients.len());
        let mut pw = FieldElement::one();
        for c in self.coefficients.iter() {
            out.push(c * &pw);
            pw = pw * factor;
        }
        Polynomial::new(&out)
    }
    pub fn scale_coeffs(&self, factor: &FieldElement<F>) -> Self {
        Polynomial::new(&self.coefficients.iter().map(|c| c * factor).collect::<Vec<_>>())
    }
    pub fn differentiate(&self) -> Self {
        let v: Vec<_> = self
            .coefficients
            .iter()
            .enumerate()
            .skip(1)
            .map(|(i, c)| FieldElement::from(i as u64) * c)
            .collect();
        Polynomial::new(&v)
    }
    /// p(x) = even(x^2) + x * odd(x^2)
    pub fn even_odd_decomposition(&self) -> (Self, Self) {
        let mut even = vec![];
        let mut odd = vec![];
        for (i, c) in self.coefficients().iter().enumerate() {
            if i % 2 == 0 {
                even.push(c.clone())
            } else {
                odd.push(c.clone())
            }
        }
        (Polynomial::new(&even), Polynomial::new(&odd))
    }
}

fn addp<F: IsField>(
    a: &Polynomial<FieldElement<F>>,
    b: &Polynomial<FieldElement<F>>,
    sub: bool,
) -> Polynomial<FieldElement<F>> {
    let n = a.coefficients.len().max(b.coefficients.len());
    let z = FieldElement::<F>::zero();
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        let x = a.coefficients.get(i).unwrap_or(&z);
        let y = b.coefficients.get(i).unwrap_or(&z);
        v.push(if sub { x - y } else { x + y });
    }
    Polynomial::new(&v)
}
type P<F> = Polynomial<FieldElement<F>>;
macro_rules! pop {
    ($tr:ident, $f:ident, |$a:ident, $b:ident| $e:expr) => {
        impl<F: IsField> $tr<&P<F>> for &P<F> {
            type Output = P<F>;
            fn $f(self, o: &P<F>) -> P<F> {
                let ($a, $b) = (self, o);
                $e
            }
        }
        impl<F: IsField> $tr<P<F>> for P<F> {
            type Output = P<F>;
            fn $f(self, o: P<F>) -> P<F> {
                $tr::$f(&self, &o)
            }
        }
        impl<F: IsField> $tr<&P<F>> for P<F> {
            type Output = P<F>;
            fn $f(self, o: &P<F>) -> P<F> {
                $tr::$f(&self, o)
            }
        }
        impl<F: IsField> $tr<P<F>> for &P<F> {
            type Output = P<F>;
            fn $f(self, o: P<F>) -> P<F> {
                $tr::$f(self, &o)
            }
        }
    };
}
pop!(Add, add, |a, b| addp(a, b, false));
pop!(Sub, sub, |a, b| addp(a, b, true));
pop!(Mul, mul, |a, b| a.mul_with_ref(b));
impl<F: IsField> Div<P<F>> for P<F> {
    type Output = P<F>;
    fn div(self, o: P<F>) -> P<F> {
        self.div_with_ref(&o)
    }
}
impl<F: IsField> AddAssign<P<F>> for P<F> {
    fn add_assign(&mut self, o: P<F>) {
        *self = &*self + &o;
    }
}
impl<F: IsField> AddAssign<&P<F>> for P<F> {
    fn add_assign(&mut self, o: &P<F>) {
        *self = &*self + o;
    }
}
macro_rules! pfe {
    ($tr:ident, $f:ident, |$a:ident, $b:ident| $e:expr, |$c:ident, $d:ident| $g:expr) => {
        impl<F: IsField> $tr<&FieldElement<F>> for &P<F> {
            type Output = P<F>;
            fn $f(self, o: &FieldElement<F>) -> P<F> {
                let ($a, $b) = (self, o);
                $e
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for &P<F> {
            type Output = P<F>;
            fn $f(self, o: FieldElement<F>) -> P<F> {
                $tr::$f(self, &o)
            }
        }
        impl<F: IsField> $tr<&FieldElement<F>> for P<F> {
            type Output = P<F>;
            fn $f(self, o: &FieldElement<F>) -> P<F> {
                $tr::$f(&self, o)
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for P<F> {
            type Output = P<F>;
            fn $f(self, o: FieldElement<F>) -> P<F> {
                $tr::$f(&self, &o)
            }
        }
        impl<F: IsField> $tr<&P<F>> for &FieldElement<F> {
            type Output = P<F>;
            fn $f(self, o: &P<F>) -> P<F> {
                let ($c, $d) = (self, o);
                $g
            }
        }
        impl<F: IsField> $tr<P<F>> for &FieldElement<F> {
            type Output = P<F>;
            fn $f(self, o: P<F>) -> P<F> {
                $tr::$f(self, &o)
            }
        }
        impl<F: IsField> $tr<&P<F>> for FieldElement<F> {
            type Output = P<F>;
            fn $f(self, o: &P<F>) -> P<F> {
                $tr::$f(&self, o)
            }
        }
        impl<F: IsField> $tr<P<F>> for FieldElement<F> {
            type Output = P<F>;
            fn $f(self, o: P<F>) -> P<F> {
                $tr::$f(&self, &o)
            }
        }
    };
}
fn cst<F: IsField>(c: &FieldElement<F>) -> P<F> {
    Polynomial::new(core::slice::from_ref(c))
}
pfe!(Mul, mul, |a, b| a.scale_coeffs(b), |c, d| d.scale_coeffs(c));
pfe!(Add, add, |a, b| addp(a, &cst(b), false), |c, d| addp(
    &cst(c),
    d,
    false
));
pfe!(Sub, sub, |a, b| addp(a, &cst(b), true), |c, d| addp(
    &cst(c),
    d,
    true
));
impl<F: IsField> Neg for P<F> {
    type Output = P<F>;
    fn neg(self) -> P<F> {
        -&self
    }
}
impl<F: IsField> Neg for &P<F> {
    type Output = P<F>;
    fn neg(self) -> P<F> {
        Polynomial::new(&self.coefficients.iter().map(|c| -c).collect::<Vec<_>>())
    }
}
