use super::traits::{IsField, IsPrimeField};
use crate::errors::CreationError;
use crate::field::fields::montgomery_backed_prime_fields::{IsModulus, MontgomeryBackendPrimeField};
use crate::unsigned_integer::element::UnsignedInteger;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use core::fmt::{self, Debug};
use core::iter::{Product, Sum};
use core::ops::*;

/// A field element with operations algorithms defined in `F`
#[derive(Debug, Clone, Copy)]
pub struct FieldElement<F: IsField> {
    value: F::BaseType,
}

impl<F: IsField> FieldElement<F> {
    pub fn inplace_batch_inverse(numbers: &mut [Self]) {
        if numbers.is_empty() {
            return;
        }
        let count = numbers.len();
        let mut prod_prefix = Vec::with_capacity(count);
        prod_prefix.push(numbers[0].clone());
        for i in 1..count {
            prod_prefix.push(&prod_prefix[i - 1] * &numbers[i]);
        }
        let mut bi_inv = prod_prefix[count - 1].inv();
        for i in (1..count).rev() {
            let ai_inv = &bi_inv * &prod_prefix[i - 1];
            bi_inv = &bi_inv * &numbers[i];
            numbers[i] = ai_inv;
        }
        numbers[0] = bi_inv;
    }
    pub fn new(value: F::BaseType) -> Self {
        Self {
            value: F::from_base_type(value),
        }
    }
    pub fn from_raw(value: &F::BaseType) -> Self {
        Self {
            value: value.clone(),
        }
    }
    pub fn value(&self) -> &F::BaseType {
        &self.value
    }
    pub fn inv(&self) -> Self {
        Self {
            value: F::inv(&self.value),
        }
    }
    pub fn square(&self) -> Self {
        Self {
            value: F::square(&self.value),
        }
    }
    pub fn double(&self) -> Self {
        self + self
    }
    pub fn pow<T: IsUnsignedInteger>(&self, exponent: T) -> Self {
        Self {
            value: F::pow(&self.value, exponent),
        }
    }
    pub fn one() -> Self {
        Self { value: F::one() }
    }
    pub fn zero() -> Self {
        Self { value: F::zero() }
    }
}
impl<F: IsPrimeField> FieldElement<F> {
    pub fn representative(&self) -> F::RepresentativeType {
        F::representative(self.value())
    }
}
impl<M, const N: usize> FieldElement<MontgomeryBackendPrimeField<M, N>>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    pub fn from_hex(hex: &str) -> Result<Self, CreationError> {
        let integer = UnsignedInteger::<N>::from_hex(hex)?;
        Ok(Self::new(integer))
    }
    pub fn from_hex_unchecked(hex: &str) -> Self {
        Self::new(UnsignedInteger::<N>::from_hex_unchecked(hex))
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        crate::traits::ByteConversion::to_bytes_be(&self.representative())
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        crate::traits::ByteConversion::to_bytes_le(&self.representative())
    }
}
impl<F: IsField> From<&F::BaseType> for FieldElement<F> {
    fn from(value: &F::BaseType) -> Self {
        Self {
            value: F::from_base_type(value.clone()),
        }
    }
}
impl<F: IsField> From<u64> for FieldElement<F> {
    fn from(value: u64) -> Self {
        Self {
            value: F::from_u64(value),
        }
    }
}
impl<F: IsField> PartialEq for FieldElement<F> {
    fn eq(&self, other: &Self) -> bool {
        F::eq(&self.value, &other.value)
    }
}
impl<F: IsField> Eq for FieldElement<F> {}
impl<F: IsField> core::hash::Hash for FieldElement<F>
where
    F::BaseType: core::hash::Hash,
{
    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
        self.value.hash(state)
    }
}
impl<F: IsField> Default for FieldElement<F> {
    fn default() -> Self {
        Self::zero()
    }
}
impl<F: IsPrimeField> fmt::Display for FieldElement<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.representative())
    }
}
macro_rules! op {
    ($tr:ident, $f:ident, $ta:ident, $fa:ident) => {
        impl<F: IsField> $tr<&FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline(always)]
            fn $f(self, rhs: &FieldElement<F>) -> FieldElement<F> {
                FieldElement {
                    value: F::$f(&self.value, &rhs.value),
                }
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline(always)]
            fn $f(self, rhs: FieldElement<F>) -> FieldElement<F> {
                $tr::$f(&self, &rhs)
            }
        }
        impl<F: IsField> $tr<&FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline(always)]
            fn $f(self, rhs: &FieldElement<F>) -> FieldElement<F> {
                $tr::$f(&self, rhs)
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline(always)]
            fn $f(self, rhs: FieldElement<F>) -> FieldElement<F> {
                $tr::$f(self, &rhs)
            }
        }
        impl<F: IsField> $ta<FieldElement<F>> for FieldElement<F> {
            fn $fa(&mut self, rhs: FieldElement<F>) {
                *self = $tr::$f(&*self, &rhs);
            }
        }
        impl<F: IsField> $ta<&FieldElement<F>> for FieldElement<F> {
            fn $fa(&mut self, rhs: &FieldElement<F>) {
                *self = $tr::$f(&*self, rhs);
            }
        }
    };
}
op!(Add, add, AddAssign, add_assign);
op!(Sub, sub, SubAssign, sub_assign);
op!(Mul, mul, MulAssign, mul_assign);
op!(Div, div, DivAssign, div_assign);
impl<F: IsField> Neg for &FieldElement<F> {
    type Output = FieldElement<F>;
    fn neg(self) -> FieldElement<F> {
        FieldElement {
            value: F::neg(&self.value),
        }
    }
}
impl<F: IsField> Neg for FieldElement<F> {
    type Output = FieldElement<F>;
    fn neg(self) -> FieldElement<F> {
        -&self
    }
}
impl<F: IsField> Sum<FieldElement<F>> for FieldElement<F> {
    fn sum<I: Iterator<Item = FieldElement<F>>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, b| a + b)
    }
}
impl<'a, F: IsField> Sum<&'a FieldElement<F>> for FieldElement<F> {
    fn sum<I: Iterator<Item = &'a FieldElement<F>>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, b| a + b)
    }
}
impl<F: IsField> Product<FieldElement<F>> for FieldElement<F> {
    fn product<I: Iterator<Item = FieldElement<F>>>(iter: I) -> Self {
        iter.fold(Self::one(), |a, b| a * b)
    }
}
impl<'a, F: IsField> Product<&'a FieldElement<F>> for FieldElement<F> {
    fn product<I: Iterator<Item = &'a FieldElement<F>>>(iter: I) -> Self {
        iter.fold(Self::one(), |a, b| a * b)
    }
}
