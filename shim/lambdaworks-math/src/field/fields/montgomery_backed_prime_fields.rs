use crate::errors::ByteConversionError;
use crate::field::element::FieldElement;
use crate::field::traits::{IsField, IsPrimeField};
use crate::traits::ByteConversion;
use crate::unsigned_integer::element::UnsignedInteger;
use core::fmt::Debug;
use core::marker::PhantomData;

pub type U384PrimeField<M> = MontgomeryBackendPrimeField<M, 6>;
pub type U256PrimeField<M> = MontgomeryBackendPrimeField<M, 4>;

pub trait IsModulus<U>: Debug {
    const MODULUS: U;
}

#[derive(Clone, Debug, Hash, Copy, PartialEq, Eq)]
pub struct MontgomeryBackendPrimeField<M, const NUM_LIMBS: usize> {
    phantom: PhantomData<M>,
}

const fn mu(m0: u64) -> u64 {
    // -m0^{-1} mod 2^64
    let mut y = 1u64;
    let mut i = 0;
    while i < 6 {
        y = y.wrapping_mul(2u64.wrapping_sub(m0.wrapping_mul(y)));
        i += 1;
    }
    y.wrapping_neg()
}

impl<M, const N: usize> MontgomeryBackendPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>>,
{
    pub const MU: u64 = mu(M::MODULUS.limbs[N - 1]);
    pub const R2: UnsignedInteger<N> = Self::compute_r2();
    pub const ONE: UnsignedInteger<N> = Self::compute_one();

    const fn dbl(x: UnsignedInteger<N>) -> UnsignedInteger<N> {
        let (d, _c) = UnsignedInteger::double(&x);
        if UnsignedInteger::const_le(&M::MODULUS, &d) {
            UnsignedInteger::sub(&d, &M::MODULUS).0
        } else {
            d
        }
    }
    const fn compute_one() -> UnsignedInteger<N> {
        let mut c = UnsignedInteger::from_u64(1);
        let mut i = 0;
        while i < N * 64 {
            c = Self::dbl(c);
            i += 1;
        }
        c
    }
    const fn compute_r2() -> UnsignedInteger<N> {
        let mut c = Self::compute_one();
        let mut i = 0;
        while i < N * 64 {
            c = Self::dbl(c);
            i += 1;
        }
        c
    }
    /// a * b * R^{-1} mod p.  The modulus has at least one spare bit.
    #[inline(always)]
    pub fn cios(a: &UnsignedInteger<N>, b: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        let q = &M::MODULUS.limbs;
        let mut t = [0u64; N]; // little-endian accumulator
        let mut t_hi: u64 = 0;
        for i in (0..N).rev() {
            let bi = b.limbs[i] as u128;
            let mut c: u128 = 0;
            for j in 0..N {
                let cs = t[j] as u128 + a.limbs[N - 1 - j] as u128 * bi + c;
                t[j] = cs as u64;
                c = cs >> 64;
            }
            let cs = t_hi as u128 + c;
            let t_n = cs as u64;
            let t_n1 = (cs >> 64) as u64;
            let m = t[0].wrapping_mul(Self::MU) as u128;
            let mut c = (t[0] as u128 + m * q[N - 1] as u128) >> 64;
            for j in 1..N {
                let cs = t[j] as u128 + m * q[N - 1 - j] as u128 + c;
                t[j - 1] = cs as u64;
                c = cs >> 64;
            }
            let cs = t_n as u128 + c;
            t[N - 1] = cs as u64;
            t_hi = t_n1 + (cs >> 64) as u64;
        }
        let mut limbs = [0u64; N];
        for j in 0..N {
            limbs[N - 1 - j] = t[j];
        }
        let r = UnsignedInteger { limbs };
        if t_hi != 0 || UnsignedInteger::const_le(&M::MODULUS, &r) {
            UnsignedInteger::sub(&r, &M::MODULUS).0
        } else {
            r
        }
    }
}

impl<M, const N: usize> IsField for MontgomeryBackendPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    type BaseType = UnsignedInteger<N>;

    #[inline(always)]
    fn add(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        let (sum, overflow) = UnsignedInteger::add(a, b);
        if overflow || UnsignedInteger::const_le(&M::MODULUS, &sum) {
            UnsignedInteger::sub(&sum, &M::MODULUS).0
        } else {
            sum
        }
    }
    #[inline(always)]
    fn mul(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        Self::cios(a, b)
    }
    #[inline(always)]
    fn sub(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        let (d, borrow) = UnsignedInteger::sub(a, b);
        if borrow {
            UnsignedInteger::add(&d, &M::MODULUS).0
        } else {
            d
        }
    }
    fn neg(a: &Self::BaseType) -> Self::BaseType {
        Self::sub(&Self::zero(), a)
    }
    fn inv(a: &Self::BaseType) -> Self::BaseType {
        if *a == Self::zero() {
            panic!("Division by zero error.")
        }
        let (e, _) = UnsignedInteger::sub(&M::MODULUS, &UnsignedInteger::from_u64(2));
        Self::pow(a, e)
    }
    fn div(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        Self::mul(a, &Self::inv(b))
    }
    fn eq(a: &Self::BaseType, b: &Self::BaseType) -> bool {
        a == b
    }
    fn zero() -> Self::BaseType {
        UnsignedInteger::from_u64(0)
    }
    fn one() -> Self::BaseType {
        Self::ONE
    }
    fn from_u64(x: u64) -> Self::BaseType {
        Self::cios(&UnsignedInteger::from_u64(x), &Self::R2)
    }
    fn from_base_type(x: Self::BaseType) -> Self::BaseType {
        Self::cios(&x, &Self::R2)
    }
}

impl<M, const N: usize> IsPrimeField for MontgomeryBackendPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    type RepresentativeType = Self::BaseType;
    fn representative(x: &Self::BaseType) -> Self::RepresentativeType {
        Self::cios(x, &UnsignedInteger::from_u64(1))
    }
    fn field_bit_size() -> usize {
        let (max, _) = UnsignedInteger::sub(&M::MODULUS, &UnsignedInteger::from_u64(1));
        max.bits_le()
    }
}

impl<M, const N: usize> ByteConversion for FieldElement<MontgomeryBackendPrimeField<M, N>>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    fn to_bytes_be(&self) -> Vec<u8> {
        self.representative().to_bytes_be()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.representative().to_bytes_le()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        Ok(Self::new(UnsignedInteger::from_bytes_be(bytes)?))
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        Ok(Self::new(UnsignedInteger::from_bytes_le(bytes)?))
    }
}
