use super::element::UnsignedInteger;
use core::fmt::{Debug, Display};
use core::ops::{BitAnd, Shr, ShrAssign};
pub trait IsUnsignedInteger:
    Shr<usize, Output = Self>
    + ShrAssign<usize>
    + BitAnd<Output = Self>
    + Eq
    + Ord
    + From<u16>
    + Copy
    + Display
    + Debug
{
}
impl IsUnsignedInteger for u128 {}
impl IsUnsignedInteger for u64 {}
impl IsUnsignedInteger for u32 {}
impl IsUnsignedInteger for u16 {}
impl IsUnsignedInteger for usize {}
impl<const N: usize> IsUnsignedInteger for UnsignedInteger<N> {}
