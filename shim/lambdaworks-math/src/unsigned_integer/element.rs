use crate::errors::{ByteConversionError, CreationError};
use crate::traits::ByteConversion;
use core::cmp::Ordering;
use core::fmt;
use core::ops::*;

pub type U384 = UnsignedInteger<6>;
pub type U256 = UnsignedInteger<4>;
pub type U128 = UnsignedInteger<2>;
pub type U64 = UnsignedInteger<1>;

/// Limbs are in big-endian order: `limbs[NUM_LIMBS - 1]` is the least significant one.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct UnsignedInteger<const NUM_LIMBS: usize> {
    pub limbs: [u64; NUM_LIMBS],
}

impl<const N: usize> UnsignedInteger<N> {
    pub const fn from_limbs(limbs: [u64; N]) -> Self {
        Self { limbs }
    }
    pub const fn from_u64(value: u64) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value;
        Self { limbs }
    }
    pub const fn from_u128(value: u128) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value as u64;
        if N > 1 {
            limbs[N - 2] = (value >> 64) as u64;
        }
        Self { limbs }
    }
    pub const fn zero() -> Self {
        Self { limbs: [0; N] }
    }
    pub fn is_zero(&self) -> bool {
        self.limbs.iter().all(|l| *l == 0)
    }
    pub const fn from_hex_unchecked(value: &str) -> Self {
        let bytes = value.as_bytes();
        let mut start = 0;
        if bytes.len() >= 2 && bytes[0] == b'0' && (bytes[1] == b'x' || bytes[1] == b'X') {
            start = 2;
        }
        let mut limbs = [0u64; N];
        let mut i = bytes.len();
        let mut nib = 0usize;
        while i > start {
            i -= 1;
            let c = bytes[i];
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => panic!("Malformed hex string"),
            } as u64;
            let limb = nib / 16;
            if limb < N {
                limbs[N - 1 - limb] |= d << (4 * (nib % 16));
            } else if d != 0 {
                panic!("hex string too long");
            }
            nib += 1;
        }
        Self { limbs }
    }
    pub fn from_hex(value: &str) -> Result<Self, CreationError> {
        let mut string = value;
        let mut char_iterator = value.chars();
        if string.len() > 2
            && char_iterator.next().unwrap() == '0'
            && char_iterator.next().unwrap() == 'x'
        {
            string = &string[2..];
        }
        if string.is_empty() || !string.chars().all(|c| c.is_ascii_hexdigit()) {
            return Err(CreationError::InvalidHexString);
        }
        if string.len() > 16 * N {
            return Err(CreationError::InvalidHexString);
        }
        Ok(Self::from_hex_unchecked(string))
    }
    pub fn to_hex(&self) -> String {
        let mut s = String::new();
        for l in self.limbs.iter() {
            s.push_str(&format!("{l:016X}"));
        }
        let t = s.trim_start_matches('0');
        if t.is_empty() {
            "0".into()
        } else {
            t.into()
        }
    }
    pub fn from_dec_str(value: &str) -> Result<Self, CreationError> {
        if value.is_empty() {
            return Err(CreationError::InvalidDecString);
        }
        let mut r = Self::zero();
        for c in value.chars() {
            let d = c.to_digit(10).ok_or(CreationError::InvalidDecString)? as u64;
            // r = r * 10 + d
            let mut carry = d as u128;
            for i in (0..N).rev() {
                let t = r.limbs[i] as u128 * 10 + carry;
                r.limbs[i] = t as u64;
                carry = t >> 64;
            }
            if carry != 0 {
                return Err(CreationError::InvalidDecString);
            }
        }
        Ok(r)
    }
    pub const fn const_ne(a: &Self, b: &Self) -> bool {
        let mut i = 0;
        while i < N {
            if a.limbs[i] != b.limbs[i] {
                return true;
            }
            i += 1;
        }
        false
    }
    pub const fn const_le(a: &Self, b: &Self) -> bool {
        let mut i = 0;
        while i < N {
            if a.limbs[i] < b.limbs[i] {
                return true;
            }
            if a.limbs[i] > b.limbs[i] {
                return false;
            }
            i += 1;
        }
        true
    }
    pub const fn add(a: &Self, b: &Self) -> (Self, bool) {
        let mut limbs = [0u64; N];
        let mut carry = 0u128;
        let mut i = N;
        while i > 0 {
            let c = a.limbs[i - 1] as u128 + b.limbs[i - 1] as u128 + carry;
            limbs[i - 1] = c as u64;
            carry = c >> 64;
            i -= 1;
        }
        (Self { limbs }, carry > 0)
    }
    pub const fn double(a: &Self) -> (Self, bool) {
        Self::add(a, a)
    }
    pub const fn sub(a: &Self, b: &Self) -> (Self, bool) {
        let mut limbs = [0u64; N];
        let mut borrow = false;
        let mut i = N;
        while i > 0 {
            let (c, b1) = a.limbs[i - 1].overflowing_sub(b.limbs[i - 1]);
            let (c, b2) = c.overflowing_sub(borrow as u64);
            limbs[i - 1] = c;
            borrow = b1 || b2;
            i -= 1;
        }
        (Self { limbs }, borrow)
    }
    /// (hi, lo)
    pub const fn mul(a: &Self, b: &Self) -> (Self, Self) {
        let mut hi = [0u64; N];
        let mut lo = [0u64; N];
        let mut i = 0;
        while i < N {
            let mut carry = 0u128;
            let mut j = 0;
            while j < N {
                let k = i + j;
                let cur = if k < N { lo[N - 1 - k] } else { hi[2 * N - 1 - k] };
                let t = a.limbs[N - 1 - i] as u128 * b.limbs[N - 1 - j] as u128
                    + cur as u128
                    + carry;
                if k < N {
                    lo[N - 1 - k] = t as u64;
                } else {
                    hi[2 * N - 1 - k] = t as u64;
                }
                carry = t >> 64;
                j += 1;
            }
            hi[N - 1 - i] = carry as u64;
            i += 1;
        }
        (Self { limbs: hi }, Self { limbs: lo })
    }
    pub const fn const_shl(self, times: usize) -> Self {
        let mut limbs = [0u64; N];
        let (a, b) = (times / 64, times % 64);
        let mut i = 0;
        while i + a < N {
            let mut v = self.limbs[i + a] << b;
            if b != 0 && i + a + 1 < N {
                v |= self.limbs[i + a + 1] >> (64 - b);
            }
            limbs[i] = v;
            i += 1;
        }
        Self { limbs }
    }
    pub const fn const_shr(self, times: usize) -> Self {
        let mut limbs = [0u64; N];
        let (a, b) = (times / 64, times % 64);
        let mut i = a;
        while i < N {
            let mut v = self.limbs[i - a] >> b;
            if b != 0 && i > a {
                v |= self.limbs[i - a - 1] << (64 - b);
            }
            limbs[i] = v;
            i += 1;
        }
        Self { limbs }
    }
    pub fn bits_le(&self) -> usize {
        for i in 0..N {
            if self.limbs[i] != 0 {
                return (N - i) * 64 - self.limbs[i].leading_zeros() as usize;
            }
        }
        0
    }
}

impl<const N: usize> From<u128> for UnsignedInteger<N> {
    fn from(v: u128) -> Self {
        Self::from_u128(v)
    }
}
impl<const N: usize> From<u64> for UnsignedInteger<N> {
    fn from(v: u64) -> Self {
        Self::from_u64(v)
    }
}
impl<const N: usize> From<u16> for UnsignedInteger<N> {
    fn from(v: u16) -> Self {
        Self::from_u64(v as u64)
    }
}
impl<const N: usize> From<&str> for UnsignedInteger<N> {
    fn from(v: &str) -> Self {
        Self::from_hex_unchecked(v)
    }
}
impl<const N: usize> From<UnsignedInteger<N>> for u16 {
    fn from(v: UnsignedInteger<N>) -> u16 {
        v.limbs[N - 1] as u16
    }
}
impl<const N: usize> PartialOrd for UnsignedInteger<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for UnsignedInteger<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.limbs.cmp(&o.limbs)
    }
}
impl<const N: usize> fmt::Debug for UnsignedInteger<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", self.to_hex())
    }
}
impl<const N: usize> fmt::Display for UnsignedInteger<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", self.to_hex())
    }
}
impl<const N: usize> Default for UnsignedInteger<N> {
    fn default() -> Self {
        Self::zero()
    }
}

macro_rules! binop {
    ($tr:ident, $f:ident, |$a:ident, $b:ident| $e:expr) => {
        impl<const N: usize> $tr<&UnsignedInteger<N>> for &UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $f(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> {
                let ($a, $b) = (self, o);
                $e
            }
        }
        impl<const N: usize> $tr<UnsignedInteger<N>> for UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $f(self, o: UnsignedInteger<N>) -> UnsignedInteger<N> {
                $tr::$f(&self, &o)
            }
        }
        impl<const N: usize> $tr<&UnsignedInteger<N>> for UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $f(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> {
                $tr::$f(&self, o)
            }
        }
        impl<const N: usize> $tr<UnsignedInteger<N>> for &UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $f(self, o: UnsignedInteger<N>) -> UnsignedInteger<N> {
                $tr::$f(self, &o)
            }
        }
    };
}
fn zip<const N: usize>(
    a: &UnsignedInteger<N>,
    b: &UnsignedInteger<N>,
    f: impl Fn(u64, u64) -> u64,
) -> UnsignedInteger<N> {
    let mut limbs = [0u64; N];
    for i in 0..N {
        limbs[i] = f(a.limbs[i], b.limbs[i]);
    }
    UnsignedInteger { limbs }
}
binop!(BitAnd, bitand, |a, b| zip(a, b, |x, y| x & y));
binop!(BitOr, bitor, |a, b| zip(a, b, |x, y| x | y));
binop!(BitXor, bitxor, |a, b| zip(a, b, |x, y| x ^ y));
binop!(Add, add, |a, b| {
    let (r, c) = UnsignedInteger::add(a, b);
    debug_assert!(!c, "UnsignedInteger addition overflow.");
    r
});
binop!(Sub, sub, |a, b| {
    let (r, c) = UnsignedInteger::sub(a, b);
    debug_assert!(!c, "UnsignedInteger subtraction overflow.");
    r
});
binop!(Mul, mul, |a, b| {
    let (hi, lo) = UnsignedInteger::mul(a, b);
    debug_assert!(hi.is_zero(), "UnsignedInteger multiplication overflow.");
    lo
});
impl<const N: usize> BitAndAssign for UnsignedInteger<N> {
    fn bitand_assign(&mut self, o: Self) {
        *self = &*self & &o;
    }
}
impl<const N: usize> BitOrAssign for UnsignedInteger<N> {
    fn bitor_assign(&mut self, o: Self) {
        *self = &*self | &o;
    }
}
impl<const N: usize> Shl<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shl(self, t: usize) -> UnsignedInteger<N> {
        self.const_shl(t)
    }
}
impl<const N: usize> Shl<usize> for UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shl(self, t: usize) -> UnsignedInteger<N> {
        self.const_shl(t)
    }
}
impl<const N: usize> Shr<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shr(self, t: usize) -> UnsignedInteger<N> {
        self.const_shr(t)
    }
}
impl<const N: usize> Shr<usize> for UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shr(self, t: usize) -> UnsignedInteger<N> {
        self.const_shr(t)
    }
}
impl<const N: usize> ShrAssign<usize> for UnsignedInteger<N> {
    fn shr_assign(&mut self, t: usize) {
        *self = self.const_shr(t);
    }
}

impl<const N: usize> ByteConversion for UnsignedInteger<N> {
    fn to_bytes_be(&self) -> Vec<u8> {
        self.limbs.iter().flat_map(|l| l.to_be_bytes()).collect()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.limbs
            .iter()
            .rev()
            .flat_map(|l| l.to_le_bytes())
            .collect()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        // extra bytes are cut off, as in the original
        let needed = bytes
            .get(0..N * 8)
            .ok_or(ByteConversionError::FromBEBytesError)?;
        let mut limbs = [0u64; N];
        for (i, c) in needed.chunks_exact(8).enumerate() {
            limbs[i] = u64::from_be_bytes(c.try_into().unwrap());
        }
        Ok(Self { limbs })
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let needed = bytes
            .get(0..N * 8)
            .ok_or(ByteConversionError::FromLEBytesError)?;
        let mut limbs = [0u64; N];
        for (i, c) in needed.chunks_exact(8).rev().enumerate() {
            limbs[i] = u64::from_le_bytes(c.try_into().unwrap());
        }
        Ok(Self { limbs })
    }
}
