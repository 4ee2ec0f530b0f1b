use crate::errors::{ByteConversionError, CreationError};
use crate::traits::ByteConversion;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display};
use std::ops::{
    Add, BitAnd, BitAndAssign, BitOr, BitOrAssign, BitXor, BitXorAssign, Mul, Shl, ShlAssign, Shr,
    ShrAssign, Sub,
};

pub type U384 = UnsignedInteger<6>;
pub type U256 = UnsignedInteger<4>;
pub type U128 = UnsignedInteger<2>;
pub type U64 = UnsignedInteger<1>;

/// A fixed-size unsigned integer; `limbs[0]` is the most significant limb.
#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
pub struct UnsignedInteger<const NUM_LIMBS: usize> {
    pub limbs: [u64; NUM_LIMBS],
}

impl<const N: usize> UnsignedInteger<N> {
    pub const fn from_limbs(limbs: [u64; N]) -> Self {
        Self { limbs }
    }

    pub const fn from_u64(value: u64) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value;
        Self { limbs }
    }

    pub const fn from_u128(value: u128) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value as u64;
        if N > 1 {
            limbs[N - 2] = (value >> 64) as u64;
        }
        Self { limbs }
    }

    pub const fn zero() -> Self {
        Self { limbs: [0; N] }
    }

    pub fn from_hex(value: &str) -> Result<Self, CreationError> {
        let mut string = value;
        let mut char_iterator = value.chars();
        if string.len() > 2
            && char_iterator.next() == Some('0')
            && matches!(char_iterator.next(), Some('x') | Some('X'))
        {
            string = &string[2..];
        }
        if string.is_empty() {
            return Err(CreationError::EmptyString);
        }
        if !string.chars().all(|c| c.is_ascii_hexdigit()) {
            return Err(CreationError::InvalidHexString);
        }
        if string.len() > N * 16 {
            return Err(CreationError::HexStringIsTooBig);
        }
        Ok(Self::from_hex_unchecked(string))
    }

    pub const fn from_hex_unchecked(value: &str) -> Self {
        let mut limbs = [0u64; N];
        let bytes = value.as_bytes();
        let mut first = 0;
        if bytes.len() > 2 && bytes[0] == b'0' && (bytes[1] == b'x' || bytes[1] == b'X') {
            first = 2;
        }
        let mut i = bytes.len();
        let mut nibble = 0usize;
        while i > first {
            i -= 1;
            let c = bytes[i];
            let digit = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => panic!("Malformed hex expression."),
            };
            limbs[N - 1 - nibble / 16] |= (digit as u64) << (4 * (nibble % 16));
            nibble += 1;
        }
        Self { limbs }
    }

    pub fn from_dec_str(value: &str) -> Result<Self, CreationError> {
        if value.is_empty() {
            return Err(CreationError::InvalidDecString);
        }
        let mut res = Self::from_u64(0);
        for c in value.chars() {
            let digit = c.to_digit(10).ok_or(CreationError::InvalidDecString)? as u64;
            let mut carry = digit as u128;
            for limb in res.limbs.iter_mut().rev() {
                let t = (*limb as u128) * 10 + carry;
                *limb = t as u64;
                carry = t >> 64;
            }
        }
        Ok(res)
    }

    /// Returns (sum, carry).
    pub const fn add(a: &Self, b: &Self) -> (Self, bool) {
        let mut limbs = [0u64; N];
        let mut carry = 0u128;
        let mut i = N;
        while i > 0 {
            i -= 1;
            let t = a.limbs[i] as u128 + b.limbs[i] as u128 + carry;
            limbs[i] = t as u64;
            carry = t >> 64;
        }
        (Self { limbs }, carry > 0)
    }

    pub fn double(a: &Self) -> (Self, bool) {
        Self::add(a, a)
    }

    /// Returns (difference, borrow).
    pub const fn sub(a: &Self, b: &Self) -> (Self, bool) {
        let mut limbs = [0u64; N];
        let mut borrow = false;
        let mut i = N;
        while i > 0 {
            i -= 1;
            let (t1, b1) = a.limbs[i].overflowing_sub(b.limbs[i]);
            let (t2, b2) = t1.overflowing_sub(borrow as u64);
            limbs[i] = t2;
            borrow = b1 || b2;
        }
        (Self { limbs }, borrow)
    }

    /// Returns (hi, lo).
    pub fn mul(a: &Self, b: &Self) -> (Self, Self) {
        let mut out = [[0u64; N]; 2];
        let get = |k: usize| (1 - k / N, N - 1 - k % N);
        for i in 0..N {
            let mut carry = 0u128;
            for j in 0..N {
                let (h, l) = get(i + j);
                let t = (a.limbs[N - 1 - i] as u128) * (b.limbs[N - 1 - j] as u128)
                    + out[h][l] as u128
                    + carry;
                out[h][l] = t as u64;
                carry = t >> 64;
            }
            let (h, l) = get(i + N);
            out[h][l] = carry as u64;
        }
        (Self { limbs: out[0] }, Self { limbs: out[1] })
    }

    pub fn square(a: &Self) -> (Self, Self) {
        Self::mul(a, a)
    }

    pub const fn const_ne(a: &Self, b: &Self) -> bool {
        let mut i = 0;
        while i < N {
            if a.limbs[i] != b.limbs[i] {
                return true;
            }
            i += 1;
        }
        false
    }

    pub const fn const_le(a: &Self, b: &Self) -> bool {
        let mut i = 0;
        while i < N {
            if a.limbs[i] < b.limbs[i] {
                return true;
            }
            if a.limbs[i] > b.limbs[i] {
                return false;
            }
            i += 1;
        }
        true
    }

    pub const fn const_shl(self, times: usize) -> Self {
        let mut limbs = [0u64; N];
        let (a, b) = (times / 64, times % 64);
        let mut i = 0;
        while i < N {
            if i + a < N {
                limbs[i] = self.limbs[i + a] << b;
                if b > 0 && i + a + 1 < N {
                    limbs[i] |= self.limbs[i + a + 1] >> (64 - b);
                }
            }
            i += 1;
        }
        Self { limbs }
    }

    pub const fn const_shr(self, times: usize) -> Self {
        let mut limbs = [0u64; N];
        let (a, b) = (times / 64, times % 64);
        let mut i = 0;
        while i < N {
            if i >= a {
                limbs[i] = self.limbs[i - a] >> b;
                if b > 0 && i > a {
                    limbs[i] |= self.limbs[i - a - 1] << (64 - b);
                }
            }
            i += 1;
        }
        Self { limbs }
    }

    pub fn bits_le(&self) -> usize {
        for (i, l) in self.limbs.iter().enumerate() {
            if *l != 0 {
                return (N - i) * 64 - l.leading_zeros() as usize;
            }
        }
        0
    }

    pub fn to_hex(&self) -> String {
        let mut s = String::new();
        for l in self.limbs {
            s += &format!("{l:016X}");
        }
        let t = s.trim_start_matches('0');
        if t.is_empty() {
            "0".into()
        } else {
            t.to_string()
        }
    }
}

impl<const N: usize> PartialOrd for UnsignedInteger<N> {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl<const N: usize> Ord for UnsignedInteger<N> {
    fn cmp(&self, other: &Self) -> Ordering {
        self.limbs.cmp(&other.limbs)
    }
}

macro_rules! from_small {
    ($($t:ty),*) => {$(
        impl<const N: usize> From<$t> for UnsignedInteger<N> {
            fn from(value: $t) -> Self { Self::from_u128(value as u128) }
        }
    )*};
}
from_small!(u128, u64, u32, u16, u8, usize);

impl<const N: usize> From<&str> for UnsignedInteger<N> {
    fn from(hex_str: &str) -> Self {
        Self::from_hex_unchecked(hex_str)
    }
}
impl<const N: usize> From<UnsignedInteger<N>> for u16 {
    fn from(value: UnsignedInteger<N>) -> Self {
        value.limbs[N - 1] as u16
    }
}
impl<const N: usize> TryFrom<UnsignedInteger<N>> for u128 {
    type Error = CreationError;
    fn try_from(value: UnsignedInteger<N>) -> Result<Self, Self::Error> {
        if value.bits_le() > 128 {
            return Err(CreationError::RepresentativeOutOfRange);
        }
        let hi = if N > 1 { value.limbs[N - 2] } else { 0 };
        Ok(((hi as u128) << 64) | value.limbs[N - 1] as u128)
    }
}
impl<const N: usize> TryFrom<UnsignedInteger<N>> for u64 {
    type Error = CreationError;
    fn try_from(value: UnsignedInteger<N>) -> Result<Self, Self::Error> {
        if value.bits_le() > 64 {
            return Err(CreationError::RepresentativeOutOfRange);
        }
        Ok(value.limbs[N - 1])
    }
}

impl<const N: usize> Display for UnsignedInteger<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", self.to_hex().to_lowercase())
    }
}

impl<const N: usize> Default for UnsignedInteger<N> {
    fn default() -> Self {
        Self::zero()
    }
}

macro_rules! arith {
    ($tr:ident, $m:ident, $f:expr) => {
        impl<const N: usize> $tr<&UnsignedInteger<N>> for &UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $m(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> {
                let f: fn(&UnsignedInteger<N>, &UnsignedInteger<N>) -> UnsignedInteger<N> = $f;
                f(self, o)
            }
        }
        impl<const N: usize> $tr<UnsignedInteger<N>> for UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $m(self, o: UnsignedInteger<N>) -> UnsignedInteger<N> {
                $tr::$m(&self, &o)
            }
        }
        impl<const N: usize> $tr<&UnsignedInteger<N>> for UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $m(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> {
                $tr::$m(&self, o)
            }
        }
        impl<const N: usize> $tr<UnsignedInteger<N>> for &UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $m(self, o: UnsignedInteger<N>) -> UnsignedInteger<N> {
                $tr::$m(self, &o)
            }
        }
    };
}
arith!(Add, add, |a, b| {
    let (r, c) = UnsignedInteger::add(a, b);
    debug_assert!(!c, "UnsignedInteger addition overflow.");
    r
});
arith!(Sub, sub, |a, b| {
    let (r, c) = UnsignedInteger::sub(a, b);
    debug_assert!(!c, "UnsignedInteger subtraction overflow.");
    r
});
arith!(Mul, mul, |a, b| {
    let (hi, lo) = UnsignedInteger::mul(a, b);
    debug_assert!(hi.bits_le() == 0, "UnsignedInteger multiplication overflow.");
    lo
});
arith!(BitAnd, bitand, |a, b| {
    let mut r = *a;
    r.limbs.iter_mut().zip(b.limbs).for_each(|(x, y)| *x &= y);
    r
});
arith!(BitOr, bitor, |a, b| {
    let mut r = *a;
    r.limbs.iter_mut().zip(b.limbs).for_each(|(x, y)| *x |= y);
    r
});
arith!(BitXor, bitxor, |a, b| {
    let mut r = *a;
    r.limbs.iter_mut().zip(b.limbs).for_each(|(x, y)| *x ^= y);
    r
});
impl<const N: usize> BitAndAssign for UnsignedInteger<N> {
    fn bitand_assign(&mut self, rhs: Self) {
        *self = *self & rhs
    }
}
impl<const N: usize> BitOrAssign for UnsignedInteger<N> {
    fn bitor_assign(&mut self, rhs: Self) {
        *self = *self | rhs
    }
}
impl<const N: usize> BitXorAssign for UnsignedInteger<N> {
    fn bitxor_assign(&mut self, rhs: Self) {
        *self = *self ^ rhs
    }
}
impl<const N: usize> Shl<usize> for UnsignedInteger<N> {
    type Output = Self;
    fn shl(self, t: usize) -> Self {
        self.const_shl(t)
    }
}
impl<const N: usize> Shl<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shl(self, t: usize) -> UnsignedInteger<N> {
        self.const_shl(t)
    }
}
impl<const N: usize> Shr<usize> for UnsignedInteger<N> {
    type Output = Self;
    fn shr(self, t: usize) -> Self {
        self.const_shr(t)
    }
}
impl<const N: usize> Shr<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shr(self, t: usize) -> UnsignedInteger<N> {
        self.const_shr(t)
    }
}
impl<const N: usize> ShlAssign<usize> for UnsignedInteger<N> {
    fn shl_assign(&mut self, t: usize) {
        *self = self.const_shl(t)
    }
}
impl<const N: usize> ShrAssign<usize> for UnsignedInteger<N> {
    fn shr_assign(&mut self, t: usize) {
        *self = self.const_shr(t)
    }
}

impl<const N: usize> IsUnsignedInteger for UnsignedInteger<N> {}

impl<const N: usize> ByteConversion for UnsignedInteger<N> {
    fn to_bytes_be(&self) -> Vec<u8> {
        self.limbs.iter().flat_map(|l| l.to_be_bytes()).collect()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.limbs.iter().rev().flat_map(|l| l.to_le_bytes()).collect()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        // Extra trailing bytes are ignored, as upstream does.
        let needed = bytes.get(0..N * 8).ok_or(ByteConversionError::FromBEBytesError)?;
        let mut limbs = [0u64; N];
        for (i, c) in needed.chunks_exact(8).enumerate() {
            limbs[i] = u64::from_be_bytes(c.try_into().unwrap());
        }
        Ok(Self { limbs })
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let needed = bytes.get(0..N * 8).ok_or(ByteConversionError::FromLEBytesError)?;
        let mut limbs = [0u64; N];
        for (i, c) in needed.chunks_exact(8).enumerate() {
            limbs[N - 1 - i] = u64::from_le_bytes(c.try_into().unwrap());
        }
        Ok(Self { limbs })
    }
}
