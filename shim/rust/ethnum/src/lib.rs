//! Stand-in for the ethnum crate: 256-bit integers as two 128-bit words, the lower one first. Operators wrap around,
//! as they do in a release build, and shift distances are taken modulo 256.
#![allow(non_camel_case_types, clippy::all)]
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
#[repr(transparent)]
pub struct U256(pub [u128; 2]);

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
#[repr(transparent)]
pub struct I256(pub [i128; 2]);

impl U256 {
    pub const ZERO: U256 = U256([0, 0]);
    pub const ONE: U256 = U256([1, 0]);
    pub const MAX: U256 = U256([u128::MAX, u128::MAX]);
    pub const MIN: U256 = U256::ZERO;
    pub const BITS: u32 = 256;

    fn limbs(self) -> [u64; 4] {
        let [l, h] = self.0;
        [l as u64, (l >> 64) as u64, h as u64, (h >> 64) as u64]
    }
    fn of(l: [u64; 4]) -> U256 {
        U256([l[0] as u128 | (l[1] as u128) << 64, l[2] as u128 | (l[3] as u128) << 64])
    }
    pub const fn wrapping_add(self, o: U256) -> U256 {
        let (l, c) = self.0[0].overflowing_add(o.0[0]);
        U256([l, self.0[1].wrapping_add(o.0[1]).wrapping_add(c as u128)])
    }
    pub const fn wrapping_sub(self, o: U256) -> U256 {
        let (l, b) = self.0[0].overflowing_sub(o.0[0]);
        U256([l, self.0[1].wrapping_sub(o.0[1]).wrapping_sub(b as u128)])
    }
    pub fn wrapping_mul(self, o: U256) -> U256 {
        let (a, b) = (self.limbs(), o.limbs());
        let mut r = [0u64; 4];
        for i in 0..4 {
            let mut carry = 0u128;
            for j in 0..4 - i {
                let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + carry;
                r[i + j] = t as u64;
                carry = t >> 64;
            }
        }
        U256::of(r)
    }
    fn div_rem(self, o: U256) -> (U256, U256) {
        assert!(o != U256::ZERO, "attempt to divide by zero");
        if self < o {
            return (U256::ZERO, self);
        }
        let shift = o.leading_zeros() - self.leading_zeros();
        let (mut q, mut r, mut d) = (U256::ZERO, self, o.wrapping_shl(shift));
        for _ in 0..=shift {
            q = q.wrapping_shl(1);
            if r >= d {
                r = r.wrapping_sub(d);
                q.0[0] |= 1;
            }
            d = d.wrapping_shr(1);
        }
        (q, r)
    }
    pub fn wrapping_div(self, o: U256) -> U256 { self.div_rem(o).0 }
    pub fn wrapping_rem(self, o: U256) -> U256 { self.div_rem(o).1 }
    pub fn wrapping_neg(self) -> U256 { U256::ZERO.wrapping_sub(self) }
    pub fn wrapping_shl(self, s: u32) -> U256 {
        let s = s % 256;
        let [l, h] = self.0;
        match s {
            0 => self,
            1..=127 => U256([l << s, h << s | l >> (128 - s)]),
            _ => U256([0, l << (s - 128)]),
        }
    }
    pub fn wrapping_shr(self, s: u32) -> U256 {
        let s = s % 256;
        let [l, h] = self.0;
        match s {
            0 => self,
            1..=127 => U256([l >> s | h << (128 - s), h >> s]),
            _ => U256([h >> (s - 128), 0]),
        }
    }
    pub fn leading_zeros(self) -> u32 {
        if self.0[1] != 0 { self.0[1].leading_zeros() } else { 128 + self.0[0].leading_zeros() }
    }
    pub fn swap_bytes(self) -> U256 { U256([self.0[1].swap_bytes(), self.0[0].swap_bytes()]) }
    pub fn to_be(self) -> U256 { self.swap_bytes() }
    pub fn to_le(self) -> U256 { self }
    pub fn from_be_bytes(b: [u8; 32]) -> U256 {
        let mut r = b;
        r.reverse();
        U256::from_le_bytes(r)
    }
    pub fn from_le_bytes(b: [u8; 32]) -> U256 {
        U256([u128::from_le_bytes(b[..16].try_into().unwrap()), u128::from_le_bytes(b[16..].try_into().unwrap())])
    }
    pub fn to_le_bytes(self) -> [u8; 32] {
        let mut r = [0; 32];
        r[..16].copy_from_slice(&self.0[0].to_le_bytes());
        r[16..].copy_from_slice(&self.0[1].to_le_bytes());
        r
    }
    pub fn to_be_bytes(self) -> [u8; 32] {
        let mut r = self.to_le_bytes();
        r.reverse();
        r
    }
    pub fn as_i256(self) -> I256 { I256([self.0[0] as i128, self.0[1] as i128]) }
}

impl I256 {
    pub fn as_u256(self) -> U256 { U256([self.0[0] as u128, self.0[1] as u128]) }
    pub fn is_negative(self) -> bool { self.0[1] < 0 }
    fn magnitude(self) -> U256 {
        if self.is_negative() { self.as_u256().wrapping_neg() } else { self.as_u256() }
    }
    pub fn wrapping_div(self, o: I256) -> I256 {
        let q = self.magnitude().wrapping_div(o.magnitude());
        (if self.is_negative() != o.is_negative() { q.wrapping_neg() } else { q }).as_i256()
    }
    pub fn wrapping_rem(self, o: I256) -> I256 {
        let r = self.magnitude().wrapping_rem(o.magnitude());
        (if self.is_negative() { r.wrapping_neg() } else { r }).as_i256()
    }
}

impl PartialOrd for U256 { fn partial_cmp(&self, o: &U256) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for U256 { fn cmp(&self, o: &U256) -> Ordering { (self.0[1], self.0[0]).cmp(&(o.0[1], o.0[0])) } }
impl PartialOrd for I256 { fn partial_cmp(&self, o: &I256) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for I256 { fn cmp(&self, o: &I256) -> Ordering { (self.0[1], self.0[0] as u128).cmp(&(o.0[1], o.0[0] as u128)) } }

macro_rules! from { ($($t:ty),*) => { $(impl From<$t> for U256 { fn from(v: $t) -> U256 { U256([v as u128, 0]) } })* } }
from!(bool, u8, u16, u32, u64, u128);

macro_rules! binary { ($($tr:ident $f:ident $tra:ident $fa:ident $e:expr;)*) => { $(
    impl $tr for U256 { type Output = U256; fn $f(self, o: U256) -> U256 { $e(self, o) } }
    impl $tra for U256 { fn $fa(&mut self, o: U256) { *self = $e(*self, o) } }
)* } }
binary! {
    Add add AddAssign add_assign U256::wrapping_add;
    Sub sub SubAssign sub_assign U256::wrapping_sub;
    Mul mul MulAssign mul_assign U256::wrapping_mul;
    Div div DivAssign div_assign U256::wrapping_div;
    Rem rem RemAssign rem_assign U256::wrapping_rem;
    BitAnd bitand BitAndAssign bitand_assign |a: U256, b: U256| U256([a.0[0] & b.0[0], a.0[1] & b.0[1]]);
    BitOr bitor BitOrAssign bitor_assign |a: U256, b: U256| U256([a.0[0] | b.0[0], a.0[1] | b.0[1]]);
    BitXor bitxor BitXorAssign bitxor_assign |a: U256, b: U256| U256([a.0[0] ^ b.0[0], a.0[1] ^ b.0[1]]);
}
impl Not for U256 { type Output = U256; fn not(self) -> U256 { U256([!self.0[0], !self.0[1]]) } }

macro_rules! shifts { ($($t:ty),*) => { $(
    impl Shl<$t> for U256 { type Output = U256; fn shl(self, s: $t) -> U256 { self.wrapping_shl(s as u32) } }
    impl Shr<$t> for U256 { type Output = U256; fn shr(self, s: $t) -> U256 { self.wrapping_shr(s as u32) } }
)* } }
shifts!(u8, u16, u32, u64, usize, i32, i64);

impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let (mut v, mut s) = (*self, Vec::new());
        let ten = U256::from(10u8);
        loop {
            let (q, r) = v.div_rem(ten);
            s.push(b'0' + r.0[0] as u8);
            v = q;
            if v == U256::ZERO { break; }
        }
        s.reverse();
        f.pad_integral(true, "", std::str::from_utf8(&s).unwrap())
    }
}
