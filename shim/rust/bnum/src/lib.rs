//! Stand-in for the bnum crate: wide unsigned integers of 64-bit digits, the lowest first.
pub mod cast {
    pub trait CastFrom<T> { fn cast_from(from: T) -> Self; }
}

pub mod types {
    pub type U256 = super::BUint<4>;
    pub type U512 = super::BUint<8>;
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct BUint<const N: usize> { digits: [u64; N] }

impl<const N: usize> BUint<N> {
    pub const fn from_digits(digits: [u64; N]) -> Self { BUint { digits } }
    pub const fn digits(&self) -> &[u64; N] { &self.digits }

    fn bits(&self) -> usize {
        (0..N).rev().find(|i| self.digits[*i] != 0).map_or(0, |i| 64 * i + 64 - self.digits[i].leading_zeros() as usize)
    }
    fn less(&self, o: &Self) -> bool { self.digits.iter().rev().lt(o.digits.iter().rev()) }
    fn sub(&mut self, o: &Self) {
        let mut borrow = false;
        for i in 0..N {
            let (d, b1) = self.digits[i].overflowing_sub(o.digits[i]);
            let (d, b2) = d.overflowing_sub(borrow as u64);
            self.digits[i] = d;
            borrow = b1 || b2;
        }
    }
    fn shl(&self, s: usize) -> Self {
        let mut r = [0; N];
        for i in s / 64..N {
            r[i] = self.digits[i - s / 64] << (s % 64);
            if s % 64 > 0 && i > s / 64 { r[i] |= self.digits[i - s / 64 - 1] >> (64 - s % 64); }
        }
        BUint { digits: r }
    }
    fn half(&mut self) {
        for i in 0..N {
            self.digits[i] = self.digits[i] >> 1 | if i + 1 < N { self.digits[i + 1] << 63 } else { 0 };
        }
    }
    pub fn rem(self, m: Self) -> Self {
        assert!(m.bits() > 0, "attempt to calculate remainder with a divisor of zero");
        let mut r = self;
        if r.less(&m) { return r; }
        let s = r.bits() - m.bits();
        let mut d = m.shl(s);
        for _ in 0..=s {
            if !r.less(&d) { r.sub(&d); }
            d.half();
        }
        r
    }
}

impl<const N: usize, const M: usize> cast::CastFrom<BUint<M>> for BUint<N> {
    fn cast_from(f: BUint<M>) -> Self {
        let mut digits = [0; N];
        for i in 0..N.min(M) { digits[i] = f.digits[i]; }
        BUint { digits }
    }
}

impl<const N: usize> std::ops::Add for BUint<N> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let (mut r, mut carry) = ([0; N], 0u128);
        for i in 0..N {
            carry += self.digits[i] as u128 + o.digits[i] as u128;
            r[i] = carry as u64;
            carry >>= 64;
        }
        BUint { digits: r }
    }
}

impl<const N: usize> std::ops::Mul for BUint<N> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let mut r = [0u64; N];
        for i in 0..N {
            let mut carry = 0u128;
            for j in 0..N - i {
                carry += self.digits[i] as u128 * o.digits[j] as u128 + r[i + j] as u128;
                r[i + j] = carry as u64;
                carry >>= 64;
            }
        }
        BUint { digits: r }
    }
}

impl<const N: usize> std::ops::Rem for BUint<N> {
    type Output = Self;
    fn rem(self, o: Self) -> Self { BUint::rem(self, o) }
}
