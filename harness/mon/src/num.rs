//! Exact arithmetic for the oracles.

#[allow(dead_code)]
#[path = "../../vendor/decimal/src/wide.rs"]
pub mod wide;

/// floor and 64 bit fraction of a * b * c / d (d > 0), saturating the integer
/// part at u128::MAX. The true value is in [r, r + 2^-64).
pub fn mul3_div(a: u128, b: u64, c: u64, d: u64) -> (u128, u64) {
    // a*b : up to 192 bits; *c : up to 256 bits
    let mut n = [a as u64, (a >> 64) as u64, 0, 0];
    for m in [b, c] {
        let mut carry = 0u128;
        for l in n.iter_mut() {
            let t = *l as u128 * m as u128 + carry;
            *l = t as u64;
            carry = t >> 64;
        }
    }
    let mut rem = 0u128;
    let mut q = [0u64; 4];
    for i in (0..4).rev() {
        let cur = (rem << 64) | n[i] as u128;
        q[i] = (cur / d as u128) as u64;
        rem = cur % d as u128;
    }
    let frac = ((rem << 64) / d as u128) as u64;
    if q[2] != 0 || q[3] != 0 {
        return (u128::MAX, 0);
    }
    (q[0] as u128 | (q[1] as u128) << 64, frac)
}

/// A sum of non-negative rationals, kept as an enclosing interval.
#[derive(Clone, Copy, Debug, Default)]
pub struct Sum {
    int: u128,
    frac: u64,
    terms: u64,
}

impl Sum {
    pub fn add(&mut self, v: (u128, u64)) {
        let f = self.frac as u128 + v.1 as u128;
        self.frac = f as u64;
        self.int = self
            .int
            .saturating_add(v.0)
            .saturating_add(f >> 64);
        self.terms += 1;
    }
    /// floor of the smallest possible value
    pub fn lo(&self) -> u128 {
        self.int
    }
    /// floor of the largest possible value
    pub fn hi(&self) -> u128 {
        let f = self.frac as u128 + self.terms as u128;
        self.int.saturating_add(f >> 64)
    }
}

use std::cmp::Ordering;
use wide::W;

/// Non-negative integer of up to 640 bits; None once something overflowed.
#[derive(Clone, Copy, Debug)]
pub struct Big(pub Option<W>);

impl Big {
    pub fn of(v: impl Into<u128>) -> Self {
        Big(Some(wide::from_u128(v.into())))
    }
    pub fn limbs(l: &[u64]) -> Self {
        Big(Some(wide::from_limbs(l)))
    }
    pub fn pow(self, n: usize) -> Self {
        let mut r = Big::of(1u64);
        for _ in 0..n {
            r = r * self;
        }
        r
    }
    pub fn shl(self, n: u32) -> Self {
        self * Big::of(1u128 << n)
    }
    /// floor
    pub fn div(self, o: Self) -> Self {
        Big(match (self.0, o.0) {
            (Some(a), Some(b)) if !wide::is_zero(&b) => {
                wide::div_rem(&a, &b).map(|r| r.0)
            }
            _ => None,
        })
    }
    pub fn cmp(&self, o: &Self) -> Option<Ordering> {
        Some(wide::cmp(&self.0?, &o.0?))
    }
    pub fn min(self, o: Self) -> Self {
        match self.cmp(&o) {
            Some(Ordering::Greater) => o,
            Some(_) => self,
            None => Big(None),
        }
    }
    /// saturating at zero
    pub fn minus(self, o: Self) -> Self {
        match self.cmp(&o) {
            Some(Ordering::Greater) => Big(wide::sub(&self.0.unwrap(), &o.0.unwrap())),
            Some(_) => Big::of(0u64),
            None => Big(None),
        }
    }
    pub fn f64(&self) -> f64 {
        match self.0 {
            None => f64::NAN,
            Some(w) => w.iter().rev().fold(0f64, |a, l| a * 18446744073709551616.0 + *l as f64),
        }
    }
    pub fn u128(&self) -> Option<u128> {
        let w = self.0?;
        if w[2..].iter().any(|l| *l != 0) {
            return None;
        }
        Some(w[0] as u128 | (w[1] as u128) << 64)
    }
}

impl std::ops::Mul for Big {
    type Output = Big;
    fn mul(self, o: Big) -> Big {
        Big(match (self.0, o.0) {
            (Some(a), Some(b)) => wide::mul(&a, &b),
            _ => None,
        })
    }
}
impl std::ops::Add for Big {
    type Output = Big;
    fn add(self, o: Big) -> Big {
        Big(match (self.0, o.0) {
            (Some(a), Some(b)) => wide::add(&a, &b),
            _ => None,
        })
    }
}

pub const WAD: u64 = 1_000_000_000_000_000_000;

/// What a constant product pair pays for `net` sold tokens.
pub fn const_out(x: u64, y: u64, net: u64) -> u64 {
    let k = x as u128 * y as u128;
    let d = x as u128 + net as u128;
    let rest = k / d + (k % d != 0) as u128;
    (y as u128 - rest) as u64
}

/// Sign of `D^(n+1) + D (A n^n - 1) n^n P - A n^n n^n S P` at
/// D = d / 2^shift: Less below the root, Greater above.
pub fn stable_d_sign(amp: u64, xs: &[u64], d: Big, shift: u32) -> Option<Ordering> {
    let n = xs.len();
    let nn = Big::of((n as u64).pow(n as u32));
    let a = Big::of(amp) * nn;
    let p = xs.iter().fold(Big::of(1u64), |p, x| p * Big::of(*x));
    let s = xs.iter().fold(Big::of(0u64), |s, x| s + Big::of(*x));
    let up = |k: u32| Big::of(2u64).pow((shift * k) as usize);
    let nnp = nn * p;
    let left = d.pow(n + 1) + d * a * nnp * up(n as u32);
    let right = a * s * nnp * up(n as u32 + 1) + d * nnp * up(n as u32);
    left.cmp(&right)
}

/// Sign of `A n^n y^2 + (A n^n S' + D - A n^n D) y - D^(n+1) / (n^n P')` at
/// the buy reserve y, with D = d / 2^shift: Less below the root.
pub fn stable_y_sign(
    amp: u64,
    others: &[u64],
    y: Big,
    d: Big,
    shift: u32,
) -> Option<Ordering> {
    let n = others.len() + 1;
    let nn = Big::of((n as u64).pow(n as u32));
    let a = Big::of(amp) * nn;
    let p = others.iter().fold(Big::of(1u64), |p, x| p * Big::of(*x));
    let s = others.iter().fold(Big::of(0u64), |s, x| s + Big::of(*x));
    let up = |k: usize| Big::of(2u64).pow(shift as usize * k);
    let nnp = nn * p;
    let k = n + 1;
    let left = a * y * y * nnp * up(k) + (a * s * up(k) + d * up(k - 1)) * nnp * y;
    let right = a * d * up(k - 1) * nnp * y + d.pow(k);
    left.cmp(&right)
}
