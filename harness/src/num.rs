//! Numbers that carry a running rounding-error bound, and truncated Taylor series over them.
//!
//! The reference equations of state are evaluated with these: derivatives come from the
//! series arithmetic (automatic differentiation) instead of hand-derived formulas, and the
//! error bound says how far a *correct* floating-point evaluation may be from ours.
use std::ops::{Add, Div, Mul, Neg, Sub};

const U: f64 = 1.2e-16; // slightly above half an ulp

#[derive(Clone, Copy, Debug, Default)]
pub struct E {
    pub v: f64,
    pub e: f64,
}

#[inline]
pub fn c(v: f64) -> E {
    E { v, e: 0.0 }
}

impl E {
    #[inline]
    fn mk(v: f64, e: f64) -> E {
        E {
            v,
            e: e + v.abs() * U,
        }
    }
    pub fn ln(self) -> E {
        let v = self.v.ln();
        E::mk(v, self.e / self.v.abs() + v.abs() * U)
    }
    pub fn exp(self) -> E {
        let v = self.v.exp();
        E::mk(v, v * self.e + v * U)
    }
    pub fn sqrt(self) -> E {
        let v = self.v.sqrt();
        E::mk(v, self.e / (2.0 * v))
    }
    pub fn powf(self, p: f64) -> E {
        let v = self.v.powf(p);
        E::mk(v, (p * v / self.v).abs() * self.e + v.abs() * U)
    }
}
impl Add for E {
    type Output = E;
    #[inline]
    fn add(self, o: E) -> E {
        E::mk(self.v + o.v, self.e + o.e)
    }
}
impl Sub for E {
    type Output = E;
    #[inline]
    fn sub(self, o: E) -> E {
        E::mk(self.v - o.v, self.e + o.e)
    }
}
impl Mul for E {
    type Output = E;
    #[inline]
    fn mul(self, o: E) -> E {
        E::mk(
            self.v * o.v,
            self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e,
        )
    }
}
impl Div for E {
    type Output = E;
    #[inline]
    fn div(self, o: E) -> E {
        let v = self.v / o.v;
        E::mk(v, (self.e + v.abs() * o.e) / o.v.abs())
    }
}
impl Neg for E {
    type Output = E;
    #[inline]
    fn neg(self) -> E {
        E {
            v: -self.v,
            e: self.e,
        }
    }
}

/// Truncated Taylor series c0 + c1 h + ... + c(N-1) h^(N-1).
#[derive(Clone, Copy, Debug)]
pub struct J<const N: usize>(pub [E; N]);

impl<const N: usize> J<N> {
    pub fn constant(v: E) -> Self {
        let mut a = [E::default(); N];
        a[0] = v;
        J(a)
    }
    pub fn var(v: f64) -> Self {
        let mut a = [E::default(); N];
        a[0] = c(v);
        a[1] = c(1.0);
        J(a)
    }
    pub fn scale(self, k: E) -> Self {
        J(self.0.map(|x| x * k))
    }
    pub fn recip(self) -> Self {
        let u = self.0;
        let mut y = [E::default(); N];
        y[0] = c(1.0) / u[0];
        for k in 1..N {
            let mut s = E::default();
            for j in 1..=k {
                s = s + u[j] * y[k - j];
            }
            y[k] = -(s * y[0]);
        }
        J(y)
    }
    pub fn exp(self) -> Self {
        let u = self.0;
        let mut y = [E::default(); N];
        y[0] = u[0].exp();
        for k in 1..N {
            let mut s = E::default();
            for j in 1..=k {
                s = s + c(j as f64) * u[j] * y[k - j];
            }
            y[k] = s / c(k as f64);
        }
        J(y)
    }
    pub fn ln(self) -> Self {
        let u = self.0;
        let mut y = [E::default(); N];
        y[0] = u[0].ln();
        for k in 1..N {
            let mut s = u[k];
            for j in 1..k {
                s = s - c(j as f64 / k as f64) * y[j] * u[k - j];
            }
            y[k] = s / u[0];
        }
        J(y)
    }
    pub fn powi(self, n: u32) -> Self {
        let mut y = J::constant(c(1.0));
        for _ in 0..n {
            y = y * self;
        }
        y
    }
    /// k-th derivative
    pub fn d(&self, k: usize) -> E {
        let mut f = 1.0;
        for i in 2..=k {
            f *= i as f64;
        }
        self.0[k] * c(f)
    }
}
impl<const N: usize> Add for J<N> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let mut y = self.0;
        for k in 0..N {
            y[k] = y[k] + o.0[k];
        }
        J(y)
    }
}
impl<const N: usize> Sub for J<N> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        let mut y = self.0;
        for k in 0..N {
            y[k] = y[k] - o.0[k];
        }
        J(y)
    }
}
impl<const N: usize> Mul for J<N> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let mut y = [E::default(); N];
        for k in 0..N {
            for j in 0..=k {
                y[k] = y[k] + self.0[j] * o.0[k - j];
            }
        }
        J(y)
    }
}
