//! Reference models: AGA8 DETAIL and GERG-2008 written from the published Helmholtz-energy
//! formulas, with frozen coefficients (tables.rs) and automatic differentiation.
//! No state, no caches, no hand-written derivatives.
use crate::num::{c, E, J};
use crate::tables::*;

pub const RD: f64 = 8.31451;
pub const RG: f64 = 8.314472;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Model {
    Detail,
    Gerg,
}
impl Model {
    pub fn r(self) -> f64 {
        match self {
            Model::Detail => RD,
            Model::Gerg => RG,
        }
    }
}

/// Reference values of every output quantity, with error bounds.
#[derive(Clone, Copy, Debug, Default)]
pub struct RefProps {
    pub mm: E,
    pub p: E,
    pub z: E,
    pub dp_dd: E,
    pub d2p_dd2: E,
    pub d2p_dtd: E,
    pub dp_dt: E,
    pub u: E,
    pub h: E,
    pub s: E,
    pub cv: E,
    pub cp: E,
    pub w2: E,
    pub g: E,
    pub jt: E,
    pub kappa: E,
}

type R4 = J<4>; // series in density
type T3 = J<3>; // series in temperature

/// Sum of separable terms: Taylor coefficients in (density, temperature).
struct Acc([[E; 3]; 4]);
impl Acc {
    fn new() -> Self {
        Acc([[E::default(); 3]; 4])
    }
    fn add(&mut self, r: &R4, t: &T3) {
        for i in 0..4 {
            for j in 0..3 {
                self.0[i][j] = self.0[i][j] + r.0[i] * t.0[j];
            }
        }
    }
}

fn xs(x: &[f64; 21]) -> Vec<(usize, E)> {
    (0..21).filter(|&i| x[i] > 0.0).map(|i| (i, c(x[i]))).collect()
}

/// Residual Helmholtz energy / R (K) as a series in (d, T), i.e. T * alpha_r for both models.
fn detail_residual(x: &[f64; 21], t: f64, d: f64) -> Acc {
    let comp = xs(x);
    let mut k5a = c(0.0);
    let mut u5a = c(0.0);
    let (mut g, mut q, mut f) = (c(0.0), c(0.0), c(0.0));
    for &(i, xi) in &comp {
        k5a = k5a + xi * c(D_KI[i]).powf(2.5);
        u5a = u5a + xi * c(D_EI[i]).powf(2.5);
        g = g + xi * c(D_GI[i]);
        q = q + xi * c(D_QI[i]);
        f = f + xi * xi * c(D_FI[i]);
    }
    let mut k5 = k5a * k5a;
    let mut u5 = u5a * u5a;
    for (a, &(i, xi)) in comp.iter().enumerate() {
        for &(j, xj) in &comp[a + 1..] {
            let xx = c(2.0) * xi * xj;
            k5 = k5 + xx * (c(D_KIJ[i][j]).powf(5.0) - c(1.0)) * (c(D_KI[i]) * c(D_KI[j])).powf(2.5);
            u5 = u5 + xx * (c(D_UIJ[i][j]).powf(5.0) - c(1.0)) * (c(D_EI[i]) * c(D_EI[j])).powf(2.5);
            g = g + xi * xj * (c(D_GIJ[i][j]) - c(1.0)) * (c(D_GI[i]) + c(D_GI[j]));
        }
    }
    let kk = k5.powf(0.2);
    let k3 = kk * kk * kk;
    let uu = u5.powf(0.2);
    let rho = R4::var(d);
    let dred = rho.scale(k3);
    let tj = T3::var(t);
    let lnt = tj.ln();
    // T^(1-u): T * alpha
    let tpow: Vec<T3> = (0..58)
        .map(|n| lnt.scale(c(1.0 - D_UN[n])).exp())
        .collect();
    let dp: Vec<R4> = (0..10).map(|b| dred.powi(b)).collect();
    let ex: Vec<R4> = (0..5)
        .map(|k| if k == 0 { R4::constant(c(1.0)) } else { dp[k].scale(c(-1.0)).exp() })
        .collect();
    let mut acc = Acc::new();
    // Second virial terms 1..18
    for n in 0..18 {
        let mut b = c(0.0);
        for (a, &(i, xi)) in comp.iter().enumerate() {
            for (bb, &(j, xj)) in comp.iter().enumerate().skip(a) {
                let (eij, gij) = if i == j { (1.0, 1.0) } else { (D_EIJ[i][j], D_GIJ[i][j]) };
                let e = c(eij) * (c(D_EI[i]) * c(D_EI[j])).sqrt();
                let mut star = c(1.0);
                let on = |f: u32| f == 1;
                if on(D_FLAG_GN[n]) {
                    star = star * c(gij) * (c(D_GI[i]) + c(D_GI[j])) / c(2.0);
                }
                if on(D_FLAG_QN[n]) {
                    star = star * c(D_QI[i]) * c(D_QI[j]);
                }
                if on(D_FLAG_FN[n]) {
                    star = star * c(D_FI[i]) * c(D_FI[j]);
                }
                if on(D_FLAG_SN[n]) {
                    star = star * c(D_SI[i]) * c(D_SI[j]);
                }
                if on(D_FLAG_WN[n]) {
                    star = star * c(D_WI[i]) * c(D_WI[j]);
                }
                if star.v == 0.0 {
                    continue;
                }
                let m = if bb == a { 1.0 } else { 2.0 };
                b = b + c(m) * xi * xj * e.powf(D_UN[n]) * (c(D_KI[i]) * c(D_KI[j])).powf(1.5) * star;
            }
        }
        acc.add(&rho.scale(b * c(D_AN[n])), &tpow[n]);
    }
    // Terms 13..58
    for n in 12..58 {
        let mut cs = c(D_AN[n]) * uu.powf(D_UN[n]);
        if D_FLAG_GN[n] == 1 {
            cs = cs * g;
        }
        if D_FLAG_QN[n] == 1 {
            cs = cs * q * q;
        }
        if D_FLAG_FN[n] == 1 {
            cs = cs * f;
        }
        if cs.v == 0.0 {
            continue;
        }
        let mut dens = dp[D_BN[n] as usize] * ex[D_KN[n] as usize];
        if n < 18 {
            dens = dens - dred;
        }
        acc.add(&dens.scale(cs), &tpow[n]);
    }
    acc
}

fn gerg_residual(x: &[f64; 21], t: f64, d: f64) -> Acc {
    let comp: Vec<(usize, E)> = xs(x).into_iter().map(|(i, v)| (i + 1, v)).collect();
    // reducing density and temperature from the raw beta/gamma parameters
    let (mut vr, mut tr) = (c(0.0), c(0.0));
    for (a, &(i, xi)) in comp.iter().enumerate() {
        vr = vr + xi * xi / c(G_DC[i]);
        tr = tr + xi * xi * c(G_TC[i]);
        for &(j, xj) in &comp[a + 1..] {
            let (bv, gv) = (c(G_RAW_BVIJ[i][j]), c(G_RAW_GVIJ[i][j]));
            let (bt, gt) = (c(G_RAW_BTIJ[i][j]), c(G_RAW_GTIJ[i][j]));
            let third = 1.0 / 3.0;
            let s = c(1.0) / c(G_DC[i]).powf(third) + c(1.0) / c(G_DC[j]).powf(third);
            let v0 = s * s * s * c(0.125);
            let t0 = (c(G_TC[i]) * c(G_TC[j])).sqrt();
            let xx = c(2.0) * xi * xj;
            vr = vr + xx * bv * gv * (xi + xj) / (bv * bv * xi + xj) * v0;
            tr = tr + xx * bt * gt * (xi + xj) / (bt * bt * xi + xj) * t0;
        }
    }
    let del = R4::var(d).scale(vr);
    let lntau = T3::constant(tr.ln()) - T3::var(t).ln();
    let tj = T3::var(t);
    // memoise tau^k and delta powers within this single evaluation
    let dp: Vec<R4> = (0..8).map(|b| del.powi(b)).collect();
    let ex: Vec<R4> = (0..8)
        .map(|k| if k == 0 { R4::constant(c(1.0)) } else { dp[k].scale(c(-1.0)).exp() })
        .collect();
    let mut acc = Acc::new();
    let mut seen: Vec<(u64, T3)> = Vec::new();
    let mut taup = |k: f64| -> T3 {
        let b = k.to_bits();
        if let Some(p) = seen.iter().find(|p| p.0 == b) {
            return p.1;
        }
        let v = lntau.scale(c(k)).exp() * tj;
        seen.push((b, v));
        v
    };
    for &(i, xi) in &comp {
        let n = (G_KPOL[i] + G_KEXP[i]) as usize;
        for k in 1..=n {
            let cc = if k <= G_KPOL[i] as usize { 0 } else { G_COIK[i][k] as usize };
            let dens = dp[G_DOIK[i][k] as usize] * ex[cc];
            acc.add(&dens.scale(xi * c(G_NOIK[i][k])), &taup(G_TOIK[i][k]));
        }
    }
    for (a, &(i, xi)) in comp.iter().enumerate() {
        for &(j, xj) in &comp[a + 1..] {
            let mn = G_MNUMB[i][j] as usize;
            if mn == 0 {
                continue;
            }
            let xf = xi * xj * c(G_FIJ[i][j]);
            let n = (G_KPOLIJ[mn] + G_KEXPIJ[mn]) as usize;
            for k in 1..=n {
                let mut dens = dp[G_DIJK[mn][k] as usize];
                if k > G_KPOLIJ[mn] as usize {
                    // exp(-eta (delta - eps)^2 - beta (delta - gamma))
                    let (eta, eps) = (G_CIJK[mn][k], G_EIJK[mn][k]);
                    let (beta, gam) = (G_BIJK[mn][k], G_GIJK[mn][k]);
                    let de = del - R4::constant(c(eps));
                    let dg = del - R4::constant(c(gam));
                    let arg = (de * de).scale(c(-eta)) - dg.scale(c(beta));
                    dens = dens * arg.exp();
                }
                acc.add(&dens.scale(xf * c(G_NIJK[mn][k])), &taup(G_TIJK[mn][k]));
            }
        }
    }
    acc
}

/// T * alpha0 as a series in T (the density part, T * sum(x) * ln d, is handled by the caller).
fn ideal(model: Model, x: &[f64; 21], t: f64) -> T3 {
    let tj = T3::var(t);
    let lnt = tj.ln();
    let inv = tj.recip();
    let mut s = T3::constant(c(0.0));
    let one = T3::constant(c(1.0));
    let _ = one;
    for (i, xi) in xs(x) {
        // (n1, n2, n3, [(coefficient, theta, is_sinh)])
        let (n, th, rr, r) = match model {
            Model::Detail => {
                let mut n = [0.0; 8];
                n[1..].copy_from_slice(&D_N0I[i]);
                let mut th = [0.0; 8];
                th[1..].copy_from_slice(&D_TH0I[i]);
                (n, th, 1.0, RD)
            }
            Model::Gerg => (G_N0I[i + 1], G_TH0I[i + 1], 8.31451 / RG, RG),
        };
        let rr = c(rr);
        // density of the reference state 298.15 K, 101.325 kPa
        let d0 = c(101.325) / c(r) / c(298.15);
        let t0 = match model {
            Model::Detail => 0.0,
            Model::Gerg => 298.15,
        };
        // cp0/R coefficient minus one gives cv; the published a0 uses R* for the ideal part
        let n1 = rr * c(n[1]) - d0.ln();
        let n2 = (c(n[2]) + c(t0)) * rr - c(t0);
        let n3 = rr * (c(n[3]) - c(1.0));
        let mut a = T3::constant(xi.ln() + n1) + inv.scale(n2) - lnt.scale(n3);
        for k in 4..8 {
            if th[k] > 0.0 {
                let u = inv.scale(c(th[k]));
                let (ep, em) = (u.exp(), u.scale(c(-1.0)).exp());
                let nk = rr * c(n[k]);
                if k == 4 || k == 6 {
                    a = a + (ep - em).scale(c(0.5)).ln().scale(nk);
                } else {
                    a = a - (ep + em).scale(c(0.5)).ln().scale(nk);
                }
            }
        }
        s = s + a.scale(xi);
    }
    s * tj
}

pub fn molar_mass(model: Model, x: &[f64; 21]) -> E {
    let mut m = c(0.0);
    for i in 0..21 {
        let mi = match model {
            Model::Detail => D_MMI[i],
            Model::Gerg => G_MMI[i + 1],
        };
        m = m + c(x[i]) * c(mi);
    }
    m
}

fn residual(model: Model, x: &[f64; 21], t: f64, d: f64) -> Acc {
    match model {
        Model::Detail => detail_residual(x, t, d),
        Model::Gerg => gerg_residual(x, t, d),
    }
}

/// Pressure, compressibility factor and dP/dd
pub fn pressure(model: Model, x: &[f64; 21], t: f64, d: f64) -> (E, E, E) {
    let a = residual(model, x, t, d).0;
    let r = c(model.r());
    let rho = c(d);
    let f = |i: usize, j: usize| {
        let k = [1.0, 1.0, 2.0, 6.0];
        a[i][j] * c(k[i] * k[j]) * r
    };
    let rt = r * c(t);
    let z = c(1.0) + rho * f(1, 0) / rt;
    (rho * rt * z, z, rt + c(2.0) * rho * f(1, 0) + rho * rho * f(2, 0))
}

/// All properties at density d > 0.
pub fn properties(model: Model, x: &[f64; 21], t: f64, d: f64) -> RefProps {
    let a = residual(model, x, t, d).0;
    let a0 = ideal(model, x, t);
    let r = c(model.r());
    let f = |i: usize, j: usize| {
        let k = [1.0, 1.0, 2.0, 6.0];
        a[i][j] * c(k[i] * k[j]) * r
    };
    let (tt, rho) = (c(t), c(d));
    let rt = r * tt;
    let mut xsum = c(0.0);
    for (_, xi) in xs(x) {
        xsum = xsum + xi;
    }
    let lnd = rho.ln();
    // Helmholtz energy and its T-derivatives at constant density
    let a00 = a0.d(0) * r + rt * xsum * lnd;
    let a01 = a0.d(1) * r + r * xsum * lnd;
    let a02 = a0.d(2) * r;
    let aa = a00 + f(0, 0);
    let ent = -(a01 + f(0, 1));
    let cv = -(tt * (a02 + f(0, 2)));
    let u = a00 - tt * a01 + f(0, 0) - tt * f(0, 1);
    // the pressure of the models is d R T (1 + ...) with unit ideal part
    let z = c(1.0) + rho * f(1, 0) / rt;
    let p = rho * rt * z;
    let dp_dd = rt + c(2.0) * rho * f(1, 0) + rho * rho * f(2, 0);
    let d2p_dd2 = c(2.0) * f(1, 0) + c(4.0) * rho * f(2, 0) + rho * rho * f(3, 0);
    let dp_dt = rho * r + rho * rho * f(1, 1);
    let d2p_dtd = r + c(2.0) * rho * f(1, 1) + rho * rho * f(2, 1);
    let pv = rt * z;
    let h = u + pv;
    let g = aa + pv;
    let q = dp_dt / rho;
    let cp = cv + tt * q * q / dp_dd;
    let jt = (tt / rho * dp_dt / dp_dd - c(1.0)) / cp / rho;
    let mm = molar_mass(model, x);
    let w2 = c(1000.0) * cp / cv * dp_dd / mm;
    let kappa = w2 * mm / (rt * c(1000.0) * z);
    RefProps { mm, p, z, dp_dd, d2p_dd2, d2p_dtd, dp_dt, u, h, s: ent, cv, cp, w2, g, jt, kappa }
}

/// Ideal-gas u, h, cv, cp and w^2 (the limit of vanishing density; fractions summing to one).
pub struct IdealProps {
    pub u: E,
    pub h: E,
    pub cv: E,
    pub cp: E,
    pub w2: E,
    pub kappa: E,
}
pub fn ideal_properties(model: Model, x: &[f64; 21], t: f64) -> IdealProps {
    let a0 = ideal(model, x, t);
    let r = c(model.r());
    let tt = c(t);
    let u = (a0.d(0) - tt * a0.d(1)) * r;
    let h = u + r * tt;
    let cv = -(tt * a0.d(2) * r);
    let cp = cv + r;
    let kappa = cp / cv;
    let w2 = c(1000.0) * kappa * r * tt / molar_mass(model, x);
    IdealProps { u, h, cv, cp, w2, kappa }
}
