//! C23, C24: the named components against data which is independent of the library, and the
//! vapour-liquid equilibrium of pure substances.
use super::thermo::model;
use crate::gens::*;
use crate::inst::*;
use crate::reference::Model;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Atoms (C, H, N, O, S, He, Ar), critical temperature (K), pressure (kPa), density (mol/l), acentric factor,
/// ideal heat capacity at 298.15 K (J/mol-K): common reference-book values.
pub struct Sub0 {
    atoms: [f64; 7],
    tc: f64,
    pc: f64,
    dc: f64,
    w: f64,
    cp: f64,
}
const fn s(atoms: [f64; 7], tc: f64, pc: f64, dc: f64, w: f64, cp: f64) -> Sub0 {
    Sub0 { atoms, tc, pc, dc, w, cp }
}
const fn ch(c: f64, h: f64) -> [f64; 7] {
    [c, h, 0.0, 0.0, 0.0, 0.0, 0.0]
}
pub const SUBS: [Sub0; 21] = [
    s(ch(1.0, 4.0), 190.56, 4599.2, 10.14, 0.0114, 35.69),
    s([0.0, 0.0, 2.0, 0.0, 0.0, 0.0, 0.0], 126.19, 3395.8, 11.18, 0.0372, 29.12),
    s([1.0, 0.0, 0.0, 2.0, 0.0, 0.0, 0.0], 304.13, 7377.3, 10.62, 0.2239, 37.13),
    s(ch(2.0, 6.0), 305.32, 4872.2, 6.86, 0.0995, 52.5),
    s(ch(3.0, 8.0), 369.89, 4251.2, 5.0, 0.1521, 73.6),
    s(ch(4.0, 10.0), 407.81, 3629.0, 3.88, 0.184, 96.65),
    s(ch(4.0, 10.0), 425.12, 3796.0, 3.92, 0.201, 98.5),
    s(ch(5.0, 12.0), 460.35, 3378.0, 3.27, 0.2274, 118.9),
    s(ch(5.0, 12.0), 469.7, 3370.0, 3.22, 0.251, 120.0),
    s(ch(6.0, 14.0), 507.82, 3034.0, 2.71, 0.299, 142.6),
    s(ch(7.0, 16.0), 540.13, 2736.0, 2.32, 0.349, 165.2),
    s(ch(8.0, 18.0), 569.32, 2497.0, 2.06, 0.393, 187.8),
    s(ch(9.0, 20.0), 594.55, 2281.0, 1.81, 0.4433, 210.4),
    s(ch(10.0, 22.0), 617.7, 2103.0, 1.64, 0.4884, 233.1),
    s(ch(0.0, 2.0), 33.15, 1296.4, 15.51, -0.219, 28.84),
    s([0.0, 0.0, 0.0, 2.0, 0.0, 0.0, 0.0], 154.58, 5043.0, 13.63, 0.0222, 29.38),
    s([1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0], 132.86, 3494.0, 10.85, 0.0497, 29.14),
    s([0.0, 2.0, 0.0, 1.0, 0.0, 0.0, 0.0], 647.1, 22064.0, 17.87, 0.3443, 33.59),
    s([0.0, 2.0, 0.0, 0.0, 1.0, 0.0, 0.0], 373.1, 9000.0, 10.19, 0.1005, 34.2),
    s([0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0], 5.195, 227.5, 17.4, -0.385, 20.786),
    s([0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0], 150.69, 4863.0, 13.41, -0.0022, 20.786),
];
const ATOMIC: [f64; 7] = [12.0107, 1.00794, 14.0067, 15.9994, 32.065, 4.002602, 39.948];

/// Ideal heat capacity, divided by R, of the simpler ones: NASA polynomials (300 K to 1000 K).
fn nasa(i: usize, t: f64) -> Option<f64> {
    let a = match i {
        0 => [5.14987613, -1.36709788e-2, 4.91800599e-5, -4.84743026e-8, 1.66693956e-11],
        1 => [3.298677, 1.4082404e-3, -3.963222e-6, 5.641515e-9, -2.444854e-12],
        2 => [2.35677352, 8.98459677e-3, -7.12356269e-6, 2.45919022e-9, -1.43699548e-13],
        3 => [4.29142492, -5.5015427e-3, 5.99438288e-5, -7.08466285e-8, 2.68685771e-11],
        4 => [0.93355381, 2.6424579e-2, 6.1059727e-6, -2.1977499e-8, 9.5149253e-12],
        14 => [2.34433112, 7.98052075e-3, -1.9478151e-5, 2.01572094e-8, -7.37611761e-12],
        18 => [4.12024455, -0.00187907426, 8.21426650e-06, -7.06425730e-09, 2.14234860e-12],
        15 => [3.78245636, -2.99673416e-3, 9.84730201e-6, -9.68129509e-9, 3.24372837e-12],
        16 => [3.57953347, -6.1035368e-4, 1.01681433e-6, 9.07005884e-10, -9.04424499e-13],
        17 => [4.19864056, -2.0364341e-3, 6.52040211e-6, -5.48797062e-9, 1.77197817e-12],
        19 | 20 => [2.5, 0.0, 0.0, 0.0, 0.0],
        _ => return None,
    };
    Some(a[0] + t * (a[1] + t * (a[2] + t * (a[3] + t * a[4]))))
}

/// Second virial coefficient times Pc/(R Tc): Tsonopoulos.
fn virial(tr: f64, w: f64) -> f64 {
    let f0 = 0.1445 - 0.330 / tr - 0.1385 / tr.powi(2) - 0.0121 / tr.powi(3) - 0.000607 / tr.powi(8);
    let f1 = 0.0637 + 0.331 / tr.powi(2) - 0.423 / tr.powi(3) - 0.008 / tr.powi(8);
    f0 + w * f1
}
/// Vapour pressure over Pc: Ambrose and Walton.
fn vapour(tr: f64, w: f64) -> f64 {
    let u = 1.0 - tr;
    let f0 = (-5.97616 * u + 1.29874 * u.powf(1.5) - 0.60394 * u.powf(2.5) - 1.06841 * u.powi(5)) / tr;
    let f1 = (-5.03365 * u + 1.11505 * u.powf(1.5) - 5.41217 * u.powf(2.5) - 7.46628 * u.powi(5)) / tr;
    let f2 = (-0.64771 * u + 2.41539 * u.powf(1.5) - 4.26979 * u.powf(2.5) + 3.25259 * u.powi(5)) / tr;
    (f0 + w * f1 + w * w * f2).exp()
}

/// The n-alkanes.
const ALKANES: [usize; 10] = [0, 3, 4, 6, 8, 9, 10, 11, 12, 13];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pure {
    pub m: Model,
    pub i: usize,
    #[serde(with = "fser")]
    pub t: f64,
}
fn pure(i: usize) -> X {
    let mut w = [0.0; 21];
    w[i] = 1.0;
    X(w)
}

fn c23(c: &Pure, o: &mut Obs) -> Result<(), String> {
    let q = &SUBS[c.i];
    let name = NAMES[c.i];
    let r = c.m.r();
    let mut k = Inst::with(c.m, &pure(c.i))?;
    let mut judge = |what: &str, got: f64, want: f64, tol: f64| {
        let e = (got - want).abs() / tol;
        o.max(what, e);
        if e <= 1.0 {
            Ok(())
        } else {
            Err(format!("{name} by {:?} at {} K: {what} = {got:e}, expected {want:e} within {tol:e}", c.m, c.t))
        }
    };
    let mm: f64 = q.atoms.iter().zip(ATOMIC).map(|(n, a)| n * a).sum();
    judge("molar mass", k.molar_mass(), mm, 1e-4 * mm)?;
    let z = k.props_at(c.t, 0.0).v;
    judge("molar mass with the properties", z[MM], mm, 1e-4 * mm)?;
    judge("ideal heat capacity at 298.15 K", k.props_at(298.15, 0.0).v[CP], q.cp, 2e-3 * q.cp)?;
    let cp = |i: usize| -> Result<f64, String> { Ok(Inst::with(c.m, &pure(i))?.props_at(c.t, 0.0).v[CP]) };
    if let Some(w) = nasa(c.i, c.t) {
        if c.t >= 300.0 && c.t <= 1000.0 {
            judge("ideal heat capacity", z[CP] / r, w, 0.02 * w)?;
        }
    }
    if let Some(n) = ALKANES.iter().position(|i| *i == c.i) {
        // a CH2 group more or less makes the same difference
        if n > 2 && n + 1 < ALKANES.len() && c.t >= 250.0 && c.t <= 600.0 {
            let w = 0.5 * (cp(ALKANES[n - 1])? + cp(ALKANES[n + 1])?);
            judge("ideal heat capacity, between the neighbours' in the series", z[CP], w, 0.03 * w)?;
        }
    }
    if (c.i == 5 || c.i == 7) && c.t >= 250.0 && c.t <= 600.0 {
        let w = cp(c.i + 1)?;
        judge("ideal heat capacity, isomer", z[CP], w, 0.05 * w)?;
    }
    let tr = c.t / q.tc;
    if tr > 0.7 && tr < 4.0 && ![14, 17, 19].contains(&c.i) && (c.m == Model::Gerg || (c.t >= 250.0 && c.t <= 600.0)) {
        let d = 1e-5;
        let b = (k.props_at(c.t, d).v[Z] - 1.0) / d * q.pc / (r * q.tc);
        let w = virial(tr, q.w);
        let (what, tol) = match c.m {
            Model::Gerg => ("reduced second virial coefficient, GERG", 0.02 + 0.05 * w.abs()),
            Model::Detail => ("reduced second virial coefficient, DETAIL", 0.06 + 0.2 * w.abs()),
        };
        judge(what, b, w, tol)?;
    }
    if c.m == Model::Gerg {
        let v = k.props_at(q.tc, q.dc).v;
        judge("critical pressure", v[P], q.pc, 0.01 * q.pc)?;
        judge("dP/dD over RT at the critical point", v[DPDD] / (r * q.tc), 0.0, 0.005)?;
    }
    o.label(name);
    o.nontrivial();
    Ok(())
}

/// Vapour and liquid in equilibrium: pressure and both states.
fn saturation(k: &mut Inst, i: usize, t: f64, flag: i32) -> Option<(f64, [f64; OUTN], [f64; OUTN])> {
    let q = &SUBS[i];
    let mut p = vapour(t / q.tc, q.w) * q.pc;
    for n in 0..20 {
        k.set_t(t);
        k.set_p(p);
        k.set_d(0.0);
        if k.density(flag) != DErr::Ok {
            return None;
        }
        k.properties();
        let v = k.out().v;
        k.set_p(p);
        k.set_d(-0.99 / (8.314472 * q.tc / q.pc * (0.29056 - 0.08775 * q.w).powf(1.0 + (1.0 - t / q.tc).powf(2.0 / 7.0))));
        if k.density(0) != DErr::Ok {
            return None;
        }
        k.properties();
        let l = k.out().v;
        if l[D] < 1.02 * v[D] {
            return None;
        }
        let dp = (v[G] - l[G]) / (1.0 / v[D] - 1.0 / l[D]);
        p -= dp;
        if !(p > 0.0) {
            return None;
        }
        if (dp / p).abs() < 1e-9 && n > 1 {
            return Some((p, v, l));
        }
    }
    None
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sat {
    pub i: usize,
    /// reduced temperature
    #[serde(with = "fser")]
    pub tr: f64,
    pub flag: i32,
}

fn c24(c: &Sat, o: &mut Obs) -> Result<(), String> {
    let q = &SUBS[c.i];
    let name = NAMES[c.i];
    let t = c.tr * q.tc;
    let mut k = Inst::with(Model::Gerg, &pure(c.i))?;
    let Some((p, v, l)) = saturation(&mut k, c.i, t, c.flag) else {
        if (0.85..0.97).contains(&c.tr) {
            return Err(format!("{name} at {t} K: no vapour and liquid in equilibrium found"));
        }
        o.label("no vapour and liquid in equilibrium found");
        return Ok(());
    };
    let judge = |what: &str, got: f64, want: f64, tol: f64, o: &mut Obs| {
        let e = (got - want).abs() / tol;
        o.max(what, e);
        if e <= 1.0 {
            Ok(())
        } else {
            Err(format!("{name} at {t} K and {p} kPa: {what} = {got:e}, expected {want:e} within {tol:e}"))
        }
    };
    let w = vapour(c.tr, q.w) * q.pc;
    judge("vapour pressure", p, w, if c.tr > 0.75 { 0.02 } else { 0.04 } * w, o)?;
    let dv = 1.0 / v[D] - 1.0 / l[D];
    judge("heat of evaporation, h against T s", v[H] - l[H], t * (v[S] - l[S]), 1e-7 * (v[H] - l[H]).abs(), o)?;
    if !(v[S] > l[S]) || !(l[D] > q.dc && v[D] < q.dc) {
        return Err(format!("{name} at {t} K: liquid {} mol/l, vapour {} mol/l, entropy of evaporation {}", l[D], v[D], v[S] - l[S]));
    }
    o.label(&format!("saturated {name}"));
    o.nontrivial();
    // Clausius and Clapeyron
    let h = 1e-4;
    let mut at = |f: f64| saturation(&mut k, c.i, t * (1.0 + f * h), c.flag);
    let (Some(a), Some(b)) = (at(-1.0), at(1.0)) else {
        o.label("neighbours not found");
        return Ok(());
    };
    let slope = (b.0 - a.0) / (2.0 * h * t);
    judge("slope of the vapour pressure", slope, (v[S] - l[S]) / dv, 1e-5 * slope.abs(), o)?;
    Ok(())
}

pub fn subs_c23() -> Vec<Box<dyn Sub>> {
    vec![check(
        "C23.constants",
        "Case: one of the 21 components, a temperature, a model; molar mass, ideal heat capacity, second virial coefficient and critical point compared with reference-book data. Non-trivial: every case.",
        400_000,
        2_000_000,
        || {
            (model(), 0usize..21, mixed(prop_oneof![2 => 250.0f64..600.0, 1 => 100.0f64..1000.0].boxed(), 100.0, 1000.0))
                .prop_map(|(m, i, t)| Pure { m, i, t })
        },
        c23,
    )]
}

pub fn subs_c24() -> Vec<Box<dyn Sub>> {
    vec![check(
        "C24.saturation",
        "Case: one of the 21 components at 0.7 to 0.985 of its critical temperature; the GERG-2008 pressure at which vapour and liquid have the same Gibbs energy, and at neighbouring temperatures. Non-trivial: equilibrium found.",
        600_000,
        3_000_000,
        || {
            let tr = prop_oneof![3 => 0.7f64..0.985, 1 => 0.85f64..0.97];
            let base = (0usize..21, tr, super::density::flag()).prop_map(|(i, tr, flag)| Sat { i, tr, flag: if flag == 2 { 0 } else { flag } }).boxed();
            match dict_near(3.0, 640.0, 1.0) {
                None => base,
                Some(d) => prop_oneof![
                    2 => base,
                    // temperatures of interest
                    1 => (0usize..21, d).prop_map(|(i, t)| Sat { i, tr: (t / SUBS[i].tc).clamp(0.7, 0.985), flag: 0 }),
                ]
                .boxed(),
            }
        },
        c24,
    )]
}
