//! C21, C22: density followed by properties, as functions of pressure and temperature.
use super::density::{pressure_tolerance, region};
use super::thermo::model;
use crate::gens::*;
use crate::inst::*;
use crate::reference::{self, Model};
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pt {
    pub m: Model,
    pub x: X,
    #[serde(with = "fser")]
    pub t: f64,
    /// reduced density of the state
    #[serde(with = "fser")]
    pub rd: f64,
    /// start from the ideal gas instead of an estimate
    pub cold: bool,
    /// one instance for all states
    pub shared: bool,
    pub flag: i32,
}

/// density() then properties(); d and the outputs.
fn solve(i: &mut Inst, t: f64, p: f64, guess: f64, flag: i32) -> Option<[f64; OUTN]> {
    i.set_t(t);
    i.set_p(p);
    i.set_d(guess);
    if i.density(flag) != DErr::Ok {
        return None;
    }
    i.properties();
    Some(i.out().v)
}

fn c21(c: &Pt, o: &mut Obs) -> Result<(), String> {
    let dc = c.x.pseudo_critical().0;
    let (t, d0) = (c.t, c.rd * dc);
    let rf = reference::properties(c.m, &c.x.0, t, d0);
    let p = rf.p.v;
    let rt = c.m.r() * t;
    if !(p > 1e-6 && rf.dp_dd.v > 0.02 * rt && rf.w2.v > 0.0 && rf.cv.v > 0.0) {
        o.label("not a stable state");
        return Ok(());
    }
    // relative accuracy of a converged density
    let s = d0 * rf.dp_dd.v / p;
    let dens = pressure_tolerance(p, d0, &rf) / s + 4e-16;
    if !(dens < 1e-9) {
        o.label("density not accurate enough");
        return Ok(());
    }
    let guess = if c.cold { 0.0 } else { -d0 };
    let mut one = Inst::with(c.m, &c.x)?;
    // steps which change the density little
    let step = |slope: f64| (5e-4 / slope.abs()).clamp(2e-5, 2e-4);
    let (ht, hp) = (step(t * rf.dp_dt.v / (d0 * rf.dp_dd.v)), step(p / (d0 * rf.dp_dd.v)));
    let mut at = |kt: f64, kp: f64| -> Result<Option<[f64; OUTN]>, String> {
        let (t, p) = (t * (1.0 + kt * ht), p * (1.0 + kp * hp));
        if c.shared {
            Ok(solve(&mut one, t, p, guess, c.flag))
        } else {
            Ok(solve(&mut Inst::with(c.m, &c.x)?, t, p, guess, c.flag))
        }
    };
    let Some(q) = at(0.0, 0.0)? else {
        o.label("no density found");
        return Ok(());
    };
    if rel(q[D], d0) > 1e-6 {
        o.label("another root found");
        return Ok(());
    }
    let mut side = |pressure: bool| -> Result<Option<Vec<[f64; OUTN]>>, String> {
        let mut v = vec![];
        for k in [-3.0, -2.0, -1.0, 1.0, 2.0, 3.0] {
            match if pressure { at(0.0, k)? } else { at(k, 0.0)? } {
                Some(r) if rel(r[D], d0) < 0.005 => v.push(r),
                _ => return Ok(None),
            }
        }
        Ok(Some(v))
    };
    let (Some(tt), Some(pp)) = (side(false)?, side(true)?) else {
        o.label("neighbouring state not found, or on another branch");
        return Ok(());
    };
    let der = |f: &Vec<[f64; OUTN]>, g: &dyn Fn(&[f64; OUTN]) -> f64, step: f64| {
        let v: Vec<f64> = f.iter().map(g).collect();
        let (d1, d2, d3) = (v[3] - v[2], v[4] - v[1], v[5] - v[0]);
        let three = d1 / (2.0 * step);
        let five = (8.0 * d1 - d2) / (12.0 * step);
        let seven = (45.0 * d1 - 9.0 * d2 + d3) / (60.0 * step);
        // the error of the best one, with room for an accidentally small difference
        (seven, (seven - five).abs() + 1e-3 * (five - three).abs())
    };
    let (st, sp) = (t * ht, p * hp);
    let mut judged = 0;
    // what, difference quotient, reported value, natural scale, rounding error of the function, its slope d/d(ln D), step
    let mut cmp = |what: &'static str, fd: (f64, f64), val: f64, nat: f64, e: f64, slope: f64, step: f64, o: &mut Obs| -> Result<(), String> {
        let sc = val.abs() + nat;
        let tol = 2e-8 * sc + fd.1 + (64.0 * e + 4.0 * slope.abs() * dens) / step;
        if !(tol < 1e-3 * sc && fd.1 < 1e-3 * sc) || !fd.0.is_finite() {
            o.label("difference quotient too inaccurate");
            return Ok(());
        }
        judged += 1;
        o.max(what, (fd.0 - val).abs() / tol);
        if (fd.0 - val).abs() <= tol {
            Ok(())
        } else {
            Err(format!("{what}: {:e} versus {val:e} (allowed difference {tol:e}) at T = {t:e}, P = {p:e}", fd.0))
        }
    };
    let d = d0;
    let (hd, sd) = (
        (q[P] - t * q[DPDT]) / d + (q[DPDD] * d - q[P]) / d,
        -q[DPDT] / d,
    );
    let gd = q[DPDD];
    let r = c.m.r();
    let jc = q[JT] * q[CP];
    let dvt = q[DPDT] / (q[DPDD] * d * d);
    cmp("(dh/dT)_P = cp", der(&tt, &|v| v[H], st), q[CP], r, rf.h.e, hd, st, o)?;
    cmp("(ds/dT)_P = cp/T", der(&tt, &|v| v[S], st), q[CP] / t, r / t, rf.s.e, sd, st, o)?;
    cmp("(dg/dT)_P = -s", der(&tt, &|v| v[G], st), -q[S], r, rf.g.e, gd, st, o)?;
    cmp("(dD/dT)_P = -(dP/dT)/(dP/dD)", der(&tt, &|v| v[D], st), -q[DPDT] / q[DPDD], d / t, 1e-16 * d, d, st, o)?;
    cmp("(dh/dP)_T = -jt cp", der(&pp, &|v| v[H], sp), -jc, 1.0 / d, rf.h.e, hd, sp, o)?;
    cmp("(ds/dP)_T = -(dV/dT)_P", der(&pp, &|v| v[S], sp), -dvt, r / p, rf.s.e, sd, sp, o)?;
    cmp("(dg/dP)_T = 1/D", der(&pp, &|v| v[G], sp), 1.0 / d, 0.0, rf.g.e, gd, sp, o)?;
    cmp("(dD/dP)_T = 1/(dP/dD)", der(&pp, &|v| v[D], sp), 1.0 / q[DPDD], 0.0, 1e-16 * d, d, sp, o)?;
    // the speed of sound is that of an isentropic change
    let w2 = 1000.0 / q[MM] * (q[DPDD] + t * q[DPDT] * q[DPDT] / (d * d * q[CV]));
    let e = 1e-9 * w2.abs() + 1000.0 / q[MM] * 32.0 * rf.dp_dd.e;
    if rf.w2.v > 100.0 * rf.w2.e && (q[W] * q[W] - w2).abs() > e + 10.0 * rf.w2.e {
        return Err(format!("w^2 = {:e}, but (dP/d rho)_s = {w2:e}", q[W] * q[W]));
    }
    if judged >= 5 {
        o.nontrivial();
        region(o, &c.x, t, d);
    }
    Ok(())
}

pub fn subs_c21() -> Vec<Box<dyn Sub>> {
    vec![check(
        "C21.relations",
        "Case: model, composition, T, P (the pressure of a chosen stable state, gas or liquid), start, flag; density then properties there and at twelve neighbouring T and P. Non-trivial: all densities found on one branch and at least 5 difference quotients accurate enough to judge.",
        240_000,
        1_500_000,
        || {
            (
                (model(), gas()),
                prop_oneof![2 => temperature().prop_map(|t| (t, 0.0)), 3 => (0.6f64..3.0).prop_map(|f| (0.0, f))],
                prop_oneof![4 => 0.01f64..3.0, 2 => logu(-5.0, 0.0)],
                any::<bool>(),
                any::<bool>(),
                0i32..3,
            )
                .prop_map(|((m, x), (t, f), rd, cold, shared, flag)| {
                    let t = if f > 0.0 { f * x.pseudo_critical().1 } else { t };
                    Pt { m, x, t: t.max(20.0), rd, cold, shared, flag }
                })
        },
        c21,
    )]
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Gas {
    pub m: Model,
    pub x: X,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub p: f64,
    /// the second state: factor of pressure, rise of temperature
    #[serde(with = "fser")]
    pub k: f64,
    #[serde(with = "fser")]
    pub dt: f64,
}

fn c22(c: &Gas, o: &mut Obs) -> Result<(), String> {
    o.nontrivial();
    o.label(if c.p < 2000.0 { "P < 2 MPa" } else if c.p < 12_000.0 { "2-12 MPa" } else { "12-30 MPa" });
    o.label(if c.t < 275.0 { "T < 275 K" } else if c.t < 350.0 { "275-350 K" } else { "T > 350 K" });
    let mut i = Inst::with(c.m, &c.x)?;
    let mut get = |t: f64, p: f64| solve(&mut i, t, p, 0.0, 0).ok_or(format!("density() fails at T = {t:e}, P = {p:e}"));
    let q = get(c.t, c.p)?;
    let r = c.m.r();
    for (n, v, lo, hi) in [
        ("Z", q[Z], 0.35, 1.2),
        ("molar mass", q[MM], 13.0, 30.0),
        ("dP/dD / RT", q[DPDD] / (r * c.t), 0.15, 5.0),
        ("dP/dT / RD", q[DPDT] / (r * q[D]), 0.9999, 5.0),
        ("cv/R", q[CV] / r, 2.5, 6.5),
        ("cp/R", q[CP] / r, 3.6, 25.0),
        ("cp/cv", q[CP] / q[CV], 1.15, 5.0),
        ("w in m/s", q[W], 245.0, 1000.0),
        ("isentropic exponent", q[KAPPA], 1.12, 13.0),
        ("Joule-Thomson coefficient in K/MPa", q[JT] * 1000.0, -1.0, 12.0),
    ] {
        o.max(n, v);
        o.max(&format!("1 / {n}"), 1.0 / v);
        if !(v > lo && v < hi) {
            return Err(format!("{n} = {v:e} for a natural gas at T = {:e}, P = {:e}", c.t, c.p));
        }
    }
    // compression at constant temperature, heating at constant pressure
    let a = get(c.t, c.p * (1.0 + c.k))?;
    let b = get(c.t + c.dt, c.p)?;
    for (n, ok) in [
        ("density rises with pressure", a[D] > q[D]),
        ("entropy falls with pressure", a[S] < q[S]),
        ("Gibbs energy rises with pressure", a[G] > q[G]),
        ("dP/dT at constant density rises with pressure", a[DPDT] > q[DPDT]),
        ("density falls with temperature", b[D] < q[D]),
        ("enthalpy rises with temperature", b[H] > q[H]),
        ("internal energy rises with temperature", b[U] > q[U]),
        ("entropy rises with temperature", b[S] > q[S]),
    ] {
        if !ok {
            return Err(format!("not true that {n}: T {:e} P {:e}, pressure factor {:e}, temperature rise {:e}", c.t, c.p, 1.0 + c.k, c.dt));
        }
    }
    Ok(())
}

pub fn subs_c22() -> Vec<Box<dyn Sub>> {
    vec![check(
        "C22.sensible",
        "Case: model, natural gas (half methane or more, the others up to 30 % nitrogen, 15 % CO2, 12 % ethane, ...), T 250-450 K, P 1 kPa-30 MPa, a higher pressure and a higher temperature. Non-trivial: every case.",
        600_000,
        1_500_000,
        || {
            (
                model(),
                gas_rich(),
                250.0f64..450.0,
                prop_oneof![3 => 10.0f64..30_000.0, 1 => logu(0.0, 4.47)],
                prop_oneof![0.001f64..0.1, logu(-5.0, -1.0)],
                prop_oneof![0.01f64..20.0, logu(-3.0, 0.0)],
            )
                .prop_map(|(m, x, t, p, k, dt)| Gas { m, x, t, p, k, dt })
        },
        c22,
    )]
}
