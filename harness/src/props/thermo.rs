//! C03: the outputs of one model are consistent with each other.
use super::eos::{classify, state_of, State};
use crate::gens::*;
use crate::inst::*;
use crate::reference::{self, Model};
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MState {
    pub m: Model,
    pub s: State,
}

pub fn model() -> impl Strategy<Value = Model> {
    prop_oneof![Just(Model::Gerg), Just(Model::Detail)]
}

fn mstate() -> impl Strategy<Value = MState> {
    (model(), state_of(gas())).prop_map(|(m, s)| MState { m, s })
}

fn eq(what: &str, a: f64, b: f64, tol: f64, o: &mut Obs) -> Result<(), String> {
    if !a.is_finite() || !b.is_finite() || !tol.is_finite() {
        if a.is_finite() != b.is_finite() && tol.is_finite() {
            return Err(format!("{what}: {a:e} versus {b:e}"));
        }
        return Ok(());
    }
    o.max(what, (a - b).abs() / tol);
    if (a - b).abs() <= tol {
        Ok(())
    } else {
        Err(format!("{what}: {a:e} versus {b:e} (allowed difference {tol:e})"))
    }
}

fn algebra(c: &MState, o: &mut Obs) -> Result<(), String> {
    let s = &c.s;
    classify(o, c.m, s);
    let mut i = Inst::with(c.m, &s.x)?;
    let q = i.props_at(s.t, s.d).v;
    let (r, t, d) = (c.m.r(), s.t, s.d);
    const E: f64 = 1e-11;
    o.nontrivial();
    let pd = q[P] / d;
    let cons = [
        // what, left, right, scale
        ("P=ZDRT", q[P], q[Z] * d * r * t, d * r * t + q[P].abs()),
        ("h=u+P/D", q[H], q[U] + pd, q[H].abs() + q[U].abs() + pd.abs() + 10.0 * r * t),
        ("g=h-Ts", q[G], q[H] - t * q[S], q[G].abs() + q[H].abs() + (t * q[S]).abs() + 10.0 * r * t),
    ];
    for (n, a, b, sc) in cons {
        eq(n, a, b, 10.0 * E * sc, o)?;
    }
    let dcp = t * (q[DPDT] / d).powi(2) / q[DPDD];
    eq("cp-cv=T(dP/dT)^2/D^2/(dP/dD)", q[CP] - q[CV], dcp, E * (q[CP].abs() + q[CV].abs() + dcp.abs()), o)?;
    let w2 = 1000.0 * q[CP] / q[CV] * q[DPDD] / q[MM];
    if w2 > 0.0 {
        eq("w^2=1000 cp/cv (dP/dD)/M", q[W] * q[W], w2, E * w2, o)?;
        o.label("w defined");
    } else if q[W] != 0.0 {
        return Err(format!("w = {:e} where cp/cv dP/dD < 0", q[W]));
    }
    let k = q[W] * q[W] * q[MM] / (1000.0 * r * t * q[Z]);
    eq("kappa=w^2 M/(1000 Z R T)", q[KAPPA], k, E * k.abs(), o)?;
    let j0 = t / d * q[DPDT] / q[DPDD];
    let jt = (j0 - 1.0) / q[CP] / d;
    eq("jt=(T/D (dP/dT)/(dP/dD)-1)/(cp D)", q[JT], jt, E * (j0.abs() + 1.0) / (q[CP] * d).abs(), o)?;
    // the pressure routine and the property routine agree
    let mut j = Inst::with(c.m, &s.x)?;
    let p = j.pressure_at(t, d);
    eq("pressure()=properties pressure", p, q[P], E * (d * r * t + p.abs()), o)?;
    eq("z after pressure()=properties z", j.out().v[Z], q[Z], E * (1.0 + q[Z].abs()), o)?;
    let mm = j.molar_mass();
    eq("molar_mass()=properties mm", mm, q[MM], 1e-14 * mm.abs(), o)
}

fn derivatives(c: &MState, o: &mut Obs) -> Result<(), String> {
    let s = &c.s;
    let (r, t, d) = (c.m.r(), s.t, s.d);
    classify(o, c.m, s);
    let rf = reference::properties(c.m, &s.x.0, t, d);
    let mut i = Inst::with(c.m, &s.x)?;
    let q = i.props_at(t, d).v;
    const HH: f64 = 2e-4;
    let h2 = HH;
    let at = |i: &mut Inst, kt: f64, kd: f64| i.props_at(t * (1.0 + kt * h2), d * (1.0 + kd * h2)).v;
    let td: Vec<_> = [-2.0, -1.0, 1.0, 2.0].iter().map(|k| at(&mut i, *k, 0.0)).collect();
    let dd: Vec<_> = [-2.0, -1.0, 1.0, 2.0].iter().map(|k| at(&mut i, 0.0, *k)).collect();
    // five-point first derivative, with the three-point one to judge the truncation error
    let der = |f: &Vec<[f64; OUTN]>, k: usize, step: f64| {
        let five = (8.0 * (f[2][k] - f[1][k]) - (f[3][k] - f[0][k])) / (12.0 * step);
        let three = (f[2][k] - f[1][k]) / (2.0 * step);
        (five, (five - three).abs())
    };
    let (st, sd) = (t * HH, d * HH);
    let noise = |e: f64, step: f64| 64.0 * e / step;
    let mut judged = 0;
    let mut cmp = |what: &str, fd: (f64, f64), val: f64, nat: f64, nz: f64, o: &mut Obs| -> Result<(), String> {
        let sc = val.abs() + nat;
        // the five-point rule is better than the difference to the three-point rule by another h^2
        let tol = 2e-8 * sc + 0.01 * fd.1 + nz;
        if !(tol < 1e-4 * sc) {
            o.label("difference quotient too inaccurate");
            return Ok(());
        }
        judged += 1;
        eq(what, fd.0, val, tol, o)
    };
    cmp("dP/dD", der(&dd, P, sd), q[DPDD], r * t, noise(rf.p.e, sd), o)?;
    cmp("dP/dT", der(&td, P, st), q[DPDT], r * d, noise(rf.p.e, st), o)?;
    cmp("d2P/dD2", der(&dd, DPDD, sd), q[D2PDD2], r * t / d, noise(rf.dp_dd.e, sd), o)?;
    if c.m == Model::Gerg {
        cmp("d2P/dTdD", der(&td, DPDD, st), q[D2PDTD], r, noise(rf.dp_dd.e, st), o)?;
        cmp("d2P/dDdT", der(&dd, DPDT, sd), q[D2PDTD], r, noise(rf.dp_dt.e, sd), o)?;
    }
    cmp("du/dT=cv", der(&td, U, st), q[CV], r, noise(rf.u.e, st), o)?;
    cmp("ds/dT=cv/T", der(&td, S, st), q[CV] / t, r / t, noise(rf.s.e, st), o)?;
    let du = (q[P] - t * q[DPDT]) / (d * d);
    cmp("du/dD", der(&dd, U, sd), du, ((t * q[DPDT]).abs() + q[P].abs()) / (d * d), noise(rf.u.e, sd), o)?;
    cmp("ds/dD", der(&dd, S, sd), -q[DPDT] / (d * d), r / d, noise(rf.s.e, sd), o)?;
    if judged >= 6 {
        o.nontrivial();
    }
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        check(
            "C03.identities",
            "Case: model, composition, T, D. Exact identities between outputs. Non-trivial: every case.",
            360_000,
            3_000_000,
            mstate,
            algebra,
        ),
        check(
            "C03.derivatives",
            "Case: model, composition, T, D. Five-point difference quotients of outputs against reported derivatives. Non-trivial: at least 6 quotients accurate enough to judge.",
            360_000,
            1_000_000,
            mstate,
            derivatives,
        ),
    ]
}
