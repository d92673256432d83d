//! C12, C17, C18: limits, continuity, agreement of the two models.
use super::eos::{classify, state_of, State};
use super::thermo::{model, MState};
use crate::gens::*;
use crate::inst::*;
use crate::num::E;
use crate::reference::{self, Model};
use crate::runner::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

fn within(what: &str, got: f64, want: f64, tol: f64, o: &mut Obs) -> Result<(), String> {
    if (got - want).abs() <= tol {
        o.max(what, (got - want).abs() / tol);
        Ok(())
    } else {
        Err(format!("{what}: {got:e}, expected {want:e} (allowed difference {tol:e})"))
    }
}

// ---------------------------------------------------------------- C12

/// A state of vanishing density.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Thin {
    pub m: Model,
    pub x: X,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub d: f64,
}

fn thin() -> impl Strategy<Value = Thin> {
    (
        model(),
        gas(),
        temperature(),
        prop_oneof![
            3 => Just(0.0),
            2 => select(vec![-0.0, 5e-324, 1e-300, 1e-100, 1e-17, 9.99e-16, 1e-15, 1.0000000001e-15, 1.01e-15, 2e-15, 1e-14, 1e-12]),
            5 => logu(-18.0, -4.0),
        ],
    )
        .prop_map(|(m, x, t, d)| Thin { m, x, t, d })
}

fn c12_zero(c: &Thin, o: &mut Obs) -> Result<(), String> {
    o.label(if c.d == 0.0 {
        "density zero"
    } else if c.d <= 1e-15 {
        "0 < density <= 1e-15"
    } else if c.d < 1e-9 {
        "1e-15 < density < 1e-9"
    } else {
        "1e-9 <= density <= 1e-4"
    });
    o.nontrivial();
    let (m, t, d) = (c.m, c.t, c.d);
    let r = m.r();
    let mut i = Inst::with(m, &c.x)?;
    let q = i.props_at(t, d).v;
    let mut j = Inst::with(m, &c.x)?;
    let p = j.pressure_at(t, d);
    if d == 0.0 {
        for (n, got, want) in [
            ("Z", q[Z], 1.0),
            ("P", q[P], 0.0),
            ("pressure()", p, 0.0),
            ("Z after pressure()", j.out().v[Z], 1.0),
            ("dP/dT", q[DPDT], 0.0),
        ] {
            if got != want {
                return Err(format!("{n} = {got:e} at zero density"));
            }
        }
        within("dP/dD=RT", q[DPDD], r * t, 1e-13 * r * t, o)?;
        within("cp-cv=R", q[CP] - q[CV], r, 1e-13 * q[CP].abs(), o)?;
        within("h-u=RT", q[H] - q[U], r * t, 1e-12 * (q[H].abs() + q[U].abs() + r * t), o)?;
        within("w", q[W] * q[W], 1000.0 * q[CP] / q[CV] * r * t / q[MM], 1e-11 * q[W] * q[W], o)?;
        within("kappa", q[KAPPA], q[CP] / q[CV], 1e-11 * q[KAPPA].abs(), o)?;
        for k in [DPDD, U, H, CV, CP, W, KAPPA, MM] {
            if !q[k].is_finite() {
                return Err(format!("{} = {:e} at zero density", ONAMES[k], q[k]));
            }
        }
        if !(q[CV] > 0.0 && q[W] > 0.0) {
            return Err(format!("cv = {:e}, w = {:e} at zero density", q[CV], q[W]));
        }
    }
    // against the ideal gas, allowing what the equation of state allows at this density
    let id = reference::ideal_properties(m, &c.x.0, t);
    let rf = reference::properties(m, &c.x.0, t, if d > 0.0 { d } else { 1e-30 });
    if d > 0.0 && d <= 1e-15 && !((rf.z.v - 1.0).abs() < 1e-13) {
        o.label("not an ideal gas even at this density (far below the range of temperature)");
        return Ok(());
    }
    if !((rf.z.v - 1.0).abs() < 0.1 && (rf.dp_dd.v / (r * t) - 1.0).abs() < 0.1 && rf.w2.v > 0.0) {
        o.label("strongly non-ideal even at this density (very cold)");
        return Ok(());
    }
    let rows: [(usize, f64, E, E, f64); 7] = [
        (Z, 0.0, E { v: 1.0, e: 1e-16 }, rf.z, 1.0),
        (DPDD, 0.0, E { v: r * t, e: 1e-16 * r * t }, rf.dp_dd, r * t),
        (U, 0.0, id.u, rf.u, r * t),
        (H, 0.0, id.h, rf.h, r * t),
        (CV, 0.0, id.cv, rf.cv, r),
        (CP, 0.0, id.cp, rf.cp, r),
        (KAPPA, 0.0, id.kappa, rf.kappa, 1.0),
    ];
    for (k, _, ideal, real, scale) in rows {
        let dev = (real.v - ideal.v).abs();
        if !dev.is_finite() || dev > 0.1 * (scale + ideal.v.abs()) {
            continue; // strongly non-ideal even at this density (very cold)
        }
        let tol = 1.5 * dev + K * (ideal.e + real.e) + 1e-13 * scale;
        within(ONAMES[k], q[k], ideal.v, tol, o)?;
    }
    let dev = (rf.w2.v - id.w2.v).abs();
    if dev < 0.1 * id.w2.v {
        within("w", q[W] * q[W], id.w2.v, 1.5 * dev + K * (id.w2.e + rf.w2.e), o)?;
    }
    if d > 0.0 {
        let zd = (rf.z.v - 1.0).abs();
        if zd < 0.1 {
            within("P=DRT", p, d * r * t, d * r * t * (1.5 * zd + 1e-13) + 1e-320, o)?;
            let dev = (rf.dp_dt.v - d * r).abs();
            within("dP/dT=DR", q[DPDT], d * r, 1.5 * dev + d * r * 1e-11 + 1e-320, o)?;
        }
    }
    if d > 1.0000001e-15 {
        // entropy and Gibbs energy follow the logarithm of the density
        let e = (c.x.0[0] * 8.0).fract().mul_add(2.0, 0.5);
        let d2 = (d * 10f64.powf(e)).min(1e-4);
        let l = (d2 / d).ln();
        let q2 = j.props_at(t, d2).v;
        let rf2 = reference::properties(m, &c.x.0, t, d2);
        let fine = (rf2.z.v - 1.0).abs() < 0.1;
        let (ds, dg) = (rf2.s.v - rf.s.v, rf2.g.v - rf.g.v);
        let (xs, xg) = ((ds + r * sum(&c.x.0) * l).abs(), (dg - r * t * sum(&c.x.0) * l).abs());
        if fine && xs < 0.1 * r && xg < 0.1 * r * t {
            within("s follows -R ln D", q2[S] - q[S], -r * sum(&c.x.0) * l, 1.5 * xs + K * (rf.s.e + rf2.s.e) + 1e-13 * r, o)?;
            within("g follows RT ln D", q2[G] - q[G], r * t * sum(&c.x.0) * l, 1.5 * xg + K * (rf.g.e + rf2.g.e) + 1e-13 * r * t, o)?;
            o.label("entropy slope judged");
        }
    }
    Ok(())
}

fn sum(x: &[f64; 21]) -> f64 {
    x.iter().sum()
}

/// Ideal-gas mixing: the mixture against its pure components.
fn c12_mix(c: &Thin, o: &mut Obs) -> Result<(), String> {
    let (m, t) = (c.m, c.t);
    let r = m.r();
    o.label(c.x.class());
    let mut i = Inst::with(m, &c.x)?;
    let q = i.props_at(t, 0.0).v;
    let d = 1e-11;
    let s = i.props_at(t, d).v[S];
    let mut sum = [0.0; OUTN];
    let mut mag = [0.0; OUTN];
    let (mut ss, mut smag) = (0.0, 0.0);
    let mut nonideal = 0.0;
    for k in 0..21 {
        let xk = c.x.0[k];
        if xk <= 0.0 {
            continue;
        }
        let mut w = [0.0; 21];
        w[k] = 1.0;
        let mut j = Inst::with(m, &X(w))?;
        let p = j.props_at(t, 0.0).v;
        for n in [U, H, CV, CP, MM] {
            sum[n] += xk * p[n];
            mag[n] += (xk * p[n]).abs();
        }
        let sk = j.props_at(t, d).v[S];
        let zk = reference::pressure(m, &w, t, d).1.v;
        nonideal += xk * 1000.0 * r * (zk - 1.0).abs();
        ss += xk * (sk - r * xk.ln());
        smag += xk * (sk.abs() + 30.0 * r);
    }
    let cancel = (c.x.0.iter().sum::<f64>() - 1.0).abs();
    for n in [U, H, CV, CP, MM] {
        // traces below 1e-15 may be ignored
        let tol = (1e-12 + 4.0 * cancel) * (mag[n] + if n == U || n == H { 100.0 * r * t } else { r });
        within(ONAMES[n], q[n], sum[n], tol, o)?;
    }
    let rf = reference::properties(m, &c.x.0, t, d);
    nonideal += 1000.0 * r * (rf.z.v - 1.0).abs();
    if !(nonideal < 1e-2) {
        return Ok(());
    }
    within("s of mixing", s, ss, (1e-12 + 4.0 * cancel) * (smag + 100.0 * r) + nonideal, o)?;
    if c.x.count() > 1 {
        o.nontrivial();
    }
    Ok(())
}

/// The reference state of every pure component, and of mixtures.
fn c12_reference_state(c: &Thin, o: &mut Obs) -> Result<(), String> {
    let m = c.m;
    let r = m.r();
    let (t0, p0) = (298.15, 101.325);
    let mut i = Inst::with(m, &c.x)?;
    let h = i.props_at(t0, 0.0).v[H];
    let d0 = p0 / (r * t0);
    let d = 1e-9;
    // the ideal gas entropy at the reference pressure
    let s = i.props_at(t0, d).v[S] + r * (d / d0).ln();
    let mix: f64 = c.x.0.iter().filter(|v| **v > 0.0).map(|v| -r * v * v.ln()).sum();
    o.nontrivial();
    o.label(c.x.class());
    within("h(298.15 K) = 0", h, 0.0, 1e-2, o)?;
    within("s(298.15 K, 101.325 kPa) = mixing", s, mix, 1e-4, o)
}

pub fn subs_c12() -> Vec<Box<dyn Sub>> {
    vec![
        check(
            "C12.zero_density",
            "Case: model, gas, T, density 0, around the 1e-15 threshold, down to the smallest double, up to 1e-4. Exact ideal-gas values at zero, limits elsewhere. Non-trivial: every case.",
            180_000,
            1_500_000,
            thin,
            c12_zero,
        ),
        check(
            "C12.mixing",
            "Case: model, gas, T; u, h, cv, cp, molar mass at zero density against the average of the pure components, entropy with the entropy of mixing. Non-trivial: at least two components.",
            60_000,
            600_000,
            thin,
            c12_mix,
        ),
        check(
            "C12.reference_state",
            "Case: model, gas (pure ones, mixtures): enthalpy zero and entropy equal to that of mixing at 298.15 K, 101.325 kPa. Non-trivial: every case.",
            60_000,
            400_000,
            || (model(), prop_oneof![gas_pure().boxed(), gas().boxed()]).prop_map(|(m, x)| Thin { m, x, t: 298.15, d: 0.0 }),
            c12_reference_state,
        ),
    ]
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// add this much of a component (others scaled down)
    Add(usize, #[serde(with = "fser")] f64),
    /// move from one component to another
    Move(usize, usize, #[serde(with = "fser")] f64),
    /// relative change
    T(#[serde(with = "fser")] f64),
    D(#[serde(with = "fser")] f64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Near {
    pub s: MState,
    pub step: Step,
    /// both states on one instance
    pub shared: bool,
}

fn step() -> impl Strategy<Value = Step> {
    let small = || prop_oneof![6 => logu(-17.0, -4.0).boxed(), 2 => select(vec![5e-324, 1e-300, 1e-100, 1e-16, 9.9e-16, 1e-15, 1.1e-15, 1e-14]).boxed()];
    let signed = || (logu(-15.0, -4.0), any::<bool>()).prop_map(|(v, n)| if n { -v } else { v });
    prop_oneof![
        4 => (0usize..21, small()).prop_map(|(i, e)| Step::Add(i, e)),
        2 => (0usize..21, 0usize..21, small()).prop_map(|(i, j, e)| Step::Move(i, j, e)),
        2 => signed().prop_map(Step::T),
        2 => signed().prop_map(Step::D),
    ]
}

/// The second state.
fn neighbour(s: &State, st: &Step) -> State {
    let mut n = s.clone();
    match st {
        Step::Add(i, e) => {
            n.x.0 = n.x.0.map(|v| v * (1.0 - e));
            n.x.0[*i] += e;
        }
        Step::Move(i, j, e) => {
            let by = e.min(n.x.0[*i]);
            n.x.0[*i] -= by;
            n.x.0[*j] += by;
        }
        Step::T(e) => n.t *= 1.0 + e,
        Step::D(e) => n.d *= 1.0 + e,
    }
    n
}

fn c17(c: &Near, o: &mut Obs) -> Result<(), String> {
    let a = &c.s.s;
    let b = neighbour(a, &c.step);
    let m = c.s.m;
    classify(o, m, a);
    let mut i = Inst::with(m, &a.x)?;
    let u = i.props_at(a.t, a.d).v;
    let w = if c.shared {
        if i.set(&b.x) != CErr::Ok {
            return Err("neighbouring composition rejected".into());
        }
        i.props_at(b.t, b.d).v
    } else {
        Inst::with(m, &b.x)?.props_at(b.t, b.d).v
    };
    let (ra, rb) = (reference::properties(m, &a.x.0, a.t, a.d), reference::properties(m, &b.x.0, b.t, b.d));
    let rows = |r: &reference::RefProps| {
        [
            (MM, r.mm), (P, r.p), (Z, r.z), (DPDD, r.dp_dd), (D2PDD2, r.d2p_dd2), (D2PDTD, r.d2p_dtd), (DPDT, r.dp_dt), (U, r.u),
            (H, r.h), (S, r.s), (CV, r.cv), (CP, r.cp), (W, r.w2), (G, r.g), (JT, r.jt), (KAPPA, r.kappa),
        ]
    };
    // fractions up to 1e-15 may be left out of account
    let dropped = |s: &State, r: &reference::RefProps| {
        if s.x.0.iter().any(|v| *v > 0.0 && *v < 1.1e-15) {
            let x = s.x.0.map(|v| if v < 1.1e-15 { 0.0 } else { v });
            let z = reference::properties(m, &x, s.t, s.d);
            let (a, b) = (rows(&z), rows(r));
            std::array::from_fn(|i| (a[i].1.v - b[i].1.v).abs())
        } else {
            [0.0; 16]
        }
    };
    let (da, db) = (dropped(a, &ra), dropped(&b, &rb));
    let mut judged = 0;
    for (n, ((k, p), (_, q))) in rows(&ra).into_iter().zip(rows(&rb)).enumerate() {
        if k == D2PDTD && m == Model::Detail {
            continue;
        }
        if !p.v.is_finite() || !q.v.is_finite() || !p.e.is_finite() || !q.e.is_finite() {
            continue;
        }
        if (k == W || k == KAPPA) && !(ra.w2.v > 4.0 * K * ra.w2.e && rb.w2.v > 4.0 * K * rb.w2.e) {
            continue;
        }
        let (x, y) = if k == W { (u[k] * u[k], w[k] * w[k]) } else { (u[k], w[k]) };
        let noise = K * (p.e + q.e);
        if noise > 1e-3 * p.v.abs() && noise > 1e-3 {
            continue;
        }
        // what the equations themselves allow over this step
        let lip = 1.5 * ((p.v - q.v).abs() + da[n] + db[n]) + noise;
        judged += 1;
        if !((x - y).abs() <= lip) {
            return Err(format!("{}: jumps from {x:e} to {y:e} over the step {:?} (allowed {lip:e})", ONAMES[k], c.step));
        }
        o.max(ONAMES[k], (x - y).abs() / lip);
    }
    if judged >= 10 {
        o.nontrivial();
        o.label(match &c.step {
            Step::Add(i, _) if a.x.0[*i] == 0.0 => "step: absent component added",
            Step::Add(..) => "step: component added",
            Step::Move(..) => "step: amount moved",
            Step::T(_) => "step: temperature",
            Step::D(_) => "step: density",
        });
    }
    Ok(())
}

/// Continuity of the calculated density.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NearP {
    pub m: Model,
    pub x: X,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub rd: f64,
    /// 0: pressure, else as Step
    pub step: Option<Step>,
    #[serde(with = "fser")]
    pub dp: f64,
    pub flag: i32,
}

fn c17_density(c: &NearP, o: &mut Obs) -> Result<(), String> {
    let (dc, tc) = c.x.pseudo_critical();
    let t = c.t.max(if c.m == Model::Gerg { 1.6 } else { 2.2 } * tc).max(200.0);
    if t > 1500.0 {
        return Ok(());
    }
    let d = c.rd * dc;
    let (p, _, dpdd) = reference::pressure(c.m, &c.x.0, t, d);
    // a single-valued isotherm up to here
    let rt = c.m.r() * t;
    let limit = if c.m == Model::Gerg { 0.05 } else { 0.3 };
    for k in 1..24 {
        if !(reference::pressure(c.m, &c.x.0, t, d * k as f64 / 16.0).2.v > limit * rt) {
            o.label("isotherm too flat");
            return Ok(());
        }
    }
    let a = State { x: c.x, t, d };
    let b = c.step.as_ref().map_or(a.clone(), |s| neighbour(&a, s));
    let p2 = p.v * (1.0 + c.dp);
    let mut i = Inst::with(c.m, &a.x)?;
    i.set_t(t);
    i.set_p(p.v);
    let e1 = i.density(c.flag);
    let d1 = i.d();
    if i.set(&b.x) != CErr::Ok {
        return Err("neighbouring composition rejected".into());
    }
    i.set_t(b.t);
    i.set_p(p2);
    i.set_d(0.0);
    let e2 = i.density(c.flag);
    let d2 = i.d();
    if (e1, e2) != (DErr::Ok, DErr::Ok) {
        if c.flag == 0 && p.v < 70_000.0 {
            return Err(format!("density() = {e1:?}, then {e2:?} over a vanishing step"));
        }
        o.label("no success with a flag, or beyond 70 MPa");
        return Ok(());
    }
    o.nontrivial();
    // implied change: pressure change and the change of the equation at constant density
    let q = reference::pressure(c.m, &b.x.0, b.t, d);
    let implied = ((p2 - p.v).abs() + (q.0.v - p.v).abs()) / dpdd.v.abs().min(q.2.v.abs());
    let tol = 2.0 * implied + 2e-9 * d + 100.0 * (p.e + q.0.e) / dpdd.v.abs();
    o.max("density step/allowed", (d1 - d2).abs() / tol);
    if !((d1 - d2).abs() <= tol) {
        return Err(format!("density jumps from {d1:e} to {d2:e} (allowed {tol:e}) between T {t:e} P {:e} and T {:e} P {p2:e}", p.v, b.t));
    }
    Ok(())
}

pub fn subs_c17() -> Vec<Box<dyn Sub>> {
    vec![
        check(
            "C17.outputs",
            "Case: state and a vanishing step (1e-17 to 1e-4, down to the smallest double) of one fraction, temperature or density; same or new instance. Non-trivial: at least 10 outputs judged.",
            180_000,
            1_500_000,
            || {
                ((model(), state_of(gas())).prop_map(|(m, s)| MState { m, s }), step(), any::<bool>())
                    .prop_map(|(s, step, shared)| Near { s, step, shared })
            },
            c17,
        ),
        check(
            "C17.density",
            "Case: single-valued isotherm, pressure of a chosen density, vanishing step of P, T or composition; both densities calculated. Non-trivial: both succeed.",
            90_000,
            800_000,
            || {
                let st = prop_oneof![2 => Just(None), 3 => step().prop_map(|s| if matches!(s, Step::D(_)) { None } else { Some(s) })];
                let dp = prop_oneof![2 => Just(0.0), 3 => logu(-13.0, -4.0), 3 => logu(-13.0, -4.0).prop_map(|v| -v)];
                (model(), gas(), temperature(), prop_oneof![3 => 0.01f64..2.2, 1 => logu(-6.0, -1.0)], st, dp, 0i32..2)
                    .prop_map(|(m, x, t, rd, step, dp, flag)| NearP { m, x, t, rd, step, dp, flag })
            },
            c17_density,
        ),
    ]
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pipe {
    pub x: X,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub p: f64,
}

fn c18(c: &Pipe, o: &mut Obs) -> Result<(), String> {
    let mut v = vec![];
    for m in [Model::Detail, Model::Gerg] {
        let mut i = Inst::with(m, &c.x)?;
        i.set_t(c.t);
        i.set_p(c.p);
        let r = i.density(0);
        if r != DErr::Ok {
            return Err(format!("{m:?}: density() = {r:?}"));
        }
        i.properties();
        let mut q = i.out().v;
        // ideal parts, to compare residual enthalpy and heat capacity
        let mut j = Inst::with(m, &c.x)?;
        let id = j.props_at(c.t, 0.0).v;
        q[U] = q[H] - id[H];
        q[G] = id[CP];
        v.push(q);
    }
    o.nontrivial();
    o.label(if c.p < 2000.0 { "P < 2 MPa" } else if c.p < 6000.0 { "2-6 MPa" } else { "6-12 MPa" });
    o.label(if c.t < 275.0 { "T < 275 K" } else if c.t < 300.0 { "275-300 K" } else { "300-350 K" });
    let (a, b) = (v[0], v[1]);
    let r = |k: usize| (a[k] / b[k] - 1.0).abs();
    // the deviation grows with density and towards the dense-phase region
    let f = (c.p / 12_000.0).max(0.2) * if c.t < 290.0 { 2.0 } else { 1.0 };
    for (n, e, lim) in [
        ("density", r(D), 7e-3 * f),
        ("Z", r(Z), 7e-3 * f),
        ("molar mass", r(MM), 1e-4),
        ("speed of sound", r(W), 4e-3 * f),
        ("cp", r(CP), 3e-3 + 1.5e-2 * f),
        ("cv", r(CV), 3e-3 + 1.5e-2 * f),
        ("ideal cp", r(G), 1e-5),
        ("residual enthalpy/RT", (a[U] - b[U]).abs() / (8.3145 * c.t), 3e-2 * f),
        ("Joule-Thomson jt*cp*rho", (a[JT] * a[CP] * a[D] - b[JT] * b[CP] * b[D]).abs(), 6e-2 * f),
        ("entropy/R", (a[S] - b[S]).abs() / 8.3145, 1e-3 + 2e-2 * f),
    ] {
        o.max(n, e / lim);
        if !(e <= lim) {
            return Err(format!("{n}: DETAIL and GERG-2008 differ by {e:.3e}, allowed {lim:.1e} (T {} P {})", c.t, c.p));
        }
    }
    Ok(())
}
pub fn subs_c18() -> Vec<Box<dyn Sub>> {
    vec![check(
        "C18.agreement",
        "Case: pipeline-quality natural gas, T 270-350 K, P 10 kPa-12 MPa, both models. Non-trivial: every case.",
        120_000,
        1_000_000,
        || {
            (gas_pipeline(), 270.0f64..350.0, prop_oneof![4 => 10.0f64..12_000.0, 1 => logu(1.0, 4.07)])
                .prop_map(|(x, t, p)| Pipe { x, t, p })
        },
        c18,
    )]
}
