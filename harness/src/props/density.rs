//! C04-C07: density from temperature and pressure.
use super::thermo::model;
use crate::gens::*;
use crate::inst::*;
use crate::reference::{self, Model};
use crate::runner::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// One density problem. `guess` is the density field before the call.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prob {
    pub m: Model,
    pub x: X,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub p: f64,
    #[serde(with = "fser")]
    pub guess: f64,
    pub flag: i32,
}

#[derive(Clone, Copy, Debug)]
enum PSel {
    Free(f64),
    /// the pressure of this reduced density on the reference isotherm
    AtDensity(f64),
}
#[derive(Clone, Copy, Debug)]
enum GSel {
    Zero,
    NonNeg(f64),
    /// negative: a starting estimate in units of the pseudo-critical density
    Start(f64),
}

pub fn flag() -> impl Strategy<Value = i32> {
    let mut odd = vec![-1, 3, i32::MIN, i32::MAX];
    odd.extend(dict().iter().filter(|v| v.fract() == 0.0 && **v < 1e9).flat_map(|v| [*v as i32, -*v as i32]));
    prop_oneof![3 => Just(0), 3 => Just(1), 3 => Just(2), 1 => select(odd)]
}

fn problem() -> impl Strategy<Value = Prob> {
    (
        model(),
        gas_accepted(),
        temperature(),
        prop_oneof![
            4 => pressure_kpa().prop_map(PSel::Free),
            1 => logu(-13.0, 7.0).prop_map(PSel::Free),
            4 => reduced_density().prop_map(PSel::AtDensity),
        ],
        prop_oneof![
            5 => Just(GSel::Zero),
            1 => logu(-6.0, 3.0).prop_map(GSel::NonNeg),
            4 => prop_oneof![0.01f64..4.0, logu(-5.0, 1.0)].prop_map(GSel::Start),
        ],
        flag(),
    )
        .prop_map(|(m, x, t, ps, gs, flag)| {
            let dc = x.pseudo_critical().0;
            let p = match ps {
                PSel::Free(p) => p,
                PSel::AtDensity(rd) => {
                    let p = reference::pressure(m, &x.0, t, rd * dc).0.v;
                    if p.is_finite() && p != 0.0 {
                        p.abs()
                    } else {
                        100.0
                    }
                }
            };
            let guess = match gs {
                GSel::Zero => 0.0,
                GSel::NonNeg(g) => g,
                GSel::Start(s) => -s * dc,
            };
            Prob { m, x, t, p, guess, flag }
        })
}

fn solve(c: &Prob) -> Result<(Inst, DErr), String> {
    let mut i = Inst::with(c.m, &c.x)?;
    i.set_t(c.t);
    i.set_p(c.p);
    i.set_d(c.guess);
    let r = i.density(c.flag);
    Ok((i, r))
}

pub fn region(o: &mut Obs, x: &X, t: f64, d: f64) {
    let (dc, tc) = x.pseudo_critical();
    o.label(match (t / tc, d / dc) {
        (r, v) if r < 1.0 && v < 0.5 => "subcritical vapour-like",
        (r, v) if r < 1.0 && v > 1.5 => "subcritical liquid-like",
        (r, _) if r < 1.0 => "subcritical, near-critical density",
        (_, v) if v < 0.5 => "supercritical, low density",
        (_, v) if v > 1.5 => "supercritical, high density",
        _ => "supercritical, near-critical density",
    });
}

/// How far a converged, correct iterate may be from the pressure, relative.
pub fn pressure_tolerance(p: f64, d: f64, r: &reference::RefProps) -> f64 {
    let s = (d * r.dp_dd.v / p).abs();
    let c = (d * d * r.d2p_dd2.v / p).abs();
    1e-10 + 1e-14 * s + 6e-14 * (s + c + s * s) + 32.0 * r.p.e / p
}

fn c04(c: &Prob, o: &mut Obs) -> Result<(), String> {
    let (mut i, r) = solve(c)?;
    o.label(&format!("{:?} flag {}", r, c.flag.clamp(-1, 3)));
    if r != DErr::Ok {
        return Ok(());
    }
    o.nontrivial();
    let d = i.d();
    if !(d.is_finite() && d > 0.0) {
        return Err(format!("density() succeeded with d = {d:e}"));
    }
    region(o, &c.x, c.t, d);
    let rf = reference::properties(c.m, &c.x.0, c.t, d);
    let tol = pressure_tolerance(c.p, d, &rf);
    let mut f = Inst::with(c.m, &c.x)?;
    let p_new = f.pressure_at(c.t, d);
    let p_same = i.pressure();
    for (n, p) in [("pressure()", p_new), ("pressure() of the same instance", p_same), ("reference", rf.p.v)] {
        let e = (p / c.p - 1.0).abs();
        if tol < 1e-4 {
            o.max("residual/tolerance", e / tol);
            o.max("relative residual", e);
        }
        // stiff liquids at tiny pressures: the iteration ends by its step in volume
        let stiff = tol >= 1e-2 && (p - c.p).abs() <= 2e-7 * d * rf.dp_dd.v;
        if !(e <= tol.min(1e-2) || stiff) {
            return Err(format!(
                "density() succeeded with d = {d:e}, where {n} gives P = {p:e} for the requested {:e} (relative {e:e}, allowed {tol:e})",
                c.p
            ));
        }
    }
    let rt = c.m.r() * c.t;
    if !(rf.dp_dd.v > -1e-5 * rt - K * rf.dp_dd.e) {
        return Err(format!("density() succeeded with d = {d:e} where dP/dD = {:e}", rf.dp_dd.v));
    }
    o.max("-dP/dD/RT", -rf.dp_dd.v / rt);
    Ok(())
}

pub fn subs_c04() -> Vec<Box<dyn Sub>> {
    vec![check(
        "C04.roundtrip",
        "Case: model, composition, T, P (free or the pressure of a chosen density), initial guess, phase flag. Non-trivial: the calculation reports success, so that the round trip is checked.",
        450_000,
        4_000_000,
        problem,
        c04,
    ),
    check(
        "C04.edge",
        "Case: as C04.roundtrip, started from a density where the pressure of the model is almost zero (the metastable end of the liquid branch), for an ordinary or high pressure. Non-trivial: the calculation reports success.",
        60_000,
        600_000,
        || {
            (model(), gas_accepted(), 0.4f64..0.95, prop_oneof![pressure_kpa(), logu(-6.0, 6.0).boxed()], logu(-12.0, 0.0), prop_oneof![3 => Just(0), 1 => flag()])
                .prop_map(|(m, x, tr, p, e, flag)| {
                    let (dc, tc) = x.pseudo_critical();
                    let t = (tr * tc).max(60.0);
                    let guess = edge(m, &x, t, e * p).map_or(-2.5 * dc, |d| -d);
                    Prob { m, x, t, p, guess, flag }
                })
        },
        c04,
    )]
}

/// The liquid density where the pressure rises through `p`.
fn edge(m: Model, x: &X, t: f64, p: f64) -> Option<f64> {
    let dc = x.pseudo_critical().0;
    let at = |r: f64| reference::pressure(m, &x.0, t, r * dc).0.v - p;
    let mut hi = 3.4;
    while !(at(hi) > 0.0) || at(hi - 0.1) > 0.0 {
        hi -= 0.1;
        if hi < 0.5 {
            return None;
        }
    }
    let mut lo = hi - 0.1;
    for _ in 0..55 {
        let mid = 0.5 * (lo + hi);
        if at(mid) > 0.0 {
            hi = mid;
        } else {
            lo = mid;
        }
    }
    Some(hi * dc)
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    pub p: Prob,
    /// leave the composition unset (a new instance)
    pub unset: bool,
}

pub fn wild() -> BoxedStrategy<f64> {
    let base = prop_oneof![
        6 => select(vec![
            0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE,
            -f64::MIN_POSITIVE, 5e-324, 1e-300, 1e300, -1.0, 1.0, 1e-16, -1e-16, 1e-15, -1e-15, 2e-15, -2e-15,
        ]),
        2 => logu(-20.0, 20.0),
        2 => logu(-20.0, 20.0).prop_map(|v| -v),
        1 => any::<u64>().prop_map(f64::from_bits),
        1 => -1000.0f64..1000.0,
    ]
    .boxed();
    match dict_near(0.0, f64::MAX, 1.0) {
        None => base,
        Some(d) => prop_oneof![3 => base, 2 => (d, any::<bool>()).prop_map(|(v, n)| if n { -v } else { v })].boxed(),
    }
}

fn failing() -> impl Strategy<Value = Fail> {
    let x = || gas_accepted();
    let ordinary_t = temperature;
    let wild_case = (
        model(),
        x(),
        prop_oneof![3 => temperature().boxed(), 2 => wild().boxed()],
        prop_oneof![3 => pressure_kpa().boxed(), 4 => wild().boxed(), 2 => logu(6.0, 300.0).boxed()],
        prop_oneof![3 => Just(0.0).boxed(), 3 => wild().boxed()],
        prop_oneof![4 => flag().boxed(), 1 => any::<i32>().boxed()],
        prop_oneof![9 => Just(false), 1 => Just(true)],
    )
        .prop_map(|(m, x, t, p, guess, flag, unset)| Fail { p: Prob { m, x, t, p, guess, flag }, unset });
    // cold, heavy gases at pressures around saturation, and pressures out of reach
    let hard = (
        model(),
        gas(),
        prop_oneof![logu(1.0, 2.3).boxed(), ordinary_t().boxed()],
        prop_oneof![pressure_kpa().boxed(), logu(4.5, 12.0).boxed(), logu(-14.0, -3.0).boxed()],
        prop_oneof![Just(0.0).boxed(), logu(-8.0, 3.5).prop_map(|g| -g).boxed()],
        flag(),
    )
        .prop_map(|(m, x, t, p, guess, flag)| Fail { p: Prob { m, x, t, p, guess, flag }, unset: false });
    // ordinary gas at zero or almost zero pressure
    let zero = (
        model(),
        gas(),
        temperature(),
        select(vec![0.0, -0.0, 1e-300, 1e-20, 9e-16, -9e-16, -1e-30]),
        prop_oneof![Just(0.0), -30.0f64..30.0],
        flag(),
        any::<bool>(),
    )
        .prop_map(|(m, x, t, p, guess, flag, unset)| Fail { p: Prob { m, x, t, p, guess, flag }, unset });
    prop_oneof![
        5 => wild_case,
        5 => hard,
        1 => zero,
        2 => problem().prop_map(|p| Fail { p, unset: false }),
    ]
}

fn c05(c: &Fail, o: &mut Obs) -> Result<(), String> {
    let q = &c.p;
    let mut i = Inst::new(q.m);
    if !c.unset {
        if i.set(&q.x) != CErr::Ok {
            return Err("valid composition rejected".into());
        }
    }
    let x0 = i.x();
    i.set_t(q.t);
    i.set_p(q.p);
    i.set_d(q.guess);
    let r = i.density(q.flag);
    let d = i.d();
    o.label(&format!("{:?} {:?}", q.m, r));
    if !same(i.t(), q.t) || !same(i.p(), q.p) || (0..21).any(|k| !same(i.x()[k], x0[k])) {
        return Err(format!("density() changed its inputs: t {:e} p {:e}", i.t(), i.p()));
    }
    let zero_p = q.p.abs() < 1e-15;
    match r {
        DErr::Ok => {
            if !(d.is_finite() && d > 0.0) {
                return Err(format!("success reported with d = {d:e}"));
            }
            if q.p.is_nan() || q.t.is_nan() || zero_p || q.p <= 0.0 || q.p.is_infinite() {
                return Err(format!("success reported (d = {d:e}) for p = {:e}, t = {:e}", q.p, q.t));
            }
            if q.t > 10.0 && q.t < 1e4 && !c.unset {
                let rf = reference::properties(q.m, &q.x.0, q.t, d);
                let tol = pressure_tolerance(q.p, d, &rf);
                if tol < 1e-4 {
                    o.label("success checked by round trip");
                    if !((rf.p.v / q.p - 1.0).abs() < tol.max(1e-6)) {
                        return Err(format!("success reported with d = {d:e}, where P = {:e}, for the requested {:e}", rf.p.v, q.p));
                    }
                }
            }
        }
        DErr::IterationFail => {
            o.nontrivial();
            let want = q.p / q.m.r() / q.t;
            let alt = q.p / (q.m.r() * q.t);
            if !near(d, want, 1e-12) && !near(d, alt, 1e-12) && !(want.abs() < 1e-300 && d.abs() < 1e-300) {
                return Err(format!("failure leaves d = {d:e}, the ideal-gas density is {want:e}"));
            }
            if q.p == 0.0 {
                return Err("zero pressure reported as an iteration failure".into());
            }
        }
        DErr::PressureTooLow => {
            o.nontrivial();
            if d != 0.0 {
                return Err(format!("pressure too low leaves d = {d:e}"));
            }
            if !(q.p.abs() < 1e-14) {
                return Err(format!("p = {:e} reported as too low", q.p));
            }
        }
    }
    // a failure is not sticky: an ordinary calculation on the same instance succeeds afterwards
    if r != DErr::Ok {
        let gas = X::methane();
        let (t, p) = (330.0, 3000.0);
        let fresh = {
            let mut f = Inst::with(q.m, &gas)?;
            f.set_t(t);
            f.set_p(p);
            let r = f.density(0);
            (r, f.d())
        };
        i.set(&gas);
        i.set_t(t);
        i.set_p(p);
        i.set_d(0.0);
        let r2 = i.density(0);
        if r2 != fresh.0 || !near(i.d(), fresh.1, 1e-12) {
            return Err(format!("after a failure, an ordinary calculation gives {r2:?} d = {:e}, a new instance {:?} d = {:e}", i.d(), fresh.0, fresh.1));
        }
    }
    Ok(())
}

pub fn subs_c05() -> Vec<Box<dyn Sub>> {
    vec![check(
        "C05.failures",
        "Case: model, composition (or none), T, P, guess, flag drawn from ordinary, extreme, non-finite and negative values, cold two-phase states and unreachable pressures. Non-trivial: the call reports a failure.",
        900_000,
        6_000_000,
        failing,
        c05,
    )]
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Iso {
    pub m: Model,
    pub x: X,
    #[serde(with = "fser")]
    pub t: f64,
    /// reduced densities of the pressures to solve, and the spacing of the pair
    #[serde(with = "fser")]
    pub rd: f64,
    #[serde(with = "fser")]
    pub step: f64,
}

/// The reference isotherm increases strictly (with a margin) up to five critical densities.
///
/// Returns the smallest dP/dD / RT met.
pub fn monotone(m: Model, x: &X, t: f64) -> Option<f64> {
    let dc = x.pseudo_critical().0;
    let rt = m.r() * t;
    let mut least = 1.0f64;
    for k in 1..=50 {
        let d = 0.1 * k as f64 * dc;
        let (p, _, dp) = reference::pressure(m, &x.0, t, d);
        least = least.min(dp.v / rt);
        if least < 0.02 || p.v <= 0.0 {
            return None;
        }
    }
    Some(least)
}

/// Temperature from which success is claimed for DETAIL: 250 K for pipeline-quality gas, else
/// 1.3 times the critical temperature of every component present to at least 1 %.
fn detail_from(x: &X) -> f64 {
    if pipeline_quality(x) {
        return 250.0;
    }
    (0..21).filter(|&i| x.0[i] >= 0.01).map(|i| 1.3 * crate::tables::G_TC[i + 1]).fold(0.0, f64::max)
}

fn c06(c: &Iso, o: &mut Obs) -> Result<(), String> {
    let dc = c.x.pseudo_critical().0;
    if !(130.0..=2000.0).contains(&c.t) {
        o.label("outside 130-2000 K: not claimed");
        return Ok(());
    }
    if c.m == Model::Detail && c.t < 0.999 * detail_from(&c.x) {
        o.label("DETAIL in the critical region: not claimed");
        return Ok(());
    }
    let Some(least) = monotone(c.m, &c.x, c.t) else {
        o.label("isotherm not monotone: not claimed");
        return Ok(());
    };
    if c.m == Model::Detail && least < 0.1 {
        o.label("DETAIL isotherm too flat: not claimed");
        return Ok(());
    }
    // pressures up to 70 MPa, the range of the standard
    let mut rd = c.rd;
    while reference::pressure(c.m, &c.x.0, c.t, rd * dc * (1.0 + c.step)).0.v > 70_000.0 {
        rd *= 0.8;
    }
    let mut last = 0.0;
    for k in 0..2 {
        let d0 = rd * dc * if k == 1 { 1.0 + c.step } else { 1.0 };
        let p = reference::pressure(c.m, &c.x.0, c.t, d0).0.v;
        let mut i = Inst::with(c.m, &c.x)?;
        i.set_t(c.t);
        i.set_p(p);
        let r = i.density(0);
        let d = i.d();
        if r != DErr::Ok {
            return Err(format!("density() at T = {:e}, P = {p:e} reports {r:?}; the isotherm is monotone, the root is d = {d0:e}", c.t));
        }
        let rf = reference::properties(c.m, &c.x.0, c.t, d0);
        let tol = pressure_tolerance(p, d0, &rf) / (d0 * rf.dp_dd.v / p);
        o.max("relative density error", rel(d, d0));
        if !(rel(d, d0) <= tol.max(1e-10)) {
            return Err(format!("density() at T = {:e}, P = {p:e} gives d = {d:e}; the only root is {d0:e}", c.t));
        }
        if !(d > last) {
            return Err(format!("density {d:e} at the higher pressure {p:e} is not above {last:e}"));
        }
        last = d;
    }
    region(o, &c.x, c.t, last);
    o.label(if c.m == Model::Detail { "DETAIL" } else { "GERG" });
    o.nontrivial();
    Ok(())
}

fn iso() -> impl Strategy<Value = Iso> {
    (
        model(),
        prop_oneof![2 => gas(), 1 => gas_pipeline()],
        prop_oneof![1 => temperature().prop_map(|t| (t, 0.0)), 4 => (1.0f64..4.0).prop_map(|f| (0.0, f))],
        prop_oneof![8 => 0.01f64..3.0, 3 => logu(-6.0, 0.47), 1 => logu(-14.0, -6.0)],
        logu(-6.0, 0.0),
    )
        .prop_map(|(m, x, (t, f), rd, step)| {
            let tc = x.pseudo_critical().1;
            let t = if f > 0.0 {
                match m {
                    Model::Gerg => f * tc,
                    Model::Detail => detail_from(&x) * (1.0 + (f - 1.0) * 0.5),
                }
            } else {
                t
            };
            let t = if f > 0.0 && t < 130.0 { 130.0 + 5.0 * t } else { t };
            let step = step.min(3.0 / rd - 1.0).max(1e-6);
            Iso { m, x, t, rd, step }
        })
}

pub fn subs_c06() -> Vec<Box<dyn Sub>> {
    vec![check(
        "C06.complete",
        "Case: model, composition, T (mostly 1-5 pseudo-critical), two pressures of chosen densities. Non-trivial: the reference isotherm is strictly increasing up to 5 critical densities (and T > 1.3 Tc for DETAIL), so that success and the root are checked.",
        72_000,
        1_000_000,
        iso,
        c06,
    )]
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Branch {
    pub m: Model,
    pub x: X,
    #[serde(with = "fser")]
    pub tr: f64,
    /// position of the pressure between the limits of the two branches (log scale)
    #[serde(with = "fser")]
    pub f: f64,
    /// offset of the starting estimate, as a relative change of pressure
    #[serde(with = "fser")]
    pub off: f64,
    pub flag: i32,
    #[serde(with = "fser")]
    pub ignored: f64,
}

/// Vapour and liquid ends of the unstable range of the reference isotherm: (d, p) of each.
fn spinodals(m: Model, x: &X, t: f64) -> Option<((f64, f64), (f64, f64))> {
    let dc = x.pseudo_critical().0;
    let f = |d: f64| {
        let (p, _, dp) = reference::pressure(m, &x.0, t, d);
        (p.v, dp.v)
    };
    let grid: Vec<f64> = (1..=80).map(|k| 0.05 * k as f64 * dc).collect();
    let s: Vec<bool> = grid.iter().map(|d| f(*d).1 > 0.0).collect();
    // the vapour branch ends at the first unstable point, the liquid branch starts after the last
    let a = s.iter().position(|b| !b)?;
    let b = s.iter().rposition(|b| !b)? + 1;
    if a == 0 || b >= s.len() {
        return None;
    }
    let bis = |mut lo: f64, mut hi: f64| {
        let stable_lo = f(lo).1 > 0.0;
        for _ in 0..40 {
            let mid = 0.5 * (lo + hi);
            if (f(mid).1 > 0.0) == stable_lo {
                lo = mid
            } else {
                hi = mid
            }
        }
        lo
    };
    let dv = bis(grid[a - 1], grid[a]);
    let dl = bis(grid[b - 1], grid[b]);
    // below the first grid point the vapour branch must be stable too
    if !(f(0.01 * dc).1 > 0.0 && f(0.002 * dc).1 > 0.0) {
        return None;
    }
    Some(((dv, f(dv).0), (dl, f(dl).0)))
}

/// Root of the reference isotherm between lo and hi (pressure increasing there).
fn root(m: Model, x: &X, t: f64, p: f64, mut lo: f64, mut hi: f64) -> Option<f64> {
    let f = |d: f64| reference::pressure(m, &x.0, t, d).0.v - p;
    if !(f(lo) < 0.0 && f(hi) > 0.0) {
        return None;
    }
    for _ in 0..70 {
        let mid = 0.5 * (lo + hi);
        if f(mid) < 0.0 {
            lo = mid
        } else {
            hi = mid
        }
    }
    Some(0.5 * (lo + hi))
}

fn call(m: Model, x: &X, t: f64, p: f64, guess: f64, flag: i32) -> Result<(DErr, f64), String> {
    let mut i = Inst::with(m, x)?;
    i.set_t(t);
    i.set_p(p);
    i.set_d(guess);
    let r = i.density(flag);
    Ok((r, i.d()))
}

/// Flag 2 without an estimate returns the liquid root when the liquid-like start leads there.
fn liquid_start(c: &Branch, t: f64, p: f64, dl: f64, o: &mut Obs) -> Result<(), String> {
    let dc = c.x.pseudo_critical().0;
    let Some(rl) = root(c.m, &c.x, t, p, dl, 6.0 * dc) else {
        return Ok(());
    };
    let q = reference::properties(c.m, &c.x.0, t, rl);
    let d3 = 3.0 * dc;
    let (p3, _, dp3) = reference::pressure(c.m, &c.x.0, t, d3);
    let d1 = d3 * (-(p3.v / p).ln() * p3.v / (d3 * dp3.v)).exp();
    let p1 = reference::pressure(c.m, &c.x.0, t, d1).0.v;
    // the first Newton step from there stays on the liquid branch, not too far from the root
    if [q.p, q.dp_dd, q.d2p_dtd, q.cv, q.cp, q.w2].iter().all(|v| v.v > K * v.e) && d1 > 1.02 * dl && d1 < 6.0 * dc && p1 > 0.2 * p && rl * q.dp_dd.v < 1e4 * p {
        let (r, d) = call(c.m, &c.x, t, p, 0.0, 2)?;
        o.label("liquid root without estimate");
        if r != DErr::Ok || rel(d, rl) > 1e-7 {
            return Err(format!("T = {t:e}, P = {p:e}, flag 2: {r:?} d = {d:e}; the liquid root is {rl:e}"));
        }
    }
    Ok(())
}

fn branches(c: &Branch, o: &mut Obs) -> Result<(), String> {
    let (dc, tc) = c.x.pseudo_critical();
    let t = c.tr * tc;
    let Some(((dv, pv), (dl, pl))) = spinodals(c.m, &c.x, t) else {
        o.label("no simple vapour/liquid loop");
        return Ok(());
    };
    let lowest = pl.max(1e-7 * pv).max(1e-4) * 1.02;
    if !(pv > 1e-3 && lowest < 0.9 * pv) {
        o.label("loop too small");
        return Ok(());
    }
    let p = lowest * (0.98 * pv / lowest).powf(c.f);
    // pressures of flag 2: also compressed liquid
    for p2 in [p, pv * (1e5 / pv).max(2.0).powf(c.f)] {
        if c.m == Model::Gerg {
            liquid_start(c, t, p2, dl, o)?;
        }
    }
    let (Some(rv), Some(rl)) = (root(c.m, &c.x, t, p, 1e-12, dv), root(c.m, &c.x, t, p, dl, 5.0 * dc)) else {
        o.label("roots not bracketed");
        return Ok(());
    };
    o.nontrivial();
    o.label(if c.m == Model::Detail { "DETAIL" } else { "GERG" });
    let state = |d: f64| reference::properties(c.m, &c.x.0, t, d);
    let good = |q: &reference::RefProps| {
        [q.p, q.dp_dd, q.d2p_dtd, q.cv, q.cp, q.w2].iter().all(|v| v.v > K * v.e)
    };
    // starting estimates: the root they are close to is found, by any flag
    for (n, r0) in [("vapour", rv), ("liquid", rl)] {
        let q = state(r0);
        let s = r0 * q.dp_dd.v / p;
        let g = r0 * (1.0 + c.off / s);
        let (pg, _, dpg) = reference::pressure(c.m, &c.x.0, t, g);
        let lin = (dpg.v / q.dp_dd.v - 1.0).abs();
        // the isotherm is nearly straight between the estimate and the root
        let on_branch = if n == "vapour" { g < 0.95 * dv } else { g > 1.02 * dl };
        if !(on_branch && rel(g, r0) < 0.2 && lin < 0.05 && s > 0.4 && pg.v > 0.5 * p && pg.v < 2.0 * p && q.dp_dd.v > 0.05 * c.m.r() * t) {
            o.label("estimate on a strongly curved isotherm");
            continue;
        }
        for flag in [0, c.flag] {
            if flag != 0 && c.m == Model::Gerg && !good(&q) {
                continue;
            }
            let (r, d) = call(c.m, &c.x, t, p, -g, flag)?;
            o.label(&format!("estimate near the {n} root"));
            if r != DErr::Ok || rel(d, r0) > 1e-7 {
                return Err(format!(
                    "T = {t:e}, P = {p:e}, flag {flag}: starting estimate {g:e} gives {r:?} d = {d:e}; the close-by {n} root is {r0:e}"
                ));
            }
        }
    }
    // without an estimate
    let base = call(c.m, &c.x, t, p, 0.0, c.flag)?;
    let ign = call(c.m, &c.x, t, p, c.ignored.abs(), c.flag)?;
    if base.0 != ign.0 || !near(base.1, ign.1, 1e-12) {
        return Err(format!("the non-negative density {:e} set beforehand changes the result from {base:?} to {ign:?}", c.ignored));
    }
    if c.m == Model::Gerg {
        if p < 0.3 * pv {
            for flag in [0, 1] {
                let q = state(rv);
                if flag == 1 && !good(&q) {
                    continue;
                }
                let (r, d) = call(c.m, &c.x, t, p, 0.0, flag)?;
                o.label("vapour root without estimate");
                if r != DErr::Ok || rel(d, rv) > 1e-7 {
                    return Err(format!("T = {t:e}, P = {p:e}, flag {flag}: {r:?} d = {d:e}; the vapour root is {rv:e} (spinodal pressure {pv:e})"));
                }
            }
        }
    }
    Ok(())
}

/// Flags 1 and 2 against flag 0 from the same start.
fn flags(c: &Prob, o: &mut Obs) -> Result<(), String> {
    let a = call(c.m, &c.x, c.t, c.p, c.guess, 0)?;
    let same_start: &[i32] = if c.guess < -1e-12 { &[1, 2] } else { &[1] };
    for f in [1, 2] {
        let b = call(c.m, &c.x, c.t, c.p, c.guess, f)?;
        if b.0 == DErr::Ok {
            let q = reference::properties(c.m, &c.x.0, c.t, b.1);
            for (n, v) in [("P", q.p), ("dP/dD", q.dp_dd), ("d2P/dTdD", q.d2p_dtd), ("cv", q.cv), ("cp", q.cp), ("w^2", q.w2)] {
                if v.v < -K * v.e {
                    return Err(format!("flag {f} succeeds at d = {:e} where {n} = {:e}", b.1, v.v));
                }
            }
        }
        if !same_start.contains(&f) {
            continue;
        }
        match a.0 {
            DErr::Ok => {
                let q = reference::properties(c.m, &c.x.0, c.t, a.1);
                let all = [q.p, q.dp_dd, q.d2p_dtd, q.cv, q.cp, q.w2];
                if all.iter().all(|v| v.v > K * v.e) {
                    o.label("flag 0 result passes the checks");
                    o.nontrivial();
                    if b.0 != DErr::Ok || !near(a.1, b.1, 1e-12) {
                        return Err(format!("flag 0 finds d = {:e}, which passes every check, but flag {f} gives {b:?}", a.1));
                    }
                } else if all.iter().any(|v| v.v < -K * v.e) {
                    o.label("flag 0 result fails a check");
                    o.nontrivial();
                    let ideal = c.p / c.m.r() / c.t;
                    if b.0 != DErr::IterationFail || !near(b.1, ideal, 1e-12) {
                        return Err(format!("flag 0 finds d = {:e}, which fails a check, but flag {f} gives {b:?}", a.1));
                    }
                }
            }
            _ => {
                if b != a && !(b.0 == a.0 && near(a.1, b.1, 1e-12)) {
                    return Err(format!("flag 0 gives {a:?}, flag {f} {b:?} from the same start"));
                }
            }
        }
    }
    Ok(())
}

pub fn subs_c07() -> Vec<Box<dyn Sub>> {
    vec![
        check(
            "C07.branches",
            "Case: model, composition, subcritical T, pressure with both a vapour and a liquid root, offset of the starting estimate, flag. Non-trivial: the reference isotherm has one vapour-liquid loop and both roots.",
            24_000,
            800_000,
            || {
                (
                    model(),
                    gas(),
                    0.5f64..0.98,
                    prop_oneof![0.0f64..1.0, Just(0.999), Just(0.0)],
                    -0.3f64..0.3,
                    0i32..3,
                    prop_oneof![logu(-9.0, 3.0), 0.0f64..60.0],
                )
                    .prop_map(|(m, x, tr, f, off, flag, ignored)| Branch { m, x, tr, f, off, flag, ignored })
            },
            branches,
        ),
        check(
            "C07.flags",
            "Case: GERG density problem with random start. Non-trivial: the flag-0 calculation succeeds and the positivity checks are decided by the reference.",
            300_000,
            2_000_000,
            || {
                prop_oneof![
                    2 => problem(),
                    // cold and dense: the positivity checks fail now and then
                    1 => (gas(), logu(1.3, 2.5), pressure_kpa(), prop_oneof![0.5f64..4.0, logu(-3.0, 0.6)], any::<bool>()).prop_map(|(x, t, p, g, s)| {
                        let dc = x.pseudo_critical().0;
                        Prob { m: Model::Gerg, x, t, p, guess: if s { -g * dc } else { 0.0 }, flag: 0 }
                    }),
                ]
                .prop_map(|mut c| {
                    c.m = Model::Gerg;
                    c
                })
            },
            flags,
        ),
    ]
}
