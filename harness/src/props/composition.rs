//! C09, C10, C11: the composition.
use super::density::wild;
use super::history::wild_x;
use super::thermo::model;
use crate::cinst::*;
use crate::gens::*;
use crate::inst::*;
use crate::reference::{self, Model};
use crate::runner::*;
use crate::tables::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// Exact-ish sum: a double-double accumulator, and how far any plain summation may be from it.
pub fn exact_sum(v: &[f64; 21]) -> (f64, f64) {
    let (mut hi, mut lo, mut mag) = (0.0f64, 0.0f64, 0.0f64);
    for &a in v {
        let s = hi + a;
        let b = s - hi;
        lo += (hi - (s - b)) + (a - b);
        hi = s;
        mag += a.abs();
    }
    (hi + lo, 22.0 * 2.3e-16 * mag)
}

// ---------------------------------------------------------------- C09

/// The verdicts that a correct check may give.
fn verdicts(x: &X) -> Vec<CErr> {
    if x.0.iter().any(|v| v.is_nan()) {
        return vec![CErr::BadSum];
    }
    let inf = |s: f64| x.0.iter().any(|v| *v == s);
    if inf(f64::INFINITY) || inf(f64::NEG_INFINITY) {
        return vec![CErr::BadSum];
    }
    let (s, e) = exact_sum(&x.0);
    if !s.is_finite() || !e.is_finite() {
        // an intermediate overflow
        return vec![CErr::BadSum, CErr::Empty, CErr::Ok];
    }
    let mut v = vec![];
    let (lo, hi) = (s - e, s + e);
    if lo < 1e-10 && hi > -1e-10 {
        v.push(CErr::Empty);
    }
    let tiny = 4e-16;
    if hi >= 0.99 - tiny && lo <= 1.01 + tiny {
        v.push(CErr::Ok);
    }
    if lo < 0.99 + tiny && (lo < -1e-10 + 1e-25 || hi > 1e-10 - 1e-25) || hi > 1.01 - tiny || lo <= -1e-10 {
        v.push(CErr::BadSum);
    }
    v
}

/// A composition placed by its sum.
fn placed() -> impl Strategy<Value = X> {
    let sums = prop_oneof![
        4 => select(vec![0.99, 1.01]).prop_flat_map(|b: f64| {
            prop_oneof![
                Just(b),
                logu(-15.0, -2.0).prop_map(move |e| b * (1.0 + e)),
                logu(-15.0, -2.0).prop_map(move |e| b * (1.0 - e)),
                (-4i64..5).prop_map(move |k| f64::from_bits((b.to_bits() as i64 + k) as u64)),
            ]
        }),
        2 => select(vec![1e-10, -1e-10]).prop_flat_map(|b: f64| {
            prop_oneof![
                Just(b),
                logu(-14.0, -0.5).prop_map(move |e| b * (1.0 + e)),
                logu(-14.0, -0.5).prop_map(move |e| b * (1.0 - e)),
            ]
        }),
        1 => select(vec![0.0, -0.0, 1.0, 100.0, 0.5, -1.0, 1e-5, 0.98, 1.02, 0.995, 1.005, 2.0, 1e-11, 1e-9]),
        1 => 0.97f64..1.03,
        1 => -2.0f64..2.0,
    ]
    .boxed();
    let sums = match dict_near(0.0, 100.0, 1.0) {
        None => sums,
        Some(d) => prop_oneof![3 => sums, 1 => (d, 0u8..4).prop_map(|(v, k)| match k { 0 => v, 1 => -v, 2 => 1.0 + v, _ => 1.0 - v })].boxed(),
    };
    // spread the sum over the components, or concentrate it in one
    (gas(), sums, prop_oneof![3 => Just(None), 2 => (0usize..21).prop_map(Some)], 0usize..21, 0usize..21, prop_oneof![4 => Just(0.0), 1 => -2.0f64..2.0]).prop_map(
        |(x, s, one, i, j, shift)| {
            let mut w = match one {
                None => x.0.map(|v| v * s),
                Some(k) => {
                    let mut w = [0.0; 21];
                    w[k] = s;
                    w
                }
            };
            if i != j {
                w[i] += shift;
                w[j] -= shift;
            }
            X(w)
        },
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Valid {
    pub x: X,
}

fn c09_verdict(c: &Valid, o: &mut Obs) -> Result<(), String> {
    let want = verdicts(&c.x);
    let (s, _) = exact_sum(&c.x.0);
    if want.len() == 1 {
        o.nontrivial();
        o.label(&format!("{:?}", want[0]));
        if (s - 0.99).abs() < 1e-5 || (s - 1.01).abs() < 1e-5 {
            o.label("within 1e-5 of 0.99 or 1.01");
        }
        if s.abs() < 1e-8 {
            o.label("|sum| < 1e-8");
        }
        if c.x.0.iter().any(|v| v.is_nan()) {
            o.label("NaN");
        }
    } else {
        o.label("on a boundary");
    }
    let comp = c.x.comp();
    let got = cres(comp.check());
    if !want.contains(&got) {
        return Err(format!("check() = {got:?} for the sum {s:e}; expected {want:?}"));
    }
    if X::from_comp(&comp).0.iter().zip(&c.x.0).any(|(a, b)| !same(*a, *b)) {
        return Err("check() changed the composition".into());
    }
    for m in [Model::Detail, Model::Gerg] {
        let r = Inst::new(m).set(&c.x);
        if r != got {
            return Err(format!("{m:?} set_composition() = {r:?}, check() = {got:?}"));
        }
        for before in [CErr::Ok, CErr::Empty, CErr::BadSum] {
            let k = CInst::new(m);
            let r = k.set(&c.x, before);
            if r != got {
                return Err(format!("C interface of {m:?} reports {r:?}, check() = {got:?}"));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reject {
    pub m: Model,
    pub good: X,
    /// nothing was set before
    pub unset: bool,
    pub bad: Vec<X>,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub p: f64,
    #[serde(with = "fser")]
    pub d: f64,
    /// 0 nothing, 1 properties, 2 density before the attempt
    pub warm: usize,
}

fn c09_atomic(c: &Reject, o: &mut Obs) -> Result<(), String> {
    let mut i = Inst::new(c.m);
    let mut j = Inst::new(c.m);
    let k = CInst::new(c.m);
    for n in [&mut i, &mut j] {
        if !c.unset && n.set(&c.good) != CErr::Ok {
            return Err("valid composition rejected".into());
        }
        n.set_t(c.t);
        n.set_p(c.p);
        n.set_d(c.d);
        match c.warm {
            1 => drop(n.properties()),
            2 => drop(n.density(0)),
            _ => {}
        }
    }
    if !c.unset {
        k.set(&c.good, CErr::Ok);
    }
    k.set_t(c.t);
    k.set_p(c.p);
    k.set_d(c.d);
    match c.warm {
        1 => k.properties(),
        2 => drop(k.density(DErr::Ok)),
        _ => {}
    }
    let mut rejected = 0;
    for b in &c.bad {
        if verdicts(b).contains(&CErr::Ok) {
            continue;
        }
        let before = i.out();
        let r = i.set(b);
        let a = i.out();
        if r == CErr::Ok {
            return Err(format!("{b:?} accepted"));
        }
        rejected += 1;
        o.label(&format!("rejected as {r:?}"));
        if let Some(q) = (0..OUTN).find(|q| !same(before.v[*q], a.v[*q])) {
            return Err(format!("rejected composition changed {} from {:e} to {:e}", ONAMES[q], before.v[q], a.v[q]));
        }
        if let Some(q) = (0..21).find(|q| !same(before.x[*q], a.x[*q])) {
            return Err(format!("rejected composition changed the fraction of {} from {:e} to {:e}", NAMES[q], before.x[q], a.x[q]));
        }
        k.set(b, CErr::Ok);
    }
    if rejected > 0 {
        o.nontrivial();
        if c.unset {
            o.label("no composition set before");
        }
    }
    // computing goes on as if there had been no attempt
    for step in 0..3 {
        let (ri, rj) = match step {
            0 => (i.properties(), j.properties()),
            1 => {
                let (a, b) = (i.density(0), j.density(0));
                let e = k.density(DErr::Ok);
                if a != b || (a != e) {
                    return Err(format!("density(): {a:?} (C {e:?}) after a rejected composition, {b:?} without it"));
                }
                (0.0, 0.0)
            }
            _ => (i.pressure(), j.pressure()),
        };
        if step == 0 {
            k.properties();
        }
        if !same(ri, rj) {
            return Err(format!("step {step}: {ri:e} after a rejected composition, {rj:e} without it"));
        }
        let (a, b) = (i.out(), j.out());
        if let Some(q) = (0..OUTN).find(|q| !same(a.v[*q], b.v[*q])) {
            return Err(format!("step {step}: {} = {:e} after a rejected composition, {:e} without it", ONAMES[q], a.v[q], b.v[q]));
        }
        if step == 2 {
            k.pressure();
        }
        let g = k.get();
        for q in 0..CN {
            if !same(g[q], b.v[CIDX[q]]) {
                return Err(format!("step {step}: C interface: {} = {:e} after a rejected composition, {:e} without it", CNAMES[q], g[q], b.v[CIDX[q]]));
            }
        }
    }
    Ok(())
}

pub fn subs_c09() -> Vec<Box<dyn Sub>> {
    vec![
        check(
            "C09.verdict",
            "Case: composition placed by its sum (around 0.99, 1.01, +-1e-10, units in the last place included) or with arbitrary entries (NaN, infinite, negative). Non-trivial: the exact sum determines the verdict.",
            180_000,
            2_000_000,
            || prop_oneof![3 => placed(), 2 => wild_x()].prop_map(|x| Valid { x }),
            c09_verdict,
        ),
        check(
            "C09.atomic",
            "Case: model with a composition (or none) and some earlier calculation, then up to 3 rejected compositions, then calculations; a twin without the attempts is the oracle. Non-trivial: at least one rejection.",
            150_000,
            1_000_000,
            || {
                (
                    model(), gas_accepted(), prop_oneof![9 => Just(false), 1 => Just(true)],
                    proptest::collection::vec(prop_oneof![placed(), wild_x()], 1..4),
                    temperature(), pressure_kpa(), -20.0f64..20.0, 0usize..3,
                )
                    .prop_map(|(m, good, unset, bad, t, p, d, warm)| Reject { m, good, unset, bad, t, p, d, warm })
            },
            c09_atomic,
        ),
    ]
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Named {
    pub m: Model,
    pub x: X,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub rd: f64,
}

fn c10(c: &Named, o: &mut Obs) -> Result<(), String> {
    o.label(c.x.class());
    for k in 0..21 {
        if c.x.0[k] != 0.0 {
            o.label(NAMES[k]);
        }
    }
    let d = c.rd * c.x.pseudo_critical().0;
    let comp = c.x.comp();
    let (s, e) = exact_sum(&c.x.0);
    if !((comp.sum() - s).abs() <= e) {
        return Err(format!("sum() = {:e}, the fractions add up to {s:e}", comp.sum()));
    }
    let masses: Vec<f64> = (0..21).map(|k| if c.m == Model::Detail { D_MMI[k] } else { G_MMI[k + 1] }).collect();
    let mm: f64 = (0..21).map(|k| c.x.0[k] * masses[k]).sum();
    let rf = reference::properties(c.m, &c.x.0, c.t, d);
    // Rust
    let mut i = Inst::with(c.m, &c.x)?;
    let got = i.molar_mass();
    if !near(got, mm, 1e-13) {
        return Err(format!("molar mass {got:e}, the mole-fraction average is {mm:e}"));
    }
    let out = i.props_at(c.t, d);
    let judged = against_reference(&out, &rf, c.m == Model::Detail, |_, _| {})?;
    // C
    let k = CInst::new(c.m);
    if k.set(&c.x, CErr::BadSum) != CErr::Ok {
        return Err("C interface rejects the composition".into());
    }
    let got = k.molar_mass();
    if !near(got, mm, 1e-13) {
        return Err(format!("C interface: molar mass {got:e}, the mole-fraction average is {mm:e}"));
    }
    k.set_t(c.t);
    k.set_d(d);
    k.properties();
    let g = k.get();
    for q in 0..CN {
        if !near(g[q], out.v[CIDX[q]], 1e-12) {
            return Err(format!("C interface: {} = {:e}, Rust interface {:e}", CNAMES[q], g[q], out.v[CIDX[q]]));
        }
    }
    if judged >= 10 {
        o.nontrivial();
    }
    Ok(())
}

/// Moving an amount from one named component to another moves the outputs as the equations say.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Move {
    pub n: Named,
    pub from: usize,
    pub to: usize,
    #[serde(with = "fser")]
    pub part: f64,
}

fn c10_move(c: &Move, o: &mut Obs) -> Result<(), String> {
    let mut w = c.n.x.0;
    let by = w[c.from] * c.part;
    w[c.from] -= by;
    w[c.to] += by;
    let y = X(w);
    if w.iter().any(|v| *v > 0.0 && *v < 1.1e-15) {
        // may be left out of account
        o.label("trace below 1e-15");
        return Ok(());
    }
    let d = c.n.rd * c.n.x.pseudo_critical().0;
    let mut i = Inst::with(c.n.m, &c.n.x)?;
    i.props_at(c.n.t, d);
    if i.set(&y) != CErr::Ok {
        return Err("moved composition rejected".into());
    }
    let out = i.props_at(c.n.t, d);
    let rf = reference::properties(c.n.m, &y.0, c.n.t, d);
    let judged = against_reference(&out, &rf, c.n.m == Model::Detail, |_, _| {})
        .map_err(|e| format!("after moving {by:e} from {} to {}: {e}", NAMES[c.from], NAMES[c.to]))?;
    if judged >= 10 && by > 0.0 && c.from != c.to {
        o.nontrivial();
        o.label(&format!("to {}", NAMES[c.to]));
    }
    Ok(())
}

fn distinct() -> impl Strategy<Value = X> {
    Just((1..22).collect::<Vec<usize>>()).prop_shuffle().prop_map(|v| {
        let mut w = [0.0; 21];
        for k in 0..21 {
            w[k] = v[k] as f64 / 231.0;
        }
        X(w)
    })
}

fn named() -> impl Strategy<Value = Named> {
    (
        model(),
        prop_oneof![3 => gas_pure(), 3 => gas_binary(), 4 => distinct(), 2 => gas_accepted()],
        200.0f64..700.0,
        0.01f64..2.5,
    )
        .prop_map(|(m, x, t, rd)| Named { m, x, t, rd })
}

pub fn subs_c10() -> Vec<Box<dyn Sub>> {
    vec![
        check(
            "C10.named",
            "Case: model, pure fluid / pair / all 21 fractions different in random order / any gas, T, D; sum, molar mass and outputs through the Rust and C interfaces against the reference. Non-trivial: at least 10 outputs judged.",
            180_000,
            1_500_000,
            named,
            c10,
        ),
        check(
            "C10.move",
            "Case: gas, then part of one component's fraction moved to another component on the same instance. Non-trivial: amount and components differ, at least 10 outputs judged.",
            180_000,
            1_500_000,
            || {
                (named(), 0usize..21, 0usize..21, prop_oneof![3 => 0.01f64..1.0, 1 => logu(-9.0, -1.0), 1 => Just(1.0)]).prop_map(|(n, k, to, part)| {
                    // start at a component that is present
                    let from = (0..21).map(|q| (q + k) % 21).find(|q| n.x.0[*q] > 0.0).unwrap_or(0);
                    Move { n, from, to, part }
                })
            },
            c10_move,
        ),
    ]
}

// ---------------------------------------------------------------- C11

fn scaled() -> impl Strategy<Value = X> {
    let factor = prop_oneof![Just(100.0), Just(1000.0), logu(-12.0, 12.0), logu(-307.5, 307.5), Just(1.0), 0.9f64..1.1, logu(-15.0, -1.0).prop_map(|v| 1.0 - v), logu(-15.0, -1.0).prop_map(|v| 1.0 + v)].boxed();
    let factor = match dict_near(1e-300, 1e300, 1.0) {
        None => factor,
        Some(d) => prop_oneof![3 => factor, 1 => (d, 0u8..3).prop_map(|(v, k)| match k { 0 => v, 1 => 1.0 + v, _ => (1.0 - v).abs() })].boxed(),
    };
    prop_oneof![
        // percent, per mille, arbitrary amounts
        4 => (gas(), factor).prop_map(|(x, k)| X(x.0.map(|v| v * k))),
        2 => proptest::collection::vec(prop_oneof![1 => Just(0.0).boxed(), 3 => logu(-323.0, 307.0).boxed(), 3 => logu(-5.0, 3.0).boxed()], 21).prop_map(|v| {
            let mut w = [0.0; 21];
            w.copy_from_slice(&v);
            X(w)
        }),
        // a few entries only
        3 => proptest::collection::vec((0usize..21, prop_oneof![2 => 0.0f64..100.0, 2 => logu(-323.0, 307.9), 1 => (0u32..20).prop_map(f64::from), 1 => (1u64..2000).prop_map(f64::from_bits)]), 1..4).prop_map(|v| {
            let mut w = [0.0; 21];
            for (i, f) in v {
                w[i] = f;
            }
            X(w)
        }),
        // sums near 1/f64::MAX and near f64::MAX
        1 => (gas(), prop_oneof![(-309.5f64..-307.0).boxed(), (307.5f64..308.2).boxed()]).prop_map(|(x, u)| X(x.0.map(|v| v * 10f64.powf(u)))),
        2 => wild_x(),
        1 => proptest::collection::vec(wild(), 21).prop_map(|v| {
            let mut w = [0.0; 21];
            for k in 0..21 { w[k] = if v[k].is_nan() { v[k] } else { v[k].abs() }; }
            X(w)
        }),
    ]
}

fn c11(c: &Valid, o: &mut Obs) -> Result<(), String> {
    let mut comp = c.x.comp();
    let r = cres(comp.normalize());
    let y = X::from_comp(&comp);
    let (s, e) = exact_sum(&c.x.0);
    let regular = c.x.0.iter().all(|v| *v >= 0.0 && v.is_finite());
    if r != CErr::Ok {
        if let Some(k) = (0..21).find(|k| !same(y.0[*k], c.x.0[*k])) {
            return Err(format!("normalize() = {r:?} changed {} from {:e} to {:e}", NAMES[k], c.x.0[k], y.0[k]));
        }
    }
    let sum = c.x.comp().sum();
    if sum.is_nan() || sum.is_infinite() || (regular && s == 0.0) || (regular && s > 0.0 && s < 0.999 / f64::MAX) {
        o.nontrivial();
        o.label(&format!("cannot be scaled: {r:?}"));
        if r == CErr::Ok {
            return Err(format!("normalize() succeeds on the sum {sum:e}, giving {y:?}"));
        }
        if regular && s == 0.0 && r != CErr::Empty {
            return Err(format!("normalize() of an empty composition reports {r:?}"));
        }
        return Ok(());
    }
    if !regular || !(s > 0.0) || !e.is_finite() || s < 1.001 / f64::MAX {
        o.label("negative entries, or at the limit of scaling");
        return Ok(());
    }
    o.nontrivial();
    o.label(match s {
        s if s < 1e-300 => "sum < 1e-300",
        s if s < 0.9 => "1e-300 <= sum < 0.9",
        s if s < 1.1 => "sum about one",
        s if s < 1e4 => "1.1 <= sum < 1e4",
        s if s < 1e300 => "1e4 <= sum < 1e300",
        _ => "sum >= 1e300",
    });
    if r != CErr::Ok {
        return Err(format!("normalize() = {r:?} for the sum {s:e}"));
    }
    // entries so small that the scaled value, or the factor, is subnormal lose digits
    let tiny = 1e-320;
    let t = exact_sum(&y.0).0;
    if !((t - 1.0).abs() <= 1e-13) {
        return Err(format!("the sum after normalize() is {t:e}"));
    }
    for k in 0..21 {
        let want = c.x.0[k] / s;
        if !((y.0[k] - want).abs() <= 4e-14 * want + tiny) {
            return Err(format!("{} became {:e}, its share is {want:e}", NAMES[k], y.0[k]));
        }
        if (c.x.0[k] == 0.0) != (y.0[k] == 0.0) && want > 1e-320 {
            return Err(format!("{} went from {:e} to {:e}", NAMES[k], c.x.0[k], y.0[k]));
        }
    }
    let v = cres(comp.check());
    if v != CErr::Ok {
        return Err(format!("the normalised composition does not validate: {v:?}"));
    }
    for m in [Model::Detail, Model::Gerg] {
        let v = Inst::new(m).set(&y);
        if v != CErr::Ok {
            return Err(format!("{m:?} rejects the normalised composition: {v:?}"));
        }
    }
    let r2 = cres(comp.normalize());
    let z = X::from_comp(&comp);
    if r2 != CErr::Ok {
        return Err(format!("normalising again: {r2:?}"));
    }
    for k in 0..21 {
        if !((z.0[k] - y.0[k]).abs() <= 4e-14 * y.0[k] + tiny) {
            return Err(format!("normalising again changed {} from {:e} to {:e}", NAMES[k], y.0[k], z.0[k]));
        }
    }
    Ok(())
}

pub fn subs_c11() -> Vec<Box<dyn Sub>> {
    vec![check(
        "C11.normalize",
        "Case: fractions over the whole range of doubles, percentages, sums about 1, near overflow and near the smallest reciprocal, negative, NaN, infinite. Non-trivial: the outcome is determined (non-negative finite with positive scalable sum, or not scalable).",
        1_200_000,
        8_000_000,
        || scaled().prop_map(|x| Valid { x }),
        c11,
    )]
}
