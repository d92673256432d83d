//! C01, C02: outputs equal the published equations.
use crate::gens::*;
use crate::inst::*;
use crate::reference::{self, Model};
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct State {
    pub x: X,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub d: f64,
}

pub fn temperature_wide() -> impl Strategy<Value = f64> {
    prop_oneof![16 => temperature(), 2 => logu(1.778, 3.3), 1 => logu(0.8, 5.0)]
}

pub fn state_of(x: impl Strategy<Value = X>) -> impl Strategy<Value = State> {
    let rd = prop_oneof![
        16 => reduced_density(),
        1 => 3.0f64..8.0,
        1 => logu(-16.0, -6.0),
        1 => logu(0.3, 2.0),
    ];
    // absolute densities and reduced temperatures of interest (see `dict`)
    let none = || Just(0.0).boxed();
    let ds = dict_near(1.1e-15, 80.0, 1.0).map_or(none(), |d| prop_oneof![4 => none(), 1 => d].boxed());
    let ts = dict_near(0.1, 10.0, 1.0).map_or(none(), |d| prop_oneof![4 => none(), 1 => d].boxed());
    (x, temperature_wide(), rd, ds, ts, any::<bool>()).prop_map(|(x, mut t, rd, d, tr, inv)| {
        if tr > 0.0 {
            let tc = x.pseudo_critical().1;
            t = (if inv { tc / tr } else { tc * tr }).max(10.0);
        }
        if d > 0.0 {
            return State { x, t, d };
        }
        // densities up to 1e-15 count as zero (C12)
        let d = (rd * x.pseudo_critical().0).max(1.1e-15);
        State { x, t, d }
    })
}

pub fn classify(o: &mut Obs, m: Model, s: &State) {
    o.label(s.x.class());
    let (dc, tc) = s.x.pseudo_critical();
    let _ = m;
    o.label(match s.t / tc {
        r if r < 0.7 => "T/Tc<0.7",
        r if r < 1.0 => "0.7<=T/Tc<1",
        r if r < 1.3 => "1<=T/Tc<1.3",
        r if r < 2.0 => "1.3<=T/Tc<2",
        _ => "T/Tc>=2",
    });
    o.label(match s.d / dc {
        r if r < 1e-4 => "D/Dc<1e-4",
        r if r < 0.1 => "1e-4<=D/Dc<0.1",
        r if r < 0.7 => "0.1<=D/Dc<0.7",
        r if r < 1.5 => "0.7<=D/Dc<1.5",
        r if r < 3.2 => "1.5<=D/Dc<3.2",
        _ => "D/Dc>=3.2",
    });
}

fn one(m: Model, s: &State, o: &mut Obs) -> Result<(), String> {
    classify(o, m, s);
    let mut i = Inst::with(m, &s.x)?;
    let out = i.props_at(s.t, s.d);
    let r = reference::properties(m, &s.x.0, s.t, s.d);
    let judged = against_reference(&out, &r, m == Model::Detail, |n, v| o.max(n, v))?;
    if judged >= 12 {
        o.nontrivial();
    } else {
        o.label("fewer than 12 outputs judged");
    }
    // the stand-alone pressure calculation
    let mut j = Inst::with(m, &s.x)?;
    let p = j.pressure_at(s.t, s.d);
    if r.p.v.is_finite() && r.p.e < 1e-3 * r.p.v.abs() + 1e-6 {
        if !((p - r.p.v).abs() <= K * r.p.e) {
            return Err(format!("pressure() = {p:e}, reference {:e} (allowed {:e})", r.p.v, K * r.p.e));
        }
        let z = j.out().v[Z];
        if !((z - r.z.v).abs() <= K * r.z.e) {
            return Err(format!("z after pressure() = {z:e}, reference {:e}", r.z.v));
        }
    }
    Ok(())
}

/// All 231 pairs and pure fluids, each at generated states.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PairState {
    pub i: usize,
    pub j: usize,
    #[serde(with = "fser")]
    pub f: f64,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub rd: f64,
}

impl PairState {
    fn x(&self) -> X {
        let mut w = [0.0; 21];
        w[self.i] += 1.0 - self.f;
        w[self.j] += self.f;
        X(w)
    }
}

pub fn subs(m: Model) -> Vec<Box<dyn Sub>> {
    let (a, b) = match m {
        Model::Detail => ("C01.states", "C01.pairs"),
        Model::Gerg => ("C02.states", "C02.pairs"),
    };
    let q = if m == Model::Detail { 240_000 } else { 480_000 };
    vec![
        check(
            a,
            "Case: composition (pure, binary, 3-6, full, skewed, pipeline, trace, named; some sums off by <1 %), T, reduced density. Non-trivial: the reference pins down at least 12 outputs.",
            q,
            q * 8,
            || state_of(gas_accepted()),
            move |s, o| one(m, s, o),
        ),
        check(
            b,
            "Case: ordered pair of components (equal: pure fluid), fraction in (0,1), T 100-1000 K, reduced density; every pair occurs. Non-trivial: the reference pins down at least 12 outputs.",
            180_000,
            1_500_000,
            || {
                (0usize..21, 0usize..21, 0.001f64..0.999, 100.0f64..1000.0, prop_oneof![0.02f64..0.5, 0.5f64..2.8])
                    .prop_map(|(i, j, f, t, rd)| PairState { i, j, f, t, rd })
            },
            move |c, o| {
                let x = c.x();
                let d = c.rd * x.pseudo_critical().0;
                one(m, &State { x, t: c.t, d }, o)
            },
        ),
    ]
}
