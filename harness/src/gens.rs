//! Generators (all randomness comes from proptest strategies).
use crate::tables::*;
use proptest::prelude::*;
use proptest::sample::{select, subsequence};
use serde::{Deserialize, Serialize};
use std::fmt;

/// f64 that survives JSON (NaN, infinities and exact bits as shortest round-trip text).
pub mod fser {
    use serde::{de::Error, Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &f64, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{v:?}"))
    }
    pub fn deserialize<'a, D: Deserializer<'a>>(d: D) -> Result<f64, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map_err(D::Error::custom)
    }
}

#[derive(Clone, Copy, PartialEq)]
pub struct X(pub [f64; 21]);

pub const NAMES: [&str; 21] = [
    "methane", "nitrogen", "carbon_dioxide", "ethane", "propane", "isobutane", "n_butane",
    "isopentane", "n_pentane", "hexane", "heptane", "octane", "nonane", "decane", "hydrogen",
    "oxygen", "carbon_monoxide", "water", "hydrogen_sulfide", "helium", "argon",
];

impl fmt::Debug for X {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut m = f.debug_map();
        for i in 0..21 {
            if self.0[i] != 0.0 {
                m.entry(&NAMES[i], &self.0[i]);
            }
        }
        m.finish()
    }
}
impl Serialize for X {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(None)?;
        for i in 0..21 {
            if self.0[i].to_bits() != 0 {
                m.serialize_entry(NAMES[i], &format!("{:?}", self.0[i]))?;
            }
        }
        m.end()
    }
}
impl<'a> Deserialize<'a> for X {
    fn deserialize<D: serde::Deserializer<'a>>(d: D) -> Result<X, D::Error> {
        let m = std::collections::BTreeMap::<String, String>::deserialize(d)?;
        let mut x = [0.0; 21];
        for (k, v) in m {
            let i = NAMES
                .iter()
                .position(|n| *n == k)
                .ok_or_else(|| serde::de::Error::custom("component"))?;
            x[i] = v.parse().map_err(serde::de::Error::custom)?;
        }
        Ok(X(x))
    }
}

impl X {
    pub fn methane() -> X {
        let mut w = [0.0; 21];
        w[0] = 1.0;
        X(w)
    }
    pub fn comp(&self) -> aga8::composition::Composition {
        let x = &self.0;
        aga8::composition::Composition {
            methane: x[0],
            nitrogen: x[1],
            carbon_dioxide: x[2],
            ethane: x[3],
            propane: x[4],
            isobutane: x[5],
            n_butane: x[6],
            isopentane: x[7],
            n_pentane: x[8],
            hexane: x[9],
            heptane: x[10],
            octane: x[11],
            nonane: x[12],
            decane: x[13],
            hydrogen: x[14],
            oxygen: x[15],
            carbon_monoxide: x[16],
            water: x[17],
            hydrogen_sulfide: x[18],
            helium: x[19],
            argon: x[20],
        }
    }
    pub fn from_comp(c: &aga8::composition::Composition) -> X {
        X([
            c.methane,
            c.nitrogen,
            c.carbon_dioxide,
            c.ethane,
            c.propane,
            c.isobutane,
            c.n_butane,
            c.isopentane,
            c.n_pentane,
            c.hexane,
            c.heptane,
            c.octane,
            c.nonane,
            c.decane,
            c.hydrogen,
            c.oxygen,
            c.carbon_monoxide,
            c.water,
            c.hydrogen_sulfide,
            c.helium,
            c.argon,
        ])
    }
    pub fn x22(&self) -> [f64; 22] {
        let mut y = [0.0; 22];
        y[1..].copy_from_slice(&self.0);
        y
    }
    pub fn count(&self) -> usize {
        self.0.iter().filter(|v| **v > 0.0).count()
    }
    /// Mole-fraction average of critical temperature, and reciprocal average of critical volume.
    pub fn pseudo_critical(&self) -> (f64, f64) {
        let (mut t, mut v) = (0.0, 0.0);
        for i in 0..21 {
            t += self.0[i] * G_TC[i + 1];
            v += self.0[i] / G_DC[i + 1];
        }
        (1.0 / v, t)
    }
    pub fn class(&self) -> &'static str {
        match self.count() {
            0 => "gas:none",
            1 => "gas:pure",
            2 => "gas:binary",
            3..=6 => "gas:3-6 components",
            7..=20 => "gas:7-20 components",
            _ => "gas:all 21 components",
        }
    }
    pub fn tol_sum1(&self) -> bool {
        (self.0.iter().sum::<f64>() - 1.0).abs() < 1e-9
    }
}

/// Numbers that occur in the sources of the library more often than in the pinned sources: where a
/// change treats particular values in a particular way, its own constants are good test inputs.
/// (Empty on the pinned tree; this only directs the generators, no verdict depends on it.)
pub fn dict() -> &'static [f64] {
    static D: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut base = std::collections::HashMap::new();
        for l in include_str!("literals.txt").lines() {
            let mut w = l.split_whitespace();
            if let (Some(v), Some(n)) = (w.next().and_then(|v| v.parse::<f64>().ok()), w.next().and_then(|n| n.parse::<usize>().ok())) {
                base.insert(v.to_bits(), n);
            }
        }
        // for trying the generators out: AGAPBT_DICT=1e-6,300
        let more: Vec<f64> = std::env::var("AGAPBT_DICT").iter().flat_map(|s| s.split(',')).filter_map(|v| v.parse().ok()).collect();
        let mut d: Vec<f64> = literals()
            .into_iter()
            .filter(|(b, n)| *n > base.get(b).copied().unwrap_or(0))
            .map(|(b, _)| f64::from_bits(b))
            .filter(|v| ![0.0, 1.0, 2.0].contains(v))
            .chain(more)
            .collect();
        d.sort_by(f64::total_cmp);
        d.truncate(40);
        d
    })
}

/// Every number written in the library's sources, with its count.
pub fn literals() -> std::collections::BTreeMap<u64, usize> {
    let mut m = std::collections::BTreeMap::new();
    let Ok(rd) = std::fs::read_dir("/repo/src") else {
        return m;
    };
    for f in rd.flatten() {
        let Ok(text) = std::fs::read_to_string(f.path()) else {
            continue;
        };
        for line in text.lines() {
            let b = line.split("//").next().unwrap_or("").as_bytes();
            let mut i = 0;
            while i < b.len() {
                let word = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' || (b[i - 1] == b'.' && !(i > 1 && b[i - 2] == b'.')));
                if !b[i].is_ascii_digit() || word {
                    i += 1;
                    continue;
                }
                let start = i;
                let digits = |i: &mut usize| {
                    while *i < b.len() && (b[*i].is_ascii_digit() || b[*i] == b'_') {
                        *i += 1;
                    }
                };
                digits(&mut i);
                if i + 1 < b.len() && b[i] == b'.' && b[i + 1].is_ascii_digit() {
                    i += 1;
                    digits(&mut i);
                }
                if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                    let mut j = i + 1;
                    if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
                        j += 1;
                    }
                    if j < b.len() && b[j].is_ascii_digit() {
                        i = j;
                        digits(&mut i);
                    }
                }
                let t: String = line[start..i].chars().filter(|c| *c != '_').collect();
                if let Ok(v) = t.parse::<f64>() {
                    *m.entry(v.to_bits()).or_insert(0) += 1;
                }
                // a type suffix or the rest of a malformed word
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
            }
        }
    }
    m
}

/// Values at and around the numbers of `dict` in [lo, hi], scaled by `unit`.
pub fn dict_near(lo: f64, hi: f64, unit: f64) -> Option<BoxedStrategy<f64>> {
    let v: Vec<f64> = dict().iter().map(|v| v * unit).filter(|v| *v >= lo && *v <= hi).collect();
    if v.is_empty() {
        return None;
    }
    let off = prop_oneof![
        1 => Just(0.0),
        1 => select(vec![f64::EPSILON, -f64::EPSILON, 2.0 * f64::EPSILON]),
        2 => (-0.02f64..0.02),
        2 => (-0.3f64..0.3),
        1 => logu(-12.0, -2.0),
        1 => logu(-12.0, -2.0).prop_map(|v| -v),
    ];
    Some((select(v), off).prop_map(move |(v, o)| (v * (1.0 + o)).clamp(lo, hi)).boxed())
}

/// `base`, with some values from `dict_near`.
pub fn mixed(base: BoxedStrategy<f64>, lo: f64, hi: f64) -> BoxedStrategy<f64> {
    match dict_near(lo, hi, 1.0) {
        None => base,
        Some(d) => prop_oneof![3 => base, 2 => d].boxed(),
    }
}

fn norm(mut w: [f64; 21]) -> X {
    let s: f64 = w.iter().sum();
    for v in w.iter_mut() {
        *v /= s;
    }
    X(w)
}

/// 10^u, u uniform in [a, b]
pub fn logu(a: f64, b: f64) -> impl Strategy<Value = f64> + Clone {
    (a..b).prop_map(|u| 10f64.powf(u))
}

/// Reference gases (AGA report no. 8 natural gases, air, and corner mixtures).
pub fn named_gases() -> Vec<X> {
    let mk = |v: &[(usize, f64)]| {
        let mut w = [0.0; 21];
        for &(i, f) in v {
            w[i] = f;
        }
        norm(w)
    };
    vec![
        X([
            0.77824, 0.02, 0.06, 0.08, 0.03, 0.0015, 0.003, 0.0005, 0.00165, 0.00215, 0.00088,
            0.00024, 0.00015, 0.00009, 0.004, 0.005, 0.002, 0.0001, 0.0025, 0.007, 0.001,
        ]),
        // Gulf Coast, Amarillo, Ekofisk, high N2, high CO2-N2
        mk(&[(0, 0.965222), (1, 0.002595), (2, 0.005956), (3, 0.018186), (4, 0.004596), (5, 0.000977), (6, 0.001007), (7, 0.000473), (8, 0.000324), (9, 0.000664)]),
        mk(&[(0, 0.906724), (1, 0.031284), (2, 0.004676), (3, 0.045279), (4, 0.00828), (5, 0.001037), (6, 0.001563), (7, 0.000321), (8, 0.000443), (9, 0.000393)]),
        mk(&[(0, 0.859063), (1, 0.010068), (2, 0.014954), (3, 0.084919), (4, 0.023015), (5, 0.003486), (6, 0.003506), (7, 0.000509), (8, 0.00048)]),
        mk(&[(0, 0.81441), (1, 0.13465), (2, 0.00985), (3, 0.033), (4, 0.00605), (5, 0.001), (6, 0.00104)]),
        mk(&[(0, 0.81212), (1, 0.05702), (2, 0.07585), (3, 0.04303), (4, 0.00895), (5, 0.00151), (6, 0.00152)]),
        // air
        mk(&[(1, 0.78), (15, 0.21), (20, 0.009), (2, 0.0004), (17, 0.0006)]),
        // town gas / hydrogen rich, sour gas, wet CO2
        mk(&[(14, 0.5), (0, 0.3), (16, 0.1), (1, 0.1)]),
        mk(&[(0, 0.6), (18, 0.3), (2, 0.1)]),
        mk(&[(2, 0.95), (17, 0.03), (1, 0.02)]),
    ]
}

fn weights_full() -> impl Strategy<Value = X> {
    proptest::collection::vec(0.001f64..1.0, 21).prop_map(|v| {
        let mut w = [0.0; 21];
        w.copy_from_slice(&v);
        norm(w)
    })
}
fn weights_skew() -> impl Strategy<Value = X> {
    proptest::collection::vec(logu(-6.0, 0.0), 21).prop_map(|v| {
        let mut w = [0.0; 21];
        w.copy_from_slice(&v);
        norm(w)
    })
}
pub fn gas_pure() -> impl Strategy<Value = X> {
    (0usize..21).prop_map(|i| {
        let mut w = [0.0; 21];
        w[i] = 1.0;
        X(w)
    })
}
pub fn gas_binary() -> impl Strategy<Value = X> {
    (
        0usize..21,
        1usize..21,
        prop_oneof![3 => 0.02f64..0.98, 1 => logu(-9.0, -1.0), 1 => Just(0.5)],
    )
        .prop_map(|(i, k, f)| {
            let j = (i + k) % 21;
            let mut w = [0.0; 21];
            w[i] = 1.0 - f;
            w[j] = f;
            X(w)
        })
}
fn gas_few() -> impl Strategy<Value = X> {
    (
        subsequence((0..21usize).collect::<Vec<_>>(), 3..=6),
        proptest::collection::vec(logu(-2.5, 0.0), 6),
    )
        .prop_map(|(idx, v)| {
            let mut w = [0.0; 21];
            for (k, i) in idx.iter().enumerate() {
                w[*i] = v[k];
            }
            norm(w)
        })
}
/// Largest fractions of the components of a pipeline-quality gas.
const MAX: [f64; 21] = [
    0.0, 0.20, 0.08, 0.10, 0.035, 0.007, 0.007, 0.0015, 0.0015, 0.001, 0.0004, 0.0002, 0.0001,
    0.0001, 0.05, 0.001, 0.02, 0.0001, 0.0001, 0.004, 0.0005,
];
pub fn pipeline_quality(x: &X) -> bool {
    x.0[0] >= 0.5 && (1..21).all(|i| x.0[i] >= 0.0 && x.0[i] <= MAX[i])
}
/// Natural-gas-like composition within the AGA8 "pipeline" (normal) range.
pub fn gas_pipeline() -> impl Strategy<Value = X> {
    (
        proptest::collection::vec(0.0f64..1.0, 21),
        proptest::collection::vec(any::<bool>(), 21),
        any::<bool>(),
    )
        .prop_map(|(u, on, all)| {
            let mut w = [0.0; 21];
            let mut s = 0.0;
            for i in 1..21 {
                if on[i] || all {
                    w[i] = MAX[i] * u[i] * u[i];
                    s += w[i];
                }
            }
            w[0] = 1.0 - s;
            X(w)
        })
}
/// Natural gas within wider limits, often at the rich end.
pub const RICH: [f64; 21] = [
    0.0, 0.30, 0.15, 0.12, 0.05, 0.01, 0.01, 0.003, 0.003, 0.0015, 0.0006, 0.0003, 0.0001,
    0.0001, 0.10, 0.002, 0.03, 0.0002, 0.005, 0.005, 0.002,
];
pub fn gas_rich() -> impl Strategy<Value = X> {
    (
        proptest::collection::vec(0.0f64..1.0, 21),
        proptest::collection::vec(any::<bool>(), 21),
        any::<bool>(),
        prop_oneof![Just(0.1), Just(0.5), Just(1.0), Just(2.0)],
    )
        .prop_map(|(u, on, all, e)| {
            let mut w = [0.0; 21];
            let mut s = 0.0;
            for i in 1..21 {
                if on[i] || all {
                    w[i] = RICH[i] * u[i].powf(e);
                    s += w[i];
                }
            }
            // at least half methane
            let k = if s > 0.5 { 0.5 / s } else { 1.0 };
            for i in 1..21 {
                w[i] *= k;
            }
            w[0] = 1.0 - w[1..].iter().sum::<f64>();
            X(w)
        })
}
/// Any subset of seven to twenty components.
fn gas_many() -> impl Strategy<Value = X> {
    (
        subsequence((0..21usize).collect::<Vec<_>>(), 7..=20),
        proptest::collection::vec(logu(-3.0, 0.0), 20),
    )
        .prop_map(|(idx, v)| {
            let mut w = [0.0; 21];
            for (k, i) in idx.iter().enumerate() {
                w[*i] = v[k];
            }
            norm(w)
        })
}
/// Equal and simple fractions.
fn gas_equal() -> impl Strategy<Value = X> {
    (
        subsequence((0..21usize).collect::<Vec<_>>(), 2..=21),
        proptest::collection::vec(select(vec![1.0, 1.0, 1.0, 2.0, 5.0, 10.0, 0.1]), 21),
        any::<bool>(),
    )
        .prop_map(|(idx, v, all)| {
            let mut w = [0.0; 21];
            for (k, i) in idx.iter().enumerate() {
                w[*i] = if all { 1.0 } else { v[k] };
            }
            norm(w)
        })
}
fn gas_trace() -> impl Strategy<Value = X> {
    (
        prop_oneof![gas_pure(), gas_binary(), gas_few(), gas_pipeline()],
        proptest::collection::vec((0usize..21, logu(-11.0, -2.5)), 1..5),
    )
        .prop_map(|(b, tr)| {
            let mut w = b.0;
            for (i, f) in tr {
                w[i] += f;
            }
            norm(w)
        })
}
/// Every kind of composition whose fractions sum to one.
pub fn gas() -> BoxedStrategy<X> {
    let base = prop_oneof![
        3 => gas_pure(),
        5 => gas_binary(),
        5 => gas_few(),
        2 => weights_full(),
        2 => weights_skew(),
        4 => gas_pipeline(),
        4 => gas_trace(),
        2 => gas_many(),
        1 => gas_equal(),
        1 => select(named_gases()),
    ]
    .boxed();
    match dict_near(1.1e-15, 1.0, 1.0) {
        None => base,
        Some(d) => prop_oneof![
            3 => base.clone(),
            // one fraction at or around a number of interest
            2 => (base, 0usize..21, d).prop_map(|(x, i, f)| {
                // (not 1 - x[i], which is inaccurate for traces)
                let rest: f64 = (0..21).filter(|j| *j != i).map(|j| x.0[j]).sum();
                let mut w = x.0;
                if rest > 0.0 {
                    for v in w.iter_mut() {
                        *v *= (1.0 - f) / rest;
                    }
                    w[i] = f;
                }
                // fractions up to 1e-15 may be left out of account
                X(w.map(|v| if v < 1.1e-15 { 0.0 } else { v }))
            }),
        ]
        .boxed(),
    }
}
/// As `gas`, sometimes with a sum that is off by up to 0.9 % (accepted by the composition check).
pub fn gas_accepted() -> impl Strategy<Value = X> {
    prop_oneof![
        9 => gas(),
        1 => (gas(), 0.991f64..1.009).prop_map(|(x, k)| X(x.0.map(|v| v * k))),
    ]
}

pub fn temperature() -> BoxedStrategy<f64> {
    let base = prop_oneof![
        3 => 250.0f64..350.0,
        3 => 143.0f64..677.0,
        2 => logu(1.9, 3.1),
        2 => select(vec![
            100.0, 150.0, 200.0, 223.15, 240.0, 250.0, 263.15, 270.0, 273.15, 275.0, 280.0, 283.15,
            288.15, 288.705_555_555_555_5, 290.0, 293.15, 295.0, 298.15, 300.0, 303.15, 310.0,
            313.15, 320.0, 323.15, 330.0, 338.15, 350.0, 373.15, 400.0, 450.0, 500.0, 600.0, 700.0,
        ]),
    ]
    .boxed();
    mixed(base, 60.0, 2e+03)
}
/// Density as a fraction of the pseudo-critical density.
pub fn reduced_density() -> BoxedStrategy<f64> {
    let base = prop_oneof![
        4 => 0.01f64..3.2,
        3 => logu(-7.0, 0.5),
        2 => 0.7f64..1.5,
    ]
    .boxed();
    mixed(base, 1e-07, 3.2)
}
pub fn pressure_kpa() -> BoxedStrategy<f64> {
    let base = prop_oneof![
        3 => 50.0f64..12_000.0,
        3 => 12_000.0f64..70_000.0,
        3 => logu(-3.0, 5.4),
        2 => select(vec![
            0.001, 0.01, 0.1, 1.0, 10.0, 50.0, 90.0, 100.0, 101.325, 101.56, 110.0, 200.0, 500.0,
            1000.0, 2000.0, 3500.0, 5000.0, 6000.0, 7000.0, 8000.0, 10_000.0, 12_000.0, 15_000.0,
            20_000.0, 25_000.0, 30_000.0, 35_000.0, 40_000.0, 50_000.0, 60_000.0, 70_000.0,
            100_000.0, 140_000.0,
        ]),
    ]
    .boxed();
    mixed(base, 0.001, 2e+06)
}
