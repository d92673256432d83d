//! One interface over the two models under test.
use crate::gens::X;
use crate::reference::{Model, RefProps};
use aga8::composition::CompositionError;
use aga8::detail::Detail;
use aga8::gerg2008::Gerg2008;
use aga8::DensityError;

pub enum Inst {
    D(Box<Detail>),
    G(Box<Gerg2008>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CErr {
    Ok,
    Empty,
    BadSum,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DErr {
    Ok,
    IterationFail,
    PressureTooLow,
}
pub fn cerr(e: &CompositionError) -> CErr {
    match e {
        CompositionError::Ok => CErr::Ok,
        CompositionError::Empty => CErr::Empty,
        CompositionError::BadSum => CErr::BadSum,
    }
}
pub fn cres(r: Result<(), CompositionError>) -> CErr {
    match r {
        Ok(()) => CErr::Ok,
        Err(e) => cerr(&e),
    }
}
pub fn derr(e: &DensityError) -> DErr {
    match e {
        DensityError::Ok => DErr::Ok,
        DensityError::IterationFail => DErr::IterationFail,
        DensityError::PressureTooLow => DErr::PressureTooLow,
    }
}
pub fn dres(r: Result<(), DensityError>) -> DErr {
    match r {
        Ok(()) => DErr::Ok,
        Err(e) => derr(&e),
    }
}

pub const OUTN: usize = 19;
pub const ONAMES: [&str; OUTN] = [
    "t", "p", "d", "mm", "z", "dp_dd", "d2p_dd2", "d2p_dtd", "dp_dt", "u", "h", "s", "cv", "cp",
    "w", "g", "jt", "kappa", "sum_x",
];
pub const T: usize = 0;
pub const P: usize = 1;
pub const D: usize = 2;
pub const MM: usize = 3;
pub const Z: usize = 4;
pub const DPDD: usize = 5;
pub const D2PDD2: usize = 6;
pub const D2PDTD: usize = 7;
pub const DPDT: usize = 8;
pub const U: usize = 9;
pub const H: usize = 10;
pub const S: usize = 11;
pub const CV: usize = 12;
pub const CP: usize = 13;
pub const W: usize = 14;
pub const G: usize = 15;
pub const JT: usize = 16;
pub const KAPPA: usize = 17;

/// All public numbers of an instance (index with the constants above), and its composition.
#[derive(Clone, Copy, Debug)]
pub struct Out {
    pub v: [f64; OUTN],
    pub x: [f64; 21],
}

macro_rules! both {
    ($s:expr, $i:ident => $e:expr) => {
        match $s {
            Inst::D($i) => $e,
            Inst::G($i) => $e,
        }
    };
}

impl Inst {
    pub fn new(m: Model) -> Inst {
        match m {
            Model::Detail => Inst::D(Box::new(Detail::new())),
            Model::Gerg => Inst::G(Box::new(Gerg2008::new())),
        }
    }
    pub fn with(m: Model, x: &X) -> Result<Inst, String> {
        let mut i = Inst::new(m);
        match i.set(x) {
            CErr::Ok => Ok(i),
            e => Err(format!("set_composition({x:?}) = {e:?} for a valid composition")),
        }
    }
    pub fn model(&self) -> Model {
        match self {
            Inst::D(_) => Model::Detail,
            Inst::G(_) => Model::Gerg,
        }
    }
    pub fn set(&mut self, x: &X) -> CErr {
        let c = x.comp();
        cres(both!(self, i => i.set_composition(&c)))
    }
    /// Writes the public fraction field, without any check.
    pub fn put(&mut self, x: &X) {
        match self {
            Inst::D(i) => i.x[0..21].copy_from_slice(&x.0),
            Inst::G(i) => i.x[1..22].copy_from_slice(&x.0),
        }
    }
    pub fn set_t(&mut self, t: f64) {
        both!(self, i => i.t = t)
    }
    pub fn set_p(&mut self, p: f64) {
        both!(self, i => i.p = p)
    }
    pub fn set_d(&mut self, d: f64) {
        both!(self, i => i.d = d)
    }
    pub fn t(&self) -> f64 {
        both!(self, i => i.t)
    }
    pub fn p(&self) -> f64 {
        both!(self, i => i.p)
    }
    pub fn d(&self) -> f64 {
        both!(self, i => i.d)
    }
    pub fn mm(&self) -> f64 {
        both!(self, i => i.mm)
    }
    pub fn x(&self) -> [f64; 21] {
        let mut y = [0.0; 21];
        match self {
            Inst::D(i) => y.copy_from_slice(&i.x[0..21]),
            Inst::G(i) => y.copy_from_slice(&i.x[1..22]),
        }
        y
    }
    /// iflag is ignored by DETAIL
    pub fn density(&mut self, iflag: i32) -> DErr {
        match self {
            Inst::D(i) => dres(i.density()),
            Inst::G(i) => dres(i.density(iflag)),
        }
    }
    pub fn pressure(&mut self) -> f64 {
        both!(self, i => i.pressure())
    }
    pub fn molar_mass(&mut self) -> f64 {
        both!(self, i => {
            i.molar_mass();
            i.mm
        })
    }
    /// Runs properties; returns the pressure it determined (DETAIL stores it, GERG returns it).
    pub fn properties(&mut self) -> f64 {
        match self {
            Inst::D(i) => {
                i.properties();
                i.p
            }
            Inst::G(i) => i.properties(),
        }
    }
    /// Sets t and d, runs properties, and gives the outputs with p filled in for both models.
    pub fn props_at(&mut self, t: f64, d: f64) -> Out {
        self.set_t(t);
        self.set_d(d);
        let p = self.properties();
        let mut o = self.out();
        o.v[P] = p;
        o
    }
    pub fn pressure_at(&mut self, t: f64, d: f64) -> f64 {
        self.set_t(t);
        self.set_d(d);
        self.pressure()
    }
    pub fn out(&self) -> Out {
        let x = self.x();
        let v = both!(self, i => [
            i.t, i.p, i.d, i.mm, i.z, i.dp_dd, i.d2p_dd2, i.d2p_dtd, i.dp_dt, i.u, i.h, i.s, i.cv, i.cp,
            i.w, i.g, i.jt, i.kappa, 0.0
        ]);
        let mut v = v;
        v[OUTN - 1] = x.iter().sum();
        Out { v, x }
    }
}

/// Bitwise identical, or both NaN.
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
/// Identical, or equal to within `rel` (guards against mere differences of rounding).
pub fn near(a: f64, b: f64, rel: f64) -> bool {
    same(a, b) || a == b || (a - b).abs() <= rel * a.abs().max(b.abs())
}

pub fn rel(a: f64, b: f64) -> f64 {
    if a == b {
        0.0
    } else {
        (a - b).abs() / a.abs().max(b.abs())
    }
}

/// Largest acceptable difference from the reference, in units of the reference's error bound.
pub const K: f64 = 24.0;

/// Compares every output with the reference. Returns the largest error/bound ratio, and
/// the number of quantities that could be judged.
pub fn against_reference(
    o: &Out,
    r: &RefProps,
    detail: bool,
    mut note: impl FnMut(&'static str, f64),
) -> Result<usize, String> {
    let mut judged = 0;
    let rows = [
        (MM, r.mm), (P, r.p), (Z, r.z), (DPDD, r.dp_dd), (D2PDD2, r.d2p_dd2), (D2PDTD, r.d2p_dtd),
        (DPDT, r.dp_dt), (U, r.u), (H, r.h), (S, r.s), (CV, r.cv), (CP, r.cp), (W, r.w2), (G, r.g),
        (JT, r.jt), (KAPPA, r.kappa),
    ];
    for (k, q) in rows {
        if k == D2PDTD && detail {
            if o.v[k] != 0.0 {
                return Err(format!("d2p_dtd = {:e}, documented as not calculated (0)", o.v[k]));
            }
            continue;
        }
        if !q.v.is_finite() || !q.e.is_finite() {
            continue;
        }
        let (mut got, want, mut bound) = (o.v[k], q.v, K * q.e);
        if k == W || k == KAPPA {
            let w2 = r.w2;
            if w2.v.abs() <= 2.0 * K * w2.e || !w2.v.is_finite() {
                continue; // sign of w^2 not determined
            }
            if w2.v < 0.0 {
                // speed of sound is reported as zero where it does not exist
                if got != 0.0 {
                    return Err(format!("{} = {:e} where w^2 < 0 (reference)", ONAMES[k], got));
                }
                judged += 1;
                continue;
            }
        }
        if k == W {
            bound = bound / (2.0 * want.sqrt());
            got -= want.sqrt();
        } else {
            got -= want;
        }
        let scale = if k == W { want.sqrt() } else { want.abs() };
        // only where the reference itself pins the value down
        if bound > 1e-3 * scale && bound > 1e-3 {
            continue;
        }
        judged += 1;
        let ratio = got.abs() / (bound / K);
        if !(got.abs() <= bound) {
            return Err(format!(
                "{} = {:e}, reference {:e} (difference {:e}, allowed {:e})",
                ONAMES[k], o.v[k], if k == W { want.sqrt() } else { want }, got, bound
            ));
        }
        note(ONAMES[k], ratio);
    }
    Ok(judged)
}
