//! The C interface, called through its exported symbols.
use crate::gens::X;
use crate::inst::*;
use crate::reference::Model;
use aga8::composition::CompositionError;
use aga8::ffi::{detail as fd, gerg2008 as fg};
use aga8::DensityError;

/// A handle of the C interface; freed on drop.
pub enum CInst {
    D(*mut aga8::detail::Detail),
    G(*mut aga8::gerg2008::Gerg2008),
}
unsafe impl Send for CInst {}

/// Properties of the C interface, in the order of its struct.
pub const CN: usize = 15;
pub const CNAMES: [&str; CN] = [
    "d", "mm", "z", "dp_dd", "d2p_dd2", "dp_dt", "u", "h", "s", "cv", "cp", "w", "g", "jt", "kappa",
];
/// The corresponding indices of `Out`.
pub const CIDX: [usize; CN] = [D, MM, Z, DPDD, D2PDD2, DPDT, U, H, S, CV, CP, W, G, JT, KAPPA];

macro_rules! each {
    ($s:expr, $d:ident, $g:ident $(, $a:expr)*) => {
        unsafe {
            match $s {
                CInst::D(p) => fd::$d(*p $(, $a)*),
                CInst::G(p) => fg::$g(*p $(, $a)*),
            }
        }
    };
}

impl CInst {
    pub fn new(m: Model) -> CInst {
        match m {
            Model::Detail => CInst::D(fd::aga8_new()),
            Model::Gerg => CInst::G(fg::gerg_new()),
        }
    }
    pub fn set(&self, x: &X, before: CErr) -> CErr {
        let c = x.comp();
        let mut e = match before {
            CErr::Ok => CompositionError::Ok,
            CErr::Empty => CompositionError::Empty,
            CErr::BadSum => CompositionError::BadSum,
        };
        each!(self, aga8_set_composition, gerg_set_composition, &c, &mut e);
        cerr(&e)
    }
    pub fn set_p(&self, v: f64) {
        each!(self, aga8_set_pressure, gerg_set_pressure, v)
    }
    pub fn set_t(&self, v: f64) {
        each!(self, aga8_set_temperature, gerg_set_temperature, v)
    }
    pub fn set_d(&self, v: f64) {
        each!(self, aga8_set_density, gerg_set_density, v)
    }
    pub fn p(&self) -> f64 {
        each!(self, aga8_get_pressure, gerg_get_pressure)
    }
    pub fn t(&self) -> f64 {
        each!(self, aga8_get_temperature, gerg_get_temperature)
    }
    pub fn d(&self) -> f64 {
        each!(self, aga8_get_density, gerg_get_density)
    }
    pub fn pressure(&self) -> f64 {
        each!(self, aga8_calculate_pressure, gerg_calculate_pressure)
    }
    pub fn molar_mass(&self) -> f64 {
        each!(self, aga8_calculate_molar_mass, gerg_calculate_molar_mass)
    }
    pub fn density(&self, before: DErr) -> DErr {
        let mut e = match before {
            DErr::Ok => DensityError::Ok,
            DErr::IterationFail => DensityError::IterationFail,
            DErr::PressureTooLow => DensityError::PressureTooLow,
        };
        each!(self, aga8_calculate_density, gerg_calculate_density, &mut e);
        derr(&e)
    }
    pub fn properties(&self) {
        each!(self, aga8_calculate_properties, gerg_calculate_properties)
    }
    pub fn get(&self) -> [f64; CN] {
        let q = each!(self, aga8_get_properties, gerg_get_properties);
        [
            q.d, q.mm, q.z, q.dp_dd, q.d2p_dd2, q.dp_dt, q.u, q.h, q.s, q.cv, q.cp, q.w, q.g, q.jt, q.kappa,
        ]
    }
}
impl Drop for CInst {
    fn drop(&mut self) {
        each!(self, aga8_free, gerg_free)
    }
}
