//! Long use: the same few calculations over and over on one instance (C08, C13, C15, C16).
use super::density::flag;
use super::history::{calc, compare, wild_x, Op, Res};
use super::thermo::model;
use crate::cinst::*;
use crate::gens::*;
use crate::inst::*;
use crate::reference::Model;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct St {
    pub x: X,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub p: f64,
    #[serde(with = "fser")]
    pub d: f64,
    /// calculations made in this state
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    pub m: Model,
    pub cif: bool,
    /// visited in turn; the composition is set when it differs, or always
    pub states: Vec<St>,
    pub always: bool,
    /// something invalid in between
    pub upset: Option<Op>,
    pub rounds: u32,
}

enum K {
    R(Inst),
    C(CInst),
}
impl K {
    fn new(m: Model, cif: bool) -> K {
        if cif {
            K::C(CInst::new(m))
        } else {
            K::R(Inst::new(m))
        }
    }
    fn set(&mut self, x: &X) -> CErr {
        match self {
            K::R(i) => i.set(x),
            K::C(k) => k.set(x, CErr::BadSum),
        }
    }
    fn set_t(&mut self, v: f64) {
        match self {
            K::R(i) => i.set_t(v),
            K::C(k) => k.set_t(v),
        }
    }
    fn set_p(&mut self, v: f64) {
        match self {
            K::R(i) => i.set_p(v),
            K::C(k) => k.set_p(v),
        }
    }
    fn set_d(&mut self, v: f64) {
        match self {
            K::R(i) => i.set_d(v),
            K::C(k) => k.set_d(v),
        }
    }
    fn put(&mut self, s: &St) {
        self.set_t(s.t);
        self.set_p(s.p);
        self.set_d(s.d);
    }
    fn calc(&mut self, op: &Op) -> Option<Res> {
        Some(match self {
            K::R(i) => return calc(i, op),
            K::C(k) => match op {
                Op::Density(_) => {
                    let r = k.density(DErr::IterationFail);
                    Res { what: "density", ret: vec![("d", k.d())], code: Some(r) }
                }
                Op::Pressure => Res { what: "pressure", ret: vec![("returned pressure", k.pressure()), ("z", k.get()[2])], code: None },
                Op::MolarMass => Res { what: "molar_mass", ret: vec![("mm", k.molar_mass())], code: None },
                Op::Properties => {
                    k.properties();
                    let q = k.get();
                    Res { what: "properties", ret: (0..CN).map(|n| (CNAMES[n], q[n])).collect(), code: None }
                }
                _ => return None,
            },
        })
    }
    /// The same calculation by the Rust interface, with the values which the C interface gives.
    fn as_c(&mut self, op: &Op) -> Option<Res> {
        let K::R(i) = self else { return None };
        let op = if let Op::Density(_) = op { Op::Density(0) } else { op.clone() };
        let r = calc(i, &op)?;
        Some(if let Op::Properties = op {
            let v = i.out().v;
            Res { what: "properties", ret: (0..CN).map(|n| (CNAMES[n], v[CIDX[n]])).collect(), code: None }
        } else {
            r
        })
    }
}

fn long(c: &Long, o: &mut Obs, own: bool) -> Result<(), String> {
    // what a new instance gives (or this one, the first time)
    let mut want: Vec<Vec<Res>> = vec![];
    let mut k = K::new(c.m, c.cif);
    let fill = |k: &mut K, s: &St| match k.set(&s.x) {
        CErr::Ok => Ok(()),
        e => Err(format!("set_composition({:?}) = {e:?} for a valid composition", s.x)),
    };
    for s in &c.states {
        let mut w = vec![];
        let mut f = K::new(c.m, false);
        let f = if own { &mut k } else { &mut f };
        fill(f, s)?;
        f.put(s);
        for op in &s.ops {
            w.push(if c.cif && !own { f.as_c(op) } else { f.calc(op) }.unwrap());
        }
        want.push(w);
    }
    let rel = if own { 0.0 } else { 1e-12 };
    let mut calls = 0u64;
    let mut last: Option<usize> = None;
    for r in 0..c.rounds {
        let n = r as usize % c.states.len();
        let s = &c.states[n];
        match &c.upset {
            Some(Op::SetX(x)) => {
                if k.set(x) == CErr::Ok {
                    last = None;
                }
            }
            Some(Op::Density(f)) => {
                k.set_p(0.0);
                k.calc(&Op::Density(*f));
            }
            Some(Op::SetT(t)) => {
                k.set_t(*t);
                k.calc(&Op::Properties);
            }
            _ => {}
        }
        if c.always || last != Some(n) {
            fill(&mut k, s).map_err(|e| format!("round {r}: {e}"))?;
            last = Some(n);
        }
        k.put(s);
        for (op, w) in s.ops.iter().zip(&want[n]) {
            calls += 1;
            let a = k.calc(op).unwrap();
            compare(&a, w, rel).map_err(|e| {
                let whose = if own { "the same call the first time" } else { "a new instance" };
                format!("round {r}, calculation {calls} of this instance, versus {whose}: {e}")
            })?;
        }
    }
    o.label(match calls {
        0..=99 => "calculations: up to 99",
        100..=299 => "calculations: 100 to 299",
        300..=1999 => "calculations: 300 to 1999",
        2000..=65_999 => "calculations: 2000 to 65999",
        _ => "calculations: 66000 or more",
    });
    if c.upset.is_some() {
        o.label("with failures in between");
    }
    if calls > 40 {
        o.nontrivial();
    }
    Ok(())
}

fn strat(cif: Option<bool>) -> impl Strategy<Value = Long> {
    let op = prop_oneof![3 => flag().prop_map(Op::Density), 3 => Just(Op::Pressure), 3 => Just(Op::Properties), 1 => Just(Op::MolarMass)];
    let st = (
        gas_accepted(),
        temperature(),
        pressure_kpa(),
        prop_oneof![3 => 0.01f64..20.0, 1 => -20.0f64..0.0, 1 => Just(0.0)],
        proptest::collection::vec(op, 1..3),
    )
        .prop_map(|(x, t, p, d, ops)| St { x, t, p, d, ops });
    let upset = prop_oneof![
        5 => Just(None),
        2 => wild_x().prop_map(|x| Some(Op::SetX(x))),
        1 => flag().prop_map(|f| Some(Op::Density(f))),
        1 => Just(Some(Op::SetT(f64::NAN))),
    ];
    let rounds = prop_oneof![6 => logu(1.3, 2.5), 3 => logu(2.4, 3.4)].prop_map(|v| v as u32);
    let ordinary = (proptest::collection::vec(st, 1..4), any::<bool>(), upset, rounds);
    // one cheap calculation, more often than a 16-bit counter can count
    let cheap = (
        gas_binary(),
        200.0f64..500.0,
        0.01f64..10.0,
        prop_oneof![4 => Just(Op::Pressure), 1 => Just(Op::MolarMass)],
        any::<bool>(),
        65_600u32..70_000,
    )
        .prop_map(|(x, t, d, op, always, n)| (vec![St { x, t, p: 1000.0, d, ops: vec![op] }], always, None, n));
    let iface = match cif {
        Some(c) => Just(c).boxed(),
        None => any::<bool>().boxed(),
    };
    (model(), iface, prop_oneof![60 => ordinary, 1 => cheap])
        .prop_map(|(m, cif, (states, always, upset, rounds))| Long { m, cif, states, always, upset, rounds })
}

const RULE: &str = "Case: one to three states visited in turn, up to 2500 times (one case in 60: up to 70000 times), with a calculation or two each, invalid settings or failures in between; every result compared with";

pub fn c08() -> Box<dyn Sub> {
    check("C08.long", Box::leak(format!("{RULE} that of a new instance. Non-trivial: more than 40 calculations.").into_boxed_str()), 16_000, 150_000, || strat(Some(false)), |c, o| long(c, o, false))
}
pub fn c13() -> Box<dyn Sub> {
    check("C13.long", Box::leak(format!("{RULE} that of a new Rust instance; through the C interface. Non-trivial: more than 40 calculations.").into_boxed_str()), 8_000, 80_000, || strat(Some(true)), |c, o| long(c, o, false))
}
pub fn c15() -> Box<dyn Sub> {
    check("C15.long", Box::leak(format!("{RULE} the first one of the same instance, bit by bit. Non-trivial: more than 40 calculations.").into_boxed_str()), 8_000, 80_000, || strat(None), |c, o| long(c, o, true))
}
pub fn c16() -> Box<dyn Sub> {
    check("C16.long", Box::leak(format!("{RULE} that of a new Rust instance; Rust or C interface. Non-trivial: more than 40 calculations.").into_boxed_str()), 8_000, 80_000, || strat(None), |c, o| long(c, o, false))
}
