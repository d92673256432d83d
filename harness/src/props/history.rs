//! C08, C15, C16, C19 (and the histories of C13): sequences of calls on instances.
use super::density::{flag, wild};
use super::thermo::model;
use crate::cinst::CInst;
use crate::gens::*;
use crate::inst::*;
use crate::reference::Model;
use crate::runner::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    SetX(X),
    /// the public field written directly (Rust interface only)
    PutX(X),
    /// set again one of the compositions used before
    AgainX(usize),
    /// move an amount from one fraction of the current composition to another
    Nudge { i: usize, j: usize, #[serde(with = "fser")] by: f64 },
    /// make the fraction zero (given to methane)
    Drop(usize),
    SetT(#[serde(with = "fser")] f64),
    AgainT(usize),
    NudgeT(#[serde(with = "fser")] f64),
    /// relative change of the density
    NudgeD(#[serde(with = "fser")] f64),
    /// exchange two fractions of the current composition
    Swap(usize, usize),
    SetP(#[serde(with = "fser")] f64),
    AgainP(usize),
    /// relative change of the pressure
    NudgeP(#[serde(with = "fser")] f64),
    SetD(#[serde(with = "fser")] f64),
    Density(i32),
    Pressure,
    Properties,
    MolarMass,
}

impl Op {
    pub fn calc(&self) -> bool {
        matches!(self, Op::Density(_) | Op::Pressure | Op::Properties | Op::MolarMass)
    }
}

fn setting() -> impl Strategy<Value = Op> {
    prop_oneof![
        3 => gas_accepted().prop_map(Op::SetX),
        1 => gas().prop_map(Op::PutX),
        2 => (0usize..8).prop_map(Op::AgainX),
        4 => (0usize..21, 0usize..21, logu(-14.0, -0.5)).prop_map(|(i, j, by)| Op::Nudge { i, j, by }),
        1 => (0usize..21).prop_map(Op::Drop),
        1 => (0usize..21, 0usize..21).prop_map(|(i, j)| Op::Swap(i, j)),
        1 => prop_oneof![logu(-15.0, -0.5), logu(-15.0, -0.5).prop_map(|v| -v)].prop_map(Op::NudgeD),
        3 => temperature().prop_map(Op::SetT),
        2 => (0usize..8).prop_map(Op::AgainT),
        3 => prop_oneof![logu(-15.0, -0.5), logu(-15.0, -0.5).prop_map(|v| -v)].prop_map(Op::NudgeT),
        3 => pressure_kpa().prop_map(Op::SetP),
        1 => (0usize..8).prop_map(Op::AgainP),
        2 => prop_oneof![logu(-15.0, -0.5), logu(-15.0, -0.5).prop_map(|v| -v)].prop_map(Op::NudgeP),
        3 => mixed(prop_oneof![3 => 0.0f64..40.0, 1 => logu(-9.0, 1.6), 1 => -40.0f64..0.0, 1 => select(vec![0.0, 1e-16, 1e-14])].boxed(), 1e-16, 60.0).prop_map(Op::SetD),
    ]
}
fn calculation() -> impl Strategy<Value = Op> {
    prop_oneof![
        3 => flag().prop_map(Op::Density),
        3 => Just(Op::Pressure),
        4 => Just(Op::Properties),
        1 => Just(Op::MolarMass),
    ]
}
fn upset() -> impl Strategy<Value = Op> {
    prop_oneof![
        2 => wild_x().prop_map(Op::SetX),
        2 => wild().prop_map(Op::SetT),
        2 => wild().prop_map(Op::SetP),
        2 => wild().prop_map(Op::SetD),
    ]
}
pub fn wild_x() -> impl Strategy<Value = X> {
    prop_oneof![
        // anything
        2 => proptest::collection::vec(wild(), 21).prop_map(|v| {
            let mut w = [0.0; 21];
            w.copy_from_slice(&v);
            X(w)
        }),
        // an ordinary gas with a few entries replaced, others compensating to keep the sum
        3 => (gas(), proptest::collection::vec((0usize..21, wild()), 1..4)).prop_map(|(x, v)| {
            let mut w = x.0;
            for (i, f) in v {
                w[i] = f;
            }
            X(w)
        }),
        3 => (gas(), 0usize..21, 0usize..21, prop_oneof![-2.0f64..2.0, logu(-18.0, 18.0)]).prop_map(|(x, i, j, f)| {
            let mut w = x.0;
            w[i] += f;
            w[j] -= f;
            X(w)
        }),
        1 => (gas(), 0.0f64..2.0).prop_map(|(x, k)| X(x.0.map(|v| v * k))),
        1 => Just(X([0.0; 21])),
    ]
}

fn ops(upsets: u32, len: usize) -> impl Strategy<Value = Vec<Op>> {
    let s = if upsets > 0 {
        prop_oneof![10 => setting().boxed(), 10 => calculation().boxed(), upsets => upset().boxed()].boxed()
    } else {
        prop_oneof![10 => setting().boxed(), 10 => calculation().boxed()].boxed()
    };
    proptest::collection::vec(s, 1..len)
}

/// Applies operations, remembering compositions and temperatures for the Again* operations.
#[derive(Clone, Default)]
pub struct Driver {
    xs: Vec<X>,
    ts: Vec<f64>,
    ps: Vec<f64>,
    p: f64,
}

/// What a setting amounts to.
pub enum Act {
    X(X),
    Put(X),
    T(f64),
    P(f64),
    D(f64),
    None,
}

pub fn any_op() -> impl Strategy<Value = Op> {
    prop_oneof![8 => setting().boxed(), 8 => calculation().boxed(), 2 => upset().boxed()]
}

impl Driver {
    pub fn act(&mut self, op: &Op, x: [f64; 21], t: f64, d: f64) -> Act {
        match op {
            Op::SetX(x) => {
                self.xs.push(*x);
                Act::X(*x)
            }
            Op::PutX(x) => Act::Put(*x),
            Op::AgainX(k) if !self.xs.is_empty() => Act::X(self.xs[k % self.xs.len()]),
            Op::Nudge { i, j, by } if i != j => {
                let mut w = x;
                let by = by.min(w[*i].max(0.0));
                w[*i] -= by;
                w[*j] += by;
                Act::X(X(w))
            }
            Op::Drop(i) if *i > 0 => {
                let mut w = x;
                w[0] += w[*i];
                w[*i] = 0.0;
                Act::X(X(w))
            }
            Op::SetT(t) => {
                self.ts.push(*t);
                Act::T(*t)
            }
            Op::AgainT(k) if !self.ts.is_empty() => Act::T(self.ts[k % self.ts.len()]),
            Op::NudgeT(r) => Act::T(t * (1.0 + r)),
            Op::NudgeD(r) => Act::D(d * (1.0 + r)),
            Op::Swap(i, j) => {
                let mut w = x;
                w.swap(*i, *j);
                Act::X(X(w))
            }
            Op::SetP(p) => {
                self.ps.push(*p);
                self.p = *p;
                Act::P(*p)
            }
            Op::AgainP(k) if !self.ps.is_empty() => {
                self.p = self.ps[k % self.ps.len()];
                Act::P(self.p)
            }
            Op::NudgeP(r) => {
                self.p *= 1.0 + r;
                Act::P(self.p)
            }
            Op::SetD(d) => Act::D(*d),
            _ => Act::None,
        }
    }
}

/// The observable result of one calculation.
#[derive(Clone, Debug)]
pub struct Res {
    pub what: &'static str,
    pub ret: Vec<(&'static str, f64)>,
    pub code: Option<DErr>,
}

pub fn calc(i: &mut Inst, op: &Op) -> Option<Res> {
    Some(match op {
        Op::Density(f) => {
            let r = i.density(*f);
            Res { what: "density", ret: vec![("d", i.d())], code: Some(r) }
        }
        Op::Pressure => {
            let p = i.pressure();
            Res { what: "pressure", ret: vec![("returned pressure", p), ("z", i.out().v[Z])], code: None }
        }
        Op::Properties => {
            let p = i.properties();
            let o = i.out();
            let mut v = vec![("pressure", p)];
            v.extend((MM..=KAPPA).map(|k| (ONAMES[k], o.v[k])));
            Res { what: "properties", ret: v, code: None }
        }
        Op::MolarMass => Res { what: "molar_mass", ret: vec![("mm", i.molar_mass())], code: None },
        _ => return None,
    })
}

pub fn compare(a: &Res, b: &Res, rel: f64) -> Result<(), String> {
    if a.code != b.code {
        return Err(format!("{}: {:?} versus {:?}", a.what, a.code, b.code));
    }
    for (u, v) in a.ret.iter().zip(&b.ret) {
        if !near(u.1, v.1, rel) {
            return Err(format!("{}: {} = {:e} versus {:e} (relative difference {:.2e})", a.what, u.0, u.1, v.1, crate::inst::rel(u.1, v.1)));
        }
    }
    Ok(())
}

fn apply(i: &mut Inst, a: Act) -> Option<CErr> {
    match a {
        Act::X(x) => return Some(i.set(&x)),
        Act::Put(x) => i.put(&x),
        Act::T(t) => i.set_t(t),
        Act::P(p) => i.set_p(p),
        Act::D(d) => i.set_d(d),
        Act::None => {}
    }
    None
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub m: Model,
    pub x: X,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub p: f64,
    pub ops: Vec<Op>,
}

fn fresh_like(i: &Inst) -> Result<Inst, String> {
    let x = i.x();
    let mut f = Inst::new(i.model());
    if x.iter().any(|v| *v != 0.0) {
        let r = f.set(&X(x));
        if r != CErr::Ok {
            return Err(format!("the instance holds the composition {:?}, which a new instance rejects ({r:?})", X(x)));
        }
    }
    f.set_t(i.t());
    f.set_p(i.p());
    f.set_d(i.d());
    Ok(f)
}

fn c08(c: &Hist, o: &mut Obs) -> Result<(), String> {
    let mut i = Inst::with(c.m, &c.x)?;
    i.set_t(c.t);
    i.set_p(c.p);
    i.set_d(5.0);
    let mut dr = Driver { xs: vec![c.x], ts: vec![c.t], ps: vec![c.p], p: c.p };
    let mut calcs = 0;
    let mut changed_since = false;
    for (n, op) in c.ops.iter().enumerate() {
        if op.calc() {
            if i.t() == 0.0 {
                continue; // zero temperature marks unfilled caches; not a state
            }
            let mut f = fresh_like(&i).map_err(|e| format!("step {n}: {e}"))?;
            let a = calc(&mut i, op).unwrap();
            let b = calc(&mut f, op).unwrap();
            compare(&a, &b, 1e-12).map_err(|e| format!("step {n} ({op:?}), this instance versus a new one with the same inputs: {e}"))?;
            calcs += 1;
            if calcs > 1 && changed_since {
                o.nontrivial();
                o.label(a.what);
                if a.code.is_some_and(|c| c != DErr::Ok) {
                    o.label("failed density");
                }
            }
            changed_since = false;
        } else {
            let act = dr.act(op, i.x(), i.t(), i.d());
            match (&act, op) {
                (Act::X(_), Op::Nudge { by, .. }) => o.label(if *by < 1e-7 { "composition nudge < 1e-7" } else { "composition nudge >= 1e-7" }),
                (Act::T(_), Op::NudgeT(r)) => o.label(if r.abs() < 1e-9 { "temperature nudge < 1e-9" } else { "temperature nudge >= 1e-9" }),
                (Act::X(_), _) => o.label("composition change"),
                (Act::Put(_), _) => o.label("composition written to the public field"),
                (Act::T(_), _) => o.label("temperature change"),
                _ => {}
            }
            if matches!(act, Act::X(_) | Act::Put(_) | Act::T(_)) {
                changed_since = true;
            }
            if let Some(CErr::Empty | CErr::BadSum) = apply(&mut i, act) {
                o.label("rejected composition");
            }
        }
    }
    Ok(())
}

pub fn history(upsets: u32) -> impl Strategy<Value = Hist> {
    (model(), gas(), temperature(), pressure_kpa(), ops(upsets, 40)).prop_map(|(m, x, t, p, ops)| Hist { m, x, t, p, ops })
}

/// Two states that differ in one respect, computed on one instance in the order A B A.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Aba {
    pub m: Model,
    pub x: X,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub rd: f64,
    pub change: Vec<Op>,
    pub first: Op,
    pub second: Op,
}

fn c08_aba(c: &Aba, o: &mut Obs) -> Result<(), String> {
    let d = c.rd * c.x.pseudo_critical().0;
    let mut i = Inst::with(c.m, &c.x)?;
    i.set_t(c.t);
    i.set_p(2000.0);
    i.set_d(d);
    let mut dr = Driver { xs: vec![c.x], ts: vec![c.t], ps: vec![2000.0], p: 2000.0 };
    for round in 0..2 {
        for op in [&c.first, &c.second] {
            let mut f = fresh_like(&i)?;
            let a = calc(&mut i, op).unwrap();
            let b = calc(&mut f, op).unwrap();
            compare(&a, &b, 1e-12).map_err(|e| format!("round {round}: this instance versus a new one with the same inputs: {e}"))?;
            for ch in &c.change {
                let act = dr.act(ch, i.x(), i.t(), i.d());
                apply(&mut i, act);
            }
        }
        // back to the first state
        i.set(&c.x);
        i.set_t(c.t);
        i.set_p(2000.0);
        i.set_d(d);
    }
    o.nontrivial();
    for ch in &c.change {
        o.label(match ch {
            Op::Nudge { .. } => "change: composition",
            Op::Drop(_) => "change: component removed",
            Op::NudgeT(_) => "change: temperature",
            Op::SetX(_) => "change: other composition",
            _ => "change: other",
        });
    }
    Ok(())
}

pub fn subs_c08() -> Vec<Box<dyn Sub>> {
    vec![
        check(
            "C08.history",
            "Case: history of up to 40 settings (new, repeated, nudged by 1e-14 to 0.3, invalid) and calculations on one instance; after each calculation a new instance with the same inputs is asked the same. Non-trivial: a calculation follows a change of composition or temperature after an earlier calculation.",
            90_000,
            800_000,
            || history(2),
            c08,
        ),
        check(
            "C08.aba",
            "Case: state A, one or two small changes to state B, two calculations; A B A B. Non-trivial: every case.",
            180_000,
            1_500_000,
            || {
                let change = prop_oneof![
                    4 => (0usize..21, 0usize..21, logu(-14.0, -0.5)).prop_map(|(i, j, by)| Op::Nudge { i, j, by }),
                    3 => prop_oneof![logu(-15.0, -0.5), logu(-15.0, -0.5).prop_map(|v| -v)].prop_map(Op::NudgeT),
                    1 => (1usize..21).prop_map(Op::Drop),
                    1 => (0usize..21, 0usize..21).prop_map(|(i, j)| Op::Swap(i, j)),
                    1 => logu(-15.0, -0.5).prop_map(Op::NudgeD),
                    1 => gas_accepted().prop_map(Op::SetX),
                    1 => pressure_kpa().prop_map(Op::SetP),
                    1 => (0.0f64..30.0).prop_map(Op::SetD),
                ];
                (model(), gas(), temperature(), reduced_density(), proptest::collection::vec(change, 1..3), calculation(), calculation())
                    .prop_map(|(m, x, t, rd, change, first, second)| Aba { m, x, t, rd, change, first, second })
            },
            c08_aba,
        ),
        super::long::c08(),
    ]
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Multi {
    pub insts: Vec<(Hist, bool)>,
    pub schedule: Vec<usize>,
    pub threads: bool,
}

/// An instance behind either interface, with its driver.
enum Any {
    R(Inst),
    C(CInst, [f64; 21], Model),
}

struct Runner {
    any: Any,
    dr: Driver,
    ops: Vec<Op>,
    next: usize,
    trace: Vec<(usize, Vec<u64>)>,
}

impl Runner {
    fn new(h: &Hist, c: bool) -> Runner {
        let any = if c {
            let k = CInst::new(h.m);
            k.set(&h.x, CErr::Ok);
            k.set_t(h.t);
            k.set_p(h.p);
            k.set_d(5.0);
            Any::C(k, h.x.0, h.m)
        } else {
            let mut i = Inst::new(h.m);
            i.set(&h.x);
            i.set_t(h.t);
            i.set_p(h.p);
            i.set_d(5.0);
            Any::R(i)
        };
        Runner { any, dr: Driver { xs: vec![h.x], ts: vec![h.t], ps: vec![h.p], p: h.p }, ops: h.ops.clone(), next: 0, trace: vec![] }
    }
    fn step(&mut self) -> bool {
        let Some(op) = self.ops.get(self.next).cloned() else {
            return false;
        };
        let n = self.next;
        self.next += 1;
        let bits = |v: Vec<f64>| v.iter().map(|f| if f.is_nan() { 1 } else { f.to_bits() }).collect::<Vec<_>>();
        match &mut self.any {
            Any::R(i) => {
                if let Some(r) = calc(i, &op) {
                    let mut v: Vec<f64> = r.ret.iter().map(|q| q.1).collect();
                    v.push(r.code.map_or(0.0, |c| c as i32 as f64));
                    v.extend(i.out().v);
                    self.trace.push((n, bits(v)));
                } else {
                    let a = self.dr.act(&op, i.x(), i.t(), i.d());
                    apply(i, a);
                }
            }
            Any::C(k, x, _) => {
                let mut v = vec![];
                match op {
                    Op::Density(_) => v.push(k.density(DErr::Ok) as i32 as f64),
                    Op::Pressure => v.push(k.pressure()),
                    Op::Properties => k.properties(),
                    Op::MolarMass => v.push(k.molar_mass()),
                    _ => {
                        match self.dr.act(&op, *x, k.t(), k.d()) {
                            Act::X(y) => {
                                if k.set(&y, CErr::Ok) == CErr::Ok {
                                    *x = y.0;
                                }
                            }
                            Act::T(t) => k.set_t(t),
                            Act::P(p) => k.set_p(p),
                            Act::D(d) => k.set_d(d),
                            Act::Put(_) | Act::None => {}
                        }
                        return true;
                    }
                }
                v.extend([k.t(), k.p(), k.d()]);
                v.extend(k.get());
                self.trace.push((n, bits(v)));
            }
        }
        true
    }
}

fn c15(c: &Multi, o: &mut Obs) -> Result<(), String> {
    // each alone, twice
    let solo = |h: &Hist, k: bool| {
        let mut r = Runner::new(h, k);
        while r.step() {}
        r.trace
    };
    let alone: Vec<_> = c.insts.iter().map(|(h, k)| solo(h, *k)).collect();
    for ((h, k), t) in c.insts.iter().zip(&alone) {
        if &solo(h, *k) != t {
            return Err("running the same history twice gives different results".into());
        }
    }
    let mut rs: Vec<Runner> = c.insts.iter().map(|(h, k)| Runner::new(h, *k)).collect();
    if c.threads {
        // first half on the threads of one group, second half on others, all at once
        for part in 0..2 {
            let b = std::sync::Barrier::new(rs.len());
            std::thread::scope(|s| {
                for r in rs.iter_mut() {
                    let b = &b;
                    s.spawn(move || {
                        b.wait();
                        let end = if part == 0 { r.ops.len() / 2 } else { r.ops.len() };
                        while r.next < end && r.step() {}
                    });
                }
            });
        }
        o.label("concurrent threads");
    } else {
        for k in &c.schedule {
            let n = rs.len();
            rs[k % n].step();
        }
        for r in rs.iter_mut() {
            while r.step() {}
        }
        o.label("interleaved on one thread");
    }
    for (n, r) in rs.iter().enumerate() {
        if r.trace != alone[n] {
            let k = r.trace.iter().zip(&alone[n]).find(|(a, b)| a != b).map(|(a, _)| a.0);
            return Err(format!(
                "instance {n} ({:?}{}) behaves differently together with the others than alone, first at its step {k:?}",
                c.insts[n].0.m,
                if c.insts[n].1 { ", C interface" } else { "" }
            ));
        }
    }
    if alone.iter().filter(|t| t.len() >= 2).count() >= 2 {
        o.nontrivial();
    }
    Ok(())
}

/// Repeated calculations on an unchanged state.
fn c15_repeat(c: &Hist, o: &mut Obs) -> Result<(), String> {
    let mut i = Inst::with(c.m, &c.x)?;
    i.set_t(c.t);
    i.set_p(c.p);
    let mut dr = Driver { xs: vec![c.x], ts: vec![c.t], ps: vec![c.p], p: c.p };
    for (n, op) in c.ops.iter().enumerate() {
        if !op.calc() {
            let a = dr.act(op, i.x(), i.t(), i.d());
            apply(&mut i, a);
            continue;
        }
        let (p, d) = (i.p(), i.d());
        let a = calc(&mut i, op).unwrap();
        i.set_p(p);
        i.set_d(d);
        let b = calc(&mut i, op).unwrap();
        if compare(&a, &b, 0.0).is_err() {
            return Err(format!("step {n}: {op:?} repeated on the same state: {}", compare(&a, &b, 0.0).unwrap_err()));
        }
        o.nontrivial();
    }
    Ok(())
}

fn short(upsets: u32) -> impl Strategy<Value = Hist> {
    (model(), gas(), temperature(), pressure_kpa(), ops(upsets, 24)).prop_map(|(m, x, t, p, ops)| Hist { m, x, t, p, ops })
}

pub fn subs_c15() -> Vec<Box<dyn Sub>> {
    vec![
        check(
            "C15.interleaved",
            "Case: 2-5 instances (both models, Rust or C interface), a history for each, a generated interleaving on one thread. Non-trivial: at least two instances make two calculations.",
            48_000,
            400_000,
            || {
                (proptest::collection::vec((short(1), any::<bool>()), 2..6), proptest::collection::vec(0usize..60, 10..80))
                    .prop_map(|(insts, schedule)| Multi { insts, schedule, threads: false })
            },
            c15,
        ),
        check(
            "C15.threads",
            "Case: 2-6 instances, a history for each, run at the same time on threads of their own, moved to other threads half way. Non-trivial: at least two instances make two calculations.",
            18_000,
            150_000,
            || {
                proptest::collection::vec((short(1), any::<bool>()), 2..7)
                    .prop_map(|insts| Multi { insts, schedule: vec![], threads: true })
            },
            c15,
        ),
        check(
            "C15.repeat",
            "Case: history on one instance; every calculation is made twice with the same inputs and must be bit-identical. Non-trivial: at least one calculation.",
            90_000,
            600_000,
            || history(1),
            c15_repeat,
        ),
        super::long::c15(),
    ]
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wild {
    pub m: Model,
    pub c: bool,
    pub ops: Vec<Op>,
    pub gas: X,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub p: f64,
}

fn c16(c: &Wild, o: &mut Obs) -> Result<(), String> {
    let h = Hist { m: c.m, x: X([0.0; 21]), t: 0.0, p: 0.0, ops: c.ops.clone() };
    let mut r = Runner::new(&h, c.c);
    if let Any::R(i) = &mut r.any {
        i.set_d(0.0);
    }
    while r.step() {}
    let calcs = c.ops.iter().filter(|o| o.calc()).count();
    o.label(if c.c { "C interface" } else { "Rust interface" });
    // normalising and checking take anything, too
    for op in &c.ops {
        if let Op::SetX(x) | Op::PutX(x) = op {
            let mut k = x.comp();
            let _ = k.sum();
            let _ = k.check();
            let _ = k.normalize();
        }
    }
    // recovery
    let mut f = Inst::with(c.m, &c.gas)?;
    f.set_t(c.t);
    f.set_p(c.p);
    f.set_d(0.0);
    let want = (f.density(0), { f.properties(); f.out().v });
    let (code, got) = match &mut r.any {
        Any::R(i) => {
            if i.set(&c.gas) != CErr::Ok {
                return Err("a valid composition is rejected after the history".into());
            }
            i.set_t(c.t);
            i.set_p(c.p);
            i.set_d(0.0);
            let code = i.density(0);
            i.properties();
            (code, i.out().v)
        }
        Any::C(k, _, _) => {
            if k.set(&c.gas, CErr::BadSum) != CErr::Ok {
                return Err("a valid composition is rejected after the history".into());
            }
            k.set_t(c.t);
            k.set_p(c.p);
            k.set_d(0.0);
            let code = k.density(DErr::IterationFail);
            k.properties();
            let q = k.get();
            let mut v = want.1;
            for (n, idx) in CIDX_.iter().enumerate() {
                v[*idx] = q[n];
            }
            (code, v)
        }
    };
    if code != want.0 {
        return Err(format!("after the history, an ordinary density calculation gives {code:?} instead of {:?}", want.0));
    }
    for k in 0..OUTN {
        if !near(got[k], want.1[k], 1e-12) {
            return Err(format!("after the history, {} = {:e} instead of {:e}", ONAMES[k], got[k], want.1[k]));
        }
    }
    if calcs > 0 {
        o.nontrivial();
    }
    Ok(())
}
use crate::cinst::CIDX as CIDX_;

/// One density or property calculation with arbitrary numbers, as cheaply as possible.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct One {
    pub m: Model,
    pub x: Option<X>,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub p: f64,
    #[serde(with = "fser")]
    pub d: f64,
    pub flag: i32,
    /// write the fraction field instead of setting the composition
    #[serde(default)]
    pub put: bool,
}

fn c16_one(c: &One, o: &mut Obs) -> Result<(), String> {
    let mut i = Inst::new(c.m);
    if let Some(x) = &c.x {
        if c.put {
            i.put(x);
        } else {
            let _ = i.set(x);
        }
    }
    i.set_t(c.t);
    i.set_p(c.p);
    i.set_d(c.d);
    let r = i.density(c.flag);
    i.properties();
    i.set_t(c.t);
    i.set_d(c.d);
    i.pressure();
    i.properties();
    i.molar_mass();
    o.label(&format!("{r:?}"));
    o.nontrivial();
    Ok(())
}

fn any_f64() -> impl Strategy<Value = f64> {
    prop_oneof![2 => wild(), 1 => any::<u64>().prop_map(f64::from_bits)]
}

pub fn subs_c16() -> Vec<Box<dyn Sub>> {
    vec![
        check(
            "C16.sequences",
            "Case: sequence of up to 30 calls with arbitrary doubles on a new instance (composition possibly never set), Rust or C interface, then a recovery with ordinary inputs. Non-trivial: at least one calculation in the sequence.",
            120_000,
            1_000_000,
            || {
                let op = prop_oneof![
                    3 => upset().boxed(),
                    1 => wild_x().prop_map(Op::PutX).boxed(),
                    1 => any_f64().prop_map(Op::SetT).boxed(),
                    1 => any_f64().prop_map(Op::SetP).boxed(),
                    1 => any_f64().prop_map(Op::SetD).boxed(),
                    2 => setting().boxed(),
                    5 => calculation().boxed(),
                    1 => any::<i32>().prop_map(Op::Density).boxed(),
                ];
                (model(), any::<bool>(), proptest::collection::vec(op, 1..30), gas_pipeline(), 260.0f64..400.0, 100.0f64..10_000.0)
                    .prop_map(|(m, c, ops, gas, t, p)| Wild { m, c, ops, gas, t, p })
            },
            c16,
        ),
        check(
            "C16.single",
            "Case: one set of arbitrary doubles (any bit pattern) and flag; density, properties, pressure and molar mass. Non-trivial: every case.",
            600_000,
            5_000_000,
            || {
                (
                    model(),
                    prop_oneof![1 => Just(None), 4 => gas().prop_map(Some), 3 => wild_x().prop_map(Some)],
                    prop_oneof![2 => any_f64().boxed(), 2 => temperature().boxed()],
                    prop_oneof![3 => any_f64().boxed(), 2 => pressure_kpa().boxed()],
                    any_f64(),
                    prop_oneof![3 => flag().boxed(), 1 => any::<i32>().boxed()],
                    proptest::bool::weighted(0.2),
                )
                    .prop_map(|(m, x, t, p, d, flag, put)| One { m, x, t, p, d, flag, put })
            },
            c16_one,
        ),
        super::long::c16(),
    ]
}

// ---------------------------------------------------------------- C19

fn keep(before: &Out, after: &Out, ks: &[usize], what: &str) -> Result<(), String> {
    for &k in ks {
        if !same(before.v[k], after.v[k]) {
            return Err(format!("{what} changed {} from {:e} to {:e}", ONAMES[k], before.v[k], after.v[k]));
        }
    }
    Ok(())
}

fn keep_x(before: &Out, after: &Out, what: &str) -> Result<(), String> {
    for k in 0..21 {
        if !same(before.x[k], after.x[k]) {
            return Err(format!("{what} changed the fraction of {} from {:e} to {:e}", NAMES[k], before.x[k], after.x[k]));
        }
    }
    Ok(())
}

const ALL_BUT_P: [usize; 17] = [T, D, MM, Z, DPDD, D2PDD2, D2PDTD, DPDT, U, H, S, CV, CP, W, G, JT, KAPPA];

fn c19(c: &Hist, o: &mut Obs) -> Result<(), String> {
    let mut i = Inst::with(c.m, &c.x)?;
    i.set_t(c.t);
    i.set_p(c.p);
    i.set_d(5.0);
    let mut dr = Driver { xs: vec![c.x], ts: vec![c.t], ps: vec![c.p], p: c.p };
    for (n, op) in c.ops.iter().enumerate() {
        let b = i.out();
        let at = |e: String| format!("step {n}: {e}");
        match op {
            Op::Density(_) => {
                let r = calc(&mut i, op).unwrap();
                let a = i.out();
                keep(&b, &a, &[T, P], "density()").map_err(at)?;
                keep_x(&b, &a, "density()").map_err(at)?;
                o.label(&format!("density {:?}", r.code.unwrap()));
            }
            Op::Pressure => {
                let p = i.pressure();
                let a = i.out();
                keep(&b, &a, &[T, P, D], "pressure()").map_err(at)?;
                keep_x(&b, &a, "pressure()").map_err(at)?;
                // the returned value belongs to the stored z
                let want = a.v[D] * c.m.r() * a.v[T] * a.v[Z];
                if !near(p, want, 1e-12) && want.is_finite() && p.is_finite() && want.abs() > 1e-290 && a.v[D].abs() > 1e-290 {
                    return Err(at(format!("pressure() returns {p:e}, but z D R T = {want:e}")));
                }
                o.label("pressure");
            }
            Op::Properties => {
                // the same state with another pressure setting
                let mut j = fresh_like(&i).map_err(at)?;
                j.set_p(b.v[P] * 0.37 + 11.0);
                let pj = j.properties();
                let p = i.properties();
                let a = i.out();
                keep(&b, &a, &[T, D], "properties()").map_err(at)?;
                if c.m == Model::Gerg {
                    keep(&b, &a, &[P], "properties()").map_err(at)?;
                }
                keep_x(&b, &a, "properties()").map_err(at)?;
                if b.v[T] != 0.0 {
                    let ao = j.out();
                    for k in ALL_BUT_P {
                        if !near(a.v[k], ao.v[k], 1e-12) {
                            return Err(at(format!("{} depends on the pressure setting or on earlier calls: {:e} versus {:e}", ONAMES[k], a.v[k], ao.v[k])));
                        }
                    }
                    if !near(p, pj, 1e-12) {
                        return Err(at(format!("the pressure found depends on the pressure setting: {p:e} versus {pj:e}")));
                    }
                }
                // stored and returned pressure is that of the pressure calculation
                let q = i.pressure();
                let scale = (a.v[D] * c.m.r() * a.v[T]).abs();
                if !near(p, q, 1e-11) && (p - q).abs() > 1e-11 * scale && !(scale < 1e-290) && !(a.v[D].abs() < 1e-290) {
                    return Err(at(format!("properties() gives pressure {p:e}, pressure() {q:e}")));
                }
                o.label("properties");
            }
            Op::MolarMass => {
                let r = i.molar_mass();
                let direct = match &mut i {
                    Inst::D(k) => k.molar_mass(),
                    Inst::G(_) => r,
                };
                let a = i.out();
                let ks: Vec<usize> = (0..=KAPPA).filter(|k| *k != MM).collect();
                keep(&b, &a, &ks, "molar_mass()").map_err(at)?;
                keep_x(&b, &a, "molar_mass()").map_err(at)?;
                if !same(direct, a.v[MM]) {
                    return Err(at(format!("molar_mass() returns {direct:e} and stores {:e}", a.v[MM])));
                }
                o.label("molar_mass");
            }
            _ => {
                let act = dr.act(op, b.x, b.v[T], b.v[D]);
                let asked = if let Act::X(x) = &act { Some(*x) } else { None };
                let r = apply(&mut i, act);
                if let (Some(x), Some(r)) = (asked, r) {
                    let a = i.out();
                    let ks: Vec<usize> = (0..=KAPPA).collect();
                    keep(&b, &a, &ks, "set_composition()").map_err(at)?;
                    let want = if r == CErr::Ok { x.0 } else { b.x };
                    for k in 0..21 {
                        if !same(a.x[k], want[k]) {
                            return Err(at(format!("after set_composition() = {r:?} the fraction of {} is {:e} instead of {:e}", NAMES[k], a.x[k], want[k])));
                        }
                    }
                    o.label(&format!("set_composition {r:?}"));
                }
                continue;
            }
        }
        o.nontrivial();
    }
    Ok(())
}

pub fn subs_c19() -> Vec<Box<dyn Sub>> {
    vec![check(
        "C19.fields",
        "Case: history of up to 40 settings and calculations; all public fields compared before and after every call. Non-trivial: at least one calculation.",
        180_000,
        1_500_000,
        || history(1),
        c19,
    )]
}
