//! C20: handles own their memory.
use super::history::{calc, Act, Driver, Op};
use super::thermo::model;
use crate::cinst::CInst;
use crate::gens::*;
use crate::inst::*;
use crate::reference::Model;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Counts the live memory of each thread; fills new and freed blocks with a pattern, so that
/// a use of uninitialised or freed memory shows in the results.
pub struct Counting;
thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static FILL: Cell<bool> = const { Cell::new(false) };
}
fn count(n: i64, b: i64) {
    let _ = BLOCKS.try_with(|c| c.set(c.get() + n));
    let _ = BYTES.try_with(|c| c.set(c.get() + b));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            count(1, l.size() as i64);
            if FILL.try_with(|f| f.get()).unwrap_or(false) {
                std::ptr::write_bytes(p, 0x5A, l.size());
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-1, -(l.size() as i64));
        if FILL.try_with(|f| f.get()).unwrap_or(false) {
            std::ptr::write_bytes(p, 0xA5, l.size());
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn live() -> (i64, i64) {
    (BLOCKS.with(|c| c.get()), BYTES.with(|c| c.get()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    /// a new handle (C interface) or instance (Rust interface)
    New(Model, bool),
    /// many at once
    Burst(Model, bool, usize),
    /// an operation on one of the live ones
    Do(usize, Op),
    /// free one of the live ones
    Free(usize),
    /// free null
    FreeNull(Model),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Life {
    pub evs: Vec<Ev>,
    pub probe: X,
    #[serde(with = "fser")]
    pub t: f64,
    #[serde(with = "fser")]
    pub d: f64,
}

enum One {
    C(CInst, X, Driver),
    R(Inst, Driver),
}

fn address(o: &One) -> usize {
    match o {
        One::C(CInst::D(p), ..) => *p as usize,
        One::C(CInst::G(p), ..) => *p as usize,
        One::R(Inst::D(b), _) => &**b as *const _ as usize,
        One::R(Inst::G(b), _) => &**b as *const _ as usize,
    }
}
fn model_of(o: &One) -> Model {
    match o {
        One::C(CInst::D(_), ..) | One::R(Inst::D(_), _) => Model::Detail,
        _ => Model::Gerg,
    }
}
fn extent(o: &One) -> usize {
    match model_of(o) {
        Model::Detail => std::mem::size_of::<aga8::detail::Detail>(),
        Model::Gerg => std::mem::size_of::<aga8::gerg2008::Gerg2008>(),
    }
}

/// Pressure, molar mass and the properties of an ordinary state.
fn ask(o: &mut One, c: &Life) -> Result<Vec<f64>, String> {
    let v = match o {
        One::C(k, x, _) => {
            if k.set(&c.probe, CErr::Ok) != CErr::Ok {
                return Err("a valid composition is rejected".into());
            }
            *x = c.probe;
            k.set_t(c.t);
            k.set_d(c.d);
            let p = k.pressure();
            k.properties();
            let mut v = vec![p, k.molar_mass()];
            v.extend(k.get());
            v
        }
        One::R(i, _) => {
            if i.set(&c.probe) != CErr::Ok {
                return Err("a valid composition is rejected".into());
            }
            let p = i.pressure_at(c.t, c.d);
            i.properties();
            let o = i.out();
            let mut v = vec![p, i.molar_mass()];
            v.extend(crate::cinst::CIDX.iter().map(|k| o.v[*k]));
            v
        }
    };
    Ok(v)
}

/// Plays the history once. Everything is freed at the end. Returns the number of events that did something.
fn play(c: &Life, want: &[Vec<f64>; 2]) -> Result<usize, String> {
    let mut alive: Vec<One> = vec![];
    let mut done = 0;
    for (n, ev) in c.evs.iter().enumerate() {
        match ev {
            Ev::Burst(m, cif, k) => {
                for _ in 0..*k {
                    alive.push(if *cif { One::C(CInst::new(*m), X([0.0; 21]), Driver::default()) } else { One::R(Inst::new(*m), Driver::default()) });
                }
                let mut a: Vec<(usize, usize)> = alive.iter().map(|o| (address(o), extent(o))).collect();
                a.sort();
                if a.windows(2).any(|w| w[0].0 + w[0].1 > w[1].0) {
                    return Err(format!("event {n}: two live handles overlap"));
                }
                done += 1;
            }
            Ev::New(m, cif) => {
                let o = if *cif { One::C(CInst::new(*m), X([0.0; 21]), Driver::default()) } else { One::R(Inst::new(*m), Driver::default()) };
                let (a, e) = (address(&o), extent(&o));
                for q in &alive {
                    let (b, f) = (address(q), extent(q));
                    if a < b + f && b < a + e {
                        return Err(format!("event {n}: a new handle overlaps a live one"));
                    }
                }
                alive.push(o);
                done += 1;
            }
            Ev::Do(k, op) if !alive.is_empty() => {
                let l = alive.len();
                match &mut alive[k % l] {
                    One::C(h, x, dr) => match op {
                        Op::Density(_) => {
                            h.density(DErr::Ok);
                        }
                        Op::Pressure => {
                            h.pressure();
                        }
                        Op::Properties => {
                            h.properties();
                            h.get();
                        }
                        Op::MolarMass => {
                            h.molar_mass();
                        }
                        _ => match dr.act(op, x.0, h.t(), h.d()) {
                            Act::X(y) => {
                                if h.set(&y, CErr::Ok) == CErr::Ok {
                                    *x = y;
                                }
                            }
                            Act::T(t) => h.set_t(t),
                            Act::P(p) => h.set_p(p),
                            Act::D(d) => h.set_d(d),
                            Act::Put(_) | Act::None => {}
                        },
                    },
                    One::R(i, dr) => {
                        if calc(i, op).is_none() {
                            match dr.act(op, i.x(), i.t(), i.d()) {
                                Act::X(y) => {
                                    i.set(&y);
                                }
                                Act::T(t) => i.set_t(t),
                                Act::P(p) => i.set_p(p),
                                Act::D(d) => i.set_d(d),
                                Act::Put(_) | Act::None => {}
                            }
                        }
                    }
                }
                done += 1;
            }
            Ev::Free(k) if !alive.is_empty() => {
                let l = alive.len();
                drop(alive.swap_remove(k % l));
                // the others are unaffected
                for o in &mut alive {
                    let w = &want[model_of(o) as usize];
                    if ask(o, c)?.iter().zip(w).any(|(a, b)| !near(*a, *b, 1e-12)) {
                        return Err(format!("event {n}: after freeing another one, a handle computes something else"));
                    }
                }
                done += 1;
            }
            Ev::FreeNull(m) => unsafe {
                match m {
                    Model::Detail => aga8::ffi::detail::aga8_free(std::ptr::null_mut()),
                    Model::Gerg => aga8::ffi::gerg2008::gerg_free(std::ptr::null_mut()),
                }
            },
            _ => {}
        }
    }
    Ok(done)
}

fn c20(c: &Life, o: &mut Obs) -> Result<(), String> {
    let reference = |m: Model| {
        let mut q = One::R(Inst::new(m), Driver::default());
        ask(&mut q, c)
    };
    let mut want = [vec![], vec![]];
    want[Model::Detail as usize] = reference(Model::Detail)?;
    want[Model::Gerg as usize] = reference(Model::Gerg)?;
    FILL.with(|f| f.set(true));
    let guard = Unfill;
    // once for whatever is set up on first use, then memory must not grow any more
    play(c, &want)?;
    play(c, &want)?;
    let a = live();
    let done = play(c, &want)?;
    let b = live();
    play(c, &want)?;
    let e = live();
    drop(guard);
    if (e.0 > b.0 && b.0 > a.0) || (e.1 > b.1 && b.1 > a.1) {
        return Err(format!(
            "playing the history again leaves {} more blocks ({} bytes) allocated, once more {} blocks ({} bytes)",
            b.0 - a.0, b.1 - a.1, e.0 - b.0, e.1 - b.1
        ));
    }
    if done >= 2 {
        o.nontrivial();
    }
    let burst: usize = c.evs.iter().map(|e| if let Ev::Burst(_, _, k) = e { *k } else { 0 }).sum();
    if burst > 0 {
        o.label(if burst > 256 { "more than 256 alive" } else { "20 to 256 alive" });
    }
    o.label(&format!("instances created: {}", c.evs.iter().filter(|e| matches!(e, Ev::New(..))).count().min(9)));
    Ok(())
}

struct Unfill;
impl Drop for Unfill {
    fn drop(&mut self) {
        FILL.with(|f| f.set(false));
    }
}

pub fn subs_c20() -> Vec<Box<dyn Sub>> {
    vec![check(
        "C20.lifetimes",
        "Case: history of creating, using and freeing handles and instances of both models (several alive at once), freeing null in between; played repeatedly under a counting, poisoning allocator. Non-trivial: at least two effective events.",
        60_000,
        400_000,
        || {
            let ev = prop_oneof![
                3 => (model(), prop_oneof![3 => Just(true), 1 => Just(false)]).prop_map(|(m, c)| Ev::New(m, c)),
                6 => (0usize..6, super::history::any_op()).prop_map(|(k, op)| Ev::Do(k, op)),
                2 => (0usize..6).prop_map(Ev::Free),
                1 => model().prop_map(Ev::FreeNull),
            ];
            (
                (model(), any::<bool>()),
                proptest::collection::vec(ev, 1..24),
                gas(),
                200.0f64..500.0,
                0.1f64..12.0,
            )
                .prop_map(|((m, cif), mut evs, probe, t, d)| {
                    evs.insert(0, Ev::New(m, cif));
                    Life { evs, probe, t, d }
                })
        },
        c20,
    ),
    check(
        "C20.many",
        "Case: as C20.lifetimes, with 16 to 1100 handles or instances created at once and alive together. Non-trivial: at least two effective events.",
        320,
        4_000,
        || {
            let ev = prop_oneof![
                1 => (model(), any::<bool>()).prop_map(|(m, c)| Ev::New(m, c)),
                4 => (0usize..2000, super::history::any_op()).prop_map(|(k, op)| Ev::Do(k, op)),
                1 => (0usize..2000).prop_map(Ev::Free),
            ];
            (
                (model(), prop_oneof![3 => Just(true), 1 => Just(false)], logu(1.2, 3.04)),
                proptest::collection::vec(ev, 1..12),
                gas(),
                200.0f64..500.0,
                0.1f64..12.0,
            )
                .prop_map(|((m, cif, n), mut evs, probe, t, d)| {
                    evs.insert(0, Ev::Burst(m, cif, n as usize));
                    Life { evs, probe, t, d }
                })
        },
        c20,
    )]
}
