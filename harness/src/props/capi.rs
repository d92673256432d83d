//! C13, C14: the C interface, in-process, in processes of its own, and from compiled C and C++.
use super::density::wild;
use super::history::{history, Act, Driver, Hist, Op};
use super::thermo::model;
use crate::cinst::*;
use crate::gens::*;
use crate::inst::*;
use crate::reference::Model;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

// ---------------------------------------------------------------- C13

/// History on a C handle and a Rust instance side by side.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Side {
    pub h: Hist,
    /// error output before each call, cycled
    pub before: Vec<u8>,
    /// skip the initial settings: start from a new handle
    pub bare: bool,
}

fn agree(k: &CInst, i: &Inst, step: &str) -> Result<(), String> {
    for (n, a, b) in [("pressure", k.p(), i.p()), ("temperature", k.t(), i.t()), ("density", k.d(), i.d())] {
        if !same(a, b) {
            return Err(format!("{step}: get_{n} gives {a:e}, Rust {b:e}"));
        }
    }
    let (g, v) = (k.get(), i.out().v);
    for q in 0..CN {
        if !same(g[q], v[CIDX[q]]) {
            return Err(format!("{step}: get_properties().{} = {:e}, Rust {:e}", CNAMES[q], g[q], v[CIDX[q]]));
        }
    }
    Ok(())
}

fn cbefore(b: u8) -> CErr {
    [CErr::Ok, CErr::Empty, CErr::BadSum][b as usize % 3]
}
fn dbefore(b: u8) -> DErr {
    [DErr::Ok, DErr::IterationFail, DErr::PressureTooLow][b as usize % 3]
}

fn c13(c: &Side, o: &mut Obs) -> Result<(), String> {
    let k = CInst::new(c.h.m);
    let mut i = Inst::new(c.h.m);
    agree(&k, &i, "new handle")?;
    let mut dr = Driver::default();
    let mut ops = vec![];
    if !c.bare {
        ops = vec![Op::SetX(c.h.x), Op::SetT(c.h.t), Op::SetP(c.h.p)];
    }
    ops.extend(c.h.ops.iter().cloned());
    let mut calcs = 0;
    for (n, op) in ops.iter().enumerate() {
        let at = format!("step {n} {op:?}");
        let b = c.before[n % c.before.len()];
        match op {
            Op::Density(_) => {
                let (a, e) = (k.density(dbefore(b)), i.density(0));
                if a != e {
                    return Err(format!("{at}: error output {a:?} (before the call {:?}), Rust {e:?}", dbefore(b)));
                }
                o.label(&format!("density {e:?}"));
                calcs += 1;
            }
            Op::Pressure => {
                let (a, e) = (k.pressure(), i.pressure());
                if !same(a, e) {
                    return Err(format!("{at}: {a:e}, Rust {e:e}"));
                }
                calcs += 1;
            }
            Op::MolarMass => {
                let (a, e) = (k.molar_mass(), i.molar_mass());
                if !same(a, e) {
                    return Err(format!("{at}: {a:e}, Rust {e:e}"));
                }
                calcs += 1;
            }
            Op::Properties => {
                k.properties();
                i.properties();
                calcs += 1;
            }
            _ => match dr.act(op, i.x(), i.t(), i.d()) {
                Act::X(x) => {
                    let (a, e) = (k.set(&x, cbefore(b)), i.set(&x));
                    if a != e {
                        return Err(format!("{at}: error output {a:?} (before the call {:?}), Rust {e:?}", cbefore(b)));
                    }
                    o.label(&format!("set_composition {e:?}"));
                }
                Act::T(t) => {
                    k.set_t(t);
                    i.set_t(t);
                }
                Act::P(p) => {
                    k.set_p(p);
                    i.set_p(p);
                }
                Act::D(d) => {
                    k.set_d(d);
                    i.set_d(d);
                }
                Act::Put(_) | Act::None => {}
            },
        }
        agree(&k, &i, &at)?;
    }
    if calcs > 0 {
        o.nontrivial();
    }
    o.label(if c.bare { "from a new handle" } else { "from a set-up handle" });
    Ok(())
}

pub const CALLS: [&str; 13] = [
    "free", "set_composition", "set_pressure", "get_pressure", "set_temperature", "get_temperature", "set_density", "get_density",
    "get_properties", "calculate_pressure", "calculate_molar_mass", "calculate_density", "calculate_properties",
];

/// A call with a null handle, in a process of its own, into the shipped shared library.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Null {
    pub m: Model,
    pub call: usize,
    pub x: X,
    #[serde(with = "fser")]
    pub v: f64,
    /// a valid handle is created and used before
    pub after_use: bool,
    /// how often null is freed
    pub times: u8,
}

fn shipped() -> PathBuf {
    crate::root().join("harness/target/shipped")
}

pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("AGAPBT_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string()))
}

fn c13_null(c: &Null, o: &mut Obs) -> Result<(), String> {
    let name = CALLS[c.call % CALLS.len()];
    let text = serde_json::to_string(c).unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .arg("probe")
        .current_dir(scratch())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("cannot start the probe: {e}"))?;
    ch.stdin.take().unwrap().write_all(text.as_bytes()).map_err(|e| format!("probe: {e}"))?;
    let out = ch.wait_with_output().map_err(|e| format!("probe: {e}"))?;
    use std::os::unix::process::ExitStatusExt;
    let st = out.status;
    let said = String::from_utf8_lossy(&out.stdout).to_string();
    if !said.contains("ready") {
        panic!("the probe did not reach the call: {st} {said}");
    }
    o.nontrivial();
    if name == "free" {
        o.label("free(null)");
        if st.code() != Some(0) || !said.contains("survived") {
            return Err(format!("{:?} free(null) ends the process: {st}", c.m));
        }
    } else {
        o.label("other calls");
        if st.signal() != Some(6) {
            return Err(format!("{:?} {name} with a null handle does not end in an abort: {st} {said}", c.m));
        }
    }
    Ok(())
}

extern "C" {
    fn dlopen(f: *const std::ffi::c_char, flags: i32) -> *mut std::ffi::c_void;
    fn dlsym(h: *mut std::ffi::c_void, s: *const std::ffi::c_char) -> *mut std::ffi::c_void;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}

/// The child process of `c13_null`.
pub fn probe() -> i32 {
    use aga8::composition::{Composition, CompositionError};
    use aga8::ffi::Properties;
    use aga8::DensityError;
    use std::ffi::{c_void, CString};
    type H = *mut c_void;
    let mut s = String::new();
    let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut s);
    let c: Null = match serde_json::from_str(&s) {
        Ok(c) => c,
        Err(_) => return 3,
    };
    unsafe {
        setrlimit(4, &[0, 0]); // no core files
        let lib = CString::new(shipped().join("libaga8.so").display().to_string()).unwrap();
        let h = dlopen(lib.as_ptr(), 2);
        if h.is_null() {
            return 4;
        }
        let pre = if c.m == Model::Detail { "aga8_" } else { "gerg_" };
        let sym = |n: &str| {
            let p = dlsym(h, CString::new(format!("{pre}{n}")).unwrap().as_ptr());
            if p.is_null() {
                std::process::exit(5);
            }
            p
        };
        macro_rules! f {
            ($n:expr, $t:ty) => {
                std::mem::transmute::<H, $t>(sym($n))
            };
        }
        let new = f!("new", extern "C" fn() -> H);
        let free = f!("free", extern "C" fn(H));
        let comp = c.x.comp();
        let mut ce = CompositionError::Ok;
        let mut de = DensityError::Ok;
        let run = |h: H| {
            let mut e = CompositionError::BadSum;
            f!("set_composition", extern "C" fn(H, &Composition, &mut CompositionError))(h, &comp, &mut e);
            f!("set_temperature", extern "C" fn(H, f64))(h, 300.0);
            f!("set_density", extern "C" fn(H, f64))(h, 1.5);
            f!("calculate_pressure", extern "C" fn(H) -> f64)(h)
        };
        if c.after_use {
            let k = new();
            run(k);
            free(k);
        }
        println!("ready");
        let n: H = std::ptr::null_mut();
        match CALLS[c.call % CALLS.len()] {
            "free" => {
                let k = new();
                let before = run(k);
                for _ in 0..=c.times {
                    free(n);
                }
                // everything still works
                let again = run(k);
                free(k);
                free(n);
                if before.to_bits() != again.to_bits() && !before.is_nan() {
                    return 6;
                }
                println!("survived");
                return 0;
            }
            "set_composition" => f!("set_composition", extern "C" fn(H, &Composition, &mut CompositionError))(n, &comp, &mut ce),
            "calculate_density" => f!("calculate_density", extern "C" fn(H, &mut DensityError))(n, &mut de),
            "calculate_properties" => f!("calculate_properties", extern "C" fn(H))(n),
            "get_properties" => {
                let q = f!("get_properties", extern "C" fn(H) -> Properties)(n);
                println!("{}", q.d);
            }
            s if s.starts_with("set_") => f!(s, extern "C" fn(H, f64))(n, c.v),
            s => println!("{}", f!(s, extern "C" fn(H) -> f64)(n)),
        }
        println!("returned");
    }
    0
}

pub fn subs_c13() -> Vec<Box<dyn Sub>> {
    vec![
        check(
            "C13.history",
            "Case: history of up to 40 valid and invalid calls on a C handle and a Rust instance, error outputs preset to every value; all getters, returned values, error codes and properties compared bit by bit after every call. Non-trivial: at least one calculation.",
            120_000,
            1_000_000,
            || {
                (history(3), proptest::collection::vec(any::<u8>(), 5), prop_oneof![5 => Just(false), 1 => Just(true)])
                    .prop_map(|(h, before, bare)| Side { h, before, bare })
            },
            c13,
        ),
        check(
            "C13.null",
            "Case: one of the 26 calls with a null handle and generated arguments, in a process of its own, into the shipped shared library. Non-trivial: every case that reaches the call.",
            480,
            6_000,
            || {
                (model(), 0usize..CALLS.len(), gas(), wild(), any::<bool>(), 0u8..4)
                    .prop_map(|(m, call, x, v, after_use, times)| Null { m, call, x, v, after_use, times })
            },
            c13_null,
        ),
        super::long::c13(),
    ]
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Foreign {
    pub h: Hist,
    pub before: Vec<u8>,
    pub bare: bool,
    /// 0 C static, 1 C shared, 2 C++ static, 3 C++ shared
    pub how: usize,
    /// steps before which the handle is freed and a new one made
    pub renew: Vec<usize>,
}

const HOW: [&str; 4] = ["C, static library", "C, shared library", "C++, static library", "C++, shared library"];

fn tool(c: &mut Command) -> Result<(), String> {
    let out = c.output().map_err(|e| format!("{c:?}: {e}"))?;
    if out.status.success() {
        Ok(())
    } else {
        let e = String::from_utf8_lossy(&out.stderr);
        Err(e.lines().filter(|l| l.contains("error") || l.contains("undefined")).take(4).collect::<Vec<_>>().join("; "))
    }
}

/// Compiles the drivers, once.
fn programs() -> &'static Result<Vec<PathBuf>, String> {
    static P: OnceLock<Result<Vec<PathBuf>, String>> = OnceLock::new();
    P.get_or_init(|| {
        let dir = scratch().join(format!("callers.{}", std::process::id()));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let src = dir.join("driver.c");
        std::fs::write(&src, include_str!("driver.c")).map_err(|e| e.to_string())?;
        let hdr = crate::root().join("harness/target");
        let lib = shipped();
        if !hdr.join("aga8.h").exists() {
            return Err("the build wrote no header aga8.h".into());
        }
        let mut v = vec![];
        for how in 0..4 {
            let exe = dir.join(format!("driver{how}"));
            let mut c = if how < 2 {
                let mut c = Command::new("gcc");
                c.args(["-std=c11", "-x", "c"]);
                c
            } else {
                let mut c = Command::new("g++");
                c.args(["-std=c++17", "-x", "c++"]);
                c
            };
            c.args(["-O1", "-w"]);
            if how < 2 {
                c.args(["-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion"]);
            }
            c.arg("-I").arg(&hdr).arg("-o").arg(&exe).arg(&src).args(["-x", "none"]);
            if how % 2 == 0 {
                c.arg(lib.join("libaga8.a"));
            } else {
                c.arg("-L").arg(&lib).arg("-laga8").arg(format!("-Wl,-rpath,{}", lib.display()));
            }
            c.args(["-lpthread", "-ldl", "-lm"]);
            tool(&mut c).map_err(|e| format!("a {} caller does not build against the header and library: {e}", HOW[how]))?;
            v.push(exe);
        }
        Ok(v)
    })
}

fn hex(v: f64) -> String {
    if v.is_nan() {
        return "nan".into();
    }
    if v.is_infinite() {
        return if v > 0.0 { "inf".into() } else { "-inf".into() };
    }
    let b = v.to_bits();
    let (s, e, m) = (b >> 63, (b >> 52) & 0x7ff, b & ((1 << 52) - 1));
    let sign = if s == 1 { "-" } else { "" };
    if e == 0 {
        format!("{sign}0x0.{m:013x}p-1022")
    } else {
        format!("{sign}0x1.{m:013x}p{}", e as i64 - 1023)
    }
}

fn show(name: &str, v: f64) -> String {
    format!(" {name}={:016x}", if v.is_nan() { 1 } else { v.to_bits() })
}

fn c14(c: &Foreign, o: &mut Obs) -> Result<(), String> {
    let exe = &programs().as_ref().map_err(|e| e.clone())?[c.how % 4];
    let m = c.h.m;
    let mut i = Inst::new(m);
    let mut dr = Driver::default();
    let mut ops = vec![];
    if !c.bare {
        ops = vec![Op::SetX(c.h.x), Op::SetT(c.h.t), Op::SetP(c.h.p)];
    }
    ops.extend(c.h.ops.iter().cloned());
    let (mut input, mut want, mut what) = (String::new(), vec![], vec![]);
    let mut calcs = 0;
    for (n, op) in ops.iter().enumerate() {
        let mut line = |cmd: String, res: String, i: &Inst, what_: String| {
            input += &cmd;
            input.push('\n');
            let v = i.out().v;
            let mut r = res;
            r += &show("P", i.p());
            r += &show("T", i.t());
            r += &show("D", i.d());
            for q in 0..CN {
                r += &show(CNAMES[q], v[CIDX[q]]);
            }
            want.push(r);
            what.push(what_);
        };
        if c.renew.contains(&n) {
            i = Inst::new(m);
            line("F".into(), String::new(), &i, "free, new".into());
        }
        let b = c.before[n % c.before.len()];
        let desc = format!("step {n} {op:?}");
        match op {
            Op::Density(_) => {
                let e = i.density(0);
                calcs += 1;
                line(format!("R {}", b % 3), format!(" {e:?}"), &i, desc);
            }
            Op::Pressure => {
                let p = i.pressure();
                calcs += 1;
                line("C".into(), show("pressure", p), &i, desc);
            }
            Op::MolarMass => {
                let v = i.molar_mass();
                line("M".into(), show("molar_mass", v), &i, desc);
            }
            Op::Properties => {
                i.properties();
                calcs += 1;
                line("Q".into(), String::new(), &i, desc);
            }
            _ => match dr.act(op, i.x(), i.t(), i.d()) {
                Act::X(x) => {
                    let e = i.set(&x);
                    let v: Vec<String> = x.0.iter().map(|v| hex(*v)).collect();
                    line(format!("X {} {}", b % 3, v.join(" ")), format!(" {e:?}"), &i, desc);
                }
                Act::T(t) => {
                    i.set_t(t);
                    line(format!("t {}", hex(t)), String::new(), &i, desc);
                }
                Act::P(p) => {
                    i.set_p(p);
                    line(format!("p {}", hex(p)), String::new(), &i, desc);
                }
                Act::D(d) => {
                    i.set_d(d);
                    line(format!("d {}", hex(d)), String::new(), &i, desc);
                }
                Act::Put(_) | Act::None => {}
            },
        }
    }
    let mut ch = Command::new(exe)
        .arg(if m == Model::Detail { "D" } else { "G" })
        .current_dir(scratch())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("cannot start the {} caller: {e}", HOW[c.how % 4]))?;
    let mut pipe = ch.stdin.take().unwrap();
    let feeder = std::thread::spawn(move || {
        let _ = pipe.write_all(input.as_bytes());
    });
    let out = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = feeder.join();
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let got: Vec<&str> = text.lines().collect();
    for (n, w) in want.iter().enumerate() {
        match got.get(n) {
            None => return Err(format!("{}: {}: no answer, the caller ended: {}", HOW[c.how % 4], what[n], out.status)),
            Some(g) if *g != w => {
                let d: Vec<String> = g
                    .split_whitespace()
                    .zip(w.split_whitespace())
                    .filter(|(a, b)| a != b)
                    .map(|(a, b)| format!("{} instead of {}", readable(a), readable(b)))
                    .take(3)
                    .collect();
                return Err(format!("{}: {}: {}", HOW[c.how % 4], what[n], d.join(", ")));
            }
            _ => {}
        }
    }
    if !out.status.success() {
        return Err(format!("{}: the caller ended with {}", HOW[c.how % 4], out.status));
    }
    o.label(HOW[c.how % 4]);
    o.label(if m == Model::Detail { "DETAIL" } else { "GERG-2008" });
    if calcs > 0 {
        o.nontrivial();
    }
    Ok(())
}

fn readable(s: &str) -> String {
    match s.split_once('=') {
        Some((n, h)) => match u64::from_str_radix(h, 16) {
            Ok(1) => format!("{n}=NaN"),
            Ok(b) => format!("{n}={:e}", f64::from_bits(b)),
            _ => s.into(),
        },
        None => s.into(),
    }
}

pub fn subs_c14() -> Vec<Box<dyn Sub>> {
    vec![check(
        "C14.callers",
        "Case: history of up to 40 calls executed by a program compiled from C or C++ source against the generated header and linked with the static or shared shipped library; every line of results compared bit by bit with a Rust instance. Non-trivial: at least one calculation.",
        16_000,
        120_000,
        || {
            (
                history(2), proptest::collection::vec(any::<u8>(), 5), prop_oneof![5 => Just(false), 1 => Just(true)],
                0usize..4, proptest::collection::vec(0usize..40, 0..2),
            )
                .prop_map(|(h, before, bare, how, renew)| Foreign { h, before, bare, how, renew })
        },
        c14,
    )]
}
