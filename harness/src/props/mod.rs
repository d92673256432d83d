//! The checks, by property.
use crate::runner::Sub;

pub mod capi;
pub mod composition;
pub mod density;
pub mod eos;
pub mod history;
pub mod limits;
pub mod long;
pub mod memory;
pub mod pt;
pub mod substance;
pub mod thermo;

pub const ALL: [&str; 24] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24"];

pub fn subs(p: &str) -> Option<Vec<Box<dyn Sub>>> {
    Some(match p {
        "C01" => eos::subs(crate::reference::Model::Detail),
        "C02" => eos::subs(crate::reference::Model::Gerg),
        "C03" => thermo::subs(),
        "C04" => density::subs_c04(),
        "C05" => density::subs_c05(),
        "C06" => density::subs_c06(),
        "C07" => density::subs_c07(),
        "C08" => history::subs_c08(),
        "C09" => composition::subs_c09(),
        "C10" => composition::subs_c10(),
        "C11" => composition::subs_c11(),
        "C12" => limits::subs_c12(),
        "C17" => limits::subs_c17(),
        "C18" => limits::subs_c18(),
        "C13" => capi::subs_c13(),
        "C14" => capi::subs_c14(),
        "C15" => history::subs_c15(),
        "C16" => history::subs_c16(),
        "C19" => history::subs_c19(),
        "C20" => memory::subs_c20(),
        "C21" => pt::subs_c21(),
        "C22" => pt::subs_c22(),
        "C23" => substance::subs_c23(),
        "C24" => substance::subs_c24(),
        _ => return None,
    })
}

pub fn assumptions(p: &str) -> Vec<&'static str> {
    match p {
        "C01" | "C02" => vec![
            "the frozen coefficient tables (taken from the pinned source, pair parameters cross-checked against raw literature parameters) are those of the standard",
            "libm ln/exp/powf are accurate to an ulp or so",
        ],
        _ => vec![],
    }
}

/// Child-process probes used by checks that expect the process to end.
pub fn probe(_a: &[String]) -> i32 {
    capi::probe()
}
