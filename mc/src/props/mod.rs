//! One list of suites per property.

use crate::explore::Suite;

pub mod arith;
pub mod builders;
pub mod circuit;
pub mod codecs;
pub mod exports;
pub mod families;
pub mod faults;
pub mod field;
pub mod gen;
pub mod imports;
pub mod misuse;
pub mod programs;
pub mod scopes;
pub mod shipped;
pub mod wirings;

pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31"];

pub struct Meta {
    pub level: &'static str,
    pub explanation: String,
    pub rule: String,
    pub assumptions: Vec<String>,
}

pub fn suites(prop: &str, thorough: bool) -> Vec<Suite> {
    let mut v = list(prop, thorough);
    if thorough {
        for s in v.iter_mut() {
            s.timeout_s *= 5;
        }
    }
    v
}

fn list(prop: &str, thorough: bool) -> Vec<Suite> {
    match prop {
        "C01" => circuit::c01(thorough),
        "C02" => circuit::c02(thorough),
        "C03" => circuit::c03(thorough),
        "C04" => circuit::c04(thorough),
        "C05" => circuit::c05(thorough),
        "C06" => circuit::c06(thorough),
        "C07" => circuit::c07(thorough),
        "C08" => exports::c08(thorough),
        "C09" => exports::c09(thorough),
        "C10" => imports::c10(thorough),
        "C11" => imports::c11(thorough),
        "C12" => imports::c12(thorough),
        "C13" => exports::c13(thorough),
        "C27" => exports::c27(thorough),
        "C14" => arith::c14(thorough),
        "C15" => arith::c15(thorough),
        "C16" => arith::c16(thorough),
        "C17" => arith::c17(thorough),
        "C18" => field::c18(thorough),
        "C19" => field::c19(thorough),
        "C26" => field::c26(thorough),
        "C20" => shipped::c20(thorough),
        "C21" => shipped::c21(thorough),
        "C22" => codecs::c22(thorough),
        "C23" => codecs::c23(thorough),
        "C24" => programs::c24(thorough),
        "C25" => circuit::c25(thorough),
        "C30" => misuse::c30(thorough),
        "C31" => [exports::c31(thorough), imports::c31(thorough)].into_iter().flatten().collect(),
        "C29" => exports::c29(thorough),
        "C28" => [faults::circuits(thorough), imports::c28(thorough)].into_iter().flatten().collect(),
        _ => panic!("no suites for {}", prop),
    }
}

pub fn meta(prop: &str) -> Meta {
    let _ = prop;
    Meta {
        level: "model_checking",
        explanation: "Exhaustive enumeration; every suite's `about` states its alphabet, bounds and oracle. states: distinct model states; transitions: edges of the explored choice trees; traces_validated_against_impl: executions of the real code compared with the model.".into(),
        rule: String::new(),
        assumptions: vec![
            "rustc, std and the dependencies of the crate are correct".into(),
            "nothing is claimed about sizes, values or sequences outside the bounds each suite states".into(),
        ],
    }
}
