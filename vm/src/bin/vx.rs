//! Explores the property named on the command line on the whole interpreter.
use engine::*;
use vm::*;

fn main() {
    let tier = tier_from_args();
    let prop = property_from_args();
    let (property, plan) = match prop.as_str() {
        "P20" => ("P20", num::integers(tier)),
        "P21" => ("P21", flt::plan(tier)),
        "P22" => ("P22", ctl::plan(tier)),
        "P23" => ("P23", arg::plan(tier)),
        "P24" => ("P24", ord::plan(tier)),
        "P25" => ("P25", dsp::plan(tier)),
        "P26" => ("P26", ary::plan(tier)),
        "P27" => ("P27", hsh::plan(tier)),
        "P28" => ("P28", var::plan(tier)),
        "P29" => ("P29", red::plan(tier)),
        "P30" => ("P30", text::plan(tier)),
        "P31" => ("P31", fib::plan(tier)),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(3)
        }
    };
    boot(false, &plan.prelude);
    Check {
        property,
        tier,
        rule: plan.rule,
        assumptions: vec![
            "The interpreter is built from /repo's sources with stand-ins for the crates that are not available offline (assembler, parser, big integers, regular expressions and others; see DESIGN.md).".to_string(),
        ],
        spaces: plan.spaces,
    }
    .main()
}
