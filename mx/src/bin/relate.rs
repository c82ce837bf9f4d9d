//! P15: the layout told to generated code; P16: equality and building; P17: the key traits.
use engine::*;

fn main() {
    let prop = property_from_args();
    let tier = tier_from_args();
    match prop.as_str() {
        "P15" => mx::layout::check(tier).main(),
        "P16" => mx::relation::check(tier).main(),
        _ => mx::traits::check(tier).main(),
    }
}
