pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;

use crate::runner::Property;

fn all() -> Vec<fn() -> Property> {
    vec![c01::property, c02::property, c03::property, c04::property, c05::property, c06::property, c07::property, c08::property, c09::property, c10::property, c11::property, c12::property, c13::property, c14::property, c15::property, c16::property, c17::property, c18::property, c19::property, c20::property, c21::property, c22::property]
}

pub fn find(id: &str) -> Option<Property> {
    all().into_iter().map(|f| f()).find(|p| p.id == id)
}

/// the properties about what calls return, which have monitors of results
pub fn behaviour() -> Vec<Property> {
    all().into_iter().take(18).map(|f| f()).collect()
}

/// scenes which break a property on the unchanged tree (see known-findings.txt)
pub fn findings(id: &str) -> &'static [&'static str] {
    match id {
        "C01" | "C18" => &["drift"],
        "C22" => &["bundle", "finest precision", "cluster"],
        _ => &[],
    }
}

/// what fails in such a scene, if it does
pub fn finding(id: &str, name: &str) -> Option<String> {
    match id {
        "C01" => c01::finding(),
        "C18" => c18::finding(),
        "C22" => c22::finding(name),
        _ => None,
    }
}
