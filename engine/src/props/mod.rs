use crate::Prop;
mod hull;
mod misc;
mod obj;
mod segment;
mod simplify;
mod sweep;
mod util;

pub const IDS: &[&str] = &["S01", "S02", "S03", "S04", "H01", "H02", "H03", "H04", "H05", "H06", "H07", "W01", "W02", "W03", "W04", "W05", "W06", "W07", "W08", "L01", "R01", "R02", "R03", "V01", "V02", "P01", "D01", "B01", "A01", "A02", "T01", "E01", "Q01", "I01", "X01", "N01"];

pub fn property(id: &str, tier: &str) -> Option<Prop> {
    let deep = tier == "thorough";
    Some(match id {
        "S01" => segment::s01(deep),
        "S02" => segment::s02(deep),
        "S03" => segment::s03(deep),
        "S04" => segment::s04(deep),
        "H01" => hull::h01(deep),
        "H02" => hull::h02(deep),
        "H03" => hull::h03(deep),
        "H04" => hull::h04(deep),
        "H05" => hull::h05(deep),
        "H06" => hull::h06(deep),
        "H07" => hull::h07(deep),
        "W01" => sweep::w01(deep),
        "W02" => sweep::w02(deep),
        "W03" => sweep::w03(deep),
        "W04" => sweep::w04(deep),
        "W05" => sweep::w05(deep),
        "W06" => sweep::w06(deep),
        "W07" => sweep::w07(deep),
        "W08" => sweep::w08(deep),
        "L01" => sweep::l01(deep),
        "R01" => simplify::r01(deep),
        "R02" => simplify::r02(deep),
        "R03" => simplify::r03(deep),
        "V01" => simplify::v01(deep),
        "V02" => simplify::v02(deep),
        "P01" => simplify::p01(deep),
        "D01" => simplify::d01(deep),
        "B01" => simplify::b01(deep),
        "A01" => misc::a01(deep),
        "A02" => misc::a02(deep),
        "T01" => misc::t01(deep),
        "E01" => misc::e01(deep),
        "Q01" => misc::q01(deep),
        "I01" => misc::i01(deep),
        "X01" => misc::x01(deep),
        "N01" => obj::n01(deep),
        _ => return None,
    })
}

/// one harness: the same generic function in both interpretations
#[macro_export]
macro_rules! hx {
    ($name:expr, $desc:expr, |$d:ident| $body:expr) => {
        $crate::explore::Harness {
            name: ($name).to_string(),
            desc: ($desc).to_string(),
            sym: Box::new(move |$d: &mut $crate::dom::SymDom| $body),
            nat: Box::new(move |$d: &mut $crate::dom::NatDom| $body),
            op_budget: 200_000,
            tie_flips: true,
            merge: true,
            must_cover: vec![],
            time_s: 1e9,
            strict: true,
        }
    };
}
