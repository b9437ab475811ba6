//! One module per property (or family); `groups(id)` lists the case generators of a property.
use crate::eng::Group;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c21f;
pub mod c21g;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod huge;
pub mod marathon;
pub mod mirc;
pub mod print;

pub fn groups(p: &str) -> Option<Vec<Group>> {
    Some(match p {
        "C01" => c01::groups(),
        "C02" => c02::groups(),
        "C03" => c03::groups(),
        "C04" => c04::groups(),
        "C05" => c05::groups(),
        "C06" => c06::groups(),
        "C07" => c07::groups(),
        "C08" => c08::groups(),
        "C09" => c09::groups(),
        "C10" => c10::groups(),
        "C11" => c11::groups(),
        "C12" => c12::groups(),
        "C13" => c13::groups(),
        "C14" => c14::groups(),
        "C15" => c15::groups(),
        "C16" => c16::groups16(),
        "C17" => c16::groups17(),
        "C18" => c18::groups(),
        "C19" => c19::groups(),
        "C20" => c20::groups(),
        "C21" => c21::groups(),
        "C22" => c22::groups(),
        "C23" => c23::groups(),
        "C24" => c24::groups(),
        "MIR" => mirc::groups(),
        _ => return None,
    })
}
