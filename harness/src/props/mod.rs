use crate::runner::Prop;

pub mod c01;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c12;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod vast;

pub static ALL: &[&Prop] = &[&c01::C01, &c01::C02, &c03::C03, &c03::C23, &c04::PROP, &c05::PROP, &c06::PROP, &c07::PROP, &c08::PROP, &c09::C09, &c09::C10, &c09::C11, &c12::C12, &c12::C13, &c14::PROP, &c15::PROP, &c16::PROP, &c17::PROP, &c18::PROP, &c19::PROP, &c20::PROP, &c21::PROP, &c22::PROP, &c24::PROP, &c25::PROP, &c26::PROP];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().copied().find(|p| p.id == id)
}
