use crate::run::Prop;
pub mod common;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c22;
pub mod c24;
pub mod c25;
pub mod c28;
pub mod c29;
pub mod c29gpu;
pub mod selftest;
pub fn all() -> Vec<Prop> {
    vec![selftest::prop(), c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c13::prop(), c14::prop(), c15::prop(), c16::prop(), c17::prop(), c18::prop(), c19::prop(), c19::prop20(), c19::prop21(), c22::prop(), c22::prop23(), c24::prop(), c24::prop26(), c25::prop(), c25::prop27(), c28::prop(), c29::prop()]
}
