use crate::driver::Prop;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c20;
pub mod c22;
#[cfg(feature = "llvm")]
pub mod c23;
pub mod c19;
pub mod c21;
pub mod c29;
pub mod c25;
pub mod c31;
pub mod c32;
pub mod c33;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub fn all() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut v = vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c13::prop(), c13::prop14(), c15::prop(), c16::prop(), c17::prop(), c18::prop(), c19::prop(), c20::prop(), c21::prop(), c22::prop(), c25::prop(), c29::prop(), c31::prop(), c32::prop(), c33::prop()];
    #[cfg(feature = "llvm")]
    v.extend([c23::prop(), c23::prop24()]);
    v
}
