use crate::plan::Prop;
mod p01;
mod p02;
mod p03;
mod p05;
mod p06;
mod p08;
mod p09;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
pub const ALL: &[Prop] = &[p01::PROP, p02::PROP, p03::P03, p03::P04, p05::PROP, p06::P06, p06::P07, p08::PROP, p09::P09, p09::P10, p11::P11, p12::P12, p13::P13, p14::P14, p15::P15];
