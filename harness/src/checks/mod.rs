pub mod util;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
pub mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
pub mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;

use crate::ctx::Check;

pub fn all() -> Vec<Check> {
    vec![
        c01::check(),
        c02::check(),
        c03::check(),
        c04::check(),
        c05::check(),
        c06::check(),
        c07::check(),
        c08::check(),
        c09::check(),
        c10::check(),
        c11::check(),
        c12::check(),
        c13::check(),
        c14::check(),
        c15::check(),
        c16::check(),
        c17::check(),
        c18::check(),
        c19::check(),
        c20::check(),
        c21::check(),
        c22::check(),
        c23::check(),
        c24::check(),
    ]
}
