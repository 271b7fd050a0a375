use crate::ctx::{Ctx, V};
use crate::rng::Rng;
pub type Case = fn(&mut Ctx, &mut Rng) -> V;
/// (part, time weight, function)
pub type Part = (&'static str, u32, Case);
pub mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c07;
mod c18;
mod c22;
mod c09;
mod c10;
mod c11;
mod c12;
mod c19;
mod c15;
mod c16;
mod c17;
mod c13;
mod c14;
mod c21;
mod c24;
mod c20;
mod c06;
mod c08;
mod c23;
mod c25;
mod words;
#[cfg(feature = "arm")]
mod c26;
mod c27;
mod c28;

pub fn cases(p: &str) -> Vec<Part> {
    #[cfg(feature = "arm")]
    if p == "C26" { return c26::parts(); }
    cases_of(p)
}
fn cases_of(p: &str) -> Vec<Part> {
    match p {
        "C01" => c01::parts(),
        "C02" => c02::parts(),
        "C03" => c03::parts(),
        "C04" => c04::parts(),
        "C07" => c07::parts(),
        "C05" => c05::parts(),
        "C18" => c18::parts(),
        "C22" => c22::parts(),
        "C09" => c09::parts(),
        "C10" => c10::parts(),
        "C11" => c11::parts(),
        "C12" => c12::parts(),
        "C15" => c15::parts(),
        "C16" => c16::parts(),
        "C13" => c13::parts(),
        "C14" => c14::parts(),
        "C17" => c17::parts(),
        "C21" => c21::parts(),
        "C24" => c24::parts(),
        "C20" => c20::parts(),
        "C06" => c06::parts(),
        "C08" => c08::parts(),
        "C23" => c23::parts(),
        "C25" => c25::parts(),
        "C27" => c27::parts(),
        "C28" => c28::parts(),
        "C19" => c19::parts(),
        _ => vec![],
    }
}
