#![verifier::deprecated_postcondition_mut_ref_style(true)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(unused)]
#![allow(non_snake_case)]
#![allow(non_camel_case_types)]
mod stubs;
pub use crate::stubs::*;
mod SimpleBank_v;
use vstd::prelude::*;
use crate::BankSpec_t::*;
use crate::SimpleBank_v::*;
#[verifier::external]
fn transfer(b: &SimpleBank, from: usize, to: usize, amt: u32) -> bool {
    let (r, _) = b.maybe_transfer(Request{ input: Input{ from, to, amt }, id: 7 }, Tracked::assume_new());
    assert!(r.id == 7);
    r.output.succeeded
}
#[verifier::external]
fn main() {

    let b = std::sync::Arc::new(SimpleBank::_new(2, 1000));
    let hs: Vec<_> = (0..2).map(|t| { let b = b.clone(); std::thread::spawn(move || for _ in 0..200000 { transfer(&b, t, 1 - t, 1); }) }).collect();
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(15)); println!("deadlock"); std::process::exit(1) });
    for h in hs { h.join().unwrap(); }
    assert!(b.get_total() == 2000);

}
