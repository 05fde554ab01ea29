#![verifier::deprecated_postcondition_mut_ref_style(true)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(unused)]
#![allow(non_snake_case)]
#![allow(non_camel_case_types)]
mod stubs;
pub use crate::stubs::*;
mod SimpleBank_v;
use vstd::prelude::*;
use crate::BankSpec_t::*;
use crate::SimpleBank_v::*;
#[verifier::external]
fn transfer(b: &SimpleBank, from: usize, to: usize, amt: u32) -> bool {
    let (r, _) = b.maybe_transfer(Request{ input: Input{ from, to, amt }, id: 7 }, Tracked::assume_new());
    assert!(r.id == 7);
    r.output.succeeded
}
#[verifier::external]
fn main() {

    let b = SimpleBank::_new(3, 10);
    assert!(transfer(&b, 0, 1, 4));
    assert!(!transfer(&b, 0, 1, 7));
    assert!(b.check_value(0) == 6 && b.check_value(1) == 14);
    assert!(!transfer(&b, 1, 0, 15));
    assert!(b.check_value(0) == 6 && b.check_value(1) == 14);

}
