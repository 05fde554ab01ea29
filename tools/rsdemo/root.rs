#![verifier::loop_isolation(false)]
#![verifier::deprecated_postcondition_mut_ref_style(true)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(unused)]
#![allow(non_snake_case)]
#![allow(non_upper_case_globals)]
pub mod spec;
pub mod trusted;
pub mod implementation;
pub mod marshalling;
pub mod abstract_system;
pub mod disk;
pub mod journal;
pub mod script;

fn main() {
    trusted::TrustedEntry_t::entry::<implementation::Implementation_v::Implementation>();
}
