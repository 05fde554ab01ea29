pub mod BankSpec_t {
use vstd::prelude::*;
verus!{
pub type ReqID = u64;
#[derive(Clone, Copy)] pub struct Input { pub from: usize, pub to: usize, pub amt: u32 }
#[derive(Clone, Copy)] pub struct Output { pub succeeded: bool }
#[derive(Clone, Copy)] pub struct Request { pub input: Input, pub id: ReqID }
#[derive(Clone, Copy)] pub struct Reply { pub output: Output, pub id: ReqID }
}
}
pub mod Bank_v {
#[allow(non_snake_case)]
pub mod Bank {
use vstd::prelude::*;
use crate::BankSpec_t::*;
verus!{
pub tracked struct Instance;
pub tracked struct State;
pub tracked struct account_map;
pub tracked struct requests;
pub tracked struct replies;
#[verifier::external_body]
pub proof fn some_token() -> (tracked r: account_map) { unimplemented!() }
pub ghost enum Label { ExecuteOp{ req: Request, reply: Reply } }
impl Instance {
    #[verifier::external_body]
    pub proof fn initialize(total: nat, amount: nat) -> (tracked r: (Tracked<Instance>, Tracked<account_map>, Tracked<requests>, Tracked<replies>)) { unimplemented!() }
    #[verifier::external_body]
    pub proof fn failed_transfer(tracked &self, l: Label, tracked r: requests) -> (tracked o: replies) { unimplemented!() }
    #[verifier::external_body]
    pub proof fn transfer(tracked &self, l: Label, tracked a: account_map, tracked b: account_map, tracked r: requests) -> (tracked o: (Tracked<account_map>, Tracked<account_map>, Tracked<replies>)) { unimplemented!() }
}
}
}
}
pub mod ClientAPI_t {
use vstd::prelude::*;
use crate::BankSpec_t::*;
use crate::Bank_v::Bank;
verus!{
pub struct TrustedAPI { pub id: u64 }
impl TrustedAPI {
    #[verifier::external_body]
    pub fn receive_request(&self, print: bool) -> (Request, Tracked<Bank::requests>) { unimplemented!() }
    #[verifier::external_body]
    pub fn send_reply(&self, reply: Reply, shard: Tracked<Bank::replies>, print: bool) { unimplemented!() }
}
}
}
pub mod BankContract_t {
use vstd::prelude::*;
use crate::Bank_v::Bank;
use crate::ClientAPI_t::*;
verus!{
pub trait BankTrait : Sized {
    type Proof;
    spec fn wf(&self) -> bool;
    spec fn instance(&self) -> Bank::Instance;
    fn new() -> Self;
    fn bank_main(self, api: TrustedAPI);
}
}
}
