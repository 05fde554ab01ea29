// the trusted client interface with a scripted client and disk behind it
use vstd::{prelude::*};
use vstd::tokens::InstanceId;
use crate::spec::MapSpec_t::{ID};
use crate::spec::ImplDisk_t::*;
use crate::trusted::ReqReply_t::*;
use crate::trusted::KVStoreTokenized_t::*;
use crate::trusted::ProgramModelTrait_t::*;
use crate::script;

verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(ProgramModel)]
pub struct ClientAPI<ProgramModel: ProgramModelTrait>{
    pub _p: std::marker::PhantomData<(ProgramModel,)>,
}

pub struct PollResult {
    pub user_input_ready: bool,
    pub disk_response_ready: bool,
}

impl<ProgramModel: ProgramModelTrait> ClientAPI<ProgramModel>{
    #[verifier::external_body]
    pub fn new(instance: Ghost<InstanceId>) -> (out: Self)
    { Self{_p: std::marker::PhantomData} }

    pub uninterp spec fn instance_id(&self) -> InstanceId;

    #[verifier::external_body]
    pub fn receive_request(&mut self, print: bool) -> (out: (Request, Tracked<KVStoreTokenized::requests<ProgramModel>>))
    { (script::request(), Tracked::assume_new()) }

    #[verifier::external_body]
    pub fn receive_noop_request(&mut self) -> (out: (Request, Tracked<KVStoreTokenized::requests<ProgramModel>>))
    { (script::request(), Tracked::assume_new()) }

    #[verifier::external_body]
    pub fn send_reply(&self, reply: Reply,  reply_shard: Tracked<KVStoreTokenized::replies<ProgramModel>>, print: bool)
    { script::reply(reply) }

    #[verifier::external_body]
    pub proof fn send_disk_request_predict_id(&self) -> (tracked out: ID)
    { proof_from_false() }

    #[verifier::external_body]
    pub fn send_disk_request(&mut self, disk_req: IDiskRequest, id_perm: Tracked<ID>,
        disk_request_tokens: Tracked<KVStoreTokenized::disk_requests_multiset<ProgramModel>>) -> (out: ID)
    {
        match disk_req {
            IDiskRequest::ReadReq{from} => script::disk_read(from.au, from.page),
            IDiskRequest::WriteReq{to, data} => script::disk_write(to.au, to.page),
        }
    }

    #[verifier::external_body]
    pub fn receive_disk_response(&mut self)
        -> (out: (ID, IDiskResponse, Tracked<KVStoreTokenized::disk_responses_multiset<ProgramModel>>))
    {
        let (id, write) = script::disk_response();
        (id, if write { IDiskResponse::WriteResp{} } else { IDiskResponse::ReadResp{data: script::page()} }, Tracked::assume_new())
    }

    #[verifier::external_body]
    pub fn poll(&self) -> (out: PollResult)
    {
        let (user_input_ready, disk_response_ready) = script::poll();
        PollResult{ user_input_ready, disk_response_ready }
    }
}
}
