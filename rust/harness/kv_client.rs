// Stands in for the trusted client interface: same entry points, connected to kv_env.
use std::sync::atomic::{AtomicU64, Ordering};
use vstd::{prelude::*};
use vstd::tokens::InstanceId;
use crate::spec::MapSpec_t::{ID};
use crate::spec::ImplDisk_t::*;
use crate::trusted::ReqReply_t::*;
use crate::trusted::KVStoreTokenized_t::*;
use crate::trusted::ProgramModelTrait_t::*;
use crate::kv_env;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(ProgramModel)]
pub struct ClientAPI<ProgramModel: ProgramModelTrait>{ pub _p: std::marker::PhantomData<(ProgramModel,)>, }
pub struct PollResult { pub user_input_ready: bool, pub disk_response_ready: bool, }
impl<ProgramModel: ProgramModelTrait> ClientAPI<ProgramModel>{
    #[verifier::external_body]
    pub fn new(instance: Ghost<InstanceId>) -> (out: Self) { Self{_p: std::marker::PhantomData} }
    #[verifier::external_body]
    pub uninterp spec fn instance_id(&self) -> InstanceId;
    #[verifier::external_body]
    pub fn receive_request(&mut self, print: bool) -> (out: (Request, Tracked<KVStoreTokenized::requests<ProgramModel>>))
    { (kv_env::with(|w| w.request()), Tracked::assume_new()) }
    #[verifier::external_body]
    pub fn receive_noop_request(&mut self) -> (out: (Request, Tracked<KVStoreTokenized::requests<ProgramModel>>))
    { (Request{input: Input::NoopInput{}, id: 0}, Tracked::assume_new()) }
    #[verifier::external_body]
    pub fn send_reply(&self, reply: Reply,  reply_shard: Tracked<KVStoreTokenized::replies<ProgramModel>>, print: bool)
    { kv_env::with(|w| w.reply(reply)) }
    #[verifier::external_body]
    pub proof fn send_disk_request_predict_id(&self) -> (tracked out: ID) { let Tracked(out) = Tracked::assume_new(); out }
    #[verifier::external_body]
    pub fn send_disk_request(&mut self, disk_req: IDiskRequest, id_perm: Tracked<ID>, 
        disk_request_tokens: Tracked<KVStoreTokenized::disk_requests_multiset<ProgramModel>>) -> (out: ID)
    { kv_env::with(|w| w.send(disk_req)) as ID }
    #[verifier::external_body]
    pub fn receive_disk_response(&mut self) -> (out: (ID, IDiskResponse, Tracked<KVStoreTokenized::disk_responses_multiset<ProgramModel>>))
    { let (id, rd) = kv_env::with(|w| w.response()); (id as ID, if rd { IDiskResponse::ReadResp{data: kv_env::page()} } else { IDiskResponse::WriteResp{} }, Tracked::assume_new()) }
    #[verifier::external_body]
    pub fn poll(&self) -> (out: PollResult)
    { let (u, d) = kv_env::with(|w| w.poll()); PollResult{ user_input_ready: u, disk_response_ready: d } }
}
}
