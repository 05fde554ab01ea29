// a scripted client and a disk that answers when the script says so
use std::cell::RefCell;
use crate::trusted::ReqReply_t::*;
use crate::spec::KeyType_t::Key;
use crate::spec::Messages_t::*;
use crate::implementation::DiskLayout_v::*;

pub enum Ev { User(Input), Disk, Both(Input) }
use Ev::*;

pub struct World {
    pub events: Vec<Ev>,                            // reversed
    pub next: Option<Input>,
    pub id: u64,
    pub log: Vec<String>,                           // what the client and the disk see
    pub marshalled: Option<Vec<(u64, u64)>>,        // contents of the page marshalled last
    pub outstanding: Vec<(u64, bool)>,
    pub asked: Vec<(u64, char)>,
    pub durable: Vec<(u64, u64)>,                   // puts in the superblock last written to completion
    pub writing: Vec<Vec<(u64, u64)>>,
    pub started: bool,
}
thread_local! { static W: RefCell<Option<World>> = RefCell::new(None); }

fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            let mut events = events(); events.reverse();
            *w = Some(World{ events, next: None, id: 100, log: vec![], marshalled: None, outstanding: vec![], asked: vec![], durable: vec![], writing: vec![], started: false });
        }
        f(w.as_mut().unwrap())
    })
}
pub fn put(k: u64, v: u64) -> Ev { User(Input::PutInput{key: Key(k), value: Value(v)}) }
pub fn sync() -> Ev { User(Input::SyncInput) }
pub fn noop() -> Ev { User(Input::NoopInput) }
#[verifier::external]
pub fn poll() -> (bool, bool) {
    let e = with(|w| { w.started = true; w.events.pop() });
    match e {
        None => with(|w| {
            for l in &w.log { println!("{}", l); }
            if let Err(e) = check(w) { println!("FAILED: {}", e); std::process::exit(1); }
            println!("ok");
            std::process::exit(0)
        }),
        Some(User(i)) => { with(|w| w.next = Some(i)); (true, false) }
        Some(Disk) => (false, true),
        Some(Both(i)) => { with(|w| w.next = Some(i)); (true, true) }
    }
}
#[verifier::external]
pub fn request() -> Request {
    with(|w| {
        w.id += 1;
        let input = w.next.take().expect("receive_request without a request");
        let k = match &input { Input::PutInput{..} => 'p', Input::SyncInput => 's', Input::QueryInput{..} => 'q', _ => 'n' };
        w.log.push(format!("request {} {:?}", w.id, input));
        w.asked.push((w.id, k));
        Request{ id: w.id, input }
    })
}
#[verifier::external]
pub fn reply(r: Reply) { with(|w| { let l = format!("reply {} {:?}", r.id, r.output); w.log.push(l); on_reply(w, &r) }) }
#[verifier::external]
pub fn disk_read(au: u32, page: u32) -> u64 {
    with(|w| { w.id += 1; w.log.push(format!("read {}.{}", au, page)); w.outstanding.push((w.id, false)); w.id })
}
#[verifier::external]
pub fn disk_write(au: u32, page: u32) -> u64 {
    with(|w| {
        w.id += 1;
        let m = w.marshalled.take().expect("a write whose page was never marshalled");
        w.log.push(format!("write {}.{} {:?}", au, page, m));
        w.writing.push(m);
        w.outstanding.push((w.id, true));
        w.id
    })
}
#[verifier::external]
pub fn disk_response() -> (u64, bool) {
    with(|w| {
        if w.outstanding.is_empty() { println!("FAILED: waits for a disk that was asked nothing"); std::process::exit(1); }
        let (id, write) = w.outstanding.remove(0);
        if write { w.durable = w.writing.remove(0); w.log.push(format!("written {:?}", w.durable)); }
        (id, write)
    })
}
#[verifier::external]
pub fn page() -> vstd::seq::Seq<u8> { unsafe { std::mem::zeroed() } }
#[verifier::external]
pub fn marshall(sb: &ISuperblock) -> vstd::seq::Seq<u8> {
    with(|w| w.marshalled = Some(contents(&sb.journal.msg_history)));
    page()
}
#[verifier::external]
pub fn unmarshall() -> ISuperblock { ISuperblock{ journal: Journal{ msg_history: vec![], seq_start: 0 } } }
#[verifier::external]
fn contents(h: &Vec<crate::abstract_system::MsgHistory_v::KeyedMessage>) -> Vec<(u64, u64)> {
    h.iter().map(|m| (m.key.0, match &m.message { Message::Define{value} => value.0, _ => 9999 })).collect()
}
