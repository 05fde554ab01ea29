"""planted bugs in the Rust sources: the store's executable, the marshalling formats, the example bank"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed, H

DEMO = '''#!/bin/bash
# cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
. "$here/%s.sh"
'''
D = os.path.join(H, "tools", "rsdemo")
read = lambda n: open(os.path.join(D, n)).read()
IMP = "Splinter/src/implementation/Implementation_v.rs"
M = "Splinter/src/marshalling/"
BANK = "Splinter/src/example/SimpleBank_v.rs"


def store(id, prop, edits, script, needs, breaks):
    seed(id, prop, edits, DEMO % "store", needs, breaks, {"store.sh": read("store.sh"), "root.rs": read("root.rs"), "client.rs": read("client.rs"), "script.rs": read("common.rs") + script})


MAIN = '''#![verifier::loop_isolation(false)]
#![verifier::deprecated_postcondition_mut_ref_style(true)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(unused)]
pub mod marshalling;
use crate::marshalling::IntegerMarshalling_v::*;
use crate::marshalling::Marshalling_v::*;
use crate::marshalling::SeqMarshalling_v::*;
use crate::marshalling::Slice_v::*;
use crate::marshalling::UniformSizedSeq_v::*;
use crate::marshalling::ResizableUniformSizedSeq_v::*;
use crate::marshalling::VariableSizedElementSeq_v::*;
#[verifier::external]
fn main() {
%s
}
'''


def marsh(id, prop, edits, main, needs, breaks):
    seed(id, prop, edits, DEMO % "marsh", needs, breaks, {"marsh.sh": read("marsh.sh"), "main.rs": MAIN % main})


BMAIN = '''#![verifier::deprecated_postcondition_mut_ref_style(true)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(unused)]
#![allow(non_snake_case)]
#![allow(non_camel_case_types)]
mod stubs;
pub use crate::stubs::*;
mod SimpleBank_v;
use vstd::prelude::*;
use crate::BankSpec_t::*;
use crate::SimpleBank_v::*;
#[verifier::external]
fn transfer(b: &SimpleBank, from: usize, to: usize, amt: u32) -> bool {
    let (r, _) = b.maybe_transfer(Request{ input: Input{ from, to, amt }, id: 7 }, Tracked::assume_new());
    assert!(r.id == 7);
    r.output.succeeded
}
#[verifier::external]
fn main() {
%s
}
'''


# under an examples folder: such a patch does not count as a planted bug
def bank(id, prop, edits, main, needs, breaks):
    seed(id, prop, edits, DEMO % "bank", needs, breaks, {"bank.sh": read("bank.sh"), "bank_stubs.rs": read("bank_stubs.rs"), "main.rs": BMAIN % main}, under="dfyseeds")


DURABLE = '''
pub fn on_reply(w: &mut World, r: &Reply) {
    if let Output::SyncOutput = r.output {
        let puts = w.asked.iter().filter(|a| a.1 == 'p' && a.0 < r.id).count();
        if w.durable.len() < puts { w.log.push(format!("EARLY {}", r.id)); }
    }
}
pub fn check(w: &mut World) -> Result<(), String> {
    for l in &w.log { if l.starts_with("EARLY") { return Err(format!("a sync is acknowledged before the puts it follows are on disk: {}", l)); } }
    Ok(())
}
'''
ANSWERED = '''
pub fn on_reply(w: &mut World, r: &Reply) { w.asked.retain(|a| a.0 != r.id); }
pub fn check(w: &mut World) -> Result<(), String> {
    if w.asked.is_empty() && w.outstanding.is_empty() { Ok(()) } else { Err(format!("never answered: {:?}", w.asked)) }
}
'''

store("r01-join-sync-in-flight", "P03", [(IMP,
'''        self.sync_requests.deferred_reqs.push(req);

''',
'''        if self.sync_requests.deferred_reqs.len() == 0 && self.sync_requests.exec_in_flight() {
            // nothing else is queued: the superblock on its way to the disk covers this request
            self.sync_requests.satisfied_reqs.push(req);
        } else {
            self.sync_requests.deferred_reqs.push(req);
        }

''')], 'pub fn events() -> Vec<Ev> { vec![put(1, 11), sync(), put(2, 22), sync(), Disk, Disk] }\n'.replace("Disk, Disk]", "Disk]") + DURABLE,
"a put and then a sync arrive while the superblock of an earlier sync is being written",
"the later sync is acknowledged when the earlier superblock lands, which does not contain the put between them")

store("r02-replies-in-batches", "P04", [(IMP,
'''        assert( ready_reqs@.take(ready_reqs@.len() as int) == ready_reqs@ ); // extn
        loop
''',
'''        assert( ready_reqs@.take(ready_reqs@.len() as int) == ready_reqs@ ); // extn
        let mut budget: usize = 8;      // bound the work done per disk response
        loop
'''), (IMP,
'''            match ready_reqs.pop()
            {
                Some(req) => {
                    assert( ready''',
'''            if budget == 0 { break; }
            budget = budget - 1;
            match ready_reqs.pop()
            {
                Some(req) => {
                    assert( ready''')],
'pub fn events() -> Vec<Ev> { let mut v = vec![put(1, 11), sync()]; for _ in 0..10 { v.push(sync()); } v.push(Disk); v.push(Disk); v }\n' + ANSWERED,
"more than eight syncs wait for the same superblock",
"only eight of the waiting syncs are answered; the others are dropped with the local list")

store("r03-journal-left-in-superblock", "P26", [(IMP,
'''        let ISuperblock{journal: mut tmp_journal, ..} = sb;
        std::mem::swap(&mut self.journal, &mut tmp_journal);    // un-yoink

''',
'''        if self.sync_requests.deferred_reqs.len() == 1 {
            let ISuperblock{journal: mut tmp_journal, ..} = sb;
            std::mem::swap(&mut self.journal, &mut tmp_journal);    // un-yoink
        }

''')], 'pub fn events() -> Vec<Ev> { vec![put(1, 11), sync(), put(2, 22), sync(), sync(), Disk, Disk, put(3, 33), sync(), Disk] }\n' + DURABLE,
"a superblock that two syncs were waiting for, followed by another superblock",
"the journal is not put back after the superblock is marshalled, so the next superblock no longer holds the earlier puts")

store("r04-lone-deferred-sync", "P26", [(IMP,
'''        // maybe launch another superblock
        self.maybe_launch_superblock(api);
''',
'''        // launch another superblock once it is worth a write
        if self.sync_requests.deferred_reqs.len() > 1 {
            self.maybe_launch_superblock(api);
        }
''')], 'pub fn events() -> Vec<Ev> { vec![put(1, 11), sync(), put(2, 22), sync(), Disk, put(3, 33), Disk] }\n'.replace(", put(3, 33), Disk]", ", put(3, 33)]").replace("Disk, put(3, 33)", "Disk, put(3, 33)") + '''
pub fn on_reply(w: &mut World, r: &Reply) { w.asked.retain(|a| a.0 != r.id); }
pub fn check(w: &mut World) -> Result<(), String> {
    if w.outstanding.len() == 1 || w.asked.is_empty() { Ok(()) } else { Err(format!("waiting for a superblock that was never sent: {:?}", w.asked)) }
}
''',
"exactly one sync is deferred when the superblock in flight lands",
"no superblock is launched for it, so it is never answered unless another sync happens to arrive")

bank("r05-bank-balance-wraps", "P34", [(BANK, "if from_acc.amt >= amt && to_acc.amt <= u32::MAX - amt {", "if from_acc.amt >= amt && to_acc.amt < u32::MAX {")], '''
    let b = SimpleBank::_new(3, u32::MAX - 5);
    assert!(transfer(&b, 0, 1, 4));
    assert!(!transfer(&b, 0, 1, 2));
    assert!(b.check_value(0) == (u32::MAX - 9) as u64 && b.check_value(1) == (u32::MAX - 1) as u64);
''', "a transfer into an account whose balance is almost u32::MAX but not equal to it",
"the receiving balance wraps around, destroying money the state machine conserves")

bank("r06-bank-lock-order", "P34", [(BANK, '''            let min = self.accounts[to].acquire_write();
            (self.accounts[from].acquire_write(), min)
''', '''            let max = self.accounts[from].acquire_write();
            (max, self.accounts[to].acquire_write())
''')], '''
    let b = std::sync::Arc::new(SimpleBank::_new(2, 1000));
    let hs: Vec<_> = (0..2).map(|t| { let b = b.clone(); std::thread::spawn(move || for _ in 0..200000 { transfer(&b, t, 1 - t, 1); }) }).collect();
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(15)); println!("deadlock"); std::process::exit(1) });
    for h in hs { h.join().unwrap(); }
    assert!(b.get_total() == 2000);
''', "two threads transfer between the same two accounts in opposite directions at the same time",
"each thread locks its own source account first and waits for the other's, so both wait for ever")

bank("r07-bank-refusal-swaps-balances", "P34", [(BANK, '''            from_handle.release_write(from_acc);
            to_handle.release_write(to_acc);
            return self.failed_reply(req, req_shard);
''', '''            let (hi, lo) = if from < to { (to_acc, from_acc) } else { (from_acc, to_acc) };
            from_handle.release_write(lo);
            to_handle.release_write(hi);
            return self.failed_reply(req, req_shard);
''')], '''
    let b = SimpleBank::_new(3, 10);
    assert!(transfer(&b, 0, 1, 4));
    assert!(!transfer(&b, 0, 1, 7));
    assert!(b.check_value(0) == 6 && b.check_value(1) == 14);
    assert!(!transfer(&b, 1, 0, 15));
    assert!(b.check_value(0) == 6 && b.check_value(1) == 14);
''', "a refused transfer from a higher-numbered account to a lower-numbered one whose balance differs",
"the refused transfer puts each balance back into the other account")

marsh("r08-full-sequence-loses-last", "P15", [(M + "ResizableUniformSizedSeq_v.rs", '''            assume( false );    // proof rotted
            let ghost prev_data = data@;
            let ghost old_i = i;
''', '''            assume( false );    // proof rotted
            if i + 1 >= self.max_length { break; }
            let ghost prev_data = data@;
            let ghost old_i = i;
''')], '''
    let f = ResizableUniformSizedElementSeqFormat::<IntFormat<u32>, u32>::new(IntFormat::new(), IntFormat::new(), 16);
    for v in [vec![], vec![5u32], vec![5, 6], vec![5, 6, 7]] {
        let mut d = vec![0xeeu8; 20];
        let e = f.exec_marshall(&v, &mut d, 2);
        assert!(e == 18 && d[..2] == [0xee; 2] && d[18..] == [0xee; 2]);
        assert!(f.try_parse(&Slice{ start: 2, end: 18 }, &d) == Some(v));
    }
''', "a sequence that fills the format to capacity",
"the last element of a full sequence is never written; it parses back as whatever the buffer held")

marsh("r09-long-sequence-truncated", "P15", [(M + "UniformSizedSeq_v.rs", '''                    assume( false );    // proof rotted
                    let oelt''', '''                    assume( false );    // proof rotted
                    if i == u16::MAX as usize { break; }
                    let oelt''')], '''
    let f = UniformSizedElementSeqFormat::new(IntFormat::<u8>::new());
    for n in [0usize, 1, 300, 65535, 65536, 70000] {
        let v: Vec<u8> = (0..n).map(|i| i as u8).collect();
        let mut d = vec![0u8; n + 3];
        let e = f.exec_marshall(&v, &mut d, 1);
        assert!(f.try_parse(&Slice{ start: 1, end: e }, &d) == Some(v));
    }
''' , "a sequence of more than 65535 elements", "parsing stops silently after 65535 elements and returns the prefix as the whole value")

marsh("r10-boundary-table-half-checked", "P15", [(M + "VariableSizedElementSeq_v.rs", '''                        return false;
                    }
                    i += 1;
''', '''                        return false;
                    }
                    if i + 2 < len { i += 2; } else { i += 1; }
''')], '''
    let v = VariableSizedElementSeqFormat::new(UniformSizedElementSeqFormat::new(IntFormat::<u8>::new()), IntFormat::<u16>::new(), IntFormat::<u8>::new(), 40);
    let mut d = vec![0u8; 40];
    let s = Slice::all(&d);
    v.initialize(&s, &mut d);
    v.exec_append(&s, &mut d, &vec![1u8, 2, 3]);
    v.exec_append(&s, &mut d, &vec![4u8]);
    v.exec_append(&s, &mut d, &vec![9u8]);
    v.exec_append(&s, &mut d, &vec![8u8]);
    assert!(v.exec_well_formed(&s, &d));
    for k in 0..3 {
        let mut e = d.clone();
        let at = e[1..9].iter().position(|b| *b == 37).unwrap();   // the first boundary entry
        let w = 2;
        e[1 + at + w * (k + 1)] = if k == 2 { 36 } else { 38 - k as u8 };
        assert!(!v.exec_well_formed(&s, &e) , "{} {:?}", k, &e[..9]);
    }
''', "a boundary table that is out of order between its second and third entries",
"the well-formedness check skips every other pair of entries and accepts a corrupted table")
