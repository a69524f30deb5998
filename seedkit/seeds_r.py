S = []
B = "Splinter/src/example/SimpleBank_v.rs"
MODS = " ".join("example/" + m for m in ("BankSpec_t", "BankContract_t", "Bank_v", "ClientAPI_t", "VerifiedEntry_t", "SimpleBank_v", "BankObligations_v"))
def b(id, edits, needs, breaks, main):
    S.append({"id": id, "property": "R01", "kit": "rust", "edits": edits, "needs": needs, "breaks": breaks, "demo": 'exec python3 "$here/rustdemo.py" demo.rs ' + MODS, "files": {"demo.rs": HEAD + main}})
HEAD = '''#![allow(warnings)]
#![feature(custom_inner_attributes, never_type, rustc_attrs, stmt_expr_attributes, proc_macro_hygiene)]
pub mod BankSpec_t; pub mod BankContract_t; pub mod Bank_v; pub mod ClientAPI_t; pub mod VerifiedEntry_t; pub mod SimpleBank_v; pub mod BankObligations_v;
use BankSpec_t::*; use SimpleBank_v::SimpleBank; use vstd::sched; use vstd::prelude::Tracked; use std::sync::{Arc, atomic::{AtomicBool, Ordering::SeqCst}};
fn t(b: &SimpleBank, from: usize, to: usize, amt: u32) -> bool { b.maybe_transfer(Request { input: Input { from, to, amt }, id: 7 }, Tracked::assume_new()).0.output.succeeded }
// runs the plans (one per thread) on two accounts of `init` under 400 schedules
fn schedules(init: u32, plans: Vec<Vec<(usize, usize, u32)>>, fin: Vec<u64>) {
    std::panic::set_hook(Box::new(|_| {}));
    for seed in 0..400u64 {
        let b = Arc::new(SimpleBank::_new(fin.len(), init)); let bad = Arc::new(AtomicBool::new(false));
        sched::start(plans.len(), seed * 77 + 1, 6, false);
        let hs: Vec<_> = plans.iter().cloned().enumerate().map(|(i, p)| { let (b, bad) = (b.clone(), bad.clone()); std::thread::spawn(move || {
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { sched::join(i); for (f, to, a) in p { t(&b, f, to, a); } })).is_err() { bad.store(true, SeqCst) } sched::leave(); }) }).collect();
        for h in hs { h.join().unwrap(); }
        sched::stop();
        if bad.load(SeqCst) { println!("seed {}: threads stuck or panicked", seed); std::process::exit(1) }
        let v: Vec<u64> = (0..fin.len()).map(|i| b.check_value(i)).collect();
        if v != fin { println!("seed {}: balances {:?} instead of {:?}", seed, v, fin); std::process::exit(1) }
    }
}
'''
b("R01-lockorder", [(B, ") =  if from < to {", ") =  if from < to || amt == 0 {")], "two threads moving nothing in opposite directions between the same accounts at the same moment",
  "transfers of zero take the locks in the order of the request, so two of them can block each other for ever",
  "fn main() { schedules(5, vec![vec![(0, 1, 0); 3], vec![(1, 0, 0); 3]], vec![5, 5]); }")
b("R01-stale", [(B, "        let (\n            (from_acc, from_handle),", "        let known = self.check_value(to) as u32;\n        let (\n            (from_acc, from_handle),"),
  (B, "let new_to_acc = AccountInfo{amt: (to_amt + amt) as u32,", "let new_to_acc = AccountInfo{amt: (if known <= u32::MAX - amt {known} else {to_amt}) + amt,")],
  "two threads crediting the same account, one of them between the other's look and its lock", "a credit is added to a balance read before the account was locked, so a concurrent transfer is lost",
  "fn main() { schedules(50, vec![vec![(0, 1, 1); 2], vec![(2, 1, 2); 2]], vec![48, 56, 46]); }")
b("R01-brim", [(B, "to_acc.amt <= u32::MAX - amt {", "to_acc.amt < u32::MAX - amt {")], "a transfer that fills the receiving account to exactly 2^32-1",
  "a transfer that fits exactly is refused",
  "fn main() { let b = SimpleBank::_new(3, u32::MAX - 2); assert!(t(&b, 0, 1, 1) && b.check_value(1) == u32::MAX as u64 - 1); assert!(t(&b, 2, 1, 1), \"a transfer that fits exactly was refused\"); assert!(!t(&b, 2, 1, 1)); }")
I = "Splinter/src/implementation/Implementation_v.rs"
KVMAIN = open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "../rust/harness/kv_main.rs")).read().replace('    println!("RESULT {}", st.json());', '    for v in &st.viol { println!("{}", v); }\n    if !st.viol.is_empty() { std::process::exit(1) }')
def k(id, edits, needs, breaks):
    S.append({"id": id, "property": "R02", "kit": "kv", "edits": edits, "needs": needs, "breaks": breaks, "demo": 'exec python3 "$here/rustdemo.py" demo.rs spec trusted implementation marshalling abstract_system disk journal --kv', "files": {"demo.rs": KVMAIN}})
k("R02-joinflight", [(I, "        self.sync_requests.deferred_reqs.push(req);\n", "        if self.sync_requests.exec_in_flight() && self.sync_requests.deferred_reqs.len() == 0 { self.sync_requests.satisfied_reqs.push(req); } else { self.sync_requests.deferred_reqs.push(req); }\n")],
  "a sync requested after an insertion while a superblock write is outstanding", "the sync is answered when the earlier write completes, which does not contain the insertion")
k("R02-norelaunch", [(I, "        self.deliver_inflight_replies(&mut ready_reqs, api);\n", "        let several = ready_reqs.len() > 1;\n        self.deliver_inflight_replies(&mut ready_reqs, api);\n        if several { return; }\n")],
  "two or more syncs covered by one superblock write while another sync waits for the next", "the waiting sync is never started, so it is never answered unless someone asks again")
S.append({"id": "R03-wide", "property": "R03", "kit": "rust", "edits": [("Splinter/src/exec/MiniAllocator_v.rs", "self.reserved = self.reserved+1;", "self.reserved = (self.reserved as u16) as u32 + 1;")],
  "needs": "more than 65536 pages taken from one unit", "breaks": "the page counter wraps, so pages are handed out again", "demo": 'exec python3 "$here/rustdemo.py" demo.rs abstract_system allocation_layer betree disk journal marshalling spec exec',
  "files": {"demo.rs": '''#![allow(warnings)]
#![feature(custom_inner_attributes, never_type, rustc_attrs, stmt_expr_attributes, proc_macro_hygiene)]
pub mod abstract_system; pub mod allocation_layer; pub mod betree; pub mod disk; pub mod journal; pub mod marshalling; pub mod spec; pub mod exec;
fn main() { let mut m = exec::MiniAllocator_v::MiniAllocator::empty(); m.add_aus(3); for k in 0..70000u32 { let a = m.allocate_and_observe(); assert!(a.au == 3 && a.page == k, "allocation {} gave page {}", k, a.page); } }
'''}})
