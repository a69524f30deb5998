// The outside world of the sequential store: a seeded script of user requests and a disk, with the monitors.
use crate::util::*;
use crate::trusted::ReqReply_t::*;
use crate::spec::KeyType_t::Key;
use crate::spec::Messages_t::{Message, Value};
use crate::spec::ImplDisk_t::*;
use crate::implementation::DiskLayout_v::{ISuperblock, Journal};
use std::cell::RefCell;
use std::collections::BTreeMap;
pub struct World {
    pub r: Rng, pub left: usize, pub next: u64, pub puts: Vec<(u64, u64)>, pub reqs: BTreeMap<u64, (char, usize, usize)>, // id -> kind, puts before it, replies
    pub page: Option<Vec<(u64, u64)>>, pub flight: Vec<(u64, bool, Vec<(u64, u64)>)>, pub done: Vec<(u64, bool, Vec<(u64, u64)>)>,
    pub disk: Vec<(u64, u64)>, pub last_written: usize, pub trace: Vec<String>, pub st: Stats, pub idle: usize, pub slow: u64, pub mix: u64, pub finished: bool, pub reading: bool,
}
thread_local! { pub static W: RefCell<Option<World>> = const { RefCell::new(None) }; }
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R { W.with(|w| f(w.borrow_mut().as_mut().unwrap())) }
pub const STOP: &str = "END OF SCRIPT";
impl World {
    pub fn new(mut r: Rng, len: usize) -> World {
        let slow = r.below(12); let mix = r.below(4); let next = if r.chance(1, 4) { r.next() >> 2 } else { r.below(9) };
        World { r, left: len, next, puts: vec![], reqs: BTreeMap::new(), page: None, flight: vec![], done: vec![], disk: vec![], last_written: 0, trace: vec![], st: Stats::default(), idle: 0, slow, mix, finished: false, reading: false }
    }
    fn viol(&mut self, s: String) { let n = self.trace.len(); let t = self.trace[n.saturating_sub(40)..].join("; "); if self.st.viol.is_empty() { self.st.viol(format!("{}. Last steps: {}", s, t)); } }
    fn tr(&mut self, s: String) { self.trace.push(s); if self.trace.len() > 400 { self.trace.drain(0..200); } }
    pub fn poll(&mut self) -> (bool, bool) {
        if !self.flight.is_empty() && (self.left == 0 || self.r.below(12) >= self.slow) { let i = 0; let x = self.flight.remove(i); self.done.push(x); }
        let u = self.left > 0; let d = !self.done.is_empty();
        if !u && !d {
            if self.flight.is_empty() { self.idle += 1; if self.idle > 3 { self.finished = true; std::panic::panic_any(STOP.to_string()); } return (false, false); }
            let x = self.flight.remove(0); self.done.push(x); return (false, true);
        }
        match (u, d) { (true, true) => match self.r.below(3) { 0 => (true, false), 1 => (false, true), _ => (true, true) }, x => x }
    }
    pub fn request(&mut self) -> Request {
        if self.left == 0 { self.finished = true; self.viol("the store waits for a user request although none was announced".into()); std::panic::panic_any(STOP.to_string()); }
        self.left -= 1; self.idle = 0;
        let id = self.next; self.next += 1 + self.r.below(3);
        let k = match (self.mix, self.r.below(10)) { (0, 0..=6) => 'p', (0, _) => 's', (1, 0..=2) => 'p', (1, 3..=8) => 's', (2, 0..=3) => 'n', (_, x) => ['p', 'p', 'p', 'p', 's', 's', 'n', 'p', 's', 'n'][x as usize] };
        let key = if self.r.chance(1, 3) { self.r.corner(64) } else { self.r.below(5) }; let val = self.r.corner(64);
        let before = self.puts.len();
        let input = match k { 'p' => { self.puts.push((key, val)); Input::PutInput { key: Key(key), value: Value(val) } } 's' => Input::SyncInput, _ => Input::NoopInput };
        self.reqs.insert(id, (k, before, 0));
        self.st.evals += 1; self.st.ev(match k { 'p' => "put", 's' => "sync", _ => "noop" });
        if k == 's' && !(self.flight.is_empty() && self.done.is_empty()) { self.st.ev("sync asked while a superblock write was outstanding"); }
        self.tr(format!("request {} {}", id, match k { 'p' => format!("put {}={}", key, val), 's' => "sync".into(), _ => "noop".into() }));
        Request { input, id: id as _ }
    }
    pub fn reply(&mut self, r: Reply) {
        let id = r.id as u64; let k = match r.output { Output::PutOutput => 'p', Output::SyncOutput => 's', Output::NoopOutput => 'n', _ => 'q' };
        self.tr(format!("reply {} {}", id, k));
        match self.reqs.get_mut(&id) {
            None => self.viol(format!("a reply to request {} that was never made", id)),
            Some(x) => { x.2 += 1; let x = *x;
                if x.2 > 1 { self.viol(format!("request {} was answered twice", id)); }
                if x.0 != k { self.viol(format!("request {} of kind {} was answered with kind {}", id, x.0, k)); }
                if k == 's' { self.st.ev("sync answered"); self.st.seen(&(x.1, self.disk.len(), self.puts.len(), self.done.len(), self.flight.len(), id));
                    if self.disk.len() < x.1 { self.viol(format!("sync {} was answered while the disk holds {} of the {} insertions made before it", id, self.disk.len(), x.1)); } }
            }
        }
    }
    pub fn send(&mut self, d: IDiskRequest) -> u64 {
        let id = self.next; self.next += 1 + self.r.below(3); self.idle = 0;
        match d {
            IDiskRequest::ReadReq { from } => { self.tr(format!("read {} {}", from.au, from.page));
                if (from.au, from.page) != (0, 0) { self.viol(format!("a read of page {}.{} instead of the superblock", from.au, from.page)); }
                let c = self.disk.clone(); self.flight.push((id, true, c)); }
            IDiskRequest::WriteReq { to, .. } => {
                let p = self.page.take();
                self.tr(format!("write {}.{} of {:?} insertions", to.au, to.page, p.as_ref().map(|x| x.len())));
                if (to.au, to.page) != (0, 0) { self.viol(format!("the superblock went to page {}.{}", to.au, to.page)); }
                if self.flight.iter().chain(&self.done).any(|x| !x.1) { self.viol("a second superblock write while one is outstanding".into()); }
                match p { None => self.viol("a superblock write of a page that was not produced for it".into()),
                    Some(p) => {
                        if p.len() > self.puts.len() || p[..] != self.puts[..p.len()] { self.viol(format!("the superblock's insertions {:?} are not those accepted, in order: {:?}", &p[..p.len().min(12)], &self.puts[..self.puts.len().min(12)])); }
                        if p.len() < self.last_written { self.viol(format!("a superblock with {} insertions after one with {}", p.len(), self.last_written)); }
                        self.last_written = p.len(); self.st.ev("superblock write"); self.st.seen(&(&p, id)); self.flight.push((id, false, p)); } }
            }
        }
        id
    }
    pub fn response(&mut self) -> (u64, bool) {
        if self.done.is_empty() && !self.flight.is_empty() { let x = self.flight.remove(0); self.done.push(x); }
        if self.done.is_empty() { self.finished = true; self.viol("the store waits for a disk response although nothing is outstanding".into()); std::panic::panic_any(STOP.to_string()); }
        self.idle = 0;
        let (id, rd, c) = self.done.remove(0);
        self.tr(format!("{} done", if rd { "read" } else { "write" }));
        if !rd { self.disk = c; self.st.ev("superblock durable"); }
        (id, rd)
    }
    pub fn end(&mut self) {
        let miss: Vec<_> = self.reqs.iter().filter(|x| x.1.2 == 0).map(|x| (*x.0, x.1.0)).take(5).collect();
        if self.finished && !miss.is_empty() { self.viol(format!("with the disk idle, requests {:?} are still unanswered", miss)); }
    }
}
pub fn marshall(sb: &ISuperblock) -> vstd::seq::Seq<u8> {
    let p: Vec<(u64, u64)> = sb.journal.msg_history.iter().map(|m| (m.key.0, match &m.message { Message::Define { value } => value.0, _ => u64::MAX - 1 })).collect();
    with(|w| { if sb.journal.seq_start != 0 { w.viol(format!("the superblock claims to start at operation {}", sb.journal.seq_start)); } w.page = Some(p) });
    page()
}
pub fn page() -> vstd::seq::Seq<u8> { vstd::seq::Seq::shell() }
pub fn unmarshall(p: &vstd::seq::Seq<u8>) -> ISuperblock { ISuperblock { journal: Journal { msg_history: vec![], seq_start: 0 } } }
