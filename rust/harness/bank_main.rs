#![allow(warnings)]
#![feature(custom_inner_attributes, never_type, rustc_attrs, stmt_expr_attributes, proc_macro_hygiene)]
// The bank example under scheduled and free-running threads.
pub mod BankSpec_t; pub mod BankContract_t; pub mod Bank_v; pub mod ClientAPI_t; pub mod VerifiedEntry_t; pub mod SimpleBank_v; pub mod BankObligations_v;
mod util;
use util::*;
use BankSpec_t::*; use BankContract_t::*; use SimpleBank_v::SimpleBank;
use vstd::sched;
use vstd::prelude::Tracked;
use std::collections::{HashSet, HashMap};
use std::sync::{Arc, Mutex, atomic::{AtomicU64, AtomicBool, Ordering::SeqCst}};
use std::time::{Duration, Instant};

fn transfer(b: &SimpleBank, id: u64, from: usize, to: usize, amt: u32) -> (bool, u64) {
    let (r, _) = b.maybe_transfer(Request { input: Input { from, to, amt }, id }, Tracked::assume_new());
    (r.output.succeeded, r.id)
}
fn ok(bal: &[u32], from: usize, to: usize, amt: u32) -> bool {
    from != to && from < bal.len() && to < bal.len() && bal[from] >= amt && bal[to] as u64 + amt as u64 <= u32::MAX as u64
}
#[derive(Clone, Debug)] enum Op { T(usize, usize, u32), C(usize) }
#[derive(Clone, Debug)] struct Ev { th: usize, op: Op, inv: u64, res: u64, ret: u64 }

// some order of the operations, respecting real time, that explains every answer and the final balances
fn linearizable(h: &[Ev], init: Vec<u32>, fin: &[u32], seen: &mut HashSet<(u64, Vec<u32>)>, done: u64) -> bool {
    if done == (1u64 << h.len()) - 1 { return init == fin }
    if !seen.insert((done, init.clone())) { return false }
    let lim = (0..h.len()).filter(|i| done >> i & 1 == 0).map(|i| h[i].res).min().unwrap();
    for i in 0..h.len() {
        if done >> i & 1 == 1 || h[i].inv > lim { continue }
        match h[i].op {
            Op::C(a) => if init[a] as u64 == h[i].ret && linearizable(h, init.clone(), fin, seen, done | 1 << i) { return true },
            Op::T(f, t, a) => {
                let w = ok(&init, f, t, a);
                if w as u64 != h[i].ret { continue }
                let mut b = init.clone();
                if w { b[f] -= a; b[t] += a; }
                if linearizable(h, b, fin, seen, done | 1 << i) { return true }
            }
        }
    }
    false
}
fn amount(r: &mut Rng, init: u32) -> u32 {
    match r.below(8) { 0 => 0, 1 => init, 2 => init.wrapping_add(1), 3 => u32::MAX - init, 4 => r.corner(32) as u32, _ => r.below(init as u64 / 2 + 2) as u32 }
}
fn scheduled(r: &mut Rng, st: &mut Stats) {
    let n = r.range(2, 4); let nt = r.range(2, 4);
    let init: u32 = match r.below(4) { 0 => 1, 1 => r.below(20) as u32, 2 => u32::MAX - r.below(10) as u32, _ => u32::MAX / 2 + r.below(5) as u32 };
    let mut plan: Vec<Vec<(Op, u64)>> = vec![];
    let mut id = r.next() >> 8;
    for _ in 0..nt { let k = r.range(1, 5); let mut v = vec![]; for _ in 0..k {
        id += 1;
        let o = if r.chance(1, 5) { Op::C(r.us(n)) } else {
            let far = r.chance(1, 12);
            let f = if far && r.chance(1, 2) { n + r.us(3) } else { r.us(n) };
            let t = if far && r.chance(1, 2) { n + r.us(3) } else if r.chance(1, 12) { f } else { (f + 1 + r.us(n - 1)) % n };
            Op::T(f, t, amount(r, init)) };
        v.push((o, id)); } plan.push(v); }
    let bank = Arc::new(SimpleBank::_new(n, init));
    let seed = r.next(); let pct = r.chance(1, 3); let stick = r.below(15);
    sched::start(nt, seed, stick, pct);
    let clock = Arc::new(AtomicU64::new(1));
    let out: Arc<Mutex<(Vec<Ev>, Vec<String>)>> = Arc::new(Mutex::new((vec![], vec![])));
    let hs: Vec<_> = (0..nt).map(|t| { let (bank, clock, out, plan) = (bank.clone(), clock.clone(), out.clone(), plan[t].clone());
        std::thread::spawn(move || {
            let res = guard(|| { sched::join(t); for (op, id) in plan {
                sched::yield_point();
                let inv = clock.fetch_add(1, SeqCst);
                let ret = match op { Op::C(a) => bank.check_value(a), Op::T(f, to, a) => { let (s, rid) = transfer(&bank, id, f, to, a);
                    if rid != id { out.lock().unwrap().1.push(format!("request {} was answered with a reply to request {}", id, rid)); } s as u64 } };
                let res = clock.fetch_add(1, SeqCst);
                out.lock().unwrap().0.push(Ev { th: t, op, inv, res, ret });
            } });
            if let Err(e) = res { out.lock().unwrap().1.push(if e.contains("SCHED") { "deadlock".into() } else { format!("panic: {}", e) }); }
            sched::leave();
        }) }).collect();
    for h in hs { let _ = h.join(); }
    let (steps, switches, hash, dead) = sched::stop();
    let o = out.lock().unwrap();
    st.evals += 1; st.evn("scheduling decisions", steps); st.evn("thread switches", switches); st.ev("scheduled histories");
    st.seen(&(hash, format!("{:?}", o.0)));
    let desc = || format!("{} accounts of {}, schedule seed {}, plan {:?}, history {:?}", n, init, seed, plan, o.0);
    if dead { st.viol(format!("deadlock: no thread can run. {}", desc())); return }
    if let Some(x) = o.1.first() { st.viol(format!("{}. {}", x, desc())); return }
    for e in &o.0 { match e.op { Op::C(_) => st.ev("balance read"), Op::T(..) => st.ev(if e.ret == 1 { "transfer done" } else { "transfer refused" }) } }
    let fin: Vec<u32> = (0..n).map(|i| bank.check_value(i) as u32).collect();
    let tot: u64 = fin.iter().map(|x| *x as u64).sum();
    if tot != n as u64 * init as u64 { st.viol(format!("money appeared or vanished: total {} instead of {}. {}", tot, n as u64 * init as u64, desc())); return }
    if bank.get_total() != tot { st.viol(format!("the reported total {} is not the sum of the balances {}", bank.get_total(), tot)); return }
    if !linearizable(&o.0, vec![init; n], &fin, &mut HashSet::new(), 0) { st.viol(format!("no order of the operations explains the answers and final balances {:?}. {}", fin, desc())); return }
    if st.samples.len() < 3 { st.sample(format!("{} threads, {} switches, history {:?}, final {:?}", nt, switches, o.0, fin)); }
}
fn sequential(r: &mut Rng, st: &mut Stats) {
    let n = match r.below(4) { 0 => r.range(0, 3), 1 => 1000, _ => r.range(1, 200) };
    let init = if n == 1000 { 15 } else { r.corner(32) as u32 };
    let b = if n == 1000 { SimpleBank::new() } else { SimpleBank::_new(n, init) };
    let mut m = vec![init; n];
    for k in 0..r.range(10, 400) {
        let f = match r.below(10) { 0 => n, 1 => r.corner(64) as usize, _ => r.us(n.max(1)) };
        let t = match r.below(10) { 0 => n, 1 => r.corner(64) as usize, 2 => f, _ => r.us(n.max(1)) };
        let a = match r.below(6) { 0 => m.get(f).copied().unwrap_or(3), 1 => m.get(f).copied().unwrap_or(3).wrapping_add(1), 2 => u32::MAX - m.get(t).copied().unwrap_or(3), 3 => (u32::MAX - m.get(t).copied().unwrap_or(3)).wrapping_add(1), _ => amount(r, init) };
        let id = r.corner(64);
        let w = ok(&m, f, t, a);
        let (s, rid) = transfer(&b, id, f, t, a);
        st.evals += 1; st.ev(if s { "transfer done" } else { "transfer refused" }); st.seen(&(n, init, f, t, a, m.get(f).copied(), m.get(t).copied()));
        if rid != id { st.viol(format!("request {} was answered with a reply to request {}", id, rid)); return }
        if s != w { st.viol(format!("a transfer of {} from account {} (holding {:?}) to {} (holding {:?}), {} accounts, was {}", a, f, m.get(f), t, m.get(t), n, if s { "done" } else { "refused" })); return }
        if w { m[f] -= a; m[t] += a; }
        for x in [f, t] { if x < n && b.check_value(x) != m[x] as u64 { st.viol(format!("account {} holds {} instead of {} after a transfer of {} from {} to {} ({})", x, b.check_value(x), m[x], a, f, t, if w { "done" } else { "refused" })); return } }
    }
    for x in 0..n { if b.check_value(x) != m[x] as u64 { st.viol(format!("account {} of {} holds {} instead of {}", x, n, b.check_value(x), m[x])); return } st.ev("balance read"); }
    let tot: u64 = m.iter().map(|x| *x as u64).sum();
    if b.get_total() != tot { st.viol(format!("the reported total {} is not the sum of the balances {}", b.get_total(), tot)); }
}
fn stress(r: &mut Rng, st: &mut Stats) {
    let n = r.range(2, 9); let nt = 6; let init = if r.chance(1, 3) { u32::MAX - 50 } else { r.range(5, 100) as u32 };
    let bank = Arc::new(SimpleBank::_new(n, init));
    let prog = Arc::new(AtomicU64::new(0)); let left = Arc::new(AtomicU64::new(nt as u64));
    let sums: Arc<Mutex<Vec<i64>>> = Arc::new(Mutex::new(vec![0; n]));
    let bad: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let done = Arc::new(AtomicU64::new(0));
    let c0 = vstd::rwlock::CONTENDED.load(SeqCst);
    let mut hs = vec![];
    for t in 0..nt { let (bank, prog, left, sums, bad, done) = (bank.clone(), prog.clone(), left.clone(), sums.clone(), bad.clone(), done.clone()); let mut r = Rng::new(r.next());
        hs.push(std::thread::spawn(move || { let e = guard(|| {
            let mut d = vec![0i64; n]; let mut k = 0;
            for i in 0..3000u64 {
                let f = r.us(n); let to = r.us(n + 1); let a = r.below(20) as u32; let id = (t as u64) << 32 | i;
                let (s, rid) = transfer(&bank, id, f, to, a);
                if rid != id { bad.lock().unwrap().push("reply to another request".into()); }
                if s && (f == to || to >= n) { bad.lock().unwrap().push("an invalid transfer was done".into()); return }
                if s { d[f] -= a as i64; d[to] += a as i64; k += 1; }
                if i % 64 == 0 { let v = bank.check_value(f); if v > u32::MAX as u64 { bad.lock().unwrap().push("balance out of range".into()); } }
                prog.fetch_add(1, SeqCst);
            }
            let mut s = sums.lock().unwrap(); for i in 0..n { s[i] += d[i]; } done.fetch_add(k, SeqCst);
        }); if let Err(e) = e { bad.lock().unwrap().push(e); } left.fetch_sub(1, SeqCst); })); }
    let mut last = (0, Instant::now());
    while left.load(SeqCst) > 0 {
        std::thread::sleep(Duration::from_micros(300));
        let p = prog.load(SeqCst);
        if p != last.0 { last = (p, Instant::now()) }
        if last.1.elapsed() > Duration::from_secs(60) { st.viol(format!("{} free-running threads on {} accounts made no progress for 60 s after {} transfers", nt, n, p)); return }
    }
    for h in hs { let _ = h.join(); }
    st.evals += prog.load(SeqCst); st.evn("transfer done", done.load(SeqCst)); st.ev("stress runs"); st.evn("contended acquisitions", vstd::rwlock::CONTENDED.load(SeqCst) - c0);
    if let Some(x) = bad.lock().unwrap().first() { st.viol(format!("free-running threads: {}", x)); return }
    let s = sums.lock().unwrap();
    for i in 0..n { let w = init as i64 + s[i]; if bank.check_value(i) as i64 != w { st.viol(format!("free-running threads: account {} holds {} but the answered transfers add up to {}", i, bank.check_value(i), w)); return } }
    if bank.get_total() != n as u64 * init as u64 { st.viol(format!("free-running threads: the total is {} instead of {}", bank.get_total(), n as u64 * init as u64)); }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mode = a[1].as_str(); let seed: u64 = a[2].parse().unwrap(); let secs: f64 = a[3].parse().unwrap();
    if mode == "entry" { VerifiedEntry_t::entry::<SimpleBank>(); return }
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now(); let mut st = Stats::default(); let mut round = 0;
    while t0.elapsed().as_secs_f64() < secs && st.viol.is_empty() {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(round));
        let e = guard(|| match mode { "sched" => scheduled(&mut r, &mut st), "seq" => sequential(&mut r, &mut st), "stress" => stress(&mut r, &mut st), _ => panic!("mode") });
        if let Err(e) = e { st.viol(format!("panic: {}", e)); }
        if !st.viol.is_empty() { st.samples.insert(0, format!("violating round {} seed {} mode {}", round, seed, mode)); }
        round += 1;
    }
    println!("RESULT {}", st.json());
    std::process::exit(0); // stuck threads of a deadlocked stress run
}
