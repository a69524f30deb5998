#![allow(warnings)]
#![feature(custom_inner_attributes, never_type, rustc_attrs, stmt_expr_attributes, proc_macro_hygiene)]
pub mod spec; pub mod trusted; pub mod implementation; pub mod marshalling; pub mod abstract_system; pub mod disk; pub mod journal;
mod util; mod kv_env;
use util::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap(); let secs: f64 = a[3].parse().unwrap();
    let t0 = std::time::Instant::now(); let mut st = Stats::default(); let mut round = 0;
    while t0.elapsed().as_secs_f64() < secs && st.viol.is_empty() {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(round));
        let len = match r.below(4) { 0 => r.range(1, 6), 1 => r.range(100, 600), _ => r.range(5, 60) };
        let mut w = kv_env::World::new(r, len); w.st = st;
        kv_env::W.with(|x| *x.borrow_mut() = Some(w));
        let e = guard(|| trusted::TrustedEntry_t::entry::<implementation::Implementation_v::Implementation>());
        let mut w = kv_env::W.with(|x| x.borrow_mut().take().unwrap());
        w.end();
        st = w.st; st.ev("histories");
        match e { Err(m) if m == kv_env::STOP => {} Err(m) => st.viol(format!("the store panicked: {}. Last steps: {:?}", m, w.trace.iter().rev().take(12).collect::<Vec<_>>())), Ok(()) => st.viol("the store's main loop ended".into()) }
        if st.samples.len() < 3 { st.sample(w.trace[..w.trace.len().min(14)].join("; ")); }
        if !st.viol.is_empty() { st.samples.insert(0, format!("violating round {} seed {}", round, seed)); }
        round += 1;
    }
    println!("RESULT {}", st.json());
}
