#![allow(warnings)]
#![feature(custom_inner_attributes, never_type, rustc_attrs, stmt_expr_attributes, proc_macro_hygiene)]
pub mod marshalling;
mod util; mod marsh;
use util::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str(); let seed: u64 = a[2].parse().unwrap(); let secs: f64 = a[3].parse().unwrap(); let max: u64 = a[4].parse().unwrap();
    let t0 = std::time::Instant::now();
    let mut st = Stats::default();
    let mut round = 0;
    while round < max && t0.elapsed().as_secs_f64() < secs && st.viol.is_empty() {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(round));
        match prop { "M01" => marsh::round(1, &mut r, &mut st), "M02" => marsh::round(2, &mut r, &mut st), "M03" => marsh::round(3, &mut r, &mut st), _ => panic!("unknown") }
        if !st.viol.is_empty() { st.samples.insert(0, format!("violating round {} seed {}", round, seed)); }
        round += 1;
    }
    st.evn("rounds", round);
    println!("RESULT {}", st.json());
}
