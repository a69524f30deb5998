#![allow(warnings)]
#![feature(custom_inner_attributes, never_type, rustc_attrs, stmt_expr_attributes, proc_macro_hygiene)]
pub mod abstract_system; pub mod allocation_layer; pub mod betree; pub mod disk; pub mod journal; pub mod marshalling; pub mod spec; pub mod exec;
mod util;
use util::*; use exec::MiniAllocator_v::*; use std::collections::HashSet;
fn round(r: &mut Rng, st: &mut Stats) {
    // any number of pages per unit up to 2^32-1; a unit is pruned and replaced at any moment
    let pages: u64 = match r.below(5) { 0 => r.range(1, 8) as u64, 1 => r.range(1, 70000) as u64, 2 => 256 + r.below(3), 3 => 65536 + r.below(3), _ => r.range(1, 600) as u64 };
    let mut m = MiniAllocator::empty(); let mut log = vec![];
    for _ in 0..r.range(1, 6) {
        let au = r.corner(32) as u32; m.add_aus(au);
        let mut seen = HashSet::new(); let n = if r.chance(1, 2) { pages } else { r.below(pages + 1) };
        for k in 0..n {
            let a = m.allocate_and_observe();
            st.evals += 1; st.ev("page handed out");
            if a.au != au { st.viol(format!("a page of unit {} was handed out while allocating from unit {} (page {} of {}, earlier units {:?})", a.au, au, k, pages, log)); return }
            if a.page as u64 >= pages { st.viol(format!("page {} was handed out of a unit of {} pages after {} allocations", a.page, pages, k)); return }
            if let Some(x) = &m.allocs { if x.observed != x.reserved { st.viol(format!("after allocating and observing {} pages, {} count as observed and {} as reserved", k + 1, x.observed, x.reserved)); return } }
            if !seen.insert(a.page) { st.viol(format!("page {} of unit {} was handed out twice within {} allocations of {} pages", a.page, au, k + 1, pages)); return }
        }
        st.seen(&(au, n, pages)); st.ev(if n == pages { "unit filled" } else { "unit left partly free" });
        m.prune(); st.ev("unit pruned"); log.push((au, n));
        if m.allocs.is_some() { st.viol("a pruned unit is still allocated from".into()); return }
    }
    // the page-level allocator: reserved pages stay distinct whether or not they have been observed yet
    let au = r.corner(32) as u32; let mut p = PageAllocator::new(au); let mut seen = HashSet::new(); let mut obs = 0u64;
    for k in 0..r.below(pages + 1).min(3000) {
        let a = p.reserve(); st.evals += 1; st.ev("page reserved");
        if a.au != au || a.page as u64 >= pages || !seen.insert(a.page) { st.viol(format!("reservation {} of {} pages gave page {} of unit {} (expected unit {}, unused, below the limit)", k, pages, a.page, a.au, au)); return }
        if p.observed as u64 != obs { st.viol(format!("a reservation changed the number of observed pages from {} to {}", obs, p.observed)); return }
        if r.chance(1, 4) { p.observe_all(); obs = k + 1; st.ev("observed"); if p.observed as u64 != obs || p.reserved as u64 != obs { st.viol(format!("after observing {} reserved pages, {} count as observed and {} as reserved", obs, p.observed, p.reserved)); return } }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect(); let seed: u64 = a[2].parse().unwrap(); let secs: f64 = a[3].parse().unwrap();
    let t0 = std::time::Instant::now(); let mut st = Stats::default(); let mut n = 0;
    while t0.elapsed().as_secs_f64() < secs && st.viol.is_empty() {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n));
        if let Err(e) = guard(|| round(&mut r, &mut st)) { st.viol(format!("panic: {}", e)); }
        if !st.viol.is_empty() { st.samples.insert(0, format!("violating round {} seed {}", n, seed)); }
        n += 1;
    }
    println!("RESULT {}", st.json());
}
