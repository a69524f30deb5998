// Erased-mode stand-in for Verus' vstd: only what *executable* code of Splinter/src can reach.
// Ghost code (spec/proof) never survives the erasing macros, so spec types are empty shells here.
#![allow(warnings)]
extern crate verus_builtin;
pub mod prelude {
    pub use verus_builtin::*;
    pub use verus_builtin_macros::*;
    pub use crate::{seq::*, map::*, set::*, multiset::*, view::*, pervasive::*, tokens::*, modes::*, string::*, slice::*, hash_map::*, std_specs::hash::*};
    pub use crate::{seq, map, set, multiset, view, pervasive, tokens, modes, string, slice, bytes, math, rwlock, thread, invariant, calc_macro, seq_lib, set_lib, map_lib, hash_map};
    pub use crate::{calc};
}
pub mod view { 
    pub trait View { type V; } pub trait DeepView { type V; }
    macro_rules! id { ($($t:ty),*) => { $(impl View for $t { type V=$t; } impl DeepView for $t { type V=$t; })* } }
    id!(u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize,bool,char,());
    impl<T> View for Vec<T> { type V = crate::seq::Seq<T>; }
    impl<T> View for [T] { type V = crate::seq::Seq<T>; }
    impl<T> View for Option<T> { type V = Option<T>; }
    impl<A: View + ?Sized> View for &A { type V = A::V; }
    impl<A: View> View for Box<A> { type V = A::V; }
    impl<A: View> View for std::sync::Arc<A> { type V = A::V; }
    impl View for str { type V = crate::seq::Seq<char>; }
    impl View for String { type V = crate::seq::Seq<char>; }
}
macro_rules! shell { ($n:ident < $($p:ident),* >) => {
    pub struct $n<$($p),*>(std::marker::PhantomData<($($p,)*)>);
    impl<$($p),*> $n<$($p),*> { pub fn shell() -> Self { $n(std::marker::PhantomData) } }
    impl<$($p),*> Clone for $n<$($p),*> { fn clone(&self) -> Self { $n(std::marker::PhantomData) } }
    impl<$($p),*> Copy for $n<$($p),*> {}
    impl<$($p),*> std::fmt::Debug for $n<$($p),*> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, stringify!($n)) } }
    impl<$($p),*> PartialEq for $n<$($p),*> { fn eq(&self, _: &Self) -> bool { panic!("spec equality executed") } }
    impl<$($p),*> Eq for $n<$($p),*> {}
    impl<$($p),*> std::hash::Hash for $n<$($p),*> { fn hash<H: std::hash::Hasher>(&self, _: &mut H) { } }
    impl<$($p),*> PartialOrd for $n<$($p),*> { fn partial_cmp(&self, _: &Self) -> Option<std::cmp::Ordering> { panic!() } }
    impl<$($p),*> Ord for $n<$($p),*> { fn cmp(&self, _: &Self) -> std::cmp::Ordering { panic!() } }
} }
pub mod seq { shell!(Seq<A>); }
pub mod map { shell!(Map<K, V>); }
pub mod set { shell!(Set<A>); }
pub mod multiset { shell!(Multiset<V>); }
pub mod seq_lib {} pub mod set_lib {} pub mod map_lib {} pub mod math {} pub mod calc_macro {}
#[macro_export] macro_rules! calc { ($($t:tt)*) => {} }
pub mod modes { pub use crate::pervasive::*; }
pub mod tokens {
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)] pub struct InstanceId;
    pub trait SimpleToken {} pub trait ValueToken<V> {} pub trait KeyValueToken<K, V> {} pub trait CountToken {}
    pub trait ElementToken<E> {} pub trait MonotonicCountToken {}
    pub trait UniqueToken {} pub trait UniqueSimpleToken {} pub trait UniqueValueToken<V> {} pub trait UniqueKeyValueToken<K, V> {} pub trait UniqueElementToken<E> {} pub trait KeyToken<K> {} pub trait UniqueKeyToken<K> {}
    pub struct MapToken<K, V, T>(std::marker::PhantomData<(K, V, T)>);
    pub struct IMapToken<K, V, T>(std::marker::PhantomData<(K, V, T)>);
    pub struct ISetToken<E, T>(std::marker::PhantomData<(E, T)>);
    pub struct SetToken<E, T>(std::marker::PhantomData<(E, T)>);
    pub struct MultisetToken<E, T>(std::marker::PhantomData<(E, T)>);
}
pub mod state_machine_internal {
    #[derive(Debug)] pub struct NoCopy {}
    pub struct SyncSendIfSyncSend<T>(std::marker::PhantomData<T>);
    impl<T> Clone for SyncSendIfSyncSend<T> { fn clone(&self) -> Self { SyncSendIfSyncSend(std::marker::PhantomData) } }
    impl<T> Copy for SyncSendIfSyncSend<T> {}
}
pub mod string { pub use crate::view::*; }
pub mod slice {
    pub fn slice_subrange<T>(s: &[T], i: usize, j: usize) -> &[T] { &s[i..j] }
    pub fn slice_index_get<T>(s: &[T], i: usize) -> &T { &s[i] }
    pub fn slice_to_vec<T: Copy>(s: &[T]) -> Vec<T> { s.to_vec() }
}
pub mod bytes {
    // the real vstd functions demand the exact length
    macro_rules! b { ($t:ident $f:ident $g:ident) => {
        pub fn $f(s: &[u8]) -> $t { $t::from_le_bytes(s.try_into().unwrap()) }
        pub fn $g(x: $t) -> Vec<u8> { x.to_le_bytes().to_vec() } } }
    b!(u16 u16_from_le_bytes u16_to_le_bytes); b!(u32 u32_from_le_bytes u32_to_le_bytes);
    b!(u64 u64_from_le_bytes u64_to_le_bytes); b!(u128 u128_from_le_bytes u128_to_le_bytes);
}
pub mod pervasive {
    pub use verus_builtin::*;
    pub fn unreached<A>() -> A { panic!("unreached_external") }
    pub fn arbitrary<A>() -> A { unimplemented!() }
    pub fn print_u64(i: u64) { println!("{}", i); }
    pub fn runtime_assert(b: bool) { assert!(b) }
    pub trait VecAdditionalExecFns<T> { fn set(&mut self, i: usize, value: T); fn set_and_swap(&mut self, i: usize, value: &mut T); }
    impl<T> VecAdditionalExecFns<T> for Vec<T> {
        fn set(&mut self, i: usize, value: T) { self[i] = value; }
        fn set_and_swap(&mut self, i: usize, value: &mut T) { std::mem::swap(&mut self[i], value); }
    }
}
pub mod std_specs { pub mod hash {} pub mod vec { } pub mod option {} pub mod result {} pub mod cmp {} pub mod clone {} }
pub mod hash_map {
    use std::collections::HashMap;
    pub struct HashMapWithView<K, V> { m: HashMap<K, V> }
    impl<K: Eq + std::hash::Hash, V> HashMapWithView<K, V> {
        pub fn new() -> Self { HashMapWithView { m: HashMap::new() } }
        pub fn with_capacity(c: usize) -> Self { HashMapWithView { m: HashMap::with_capacity(c) } }
        pub fn reserve(&mut self, a: usize) { self.m.reserve(a) }
        pub fn is_empty(&self) -> bool { self.m.is_empty() }
        pub fn len(&self) -> usize { self.m.len() }
        pub fn insert(&mut self, k: K, v: V) { self.m.insert(k, v); }
        pub fn remove(&mut self, k: &K) { self.m.remove(k); }
        pub fn contains_key(&self, k: &K) -> bool { self.m.contains_key(k) }
        pub fn get<'a>(&'a self, k: &K) -> Option<&'a V> { self.m.get(k) }
        pub fn clear(&mut self) { self.m.clear() }
        pub fn union_prefer_right(&mut self, o: Self) { self.m.extend(o.m) }
    }
    impl<K, V> crate::view::View for HashMapWithView<K, V> { type V = crate::map::Map<K, V>; }
}
pub mod invariant { pub trait InvariantPredicate<K, V> {} }
// A seeded cooperative scheduler: registered threads run one at a time and hand over at lock operations.
pub mod sched {
    use std::sync::{Condvar, Mutex};
    use std::cell::Cell;
    #[derive(Clone, Copy, PartialEq, Debug)] enum S { Ready, Blocked(usize), Done }
    struct St { n: usize, joined: usize, cur: usize, st: Vec<S>, rng: u64, stick: u64, steps: u64, switches: u64, hash: u64, dead: bool, prio: Vec<u64>, pct: bool }
    static M: Mutex<Option<St>> = Mutex::new(None);
    static C: Condvar = Condvar::new();
    thread_local! { static ME: Cell<Option<usize>> = const { Cell::new(None) } }
    fn rnd(s: &mut St) -> u64 { s.rng = s.rng.wrapping_add(0x9E3779B97F4A7C15); let mut z = s.rng; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    /// n threads will take part; `stick`: out of 16, how often the running thread keeps running. pct: priority schedule with random change points
    pub fn start(n: usize, seed: u64, stick: u64, pct: bool) {
        let mut s = St { n, joined: 0, cur: usize::MAX, st: vec![S::Ready; n], rng: seed, stick, steps: 0, switches: 0, hash: 0, dead: false, prio: vec![], pct };
        for _ in 0..n { let r = rnd(&mut s); s.prio.push(r); }
        *M.lock().unwrap() = Some(s);
    }
    pub fn stop() -> (u64, u64, u64, bool) { let s = M.lock().unwrap().take().unwrap(); (s.steps, s.switches, s.hash, s.dead) }
    pub fn registered() -> bool { ME.with(|m| m.get().is_some()) }
    fn pick(s: &mut St, me: usize) {
        let ready: Vec<usize> = (0..s.n).filter(|i| s.st[*i] == S::Ready).collect();
        if ready.is_empty() { if s.st.iter().any(|x| matches!(x, S::Blocked(_))) { s.dead = true; } s.cur = usize::MAX; return; }
        s.steps += 1;
        let next = if s.pct {
            if rnd(s) % 12 == 0 && me < s.n { s.prio[me] = rnd(s) >> 20; }
            *ready.iter().max_by_key(|i| s.prio[**i]).unwrap()
        } else if ready.contains(&me) && rnd(s) % 16 < s.stick { me } else { ready[(rnd(s) % ready.len() as u64) as usize] };
        if next != me { s.switches += 1; }
        s.hash = (s.hash ^ next as u64).wrapping_mul(0x100000001b3);
        s.cur = next;
    }
    fn turn(me: usize, f: impl FnOnce(&mut St)) {
        let mut g = M.lock().unwrap();
        { let s = g.as_mut().unwrap(); f(s); }
        C.notify_all();
        loop {
            let s = g.as_ref().unwrap();
            if s.dead { drop(g); panic!("SCHED deadlock"); }
            if s.cur == me { return; }
            g = C.wait(g).unwrap();
        }
    }
    pub fn join(me: usize) { ME.with(|m| m.set(Some(me))); turn(me, |s| { s.joined += 1; if s.joined == s.n { pick(s, usize::MAX); } }); }
    pub fn yield_point() { if let Some(me) = ME.with(|m| m.get()) { turn(me, |s| pick(s, me)); } }
    pub fn block(addr: usize) { if let Some(me) = ME.with(|m| m.get()) { turn(me, |s| { s.st[me] = S::Blocked(addr); pick(s, me); }); } }
    pub fn wake(addr: usize) {
        if ME.with(|m| m.get()).is_none() { return }
        let mut g = M.lock().unwrap(); let s = g.as_mut().unwrap();
        for x in s.st.iter_mut() { if *x == S::Blocked(addr) { *x = S::Ready; } }
    }
    pub fn leave() {
        if let Some(me) = ME.with(|m| m.take()) { let mut g = M.lock().unwrap(); let s = g.as_mut().unwrap(); s.st[me] = S::Done; pick(s, me); C.notify_all(); }
    }
}
pub mod rwlock {
    // Like the real one, a handle that is dropped without being released leaves the lock held.
    use std::sync::{Mutex, Condvar, atomic::{AtomicU64, Ordering}};
    use std::cell::UnsafeCell;
    use std::marker::PhantomData;
    pub static CONTENDED: AtomicU64 = AtomicU64::new(0);
    pub trait RwLockPredicate<V>: Sized {}
    pub struct RwLock<V, Pred: RwLockPredicate<V>> { st: Mutex<(u32, bool)>, cv: Condvar, v: UnsafeCell<Option<V>>, p: PhantomData<fn() -> Pred> }
    unsafe impl<V: Send + Sync, Pred: RwLockPredicate<V>> Sync for RwLock<V, Pred> {}
    unsafe impl<V: Send, Pred: RwLockPredicate<V>> Send for RwLock<V, Pred> {}
    pub struct WriteHandle<'a, V, Pred: RwLockPredicate<V>> { l: &'a RwLock<V, Pred> }
    pub struct ReadHandle<'a, V, Pred: RwLockPredicate<V>> { l: &'a RwLock<V, Pred> }
    impl<V, Pred: RwLockPredicate<V>> RwLock<V, Pred> {
        pub fn new(v: V, _pred: verus_builtin::Ghost<Pred>) -> Self { RwLock { st: Mutex::new((0, false)), cv: Condvar::new(), v: UnsafeCell::new(Some(v)), p: PhantomData } }
        fn addr(&self) -> usize { &self.st as *const _ as usize }
        fn acquire(&self, write: bool) {
            crate::sched::yield_point();
            loop {
                let mut g = self.st.lock().unwrap();
                if !g.1 && (!write || g.0 == 0) { if write { g.1 = true } else { g.0 += 1 } return; }
                CONTENDED.fetch_add(1, Ordering::Relaxed);
                if crate::sched::registered() { drop(g); crate::sched::block(self.addr()); } else { drop(self.cv.wait(g).unwrap()); }
            }
        }
        fn release(&self, write: bool) {
            { let mut g = self.st.lock().unwrap(); if write { g.1 = false } else { g.0 -= 1 } self.cv.notify_all(); }
            crate::sched::wake(self.addr());
            crate::sched::yield_point();
        }
        pub fn acquire_write<'a>(&'a self) -> (V, WriteHandle<'a, V, Pred>) { self.acquire(true); (unsafe { (*self.v.get()).take().unwrap() }, WriteHandle { l: self }) }
        pub fn acquire_read<'a>(&'a self) -> ReadHandle<'a, V, Pred> { self.acquire(false); ReadHandle { l: self } }
        pub fn into_inner(self) -> V { self.v.into_inner().unwrap() }
    }
    impl<'a, V, Pred: RwLockPredicate<V>> WriteHandle<'a, V, Pred> { pub fn release_write(self, v: V) { unsafe { *self.l.v.get() = Some(v); } self.l.release(true) } }
    impl<'a, V, Pred: RwLockPredicate<V>> ReadHandle<'a, V, Pred> {
        pub fn borrow<'b>(&'b self) -> &'b V { unsafe { (*self.l.v.get()).as_ref().unwrap() } }
        pub fn release_read(self) { self.l.release(false) }
    }
}
pub mod thread {
    pub struct JoinHandle<R>(std::thread::JoinHandle<R>);
    impl<R> JoinHandle<R> { pub fn join(self) -> Result<R, ()> { self.0.join().map_err(|_| ()) } }
    pub fn spawn<F: FnOnce() -> R + Send + 'static, R: Send + 'static>(f: F) -> JoinHandle<R> { JoinHandle(std::thread::spawn(f)) }
}
