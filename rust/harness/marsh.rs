// Monitors for Splinter's marshalling library. The oracle below re-derives every format from the documented byte
// layout, on plain slices, without using the library.
use crate::util::*;
use crate::marshalling::IntegerMarshalling_v::*;
use crate::marshalling::Marshalling_v::*;
use crate::marshalling::SeqMarshalling_v::*;
use crate::marshalling::Slice_v::*;
use crate::marshalling::UniformSized_v::*;
use crate::marshalling::StaticallySized_v::*;
use crate::marshalling::UniformSizedSeq_v::*;
use crate::marshalling::ResizableUniformSizedSeq_v::*;
use crate::marshalling::VariableSizedElementSeq_v::*;
use crate::marshalling::KVPairFormat_v::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val { I(u64), S(Vec<Val>), K(Box<Val>, Box<Val>) }
#[derive(Clone, Debug)]
pub enum D { Int(usize), USeq(Box<D>), RSeq { elt: usize, len: usize, total: usize }, VSeq { elt: Box<D>, bdy: usize, len: usize, total: usize }, KV { len: usize, k: Box<D>, v: Box<D> } }

fn le(b: &[u8]) -> u64 { let mut x = 0u64; for (i, c) in b.iter().enumerate() { x |= (*c as u64) << (8 * i); } x }
fn maxi(n: usize) -> u64 { if n == 8 { u64::MAX } else { (1u64 << (8 * n)) - 1 } }

impl D {
    fn parse(&self, b: &[u8]) -> Option<Val> {
        match self {
            D::Int(n) => if b.len() >= *n { Some(Val::I(le(&b[..*n]))) } else { None },
            D::USeq(e) => { let D::Int(u) = **e else { unreachable!() }; Some(Val::S((0..b.len() / u).map(|i| Val::I(le(&b[i * u..i * u + u]))).collect())) }
            D::RSeq { elt, len, total } => {
                let n = self.length(b)?;
                if n > self.max_length() { return None }
                (0..n as usize).map(|i| self.rget(b, i)).collect::<Option<Vec<_>>>().map(Val::S)
            }
            D::VSeq { .. } => None,
            D::KV { len, k, v } => {
                if b.len() < *len { return None }
                let kl = le(&b[..*len]) as usize;
                if kl > b.len() - len { return None }
                Some(Val::K(Box::new(k.parse(&b[*len..len + kl])?), Box::new(v.parse(&b[len + kl..])?)))
            }
        }
    }
    fn usz(&self) -> usize { match self { D::Int(n) => *n, _ => unreachable!() } }
    fn size(&self, v: &Val) -> usize {
        match (self, v) {
            (D::Int(n), _) => *n,
            (D::USeq(e), Val::S(s)) => s.len() * e.usz(),
            (D::RSeq { total, .. }, _) => *total,
            (D::KV { len, k, v }, Val::K(a, b)) => len + k.size(a) + v.size(b),
            _ => unreachable!(),
        }
    }
    fn marshallable(&self, v: &Val) -> bool {
        match (self, v) {
            (D::Int(_), Val::I(_)) => true,
            (D::USeq(_), Val::S(_)) => true,
            (D::RSeq { elt, len, total }, Val::S(s)) => s.len() as u64 <= maxi(*len) && len + s.len() * elt <= *total,
            (D::KV { len, k, v }, Val::K(a, b)) => k.marshallable(a) && v.marshallable(b) && k.size(a) as u64 <= maxi(*len),
            _ => unreachable!(),
        }
    }
    fn gen(&self, r: &mut Rng) -> Val {
        match self {
            D::Int(n) => Val::I(r.corner(8 * *n as u32)),
            D::USeq(e) => { let n = if r.chance(1, 6) { 0 } else if r.chance(1, 10) { r.us(300) } else { r.us(12) }; Val::S((0..n).map(|_| e.gen(r)).collect()) }
            D::RSeq { elt, len, total } => { let m = self.max_length().min(maxi(*len)) as usize; let n = if r.chance(1, 4) { m } else { r.us(m + 1) }; let e = D::Int(*elt); Val::S((0..n).map(|_| e.gen(r)).collect()) }
            D::KV { k, v, .. } => Val::K(Box::new(k.gen(r)), Box::new(v.gen(r))),
            _ => unreachable!(),
        }
    }
    // ---- sequence views
    fn max_length(&self) -> u64 { match self { D::RSeq { elt, len, total } => ((total - len) / elt) as u64, D::VSeq { bdy, len, total, .. } => ((total - len) / bdy) as u64, _ => unreachable!() } }
    fn length(&self, b: &[u8]) -> Option<u64> {
        match self {
            D::USeq(e) => Some((b.len() / e.usz()) as u64),
            D::RSeq { len, total, .. } | D::VSeq { len, total, .. } => if b.len() < *total { None } else { Some(le(&b[..*len])) },
            _ => unreachable!(),
        }
    }
    fn rget(&self, b: &[u8], i: usize) -> Option<Val> { let (s, e) = self.get(b, i)?; D::Int(e - s).parse(&b[s..e]) }
    fn elt(&self) -> D { match self { D::USeq(e) => (**e).clone(), D::RSeq { elt, .. } => D::Int(*elt), D::VSeq { elt, .. } => (**elt).clone(), _ => unreachable!() } }
    fn get(&self, b: &[u8], i: usize) -> Option<(usize, usize)> {
        match self {
            D::USeq(e) => { let u = e.usz(); if i < b.len() / u { Some((i * u, i * u + u)) } else { None } }
            D::RSeq { elt, len, total } => if b.len() >= *total && (i as u64) < self.max_length() { Some((len + i * elt, len + i * elt + elt)) } else { None },
            D::VSeq { elt, bdy, len, total } => {
                let n = self.length(b)?;
                if i as u64 >= n || i as u64 >= self.max_length() { return None }
                let at = |j: usize| le(&b[len + j * bdy..len + j * bdy + bdy]);
                let s = at(i); let e = if i == 0 { *total as u64 } else { at(i - 1) };
                if s <= e && e <= *total as u64 { Some((s as usize, e as usize)) } else { None }
            }
            _ => unreachable!(),
        }
    }
    fn table(&self, b: &[u8]) -> Option<Vec<u64>> {
        let D::VSeq { bdy, len, total, .. } = self else { unreachable!() };
        let n = self.length(b)?; if n > self.max_length() { return None }
        Some((0..n as usize).map(|j| le(&b[len + j * bdy..len + j * bdy + bdy])).collect())
    }
    fn well_formed(&self, b: &[u8]) -> bool {
        match self {
            D::USeq(_) => false,
            D::RSeq { .. } => self.length(b).is_some(),
            D::VSeq { bdy, len, total, .. } => match self.table(b) {
                None => false,
                Some(t) => t.is_empty() || (t.windows(2).all(|w| w[1] <= w[0]) && t[0] <= *total as u64 && (len + t.len() * bdy) as u64 <= t[t.len() - 1]),
            },
            _ => unreachable!(),
        }
    }
    fn appendable(&self, b: &[u8], v: &Val) -> bool {
        match self {
            D::USeq(_) => false,
            D::RSeq { len, .. } => { let n = self.length(b).unwrap(); n < self.max_length() && n < maxi(*len) }
            D::VSeq { elt, bdy, len, total } => { let t = self.table(b).unwrap(); let lo = (len + t.len() * bdy) as u64; let hi = t.last().copied().unwrap_or(*total as u64); (bdy + elt.size(v)) as u64 <= hi - lo }
            _ => unreachable!(),
        }
    }
    fn resizable(&self, b: &[u8], n: usize) -> bool { match self { D::RSeq { len, .. } => self.length(b).is_some() && n as u64 <= self.max_length() && n as u64 <= maxi(*len), _ => false } }
    fn settable(&self, b: &[u8], i: usize) -> bool { match self { D::USeq(_) => self.get(b, i).is_some(), D::RSeq { .. } => self.get(b, i).is_some(), _ => false } }
}

pub trait TV { fn tv(&self) -> Val; fn fv(v: &Val) -> Self; }
macro_rules! tvi { ($($t:ty),*) => { $(impl TV for $t { fn tv(&self) -> Val { Val::I(*self as u64) } fn fv(v: &Val) -> Self { match v { Val::I(x) => *x as $t, _ => unreachable!() } } })* } }
tvi!(u8, u16, u32, u64);
impl<T: TV> TV for Vec<T> { fn tv(&self) -> Val { Val::S(self.iter().map(|x| x.tv()).collect()) } fn fv(v: &Val) -> Self { match v { Val::S(s) => s.iter().map(T::fv).collect(), _ => unreachable!() } } }
impl<K: KVTrait> TV for KVPair<K> where <K::KeyFormat as Marshal>::U: TV, <K::DataFormat as Marshal>::U: TV {
    fn tv(&self) -> Val { Val::K(Box::new(self.key.tv()), Box::new(self.value.tv())) }
    fn fv(v: &Val) -> Self { match v { Val::K(a, b) => KVPair { key: TV::fv(a), value: TV::fv(b) }, _ => unreachable!() } }
}
macro_rules! kvt { ($n:ident, $l:ty, $k:ty, $kn:expr, $d:ty, $dn:expr) => { pub struct $n; impl KVTrait for $n { type LenType = $l; type KeyFormat = $k; type DataFormat = $d; fn key_format_new() -> $k { $kn } fn data_format_new() -> $d { $dn } } } }
type U8S = UniformSizedElementSeqFormat<IntFormat<u8>>;
type U32S = UniformSizedElementSeqFormat<IntFormat<u32>>;
fn u8s() -> U8S { UniformSizedElementSeqFormat::new(IntFormat::new()) }
fn u32s() -> U32S { UniformSizedElementSeqFormat::new(IntFormat::new()) }
kvt!(KvA, u16, U8S, u8s(), U8S, u8s());
kvt!(KvB, u8, U8S, u8s(), U32S, u32s());
kvt!(KvC, u32, IntFormat<u64>, IntFormat::new(), U8S, u8s());
kvt!(KvD, u16, U32S, u32s(), IntFormat<u16>, IntFormat::new());
fn du8s() -> D { D::USeq(Box::new(D::Int(1))) }
fn du32s() -> D { D::USeq(Box::new(D::Int(4))) }

pub struct Cx<'a> { pub r: &'a mut Rng, pub st: &'a mut Stats, pub name: String, pub which: u8 }
impl<'a> Cx<'a> {
    fn v(&mut self, what: &str, detail: String) { let n = self.name.clone(); self.st.viol(format!("{}: {}: {}", n, what, detail)); }
}
fn place(r: &mut Rng, body: &[u8]) -> (Vec<u8>, Slice) {
    let pre = r.us(9); let post = r.us(9);
    let mut data = r.bytes(pre); data.extend_from_slice(body); let p = r.bytes(post); data.extend(p);
    (data, Slice { start: pre, end: pre + body.len() })
}
fn hx(b: &[u8]) -> String { let s: String = b.iter().take(96).map(|x| format!("{:02x}", x)).collect(); if b.len() > 96 { format!("{}..({}B)", s, b.len()) } else { s } }

// ---- M01 round trip, size and frame
fn roundtrip<F: Marshal>(cx: &mut Cx, f: &F, d: &D) where F::U: TV {
    let v = d.gen(cx.r);
    if !d.marshallable(&v) { return; }
    let want = d.size(&v);
    let u: F::U = TV::fv(&v);
    cx.st.evals += 1; cx.st.seen(&(&cx.name, &v)); 
    let sz = match guard(|| f.exec_size(&u)) { Ok(s) => s, Err(e) => { cx.v("size panicked", format!("{} value {:?}", e, v)); return } };
    if sz != want { cx.v("reported size differs from encoding size", format!("{} vs {} value {:?}", sz, want, v)); return }
    let pre = cx.r.us(9); let post = cx.r.us(9);
    let n = pre + want + post;
    let old = cx.r.bytes(n);
    let mut data = old.clone();
    let end = match guard(|| f.exec_marshall(&u, &mut data, pre)) { Ok(e) => e, Err(e) => { cx.v("marshal panicked", format!("{} value {:?}", e, v)); return } };
    if end != pre + want { cx.v("marshal returned the wrong end", format!("{} vs {}", end, pre + want)); return }
    if data.len() != n || data[..pre] != old[..pre] || data[end..] != old[end..] { cx.v("marshal touched bytes outside its region", format!("value {:?}", v)); return }
    cx.st.ev("marshal");
    if d.parse(&data[pre..end]).as_ref() != Some(&v) { cx.v("encoded bytes do not denote the value", format!("value {:?} bytes {}", v, hx(&data[pre..end]))); return }
    let sl = Slice { start: pre, end };
    match guard(|| (f.exec_parsable(&sl, &data), f.try_parse(&sl, &data).map(|x| x.tv()), f.exec_parse(&sl, &data).tv())) {
        Err(e) => cx.v("reading back panicked", format!("{} value {:?}", e, v)),
        Ok((p, a, b)) => { cx.st.ev("read back"); if !p || a.as_ref() != Some(&v) || b != v { cx.v("value read back differs", format!("value {:?} got {:?} / {:?} parsable {}", v, a, b, p)) } }
    }
    if cx.st.evals % 997 == 1 { let s = format!("{} {} bytes end={}", cx.name, want, end); cx.st.sample(s) }
}
fn mutate(r: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
    for _ in 0..r.us(4) { if b.is_empty() { break } let i = r.us(b.len()); let i = if r.chance(1, 2) { i.min(r.us(12)) } else { i }; b[i] = match r.below(4) { 0 => 0, 1 => 0xff, 2 => b[i].wrapping_add(1), _ => r.next() as u8 } }
    match r.below(5) { 0 => { let n = r.us(b.len() + 1); b.truncate(n) } 1 => { let n = r.us(9); let x = r.bytes(n); b.extend(x) } _ => {} }
    b
}
// ---- M02 parsing is total and exact
fn hostile<F: Marshal>(cx: &mut Cx, f: &F, d: &D) where F::U: TV {
    let body = if cx.r.chance(1, 2) { let n = if cx.r.chance(1, 5) { cx.r.us(80) } else { cx.r.us(20) }; cx.r.bytes(n) } else {
        let v = d.gen(cx.r); if !d.marshallable(&v) { return }
        let mut data = cx.r.bytes(d.size(&v)); let u: F::U = TV::fv(&v);
        if guard(|| f.exec_marshall(&u, &mut data, 0)).is_err() { return }
        mutate(cx.r, data) };
    let want = d.parse(&body);
    let (data, sl) = place(cx.r, &body);
    cx.st.evals += 1; cx.st.seen(&(&cx.name, &body)); cx.st.ev(if want.is_some() { "accepted" } else { "rejected" });
    match guard(|| (f.exec_parsable(&sl, &data), f.try_parse(&sl, &data).map(|x| x.tv()))) {
        Err(e) => cx.v("parsing panicked", format!("{} on bytes {}", e, hx(&body))),
        Ok((p, a)) => {
            if p != want.is_some() { cx.v("parsability verdict wrong", format!("says {} on bytes {}", p, hx(&body))) }
            if a != want { cx.v("parse result wrong", format!("got {:?} want {:?} on bytes {}", a, want, hx(&body))) }
            if want.is_some() { match guard(|| f.exec_parse(&sl, &data).tv()) { Err(e) => cx.v("parse panicked", e), Ok(x) => if Some(&x) != want.as_ref() { cx.v("unchecked parse result wrong", format!("got {:?}", x)) } } }
        }
    }
    if cx.st.evals % 997 == 1 { let s = format!("{} {} -> {}", cx.name, hx(&body), want.is_some()); cx.st.sample(s) }
}
fn idxs(r: &mut Rng, n: usize) -> usize { match r.below(5) { 0 => n, 1 => n.saturating_sub(1), 2 => n + 1 + r.us(5), 3 => if r.chance(1, 6) { (u64::MAX >> r.below(40)) as usize } else { 0 }, _ => r.us(n + 1) } }
fn hostile_seq<F: SeqMarshal>(cx: &mut Cx, f: &F, d: &D, body: Vec<u8>) where F::Elt: TV {
    let (data, sl) = place(cx.r, &body);
    cx.st.evals += 1; cx.st.seen(&(&cx.name, &body));
    let len = d.length(&body);
    match guard(|| (f.try_length(&sl, &data), f.exec_lengthable(&sl, &data), f.exec_well_formed(&sl, &data))) {
        Err(e) => { cx.v("inspecting a sequence panicked", format!("{} on bytes {}", e, hx(&body))); return }
        Ok((l, ok, wf)) => {
            if l.map(|x| x as u64) != len || ok != len.is_some() { cx.v("length wrong", format!("{:?} want {:?} bytes {}", l, len, hx(&body))) }
            if wf != d.well_formed(&body) { cx.v("well-formedness verdict wrong", format!("{} bytes {}", wf, hx(&body))) }
            cx.st.ev(if wf { "well-formed" } else { "not well-formed" });
        }
    }
    if len.is_some() { match guard(|| f.exec_length(&sl, &data)) { Ok(x) => if Some(x as u64) != len { cx.v("exec length wrong", format!("{}", x)) }, Err(e) => cx.v("length panicked", e) } }
    let n = len.unwrap_or(3).min(40) as usize;
    for _ in 0..4 {
        let i = idxs(cx.r, n);
        let want = d.get(&body, i);
        let welt = want.and_then(|(s, e)| d.elt().parse(&body[s..e]));
        match guard(|| (f.try_get(&sl, &data, i).map(|s| (s.start, s.end)), f.exec_gettable(&sl, &data, i), f.try_get_elt(&sl, &data, i).map(|x| x.tv()))) {
            Err(e) => cx.v("element access panicked", format!("{} index {} bytes {}", e, i, hx(&body))),
            Ok((s, g, e)) => {
                cx.st.ev(if want.is_some() { "element present" } else { "element refused" });
                if s != want.map(|(a, b)| (a + sl.start, b + sl.start)) || g != want.is_some() { cx.v("element location wrong", format!("index {} got {:?} want {:?} bytes {}", i, s, want, hx(&body))) }
                if e != welt { cx.v("element value wrong", format!("index {} got {:?} want {:?} bytes {}", i, e, welt, hx(&body))) }
                if let Some((a, b)) = want { match guard(|| f.exec_get(&sl, &data, i)) { Ok(x) => if (x.start, x.end) != (a + sl.start, b + sl.start) { cx.v("unchecked element location wrong", format!("index {}", i)) }, Err(e) => cx.v("get panicked", e) } }
                if let Some(w) = &welt { match guard(|| f.exec_get_elt(&sl, &data, i).tv()) { Ok(x) => if &x != w { cx.v("unchecked element wrong", format!("{:?}", x)) }, Err(e) => cx.v("get_elt panicked", e) } }
            }
        }
    }
    if cx.st.evals % 997 == 1 { let s = format!("{} {}", cx.name, hx(&body)); cx.st.sample(s) }
}
// ---- M03 in-place edits against a list model
type Entries = Vec<Option<Val>>;
fn entries(d: &D, b: &[u8]) -> Entries { let n = match d { D::VSeq { .. } => d.table(b).map(|t| t.len()).unwrap_or(0), D::RSeq { .. } => d.max_length() as usize, D::USeq(e) => b.len() / e.usz(), _ => 0 }; (0..n).map(|i| d.get(b, i).and_then(|(s, e)| d.elt().parse(&b[s..e]))).collect() }
fn edits<F: SeqMarshal>(cx: &mut Cx, f: &F, d: &D, init: &dyn Fn(&Slice, &mut Vec<u8>), n: usize) where F::Elt: TV {
    let body = cx.r.bytes(n);
    let (mut data, sl) = place(cx.r, &body);
    let whole = data.clone();
    if let Err(e) = guard(|| init(&sl, &mut data)) { cx.v("initialisation panicked", e); return }
    let frame = |data: &Vec<u8>| data.len() == whole.len() && data[..sl.start] == whole[..sl.start] && data[sl.end..] == whole[sl.end..];
    if !frame(&data) { cx.v("initialisation touched bytes outside the slice", String::new()); return }
    if matches!(d, D::RSeq { .. } | D::VSeq { .. }) {
        let nb = &data[sl.start..sl.end];
        if d.length(nb) != Some(0) || !d.well_formed(nb) { cx.v("initialisation did not leave an empty well-formed sequence", format!("length {:?}, bytes before {}", d.length(nb), hx(&whole))); return }
        cx.st.ev("initialised");
    }
    let mut trace = String::new();
    let steps = cx.r.range(1, 40);
    for _ in 0..steps {
        let b: Vec<u8> = data[sl.start..sl.end].to_vec();
        let before = entries(d, &b); let blen = d.length(&b);
        let v = d.elt().gen(cx.r); if !d.elt().marshallable(&v) { continue }
        let u: F::Elt = TV::fv(&v);
        cx.st.evals += 1;
        let op = cx.r.below(10);
        let isw = d.well_formed(&b);
        if op < 6 && isw {
            let want = d.appendable(&b, &v);
            match guard(|| f.exec_appendable(&sl, &data, &u)) { Err(e) => { cx.v("append test panicked", format!("{} after {}", e, trace)); return } Ok(g) => if g != want { cx.v("append admission wrong", format!("says {} for {:?} after {}", g, v, trace)); return } }
            cx.st.ev(if want { "append" } else { "append refused" });
            if !want { continue }
            if let Err(e) = guard(|| f.exec_append(&sl, &mut data, &u)) { cx.v("append panicked", format!("{} after {}", e, trace)); return }
            trace.push_str(&format!("append {:?}; ", v));
            let nb = &data[sl.start..sl.end]; let after = entries(d, nb);
            let at = blen.unwrap() as usize;
            if d.length(nb) != Some(at as u64 + 1) { cx.v("append did not grow the sequence by one", trace.clone()); return }
            if !d.well_formed(nb) { cx.v("append left an ill-formed sequence", trace.clone()); return }
            if after.get(at) != Some(&Some(v.clone())) { cx.v("appended element reads back differently", trace.clone()); return }
            for i in 0..before.len() { if i != at && before[i].is_some() && after.get(i) != Some(&before[i]) { cx.v("append changed another element", format!("element {} after {}", i, trace)); return } }
        } else if op < 8 {
            let i = idxs(cx.r, before.len());
            let want = d.settable(&b, i);
            match guard(|| f.exec_settable(&sl, &data, i, &u)) { Err(e) => { cx.v("set test panicked", format!("{} index {}", e, i)); return } Ok(g) => if g != want { cx.v("set admission wrong", format!("says {} index {} of {}", g, i, before.len())); return } }
            cx.st.ev(if want { "set" } else { "set refused" });
            if !want { continue }
            if let Err(e) = guard(|| f.exec_set(&sl, &mut data, i, &u)) { cx.v("set panicked", e); return }
            trace.push_str(&format!("set {} {:?}; ", i, v));
            let nb = &data[sl.start..sl.end]; let after = entries(d, nb);
            if d.length(nb) != blen { cx.v("set changed the length", trace.clone()); return }
            if after.get(i) != Some(&Some(v.clone())) { cx.v("set element reads back differently", trace.clone()); return }
            for j in 0..before.len() { if j != i && after.get(j) != Some(&before[j]) { cx.v("set changed another element", format!("element {} after {}", j, trace)); return } }
        } else {
            let m = match d { D::RSeq { .. } => d.max_length() as usize, _ => 4 };
            let k = idxs(cx.r, m);
            let want = d.resizable(&b, k);
            match guard(|| f.exec_resizable(&sl, &data, k)) { Err(e) => { cx.v("resize test panicked", e); return } Ok(g) => if g != want { cx.v("resize admission wrong", format!("says {} for {}", g, k)); return } }
            cx.st.ev(if want { "resize" } else { "resize refused" });
            if !want { continue }
            if let Err(e) = guard(|| f.resize(&sl, &mut data, k)) { cx.v("resize panicked", e); return }
            trace.push_str(&format!("resize {}; ", k));
            let nb = &data[sl.start..sl.end]; let after = entries(d, nb);
            if d.length(nb) != Some(k as u64) { cx.v("resize set the wrong length", trace.clone()); return }
            if after != before { cx.v("resize changed element data", trace.clone()); return }
        }
        if !frame(&data) { cx.v("edit touched bytes outside the slice", trace.clone()); return }
        // the library's own view agrees with the model after every edit
        let nb: Vec<u8> = data[sl.start..sl.end].to_vec();
        let i = cx.r.us(before.len() + 2);
        let w = d.get(&nb, i).and_then(|(s, e)| d.elt().parse(&nb[s..e]));
        match guard(|| (f.exec_length(&sl, &data), f.try_get_elt(&sl, &data, i).map(|x| x.tv()), f.exec_well_formed(&sl, &data))) { Err(e) => { cx.v("reading after an edit panicked", format!("{} after {}", e, trace)); return } Ok((l, x, wf)) => if Some(l as u64) != d.length(&nb) || x != w || wf != d.well_formed(&nb) { cx.v("library view after an edit differs from the model", format!("index {} {:?} vs {:?} after {}", i, x, w, trace)); return } }
    }
    cx.st.seen(&(&cx.name, &trace));
    if cx.st.distinct.len() % 499 == 1 { let s = format!("{} {}", cx.name, &trace.chars().take(160).collect::<String>()); cx.st.sample(s) }
}
fn seq_body(cx: &mut Cx, d: &D, total: usize) -> Vec<u8> {
    // random, or a plausible table
    let n = match cx.r.below(6) { 0 => cx.r.us(total + 1), 1 => total, _ => total + cx.r.us(6) };
    let mut b = cx.r.bytes(n);
    if let D::VSeq { bdy, len, total, .. } = d { if cx.r.chance(3, 4) && b.len() >= *total {
        let k = cx.r.us((d.max_length() as usize).min(9) + 1);
        let mut hi = *total; let lo = len + k * bdy;
        put(&mut b, 0, *len, k as u64);
        for j in 0..k { let x = if cx.r.chance(1, 25) { cx.r.corner(8 * *bdy as u32) as usize } else { if hi < lo { hi } else { hi - cx.r.us((hi - lo).min(7) + 1) } }; put(&mut b, len + j * bdy, *bdy, x as u64); hi = x.min(*total); }
        if cx.r.chance(1, 8) { let c = cx.r.corner(8 * *len as u32); put(&mut b, 0, *len, c) }
    } }
    if let D::RSeq { len, total, .. } = d { if cx.r.chance(1, 2) && b.len() >= *len { let m = d.max_length(); let x = match cx.r.below(4) { 0 => m, 1 => m + 1, _ => cx.r.below(m + 1) }; put(&mut b, 0, *len, x) } }
    b
}
fn put(b: &mut Vec<u8>, at: usize, n: usize, v: u64) { for i in 0..n { if at + i < b.len() { b[at + i] = (v >> (8 * i)) as u8 } } }

fn int<T: IntFormattable + TV>(cx: &mut Cx) where T: Deepview<verus_builtin::int>, {
    let n = std::mem::size_of::<T>(); let d = D::Int(n); cx.name = format!("int{}", n * 8);
    let f: IntFormat<T> = IntFormat::new();
    match cx.which { 1 => roundtrip(cx, &f, &d), 2 => hostile(cx, &f, &d), _ => {} }
    if cx.which == 1 {
        let x = cx.r.corner(8 * n as u32); let t: T = TV::fv(&Val::I(x));
        let ok = guard(|| T::exec_uniform_size() == n && f.exec_uniform_size() == n && T::exec_max() as u64 == maxi(n) && T::to_usize(t) as u64 == x && T::from_usize(x as usize).tv() == Val::I(x) && T::from_le_bytes(&T::to_le_bytes(t)).tv() == Val::I(x));
        if ok != Ok(true) { cx.v("integer conversion wrong", format!("{} {:?}", x, ok)) }
    }
}
fn useq<T: IntFormattable + TV>(cx: &mut Cx) {
    let n = std::mem::size_of::<T>(); let d = D::USeq(Box::new(D::Int(n))); cx.name = format!("uniform-seq<int{}>", n * 8);
    let f: UniformSizedElementSeqFormat<IntFormat<T>> = UniformSizedElementSeqFormat::new(IntFormat::new());
    match cx.which {
        1 => roundtrip(cx, &f, &d),
        2 => { hostile(cx, &f, &d); let k = cx.r.us(40); let b = cx.r.bytes(k); hostile_seq(cx, &f, &d, b) }
        _ => { let k = cx.r.us(48); edits(cx, &f, &d, &|_, _| {}, k) }
    }
}
fn rseq<T: IntFormattable + TV, L: IntFormattable + TV>(cx: &mut Cx) {
    let (n, l) = (std::mem::size_of::<T>(), std::mem::size_of::<L>());
    let total = l + if cx.r.chance(1, 12) { cx.r.us(2 * n * 300) } else { cx.r.us(n * 9 + 3) };
    let d = D::RSeq { elt: n, len: l, total }; cx.name = format!("resizable-seq<int{},len{}>", n * 8, l * 8);
    let f: ResizableUniformSizedElementSeqFormat<IntFormat<T>, L> = ResizableUniformSizedElementSeqFormat::new(IntFormat::new(), IntFormat::new(), total);
    match cx.which {
        1 => roundtrip(cx, &f, &d),
        2 => { hostile(cx, &f, &d); let b = seq_body(cx, &d, total); let v = d.parse(&b); let (data, sl) = place(cx.r, &b);
               match guard(|| (f.exec_parsable(&sl, &data), f.try_parse(&sl, &data).map(|x| x.tv()))) { Err(e) => cx.v("parsing panicked", format!("{} on bytes {}", e, hx(&b))), Ok((p, x)) => if x != v || p != v.is_some() { cx.v("parse result wrong", format!("bytes {} total {}", hx(&b), total)) } }
               hostile_seq(cx, &f, &d, b) }
        _ => { let k = total + cx.r.us(7); edits(cx, &f, &d, &|s, b| f.initialize(s, b), k) }
    }
}
fn vseq<F: Marshal, B: IntFormattable + TV, L: IntFormattable + TV>(cx: &mut Cx, mk: fn() -> F, ed: D, nm: &str) where F::U: TV {
    let (bs, l) = (std::mem::size_of::<B>(), std::mem::size_of::<L>());
    let cap = (maxi(bs).min(maxi(l))).min(5000) as usize;
    let total = (l + if cx.r.chance(1, 8) { cx.r.us(cap - l) } else { cx.r.us(90) }).min(cap);
    let d = D::VSeq { elt: Box::new(ed), bdy: bs, len: l, total }; cx.name = format!("variable-seq<{},bdy{},len{}>", nm, bs * 8, l * 8);
    let f: VariableSizedElementSeqFormat<F, B, L> = VariableSizedElementSeqFormat::new(mk(), IntFormat::new(), IntFormat::new(), total);
    match cx.which {
        2 => { let b = seq_body(cx, &d, total); hostile_seq(cx, &f, &d, b) }
        3 => { let k = total + cx.r.us(7); edits(cx, &f, &d, &|s, b| f.initialize(s, b), k) }
        _ => {}
    }
}
fn kv<K: KVTrait>(cx: &mut Cx, d: D, nm: &str) where <K::KeyFormat as Marshal>::U: TV, <K::DataFormat as Marshal>::U: TV {
    cx.name = format!("kv-pair<{}>", nm); let f: KVPairFormat<K> = KVPairFormat::new();
    match cx.which { 1 => roundtrip(cx, &f, &d), 2 => hostile(cx, &f, &d), _ => {} }
}
fn dkv(len: usize, k: D, v: D) -> D { D::KV { len, k: Box::new(k), v: Box::new(v) } }
pub fn round(which: u8, r: &mut Rng, st: &mut Stats) {
    let mut c = Cx { r, st, name: String::new(), which }; let cx = &mut c;
    int::<u8>(cx); int::<u16>(cx); int::<u32>(cx); int::<u64>(cx);
    useq::<u8>(cx); useq::<u16>(cx); useq::<u32>(cx); useq::<u64>(cx);
    rseq::<u8, u8>(cx); rseq::<u32, u8>(cx); rseq::<u16, u16>(cx); rseq::<u64, u32>(cx); rseq::<u8, u32>(cx); rseq::<u32, u64>(cx); rseq::<u16, u8>(cx);
    vseq::<U8S, u8, u8>(cx, u8s, du8s(), "bytes"); vseq::<U8S, u16, u16>(cx, u8s, du8s(), "bytes"); vseq::<U32S, u32, u16>(cx, u32s, du32s(), "u32s");
    vseq::<U8S, u16, u8>(cx, u8s, du8s(), "bytes"); vseq::<U8S, u64, u32>(cx, u8s, du8s(), "bytes");
    vseq::<IntFormat<u32>, u16, u32>(cx, IntFormat::new, D::Int(4), "int32");
    vseq::<KVPairFormat<KvA>, u32, u32>(cx, KVPairFormat::new, dkv(2, du8s(), du8s()), "kv");
    vseq::<KVPairFormat<KvB>, u16, u16>(cx, KVPairFormat::new, dkv(1, du8s(), du32s()), "kv8");
    kv::<KvA>(cx, dkv(2, du8s(), du8s()), "u16,bytes,bytes"); kv::<KvB>(cx, dkv(1, du8s(), du32s()), "u8,bytes,u32s");
    kv::<KvC>(cx, dkv(4, D::Int(8), du8s()), "u32,u64,bytes"); kv::<KvD>(cx, dkv(2, du32s(), D::Int(2)), "u16,u32s,u16");
}
