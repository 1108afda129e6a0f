//! Property-based checks of the marshalling library: every format is driven against an independent byte-level
//! reference (its documented layout), written here from the layout alone.
#![allow(non_snake_case)]
mod pbt;
use pbt::*;
use std::fmt::Debug;
use sub::marshalling::IntegerMarshalling_v::*;
use sub::marshalling::KVPairFormat_v::*;
use sub::marshalling::Marshalling_v::*;
use sub::marshalling::ResizableUniformSizedSeq_v::*;
use sub::marshalling::SeqMarshalling_v::*;
use sub::marshalling::Slice_v::*;
use sub::marshalling::StaticallySized_v::*;
use sub::marshalling::UniformSizedSeq_v::*;
use sub::marshalling::UniformSized_v::*;
use sub::marshalling::VariableSizedElementSeq_v::*;
use sub::testfmt::*;

#[global_allocator] static GUARD: pbt::Guard = pbt::Guard;

type R = Result<(), String>;
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

// ---------------------------------------------------------------------------------------- reference formats
/// A reference for one format: how values look as bytes, independent of the library.
trait Mo: Sized {
    type F: Marshal;
    type V: Clone + PartialEq + Debug;
    fn fmt(&self) -> Self::F;
    fn gen(&self, s: &mut Src) -> Self::V;
    fn to_u(&self, v: &Self::V) -> <Self::F as Marshal>::U;
    fn of_u(&self, u: &<Self::F as Marshal>::U) -> Self::V;
    fn size(&self, v: &Self::V) -> usize;
    /// A correct encoding; bytes the layout leaves free are drawn at random.
    fn enc(&self, v: &Self::V, s: &mut Src) -> Vec<u8>;
    fn parse(&self, b: &[u8]) -> Option<Self::V>;
}
trait Uni: Mo { fn us(&self) -> usize; fn gen1(&self, s: &mut Src) -> Self::V { self.gen(s) } }

trait IntT: IntFormattable + Debug + 'static { const SZ: usize; fn of(x: u64) -> Self; fn to(self) -> u64; const MAXV: u64; }
macro_rules! intt { ($($t:ty),*) => { $(impl IntT for $t { const SZ: usize = std::mem::size_of::<$t>(); const MAXV: u64 = <$t>::MAX as u64; fn of(x: u64) -> $t { x as $t } fn to(self) -> u64 { self as u64 } })* } }
intt!(u8, u16, u32, u64);

fn le(v: u64, n: usize) -> Vec<u8> { (0..n).map(|i| (v >> (8 * i)) as u8).collect() }
fn unle(b: &[u8]) -> u64 { b.iter().enumerate().map(|(i, x)| (*x as u64) << (8 * i)).sum() }
fn gen_int(s: &mut Src, max: u64) -> u64 {
    match s.below(8) { 0 => s.below(4).min(max), 1 => max - s.below(3).min(max), 2 => { let k = s.below(64); (1u64 << k).wrapping_sub(s.below(2)) & max }, 3 => s.below(256).min(max),
        4 => { let k = s.below(8); (s.byte() as u64) << (8 * k) & max }, _ => s.full() & max }
}

#[derive(Clone)] struct IntM<T>(std::marker::PhantomData<T>);
fn im<T>() -> IntM<T> { IntM(std::marker::PhantomData) }
impl<T: IntT> Mo for IntM<T> {
    type F = IntFormat<T>; type V = u64;
    fn fmt(&self) -> IntFormat<T> { IntFormat::new() }
    fn gen(&self, s: &mut Src) -> u64 { gen_int(s, T::MAXV) }
    fn to_u(&self, v: &u64) -> T { T::of(*v) }
    fn of_u(&self, u: &T) -> u64 { (*u).to() }
    fn size(&self, _: &u64) -> usize { T::SZ }
    fn enc(&self, v: &u64, _: &mut Src) -> Vec<u8> { le(*v, T::SZ) }
    fn parse(&self, b: &[u8]) -> Option<u64> { if b.len() < T::SZ { None } else { Some(unle(&b[..T::SZ])) } }
}
impl<T: IntT> Uni for IntM<T> { fn us(&self) -> usize { T::SZ } }

#[derive(Clone)] struct TriM;
impl Mo for TriM {
    type F = TriFormat; type V = (u8, u16);
    fn fmt(&self) -> TriFormat { TriFormat {} }
    fn gen(&self, s: &mut Src) -> (u8, u16) { (s.below(0xC0) as u8, s.below(65536) as u16) }
    fn to_u(&self, v: &(u8, u16)) -> Tri { Tri { tag: v.0, val: v.1 } }
    fn of_u(&self, u: &Tri) -> (u8, u16) { (u.tag, u.val) }
    fn size(&self, _: &(u8, u16)) -> usize { 3 }
    fn enc(&self, v: &(u8, u16), _: &mut Src) -> Vec<u8> { vec![v.0, (v.1 >> 8) as u8, v.1 as u8] }
    fn parse(&self, b: &[u8]) -> Option<(u8, u16)> { if b.len() < 3 || b[0] >= 0xC0 { None } else { Some((b[0], (b[1] as u16) << 8 | b[2] as u16)) } }
}
impl Uni for TriM { fn us(&self) -> usize { 3 } }

#[derive(Clone)] struct UniM<E> { e: E, max: usize }
impl<E: Uni> Mo for UniM<E> where E::F: UniformSized {
    type F = UniformSizedElementSeqFormat<E::F>; type V = Vec<E::V>;
    fn fmt(&self) -> Self::F { UniformSizedElementSeqFormat::new(self.e.fmt()) }
    fn gen(&self, s: &mut Src) -> Self::V { let n = if self.max > 400 && s.chance(1, 2) { self.max - s.us(0, 2) } else { s.us(0, self.max) }; gen_many(&self.e, n, s) }
    fn to_u(&self, v: &Self::V) -> Vec<<E::F as Marshal>::U> { v.iter().map(|x| self.e.to_u(x)).collect() }
    fn of_u(&self, u: &Vec<<E::F as Marshal>::U>) -> Self::V { u.iter().map(|x| self.e.of_u(x)).collect() }
    fn size(&self, v: &Self::V) -> usize { v.len() * self.e.us() }
    fn enc(&self, v: &Self::V, s: &mut Src) -> Vec<u8> { v.iter().flat_map(|x| self.e.enc(x, s)).collect() }
    fn parse(&self, b: &[u8]) -> Option<Self::V> { let u = self.e.us(); (0..b.len() / u).map(|i| self.e.parse(&b[i * u..i * u + u])).collect() }
}

#[derive(Clone)] struct ResM<E, L> { e: E, total: usize, l: std::marker::PhantomData<L> }
fn rm<L, E>(e: E, total: usize) -> ResM<E, L> { ResM { e, total, l: std::marker::PhantomData } }
impl<E: Uni, L: IntT> ResM<E, L> {
    fn cap(&self) -> usize { (self.total - L::SZ) / self.e.us() }
    fn maxlen(&self) -> usize { self.cap().min(L::MAXV.min(1 << 40) as usize) }
}
impl<E: Uni, L: IntT> Mo for ResM<E, L> where E::F: UniformSized {
    type F = ResizableUniformSizedElementSeqFormat<E::F, L>; type V = Vec<E::V>;
    fn fmt(&self) -> Self::F { ResizableUniformSizedElementSeqFormat::new(self.e.fmt(), IntFormat::new(), self.total) }
    fn gen(&self, s: &mut Src) -> Self::V { let m = self.maxlen(); let n = if s.chance(1, 3) { m } else { s.us(0, m) }; gen_many(&self.e, n, s) }
    fn to_u(&self, v: &Self::V) -> Vec<<E::F as Marshal>::U> { v.iter().map(|x| self.e.to_u(x)).collect() }
    fn of_u(&self, u: &Vec<<E::F as Marshal>::U>) -> Self::V { u.iter().map(|x| self.e.of_u(x)).collect() }
    fn size(&self, _: &Self::V) -> usize { self.total }
    fn enc(&self, v: &Self::V, s: &mut Src) -> Vec<u8> {
        let mut b = le(v.len() as u64, L::SZ); for x in v { b.extend(self.e.enc(x, s)); }
        while b.len() < self.total { b.push(s.byte()); } b
    }
    fn parse(&self, b: &[u8]) -> Option<Self::V> {
        if b.len() < self.total { return None; }
        let n = unle(&b[..L::SZ]); if n > self.cap() as u64 { return None; }
        let u = self.e.us(); (0..n as usize).map(|i| self.e.parse(&b[L::SZ + i * u..L::SZ + i * u + u])).collect()
    }
}

#[derive(Clone)] struct KvM<KT, K, D> { k: K, d: D, kt: std::marker::PhantomData<KT> }
fn kv<KT, K, D>(k: K, d: D) -> KvM<KT, K, D> { KvM { k, d, kt: std::marker::PhantomData } }
impl<KT: KVTrait, K: Mo<F = KT::KeyFormat>, D: Mo<F = KT::DataFormat>> Mo for KvM<KT, K, D> where KT::LenType: IntT {
    type F = KVPairFormat<KT>; type V = (K::V, D::V);
    fn fmt(&self) -> Self::F { KVPairFormat::new() }
    fn gen(&self, s: &mut Src) -> Self::V { loop { let k = self.k.gen(s); if self.k.size(&k) as u64 <= KT::LenType::MAXV { return (k, self.d.gen(s)); } } }
    fn to_u(&self, v: &Self::V) -> KVPair<KT> { KVPair { key: self.k.to_u(&v.0), value: self.d.to_u(&v.1) } }
    fn of_u(&self, u: &KVPair<KT>) -> Self::V { (self.k.of_u(&u.key), self.d.of_u(&u.value)) }
    fn size(&self, v: &Self::V) -> usize { KT::LenType::SZ + self.k.size(&v.0) + self.d.size(&v.1) }
    fn enc(&self, v: &Self::V, s: &mut Src) -> Vec<u8> {
        let mut b = le(self.k.size(&v.0) as u64, KT::LenType::SZ); b.extend(self.k.enc(&v.0, s)); b.extend(self.d.enc(&v.1, s)); b
    }
    fn parse(&self, b: &[u8]) -> Option<Self::V> {
        let n = KT::LenType::SZ; if b.len() < n { return None; }
        let kl = unle(&b[..n]); if kl > (b.len() - n) as u64 { return None; }
        let kl = kl as usize; Some((self.k.parse(&b[n..n + kl])?, self.d.parse(&b[n + kl..])?))
    }
}
// an N-byte record holding a key-value pair
#[derive(Clone)] struct FixM { n: usize }
fn fx(n: usize) -> FixM { FixM { n } }
fn kb8() -> KvM<KvBytes8, UniM<IntM<u8>>, UniM<IntM<u8>>> { kv(UniM { e: im(), max: 20 }, UniM { e: im(), max: 20 }) }
impl Mo for FixM {
    type F = FixedFormat<KVPairFormat<KvBytes8>>; type V = (Vec<u64>, Vec<u64>);
    fn fmt(&self) -> Self::F { FixedFormat { inner: KVPairFormat::new(), n: self.n } }
    fn gen(&self, s: &mut Src) -> Self::V { let k = s.us(0, self.n - 1); ((0..k).map(|_| s.below(256)).collect(), (0..self.n - 1 - k).map(|_| s.below(256)).collect()) }
    fn to_u(&self, v: &Self::V) -> KVPair<KvBytes8> { kb8().to_u(v) }
    fn of_u(&self, u: &KVPair<KvBytes8>) -> Self::V { kb8().of_u(u) }
    fn size(&self, _: &Self::V) -> usize { self.n }
    fn enc(&self, v: &Self::V, s: &mut Src) -> Vec<u8> { kb8().enc(v, s) }
    fn parse(&self, b: &[u8]) -> Option<Self::V> { if b.len() < self.n { None } else { kb8().parse(&b[..self.n]) } }
}
impl Uni for FixM { fn us(&self) -> usize { self.n } }

fn gen_many<E: Uni>(e: &E, n: usize, s: &mut Src) -> Vec<E::V> { if n > 300 { let mut t = s.sub(); (0..n).map(|_| e.gen1(&mut t)).collect() } else { (0..n).map(|_| e.gen1(s)).collect() } }

/// Runs a generic check on one of the formats.
macro_rules! any_format { ($s:expr, $f:ident) => {{ let s: &mut Src = $s; if s.chance(1, 400) { s.label("large"); match s.below(5) {
    0 => $f(s, "fixed-seq<u8> large", UniM { e: im::<u8>(), max: 70000 }), 1 => $f(s, "fixed-seq<rec3> large", UniM { e: TriM, max: 23000 }),
    2 => { let t = s.us(65530, 70000); $f(s, "res-seq<u8,len16> large", rm::<u16, _>(im::<u8>(), t)) }
    3 => { let t = s.us(65530, 140000); $f(s, "res-seq<u16,len32> large", rm::<u32, _>(im::<u16>(), t)) }
    _ => $f(s, "kv<bytes,len16> large", kv::<KvBytes16, _, _>(UniM { e: im::<u8>(), max: 65535 }, UniM { e: im::<u8>(), max: 40 })),
} } else { match s.below(24) {
    0 => $f(s, "int8", im::<u8>()), 1 => $f(s, "int16", im::<u16>()), 2 => $f(s, "int32", im::<u32>()), 3 => $f(s, "int64", im::<u64>()),
    4 => $f(s, "fixed-seq<u8>", UniM { e: im::<u8>(), max: 40 }), 5 => $f(s, "fixed-seq<u16>", UniM { e: im::<u16>(), max: 20 }),
    6 => $f(s, "fixed-seq<u64>", UniM { e: im::<u64>(), max: 12 }), 7 => $f(s, "fixed-seq<rec3>", UniM { e: TriM, max: 15 }),
    8 => { let n = s.us(1, 12); $f(s, "fixed-seq<kvrec>", UniM { e: fx(n), max: 6 }) }
    9 => { let t = s.us(1, 300); $f(s, "res-seq<u8,len8>", rm::<u8, _>(im::<u8>(), t)) }
    10 => { let t = s.us(2, 90); $f(s, "res-seq<u16,len16>", rm::<u16, _>(im::<u16>(), t)) }
    11 => { let t = s.us(4, 120); $f(s, "res-seq<u64,len32>", rm::<u32, _>(im::<u64>(), t)) }
    12 => { let t = s.us(8, 90); $f(s, "res-seq<u32,len64>", rm::<u64, _>(im::<u32>(), t)) }
    13 => { let t = s.us(2, 60); $f(s, "res-seq<rec3,len16>", rm::<u16, _>(TriM, t)) }
    14 => { let t = s.us(4, 80); let n = s.us(1, 12); $f(s, "res-seq<kvrec,len32>", rm::<u32, _>(fx(n), t)) }
    15 => { let t = s.us(1, 900); $f(s, "res-seq<rec3,len8>", rm::<u8, _>(TriM, t)) }
    16 => $f(s, "kv<bytes,len8>", kb8()),
    17 => $f(s, "kv<bytes-long,len8>", kv::<KvBytes8, _, _>(UniM { e: im::<u8>(), max: 255 }, UniM { e: im::<u8>(), max: 10 })),
    18 => $f(s, "kv<bytes,len16>", kv::<KvBytes16, _, _>(UniM { e: im::<u8>(), max: 400 }, UniM { e: im::<u8>(), max: 40 })),
    19 => $f(s, "kv<rec3-seq,u16-seq,len32>", kv::<KvTri32, _, _>(UniM { e: TriM, max: 8 }, UniM { e: im::<u16>(), max: 8 })),
    20 | 21 => $f(s, "kv<u32,res-seq,len16>", kv::<KvIntRes, _, _>(im::<u32>(), rm::<u8, _>(TriM, 24))),
    _ => $f(s, "kv<kv,kv,len8>", kv::<KvNest, _, _>(kb8(), kv::<KvTri32, _, _>(UniM { e: TriM, max: 5 }, UniM { e: im::<u16>(), max: 5 }))),
} } }} }

fn sl(a: usize, b: usize) -> Slice { Slice { start: a, end: b } }

// ---------------------------------------------------------------------------------------------- M01 round trip
fn rt<M: Mo>(s: &mut Src, name: &'static str, m: M) -> R {
    s.label(name);
    let v = m.gen(s);
    let f = m.fmt();
    let (pre, post) = (if s.chance(1, 4) { 0 } else { s.us(0, 20) }, if s.chance(1, 4) { 0 } else { s.us(0, 20) });
    let u = m.to_u(&v);
    let sz = f.exec_size(&u);
    s.note = format!("{} value {:?} at offset {} with {} spare bytes after", name, v, pre, post);
    ck!(sz == m.size(&v), "reported size {} but the value needs {}", sz, m.size(&v));
    let fill = s.byte();
    let old: Vec<u8> = (0..pre + sz + post).map(|i| (i as u8).wrapping_mul(37).wrapping_add(fill)).collect();
    let mut data = old.clone();
    let end = f.exec_marshall(&u, &mut data, pre);
    ck!(end == pre + sz, "writing at {} a value of size {} ended at {}", pre, sz, end);
    ck!(data.len() == old.len(), "buffer length changed from {} to {}", old.len(), data.len());
    ck!(data[..pre] == old[..pre], "bytes before the value changed");
    ck!(data[end..] == old[end..], "bytes after the value changed");
    if pre > 0 { s.label("nonzero offset"); }
    if sz > 8 { s.label("over 8 bytes"); }
    ck!(m.parse(&data[pre..end]).as_ref() == Some(&v), "the bytes written do not lay the value out: {:?}", &data[pre..end]);
    let slice = sl(pre, end);
    ck!(f.exec_parsable(&slice, &data), "what was written is reported unparsable");
    match f.try_parse(&slice, &data) { None => return Err("what was written does not parse".into()), Some(w) => { let w = m.of_u(&w); ck!(w == v, "reads back as {:?}", w) } }
    let w = m.of_u(&f.exec_parse(&slice, &data)); ck!(w == v, "the checked reader gives {:?}", w);
    // and what anyone else lays out by the documented format reads back too
    let e = m.enc(&v, s); let mut other = vec![fill; pre]; let n = e.len(); other.extend(e); other.extend(vec![fill ^ 0x55; post]);
    match f.try_parse(&sl(pre, pre + n), &other) { None => return Err(format!("a correct encoding {:?} does not parse", &other[pre..pre + n])), Some(w) => { let w = m.of_u(&w); ck!(w == v, "a correct encoding reads as {:?}", w) } }
    Ok(())
}
fn m01(s: &mut Src) -> R { any_format!(s, rt) }

// ------------------------------------------------------------------------------------- M02 arbitrary input bytes
fn mutate(b: &mut Vec<u8>, s: &mut Src) {
    for _ in 0..s.below(4) { if b.is_empty() { break; } let i = s.us(0, b.len() - 1); b[i] = match s.below(4) { 0 => 0, 1 => 255, 2 => b[i] ^ (1 << s.below(8)), _ => s.byte() }; }
    if s.chance(1, 4) && !b.is_empty() { let k = s.us(0, b.len()); b.truncate(k); }
    if s.chance(1, 6) { let k = s.us(1, 9); b.extend(s.bytes(k)); }
}
fn arb<M: Mo>(s: &mut Src, name: &'static str, m: M) -> R {
    s.label(name);
    let f = m.fmt();
    let mut b = match s.below(5) { 0 => { let n = s.us(0, 40); s.bytes(n) } 1 => { let n = s.us(0, 40); let lim = s.range(1, 8); (0..n).map(|_| s.below(lim) as u8).collect() } _ => { let v = m.gen(s); m.enc(&v, s) } };
    mutate(&mut b, s);
    let (pre, post) = (s.us(0, 12), s.us(0, 12));
    let n = b.len();
    let want = m.parse(&b);
    s.note = format!("{} bytes {:?} at offset {} of a buffer with {} bytes after", name, b, pre, post);
    s.label(if want.is_some() { "accepted" } else { "rejected" });
    let mut data = s.bytes(pre); data.extend(&b); let tail = s.bytes(post); data.extend(tail);
    let slice = sl(pre, pre + n);
    let p = f.exec_parsable(&slice, &data);
    ck!(p == want.is_some(), "parsable reported as {} but should be {}", p, want.is_some());
    let got = f.try_parse(&slice, &data).map(|u| m.of_u(&u));
    ck!(got == want, "parsed as {:?}, should be {:?}", got, want);
    if let Some(w) = want { let g = m.of_u(&f.exec_parse(&slice, &data)); ck!(g == w, "checked parse gives {:?}, should be {:?}", g, w); }
    Ok(())
}
fn m02(s: &mut Src) -> R { any_format!(s, arb) }

// ------------------------------------------------------------------------ references for sequences inside bytes
/// A sequence stored in a byte region: the reference reads the region directly.
trait SeqMo: Sized {
    type F: SeqMarshal;
    type V: Clone + PartialEq + Debug;
    fn fmt(&self) -> Self::F;
    fn gen_elt(&self, s: &mut Src) -> Self::V;
    fn to_u(&self, v: &Self::V) -> <Self::F as SeqMarshal>::Elt;
    fn of_u(&self, u: &<Self::F as SeqMarshal>::Elt) -> Self::V;
    fn region(&self, s: &mut Src) -> usize;
    fn seed(&self, n: usize, s: &mut Src) -> Vec<u8>;         // plausible (perhaps corrupt) initial bytes of length n
    fn len(&self, b: &[u8]) -> Option<u64>;
    fn get(&self, b: &[u8], i: usize) -> Option<(usize, usize)>;
    fn elt(&self, b: &[u8]) -> Option<Self::V>;
    fn settable(&self, b: &[u8], i: usize) -> bool;
    fn resizable(&self, b: &[u8], n: usize) -> bool;
    fn wf(&self, b: &[u8]) -> bool;
    fn appendable(&self, b: &[u8], v: &Self::V) -> bool;
    fn max_index(&self) -> usize;
    fn init(&self, _f: &Self::F, _sl: &Slice, _d: &mut Vec<u8>) -> bool { false }
    fn init_ok(&self, _b: &[u8]) -> bool { false }
    fn contiguous(&self) -> Option<(usize, usize)> { None }   // (header, element size): appends leave later bytes alone
}
impl<E: Uni> SeqMo for UniM<E> where E::F: UniformSized {
    type F = UniformSizedElementSeqFormat<E::F>; type V = E::V;
    fn fmt(&self) -> Self::F { UniformSizedElementSeqFormat::new(self.e.fmt()) }
    fn gen_elt(&self, s: &mut Src) -> E::V { self.e.gen1(s) }
    fn to_u(&self, v: &E::V) -> <E::F as Marshal>::U { self.e.to_u(v) }
    fn of_u(&self, u: &<E::F as Marshal>::U) -> E::V { self.e.of_u(u) }
    fn region(&self, s: &mut Src) -> usize { s.us(0, self.max * self.e.us()) + s.us(0, self.e.us() - 1) }
    fn seed(&self, n: usize, s: &mut Src) -> Vec<u8> { let mut b = vec![]; let mut sub; let s = if n > 800 { sub = s.sub(); &mut sub } else { s }; while b.len() + self.e.us() <= n { if s.chance(1, 5) { b.extend(s.bytes(self.e.us())); } else { let v = self.e.gen1(s); b.extend(self.e.enc(&v, s)); } } while b.len() < n { b.push(s.byte()); } b }
    fn len(&self, b: &[u8]) -> Option<u64> { Some((b.len() / self.e.us()) as u64) }
    fn get(&self, b: &[u8], i: usize) -> Option<(usize, usize)> { let u = self.e.us(); if i < b.len() / u { Some((i * u, i * u + u)) } else { None } }
    fn elt(&self, b: &[u8]) -> Option<E::V> { self.e.parse(b) }
    fn settable(&self, b: &[u8], i: usize) -> bool { i < b.len() / self.e.us() }
    fn resizable(&self, _: &[u8], _: usize) -> bool { false }
    fn wf(&self, _: &[u8]) -> bool { false }
    fn appendable(&self, _: &[u8], _: &E::V) -> bool { false }
    fn max_index(&self) -> usize { self.max }
}
impl<E: Uni, L: IntT> SeqMo for ResM<E, L> where E::F: UniformSized {
    type F = ResizableUniformSizedElementSeqFormat<E::F, L>; type V = E::V;
    fn fmt(&self) -> Self::F { Mo::fmt(self) }
    fn gen_elt(&self, s: &mut Src) -> E::V { self.e.gen1(s) }
    fn to_u(&self, v: &E::V) -> <E::F as Marshal>::U { self.e.to_u(v) }
    fn of_u(&self, u: &<E::F as Marshal>::U) -> E::V { self.e.of_u(u) }
    fn region(&self, s: &mut Src) -> usize { match s.below(12) { 0 => s.us(0, self.total), 1 | 2 | 3 => self.total + s.us(0, 7), _ => self.total } }
    fn seed(&self, n: usize, s: &mut Src) -> Vec<u8> {
        let mut b = match s.below(6) { 0 => le(gen_int(s, L::MAXV), L::SZ), 1 => le(self.maxlen() as u64, L::SZ), 2 => le((self.cap() as u64 + s.below(3)) & L::MAXV, L::SZ), _ => { let k = s.us(0, self.maxlen()); le(k as u64, L::SZ) } };
        let mut sub; let s = if n > 800 { sub = s.sub(); &mut sub } else { s };
        while b.len() + self.e.us() <= n { if s.chance(1, 6) { b.extend(s.bytes(self.e.us())); } else { let v = self.e.gen1(s); b.extend(self.e.enc(&v, s)); } }
        while b.len() < n { b.push(s.byte()); } b.truncate(n); b
    }
    fn len(&self, b: &[u8]) -> Option<u64> { if b.len() < self.total { None } else { Some(unle(&b[..L::SZ])) } }
    fn get(&self, b: &[u8], i: usize) -> Option<(usize, usize)> { let u = self.e.us(); if b.len() >= self.total && i < self.cap() { Some((L::SZ + i * u, L::SZ + i * u + u)) } else { None } }
    fn elt(&self, b: &[u8]) -> Option<E::V> { self.e.parse(b) }
    fn settable(&self, b: &[u8], i: usize) -> bool { b.len() >= self.total && i < self.cap() }
    fn resizable(&self, b: &[u8], n: usize) -> bool { b.len() >= self.total && n <= self.cap() && n as u64 <= L::MAXV }
    fn wf(&self, b: &[u8]) -> bool { b.len() >= self.total }
    fn appendable(&self, b: &[u8], _: &E::V) -> bool { let n = unle(&b[..L::SZ]); n < self.cap() as u64 && n < L::MAXV }
    fn max_index(&self) -> usize { self.cap() }
    fn init(&self, f: &Self::F, sl: &Slice, d: &mut Vec<u8>) -> bool { f.initialize(sl, d); true }
    fn init_ok(&self, b: &[u8]) -> bool { b.len() >= self.total }
    fn contiguous(&self) -> Option<(usize, usize)> { Some((L::SZ, self.e.us())) }
}
#[derive(Clone)] struct VarM<E, B, L> { e: E, total: usize, p: std::marker::PhantomData<(B, L)> }
fn vm<B, L, E>(e: E, total: usize) -> VarM<E, B, L> { VarM { e, total, p: std::marker::PhantomData } }
impl<E: Mo, B: IntT, L: IntT> VarM<E, B, L> {
    fn cap(&self) -> usize { (self.total - L::SZ) / B::SZ }
    fn bdy(&self, b: &[u8], i: usize) -> u64 { let o = L::SZ + i * B::SZ; unle(&b[o..o + B::SZ]) }
    fn free(&self, b: &[u8]) -> i64 { let n = unle(&b[..L::SZ]) as usize; let top = if n == 0 { self.total as u64 } else { self.bdy(b, n - 1) }; top as i64 - (L::SZ + n * B::SZ) as i64 }
}
impl<E: Mo, B: IntT, L: IntT> SeqMo for VarM<E, B, L> {
    type F = VariableSizedElementSeqFormat<E::F, B, L>; type V = E::V;
    fn fmt(&self) -> Self::F { VariableSizedElementSeqFormat::new(self.e.fmt(), IntFormat::new(), IntFormat::new(), self.total) }
    fn gen_elt(&self, s: &mut Src) -> E::V { self.e.gen(s) }
    fn to_u(&self, v: &E::V) -> <E::F as Marshal>::U { self.e.to_u(v) }
    fn of_u(&self, u: &<E::F as Marshal>::U) -> E::V { self.e.of_u(u) }
    fn region(&self, s: &mut Src) -> usize { match s.below(12) { 0 => s.us(0, self.total), 1 | 2 | 3 => self.total + s.us(0, 9), _ => self.total } }
    fn seed(&self, n: usize, s: &mut Src) -> Vec<u8> {
        // a filled sequence, then perhaps damage to the length or the boundary table
        let mut b = s.bytes(self.total);
        let (mut tbl, mut top) = (vec![], self.total);
        for _ in 0..s.below(9) { let v = self.e.gen(s); let e = self.e.enc(&v, s); if L::SZ + (tbl.len() + 1) * B::SZ + e.len() > top { break; } top -= e.len(); b[top..top + e.len()].copy_from_slice(&e); tbl.push(top); }
        b[..L::SZ].copy_from_slice(&le(tbl.len() as u64, L::SZ));
        for (i, t) in tbl.iter().enumerate() { let o = L::SZ + i * B::SZ; b[o..o + B::SZ].copy_from_slice(&le(*t as u64, B::SZ)); }
        if s.chance(1, 2) { for _ in 0..s.range(1, 2) {
            let k = s.us(0, tbl.len().min(self.cap().max(1) - 1)); let o = L::SZ + k * B::SZ;
            if s.chance(1, 4) { let x = match s.below(3) { 0 => gen_int(s, L::MAXV), 1 => tbl.len() as u64 + 1, _ => s.below(1 + self.cap() as u64 + 2) }; b[..L::SZ].copy_from_slice(&le(x & L::MAXV, L::SZ)); }
            else if o + B::SZ <= self.total { let old = unle(&b[o..o + B::SZ]); let x = match s.below(6) { 0 => gen_int(s, B::MAXV), 1 => old.wrapping_add(1), 2 => old.wrapping_sub(1), 3 => s.below(self.total as u64 + 3), 4 => (L::SZ + tbl.len() * B::SZ) as u64 - s.below(2).min(1), _ => if k > 0 { self.bdy(&b, k - 1) + s.below(2) } else { self.total as u64 + s.below(2) } }; b[o..o + B::SZ].copy_from_slice(&le(x & B::MAXV, B::SZ)); }
        } }
        b.resize(n.max(0), 0x5a); b.truncate(n); b
    }
    fn len(&self, b: &[u8]) -> Option<u64> { if b.len() < self.total { None } else { Some(unle(&b[..L::SZ])) } }
    fn get(&self, b: &[u8], i: usize) -> Option<(usize, usize)> {
        if b.len() < self.total || i as u64 >= unle(&b[..L::SZ]) || i >= self.cap() { return None; }
        let a = self.bdy(b, i); let z = if i == 0 { self.total as u64 } else { self.bdy(b, i - 1) };
        if a <= z && z <= self.total as u64 { Some((a as usize, z as usize)) } else { None }
    }
    fn elt(&self, b: &[u8]) -> Option<E::V> { self.e.parse(b) }
    fn settable(&self, _: &[u8], _: usize) -> bool { false }
    fn resizable(&self, _: &[u8], _: usize) -> bool { false }
    fn wf(&self, b: &[u8]) -> bool {
        if b.len() < self.total { return false; }
        let n = unle(&b[..L::SZ]); if n > self.cap() as u64 { return false; }
        let n = n as usize; let mut top = self.total as u64;
        for i in 0..n { let x = self.bdy(b, i); if x > top { return false; } top = x; }
        n == 0 || top >= (L::SZ + n * B::SZ) as u64
    }
    fn appendable(&self, b: &[u8], v: &E::V) -> bool { (B::SZ + self.e.size(v)) as i64 <= self.free(b) }
    fn max_index(&self) -> usize { self.cap() }
    fn init(&self, f: &Self::F, sl: &Slice, d: &mut Vec<u8>) -> bool { f.initialize(sl, d); true }
    fn init_ok(&self, b: &[u8]) -> bool { b.len() >= self.total }
}

macro_rules! any_seq { ($s:expr, $f:ident) => {{ let s: &mut Src = $s; if s.chance(1, 300) { s.label("large"); match s.below(6) {
    0 => $f(s, "fixed-seq<rec3> large", UniM { e: TriM, max: 22000 }),
    1 => { let t = s.us(65530, 66000); $f(s, "res-seq<u8,len16> large", rm::<u16, _>(im::<u8>(), t)) }
    2 => { let t = s.us(66000, 200000); $f(s, "res-seq<rec3,len32> large", rm::<u32, _>(TriM, t)) }
    3 => { let t = s.us(30000, 65535); $f(s, "var-seq<bytes,16,16> large", vm::<u16, u16, _>(UniM { e: im::<u8>(), max: 20000 }, t)) }
    4 => { let t = s.us(66000, 140000); $f(s, "var-seq<bytes,32,32> large", vm::<u32, u32, _>(UniM { e: im::<u8>(), max: 40000 }, t)) }
    _ => { let t = s.us(2000, 40000); $f(s, "var-seq<kv,16,64> large", vm::<u16, u64, _>(kv::<KvBytes16, _, _>(UniM { e: im::<u8>(), max: 3000 }, UniM { e: im::<u8>(), max: 3000 }), t)) }
} } else { match s.below(20) {
    0 => $f(s, "fixed-seq<u8>", UniM { e: im::<u8>(), max: 20 }), 1 => $f(s, "fixed-seq<u32>", UniM { e: im::<u32>(), max: 9 }), 2 => $f(s, "fixed-seq<rec3>", UniM { e: TriM, max: 9 }),
    3 => { let n = s.us(1, 9); $f(s, "fixed-seq<kvrec>", UniM { e: fx(n), max: 6 }) }
    4 => { let t = s.us(1, 40); $f(s, "res-seq<u8,len8>", rm::<u8, _>(im::<u8>(), t)) }
    5 => { let t = s.us(250, 300); $f(s, "res-seq<u8,len8> over 255 slots", rm::<u8, _>(im::<u8>(), t)) }
    6 => { let t = s.us(2, 40); $f(s, "res-seq<u16,len16>", rm::<u16, _>(im::<u16>(), t)) }
    7 => { let t = s.us(4, 80); $f(s, "res-seq<u64,len32>", rm::<u32, _>(im::<u64>(), t)) }
    8 => { let t = s.us(8, 60); $f(s, "res-seq<u32,len64>", rm::<u64, _>(im::<u32>(), t)) }
    9 => { let t = s.us(2, 40); $f(s, "res-seq<rec3,len16>", rm::<u16, _>(TriM, t)) }
    10 => { let t = s.us(1, 60); let n = s.us(1, 9); $f(s, "res-seq<kvrec,len8>", rm::<u8, _>(fx(n), t)) }
    11 => { let t = s.us(1, 255); $f(s, "var-seq<bytes,8,8>", vm::<u8, u8, _>(UniM { e: im::<u8>(), max: 12 }, t)) }
    12 => { let t = s.us(2, 120); $f(s, "var-seq<bytes,16,16>", vm::<u16, u16, _>(UniM { e: im::<u8>(), max: 14 }, t)) }
    13 => { let t = s.us(2, 120); $f(s, "var-seq<u32s,32,16>", vm::<u32, u16, _>(UniM { e: im::<u32>(), max: 4 }, t)) }
    14 => { let t = s.us(8, 160); $f(s, "var-seq<kv,16,64>", vm::<u16, u64, _>(kb8(), t)) }
    15 => { let t = s.us(4, 160); $f(s, "var-seq<kv,64,32>", vm::<u64, u32, _>(kb8(), t)) }
    16 => { let t = s.us(2, 200); $f(s, "var-seq<rec3s,16,16>", vm::<u16, u16, _>(UniM { e: TriM, max: 5 }, t)) }
    17 => { let t = s.us(4, 250); $f(s, "var-seq<kvnest,32,32>", vm::<u32, u32, _>(kv::<KvNest, _, _>(kb8(), kv::<KvTri32, _, _>(UniM { e: TriM, max: 3 }, UniM { e: im::<u16>(), max: 3 })), t)) }
    18 => { let t = s.us(1, 60); $f(s, "var-seq<u8,8,8>", vm::<u8, u8, _>(im::<u8>(), t)) }
    _ => { let t = s.us(2, 60); $f(s, "var-seq<empty-or-byte,16,16>", vm::<u16, u16, _>(UniM { e: im::<u8>(), max: 1 }, t)) }
} } }} }

/// every accessor agrees with the reference reading of the region
fn accessors<M: SeqMo>(m: &M, f: &M::F, slice: &Slice, data: &Vec<u8>, idxs: &[usize]) -> R {
    let b = &data[slice.start..slice.end];
    let want = m.len(b);
    let got = f.try_length(slice, data);
    ck!(got.map(|x| x as u64) == want, "length reported as {:?}, should be {:?}", got, want);
    ck!(f.exec_lengthable(slice, data) == want.is_some(), "length-available reported wrongly (should be {})", want.is_some());
    if let Some(w) = want { let g = f.exec_length(slice, data); ck!(g as u64 == w, "checked length is {}, should be {}", g, w); }
    for &i in idxs {
        let want = m.get(b, i);
        let got = f.try_get(slice, data, i).map(|x| (x.start, x.end));
        ck!(got == want.map(|(a, z)| (slice.start + a, slice.start + z)), "element {} located at {:?}, should be {:?} relative to the region at {}", i, got, want, slice.start);
        ck!(f.exec_gettable(slice, data, i) == want.is_some(), "element {} availability should be {}", i, want.is_some());
        let welt = want.and_then(|(a, z)| m.elt(&b[a..z]));
        let gelt = f.try_get_elt(slice, data, i).map(|u| m.of_u(&u));
        ck!(gelt == welt, "element {} reads {:?}, should be {:?}", i, gelt, welt);
        if let Some((a, z)) = want { let g = f.exec_get(slice, data, i); ck!((g.start, g.end) == (slice.start + a, slice.start + z), "checked get of element {} gives {}..{}, should be {}..{} after {}", i, g.start, g.end, a, z, slice.start); }
        if let Some(w) = welt { let g = m.of_u(&f.exec_get_elt(slice, data, i)); ck!(g == w, "checked element {} reads {:?}, should be {:?}", i, g, w); }
    }
    ck!(f.exec_well_formed(slice, data) == m.wf(b), "well-formedness should be {}", m.wf(b));
    Ok(())
}
fn place(b: Vec<u8>, s: &mut Src) -> (Slice, Vec<u8>) {
    let (pre, post) = (if s.chance(1, 4) { 0 } else { s.us(0, 12) }, if s.chance(1, 4) { 0 } else { s.us(0, 12) });
    let fill = s.byte(); let n = b.len();
    let mut d: Vec<u8> = (0..pre).map(|i| (i as u8).wrapping_mul(29) ^ fill).collect(); d.extend(b); d.extend((0..post).map(|i| (i as u8).wrapping_mul(31).wrapping_add(fill)));
    (sl(pre, pre + n), d)
}
fn idxs<M: SeqMo>(m: &M, b: &[u8], s: &mut Src) -> Vec<usize> {
    let mut v: Vec<usize> = (0..m.max_index().min(14)).collect();
    let n = m.len(b).unwrap_or(0).min(1 << 30) as usize;
    v.extend([m.max_index().saturating_sub(1), m.max_index(), m.max_index() + 1, n.saturating_sub(1), n, n + 1, s.us(0, m.max_index() + 2)]);
    v.sort(); v.dedup(); v
}
fn acc<M: SeqMo>(s: &mut Src, name: &'static str, m: M) -> R {
    s.label(name);
    let f = m.fmt(); let n = m.region(s);
    let b = if s.chance(1, 5) { s.bytes(n) } else { m.seed(n, s) };
    let ix = idxs(&m, &b, s);
    s.label(match m.len(&b) { None => "region too short", Some(_) if (0..m.max_index().min(40)).any(|i| m.get(&b, i).map_or(false, |(a, z)| m.elt(&b[a..z]).is_none())) => "some element unreadable", Some(0) => "empty", _ => "readable" });
    if m.wf(&b) { s.label("well-formed"); }
    let (slice, data) = place(b, s);
    s.note = format!("{} region {:?} at offset {}", name, &data[slice.start..slice.end], slice.start);
    accessors(&m, &f, &slice, &data, &ix)
}
fn m03(s: &mut Src) -> R { any_seq!(s, acc) }

// ---------------------------------------------------------------------------------- M04 histories of in-place edits
/// the indices whose entries an edit is checked against: all of them, or in a large region those near the ends and length
fn watched<M: SeqMo>(m: &M, b: &[u8], extra: usize) -> Vec<usize> {
    let c = m.max_index(); let n = m.len(b).unwrap_or(0).min(c as u64) as usize;
    if c <= 400 { return (0..c).collect(); }
    let mut ix: Vec<usize> = (0..60).chain(n.saturating_sub(20)..(n + 20).min(c)).chain(c - 20..c).chain(250..262).chain(extra.saturating_sub(2)..(extra + 3).min(c)).collect(); ix.sort(); ix.dedup(); ix
}
fn entries<M: SeqMo>(m: &M, b: &[u8], ix: &[usize]) -> Vec<(usize, M::V)> { ix.iter().filter_map(|&i| m.get(b, i).and_then(|(a, z)| m.elt(&b[a..z])).map(|v| (i, v))).collect() }
fn hist<M: SeqMo>(s: &mut Src, name: &'static str, m: M) -> R {
    s.label(name);
    let f = m.fmt(); let n = m.region(s);
    let b = m.seed(n, s);
    let (slice, mut data) = place(b, s);
    s.note = format!("{} region {:?} at offset {}:", name, &data[slice.start..slice.end], slice.start);
    let ops = s.us(1, 14);
    let fillup = s.chance(1, 3); if fillup { s.label("fill"); }
    for _ in 0..ops {
        let old = data.clone(); let ob = old[slice.start..slice.end].to_vec();
        let olen = m.len(&ob);
        match if fillup { 7 } else { s.below(10) } {
            0 if m.init_ok(&ob) => {
                s.note.push_str(" initialize");
                m.init(&f, &slice, &mut data);
                let nb = &data[slice.start..slice.end];
                ck!(m.len(nb) == Some(0), "initialised region has length {:?}", m.len(nb)); ck!(m.wf(nb), "initialised region is not well-formed"); s.label("initialize");
            }
            1 | 2 | 3 => {
                let i = if s.chance(1, 5) { m.max_index() } else { s.us(0, m.max_index()) }; let v = m.gen_elt(s);
                let want = m.settable(&ob, i); let got = f.exec_settable(&slice, &data, i, &m.to_u(&v));
                s.note.push_str(&format!(" set[{}]={:?}", i, v));
                ck!(got == want, "setting element {} reported possible={}, should be {}", i, got, want);
                if !want { continue; }
                let ix = watched(&m, &ob, i); let before = entries(&m, &ob, &ix);
                f.exec_set(&slice, &mut data, i, &m.to_u(&v)); s.label("set");
                let nb = &data[slice.start..slice.end]; let mut want: Vec<_> = before.into_iter().filter(|e| e.0 != i).collect(); want.push((i, v)); want.sort_by_key(|e| e.0);
                ck!(entries(&m, nb, &ix) == want, "after the set the entries are {:?}, should be {:?}", entries(&m, nb, &ix), want);
                ck!(m.len(nb) == olen, "set changed the length from {:?} to {:?}", olen, m.len(nb));
            }
            4 | 5 => {
                let k = if s.chance(1, 4) { m.max_index() + s.us(0, 1) } else { s.us(0, m.max_index()) };
                let want = m.resizable(&ob, k); let got = f.exec_resizable(&slice, &data, k);
                s.note.push_str(&format!(" resize({})", k));
                ck!(got == want, "resizing to {} reported possible={}, should be {}", k, got, want);
                if !want { continue; }
                let ix = watched(&m, &ob, k); let before = entries(&m, &ob, &ix);
                f.resize(&slice, &mut data, k); s.label("resize");
                let nb = &data[slice.start..slice.end];
                ck!(m.len(nb) == Some(k as u64), "resized to {} but length is {:?}", k, m.len(nb));
                ck!(entries(&m, nb, &ix) == before, "resize changed entries {:?} to {:?}", before, entries(&m, nb, &ix));
            }
            _ => {
                let wf = m.wf(&ob); let g = f.exec_well_formed(&slice, &data);
                ck!(g == wf, "well-formedness reported {}, should be {}", g, wf);
                if !wf { continue; }
                let v = m.gen_elt(s); let want = m.appendable(&ob, &v); let got = f.exec_appendable(&slice, &data, &m.to_u(&v));
                s.note.push_str(&format!(" append({:?})", v));
                ck!(got == want, "appending reported possible={}, should be {}", got, want);
                if !want { s.label("append refused"); continue; }
                let slot = olen.unwrap() as usize; let ix = watched(&m, &ob, slot); let before = entries(&m, &ob, &ix);
                f.exec_append(&slice, &mut data, &m.to_u(&v)); s.label("append");
                let nb = &data[slice.start..slice.end];
                ck!(m.len(nb) == Some(slot as u64 + 1), "append took the length from {} to {:?}", slot, m.len(nb));
                let mut want: Vec<_> = before.into_iter().filter(|e| e.0 != slot).collect(); want.push((slot, v)); want.sort_by_key(|e| e.0);
                ck!(entries(&m, nb, &ix) == want, "after the append the entries are {:?}, should be {:?}", entries(&m, nb, &ix), want);
                ck!(m.wf(nb), "append broke well-formedness");
                if let Some((h, u)) = m.contiguous() { let from = (h + (slot + 1) * u).min(nb.len()); ck!(nb[from..] == ob[from..], "append changed bytes past the appended element"); }
            }
        }
        ck!(data.len() == old.len(), "buffer length changed");
        ck!(data[..slice.start] == old[..slice.start] && data[slice.end..] == old[slice.end..], "bytes outside the region changed");
    }
    let b = data[slice.start..slice.end].to_vec(); let ix = idxs(&m, &b, s);
    accessors(&m, &f, &slice, &data, &ix)
}
fn m04(s: &mut Src) -> R { any_seq!(s, hist) }

// -------------------------------------------------------------------------------------- M05 capacity is exact
/// Fill an empty region until the format refuses: it refuses exactly when the bytes no longer fit, whatever was
/// accepted is there, and integers of the length/boundary fields never wrap.
fn cap<M: SeqMo>(s: &mut Src, name: &'static str, m: M) -> R {
    let f = m.fmt(); let n = m.region(s); let junk = s.bytes(n);
    if !m.init_ok(&junk) { return Ok(()); }
    s.label(name);
    let (slice, mut data) = place(junk, s); let outer = data.clone();
    m.init(&f, &slice, &mut data);
    let mut model: Vec<M::V> = vec![]; let mut refused = 0; let mut v = m.gen_elt(s);
    s.note = format!("{} region of {} bytes at {}: append", name, n, slice.start);
    while refused < 4 && model.len() < if m.max_index() > 1000 { 90 } else { 400 } {
        if !s.chance(1, 4) { v = m.gen_elt(s); }
        let b = &data[slice.start..slice.end];
        ck!(f.exec_well_formed(&slice, &data), "a filled region stopped being well-formed after {} appends", model.len());
        let want = m.appendable(b, &v); let got = f.exec_appendable(&slice, &data, &m.to_u(&v));
        if model.len() < 6 { s.note.push_str(&format!(" {:?}", v)); }
        ck!(got == want, "with {} elements stored, appending {:?} reported possible={}, should be {}", model.len(), v, got, want);
        if !want { refused += 1; s.label("filled to capacity"); continue; }
        f.exec_append(&slice, &mut data, &m.to_u(&v)); model.push(v.clone());
        let l = f.exec_length(&slice, &data); ck!(l == model.len(), "length {} after {} appends", l, model.len());
    }
    if model.len() >= 200 { s.label("200 or more elements"); }
    for (i, v) in model.iter().enumerate() { let g = f.try_get_elt(&slice, &data, i).map(|u| m.of_u(&u)); ck!(g.as_ref() == Some(v), "element {} of {} reads {:?}, was appended as {:?}", i, model.len(), g, v); }
    ck!(data[..slice.start] == outer[..slice.start] && data[slice.end..] == outer[slice.end..], "bytes outside the region changed");
    let ix = idxs(&m, &data[slice.start..slice.end].to_vec(), s);
    accessors(&m, &f, &slice, &data, &ix)
}
fn m05(s: &mut Src) -> R { any_seq!(s, cap) }

// ------------------------------------------------------------------------------------------ integers and slices
fn ints<T: IntT>(s: &mut Src) -> R {
    let v = gen_int(s, T::MAXV);
    s.note = format!("{}-byte integer {}", T::SZ, v);
    ck!(T::exec_uniform_size() == T::SZ, "size of a {}-byte integer is {}", T::SZ, T::exec_uniform_size());
    ck!(IntFormat::<T>::new().exec_uniform_size() == T::SZ, "format size");
    ck!(T::exec_max() as u64 == T::MAXV, "max {}", T::exec_max());
    ck!(T::to_usize(T::of(v)) as u64 == v, "to_usize({}) = {}", v, T::to_usize(T::of(v)));
    ck!(T::from_usize(v as usize).to() == v, "from_usize({}) = {:?}", v, T::from_usize(v as usize));
    let b = <T as IntFormattable>::to_le_bytes(T::of(v)); ck!(b == le(v, T::SZ), "little-endian bytes {:?}", b);
    let r = <T as IntFormattable>::from_le_bytes(&le(v, T::SZ)); ck!(r.to() == v, "from bytes gives {:?}", r);
    Ok(())
}
fn m06(s: &mut Src) -> R {
    match s.below(5) {
        0 => { s.label("u8"); ints::<u8>(s) } 1 => { s.label("u16"); ints::<u16>(s) } 2 => { s.label("u32"); ints::<u32>(s) } 3 => { s.label("u64"); ints::<u64>(s) }
        _ => {
            s.label("slices");
            let n = s.us(0, 60); let data: Vec<u8> = (0..n).map(|i| i as u8).collect();
            let all = Slice::all(&data); ck!(all.start == 0 && all.end == n && all.len() == n, "whole-buffer slice is {}..{}", all.start, all.end);
            let a = s.us(0, n); let z = s.us(a, n); let outer = sl(a, z);
            ck!(outer.len() == z - a, "slice length {}", outer.len());
            let p = s.us(0, z - a); let q = s.us(p, z - a);
            let i1 = outer.subslice(p, q); let i2 = outer.xslice(&sl(p, q)); let i3 = outer.drop(p);
            s.note = format!("slice {}..{} then {}..{}", a, z, p, q);
            ck!(data[i1.start..i1.end] == data[a..z][p..q], "sub-slice is {}..{}", i1.start, i1.end);
            ck!(data[i2.start..i2.end] == data[a..z][p..q], "composed slice is {}..{}", i2.start, i2.end);
            ck!(data[i3.start..i3.end] == data[a..z][p..], "dropped slice is {}..{}", i3.start, i3.end);
            Ok(())
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect(); // marsh PROP TIER SEED EVIDENCE REPLAYDIR | marsh PROP --replay FILE
    std::panic::set_hook(Box::new(|_| {}));
    let t = |ls: &[&'static str]| ls.is_empty();
    let asm = ["the byte layouts documented in the marshalling sources are the reference", "integers and buffers of at most a few hundred bytes", "compiled by the installed Verus with proofs erased and arithmetic overflow checked"];
    let (f, quick, thorough, rule, triv): (Case, u64, u64, &str, fn(&[&'static str]) -> bool) = match a[1].as_str() {
        "M01" => (m01, 2_000_000, 20_000_000, "a format (24 shapes, four integer widths, nested) and a value of it at a random offset; non-trivial: more than 8 bytes or not at offset 0", |l| !l.contains(&"over 8 bytes") && !l.contains(&"nonzero offset")),
        "M02" => (m02, 3_000_000, 40_000_000, "random, small-alphabet or damaged-valid bytes parsed as a random format inside a larger buffer; every case is non-trivial that reaches a parse", t),
        "M03" => (m03, 2_000_000, 30_000_000, "a stored sequence (valid, damaged or random bytes) read through every accessor at every small index and around its bounds; non-trivial: the region can hold the sequence", |l| l.contains(&"region too short")),
        "M04" => (m04, 1_500_000, 20_000_000, "a stored sequence and up to 14 initialize/set/resize/append edits; non-trivial: at least one edit was applied", |l| !l.iter().any(|x| ["set", "append", "resize", "initialize"].contains(x))),
        "M05" => (m05, 800_000, 10_000_000, "an empty region appended to until refused four times; non-trivial: it was filled to capacity", |l| !l.contains(&"filled to capacity")),
        "M06" => (m06, 3_000_000, 30_000_000, "integers (biased to boundaries) of each width, and compositions of slices; every case non-trivial", t),
        p => { eprintln!("unknown property {}", p); std::process::exit(3) }
    };
    if a.len() > 3 && a[2] == "--replay" {
        let txt = std::fs::read_to_string(&a[3]).unwrap(); let i = txt.find("\"tape\": [").unwrap() + 9; let j = txt[i..].find(']').unwrap() + i;
        let tape = txt[i..j].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
        let o = run_case(f, Src::replay(tape)); println!("{}\n{:?}", o.note, o.err); std::process::exit(if o.err.is_some() { 1 } else { 0 });
    }
    let n = std::env::var("VERIF_CASES").ok().and_then(|x| x.parse().ok()).unwrap_or(if a[2] == "thorough" { thorough } else { quick });
    std::process::exit(main_check(&a[1], &a[2], a[3].parse().unwrap(), n, f, rule, triv, &asm, &a[4], &a[5]));
}
