use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use crate::marshalling::Slice_v::*;
use crate::marshalling::Marshalling_v::*;
use crate::marshalling::IntegerMarshalling_v::*;
use crate::marshalling::StaticallySized_v::*;
use crate::marshalling::UniformSized_v::*;
use crate::marshalling::UniformSizedSeq_v::*;
use crate::marshalling::ResizableUniformSizedSeq_v::*;
use crate::marshalling::KVPairFormat_v::*;

verus! {

// Three bytes: a tag (parsable only when < 0xC0) and a big-endian 16-bit payload.
#[derive(Clone, Copy)]
pub struct Tri { pub tag: u8, pub val: u16 }

impl Deepview<(int, int)> for Tri {
    open spec fn deepv(&self) -> (int, int) { (self.tag as int, self.val as int) }
}

pub struct TriFormat {}

impl Marshal for TriFormat {
    type DV = (int, int);
    type U = Tri;
    open spec fn valid(&self) -> bool { true }
    open spec fn parsable(&self, data: Seq<u8>) -> bool { data.len() >= 3 && data[0] < 0xC0 }
    open spec fn parse(&self, data: Seq<u8>) -> (int, int) { (data[0] as int, data[1] as int * 256 + data[2] as int) }

    exec fn try_parse(&self, slice: &Slice, data: &Vec<u8>) -> (ov: Option<Tri>)
    {
        assume(false);
        if slice.end - slice.start < 3 { return None; }
        if data[slice.start] >= 0xC0 { return None; }
        let hi = data[slice.start + 1] as u16;
        let lo = data[slice.start + 2] as u16;
        Some(Tri { tag: data[slice.start], val: hi * 256 + lo })
    }

    open spec fn marshallable(&self, value: (int, int)) -> bool { value.0 < 0xC0 }
    open spec fn spec_size(&self, value: (int, int)) -> usize { 3 }
    exec fn exec_size(&self, value: &Tri) -> (sz: usize) { 3 }
    exec fn exec_marshall(&self, value: &Tri, data: &mut Vec<u8>, start: usize) -> (end: usize)
    {
        assume(false);
        data.set(start, value.tag);
        data.set(start + 1, (value.val / 256) as u8);
        data.set(start + 2, (value.val % 256) as u8);
        start + 3
    }
}

impl UniformSized for TriFormat {
    open spec fn uniform_size(&self) -> (sz: usize) { 3 }
    proof fn uniform_size_ensures(&self) {}
    exec fn exec_uniform_size(&self) -> (sz: usize) { 3 }
}

// A fixed-size-record format around any format: always N bytes, whatever the inner value needs (used to make
// elements that are themselves structured: N-byte key-value records).
pub struct FixedFormat<F: Marshal> { pub inner: F, pub n: usize }

impl<F: Marshal> Marshal for FixedFormat<F> {
    type DV = F::DV;
    type U = F::U;
    open spec fn valid(&self) -> bool { self.inner.valid() && 0 < self.n }
    open spec fn parsable(&self, data: Seq<u8>) -> bool { data.len() >= self.n && self.inner.parsable(data.subrange(0, self.n as int)) }
    open spec fn parse(&self, data: Seq<u8>) -> F::DV { self.inner.parse(data.subrange(0, self.n as int)) }

    exec fn try_parse(&self, slice: &Slice, data: &Vec<u8>) -> (ov: Option<F::U>)
    {
        assume(false);
        if slice.end - slice.start < self.n { return None; }
        self.inner.try_parse(&Slice { start: slice.start, end: slice.start + self.n }, data)
    }

    open spec fn marshallable(&self, value: F::DV) -> bool { self.inner.marshallable(value) && self.inner.spec_size(value) == self.n }
    open spec fn spec_size(&self, value: F::DV) -> usize { self.n }
    exec fn exec_size(&self, value: &F::U) -> (sz: usize) { assume(false); self.n }
    exec fn exec_marshall(&self, value: &F::U, data: &mut Vec<u8>, start: usize) -> (end: usize)
    {
        assume(false);
        let e = self.inner.exec_marshall(value, data, start);
        start + self.n
    }
}

impl<F: Marshal> UniformSized for FixedFormat<F> {
    open spec fn uniform_size(&self) -> (sz: usize) { self.n }
    proof fn uniform_size_ensures(&self) { assume(false); }
    exec fn exec_uniform_size(&self) -> (sz: usize) { self.n }
}

// Key/value bundles.
pub struct KvBytes8 {}
impl KVTrait for KvBytes8 {
    type LenType = u8;
    type KeyFormat = UniformSizedElementSeqFormat<IntFormat<u8>>;
    type DataFormat = UniformSizedElementSeqFormat<IntFormat<u8>>;
    exec fn key_format_new() -> Self::KeyFormat { assume(false); UniformSizedElementSeqFormat::new(IntFormat::new()) }
    exec fn data_format_new() -> Self::DataFormat { assume(false); UniformSizedElementSeqFormat::new(IntFormat::new()) }
}
pub struct KvBytes16 {}
impl KVTrait for KvBytes16 {
    type LenType = u16;
    type KeyFormat = UniformSizedElementSeqFormat<IntFormat<u8>>;
    type DataFormat = UniformSizedElementSeqFormat<IntFormat<u8>>;
    exec fn key_format_new() -> Self::KeyFormat { assume(false); UniformSizedElementSeqFormat::new(IntFormat::new()) }
    exec fn data_format_new() -> Self::DataFormat { assume(false); UniformSizedElementSeqFormat::new(IntFormat::new()) }
}
pub struct KvTri32 {}
impl KVTrait for KvTri32 {
    type LenType = u32;
    type KeyFormat = UniformSizedElementSeqFormat<TriFormat>;
    type DataFormat = UniformSizedElementSeqFormat<IntFormat<u16>>;
    exec fn key_format_new() -> Self::KeyFormat { assume(false); UniformSizedElementSeqFormat::new(TriFormat {}) }
    exec fn data_format_new() -> Self::DataFormat { assume(false); UniformSizedElementSeqFormat::new(IntFormat::new()) }
}
pub struct KvIntRes {}
impl KVTrait for KvIntRes {
    type LenType = u16;
    type KeyFormat = IntFormat<u32>;
    type DataFormat = ResizableUniformSizedElementSeqFormat<TriFormat, u8>;
    exec fn key_format_new() -> Self::KeyFormat { assume(false); IntFormat::new() }
    exec fn data_format_new() -> Self::DataFormat { assume(false); ResizableUniformSizedElementSeqFormat::new(TriFormat {}, IntFormat::new(), 24) }
}
pub struct KvNest {}
impl KVTrait for KvNest {
    type LenType = u8;
    type KeyFormat = KVPairFormat<KvBytes8>;
    type DataFormat = KVPairFormat<KvTri32>;
    exec fn key_format_new() -> Self::KeyFormat { assume(false); KVPairFormat::new() }
    exec fn data_format_new() -> Self::DataFormat { assume(false); KVPairFormat::new() }
}

} // verus!
