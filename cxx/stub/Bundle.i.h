// Declarations that the compiled Dafny bundle provides to /repo/framework: a model store stands in for the verified code.
#pragma once
#include "DafnyRuntime.h"
#include "Framework.h"
#include "BundleWrapper.h"
struct ModelStore;
namespace NodeImpl_Compile { struct Node { uint64 x = 0; }; }
namespace UI_Compile {
  typedef DafnySequence<uint8> Bytes;
  struct SuccResult { Bytes key, value; SuccResult() { } SuccResult(Bytes k, Bytes v) : key(k), value(v) { } bool operator==(SuccResult const &o) const { return key == o.key && value == o.value; } };
#define KINDED(N) Bytes k; N() { } N(int t, Bytes b) : tag(t), k(b) { } int tag = 0; Bytes dtor_key() const { return k; }
  struct RangeStart { KINDED(RangeStart)
    static RangeStart create_SInclusive(Bytes b) { return RangeStart(0, b); }
    static RangeStart create_SExclusive(Bytes b) { return RangeStart(1, b); }
    static RangeStart create_NegativeInf() { return RangeStart(2, Bytes()); }
    bool is_RangeStart_SInclusive() const { return tag == 0; }
    bool is_RangeStart_SExclusive() const { return tag == 1; }
    bool is_RangeStart_NegativeInf() const { return tag == 2; } };
  struct RangeEnd { KINDED(RangeEnd)
    static RangeEnd create_EInclusive(Bytes b) { return RangeEnd(0, b); }
    static RangeEnd create_EExclusive(Bytes b) { return RangeEnd(1, b); }
    static RangeEnd create_PositiveInf() { return RangeEnd(2, Bytes()); }
    bool is_RangeEnd_EInclusive() const { return tag == 0; }
    bool is_RangeEnd_EExclusive() const { return tag == 1; }
    bool is_RangeEnd_PositiveInf() const { return tag == 2; } };
#undef KINDED
  struct SuccResultList { DafnySequence<SuccResult> results; RangeEnd end; SuccResultList() { } SuccResultList(DafnySequence<SuccResult> r, RangeEnd e) : results(r), end(e) { } };
}
namespace FullImpl_Compile { struct Full { std::shared_ptr<ModelStore> m; }; }
