// The entry points of the compiled Dafny bundle, answered by the model store (app.cpp).
#include "Bundle.i.h"
template <typename T> struct Opt { bool some = false; T v; bool is_Option_Some() const { return some; } bool is_Option_None() const { return !some; } T dtor_value() const { return v; } };
typedef std::shared_ptr<MainDiskIOHandler_Compile::DiskIOHandler> IOP;
typedef DafnySequence<uint8> BY;
std::shared_ptr<ModelStore> model_new();
DafnyMap<uint64, BY> model_mkfs();
void model_evict(ModelStore &, IOP); void model_count(ModelStore &, IOP);
uint64 model_pushSync(ModelStore &, IOP);
std::pair<bool, bool> model_popSync(ModelStore &, IOP, uint64, bool);
bool model_insert(ModelStore &, IOP, BY, BY);
bool model_query(ModelStore &, IOP, BY, BY &);
bool model_succ(ModelStore &, IOP, UI_Compile::RangeStart, uint64, UI_Compile::SuccResultList &);
void model_readResponse(ModelStore &, IOP); void model_writeResponse(ModelStore &, IOP);
namespace KeyType_Compile { struct __default { static uint64 MaxLen() { return 512; } }; }
namespace ValueType_Compile { struct __default { static uint64 MaxLen() { return 1024; } }; }
namespace MainHandlers_Compile {
  using FullImpl_Compile::Full;
  struct __default {
    static Full InitState() { Full f; f.m = model_new(); return f; }
    static DafnyMap<uint64, BY> Mkfs() { return model_mkfs(); }
    static void handleEvictEverything(Full &f, IOP io) { model_evict(*f.m, io); }
    static void handleCountAmassAllocations(Full &f, IOP io) { model_count(*f.m, io); }
    static uint64 handlePushSync(Full &f, IOP io) { return model_pushSync(*f.m, io); }
    static Tuple<bool, bool> handlePopSync(Full &f, IOP io, uint64 id, bool g) { auto p = model_popSync(*f.m, io, id, g); return Tuple<bool, bool>(p.first, p.second); }
    static bool handleInsert(Full &f, IOP io, BY k, BY v) { return model_insert(*f.m, io, k, v); }
    static Opt<BY> handleQuery(Full &f, IOP io, BY k) { Opt<BY> r; r.some = model_query(*f.m, io, k, r.v); return r; }
    static Opt<UI_Compile::SuccResultList> handleSucc(Full &f, IOP io, UI_Compile::RangeStart s, uint64 n) { Opt<UI_Compile::SuccResultList> r; r.some = model_succ(*f.m, io, s, n, r.v); return r; }
    static void handleReadResponse(Full &f, IOP io) { model_readResponse(*f.m, io); }
    static void handleWriteResponse(Full &f, IOP io) { model_writeResponse(*f.m, io); }
  };
}
