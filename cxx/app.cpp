// The application layer (retry loops, paging, syncs, crash) over a model of the verified store.
#include "sim.h"
#include "Application.h"
#include "Bundle.i.h"
typedef DafnySequence<uint8> BY; typedef std::shared_ptr<MainDiskIOHandler_Compile::DiskIOHandler> IOP;
static std::string S(uint64_t x) { return std::to_string(x); }
static std::string str(BY const &b) { return std::string((const char *)b.ptr(), b.size()); }
static BY by(std::string const &s) { BY r((uint64)s.size()); memcpy(r.ptr(), s.data(), s.size()); return r; }
static std::string hex(std::string const &s) { std::string r; char b[4]; for (unsigned char ch : s.substr(0, 24)) { snprintf(b, 4, "%02x", ch); r += b; } return r + (s.size() > 24 ? "..(" + S(s.size()) + ")" : ""); }
static const int BLK = 16384, NB = 40;
static struct { Tape *t; std::map<std::string, std::string> stable; int limit = 4; uint64_t inserts = 0, queries = 0, evicts = 0, counts = 0, pushes = 0, popsAfter = 0; bool zeroId = false; int hot = 4; bool lastGraph = false; uint64_t lastPop = 0; std::string insK, insV, qK; std::vector<uint64_t> badIds; bool wantGraph = false; uint64_t wantId = 0; int calls = 0; bool readsOnly = false; } G;
struct ModelStore {
  std::map<std::string, std::string> m; bool reading = false; uint64_t rid = 0; std::vector<uint8_t> rdata; std::map<uint64_t, std::pair<uint64_t, uint64_t>> writes; uint64_t next = 1; std::map<uint64_t, int> syncs; std::map<std::string, std::string> frozen; std::set<uint64_t> blocks; std::map<uint64_t, std::map<std::string, std::string>> snap;
  void wr(IOP io) { uint64_t b = 0; for (int i = 0; i < NB; i++) { b = (i * 7 + next) % NB; if (!blocks.count(b)) break; } if (blocks.count(b)) return; next++; blocks.insert(b); std::vector<uint8_t> v(4096 * (1 + G.t->below(2)), (uint8_t)next); uint64_t id = io->write(b * BLK, BY(v)); CHECK(!writes.count(id), "a write id is used twice"); writes[id] = {b * BLK, v.size()}; }
  // may the operation proceed now? otherwise it needs the disk
  bool busy(IOP io) {
    CHECK(++G.calls < 3000, "an operation is retried without ever letting the disk answer");
    if (reading || (int)writes.size() >= G.limit) return true;
    uint32_t k = G.t->below(G.hot); if (G.hot > 2 && k == 2) { uint64_t a = G.t->below(NB) * BLK; if (blocks.count(a / BLK)) return false; rid = io->read(a, 4096); reading = true; rdata.assign(sim.disk.begin() + a, sim.disk.begin() + a + 4096); return true; }
    if (k == 1 && !G.readsOnly) { wr(io); return G.t->bit(); } return false;
  }
};
std::shared_ptr<ModelStore> model_new() { auto s = std::make_shared<ModelStore>(); s->m = G.stable; return s; }
#ifdef ROWCACHE
DafnyMap<uint64, BY> model_mkfs() { return DafnyMap<uint64, BY>(); }
#endif
void model_evict(ModelStore &, IOP) { G.evicts++; }
void model_count(ModelStore &, IOP) { G.counts++; }
uint64 model_pushSync(ModelStore &s, IOP) { G.pushes++; if (G.zeroId) return 0; uint64_t id = s.next++; s.syncs[id] = G.t->below(4); s.snap[id] = s.m; G.wantId = id; return id; }
std::pair<bool, bool> model_popSync(ModelStore &s, IOP io, uint64 id, bool g) {
  CHECK(++G.calls < 3000, "a sync is retried without ever letting the disk answer"); CHECK(id == G.wantId, "a sync asks about another sync"); CHECK(g == G.wantGraph, "a sync is asked for with the wrong kind"); CHECK(s.syncs.count(id), "a sync is asked about after it finished");
  if (!s.writes.empty()) return {true, false}; if (s.syncs[id] > 0) { s.syncs[id]--; s.wr(io); return {G.t->bit() && !s.writes.empty(), false}; } G.stable = s.snap[id]; s.syncs.erase(id); return {G.t->bit(), true}; }
bool model_insert(ModelStore &s, IOP io, BY k, BY v) { CHECK(k.size() <= 512 && v.size() <= 1024, "an over-long key or value reaches the store"); if (s.busy(io)) return false; G.inserts++; G.insK = str(k); G.insV = str(v); s.m[str(k)] = str(v); return true; }
bool model_query(ModelStore &s, IOP io, BY k, BY &v) { CHECK(k.size() <= 512, "an over-long key reaches the store"); if (s.busy(io)) return false; G.queries++; G.qK = str(k); auto i = s.m.find(str(k)); v = i == s.m.end() ? by("") : by(i->second); return true; }
bool model_succ(ModelStore &s, IOP io, UI_Compile::RangeStart st, uint64 n, UI_Compile::SuccResultList &out) {
  CHECK(n >= 1, "a range read for no result"); CHECK(st.is_RangeStart_NegativeInf() || st.dtor_key().size() <= 512, "an over-long key reaches the store"); if (s.busy(io)) return false;
  std::string k0 = str(st.dtor_key()); bool inc = st.is_RangeStart_SInclusive(), neg = st.is_RangeStart_NegativeInf(); auto i = neg ? s.m.begin() : inc ? s.m.lower_bound(k0) : s.m.upper_bound(k0);
  std::vector<UI_Compile::SuccResult> r; uint64_t lim = 1 + G.t->below(5); if (G.t->below(4) == 3) lim = 0; while (i != s.m.end() && r.size() < n && r.size() < lim) { r.push_back(UI_Compile::SuccResult(by(i->first), by(i->second))); ++i; }
  auto ok = [&](std::string const &e, bool incl) { if (!neg && (e < k0 || (e == k0 && !(inc && incl)))) return false; if (r.size()) { auto l = str(r.back().key); if (e < l || (e == l && !incl)) return false; } return i == s.m.end() || e < i->first || (e == i->first && !incl); };
  std::vector<UI_Compile::RangeEnd> c; auto add = [&](std::string const &e) { if (e.size() > 512) return; if (ok(e, true)) c.push_back(UI_Compile::RangeEnd::create_EInclusive(by(e))); if (ok(e, false)) c.push_back(UI_Compile::RangeEnd::create_EExclusive(by(e))); };
  if (i == s.m.end()) c.push_back(UI_Compile::RangeEnd::create_PositiveInf()); if (r.size()) { add(str(r.back().key)); add(str(r.back().key) + std::string(1, 0)); } if (i != s.m.end()) add(i->first); if (!neg) { add(k0 + std::string(1, 0)); add(k0); }
  if (c.empty()) { CHECK(i != s.m.end(), "harness: no range end"); r.push_back(UI_Compile::SuccResult(by(i->first), by(i->second))); c.push_back(UI_Compile::RangeEnd::create_EInclusive(by(i->first))); }
  out = UI_Compile::SuccResultList(DafnySequence<UI_Compile::SuccResult>(r), c[G.t->below(c.size())]); return true; }
void model_readResponse(ModelStore &s, IOP io) { G.calls = 0; CHECK(s.reading, "a read is answered that the store did not ask for"); auto r = io->getReadResult(); CHECK(r.get<0>() == s.rid && r.get<2>().size() == 4096 && !memcmp(r.get<2>().ptr(), s.rdata.data(), 4096), "a read is answered with the wrong data"); s.reading = false; }
void model_writeResponse(ModelStore &s, IOP io) { G.calls = 0; auto r = io->getWriteResult(); auto i = s.writes.find(r.get<0>()); CHECK(i != s.writes.end(), "a write is reported that the store did not ask for"); CHECK(i->second.first == r.get<1>() && i->second.second == r.get<2>(), "a write is reported with the wrong place"); s.blocks.erase(r.get<1>() / BLK); s.writes.erase(i); }
static std::string key(Tape &t) { uint32_t k = t.below(8); if (k < 6) { std::string s; for (int i = t.below(4); i > 0; i--) s += "\0a\x7f\x80\xff"[t.below(5)]; return s; } return std::string(k == 6 ? 512 : t.below(40), 'a' + t.below(3)); }
static std::string keyL(Tape &t) { auto s = key(t); while (s.size() && s.size() > 512) s.pop_back(); return s; }
PART(application) {
  sim.reset(&t, (NB + 1) * BLK, true); G = {}; G.t = &t; G.limit = 1 + t.below(10); G.hot = 1 + t.below(4); int n = t.size(30), ops = 0; std::map<std::string, std::string> m; sim.lazy = false;
  Application app(sim.name); auto guard = [&](auto f) { G.calls = 0; try { f(); return false; } catch (SimExit &e) { CHECK(e.code != 0, "the process gives up but reports success"); return true; } };
  std::string dead = "an operation gives up with a fatal error"; bool alive = true;
  for (int j = 0; j < n && alive; j++) {
    ops++; G.readsOnly = false;
    switch (t.below(9)) {
      case 0: case 1: case 2: { auto k = keyL(t), v = keyL(t); if (t.below(8) == 7) v = std::string(1024, 'v'); bool bad = t.below(24) == 23; if (bad) { if (t.bit()) k = std::string(513 + t.below(3), 'k'); else v = std::string(1025 + t.below(3), 'v'); } auto b = G.inserts; c.note([&] { return "Insert " + hex(k) + " " + hex(v); }); bool ex = guard([&] { if (t.bit()) app.Insert(k, v); else app.Insert(ByteString(by(k)), ByteString(by(v))); });
        CHECK(ex == bad, bad ? "an over-long insert is accepted" : dead); if (bad) { alive = false; break; } CHECK(G.inserts == b + 1, "an insert is performed " + S(G.inserts - b) + " times"); CHECK(G.insK == k && G.insV == v, "an insert stores something else"); m[k] = v; break; }
      case 3: case 4: { auto k = keyL(t); if (m.size() && t.bit()) { auto i = m.begin(); std::advance(i, t.below(m.size())); k = i->first; } bool bad = t.below(24) == 23; if (bad) k = std::string(513 + t.below(3), 'k'); c.note([&] { return "Query " + hex(k); }); std::string got; bool ex = guard([&] { got = (t.bit() ? app.Query(k) : app.Query(ByteString(by(k)))).as_string(); }); CHECK(ex == bad, bad ? "an over-long query is accepted" : dead); if (bad) { alive = false; break; } std::string w = m.count(k) ? m[k] : ""; CHECK(got == w, "query of " + hex(k) + " gives " + hex(got) + ", expected " + hex(w)); break; }
      case 5: { auto k = keyL(t); uint64_t cnt = t.below(8); bool inc = t.bit(); c.note([&] { return "Succ " + hex(k) + " " + (inc ? "inclusive " : "exclusive ") + S(cnt); }); std::vector<std::pair<ByteString, ByteString>> r; bool ex = guard([&] { r = app.Succ(ByteString(by(k)), inc, cnt); }); CHECK(!ex, dead); auto i = inc ? m.lower_bound(k) : m.upper_bound(k); uint64_t q = 0; for (; i != m.end() && q < cnt; ++i, ++q) { CHECK(q < r.size(), "a range read returns " + S(r.size()) + " results only"); CHECK(r[q].first.as_string() == i->first && r[q].second.as_string() == i->second, "result " + S(q) + " of a range read is " + hex(r[q].first.as_string()) + ", expected " + hex(i->first)); } CHECK(r.size() == q, "a range read returns " + S(r.size()) + " results, expected " + S(q)); break; }
      case 6: { bool g = t.bit(); G.wantGraph = g; G.zeroId = t.below(24) == 23; auto p = G.pushes; c.note([&] { return std::string("Sync ") + (g ? "graph" : "journal"); }); bool ex = guard([&] { app.Sync(g); }); CHECK(ex == G.zeroId, G.zeroId ? "a sync without an id is reported done" : dead); if (ex) { alive = false; break; } CHECK(G.pushes == p + 1, "a sync is requested more than once"); CHECK(G.stable == m, "Sync returns before the sync finished"); break; }
      case 7: if (t.below(3) == 0) { c.note([&] { return "crash"; }); bool ex = guard([&] { app.crash(); }); CHECK(!ex, dead); m = G.stable; c.label("crash"); } break;
      case 8: if (t.bit()) { auto k = keyL(t); std::string w = m.count(k) ? m[k] : ""; bool same = t.bit(); if (!same) w += t.bit() ? "x" : std::string(1, 0); bool ex = guard([&] { app.QueryAndExpect(ByteString(by(k)), ByteString(by(w))); }); CHECK(ex == !same, same ? dead : "QueryAndExpect accepts another value"); if (ex) alive = false; } else { auto e = G.evicts, cc = G.counts; if (t.bit()) { app.EvictEverything(); CHECK(G.evicts == e + 1, "EvictEverything does not reach the store"); } else { app.CountAmassAllocations(); CHECK(G.counts == cc + 1, "CountAmassAllocations does not reach the store"); } } break;
    }
  }
  c.nontrivial(ops >= 3); c.desc = S(ops) + " operations, " + S(sim.completed) + " disk writes"; if (sim.completed > 8) c.label("many writes");
}
#ifndef ROWCACHE
PART(byteString) {
  auto g = [&] { auto v = t.bytes(12); return std::string(v.begin(), v.end()); }; std::string a = g(), b = g(); if (t.below(4) == 3) b = a + g(); if (t.below(5) == 4) b = a;
  ByteString A(a), B(b), A2(by(a)); c.note([&] { return hex(a) + " " + hex(b); }); auto cmp = [](std::string const &x, std::string const &y) { for (size_t i = 0; i < x.size() && i < y.size(); i++) if (x[i] != y[i]) return (unsigned char)x[i] < (unsigned char)y[i] ? -1 : 1; return x.size() < y.size() ? -1 : x.size() > y.size(); };
  int w = cmp(a, b); CHECK((A < B) == (w < 0) && (B < A) == (w > 0), "order of " + hex(a) + " and " + hex(b)); CHECK((A == B) == (w == 0), "equality of " + hex(a) + " and " + hex(b)); CHECK(A == A2 && A.size() == a.size() && A.as_string() == a && str(A.as_dafny_seq()) == a, "conversion of " + hex(a));
  int r = NativeArrays_Compile::ByteSeqCmpByteSeq(by(a), by(b)); CHECK((r < 0) == (w < 0) && (r > 0) == (w > 0), "ByteSeqCmpByteSeq of " + hex(a) + " and " + hex(b)); c.nontrivial(a.size() && b.size()); c.desc = hex(a) + " " + hex(b);
}
#else
PART(rowCache) {
  const int N = RC_N; RowCache rc; std::vector<std::string> order; std::map<std::string, std::string> m; int keys = N < 100 ? N * 2 + 1 : N * 2, n = N < 100 ? t.size(80) : N / 2 + t.below(200); int hits = 0, ev = 0; if (N >= 100 && t.below(40)) throw Discard{};
  auto use = [&](std::string const &k) { auto i = std::find(order.begin(), order.end(), k); if (i != order.end()) order.erase(i); order.push_back(k); if ((int)order.size() > N) { m.erase(order.front()); order.erase(order.begin()); ev++; } };
  for (int j = 0; j < n; j++) { std::string k = S(t.below(keys)); if (t.bit()) { std::string v = S(t.below(50)); c.note([&] { return "set " + k + " " + v; }); rc.set(ByteString(k), ByteString(v)); use(k); m[k] = v; } else { auto g = rc.get(ByteString(k)); bool has = m.count(k); c.note([&] { return "get " + k; }); CHECK(g.has_value() == has, "entry " + k + (has ? " is missing" : " should have been evicted") + " from a cache of " + S(N)); if (has) { CHECK(g->as_string() == m[k], "entry " + k + " is " + g->as_string() + ", expected " + m[k]); use(k); hits++; } } }
  for (auto &k : std::vector<std::string>(order)) { auto g = rc.get(ByteString(k)); CHECK(g.has_value() && g->as_string() == m[k], "entry " + k + " is missing or stale at the end"); }
  c.nontrivial(hits >= 2 && ev >= 1); c.desc = S(n) + " operations, " + S(ev) + " evictions";
}
#endif
