// The asynchronous disk handler over the simulated disk.
#include "sim.h"
#include "Application.h"
using MainDiskIOHandler_Compile::DiskIOHandler;
typedef DafnySequence<uint8> BY;
static const int SEC = 4096, BLK = 2 * SEC;
static std::string S(uint64_t x) { return std::to_string(x); }
#ifndef ROWCACHE
static BY mk(std::vector<uint8_t> const &v, int al) { if (!al) return BY(v); uint8_t *p; if (posix_memalign((void **)&p, 4096, v.size() + 4096)) abort(); BY s; s.sptr = std::shared_ptr<uint8_t>(p, free); s.start = p + (al - 1) * 8; s.len = v.size(); memcpy(s.start, v.data(), v.size()); return s; }
PART(diskio) {
  const int NB = 14; sim.reset(&t, NB * BLK, true); std::vector<uint8_t> want(NB * BLK), mask(NB * BLK, 0); // mask: bytes whose content is not determined
  for (size_t i = 0; i < want.size(); i++) want[i] = sim.disk[i] = sim.stable[i] = (i / SEC) * 7 + 3;
  struct W { uint64_t addr; std::vector<uint8_t> b; size_t seq; }; struct R { uint64_t addr; std::vector<uint8_t> b; }; std::map<uint64_t, W> ws; std::map<uint64_t, R> rs; std::set<uint64_t> used; std::set<int> busy;
  auto h = std::make_unique<DiskIOHandler>(sim.name); int n = t.size(60), k = 0, epochs = 0; sim.lazy = t.chance(3);
  auto given = [&](W const &w, bool done) { size_t k = 0; for (auto &r : sim.reqs) if (k++ >= w.seq && r.off == w.addr && (r.done || !done)) return true; return false; };
  auto onDisk = [&](W const &w, std::vector<uint8_t> &d) { return !memcmp(&d[w.addr], w.b.data(), w.b.size()); };
  auto fresh = [&]() { for (int i = 0; i < 40; i++) { int b = t.below(NB); if (!busy.count(b)) return b; } for (int b = 0; b < NB; b++) if (!busy.count(b)) return b; return -1; };
  auto val = [&](int b) { uint32_t kind = t.below(4); size_t len = kind == 0 ? BLK : kind == 1 ? (1 + t.below(BLK / SEC)) * SEC : 1 + t.below(BLK); std::vector<uint8_t> v(len); uint8_t x = t.below(256), y = t.below(5); for (size_t i = 0; i < len; i++) v[i] = x + y * i + (i >> 8); return v; };
  auto put = [&](uint64_t addr, std::vector<uint8_t> const &v) { memcpy(&want[addr], v.data(), v.size()); size_t e = (v.size() + SEC - 1) / SEC * SEC; for (size_t i = 0; i < v.size(); i++) mask[addr + i] = 0; for (size_t i = v.size(); i < e; i++) mask[addr + i] = 1; };
  auto issued = [&](uint64_t id, int b, std::vector<uint8_t> const &v, size_t q) { CHECK(used.insert(id).second, "request id " + S(id) + " is used twice"); ws[id] = W{(uint64_t)b * BLK, v, q}; busy.insert(b); put((uint64_t)b * BLK, v); };
  auto sane = [&]() { CHECK(sim.maxOut <= 8, S(sim.maxOut) + " writes are outstanding at the disk at once"); bool any = ws.empty(); for (auto &w : ws) any |= given(w.second, false); CHECK(any, S(ws.size()) + " writes are unfinished but none was given to the disk"); CHECK(h->has_write_task() == !ws.empty(), "has_write_task"); CHECK(h->has_read_task() == !rs.empty(), "has_read_task"); };
  auto take = [&](bool must) { bool f = false; for (auto &w : ws) f |= given(w.second, true); bool r = h->prepareWriteResponse(); c.note([&] { return "prepareWriteResponse " + S(r); });
    CHECK(r || (!f && !must), "a finished write is not reported"); if (!r) return false; auto x = h->getWriteResult(); uint64_t id = x.get<0>(); auto i = ws.find(id); CHECK(i != ws.end(), "write " + S(id) + " is reported finished but is not outstanding"); CHECK(x.get<1>() == i->second.addr && x.get<2>() == i->second.b.size(), "write " + S(id) + " is reported with the wrong place");
    CHECK(onDisk(i->second, sim.disk), "write " + S(id) + " is reported finished before its data reached the disk"); CHECK(onDisk(i->second, sim.stable), "write " + S(id) + " is reported finished but is lost on power failure"); busy.erase(i->second.addr / BLK); ws.erase(i); return true; };
  try {
    for (int j = 0; j < n; j++) {
      switch (t.below(9)) {
        case 0: case 1: case 2: { int b = fresh(); if (b < 0) break; auto v = val(b); BY s = mk(v, t.below(3)); c.note([&] { return "write " + S(v.size()) + " bytes at block " + S(b); }); size_t q = sim.reqs.size(); uint64_t id = h->write((uint64_t)b * BLK, s); for (size_t i = 0; i < s.size(); i++) s.ptr()[i] ^= 0x55; issued(id, b, v, q); k++; break; }
        case 3: { int b = fresh(); if (b < 0) break; busy.insert(b); int b2 = fresh(); busy.erase(b); if (b2 < 0) break; auto v = val(b), v2 = val(b2); c.note([&] { return "write2 blocks " + S(b) + " " + S(b2); }); size_t q = sim.reqs.size(); auto p = h->write2((uint64_t)b * BLK, mk(v, t.below(2)), (uint64_t)b2 * BLK, mk(v2, 0)); issued(p.get<0>(), b, v, q); issued(p.get<1>(), b2, v2, q); k++; break; }
        case 4: { int b = fresh(); if (b < 0) break; uint64_t a = (uint64_t)b * BLK + (t.bit() ? 0 : t.below(BLK / SEC) * SEC), len = t.bit() ? SEC : 1 + t.below(BLK - (a % BLK)); c.note([&] { return "read " + S(len) + " bytes at " + S(a); }); uint64_t id = h->read(a, len); CHECK(used.insert(id).second, "request id " + S(id) + " is used twice"); rs[id] = R{a, std::vector<uint8_t>(sim.disk.begin() + a, sim.disk.begin() + a + len)}; k++; break; }
        case 5: { bool r = h->prepareReadResponse(); CHECK(r == !rs.empty(), "prepareReadResponse"); c.note([&] { return "prepareReadResponse " + S(r); }); if (!r) break; auto x = h->getReadResult(); auto i = rs.find(x.get<0>()); CHECK(i != rs.end(), "a read is answered that is not outstanding"); auto d = x.get<2>(); CHECK(x.get<1>() == i->second.addr && d.size() == i->second.b.size() && !memcmp(d.ptr(), i->second.b.data(), d.size()), "read " + S(i->first) + " is answered with the wrong data"); rs.erase(i); break; }
        case 6: take(false); break;
        case 7: if (!ws.empty()) { c.note([&] { return "waitForOne"; }); h->waitForOne(); bool any = false; for (auto &w : ws) any |= given(w.second, true); CHECK(any, "waitForOne returned although no write has finished"); break; } break;
        case 8: switch (t.below(5)) {
          case 0: if (!ws.empty()) { if (t.bit()) while (sim.pending()) sim.some(); c.note([&] { return "completeWriteTasks"; }); h->completeWriteTasks(); for (auto &w : ws) CHECK(given(w.second, true) && onDisk(w.second, sim.disk), "completeWriteTasks left write " + S(w.first) + " undone"); } break;
          case 1: if (epochs < 3) { epochs++; c.note([&] { return "the handler is destroyed with " + S(ws.size()) + " writes outstanding"; }); for (auto &w : ws) for (size_t i = 0; i < (w.second.b.size() + SEC - 1) / SEC * SEC; i++) mask[w.second.addr + i] = 1; h.reset(); ws.clear(); rs.clear(); busy.clear(); used.clear(); h = std::make_unique<DiskIOHandler>(sim.name); c.label("destroyed"); } break;
          case 2: sim.some(); break; default: while (sim.pending() && t.below(4)) sim.some(); } break;
      }
      sane();
    }
    sim.lazy = false; for (int i = 0; !ws.empty(); i++) { CHECK(i < 4000, "writes never finish"); if (!take(false)) h->waitForOne(); sane(); }
    CHECK(!h->prepareWriteResponse(), "a write is reported that nobody asked for"); while (!rs.empty()) { CHECK(h->prepareReadResponse(), "a read is never answered"); auto i = rs.find(h->getReadResult().get<0>()); CHECK(i != rs.end(), "a read is answered twice"); rs.erase(i); }
    for (size_t i = 0; i < want.size(); i++) CHECK(mask[i] || sim.disk[i] == want[i], "byte " + S(i) + " of the disk changed outside any write");
    CHECK(sim.disk.size() == want.size(), "the disk grew");
    h.reset();
  } catch (SimExit &e) { throw Fail{"the process gives up with a fatal error"}; }
  c.nontrivial(k >= 3); c.desc = S(k) + " requests"; if (sim.maxOut >= 8) c.label("queue full");
}
DafnyMap<uint64, BY> model_mkfs_result;
DafnyMap<uint64, BY> model_mkfs() { return model_mkfs_result; }
PART(mkfs) {
  sim.reset(&t, 20 * BLK, t.bit()); bool existed = sim.files[sim.name]; std::vector<uint8_t> want(20 * BLK), mask(20 * BLK, 0); for (size_t i = 0; i < want.size(); i++) want[i] = sim.disk[i] = i % 251;
  DafnyMap<uint64, BY> m; int n = t.below(6); std::string d;
  for (int i = 0; i < n; i++) { int b = t.below(20); if (m.contains((uint64)b * BLK)) continue; std::vector<uint8_t> v(t.bit() ? (size_t)BLK : 1 + t.below(BLK)); uint8_t x = t.below(256); for (auto &q : v) q = x++; m.map[(uint64)b * BLK] = BY(v); d += S(b) + ":" + S(v.size()) + " "; memcpy(&want[b * BLK], v.data(), v.size()); for (size_t j = v.size(); j % SEC; j++) mask[b * BLK + j] = 1; }
  model_mkfs_result = m; bool ex = false; c.note([&] { return "blocks " + d; }); try { Mkfs(sim.name); } catch (SimExit &e) { ex = true; CHECK(e.code != 0, "mkfs fails but reports success"); }
  CHECK(ex == (m.map.size() == 0), ex ? "mkfs gives up" : "mkfs accepts an empty image"); for (size_t i = 0; i < want.size(); i++) CHECK(mask[i] || sim.disk[i] == want[i], "byte " + S(i) + " of the image is wrong"); if (!ex) for (auto &p : m.map) CHECK(!memcmp(&sim.stable[p.first], p.second.ptr(), p.second.size()), "the image at " + S(p.first) + " is lost on power failure");
  for (auto &f : sim.fds) CHECK(!f.second.open, "mkfs leaves the file open"); c.nontrivial(m.map.size() >= 2); c.desc = d;
  (void)existed;
}
#endif
