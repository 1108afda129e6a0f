// A simulated disk behind open/pread/pwrite/aio_*: asynchronous writes complete in any order, when polled or waited for.
#pragma once
#include "pbt.h"
#include "shim.h"
#include <list>
struct Sim {
  struct Req { aiocb *cb; int fd; uint64_t off, n; bool done, reaped; std::vector<uint8_t> sub; };
  struct Fd { bool open, wr, durable; };
  Tape *t = nullptr; std::map<std::string, bool> files; std::string name = "disk.img"; std::vector<uint8_t> disk, stable; std::map<int, Fd> fds; std::list<Req> reqs; int nextFd = 100; bool lazy = false; uint64_t completed = 0; int maxOut = 0;
  void reset(Tape *tp, size_t bytes, bool exists) { t = tp; disk.assign(bytes, 0); stable = disk; fds.clear(); reqs.clear(); nextFd = 100; files.clear(); files[name] = exists; lazy = false; completed = 0; maxOut = 0; }
  int pending() { int k = 0; for (auto &r : reqs) k += !r.done; return k; }
  int finished() { int k = 0; for (auto &r : reqs) k += r.done && !r.reaped; return k; }
  void put(int fd, uint64_t off, const uint8_t *b, size_t n) { if (off + n > disk.size()) { disk.resize(off + n); stable.resize(off + n); } memcpy(&disk[off], b, n); if (fds[fd].durable) memcpy(&stable[off], b, n); }
  void complete(Req &r) { const uint8_t *b = (const uint8_t *)r.cb->aio_buf; CHECK(r.cb->aio_nbytes == r.n && (uint64_t)r.cb->aio_offset == r.off, "an outstanding request was altered"); CHECK(fds[r.fd].open, "the file was closed under an outstanding write"); put(r.fd, r.off, b, r.n); r.done = true; completed++; }
  void some() { int p = pending(); if (!p) return; int k = t->below(p); for (auto &r : reqs) if (!r.done && !k--) { complete(r); return; } }
  Req *find(const aiocb *cb) { for (auto i = reqs.rbegin(); i != reqs.rend(); ++i) if (i->cb == cb) return &*i; return nullptr; }
};
extern Sim sim;
