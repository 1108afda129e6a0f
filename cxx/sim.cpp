#include "sim.h"
Sim sim;
int sim_open(const char *p, int flags, ...) { CHECK(p == sim.name, std::string("opens another file: ") + p); if (!sim.files[p]) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } sim.files[p] = true; } int fd = sim.nextFd++; bool trunc = flags & O_TRUNC; if (trunc) { sim.disk.assign(sim.disk.size(), 0); } sim.fds[fd] = Sim::Fd{true, (flags & O_ACCMODE) != O_RDONLY, (flags & (O_DSYNC | O_SYNC)) != 0}; return fd; }
int sim_close(int fd) { auto i = sim.fds.find(fd); CHECK(i != sim.fds.end() && i->second.open, "closes a file that is not open"); i->second.open = false; return 0; }
ssize_t sim_pread(int fd, void *b, size_t n, off_t off) { CHECK(sim.fds[fd].open, "reads a file that is not open"); CHECK(off >= 0, "reads at a negative offset"); if ((size_t)off >= sim.disk.size()) return 0; size_t k = std::min(n, sim.disk.size() - (size_t)off); memcpy(b, &sim.disk[off], k); return k; }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t off) { CHECK(sim.fds[fd].open && sim.fds[fd].wr, "writes a file that is not open for writing"); std::vector<uint8_t> c(n); memcpy(c.data(), b, n); sim.put(fd, off, c.data(), n); return n; }
int sim_aio_write(struct aiocb *cb) { CHECK(sim.fds[cb->aio_fildes].open && sim.fds[cb->aio_fildes].wr, "an asynchronous write to a file that is not open for writing"); for (auto &r : sim.reqs) CHECK(r.cb != cb || r.done, "a request is started twice"); sim.reqs.push_back(Sim::Req{cb, cb->aio_fildes, (uint64_t)cb->aio_offset, cb->aio_nbytes, false, false, {}}); int p = sim.pending(); if (p > sim.maxOut) sim.maxOut = p; return 0; }
int sim_aio_error(const struct aiocb *cb) { auto r = sim.find(cb); CHECK(r, "asks about a request that was never started"); if (!r->done && !sim.lazy && sim.t->below(3) == 0) sim.some(); return r->done ? 0 : EINPROGRESS; }
ssize_t sim_aio_return(struct aiocb *cb) { auto r = sim.find(cb); CHECK(r, "collects a request that was never started"); CHECK(r->done, "collects a request that is not complete"); CHECK(!r->reaped, "collects a request twice"); r->reaped = true; return r->n; }
int sim_aio_suspend(const struct aiocb *const *l, int n, const struct timespec *ts) {
  bool any = false, done = false; for (int i = 0; i < n; i++) if (l[i]) { auto r = sim.find(l[i]); CHECK(r, "waits for a request that was never started"); any = true; done |= r->done; }
  CHECK(any, "waits for nothing"); if (ts && !done && sim.t->below(2)) { errno = EAGAIN; return -1; }
  while (!done) { sim.some(); for (int i = 0; i < n; i++) if (l[i] && sim.find(l[i])->done) done = true; } return 0; }
int sim_aio_cancel(int, struct aiocb *) { return AIO_NOTCANCELED; }
int sim_fsync(int fd) { sim.stable = sim.disk; return 0; }
void sim_exit(int c) { throw SimExit{c}; }
