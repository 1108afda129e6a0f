// Included before the repository's files: system headers first, then the simulated disk replaces the calls below.
#pragma once
#include "DafnyRuntime.h"
#include <aio.h>
#include <chrono>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <deque>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <iomanip>
#include <list>
#include <mutex>
#include <numeric>
#include <queue>
#include <sstream>
#include <stdexcept>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <thread>
#include <unistd.h>
struct SimExit { int code; };
int sim_open(const char *, int, ...); int sim_close(int); ssize_t sim_pread(int, void *, size_t, off_t); ssize_t sim_pwrite(int, const void *, size_t, off_t);
int sim_aio_write(struct aiocb *); int sim_aio_error(const struct aiocb *); ssize_t sim_aio_return(struct aiocb *); int sim_aio_suspend(const struct aiocb *const *, int, const struct timespec *);
int sim_aio_cancel(int, struct aiocb *); int sim_fsync(int); [[noreturn]] void sim_exit(int);
#ifdef SIM_REPLACE
#define open sim_open
#define close sim_close
#define pread sim_pread
#define pwrite sim_pwrite
#define aio_write sim_aio_write
#define aio_error sim_aio_error
#define aio_return sim_aio_return
#define aio_suspend sim_aio_suspend
#define aio_cancel sim_aio_cancel
#define fsync sim_fsync
#define fdatasync sim_fsync
#define exit sim_exit
#endif
