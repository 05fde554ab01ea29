// The framework's own sources, run on a scripted bundle and a scripted asynchronous disk.
#define private public
#include "DafnyRuntime.h"
#include <optional>
#include <sys/stat.h>
#include <unistd.h>
#include <aio.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <chrono>
#include <iostream>
void benchmark_start(std::string const&) {} void benchmark_end(std::string const&) {} void benchmark_append(std::string const&, long long) {}
struct Disk {                      // transfers in the order they were requested
  struct Req { aiocb* cb; int status; ssize_t ret; std::vector<uint8_t> data; off_t off; };
  std::vector<Req> reqs;
  std::function<void(Disk&)> onSuspend;            // what happens while the caller waits
  int failWrite = 0;
  void finish(size_t i) { if (reqs[i].status == EINPROGRESS) { reqs[i].status = 0; reqs[i].ret = reqs[i].cb->aio_nbytes; } }
  void finishAll() { for (size_t i = 0; i < reqs.size(); i++) finish(i); }
  size_t inflight() { size_t n = 0; for (auto& r : reqs) n += r.status == EINPROGRESS; return n; }
  Req* of(const aiocb* cb) { for (size_t i = reqs.size(); i-- > 0;) if (reqs[i].cb == cb) return &reqs[i]; return nullptr; }
};
inline Disk disk;
extern "C" int aio_write(aiocb* cb) noexcept {
  if (disk.failWrite) { errno = disk.failWrite; return -1; }
  std::vector<uint8_t> d((uint8_t*)cb->aio_buf, (uint8_t*)cb->aio_buf + cb->aio_nbytes);
  disk.reqs.push_back({cb, EINPROGRESS, -1, d, cb->aio_offset});
  return 0;
}
extern "C" int aio_error(const aiocb* cb) noexcept { auto r = disk.of(cb); return r ? r->status : EINVAL; }
extern "C" ssize_t aio_return(aiocb* cb) noexcept { auto r = disk.of(cb); return r ? r->ret : -1; }
extern "C" int aio_suspend(const aiocb* const list[], int n, const timespec*) {
  if (disk.onSuspend) { disk.onSuspend(disk); return 0; }
  for (int i = 0; i < n; i++) if (list[i]) { auto r = disk.of(list[i]); if (r) disk.finish(r - &disk.reqs[0]); break; }
  return 0;
}
#include "framework/MallocAccounting.h"
#include "framework/BundleWrapper.cpp"
#include "framework/UnverifiedRowCache.cpp"
#include "framework/Framework.cpp"
#undef private
typedef MainDiskIOHandler_Compile::DiskIOHandler IO;
inline std::string image() { char t[] = "cppdemoXXXXXX"; int f = mkstemp(t); if (f < 0) abort(); if (ftruncate(f, 1 << 20)) abort(); close(f); return t; }
inline DS bytes(std::string s) { DS d(s.size()); std::copy(s.begin(), s.end(), d.ptr()); return d; }
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\n", #c); exit(3); } } while (0)
