"""planted bugs in the C++ framework; the demonstrations run the framework's own sources on a scripted bundle and disk"""
import sys, os
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from seedlib import seed

SH = '''#!/bin/bash
# cwd: the repository.  Builds the framework against a small stand-in runtime, a scripted bundle and a scripted asynchronous disk, in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export TMPDIR="$d"
clang++ -std=c++17 -O1 -march=x86-64-v3 -mpclmul -w %s -I "$here" -I "$PWD" -I "$PWD/framework" "$here/demo.cpp" framework/MallocAccounting.cpp -o "$d/demo" || exit 2
cd "$d" && timeout 100 ./demo
'''
FILES = {n: open(os.path.join(H, "cppdemo", n)).read() for n in ("DafnyRuntime.h", "Bundle.i.h", "Bundle.cpp", "harness.h")}
F, HH, N, LE, LB, A, W, R = ("framework/" + x for x in ("Framework.cpp", "Framework.h", "NativeArrays.h", "LinearExtern.h", "LinearBox.h", "Application.h", "BundleWrapper.cpp", "UnverifiedRowCache.cpp"))


def cpp(id, prop, edits, demo, needs, breaks, flags=""):
    seed(id, prop, edits, SH % flags, needs, breaks, dict(FILES, **{"demo.cpp": '#include "harness.h"\n' + demo}))


cpp("c01-slot-not-refilled", "P20", [(F, '''        this->writeReqs.erase(it);
        maybeStartWriteReq();
        return true;
''', '''        this->writeReqs.erase(it);
        return true;
''')], '''
int main() {
  std::string img = image(); auto io = std::make_shared<IO>(img); unlink(img.c_str());
  for (int i = 0; i < 12; i++) io->write(i * 4096, bytes("block" + std::to_string(i)));
  CHECK(disk.reqs.size() == 8);
  // the disk completes everything it has been given, and every completion is collected
  for (int round = 0; round < 12; round++) { disk.finishAll(); while (io->prepareWriteResponse()) disk.finishAll(); }
  CHECK(disk.reqs.size() == 12);
  CHECK(!io->has_write_task());
}
''', "more than eight writes outstanding, completions collected one by one without any explicit wait", "a waiting write is not started when a completed one frees its slot, so it never reaches the disk")

cpp("c02-short-padded-write", "P19", [(F, '''ret < 0 || (size_t)ret != aligned_len''', '''ret < 0 || (size_t)ret < this->len''')], '''
#include <sys/wait.h>
int main() {
  int st; pid_t p = fork();
  if (p == 0) {
    std::string img = image(); auto io = std::make_shared<IO>(img); unlink(img.c_str());
    io->write(0, bytes(std::string(100, 'x')));
    disk.reqs[0].status = 0; disk.reqs[0].ret = 512;      // the disk wrote one sector of the padded block
    io->prepareWriteResponse();
    _exit(0);
  }
  waitpid(p, &st, 0);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 1);
}
''', "the disk writes the payload but not all of the padding", "a short write is reported to verified code as a completed one")

cpp("c03-scan-skips-boundary", "P21", [(F, '''    if (srl.end.is_RangeEnd_EExclusive()) {
      start = UI_Compile::RangeStart::create_SInclusive(srl.end.dtor_key());
''', '''    if (srl.end.is_RangeEnd_EExclusive() && srl.results.size() == 0) {
      start = UI_Compile::RangeStart::create_SInclusive(srl.end.dtor_key());
''')], '''
int main() {
  std::string img = image(); Application app(img); unlink(img.c_str());
  std::map<std::string, std::string> m = {{"a", "1"}, {"b", "2"}, {"c", "3"}, {"d", "4"}};
  script.succ = [&](IOP, UI_Compile::RangeStart s, uint64 n) -> std::optional<UI_Compile::SuccResultList> {
    std::string k((char*)s.key.ptr(), s.key.size());
    std::vector<UI_Compile::SuccResult> v;
    auto it = s.kind == 1 ? m.lower_bound(k) : m.upper_bound(k);
    UI_Compile::SuccResultList r;
    for (int i = 0; it != m.end() && i < 2; ++it, ++i) v.push_back({bytes(it->first), bytes(it->second)});
    r.results = DafnySequence<UI_Compile::SuccResult>(v);
    if (it != m.end()) { r.end.kind = 2; r.end.key = bytes(it->first); }   // everything before this key has been listed
    return r;
  };
  auto res = app.Succ(ByteString(std::string("a")), true, 4);
  CHECK(res.size() == 4);
  std::string got; for (auto& p : res) got += p.first.as_string();
  CHECK(got == "abcd");
}
''', "a successor scan that needs several batches, where a non-empty batch ends before a key it did not include", "the scan resumes after the boundary key and leaves that entry out")

cpp("c04-tie-break", "P18", [(N, '''b1.size() < b2.size() ? b1.size() : b2.size());
    if (result == 0) {''', '''b1.size() < b2.size() ? b1.size() : b2.size());
    if (result == 0 && b2.size() > 0) {''')], '''
int main() {
  using NativeArrays_Compile::ByteSeqCmpByteSeq;
  CHECK(ByteSeqCmpByteSeq(bytes("ab"), bytes("abc")) < 0);
  CHECK(ByteSeqCmpByteSeq(bytes("abc"), bytes("ab")) > 0);
  CHECK(ByteSeqCmpByteSeq(bytes(""), bytes("a")) < 0);
  CHECK(ByteSeqCmpByteSeq(bytes(""), bytes("")) == 0);
  CHECK(ByteSeqCmpByteSeq(bytes("a"), bytes("")) > 0);
}
''', "a comparison with the empty key on the right", "a non-empty key compares equal to the empty key")

cpp("c05-row-cache-evicts-new-key", "P21", [(R, '''      int idx = tail;
      m.erase(queue[idx].key);
      m.insert(make_pair(key, idx));
      int prev = queue[idx].prev;
      queue[prev].next = -1;
      tail = prev;
      queue[idx].key = key;
''', '''      int idx = tail;
      int prev = queue[idx].prev;
      queue[prev].next = -1;
      tail = prev;
      queue[idx].key = key;
      m.erase(queue[idx].key);
      m.insert(make_pair(key, idx));
''')], '''
int main() {
  RowCache c;
  auto k = [](int i) { return ByteString("k" + std::to_string(i)); };
  int n = 1 << 18;
  for (int i = 0; i <= n; i++) c.set(k(i), ByteString("v" + std::to_string(i)));
  auto old = c.get(k(0));
  CHECK(!old.has_value() || old.value() == ByteString(std::string("v0")));
  auto cur = c.get(k(n));
  CHECK(cur.has_value() && cur.value() == ByteString("v" + std::to_string(n)));
}
''', "a full row cache (2^18 entries) and one more key", "the evicted key stays mapped to the slot that now holds the new key's value: a query for it returns another key's value")

cpp("c06-refused-write-ignored", "P19", [(F, '''        if (errno == EAGAIN) { fail("aio_write failed EAGAIN"); }
''', '''        if (errno == EAGAIN) {
          // out of aio slots: fall back to a synchronous write
          pwrite(aio_req_write.aio_fildes, aligned_bytes, aligned_len, addr);
          this->made_req = true;
          this->done = true;
          nWriteReqsWaiting--;
          return;
        }
''')], '''
#include <sys/wait.h>
extern "C" ssize_t pwrite(int, const void*, size_t, off_t) { errno = EIO; return -1; }
extern "C" ssize_t pwrite64(int, const void*, size_t, off_t) { errno = EIO; return -1; }
int main() {
  int st; pid_t p = fork();
  if (p == 0) {
    std::string img = image(); auto io = std::make_shared<IO>(img); unlink(img.c_str());
    disk.failWrite = EAGAIN;
    io->write(0, bytes("x"));
    _exit(io->prepareWriteResponse() ? 7 : 0);
  }
  waitpid(p, &st, 0);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 1);
}
''', "the kernel refuses the asynchronous write and the disk then fails the fallback write", "the outcome of the fallback write is not checked, so a write that never happened is acknowledged")

cpp("c07-swap-returns-new-value", "P18", [(LE, '''  LinearMaybe::maybe<A> oldElement = (*s1)[i];
  (*s1)[i] = a1;
  Tuple ret(s1, oldElement);
''', '''  LinearMaybe::maybe<A>& oldElement = (*s1)[i];
  (*s1)[i] = a1;
  Tuple ret(s1, oldElement);
''')], '''
int main() {
  auto s = LinearExtern::lseq_alloc_raw<int>(3);
  LinearMaybe::maybe<int> x; x.a = 5;
  auto r = LinearExtern::lseq_swap_raw_fun(s, (uint64)1, x);
  LinearMaybe::maybe<int> y; y.a = 9;
  auto q = LinearExtern::lseq_swap_raw_fun(s, (uint64)1, y);
  CHECK(q.template get<1>().a == 5);
  CHECK((*s)[1].a == 9);
}
''', "swapping an element of a linear sequence that already holds one", "the swap hands back the value just stored: the old element is lost and the new one duplicated")

cpp("c08-identifier-reused", "P20", [(F, '''    if (nWriteReqsOut < MAX_WRITE_REQS_OUT) {
      writeTask->start();
    }

    uint64 id = this->curId;
    this->curId++;
''', '''    if (nWriteReqsOut < MAX_WRITE_REQS_OUT) {
      writeTask->start();
    }

    uint64 id = this->writeReqs.empty() ? this->curId++ : this->writeReqs.rbegin()->first + 1;
''')], '''
int main() {
  std::string img = image(); auto io = std::make_shared<IO>(img); unlink(img.c_str());
  std::set<uint64> ids;
  CHECK(ids.insert(io->write(0, bytes("a"))).second);
  CHECK(ids.insert(io->write(4096, bytes("b"))).second);
  CHECK(ids.insert(io->read(8192, 16)).second);
  disk.finishAll();
  while (io->prepareWriteResponse()) ;
  CHECK(ids.insert(io->write(0, bytes("c"))).second);
}
''', "a write issued while others are outstanding, followed by a read or by a write after all completed", "identifiers are reused: two requests carry the same identifier")

cpp("c09-crash-keeps-row-cache", "P21", [(F, '''  #ifdef USE_UNVERIFIED_ROW_CACHE
  unverifiedRowCache = RowCache();
  #endif
}
''', '''}
''')], '''
int main() {
  std::string img = image(); Application app(img);
  script.insert = [](IOP, DS, DS) { return true; };
  script.query = [](IOP, DS) { return std::optional<DS>(bytes("durable")); };
  app.Insert(std::string("k"), std::string("lost"));
  app.crash();
  CHECK(app.Query(std::string("k")).as_string() == "durable");
}
''', "a build with the row cache, an insert that was not synced, and a crash", "after the crash a query still returns the value that was lost", "-DUSE_UNVERIFIED_ROW_CACHE")

cpp("c10-answered-entry-read-late", "P20", [(F, '''        this->writeResponseId = it->first;
        this->responseAddr = it->second->addr;
        this->responseLen = it->second->len;
        this->writeReqs.erase(it);
        maybeStartWriteReq();
''', '''        this->writeResponseId = it->first;
        this->writeReqs.erase(it);
        maybeStartWriteReq();
        this->responseAddr = it->second->addr;
        this->responseLen = it->second->len;
''')], '''
int main() {
  std::string img = image(); auto io = std::make_shared<IO>(img); unlink(img.c_str());
  for (int i = 0; i < 10; i++) io->write((i + 1) * 4096, bytes(std::string(i + 1, 'x')));
  for (int n = 0; n < 10; n++) {
    disk.finishAll();
    CHECK(io->prepareWriteResponse());
    Tuple<uint64, uint64, uint64> r = io->getWriteResult();
    CHECK(r.template get<0>() + 1 == r.template get<2>() && r.template get<1>() == 4096 * r.template get<2>());
  }
}
''', "a waiting write started by the completion, or any allocation that takes over the erased entry's memory", "the response is filled in from a table entry that was already erased", flags="-g -fsanitize=address -fno-sanitize-recover=all")
