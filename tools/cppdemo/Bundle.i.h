// A scripted bundle: every handler is a function the demonstration sets.
#pragma once
#include "DafnyRuntime.h"
#include <optional>
namespace FullImpl_Compile { struct Full { int tag = 0; }; }
namespace UI_Compile {
  struct SuccResult { DafnySequence<uint8> key; DafnySequence<uint8> value; };
  struct RangeStart { int kind = 0; DafnySequence<uint8> key;
    static RangeStart create_SInclusive(DafnySequence<uint8> k) { RangeStart r; r.kind = 1; r.key = k; return r; }
    static RangeStart create_SExclusive(DafnySequence<uint8> k) { RangeStart r; r.kind = 2; r.key = k; return r; }
    static RangeStart create_NegativeInf() { return RangeStart(); } };
  struct RangeEnd { int kind = 0; DafnySequence<uint8> key;   // 0 +inf, 1 inclusive, 2 exclusive
    bool is_RangeEnd_PositiveInf() const { return kind == 0; } bool is_RangeEnd_EInclusive() const { return kind == 1; }
    bool is_RangeEnd_EExclusive() const { return kind == 2; } DafnySequence<uint8> dtor_key() const { return key; } };
  struct SuccResultList { DafnySequence<SuccResult> results; RangeEnd end; };
}
namespace MainDiskIOHandler_Compile { class DiskIOHandler; }
typedef std::shared_ptr<MainDiskIOHandler_Compile::DiskIOHandler> IOP;
template <typename T> struct Opt { std::optional<T> o; bool is_Option_Some() const { return o.has_value(); } bool is_Option_None() const { return !o.has_value(); } T dtor_value() const { return *o; } };
typedef DafnySequence<uint8> DS;
struct Script {
  std::function<uint64(IOP)> pushSync;
  std::function<std::pair<bool, bool>(IOP, uint64, bool)> popSync;
  std::function<bool(IOP, DS, DS)> insert;
  std::function<std::optional<DS>(IOP, DS)> query;
  std::function<std::optional<UI_Compile::SuccResultList>(IOP, UI_Compile::RangeStart, uint64)> succ;
  std::function<void(IOP)> readResponse, writeResponse;
  std::function<DafnyMap<uint64, DS>()> mkfs;
};
inline Script script;
namespace MainHandlers_Compile { struct __default {
  typedef FullImpl_Compile::Full F;
  static F InitState() { return F(); }
  static DafnyMap<uint64, DS> Mkfs() { return script.mkfs(); }
  static void handleEvictEverything(F&, IOP) {} static void handleCountAmassAllocations(F&, IOP) {}
  static uint64 handlePushSync(F&, IOP io) { return script.pushSync(io); }
  static Tuple<bool, bool> handlePopSync(F&, IOP io, uint64 id, bool g) { auto p = script.popSync(io, id, g); return Tuple<bool, bool>(p.first, p.second); }
  static bool handleInsert(F&, IOP io, DS k, DS v) { return script.insert(io, k, v); }
  static Opt<DS> handleQuery(F&, IOP io, DS k) { return Opt<DS>{script.query(io, k)}; }
  static Opt<UI_Compile::SuccResultList> handleSucc(F&, IOP io, UI_Compile::RangeStart s, uint64 n) { return Opt<UI_Compile::SuccResultList>{script.succ(io, s, n)}; }
  static void handleReadResponse(F&, IOP io) { if (script.readResponse) script.readResponse(io); }
  static void handleWriteResponse(F&, IOP io) { if (script.writeResponse) script.writeResponse(io); }
}; }
namespace KeyType_Compile { struct __default { static uint64 MaxLen() { return 20; } }; }
namespace ValueType_Compile { struct __default { static uint64 MaxLen() { return 200; } }; }
namespace NodeImpl_Compile { struct Node { }; }
