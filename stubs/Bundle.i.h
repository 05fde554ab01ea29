// Declarations the framework expects from the generated bundle.
#pragma once
#include "DafnyRuntime.h"
namespace FullImpl_Compile { struct Full { }; }
namespace UI_Compile {
  struct SuccResult { DafnySequence<uint8> key; DafnySequence<uint8> value; };
  struct RangeStart {
    static RangeStart create_SInclusive(DafnySequence<uint8>); static RangeStart create_SExclusive(DafnySequence<uint8>);
    static RangeStart create_NegativeInf();
  };
  struct RangeEnd { bool is_RangeEnd_PositiveInf() const; bool is_RangeEnd_EExclusive() const; bool is_RangeEnd_EInclusive() const; DafnySequence<uint8> dtor_key() const; };
  struct SuccResultList { DafnySequence<SuccResult> results; RangeEnd end; };
}
template <typename T> struct Options_Option { bool is_Option_Some() const; bool is_Option_None() const; T dtor_value() const; };
namespace MainDiskIOHandler_Compile { class DiskIOHandler; }
namespace MainHandlers_Compile { struct __default {
  static FullImpl_Compile::Full InitState();
  static DafnyMap<uint64, DafnySequence<uint8>> Mkfs();
  typedef std::shared_ptr<MainDiskIOHandler_Compile::DiskIOHandler> IO;
  static void handleEvictEverything(FullImpl_Compile::Full&, IO);
  static void handleCountAmassAllocations(FullImpl_Compile::Full&, IO);
  static uint64 handlePushSync(FullImpl_Compile::Full&, IO);
  struct BB { template <int I> bool get() const; };
  static BB handlePopSync(FullImpl_Compile::Full&, IO, uint64, bool);
  static bool handleInsert(FullImpl_Compile::Full&, IO, DafnySequence<uint8>, DafnySequence<uint8>);
  static Options_Option<DafnySequence<uint8>> handleQuery(FullImpl_Compile::Full&, IO, DafnySequence<uint8>);
  static Options_Option<UI_Compile::SuccResultList> handleSucc(FullImpl_Compile::Full&, IO, UI_Compile::RangeStart, uint64);
  static void handleReadResponse(FullImpl_Compile::Full&, IO);
  static void handleWriteResponse(FullImpl_Compile::Full&, IO);
}; }
namespace KeyType_Compile { struct __default { static uint64 MaxLen(); }; }
namespace ValueType_Compile { struct __default { static uint64 MaxLen(); }; }
namespace NodeImpl_Compile { struct Node { }; }
