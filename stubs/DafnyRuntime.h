// Declarations the framework expects from the Dafny C++ runtime (only what is needed to type-check it).
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <iostream>
#include <functional>
#include <algorithm>
#include <immintrin.h>
#include <smmintrin.h>
#include <wmmintrin.h>
typedef int8_t int8; typedef int16_t int16; typedef int32_t int32; typedef int64_t int64;
typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32; typedef uint64_t uint64;
template <typename T> struct get_default { static T call(); };
template <typename T> inline void hash_combine(std::size_t& seed, const T& v);
struct Tuple0 { };
template <typename... Ts> struct Tuple { Tuple(); Tuple(Ts... ts); template <int I> auto get() const; };
template <typename A, typename B> struct Tuple2 { A t0; B t1; Tuple2(A, B); template <int I> auto get() const; };
template <typename T> struct DafnyArray {
  std::shared_ptr<std::vector<T>> vec;
  DafnyArray(); DafnyArray(uint64 len); DafnyArray(std::vector<T> contents); DafnyArray(std::initializer_list<T> contents);
  static DafnyArray<T> Null(); static std::shared_ptr<DafnyArray<T>> New(uint64 len); static std::shared_ptr<DafnyArray<T>> empty();
  T& at(uint64 i) const; size_t size() const; T* begin() const; T* end() const; T* ptr() const; T* data() const;
  void clear_and_resize(uint64 len); T& operator[](uint64 i) const;
  bool operator==(DafnyArray<T> const&) const; bool operator!=(DafnyArray<T> const&) const;
};
template <typename T> struct DafnySequence {
  std::shared_ptr<T> sptr; T* start; size_t len; size_t dbg_underlying_len;
  DafnySequence(); explicit DafnySequence(uint64 n); DafnySequence(const std::vector<T>&); DafnySequence(const DafnyArray<T>&);
  DafnySequence(std::initializer_list<T>); DafnySequence(DafnySequence<T> const&);
  T* ptr() const; size_t size() const; bool equals(DafnySequence const& o) const; T select(uint64 i) const;
  T* begin() const; T* end() const; uint64 sizeI() const;
  DafnySequence<T> update(uint64 i, T t); DafnySequence<T> concatenate(DafnySequence<T> other); DafnySequence<T> take(uint64 n) const; DafnySequence<T> drop(uint64 n) const;
  DafnySequence<T> subsequence(uint64 lo, uint64 hi) const; bool contains(T t) const; bool isPrefixOf(DafnySequence<T>) const; bool isProperPrefixOf(DafnySequence<T>) const;
  static DafnySequence<T> SeqFromArray(DafnyArray<T> arr); static DafnySequence<T> SeqFromArraySlice(DafnyArray<T> arr, uint64 lo, uint64 hi);
  static DafnySequence<T> SeqFromArrayPrefix(DafnyArray<T> arr, uint64 hi); static DafnySequence<T> SeqFromArraySuffix(DafnyArray<T> arr, uint64 lo);
  static DafnySequence<T> Create(std::initializer_list<T>); static DafnySequence<T> SeqFromPointer(T* p, uint64 n);
  bool operator==(DafnySequence<T> const&) const; bool operator!=(DafnySequence<T> const&) const;
};
template <typename K, typename V> struct DafnyMap {
  std::unordered_map<K, V> map; DafnyMap(); DafnyMap(DafnyMap const&);
  bool contains(K) const; V get(K) const; DafnyMap<K, V> update(K, V); size_t size() const; bool equals(DafnyMap const&) const; bool operator==(DafnyMap const&) const;
};
template <typename T> struct DafnySet { std::unordered_set<T> set; DafnySet(); bool contains(T) const; size_t size() const; };
template <typename T> struct std::hash<DafnySequence<T>> { size_t operator()(DafnySequence<T> const&) const; };
