// A small working stand-in for the Dafny C++ runtime, enough to run the framework.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cassert>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <tuple>
#include <iostream>
#include <functional>
#include <algorithm>
#include <immintrin.h>
typedef int8_t int8; typedef int16_t int16; typedef int32_t int32; typedef int64_t int64;
typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32; typedef uint64_t uint64;
template <typename T> struct get_default { static T call() { return T(); } };
template <typename T> inline void hash_combine(std::size_t& seed, const T& v) { seed ^= std::hash<T>()(v) + 0x9e3779b9 + (seed << 6) + (seed >> 2); }
struct Tuple0 { };
template <typename... Ts> struct Tuple {
  std::tuple<Ts...> t; Tuple() {} Tuple(Ts... ts) : t(ts...) {}
  template <int I> auto get() const { return std::get<I>(t); }
};
template <typename T> struct DafnyArray {
  std::shared_ptr<std::vector<T>> vec;
  DafnyArray() : vec(new std::vector<T>()) {} DafnyArray(uint64 len) : vec(new std::vector<T>(len)) {}
  T& at(uint64 i) const { return (*vec)[i]; } size_t size() const { return vec->size(); }
  T* begin() const { return vec->data(); } T* end() const { return vec->data() + vec->size(); } T* ptr() const { return vec->data(); }
};
template <typename T> struct DafnySequence {
  std::shared_ptr<T> sptr; T* start = nullptr; size_t len = 0;
  void mk(size_t n) { sptr = std::shared_ptr<T>(new T[n](), std::default_delete<T[]>()); start = sptr.get(); len = n; }
  DafnySequence() {} explicit DafnySequence(uint64 n) { mk(n); }
  DafnySequence(const std::vector<T>& v) { mk(v.size()); std::copy(v.begin(), v.end(), start); }
  DafnySequence(std::initializer_list<T> v) { mk(v.size()); std::copy(v.begin(), v.end(), start); }
  T* ptr() const { return start; } size_t size() const { return len; }
  T select(uint64 i) const { return start[i]; }
  bool equals(DafnySequence const& o) const { return len == o.len && std::equal(start, start + len, o.start); }
  bool operator==(DafnySequence const& o) const { return equals(o); }
};
template <typename T> struct std::hash<DafnySequence<T>> { size_t operator()(DafnySequence<T> const& s) const { size_t h = 0; for (size_t i = 0; i < s.len; i++) hash_combine<T>(h, s.start[i]); return h; } };
template <typename K, typename V> struct DafnyMap {
  std::unordered_map<K, V> map;
  bool contains(K k) const { return map.count(k); } V get(K k) const { return map.at(k); } size_t size() const { return map.size(); }
};
