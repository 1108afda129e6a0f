// A small stand-in for the Dafny C++ runtime, as far as /repo/framework uses it.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <immintrin.h>
typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32; typedef uint64_t uint64;
typedef int8_t int8; typedef int16_t int16; typedef int32_t int32; typedef int64_t int64;
template <typename T> struct get_default { static T call() { return T(); } };
template <typename U> inline void hash_combine(size_t &seed, U const &v) { std::hash<U> h; seed ^= h(v) + 0x9e3779b9 + (seed << 6) + (seed >> 2); }
struct Tuple0 { };
inline bool operator==(const Tuple0 &, const Tuple0 &) { return true; }
template <typename... Ts> struct Tuple {
  std::tuple<Ts...> data;
  Tuple() { }
  Tuple(Ts... ts) : data(ts...) { }
  template <int I> auto get() const { return std::get<I>(data); }
  bool operator==(const Tuple &o) const { return data == o.data; }
};
template <typename T> struct DafnyArray {
  std::shared_ptr<T> sptr; size_t len = 0;
  DafnyArray() { }
  explicit DafnyArray(size_t n) : sptr(new T[n](), std::default_delete<T[]>()), len(n) { }
  DafnyArray(std::initializer_list<T> l) : DafnyArray(l.size()) { std::copy(l.begin(), l.end(), sptr.get()); }
  explicit DafnyArray(std::vector<T> const &v) : DafnyArray(v.size()) { std::copy(v.begin(), v.end(), sptr.get()); }
  static std::shared_ptr<DafnyArray<T>> New(size_t n) { return std::make_shared<DafnyArray<T>>(n); }
  T &at(uint64 i) const { return *(sptr.get() + i); }
  T &operator[](uint64 i) const { return at(i); }
  size_t size() const { return len; }
  T *ptr() const { return sptr.get(); }
  T *begin() const { return sptr.get(); }
  T *end() const { return sptr.get() + len; }
  bool operator==(DafnyArray const &o) const { return sptr == o.sptr; }
};
template <typename T> struct DafnySequence {
  std::shared_ptr<T> sptr; T *start = nullptr; size_t len = 0;
  DafnySequence() { }
  explicit DafnySequence(uint64 n) : sptr(new T[n](), std::default_delete<T[]>()), start(sptr.get()), len(n) { }
  DafnySequence(std::initializer_list<T> l) : DafnySequence((uint64)l.size()) { std::copy(l.begin(), l.end(), start); }
  explicit DafnySequence(std::vector<T> const &v) : DafnySequence((uint64)v.size()) { std::copy(v.begin(), v.end(), start); }
  DafnySequence(DafnySequence const &o, size_t lo, size_t hi) : sptr(o.sptr), start(o.start + lo), len(hi - lo) { }
  static DafnySequence<T> SeqFromArray(DafnyArray<T> a) { DafnySequence<T> r((uint64)a.size()); std::copy(a.begin(), a.end(), r.start); return r; }
  static DafnySequence<T> SeqFromArrayPrefix(DafnyArray<T> a, uint64 hi) { return SeqFromArraySlice(a, 0, hi); }
  static DafnySequence<T> SeqFromArraySuffix(DafnyArray<T> a, uint64 lo) { return SeqFromArraySlice(a, lo, a.size()); }
  static DafnySequence<T> SeqFromArraySlice(DafnyArray<T> a, uint64 lo, uint64 hi) { DafnySequence<T> r(hi - lo); std::copy(a.begin() + lo, a.begin() + hi, r.start); return r; }
  static DafnySequence<T> Create(std::initializer_list<T> l) { return DafnySequence<T>(l); }
  uint64 size() const { return len; }
  T *ptr() const { return start; }
  T select(uint64 i) const { return start[i]; }
  T const &at(uint64 i) const { return start[i]; }
  T &operator[](uint64 i) const { return start[i]; }
  DafnySequence<T> take(uint64 n) const { return DafnySequence<T>(*this, 0, n); }
  DafnySequence<T> drop(uint64 n) const { return DafnySequence<T>(*this, n, len); }
  DafnySequence<T> subsequence(uint64 lo, uint64 hi) const { return DafnySequence<T>(*this, lo, hi); }
  DafnySequence<T> update(uint64 i, T v) const { DafnySequence<T> r((uint64)len); std::copy(start, start + len, r.start); r.start[i] = v; return r; }
  DafnySequence<T> concatenate(DafnySequence<T> o) const { DafnySequence<T> r((uint64)(len + o.len)); std::copy(start, start + len, r.start); std::copy(o.start, o.start + o.len, r.start + len); return r; }
  bool contains(T v) const { return std::find(start, start + len, v) != start + len; }
  bool equals(DafnySequence<T> const &o) const { return len == o.len && std::equal(start, start + len, o.start); }
  bool operator==(DafnySequence<T> const &o) const { return equals(o); }
  bool operator!=(DafnySequence<T> const &o) const { return !equals(o); }
  T *begin() const { return start; }
  T *end() const { return start + len; }
};
template <typename T> struct std::hash<DafnySequence<T>> { size_t operator()(DafnySequence<T> const &s) const { size_t h = 0; for (size_t i = 0; i < s.len; i++) hash_combine<T>(h, s.start[i]); return h; } };
inline DafnySequence<char> DafnySequenceFromString(std::string const &s) { DafnySequence<char> r((uint64)s.size()); std::copy(s.begin(), s.end(), r.start); return r; }
template <typename K, typename V> struct DafnyMap {
  std::unordered_map<K, V> map;
  DafnyMap() { }
  DafnyMap(std::initializer_list<std::pair<const K, V>> l) : map(l) { }
  bool contains(K k) const { return map.find(k) != map.end(); }
  V get(K k) const { return map.at(k); }
  DafnyMap<K, V> update(K k, V v) const { DafnyMap<K, V> r(*this); r.map[k] = v; return r; }
  size_t size() const { return map.size(); }
  bool equals(DafnyMap<K, V> const &o) const { return map == o.map; }
  bool operator==(DafnyMap<K, V> const &o) const { return map == o.map; }
};
