// Native helpers under the verified code: packing, copying, linear sequences and boxes, instruction wrappers.
#include "sim.h"
#include "Application.h"
#include "LinearCongruentialGenerator.h"
typedef DafnySequence<uint8> BY;
static std::string S(uint64_t x) { return std::to_string(x); }
template <typename T> static DafnyArray<T> arr(std::vector<T> const &v) { DafnyArray<T> a(v.size()); std::copy(v.begin(), v.end(), a.begin()); return a; }
template <typename T> static std::vector<T> vec(DafnyArray<T> const &a) { return std::vector<T>(a.begin(), a.end()); }
template <typename T> static std::vector<T> vec(DafnySequence<T> const &a) { return std::vector<T>(a.begin(), a.end()); }
PART(packed) {
  using namespace NativePackedInts_Compile; auto b = t.bytes(60); while (b.size() < 8) b.push_back(t.below(256)); BY s(b); auto le = [&](std::vector<uint8_t> const &v, size_t i, int w) { uint64_t r = 0; for (int j = w - 1; j >= 0; j--) r = r << 8 | v[i + j]; return r; };
  { size_t i = t.below(b.size() - 3); CHECK(Unpack__LittleEndian__Uint32(s, i) == le(b, i, 4), "32-bit value at " + S(i)); } { size_t i = t.below(b.size() - 7); CHECK(Unpack__LittleEndian__Uint64(s, i) == le(b, i, 8), "64-bit value at " + S(i)); CHECK(Unpack__LittleEndian__Uint64__From__Array(arr(b), i) == le(b, i, 8), "64-bit value of an array at " + S(i)); }
  auto putc = [&](int w, uint64_t x) { size_t i = t.below(b.size() - w + 1); auto a = arr(b); auto e = b; for (int j = 0; j < w; j++) e[i + j] = x >> (8 * j); if (w == 4) Pack__LittleEndian__Uint32__into__Array((uint32)x, a, i); else Pack__LittleEndian__Uint64__into__Array(x, a, i); CHECK(vec(a) == e, "packing a " + S(8 * w) + "-bit value at " + S(i)); }; putc(4, t.word()); putc(8, t.word());
  { size_t n = t.below(b.size() / 4 + 1), i = t.below(b.size() - 4 * n + 1); auto r = Unpack__LittleEndian__Uint32__Seq(s, i, n); CHECK(r.size() == n, "length of a 32-bit sequence"); for (size_t j = 0; j < n; j++) CHECK(r.select(j) == le(b, i + 4 * j, 4), "entry " + S(j) + " of a 32-bit sequence at " + S(i)); auto a = arr(std::vector<uint8_t>(b.size(), 0xA5)); Pack__LittleEndian__Uint32__Seq__into__Array(r, a, i); auto e = std::vector<uint8_t>(b.size(), 0xA5); std::copy(b.begin() + i, b.begin() + i + 4 * n, e.begin() + i); CHECK(vec(a) == e, "packing " + S(n) + " 32-bit values at " + S(i)); }
  { size_t n = t.below(b.size() / 8 + 1), i = t.below(b.size() - 8 * n + 1); auto r = Unpack__LittleEndian__Uint64__Seq(s, i, n); CHECK(r.size() == n, "length of a 64-bit sequence"); for (size_t j = 0; j < n; j++) CHECK(r.select(j) == le(b, i + 8 * j, 8), "entry " + S(j) + " of a 64-bit sequence at " + S(i)); auto a = arr(std::vector<uint8_t>(b.size(), 0xA5)); Pack__LittleEndian__Uint64__Seq__into__Array(r, a, i); auto e = std::vector<uint8_t>(b.size(), 0xA5); std::copy(b.begin() + i, b.begin() + i + 8 * n, e.begin() + i); CHECK(vec(a) == e, "packing " + S(n) + " 64-bit values at " + S(i)); }
  CHECK(vec(s) == b, "unpacking changed its input"); c.nontrivial(b.size() > 16); c.desc = S(b.size()) + " bytes";
}
template <typename T, typename G> static size_t arraysOf(Tape &t, G g) {
  using namespace NativeArrays_Compile; std::vector<T> b, d; for (int k = t.size(20); k > 0; k--) b.push_back(g()); for (int k = t.size(20); k > 0; k--) d.push_back(g()); { uint64 n = t.below(20); T v = g(); auto a = newArrayFill<T>(n, v); CHECK(vec(a) == std::vector<T>(n, v), "newArrayFill"); }
  { auto a = arr(b), q = newArrayClone<T>(a); CHECK(vec(q) == b, "newArrayClone"); if (b.size()) { q.at(t.below(b.size())) = g(); CHECK(vec(a) == b, "a clone shares its cells"); } }
  size_t n = t.below(std::min(b.size(), d.size()) + 1), i = t.below(b.size() - n + 1), j = t.below(d.size() - n + 1); auto e = d; std::copy(b.begin() + i, b.begin() + i + n, e.begin() + j);
  { auto a = arr(d); CopySeqIntoArray<T>(DafnySequence<T>(b), i, a, j, n); CHECK(vec(a) == e, "CopySeqIntoArray of " + S(n) + " from " + S(i) + " to " + S(j)); } { auto a = arr(d), s = arr(b); CopyArrayIntoDifferentArray<T>(s, i, a, j, n); CHECK(vec(a) == e && vec(s) == b, "CopyArrayIntoDifferentArray of " + S(n) + " from " + S(i) + " to " + S(j)); }
  return n;
}
PART(arrays) {
  using namespace NativeArrays_Compile; size_t n = 0; switch (t.below(4)) { case 0: n = arraysOf<uint8>(t, [&] { return (uint8)t.below(256); }); break; case 1: n = arraysOf<uint64>(t, [&] { return (uint64)t.word(); }); break; case 2: n = arraysOf<uint32>(t, [&] { return (uint32)t.word(); }); break; default: n = arraysOf<BY>(t, [&] { return BY(t.bytes(4)); }); }
  { DafnyMap<uint64, uint64> m; for (int k = t.below(6); k > 0; k--) m.map[t.below(5)] = t.below(9); auto m0 = m.map; uint64 k = t.below(5); auto r = MapRemove__s_Compile::ComputeMapRemove1<uint64, uint64>(m, k); auto w = m0; w.erase(k); CHECK(r.map == w && m.map == m0, "ComputeMapRemove1"); }
  c.nontrivial(n >= 2); c.desc = S(n) + " cells";
}
struct Obj { int v = 0; };
static int destroyed = 0, last = 0;
PART(linear) {
  using namespace LinearExtern; using namespace LinearMaybe; std::vector<uint64> m; uint64 fill = t.below(9), n0 = t.below(8); auto s = t.bit() ? (m.assign(n0, fill), seq_alloc<uint64>(n0, fill)) : seq_empty<uint64>(); int k = 0;
  auto same = [&] { CHECK(seq_length<uint64>(s) == m.size(), "length of a linear sequence"); for (size_t i = 0; i < m.size(); i++) CHECK(seq_get<uint64>(s, i) == m[i], "entry " + S(i) + " of a linear sequence"); }; same();
  for (int j = t.size(12); j > 0; j--) { k++; if (t.bit() && m.size()) { size_t i = t.below(m.size()); uint64 v = t.word(); s = seq_set<uint64>(s, i, v); m[i] = v; } else { size_t n = t.below(12); size_t o = m.size(); s = TrustedRuntimeSeqResize<uint64>(s, n); m.resize(n); for (size_t i = o; i < n; i++) { uint64 v = t.below(99); s = seq_set<uint64>(s, i, v); m[i] = v; } } same(); }
  if (t.bit()) { auto u = seq_unleash<uint64>(s); CHECK(vec(u) == m, "seq_unleash"); } else seq_free<uint64>(s);
  std::vector<uint64> lm(t.below(7)); auto l = lseq_alloc_raw<uint64>(lm.size()); CHECK(lseq_length_raw<uint64>(l) == lm.size(), "length of an lseq"); for (size_t i = 0; i < lm.size(); i++) { lm[i] = t.word(); l = lseq_swap_raw_fun<uint64>(l, i, give<uint64>(lm[i])).template get<0>(); }
  for (int j = t.size(10); j > 0; j--) { if (lm.size() && t.bit()) { size_t i = t.below(lm.size()); uint64 v = t.word(); auto p = lseq_swap_raw_fun<uint64>(l, i, give<uint64>(v)); l = p.template get<0>(); CHECK(unwrap<uint64>(p.template get<1>()) == lm[i], "the element swapped out of place " + S(i)); lm[i] = v; } else { size_t n = t.below(9), o = lm.size(); l = TrustedRuntimeLSeqResize<uint64>(l, n); lm.resize(n); for (size_t i = o; i < n; i++) { lm[i] = t.below(50); l = lseq_swap_raw_fun<uint64>(l, i, give<uint64>(lm[i])).template get<0>(); } } CHECK(lseq_length_raw<uint64>(l) == lm.size(), "length of an lseq"); for (size_t i = 0; i < lm.size(); i++) CHECK(peek<uint64>(lseq_share_raw<uint64>(l, i)) == lm[i], "entry " + S(i) + " of an lseq"); }
  lseq_free_raw<uint64>(l);
  { using namespace LinearBox_s; destroyed = 0; int x = t.below(99), y = t.below(99); { SwapLinear<int> b(x, ToDestructor<int>(+[](int a) { destroyed++; last = a; return Tuple0(); })); CHECK(b.Borrow() == x && b.Swap(y) == x && b.Borrow() == y && destroyed == 0, "a linear box"); } CHECK(destroyed == 1 && last == y, "the destructor of a linear box runs once on its content"); SwapAffine<int> a(x); CHECK(a.Swap(y) == x && a.Borrow() == y, "an affine box"); auto d = ToDestructorEnv<int, int>(+[](int a, int e) { last = a * 1000 + e; return Tuple0(); }, x); CallDestructor<int>(d, y); CHECK(last == y * 1000 + x, "a destructor with environment"); }
  c.nontrivial(k >= 2); c.desc = S(k) + " operations";
}
PART(instructions) {
  using namespace F2__X__s_Compile; using namespace Bits__s_Compile; uint64_t a = t.word(), b = t.word(); auto crc = [](uint32_t cr, uint64_t v, int bits) { for (int i = 0; i < bits; i += 8) { cr ^= (v >> i) & 255; for (int j = 0; j < 8; j++) cr = cr & 1 ? (cr >> 1) ^ 0x82f63b78u : cr >> 1; } return cr; };
  CHECK(bitxor32(a, b) == (uint32_t)((uint32_t)a ^ (uint32_t)b) && bitxor64(a, b) == ((a | b) & ~(a & b)), "exclusive or"); CHECK(intrinsic_mm_crc32_u8(a, b) == crc(a, b & 255, 8), "crc32 of a byte"); CHECK(intrinsic_mm_crc32_u64((uint32_t)a, b) == crc(a, b, 64), "crc32 of a word"); CHECK(NativeArithmetic_Compile::u64add(a, b) == a + b, "u64add");
  std::vector<uint64> w(2 + t.below(6)); for (auto &x : w) x = t.word(); DafnySequence<uint64> s(w); uint32 i = t.below(w.size() - 1); auto get = [](__m128i v) { uint64_t o[2]; memcpy(o, &v, 16); return std::make_pair(o[0], o[1]); }; auto v = intrinsic_mm_loadu_si128(s, i); CHECK(get(v) == std::make_pair((uint64_t)w[i], (uint64_t)w[i + 1]), "a 128-bit load at " + S(i));
  auto u = _mm_set_epi64x(b, a); auto x = get(intrinsic_mm_xor_si128(u, v)); CHECK(x.first == (a ^ w[i]) && x.second == (b ^ w[i + 1]), "128-bit exclusive or"); auto z = get(intrinsic_mm_cvtepu32_epi64(u)); CHECK(z.first == (uint32_t)a && z.second == a >> 32, "widening"); CHECK(get(intrinsic_mm_cvtsi64_si128(a)) == std::make_pair(a, (uint64_t)0) && intrinsic_mm_cvtsi128_si64(u) == a, "64 to 128 bits");
  auto mul = [](uint64_t p, uint64_t q) { uint64_t lo = 0, hi = 0; for (int k = 0; k < 64; k++) if (q >> k & 1) { lo ^= p << k; if (k) hi ^= p >> (64 - k); } return std::make_pair(lo, hi); }; CHECK(get(intrinsic_mm_clmulepi64_si128_0(u, v)) == mul(a, w[i]), "carry-less product of the low halves"); CHECK(get(intrinsic_mm_clmulepi64_si128_16(u, v)) == mul(a, w[i + 1]), "carry-less product of the low and the high half");
  LinearCongruentialGenerator_Compile::LCG g(a); uint64_t r = a; for (int k = 0; k < 4; k++) { r = r * 6364136223846793005ull + 1442695040888963407ull; CHECK(g.next() == r, "the generator's next value"); }
  c.nontrivial(); c.desc = S(a) + " " + S(b);
}
