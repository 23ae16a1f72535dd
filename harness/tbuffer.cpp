// trivial_buffer: element types of several sizes and alignments, any 64-bit index, every way of constructing and assigning.
// REACH: done
#include <initializer_list>
#include <iterator>
#include <memory>
#include "common.h"
#include "ktl/containers/trivial_buffer.h"
using namespace ktl;
struct P3 { uint8_t a, b, c; };
static bool operator==(const P3& x, const P3& y) { return ks_and(ks_and(x.a == y.a, x.b == y.b), x.c == y.c); }
struct Mix { uint32_t a; double d; };
static bool operator==(const Mix& x, const Mix& y) { uint64_t u, v; memcpy(&u, &x.d, 8); memcpy(&v, &y.d, 8); return ks_and(x.a == y.a, u == v); }
struct alignas(32) Wide { uint64_t a, b; };
static bool operator==(const Wide& x, const Wide& y) { return ks_and(x.a == y.a, x.b == y.b); }
template<class T> static T sym();
template<> uint8_t sym<uint8_t>() { return ks_u8("v"); }
template<> uint16_t sym<uint16_t>() { return ks_u16("v"); }
template<> uint64_t sym<uint64_t>() { return ks_u64("v"); }
template<> P3 sym<P3>() { return P3{ks_u8("v"), ks_u8("v"), ks_u8("v")}; }
template<> Mix sym<Mix>() { Mix m; m.a = ks_u32("v"); uint64_t u = ks_u64("v"); memcpy(&m.d, &u, 8); return m; }
template<> Wide sym<Wide>() { return Wide{ks_u64("v"), ks_u64("v")}; }
template<class T, size_t S> static void agree(trivial_buffer<T, S>& b, const T* ref) {
  const trivial_buffer<T, S>& c = b;
  CHECK("C03", b.size() == S, "size() is Size");
  CHECK("C03", (addr(b.data()) & (alignof(T) - 1)) == 0, "elements are aligned for T");
  CHECK("C03", b.data() == c.data() && b.begin() == b.data() && c.begin() == c.data(), "data() and begin() agree");
  CHECK("C03", b.end() - b.begin() == (ptrdiff_t)S && c.end() - c.begin() == (ptrdiff_t)S, "end() is Size elements on");
  CHECK("C03", addr(b.data()) >= addr(&b) && addr(b.end()) <= addr(&b) + sizeof(b), "the elements live inside the buffer object");
  size_t i = 0;
  for (const T& x : c) { CHECK("C03", x == ref[i], "forward iteration (const)"); i++; }
  CHECK("C03", i == S, "forward iteration visits Size elements"); i = 0;
  for (T& x : b) { CHECK("C03", x == ref[i], "forward iteration"); i++; }
  i = S; for (auto it = b.rbegin(); it != b.rend(); ++it) { i--; CHECK("C03", *it == ref[i], "reverse iteration"); }
  CHECK("C03", i == 0, "reverse iteration visits Size elements");
  i = S; for (auto it = c.rbegin(); it != c.rend(); ++it) { i--; CHECK("C03", *it == ref[i], "reverse iteration (const)"); }
  CHECK("C03", i == 0, "reverse iteration visits Size elements (const)");
  uint64_t k = ks_u64("k");
  const T& e = b[k];
  size_t pos = (addr(&e) - addr(b.data())) / sizeof(T);
  CHECK("C03", addr(&e) - addr(b.data()) == (k % S) * sizeof(T), "index modulo Size");
  CHECK("C03", &c[k] == &e, "const indexing reads the same element");
  CHECK("C03", &c.at(k) == &e, "at() reads the same element");
  CHECK("C03", &b.at(k) == &e, "at() reads the same element (non-const)");
}
template<class T, size_t S> static void run() {
  using B = trivial_buffer<T, S>;
  T in[S]; for (size_t i = 0; i < S; i++) in[i] = sym<T>();
  T ref[S];
  Raw<B> raw; 
  B* b = nullptr;
  switch (ks_choose("construct", 6)) {
    case 0: { T v = sym<T>(); b = new (raw.p()) B(v); for (auto& r : ref) r = v; break; }
    case 1: { b = new (raw.p()) B(in, in + S); memcpy(ref, in, sizeof in); break; }
    case 2: { B o(in, in + S); b = new (raw.p()) B(o); memcpy(ref, in, sizeof in); o[1] = in[0]; break; }
    case 3: { B o(in, in + S); b = new (raw.p()) B(std::move(o)); memcpy(ref, in, sizeof in); break; }
    case 4: { b = new (raw.p()) B(); b->assign(in, in + S); memcpy(ref, in, sizeof in); break; }
    case 5: { if constexpr (S == 3) { b = new (raw.p()) B{in[0], in[1], in[2]}; } else { b = new (raw.p()) B(); for (size_t i = 0; i < S; i++) (*b)[i] = in[i]; } memcpy(ref, in, sizeof in); break; }
  }
  agree<T, S>(*b, ref);
  for (int s = 0; s < 2; s++) switch (ks_choose("op", 5)) {
    case 0: { uint64_t i = ks_u64("i"); T v = sym<T>(); (*b)[i] = v; size_t m = i % S;
              for (size_t j = 0; j < S; j++) { if (ks_split(j == m)) { ref[j] = v; } }
              uint64_t i2 = ks_u64("i2"); if (ks_split(i2 % S == m)) CHECK("C03", (*b)[i2] == v, "every congruent index reads the value"); break; }
    case 1: { T o[S]; for (auto& x : o) x = sym<T>(); b->assign(o, o + S); memcpy(ref, o, sizeof o); break; }
    case 2: { T v = sym<T>(); B o(v); *b = o; for (auto& r : ref) r = v; o[0] = in[0]; break; }
    case 3: { T v = sym<T>(); B o(v); *b = std::move(o); for (auto& r : ref) r = v; break; }
    case 4: { B& same = *b; *b = same; break; }
  }
  agree<T, S>(*b, ref);
  ks_reach("done");
}
KS_ENTRY(u8_1) { run<uint8_t, 1>(); }
KS_ENTRY(u8_7) { run<uint8_t, 7>(); }
KS_ENTRY(u16_3) { run<uint16_t, 3>(); }
KS_ENTRY(u64_3) { run<uint64_t, 3>(); }
KS_ENTRY(u64_4) { run<uint64_t, 4>(); }
KS_ENTRY(p3_3) { run<P3, 3>(); }
KS_ENTRY(mix_2) { run<Mix, 2>(); }
KS_ENTRY(wide_3) { run<Wide, 3>(); }
// larger buffers, with sizes that are and are not powers of two, around what 8 bits can count
template<class T, size_t S> static void wide() {
  using B = trivial_buffer<T, S>; static T in[S], ref[S]; uint32_t x = 5; for (auto& e : in) { x = x * 1664525u + 1013904223u; uint8_t b[sizeof(T)]; for (size_t i = 0; i < sizeof(T); i++) b[i] = uint8_t(x >> (8 + 8 * (i & 1))); memcpy(&e, b, sizeof e); }
  static Raw<B> raw; B* b = nullptr; for (size_t i : {size_t(0), S / 2, S - 1}) in[i] = sym<T>();
  switch (ks_choose("construct", 5)) {
    case 0: { b = new (raw.p()) B(in[1]); for (auto& r : ref) r = in[1]; break; }
    case 1: { b = new (raw.p()) B(in, in + S); memcpy(ref, in, sizeof in); break; }
    case 2: { static Raw<B> o; new (o.p()) B(in, in + S); b = new (raw.p()) B(*o.p()); memcpy(ref, in, sizeof in); (*o.p())[1] = in[0]; break; }
    case 3: { static Raw<B> o; new (o.p()) B(in, in + S); b = new (raw.p()) B(std::move(*o.p())); memcpy(ref, in, sizeof in); break; }
    case 4: { b = new (raw.p()) B(); b->assign(in, in + S); memcpy(ref, in, sizeof in); break; }
  }
  auto look = [&] {
    CHECK("C03", b->size() == S && size_t(b->end() - b->begin()) == S && size_t(b->rend() - b->rbegin()) == S, "size() is Size");
    CHECK("C03", (addr(b->data()) & (alignof(T) - 1)) == 0 && addr(b->data()) >= addr(b) && addr(b->end()) <= addr(b) + sizeof(B), "the elements live inside the buffer object, aligned");
    bool ok = true; size_t i = 0; const B& c = *b; for (const T& e : c) { ok = ks_and(ok, e == ref[i]); i++; } CHECK("C03", ok && i == S, "iteration yields the elements");
    ok = true; for (i = 0; i < S; i++) ok = ks_and(ok, ks_and(c[i] == ref[i], ks_and(b->at(S * 3 + i) == ref[i], (*b)[~uint64_t(0) / S * S - S + i] == ref[i]))); CHECK("C03", ok, "index modulo Size");
    uint64_t k = ks_u64("k"); CHECK("C03", addr(&(*b)[k]) - addr(b->data()) == (k % S) * sizeof(T) && &c[k] == &(*b)[k] && &c.at(k) == &c[k] && &b->at(k) == &c[k], "index modulo Size");
  };
  look();
  switch (ks_choose("op", 4)) {
    case 0: { static constexpr size_t at[] = {0, 1, 127, 128, 255, 256, S / 2, S - 1}; size_t m = at[ks_choose("at", 8)] % S; T v = sym<T>(); (*b)[m + S * ks_choose("round", 3)] = v; ref[m] = v; break; }
    case 1: { b->assign(ref, ref + S); break; }
    case 2: { static Raw<B> o; new (o.p()) B(in[1]); *b = *o.p(); for (auto& r : ref) r = in[1]; break; }
    case 3: { static Raw<B> o; new (o.p()) B(in[1]); *b = std::move(*o.p()); for (auto& r : ref) r = in[1]; break; }
  }
  look();
  ks_reach("done");
}
KS_ENTRY(w_u8_8) { wide<uint8_t, 8>(); }
KS_ENTRY(w_u8_100) { wide<uint8_t, 100>(); }
KS_ENTRY(w_u8_255) { wide<uint8_t, 255>(); }
KS_ENTRY(w_u8_256) { wide<uint8_t, 256>(); }
KS_ENTRY(w_u16_257) { wide<uint16_t, 257>(); }
KS_ENTRY(w_u64_64) { wide<uint64_t, 64>(); }
KS_ENTRY(w_p3_300) { wide<P3, 300>(); }
KS_ENTRY(w_wide_65) { wide<Wide, 65>(); }
