// packed_ptr: any aligned pointer with any unsigned integer, for every permitted combination of Bits and Alignment.
// REACH: done
#include "common.h"
#include "ktl/containers/packed_ptr.h"
using namespace ktl;

template<class I> static uint64_t sym(const char* n) {
  if constexpr (sizeof(I) == 8) return ks_u64(n); else if constexpr (sizeof(I) == 4) return ks_u32(n);
  else if constexpr (sizeof(I) == 2) return ks_u16(n); else return ks_u8(n);
}
template<class P, size_t A> static P symptr(const char* n) {
  uint64_t v = ks_u64(n); ks_assume((v & (uint64_t(A) - 1)) == 0); return reinterpret_cast<P>(v);
}
template<class I, size_t Bits> static bool same(I got, uint64_t put) {
  uint64_t mask = Bits == 0 ? 0 : (~uint64_t(0) >> (64 - (Bits ? Bits : 1)));
  return got == static_cast<I>(put & mask);
}
template<class P, class I, class J, size_t Bits, size_t A> static void one() {
  using pp = packed_ptr<P, Bits, A>;
  constexpr uint64_t mask = Bits == 0 ? 0 : (~uint64_t(0) >> (64 - (Bits ? Bits : 1)));
  { pp e; CHECK("D01", e.get_ptr() == nullptr && e.template get_int<I>() == 0, "a default packed_ptr is null with integer 0"); CHECK("D01", !static_cast<bool>(e), "a default packed_ptr is false"); }
  P p = symptr<P, A>("p"), q = symptr<P, A>("q");
  I v = (I)sym<I>("v"); J w = (J)sym<J>("w");
  pp x(p, v);
  CHECK("D01", x.get_ptr() == p, "the constructor stores the pointer");
  CHECK("D01", (same<I, Bits>(x.template get_int<I>(), v)), "the constructor stores the low Bits bits of the integer");
  CHECK("D01", (same<uint64_t, Bits>(x.template get_int<uint64_t>(), v)), "the integer reads the same through a wider type");
  CHECK("D01", static_cast<bool>(x) == ks_or(p != nullptr, (uint64_t(v) & mask) != 0), "bool is false exactly for null with 0");
  pp y(x); pp z; z = y;
  CHECK("D01", ks_and(z.get_ptr() == p, same<I, Bits>(z.template get_int<I>(), v)), "copies hold the same pointer and integer");
  y.set_ptr(q);
  CHECK("D01", y.get_ptr() == q, "set_ptr stores the pointer");
  CHECK("D01", (same<I, Bits>(y.template get_int<I>(), v)), "set_ptr leaves the integer");
  CHECK("D01", static_cast<bool>(y) == ks_or(q != nullptr, (uint64_t(v) & mask) != 0), "bool follows set_ptr");
  z.set_int(w);
  CHECK("D01", z.get_ptr() == p, "set_int leaves the pointer");
  CHECK("D01", (same<J, Bits>(z.template get_int<J>(), w)), "set_int stores the low Bits bits of the integer");
  CHECK("D01", static_cast<bool>(z) == ks_or(p != nullptr, (uint64_t(w) & mask) != 0), "bool follows set_int");
  y.set_int(w); z.set_ptr(q);
  CHECK("D01", ks_and(ks_and(y.get_ptr() == q, z.get_ptr() == q), ks_and(same<J, Bits>(y.template get_int<J>(), w), same<J, Bits>(z.template get_int<J>(), w))), "the order of the setters does not matter");
  CHECK("D01", ks_and(x.get_ptr() == p, same<I, Bits>(x.template get_int<I>(), v)), "changing a copy leaves the original");
  const pp c(q, w);
  CHECK("D01", ks_and(c.get_ptr() == q, same<J, Bits>(c.template get_int<J>(), w)), "const access");
}
constexpr size_t lg(size_t a) { size_t r = 0; while (a > 1) { a >>= 1; r++; } return r; }
template<size_t A, size_t... B> static void all(std::index_sequence<B...>) {
  size_t k = ks_choose("bits", sizeof...(B));
  ((k == B ? one<char*, uint64_t, uint32_t, B, A>() : (void)0), ...);
}
template<size_t A> static void every() { all<A>(std::make_index_sequence<lg(A) + 1>()); ks_reach("done"); }
struct alignas(32) Big { char c[32]; };
KS_ENTRY(align1) { every<1>(); }
KS_ENTRY(align2) { every<2>(); }
KS_ENTRY(align4) { every<4>(); }
KS_ENTRY(align8) { every<8>(); }
KS_ENTRY(align16) { every<16>(); }
KS_ENTRY(align64) { every<64>(); }
KS_ENTRY(align4096) { every<4096>(); }
KS_ENTRY(align2pow20) { every<(size_t(1) << 20)>(); }
KS_ENTRY(align2pow63) { every<(size_t(1) << 63)>(); }
KS_ENTRY(types) {
  switch (ks_choose("type", 6)) {
    case 0: one<Big*, uint8_t, uint16_t, 5, 32>(); break;
    case 1: one<const double*, uint16_t, uint8_t, 3, alignof(double)>(); break;
    case 2: one<void*, uint8_t, uint64_t, 12, 4096>(); break;
    case 3: one<int**, uint32_t, uint8_t, 2, alignof(int*)>(); break;
    case 4: one<void*, uint8_t, uint16_t, 40, (size_t(1) << 44)>(); break;
    case 5: { // the default alignment is the pointee's
      packed_ptr<uint64_t*, 3> d; uint64_t* p = symptr<uint64_t*, 8>("p8"); d.set_ptr(p); d.set_int(7u);
      CHECK("D01", ks_and(d.get_ptr() == p, d.get_int<unsigned>() == 7u), "default alignment");
      packed_ptr<Big*, 5> e; Big* b = symptr<Big*, 32>("p32"); e.set_int(31u); e.set_ptr(b);
      CHECK("D01", ks_and(e.get_ptr() == b, e.get_int<unsigned>() == 31u), "default alignment"); break; }
  }
  ks_reach("done");
}
