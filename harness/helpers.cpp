// align_to_architecture and log2 over every 64-bit value.
// REACH: pad log
#include "common.h"
#include "ktl/utility/alignment.h"
#include "ktl/utility/bits.h"
KS_ENTRY(pad) {
  size_t n = ks_u64("n"); size_t A = alignof(std::max_align_t);
  size_t p = ktl::detail::align_to_architecture(n);
  CHECK("D03", p < A, "less than one alignment unit of padding");
  CHECK("D03", ((n + p) & (A - 1)) == 0, "the padded size is a multiple of the alignment");
  CHECK("D03", ktl::detail::ALIGNMENT == A && ktl::detail::ALIGNMENT_MASK == A - 1, "constants");
  ks_reach("pad");
}
KS_ENTRY(log2) {
  uintmax_t n = ks_u64("n"); ks_assume(n != 0);
  uintmax_t r = ktl::detail::log2(n);
  CHECK("D03", r < 64, "index in range");
  CHECK("D03", (n >> (r & 63)) == 1, "index of the highest set bit");
  ks_reach("log");
}
