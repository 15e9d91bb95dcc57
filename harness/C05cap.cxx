// Contract for libcwd::DebugString::calculate_capacity (src/debug.cxx), which the other DebugString contracts rely on.
#include "src/debug.cxx"
#include "vf.h"
using libcwd::DebugString;
union Raw { DebugString ds; Raw() { } ~Raw() { } };

VF_CONTRACT(calculate_capacity)
{
  Raw r;
  size_t def = vf_size("default capacity"), size = vf_u64("size");
  vf_assume(64 <= def && size < ((size_t)1 << 42));
  r.ds.default_capacity_ = def;
  size_t c = r.ds.calculate_capacity(size);
  vf_cover("calculated");
  vf_assert(c >= size, "the calculated capacity is at least the size");
  vf_assert(c >= def, "the calculated capacity is at least the default capacity");
  vf_assert(c <= ((size_t)1 << 43), "the calculated capacity does not overflow");
  vf_assert(r.ds.default_capacity_ == def, "calculating a capacity changes nothing");
}
