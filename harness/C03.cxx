// Contract for libcwd::_private_::match (src/utils/match.cxx): glob matching of channel/library masks.
#include "src/utils/match.cxx"
#include "vf.h"
#include <cstring>
#include <vector>

// The specification: '*' stands for any sequence of characters, every other character for itself,
// and the whole name has to be consumed.
extern "C" bool vf_spec_glob(char const* mask, size_t masklen, char const* name)
#ifdef VF_NATIVE
{
  size_t n = std::strlen(name);
  std::vector<char> cur(n + 1), next(n + 1);
  for (size_t j = 0; j <= n; ++j) next[j] = j == n;
  for (size_t i = masklen; i-- > 0;) {
    for (size_t j = n + 1; j-- > 0;) {
      if (mask[i] == '*') cur[j] = next[j] || (j < n && cur[j + 1]);
      else cur[j] = j < n && name[j] == mask[i] && next[j + 1];
    }
    next = cur;
  }
  return next[0];
}
#else
;
#endif

VF_CONTRACT(match)
{
  char const* mask = vf_cstr("mask");
  char const* name = vf_cstr("name");
  size_t len = std::strlen(mask);
  if (!vf_symbolic()) vf_assume(len <= 14);      // the concrete runs only: matching takes time exponential in the number of stars
  vf_cover("called");
  bool expected = vf_spec_glob(mask, len, name);
  bool r = libcwd::_private_::match(mask, len, name);
  vf_cover("returned");
  vf_assert(r == expected, "match is glob matching of the whole name");
}
