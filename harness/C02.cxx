// Contracts for libcwd::char2str and libcwd::buf2str (src/utils/char2str.cxx, include/libcwd/*2str.h).
#include "src/utils/char2str.cxx"
#include "libcwd/buf2str.h"
#include "vf.h"

VF_CONTRACT(char2str)
{
  char c = (char)vf_u8("c");
  std::ostream* os = vf_sink();
  vf_e_escape(os, &c, 1);
  vf_cover("a character");
  *os << libcwd::char2str(c);
  vf_expect_done(os, "char2str writes the escape of its character");
}

VF_CONTRACT(buf2str)
{
  size_t n = vf_u64("size");
  char const* buf = vf_buf("buf", n);
  std::ostream* os = vf_sink();
  vf_e_escape(os, buf, n);
  vf_cover("a buffer");
  *os << libcwd::buf2str(buf, n);
  vf_expect_done(os, "buf2str writes the escapes of all its characters in order");
}
