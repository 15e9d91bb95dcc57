// Contract for libcwd::strerrno (src/strerrno.cxx).
#include "src/strerrno.cxx"
#include "vf.h"
#include <cstring>
#include "errno_spec.h"          // generated from this system's <errno.h>: bool has_name(unsigned), is_name_of(unsigned, char const*)

VF_CONTRACT(strerrno)
{
  unsigned int err = vf_u32("err");
  char const* name = libcwd::strerrno(err);
  vf_cover("strerrno returns");
  vf_assert(name != nullptr, "strerrno returns a string");
  if (has_name(err))
    vf_assert(is_name_of(err, name), "the returned string is a macro name of this error number");
  else if (err == 0)
    vf_assert(std::strcmp(name, "0") == 0, "no error is written 0");
  else
    vf_assert(std::strcmp(name, "UNKNOWN ERROR") == 0, "an unknown number is reported as UNKNOWN ERROR");
}
