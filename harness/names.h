// Names made of pieces of names.
#include <algorithm>
static std::string any_pieces()
{
  static char const* const pieces[] = {"_Z", "N", "E", "S", "S_", "St", "Sa", "T_", "T0_", "I", "L", "X", "Li", "Ld", "Lf", "F", "P", "R", "K", "V", "r", "A3_", "A", "M", "U", "Z",
    "1f", "3abc", "12_GLOBAL__N_1", "12_GLOBAL_", "23_GLOBAL__N__Z1fvE3abc", "99", "999999999", "9999999999", "cv", "cvT", "st", "sr", "pl", "plus", "sz", "C1", "D0", "TV", "Tv", "Th", "Tc", "GV",
    "GR", "_GLOBAL__D_", "_GLOBAL__I_", "i", "v", "d", "f", "s", "n1", "_", "0", "c", "G", "Y", "8010000000000000", "bf800000", "ff", "DpT_", "z", "u3abc"};
  unsigned const count = sizeof(pieces) / sizeof(*pieces);
  std::string t;
  for (unsigned n = vf_u8("pieces") % 16; n > 0; --n)
  {
    unsigned i = vf_u8("piece") % (count + 1);
    if (i == count)
      t += (char)(1 + vf_u8("character") % 255);
    else
      t += pieces[i];
  }
  t.resize(std::min(t.size(), (size_t)vf_u8("length")));
  return t;
}
