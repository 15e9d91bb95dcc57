// Whole runtime configuration files, read by the real RcFile::read and compared with an independent interpreter of
// what the property says.  A bounded native check; it supplies the failing inputs for the contracts in C04.cxx.
#include <cstdlib>
// A fatal error ends the program.
[[noreturn]] inline void vf_exit_(int) { std::abort(); }
namespace std { using ::vf_exit_; }
#define _Exit vf_exit_
#include "src/debug.cxx"
#include "libcwd/RcFile.h"
namespace libcwd::channels::dc { extern Channel rcfile; }
#include "vf.h"
#include <cctype>
#include <cstring>
#include <string>
#include <vector>
#ifdef VF_NATIVE
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#endif
using namespace libcwd;
using libcwd::_private_::ThreadSpecificData;

#ifndef VF_NATIVE
VF_CONTRACT(file) { }
#else
namespace {

struct Reader : RcFile
{
  std::vector<std::pair<std::string, std::string>> unknown;
  bool unhandled = true;
  bool unknown_keyword(std::string const& k, std::string const& v) override { unknown.push_back({k, v}); return unhandled; }
};

bool glob(char const* m, char const* n)
{
  if (!*m) return !*n;
  if (*m == '*') return glob(m + 1, n) || (*n && glob(m, n + 1));
  return *n == *m && glob(m + 1, n + 1);
}

std::string upper(std::string s) { for (char& c : s) c = (char)std::toupper((unsigned char)c); return s; }

struct Chan { Channel* c; std::string name; int count; };

struct Model
{
  std::vector<Chan> chans;
  Chan* elf = nullptr;
  Chan* warning = nullptr;
  bool elf_on = false, fatal = false, warning_known = true;
  std::string gdb, xterm;
  std::vector<std::pair<std::string, std::string>> unknown;
  bool have_default[2] = {false, false}, default_on = false, reset = false;

  void all_on() { for (Chan& c : chans) if (&c != elf) c.count = -1; elf_on = true; }
  void all_off(bool keep_warning)
  {
    for (Chan& c : chans) if (c.count < 0) ++c.count;
    elf_on = false;
    if (keep_warning) warning_known = false;
  }
  void apply(std::vector<std::string> const& masks, int action)      // 0: on, 1: off, 2: toggle
  {
    for (std::string const& m : masks)
      for (Chan& c : chans)
        if (glob(upper(m).c_str(), c.name.c_str()))
        {
          bool is = &c == elf ? elf_on : c.count < 0;
          bool want = action == 0 || (action == 2 && !is);
          if (&c == warning && !warning_known) continue;
          if (is == want) continue;
          if (&c == elf)
          {
            elf_on = want;
            if (!want && c.count < 0) ++c.count;
          }
          else if (want) c.count = -1;
          else ++c.count;
        }
  }
};

Channel* extra[12];
void make_channels()
{
  static bool once;
  if (once) return;
  once = true;
  std::cerr.rdbuf(nullptr);
  alignas(Channel) static char storage[12][sizeof(Channel)];
  char const* const labels[] = {"alpha", "Alpine", "BETA", "beta2", "a b", "A", "gamma.delta", "ELFUTILSX", "WARN", "SIXTEEN_CHARS_OK", "al", "n*t"};
  for (int i = 0; i < 12; ++i) extra[i] = new (storage[i]) Channel(labels[i]);      // Zero initialized, as a global object.
}

char const* const blanks[] = {"", " ", "\t", "  ", "\v", " \t ", "", ""};
char const* const separators[] = {",", ", ", " ", ",,", "\t", ",\v", " , ", ", \t"};
std::string ws() { return blanks[vf_u8("white space") & 7]; }

std::string mask(Model const& m)
{
  unsigned i = vf_u8("mask");
  std::string s = i % 3 ? m.chans[(i / 3) % m.chans.size()].name : extra[(i / 3) % 12]->get_label();
  if (s.find(' ') != std::string::npos) s.erase(s.find(' '));
  unsigned how = vf_u8("form of the mask");
  size_t at = s.size() ? (how >> 4) % s.size() : 0;
  switch (how & 7)
  {
    case 0: return s.substr(0, at) + "*";
    case 1: return "*" + s.substr(at);
    case 2: return s.substr(0, at) + "*" + s.substr(at + 1);
    case 3: return s.substr(0, at + 1);
    case 4: return "*" + s.substr(at, 2) + "*";
    case 5: for (char& c : s) if (how & 0x10) c = (char)std::tolower(c); return s;
    case 6: if (at < s.size()) s[at] = (char)std::tolower(s[at]); return s;
    default: return (how & 0x80) ? "*" : s;
  }
}

std::string masks(Model const& m, std::vector<std::string>& list)
{
  std::string s;
  int n = vf_u8("number of masks") & 3;
  if (n && vf_u8("separator first") > 250) s += ",";
  for (int i = 0; i < n; ++i)
  {
    if (i) s += separators[vf_u8("separator") & 7];
    list.push_back(mask(m));
    s += list.back();
  }
  if (n && vf_u8("separator last") > 240) s += ",";
  return s;
}

std::string command()
{
  static char const* const words[] = {"/usr/bin/gdb", "-x", "a=b", "#1", "$PWD", "\"a  b\"", "=", "x"};
  std::string s;
  int n = vf_u8("words") & 3;
  for (int i = 0; i < n; ++i) s += (i ? " " : "") + std::string(words[vf_u8("word") & 7]);
  return s;
}

// One file: the text, and what it means.
std::string file(Model& m, int nr)
{
  static char const* const keywords[] = {"channels_on", "channels_off", "channels_toggle"};
  static char const* const others[] = {"foo", "gdbx", "Gdb", "channels", "channels_onn", "channel_on", "a-b", "xter"};
  std::string text;
  m.reset = false;
  int n = vf_u8("lines") % 10;
  for (int l = 0; l < n && !m.fatal; ++l)
  {
    unsigned kind = vf_u8("line") % 20;
    std::string k, v;
    if (kind == 0) { text += ws() + "\n"; continue; }
    if (kind == 1) { text += ws() + "#" + ws() + (vf_bool("commented out") ? "channels_default = on" : "text") + "\n"; continue; }
    if (kind == 2) { k = "silent"; v = vf_bool("silent") ? "on" : vf_bool("loud") ? "off" : "maybe"; }
    else if (kind == 3) { k = "gdb"; v = m.gdb = command(); }
    else if (kind == 4) { k = "xterm"; v = m.xterm = command(); }
    else if (kind < 8)
    {
      k = "channels_default";
      bool on = vf_bool("default");
      bool wrong = vf_u8("wrong value") > 250;
      v = wrong ? "On" : on ? "on" : "off";
      if (!m.have_default[nr])
      {
        m.have_default[nr] = true;
        if (wrong) m.fatal = true;
        else if (on) m.all_on();
        else m.all_off(false);
        m.default_on = on;
      }
    }
    else if (kind < 18)
    {
      int action = kind < 12 ? 0 : kind < 15 ? 1 : 2;
      k = keywords[action];
      std::vector<std::string> list;
      v = masks(m, list);
      bool any = m.have_default[0] || m.have_default[1];
      // In the override file the first such line replaces what was set before.
      if (nr == 1 && !m.reset && action == 0 && (!any || m.default_on)) { m.all_off(!any); m.reset = true; }
      if (nr == 1 && !m.reset && action == 1 && any && !m.default_on) { m.all_on(); m.reset = true; }
      if (action == 2 && !any) m.fatal = true;
      else m.apply(list, action);
    }
    else if (kind == 18)
    {
      k = others[vf_u8("keyword") & 7];
      v = command();
      m.unknown.push_back({k, v});
    }
    else
    {
      if (vf_u8("syntax error") < 200) continue;
      text += ws() + (vf_bool("no keyword") ? "= x" : "channels_on alpha") + "\n";
      m.fatal = true;
      continue;
    }
    text += ws() + k + ws() + "=" + ws() + v + ws() + "\n";
  }
  if (!text.empty() && vf_bool("no newline at the end")) text.pop_back();
  return text;
}

int put(std::string const& text, int to)
{
  int fd = memfd_create("rc", 0);
  dup2(fd, to);
  close(fd);
  size_t w = text.empty() ? 0 : write(to, text.data(), text.size());
  vf_assume(w == text.size());
  return to;
}
}

VF_CONTRACT(file)
{
  ThreadSpecificData& t = ThreadSpecificData::instance();
  t.recursive_fatal = false;
  libcwd::_private_::fatal_termination_started = false;
  if (t.debug_object_array[0]) t.debug_object_array[0]->init();
  make_channels();
  // A fatal error leaves a file open.
  static int first = -1;
  if (first < 0) { first = dup(0); close(first); }
  for (int i = 0; i < 4; ++i) close(first + i);

  Model m;
  ForAllDebugChannels(m.chans.push_back(Chan{&debugChannel, debugChannel.get_label(), 0}));
  for (Chan& c : m.chans)
  {
    if (c.name.find(' ') != std::string::npos) c.name.erase(c.name.find(' '));
    c.name = upper(c.name);
    if (c.name == "ELFUTILS") m.elf = &c;
    if (c.name == "WARNING") m.warning = &c;
    c.count = (vf_u8("off count") & 3) - 1;
    t.off_cnt_array[c.c->index_] = c.count;
  }
  vf_assert(m.elf && m.warning, "the channels ELFUTILS and WARNING exist");
  m.elf_on = m.elf->count < 0;
  int rc = (vf_u8("off count of RCFILE") & 3) - 1;
  t.off_cnt_array[channels::dc::rcfile.index_] = rc;
  t.debug_object_off_array[libcw_do.index_] = vf_bool("debug object on") ? -1 : 0;

  std::string text = file(m, 0), more;
  bool override = !m.fatal && vf_u8("override") < 80;
  if (override) more = file(m, 1);
  char name[2][32];
  std::snprintf(name[0], 32, "/proc/self/fd/%d", put(text, 700));
  setenv("LIBCWD_RCFILE_NAME", name[0], 1);
  if (override)
  {
    std::snprintf(name[1], 32, "/proc/self/fd/%d", put(more, 701));
    setenv("LIBCWD_RCFILE_OVERRIDE_NAME", name[1], 1);
  }
  else
    unsetenv("LIBCWD_RCFILE_OVERRIDE_NAME");

  static bool const show = std::getenv("VF_SHOW");
  if (show) std::fprintf(stderr, "--- file\n%s--- override\n%s---\n", text.c_str(), more.c_str());
  Reader r;
  r.unhandled = vf_bool("unhandled");
  vf_expect_fatal(m.fatal);
  r.read();
  vf_expect_fatal(false);
  if (m.fatal) std::fprintf(stderr, "the file:\n%s\nthe override file:\n%s\n", text.c_str(), more.c_str());
  vf_assert(!m.fatal, "a line that is not keyword = value ends with a fatal error");
  for (Chan& c : m.chans)
  {
    if (&c == m.warning && !m.warning_known) continue;
    if (&c == m.elf && m.elf_on) c.count = -1;
    int got = t.off_cnt_array[c.c->index_];
    if (got != c.count)
      std::fprintf(stderr, "channel %s has off count %d instead of %d after reading:\n%s\nthe override file:\n%s\n", c.name.c_str(), got, c.count, text.c_str(), more.c_str());
    vf_assert((got < 0) == (c.count < 0), "exactly the channels that are named are switched");
    vf_assert(got == c.count, "a channel that is in the requested state already is left alone");
  }
  vf_assert(t.off_cnt_array[channels::dc::rcfile.index_] == rc, "the RCFILE channel is left as it was");
  vf_assert(r.gdb_bin() == m.gdb && r.konsole_command() == m.xterm, "gdb and xterm set their command");
  vf_assert(r.unknown == m.unknown, "exactly the other keywords are offered to the application");
  vf_assert(r.read_called(), "the file was read");
}
#endif
