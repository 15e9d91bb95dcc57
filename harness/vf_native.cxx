// Native implementation of vf.h: replays concrete values, or (with -DVF_FUZZ) takes them from libFuzzer.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <fstream>
#include <iostream>
#include <map>
#include <regex>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

int vf_ts_violations, vf_ts_held;
namespace {
jmp_buf skip;
bool have_jmp;
bool fatal_expected;
[[noreturn]] void die() { std::raise(SIGABRT); std::_Exit(134); }
// replay
struct Rec { char kind; unsigned w; uint64_t v; std::string data; };
std::vector<Rec> recs;
size_t rpos;
// fuzz
uint8_t const* fd; size_t fn;
bool fuzzing;
bool log_inputs;
FILE* convert;
std::vector<void*> blocks;
struct Sink { std::ostringstream os; std::string expect; };
std::map<std::ostream*, Sink*> sinks;

uint64_t take(unsigned w, char const* name)
{
  uint64_t v = 0;
  if (fuzzing) {
    unsigned n = (w + 7) / 8;
    for (unsigned i = 0; i < n; ++i) { v = v << 8 | (fn ? *fd : 0); if (fn) { ++fd; --fn; } }
    if (w == 1) v &= 1;
  } else {
    if (rpos < recs.size() && recs[rpos].kind == 'i') v = recs[rpos++].v;
    else if (rpos >= recs.size()) v = 0;
    else ++rpos;
  }
  if (convert) { std::fprintf(convert, "i %u %llu %s\n", w, (unsigned long long)v, name); std::fflush(convert); }
  if (log_inputs) std::fprintf(stderr, "  input %s = %llu (0x%llx)\n", name, (unsigned long long)v, (unsigned long long)v);
  return v;
}
}
extern "C" {
uint64_t vf_u64(char const* n) { return take(64, n); }
uint32_t vf_u32(char const* n) { return (uint32_t)take(32, n); }
uint16_t vf_u16(char const* n) { return (uint16_t)take(16, n); }
uint8_t vf_u8(char const* n) { return (uint8_t)take(8, n); }
bool vf_bool(char const* n) { return take(1, n) & 1; }
void vf_assume(bool b) { if (!b) { if (log_inputs) std::fprintf(stderr, "  precondition not met\n"); if (have_jmp) longjmp(skip, 1); std::_Exit(0); } }
void vf_assert(bool b, char const* name) { if (!b) {
  // Only what the property says counts.
  static char const* claims = std::getenv("VF_CLAIMS");
  if (claims && !std::regex_search(name, std::regex(claims))) { if (log_inputs) std::fprintf(stderr, "  (another property: %s)\n", name); if (have_jmp) longjmp(skip, 1); std::_Exit(0); }
  std::fprintf(stderr, "VF-FAILED: %s\n", name); std::fflush(stderr); die(); } }
void vf_cover(char const*) { }
void vf_expect_fatal(bool b) { fatal_expected = b; }
void* vf_arbitrary(size_t n) { void* p = std::calloc(n, 1); blocks.push_back(p); return p; }
// The library ends the program with abort.
void abort() noexcept { if (fatal_expected && have_jmp) { fatal_expected = false; if (log_inputs) std::fprintf(stderr, "  fatal error, as required\n"); longjmp(skip, 1); } std::fprintf(stderr, "VF-FAILED: fatal error\n"); die(); }
bool vf_symbolic() { return false; }
static std::string take_data(char const* name, bool cstr, size_t want)
{
  std::string d;
  if (fuzzing) {
    size_t n = want;
    if (cstr) { n = fn ? *fd % 48 : 0; if (fn) { ++fd; --fn; } if (n == 47) n = fn; }
    if (cstr && n > fn) n = fn;
    for (size_t i = 0; i < n; ++i) { char c = fn ? (char)*fd : 0; if (fn) { ++fd; --fn; } if (cstr && !c) break; d += c; }
  } else {
    if (rpos < recs.size()) { if (recs[rpos].kind == 's') d = recs[rpos].data; ++rpos; }
    if (!cstr) d.resize(want);
    else d = d.c_str();
  }
  if (convert) {
    std::fprintf(convert, "s %zu ", d.size());
    for (unsigned char c : d) std::fprintf(convert, "%02x", c);
    std::fprintf(convert, " %s\n", name); std::fflush(convert);
  }
  if (log_inputs) {
    std::fprintf(stderr, "  input %s = \"", name);
    for (unsigned char c : d) if (c >= 32 && c < 127 && c != '"' && c != '\\') std::fputc(c, stderr); else std::fprintf(stderr, "\\x%02x", c);
    std::fprintf(stderr, "\" (%zu bytes)\n", d.size());
  }
  return d;
}
char const* vf_cstr(char const* name)
{
  std::string d = take_data(name, true, 0);
  char* p = (char*)std::malloc(d.size() + 1);
  std::memcpy(p, d.c_str(), d.size() + 1);
  blocks.push_back(p);
  return p;
}
char* vf_buf(char const* name, size_t n)
{
  if (n > (1u << 20)) vf_assume(false);
  std::string d = take_data(name, false, n);
  char* p = (char*)std::malloc(n ? n : 1);
  std::memcpy(p, d.data(), n);
  blocks.push_back(p);
  return p;
}
size_t vf_size(char const* name)
{
  if (!fuzzing) return take(64, name);
  uint64_t v = fn ? *fd : 0; if (fn) { ++fd; --fn; }
  if (v >= 250) { v = fn ? *fd * 16 : 0; if (fn) { ++fd; --fn; } }
  if (convert) { std::fprintf(convert, "i 64 %llu %s\n", (unsigned long long)v, name); std::fflush(convert); }
  if (log_inputs) std::fprintf(stderr, "  input %s = %llu\n", name, (unsigned long long)v);
  return v;
}
char* vf_heap(char const* name, size_t n)
{
  if (n > (1u << 20)) vf_assume(false);
  std::string d = take_data(name, false, n);
  char* p = (char*)std::malloc(n ? n : 1);
  std::memcpy(p, d.data(), n);
  return p;
}
std::ostream* vf_sink() { Sink* s = new Sink; sinks[&s->os] = s; return &s->os; }
void vf_e_char(std::ostream* os, char c) { sinks[os]->expect += c; }
void vf_e_mem(std::ostream* os, char const* p, size_t n) { sinks[os]->expect.append(p, n); }
void vf_e_fill(std::ostream* os, char c, size_t n) { sinks[os]->expect.append(n, c); }
void vf_e_escape(std::ostream* os, char const* p, size_t n)
{
  std::string& e = sinks[os]->expect;
  for (size_t i = 0; i < n; ++i) {
    unsigned char c = p[i];
    char b[8];
    switch (c) {
      case 7: e += "\\a"; break; case 8: e += "\\b"; break; case 9: e += "\\t"; break; case 10: e += "\\n"; break;
      case 11: e += "\\v"; break; case 12: e += "\\f"; break; case 13: e += "\\r"; break; case 27: e += "\\e"; break;
      case '\\': e += "\\\\"; break;
      default: if (c >= 32 && c <= 126) e += (char)c; else { std::snprintf(b, sizeof b, "\\x%02X", c); e += b; }
    }
  }
}
void vf_expect_done(std::ostream* os, char const* name)
{
  Sink* s = sinks[os];
  std::string got = s->os.str();
  if (got != s->expect) {
    std::fprintf(stderr, "VF-FAILED: %s\n  expected: ", name);
    std::fwrite(s->expect.data(), 1, s->expect.size(), stderr);
    std::fprintf(stderr, "\n  written:  ");
    std::fwrite(got.data(), 1, got.size(), stderr);
    std::fprintf(stderr, "\n");
    die();
  }
}
}
static std::map<std::string, void (*)()>& registry() { static std::map<std::string, void (*)()> r; return r; }
vf_reg::vf_reg(char const* name, void (*fn)()) { registry()[name] = fn; }
static void (*entry)();
static void cleanup()
{
  for (void* p : blocks) std::free(p);
  blocks.clear();
  for (auto& s : sinks) delete s.second;
  sinks.clear();
}
static void one()
{
  have_jmp = true;
  fatal_expected = false;
  if (!setjmp(skip)) entry();
  cleanup();
}
// Usage: PROG ENTRY --replay FILE   replays the values in FILE
//        PROG ENTRY --convert CRASH OUT   runs a libFuzzer input, writing the values it stands for to OUT
//        VF_ENTRY=ENTRY PROG libfuzzer-arguments
static int replay(char const* file)
{
  log_inputs = true;
  std::ifstream in(file);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    Rec r{};
    std::string k;
    is >> k;
    if (k == "i") { r.kind = 'i'; is >> r.w >> r.v; }
    else if (k == "s") {
      r.kind = 's';
      size_t n; std::string hex;
      is >> n >> hex;
      for (size_t i = 0; i + 1 < hex.size(); i += 2) r.data += (char)std::stoi(hex.substr(i, 2), nullptr, 16);
    } else continue;
    recs.push_back(r);
  }
  one();
  std::fprintf(stderr, "contract satisfied on these values\n");
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(uint8_t const* data, size_t size)
{
  fuzzing = true;
  fd = data; fn = size;
  one();
  return 0;
}
extern "C" int LLVMFuzzerInitialize(int* argc, char*** argv)
{
  char** a = *argv;
  char const* e = std::getenv("VF_ENTRY");
  if (e && registry().count(e)) { entry = registry()[e]; return 0; }
  if (*argc < 4 || !registry().count(a[1])) { std::fprintf(stderr, "no such contract\n"); std::_Exit(3); }
  entry = registry()[a[1]];
  if (!std::strcmp(a[2], "--replay")) { replay(a[3]); std::_Exit(0); }
  if (!std::strcmp(a[2], "--convert")) {
    convert = std::fopen(a[4], "w");
    log_inputs = true;
    std::ifstream in(a[3], std::ios::binary);
    std::stringstream ss; ss << in.rdbuf();
    std::string d = ss.str();
    LLVMFuzzerTestOneInput((uint8_t const*)d.data(), d.size());
    std::_Exit(0);
  }
  std::_Exit(3);
}
