// The contract language: a contract is a function that builds an arbitrary state satisfying the
// precondition, calls the real function and asserts the postcondition.  The verifier (vf/engine.py)
// interprets these for all values; vf_native.cxx implements them for replaying concrete values.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iosfwd>
extern "C" {
uint64_t vf_u64(char const* name);
uint32_t vf_u32(char const* name);
uint16_t vf_u16(char const* name);
uint8_t vf_u8(char const* name);
bool vf_bool(char const* name);
void vf_assume(bool);                       // part of the precondition
void vf_assert(bool, char const* name);     // named obligation
void vf_cover(char const* name);            // must be reachable (vacuity guard)
char const* vf_cstr(char const* name);      // any NUL-terminated string, any length, in its own allocation
char* vf_buf(char const* name, size_t n);   // n arbitrary bytes in their own allocation
size_t vf_size(char const* name);           // any size below 2^40
char* vf_heap(char const* name, size_t n);  // n arbitrary bytes obtained from malloc, owned by the code
void vf_expect_fatal(bool);                 // from here on a fatal error (DoutFatal, core_dump) happens only if this is true
void* vf_arbitrary(size_t n);               // n arbitrary bytes (zero bytes natively), not an input
bool vf_symbolic();                         // true in the verifier
// A sink with an expected text.  The expectation is declared first; every character that the code
// writes must be the next expected one, and vf_expect_done asserts that nothing is missing.
std::ostream* vf_sink();
void vf_e_char(std::ostream*, char c);
void vf_e_mem(std::ostream*, char const* p, size_t n);
void vf_e_fill(std::ostream*, char c, size_t n);
void vf_e_escape(std::ostream*, char const* p, size_t n);
void vf_expect_done(std::ostream*, char const* name);
}
// A constant that the callee contracts (checks/*.py) need, such as the offset of a member.
#define VF_CONST(name, expr) extern "C" { extern size_t const vf_k_##name; size_t const vf_k_##name = (expr); }
inline int vf_int(char const* name) { return (int)vf_u32(name); }
inline void vf_e_str(std::ostream* os, char const* s) { vf_e_mem(os, s, __builtin_strlen(s)); }
#ifdef VF_NATIVE
struct vf_reg { vf_reg(char const* name, void (*fn)()); };
#define VF_CONTRACT(name) static void vf_harness_##name(); static vf_reg vf_reg_##name(#name, vf_harness_##name); static void vf_harness_##name()
#else
#define VF_CONTRACT(name) extern "C" void vf_harness_##name()
#endif
