// Specification interface. The same harness source is (1) compiled to LLVM IR and executed symbolically by
// the verifier, where every vf_* input is universally quantified and every vf_assert is an obligation, and
// (2) compiled natively, where the inputs come from the verifier's countermodel (replay) or a generator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <limits>
#include <memory>
#include <optional>
#include <functional>
#include <variant>
#include <array>
#include <vector>
#include <map>
#include <set>
extern "C" {
std::uint64_t vf_u64(const char* name);                       // any 64-bit value
std::uint64_t vf_size(const char* name, std::uint64_t max);   // any size 0..max (unbounded induction variable)
std::uint64_t vf_choice(const char* name, std::uint64_t max); // any of 0..max, one case each
bool vf_bool(const char* name);
double vf_double(const char* name);                           // any double, NaN and infinities included
const unsigned char* vf_bytes(const char* name, std::uint64_t n);   // exactly n readable bytes, any contents
std::uint64_t vf_fn(const char* name, std::uint64_t i);       // any function of the index
void vf_assume(bool c);
void vf_assert(bool c, const char* label);
void vf_reach(const char* label);                             // must be reachable (vacuity guard)
void vf_any_string(const char* name, std::string* s, std::uint64_t max);         // arbitrary contents
void vf_any_byte_vector(const char* name, std::vector<std::byte>* v, std::uint64_t max);
// loop-invariant hint: the contiguous container *obj is expected to end with byte/word `want` at index j
void vf_track(const void* obj, std::uint64_t j, std::uint64_t want, std::uint64_t width);
}
#define VF_MAXLEN (std::uint64_t(1) << 40)
#define VF_HARNESS extern "C" void
extern "C" {
// n writable bytes, byte i = table[u(i) % tabsize] for an arbitrary function u: every text over the given alphabet
unsigned char* vf_bytes_over(const char* name, std::uint64_t n, const char* table, std::uint64_t tabsize);
}
