// C13: each operation of the stack, from any state that satisfies the invariant
//   objects 1..n lie in disjoint, increasing ranges of `memory`; current = address of object n (null if n = 0);
//   next >= end of object n (= memory if n = 0); items[i] = address of object i (null for i = 0)
// establishes it again: the induction step over every history. Needs the names of the private members.
#include "vf.hpp"
#include <cstddef>
#include <stdexcept>
#include <type_traits>
#include <new>
#define private public
#include "persistence/detail/polymorphic_stack.hpp"
#undef private
struct Obj { virtual ~Obj() = default; };
static std::uint64_t destroyed; static const void* last; static const void* made;
template<std::size_t W> struct Probe : Obj { std::uint64_t pad[W]; explicit Probe(bool fail) { made = this; if (fail) throw int(7); } ~Probe() override { ++destroyed; last = this; } };
using Real = persistence::detail::PolymorphicStack<Obj>;
struct Place { alignas(16) unsigned char raw[sizeof(Real)]; Real* s; Place() { s = new (raw) Real; } };      // never destroyed
template<std::size_t W> static void emplace_from(std::uint64_t n, std::uint64_t x, bool fail)      // n objects, next at offset x
{
    Place place; Real& s = *place.s; made = nullptr; destroyed = 0;
    s.count = n; s.next = s.memory + x; std::byte* top = n ? s.memory + (x >= 16 ? x - 16 : 0) : nullptr; s.current = top;
    std::byte* prev = n > 1 ? s.memory : nullptr; if (n) s.items[n - 1] = prev;
    bool ok = false, refused = false;
    try { Obj& o = s.emplace<Probe<W>>(fail); ok = true; vf_assert(&o == made && &s.back() == made, "emplace: returns the new object, which is the top"); }
    catch (const std::out_of_range&) { refused = true; } catch (int) {}
    if (ok) {
        std::byte* a = reinterpret_cast<std::byte*>(const_cast<void*>(made));
        vf_assert(n < 128, "emplace: no more objects than slots");
        vf_assert(a >= s.memory + x && a + sizeof(Probe<W>) <= s.memory + 4096, "emplace: the object lies inside the storage, behind the live ones");
        vf_assert(s.count == n + 1 && s.current == a && s.next >= a + sizeof(Probe<W>) && s.next <= s.memory + 4096, "emplace: the new object becomes the top");
        vf_assert(n >= 128 || s.items[n] == top, "emplace: the former top is remembered");
    } else {
        vf_assert(fail || refused, "emplace: no other exception");
        vf_assert(!refused || made == nullptr, "emplace: nothing is constructed when refused");
        vf_assert(s.count == n && s.next == s.memory + x && s.current == top, "emplace: a refused push leaves the stack as it was");
        vf_assert(!refused || n >= 128 || x + sizeof(Probe<W>) + 16 >= 4096, "emplace: refused only if it does not fit");
    }
    vf_assert(n == 0 || s.items[n - 1] == prev, "emplace: earlier entries are untouched");
    vf_assert(destroyed == 0, "emplace: nothing is destroyed");
}
template<std::size_t W> static void levels(std::uint64_t n, std::uint64_t from, std::uint64_t step) { std::uint64_t x = 8 * (from + vf_choice("level", step)); emplace_from<W>(n, x, false); }
VF_HARNESS h_levels_a() { levels<1>(1, 0, 512); vf_reach("end"); }
VF_HARNESS h_levels_b() { levels<3>(5, 0, 512); vf_reach("end"); }
VF_HARNESS h_levels_c() { levels<11>(127, 0, 512); vf_reach("end"); }
VF_HARNESS h_levels_d() { levels<40>(17, 0, 512); vf_reach("end"); }
VF_HARNESS h_levels_throw() { std::uint64_t x = 8 * vf_choice("level", 512); emplace_from<2>(3, x, true); vf_reach("end"); }
VF_HARNESS h_depths()
{
    std::uint64_t n = vf_choice("n", 128), x = vf_choice("level", 2); x = n == 0 ? 0 : x == 0 ? 24 : x == 1 ? 2048 : 4032;
    emplace_from<3>(n, x, false); vf_reach("end");
}
template<std::size_t W> static void pop_from(std::uint64_t n, std::uint64_t c)
{
    Place place; Real& s = *place.s; destroyed = 0;
    s.count = n; std::byte* top = s.memory + c; std::byte* prev = n > 1 ? s.memory + (c >= 16 ? c - 16 : 0) : nullptr;
    if (n) { new (top) Probe<W>(false); s.current = top; s.next = top + sizeof(Probe<W>); s.items[n - 1] = prev; } else { s.current = nullptr; s.next = s.memory; }
    if (n > 1) s.items[n - 2] = nullptr;
    bool refused = false;
    try { s.pop(); } catch (const std::out_of_range&) { refused = true; }
    if (n == 0) { vf_assert(refused && destroyed == 0 && s.count == 0 && s.current == nullptr && s.next == s.memory, "pop: refused on an empty stack, which stays empty"); return; }
    vf_assert(!refused && destroyed == 1 && last == top, "pop: destroys exactly the top object");
    vf_assert(s.count == n - 1 && s.current == prev, "pop: the object below becomes the top");
    vf_assert(s.next == (n > 1 ? top : s.memory + c) && (n < 2 || s.items[n - 2] == nullptr), "pop: only the top's space is released");
}
VF_HARNESS h_pop_depths() { std::uint64_t n = vf_choice("n", 128); pop_from<2>(n, n == 1 ? 0 : 16 * (n & 127)); vf_reach("end"); }
VF_HARNESS h_pop_levels() { std::uint64_t c = 8 * vf_choice("level", 500); pop_from<3>(c ? 9 : 1, c); vf_reach("end"); }
