// C13: the parser's handler stack. Every object records where it was constructed, that it is destroyed once and in
// last-in first-out order, and that nothing else wrote into it while it lived.
#include "vf_common.hpp"
struct Obj
{
    virtual ~Obj() = default;
    virtual std::uint64_t id() const = 0;
    virtual bool intact() const = 0;
};
struct Ghost { const void* at[200]; std::uint64_t size[200]; std::uint64_t ids[200]; const Obj* obj[200]; std::uint64_t depth, next_id, destroyed; bool order; };
static Ghost g;
static void ghost_reset() { g.depth = 0; g.next_id = 1; g.destroyed = 0; g.order = true; }
template<std::size_t W> struct Probe : Obj
{
    std::uint64_t key; std::uint64_t pad[W];
    explicit Probe(bool fail) : key(g.next_id)
    {
        for (std::size_t i = 0; i < W; ++i) pad[i] = key + i;
        if (fail) throw int(7);
        g.at[g.depth] = this; g.size[g.depth] = sizeof(Probe); g.ids[g.depth] = key; g.obj[g.depth] = this; ++g.depth; ++g.next_id;
    }
    ~Probe() override
    {
        if (g.depth == 0 || g.ids[g.depth - 1] != key || !intact()) g.order = false; else --g.depth;
        ++g.destroyed; key = 0;
    }
    std::uint64_t id() const override { return key; }
    bool intact() const override { bool same = true; for (std::size_t i = 0; i < W; ++i) same = same & (pad[i] == key + i); return same; }
};
template<typename S> static void consistent(S& s, std::uint64_t from = 0)
{
    vf_assert(g.order, "objects are destroyed once, in last-in first-out order, unharmed");
    if (g.depth == 0) return;
    vf_assert(static_cast<const void*>(&s.back()) == g.at[g.depth - 1], "the top is the most recently pushed live object");
    for (std::uint64_t i = from; i < g.depth; ++i) {
        vf_assert(g.obj[i]->id() == g.ids[i] && g.obj[i]->intact(), "a live object is not overwritten");
        const char* a = static_cast<const char*>(g.at[i]); const char* lo = reinterpret_cast<const char*>(&s);
        vf_assert(a >= lo && a + g.size[i] <= lo + sizeof(S), "an object lies wholly inside the stack's own storage");
        vf_assert((a - lo) % 8 == 0, "an object is aligned");
        for (std::uint64_t j = i < from + 4 ? from : i - 1; j < i; ++j) { const char* b = static_cast<const char*>(g.at[j]); vf_assert(b + g.size[j] <= a || a + g.size[i] <= b, "live objects do not overlap"); }
    }
}
// roomy: the object certainly fits
template<std::size_t W, typename S> static bool push(S& s, bool fail, bool roomy, bool full)
{
    std::uint64_t depth = g.depth, before = g.next_id, gone = g.destroyed; int outcome = 0; const void* top = depth ? &s.back() : nullptr;
    try { Obj& o = s.template emplace<Probe<W>>(fail); outcome = 1; vf_assert(g.depth == depth + 1 && static_cast<const void*>(&o) == g.at[depth], "a push constructs one object and returns it"); }
    catch (const std::out_of_range&) { outcome = 2; }
    catch (int) { outcome = 3; }
    vf_assert(outcome != 3 || fail, "no other exception");
    if (outcome != 1) {
        vf_assert(g.depth == depth && g.next_id == before && g.destroyed == gone, "a refused push leaves the stack as it was");
        if (depth) vf_assert(&s.back() == top, "a refused push leaves the top as it was");
    } else vf_assert(!fail && !full, "a push that does not fit is refused");
    if (roomy && !fail) vf_assert(outcome == 1, "a push that fits is accepted");
    return outcome == 1;
}
template<typename S> static void pop(S& s)
{
    std::uint64_t depth = g.depth, gone = g.destroyed; bool refused = false;
    try { s.pop(); } catch (const std::out_of_range&) { refused = true; }
    if (depth == 0) vf_assert(refused && g.destroyed == gone && g.order, "a pop of an empty stack is refused and changes nothing");
    else vf_assert(!refused && g.depth == depth - 1 && g.destroyed == gone + 1, "a pop destroys exactly the top object");
}
using Small = detail::PolymorphicStack<Obj, 3, 160>;
// every history of five operations on a small stack, then destruction
template<int first> static void history()
{
    ghost_reset(); std::uint64_t total;
    {
        Small s; std::uint64_t used = 0;
        for (int i = 0; i < 5; ++i) {
            std::uint64_t op = i == 0 ? std::uint64_t(first) : vf_choice("op", 4);
            switch (op) {
                case 0: pop(s); break;
                case 1: push<1>(s, false, used + 24 + 16 < 160 && g.depth < 3, g.depth >= 3 || used + 24 > 160); break;
                case 2: push<7>(s, false, used + 72 + 16 < 160 && g.depth < 3, g.depth >= 3 || used + 72 > 160); break;
                case 3: push<3>(s, true, false, true); break;
                default: push<17>(s, false, false, used + 152 > 160 || g.depth >= 3); break;
            }
            used = 0; for (std::uint64_t k = 0; k < g.depth; ++k) used += g.size[k];
            consistent(s);
        }
        total = g.next_id - 1;
    }
    vf_assert(g.depth == 0 && g.order && g.destroyed == total, "every object is destroyed exactly once, the rest with the stack");
}
VF_HARNESS h_history_pop() { history<0>(); vf_reach("end"); }
VF_HARNESS h_history_small() { history<1>(); vf_reach("end"); }
VF_HARNESS h_history_large() { history<2>(); vf_reach("end"); }
VF_HARNESS h_history_throw() { history<3>(); vf_reach("end"); }
VF_HARNESS h_history_huge() { history<4>(); vf_reach("end"); }
using Real = detail::PolymorphicStack<Obj>;
// fill the stack the parser uses with objects of one size until it refuses, drop some, fill again, destroy
template<std::size_t W> static void fill()
{
    ghost_reset();
    {
        Real s; std::uint64_t size = sizeof(Probe<W>);
        for (int round = 0; round < 2; ++round) {
            while (push<W>(s, false, (g.depth + 1) * size + 16 < 4096 && g.depth < 128, g.depth >= 128 || (g.depth + 1) * size > 4096))
                consistent(s, g.depth > 2 ? g.depth - 2 : 0);
            consistent(s);
            push<W + 1>(s, false, false, true);
            push<1>(s, true, false, true);
            std::uint64_t drop = round == 0 ? vf_choice("drop", 2) : 0, d = g.depth; drop = drop == 0 ? 1 : drop == 1 ? d / 2 : d;
            for (std::uint64_t i = 0; i < drop; ++i) pop(s);
            consistent(s, g.depth > 2 ? g.depth - 2 : 0);
        }
    }
    vf_assert(g.depth == 0 && g.order && g.destroyed == g.next_id - 1, "every object is destroyed exactly once, the rest with the stack");
}
VF_HARNESS h_fill_1() { fill<1>(); vf_reach("end"); }
VF_HARNESS h_fill_2() { fill<2>(); vf_reach("end"); }
VF_HARNESS h_fill_5() { fill<5>(); vf_reach("end"); }
VF_HARNESS h_fill_12() { fill<12>(); vf_reach("end"); }
VF_HARNESS h_fill_30() { fill<30>(); vf_reach("end"); }
VF_HARNESS h_fill_255() { fill<254>(); vf_reach("end"); }
VF_HARNESS h_fill_509() { fill<507>(); vf_reach("end"); }
VF_HARNESS h_fill_510() { fill<510>(); vf_reach("end"); }
// one more object at every fill level near the end of the storage, and at every number of slots
template<std::size_t W> static void near_full()
{
    ghost_reset();
    {
        Real s; std::uint64_t level = vf_choice("level", 47), used = 0;          // 24- and 32-byte objects reach every multiple of 8
        for (int i = 0; i < 13; ++i) push<30>(s, false, true, false);
        used = 13 * g.size[0];
        std::uint64_t rest = 3720 + 8 * level - used;
        while (rest % 24 != 0 && rest >= 32) { push<2>(s, false, false, used + 32 > 4096); used += 32; rest -= 32; }
        while (rest >= 24) { if (!push<1>(s, false, false, used + 24 > 4096)) break; used += 24; rest -= 24; }
        used = 0; for (std::uint64_t k = 0; k < g.depth; ++k) used += g.size[k];
        push<W>(s, false, used + sizeof(Probe<W>) + 16 < 4096, used + sizeof(Probe<W>) > 4096);
        std::uint64_t low = g.depth > 3 ? g.depth - 3 : 0;
        consistent(s, low); pop(s); consistent(s, low);
        push<1>(s, false, false, false); consistent(s, low);
    }
    vf_assert(g.depth == 0 && g.order && g.destroyed == g.next_id - 1, "every object is destroyed exactly once, the rest with the stack");
}
VF_HARNESS h_near_full_1() { near_full<1>(); vf_reach("end"); }
VF_HARNESS h_near_full_4() { near_full<4>(); vf_reach("end"); }
VF_HARNESS h_near_full_11() { near_full<11>(); vf_reach("end"); }
VF_HARNESS h_near_full_38() { near_full<38>(); vf_reach("end"); }
// the parser's use of the stack: events always go to the most recently created live handler
struct Handler : JsonParseHandler<JsonValueNull>
{
    std::uint64_t k; std::uint64_t* gone;
    Handler(ReaderContext& c, std::uint64_t k, std::uint64_t* gone) : JsonParseHandler(c), k(k), gone(gone) {}
    ~Handler() override { ++gone[k]; }
};
VF_HARNESS h_context()
{
    std::uint64_t gone[8] = {}, ids[8], depth = 0, made = 0;
    {
        JsonParseEventDispatcher d; ReaderContext c(d); JsonParseEvent* live[8];
        for (int i = 0; i < 5; ++i) {
            std::uint64_t op = depth == 0 ? 0 : vf_choice("op", 2);
            if (op == 0) { JsonParseEvent& e = c.emplace<Handler>(c, made, gone); ids[depth] = made++; live[depth++] = &e; }
            else if (op == 1) { c.pop(); --depth; vf_assert(gone[ids[depth]] == 1, "pop: the top handler is destroyed"); }
            else { JsonParseEvent& e = c.replace<Handler>(c, made, gone); vf_assert(gone[ids[depth - 1]] == 1, "replace: the top handler is destroyed"); ids[depth - 1] = made++; live[depth - 1] = &e; }
            vf_assert(d.handler == (depth ? live[depth - 1] : nullptr), "events go to the most recently created live handler, or to none");
            for (std::uint64_t k = 0; k < depth; ++k) vf_assert(gone[ids[k]] == 0, "handlers below stay alive");
        }
    }
    for (std::uint64_t k = 0; k < made; ++k) vf_assert(gone[k] == 1, "every handler is destroyed exactly once");
    vf_reach("end");
}
