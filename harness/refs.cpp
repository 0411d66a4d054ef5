// C09: shared objects are written once and restored as one shared object
#include "vf_hash.hpp"
#include "vf_read.hpp"
#include "vf_pointer.hpp"
#include <tuple>
struct Leaf { Item x{ 1 }; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(x); } };
using SP = std::shared_ptr<Leaf>; using SI = std::shared_ptr<Item>; using ST = std::shared_ptr<std::string>;
// An object graph is described by the token list of its JSON; a shared object is opened with `share(k)`: the first time in
// full, afterwards as a reference to the place of the first time.
struct Graph : Expect
{
    std::uint64_t where[4]; bool seen[4] = { false, false, false, false }; std::string refs[12]; std::uint64_t used = 0;
    // true: the object is to be described in full now
    bool share(std::uint64_t k)
    {
        if (!seen[k]) { seen[k] = true; where[k] = n; return true; }
        refs[used] = pointer_of(*this, where[k]); obj().key("$ref").str(refs[used]).eobj(); ++used;
        return false;
    }
    void leaf(std::uint64_t k, std::uint64_t v) { if (share(k)) obj().key("x").num(v).eobj(); }
    void item(std::uint64_t k, std::uint64_t v) { if (share(k)) num(v); }
};
// Which of the read pointers are the same object: exactly those described by the same k.
template<typename P> static void same_pattern(const P* p, const std::uint64_t* k, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) for (std::uint64_t j = 0; j < i; ++j) {
        if (k[i] == k[j]) vf_assert(p[i].get() == p[j].get(), "[C09] every back-reference shares the one object read at that place");
        else vf_assert(p[i].get() != p[j].get(), "[C09] distinct objects are restored as distinct objects");
    }
}
template<typename P> static void counts(const P* p, const std::uint64_t* k, std::uint64_t n, long extra)
{
    for (std::uint64_t i = 0; i < n; ++i) { long c = extra; for (std::uint64_t j = 0; j < n; ++j) c += k[j] == k[i]; vf_assert(p[i].use_count() == c, "[C09] the restored object is owned by exactly those that refer to it"); }
}
// writes `value`, reads the description back, reads what was written back; calls pattern(v) on what is read
enum : int { WRITE = 1, READ = 2, BACK = 4 };
template<int modes, typename T, typename F> static void both(const T& value, const Graph& g, F pattern)
{
    if constexpr (modes & WRITE) check_write(value, g, true);
    if constexpr (modes & READ) check_read<T, DOM>(g, true, pattern);
    if constexpr (modes & BACK) {
        rapidjson::Document doc; serialize_to_document(value, doc);
        T v; bool ok = deserialize(doc, v); vf_assert(ok, "[C09] what was written is read back"); if (ok) pattern(v);
    }
    vf_reach("end");
}
#define MODES(name) VF_HARNESS h_##name##_write() { name<WRITE>(); } VF_HARNESS h_##name##_read() { name<READ>(); } VF_HARNESS h_##name##_back() { name<BACK>(); }
template<int M> static void list()           // every sequence of three occurrences of up to three objects
{
    SP o[3]; std::uint64_t x[3]; for (int i = 0; i < 3; ++i) { x[i] = good_value("x"); o[i] = std::make_shared<Leaf>(); o[i]->x.v = x[i]; }
    std::uint64_t k[3]; std::vector<SP> v; Graph g; g.arr();
    for (int i = 0; i < 3; ++i) { k[i] = vf_choice("k", std::uint64_t(i)); v.push_back(o[k[i]]); g.leaf(k[i], x[k[i]]); }
    g.end();
    both<M>(v, g, [&](std::vector<SP>& r) { HOLDS(r.size() == 3); same_pattern(r.data(), k, 3); counts(r.data(), k, 3, 0); for (int i = 0; i < 3; ++i) HOLDS(r[i] && r[i]->x.v == x[k[i]]); });
}
MODES(list)
VF_HARNESS h_list_bad()
{
    SP o[2]; std::uint64_t x[2]; for (int i = 0; i < 2; ++i) { x[i] = vf_u64("x"); o[i] = std::make_shared<Leaf>(); o[i]->x.v = x[i]; }
    std::uint64_t k[3]; std::vector<SP> v; Graph g; bool good = true; g.arr();
    for (int i = 0; i < 3; ++i) { k[i] = vf_choice("k", i ? 1 : 0); v.push_back(o[k[i]]); g.leaf(k[i], x[k[i]]); good = good && !(x[k[i]] >> 63); }
    g.end(); check_write(v, g, good); vf_reach("end");
}
template<int M> static void scalars()        // shared scalars and texts
{
    std::uint64_t x = good_value("x"), y = good_value("y"), k[3] = { 0, 1, 0 };
    SI a = std::make_shared<Item>(Item{ x }), b = std::make_shared<Item>(Item{ y });
    std::array<SI, 3> v{ a, b, a }; Graph g; g.arr(); g.item(0, x); g.item(1, y); g.item(0, x); g.end();
    both<M>(v, g, [&](auto& r) { same_pattern(r.data(), k, 3); HOLDS(r[0]->v == x && r[1]->v == y); });
    ST s = std::make_shared<std::string>("text"), t = std::make_shared<std::string>("text");
    std::vector<ST> w{ s, t, t, s }; Graph h; h.arr().str("text").str("text").obj().key("$ref").str("/1").eobj().obj().key("$ref").str("/0").eobj().end(); std::uint64_t m[4] = { 0, 1, 1, 0 };
    both<M>(w, h, [&](auto& r) { HOLDS(r.size() == 4); same_pattern(r.data(), m, 4); HOLDS(r[0]->size() == 4 && r[1]->size() == 4); });
}
MODES(scalars)
template<int M> static void map()            // under awkward keys
{
    static const char* const keys[] = { "", "/", "0", "a long key with a / and a ~ in it, going on and on for more than a hundred characters, so that it is on the heap ~/", "k~" };       // in map order
    std::uint64_t first = vf_choice("first", 3), second = first + 1 + vf_choice("second", 1); if (second > 4) second = 4;
    SP shared = std::make_shared<Leaf>(), other = std::make_shared<Leaf>(); shared->x.v = good_value("x"); std::map<std::string, SP> v; Graph g; g.obj(); SP p[5]; std::uint64_t k[5];
    std::uint64_t at = vf_choice("other", 1) ? first : second, n = 0, m[5];       // the other object just before the first or the second
    for (std::uint64_t i = 0; i < 5; ++i) {
        bool is = i == first || i == second; if (!is && i + 1 != at) continue;
        v[keys[i]] = is ? shared : other; g.key(keys[i]);
        if (is) g.leaf(0, shared->x.v); else g.leaf(1, 1);
        m[n] = i; k[n++] = is;
    }
    g.eobj();
    both<M>(v, g, [&](auto& r) { HOLDS(r.size() == n); for (std::uint64_t i = 0; i < n; ++i) p[i] = r[keys[m[i]]]; same_pattern(p, k, n); HOLDS(r[keys[first]]->x.v == shared->x.v); });
}
MODES(map)
struct Node { SP a, b; std::vector<SP> list; std::optional<Leaf> own; std::unique_ptr<Leaf> uni; SP last; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & NAMED_MEMBER_VARIABLE("b~/", b) & MEMBER_VARIABLE(list) & MEMBER_VARIABLE(own) & MEMBER_VARIABLE(uni) & MEMBER_VARIABLE(last); } };
template<int M> static void object()
{
    SP o[2]; std::uint64_t x[2]; for (int i = 0; i < 2; ++i) { x[i] = good_value("x"); o[i] = std::make_shared<Leaf>(); o[i]->x.v = x[i]; }
    std::uint64_t k[5]; k[0] = 0; std::uint64_t w = vf_choice("which", 5); static const char* const combos[] = { "0000", "0101", "1001", "1110", "0011", "1010" }; for (int i = 1; i < 5; ++i) k[i] = std::uint64_t(combos[w][i - 1] - '0');
    Node n; n.a = o[k[0]]; n.b = o[k[1]]; n.list.push_back(o[k[2]]); n.list.push_back(o[k[3]]); n.uni = std::make_unique<Leaf>(); n.last = o[k[4]];
    Graph g; g.obj().key("a"); g.leaf(k[0], x[k[0]]); g.key("b~/"); g.leaf(k[1], x[k[1]]); g.key("list").arr(); g.leaf(k[2], x[k[2]]); g.leaf(k[3], x[k[3]]); g.end().key("uni").obj().key("x").num(1).eobj().key("last"); g.leaf(k[4], x[k[4]]); g.eobj();
    both<M>(n, g, [&](Node& r) { HOLDS(r.list.size() == 2); SP p[5] = { r.a, r.b, r.list[0], r.list[1], r.last }; same_pattern(p, k, 5); for (int i = 0; i < 5; ++i) HOLDS(p[i]->x.v == x[k[i]]); });
}
MODES(object)
struct Tree { Item x{ 2 }; std::vector<std::shared_ptr<Tree>> sub; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(x) & MEMBER_VARIABLE(sub); } };
template<int M, std::uint64_t shape> static void tree()           // shared objects inside shared objects
{
    using P = std::shared_ptr<Tree>; P root = std::make_shared<Tree>(), mid = std::make_shared<Tree>(), leaf = std::make_shared<Tree>();
    root->x.v = good_value("r"); mid->x.v = good_value("m"); leaf->x.v = good_value("l");
    Graph g;
    auto put_leaf = [&] { if (g.share(2)) g.obj().key("x").num(leaf->x.v).key("sub").arr().end().eobj(); };
    auto put_mid = [&] { if (g.share(1)) { g.obj().key("x").num(mid->x.v).key("sub").arr(); put_leaf(); if (shape & 1) put_leaf(); g.end().eobj(); } };
    mid->sub.push_back(leaf); if (shape & 1) mid->sub.push_back(leaf);
    if (shape & 2) root->sub.push_back(leaf);
    root->sub.push_back(mid); root->sub.push_back(mid); root->sub.push_back(leaf);
    g.obj().key("x").num(root->x.v).key("sub").arr(); if (shape & 2) put_leaf(); put_mid(); put_mid(); put_leaf(); g.end().eobj();
    both<M>(root, g, [&](P& r) {
        std::uint64_t b = shape >> 1; HOLDS(r && r->x.v == root->x.v && r->sub.size() == 3 + b); P p[6]; std::uint64_t k[6], c = 0;
        if (b) { p[c] = r->sub[0]; k[c++] = 2; }
        p[c] = r->sub[b]; k[c++] = 1; p[c] = r->sub[b + 1]; k[c++] = 1; p[c] = r->sub[b + 2]; k[c++] = 2;
        HOLDS(p[b]->sub.size() == 1 + (shape & 1)); p[c] = p[b]->sub[0]; k[c++] = 2; if (shape & 1) { p[c] = p[b]->sub[1]; k[c++] = 2; }
        same_pattern(p, k, c); HOLDS(p[b]->x.v == mid->x.v && p[c - 1]->x.v == leaf->x.v && p[c - 1]->sub.empty()); });
}
VF_HARNESS h_tree0_write() { tree<WRITE, 0>(); }
VF_HARNESS h_tree0_read() { tree<READ, 0>(); }
VF_HARNESS h_tree0_back() { tree<BACK, 0>(); }
VF_HARNESS h_tree1_write() { tree<WRITE, 1>(); }
VF_HARNESS h_tree1_read() { tree<READ, 1>(); }
VF_HARNESS h_tree1_back() { tree<BACK, 1>(); }
VF_HARNESS h_tree2_write() { tree<WRITE, 2>(); }
VF_HARNESS h_tree2_read() { tree<READ, 2>(); }
VF_HARNESS h_tree2_back() { tree<BACK, 2>(); }
VF_HARNESS h_tree3_write() { tree<WRITE, 3>(); }
VF_HARNESS h_tree3_read() { tree<READ, 3>(); }
VF_HARNESS h_tree3_back() { tree<BACK, 3>(); }
using Mixed = std::tuple<SP, std::map<std::string, std::vector<SP>>, std::pair<SP, SP>, std::array<SP, 2>>;
template<int M> static void mixed()
{
    SP o[2]; std::uint64_t x[2]; for (int i = 0; i < 2; ++i) { x[i] = good_value("x"); o[i] = std::make_shared<Leaf>(); o[i]->x.v = x[i]; }
    std::uint64_t k[6]; k[0] = 0; std::uint64_t w = vf_choice("which", 4); static const char* const combos[] = { "00000", "10101", "11011", "01100", "11001" }; for (int i = 1; i < 6; ++i) k[i] = std::uint64_t(combos[w][i - 1] - '0');
    Mixed v(o[k[0]], {}, std::pair<SP, SP>(o[k[2]], o[k[3]]), std::array<SP, 2>{ o[k[4]], o[k[5]] }); std::get<1>(v)["m/"].push_back(o[k[1]]);
    Graph g; g.arr(); g.leaf(k[0], x[k[0]]); g.obj().key("m/").arr(); g.leaf(k[1], x[k[1]]); g.end().eobj(); g.arr(); g.leaf(k[2], x[k[2]]); g.leaf(k[3], x[k[3]]); g.end().arr(); g.leaf(k[4], x[k[4]]); g.leaf(k[5], x[k[5]]); g.end().end();
    both<M>(v, g, [&](Mixed& r) { HOLDS(std::get<1>(r).size() == 1 && std::get<1>(r)["m/"].size() == 1); SP p[6] = { std::get<0>(r), std::get<1>(r)["m/"][0], std::get<2>(r).first, std::get<2>(r).second, std::get<3>(r)[0], std::get<3>(r)[1] }; same_pattern(p, k, 6); for (int i = 0; i < 6; ++i) HOLDS(p[i]->x.v == x[k[i]]); });
}
MODES(mixed)
// an object and its first member lie at the same address and are two objects all the same
struct Whole { Leaf part; Item tail{ 3 }; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(part) & MEMBER_VARIABLE(tail); } };
template<int M> static void part()
{
    auto w = std::make_shared<Whole>(); w->part.x.v = good_value("x"); SP in(w, &w->part);
    using T = std::tuple<std::shared_ptr<Whole>, SP, std::shared_ptr<Whole>, SP>; T v(w, in, w, in); Graph g;
    g.arr(); g.share(0); g.obj().key("part").obj().key("x").num(w->part.x.v).eobj().key("tail").num(3).eobj(); g.leaf(1, w->part.x.v); g.share(0); g.leaf(1, w->part.x.v); g.end();
    both<M>(v, g, [&](T& r) { HOLDS(std::get<0>(r)->part.x.v == w->part.x.v && std::get<1>(r)->x.v == w->part.x.v); vf_assert(std::get<0>(r).get() == std::get<2>(r).get() && std::get<1>(r).get() == std::get<3>(r).get() && static_cast<void*>(std::get<0>(r).get()) != static_cast<void*>(std::get<1>(r).get()), "[C09] an object and its first member are not taken for one"); });
}
MODES(part)
// references that name no object read before
VF_HARNESS h_unresolved()
{
    static const char* const refs[] = { "/1", "/2", "/0/x", "/9", "", "/", "0", "/00", "/-", "/0/", "//0", "#/0", "~" };
    Expect e; e.arr().obj().key("x").num(4).eobj().obj().key("$ref").str(refs[vf_choice("ref", 12)]).eobj().obj().key("x").num(5).eobj().end();
    bool frag = std::string_view(e.t[6].text, e.t[6].len) == "#/0"; (void)frag;
    vf_assume(std::string_view(e.t[7].text, e.t[7].len) != "#/0");      // another notation for the same place
    check_read<std::vector<SP>, DOM>(e, false, [](auto&) {});
}
VF_HARNESS h_other_type()      // the place was read as something other than a shared object of that type
{
    Expect e; e.arr().obj().key("x").num(4).eobj().obj().key("$ref").str("/0").eobj().end();
    switch (vf_choice("kind", 2)) {
        case 0: check_read<std::tuple<Leaf, SP>, DOM>(e, false, [](auto&) {}); break;
        case 1: check_read<std::tuple<std::shared_ptr<std::map<std::string, Item>>, SP>, DOM>(e, false, [](auto&) {}); break;
        default: check_read<std::tuple<std::unique_ptr<Leaf>, SP>, DOM>(e, false, [](auto&) {}); break;
    }
}
template<typename A, typename B> static void mismatch(const Expect& e) { check_read<std::tuple<std::shared_ptr<A>, std::shared_ptr<B>>, DOM>(e, false, [](auto&) {}); }
VF_HARNESS h_other_scalar()
{
    Expect e; e.arr().num(7).obj().key("$ref").str("/0").eobj().end();
    switch (vf_choice("kind", 5)) {
        case 0: mismatch<short, long long>(e); break;
        case 1: mismatch<int, unsigned>(e); break;
        case 2: mismatch<long long, unsigned long long>(e); break;
        case 3: mismatch<double, float>(e); break;
        case 4: mismatch<int, Item>(e); break;
        default: mismatch<Item, std::string>(e); break;
    }
}
struct Leaf2 { Item x{ 1 }; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(x); } };
struct Leaf3 : Leaf { template<typename A> constexpr auto persist(A& ar) { return Leaf::persist(ar); } };
VF_HARNESS h_other_class()
{
    Expect e; e.arr().obj().key("x").num(4).eobj().obj().key("$ref").str("/0").eobj().end();
    switch (vf_choice("kind", 3)) {
        case 0: mismatch<Leaf, Leaf2>(e); break;
        case 1: mismatch<Leaf2, Leaf>(e); break;
        case 2: mismatch<std::map<std::string, Item>, std::map<std::string, int>>(e); break;
        default: mismatch<Leaf, std::map<std::string, Item>>(e); break;
    }
    Expect f; f.arr().arr().num(1).end().obj().key("$ref").str("/0").eobj().end();
    switch (vf_choice("kind2", 1)) { case 0: mismatch<std::vector<Item>, std::vector<int>>(f); break; default: mismatch<std::vector<int>, std::set<int>>(f); break; }
}
VF_HARNESS h_chained()        // the place of a reference is not the place of an object
{
    Expect e; e.arr().obj().key("x").num(4).eobj().obj().key("$ref").str("/0").eobj().obj().key("$ref").str("/1").eobj().end();
    check_read<std::vector<SP>, DOM>(e, false, [](auto&) {});
}
VF_HARNESS h_not_text()        // a reference that is not a text
{
    Expect e; e.arr().obj().key("x").num(4).eobj().obj().key("$ref"); switch (vf_choice("kind", 2)) { case 0: e.num(0); break; case 1: e.null(); break; default: e.arr().end(); break; } e.eobj().end();
    check_read<std::vector<SP>, DOM>(e, false, [](auto&) {});
}
VF_HARNESS h_again()           // nothing is remembered from one call to the next
{
    SP a = std::make_shared<Leaf>(); a->x.v = good_value("x"); std::vector<SP> v{ a, a };
    Graph g; g.arr(); g.leaf(0, a->x.v); g.leaf(0, a->x.v); g.end();
    check_write(v, g, true); check_write(v, g, true);
    Expect e; e.arr().obj().key("$ref").str("/0").eobj().end();
    std::vector<SP> r; rapidjson::Document doc; put(doc, g, 0); bool ok = deserialize(doc, r); vf_assert(ok, "[C09] what was written is read back");
    check_read<std::vector<SP>, DOM>(e, false, [](auto&) {});
    vf_reach("end");
}
template<int M> static void set()       // sets are written in the order of the addresses
{
    SP o[2]; std::uint64_t x[2]; for (int i = 0; i < 2; ++i) { x[i] = good_value("x"); o[i] = std::make_shared<Leaf>(); o[i]->x.v = x[i]; }
    using T = std::pair<std::set<SP>, std::vector<SP>>; T v; v.first.insert(o[0]); v.first.insert(o[1]); v.second = { o[1], o[0] };
    std::uint64_t lo = std::less<Leaf*>()(o[0].get(), o[1].get()) ? 0 : 1;
    Graph g; g.arr().arr(); g.leaf(lo, x[lo]); g.leaf(1 - lo, x[1 - lo]); g.end().arr(); g.leaf(1, x[1]); g.leaf(0, x[0]); g.end().end();
    both<M>(v, g, [&](T& r) { HOLDS(r.first.size() == 2 && r.second.size() == 2 && r.second[0]->x.v == x[1] && r.second[1]->x.v == x[0]); vf_assert(r.first.count(r.second[0]) == 1 && r.first.count(r.second[1]) == 1 && r.second[0] != r.second[1], "[C09] the elements of the set are the objects referred to later"); });
}
VF_HARNESS h_set_write() { set<WRITE>(); }
VF_HARNESS h_set_read() { set<READ>(); }
using Alt = std::variant<std::shared_ptr<Whole>, SP, Item>;
VF_HARNESS h_variant()
{
    std::uint64_t x = good_value("x"); SP a = std::make_shared<Leaf>(); a->x.v = x; auto w = std::make_shared<Whole>(); w->part.x.v = x;
    std::vector<Alt> v{ a, w, a, Item{ 3 }, w };
    Graph g; g.arr(); g.leaf(0, x); g.share(1); g.obj().key("part").obj().key("x").num(x).eobj().key("tail").num(3).eobj(); g.leaf(0, x); g.num(3); g.share(1); g.end();
    both<WRITE | BACK>(v, g, [&](std::vector<Alt>& r) { HOLDS(r.size() == 5 && r[0].index() == 1 && r[1].index() == 0 && r[2].index() == 1 && r[4].index() == 0 && std::get<1>(r[0])->x.v == x); vf_assert(std::get<1>(r[0]) == std::get<1>(r[2]) && std::get<0>(r[1]) == std::get<0>(r[4]), "[C09] alternatives share as well"); });
}
struct Kin : Leaf { std::optional<SP> o; SP s; std::unique_ptr<Node> n; template<typename A> constexpr auto persist(A& ar) { return Leaf::persist(ar) & MEMBER_VARIABLE(o) & MEMBER_VARIABLE(s) & MEMBER_VARIABLE_DEFAULT(n); } };
template<int M> static void kin()
{
    SP a = std::make_shared<Leaf>(); a->x.v = good_value("x"); std::uint64_t has = vf_choice("has", 1);
    Kin v; v.x.v = 5; if (has) v.o = a; v.s = a; v.n = std::make_unique<Node>(); v.n->a = v.n->b = v.n->last = a; v.n->uni = std::make_unique<Leaf>();
    Graph g; g.obj().key("x").num(5); if (has) { g.key("o"); g.leaf(0, a->x.v); } g.key("s"); g.leaf(0, a->x.v); g.key("n").obj().key("a"); g.leaf(0, a->x.v); g.key("b~/"); g.leaf(0, a->x.v); g.key("list").arr().end().key("uni").obj().key("x").num(1).eobj().key("last"); g.leaf(0, a->x.v); g.eobj().eobj();
    both<M>(v, g, [&](Kin& r) { HOLDS(r.o.has_value() == bool(has) && r.s && r.n); SP p[5] = { has ? *r.o : r.s, r.s, r.n->a, r.n->b, r.n->last }; std::uint64_t k[5] = { 0, 0, 0, 0, 0 }; same_pattern(p, k, 5); HOLDS(p[4]->x.v == a->x.v); });
}
MODES(kin)
VF_HARNESS h_far()       // positions of two and three digits
{
    std::uint64_t at = vf_choice("at", 1) ? 100 : 11; SP a = std::make_shared<Leaf>(); a->x.v = good_value("x");
    std::vector<std::variant<Item, SP>> v; for (std::uint64_t i = 0; i < at; ++i) v.push_back(Item{ i }); v.push_back(a); v.push_back(a);
    rapidjson::Document doc; bool ok = serialize_to_document(v, doc); vf_assert(ok && doc.IsArray() && doc.Size() == at + 2, "[C09] all elements are written");
    const rapidjson::Value& r = doc[rapidjson::SizeType(at + 1)];
    vf_assert(r.IsObject() && r.MemberCount() == 1, "[C09] the later occurrence is a reference");
    std::string want("/"); decimal(want, at); const rapidjson::Value& t = r.MemberBegin()->value;
    vf_assert(t.IsString() && t.GetStringLength() == want.size() && bytes_equal(want.size(), [&](std::uint64_t j) { return t.GetString()[j] == want[j]; }), "[C09] the reference names the place of the first occurrence");
    std::vector<std::variant<Item, SP>> b; ok = deserialize(doc, b); vf_assert(ok && b.size() == at + 2 && b[at].index() == 1 && b[at + 1].index() == 1, "[C09] what was written is read back");
    if (ok) vf_assert(std::get<1>(b[at]).get() == std::get<1>(b[at + 1]).get(), "[C09] every back-reference shares the one object read at that place");
    vf_reach("end");
}
