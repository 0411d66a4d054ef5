// C06, C07: composite values are read exactly, or refused as a whole
#include "vf_read.hpp"
#include "vf_hash.hpp"
#include <cmath>
VF_HARNESS h_vector()
{
    std::uint64_t n = vf_choice("n", 2), x[3]; bool good = true;
    Expect e; e.arr(); for (std::uint64_t i = 0; i < n; ++i) good = any_item(e, x[i]) && good; e.end();
    check_read_into<std::vector<Item>, BOTH>(e, good, [](auto& v) { v.push_back(Item{ 99 }); }, [&](auto& v) {
        HOLDS(v.size() == n); for (std::uint64_t i = 0; i < n; ++i) HOLDS(v[i].v == x[i]); });
    vf_reach("end");
}
VF_HARNESS h_vector_uint()
{
    std::uint64_t n = vf_choice("n", 2), x[3]; bool good = true;
    Expect e; e.events = true; e.arr(); for (std::uint64_t i = 0; i < n; ++i) { x[i] = vf_u64("x"); bool s = vf_choice("str", 1); if (s) e.str("1"); else e.num(x[i]); good = good && !s && x[i] <= 0xffff; } e.end();
    check_read_into<std::vector<unsigned short>, BOTH>(e, good, [](auto& v) { v.push_back(99); }, [&](auto& v) {
        HOLDS(v.size() == n); for (std::uint64_t i = 0; i < n; ++i) HOLDS(v[i] == x[i]); });
    vf_reach("end");
}
VF_HARNESS h_vector_real()
{
    double a = vf_double("a"), b = vf_double("b"); vf_assume(std::isfinite(a) && std::isfinite(b));
#ifndef VF_IR
    a = std::fmod(std::floor(a), 4096) / 8; b = std::fmod(std::floor(b), 4096) / 8;       // exact in rapidjson's fast text conversion
#endif
    bool bad = vf_choice("bad", 1);
    Expect e; e.arr().real(a); if (bad) e.boolean(true); else e.real(b); e.end();
    check_read_into<std::vector<double>, BOTH>(e, !bad, [](auto& v) { v.push_back(99); }, [&](auto& v) { HOLDS(v.size() == 2 && v[0] == a && v[1] == b); });
    vf_reach("end");
}
VF_HARNESS h_vector_text()
{
    std::uint64_t bad = vf_choice("bad", 3);
    Expect e; e.arr(); if (bad == 1) e.num(1); else e.str("one"); if (bad == 2) e.arr().end(); else e.str(std::string_view("t\0o", 3)); if (bad == 3) e.null(); else e.str(""); e.end();
    check_read_into<std::vector<std::string>, BOTH>(e, bad == 0, [](auto& v) { v.push_back("before"); }, [&](auto& v) { HOLDS(v.size() == 3 && v[0] == "one" && v[1].size() == 3 && v[1][0] == 't' && v[1][1] == '\0' && v[1][2] == 'o' && v[2].empty()); });
    vf_reach("end");
}
VF_HARNESS h_vector_bool()
{
    bool a = vf_bool("a"), b = vf_bool("b"); bool bad = vf_choice("bad", 1);
    Expect e; e.arr().boolean(a); if (bad) e.num(1); else e.boolean(b); e.end();
    check_read<std::vector<bool>, DOM>(e, !bad, [&](auto& v) { HOLDS(v.size() == 2 && v[0] == a && v[1] == b); });
    vf_reach("end");
}
VF_HARNESS h_nested()
{
    std::uint64_t x[3] = { good_value("x"), good_value("y"), good_value("z") }, bad = vf_choice("bad", 3); Expect e;
    e.arr().arr(); item_or_bad(e, 0, bad, x[0]); e.end().arr().end().arr(); item_or_bad(e, 1, bad, x[1]); item_or_bad(e, 2, bad, x[2]); e.end().end();
    check_read<std::vector<std::vector<Item>>, BOTH>(e, bad == 3, [&](auto& v) { HOLDS(v.size() == 3 && v[0].size() == 1 && v[1].empty() && v[2].size() == 2); HOLDS(v[0][0].v == x[0] && v[2][0].v == x[1] && v[2][1].v == x[2]); });
    vf_reach("end");
}
VF_HARNESS h_array()
{
    std::uint64_t n = vf_choice("n", 3), x[3]; bool good = true;
    Expect e; e.arr(); for (std::uint64_t i = 0; i < n; ++i) good = any_item2(e, x[i]) && good; e.end();
    check_read<std::array<Item, 2>, BOTH>(e, good && n == 2, [&](auto& v) { HOLDS(v[0].v == x[0] && v[1].v == x[1]); });
    vf_reach("end");
}
VF_HARNESS h_pair()
{
    std::uint64_t n = vf_choice("n", 3), x = 0; bool good = true;
    Expect e; e.arr();
    if (n > 0) good = any_item(e, x);
    if (n > 1) { if (vf_choice("bad", 1)) { e.num(5); good = false; } else e.str("text"); }
    if (n > 2) e.num(3);
    e.end();
    check_read<std::pair<Item, std::string>, BOTH>(e, good && n == 2, [&](auto& v) { HOLDS(v.first.v == x && v.second == "text"); });
    vf_reach("end");
}
VF_HARNESS h_tuple()
{
    std::uint64_t n = vf_choice("n", 4), x = 0, y = 0; bool good = true;
    Expect e; e.arr();
    if (n > 0) good = any_item2(e, x) && good;
    if (n > 1) e.str("s");
    if (n > 2) good = any_item2(e, y) && good;
    if (n > 3) e.num(3);
    e.end();
    check_read<std::tuple<Item, std::string, Item>, BOTH>(e, good && n == 3, [&](auto& v) { HOLDS(std::get<0>(v).v == x && std::get<1>(v) == "s" && std::get<2>(v).v == y); });
    check_read<std::tuple<Item>, BOTH>(e, good && n == 1, [&](auto& v) { HOLDS(std::get<0>(v).v == x); });
    vf_reach("end");
}
VF_HARNESS h_set()
{
    std::uint64_t x[2]; Expect e; e.arr(); bool g1 = any_item(e, x[0]), g2 = any_item(e, x[1]); e.end();
    check_read_into<std::set<Item>, BOTH>(e, g1 && g2, [](auto& v) { v.insert(Item{ 99 }); }, [&](auto& v) {
        std::uint64_t k = 0; bool s0 = false, s1 = false, extra = false;
        for (const Item& i : v) { ++k; s0 = s0 | (i.v == x[0]); s1 = s1 | (i.v == x[1]); extra = extra | ((i.v != x[0]) & (i.v != x[1])); }
        HOLDS(s0 && s1 && !extra && k == (x[0] == x[1] ? 1u : 2u)); });
    vf_reach("end");
}
VF_HARNESS h_set_text()
{
    std::uint64_t bad = vf_choice("bad", 2);
    Expect e; e.arr().str("b"); if (bad == 1) e.num(1); else e.str("a"); if (bad == 2) e.null(); else e.str("b"); e.end();
    check_read_into<std::set<std::string>, BOTH>(e, bad == 0, [](auto& v) { v.insert("before"); }, [&](auto& v) { HOLDS(v.size() == 2 && v.count("a") == 1 && v.count("b") == 1); });
    vf_reach("end");
}
VF_HARNESS h_set_uint()
{
    std::uint64_t a = vf_u64("a"), b = vf_u64("b"); bool bad = vf_choice("bad", 1);
    Expect e; e.events = true; e.arr().num(a); if (bad) e.str("1"); else e.num(b); e.end();
    check_read_into<std::set<unsigned char>, BOTH>(e, !bad && a <= 255 && b <= 255, [](auto& v) { v.insert(99); }, [&](auto& v) { HOLDS(v.size() == (a == b ? 1u : 2u) && v.count((unsigned char)a) == 1 && v.count((unsigned char)b) == 1); });
    vf_reach("end");
}
VF_HARNESS h_map()
{
    std::uint64_t x[3] = { good_value("x"), good_value("y"), good_value("z") }, bad = vf_choice("bad", 3); Expect e;
    e.obj().key("k"); item_or_bad(e, 0, bad, x[0]); e.key(""); item_or_bad(e, 1, bad, x[1]); e.key("kk, a longer key on the heap"); item_or_bad(e, 2, bad, x[2]); e.eobj();
    check_read_into<std::map<std::string, Item>, BOTH>(e, bad == 3, [](auto& v) { v["before"] = Item{ 1 }; }, [&](auto& v) {
        HOLDS(v.size() == 3 && v.count("k") == 1 && v.count("") == 1 && v.count("kk, a longer key on the heap") == 1);
        HOLDS(v["k"].v == x[0] && v[""].v == x[1] && v["kk, a longer key on the heap"].v == x[2]); });
    vf_reach("end");
}
VF_HARNESS h_unordered()
{
    std::uint64_t x[2]; Expect e; e.obj().key("first"); bool g = any_item(e, x[0]); e.key("second"); g = any_item2(e, x[1]) && g; e.eobj();
    check_read_into<std::unordered_map<std::string, Item>, BOTH>(e, g, [](auto& v) { v.emplace("before", Item{ 1 }); }, [&](auto& v) {
        HOLDS(v.size() == 2 && v.count("first") == 1 && v.count("second") == 1); HOLDS(v["first"].v == x[0] && v["second"].v == x[1]); });
    vf_reach("end");
}
VF_HARNESS h_pointer()
{
    std::uint64_t x; Expect e; bool g = any_item(e, x);
    check_read_into<std::unique_ptr<Item>, BOTH>(e, g, [](auto& v) { v = std::make_unique<Item>(Item{ 1 }); }, [&](auto& v) { HOLDS(v && v->v == x); });
    check_read<std::shared_ptr<Item>, BOTH>(e, g, [&](auto& v) { HOLDS(v && v->v == x); });
    Expect f; f.arr(); std::uint64_t y; bool h = any_item2(f, y); f.end();
    check_read<std::unique_ptr<std::vector<Item>>, BOTH>(f, h, [&](auto& v) { HOLDS(v && v->size() == 1 && (*v)[0].v == y); });
    vf_reach("end");
}
VF_HARNESS h_optional()
{
    std::uint64_t x[2]; Expect e; e.arr(); bool g = any_item(e, x[0]); g = any_item2(e, x[1]) && g; e.end();
    check_read<std::pair<Item, std::optional<Item>>, SAX>(e, g, [&](auto& v) { HOLDS(v.first.v == x[0] && v.second && v.second->v == x[1]); });
    vf_reach("end");
}
template<typename T> static void shape(bool arr, bool obj)           // the wrong kind of JSON value altogether
{
    std::uint64_t k = vf_choice("shape", 7); Expect e;
    switch (k) {
        case 0: e.null(); break; case 1: e.boolean(vf_bool("b")); break; case 2: e.num(vf_u64("n")); break;
        case 3: { double d = vf_double("d"); vf_assume(std::isfinite(d)); e.real(d); break; } case 4: e.str("text"); break; case 5: e.arr().end(); break; case 6: e.obj().eobj(); break;
        default: { std::uint64_t m = vf_u64("m"); vf_assume(m >= 1 && m <= (std::uint64_t(1) << 63)); e.add(TK_NEG, m); break; }
    }
    check_read<T, BOTH>(e, (k == 5 && arr) || (k == 6 && obj), [](auto&) {});
}
struct Empty2 { std::optional<Item> a, b; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b); } };
VF_HARNESS h_shape_array() { shape<std::vector<Item>>(true, false); shape<std::array<Item, 2>>(false, false); vf_reach("end"); }
VF_HARNESS h_shape_text() { shape<std::vector<std::string>>(true, false); shape<std::set<int>>(true, false); vf_reach("end"); }
VF_HARNESS h_shape_object() { shape<std::map<std::string, Item>>(false, true); shape<Empty2>(false, true); vf_reach("end"); }
VF_HARNESS h_shape_tuple() { shape<std::pair<Item, Item>>(false, false); shape<std::set<Item>>(true, false); vf_reach("end"); }
