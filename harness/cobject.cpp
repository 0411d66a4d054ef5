// C06, C07: class objects
#include "vf_read.hpp"
#include <cmath>
struct Full
{
    Item req; std::optional<Item> opt; Item def{ 77 }; std::vector<Item> list;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(req) & MEMBER_VARIABLE(opt) & MEMBER_VARIABLE_DEFAULT(def) & MEMBER_VARIABLE(list); }
};
struct Solo { Item only; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(only); } };
struct Duo { Item first; std::optional<Item> second; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(first) & MEMBER_VARIABLE(second); } };
struct Nest { Solo a; std::vector<Duo> b; std::unique_ptr<Solo> c; std::map<std::string, Solo> d; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d); } };
template<int modes> static void members()         // any subset of the members, one of them possibly unreadable
{
    bool p1 = vf_choice("has_req", 1), p2 = vf_choice("has_opt", 1), p3 = vf_choice("has_def", 1), p4 = vf_choice("has_list", 1);
    std::uint64_t x[4] = { good_value("x0"), good_value("x1"), good_value("x2"), good_value("x3") }, bad = vf_choice("bad", 4);
    Expect e; e.obj();
    if (p1) { e.key("req"); item_or_bad(e, 0, bad, x[0]); }
    if (p2) { e.key("opt"); item_or_bad(e, 1, bad, x[1]); }
    if (p3) { e.key("def"); item_or_bad(e, 2, bad, x[2]); }
    if (p4) { e.key("list").arr(); item_or_bad(e, 3, bad, x[3]); e.end(); }
    e.eobj();
    bool good = !((p1 && bad == 0) || (p2 && bad == 1) || (p3 && bad == 2) || (p4 && bad == 3));
    if (modes == DOM) good = good && p1 && p4;
    check_read_into<Full, modes>(e, good, [](Full& v) { v.opt = Item{ 5 }; v.list.push_back(Item{ 6 }); }, [&](Full& v) {
        if (p1) HOLDS(v.req.v == x[0]);
        HOLDS(v.opt.has_value() == p2); if (p2) HOLDS(v.opt->v == x[1]);
        HOLDS(v.def.v == (p3 ? x[2] : 77));
        if (p4) HOLDS(v.list.size() == 1 && v.list[0].v == x[3]); });
}
VF_HARNESS h_members_dom() { members<DOM>(); vf_reach("end"); }
VF_HARNESS h_members_sax() { members<SAX>(); vf_reach("end"); }
template<int modes> static void order()          // members in any order; the first unreadable one anywhere makes the read fail
{
    static const char* const names[4] = { "req", "opt", "def", "list" };
    static const unsigned char perm[6][4] = { { 0, 1, 2, 3 }, { 3, 2, 1, 0 }, { 1, 3, 0, 2 }, { 2, 0, 3, 1 }, { 0, 2, 1, 3 }, { 3, 0, 1, 2 } };
    std::uint64_t p = vf_choice("perm", 5), bad = vf_choice("bad", 4);
    std::uint64_t a = good_value("a"), b = good_value("b"), c = good_value("c"), d = good_value("d");
    std::uint64_t x[4] = { a, b, c, d };
    Expect e; e.obj();
    for (int i = 0; i < 4; ++i) {
        int m = perm[p][i]; e.key(names[m]);
        if (m == 3) e.arr();
        if (bad == std::uint64_t(i)) e.str("no"); else e.num(x[m]);
        if (m == 3) e.end();
    }
    e.eobj();
    check_read<Full, modes>(e, bad == 4, [&](Full& v) { HOLDS(v.req.v == a && v.opt && v.opt->v == b && v.def.v == c && v.list.size() == 1 && v.list[0].v == d); });
}
VF_HARNESS h_order_dom() { order<DOM>(); vf_reach("end"); }
VF_HARNESS h_order_sax() { order<SAX>(); vf_reach("end"); }
VF_HARNESS h_small()
{
    std::uint64_t x = good_value("x"), y = good_value("y"), bad = vf_choice("bad", 2); Expect e; e.obj().key("only"); item_or_bad(e, 0, bad, x); e.eobj();
    check_read<Solo, BOTH>(e, bad != 0, [&](Solo& v) { HOLDS(v.only.v == x); });
    bool swap = vf_choice("swap", 1), has = vf_choice("has", 1);
    Expect f; f.obj();
    if (has && swap) { f.key("second"); item_or_bad(f, 1, bad, y); }
    f.key("first"); item_or_bad(f, 0, bad, x);
    if (has && !swap) { f.key("second"); item_or_bad(f, 1, bad, y); }
    f.eobj(); bool h = bad != 0 && !(has && bad == 1);
    check_read<Duo, BOTH>(f, h, [&](Duo& v) { HOLDS(v.first.v == x && v.second.has_value() == has); if (has) HOLDS(v.second->v == y); });
    vf_reach("end");
}
VF_HARNESS h_missing()
{
    Expect e; e.obj().eobj();
    check_read<Solo, DOM>(e, false, [](Solo&) {});
    check_read<Duo, DOM>(e, false, [](Duo&) {});
    Expect f; f.obj().key("second").num(1).eobj();
    check_read<Duo, DOM>(f, false, [](Duo&) {});
    Expect g; g.arr().obj().key("first").num(1).eobj().obj().eobj().end();
    check_read<std::vector<Duo>, DOM>(g, false, [](auto&) {});
    vf_reach("end");
}
template<int modes> static void deep()
{
    std::uint64_t x[5], bad = vf_choice("bad", 5); for (int i = 0; i < 5; ++i) x[i] = good_value("x");
    Expect e; e.obj().key("a").obj().key("only"); item_or_bad(e, 0, bad, x[0]); e.eobj().key("b").arr().obj().key("first"); item_or_bad(e, 1, bad, x[1]);
    e.eobj().obj().key("first").num(8).key("second"); item_or_bad(e, 2, bad, x[2]); e.eobj().end().key("c").obj().key("only"); item_or_bad(e, 3, bad, x[3]); e.eobj().key("d").obj().key("m").obj().key("only"); item_or_bad(e, 4, bad, x[4]); e.eobj().eobj().eobj();
    check_read<Nest, modes>(e, bad == 5, [&](Nest& v) {
        HOLDS(v.a.only.v == x[0] && v.b.size() == 2 && v.b[0].first.v == x[1] && !v.b[0].second && v.b[1].first.v == 8 && v.b[1].second && v.b[1].second->v == x[2]);
        HOLDS(v.c && v.c->only.v == x[3] && v.d.size() == 1 && v.d.count("m") == 1 && v.d["m"].only.v == x[4]); });
}
VF_HARNESS h_deep_dom() { deep<DOM>(); vf_reach("end"); }
VF_HARNESS h_deep_sax() { deep<SAX>(); vf_reach("end"); }
// the documented form of inheritance: persist of the derived class continues what persist of the base class returns
struct Kin : Solo { Item own; std::optional<Item> maybe; Item dflt{ 9 }; template<typename A> constexpr auto persist(A& ar) { return this->Solo::persist(ar) & MEMBER_VARIABLE(own) & MEMBER_VARIABLE(maybe) & MEMBER_VARIABLE_DEFAULT(dflt); } };
struct Grandkin : Kin { std::vector<Item> last; template<typename A> constexpr auto persist(A& ar) { return this->Kin::persist(ar) & MEMBER_VARIABLE(last); } };
template<int modes> static void inherited()
{
    std::uint64_t x[5], bad = vf_choice("bad", 5), rev = vf_choice("rev", 1), has = vf_choice("has", 3); for (int i = 0; i < 5; ++i) x[i] = good_value("x");
    bool h2 = has & 1, h3 = has & 2; Expect e; e.obj();
    for (int k = 0; k < 5; ++k) switch (rev ? 4 - k : k) {
        case 0: e.key("only"); item_or_bad(e, 0, bad, x[0]); break;
        case 1: e.key("own"); item_or_bad(e, 1, bad, x[1]); break;
        case 2: if (h2) { e.key("maybe"); item_or_bad(e, 2, bad, x[2]); } break;
        case 3: if (h3) { e.key("dflt"); item_or_bad(e, 3, bad, x[3]); } break;
        default: e.key("last").arr(); item_or_bad(e, 4, bad, x[4]); e.end(); break;
    }
    e.eobj(); bool good = bad == 5 || (bad == 2 && !h2) || (bad == 3 && !h3);
    check_read<Grandkin, modes>(e, good, [&](Grandkin& v) {
        HOLDS(v.only.v == x[0] && v.own.v == x[1] && v.maybe.has_value() == h2 && (!h2 || v.maybe->v == x[2]) && v.dflt.v == (h3 ? x[3] : 9) && v.last.size() == 1 && v.last[0].v == x[4]); });
}
VF_HARNESS h_inherited_dom() { inherited<DOM>(); vf_reach("end"); }
VF_HARNESS h_inherited_sax() { inherited<SAX>(); vf_reach("end"); }
VF_HARNESS h_inherited_missing()
{
    std::uint64_t miss = vf_choice("miss", 3); Expect e; e.arr().obj();
    if (miss != 0) e.key("only").num(1); if (miss != 1) e.key("own").num(2); if (miss != 2) e.key("last").arr().end(); e.eobj().end();
    check_read<std::vector<Grandkin>, DOM>(e, miss == 3, [](auto&) {});
    vf_reach("end");
}
