// C05-C08: longer shapes (past every small-size special case), and dictionaries with arbitrary keys
#include "vf_read.hpp"
#include "vf_hash.hpp"
#define LONG 20
// element `bad` (if any) cannot be written or read, the others are arbitrary
struct Row { std::uint64_t x[LONG], bad; Row(std::uint64_t n) { bad = vf_choice("bad", 3); bad = bad == 0 ? n : bad == 1 ? 0 : bad == 2 ? n / 2 : n - 1; for (std::uint64_t i = 0; i < n; ++i) x[i] = good_value("x"); } };
static Item make(const Row& r, std::uint64_t i) { return Item{ i == r.bad ? ~std::uint64_t(0) : r.x[i] }; }
static Expect numbers(const Row& r, std::uint64_t n) { Expect e; e.arr(); for (std::uint64_t i = 0; i < n; ++i) e.num(r.x[i]); e.end(); return e; }
static Expect items(const Row& r, std::uint64_t n) { Expect e; e.arr(); for (std::uint64_t i = 0; i < n; ++i) item_or_bad(e, i, r.bad, r.x[i]); e.end(); return e; }
VF_HARNESS h_long_vector()
{
    Row r(LONG); std::vector<Item> v; for (std::uint64_t i = 0; i < LONG; ++i) v.push_back(make(r, i));
    check_write(v, numbers(r, LONG), r.bad == LONG);
    check_read<std::vector<Item>, BOTH>(items(r, LONG), r.bad == LONG, [&](auto& w) { HOLDS(w.size() == LONG); for (std::uint64_t i = 0; i < LONG; ++i) HOLDS(w[i].v == r.x[i]); });
    vf_reach("end");
}
VF_HARNESS h_long_array()
{
    Row r(12); std::array<Item, 12> v; for (std::uint64_t i = 0; i < 12; ++i) v[i] = make(r, i);
    check_write(v, numbers(r, 12), r.bad == 12);
    check_read<std::array<Item, 12>, BOTH>(items(r, 12), r.bad == 12, [&](auto& w) { for (std::uint64_t i = 0; i < 12; ++i) HOLDS(w[i].v == r.x[i]); });
    vf_reach("end");
}
using Tup = std::tuple<Item, Item, Item, std::string, Item, Item, Item, Item, Item>;
VF_HARNESS h_long_tuple()
{
    Row r(9); r.x[3] = 0; if (r.bad == 3) r.bad = 9;
    Tup v(make(r, 0), make(r, 1), make(r, 2), "text", make(r, 4), make(r, 5), make(r, 6), make(r, 7), make(r, 8));
    Expect e, f; e.arr(); f.arr(); for (std::uint64_t i = 0; i < 9; ++i) { if (i == 3) { e.str("text"); f.str("text"); } else { e.num(r.x[i]); item_or_bad(f, i, r.bad, r.x[i]); } } e.end(); f.end();
    check_write(v, e, r.bad == 9);
    check_read<Tup, BOTH>(f, r.bad == 9, [&](Tup& w) { HOLDS(std::get<0>(w).v == r.x[0] && std::get<1>(w).v == r.x[1] && std::get<2>(w).v == r.x[2] && std::get<3>(w) == "text" && std::get<4>(w).v == r.x[4]);
        HOLDS(std::get<5>(w).v == r.x[5] && std::get<6>(w).v == r.x[6] && std::get<7>(w).v == r.x[7] && std::get<8>(w).v == r.x[8]); });
    vf_reach("end");
}
static const char* const names[] = { "m00", "m01", "m02", "m03", "m04", "m05", "m06", "m07", "m08", "m09", "m10", "m11", "m12", "m13", "m14", "m15", "m16", "m17" };
#define M(n) & MEMBER_VARIABLE(n)
struct Big
{
    Item m00, m01, m02, m03, m04, m05, m06, m07, m08, m09, m10, m11, m12, m13, m14, m15; std::optional<Item> m16; Item m17{ 5 };
    template<typename A> constexpr auto persist(A& ar) { return ar M(m00) M(m01) M(m02) M(m03) M(m04) M(m05) M(m06) M(m07) M(m08) M(m09) M(m10) M(m11) M(m12) M(m13) M(m14) M(m15) M(m16) & MEMBER_VARIABLE_DEFAULT(m17); }
};
static Expect members(const Row& r, bool read, const char* const* n, std::uint64_t m = 18) { Expect e; e.obj(); for (std::uint64_t i = 0; i < m; ++i) { e.key(n[i]); if (read) item_or_bad(e, i, r.bad, r.x[i]); else e.num(r.x[i]); } e.eobj(); return e; }
VF_HARNESS h_long_object()
{
    Row r(18); Big v; v.m16.emplace(); Item* p[18] = { &v.m00, &v.m01, &v.m02, &v.m03, &v.m04, &v.m05, &v.m06, &v.m07, &v.m08, &v.m09, &v.m10, &v.m11, &v.m12, &v.m13, &v.m14, &v.m15, &*v.m16, &v.m17 };
    for (int i = 0; i < 18; ++i) *p[i] = make(r, i);
    check_write(v, members(r, false, names), r.bad == 18);
    check_read<Big, BOTH>(members(r, true, names), r.bad == 18, [&](Big& w) {
        HOLDS(w.m16.has_value());
        const Item* q[18] = { &w.m00, &w.m01, &w.m02, &w.m03, &w.m04, &w.m05, &w.m06, &w.m07, &w.m08, &w.m09, &w.m10, &w.m11, &w.m12, &w.m13, &w.m14, &w.m15, &*w.m16, &w.m17 };
        for (int i = 0; i < 18; ++i) HOLDS(q[i]->v == r.x[i]); });
    vf_reach("end");
}
VF_HARNESS h_long_map()
{
    enum { N = 6 }; Row r(N); std::map<std::string, Item> v;
    for (int i = 0; i < N; ++i) v[names[i]] = make(r, i);
    check_write(v, members(r, false, names, N), r.bad == N);
    vf_reach("end");
}
VF_HARNESS h_long_map_read()
{
    enum { N = 6 }; Row r(N);
    check_read<std::map<std::string, Item>, BOTH>(members(r, true, names, N), r.bad == N, [&](auto& w) { HOLDS(w.size() == N); int i = 0; for (auto& kv : w) { HOLDS(kv.first == names[i] && kv.second.v == r.x[i]); ++i; } });
    vf_reach("end");
}
VF_HARNESS h_long_dict()
{
    Row r(18); string_dict<Item> d; for (int i = 0; i < 18; ++i) d.emplace_back(names[i], make(r, i));
    check_write(d, members(r, false, names), r.bad == 18);
    vf_reach("end");
}
template<typename V, int modes> static void any_key()
{
    std::string k; vf_any_string("k", &k, 1u << 20); std::uint64_t j = vf_size("j", 1u << 20), x = good_value("x");
    Expect e; e.obj().key(k).num(x).eobj();
    check_read<V, modes>(e, true, [&](V& v) {
        HOLDS(v.size() == 1); const std::string& got = v.begin()->first;
        HOLDS(got.size() == k.size()); if (j < k.size()) HOLDS(got[j] == k[j]);
        HOLDS(v.begin()->second.v == x); });
}
VF_HARNESS h_any_key_dom() { any_key<std::map<std::string, Item>, DOM>(); vf_reach("end"); }
VF_HARNESS h_any_key_sax() { any_key<std::map<std::string, Item>, SAX>(); vf_reach("end"); }
template<int modes> static void any_text()
{
    std::string s; vf_any_string("s", &s, 1u << 20); std::uint64_t j = vf_size("j", 1u << 20);
    Expect e; e.arr().str("first").str(s).end();
    check_read<std::vector<std::string>, modes>(e, true, [&](auto& v) { HOLDS(v.size() == 2 && v[0] == "first" && v[1].size() == s.size()); if (j < s.size()) HOLDS(v[1][j] == s[j]); });
    check_read<std::pair<std::string, std::string>, modes>(e, true, [&](auto& v) { HOLDS(v.first == "first" && v.second.size() == s.size()); if (j < s.size()) HOLDS(v.second[j] == s[j]); });
}
VF_HARNESS h_any_text_dom() { any_text<DOM>(); vf_reach("end"); }
VF_HARNESS h_any_text_sax() { any_text<SAX>(); vf_reach("end"); }
