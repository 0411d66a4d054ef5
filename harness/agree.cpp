// C14: the streaming parser and the DOM reader agree. Both read the same JSON value; no expected outcome is stated.
#include "vf_read.hpp"
#include "vf_hash.hpp"
#include "persistence/enum_utility.hpp"
#include "persistence/datetime.hpp"
#include "persistence/parse_date.hpp"
#include "persistence/deserialize_date.hpp"
#include <boost/describe/enum.hpp>
#include <cmath>
using std::chrono::year_month_day;
enum class Named { one = 1, two = -7, three = 300 };
enum class Plain : short { a = -1, b = 200 };
enum class Described { a = 3, ab, b = -2 };
BOOST_DESCRIBE_ENUM(Described, a, ab, b)
namespace persistence {
    template<> struct enum_traits<Named>
    {
        static constexpr auto converter = make_enum_converter({ make_enum(Named::one, "one"), make_enum(Named::two, "on"), make_enum(Named::three, "onee") });
        static std::string_view to_string(Named v) { return converter.to_string(v); }
        static bool from_string(const std::string_view& s, Named& v) { return converter.from_string(s, v); }
    };
}
struct Solo { Item only; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(only); } };
struct Duo { Item first; std::optional<Item> second; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(first) & MEMBER_VARIABLE(second); } };
struct Many
{
    int count; std::string text; double real; std::vector<int> list; std::optional<Item> opt; Duo duo; std::unique_ptr<Solo> ptr;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(count) & MEMBER_VARIABLE(text) & MEMBER_VARIABLE(real) & MEMBER_VARIABLE(list) & MEMBER_VARIABLE(opt) & MEMBER_VARIABLE(duo) & MEMBER_VARIABLE(ptr); }
};
struct Opt3 { std::optional<Item> a; std::optional<std::string> b; std::optional<std::vector<int>> c; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c); } };
struct Base { int id; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(id); } };
struct Derived : Base { bool flag; Plain p; template<typename A> constexpr auto persist(A& ar) { return Base::persist(ar) & MEMBER_VARIABLE(flag) & MEMBER_VARIABLE(p); } };

// equality, structural
template<typename T> struct Same { static bool eq(const T& a, const T& b) { return a == b; } };
template<typename T> static bool same(const T& a, const T& b) { return Same<T>::eq(a, b); }
template<> struct Same<Item> { static bool eq(const Item& a, const Item& b) { return a.v == b.v; } };
template<> struct Same<double> { static bool eq(double a, double b) { std::uint64_t x, y; __builtin_memcpy(&x, &a, 8); __builtin_memcpy(&y, &b, 8); return x == y; } };
template<> struct Same<float> { static bool eq(float a, float b) { std::uint32_t x, y; __builtin_memcpy(&x, &a, 4); __builtin_memcpy(&y, &b, 4); return x == y; } };
template<> struct Same<std::string> { static bool eq(const std::string& a, const std::string& b) { std::uint64_t j = vf_size("j", std::uint64_t(1) << 30); return a.size() == b.size() && (j >= a.size() || a[j] == b[j]); } };
template<typename T> struct Same<std::vector<T>> { static bool eq(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!same<T>(a[i], b[i])) return false; return true; } };
template<typename T, std::size_t N> struct Same<std::array<T, N>> { static bool eq(const std::array<T, N>& a, const std::array<T, N>& b) { for (std::size_t i = 0; i < N; ++i) if (!same(a[i], b[i])) return false; return true; } };
template<typename T> struct Same<std::optional<T>> { static bool eq(const std::optional<T>& a, const std::optional<T>& b) { return a.has_value() == b.has_value() && (!a || same(*a, *b)); } };
template<typename T> struct Same<std::unique_ptr<T>> { static bool eq(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) { return bool(a) == bool(b) && (!a || same(*a, *b)); } };
template<typename T> struct Same<std::shared_ptr<T>> { static bool eq(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b) { return bool(a) == bool(b) && (!a || same(*a, *b)); } };
template<typename A, typename B> struct Same<std::pair<A, B>> { static bool eq(const std::pair<A, B>& a, const std::pair<A, B>& b) { return same(a.first, b.first) && same(a.second, b.second); } };
template<typename... T> struct Same<std::tuple<T...>> {
    template<std::size_t... I> static bool all(const std::tuple<T...>& a, const std::tuple<T...>& b, std::index_sequence<I...>) { return (... && same(std::get<I>(a), std::get<I>(b))); }
    static bool eq(const std::tuple<T...>& a, const std::tuple<T...>& b) { return all(a, b, std::index_sequence_for<T...>()); }
};
template<typename C> static bool in_order(const C& a, const C& b) { if (a.size() != b.size()) return false; auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) if (!same(*i, *j)) return false; return true; }
template<typename T> struct Same<std::set<T>> { static bool eq(const std::set<T>& a, const std::set<T>& b) { return in_order(a, b); } };
template<typename T> struct Same<std::map<std::string, T>> { static bool eq(const std::map<std::string, T>& a, const std::map<std::string, T>& b) {
    if (a.size() != b.size()) return false; auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) if (!(i->first == j->first) || !same(i->second, j->second)) return false; return true; } };
template<typename T> struct Same<std::unordered_map<std::string, T>> { static bool eq(const std::unordered_map<std::string, T>& a, const std::unordered_map<std::string, T>& b) {
    if (a.size() != b.size()) return false; for (auto& x : a) { auto it = b.find(x.first); if (it == b.end() || !same(it->second, x.second)) return false; } return true; } };
template<> struct Same<Solo> { static bool eq(const Solo& a, const Solo& b) { return same(a.only, b.only); } };
template<> struct Same<Duo> { static bool eq(const Duo& a, const Duo& b) { return same(a.first, b.first) && same(a.second, b.second); } };
template<> struct Same<Many> { static bool eq(const Many& a, const Many& b) { return a.count == b.count && same(a.text, b.text) && same(a.real, b.real) && same(a.list, b.list) && same(a.opt, b.opt) && same(a.duo, b.duo) && same(a.ptr, b.ptr); } };
template<> struct Same<Opt3> { static bool eq(const Opt3& a, const Opt3& b) { return same(a.a, b.a) && same(a.b, b.b) && same(a.c, b.c); } };
template<> struct Same<Derived> { static bool eq(const Derived& a, const Derived& b) { return a.id == b.id && a.flag == b.flag && a.p == b.p; } };

#define FORTH "[C14] what the streaming parser accepts, the DOM reader accepts"
#define BACK "[C14] what the DOM reader accepts, the streaming parser accepts"
#define EQUAL "[C14] both readers give equal objects"
// back: the text is one of which the DOM reader's acceptance must imply the parser's
template<typename T> static void agree(const Expect& e, bool back = true)
{
    rapidjson::Document doc; put(doc, e, 0);
    T a{}, b{};
    bool dom = deserialize(doc, a);
    Sax s; s.start(b);
    bool sax = feed(e, s) && s.idle();
    vf_assert(!sax || dom, FORTH);
    if (back) vf_assert(!dom || sax, BACK);
    if (dom & sax) { vf_assert(same(a, b), EQUAL); vf_reach("both accept"); } else vf_reach("not both");
#ifndef VF_IR
    {
        std::string text = render(e); T c{}, d{};
        bool dom = deserialize(text, c), sax = parse(text, d);
        vf_assert(!sax || dom, FORTH);
        if (back) vf_assert(!dom || sax, BACK);
        if (dom & sax) vf_assert(same(c, d), EQUAL);
        // texts that are not JSON at all are refused by both
        if (!text.empty()) { text.resize(text.size() - 1); text.reserve(text.size() + 64); T g{}, h{}; vf_assert(deserialize(text, g) == parse(text, h) || !back, "[C14] truncated text"); }
    }
#endif
}
// any JSON value that is not composite, or an empty array or object
static void any_value(Expect& e, std::string& store)
{
    e.events = true;
    switch (vf_choice("kind", 7)) {
        case 0: e.null(); break;
        case 1: e.boolean(vf_bool("b")); break;
        case 2: e.num(vf_u64("n")); break;
        case 3: { std::uint64_t m = vf_u64("m"); vf_assume(m >= 1 && m <= (std::uint64_t(1) << 63)); e.add(TK_NEG, m); break; }
        case 4: { double d = vf_double("d"); vf_assume(std::isfinite(d));
#ifndef VF_IR
            d = std::fmod(std::floor(d), 4096) / 8;
#endif
            e.real(d); break; }
        case 5:
            vf_any_string("s", &store, std::uint64_t(1) << 30);
#ifndef VF_IR
            for (auto& c : store) c = char(c & 127);
#endif
            e.str(store); break;
        case 6: e.arr().end(); break;
        default: e.obj().eobj(); break;
    }
}
template<typename T> static void leaf() { Expect e; std::string s; any_value(e, s); agree<T>(e); vf_reach("end"); }
template<typename T> static void leaf_real()
{
    Expect e; std::string s; any_value(e, s);
    std::uint64_t limit = std::uint64_t(1) << std::numeric_limits<T>::digits;
    agree<T>(e, !((e.t[0].kind == TK_INT) | (e.t[0].kind == TK_NEG)) || e.t[0].value < limit);
    vf_reach("end");
}
VF_HARNESS h_char() { leaf<char>(); }
VF_HARNESS h_schar() { leaf<signed char>(); }
VF_HARNESS h_uchar() { leaf<unsigned char>(); }
VF_HARNESS h_short() { leaf<short>(); }
VF_HARNESS h_ushort() { leaf<unsigned short>(); }
VF_HARNESS h_int() { leaf<int>(); }
VF_HARNESS h_uint() { leaf<unsigned>(); }
VF_HARNESS h_long() { leaf<long>(); }
VF_HARNESS h_ulong() { leaf<unsigned long>(); }
VF_HARNESS h_llong() { leaf<long long>(); }
VF_HARNESS h_ullong() { leaf<unsigned long long>(); }
VF_HARNESS h_bool() { leaf<bool>(); }
VF_HARNESS h_null() { leaf<std::nullptr_t>(); }
VF_HARNESS h_float() { leaf_real<float>(); }
VF_HARNESS h_double() { leaf_real<double>(); }
VF_HARNESS h_string() { leaf<std::string>(); }
VF_HARNESS h_plain() { leaf<Plain>(); }
// texts close to the ones accepted
template<typename T, int N> static void word(const char* const (&words)[N])
{
    std::string s; vf_text_like("text", &s, 1u << 30, words, N);
    Expect e; e.str(s); agree<T>(e); vf_reach("end");
}
static const char* const NAMES[] = { "one", "on", "onee", "a", "ab", "b" };
VF_HARNESS h_named() { word<Named>(NAMES); }
VF_HARNESS h_described() { word<Described>(NAMES); }
VF_HARNESS h_named_other() { leaf<Named>(); }
VF_HARNESS h_described_other() { leaf<Described>(); }
// elements
static bool any_int(Expect& e) { switch (vf_choice("el", 3)) { case 0: e.num(vf_u64("v")); return true; case 1: { std::uint64_t m = vf_u64("m"); vf_assume(m >= 1 && m <= (std::uint64_t(1) << 63)); e.add(TK_NEG, m); return true; } case 2: e.str("1"); return true; default: e.null(); return true; } }
template<typename T> static void ints(std::uint64_t max)
{
    std::uint64_t n = vf_choice("n", max); Expect e; e.events = true; e.arr(); for (std::uint64_t i = 0; i < n; ++i) if (i < 2) any_int(e); else if (vf_choice("kind", 1)) e.num(5); else e.boolean(true); e.end();
    agree<T>(e); vf_reach("end");
}
template<typename T> static void any2(bool free)
{
    std::uint64_t n = vf_choice("n", 2); Expect e; e.events = true; std::string s, s2; e.arr(); if (n > 0) any_value(e, s); if (n > 1) { if (free) any_value(e, s2); else any_int(e); } e.end();
    agree<T>(e); vf_reach("end");
}
VF_HARNESS h_vector_int() { ints<std::vector<int>>(2); }
VF_HARNESS h_vector_short() { ints<std::vector<short>>(2); }
VF_HARNESS h_vector_ushort() { ints<std::vector<unsigned short>>(2); }
VF_HARNESS h_vector_uint() { ints<std::vector<unsigned>>(2); }
VF_HARNESS h_vector_long() { ints<std::vector<long>>(2); }
VF_HARNESS h_vector_ulong() { ints<std::vector<unsigned long>>(2); }
VF_HARNESS h_vector_llong() { ints<std::vector<long long>>(2); }
VF_HARNESS h_vector_ullong() { ints<std::vector<unsigned long long>>(2); }
VF_HARNESS h_vector_uchar() { ints<std::vector<unsigned char>>(2); }
VF_HARNESS h_vector_bool() { any2<std::vector<bool>>(false); }
VF_HARNESS h_vector_string() { any2<std::vector<std::string>>(false); }
VF_HARNESS h_vector_plain() { ints<std::vector<Plain>>(2); }
VF_HARNESS h_vector_item() { ints<std::vector<Item>>(3); }
VF_HARNESS h_array_int() { ints<std::array<int, 2>>(3); }
VF_HARNESS h_array_string() { any2<std::array<std::string, 2>>(true); }
VF_HARNESS h_array_one()
{
    Expect e; std::string s; e.arr(); any_value(e, s); if (vf_choice("more", 1)) e.null(); e.end();
    agree<std::array<double, 1>>(e, !((e.t[1].kind == TK_INT) | (e.t[1].kind == TK_NEG)) || e.t[1].value < (std::uint64_t(1) << 53)); vf_reach("end");
}
template<typename T> static void reals()
{
    Expect e; e.events = true; e.arr(); const std::uint64_t limit = std::uint64_t(1) << std::numeric_limits<typename T::value_type>::digits; bool back = true;
    for (int i = 0; i < 2; ++i) switch (vf_choice("el", 9)) {
        case 0: e.num(0); break; case 1: e.num(limit - 1); break; case 2: e.num(limit * 2 + 1); back = false; break;
        case 3: e.add(TK_NEG, 7); break; case 4: e.add(TK_NEG, limit - 1); break; case 5: e.add(TK_NEG, limit + 1); back = false; break;
        case 6: e.real(i ? 0.1 : -0.0); break; case 7: e.real(1e300); break; case 8: e.null(); break;
        default: e.str("1"); break;
    }
    e.end(); agree<T>(e, back); vf_reach("end");
}
VF_HARNESS h_vector_float() { reals<std::vector<float>>(); }
VF_HARNESS h_vector_double() { reals<std::vector<double>>(); }
VF_HARNESS h_set_float() { reals<std::set<float>>(); }
VF_HARNESS h_set_double() { reals<std::set<double>>(); }
VF_HARNESS h_set_string()
{
    Expect e; e.arr(); const char* w[3] = { "a", "b", "a longer string, which lies on the heap" };
    for (int i = 0; i < 3; ++i) switch (vf_choice("el", 3)) { case 0: e.str(w[0]); break; case 1: e.str(w[1]); break; case 2: e.str(w[2]); break; default: e.num(1); break; }
    e.end(); agree<std::set<std::string>>(e); vf_reach("end");
}
VF_HARNESS h_pair() { any2<std::pair<short, std::string>>(true); }
VF_HARNESS h_tuple() { any2<std::tuple<bool, unsigned>>(true); }
VF_HARNESS h_tuple1() { any2<std::tuple<Item>>(false); }
VF_HARNESS h_set_int() { ints<std::set<int>>(2); }
VF_HARNESS h_set_ushort() { ints<std::set<unsigned short>>(2); }
VF_HARNESS h_set_long() { ints<std::set<long>>(2); }
VF_HARNESS h_set_uchar() { ints<std::set<unsigned char>>(2); }
VF_HARNESS h_set_bool() { any2<std::set<bool>>(false); }
VF_HARNESS h_unique() { leaf<std::unique_ptr<int>>(); }
VF_HARNESS h_shared() { leaf<std::shared_ptr<bool>>(); }

static void el(Expect& e) { switch (vf_choice("el", 2)) { case 0: e.num(good_value("v")); break; case 1: e.str("x"); break; default: e.null(); break; } }
template<typename C> static void mapped()
{
    static const char* const K[4] = { "k", "", "ke", "kk, a longer key on the heap" };
    std::uint64_t i = vf_choice("first", 3), n = vf_choice("n", 2); Expect e; e.obj();
    if (n > 0) { e.key(K[i]); el(e); }
    if (n > 1) { e.key(K[(i + 1 + vf_choice("second", 2)) % 4]); el(e); }
    e.eobj(); agree<C>(e); vf_reach("end");
}
VF_HARNESS h_map() { mapped<std::map<std::string, Item>>(); }
VF_HARNESS h_unordered() { mapped<std::unordered_map<std::string, Item>>(); }
VF_HARNESS h_map_nul()
{
    Expect e; e.obj().key(std::string_view("a\0b", 3)); any_int(e); e.key("a"); el(e); e.eobj(); e.events = true;
    agree<std::map<std::string, long>>(e); agree<std::unordered_map<std::string, long>>(e); vf_reach("end");
}
VF_HARNESS h_solo()
{
    Expect e; e.obj(); switch (vf_choice("key", 4)) { case 0: e.key("only"); break; case 1: e.key("onl"); break; case 2: e.key("Only"); break; case 3: e.key(std::string_view("only\0", 5)); break; default: e.key(""); break; } el(e); e.eobj();
    agree<Solo>(e); agree<std::vector<Solo>>(e); vf_reach("end");
}
VF_HARNESS h_duo()
{
    Expect e; e.obj(); bool swap = vf_choice("swap", 1), has = vf_choice("has", 1);
    if (swap && has) { e.key("second"); el(e); } e.key("first"); el(e); if (!swap && has) { e.key("second"); el(e); } e.eobj();
    agree<Duo>(e); vf_reach("end");
}
VF_HARNESS h_opt3()          // every subset of the members, in either order
{
    Expect e; e.obj(); std::uint64_t in = vf_choice("in", 7), rev = vf_choice("rev", 1), bad = vf_choice("bad", 3);
    for (int k = 0; k < 3; ++k) {
        int i = rev ? 2 - k : k; if (!(in >> i & 1)) continue;
        if (i == 0) { e.key("a"); if (bad == 0) e.null(); else e.num(good_value("v")); }
        if (i == 1) { e.key("b"); if (bad == 1) e.arr().end(); else e.str("text"); }
        if (i == 2) { e.key("c"); e.arr().num(7); if (bad == 2) e.str("7"); e.end(); }
    }
    e.eobj(); agree<Opt3>(e); vf_reach("end");
}
VF_HARNESS h_derived()
{
    Expect e; e.obj(); e.events = true; std::uint64_t bad = vf_choice("bad", 3), rot = vf_choice("rot", 2);
    for (int k = 0; k < 3; ++k) {
        std::uint64_t i = (k + rot) % 3;
        if (i == 0) { e.key("id"); if (bad == 0) e.boolean(true); else e.num(vf_u64("id") & 0x7fffffff); }
        if (i == 1) { e.key("flag"); if (bad == 1) e.num(1); else e.boolean(vf_bool("f")); }
        if (i == 2) { e.key("p"); if (bad == 2) e.str("a"); else e.num(vf_u64("p") & 0xffff); }
    }
    e.eobj(); agree<Derived>(e); vf_reach("end");
}
VF_HARNESS h_many()
{
    Expect e; e.obj(); e.events = true; std::uint64_t bad = vf_choice("bad", 7), opt = vf_choice("opt", 1), rev = vf_choice("rev", 1);
    for (int k = 0; k < 7; ++k) switch (rev ? 6 - k : k) {
        case 0: e.key("count"); if (bad == 0) e.real(1.0); else e.num(vf_u64("n") & 0xffff); break;
        case 1: e.key("text"); if (bad == 1) e.num(1); else e.str(std::string_view("t\0t", 3)); break;
        case 2: e.key("real"); if (bad == 2) e.str("1.5"); else e.real(1.5); break;
        case 3: e.key("list"); e.arr(); e.add(TK_NEG, 4); if (bad == 3) e.boolean(true); e.num(5).end(); break;
        case 4: if (opt) { e.key("opt"); if (bad == 4) e.str(""); else e.num(good_value("o")); } break;
        case 5: e.key("duo").obj().key("first").num(3); if (bad == 5) e.key("second").null(); e.eobj(); break;
        default: e.key("ptr"); if (bad == 6) e.arr().end(); else e.obj().key("only").num(9).eobj(); break;
    }
    e.eobj(); agree<Many>(e); vf_reach("end");
}
VF_HARNESS h_nested()
{
    Expect e; e.arr().arr(); el(e); e.end().arr().end().arr().num(2); if (vf_choice("bad", 1)) e.arr().end(); else el(e); e.end().end();
    agree<std::vector<std::vector<Item>>>(e); agree<std::vector<std::set<Item>>>(e); agree<std::set<std::vector<int>>>(e); vf_reach("end");
}
VF_HARNESS h_nested2()
{
    Expect e; e.obj().key("p").arr().obj().key("first"); el(e); e.eobj().obj().key("second").num(1).key("first"); el(e); e.eobj().end().key("q").arr().end().eobj();
    agree<std::map<std::string, std::vector<Duo>>>(e); agree<std::unordered_map<std::string, std::vector<std::unique_ptr<Duo>>>>(e); vf_reach("end");
}
VF_HARNESS h_tuple_nested()
{
    Expect e; e.arr().arr(); el(e); e.end().obj().key("only"); el(e); e.eobj(); if (vf_choice("third", 1)) e.arr().num(1).str("s").end(); e.end();
    agree<std::tuple<std::vector<Item>, Solo, std::pair<int, std::string>>>(e); agree<std::pair<std::array<Item, 1>, std::shared_ptr<Solo>>>(e); vf_reach("end");
}
// the wrong kind of JSON value altogether
template<typename T> static void shape() { Expect e; std::string s; any_value(e, s); agree<T>(e); }
VF_HARNESS h_shape_list() { shape<std::vector<Item>>(); shape<std::vector<double>>(); vf_reach("end"); }
VF_HARNESS h_shape_fixed() { shape<std::array<Item, 2>>(); shape<std::tuple<Item, std::string>>(); vf_reach("end"); }
VF_HARNESS h_shape_set() { shape<std::set<Item>>(); shape<std::set<std::string>>(); vf_reach("end"); }
VF_HARNESS h_shape_map() { shape<std::map<std::string, Item>>(); shape<Opt3>(); vf_reach("end"); }
VF_HARNESS h_shape_ptr() { shape<std::unique_ptr<Opt3>>(); shape<std::shared_ptr<std::vector<int>>>(); vf_reach("end"); }
// base64 and dates
template<> struct Same<timestamp> { static bool eq(const timestamp& a, const timestamp& b) { return a.time_since_epoch().count() == b.time_since_epoch().count(); } };
static const char* const B64[] = { "AQID", "AQI=", "AQ==", "Zm9vYg==", "", "AQ=A", "A===" };
VF_HARNESS h_bytes()
{
    std::string store; std::string_view v;
#ifdef VF_IR
    v = std::string_view(reinterpret_cast<const char*>(vf_bytes("text", 4)), 4);
#else
    vf_text_like("text", &store, 1u << 30, B64, 7); v = store;
#endif
    Expect e; e.str(v); agree<byte_vector>(e); vf_reach("end");
}
VF_HARNESS h_bytes_words() { Expect e; e.str(B64[vf_choice("w", 6)]); agree<byte_vector>(e); agree<std::vector<byte_vector>>(e); vf_reach("end"); }
VF_HARNESS h_bytes_other() { Expect e; std::string s; any_value(e, s); vf_assume(e.t[0].kind != TK_STRING); agree<byte_vector>(e); agree<timestamp>(e); agree<year_month_day>(e); vf_reach("end"); }
static const char* const DT[] = { "1982-10-23T01:20:40Z", "2262-04-11T23:47:16Z", "2262-04-11T23:47:17Z", "2000-02-29 23:59:59Z", "1677-09-21T00:12:44Z", "2024-02-30T00:00:00Z" };
static const char* const D[] = { "1982-10-23", "2262-04-11", "2262-04-12", "2000-02-29", "1677-09-21", "2024-02-30" };
template<typename T, int len> static void date(const char* const (&words)[6])
{
    std::string store; std::string_view v;
#ifdef VF_IR
    v = std::string_view(reinterpret_cast<const char*>(vf_bytes("text", len)), len);
#else
    vf_text_like("text", &store, 1u << 30, words, 6); v = store;
#endif
    Expect e; e.str(v); agree<T>(e); vf_reach("end");
}
VF_HARNESS h_datetime() { date<timestamp, 20>(DT); }
VF_HARNESS h_date() { date<year_month_day, 10>(D); }
VF_HARNESS h_datetime_length() { std::string s; vf_text_like("text", &s, 1u << 30, DT, 6); vf_assume(s.size() != 20); Expect e; e.str(s); agree<timestamp>(e); vf_reach("end"); }
VF_HARNESS h_date_length() { std::string s; vf_text_like("text", &s, 1u << 30, D, 6); vf_assume(s.size() != 10); Expect e; e.str(s); agree<year_month_day>(e); vf_reach("end"); }
