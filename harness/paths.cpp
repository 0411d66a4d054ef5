// C10: the location carried by an error is the JSON Pointer of the offending value
#include "vf_hash.hpp"
#include "vf_read.hpp"
#include "vf_pointer.hpp"
#include "persistence/enum_utility.hpp"
#include <boost/describe/enum.hpp>
#include <tuple>
enum class Tone { low = 1, mid, high = -5 };
BOOST_DESCRIBE_ENUM(Tone, low, mid, high)
enum class Level { one = 1, two };
namespace persistence {
    template<> struct enum_traits<Level>
    {
        static constexpr auto converter = make_enum_converter({ make_enum(Level::one, "one"), make_enum(Level::two, "two") });
        static std::string_view to_string(Level v) { return converter.to_string(v); }
        static bool from_string(const std::string_view& s, Level& v) { return converter.from_string(s, v); }
    };
}
enum class Plain : short { zero, one };
static bool same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; bool s = true; for (std::size_t i = 0; i < a.size(); ++i) s = s & (a[i] == b[i]); return s; }
// reading `e` must fail; the error names token `at` (or `at2`, where two parts are at fault)
template<typename T> static void check_path(const Expect& e, std::uint64_t at, std::uint64_t at2 = ~std::uint64_t(0))
{
    rapidjson::Document doc; put(doc, e, 0);
    bool thrown = false; std::string got;
    try { T v = deserialize<T>(doc); } catch (const JsonDeserializationError& x) { thrown = true; got = x.path; }
    vf_assert(thrown, "a value that does not fit is reported with a location");
    if (thrown) vf_assert(same(got, pointer_of(e, at)) || (at2 != ~std::uint64_t(0) && same(got, pointer_of(e, at2))), "the location is the JSON Pointer of the offending value");
#ifndef VF_IR
    std::string text = render(e);
    try { T v = deserialize<T>(text); vf_assert(false, "text: a value that does not fit is reported with a location"); } catch (const JsonDeserializationError& x) { vf_assert(same(x.path, got), "text: the same location"); }
#endif
    vf_reach("reported");
}
// --- the text of a path
static Segment named(const char* s, std::uint64_t n) { return Segment(std::string_view(s, n)); }
template<int N> static void path_key()       // every key of N bytes
{
    static_assert(N <= 4);
    char k[N + 1]; const unsigned char* in = vf_bytes("key", N); for (int i = 0; i < N; ++i) k[i] = char(in[i]);
    Segments s; s.push_back(named(k, N)); s.push_back(Segment(std::size_t(7)));
    std::string want("/7/"); escaped(want, k, N);
    vf_assert(same(Path(std::move(s)).str(), want), "every key: one token, '~' and '/' escaped, nothing else changed");
    vf_reach("end");
}
VF_HARNESS h_key1() { path_key<1>(); }
VF_HARNESS h_key2() { path_key<2>(); }
VF_HARNESS h_key4() { path_key<4>(); }
VF_HARNESS h_key_long()
{
    static const char text[] = "a key of some length that does not fit a small string~";
    static const std::uint64_t places[] = { 0, 1, 14, 15, 16, 29, 30, 31, 52, 53 };
    std::uint64_t at = places[vf_choice("at", 9)]; char k[54]; __builtin_memcpy(k, text, 54);
    k[at] = vf_choice("special", 1) ? '~' : '/';
    Segments s; s.push_back(named(k, 54)); std::string want("/"); escaped(want, k, 54);
    vf_assert(same(Path(std::move(s)).str(), want), "long keys are escaped in full");
    vf_reach("end");
}
VF_HARNESS h_index()
{
    std::uint64_t v = vf_u64("v");
    Segments s; s.push_back(named("x", 1)); s.push_back(Segment(std::size_t(v))); s.push_back(named("", 0));
    std::string got = Path(std::move(s)).str();
    // specification: "//" digits "/x"; as many digits as v has, digit i being v / 10^(k-1-i) mod 10
    std::size_t n = got.size();
    bool shape = n >= 5 && n <= 24 && got[0] == '/' && got[1] == '/' && got[n - 2] == '/' && got[n - 1] == 'x';
    vf_assert(shape, "every index is one token between its neighbours");
    if (shape) {
        std::uint64_t p = 1; for (std::size_t i = 5; i < n; ++i) p *= 10;
        vf_assert(n == 5 || v >= p, "every index: no leading zero");
        vf_assert(n == 24 || v < p * 10, "every index: no digit missing");
        bool digits = true;
        for (std::size_t i = 2; i + 2 < n; ++i, p /= 10) digits = digits & (got[i] == char('0' + v / p % 10));
        vf_assert(digits, "every index: plain decimal");
    }
    vf_reach("end");
}
VF_HARNESS h_chain()
{
    std::uint64_t n = vf_choice("depth", 7); Segments s; std::string want;
    static const char* const keys[] = { "a", "", "0", "a/b", "~1", "//", "m~n", "\x01\xff" };
    for (std::uint64_t i = 0; i < n; ++i) { std::uint64_t k = n - 1 - i; if (k & 1) s.push_back(Segment(std::size_t(k * 7))); else s.push_back(Segment(std::string_view(keys[k]))); }
    for (std::uint64_t k = 0; k < n; ++k) { want.push_back('/'); if (k & 1) decimal(want, k * 7); else escaped(want, keys[k], std::string_view(keys[k]).size()); }
    if (n == 0) want.push_back('/');
    vf_assert(same(Path(std::move(s)).str(), want), "one token per level, from the root down");
    vf_reach("end");
}
// --- each container: the offending element at every position
VF_HARNESS h_root() { Expect e; switch (vf_choice("kind", 3)) { case 0: e.str("x"); break; case 1: e.null(); break; case 2: e.arr().end(); break; default: e.obj().eobj(); break; } check_path<Item>(e, 0); }
template<typename T> static void linear(std::uint64_t n)
{
    std::uint64_t bad = vf_choice("bad", n - 1), at = 0; Expect e; e.arr();
    for (std::uint64_t i = 0; i < n; ++i) { if (i == bad) at = e.n; item_or_bad(e, i, bad, 100 + i); }
    e.end(); check_path<T>(e, at);
}
VF_HARNESS h_vector() { linear<std::vector<Item>>(12); }
VF_HARNESS h_set() { linear<std::set<Item>>(12); }
VF_HARNESS h_array() { linear<std::array<Item, 12>>(12); }
VF_HARNESS h_pair() { linear<std::pair<Item, Item>>(2); }
using Twelve = std::tuple<Item, Item, Item, Item, Item, Item, Item, Item, Item, Item, Item, Item>;
VF_HARNESS h_tuple() { linear<Twelve>(12); }
VF_HARNESS h_vector_int() { linear<std::vector<int>>(4); }
VF_HARNESS h_set_int() { linear<std::set<unsigned>>(4); }
VF_HARNESS h_vector_double() { linear<std::vector<double>>(4); }
VF_HARNESS h_vector_bool()
{
    std::uint64_t bad = vf_choice("bad", 3), at = 0; Expect e; e.arr();
    for (std::uint64_t i = 0; i < 4; ++i) { if (i == bad) { at = e.n; e.num(1); } else e.boolean(i & 1); }
    e.end(); check_path<std::vector<bool>>(e, at);
}
VF_HARNESS h_vector_text()
{
    std::uint64_t bad = vf_choice("bad", 3), at = 0; Expect e; e.arr();
    for (std::uint64_t i = 0; i < 4; ++i) { if (i == bad) { at = e.n; e.num(1); } else e.str(i & 1 ? "b" : "a"); }
    e.end(); if (vf_choice("set", 1)) check_path<std::set<std::string>>(e, at); else check_path<std::vector<std::string>>(e, at);
}
VF_HARNESS h_hundred()
{
    static const std::uint64_t places[] = { 9, 10, 99, 100, 101, 0 };
    std::uint64_t bad = places[vf_choice("place", 5)];
    rapidjson::Document doc; doc.SetArray();
    for (std::uint64_t i = 0; i < 102; ++i) { rapidjson::Value v; if (i != bad) v.SetUint64(i); doc.PushBack(v, doc.GetAllocator()); }
    std::string got, want("/"); decimal(want, bad);
    try { auto v = deserialize<std::vector<Item>>(doc); } catch (const JsonDeserializationError& x) { got = x.path; }
    vf_assert(same(got, want), "positions of three digits");
    vf_reach("end");
}
VF_HARNESS h_size()       // an array of the wrong length: the array itself
{
    Expect e; e.arr(); e.arr(); std::uint64_t n = vf_choice("n", 3); for (std::uint64_t i = 0; i < n; ++i) e.num(i); e.end().end();
    vf_assume(n != 2);
    switch (vf_choice("kind", 2)) { case 0: check_path<std::vector<std::pair<Item, Item>>>(e, 1); break; case 1: check_path<std::vector<std::array<Item, 2>>>(e, 1); break; default: check_path<std::vector<std::tuple<Item, int>>>(e, 1); break; }
}
VF_HARNESS h_map()
{
    static const char* const keys[] = { "a/b", "m~n", "", "0", "~~//", "k" };
    std::uint64_t bad = vf_choice("bad", 5), at = 0; Expect e; e.obj();
    for (std::uint64_t i = 0; i < 6; ++i) { e.key(keys[i]); if (i == bad) at = e.n; item_or_bad(e, i, bad, 100 + i); }
    e.eobj();
    switch (vf_choice("kind", 1)) { case 0: check_path<std::map<std::string, Item>>(e, at); break; default: check_path<std::unordered_map<std::string, Item>>(e, at); break; }
}
VF_HARNESS h_map_anykey()
{
    char k[3]; const unsigned char* in = vf_bytes("key", 3); for (int i = 0; i < 3; ++i) k[i] = char(in[i]);
    Expect e; e.obj().key(std::string_view(k, 3)).null().eobj();
    rapidjson::Document doc; put(doc, e, 0); std::string got, want("/"); escaped(want, k, 3);
    try { auto v = deserialize<std::map<std::string, Item>>(doc); } catch (const JsonDeserializationError& x) { got = x.path; }
    vf_assert(same(got, want), "every map key appears in full, escaped");
    vf_reach("end");
}
// --- objects
struct Inner { Item only{ 7 }; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(only); } };
struct Base { Item base{ 1 }; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(base); } };
struct Outer : Base
{
    Item req{ 1 }; std::optional<Item> opt; Item def{ 2 }; Item odd{ 3 }; std::vector<Item> list; Inner in; std::unique_ptr<Inner> up; std::shared_ptr<Inner> sp; std::map<std::string, Inner> by;
    template<typename A> constexpr auto persist(A& ar) { return Base::persist(ar) & MEMBER_VARIABLE(req) & MEMBER_VARIABLE(opt) & MEMBER_VARIABLE_DEFAULT(def) & NAMED_MEMBER_VARIABLE("a~/b", odd) & MEMBER_VARIABLE(list) & MEMBER_VARIABLE(in) & MEMBER_VARIABLE(up) & MEMBER_VARIABLE(sp) & MEMBER_VARIABLE(by); }
};
VF_HARNESS h_object()
{
    std::uint64_t bad = vf_choice("bad", 9), at = 0, i = 0; Expect e;
    auto part = [&](std::uint64_t v) { if (i == bad) at = e.n; item_or_bad(e, i, bad, v); ++i; };
    e.obj().key("def"); part(1); e.key("base"); part(2); e.key("req"); part(3); e.key("opt"); part(4); e.key("a~/b"); part(5);
    e.key("list").arr(); e.num(1).num(2); part(6); e.end(); e.key("in").obj().key("only"); part(7); e.eobj(); e.key("up").obj().key("only"); part(8); e.eobj(); e.key("sp").obj().key("only"); part(9); e.eobj();
    e.key("by").obj().key("x/y").obj().key("only"); part(10); e.eobj().eobj().eobj();
    check_path<Outer>(e, at);
}
VF_HARNESS h_missing()      // a missing member: the object that lacks it
{
    std::uint64_t miss = vf_choice("missing", 4), at = 0; Expect e;
    e.arr().obj().eobj().obj();
    (void)0;
    Expect f; f.arr(); 
    f.obj().key("base").num(1).key("a~/b").num(2).key("list").arr().end();
    if (miss != 0) f.key("req").num(3);
    f.key("in"); if (miss == 1) at = f.n; f.obj(); if (miss != 1) f.key("only").num(4); f.eobj();
    f.key("up"); if (miss == 2) at = f.n; f.obj(); if (miss != 2) f.key("only").num(4); f.eobj();
    f.key("sp"); if (miss == 3) at = f.n; f.obj(); if (miss != 3) f.key("only").num(4); f.eobj();
    f.key("by").obj().key("~"); if (miss == 4) at = f.n; f.obj(); if (miss != 4) f.key("only").num(4); f.eobj().eobj();
    f.eobj().end(); if (miss == 0) at = 1;
    check_path<std::vector<Outer>>(f, at);
}
VF_HARNESS h_two()          // two parts at fault: one of them
{
    std::uint64_t a = vf_choice("a", 3), b = vf_choice("b", 3), at = 0, at2 = 0; vf_assume(a < b); Expect e; e.arr();
    for (std::uint64_t i = 0; i < 4; ++i) { e.obj().key("only"); if (i == a) at = e.n; if (i == b) at2 = e.n; if (i == a || i == b) e.null(); else e.num(i); e.eobj(); }
    e.end(); check_path<std::vector<Inner>>(e, at, at2);
}
// after a failure inside one part that is not the failure reported (an alternative of a variant), the location is still that of the later part
using Either = std::variant<std::vector<Inner>, std::map<std::string, Item>, std::string>;
struct Holder { Either v; Item w{ 0 }; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(w); } };
VF_HARNESS h_variant_member()
{
    Expect e; std::uint64_t at = 0; e.arr().obj().key("v"); 
    switch (vf_choice("fault", 3)) {
        case 0: at = e.n; e.arr().obj().key("only").str("no").eobj().end(); e.key("w").num(1); break;
        case 1: e.obj().key("m").num(1).eobj(); e.key("w"); at = e.n; e.str("no"); break;
        case 2: e.str("s"); e.key("w"); at = e.n; e.null(); break;
        default: at = e.n; e.null(); e.key("w").num(1); break;
    }
    e.eobj().end();
    check_path<std::vector<Holder>>(e, at);
}
// five levels, every kind of container in between
using Deep = std::vector<std::map<std::string, std::tuple<Item, std::array<std::vector<Inner>, 2>>>>;
VF_HARNESS h_deep()
{
    std::uint64_t bad = vf_choice("bad", 5), at = 0, i = 0; Expect e;
    auto part = [&] { if (i == bad) at = e.n; item_or_bad(e, i, bad, i); ++i; };
    auto inner = [&] { e.obj().key("only"); part(); e.eobj(); };
    e.arr().obj().eobj().obj().key("~/").arr(); part(); e.arr().arr().end().arr(); inner(); inner(); e.end().end().end().key("k").arr(); part(); e.arr().arr(); inner(); e.end().arr(); inner(); e.end().end().end().eobj().end();
    check_path<Deep>(e, at);
}
VF_HARNESS h_deep_shape()       // a level of the wrong kind
{
    std::uint64_t bad = vf_choice("bad", 5), at = 0; Expect e;
    auto open = [&](std::uint64_t level) { if (bad == level) { at = e.n; e.boolean(true); return false; } return true; };
    if (open(0)) {
        e.arr();
        if (open(1)) {
            e.obj().key("/");
            if (open(2)) {
                e.arr().num(1);
                if (open(3)) {
                    e.arr().arr().end();
                    if (open(4)) { e.arr(); if (open(5)) e.obj().key("only").num(1).eobj(); e.end(); }
                    e.end();
                }
                e.end();
            }
            e.eobj();
        }
        e.end();
    }
    check_path<Deep>(e, at);
}
// --- leaves: whatever is unfit, the leaf itself
static void any_leaf(Expect& e)
{
    switch (vf_choice("leaf", 11)) {
        case 0: e.num(vf_u64("bits")); break;
        case 1: { std::uint64_t b = vf_u64("bits"); vf_assume(b >= 1 && b <= std::uint64_t(1) << 63); e.add(TK_NEG, b); break; }
        case 2: e.boolean(vf_bool("b")); break;
        case 3: e.null(); break;
        case 4: e.str("other"); break;
        case 5: e.str("2024-02-30"); break;
        case 6: e.str("2024-02-28T25:00:00Z"); break;
        case 7: e.str("AB=C"); break;
        case 8: e.str(""); break;
        case 9: e.arr().num(1).end(); break;
        case 10: e.obj().key("x").num(1).eobj(); break;
        default: e.real(1e300); break;
    }
}
template<typename T> static void leaf()
{
    Expect alone; any_leaf(alone);
    rapidjson::Document one; put(one, alone, 0); T x{};
    if (deserialize(one, x)) return;
    Expect e; e.arr().obj().eobj().obj().key("a/~"); std::uint64_t at = e.n; for (std::uint64_t i = 0; i < alone.n; ++i) { e.t[e.n] = alone.t[i]; ++e.n; } e.eobj().end();
    check_path<std::vector<std::map<std::string, T>>>(e, at);
}
#define LEAF(name, ...) VF_HARNESS h_leaf_##name() { leaf<__VA_ARGS__>(); }
LEAF(bool, bool) LEAF(schar, signed char) LEAF(uchar, unsigned char) LEAF(short, short) LEAF(ushort, unsigned short) LEAF(int, int) LEAF(uint, unsigned int) LEAF(llong, long long) LEAF(ullong, unsigned long long)
LEAF(float, float) LEAF(double, double) LEAF(text, std::string) LEAF(null, std::nullptr_t) LEAF(tone, Tone) LEAF(level, Level) LEAF(plain, Plain) LEAF(bytes, std::vector<std::byte>)
LEAF(date, std::chrono::year_month_day) LEAF(time, std::chrono::time_point<std::chrono::system_clock>)
// repeated elements count like any other; members read in an order other than that of the document
VF_HARNESS h_repeated()
{
    std::uint64_t n = vf_choice("n", 3), same_ = vf_choice("same", 2), at; Expect e; e.arr();
    for (std::uint64_t i = 0; i <= n; ++i) e.num(i <= same_ ? 5 : 6 + i);
    at = e.n; e.str("no"); e.num(9).end();
    switch (vf_choice("kind", 2)) { case 0: check_path<std::set<Item>>(e, at); break; case 1: check_path<std::set<int>>(e, at); break; default: check_path<std::vector<Item>>(e, at); break; }
}
VF_HARNESS h_repeated_key()
{
    Expect e; e.obj().key("k").num(1).key("k"); std::uint64_t at = e.n; e.null().key("j").num(2).eobj();
    check_path<std::map<std::string, Item>>(e, at);
}
// back-references that cannot be resolved: the object holding the reference
VF_HARNESS h_reference()
{
    Expect e; e.obj().key("a").arr().obj().key("only").num(1).eobj(); std::uint64_t at = e.n;
    static const char* const refs[] = { "/b/0", "", "no pointer", "/a", "/a/1", "/a/0/only", "/a/00" };
    e.obj().key("$ref").str(refs[vf_choice("ref", 6)]).eobj().end().eobj();
    check_path<std::map<std::string, std::vector<std::shared_ptr<Inner>>>>(e, at);
}
// awkward keys at every level
VF_HARNESS h_keys_nested()
{
    static const char* const keys[] = { "", "0", "~", "/", "$ref" };
    std::uint64_t a = vf_choice("a", 4), b = vf_choice("b", 4), at; Expect e;
    e.obj().key(keys[a]).obj().key("first").num(1).key(keys[b]); at = e.n; e.null().eobj().eobj();
    check_path<std::map<std::string, std::map<std::string, Item>>>(e, at);
}
VF_HARNESS h_keys_mixed()
{
    static const char* const keys[] = { "", "1", "~1" };
    std::uint64_t a = vf_choice("a", 2), b = vf_choice("b", 2), at; Expect e;
    e.arr().obj().key(keys[a]).arr().obj().key(keys[b]).arr().num(1); at = e.n; e.null().end().eobj().end().eobj().end();
    check_path<std::vector<std::map<std::string, std::vector<std::map<std::string, std::vector<Item>>>>>>(e, at);
}
