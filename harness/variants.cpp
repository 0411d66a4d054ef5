// C17: variants read as the first alternative that fits, and are written as the stored one
#include "vf_read.hpp"
#include <tuple>
#include <boost/describe/enum.hpp>
enum class Tone { low = 1, mid, high = -5 };
BOOST_DESCRIBE_ENUM(Tone, low, mid, high)
struct Solo { Item only{ 7 }; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(only); } };
struct Wide { Item only{ 7 }; Item more{ 8 }; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(only) & MEMBER_VARIABLE(more); } };
struct Loose { Item only{ 7 }; std::optional<Item> more; Item def{ 9 }; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(only) & MEMBER_VARIABLE(more) & MEMBER_VARIABLE_DEFAULT(def); } };
// equality of what was read
static bool eq(const Item& a, const Item& b) { return a.v == b.v; }
template<typename T> static std::enable_if_t<std::is_arithmetic_v<T>, bool> eq(T a, T b) { return a == b; }
static bool eq(double a, double b) { return __builtin_memcmp(&a, &b, 8) == 0; }
static bool eq(std::nullptr_t, std::nullptr_t) { return true; }
static bool eq(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; bool s = true; for (std::size_t i = 0; i < a.size(); ++i) s = s & (a[i] == b[i]); return s; }
static bool eq(const Solo& a, const Solo& b) { return eq(a.only, b.only); }
static bool eq(const Wide& a, const Wide& b) { return eq(a.only, b.only) & eq(a.more, b.more); }
static bool eq(const Loose& a, const Loose& b) { return eq(a.only, b.only) && eq(a.def, b.def) && a.more.has_value() == b.more.has_value() && (!a.more || eq(*a.more, *b.more)); }
static bool eq(Tone a, Tone b) { return a == b; }
static bool eq(std::byte a, std::byte b) { return a == b; }
template<typename T> static bool eq(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) { return bool(a) == bool(b) && (!a || eq(*a, *b)); }
template<typename T> static bool eq(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b) { return bool(a) == bool(b) && (!a || eq(*a, *b)); }
template<typename T, std::size_t N> static bool eq(const std::array<T, N>& a, const std::array<T, N>& b) { for (std::size_t i = 0; i < N; ++i) if (!eq(a[i], b[i])) return false; return true; }
template<typename T> static bool eq(const std::pair<T, T>& a, const std::pair<T, T>& b) { return eq(a.first, b.first) && eq(a.second, b.second); }
template<typename C> static bool eq_range(const C& a, const C& b);
static bool eq(const std::set<std::string>& a, const std::set<std::string>& b) { return eq_range(a, b); }
static bool eq(const std::pair<const std::string, Item>& a, const std::pair<const std::string, Item>& b) { return eq(a.first, b.first) && eq(a.second, b.second); }
static bool eq(const std::map<std::string, Item>& a, const std::map<std::string, Item>& b) { return eq_range(a, b); }
template<typename C> static bool eq_range(const C& a, const C& b) { if (a.size() != b.size()) return false; auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) if (!eq(*i, *j)) return false; return true; }
template<typename T> static bool eq(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!eq(a[i], b[i])) return false; return true; }
static bool eq(const std::tuple<Item, std::string>& a, const std::tuple<Item, std::string>& b) { return eq(std::get<0>(a), std::get<0>(b)) && eq(std::get<1>(a), std::get<1>(b)); }
template<typename... Ts> static bool eq(const std::variant<Ts...>& a, const std::variant<Ts...>& b);
template<std::size_t I, typename V> static bool eq_at(const V& a, const V& b) { if constexpr (I < std::variant_size_v<V>) return a.index() == I ? eq(std::get<I>(a), std::get<I>(b)) : eq_at<I + 1>(a, b); else return true; }
template<typename... Ts> static bool eq(const std::variant<Ts...>& a, const std::variant<Ts...>& b) { return a.index() == b.index() && eq_at<0>(a, b); }
// specification: alternative by alternative, each read by itself into an object of its own
template<std::size_t I, typename V> static void first_fit(rapidjson::Document& doc, const V* got, bool ok)
{
    if constexpr (I < std::variant_size_v<V>) {
        using T = std::variant_alternative_t<I, V>;
        T alone{};
        if (deserialize(doc, alone)) {
            vf_assert(ok, "a value that fits an alternative is accepted");
            if (ok) {
                vf_assert(got->index() == I, "the first alternative that fits is stored");
                if (got->index() == I) vf_assert(eq(std::get<I>(*got), alone), "the variant holds exactly what that alternative reads");
            }
            vf_reach("fits");
        } else first_fit<I + 1, V>(doc, got, ok);
    } else { vf_assert(!ok, "a value that fits no alternative is refused"); vf_reach("fits none"); }
}
template<typename V, typename B> static void check_variant(const Expect& e, B before)
{
    rapidjson::Document doc; put(doc, e, 0);
    V v; before(v);
    bool ok = deserialize(doc, v);
    first_fit<0, V>(doc, &v, ok);
    bool thrown = false; V w;
    try { w = deserialize<V>(doc); } catch (const JsonDeserializationError&) { thrown = true; }
    vf_assert(thrown == !ok, "the throwing form agrees");
    if (ok && !thrown) vf_assert(eq(v, w), "the throwing form reads the same");
}
template<typename V> static void check_variant(const Expect& e) { check_variant<V>(e, [](V&) {}); }
// what the variant held before: each alternative in turn, with a value that no JSON value below gives
static void sample(Item& x) { x.v = 901; }
static void sample(std::string& x) { x = "held before"; }
template<typename T> static std::enable_if_t<std::is_arithmetic_v<T>> sample(T& x) { x = T(1); }
static void sample(Tone& x) { x = Tone::high; }
static void sample(Solo& x) { x.only.v = 902; }
static void sample(Wide& x) { x.only.v = 903; x.more.v = 904; }
static void sample(Loose& x) { x.only.v = 905; x.more = Item{ 906 }; x.def.v = 907; }
static void sample(std::byte& x) { x = std::byte(1); }
template<typename T> static void sample(std::vector<T>& x) { x.resize(3); sample(x[1]); }
template<typename T> static void sample(std::unique_ptr<T>& x) { x = std::make_unique<T>(); sample(*x); }
template<typename T> static void sample(std::shared_ptr<T>& x) { x = std::make_shared<T>(); sample(*x); }
template<typename T, std::size_t N> static void sample(std::array<T, N>& x) { sample(x[N - 1]); }
template<typename T> static void sample(std::pair<T, T>& x) { sample(x.first); sample(x.second); }
static void sample(std::set<std::string>& x) { x.insert("held"); }
static void sample(std::map<std::string, Item>& x) { x["held"] = Item{ 908 }; }
template<typename... Ts> static void sample(std::tuple<Ts...>& x) { sample(std::get<0>(x)); sample(std::get<sizeof...(Ts) - 1>(x)); }
template<typename... Ts> static void sample(std::variant<Ts...>& x) { std::variant_alternative_t<sizeof...(Ts) - 1, std::variant<Ts...>> y{}; sample(y); x.template emplace<sizeof...(Ts) - 1>(std::move(y)); }
template<std::size_t I, typename V> static void hold(V& v, std::uint64_t k) { if constexpr (I < std::variant_size_v<V>) { if (k == I) { std::variant_alternative_t<I, V> y{}; sample(y); v.template emplace<I>(std::move(y)); } else hold<I + 1>(v, k); } }
template<typename V> static void check_held(const Expect& e) { std::uint64_t k = vf_choice("held", std::variant_size_v<V>); check_variant<V>(e, [&](V& v) { hold<0>(v, k); }); }
// scalars, every value
using Scalar = std::variant<bool, signed char, unsigned short, std::string, long long, double>;
using Reals = std::variant<float, int, double, unsigned long long>;
static void any_scalar(Expect& e)
{
    static const char text[] = "sTr~";
    std::uint64_t bits = vf_u64("bits");
    switch (vf_choice("kind", 6)) {
        case 0: e.num(bits); break;
        case 1: e.boolean(bits & 1); break;
        case 2: e.null(); break;
        case 3: e.str(std::string_view(text, vf_choice("len", 2) * 2)); break;
        case 4: vf_assume(bits >= 1 && bits <= std::uint64_t(1) << 63); e.add(TK_NEG, bits); break;
        case 5: e.arr().end(); break;
        default: e.obj().eobj(); break;
    }
}
VF_HARNESS h_scalar() { Expect e; any_scalar(e); check_variant<Scalar>(e, [](Scalar& v) { v = std::string("before"); }); }
VF_HARNESS h_scalar_double() { Expect e; double d = vf_double("d"); vf_assume(d - d == 0); e.real(d); check_variant<Scalar>(e); }
VF_HARNESS h_reals() { Expect e; any_scalar(e); check_variant<Reals>(e); }
VF_HARNESS h_reals_double() { Expect e; double d = vf_double("d"); vf_assume(d - d == 0); e.real(d); check_variant<Reals>(e); }
// composite alternatives, failing part-way
using Lists = std::variant<std::vector<Item>, std::tuple<Item, std::string>, std::vector<std::string>, std::string, Item>;
static void any_part(Expect& e) { switch (vf_choice("part", 2)) { case 0: e.num(good_value("x")); break; case 1: e.str("s"); break; default: e.null(); break; } }
VF_HARNESS h_lists()
{
    Expect e; std::uint64_t n = vf_choice("n", 3); e.arr(); for (std::uint64_t i = 0; i < n; ++i) any_part(e); e.end();
    check_held<Lists>(e);
}
using Objects = std::variant<Wide, Solo, Loose, std::vector<Item>>;
using Objects2 = std::variant<Loose, Wide, Solo>;
template<typename V> static void objects()
{
    Expect e; e.obj();
    if (vf_choice("only", 1)) { e.key("only"); any_part(e); }
    if (vf_choice("more", 1)) { e.key("more"); any_part(e); }
    if (vf_choice("def", 1)) { e.key("def"); any_part(e); }
    e.eobj();
    check_held<V>(e);
}
VF_HARNESS h_objects() { objects<Objects>(); }
VF_HARNESS h_objects2() { objects<Objects2>(); }
using Nested = std::variant<std::vector<std::variant<Item, std::string>>, std::variant<std::string, Solo>, std::vector<std::vector<Item>>>;
VF_HARNESS h_nested()
{
    Expect e;
    switch (vf_choice("shape", 3)) {
        case 0: e.arr(); any_part(e); any_part(e); e.end(); break;
        case 1: any_part(e); break;
        case 2: e.arr().arr(); any_part(e); e.end().end(); break;
        default: e.obj().key("only"); any_part(e); e.eobj(); break;
    }
    check_held<Nested>(e);
}
// every arithmetic type, narrow first and wide first
using Widening = std::variant<bool, signed char, unsigned char, short, unsigned short, int, unsigned int, long, unsigned long, float, double>;
using Narrowing = std::variant<double, float, unsigned long long, long long, unsigned int, int, unsigned short, short, unsigned char, signed char, bool>;
using Unsigned = std::variant<unsigned char, unsigned short, unsigned int, unsigned long long>;
using Signed = std::variant<short, unsigned int, long long, unsigned long long>;
template<typename V> static void numbers_of()
{
    Expect e; std::uint64_t bits = vf_u64("bits");
    switch (vf_choice("kind", 2)) {
        case 0: e.num(bits); break;
        case 1: vf_assume(bits >= 1 && bits <= std::uint64_t(1) << 63); e.add(TK_NEG, bits); break;
        default: e.boolean(bits & 1); break;
    }
    check_variant<V>(e);
}
VF_HARNESS h_widening() { numbers_of<Widening>(); }
VF_HARNESS h_narrowing() { numbers_of<Narrowing>(); }
VF_HARNESS h_unsigned() { numbers_of<Unsigned>(); }
VF_HARNESS h_signed() { numbers_of<Signed>(); }
VF_HARNESS h_widening_double() { Expect e; double d = vf_double("d"); vf_assume(d - d == 0); e.real(d); check_variant<Widening>(e); }
// alternatives of different kinds that accept the same values, in either order
static void any_shape(Expect& e)
{
    switch (vf_choice("shape", 12)) {
        case 0: e.num(good_value("x")); break;
        case 1: e.num(vf_u64("x") & 0x7fff); break;
        case 2: e.str("mid"); break;
        case 3: e.str("AAEC"); break;
        case 4: e.null(); break;
        case 5: e.boolean(true); break;
        case 6: e.arr().end(); break;
        case 7: e.arr().num(good_value("x")).num(good_value("y")).end(); break;
        case 8: e.arr().str("b").str("a").end(); break;
        case 9: e.obj().eobj(); break;
        case 10: e.obj().key("only").num(good_value("x")).eobj(); break;
        case 11: e.obj().key("only").str("no").eobj(); break;
        default: e.obj().key("only").num(good_value("x")).key("more").num(good_value("y")).eobj(); break;
    }
}
template<typename V> static void kinds() { Expect e; any_shape(e); check_held<V>(e); }
VF_HARNESS h_kinds_wrap() { kinds<std::variant<std::variant<int, std::string>, int, Item>>(); }
VF_HARNESS h_kinds_wrap2() { kinds<std::variant<int, Item, std::variant<std::string, long long>>>(); }
VF_HARNESS h_kinds_enum() { kinds<std::variant<Tone, std::string>>(); }
VF_HARNESS h_kinds_enum2() { kinds<std::variant<std::string, Tone, Item>>(); }
VF_HARNESS h_kinds_bytes() { kinds<std::variant<std::vector<std::byte>, std::string>>(); }
VF_HARNESS h_kinds_pointer() { kinds<std::variant<std::unique_ptr<Solo>, Solo, std::shared_ptr<Item>>>(); }
VF_HARNESS h_kinds_pointer2() { kinds<std::variant<Item, std::shared_ptr<Item>, std::shared_ptr<Wide>, std::unique_ptr<Solo>>>(); }
VF_HARNESS h_kinds_map() { kinds<std::variant<std::map<std::string, Item>, Solo>>(); }
VF_HARNESS h_kinds_map2() { kinds<std::variant<Wide, Solo, std::map<std::string, Item>>>(); }
VF_HARNESS h_kinds_array() { kinds<std::variant<std::array<Item, 2>, std::vector<Item>, std::set<std::string>>>(); }
VF_HARNESS h_kinds_array2() { kinds<std::variant<std::set<std::string>, std::vector<std::string>, std::pair<Item, Item>>>(); }
// variants as elements and members: each on its own
using Elem = std::variant<Item, std::string, Solo>;
struct Holder { Elem a; std::optional<Elem> b; std::vector<Elem> c; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c); } };
static bool elem(Expect& e, Elem& want)
{
    switch (vf_choice("elem", 3)) {
        case 0: { Item x{ good_value("x") }; e.num(x.v); want = x; return true; }
        case 1: e.str("text"); want = std::string("text"); return true;
        case 2: { Solo s; s.only.v = good_value("x"); e.obj().key("only").num(s.only.v).eobj(); want = s; return true; }
        default: e.obj().key("only").str("no").eobj(); return false;
    }
}
VF_HARNESS h_elements()
{
    Expect e; Elem w[2]; e.arr(); bool g0 = elem(e, w[0]), g1 = elem(e, w[1]); e.end();
    check_read<std::vector<Elem>, DOM>(e, g0 && g1, [&](auto& v) { HOLDS(v.size() == 2 && eq(v[0], w[0]) && eq(v[1], w[1])); });
}
VF_HARNESS h_members()
{
    Expect e; Elem w[3]; e.obj().key("c").arr(); bool g2 = elem(e, w[2]); e.end().key("b"); bool g1 = elem(e, w[1]); e.key("a").num(4).eobj(); 
    check_read<Holder, DOM>(e, g1 && g2, [&](Holder& h) { HOLDS(h.a.index() == 0 && std::get<0>(h.a).v == 4 && h.b && eq(*h.b, w[1]) && h.c.size() == 1 && eq(h.c[0], w[2])); });
}
// writing: exactly what the stored alternative alone is written as
template<typename V, std::size_t I> static void written(const V& v, const Expect& e, bool good) { check_write(v, e, good); check_write(std::get<I>(v), e, good); }
VF_HARNESS h_write()
{
    std::uint64_t x = vf_u64("x"), y = vf_u64("y"); bool gx = !(x >> 63), gy = !(y >> 63); Expect e;
    switch (vf_choice("alternative", 5)) {
        case 0: { Lists v(std::vector<Item>{ Item{ x }, Item{ y } }); e.arr().num(x).num(y).end(); written<Lists, 0>(v, e, gx && gy); break; }
        case 1: { Lists v(std::tuple<Item, std::string>(Item{ x }, "t")); e.arr().num(x).str("t").end(); written<Lists, 1>(v, e, gx); break; }
        case 2: { Lists v(std::vector<std::string>{ "a", "" }); e.arr().str("a").str("").end(); written<Lists, 2>(v, e, true); break; }
        case 3: { Lists v(std::string("only")); e.str("only"); written<Lists, 3>(v, e, true); break; }
        case 4: { Lists v(Item{ x }); e.num(x); written<Lists, 4>(v, e, gx); break; }
        default: { Wide w; w.only.v = x; w.more.v = y; Objects v(w); e.obj().key("only").num(x).key("more").num(y).eobj(); written<Objects, 0>(v, e, gx && gy); break; }
    }
}
VF_HARNESS h_write_inner()
{
    std::uint64_t x = vf_u64("x"), y = vf_u64("y"); bool gx = !(x >> 63), gy = !(y >> 63); Expect e;
    Solo s; s.only.v = y;
    std::vector<Elem> v; v.push_back(Item{ x }); v.push_back(std::string("t")); v.push_back(s);
    e.arr().num(x).str("t").obj().key("only").num(y).eobj().end();
    check_write(v, e, gx && gy);
    Holder h; h.a = s; h.b = Elem(Item{ x }); h.c = v;
    Expect f; f.obj().key("a").obj().key("only").num(y).eobj().key("b").num(x).key("c").arr().num(x).str("t").obj().key("only").num(y).eobj().end().eobj();
    check_write(h, f, gx && gy);
    vf_reach("end");
}
template<std::size_t I, typename V> static void write_number(std::uint64_t k)
{
    if constexpr (I < std::variant_size_v<V>) {
        if (k != I) return write_number<I + 1, V>(k);
        using T = std::variant_alternative_t<I, V>;
        std::uint64_t bits = vf_u64("bits"); Expect e; T x;
        if constexpr (std::is_same_v<T, bool>) { x = bits & 1; e.boolean(x); }
        else if constexpr (std::is_floating_point_v<T>) { double d = vf_double("d"); vf_assume(d - d == 0); if constexpr (std::is_same_v<T, float>) vf_assume(double(float(d)) == d); x = T(d); e.real(double(x)); }
        else if constexpr (std::is_signed_v<T>) { x = T(bits); if (x < 0) e.add(TK_NEG, std::uint64_t(0) - std::uint64_t(std::int64_t(x))); else e.num(std::uint64_t(x)); }
        else { x = T(bits); e.num(std::uint64_t(x)); }
        V v(std::in_place_index<I>, x);
        check_write(v, e, true);
    }
}
VF_HARNESS h_write_number() { write_number<0, Widening>(vf_choice("alternative", 10)); }
VF_HARNESS h_write_number2() { write_number<0, Signed>(vf_choice("alternative", 3)); }
