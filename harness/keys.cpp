// C12: each object key reaches exactly the member declared under that name
#include "vf_read.hpp"
#define N(n, v) & NAMED_MEMBER_VARIABLE(n, v)
#define D(n, v) & NAMED_MEMBER_VARIABLE_DEFAULT(n, v)
// every class has members m[0..count) of type Item, named below; each begins with a value of its own
struct K1 { static constexpr const char* names[] = { "key" }; Item a{ 1000 }; template<typename A> constexpr auto persist(A& ar) { return ar N("key", a); } Item* at(int) { return &a; } };
struct K2 { static constexpr const char* names[] = { "ab", "a" }; Item a{ 1000 }, b{ 1001 }; template<typename A> constexpr auto persist(A& ar) { return ar N("ab", a) N("a", b); } Item* at(int i) { return i ? &b : &a; } };
struct K3 { static constexpr const char* names[] = { "", "x", "xx" }; Item a{ 1000 }, b{ 1001 }, c{ 1002 }; template<typename A> constexpr auto persist(A& ar) { return ar N("", a) N("x", b) N("xx", c); } Item* at(int i) { return i == 0 ? &a : i == 1 ? &b : &c; } };
struct K5   // equal lengths and prefixes, optional and default members
{
    static constexpr const char* names[] = { "name", "Name", "names", "nam", "mane" };
    Item a{ 1000 }; std::optional<Item> b{ Item{ 1001 } }; Item c{ 1002 }, d{ 1003 }, e{ 1004 };
    template<typename A> constexpr auto persist(A& ar) { return ar N("name", a) N("Name", b) D("names", c) N("nam", d) D("mane", e); }
    Item* at(int i) { return i == 0 ? &a : i == 1 ? &*b : i == 2 ? &c : i == 3 ? &d : &e; }
};
struct Base6 { Item a{ 1000 }, b{ 1001 }; };
struct K6 : Base6   // inherited members, names that are long or differ only at their end
{
    static constexpr const char* names[] = { "a rather long name, number 1", "a rather long name, number 2", "a rather long name, number 21", "~/\"\\\n", "1", "2" };
    Item c{ 1002 }, d{ 1003 }, e{ 1004 }, f{ 1005 };
    template<typename A> constexpr auto persist(A& ar) { return ar N("a rather long name, number 1", a) N("a rather long name, number 2", b) N("a rather long name, number 21", c) N("~/\"\\\n", d) N("1", e) N("2", f); }
    Item* at(int i) { Item* p[] = { &a, &b, &c, &d, &e, &f }; return p[i]; }
};
struct K12
{
    static constexpr const char* names[] = { "aa", "ab", "ba", "bb", "a", "b", "A", "B", "aaa", "bbb", "", "zz" };
    Item m0{ 1000 }, m1{ 1001 }, m2{ 1002 }, m3{ 1003 }, m4{ 1004 }, m5{ 1005 }, m6{ 1006 }, m7{ 1007 }, m8{ 1008 }, m9{ 1009 }, m10{ 1010 }, m11{ 1011 };
    template<typename A> constexpr auto persist(A& ar) { return ar N("aa", m0) N("ab", m1) N("ba", m2) N("bb", m3) N("a", m4) N("b", m5) N("A", m6) N("B", m7) N("aaa", m8) N("bbb", m9) N("", m10) N("zz", m11); }
    Item* at(int i) { Item* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11 }; return p[i]; }
};
struct K24
{
    static constexpr const char* names[] = { "id", "name", "value", "kind", "type", "size", "count", "first", "last", "left", "right", "parent", "children", "x", "y", "z", "width", "height", "color", "label", "created", "updated", "flags", "owner" };
    Item m0{ 1000 }, m1{ 1001 }, m2{ 1002 }, m3{ 1003 }, m4{ 1004 }, m5{ 1005 }, m6{ 1006 }, m7{ 1007 }, m8{ 1008 }, m9{ 1009 }, m10{ 1010 }, m11{ 1011 }, m12{ 1012 }, m13{ 1013 }, m14{ 1014 }, m15{ 1015 }, m16{ 1016 }, m17{ 1017 }, m18{ 1018 }, m19{ 1019 }, m20{ 1020 }, m21{ 1021 }, m22{ 1022 }, m23{ 1023 };
    template<typename A> constexpr auto persist(A& ar) { return ar N("id", m0) N("name", m1) N("value", m2) N("kind", m3) N("type", m4) N("size", m5) N("count", m6) N("first", m7) N("last", m8) N("left", m9) N("right", m10) N("parent", m11) N("children", m12) N("x", m13) N("y", m14) N("z", m15) N("width", m16) N("height", m17) N("color", m18) N("label", m19) N("created", m20) N("updated", m21) N("flags", m22) N("owner", m23); }
    Item* at(int i) { Item* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23 }; return p[i]; }
};
template<typename C> static constexpr int count() { return int(sizeof C::names / sizeof *C::names); }
template<typename C> static void only(C& v, int k, std::uint64_t x, const char*)
{
    bool same = true;
    for (int i = 0; i < count<C>(); ++i) same = same & (v.at(i)->v == (i == k ? x : 1000 + std::uint64_t(i)));
    vf_assert(same, "a key populates the member declared under exactly that name and no other member");
}
template<typename C> static int declared(std::string_view key)
{
    for (int k = 0; k < count<C>(); ++k) {
        std::size_t n = std::char_traits<char>::length(C::names[k]);
        if (key.size() != n) continue;
        bool same = true;
        for (std::size_t i = 0; i < n; ++i) same = same & (key[i] == C::names[k][i]);
        if (same) return k;
    }
    return -1;
}
// parser: each declared name
template<typename C> static void sax_each()
{
    for (int k = 0; k < count<C>(); ++k) {
        std::uint64_t x = good_value("x");
        C v; Sax s; s.start(v);
        vf_assert(s.d.StartObject(), "parser: an object is accepted");
        vf_assert(s.key(C::names[k]), "parser: a declared name is accepted");
        vf_assert(s.d.Uint64(x) && s.d.EndObject(1) && s.idle(), "parser: the member is read");
        only(v, k, x, "");
    }
    vf_reach("end");
}
// parser: any text as a key, anywhere in an object
template<typename C> static void sax_any()
{
    std::string key; vf_text_like("key", &key, 1u << 30, C::names, count<C>());
    std::uint64_t x = good_value("x"), y = good_value("y"); bool later = vf_choice("later", 1);
    C v; Sax s; s.start(v); s.d.StartObject();
    if (later) { s.key(C::names[0]); s.d.Uint64(y); v.at(0)->v = 1000; }
    bool ok = s.key(key);
    if (ok) {
        int k = declared<C>(key);
        vf_assert(k >= 0, "parser: a key that names no member is refused");
        vf_assert(s.d.Uint64(x) && s.d.EndObject(1) && s.idle(), "parser: the member is read");
        only(v, k, x, "");
        vf_reach("accepted");
    } else vf_reach("refused");
}
// parser: the keys of two members one after the other, in any order (also one key twice), then all of them in several orders
template<typename C> static void sax_orders()
{
    std::uint64_t a = vf_choice("a", count<C>() - 1), b = vf_choice("b", count<C>() - 1);
    std::uint64_t x = good_value("x"), y = good_value("y");
    C v; Sax s; s.start(v); s.d.StartObject();
    vf_assert(s.key(C::names[a]) && s.d.Uint64(x) && s.key(C::names[b]) && s.d.Uint64(y) && s.d.EndObject(2) && s.idle(), "parser: declared names are accepted in any order");
    bool same = true;
    for (std::uint64_t i = 0; i < std::uint64_t(count<C>()); ++i) same = same & (v.at(i)->v == (i == b ? y : i == a ? x : 1000 + i));
    vf_assert(same, "a key populates the member declared under exactly that name and no other member");
    vf_reach("end");
}
template<typename C> static void all_orders()
{
    std::uint64_t start = vf_choice("start", count<C>() - 1), step = vf_choice("step", 1); int n = count<C>();
    std::uint64_t x[16]; for (int i = 0; i < n; ++i) x[i] = good_value("x");
    Expect e; e.obj();
    for (int i = 0; i < n; ++i) { int k = int((start + (step ? std::uint64_t(n - i) : std::uint64_t(i))) % std::uint64_t(n)); e.key(C::names[k]).num(x[k]); }
    e.eobj();
    check_read<C, BOTH>(e, true, [&](C& v) { bool same = true; for (int i = 0; i < n; ++i) same = same & (v.at(i)->v == x[i]); vf_assert(same, "every member holds the value given under its name, for any order of keys"); });
    vf_reach("end");
}
// DOM: members in any order among keys that name no member
template<typename C> static void dom_any()
{
    std::string key; vf_text_like("key", &key, 1u << 30, C::names, count<C>());
    int n = count<C>(); std::uint64_t where = vf_choice("where", 2), at = where == 0 ? 0 : where == 1 ? std::uint64_t(n / 2) : std::uint64_t(n);
    vf_assume(declared<C>(key) < 0);
    std::uint64_t x[16]; for (int i = 0; i < n; ++i) x[i] = good_value("x");
    rapidjson::Document doc; doc.SetObject();
    auto add = [&](const char* s, std::size_t m, std::uint64_t u) { rapidjson::Value name(rapidjson::StringRef(s, rapidjson::SizeType(m))); rapidjson::Value val(u); doc.AddMember(name, val, doc.GetAllocator()); };
    for (int i = 0; i <= n; ++i) {
        if (std::uint64_t(i) == at) add(key.data(), key.size(), 77);
        if (i < n) { int k = n - 1 - i; add(C::names[k], std::char_traits<char>::length(C::names[k]), x[k]); }
    }
    C v; bool ok = deserialize(doc, v);
    vf_assert(ok, "DOM: a key that names no member is ignored");
    bool same = true; for (int i = 0; i < n; ++i) same = same & (v.at(i)->v == x[i]);
    vf_assert(same, "DOM: every member holds the value given under its name");
    bool thrown = false;
    try { C w = deserialize<C>(doc); same = true; for (int i = 0; i < n; ++i) same = same & (w.at(i)->v == x[i]); vf_assert(same, "DOM: every member holds the value given under its name (throwing form)"); }
    catch (const JsonDeserializationError&) { thrown = true; }
    vf_assert(!thrown, "DOM: a key that names no member is ignored (throwing form)");
    vf_reach("end");
}
// DOM: a required member is not satisfied by any other key, a default or optional one is left alone by it
template<typename C> static void dom_missing(int required)
{
    std::string key; vf_text_like("key", &key, 1u << 30, C::names, count<C>());
    int n = count<C>(); vf_assume(declared<C>(key) < 0);
    rapidjson::Document doc; doc.SetObject();
    auto add = [&](const char* s, std::size_t m, std::uint64_t u) { rapidjson::Value name(rapidjson::StringRef(s, rapidjson::SizeType(m))); rapidjson::Value val(u); doc.AddMember(name, val, doc.GetAllocator()); };
    add(key.data(), key.size(), std::uint64_t(77));
    for (int i = 0; i < n; ++i) if (i != required) add(C::names[i], std::char_traits<char>::length(C::names[i]), std::uint64_t(1000) + std::uint64_t(i));
    C v; vf_assert(!deserialize(doc, v), "DOM: another key does not stand in for a required member");
    bool thrown = false; try { deserialize<C>(doc); } catch (const JsonDeserializationError&) { thrown = true; }
    vf_assert(thrown, "DOM: another key does not stand in for a required member (throwing form)");
    vf_reach("end");
}
VF_HARNESS h_each_k1() { sax_each<K1>(); }
VF_HARNESS h_any_k1() { sax_any<K1>(); }
VF_HARNESS h_order_k1() { sax_orders<K1>(); }
VF_HARNESS h_dom_k1() { dom_any<K1>(); }
VF_HARNESS h_missing_k1() { dom_missing<K1>(0); }
VF_HARNESS h_each_k2() { sax_each<K2>(); }
VF_HARNESS h_any_k2() { sax_any<K2>(); }
VF_HARNESS h_order_k2() { sax_orders<K2>(); }
VF_HARNESS h_dom_k2() { dom_any<K2>(); }
VF_HARNESS h_missing_k2() { dom_missing<K2>(0); }
VF_HARNESS h_each_k3() { sax_each<K3>(); }
VF_HARNESS h_any_k3() { sax_any<K3>(); }
VF_HARNESS h_order_k3() { sax_orders<K3>(); }
VF_HARNESS h_dom_k3() { dom_any<K3>(); }
VF_HARNESS h_missing_k3() { dom_missing<K3>(0); }
VF_HARNESS h_each_k5() { sax_each<K5>(); }
VF_HARNESS h_any_k5() { sax_any<K5>(); }
VF_HARNESS h_order_k5() { sax_orders<K5>(); }
VF_HARNESS h_dom_k5() { dom_any<K5>(); }
VF_HARNESS h_missing_k5() { dom_missing<K5>(0); }
VF_HARNESS h_each_k6() { sax_each<K6>(); }
VF_HARNESS h_any_k6() { sax_any<K6>(); }
VF_HARNESS h_order_k6() { sax_orders<K6>(); }
VF_HARNESS h_dom_k6() { dom_any<K6>(); }
VF_HARNESS h_missing_k6() { dom_missing<K6>(0); }
VF_HARNESS h_each_k12() { sax_each<K12>(); }
VF_HARNESS h_any_k12() { sax_any<K12>(); }
VF_HARNESS h_order_k12() { sax_orders<K12>(); }
VF_HARNESS h_dom_k12() { dom_any<K12>(); }
VF_HARNESS h_missing_k12() { dom_missing<K12>(0); }
VF_HARNESS h_all_k3() { all_orders<K3>(); vf_reach("end"); }
VF_HARNESS h_all_k6() { all_orders<K6>(); vf_reach("end"); }
VF_HARNESS h_all_k12() { all_orders<K12>(); vf_reach("end"); }
VF_HARNESS h_each_k24() { sax_each<K24>(); }
