// C05, C08: composite values are written completely and in order, or refused as a whole
#include "vf_expect.hpp"
#include "vf_hash.hpp"
#include <cmath>
static Item item(const char* name) { return Item{ vf_u64(name) }; }
static double real(const char* name) { return vf_double(name); }

VF_HARNESS h_vector()
{
    std::uint64_t n = vf_choice("n", 3);
    std::vector<Item> v; Expect e; e.arr(); bool good = true;
    for (std::uint64_t i = 0; i < n; ++i) { Item x = item("x"); good = good && x.good(); v.push_back(x); e.num(x.v); }
    e.end(); check_write(v, e, good);
    vf_reach("end");
}
VF_HARNESS h_vector_real()
{
    std::vector<double> v; double a = real("a"), b = real("b"); v.push_back(a); v.push_back(b);
    Expect e; e.arr().real(a).real(b).end();
    check_write(v, e, std::isfinite(a) && std::isfinite(b));
    vf_reach("end");
}
VF_HARNESS h_vector_mixed()
{
    { bool a = vf_bool("a"), b = vf_bool("b"); std::vector<bool> v; v.push_back(a); v.push_back(b); Expect e; e.arr().boolean(a).boolean(b).end(); check_write(v, e, true); }
    { std::vector<std::string> v; v.push_back("one"); v.push_back(std::string("t\0o", 3)); v.push_back(""); Expect e; e.arr().str("one").str(std::string_view("t\0o", 3)).str("").end(); check_write(v, e, true); }
    { std::vector<std::nullptr_t> v(2); Expect e; e.arr().null().null().end(); check_write(v, e, true); }
    vf_reach("end");
}
VF_HARNESS h_nested()
{
    Item a = item("a"), b = item("b"), c = item("c");
    std::vector<std::vector<Item>> v(3); v[0].push_back(a); v[2].push_back(b); v[2].push_back(c);
    Expect e; e.arr().arr().num(a.v).end().arr().end().arr().num(b.v).num(c.v).end().end();
    check_write(v, e, a.good() && b.good() && c.good());
    vf_reach("end");
}
VF_HARNESS h_array()
{
    Item a = item("a"), b = item("b"), c = item("c");
    std::array<Item, 3> v{ a, b, c };
    Expect e; e.arr().num(a.v).num(b.v).num(c.v).end();
    check_write(v, e, a.good() && b.good() && c.good());
    std::array<Item, 0> z; Expect ez; ez.arr().end(); check_write(z, ez, true);
    vf_reach("end");
}
VF_HARNESS h_pair()
{
    Item a = item("a"); double b = real("b");
    { std::pair<Item, double> v(a, b); Expect e; e.arr().num(a.v).real(b).end(); check_write(v, e, a.good() && std::isfinite(b)); }
    { std::pair<std::string, Item> v("key", a); Expect e; e.arr().str("key").num(a.v).end(); check_write(v, e, a.good()); }
    vf_reach("end");
}
VF_HARNESS h_tuple()
{
    Item a = item("a"), b = item("b"); double c = real("c");
    { std::tuple<Item, std::string, double, Item> v(a, "s", c, b); Expect e; e.arr().num(a.v).str("s").real(c).num(b.v).end(); check_write(v, e, a.good() && b.good() && std::isfinite(c)); }
    { std::tuple<> v; Expect e; e.arr().end(); check_write(v, e, true); }
    { std::tuple<Item> v(a); Expect e; e.arr().num(a.v).end(); check_write(v, e, a.good()); }
    vf_reach("end");
}
VF_HARNESS h_set()
{
    Item a = item("a"), b = item("b"), c = item("c");
    std::set<Item> v; v.insert(c); v.insert(a); v.insert(b);
    Expect e; e.arr(); bool good = true;
    for (const Item& x : v) { good = good && x.good(); e.num(x.v); }
    e.end(); check_write(v, e, good);
    std::set<std::string> s; s.insert("b"); s.insert("a"); s.insert("ab");
    Expect es; es.arr().str("a").str("ab").str("b").end(); check_write(s, es, true);
    vf_reach("end");
}
static void three(Expect& e, const char* k1, Item a, const char* k2, Item b, const char* k3, Item c) { e.obj().key(k1).num(a.v).key(k2).num(b.v).key(k3).num(c.v).eobj(); }
VF_HARNESS h_map()
{
    Item a = item("a"), b = item("b"), c = item("c"); bool good = a.good() && b.good() && c.good();
    { string_map<Item> v; v["k"] = a; v["kk"] = b; v[""] = c; Expect e; three(e, "", c, "k", a, "kk", b); check_write(v, e, good); }
    { literal_map<Item> v; v["k"] = a; v["kk"] = b; v["b"] = c; Expect e; three(e, "b", c, "k", a, "kk", b); check_write(v, e, good); }
    vf_reach("end");
}
VF_HARNESS h_dict()
{
    Item a = item("a"), b = item("b"), c = item("c"); bool good = a.good() && b.good() && c.good();
    { string_dict<Item> v; v.emplace_back("z", a); v.emplace_back("y", b); v.emplace_back("a longer key, on the heap", c); Expect e; three(e, "z", a, "y", b, "a longer key, on the heap", c); check_write(v, e, good); }
    { literal_dict<Item> v; v.emplace_back("z", a); v.emplace_back("y", b); v.emplace_back("x", c); Expect e; three(e, "z", a, "y", b, "x", c); check_write(v, e, good); }
    vf_reach("end");
}
VF_HARNESS h_dict_keys()          // arbitrary keys
{
    std::string k1, k2; vf_any_string("k1", &k1, 1u << 20); vf_any_string("k2", &k2, 1u << 20);
    Item a = item("a"), b = item("b"); vf_assume(a.good() && b.good());
    std::uint64_t j1 = vf_size("j1", 1u << 20), j2 = vf_size("j2", 1u << 20);
    string_dict<Item> v; v.reserve(2); v.emplace_back(k1, a); v.emplace_back(k2, b);
    {
        rapidjson::StringBuffer buffer; StringWriter writer(buffer);
        vf_assert(write_to_string(v, writer), "[C05] text: a dictionary with any keys can be written");
        Log log(writer, buffer);
        vf_assert(log.count() == 6 && log.kind(0) == TK_OBJ && log.kind(1) == TK_KEY && log.kind(2) == TK_INT && log.kind(3) == TK_KEY && log.kind(4) == TK_INT && log.kind(5) == TK_OBJ_END, "[C08] text: one member per entry");
        vf_assert(log.length(1) == k1.size() && log.length(3) == k2.size(), "[C08] text: exactly the keys (length)");
        if (j1 < k1.size()) vf_assert(log.byte(1, j1) == (unsigned char)k1[j1], "[C08] text: exactly the keys");
        if (j2 < k2.size()) vf_assert(log.byte(3, j2) == (unsigned char)k2[j2], "[C08] text: exactly the keys");
        vf_assert(log.value(2) == a.v && log.value(4) == b.v, "[C08] text: each value under its own key");
    }
    vf_reach("end");
}
VF_HARNESS h_dict_keys_dom()
{
    std::string k1; vf_any_string("k1", &k1, 1u << 20);
    Item a = item("a"), b = item("b"); vf_assume(a.good() && b.good());
    std::uint64_t j1 = vf_size("j1", 1u << 20);
    string_dict<Item> v; v.reserve(2); v.emplace_back(k1, a); v.emplace_back("k2", b);
    rapidjson::Document doc;
    vf_assert(serialize_to_document(v, doc), "[C05] DOM: a dictionary with any keys can be written");
    vf_assert(doc.IsObject() && doc.MemberCount() == 2, "[C08] DOM: one member per entry");
    auto m1 = doc.MemberBegin(), m2 = m1 + 1;
    vf_assert(m1->name.GetStringLength() == k1.size() && m2->name.GetStringLength() == 2, "[C08] DOM: exactly the keys (length)");
    if (j1 < k1.size()) vf_assert(m1->name.GetString()[j1] == k1[j1], "[C08] DOM: exactly the keys");
    vf_assert(m1->value.IsUint64() && m1->value.GetUint64() == a.v && m2->value.IsUint64() && m2->value.GetUint64() == b.v, "[C08] DOM: each value under its own key");
    vf_reach("end");
}
VF_HARNESS h_unordered()
{
    Item a = item("a"), b = item("b");
    std::unordered_map<std::string, Item> v; v.emplace("first", a); v.emplace("second", b);
    Expect e; e.obj(); bool good = true;
    for (auto& kv : v) { e.key(kv.first).num(kv.second.v); good = good && kv.second.good(); }
    e.eobj();
    vf_assert(v.size() == 2, "harness");
    check_write(v, e, good);
    literal_unordered_map<Item> w; w.emplace("first", a); w.emplace("second", b);
    Expect f; f.obj(); for (auto& kv : w) f.key(kv.first).num(kv.second.v);
    f.eobj(); check_write(w, f, good);
    vf_reach("end");
}
VF_HARNESS h_pointer()
{
    Item a = item("a"); std::vector<Item> inner; inner.push_back(a);
    { std::unique_ptr<Item> p = std::make_unique<Item>(a); Expect e; e.num(a.v); check_write(p, e, a.good()); }
    { std::shared_ptr<Item> p = std::make_shared<Item>(a); Expect e; e.num(a.v); check_write(p, e, a.good()); }
    { Item* p = &a; Expect e; e.num(a.v); check_write(p, e, a.good()); }
    { std::unique_ptr<std::vector<Item>> p = std::make_unique<std::vector<Item>>(inner); Expect e; e.arr().num(a.v).end(); check_write(p, e, a.good()); }
    vf_reach("end");
}
VF_HARNESS h_variant()
{
    Item a = item("a"); double d = real("d");
    using V = std::variant<double, Item, std::string, std::vector<Item>>;
    { V v(a); Expect e; e.num(a.v); check_write(v, e, a.good()); }
    { V v(d); Expect e; e.real(d); check_write(v, e, std::isfinite(d)); }
    { V v(std::string("text")); Expect e; e.str("text"); check_write(v, e, true); }
    { V v(std::vector<Item>(2, a)); Expect e; e.arr().num(a.v).num(a.v).end(); check_write(v, e, a.good()); }
    vf_reach("end");
}
struct Plain { Item one; double two; std::string three; template<typename A> constexpr auto persist(A& ar) { return ar & NAMED_MEMBER_VARIABLE("1", one) & MEMBER_VARIABLE(two) & MEMBER_VARIABLE(three); } };
struct Optional
{
    std::optional<Item> first; Item second; std::optional<std::vector<Item>> third; Item fourth{ 4 }; std::optional<double> fifth;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(first) & MEMBER_VARIABLE(second) & MEMBER_VARIABLE(third) & MEMBER_VARIABLE_DEFAULT(fourth) & MEMBER_VARIABLE(fifth); }
};
struct Base { Item base; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(base); } };
struct Derived : Base { Item mine; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(base) & MEMBER_VARIABLE(mine); } };
struct Outer { Plain p; std::vector<Base> list; std::unique_ptr<Base> ptr; std::map<std::string, Base> map; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(p) & MEMBER_VARIABLE(list) & MEMBER_VARIABLE(ptr) & MEMBER_VARIABLE(map); } };
VF_HARNESS h_object()
{
    Item a = item("a"); double d = real("d"); Item b = item("b");
    { Plain v{ a, d, "text" }; Expect e; e.obj().key("1").num(a.v).key("two").real(d).key("three").str("text").eobj(); check_write(v, e, a.good() && std::isfinite(d)); }
    { Derived v; v.base = a; v.mine = b; Expect e; e.obj().key("base").num(a.v).key("mine").num(b.v).eobj(); check_write(v, e, a.good() && b.good()); }
    vf_reach("end");
}
VF_HARNESS h_optional()
{
    Item a = item("a"), b = item("b"), c = item("c"); double d = real("d");
    bool has1 = vf_bool("has1"), has3 = vf_bool("has3"), has5 = vf_bool("has5");
    Optional v; v.second = b; v.fourth = c;
    Expect e; e.obj(); bool good = b.good() && c.good();
    if (has1) { v.first = a; e.key("first").num(a.v); good = good && a.good(); }
    e.key("second").num(b.v);
    if (has3) { v.third.emplace(); v.third->push_back(a); e.key("third").arr().num(a.v).end(); good = good && a.good(); }
    e.key("fourth").num(c.v);
    if (has5) { v.fifth = d; e.key("fifth").real(d); good = good && std::isfinite(d); }
    e.eobj(); check_write(v, e, good);
    vf_reach("end");
}
VF_HARNESS h_deep()
{
    Item a = item("a"), b = item("b"), c = item("c"), d = item("d"); double r = real("r");
    Outer v; v.p = Plain{ a, r, "x" }; v.list.resize(2); v.list[0].base = b; v.list[1].base = Item{ 7 }; v.ptr = std::make_unique<Base>(); v.ptr->base = c; v.map["m"].base = d;
    Expect e;
    e.obj().key("p").obj().key("1").num(a.v).key("two").real(r).key("three").str("x").eobj()
        .key("list").arr().obj().key("base").num(b.v).eobj().obj().key("base").num(7).eobj().end()
        .key("ptr").obj().key("base").num(c.v).eobj()
        .key("map").obj().key("m").obj().key("base").num(d.v).eobj().eobj().eobj();
    check_write(v, e, a.good() && b.good() && c.good() && d.good() && std::isfinite(r));
    vf_reach("end");
}
// the documented form of inheritance: persist of the derived class continues what persist of the base class returns
struct Kin : Base { Item own; std::optional<Item> maybe; template<typename A> constexpr auto persist(A& ar) { return this->Base::persist(ar) & MEMBER_VARIABLE(own) & MEMBER_VARIABLE(maybe); } };
struct Grandkin : Kin { Item last; template<typename A> constexpr auto persist(A& ar) { return this->Kin::persist(ar) & MEMBER_VARIABLE(last); } };
VF_HARNESS h_inherited()
{
    Item a = item("a"), b = item("b"), c = item("c"), d = item("d"); bool has = vf_bool("has");
    Grandkin v; v.base = a; v.own = b; v.last = d; Expect e; e.obj().key("base").num(a.v).key("own").num(b.v);
    if (has) { v.maybe = c; e.key("maybe").num(c.v); }
    e.key("last").num(d.v).eobj(); check_write(v, e, a.good() && b.good() && (!has || c.good()) && d.good());
    vf_reach("end");
}
VF_HARNESS h_inherited_list()
{
    Item a = item("a"), b = item("b");
    std::vector<Kin> v(2); v[0].base = Item{ 1 }; v[0].own = a; v[1].base = Item{ 2 }; v[1].own = Item{ 3 }; v[1].maybe = b;
    Expect e; e.arr().obj().key("base").num(1).key("own").num(a.v).eobj().obj().key("base").num(2).key("own").num(3).key("maybe").num(b.v).eobj().end();
    check_write(v, e, a.good() && b.good());
    vf_reach("end");
}
