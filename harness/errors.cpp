// C15: failures are reported as documented, and in no other way
#include "vf_reader.hpp"
#include "vf_hash.hpp"
#include "persistence/datetime.hpp"
#include <cmath>
#define NO_THROW "[C15] a function that fills a caller's object lets no exception escape"
#define FALSE_ON_ERROR "[C15] a function that fills a caller's object returns false exactly if the text cannot be read"
#define ONLY_PARSE "[C15] parsing throws a parse error and nothing else"
#define OFFSET "[C15] a parse error carries the offset where reading stopped"
#define THROWS "[C15] a function that returns a value throws exactly if the text cannot be read"
#define ONLY_DESER "[C15] reading through a DOM throws a parse error for malformed text, a deserialization error for an unfit value, and nothing else"
enum Kind { VALUE, PARSE_ERROR, DESERIALIZE_ERROR, SERIALIZE_ERROR, OTHER };
struct Outcome { Kind kind; std::uint64_t offset; };
template<typename F> static Outcome outcome(F f)
{
    try { f(); return { VALUE, 0 }; }
    catch (const JsonParseError& x) { return { PARSE_ERROR, x.offset }; }
    catch (const JsonDeserializationError&) { return { DESERIALIZE_ERROR, 0 }; }
    catch (const JsonSerializationError&) { return { SERIALIZE_ERROR, 0 }; }
    catch (...) { return { OTHER, 0 }; }
}
template<typename F> static int boolean(F f) { try { return f() ? 1 : 0; } catch (...) { return 2; } }
// the text of the script: what the reader reads, and what becomes of it
struct Run { bool malformed; bool stopped; std::uint64_t offset; };
#ifdef VF_IR
static std::string the_text() { return std::string(); }
static bool is_malformed() { return script.upto <= script.e->n; }
#else
struct Drop { bool Null() { return true; } bool Bool(bool) { return true; } bool Int(int) { return true; } bool Uint(unsigned) { return true; } bool Int64(std::int64_t) { return true; } bool Uint64(std::uint64_t) { return true; } bool Double(double) { return true; } bool RawNumber(const char*, unsigned, bool) { return true; } bool String(const char*, unsigned, bool) { return true; } bool Key(const char*, unsigned, bool) { return true; } bool StartObject() { return true; } bool EndObject(unsigned) { return true; } bool StartArray() { return true; } bool EndArray(unsigned) { return true; } };
static std::string the_text()
{
    std::string t;
    if (script.nest) { for (std::uint64_t k = 0; k < script.nest; ++k) t += "{\"child\":"; t += "{}"; for (std::uint64_t k = 0; k < script.nest; ++k) t += '}'; return t; }
    t = render(*script.e);
    if (script.upto <= script.e->n) {             // make it malformed
        std::uint64_t at = t.empty() ? 0 : script.offset % (t.size() + 1);
        switch (script.code % 4) { case 0: t.resize(at); break; case 1: t += " x"; break; case 2: t.insert(at, 1, '}'); break; default: t.insert(at, 1, '\x01'); break; }
    }
    t.reserve(t.size() + 64);
    return t;
}
static rapidjson::ParseResult plain_read(const std::string& t) { rapidjson::Reader r; rapidjson::StringStream s(t.c_str()); Drop d; return r.Parse(s, d); }
#endif
template<typename T, int modes = BOTH> static void errors(const Expect& e)
{
    script = Script(); script.e = &e;
    if (vf_choice("malformed", 1)) { script.upto = vf_choice("upto", e.n); script.code = e.n > 1 ? 1 + script.upto % 17 : 1 + vf_choice("code", 2) * 7; }
    script.offset = vf_size("offset", std::uint64_t(1) << 30);
    std::string text = the_text();
#ifdef VF_IR
    const bool malformed = script.upto <= e.n; const std::uint64_t where = script.offset;
    auto mal_at = [&] { return where; };
#else
    rapidjson::ParseResult pr = plain_read(text); const bool malformed = pr.IsError();
    auto mal_at = [&] { return std::uint64_t(pr.Offset()); };
#endif
    if constexpr (modes & SAX) {
        T a{};
        int r = boolean([&] { return parse(text, a); });
        vf_assert(r != 2, NO_THROW);
        bool fits; std::uint64_t at;
        {
#ifdef VF_IR
            fits = !script.refused && !malformed; at = where;
#else
            T b{}; Sax s; s.start(b); rapidjson::Reader rd; rapidjson::StringStream ss(text.c_str());
            rapidjson::ParseResult res = rd.Parse(ss, s.d); fits = !res.IsError(); at = res.Offset();
#endif
        }
        vf_assert(r == (fits ? 1 : 0), FALSE_ON_ERROR);
        Outcome o = outcome([&] { T v = parse<T>(text); (void)v; });
        vf_assert(o.kind == VALUE || o.kind == PARSE_ERROR, ONLY_PARSE);
        vf_assert((o.kind == VALUE) == fits, THROWS);
        if (o.kind == PARSE_ERROR) vf_assert(o.offset == at, OFFSET);
    }
    if constexpr (modes & DOM) {
        T a{};
        int r = boolean([&] { return deserialize(text, a); });
        vf_assert(r != 2, NO_THROW);
        if (malformed) vf_assert(r == 0, FALSE_ON_ERROR);
        Outcome o = outcome([&] { T v = deserialize<T>(text); (void)v; });
        vf_assert(o.kind == (malformed ? PARSE_ERROR : r == 1 ? VALUE : DESERIALIZE_ERROR), ONLY_DESER);
        if (o.kind == PARSE_ERROR) vf_assert(o.offset == mal_at(), OFFSET);
        T b{}; std::string t1 = text, t2 = text;
#ifndef VF_IR
        t1.reserve(text.size() + 64); t2.reserve(text.size() + 64);      // rapidjson reads whole aligned blocks of 16 bytes
#endif
        int ri = boolean([&] { return deserialize(std::move(t1), b); });
        vf_assert(ri == r, "[C15] reading in place reports as reading a copy does");
        Outcome oi = outcome([&] { T v = deserialize<T>(std::move(t2)); (void)v; });
        vf_assert(oi.kind == o.kind && oi.offset == o.offset, "[C15] reading in place reports as reading a copy does");
        rapidjson::Document doc; doc.Parse(text.c_str()); T c{};
        int rd = boolean([&] { return deserialize(doc, c); });
        vf_assert(rd == r, "[C15] reading a document reports as reading its text does");
        Outcome od = outcome([&] { T v = deserialize<T>(doc); (void)v; });
        vf_assert(od.kind == o.kind && od.offset == o.offset, "[C15] reading a document reports as reading its text does");
    }
    if (malformed) vf_reach("malformed"); else vf_reach("well-formed");
}
static void el(Expect& e) { switch (vf_choice("el", 2)) { case 0: e.num(good_value("v")); break; case 1: e.str("x"); break; default: e.null(); break; } }
static void any_value(Expect& e)
{
    switch (vf_choice("kind", 7)) {
        case 0: e.null(); break;
        case 1: e.boolean(true); break;
        case 2: e.num(vf_u64("n")); break;
        case 3: { std::uint64_t m = vf_u64("m"); vf_assume(m >= 1 && m <= (std::uint64_t(1) << 63)); e.add(TK_NEG, m); break; }
        case 4: e.real(0.5); break;
        case 5: e.str("text"); break;
        case 6: e.arr().end(); break;
        default: e.obj().eobj(); break;
    }
}
template<typename T, int modes = BOTH> static void leaf() { Expect e; any_value(e); errors<T, modes>(e); vf_reach("end"); }
enum class Tone { low = 1, high = 2 };
enum class Plain : short { a = -1, b = 200 };
namespace persistence {
    template<> struct enum_traits<Tone>
    {
        static std::string_view to_string(Tone v) { return v == Tone::low ? "text" : v == Tone::high ? "high" : ""; }
        static bool from_string(const std::string_view& s, Tone& v) { if (s == "text") { v = Tone::low; return true; } if (s == "high") { v = Tone::high; return true; } return false; }
    };
}
VF_HARNESS h_item() { leaf<Item>(); }
VF_HARNESS h_int() { leaf<int>(); }
VF_HARNESS h_uchar() { leaf<unsigned char>(); }
VF_HARNESS h_short() { leaf<short>(); }
VF_HARNESS h_llong() { leaf<long long>(); }
VF_HARNESS h_ulong() { leaf<unsigned long>(); }
VF_HARNESS h_bool() { leaf<bool>(); }
VF_HARNESS h_null() { leaf<std::nullptr_t>(); }
VF_HARNESS h_string() { leaf<std::string>(); }
VF_HARNESS h_tone() { leaf<Tone>(); }
VF_HARNESS h_plain() { leaf<Plain>(); }
VF_HARNESS h_bytes() { leaf<byte_vector>(); }
VF_HARNESS h_datetime() { leaf<timestamp>(); }
VF_HARNESS h_unique() { leaf<std::unique_ptr<Item>>(); }
VF_HARNESS h_shared() { leaf<std::shared_ptr<int>>(); }
VF_HARNESS h_variant() { leaf<std::variant<bool, Item, std::string>, DOM>(); }
VF_HARNESS h_real() { Expect e; switch (vf_choice("kind", 4)) { case 0: e.real(1e300); break; case 1: e.num(16777217); break; case 2: e.add(TK_NEG, 5); break; case 3: e.str("1"); break; default: e.null(); break; } errors<float>(e); errors<double>(e); vf_reach("end"); }
struct Solo { Item only; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(only); } };
struct Duo { Item first; std::optional<Item> second; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(first) & MEMBER_VARIABLE(second); } };
struct Full
{
    Item req; std::optional<Item> opt; Item def{ 77 }; std::vector<int> list;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(req) & MEMBER_VARIABLE(opt) & MEMBER_VARIABLE_DEFAULT(def) & MEMBER_VARIABLE(list); }
};
template<typename F> static void with(F f) { Expect e; f(e); }
VF_HARNESS h_vector() { Expect e; e.arr(); el(e); el(e); e.end(); errors<std::vector<Item>>(e); vf_reach("end"); }
VF_HARNESS h_vector_int() { Expect e; e.arr(); el(e); e.num(2).end(); errors<std::vector<int>>(e); vf_reach("end"); }
VF_HARNESS h_vector_text() { Expect e; e.arr(); el(e); e.str("s").end(); errors<std::vector<std::string>>(e); vf_reach("end"); }
VF_HARNESS h_vector_bool() { Expect e; e.arr(); if (vf_choice("b", 1)) e.boolean(true); else e.num(1); e.boolean(false).end(); errors<std::vector<bool>>(e); vf_reach("end"); }
VF_HARNESS h_set() { Expect e; e.arr(); el(e); e.num(7).end(); errors<std::set<Item>>(e); vf_reach("end"); }
VF_HARNESS h_set_text() { Expect e; e.arr(); el(e); e.str("s").end(); errors<std::set<std::string>>(e); vf_reach("end"); }
VF_HARNESS h_array() { std::uint64_t n = vf_choice("n", 3); Expect e; e.arr(); for (std::uint64_t i = 0; i < n; ++i) if (i == 1) el(e); else e.num(4); e.end(); errors<std::array<Item, 2>>(e); vf_reach("end"); }
VF_HARNESS h_pair() { std::uint64_t n = vf_choice("n", 3); Expect e; e.arr(); for (std::uint64_t i = 0; i < n; ++i) if (i == 1) el(e); else e.num(4); e.end(); errors<std::pair<Item, std::string>>(e); vf_reach("end"); }
VF_HARNESS h_tuple() { std::uint64_t n = vf_choice("n", 3); Expect e; e.arr(); for (std::uint64_t i = 0; i < n; ++i) if (i == 1) el(e); else e.num(4); e.end(); errors<std::tuple<Item, Item>>(e); vf_reach("end"); }
VF_HARNESS h_map() { Expect e; e.obj().key("a"); el(e); e.key("b").num(1).eobj(); errors<std::map<std::string, Item>>(e); vf_reach("end"); }
VF_HARNESS h_unordered() { Expect e; e.obj().key("a"); el(e); e.key("b").num(1).eobj(); errors<std::unordered_map<std::string, Item>>(e); vf_reach("end"); }
VF_HARNESS h_solo() { Expect e; e.obj(); if (vf_choice("key", 1)) e.key("only"); else e.key("onl"); el(e); e.eobj(); errors<Solo>(e); vf_reach("end"); }
VF_HARNESS h_duo() { Expect e; e.obj(); switch (vf_choice("key", 2)) { case 0: e.key("first"); break; case 1: e.key("second"); break; default: e.key(""); break; } el(e); e.eobj(); errors<Duo>(e); vf_reach("end"); }
VF_HARNESS h_full()
{
    Expect e; e.obj(); std::uint64_t in = vf_choice("in", 4);
    if (in != 0) { e.key("req").num(1); } if (in == 1) { e.key("opt"); el(e); } if (in == 2) { e.key("def"); el(e); } if (in == 3) { e.key("other"); el(e); } e.key("list").arr(); if (in == 4) el(e); e.end().eobj();
    errors<Full>(e); vf_reach("end");
}
VF_HARNESS h_nested() { Expect e; e.arr().obj().key("p").arr().num(1); el(e); e.end().eobj().end(); errors<std::vector<std::map<std::string, std::vector<Item>>>>(e); vf_reach("end"); }
VF_HARNESS h_reference()         // references in a DOM: to nothing, to a place without a shared object, malformed
{
    static const char* const R[6] = { "/0", "/1", "/9", "", "x", "/0/~" };
    Expect e; e.arr().num(5).obj().key(vf_choice("key", 1) ? "$ref" : "$re").str(R[vf_choice("ref", 5)]).eobj().end();
    errors<std::vector<std::shared_ptr<Item>>, DOM>(e); vf_reach("end");
}
VF_HARNESS h_reference_odd() { Expect e; e.arr().num(5).obj().key("$ref"); el(e); e.eobj().end(); errors<std::vector<std::shared_ptr<Item>>, DOM>(e); vf_reach("end"); }
VF_HARNESS h_variant_list() { Expect e; e.arr(); el(e); e.boolean(true).end(); errors<std::vector<std::variant<bool, Item>>, DOM>(e); errors<std::variant<std::vector<bool>, std::vector<Item>>, DOM>(e); vf_reach("end"); }
// nesting deeper than the parser can follow
struct Tree { std::unique_ptr<Tree> child; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(child); } };
static void nesting(std::uint64_t n, bool deep)
{
    Expect e; script = Script(); script.e = &e; script.nest = n; script.offset = vf_size("offset", std::uint64_t(1) << 30);
    std::string text = the_text(); Tree a;
    int r = boolean([&] { return parse(text, a); });
    vf_assert(r != 2, NO_THROW);
    if (!deep) vf_assert(r == 1, "[C15] a shallow nesting is accepted");
    Outcome o = outcome([&] { Tree t = parse<Tree>(text); (void)t; });
    vf_assert(o.kind == (r == 1 ? VALUE : PARSE_ERROR), ONLY_PARSE);
#ifdef VF_IR
    if (o.kind == PARSE_ERROR) vf_assert(o.offset == script.offset, OFFSET);
#else
    if (o.kind == PARSE_ERROR) vf_assert(o.offset > 0 && o.offset < text.size(), OFFSET);
#endif
}
VF_HARNESS h_deep() { nesting(200, true); vf_reach("end"); }
VF_HARNESS h_shallow() { nesting(5, false); vf_reach("end"); }
// writing
#define ONLY_SER "[C15] writing throws a serialization error exactly if the object cannot be written, and nothing else"
template<typename T> static void write_errors(const T& v, bool good)
{
    std::string s; rapidjson::StringBuffer buffer; StringWriter writer(buffer); rapidjson::Document doc;
    int a = boolean([&] { return write_to_string(v, writer); }), b = boolean([&] { return write_to_string(v, s); }), c = boolean([&] { return serialize_to_document(v, doc); });
    vf_assert(a != 2 && b != 2 && c != 2, NO_THROW);
    vf_assert(a == good && b == good && c == good, "[C15] a function that fills a caller's string or document returns false exactly if the object cannot be written");
    Outcome o = outcome([&] { std::string t = write_to_string(v); (void)t; });
    vf_assert(o.kind == (good ? VALUE : SERIALIZE_ERROR), ONLY_SER);
    Outcome p = outcome([&] { rapidjson::Document d = serialize_to_document(v); (void)d; });
    vf_assert(p.kind == (good ? VALUE : SERIALIZE_ERROR), ONLY_SER);
    if (good) vf_reach("written"); else vf_reach("refused");
}
VF_HARNESS h_write_item() { Item a{ vf_u64("a") }; write_errors(a, a.good()); write_errors(std::vector<Item>{ Item{ 1 }, a }, a.good()); vf_reach("end"); }
VF_HARNESS h_write_real() { double d = vf_double("d"); write_errors(d, std::isfinite(d)); write_errors(float(1) / 3, true); write_errors(std::array<double, 2>{ 1, d }, std::isfinite(d)); vf_reach("end"); }
VF_HARNESS h_write_tree() { Item a{ vf_u64("a") }; Full f; f.req = Item{ 1 }; f.opt = a; f.list.push_back(3); write_errors(f, a.good()); Duo d; d.first = a; write_errors(d, a.good()); vf_reach("end"); }
VF_HARNESS h_write_map() { Item a{ vf_u64("a") }; std::map<std::string, Item> m; m["x"] = Item{ 3 }; m["y"] = a; write_errors(m, a.good()); write_errors(std::pair<Item, std::string>(a, "s"), a.good()); vf_reach("end"); }
VF_HARNESS h_write_set() { Item a{ vf_u64("a") }; std::set<Item> m; m.insert(a); write_errors(m, a.good()); write_errors(std::tuple<Item, int>(a, 2), a.good()); vf_reach("end"); }
VF_HARNESS h_write_pointer() { Item a{ vf_u64("a") }; auto u = std::make_unique<Item>(a); write_errors(u, a.good()); std::vector<std::shared_ptr<Item>> s(2); s[0] = std::make_shared<Item>(a); s[1] = s[0]; write_errors(s, a.good()); vf_reach("end"); }
VF_HARNESS h_write_variant() { Item a{ vf_u64("a") }; std::variant<bool, Item> v(a); write_errors(v, a.good()); std::variant<bool, double> w(vf_double("d")); write_errors(w, std::isfinite(std::get<1>(w))); vf_reach("end"); }
VF_HARNESS h_write_plain() { write_errors(std::string("text"), true); write_errors(true, true); write_errors(Tone::high, true); write_errors(Plain::b, true); write_errors(nullptr, true); vf_reach("end"); }
