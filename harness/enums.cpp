// C16: enumeration names and values correspond one to one
#include "vf_common.hpp"
#include "persistence/enum_utility.hpp"
#include "persistence/object.hpp"
#include <boost/describe/enum.hpp>
enum class Named { one = 1, two = -7, three = 300, four = 4, none = 0 };
enum class Tiny : unsigned char { lo = 0, hi = 255 };
enum class Lengthy : short { p = 1, q = 2, r = -3 };
enum class Described { a = 3, ab, b = -2, longer_name = 70000, A = 5 };
BOOST_DESCRIBE_ENUM(Described, a, ab, b, longer_name, A)
namespace persistence {
    template<> struct enum_traits<Named>
    {
        static constexpr auto converter = make_enum_converter({ make_enum(Named::one, "one"), make_enum(Named::two, "on"), make_enum(Named::three, "onee"), make_enum(Named::four, "ONE"), make_enum(Named::none, "") });
        static std::string_view to_string(Named v) { return converter.to_string(v); }
        static bool from_string(const std::string_view& s, Named& v) { return converter.from_string(s, v); }
    };
    template<> struct enum_traits<Tiny>
    {
        static constexpr auto converter = make_enum_converter({ make_enum(Tiny::lo, std::string_view("x\0y", 3)), make_enum(Tiny::hi, "x") });
        static std::string_view to_string(Tiny v) { return converter.to_string(v); }
        static bool from_string(const std::string_view& s, Tiny& v) { return converter.from_string(s, v); }
    };
    template<> struct enum_traits<Lengthy>
    {
        static constexpr auto converter = make_enum_converter({ make_enum(Lengthy::p, "a name of more than twenty characters: 1"), make_enum(Lengthy::q, "a name of more than twenty characters: 2"), make_enum(Lengthy::r, "a name of more than twenty characters: 22") });
        static std::string_view to_string(Lengthy v) { return converter.to_string(v); }
        static bool from_string(const std::string_view& s, Lengthy& v) { return converter.from_string(s, v); }
    };
}
template<typename E> struct Names;
template<> struct Names<Lengthy> { static constexpr int N = 3; static constexpr const char* word[3] = { "a name of more than twenty characters: 1", "a name of more than twenty characters: 2", "a name of more than twenty characters: 22" }; static constexpr int len[3] = { 40, 40, 41 }; static constexpr Lengthy val[3] = { Lengthy::p, Lengthy::q, Lengthy::r }; };
template<> struct Names<Named> { static constexpr int N = 5; static constexpr const char* word[5] = { "one", "on", "onee", "ONE", "" }; static constexpr int len[5] = { 3, 2, 4, 3, 0 }; static constexpr Named val[5] = { Named::one, Named::two, Named::three, Named::four, Named::none }; };
template<> struct Names<Tiny> { static constexpr int N = 2; static constexpr const char* word[2] = { "x\0y", "x" }; static constexpr int len[2] = { 3, 1 }; static constexpr Tiny val[2] = { Tiny::lo, Tiny::hi }; };
template<> struct Names<Described> { static constexpr int N = 5; static constexpr const char* word[5] = { "a", "ab", "b", "longer_name", "A" }; static constexpr int len[5] = { 1, 2, 1, 11, 1 }; static constexpr Described val[5] = { Described::a, Described::ab, Described::b, Described::longer_name, Described::A }; };

template<typename E> static int index_of(const std::string& text)          // specification: which declared name is it, in full
{
    for (int k = 0; k < Names<E>::N; ++k) {
        if (text.size() != std::size_t(Names<E>::len[k])) continue;
        bool same = true;
        for (int i = 0; i < Names<E>::len[k]; ++i) same = same & (text[i] == Names<E>::word[k][i]);
        if (same) return k;
    }
    return -1;
}
template<typename E, bool X> static void dom_read()
{
    std::string text; vf_text_like("text", &text, 1u << 30, Names<E>::word, Names<E>::N);
    E before = E(vf_u64("before")); E value = before;
    Dom dom;
    rapidjson::Value json(rapidjson::StringRef(text.data(), rapidjson::SizeType(text.size())));
    bool ok = read_dom<X>(json, value, dom.context);
    int k = index_of<E>(text);
    vf_assert(ok == (k >= 0), "DOM: a string is accepted if and only if it is a declared name in full");
    if (ok) { vf_assert(value == Names<E>::val[k], "DOM: the value declared for the name"); vf_reach("accepted"); }
    else vf_reach("refused");
}
template<typename E> static void sax_read()
{
    std::string text; vf_text_like("text", &text, 1u << 30, Names<E>::word, Names<E>::N);
    E value = E(vf_u64("before"));
    Sax sax; sax.start(value);
    bool ok = sax.str(text);
    int k = index_of<E>(text);
    vf_assert(ok == (k >= 0), "parser: a string is accepted if and only if it is a declared name in full");
    if (ok) { vf_assert(value == Names<E>::val[k], "parser: the value declared for the name"); vf_assert(sax.idle(), "parser: the handler leaves the stack"); vf_reach("accepted"); }
    else vf_reach("refused");
}
template<typename E> static void other_types()
{
    std::uint64_t kind = vf_size("kind", 8), bits = vf_u64("bits");
    E value = E(vf_u64("before"));
    Dom dom; rapidjson::Value json;
    switch (kind) {
        case 0: json.SetNull(); break;
        case 1: json.SetBool(bits & 1); break;
        case 2: json.SetInt64(std::int64_t(bits)); break;
        case 3: json.SetUint64(bits); break;
        case 4: json.SetDouble(double(std::int64_t(bits))); break;
        case 5: json.SetArray(); break;
        case 6: json.SetObject(); break;
        case 7: json.SetInt(int(bits)); break;
        default: json.SetUint(unsigned(bits)); break;
    }
    vf_assert(!read_dom<false>(json, value, dom.context), "DOM: every other JSON type is refused");
    vf_assert(!read_dom<true>(json, value, dom.context), "DOM: every other JSON type is refused (throwing form)");
    Sax sax; sax.start(value);
    bool ok;
    switch (kind) {
        case 0: ok = sax.d.Null(); break;
        case 1: ok = sax.d.Bool(bits & 1); break;
        case 2: ok = sax.d.Int64(std::int64_t(bits)); break;
        case 3: ok = sax.d.Uint64(bits); break;
        case 4: ok = sax.d.Double(double(std::int64_t(bits))); break;
        case 5: ok = sax.d.StartArray(); break;
        case 6: ok = sax.d.StartObject(); break;
        case 7: ok = sax.d.Int(int(bits)); break;
        default: ok = sax.d.Uint(unsigned(bits)); break;
    }
    vf_assert(!ok, "parser: every other JSON type is refused");
    vf_reach("other");
}
template<typename E> static bool token_is(const Log& log, int i, int k)
{
    if (log.kind(i) != TK_STRING || log.length(i) != std::uint64_t(Names<E>::len[k])) return false;
    bool same = true;
    for (int j = 0; j < Names<E>::len[k]; ++j) same = same & (log.byte(i, j) == (unsigned char)Names<E>::word[k][j]);
    return same;
}
template<typename E> static bool value_is(const rapidjson::Value& json, int k)
{
    if (!json.IsString() || json.GetStringLength() != rapidjson::SizeType(Names<E>::len[k])) return false;
    bool same = true;
    for (int j = 0; j < Names<E>::len[k]; ++j) same = same & (json.GetString()[j] == Names<E>::word[k][j]);
    return same;
}
template<typename E> static void write_read()
{
    for (int k = 0; k < Names<E>::N; ++k) {
        E value = Names<E>::val[k];
        Txt txt; vf_assert(serialize(value, txt.writer, txt.context), "text: a declared value can be written");
        Log log(txt.writer, txt.buffer);
        vf_assert(log.count() == 1 && token_is<E>(log, 0, k), "text: exactly the name declared for the value");
        Ser ser; rapidjson::Value json; vf_assert(serialize(value, json, ser.context), "DOM: a declared value can be written");
        vf_assert(value_is<E>(json, k), "DOM: exactly the name declared for the value");
        Dom dom; E back = Names<E>::val[(k + 1) % Names<E>::N];
        vf_assert(read_dom<false>(json, back, dom.context) && back == value, "writing then reading gives back the value");
    }
    vf_reach("written");
}
template<typename E> struct Holder { E first; E second; std::optional<E> opt; std::vector<E> vec; };
template<typename E> static std::string_view word(std::uint64_t k) { return k < std::uint64_t(Names<E>::N) ? std::string_view(Names<E>::word[k], Names<E>::len[k]) : std::string_view("?", 1); }
template<typename E> static rapidjson::Value jword(std::uint64_t k) { auto w = word<E>(k); return rapidjson::Value(rapidjson::StringRef(w.data(), rapidjson::SizeType(w.size()))); }
template<typename E> static void nested_sax()
{
    std::uint64_t a = vf_size("a", Names<E>::N), b = vf_size("b", Names<E>::N);
    const std::uint64_t N = Names<E>::N;
    bool good = a < N && b < N;
    {
        std::vector<E> v; Sax s; s.start(v);
        bool ok = s.d.StartArray() && s.str(word<E>(a)) && s.str(word<E>(b)) && s.d.EndArray(2);
        vf_assert(ok == good, "parser, vector: accepted if and only if every string is a declared name");
        if (ok) vf_assert(v.size() == 2 && v[0] == Names<E>::val[a] && v[1] == Names<E>::val[b] && s.idle(), "parser, vector: the declared values in order");
    }
    {
        std::array<E, 2> v; Sax s; s.start(v);
        bool ok = s.d.StartArray() && s.str(word<E>(a)) && s.str(word<E>(b)) && s.d.EndArray(2);
        vf_assert(ok == good, "parser, array: accepted if and only if every string is a declared name");
        if (ok) vf_assert(v[0] == Names<E>::val[a] && v[1] == Names<E>::val[b] && s.idle(), "parser, array: the declared values in order");
    }
    {
        std::pair<E, std::optional<E>> v; Sax s; s.start(v);
        bool ok = s.d.StartArray() && s.str(word<E>(a)) && s.str(word<E>(b)) && s.d.EndArray(2);
        vf_assert(ok == good, "parser, pair: accepted if and only if every string is a declared name");
        if (ok) vf_assert(v.first == Names<E>::val[a] && v.second && *v.second == Names<E>::val[b] && s.idle(), "parser, pair: the declared values in order");
    }
    {
        std::unique_ptr<E> v; Sax s; s.start(v);
        bool ok = s.str(word<E>(a));
        vf_assert(ok == (a < N), "parser, pointer: accepted if and only if the string is a declared name");
        if (ok) vf_assert(v && *v == Names<E>::val[a] && s.idle(), "parser, pointer: the declared value");
    }
    {
        std::map<std::string, E> v; Sax s; s.start(v);
        bool ok = s.d.StartObject() && s.key("p") && s.str(word<E>(a)) && s.key("q") && s.str(word<E>(b)) && s.d.EndObject(2);
        vf_assert(ok == good, "parser, map: accepted if and only if every string is a declared name");
        if (ok) vf_assert(v.size() == 2 && v.at("p") == Names<E>::val[a] && v.at("q") == Names<E>::val[b] && s.idle(), "parser, map: the declared values");
    }
    vf_reach("nested");
}
template<typename E> static void nested_dom()
{
    std::uint64_t a = vf_size("a", Names<E>::N), b = vf_size("b", Names<E>::N);
    const std::uint64_t N = Names<E>::N;
    bool good = a < N && b < N;
    Dom dom;
    rapidjson::Value arr(rapidjson::kArrayType); arr.PushBack(jword<E>(a), dom.alloc()); arr.PushBack(jword<E>(b), dom.alloc());
    {
        std::vector<E> v; bool ok = read_dom<false>(arr, v, dom.context);
        vf_assert(ok == good, "DOM, vector: accepted if and only if every string is a declared name");
        if (ok) vf_assert(v.size() == 2 && v[0] == Names<E>::val[a] && v[1] == Names<E>::val[b], "DOM, vector: the declared values in order");
    }
    {
        std::tuple<E, E> v; bool ok = read_dom<false>(arr, v, dom.context);
        vf_assert(ok == good, "DOM, tuple: accepted if and only if every string is a declared name");
        if (ok) vf_assert(std::get<0>(v) == Names<E>::val[a] && std::get<1>(v) == Names<E>::val[b], "DOM, tuple: the declared values in order");
    }
    {
        std::set<E> v; bool ok = read_dom<false>(arr, v, dom.context);
        vf_assert(ok == good, "DOM, set: accepted if and only if every string is a declared name");
        if (ok) vf_assert(v.size() == (a == b ? 1u : 2u) && v.count(Names<E>::val[a]) == 1 && v.count(Names<E>::val[b]) == 1, "DOM, set: the declared values");
    }
    {
        rapidjson::Value obj(rapidjson::kObjectType); obj.AddMember("p", jword<E>(a), dom.alloc()); obj.AddMember("q", jword<E>(b), dom.alloc());
        std::map<std::string, E> v; bool ok = read_dom<false>(obj, v, dom.context);
        vf_assert(ok == good, "DOM, map: accepted if and only if every string is a declared name");
        if (ok) vf_assert(v.size() == 2 && v.at("p") == Names<E>::val[a] && v.at("q") == Names<E>::val[b], "DOM, map: the declared values");
    }
    {
        std::unique_ptr<E> v; bool ok = read_dom<false>(jword<E>(a), v, dom.context);
        vf_assert(ok == (a < N), "DOM, pointer: accepted if and only if the string is a declared name");
        if (ok) vf_assert(v && *v == Names<E>::val[a], "DOM, pointer: the declared value");
    }
    vf_reach("nested");
}
template<typename E> static void nested_write()
{
    std::uint64_t a = vf_size("a", Names<E>::N - 1), b = vf_size("b", Names<E>::N - 1);
    std::vector<E> v; v.push_back(Names<E>::val[a]); v.push_back(Names<E>::val[b]);
    Txt txt; vf_assert(serialize(v, txt.writer, txt.context), "text: a vector of declared values can be written");
    Log log(txt.writer, txt.buffer);
    vf_assert(log.count() == 4 && log.kind(0) == TK_ARR && token_is<E>(log, 1, int(a)) && token_is<E>(log, 2, int(b)) && log.kind(3) == TK_ARR_END, "text, vector: exactly the declared names in order");
    Ser ser; rapidjson::Value json; vf_assert(serialize(v, json, ser.context), "DOM: a vector of declared values can be written");
    vf_assert(json.IsArray() && json.Size() == 2 && value_is<E>(json[0], int(a)) && value_is<E>(json[1], int(b)), "DOM, vector: exactly the declared names in order");
    vf_reach("nested");
}
#define ENUM(name, E) \
    VF_HARNESS h_dom_##name() { dom_read<E, false>(); } \
    VF_HARNESS h_domx_##name() { dom_read<E, true>(); } \
    VF_HARNESS h_sax_##name() { sax_read<E>(); } \
    VF_HARNESS h_other_##name() { other_types<E>(); } \
    VF_HARNESS h_write_##name() { write_read<E>(); } \
    VF_HARNESS h_nsax_##name() { nested_sax<E>(); } \
    VF_HARNESS h_ndom_##name() { nested_dom<E>(); } \
    VF_HARNESS h_nwrite_##name() { nested_write<E>(); }
ENUM(named, Named) ENUM(tiny, Tiny) ENUM(described, Described) ENUM(lengthy, Lengthy)
