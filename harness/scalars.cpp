// C04: scalars are written as exactly the value they hold, to text and to a DOM
#include "vf.hpp"
#include "vf_log.hpp"
#include "persistence/persistence.hpp"
#include "persistence/write.hpp"
#include "persistence/serialize.hpp"
#include "persistence/write_all.hpp"
#include "persistence/serialize_all.hpp"
#include <cmath>
#include <cstring>
using namespace persistence;

template<typename T, bool = std::is_enum_v<T>> struct Int { using type = T; };
template<typename T> struct Int<T, true> { using type = std::underlying_type_t<T>; };

template<typename T> static void text_integer()
{
    using I = typename Int<T>::type;
    T value = T(I(vf_u64("value")));
    rapidjson::StringBuffer buffer; StringWriter writer(buffer);
    WriterReferenceContext global; WriterContext context(global);
    vf_assert(serialize(value, writer, context), "text: an integer can always be written");
    Log log(writer, buffer);
    vf_assert(log.count() == 1, "text: exactly one token");
    I v = I(value);
    if (v < 0) {
        vf_assert(log.kind(0) == TK_NEG && log.value(0) == std::uint64_t(0) - std::uint64_t(std::int64_t(v)), "text: exactly the negative value");
        vf_reach("negative");
    } else {
        vf_assert(log.kind(0) == TK_INT && log.value(0) == std::uint64_t(v), "text: exactly the value");
        vf_reach("non-negative");
    }
}
template<typename T> static void dom_integer()
{
    using I = typename Int<T>::type;
    T value = T(I(vf_u64("value")));
    rapidjson::Document doc;
    GlobalSerializerContext global(doc); SerializerContext context(global);
    rapidjson::Value json;
    vf_assert(serialize(value, json, context), "DOM: an integer can always be written");
    I v = I(value);
    if (v < 0) {
        vf_assert(json.IsInt64() && json.GetInt64() == std::int64_t(v), "DOM: exactly the negative value");
        vf_reach("negative");
    } else {
        vf_assert(json.IsUint64() && json.GetUint64() == std::uint64_t(v), "DOM: exactly the value");
        vf_reach("non-negative");
    }
}
enum class EnumU8 : unsigned char { a = 1, b = 200 };
enum class EnumI16 : short { a = -1, b = 200 };
enum class EnumI32 : int { a = -1, b = 200 };
enum class EnumU64 : unsigned long { a = 1, b = 200 };
#define INTEGER(name, T) \
    VF_HARNESS h_dom_##name() { dom_integer<T>(); } \
    VF_HARNESS h_text_##name() { text_integer<T>(); }
INTEGER(char, char) INTEGER(schar, signed char) INTEGER(uchar, unsigned char) INTEGER(short, short) INTEGER(ushort, unsigned short)
INTEGER(int, int) INTEGER(uint, unsigned int) INTEGER(long, long) INTEGER(ulong, unsigned long) INTEGER(llong, long long) INTEGER(ullong, unsigned long long)
INTEGER(enum_u8, EnumU8) INTEGER(enum_i16, EnumI16) INTEGER(enum_i32, EnumI32) INTEGER(enum_u64, EnumU64)

template<typename T> static bool same(T a, double b)
{
    double d = a; std::uint64_t x, y;
    std::memcpy(&x, &d, 8); std::memcpy(&y, &b, 8);
    return x == y;
}
template<typename T> static T any_real()
{
    if constexpr (std::is_same_v<T, double>) return vf_double("value");
    else { std::uint32_t u = std::uint32_t(vf_u64("value")); float f; std::memcpy(&f, &u, 4); return f; }
}
template<typename T> static void text_real()
{
    T value = any_real<T>();
    rapidjson::StringBuffer buffer; StringWriter writer(buffer);
    WriterReferenceContext global; WriterContext context(global);
    bool ok = serialize(value, writer, context);
    vf_assert(ok == std::isfinite(value), "text: exactly the finite values are written");
    if (ok) {
        Log log(writer, buffer);
        vf_assert(log.count() == 1 && log.kind(0) == TK_DOUBLE, "text: exactly one number");
        std::uint64_t bits = log.value(0); double d; std::memcpy(&d, &bits, 8);
        vf_assert(same(value, d), "text: exactly the value");
        vf_reach("written");
    } else vf_reach("refused");
}
template<typename T> static void dom_real()
{
    T value = any_real<T>();
    rapidjson::Document doc;
    GlobalSerializerContext global(doc); SerializerContext context(global);
    rapidjson::Value json;
    bool ok = serialize(value, json, context);
    vf_assert(ok == std::isfinite(value), "DOM: exactly the finite values are written");
    if (ok) {
        vf_assert(json.IsNumber() && same(value, json.GetDouble()), "DOM: exactly the value");
        vf_reach("written");
    } else vf_reach("refused");
}
VF_HARNESS h_text_float() { text_real<float>(); }
VF_HARNESS h_text_double() { text_real<double>(); }
VF_HARNESS h_dom_float() { dom_real<float>(); }
VF_HARNESS h_dom_double() { dom_real<double>(); }

VF_HARNESS h_text_bool_null()
{
    bool value = vf_bool("value");
    rapidjson::StringBuffer buffer; StringWriter writer(buffer);
    WriterReferenceContext global; WriterContext context(global);
    if (vf_bool("null")) {
        vf_assert(serialize(nullptr, writer, context), "text: null can be written");
        Log log(writer, buffer);
        vf_assert(log.count() == 1 && log.kind(0) == TK_NULL, "text: exactly null");
    } else {
        vf_assert(serialize(value, writer, context), "text: a boolean can be written");
        Log log(writer, buffer);
        vf_assert(log.count() == 1 && log.kind(0) == TK_BOOL && log.value(0) == std::uint64_t(value), "text: exactly the boolean");
    }
}
VF_HARNESS h_dom_bool_null()
{
    bool value = vf_bool("value");
    rapidjson::Document doc;
    GlobalSerializerContext global(doc); SerializerContext context(global);
    rapidjson::Value json(5);
    if (vf_bool("null")) {
        vf_assert(serialize(nullptr, json, context), "DOM: null can be written");
        vf_assert(json.IsNull(), "DOM: exactly null");
    } else {
        vf_assert(serialize(value, json, context), "DOM: a boolean can be written");
        vf_assert(json.IsBool() && json.GetBool() == value, "DOM: exactly the boolean");
    }
}
// strings of every length and every content, embedded NUL included
#define MAXSTR (std::uint64_t(1) << 31)
template<bool View> static void text_string()
{
    std::string s; vf_any_string("s", &s, MAXSTR);
    std::uint64_t j = vf_size("j", MAXSTR);
    rapidjson::StringBuffer buffer; StringWriter writer(buffer);
    WriterReferenceContext global; WriterContext context(global);
    bool ok;
#ifndef VF_IR
    for (auto& c : s) c = char(c & 127);     // natively the text is parsed back as UTF-8
#endif
    if constexpr (View) { std::string_view v(s.data(), s.size()); ok = serialize(v, writer, context); }
    else ok = serialize(s, writer, context);
    vf_assert(ok, "text: a string can always be written");
    Log log(writer, buffer);
    vf_assert(log.count() == 1 && log.kind(0) == TK_STRING, "text: exactly one string");
    vf_assert(log.length(0) == s.size(), "text: the string keeps its length");
    if (j < s.size()) { vf_assert(log.byte(0, j) == (unsigned char)s[j], "text: the string keeps every character"); vf_reach("character"); }
}
VF_HARNESS h_text_string() { text_string<false>(); }
VF_HARNESS h_text_view() { text_string<true>(); }
template<bool View> static void dom_string()
{
    std::string s; vf_any_string("s", &s, MAXSTR);
    std::uint64_t j = vf_size("j", MAXSTR);
    rapidjson::Document doc;
    GlobalSerializerContext global(doc); SerializerContext context(global);
    rapidjson::Value json;
    bool ok;
    if constexpr (View) { std::string_view v(s.data(), s.size()); ok = serialize(v, json, context); }
    else ok = serialize(s, json, context);
    vf_assert(ok, "DOM: a string can always be written");
    vf_assert(json.IsString() && json.GetStringLength() == s.size(), "DOM: the string keeps its length");
    if (j < s.size()) { vf_assert((unsigned char)json.GetString()[j] == (unsigned char)s[j], "DOM: the string keeps every character"); vf_reach("character"); }
}
VF_HARNESS h_dom_string() { dom_string<false>(); }
VF_HARNESS h_dom_view() { dom_string<true>(); }
VF_HARNESS h_literal()
{
    const char lit[] = "a\0b~";
    rapidjson::StringBuffer buffer; StringWriter writer(buffer);
    WriterReferenceContext wglobal; WriterContext wcontext(wglobal);
    vf_assert(serialize(lit, writer, wcontext), "text: a literal can be written");
    Log log(writer, buffer);
    vf_assert(log.count() == 1 && log.kind(0) == TK_STRING && log.length(0) == 4 && log.byte(0, 0) == 'a' && log.byte(0, 1) == 0 && log.byte(0, 2) == 'b' && log.byte(0, 3) == '~', "text: exactly the literal");
    rapidjson::Document doc;
    GlobalSerializerContext global(doc); SerializerContext context(global);
    rapidjson::Value json;
    vf_assert(serialize(lit, json, context), "DOM: a literal can be written");
    vf_assert(json.IsString() && json.GetStringLength() == 4 && std::memcmp(json.GetString(), lit, 4) == 0, "DOM: exactly the literal");
}
