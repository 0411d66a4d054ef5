// C03: numbers are read exactly or refused, in both reading modes, for every arithmetic type and every JSON value
#include "vf.hpp"
#include "persistence/persistence.hpp"
#include "persistence/deserialize.hpp"
#include "persistence/parse.hpp"
#include "persistence/deserialize_fundamental.hpp"
#include "persistence/parse_fundamental.hpp"
#include "persistence/deserialize_enum.hpp"
#include "persistence/parse_enum.hpp"
#include <cmath>
using namespace persistence;

struct Number                   // the JSON number denoted
{
    bool integer; bool negative; std::uint64_t magnitude; double d;
    double real() const { return !integer ? d : negative ? double(std::int64_t(0 - magnitude)) : double(magnitude); }
};
static std::uint64_t mag(std::int64_t v) { return v < 0 ? std::uint64_t(0) - std::uint64_t(v) : std::uint64_t(v); }

template<typename T, bool = std::is_enum_v<T>> struct Int { using type = T; };
template<typename T> struct Int<T, true> { using type = std::underlying_type_t<T>; };
template<typename T> static bool fits(bool negative, std::uint64_t magnitude)
{
    if (negative && magnitude != 0) {
        if (!std::numeric_limits<T>::is_signed) return false;
        return magnitude <= std::uint64_t(std::numeric_limits<T>::max()) + 1;
    }
    return magnitude <= std::uint64_t(std::numeric_limits<T>::max());
}
template<typename T> static bool equals(T v, bool negative, std::uint64_t magnitude)
{
    if (v < 0) return negative && std::uint64_t(0) - std::uint64_t(std::int64_t(v)) == magnitude;
    return (!negative || magnitude == 0) && std::uint64_t(v) == magnitude;
}
// any JSON value that is not composite, as the DOM represents it; false if it is not a number
static bool any_value(rapidjson::Value& json, Number& n)
{
    std::uint64_t kind = vf_size("kind", 9), bits = vf_u64("bits");
    double d = vf_double("real");
    vf_assume(std::isfinite(d));      // JSON numbers are finite
    n.integer = true; n.d = d;
    switch (kind) {
        case 0: json.SetInt(int(bits)); n.negative = int(bits) < 0; n.magnitude = mag(int(bits)); return true;
        case 1: json.SetUint(unsigned(bits)); n.negative = false; n.magnitude = unsigned(bits); return true;
        case 2: json.SetInt64(std::int64_t(bits)); n.negative = std::int64_t(bits) < 0; n.magnitude = mag(std::int64_t(bits)); return true;
        case 3: json.SetUint64(bits); n.negative = false; n.magnitude = bits; return true;
        case 4: json.SetDouble(d); n.integer = false; return true;
        case 5: json.SetNull(); return false;
        case 6: json.SetBool(bits & 1); return false;
        case 7: json.SetString("7", 1); return false;
        case 8: json.SetArray(); return false;
        default: json.SetObject(); return false;
    }
}
template<typename T, bool Exception> static void dom_integer()
{
    rapidjson::Document doc;
    GlobalDeserializerContext global(doc);
    DeserializerContext context(global);
    rapidjson::Value json; Number n;
    bool number = any_value(json, n);
    T value = T(vf_u64("before"));
    bool ok;
    if constexpr (Exception) {
        try { ok = deserialize<true>(json, value, context); } catch (JsonDeserializationError&) { ok = false; }
    } else ok = deserialize<false>(json, value, context);
    if (ok) {
        vf_assert(number && n.integer, "DOM: only a number written as an integer is accepted");
        vf_assert(fits<typename Int<T>::type>(n.negative, n.magnitude), "DOM: an accepted integer is in range");
        vf_assert(equals(typename Int<T>::type(value), n.negative, n.magnitude), "DOM: the stored value is the integer");
        vf_reach("accepted");
    } else {
        vf_assert(!(number && n.integer && fits<typename Int<T>::type>(n.negative, n.magnitude)), "DOM: an integer in range is not refused");
        vf_reach("refused");
    }
}
template<typename T, bool Exception> static void dom_real()
{
    rapidjson::Document doc;
    GlobalDeserializerContext global(doc);
    DeserializerContext context(global);
    rapidjson::Value json; Number n;
    bool number = any_value(json, n);
    T value = T(0);
    bool ok;
    if constexpr (Exception) {
        try { ok = deserialize<true>(json, value, context); } catch (JsonDeserializationError&) { ok = false; }
    } else ok = deserialize<false>(json, value, context);
    if (ok) {
        vf_assert(number, "DOM: only a number is read as a floating-point value");
        vf_assert(std::isfinite(value), "DOM: no non-finite value is stored");
        vf_assert(value == T(n.real()), "DOM: the stored value is the double value of the number converted");
        vf_reach("accepted");
    } else {
        vf_assert(!(number && n.real() >= double(std::numeric_limits<T>::lowest()) && n.real() <= double(std::numeric_limits<T>::max())), "DOM: a number within the finite range is not refused");
        vf_reach("refused");
    }
}
// one parse event of any kind against a freshly pushed parser
static bool any_event(JsonParseEventDispatcher& dispatcher, Number& n, bool& number)
{
    std::uint64_t kind = vf_size("kind", 11), bits = vf_u64("bits");
    double d = vf_double("real");
    vf_assume(std::isfinite(d));
    n.integer = true; n.d = d; number = true;
    switch (kind) {
        case 0: n.negative = int(bits) < 0; n.magnitude = mag(int(bits)); return dispatcher.Int(int(bits));
        case 1: n.negative = false; n.magnitude = unsigned(bits); return dispatcher.Uint(unsigned(bits));
        case 2: n.negative = std::int64_t(bits) < 0; n.magnitude = mag(std::int64_t(bits)); return dispatcher.Int64(std::int64_t(bits));
        case 3: n.negative = false; n.magnitude = bits; return dispatcher.Uint64(bits);
        case 4: n.integer = false; return dispatcher.Double(d);
        default: number = false; break;
    }
    switch (kind) {
        case 5: return dispatcher.Null();
        case 6: return dispatcher.Bool(bits & 1);
        case 7: return dispatcher.String("7", 1, true);
        case 8: return dispatcher.StartArray();
        case 9: return dispatcher.StartObject();
        case 10: return dispatcher.EndArray(0);
        default: return dispatcher.Key("7", 1, true);
    }
}
template<typename T> static void sax_integer()
{
    JsonParseEventDispatcher dispatcher;
    ReaderContext context(dispatcher);
    T value = T(vf_u64("before"));
    context.emplace<JsonParser<T>>(context, value);
    Number n; bool number;
    bool ok = any_event(dispatcher, n, number);
    if (ok) {
        vf_assert(number && n.integer, "parser: only a number written as an integer is accepted");
        vf_assert(fits<typename Int<T>::type>(n.negative, n.magnitude), "parser: an accepted integer is in range");
        vf_assert(equals(typename Int<T>::type(value), n.negative, n.magnitude), "parser: the stored value is the integer");
        vf_assert(dispatcher.handler == nullptr, "parser: the number handler leaves the stack");
        vf_reach("accepted");
    } else {
        vf_assert(!(number && n.integer && fits<typename Int<T>::type>(n.negative, n.magnitude)), "parser: an integer in range is not refused");
        vf_reach("refused");
    }
}
template<typename T> static void sax_real()
{
    JsonParseEventDispatcher dispatcher;
    ReaderContext context(dispatcher);
    T value = T(0);
    context.emplace<JsonParser<T>>(context, value);
    Number n; bool number;
    bool ok = any_event(dispatcher, n, number);
    if (ok) {
        vf_assert(number, "parser: only a number is read as a floating-point value");
        vf_assert(std::isfinite(value), "parser: no non-finite value is stored");
        vf_assert(value == T(n.real()), "parser: the stored value is the double value of the number converted");
        vf_reach("accepted");
    } else vf_reach("refused");
}
enum class EnumU8 : unsigned char { a = 1, b = 200 };
enum class EnumI16 : short { a = -1, b = 200 };
enum class EnumI32 : int { a = -1, b = 200 };
enum class EnumU64 : unsigned long { a = 1, b = 200 };
#define INTEGER(name, T) \
    VF_HARNESS h_dom_##name() { dom_integer<T, false>(); } \
    VF_HARNESS h_domx_##name() { dom_integer<T, true>(); } \
    VF_HARNESS h_sax_##name() { sax_integer<T>(); }
INTEGER(char, char) INTEGER(schar, signed char) INTEGER(uchar, unsigned char) INTEGER(short, short) INTEGER(ushort, unsigned short)
INTEGER(int, int) INTEGER(uint, unsigned int) INTEGER(long, long) INTEGER(ulong, unsigned long) INTEGER(llong, long long) INTEGER(ullong, unsigned long long)
INTEGER(enum_u8, EnumU8) INTEGER(enum_i16, EnumI16) INTEGER(enum_i32, EnumI32) INTEGER(enum_u64, EnumU64)
#define REAL(name, T) \
    VF_HARNESS h_dom_##name() { dom_real<T, false>(); } \
    VF_HARNESS h_domx_##name() { dom_real<T, true>(); } \
    VF_HARNESS h_sax_##name() { sax_real<T>(); }
REAL(float, float) REAL(double, double)
