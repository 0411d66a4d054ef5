// Expected JSON value as a token list; compared with the tokens written as text and with a DOM.
#pragma once
#include "vf_common.hpp"
struct Expect
{
    struct Tok { std::uint64_t kind, value; const char* text; std::uint64_t len; };
    Tok t[64]; std::uint64_t n = 0; bool events = false;
    Expect& add(std::uint64_t k, std::uint64_t v = 0, const char* s = nullptr, std::uint64_t l = 0) { t[n].kind = k; t[n].value = v; t[n].text = s; t[n].len = l; ++n; return *this; }
    Expect& num(std::uint64_t v) { return add(TK_INT, v); }
    Expect& real(double d) { std::uint64_t u; __builtin_memcpy(&u, &d, 8); return add(TK_DOUBLE, u); }
    Expect& boolean(bool b) { return add(TK_BOOL, b); }
    Expect& null() { return add(TK_NULL); }
    Expect& str(std::string_view s) { return add(TK_STRING, 0, s.data(), s.size()); }
    Expect& key(std::string_view s) { return add(TK_KEY, 0, s.data(), s.size()); }
    Expect& arr() { return add(TK_ARR); }
    Expect& end() { return add(TK_ARR_END); }
    Expect& obj() { return add(TK_OBJ); }
    Expect& eobj() { return add(TK_OBJ_END); }
};
template<typename F> static bool bytes_equal(std::uint64_t n, F f) { bool same = true; for (std::uint64_t j = 0; j < n; ++j) same = same & f(j); return same; }
static void match_text(const Log& log, const Expect& e)
{
    vf_assert(log.well_formed(), "[C05,C08] text: the output is well-formed JSON");
    vf_assert(log.count() == e.n, "[C08,C09,C17] text: exactly the expected tokens, none missing or added");
    for (std::uint64_t i = 0; i < e.n; ++i) {
        vf_assert(log.kind(i) == e.t[i].kind, "[C08,C09,C17] text: each token of the expected kind, in order");
        if (e.t[i].kind == TK_INT || e.t[i].kind == TK_NEG || e.t[i].kind == TK_BOOL || e.t[i].kind == TK_DOUBLE) vf_assert(log.value(i) == e.t[i].value, "[C08,C09,C17] text: each value in its place");
        if (e.t[i].kind == TK_STRING || e.t[i].kind == TK_KEY) {
            vf_assert(log.length(i) == e.t[i].len, "[C08,C09,C17] text: each key and string in its place (length)");
            vf_assert(bytes_equal(e.t[i].len, [&](std::uint64_t j) { return log.byte(i, j) == (unsigned char)e.t[i].text[j]; }), "[C08,C09,C17] text: each key and string in its place");
        }
    }
}
static void match_dom(const rapidjson::Value& json, const Expect& e, std::uint64_t& i)
{
    const Expect::Tok& t = e.t[i]; ++i;
    switch (t.kind) {
        case TK_INT: vf_assert(json.IsUint64() && json.GetUint64() == t.value, "[C08,C09,C17] DOM: each value in its place"); break;
        case TK_NEG: vf_assert(json.IsInt64() && json.GetInt64() == std::int64_t(std::uint64_t(0) - t.value), "[C08,C09,C17] DOM: each value in its place"); break;
        case TK_BOOL: vf_assert(json.IsBool() && json.GetBool() == (t.value != 0), "[C08,C09,C17] DOM: each boolean in its place"); break;
        case TK_NULL: vf_assert(json.IsNull(), "[C08,C09,C17] DOM: null in its place"); break;
        case TK_DOUBLE: { vf_assert(json.IsDouble(), "[C08,C09,C17] DOM: each number in its place"); double d = json.GetDouble(); std::uint64_t u; __builtin_memcpy(&u, &d, 8); vf_assert(u == t.value, "[C08,C09,C17] DOM: each number in its place"); break; }
        case TK_STRING:
            vf_assert(json.IsString() && json.GetStringLength() == t.len, "[C08,C09,C17] DOM: each string in its place (length)");
            vf_assert(bytes_equal(t.len, [&](std::uint64_t j) { return json.GetString()[j] == t.text[j]; }), "[C08,C09,C17] DOM: each string in its place"); break;
        case TK_ARR: {
            vf_assert(json.IsArray(), "[C08,C09,C17] DOM: an array in its place");
            for (auto it = json.Begin(); it != json.End(); ++it) {
                vf_assert(e.t[i].kind != TK_ARR_END, "[C08,C09,C17] DOM: no element is added");
                match_dom(*it, e, i);
            }
            vf_assert(e.t[i].kind == TK_ARR_END, "[C08,C09,C17] DOM: no element is missing"); ++i; break;
        }
        case TK_OBJ: {
            vf_assert(json.IsObject(), "[C08,C09,C17] DOM: an object in its place");
            for (auto it = json.MemberBegin(); it != json.MemberEnd(); ++it) {
                vf_assert(e.t[i].kind == TK_KEY, "[C08,C09,C17] DOM: no member is added");
                const Expect::Tok& k = e.t[i]; ++i;
                vf_assert(it->name.IsString() && it->name.GetStringLength() == k.len, "[C08,C09,C17] DOM: each member under exactly its own key (length)");
                vf_assert(bytes_equal(k.len, [&](std::uint64_t j) { return it->name.GetString()[j] == k.text[j]; }), "[C08,C09,C17] DOM: each member under exactly its own key");
                match_dom(it->value, e, i);
            }
            vf_assert(e.t[i].kind == TK_OBJ_END, "[C08,C09,C17] DOM: no member is missing"); ++i; break;
        }
        default: vf_assert(false, "harness error");
    }
}
// `value` must be written as exactly `e`, or refused as a whole when `good` is false
template<typename T> static void check_write(const T& value, const Expect& e, bool good)
{
    {
        rapidjson::StringBuffer buffer; StringWriter writer(buffer);
        bool ok = write_to_string(value, writer);
        vf_assert(ok == good, "[C05,C09,C17] text: succeeds if and only if every part can be written");
        if (ok) { Log log(writer, buffer); match_text(log, e); }
    }
    {
        rapidjson::Document doc;
        bool ok = serialize_to_document(value, doc);
        vf_assert(ok == good, "[C05,C09,C17] DOM: succeeds if and only if every part can be written");
        if (ok) { std::uint64_t i = 0; match_dom(doc, e, i); }
    }
    if (good) vf_reach("written"); else vf_reach("refused");
}
// An element type of the user's own: any 63-bit number; others can be neither written nor read.
struct Item { std::uint64_t v; bool operator<(const Item& o) const { return v < o.v; } bool good() const { return !(v >> 63); } };
namespace persistence {
    template<> struct JsonWriter<Item> { bool operator()(const Item& x, StringWriter& w) const { if (!x.good()) return false; w.Uint64(x.v); return true; } };
    template<> struct JsonSerializer<Item> { bool operator()(const Item& x, rapidjson::Value& json) const { if (!x.good()) return false; json.SetUint64(x.v); return true; } };
    template<bool Exception> struct JsonDeserializer<Exception, Item> : JsonContextAwareDeserializer
    {
        using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
        bool operator()(const rapidjson::Value& json, Item& x) const
        {
            if (!json.IsUint64() || (json.GetUint64() >> 63)) {
                if constexpr (Exception) throw JsonDeserializationError("not an item", Path(context.segments()).str());
                else return false;
            }
            x.v = json.GetUint64(); return true;
        }
    };
    template<> struct JsonParser<Item> : JsonParseHandler<JsonValueNumber>
    {
        using json_type = JsonValueNumber;
        JsonParser(ReaderContext& context, Item& ref) : JsonParseHandler(context), ref(ref) {}
        bool take(std::uint64_t v) { if (v >> 63) return false; ref.v = v; context.pop(); return true; }
        using JsonParseHandler<JsonValueNumber>::parse;
        bool parse(const JsonValueInteger& x) override { return x.value >= 0 && take(std::uint64_t(x.value)); }
        bool parse(const JsonValueUnsigned& x) override { return take(x.value); }
        bool parse(const JsonValueInteger64& x) override { return x.value >= 0 && take(std::uint64_t(x.value)); }
        bool parse(const JsonValueUnsigned64& x) override { return take(x.value); }
        Item& ref;
    };
}
