// The JSON tokens written through a StringWriter. Verifier: the ghost token log of the contract of rapidjson::Writer.
// Native: the text in the buffer, parsed back.
#pragma once
#include "vf.hpp"
#include "persistence/persistence.hpp"
#include <rapidjson/reader.h>
enum : std::uint64_t { TK_NULL = 1, TK_BOOL, TK_INT, TK_NEG, TK_DOUBLE, TK_STRING, TK_KEY, TK_OBJ, TK_OBJ_END, TK_ARR, TK_ARR_END };
extern "C" {
std::uint64_t vf_log_count(const void* writer);
std::uint64_t vf_log_kind(const void* writer, std::uint64_t i);
std::uint64_t vf_log_value(const void* writer, std::uint64_t i);       // magnitude, bool, or bits of the double
std::uint64_t vf_log_length(const void* writer, std::uint64_t i);      // of a string or key
unsigned char vf_log_byte(const void* writer, std::uint64_t i, std::uint64_t j);
// loop-invariant hint: token i is expected to be (kind, value)
void vf_track_log(const void* writer, std::uint64_t i, std::uint64_t kind, std::uint64_t value);
}
#ifdef VF_IR
struct Log
{
    const void* w;
    Log(persistence::StringWriter& writer, rapidjson::StringBuffer&) : w(&writer) {}
    std::uint64_t count() const { return vf_log_count(w); }
    std::uint64_t kind(std::uint64_t i) const { return vf_log_kind(w, i); }
    std::uint64_t value(std::uint64_t i) const { return vf_log_value(w, i); }
    std::uint64_t length(std::uint64_t i) const { return vf_log_length(w, i); }
    unsigned char byte(std::uint64_t i, std::uint64_t j) const { return vf_log_byte(w, i, j); }
    bool well_formed() const { return true; }
};
#else
#include <cstring>
struct Log
{
    struct Token { std::uint64_t kind, value; std::string text; };
    std::vector<Token> tokens;
    bool ok;
    // parse events
    bool Null() { return add(TK_NULL, 0); }
    bool Bool(bool b) { return add(TK_BOOL, b); }
    bool Int(int i) { return Int64(i); }
    bool Uint(unsigned u) { return add(TK_INT, u); }
    bool Int64(std::int64_t i) { return i < 0 ? add(TK_NEG, std::uint64_t(0) - std::uint64_t(i)) : add(TK_INT, std::uint64_t(i)); }
    bool Uint64(std::uint64_t u) { return add(TK_INT, u); }
    bool Double(double d) { std::uint64_t u; std::memcpy(&u, &d, 8); return add(TK_DOUBLE, u); }
    bool RawNumber(const char*, rapidjson::SizeType, bool) { return false; }
    bool String(const char* s, rapidjson::SizeType n, bool) { return add(TK_STRING, 0, std::string(s, n)); }
    bool Key(const char* s, rapidjson::SizeType n, bool) { return add(TK_KEY, 0, std::string(s, n)); }
    bool StartObject() { return add(TK_OBJ, 0); }
    bool EndObject(rapidjson::SizeType) { return add(TK_OBJ_END, 0); }
    bool StartArray() { return add(TK_ARR, 0); }
    bool EndArray(rapidjson::SizeType) { return add(TK_ARR_END, 0); }
    bool add(std::uint64_t k, std::uint64_t v, std::string t = {}) { tokens.push_back({k, v, std::move(t)}); return true; }
    Log(persistence::StringWriter&, rapidjson::StringBuffer& buffer)
    {
        std::string text(buffer.GetString(), buffer.GetSize());
        rapidjson::MemoryStream ms(text.data(), text.size());
        rapidjson::Reader reader;
        ok = !reader.Parse<rapidjson::kParseFullPrecisionFlag>(ms, *this).IsError();
    }
    std::uint64_t count() const { return tokens.size(); }
    std::uint64_t kind(std::uint64_t i) const { return i < tokens.size() ? tokens[i].kind : 0; }
    std::uint64_t value(std::uint64_t i) const { return i < tokens.size() ? tokens[i].value : 0; }
    std::uint64_t length(std::uint64_t i) const { return i < tokens.size() ? tokens[i].text.size() : ~std::uint64_t(0); }
    unsigned char byte(std::uint64_t i, std::uint64_t j) const { return i < tokens.size() && j < tokens[i].text.size() ? (unsigned char)tokens[i].text[j] : 0; }
    bool well_formed() const { return ok; }
};
#endif
