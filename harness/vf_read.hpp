// Reads the JSON value described by a token list in every reading mode: from a DOM (boolean and throwing form), with
// the streaming parser fed the reader's events, and (natively) from text.
#pragma once
#include "vf_expect.hpp"
static rapidjson::Value build(const Expect& e, std::uint64_t& i, rapidjson::Document::AllocatorType& alloc)
{
    const Expect::Tok& t = e.t[i]; ++i;
    rapidjson::Value v;
    switch (t.kind) {
        case TK_INT: v.SetUint64(t.value); break;
        case TK_NEG: v.SetInt64(std::int64_t(std::uint64_t(0) - t.value)); break;
        case TK_BOOL: v.SetBool(t.value != 0); break;
        case TK_DOUBLE: { double d; __builtin_memcpy(&d, &t.value, 8); v.SetDouble(d); break; }
        case TK_STRING: v.SetString(rapidjson::StringRef(t.text, rapidjson::SizeType(t.len))); break;
        case TK_ARR: v.SetArray(); while (e.t[i].kind != TK_ARR_END) { rapidjson::Value x = build(e, i, alloc); v.PushBack(x, alloc); } ++i; break;
        case TK_OBJ: v.SetObject();
            while (e.t[i].kind != TK_OBJ_END) {
                rapidjson::Value k; k.SetString(rapidjson::StringRef(e.t[i].text, rapidjson::SizeType(e.t[i].len))); ++i;
                rapidjson::Value x = build(e, i, alloc); v.AddMember(k, x, alloc);
            }
            ++i; break;
        default: break;
    }
    return v;
}
static bool feed(const Expect& e, Sax& s, std::uint64_t from = 0)
{
    for (std::uint64_t i = from; i < e.n; ++i) {
        const Expect::Tok& t = e.t[i]; bool ok = true;
        switch (t.kind) {
            case TK_NULL: ok = s.d.Null(); break;
#ifdef VF_IR
            // which of Uint and Uint64 the reader chooses matters only to number parsers (e.events); Item takes both alike
            case TK_INT: ok = !e.events ? s.d.Uint64(t.value) : t.value <= 0xffffffffu ? s.d.Uint(unsigned(t.value)) : s.d.Uint64(t.value); break;
#else
            case TK_INT: ok = t.value <= 0xffffffffu ? s.d.Uint(unsigned(t.value)) : s.d.Uint64(t.value); break;
#endif
            case TK_NEG: ok = t.value <= 0x80000000u ? s.d.Int(int(std::uint64_t(0) - t.value)) : s.d.Int64(std::int64_t(std::uint64_t(0) - t.value)); break;
            case TK_BOOL: ok = s.d.Bool(t.value != 0); break;
            case TK_DOUBLE: { double d; __builtin_memcpy(&d, &t.value, 8); ok = s.d.Double(d); break; }
            case TK_STRING: ok = s.str(std::string_view(t.text, t.len)); break;
            case TK_KEY: ok = s.key(std::string_view(t.text, t.len)); break;
            case TK_OBJ: ok = s.d.StartObject(); break;
            case TK_OBJ_END: ok = s.d.EndObject(0); break;
            case TK_ARR: ok = s.d.StartArray(); break;
            case TK_ARR_END: ok = s.d.EndArray(0); break;
        }
        if (!ok) return false;
    }
    return true;
}
#ifndef VF_IR
#include <cstdio>
static std::string render(const Expect& e, std::uint64_t from = 0)        // independent JSON text of the token list
{
    std::string o; bool comma = false;
    auto quote = [&](const Expect::Tok& t) {
        o += '"';
        for (std::uint64_t j = 0; j < t.len; ++j) { unsigned char c = (unsigned char)t.text[j]; if (c < 32 || c == '"' || c == '\\') { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; } else o += char(c); }
        o += '"';
    };
    for (std::uint64_t i = from; i < e.n; ++i) {
        const Expect::Tok& t = e.t[i];
        bool close = t.kind == TK_ARR_END || t.kind == TK_OBJ_END;
        if (comma && !close) o += ',';
        comma = true;
        switch (t.kind) {
            case TK_NULL: o += "null"; break;
            case TK_INT: o += std::to_string(t.value); break;
            case TK_NEG: o += "-" + std::to_string(t.value); break;
            case TK_BOOL: o += t.value ? "true" : "false"; break;
            case TK_DOUBLE: { double d; __builtin_memcpy(&d, &t.value, 8); char b[40]; std::snprintf(b, 40, "%.17g", d); o += b; if (!std::strpbrk(b, ".e")) o += ".0"; break; }
            case TK_STRING: quote(t); break;
            case TK_KEY: quote(t); o += ':'; comma = false; break;
            case TK_OBJ: o += '{'; comma = false; break;
            case TK_ARR: o += '['; comma = false; break;
            case TK_OBJ_END: o += '}'; break;
            case TK_ARR_END: o += ']'; break;
        }
    }
    o.reserve(o.size() + 64);       // rapidjson's SIMD reader looks at whole aligned blocks
    return o;
}
#endif
template<typename T> static void put(rapidjson::Document& doc, const Expect& e, T) { std::uint64_t i = 0; rapidjson::Value v = build(e, i, doc.GetAllocator()); static_cast<rapidjson::Value&>(doc).Swap(v); }
enum : int { DOM = 1, SAX = 2, BOTH = 3 };
// `e` must be read into a T accepted by `check` if good, and be refused otherwise; `before` is what the target held
template<typename T, int modes, typename F, typename M> static void check_read_into(const Expect& e, bool good, M make, F check)
{
    if constexpr (modes & DOM) {
        rapidjson::Document doc; put(doc, e, 0);
        {
            T v; make(v);
            bool ok = deserialize(doc, v);
            vf_assert(ok == good, "[C06,C07,C09,C17] DOM: read succeeds if and only if every part can be read");
            if (ok) check(v);
        }
        {
            bool ok = false;
            try { T v = deserialize<T>(doc); ok = true; if (good) check(v); }
            catch (const JsonDeserializationError&) { ok = false; }
            vf_assert(ok == good, "[C06,C07,C09,C17] DOM: read succeeds if and only if every part can be read (throwing form)");
        }
    }
    if constexpr (modes & SAX) {
        T v; Sax s; s.start(v);
        bool ok = feed(e, s);
        vf_assert(ok == good, "[C06,C07] parser: parse succeeds if and only if every part can be read");
        if (ok) { vf_assert(s.idle(), "[C06,C13] parser: the handler stack is empty when the value is complete"); check(v); }
    }
#ifndef VF_IR
    {
        std::string text = render(e); 
        if constexpr (modes & DOM) { T v; make(v); bool ok = deserialize(text, v); vf_assert(ok == good, "[C06,C07,C09,C17] text via DOM: read succeeds if and only if every part can be read"); if (ok) check(v); }
        if constexpr (modes & SAX) { T v; bool ok = parse(text, v); vf_assert(ok == good, "[C06,C07] text, parser: parse succeeds if and only if every part can be read"); if (ok) check(v); }
    }
#endif
    if (good) vf_reach("accepted"); else vf_reach("refused");
}
template<typename T, int modes, typename F> static void check_read(const Expect& e, bool good, F check) { check_read_into<T, modes>(e, good, [](T&) {}, check); }
#define HOLDS(c) vf_assert(c, "[C07,C09,C12,C17] the target holds exactly the values read, each in its place")
// an element an Item can be read from, or one it cannot
static bool any_item(Expect& e, std::uint64_t& v)
{
    switch (vf_choice("kind", 2)) {
        case 0: v = vf_u64("v"); e.num(v); return !(v >> 63);
        case 1: e.str("x"); v = 0; return false;
        default: e.null(); v = 0; return false;
    }
}
// element i of a list of which element `bad` cannot be read
static void item_or_bad(Expect& e, std::uint64_t i, std::uint64_t bad, std::uint64_t v) { if (i == bad) e.str("no"); else e.num(v); }
#ifdef VF_IR      // one width class: how rapidjson flags small numbers does not matter to Item (all classes are in any_item, C03, C04)
static std::uint64_t good_value(const char* name) { std::uint64_t v = vf_u64(name); vf_assume(!(v >> 63) && (v >> 32)); return v; }
#else
static std::uint64_t good_value(const char* name) { return vf_u64(name) >> 1; }
#endif
static bool any_item2(Expect& e, std::uint64_t& v) { if (vf_choice("kind", 1) == 0) { v = vf_u64("v"); e.num(v); return !(v >> 63); } e.arr().end(); v = 0; return false; }
