// rapidjson's reader, as a contract. Verifier: the reader hands the events of a scripted JSON text to its handler, in order, and
// stops with an error at a place and of a kind of the script's choosing, or where the handler refuses an event. Native: the real
// reader reads the scripted text.
#pragma once
#include "vf_read.hpp"
struct Script
{
    const Expect* e = nullptr;
    std::uint64_t upto = ~std::uint64_t(0);      // events handed over before the text turns out to be malformed
    std::uint64_t code = 3, offset = 0;          // the syntax error
    std::uint64_t nest = 0;                      // this many levels of {"child": instead of e
    std::uint64_t sent = 0;
    bool refused = false;                        // set by the reader
};
static Script script;
#ifdef VF_IR
template<typename H> static bool play_value(H& h, std::uint64_t& i)
{
    const Expect& e = *script.e; const Expect::Tok& t = e.t[i]; bool ok = true;
    if (script.sent == script.upto) return false;
    ++script.sent; ++i;
    switch (t.kind) {
        case TK_NULL: ok = h.Null(); break;
        case TK_BOOL: ok = h.Bool(t.value != 0); break;
        case TK_INT: ok = t.value <= 0xffffffffu ? h.Uint(unsigned(t.value)) : h.Uint64(t.value); break;
        case TK_NEG: ok = t.value <= 0x80000000u ? h.Int(int(std::uint64_t(0) - t.value)) : h.Int64(std::int64_t(std::uint64_t(0) - t.value)); break;
        case TK_DOUBLE: { double d; __builtin_memcpy(&d, &t.value, 8); ok = h.Double(d); break; }
        case TK_STRING: ok = h.String(t.text, rapidjson::SizeType(t.len), true); break;
        case TK_ARR: {
            if (!h.StartArray()) { ok = false; break; }
            unsigned n = 0;
            while (e.t[i].kind != TK_ARR_END) { if (!play_value(h, i)) return false; ++n; }
            if (script.sent == script.upto) return false;
            ++script.sent; ++i; ok = h.EndArray(n); break;
        }
        case TK_OBJ: {
            if (!h.StartObject()) { ok = false; break; }
            unsigned n = 0;
            while (e.t[i].kind != TK_OBJ_END) {
                if (script.sent == script.upto) return false;
                const Expect::Tok& k = e.t[i];
                ++script.sent; ++i;
                if (!h.Key(k.text, rapidjson::SizeType(k.len), true)) { script.refused = true; return false; }
                if (!play_value(h, i)) return false;
                ++n;
            }
            if (script.sent == script.upto) return false;
            ++script.sent; ++i; ok = h.EndObject(n); break;
        }
        default: break;
    }
    if (!ok) script.refused = true;
    return ok;
}
template<typename H> static bool play_nest(H& h, std::uint64_t n)
{
    for (std::uint64_t k = 0; k < n; ++k) if (!h.StartObject() || !h.Key("child", 5, true)) { script.refused = true; return false; }
    if (!h.StartObject() || !h.EndObject(0)) { script.refused = true; return false; }
    for (std::uint64_t k = 0; k < n; ++k) if (!h.EndObject(1)) { script.refused = true; return false; }
    return true;
}
template<typename S, typename H> static rapidjson::ParseResult play(S& is, H& h)
{
    script.sent = 0; script.refused = false; std::uint64_t i = 0;
    is.src_ += script.offset;                    // where the reader is when it stops
    bool ok = script.nest ? play_nest(h, script.nest) : play_value(h, i);
    if (!ok) return rapidjson::ParseResult(script.refused ? rapidjson::kParseErrorTermination : rapidjson::ParseErrorCode(script.code), script.offset);
    if (script.sent == script.upto) return rapidjson::ParseResult(rapidjson::ParseErrorCode(script.code), script.offset);
    return rapidjson::ParseResult();
}
namespace rapidjson {
    template<> template<> inline ParseResult GenericReader<UTF8<>, UTF8<>, CrtAllocator>::Parse<kParseDefaultFlags, StringStream, persistence::JsonParseEventDispatcher>(StringStream& is, persistence::JsonParseEventDispatcher& h) { return play(is, h); }
    template<> template<> inline ParseResult GenericReader<UTF8<>, UTF8<>, CrtAllocator>::Parse<kParseDefaultFlags, StringStream, Document>(StringStream& is, Document& h) { return play(is, h); }
    template<> template<> inline ParseResult GenericReader<UTF8<>, UTF8<>, CrtAllocator>::Parse<kParseInsituFlag, InsituStringStream, Document>(InsituStringStream& is, Document& h) { return play(is, h); }
}
#endif
