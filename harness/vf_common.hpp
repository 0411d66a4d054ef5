// Shared set-up of the composite harnesses.
#pragma once
#include "vf.hpp"
#include "vf_log.hpp"
#include "persistence/persistence.hpp"
#include "persistence/deserialize.hpp"
#include "persistence/parse.hpp"
#include "persistence/write.hpp"
#include "persistence/serialize.hpp"
#include "persistence/deserialize_all.hpp"
#include "persistence/parse_all.hpp"
#include "persistence/write_all.hpp"
#include "persistence/serialize_all.hpp"
extern "C" {
// any text (all contents, all lengths up to max); natively drawn near the n given words
void vf_text_like(const char* name, std::string* s, std::uint64_t max, const char* const* words, std::uint64_t n);
}
#include "vf_rbtree.hpp"
using namespace persistence;

struct Sax                      // the streaming parser's handler machinery, fed event by event
{
    JsonParseEventDispatcher d;
    ReaderContext context;
    Sax() : d(), context(d) {}
    template<typename T> void start(T& value) { context.template emplace<JsonParser<T>>(context, value); }
    bool str(std::string_view s) { return d.String(s.data(), rapidjson::SizeType(s.size()), true); }
    bool key(std::string_view s) { return d.Key(s.data(), rapidjson::SizeType(s.size()), true); }
    bool idle() const { return d.handler == nullptr; }
};
struct Dom
{
    rapidjson::Document doc;
    GlobalDeserializerContext global;
    DeserializerContext context;
    Dom() : doc(), global(doc), context(global) {}
    rapidjson::Document::AllocatorType& alloc() { return doc.GetAllocator(); }
};
struct Ser
{
    rapidjson::Document doc;
    GlobalSerializerContext global;
    SerializerContext context;
    Ser() : doc(), global(doc), context(global) {}
};
struct Txt
{
    rapidjson::StringBuffer buffer;
    StringWriter writer;
    WriterReferenceContext global;
    WriterContext context;
    Txt() : buffer(), writer(buffer), global(), context(global) {}
};
template<bool Exception, typename T> static bool read_dom(const rapidjson::Value& json, T& value, DeserializerContext& context)
{
    if constexpr (Exception) {
        try { return deserialize<true>(json, value, context); } catch (JsonDeserializationError&) { return false; }
    } else return deserialize<false>(json, value, context);
}
