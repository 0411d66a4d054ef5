#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":["include/persistence/"+f for f in files],
       "mechanism":[{"name":n,"where":"include/persistence/"+w} for n,w in mech],
       "observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"include/persistence/"+w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

prop("C01","Base64 encoding is the canonical RFC 4648 text for every byte sequence",
 "For every byte sequence of every length (including empty), Base64 encoding succeeds and the text is exactly the RFC 4648 standard-alphabet encoding with '=' padding, whatever the output string held before. Only bytes inside the sequence are read, and decoding the text gives back exactly the original bytes.",
 ["inputs"],"every byte sequence of every length","The tests encode a handful of ASCII strings; the property is over every length residue, every position relative to the word-at-a-time fast path and every byte value, and over reads past the end that a test without a guard page cannot see.",
 ["base64.hpp","write_bytes.hpp","serialize_bytes.hpp"],
 [("word-at-a-time loop, triplet loop, padded tail","base64.hpp:base64_encode"),("encode_triplet / encode_sextet_*","base64.hpp"),("base64_decode","base64.hpp")],
 ["return value and output string of the encoder","JSON string emitted for a byte vector"])
prop("C02","Base64 decoding accepts exactly well-formed text and yields exact bytes",
 "Decoding a text succeeds if and only if its length is a multiple of four and every character belongs to the standard alphabet, except that the last one or the last two characters may be '='. On success the output is exactly the bytes denoted by the text (three per group, less the padding; leftover low bits of a padded group are ignored), whatever the output held before, and no memory outside the text and the output is touched on any input.",
 ["inputs"],"every byte string offered as Base64 text, of every length","Tests decode a few valid strings and very few malformed ones; acceptance is a statement about all 256 byte values at every position and every length.",
 ["base64.hpp","parse_bytes.hpp","deserialize_bytes.hpp"],
 [("quadruplet loop and padding cases","base64.hpp:base64_decode"),("decode_quadruplet, decode_table","base64.hpp")],
 ["return value and output bytes of the decoder","success or failure of reading a byte vector from JSON"])
prop("C03","Numbers are read exactly or refused, never silently altered",
 "Reading a JSON number into any integer type (or an enumeration stored as its integer) succeeds, in both reading modes, if and only if it is written as an integer and lies within the range of the type, and the stored value is then that integer. Reading a number into a floating-point type never stores a non-finite value, and stores the number's double value converted to the target type.",
 ["inputs"],"every JSON number and every arithmetic target type, streaming parser and DOM","Tests sample a few in-range values and one or two overflows per type; the boundary is different for every pair of source and target width and sign.",
 ["deserialize_fundamental.hpp","parse_fundamental.hpp","detail/numeric_traits.hpp","number.hpp","parse_enum.hpp","deserialize_enum.hpp","parse_vector.hpp","parse_set.hpp"],
 [("is_assignable","detail/numeric_traits.hpp"),("check_range","deserialize_fundamental.hpp"),("JsonNumberValueParser","parse_fundamental.hpp"),("JsonNumberArrayParser / number set parser","parse_vector.hpp, parse_set.hpp")],
 ["result of parse and deserialize for arithmetic targets, alone and inside vectors and sets"])
prop("C04","Scalars are written as exactly the value they hold",
 "For every value of a boolean, null, integer, enumeration or string type, text output and DOM output carry exactly that value (sign, magnitude, every character including embedded NUL), independent of the C++ width of the type. A finite floating-point value is emitted with exactly its value, and NaN or an infinity is refused in both output modes.",
 ["inputs"],"every value of every scalar type, both output modes","Tests write a few small numbers and strings; extremes of each width, negative zero, subnormals, NULs and the non-finite values are only reachable by quantifying over values.",
 ["write_fundamental.hpp","serialize_fundamental.hpp","write_string.hpp","serialize_string.hpp","write_enum.hpp","serialize_enum.hpp","write.hpp","utility.hpp"],
 [("Json*IntegerWriter / Json*IntegerSerializer","write_fundamental.hpp, serialize_fundamental.hpp"),("JsonFloatWriter / JsonFloatSerializer","write_fundamental.hpp, serialize_fundamental.hpp"),("string writers","write_string.hpp, serialize_string.hpp")],
 ["text produced by write_to_string, DOM produced by serialize_to_document"])
prop("C05","A part that cannot be written makes the whole output fail",
 "If any value nested anywhere inside the object being written (member, optional, container element, map value, tuple item, pointee, variant alternative) cannot be represented, the whole write or DOM serialization reports failure: it returns false or throws, and never produces output with that part missing. If every nested value can be represented, it succeeds.",
 ["inputs","programs"],"every nesting of supported types and every position of the failing value, both output modes","Tests only write representable values; the failing part can sit at any position of any composite.",
 ["write_object.hpp","serialize_object.hpp","write_vector.hpp","serialize_vector.hpp","write_array.hpp","serialize_array.hpp","write_set.hpp","serialize_set.hpp","write_map.hpp","serialize_map.hpp","write_tuple.hpp","serialize_tuple.hpp","write_pointer.hpp","serialize_pointer.hpp","write_variant.hpp","serialize_variant.hpp","write.hpp","serialize.hpp"],
 [("sticky result of object writers","write_object.hpp, serialize_object.hpp"),("early return in container writers","write_vector.hpp and siblings")],
 ["return value or exception of write_to_string / serialize_to_document"])
prop("C06","Reading reports success only if every part was read",
 "Reading from a DOM succeeds if and only if the JSON has the expected shape, every required object member is present, and every member, element and nested value that is present could itself be read; one failing part anywhere makes the whole read fail whatever follows it. In the streaming parser a nested value that cannot be read likewise makes the whole parse fail.",
 ["inputs","programs"],"every nesting of supported types and every position of the part that fails or is missing","Tests exercise single failures, mostly in the last position and with exceptions enabled; losing an earlier failure needs a failing part followed by good ones.",
 ["deserialize_object.hpp","deserialize_vector.hpp","deserialize_array.hpp","deserialize_set.hpp","deserialize_map.hpp","deserialize_tuple.hpp","deserialize_pointer.hpp","deserialize_check.hpp","deserialize.hpp","parse_object.hpp","parse_base.hpp"],
 [("result accumulation over members","deserialize_object.hpp"),("check_array / check_object / check_size","deserialize_check.hpp"),("handlers returning false","parse_base.hpp")],
 ["return value or exception of deserialize and parse"])
prop("C07","Containers are read back with exact length, order, keys and values",
 "When reading a JSON array or object into an empty sequence, fixed-size array, pair, tuple, set, dictionary, optional or owning pointer succeeds, the result holds exactly the values read from each element, each in the position, slot or key it came from, with none lost, duplicated or reordered. Fixed-size targets accept exactly their own number of elements, and reading from a DOM replaces what a container held before.",
 ["inputs","programs"],"every length, every element type, every key (including empty and with embedded NUL), both reading modes","Tests read a few short containers; positions, lengths and keys are unbounded.",
 ["deserialize_vector.hpp","deserialize_array.hpp","deserialize_set.hpp","deserialize_map.hpp","deserialize_tuple.hpp","parse_vector.hpp","parse_array.hpp","parse_set.hpp","parse_map.hpp","parse_pointer.hpp","parse_object.hpp"],
 [("element loops","deserialize_vector.hpp and siblings"),("JsonFixedArrayParser","parse_array.hpp"),("JsonMapParser","parse_map.hpp"),("JsonSetParser storage","parse_set.hpp")],
 ["contents of the populated container"])
prop("C08","Containers and objects are written completely and in order",
 "Writing a container, tuple, dictionary or class object emits one well-formed JSON array or object holding each element once, in iteration or declaration order, each dictionary value under exactly its own key and each member under its declared name, and leaving out exactly the members that are empty optionals. Text output and DOM output describe the same JSON value.",
 ["inputs","programs"],"every container length, key, member list and pattern of empty optionals, both output modes","Tests compare a few fixed strings; order, completeness and pairing of keys with values are claims over every length and every key.",
 ["write_vector.hpp","write_array.hpp","write_set.hpp","write_map.hpp","write_tuple.hpp","write_object.hpp","write_pointer.hpp","write_variant.hpp","serialize_vector.hpp","serialize_array.hpp","serialize_set.hpp","serialize_map.hpp","serialize_tuple.hpp","serialize_object.hpp","serialize_pointer.hpp","serialize_variant.hpp"],
 [("start/element/end event sequence","write_*.hpp"),("PushBack / AddMember loops","serialize_*.hpp")],
 ["event sequence reaching the JSON writer","DOM tree produced"])
prop("C09","Shared objects are written once and restored as one shared object",
 "When the same shared object is reachable several times, the first occurrence is written in full and every later one as a back-reference whose JSON Pointer names exactly the place of the first occurrence; distinct objects are never merged. Reading such a DOM makes every back-reference share the one object read at that place, and a back-reference that names no previously read shared object is reported as a failure.",
 ["inputs","histories"],"every sequence of shared-pointer occurrences at any place in the object graph (acyclic, non-null)","Tests use one small graph; which occurrences alias which, and at what path, is a history over the whole traversal.",
 ["write_pointer.hpp","serialize_pointer.hpp","deserialize_pointer.hpp","detail/references.hpp","detail/output_context.hpp","detail/deserialize_context.hpp","write_set.hpp","serialize_set.hpp","detail/path.hpp"],
 [("ReferenceTable put/get","detail/references.hpp"),("context chain segments()","detail/output_context.hpp, detail/deserialize_context.hpp"),("$ref emission and resolution","write_pointer.hpp, serialize_pointer.hpp, deserialize_pointer.hpp")],
 ["$ref strings in the output","pointer identity after reading"],
 [("references","objects already written or read, with their place","detail/references.hpp")])
prop("C10","Reported locations are exact JSON Pointers to the offending value",
 "When reading from a DOM throws, the location it carries is the RFC 6901 JSON Pointer of the offending value: one token per enclosing object or array from the root down, object keys with '~' and '/' escaped, array positions in plain decimal, and '/' alone for the whole document. Resolving the pointer against the document yields the offending value (the object itself when a required member is missing).",
 ["inputs","programs"],"every nesting depth, key and index at which an error can occur","Tests check two or three locations with plain keys; keys with special characters or empty keys, long indexes and deep nesting are unbounded.",
 ["detail/path.hpp","detail/segment.hpp","detail/deserialize_context.hpp","deserialize_check.hpp","deserialize_object.hpp","deserialize_map.hpp","deserialize_vector.hpp","deserialize_array.hpp","deserialize_set.hpp","deserialize_tuple.hpp"],
 [("Path::str","detail/path.hpp"),("DeserializerContext::segments","detail/deserialize_context.hpp"),("context pushed per element/member","deserialize_*.hpp")],
 ["path member and message of the thrown deserialization error"])
prop("C11","Dates and times: exactly the valid texts, exact instants, exact text back",
 "A date-time text is accepted if and only if it has the form YYYY-MM-DDTHH:MM:SSZ (or a blank for T) and names a real calendar date and time of day whose instant the time type can hold; it then denotes exactly that UTC instant, and analogously for YYYY-MM-DD dates. Formatting an instant or date within the representable range yields the unique zero-padded text that parses back to it, truncated to whole seconds.",
 ["inputs"],"every text, and every instant at one-second resolution in the representable range","Tests check a dozen dates; leap years, month lengths, range limits and digit padding are claims over every date.",
 ["datetime.hpp","parse_datetime.hpp","deserialize_datetime.hpp","write_datetime.hpp","serialize_datetime.hpp","parse_date.hpp","deserialize_date.hpp","write_date.hpp","serialize_date.hpp"],
 [("parse_date, parse_datetime, from_digits","datetime.hpp"),("is_valid_date, is_leap_year","datetime.hpp"),("to_iso_date, to_iso_datetime, AlignedDigitWriter","datetime.hpp")],
 ["result of reading and writing time points and calendar dates"])
prop("C12","Each object key reaches exactly the member declared under that name",
 "When a class object is read, a key populates the member declared under exactly that name and no other member, whatever the number, length and similarity of the names, for any order of keys. A key that names no member is refused by the streaming parser and ignored when reading from a DOM.",
 ["inputs","programs"],"every key string and every list of distinct member names","Tests use a few structs and keys; the name lookup hashes arbitrary keys, so a wrong hit needs a key chosen against the table.",
 ["parse_object.hpp","deserialize_object.hpp","detail/perfect_hash.hpp","detail/bitset.hpp","object_members.hpp","object_reflection.hpp","detail/make_array.hpp"],
 [("PerfectHash::index followed by name comparison","parse_object.hpp, detail/perfect_hash.hpp"),("visit_at","parse_object.hpp"),("find_object_member","deserialize_object.hpp")],
 ["which member changes for which key"])
prop("C13","The parser's handler stack stays in bounds and strictly last-in first-out",
 "For every history of pushes and pops, each object constructed on the parser's internal stack lies wholly inside the stack's own storage without overlapping a live one, the top is always the most recently pushed live object, and every object is destroyed exactly once, on pop or with the stack. A push that does not fit, and a pop of an empty stack, are refused with an exception and leave the stack as it was.",
 ["histories","inputs"],"every sequence of push and pop operations with objects of any size","Tests push a few objects; running out of bytes or slots depends on the accumulated sizes of a whole history.",
 ["detail/polymorphic_stack.hpp","parse_base.hpp"],
 [("emplace / pop / back / destructor","detail/polymorphic_stack.hpp"),("ReaderContext emplace/pop/replace","parse_base.hpp")],
 ["addresses and lifetimes of handlers, exceptions raised"],
 [("memory, items, count, current, next","bump-allocated storage and saved tops","detail/polymorphic_stack.hpp")])
prop("C14","The streaming parser and the DOM reader agree",
 "For every JSON text without repeated object keys and every type both modes support: if the streaming parser accepts the text and the text supplies every required member, then reading it through a DOM succeeds too and gives an equal object. Conversely the parser accepts every text the DOM reader accepts, provided the text has no object keys unknown to the type, no back-references, no integer beyond the exact integer range of a floating-point target, and nests within the parser's capacity.",
 ["inputs","programs"],"every JSON text and every target type supported by both modes","Tests run both modes on the same few documents; agreement is over all documents and all compositions of types.",
 ["parse_base.hpp","parse_object.hpp","parse_vector.hpp","parse_array.hpp","parse_set.hpp","parse_map.hpp","parse_enum.hpp","parse_pointer.hpp","parse_fundamental.hpp","parse.hpp","deserialize.hpp"],
 [("handler transition per JSON event","parse_*.hpp"),("recursive DOM readers","deserialize_*.hpp")],
 ["accept/reject and resulting object of both modes"])
prop("C15","Boolean interfaces never throw; value interfaces throw documented errors only",
 "For every input text or DOM and every supported type, the functions that fill a caller's object or string report failure by returning false and let no exception escape. The functions that return a value either return it or throw exactly the documented error kinds: a parse error (with the offset) for malformed or unacceptable text, a deserialization error (with the location) for a DOM that does not fit, a serialization error for an object that cannot be written.",
 ["inputs","programs"],"every input, well-formed or not, of any nesting depth","Tests check a few malformed inputs; any exception type escaping on any input breaks it.",
 ["parse.hpp","deserialize.hpp","write.hpp","serialize.hpp","exception.hpp","parse_base.hpp","detail/polymorphic_stack.hpp","deserialize_pointer.hpp"],
 [("result to exception translation","parse.hpp, deserialize.hpp, write.hpp, serialize.hpp"),("Exception template flag","deserialize_*.hpp")],
 ["exceptions escaping the public functions"])
prop("C16","Enumeration names and values correspond one to one",
 "An enumeration with string names is written as exactly the name declared for its value, and a JSON string is accepted if and only if it equals a declared name in full, yielding the value declared for it; every other string or JSON type is refused and writing then reading gives back the value. This holds in both reading modes, at top level and nested in any container or object, for names from a traits class and from reflection metadata.",
 ["inputs","programs"],"every string (prefixes, extensions, embedded NUL, wrong case) and every declared value, in every enclosing type","Tests read a few valid names at top level; near-miss names and enclosing contexts are unbounded.",
 ["enum.hpp","enum_utility.hpp","parse_enum.hpp","deserialize_enum.hpp","write_enum.hpp","serialize_enum.hpp"],
 [("EnumConverter::to_string / from_string","enum_utility.hpp"),("JsonEnumParser, JsonEnumDeserializer, JsonEnumWriter","parse_enum.hpp, deserialize_enum.hpp, write_enum.hpp")],
 ["accept/reject and value read; string written"])
prop("C17","Variants read as the first alternative that fits",
 "Reading a variant from a DOM stores the first listed alternative that can by itself be read successfully from the JSON value, holding exactly what that alternative reads, and fails if and only if no alternative can be read. An alternative that fails part-way leaves no trace in the result, and writing a variant emits exactly what its stored alternative emits.",
 ["inputs","programs"],"every JSON value and every list of alternatives","Tests use one variant with scalar alternatives; first-match with partially fitting composite alternatives needs all JSON values.",
 ["deserialize_variant.hpp","write_variant.hpp","serialize_variant.hpp"],
 [("left-to-right fold over alternatives","deserialize_variant.hpp"),("std::visit dispatch","write_variant.hpp, serialize_variant.hpp")],
 ["index and value of the variant after reading; output of writing"])
prop("C18","Operations are independent: no hidden state, inputs unchanged",
 "Writing or serializing an object leaves the object and everything reachable from it unchanged, and reading leaves the source text or DOM unchanged (apart from the overloads that consume their text). The outcome of every call is a function of its arguments alone, so no call is affected by calls before it or running beside it.",
 ["inputs","histories","schedules"],"every object, every document and every sequence or interleaving of calls","Tests run single calls in sequence; an effect on shared or static state shows only for particular histories or schedules.",
 ["write.hpp","serialize.hpp","parse.hpp","deserialize.hpp","datetime.hpp","parse_object.hpp","detail/output_context.hpp"],
 [("all state in per-call contexts","detail/output_context.hpp, detail/deserialize_context.hpp, parse_base.hpp"),("calendar conversion","datetime.hpp"),("static name tables","parse_object.hpp")],
 ["memory written by each public function"])
prop("C19","The generated JSON schema describes exactly what the reader accepts",
 "For every class type, the generated schema lists exactly the declared members with the JSON type each is written as, requires exactly the members whose absence the reader refuses, and gives each integer type its exact range.",
 ["programs"],"every class type that can be declared","The quantifier is over programs (types); each test pins one type.",
 ["schema.hpp","schema_utility.hpp"],
 [("schema writers per type","schema.hpp")],["schema document text"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
