"""Which harness functions and bounded drivers decide which property."""
INTS = 'char schar uchar short ushort int uint long ulong llong ullong enum_u8 enum_i16 enum_i32 enum_u64 float double'.split()
COMMON = ' Trusted: clang front end, the engine, z3, and the assumed contracts listed in the evidence.'
import os, re
def fns(*files, only='', drop=(), flag=None):
    """every harness function defined directly in these files"""
    out = []
    for f in files:
        src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', f)).read()
        out += [(f, n, flag) if flag else (f, n) for n in re.findall(r'^VF_HARNESS (h_\w+)\(', src, re.M) + ['h_%s_%s' % (n, m) for n in re.findall(r'^MODES\((\w+)\)', src, re.M) for m in ('write', 'read', 'back')] if only in n and n not in drop]
    return out
BOUNDED_SHAPES = 'Values are unbounded (every bit pattern); the container sizes and object shapes are the enumerated ones listed in the harness (up to 3 elements per level and 2 to 4 levels with every combination of failures, up to 20 elements with single failures).'
PROPS = {
    'C01': {'harness': [('base64.cpp', 'h_encode'), ('base64.cpp', 'h_roundtrip_group')],
            'note': 'Proved for every byte sequence of every length up to 2^40, unbounded loops by inductive invariants.' + COMMON},
    'C02': {'harness': [('base64.cpp', 'h_decode'), ('base64.cpp', 'h_decode_valid')],
            'note': 'Proved for every text of every length up to 2^40, unbounded loops by inductive invariants.' + COMMON},
    'C03': {'harness': [('numbers.cpp', 'h_%s_%s' % (m, t)) for t in reversed(INTS) for m in ('sax', 'dom', 'domx')],
            'note': 'Proved for every JSON value/event and every arithmetic type (and enumerations over four underlying types); the text-to-number conversion is rapidjson\'s.' + COMMON},
    'C04': {'harness': [('scalars.cpp', 'h_%s_%s' % (m, t)) for t in reversed(INTS) for m in ('text', 'dom')] + [('scalars.cpp', 'h_' + x) for x in 'text_bool_null dom_bool_null text_string text_view dom_string dom_view literal'.split()],
            'note': 'Proved for every value of 17 arithmetic/enumeration types, booleans, null, and strings of every content and length up to 2^31; how rapidjson renders a token as text is its contract (exercised natively by parsing the text back).' + COMMON},
    'C16': {'harness': [('enums.cpp', 'h_%s_%s' % (m, t)) for t in ('named', 'described', 'tiny', 'lengthy') for m in 'nsax ndom nwrite dom domx sax other write'.split()],
            'note': 'Proved for every text of every length and every other JSON value/event, for three traits-class enumerations (names that are prefixes of one another, empty, with NUL, long) and one reflected enumeration; nesting proved for two-element containers over every combination of declared and undeclared names.' + COMMON},
    'C05': {'harness': fns('cwrite.cpp') + fns('clong.cpp', only='h_long', drop=('h_long_map_read',)),
            'note': 'Proved for every element value (writable or not) at every position of 18 container/object shapes, both output modes. ' + BOUNDED_SHAPES + COMMON},
    'C06': {'harness': fns('cread.cpp', 'cobject.cpp', 'clong.cpp', drop=('h_long_map', 'h_long_dict')),
            'note': 'Proved for every combination of readable/unreadable/missing parts of 25 container/object shapes, DOM (boolean and throwing form) and streaming parser. ' + BOUNDED_SHAPES + COMMON},
    'C07': {'harness': fns('cread.cpp', 'cobject.cpp', 'clong.cpp', drop=('h_long_map', 'h_long_dict')),
            'note': 'Proved for every element value of 25 container/object shapes, DOM (into pre-filled targets) and streaming parser. ' + BOUNDED_SHAPES + COMMON},
    'C08': {'harness': fns('cwrite.cpp') + fns('clong.cpp', only='h_long', drop=('h_long_map_read',)),
            'note': 'Proved for every element value and every key text of 18 container/object shapes, both output modes. ' + BOUNDED_SHAPES + COMMON},
    'C09': {'harness': sorted(fns('refs.cpp'), key=lambda x: not any(y in x[1] for y in ('tree1', 'tree3', 'map', 'mixed', 'bad'))),
            'note': 'Proved for every order of the addresses of the objects and every value: every sequence of three occurrences of up to three objects, occurrences under awkward keys, in members (inherited, optional, renamed, default), lists, tuples, arrays, sets, variants, inside other shared objects; both output modes, reading, and reading back what was written; references to 13 places that hold no shared object and to places read as another type are refused. Object graphs without cycles and null pointers.' + COMMON},
    'C10': {'harness': sorted(fns('paths.cpp') + [('paths.cpp', 'h_leaf_' + x) for x in 'bool schar uchar short ushort int uint llong ullong float double text null tone level plain bytes date time'.split()], key=lambda x: x[1] not in ('h_key_long', 'h_deep', 'h_leaf_float', 'h_key4', 'h_set')),
            'note': 'Text of a location proved for every index of 64 bits, every key of up to four bytes (every byte value), special characters at ten places of a long key, chains of up to seven tokens; the location of errors proved for every position of each container kind (up to 12 elements, one of 102), every member of a class with inherited, optional, default, renamed, pointer and map members, missing members, wrong lengths, wrong kinds at each of six levels, unresolved references, variants, and every unfit JSON value of 19 leaf types.' + COMMON},
    'C11': {'harness': sorted(fns('dates.cpp'), key=lambda x: ('other' in x[1], 'datetime' not in x[1])),
            'note': 'Proved for every text (every byte sequence of the length of the form, and every other length), for every 64-bit instant and every date of the representable range when writing; both reading modes and both output modes. The calendar arithmetic itself (timegm, gmtime_r, std::chrono::year_month_day) is an assumed contract, checked natively against counting days one by one.' + COMMON},
    'C12': {'harness': sorted(fns('keys.cpp'), key=lambda x: 'k24' not in x[1] and 'k12' not in x[1]) + fns('cobject.cpp', only='order') + [('clong.cpp', 'h_long_object')],
            'note': 'Proved for seven classes of 1 to 24 members (names that are empty, prefixes of one another, of equal length, long, inherited, with special characters): every declared name reaches its member; every key text of every length that is accepted is a declared name in full and reaches that member; the hash of a key of unbounded length is abstracted. DOM: any unknown key of any length at three places is ignored and does not stand in for a member.' + COMMON},
    'C13': {'harness': fns('stack.cpp') + fns('stackstep.cpp', flag='aux') + fns('cread.cpp', 'cobject.cpp', only='sax'),
            'note': 'Induction step (each operation from any invariant-satisfying state) discharged at every fill level (multiples of 8) for six depths and every depth for three fill levels; interface-level: every history of five operations on a small instance (three slots, 160 bytes, five object kinds including one whose constructor throws), filling, draining and refilling the parser\'s instance with eight object sizes, one more object at every fill level of the last 376 bytes, and every history of five context operations.' + COMMON},
    'C14': {'harness': sorted(fns('agree.cpp'), key=lambda x: x[1] not in ('h_float', 'h_datetime', 'h_set_string', 'h_pair', 'h_map', 'h_many')),
            'note': 'Both readers run on the same JSON value, with no expected outcome stated: every non-composite JSON value (every integer, finite double, string of every content and length) against 20 leaf types, every text of any length against enumerations, dates, date-times (and four-character and sample base64 texts), lists of up to three elements of every kind against 28 container types, objects with every subset and order of fitting/unfitting members including inherited ones, nested compositions, and the wrong kind of value for eleven composite types. That rapidjson feeds the same events to a DOM and to a handler is its contract (exercised natively by reading text).' + COMMON},
    'C15': {'harness': sorted(fns('errors.cpp'), key=lambda x: x[1] not in ('h_reference', 'h_full', 'h_nested', 'h_real', 'h_variant_list', 'h_vector')),
            'note': 'Every public reading and writing function (boolean and value-returning; parse, deserialize from text, in situ and from a document, write and serialize to string, writer and document) on values of every kind against 20 leaf types, 14 container and object types, variants and references (valid, dangling, malformed), a syntax error of any code and offset after any number of events, nesting beyond the handler stack: exact outcome (value, false, error kind, offset), no other exception. rapidjson\'s reader is an assumed contract (it delivers the events of the text, stops at a refusal or a syntax error and reports code and offset); natively the replays run the real reader.' + COMMON},
    'C17': {'harness': sorted(fns('variants.cpp'), key=lambda x: x[1] != 'h_reals'),
            'note': 'Proved against reading each alternative by itself: every JSON scalar (every 64-bit integer, every finite double) against two scalar variants, lists of up to three parts and objects with every combination of present/fitting/unfitting members against three composite variants, nested variants, variants as elements and members; writing proved for every stored alternative and every value.' + COMMON},
}
NOT_APPLICABLE = {}
