#include "vf.hpp"
#include "persistence/persistence.hpp"
#include "persistence/base64.hpp"
using namespace persistence;
static const char ALPHABET[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

// C01: base64_encode(byte_view, string) produces the canonical RFC 4648 text
VF_HARNESS h_encode()
{
    std::uint64_t n = vf_size("n", VF_MAXLEN);
    const std::byte* in = reinterpret_cast<const std::byte*>(vf_bytes("in", n));
    std::string out;
    vf_any_string("before", &out, VF_MAXLEN);
    // group g (any), bytes that exist
    std::uint64_t full = n / 3, rest = n - 3 * full;
    std::uint64_t g = vf_size("g", VF_MAXLEN);
    if (g < full) {
        std::uint64_t a = std::uint64_t(in[3 * g]), b = std::uint64_t(in[3 * g + 1]), c = std::uint64_t(in[3 * g + 2]);
        vf_track(&out, 4 * g + 0, ALPHABET[a >> 2], 1);
        vf_track(&out, 4 * g + 1, ALPHABET[((a & 3) << 4) | (b >> 4)], 1);
        vf_track(&out, 4 * g + 2, ALPHABET[((b & 15) << 2) | (c >> 6)], 1);
        vf_track(&out, 4 * g + 3, ALPHABET[c & 63], 1);
    }
    bool ok = persistence::base64_encode(byte_view(in, n), out);
    vf_assert(ok, "encode: always succeeds");
    vf_assert(out.size() == 4 * (full + (rest != 0)), "encode: length is 4 characters per started group of 3 bytes");
    if (g < full) {
        std::uint64_t a = std::uint64_t(in[3 * g]), b = std::uint64_t(in[3 * g + 1]), c = std::uint64_t(in[3 * g + 2]);
        vf_assert(out[4 * g + 0] == ALPHABET[a >> 2], "encode: character 0 of every full group");
        vf_assert(out[4 * g + 1] == ALPHABET[((a & 3) << 4) | (b >> 4)], "encode: character 1 of every full group");
        vf_assert(out[4 * g + 2] == ALPHABET[((b & 15) << 2) | (c >> 6)], "encode: character 2 of every full group");
        vf_assert(out[4 * g + 3] == ALPHABET[c & 63], "encode: character 3 of every full group");
        vf_reach("full group");
    } else if (g == full && rest != 0) {
        std::uint64_t a = std::uint64_t(in[3 * g]), b = rest == 2 ? std::uint64_t(in[3 * g + 1]) : 0;
        vf_assert(out[4 * g + 0] == ALPHABET[a >> 2], "encode: character 0 of the last partial group");
        vf_assert(out[4 * g + 1] == ALPHABET[((a & 3) << 4) | (b >> 4)], "encode: character 1 of the last partial group");
        vf_assert(out[4 * g + 2] == (rest == 2 ? ALPHABET[(b & 15) << 2] : '='), "encode: character 2 of the last partial group");
        vf_assert(out[4 * g + 3] == '=', "encode: the last partial group ends in padding");
        vf_reach("partial group");
    }
}

// position of a character in the alphabet, or 255
#define R16(x) x,x,x,x,x,x,x,x,x,x,x,x,x,x,x,x
static const unsigned char VALUE[256] = {
    R16(255), R16(255),
    255,255,255,255,255,255,255,255,255,255,255,62,255,255,255,63,
    52,53,54,55,56,57,58,59,60,61,255,255,255,255,255,255,
    255,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,
    15,16,17,18,19,20,21,22,23,24,25,255,255,255,255,255,
    255,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,
    41,42,43,44,45,46,47,48,49,50,51,255,255,255,255,255,
    R16(255), R16(255), R16(255), R16(255), R16(255), R16(255), R16(255), R16(255)
};

// C02: success implies well-formed text and exact bytes; no other memory is touched
VF_HARNESS h_decode()
{
    std::uint64_t n = vf_size("n", VF_MAXLEN);
    const unsigned char* in = vf_bytes("text", n);
    byte_vector out;
    vf_any_byte_vector("before", &out, VF_MAXLEN);
    std::uint64_t groups = n / 4, rest = n - 4 * groups;
    std::uint64_t g = vf_size("g", VF_MAXLEN);
    if (g + 1 < groups) {
        unsigned a = VALUE[in[4 * g]], b = VALUE[in[4 * g + 1]], c = VALUE[in[4 * g + 2]], d = VALUE[in[4 * g + 3]];
        vf_track(&out, 3 * g + 0, (unsigned char)((a << 2) | (b >> 4)), 1);
        vf_track(&out, 3 * g + 1, (unsigned char)((b << 4) | (c >> 2)), 1);
        vf_track(&out, 3 * g + 2, (unsigned char)((c << 6) | d), 1);
        vf_track(nullptr, g, ((a | b | c | d) & 0xC0) == 0, 0);
    }
    bool ok = persistence::base64_decode(std::string_view(reinterpret_cast<const char*>(in), n), out);
    if (!ok) { vf_reach("refused"); return; }
    vf_assert(rest == 0, "decode: accepted length is a multiple of four");
    if (n == 0) { vf_assert(out.size() == 0, "decode: empty text denotes no bytes"); vf_reach("empty"); return; }
    std::uint64_t pad = 0;
    if (in[n - 1] == '=') pad = in[n - 2] == '=' ? 2 : 1;
    vf_assert(out.size() == 3 * groups - pad, "decode: length is three bytes per group less the padding");
    if (g + 1 < groups) {
        unsigned a = VALUE[in[4 * g]], b = VALUE[in[4 * g + 1]], c = VALUE[in[4 * g + 2]], d = VALUE[in[4 * g + 3]];
        vf_assert(((a | b | c | d) & 0xC0) == 0, "decode: every accepted character before the last group is in the alphabet");
        vf_assert(out[3 * g + 0] == std::byte((a << 2) | (b >> 4)), "decode: byte 0 of every group");
        vf_assert(out[3 * g + 1] == std::byte((b << 4) | (c >> 2)), "decode: byte 1 of every group");
        vf_assert(out[3 * g + 2] == std::byte((c << 6) | d), "decode: byte 2 of every group");
        vf_reach("inner group");
    } else if (g + 1 == groups) {
        unsigned a = VALUE[in[4 * g]], b = VALUE[in[4 * g + 1]];
        vf_assert(((a | b) & 0xC0) == 0, "decode: the first two characters of the last group are in the alphabet");
        vf_assert(out[3 * g + 0] == std::byte((a << 2) | (b >> 4)), "decode: byte 0 of the last group");
        if (pad < 2) {
            unsigned c = VALUE[in[4 * g + 2]];
            vf_assert((c & 0xC0) == 0, "decode: the third character of the last group is in the alphabet or padding");
            vf_assert(out[3 * g + 1] == std::byte((b << 4) | (c >> 2)), "decode: byte 1 of the last group");
            if (pad < 1) {
                unsigned d = VALUE[in[4 * g + 3]];
                vf_assert((d & 0xC0) == 0, "decode: the fourth character of the last group is in the alphabet or padding");
                vf_assert(out[3 * g + 2] == std::byte((c << 6) | d), "decode: byte 2 of the last group");
                vf_reach("no padding");
            } else vf_reach("one padding");
        } else vf_reach("two padding");
    }
}
// C02: every well-formed text is accepted
VF_HARNESS h_decode_valid()
{
    std::uint64_t groups = vf_size("groups", VF_MAXLEN);
    unsigned char* in = vf_bytes_over("text", 4 * groups, ALPHABET, 64);
    std::uint64_t pad = vf_size("pad", 2);
    if (groups > 0 && pad > 0) { in[4 * groups - 1] = '='; vf_reach("padded"); }
    if (groups > 0 && pad > 1) in[4 * groups - 2] = '=';
    byte_vector out;
    vf_any_byte_vector("before", &out, VF_MAXLEN);
    bool ok = persistence::base64_decode(std::string_view(reinterpret_cast<const char*>(in), 4 * groups), out);
    vf_assert(ok, "decode: every well-formed text is accepted");
    vf_reach("accepted");
}
// C01: the two contracts compose to the identity: for any group of 1..3 bytes the decoder's specification of the
// encoder's specification is the bytes themselves
VF_HARNESS h_roundtrip_group()
{
    unsigned char a = vf_u64("a"), b = vf_u64("b"), c = vf_u64("c");
    unsigned char w = VALUE[(unsigned char)ALPHABET[a >> 2]], x = VALUE[(unsigned char)ALPHABET[((a & 3) << 4) | (b >> 4)]];
    unsigned char y = VALUE[(unsigned char)ALPHABET[((b & 15) << 2) | (c >> 6)]], z = VALUE[(unsigned char)ALPHABET[c & 63]];
    vf_assert((unsigned char)((w << 2) | (x >> 4)) == a, "round trip: first byte");
    vf_assert((unsigned char)((x << 4) | (y >> 2)) == b, "round trip: second byte");
    vf_assert((unsigned char)((y << 6) | z) == c, "round trip: third byte");
    unsigned char y2 = VALUE[(unsigned char)ALPHABET[(b & 15) << 2]], x1 = VALUE[(unsigned char)ALPHABET[(a & 3) << 4]];
    vf_assert((unsigned char)((x << 4) | (y2 >> 2)) == b, "round trip: second byte of a group of two");
    vf_assert((unsigned char)((w << 2) | (x1 >> 4)) == a, "round trip: first byte of a group of one");
    vf_assert(((w | x | y | z | x1 | y2) & 0xC0) == 0, "round trip: the encoder emits alphabet characters only");
    vf_reach("round trip");
}
