// C11: dates and times
#include "vf_expect.hpp"
#include "persistence/datetime.hpp"
#include "persistence/parse_date.hpp"
#include "persistence/write_date.hpp"
#include "persistence/serialize_date.hpp"
#include "persistence/deserialize_date.hpp"
using std::chrono::year_month_day;
extern "C" {
std::int64_t vf_posix(int y, int m, int d, int h, int mi, int s);     // seconds from 1970-01-01T00:00:00Z to that date and time
void vf_civil(std::int64_t t, int* f);                               // the date and time of day t seconds after it
}
#ifndef VF_IR
// by counting days year by year and month by month: no formula in common with the code or the C library
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int days_of(int y, int m) { return m == 2 ? (leap(y) ? 29 : 28) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
std::int64_t vf_posix(int y, int m, int d, int h, int mi, int s)
{
    std::int64_t n = d - 1;
    for (int k = 1970; k < y; ++k) n += leap(k) ? 366 : 365;
    for (int k = y; k < 1970; ++k) n -= leap(k) ? 366 : 365;
    for (int k = 1; k < m; ++k) n += days_of(y, k);
    return n * 86400 + h * 3600 + mi * 60 + s;
}
void vf_civil(std::int64_t t, int* f)
{
    std::int64_t n = t / 86400, r = t % 86400;
    if (r < 0) { r += 86400; --n; }
    int y = 1970, m = 1;
    while (n < 0) { --y; n += leap(y) ? 366 : 365; }
    while (n >= (leap(y) ? 366 : 365)) { n -= leap(y) ? 366 : 365; ++y; }
    while (n >= days_of(y, m)) { n -= days_of(y, m); ++m; }
    f[0] = y; f[1] = m; f[2] = int(n) + 1; f[3] = int(r / 3600); f[4] = int(r / 60 % 60); f[5] = int(r % 60);
}
#endif
// specification of the texts
static const char* const DATETIMES[] = { "1982-10-23T01:20:40Z", "1677-09-21T00:12:44Z", "2262-04-11T23:47:16Z", "2262-04-11T23:47:17Z", "2000-02-29T23:59:59Z", "1900-02-28 00:00:00Z", "2024-12-31T09:08:07Z", "2024-02-30T24:60:60Z", "1969-12-31T23:59:59Z", "1970-01-01T00:00:00Z", "0000-00-00T00:00:00Z", "2100-02-29T20:19:18Z", "9999-11-30T10:10:10Z", "2001-06-31T11:22:33Z", "1999-04-30 12:34:56Z", "2013-09-09T03:33:29Z", "1582-10-10T00:00:00Z", "1776-07-04T07:57:57Z", "1838-08-08T18:28:38Z" };
static const char* const DATES[] = { "1982-10-23", "1677-09-21", "1677-09-22", "2262-04-11", "2262-04-12", "2000-02-29", "1900-02-29", "2024-12-31", "2024-02-30", "1969-12-31", "1970-01-01", "0000-00-00", "2100-02-28", "9999-11-30", "2001-06-31", "1999-04-30", "2013-09-09", "1776-07-04", "1838-08-18" };
static constexpr std::uint64_t ND = sizeof DATETIMES / sizeof *DATETIMES;
static unsigned digit(char c) { return (unsigned char)(c - '0'); }
static bool two(const char* p, unsigned& v) { v = digit(p[0]) * 10 + digit(p[1]); return (digit(p[0]) <= 9) & (digit(p[1]) <= 9); }
static bool four(const char* p, unsigned& v)
{
    v = ((digit(p[0]) * 10 + digit(p[1])) * 10 + digit(p[2])) * 10 + digit(p[3]);
    return (digit(p[0]) <= 9) & (digit(p[1]) <= 9) & (digit(p[2]) <= 9) & (digit(p[3]) <= 9);
}
static bool real_date(unsigned y, unsigned m, unsigned d)
{
    bool lp = ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0);
    bool d31 = (m == 1) | (m == 3) | (m == 5) | (m == 7) | (m == 8) | (m == 10) | (m == 12), d30 = (m == 4) | (m == 6) | (m == 9) | (m == 11);
    return (d >= 1) & ((d31 & (d <= 31)) | (d30 & (d <= 30)) | ((m == 2) & ((d <= 28) | ((d == 29) & lp))));
}
static const std::int64_t FIRST = -9223372036, LAST = 9223372036;      // whole seconds a nanosecond clock of 64 bits can hold
// is it a date-time text, and of which instant; one answer, no branching
static bool spec_datetime(const char* p, std::size_t n, std::int64_t& sec)
{
    if (n != 20) return false;
    unsigned y, m, d, h, mi, s;
    bool form = four(p, y) & (p[4] == '-') & two(p + 5, m) & (p[7] == '-') & two(p + 8, d) & ((p[10] == 'T') | (p[10] == ' ')) & two(p + 11, h) & (p[13] == ':') & two(p + 14, mi) & (p[16] == ':') & two(p + 17, s) & (p[19] == 'Z');
    form = form & real_date(y, m, d) & (h < 24) & (mi < 60) & (s < 60);
    if (!form) return false;
    sec = vf_posix(int(y), int(m), int(d), int(h), int(mi), int(s));
    return (sec >= FIRST) & (sec <= LAST);
}
static bool spec_date(const char* p, std::size_t n, unsigned& y, unsigned& m, unsigned& d)
{
    if (n != 10) return false;
    bool form = four(p, y) & (p[4] == '-') & two(p + 5, m) & (p[7] == '-') & two(p + 8, d) & real_date(y, m, d);
    if (!form) return false;
    std::int64_t sec = vf_posix(int(y), int(m), int(d), 0, 0, 0);
    return (sec >= FIRST) & (sec <= LAST);
}
// any text: of the length of the form (len != 0), or of any other length
static std::string_view any_text(std::string& text, std::uint64_t len, const char* const* words)
{
#ifdef VF_IR
    if (len) return std::string_view(reinterpret_cast<const char*>(vf_bytes("text", len)), len);
    vf_text_like("text", &text, 1u << 30, words, ND);
    vf_assume(text.size() != std::strlen(words[0]));
#else
    vf_text_like("text", &text, 1u << 30, words, ND);
    if (len) vf_assume(text.size() == len);
#endif
    return text;
}
#define ACCEPT "a text is accepted if and only if it is a real date/time in the required form within the representable range"
template<int mode, typename T> static bool read_text(std::string_view text, T& value)
{
    if constexpr (mode == 0) { Sax sax; sax.start(value); bool ok = sax.str(text); if (ok) vf_assert(sax.idle(), "parser: the handler leaves the stack"); return ok; }
    else {
        Dom dom; rapidjson::Value json(rapidjson::StringRef(text.data(), rapidjson::SizeType(text.size())));
        return read_dom<mode == 2>(json, value, dom.context);
    }
}
template<int mode, int len> static void read_datetime()
{
    std::string store; std::string_view text = any_text(store, len, DATETIMES);
    timestamp value{};
    bool ok = read_text<mode>(text, value);
    std::int64_t sec = 0;
    bool good = spec_datetime(text.data(), text.size(), sec);
    vf_assert(ok == good, "date-time: " ACCEPT);
    if (ok) { vf_assert(value.time_since_epoch().count() == sec * 1000000000, "date-time: the text denotes exactly that UTC instant"); vf_reach("accepted"); }
    else vf_reach("refused");
}
VF_HARNESS h_datetime_sax() { read_datetime<0, 20>(); }
VF_HARNESS h_datetime_sax_other() { read_datetime<0, 0>(); }
VF_HARNESS h_datetime_dom() { read_datetime<1, 20>(); }
VF_HARNESS h_datetime_dom_other() { read_datetime<1, 0>(); }
VF_HARNESS h_datetime_domx() { read_datetime<2, 20>(); }
VF_HARNESS h_datetime_domx_other() { read_datetime<2, 0>(); }
template<int mode, int len> static void read_date()
{
    std::string store; std::string_view text = any_text(store, len, DATES);
    year_month_day value{};
    bool ok = read_text<mode>(text, value);
    unsigned y = 0, m = 0, d = 0;
    bool good = spec_date(text.data(), text.size(), y, m, d);
    vf_assert(ok == good, "date: " ACCEPT);
    if (ok) { vf_assert((int(value.year()) == int(y)) & (unsigned(value.month()) == m) & (unsigned(value.day()) == d), "date: exactly the date of the text"); vf_reach("accepted"); }
    else vf_reach("refused");
}
VF_HARNESS h_date_sax() { read_date<0, 10>(); }
VF_HARNESS h_date_sax_other() { read_date<0, 0>(); }
VF_HARNESS h_date_dom() { read_date<1, 10>(); }
VF_HARNESS h_date_dom_other() { read_date<1, 0>(); }
VF_HARNESS h_date_domx() { read_date<2, 10>(); }
VF_HARNESS h_date_domx_other() { read_date<2, 0>(); }
template<typename T> static void refuse_other()
{
    std::uint64_t kind = vf_choice("kind", 5), bits = vf_u64("bits");
    Dom dom; rapidjson::Value json; T v{}; Sax sax; sax.start(v);
    bool ok;
    switch (kind) {
        case 0: json.SetNull(); ok = sax.d.Null(); break;
        case 1: json.SetBool(bits & 1); ok = sax.d.Bool(bits & 1); break;
        case 2: json.SetInt64(std::int64_t(bits)); ok = sax.d.Int64(std::int64_t(bits)); break;
        case 3: json.SetUint64(bits); ok = sax.d.Uint64(bits); break;
        case 4: json.SetArray(); ok = sax.d.StartArray(); break;
        default: json.SetObject(); ok = sax.d.StartObject(); break;
    }
    vf_assert(!ok, "parser: every other JSON type is refused");
    vf_assert(!read_dom<false>(json, v, dom.context), "DOM: every other JSON type is refused");
    vf_assert(!read_dom<true>(json, v, dom.context), "DOM: every other JSON type is refused (throwing form)");
}
VF_HARNESS h_other_datetime() { refuse_other<timestamp>(); }
VF_HARNESS h_other_date() { refuse_other<year_month_day>(); }
// writing
template<typename G> static bool datetime_text(G at, const int* f, int n)
{
    const char* form = "0000-00-00T00:00:00Z";
    const int pos[6] = { 0, 5, 8, 11, 14, 17 };
    bool same = true;
    for (int j = 0; j < n; ++j) {
        int k = -1;
        for (int i = 0; i < 6; ++i) if (j >= pos[i] && j < pos[i] + (i ? 2 : 4)) k = i;
        if (k < 0) { same = same & (at(j) == (unsigned char)form[j]); continue; }
        int div = 1; for (int i = j + 1; i < pos[k] + (k ? 2 : 4); ++i) div *= 10;
        same = same & (at(j) == (unsigned char)('0' + f[k] / div % 10));
    }
    return same;
}
template<typename T> static void written(const T& value, const int* f, int n)
{
    {
        rapidjson::StringBuffer buffer; StringWriter writer(buffer);
        vf_assert(write_to_string(value, writer), "text: a date/time within the representable range can be written");
        Log log(writer, buffer);
        vf_assert(log.count() == 1 && log.kind(0) == TK_STRING && log.length(0) == std::uint64_t(n), "text: one string of the length of the form");
        vf_assert(datetime_text([&](int j) { return log.byte(0, j); }, f, n), "text: the zero-padded date/time of that instant, truncated to whole seconds");
    }
    {
        rapidjson::Document doc;
        vf_assert(serialize_to_document(value, doc), "DOM: a date/time within the representable range can be written");
        vf_assert(doc.IsString() && doc.GetStringLength() == unsigned(n), "DOM: one string of the length of the form");
        vf_assert(datetime_text([&](int j) { return (unsigned char)doc.GetString()[j]; }, f, n), "DOM: the zero-padded date/time of that instant, truncated to whole seconds");
    }
}
VF_HARNESS h_write_datetime()
{
    std::int64_t ns = std::int64_t(vf_u64("ns"));              // every value of the time type
    int f[6]; vf_civil(ns / 1000000000, f);
    written(timestamp(std::chrono::duration_cast<timestamp::duration>(std::chrono::nanoseconds(ns))), f, 20);
}
VF_HARNESS h_write_date()
{
    int f[6] = {};
    f[0] = int(1677 + (vf_u64("y") & 1023)); f[1] = int(vf_u64("m") & 15); f[2] = int(vf_u64("d") & 31);
    vf_assume((f[0] <= 2262) & real_date(unsigned(f[0]), unsigned(f[1]), unsigned(f[2])));
    std::int64_t sec = vf_posix(f[0], f[1], f[2], 0, 0, 0);
    vf_assume((sec >= FIRST) & (sec <= LAST));
    written(year_month_day(std::chrono::year(f[0]), std::chrono::month(unsigned(f[1])), std::chrono::day(unsigned(f[2]))), f, 10);
}
