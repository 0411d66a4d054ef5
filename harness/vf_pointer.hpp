#pragma once
#include "vf_expect.hpp"
// specification: the JSON Pointer (RFC 6901) of token `at` of the document
static void decimal(std::string& o, std::uint64_t k) { if (k > 9) decimal(o, k / 10); o.push_back(char('0' + k % 10)); }
static void escaped(std::string& o, const char* s, std::uint64_t n) { for (std::uint64_t j = 0; j < n; ++j) { if (s[j] == '~') { o.push_back('~'); o.push_back('0'); } else if (s[j] == '/') { o.push_back('~'); o.push_back('1'); } else o.push_back(s[j]); } }
static std::string pointer_of(const Expect& e, std::uint64_t at)
{
    std::uint64_t open[12], count[12], key[12]; int depth = 0;
    for (std::uint64_t i = 0; i <= at; ++i) {
        std::uint64_t k = e.t[i].kind;
        if (k == TK_ARR_END || k == TK_OBJ_END) { --depth; continue; }
        if (k == TK_KEY) { key[depth - 1] = i; continue; }
        if (depth && open[depth - 1] == TK_ARR) ++count[depth - 1];
        if (i < at && (k == TK_ARR || k == TK_OBJ)) { open[depth] = k; count[depth] = 0; ++depth; }
    }
    std::string o;
    if (depth == 0) o.push_back('/');
    for (int d = 0; d < depth; ++d) { o.push_back('/'); if (open[d] == TK_ARR) decimal(o, count[d] - 1); else escaped(o, e.t[key[d]].text, e.t[key[d]].len); }
    return o;
}
