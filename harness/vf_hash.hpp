// Verifier only: the compiled functions of libstdc++'s hashed containers, which have no source in the headers. Any
// deterministic hash function and any bucket policy satisfy their contract; simple ones are used.
#pragma once
#include <unordered_map>
#ifdef VF_IR
namespace std {
__attribute__((weak)) size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    size_t h = seed;
    for (size_t i = 0; i < n; ++i) h = h * 31 + static_cast<const unsigned char*>(p)[i];
    return h;
}
namespace __detail {
__attribute__((weak)) size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = 13; while (k < n) k = 2 * k + 1; _M_next_resize = k; return k; }
__attribute__((weak)) pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > _M_next_resize) return { true, _M_next_bkt(2 * (elt + ins)) };
    return { false, 0 };
}
}
}
#endif
