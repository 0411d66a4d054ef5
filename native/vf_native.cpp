// Native implementation of the specification interface: replays a countermodel, or draws inputs from a seeded generator.
#include "../harness/vf.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
#include <dlfcn.h>
#include <ctime>
struct VfSkip {};
namespace {
struct Input { std::string kind, name; std::uint64_t v; std::string bytes; };
std::vector<Input> used;                  // inputs of the current run
std::map<std::string, Input> tape;        // replay
std::map<std::pair<std::string, std::uint64_t>, std::uint64_t> fns, fntape;
bool replay = false;
std::mt19937_64 rng;
std::vector<void*> blocks;
std::map<std::string, int> occ;
const char* current = "";
std::uint64_t maxsize = 40;
std::string unique(const char* n) { int k = occ[n]++; return k ? std::string(n) + "." + std::to_string(k) : std::string(n); }
std::uint64_t interesting()
{
    switch (rng() % 8) {
        case 0: return rng() % 4;
        case 1: return rng() % 300;
        case 2: { unsigned s = rng() % 64; return (std::uint64_t(1) << s) + (rng() % 5) - 2; }
        case 3: { unsigned s = rng() % 64; return std::uint64_t(0) - ((std::uint64_t(1) << s) + (rng() % 5) - 2); }
        case 4: return std::uint64_t(0) - (rng() % 300);
        case 5: return rng() >> (rng() % 64);
        case 6: { static const double d[] = {0.0, -0.0, 1.0, 0.1, 1e300, -1e300, 1e-310, 3.5e38, 3.4028235677973366e38, 3.4028234663852886e38, 1e39, -1e39, 1.0 / 0.0, -1.0 / 0.0, 0.0 / 0.0, 4503599627370496.5, 9007199254740993.0, 1e-46};
                  std::uint64_t u; std::memcpy(&u, &d[rng() % (sizeof d / sizeof *d)], 8); return u; }
        default: return rng();
    }
}
void dump(std::ostream& o)
{
    for (auto& i : used) {
        if (i.kind == "bytes") { o << "bytes " << i.name << " "; for (unsigned char c : i.bytes) { char b[3]; std::snprintf(b, 3, "%02x", c); o << b; } o << "\n"; }
        else o << i.kind << " " << i.name << " " << i.v << "\n";
    }
    for (auto& f : fns) o << "fn " << f.first.first << " " << f.first.second << " " << f.second << "\n";
}
void report(const char* what)
{
    std::cout << "VF-FAIL " << current << ": " << what << "\n";
    dump(std::cout);
    std::cout.flush();
}
}
extern "C" void vf_text_like(const char* name, std::string* s, std::uint64_t max, const char* const* words, std::uint64_t n);
extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
extern "C" {
std::uint64_t vf_u64(const char* name)
{
    std::string n = unique(name);
    std::uint64_t v = replay ? tape[n].v : interesting();
    used.push_back({"u64", n, v, ""});
    return v;
}
std::uint64_t vf_size(const char* name, std::uint64_t max)
{
    std::string n = unique(name);
    std::uint64_t v = replay ? tape[n].v : rng() % 3 ? rng() % 9 : rng() % (maxsize + 1);
    if (v > max) { if (replay) throw VfSkip(); v = rng() % (max + 1); }
    used.push_back({"size", n, v, ""});
    return v;
}
std::uint64_t vf_choice(const char* name, std::uint64_t max)
{
    std::string n = unique(name);
    std::uint64_t v = replay ? tape[n].v : rng() % (max + 1);
    if (v > max) throw VfSkip();
    used.push_back({"size", n, v, ""});
    return v;
}
bool vf_bool(const char* name)
{
    std::string n = unique(name);
    bool v = replay ? tape[n].v != 0 : rng() & 1;
    used.push_back({"u64", n, v, ""});
    return v;
}
double vf_double(const char* name) { std::uint64_t u = vf_u64(name); double d; std::memcpy(&d, &u, 8); return d; }
static std::string rbytes(std::uint64_t n)
{
    std::string s(n, '\0');
    unsigned mode = rng() % 5;
    static const char texty[] = "Ab0/+=~\"\\ \x7f-:TZ";
    for (auto& c : s) c = mode == 0 ? char(rng()) : mode == 1 ? char(rng() % 4 ? 'A' + rng() % 26 : rng()) : mode == 2 ? texty[rng() % (sizeof texty - 1)] : mode == 3 ? "ABab09+/"[rng() % 8] : char(rng() % 8 ? 'A' : '=');
    if (mode == 1 && n && rng() % 2) s[n - 1] = '=';
    return s;
}
static std::string input_bytes(const std::string& n, std::uint64_t count)
{
    std::string s = replay ? tape[n].bytes : rbytes(count);
    s.resize(count);
    used.push_back({"bytes", n, 0, s});
    return s;
}
const unsigned char* vf_bytes(const char* name, std::uint64_t count)
{
    std::string s = input_bytes(unique(name), count);
    unsigned char* p = static_cast<unsigned char*>(std::malloc(count ? count : 1));
    if (count) std::memcpy(p, s.data(), count);
    unsigned char* q = count ? p : p + 1;      // an empty range has no readable byte
    blocks.push_back(p);
    return q;
}
unsigned char* vf_bytes_over(const char* name, std::uint64_t count, const char* table, std::uint64_t tabsize)
{
    unsigned char* p = const_cast<unsigned char*>(vf_bytes(name, count));
    for (std::uint64_t i = 0; i < count; ++i) p[i] = table[p[i] % tabsize];
    return p;
}
std::uint64_t vf_fn(const char* name, std::uint64_t i)
{
    auto k = std::make_pair(std::string(name), i);
    auto it = fns.find(k);
    if (it != fns.end()) return it->second;
    std::uint64_t v = 0;
    if (replay) { auto j = fntape.find(k); if (j != fntape.end()) v = j->second; else { j = fntape.find(std::make_pair(std::string(name), ~std::uint64_t(0))); if (j != fntape.end()) v = j->second; } }
    else v = std::strncmp(name, "ok", 2) == 0 ? (rng() % 8 != 0) : interesting();
    fns[k] = v;
    return v;
}
void vf_assume(bool c) { if (!c) throw VfSkip(); }
static bool counts(const char* label)      // "[C05,C08] ..." belongs to these properties only
{
    static const char* prop = std::getenv("VF_PROP");
    if (label[0] != '[' || !prop) return true;
    return std::string(label, std::strcspn(label, "]")).find(prop) != std::string::npos;
}
void vf_assert(bool c, const char* label) { if (!c && counts(label)) { report(label); std::_Exit(1); } }
void vf_reach(const char*) {}
void vf_any_string(const char* name, std::string* s, std::uint64_t max)
{
    std::string n = unique(name);
    occ[n + ".len"] = 0;
    std::uint64_t len = vf_size((n + ".len").c_str(), max);
    *s = input_bytes(n, len);
}
void vf_text_like(const char* name, std::string* s, std::uint64_t max, const char* const* words, std::uint64_t nw)
{
    std::string n = unique(name);
    if (replay || rng() % 4 == 0) { occ[n]--; vf_any_string(name, s, max); return; }
    std::string w = words[rng() % nw];
    switch (rng() % 8) {
        case 0: w += rbytes(1 + rng() % 2); break;
        case 1: if (!w.empty()) w.resize(rng() % w.size()); break;
        case 2: w += '\0'; w += words[rng() % nw]; break;
        case 3: w += words[rng() % nw]; break;
        case 4: if (!w.empty()) w[rng() % w.size()] ^= char(1 << (rng() % 8)); break;
        case 5: for (std::size_t i = 0; i < w.size(); ++i) { std::string o = words[rng() % nw]; if (o.size() == w.size() && rng() % 3 == 0) w[i] = o[i]; } break;
        default: break;
    }
    used.push_back({"size", n + ".len", w.size(), ""}); used.push_back({"bytes", n, 0, w});
    *s = w;
}
void vf_any_byte_vector(const char* name, std::vector<std::byte>* v, std::uint64_t max)
{
    std::string s; vf_any_string(name, &s, max);
    v->resize(s.size());
    if (!s.empty()) std::memcpy(v->data(), s.data(), s.size());
}
void vf_track_log(const void*, std::uint64_t, std::uint64_t, std::uint64_t) {}
void vf_track(const void*, std::uint64_t, std::uint64_t, std::uint64_t) {}
}
static bool load(const char* path)
{
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        Input i; is >> i.kind >> i.name;
        if (i.kind == "bytes") { std::string h; is >> h; for (std::size_t k = 0; k + 1 < h.size(); k += 2) i.bytes.push_back(char(std::stoi(h.substr(k, 2), nullptr, 16))); }
        else if (i.kind == "fn") { std::string a; std::uint64_t v; is >> a >> v; fntape[{i.name, a == "*" ? ~std::uint64_t(0) : std::stoull(a)}] = v; continue; }
        else is >> i.v;
        tape[i.name] = i;
    }
    return true;
}
static int once(void (*fn)())
{
    used.clear(); fns.clear(); occ.clear();
    int r = 0;
    try { fn(); }
    catch (VfSkip&) { r = 2; }
    catch (std::exception& e) { report((std::string("an exception escapes: ") + e.what()).c_str()); std::_Exit(1); }
    for (void* p : blocks) std::free(p);
    blocks.clear();
    return r;
}
static void died() { report("memory or undefined-behaviour error detected by the sanitizer"); }
// usage: prog replay FUNCTION TAPE | prog search FUNCTION SECONDS SEED
int main(int argc, char** argv)
{
    if (argc < 4) return 3;
    void (*fn)() = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[2]));
    if (!fn) { std::cout << "no such harness\n"; return 3; }
    current = argv[2];
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(died);
    if (!std::strcmp(argv[1], "replay")) {
        replay = true; load(argv[3]);
        return once(fn) == 2 ? 4 : 0;
    }
    double secs = std::atof(argv[3]);
    std::uint64_t seed = argc > 4 ? std::strtoull(argv[4], nullptr, 10) : 1;
    rng.seed(seed);
    std::clock_t t0 = std::clock();
    std::uint64_t runs = 0, skipped = 0;
    while ((runs & 15) || double(std::clock() - t0) / CLOCKS_PER_SEC < secs) {
        maxsize = runs % 16 == 15 ? 300 : 40;
        skipped += once(fn) == 2; ++runs;
    }
    std::cout << "VF-RUNS " << runs << " " << skipped << "\n";
    return 0;
}
