// A small property-based testing engine with a choice tape, coverage feedback,
// forked workers and shrinking.  See DESIGN.md, "Engine".
#pragma once
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };      // property violated
struct Discard {};                     // case outside the domain (counted)

// Values mined from the code under test (see engine.cpp).
extern std::vector<uint32_t> g_ints;       // constants the code compares with
extern std::vector<std::string> g_dict;    // string constants of the code

class Ctx {
public:
    // ---- choices.  0 is always the simplest alternative.
    uint64_t below(uint64_t n);                       // uniform in [0,n)
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool coin() { return below(2) == 1; }
    unsigned weighted(std::initializer_list<unsigned> w);
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    // a size, mostly in [0,small]; sometimes larger, up to cap, near constants of the code
    size_t size(size_t small, size_t cap = 0);
    // 0, or in one case of `one_in` a large size: around a power of two up to 4096 (or twice that), or anything up to 6000
    size_t huge(unsigned one_in);
    // a string over an alphabet
    std::string str(const std::string& alphabet, size_t n);
    std::string bytes(size_t n);
    char chr(const std::string& alphabet) { return alphabet[below(alphabet.size())]; }
    template<class T> void shuffle(std::vector<T>& v)
    { for (size_t i = v.size(); i > 1; --i) std::swap(v[i-1], v[i-1-below(i)]); }

    // ---- classification
    void label(const char* l);
    void nontrivial() { m_nontrivial = true; }
    void expensive() { m_expensive = true; }          // do not breed further cases from this one
    void key(const std::string& s) { key(s.data(), s.size()); key(uint64_t(s.size())); }
    void key(uint64_t v) { m_hash = (m_hash ^ v) * 0x9E3779B97F4A7C15ull; m_hash ^= m_hash >> 29; }
    void key(const char* p, size_t n);
    void key(const std::vector<std::string>& v) { key(uint64_t(v.size())); for (auto& s : v) key(s); }

    // ---- reporting
    bool describing() const { return m_describe; }
    std::ostream& out() { return m_out; }
    [[noreturn]] void fail(const std::string& msg) { throw Fail{msg}; }
    [[noreturn]] void discard() { throw Discard(); }
    void check(bool ok, const std::string& msg) { if (!ok) fail(msg); }
    template<class F> void check_(bool ok, F f) { if (!ok) fail(f()); }

    // ---- engine internals
    std::vector<uint32_t> in;  size_t pos = 0;   // replayed prefix
    bool extend = false;                          // draw randomly after the prefix
    uint64_t rng = 0;
    volatile uint32_t* rec = nullptr; uint32_t rec_n = 0, rec_cap = 0; // record (shared memory)
    bool m_describe = false, m_nontrivial = false, m_discarded = false, m_expensive = false;
    uint64_t m_hash = 0;
    std::ostringstream m_out;
    std::vector<const char*> m_labels;
    uint64_t next();
};

// A registered property.
struct Property {
    const char* id;
    const char* rule;                 // how cases are made and what is non-trivial
    void (*run)(Ctx&);                // one generated case
    uint64_t quick, thorough;         // cases in total
    std::vector<std::function<void(Ctx&)>> pinned;   // fixed regression cases
    uint64_t exhaustive = 0;          // if >0: cases 0..exhaustive-1 are enumerated by run_exhaustive
    void (*run_exhaustive)(Ctx&, uint64_t) = nullptr;
    const char* exhaustive_note = "";
    void (*init)() = nullptr;         // once per process
    unsigned attempts = 1;            // how often a case is tried before it counts as not failing (threads)
    // demonstrations of the defects listed in known_findings.txt; they fail while the defect is there
    std::vector<std::pair<std::string, std::function<void(Ctx&)>>> findings;
};

int engine_main(int argc, char** argv, const Property& p);

std::string esc(const std::string& s);            // printable, quoted
std::string esc(const std::wstring& s);
std::string esc(const std::vector<std::string>& v);
std::string esc(const std::vector<std::wstring>& v);
std::string hexs(const std::string& s);

} // namespace pbt
