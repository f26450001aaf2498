#include "engine.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <typeinfo>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>

#define NOCOV __attribute__((no_sanitize("coverage")))

namespace pbt {

std::vector<uint32_t> g_ints;
std::vector<std::string> g_dict;

// ---------------------------------------------------------------- coverage
namespace {
struct Range { uint8_t *b, *e; };
std::vector<Range>& ranges() { static std::vector<Range> r; return r; }
std::vector<uint8_t> g_seen;          // per counter: buckets seen
uint8_t g_vp_seen[1 << 16];           // value-profile features seen
uint8_t g_vp_case[1 << 16];
uint16_t g_vp_list[4096]; unsigned g_vp_n = 0;
uint8_t g_const_seen[1 << 16];
bool g_track = false;
unsigned g_new_ints = 0;

inline void note_const(uint64_t pc, uint64_t c, uint64_t v)
{
    if (!g_track) return;
    uint64_t d = c > v ? c - v : v - c;
    unsigned bucket = d == 0 ? 0 : 64 - __builtin_clzll(d);
    if (bucket > 12) bucket = 12;
    uint32_t h = uint32_t(((pc * 16 + bucket) * 0x9E3779B97F4A7C15ull) >> 48);
    if (!g_vp_case[h]) {
        g_vp_case[h] = 1;
        if (g_vp_n < 4096) g_vp_list[g_vp_n++] = uint16_t(h); else g_vp_case[h] = 0;
    }
    if (c > 1 && c < 70000) {
        uint32_t k = uint32_t(((pc ^ (c << 40)) * 0x9E3779B97F4A7C15ull) >> 48);
        if (!g_const_seen[k]) {
            g_const_seen[k] = 1;
            if (g_ints.size() < 400 &&
                std::find(g_ints.begin(), g_ints.end(), uint32_t(c)) == g_ints.end()) {
                g_ints.push_back(uint32_t(c)); ++g_new_ints;
            }
        }
    }
}
} // namespace
} // namespace pbt

#define PC ((uint64_t)__builtin_return_address(0))
extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
extern "C" {
void __sanitizer_cov_8bit_counters_init(uint8_t* b, uint8_t* e) { if (b != e) { for (auto& r : pbt::ranges()) if (r.b == b) return; pbt::ranges().push_back({b, e}); } }
void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { pbt::note_const(PC, a, b); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { pbt::note_const(PC, a, b); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { pbt::note_const(PC, a, b); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { pbt::note_const(PC, a, b); }
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* cases)
{ for (uint64_t i = 0; i < cases[0]; ++i) pbt::note_const(PC + i, cases[2 + i], v); }
const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3000:handle_abort=1:detect_stack_use_after_return=1:malloc_context_size=8:strict_string_checks=1:alloc_dealloc_mismatch=1"; }
const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
}

namespace pbt {

// ---------------------------------------------------------------- choices
static inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t mix3(uint64_t a, uint64_t b, uint64_t c)
{
    uint64_t s = a * 0xD6E8FEB86659FD93ull + 1; s ^= splitmix(s) + b; splitmix(s); s ^= c * 0xC2B2AE3D27D4EB4Full;
    return splitmix(s);
}

uint64_t Ctx::next() { return splitmix(rng); }

uint64_t Ctx::below(uint64_t n)
{
    if (n <= 1) return 0;
    uint64_t v;
    if (pos < in.size()) v = in[pos++] % n;
    else if (extend) v = next() % n;
    else v = 0;
    if (rec_n < rec_cap) { rec[1 + rec_n++] = uint32_t(v); rec[0] = rec_n; }
    return v;
}

unsigned Ctx::weighted(std::initializer_list<unsigned> w)
{
    unsigned s = 0; for (unsigned x : w) s += x;
    uint64_t v = below(s); unsigned i = 0;
    for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
    return 0;
}

size_t Ctx::size(size_t small, size_t cap)
{
    if (cap <= small) return below(small + 1);
    // The tape holds the resulting size itself, so that a tape means the same
    // whatever constants have been mined when it is replayed.
    uint64_t v;
    if (pos < in.size()) v = in[pos++] % (cap + 1);
    else if (!extend) v = 0;
    else {
        unsigned w = unsigned(next() % 100);
        if (w < 90) v = next() % (small + 1);
        else if (w < 95) v = next() % (std::min(cap, small * 8 + 8) + 1);
        else {
            // near a constant of the code, or near a usual boundary
            static const uint32_t usual[] = {1,2,7,8,9,15,16,17,23,31,32,33,63,64,65,99,100,127,128,129,255,256,257,511,512,513,1000,1023,1024,1025};
            size_t k = next() % (30 + 3 * g_ints.size());
            if (k < 30) v = usual[k]; else { v = g_ints[(k - 30) / 3] + (k - 30) % 3; if (v) --v; }
            if (v > cap) v %= cap + 1;
        }
    }
    if (rec_n < rec_cap) { rec[1 + rec_n++] = uint32_t(v); rec[0] = rec_n; }
    return v;
}

size_t Ctx::huge(unsigned one_in)
{
    if (!chance(1, one_in)) return 0;
    if (coin()) return 100 + below(6000);
    size_t b = size_t(128) << below(7);
    return b - 2 + below(5);
}
std::string Ctx::str(const std::string& a, size_t n)
{
    std::string r; r.reserve(n);
    if (n > 48) {  // long strings: a repeated random block keeps the tape short
        std::string blk; size_t m = 1 + below(7);
        for (size_t i = 0; i < m; ++i) blk += chr(a);
        size_t at = below(n); char odd = chr(a);
        while (r.size() < n) r += blk;
        r.resize(n); r[at] = odd;
        return r;
    }
    for (size_t i = 0; i < n; ++i) r += chr(a);
    return r;
}
std::string Ctx::bytes(size_t n)
{
    std::string r; r.reserve(n);
    if (n > 48) { std::string blk; size_t m = 1 + below(7); for (size_t i = 0; i < m; ++i) blk += char(below(256));
        while (r.size() < n) r += blk; r.resize(n); return r; }
    for (size_t i = 0; i < n; ++i) r += char(below(256));
    return r;
}
void Ctx::label(const char* l) { for (auto x : m_labels) if (x == l) return; m_labels.push_back(l); }
void Ctx::key(const char* p, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; }
    key(h);
}

// ---------------------------------------------------------------- printing
std::string esc(const std::string& s)
{
    std::string r = "\""; char b[8];
    size_t n = s.size(), shown = n > 400 ? 400 : n;
    for (size_t i = 0; i < shown; ++i) { unsigned char ch = s[i];
        if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
        else if (ch == '\n') r += "\\n"; else if (ch == '\t') r += "\\t"; else if (ch == '\r') r += "\\r";
        else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
        else r += char(ch); }
    r += '"'; if (shown < n) r += "...(" + std::to_string(n) + " bytes)";
    return r;
}
std::string esc(const std::wstring& s)
{
    std::string r = "L\""; char b[16];
    for (wchar_t c : s) { uint32_t u = uint32_t(c);
        if (u == '"' || u == '\\') { r += '\\'; r += char(u); }
        else if (u < 32 || u > 126) { snprintf(b, sizeof b, "\\u{%x}", u); r += b; }
        else r += char(u); }
    return r + "\"";
}
template<class V> static std::string escv(const V& v) { std::string r = "["; bool f = true; for (auto& s : v) { if (!f) r += ", "; f = false; r += esc(s); } return r + "]"; }
std::string esc(const std::vector<std::string>& v) { return escv(v); }
std::string esc(const std::vector<std::wstring>& v) { return escv(v); }
std::string hexs(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x ", c); r += b; } return r; }

// ---------------------------------------------------------------- running
namespace {
const Property* P;
uint64_t g_seed = 1;
std::string g_work;
const unsigned SHARDS = 8;
const uint32_t TAPE_CAP = 1u << 20;
const int HANG_SECONDS = 25;
int g_try_seconds = HANG_SECONDS;   // less once a hang was seen, so that repeating and shrinking it takes bounded time

struct Shm {                         // shared with the parent
    volatile uint64_t index;         // case being executed
    volatile uint64_t done;
    volatile int kind;               // 0 running, 1 finished, 2 Fail
    char msg[1 << 14];
    volatile uint32_t tape[TAPE_CAP + 1];
};
Shm* new_shm()
{
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<Shm*>(p);
}
void put_msg(Shm* s, const std::string& m) { size_t n = std::min(m.size(), sizeof(s->msg) - 1); memcpy(s->msg, m.data(), n); s->msg[n] = 0; }

void on_cpu_limit(int) { static const char m[] = "pbt: case exceeded its CPU budget (hang)\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }
void arm(int sec) { itimerval t{}; t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr); }

std::string type_name(const std::type_info& t) { int st; char* d = abi::__cxa_demangle(t.name(), 0, 0, &st); std::string r = d ? d : t.name(); free(d); return r; }

enum { PINNED = 1ull << 40, EXH = 1ull << 41 };

// Runs one case; true if it held.
bool run_one(Ctx& c, uint64_t index, std::string& msg)
{
    try {
        if (index & PINNED) P->pinned[size_t(index & 0xffffffff)](c);
        else if (index & EXH) P->run_exhaustive(c, index & 0xffffffffull);
        else P->run(c);
        return true;
    } catch (const Fail& f) { msg = f.msg; }
    catch (const Discard&) { c.m_discarded = true; return true; }
    catch (const std::exception& e) { msg = std::string("unexpected exception ") + type_name(typeid(e)) + ": " + e.what(); }
    catch (...) { msg = "unexpected exception of unknown type"; }
    return false;
}

struct Corpus { std::vector<std::vector<uint32_t>> tapes; };

// After a case: does it show new behaviour?
bool harvest()
{
    bool fresh = false; size_t k = 0;
    for (auto& r : ranges()) {
        uint8_t* p = r.b;
        for (; p != r.e; ) {
            if (((uintptr_t)p & 7) == 0 && r.e - p >= 8 && *(uint64_t*)p == 0) { p += 8; k += 8; continue; }
            if (*p) {
                uint8_t v = *p, b = v >= 128 ? 128 : v >= 32 ? 64 : v >= 16 ? 32 : v >= 8 ? 16 : v >= 4 ? 8 : v >= 3 ? 4 : v >= 2 ? 2 : 1;
                if (!(g_seen[k] & b)) { g_seen[k] |= b; fresh = true; }
                *p = 0;
            }
            ++p; ++k;
        }
    }
    for (unsigned i = 0; i < g_vp_n; ++i) {
        g_vp_case[g_vp_list[i]] = 0;
        if (!g_vp_seen[g_vp_list[i]]) { g_vp_seen[g_vp_list[i]] = 1; fresh = true; }
    }
    g_vp_n = 0;
    return fresh;
}
size_t covered_counters() { size_t n = 0; for (auto b : g_seen) n += b != 0; return n; }

void mutate(std::vector<uint32_t>& t, const Corpus& corpus, uint64_t& rng)
{
    unsigned n = 1 + splitmix(rng) % 4;
    while (n--) {
        if (t.empty()) return;
        size_t i = splitmix(rng) % t.size();
        switch (splitmix(rng) % 8) {
        case 0: case 1: t[i] = uint32_t(splitmix(rng)); break;                  // another choice
        case 2: t[i] = uint32_t(splitmix(rng) % 8); break;
        case 3: t[i] += (splitmix(rng) & 1) ? 1 : -1; break;
        case 4: { size_t l = 1 + splitmix(rng) % 8; t.erase(t.begin() + i, t.begin() + std::min(t.size(), i + l)); break; }
        case 5: { size_t l = std::min(t.size() - i, size_t(1 + splitmix(rng) % 16)); std::vector<uint32_t> s(t.begin() + i, t.begin() + i + l);
                  size_t j = splitmix(rng) % (t.size() + 1); t.insert(t.begin() + j, s.begin(), s.end()); break; }
        case 6: { if (corpus.tapes.empty()) break; const auto& o = corpus.tapes[splitmix(rng) % corpus.tapes.size()]; if (o.empty()) break;
                  size_t j = splitmix(rng) % o.size(); t.resize(i); t.insert(t.end(), o.begin() + j, o.end()); break; }
        default: t.resize(i); break;                                             // random rest
        }
    }
    if (t.size() > 20000) t.resize(20000);
}

uint64_t cases_of(uint64_t total, unsigned shard) { return total / SHARDS + (shard < total % SHARDS ? 1 : 0); }

struct Stats {
    uint64_t evals = 0, nontrivial = 0, discarded = 0, fresh = 0;
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
};

// The body of a shard.  Pure function of (code, seed, shard, n); stops at `upto` cases.
void shard_loop(Shm* shm, unsigned shard, uint64_t total, uint64_t upto, Stats& st, double deadline)
{
    Corpus corpus;
    g_seen.assign([] { size_t n = 0; for (auto& r : ranges()) n += r.e - r.b; return n; }(), 0);
    uint64_t n = cases_of(total, shard);
    std::vector<uint64_t> idx;
    auto exec = [&](Ctx& c, uint64_t index, bool sample) {
        shm->index = index; shm->tape[0] = 0;
        c.rec = shm->tape; c.rec_cap = TAPE_CAP; c.rec_n = 0; c.m_describe = sample;
        arm(HANG_SECONDS);
        std::string msg;
        bool ok = run_one(c, index, msg);
        if (!ok) { put_msg(shm, msg); shm->kind = 2; arm(0); _exit(96); }
        ++st.evals;
        if (c.m_discarded) ++st.discarded;
        if (c.m_nontrivial && !c.m_discarded) {
            ++st.nontrivial;
            if (st.hashes.size() < 4000000) st.hashes.insert(c.m_hash);
            if (sample && st.samples.size() < 3) st.samples.push_back(c.m_out.str().substr(0, 3000));
        }
        for (auto l : c.m_labels) ++st.labels[l];
        ++shm->done;
    };
    g_track = true;
    if (shard == 0)
        for (size_t i = 0; i < P->pinned.size(); ++i) { Ctx c; exec(c, PINNED | i, false); harvest(); }
    for (uint64_t i = shard; i < P->exhaustive; i += SHARDS) { Ctx c; exec(c, EXH | i, false); harvest(); }
    uint64_t ideal_sample = 7;
    for (uint64_t i = 0; i < n && i < upto; ++i) {
        Ctx c;
        uint64_t s = mix3(g_seed, shard + 1, i);
        c.rng = s; c.extend = true;
        if (!corpus.tapes.empty() && (s >> 60) >= 8) {
            uint64_t r = s ^ 0x5851F42D4C957F2Dull;
            // prefer recent entries
            size_t m = corpus.tapes.size();
            size_t k = (splitmix(r) & 1) ? m - 1 - splitmix(r) % std::min<size_t>(m, 64) : splitmix(r) % m;
            c.in = corpus.tapes[k];
            mutate(c.in, corpus, r);
        }
        bool sample = shard < 3 && i >= ideal_sample && st.samples.size() < 3;
        exec(c, i, sample);
        if (sample && !c.m_nontrivial) ++ideal_sample; else if (sample) ideal_sample = i * 5;
        if (harvest() && !c.m_discarded && !c.m_expensive && c.rec_n < 20000) {
            ++st.fresh;
            std::vector<uint32_t> t(c.rec_n); for (uint32_t k = 0; k < c.rec_n; ++k) t[k] = shm->tape[1 + k];
            if (corpus.tapes.size() < 3000) corpus.tapes.push_back(t); else corpus.tapes[s % 3000] = t;
        }
        if ((i & 63) == 0 && deadline > 0) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); if (t.tv_sec + t.tv_nsec * 1e-9 > deadline) break; }
    }
    arm(0);
    shm->kind = 1;
}

std::string jstr(const std::string& s)
{
    std::string r = "\""; char b[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += char(ch);
    }
    return r + "\"";
}

void write_stats(const std::string& f, const Stats& st)
{
    std::ofstream o(f);
    o << "{\"evals\":" << st.evals << ",\"nontrivial\":" << st.nontrivial << ",\"discarded\":" << st.discarded
      << ",\"corpus\":" << st.fresh << ",\"counters\":" << covered_counters() << ",\"labels\":{";
    bool f1 = true; for (auto& l : st.labels) { if (!f1) o << ","; f1 = false; o << jstr(l.first) << ":" << l.second; }
    o << "},\"samples\":["; f1 = true; for (auto& s : st.samples) { if (!f1) o << ","; f1 = false; o << jstr(s); }
    o << "]}";
    std::ofstream h(f + ".hash", std::ios::binary);
    std::vector<uint64_t> v(st.hashes.begin(), st.hashes.end()); std::sort(v.begin(), v.end());
    h.write((const char*)v.data(), v.size() * 8);
}

struct Outcome { bool failed; std::string msg; std::vector<uint32_t> tape; std::string desc; };

std::string status_text(int st)
{
    if (WIFEXITED(st)) { int e = WEXITSTATUS(st);
        if (e == 97) return "the case did not terminate within its CPU budget";
        if (e == 99) return "the sanitizer reported an error";
        return "the process ended with status " + std::to_string(e); }
    return "the process was killed by signal " + std::to_string(WTERMSIG(st)) + (WTERMSIG(st) == SIGKILL ? " (memory limit)" : "");
}

void quiet_child(const std::string& errfile)
{
    int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); close(fd); }
}

// What is known of a case that does not end normally.
Ctx* described = nullptr; std::string described_file;
void save_description() { if (described) { std::ofstream o(described_file); o << described->m_out.str(); described = nullptr; } }

// Execute one tape (no random extension) in a child.
Outcome try_once(Shm* shm, uint64_t index, const std::vector<uint32_t>& tape, bool describe)
{
    shm->kind = 0; shm->msg[0] = 0; shm->tape[0] = 0;
    std::string df = g_work + "/desc.txt", ef = g_work + "/try.err";
    if (describe) unlink(df.c_str());
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        quiet_child(ef);
        signal(SIGPROF, on_cpu_limit);
        Ctx c; c.in = tape; c.extend = false; c.rec = shm->tape; c.rec_cap = TAPE_CAP; c.m_describe = describe;
        if (describe) { described = &c; described_file = df; if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(save_description); signal(SIGPROF, [](int) { signal(SIGALRM, SIG_DFL); alarm(5); save_description(); _exit(97); }); }
        arm(g_try_seconds);
        std::string msg;
        bool ok = run_one(c, index, msg);
        save_description();
        if (ok) { shm->kind = 1; _exit(0); }
        put_msg(shm, msg); shm->kind = 2; _exit(96);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Outcome o; o.failed = !(shm->kind == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (o.failed) {
        if (shm->kind == 2) o.msg = (const char*)shm->msg;
        else { o.msg = status_text(st);
            std::ifstream e(ef); std::string l; int k = 0;
            while (k < 12 && std::getline(e, l)) if (l.find("ERROR") != l.npos || l.find("runtime error") != l.npos || l.find("#") != l.npos || l.find("ssert") != l.npos) { o.msg += "\n  " + l; ++k; } }
        uint32_t n = shm->tape[0]; o.tape.resize(std::min(n, TAPE_CAP)); for (uint32_t i = 0; i < o.tape.size(); ++i) o.tape[i] = shm->tape[1 + i];
    }
    if (describe) { std::ifstream i(df); std::stringstream ss; ss << i.rdbuf(); o.desc = ss.str(); }
    return o;
}

Outcome try_tape(Shm* shm, uint64_t index, const std::vector<uint32_t>& tape, bool describe)
{
    Outcome o; for (unsigned k = 0; k < std::max(1u, P->attempts); ++k) { o = try_once(shm, index, tape, describe); if (o.failed) break; }
    return o;
}

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

std::vector<uint32_t> shrink(Shm* shm, uint64_t index, std::vector<uint32_t> best, std::string& msg)
{
    double end = now() + 45; int budget = 4000;
    auto smaller = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; };
    auto attempt = [&](std::vector<uint32_t> t) {
        if (budget-- <= 0 || now() > end) return false;
        while (!t.empty() && t.back() == 0) t.pop_back();
        if (!smaller(t, best)) return false;
        Outcome o = try_tape(shm, index, t, false);
        if (!o.failed) return false;
        while (!o.tape.empty() && o.tape.back() == 0) o.tape.pop_back();
        best = smaller(o.tape, t) ? o.tape : t; msg = o.msg; return true;
    };
    bool progress = true;
    while (progress && budget > 0 && now() < end) {
        progress = false;
        for (size_t len = best.size(); len >= 1; len = len / 2) {
            for (size_t i = 0; i + len <= best.size(); ) {
                auto t = best; t.erase(t.begin() + i, t.begin() + i + len);
                if (attempt(t)) { progress = true; continue; }
                bool nz = false; t = best; for (size_t k = i; k < i + len; ++k) { nz |= t[k] != 0; t[k] = 0; }
                if (nz && attempt(t)) progress = true;
                i += std::max<size_t>(1, len);
                if (budget <= 0 || now() > end) break;
            }
            if (budget <= 0 || now() > end) break;
        }
        for (size_t i = 0; i < best.size() && budget > 0; ++i) {
            while (i < best.size() && best[i] > 0) {
                auto t = best; t[i] /= 2; if (attempt(t)) { progress = true; continue; }
                if (i >= best.size() || best[i] < 2) break;
                t = best; t[i] -= 1; if (attempt(t)) { progress = true; continue; }
                break;
            }
            // drop a count and one of its elements
            if (i < best.size() && best[i] > 0 && best[i] < 20)
                for (size_t w = 1; w <= 6; ++w) for (size_t j = i + 1; j < std::min(best.size(), i + 12); ++j) {
                    if (i >= best.size() || best[i] == 0 || j + w > best.size()) break;
                    auto t = best; t[i] -= 1; t.erase(t.begin() + j, t.begin() + j + w);
                    if (attempt(t)) { progress = true; break; }
                    if (budget <= 0 || now() > end) break;
                }
        }
    }
    return best;
}

void write_failure(const std::string& out, bool prefix, unsigned shard, uint64_t index, uint64_t total, const std::vector<uint32_t>& tape, const std::string& msg, const std::string& desc)
{
    std::ofstream o(out);
    o << "{\"failed\":true,\"mode\":" << (prefix ? "\"prefix\"" : (index & PINNED) ? "\"pinned\"" : (index & EXH) ? "\"exhaustive\"" : "\"tape\"")
      << ",\"seed\":" << g_seed << ",\"shard\":" << shard << ",\"index\":" << index << ",\"total\":" << total
      << ",\"message\":" << jstr(msg) << ",\"case\":" << jstr(desc) << ",\"tape\":[";
    for (size_t i = 0; i < tape.size(); ++i) { if (i) o << ","; o << tape[i]; }
    o << "]}";
}

int campaign(uint64_t total, double wall)
{
    std::vector<Shm*> shm; std::vector<pid_t> pids; double deadline = wall > 0 ? now() + wall : 0;
    for (unsigned s = 0; s < SHARDS; ++s) shm.push_back(new_shm());
    for (unsigned s = 0; s < SHARDS; ++s) {
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            quiet_child(g_work + "/shard" + std::to_string(s) + ".err");
            signal(SIGPROF, on_cpu_limit);
            Stats st; shard_loop(shm[s], s, total, ~0ull, st, deadline);
            write_stats(g_work + "/stats" + std::to_string(s) + ".json", st);
            _exit(0);
        }
        pids.push_back(p);
    }
    struct F { unsigned shard; uint64_t index; std::vector<uint32_t> tape; std::string msg; };
    std::vector<F> fails; unsigned left = SHARDS;
    uint64_t done = 0;
    while (left) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        unsigned s = std::find(pids.begin(), pids.end(), p) - pids.begin();
        if (s >= SHARDS) continue;
        --left;
        done += shm[s]->done;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm[s]->kind == 1) continue;
        F f{s, shm[s]->index, {}, shm[s]->kind == 2 ? std::string((const char*)shm[s]->msg) : status_text(st)};
        uint32_t n = shm[s]->tape[0]; for (uint32_t i = 0; i < n && i < TAPE_CAP; ++i) f.tape.push_back(uint32_t(shm[s]->tape[1 + i]));
        fails.push_back(f);
        // one failure is enough: let the others finish quickly
        for (unsigned k = 0; k < SHARDS; ++k) if (k != s) kill(pids[k], SIGTERM);
    }
    // shards ended by us are not failures
    fails.erase(std::remove_if(fails.begin(), fails.end(), [](const F& f) { return f.msg == "the process was killed by signal 15"; }), fails.end());
    if (fails.empty()) return 0;
    std::sort(fails.begin(), fails.end(), [](const F& a, const F& b) { return a.index != b.index ? a.index < b.index : a.shard < b.shard; });
    std::string out = g_work + "/failure.json";
    Shm* sh = new_shm();
    for (auto& f : fails) {
        g_try_seconds = f.msg.find("did not terminate") != f.msg.npos ? 10 : HANG_SECONDS;
        int again = 0; Outcome o;
        for (int k = 0; k < 3; ++k) { o = try_tape(sh, f.index, f.tape, false); again += o.failed; }
        if (again == 3) {
            std::string msg = o.msg;
            auto t = f.index & (PINNED | EXH) ? f.tape : shrink(sh, f.index, f.tape, msg);
            int ok = 0; for (int k = 0; k < 3; ++k) { o = try_tape(sh, f.index, t, true); ok += o.failed; }
            if (ok != 3) { t = f.tape; o = try_tape(sh, f.index, t, true); }
            write_failure(out, false, f.shard, f.index, total, t, o.failed ? o.msg : msg, o.desc);
            return 1;
        }
        if (P->attempts > 1) { // a schedule which does not come again; what was seen was real
            o = try_tape(sh, f.index, f.tape, true); write_failure(out, false, f.shard, f.index, total, f.tape, f.msg + (o.failed ? "" : "\n(it did not happen again when the case was repeated)"), o.desc); return 1; }
        // depends on earlier cases of the shard: replay the prefix
        int reproduced = 0; std::string msg = f.msg;
        for (int k = 0; k < 2; ++k) {
            sh->kind = 0; sh->done = 0;
            pid_t p = fork();
            if (p == 0) { quiet_child(g_work + "/prefix.err"); signal(SIGPROF, on_cpu_limit); Stats st;
                shard_loop(sh, f.shard, total, (f.index & (PINNED | EXH)) ? 0 : f.index + 1, st, 0); _exit(0); }
            int st; waitpid(p, &st, 0);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ++reproduced;
        }
        if (reproduced == 2) {
            o = try_tape(sh, f.index, f.tape, true);
            write_failure(out, true, f.shard, f.index, total, f.tape, msg + " (only after the earlier cases of its shard)", o.desc);
            return 1;
        }
        fprintf(stderr, "pbt: a failure did not reproduce and is not reported: %s\n", msg.c_str());
    }
    return 3;
}

} // namespace

int engine_main(int argc, char** argv, const Property& prop)
{
    P = &prop;
    std::string mode = argc > 1 ? argv[1] : "run";
    std::map<std::string, std::string> a;
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    g_seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), 0, 10) : 1;
    g_work = a.count("--work") ? a["--work"] : ".";
    if (a.count("--dict")) {
        std::ifstream f(a["--dict"]); std::string l;
        while (std::getline(f, l)) if (!l.empty()) g_dict.push_back(l);
    }
    if (g_dict.empty()) g_dict.push_back("on");
    if (prop.init) prop.init();
    if (mode == "info") {
        std::cout << "{\"rule\":" << jstr(prop.rule) << ",\"quick\":" << prop.quick << ",\"thorough\":" << prop.thorough
                  << ",\"pinned\":" << prop.pinned.size() << ",\"exhaustive\":" << prop.exhaustive << ",\"exhaustive_note\":" << jstr(prop.exhaustive_note) << "}\n";
        return 0;
    }
    if (mode == "run") {
        uint64_t total = a.count("--cases") ? strtoull(a["--cases"].c_str(), 0, 10) : prop.quick;
        return campaign(total, a.count("--wall") ? atof(a["--wall"].c_str()) : 0);
    }
    if (mode == "replay") {           // --index N --tape f  (whitespace separated numbers)
        Shm* sh = new_shm(); std::vector<uint32_t> t; std::ifstream f(a["--tape"]); uint32_t v; while (f >> v) t.push_back(v);
        Outcome o = try_tape(sh, strtoull(a["--index"].c_str(), 0, 10), t, true);
        std::cout << o.desc << "\n" << (o.failed ? "FAILED: " + o.msg : std::string("held")) << "\n";
        return o.failed ? 1 : 0;
    }
    if (mode == "finding") {          // --id X: 1 if the listed defect shows
        for (auto& f : prop.findings) if (f.first == a["--id"]) {
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) { quiet_child(g_work + "/finding.err"); Ctx c; try { f.second(c); } catch (...) { _exit(1); } _exit(0); }
            int st; waitpid(p, &st, 0);
            return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
        }
        std::cerr << "unknown finding\n"; return 2;
    }
    if (mode == "prefix") {
        Shm* sh = new_shm(); uint64_t total = strtoull(a["--cases"].c_str(), 0, 10), index = strtoull(a["--index"].c_str(), 0, 10);
        pid_t p = fork();
        if (p == 0) { signal(SIGPROF, on_cpu_limit); Stats st; shard_loop(sh, atoi(a["--shard"].c_str()), total, (index & (PINNED | EXH)) ? 0 : index + 1, st, 0); _exit(0); }
        int st; waitpid(p, &st, 0);
        bool failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        std::cout << (failed ? "FAILED: " + std::string(sh->kind == 2 ? (const char*)sh->msg : status_text(st)) : std::string("held")) << "\n";
        return failed;
    }
    if (mode == "one") {              // debugging: run cases in this process, describing them
        uint64_t from = a.count("--from") ? strtoull(a["--from"].c_str(), 0, 10) : 0, n = a.count("--n") ? strtoull(a["--n"].c_str(), 0, 10) : 1;
        for (uint64_t i = from; i < from + n; ++i) {
            Ctx c; c.rng = mix3(g_seed, 1, i); c.extend = true; c.m_describe = true; std::string msg;
            bool ok = run_one(c, i, msg);
            std::cout << "--- case " << i << (c.m_discarded ? " discarded" : c.m_nontrivial ? " nontrivial" : "") << "\n" << c.m_out.str() << "\n" << (ok ? "" : "FAILED: " + msg + "\n");
        }
        return 0;
    }
    std::cerr << "unknown mode\n"; return 2;
}

} // namespace pbt
