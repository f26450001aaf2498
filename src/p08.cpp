// P08: configuration files which cannot be read, or not entirely.
// read() is replaced for the calls made while a plan is armed.
#include "common.hpp"
#include <cerrno>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
using namespace t; using pbt::Ctx;

namespace {
struct Plan {
    bool armed = false; int64_t fail_at = -1; int fail_errno = EIO; int64_t fail_call = -1;   // byte offset or call number of the error
    vector<size_t> chunks; vector<size_t> eintr;                                              // sizes of short reads; calls interrupted
    size_t calls = 0, delivered = 0; bool fired = false; size_t interrupted = 0; bool transient = false;
} plan;
}
extern "C" ssize_t read(int fd, void* buf, size_t n)
{
    if (!plan.armed) return syscall(SYS_read, fd, buf, n);
    size_t k = plan.calls++;
    for (size_t e : plan.eintr) if (e == k) { ++plan.interrupted; errno = EINTR; return -1; }
    if (!(plan.transient && plan.fired) && ((plan.fail_call >= 0 && int64_t(k) >= plan.fail_call) || (plan.fail_at >= 0 && int64_t(plan.delivered) >= plan.fail_at))) { plan.fired = true; errno = plan.fail_errno; return -1; }
    size_t m = n;
    if (!plan.chunks.empty()) m = std::min(m, std::max<size_t>(1, plan.chunks[k % plan.chunks.size()]));
    if (plan.fail_at >= 0 && !plan.fired) m = std::min<size_t>(m, plan.fail_at - plan.delivered);
    ssize_t r = syscall(SYS_read, fd, buf, m);
    if (r > 0) plan.delivered += r;
    return r;
}
namespace {
struct Res { bool ok = true; Err err; vector<POpt> opts; };
template<class C> Res by_name(const string& name, const po::options_description& d, bool unreg, bool armed)
{
    Res r; 
    Caught k = catch_err([&] { plan.armed = armed; auto p = po::parse_config_file<C>(name.c_str(), d, unreg); plan.armed = false; r.opts = from_real(p.options); });
    plan.armed = false; r.ok = !k.threw; r.err = k.e; return r;
}
string reading_file_text(const string& name) { return "can not read options configuration file '" + name + "'"; }
void expect_unreadable(Ctx& c, const string& name, const Res& r, const char* why)
{
    if (r.ok) c.fail(string(why) + ": no error, but the options" + show(r.opts));
    if (r.err.cls != "reading_file") c.fail(string(why) + ": " + r.err.show());
    if (r.err.what.find(name) == string::npos) c.fail(string(why) + ": the message does not name the file " + pbt::esc(name) + ": " + pbt::esc(r.err.what));
}
void faulty(Ctx& c, const vector<Opt>& opts, const string& text, bool unreg, bool wide)
{
    int fd = memfd_create("cfg", 0); if (fd < 0) _exit(2);
    for (size_t at = 0; at < text.size(); ) { ssize_t n = write(fd, text.data() + at, text.size() - at); if (n <= 0) _exit(2); at += n; }
    string name = "/proc/self/fd/" + std::to_string(fd);
    po::options_description d; add_options(d, opts);
    plan.calls = plan.delivered = plan.interrupted = 0; plan.fired = false;
    Res r = wide ? by_name<wchar_t>(name, d, unreg, true) : by_name<char>(name, d, unreg, true);
    close(fd);
    string what = "file of " + std::to_string(text.size()) + " bytes";
    if (plan.interrupted) c.label("interrupted");
    if (plan.fired) {
        c.label(plan.delivered == 0 ? "error at once" : plan.delivered == text.size() ? "error at the end" : "error in the middle"); c.nontrivial();
        // an error in the complete lines delivered may come first
        string head = text.substr(0, plan.delivered); size_t nl = head.rfind('\n'); head.resize(nl == string::npos ? 0 : nl + 1);
        CfgResult m = model_config(head, opts, unreg);
        what += ", read error " + std::to_string(plan.fail_errno) + " after " + std::to_string(plan.delivered);
        if (!m.ok && !r.ok && r.err.cls == m.err.cls) { c.label("an earlier line was wrong"); return; }
        expect_unreadable(c, name, r, what.c_str());
        return;
    }
    CfgResult m = model_config(text, opts, unreg);
    if (plan.calls > 2) c.label("several reads");
    if (m.ok != r.ok) c.fail(what + ": " + (r.ok ? "expected " + m.err.show() : "got " + r.err.show()));
    if (!m.ok) { if (m.err.cls != r.err.cls) c.fail(what + ": expected " + m.err.show() + " but got " + r.err.show()); return; }
    if (m.opts != r.opts) c.fail(what + ": expected the options" + show(m.opts) + "\n  but got" + show(r.opts));
    if (plan.chunks.size() && m.opts.size()) c.nontrivial();
}
void unopenable(Ctx& c)
{
    po::options_description d; d.add_options()("a", po::value<string>(), "");
    unsigned k = unsigned(c.below(6)); bool wide = c.coin(); bool limit = false; string name; const char* why = "";
    rlimit old;
    switch (k) {
    case 0: name = "/nonexistent-" + c.str("abc", 1 + c.size(6, 200)); why = "missing file"; break;
    case 1: name = c.pick({string("/proc"), string("/"), string("."), string("/proc/self"), string("/usr/")}); why = "directory"; break;
    case 2: name = ""; why = "empty name"; break;
    case 3: name = "/proc/version/x"; why = "component not a directory"; break;
    case 4: name = "/" + string(c.pick({300, 5000, 4096}), 'n'); why = "name too long"; break;
    default: name = "/proc/version"; why = "no file descriptor left"; limit = true; break;
    }
    c.key(name); c.key(uint64_t(k)); c.label(why); c.nontrivial();
    if (c.describing()) c.out() << why << ": " << pbt::esc(name) << "\n";
    if (limit) { getrlimit(RLIMIT_NOFILE, &old); rlimit n = old; n.rlim_cur = 3; setrlimit(RLIMIT_NOFILE, &n); int f = dup(0); if (f >= 0) { close(f); limit = false; } }
    Res r = wide ? by_name<wchar_t>(name, d, true, false) : by_name<char>(name, d, true, false);
    if (k == 5) setrlimit(RLIMIT_NOFILE, &old);
    if (k == 5 && !limit) return;
    expect_unreadable(c, name, r, why);
    if (r.err.what != reading_file_text(name)) c.fail(string(why) + ": message " + pbt::esc(r.err.what));
}
void run(Ctx& c)
{
    if (c.chance(1, 12)) { unopenable(c); return; }
    NameCfg n; n.short_only = false; n.wild = c.chance(1, 3); n.max_opts = 1 + c.below(5);
    vector<Opt> v = gen_names(c, n); for (auto& o : v) o.sem.kind = KString;
    bool unreg = c.coin(), wide = c.chance(1, 3);
    string text = gen_config(c, v, c.chance(1, 2), 1 + c.size(8, 60));
    if (c.chance(1, 6)) { size_t reps = 1 + c.below(400); string one = text; for (size_t i = 0; i < reps && text.size() < 60000; ++i) text += one; c.label("large"); }
    if (wide) for (auto& ch : text) if ((unsigned char)ch > 127) ch = '~';
    plan = Plan();
    if (c.coin()) { size_t k = 1 + c.below(4); for (size_t i = 0; i < k; ++i) plan.chunks.push_back(1 + c.size(20, 9000)); }
    switch (c.below(4)) {
    case 0: break;
    case 1: plan.fail_call = int64_t(c.below(plan.chunks.empty() ? 3 : 12)); break;
    default: plan.fail_at = int64_t(c.below(text.size() + 1)); break;
    }
    plan.fail_errno = c.pick({EIO, EISDIR, EBADF, EAGAIN, ENOMEM, ESTALE}); plan.transient = c.chance(1, 4);
    while (c.chance(1, 6)) plan.eintr.push_back(c.below(6));
    for (auto& o : v) c.key(o.names()); c.key(text); c.key(uint64_t(plan.fail_at)); c.key(uint64_t(plan.fail_call)); for (auto x : plan.chunks) c.key(x);
    if (c.describing()) c.out() << show(v) << "text: " << pbt::esc(text) << "\nerror at byte " << plan.fail_at << ", call " << plan.fail_call << ", errno " << plan.fail_errno << (wide ? ", wide" : "") << (unreg ? ", unregistered allowed" : "") << "\n";
    faulty(c, v, text, unreg, wide);
}
// every offset of some files, as one block and byte by byte
const char* const texts[] = {"a=1\n", "a=1\nb=2\n[s]\nc=3\n", "# only\n\n", "", "a=1", "a=1\r\nb = two words # c\r\n", "[s]\nc=1\nc=2\nc=3\n\n\n", "a=x\n[s.t]\nu=1\n[]\n[s]\nc = 4"};
const unsigned OFFS = 64;
void enumerate(Ctx& c, uint64_t i)
{
    unsigned bytewise = i % 2, wide = i / 2 % 2, off = unsigned(i / 4 % OFFS), tx = unsigned(i / 4 / OFFS);
    string text = texts[tx]; if (off > text.size()) c.discard();
    vector<Opt> v; for (auto n : {"a", "b", "s.c", "s.t.u", "z*"}) { Opt o; o.longs.push_back(n); o.sem.kind = KString; v.push_back(o); }
    plan = Plan(); plan.fail_at = off; if (bytewise) plan.chunks.push_back(1);
    c.key(i); 
    if (c.describing()) c.out() << "text: " << pbt::esc(text) << " error at " << off << "\n";
    faulty(c, v, text, true, wide);
    if (!plan.fired) c.fail("the fault was not reached: text " + pbt::esc(text) + " offset " + std::to_string(off) + ", " + std::to_string(plan.delivered) + " bytes read");
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P08"; P.run = run; P.quick = 400000; P.thorough = 15000000;
    P.rule = "random configuration files (up to 60 kB) read by name, narrow or wide, with planned short and interrupted reads and a read error at a random byte offset or call; also missing files, directories, bad names and descriptor exhaustion. Non-trivial: a fault fired, a file could not be opened, or a file with options was read in several pieces";
    P.exhaustive = 4 * OFFS * 8; P.run_exhaustive = enumerate; P.exhaustive_note = "a read error at every byte offset of eight files, delivered in one block or byte by byte, narrow and wide";
    return pbt::engine_main(argc, argv, P);
}
