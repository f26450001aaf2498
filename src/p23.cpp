// P23: one description, several threads.  Built with the thread sanitizer.
#include "common.hpp"
#include "streams.hpp"
#include <algorithm>
#include <atomic>
#include <sstream>
#include <thread>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <boost/program_options/detail/convert.hpp>
#include <boost/tokenizer.hpp>
#include <boost/token_functions.hpp>
namespace boost { namespace program_options { std::vector<std::string> split_winmain(const std::string&); } }
#define _WIN32 1
#include "winmain.cpp"
#undef _WIN32
using namespace t; using pbt::Ctx;
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=99:report_thread_leaks=0:report_signal_unsafe=0:history_size=4:die_after_fork=0"; }

namespace {
template<class C> string show_opts(const vector<po::basic_option<C>>& v)
{ string s; for (auto& o : v) { s += "{" + pbt::esc(o.string_key) + " " + std::to_string(o.position_key) + " " + pbt::esc(o.value) + " " + pbt::esc(o.original_tokens) + (o.unregistered ? "U" : "") + (o.case_insensitive ? "C" : "") + "}"; } return s; }
string show_vm(const po::variables_map& vm) { string s; for (auto& kv : vm) s += pbt::esc(kv.first) + "=" + any_to_mv(kv.second.value()).show() + (kv.second.defaulted() ? "(d)" : "") + ";"; return s; }
thread_local string tl_notes;
string outcome(const std::function<string()>& f)
{
    string r;
    Caught k = catch_err([&] { try { r += f(); } catch (const boost::escaped_list_error& e) { r += string("escaped_list_error ") + e.what(); } });
    if (k.threw) r += "error " + k.e.show();
    return r;
}
struct Env {
    vector<vector<char>> text; vector<char*> ptr; char** old;
    Env(const vector<string>& e) : old(environ) { for (auto& s : e) { text.emplace_back(s.begin(), s.end()); text.back().push_back(0); } for (auto& t : text) ptr.push_back(t.data()); ptr.push_back(nullptr); environ = ptr.data(); }
    ~Env() { environ = old; }
};
struct Op { string name; std::function<string()> f; };

void run(Ctx& c)
{
    NameCfg n; n.collide = c.coin(); n.wild = c.chance(1, 3); n.max_opts = 1 + c.below(7); vector<Opt> v = gen_names(c, n); SemCfg sc; sc.wide = c.chance(1, 5); gen_sems(c, v, sc);
    for (auto& o : v) { for (auto& l : o.longs) for (auto& ch : l) if (!ch) ch = 'z'; o.desc = gen_word(c); for (auto& ch : o.desc) if (!ch || ch == '\t') ch = 'z'; if (o.sem.typed() && o.sem.kind != KSwitch && c.chance(1, 8)) o.sem.required = true; }
    int groups = c.chance(1, 2) ? int(c.below(12)) : 0; for (auto& o : v) { c.key(o.names()); c.key(uint64_t(o.sem.kind)); } if (c.describing()) c.out() << show(v);
    unsigned threads = 2 + unsigned(c.below(3)), rounds = 1 + unsigned(c.below(2)); bool has_pos = c.coin(); PosDesc pd; if (has_pos) pd = gen_pos(c, v, c.coin());
    vector<string> env; { size_t m = c.below(5); for (size_t i = 0; i < m; ++i) { const Opt& o = v[c.below(v.size())]; string val = gen_word(c); for (auto& ch : val) if (!ch) ch = 'z'; env.push_back(string("APP_") + (o.longs.empty() ? string("none") : o.longs[0]) + "=" + val); } }
    vector<Opt> lv = only_long(v); string shared_text = lv.empty() ? "" : gen_good_config(c, lv, c.size(4, 10), 0); vector<string> shared_line = gen_line(c, v, 0, c.size(4, 10), 0, false);
    for (auto& t : shared_line) for (auto& ch : t) if (!ch) ch = '0';

    // what each thread does; the shared objects are filled in by the process which runs it
    struct Shared { po::options_description d{"Options"}; po::positional_options_description rp; po::parsed_options parsed{nullptr}; bool have_parsed = false; po::variables_map base, vm; Sinks sinks; };
    std::shared_ptr<Shared> S; vector<Op> ops; size_t kinds = 1 + c.below(5); bool any = false;
    for (size_t k = 0; k < kinds; ++k) {
        Op op; 
        switch (c.weighted({24, 8, 14, 6, 14, 8, 8, 8, 6, 10})) {
        case 0: { int style = gen_style(c); bool unreg = c.chance(1, 3), store = c.coin(); vector<string> t = c.coin() ? gen_tokens(c, v, style, c.size(5, 20)) : gen_line(c, v, style, c.size(5, 20), 15, has_pos); if (c.coin()) t.push_back("--notified=" + std::to_string(c.below(9))); c.key(t); op.name = "command line " + pbt::esc(t) + " style " + std::to_string(style) + (store ? ", stored" : "");
            op.f = [=, &S] { po::command_line_parser q(t); q.options(S->d).style(style); if (has_pos) q.positional(S->rp); if (unreg) q.allow_unregistered(); auto r = q.run(); string s = show_opts(r.options) + pbt::esc(po::collect_unrecognized(r.options, po::include_positional)); if (store) { po::variables_map vm; tl_notes.clear(); s += outcome([&] { po::store(r, vm); po::notify(vm); return string("ok"); }) + tl_notes; s += show_vm(vm); } return s; }; break; }
        case 1: { vector<string> t0 = gen_line(c, v, 0, c.size(5, 20), 15, has_pos); vector<wstring> t; for (auto& x : t0) { wstring w; if (ref_decode(x, w)) t.push_back(w); } c.key(t0); op.name = "wide command line " + pbt::esc(t); op.f = [=, &S] { po::wcommand_line_parser q(t); q.options(S->d); if (has_pos) q.positional(S->rp); auto r = q.run(); po::variables_map vm; string s = show_opts(r.options); s += outcome([&] { po::store(r, vm); return string(); }); return s + show_vm(vm); }; break; }
        case 2: { string text = c.coin() ? gen_config(c, v, true, c.size(5, 20)) : lv.empty() ? "" : gen_good_config(c, lv, c.size(5, 20), 10); bool unreg = c.coin(); c.key(text); op.name = "configuration file " + pbt::esc(text); op.f = [=, &S] { std::istringstream is(text); auto r = po::parse_config_file(is, S->d, unreg); po::variables_map vm; string s = show_opts(r.options); s += outcome([&] { po::store(r, vm); return string(); }); return s + show_vm(vm); }; break; }
        case 3: { bool prefix = c.coin(); op.name = prefix ? "environment with prefix" : "environment"; op.f = [=, &S] { auto r = prefix ? po::parse_environment(S->d, "APP_") : po::parse_environment(S->d, [](const string& s) { return s.compare(0, 4, "APP_") == 0 ? s.substr(4) : string(); }); return show_opts(r.options); }; break; }
        case 4: { op.name = "storing the shared parsed options"; op.f = [=, &S] { if (!S->have_parsed) return string("none"); po::variables_map vm; tl_notes.clear(); string s = outcome([&] { po::store(S->parsed, vm); po::notify(vm); return string("ok"); }); return s + tl_notes + show_vm(vm); }; break; }
        case 5: { op.name = "print"; op.f = [=, &S] { std::ostringstream os; os << S->d; return os.str(); }; break; }
        case 6: { string nm; const Opt& o = v[c.below(v.size())]; nm = o.longs.empty() ? o.shrt : o.longs[0]; nm = nm.substr(0, c.below(nm.size() + 1)); bool a = c.coin(), l = c.coin(), s = c.coin(); c.key(nm); op.name = "find " + pbt::esc(nm); op.f = [=, &S] { auto* r = S->d.find_nothrow(nm, a, l, s); return r ? r->format_name() + r->format_parameter() + r->key(nm) + r->canonical_display_name(1) : string("none"); }; break; }
        case 7: { op.name = "reading the shared map"; vector<string> keys; for (auto& o : v) keys.push_back(o.longs.empty() ? o.shrt : o.longs[0]); keys.push_back("absent"); op.f = [=, &S] { const po::variables_map& m = S->vm; string s = show_vm(m); for (auto& k : keys) { const po::variable_value& x = m[k]; s += std::to_string(m.count(k)) + (x.empty() ? "e" : any_to_mv(x.value()).show()) + (x.defaulted() ? "d" : ""); } return s; }; break; }
        case 8: { op.name = "copying the shared map"; op.f = [=, &S] { po::variables_map m(S->vm); string s = show_vm(m); s += outcome([&] { if (S->have_parsed) po::store(S->parsed, m); return string(); }); return s + show_vm(m); }; break; }
        default: { string text = c.str("ab '\"\\\t\xc3\xa9", c.size(20, 100)); unsigned w = unsigned(c.below(6)); c.key(text); c.key(w); op.name = "strings " + std::to_string(w) + pbt::esc(text); op.f = [=] { wstring x; ref_decode(text, x); switch (w) { case 0: return pbt::esc(po::split_unix(text)); case 1: return pbt::esc(po::split_winmain(text)); case 2: return pbt::esc(boost::from_utf8(text)); case 3: return pbt::hexs(boost::to_utf8(x)); case 4: return pbt::esc(boost::from_local_8_bit(text)); default: return pbt::esc(boost::to_local_8_bit(x)); } }; break; }
        }
        c.key(op.name.substr(0, 12)); ops.push_back(op);
    }
    // each thread has an order of its own
    vector<vector<size_t>> plan(threads); for (auto& p : plan) { size_t m = 1 + c.below(4); for (size_t i = 0; i < m; ++i) p.push_back(c.below(ops.size())); }
    std::map<size_t, std::set<unsigned>> users; for (unsigned i = 0; i < threads; ++i) for (auto k : plan[i]) users[k].insert(i);
    for (auto& u : users) any |= u.second.size() > 1;
    if (c.describing()) { for (size_t i = 0; i < ops.size(); ++i) c.out() << "  " << i << ": " << ops[i].name << "\n"; for (auto& p : plan) { c.out() << "thread:"; for (auto k : p) c.out() << " " << k; c.out() << "\n"; } c.out() << rounds << " rounds\n"; }

    auto body = [&]() -> string {
        Env e(env); S = std::make_shared<Shared>(); build_desc(S->d, v, groups, nullptr); if (has_pos) pd.build(S->rp);
        po::options_description own("Own"); own.add_options()("notified", po::value<int>()->default_value(7)->notifier([](int i) { tl_notes += "n" + std::to_string(i); }), "own"); S->d.add(own);
        catch_err([&] { if (shared_text.empty() || groups % 2) S->parsed = po::command_line_parser(shared_line).options(S->d).run(); else { std::istringstream is(shared_text); S->parsed = po::parse_config_file(is, S->d); } S->have_parsed = true; });
        if (S->have_parsed) { catch_err([&] { po::store(S->parsed, S->base); }); }
        { po::parsed_options none(&S->d); catch_err([&] { po::store(none, S->vm); }); } S->vm.next(&S->base);
        vector<vector<string>> got(threads); std::atomic<unsigned> ready{0}; vector<std::thread> th;
        for (unsigned i = 0; i < threads; ++i) th.emplace_back([&, i] { ready.fetch_add(1); while (ready.load() < threads) std::this_thread::yield(); for (unsigned r = 0; r < rounds; ++r) for (auto k : plan[i]) got[i].push_back(outcome(ops[k].f)); });
        for (auto& x : th) x.join();
        // alone
        vector<string> want; for (auto& o : ops) want.push_back(outcome(o.f));
        for (unsigned i = 0; i < threads; ++i) for (size_t r = 0; r < got[i].size(); ++r) { size_t k = plan[i][r % plan[i].size()]; if (got[i][r] != want[k]) return ops[k].name + "\nin thread " + std::to_string(i) + " gave\n  " + got[i][r] + "\nbut alone\n  " + want[k]; }
        S.reset(); return string(); };
    // in a process where the library has not run yet
    int fd[2]; if (pipe(fd)) c.discard(); pid_t p = fork(); if (p < 0) { close(fd[0]); close(fd[1]); c.discard(); }
    if (p == 0) { alarm(100); dup2(fd[1], 2); close(fd[0]); if (fd[1] != 2) close(fd[1]); string m; try { m = body(); } catch (const std::exception& e) { m = string("an exception escaped: ") + e.what(); } if (!m.empty()) { if (write(2, m.data(), std::min<size_t>(m.size(), 8000))) {} _exit(3); } _exit(0); }
    close(fd[1]); string text; char buf[4096]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0 || (k < 0 && errno == EINTR)) if (k > 0 && text.size() < 20000) text.append(buf, size_t(k)); close(fd[0]);
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) c.fail(text);
        string s; std::istringstream is(text); string l; int m = 0; while (m < 16 && std::getline(is, l)) if (l.find("WARNING") != l.npos || l.find("rite of") != l.npos || l.find("ead of") != l.npos || l.find("#0") != l.npos || l.find("#1") != l.npos || l.find("#2") != l.npos) { s += "\n  " + l; ++m; }
        c.fail((WIFEXITED(st) ? "the process ended with status " + std::to_string(WEXITSTATUS(st)) : "the process was killed by signal " + std::to_string(WTERMSIG(st))) + s); }
    if (any) c.nontrivial(); c.label(threads == 2 ? "2 threads" : threads == 3 ? "3 threads" : "4 threads");
    for (auto& o : ops) { static const char* pre[] = {"command", "wide", "conf", "env", "storing", "print", "find", "reading", "copying", "strings"}; for (auto q : pre) if (o.name.compare(0, strlen(q), q) == 0) c.label(q); }
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P23"; P.run = run; P.quick = 8000; P.thorough = 800000; P.attempts = 12;
    P.rule = "two to four threads, each with a plan of calls (any parser, store and notify on maps of their own, output, lookup, reading and copying a shared map, string functions) on one shared description, positional description, parsed options and chained map, in a process where the library has not run before, under the thread sanitizer; then the same calls alone. Non-trivial: at least two threads make the same call";
    return pbt::engine_main(argc, argv, P);
}
