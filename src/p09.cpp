// P09: environment parsing.
#include "common.hpp"
#include <unistd.h>
using namespace t; using pbt::Ctx;

namespace {
struct Env {       // replaces the process environment while it lives
    vector<vector<char>> text; vector<char*> ptr; char** old;
    Env(const vector<string>& e, bool null) : old(environ)
    {
        for (auto& s : e) { text.emplace_back(s.begin(), s.end()); text.back().push_back(0); }
        for (auto& t : text) ptr.push_back(t.data());
        ptr.push_back(nullptr);
        environ = null ? nullptr : ptr.data();
    }
    ~Env() { environ = old; }
};
string noz(string s) { for (auto& ch : s) if (!ch) ch = 'Z'; return s; }
string gen_entry(Ctx& c, const string& prefix)
{
    string n;
    switch (c.weighted({50, 15, 10, 5, 10})) {
    case 0: n = prefix + c.str("ABCxyz_019.", c.size(5, 300)); break;
    case 1: n = c.str("ABCxyz_", 1 + c.size(5, 40)); break;
    case 2: n = prefix.substr(0, c.below(prefix.size() + 1)); if (c.coin()) n = flip_case(c, n); break;
    case 3: n = "X" + prefix + "A"; break;
    default: n = c.coin() ? noz(c.bytes(c.size(6, 60))) : noz(gen_word(c)); break;
    }
    switch (c.weighted({80, 6, 4, 10})) {
    case 0: { string v = c.chance(1, 8) ? string() : noz(gen_word(c)); if (c.chance(1, 5)) v += "=" + c.str("ab=", c.below(4)); return n + "=" + v; }
    case 1: return n;                    // no '='
    case 2: return "=" + n;
    default: return n + "=" + noz(c.bytes(c.size(8, 400)));
    }
}
void compare(Ctx& c, const string& who, const po::parsed_options& r, const vector<POpt>& want, const po::options_description& d)
{
    auto got = from_real(r.options);
    if (got != want) c.fail(who + ": expected" + show(want) + "\n  but got" + show(got));
    if (r.description != &d) c.fail(who + ": wrong description");
    if (r.m_options_prefix != 0) c.fail(who + ": wrong options prefix");
}
void check(Ctx& c, const vector<string>& env, bool null, const string& prefix)
{
    po::options_description d; d.add_options()("path", po::value<string>(), "")("a", po::value<string>(), "");
    if (c.describing()) { c.out() << "environment: " << (null ? "(null)" : pbt::esc(env)) << "\nprefix: " << pbt::esc(prefix) << "\n"; }
    vector<POpt> want = model_env(env, [&](string n) { return prefix_map(prefix, n); });
    c.key(env); c.key(prefix);
    if (env.size() >= 2 && want.size() && want.size() < env.size()) c.nontrivial();
    c.label(null ? "null" : env.empty() ? "empty" : want.empty() ? "none taken" : want.size() == env.size() ? "all taken" : "some taken");
    Env e(env, null);
    compare(c, "prefix (string)", po::parse_environment(d, prefix), want, d);
    compare(c, "prefix (const char*)", po::parse_environment(d, prefix.c_str()), want, d);
    // mappers
    unsigned kind = unsigned(c.below(4)); vector<string> seen;
    auto map = [&](const string& n) -> string {
        switch (kind) { case 0: return n; case 1: return n.size() % 2 ? "" : "k" + n; case 2: return n.find('A') != n.npos ? "path" : ""; default: return string(n.rbegin(), n.rend()); } };
    vector<POpt> want2 = model_env(env, map);
    compare(c, "mapper " + std::to_string(kind), po::parse_environment(d, [&](string n) { seen.push_back(n); return map(n); }), want2, d);
    vector<string> names; for (auto& s : env) { size_t q = s.find('='); if (q != s.npos) names.push_back(s.substr(0, q)); }
    if (seen != names) c.fail("the mapper was given " + pbt::esc(seen) + " instead of " + pbt::esc(names));
    // twice: nothing is left behind
    if (c.chance(1, 10)) compare(c, "second time", po::parse_environment(d, prefix), want, d);
}
void run(Ctx& c)
{
    string prefix; switch (c.below(5)) { case 0: prefix = c.str("ABCxyz_", c.size(4, 40)); break; case 1: prefix = "P_"; break; case 2: prefix = c.str("AA_", 1 + c.below(4)); break; case 3: prefix = ""; break; default: prefix = noz(gen_word(c)); }
    vector<string> env; size_t n = c.size(6, 200); if (n > 60) n = 60;
    for (size_t i = 0; i < n; ++i) env.push_back(!env.empty() && c.chance(1, 10) ? env[c.below(env.size())] : gen_entry(c, prefix));
    check(c, env, n == 0 && c.coin(), prefix);
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P09"; P.run = run; P.quick = 400000; P.thorough = 15000000;
    P.rule = "the process environment is replaced by random entries (with and without the prefix, prefixes of it, other case, no '=', several '=', empty names and values, duplicates, bytes), parsed with both prefix overloads and one of four mappers, and compared with a reference; mapper calls are recorded. Non-trivial: at least two entries of which some but not all are taken";
    P.pinned = {[](Ctx& c) { check(c, {}, true, "X"); }, [](Ctx& c) { check(c, {"NOEQUALS", "A=1", "=x"}, false, ""); }};
    return pbt::engine_main(argc, argv, P);
}
