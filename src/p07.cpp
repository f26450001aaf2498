// P07: configuration file grammar.
#include "common.hpp"
#include "streams.hpp"
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
using namespace t; using pbt::Ctx;

namespace {
struct Res { bool ok = true; Err err; vector<POpt> opts; const void* desc = nullptr; int prefix = 0; };
template<class F> Res get(F f) { Res r; Caught k = catch_err([&] { auto p = f(); r.opts = from_real(p.options); r.desc = p.description; r.prefix = p.m_options_prefix; }); r.ok = !k.threw; r.err = k.e; return r; }

void compare(Ctx& c, const char* who, const CfgResult& m, const Res& r, const po::options_description* d)
{
    string w = string(who) + ": ";
    if (m.ok != r.ok) c.fail(w + (m.ok ? "expected the options" + show(m.opts) + "\n  but got " + r.err.show() : "expected " + m.err.show() + "\n  but got the options" + show(r.opts)));
    if (!m.ok) { if (m.err.cls != r.err.cls || (m.err.kind >= 0 && m.err.kind != r.err.kind)) c.fail(w + "expected " + m.err.show() + "\n  but got " + r.err.show()); return; }
    vector<POpt> got = r.opts; for (auto& o : got) { if (o.ci) c.fail(w + "an option is marked case-insensitive"); }
    if (got != m.opts) c.fail(w + "expected the options" + show(m.opts) + "\n  but got" + show(got));
    if (r.desc != d) c.fail(w + "wrong description");
    if (r.prefix != 0) c.fail(w + "m_options_prefix is " + std::to_string(r.prefix));
}
string memfile(const string& text, int& fd)
{
    fd = memfd_create("cfg", 0); if (fd < 0) { perror("memfd_create"); _exit(2); }
    for (size_t at = 0; at < text.size(); ) { ssize_t n = write(fd, text.data() + at, text.size() - at); if (n <= 0) { perror("write"); _exit(2); } at += n; }
    return "/proc/self/fd/" + std::to_string(fd);
}
void every_way(Ctx& c, const vector<Opt>& opts, const string& text, bool unreg, const CfgResult& m, int groups)
{
    po::options_description d; build_desc(d, opts, groups);
    { std::istringstream is(text); compare(c, "stream", m, get([&] { return po::parse_config_file(is, d, unreg); }), &d); }
    if (!unreg && c.chance(1, 8)) { std::istringstream is(text); compare(c, "stream, default argument", m, get([&] { return po::parse_config_file(is, d); }), &d); }
    if (c.chance(1, 3)) {
        vector<size_t> cuts; size_t n = 1 + c.below(4); for (size_t i = 0; i < n; ++i) cuts.push_back(1 + c.size(5, 200));
        chunk_buf<char> b(text, cuts); std::istream is(&b); compare(c, "chunked stream", m, get([&] { return po::parse_config_file(is, d, unreg); }), &d); c.label("chunked");
    }
    wstring w;
    if (c.chance(1, 2) && ref_decode(text, w)) {
        // a character may be cut by nothing in this syntax: all its delimiters are ASCII
        c.label("wide");
        if (c.coin()) { std::wistringstream is(w); compare(c, "wide stream", m, get([&] { return po::parse_config_file(is, d, unreg); }), &d); }
        else { vector<size_t> cuts(1, 1 + c.below(9)); chunk_buf<wchar_t> b(w, cuts); std::wistream is(&b); compare(c, "chunked wide stream", m, get([&] { return po::parse_config_file(is, d, unreg); }), &d); }
    }
    if (c.chance(1, 6)) {
        c.label("file"); int fd; string name = memfile(text, fd);
        Res r = get([&] { return po::parse_config_file<char>(name.c_str(), d, unreg); }), r2; bool wide = true; for (unsigned char ch : text) if (ch > 127) wide = false;
        if (wide) r2 = get([&] { return po::parse_config_file<wchar_t>(name.c_str(), d, unreg); });
        close(fd);
        compare(c, "file", m, r, &d); if (wide) compare(c, "wide file", m, r2, &d);
    }
}
void check(Ctx& c, const vector<Opt>& opts, const string& text, bool unreg, int groups = 0)
{
    CfgResult m = model_config(text, opts, unreg);
    for (auto& o : opts) c.key(o.names()); c.key(text); c.key(uint64_t(unreg));
    if (c.describing()) c.out() << show(opts) << (unreg ? "unregistered names allowed\n" : "") << "text: " << pbt::esc(text) << "\n" << (m.ok ? "options:" + show(m.opts) : m.err.show()) << "\n";
    if (m.sections) c.label("sections"); if (m.wild) c.label("wildcard"); if (m.unreg) c.label("unregistered"); if (m.comments) c.label("comments");
    if (!m.ok) c.label(m.err.cls == "invalid_config_file_syntax" ? "error: syntax" : m.err.cls == "unknown_option" ? "error: unknown" : "error: description");
    if (m.lines >= 2 && (!m.ok || (m.opts.size() && (m.sections || m.comments || m.wild || m.opts.size() > 1)))) c.nontrivial();
    every_way(c, opts, text, unreg, m, groups);
}
vector<Opt> gen_cfg_opts(Ctx& c, bool errors)
{
    NameCfg n; n.wild = c.chance(1, 2); n.weird = c.chance(1, 6); n.short_only = errors && c.chance(1, 12); n.max_opts = 1 + c.below(8);
    auto v = gen_names(c, n);
    // names whose order as strings differs from that without the '*'
    if (n.wild && c.chance(1, 3)) for (auto& o : v) if (!o.longs.empty() && c.chance(2, 3)) {
        string base; for (auto& q : v) if (&q != &o && !q.longs.empty() && c.coin()) base = q.longs[0];
        while (!base.empty() && base.back() == '*') base.pop_back();
        o.longs[0] = base + c.str("! \"$%&'()+-.ab", c.below(3)) + (base.empty() ? "a" : "") + (c.chance(3, 4) ? "*" : "");
    }
    for (auto& o : v) {
        o.sem.kind = c.pick({KString, KUntyped0, KVecString, KInt});
        if (!o.longs.empty() && c.chance(1, 3)) { string p = c.pick({string("a."), string("gui."), string("a.b."), string("x..")}); o.longs[0] = p + o.longs[0]; }
    }
    if (!errors) {   // wildcards which do not overlap
        vector<Opt> r; CfgResult t; for (auto& o : v) { r.push_back(o); if (!model_config("", r, false).ok) r.pop_back(); } v = r;
    }
    return v;
}
// written from intentions
void round_trip(Ctx& c)
{
    vector<Opt> v = gen_cfg_opts(c, false); if (v.empty()) c.discard();
    vector<POpt> want; string text, section; size_t n = 1 + c.size(6, 60); bool sections = false;
    const string eol = c.chance(1, 4) ? "\r\n" : "\n";
    auto noise = [&] { while (c.chance(1, 5)) text += c.pick({string(""), string("   "), string("# comment"), string("\t#[x]"), string("#a=b")}) + eol; };
    auto token = [](string s) { for (auto& ch : s) if (ch == '\n' || ch == '#' || ch == '\r') ch = '_'; size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == s.npos ? string() : s.substr(a, b - a + 1); };
    for (size_t i = 0; i < n; ++i) {
        string name = gen_config_name(c, v);
        if (name.empty() || token(name) != name || name.find('=') != name.npos || name[0] == '[') continue;
        bool known = false; for (auto& o : v) { if (o.longs[0] == name) known = true; if (o.longs[0].back() == '*' && name.size() >= o.longs[0].size() && name.compare(0, o.longs[0].size() - 1, o.longs[0], 0, o.longs[0].size() - 1) == 0) known = true; }
        if (!known) continue;
        string val = c.chance(1, 8) ? string() : token(gen_word(c) + (c.chance(1, 5) ? c.str("= ab[]\"'\\", 1 + c.size(4, 200)) : string()));
        noise();
        // pick a section: a prefix of the name ending at a dot
        vector<size_t> dots; for (size_t k = 0; k + 1 < name.size(); ++k) if (name[k] == '.') dots.push_back(k);
        string sec = dots.empty() ? "" : name.substr(0, dots[c.below(dots.size())] + 1);
        string local;
        if (!section.empty() && name.size() > section.size() && name.compare(0, section.size(), section) == 0 && c.coin()) local = name.substr(section.size());
        else if (section.empty() && (sec.empty() || c.coin())) local = name;
        else if (sec.empty() || (sec.size() == 1)) continue;
        else {
            string s = sec; if (s.size() >= 2 && s[s.size() - 2] != '.' && c.coin()) s.pop_back();
            if (token(s) != s || s.find(']') != s.npos) continue;
            text += gen_ws(c) + "[" + s + "]" + gen_ws(c) + eol; section = sec; local = name.substr(sec.size()); sections = true; noise();
        }
        if (local.empty() || token(local) != local || local[0] == '[') { continue; }
        text += gen_ws(c) + local + gen_ws(c) + "=" + gen_ws(c) + val + gen_ws(c) + (c.chance(1, 6) ? "#" + c.str("ab=#[", c.below(5)) : "") + eol;
        POpt e; e.key = name; e.value = {val}; e.orig = {name, val}; want.push_back(e);
    }
    if (c.chance(1, 3) && !text.empty()) text.resize(text.size() - eol.size());
    c.label("round trip"); if (sections) c.label("sections"); if (want.size() >= 2) c.nontrivial();
    for (auto& o : v) c.key(o.names()); c.key(text);
    if (c.describing()) c.out() << show(v) << "text: " << pbt::esc(text) << "\nintended:" << show(want) << "\n";
    CfgResult m; m.opts = want; m.lines = 1;
    every_way(c, v, text, c.chance(1, 4), m, c.chance(1, 4) ? int(c.below(12)) : 0);
}
void run(Ctx& c)
{
    if (c.chance(1, 3)) { round_trip(c); return; }
    vector<Opt> v = gen_cfg_opts(c, c.chance(1, 2));
    bool loose = c.chance(2, 3); bool unreg = c.chance(1, 3);
    string text = c.chance(1, 12) ? c.str("ab=[]#.\n\r\t *\xc3\xa9", c.size(30, 400)) : gen_config(c, v, loose, c.size(6, 80));
    check(c, v, text, unreg, c.chance(1, 4) ? int(c.below(12)) : 0);
}
Opt O(const char* l) { Opt o; o.longs.push_back(l); o.sem.kind = KString; return o; }
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P07"; P.run = run; P.quick = 250000; P.thorough = 12000000;
    P.rule = "two thirds: texts of well- and ill-formed lines derived from random option names (sections, wildcards, comments, white space, CRLF, raw characters) against a reference line grammar; one third: files written from intended (section, name, value) lists with noise. Each text is parsed from a string stream and some of: a chunked stream, a wide stream, a file, a wide file. Non-trivial: at least two lines with an error, or options and one of sections, comments, wildcards, several options; round trip: at least two options";
    P.pinned = {[](Ctx& c) { check(c, {O("a"), O("b.c")}, "[]\na=1\n", true); }, [](Ctx& c) { check(c, {O("b.c")}, "[b]\r\nc = = x # y\r\n[]\n[", false); },
                [](Ctx& c) { check(c, {O("foo*"), O("foob*")}, "", false); }, [](Ctx& c) { check(c, {O("foo*")}, "foo=1", false); }};
    return pbt::engine_main(argc, argv, P);
}
