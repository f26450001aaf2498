// P06: style masks.  All 8192 masks are enumerated; each with a battery of
// command lines and through every entry point.
#include "common.hpp"
using namespace t; using pbt::Ctx;

namespace {
Opt O(const char* l, const char* s, Kind k) { Opt o; string n; for (const char* p = l; ; ++p) { if (*p == ',' || !*p) { if (n.size()) o.longs.push_back(n); n.clear(); if (!*p) break; } else n += *p; } o.shrt = s; o.sem.kind = k; return o; }
const vector<Opt>& opts()
{
    static vector<Opt> v = [] {
        vector<Opt> r = {O("Alpha", "-a", KUntyped0), O("beta,bETA2", "-B", KString), O("gamma", "-g", KVecString), O("gamut", "", KString), O("", "-x", KUntyped0), O("", "-Y", KString), O("delta", "-d", KString), O("lib*", "", KString)};
        r[2].sem.multi = true; r[6].sem.has_impl = true; r[6].sem.impl = {"i"}; return r; }();
    return v;
}
const vector<vector<string>>& battery()
{
    static vector<vector<string>> v = {
        {"--Alpha"}, {"--alpha"}, {"--ALP"}, {"--Alp"}, {"--beta=v"}, {"--beta", "v"}, {"--BETA", "v"}, {"--bETA2=v"}, {"--be=v"}, {"--gam=v"}, {"--gamma", "v", "w"}, {"--gamm=v"}, {"--delta"}, {"--delta=v"}, {"--delta", "v"},
        {"-a"}, {"-A"}, {"-B", "v"}, {"-b", "v"}, {"-Bv"}, {"-bv"}, {"-ax"}, {"-xa"}, {"-axBv"}, {"-axB", "v"}, {"-XA"}, {"-Yv"}, {"-y", "v"}, {"-gv", "w"}, {"-d"}, {"-dv"}, {"-axd"},
        {"/a"}, {"/A"}, {"/B", "v"}, {"/Bv"}, {"/b", "v"}, {"/ax"}, {"/x"}, {"/Yv"}, {"/Alpha"}, {"/beta=v"}, {"/beta", "v"}, {"/be", "v"}, {"/path/file"}, {"/gam"}, {"/d"},
        {"-Alpha"}, {"-alpha"}, {"-Alp"}, {"-beta=v"}, {"-beta", "v"}, {"-BETA=v"}, {"-gam"}, {"-gamut", "v"}, {"-al"}, {"-be=v"}, {"-de"}, {"-delta=v"},
        {"--libfoo=v"}, {"--LIBfoo=v"}, {"-libfoo=v"}, {"--li=v"}, {"--lib=v"}, {"/libfoo", "v"},
        {"word"}, {"-"}, {"/"}, {"--", "-a", "--Alpha"}, {"word", "--", "--beta"}, {"--unknown"}, {"-u"}, {"/u"}, {"-unknown"}, {"--beta="}, {"-beta="}, {"--Alpha=v"}, {"-av"}, {"/av"}, {"-a=v"}, {"-B=v"}, {"--beta", "-a"}, {"--beta", "--Alpha"}, {"-B", "-a"}, {"-B", "/a"}, {"--beta", "/a"}, {"--beta", "-5"}, {"-Y"}, {"--beta"}, {"---a"}, {"--=v"}, {"-=v"}, {""},
        {"-a", "word", "--gamma", "1", "2", "-x", "3"}, {"/a", "-x", "--Alpha"}, {"-gv", "--", "w"},
        {"/B:v"}, {"-B:v"}, {"/B=v"}, {"-B+v"}, {"/B-v"}, {"--beta=:v"}, {"-beta=:v"}, {"--beta==v"}, {"--beta:v"}, {"/beta:v"}, {"-B", ":v"}, {"+a"}};
    return v;
}
Err expected_style_error(int s) { Err e; const char* k = style_error(s); if (k) { e.cls = "invalid_command_line_style"; e.what = k; } return e; }
void check_error(Ctx& c, const char* entry, int style, const Caught& k)
{
    const char* e = style_error(style);
    string who = string(entry) + " with style " + std::to_string(style) + " (" + style_show(style) + "): ";
    if (!e) { if (k.threw && k.e.cls == "invalid_command_line_style") c.fail(who + "was rejected: " + k.e.what); return; }
    if (!k.threw) c.fail(who + "was accepted");
    if (k.e.cls != "invalid_command_line_style") c.fail(who + "gave " + k.e.show());
    string key = string(e) == "long" ? "long_allow_next" : string(e) == "short" ? "short_allow_next" : "allow_slash_for_short";
    if (k.e.what.find(key) == string::npos) c.fail(who + "the message does not say what to do: " + pbt::esc(k.e.what));
}
void entries(Ctx& c, int style)
{
    po::options_description d; add_options(d, opts());
    const char* argv[] = {"p", "word", nullptr}; const wchar_t* wargv[] = {L"p", L"word", nullptr};
    vector<string> v(1, "word"); vector<wstring> wv(1, L"word");
    check_error(c, "command_line_parser(vector)", style, catch_err([&] { po::command_line_parser(v).options(d).style(style).run(); }));
    check_error(c, "command_line_parser(argc)", style, catch_err([&] { po::command_line_parser(2, argv).style(style).options(d).run(); }));
    check_error(c, "wcommand_line_parser(vector)", style, catch_err([&] { po::wcommand_line_parser(wv).options(d).style(style).run(); }));
    check_error(c, "wcommand_line_parser(argc)", style, catch_err([&] { po::wcommand_line_parser(2, wargv).options(d).style(style).run(); }));
    check_error(c, "parse_command_line", style, catch_err([&] { po::parse_command_line(2, argv, d, style); }));
    check_error(c, "parse_command_line<wchar_t>", style, catch_err([&] { po::parse_command_line(2, wargv, d, style); }));
    check_error(c, "style()", style, catch_err([&] { po::command_line_parser q(v); q.style(style); }));
}
void parse(Ctx& c, const vector<string>& tokens, int style, int entry, bool wide, bool unreg)
{
    ParseCase p; p.opts = opts(); p.style = style; p.tokens = tokens; p.entry = entry; p.allow_unreg = unreg;
    ParseResult m = model_parse(tokens, p.cfg());
    if (c.describing()) c.out() << p.show();
    po::options_description d;
    RealResult r = real_parse(p, d);
    try { compare_parse(c, m, r, false); } catch (pbt::Fail& f) { c.fail(p.show() + f.msg); }
    if (r.ok && r.prefix != canonical_prefix(style)) c.fail(p.show() + "wrong prefix " + std::to_string(r.prefix));
    if (wide) {
        vector<wstring> w; for (auto& s : tokens) { wstring x; if (!ref_decode(s, x)) return; w.push_back(x); }
        for (auto& o : m.opts) for (auto& v : o.value) { wstring x; if (!ref_decode(v, x)) return; }   // a character split by short option syntax: known finding of P14
        RealResult q; 
        Caught k = catch_err([&] { po::wcommand_line_parser pr(w); pr.options(d).style(style); if (unreg) pr.allow_unregistered(); q.opts = from_real(pr.run().options); });
        q.ok = !k.threw; q.err = k.e;
        try { compare_parse(c, m, q, false); } catch (pbt::Fail& f) { c.fail(p.show() + "(wide) " + f.msg); }
    }
}
void enumerate(Ctx& c, uint64_t mask)
{
    entries(c, int(mask));
    c.key(mask); c.nontrivial();
    c.label(style_error(int(mask)) ? "mask rejected" : "mask accepted");
    if (style_error(int(mask))) return;
    for (size_t i = 0; i < battery().size(); ++i) parse(c, battery()[i], int(mask), int(i % 3), i % 4 == mask % 4, false);
}
void run(Ctx& c)
{
    int style = gen_style(c); vector<string> t; size_t n = 1 + c.below(5);
    while (t.size() < n) {
        if (c.chance(1, 4)) {   // each form with a value that begins with some other sign
            static const vector<string> forms = {"-B", "/B", "--beta=", "-beta=", "/beta=", "-Y", "/Y", "-d", "/d", "--delta=", "-g", "--beta", "-ax", "/ax"};
            string v = string(1, c.chr(":=-/+,;@#\"'~!?&|.*% \\ab1")) + c.str("v:=-/+ ", c.below(3)); t.push_back(c.pick(forms) + v);
        }
        else if (c.chance(2, 3)) { auto& b = battery()[c.below(battery().size())]; t.insert(t.end(), b.begin(), b.end()); }
        else { auto g = gen_tokens(c, opts(), style, 1); t.insert(t.end(), g.begin(), g.end()); }
    }
    int entry = int(c.below(2)); for (auto& s : t) if (s.find('\0') != s.npos) entry = 0;
    c.key(uint64_t(style)); c.key(t);
    if (t.size() >= 2) c.nontrivial();
    ParseCase p; p.opts = opts(); p.style = style; p.tokens = t; label_parse(c, model_parse(t, p.cfg()));
    parse(c, t, style, entry, c.chance(1, 3), c.chance(1, 3));
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P06"; P.run = run; P.quick = 120000; P.thorough = 5000000;
    P.rule = "every mask through seven entry points, and under every accepted mask some ninety command lines, one for each token form with the bits that do and do not enable it; then random valid masks with random concatenations of these. Non-trivial: every mask; random cases of at least two tokens";
    P.exhaustive = 8192; P.run_exhaustive = enumerate; P.exhaustive_note = "all style masks x entry points x battery of command lines";
    return pbt::engine_main(argc, argv, P);
}
