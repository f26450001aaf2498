// P15: split_unix against a splitter model, and as the inverse of quoting.
#include "common.hpp"
using namespace t; using pbt::Ctx;

namespace {
template<class C> using S = std::basic_string<C>;
template<class C> struct Split { bool ok = true; vector<S<C>> v; };
template<class C> Split<C> model(const S<C>& text, const S<C>& sep, const S<C>& quote, const S<C>& esc)
{
    Split<C> r; S<C> cur; bool q = false; auto in = [](const S<C>& s, C c) { return s.find(c) != s.npos; };
    auto flush = [&] { if (!cur.empty()) r.v.push_back(cur); cur.clear(); };
    for (size_t i = 0; i < text.size(); ++i) {
        C ch = text[i];
        if (in(esc, ch)) {
            if (++i == text.size()) { r.ok = false; return r; }
            C x = text[i]; if (x == C('n')) cur += C('\n'); else if (in(quote, x) || in(sep, x) || in(esc, x)) cur += x; else { r.ok = false; return r; }
        } else if (in(sep, ch)) { if (q) cur += ch; else flush(); }
        else if (in(quote, ch)) q = !q;
        else cur += ch;
    }
    flush(); return r;
}
template<class C> S<C> conv(const vector<uint32_t>& v) { S<C> s; for (auto x : v) s += C(x); return s; }
template<class C> bool real(const S<C>& text, const S<C>& sep, const S<C>& quote, const S<C>& esc, bool defaults, vector<S<C>>& out, string& what)
{
    try { out = defaults ? po::split_unix(text) : po::split_unix(text, sep, quote, esc); return true; }
    catch (const std::exception& e) { what = e.what(); return false; }
}
template<class C> void one(Ctx& c, const vector<uint32_t>& text, const vector<uint32_t>& sep, const vector<uint32_t>& quote, const vector<uint32_t>& esc, bool defaults, const vector<vector<uint32_t>>* want)
{
    S<C> t = conv<C>(text), s = conv<C>(sep), q = conv<C>(quote), e = conv<C>(esc); vector<S<C>> got; string what;
    Split<C> m = model(t, s, q, e); bool ok = real(t, s, q, e, defaults, got, what);
    auto why = [&] { return pbt::esc(t) + " separators " + pbt::esc(s) + " quotes " + pbt::esc(q) + " escapes " + pbt::esc(e) + ": "; };
    if (want) { vector<S<C>> w; for (auto& x : *want) w.push_back(conv<C>(x)); if (!m.ok || m.v != w) c.fail("model disagrees with quoting: " + why()); }
    if (ok != m.ok) c.fail(why() + (m.ok ? "expected " + pbt::esc(m.v) + ", got the error " + what : "expected an error, got " + pbt::esc(got)));
    if (ok && got != m.v) c.fail(why() + "expected " + pbt::esc(m.v) + ", got " + pbt::esc(got));
}
void run(Ctx& c)
{
    // characters: code units below 256 are used narrow and wide, others wide only
    bool wide = c.coin(); vector<uint32_t> sep{' ', '\t'}, quote{'\'', '"'}, esc{'\\'}; bool defaults = c.chance(1, 2);
    auto special = [&] { return uint32_t(wide && c.chance(1, 6) ? gen_cp(c) : c.chance(1, 12) ? c.below(256) : (unsigned char)c.chr(" \t'\"\\,;:|n/^`")); };
    if (!defaults) { auto set = [&](vector<uint32_t>& v) { v.clear(); for (size_t n = c.weighted({1, 5, 3, 1}); n-- > 0; ) v.push_back(special()); }; set(sep); set(quote); set(esc); }
    auto any = [&]() -> uint32_t {
        switch (c.weighted({40, 15, 12, 10, 10, 6})) {
        case 0: return (unsigned char)c.chr("abnx-=/1");
        case 1: return sep.empty() ? ' ' : c.pick(sep);
        case 2: return quote.empty() ? '"' : c.pick(quote);
        case 3: return esc.empty() ? '\\' : c.pick(esc);
        case 4: return special();
        default: return wide ? gen_cp(c) : uint32_t(c.below(256));
        } };
    vector<uint32_t> text;
    auto in = [](const vector<uint32_t>& v, uint32_t x) { return std::find(v.begin(), v.end(), x) != v.end(); };
    bool round = c.coin();
    if (round) {
        // quote and escape a list of strings
        for (auto* v : {&sep, &quote, &esc}) v->erase(std::remove(v->begin(), v->end(), uint32_t('n')), v->end());
        // the roles must be distinct
        quote.erase(std::remove_if(quote.begin(), quote.end(), [&](uint32_t x) { return in(sep, x) || in(esc, x); }), quote.end()); sep.erase(std::remove_if(sep.begin(), sep.end(), [&](uint32_t x) { return in(esc, x); }), sep.end());
        if (sep.empty()) sep.push_back('\x01');
        if (in(esc, 1) || in(quote, 1)) c.discard();
        vector<vector<uint32_t>> want; size_t n = c.size(4, 60); bool first = true, quoted = false, escaped = false;
        for (size_t i = 0; i < n; ++i) {
            vector<uint32_t> w; size_t len = 1 + c.size(6, 200); if (size_t big = c.huge(400)) len = big; vector<uint32_t> pool; if (len > 40) for (int k = 0; k < 6; ++k) pool.push_back(any()); 
            for (size_t k = 0; k < len; ++k) { uint32_t x = pool.empty() ? any() : pool[k % 6]; if ((esc.empty() && in(quote, x)) || (quote.empty() && esc.empty() && in(sep, x))) { x = 'a'; while (in(quote, x) || in(sep, x)) ++x; } w.push_back(x); }
            if (!first || c.chance(1, 6)) for (size_t k = 1 + c.chance(1, 5); k-- > 0; ) text.push_back(c.pick(sep)); 
            first = false; bool q = false;
            for (auto x : w) {
                if (!quote.empty() && c.chance(1, 6)) { text.push_back(c.pick(quote)); q = !q; quoted = true; }
                if (in(esc, x) || in(quote, x)) { text.push_back(c.pick(esc)); text.push_back(x); escaped = true; }
                else if (in(sep, x) && !q) { if (!esc.empty() && (quote.empty() || c.coin())) { text.push_back(c.pick(esc)); text.push_back(x); escaped = true; } else { text.push_back(c.pick(quote)); q = true; quoted = true; text.push_back(x); } }
                else if (x == '\n' && !esc.empty() && c.coin()) { text.push_back(c.pick(esc)); text.push_back('n'); escaped = true; }
                else text.push_back(x);
            }
            if (q) text.push_back(c.pick(quote));
            want.push_back(w);
        }
        if (c.chance(1, 6)) text.push_back(c.pick(sep));
        defaults = sep == vector<uint32_t>{' ', '\t'} && quote == vector<uint32_t>{'\'', '"'} && esc == vector<uint32_t>{'\\'} && defaults;
        if (quoted || escaped) c.nontrivial(); c.label(quoted && escaped ? "quoted and escaped" : quoted ? "quoted" : escaped ? "escaped" : "plain list"); if (n > 20) c.label("long list");
        for (auto x : text) c.key(uint64_t(x)); for (auto x : sep) c.key(uint64_t(x)); for (auto x : quote) c.key(uint64_t(x)); for (auto x : esc) c.key(uint64_t(x));
        if (c.describing()) c.out() << "split of " << pbt::esc(conv<wchar_t>(text)) << " separators " << pbt::esc(conv<wchar_t>(sep)) << " quotes " << pbt::esc(conv<wchar_t>(quote)) << " escapes " << pbt::esc(conv<wchar_t>(esc)) << " must give back " << want.size() << " strings\n";
        one<wchar_t>(c, text, sep, quote, esc, defaults, &want); if (!wide) one<char>(c, text, sep, quote, esc, defaults, &want);
        return;
    }
    size_t n = c.size(10, 300); for (size_t i = 0; i < n; ++i) text.push_back(any());
    for (auto x : text) c.key(uint64_t(x)); for (auto x : sep) c.key(uint64_t(x)); for (auto x : quote) c.key(uint64_t(x)); for (auto x : esc) c.key(uint64_t(x));
    if (c.describing()) c.out() << "split of " << pbt::esc(conv<wchar_t>(text)) << " separators " << pbt::esc(conv<wchar_t>(sep)) << " quotes " << pbt::esc(conv<wchar_t>(quote)) << " escapes " << pbt::esc(conv<wchar_t>(esc)) << "\n";
    Split<wchar_t> m = model(conv<wchar_t>(text), conv<wchar_t>(sep), conv<wchar_t>(quote), conv<wchar_t>(esc)); if (!m.ok || m.v.size() > 1) c.nontrivial();
    c.label(!m.ok ? "bad escape" : m.v.size() > 1 ? "several pieces" : m.v.empty() ? "nothing" : "one piece");
    one<wchar_t>(c, text, sep, quote, esc, defaults, nullptr); if (!wide) one<char>(c, text, sep, quote, esc, defaults, nullptr);
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P15"; P.run = run; P.quick = 400000; P.thorough = 30000000;
    P.rule = "either a list of strings, quoted and escaped in random legal ways, which must split back to itself, or arbitrary text against a splitter model; default or arbitrary separator, quote and escape sets, char and wchar_t. Non-trivial: something is quoted or escaped, there are several pieces, or an escape is in error";
    return pbt::engine_main(argc, argv, P);
}
