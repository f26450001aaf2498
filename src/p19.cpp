// P19: split_winmain.  The function exists on Windows only but is portable: its source is compiled here.
#include <bits/stdc++.h>
#include "common.hpp"
#include <boost/tokenizer.hpp>
#include <boost/bind/bind.hpp>
#include <boost/function.hpp>
#include <boost/program_options/detail/convert.hpp>
namespace boost { namespace program_options {
std::vector<std::string> split_winmain(const std::string&);
std::vector<std::wstring> split_winmain(const std::wstring&);
}}
#define _WIN32 1
#include "winmain.cpp"
#undef _WIN32
using namespace t; using pbt::Ctx;

namespace {
vector<string> model(const string& s)
{
    auto sp = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
    vector<string> r; size_t i = 0, n = s.size();
    for (;;) {
        while (i < n && sp(s[i])) ++i;
        if (i == n) return r;
        string a; bool q = false;
        while (i < n && (q || !sp(s[i]))) {
            size_t b = 0; while (i < n && s[i] == '\\') { ++b; ++i; }
            if (i < n && s[i] == '"') { a.append(b / 2, '\\'); if (b % 2) a += '"'; else q = !q; ++i; }
            else if (b) a.append(b, '\\');
            else a += s[i++];
        }
        r.push_back(a);
    }
}
string quote(const string& a, bool force)
{
    if (!force && !a.empty() && a.find_first_of(" \t\n\v\f\r\"") == a.npos) return a;
    string s = "\""; size_t b = 0;
    for (char ch : a) { if (ch == '\\') { ++b; continue; } if (ch == '"') s.append(2 * b + 1, '\\'); else s.append(b, '\\'); b = 0; s += ch; }
    s.append(2 * b, '\\'); return s + '"';
}
void check(Ctx& c, const string& text, const vector<string>& want)
{
    vector<string> got = po::split_winmain(text);
    if (got != want) c.fail(pbt::esc(text) + ": expected " + pbt::esc(want) + ", got " + pbt::esc(got));
    wstring w; if (!ref_decode(text, w)) return;
    vector<wstring> ww; for (auto& x : want) { wstring y; if (!ref_decode(x, y)) return; ww.push_back(y); }
    vector<wstring> wg = po::split_winmain(w); if (wg != ww) c.fail("wide " + pbt::esc(text) + ": expected " + pbt::esc(ww) + ", got " + pbt::esc(wg));
    c.label("also wide");
}
string piece(Ctx& c, size_t n)
{
    switch (c.weighted({60, 20, 20})) { case 0: return c.str("ab\\\\\" \t", n); case 1: return gen_utf8(c, n); default: return c.bytes(n); }
}
void run(Ctx& c)
{
    if (c.coin()) {
        vector<string> args; size_t n = c.size(4, 60); string text(c.chance(1, 6) ? "  " : ""); bool quoted = false;
        for (size_t i = 0; i < n; ++i) { string a = piece(c, c.size(6, 100)); bool f = c.chance(1, 4); args.push_back(a); if (i) text += c.chance(1, 5) ? c.str(" \t", 1 + c.below(3)) : " "; string q = quote(a, f); if (q != a) quoted = true; text += q; }
        if (c.chance(1, 6)) text += " ";
        c.key(text); if (c.describing()) c.out() << "arguments " << pbt::esc(args) << " quoted as " << pbt::esc(text) << "\n";
        if (quoted) c.nontrivial(); c.label("round trip"); if (model(text) != args) c.fail("model disagrees with quoting " + pbt::esc(text));
        check(c, text, args);
    } else {
        string text = c.chance(3, 4) ? c.str("ab\\\\\"\" \t\n", c.size(10, 300)) : piece(c, c.size(10, 300)); c.key(text); if (c.describing()) c.out() << "text " << pbt::esc(text) << "\n";
        vector<string> m = model(text); if (text.find('"') != text.npos && m.size() > 0) c.nontrivial(); c.label(m.size() > 1 ? "several arguments" : m.empty() ? "none" : "one argument");
        check(c, text, m);
    }
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P19"; P.run = run; P.quick = 2000000; P.thorough = 40000000;
    P.rule = "either a list of arguments quoted by the standard Windows rules, which must split back to itself, or arbitrary text (mostly of quotes, backslashes and spaces) against a model; char and wchar_t. Non-trivial: something is quoted";
    return pbt::engine_main(argc, argv, P);
}
