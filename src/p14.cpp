// P14: wide and narrow interfaces agree; character conversion loses nothing.
#include "common.hpp"
#include <boost/program_options/detail/convert.hpp>
#include <cstring>
#include <locale>
#include <sstream>
using namespace t; using pbt::Ctx;

namespace {
std::locale loc_c, loc_utf8;
struct UseLocale { std::locale old; UseLocale(bool utf8) { old = std::locale::global(utf8 ? loc_utf8 : loc_c); } ~UseLocale() { std::locale::global(old); } };

// ------------------------------------------------------------------ codecs
// A facet which converts at most 'most' characters per call, as a facet may.
class Piecemeal : public std::codecvt<wchar_t, char, std::mbstate_t> {
public:
    mutable uint64_t calls = 0; vector<size_t> sizes;
    explicit Piecemeal(vector<size_t> s) : std::codecvt<wchar_t, char, std::mbstate_t>(1), sizes(std::move(s)) {}
protected:
    size_t most() const { return sizes[calls++ % sizes.size()]; }
    result do_in(std::mbstate_t&, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const override
    {
        size_t n = most(); fn = f; tn = t;
        while (fn != fe && tn != te && n--) {
            bool done = false;
            for (int k = 1; k <= 4 && fn + k <= fe && !done; ++k) { wstring w; if (ref_decode(string(fn, k), w)) { *tn++ = w[0]; fn += k; done = true; } }
            if (!done) return fe - fn >= 4 ? error : partial;
        }
        return fn == fe ? ok : partial;
    }
    result do_out(std::mbstate_t&, const wchar_t* f, const wchar_t* fe, const wchar_t*& fn, char* t, char* te, char*& tn) const override
    {
        size_t n = most(); fn = f; tn = t;
        while (fn != fe && n--) { string s = ref_encode_cp(uint32_t(*fn)); if (size_t(te - tn) < s.size()) return partial; memcpy(tn, s.data(), s.size()); tn += s.size(); ++fn; }
        return fn == fe ? ok : partial;
    }
    bool do_always_noconv() const noexcept override { return false; }
    int do_encoding() const noexcept override { return 0; }
    int do_max_length() const noexcept override { return 4; }
};
// malformed by structure: never a prefix-complete sequence of well-formed characters
string break_it(Ctx& c, const string& good)
{
    string s = good; size_t at = c.below(s.size() + 1); while (at < s.size() && (s[at] & 0xC0) == 0x80) ++at;
    switch (c.below(4)) {
    case 0: s.insert(at, 1, char(0x80 + c.below(64))); if (at && (s[at - 1] & 0x80) == 0) break; break;               // stray continuation
    case 1: { string ch = ref_encode_cp(c.pick({0xe9u, 0x20acu, 0x1f600u})); s.insert(at, ch.substr(0, 1 + c.below(ch.size() - 1))); break; } // cut short
    case 2: s.insert(at, 1, char(0xFE + c.below(2))); break;
    default: { string ch = ref_encode_cp(c.pick({0xe9u, 0x20acu, 0x1f600u})); s += ch.substr(0, 1 + c.below(ch.size() - 1)); break; }                // at the end
    }
    return s;
}
wstring decode(const string& s) { wstring w; ref_decode(s, w); return w; }
void codec(Ctx& c)
{
    // any length, any alignment of multi-byte characters relative to the pieces converted
    size_t n = c.weighted({30, 40, 20, 5}); n = n == 0 ? c.below(8) : n == 1 ? 20 + c.below(90) : n == 2 ? c.size(40, 400) : 31 + c.below(4);
    string s; size_t pad = c.below(n + 1); if (c.coin()) { s = string(pad, 'a') + gen_utf8(c, c.size(6, 20)) + string(n - pad, 'z'); } else s = gen_utf8(c, n);
    if (c.chance(1, 8)) s.insert(c.below(2) ? s.size() : 0, 1, '\0');
    wstring w; if (!ref_decode(s, w)) c.fail("generator"); for (wchar_t ch : w) if ((uint32_t(ch) >> 7) == (0xE0000 >> 7)) c.discard();   // glibc, not the library
    c.key(s);
    unsigned which = c.weighted({30, 25, 10, 25}); bool bad = c.chance(1, 4); string b = bad ? break_it(c, s) : s; wstring bw; bool malformed = bad && !ref_decode(b, bw);
    if (bad && !malformed) c.discard();
    // lenient decoding of overlong forms and the like is not our subject: only structural damage
    c.key(uint64_t(which)); c.key(b); if (c.describing()) c.out() << (which == 0 ? "utf8 " : which == 1 ? "locale C.UTF-8 " : which == 2 ? "locale C " : "piecemeal facet ") << pbt::esc(b) << "\n";
    bool ascii = true; for (unsigned char ch : s) ascii &= ch < 128; if (!ascii) c.nontrivial(); if (s.size() > 32) c.label("longer than one piece");
    UseLocale u(which == 1); vector<size_t> sizes; for (size_t k = 1 + c.below(4); k-- > 0; ) sizes.push_back(1 + c.below(c.coin() ? 3 : 40)); Piecemeal facet(sizes);
    auto from = [&](const string& x) { return which == 0 ? boost::from_utf8(x) : which == 3 ? boost::from_8_bit(x, facet) : boost::from_local_8_bit(x); };
    auto to = [&](const wstring& x) { return which == 0 ? boost::to_utf8(x) : which == 3 ? boost::to_8_bit(x, facet) : boost::to_local_8_bit(x); };
    wstring gw; Caught r = catch_err([&] { gw = from(b); });
    bool must_fail = malformed || (which == 2 && !ascii);
    if (must_fail) { c.label(malformed ? "malformed" : "not representable"); if (!r.threw || r.e.cls != "logic_error") c.fail("from: " + pbt::esc(b) + (r.threw ? " gave " + r.e.show() : " was accepted as " + pbt::esc(gw))); }
    else if (r.threw || gw != w) c.fail("from: " + pbt::esc(b) + " gave " + (r.threw ? r.e.show() : pbt::esc(gw)) + " instead of " + pbt::esc(w));
    string gs; r = catch_err([&] { gs = to(w); });
    if (which == 2 && !ascii) { if (!r.threw || r.e.cls != "logic_error") c.fail("to: " + pbt::esc(w) + " was accepted as " + pbt::esc(gs)); }
    else if (r.threw || gs != s) c.fail("to: " + pbt::esc(w) + " gave " + (r.threw ? r.e.show() : pbt::esc(gs)) + " instead of " + pbt::esc(s));
    if (which == 0) { if (po::to_internal(w) != s || po::to_internal(s) != s) c.fail("to_internal"); vector<wstring> vw(2, w); vector<string> vs(2, s); if (po::to_internal(vw) != vs || po::to_internal(vs) != vs) c.fail("to_internal of a vector"); }
    c.label(which == 0 ? "utf8" : which == 1 ? "locale C.UTF-8" : which == 2 ? "locale C" : "piecemeal facet");
}

// ------------------------------------------------------------------ parsing and storing
// Both must do the same; returns false if they threw (the same).
bool same(Ctx& c, const string& what, const Caught& n, const Caught& w)
{
    if (n.threw != w.threw) c.fail(what + ": narrow " + (n.threw ? n.e.show() : "succeeds") + ", wide " + (w.threw ? w.e.show() : "succeeds"));
    if (n.threw && (!same_class(n.e, w.e) || n.e.what != w.e.what)) c.fail(what + ": narrow " + n.e.show() + ", wide " + w.e.show());
    return !n.threw;
}
void compare_options(Ctx& c, const string& what, const vector<POpt>& n, const vector<POpt>& w) { if (n != w) c.fail(what + ": narrow" + show(n) + "\n  wide" + show(w)); }
void compare_rest(Ctx& c, const po::parsed_options& n, const po::wparsed_options& w)
{
    if (n.description != w.description || n.description != w.utf8_encoded_options.description) c.fail("the descriptions of the narrow and wide result differ");
    if (n.m_options_prefix != w.m_options_prefix || n.m_options_prefix != w.utf8_encoded_options.m_options_prefix) c.fail("the prefix styles of the narrow and wide result differ");
    compare_options(c, "UTF-8 options", from_real(n.options), from_real(w.utf8_encoded_options.options));
}
void stores(Ctx& c, const vector<Opt>& opts, const po::options_description& d, const po::parsed_options& n, const po::wparsed_options& w)
{
    UseLocale u(true); po::variables_map vn, vw; (void)d; (void)opts;
    Caught a = catch_err([&] { po::store(n, vn); }), b = catch_err([&] { po::store(w, vw); });
    bool ok = same(c, "store", a, b); c.label(ok ? "stored" : "store failed");
    vector<string> kn, kw; for (auto& x : vn) kn.push_back(x.first); for (auto& x : vw) kw.push_back(x.first); if (kn != kw) c.fail("narrow stores " + pbt::esc(kn) + ", wide stores " + pbt::esc(kw));
    for (auto& x : vn) { MV p = any_to_mv(x.second.value()), q = any_to_mv(vw[x.first].value()); if (p != q || x.second.defaulted() != vw[x.first].defaulted()) c.fail(pbt::esc(x.first) + ": narrow " + p.show() + ", wide " + q.show()); }
    // texts arrive as they were given
    std::map<string, vector<string>> given; std::set<string> skip; for (auto& o : n.options) { if (o.value.empty()) skip.insert(o.string_key); for (auto& x : o.value) given[o.string_key].push_back(x); }
    if (ok) for (auto& x : vn) { if (x.second.defaulted() || skip.count(x.first) || !given.count(x.first)) continue; const vector<string>& g = given[x.first]; bool same_text = true, other = false;
        if (auto* p = boost::any_cast<vector<wstring>>(&x.second.value())) { same_text = p->size() == g.size(); for (size_t i = 0; same_text && i < g.size(); ++i) same_text = (*p)[i] == decode(g[i]); if (g.size() > 1) c.label("several wide texts of one option"); }
        else if (auto* p = boost::any_cast<wstring>(&x.second.value())) same_text = g.size() == 1 && *p == decode(g[0]);
        else if (auto* p = boost::any_cast<vector<string>>(&x.second.value())) same_text = *p == g;
        else if (auto* p = boost::any_cast<string>(&x.second.value())) same_text = g.size() == 1 && *p == g[0];
        else other = true;
        if (!same_text) c.fail(pbt::esc(x.first) + " given " + pbt::esc(g) + " is stored as " + any_to_mv(x.second.value()).show()); if (!other) c.label("text compared"); }
    Caught e = catch_err([&] { po::notify(vn); }), f = catch_err([&] { po::notify(vw); }); same(c, "notify", e, f);
}
// In the "C" locale: what the local encoding lacks is an error and never stored, the rest as it is.
void stores_c(Ctx& c, const po::parsed_options& n, const po::wparsed_options& w)
{
    UseLocale u(false); po::variables_map vn, vw; Caught a = catch_err([&] { po::store(n, vn); }), b = catch_err([&] { po::store(w, vw); });
    for (auto* r : {&a, &b}) if (r->threw && (r->e.cls == "bad_any_cast" || r->e.cls == "bad_lexical_cast")) c.fail("store in the C locale gave " + r->e.show());
    std::map<string, vector<string>> given; std::set<string> skip; bool ascii = true; for (auto& o : n.options) { if (o.value.empty()) skip.insert(o.string_key); for (auto& x : o.value) { given[o.string_key].push_back(x); for (unsigned char ch : x) ascii &= ch < 128; } }
    if (ascii) { same(c, "store in the C locale", a, b); return; }
    for (int wide = 0; wide < 2; ++wide) for (auto& x : wide ? vw : vn) { if (x.second.defaulted() || skip.count(x.first) || !given.count(x.first)) continue;
        const vector<string>& g = given[x.first]; const boost::any& v = x.second.value(); bool na = false; for (auto& s : g) for (unsigned char ch : s) na |= ch > 127; if (!na) continue;
        bool wv = boost::any_cast<wstring>(&v) || boost::any_cast<vector<wstring>>(&v), nv = boost::any_cast<string>(&v) || boost::any_cast<vector<string>>(&v); if (!wv && !nv) continue;
        // a rejected store may have kept some of several values
        if ((wide ? b : a).threw && g.size() > 1) continue;
        if (wv != bool(wide)) c.fail(pbt::esc(x.first) + " given " + pbt::esc(g) + (wide ? " by a wide" : " by a narrow") + " source in the C locale is stored as " + any_to_mv(v).show());
        bool right = true; if (auto* p = boost::any_cast<string>(&v)) right = g.size() == 1 && *p == g[0]; else if (auto* p = boost::any_cast<wstring>(&v)) right = g.size() == 1 && *p == decode(g[0]);
        else if (auto* p = boost::any_cast<vector<string>>(&v)) right = *p == g; else { auto& q = boost::any_cast<const vector<wstring>&>(v); right = q.size() == g.size(); for (size_t i = 0; right && i < g.size(); ++i) right = q[i] == decode(g[i]); }
        if (!right) c.fail(pbt::esc(x.first) + " given " + pbt::esc(g) + " is stored in the C locale as " + any_to_mv(v).show()); c.label(wide ? "C locale, wide to wide" : "C locale, narrow to narrow"); }
    c.label(a.threw ? b.threw ? "C locale: both rejected" : "C locale: narrow rejected" : b.threw ? "C locale: wide rejected" : "C locale: stored");
}
// Options made by a program itself (or its own parsers), converted to wide ones.
void by_hand(Ctx& c)
{
    po::options_description d; po::parsed_options n(c.coin() ? &d : nullptr, int(c.below(40))); size_t k = c.size(4, 40); bool nonascii = false;
    auto text = [&] { string s = c.coin() ? gen_utf8(c, c.size(5, 80)) : c.str("abc-/= ", c.size(5, 60)); for (unsigned char ch : s) nonascii |= ch > 127; return s; };
    for (size_t i = 0; i < k; ++i) {
        po::option o; if (c.chance(4, 5)) o.string_key = text(); if (c.chance(1, 3)) o.position_key = int(c.below(9)) - 1; o.unregistered = c.chance(1, 4); o.case_insensitive = c.chance(1, 3);
        size_t a = c.below(4), b = c.below(4); while (a--) o.value.push_back(text()); while (b--) o.original_tokens.push_back(c.chance(1, 3) && !o.value.empty() ? o.value[c.below(o.value.size())] : text());
        n.options.push_back(o); c.key(o.string_key); c.key(o.value); c.key(o.original_tokens);
    }
    if (c.describing()) c.out() << "by hand" << show(from_real(n.options)) << "\n";
    po::wparsed_options w(n); compare_options(c, "converted options", from_real(n.options), from_real(w.options)); compare_rest(c, n, w);
    for (auto mode : {po::include_positional, po::exclude_positional}) { vector<string> un = po::collect_unrecognized(n.options, mode), uw; for (auto& x : po::collect_unrecognized(w.options, mode)) uw.push_back(ref_encode(x)); if (un != uw) c.fail("unrecognised: narrow " + pbt::esc(un) + ", wide " + pbt::esc(uw)); }
    c.label("options made by hand"); if (k >= 2 && nonascii) c.nontrivial();
}
bool decodable(const string& s) { wstring w; return ref_decode(s, w); }
void parse(Ctx& c)
{
    NameCfg n; n.weird = false; n.collide = c.chance(1, 4); n.wild = c.chance(1, 6); n.max_opts = 5; vector<Opt> v = gen_names(c, n); SemCfg sc; sc.wide = true; gen_sems(c, v, sc);
    for (auto& o : v) for (auto& l : o.longs) { if (c.chance(1, 6)) l = l.back() == '*' ? gen_utf8(c, 1 + c.below(3)) + l : l + gen_utf8(c, 1 + c.below(3)); for (auto& ch : l) if (ch == ',' || ch == '\0' || (ch == '*' && &ch != &l.back())) ch = 'q'; if (!decodable(l)) c.discard(); }
    for (auto& o : v) { bool star = false; for (auto& l : o.longs) star |= l.find('*') != l.npos && l.find('*') + 1 != l.size(); if (star) c.discard(); if (o.shrt.empty() && o.longs.size() > 1 && o.longs.back().size() == 1) c.discard(); }
    po::options_description d; add_options(d, v); int style = gen_style(c); for (auto& o : v) c.key(o.names());
    if (c.coin()) {
        ParseCase p; p.opts = v; p.style = style; p.allow_unreg = c.chance(1, 3); if (c.chance(1, 3)) { p.has_pos = true; p.pos = gen_pos(c, v, c.coin()); }
        for (auto& s : c.coin() ? gen_tokens(c, v, style, c.size(5, 40)) : gen_line(c, v, style, c.size(5, 40), 10, c.coin())) if (decodable(s)) p.tokens.push_back(s);
        if (c.chance(1, 3)) for (auto& s : p.tokens) if (c.chance(1, 4)) s += gen_utf8(c, 1 + c.size(3, 60));
        c.key(p.tokens); if (c.describing()) c.out() << p.show();
        // characters split by the syntax of short options: the recorded finding
        ParseResult m = model_parse(p.tokens, p.cfg()); bool split = false; for (auto& o : m.opts) { split |= !decodable(o.key) && false; for (auto& x : o.value) split |= !decodable(x); for (auto& x : o.orig) split |= !decodable(x); }
        if (split) { c.label("excluded: split character"); c.discard(); }
        po::positional_options_description pd; if (p.has_pos) p.pos.build(pd); vector<wstring> wt; for (auto& s : p.tokens) wt.push_back(decode(s));
        bool twice = !p.tokens.empty() && c.chance(1, 3); vector<const char*> av{twice ? p.tokens[0].c_str() : "prog"}; vector<const wchar_t*> wv{twice ? wt[0].c_str() : L"prog"}; for (auto& s : p.tokens) av.push_back(s.c_str()); for (auto& s : wt) wv.push_back(s.c_str());
        bool argv = c.coin(); for (auto& s : p.tokens) if (s.find('\0') != s.npos) argv = false;
        po::parsed_options rn(nullptr); po::wparsed_options rw(po::parsed_options(nullptr, 0));
        Caught a = catch_err([&] { if (argv && !p.has_pos && !p.allow_unreg && c.coin()) { rn = po::parse_command_line(int(av.size()), av.data(), d, style); return; } po::command_line_parser q = argv ? po::command_line_parser(int(av.size()), av.data()) : po::command_line_parser(p.tokens); q.options(d).style(style); if (p.has_pos) q.positional(pd); if (p.allow_unreg) q.allow_unregistered(); rn = q.run(); });
        Caught b = catch_err([&] { if (argv && !p.has_pos && !p.allow_unreg && c.coin()) { rw = po::parse_command_line(int(wv.size()), wv.data(), d, style); return; } po::wcommand_line_parser q = argv ? po::wcommand_line_parser(int(wv.size()), wv.data()) : po::wcommand_line_parser(wt); q.options(d).style(style); if (p.has_pos) q.positional(pd); if (p.allow_unreg) q.allow_unregistered(); rw = q.run(); });
        bool nonascii = false; for (auto& s : p.tokens) for (unsigned char ch : s) nonascii |= ch > 127; if (nonascii) { c.nontrivial(); c.label("non-ASCII tokens"); }
        if (!same(c, "command line", a, b)) { c.label("parse rejected"); return; }
        compare_options(c, "command line", from_real(rn.options), from_real(rw.options));
        compare_rest(c, rn, rw);
        for (auto mode : {po::include_positional, po::exclude_positional}) { vector<string> un = po::collect_unrecognized(rn.options, mode), uw; for (auto& x : po::collect_unrecognized(rw.options, mode)) uw.push_back(ref_encode(x)); if (un != uw) c.fail("unrecognised: narrow " + pbt::esc(un) + ", wide " + pbt::esc(uw)); }
        for (auto& o : rn.options) if (o.unregistered) { c.label("unregistered"); break; }
        c.label("command line"); if (c.chance(1, 4)) stores_c(c, rn, rw); else stores(c, v, d, rn, rw);
    } else {
        v = only_long(v); if (v.empty()) c.discard(); po::options_description dl; add_options(dl, v);
        string text = c.coin() ? gen_config(c, v, true, c.size(5, 40)) : gen_good_config(c, v, c.size(5, 40), 10); if (c.chance(1, 3)) { size_t nl = text.find('\n'); if (nl != text.npos) text.insert(nl, gen_utf8(c, 1 + c.size(4, 60))); }
        if (!decodable(text)) { c.label("undecodable text"); c.discard(); }
        bool unreg = c.chance(1, 3); c.key(text); if (c.describing()) c.out() << show(v) << "configuration file " << pbt::esc(text) << "\n";
        bool nonascii = false; for (unsigned char ch : text) nonascii |= ch > 127; if (nonascii) { c.nontrivial(); c.label("non-ASCII file"); }
        po::parsed_options rn(nullptr); po::wparsed_options rw(po::parsed_options(nullptr, 0));
        Caught a = catch_err([&] { std::istringstream is(text); rn = po::parse_config_file(is, dl, unreg); }), b = catch_err([&] { std::wistringstream is(decode(text)); rw = po::parse_config_file(is, dl, unreg); });
        if (!same(c, "configuration file", a, b)) { c.label("file rejected"); return; }
        compare_options(c, "configuration file", from_real(rn.options), from_real(rw.options)); compare_rest(c, rn, rw); c.label("configuration file"); if (c.chance(1, 4)) stores_c(c, rn, rw); else stores(c, v, dl, rn, rw);
    }
}
void run(Ctx& c) { if (c.chance(2, 5)) codec(c); else if (c.chance(1, 12)) by_hand(c); else parse(c); }
void init() { loc_c = std::locale::classic(); loc_utf8 = std::locale("C.UTF-8"); }
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P14"; P.run = run; P.quick = 300000; P.thorough = 10000000; P.init = init;
    P.rule = "strings of any length and alignment through the UTF-8, locale and user facet conversions against an independent codec, intact and damaged; and command lines and configuration files with text in any script through the narrow and wide interfaces (parse, store, notify, collect_unrecognized), which must do the same. Non-trivial: there are non-ASCII characters";
    P.pinned = {
        [](Ctx& c) { UseLocale u(true); for (auto s : {"z\xc2", "z\xe2\x82", "\xc2"}) { Caught r = catch_err([&] { boost::from_local_8_bit(s); }); if (!r.threw) c.fail("an incomplete character at the end was accepted"); } },
        [](Ctx& c) { po::options_description d; d.add_options()("Foo", po::value<string>(), ""); vector<wstring> t(1, L"--FOO=1"); po::variables_map vm;
            po::store(po::wcommand_line_parser(t).options(d).style(po::command_line_style::unix_style | po::command_line_style::case_insensitive).run(), vm); if (!vm.count("Foo")) c.fail("wide case-insensitive option"); }};
    P.findings = {{"split-character", [](Ctx& c) {
        po::options_description d; vector<wstring> t(1, L"-\u00e9"); 
        Caught r = catch_err([&] { po::wcommand_line_parser(t).options(d).allow_unregistered().run(); }); if (r.threw) c.fail("unknown option -\\u00e9: " + r.e.show()); }}};
    return pbt::engine_main(argc, argv, P);
}
