// P18: robustness.  Arbitrary bytes into every entry point; each call is made twice, in different orders.
#include <bits/stdc++.h>
#include "common.hpp"
#include <deque>
#include <algorithm>
#include <sstream>
#include <unistd.h>
#include <boost/token_functions.hpp>
#include <boost/program_options/detail/convert.hpp>
#include <boost/tokenizer.hpp>
namespace boost { namespace program_options { std::vector<std::string> split_winmain(const std::string&); } }
#define _WIN32 1
#include "winmain.cpp"
#undef _WIN32
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace t; using pbt::Ctx;

namespace {
struct Env {
    vector<vector<char>> text; vector<char*> ptr; char** old;
    Env(const vector<string>& e) : old(environ) { for (auto& s : e) { text.emplace_back(s.begin(), s.end()); text.back().push_back(0); } for (auto& t : text) ptr.push_back(t.data()); ptr.push_back(nullptr); environ = ptr.data(); }
    ~Env() { environ = old; }
    bool same(const vector<string>& e) const { for (size_t i = 0; i < e.size(); ++i) if (memcmp(text[i].data(), e[i].c_str(), e[i].size() + 1) || ptr[i] != text[i].data()) return false; return ptr.back() == nullptr; }
};
string raw(Ctx& c, size_t small, size_t cap)
{
    switch (c.weighted({40, 25, 15, 10, 10})) {
    case 0: return c.bytes(c.size(small, cap));
    case 1: return c.str("-/= \"'\\\n\r\t#[]*.,%ab01\x80\xc3\xa9\xff", c.size(small, cap));
    case 2: return c.pick(pbt::g_dict);
    case 3: return gen_utf8(c, c.size(small, cap));
    default: { string s = c.pick(pbt::g_dict); size_t k = c.below(4); for (size_t i = 0; i < k; ++i) { if (s.empty() || c.coin()) s.insert(s.begin() + c.below(s.size() + 1), c.bytes(1)[0]); else s[c.below(s.size())] = c.bytes(1)[0]; } return s; }
    }
}
string nonul(string s) { for (auto& ch : s) if (!ch) ch = '\x01'; return s; }
wstring widen(Ctx& c, const string& s) { wstring w; if (c.coin() && ref_decode(s, w)) { for (auto& ch : w) if ((uint32_t(ch) >> 7) == (0xE0000 >> 7)) ch = L't'; return w; } w.clear(); for (unsigned char ch : s) w += wchar_t(ch); if (!w.empty() && c.chance(1, 3)) w[c.below(w.size())] = wchar_t(c.chance(1, 3) ? 0xD800 + c.below(0x800) : gen_cp(c)); return w; }
template<class C> string show_opts(const vector<po::basic_option<C>>& v)
{ string s; for (auto& o : v) { s += "{" + pbt::esc(o.string_key) + " " + std::to_string(o.position_key) + " " + pbt::esc(o.value) + " " + pbt::esc(o.original_tokens) + (o.unregistered ? "U" : "") + (o.case_insensitive ? "C" : "") + "}"; } return s; }
string show_vm(const po::variables_map& vm) { string s; for (auto& kv : vm) s += pbt::esc(kv.first) + "=" + any_to_mv(kv.second.value()).show() + (kv.second.defaulted() ? "(d)" : "") + ";"; return s; }

// the outcome of a call: a result or an error of the documented kinds
string outcome(Ctx& c, const std::function<string()>& f)
{
    string r; bool quoting = false;
    try { Caught k = catch_err([&] { try { r = f(); } catch (const boost::escaped_list_error& e) { quoting = true; r = string("escaped_list_error ") + e.what(); } });
        if (k.threw) {
            const string& cls = k.e.cls;
            if (cls == "bad_lexical_cast" || cls == "bad_any_cast") c.fail("an undocumented " + cls + " escaped: " + k.e.what);
            if (cls == "logic_error" && k.e.what.find("conversion") == string::npos) c.fail("an undocumented logic_error escaped: " + k.e.what);
            r = "error " + k.e.show();
        } } 
    catch (const std::exception& e) { c.fail(string("an undocumented exception escaped: ") + e.what()); }
    return r;
}

struct Op { string name; std::function<string()> f; };

// ---- the same calls on inputs far larger than any program meets
void huge_input(Ctx& c)
{
    unsigned kind = unsigned(c.below(9)); size_t n = 60000 + c.below(60000); c.key(kind); c.key(n); string doing = "kind " + std::to_string(kind) + " of size " + std::to_string(n); if (c.describing()) c.out() << "huge input, " << doing << "\n";
    c.label("huge input"); c.nontrivial(); po::options_description d; d.add_options()("opt,o", po::value<string>(), "")("vec", po::value<vector<string>>()->multitoken(), "")("x,x", po::bool_switch(), "")("number", po::value<int>(), "")("flag,f", "");
    auto want = [&](bool ok, const string& what) { if (!ok) c.fail(doing + ": " + what); };
    switch (kind) {
    case 0: { // lines which say nothing
        static const vector<string> lines = {"\n", "# comment\n", "  \t\r\n", "[s]\n", "[]\n"}; string text = c.coin() ? "opt=first\n" : "", l = c.pick(lines); bool first = !text.empty(), mixed = c.chance(1, 4);
        for (size_t i = 0; i < n; ++i) text += mixed ? lines[(i * 7 + i / 3) % lines.size()] : l;
        text += "[vec]\n[.]\n["; text.resize(text.size() - 1); bool sections = mixed || l[0] == '['; text += "opt=last\n"; std::istringstream is(text); auto r = po::parse_config_file(is, d, true);
        want(r.options.size() == 1 + first && r.options.back().value == vector<string>(1, "last"), "wrong options"); (void)sections; break; }
    case 1: { string v = c.str("ab =-\xc3\xa9", 8); string big; while (big.size() < n * 10) big += v + "z"; std::istringstream is("opt = " + big + "\n"); size_t a = big.find_first_not_of(' '); auto r = po::parse_config_file(is, d); want(r.options.size() == 1 && r.options[0].value[0] == big.substr(a), "another value"); break; }
    case 2: { bool q = c.coin(); string s; for (size_t i = 0; i < n; ++i) s += q ? "'a b' " : i % 3 ? " " : "ab "; size_t m = po::split_unix(s).size(); want(m == (q ? n : (n + 2) / 3), std::to_string(m) + " tokens"); break; }
    case 3: { string text, word = c.str("abc", 1 + c.below(30)); for (size_t i = 0; i < n / 4; ++i) text += word + (i % 50 == 49 && c.coin() ? "\n" : " "); po::options_description e; e.add_options()("a", text.c_str()); std::ostringstream os; os << e; size_t k = 0; for (char ch : os.str()) k += ch == 'a' || ch == 'b' || ch == 'c'; size_t per = word.size(); want(k == per * (n / 4) + 1, "characters lost or added"); break; }
    case 4: { vector<string> t(1, "-" + string(n / 4, 'x')); auto r = po::command_line_parser(t).options(d).run(); want(r.options.size() == n / 4, "wrong number of options"); for (auto& o : r.options) want(o.string_key == "x" || o.string_key == "-x", "another option"); break; }
    case 5: { // long names in every message
        string name = string(n, 'q'); po::options_description e; e.add_options()((name + ",q").c_str(), po::value<int>()->required(), "text"); po::variables_map vm; vector<string> none; string what; try { po::store(po::command_line_parser(none).options(e).run(), vm); po::notify(vm); } catch (po::required_option& x) { what = x.what(); } want(what == "the option '--" + name + "' is required but missing", "required_option says something else");
        vector<string> t{"--" + name + "=bad"}; what.clear(); try { po::store(po::command_line_parser(t).options(e).run(), vm); } catch (po::error& x) { what = x.what(); } want(what == "the argument ('bad') for option '--" + name + "' is invalid", "the message is another: " + what.substr(0, 80)); std::ostringstream os; os << e; want(os.str().find(name) != string::npos, "the name is not shown"); 
        t[0] = "--" + name + "z"; what.clear(); try { po::command_line_parser(t).options(e).run(); } catch (po::error& x) { what = x.what(); } want(what == "unrecognised option '" + t[0] + "'", "unknown_option says something else"); break; }
    case 6: { // deep nesting
        size_t deep = 20 + n % 60; std::unique_ptr<po::options_description> e(new po::options_description("level 0")); e->add_options()("a0", ""); for (size_t i = 1; i < deep; ++i) { std::unique_ptr<po::options_description> f(new po::options_description("level " + std::to_string(i))); f->add_options()(("a" + std::to_string(i)).c_str(), ""); f->add(*e); e = std::move(f); } std::ostringstream os; os << *e; size_t k = 0; for (size_t p = 0; (p = os.str().find("level ", p)) != string::npos; ++p) ++k; want(k == deep, "groups lost"); want(e->options().size() == deep, "options lost"); break; }
    case 7: { string digits(n, '7'), what; vector<string> t{"--number", digits}; po::variables_map vm; try { po::store(po::command_line_parser(t).options(d).run(), vm); } catch (po::invalid_option_value& x) { what = x.what(); } want(what == "the argument ('" + digits + "') for option '--number' is invalid", "wrong message");
        wstring w(n, L'\u20ac'); vector<wstring> wt{L"--opt", w}; auto r = po::wcommand_line_parser(wt).options(d).run(); want(r.options.size() == 1 && r.options[0].value[0] == w, "wide text lost"); break; }
    default: { // many tokens, and a long chain of maps
        vector<string> t(2000 + n % 2000, "a"); bool multi = c.coin(); t[0] = multi ? "--vec" : "--"; auto r = po::command_line_parser(t).options(d).run(); want(multi ? r.options.size() == 1 && r.options[0].value.size() == t.size() - 1 : r.options.size() == t.size() - 1, "tokens lost");
        std::deque<po::variables_map> maps(1000 + n % 2000); for (size_t i = 0; i + 1 < maps.size(); ++i) maps[i].next(&maps[i + 1]); maps.back().insert(std::make_pair(string("k"), po::variable_value(boost::any(1), c.coin()))); want(!maps[0]["k"].empty() && maps[0]["none"].empty(), "not found through the chain"); break; }
    }
}

void run(Ctx& c)
{
    if (c.chance(1, 700)) { huge_input(c); return; }
    // ---- descriptions over arbitrary names, kept for all calls
    struct D { vector<Opt> opts; Sinks sinks; std::unique_ptr<po::options_description> d; string print0; };
    vector<std::shared_ptr<D>> ds; size_t nd = 1 + c.below(2);
    for (size_t i = 0; i < nd; ++i) {
        auto d = std::make_shared<D>(); NameCfg n; n.collide = c.coin(); n.wild = c.chance(1, 3); n.weird = c.coin(); n.max_opts = 1 + c.below(7);
        d->opts = gen_names(c, n); gen_sems(c, d->opts, SemCfg());
        for (auto& o : d->opts) { 
            if (c.chance(1, 4) && !o.longs.empty()) { string& l = o.longs[c.below(o.longs.size())]; l = nonul(raw(c, 6, 60)); for (auto& ch : l) if (ch == ',') ch = ';'; if (l.empty()) l = "q"; }
            for (auto& l : o.longs) for (auto& ch : l) if (!ch) ch = 'z';
            if (o.shrt.empty() && o.longs.size() > 1 && o.longs.back().size() == 1) o.longs.back() += "w";
            o.desc = nonul(raw(c, 20, 300)); o.has_desc = c.chance(4, 5);
            if (o.sem.typed() && c.chance(1, 6)) o.sem.value_name = nonul(raw(c, 5, 40));
            if (o.sem.typed() && o.sem.kind != KSwitch && c.chance(1, 8)) o.sem.required = true; o.sem.notifier = c.coin(); if (o.sem.kind != KArity && o.sem.typed()) o.sem.store_to = c.coin(); }
        unsigned len = c.chance(1, 3) ? 5 + unsigned(c.below(200)) : 80, mind = c.chance(1, 2) ? len / 2 : 2 + unsigned(c.below(len - 3)); if (mind < 2) mind = 2;
        // groups share the line length of their parent
        d->d.reset(new po::options_description(c.coin() ? nonul(raw(c, 8, 60)) : "", len, mind)); build_desc(*d->d, d->opts, len == 80 && mind == 40 ? int(c.below(12)) : 0, &d->sinks);
        ds.push_back(d); if (c.describing()) c.out() << "description " << i << ", line length " << len << ", minimum description length " << mind << "\n" << show(d->opts);
        for (auto& o : d->opts) { c.key(o.names()); c.key(uint64_t(o.sem.kind)); }
        unsigned* unused = nullptr; (void)unused;
    }
    auto fingerprint = [&](D& d) { string s; Caught k = catch_err([&] { std::ostringstream os; d.d->print(os); s = os.str(); }); if (k.threw) s = k.e.show(); for (auto& o : d.d->options()) { auto ln = o->long_names(); s += "|" + o->format_name() + "|" + o->format_parameter() + "|" + o->description(); for (size_t i = 0; i < ln.second; ++i) s += "," + ln.first[i]; } return s; };
    for (auto& d : ds) d->print0 = fingerprint(*d);

    // ---- the calls
    vector<Op> ops; size_t n = 1 + c.size(5, 12); size_t hard = 0;
    auto values = [&](D& d) { for (auto& s : d.sinks.s) s->notified.clear(); };
    for (size_t k = 0; k < n; ++k) {
        D* d = ds[c.below(nd)].get(); Op op;
        switch (c.weighted({26, 8, 16, 6, 10, 10, 5, 8, 5, 6, 8})) {
        case 0: case 1: {
            bool use_wide = c.chance(1, 4); int style = c.chance(1, 8) ? int(c.below(1 << 13)) : gen_style(c); bool unreg = c.chance(1, 3), has_pos = c.chance(1, 3), argv = c.coin(); PosDesc pd; if (has_pos) pd = gen_pos(c, d->opts, c.coin());
            vector<string> t; if (c.coin()) t = gen_tokens(c, d->opts, style, c.size(5, 30)); else if (c.coin()) t = gen_line(c, d->opts, style, c.size(5, 20), 10, true);
            size_t extra = t.empty() || c.coin() ? c.size(4, 20) : 0; for (size_t i = 0; i < extra; ++i) t.insert(t.begin() + c.below(t.size() + 1), (c.chance(1, 3) ? c.pick({string("--"), string("-"), string("/")}) : string()) + raw(c, 5, 120));
            if (c.chance(1, 3) && !t.empty()) { string& x = t[c.below(t.size())]; if (!x.empty()) x[c.below(x.size())] = c.bytes(1)[0]; }
            if (argv) for (auto& x : t) x = nonul(x);
            bool none = argv && !use_wide && (t.empty() ? c.coin() : c.chance(1, 40)); if (none) { t.clear(); c.label("argc is zero"); } // not even the program's name
            vector<wstring> wt; if (use_wide) for (auto& x : t) wt.push_back(widen(c, x));
            c.key(t); c.key(uint64_t(style)); op.name = (use_wide ? "wide command line " + pbt::esc(wt) : "command line " + pbt::esc(t)) + " style " + std::to_string(style) + (unreg ? " unregistered allowed" : "") + (none ? " argc 0" : argv ? " argv" : "") + (has_pos ? " positional" : ""); ++hard;
            op.f = [=, &c] {
                po::positional_options_description rp; if (has_pos) pd.build(rp); po::variables_map vm; string s; values(*d);
                auto tail = [&](auto& r) { s = show_opts(r.options); s += " unrecognised " + pbt::esc(po::collect_unrecognized(r.options, po::include_positional)) + pbt::esc(po::collect_unrecognized(r.options, po::exclude_positional)); string before = s; 
                    s += outcome(c, [&] { po::store(r, vm); return string("stored"); }); if (before != s.substr(0, before.size()) || show_opts(r.options) != before.substr(0, show_opts(r.options).size())) c.fail("store() changed the parsed options"); s += show_vm(vm); s += outcome(c, [&] { po::notify(vm); return string("notified"); }); for (auto& x : d->sinks.s) for (auto& m : x->notified) s += m.show(); };
                if (use_wide) { vector<wstring> a = wt; po::wcommand_line_parser q(a); q.options(*d->d).style(style); if (has_pos) q.positional(rp); if (unreg) q.allow_unregistered(); auto r = q.run(); tail(r); if (a != wt) c.fail("the tokens were modified"); }
                else if (argv) { vector<vector<char>> buf; if (!none) buf.push_back(vector<char>{'p', 0}); for (auto& x : t) { buf.emplace_back(x.begin(), x.end()); buf.back().push_back(0); } vector<const char*> av; for (auto& b : buf) av.push_back(b.data()); int ac = int(av.size()); if (none) av.push_back(nullptr); auto av0 = av; auto buf0 = buf;
                    po::command_line_parser q(ac, av.data()); q.options(*d->d).style(style); if (has_pos) q.positional(rp); if (unreg) q.allow_unregistered(); auto r = q.run(); tail(r); if (av != av0 || buf != buf0) c.fail("argv was modified"); }
                else { vector<string> a = t; po::command_line_parser q(a); q.options(*d->d).style(style); if (has_pos) q.positional(rp); if (unreg) q.allow_unregistered(); auto r = q.run(); tail(r); if (a != t) c.fail("the tokens were modified"); }
                return s; };
            break; }
        case 2: case 3: {
            string text = c.coin() ? gen_config(c, d->opts, true, c.size(5, 20)) : raw(c, 40, 400); size_t m = c.below(6); for (size_t i = 0; i < m && !text.empty(); ++i) { size_t at = c.below(text.size()); if (c.coin()) text[at] = c.bytes(1)[0]; else text.insert(at, raw(c, 4, 40)); }
            bool use_wide = c.chance(1, 4), unreg = c.coin(); wstring w = use_wide ? widen(c, text) : wstring(); c.key(text); op.name = (use_wide ? "wide configuration file " + pbt::esc(w) : "configuration file " + pbt::esc(text)) + (unreg ? " unregistered allowed" : ""); ++hard;
            op.f = [=, &c] { string s; po::variables_map vm; values(*d); auto tail = [&](auto& r) { s = show_opts(r.options) + pbt::esc(po::collect_unrecognized(r.options, po::include_positional)); s += outcome(c, [&] { po::store(r, vm); return string("stored"); }) + show_vm(vm); };
                if (use_wide) { std::wistringstream is(w); auto r = po::parse_config_file(is, *d->d, unreg); tail(r); } else { std::istringstream is(text); auto r = po::parse_config_file(is, *d->d, unreg); tail(r); } return s; };
            break; }
        case 4: {
            vector<string> env; size_t m = c.size(4, 20); for (size_t i = 0; i < m; ++i) { const Opt& o = d->opts[c.below(d->opts.size())]; env.push_back(nonul(c.coin() ? raw(c, 10, 200) : (o.longs.empty() ? o.shrt : o.longs[0]) + "=" + gen_word(c))); }
            int mapper = int(c.below(3)); string prefix = nonul(raw(c, 2, 10)); c.key(env); op.name = "environment " + pbt::esc(env) + (mapper == 0 ? " prefix " + pbt::esc(prefix) : ""); ++hard;
            op.f = [=, &c] { string s; po::variables_map vm; Env e(env); auto r = mapper == 0 ? po::parse_environment(*d->d, prefix) : mapper == 1 ? po::parse_environment(*d->d, prefix.c_str()) : po::parse_environment(*d->d, [](const string& x) { return x; }); s = show_opts(r.options); s += outcome(c, [&] { po::store(r, vm); return string("stored"); }) + show_vm(vm); if (!e.same(env)) c.fail("the environment was modified"); return s; };
            break; }
        case 5: {
            string text = raw(c, 30, 300), sep = c.coin() ? string(" \t") : raw(c, 2, 6), q = c.coin() ? string("'\"") : raw(c, 2, 6), esc_ = c.coin() ? string("\\") : raw(c, 2, 6); bool use_wide = c.chance(1, 3); wstring w = widen(c, text), ws = widen(c, sep), wq = widen(c, q), we = widen(c, esc_); c.key(text); c.key(sep); c.key(q); c.key(esc_); op.name = "split_unix " + pbt::esc(text) + " separators " + pbt::esc(sep) + " quotes " + pbt::esc(q) + " escapes " + pbt::esc(esc_) + (use_wide ? " wide" : ""); ++hard;
            op.f = [=] { return use_wide ? pbt::esc(po::split_unix(w, ws, wq, we)) : pbt::esc(po::split_unix(text, sep, q, esc_)); };
            break; }
        case 6: { string text = c.coin() ? c.str("\\\" a\t", c.size(20, 200)) : raw(c, 30, 300); c.key(text); op.name = "split_winmain " + pbt::esc(text); op.f = [=] { return pbt::esc(po::split_winmain(text)); }; break; }
        case 7: { string text = raw(c, 20, 400); wstring w = widen(c, text); unsigned which = unsigned(c.below(4)); c.key(text); c.key(which); op.name = "conversion " + std::to_string(which) + " of " + (which < 2 ? pbt::esc(text) : pbt::esc(w)); ++hard;
            op.f = [=] { return which == 0 ? pbt::esc(boost::from_utf8(text)) : which == 1 ? pbt::esc(boost::from_local_8_bit(text)) : which == 2 ? pbt::hexs(boost::to_utf8(w)) : pbt::hexs(boost::to_local_8_bit(w)); }; break; }
        case 8: { op.name = "print"; op.f = [=] { std::ostringstream os; os << *d->d; return os.str(); }; break; }
        case 9: { string nm = c.coin() ? raw(c, 6, 60) : [&] { const Opt& o = d->opts[c.below(d->opts.size())]; string s = o.longs.empty() ? o.shrt : o.longs[0]; return s.substr(0, c.below(s.size() + 1)); }(); bool a = c.coin(), l = c.coin(), s = c.coin(); c.key(nm); op.name = "find " + pbt::esc(nm); op.f = [=] { auto* r = d->d->find_nothrow(nm, a, l, s); return r ? r->format_name() + r->key(nm) : string("none"); }; break; }
        default: { // parsed options made by hand
            vector<po::option> v; size_t m = c.size(4, 12);
            for (size_t i = 0; i < m; ++i) { po::option o; const Opt& b = d->opts[c.below(d->opts.size())]; o.string_key = c.chance(1, 4) ? raw(c, 5, 40) : b.longs.empty() ? b.shrt : b.longs[0]; size_t nv = c.below(4); for (size_t j = 0; j < nv; ++j) o.value.push_back(c.coin() ? raw(c, 6, 80) : gen_value_for(c, b.sem.kind, true)); if (c.coin()) o.original_tokens.push_back(raw(c, 6, 60)); o.position_key = int(c.below(3)) - 1; o.unregistered = c.chance(1, 6); o.case_insensitive = c.coin(); v.push_back(o); }
            bool utf8 = c.chance(1, 3); int prefix = c.pick({0, int(st::allow_long), int(st::allow_dash_for_short)}); op.name = "storing" + show_opts(v) + (utf8 ? " utf8" : ""); c.key(op.name); ++hard;
            op.f = [=, &c] { po::variables_map vm; values(*d); string s; if (utf8) { po::parsed_options n(d->d.get(), prefix); n.options = v; po::wparsed_options p(n); s += outcome(c, [&] { po::store(p, vm); return string("stored"); }); } else { po::parsed_options p(d->d.get(), prefix); p.options = v; s += outcome(c, [&] { po::store(p, vm, utf8); return string("stored"); }); if (show_opts(p.options) != show_opts(v)) c.fail("store() changed the parsed options"); }
                s += show_vm(vm); s += outcome(c, [&] { po::notify(vm); return string("notified"); }); for (auto& x : d->sinks.s) for (auto& q : x->notified) s += q.show(); return s + pbt::esc(po::collect_unrecognized(v, po::include_positional)); };
            break; }
        }
        ops.push_back(op);
        if (c.describing()) c.out() << op.name << "\n";
    }
    vector<string> first; size_t errors = 0;
    for (auto& o : ops) { first.push_back(outcome(c, o.f)); if (first.back().compare(0, 6, "error ") == 0) ++errors; }
    vector<size_t> order; for (size_t i = 0; i < ops.size(); ++i) order.push_back(i); c.shuffle(order);
    for (size_t i : order) {
        string s = outcome(c, ops[i].f); if (s != first[i]) c.fail(ops[i].name + "\ngave\n  " + first[i] + "\nthe first time and\n  " + s + "\nthe second time");
        s.clear(); s.shrink_to_fit();
    }
    // a third time, counting what stays allocated
    for (size_t i : order) { for (auto& d : ds) for (auto& s : d->sinks.s) { s->notified.clear(); s->notified.shrink_to_fit(); }
        outcome(c, [&] { ops[i].f(); for (auto& d : ds) for (auto& s : d->sinks.s) { s->notified.clear(); s->notified.shrink_to_fit(); } return string(); }); size_t a = __sanitizer_get_current_allocated_bytes();
        outcome(c, [&] { ops[i].f(); for (auto& d : ds) for (auto& s : d->sinks.s) { s->notified.clear(); s->notified.shrink_to_fit(); } return string(); }); size_t b = __sanitizer_get_current_allocated_bytes();
        if (b > a) { // bound variables may grow to hold what they are assigned: once more
            outcome(c, [&] { ops[i].f(); for (auto& d : ds) for (auto& s : d->sinks.s) { s->notified.clear(); s->notified.shrink_to_fit(); } return string(); }); size_t e = __sanitizer_get_current_allocated_bytes();
            if (e > b) c.fail(ops[i].name + "\nleaves " + std::to_string(e - b) + " bytes allocated each time"); } }
    // descriptions come and go: alone, copied, in groups
    for (auto& d : ds) {
        auto cycle = [&] { outcome(c, [&] { Sinks sk; po::options_description fresh("x"); build_desc(fresh, d->opts, 0, &sk); po::options_description outer; outer.add(fresh); outer.add(fresh); auto more = fresh.options(); std::ostringstream os; os << outer; return string(); }); return __sanitizer_get_current_allocated_bytes(); };
        cycle(); size_t a = cycle(), b = cycle(); if (b > a) { size_t e = cycle(); if (e > b) c.fail("making, copying and destroying a description leaves " + std::to_string(e - b) + " bytes allocated each time"); } }
    for (auto& d : ds) if (fingerprint(*d) != d->print0) c.fail("a description changed by being used");
    if (hard >= 2) c.nontrivial(); if (errors) c.label("with errors"); if (errors < ops.size()) c.label("with results"); for (auto& o : ops) { static const char* pre[] = {"wide command", "command", "wide conf", "conf", "env", "split_unix", "split_win", "conversion", "print", "find", "storing"}; for (auto p : pre) if (o.name.compare(0, strlen(p), p) == 0) { c.label(p); break; } }
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P18"; P.run = run; P.quick = 60000; P.thorough = 3000000;
    P.rule = "one case in 700: one huge input (lines, tokens, names, nesting, chains); else descriptions with arbitrary names, texts and widths; up to a dozen calls of any entry point with arbitrary and mutated bytes, made in one order, then in another, then counting memory left allocated; results or documented errors only, the same each time, inputs and descriptions unchanged, under address and undefined-behaviour sanitizers. Non-trivial: at least two calls which parse, store or convert";
    P.pinned = {[](Ctx& c) { po::options_description d; d.add_options()("foo", ""); std::istringstream is("[]\nfoo="); po::parsed_options p(nullptr); Caught k = catch_err([&] { p = po::parse_config_file(is, d); }); if (!k.threw || k.e.cls != "unknown_option") c.fail("empty section"); },
                [](Ctx& c) { po::options_description d; d.add_options()("foo", "")("foobar", ""); po::parsed_options p(&d); po::option o; o.string_key = "fo"; p.options.push_back(o); po::variables_map vm; catch_err([&] { po::store(p, vm); }); }};
    return pbt::engine_main(argc, argv, P);
}
