// P17: the text of diagnostics.
#include "common.hpp"
#include <algorithm>
#include <sstream>
#include <unistd.h>
using namespace t; using pbt::Ctx;

namespace {
struct Env {
    vector<vector<char>> text; vector<char*> ptr; char** old;
    Env(const vector<string>& e) : old(environ) { for (auto& s : e) { text.emplace_back(s.begin(), s.end()); text.back().push_back(0); } for (auto& t : text) ptr.push_back(t.data()); ptr.push_back(nullptr); environ = ptr.data(); }
    ~Env() { environ = old; }
};

// ---- asking again, copying and rethrowing do not change an error's text or accessors
template<class T> bool stable_as(Ctx& c, const std::exception& e, const string& w)
{
    const T* p = dynamic_cast<const T*>(&e); if (!p) return false;
    T copy(*p); if (copy.what() != w) c.fail("a copy of the error says " + pbt::esc(string(copy.what())) + " instead of " + pbt::esc(w));
    T second(copy); if (second.what() != w || copy.what() != w || p->what() != w) c.fail("a copy of a copy of the error says something else");
    T other(*p); other = copy; if (other.what() != w) c.fail("an assigned error says something else");
    try { throw copy; } catch (const std::exception& x) { if (x.what() != w) c.fail("the rethrown error says " + pbt::esc(string(x.what()))); }
    return true;
}
void stable(Ctx& c, const std::exception& e)
{
    string w = e.what(); if (e.what() != w) c.fail("asked again, the error says something else");
    const po::error_with_option_name* n = dynamic_cast<const po::error_with_option_name*>(&e);
    string name = n ? n->get_option_name() : "";
    stable_as<po::invalid_config_file_syntax>(c, e, w) || stable_as<po::invalid_command_line_syntax>(c, e, w) || stable_as<po::invalid_option_value>(c, e, w) || stable_as<po::invalid_bool_value>(c, e, w) || stable_as<po::validation_error>(c, e, w)
        || stable_as<po::unknown_option>(c, e, w) || stable_as<po::ambiguous_option>(c, e, w) || stable_as<po::required_option>(c, e, w) || stable_as<po::multiple_occurrences>(c, e, w) || stable_as<po::multiple_values>(c, e, w) || stable_as<po::error_with_option_name>(c, e, w)
        || stable_as<po::too_many_positional_options_error>(c, e, w) || stable_as<po::reading_file>(c, e, w) || stable_as<po::invalid_command_line_style>(c, e, w) || stable_as<po::error>(c, e, w);
    std::exception_ptr p = std::current_exception();
    for (int i = 0; i < 2; ++i) try { std::rethrow_exception(p); } catch (const std::exception& x) { if (x.what() != w) c.fail("rethrown, the error says " + pbt::esc(string(x.what())) + " instead of " + pbt::esc(w)); }
    if (n && (n->get_option_name() != name || n->what() != w)) c.fail("the accessors changed");
    // the named option is the one in the text
    if (n && !name.empty() && w.find("'" + name + "'") == w.npos && !dynamic_cast<const po::invalid_config_file_syntax*>(&e)) c.fail("get_option_name() is " + pbt::esc(name) + " but the text is " + pbt::esc(w));
    if (auto* s = dynamic_cast<const po::invalid_config_file_syntax*>(&e)) { if (w.find("'" + s->tokens() + "'") == w.npos) c.fail("tokens() of " + pbt::esc(w) + " is " + pbt::esc(s->tokens())); }
    else if (auto* s = dynamic_cast<const po::invalid_syntax*>(&e)) if (s->tokens() != name) c.fail("tokens() is " + pbt::esc(s->tokens()) + " but the option name " + pbt::esc(name));
}
// runs f; its exception, if any, is checked for stability and returned
Caught attempt(Ctx& c, const std::function<void()>& f)
{
    return catch_err([&] { try { f(); } catch (const po::error& e) { stable(c, e); throw; } });
}
void expect(Ctx& c, const string& doing, const Caught& r, const Err& m)
{
    if (!r.threw) c.fail(doing + ": expected " + m.show() + ", but there was no error");
    if (!same_class(m, r.e)) c.fail(doing + ": expected " + m.show() + " but got " + r.e.show());
    if (m.cls != "logic_error" && m.what != r.e.what) c.fail(doing + ": the message is\n  " + pbt::esc(r.e.what) + "\ninstead of\n  " + pbt::esc(m.what));
}
bool short_only(int style) { int p = canonical_prefix(style); return p == st::allow_dash_for_short || p == st::allow_slash_for_short; }

// ---- overlapping wildcards: any pair which does overlap may be named
void overlap_message(Ctx& c, const vector<Opt>& v, const string& what)
{
    vector<string> w; for (auto& o : v) if (!o.longs.empty() && o.longs[0].size() && o.longs[0].back() == '*') w.push_back(o.longs[0].substr(0, o.longs[0].size() - 1));
    for (auto& a : w) for (auto& b : w) if (a != b && (a.compare(0, b.size(), b) == 0 || b.compare(0, a.size(), a) == 0)
        && what == "options '" + a + "*' and '" + b + "*' will both match the same arguments from the configuration file") { c.label("overlapping wildcards"); c.nontrivial(); return; }
    c.fail("the names " + pbt::esc(w) + " before '*': the message does not name two which overlap: " + pbt::esc(what));
}
void overlapping(Ctx& c)
{
    vector<Opt> v; size_t n = 2 + c.size(5, 60); const string sign = "ab!$%&'()+,-./0Z";
    for (size_t i = 0; i < n; ++i) {
        Opt o; string base; if (!v.empty() && c.chance(1, 2)) { base = v[c.below(v.size())].longs[0]; while (!base.empty() && base.back() == '*') base.pop_back(); if (c.coin() && base.size() > 1) base.resize(base.size() - 1); else base += c.str(sign, c.below(3)); }
        else base = c.str(sign, 1 + c.size(3, 40));
        for (auto& ch : base) if (ch == ',') ch = '!';
        o.longs = {base + (c.chance(5, 6) ? "*" : "")}; o.sem.kind = KString; bool dup = false; for (auto& q : v) dup |= q.longs[0] == o.longs[0]; if (!dup) v.push_back(o);
    }
    po::options_description d; add_options(d, v); vector<string> names; for (auto& o : v) names.push_back(o.longs[0]);
    c.key(names); if (c.describing()) c.out() << pbt::esc(names) << "\n";
    CfgResult m = model_config("", v, false); Caught k = attempt(c, [&] { std::istringstream is(""); if (c.coin()) po::parse_config_file(is, d); else { std::wistringstream ws(L""); po::parse_config_file(ws, d); } });
    if (m.ok) { if (k.threw) c.fail("describing " + pbt::esc(names) + ": unexpected " + k.e.show()); c.label("no overlap"); return; }
    if (!k.threw || k.e.cls != "error") c.fail("describing " + pbt::esc(names) + ": expected an error about overlapping names");
    overlap_message(c, v, k.e.what);
}

// ---- arbitrary input against the reference model, text included
void random_input(Ctx& c)
{
    NameCfg n; n.collide = c.chance(1, 2); n.wild = c.chance(1, 5); n.weird = c.chance(1, 5); n.max_opts = 1 + c.below(7);
    vector<Opt> v = gen_names(c, n); SemCfg sc; sc.wide = c.chance(1, 6); gen_sems(c, v, sc); if (c.chance(1, 25)) add_bulk(c, v);
    for (auto& o : v) for (auto& l : o.longs) if (l.find('\0') != l.npos) c.discard();
    for (auto& o : v) if (o.sem.typed() && o.sem.kind != KSwitch && c.chance(1, 8)) o.sem.required = true;
    po::options_description d; build_desc(d, v, c.chance(1, 4) ? int(c.below(12)) : 0);
    for (auto& o : v) { c.key(o.names()); c.key(uint64_t(o.sem.kind)); }
    if (c.describing()) c.out() << show(v);
    vector<POpt> popts; int prefix = 0, style = gen_style(c); po::parsed_options real(nullptr); string doing; bool positional_named = false;
    switch (c.weighted({60, 25, 15})) {
    case 0: {
        ParseCase p; p.opts = v; p.style = style; p.entry = int(c.below(3)); p.allow_unreg = p.entry < 2 && c.chance(1, 6); if (p.entry < 2 && c.chance(1, 3)) { p.has_pos = true; p.pos = gen_pos(c, v, c.chance(2, 3)); }
        p.tokens = c.chance(1, 3) ? gen_tokens(c, v, style, c.size(4, 20)) : gen_line(c, v, style, c.size(4, 20), c.chance(1, 2) ? 20 : 0, p.has_pos || c.chance(1, 4));
        if (c.chance(1, 4) && !p.tokens.empty()) { // placeholders in user text
            static const vector<string> w = {"%canonical_option%", "%value%", "%prefix%", "%option%", "%original_token%", "%", "%%", "%invalid_line%", "option '%canonical_option%'", "argument ('%value%')"};
            string& t = p.tokens[c.below(p.tokens.size())]; if (c.coin()) t += c.pick(w); else t = (c.coin() ? "--" : "") + c.pick(w); }
        for (auto& t : p.tokens) for (auto& ch : t) if (!ch) ch = '0';
        c.key(p.tokens); c.key(uint64_t(style)); for (auto& e : p.pos.e) { c.key(e.name); c.key(uint64_t(e.count)); }
        doing = "parsing " + pbt::esc(p.tokens) + " style " + style_show(style); if (c.describing()) c.out() << p.show();
        ParseResult m = model_parse(p.tokens, p.cfg());
        po::options_description d2; RealResult r; Caught k = attempt(c, [&] { po::positional_options_description pd; if (p.has_pos) p.pos.build(pd);
            vector<const char*> argv{"program"}; for (auto& s : p.tokens) argv.push_back(s.c_str());
            if (p.entry == 2) real = po::parse_command_line(int(argv.size()), argv.data(), d, style);
            else { po::command_line_parser q = p.entry ? po::command_line_parser(int(argv.size()), argv.data()) : po::command_line_parser(p.tokens); q.options(d).style(style); if (p.has_pos) q.positional(pd); if (p.allow_unreg) q.allow_unregistered(); real = q.run(); } });
        if (!m.ok) {
            if (short_only(style) && m.tr.sticky_error) { c.label("known finding: grouped short option"); return; }
            expect(c, doing, k, m.err); c.nontrivial(); label_parse(c, m); return; }
        if (k.threw) c.fail(doing + ": unexpected " + k.e.show());
        popts = m.opts; prefix = canonical_prefix(style); for (auto& o : popts) if (o.pos >= 0 && !o.key.empty()) positional_named = true;
        break; }
    case 1: {
        if (c.chance(5, 6)) { vector<Opt> lo = only_long(v); if (lo.size() != v.size()) { c.discard(); } }
        string text = c.chance(1, 3) ? gen_config(c, v, true, c.size(4, 20)) : gen_good_config(c, v, c.size(4, 20), c.chance(1, 2) ? 20 : 0);
        if (c.chance(1, 4)) { static const vector<string> w = {"%invalid_line%\n", "a line without equals\n", "%canonical_option% = 1\n", "[%value%]\n", "%prefix%\n", "option '%canonical_option%'\n"}; text += c.pick(w); }
        for (auto& ch : text) if (!ch) ch = '0';
        bool unreg = c.chance(1, 4); c.key(text); doing = "reading " + pbt::esc(text); if (c.describing()) c.out() << doing << "\n";
        CfgResult m = model_config(text, v, unreg); Caught k = attempt(c, [&] { std::istringstream is(text); real = po::parse_config_file(is, d, unreg); });
        if (!m.ok) { // overlapping wildcards are refused; some pair that does overlap is named
            if (m.err.what.empty()) { if (!k.threw || k.e.cls != "error") c.fail(doing + ": expected an error about overlapping names"); overlap_message(c, v, k.e.what); return; }
            expect(c, doing, k, m.err); c.nontrivial(); c.label("configuration file rejected"); return; }
        if (k.threw) c.fail(doing + ": unexpected " + k.e.show());
        popts = m.opts; break; }
    default: {
        vector<string> env; size_t cnt = 1 + c.size(4, 20);
        for (size_t i = 0; i < cnt; ++i) { const Opt& o = v[c.below(v.size())]; string k = o.longs.empty() ? o.shrt : o.longs[0]; if (k.back() == '*') { k.pop_back(); k += "ab"; } if (c.chance(1, 20)) k += "q"; string val = c.chance(1, 8) ? "%value%" : gen_value_for(c, o.sem.kind, c.chance(1, 2)); for (auto& ch : val) if (!ch) ch = 'z'; env.push_back(k + "=" + val); }
        c.key(env); doing = "the environment " + pbt::esc(env); if (c.describing()) c.out() << doing << "\n"; auto map = [](string s) { return s; };
        popts = model_env(env, map); { Env e(env); real = po::parse_environment(d, map); } break; }
    }
    VM vm; po::variables_map rvm; StoreResult m = model_store(vm, popts, v, prefix, false, false); Caught k = attempt(c, [&] { po::store(real, rvm); });
    if (!m.ok) {
        if (short_only(style) && prefix && positional_named) { c.label("known finding: positional value with short-only style"); if (!k.threw || !same_class(m.err, k.e)) c.fail(doing + ", storing: expected " + m.err.show()); return; }
        if (m.err.cls == "validation_error" && m.err.what.find("('") != string::npos) return;
        expect(c, doing + ", storing", k, m.err); c.nontrivial(); c.label("store rejected"); c.label(("store: " + m.err.cls).c_str() == string() ? "" : m.err.cls == "invalid_option_value" ? "bad value" : m.err.cls == "invalid_bool_value" ? "bad boolean" : m.err.cls == "multiple_occurrences" ? "given twice" : m.err.cls == "unknown_option" ? "unknown when stored" : "other store error"); return; }
    if (k.threw) c.fail(doing + ", storing: unexpected " + k.e.show());
    m = model_notify_check(vm); k = attempt(c, [&] { po::notify(rvm); });
    if (!m.ok) { expect(c, doing + ", notify", k, m.err); c.nontrivial(); c.label("required missing"); return; }
    if (k.threw) c.fail(doing + ", notify: unexpected " + k.e.show());
}

// ---- one planted fault; the text follows from the intent alone
void planted(Ctx& c)
{
    NameCfg n; n.plain = true; n.collide = false; n.multi = false; n.max_opts = 2 + c.below(5); n.short_only = false;
    vector<Opt> v = gen_names(c, n); for (auto& o : v) o.shrt.clear();
    for (size_t i = 0; v.size() < 3; ++i) { Opt o; o.longs.push_back("filler" + string(1, char(112 + i))); v.push_back(o); }
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) if (i != j && v[j].longs[0].compare(0, v[i].longs[0].size(), v[i].longs[0]) == 0) c.discard();
    static const string letters = "abcdefghijk";
    for (size_t i = 0; i < v.size(); ++i) { v[i].shrt = string("-") + letters[i]; Sem s; s.kind = c.pick({KUntyped0, KString, KInt, KUnsigned, KBool, KDouble, KVecInt, KChar, KLongLong}); if (i == 0) s.kind = c.pick({KInt, KUnsigned, KDouble}); if (i == 1) s.kind = KUntyped0; if (i == 2) s.kind = KBool; v[i].sem = s; }
    int form = int(c.below(5)); // how names are shown
    static const int masks[] = {0, st::allow_long | st::long_allow_adjacent | st::long_allow_next, st::allow_long_disguise | st::long_allow_adjacent | st::long_allow_next,
        st::allow_short | st::allow_dash_for_short | st::short_allow_adjacent | st::short_allow_next, st::allow_short | st::allow_slash_for_short | st::short_allow_adjacent | st::short_allow_next};
    int style = masks[form]; bool shorts = form == 0 || form >= 3, longs = form < 3, guess = form == 0;
    if (form == 0 && c.coin()) style = st::default_style | st::case_insensitive;
    if (form == 3 && c.coin()) style |= st::allow_sticky;
    auto shown = [&](size_t i) { return form <= 1 ? "--" + v[i].longs[0] : form == 2 ? "-" + v[i].longs[0] : (form == 3 ? "-" : "/") + v[i].shrt.substr(1); };
    bool can_group = form == 0; std::set<size_t> given;
    auto spell = [&](size_t i, const string* val, bool adj) { vector<string> t;
        bool s = shorts && !v[i].shrt.empty() && (!longs || c.coin());
        string h = s ? (form == 4 ? "/" : "-") + v[i].shrt.substr(1) : (form == 2 ? "-" : "--") + (guess && c.chance(1, 3) ? v[i].longs[0].substr(0, v[i].longs[0].size()) : v[i].longs[0]);
        if (s && can_group && !v[1].shrt.empty() && v[1].sem.kind == KUntyped0 && i != 1 && !given.count(1) && c.chance(1, 3)) { given.insert(1); h = v[1].shrt + h.substr(1); }      // grouped behind a flag
        if (val && adj && !val->empty()) t.push_back(h + (s ? "" : "=") + *val); else { t.push_back(h); if (val) t.push_back(*val); }
        return t; };
    auto good = [&](Kind k) -> string { return k == KBool ? "yes" : k == KChar ? "x" : "7"; };
    static const vector<string> odd = {"%value%", "%canonical_option%", "1x", "option", "%prefix%x", "''", "a b", "%option%%value%", "\xc3\xa9", "x%", "%x"};
    vector<string> L; size_t pre = c.below(3);
    auto emit_good = [&](size_t avoid) { size_t i = c.below(v.size()); if (i == avoid || given.count(i)) return; given.insert(i); string g = good(v[i].sem.kind); for (auto& t : spell(i, v[i].sem.kind == KUntyped0 ? nullptr : &g, c.coin())) L.push_back(t); };
    Err e; string value; bool at_store = false; size_t who = c.below(v.size()); PosDesc pd; bool has_pos = false, at_notify = false;
    unsigned fault = unsigned(c.below(9)); string doing;
    c.key(fault); c.key(uint64_t(form));
    // faults in a configuration file or the environment have a form of their own
    if (c.chance(1, 4)) {
        string text; bool sec = c.coin(); string base = "o" + c.str("abcdef", 1 + c.size(5, 40)), nm = (sec ? "sec." : "") + base; po::options_description d; d.add_options()(nm.c_str(), po::value<int>())("other", po::value<string>()); bool env = c.chance(1, 3); string line; po::variables_map vm;
        if (c.coin()) text += "other = some value # comment\n";
        if (sec) text += "[sec]\n";
        switch (c.below(4)) {
        case 0: value = c.pick(odd); text += base + " = " + value + "\n"; e.cls = "invalid_option_value"; e.kind = po::validation_error::invalid_option_value; e.what = "the argument ('" + value + "') for option '" + nm + "' is invalid"; break;
        case 1: { env = false; string u = c.pick({string("%value%"), string("nosuch"), string("%canonical_option%x"), string("un known")}); text += u + "=1\n"; e.cls = "unknown_option"; e.what = "unrecognised option '" + string(sec ? "sec." : "") + u + "'"; break; }
        case 2: { env = false; line = c.pick({string("no equals sign"), string("%invalid_line%"), string("%value%"), string("[unclosed"), string("x%")}); text += " " + line + " # comment\n"; e.cls = "invalid_config_file_syntax"; e.kind = po::invalid_syntax::unrecognized_line; e.what = "the options configuration file contains an invalid line '" + line + "'"; break; }
        default: text += base + "=1\n" + base + "=2\n"; e.cls = "multiple_occurrences"; e.what = "option '" + nm + "' cannot be specified more than once"; value = "1"; break;
        }
        if (c.coin()) text.pop_back();
        c.key(text); c.key(env); doing = env ? "environment" : "configuration file " + pbt::esc(text); if (c.describing()) c.out() << doing << "\n";
        Caught k = attempt(c, [&] { if (env) { vector<string> ev = {"V=" + value}; if (e.cls == "multiple_occurrences") ev.push_back("V=2"); Env en(ev); po::store(po::parse_environment(d, [&](const string&) { return nm; }), vm); } else if (c.coin()) { std::istringstream is(text); po::store(po::parse_config_file(is, d), vm); } else { std::istringstream is(text); auto p = po::parse_config_file<char>(is, d); po::store(p, vm); } });
        expect(c, doing, k, e); c.nontrivial(); c.label(env ? "planted: environment" : "planted: configuration file"); return;
    }
    if (form == 3 && (style & st::allow_sticky) && c.chance(1, 3)) { // a switch given again inside a group, after other options
        if (v.size() < 4) { Opt o; o.longs.push_back("fillerz"); o.shrt = "-l"; v.push_back(o); }
        v[3].sem = Sem(); v[3].sem.kind = KUntyped0; size_t first = c.coin() ? 1 : 3, twice = c.coin() ? first : 4 - first; vector<string> L2;
        auto other = [&] { size_t i = c.below(v.size()); if (i == 1 || i == 3 || given.count(i)) return; given.insert(i); if (v[i].sem.kind == KUntyped0) L2.push_back(v[i].shrt); else { string g = good(v[i].sem.kind); if (c.coin()) L2.push_back(v[i].shrt + g); else { L2.push_back(v[i].shrt); L2.push_back(g); } } };
        for (size_t i = 0; i < pre; ++i) other(); L2.push_back(v[twice].shrt); size_t mid = c.below(4); for (size_t i = 0; i < mid; ++i) other(); 
        bool lead = twice == first; // "-ab" with b given before needs b second; with a given before, a is first and the token is its own
        (void)lead; L2.push_back(v[4 - twice].shrt + v[twice].shrt.substr(1)); if (c.coin()) other();
        po::options_description d; build_desc(d, v, c.chance(1, 3) ? int(c.below(12)) : 0); c.key(L2); po::variables_map vm; string w = pbt::esc(L2) + " style " + style_show(style); if (c.describing()) c.out() << show(v) << w << "\n";
        Caught k = attempt(c, [&] { po::store(po::command_line_parser(L2).options(d).style(style).run(), vm); }); string nm = v[twice].shrt.substr(1);
        if (!k.threw || k.e.cls != "multiple_occurrences") c.fail(w + ": expected multiple_occurrences" + (k.threw ? " but got " + k.e.show() : ""));
        if (k.e.what == "option '-" + v[4 - twice].shrt.substr(1) + "' cannot be specified more than once") { c.label("known finding: grouped short option"); return; }
        if (k.e.what != "option '-" + nm + "' cannot be specified more than once" && k.e.what != "option '" + nm + "' cannot be specified more than once") c.fail(w + ": the message is " + k.e.what + " but the option is -" + nm);
        c.nontrivial(); c.label("planted: twice, in a group"); return; }
    for (size_t i = 0; i < pre; ++i) emit_good(fault == 2 ? 0 : fault == 3 ? 1 : fault == 4 ? 2 : who);
    switch (fault) {
    case 0: { // unknown
        string t = longs && (!shorts || c.coin()) ? (form == 2 ? "-" : "--") + c.pick({string("0unknown"), string("%value%"), string("%canonical_option%"), string("0%prefix%")}) + (c.coin() ? "=5" : "") : (form == 4 ? "/" : "-") + c.pick({string("z"), string("zxy"), string("%value%"), string("%")});
        if (form == 2 && (t[1] == '-' || false)) c.discard(); if (form == 2) { c.discard(); }     // unknown disguised names are plain words
        L.push_back(t); e.cls = "unknown_option"; e.what = "unrecognised option '" + t + "'"; break; }
    case 1: { // required argument missing, at the end
        if (v[who].sem.kind == KUntyped0) who = 0; given.erase(who); for (auto& t : spell(who, nullptr, false)) L.push_back(t); e.cls = "invalid_command_line_syntax"; e.kind = po::invalid_syntax::missing_parameter; e.what = "the required argument for option '" + shown(who) + "' is missing"; break; }
    case 2: who = 0; at_store = true; value = c.pick(odd); for (auto& t : spell(0, &value, c.coin())) L.push_back(t); e.cls = "invalid_option_value"; e.kind = po::validation_error::invalid_option_value; e.what = "the argument ('" + value + "') for option '" + shown(0) + "' is invalid"; break;
    case 3: { who = 1; string val = c.pick(odd); if (!longs) c.discard(); L.push_back((form == 2 ? "-" : "--") + v[1].longs[0] + "=" + val); e.cls = "invalid_command_line_syntax"; e.kind = po::invalid_syntax::extra_parameter; e.what = "option '" + shown(1) + "' does not take any arguments"; break; }
    case 4: if (v.size() < 3) c.discard(); who = 2; at_store = true; value = lower(c.pick(odd)); for (auto& t : spell(2, &value, c.coin())) L.push_back(t); e.cls = "invalid_bool_value"; e.kind = po::validation_error::invalid_bool_value; e.what = "the argument ('" + value + "') for option '" + shown(2) + "' is invalid. Valid choices are 'on|off', 'yes|no', '1|0' and 'true|false'"; break;
    case 5: { if (v[who].sem.kind == KVecInt) who = 0; at_store = true; string g = good(v[who].sem.kind); if (given.count(who)) c.discard(); for (int r = 0; r < 2; ++r) for (auto& t : spell(who, v[who].sem.kind == KUntyped0 ? nullptr : &g, c.coin())) L.push_back(t); e.cls = "multiple_occurrences"; e.what = "option '" + shown(who) + "' cannot be specified more than once";
        break; }
    case 6: { // required
        if (v[who].sem.kind == KUntyped0) who = 0; v[who].sem.required = true; at_store = at_notify = true; e.cls = "required_option"; e.what = "the option '" + shown(who) + "' is required but missing"; for (auto& t : L) (void)t; if (given.count(who)) c.discard(); break; }
    case 7: { // ambiguous
        if (!guess) c.discard(); string stem = "amb" + c.str("iguo", c.below(4)); size_t k = 2 + c.below(2); vector<string> names; for (size_t i = 0; i < k; ++i) { Opt o; o.longs.push_back(stem + char('x' + i) + c.str("abc", c.below(3))); o.sem.kind = KUntyped0; names.push_back(o.longs[0]); v.push_back(o); }
        if (c.coin()) c.shuffle(v); for (auto& o : v) { bool mine = std::find(names.begin(), names.end(), o.longs[0]) != names.end(); if (!mine && o.longs[0].compare(0, 3, stem, 0, 3) == 0) c.discard(); }
        string t = "--" + stem; if (c.coin() && t.size() > 5) t.pop_back(); L.push_back(t); e.cls = "ambiguous_option"; std::sort(names.begin(), names.end()); e.what = "option '" + t + "' is ambiguous and matches "; for (size_t i = 0; i < k; ++i) e.what += (i == k - 1 ? "and " : "") + string("'--") + names[i] + (i == k - 1 ? "'" : "', "); e.alts = names; break; }
    default: { // value missing after the equal sign, or too many positionals
        if (longs && c.coin()) { L.push_back((form == 2 ? "-" : "--") + v[0].longs[0] + "="); e.cls = "invalid_command_line_syntax"; e.kind = po::invalid_syntax::empty_adjacent_parameter; e.what = "the argument for option '" + shown(0) + "' should follow immediately after the equal sign"; }
        else { has_pos = true; pd.e.push_back({"positional", int(1 + c.below(3))}); Opt o; o.longs.push_back("positional"); o.sem.kind = KVecString; for (auto& x : v) if (string("positional").compare(0, x.longs[0].size(), x.longs[0]) == 0) c.discard(); v.push_back(o); for (int i = 0; i <= pd.e[0].count; ++i) L.push_back("word"); e.cls = "too_many_positional_options_error"; e.what = T_TOOMANY; }
        break; }
    }
    if (fault != 1 && fault != 8 && c.coin()) for (int i = 0; i < 2; ++i) emit_good(fault == 2 ? 0 : fault == 3 ? 1 : fault == 4 ? 2 : who);
    if (fault == 7 || fault == 8) for (auto& o : v) for (auto& p : v) if (&o != &p && p.longs[0].compare(0, o.longs[0].size(), o.longs[0]) == 0) c.discard();
    po::options_description d; build_desc(d, v, c.chance(1, 3) ? int(c.below(12)) : 0); c.key(L); for (auto& o : v) c.key(o.longs[0]);
    doing = pbt::esc(L) + " style " + style_show(style); if (c.describing()) c.out() << show(v) << doing << "\n";
    po::positional_options_description rp; if (has_pos) pd.build(rp); po::variables_map vm; po::parsed_options r(nullptr);
    auto parse = [&] { po::command_line_parser q(L); q.options(d).style(style); if (has_pos) q.positional(rp); r = q.run(); };
    Caught k;
    if (at_store) { Caught p = attempt(c, parse); if (p.threw) c.fail(doing + ": unexpected " + p.e.show()); if (at_notify) { Caught s = attempt(c, [&] { po::store(r, vm); }); if (s.threw) c.fail(doing + ": unexpected " + s.e.show()); k = attempt(c, [&] { po::notify(vm); }); } else k = attempt(c, [&] { po::store(r, vm); }); }
    else k = attempt(c, parse);
    expect(c, doing, k, e); c.nontrivial(); static const char* fl[] = {"planted: unknown", "planted: missing", "planted: bad value", "planted: extra", "planted: bad boolean", "planted: twice", "planted: required", "planted: ambiguous", "planted: empty or too many"}; c.label(fl[fault]);
}

// ---- exceptions made and decorated by hand (custom validators and parsers do that)
void by_hand(Ctx& c)
{
    static const vector<string> w = {"", "foo", "--foo", "-f", "/f", "--", "-", "///", "%value%", "%canonical_option%", "%prefix%", "a%b", "%", "foo bar", "-foo", "--foo=bar", "%option%"};
    auto text = [&] { return c.chance(1, 5) ? gen_word(c) : c.pick(w); };
    auto sty = [&] { return c.pick({0, int(st::allow_long), int(st::allow_long_disguise), int(st::allow_dash_for_short), int(st::allow_slash_for_short)}); };
    MsgCtx m; std::unique_ptr<po::error_with_option_name> e; const char* tmpl = ""; bool noname = false; vector<string> alts; string custom; int kind = int(c.below(11)); c.key(uint64_t(kind));
    string log; bool vset = false; std::map<string, std::pair<string, string>> defs; defs["canonical_option"] = {"option '%canonical_option%'", "option"}; defs["value"] = {"argument ('%value%')", "argument"}; defs["prefix"] = {"%prefix%", ""}; std::map<string, string> subs; auto clean = [](string s) { for (auto& ch : s) if (!ch) ch = '0'; return s; };
    switch (kind) {
    case 0: m.token = clean(text()); e.reset(new po::unknown_option(m.token)); tmpl = T_UNKNOWN; noname = true; log = "unknown_option(" + pbt::esc(m.token) + ")"; break;
    case 1: { size_t n = 1 + c.below(4); for (size_t i = 0; i < n; ++i) alts.push_back(c.pick({string("aa"), string("ab"), string("b"), string("%value%")})); e.reset(new po::ambiguous_option(alts)); tmpl = T_AMBIG; noname = true; log = "ambiguous_option(" + pbt::esc(alts) + ")"; break; }
    case 2: m.token = clean(text()); e.reset(new po::required_option(m.token)); tmpl = T_REQUIRED; log = "required_option(" + pbt::esc(m.token) + ")"; break;
    case 3: e.reset(new po::multiple_occurrences); tmpl = T_MULTIOCC; log = "multiple_occurrences"; break;
    case 4: e.reset(new po::multiple_values); tmpl = T_MULTIVAL; log = "multiple_values"; break;
    case 5: m.value = clean(text()); if (c.chance(1, 3)) { wstring ww; if (!ref_decode(m.value, ww) || !std::all_of(m.value.begin(), m.value.end(), [](unsigned char x) { return x < 128; })) c.discard(); e.reset(new po::invalid_option_value(ww)); } else e.reset(new po::invalid_option_value(m.value)); tmpl = T_BADVAL; log = "invalid_option_value(" + pbt::esc(m.value) + ")"; break;
    case 6: m.value = clean(text()); e.reset(new po::invalid_bool_value(m.value)); tmpl = T_BOOL; log = "invalid_bool_value(" + pbt::esc(m.value) + ")"; break;
    case 7: { auto k = c.pick({po::validation_error::multiple_values_not_allowed, po::validation_error::at_least_one_value_required, po::validation_error::invalid_option_value, po::validation_error::invalid_bool_value}); m.option = clean(text()); m.token = clean(text()); m.style = sty();
        auto* p = new po::validation_error(k, m.option, m.token, m.style); e.reset(p); if (p->kind() != k) c.fail("kind()"); tmpl = k == po::validation_error::multiple_values_not_allowed ? T_MULTIVAL : k == po::validation_error::at_least_one_value_required ? T_ATLEAST : k == po::validation_error::invalid_bool_value ? T_BOOL : T_BADVAL; log = "validation_error(" + std::to_string(k) + ", " + pbt::esc(m.option) + ", " + pbt::esc(m.token) + ", " + std::to_string(m.style) + ")"; break; }
    case 8: { auto k = c.pick({po::invalid_syntax::empty_adjacent_parameter, po::invalid_syntax::missing_parameter, po::invalid_syntax::extra_parameter}); m.option = clean(text()); m.token = clean(text()); m.style = sty(); auto* p = new po::invalid_command_line_syntax(k, m.option, m.token, m.style); e.reset(p); if (p->kind() != k) c.fail("kind()");
        tmpl = k == po::invalid_syntax::missing_parameter ? T_MISSING : k == po::invalid_syntax::extra_parameter ? T_EXTRA : T_EMPTYADJ; log = "invalid_command_line_syntax(" + std::to_string(k) + ", " + pbt::esc(m.option) + ", " + pbt::esc(m.token) + ", " + std::to_string(m.style) + ")"; break; }
    case 9: m.line = clean(text()); e.reset(new po::invalid_config_file_syntax(m.line, po::invalid_syntax::unrecognized_line)); tmpl = T_LINE; log = "invalid_config_file_syntax(" + pbt::esc(m.line) + ")"; break;
    default: custom = c.pick({string("bad '%value%' in %canonical_option%"), string("option '%canonical_option%' and argument ('%value%')"), string("plain text"), string("100% of %canonical_option%"), string("%canonical_option%"), string("50% %value% %"), string("%foo% %value%%value%"), string("in %file%: %prefix%%option% (%original_token%)"), string("%file%%file% of option '%canonical_option%'%"), string("option '%canonical_option%' or option '%canonical_option%'")});
        m.option = clean(text()); m.token = clean(text()); m.style = sty(); e.reset(new po::error_with_option_name(custom, m.option, m.token, m.style)); log = "error_with_option_name(" + pbt::esc(custom) + ", " + pbt::esc(m.option) + ", " + pbt::esc(m.token) + ", " + std::to_string(m.style) + ")"; tmpl = custom.c_str(); break;
    }
    auto text_of = [&]() -> string {
        if (!custom.empty()) { // every occurrence of a placeholder
            string t = custom; std::map<string, string> all = subs; all["option"] = m.option; all["original_token"] = m.token; if (vset) all["value"] = m.value; all["canonical_option"] = canonical_name(m);
            all["prefix"] = m.style == st::allow_long ? "--" : m.style == st::allow_slash_for_short ? "/" : m.style ? "-" : "";
            for (auto& d : defs) if (!all.count(d.first) || all[d.first].empty()) { const string &from = d.second.first, &to = d.second.second; if (from.empty()) continue; for (size_t i = 0; (i = t.find(from, i)) != t.npos; i += to.size()) t.replace(i, from.size(), to); }
            string r; for (size_t i = 0; i < t.size(); ) { size_t k = t[i] == '%' ? t.find('%', i + 1) : t.npos; auto f = k == t.npos ? all.end() : all.find(t.substr(i + 1, k - i - 1)); if (f != all.end()) { r += f->second; i = k + 1; } else r += t[i++]; } return r; }
        string r = render(tmpl, m);
        if (kind == 1 && m.style != st::allow_dash_for_short && m.style != st::allow_slash_for_short) { std::set<string> u(alts.begin(), alts.end()); string p = m.style == st::allow_long ? "--" : m.style == st::allow_long_disguise ? "-" : ""; r += " and matches "; size_t i = 0; for (auto& a : u) { ++i; if (i == u.size()) r += (u.size() > 1 ? "and " : alts.size() > 1 ? "different versions of " : "") + ("'" + p + a + "'"); else r += "'" + p + a + "', "; } }
        return r; };
    auto verify = [&] {
        string w1 = e->what(), want = text_of(); if (w1 != want) c.fail("after " + log + " the text is\n  " + pbt::esc(w1) + "\ninstead of\n  " + pbt::esc(want));
        if (e->get_option_name() != canonical_name(m)) c.fail("after " + log + " get_option_name() is " + pbt::esc(e->get_option_name()) + " instead of " + pbt::esc(canonical_name(m)));
        if (auto* a = dynamic_cast<po::ambiguous_option*>(e.get())) if (a->alternatives() != alts) c.fail("alternatives()");
    };
    size_t n = c.below(6); verify();
    for (size_t i = 0; i < n; ++i) {
        string a = clean(text()), b = clean(text()); int s = sty();
        switch (c.below(custom.empty() ? 5 : 7)) {
        case 0: e->set_option_name(a); if (!noname) m.option = a; log += ", set_option_name(" + pbt::esc(a) + ")"; break;
        case 1: e->set_original_token(a); m.token = a; log += ", set_original_token(" + pbt::esc(a) + ")"; break;
        case 2: e->set_prefix(s); m.style = s; log += ", set_prefix(" + std::to_string(s) + ")"; break;
        case 3: e->add_context(a, b, s); if (!noname) m.option = a; m.token = b; m.style = s; log += ", add_context(" + pbt::esc(a) + ", " + pbt::esc(b) + ", " + std::to_string(s) + ")"; break;
        case 5: { string name = c.pick({string("file"), string("foo"), string("nothing")}); e->set_substitute(name, a); subs[name] = a; log += ", set_substitute(" + name + ", " + pbt::esc(a) + ")"; c.label("a placeholder of its own"); break; }
        case 6: { // the default may contain what it replaces, or the placeholder of something else
            string name = c.pick({string("file"), string("foo"), string("value"), string("canonical_option"), string("prefix"), string("other")});
            string from = c.pick({string("%file%"), string("%file%: "), string("%"), string("in"), string(""), string("%foo% "), string("argument ('%value%')"), string("%value%")}), to = c.pick({string(""), string("<%file%>"), string("in a file"), string("the input"), string("%%"), string("%value%"), string("an argument"), string("%canonical_option%")});
            e->set_substitute_default(name, from, to); defs[name] = {from, to}; log += ", set_substitute_default(" + name + ", " + pbt::esc(from) + ", " + pbt::esc(to) + ")"; c.label(to.find(from) != string::npos ? "a default containing what it replaces" : "a default of its own"); break; }
        default: e->set_substitute("value", a); m.value = a; vset = true; log += ", set_substitute(value, " + pbt::esc(a) + ")"; break;
        }
        if (c.coin()) verify();
    }
    c.key(log); if (c.describing()) c.out() << log << "\n";
    verify();
    if (kind == 1) stable_as<po::ambiguous_option>(c, *e, text_of()); else stable_as<po::error_with_option_name>(c, *e, text_of());
    if (n) c.nontrivial(); c.label("by hand");
}
void run(Ctx& c) { switch (c.weighted({45, 35, 20, 4})) { case 0: random_input(c); break; case 1: planted(c); break; case 2: by_hand(c); break; default: overlapping(c); } }
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P17"; P.run = run; P.quick = 250000; P.thorough = 10000000;
    P.rule = "arbitrary and mostly correct input to every parser, store and notify, error text compared with a reference; correct input with one planted fault, text following from the intent; exceptions built and decorated by hand. Each error is asked again, copied, assigned and rethrown. Non-trivial: an error was reported, or a decorated exception";
    P.findings = {
        {"grouped-short", [](Ctx& c) {
            po::options_description d; d.add_options()("apple,a", "")("bear,b", po::value<int>()); vector<string> t = {"-ab"};
            Caught k = catch_err([&] { po::command_line_parser(t).options(d).style(st::allow_short | st::allow_dash_for_short | st::short_allow_next | st::allow_sticky).run(); });
            if (!k.threw || k.e.what != "the required argument for option '-b' is missing") c.fail("\"-ab\" with short options only: " + k.e.what); }},
        {"short-only-positional", [](Ctx& c) {
            po::options_description d; d.add_options()("number,n", po::value<int>()); po::positional_options_description p; p.add("number", 1); vector<string> t = {"xyz"}; po::variables_map vm;
            Caught k = catch_err([&] { po::store(po::command_line_parser(t).options(d).positional(p).style(st::allow_short | st::allow_dash_for_short | st::short_allow_next).run(), vm); });
            if (!k.threw || k.e.what.find("'-x'") != string::npos) c.fail("positional \"xyz\" with short options only: " + k.e.what); }}};
    P.pinned = {[](Ctx& c) { po::invalid_option_value e("%canonical_option%"); e.set_option_name("foo"); if (string(e.what()) != "the argument ('%canonical_option%') for option 'foo' is invalid") c.fail(e.what()); }};
    return pbt::engine_main(argc, argv, P);
}
