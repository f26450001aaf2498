// P25: a program's own value semantics: what they are asked, what they are told, and when.
#include "common.hpp"
#include <algorithm>
#include <sstream>
#include <unistd.h>
using namespace t; using pbt::Ctx;

namespace {
struct Env {
    vector<vector<char>> text; vector<char*> ptr; char** old;
    Env(const vector<string>& e) : old(environ) { for (auto& s : e) { text.emplace_back(s.begin(), s.end()); text.back().push_back(0); } for (auto& t : text) ptr.push_back(t.data()); ptr.push_back(nullptr); environ = ptr.data(); }
    ~Env() { environ = old; }
};
enum Flavour { raw, narrow, wide, typed };         // which class the program derives from
struct Spec {
    Opt o; Flavour f = raw; unsigned min = 0, max = 1; bool composing = false, required = false, has_default = false, blank = false; string name;   // blank: its parse() and default leave the value empty
};
using Acc = vector<vector<string>>;                // the token lists parse() was called with
struct Value { Acc acc; };
vector<string> flat(const Acc& a) { vector<string> v; for (auto& x : a) v.insert(v.end(), x.begin(), x.end()); return v; }
string show_acc(const Acc& a, Flavour f);
string shown(const Spec& s, const Acc& a) { return s.blank ? "nothing" : show_acc(a, s.f); }
string show_acc(const Acc& a, Flavour f) { if (f == typed) return pbt::esc(flat(a)); string s; for (auto& x : a) s += "(" + pbt::esc(x) + ")"; return s; }
string show_any(const boost::any& a)
{
    if (a.empty()) return "nothing";
    if (auto* v = boost::any_cast<Value>(&a)) return show_acc(v->acc, raw);
    if (auto* v = boost::any_cast<vector<string>>(&a)) return pbt::esc(*v);
    return "something else";
}
const char* const DEFAULT = "the default";

// what the library did with the semantics
vector<string> g_events; int g_alive = 0;
struct Boom { string what; };                      // not a std::exception
struct Odd : po::error_with_option_name { Odd() : po::error_with_option_name("option '%canonical_option%' is odd") {} ~Odd() throw() {} };
void maybe_throw(const vector<string>& t)
{
    for (auto& s : t) { if (s == "boom") throw Boom{s}; if (s == "badval") throw po::invalid_option_value(s); if (s == "odd") throw Odd(); if (s == "rt") throw std::range_error("rt"); }
}
void on_parse(const Spec& s, const boost::any& v, const vector<string>& t, const char* enc) { g_events.push_back("parse " + s.o.names() + " " + pbt::esc(t) + enc + " onto " + show_any(v)); maybe_throw(t); }
void on_default(const Spec& s) { g_events.push_back("default " + s.o.names()); }
void on_notify(const Spec& s, const boost::any& v) { string e = "notify " + s.o.names() + " " + show_any(v); g_events.push_back(e); if (e.find("throw-later") != e.npos) throw Boom{"notify"}; }

template<class Base> struct Common : Base {
    const Spec s; Common(const Spec& x) : s(x) { ++g_alive; } ~Common() { --g_alive; }
    string name() const override { return s.name; }
    unsigned min_tokens() const override { return s.min; }
    unsigned max_tokens() const override { return s.max; }
    bool is_composing() const override { return s.composing; }
    bool is_required() const override { return s.required; }
    bool apply_default(boost::any& v) const override { on_default(s); if (!s.has_default) return false; if (!s.blank) v = Value{{{DEFAULT}}}; return true; }
    void notify(const boost::any& v) const override { on_notify(s, v); }
    void put(boost::any& v, const vector<string>& t) const { if (s.blank) return; if (v.empty()) v = Value(); boost::any_cast<Value>(&v)->acc.push_back(t); }
};
struct Raw : Common<po::value_semantic> {
    using Common::Common;
    void parse(boost::any& v, const vector<string>& t, bool utf8) const override { on_parse(s, v, t, utf8 ? " utf8" : " local"); put(v, t); }
};
struct Narrow : Common<po::value_semantic_codecvt_helper<char>> {
    using Common::Common;
    void xparse(boost::any& v, const vector<string>& t) const override { on_parse(s, v, t, ""); put(v, t); }
};
struct Wide : Common<po::value_semantic_codecvt_helper<wchar_t>> {
    using Common::Common;
    void xparse(boost::any& v, const vector<wstring>& w) const override { vector<string> t; for (auto& x : w) t.push_back(ref_encode(x)); on_parse(s, v, t, ""); put(v, t); }
};
struct Typed : po::typed_value<vector<string>> {   // derived from the library's own
    const Spec s;
    Typed(const Spec& x) : po::typed_value<vector<string>>(nullptr), s(x) { ++g_alive; if (s.has_default) default_value(vector<string>(1, DEFAULT), DEFAULT); if (s.composing) composing(); }
    ~Typed() { --g_alive; }
    unsigned min_tokens() const { return s.min; }
    unsigned max_tokens() const { return s.max; }
    bool is_required() const { return s.required; }
    string name() const { return s.name; }
    void xparse(boost::any& v, const vector<string>& t) const { on_parse(s, v, t, ""); po::typed_value<vector<string>>::xparse(v, t); }
    bool apply_default(boost::any& v) const { on_default(s); return po::typed_value<vector<string>>::apply_default(v); }
    void notify(const boost::any& v) const { on_notify(s, v); po::typed_value<vector<string>>::notify(v); }
};
po::value_semantic* make(const Spec& s) { switch (s.f) { case raw: return new Raw(s); case narrow: return new Narrow(s); case wide: return new Wide(s); default: return new Typed(s); } }
void build(po::options_description& d, const vector<Spec>& v, size_t from, size_t to) { for (size_t i = from; i < to; ++i) { string n = v[i].o.names(); if (i & 1) d.add_options()(n.c_str(), make(v[i]), "text"); else d.add_options()(n.c_str(), make(v[i])); } }
bool ascii(const string& s) { for (unsigned char c : s) if (c >= 128 || !c) return false; return true; }

struct MEntry { Acc acc; bool defaulted = false; size_t spec = 0; };
struct Model { std::map<string, MEntry> m; std::set<string> fin; bool required = false; };

void run(Ctx& c)
{
    g_events.clear(); g_alive = 0;
    NameCfg n; n.collide = c.chance(1, 6); n.max_opts = 2 + c.below(6); n.multi = c.chance(1, 4); n.wild = c.chance(1, 5);
    vector<Opt> opts = gen_names(c, n); vector<Spec> specs;
    for (auto& o : opts) {
        for (auto& l : o.longs) if (l.find('=') != l.npos || l.find('\0') != l.npos) c.discard();
        Spec s; s.f = Flavour(c.below(4)); s.min = unsigned(c.weighted({3, 4, 1, 1})); s.max = c.chance(1, 4) ? ~0u : s.min + unsigned(c.below(4));
        s.composing = c.chance(1, 3); s.required = c.chance(1, 10) && !o.wild(); s.has_default = c.chance(1, 3); s.name = c.pick({"arg", "", "FILE", "%value%"}); s.blank = s.f != typed && c.chance(1, 10); if (s.blank) c.label("leaves its value empty");
        o.sem = Sem(); o.sem.kind = KArity; o.sem.amin = s.min; o.sem.amax = s.max; o.sem.composing = s.composing; o.sem.required = s.required; o.sem.value_name = s.name; s.o = o; specs.push_back(s);
        c.key(o.names()); c.key(uint64_t(s.f)); c.key(uint64_t(s.min) << 32 | s.max); c.key(uint64_t(s.composing + 2 * s.required + 4 * s.has_default + 8 * s.blank));
    }
    if (c.describing()) { static const char* const fn[] = {"value_semantic", "codecvt_helper<char>", "codecvt_helper<wchar_t>", "typed_value"}; c.out() << show(opts); for (auto& s : specs) c.out() << "  " << pbt::esc(s.o.names()) << " derives from " << fn[s.f] << (s.has_default ? ", has a default" : "") << (s.blank ? ", leaves its value empty" : "") << "\n"; }
    std::unique_ptr<po::options_description> d(new po::options_description);
    { size_t cut = c.coin() ? specs.size() : c.below(specs.size() + 1); build(*d, specs, 0, cut); if (cut < specs.size()) { po::options_description g("more"); build(g, specs, cut, specs.size()); d->add(g); } }
    if (g_alive != int(specs.size())) c.fail("a semantic was destroyed while its description exists");
    string log; size_t parses = 0, notified = 0, defaults = 0;
    auto none = [&](const string& what) { if (!g_events.empty()) c.fail("after\n" + log + what + " called the semantic: " + g_events[0]); };
    none("building the description");
    std::unique_ptr<po::variables_map> vm(new po::variables_map); Model model;
    size_t ops = 1 + c.size(5, 20);
    for (size_t k = 0; k <= ops; ++k) {
        unsigned op = k == ops ? 3 : c.weighted({50, 18, 10, 16, 3, 3}); g_events.clear();
        if (op <= 2) {
            vector<POpt> popts; bool utf8 = false; string what; std::unique_ptr<po::parsed_options> pn; std::unique_ptr<po::wparsed_options> pw; int style = 0; wstring w; bool cmd = op == 0;
            auto spice = [&](string& s) { if (c.chance(1, 40)) s = c.pick({"boom", "badval", "odd", "rt", "throw-later"}); else if (c.chance(1, 20)) s = gen_utf8(c, 1 + c.below(4)); };
            if (op == 0) {
                ParseCase p; p.opts = opts; p.style = style = gen_style(c); p.allow_unreg = c.chance(1, 6); if (c.chance(1, 4)) { p.has_pos = true; p.pos = gen_pos(c, opts, true); }
                p.tokens = gen_line(c, opts, style, c.size(4, 20), 3, p.has_pos); for (auto& s : p.tokens) if (!s.empty() && s[0] != '-' && s[0] != '/') spice(s);
                bool wd = c.chance(1, 3); vector<wstring> wt; for (auto& s : p.tokens) { if (!ref_decode(s, w)) wd = false; wt.push_back(w); } c.key(p.tokens); c.key(uint64_t(style));
                ParseResult m = model_parse(p.tokens, p.cfg()); if (wd) for (auto& o : m.opts) { if (!ascii(o.key)) wd = false; for (auto& x : o.value) if (!ref_decode(x, w)) wd = false; } what = (wd ? "wide command line " : "command line ") + pbt::esc(p.tokens) + " style " + style_show(style);
                po::positional_options_description pd; if (p.has_pos) p.pos.build(pd);
                Caught r = catch_err([&] { if (wd) { po::wcommand_line_parser q(wt); q.options(*d).style(style); if (p.has_pos) q.positional(pd); if (p.allow_unreg) q.allow_unregistered(); pw.reset(new po::wparsed_options(q.run())); }
                    else { po::command_line_parser q(p.tokens); q.options(*d).style(style); if (p.has_pos) q.positional(pd); if (p.allow_unreg) q.allow_unregistered(); pn.reset(new po::parsed_options(q.run())); } });
                none("parsing the " + what);
                if (m.ok == r.threw) c.fail("after\n" + log + what + ": " + (m.ok ? "unexpected error " + r.e.show() : "expected " + m.err.show()));
                if (!m.ok) { c.label("line rejected"); continue; }
                vector<POpt> got = pn ? from_real(pn->options) : from_real(pw->options); if (got != m.opts) c.fail("after\n" + log + what + ": parsed as" + show(got) + "\n  instead of" + show(m.opts));
                popts = m.opts; utf8 = wd;
            } else if (op == 1) {
                if (only_long(opts).size() != opts.size()) continue;
                string text = gen_good_config(c, opts, c.size(4, 20), 0); if (c.chance(1, 6)) { const Opt& o = c.pick(opts); if (!o.wild()) { string v = c.pick({"boom", "badval", "odd", "rt", "throw-later"}); text += o.longs[0] + "=" + v + "\n"; } }
                CfgResult m = model_config(text, opts, false); if (!m.ok) continue; utf8 = c.chance(1, 3) && ref_decode(text, w); c.key(text); what = string(utf8 ? "wide " : "") + "configuration file " + pbt::esc(text);
                if (utf8) { ref_decode(text, w); std::wistringstream is(w); pw.reset(new po::wparsed_options(po::parse_config_file(is, *d))); } else { std::istringstream is(text); pn.reset(new po::parsed_options(po::parse_config_file(is, *d))); }
                none("parsing the " + what); popts = m.opts;
            } else {
                vector<string> env; for (size_t i = 0, e = c.size(3, 10); i < e; ++i) { const Opt& o = c.pick(opts); string name = o.longs.empty() ? o.shrt : o.longs[0]; if (name.back() == '*') { name.pop_back(); name += "ab"; } string val = gen_word(c); for (auto& ch : val) if (!ch) ch = 'z'; spice(val); env.push_back(name + "=" + val); }
                auto map = [](string s) { return s; }; popts = model_env(env, map); { Env e(env); pn.reset(new po::parsed_options(po::parse_environment(*d, map))); } what = "environment " + pbt::esc(env); c.key(env);
                none("parsing the " + what);
            }
            log += "store " + what + "\n"; if (c.describing()) c.out() << "store " << what << "\n";
            // ---- the model of store
            vector<string> events; string error, text; std::set<string> new_fin; bool threw = false; g_events.clear();
            for (auto& p : popts) {
                if (p.key.empty() || p.unreg || model.fin.count(p.key)) continue;
                Found f = lookup(opts, p.key, false, false, false); if (f.r != Found::one && p.ci) f = lookup(opts, p.key, false, true, true);
                if (f.r != Found::one) c.discard();              // names that collide: P04, P10
                const Spec& s = specs[f.idx]; MEntry e; auto i = model.m.find(p.key); bool present = i != model.m.end() && !i->second.defaulted; if (present) e = i->second;
                for (auto& t : p.value) if ((s.f == wide && !utf8 && !ascii(t)) || ((s.f == narrow || s.f == typed) && utf8 && !ascii(t)) || (utf8 && !ref_decode(t, w))) c.discard();    // the local encoding: P14
                events.push_back("parse " + s.o.names() + " " + pbt::esc(p.value) + (s.f == raw ? utf8 ? " utf8" : " local" : "") + " onto " + (present ? shown(s, e.acc) : "nothing")); ++parses;
                if (present && !s.blank) c.label("parse onto an earlier value");
                string bad; for (auto& t : p.value) if (t == "boom" || t == "badval" || t == "odd" || t == "rt") { bad = t; break; }
                if (!bad.empty()) {
                    threw = true; error = bad; MsgCtx mc; mc.option = p.key; mc.token = p.orig.empty() ? "" : p.orig[0]; mc.style = cmd ? canonical_prefix(style) : 0;
                    if (bad == "badval") mc.value = bad; if (bad == "badval") text = render(T_BADVAL, mc); else if (bad == "odd") text = render("option '%canonical_option%' is odd", mc); else if (bad == "rt") text = "rt";
                    break;
                }
                e.acc.push_back(p.value); e.defaulted = false; e.spec = f.idx; model.m[p.key] = e; if (!s.composing) new_fin.insert(p.key);
            }
            string got_error, got_text;
            try { if (pn) po::store(*pn, *vm); else po::store(*pw, *vm); }
            catch (Boom& b) { got_error = "boom"; } catch (Odd& o) { got_error = "odd"; got_text = o.what(); } catch (po::invalid_option_value& e) { got_error = "badval"; got_text = e.what(); } catch (std::range_error& e) { got_error = "rt"; got_text = e.what(); } catch (std::exception& e) { got_error = string("another error: ") + e.what(); }
            vector<string> ev, defs; for (auto& e : g_events) (e.compare(0, 8, "default ") == 0 ? defs : ev).push_back(e);
            if (ev != events) { string s; for (auto& e : events) s += "\n    " + e; s += "\n  but they were"; for (auto& e : ev) s += "\n    " + e; c.fail("after\n" + log + "the calls should have been" + s); }
            if (error != got_error) c.fail("after\n" + log + "the error should be '" + error + "' and is '" + got_error + "'");
            if (threw) {
                c.label("semantic throws"); bool short_only = cmd && style && !(style & (st::allow_long | st::allow_long_disguise));
                if (!short_only && text != got_text) c.fail("after\n" + log + "the message should be " + pbt::esc(text) + " and is " + pbt::esc(got_text));
                if (!defs.empty()) c.fail("after\n" + log + "a failed store asked for a default");
                vm->clear(); model = Model(); log += "clear\n"; continue;
            }
            model.fin.insert(new_fin.begin(), new_fin.end());
            std::set<string> want, got(defs.begin(), defs.end());
            for (size_t i = 0; i < specs.size(); ++i) {
                if (specs[i].o.wild()) continue; string key = key_of(specs[i].o, "");
                if (specs[i].required) model.required = true;
                if (model.m.count(key)) continue;
                want.insert("default " + specs[i].o.names()); if (specs[i].has_default) { MEntry e; e.acc = {{DEFAULT}}; e.defaulted = true; e.spec = i; model.m[key] = e; ++defaults; c.label("default asked for"); }
            }
            if (want != got) { string s; for (auto& e : want) s += " " + e; s += " and were"; for (auto& e : got) s += " " + e; c.fail("after\n" + log + "the defaults asked for should be" + s); }
        } else if (op == 3) {
            string missing; for (size_t i = 0; i < specs.size() && model.required; ++i) if (specs[i].required) { auto e = model.m.find(key_of(specs[i].o, "")); if (e == model.m.end() || specs[e->second.spec].blank) missing = specs[i].o.names(); }   // another option of the same name may have supplied it
            log += "notify\n"; if (c.describing()) c.out() << "notify\n"; vector<string> want; bool boom = false; 
            for (auto& e : model.m) { string s = "notify " + specs[e.second.spec].o.names() + " " + shown(specs[e.second.spec], e.second.acc); want.push_back(s); boom = boom || s.find("throw-later") != s.npos; }
            string got; try { po::notify(*vm); } catch (Boom&) { got = "boom"; } catch (po::required_option&) { got = "required"; } catch (std::exception& e) { got = e.what(); }
            if (got != (!missing.empty() ? "required" : boom ? "boom" : "")) c.fail("after\n" + log + "gave '" + got + "'" + (missing.empty() ? "" : " although " + missing + " is missing"));
            if (!missing.empty()) { none("notify() without a required option"); c.label("required missing"); continue; }
            vector<string> ev = g_events; std::sort(ev.begin(), ev.end()); std::sort(want.begin(), want.end()); notified += ev.size();
            if (boom) { c.label("notify throws"); if (!std::includes(want.begin(), want.end(), ev.begin(), ev.end())) c.fail("after\n" + log + "it called something else: " + pbt::esc(ev)); }
            else if (ev != want) c.fail("after\n" + log + "it should have called " + pbt::esc(want) + " but called " + pbt::esc(ev));
            if (!ev.empty()) c.label("notify");
        } else if (op == 4) { vm->clear(); model = Model(); log += "clear\n"; none("clear()"); }
        else { std::ostringstream os; os << *d; none("printing"); string s = os.str();
            for (size_t i = 0; i < specs.size(); ++i) { string f = d->options()[i]->format_parameter(); if (f != (specs[i].max ? specs[i].name : "")) c.fail("format_parameter() of " + specs[i].o.names() + " is " + pbt::esc(f)); if (specs[i].max && s.find(specs[i].name) == s.npos) c.fail("the name " + specs[i].name + " is not in the help text"); }
            c.label("printed"); }
        // the map holds what the semantics put there
        for (auto& e : model.m) {
            auto i = vm->find(e.first); if (i == vm->end()) c.fail("after\n" + log + "there is no value for " + pbt::esc(e.first));
            string is = show_any(i->second.value()), want = shown(specs[e.second.spec], e.second.acc); if (is != want || i->second.defaulted() != e.second.defaulted) c.fail("after\n" + log + pbt::esc(e.first) + " is " + is + (i->second.defaulted() ? " (default)" : "") + " instead of " + want);
        }
        if (vm->size() != model.m.size()) c.fail("after\n" + log + "the map has other entries too");
    }
    // everything is released, in either order
    g_events.clear(); if (c.coin()) { d.reset(); if (vm->size() && g_alive == 0 && std::any_of(model.m.begin(), model.m.end(), [](const std::pair<const string, MEntry>&) { return true; })) c.fail("the semantics of stored options are gone with the description"); vm.reset(); } else { vm.reset(); if (g_alive != int(specs.size())) c.fail("a semantic was destroyed with the map"); d.reset(); }
    if (g_alive != 0) c.fail(std::to_string(g_alive) + " semantics were not destroyed"); none("destruction");
    if (parses >= 2 && (notified || defaults)) c.nontrivial();
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P25"; P.run = run; P.quick = 80000; P.thorough = 6000000;
    P.rule = "options whose value semantics are the program's own classes (derived from value_semantic, either codecvt helper, or typed_value) of any arity, composing or required, with or without a default, throwing for some tokens; a history of stores from all sources, narrow and wide, notify, clear and printing; every call the library makes to a semantic is recorded and compared with a model. Non-trivial: at least two values parsed, and something notified or defaulted";
    return pbt::engine_main(argc, argv, P);
}
