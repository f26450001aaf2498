// P24: copies are independent values, results outlive what they came from.
// Every object has a recipe (plain data); what a history of copying, assigning, moving, changing and destroying left of it
// is compared with an object built afresh from its recipe.
#include "common.hpp"
#include <map>
#include <sstream>
#include <unistd.h>
using namespace t; using pbt::Ctx;

namespace {
struct Env {
    vector<vector<char>> text; vector<char*> ptr; char** old;
    Env(const vector<string>& e) : old(environ) { for (auto& s : e) { text.emplace_back(s.begin(), s.end()); text.back().push_back(0); } for (auto& t : text) ptr.push_back(t.data()); ptr.push_back(nullptr); environ = ptr.data(); }
    ~Env() { environ = old; }
};

// ------------------------------------------------------------------ recipes
struct DRec; using DR = std::shared_ptr<const DRec>;
struct DRec {
    string caption; unsigned line = 80, mind = 40;
    struct Item { bool group = false; Opt opt; DR sub; };
    vector<Item> items;
    void flat(vector<Opt>& o) const { for (auto& i : items) if (i.group) i.sub->flat(o); else o.push_back(i.opt); }
};
struct PRec {
    DR d; enum K { cmd, config, env } kind = cmd; bool wide = false, unreg = false, argv = false, has_pos = false; int style = 0;
    vector<string> tokens; string text; PosDesc pos;
};
using PR = std::shared_ptr<const PRec>;
struct MStep { enum K { store, notify, clear, put, erase, mutate } k = clear; PR p; DR d; string name; int val = 0; bool def = false; };
using MR = vector<MStep>;

// ------------------------------------------------------------------ the application's side: notifiers write here
vector<string>* g_log = nullptr;
Sinks g_sinks;                                     // bound variables and notifiers, alive for the whole case

void add_opt(po::options_description& d, const Opt& o)
{
    size_t n = g_sinks.s.size(); add_options(d, {o}, &g_sinks); Sink* k = g_sinks.s.at(n).get(); string name = o.names();
    k->hook = [k, name] { if (g_log) g_log->push_back(name + "=" + k->notified.back().show()); };
}
std::unique_ptr<po::options_description> build(const DRec& r)
{
    std::unique_ptr<po::options_description> d(r.caption.empty() ? new po::options_description(r.line, r.mind) : new po::options_description(r.caption, r.line, r.mind));
    for (auto& i : r.items) if (!i.group) add_opt(*d, i.opt); else { auto g = build(*i.sub); d->add(*g); }
    return d;
}
struct Parsed {                                    // one of the two
    std::unique_ptr<po::parsed_options> n; std::unique_ptr<po::wparsed_options> w; string error; std::exception_ptr held;
    bool ok() const { return n || w; }
};
wstring widen(const string& s) { wstring w; ref_decode(s, w); return w; }
Parsed parse(const PRec& r, const po::options_description& d)
{
    Parsed out;
    try {
        if (r.kind == PRec::cmd) {
            // tokens, argv and the parser are gone when this returns
            if (r.wide) {
                vector<wstring> t; for (auto& s : r.tokens) t.push_back(widen(s)); vector<const wchar_t*> av(1, L"p"); for (auto& s : t) av.push_back(s.c_str()); av.push_back(nullptr);
                std::unique_ptr<po::wcommand_line_parser> q(r.argv ? new po::wcommand_line_parser(int(av.size()) - 1, av.data()) : new po::wcommand_line_parser(t));
                t.clear(); t.shrink_to_fit(); q->options(d).style(r.style); po::positional_options_description pd; if (r.has_pos) { r.pos.build(pd); q->positional(pd); } if (r.unreg) q->allow_unregistered();
                out.w.reset(new po::wparsed_options(q->run()));
            } else {
                vector<string> t = r.tokens; vector<const char*> av(1, "p"); for (auto& s : t) av.push_back(s.c_str()); av.push_back(nullptr);
                std::unique_ptr<po::command_line_parser> q(r.argv ? new po::command_line_parser(int(av.size()) - 1, av.data()) : new po::command_line_parser(t));
                t.clear(); t.shrink_to_fit(); q->options(d).style(r.style); po::positional_options_description pd; if (r.has_pos) { r.pos.build(pd); q->positional(pd); } if (r.unreg) q->allow_unregistered();
                out.n.reset(new po::parsed_options(q->run()));
            }
        } else if (r.kind == PRec::config) {
            if (r.wide) { std::wistringstream is(widen(r.text)); out.w.reset(new po::wparsed_options(po::parse_config_file(is, d, r.unreg))); }
            else { std::istringstream is(r.text); out.n.reset(new po::parsed_options(po::parse_config_file(is, d, r.unreg))); }
        } else { Env e(r.tokens); out.n.reset(new po::parsed_options(po::parse_environment(d, [](string s) { return s; }))); }
    } catch (std::exception& e) { out.error = catch_err([] { throw; }).e.show(); out.held = std::current_exception(); }
    return out;
}

// ------------------------------------------------------------------ fingerprints
string finger(const po::options_description& d, const vector<string>& names)
{
    std::ostringstream os; os << d << "\n";
    for (auto& o : d.options()) {
        os << "["; auto l = o->long_names(); for (size_t i = 0; i < l.second; ++i) os << l.first[i] << ",";
        os << "|" << o->format_name() << "|" << o->format_parameter() << "|" << o->description() << "|" << o->key("k") << "|" << o->canonical_display_name(po::command_line_style::allow_long) << "]\n";
    }
    for (auto& s : names) for (int a = 0; a < 2; ++a) {
        const po::option_description* f = nullptr; Caught k = catch_err([&] { f = d.find_nothrow(s, a); }); size_t at = 0;
        for (; at < d.options().size() && d.options()[at].get() != f; ++at);
        os << s << ":" << (k.threw ? k.e.show() : f ? std::to_string(at) : "none") << "\n";
    }
    return os.str();
}
string finger(const Parsed& p)
{
    if (!p.ok()) return p.error;
    if (p.n) return "prefix " + std::to_string(p.n->m_options_prefix) + show(from_real(p.n->options));
    return "wide prefix " + std::to_string(p.w->m_options_prefix) + show(from_real(p.w->options)) + " utf8" + show(from_real(p.w->utf8_encoded_options.options));
}
string finger(const po::variable_value& v) { return (v.empty() ? string("empty") : any_to_mv(v.value()).show()) + (v.defaulted() ? " defaulted" : ""); }
string finger(const po::variables_map& m) { string s; for (auto& e : m) s += pbt::esc(e.first) + ": " + finger(e.second) + "\n"; return s; }
string finger(const po::positional_options_description& p) { string s = std::to_string(p.max_total_count()); unsigned n = std::min(p.max_total_count(), 12u); for (unsigned i = 0; i < n; ++i) s += " " + p.name_for_position(i); return s; }

// the application changes a value it holds
bool change(boost::any& a)
{
    if (int* i = boost::any_cast<int>(&a)) { *i += 1; return true; }
    if (string* s = boost::any_cast<string>(&a)) { *s += "'"; return true; }
    if (bool* b = boost::any_cast<bool>(&a)) { *b = !*b; return true; }
    if (auto* v = boost::any_cast<vector<string>>(&a)) { v->push_back("more"); return true; }
    if (auto* v = boost::any_cast<vector<int>>(&a)) { v->push_back(7); return true; }
    if (double* d = boost::any_cast<double>(&a)) { *d += 1; return true; }
    return false;
}
// one step on a map; the outcome is what the caller sees of it
string apply(po::variables_map& m, const MStep& s, const Parsed* p)
{
    vector<string> log; g_log = &log; string r;
    switch (s.k) {
    case MStep::store: r = catch_err([&] { if (p->n) po::store(*p->n, m); else po::store(*p->w, m); }).e.show(); break;
    case MStep::notify: r = catch_err([&] { po::notify(m); }).e.show(); break;
    case MStep::clear: m.clear(); break;
    case MStep::put: m.erase(s.name); m.insert(std::make_pair(s.name, po::variable_value(boost::any(s.val), s.def))); break;
    case MStep::erase: m.erase(s.name); break;
    case MStep::mutate: { auto i = m.find(s.name); if (i != m.end()) change(i->second.value()); break; }
    }
    g_log = nullptr; for (auto& l : log) r += "; " + l; return r;
}
string replay(po::variables_map& m, const MR& r)
{
    string last;
    for (auto& s : r) {
        if (s.k != MStep::store) { last = apply(m, s, nullptr); continue; }
        auto d1 = build(*s.p->d); Parsed p = parse(*s.p, *d1); if (!p.ok()) throw pbt::Fail{"a parse that succeeded fails when repeated: " + p.error};
        auto d2 = build(*s.d); if (p.n) p.n->description = d2.get(); else { p.w->description = d2.get(); p.w->utf8_encoded_options.description = d2.get(); }
        last = apply(m, s, &p);
    }
    return last;
}

// ------------------------------------------------------------------ objects
struct D { std::unique_ptr<po::options_description> r; DRec rec; int id; };
struct P { Parsed r; PR rec; int d; };
struct M { std::unique_ptr<po::variables_map> r; MR rec; bool chained = false; };
struct V { po::variable_value r; string f; };
struct Q { po::positional_options_description r; PosDesc rec; };
struct L { std::unique_ptr<po::command_line_parser> n; std::unique_ptr<po::wcommand_line_parser> w; PRec rec; int d; };
struct E { std::exception_ptr e; string f; };

void run(Ctx& c)
{
    g_sinks = Sinks(); g_log = nullptr;
    NameCfg n; n.collide = false; n.max_opts = 2 + c.below(5); n.multi = c.chance(1, 4);
    vector<Opt> pool = gen_names(c, n); SemCfg sc; sc.wide = c.chance(1, 6); gen_sems(c, pool, sc); vector<string> names;
    for (auto& o : pool) {
        for (auto& l : o.longs) { if (l.find('=') != l.npos || l.find('\0') != l.npos) c.discard(); names.push_back(l); }
        if (!o.shrt.empty()) names.push_back(o.shrt);
        o.desc = c.pick({"", "text", "a text of several words which is long enough to be wrapped in the narrower groups"});
        if (o.sem.kind != KUntyped0 && o.sem.kind != KUntyped1) { o.sem.notifier = c.coin(); o.sem.store_to = o.sem.kind != KArity && c.coin(); }
        c.key(o.names()); c.key(o.sem.show());
    }
    names.push_back("nosuch");
    vector<D> ds; vector<P> ps; vector<M> ms; vector<V> vs; vector<Q> qs; vector<L> ls; vector<E> es; int next_id = 0; string log; size_t copies = 0, destroyed = 0, changed = 0;
    if (c.describing()) c.out() << show(pool);
    auto note = [&](const string& s) { log += s + "\n"; if (c.describing()) c.out() << s << "\n"; };
    // what some maps are chained to
    po::variables_map base; for (auto& s : names) if (c.coin()) base.insert(std::make_pair(s, po::variable_value(boost::any(int(c.below(100))), c.coin()))); base.insert(std::make_pair(string("own 0"), po::variable_value(boost::any(-1), false))); base.insert(std::make_pair(string("own 1"), po::variable_value(boost::any(-2), true)));
    auto finger_m = [&](const po::variables_map& m) { string s = finger(m); for (auto& x : names) s += "[" + pbt::esc(x) + "] " + finger(m[x]) + "\n"; for (auto x : {"own 0", "own 1", "own 2"}) s += finger(m[x]) + "\n"; return s; };
    auto find_d = [&](int id) -> D* { for (auto& d : ds) if (d.id == id) return &d; return nullptr; };
    auto differ = [&](const string& what, const string& is, const string& should) { c.fail("after\n" + log + what + " is\n" + is + "\ninstead of\n" + should); };
    auto ck_d = [&](D& d) { string a = finger(*d.r, names), b = finger(*build(d.rec), names); if (a != b) differ("description " + std::to_string(d.id), a, b); };
    auto ck_p = [&](P& p) { auto d = build(*p.rec->d); string a = finger(p.r), b = finger(parse(*p.rec, *d)); if (a != b) differ("a parsed result", a, b); };
    auto ck_m = [&](M& m) { po::variables_map f(m.chained ? &base : nullptr); replay(f, m.rec); string a = finger_m(*m.r), b = finger_m(f); if (a != b) differ("a map", a, b); };
    auto ck_v = [&](V& v) { string a = finger(v.r); if (a != v.f) differ("a value", a, v.f); };
    auto ck_q = [&](Q& q) { po::positional_options_description f; q.rec.build(f); string a = finger(q.r), b = finger(f); if (a != b) differ("a positional description", a, b); };
    auto ck_e = [&](E& e) { string a = catch_err([&] { std::rethrow_exception(e.e); }).e.show(); if (a != e.f) differ("an error", a, e.f); };
    auto step = [&](M& m, MStep s, Parsed* p) {
        string a = apply(*m.r, s, p); m.rec.push_back(s); po::variables_map f(m.chained ? &base : nullptr); string b = replay(f, m.rec);
        if (a != b) differ("the outcome of the last step", a, b); string x = finger_m(*m.r), y = finger_m(f); if (x != y) differ("the map after the last step", x, y);
    };
    auto gen_prec = [&](Ctx& c, const DRec& d) {
        PRec r; r.d = std::make_shared<DRec>(d); vector<Opt> o; d.flat(o); r.style = gen_style(c); r.unreg = c.chance(1, 4); r.wide = c.chance(1, 4);
        r.kind = c.weighted({5, 2, 1}) == 0 ? PRec::cmd : c.coin() ? PRec::env : PRec::config; unsigned bad = unsigned(c.pick({0, 0, 20}));
        if (r.kind == PRec::cmd) { r.argv = c.coin(); r.tokens = gen_line(c, o, r.style, c.size(4, 12), bad, c.chance(1, 3)); for (auto& s : r.tokens) if (s.find('\0') != s.npos) c.discard(); if (!qs.empty() && c.chance(1, 3)) { r.has_pos = true; r.pos = qs[c.below(qs.size())].rec; } c.key(r.tokens); }
        else if (r.kind == PRec::config) { if (!only_long(o).empty()) r.text = gen_good_config(c, o, c.size(4, 12), bad); c.key(r.text); }
        else { r.wide = false; for (size_t i = 0, k = c.size(3, 8); i < k && !o.empty(); ++i) { const Opt& q = o[c.below(o.size())]; string name = q.longs.empty() ? q.shrt : q.longs[0]; if (name.back() == '*') { name.pop_back(); name += "ab"; } string val = gen_value_for(c, q.sem.kind, true); for (auto& ch : val) if (!ch) ch = 'z'; r.tokens.push_back(name + "=" + val); } c.key(r.tokens); }
        wstring w; for (auto& s : r.tokens) if (!ref_decode(s, w)) r.wide = false; if (!ref_decode(r.text, w)) r.wide = false;
        return r;
    };
    auto show_p = [&](const PRec& r) { return string(r.wide ? "wide " : "") + (r.kind == PRec::cmd ? "command line " + pbt::esc(r.tokens) + " style " + style_show(r.style) : r.kind == PRec::config ? "configuration file " + pbt::esc(r.text) : "environment " + pbt::esc(r.tokens)); };
    auto fail_parse = [&](Parsed& r) { if (es.size() < 4 && r.held) { es.push_back(E{r.held, r.error}); c.label("error kept"); } };

    size_t ops = 4 + c.size(14, 60);
    for (size_t k = 0; k < ops; ++k) {
        unsigned kind = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2 : c.weighted({14, 20, 55, 7, 5, 7, 2}); uint64_t op = c.below(100);
        if (kind == 0) {                                            // ---- descriptions
            if (ds.empty() || (op < 12 && ds.size() < 3)) {
                D d; d.id = next_id++; d.rec.caption = c.chance(1, 2) ? "" : "caption"; d.rec.line = unsigned(c.pick({80, 60, 100})); d.rec.mind = d.rec.line / 2; for (auto& o : pool) if (c.chance(2, 3)) { DRec::Item it; it.opt = o; d.rec.items.push_back(it); } d.r = build(d.rec); ds.push_back(std::move(d)); note("description " + std::to_string(next_id - 1) + " with " + std::to_string(ds.back().rec.items.size()) + " options"); continue; }
            size_t i = c.below(ds.size()); D& d = ds[i];
            if (op < 50) { vector<Opt> o; d.rec.flat(o); if (o.size() > 12) continue; const Opt* y = &c.pick(pool); if (c.chance(5, 6)) { y = nullptr; for (auto& q : pool) { bool in = false; for (auto& z : o) in = in || z.names() == q.names(); if (!in) y = &q; } if (!y) continue; } const Opt& x = *y; add_opt(*d.r, x); DRec::Item it; it.opt = x; d.rec.items.push_back(it); note("description " + std::to_string(d.id) + ": add " + x.show()); ++changed; }
            else if (op < 65 && ds.size() > 1) { D& g = ds[c.below(ds.size())]; vector<Opt> a, b; d.rec.flat(a); g.rec.flat(b); if (&g == &d || a.size() + b.size() > 14) continue; d.r->add(*g.r); DRec::Item it; it.group = true; it.sub = std::make_shared<DRec>(g.rec); d.rec.items.push_back(it); note("description " + std::to_string(d.id) + ": add group " + std::to_string(g.id)); c.label("group added"); ++changed; }
            else if (op < 80 && ds.size() < 6) { D n; n.id = next_id++; n.r.reset(c.coin() ? new po::options_description(*d.r) : new po::options_description(po::options_description(*d.r))); n.rec = d.rec; note("description " + std::to_string(n.id) + ": copy of " + std::to_string(d.id)); ds.push_back(std::move(n)); c.label("description copied"); ++copies; }
            else if (op < 92) { note("description " + std::to_string(d.id) + " destroyed"); int id = d.id; ds.erase(ds.begin() + i); for (size_t q = 0; q < ls.size(); ) if (ls[q].d == id) ls.erase(ls.begin() + q); else ++q; c.label("description destroyed"); ++destroyed; }
            else ck_d(d);
        } else if (kind == 1) {                                     // ---- parsed results
            if (op < 45 || ps.empty()) { if (ds.empty() || ps.size() > 6) continue; D& d = ds[c.below(ds.size())]; PRec r = gen_prec(c, d.rec); note("parse with description " + std::to_string(d.id) + " " + show_p(r)); P p; p.d = d.id; p.rec = std::make_shared<PRec>(r); p.r = parse(r, *d.r); if (!p.r.ok()) fail_parse(p.r); ck_p(p); if (p.r.ok()) ps.push_back(std::move(p)); continue; }
            size_t i = c.below(ps.size()); P& p = ps[i];
            if (op < 60 && ps.size() < 8) { P q; q.d = p.d; q.rec = p.rec; if (p.r.n) q.r.n.reset(new po::parsed_options(*p.r.n)); else q.r.w.reset(new po::wparsed_options(*p.r.w)); ps.push_back(std::move(q)); note("parsed result copied"); ++copies; c.label("parsed result copied"); }
            else if (op < 70) { P& q = ps[c.below(ps.size())]; if (bool(q.r.n) != bool(p.r.n)) continue; if (p.r.n) *p.r.n = *q.r.n; else *p.r.w = *q.r.w; p.rec = q.rec; p.d = q.d; note("parsed result assigned"); ++copies; }
            else if (op < 78) { if (ps.size() > 7) continue; P q; q.d = p.d; q.rec = p.rec; if (p.r.n) q.r.n.reset(new po::parsed_options(std::move(*p.r.n))); else q.r.w.reset(new po::wparsed_options(std::move(*p.r.w))); ps.erase(ps.begin() + i); ps.push_back(std::move(q)); note("parsed result moved"); }
            else if (op < 84) { if (!p.r.n || p.r.n->options.empty()) continue; P q; q.d = p.d; q.rec = p.rec; q.r.n.reset(new po::parsed_options(*p.r.n)); auto& o = q.r.n->options[c.below(q.r.n->options.size())]; o.value.push_back("changed"); o.string_key += "x"; o.original_tokens.clear(); note("a copy of a parsed result changed"); ++changed; }
            else if (op < 92) { ps.erase(ps.begin() + i); note("parsed result destroyed"); ++destroyed; }
            else ck_p(p);
        } else if (kind == 2) {                                     // ---- maps
            if (ms.empty() || (op < 8 && ms.size() < 3)) { M m; m.chained = c.chance(1, 3); m.r.reset(m.chained ? new po::variables_map(&base) : new po::variables_map); note(m.chained ? "new map, chained" : "new map"); ms.push_back(std::move(m)); if (ps.empty()) continue; }
            size_t i = c.below(ms.size()); M& m = ms[i]; string mi = "map " + std::to_string(i) + " ";
            if (m.rec.size() > 12) { note(mi + "destroyed"); ms.erase(ms.begin() + i); continue; }
            if (op < 40) {
                if (ps.empty()) continue; P& p = ps[c.below(ps.size())]; D* d = find_d(p.d); if (!d) { c.label("description already gone"); continue; }
                MStep s; s.k = MStep::store; s.p = p.rec; s.d = std::make_shared<DRec>(d->rec); note(mi + "store " + show_p(*p.rec)); string before = finger(p.r); step(m, s, &p.r); if (finger(p.r) != before) c.fail("store() changed the parsed options"); c.label("store");
            } else if (op < 52) { MStep s; s.k = MStep::notify; note(mi + "notify"); step(m, s, nullptr); c.label(ds.empty() ? "notify without descriptions" : "notify"); }
            else if (op < 64) { if (ms.size() > 5) continue; M q; q.r.reset(new po::variables_map(*m.r)); q.rec = m.rec; q.chained = m.chained; if (m.chained) c.label("chained map copied"); ms.push_back(std::move(q)); note(mi + "copied"); ++copies; c.label("map copied"); }
            else if (op < 72) { M& q = ms[c.below(ms.size())]; *m.r = *q.r; m.rec = MR(q.rec); m.chained = q.chained; note(mi + "assigned from map " + std::to_string(&q - ms.data())); ++copies; c.label(&q == &m ? "self-assignment" : "map assigned"); }
            else if (op < 75) { M& q = ms[c.below(ms.size())]; if (&q == &m) continue; po::variables_map x(*m.r); *m.r = *q.r; *q.r = x; std::swap(m.rec, q.rec); std::swap(m.chained, q.chained); note(mi + "exchanged"); ++copies; }
            else if (op < 78) { po::variables_map* x = new po::variables_map(std::move(*m.r)); m.r.reset(x); note(mi + "moved"); ++copies; }
            else if (op < 82) { MStep s; s.k = MStep::put; s.name = "own " + std::to_string(c.below(3)); s.val = int(c.below(9)); s.def = c.coin(); note(mi + "put " + s.name); step(m, s, nullptr); ++changed; }
            else if (op < 84) { MStep s; s.k = MStep::erase; s.name = c.pick(names); note(mi + "erase " + s.name); step(m, s, nullptr); ++changed; }
            else if (op < 91) { if (m.r->empty()) continue; auto it = m.r->begin(); std::advance(it, c.below(m.r->size())); MStep s; s.k = MStep::mutate; s.name = it->first; note(mi + "change the value of " + s.name + " in place"); if (it->second.defaulted()) c.label("default changed in place"); step(m, s, nullptr); ++changed; }
            else if (op < 93) { MStep s; s.k = MStep::clear; note(mi + "clear"); step(m, s, nullptr); ++changed; }
            else if (op < 95) { m.chained = !m.chained; m.r->next(m.chained ? &base : nullptr); note(mi + (m.chained ? "chained" : "unchained")); ++changed; }
            else if (op < 97) { ms.erase(ms.begin() + i); note(mi + "destroyed"); ++destroyed; }
            else ck_m(m);
        } else if (kind == 3) {                                     // ---- values
            if (vs.empty() || op < 40) { if (ms.empty() || vs.size() > 4) continue; M& m = ms[c.below(ms.size())]; string name = c.pick(names); V v; v.r = (*m.r)[name]; v.f = finger(v.r); vs.push_back(v); note("value of " + name + " taken"); ++copies; continue; }
            V& v = vs[c.below(vs.size())];
            if (op < 60) { if (change(v.r.value())) { v.f = finger(v.r); note("value changed"); ++changed; c.label("value changed"); } }
            else if (op < 80) { V& w = vs[c.below(vs.size())]; v.r = w.r; v.f = w.f; note("value assigned"); ++copies; }
            else ck_v(v);
        } else if (kind == 4) {                                     // ---- positional descriptions
            if (qs.empty() || (op < 25 && qs.size() < 4)) { Q q; qs.push_back(q); note("positional description"); continue; }
            size_t i = c.below(qs.size()); Q& q = qs[i];
            if (op < 60) { if (q.rec.unlimited() || q.rec.e.size() > 3) continue; PosDesc::E e; e.name = c.pick(names); e.count = int(c.pick({1, 2, -1})); q.r.add(e.name.c_str(), e.count); q.rec.e.push_back(e); note("positional add " + e.name); ++changed; }
            else if (op < 75) { Q x = q; qs.push_back(x); if (qs.size() > 5) qs.erase(qs.begin()); note("positional copied"); ++copies; }
            else if (op < 85) { Q x = qs[c.below(qs.size())]; q.r = x.r; q.rec = x.rec; note("positional assigned"); ++copies; }
            else ck_q(q);
        } else if (kind == 5) {                                     // ---- parsers not yet run
            if (ls.empty() || (op < 40 && ls.size() < 4)) {
                if (ds.empty()) continue; D& d = ds[c.below(ds.size())]; PRec r = gen_prec(c, d.rec); if (r.kind != PRec::cmd) continue; r.has_pos = false; L l; l.d = d.id; l.rec = r; note("parser for " + show_p(r) + " with description " + std::to_string(d.id));
                if (r.wide) { vector<wstring> t; for (auto& s : r.tokens) t.push_back(widen(s)); vector<const wchar_t*> av(1, L"p"); for (auto& s : t) av.push_back(s.c_str()); av.push_back(nullptr); l.w.reset(r.argv ? new po::wcommand_line_parser(int(av.size()) - 1, av.data()) : new po::wcommand_line_parser(t)); l.w->options(*d.r).style(r.style); if (r.unreg) l.w->allow_unregistered(); }
                else { vector<string> t = r.tokens; vector<const char*> av(1, "p"); for (auto& s : t) av.push_back(s.c_str()); av.push_back(nullptr); l.n.reset(r.argv ? new po::command_line_parser(int(av.size()) - 1, av.data()) : new po::command_line_parser(t)); l.n->options(*d.r).style(r.style); if (r.unreg) l.n->allow_unregistered(); }
                ls.push_back(std::move(l)); continue; }
            size_t i = c.below(ls.size()); L& l = ls[i];
            if (op < 60) { L x; x.rec = l.rec; x.d = l.d; if (l.n) x.n.reset(new po::command_line_parser(*l.n)); else x.w.reset(new po::wcommand_line_parser(*l.w)); ls.push_back(std::move(x)); note("parser copied"); ++copies; c.label("parser copied"); }
            else {                                                  // run it, with the description as it is now
                D* d = find_d(l.d); if (!d) continue; P p; p.d = l.d; PRec r = l.rec; r.d = std::make_shared<DRec>(d->rec); p.rec = std::make_shared<PRec>(r); note("parser run: " + show_p(r));
                try { if (l.n) p.r.n.reset(new po::parsed_options(l.n->run())); else p.r.w.reset(new po::wparsed_options(l.w->run())); } catch (std::exception&) { p.r.error = catch_err([] { throw; }).e.show(); p.r.held = std::current_exception(); }
                ls.erase(ls.begin() + i); if (!p.r.ok()) fail_parse(p.r); ck_p(p); if (p.r.ok() && ps.size() < 8) ps.push_back(std::move(p)); c.label("kept parser run"); }
        } else { if (!es.empty()) ck_e(es[c.below(es.size())]); }
    }
    // what is left, in a random order of destruction, each checked while the others may be gone
    unsigned order = unsigned(c.below(6)); note("at the end");
    auto end_d = [&] { for (auto& d : ds) ck_d(d); ls.clear(); ds.clear(); };
    auto end_p = [&] { for (auto& p : ps) ck_p(p); ps.clear(); };
    auto end_m = [&] { for (auto& m : ms) { ck_m(m); MStep s; s.k = MStep::notify; step(m, s, nullptr); } ms.clear(); };
    switch (order) { case 0: end_m(); end_p(); end_d(); break; case 1: end_d(); end_m(); end_p(); break; case 2: end_p(); end_d(); end_m(); break; case 3: end_d(); end_p(); end_m(); break; case 4: end_p(); end_m(); end_d(); break; default: end_m(); end_d(); end_p(); }
    for (auto& v : vs) ck_v(v); for (auto& q : qs) ck_q(q); for (auto& e : es) ck_e(e);
    if (copies && changed && ops > 6) c.nontrivial();
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P24"; P.run = run; P.quick = 40000; P.thorough = 2000000;
    P.rule = "a history over pools of descriptions, parsed results (narrow, wide, from all sources), variables maps, single values, positional descriptions, parsers not yet run and caught errors: made, copied, assigned, moved, changed in place, added to one another, stored, notified and destroyed in any order; each object is compared with one built afresh from its own recipe. Non-trivial: some object was copied or assigned and some object changed";
    return pbt::engine_main(argc, argv, P);
}
