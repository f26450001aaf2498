// P10: histories of stores from several sources against a model of the map.
#include "common.hpp"
#include <sstream>
#include <unistd.h>
using namespace t; using pbt::Ctx;

namespace {
struct Env {
    vector<vector<char>> text; vector<char*> ptr; char** old;
    Env(const vector<string>& e) : old(environ) { for (auto& s : e) { text.emplace_back(s.begin(), s.end()); text.back().push_back(0); } for (auto& t : text) ptr.push_back(t.data()); ptr.push_back(nullptr); environ = ptr.data(); }
    ~Env() { environ = old; }
};
struct Desc { vector<Opt> opts; std::unique_ptr<po::options_description> d; Sinks sinks; };

void run(Ctx& c)
{
    NameCfg n; n.collide = c.chance(1, 6); n.wild = c.chance(1, 4); n.max_opts = 2 + c.below(7); n.multi = c.coin();
    vector<Opt> v = gen_names(c, n); SemCfg sc; sc.wide = c.chance(1, 4);
    gen_sems(c, v, sc);
    for (auto& o : v) if (!o.longs.empty() && c.chance(1, 5)) o.longs[0] = "s." + o.longs[0];
    for (auto& o : v) for (auto& l : o.longs) if (l.find('=') != l.npos || l.find('\0') != l.npos) c.discard();
    // the descriptions: all options, those with long names, and a random part; each built on its own
    vector<Desc> ds(3);
    // no name is an option of another type in another description, as it might be with a wildcard: then all have the same options, or no wildcard
    for (auto& o : v) if (o.wild()) { v = only_long(v); break; }
    ds[0].opts = v; ds[1].opts = only_long(v); for (auto& o : v) if (c.coin()) ds[2].opts.push_back(o);
    for (auto& o : ds[2].opts) if (o.wild()) { ds[2].opts = v; break; }
    for (auto& d : ds) { d.d.reset(new po::options_description); build_desc(*d.d, d.opts, c.chance(1, 4) ? int(c.below(12)) : 0); }
    if (c.describing()) { c.out() << show(v) << "second part:"; for (auto& o : ds[2].opts) c.out() << " " << pbt::esc(o.names()); c.out() << "\n"; }
    for (auto& o : v) { c.key(o.names()); c.key(uint64_t(o.sem.kind)); }
    VM model; std::unique_ptr<po::variables_map> vm(new po::variables_map);
    size_t ops = 1 + c.size(6, 40), stores = 0, over = 0; unsigned bad = unsigned(c.pick({0, 5, 20}));
    string log; std::set<string> stored_before;
    for (size_t k = 0; k < ops; ++k) {
        string what; int style = gen_style(c);
        unsigned op = c.weighted({45, 25, 12, 10, 3, 5});
        Desc& d = ds[op == 0 ? c.weighted({4, 1, 1}) : op == 1 ? 1 + c.weighted({4, 1}) : c.below(3)];
        auto store = [&](const vector<POpt>& popts, int prefix, bool utf8, const std::function<void()>& real) {
            VM before = model; StoreResult m = model_store(model, popts, d.opts, prefix, utf8, false);
            Caught r = catch_err(real);
            if (c.describing()) c.out() << what << (m.ok ? "" : " -> " + m.err.show()) << "\n";
            log += what + "\n";
            if (m.ok != !r.threw) c.fail("after\n" + log + (m.ok ? "unexpected error " + r.e.show() : "expected " + m.err.show() + ", but the store succeeded"));
            if (!m.ok && !same_class(m.err, r.e)) c.fail("after\n" + log + "expected " + m.err.show() + " but got " + r.e.show());
            if (m.ok) { ++stores; c.label(utf8 ? "store (wide)" : "store"); for (auto& p : popts) if (!p.key.empty() && !p.unreg && before.m.count(p.key)) { ++over; c.label(before.m[p.key].defaulted ? "default replaced" : before.final_.count(p.key) ? "kept final" : "composed"); } }
            else c.label("failed store");
        };
        if (op == 0) {
            ParseCase p; p.opts = d.opts; p.style = style; p.entry = 0; p.allow_unreg = c.chance(1, 3); if (c.chance(1, 3)) { p.has_pos = true; p.pos = gen_pos(c, d.opts, c.chance(2, 3)); }
            p.tokens = c.chance(1, 8) ? gen_tokens(c, d.opts, style, c.size(4, 20)) : gen_line(c, d.opts, style, c.size(4, 20), bad, p.has_pos || c.chance(1, 4));
            what = "command line " + pbt::esc(p.tokens) + " style " + style_show(style);
            c.key(p.tokens);
            ParseResult m = model_parse(p.tokens, p.cfg()); if (!m.ok) { c.label("command line rejected"); continue; }
            bool wide = c.chance(1, 4); vector<wstring> wt; for (auto& s : p.tokens) { wstring w; if (!ref_decode(s, w)) wide = false; wt.push_back(w); }
            for (auto& o : m.opts) for (auto& x : o.value) { wstring w; if (!ref_decode(x, w)) wide = false; }
            po::positional_options_description pd; if (p.has_pos) p.pos.build(pd);
            if (wide) {
                what = "wide " + what; po::wcommand_line_parser q(wt); q.options(*d.d).style(style); if (p.has_pos) q.positional(pd); if (p.allow_unreg) q.allow_unregistered();
                po::wparsed_options r = q.run(); store(m.opts, canonical_prefix(style), true, [&] { po::store(r, *vm); });
            } else {
                po::command_line_parser q(p.tokens); q.options(*d.d).style(style); if (p.has_pos) q.positional(pd); if (p.allow_unreg) q.allow_unregistered();
                po::parsed_options r = q.run();
                if (from_real(r.options) != m.opts) c.fail("after\n" + log + what + ": parsed as" + show(from_real(r.options)) + "\n  instead of" + show(m.opts));
                store(m.opts, canonical_prefix(style), false, [&] { po::store(r, *vm); });
            }
        } else if (op == 1) {
            if (d.opts.empty()) continue;
            string text = c.chance(1, 6) ? gen_config(c, d.opts, true, c.size(4, 20)) : gen_good_config(c, d.opts, c.size(4, 20), bad); bool unreg = c.chance(1, 3);
            what = "configuration file " + pbt::esc(text); c.key(text);
            CfgResult m = model_config(text, d.opts, unreg); if (!m.ok) { c.label("configuration file rejected"); continue; }
            wstring w; 
            if (c.chance(1, 4) && ref_decode(text, w)) { std::wistringstream is(w); what = "wide " + what; auto r = po::parse_config_file(is, *d.d, unreg); store(m.opts, 0, true, [&] { po::store(r, *vm); }); }
            else { std::istringstream is(text); auto r = po::parse_config_file(is, *d.d, unreg); store(m.opts, 0, false, [&] { po::store(r, *vm); }); }
        } else if (op == 2) {
            vector<string> env; size_t n = c.size(4, 20);
            for (size_t i = 0; i < n && !d.opts.empty(); ++i) { const Opt& o = d.opts[c.below(d.opts.size())]; string k = o.longs.empty() ? o.shrt : o.longs[0]; if (k.find('\0') != k.npos) continue; if (k.back() == '*') { k.pop_back(); k += "ab"; } if (c.chance(bad, 200)) k += "q"; string val = gen_value_for(c, o.sem.kind, c.below(100) >= bad); for (auto& ch : val) if (!ch) ch = 'z'; env.push_back(k + "=" + val); }
            what = "environment " + pbt::esc(env); c.key(env);
            auto map = [](string s) { return s; };
            vector<POpt> m = model_env(env, map); po::parsed_options r(nullptr); { Env e(env); r = po::parse_environment(*d.d, map); }
            store(m, 0, false, [&] { po::store(r, *vm); });
        } else if (op == 3) {
            StoreResult m = model_notify_check(model); Caught r = catch_err([&] { po::notify(*vm); }); log += "notify\n"; if (c.describing()) c.out() << "notify\n";
            if (m.ok != !r.threw || (!m.ok && r.e.cls != "required_option")) c.fail("after\n" + log + "notify gave " + (r.threw ? r.e.show() : "nothing"));
            c.label("notify");
        } else if (op == 4) { vm->clear(); model.clear(); log += "clear\n"; c.label("clear"); if (c.describing()) c.out() << "clear\n"; if (!vm->empty()) c.fail("clear() left something"); }
        else { std::unique_ptr<po::variables_map> w(new po::variables_map(*vm)); vm = std::move(w); log += "copy\n"; c.label("copy"); }
        string diff = diff_vm(model, *vm); if (!diff.empty()) c.fail("after\n" + log + "the map differs:\n" + diff);
        // the accessors
        for (auto& o : v) {
            string key = o.longs.empty() ? o.shrt : o.longs[0]; auto i = model.m.find(key); const po::variable_value& x = (*vm)[key];
            if (vm->count(key) != (i != model.m.end()) || x.empty() != (i == model.m.end() || !i->second.v.has)) c.fail("after\n" + log + "count() or operator[] is wrong for " + pbt::esc(key));
            if (!x.empty()) {
                if (any_to_mv(x.value()) != i->second.v || x.defaulted() != i->second.defaulted) c.fail("after\n" + log + "operator[] is wrong for " + pbt::esc(key));
                const string ty = i->second.v.type; 
                if (ty == "int" && std::to_string(x.as<int>()) != i->second.v.e[0]) c.fail("as<int>()"); if (ty == "string" && x.as<string>() != i->second.v.e[0]) c.fail("as<string>()"); if (ty == "vector<string>" && x.as<vector<string>>() != i->second.v.e) c.fail("as<vector<string>>()");
                if (ty != "int") { bool t = false; try { x.as<int>(); } catch (const boost::bad_any_cast&) { t = true; } if (!t) c.fail("as<int>() of a " + ty + " did not throw"); }
            }
        }
        if (!(*vm)["\x01nosuch"].empty() || vm->count("\x01nosuch")) c.fail("a name never stored has a value");
    }
    if (stores >= 2 && over) c.nontrivial();
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P10"; P.run = run; P.quick = 50000; P.thorough = 3000000;
    P.rule = "a universe of options with any value type and flags, three descriptions over it, and a history of stores (command lines in any style, configuration files, environments, narrow and wide, mostly valid), notify, clear and copying; after every step the whole map is compared with a model. Non-trivial: at least two successful stores and an option given again after it had a value";
    P.pinned = {[](Ctx& c) {
        po::options_description d; d.add_options()("lib*", po::value<string>(), ""); vector<string> t(1, "--LIBx=1"); po::variables_map vm;
        po::store(po::command_line_parser(t).options(d).style(po::command_line_style::unix_style | po::command_line_style::case_insensitive).run(), vm);
        if (vm.count("LIBx") != 1 || vm["LIBx"].as<string>() != "1") c.fail("wildcard matched in other case"); }};
    return pbt::engine_main(argc, argv, P);
}
