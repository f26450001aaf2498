// P11: required options and delivery of final values by notify().
#include "common.hpp"
#include <algorithm>
#include <sstream>
#include <unistd.h>
using namespace t; using pbt::Ctx;

namespace {
struct Env {
    vector<vector<char>> text; vector<char*> ptr; char** old;
    Env(const vector<string>& e) : old(environ) { for (auto& s : e) { text.emplace_back(s.begin(), s.end()); text.back().push_back(0); } for (auto& t : text) ptr.push_back(t.data()); ptr.push_back(nullptr); environ = ptr.data(); }
    ~Env() { environ = old; }
};
struct Desc { vector<Opt> opts; std::unique_ptr<po::options_description> d; Sinks sinks; };
struct Boom { string who; };

void run(Ctx& c)
{
    NameCfg n; n.collide = false; n.wild = c.chance(1, 8); n.max_opts = 2 + c.below(6); n.multi = c.chance(1, 4);
    vector<Opt> v = gen_names(c, n); SemCfg sc; sc.wide = c.chance(1, 6); gen_sems(c, v, sc);
    unsigned req = unsigned(c.pick({0, 1, 4}));
    for (auto& o : v) {
        for (auto& l : o.longs) if (l.find('=') != l.npos || l.find('\0') != l.npos) c.discard();
        if (o.sem.kind != KUntyped0 && o.sem.kind != KUntyped1) { o.sem.required = c.below(6) < req && !(o.wild()); o.sem.notifier = c.chance(3, 4); o.sem.store_to = o.sem.kind != KArity && c.chance(3, 4); }
        if (o.sem.kind == KSwitch) o.sem.required = false;
    }
    // one description with everything and one with a part, both with recording notifiers
    vector<Desc> ds(2); ds[0].opts = v; for (auto& o : v) if (c.coin()) ds[1].opts.push_back(o);
    // a name must not be an option of another type in the other description, as with a wildcard alone
    for (auto& o : ds[1].opts) if (o.wild()) { ds[1].opts = v; break; }
    for (auto& d : ds) { d.d.reset(new po::options_description); build_desc(*d.d, d.opts, c.chance(1, 4) ? int(c.below(12)) : 0, &d.sinks); }
    if (c.describing()) { c.out() << show(v) << "second description:"; for (auto& o : ds[1].opts) c.out() << " " << pbt::esc(o.names()); c.out() << "\n"; }
    for (auto& o : v) { c.key(o.names()); c.key(uint64_t(o.sem.kind)); c.key(o.sem.show()); }
    VM model; po::variables_map vm; std::set<string> own; string log; size_t delivered = 0, missing_seen = 0, notifies = 0;
    unsigned bad = unsigned(c.pick({0, 0, 10}));
    auto stored_now = [&] { vector<vector<MV>> r; for (auto& d : ds) { r.emplace_back(); for (auto& s : d.sinks.s) r.back().push_back(s->stored ? s->stored() : MV()); } return r; };
    size_t ops = 1 + c.size(5, 25);
    for (size_t k = 0; k <= ops; ++k) {
        unsigned op = k == ops ? 3 : c.weighted({40, 15, 10, 20, 8, 5});
        Desc& d = ds[c.weighted({4, 1})]; auto before = stored_now();
        string what; int style = gen_style(c); vector<POpt> popts; int prefix = 0; po::parsed_options real(nullptr);
        if (op == 0) {
            ParseCase p; p.opts = d.opts; p.style = style; p.allow_unreg = c.chance(1, 6);
            p.tokens = gen_line(c, d.opts, style, c.size(3, 20), bad, c.chance(1, 5)); c.key(p.tokens); c.key(uint64_t(style));
            ParseResult m = model_parse(p.tokens, p.cfg()); if (!m.ok) { c.label("line rejected"); continue; }
            what = "store command line " + pbt::esc(p.tokens) + " style " + style_show(style);
            po::command_line_parser q(p.tokens); q.options(*d.d).style(style); if (p.allow_unreg) q.allow_unregistered(); real = q.run(); popts = m.opts; prefix = canonical_prefix(style);
        } else if (op == 1) {
            vector<Opt> lo = only_long(d.opts); if (lo.size() != d.opts.size() || lo.empty()) continue;
            string text = gen_good_config(c, d.opts, c.size(3, 20), bad); c.key(text);
            CfgResult m = model_config(text, d.opts, false); if (!m.ok) continue;
            what = "store config " + pbt::esc(text); std::istringstream is(text); real = po::parse_config_file(is, *d.d); popts = m.opts;
        } else if (op == 2) {
            vector<string> env; size_t m = c.size(3, 12);
            for (size_t i = 0; i < m && !d.opts.empty(); ++i) { const Opt& o = d.opts[c.below(d.opts.size())]; string name = o.longs.empty() ? o.shrt : o.longs[0]; if (name.back() == '*') { name.pop_back(); name += "ab"; } string val = gen_value_for(c, o.sem.kind, true); for (auto& ch : val) if (!ch) ch = 'z'; env.push_back(name + "=" + val); }
            c.key(env); auto map = [](string s) { return s; };
            popts = model_env(env, map); { Env e(env); real = po::parse_environment(*d.d, map); } what = "store environment " + pbt::esc(env);
        } else if (op == 4) {
            // the application's own entries: an unknown key, or a missing required one
            string key = "own " + std::to_string(c.below(3));
            if (c.coin() && !model.required.empty()) for (auto& q : model.required) if (!model.m.count(q.first)) { key = q.first; break; }
            if (model.m.count(key)) continue;
            vm.insert(std::make_pair(key, po::variable_value(boost::any(string("mine")), c.coin())));
            VM::V x; x.v = make_mv(KString, {"mine"}); x.defaulted = vm.at(key).defaulted(); x.sem = -1; model.m[key] = x; own.insert(key); log += "insert " + pbt::esc(key) + "\n"; c.label("own value"); c.key(key);
            if (c.describing()) c.out() << "insert " << pbt::esc(key) << "\n";
            continue;
        }
        if (op == 5) {
            vm.clear(); model = VM(); own.clear(); log += "clear\n"; c.label("clear");
            if (c.describing()) c.out() << "clear\n";
            continue;
        }
        if (op < 3) {
            // values the application put in are not given again
            bool clash = false; for (auto& p : popts) clash |= own.count(p.key) > 0; if (clash) continue;
            StoreResult m = model_store(model, popts, d.opts, prefix, false, false); Caught r = catch_err([&] { po::store(real, vm); });
            log += what + (m.ok ? "" : " -> " + m.err.show()) + "\n"; if (c.describing()) c.out() << what << (m.ok ? "" : " -> " + m.err.show()) << "\n";
            if (m.ok != !r.threw || (!m.ok && !same_class(m.err, r.e))) c.fail("after\n" + log + "store: expected " + (m.ok ? "success" : m.err.show()) + ", got " + (r.threw ? r.e.show() : "success"));
            c.label(m.ok ? "store" : "failed store");
        }
        for (auto& dd : ds) for (auto& s : dd.sinks.s) if (op < 3 && !s->notified.empty()) c.fail("after\n" + log + "a notifier ran before notify()");
        if (op < 3) { if (stored_now() != before) c.fail("after\n" + log + "store() wrote to a bound variable"); continue; }

        // ---- notify
        ++notifies; log += "notify\n"; if (c.describing()) c.out() << "notify\n";
        std::set<string> missing; for (auto& q : model.required) { auto i = model.m.find(q.first); if (i == model.m.end() || !i->second.v.has) missing.insert(q.first); }
        // what each sink is due
        std::map<Sink*, vector<MV>> due, bound; vector<Sink*> all; size_t with_notifier = 0;
        for (auto& e : model.m) if (e.second.sem >= 0) for (auto& dd : ds) if (e.second.opts == &dd.opts) {
            Sink* s = dd.sinks.s[e.second.sem].get(); const Sem& q = dd.opts[e.second.sem].sem;
            if (q.notifier && (q.typed() || q.kind == KArity)) { due[s].push_back(e.second.v); ++with_notifier; }
            if (q.store_to && q.typed()) bound[s].push_back(e.second.v);
        }
        for (auto& dd : ds) for (auto& s : dd.sinks.s) { all.push_back(s.get()); s->notified.clear(); s->hook = nullptr; }
        bool boom = missing.empty() && with_notifier && c.chance(1, 8); Sink* thrower = nullptr;
        if (boom) { size_t j = c.below(due.size()), i = 0; for (auto* s : all) if (due.count(s)) { if (i++ == j) thrower = s; } thrower->hook = [] { throw Boom{"notifier"}; }; c.label("throwing notifier"); }
        bool threw_boom = false; Caught r; bool via_member = c.coin();
        try { r = catch_err([&] { if (via_member) vm.notify(); else po::notify(vm); }); } catch (const Boom&) { threw_boom = true; }
        if (thrower) thrower->hook = nullptr;
        auto sorted = [](vector<MV> x) { std::sort(x.begin(), x.end(), [](const MV& a, const MV& b) { return a.show() < b.show(); }); return x; };
        if (!missing.empty()) {
            ++missing_seen; c.label("required missing"); if (missing.size() > 1) c.label("several required missing");
            if (threw_boom || !r.threw || r.e.cls != "required_option") c.fail("after\n" + log + "expected required_option, got " + (r.threw ? r.e.show() : "nothing"));
            bool named = false; for (auto& k2 : missing) { MsgCtx x; x.token = model.required[k2]; named |= r.e.what == render(T_REQUIRED, x); }
            if (!named) c.fail("after\n" + log + "required_option says " + pbt::esc(r.e.what) + " but missing are " + pbt::esc(vector<string>(missing.begin(), missing.end())) + ", best known as " + pbt::esc(model.required[*missing.begin()]));
            for (auto* s : all) if (!s->notified.empty()) c.fail("after\n" + log + "a notifier ran although a required option is missing");
            if (stored_now() != before) c.fail("after\n" + log + "a bound variable was written although a required option is missing");
            continue;
        }
        if (boom) {
            if (!threw_boom) c.fail("after\n" + log + "the notifier's exception did not propagate" + (r.threw ? ": got " + r.e.show() : ""));
            for (auto* s : all) { auto want = due.count(s) ? due[s] : vector<MV>(); for (auto& x : s->notified) { auto i = std::find(want.begin(), want.end(), x); if (i == want.end()) c.fail("after\n" + log + "a notifier got " + x.show()); want.erase(i); } }
            for (auto* s : all) s->notified.clear();
            continue;
        }
        if (threw_boom || r.threw) c.fail("after\n" + log + "notify failed: " + r.e.show());
        size_t at = 0;
        for (size_t di = 0; di < ds.size(); ++di) for (size_t si = 0; si < ds[di].sinks.s.size(); ++si, ++at) {
            Sink* s = all[at]; auto want = sorted(due.count(s) ? due[s] : vector<MV>()), got = sorted(s->notified); delivered += want.size();
            auto name = [&] { return "after\n" + log + pbt::esc(ds[di].opts[si].names()) + (di ? " (second description)" : ""); };
            if (want != got) { string w, g; for (auto& x : want) w += " " + x.show(); for (auto& x : got) g += " " + x.show(); c.fail(name() + ": the notifier got [" + g + " ] instead of [" + w + " ]"); }
            if (!s->stored) continue;
            MV now = s->stored();
            if (!bound.count(s)) { if (now != before[di][si]) c.fail(name() + ": bound variable changed to " + now.show() + " without a value"); }
            else { auto& b = bound[s]; if (std::find(b.begin(), b.end(), now) == b.end()) c.fail(name() + ": bound variable is " + now.show() + " instead of " + b[0].show()); c.label("bound variable written"); }
            // it got something else in the meantime
        }
        for (auto& q : own) { auto i = vm.find(q); if (i == vm.end() || any_to_mv(i->second.value()) != model.m[q].v) c.fail("after\n" + log + "notify changed the application's value " + pbt::esc(q)); }
        string diff = diff_vm(model, vm); if (!diff.empty()) c.fail("after\n" + log + "the map differs:\n" + diff);
        for (auto* s : all) s->notified.clear();
        c.label(with_notifier ? "delivered" : "nothing to deliver");
    }
    if (delivered || missing_seen) c.nontrivial();
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P11"; P.run = run; P.quick = 100000; P.thorough = 4000000;
    P.rule = "options of any type with required flags, recording notifiers and bound variables in two descriptions; a history of stores from command line, configuration file and environment, insertions by the application, clearing and notify calls, some with a throwing notifier. Non-trivial: at least one value delivered or one required option missing at a notify";
    return pbt::engine_main(argc, argv, P);
}
