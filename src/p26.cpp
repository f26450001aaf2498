// P26: options which have nothing to do with one another do not affect one another.  Metamorphic: no model is used.
#include "common.hpp"
#include <algorithm>
#include <sstream>
#include <unistd.h>
using namespace t; using pbt::Ctx;

namespace {
struct Env {
    vector<vector<char>> text; vector<char*> ptr; char** old;
    Env(const vector<string>& e) : old(environ) { for (auto& s : e) { text.emplace_back(s.begin(), s.end()); text.back().push_back(0); } for (auto& t : text) ptr.push_back(t.data()); ptr.push_back(nullptr); environ = ptr.data(); }
    ~Env() { environ = old; }
};
// A program and what it is given.
struct In {
    vector<Opt> opts; vector<int> base;                 // base[i]: index among the options of interest, or -1
    int groups = 0;
    vector<vector<string>> lines; vector<string> texts, env;
};
struct Setup { int style = 0; bool unreg = false, has_pos = false, wide = false, prefix = true; po::positional_options_description pd; unsigned width = 0; char mark = 0; };
typedef vector<std::pair<string, string>> Obs;

string show_err(Err e) { std::sort(e.alts.begin(), e.alts.end()); return "error " + e.show(); }
bool foreign(const string& key, char mark) { return (!key.empty() && key[0] == mark) || (key.size() == 2 && key[0] == '-' && key[1] == mark); }
template<class C> string show_opts(const vector<po::basic_option<C>>& v, char mark)
{ string s; for (auto& o : from_real(v)) if (!foreign(o.key, mark)) s += o.show() + "\n"; return s; }
struct Results { Obs obs; bool ok = true; vector<vector<po::option>> line_opts; };

Results observe(const Setup& s, const In& in)
{
    Results r; po::options_description d("All"); Sinks sinks; build_desc(d, in.opts, in.groups, &sinks);
    vector<po::parsed_options> parsed; vector<std::unique_ptr<po::wparsed_options>> wide; string all;
    auto guarded = [&](const string& label, const std::function<string()>& f) { string t; Caught k = catch_err([&] { t = f(); }); if (k.threw) { t = show_err(k.e); r.ok = false; } return t; };
    vector<std::function<void(po::variables_map&)>> stores;
    for (auto& l : in.lines) all += guarded("line", [&] {
        if (s.wide) { vector<wstring> w; for (auto& x : l) { wstring y; ref_decode(x, y); w.push_back(y); } po::wcommand_line_parser q(w); q.options(d).style(s.style); if (s.has_pos) q.positional(s.pd); if (s.unreg) q.allow_unregistered(); auto p = std::make_shared<po::wparsed_options>(q.run()); stores.push_back([p](po::variables_map& vm) { po::store(*p, vm); }); return show_opts(p->options, s.mark); }
        po::command_line_parser q(l); q.options(d).style(s.style); if (s.has_pos) q.positional(s.pd); if (s.unreg) q.allow_unregistered(); auto p = std::make_shared<po::parsed_options>(q.run()); r.line_opts.push_back(p->options); stores.push_back([p](po::variables_map& vm) { po::store(*p, vm); }); return show_opts(p->options, s.mark); });
    r.obs.push_back({"the command line", all}); all.clear();
    for (auto& t : in.texts) all += guarded("file", [&] {
        if (s.wide) { wstring w; ref_decode(t, w); std::wistringstream is(w); auto p = std::make_shared<po::wparsed_options>(po::parse_config_file(is, d, s.unreg)); stores.push_back([p](po::variables_map& vm) { po::store(*p, vm); }); return show_opts(p->options, s.mark); }
        std::istringstream is(t); auto p = std::make_shared<po::parsed_options>(po::parse_config_file(is, d, s.unreg)); stores.push_back([p](po::variables_map& vm) { po::store(*p, vm); }); return show_opts(p->options, s.mark); });
    r.obs.push_back({"the configuration file", all}); all.clear();
    { Env e(in.env); all = guarded("environment", [&] { auto p = std::make_shared<po::parsed_options>(s.prefix ? po::parse_environment(d, "APP_") : po::parse_environment(d, [](const string& x) { return x.compare(0, 4, "app-") == 0 ? x.substr(4) : string(); })); stores.push_back([p](po::variables_map& vm) { po::store(*p, vm); }); return show_opts(p->options, s.mark); }); }
    r.obs.push_back({"the environment", all}); all.clear();
    po::variables_map vm;
    for (auto& f : stores) { string t = guarded("store", [&] { f(vm); return string(); }); if (!t.empty()) { all += t; break; } }
    r.obs.push_back({"storing", all}); all.clear();
    r.obs.push_back({"notify", guarded("notify", [&] { po::notify(vm); return string("done"); })});
    for (auto& kv : vm) if (!foreign(kv.first, s.mark)) all += pbt::esc(kv.first) + " = " + any_to_mv(kv.second.value()).show() + (kv.second.defaulted() ? " (default)" : "") + "\n";
    r.obs.push_back({"the map", all}); all.clear();
    std::map<int, string> per; for (size_t i = 0; i < in.opts.size(); ++i) if (in.base[i] >= 0) { string t; for (auto& m : sinks.s[i]->notified) t += m.show() + " "; if (sinks.s[i]->stored) t += "bound " + sinks.s[i]->stored().show(); per[in.base[i]] = t; }
    for (auto& p : per) all += std::to_string(p.first) + ": " + p.second + "\n"; r.obs.push_back({"deliveries", all});
    return r;
}
size_t count_lines(const string& s) { return size_t(std::count(s.begin(), s.end(), '\n')); }

void run(Ctx& c)
{
    NameCfg n; n.collide = c.coin(); n.wild = c.chance(1, 4); n.weird = c.chance(1, 8); n.max_opts = 1 + c.below(8); vector<Opt> v = gen_names(c, n); SemCfg sc; sc.wide = c.chance(1, 5); gen_sems(c, v, sc);
    for (auto& o : v) { for (auto& l : o.longs) for (auto& ch : l) if (!ch) ch = 'z'; o.desc = c.coin() ? gen_word(c) : "words words words"; for (auto& ch : o.desc) if (!ch || ch == '\t') ch = 'z'; if (o.sem.typed() && o.sem.kind != KSwitch && c.chance(1, 10)) o.sem.required = true; }
    Setup s; s.style = gen_style(c); s.unreg = c.chance(1, 3); s.has_pos = c.chance(1, 2); s.wide = c.chance(1, 5); s.prefix = c.coin(); PosDesc pd; if (s.has_pos) { pd = gen_pos(c, v, c.chance(3, 4)); pd.build(s.pd); }
    In b; b.opts = v; for (size_t i = 0; i < v.size(); ++i) b.base.push_back(int(i));
    b.lines.push_back(c.chance(1, 3) ? gen_tokens(c, v, s.style, c.size(6, 40)) : gen_line(c, v, s.style, c.size(6, 40), c.chance(1, 3) ? 15 : 0, s.has_pos || s.unreg));
    vector<Opt> lv = only_long(v); b.texts.push_back(c.chance(1, 4) ? gen_config(c, v, true, c.size(5, 40)) : lv.empty() ? string() : gen_good_config(c, lv, c.size(5, 40), c.chance(1, 4) ? 15 : 0));
    { size_t m = c.below(4); for (size_t i = 0; i < m; ++i) { const Opt& o = v[c.below(v.size())]; string val = o.sem.typed() && c.chance(3, 4) ? gen_value_for(c, o.sem.kind, true) : gen_word(c); for (auto& ch : val) if (!ch) ch = 'z'; string nm = o.longs.empty() ? string("none") : o.longs[0]; if (c.chance(1, 3)) for (auto& ch : nm) ch = char(toupper((unsigned char)ch)); b.env.push_back((s.prefix ? "APP_" : "app-") + nm + "=" + val); } }
    if (s.wide) { for (auto& t : b.lines[0]) { wstring w; if (!ref_decode(t, w)) c.discard(); } wstring w; if (!ref_decode(b.texts[0], w)) c.discard(); }
    // a letter nothing of this begins with (nor contains): the unrelated options begin with it
    string used = b.texts[0]; for (auto& t : b.lines[0]) used += t; for (auto& t : b.env) used += t; for (auto& o : v) { for (auto& l : o.longs) used += l; used += o.shrt; } for (auto& e : pd.e) used += e.name;
    for (char ch : string("qkwmjtyhuQ")) { if (used.find(ch) == used.npos && used.find(char(ch ^ 0x20)) == used.npos) { s.mark = ch; break; } } if (!s.mark) c.discard();
    c.key(used); c.key(uint64_t(s.style)); c.key(uint64_t(s.unreg * 2 + s.wide)); for (auto& o : v) { c.key(o.names()); c.key(uint64_t(o.sem.kind)); }
    if (c.describing()) { c.out() << show(v) << "style " << style_show(s.style) << (s.unreg ? ", unregistered allowed" : "") << (s.wide ? ", wide" : "") << "\ntokens " << pbt::esc(b.lines[0]) << "\nfile " << pbt::esc(b.texts[0]) << "\nenvironment " << pbt::esc(b.env) << "\nunrelated names begin with " << s.mark << "\n"; if (s.has_pos) for (auto& e : pd.e) c.out() << "  positional " << pbt::esc(e.name) << " " << e.count << "\n"; }
    Results r0 = observe(s, b); size_t seen = 0; for (size_t i = 0; i < 3; ++i) if (r0.obs[i].second.compare(0, 5, "error") != 0) seen += count_lines(r0.obs[i].second);

    bool star = false; for (auto& o : v) for (auto& l : o.longs) if (l[0] == '*') star = true;
    bool unique = true; { std::set<string> names; for (auto& o : v) { std::set<string> mine(o.longs.begin(), o.longs.end()); if (!o.shrt.empty()) mine.insert(o.shrt); for (auto& x : mine) if (!names.insert(x).second) unique = false; if (o.wild()) unique = false; } }
    int S = s.style ? s.style : int(st::default_style); bool used_in = false, reordered = false;
    unsigned variants = 1 + unsigned(c.below(3));
    for (unsigned var = 0; var < variants; ++var) {
        In x = b; string what; unsigned what_bits = 1 + unsigned(c.below(15));
        // split one source into two, stored one after the other
        if ((what_bits & 8) && r0.ok && !s.wide && c.coin()) {
            const vector<string>& l = b.lines[0]; vector<size_t> at; size_t pos = 0; std::set<string> before, after; const auto& os = r0.line_opts[0]; bool clean = true; for (auto& o : os) if (o.original_tokens.empty()) clean = false;
            if (clean) { size_t best = 0, cut = 0, k = os.size() ? c.below(os.size() + 1) : 0; for (size_t i = 0; i < k; ++i) { pos += os[i].original_tokens.size(); before.insert(os[i].string_key); } cut = pos; (void)best; bool ok = true; size_t q = 0; for (auto& o : os) for (auto& t : o.original_tokens) if (q >= l.size() || l[q++] != t) ok = false;
                if (q != l.size()) ok = false;
                for (size_t i = k; i < os.size(); ++i) { if (before.count(os[i].string_key) || os[i].position_key != -1) ok = false; }
                if (ok) { x.lines = {vector<string>(l.begin(), l.begin() + long(cut)), vector<string>(l.begin() + long(cut), l.end())}; what += "the command line given in two parts, " + std::to_string(cut) + " tokens first; "; c.label("command line in two parts"); } }
        }
        // describe unrelated options
        vector<string> flags, strings, shorts;
        if (what_bits & 1) {
            size_t k = 1 + (c.chance(1, 60) ? 300 + c.below(2000) : c.size(6, 300)); bool sh = used.find(s.mark) == used.npos; vector<std::pair<Opt, int>> mix; for (size_t i = 0; i < x.opts.size(); ++i) mix.push_back({x.opts[i], x.base[i]});
            for (size_t i = 0; i < k; ++i) { Opt o; string nm = string(1, s.mark) + "u" + std::to_string(i) + "-" + c.str("abc-.", c.below(4)) + "e"; o.longs.push_back(nm); if (sh && c.chance(1, 4)) { o.shrt = string("-") + s.mark; sh = false; }
                if (!star && c.chance(1, 10)) { o.longs[0] = string(1, s.mark) + "u" + std::to_string(i) + "-w*"; o.sem.kind = c.coin() ? KUntyped0 : KVecString; o.desc = "an unrelated wildcard"; mix.insert(mix.begin() + long(c.below(mix.size() + 1)), {o, -1}); c.label("an unrelated wildcard"); continue; }
                switch (c.weighted({3, 4, 1, 1})) { case 0: o.sem.kind = KUntyped0; flags.push_back(nm); if (!o.shrt.empty()) shorts.push_back(o.shrt); break; case 1: o.sem.kind = KString; if (c.chance(1, 4)) { o.sem.has_def = true; o.sem.def = {"d"}; } strings.push_back(nm); break; case 2: o.sem.kind = KVecInt; o.sem.multi = true; o.sem.notifier = true; break; default: o.sem.kind = KSwitch; o.sem.store_to = true; flags.push_back(nm); break; }
                o.desc = "an unrelated one"; mix.insert(mix.begin() + long(c.below(mix.size() + 1)), {o, -1}); }
            x.opts.clear(); x.base.clear(); for (auto& m : mix) { x.opts.push_back(m.first); x.base.push_back(m.second); }
            what += std::to_string(k) + " unrelated options; "; c.label(k > 300 ? "hundreds of unrelated options" : "unrelated options described");
        }
        // describe in another order and in other groups
        if (what_bits & 2) {
            x.groups = int(c.below(12)); what += "grouping " + std::to_string(x.groups) + "; ";
            if (unique) { vector<size_t> p(x.opts.size()); for (size_t i = 0; i < p.size(); ++i) p[i] = i; c.shuffle(p); In y = x; for (size_t i = 0; i < p.size(); ++i) { y.opts[i] = x.opts[p[i]]; y.base[i] = x.base[p[i]]; } x = y; what += "another order; "; reordered = true; c.label("described in another order"); }
        }
        // give unrelated options
        if (what_bits & 4) {
            std::set<string> given; auto scalar = [&](const string& nm) { return given.insert(nm).second; };
            auto token = [&]() -> string {
                bool lng = S & st::allow_long, adj = S & st::long_allow_adjacent, dis = S & st::allow_long_disguise; string head = lng ? "--" : dis ? "-" : "";
                if (head.empty()) { if (!shorts.empty() && (S & st::allow_short) && scalar("short")) return (S & st::allow_dash_for_short) ? shorts[0] : "/" + shorts[0].substr(1); return ""; }
                if (s.unreg && lng && !star && c.chance(1, 4)) return head + string(1, s.mark) + "nobody" + (adj && c.coin() ? "=" + gen_value_for(c, KInt, true) : "");
                if (!strings.empty() && adj && c.coin()) { const string& nm = c.pick(strings); if (scalar(nm)) return head + nm + "=" + c.str("ab=-", 1 + c.below(5)); }
                if (!flags.empty()) { const string& nm = c.pick(flags); if (scalar(nm)) return head + nm; }
                return ""; };
            // before, or between complete options
            vector<size_t> places(1, 0); vector<string>& l = x.lines[0];
            if (r0.line_opts.size() && x.lines.size() == 1) { size_t pos = 0; const auto& os = r0.line_opts[0]; bool good = true; for (size_t i = 0; i < os.size() && good; ++i) { for (auto& t : os[i].original_tokens) { if (pos >= l.size() || l[pos] != t) { good = false; break; } ++pos; } if (good && !os[i].original_tokens.empty() && (i + 1 == os.size() ? pos == l.size() : !os[i + 1].original_tokens.empty()) && (pos >= l.size() || l[pos] != "--")) places.push_back(pos); } }
            // nothing may follow the terminator
            size_t k = c.size(3, 60), ins = 0; std::map<size_t, vector<string>> add; size_t term = l.size() + 1; for (size_t i = 0; i < l.size(); ++i) if (l[i] == "--") { term = i; break; }
            for (size_t i = 0; i < k; ++i) { string t = token(); if (t.empty()) break; size_t p = c.pick(places); if (p > term) p = 0; add[p].push_back(t); ++ins; }
            vector<string> l2; for (size_t i = 0; i <= l.size(); ++i) { for (auto& t : add[i]) l2.push_back(t); if (i < l.size()) l2.push_back(l[i]); } l = l2; if (ins) { used_in = true; c.label("unrelated options on the command line"); }
            // lines of the file: unrelated assignments before the first section, comments and empty lines anywhere
            vector<string> tl; { string cur; for (char ch : x.texts[0]) { cur += ch; if (ch == '\n') { tl.push_back(cur); cur.clear(); } } if (!cur.empty()) tl.push_back(cur); }
            size_t first = 0; while (first < tl.size() && tl[first].find('[') == string::npos) ++first; given.clear(); size_t lines = c.size(3, 40);
            for (size_t i = 0; i < lines; ++i) { size_t p = c.below(tl.size() + 1); string ln; if (!strings.empty() && p <= first && c.chance(3, 4)) { const string& nm = c.pick(strings); if (scalar(nm)) ln = gen_ws(c) + nm + gen_ws(c) + "=" + c.str("ab [].", c.below(6)) + "\n"; } else if (c.coin()) ln = gen_ws(c) + "#" + c.str("ab=[]#", c.below(8)) + "\n"; else ln = gen_ws(c) + "\n";
                if (ln.empty()) continue; if (p > 0 && tl[p - 1].back() != '\n') continue; tl.insert(tl.begin() + long(p), ln); if (p <= first) ++first; used_in = true; }
            x.texts[0] = join(tl, ""); if (lines) c.label("unrelated lines in the file");
            given.clear(); size_t vars = c.size(3, 40); for (size_t i = 0; i < vars; ++i) { string e; if (!strings.empty() && c.coin()) { const string& nm = c.pick(strings); if (!scalar(nm)) continue; e = (s.prefix ? "APP_" : "app-") + nm + "=" + c.str("ab=", c.below(6)); } else e = c.pick({"HOME=/x", "APP=1", "APPX_a=2", "PATH=a:b", "ap=1", "x", ""}) + string(c.coin() ? "" : "y"); x.env.insert(x.env.begin() + long(c.below(x.env.size() + 1)), e); }
            what += "unrelated input; ";
        }
        if (c.describing()) { c.out() << "with " << what << "\n"; for (auto& l : x.lines) c.out() << "  tokens " << pbt::esc(l) << "\n"; c.out() << "  file " << pbt::esc(x.texts[0]) << "\n  environment " << pbt::esc(x.env) << "\n"; if (x.opts.size() < 60) for (size_t i = 0; i < x.opts.size(); ++i) c.out() << "  " << (x.base[i] < 0 ? string("unrelated " + x.opts[i].show()) : "option " + std::to_string(x.base[i])) << "\n"; }
        Results r1 = observe(s, x);
        for (size_t i = 0; i < r0.obs.size(); ++i) if (r0.obs[i].second != r1.obs[i].second) c.fail(what + "\n" + r0.obs[i].first + " gave\n" + r0.obs[i].second + "\nand then\n" + r1.obs[i].second);
        // each option's entry in the help, at a fixed column
        if (c.chance(1, 3)) {
            unsigned w = 24 + unsigned(c.below(16)); po::options_description d("All"); build_desc(d, x.opts, x.groups); std::ostringstream os; d.print(os, w); string whole = "\n" + os.str();
            for (auto& o : v) { po::options_description d1; add_options(d1, vector<Opt>(1, o)); std::ostringstream o1; d1.print(o1, w); if (whole.find("\n" + o1.str()) == whole.npos) c.fail(what + "\nthe help entry\n" + o1.str() + "\nis not in\n" + os.str()); } c.label("help entries");
        }
    }
    if (r0.ok) c.label("everything accepted"); else c.label("something rejected");
    if (seen >= 2 && (used_in || reordered)) c.nontrivial();
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P26"; P.run = run; P.quick = 60000; P.thorough = 3000000;
    P.rule = "a program (options with colliding names, wildcards, any semantics) with a command line, a configuration file and an environment, right or wrong; then the same with unrelated options described (up to 2300), the description reordered or regrouped, unrelated options given before and between, comments and blank lines, or a source in two parts; options, errors, stored values, deliveries and help entries must be the same. Non-trivial: at least two options parsed, and unrelated input or another order";
    return pbt::engine_main(argc, argv, P);
}
