// P28: what the help text shows is what the parsers accept and the map then holds.
#include "common.hpp"
#include <algorithm>
#include <sstream>
using namespace t; using pbt::Ctx;

namespace {
// an entry of the help text, taken apart
struct Entry { string shrt, lng, var, impl, def; bool param = false, optional = false, has_impl = false, has_def = false; string left; };
Entry take_apart(Ctx& c, const string& left)
{
    Entry e; e.left = left; auto bad = [&] { c.fail("the help entry " + pbt::esc(left) + " is not understood"); };
    if (left.compare(0, 2, "  ") != 0) bad();
    string s = left.substr(2); size_t i = 0;
    auto word = [&](const string& stop) { size_t j = s.find_first_of(stop, i); if (j == s.npos) j = s.size(); string r = s.substr(i, j - i); i = j; return r; };
    if (s.compare(0, 2, "--") == 0) { i = 2; e.lng = word(" "); }
    else if (s[0] == '-' && s.size() >= 2) { e.shrt = s.substr(0, 2); i = 2; if (s.compare(i, 5, " [ --") == 0) { i += 5; e.lng = word(" "); if (s.compare(i, 2, " ]") != 0) bad(); i += 2; } }
    else bad();
    if (e.lng.empty() && e.shrt.empty()) bad();
    if (i == s.size()) return e;
    if (s[i] != ' ') bad();
    ++i; e.param = true;
    if (s.compare(i, 2, "[=") == 0) { i += 2; e.optional = true; e.var = word("(]"); if (s.compare(i, 2, "(=") == 0) { i += 2; e.has_impl = true; e.impl = word(")"); ++i; } if (i >= s.size() || s[i] != ']') bad(); ++i; }
    else e.var = word(" ");
    if (s.compare(i, 3, " (=") == 0) { i += 3; e.has_def = true; e.def = word(")"); ++i; }
    if (i != s.size() || e.var.empty()) bad();
    return e;
}
string argument_for(Ctx& c, Kind k)
{
    switch (k) {
    case KInt: case KVecInt: case KOptInt: case KLongLong: case KUnsigned: return std::to_string(1 + c.below(900));
    case KDouble: return c.pick({string("2.5"), string("0.125"), string("1e10"), string("77")});
    case KChar: return string(1, c.chr("abcxyz"));
    case KBool: case KSwitch: return c.pick({string("yes"), string("no"), string("1"), string("off")});
    case KColor: case KVecColor: return color_names[c.below(3)];
    default: return "v" + c.str("ab./:=09", c.below(8));
    }
}
// the way the harness writes values
string canonical(Kind k, const string& a)
{
    if (k == KBool || k == KSwitch) return a == "yes" || a == "1" ? "true" : "false";
    if (k == KDouble && a == "1e10") return "10000000000";
    return a;
}
struct Result { bool ok = true; Err err; vector<POpt> opts; std::map<string, MV> m; std::set<string> defaulted; };
Result collect(const std::function<po::parsed_options()>& parse)
{
    Result r; po::variables_map vm;
    Caught k = catch_err([&] { po::parsed_options p = parse(); r.opts = from_real(p.options); po::store(p, vm); });
    r.ok = !k.threw; r.err = k.e; for (auto& x : vm) { r.m[x.first] = any_to_mv(x.second.value()); if (x.second.defaulted()) r.defaulted.insert(x.first); } return r;
}
void run(Ctx& c)
{
    NameCfg n; n.collide = c.chance(1, 3); n.max_opts = 1 + c.below(8); vector<Opt> v = gen_names(c, n); SemCfg sc; sc.arity = false; gen_sems(c, v, sc);
    std::set<string> seen;
    for (auto& o : v) {
        vector<string> keep; for (auto& l : o.longs) if (l.find_first_of("*= \t\n[]()@") == l.npos && l.find('\0') == l.npos && l[0] != '-' && seen.insert(l).second) keep.push_back(l); o.longs = keep;
        if (!o.shrt.empty() && (!isalnum((unsigned char)o.shrt[1]) || !seen.insert(o.shrt).second)) o.shrt.clear();
        while (o.longs.size() > 1 && o.shrt.empty() && o.longs.back().size() == 1) o.longs.pop_back();
    }
    v.erase(std::remove_if(v.begin(), v.end(), [](const Opt& o) { return o.longs.empty() && o.shrt.empty(); }), v.end()); if (v.empty()) c.discard();
    for (size_t i = 0; i < v.size(); ++i) {
        Sem& s = v[i].sem; v[i].has_desc = true; v[i].desc = "@" + std::to_string(i) + "."; s.value_name = s.value_name.empty() ? "" : c.str("ABCn-_", 1 + c.size(5, 60));
        if (s.zero && (s.multi || !s.has_impl)) s.zero = false;
        bool textual_only = s.is_vec() || s.kind == KOptInt || s.kind == KStdOptString || s.kind == KColor;
        auto simple = [&](vector<string>& e) { if (s.is_vec() || s.kind == KOptInt || s.kind == KStdOptString) return; if (s.kind == KString) e = {c.str("abxyz019._/-", 1 + c.size(6, 60))}; else if (s.kind == KChar) e = {string(1, c.chr("abz09"))}; };
        if (s.has_def) { simple(s.def); s.def_textual |= textual_only; s.def_text = "d" + c.str("ab09.", c.size(4, 40)); }
        if (s.has_impl) { simple(s.impl); s.impl_textual |= textual_only; s.impl_text = "i" + c.str("ab09.", c.size(4, 40)); }
        c.key(v[i].names()); c.key(s.show());
    }
    int groups = c.chance(1, 3) ? int(c.below(12)) : 0; unsigned len = c.coin() ? 80 : 60 + unsigned(c.size(40, groups ? 60 : 4000)); bool at_print = c.chance(1, 6);
    po::options_description d(c.coin() ? "Allowed options" : "", len, len / 2); build_desc(d, v, groups); c.key(uint64_t(len));
    std::ostringstream os; if (at_print) d.print(os, 3 + unsigned(c.below(std::min(60u, len / 2) - 2))); else os << d; string help = os.str();
    if (c.describing()) c.out() << show(v) << "line length " << len << ", grouping " << groups << "\n" << help << "\n";
    vector<string> lines; { std::istringstream is(help); string l; while (std::getline(is, l)) lines.push_back(l); }
    auto cmd = [&](const vector<string>& t) { if (c.describing()) c.out() << "given " << pbt::esc(t) << "\n"; return collect([&] { return po::command_line_parser(t).options(d).run(); }); };
    bool all_long = true; for (auto& o : v) if (o.longs.empty()) all_long = false;
    Result none = cmd({}); if (!none.ok) c.fail("nothing given: " + none.err.show());
    size_t params = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        const Sem& s = v[i].sem; size_t at = lines.size(), times = 0;
        for (size_t j = 0; j < lines.size(); ++j) if (lines[j].find(v[i].desc) != string::npos) { at = j; ++times; }
        if (times != 1) c.fail("the help text shows " + pbt::esc(v[i].names()) + " " + std::to_string(times) + " times\n" + help);
        string left = lines[at].substr(0, lines[at].find(v[i].desc)); if (left.find_first_not_of(' ') == left.npos) left = at ? lines[at - 1] : "";
        while (!left.empty() && left.back() == ' ') left.pop_back();
        Entry e = take_apart(c, left); string why = "help shows " + pbt::esc(left) + ", but "; params += e.param;
        string key = e.lng.empty() ? e.shrt : e.lng; MV dflt = none.m.count(key) ? none.m[key] : MV();
        // not given
        if (e.has_def) { if (!none.defaulted.count(key)) c.fail(why + "there is no default value"); c.label("default shown"); }
        else if (e.param && none.m.count(key)) c.fail(why + "there is a default value: " + dflt.show());
        vector<string> spelled; if (!e.lng.empty()) spelled.push_back("--" + e.lng); if (!e.shrt.empty()) spelled.push_back(e.shrt);
        string arg = argument_for(c, s.kind); MV want; if (s.typed()) want = make_mv(s.kind, {canonical(s.kind, arg)});
        auto holds = [&](const vector<string>& t) { Result r = cmd(t); if (!r.ok) c.fail(why + pbt::esc(t) + " is rejected: " + r.err.show()); if (!r.m.count(key) || r.defaulted.count(key)) c.fail(why + pbt::esc(t) + " does not give " + pbt::esc(key)); return r; };
        auto rejected = [&](const vector<string>& t, int kind) { Result r = cmd(t); if (r.ok) c.fail(why + pbt::esc(t) + " is accepted"); if (r.err.kind != kind) c.fail(why + pbt::esc(t) + " gives " + r.err.show()); };
        auto value = [&](const vector<string>& t) { Result r = holds(t); if (s.typed() && r.m[key] != want) c.fail(why + "with " + pbt::esc(t) + " the value is " + r.m[key].show() + " instead of " + want.show()); };
        for (auto& sp : spelled) {
            bool lng = sp.size() > 2 || sp[1] == '-'; string adj = lng ? sp + "=" + arg : sp + arg;
            if (!e.param) { // no argument
                holds({sp}); if (lng) rejected({adj}, po::invalid_syntax::extra_parameter);
                Result r = holds({sp, "word"}); if (r.opts.size() != 2 || !r.opts[0].value.empty() || r.opts[1].pos != 0) c.fail(why + "it takes the next word as an argument:" + show(r.opts)); c.label("shown without argument");
            } else if (e.optional) { // may have one
                Result r = holds({sp}); value({adj}); MV alone = r.m[key];
                if (e.has_impl && !s.impl_textual) { Result q = holds({lng ? sp + "=" + e.impl : sp + e.impl}); if (q.m[key] != alone) c.fail(why + pbt::esc(sp) + " gives " + alone.show() + ", and given that text " + q.m[key].show()); c.label("implicit value typed"); }
                if (e.has_impl && s.impl_textual && e.impl != s.impl_text) c.fail(why + "the text of the implicit value is " + pbt::esc(s.impl_text));
                c.label("shown with optional argument");
            } else { // must have one
                rejected({sp}, po::invalid_syntax::missing_parameter); value({sp, arg}); value({adj}); c.label("shown with argument");
            }
            if (e.has_def && !s.def_textual && s.kind != KUntyped0) { string tx = e.def; Result q = holds({lng ? sp + "=" + tx : sp + tx}); if (q.m[key] != dflt) c.fail(why + "the default is " + dflt.show() + ", and given that text the value is " + q.m[key].show()); c.label("default value typed"); }
        }
        if (e.has_def && s.def_textual && e.def != s.def_text) c.fail(why + "the text of the default is " + pbt::esc(s.def_text));
        if (!s.value_name.empty() && e.param && e.var != s.value_name) c.fail(why + "the argument's name is " + pbt::esc(s.value_name));
        if (!e.lng.empty() && all_long) { // the same name in a file
            string text = e.lng + "=" + (e.param ? arg : ""); Result r = collect([&] { std::istringstream is(text); return po::parse_config_file(is, d); });
            if (!r.ok && (e.param || !s.typed() )) c.fail(why + "in a file " + pbt::esc(text) + " is rejected: " + r.err.show());
            if (r.ok && e.param && s.typed() && r.m[key] != want) c.fail(why + "in a file " + pbt::esc(text) + " gives " + r.m[key].show()); c.label("name used in a file");
        }
    }
    if (params && v.size() > 1) c.nontrivial();
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P28"; P.run = run; P.quick = 80000; P.thorough = 3000000;
    P.rule = "options of all types, with names, defaults, implicit values, argument names and groups; the help text is printed, each entry is taken apart and everything it promises is tried: its spellings, with and without an argument, the default when absent, typing the default or implicit value shown, the name in a file. Non-trivial: several options, one with an argument";
    return pbt::engine_main(argc, argv, P);
}
