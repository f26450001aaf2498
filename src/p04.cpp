// P04: name lookup, keys and described names.
#include "common.hpp"
#include <algorithm>
using namespace t; using pbt::Ctx;

namespace {
string gen_probe(Ctx& c, const vector<Opt>& v, const NameCfg& n)
{
    const Opt& o = v[c.below(v.size())];
    switch (c.weighted({50, 12, 6, 12, 8, 2, 5})) {
    case 0: case 1: case 3: {
        if (o.longs.empty()) return c.chance(1, 3) ? flip_case(c, o.shrt) : o.shrt;
        string s = o.longs[c.below(o.longs.size())];
        if (s.back() == '*' && !c.chance(1, 4)) { s.pop_back(); s += c.str("abAB*", c.below(5)); }
        switch (c.below(5)) {
        case 0: return s;
        case 1: return s.substr(0, 1 + c.below(s.size() ? s.size() : 1));
        case 2: return flip_case(c, s);
        case 3: return s + c.str("abA-*", 1 + c.below(3));
        default: return flip_case(c, s.substr(0, 1 + c.below(s.size() ? s.size() : 1)));
        }
    }
    case 2: return gen_long_name(c, n);
    case 4: { string s = o.shrt.empty() ? gen_short(c, n) : o.shrt; switch (c.below(4)) { case 0: return s; case 1: return flip_case(c, s); case 2: return s.substr(1); default: return s + c.str("ab", 1); } }
    case 5: return c.pick({string(""), string("-"), string("*"), string("--")});
    default: return c.coin() ? gen_word(c) : c.pick(pbt::g_dict);
    }
}
const char* rn(Found::R r) { return r == Found::none ? "unknown" : r == Found::one ? "found" : "ambiguous"; }

void run(Ctx& c)
{
    NameCfg n; n.wild = c.chance(1, 3); n.weird = c.chance(1, 4); n.max_opts = 1 + c.below(9);
    vector<Opt> v = gen_names(c, n);
    for (auto& o : v) { o.sem = gen_sem(c, SemCfg()); o.desc = c.chance(1, 3) ? gen_word(c) : "d"; o.has_desc = true; for (auto& ch : o.desc) if (!ch) ch = 'x'; }
    if (c.chance(1, 25)) add_bulk(c, v);
    for (auto& o : v) for (auto& l : o.longs) if (l.find('\0') != l.npos) c.discard();
    int groups = c.chance(1, 2) ? int(c.below(30)) : 0;
    po::options_description d(c.coin() ? "caption" : "");
    if (!groups && v.size() <= 20 && c.chance(1, 3)) {
        // added one by one, with lookups between: what was looked up before does not matter later
        c.label("lookups while describing"); string again; bool ap = false, l = false, s = false; vector<Opt> so_far;
        for (auto& o : v) {
            add_options(d, vector<Opt>(1, o)); so_far.push_back(o);
            for (size_t q = 1 + c.below(2); q-- > 0; ) {
                if (again.empty() || c.chance(1, 3)) { again = gen_probe(c, v, n); ap = c.coin(); l = c.chance(1, 3); s = c.chance(1, 3); if (c.chance(1, 2)) ap = l = s = false; }
                Found f = lookup(so_far, again, ap, l, s); const po::option_description* r = nullptr; c.key(again);
                Caught k = catch_err([&] { r = d.find_nothrow(again, ap, l, s); });
                if (k.threw ? f.r != Found::ambiguous : f.r == Found::ambiguous || (r ? f.r != Found::one || r != d.options()[f.idx].get() : f.r != Found::none))
                    c.fail("after " + std::to_string(so_far.size()) + " of the options of\n" + show(v) + "were added, looking up " + pbt::esc(again) + (ap ? ", abbreviations allowed" : "") + (l ? ", long names in any case" : "") + (s ? ", short names in any case" : "") + ": expected " + rn(f.r) + ", got " + (k.threw ? k.e.show() : r ? pbt::esc(r->format_name()) : "nothing"));
            }
        }
    }
    else build_desc(d, v, groups);
    if (c.describing()) c.out() << show(v) << "groups " << groups << "\n";
    for (auto& o : v) c.key(o.names());
    // what was described
    auto& all = d.options();
    if (all.size() != v.size()) c.fail("options() has " + std::to_string(all.size()) + " entries");
    for (size_t i = 0; i < v.size(); ++i) {
        const Opt& o = v[i]; const po::option_description& r = *all[i]; string who = "option " + pbt::esc(o.names()) + ": ";
        auto ln = r.long_names(); vector<string> got(ln.first, ln.first + ln.second);
        if (got != o.longs) c.fail(who + "long_names() is " + pbt::esc(got));
        if (r.long_name() != (o.longs.empty() ? "" : o.longs[0])) c.fail(who + "long_name() is " + pbt::esc(r.long_name()));
        if (r.description() != o.desc) c.fail(who + "description() is " + pbt::esc(r.description()));
        string f = o.shrt.empty() ? "--" + o.longs[0] : o.longs.empty() ? o.shrt : o.shrt + " [ --" + o.longs[0] + " ]";
        if (r.format_name() != f) c.fail(who + "format_name() is " + pbt::esc(r.format_name()));
        if (!r.semantic() || r.semantic()->min_tokens() != o.sem.min_tokens() || r.semantic()->max_tokens() != o.sem.max_tokens() || r.semantic()->is_composing() != o.sem.composing || r.semantic()->is_required() != o.sem.required)
            c.fail(who + "its semantic is not the one given");
        for (int p : {0, int(st::allow_long), int(st::allow_long_disguise), int(st::allow_dash_for_short), int(st::allow_slash_for_short)})
            if (r.canonical_display_name(p) != display_name(o, p)) c.fail(who + "canonical_display_name(" + std::to_string(p) + ") is " + pbt::esc(r.canonical_display_name(p)) + " instead of " + pbt::esc(display_name(o, p)));
    }
    size_t probes = 1 + c.below(6); bool hard = false;
    for (size_t q = 0; q < probes; ++q) {
        string name = gen_probe(c, v, n);
        bool approx = c.coin(), lci = c.chance(1, 3), sci = c.chance(1, 3);
        c.key(name); c.key(approx + 2 * lci + 4 * sci);
        Found f = lookup(v, name, approx, lci, sci);
        string what = "looking up " + pbt::esc(name) + (approx ? ", abbreviations allowed" : "") + (lci ? ", long names in any case" : "") + (sci ? ", short names in any case" : "") + ": ";
        if (c.describing()) c.out() << what << rn(f.r) << (f.r == Found::one ? " " + pbt::esc(v[f.idx].names()) : pbt::esc(f.alts)) << "\n";
        c.label(rn(f.r));
        bool exact = f.r == Found::one && (v[f.idx].shrt == name || std::find(v[f.idx].longs.begin(), v[f.idx].longs.end(), name) != v[f.idx].longs.end());
        if (f.r == Found::ambiguous || (f.r == Found::one && (!exact || v.size() > 2))) hard = true;
        for (int nothrow = 0; nothrow < 2; ++nothrow) {
            const po::option_description* r = nullptr;
            Caught k = catch_err([&] { r = nothrow ? d.find_nothrow(name, approx, lci, sci) : &d.find(name, approx, lci, sci); });
            if (f.r == Found::ambiguous) {
                if (!k.threw || k.e.cls != "ambiguous_option") c.fail(what + "expected ambiguity of " + pbt::esc(f.alts));
                auto a = f.alts, b = k.e.alts; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
                if (a != b) c.fail(what + "expected the alternatives " + pbt::esc(a) + " but got " + pbt::esc(b));
            } else if (k.threw) {
                if (f.r == Found::one || nothrow || k.e.cls != "unknown_option") c.fail(what + "got " + k.e.show());
            } else {
                if (f.r == Found::none ? r != nullptr : r != all[f.idx].get()) c.fail(what + "expected " + (f.r == Found::none ? "nothing" : pbt::esc(v[f.idx].names())) + " but got " + (r ? pbt::esc(r->format_name()) : "nothing"));
                if (f.r == Found::none && !nothrow) c.fail(what + "find() did not report the unknown name");
            }
        }
        if (f.r == Found::one && all[f.idx]->key(name) != key_of(v[f.idx], name)) c.fail(what + "the key is " + pbt::esc(all[f.idx]->key(name)));
        // each option on its own
        size_t i = c.below(v.size()); vector<Opt> single(1, v[i]);
        Found s = lookup(single, name, approx, lci, sci);
        auto m = all[i]->match(name, approx, lci, sci);
        bool full = lookup(single, name, false, lci, sci).r == Found::one && [&] { Opt o = v[i]; string a = lci ? lower(name) : name; for (auto& l : o.longs) if ((lci ? lower(l) : l) == a) return true; return !o.shrt.empty() && (sci ? lower(o.shrt) : o.shrt) == (sci ? lower(name) : name); }();
        auto want = s.r == Found::none ? po::option_description::no_match : full ? po::option_description::full_match : po::option_description::approximate_match;
        if (m != want) c.fail(what + "match() of " + pbt::esc(v[i].names()) + " is " + std::to_string(m) + " instead of " + std::to_string(want));
        // the defaults of the two trailing arguments are case-sensitive
        if (!lci && !sci) { const po::option_description* r = nullptr; Caught k = catch_err([&] { r = d.find_nothrow(name, approx); }); if (!k.threw && (r != nullptr) != (f.r == Found::one)) c.fail(what + "find_nothrow with default arguments disagrees"); }
        // a command line sees the same name
        if (f.r == Found::one && !name.empty() && name[0] != '-' && name.find('=') == name.npos && v[f.idx].sem.min_tokens() == 0 && name.find('\0') == name.npos) {
            int style = st::allow_long | st::long_allow_adjacent | (approx ? st::allow_guessing : 0) | (lci ? st::long_case_insensitive : 0);
            Found g = lookup(v, name, approx, lci, false);
            if (g.r == Found::one) {
                vector<string> t(1, "--" + name); po::parsed_options p(nullptr);
                Caught k = catch_err([&] { p = po::command_line_parser(t).options(d).style(style).run(); });
                // arity is looked up once more by the resulting key, which may itself be ambiguous
                if (k.threw) { string key = key_of(v[g.idx], name); if (lookup(v, key, approx, lci, false).r == Found::one) c.fail(what + "the command line " + pbt::esc(t[0]) + " gave " + k.e.show()); }
                else if (p.options.size() != 1 || p.options[0].string_key != key_of(v[g.idx], name)) c.fail(what + "the command line " + pbt::esc(t[0]) + " gave" + show(from_real(p.options)));
                c.label("through the command line");
            }
        }
    }
    if (hard) c.nontrivial();
    // groups are taken over by value
    if (groups && c.coin()) {
        po::options_description g("g"), parent; add_options(g, vector<Opt>(1, v[0])); parent.add(g); size_t before = parent.options().size();
        g.add_options()("added-later", "x");
        if (parent.options().size() != before || before != 1) c.fail("a description changed after its group was modified");
        const po::option_description* r = nullptr; Caught k = catch_err([&] { r = parent.find_nothrow("added-later", false); });
        if (r && lookup(vector<Opt>(1, v[0]), "added-later", false, false, false).r == Found::none) c.fail("an option added to a group later was found in the parent");
    }
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P04"; P.run = run; P.quick = 400000; P.thorough = 12000000;
    P.rule = "option sets with colliding, abbreviating, case-differing, multiple and wildcard names in random groupings; names derived from them are looked up with random approximation and case settings through find, find_nothrow, match and a command line, against a reference lookup. Non-trivial: a lookup which is ambiguous, or inexact, or succeeds among at least three options";
    P.pinned = {[](Ctx& c) { po::options_description d; d.add_options()("foo,f", "x"); if (d.find_nothrow("", true) || d.find_nothrow("", false)) c.fail("an empty name was found"); },
                [](Ctx& c) { po::options_description d; d.add_options()(",F", "x"); if (!d.find_nothrow("-f", false, false, true) || d.find_nothrow("-f", false, true, false)) c.fail("case of short names"); }};
    return pbt::engine_main(argc, argv, P);
}
