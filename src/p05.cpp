// P05: positional arguments.
#include "common.hpp"
#include <limits>
using namespace t; using pbt::Ctx;

namespace {
struct Desc {      // what was added, and what it means
    vector<std::pair<string, int>> added; vector<string> names; string trailing;
    uint64_t total() const { return trailing.empty() ? names.size() : std::numeric_limits<unsigned>::max(); }
    const string& at(uint64_t i) const { return i < names.size() ? names[i] : trailing; }
};
Desc gen_desc(Ctx& c, const vector<string>& pool, size_t most)
{
    Desc d; size_t n = c.below(5); bool unl = false;
    for (size_t i = 0; i < n; ++i) {
        string nm = pool[c.below(pool.size())]; int count = int(c.size(3, most));
        if (!unl && c.chance(1, i + 1 == n ? 3 : 10)) { unl = true; count = -1; }
        d.added.push_back({nm, count});
        if (count == -1) d.trailing = nm; else d.names.insert(d.names.end(), count, nm);
    }
    return d;
}
void build(const Desc& d, po::positional_options_description& p) { for (auto& a : d.added) { auto& r = p.add(a.first.c_str(), a.second); if (&r != &p) throw pbt::Fail{"add() does not return the description"}; } }
string show(const Desc& d) { string s = "positional description:"; for (auto& a : d.added) s += " " + pbt::esc(a.first) + "*" + std::to_string(a.second); return s + "\n"; }

struct Item { bool pos = false; vector<string> toks; string key; vector<string> value; };

void api(Ctx& c)
{
    Desc d = gen_desc(c, {"a", "b", "input-file", "x y", "-o", "z*"}, 2000);
    if (c.describing()) c.out() << show(d);
    for (auto& a : d.added) { c.key(a.first); c.key(uint64_t(a.second)); }
    po::positional_options_description p; build(d, p); const po::positional_options_description q = p;
    if (q.max_total_count() != d.total()) c.fail("max_total_count() is " + std::to_string(q.max_total_count()) + " instead of " + std::to_string(d.total()));
    if (d.added.size() >= 2) c.nontrivial();
    auto look = [&](uint64_t i) { if (i < d.total() && q.name_for_position(unsigned(i)) != d.at(i)) c.fail("name_for_position(" + std::to_string(i) + ") is " + pbt::esc(q.name_for_position(unsigned(i))) + " instead of " + pbt::esc(d.at(i))); };
    for (uint64_t i = 0; i < d.names.size() + 3; ++i) look(i);
    look(c.below(1u << 31)); look(std::numeric_limits<unsigned>::max() - 1);
    c.label("description only");
}

void run(Ctx& c)
{
    if (c.chance(1, 6)) { api(c); return; }
    vector<Opt> o; 
    auto add = [&](const char* l, const char* s, Kind k, unsigned n = 0) { Opt x; if (*l) x.longs.push_back(l); x.shrt = s; x.sem.kind = k; x.sem.amin = x.sem.amax = n; if (k == KVecString) x.sem.composing = true; o.push_back(x); };
    add("flag", "-f", KUntyped0); add("value", "-v", KVecString); add("two", "-t", KArity, 2); add("switch", "", KSwitch); add("", "-q", KUntyped0); add("input-file", "-i", KVecString); add("output", "", KVecString);
    vector<string> pool = {"input-file", "output", "value", "undescribed", "two"};
    bool store_too = c.coin(); if (store_too) { pool.pop_back(); pool.pop_back(); }
    bool many = c.chance(1, 600); Desc d = gen_desc(c, pool, many ? 600 : 60); bool has_desc = !c.chance(1, 6);
    int style = int(st::unix_style); if (c.chance(1, 4)) style |= st::allow_slash_for_short; if (c.chance(1, 4)) style |= st::allow_long_disguise; if (c.chance(1, 5)) style &= ~st::allow_guessing; if (c.chance(1, 5)) style |= st::case_insensitive;
    if (c.chance(1, 4)) style = 0;
    bool slash = style & st::allow_slash_for_short;
    vector<string> pos; vector<Item> items;
    size_t np = c.chance(1, 2) && d.trailing.empty() && has_desc ? d.names.size() + c.below(2) : c.size(6, 80);
    if (many) { c.expensive(); np = c.pick({250, 500, 700, 1000, 2040}) + c.below(40); if (has_desc && d.trailing.empty() && c.coin()) np = std::min<size_t>(np, d.names.size() + c.below(2)); c.label(np > 256 ? "more than 256" : "many"); }
    size_t serial = 0;
    auto word = [&](bool any) {
        if (many) return "w" + std::to_string(serial++);
        string s = c.chance(1, 4) ? gen_word(c) : c.str("abcxyz01=.", c.size(4, 60));
        if (any && c.chance(1, 2)) s = c.pick({string("--flag"), string("-f"), string("--"), string("-"), string("--x="), string("--nosuch"), string("-v")}) + (c.chance(1, 4) ? s : string());
        if (!any && s.size() > 1 && (s[0] == '-' || (slash && s[0] == '/'))) s[0] = 'w';
        return s;
    };
    size_t nn = c.size(4, 40);
    auto named = [&] {
        Item it; string v = c.str("abc-=/", 1 + c.size(3, 30)), w = c.str("abc", 1 + c.below(4));
        switch (c.below(9)) {
        case 0: it.key = "flag"; it.toks = {"--flag"}; break;
        case 1: it.key = "flag"; it.toks = {"-f"}; break;
        case 2: it.key = "value"; it.toks = {"--value=" + v}; it.value = {v}; break;
        case 3: it.key = "value"; it.toks = {"--value", w}; it.value = {w}; break;
        case 4: it.key = "two"; it.toks = {"--two", w, "w" + v}; it.value = {w, "w" + v}; break;
        case 5: it.key = "switch"; it.toks = {"--switch"}; break;
        case 6: it.key = "-q"; it.toks = {"-q"}; break;
        case 7: it.key = "two"; it.toks = {"--two=" + v, w}; it.value = {v, w}; break;
        default: it.key = "value"; it.toks = {"-v", w}; it.value = {w}; break;
        }
        return it;
    };
    bool term = c.chance(1, 4); size_t after = term ? c.below(np + 1) : 0;
    for (size_t i = 0; i < np; ++i) { Item it; it.pos = true; it.toks = {word(i >= np - after)}; it.value = it.toks; pos.push_back(it.toks[0]); items.push_back(it); }
    vector<Item> pre(items.begin(), items.end() - after), post(items.end() - after, items.end());
    for (size_t i = 0; i < nn; ++i) pre.insert(pre.begin() + c.below(pre.size() + 1), named());
    // two interleavings
    for (int round = 0; round < (many ? 1 : 2); ++round) {
        if (round) {   // another order of the named ones relative to the others
            vector<Item> p2, n2; for (auto& x : pre) (x.pos ? p2 : n2).push_back(x);
            c.shuffle(n2); for (auto& x : n2) p2.insert(p2.begin() + c.below(p2.size() + 1), x); pre = p2;
        }
        ParseCase p; p.opts = o; p.style = style; p.entry = int(c.below(2));
        vector<POpt> want; uint64_t k = 0; bool too_many = false;
        auto put = [&](const Item& it) {
            POpt e; e.key = it.key; e.value = it.value; e.orig = it.toks;
            if (it.pos) { e.pos = int(k); if (has_desc) { if (k >= d.total()) too_many = true; else e.key = d.at(k); } ++k; }
            want.push_back(e); p.tokens.insert(p.tokens.end(), it.toks.begin(), it.toks.end());
        };
        for (auto& x : pre) put(x);
        if (term) { p.tokens.push_back("--"); for (auto& x : post) put(x); }
        for (auto& s : p.tokens) if (s.find('\0') != s.npos) p.entry = 0;
        p.has_pos = has_desc; for (auto& a : d.added) p.pos.e.push_back({a.first, a.second});
        if (!round) { key_case(c, p); if (k >= 2 && has_desc && nn) c.nontrivial(); c.label(!has_desc ? "no description" : too_many ? "too many" : d.trailing.empty() ? "limited" : "unlimited"); if (term) c.label("terminator"); }
        if (c.describing()) c.out() << show(d) << "style " << style_show(style) << "\ntokens: " << pbt::esc(p.tokens) << "\n";
        po::options_description desc; RealResult r = real_parse(p, desc);
        if (too_many) { if (r.ok || r.err.cls != "too_many_positional_options_error" || r.err.what != T_TOOMANY) c.fail("expected too_many_positional_options_error for " + pbt::esc(p.tokens) + " but got " + (r.ok ? t::show(r.opts) : r.err.show())); return; }
        if (!r.ok) c.fail("the command line " + pbt::esc(p.tokens) + " was rejected: " + r.err.show());
        for (auto& x : r.opts) x.ci = false;
        if (r.opts != want) c.fail("for " + pbt::esc(p.tokens) + " expected" + t::show(want) + "\n  but got" + t::show(r.opts));
        if (!round && c.chance(1, 4)) {
            vector<wstring> wt; bool ok = true; for (auto& s : p.tokens) { wstring w; ok &= ref_decode(s, w); wt.push_back(w); }
            if (ok) {
                po::wcommand_line_parser q(wt); po::positional_options_description pd; q.options(desc).style(style); if (has_desc) { build(d, pd); q.positional(pd); }
                auto w = from_real(q.run().options); for (auto& x : w) x.ci = false;
                if (w != want) c.fail("the wide parser gave" + t::show(w)); c.label("wide");
            }
        }
        if (store_too && has_desc) {
            po::variables_map vm; std::map<string, vector<string>> exp; bool twice = false; std::map<string, int> cnt;
            for (auto& x : want) { cnt[x.key]++; exp[x.key].insert(exp[x.key].end(), x.value.begin(), x.value.end()); }
            for (auto k2 : {"flag", "switch", "-q"}) if (cnt[k2] > 1) twice = true;
            if (twice) continue;
            c.label("stored");
            po::store(r.parsed, vm);
            for (auto n : {"input-file", "output", "value"}) {
                auto& v = vm[n]; vector<string> got; if (!v.empty()) got = v.as<vector<string>>();
                if (v.empty() != !cnt[n] || got != exp[n]) c.fail(string("stored under ") + n + ": " + pbt::esc(got) + " instead of " + pbt::esc(exp[n]));
            }
        }
    }
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P05"; P.run = run; P.quick = 200000; P.thorough = 8000000;
    P.rule = "random positional descriptions and command lines of positional words and complete named options in two interleavings (with '--' or not), written from intentions, parsed (narrow, wide) and stored; one case in six checks the description alone. Non-trivial: a description, at least two positionals and one named option (for the description alone: at least two additions)";
    return pbt::engine_main(argc, argv, P);
}
