// P20: user-supplied extra parsers and extra style parsers.
#include "common.hpp"
using namespace t; using pbt::Ctx;

namespace {
struct Lang {               // what the extra parsers understand; a plain table-driven language
    bool has_extra = false, has_style = false;
    char mark = '+';        // extra: mark name [: value]
    std::map<string, std::pair<string, string>> table;   // whole tokens with a fixed meaning
    bool declines = false;  // says no to everything
    vector<string> names;   // what style options may be called
    char smark = '!';       // style: !k name -> the next k tokens belong to it
    int smode = 0;          // 0 named option with values, 1 positional, 2 swallow, 3 several options, 4 unregistered-looking
    string show() const { string s; if (has_extra) { s += string("extra_parser: ") + (declines ? "declines everything" : string(1, mark) + "name[:value]"); for (auto& e : table) s += ", " + pbt::esc(e.first) + " -> (" + pbt::esc(e.second.first) + "," + pbt::esc(e.second.second) + ")"; s += "\n"; } if (has_style) s += string("extra_style_parser: ") + (declines ? "declines everything" : string(1, smark) + "k[name] takes k more tokens, mode " + std::to_string(smode)) + "\n"; return s; }
    std::pair<string, string> extra(const string& s) const
    {
        if (declines) return {};
        auto i = table.find(s); if (i != table.end()) return i->second;
        if (s.empty() || s[0] != mark) return {};
        size_t d = s.find(':'); return d == s.npos ? std::make_pair(s.substr(1), string()) : std::make_pair(s.substr(1, d - 1), s.substr(d + 1));
    }
    std::pair<vector<POpt>, size_t> style(const vector<string>& t, size_t i) const
    {
        std::pair<vector<POpt>, size_t> r; r.second = 0; if (declines || t.size() <= i || t[i].size() < 2 || t[i][0] != smark || t[i][1] < '0' || t[i][1] > '3') return r;
        size_t k = std::min<size_t>(size_t(t[i][1] - '0'), t.size() - i - 1); string name = t[i].substr(2);
        vector<string> vals(t.begin() + i + 1, t.begin() + i + 1 + k), orig(t.begin() + i, t.begin() + i + 1 + k); r.second = k + 1;
        POpt o; o.orig = orig; o.value = vals; o.key = name;
        // options without a name must have exactly one value and token
        switch (name.empty() && smode != 2 ? 1 : smode) {
        case 0: r.first.push_back(o); break;
        case 1: for (size_t j = 0; j < orig.size(); ++j) { POpt q; q.value = {orig[j]}; q.orig = {orig[j]}; r.first.push_back(q); } break;
        case 2: break;
        case 3: { POpt q; q.key = name; q.orig = {t[i]}; r.first.push_back(q); for (size_t j = 0; j < vals.size(); ++j) { q.value = {vals[j]}; q.orig = {vals[j]}; r.first.push_back(q); } break; }
        default: o.key = "--" + name; r.first.push_back(o);
        }
        return r;
    }
};
void run(Ctx& c)
{
    ParseCase p; NameCfg n; n.wild = c.chance(1, 5); n.weird = c.chance(1, 6); n.max_opts = 1 + c.below(6); n.collide = c.chance(1, 3);
    p.opts = gen_names(c, n); gen_sems(c, p.opts, SemCfg()); p.style = gen_style(c); p.allow_unreg = c.chance(1, 4); if (c.chance(1, 3)) { p.has_pos = true; p.pos = gen_pos(c, p.opts, false); }
    auto L = std::make_shared<Lang>(); unsigned which = c.weighted({4, 3, 2}); L->has_extra = which != 1; L->has_style = which != 0; L->declines = c.chance(1, 10); L->mark = c.chr("+-/@="); L->smark = c.chr("!-/@"); L->smode = int(c.below(5));
    bool dummy; auto word = [&] { return c.chance(1, 3) ? gen_word(c) : c.str("ab=-+", 1 + c.below(4)); };
    auto spelling = [&] { const Opt& o = p.opts[c.below(p.opts.size())]; string s = o.longs.empty() || (!o.shrt.empty() && c.coin()) ? o.shrt : o.longs[c.below(o.longs.size())]; if (c.chance(1, 5)) s = s.substr(0, c.below(s.size() + 1)); if (c.chance(1, 6)) s = flip_case(c, s); if (c.chance(1, 10)) s = word(); return s; };
    // ordinary tokens mixed with those of the extra languages
    vector<string> base = c.coin() ? gen_tokens(c, p.opts, p.style, c.size(5, 40)) : gen_line(c, p.opts, p.style, c.size(4, 30), 10, true);
    if (L->has_extra) for (size_t k = c.below(3); k-- > 0; ) { string tok = c.coin() && !base.empty() ? base[c.below(base.size())] : word(); L->table[tok] = {c.chance(1, 8) ? "" : spelling(), c.chance(1, 3) ? "" : word()}; }
    for (size_t i = 0; i <= base.size(); ++i) {
        if (c.chance(1, 4)) p.tokens.push_back(L->has_style && (!L->has_extra || c.coin()) ? string(1, L->smark) + char('0' + c.below(4)) + spelling() : L->table.empty() || c.coin() ? string(1, L->mark) + spelling() + (c.chance(2, 3) ? ":" + (c.chance(1, 8) ? "" : word()) : "") : L->table.begin()->first);
        if (i < base.size()) p.tokens.push_back(base[i]);
    }
    (void)dummy;
    p.entry = int(c.below(3)); if (p.entry) for (auto& s : p.tokens) if (s.find('\0') != s.npos) p.entry = 0; if (p.entry == 2 && (p.has_pos || p.allow_unreg || L->has_style)) p.entry = 1;
    p.groups = c.chance(1, 5) ? int(c.below(12)) : 0;
    // A record of what the parsers were offered
    auto offered = std::make_shared<vector<string>>(), offered_style = std::make_shared<vector<string>>(); auto recording = std::make_shared<bool>(false);
    if (L->has_extra) p.extra = [L, offered, recording](const string& s) { if (*recording) offered->push_back(s); return L->extra(s); };
    if (L->has_style) p.style_parser = [L, offered_style, recording](const vector<string>& t, size_t i) { if (*recording && i < t.size()) offered_style->push_back(t[i]); return L->style(t, i); };
    if (c.describing()) c.out() << p.show() << L->show();
    key_case(c, p); c.key(L->show());
    ParseResult m = model_parse(p.tokens, p.cfg()); *recording = true;
    po::options_description d; RealResult r = real_parse(p, d); *recording = false;
    label_parse(c, m); compare_parse(c, m, r, false);
    size_t by_extra = 0, by_style = 0;
    for (auto& s : p.tokens) { if (L->has_extra && !L->extra(s).first.empty()) ++by_extra; if (L->has_style && L->style({s}, 0).second) ++by_style; }
    if (by_extra) c.label("extra parser took a token"); if (by_style) c.label("style parser took a token"); if (L->declines) c.label("declines everything");
    if (!L->declines && (by_extra || by_style) && !(p.tokens.size() == 1 && !m.ok)) c.nontrivial();
    if (r.ok && L->has_extra && !L->has_style) {
        // every token up to a terminator has been offered, unless another option had taken it as its value
        std::multiset<string> seen(offered->begin(), offered->end()); size_t pos = 0; bool stop = false;
        for (auto& o : m.opts) if (o.pos == -1 || !o.orig.empty()) for (size_t k = 0; k < o.orig.size(); ++k, ++pos) { if (m.tr.terminator) stop = true; if (stop) break; if (k == 0 && o.value.size() <= 1 && !seen.count(o.orig[k])) c.fail("the extra parser was never offered " + pbt::esc(o.orig[k])); }
    }
    // what the parsers did not take is parsed as without them
    if (L->declines || (by_extra == 0 && by_style == 0)) {
        ParseCase q = p; q.extra = nullptr; q.style_parser = nullptr; ParseResult m2 = model_parse(q.tokens, q.cfg()); po::options_description d2; RealResult r2 = real_parse(q, d2); compare_parse(c, m2, r2, false);
        if (r.ok != r2.ok || (r.ok && r.opts != r2.opts)) c.fail("parsers which decline everything change the result"); c.label("compared with no extra parser"); if (L->declines && p.tokens.size() > 1) c.nontrivial();
    }
    // and storing follows the same rules
    if (r.ok && c.chance(1, 3)) {
        VM mv; po::variables_map vm; StoreResult s = model_store(mv, m.opts, p.opts, canonical_prefix(p.style), false, false); Caught k = catch_err([&] { po::store(r.parsed, vm); });
        if (s.ok == k.threw || (!s.ok && !same_class(s.err, k.e))) c.fail("store: expected " + (s.ok ? "success" : s.err.show()) + ", got " + (k.threw ? k.e.show() : "success"));
        string diff = diff_vm(mv, vm); if (!diff.empty()) c.fail("the map differs:\n" + diff); c.label(s.ok ? "stored" : "store failed");
    }
    if (c.describing()) c.out() << (m.ok ? "result:" + show(m.opts) : "error: " + m.err.show()) << "\n";
}
Opt O(const char* l, const char* s, Kind k) { Opt o; if (*l) o.longs.push_back(l); o.shrt = s; o.sem.kind = k; return o; }
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P20"; P.run = run; P.quick = 200000; P.thorough = 6000000;
    P.rule = "options, a style, and an extra_parser and/or extra_style_parser for a generated small language (marked tokens, fixed tokens, tokens taking further tokens, swallowing, several options at once, declining), on token lists mixing both syntaxes; result or error against the grammar model with the same parsers. Non-trivial: a user parser took a token, or all declined a line of several tokens";
    P.pinned = {
        [](Ctx& c) { // a style parser which swallows the token looked at
            po::options_description d; d.add_options()("foo", po::value<string>(), ""); vector<string> t{"--foo", "@x", "y"};
            auto sp = [](vector<string>& a) { if (a[0][0] == '@') a.erase(a.begin()); return vector<po::option>(); };
            auto r = po::command_line_parser(t).options(d).extra_style_parser(sp).run(); if (r.options.size() != 2 || r.options[0].value != vector<string>{"@x"}) c.fail("swallowing style parser"); }};
    return pbt::engine_main(argc, argv, P);
}
