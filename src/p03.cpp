// P03: token conservation, collect_unrecognized, two-phase parsing.
#include "common.hpp"
#include <cstring>
using namespace t; using pbt::Ctx;

namespace {
template<class C> vector<std::basic_string<C>> collect(const vector<po::basic_option<C>>& v, bool pos)
{ return po::collect_unrecognized(v, pos ? po::include_positional : po::exclude_positional); }
vector<string> expected_collect(const vector<POpt>& v, bool pos)
{ vector<string> r; for (auto& o : v) if (o.unreg || (pos && o.pos != -1)) r.insert(r.end(), o.orig.begin(), o.orig.end()); return r; }

// the tokens are all there, in order; at most one "--" is missing
void conserve(Ctx& c, const vector<string>& tokens, const vector<POpt>& got)
{
    vector<string> all; for (auto& o : got) all.insert(all.end(), o.orig.begin(), o.orig.end());
    if (all == tokens) return;
    size_t i = 0; while (i < all.size() && i < tokens.size() && all[i] == tokens[i]) ++i;
    if (all.size() + 1 == tokens.size() && tokens[i] == "--" && std::equal(all.begin() + i, all.end(), tokens.begin() + i + 1)) return;
    c.fail("the original tokens of the options are " + pbt::esc(all) + show(got));
}
void general(Ctx& c)
{
    ParseCase p; NameCfg n; n.wild = c.chance(1, 5); n.weird = c.chance(1, 6); n.max_opts = 1 + c.below(6);
    p.opts = gen_names(c, n); gen_sems(c, p.opts, SemCfg());
    p.style = gen_style(c); p.allow_unreg = !c.chance(1, 6);
    if (c.chance(1, 4)) { p.has_pos = true; p.pos = gen_pos(c, p.opts, false); }
    size_t want = c.size(8, 60); if (c.chance(1, 400)) { c.expensive(); want = 200 + c.below(500); c.label("hundreds of tokens"); }
    p.tokens = gen_tokens(c, p.opts, p.style, want);
    // unknown options, too
    size_t extra = c.below(4);
    for (size_t i = 0; i < extra; ++i) {
        string s = c.pick({string("--zz"), string("-Q"), string("--unk"), string("-q"), string("/Q"), string("--zz-top")});
        if (c.coin()) s += (s.size() > 2 ? "=" : "") + c.str("ab=-019", 1 + c.below(4));
        p.tokens.insert(p.tokens.begin() + c.below(p.tokens.size() + 1), s);
    }
    p.entry = int(c.below(2)); for (auto& s : p.tokens) if (s.find('\0') != s.npos) p.entry = 0;
    p.groups = c.chance(1, 5) ? int(c.below(20)) : 0;
    key_case(c, p);
    if (c.describing()) c.out() << p.show();
    ParseResult m = model_parse(p.tokens, p.cfg()); label_parse(c, m);
    po::options_description d; RealResult r = real_parse(p, d);
    if (p.allow_unreg && !r.ok && r.err.cls == "unknown_option") c.fail("an unknown option was reported although allowed: " + r.err.show());
    compare_parse(c, m, r, false);
    if (!r.ok) return;
    size_t nun = 0, npos = 0; for (auto& o : r.opts) { nun += o.unreg; npos += o.pos != -1; }
    if (nun && r.opts.size() > nun) c.nontrivial();
    conserve(c, p.tokens, r.opts);
    vector<string> rest[2];
    for (int pos = 0; pos < 2; ++pos) {
        rest[pos] = collect(r.parsed.options, pos);
        auto e = expected_collect(m.opts, pos);
        if (rest[pos] != e) c.fail(string("collect_unrecognized(") + (pos ? "include" : "exclude") + "_positional) is " + pbt::esc(rest[pos]) + " instead of " + pbt::esc(e));
    }
    if (from_real(r.parsed.options) != r.opts) c.fail("collect_unrecognized changed the options");
    // the same through the wide interface
    vector<wstring> wt; bool wide = true;
    for (auto& s : p.tokens) { wstring w; if (!ref_decode(s, w)) { wide = false; break; } wt.push_back(w); }
    for (auto& o : m.opts) for (auto& v : o.value) { wstring w; if (!ref_decode(v, w)) wide = false; }
    if (wide && c.chance(1, 3)) {
        c.label("wide");
        po::wcommand_line_parser q(wt); q.options(d).style(p.style); po::positional_options_description pd; if (p.has_pos) { p.pos.build(pd); q.positional(pd); } if (p.allow_unreg) q.allow_unregistered();
        po::wparsed_options w = q.run();
        conserve(c, p.tokens, from_real(w.options));
        for (int pos = 0; pos < 2; ++pos) {
            vector<string> got; for (auto& x : collect(w.options, pos)) got.push_back(ref_encode(x));
            if (got != rest[pos]) c.fail("the wide collect_unrecognized gives " + pbt::esc(got) + " instead of " + pbt::esc(rest[pos]));
        }
    }
    // a parser which knows nothing passes everything on
    if (p.allow_unreg && !m.tr.terminator && std::find(rest[1].begin(), rest[1].end(), "--") == rest[1].end()) {
        po::options_description none; po::parsed_options q(nullptr);
        Caught k = catch_err([&] { q = po::command_line_parser(rest[1]).options(none).style(p.style).allow_unregistered().run(); });
        if (k.threw) { if (k.e.cls != "invalid_command_line_syntax") c.fail("parsing the rest " + pbt::esc(rest[1]) + " without options gave " + k.e.show()); return; }
        auto again = collect(q.options, true);
        if (again != rest[1]) c.fail("a second pass over " + pbt::esc(rest[1]) + " left " + pbt::esc(again));
        c.label("second pass");
    }
}

// two parsers, each with half of the options
void two_phase(Ctx& c)
{
    NameCfg n; n.plain = true; n.collide = false; n.max_opts = 2 + c.below(7); n.multi = c.coin();
    vector<Opt> all = gen_names(c, n), part[2]; std::set<string> seen;
    for (auto& o : all) if (!o.shrt.empty() && strchr("-=/% ", o.shrt[1])) { if (o.longs.empty()) c.discard(); o.shrt = ""; }
    for (auto& o : all) { o.sem.kind = c.pick({KUntyped0, KString, KUntyped1, KUntyped0}); if (o.sem.kind == KString && c.chance(1, 5)) { o.sem.kind = KArity; o.sem.amin = o.sem.amax = 1; }
        for (auto& l : o.longs) for (auto& s : seen) if (l.compare(0, s.size(), s) == 0 || s.compare(0, l.size(), l) == 0) c.discard();
        for (auto& l : o.longs) seen.insert(l); }
    int style = int(st::unix_style) & ~st::allow_guessing; if (c.chance(1, 3)) style |= st::allow_slash_for_short; if (c.chance(1, 3)) style &= ~st::allow_sticky;
    vector<string> toks; vector<bool> owner;
    for (auto& o : all) part[c.below(2)].push_back(o);
    vector<POpt> known[2]; vector<string> other;
    bool slash = style & st::allow_slash_for_short;
    size_t len = 1 + c.size(8, 60); bool term = false;
    for (size_t i = 0; i < len; ++i) {
        unsigned w = c.weighted({60, 20, 14, term ? 0u : 6u});
        auto word = [&] { return c.chance(1, 6) ? string() : c.str("abcxyz019=._", 1 + c.size(4, 40)); };
        if (w == 1 || term) { toks.push_back(word()); other.push_back(toks.back()); continue; }
        if (w == 2) { string s = c.pick({string("--0unknown"), string("--1x"), string("-%"), string("--0unknown=v"), string("-%v=")}); toks.push_back(s); other.push_back(s); continue; }
        if (w == 3) { term = true; toks.push_back("--"); continue; }
        int side = int(c.below(2)); if (part[side].empty()) side ^= 1;
        const Opt& o = part[side][c.below(part[side].size())];
        POpt e; e.key = o.longs.empty() ? o.shrt : o.longs[0]; bool sh = !o.shrt.empty() && (o.longs.empty() || c.coin());
        string s = sh ? (slash && c.coin() ? "/" : "-") + o.shrt.substr(1) : "--" + o.longs[c.below(o.longs.size())];
        if (o.sem.min_tokens()) {
            string v = c.str("abcxyz019=._-", 1 + c.size(4, 40));
            if (c.coin()) { s += (sh ? "" : "=") + v; toks.push_back(s); } else { if (v[0] == '-' || v[0] == '/') v[0] = 'v'; toks.push_back(s); toks.push_back(v); }
            e.value.push_back(v);
        } else toks.push_back(s);
        known[side].push_back(e);
    }
    c.label("two-phase"); c.key(toks); c.key(uint64_t(style)); for (auto& o : all) c.key(o.names());
    if (c.describing()) c.out() << "first parser's " << show(part[0]) << "second parser's " << show(part[1]) << "style: " << style_show(style) << "\ntokens: " << pbt::esc(toks) << "\n";
    if (known[0].size() && known[1].size() && other.size()) c.nontrivial();
    vector<string> rest = toks;
    for (int k = 0; k < 2; ++k) {
        ParseCase p; p.opts = part[k]; p.style = style; p.tokens = rest; p.allow_unreg = true; p.entry = int(c.below(2)); 
        po::options_description d; RealResult r = real_parse(p, d);
        if (!r.ok) c.fail("phase " + std::to_string(k + 1) + " over " + pbt::esc(rest) + " gave " + r.err.show());
        vector<POpt> got; for (auto& o : r.opts) if (!o.unreg && o.pos == -1) { POpt e; e.key = o.key; e.value = o.value; got.push_back(e); }
        if (got != known[k]) c.fail("phase " + std::to_string(k + 1) + " over " + pbt::esc(rest) + " gave" + show(got) + "\n  instead of" + show(known[k]));
        rest = collect(r.parsed.options, true);
    }
    if (rest != other) c.fail("left over: " + pbt::esc(rest) + " instead of " + pbt::esc(other));
}
void run(Ctx& c) { if (c.chance(1, 3)) two_phase(c); else general(c); }
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P03"; P.run = run; P.quick = 300000; P.thorough = 8000000;
    P.rule = "two thirds: as P02 with unknown options mixed in and unregistered options mostly allowed; original tokens are compared with the input, collect_unrecognized with the model, the wide and a second pass. One third: options split over two parsers, tokens written from intentions, each parser must see its own. Non-trivial: at least one unregistered and one other option; for two phases, options of both parsers and unknown tokens";
    return pbt::engine_main(argc, argv, P);
}
