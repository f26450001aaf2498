// P02: the whole command-line grammar against the reference parser.
#include "common.hpp"
using namespace t; using pbt::Ctx;

static ParseCase gen(Ctx& c)
{
    ParseCase p; NameCfg n; n.wild = c.chance(1, 4); n.weird = c.chance(1, 5); n.max_opts = 1 + c.below(7);
    p.opts = gen_names(c, n);
    gen_sems(c, p.opts, SemCfg());
    if (c.chance(1, 40)) add_bulk(c, p.opts);
    string dashed; if (c.chance(1, 30)) { Opt o; dashed = c.pick({string("-"), string("--"), string("/")}) + c.str("abfo", 1 + c.size(4, 30)); o.longs.push_back(dashed); o.sem = gen_sem(c, SemCfg()); p.opts.insert(p.opts.begin() + c.below(p.opts.size() + 1), o); }
    p.style = gen_style(c);
    p.allow_unreg = c.chance(1, 4);
    if (c.chance(1, 3)) { p.has_pos = true; p.pos = gen_pos(c, p.opts, false); }
    p.tokens = gen_tokens(c, p.opts, p.style, c.size(6, 60));
    if (!dashed.empty() && c.coin()) for (size_t k = 1 + c.below(3); k; --k) p.tokens.insert(p.tokens.begin() + c.below(p.tokens.size() + 1), dashed.substr(0, 1 + c.below(dashed.size())));
    p.entry = int(c.below(3));
    if (p.entry) for (auto& s : p.tokens) if (s.find('\0') != s.npos) p.entry = 0;
    if (p.entry == 2 && (p.has_pos || p.allow_unreg)) p.entry = 1;
    p.groups = c.chance(1, 4) ? int(c.below(20)) : 0;
    return p;
}
static void check(Ctx& c, const ParseCase& p)
{
    if (c.describing()) c.out() << p.show();
    key_case(c, p);
    ParseResult m = model_parse(p.tokens, p.cfg());
    label_parse(c, m);
    bool named = false; for (auto& o : m.opts) if (o.pos == -1 && !o.unreg) named = true;
    if (p.tokens.size() >= 2 && (named || !m.ok)) c.nontrivial();
    po::options_description d;
    RealResult r = real_parse(p, d);
    compare_parse(c, m, r, false);
    if (r.ok) {
        if (r.prefix != canonical_prefix(p.style)) c.fail("wrong options prefix " + std::to_string(r.prefix));
        if (r.parsed.description != &d) c.fail("parsed_options::description is not the description used");
    }
    if (c.describing()) c.out() << (m.ok ? "result:" + show(m.opts) : "error: " + m.err.show()) << "\n";
}
static void run(Ctx& c) { check(c, gen(c)); }

static Opt O(const char* l, const char* s, Kind k) { Opt o; if (*l) o.longs.push_back(l); o.shrt = s; o.sem.kind = k; return o; }
static ParseCase PC(vector<Opt> o, int style, vector<string> t) { ParseCase p; p.opts = o; p.style = style; p.tokens = t; return p; }

int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P02"; P.run = run; P.quick = 160000; P.thorough = 6000000;
    P.rule = "options (names with collisions, wildcards, groups; every arity incl. custom), a valid style mask, positional description and allow_unregistered are drawn, then tokens derived from the options (right and wrong spellings, values, punctuation, bytes); non-trivial: at least two tokens and at least one named option recognised or an error raised";
    int all = st::unix_style | st::case_insensitive;
    P.pinned = {
        [](Ctx& c) { check(c, PC({O("", "-F", KUntyped0), O("", "-g", KUntyped0)}, st::default_style | st::short_case_insensitive, {"-F", "-G", "-f"})); },
        [](Ctx& c) { check(c, PC({O("", "-F", KUntyped0)}, st::default_style | st::long_case_insensitive, {"-F"})); },
        [all](Ctx& c) { check(c, PC({O("Foo", "-f", KUntyped0), O("foo", "-g", KUntyped0)}, all, {"-fg"})); },
        [](Ctx& c) { check(c, PC({O("foo", "", KUntyped0)}, st::unix_style | st::allow_long_disguise, {"-=x", "--=y", "--foo"})); },
        [](Ctx& c) { check(c, PC({O("foo", "", KUntyped0)}, 0, {"--=x"})); },
        [](Ctx& c) { check(c, PC({O("foo", "", KString)}, st::allow_long_disguise | st::allow_short | st::allow_dash_for_short | st::allow_slash_for_short | st::long_allow_next | st::long_allow_adjacent | st::short_allow_next, {"-foo=1", "/foo", "2"})); },
    };
    return pbt::engine_main(argc, argv, P);
}
