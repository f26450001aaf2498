// P01: a command line is written from intentions; parsing must give the
// intentions back.  The expectation never goes through a model of the parser.
#include "common.hpp"
#include <cstring>
using namespace t; using pbt::Ctx;

namespace {
struct Case {
    vector<Opt> opts; int style = 0, S = 0; vector<string> tokens; vector<POpt> expect; PosDesc pos; bool has_pos = false; int entry = 0, groups = 0; bool wide = false;
    std::set<string> forms; bool values = false; size_t intents = 0;
};
bool has_prefix(const string& s, const string& p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; }

// does `name` denote any long name under the style?
int long_matches(const Case& k, const string& name)
{
    bool ci = k.S & st::long_case_insensitive; int n = 0; string a = ci ? lower(name) : name;
    for (auto& o : k.opts) {
        bool m = false;
        for (auto& l0 : o.longs) { string l = ci ? lower(l0) : l0; if (l == a || ((k.S & st::allow_guessing) && has_prefix(l, a))) m = true; }
        n += m;
    }
    return n;
}
string plain_word(Ctx& c, const Case& k)
{
    string s;
    switch (c.weighted({60, 20, 10, 10})) {
    case 0: s = c.str("abcxyz019._", c.size(6, 400)); break;
    case 1: s = gen_word(c); break;
    case 2: s = c.str("ab=-/ #\"'\\\n\t%", c.size(8, 60)); break;
    default: s = gen_utf8(c, c.size(5, 100));
    }
    if (!s.empty() && (s[0] == '-' || s[0] == '/')) { if (!(s == "-" || s == "/" || (s[0] == '/' && !(k.S & st::allow_slash_for_short)))) s = "w" + s; }
    return s;
}
void gen(Ctx& c, Case& k)
{
    NameCfg n; n.plain = true; n.collide = false; n.max_opts = 1 + c.below(8);
    k.opts = gen_names(c, n);
    // prefix-free, also ignoring case
    std::set<string> taken;
    for (auto& o : k.opts) {
        vector<string> keep;
        for (auto& l : o.longs) {
            if (c.chance(1, 6)) l = flip_case(c, l);
            string x = lower(l); bool ok = true;
            for (auto& u : taken) if (has_prefix(u, x) || has_prefix(x, u)) ok = false;
            if (ok) { taken.insert(x); keep.push_back(l); }
        }
        o.longs = keep;
        if (!o.shrt.empty() && (c.chance(1, 8) || !isalpha((unsigned char)o.shrt[1]))) o.shrt[1] = c.chr("z?@#$%&+.:;_^~!-/0123456789|[\"\\ \xe9\x01");
    }
    std::set<char> ss;
    for (auto& o : k.opts) if (!o.shrt.empty() && !ss.insert(char(tolower(o.shrt[1]))).second) o.shrt = "";
    vector<Opt> keep; for (auto& o : k.opts) if (!o.longs.empty() || !o.shrt.empty()) keep.push_back(o);
    k.opts = keep; if (k.opts.empty()) c.discard();
    for (auto& o : k.opts) {
        if (o.longs.size() > 1 && o.shrt.empty() && o.longs.back().size() == 1) c.discard();
        Sem& s = o.sem;
        switch (c.weighted({30, 20, 10, 10, 12, 8, 10})) {
        case 0: s.kind = KUntyped0; break;
        case 1: s.kind = KString; break;
        case 2: s.kind = KUntyped1; break;
        case 3: s.kind = KString; s.has_impl = true; s.impl = {"dflt"}; break;
        case 4: s.kind = KVecString; s.multi = true; if (c.chance(1, 3)) { s.zero = true; s.has_impl = true; s.impl = {"dflt"}; s.impl_textual = true; s.impl_text = "dflt"; } break;
        case 5: s.kind = KVecString; break;
        default: s.kind = KArity; s.amin = unsigned(c.below(4)); s.amax = c.chance(1, 4) ? ~0u : s.amin + unsigned(c.below(3)); if (!s.amax) s.amax = 1; break;
        }
    }
    k.style = gen_style(c); k.S = k.style ? k.style : int(st::default_style);
    if (c.chance(1, 3)) { k.has_pos = true; k.pos.e.push_back({"positional", -1}); }
    const int S = k.S;
    bool lnext = S & st::long_allow_next, ladj = S & st::long_allow_adjacent, snext = S & st::short_allow_next, sadj = S & st::short_allow_adjacent;
    // with disguised long names, what follows the prefix must not be a name too; "-a" is how a short name is known to the description
    auto short_safe = [&](const string& body) {
        if (!(S & st::allow_long_disguise)) return true;
        string n = body.substr(0, body.find('=')); if (long_matches(k, n)) return false;
        for (auto& o : k.opts) if (!o.shrt.empty() && lower(o.shrt) == lower(n)) return false;
        return true; };

    bool dashable = true; for (auto& o : k.opts) if (!o.shrt.empty() && strchr("-.0123456789", o.shrt[1])) dashable = false;
    size_t want = 1 + c.size(4, 40); int position = 0; bool no_positional = false, terminated = false;
    auto positional = [&](const string& w) {
        POpt e; e.key = k.has_pos ? "positional" : ""; e.pos = position++; e.value = {w}; e.orig = {w}; k.expect.push_back(e); k.tokens.push_back(w);
    };
    for (size_t i = 0; i < want && !terminated; ++i) {
        unsigned what = c.weighted({70, no_positional ? 0u : 20u, 4});
        if (what == 1) { positional(plain_word(c, k)); k.forms.insert("positional"); ++k.intents; continue; }
        if (what == 2) {
            terminated = true; k.tokens.push_back("--"); k.forms.insert("terminator"); ++k.intents;
            size_t m = c.size(4, 30); bool isl;
            for (size_t j = 0; j < m; ++j) positional(c.coin() ? gen_spelling(c, k.opts, k.style, isl) : c.coin() ? plain_word(c, k) : c.pick({string("--"), string("--foo="), string("-"), string(""), string("--foo=bar")}));
            break;
        }
        const Opt& o = k.opts[c.below(k.opts.size())];
        unsigned lo = o.sem.min_tokens(), hi = o.sem.max_tokens();
        // possible forms
        vector<string> forms;
        if (!o.longs.empty()) {
            if (S & st::allow_long) forms.push_back("--");
            if (S & st::allow_long_disguise) { forms.push_back("d-"); if (S & st::allow_slash_for_short) forms.push_back("d/"); }
        }
        if (!o.shrt.empty() && (S & st::allow_short)) {
            if (S & st::allow_dash_for_short) { forms.push_back("s-"); if (S & st::allow_sticky) forms.push_back("s+"); }
            if (S & st::allow_slash_for_short) forms.push_back("s/");
        }
        if (forms.empty()) continue;
        string form = forms[c.below(forms.size())];
        bool islong = form == "--" || form[0] == 'd', adj = islong ? ladj : sadj, next = islong ? lnext : snext;
        // how many values, and where the first goes
        size_t count = hi == 0 ? 0 : lo + (hi > lo ? c.below(std::min<uint64_t>(hi - lo, 3) + 1) : 0);
        if (hi == ~0u && c.chance(1, 12)) count += c.chance(1, 6) ? c.size(100, 700) : c.size(3, 60);
        bool adjacent = count > 0 && adj && (!next || c.coin());
        if (!next) { if (lo > 1 || (count && !adj)) continue; count = std::min<size_t>(count, 1); }
        POpt e; e.key = o.longs.empty() ? o.shrt : o.longs[0];
        vector<string> toks; string head, av;
        if (adjacent) { av = c.chance(1, 3) ? c.str("ab=-/ 019", 1 + c.size(5, 60)) : gen_word(c); if (av.empty()) av = "v"; }
        vector<POpt> before;
        if (islong) {
            string l = o.longs[c.below(o.longs.size())];
            if ((S & st::allow_guessing) && c.chance(1, 3)) { size_t m = 1 + c.below(l.size()); while (m < l.size() && long_matches(k, l.substr(0, m)) != 1) ++m; if (m < l.size()) { l = l.substr(0, m); k.forms.insert("abbreviated"); } }
            if ((S & st::long_case_insensitive) && c.chance(1, 3)) { l = flip_case(c, l); k.forms.insert("case"); }
            if (long_matches(k, l) != 1) continue;
            head = (form == "--" ? "--" : form == "d-" ? "-" : "/") + l + (adjacent ? "=" + av : "");
        } else {
            string letters;
            if (o.shrt == "--" && form == "s-") continue;   // that is the terminator, or a long option
            if (form == "s+") {
                size_t m = 1 + c.size(2, 20);
                for (size_t j = 0; j < m; ++j) { const Opt& f = k.opts[c.below(k.opts.size())]; if (f.shrt.empty() || f.sem.max_tokens() != 0) continue; letters += f.shrt[1]; POpt b; b.key = f.longs.empty() ? f.shrt : f.longs[0]; before.push_back(b); }
                if (letters.size()) k.forms.insert("sticky");
            }
            if (letters.size() > 1 && letters[0] == '-') std::swap(letters[0], letters[1]), std::swap(before[0], before[1]);
            letters += o.shrt[1];
            if (form == "s+" && letters[0] == '-') continue;
            if ((S & st::short_case_insensitive) && c.chance(1, 3)) { letters = flip_case(c, letters); k.forms.insert("case"); }
            string body = letters + av;
            if (!short_safe(body)) continue;
            // without sticky groups, or for an option taking values, the rest is the value
            head = (form == "s/" ? "/" : "-") + body;
        }
        toks.push_back(head);
        if (adjacent) e.value.push_back(av);
        while (e.value.size() < count) {
            string w = plain_word(c, k);
            if (e.value.size() < lo && dashable && c.chance(1, 5)) { w = c.pick({string("-"), string("--"), string("-1"), string("-.")}) + c.str("0123456789", 1 + c.below(4)) + c.str("abc.", c.below(3)); k.forms.insert("dashed value"); }
            e.value.push_back(w); toks.push_back(w);
        }
        e.orig = toks;
        k.expect.insert(k.expect.end(), before.begin(), before.end()); k.expect.push_back(e);
        k.tokens.insert(k.tokens.end(), toks.begin(), toks.end());
        no_positional = hi > lo && e.value.size() < hi;
        k.forms.insert(form + (adjacent ? "=" : count ? "_" : "")); k.values |= count > 0; k.intents += 1 + before.size();
    }
    k.entry = int(c.below(3)); for (auto& s : k.tokens) if (s.find('\0') != s.npos) k.entry = 0;
    if (k.has_pos && k.entry == 2) k.entry = 1;
    k.groups = c.chance(1, 3) ? int(c.below(20)) : 0;
}
void run(Ctx& c)
{
    Case k; gen(c, k);
    ParseCase p; p.opts = k.opts; p.style = k.style; p.tokens = k.tokens; p.has_pos = k.has_pos; p.pos = k.pos; p.entry = k.entry; p.groups = k.groups;
    key_case(c, p);
    if (c.describing()) c.out() << p.show() << "intended:" << show(k.expect) << "\n";
    if (k.intents >= 2 && k.values && k.forms.size() >= 2) c.nontrivial();
    static const char* const L[] = {"positional", "terminator", "abbreviated", "case", "sticky", "dashed value", "--", "--=", "--_", "d-", "d-=", "d-_", "d/", "d/=", "d/_", "s-", "s-=", "s-_", "s+", "s+=", "s+_", "s/", "s/=", "s/_"};
    for (auto l : L) if (k.forms.count(l)) c.label(l);
    for (int pass = 0; pass < 2; ++pass) {
        if (pass && !k.groups) break;
        if (pass) p.groups = 0;
        po::options_description d;
        RealResult r = real_parse(p, d);
        if (!r.ok) c.fail("the command line was rejected: " + r.err.show());
        for (auto& o : r.opts) o.ci = false;
        if (!(r.opts == k.expect)) c.fail("intended" + show(k.expect) + "\n  but got" + show(r.opts));
    }
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P01"; P.run = run; P.quick = 400000; P.thorough = 12000000;
    P.rule = "options with prefix-free names and any arity, and a valid style, are drawn; then a list of intentions (option with values, group of flags, plain word, '--'), each spelled in a random form the style permits; the parse must return the intentions. Non-trivial: at least two intentions, one with a value, and at least two different spelling forms";
    return pbt::engine_main(argc, argv, P);
}
