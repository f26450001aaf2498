// P16: help output against a reference formatter, and against the promises readers of a help text rely on.
#include "common.hpp"
#include <algorithm>
#include <iomanip>
#include <sstream>
using namespace t; using pbt::Ctx;

namespace {
struct Group { string caption; unsigned len = 80, mind = 40; vector<Opt> own; vector<size_t> order; vector<Group> sub; };
// members in the order they are added: >= 0 own option index, < 0 sub group -1-i

string deftext(const Sem& s, const vector<string>& e, bool textual, const string& text)
{
    if (textual) return text;
    if (s.kind == KBool || s.kind == KSwitch) return e[0] == "true" ? "1" : "0";
    return e[0];
}
string g_arg = "arg";                              // the library's name for a value without a name of its own
struct UseArg { string old; UseArg(const string& s) : old(po::arg) { po::arg = g_arg = s; } ~UseArg() { po::arg = g_arg = old; } };
string param(const Sem& s)
{
    if (s.max_tokens() == 0) return "";
    if (s.kind == KArity) return s.value_name.empty() ? "tokens" : s.value_name;
    if (!s.typed()) return g_arg;
    string var = s.value_name.empty() ? g_arg : s.value_name, d, i;
    if (s.has_def || s.kind == KSwitch) d = s.has_def ? deftext(s, s.def, s.def_textual, s.def_text) : "0";
    if (s.has_impl) i = deftext(s, s.impl, s.impl_textual, s.impl_text);
    string r = i.empty() ? var : "[=" + var + "(=" + i + ")]";
    if (!d.empty()) r += " (=" + d + ")";
    return r;
}
string names(const Opt& o) { return o.longs.empty() ? o.shrt : o.shrt.empty() ? "--" + o.longs[0] : o.shrt + " [ --" + o.longs[0] + " ]"; }
string head(const Opt& o) { return "  " + names(o) + " " + param(o.sem); }

struct TwoTabs {};
// One paragraph as lines; the first has `room` columns, all but the first are indented by `hang` more.
vector<string> wrap(string p, size_t room, size_t& hang)
{
    size_t tabs = size_t(std::count(p.begin(), p.end(), '\t')); if (tabs > 1) throw TwoTabs();
    hang = 0;
    if (tabs) { size_t t = p.find('\t'); p = p.substr(0, t) + p.substr(t + 1); if (t + 1 < room) hang = t; }
    vector<string> lines;
    if (p.size() < room) { lines.push_back(p); return lines; }
    while (!p.empty()) {
        size_t r = room - (lines.empty() ? 0 : hang);
        if (!lines.empty() && p.size() > 1 && p[0] == ' ' && p[1] != ' ') p.erase(0, 1);
        size_t n = std::min(r, p.size());
        if (n < p.size() && p[n] != ' ' && p[n - 1] != ' ') {          // inside a word: break before it unless that wastes half a line
            size_t sp = p.rfind(' ', n - 1);
            if (sp != p.npos && n - (sp + 1) < r / 2) n = sp + 1;
        }
        lines.push_back(p.substr(0, n)); p.erase(0, n);
    }
    return lines;
}
vector<string> split(const string& s, char sep) { vector<string> r(1); for (char ch : s) if (ch == sep) r.push_back(""); else r.back() += ch; return r; }

string one(const Opt& o, size_t col, size_t len)
{
    string s = head(o); if (!o.has_desc || o.desc.empty()) return s + "\n";
    if (s.size() >= col) s += "\n" + string(col, ' '); else s += string(col - s.size(), ' ');
    bool first = true;
    for (auto& p : split(o.desc, '\n')) {
        if (!first) s += "\n" + string(col, ' ');
        first = false; size_t hang; vector<string> ls = wrap(p, len - 1 - col, hang);
        for (size_t i = 0; i < ls.size(); ++i) { if (i) s += "\n" + string(col + hang, ' '); s += ls[i]; }
    }
    return s + "\n";
}
size_t column(const Group& g)
{
    size_t w = 23; for (auto& o : g.own) w = std::max(w, head(o).size());
    for (auto& s : g.sub) w = std::max(w, column(s));
    return std::min<size_t>(w, g.len - g.mind - 1) + 1;
}
string text(const Group& g, size_t col)
{
    string s = g.caption.empty() ? "" : g.caption + ":\n";
    for (auto& o : g.own) s += one(o, col, g.len);
    for (auto& x : g.sub) s += "\n" + text(x, col);
    return s;
}
// `watch` prints or measures the unfinished description between the additions: that leaves no trace.
void build(const Group& g, po::options_description& d, const std::function<void(const po::options_description&)>& watch)
{
    size_t i = 0, j = 0;
    for (auto k : g.order) { watch(d); if (k == 0) { vector<Opt> v(1, g.own[i++]); add_options(d, v); } else { const Group& s = g.sub[j++]; po::options_description x(s.caption, s.len, s.mind); build(s, x, watch); d.add(x); } }
}
size_t count_opts(const Group& g) { size_t n = g.own.size(); for (auto& s : g.sub) n += count_opts(s); return n; }
void each(const Group& g, const std::function<void(const Group&, const Opt&)>& f) { for (auto& o : g.own) f(g, o); for (auto& s : g.sub) each(s, f); }

string word(Ctx& c, unsigned len) { static const string al = "abcdefgh"; return c.str(al, 1 + (c.chance(1, 6) ? c.size(len, len + 40) : c.size(7, 30))); }
string gen_desc(Ctx& c, unsigned len, unsigned room)
{
    switch (c.weighted({30, 25, 20, 10, 5, 10})) {
    case 0: { string s; size_t n = c.size(12, 60); for (size_t i = 0; i < n; ++i) { if (i) s += c.chance(1, 8) ? string(1 + c.below(3), ' ') : " "; s += word(c, len); } return s; }
    case 1: { string s; size_t n = 1 + c.below(4); for (size_t i = 0; i < n; ++i) { if (i) s += "\n"; size_t m = c.size(8, 30); bool tab = c.chance(1, 2); size_t at = c.below(m + 1); if (c.chance(1, 8)) s += " "; for (size_t k = 0; k < m; ++k) { if (k == at && tab) s += "\t"; else if (k) s += " "; s += word(c, len); } if (c.chance(1, 10)) s += "\t"; } return s; }
    case 2: { // a paragraph whose length or break falls near the end of the line
        size_t n = room + c.below(7); n = n < 3 ? 0 : n - 3; string s = c.chance(1, 3) ? string(n, 'x') : c.str("xx ", n); if (c.chance(1, 3)) s = s.substr(0, s.size() / 2) + " " + s.substr(s.size() / 2); if (c.chance(1, 4) && !s.empty()) s.insert(c.below(s.size() + 1), "\t"); s += c.coin() ? " " + c.str("yz ", c.size(8, 60)) : c.str("yz ", c.size(8, 60)); return s; }
    case 3: { string s = c.str("a \n\t", c.size(12, 60)); return s; }
    case 4: return gen_utf8(c, c.size(20, 100));
    default: return c.str("ab ", c.size(30, 200));
    }
}
void gen_group(Ctx& c, Group& g, int depth, unsigned len, unsigned mind, size_t& budget, size_t& serial, const NameCfg& nc, unsigned namelen)
{
    g.len = len; g.mind = mind; if (depth == 0 ? c.chance(2, 3) : c.chance(4, 5)) g.caption = c.pick({string("Options"), string("Allowed options"), string("Group "), string("x")}) + (depth ? std::to_string(serial) : "");
    if (c.chance(1, 6)) { g.caption = c.coin() ? gen_word(c) : c.str(c.pick({string("ab :"), string("a\t\n"), string("Options: -"), string("a%{}=")}), 1 + c.size(8, 120)); for (auto& ch : g.caption) if (!ch) ch = '0'; }
    size_t n = depth == 0 ? c.below(4) + (c.chance(1, 20) ? c.size(20, 60) : 0) : c.below(4);
    vector<size_t> ord;
    for (size_t i = 0; i < n && budget; ++i, --budget) {
        Opt o = gen_names(c, nc)[0]; o.sem = gen_sem(c, SemCfg());
        if (!o.longs.empty()) { if (c.chance(1, 2)) o.longs[0] = c.str("abcdefghijklmnopqrstuvwxyz-", 1 + c.size(8, namelen)); o.longs[0] += std::to_string(serial); }
        ++serial;
        if (o.sem.typed() && c.chance(1, 4)) o.sem.value_name = c.str("abcdefNAME_ <>", 1 + c.size(6, namelen));
        if (o.sem.has_def && !o.sem.def_textual && o.sem.kind == KDouble) { o.sem.def_textual = true; o.sem.def_text = "2.5"; }
        if (o.sem.has_impl && !o.sem.impl_textual && o.sem.kind == KDouble) { o.sem.impl_textual = true; o.sem.impl_text = "3.5"; }
        o.has_desc = !c.chance(1, 6); g.own.push_back(o); ord.push_back(0);
    }
    size_t k = depth < 3 ? c.below(depth == 0 ? 3 : 2) : 0; if (depth < 2 && c.chance(1, 25)) k = 5 + c.below(20);
    for (size_t i = 0; i < k; ++i) { unsigned sl = len; if (c.chance(1, 10)) sl = len + unsigned(c.below(40)); g.sub.emplace_back(); gen_group(c, g.sub.back(), depth + 1, sl, mind, budget, serial, nc, namelen); ord.push_back(1); }
    if (c.coin()) c.shuffle(ord); g.order = ord;
}
void fill(Ctx& c, Group& g, size_t col) { for (auto& o : g.own) { o.desc = gen_desc(c, g.len, unsigned(g.len - 1 - col)); for (auto& ch : o.desc) if (!ch) ch = '0'; } for (auto& s : g.sub) fill(c, s, col); }

struct Counts : std::stringbuf {};

void run(Ctx& c)
{
    UseArg use(c.chance(1, 8) ? c.pick({"VALUE", "x", "a longer name"}) : "arg");
    unsigned len = 80, mind = 40;
    switch (c.weighted({40, 30, 20, 10})) {
    case 0: break;
    case 1: len = 20 + unsigned(c.below(140)); mind = len / 2; break;
    case 2: len = 3 + unsigned(c.below(100)); mind = 1 + unsigned(c.below(len - 2)); break;
    default: len = 30 + unsigned(c.below(30)); mind = unsigned(c.below(len - 1)); break;
    }
    if (!(mind < len - 1) || mind == 0) mind = 1;
    Group g; size_t budget = 80, serial = 0; NameCfg nc; nc.collide = false; nc.multi = true; nc.max_opts = 1; nc.weird = c.chance(1, 10); nc.wild = c.chance(1, 10);
    gen_group(c, g, 0, len, mind, budget, serial, nc, c.chance(1, 4) ? len : 30);
    bool bad_name = false; each(g, [&](const Group&, const Opt& o) { for (auto& l : o.longs) if (l.find('\0') != l.npos) bad_name = true; if (!o.shrt.empty() && o.shrt[1] == 0) bad_name = true; }); if (bad_name) c.discard();
    unsigned width = 0; if (c.chance(1, 4)) width = 1 + unsigned(c.below(len - 2));
    size_t col = width ? width : column(g);
    bool fits = true; std::function<void(const Group&)> chk = [&](const Group& x) { if (col + 1 >= x.len) fits = false; for (auto& s : x.sub) chk(s); }; chk(g); if (!fits) c.discard();
    fill(c, g, col);
    c.key(uint64_t(len) << 32 | mind); c.key(width);
    string want; bool tabs = false;
    try { want = text(g, col); } catch (TwoTabs&) { tabs = true; }
    c.key(want); if (tabs) each(g, [&](const Group&, const Opt& o) { c.key(o.desc); });
    bool watched = c.chance(1, 4); if (watched) c.label("printed while describing");
    po::options_description d(g.caption, len, mind); build(g, d, [&](const po::options_description& x) { if (watched && c.coin()) { if (c.coin()) x.get_option_column_width(); else { std::ostringstream o; catch_err([&] { x.print(o, width); }); } } });
    if (c.describing()) { c.out() << "line length " << len << ", minimum description length " << mind << (width ? ", width " + std::to_string(width) : "") << "\n"; std::function<void(const Group&, string)> dump = [&](const Group& x, string ind) { c.out() << ind << "group " << pbt::esc(x.caption) << " line length " << x.len << "\n"; for (auto& o : x.own) c.out() << ind << "  " << o.show() << " description " << (o.has_desc ? pbt::esc(o.desc) : "none") << "\n"; for (auto& s : x.sub) dump(s, ind + "  "); }; dump(g, ""); }
    string got; std::ostringstream os; if (c.chance(1, 8)) { os.fill('*'); os << std::left << std::hex << std::boolalpha << std::uppercase; }
    if (d.get_option_column_width() != column(g)) c.fail("get_option_column_width() is " + std::to_string(d.get_option_column_width()) + " instead of " + std::to_string(column(g)));
    Caught k = catch_err([&] { if (width || c.coin()) d.print(os, width); else os << d; });
    if (tabs) {
        c.label("two tabs in a paragraph");
        if (!k.threw || k.e.cls != "error" || k.e.what != "Only one tab per paragraph is allowed in the options description") c.fail("two tabs in a paragraph were not reported" + (k.threw ? ": " + k.e.show() : string()));
        return;
    }
    if (k.threw) c.fail("unexpected " + k.e.show());
    got = os.str();
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; c.fail("printed\n" + got + "\ninstead of\n" + want + "\n(first difference at byte " + std::to_string(i) + ")"); }
    if (!width) { // each option's own accessors make up the column
        for (auto& o : d.options()) { string h = "  " + o->format_name() + " " + o->format_parameter(); if (got.find(h) == got.npos) c.fail(pbt::esc(h) + " is not shown"); }
    }
    // again, and for a copy, and after use for parsing and storing
    { std::ostringstream o2; d.print(o2, width); if (o2.str() != got) c.fail("printing again gives something else"); }
    { po::options_description e(d); std::ostringstream o2; e.print(o2, width); if (o2.str() != got) c.fail("a copy prints differently"); }
    if (c.chance(1, 4)) { vector<string> t = {"--" + string(1, char('a' + c.below(26)))}; po::variables_map vm; catch_err([&] { po::store(po::command_line_parser(t).options(d).allow_unregistered().run(), vm); po::notify(vm); }); std::ostringstream o2; d.print(o2, width); if (o2.str() != got) c.fail("printing after parsing gives something else"); }

    // what readers rely on, independently of the formatter above
    bool wrapped = false, below = false, hung = false, broken = false; size_t nopts = count_opts(g);
    each(g, [&](const Group& x, const Opt& o) {
        string s = one(o, col, x.len), h = head(o); size_t pos = got.find(s); if (pos == got.npos || (pos && got[pos - 1] != '\n')) c.fail("the entry of " + pbt::esc(o.names()) + " is missing");
        if (h.find('\n') != h.npos) return;
        if (!o.has_desc || o.desc.empty()) { if (s != h + "\n") c.fail("entry"); return; }
        vector<string> ls = split(s, '\n'); ls.pop_back(); size_t from = 0; if (h.size() >= col) { below = true; from = 1; }
        string bare; for (char ch : o.desc) if (ch != ' ' && ch != '\n' && ch != '\t') bare += ch;
        string seen; if (ls.size() > from + 1) wrapped = true;
        for (size_t i = from; i < ls.size(); ++i) {
            if (ls[i].size() > x.len - 1) c.fail("a line of " + std::to_string(ls[i].size()) + " characters");
            if (i > from || from) for (size_t q = 0; q < col && q < ls[i].size(); ++q) if (ls[i][q] != ' ') c.fail("text left of the description column");
            if (ls[i].size() >= col) for (char ch : ls[i].substr(col)) if (ch != ' ') seen += ch;
            if (ls[i].size() > col + 1 && ls[i][col] == ' ' && ls[i][col + 1] == ' ' && i > from) hung = true;
        }
        if (seen != bare) c.fail("the description characters " + pbt::esc(bare) + " appear as " + pbt::esc(seen));
        for (auto& w : split(o.desc, ' ')) if (w.size() >= x.len - 1 - col) broken = true;
    });
    if (wrapped) c.label("wrapped"); if (below) c.label("description below its option"); if (hung) c.label("indented"); if (broken) c.label("word longer than a line"); if (!g.sub.empty()) c.label("groups"); if (width) c.label("width given"); if (len < 23) c.label("narrow"); if (nopts > 12) c.label("many options");
    if (nopts >= 2 && (wrapped || below || !g.sub.empty())) c.nontrivial();
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P16"; P.run = run; P.quick = 60000; P.thorough = 6000000;
    P.rule = "nested groups of options with random names, parameters, captions, line lengths, description lengths and widths, and descriptions with lengths and breaks around the line end, tabs, paragraphs and long words; the printed text must equal that of a reference formatter, and separately keep the column, the line length and every character. Non-trivial: at least two options and a wrapped description, a description below its option, or a group";
    P.pinned = {[](Ctx& c) { for (unsigned n = 30; n < 46; ++n) { po::options_description d("o", 60, 20); string s = string(n, 'x') + "\t" + "tail words"; d.add_options()("foo", s.c_str()); std::ostringstream os; os << d; if (os.str().find(string(20, 'x')) == string::npos) c.fail("tab at the end of a line"); } }};
    return pbt::engine_main(argc, argv, P);
}
