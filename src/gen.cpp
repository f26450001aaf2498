#include "gen.hpp"
#include <algorithm>
#include <cstdio>

namespace t {

static const string LOW = "abcdefghijklmnopqrstuvwxyz", ALNUM = "abcxyzABCXYZ019-_.";

string flip_case(Ctx& c, const string& s)
{
    string r = s; unsigned mode = unsigned(c.below(3));
    for (auto& ch : r) {
        if (mode == 0) ch = char(toupper((unsigned char)ch));
        else if (mode == 1) ch = char(tolower((unsigned char)ch));
        else if (c.coin() && isalpha((unsigned char)ch)) ch = char(ch ^ 0x20);
    }
    return r;
}

string gen_long_name(Ctx& c, const NameCfg& n)
{
    string s;
    if (n.plain) { s = string(1, c.chr(LOW)); size_t k = 2 + c.size(6, 300); s += c.str("abcdefghijklmnopqrstuvwxyz0123456789-", k); return s; }
    switch (c.weighted({50, 20, 10, n.weird ? 12u : 0u, 5})) {
    case 0: s = c.str("ab", 1 + c.size(4, 40)); break;
    case 1: { size_t big = c.huge(400); s = c.str(ALNUM, big ? big : 2 + c.size(6, 300)); break; }
    case 2: { static const vector<string> w = {"foo", "foobar", "Foo", "bar", "help", "version", "all", "all-chroots", "verbose", "input-file", "output", "compression", "include-path", "a.b", "gui.width", "no-foo", "o", "x"}; s = c.pick(w); break; }
    case 3: s = c.str("ab =*/-.#[]%\"'\\\xc3\xa9\xff;:!", 1 + c.size(4, 60)); break;
    default: s = c.pick(pbt::g_dict); break;
    }
    for (auto& ch : s) if (ch == ',' || ch == '*' || ch == '\0') ch = 'q';
    if (s.empty()) s = "e";
    return s;
}
string gen_short(Ctx& c, const NameCfg& n)
{
    string s = "-";
    switch (c.weighted({60, 25, n.weird ? 15u : 0u})) {
    case 0: s += c.chr("abfovxc"); break;
    case 1: s += c.chr("ABFOVXC019?Zz-=/#.+_ *"); break;
    default: { char ch = char(1 + c.below(255)); if (ch == ',') ch = '+'; s += ch; }
    }
    return s;
}

vector<Opt> gen_names(Ctx& c, const NameCfg& n)
{
    vector<Opt> v; size_t count = c.below(n.max_opts) + 1;
    std::set<string> used; std::set<string> usedshort;
    unsigned collide = n.collide ? unsigned(c.weighted({60, 40})) : 0;   // is this a case with deliberate collisions?
    for (size_t i = 0; i < count; ++i) {
        Opt o;
        bool short_only = n.shorts && n.short_only && c.chance(1, 6);
        if (!short_only) {
            size_t k = n.multi && c.chance(1, 6) ? 2 + c.below(2) : 1;
            while (o.longs.size() < k) {
                string s;
                if (collide && !v.empty() && c.chance(1, 3)) {
                    const Opt& b = v[c.below(v.size())];
                    string base = b.longs.empty() ? "a" : b.longs[c.below(b.longs.size())];
                    while (!base.empty() && base.back() == '*') base.pop_back();
                    switch (c.below(4)) {
                    case 0: s = base + c.str("abA-", 1 + c.below(3)); break;
                    case 1: s = base.substr(0, 1 + c.below(base.size() + 1)); break;
                    case 2: s = flip_case(c, base); break;
                    default: s = base; break;
                    }
                    if (s.empty()) s = "a";
                } else s = gen_long_name(c, n);
                if (n.wild && c.chance(1, 7)) { if (c.chance(1, 6)) s = ""; s += '*'; }
                if (!n.collide || !collide) {
                    // distinct, also ignoring case
                    int t = 0; string s0 = s; while (used.count(lower(s))) { bool w = s0.size() && s0.back() == '*'; s = (w ? s0.substr(0, s0.size() - 1) : s0) + char('0' + t % 10) + (t >= 10 ? std::to_string(t) : "") + (w ? "*" : ""); ++t; }
                }
                used.insert(lower(s));
                o.longs.push_back(s);
            }
        }
        if (short_only || (n.shorts && c.chance(2, 5))) {
            string s = gen_short(c, n);
            if (!collide) { int t = 0; while (usedshort.count(lower(s))) s[1] = ("abcdefghijklmnopqrstuvwxyz0123456789@!"[t++ % 38]); }
            usedshort.insert(lower(s));
            o.shrt = s;
        }
        if (o.longs.empty() && o.shrt.empty()) o.shrt = "-z";
        // a single one-letter name after others would be taken as the switch
        if (o.shrt.empty() && o.longs.size() > 1 && o.longs.back().size() == 1) o.longs.back() += "w";
        v.push_back(o);
    }
    return v;
}

void add_bulk(Ctx& c, vector<Opt>& o)
{
    size_t n = c.size(20, 200); string stem = c.pick({string("bulk"), string("opt-"), string("n")}); unsigned step = 1 + unsigned(c.below(3));
    for (size_t i = 0; i < n; ++i) {
        Opt x; x.longs.push_back(stem + std::to_string(1000 + i * step)); x.sem.kind = (i % 3 == 0) ? KUntyped0 : (i % 3 == 1) ? KString : KVecString;
        o.insert(o.begin() + c.below(o.size() + 1), x);
        if (i > 40) { for (size_t k = i + 1; k < n; ++k) { Opt y = x; y.longs[0] = stem + std::to_string(1000 + k * step); o.push_back(y); } break; }
    }
}

string gen_int_text(Ctx& c)
{
    switch (c.weighted({50, 15, 15, 10, 10})) {
    case 0: return std::to_string(int64_t(c.below(200)) - 50);
    case 1: { static const vector<string> w = {"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "65535", "65536", "0", "-0", "+5", "-1"}; return c.pick(w); }
    case 2: { uint64_t v = (c.below(1u << 16) << 16) | c.below(1u << 16); return std::to_string(int32_t(v)); }
    case 3: { static const vector<string> w = {"", " 1", "1 ", "0x10", "1e3", "1.5", "abc", "--1", "1,000", "00012", "nan", "inf", "-"}; return c.pick(w); }
    default: return c.str("0123456789-+. x", c.size(6, 30));
    }
}

// Code points of the tag block are left out: glibc's wcsnrtombs aborts on them in the "C" locale (see DESIGN.md).
static uint32_t no_tag(uint32_t v) { return (v >> 7) == (0xE0000 >> 7) ? v + 0x80 : v; }
uint32_t gen_cp(Ctx& c)
{
    switch (c.weighted({30, 20, 20, 15, 15})) {
    case 0: return 1 + uint32_t(c.below(0x7f));
    case 1: return 0x80 + uint32_t(c.below(0x780));
    case 2: { uint32_t v = 0x800 + uint32_t(c.below(0xF7FF)); return v >= 0xD800 && v < 0xE000 ? 0x4E2D : v; }
    case 3: return no_tag(0x10000 + uint32_t(c.below(0x100000)));
    default: { static const vector<uint32_t> b = {0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xe9, 0x20ac, 0x1f600, 0xfeff}; return c.pick(b); }
    }
}
string gen_utf8(Ctx& c, size_t n) 
{
    string s; if (n > 48) { string blk; size_t m = 1 + c.below(5), got = 0; vector<string> cps; for (size_t i = 0; i < m; ++i) cps.push_back(ref_encode_cp(gen_cp(c)));
        while (got < n) s += cps[got++ % m]; return s; }
    for (size_t i = 0; i < n; ++i) s += ref_encode_cp(gen_cp(c));
    return s;
}

string gen_word(Ctx& c)
{
    switch (c.weighted({55, 15, 10, 10, 5, 5})) {
    case 0: { size_t big = c.huge(250); return c.str("abcxyz019._", big ? big : 1 + c.size(6, 200)); }
    case 1: return gen_int_text(c);
    case 2: { static const vector<string> w = {"true", "no", "on", "off", "red", "green", "dark blue", "10", "", "%value%", "%canonical_option%", "a=b", "x y", "file.txt", "%prefix%", "%", "%%"}; return c.pick(w); }
    case 3: return c.coin() ? c.bytes(c.size(5, 300)) : c.str(":=-/+,;@#\"'~!?&|.*%\\ ab1", 1 + c.size(4, 100));
    case 4: return c.pick(pbt::g_dict);
    default: return gen_utf8(c, c.size(4, 80));
    }
}

Sem gen_sem(Ctx& c, const SemCfg& g)
{
    Sem s;
    enum { U0, U1, STR, INT, VSTR, VINT, BOOL, SW, ARITY, NUM, OPT, COLOR, WIDE };
    unsigned w = c.weighted({18, 6, 16, 10, 14, 5, 5, 6, g.arity ? 8u : 0u, 5, 4, g.color ? 4u : 0u, g.wide ? 12u : 0u});
    switch (w) {
    case U0: s.kind = KUntyped0; return s;
    case U1: s.kind = KUntyped1; return s;
    case STR: s.kind = KString; break; case INT: s.kind = KInt; break; case VSTR: s.kind = KVecString; break; case VINT: s.kind = KVecInt; break;
    case BOOL: s.kind = KBool; break; case SW: s.kind = KSwitch; break;
    case ARITY: s.kind = KArity; s.amin = unsigned(c.below(4)); s.amax = c.chance(1, 4) ? ~0u : s.amin + unsigned(c.below(4)); s.composing = c.chance(1, 5); s.required = c.chance(1, 8); if (g.flags) s.notifier = c.coin(); return s;
    case NUM: s.kind = c.pick({KUnsigned, KLongLong, KDouble, KChar}); break;
    case OPT: s.kind = c.pick({KOptInt, KStdOptString}); break;
    case COLOR: s.kind = c.pick({KColor, KVecColor}); break;
    default: s.kind = c.pick({KWString, KWInt, KVecWString}); break;
    }
    if (!g.flags) return s;
    s.composing = c.chance(1, 6);
    s.required = c.chance(1, 8);
    s.notifier = c.coin(); s.store_to = c.coin();
    s.multi = s.kind == KSwitch ? false : s.is_vec() ? c.chance(1, 2) : c.chance(1, 20);
    if (s.kind == KSwitch) { if (c.chance(1, 6)) { s.has_def = true; s.def = {c.coin() ? "true" : "false"}; s.def_textual = c.coin(); s.def_text = "dflt"; } return s; }
    s.zero = c.chance(1, 20);
    auto value = [&](vector<string>& e) {
        size_t n = s.is_vec() ? c.below(4) : (s.kind == KOptInt || s.kind == KStdOptString) ? c.below(2) : 1;
        for (size_t i = 0; i < n; ++i) switch (s.kind) {
            case KString: case KVecString: case KStdOptString: e.push_back(gen_word(c)); break;
            case KWString: case KVecWString: e.push_back(gen_utf8(c, c.size(4, 50))); break;
            case KChar: e.push_back(string(1, char(33 + c.below(90)))); break;
            case KBool: e.push_back(c.coin() ? "true" : "false"); break;
            case KColor: case KVecColor: e.push_back(color_names[c.below(3)]); break;
            case KDouble: { char b[64]; double x = double(int64_t(c.below(4000)) - 2000) / 8; if (c.chance(1, 3)) x = c.coin() ? x * 1.0009765625 + 1.0 / 3 : x * 1e17; snprintf(b, sizeof b, "%.17g", x); e.push_back(b); break; }
            default: e.push_back(std::to_string(s.kind == KUnsigned ? int64_t(c.below(1000)) : int64_t(c.below(1000)) - 500)); break;
        }
    };
    bool only_textual = s.is_vec() || s.is_wide() || s.kind == KOptInt || s.kind == KStdOptString || s.kind == KColor;
    if (s.kind == KWInt) only_textual = false;
    if (c.chance(1, 4)) { s.has_def = true; value(s.def); s.def_textual = only_textual || c.chance(1, 4); if (s.def_textual) s.def_text = c.chance(1, 5) ? "" : c.str("abc 0", 1 + c.below(8)); }
    if (c.chance(s.zero ? 4 : 1, 5)) { s.has_impl = true; value(s.impl); s.impl_textual = only_textual || c.chance(1, 4); if (s.impl_textual) s.impl_text = c.chance(1, 5) ? "" : c.str("abc 0", 1 + c.below(8)); }
    if (c.chance(1, 8)) s.value_name = c.str("ABCn-_ ", 1 + c.size(8, 60));
    return s;
}
void gen_sems(Ctx& c, vector<Opt>& o, const SemCfg& s) { for (auto& x : o) x.sem = gen_sem(c, s); }

string gen_value_for(Ctx& c, Kind k, bool valid)
{
    if (!valid) return gen_word(c);
    switch (k) {
    case KInt: case KVecInt: case KOptInt: case KWInt: return std::to_string(int64_t(c.below(2000)) - 1000);
    case KUnsigned: return std::to_string(c.below(5000));
    case KLongLong: return std::to_string((int64_t(c.below(1u << 30)) << 20) - int64_t(c.below(1u << 20)));
    case KDouble: { static const vector<string> w = {"0", "1.5", "-2.25", "1e10", "3.141592653589793", "-0", "1e-300", "inf", "nan"}; return c.pick(w); }
    case KChar: return string(1, char(33 + c.below(94)));
    case KBool: case KSwitch: { static const vector<string> w = {"true", "false", "yes", "no", "on", "off", "1", "0"}; return flip_case(c, c.pick(w)); }
    case KColor: case KVecColor: return color_names[c.below(3)];
    case KWString: case KVecWString: return c.coin() ? c.str("abc", 1 + c.below(4)) : gen_utf8(c, 1 + c.size(4, 80));
    default: return gen_word(c);
    }
}

int gen_style(Ctx& c)
{
    int s = 0;
    switch (c.weighted({20, 15, 10, 15, 40})) {
    case 0: return 0;
    case 1: s = st::unix_style | st::case_insensitive; break;
    case 2: s = st::unix_style | st::allow_long_disguise; break;
    case 3: { s = st::unix_style; unsigned m = unsigned(c.below(64));
              if (m & 1) s |= st::allow_slash_for_short; if (m & 2) s |= st::allow_long_disguise; if (m & 4) s |= st::long_case_insensitive; if (m & 8) s |= st::short_case_insensitive; if (m & 16) s &= ~st::allow_guessing; if (m & 32) s &= ~st::allow_sticky; break; }
    default: s = int(c.below(1 << 13)); break;
    }
    if ((s & (st::allow_long | st::allow_long_disguise)) && !(s & (st::long_allow_adjacent | st::long_allow_next))) s |= c.coin() ? st::long_allow_adjacent : st::long_allow_next;
    if ((s & st::allow_short) && !(s & (st::short_allow_adjacent | st::short_allow_next))) s |= c.coin() ? st::short_allow_adjacent : st::short_allow_next;
    if ((s & st::allow_short) && !(s & (st::allow_dash_for_short | st::allow_slash_for_short))) s |= c.coin() ? st::allow_dash_for_short : st::allow_slash_for_short;
    return s;
}

string gen_spelling(Ctx& c, const vector<Opt>& opts, int style, bool& islong)
{
    int S = style ? style : int(st::default_style);
    islong = true;
    if (opts.empty()) return "--none";
    const Opt& o = opts[c.below(opts.size())];
    bool use_short = !o.shrt.empty() && (o.longs.empty() || c.coin());
    if (use_short) {
        islong = false; string s = o.shrt;
        if (c.chance(1, 6)) s = flip_case(c, s);
        if (c.chance(1, 5)) s[0] = '/';
        return s;
    }
    string n = o.longs[c.below(o.longs.size())];
    if (!n.empty() && n.back() == '*') { n.pop_back(); if (!c.chance(1, 5)) n += c.str("abXY-.1*", c.size(4, 40)); }
    if (c.chance((S & st::allow_guessing) ? 2 : 1, 6)) n = n.substr(0, c.below(n.size() + 1));
    if (c.chance((S & st::long_case_insensitive) ? 3 : 1, 8)) n = flip_case(c, n);
    if (c.chance(1, 15)) n += c.str("abz-", 1 + c.below(2));
    if (S & st::allow_long_disguise) { if (c.coin()) return (c.chance(1, 4) ? "/" : "-") + n; }
    return ((S & st::allow_long) || c.chance(2, 3) ? "--" : "-") + n;
}

vector<string> gen_tokens(Ctx& c, const vector<Opt>& opts, int style, size_t n)
{
    vector<string> t;
    while (t.size() < n) {
        bool islong;
        switch (c.weighted({26, 18, 12, 22, 8, 3, 5, 3, 3})) {
        case 0: t.push_back(gen_spelling(c, opts, style, islong)); break;
        case 1: { string s = gen_spelling(c, opts, style, islong); if (islong) s += '='; else if (c.chance(1, 6)) s += '='; s += gen_word(c); t.push_back(s); break; }
        case 2: { string s = "-"; size_t k = 1 + c.size(3, 30); for (size_t i = 0; i < k; ++i) { const Opt& o = opts.empty() ? Opt() : opts[c.below(opts.size())]; s += o.shrt.empty() ? c.chr("abz") : o.shrt[1]; } if (c.chance(1, 4)) s += c.str("019=", 1 + c.below(3)); t.push_back(s); break; }
        case 3: t.push_back(gen_word(c)); break;
        case 4: { string s = gen_spelling(c, opts, style, islong); t.push_back(s); t.push_back(gen_word(c)); break; }
        case 5: t.push_back("--"); break;
        case 6: { static const vector<string> w = {"", "-", "/", "--=", "--=x", "-=x", "=", "---", "/=", "-/", "//", "-=", "/-", "--a=", "-a=", "--=="}; t.push_back(c.pick(w)); break; }
        case 7: t.push_back(c.str("-/=ab*A ", c.size(6, 60))); break;
        default: { string s = gen_spelling(c, opts, style, islong); s += "="; t.push_back(s); break; }
        }
    }
    return t;
}

PosDesc gen_pos(Ctx& c, const vector<Opt>& o, bool defined)
{
    PosDesc p; size_t n = c.below(4);
    for (size_t i = 0; i < n; ++i) {
        PosDesc::E e;
        vector<string> names; for (auto& x : o) if (!x.wild()) names.push_back(x.longs.empty() ? x.shrt : x.longs[0]);
        if (names.empty() || (!defined && c.chance(1, 3))) e.name = c.pick({string("input"), string("file"), string("p"), string("ab")});
        else e.name = names[c.below(names.size())];
        if (defined && names.empty()) break;
        e.count = int(c.size(3, 40));
        if (i + 1 == n && c.chance(2, 5)) e.count = -1;
        p.e.push_back(e);
    }
    return p;
}

string gen_ws(Ctx& c) { return c.chance(1, 2) ? string() : c.str(" \t\r", 1 + c.size(2, 40)); }
string gen_config_name(Ctx& c, const vector<Opt>& opts)
{
    if (opts.empty()) return "x";
    const Opt& o = opts[c.below(opts.size())]; if (o.longs.empty()) return "x";
    string n = o.longs[0];
    if (n.back() == '*' && !c.chance(1, 8)) { n.pop_back(); if (!c.chance(1, 8)) n += c.str("abX.-1", 1 + c.size(3, 40)); }
    return n;
}
string gen_config(Ctx& c, const vector<Opt>& opts, bool loose, size_t lines)
{
    string t, section; string eol = c.chance(1, 6) ? "\r\n" : "\n";
    for (size_t i = 0; i < lines; ++i) {
        string l;
        switch (c.weighted({60, 12, 8, 6, loose ? 8u : 0u, loose ? 6u : 0u})) {
        case 0: {
            string n = gen_config_name(c, opts);
            if (loose && c.chance(1, 12)) { switch (c.below(4)) { case 0: n = flip_case(c, n); break; case 1: n = n.substr(0, c.below(n.size() + 1)); break; case 2: n += c.str("ab.", 1 + c.below(2)); break; default: n = gen_word(c); } }
            // say it relative to the current section if possible
            if (!section.empty() && n.compare(0, section.size(), section) == 0 && !(loose && c.chance(1, 6))) n = n.substr(section.size());
            else if (!section.empty() && c.chance(1, 2)) { size_t d = n.find('.'); if (d != string::npos && d > 0) { t += "[" + n.substr(0, d + (c.coin() ? 1 : 0)) + "]" + eol; section = n.substr(0, d + 1); n = n.substr(d + 1); } }
            string v = c.chance(1, 10) ? string() : gen_word(c);
            if (c.chance(1, 8)) v += c.pick({string("="), string(" b"), string("\t"), string("[x]"), string("\"q\"")}) + c.str("ab ", c.below(4));
            l = gen_ws(c) + n + gen_ws(c) + "=" + gen_ws(c) + v + gen_ws(c);
            break; }
        case 1: {
            string s = c.chance(1, 2) ? [&] { string n = gen_config_name(c, opts); size_t d = n.rfind('.'); return d == string::npos ? n : n.substr(0, d + (c.chance(1, 3) ? 1 : 0)); }() : c.pick({string("a"), string("gui"), string("a.b"), string(""), string("x."), string(" a"), string("a "), string("."), string("a]b")});
            l = gen_ws(c) + "[" + s + "]" + gen_ws(c); section = s; if (section.empty() || section.back() != '.') section += '.'; break; }
        case 2: l = gen_ws(c); break;
        case 3: l = "#" + gen_word(c); break;
        case 4: l = c.str("ab=[]#. \t\r*", c.size(8, 100)); break;
        default: l = c.pick({string("["), string("]"), string("[]"), string("=v"), string("="), string("[a"), string("a]"), string("[a]b"), string("[a]=b"), string("novalue"), string("[[a]]"), string("[ ]"), string("a#=b"), string("#[a]"), string("[a#]"), string("--foo=1")}); break;
        }
        if (c.chance(1, 8)) l += "#" + c.str("ab=[]# ", c.below(6));
        t += l; t += eol;
    }
    if (!t.empty() && c.chance(1, 4)) t.resize(t.size() - (c.coin() || t.size() < 2 ? 1 : eol.size()));
    return t;
}

vector<string> gen_line(Ctx& c, const vector<Opt>& opts, int style, size_t n, unsigned bad, bool positionals)
{
    vector<string> t; int S = style ? style : int(st::default_style); bool slash = S & st::allow_slash_for_short;
    vector<bool> given(opts.size());
    for (size_t i = 0; i < n && !opts.empty(); ++i) {
        if (positionals && c.chance(1, 5)) { string w = c.chance(1, 3) ? gen_int_text(c) : c.str("abcxyz01.", 1 + c.size(5, 60)); if (w.size() > 1 && (w[0] == '-' || (slash && w[0] == '/'))) w[0] = '1'; t.push_back(w); continue; }
        size_t oi = c.below(opts.size()); const Opt& o = opts[oi]; bool slip = c.below(100) < bad;
        // a second occurrence of a scalar is an error: only as a slip
        if (given[oi] && !slip && !o.sem.is_vec() && o.sem.kind != KArity && !o.wild()) continue;
        given[oi] = true;
        unsigned lo = o.sem.min_tokens(), hi = o.sem.max_tokens();
        size_t k = lo; if (hi > lo) k += c.below(std::min(hi - lo, 3u) + 1);
        if (slip && c.chance(1, 4)) k = c.below(4);
        string head; bool islong = true;
        if (!o.longs.empty() && (o.shrt.empty() || c.coin())) {
            string l = o.longs[c.below(o.longs.size())];
            if (l.back() == '*') { l.pop_back(); l += c.str("abX1", 1 + c.below(4)); }
            if ((S & st::long_case_insensitive) && c.chance(1, 4)) l = flip_case(c, l);
            if (slip && c.chance(1, 4)) l += "q";
            head = (S & st::allow_long) || !(S & st::allow_long_disguise) ? "--" + l : "-" + l;
        } else {
            islong = false; head = o.shrt; if (slash && (!(S & st::allow_dash_for_short) || c.chance(1, 3))) head[0] = '/';
            if ((S & st::short_case_insensitive) && c.chance(1, 4)) head = flip_case(c, head);
        }
        vector<string> vals; for (size_t j = 0; j < k; ++j) vals.push_back(gen_value_for(c, o.sem.kind, !(slip && c.chance(1, 2))));
        size_t from = 0;
        bool may_next = S & (islong ? st::long_allow_next : st::short_allow_next), may_adj = S & (islong ? st::long_allow_adjacent : st::short_allow_adjacent);
        if (k && !vals[0].empty() && may_adj && (!may_next || c.coin() || vals[0][0] == '-' || vals[0][0] == '/')) { head += (islong ? "=" : "") + vals[0]; from = 1; }
        t.push_back(head);
        for (size_t j = from; j < k; ++j) t.push_back(vals[j]);
    }
    return t;
}
string gen_good_config(Ctx& c, const vector<Opt>& opts, size_t n, unsigned bad)
{
    string t, section; std::set<const Opt*> given;
    for (size_t i = 0; i < n; ++i) {
        const Opt* o = nullptr; for (int k = 0; k < 4 && !o; ++k) { const Opt& x = opts[c.below(opts.size())]; if (!x.longs.empty()) o = &x; }
        if (!o) break;
        bool slip = c.below(100) < bad;
        if (!given.insert(o).second && !slip && !o->sem.is_vec() && o->sem.kind != KArity && !o->wild()) continue;
        string n2 = o->longs[0]; if (n2.back() == '*') { n2.pop_back(); n2 += c.str("abX1", 1 + c.below(4)); }
        if (slip && c.chance(1, 4)) n2 += "q";
        string v = o->sem.max_tokens() == 0 && !o->sem.typed() ? (slip ? "x" : "") : gen_value_for(c, o->sem.kind, !(slip && c.coin()));
        for (auto& ch : v) if (ch == '\n' || ch == '#') ch = '_';
        size_t d = n2.find('.');
        if (d != string::npos && d > 0 && section.empty() && c.chance(1, 3)) { section = n2.substr(0, d + 1); t += "[" + n2.substr(0, d) + "]\n"; }
        if (!section.empty()) { if (n2.compare(0, section.size(), section) != 0 || n2.size() == section.size()) continue; n2 = n2.substr(section.size()); }
        t += n2 + (c.coin() ? " = " : "=") + v + "\n";
        if (slip && c.chance(1, 8)) t += "garbage\n";
    }
    return t;
}

vector<Opt> only_long(const vector<Opt>& o) { vector<Opt> r; for (auto& x : o) if (!x.longs.empty()) r.push_back(x); return r; }
string join(const vector<string>& v, const string& sep) { string s; for (size_t i = 0; i < v.size(); ++i) { if (i) s += sep; s += v[i]; } return s; }

} // namespace t
