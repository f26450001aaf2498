#include "model.hpp"
#include <boost/lexical_cast.hpp>
#include <algorithm>
#include <cctype>
#include <cstring>

namespace t {

const char *T_UNKNOWN = "unrecognised option '%canonical_option%'",
  *T_AMBIG = "option '%canonical_option%' is ambiguous",
  *T_MISSING = "the required argument for option '%canonical_option%' is missing",
  *T_EXTRA = "option '%canonical_option%' does not take any arguments",
  *T_EMPTYADJ = "the argument for option '%canonical_option%' should follow immediately after the equal sign",
  *T_LINE = "the options configuration file contains an invalid line '%invalid_line%'",
  *T_MULTIOCC = "option '%canonical_option%' cannot be specified more than once",
  *T_MULTIVAL = "option '%canonical_option%' only takes a single argument",
  *T_ATLEAST = "option '%canonical_option%' requires at least one argument",
  *T_BOOL = "the argument ('%value%') for option '%canonical_option%' is invalid. Valid choices are 'on|off', 'yes|no', '1|0' and 'true|false'",
  *T_BADVAL = "the argument ('%value%') for option '%canonical_option%' is invalid",
  *T_REQUIRED = "the option '%canonical_option%' is required but missing",
  *T_TOOMANY = "too many positional options have been specified on the command line";

string Err::show() const { return cls + (kind >= 0 ? "/" + std::to_string(kind) : "") + (alts.empty() ? "" : " alternatives " + pbt::esc(alts)) + (what.empty() ? "" : " what=" + pbt::esc(what)); }

Caught catch_err(const std::function<void()>& f)
{
    Caught c;
    auto set = [&](const char* cls, const std::exception& e, int kind = -1) { c.threw = true; c.e.cls = cls; c.e.kind = kind; c.e.what = e.what(); };
    try { f(); }
    catch (const po::invalid_config_file_syntax& e) { set("invalid_config_file_syntax", e, e.kind()); }
    catch (const po::invalid_command_line_syntax& e) { set("invalid_command_line_syntax", e, e.kind()); }
    catch (const po::invalid_syntax& e) { set("invalid_syntax", e, e.kind()); }
    catch (const po::invalid_option_value& e) { set("invalid_option_value", e, e.kind()); }
    catch (const po::invalid_bool_value& e) { set("invalid_bool_value", e, e.kind()); }
    catch (const po::validation_error& e) { set("validation_error", e, e.kind()); }
    catch (const po::unknown_option& e) { set("unknown_option", e); }
    catch (const po::ambiguous_option& e) { set("ambiguous_option", e); c.e.alts = e.alternatives(); }
    catch (const po::required_option& e) { set("required_option", e); }
    catch (const po::multiple_occurrences& e) { set("multiple_occurrences", e); }
    catch (const po::multiple_values& e) { set("multiple_values", e); }
    catch (const po::error_with_option_name& e) { set("error_with_option_name", e); }
    catch (const po::too_many_positional_options_error& e) { set("too_many_positional_options_error", e); }
    catch (const po::invalid_command_line_style& e) { set("invalid_command_line_style", e); }
    catch (const po::reading_file& e) { set("reading_file", e); }
    catch (const po::error& e) { set("error", e); }
    catch (const boost::bad_lexical_cast& e) { set("bad_lexical_cast", e); }
    catch (const boost::bad_any_cast& e) { set("bad_any_cast", e); }
    catch (const std::logic_error& e) { set("logic_error", e); }
    return c;
}
bool same_class(const Err& m, const Err& r)
{
    if (m.cls != r.cls || m.kind != r.kind) return false;
    if (m.cls == "ambiguous_option") { auto a = m.alts, b = r.alts; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
    return true;
}

static string prefix_text(int style)
{
    if (style == st::allow_long) return "--";
    if (style == st::allow_long_disguise || style == st::allow_dash_for_short) return "-";
    if (style == st::allow_slash_for_short) return "/";
    return "";
}
static string strip(const string& s) { size_t i = 0; while (i < s.size() && (s[i] == '-' || s[i] == '/')) ++i; return i == s.size() ? s : s.substr(i); }
string canonical_name(const MsgCtx& c)
{
    if (c.option.empty()) return c.token;
    string o = strip(c.option), k = strip(c.token), p = prefix_text(c.style);
    if (c.style == st::allow_long || c.style == st::allow_long_disguise) return p + o;
    if (c.style != 0 && !k.empty()) return p + k[0];
    return o;
}
string render(string t, const MsgCtx& c)
{
    auto sub = [&](const string& a, const string& b) { size_t i = t.find(a); if (i != t.npos) t.replace(i, a.size(), b); };
    string n = canonical_name(c);
    if (n.empty()) sub("option '%canonical_option%'", "option");
    if (c.value.empty()) sub("argument ('%value%')", "argument");
    // single pass, from the right: what is substituted is never looked at again
    struct S { const char* p; const string* v; } ss[] = {{"%canonical_option%", &n}, {"%value%", &c.value}, {"%invalid_line%", &c.line}};
    vector<std::pair<size_t, int>> at;
    for (int i = 0; i < 3; ++i) { size_t p = t.find(ss[i].p); if (p != t.npos) at.push_back({p, i}); }
    std::sort(at.begin(), at.end());
    for (size_t k = at.size(); k-- > 0; ) t.replace(at[k].first, strlen(ss[at[k].second].p), *ss[at[k].second].v);
    return t;
}
static Err err(const char* cls, int kind, const char* tmpl, const MsgCtx& c) { Err e; e.cls = cls; e.kind = kind; e.what = render(tmpl, c); return e; }
static Err ambiguous(const string& token, int style, const vector<string>& alts)
{
    MsgCtx c; c.token = token; c.style = style;
    Err e = err("ambiguous_option", -1, T_AMBIG, c); e.alts = alts;
    if (style != st::allow_dash_for_short && style != st::allow_slash_for_short) {
        std::set<string> u(alts.begin(), alts.end()); string p = prefix_text(style);
        e.what += " and matches ";
        size_t i = 0;
        for (auto& a : u) {
            if (++i == u.size()) { if (u.size() > 1) e.what += "and "; else if (alts.size() > 1) e.what += "different versions of "; e.what += "'" + p + a + "'"; }
            else e.what += "'" + p + a + "', ";
        }
    }
    return e;
}
static Err unknown(const string& token) { MsgCtx c; c.token = token; return err("unknown_option", -1, T_UNKNOWN, c); }
static Err syntax(int kind, const string& option, const string& token, int style)
{
    MsgCtx c; c.option = option; c.token = token; c.style = style;
    return err("invalid_command_line_syntax", kind,
               kind == po::invalid_syntax::missing_parameter ? T_MISSING : kind == po::invalid_syntax::extra_parameter ? T_EXTRA : T_EMPTYADJ, c);
}

// ------------------------------------------------------------------ names
string lower(const string& s) { string r = s; for (auto& c : r) if (c >= 'A' && c <= 'Z') c = char(c - 'A' + 'a'); return r; }
static bool starts(const string& s, const string& p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; }

Found lookup(const vector<Opt>& opts, const string& name, bool approx, bool lci, bool sci)
{
    Found f; vector<size_t> full, part;
    if (name.empty()) return f;
    string ln = lci ? lower(name) : name, sn = sci ? lower(name) : name;
    for (size_t i = 0; i < opts.size(); ++i) {
        bool isfull = !opts[i].shrt.empty() && (sci ? lower(opts[i].shrt) : opts[i].shrt) == sn, ispart = false;
        for (auto& l0 : opts[i].longs) {
            string l = lci ? lower(l0) : l0;
            if (l.empty()) continue;
            if (l == ln) isfull = true;
            if (l.back() == '*' && starts(ln, l.substr(0, l.size() - 1))) ispart = true;
            if (approx && starts(l, ln)) ispart = true;
        }
        if (isfull) full.push_back(i); else if (ispart) part.push_back(i);
    }
    const vector<size_t>& win = full.empty() ? part : full;
    if (win.empty()) return f;
    if (win.size() > 1) { f.r = Found::ambiguous; for (size_t i : win) f.alts.push_back(key_of(opts[i], name)); return f; }
    f.r = Found::one; f.idx = win[0];
    return f;
}
string key_of(const Opt& o, const string& spelled)
{
    if (o.longs.empty()) return o.shrt;
    return o.longs[0].find('*') != string::npos ? spelled : o.longs[0];
}
string display_name(const Opt& o, int prefix)
{
    if (!o.longs.empty() && prefix == st::allow_long) return "--" + o.longs[0];
    if (!o.longs.empty() && prefix == st::allow_long_disguise) return "-" + o.longs[0];
    if (!o.shrt.empty() && prefix == st::allow_slash_for_short) return string("/") + o.shrt[1];
    if (!o.shrt.empty() && prefix == st::allow_dash_for_short) return string("-") + o.shrt[1];
    return o.longs.empty() ? o.shrt : o.longs[0];
}

// ------------------------------------------------------------------ command line
string POpt::show() const
{
    return "{" + (key.empty() ? "" : "key " + pbt::esc(key) + " ") + (pos >= 0 ? "pos " + std::to_string(pos) + " " : "") + "value " + pbt::esc(value) + " from " + pbt::esc(orig)
        + (unreg ? " UNREG" : "") + (ci ? " ci" : "") + "}";
}
string show(const vector<POpt>& v) { string s; for (auto& o : v) s += "\n    " + o.show(); return s; }
vector<POpt> from_real(const vector<po::option>& v)
{
    vector<POpt> r;
    for (auto& o : v) { POpt p; p.key = o.string_key; p.pos = o.position_key; p.value = o.value; p.orig = o.original_tokens; p.unreg = o.unregistered; p.ci = o.case_insensitive; r.push_back(p); }
    return r;
}
vector<POpt> from_real(const vector<po::woption>& v)
{
    vector<POpt> r;
    for (auto& o : v) { POpt p; p.key = o.string_key; p.pos = o.position_key; for (auto& w : o.value) p.value.push_back(ref_encode(w)); for (auto& w : o.original_tokens) p.orig.push_back(ref_encode(w)); p.unreg = o.unregistered; p.ci = o.case_insensitive; r.push_back(p); }
    return r;
}

uint64_t PosDesc::total() const { uint64_t n = 0; for (auto& x : e) { if (x.count == -1) return UINT_MAX; n += x.count; } return n; }
string PosDesc::name_at(uint64_t i) const { for (auto& x : e) { if (x.count == -1 || i < uint64_t(x.count)) return x.name; i -= x.count; } return ""; }
void PosDesc::build(po::positional_options_description& d) const { for (auto& x : e) d.add(x.name.c_str(), x.count); }

int canonical_prefix(int style)
{
    if (style == 0) style = st::default_style;
    for (int s : {int(st::allow_long), int(st::allow_long_disguise)}) if (style & s) return s;
    if (style & st::allow_short) for (int s : {int(st::allow_dash_for_short), int(st::allow_slash_for_short)}) if (style & s) return s;
    return 0;
}
const char* style_error(int s)
{
    if (s == 0) return nullptr;
    if ((s & (st::allow_long | st::allow_long_disguise)) && !(s & (st::long_allow_adjacent | st::long_allow_next))) return "long";
    if ((s & st::allow_short) && !(s & (st::short_allow_adjacent | st::short_allow_next))) return "short";
    if ((s & st::allow_short) && !(s & (st::allow_dash_for_short | st::allow_slash_for_short))) return "dash";
    return nullptr;
}
string style_show(int s)
{
    if (s == 0) return "0 (default)";
    static const struct { int b; const char* n; } nm[] = {{st::allow_long,"allow_long"},{st::allow_short,"allow_short"},{st::allow_dash_for_short,"allow_dash_for_short"},{st::allow_slash_for_short,"allow_slash_for_short"},{st::long_allow_adjacent,"long_allow_adjacent"},{st::long_allow_next,"long_allow_next"},{st::short_allow_adjacent,"short_allow_adjacent"},{st::short_allow_next,"short_allow_next"},{st::allow_sticky,"allow_sticky"},{st::allow_guessing,"allow_guessing"},{st::long_case_insensitive,"long_case_insensitive"},{st::short_case_insensitive,"short_case_insensitive"},{st::allow_long_disguise,"allow_long_disguise"}};
    string r; for (auto& x : nm) if (s & x.b) r += (r.empty() ? "" : "|") + string(x.n); return r;
}

namespace {
struct ModelThrow { Err e; bool sticky = false; };

// One syntactic interpretation of the token at position i.
struct Syn { vector<POpt> opts; size_t used = 0; bool stop = false; bool sticky = false, disguised = false, dos = false; };

class Parser {
public:
    Parser(const vector<string>& t, const ParseCfg& c, ParseTrace& tr) : T(t), C(c), O(*c.opts), tr(tr)
    {
        S = c.style ? c.style : int(st::default_style);
        guess = S & st::allow_guessing; lci = S & st::long_case_insensitive; sci = S & st::short_case_insensitive;
        pfx = canonical_prefix(S);
    }
    vector<POpt> run();
private:
    Found find(const string& n) const { return lookup(O, n, guess, lci, sci); }
    bool interpret(size_t i, bool alone, Syn& s);
    bool long_form(const string& tok, const string& orig, Syn& s);
    void finish(POpt& o, size_t& i, bool may_take, bool in_group);
    const vector<string>& T; const ParseCfg& C; const vector<Opt>& O; ParseTrace& tr;
    int S, pfx; bool guess, lci, sci;
};

bool Parser::long_form(const string& tok, const string& orig, Syn& s)
{
    if (tok.size() < 3 || tok[0] != '-' || tok[1] != '-') return false;
    string body = tok.substr(2), name = body, val; size_t eq = body.find('=');
    if (eq != string::npos) {
        name = body.substr(0, eq); val = body.substr(eq + 1);
        if (val.empty()) throw ModelThrow{syntax(po::invalid_syntax::empty_adjacent_parameter, name, name, pfx)};
    }
    if (name.empty()) return false;
    POpt o; o.key = name; if (!val.empty()) o.value.push_back(val); o.orig.push_back(orig);
    s.opts.push_back(o); s.used = 1;
    return true;
}

// Interprets the token at i.  With `alone`, only that token is visible (look-ahead).
bool Parser::interpret(size_t i, bool alone, Syn& s)
{
    const string& tok = alone ? T[i] : T[i];
    if (C.style_parser) {
        vector<string> one(1, tok);
        auto r = alone ? C.style_parser(one, 0) : C.style_parser(T, i);
        if (!r.first.empty() || r.second) { s.opts = r.first; s.used = r.second; return true; }
    }
    if (C.extra) {
        auto r = C.extra(tok);
        if (!r.first.empty()) { POpt o; o.key = r.first; if (!r.second.empty()) o.value.push_back(r.second); s.opts.push_back(o); s.used = 1; return true; }
    }
    bool dash1 = tok.size() >= 2 && tok[0] == '-' && tok[1] != '-', slash1 = tok.size() >= 2 && tok[0] == '/';
    if ((S & st::allow_long) && long_form(tok, tok, s)) return true;
    if ((S & st::allow_long_disguise) && (dash1 || (slash1 && (S & st::allow_slash_for_short)))) {
        string body = tok.substr(1);
        Found f = find(body.substr(0, body.find('=')));
        if (f.r == Found::ambiguous) throw ModelThrow{ambiguous(tok, pfx, f.alts)};
        if (f.r == Found::one && long_form("--" + body, tok, s)) { s.disguised = true; return true; }
    }
    if ((S & st::allow_short) && (S & st::allow_dash_for_short) && dash1) {
        for (size_t k = 1; k < tok.size(); ++k) {
            string name = string("-") + tok[k]; string rest = tok.substr(k + 1);
            Found f = lookup(O, name, false, false, sci);
            if (f.r == Found::ambiguous) throw ModelThrow{ambiguous(name, pfx, f.alts)};
            POpt o; o.key = name;
            if (f.r == Found::one && (S & st::allow_sticky) && O[f.idx].sem.max_tokens() == 0 && !rest.empty()) { s.opts.push_back(o); s.sticky = true; continue; }
            o.orig.push_back(tok); if (!rest.empty()) o.value.push_back(rest);
            s.opts.push_back(o); break;
        }
        s.used = 1; return true;
    }
    if ((S & st::allow_short) && (S & st::allow_slash_for_short) && slash1) {
        POpt o; o.key = string("-") + tok[1]; if (tok.size() > 2) o.value.push_back(tok.substr(2)); o.orig.push_back(tok);
        s.opts.push_back(o); s.used = 1; s.dos = true; return true;
    }
    if (tok == "--") {
        if (!alone) for (size_t k = i + 1; k < T.size(); ++k) { POpt o; o.value.push_back(T[k]); o.orig.push_back(T[k]); o.pos = INT_MAX; s.opts.push_back(o); }
        s.stop = true; s.used = T.size() - i;
        return !alone;
    }
    return false;
}

// Name resolution and arity; i is the index of the next unread token.
void Parser::finish(POpt& o, size_t& i, bool may_take, bool in_group)
{
    if (o.key.empty()) return;
    string ctx = o.orig.empty() ? o.key : o.orig[0];
    Found f = find(o.key);
    if (f.r == Found::ambiguous) throw ModelThrow{ambiguous(ctx, pfx, f.alts)};
    if (f.r == Found::none) {
        if (C.allow_unreg) { o.unreg = true; tr.unreg = true; return; }
        throw ModelThrow{unknown(ctx)};
    }
    const Opt& d = O[f.idx];
    string spelled = o.key; o.key = key_of(d, spelled);
    { bool exact = spelled == d.shrt; for (auto& l : d.longs) exact |= l == spelled;
      if (!exact) { if (d.wild()) tr.wild = true; else { string ls = lower(spelled); bool c = ls == lower(d.shrt); for (auto& l : d.longs) c |= lower(l) == ls; (c ? tr.cased : tr.guessed) = true; } } }
    uint64_t lo = d.sem.min_tokens(), hi = d.sem.max_tokens(), have = o.value.size(), rest = may_take ? T.size() - i : 0;
    auto syn = [&](int kind) { ModelThrow m{syntax(kind, o.key, ctx, pfx)}; m.sticky = in_group; return m; };
    if (have + rest < lo) throw syn(po::invalid_syntax::missing_parameter);
    if (have > 0 && hi == 0) throw syn(po::invalid_syntax::extra_parameter);
    if (have) tr.adjacent = true; else if (lo == 0 && hi > 0) tr.implicit = true;
    while (o.value.size() < lo && may_take && i < T.size()) {
        Syn s;
        if (interpret(i, true, s) && !s.opts.empty()) {
            Found g = find(T[i]);     // the whole token as a name
            if (g.r == Found::ambiguous) throw ModelThrow{ambiguous(T[i], pfx, g.alts)};
            if (g.r == Found::one) throw syn(po::invalid_syntax::missing_parameter);
        }
        o.value.push_back(T[i]); o.orig.push_back(T[i]); ++i; tr.next = true;
    }
}

vector<POpt> Parser::run()
{
    vector<POpt> out;
    for (size_t i = 0; i < T.size(); ) {
        Syn s;
        if (interpret(i, false, s)) {
            if (s.sticky) tr.sticky = true; if (s.disguised) tr.disguised = true; if (s.dos) tr.dos = true;
            if (s.stop && s.opts.size()) tr.terminator = true;
            i += s.used;
            for (size_t k = 0; k < s.opts.size(); ++k) finish(s.opts[k], i, k + 1 == s.opts.size(), s.sticky);
            out.insert(out.end(), s.opts.begin(), s.opts.end());
        } else {
            POpt o; o.value.push_back(T[i]); o.orig.push_back(T[i]); out.push_back(o); ++i; tr.positional = true;
        }
    }
    // options which may take more values take the plain tokens following them
    vector<POpt> res;
    for (size_t i = 0; i < out.size(); ++i) {
        res.push_back(out[i]);
        POpt& o = res.back();
        if (o.key.empty()) continue;
        Found f = find(o.key);
        if (f.r == Found::ambiguous) throw ModelThrow{ambiguous(o.orig.empty() ? o.key : o.orig[0], pfx, f.alts)};
        if (f.r == Found::none) continue;
        uint64_t lo = O[f.idx].sem.min_tokens(), hi = O[f.idx].sem.max_tokens();
        if (lo >= hi) continue;
        while (o.value.size() < hi && i + 1 < out.size() && out[i + 1].key.empty() && out[i + 1].pos != INT_MAX) {
            ++i; o.value.push_back(out[i].value.at(0)); o.orig.push_back(out[i].orig.at(0)); tr.grabbed = true;
        }
    }
    int n = 0;
    for (auto& o : res) if (o.key.empty()) o.pos = n++;
    if (C.pos) {
        uint64_t k = 0;
        for (auto& o : res) if (o.pos != -1) {
            if (k >= C.pos->total()) { Err e; e.cls = "too_many_positional_options_error"; e.what = T_TOOMANY; throw ModelThrow{e}; }
            o.key = C.pos->name_at(k++);
        }
    }
    for (auto& o : res) { bool is_long = o.key.size() > 2 || (o.key.size() == 2 && o.key[0] != '-'); o.ci = is_long ? lci : sci; }
    return res;
}
} // namespace

ParseResult model_parse(const vector<string>& tokens, const ParseCfg& cfg)
{
    ParseResult r;
    try { Parser p(tokens, cfg, r.tr); r.opts = p.run(); }
    catch (const ModelThrow& m) { r.ok = false; r.err = m.e; r.tr.sticky_error = m.sticky; }
    return r;
}

// ------------------------------------------------------------------ configuration files
static string trim(const string& s)
{
    auto ws = [](char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; };
    size_t a = 0, b = s.size(); while (a < b && ws(s[a])) ++a; while (b > a && ws(s[b - 1])) --b; return s.substr(a, b - a);
}
CfgResult model_config(const string& text, const vector<Opt>& opts, bool allow_unreg)
{
    CfgResult r;
    auto bad = [&](const char* cls, const string& what = "") { r.ok = false; r.err.cls = cls; r.err.what = what; r.opts.clear(); return r; };
    vector<string> exact, prefixes;
    for (auto& o : opts) if (o.longs.empty()) return bad("error", "abbreviated option names are not permitted in options configuration files");
    for (auto& o : opts) exact.push_back(o.longs[0]);
    std::sort(exact.begin(), exact.end()); exact.erase(std::unique(exact.begin(), exact.end()), exact.end());
    for (auto& n : exact) if (n.back() == '*') prefixes.push_back(n.substr(0, n.size() - 1));
    for (size_t i = 0; i < prefixes.size(); ++i) for (size_t j = 0; j < prefixes.size(); ++j) if (i != j && starts(prefixes[i], prefixes[j])) return bad("error");
    string section;
    for (size_t at = 0; at < text.size(); ) {
        size_t nl = text.find('\n', at); string line = text.substr(at, nl == string::npos ? nl : nl - at); at = nl == string::npos ? text.size() : nl + 1;
        ++r.lines;
        size_t h = line.find('#'); if (h != string::npos) { line.resize(h); r.comments = true; }
        line = trim(line);
        if (line.empty()) continue;
        if (line[0] == '[' && line.back() == ']') { section = line.size() >= 2 ? line.substr(1, line.size() - 2) : ""; if (section.empty() || section.back() != '.') section += '.'; r.sections = true; continue; }
        size_t eq = line.find('=');
        if (eq == string::npos) { r.ok = false; MsgCtx c; c.line = line; r.err = err("invalid_config_file_syntax", po::invalid_syntax::unrecognized_line, T_LINE, c); r.opts.clear(); return r; }
        string name = section + trim(line.substr(0, eq)), value = trim(line.substr(eq + 1));
        bool known = std::find(exact.begin(), exact.end(), name) != exact.end();
        if (!known) for (auto& p : prefixes) if (name.size() > p.size() && starts(name, p)) { known = true; r.wild = true; }
        if (!known && !allow_unreg) { r.ok = false; r.err = unknown(name); r.opts.clear(); return r; }
        POpt o; o.key = name; o.value.push_back(value); o.orig = {name, value}; o.unreg = !known; if (!known) r.unreg = true;
        r.opts.push_back(o);
    }
    return r;
}

// ------------------------------------------------------------------ environment
string prefix_map(const string& p, const string& n) { return starts(n, p) ? lower(n.substr(p.size())) : string(); }
vector<POpt> model_env(const vector<string>& env, const std::function<string(string)>& mapper)
{
    vector<POpt> r;
    for (auto& e : env) {
        size_t eq = e.find('='); if (eq == string::npos) continue;
        string k = mapper(e.substr(0, eq)); if (k.empty()) continue;
        POpt o; o.key = k; o.value.push_back(e.substr(eq + 1)); r.push_back(o);
    }
    return r;
}

// ------------------------------------------------------------------ storage
static bool ascii(const string& s) { for (unsigned char c : s) if (c > 127) return false; return true; }
template<class T> static bool lex(const string& s, string& out) { T v; if (!boost::conversion::try_lexical_convert(s, v)) return false; out = std::to_string(v); return true; }

namespace {
struct ConvThrow { string cls; int kind; string value; };
void one(Kind k, const string& s, string& out, bool wide, bool localized)
{
    auto badvalue = [&] { string v = s; if (wide && !ascii(s) && !localized) v = "<unrepresentable unicode string>"; return ConvThrow{"invalid_option_value", po::validation_error::invalid_option_value, v}; };
    switch (k) {
    case KInt: case KVecInt: case KOptInt: if (!lex<int>(s, out)) throw badvalue(); break;
    case KWInt: { wstring w; ref_decode(s, w); int v; if (!boost::conversion::try_lexical_convert(w, v)) throw badvalue(); out = std::to_string(v); break; }
    case KUnsigned: if (!lex<unsigned>(s, out)) throw badvalue(); break;
    case KLongLong: if (!lex<long long>(s, out)) throw badvalue(); break;
    case KDouble: { double v; if (!boost::conversion::try_lexical_convert(s, v)) throw badvalue(); char b[64]; snprintf(b, sizeof b, "%.17g", v); out = b; break; }
    case KChar: if (s.size() != 1) throw badvalue(); out = s; break;
    case KColor: case KVecColor: if (s != "red" && s != "green" && s != "dark blue") throw ConvThrow{"validation_error", po::validation_error::invalid_option_value, ""}; out = s; break;
    case KBool: case KSwitch: {
        string l = lower(s);
        if (l.empty() || l == "on" || l == "yes" || l == "1" || l == "true") out = "true";
        else if (l == "off" || l == "no" || l == "0" || l == "false") out = "false";
        else throw ConvThrow{"invalid_bool_value", po::validation_error::invalid_bool_value, l};
        break; }
    default: out = s;
    }
}
void conv(const Sem& s, MV& v, const vector<string>& toks, bool wide, bool localized)
{
    if (s.kind == KArity) { if (!v.has) v = make_mv(KArity, {}); v.e.insert(v.e.end(), toks.begin(), toks.end()); return; }
    if (s.kind == KUntyped0 || s.kind == KUntyped1) {
        if (v.has) throw ConvThrow{"multiple_occurrences", -1, ""};
        if (toks.size() > 1) throw ConvThrow{"multiple_values", -1, ""};
        v = make_mv(s.kind, {toks.empty() ? "" : toks[0]}); return;
    }
    if (toks.empty() && s.has_impl) { v = s.impl_value(); return; }
    if (s.is_vec()) {
        if (!v.has) v = make_mv(s.kind, {});
        for (auto& x : toks) { string o; one(s.kind, x, o, wide, localized); v.e.push_back(o); }
        return;
    }
    if (v.has) throw ConvThrow{"multiple_occurrences", -1, ""};
    if (toks.size() > 1) throw ConvThrow{"validation_error", po::validation_error::multiple_values_not_allowed, ""};
    if (toks.empty() && s.kind != KBool && s.kind != KSwitch) throw ConvThrow{"validation_error", po::validation_error::at_least_one_value_required, ""};
    string o; one(s.kind, toks.empty() ? string() : toks[0], o, wide, localized);
    v = make_mv(s.kind, {o});
}
} // namespace

StoreResult model_convert(const Sem& s, MV& v, const vector<string>& tokens, bool utf8, bool localized)
{
    StoreResult r;
    // character set conversion comes first
    for (auto& x : tokens) {
        wstring w; bool bad = false;
        if (utf8) { if (!ref_decode(x, w)) bad = true; else if (!s.is_wide() && !ascii(x) && !localized) bad = true; }
        else if (s.is_wide()) { if (localized ? !ref_decode(x, w) : !ascii(x)) bad = true; }
        if (bad) { r.ok = false; r.err.cls = "logic_error"; return r; }
    }
    try { conv(s, v, tokens, s.is_wide(), localized); }
    catch (const ConvThrow& c) { r.ok = false; r.err.cls = c.cls; r.err.kind = c.kind; r.ctx.value = c.value; }
    return r;
}

static const char* tmpl_of(const Err& e)
{
    if (e.cls == "multiple_occurrences") return T_MULTIOCC;
    if (e.cls == "multiple_values" || e.kind == po::validation_error::multiple_values_not_allowed) return T_MULTIVAL;
    if (e.kind == po::validation_error::at_least_one_value_required) return T_ATLEAST;
    if (e.cls == "invalid_bool_value") return T_BOOL;
    return T_BADVAL;
}

StoreResult model_store(VM& vm, const vector<POpt>& popts, const vector<Opt>& opts, int prefix, bool utf8, bool localized)
{
    StoreResult r; std::set<string> fresh;
    for (auto& p : popts) {
        if (p.key.empty() || p.unreg || vm.final_.count(p.key)) continue;
        string tok = p.orig.empty() ? string() : p.orig[0];
        Found f = lookup(opts, p.key, false, false, false);
        if (f.r == Found::none && p.ci) f = lookup(opts, p.key, false, true, true);
        if (f.r == Found::none) { r.ok = false; r.err = unknown(tok); return r; }
        if (f.r == Found::ambiguous) { r.ok = false; r.err = ambiguous(tok, prefix, f.alts); return r; }
        VM::V& v = vm.m[p.key];
        if (v.defaulted) v = VM::V();
        StoreResult c = model_convert(opts[f.idx].sem, v.v, p.value, utf8, localized);
        if (!c.ok) {
            c.ctx.option = p.key; c.ctx.token = tok; c.ctx.style = prefix;
            if (c.err.cls != "logic_error") c.err.what = render(tmpl_of(c.err), c.ctx);
            return c;
        }
        v.sem = int(f.idx); v.opts = &opts;
        if (!opts[f.idx].sem.composing) fresh.insert(p.key);
    }
    vm.final_.insert(fresh.begin(), fresh.end());
    for (size_t i = 0; i < opts.size(); ++i) {
        string k = key_of(opts[i], "");
        if (k.empty()) continue;
        if (!vm.m.count(k)) { MV d = opts[i].sem.def_value(); if (d.has) { VM::V v; v.v = d; v.defaulted = true; v.sem = int(i); v.opts = &opts; vm.m[k] = v; } }
        if (opts[i].sem.required) { string n = display_name(opts[i], prefix); string& cur = vm.required[k]; if (n.size() > cur.size()) cur = n; }
    }
    return r;
}
StoreResult model_notify_check(const VM& vm)
{
    StoreResult r;
    for (auto& q : vm.required) {
        auto i = vm.m.find(q.first);
        if (i == vm.m.end() || !i->second.v.has) { r.ok = false; MsgCtx c; c.token = q.second; r.err.cls = "required_option"; r.err.what = render(T_REQUIRED, c); return r; }
    }
    return r;
}

string diff_vm(const VM& model, const po::variables_map& real)
{
    string d;
    for (auto& kv : model.m) {
        auto i = real.find(kv.first);
        if (i == real.end()) { d += "  missing " + pbt::esc(kv.first) + " expected " + kv.second.v.show() + "\n"; continue; }
        MV a = any_to_mv(i->second.value());
        if (a != kv.second.v) d += "  " + pbt::esc(kv.first) + ": expected " + kv.second.v.show() + ", got " + a.show() + "\n";
        if (i->second.defaulted() != kv.second.defaulted) d += "  " + pbt::esc(kv.first) + ": defaulted() is " + (i->second.defaulted() ? "true" : "false") + "\n";
        if (i->second.empty() != !kv.second.v.has) d += "  " + pbt::esc(kv.first) + ": empty() is wrong\n";
        if (real.count(kv.first) != 1) d += "  count() is wrong for " + pbt::esc(kv.first) + "\n";
    }
    for (auto& kv : real) if (!model.m.count(kv.first)) d += "  unexpected " + pbt::esc(kv.first) + " = " + any_to_mv(kv.second.value()).show() + "\n";
    return d;
}

} // namespace t
