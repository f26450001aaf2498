// P29: a setting means the same from whichever source it comes, and settings written down read back as they were.
#include "common.hpp"
#include <algorithm>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
using namespace t; using pbt::Ctx;
extern char** environ;

namespace {
struct Set { size_t opt; string value; bool bare = false; };           // bare: the name alone (flags)
using Sets = vector<Set>;
enum Src { TOKENS, ARGV, WTOKENS, POSITIONAL, EXTRA, STYLE, FILE_, WFILE, FILENAME, ENV, ENVPREFIX, HAND, NSRC };
const char* const src_name[] = {"tokens", "argc and argv", "wide tokens", "positional tokens", "extra parser", "style parser", "configuration file", "wide configuration file", "named configuration file", "environment by mapper", "environment by prefix", "options made by hand"};

bool ascii(const string& s) { for (unsigned char ch : s) if (ch < 1 || ch > 126) return false; return true; }
bool fits(Src k, const vector<Opt>& v, const Sets& a)
{
    bool multi_run = false;
    for (size_t i = 0; i < a.size(); ++i) {
        const Set& s = a[i]; const Opt& o = v[s.opt]; bool adj_only = o.sem.has_impl;
        bool flag = o.sem.max_tokens() == 0;
        switch (k) {
        case WTOKENS: if (!ascii(s.value)) return false; // fall through
        case TOKENS: case ARGV: if (s.bare) break; if (flag) return false; if (s.value.empty() && adj_only) return false; if (s.value.find('\0') != string::npos) return false; break;
        case POSITIONAL: if (s.bare || flag || (!s.value.empty() && s.value[0] == '-')) return false; if (i && a[i - 1].opt != s.opt) multi_run = true; break;
        case EXTRA: if (s.bare || flag || s.value.empty() || s.value.find('\0') != string::npos) return false; break;
        case STYLE: if (flag && !s.bare) return false; break;
        case WFILE: if (!ascii(s.value)) return false; // fall through
        case FILE_: case FILENAME: if (s.value.find_first_of(string("#\n\r\0", 4)) != string::npos) return false; if (!s.value.empty() && (isspace((unsigned char)s.value[0]) || isspace((unsigned char)s.value.back()))) return false; break;
        case ENV: if (s.value.find('\0') != string::npos) return false; break;
        case ENVPREFIX: if (s.value.find('\0') != string::npos) return false; for (char ch : o.longs[0]) if (ch != (char)tolower((unsigned char)ch)) return false; break;
        default: break;
        }
    }
    (void)multi_run; return true;
}
string show(const vector<Opt>& v, const Sets& a) { string s; for (auto& x : a) s += " " + pbt::esc(v[x.opt].longs[0]) + (x.bare ? "" : "=" + pbt::esc(x.value)); return s.empty() ? " nothing" : s; }

size_t dot_of(const string& n) { size_t d = n.rfind('.'); return d == string::npos || d == 0 || d + 1 == n.size() || n[d - 1] == '.' ? string::npos : d; }
struct Env { char** old; vector<string> e; vector<char*> p; Env(vector<string> x) : old(environ), e(std::move(x)) { for (auto& s : e) p.push_back(&s[0]); p.push_back(nullptr); environ = p.data(); } ~Env() { environ = old; } };
struct MemFile { int fd; string name; MemFile(const string& s) { fd = memfd_create("cfg", 0); if (fd < 0) _exit(2); for (size_t at = 0; at < s.size(); ) { ssize_t n = write(fd, s.data() + at, s.size() - at); if (n <= 0) _exit(2); at += size_t(n); } name = "/proc/self/fd/" + std::to_string(fd); } ~MemFile() { close(fd); } };
wstring widen(const string& s) { return wstring(s.begin(), s.end()); }

// settings given through one source; calls use(parsed options)
template<class F> void give(Ctx& c, Src k, const vector<Opt>& v, const po::options_description& d, const Sets& a, bool& shorts, F use)
{
    auto ws = [&] { return c.chance(1, 4) ? c.str(" \t", c.below(3)) : string(); };
    auto spell = [&](const Set& s) { const Opt& o = v[s.opt]; return o.longs[c.chance(1, 3) ? c.below(o.longs.size()) : 0]; };
    auto say = [&](const string& what) { if (c.describing()) c.out() << "  " << src_name[k] << ": " << what << "\n"; };
    switch (k) {
    case TOKENS: case ARGV: case WTOKENS: {
        vector<string> t;
        for (size_t i = 0; i < a.size(); ++i) {
            const Set& s = a[i]; const Opt& o = v[s.opt]; bool sh = !o.shrt.empty() && c.chance(1, 4); string n = sh ? o.shrt : "--" + spell(s); shorts |= sh;
            if (s.bare) { t.push_back(n); continue; }
            bool next = o.sem.min_tokens() > 0 && (s.value.empty() || s.value[0] != '-') && (s.value.empty() || c.coin());
            if (!next && sh && s.value.empty()) sh = false, n = "--" + o.longs[0];
            if (next) {
                t.push_back(n); t.push_back(s.value);
                if (o.sem.is_vec() && o.sem.multi) while (i + 1 < a.size() && a[i + 1].opt == s.opt && !a[i + 1].bare && (a[i + 1].value.empty() || a[i + 1].value[0] != '-') && c.coin()) t.push_back(a[++i].value);
            } else t.push_back(sh ? n + s.value : n + "=" + s.value);
        }
        say(pbt::esc(t));
        if (k == TOKENS) use(po::command_line_parser(t).options(d).run());
        else if (k == WTOKENS) { vector<wstring> w; for (auto& x : t) w.push_back(widen(x)); use(po::wcommand_line_parser(w).options(d).run()); }
        else { vector<const char*> p = {"prog"}; for (auto& x : t) p.push_back(x.c_str()); use(po::parse_command_line(int(p.size()), p.data(), d)); }
        break; }
    case POSITIONAL: {
        po::positional_options_description pd; vector<string> t; bool rest = c.chance(1, 3);
        for (size_t i = 0; i < a.size(); ++i) { pd.add(v[a[i].opt].longs[0].c_str(), rest && i + 1 == a.size() ? -1 : 1); t.push_back(a[i].value); }
        if (c.chance(1, 6)) t.insert(t.begin() + c.below(t.size() + 1), "--");
        say(pbt::esc(t)); use(po::command_line_parser(t).options(d).positional(pd).run()); break; }
    case EXTRA: {
        vector<string> t; for (size_t i = 0; i < a.size(); ++i) t.push_back("@" + std::to_string(i)); vector<std::pair<string, string>> r; for (auto& s : a) r.push_back({spell(s), s.value});
        say("pairs"); use(po::command_line_parser(t).options(d).extra_parser([&](const string& x) { return x[0] == '@' ? r[size_t(std::stoul(x.substr(1)))] : std::make_pair(string(), string()); }).run()); break; }
    case STYLE: {
        vector<string> t; for (size_t i = 0; i < a.size(); ++i) t.push_back("@" + std::to_string(i));
        say("options"); use(po::command_line_parser(t).options(d).extra_style_parser([&](vector<string>& x) { vector<po::option> r; if (x.empty() || x[0][0] != '@') return r; const Set& s = a[size_t(std::stoul(x[0].substr(1)))]; po::option o; o.string_key = v[s.opt].longs[0]; if (!s.bare) o.value.push_back(s.value); o.original_tokens.push_back(x[0]); x.erase(x.begin()); r.push_back(o); return r; }).run()); break; }
    case FILE_: case WFILE: case FILENAME: {
        string text, section; if (c.chance(1, 6)) text += "# settings\n\n";
        // there is no way out of a section but into another
        size_t first = a.size(); while (first > 0 && dot_of(v[a[first - 1].opt].longs[0]) != string::npos) --first;
        if (c.chance(1, 2)) first += c.below(a.size() - first + 1); else if (c.coin()) first = a.size();
        for (size_t i = 0; i < a.size(); ++i) {
            const Set& s = a[i]; string name = v[s.opt].longs[0];
            if (i >= first) { size_t dot = dot_of(name); if (section != name.substr(0, dot + 1) || c.chance(1, 5)) { section = name.substr(0, dot + 1); text += ws() + "[" + name.substr(0, dot + (section.size() > 1 && c.chance(1, 5))) + "]" + ws() + "\n"; } name = name.substr(dot + 1); }
            text += ws() + name + ws() + "=" + ws() + s.value + ws() + (c.chance(1, 8) ? "# comment" : "") + "\n"; if (c.chance(1, 8)) text += ws() + "\n";
        }
        if (!text.empty() && c.chance(1, 4)) text.pop_back();
        say(pbt::esc(text));
        if (k == FILE_) { std::istringstream is(text); use(po::parse_config_file(is, d)); }
        else if (k == WFILE) { std::wistringstream is(widen(text)); use(po::parse_config_file(is, d)); }
        else { MemFile f(text); use(po::parse_config_file(f.name.c_str(), d)); }
        break; }
    case ENV: {
        vector<string> e; std::map<string, string> names;
        for (auto& s : a) { string n = "V" + std::to_string(names.size()); names[n] = v[s.opt].longs[0]; e.push_back(n + "=" + s.value); if (c.chance(1, 6)) e.push_back("OTHER=1"); }
        say(pbt::esc(e)); Env env(e); use(po::parse_environment(d, [&](string n) { auto i = names.find(n); return i == names.end() ? string() : i->second; })); break; }
    case ENVPREFIX: {
        vector<string> e; for (auto& s : a) { string n = v[s.opt].longs[0]; for (auto& ch : n) ch = char(toupper((unsigned char)ch)); e.push_back("APP_" + n + "=" + s.value); }
        if (c.chance(1, 4)) e.insert(e.begin() + c.below(e.size() + 1), "PATH=/bin");
        say(pbt::esc(e)); Env env(e); use(po::parse_environment(d, "APP_")); break; }
    default: {
        po::parsed_options p(&d, c.coin() ? 0 : int(st::allow_long)); for (auto& s : a) { po::option o; o.string_key = v[s.opt].longs[0]; if (!s.bare) o.value.push_back(s.value); p.options.push_back(o); }
        say("options"); use(p); }
    }
}
string plain(string s) // a message without the prefix of names
{
    string r; for (size_t i = 0; i < s.size();) { if (s.compare(i, 10, "option '--") == 0) { r += "option '"; i += 10; } else r += s[i++]; } return r;
}
struct Side { po::options_description d; Sinks sinks; po::variables_map vm; };
string contents(Side& x) { string s; for (auto& e : x.vm) s += pbt::esc(e.first) + " = " + any_to_mv(e.second.value()).show() + (e.second.defaulted() ? " (default)\n" : "\n"); return s; }

Sets as_settings(const vector<Opt>& v, Side& x) // what the map holds, written down
{
    Sets r;
    for (auto& e : x.vm) {
        if (e.second.defaulted()) continue; size_t i = 0; while (i < v.size() && v[i].longs[0] != e.first) ++i; MV m = any_to_mv(e.second.value());
        if ((v[i].sem.kind == KUntyped0 && m.e[0].empty()) || (v[i].sem.kind == KSwitch && m.e[0] == "true")) { r.push_back({i, "", true}); continue; }
        for (auto& t : m.e) r.push_back({i, t, false});
    }
    return r;
}
Src choose(Ctx& c, const vector<Opt>& v, const Sets& a) { for (int i = 0; i < 6; ++i) { Src k = Src(c.below(NSRC)); if (fits(k, v, a)) return k; } return HAND; }

void run(Ctx& c)
{
    NameCfg n; n.collide = c.chance(1, 3); n.max_opts = 1 + c.below(7); vector<Opt> v = gen_names(c, n); SemCfg sc; sc.arity = false; sc.wide = true; gen_sems(c, v, sc);
    std::set<string> seen;
    for (auto& o : v) {
        vector<string> keep; for (auto& l : o.longs) if (!l.empty() && l.find_first_of("*= \t\r\n[]#") == l.npos && l.find('\0') == l.npos && l[0] != '-' && ascii(l)) { string x = l; if (c.chance(1, 5)) x = c.pick({string("s."), string("s.t."), string("ab.")}) + l; if (seen.insert(x).second) keep.push_back(x); } o.longs = keep;
        if (!o.shrt.empty() && (!isalnum((unsigned char)o.shrt[1]) || !seen.insert(o.shrt).second)) o.shrt.clear();
        while (o.longs.size() > 1 && o.shrt.empty() && o.longs.back().size() == 1) o.longs.pop_back();
        o.sem.zero = false; if (!o.sem.is_vec()) o.sem.multi = false; o.has_desc = true;
    }
    v.erase(std::remove_if(v.begin(), v.end(), [](const Opt& o) { return o.longs.empty(); }), v.end()); if (v.empty()) c.discard();
    for (auto& o : v) { c.key(o.names()); c.key(o.sem.show()); }
    size_t stores = 1 + c.below(3); vector<Sets> hist; bool bad = c.chance(1, 4);
    for (size_t k = 0; k < stores; ++k) {
        Sets a; size_t m = c.size(5, 60); std::set<size_t> used;
        for (size_t i = 0; i < m; ++i) {
            Set s; s.opt = c.below(v.size()); const Sem& q = v[s.opt].sem;
            if (!bad && !q.is_vec() && !used.insert(s.opt).second) continue;
            if (q.max_tokens() == 0) s.bare = c.chance(4, 5);
            if (!s.bare) { s.value = q.max_tokens() == 0 ? (q.kind == KSwitch ? gen_value_for(c, KBool, true) : "x") : gen_value_for(c, q.kind, !bad || c.chance(5, 6)); if (q.is_wide() && !ascii(s.value)) s.value = "w"; if (c.chance(1, 20)) s.value = ""; if (q.is_vec() && c.chance(1, 4)) { a.push_back(s); s.value = gen_value_for(c, q.kind, true); if (q.is_wide() && !ascii(s.value)) s.value = "w"; } }
            a.push_back(s);
        }
        for (auto& s : a) { c.key(uint64_t(s.opt)); c.key(s.value); } hist.push_back(a);
    }
    if (c.describing()) c.out() << show(v);
    Side x, y; int groups = int(c.below(6)); build_desc(x.d, v, groups, &x.sinks); build_desc(y.d, v, groups, &y.sinks); bool shorts = false, differ = false, failed = false;
    auto go = [&](Side& s, Src k, const Sets& a) { return catch_err([&] { give(c, k, v, s.d, a, shorts, [&](const auto& p) { po::store(p, s.vm); }); }); };
    auto same = [&](const string& when, const Caught& e, const Caught& f, bool exact = false) {
        if (exact && !shorts && e.threw && f.threw && e.e.what != f.e.what) c.fail(when + ": the one says " + pbt::esc(e.e.what) + ", the other " + pbt::esc(f.e.what));
        if (e.threw != f.threw || (e.threw && (e.e.kind != f.e.kind || e.e.cls != f.e.cls || (!shorts && plain(e.e.what) != plain(f.e.what))))) c.fail(when + ": the one gives " + (e.threw ? e.e.show() : "no error") + ", the other " + (f.threw ? f.e.show() : "no error"));
        if (e.threw) return; // what a rejected store leaves is P10's business
        string p = contents(x), q = contents(y); if (p != q) c.fail(when + " the one map holds\n" + p + "the other\n" + q); };
    for (auto& a : hist) {
        Src k = choose(c, v, a), l = choose(c, v, a); if (k == l) l = choose(c, v, a); differ |= k != l && !a.empty(); c.label(src_name[k]); c.label(src_name[l]); c.key(uint64_t(k * 100 + l));
        Caught e = go(x, k, a), f = go(y, l, a); failed |= e.threw; same("after" + show(v, a) + " from " + src_name[k] + " and from " + src_name[l], e, f, (k <= WTOKENS && l <= WTOKENS) || (k >= FILE_ && k < HAND && l >= FILE_ && l < HAND));
        if (failed) break; }
    if (failed) { c.label("rejected"); if (differ) c.nontrivial(); return; }
    // written down again
    if (c.chance(1, 2)) {
        Sets a = as_settings(v, x); Side z; build_desc(z.d, v, groups, &z.sinks); Src k = choose(c, v, a);
        Caught e = go(z, k, a); if (e.threw) c.fail("the settings in the map, given as" + show(v, a) + " from " + src_name[k] + ": " + e.e.show());
        // entries holding nothing can not be written down
        string p, q; for (auto& m : x.vm) if (m.second.defaulted() || !any_to_mv(m.second.value()).e.empty()) p += pbt::esc(m.first) + any_to_mv(m.second.value()).show() + "\n"; for (auto& m : z.vm) if (x.vm.count(m.first) && any_to_mv(x.vm[m.first].value()).e.empty() && !x.vm[m.first].defaulted()) continue; else q += pbt::esc(m.first) + any_to_mv(m.second.value()).show() + "\n";
        if (p != q) c.fail("the settings in the map, given as" + show(v, a) + " from " + src_name[k] + ", give\n" + q + "instead of\n" + p); c.label("map written down"); differ |= !a.empty();
    }
    // notified alike
    Caught e = catch_err([&] { po::notify(x.vm); }), f = catch_err([&] { po::notify(y.vm); }); same("notify", e, f);
    for (size_t i = 0; i < v.size() && i < x.sinks.s.size(); ++i) {
        auto& p = *x.sinks.s[i]; auto& q = *y.sinks.s[i]; if (p.notified != q.notified) c.fail("notifiers of " + pbt::esc(v[i].names()) + " called differently"); if (p.stored && q.stored && p.stored() != q.stored()) c.fail("the variable of " + pbt::esc(v[i].names()) + " is " + p.stored().show() + " and " + q.stored().show()); }
    if (differ) c.nontrivial();
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P29"; P.run = run; P.quick = 150000; P.thorough = 4000000;
    P.rule = "histories of one to three stores of settings, each given to two identical programs through two sources chosen from twelve; errors, maps, notifier calls and variables are compared, and the map written down as settings and read through a third source. Non-trivial: settings that came through different sources";
    return pbt::engine_main(argc, argv, P);
}
