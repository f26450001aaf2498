// P21: what a program receives, end to end.  The oracle is the intent: values are chosen first, written in some
// permitted way on the command line, in configuration files and in the environment, and must arrive.
#include "common.hpp"
#include <algorithm>
#include <cmath>
#include <sstream>
#include <unistd.h>
using namespace t; using pbt::Ctx;

namespace {
struct Env {
    vector<vector<char>> text; vector<char*> ptr; char** old;
    Env(const vector<string>& e) : old(environ) { for (auto& s : e) { text.emplace_back(s.begin(), s.end()); text.back().push_back(0); } for (auto& t : text) ptr.push_back(t.data()); ptr.push_back(nullptr); environ = ptr.data(); }
    ~Env() { environ = old; }
};
// the value the text stands for
string meaning(Kind k, const string& s)
{
    switch (k) {
    case KInt: case KVecInt: case KOptInt: case KWInt: return std::to_string(strtol(s.c_str(), nullptr, 10));
    case KUnsigned: return std::to_string(strtoul(s.c_str(), nullptr, 10));
    case KLongLong: return std::to_string(strtoll(s.c_str(), nullptr, 10));
    case KDouble: { char b[64]; snprintf(b, sizeof b, "%.17g", strtod(s.c_str(), nullptr)); return b; }
    case KBool: case KSwitch: { char ch = lower(s)[0]; string l = lower(s); return l == "on" || ch == 'y' || ch == '1' || ch == 't' ? "true" : "false"; }
    default: return s;
    }
}
string value_text(Ctx& c, Kind k)
{
    switch (k) {
    case KString: case KVecString: case KStdOptString: case KWString: case KVecWString: { string s = c.chance(1, 4) ? c.str("ab c=-\"'\\,;:/@%", 1 + c.size(5, 200)) : c.chance(1, 10) ? "-" + c.str("0123456789", 1 + c.below(3)) : c.str("abcxyz0189._", 1 + c.size(6, 300)); if (size_t big = c.huge(1000)) s = c.str("abcxyz0189._", big); return s; }
    case KDouble: { static const vector<string> w = {"0", "1.5", "-2.25", "1e10", "3.141592653589793", "1e-300", "-17", "0.1"}; return c.pick(w); }
    default: return gen_value_for(c, k, true);
    }
}
struct Src { int kind; vector<std::pair<size_t, vector<string>>> items; vector<string> pos; };   // 0 command line, 1 config, 2 environment
enum Fault { None, Unknown, BadValue, Twice, NoArg, ExtraArg, MissingRequired, TooManyPos, Garbage, Ambiguous };
const char* fault_name[] = {"no fault", "unknown option", "bad value", "scalar twice", "missing argument", "extra argument", "required missing", "too many positionals", "garbage line", "ambiguous abbreviation"};

void run(Ctx& c)
{
    // ---- the program's options: distinct lower-case names
    size_t n = 2 + c.below(7); vector<Opt> v; std::set<string> shorts; vector<Kind> kinds = {KString, KInt, KUnsigned, KLongLong, KDouble, KChar, KBool, KSwitch, KVecString, KVecInt, KOptInt, KStdOptString, KColor, KVecColor, KUntyped0};
    bool wide = c.chance(1, 5); if (wide) { kinds.push_back(KWString); kinds.push_back(KWInt); kinds.push_back(KVecWString); }
    for (size_t i = 0; i < n; ++i) {
        Opt o; string nm; 
        if (i && c.chance(1, 4)) nm = v[c.below(i)].longs[0].substr(0, 2) + c.str("abcdefgh-", 2 + c.below(4)); else nm = c.str("abcdefghijklmnopqrstuvwxyz", 1) + c.str("abcdefghijklmnop-.0", 2 + c.size(5, 80));
        nm += char('a' + i);            // distinct
        if (c.chance(1, 8)) nm = "sec." + nm;
        o.longs.push_back(nm); if (c.coin()) { string s = string("-") + c.chr("abcdefghijklmnopqrstuvwxyzABCDEFG"); if (shorts.insert(s).second) o.shrt = s; }
        Sem& s = o.sem; s.kind = c.pick(kinds); bool vec = s.is_vec();
        if (s.kind != KUntyped0) {
            s.notifier = c.chance(3, 4); s.store_to = c.chance(3, 4); s.composing = vec && c.chance(1, 3);
            if (s.kind != KSwitch) {
                s.multi = vec && c.coin(); s.required = c.chance(1, 6);
                auto vals = [&](vector<string>& e, bool& textual, string& text) { size_t k = vec ? 1 + c.below(3) : 1; for (size_t j = 0; j < k; ++j) e.push_back(meaning(s.kind, value_text(c, s.kind))); textual = true; text = c.pick({string("x"), string(""), string("the default")}); };
                if (c.chance(1, 3)) { s.has_def = true; vals(s.def, s.def_textual, s.def_text); } 
                if (c.chance(1, 5)) { s.has_impl = true; vals(s.impl, s.impl_textual, s.impl_text); }
            }
        }
        v.push_back(o);
    }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j && v[i].longs[0] == v[j].longs[0]) c.discard();
    // positionals: a few single ones, perhaps a list at the end
    PosDesc pd; vector<size_t> pos_opts; bool pos_list = false; size_t pos_single = 0;
    if (c.chance(1, 2)) {
        if (c.coin()) for (size_t i = 0; i < n && pos_single < 2; ++i) if (!v[i].sem.is_vec() && v[i].sem.typed() && v[i].sem.kind != KSwitch && !v[i].sem.has_impl) { pd.e.push_back({v[i].longs[0], 1}); pos_opts.push_back(i); ++pos_single; }
        if (c.coin()) for (size_t i = 0; i < n; ++i) if (v[i].sem.is_vec()) { pd.e.push_back({v[i].longs[0], -1}); pos_opts.push_back(i); pos_list = true; break; }
    }
    int style = c.chance(1, 3) ? 0 : c.chance(1, 3) ? int(st::unix_style | st::case_insensitive) : c.chance(1, 3) ? int(st::unix_style | st::allow_long_disguise) : c.chance(1, 3) ? int(st::unix_style & ~st::allow_guessing) : int(st::unix_style | st::allow_slash_for_short);
    int S = style ? style : int(st::default_style);
    if (S & st::short_case_insensitive) { std::set<string> seen; for (auto& o : v) if (!o.shrt.empty() && !seen.insert(lower(o.shrt)).second) o.shrt.clear(); }

    // ---- the intent: which source gives which values
    vector<Src> srcs; size_t ns = c.weighted({1, 6, 4, 3, 1}); for (size_t i = 0; i < ns; ++i) { Src s; s.kind = i == 0 ? int(c.weighted({6, 1, 1})) : int(c.weighted({2, 3, 2})); srcs.push_back(s); }
    for (auto& s : srcs) for (size_t i = 0; i < n; ++i) {
        if (!c.chance(2, 5)) continue; const Sem& m = v[i].sem; bool vec = m.is_vec(); bool is_pos = std::find(pos_opts.begin(), pos_opts.end(), i) != pos_opts.end();
        if (s.kind == 0 && is_pos && !(vec && c.coin())) continue;      // mostly by position
        size_t occ = vec ? 1 + c.below(2) : 1;
        for (size_t k = 0; k < occ; ++k) {
            vector<string> vals; bool give_none = m.has_impl && !m.composing && c.chance(1, 3) && s.kind == 0 && occ == 1;
            if (m.kind == KUntyped0 || m.kind == KSwitch) { if (s.kind != 0 && m.kind == KSwitch && c.coin()) vals.push_back(value_text(c, KBool)); }
            else if (!give_none) { size_t cnt = m.multi && s.kind == 0 ? 1 + c.below(3) : 1; if (m.multi && s.kind == 0) if (size_t big = c.huge(120)) cnt = std::min<size_t>(big, 1100); for (size_t j = 0; j < cnt; ++j) { string x = value_text(c, m.kind); for (int tries = 0; cnt > 3 && tries < 30 && (x[0] == '-' || x[0] == '/'); ++tries) x = value_text(c, m.kind); vals.push_back(x); } if (cnt > 100) c.expensive(), c.label("hundreds of values"); }
            if (vals.empty() && s.kind != 0 && m.kind != KUntyped0 && m.kind != KSwitch) continue;
            s.items.push_back({i, vals});
        }
    }
    for (auto& s : srcs) if (s.kind == 0 && !pd.e.empty() && c.chance(3, 4)) {
        size_t k = c.below(pos_single + 1); if (k == pos_single && pos_list) k += c.below(4);
        for (size_t j = 0; j < k; ++j) { Kind kd = v[j < pos_single ? pos_opts[j] : pos_opts.back()].sem.kind; string x = value_text(c, kd); for (int tries = 0; tries < 20 && (x[0] == '-' || x[0] == '/'); ++tries) x = value_text(c, kd); if (x[0] == '-' || x[0] == '/') x = kd == KChar ? "c" : kd == KString || kd == KVecString || kd == KStdOptString ? "w" : "1"; s.pos.push_back(x); }
    }
    for (auto& s : srcs) if (s.kind == 0) { // a positional scalar is not given by name as well
        for (size_t j = 0; j < std::min(s.pos.size(), pos_single); ++j) s.items.erase(std::remove_if(s.items.begin(), s.items.end(), [&](auto& it) { return it.first == pos_opts[j]; }), s.items.end());
    } 
    // configuration files and environments hold single lines
    for (auto& s : srcs) if (s.kind) for (auto& it : s.items) for (auto& x : it.second) { for (auto& ch : x) if (ch == '\n' || ch == '#') ch = '_'; if (s.kind == 1) { while (!x.empty() && x.back() == ' ') x.back() = '_'; if (!x.empty() && x[0] == ' ') x[0] = '_'; } if (x.empty()) x = "a"; }

    // ---- one fault, sometimes
    Fault fault = None; size_t fault_src = 0, fault_opt = 0;
    auto order_of = [&](Src& s) { vector<size_t> r; for (auto& it : s.items) r.push_back(it.first); return r; };
    (void)order_of;
    if (!srcs.empty() && c.chance(1, 4)) {
        fault = Fault(1 + c.below(9)); fault_src = c.below(srcs.size()); Src& s = srcs[fault_src]; vector<size_t> cand;
        auto final_before = [&](size_t i) { for (size_t q = 0; q < fault_src; ++q) { for (auto& it : srcs[q].items) if (it.first == i) return !v[i].sem.composing; for (size_t j = 0; j < srcs[q].pos.size(); ++j) if (pos_opts[std::min(j, pos_opts.size() - 1)] == i) return !v[i].sem.composing; } return false; };
        switch (fault) {
        case BadValue: for (size_t k = 0; k < s.items.size(); ++k) { Kind kd = v[s.items[k].first].sem.kind; if (!s.items[k].second.empty() && kd != KString && kd != KVecString && kd != KStdOptString && kd != KWString && kd != KVecWString && !final_before(s.items[k].first)) cand.push_back(k); } break;
        case Twice: for (size_t k = 0; k < s.items.size(); ++k) if (!v[s.items[k].first].sem.is_vec() && !s.items[k].second.empty() && !v[s.items[k].first].sem.has_impl && !final_before(s.items[k].first)) cand.push_back(k); break;
        case NoArg: case ExtraArg: case Ambiguous: if (s.kind) fault = None; break;
        case TooManyPos: if (s.kind || pd.e.empty() || pos_list) fault = None; break;
        case Garbage: if (s.kind != 1) fault = None; break;
        case Unknown: if (s.kind == 2) fault = None; break;
        default: break;
        }
        if (fault == BadValue || fault == Twice) { if (cand.empty()) fault = None; else { size_t k = cand[c.below(cand.size())]; fault_opt = s.items[k].first; if (fault == BadValue) { Kind kd = v[fault_opt].sem.kind; s.items[k].second[c.below(s.items[k].second.size())] = kd == KChar ? "two" : "1x2"; } else s.items.push_back(s.items[k]); } }
        if (fault == NoArg) { for (size_t i = 0; i < n; ++i) if (v[i].sem.min_tokens() == 1) cand.push_back(i); if (cand.empty()) fault = None; else fault_opt = cand[c.below(cand.size())]; }
        if (fault == ExtraArg) { for (size_t i = 0; i < n; ++i) if (v[i].sem.max_tokens() == 0) cand.push_back(i); if (cand.empty()) fault = None; else fault_opt = cand[c.below(cand.size())]; }
        if (fault == Ambiguous) { // an abbreviation of two names
            if (!(S & st::allow_guessing)) fault = None; else { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j && v[i].longs[0][0] == v[j].longs[0][0]) cand.push_back(i); if (cand.empty()) fault = None; else fault_opt = cand[c.below(cand.size())]; } }
    }

    // ---- the expected outcome
    std::map<size_t, MV> want; std::set<size_t> final_; bool twice_composed = false;
    for (auto& s : srcs) {
        std::map<size_t, MV> mine; auto add = [&](size_t i, const vector<string>& vals) {
            const Sem& m = v[i].sem; if (final_.count(i)) return;
            MV& x = mine[i]; vector<string> e; for (auto& t2 : vals) e.push_back(meaning(m.kind, t2));
            if (m.kind == KUntyped0) { x = make_mv(KUntyped0, {""}); return; }
            if (vals.empty()) { x = m.kind == KSwitch ? make_mv(KSwitch, {"true"}) : make_mv(m.kind, m.impl); return; }
            if (!x.has) x = make_mv(m.kind, {}); if (!m.is_vec()) x.e.clear(); x.e.insert(x.e.end(), e.begin(), e.end()); };
        if (s.kind == 1) ; 
        for (auto& it : s.items) add(it.first, it.second);
        // positionals may come anywhere: remember them apart, their place among named occurrences is fixed below
        for (size_t j = 0; j < s.pos.size(); ++j) add(pos_opts[std::min(j, pos_opts.size() - 1)], {s.pos[j]});
        for (auto& x : mine) { const Sem& m = v[x.first].sem; if (m.composing && want.count(x.first)) { want[x.first].e.insert(want[x.first].e.end(), x.second.e.begin(), x.second.e.end()); twice_composed = true; } else want[x.first] = x.second; if (!m.composing) final_.insert(x.first); }
    }
    std::set<size_t> given; for (auto& x : want) given.insert(x.first);
    for (size_t i = 0; i < n; ++i) if (!want.count(i)) { MV d = v[i].sem.def_value(); if (d.has) want[i] = d; }
    bool missing = false; for (size_t i = 0; i < n; ++i) if (v[i].sem.required && !want.count(i)) { missing = true; }
    if (fault == MissingRequired) fault = None;
    if (!missing && c.chance(1, 12)) { } 
    if (srcs.empty()) for (size_t i = 0; i < n; ++i) want.erase(i);       // nothing was stored, not even defaults
    if (srcs.empty()) missing = false;

    // ---- write the sources
    vector<string> line; vector<vector<string>> lines(srcs.size()); vector<string> texts(srcs.size()); vector<vector<string>> envs(srcs.size());
    for (size_t q = 0; q < srcs.size(); ++q) {
        Src& s = srcs[q];
        if (s.kind == 0) {
            vector<string>& L = lines[q]; size_t at = 0; bool safe = true; bool pos_taken_by_list = false;
            // named occurrences of the list option must precede the positional ones, to keep their order
            for (auto& it : s.items) for (auto p : pos_opts) if (it.first == p) pos_taken_by_list = true;
            auto put_pos = [&] { while (at < s.pos.size() && !pos_taken_by_list && safe && c.chance(1, 3)) L.push_back(s.pos[at++]); };
            for (size_t k = 0; k < s.items.size(); ++k) {
                put_pos();
                const Opt& o = v[s.items[k].first]; const vector<string>& vals = s.items[k].second;
                bool use_short = !o.shrt.empty() && (S & st::allow_short) && c.coin(); string head;
                if (use_short) { head = o.shrt; if ((S & st::allow_slash_for_short) && c.coin()) head[0] = '/'; if ((S & st::short_case_insensitive) && false) head = flip_case(c, head); 
                    // a letter which in disguise abbreviates a long name
                    if (S & st::allow_long_disguise) use_short = false; }
                if (!use_short) {
                    string nm = o.longs[0];
                    if ((S & st::allow_guessing) && c.chance(1, 3)) { size_t len = 1 + c.below(nm.size()); string ab = nm.substr(0, len); size_t hits = 0; for (auto& x : v) if (x.longs[0].compare(0, len, ab) == 0) ++hits; if (hits == 1) nm = ab; }
                    if ((S & st::long_case_insensitive) && c.coin()) nm = flip_case(c, nm);
                    head = ((S & st::allow_long_disguise) && c.coin() ? "-" : "--") + nm;
                }
                size_t from = 0;
                auto needs_adjacent = [&](const string& x) { return x[0] == '-' || x[0] == '/'; };
                if (!vals.empty()) {
                    bool opt_val = o.sem.min_tokens() == 0; 
                    bool adjacent = needs_adjacent(vals[0]) || c.coin() || (opt_val && false);
                    if (use_short && adjacent && vals[0][0] == '=' && false) adjacent = false;
                    if (adjacent) { head += (use_short ? "" : "=") + vals[0]; from = 1; }
                }
                bool bad = false; for (size_t j = std::max<size_t>(from, 1); j < vals.size(); ++j) if (needs_adjacent(vals[j])) bad = true;
                if (bad) c.discard();
                L.push_back(head); for (size_t j = from; j < vals.size(); ++j) L.push_back(vals[j]);
                safe = o.sem.min_tokens() == o.sem.max_tokens();
            }
            bool term = !safe || c.chance(1, 4); if (fault == None && at < s.pos.size() && term) L.push_back("--");
            else if (fault != None && at < s.pos.size()) L.push_back("--");
            while (at < s.pos.size()) L.push_back(s.pos[at++]);
        } else if (s.kind == 1) {
            string sec; string& T = texts[q];
            for (auto& it : s.items) {
                string nm = v[it.first].longs[0]; bool ins = nm.compare(0, 4, "sec.") == 0;
                if (ins && (sec == "sec." || c.coin())) { if (sec.empty()) { T += "[sec]\n"; sec = "sec."; } nm = nm.substr(4); }
                else if (!sec.empty()) { T += "[]\n"; sec = ""; T.resize(T.size() - 3); c.discard(); }
                T += c.str(" \t", c.below(2)) + nm + (c.coin() ? " = " : "=") + (it.second.empty() ? "" : it.second[0]) + (c.chance(1, 8) ? " # comment" : "") + "\n"; if (c.chance(1, 8)) T += "# a=b\n\n";
            }
            if (c.chance(1, 5) && !T.empty()) T.pop_back();
        } else {
            for (auto& it : s.items) envs[q].push_back("APP_" + std::to_string(it.first) + "=" + (it.second.empty() ? "" : it.second[0]));
            envs[q].push_back("HOME=/root"); 
        }
    }
    string expect;        // the class of the error
    if (fault != None) {
        Src& s = srcs[fault_src]; vector<string>& L = lines[fault_src]; 
        switch (fault) {
        case Unknown: expect = "unknown_option"; if (s.kind == 0) L.insert(L.begin(), c.coin() ? "--no_such_thing" : "--no_such_thing=1"); else texts[fault_src] = "no_such_thing = 1\n" + texts[fault_src]; break;
        case BadValue: { Kind k = v[fault_opt].sem.kind; expect = k == KBool || k == KSwitch ? "invalid_bool_value" : k == KColor || k == KVecColor ? "validation_error" : "invalid_option_value"; break; }
        case Twice: expect = "multiple_occurrences"; break;
        case NoArg: expect = "invalid_command_line_syntax"; { bool term = std::find(L.begin(), L.end(), "--") != L.end(); if (term) c.discard(); L.push_back("--" + v[fault_opt].longs[0]); } break;
        case ExtraArg: expect = "invalid_command_line_syntax"; L.insert(L.begin(), "--" + v[fault_opt].longs[0] + "=1"); break;
        case Ambiguous: { expect = "ambiguous_option"; string ab = v[fault_opt].longs[0].substr(0, 1); size_t exact = 0; for (auto& o : v) exact += o.longs[0] == ab; if (exact) c.discard(); L.insert(L.begin(), "--" + ab); break; }
        case TooManyPos: expect = "too_many_positional_options_error"; L.insert(L.begin(), pos_single + 1, "1"); break;
        case Garbage: expect = "invalid_config_file_syntax"; texts[fault_src] += (texts[fault_src].empty() || texts[fault_src].back() == '\n' ? "" : "\n") + string("a line without an equals sign\n"); break;
        default: break;
        }
    }
    c.key(uint64_t(style)); for (auto& o : v) { c.key(o.names()); c.key(o.sem.show()); } for (size_t q = 0; q < srcs.size(); ++q) { c.key(uint64_t(srcs[q].kind)); c.key(lines[q]); c.key(texts[q]); c.key(envs[q]); }
    if (c.describing()) {
        c.out() << show(v) << "style " << style_show(style) << "\n"; for (auto& e : pd.e) c.out() << "positional " << e.name << "*" << e.count << "\n";
        for (size_t q = 0; q < srcs.size(); ++q) { if (srcs[q].kind == 0) c.out() << "command line " << pbt::esc(lines[q]) << "\n"; else if (srcs[q].kind == 1) c.out() << "configuration file " << pbt::esc(texts[q]) << "\n"; else c.out() << "environment " << pbt::esc(envs[q]) << "\n"; }
        if (fault) c.out() << fault_name[fault] << "\n";
    }

    // ---- the program
    po::options_description d("Options"); Sinks sinks; build_desc(d, v, c.chance(1, 3) ? int(c.below(12)) : 0, &sinks); po::positional_options_description rpd; pd.build(rpd); po::variables_map vm;
    vector<MV> initial; for (auto& s : sinks.s) initial.push_back(s->stored ? s->stored() : MV());
    Caught r = catch_err([&] {
        for (size_t q = 0; q < srcs.size(); ++q) switch (srcs[q].kind) {
            case 0:
                if (wide) { vector<wstring> wl; for (auto& x : lines[q]) wl.push_back(wstring(x.begin(), x.end())); po::wcommand_line_parser p(wl); p.options(d).style(style); if (!pd.e.empty()) p.positional(rpd); po::store(p.run(), vm); }
                else { vector<const char*> av{lines[q].empty() || (lines[q][0].size() + lines[q].size()) % 3 ? "program" : lines[q][0].c_str()}; for (auto& x : lines[q]) av.push_back(x.c_str()); if (pd.e.empty() && q % 2) { po::store(po::parse_command_line(int(av.size()), av.data(), d, style), vm); break; } po::command_line_parser p(int(av.size()), av.data()); p.options(d).style(style); if (!pd.e.empty()) p.positional(rpd); po::store(p.run(), vm); }
                break;
            case 1: { if (wide) { std::wistringstream is(wstring(texts[q].begin(), texts[q].end())); po::store(po::parse_config_file(is, d), vm); } else { std::istringstream is(texts[q]); po::store(po::parse_config_file(is, d), vm); } break; }
            default: { Env e(envs[q]); auto mapper = [&](const string& nm) { return nm.compare(0, 4, "APP_") == 0 ? v.at(size_t(atoi(nm.c_str() + 4))).longs[0] : string(); }; po::store(po::parse_environment(d, mapper), vm); }
        }
        po::notify(vm);
    });
    if (fault != None || missing) {
        if (fault == None) expect = "required_option"; 
        c.label(fault_name[fault == None ? MissingRequired : fault]); c.nontrivial();
        if (!r.threw) c.fail("expected " + expect + ", but everything was accepted");
        if (r.e.cls != expect) c.fail("expected " + expect + ", got " + r.e.show());
        for (size_t i = 0; i < n; ++i) { if (!sinks.s[i]->notified.empty()) c.fail("a notifier ran although the input is invalid"); if (sinks.s[i]->stored && sinks.s[i]->stored() != initial[i]) c.fail("a bound variable was written although the input is invalid"); }
        return;
    }
    if (r.threw) c.fail("unexpected " + r.e.show());
    for (size_t i = 0; i < n; ++i) {
        string key = v[i].longs[0]; const po::variable_value& x = vm[key]; MV got = any_to_mv(x.value()), w = want.count(i) ? want[i] : MV();
        if (got != w) c.fail(key + " is " + got.show() + " instead of " + w.show());
        if (vm.count(key) != w.has || (w.has && x.defaulted() == (given.count(i) > 0))) c.fail(key + ": count() or defaulted() is wrong");
        const Sem& m = v[i].sem; Sink& s = *sinks.s[i];
        if (m.notifier && (s.notified.size() != w.has || (w.has && s.notified[0] != w))) c.fail(key + ": the notifier got " + (s.notified.empty() ? "nothing" : s.notified[0].show() + (s.notified.size() > 1 ? " and more" : "")) + " instead of " + w.show());
        if (s.stored && s.stored() != (w.has ? w : initial[i])) c.fail(key + ": the bound variable is " + s.stored().show() + " instead of " + w.show());
    }
    if (vm.size() != want.size()) c.fail("the map has other entries");
    if (given.size() >= 2) c.nontrivial(); c.label("accepted"); if (twice_composed) c.label("composed"); if (srcs.size() > 1) c.label("several sources"); for (auto& s : srcs) if (!s.pos.empty()) { c.label("positionals"); break; } if (wide) c.label("wide"); if (given.size() < want.size()) c.label("defaults");
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P21"; P.run = run; P.quick = 200000; P.thorough = 8000000;
    P.rule = "a program (typed options with defaults, implicit values, notifiers, bound variables, positionals) and an intent (which values come from which command lines, configuration files and environments, in which order), written out in some permitted way, perhaps with one fault; the oracle is the intent. Non-trivial: at least two options given, or a fault";
    return pbt::engine_main(argc, argv, P);
}
