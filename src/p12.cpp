// P12: conversion of textual values to the declared type, from every source.
#include "common.hpp"
#include <boost/lexical_cast.hpp>
#include <cstring>
#include <locale>
#include <sstream>
#include <unistd.h>
using namespace t; using pbt::Ctx;

// ---- a program's own types
namespace own {
struct Boom { string text; };
struct Magic { int n; bool operator==(const Magic& o) const { return n == o.n; } };          // "123-<int>", as in the documentation
// the conversion of the number is left to lexical_cast, whose exception the validator does not catch
void validate(boost::any& v, const vector<string>& xs, Magic*, int)
{
    po::validators::check_first_occurrence(v); const string& s = po::validators::get_single_string(xs);
    if (s == "boom") throw Boom{s};
    if (s.compare(0, 4, "123-") != 0) throw po::validation_error(po::validation_error::invalid_option_value);
    v = boost::any(Magic{boost::lexical_cast<int>(s.substr(4))});
}
struct Point { int x, y; bool operator==(const Point& o) const { return x == o.x && y == o.y; } };
// the whole list at once
void validate(boost::any& v, const vector<string>& xs, vector<Point>*, int)
{
    if (v.empty()) v = vector<Point>();
    if (xs.size() % 2) throw po::validation_error(po::validation_error::at_least_one_value_required);
    for (size_t i = 0; i < xs.size(); i += 2) boost::any_cast<vector<Point>>(&v)->push_back(Point{int(xs[i].size()), int(xs[i + 1].size())});
}
// takes the argument or its absence, in either width, with the library's helpers
struct Maybe { string text; bool wide; };
template<class C> void validate(boost::any& v, const vector<std::basic_string<C>>& xs, Maybe*, int)
{
    po::validators::check_first_occurrence(v); const std::basic_string<C>& s = po::validators::get_single_string(xs, true); Maybe m; m.wide = sizeof(C) > 1;
    for (C c : s) m.text += ref_encode_cp(sizeof(C) > 1 ? uint32_t(c) : uint32_t(c) & 0x7f); v = m;
}
// only readable from a stream
struct Ext { int w, h; bool operator==(const Ext& o) const { return w == o.w && h == o.h; } };
std::istream& operator>>(std::istream& i, Ext& e) { char x; i >> e.w >> x >> e.h; if (i && x != 'x') i.setstate(std::ios::failbit); return i; }
std::ostream& operator<<(std::ostream& o, const Ext& e) { return o << e.w << 'x' << e.h; }
}
namespace {
struct Env {
    vector<vector<char>> text; vector<char*> ptr; char** old;
    Env(const vector<string>& e) : old(environ) { for (auto& s : e) { text.emplace_back(s.begin(), s.end()); text.back().push_back(0); } for (auto& t : text) ptr.push_back(t.data()); ptr.push_back(nullptr); environ = ptr.data(); }
    ~Env() { environ = old; }
};
std::locale loc_c, loc_utf8;
struct UseLocale { std::locale old; UseLocale(bool utf8) { old = std::locale::global(utf8 ? loc_utf8 : loc_c); } ~UseLocale() { std::locale::global(old); } };

string gen_bool_text(Ctx& c)
{
    static const vector<string> w = {"true", "false", "yes", "no", "on", "off", "1", "0"};
    switch (c.weighted({60, 10, 20, 10})) {
    case 0: return flip_case(c, c.pick(w));
    case 1: return "";
    case 2: { string s = c.pick(w); switch (c.below(4)) { case 0: s += c.chr("s 1e"); break; case 1: s.pop_back(); break; case 2: s = " " + s; break; default: if (!s.empty()) s[c.below(s.size())] = 'x'; } return s; }
    default: return c.pick({string("2"), string("ja"), string("t"), string("f"), string("y"), string("n"), string("00"), string("01"), string("TrUe "), string("enabled")});
    }
}
string gen_text(Ctx& c, Kind k, bool valid)
{
    if (k == KBool || k == KSwitch) return gen_bool_text(c);
    if (!valid) switch (c.weighted({50, 20, 15, 15})) {
        case 0: return gen_word(c);
        case 1: return gen_int_text(c);
        case 2: return "";
        default: { string s = gen_value_for(c, k, true); size_t at = c.below(s.size() + 1); s.insert(at, 1, c.chr(" x-+0.,\n")); return s; }
    }
    if (k == KDouble && c.coin()) { string s = std::to_string(int64_t(c.below(100000)) - 50000); if (c.coin()) s += "." + std::to_string(c.below(1000)); if (c.chance(1, 3)) s += c.chr("eE") + std::to_string(int(c.below(40)) - 20); return s; }
    if ((k == KInt || k == KVecInt || k == KUnsigned || k == KLongLong || k == KOptInt || k == KWInt) && c.coin()) return gen_int_text(c);
    return gen_value_for(c, k, true);
}

// ---- types beyond those of Kind: converted value against lexical_cast, through narrow and wide semantics
template<class T> string as_text(const T& v) { return boost::lexical_cast<string>(v); }
template<class T> void scalar(Ctx& c, const vector<string>& toks, const char* tn)
{
    auto why = [&] { return string(tn) + " from " + pbt::esc(toks) + ": "; };
    for (int wide = 0; wide < 2; ++wide) {
        boost::any v; Caught r; vector<wstring> wt; bool dec = true; for (auto& s : toks) { wstring w; dec = dec && ref_decode(s, w); wt.push_back(w); }
        if (wide && !dec) break;
        if (wide) { std::unique_ptr<po::typed_value<T, wchar_t>> s(po::wvalue<T>()); r = catch_err([&] { static_cast<const po::value_semantic&>(*s).parse(v, toks, true); }); }
        else { std::unique_ptr<po::typed_value<T, char>> s(po::value<T>()); r = catch_err([&] { static_cast<const po::value_semantic&>(*s).parse(v, toks, false); }); }
        T want{}; bool ok = toks.size() == 1 && (wide ? boost::conversion::try_lexical_convert(wt[0], want) : boost::conversion::try_lexical_convert(toks[0], want));
        if (ok) { const T* p = boost::any_cast<T>(&v); if (r.threw || !p || !(*p == want || (want != want && *p != *p))) c.fail(why() + (wide ? "(wide) " : "") + "expected " + as_text(want) + ", got " + (r.threw ? r.e.show() : p ? as_text(*p) : "another type")); c.label("other type converted"); }
        else {
            string cls = toks.size() == 1 ? "invalid_option_value" : "validation_error"; int kind = toks.empty() ? po::validation_error::at_least_one_value_required : toks.size() > 1 ? po::validation_error::multiple_values_not_allowed : po::validation_error::invalid_option_value;
            if (!r.threw || r.e.cls != cls || r.e.kind != kind) c.fail(why() + "expected " + cls + ", got " + (r.threw ? r.e.show() : "a value")); c.label("other type rejected");
        }
    }
}
template<class T> void list(Ctx& c, const vector<string>& a, const vector<string>& b, const char* tn)
{
    // two occurrences: elements accumulate in order; a bad element is an error
    boost::any v; std::unique_ptr<po::typed_value<vector<T>, char>> s(po::value<vector<T>>()); const auto& h = static_cast<const po::value_semantic&>(*s);
    Caught r = catch_err([&] { h.parse(v, a, false); h.parse(v, b, false); });
    vector<T> want; bool ok = true; for (auto* t : {&a, &b}) for (auto& x : *t) { T e{}; if (!boost::conversion::try_lexical_convert(x, e)) ok = false; want.push_back(e); }
    if (r.threw == ok) c.fail(string(tn) + " from " + pbt::esc(a) + " and " + pbt::esc(b) + ": " + (r.threw ? r.e.show() : "accepted"));
    if (!ok) { if (r.e.cls != "invalid_option_value") c.fail(string(tn) + ": expected invalid_option_value, got " + r.e.show()); return; }
    const vector<T>* p = boost::any_cast<vector<T>>(&v); if (!p || *p != want) c.fail(string(tn) + " from " + pbt::esc(a) + " and " + pbt::esc(b) + ": wrong elements");
    c.label("list of another type");
}
template<class S, class Char> Caught run_sem(S* sem, boost::any& v, const vector<string>& toks)
{ std::unique_ptr<S> s(sem); return catch_err([&] { static_cast<const po::value_semantic&>(*s).parse(v, toks, sizeof(Char) > 1); }); }

// An optional takes exactly one token, even where the type in it would take none or several, and then what that type makes of it.
template<class T> void opt_of(Ctx& c, const vector<string>& t, const char* tn)
{
    boost::any v0, v1, v2; Caught a = run_sem<po::typed_value<boost::optional<T>, char>, char>(po::value<boost::optional<T>>(), v1, t), b = run_sem<po::typed_value<std::optional<T>, char>, char>(po::value<std::optional<T>>(), v2, t);
    string err; bool ok = t.size() == 1; if (!ok) err = "validation_error/" + std::to_string(t.empty() ? po::validation_error::at_least_one_value_required : po::validation_error::multiple_values_not_allowed);
    else { Caught k = run_sem<po::typed_value<T, char>, char>(po::value<T>(), v0, t); ok = !k.threw; err = k.e.cls + "/" + std::to_string(k.e.kind); }
    auto* p = boost::any_cast<boost::optional<T>>(&v1); auto* q = boost::any_cast<std::optional<T>>(&v2);
    string w = "optional<" + string(tn) + "> from " + pbt::esc(t) + ": ";
    for (const Caught* k : {&a, &b}) if (k->threw == ok || (!ok && k->e.cls + "/" + std::to_string(k->e.kind) != err)) c.fail((k == &b ? "std::" : "boost::") + w + "expected " + (ok ? "a value" : err) + ", got " + (k->threw ? k->e.show() : "a value"));
    if (ok) { T want = boost::any_cast<T>(v0); if (!p || !*p || !(**p == want) || !q || !*q || !(**q == want)) c.fail(w + "wrong value"); c.label("optional of another type"); }
}

void other_types(Ctx& c)
{
    size_t n = c.weighted({1, 12, 2}); vector<string> t; Kind k = c.pick({KInt, KDouble, KLongLong, KUnsigned, KChar}); bool valid = c.chance(2, 3);
    for (size_t i = 0; i < n; ++i) t.push_back(gen_text(c, k, valid));
    c.key(t); c.nontrivial(); if (c.describing()) c.out() << "other types from " << pbt::esc(t) << "\n";
    switch (c.below(11)) {
    case 0: scalar<signed long>(c, t, "signed long"); break;
    case 1: scalar<unsigned long>(c, t, "unsigned long"); break;
    case 2: scalar<float>(c, t, "float"); break;
    case 3: scalar<long>(c, t, "long"); break;
    case 4: scalar<unsigned long long>(c, t, "unsigned long long"); break;
    case 5: scalar<double>(c, t, "double"); break;
    case 6: { vector<string> u; for (size_t i = c.below(4); i-- > 0; ) u.push_back(gen_text(c, KUnsigned, valid)); list<unsigned>(c, t, u, "vector<unsigned>"); break; }
    case 7: { vector<string> u; for (size_t i = c.below(4); i-- > 0; ) u.push_back(gen_text(c, KInt, valid)); list<long long>(c, t, u, "vector<long long>"); break; }
    case 8: { // optional types and wide booleans
        boost::any v; Caught r = run_sem<po::typed_value<boost::optional<string>, char>, char>(po::value<boost::optional<string>>(), v, t);
        if (t.size() == 1) { auto* p = boost::any_cast<boost::optional<string>>(&v); if (r.threw || !p || !*p || **p != t[0]) c.fail("optional<string> from " + pbt::esc(t)); }
        else if (!r.threw) c.fail("optional<string> from " + pbt::esc(t) + " accepted");
        int w; boost::any v2; Caught q = run_sem<po::typed_value<std::optional<int>, char>, char>(po::value<std::optional<int>>(), v2, t); bool ok = t.size() == 1 && boost::conversion::try_lexical_convert(t[0], w);
        auto* p2 = boost::any_cast<std::optional<int>>(&v2); if (q.threw == ok || (ok && (!p2 || !*p2 || **p2 != w))) c.fail("std::optional<int> from " + pbt::esc(t) + ": " + (q.threw ? q.e.show() : "wrong value"));
        opt_of<bool>(c, t, "bool"); opt_of<vector<int>>(c, t, "vector<int>"); opt_of<vector<string>>(c, t, "vector<string>"); opt_of<char>(c, t, "char");
        break; }
    case 9: { // a narrow string through a wide semantic, from description to bound variable
        for (auto& x : t) for (auto& ch : x) if ((unsigned char)ch > 126 || !ch) ch = 'n'; c.key(t);
        string bound = "before"; vector<string> lb; po::options_description d; d.add_options()("s", po::wvalue<string>(&bound)->multitoken(), "")("l", po::wvalue<vector<string>>(&lb)->multitoken(), "");
        for (string key : {"s", "l"}) {
            po::variables_map vm; Caught r; auto in = [&](auto one) { typedef decltype(one) C; po::basic_parsed_options<C> ps(&d); po::basic_option<C> o; o.string_key = key; for (auto& x : t) o.value.emplace_back(x.begin(), x.end()); ps.options.push_back(o); return ps; };
            r = catch_err([&] { if (c.coin()) { po::parsed_options n = in('c'); po::store(n, vm); } else po::store(po::wparsed_options(in('c')), vm); po::notify(vm); });
            bool ok = key == "l" ? true : t.size() == 1;
            if (r.threw == ok) c.fail("wvalue<" + string(key == "l" ? "vector<string>" : "string") + "> from " + pbt::esc(t) + ": " + (r.threw ? r.e.show() : "accepted"));
            if (!ok) continue;
            if (key == "s") { auto* p = boost::any_cast<string>(&vm["s"].value()); if (!p || *p != t[0] || bound != t[0]) c.fail("wvalue<string> from " + pbt::esc(t) + ": " + (p ? pbt::esc(*p) : "another type") + ", bound variable " + pbt::esc(bound)); }
            else { auto* p = boost::any_cast<vector<string>>(&vm["l"].value()); if (!p || *p != t || lb != t) c.fail("wvalue<vector<string>> from " + pbt::esc(t) + ": wrong elements"); }
            c.label("narrow string through a wide semantic"); }
        {   // given once more
            const vector<string> u(1, "again"); boost::any v; std::unique_ptr<po::typed_value<string, wchar_t>> s(po::wvalue<string>()); const auto& h = static_cast<const po::value_semantic&>(*s); bool utf8 = c.coin();
            Caught first = catch_err([&] { h.parse(v, u, utf8); }), second = catch_err([&] { h.parse(v, t, utf8); });
            if (first.threw || !second.threw || second.e.cls != "multiple_occurrences" || boost::any_cast<string>(v) != u[0]) c.fail("wvalue<string> given twice: " + (first.threw ? first.e.show() : second.threw ? second.e.show() : "accepted"));
            boost::any w; std::unique_ptr<po::typed_value<wstring, wchar_t>> ws(po::wvalue<wstring>()); const auto& g = static_cast<const po::value_semantic&>(*ws);
            first = catch_err([&] { g.parse(w, u, utf8); }), second = catch_err([&] { g.parse(w, t, utf8); });
            if (first.threw || !second.threw || second.e.cls != "multiple_occurrences" || boost::any_cast<wstring>(w) != L"again") c.fail("wvalue<wstring> given twice: " + (first.threw ? first.e.show() : second.threw ? second.e.show() : "accepted"));
            boost::any b; std::unique_ptr<po::typed_value<bool, wchar_t>> bs(po::wvalue<bool>()); const auto& f = static_cast<const po::value_semantic&>(*bs);
            first = catch_err([&] { f.parse(b, {"on"}, utf8); }), second = catch_err([&] { f.parse(b, t, utf8); });
            if (first.threw || !second.threw || second.e.cls != "multiple_occurrences" || boost::any_cast<bool>(b) != true) c.fail("wvalue<bool> given twice: " + (first.threw ? first.e.show() : second.threw ? second.e.show() : "accepted"));
        }
        break; }
    default: {
        string s = gen_bool_text(c); c.key(s); boost::any v; Caught r = run_sem<po::typed_value<bool, wchar_t>, wchar_t>(po::wvalue<bool>(), v, {s}); string l = lower(s);
        int want = l.empty() || l == "on" || l == "yes" || l == "1" || l == "true" ? 1 : l == "off" || l == "no" || l == "0" || l == "false" ? 0 : -1; auto* p = boost::any_cast<bool>(&v);
        if (want < 0 ? !r.threw || r.e.cls != "invalid_bool_value" : r.threw || !p || *p != (want == 1)) c.fail("wide bool from " + pbt::esc(s) + ": " + (r.threw ? r.e.show() : p ? (*p ? "true" : "false") : "nothing"));
        // the same through the vector form
        boost::any v3; Caught r3 = run_sem<po::typed_value<vector<bool>, char>, char>(po::value<vector<bool>>(), v3, {s, "no"}); auto* p3 = boost::any_cast<vector<bool>>(&v3);
        if (want < 0 ? !r3.threw || r3.e.cls != "invalid_option_value" && r3.e.cls != "invalid_bool_value" : r3.threw || !p3 || p3->size() != 2 || (*p3)[0] != (want == 1) || (*p3)[1]) c.fail("vector<bool> from " + pbt::esc(s) + ": " + (r3.threw ? r3.e.show() : "wrong"));
        break; }
    }
}

// what converting `occ`, one occurrence after the other, does
struct Out { string err; string value; string what; bool operator!=(const Out& o) const { return err != o.err || value != o.value; } string show() const { return err.empty() ? value : err; } };
template<class T, class F> Out convert(po::typed_value<T>* tv, const vector<vector<string>>& occ, bool through_store, F text)
{
    Out o; boost::any v; po::variables_map vm; po::options_description d; d.add_options()("opt", tv, "");
    try {
        Caught k = catch_err([&] {
            if (through_store) { po::parsed_options p(&d, 0); for (auto& t : occ) { po::option x; x.string_key = "opt"; x.value = t; p.options.push_back(x); } po::store(p, vm); }
            else for (auto& t : occ) static_cast<const po::value_semantic&>(*tv).parse(v, t, false);
        });
        if (k.threw) { o.err = k.e.cls + "/" + std::to_string(k.e.kind); o.what = k.e.what; return o; }
    } catch (const own::Boom& b) { o.err = "Boom " + b.text; return o; }
    if (through_store && vm.count("opt")) v = vm["opt"].value();
    if (v.empty()) { o.value = "nothing"; return o; }
    const T* p = boost::any_cast<T>(&v); if (!p) { o.err = "another type"; return o; }
    o.value = text(*p); return o;
}
void user_types(Ctx& c)
{
    const string bad = "validation_error/" + std::to_string(po::validation_error::invalid_option_value), many = "validation_error/" + std::to_string(po::validation_error::multiple_values_not_allowed), none = "validation_error/" + std::to_string(po::validation_error::at_least_one_value_required), inval = "invalid_option_value/" + std::to_string(po::validation_error::invalid_option_value);
    vector<vector<string>> occ; size_t n = 1 + c.weighted({6, 2, 1}); int mode = int(c.below(7)); bool store = c.coin();
    for (size_t i = 0; i < n; ++i) {
        vector<string> t; size_t k = mode == 2 || mode == 3 || mode == 6 ? c.below(4) : c.weighted({1, 10, 1});
        for (size_t j = 0; j < k; ++j) { string x; if (mode == 4 || mode == 5) { x = std::to_string(c.below(300)) + c.chr("xx,") + std::to_string(c.below(300)); if (c.chance(1, 4)) x += c.chr(" ax0"); } else { x = "123-" + (c.chance(2, 3) ? std::to_string(int64_t(c.below(2000)) - 1000) : gen_int_text(c)); if (c.chance(1, 12)) x = "boom"; if (c.chance(1, 10)) x = gen_word(c); } t.push_back(x); }
        occ.push_back(t); c.key(t);
    }
    c.key(uint64_t(mode * 2 + store)); c.nontrivial(); c.label("a program's own type");
    if (c.describing()) { c.out() << "own type " << mode << (store ? " stored" : "") << "\n"; for (auto& t : occ) c.out() << pbt::esc(t) << "\n"; }
    auto magic = [](const string& s, int& v) { if (s == "boom") return 3; if (s.compare(0, 4, "123-") != 0) return 2; return boost::conversion::try_lexical_convert(s.substr(4), v) ? 0 : 1; };
    Out want, got; string culprit;
    auto scalars = [&](bool optional) {
        for (size_t i = 0; i < occ.size(); ++i) {
            if (i) { want.err = "multiple_occurrences/-1"; return; }
            if (occ[i].size() != 1) { want.err = occ[i].empty() ? none : many; return; }
            int v = 0; int m = magic(occ[i][0], v); if (m) { want.err = m == 3 ? "Boom boom" : m == 2 ? bad : "bad_lexical_cast/-1"; return; }
            want.value = std::to_string(v);
        } };
    switch (mode) {
    case 0: scalars(false); got = convert<own::Magic>(po::value<own::Magic>(), occ, store, [](const own::Magic& m) { return std::to_string(m.n); }); break;
    case 1: scalars(true); got = convert<boost::optional<own::Magic>>(po::value<boost::optional<own::Magic>>(), occ, store, [](const boost::optional<own::Magic>& m) { return m ? std::to_string(m->n) : string("none"); }); break;
    case 2: {   // an element which lexical_cast rejects is an invalid value; other exceptions pass
        for (auto& t : occ) for (auto& s : t) if (want.err.empty()) { int v = 0; int m = magic(s, v); if (m) want.err = m == 3 ? "Boom boom" : m == 2 ? bad : inval; else want.value += std::to_string(v) + ","; if (m) culprit = s; }
        want.value = want.err.empty() ? "[" + want.value + "]" : "";
        got = convert<vector<own::Magic>>(po::value<vector<own::Magic>>(), occ, store, [](const vector<own::Magic>& m) { string s; for (auto& x : m) s += std::to_string(x.n) + ","; return "[" + s + "]"; }); break; }
    case 3: {
        for (auto& t : occ) { if (!want.err.empty()) break; if (t.size() % 2) { want.err = none; break; } for (size_t i = 0; i < t.size(); i += 2) want.value += std::to_string(t[i].size()) + "," + std::to_string(t[i + 1].size()) + ";"; }
        want.value = want.err.empty() ? "[" + want.value + "]" : "";
        got = convert<vector<own::Point>>(po::value<vector<own::Point>>(), occ, store, [](const vector<own::Point>& m) { string s; for (auto& x : m) s += std::to_string(x.x) + "," + std::to_string(x.y) + ";"; return "[" + s + "]"; }); break; }
    case 4: {
        for (size_t i = 0; i < occ.size() && want.err.empty(); ++i) {
            if (i) { want.err = "multiple_occurrences/-1"; break; } if (occ[i].size() != 1) { want.err = occ[i].empty() ? none : many; break; }
            own::Ext e; if (boost::conversion::try_lexical_convert(occ[i][0], e)) want.value = std::to_string(e.w) + "x" + std::to_string(e.h); else { want.err = inval; culprit = occ[i][0]; } }
        if (!want.err.empty()) want.value = "";
        got = convert<own::Ext>(po::value<own::Ext>(), occ, store, [](const own::Ext& e) { return std::to_string(e.w) + "x" + std::to_string(e.h); }); break; }
    case 6: {
        bool wide = c.coin(); for (auto& t : occ) for (auto& s : t) for (auto& ch : s) ch = char(ch & 0x7f);
        for (size_t i = 0; i < occ.size() && want.err.empty(); ++i) { if (i) want.err = "multiple_occurrences/-1"; else if (occ[i].size() > 1) want.err = many; else want.value = occ[i].empty() ? "" : occ[i][0]; }
        if (!wide) { got = convert<own::Maybe>(po::value<own::Maybe>(), occ, store, [](const own::Maybe& m) { return m.wide ? "the other width" : m.text; }); break; }
        boost::any v; std::unique_ptr<po::typed_value<own::Maybe, wchar_t>> tv(po::wvalue<own::Maybe>()); Caught k = catch_err([&] { for (auto& t : occ) static_cast<const po::value_semantic&>(*tv).parse(v, t, true); });
        if (k.threw) got.err = k.e.cls + "/" + std::to_string(k.e.kind); else { auto* m = boost::any_cast<own::Maybe>(&v); if (!m || !m->wide) got.err = "another type"; else got.value = m->text; }
        break; }
    default: {
        for (auto& t : occ) for (auto& s : t) if (want.err.empty()) { own::Ext e; if (boost::conversion::try_lexical_convert(s, e)) want.value += std::to_string(e.w) + "x" + std::to_string(e.h) + ","; else { want.err = inval; culprit = s; } }
        want.value = want.err.empty() ? "[" + want.value + "]" : "";
        got = convert<vector<own::Ext>>(po::value<vector<own::Ext>>(), occ, store, [](const vector<own::Ext>& m) { string s; for (auto& x : m) s += std::to_string(x.w) + "x" + std::to_string(x.h) + ","; return "[" + s + "]"; }); break; }
    }
    if (!want.err.empty()) want.value = "";
    if (want != got) c.fail("a program's own type: expected " + want.show() + ", got " + got.show());
    if (want.err == inval) { string m = culprit.empty() ? "the argument for option" : "the argument ('" + culprit + "') for option"; m = m.c_str(); if (got.what.compare(0, m.size(), m)) c.fail("a program's own type: the message " + pbt::esc(got.what) + " does not name the value " + pbt::esc(culprit)); c.label("rejected value named"); }
}

void run(Ctx& c)
{
    if (c.chance(1, 6)) { if (c.chance(1, 3)) user_types(c); else other_types(c); return; }
    SemCfg sc; sc.wide = true; sc.arity = c.chance(1, 8); Opt o; o.longs.push_back("opt"); o.shrt = "-o"; o.sem = gen_sem(c, sc); o.sem.notifier = o.sem.store_to = false;
    if (c.chance(1, 8)) { o.sem = Sem(); o.sem.kind = c.pick({KBool, KSwitch, KDouble, KUnsigned, KChar, KLongLong}); }
    bool localized = c.chance(1, 4); UseLocale use(localized);
    vector<Opt> opts(1, o); po::options_description d; add_options(d, opts);
    {   // the declared type is announced
        auto* b = dynamic_cast<const po::typed_value_base*>(d.options()[0]->semantic().get()); const std::type_info* ti = nullptr;
        switch (o.sem.kind) { case KString: ti = &typeid(string); break; case KInt: case KWInt: ti = &typeid(int); break; case KUnsigned: ti = &typeid(unsigned); break; case KLongLong: ti = &typeid(long long); break; case KDouble: ti = &typeid(double); break; case KChar: ti = &typeid(char); break; case KBool: case KSwitch: ti = &typeid(bool); break; case KVecString: ti = &typeid(vector<string>); break; case KVecInt: ti = &typeid(vector<int>); break; case KWString: ti = &typeid(wstring); break; case KVecWString: ti = &typeid(vector<wstring>); break; case KColor: ti = &typeid(Color); break; default: break; }
        if (o.sem.typed() != !!b || (ti && b->value_type() != *ti)) c.fail("value_type() of " + o.show() + " is wrong");
    }
    // occurrences: each a list of tokens
    size_t n = c.weighted({10, 70, 20, 10}); vector<vector<string>> occ; bool valid = c.chance(3, 4);
    for (size_t i = 0; i < n; ++i) {
        unsigned lo = o.sem.min_tokens(), hi = o.sem.max_tokens(); size_t k = lo; if (hi > lo) k += c.below(std::min(hi - lo, 4u) + 1); if (c.chance(1, 8)) k = c.below(4);
        vector<string> v; for (size_t j = 0; j < k; ++j) v.push_back(gen_text(c, o.sem.kind, valid || c.coin())); occ.push_back(v);
    }
    unsigned source = c.weighted({30, 25, 15, 10, 20});
    bool wide = false; vector<POpt> popts; string what;
    po::variables_map vm; VM model; Caught r; int prefix = 0; 
    if (c.describing()) { c.out() << show(opts); for (auto& v : occ) c.out() << "occurrence " << pbt::esc(v) << "\n"; c.out() << (localized ? "C.UTF-8 locale\n" : ""); }
    auto key = [&] { c.key(o.sem.show()); c.key(uint64_t(source)); c.key(uint64_t(localized)); for (auto& p : popts) c.key(p.value); };
    auto judge = [&](const vector<POpt>& pp, bool utf8) {
        StoreResult m = model_store(model, pp, opts, prefix, utf8, localized);
        if (m.ok == r.threw || (!m.ok && !same_class(m.err, r.e))) c.fail(what + ": expected " + (m.ok ? "success" : m.err.show()) + ", got " + (r.threw ? r.e.show() : "success"));
        string diff = diff_vm(model, vm); if (!diff.empty()) c.fail(what + ": the map differs:\n" + diff);
        if (m.ok) { auto i = model.m.find("opt"); c.label(i == model.m.end() ? "no value" : i->second.defaulted ? "default" : "converted"); if (n) c.nontrivial(); } else { c.label(m.err.cls.c_str() == string("invalid_bool_value") ? "invalid_bool_value" : m.err.cls == "invalid_option_value" ? "invalid_option_value" : m.err.cls == "multiple_occurrences" ? "multiple_occurrences" : m.err.cls == "logic_error" ? "not representable" : "other error"); c.nontrivial(); }
        for (auto& p : pp) if (p.value.empty() && o.sem.has_impl) c.label("implicit value");
        c.label(kind_name(o.sem.kind));
    };
    switch (source) {
    case 0: case 4: { // parsed options made by a program (or another parser)
        wide = source == 4; po::parsed_options p(&d, 0);
        for (auto& v : occ) { po::option x; x.string_key = "opt"; x.value = v; x.original_tokens = {"tok"}; p.options.push_back(x); POpt q; q.key = "opt"; q.value = v; q.orig = {"tok"}; popts.push_back(q); for (auto& s : v) { wstring w; if (!ref_decode(s, w)) wide = false; } }
        what = wide ? "wide parsed options" : "parsed options"; key();
        if (wide) { po::wparsed_options w(p); r = catch_err([&] { po::store(w, vm); }); } else r = catch_err([&] { po::store(p, vm); });
        judge(popts, wide); break; }
    case 1: { // command line
        int style = gen_style(c); int S = style ? style : int(st::default_style); const string dash = !(S & st::allow_long) && (S & st::allow_long_disguise) ? "-opt" : "--opt";
        vector<string> t; for (auto& v : occ) { if (!v.empty() && c.coin() && !v[0].empty()) { t.push_back(dash + "=" + v[0]); t.insert(t.end(), v.begin() + 1, v.end()); } else { t.push_back(!(S & st::allow_short) || c.coin() ? dash : string(S & st::allow_dash_for_short ? "-o" : "/o")); t.insert(t.end(), v.begin(), v.end()); } }
        ParseCase p; p.opts = opts; p.style = style; p.tokens = t; ParseResult m = model_parse(t, p.cfg()); if (!m.ok) { c.label("line rejected"); return; }
        popts = m.opts; prefix = canonical_prefix(style); what = "command line " + pbt::esc(t) + " style " + style_show(style); key();
        if (c.describing()) c.out() << what << "\n";
        wide = c.chance(1, 3); vector<wstring> wt; for (auto& s : t) { wstring w; if (!ref_decode(s, w)) wide = false; wt.push_back(w); } for (auto& q : popts) for (auto& s : q.value) { wstring w; if (!ref_decode(s, w)) wide = false; }
        if (wide) { po::wparsed_options w = po::wcommand_line_parser(wt).options(d).style(style).run(); r = catch_err([&] { po::store(w, vm); }); }
        else { po::parsed_options w = po::command_line_parser(t).options(d).style(style).run(); r = catch_err([&] { po::store(w, vm); }); }
        judge(popts, wide); break; }
    case 2: { // configuration file
        string text; for (auto& v : occ) if (!v.empty()) { string s = v[0]; for (auto& ch : s) if (ch == '\n' || ch == '#') ch = '_'; text += "opt=" + s + "\n"; }
        CfgResult m = model_config(text, opts, false); if (!m.ok) c.fail("model: config"); popts = m.opts; what = "configuration file " + pbt::esc(text); key();
        wide = c.chance(1, 3); wstring wt; if (!ref_decode(text, wt)) wide = false;
        if (wide) { std::wistringstream is(wt); auto w = po::parse_config_file(is, d); r = catch_err([&] { po::store(w, vm); }); }
        else { std::istringstream is(text); auto w = po::parse_config_file(is, d); r = catch_err([&] { po::store(w, vm); }); }
        judge(popts, wide); break; }
    default: { // environment
        vector<string> env; for (auto& v : occ) if (!v.empty()) { string s = v[0]; for (auto& ch : s) if (!ch) ch = 'z'; env.push_back("opt=" + s); }
        auto map = [](string s) { return s; }; popts = model_env(env, map); what = "environment " + pbt::esc(env); key();
        po::parsed_options w(nullptr); { Env e(env); w = po::parse_environment(d, map); } r = catch_err([&] { po::store(w, vm); });
        judge(popts, false); }
    }
    // conversions do not depend on the source: the same tokens given directly in one go
    if (!r.threw && popts.size() == 1 && popts[0].key == "opt" && c.chance(1, 3) && !wide) {
        boost::any v; std::unique_ptr<po::value_semantic> s(make_semantic(o.sem, nullptr, nullptr)); Caught q = catch_err([&] { s->parse(v, popts[0].value, false); });
        if (q.threw || any_to_mv(v) != any_to_mv(vm["opt"].value())) c.fail(what + ": converting the tokens directly gives " + (q.threw ? q.e.show() : any_to_mv(v).show()) + " instead of " + any_to_mv(vm["opt"].value()).show());
    }
}
void init() { loc_c = std::locale::classic(); loc_utf8 = std::locale("C.UTF-8"); }
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P12"; P.run = run; P.quick = 600000; P.thorough = 20000000; P.init = init;
    P.rule = "an option of any supported type, width and flags given any number of times with valid and invalid text, from a program's own parsed options, a command line, configuration file or environment, narrow or wide, in the C or C.UTF-8 locale; result or error against a conversion model. Non-trivial: at least one occurrence was converted or rejected";
    return pbt::engine_main(argc, argv, P);
}
