// P22: failures from below.  An allocation or a callback of the user's fails at a chosen point of a call.
#include "common.hpp"
#include "streams.hpp"
#include <algorithm>
#include <new>
#include <sstream>
#include <unistd.h>
#include <boost/program_options/detail/convert.hpp>
#include <boost/tokenizer.hpp>
#include <boost/token_functions.hpp>
namespace boost { namespace program_options { std::vector<std::string> split_winmain(const std::string&); } }
#define _WIN32 1
#include "winmain.cpp"
#undef _WIN32
using namespace t; using pbt::Ctx;

// ------------------------------------------------------------------ the allocator
namespace fault {
static long live = 0;              // blocks allocated and not released
static bool armed = false; static long count = 0, at = 0; static bool lasting = false; static bool hit = false;
static bool cb_armed = false; static long cb_count = 0, cb_at = 0; static int cb_kind = 0; static bool cb_hit = false;
struct Boom { int id; };
static void* get(size_t n, size_t al, bool nothrow)
{
    if (armed) { ++count; if (at && (count == at || (lasting && count > at))) { hit = true; if (nothrow) return nullptr; throw std::bad_alloc(); } }
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    ++live; return p;
}
static void put(void* p) { if (p) { --live; free(p); } }
// to be called by every callback
static void callback()
{
    if (!cb_armed) return;
    if (++cb_count != cb_at) return;
    cb_hit = true; bool a = armed; armed = false; (void)a;
    switch (cb_kind) { case 0: throw Boom{4711}; case 1: throw std::runtime_error("boom 4711"); case 2: throw po::error("boom 4711"); case 3: throw 4711; case 4: throw std::bad_alloc(); default: throw std::logic_error("boom 4711"); }
}
}
void* operator new(size_t n) { return fault::get(n, 0, false); }
void* operator new[](size_t n) { return fault::get(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fault::get(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return fault::get(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return fault::get(n, size_t(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return fault::get(n, size_t(a), false); }
void operator delete(void* p) noexcept { fault::put(p); }
void operator delete[](void* p) noexcept { fault::put(p); }
void operator delete(void* p, size_t) noexcept { fault::put(p); }
void operator delete[](void* p, size_t) noexcept { fault::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { fault::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { fault::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { fault::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { fault::put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { fault::put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { fault::put(p); }

// A type of the user's whose conversion is a callback.
struct Trig { string s; };
void validate(boost::any& v, const vector<string>& x, Trig*, int) { fault::callback(); po::validators::check_first_occurrence(v); v = Trig{po::validators::get_single_string(x)}; }
std::ostream& operator<<(std::ostream& o, const Trig& t) { return o << t.s; }

namespace {
struct Env {
    vector<vector<char>> text; vector<char*> ptr; char** old;
    Env(const vector<string>& e) : old(environ) { for (auto& s : e) { text.emplace_back(s.begin(), s.end()); text.back().push_back(0); } for (auto& t : text) ptr.push_back(t.data()); ptr.push_back(nullptr); environ = ptr.data(); }
    ~Env() { environ = old; }
};
struct FaultBuf : chunk_buf<char> { using chunk_buf<char>::chunk_buf; int_type underflow() override { fault::callback(); return chunk_buf<char>::underflow(); } };
struct FaultOut : std::stringbuf { int_type overflow(int_type ch) override { fault::callback(); return std::stringbuf::overflow(ch); } std::streamsize xsputn(const char* s, std::streamsize n) override { fault::callback(); return std::stringbuf::xsputn(s, n); } };
template<class C> string show_opts(const vector<po::basic_option<C>>& v)
{ string s; for (auto& o : v) { s += "{" + pbt::esc(o.string_key) + " " + std::to_string(o.position_key) + " " + pbt::esc(o.value) + " " + pbt::esc(o.original_tokens) + (o.unregistered ? "U" : "") + (o.case_insensitive ? "C" : "") + "}"; } return s; }
string show_any(const boost::any& a) { if (auto* t = boost::any_cast<Trig>(&a)) return "Trig " + t->s; if (auto* t = boost::any_cast<vector<Trig>>(&a)) { string s = "Trigs"; for (auto& x : *t) s += " " + x.s; return s; } return any_to_mv(a).show(); }
string show_vm(const po::variables_map& vm) { string s; for (auto& kv : vm) s += pbt::esc(kv.first) + "=" + show_any(kv.second.value()) + (kv.second.defaulted() ? "(d)" : "") + ";"; return s; }

// One way of using the library: all but call() runs undisturbed.
struct Run { virtual ~Run() {} virtual void call() = 0; virtual string observe() = 0; virtual string broken() { return ""; } };
template<class S> struct RunT : Run { S s; std::function<void(S&)> c; std::function<string(S&)> o, b; string broken() override { return b ? b(s) : ""; } void call() override { c(s); } string observe() override { return o(s); } };
struct Op { string name; std::function<std::unique_ptr<Run>()> make; bool leaks = false; bool callbacks = false; bool repeatable = false; /* the same objects can be used for the same call again */ std::function<void()> clean; };

struct Out { enum K { result, error, nomem, boom } k = result; string text; };
string show(const Out& o) { return (o.k == Out::result ? "result " : o.k == Out::error ? "error " : o.k == Out::nomem ? "bad_alloc" : "the callback's exception ") + o.text; }
void disarm() { fault::armed = false; fault::cb_armed = false; }
// the call itself, under the fault set up by the caller
Out perform(Ctx& c, Run& r, long at, bool lasting, long cb_at, int cb_kind)
{
    Out o; fault::count = 0; fault::at = at; fault::lasting = lasting; fault::hit = false; fault::cb_count = 0; fault::cb_at = cb_at; fault::cb_kind = cb_kind; fault::cb_hit = false;
    fault::cb_armed = true; fault::armed = true;
    try { r.call(); disarm(); }
    catch (const fault::Boom& b) { disarm(); o.k = Out::boom; o.text = "Boom " + std::to_string(b.id); }
    catch (int i) { disarm(); o.k = Out::boom; o.text = "int " + std::to_string(i); }
    catch (const std::bad_alloc&) { disarm(); o.k = Out::nomem; }
    catch (...) { disarm(); std::exception_ptr p = std::current_exception();
        try { std::rethrow_exception(p); }
        catch (const std::exception& e) {
            if (string(e.what()).find("boom 4711") != string::npos) { o.k = Out::boom; o.text = string(dynamic_cast<const po::error*>(&e) ? "po::error" : dynamic_cast<const std::runtime_error*>(&e) ? "runtime_error" : dynamic_cast<const std::logic_error*>(&e) ? "logic_error" : "other") + " " + e.what(); }
            else if (dynamic_cast<const boost::escaped_list_error*>(&e)) { o.k = Out::error; o.text = string("escaped_list_error ") + e.what(); }
            else { Caught k = catch_err([&] { std::rethrow_exception(p); }); o.k = Out::error; o.text = k.e.show(); } }
        catch (...) { c.fail("an exception of a type nobody threw"); } }
    return o;
}

void run(Ctx& c)
{
    NameCfg n; n.collide = c.chance(1, 3); n.wild = c.chance(1, 4); n.max_opts = 1 + c.below(6); vector<Opt> v = gen_names(c, n); SemCfg sc; sc.wide = c.chance(1, 5); gen_sems(c, v, sc);
    for (auto& o : v) { for (auto& l : o.longs) for (auto& ch : l) if (!ch) ch = 'z'; o.desc = c.coin() ? "some words about it, long enough to be wrapped over more than one line of output" : gen_word(c); for (auto& ch : o.desc) if (!ch || ch == '\t') ch = 'z';
        if (o.sem.typed() && o.sem.kind != KSwitch && c.chance(1, 8)) o.sem.required = true; o.sem.notifier = c.coin(); if (o.sem.kind != KArity && o.sem.typed()) o.sem.store_to = c.coin(); }
    Sinks sinks; po::options_description d("Options"); build_desc(d, v, c.chance(1, 3) ? int(c.below(12)) : 0, &sinks);
    // options of the program's own type; their names are unlike the generated ones
    bool trig = c.coin(); Trig bound; if (trig) { po::options_description g("Own types"); g.add_options()("zztrig", po::value<Trig>(&bound)->notifier([](const Trig&) { fault::callback(); }), "own")("zztrigs", po::value<vector<Trig>>()->multitoken()->composing()->default_value(vector<Trig>(1, Trig{"d"}), "d")->notifier([](const vector<Trig>&) { fault::callback(); }), "own"); d.add(g); }
    for (auto& s : sinks.s) s->hook = [] { fault::callback(); };
    auto clean = [&] { for (auto& s : sinks.s) { s->notified.clear(); s->notified.shrink_to_fit(); } bound.s.clear(); };
    auto notes = [&] { string r; for (auto& s : sinks.s) for (auto& m : s->notified) r += m.show(); return r; };
    for (auto& o : v) { c.key(o.names()); c.key(uint64_t(o.sem.kind)); } if (c.describing()) c.out() << show(v) << (trig ? "  and options zztrig, zztrigs with a validator\n" : "");
    auto fingerprint = [&] { std::ostringstream os; os << d; string s = os.str(); for (auto& o : d.options()) { auto ln = o->long_names(); for (size_t i = 0; i < ln.second; ++i) s += "," + ln.first[i]; } return s; };
    string fp = fingerprint();

    // ---- the call to be disturbed
    int style = gen_style(c); bool unreg = c.chance(1, 3), has_pos = c.chance(1, 3); PosDesc pd; if (has_pos) pd = gen_pos(c, v, c.coin()); po::positional_options_description rp; if (has_pos) pd.build(rp);
    vector<string> line = gen_line(c, v, style, c.size(5, 30), c.chance(1, 3) ? 15 : 0, has_pos); if (trig) { size_t k = c.below(3); for (size_t i = 0; i < k; ++i) line.insert(line.begin() + c.below(line.size() + 1), c.pick({string("--zztrig=abc"), string("--zztrigs=defghijklmnopqrstuvwxyz"), string("--zztrigs=x")})); }
    vector<Opt> lv = only_long(v); string text = lv.empty() ? string() : gen_good_config(c, lv, c.size(4, 20), c.chance(1, 4) ? 15 : 0); if (trig && c.coin()) text = "zztrig = some text\nzztrigs=a long value beyond the small string\n" + text;
    for (auto& t : line) for (auto& ch : t) if (!ch) ch = '0';
    int which = int(c.weighted({16, 8, 12, 8, 20, 12, 8, 10, 6, 6, 8, 5})); Op op; c.key(uint64_t(which)); string doing; wstring wtext; vector<wstring> wline; po::parsed_options stored(nullptr); vector<string> env; size_t pre = 0; po::parsed_options earlier(nullptr); vector<size_t> cuts; string any_text; string seps, quotes, escs; unsigned conv = 0; bool ext = false, sp = false;
    auto skip = [&] { c.discard(); };
    switch (which) {
    case 0: { // command line
        ext = c.chance(1, 3); sp = c.chance(1, 4); c.key(line); op.repeatable = true; doing = "parsing " + pbt::esc(line) + " style " + style_show(style) + (ext ? " with an extra parser" : "") + (sp ? " with a style parser" : ""); op.callbacks = ext || sp;
        struct S { po::parsed_options r{nullptr}; };
        op.make = [&] { auto r = std::unique_ptr<RunT<S>>(new RunT<S>); r->c = [&](S& s) { po::command_line_parser q(line); q.options(d).style(style); if (has_pos) q.positional(rp); if (unreg) q.allow_unregistered();
                if (ext) q.extra_parser([](const string& t) { fault::callback(); if (!t.empty() && t[0] == '@') return std::make_pair(string("zztrig"), t.substr(1)); return std::make_pair(string(), string()); });
                if (sp) q.extra_style_parser([](vector<string>& a) { fault::callback(); vector<po::option> o; if (a.size() > 1 && a[0] == "%") { o.push_back(po::option()); o[0].string_key = "zztrig"; o[0].value.push_back(a[1]); a.erase(a.begin(), a.begin() + 2); } return o; });
                s.r = q.run(); }; r->o = [](S& s) { return show_opts(s.r.options); }; return std::unique_ptr<Run>(std::move(r)); };
        c.label("command line"); break; }
    case 1: { // wide command line
        for (auto& t : line) { wstring w; if (!ref_decode(t, w)) skip(); wline.push_back(w); } c.key(line); op.repeatable = true; doing = "parsing wide " + pbt::esc(wline) + " style " + style_show(style);
        struct S { po::wparsed_options r{po::parsed_options(nullptr)}; };
        op.make = [&] { auto r = std::unique_ptr<RunT<S>>(new RunT<S>); r->c = [&](S& s) { po::wcommand_line_parser q(wline); q.options(d).style(style); if (has_pos) q.positional(rp); if (unreg) q.allow_unregistered(); s.r = q.run(); }; r->o = [](S& s) { return show_opts(s.r.options); }; return std::unique_ptr<Run>(std::move(r)); };
        c.label("wide command line"); break; }
    case 2: { // configuration file, from a stream which reports its failures
        size_t k = c.below(5); for (size_t i = 0; i < k; ++i) cuts.push_back(1 + c.below(30)); c.key(text); bool wide = c.chance(1, 4); if (wide && !ref_decode(text, wtext)) skip(); doing = "reading " + pbt::esc(text) + (wide ? " as wide characters" : ""); op.callbacks = !wide;
        if (wide) { struct S { std::unique_ptr<std::wistringstream> is; po::wparsed_options r{po::parsed_options(nullptr)}; };
            op.make = [&] { auto r = std::unique_ptr<RunT<S>>(new RunT<S>); r->s.is.reset(new std::wistringstream(wtext)); r->s.is->exceptions(std::ios::badbit); r->c = [&](S& s) { s.r = po::parse_config_file(*s.is, d, unreg); }; r->o = [](S& s) { return show_opts(s.r.options); }; return std::unique_ptr<Run>(std::move(r)); }; }
        else { struct S { std::unique_ptr<FaultBuf> b; std::unique_ptr<std::istream> is; po::parsed_options r{nullptr}; };
            op.make = [&] { auto r = std::unique_ptr<RunT<S>>(new RunT<S>); r->s.b.reset(new FaultBuf(text, cuts)); r->s.is.reset(new std::istream(r->s.b.get())); r->s.is->exceptions(std::ios::badbit); r->c = [&](S& s) { s.r = po::parse_config_file(*s.is, d, unreg); }; r->o = [](S& s) { return show_opts(s.r.options); }; return std::unique_ptr<Run>(std::move(r)); }; }
        c.label("configuration file"); break; }
    case 3: { // environment
        size_t m = 1 + c.size(4, 20); for (size_t i = 0; i < m; ++i) { const Opt& o = v[c.below(v.size())]; string val = gen_word(c); for (auto& ch : val) if (!ch) ch = 'z'; env.push_back(string("APP_") + (o.longs.empty() ? string("none") : o.longs[0]) + "=" + val); } bool prefix = c.chance(1, 3); c.key(env); op.repeatable = true; doing = "the environment " + pbt::esc(env) + (prefix ? " with a prefix" : ""); op.callbacks = !prefix;
        struct S { std::unique_ptr<Env> e; po::parsed_options r{nullptr}; };
        op.make = [&, prefix] { auto r = std::unique_ptr<RunT<S>>(new RunT<S>); r->s.e.reset(new Env(env)); r->c = [&, prefix](S& s) { s.r = prefix ? po::parse_environment(d, "APP_") : po::parse_environment(d, [](const string& x) { fault::callback(); return x.compare(0, 4, "APP_") == 0 ? x.substr(4) : string(); }); }; r->o = [](S& s) { return show_opts(s.r.options); }; return std::unique_ptr<Run>(std::move(r)); };
        c.label("environment"); break; }
    case 4: case 5: { // store, perhaps after an earlier one; then notify
        bool notify_too = which == 5; Caught k = catch_err([&] { if (c.coin()) { std::istringstream is(text); stored = po::parse_config_file(is, d, true); } else { stored = po::command_line_parser(line).options(d).style(style).allow_unregistered().run(); } }); if (k.threw) skip();
        pre = c.below(2); if (pre) { k = catch_err([&] { vector<string> l2 = gen_line(c, v, 0, c.below(5), 0, false); if (trig && c.coin()) l2.insert(l2.begin(), "--zztrigs=earlier"); earlier = po::command_line_parser(l2).options(d).allow_unregistered().run(); po::variables_map tmp; po::store(earlier, tmp); }); if (k.threw) pre = 0; }
        if (pre) for (auto& o : earlier.options) c.key(o.string_key); doing = string("storing") + (notify_too ? " and notifying" : "") + show_opts(stored.options) + (pre ? " after" + show_opts(earlier.options) : ""); c.key(doing); op.callbacks = true;
        bool only = notify_too && c.coin(); op.repeatable = only; if (only) { k = catch_err([&] { po::variables_map tmp; if (pre) po::store(earlier, tmp); po::store(stored, tmp); }); if (k.threw) skip(); doing = "notifying after " + doing; c.label("notify only"); }
        struct S { std::unique_ptr<po::variables_map> vm, before; };
        op.make = [&, notify_too, only] { auto r = std::unique_ptr<RunT<S>>(new RunT<S>); r->s.vm.reset(new po::variables_map); if (pre) po::store(earlier, *r->s.vm); if (only) po::store(stored, *r->s.vm); r->s.before.reset(new po::variables_map(*r->s.vm));
            if (only) { r->c = [](S& s) { po::notify(*s.vm); }; r->o = [&](S& s) { return show_vm(*s.vm) + " notified " + notes(); }; r->b = [](S& s) { return show_vm(*s.before) == show_vm(*s.vm) ? string() : "the map was changed"; }; return std::unique_ptr<Run>(std::move(r)); }
            // explicit values given earlier stay, perhaps with more behind them
            r->b = [&](S& s) { for (auto& kv : *s.before) { if (kv.second.defaulted()) continue; bool implied = false; for (auto& o : stored.options) implied = implied || (o.string_key == kv.first && o.value.empty()); string a = show_any(kv.second.value()); if (implied || a.compare(0, 6, "tokens") == 0) continue; /* the check's own semantic */ auto i = s.vm->find(kv.first); string b = i == s.vm->end() ? "missing" : show_any(i->second.value()); if (b.compare(0, a.size() - 1, a, 0, a.size() - 1) != 0) return kv.first + ", which was " + a + ", is " + b; } return string(); };
            r->c = [&, notify_too](S& s) { po::store(stored, *s.vm); if (notify_too) po::notify(*s.vm); }; r->o = [&](S& s) { return show_vm(*s.vm) + " notified " + notes(); }; return std::unique_ptr<Run>(std::move(r)); };
        c.label(notify_too ? "store and notify" : "store"); break; }
    case 6: { // output
        doing = "printing"; op.callbacks = true; bool whole = c.coin();
        struct S { std::unique_ptr<FaultOut> b; std::unique_ptr<std::ostream> os; };
        op.make = [&, whole] { auto r = std::unique_ptr<RunT<S>>(new RunT<S>); r->s.b.reset(new FaultOut); r->s.os.reset(new std::ostream(r->s.b.get())); r->s.os->exceptions(std::ios::badbit); r->c = [&, whole](S& s) { if (whole) *s.os << d; else d.print(*s.os, 30); }; r->o = [](S& s) { return s.b->str(); }; return std::unique_ptr<Run>(std::move(r)); };
        c.label("print"); break; }
    case 7: { // strings
        conv = unsigned(c.below(6)); any_text = conv == 0 ? c.str("ab cd'\"\\\t", c.size(30, 300)) : conv == 1 ? c.str("a b\"\\\t", c.size(30, 300)) : gen_utf8(c, c.size(20, 200)); if (!ref_decode(any_text, wtext)) skip(); c.key(any_text); c.key(conv); static const char* nm[] = {"split_unix", "split_winmain", "from_utf8", "to_utf8", "to_internal", "wide split_unix"}; op.repeatable = true; doing = nm[conv] + string(" of ") + pbt::esc(any_text);
        struct S { vector<string> v; vector<wstring> wv; string s; wstring w; };
        op.make = [&] { auto r = std::unique_ptr<RunT<S>>(new RunT<S>); r->c = [&](S& s) { switch (conv) { case 0: s.v = po::split_unix(any_text); break; case 1: s.v = po::split_winmain(any_text); break; case 2: s.w = boost::from_utf8(any_text); break; case 3: s.s = boost::to_utf8(wtext); break; case 4: s.s = po::to_internal(wtext); break; default: s.wv = po::split_unix(wtext); } }; r->o = [](S& s) { return pbt::esc(s.v) + pbt::esc(s.wv) + pbt::esc(s.s) + pbt::esc(s.w); }; return std::unique_ptr<Run>(std::move(r)); };
        c.label("strings"); break; }
    case 8: { // copies and lookups
        Caught k = catch_err([&] { stored = po::command_line_parser(line).options(d).style(style).allow_unregistered().run(); }); if (k.threw) skip(); for (auto& o : stored.options) { for (auto& t : o.value) { wstring w; if (!ref_decode(t, w)) skip(); } for (auto& t : o.original_tokens) { wstring w; if (!ref_decode(t, w)) skip(); } wstring w; if (!ref_decode(o.string_key, w)) skip(); }
        any_text = c.coin() || v[0].longs.empty() ? gen_word(c) : v[c.below(v.size())].longs.empty() ? string("a") : v[0].longs[0].substr(0, 1 + c.below(3)); conv = unsigned(c.below(4)); doing = string(conv == 0 ? "widening" : conv == 1 ? "collecting from" : conv == 2 ? "looking up " + pbt::esc(any_text) + ", not in" : "copying a map of") + show_opts(stored.options); c.key(doing); if (conv == 3) { k = catch_err([&] { po::variables_map tmp; po::store(stored, tmp); }); if (k.threw) skip(); }
        struct S { std::unique_ptr<po::wparsed_options> w; vector<string> v; const po::option_description* f = nullptr; std::unique_ptr<po::variables_map> vm, copy; };
        op.make = [&] { auto r = std::unique_ptr<RunT<S>>(new RunT<S>); if (conv == 3) { r->s.vm.reset(new po::variables_map); po::store(stored, *r->s.vm); } r->c = [&](S& s) { switch (conv) { case 0: s.w.reset(new po::wparsed_options(stored)); break; case 1: s.v = po::collect_unrecognized(stored.options, po::include_positional); break; case 2: s.f = d.find_nothrow(any_text, true, true, true); break; default: s.copy.reset(new po::variables_map(*s.vm)); } };
            r->o = [](S& s) { return (s.w ? show_opts(s.w->options) : string()) + pbt::esc(s.v) + (s.f ? s.f->format_name() : string()) + (s.copy ? show_vm(*s.copy) : string()); }; return std::unique_ptr<Run>(std::move(r)); };
        c.label("copies and lookups"); break; }
    case 10: { // making a description
        doing = "making a description"; op.leaks = true; struct S { std::unique_ptr<po::options_description> d, e; Sinks k; std::unique_ptr<po::positional_options_description> p; };
        vector<string> names; for (auto& o : v) names.push_back(o.names()); size_t extra = c.below(3); for (size_t i = 0; i < extra; ++i) names.push_back(c.str("abc", 20 + c.below(60)) + "," + c.str("defg", 20 + c.below(30)) + (c.coin() ? ",x" : "")); for (auto& x : names) c.key(x); c.label("making descriptions");
        op.make = [&, names] { auto r = std::unique_ptr<RunT<S>>(new RunT<S>); r->c = [&, names](S& s) { s.d.reset(new po::options_description("a caption which is long enough to be allocated")); s.p.reset(new po::positional_options_description);
                for (size_t i = 0; i < names.size(); ++i) { if (i % 2) s.d->add_options()(names[i].c_str(), "described at some length, so that it does not fit"); else if (i % 3) s.d->add_options()(names[i].c_str(), po::value<string>()->default_value("a default which is long enough")->value_name("a name which is long enough"), "and so on"); else s.d->add_options()(names[i].c_str(), po::value<int>()); s.p->add(names[i].c_str(), int(i % 3) + 1); }
                s.e.reset(new po::options_description("outer")); s.e->add(*s.d); };
            r->o = [](S& s) { string t; if (!s.e) return t; std::ostringstream os; os << *s.e; t = os.str(); for (auto& o : s.e->options()) { t += "|" + o->format_name(); auto ln = o->long_names(); for (size_t i = 0; i < ln.second; ++i) t += "," + ln.first[i]; } for (unsigned i = 0; i < std::min(s.p->max_total_count(), 200u); ++i) t += ";" + s.p->name_for_position(i); return t; }; return std::unique_ptr<Run>(std::move(r)); };
        break; }
    case 11: { // combining descriptions which are complete already
        doing = "combining descriptions"; size_t rounds = 1 + c.below(3); c.key(uint64_t(rounds)); for (auto& o : v) c.key(o.desc);
        struct S { std::unique_ptr<po::options_description> top; vector<boost::shared_ptr<po::option_description>> single; std::unique_ptr<po::options_description> copy; };
        op.make = [&, rounds] { auto r = std::unique_ptr<RunT<S>>(new RunT<S>); r->s.top.reset(new po::options_description("a caption which is long enough to be allocated")); r->s.single.push_back(boost::shared_ptr<po::option_description>(new po::option_description("zzsingle,z", new po::untyped_value(true), "added by itself")));
            r->c = [&, rounds](S& s) { for (size_t i = 0; i < rounds; ++i) { s.top->add(d); if (i == 0) s.top->add(s.single[0]); } s.copy.reset(new po::options_description(*s.top)); };
            // what was added can be used, whatever failed
            r->o = [](S& s) { string t; std::ostringstream os; os << *s.top; t = os.str(); for (auto& o : s.top->options()) { t += "|" + o->format_name(); auto ln = o->long_names(); for (size_t i = 0; i < ln.second; ++i) t += "," + ln.first[i]; } if (s.copy) { std::ostringstream o2; o2 << *s.copy; t += o2.str(); } return t; }; return std::unique_ptr<Run>(std::move(r)); };
        c.label("combining descriptions"); break; }
    default: { // the whole program
        c.key(line); c.key(text); doing = "everything: " + pbt::esc(line) + " and " + pbt::esc(text) + " style " + style_show(style); op.callbacks = true;
        struct S { std::unique_ptr<std::istringstream> is; std::unique_ptr<po::variables_map> vm; };
        op.make = [&] { auto r = std::unique_ptr<RunT<S>>(new RunT<S>); r->s.is.reset(new std::istringstream(text)); r->s.is->exceptions(std::ios::badbit); r->s.vm.reset(new po::variables_map);
            r->c = [&](S& s) { { po::command_line_parser q(line); q.options(d).style(style); if (has_pos) q.positional(rp); q.allow_unregistered(); po::store(q.run(), *s.vm); } po::store(po::parse_config_file(*s.is, d, true), *s.vm); po::notify(*s.vm); };
            r->o = [&](S& s) { return show_vm(*s.vm) + " notified " + notes(); }; return std::unique_ptr<Run>(std::move(r)); };
        c.label("whole program"); break; }
    }
    if (c.describing()) c.out() << doing << "\n";

    // ---- undisturbed
    struct Seen { Out o; string value; long allocs, callbacks; };
    const Seen* good = nullptr;
    auto once = [&](long at, bool lasting, long cb_at, int kind, bool& hit) { Seen r; { auto x = op.make(); r.o = perform(c, *x, at, lasting, cb_at, kind); hit = fault::hit || fault::cb_hit; r.allocs = fault::count; r.callbacks = fault::cb_count; r.value = x->observe();
            if (hit && (r.o.k == Out::nomem || r.o.k == Out::boom)) { string b = x->broken(); if (!b.empty()) c.fail(doing + "\nwhen " + (at ? "allocation " + std::to_string(at) + " fails" : "callback " + std::to_string(cb_at) + " throws") + ": afterwards " + b); }
            if (good && op.repeatable) { clean(); Out o = perform(c, *x, 0, false, 0, 0); string v = x->observe(); if (o.k != good->o.k || o.text != good->o.text || v != good->value) c.fail(doing + "\nrepeated after " + (at ? "allocation " + std::to_string(at) + " failed" : "callback " + std::to_string(cb_at) + " threw") + " gave " + show(o) + " " + v + "\ninstead of " + show(good->o) + " " + good->value); } } clean(); return r; };
    bool hit; Seen r0 = once(0, false, 0, 0, hit), r1 = once(0, false, 0, 0, hit);
    if (r0.o.k == Out::nomem || r0.o.k == Out::boom) c.fail("undisturbed, the call gave " + show(r0.o));
    if (r0.o.k != r1.o.k || r0.o.text != r1.o.text || r0.value != r1.value) c.fail("undisturbed, the call gave " + show(r0.o) + " " + r0.value + " and then " + show(r1.o) + " " + r1.value);
    good = &r0;
    // ---- disturbed
    vector<std::pair<long, long>> points; long na = r1.allocs, nc = op.callbacks ? r1.callbacks : 0;
    if (na <= 6) for (long i = 1; i <= na; ++i) points.push_back({i, 0}); else for (int i = 0; i < 6; ++i) points.push_back({1 + long(c.below(uint64_t(na))), 0});
    if (nc <= 4) for (long i = 1; i <= nc; ++i) points.push_back({0, i}); else for (int i = 0; i < 4; ++i) points.push_back({0, 1 + long(c.below(uint64_t(nc)))});
    size_t struck = 0;
    for (auto& p : points) {
        bool lasting = p.first && c.chance(1, 4); int kind = int(c.below(6)); string how = p.first ? "allocation " + std::to_string(p.first) + " of " + std::to_string(na) + (lasting ? " and all later ones fail" : " fails") : "callback " + std::to_string(p.second) + " of " + std::to_string(nc) + " throws";
        if (c.describing()) c.out() << how << "\n";
        auto disturbed = [&] { Seen r = once(p.first, lasting, p.second, kind, hit); return r; };
        // the strings returned are released before counting
        long before = fault::live; { Seen r = disturbed(); if (hit) ++struck;
            if (!hit) c.fail(how + ": not reached the second time");
            static const char* kinds[] = {"Boom 4711", "int 4711", "", "", "", ""}; (void)kinds;
            if (p.first) { // an allocation failed: bad_alloc, or the failure did not matter
                if (r.o.k != Out::nomem) {
                    bool same = r.o.k == r0.o.k && (r.o.text == r0.o.text || r.o.text.find("<unrepresentable") != string::npos) && r.value == r0.value;
                    if (!same) c.fail(doing + "\nwhen " + how + ": " + show(r.o) + " " + r.value + "\ninstead of bad_alloc or\n  " + show(r0.o) + " " + r0.value); } }
            else { string want = kind == 0 ? "Boom 4711" : kind == 1 ? "runtime_error boom 4711" : kind == 2 ? "po::error boom 4711" : kind == 3 ? "int 4711" : kind == 4 ? "" : "logic_error boom 4711";
                if (kind == 4 ? r.o.k != Out::nomem : (r.o.k != Out::boom || r.o.text != want)) c.fail(doing + "\nwhen " + how + ": " + show(r.o) + " " + r.value + "\ninstead of the callback's exception " + want); }
        }
        long after = fault::live;
        if (after > before && !op.leaks) { { Seen r = disturbed(); } long a2 = fault::live; { Seen r = disturbed(); } long a3 = fault::live; if (a2 > after && a3 > a2) c.fail(doing + "\nwhen " + how + ": " + std::to_string(a3 - a2) + " blocks remain allocated each time"); }
    }
    // ---- as before
    good = nullptr; Seen r2 = once(0, false, 0, 0, hit);
    if (r0.o.k != r2.o.k || r0.o.text != r2.o.text || r0.value != r2.value) c.fail(doing + "\nafter a failed call gave " + show(r2.o) + " " + r2.value + "\ninstead of " + show(r0.o) + " " + r0.value);
    if (fingerprint() != fp) c.fail(doing + ": the description changed");
    if (struck >= 2) c.nontrivial(); if (nc) c.label("callbacks thrown from"); if (r0.o.k == Out::error) c.label("rejected input");
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P22"; P.run = run; P.quick = 60000; P.thorough = 3000000;
    P.rule = "one call (any parser, store, notify, output, splitting, conversion, lookup, copy, or the whole sequence) on generated descriptions and mostly correct input, run undisturbed, then with each of up to six allocations failing (once or from then on) and up to four callbacks throwing one of six exceptions, then undisturbed again. Non-trivial: at least two of the failures struck";
    P.findings = {{"leaked-semantic", [](Ctx& c) {
        auto add = [] { po::options_description d; d.add_options()("name", po::value<int>(), "a description which is long enough to be allocated"); };
        add(); fault::at = 0; fault::count = 0; fault::armed = true; add(); disarm(); long n = fault::count;
        for (long i = 1; i <= n; ++i) { long before = fault::live; fault::at = i; fault::count = 0; fault::lasting = false; fault::armed = true; try { add(); disarm(); } catch (const std::bad_alloc&) { disarm(); } if (fault::live > before) c.fail("leaked when allocation " + std::to_string(i) + " fails"); } }}};
    return pbt::engine_main(argc, argv, P);
}
