// P27: the same thing said to the library in another way has the same outcome.  Differential over the entry points.
#include "common.hpp"
#include <boost/lexical_cast.hpp>
#include <boost/make_shared.hpp>
#include <boost/program_options/detail/config_file.hpp>
#include <boost/program_options/environment_iterator.hpp>
#include <algorithm>
#include <fcntl.h>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
using namespace t; using pbt::Ctx;

namespace {
// Which of several ways to take: always the first for the plain program, a random one for the other.
struct Way {
    Ctx* c; string said;
    unsigned operator()(unsigned n) { return c ? unsigned(c->below(n)) : 0; }
    bool maybe(unsigned one_in = 2) { return c && c->chance(1, one_in); }
    template<class T> void shuffle(vector<T>& v) { if (c) c->shuffle(v); }
    void say(const string& s) { if (c) { said += s; said += "; "; } }
};
struct In {
    vector<Opt> opts; int style = 0; bool unreg = false, has_pos = false, has_ext = false; PosDesc pos; string caption, ext_prefix;
    vector<string> tokens, env; string text, prefix; bool ascii = true;
};
typedef vector<std::pair<string, string>> Obs;

template<class T> struct Elem { static T get(const vector<string>& e) { return boost::lexical_cast<T>(e.at(0)); } };
template<> struct Elem<string> { static string get(const vector<string>& e) { return e.at(0); } };
template<> struct Elem<bool> { static bool get(const vector<string>& e) { return e.at(0) == "true"; } };
template<> struct Elem<Color> { static Color get(const vector<string>& e) { return Color{e.at(0)}; } };
template<> struct Elem<vector<string>> { static vector<string> get(const vector<string>& e) { return e; } };
template<> struct Elem<vector<int>> { static vector<int> get(const vector<string>& e) { vector<int> v; for (auto& s : e) v.push_back(std::stoi(s)); return v; } };
template<class T> string text_of(const T& v) { return boost::lexical_cast<string>(v); }
template<class T> string text_of(const vector<T>&) { return "many"; }
template<class T> struct Streamable { enum { value = 1 }; }; template<class T> struct Streamable<vector<T>> { enum { value = 0 }; };
template<class T> void set_default(po::typed_value<T>* p, const T& v, const string& text, bool plain, std::true_type) { if (plain) p->default_value(v); else p->default_value(v, text); }
template<class T> void set_default(po::typed_value<T>* p, const T& v, const string& text, bool, std::false_type) { p->default_value(v, text); }
template<class T> void set_implicit(po::typed_value<T>* p, const T& v, const string& text, bool plain, std::true_type) { if (plain) p->implicit_value(v); else p->implicit_value(v, text); }
template<class T> void set_implicit(po::typed_value<T>* p, const T& v, const string& text, bool, std::false_type) { p->implicit_value(v, text); }
template<class T> MV observed(const T& v) { return any_to_mv(boost::any(v)); }

struct Target { std::shared_ptr<void> keep; std::function<string()> read; vector<string> told; };

template<class T> po::value_semantic* typed(Way& w, const Sem& s, Target* t)
{
    typedef std::integral_constant<bool, bool(Streamable<T>::value)> str; po::typed_value<T>* p; T* st = nullptr;
    if (s.store_to) { auto k = std::make_shared<T>(); st = k.get(); t->keep = k; t->read = [st] { return observed(*st).show(); }; }
    switch (w(st ? 2 : 4)) { case 0: p = st ? po::value<T>(st) : po::value<T>(); break; case 1: p = new po::typed_value<T>(st); break; case 2: p = po::value<T>(static_cast<T*>(nullptr)); break; default: p = po::value(static_cast<T*>(nullptr)); }
    vector<std::function<void()>> f;
    if (s.kind == KSwitch) { f.push_back([=] { p->zero_tokens(); }); if (!s.has_def) f.push_back([=] { set_default(p, Elem<T>::get({"false"}), "0", true, str()); }); }
    if (s.multi) f.push_back([=] { p->multitoken(); }); if (s.zero) f.push_back([=] { p->zero_tokens(); }); if (s.composing) f.push_back([=] { p->composing(); }); if (s.required) f.push_back([=] { p->required(); });
    auto twice = [&](std::function<void()> first, std::function<void()> then) { if (w.maybe(6)) { w.say("a setter called twice"); f.push_back([=] { first(); then(); }); } else f.push_back(then); };
    if (!s.value_name.empty()) twice([=] { p->value_name("other"); }, [=] { p->value_name(s.value_name); });
    if (s.has_def) { T v = Elem<T>::get(s.def); string tx = s.def_textual ? s.def_text : text_of(v); bool plain = !s.def_textual && !w(2); twice([=] { p->default_value(T(), "other"); }, [=] { set_default(p, v, tx, plain, str()); }); }
    if (s.has_impl) { T v = Elem<T>::get(s.impl); string tx = s.impl_textual ? s.impl_text : text_of(v); bool plain = !s.impl_textual && !w(2); twice([=] { p->implicit_value(T(), "other"); }, [=] { set_implicit(p, v, tx, plain, str()); }); }
    if (s.notifier) { auto n = [t](const T& x) { t->told.push_back(observed(x).show()); }; boost::function1<void, const T&> g(n); bool fn = w(2); twice([=] { p->notifier([](const T&) { throw std::logic_error("replaced notifier called"); }); }, [=] { if (fn) p->notifier(g); else p->notifier(n); }); }
    w.shuffle(f); for (auto& x : f) x(); return p;
}
po::value_semantic* semantic(Way& w, const Sem& s, Target* t)
{
    switch (s.kind) {
    case KUntyped0: return w(2) ? new po::untyped_value(true) : static_cast<po::untyped_value*>(new po::untyped_value(true));
    case KUntyped1: return w(2) ? new po::untyped_value() : new po::untyped_value(false);
    case KInt: return typed<int>(w, s, t); case KDouble: return typed<double>(w, s, t); case KBool: return typed<bool>(w, s, t);
    case KVecString: return typed<vector<string>>(w, s, t); case KVecInt: return typed<vector<int>>(w, s, t); case KColor: return typed<Color>(w, s, t);
    case KSwitch: if (w.c && w.c->coin()) { w.say("a switch built by hand"); return typed<bool>(w, s, t); } else {
        bool* st = nullptr; if (s.store_to) { auto k = std::make_shared<bool>(); st = k.get(); t->keep = k; t->read = [st] { return observed(*st).show(); }; }
        auto* p = st ? po::bool_switch(st) : w(2) ? po::bool_switch(nullptr) : po::bool_switch(); if (s.has_def) { if (s.def_textual) p->default_value(s.def[0] == "true", s.def_text); else p->default_value(s.def[0] == "true"); } if (s.composing) p->composing(); if (s.required) p->required(); if (!s.value_name.empty()) p->value_name(s.value_name); if (s.notifier) p->notifier([t](bool x) { t->told.push_back(observed(x).show()); }); return p; }
    default: return typed<string>(w, s, t);
    }
}
void describe(Way& w, const In& in, po::options_description& d, vector<std::unique_ptr<Target>>& targets)
{
    boost::shared_ptr<po::options_description_easy_init> chain;
    for (auto& o : in.opts) {
        targets.emplace_back(new Target); Target* t = targets.back().get(); string n = o.names(); bool plain0 = o.sem.kind == KUntyped0;
        switch (w(5)) {
        case 0: if (plain0) d.add_options()(n.c_str(), o.desc.c_str()); else d.add_options()(n.c_str(), semantic(w, o.sem, t), o.desc.c_str()); break;
        case 1: if (!chain) chain = boost::make_shared<po::options_description_easy_init>(d.add_options()); if (plain0) (*chain)(n.c_str(), o.desc.c_str()); else (*chain)(n.c_str(), semantic(w, o.sem, t), o.desc.c_str()); break;
        case 2: if (o.desc.empty()) { w.say("no description argument"); d.add_options()(n.c_str(), semantic(w, o.sem, t)); } else d.add_options()(n.c_str(), semantic(w, o.sem, t), o.desc.c_str()); break;
        case 3: w.say("an option_description"); d.add(boost::shared_ptr<po::option_description>(o.desc.empty() ? new po::option_description(n.c_str(), semantic(w, o.sem, t)) : new po::option_description(n.c_str(), semantic(w, o.sem, t), o.desc.c_str()))); break;
        default: w.say("a copied option_description"); { po::option_description x(n.c_str(), semantic(w, o.sem, t), o.desc.c_str()); d.add(boost::make_shared<po::option_description>(x)); } break;
        }
    }
}
void positional(Way& w, const In& in, po::positional_options_description& p)
{
    unsigned at = w(unsigned(in.pos.e.size() + 1)); if (!in.pos.unlimited()) at = unsigned(in.pos.e.size());
    // the unlimited name may come first: it takes what the counted ones leave
    if (w.c && in.pos.unlimited() && at < in.pos.e.size()) { w.say("the unlimited positional first"); p.add(in.pos.e.back().name.c_str(), -1); }
    for (size_t i = 0; i < in.pos.e.size(); ++i) {
        auto& e = in.pos.e[i]; if (e.count == -1) { if (!(w.c && at < in.pos.e.size())) p.add(e.name.c_str(), -1); continue; }
        switch (w(3)) { case 0: p.add(e.name.c_str(), e.count); break; case 1: for (int k = 0; k < e.count; ++k) p.add(e.name.c_str(), 1); break; default: { int k = e.count ? int(w(unsigned(e.count + 1))) : 0; p.add(e.name.c_str(), k).add("nothing", 0).add(e.name.c_str(), e.count - k); } }
    }
}
string show_err(Err e) { return "error " + e.show() + " \"" + e.what + "\""; }
template<class C> vector<po::option> plain(const vector<po::basic_option<C>>& v) { vector<po::option> r; for (auto& o : from_real(v)) { po::option x; x.string_key = o.key; x.position_key = o.pos; x.value = o.value; x.original_tokens = o.orig; x.unregistered = o.unreg; x.case_insensitive = o.ci; r.push_back(x); } return r; }
string show_opts(const vector<po::option>& v, int prefix, bool same_desc) { string s; for (auto& o : from_real(v)) s += o.show() + "\n"; return s + "prefix " + std::to_string(prefix) + (same_desc ? "" : ", another description"); }

struct Stored { std::shared_ptr<po::parsed_options> n; std::shared_ptr<po::wparsed_options> w; };
template<class C> void setup(Way& w, const In& in, const po::options_description& d, const po::options_description& other, const po::positional_options_description& pd, const po::ext_parser& ext, po::basic_command_line_parser<C>& q, std::unique_ptr<po::positional_options_description>& other_pd)
{
    vector<std::function<void()>> f; f.push_back([&] { q.options(d); });
    bool replaced = w.maybe(5), style_too = in.style || w(2);
    if (in.style || (replaced && style_too) || !w(2)) { int s = in.style; if (!s && w(2)) s = po::command_line_style::default_style; f.push_back([&q, s] { q.style(s); }); } else w.say("no style given");
    if (in.has_pos) f.push_back([&] { q.positional(pd); });
    if (in.unreg) f.push_back([&] { q.allow_unregistered(); });
    if (in.has_ext) f.push_back([&] { q.extra_parser(ext); }); else if (w.maybe(4)) { w.say("an empty extra parser"); f.push_back([&] { q.extra_parser(po::ext_parser()); }); }
    if (w.maybe(6)) { w.say("an empty style parser"); f.push_back([&] { q.extra_style_parser(po::command_line_parser::style_parser()); }); }
    w.shuffle(f);
    // settings which are replaced
    if (replaced) { w.say("another description set first"); q.options(other); if (style_too) q.style(po::command_line_style::allow_short | po::command_line_style::allow_dash_for_short | po::command_line_style::short_allow_next); if (in.has_ext) q.extra_parser([](const string&) { return std::make_pair(string("wrong"), string("1")); }); if (in.has_pos) { other_pd.reset(new po::positional_options_description); other_pd->add("wrong", 1); q.positional(*other_pd); } }
    for (auto& x : f) x();
}
template<class C> vector<std::basic_string<C>> conv(const vector<string>& v) { vector<std::basic_string<C>> r; for (auto& s : v) r.emplace_back(s.begin(), s.end()); return r; }
template<class C> po::basic_parsed_options<C> line(Way& w, const In& in, const po::options_description& d, const po::options_description& other, const po::positional_options_description& pd, const po::ext_parser& ext)
{
    std::unique_ptr<po::positional_options_description> opd; vector<std::basic_string<C>> t = conv<C>(in.tokens);
    vector<const C*> argv; static const C prog[] = {'p', 0}; argv.push_back(prog); for (auto& s : t) argv.push_back(s.c_str()); argv.push_back(nullptr); int argc = int(argv.size()) - 1; if (t.empty() && w(2)) { argv.erase(argv.begin()); argc = 0; }
    switch (w(4)) {
    case 0: { po::basic_command_line_parser<C> q(t); setup(w, in, d, other, pd, ext, q, opd); return q.run(); }
    case 1: { w.say("argc, argv"); po::basic_command_line_parser<C> q(argc, argv.data()); setup(w, in, d, other, pd, ext, q, opd); return q.run(); }
    case 2: { w.say("a copied parser"); po::basic_command_line_parser<C> q(t); setup(w, in, d, other, pd, ext, q, opd); po::basic_command_line_parser<C> r(q); return r.run(); }
    default: if (!in.has_pos && !in.unreg) { w.say("parse_command_line"); if (in.has_ext) return po::parse_command_line(argc, argv.data(), d, in.style, ext); if (!in.style && w(2)) return po::parse_command_line(argc, argv.data(), d); return w(2) ? po::parse_command_line(argc, argv.data(), d, in.style ? in.style : int(po::command_line_style::default_style)) : po::parse_command_line(argc, argv.data(), d, in.style); }
        { w.say("setters in one expression"); if (in.has_pos && in.unreg && in.has_ext) return po::basic_command_line_parser<C>(argc, argv.data()).positional(pd).allow_unregistered().extra_parser(ext).style(in.style).options(d).run();
          po::basic_command_line_parser<C> q(argc, argv.data()); setup(w, in, d, other, pd, ext, q, opd); return q.run(); }
    }
}
struct MemFile { int fd; string name; MemFile(const string& s) { fd = memfd_create("cfg", 0); if (fd < 0) _exit(2); for (size_t at = 0; at < s.size(); ) { ssize_t n = write(fd, s.data() + at, s.size() - at); if (n <= 0) _exit(2); at += size_t(n); } name = "/proc/self/fd/" + std::to_string(fd); } ~MemFile() { close(fd); } };
template<class C> po::basic_parsed_options<C> config(Way& w, const In& in, const po::options_description& d)
{
    bool shorts = false; for (auto& o : in.opts) if (o.longs.empty()) shorts = true;
    switch (w(4)) {
    case 1: { w.say("a file by name"); MemFile f(in.text); return (!in.unreg && w(2)) ? po::parse_config_file<C>(f.name.c_str(), d) : po::parse_config_file<C>(f.name.c_str(), d, in.unreg); }
    case 2: if (!shorts) { w.say("the iterator of a configuration file"); std::set<string> allowed; for (auto& o : d.options()) allowed.insert(o->long_name()); std::basic_istringstream<C> is(std::basic_string<C>(in.text.begin(), in.text.end())); po::parsed_options r(&d); po::detail::basic_config_file_iterator<C> i(is, allowed, in.unreg), e; for (; i != e; ++i) { if (i->string_key != (*i).string_key) throw std::runtime_error("-> and * differ"); r.options.push_back(*i); } return po::basic_parsed_options<C>(r); }   // falls through otherwise
    default: { std::basic_istringstream<C> is(std::basic_string<C>(in.text.begin(), in.text.end())); if (!in.unreg && w(2)) return po::parse_config_file(is, d); return po::parse_config_file(is, d, in.unreg); }
    }
}
struct Env {
    vector<vector<char>> text; vector<char*> ptr; char** old;
    Env(const vector<string>& e) : old(environ) { for (auto& s : e) { text.emplace_back(s.begin(), s.end()); text.back().push_back(0); } for (auto& t : text) ptr.push_back(t.data()); ptr.push_back(nullptr); environ = ptr.data(); }
    ~Env() { environ = old; }
};
struct Mapper { string p; string operator()(const string& s) const { string r; if (s.compare(0, p.size(), p) == 0) for (size_t i = p.size(); i < s.size(); ++i) r += s[i] >= 'A' && s[i] <= 'Z' ? char(s[i] + 32) : s[i]; return r; } };
po::parsed_options environment(Way& w, const In& in, const po::options_description& d)
{
    Env e(in.env); Mapper m{in.prefix};
    switch (w(6)) {
    case 0: return po::parse_environment(d, in.prefix);
    case 1: return po::parse_environment(d, in.prefix.c_str());
    case 2: w.say("a name mapper"); return po::parse_environment(d, m);
    case 3: w.say("a name mapper"); return po::parse_environment(d, boost::function1<string, string>(m));
    case 4: w.say("a name mapper"); return po::parse_environment(d, [&](const string& s) { return m(s); });
    default: { w.say("the environment iterator"); po::parsed_options r(&d); for (boost::environment_iterator i(environ), end; i != end; i++) { po::option o; o.string_key = m(i->first); if (o.string_key.empty()) continue; o.value.push_back(i->second); r.options.push_back(o); } return r; }
    }
}
string take(Way& w, const Stored& s, po::variables_map& vm)
{
    Caught k = catch_err([&] {
        if (s.w) { w.say("wide options stored"); po::store(*s.w, vm); return; }
        switch (w(4)) { case 0: po::store(*s.n, vm); break; case 1: po::store(*s.n, vm, false); break; case 2: { po::parsed_options copy(nullptr); copy = *s.n; po::store(copy, vm); break; } default: { po::parsed_options moved(*s.n); po::store(std::move(moved), vm); } } });
    return k.threw ? show_err(k.e) : string();
}
Obs observe(Way w, const In& in, string& said)
{
    Obs r; vector<std::unique_ptr<Target>> targets; auto done = [&](const char* what, string t) { r.push_back({what, t}); };
    auto make = [&]() -> po::options_description* {
        if (in.caption.empty()) switch (w(5)) { case 0: return new po::options_description(); case 1: return new po::options_description(80); case 2: return new po::options_description(80, 40); case 3: return new po::options_description(""); default: return new po::options_description(string(), 80, 40); }
        switch (w(4)) { case 0: return new po::options_description(in.caption); case 1: return new po::options_description(in.caption, 80); case 2: return new po::options_description(in.caption.c_str(), po::options_description::m_default_line_length); default: return new po::options_description(in.caption, 80, 40); } };
    std::unique_ptr<po::options_description> dp(make()); describe(w, in, *dp, targets);
    if (w.maybe(5)) { w.say("a copy of the description"); dp.reset(new po::options_description(*dp)); }
    po::options_description& d = *dp; po::options_description other; other.add_options()("wrong", ""); po::positional_options_description pd; if (in.has_pos) positional(w, in, pd);
    string pre = in.ext_prefix; po::ext_parser ext = [pre](const string& s) { return !pre.empty() && s.compare(0, pre.size(), pre) == 0 ? std::make_pair(s.substr(pre.size()), string()) : std::make_pair(string(), string()); };
    vector<Stored> st; string t;
    auto parsed = [&](const char* what, std::function<po::parsed_options()> narrow, std::function<po::wparsed_options()> wide) {
        Stored s; Caught k = catch_err([&] {
            if (wide && in.ascii && w.maybe(4)) { w.say(string("wide ") + what); s.w = std::make_shared<po::wparsed_options>(wide()); t = show_opts(plain(s.w->options), s.w->m_options_prefix, s.w->description == &d); }
            else { s.n = std::make_shared<po::parsed_options>(narrow()); t = show_opts(s.n->options, s.n->m_options_prefix, s.n->description == &d); if (in.ascii && w.maybe(8)) { w.say("converted to wide"); s.w = std::make_shared<po::wparsed_options>(*s.n); } } });
        if (k.threw) t = show_err(k.e); else st.push_back(s); done(what, t); };
    parsed("command line", [&] { return line<char>(w, in, d, other, pd, ext); }, [&] { return line<wchar_t>(w, in, d, other, pd, ext); });
    parsed("file", [&] { return config<char>(w, in, d); }, [&] { return config<wchar_t>(w, in, d); });
    parsed("environment", [&] { return environment(w, in, d); }, nullptr);
    std::unique_ptr<po::variables_map> vp(w(2) ? new po::variables_map(static_cast<po::abstract_variables_map*>(nullptr)) : new po::variables_map()); po::variables_map& vm = *vp; t.clear();
    for (auto& s : st) { string e = take(w, s, vm); t += e + "."; if (!e.empty()) break; } done("store", t);
    { Caught k = catch_err([&] { if (w(2)) vm.notify(); else po::notify(vm); }); done("notify", k.threw ? show_err(k.e) : "done"); }
    t.clear(); for (auto& kv : vm) { const po::variable_value* v = &kv.second; const po::variables_map& cvm = vm; switch (w(4)) { case 0: break; case 1: v = &vm[kv.first]; break; case 2: v = &cvm.at(kv.first); break; default: v = &cvm.find(kv.first)->second; } t += pbt::esc(kv.first) + " = " + any_to_mv(v->value()).show() + (v->defaulted() ? " (default)" : "") + (v->empty() ? " (empty)" : "") + "\n";
        if (auto* s = boost::any_cast<string>(&v->value())) if (*s != v->as<string>() || *s != vm.at(kv.first).as<string>()) t += "as differs\n"; if (auto* s = boost::any_cast<int>(&v->value())) if (*s != v->as<int>()) t += "as differs\n"; if (!vm.count(kv.first)) t += "not counted\n"; }
    done("the map", t); t.clear();
    for (auto& x : targets) { for (auto& s : x->told) t += s + " "; if (x->read) t += "bound " + x->read(); t += "\n"; } done("deliveries", t);
    { std::ostringstream os; Caught k = catch_err([&] { switch (w(5)) { case 0: os << d; break; case 1: d.print(os); break; case 2: d.print(os, 0); break; case 3: d.print(os, d.get_option_column_width()); break; default: os << po::options_description(d); } }); done("help", k.threw ? show_err(k.e) : os.str()); }
    t.clear(); for (auto& o : in.opts) for (string n : {o.longs.empty() ? o.shrt : o.longs.back(), o.longs.empty() ? string("zz") : o.longs[0].substr(0, 1)}) for (bool approx : {false, true}) {
        Caught k = catch_err([&] { const po::option_description* x; switch (w(4)) { case 0: x = &d.find(n, approx); break; case 1: x = &d.find(n, approx, false); break; case 2: x = &d.find(n, approx, false, false); break; default: x = w(2) ? d.find_nothrow(n, approx) : d.find_nothrow(n, approx, false, false); if (!x) throw po::unknown_option(); } size_t at = 0; while (at < d.options().size() && d.options()[at].get() != x) ++at; t += std::to_string(at) + " "; });
        if (k.threw) t += show_err(k.e) + " "; }
    done("lookup", t); said = w.said; return r;
}
void run(Ctx& c)
{
    NameCfg n; n.collide = c.coin(); n.wild = c.chance(1, 4); n.weird = c.chance(1, 8); n.max_opts = 1 + c.below(7); In in; in.opts = gen_names(c, n); SemCfg sc; sc.arity = false; gen_sems(c, in.opts, sc);
    for (auto& o : in.opts) {
        switch (o.sem.kind) { case KUntyped0: case KUntyped1: case KString: case KInt: case KDouble: case KBool: case KSwitch: case KVecString: case KVecInt: case KColor: break; default: o.sem = Sem(); o.sem.kind = KString; o.sem.composing = c.chance(1, 4); }
        for (auto& l : o.longs) for (auto& ch : l) if (!ch) ch = 'z'; o.has_desc = true; o.desc = c.chance(1, 3) ? "" : gen_word(c); for (auto& ch : o.desc) if (!ch || ch == '\t') ch = 'z'; }
    in.style = gen_style(c); in.unreg = c.chance(1, 3); in.has_pos = c.coin(); if (in.has_pos) in.pos = gen_pos(c, in.opts, c.chance(3, 4)); for (auto& e : in.pos.e) if (e.name.empty()) e.name = "p"; in.has_ext = c.chance(1, 5); if (in.has_ext) { in.ext_prefix = c.pick({string("@"), string("-"), string("--"), string("a")}); } if (c.chance(1, 3)) in.caption = "Caption";
    in.tokens = c.chance(1, 3) ? gen_tokens(c, in.opts, in.style, c.size(6, 40)) : gen_line(c, in.opts, in.style, c.size(6, 40), c.chance(1, 3) ? 15 : 0, in.has_pos || in.unreg); for (auto& x : in.tokens) for (auto& ch : x) if (!ch) ch = 'z';
    vector<Opt> lv = only_long(in.opts); in.text = c.chance(1, 3) ? gen_config(c, in.opts, true, c.size(5, 40)) : lv.empty() ? string() : gen_good_config(c, lv, c.size(5, 40), c.chance(1, 4) ? 15 : 0);
    in.prefix = c.pick({string("APP_"), string(""), string("app_"), string("A")}); { size_t m = c.below(5); for (size_t i = 0; i < m; ++i) { const Opt& o = c.pick(in.opts); string nm = o.longs.empty() ? string("none") : o.longs[0]; if (c.chance(1, 3)) nm = flip_case(c, nm); string v = c.chance(3, 4) ? gen_value_for(c, o.sem.kind, true) : gen_word(c); for (auto& ch : v) if (!ch) ch = 'z'; in.env.push_back((c.chance(5, 6) ? in.prefix : string("X_")) + nm + (c.chance(1, 10) ? "" : "=" + v)); } }
    string all = in.text; for (auto& x : in.tokens) all += x; for (auto& o : in.opts) { all += o.names(); } for (auto& e : in.env) all += e; for (auto& e : in.pos.e) all += e.name;
    for (unsigned char ch : all) if (ch > 127) in.ascii = false;
    c.key(all); c.key(uint64_t(in.style)); c.key(uint64_t(in.unreg * 4 + in.has_pos * 2 + in.has_ext)); for (auto& o : in.opts) { c.key(o.sem.show()); c.key(o.desc); }
    if (c.describing()) { c.out() << show(in.opts) << "style " << style_show(in.style) << (in.unreg ? ", unregistered allowed" : "") << (in.has_ext ? ", extra parser for " + pbt::esc(in.ext_prefix) : "") << "\ntokens " << pbt::esc(in.tokens) << "\nfile " << pbt::esc(in.text) << "\nenvironment " << pbt::esc(in.env) << " prefix " << pbt::esc(in.prefix) << "\n"; if (in.has_pos) for (auto& e : in.pos.e) c.out() << "  positional " << pbt::esc(e.name) << " " << e.count << "\n"; }
    string said; Obs a = observe(Way{nullptr, ""}, in, said); unsigned k = 1 + unsigned(c.below(3)); size_t ways = 0;
    for (unsigned i = 0; i < k; ++i) { Obs b = observe(Way{&c, ""}, in, said); ways += said.size(); if (c.describing()) c.out() << "the other way: " << said << "\n"; for (size_t j = 0; j < a.size(); ++j) if (a[j].second != b[j].second) c.fail("the other way (" + said + ") " + a[j].first + " differs:\n" + a[j].second + "\nand\n" + b[j].second);
        for (const char* l : {"argc, argv", "parse_command_line", "a copied parser", "a file by name", "iterator of a conf", "environment iterator", "name mapper", "wide", "a setter called twice", "switch built by hand", "an option_description", "unlimited positional first", "another description set first", "no style given"}) if (said.find(l) != string::npos) c.label(l); }
    bool ok = true; for (size_t j = 0; j < 4; ++j) if (a[j].second.compare(0, 5, "error") == 0) ok = false; c.label(ok ? "everything accepted" : "something rejected");
    if (ways && in.tokens.size() + in.env.size() + (in.text.empty() ? 0 : 1) >= 2) c.nontrivial();
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P27"; P.run = run; P.quick = 40000; P.thorough = 2000000;
    P.rule = "a program (options, positional description, style, parsers) and its input, right or wrong; built and run once in the plainest way and again in randomly chosen equivalent ways (constructors, overloads, defaulted arguments, order and repetition of setters, argc/argv, convenience functions, file, iterators, wide interfaces, store and access functions); options, errors, map, deliveries, help and lookups must be the same. Non-trivial: the ways differ and the input has at least two parts";
    return pbt::engine_main(argc, argv, P);
}
