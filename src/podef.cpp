#include "podef.hpp"
#include <boost/lexical_cast.hpp>
#include <cstdio>
#include <typeinfo>

namespace t {

const char* kind_name(Kind k)
{
    static const char* n[] = {"untyped0","untyped1","string","int","unsigned","longlong","double","char","bool","bool_switch","vector<string>","vector<int>","optional<int>","std::optional<string>","wstring","wide int","vector<wstring>","Color","vector<Color>","arity"};
    return n[k];
}
const char* const color_names[3] = {"red", "green", "dark blue"};

void validate(boost::any& v, const vector<string>& xs, Color*, int)
{
    po::validators::check_first_occurrence(v);
    const string& s = po::validators::get_single_string(xs);
    for (auto n : color_names) if (s == n) { v = boost::any(Color{s}); return; }
    throw po::validation_error(po::validation_error::invalid_option_value);
}

// ------------------------------------------------------------------ values
static string r(const string& s) { return s; }
static string r(int v) { return std::to_string(v); }
static string r(unsigned v) { return std::to_string(v); }
static string r(long long v) { return std::to_string(v); }
static string r(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
static string r(char v) { return string(1, v); }
static string r(bool v) { return v ? "true" : "false"; }
static string r(const wstring& w) { return ref_encode(w); }
static string r(const Color& c) { return c.name; }

template<class T> struct TN; 
#define TNAME(T, n) template<> struct TN<T> { static const char* name() { return n; } };
TNAME(string,"string") TNAME(int,"int") TNAME(unsigned,"unsigned") TNAME(long long,"longlong") TNAME(double,"double")
TNAME(char,"char") TNAME(bool,"bool") TNAME(wstring,"wstring") TNAME(Color,"Color")
TNAME(vector<string>,"vector<string>") TNAME(vector<int>,"vector<int>") TNAME(vector<wstring>,"vector<wstring>") TNAME(vector<Color>,"vector<Color>")
TNAME(boost::optional<int>,"optional<int>") TNAME(std::optional<string>,"std::optional<string>")

template<class T> static MV mv(const T& v) { MV m; m.has = true; m.type = TN<T>::name(); m.e.push_back(r(v)); return m; }
template<class T> static MV mv(const vector<T>& v) { MV m; m.has = true; m.type = TN<vector<T>>::name(); for (auto& x : v) m.e.push_back(r(x)); return m; }
static MV mv(const boost::optional<int>& v) { MV m; m.has = true; m.type = "optional<int>"; if (v) m.e.push_back(r(*v)); return m; }
static MV mv(const std::optional<string>& v) { MV m; m.has = true; m.type = "std::optional<string>"; if (v) m.e.push_back(r(*v)); return m; }

// custom semantics store a distinct type
struct Tokens { vector<string> v; };

MV any_to_mv(const boost::any& a)
{
    if (a.empty()) return MV();
#define TRY(T) if (auto* p = boost::any_cast<T>(&a)) return mv(*p);
    TRY(string) TRY(int) TRY(unsigned) TRY(long long) TRY(double) TRY(char) TRY(bool) TRY(wstring) TRY(Color)
    TRY(vector<string>) TRY(vector<int>) TRY(vector<wstring>) TRY(vector<Color>) TRY(boost::optional<int>) TRY(std::optional<string>)
    if (auto* p = boost::any_cast<Tokens>(&a)) { MV m; m.has = true; m.type = "tokens"; m.e = p->v; return m; }
    MV m; m.has = true; m.type = string("?") + a.type().name(); return m;
}

string MV::show() const { return has ? type + pbt::esc(e) : "(empty)"; }

static const char* type_of(Kind k)
{
    switch (k) {
    case KUntyped0: case KUntyped1: case KString: return "string";
    case KInt: case KWInt: return "int"; case KUnsigned: return "unsigned"; case KLongLong: return "longlong";
    case KDouble: return "double"; case KChar: return "char"; case KBool: case KSwitch: return "bool";
    case KVecString: return "vector<string>"; case KVecInt: return "vector<int>"; case KOptInt: return "optional<int>";
    case KStdOptString: return "std::optional<string>"; case KWString: return "wstring"; case KVecWString: return "vector<wstring>";
    case KColor: return "Color"; case KVecColor: return "vector<Color>"; default: return "tokens";
    }
}
MV make_mv(Kind k, const vector<string>& e) { MV m; m.has = true; m.type = type_of(k); m.e = e; return m; }

unsigned Sem::min_tokens() const
{
    switch (kind) {
    case KUntyped0: case KSwitch: return 0;
    case KUntyped1: return 1;
    case KArity: return amin;
    default: return zero || has_impl ? 0 : 1;
    }
}
unsigned Sem::max_tokens() const
{
    switch (kind) {
    case KUntyped0: return 0;
    case KSwitch: return multi ? ~0u : 0;
    case KUntyped1: return 1;
    case KArity: return amax;
    default: return multi ? ~0u : zero ? 0 : 1;
    }
}
MV Sem::def_value() const { if (kind == KSwitch && !has_def) return make_mv(kind, {"false"}); return has_def ? make_mv(kind, def) : MV(); }
MV Sem::impl_value() const { return has_impl ? make_mv(kind, impl) : MV(); }

string Sem::show() const
{
    string s = kind_name(kind);
    if (kind == KArity) s += "(" + std::to_string(amin) + ".." + (amax == ~0u ? "inf" : std::to_string(amax)) + ")";
    if (multi) s += " multitoken"; if (zero) s += " zero_tokens"; if (composing) s += " composing"; if (required) s += " required";
    if (has_def) s += " default=" + pbt::esc(def) + (def_textual ? " text " + pbt::esc(def_text) : "");
    if (has_impl) s += " implicit=" + pbt::esc(impl) + (impl_textual ? " text " + pbt::esc(impl_text) : "");
    if (!value_name.empty()) s += " value_name=" + pbt::esc(value_name);
    return s;
}
string Opt::names() const
{
    string s; for (size_t i = 0; i < longs.size(); ++i) { if (i) s += ','; s += longs[i]; }
    if (!shrt.empty()) { s += ','; s += shrt[1]; }
    return s;
}
string Opt::show() const { return pbt::esc(names()) + ": " + sem.show(); }
string show(const vector<Opt>& v) { string s = "options:\n"; for (auto& o : v) s += "  " + o.show() + "\n"; return s; }

// ------------------------------------------------------------------ semantics
template<class T> static T from_elems(const vector<string>& e) { return boost::lexical_cast<T>(e.at(0)); }
template<> string from_elems<string>(const vector<string>& e) { return e.at(0); }
template<> char from_elems<char>(const vector<string>& e) { return e.at(0).at(0); }
template<> bool from_elems<bool>(const vector<string>& e) { return e.at(0) == "true"; }
template<> wstring from_elems<wstring>(const vector<string>& e) { wstring w; ref_decode(e.at(0), w); return w; }
template<> Color from_elems<Color>(const vector<string>& e) { return Color{e.at(0)}; }
template<> vector<string> from_elems<vector<string>>(const vector<string>& e) { return e; }
template<> vector<int> from_elems<vector<int>>(const vector<string>& e) { vector<int> v; for (auto& s : e) v.push_back(std::stoi(s)); return v; }
template<> vector<wstring> from_elems<vector<wstring>>(const vector<string>& e) { vector<wstring> v; for (auto& s : e) { wstring w; ref_decode(s, w); v.push_back(w); } return v; }
template<> vector<Color> from_elems<vector<Color>>(const vector<string>& e) { vector<Color> v; for (auto& s : e) v.push_back(Color{s}); return v; }
template<> boost::optional<int> from_elems<boost::optional<int>>(const vector<string>& e) { return e.empty() ? boost::optional<int>() : boost::optional<int>(std::stoi(e[0])); }
template<> std::optional<string> from_elems<std::optional<string>>(const vector<string>& e) { return e.empty() ? std::optional<string>() : std::optional<string>(e[0]); }

template<class T, class C> static po::value_semantic* typed_common(po::typed_value<T, C>* v, const Sem& s)
{
    if (s.has_def && s.def_textual) v->default_value(from_elems<T>(s.def), s.def_text);
    if (s.has_impl && s.impl_textual) v->implicit_value(from_elems<T>(s.impl), s.impl_text);
    if (s.multi) v->multitoken();
    if (s.zero) v->zero_tokens();
    if (s.composing) v->composing();
    if (s.required) v->required();
    if (!s.value_name.empty()) v->value_name(s.value_name);
    return v;
}
template<class T> static T* storage(const Sem& s, Sinks* sinks, Sink* sink)
{
    if (!sinks || !s.store_to) return nullptr;
    std::shared_ptr<T> p(new T()); sinks->keep.push_back(p); T* q = p.get();
    sink->stored = [q] { return mv(*q); };
    return q;
}
template<class T, class C> static po::value_semantic* finish(po::typed_value<T, C>* v, const Sem& s, Sinks* sinks, Sink* sink)
{
    if (sinks && s.notifier) v->notifier([sink](const T& x) { sink->notified.push_back(mv(x)); if (sink->hook) sink->hook(); });
    return typed_common(v, s);
}
template<class T> static po::value_semantic* streamable(const Sem& s, Sinks* sinks, Sink* sink)
{
    auto* v = po::value<T>(storage<T>(s, sinks, sink));
    if (s.has_def && !s.def_textual) v->default_value(from_elems<T>(s.def));
    if (s.has_impl && !s.impl_textual) v->implicit_value(from_elems<T>(s.impl));
    return finish(v, s, sinks, sink);
}
template<class T> static po::value_semantic* textual(const Sem& s, Sinks* sinks, Sink* sink)
{ return finish(po::value<T>(storage<T>(s, sinks, sink)), s, sinks, sink); }
template<class T> static po::value_semantic* wide(const Sem& s, Sinks* sinks, Sink* sink)
{ return finish(po::wvalue<T>(storage<T>(s, sinks, sink)), s, sinks, sink); }
template<class T> static po::value_semantic* wide_streamable(const Sem& s, Sinks* sinks, Sink* sink)
{
    auto* v = po::wvalue<T>(storage<T>(s, sinks, sink));
    if (s.has_def && !s.def_textual) v->default_value(from_elems<T>(s.def));
    if (s.has_impl && !s.impl_textual) v->implicit_value(from_elems<T>(s.impl));
    return finish(v, s, sinks, sink);
}

// A semantic with arbitrary arity, through the public abstract interface.
class ArityValue : public po::value_semantic_codecvt_helper<char> {
    unsigned m_min, m_max; bool m_comp, m_req; string m_name; Sink* m_sink;
public:
    ArityValue(const Sem& s, Sink* k) : m_min(s.amin), m_max(s.amax), m_comp(s.composing), m_req(s.required), m_name(s.value_name), m_sink(s.notifier ? k : nullptr) {}
    string name() const { return m_name.empty() ? "tokens" : m_name; }
    unsigned min_tokens() const { return m_min; }
    unsigned max_tokens() const { return m_max; }
    bool is_composing() const { return m_comp; }
    bool is_required() const { return m_req; }
    bool apply_default(boost::any&) const { return false; }
    void notify(const boost::any& a) const { if (m_sink) { m_sink->notified.push_back(any_to_mv(a)); if (m_sink->hook) m_sink->hook(); } }
protected:
    void xparse(boost::any& v, const vector<string>& toks) const
    { if (v.empty()) v = Tokens(); auto* p = boost::any_cast<Tokens>(&v); p->v.insert(p->v.end(), toks.begin(), toks.end()); }
};

po::value_semantic* make_semantic(const Sem& s, Sinks* k, Sink* x)
{
    switch (s.kind) {
    case KUntyped0: return new po::untyped_value(true);
    case KUntyped1: return new po::untyped_value(false);
    case KString: return streamable<string>(s, k, x);
    case KInt: return streamable<int>(s, k, x);
    case KUnsigned: return streamable<unsigned>(s, k, x);
    case KLongLong: return streamable<long long>(s, k, x);
    case KDouble: return streamable<double>(s, k, x);
    case KChar: return streamable<char>(s, k, x);
    case KBool: return streamable<bool>(s, k, x);
    case KSwitch: {
        bool* st = storage<bool>(s, k, x);
        auto* v = st ? po::bool_switch(st) : po::bool_switch();
        if (s.has_def && !s.def_textual) v->default_value(s.def.at(0) == "true");
        return finish(v, s, k, x);
    }
    case KVecString: return textual<vector<string>>(s, k, x);
    case KVecInt: return textual<vector<int>>(s, k, x);
    case KOptInt: return textual<boost::optional<int>>(s, k, x);
    case KStdOptString: return textual<std::optional<string>>(s, k, x);
    case KWString: return wide<wstring>(s, k, x);
    case KWInt: return wide_streamable<int>(s, k, x);
    case KVecWString: return wide<vector<wstring>>(s, k, x);
    case KColor: return textual<Color>(s, k, x);
    case KVecColor: return textual<vector<Color>>(s, k, x);
    default: return new ArityValue(s, x);
    }
}

void add_options(po::options_description& d, const vector<Opt>& opts, Sinks* sinks)
{
    for (auto& o : opts) {
        Sink* sink = nullptr;
        if (sinks) { sinks->s.push_back(std::make_shared<Sink>()); sink = sinks->s.back().get(); }
        string n = o.names();
        // now and then as a ready-made option_description
        unsigned h = unsigned(n.size()) * 7; for (unsigned char ch : n) h = h * 31 + ch;
        if (h % 5 == 3) { po::option_description* x = o.has_desc ? new po::option_description(n.c_str(), make_semantic(o.sem, sinks, sink), o.desc.c_str()) : new po::option_description(n.c_str(), make_semantic(o.sem, sinks, sink)); d.add(boost::shared_ptr<po::option_description>(x)); }
        else if (o.sem.kind == KUntyped0 && o.has_desc) d.add_options()(n.c_str(), o.desc.c_str());
        else if (o.has_desc) d.add_options()(n.c_str(), make_semantic(o.sem, sinks, sink), o.desc.c_str());
        else d.add_options()(n.c_str(), make_semantic(o.sem, sinks, sink));
    }
}

// ------------------------------------------------------------------ UTF-8
string ref_encode_cp(uint32_t c)
{
    string s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xC0 | (c >> 6)); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | (c >> 12)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | (c >> 18)); s += char(0x80 | ((c >> 12) & 63)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
    return s;
}
string ref_encode(const wstring& w) { string s; for (wchar_t c : w) s += ref_encode_cp(uint32_t(c)); return s; }
bool ref_decode(const string& s, wstring& out)
{
    out.clear();
    for (size_t i = 0; i < s.size(); ) {
        unsigned char c = s[i]; int n; uint32_t v;
        if (c < 0x80) { n = 0; v = c; } else if (c >= 0xC2 && c < 0xE0) { n = 1; v = c & 31; }
        else if (c >= 0xE0 && c < 0xF0) { n = 2; v = c & 15; } else if (c >= 0xF0 && c < 0xF5) { n = 3; v = c & 7; } else return false;
        if (i + n >= s.size() + 0 && n > 0 && i + n > s.size() - 1) return false;
        for (int k = 1; k <= n; ++k) { unsigned char d = s[i + k]; if ((d & 0xC0) != 0x80) return false; v = (v << 6) | (d & 63); }
        if ((n == 2 && (v < 0x800 || (v >= 0xD800 && v < 0xE000))) || (n == 3 && (v < 0x10000 || v > 0x10FFFF))) return false;
        out += wchar_t(v); i += n + 1;
    }
    return true;
}

} // namespace t
