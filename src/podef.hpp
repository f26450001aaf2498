// Option specifications shared by the generators, the reference model and the
// code that builds the real library objects from them.
#pragma once
#include <boost/program_options.hpp>
#include <boost/optional.hpp>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include "engine.hpp"

namespace po = boost::program_options;
using std::string; using std::vector; using std::wstring;

namespace t {

enum Kind { KUntyped0, KUntyped1, KString, KInt, KUnsigned, KLongLong, KDouble, KChar, KBool, KSwitch,
            KVecString, KVecInt, KOptInt, KStdOptString, KWString, KWInt, KVecWString, KColor, KVecColor, KArity, KKinds };
const char* kind_name(Kind k);

// A user type with its own validate() overload (the documented extension point).
struct Color { string name; };
inline std::ostream& operator<<(std::ostream& o, const Color& c) { return o << c.name; }
void validate(boost::any& v, const vector<string>& xs, Color*, int);
extern const char* const color_names[3];

// Canonical form of a stored value, computed both from the library and by the model.
struct MV {
    bool has = false;
    string type;             // "int", "vector<string>", ...
    vector<string> e;        // elements
    bool operator==(const MV& o) const { return has == o.has && (!has || (type == o.type && e == o.e)); }
    bool operator!=(const MV& o) const { return !(*this == o); }
    string show() const;
};

struct Sem {
    Kind kind = KUntyped0;
    bool multi = false, zero = false, composing = false, required = false;
    bool has_def = false, has_impl = false;
    bool def_textual = false, impl_textual = false;       // the overload with a textual form
    vector<string> def, impl;                             // value as elements (one for scalars)
    string def_text, impl_text;                           // only when textual
    string value_name;
    bool notifier = false, store_to = false;
    unsigned amin = 0, amax = 0;                          // KArity
    // documented arity
    unsigned min_tokens() const;
    unsigned max_tokens() const;
    bool is_vec() const { return kind == KVecString || kind == KVecInt || kind == KVecWString || kind == KVecColor; }
    bool is_wide() const { return kind == KWString || kind == KWInt || kind == KVecWString; }
    bool typed() const { return kind != KUntyped0 && kind != KUntyped1 && kind != KArity; }
    MV def_value() const; MV impl_value() const;
    string show() const;
};

struct Opt {
    vector<string> longs;
    string shrt;                 // "" or "-x"
    Sem sem;
    bool has_desc = true;
    string desc;
    string names() const;        // as given to add_options()
    bool wild() const { return !longs.empty() && longs[0].find('*') != string::npos; }
    string show() const;
};

string show(const vector<Opt>&);

// ---- building the real thing
struct Sink {                    // what notify() delivered
    vector<MV> notified;
    std::function<void()> hook;    // run by the notifier
    std::function<MV()> stored;  // current content of the store_to variable
};
struct Sinks { vector<std::shared_ptr<Sink>> s; vector<std::shared_ptr<void>> keep; };

po::value_semantic* make_semantic(const Sem&, Sinks*, Sink*);
// sinks may be null; otherwise sinks->s[i] belongs to opts[i]
void add_options(po::options_description& d, const vector<Opt>& opts, Sinks* sinks = nullptr);

MV any_to_mv(const boost::any& a);
MV make_mv(Kind k, const vector<string>& e);

// reference UTF-8 codec, independent of the library
bool ref_decode(const string& s, wstring& out);   // false if malformed
string ref_encode(const wstring& w);
string ref_encode_cp(uint32_t cp);

} // namespace t
