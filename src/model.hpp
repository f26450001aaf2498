// Reference model of the library's observable behaviour (no library code).
#pragma once
#include "podef.hpp"
#include <climits>

namespace t {

namespace st = po::command_line_style;

// ---- errors
struct Err {
    string cls;                 // exception class
    int kind = -1;              // for classes with a kind
    string what;                // complete message; empty if not specified
    vector<string> alts;        // ambiguous_option::alternatives()
    string show() const;
};
// Runs f and reports the exception, if any, in the same form.
struct Caught { bool threw = false; Err e; };
Caught catch_err(const std::function<void()>& f);
// class and kind agree (and alternatives)
bool same_class(const Err& model, const Err& real);

struct MsgCtx { string option, token, value, line; int style = 0; };
string render(string tmpl, const MsgCtx& c);
string canonical_name(const MsgCtx& c);
extern const char *T_UNKNOWN, *T_AMBIG, *T_MISSING, *T_EXTRA, *T_EMPTYADJ, *T_LINE, *T_MULTIOCC, *T_MULTIVAL, *T_ATLEAST, *T_BOOL, *T_BADVAL, *T_REQUIRED, *T_TOOMANY;

// ---- names
string lower(const string& s);
struct Found { enum R { none, one, ambiguous } r = none; size_t idx = 0; vector<string> alts; };
Found lookup(const vector<Opt>& opts, const string& name, bool approx, bool lci, bool sci);
string key_of(const Opt& o, const string& spelled);
string display_name(const Opt& o, int prefix);

// ---- command line
struct POpt {
    string key; int pos = -1; vector<string> value, orig; bool unreg = false, ci = false;
    bool operator==(const POpt& o) const { return key == o.key && pos == o.pos && value == o.value && orig == o.orig && unreg == o.unreg && ci == o.ci; }
    string show() const;
};
string show(const vector<POpt>&);
template<class C> POpt from_real(const po::basic_option<C>& o);
vector<POpt> from_real(const vector<po::option>&);
vector<POpt> from_real(const vector<po::woption>&);   // values re-encoded with the reference codec

struct PosDesc {                 // positional_options_description
    struct E { string name; int count; };
    vector<E> e;
    bool unlimited() const { return !e.empty() && e.back().count == -1; }
    uint64_t total() const;
    string name_at(uint64_t i) const;
    void build(po::positional_options_description& d) const;
};

struct ParseCfg {
    const vector<Opt>* opts = nullptr;
    int style = 0;                                    // as given (0 = default)
    const PosDesc* pos = nullptr;
    bool allow_unreg = false;
    // extra_parser: token -> (name, value), empty name if it declines
    std::function<std::pair<string, string>(const string&)> extra;
    // extra_style_parser: tokens from i on -> (options, number of tokens consumed)
    std::function<std::pair<vector<POpt>, size_t>(const vector<string>&, size_t)> style_parser;
};
struct ParseTrace {              // what happened, for classification
    bool adjacent = false, next = false, sticky = false, disguised = false, dos = false, guessed = false, terminator = false,
         grabbed = false, implicit = false, positional = false, unreg = false, cased = false, wild = false;
    bool sticky_error = false;   // the error concerns a member of a sticky group
};
struct ParseResult { bool ok = true; Err err; vector<POpt> opts; ParseTrace tr; };
ParseResult model_parse(const vector<string>& tokens, const ParseCfg& cfg);
int canonical_prefix(int style);
const char* style_error(int style);      // null if the style is valid
string style_show(int style);

// ---- configuration files
struct CfgResult { bool ok = true; Err err; vector<POpt> opts; bool sections = false, wild = false, unreg = false, comments = false; size_t lines = 0; };
CfgResult model_config(const string& text, const vector<Opt>& opts, bool allow_unreg);

// ---- environment
vector<POpt> model_env(const vector<string>& env, const std::function<string(string)>& mapper);
string prefix_map(const string& prefix, const string& name);

// ---- storage
struct VM {
    struct V { MV v; bool defaulted = false; int sem = -1; const vector<Opt>* opts = nullptr; };
    std::map<string, V> m;
    std::set<string> final_;
    std::map<string, string> required;
    void clear() { m.clear(); final_.clear(); required.clear(); }
};
struct StoreResult { bool ok = true; Err err; MsgCtx ctx; };
// utf8: the values are UTF-8 (result of a wide parser); localized: the global locale encodes any character
StoreResult model_store(VM& vm, const vector<POpt>& popts, const vector<Opt>& opts, int prefix, bool utf8, bool localized);
// conversion of one option occurrence
StoreResult model_convert(const Sem& s, MV& v, const vector<string>& tokens, bool utf8, bool localized);
// the error notify() reports, if any
StoreResult model_notify_check(const VM& vm);

string diff_vm(const VM& model, const po::variables_map& real);   // empty if they agree

} // namespace t
