// Generators shared by the properties.
#pragma once
#include "model.hpp"

namespace t {
using pbt::Ctx;

struct NameCfg {
    bool wild = false;        // names ending in '*'
    bool collide = true;      // allow prefixes of one another, case variants, duplicates
    bool weird = false;       // punctuation, '=', spaces, high bytes
    bool multi = true;        // several long names
    bool shorts = true;
    bool short_only = true;
    size_t max_opts = 6;
    bool plain = false;       // [a-z0-9-] only, distinct and prefix-free
};
string gen_long_name(Ctx& c, const NameCfg& n);
string gen_short(Ctx& c, const NameCfg& n);       // "-x"
// names only; semantics are left untouched
vector<Opt> gen_names(Ctx& c, const NameCfg& n);

struct SemCfg { bool arity = true, typed = true, wide = false, color = true, flags = true; };
Sem gen_sem(Ctx& c, const SemCfg& s);
void gen_sems(Ctx& c, vector<Opt>& o, const SemCfg& s);
string gen_int_text(Ctx& c);
string gen_value_for(Ctx& c, Kind k, bool valid);  // a token for an option of this kind
string gen_word(Ctx& c);                           // arbitrary non-option-looking text
string gen_utf8(Ctx& c, size_t n);                 // valid UTF-8 of n code points
uint32_t gen_cp(Ctx& c);

int gen_style(Ctx& c);                             // a valid mask
// a spelling of an option's name (not of its value); may be wrong on purpose
string gen_spelling(Ctx& c, const vector<Opt>& o, int style, bool& islong);
vector<string> gen_tokens(Ctx& c, const vector<Opt>& o, int style, size_t n);
PosDesc gen_pos(Ctx& c, const vector<Opt>& o, bool defined_names);
string flip_case(Ctx& c, const string& s);

// configuration file text for these options; loose: also malformed and unknown lines
string gen_config_name(Ctx& c, const vector<Opt>& o);
string gen_config(Ctx& c, const vector<Opt>& o, bool loose, size_t lines);
string gen_ws(Ctx& c);

// a mostly well-formed command line with mostly convertible values; bad: percentage of slips
vector<string> gen_line(Ctx& c, const vector<Opt>& o, int style, size_t n, unsigned bad, bool positionals);
// same for a configuration file
string gen_good_config(Ctx& c, const vector<Opt>& o, size_t n, unsigned bad);

vector<Opt> only_long(const vector<Opt>& o);
string join(const vector<string>& v, const string& sep);

// the number of options is sometimes large: this appends systematic ones
void add_bulk(Ctx& c, vector<Opt>& o);
} // namespace t
