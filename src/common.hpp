// Running the library on generated cases and comparing with the model.
#pragma once
#include "gen.hpp"

namespace t {

struct ParseCase {
    vector<Opt> opts; vector<string> tokens; int style = 0; bool allow_unreg = false; bool has_pos = false; PosDesc pos;
    int entry = 0;           // 0 vector, 1 argc/argv, 2 parse_command_line
    int groups = 0;          // how the options are spread over groups
    std::function<std::pair<string, string>(const string&)> extra;
    std::function<std::pair<vector<POpt>, size_t>(const vector<string>&, size_t)> style_parser;
    string show() const;
    ParseCfg cfg() const;
};
void key_case(pbt::Ctx& c, const ParseCase& p);

struct RealResult { bool ok = true; Err err; vector<POpt> opts; int prefix = 0; po::parsed_options parsed{nullptr}; };
// Builds the description(s) in d (which must be empty) and parses.
RealResult real_parse(const ParseCase& p, po::options_description& d);
// groups: 0 all in d; otherwise distributed over (nested) groups
void build_desc(po::options_description& d, const vector<Opt>& o, int groups, Sinks* s = nullptr);

// What a comparison of a parse looks at.
void compare_parse(pbt::Ctx& c, const ParseResult& m, const RealResult& r, bool messages);
void label_parse(pbt::Ctx& c, const ParseResult& m);

} // namespace t
