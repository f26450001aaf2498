import json
def P(id,title,statement,over,text,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    return d
C='src/cmdline.cpp'; CF='src/config_file.cpp'; OD='src/options_description.cpp'; PA='src/parsers.cpp'; VM='src/variables_map.cpp'; VS='src/value_semantic.cpp'
H='include/boost/program_options/'
L=[
P('P01','Every permitted command-line spelling of an option parses back to it',
 "Take options with distinct names, none a prefix of another, and a list of intended options with their values: however each is spelled in a way the style allows (long, short, disguised with one dash or a slash, grouped short flags, unambiguously abbreviated, in other letter case, value adjacent or in following tokens, plain words as positionals, anything after '--'), parsing that command line yields exactly the intended options under their full names, with exactly the intended values, in order, each with the tokens it was spelled with. Values are passed through byte for byte, whatever they contain, including values starting with a dash that name no option. It makes no difference whether the tokens come as a vector or as argc/argv, or how the options are spread over nested option groups.",
 ['inputs','configurations'],'all option sets with unambiguous names, all intention lists, all spellings, all valid styles',
 'cmdline_test covers a few dozen literal command lines in about ten styles; the space of spelling x style x arity x neighbouring tokens is never sampled',
 [C,PA,OD,H+'detail/parsers.hpp'],[('style parsers','cmdline::run, parse_long_option, parse_short_option, parse_dos_option, parse_disguised_long_option'),('arity handling','cmdline::finish_option')],['basic_command_line_parser::run','parse_command_line']),
P('P02','The command-line grammar, including every error, is exactly the documented one',
 "For any options (any arity, names that collide, abbreviate or differ in case, wildcards), any valid style, positional description and allow_unregistered setting, and any token list whatsoever, the parser either returns the sequence of options the documented grammar assigns (name, values, original tokens, position, unregistered and case flags) or reports the error the grammar assigns to the first offending token. The kind of error is exact: unknown option, ambiguous option with precisely the matching alternatives, missing argument, argument not allowed, empty adjacent argument, too many positionals.",
 ['inputs','configurations'],'all token lists x option sets x styles x positional descriptions',
 'tests assert single classes of error on hand-picked lines; interactions of style bits, arity and look-ahead are unsampled',
 [C,PA,OD,'src/positional_options.cpp'],[('tokenisation order','cmdline::run'),('arity and look-ahead','cmdline::finish_option')],['basic_command_line_parser::run']),
P('P03','Command-line tokens are conserved and unrecognised ones can be collected',
 "Every token given to a command-line parse appears exactly once, unchanged and in order, among the original tokens of the resulting options; only one '--' terminator may be missing. collect_unrecognized returns exactly the original tokens of the options marked unregistered, in order, plus those of the positional ones if asked to, and with unregistered options allowed no unknown name is ever an error. Consequently parsing in two phases, handing the collected tokens to a second parser, gives each parser the options it knows with the values a joint parse gives them.",
 ['inputs','histories'],'all token lists, option sets, styles; all splits of an option set over two parsers; char and wchar_t',
 'unrecognized_test has a handful of lines; conservation is not asserted anywhere',
 [C,PA,H+'detail/parsers.hpp'],[('original_tokens bookkeeping','cmdline::run / finish_option'),('collection','collect_unrecognized')],['option::original_tokens','collect_unrecognized']),
P('P04','Option name lookup resolves or rejects every name deterministically',
 "Looking up a name among described options (with or without abbreviation, and with case ignored for long and for short names independently) returns the option with that full long name or that short name if there is exactly one, otherwise the only option it abbreviates or whose trailing-'*' name it extends, and otherwise reports unknown or ambiguous with exactly the keys of the competing options; an empty name matches nothing. The key under which an option is stored is its first long name, its short name if it has no long one, or the spelled name if the first long name is a wildcard. Splitting the options over nested groups, or declaring several long names, changes none of this, and the names, description, display name and order of the described options are reported as given.",
 ['inputs','configurations'],'all sets of option names, all looked-up names, all case/abbreviation settings, all groupings',
 'options_description_test and exception tests look up a few names',
 [OD,H+'options_description.hpp'],[('matching','option_description::match, key'),('resolution','options_description::find_nothrow, find, add')],['options_description::find','find_nothrow','option_description::key','canonical_display_name','long_names','options()']),
P('P05','Positional arguments get names by position, independent of other tokens',
 "The i-th positional argument (including those after '--') is stored under the i-th name of the positional description, each name repeated max_count times and the trailing unlimited name absorbing the rest; one too many is reported as too_many_positional_options_error, and without a description they keep an empty name. Positions number the positional arguments 0,1,2,... in order, max_total_count and name_for_position agree with what was added, and options with complete values placed before, between or after the positionals do not change which positional gets which name.",
 ['inputs','configurations'],'all positional descriptions, numbers and contents of positionals, interleavings with named options',
 'positional_options_test has fixed descriptions and lines',
 ['src/positional_options.cpp',C,H+'positional_options.hpp'],[('position to name','positional_options_description::add, name_for_position, max_total_count'),('assignment','cmdline::run, last phase')],['command_line_parser::positional','positional_options_description']),
P('P06','Style masks are validated exactly and each style bit enables its syntax only',
 "A style mask is rejected with invalid_command_line_style exactly when it allows long (or disguised long) options but no way to give their values, allows short options but no way to give their values, or allows short options without dash or slash; 0 means the default style. Under an accepted mask, a token form is recognised exactly when its bit is set: long names, disguised long names, dash and slash shorts, sticky groups, abbreviation, and case-insensitivity of long and short names separately. This holds for every combination of bits and every entry point, narrow or wide.",
 ['configurations'],'all 8192 style masks (exhaustive) x a fixed battery of token lists x entry points',
 'cmdline_test uses about ten masks',
 [C,H+'cmdline.hpp'],[('mask check','cmdline::check_style, style'),('parser selection','cmdline::run')],['command_line_parser::style','parse_command_line']),
P('P07','Configuration files parse by the documented line grammar, char and wchar_t alike',
 "For any text, parse_config_file yields in order one option per 'name = value' line, the name prefixed by the current [section] and a dot, with comments from '#' on removed, and surrounding whitespace trimmed from lines, names and values; blank lines are skipped and everything else in the value is kept. A line of another form is reported as invalid_config_file_syntax, an undeclared name as unknown_option unless unregistered names are allowed (then marked so), short-only options and overlapping wildcards are refused up front, and a trailing-'*' name accepts any longer name with that prefix. The result does not depend on how the stream delivers its characters, on a missing final newline or on CRLF line ends, and is the same for narrow and wide streams and for files with the same content.",
 ['inputs','configurations'],'all texts, option sets, stream chunkings, char and wchar_t',
 'parsers_test parses two literal files',
 [CF,H+'detail/config_file.hpp',PA],[('line grammar','common_config_file_iterator::get'),('allowed names','add_option, allowed_option'),('line source','basic_config_file_iterator::getline')],['parse_config_file(istream)','parse_config_file(filename)']),
P('P08','A configuration file that cannot be read in full is reported, not truncated',
 "Parsing a configuration file by name throws reading_file naming the file when it cannot be opened, is a directory, or a read error occurs at any byte offset or read call (unless a line already read is itself in error); it never returns the options of a truncated file as if it were complete. When every read succeeds, the result is that of parsing the same bytes from a stream, however the reads are split.",
 ['inputs','fault_sequences'],'all file contents x read-error offset or call x read chunk sizes, char and wchar_t',
 'no test injects read errors; only a missing file is tried',
 [PA,CF,H+'errors.hpp'],[('stream state check','parse_config_file(const char*)')],['parse_config_file(filename)']),
P('P09','Environment parsing maps exactly the accepted variables, in order',
 "parse_environment returns, in environment order, one option for each entry 'NAME=VALUE' whose mapped name is not empty, with that name and the value being everything after the first '='; entries whose mapped name is empty and entries without '=' are ignored, and an empty or absent environment gives no options. With a prefix, the mapped name is the part of NAME after the prefix in lower case, and only names starting with exactly that prefix are taken. The mapper is given every variable's name once, unchanged.",
 ['inputs'],'all environments, prefixes and mappers',
 'parsers_test sets two variables',
 [PA,H+'environment_iterator.hpp',H+'eof_iterator.hpp'],[('entry splitting','environment_iterator::get'),('prefix rule','detail::prefix_name_mapper')],['parse_environment']),
P('P10','Stored values follow source precedence over any history of stores',
 "Over any sequence of store calls from any mix of command lines, configuration files and environments (and clear), a non-composing option keeps the values of the first store that gave it a value; composing options accumulate in store order; explicitly given values replace defaults whenever they arrive; and defaults appear only for options never given, marked as defaulted. Unregistered and unnamed options are never stored, names the description does not know are reported, a non-composing scalar given twice in one source is reported as multiple occurrences, and a failed store does not make the values it did store final. The variables map's count, operator[], as, empty, defaulted and value agree with this.",
 ['histories','inputs'],'all sequences of store/notify/clear with generated sources and descriptions',
 'variable_map_test stores two sources in fixed order',
 [VM,H+'variables_map.hpp',VS],[('finality and defaults','store(parsed_options, variables_map&, bool)')],['store','variables_map'],
 [('final names','options not to be overwritten by later stores','variables_map::m_final'),('defaulted flag','value came from default_value','variable_value::v_defaulted')]),
P('P11','notify enforces required options and delivers each final value exactly once',
 "notify throws required_option exactly when an option marked required in any stored description has no value at that point, whatever source would have supplied it, naming such an option as in its best-known spelling ('--' form over '-' or '/' form over bare name), and then no notifier runs. Otherwise it calls the notifier of every option that has a value, exactly once, with the final value (defaults included), and writes it to the bound variable, before returning; exceptions from a notifier propagate, and values the application put in the map itself are left alone.",
 ['histories','inputs'],'all histories of stores, clears and notifies; all option sets with required, defaults, notifiers, bound variables; all throwing notifiers',
 'required_test covers a few combinations',
 [VM,H+'detail/value_semantic.hpp'],[('required bookkeeping','store / variables_map::notify'),('delivery','typed_value::notify')],['notify','typed_value::notifier','value<T>(&var)']),
P('P12','Textual values convert to exactly the declared type or are rejected',
 "Storing an option yields a value of the declared type equal to the standard textual conversion of the text given (numbers, characters, strings, optional and vector types element by element in order; booleans by on/off/yes/no/1/0/true/false in any case and empty as true), or throws: invalid_option_value or invalid_bool_value if the text does not convert, multiple_occurrences if a scalar is given twice, multiple_values or multiple_values_not_allowed for several tokens to a scalar, at_least_one_value_required for none. Omitting an optional value gives the implicit value, giving it overrides that, switches are false unless given, and user-defined validate overloads are used where present and their errors propagate. The same text means the same value from every source and for the narrow and wide form of a type.",
 ['inputs','configurations'],'all texts x value types x flag combinations (implicit, default, multitoken, zero_tokens, composing) x occurrence counts x sources',
 'variable_map_test converts a few literals',
 [VS,H+'detail/value_semantic.hpp',H+'value_semantic.hpp'],[('validation','validate overloads, typed_value::xparse'),('boolean grammar','validate(any&, vector<string>, bool*, int)')],['store','variable_value::as']),
P('P13','Chained variables maps look values up in order with explicit values winning',
 "Indexing a variables map that is chained to further maps returns its own explicit value if it has one; otherwise, if its value is missing, whatever the rest of the chain returns, and if its value is a default, the rest of the chain's value if that is explicitly given, else its own default. A name no map has gives an empty value. This holds for chains of any length, maps re-linked or unlinked at any time, and user-defined map classes in the chain.",
 ['histories','inputs'],'all chains of maps, contents and re-linkings',
 'variable_map_test has one two-map chain',
 [VM,H+'variables_map.hpp'],[('chained lookup','abstract_variables_map::operator[]')],['variables_map::operator[]','abstract_variables_map::next']),
P('P14','Wide and narrow interfaces agree and character conversion loses nothing',
 "For any command line or configuration file, parsing and storing through the wchar_t interfaces gives the same options, values, errors and unrecognised tokens as parsing the UTF-8 encoding of the same text through the char interfaces. The UTF-8 and local 8-bit conversions round-trip every valid string of any length with any alignment of multi-byte characters, reject structurally malformed input (stray, missing or truncated continuation bytes, characters the target encoding lacks) with an exception, and drop no part of a string.",
 ['inputs'],'all Unicode strings and byte strings of any length; all parsers; the C and UTF-8 locales',
 'unicode_test converts a few short strings; no buffer boundary is reached',
 ['src/convert.cpp','src/utf8_codecvt_facet.cpp',PA,H+'detail/convert.hpp'],[('buffered codecvt loop','detail::convert'),('wide parser wrappers','basic_command_line_parser<wchar_t>, parse_config_file<wchar_t>, wparsed_options')],['to_utf8','from_utf8','to_local_8_bit','from_local_8_bit','wcommand_line_parser']),
P('P15','split_unix splits, quotes and escapes as specified and inverts quoting',
 "For any text and any separator, quote and escape characters, split_unix returns in order the non-empty pieces between separators outside quotes, with quote characters removed, an escape before a quote, separator or escape character giving that character, before 'n' a newline, and any other escape reported as an error. Quoting and escaping any list of non-empty strings accordingly and joining them with separators splits back to exactly that list, for char and wchar_t alike.",
 ['inputs'],'all texts, separator/quote/escape sets, char and wchar_t',
 'split_test has a dozen literals',
 ['src/split.cpp'],[('tokenizing','detail::split_unix')],['split_unix']),
P('P16','Help output shows every option once, correctly wrapped and aligned',
 "Printing option descriptions shows each caption, and each option exactly once in order (groups after the ungrouped ones, recursively), with its short and long name, its parameter form (value name, implicit value in the optional form, default value), and its description starting in a common column to the right of the names that fit it, as the widths demand; longer names have it on the next line. Descriptions are word-wrapped so that no line exceeds the line length unless a name does, words are broken only when too long, newlines start new paragraphs, a tab sets the hanging indent, and no description character is lost or duplicated other than single spaces at line breaks. The output depends only on the descriptions and widths, and is the same for copies of the description.",
 ['inputs','configurations'],'all option sets, nested groups, captions, descriptions, value names and defaults, line lengths and minimal description lengths',
 'options_description_test compares some ten literal outputs',
 [OD,VS,H+'detail/value_semantic.hpp'],[('column width','options_description::get_option_column_width'),('layout','format_one, format_description, format_paragraph')],['operator<<(ostream, options_description)','options_description::print','option_description::format_name','format_parameter']),
P('P17','Every diagnostic names the actual option, value or line in its documented form',
 "The text of every error names the option at fault as the user would type it in the style used ('--name', '-name', '-n', '/n' or the original token where the name is not known), the offending value where there is one (booleans in lower case), the invalid line, and for ambiguous names each distinct candidate once. User-supplied text is shown verbatim even if it looks like a message placeholder, an error about one token is never blamed on another option, and the text is the same however often it is asked for, after copying and after rethrowing; name, prefix and token accessors of the exception agree with it.",
 ['inputs','configurations'],'all erroneous command lines, configuration files and values x styles; all direct uses of the exception classes',
 'exception_txt_test compares some fifty literal messages over one option set',
 ['src/value_semantic.cpp',C,VM,H+'errors.hpp'],[('templates and substitution','error_with_option_name::substitute_placeholders, get_canonical_option_name, replace_token'),('context','set_option_name, set_original_token, add_context')],['std::exception::what']),
P('P18','No input makes the library misbehave: results or documented errors only',
 "For arbitrary bytes in tokens, files, environment, split text, names, descriptions and values, every call terminates with a result or a documented exception (the library's own hierarchy, the character conversion error, the tokenizer's escape error), without undefined behaviour, memory errors, leaks of one call into the next, or modification of its inputs. Repeating a call with the same inputs gives the same result whatever calls came in between, and a description is unchanged by being used for parsing, storing or printing.",
 ['inputs','histories'],'arbitrary byte inputs and call histories over all entry points',
 'tests feed well-formed literals, without sanitizers',
 [C,CF,OD,PA,VM,VS,'src/convert.cpp','src/split.cpp'],[('bounds handling','all parsers')],['all public entry points']),
P('P19','split_winmain follows the Windows argument rules and inverts their quoting',
 "split_winmain splits on white space outside double quotes; a run of 2n backslashes before a quote gives n backslashes and a quoting toggle, 2n+1 gives n backslashes and a literal quote, and backslashes elsewhere are literal; a quoted empty string gives an empty argument. Quoting any list of arguments by the standard Windows rules and joining them with spaces splits back to exactly that list, for char and wchar_t.",
 ['inputs'],'all command strings and argument lists',
 'winmain test has about eight literals and only runs on Windows',
 ['src/winmain.cpp'],[('state machine','split_winmain')],['split_winmain']),
P('P20','User-supplied parsers see every token first and their results are honoured',
 "An extra parser is offered each token before the built-in syntaxes, and a non-empty name it returns becomes an option with that name and value, subject to the same lookup, arity and storage rules as built-in ones; a token it declines is parsed as if it were not there. An extra style parser is offered the remaining tokens before everything else at each step, the tokens it consumes are not seen by any other parser, and its options are completed, checked and placed like built-in ones. Parsers that decline everything change nothing.",
 ['inputs','configurations'],'all token lists x custom syntaxes x option sets x styles',
 'cmdline_test and parsers_test use one extra parser on one line each; extra_style_parser has one example',
 [C,PA,H+'detail/cmdline.hpp',H+'detail/parsers.hpp'],[('parser chain','cmdline::run, handle_additional_parser')],['extra_parser','extra_style_parser']),
P('P21','From argv to typed variables, a program receives exactly what was typed',
 "For a program with typed options, switches, optional and repeated values, positionals, defaults, required options, notifiers and bound variables, running parse, store and notify on a command line (then on a configuration file and the environment) gives the program for each option exactly the values the user wrote for it in order of precedence, converted to its type, and defaults for the rest, through the map, the bound variables and the notifiers alike. If the input is invalid it gets the corresponding error instead, and nothing is delivered to notifiers or bound variables.",
 ['inputs','histories','configurations'],'all programs (option sets) x command lines x configuration files x environments',
 'tests exercise the stages separately on literals',
 [C,PA,CF,VM,VS,OD],[('whole pipeline','parse_command_line, parse_config_file, parse_environment, store, notify')],['store','notify','variables_map']),
P('P22','Failing allocations and callbacks propagate and leave nothing behind',
 "If a memory allocation fails, or code supplied by the user (a parser, name mapper, validator, notifier, stream) throws, at any point of any call, that same exception leaves the call, unless the call completes with exactly the outcome it has undisturbed; it is neither swallowed nor turned into another error or a partial result. (Output and input streams that swallow exceptions themselves are the caller's choice.) Everything the call acquired is released, the descriptions and other inputs are unchanged, the objects involved can be destroyed or used again, and the same call repeated without the failure gives what it would have given had the failure never happened.",
 ['inputs','fault_sequences'],'all calls x every allocation and callback within them x kinds of exception',
 'no test injects a failure; the paths are taken only then',
 [C,CF,OD,PA,VM,VS,'src/convert.cpp','src/split.cpp',H+'detail/value_semantic.hpp'],[('exception handlers and ownership','all parsers, store, notify, typed_value::xparse, validate')],['all public entry points']),
P('P23','Threads sharing const objects each get their sequential results',
 "Once built, options_descriptions, positional descriptions, parsed options and variables maps may be used by any number of threads at once through const operations: looking up, parsing with parsers of one's own, storing into and notifying maps of one's own, printing, reading and copying, splitting and converting strings. No schedule makes these calls race, and each returns exactly the result or error it returns when nothing else runs; no state is shared between calls behind the caller's back, including on first use in a process.",
 ['schedules','inputs'],'all schedules of concurrent const calls on shared objects',
 'no test starts a thread',
 [C,CF,OD,PA,VM,VS,'src/convert.cpp','src/positional_options.cpp'],[('absence of hidden shared state','all const operations; function-local statics such as variables_map::get')],['all public entry points']),
P('P24','Copies are independent values and results outlive what they came from',
 "Descriptions, positional descriptions, parsers not yet run, parsed options, variables maps, single values and caught errors are values: a copy (or what was assigned or moved) equals its original and behaves like it in every later call, and neither sees anything done to the other afterwards: options or groups added, stores, notify, clear, entries changed in place, destruction. A group added to a description is a snapshot of it. Results hold what they need: parsed options are usable after the parser, tokens, argv, stream or environment are gone, a variables map and its values (notify included) after the descriptions and parsed options they came from are destroyed, errors after everything is. Changing a value in a map never changes an option's default or implicit value.",
 ['inputs','histories'],'all histories of making, copying, assigning, changing and destroying objects',
 'tests keep everything alive in one scope and never copy',
 [OD,PA,VM,VS,H+'variables_map.hpp',H+'parsers.hpp',H+'options_description.hpp',H+'positional_options.hpp'],[('value semantics and ownership','copy operations of all public classes; option_description and value_semantic shared by pointer; options_description::add(group)')],['options_description','variables_map','parsed_options','command_line_parser']),
P('P25',"A program's own value semantics are asked and told exactly what they must be",
 "For an option whose value semantic is the program's own class (derived from value_semantic, a codecvt helper or typed_value), the parser takes as many tokens as min_tokens and max_tokens allow; parsing and printing call none of parse, apply_default and notify. store calls parse once for each occurrence not overridden by an earlier source, in order, with exactly the tokens of the occurrence (the helpers converted to their character type, otherwise with the flag saying whether they are UTF-8) and the value parsed so far, a default being discarded first; apply_default is called only for options left without a value, and its value is taken exactly if it returns true. is_composing and is_required decide precedence and notify's error; notify is called once per notify() with the final value. Whatever any of them throws leaves the call, errors of the library with the option's name filled in; help shows name(). Semantics are destroyed once, when neither a description nor a value refers to them.",
 ['inputs','histories','configurations'],'all user-defined semantics x histories of stores from all sources',
 'tests have one custom validator; no test defines a value_semantic',
 [VM,VS,C,OD,H+'value_semantic.hpp',H+'detail/value_semantic.hpp'],[('protocol of value_semantic','store, variables_map::notify, value_semantic_codecvt_helper::parse, cmdline::finish_option, option_description::format_parameter')],['value_semantic','value_semantic_codecvt_helper','typed_value']),
P('P26',"Unrelated options, their order and grouping, and unrelated input change nothing",
 "What happens to an option depends on that option and on what is given for it. Describing any number of further options whose names neither equal, abbreviate nor extend anything in the input (with defaults, switches, notifiers or short names of their own), describing the same distinctly named options in another order or other groups, giving complete unrelated options on the command line before or between the others, unrelated assignments, comments and blank lines in the configuration file, unrelated environment variables, or giving a command line in two consecutive parts without common options, leaves every other option's parsed form, position, error, stored value, default, notifier calls, bound variable and help entry exactly as it was, for thousands of options as for one.",
 ['inputs','configurations','histories'],'all programs and inputs x all unrelated additions and reorderings',
 'tests describe a handful of options and never compare two descriptions of the same program',
 [C,CF,OD,PA,VM,H+'detail/config_file.hpp'],[('non-interference','options_description::find_nothrow; cmdline::run; common_config_file_iterator::get; store; variables_map::notify')],['command_line_parser','parse_config_file','parse_environment','store','notify','options_description']),
P('P27',"The same thing said to the library in another way has the same outcome",
 "The library offers many ways of saying one thing, and they agree. A parser built from argc and argv, from a vector of tokens or copied from another before or after it was configured, parse_command_line or a command_line_parser with the same settings given in any order (a repeated setting replacing the earlier one), a configuration file named, read through a stream or iterated over, an environment prefix given as string, as C string, as the equivalent name mapper or iterated over, the wide interface given the same ASCII text, an option added by add_options or as an option_description object, with any overload and with its defaulted arguments given or left out, the modifiers of a semantic called in any order or twice, a positional description written in pieces, and the operations that read back descriptions and maps (find and find_nothrow, print and <<, operator[], at, find, count) lead to the same parsed options, stored values, defaults, notifier calls, bound variables, messages and help text.",
 ['inputs','configurations','histories'],'all programs and inputs x all ways of saying them to the library',
 'tests use one way per feature, mostly a different one for each test, and never compare two',
 [C,CF,OD,PA,VM,VS,H+'parsers.hpp',H+'detail/parsers.hpp',H+'detail/value_semantic.hpp',H+'positional_options.hpp','src/positional_options.cpp',H+'environment_iterator.hpp',H+'detail/config_file.hpp'],[('equivalence of entry points','basic_command_line_parser constructors; parse_command_line; parse_config_file overloads; parse_environment overloads; option_description constructors and options_description_easy_init; typed_value setters; positional_options_description::add')],['command_line_parser','parse_command_line','parse_config_file','parse_environment','add_options','typed_value','options_description']),
P('P28',"What the help text shows is what the parsers accept and the map then holds",
 "For every options description, each entry of the printed help text is true of the program: every spelling it shows (the long name after --, the short name after -) is accepted and leads to the value of that option; an entry without an argument name takes no argument, refuses one given with = and leaves the next word alone; an entry with an argument name requires one and takes it adjacent or as the next word; an argument shown in square brackets may be left out, and typing the implicit value that is shown gives the same value as leaving it out; a default shown is in the map when the option is not given, and typing it gives the same value, while an entry showing an argument but no default leaves the option out of the map; argument names and the texts given for defaults and implicit values are shown as given; and the same name with the same value works in a configuration file.",
 ['inputs','configurations'],'all options descriptions with printable values x what each help entry promises',
 'tests compare the help text with literal expected texts, and parsing with other programs; nothing connects the two',
 [OD,VS,CF,VM,H+'detail/value_semantic.hpp','src/config_file.cpp'],[('help text','options_description.cpp format_one / format_name / format_parameter; value_semantic name()'),('acceptance','cmdline.cpp parse_long_option / parse_short_option / finish_option; config_file.cpp; variables_map.cpp store')],['options_description','option_description','typed_value','command_line_parser','parse_config_file']),
P('P29',"A setting means the same from every source, and settings written down read back",
 "For every program and every history of stores, the settings given in each store lead to the same outcome whichever source they come through: command-line tokens (as a vector, as argc and argv, wide, in long or short spelling, adjacent or in the next token), positional arguments named for them, pairs or options returned by user parsers, a configuration file (narrow, wide, by name, with or without sections), the environment through a mapper or a prefix, or a parsed_options filled in by hand. The outcome is what the map holds, which entries are defaulted, what later stores may still change, which error is raised and what it says (up to the prefix of the option's name), and what notify then delivers. And what a map holds, written down as settings and read through any source that can express them, gives those values again.",
 ['inputs','configurations','histories'],'all programs x histories of stores x assignment of sources able to express the settings',
 'tests take each source alone, with expected values of its own; none gives one set of settings through two sources',
 [C,PA,CF,VM,VS,H+'detail/parsers.hpp',H+'detail/config_file.hpp',H+'detail/value_semantic.hpp','src/convert.cpp'],[('sources','command_line_parser, parse_config_file, parse_environment, extra_parser, extra_style_parser'),('what is stored','variables_map.cpp store(parsed_options), store(wparsed_options)')],['command_line_parser','parse_config_file','parse_environment','store','notify']),
]
for d in L:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in L))
