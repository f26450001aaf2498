From db391c623a415af92b1a19701018d3b6e2b49d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 01/22] fix: do not read the last character of an empty section
 name

A '[]' line in a configuration file dereferenced rbegin() of an empty string.
---
 src/config_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index d586523..a3c01cd 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -97,7 +97,7 @@ namespace boost { namespace program_options { namespace detail {
                 // Handle section name
                 if (*s.begin() == '[' && *s.rbegin() == ']') {
                     m_prefix = s.substr(1, s.size()-2);
-                    if (*m_prefix.rbegin() != '.')
+                    if (m_prefix.empty() || *m_prefix.rbegin() != '.')
                         m_prefix += '.';
                 }
                 else if ((n = s.find('=')) != string::npos) {
-- 
2.43.0


From b72b5a2db508d6f75c78902634a1f567b48c5baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 02/22] fix: honour case sensitivity of short options
 independently of long ones

The spelled option was lowered according to the long option setting before
being compared with the short name, so with only one of the two
case-insensitivity styles upper-case short options were not found.
---
 src/options_description.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 0efdc33..516cd57 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -115,8 +115,9 @@ namespace boost { namespace program_options {
         if (result != full_match)
         {
             std::string local_short_name(short_ignore_case ? tolower_(m_short_name) : m_short_name);
+            std::string local_short_option(short_ignore_case ? tolower_(option) : option);
 
-            if (local_short_name == local_option)
+            if (local_short_name == local_short_option)
             {
                 result = full_match;
             }
-- 
2.43.0


From 4b78120e225685c16146d72a48169cf07cae5828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 03/22] fix: do not access the missing original token of an
 ambiguous option

Options taken from a sticky group or returned by an additional parser have no
original tokens; the second lookup indexed the empty vector when it reported
an ambiguity.
---
 src/cmdline.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 8f4ae64..657eeee 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -311,7 +311,10 @@ namespace boost { namespace program_options { namespace detail {
             catch(error_with_option_name& e)
             {
                 // add context and rethrow
-                e.add_context(opt.string_key, opt.original_tokens[0], get_canonical_option_prefix());
+                // an option from a sticky group or an additional parser has no original token
+                e.add_context(opt.string_key, 
+                              opt.original_tokens.empty() ? opt.string_key : opt.original_tokens[0],
+                              get_canonical_option_prefix());
                 throw;
             }
 
-- 
2.43.0


From 93178406aa63b28ebd67be0d279644f6417d0bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 04/22] fix: keep case_insensitive when converting options to
 wide characters

---
 src/parsers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers.cpp b/src/parsers.cpp
index 4dac608..675643a 100644
--- a/src/parsers.cpp
+++ b/src/parsers.cpp
@@ -75,6 +75,7 @@ namespace boost { namespace program_options {
             result.string_key = opt.string_key;
             result.position_key = opt.position_key;
             result.unregistered = opt.unregistered;
+            result.case_insensitive = opt.case_insensitive;
             
             std::transform(opt.value.begin(), opt.value.end(),
                            back_inserter(result.value),
-- 
2.43.0


From 1ff4a09a937bf8890e57d8ac6568432650992f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 05/22] fix: accept a null environment

After clearenv() 'environ' is a null pointer, which parse_environment
dereferenced.
---
 include/boost/program_options/environment_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/program_options/environment_iterator.hpp b/include/boost/program_options/environment_iterator.hpp
index 933919d..4905dc2 100644
--- a/include/boost/program_options/environment_iterator.hpp
+++ b/include/boost/program_options/environment_iterator.hpp
@@ -32,7 +32,7 @@ namespace boost {
         
         void get()
         {
-            if (*m_environment == 0)
+            if (m_environment == 0 || *m_environment == 0)
                 found_eof();
             else {
                 std::string s(*m_environment);
-- 
2.43.0


From 8d71eb871a2af5c7b899ff0ed8661eaba1f0bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 06/22] fix: skip environment entries without '='

The environment is supplied by the parent process, which may pass such
entries; parsing it aborted on an assertion.
---
 .../boost/program_options/environment_iterator.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/program_options/environment_iterator.hpp b/include/boost/program_options/environment_iterator.hpp
index 4905dc2..979aa5f 100644
--- a/include/boost/program_options/environment_iterator.hpp
+++ b/include/boost/program_options/environment_iterator.hpp
@@ -32,17 +32,17 @@ namespace boost {
         
         void get()
         {
-            if (m_environment == 0 || *m_environment == 0)
-                found_eof();
-            else {
-                std::string s(*m_environment);
+            // Skip entries without '=': they do not define a variable.
+            while (m_environment != 0 && *m_environment != 0) {
+                std::string s(*m_environment++);
                 std::string::size_type n = s.find('=');
-                assert(n != s.npos);
+                if (n == s.npos)
+                    continue;
                 value().first = s.substr(0, n);
                 value().second = s.substr(n+1);
-                
-                ++m_environment;
+                return;
             }
+            found_eof();
         }
         
     private:
-- 
2.43.0


From c024c68e74fbc690d64999da1b00949464cd9ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 07/22] fix: store options matched case-insensitively by a name
 ending in '*'

The parser accepts '--foobar' for 'Foo*' with a case-insensitive style, but
store() looked the spelled name up case-sensitively and rejected it.
---
 src/variables_map.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/variables_map.cpp b/src/variables_map.cpp
index 94ac614..c8359ad 100644
--- a/src/variables_map.cpp
+++ b/src/variables_map.cpp
@@ -70,8 +70,15 @@ namespace boost { namespace program_options {
 
                 original_token = options.options[i].original_tokens.size() ?
                                         options.options[i].original_tokens[0]     : "";
-                const option_description& d = desc.find(option_name, false,
-                                                        false, false);
+                const option_description* found = desc.find_nothrow(option_name, false,
+                                                                    false, false);
+                // An option name ending with '*' may have matched a spelling which
+                // differs in case, and then the name is stored as it was spelled.
+                if (!found && options.options[i].case_insensitive)
+                    found = desc.find_nothrow(option_name, false, true, true);
+                if (!found)
+                    boost::throw_exception(unknown_option());
+                const option_description& d = *found;
 
                 variable_value& v = m[option_name];
                 if (v.defaulted()) {
-- 
2.43.0


From b7fac9312effc189981138902de9fe5a4f8393c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 08/22] fix: report disguised long options with their original
 token

original_tokens is documented as the original unchanged tokens, but '-foo' and
'/foo' were recorded as '--foo'.
---
 src/cmdline.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 657eeee..280efef 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -651,10 +651,15 @@ namespace boost { namespace program_options { namespace detail {
                                          is_style_active(long_case_insensitive),
                                          is_style_active(short_case_insensitive)))
                 {
+                    const string original_token = tok;
                     args[0].insert(0, "-");
                     if (args[0][1] == '/')
                         args[0][1] = '-';
-                    return parse_long_option(args);
+                    vector<option> result = parse_long_option(args);
+                    // report the token as the user has written it
+                    for (unsigned i = 0; i < result.size(); ++i)
+                        result[i].original_tokens[0] = original_token;
+                    return result;
                 }
             } 
             catch(error_with_option_name& e)
-- 
2.43.0


From 4130e2a87da939062f0cbf048e6db0a86fc37002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 09/22] fix: ignore a tab at or beyond the end of the first
 line of a paragraph

The documentation says such a tab is ignored; instead an assertion failed, and
at the last position the continuation lines shrank to one character.
---
 src/options_description.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 516cd57..33b415f 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -465,12 +465,8 @@ namespace boost { namespace program_options {
                 // erase tab from string
                 par.erase(par_indent, 1);
 
-                // this assert may fail due to user error or 
-                // environment conditions!
-                assert(par_indent < line_length);
-
-                // ignore tab if not on first line
-                if (par_indent >= line_length)
+                // ignore tab if not on first line, or on its last position
+                if (par_indent >= line_length - 1)
                 {
                     par_indent = 0;
                 }            
-- 
2.43.0


From 0b9cbb1a261af43a5a18227cb9d3e13cf63f60c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 10/22] fix: do not treat an empty name as an option

An empty name matched every option without a short name, and '--=value' silently
became the positional 'value'; it is kept as it was written now.
---
 src/cmdline.cpp             | 3 +++
 src/options_description.cpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 280efef..6e89f4c 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -537,6 +537,9 @@ namespace boost { namespace program_options { namespace detail {
             {
                 name = tok.substr(2);
             }
+            // '--=value' does not name any option
+            if (name.empty())
+                return result;
             option opt;
             opt.string_key = name;
             if (!adjacent.empty())
diff --git a/src/options_description.cpp b/src/options_description.cpp
index 33b415f..8a04f8d 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -78,6 +78,10 @@ namespace boost { namespace program_options {
                               bool short_ignore_case) const
     {
         match_result result = no_match;        
+        // An empty name does not specify any option.
+        if (option.empty())
+            return result;
+
         std::string local_option = (long_ignore_case ? tolower_(option) : option);
         
         for(std::vector<std::string>::const_iterator it(m_long_names.begin()); it != m_long_names.end(); it++)
-- 
2.43.0


From adaa78b8b5ec378d405d5fe592f14c4dd55a6190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 11/22] fix: do not expand placeholders in user-supplied text
 of error messages

An argument such as '%value%' or an option '--%prefix%' was substituted again,
which garbled the message or looped forever in what().
---
 src/value_semantic.cpp | 45 ++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index de7b2ac..5c65e1e 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -348,9 +348,30 @@ namespace boost { namespace program_options {
         //  replace placeholder with values
         //  placeholder are denoted by surrounding '%'
         // 
-        for (map<string, string>::iterator iter = substitutions.begin();
-              iter != substitutions.end(); ++iter)
-            replace_token('%' + iter->first + '%', iter->second);
+        //  The values come from the user, so placeholders in them are
+        //  not to be expanded.
+        //
+        string result;
+        string::size_type pos = 0, first, last;
+        while ((first = m_message.find('%', pos)) != string::npos &&
+               (last = m_message.find('%', first + 1)) != string::npos)
+        {
+            map<string, string>::const_iterator iter =
+                substitutions.find(m_message.substr(first + 1, last - first - 1));
+            if (iter == substitutions.end())
+            {
+                // not a placeholder, but the second '%' may start one
+                result.append(m_message, pos, last - pos);
+                pos = last;
+            }
+            else
+            {
+                result.append(m_message, pos, first - pos);
+                result.append(iter->second);
+                pos = last + 1;
+            }
+        }
+        m_message = result.append(m_message, pos, string::npos);
     }
 
 
@@ -367,29 +388,27 @@ namespace boost { namespace program_options {
         }
 
 
-        string error_template  = original_error_template;
+        // use inherited logic for the fixed part of the message
+        error_with_option_name::substitute_placeholders(original_error_template);
+        const string prefix = get_canonical_option_prefix();
         // remove duplicates using std::set
         std::set<std::string>   alternatives_set (m_alternatives.begin(), m_alternatives.end());
         std::vector<std::string> alternatives_vec (alternatives_set.begin(), alternatives_set.end());
 
-        error_template += " and matches ";
+        m_message += " and matches ";
         // Being very cautious: should be > 1 alternative!
         if (alternatives_vec.size() > 1)
         {
             for (unsigned i = 0; i < alternatives_vec.size() - 1; ++i)
-                error_template += "'%prefix%" + alternatives_vec[i] + "', ";
-            error_template += "and ";
+                m_message += "'" + prefix + alternatives_vec[i] + "', ";
+            m_message += "and ";
         }
 
         // there is a programming error if multiple options have the same name...
         if (m_alternatives.size() > 1 && alternatives_vec.size() == 1)
-            error_template += "different versions of ";
-
-        error_template += "'%prefix%" + alternatives_vec.back() + "'";
-
+            m_message += "different versions of ";
 
-        // use inherited logic
-        error_with_option_name::substitute_placeholders(error_template);
+        m_message += "'" + prefix + alternatives_vec.back() + "'";
     }
 
 
-- 
2.43.0


From 244b73afca793f44cc10192d1c6a1854b7a74a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 12/22] fix: name the option which lacks its argument with
 short-only styles

In '-a -b' the error was reported for '-b', because the message takes the
letter from the token given as context.
---
 src/cmdline.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 6e89f4c..6ac1388 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -486,8 +486,13 @@ namespace boost { namespace program_options { namespace detail {
                                   is_style_active(long_case_insensitive),
                                   is_style_active(short_case_insensitive));
                         if (od) 
+                        {
+                            // it is this option which lacks its argument, not the following one
+                            original_token_for_exceptions = opt.original_tokens.empty() ?
+                                opt.string_key : opt.original_tokens[0];
                             boost::throw_exception(
                                 invalid_command_line_syntax(invalid_command_line_syntax::missing_parameter));
+                        }
                     }
                     opt.value.push_back(other_tokens[0]);
                     opt.original_tokens.push_back(other_tokens[0]);
-- 
2.43.0


From 9b35078bc34553f42d4b480c2497946cff0d6cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 13/22] fix: do not blame an option for an error in the token
 following it

For '--foo --bar=' the error about the empty argument of 'bar' was reported for
'foo'.
---
 src/cmdline.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 6ac1388..6f7a7b4 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -415,6 +415,9 @@ namespace boost { namespace program_options { namespace detail {
         if (opt.original_tokens.size())
             original_token_for_exceptions = opt.original_tokens[0];
 
+        // True while the following token is examined: errors in it are not errors of this option.
+        bool in_following_token = false;
+
         try
         {
             // First check that the option is valid, and get its description.
@@ -474,10 +477,12 @@ namespace boost { namespace program_options { namespace detail {
                     // additionally we check if an option_description exists
                     vector<option> followed_option;  
                     vector<string> next_token(1, other_tokens[0]);      
+                    in_following_token = true;
                     for (unsigned i = 0; followed_option.empty() && i < style_parsers.size(); ++i)
                     {
                         followed_option = style_parsers[i](next_token);
                     }
+                    in_following_token = false;
                     if (!followed_option.empty()) 
                     {
                         original_token_for_exceptions = other_tokens[0];
@@ -511,7 +516,8 @@ namespace boost { namespace program_options { namespace detail {
         catch(error_with_option_name& e)
         {
             // add context and rethrow
-            e.add_context(opt.string_key, original_token_for_exceptions, get_canonical_option_prefix());
+            if (!in_following_token)
+                e.add_context(opt.string_key, original_token_for_exceptions, get_canonical_option_prefix());
             throw;
         }
 
-- 
2.43.0


From 438c700bbe1846f7e786e2d4053c63b4b5aaab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 14/22] fix: name the option properly when a disguised option
 has an empty argument

For '-foo=' the message named the option '-foo='.
---
 src/cmdline.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 6f7a7b4..7e040f7 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -658,23 +658,13 @@ namespace boost { namespace program_options { namespace detail {
             ((tok[0] == '-' && tok[1] != '-') ||
              ((m_style & allow_slash_for_short) && tok[0] == '/')))            
         {
+            bool is_long = false;
             try
             {
-                if (m_desc->find_nothrow(tok.substr(1, tok.find('=')-1), 
+                is_long = m_desc->find_nothrow(tok.substr(1, tok.find('=')-1), 
                                          is_style_active(allow_guessing),
                                          is_style_active(long_case_insensitive),
-                                         is_style_active(short_case_insensitive)))
-                {
-                    const string original_token = tok;
-                    args[0].insert(0, "-");
-                    if (args[0][1] == '/')
-                        args[0][1] = '-';
-                    vector<option> result = parse_long_option(args);
-                    // report the token as the user has written it
-                    for (unsigned i = 0; i < result.size(); ++i)
-                        result[i].original_tokens[0] = original_token;
-                    return result;
-                }
+                                         is_style_active(short_case_insensitive)) != 0;
             } 
             catch(error_with_option_name& e)
             {
@@ -682,6 +672,19 @@ namespace boost { namespace program_options { namespace detail {
                 e.add_context(tok, tok, get_canonical_option_prefix());
                 throw;
             }
+
+            if (is_long)
+            {
+                const string original_token = tok;
+                args[0].insert(0, "-");
+                if (args[0][1] == '/')
+                    args[0][1] = '-';
+                vector<option> result = parse_long_option(args);
+                // report the token as the user has written it
+                for (unsigned i = 0; i < result.size(); ++i)
+                    result[i].original_tokens[0] = original_token;
+                return result;
+            }
         }
         return vector<option>();
     }
-- 
2.43.0


From 67e0ff550a286d823adf59916222ba47e803d1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:35 +0000
Subject: [PATCH 15/22] fix: report an incomplete multi-byte character at the
 end of a string

The locale's codecvt may consume the incomplete character into the
conversion state and report success, so that it was silently dropped.
---
 src/convert.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/convert.cpp b/src/convert.cpp
index fbe2758..c54ee14 100644
--- a/src/convert.cpp
+++ b/src/convert.cpp
@@ -6,6 +6,7 @@
 #include <fstream>
 #include <locale.h>
 #include <locale>
+#include <cwchar>
 #include <iostream>
 #include <string>
 #include <locale>
@@ -41,12 +42,11 @@ namespace boost { namespace detail {
     */
     template<class ToChar, class FromChar, class Fun>
     std::basic_string<ToChar>
-    convert(const std::basic_string<FromChar>& s, Fun fun)
+    convert(const std::basic_string<FromChar>& s, std::mbstate_t& state,
+            Fun fun)
         
     {
         std::basic_string<ToChar> result;
-        
-        std::mbstate_t state = std::mbstate_t();
 
         const FromChar* from = s.data();
         const FromChar* from_end = s.data() + s.size();
@@ -92,19 +92,27 @@ namespace boost {
     from_8_bit(const std::string& s, 
                const std::codecvt<wchar_t, char, std::mbstate_t>& cvt)
     {
-        return detail::convert<wchar_t>(
-            s,                 
+        std::mbstate_t state = std::mbstate_t();
+        std::wstring result = detail::convert<wchar_t>(
+            s, state,
             boost::bind(&std::codecvt<wchar_t, char, mbstate_t>::in,
                         &cvt,
                         _1, _2, _3, _4, _5, _6, _7));
+        // The facet might consume an incomplete character at the end of
+        // the source, keep it in the state, and report success.
+        if (!std::mbsinit(&state))
+            boost::throw_exception(
+                std::logic_error("character conversion failed"));
+        return result;
     }
 
     BOOST_PROGRAM_OPTIONS_DECL std::string 
     to_8_bit(const std::wstring& s, 
              const std::codecvt<wchar_t, char, std::mbstate_t>& cvt)
     {
+        std::mbstate_t state = std::mbstate_t();
         return detail::convert<char>(
-            s,                 
+            s, state,
             boost::bind(&codecvt<wchar_t, char, mbstate_t>::out,
                         &cvt,
                         _1, _2, _3, _4, _5, _6, _7));
-- 
2.43.0


From 0f611695b93816defe3d54bf6e469a886f6c24e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:17 +0000
Subject: [PATCH 16/22] fix: do not offer a token consumed by the extra style
 parser to other parsers

When looking ahead, a style parser may consume the token and give no
options; the following parsers then accessed an empty vector.
---
 src/cmdline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 7e040f7..3e61058 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -478,7 +478,7 @@ namespace boost { namespace program_options { namespace detail {
                     vector<option> followed_option;  
                     vector<string> next_token(1, other_tokens[0]);      
                     in_following_token = true;
-                    for (unsigned i = 0; followed_option.empty() && i < style_parsers.size(); ++i)
+                    for (unsigned i = 0; followed_option.empty() && !next_token.empty() && i < style_parsers.size(); ++i)
                     {
                         followed_option = style_parsers[i](next_token);
                     }
-- 
2.43.0


From 24f86100e0fec498fad6ed1631e08585a244c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 17/22] fix: do not drop text from help output when an
 allocation fails

The string stream holding the first column kept a failed allocation to
itself, so that part of the column was missing from the output.
---
 src/options_description.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 8a04f8d..67cfefa 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -614,6 +614,7 @@ namespace boost { namespace program_options {
                         unsigned first_column_width, unsigned line_length)
         {
             stringstream ss;
+            ss.exceptions(ios_base::badbit);
             ss << "  " << opt.format_name() << ' ' << opt.format_parameter();
             
             // Don't use ss.rdbuf() since g++ 2.96 is buggy on it.
@@ -651,6 +652,7 @@ namespace boost { namespace program_options {
         {
             const option_description& opt = *m_options[i];
             stringstream ss;
+            ss.exceptions(ios_base::badbit);
             ss << "  " << opt.format_name() << ' ' << opt.format_parameter();
             width = (max)(width, static_cast<unsigned>(ss.str().size()));            
         }
-- 
2.43.0


From bd2fbb347337a4619f50fc2c0d536d358cd17880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 18/22] fix: do not truncate option names when an allocation
 fails

getline() on the string stream kept a failed allocation to itself, and the
option silently got fewer or shorter names, or none at all.
---
 src/options_description.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 67cfefa..9e89dbe 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -198,6 +198,7 @@ namespace boost { namespace program_options {
     {
         m_long_names.clear();
         std::istringstream iss(_names);
+        iss.exceptions(std::ios_base::badbit);
         std::string name;
 
         while(std::getline(iss, name, ',')) {
-- 
2.43.0


From 7f2b29777fcaa06bb6c0a6a19c2af2286c11bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 19/22] fix: keep an options_description consistent when adding
 to it fails

If noting the group membership of an option just added failed, printing
the description accessed an element which was not there.
---
 src/options_description.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 9e89dbe..5dc49ba 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -326,8 +326,9 @@ namespace boost { namespace program_options {
     void
     options_description::add(shared_ptr<option_description> desc)
     {
+        // Keep both of the same length also if an allocation fails.
+        belong_to_group.resize(m_options.size() + 1, false);
         m_options.push_back(desc);
-        belong_to_group.push_back(false);
     }
 
     options_description&
-- 
2.43.0


From ef9abe5deee2de22921b89f5d60d53f2c6b6706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 20/22] fix: store a std::string when a std::string is
 validated from wide characters

The wide overload stored a std::wstring, so that as<std::string>() threw
bad_any_cast and notifying a bound std::string dereferenced a null pointer.
---
 src/value_semantic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index 5c65e1e..d83f060 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -196,7 +196,7 @@ namespace boost { namespace program_options {
     void validate(any& v, const vector<wstring>& xs, std::string*, int)
     {
         check_first_occurrence(v);
-        v = any(get_single_string(xs));
+        v = any(to_local_8_bit(get_single_string(xs)));
     }
 #endif
 
-- 
2.43.0


From 8fbc96ad378b8cb46eb6667bc56949b3d385addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 21/22] fix: do not loop forever formatting an error with a
 self-containing default

what() did not return when the text set by set_substitute_default contains
the text it replaces, or when the latter is empty.
---
 src/value_semantic.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index d83f060..cefc420 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -270,13 +270,19 @@ namespace boost { namespace program_options {
 
     void error_with_option_name::replace_token(const string& from, const string& to) const
     {
+        if (from.empty())
+            return;
+
+        std::size_t pos = 0;
         for (;;)
         {
-            std::size_t pos = m_message.find(from.c_str(), 0, from.length());
+            pos = m_message.find(from.c_str(), pos, from.length());
             // not found: all replaced
             if (pos == std::string::npos)
                 return;
             m_message.replace(pos, from.length(), to);
+            // 'to' may contain 'from'
+            pos += to.length();
         }
     }
 
-- 
2.43.0


From f39e4999137c674a029db39a3bd86c8006a5f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 22/22] fix: name two options which do overlap when wildcard
 names conflict

---
 src/config_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index a3c01cd..0a53a36 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -52,7 +52,7 @@ namespace boost { namespace program_options { namespace detail {
                 if (i->find(s) == 0)
                     bad_prefixes = true;                    
             }
-            if (i != allowed_prefixes.begin()) {
+            if (!bad_prefixes && i != allowed_prefixes.begin()) {
                 --i;
                 if (s.find(*i) == 0)
                     bad_prefixes = true;
-- 
2.43.0

