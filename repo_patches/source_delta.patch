From f25852d36eba883e0a70d58af911124d3ea3f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 01/31] fix: add_subcommands may not be called after parse

---
 include/sharg/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 7f996ae..ddf9c5c 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -651,6 +651,8 @@ public:
      */
     void add_subcommands(std::vector<std::string> const & subcommands)
     {
+        check_parse_not_called("add_subcommands");
+
         auto & parser_subcommands = this->subcommands;
         parser_subcommands.insert(parser_subcommands.end(), subcommands.cbegin(), subcommands.cend());
 
-- 
2.43.0


From 251915f1bb32cca52f9f000710830869e504add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 02/31] fix: reserve the identifier of the built-in
 --version-check option

---
 include/sharg/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index ddf9c5c..43978cd 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -763,7 +763,7 @@ private:
         format{detail::format_short_help{}};
 
     //!\brief List of option/flag identifiers (excluding -/--) that are already used.
-    std::unordered_set<std::string> used_ids{"h", "hh", "help", "advanced-help", "export-help", "version", "copyright"};
+    std::unordered_set<std::string> used_ids{"h", "hh", "help", "advanced-help", "export-help", "version", "version-check", "copyright"};
 
     //!\brief The command line arguments that will be passed to the format.
     std::vector<std::string> format_arguments{};
-- 
2.43.0


From ffc2ac0e7ca956a6bcaa6f1b6e8728f7c039faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 03/31] fix: report overflowing values of list options

---
 include/sharg/detail/format_parse.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index b2b0feb..0a7b275 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -450,6 +450,9 @@ private:
                               std::string const & option_name,
                               std::string const & input_value)
     {
+        if constexpr (detail::is_container_option<option_type>)
+            return throw_on_input_error<typename option_type::value_type>(res, option_name, input_value);
+
         std::string msg{"Value parse failed for " + option_name + ": "};
 
         if (res == option_parse_result::error)
-- 
2.43.0


From 191fdc6fd978e98c8888c6f96165d766215b2f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 04/31] fix: short flags must not be taken from behind --

---
 include/sharg/detail/format_parse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 0a7b275..88aff78 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -258,8 +258,10 @@ private:
     bool flag_is_set(char const short_id)
     {
         // short flags need special attention, since they could be grouped (-rGv <=> -r -G -v)
-        for (std::string & arg : arguments)
+        for (auto it = arguments.begin(); it != end_of_options_it; ++it)
         {
+            std::string & arg = *it;
+
             if (arg[0] == '-' && arg.size() > 1 && arg[1] != '-') // is option && not dash && no long option
             {
                 auto pos = arg.find(short_id);
-- 
2.43.0


From a24369670ac10aed45e262d617ef083137cf987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 05/31] fix: keep values given by short id when a list option
 is also given by long id

---
 include/sharg/detail/format_parse.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 88aff78..49fa718 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -554,7 +554,7 @@ private:
      * (non container!) option by specifying the short AND long identifier.
      */
     template <typename option_type, typename id_type>
-    bool get_option_by_id(option_type & value, id_type const & id)
+    bool get_option_by_id(option_type & value, id_type const & id, [[maybe_unused]] bool const keep_values = false)
     {
         auto it = find_option_id(arguments.begin(), end_of_options_it, id);
 
@@ -580,12 +580,12 @@ private:
      *
      */
     template <detail::is_container_option option_type, typename id_type>
-    bool get_option_by_id(option_type & value, id_type const & id)
+    bool get_option_by_id(option_type & value, id_type const & id, [[maybe_unused]] bool const keep_values = false)
     {
         auto it = find_option_id(arguments.begin(), end_of_options_it, id);
         bool seen_at_least_once{it != end_of_options_it};
 
-        if (seen_at_least_once)
+        if (seen_at_least_once && !keep_values)
             value.clear();
 
         while (it != end_of_options_it)
@@ -683,7 +683,7 @@ private:
     void get_option(option_type & value, config<validator_t> const & config)
     {
         bool short_id_is_set{get_option_by_id(value, config.short_id)};
-        bool long_id_is_set{get_option_by_id(value, config.long_id)};
+        bool long_id_is_set{get_option_by_id(value, config.long_id, short_id_is_set)};
 
         // if value is no container we need to check for multiple declarations
         if (short_id_is_set && long_id_is_set && !detail::is_container_option<option_type>)
-- 
2.43.0


From eedbbb5a609e014f896364c56a84310bac2495af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 06/31] fix: do not let parse() fail with a foreign exception
 if HOME is unset

---
 include/sharg/detail/version_check.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index b57c93d..d604a47 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -225,13 +225,15 @@ public:
         using namespace std::filesystem;
 
         path tmp_path;
+        std::error_code err{std::make_error_code(std::errc::no_such_file_or_directory)};
 
-        tmp_path = std::string{getenv(home_env_name)};
-        tmp_path /= ".config";
-
-        // First, create .config if it does not already exist.
-        std::error_code err;
-        create_directory(tmp_path, err);
+        // First, create .config if it does not already exist. The home directory might be unknown.
+        if (char const * const home = getenv(home_env_name); home != nullptr)
+        {
+            tmp_path = std::string{home};
+            tmp_path /= ".config";
+            create_directory(tmp_path, err);
+        }
 
         // If this did not fail we, create the seqan subdirectory.
         if (!err)
@@ -242,7 +244,10 @@ public:
 
         // .config/seqan cannot be created, try tmp directory.
         if (err)
-            tmp_path = temp_directory_path(); // choose temp dir instead
+            tmp_path = temp_directory_path(err); // choose temp dir instead
+
+        if (err)
+            return {};
 
         // check if files can be written inside dir
         path dummy = tmp_path / "dummy.txt";
-- 
2.43.0


From 25d0fdbf34958cac8c804439bf95caea31fe8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 07/31] fix: the cookie path probe must not destroy an existing
 file

---
 include/sharg/detail/version_check.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index d604a47..bcf13b1 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -251,6 +251,8 @@ public:
 
         // check if files can be written inside dir
         path dummy = tmp_path / "dummy.txt";
+        for (size_t i = 0; exists(dummy, err); ++i) // never touch an existing file
+            dummy = tmp_path / ("dummy" + std::to_string(i) + ".txt");
         std::ofstream file{dummy};
         sharg::detail::safe_filesystem_entry file_guard{dummy};
 
-- 
2.43.0


From 1fea68b677a8939e7ba9a830264f8ccf635a5152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 08/31] fix: no version check and no cookie in the working
 directory without a cookie path

---
 include/sharg/detail/version_check.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index bcf13b1..b58d1d1 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -302,6 +302,9 @@ public:
         if (std::getenv("SHARG_NO_VERSION_CHECK") != nullptr) // environment variable was set
             return false;
 
+        if (cookie_path.empty()) // no directory to write to
+            return false;
+
         if (user_approval.has_value())
             return user_approval.value();
 
-- 
2.43.0


From 9bd4ccc5fadeda486efd9f9e293a2f4d76fe092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 09/31] fix: quote the output file in the shell command of the
 version check

---
 include/sharg/detail/version_check.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index b58d1d1..794d4c4 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -187,7 +187,7 @@ public:
 
         // build up command for server call
         std::string command = program + // no user defined input
-                              " " + out_file.string() + " "
+                              " " + quote_for_shell(out_file.string()) + " "
                             + std::string{"https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_"} +
 #ifdef __linux
                               "Linux" +
@@ -445,6 +445,24 @@ public:
     std::filesystem::path timestamp_filename;
 
 private:
+    //!\brief Returns a string that the shell reads as the single literal word `str`.
+    static std::string quote_for_shell(std::string const & str)
+    {
+#if defined(_WIN32)
+        return str;
+#else
+        std::string result{"'"};
+        for (char const c : str)
+        {
+            if (c == '\'')
+                result += "'\\''";
+            else
+                result += c;
+        }
+        return result + "'";
+#endif
+    }
+
     //!\brief Returns the command line call as a std::string of an available program depending on the environment.
     static std::string get_program()
     {
-- 
2.43.0


From ff85f984bd05617e16e756e3f35e468a9a3b6316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 10/31] fix: do not remove a file that could not be opened for
 writing

---
 include/sharg/validators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index f448d51..52843a1 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -446,7 +446,6 @@ protected:
         // LCOV_EXCL_STOP
 
         std::ofstream file{path};
-        sharg::detail::safe_filesystem_entry file_guard{path};
 
         bool is_open = file.is_open();
         bool is_good = file.good();
@@ -455,6 +454,7 @@ protected:
         if (!is_good || !is_open)
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
 
+        sharg::detail::safe_filesystem_entry file_guard{path};
         file_guard.remove();
     }
 
-- 
2.43.0


From ad5113a8c43f92dcf50bd1f80d1ab27763933cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 11/31] fix: do not remove an existing file with a wrong
 extension

---
 include/sharg/validators.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 52843a1..c1b8ce1 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -728,10 +728,11 @@ public:
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
+            // Check the extension first, because checking the write permissions truncates and removes the file.
+            validate_filename(file);
+
             // Check if file has any write permissions.
             validate_writeability(file);
-
-            validate_filename(file);
         }
         // LCOV_EXCL_START
         catch (std::filesystem::filesystem_error & ex)
-- 
2.43.0


From fb7beb4c625cd2ec2a22d9e6ed9a3fe2b0f871e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 12/31] fix: do not remove special files when validating an
 output file

---
 include/sharg/validators.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index c1b8ce1..11222dc 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -454,6 +454,10 @@ protected:
         if (!is_good || !is_open)
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
 
+        // Opening succeeded, so the file exists. Special files, e.g. /dev/null, must not be removed.
+        if (!std::filesystem::is_regular_file(path))
+            return;
+
         sharg::detail::safe_filesystem_entry file_guard{path};
         file_guard.remove();
     }
-- 
2.43.0


From b678057f2904774917af2881be99907131a87db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:33 +0000
Subject: [PATCH 13/31] fix: output validators report file system errors as
 validation_error

---
 include/sharg/validators.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 11222dc..5ae18cf 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -724,11 +724,11 @@ public:
      */
     virtual void operator()(std::filesystem::path const & file) const override
     {
-        if (std::filesystem::is_directory(file))
-            throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
-
         try
         {
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
@@ -912,16 +912,16 @@ public:
      */
     virtual void operator()(std::filesystem::path const & dir) const override
     {
-        bool dir_exists = std::filesystem::exists(dir);
-        // Make sure the created dir is deleted after we are done.
-        std::error_code ec;
-        std::filesystem::create_directory(dir, ec); // does nothing and is not treated as error if path already exists.
-        // if error code was set or if dummy.txt could not be created within the output dir, throw an error.
-        if (static_cast<bool>(ec))
-            throw validation_error{"Cannot create directory: \"" + dir.string() + "\"!"};
-
         try
         {
+            bool dir_exists = std::filesystem::exists(dir);
+            // Make sure the created dir is deleted after we are done.
+            std::error_code ec;
+            std::filesystem::create_directory(dir, ec); // does nothing and is not treated as error if path exists.
+            // if error code was set or if dummy.txt could not be created within the output dir, throw an error.
+            if (static_cast<bool>(ec))
+                throw validation_error{"Cannot create directory: \"" + dir.string() + "\"!"};
+
             if (!dir_exists)
             {
                 sharg::detail::safe_filesystem_entry dir_guard{dir};
-- 
2.43.0


From cf1627f60ee7ca439cb05abc56cb6926ac1adb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:33 +0000
Subject: [PATCH 14/31] fix: output_directory_validator must not destroy an
 existing file

---
 include/sharg/validators.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 5ae18cf..6fc528e 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -930,7 +930,11 @@ public:
             }
             else
             {
-                validate_writeability(dir / "dummy.txt");
+                std::filesystem::path probe{dir / "dummy.txt"};
+                for (size_t i = 0; std::filesystem::exists(probe); ++i) // never touch an existing file
+                    probe = dir / ("dummy" + std::to_string(i) + ".txt");
+
+                validate_writeability(probe);
             }
         }
         // LCOV_EXCL_START
-- 
2.43.0


From 2139168184c78051f04ad2b030535bf252facdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:33 +0000
Subject: [PATCH 15/31] fix: only pass unsigned char values to std::tolower

---
 include/sharg/validators.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 6fc528e..b1db58d 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -485,7 +485,8 @@ protected:
             return false;
 
         for (size_t j = 0, s_start = str_length - suffix_length; j < suffix_length; ++j)
-            if (std::tolower(str[s_start + j]) != std::tolower(suffix[j]))
+            if (std::tolower(static_cast<unsigned char>(str[s_start + j]))
+                != std::tolower(static_cast<unsigned char>(suffix[j])))
                 return false;
 
         return true;
-- 
2.43.0


From 1d40c0ccd92f1830b0461c63d3a915a2fb90a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:33 +0000
Subject: [PATCH 16/31] fix: only accept whole file extensions

---
 include/sharg/validators.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index b1db58d..d66916c 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -392,7 +392,12 @@ protected:
         // Compares the extensions in lower case.
         auto case_insensitive_ends_with = [&](std::string const & ext)
         {
-            return case_insensitive_string_ends_with(file_path, ext);
+            if (!case_insensitive_string_ends_with(file_path, ext))
+                return false;
+
+            // The match must be a whole extension, e.g. "file.xfa" does not have the extension "fa".
+            return ext.empty() || ext.front() == '.' || ext.size() == file_path.size()
+                || file_path[file_path.size() - ext.size() - 1] == '.';
         };
 
         // Check if requested extension is present.
-- 
2.43.0


From ceed307a5364b7edff882ee7196e5ed1b4ff9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 17/31] fix: enumeration names need not be null-terminated

---
 include/sharg/detail/format_parse.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 49fa718..9a26717 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -333,9 +333,10 @@ private:
 
                 std::string result{'['};
                 for (auto const & [key, value] : key_value_pairs)
-                    result += std::string{key.data()} + ", ";
-                result.replace(result.size() - 2, 2, "]"); // replace last ", " by "]"
-                return result;
+                    result += std::string{key} + ", ";
+                if (!key_value_pairs.empty())
+                    result.resize(result.size() - 2);
+                return result + "]";
             }();
 
             throw user_input_error{"You have chosen an invalid input value: " + in + ". Please use one of: " + keys};
-- 
2.43.0


From 3fa456b285fc50652611c0338ddc1af8d0bbff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 18/31] fix: help pages must not read past the end of texts
 with a trailing backslash

---
 include/sharg/detail/format_help.hpp | 12 ++++++++++--
 include/sharg/detail/format_html.hpp | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 7f6d80c..8b1bea7 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -227,7 +227,11 @@ protected:
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
                 ++it;
-                assert(it != str.end());
+                if (it == str.end()) // a single trailing backslash
+                {
+                    result.push_back('\\');
+                    break;
+                }
                 if (*it == '-')
                 {
                     result.push_back(*it);
@@ -235,7 +239,11 @@ protected:
                 else if (*it == 'f')
                 {
                     ++it;
-                    assert(it != str.end());
+                    if (it == str.end())
+                    {
+                        result.append("\\f");
+                        break;
+                    }
                     if (*it == 'I')
                     {
                         if (stdout_is_terminal())
diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index cfa93e4..fedb17c 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -182,7 +182,11 @@ private:
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
                 ++it;
-                assert(!(it == input.end()));
+                if (it == input.end()) // a single trailing backslash
+                {
+                    result.push_back('\\');
+                    break;
+                }
                 if (*it == '-')
                 {
                     result.push_back(*it);
@@ -190,7 +194,11 @@ private:
                 else if (*it == 'f')
                 {
                     ++it;
-                    assert(!(it == input.end()));
+                    if (it == input.end())
+                    {
+                        result.append("\\f");
+                        break;
+                    }
                     if (*it == 'I')
                     {
                         open_tags.push_back("em");
-- 
2.43.0


From 50f0fea582efcfd70f53857f0003e9072be59f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 19/31] fix: html tags are balanced for every text

---
 include/sharg/detail/format_html.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index fedb17c..644cfb8 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -211,11 +211,13 @@ private:
                     }
                     else if (*it == 'P')
                     {
-                        assert(!open_tags.empty());
-                        result.append("</");
-                        result.append(open_tags.back());
-                        result.append(">");
-                        open_tags.pop_back();
+                        if (!open_tags.empty()) // nothing to close otherwise
+                        {
+                            result.append("</");
+                            result.append(open_tags.back());
+                            result.append(">");
+                            open_tags.pop_back();
+                        }
                     }
                     else
                     {
@@ -235,6 +237,9 @@ private:
             }
         }
 
+        for (; !open_tags.empty(); open_tags.pop_back()) // close what the text left open
+            result.append("</" + open_tags.back() + ">");
+
         return result;
     }
 
-- 
2.43.0


From 6b6cf1400e7111a0d8b9fc73ad8d54f11b8b829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 20/31] fix: escape special characters in the html help page

---
 include/sharg/detail/format_html.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index 644cfb8..7f5671f 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -172,17 +172,17 @@ private:
      */
     std::string to_html(std::string const & input)
     {
-        std::string buffer = escape_special_xml_chars(input);
+        std::string const buffer = escape_special_xml_chars(input);
         std::string result;
         std::vector<std::string> open_tags; // acts as a stack of html tags
 
-        for (auto it = input.begin(); it != input.end(); ++it)
+        for (auto it = buffer.begin(); it != buffer.end(); ++it)
         {
             if (*it == '\\')
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
                 ++it;
-                if (it == input.end()) // a single trailing backslash
+                if (it == buffer.end()) // a single trailing backslash
                 {
                     result.push_back('\\');
                     break;
@@ -194,7 +194,7 @@ private:
                 else if (*it == 'f')
                 {
                     ++it;
-                    if (it == input.end())
+                    if (it == buffer.end())
                     {
                         result.append("\\f");
                         break;
@@ -249,7 +249,7 @@ private:
      */
     std::string in_bold(std::string const & str)
     {
-        return "<strong>" + str + "</strong>";
+        return "\\fB" + str + "\\fP"; // print_line() converts this into html tags
     }
 
     //!\brief Current state is either inside a html \<dl\> tag (true) or not (false).
-- 
2.43.0


From 21efc5f62d6e473ebf32b011f63eae4dda9ec7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 21/31] fix: a synopsis without white space must not let the
 help page fail

---
 include/sharg/detail/format_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_base.hpp b/include/sharg/detail/format_base.hpp
index 8689b44..d2a37c2 100644
--- a/include/sharg/detail/format_base.hpp
+++ b/include/sharg/detail/format_base.hpp
@@ -527,7 +527,7 @@ protected:
         {
             std::string text = "\\fB";
             text.append(meta.synopsis[i]);
-            text.insert(text.find_first_of(" \t"), "\\fP");
+            text.insert(std::min(text.find_first_of(" \t"), text.size()), "\\fP");
 
             derived_t().print_line(text, false);
         }
-- 
2.43.0


From e5b590a2a20aeef6f04a28106255ba41009d09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 22/31] fix: built-in options are not recognised behind --

---
 include/sharg/parser.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 43978cd..fddad25 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -867,11 +867,13 @@ private:
             return false;
         };
 
+        bool end_of_options{false};
+
         // Process the arguments.
         for (; read_next_arg();)
         {
             // The argument is a known option.
-            if (options.contains(std::string{arg}))
+            if (!end_of_options && options.contains(std::string{arg}))
             {
                 // No futher checks are needed.
                 format_arguments.emplace_back(arg);
@@ -892,6 +894,14 @@ private:
             if (found_subcommand())
                 break;
 
+            // Everything behind "--" is no option, hence also no built-in option.
+            if (end_of_options || arg == option_end_identifier)
+            {
+                end_of_options = true;
+                format_arguments.emplace_back(arg);
+                continue;
+            }
+
             if (arg == "-h" || arg == "--help")
             {
                 format = detail::format_help{subcommands, version_check_dev_decision, false};
-- 
2.43.0


From 848bc4d469234c0ebb0e6d5821e41738b7d533bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 23/31] fix: a parser may be moved after options have been
 added

---
 include/sharg/parser.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index fddad25..dc4a3ce 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -243,14 +243,14 @@ public:
         check_parse_not_called("add_option");
         verify_option_config(config);
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_option(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -279,14 +279,14 @@ public:
         if (value)
             throw design_error("A flag's default value must be false.");
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_flag(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -330,14 +330,14 @@ public:
         if constexpr (detail::is_container_option<option_type>)
             has_positional_list_option = true; // keep track of a list option because there must be only one!
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_positional_option(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -426,7 +426,7 @@ public:
 
         // Apply all defered operations to the parser, e.g., `add_option`, `add_flag`, `add_positional_option`.
         for (auto & operation : operations)
-            operation();
+            operation(*this);
 
         // The version check, which might exit the program, must be called before calling parse on the format.
         run_version_check();
@@ -533,14 +533,14 @@ public:
     {
         check_parse_not_called("add_section");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](parser & self)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
                 f.add_section(title, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -560,14 +560,14 @@ public:
     {
         check_parse_not_called("add_subsection");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](parser & self)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
                 f.add_subsection(title, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -588,14 +588,14 @@ public:
     {
         check_parse_not_called("add_line");
 
-        auto operation = [this, text, is_paragraph, advanced_only]()
+        auto operation = [text, is_paragraph, advanced_only](parser & self)
         {
             auto visit_fn = [&text, is_paragraph, advanced_only](auto & f)
             {
                 f.add_line(text, is_paragraph, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -625,14 +625,14 @@ public:
     {
         check_parse_not_called("add_list_item");
 
-        auto operation = [this, key, desc, advanced_only]()
+        auto operation = [key, desc, advanced_only](parser & self)
         {
             auto visit_fn = [&key, &desc, advanced_only](auto & f)
             {
                 f.add_list_item(key, desc, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -778,7 +778,7 @@ private:
     std::unordered_set<std::string> options{};
 
     //!\brief Vector of functions that stores all calls.
-    std::vector<std::function<void()>> operations;
+    std::vector<std::function<void(parser &)>> operations;
 
     /*!\brief Handles format and subcommand detection.
      * \throws sharg::too_few_arguments if option --export-help was specified without a value
-- 
2.43.0


From 3f545a21c65fb289e36757d02dc0badf5944889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 24/31] fix: exported help pages always show advanced options

---
 include/sharg/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index dc4a3ce..14c0acf 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -934,9 +934,9 @@ private:
                 }
 
                 if (arg == "html")
-                    format = detail::format_html{subcommands, version_check_dev_decision};
+                    format = detail::format_html{subcommands, version_check_dev_decision, true};
                 else if (arg == "man")
-                    format = detail::format_man{subcommands, version_check_dev_decision};
+                    format = detail::format_man{subcommands, version_check_dev_decision, true};
                 else if (arg == "ctd")
                     format = detail::format_tdl{detail::format_tdl::FileFormat::CTD};
                 else if (arg == "cwl")
-- 
2.43.0


From 141ec1aae1959c21b80ee77851053fbce17821cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 25/31] fix: accept path values that contain whitespace or
 quotes

---
 include/sharg/detail/format_parse.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 9a26717..6326b4e 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -9,6 +9,8 @@
 
 #pragma once
 
+#include <filesystem>
+
 #include <sharg/std/charconv>
 
 #include <sharg/concept.hpp>
@@ -355,6 +357,13 @@ private:
         value = in;
         return option_parse_result::success;
     }
+
+    // The stream operator of std::filesystem::path stops at whitespace and interprets quotes.
+    option_parse_result parse_option_value(std::filesystem::path & value, std::string const & in)
+    {
+        value = in;
+        return option_parse_result::success;
+    }
     //!\endcond
 
     /*!\brief Parses the given option value and appends it to the target container.
-- 
2.43.0


From c2817edf6d784138ebbc0250c07e09d1422be25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:21 +0000
Subject: [PATCH 26/31] fix: end-of-options marker directly behind an option
 ends the search for built-in options

---
 include/sharg/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 14c0acf..ef15c7b 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -881,6 +881,8 @@ private:
                 // Consume the next argument (the option value) if possible.
                 if (read_next_arg())
                 {
+                    // "--" is never the value of an option. The missing value is handled by format_parse.
+                    end_of_options = (arg == option_end_identifier);
                     format_arguments.emplace_back(arg);
                     continue;
                 }
-- 
2.43.0


From 62f4bf6cf8e57df7d243f7c349e83339fc4594d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:25 +0000
Subject: [PATCH 27/31] fix: input_file_validator does not accept directories

---
 include/sharg/validators.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index d66916c..0b64a9c 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -577,6 +577,9 @@ public:
             if (!std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" does not exist!"};
 
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             // Check if file is regular and can be opened for reading.
             validate_readability(file);
 
-- 
2.43.0


From 630a7ce8cb0b7bf364fae132f60d3f38cc5b715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:28 +0000
Subject: [PATCH 28/31] fix: arithmetic_range_validator does not truncate
 values of another type before the comparison

---
 include/sharg/validators.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 0b64a9c..3f7a061 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -16,6 +16,7 @@
 #include <fstream>
 #include <ranges>
 #include <regex>
+#include <utility>
 
 #include <sharg/detail/safe_filesystem_entry.hpp>
 #include <sharg/detail/to_string.hpp>
@@ -107,6 +108,28 @@ public:
             throw validation_error{"Value " + std::to_string(cmp) + " is not in range " + valid_range_str + "."};
     }
 
+    /*!\brief Tests whether cmp lies inside [`min`, `max`]; does not convert (and hence change) a value of another type.
+     * \param cmp The input value to check.
+     * \throws sharg::validation_error
+     */
+    template <typename value_type>
+        requires (std::is_arithmetic_v<value_type> && !std::same_as<value_type, option_value_type>
+                  && !(std::floating_point<value_type> && std::floating_point<option_value_type>))
+    void operator()(value_type const & cmp) const
+    {
+        auto less_equal = [](auto const lhs, auto const rhs)
+        {
+            if constexpr (std::integral<decltype(lhs)> && std::integral<decltype(rhs)>)
+                return std::cmp_less_equal(lhs, rhs);
+            else
+                return lhs <= rhs;
+        };
+
+        // The unary plus promotes bool and character types.
+        if (!(less_equal(+cmp, +max) && less_equal(+min, +cmp)))
+            throw validation_error{"Value " + std::to_string(+cmp) + " is not in range " + valid_range_str + "."};
+    }
+
     /*!\brief Tests whether every element in \p range lies inside [`min`, `max`].
      * \tparam range_type The type of range to check; must model std::ranges::forward_range. The value type must model
      *                    std::is_arithmetic_v.
-- 
2.43.0


From dbf9975e8c89c6bd266514e31c1525e5620ceb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:28 +0000
Subject: [PATCH 29/31] fix: value_list_validator does not truncate numbers of
 another type before the comparison

---
 include/sharg/validators.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 3f7a061..20ca58d 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -254,6 +254,29 @@ public:
             throw validation_error{detail::to_string("Value ", cmp, " is not one of ", values, ".")};
     }
 
+    /*!\brief Tests whether cmp lies inside values; does not convert (and hence change) a number of another type.
+     * \param cmp The input value to check.
+     * \throws sharg::validation_error
+     */
+    template <typename value_type>
+        requires (std::is_arithmetic_v<value_type> && std::is_arithmetic_v<option_value_type>
+                  && !std::same_as<value_type, option_value_type>
+                  && !(std::floating_point<value_type> && std::floating_point<option_value_type>))
+    void operator()(value_type const & cmp) const
+    {
+        auto equals_cmp = [&cmp](option_value_type const value)
+        {
+            // The unary plus promotes bool and character types.
+            if constexpr (std::integral<value_type> && std::integral<option_value_type>)
+                return std::cmp_equal(+value, +cmp);
+            else
+                return value == cmp;
+        };
+
+        if (std::find_if(values.begin(), values.end(), equals_cmp) == values.end())
+            throw validation_error{detail::to_string("Value ", cmp, " is not one of ", values, ".")};
+    }
+
     /*!\brief Tests whether every element in \p range lies inside values.
      * \tparam range_type The type of range to check; must model std::ranges::forward_range.
      * \param  range      The input range to iterate over and check every element.
-- 
2.43.0


From 97699ad1cb57f132fb089fba46a00c4dd6869fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:04 +0000
Subject: [PATCH 30/31] fix: an element of the help page without a text ends
 its line

---
 include/sharg/detail/format_help.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 8b1bea7..82ce35e 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -377,8 +377,7 @@ protected:
                 }
             }
         }
-        if (!empty(tokens))
-            std::cout << '\n';
+        std::cout << '\n';
     }
 
     /*!\brief Format string in bold.
-- 
2.43.0


From 6736d52df916aa77ae3d61a18d8d232556c494b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:24 +0000
Subject: [PATCH 31/31] fix: the exported man page shows texts as they were
 written

---
 include/sharg/detail/format_man.hpp | 75 +++++++++++++++++++++++++----
 1 file changed, 65 insertions(+), 10 deletions(-)

diff --git a/include/sharg/detail/format_man.hpp b/include/sharg/detail/format_man.hpp
index 96843c2..0b0a298 100644
--- a/include/sharg/detail/format_man.hpp
+++ b/include/sharg/detail/format_man.hpp
@@ -68,7 +68,7 @@ private:
                        {
                            return std::toupper(c);
                        });
-        std::cout << " " << std::to_string(meta.man_page_section) << " \"" << meta.date << "\" \"";
+        std::cout << " " << std::to_string(meta.man_page_section) << " \"" << to_roff(meta.date, true) << "\" \"";
         std::transform(meta.app_name.begin(),
                        meta.app_name.end(),
                        out,
@@ -76,10 +76,10 @@ private:
                        {
                            return std::tolower(c);
                        });
-        std::cout << " " << meta.version << "\" \"" << meta.man_page_title << "\"\n";
+        std::cout << " " << to_roff(meta.version, true) << "\" \"" << to_roff(meta.man_page_title, true) << "\"\n";
 
         // Print NAME section.
-        std::cout << ".SH NAME\n" << meta.app_name << " \\- " << meta.short_description << std::endl;
+        std::cout << ".SH NAME\n" << meta.app_name << " \\- " << to_roff(meta.short_description) << std::endl;
     }
 
     /*!\brief Prints a section title in man page format to std::cout.
@@ -87,16 +87,15 @@ private:
      */
     void print_section(std::string const & title)
     {
-        std::ostream_iterator<char> out(std::cout);
-        std::cout << ".SH ";
+        std::string upper_case_title{};
         std::transform(title.begin(),
                        title.end(),
-                       out,
+                       std::back_inserter(upper_case_title),
                        [](unsigned char c)
                        {
                            return std::toupper(c);
                        });
-        std::cout << "\n";
+        std::cout << ".SH " << to_roff(upper_case_title, true) << "\n";
         is_first_in_section = true;
     }
 
@@ -105,7 +104,7 @@ private:
      */
     void print_subsection(std::string const & title)
     {
-        std::cout << ".SS " << title << "\n";
+        std::cout << ".SS " << to_roff(title, true) << "\n";
         is_first_in_section = true;
     }
 
@@ -122,7 +121,7 @@ private:
         else if (!is_first_in_section && !line_is_paragraph)
             std::cout << ".br\n";
 
-        std::cout << text << "\n";
+        std::cout << to_roff(text) << "\n";
         is_first_in_section = false;
     }
 
@@ -137,7 +136,7 @@ private:
      */
     void print_list_item(std::string const & term, std::string const & desc)
     {
-        std::cout << ".TP\n" << term << "\n" << desc << "\n";
+        std::cout << ".TP\n" << to_roff(term) << "\n" << to_roff(desc) << "\n";
         is_first_in_section = false;
     }
 
@@ -156,6 +155,62 @@ private:
         return "\\fB" + str + "\\fR";
     }
 
+    /*!\brief Escapes all characters that have a special meaning in roff, except for the formatting codes.
+     * \param[in] text The text to escape.
+     * \param[in] is_macro_argument Whether the text is (part of) the argument of a macro, e.g., a section title.
+     */
+    static std::string to_roff(std::string const & text, bool const is_macro_argument = false)
+    {
+        std::string result{};
+        bool is_line_start{true};
+
+        for (size_t i = 0; i < text.size(); ++i)
+        {
+            // The formatting codes \-, \fB, \fI, \fP, and \fR.
+            std::string_view const rest = std::string_view{text}.substr(i);
+            size_t code_size{};
+            if (rest.starts_with("\\-"))
+                code_size = 2u;
+            else if (rest.starts_with("\\fB") || rest.starts_with("\\fI") || rest.starts_with("\\fP")
+                     || rest.starts_with("\\fR"))
+                code_size = 3u;
+
+            if (code_size > 0u)
+            {
+                result.append(rest.substr(0u, code_size));
+                i += code_size - 1u;
+            }
+            else if (rest.starts_with("\\\\")) // a backslash in front of a backslash does not begin a formatting code
+            {
+                result.append("\\e\\e");
+                ++i;
+            }
+            else if (text[i] == '\\')
+            {
+                result.append("\\e");
+            }
+            else if (text[i] == '\n' && is_macro_argument)
+            {
+                result.push_back(' '); // otherwise, the argument would end here
+            }
+            else if (text[i] == '"' && is_macro_argument)
+            {
+                result.append("\\(dq");
+            }
+            else
+            {
+                if (is_line_start && (text[i] == '.' || text[i] == '\''))
+                    result.append("\\&"); // otherwise, the line would be a request
+
+                result.push_back(text[i]);
+            }
+
+            is_line_start = (text[i] == '\n');
+        }
+
+        return result;
+    }
+
     //!\brief Needed for correct indentation and line breaks.
     bool is_first_in_section{true};
 };
-- 
2.43.0

