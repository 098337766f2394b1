from mkseed import make
FP, PA = 'detail/format_parse.hpp', 'parser.hpp'
make('b01-value-after-last-equals', 'C05', [(FP, "input_value = (*option_it).substr(id_size + 1);", "input_value = (*option_it).substr((*option_it).rfind('=') + 1);")], r'''
int main() {
    auto run = [](V a) { auto p = mk(a); std::string v; p.add_option(v, sharg::config{.short_id='o', .long_id="opt"}); p.parse(); return v; };
    CHECK(run({"--opt=x"}) == "x"); CHECK(run({"--opt=k=v"}) == "k=v"); CHECK(run({"-o=a==b"}) == "a==b");
    return bad; }''', 'a value that contains an equals sign', '--opt=k=v gives the variable only v')
make('b02-surplus-behind-marker', 'C07', [(FP, """        if (std::find_if(arguments.begin(),
                         arguments.end(),
                         [](std::string const & s)
                         {
                             return (s != "");
                         })
            != arguments.end())
            throw too_many""", """        if (std::find_if(arguments.begin(),
                         end_of_options_it,
                         [](std::string const & s)
                         {
                             return (s != "");
                         })
            != end_of_options_it)
            throw too_many""")], r'''
int main() {
    auto run = [](V a) { return outcome([&] { auto p = mk(a); std::string v; p.add_positional_option(v, sharg::config{}); p.parse(); }); };
    CHECK(run({"a"}) == "ok"); CHECK(run({"a", "b"}) == "many"); CHECK(run({"--", "a", "b"}) == "many"); CHECK(run({"a", "--", "b"}) == "many");
    return bad; }''', 'the end-of-options marker and a surplus argument behind it', 'surplus positional arguments behind -- are dropped silently')
make('b03-long-id-default-unvalidated', 'C11', [(FP, "        if (short_id_is_set || long_id_is_set)\n", "        if (short_id_is_set || (long_id_is_set && value != option_type{}))\n")], r'''
int main() {
    struct nonzero { using option_value_type = int; void operator()(int i) const { if (i == 0) throw sharg::validation_error{"zero"}; } std::string get_help_page_message() const { return ""; } };
    auto run = [](V a) { return outcome([&] { auto p = mk(a); int v{3}; p.add_option(v, sharg::config{.short_id='o', .long_id="opt", .validator = nonzero{}}); p.parse(); }); };
    CHECK(run({"-o", "5"}) == "ok"); CHECK(run({"--opt", "5"}) == "ok"); CHECK(run({"-o", "0"}) == "validation"); CHECK(run({"--opt", "0"}) == "validation");
    return bad; }''', 'the long identifier and the value-initialised value', 'a value equal to the type default is not validated when given with the long identifier')
make('b04-trailing-blank-in-streamed', 'C06', [(FP, "        stream >> value;\n", "        stream >> value;\n\n        while (!stream.eof() && stream.peek() == ' ')\n            stream.get();\n")], r'''
namespace foo { struct p { int a{}; }; inline std::istream & operator>>(std::istream & s, p & x) { return s >> x.a; } inline std::ostream & operator<<(std::ostream & s, p const & x) { return s << x.a; } }
int main() {
    auto run = [](V a) { return outcome([&] { auto p = mk(a); foo::p v; p.add_option(v, sharg::config{.short_id='o', .long_id="opt"}); p.parse(); }); };
    CHECK(run({"-o", "5"}) == "ok"); CHECK(run({"-o", "5 "}) == "input"); CHECK(run({"-o", "5 6"}) == "input");
    return bad; }''', 'a streamable type and a value with trailing blanks', 'texts with trailing blanks are accepted')
make('b05-multiple-ignored-before-marker', 'C10', [(FP, "if (short_id_is_set && long_id_is_set && !detail", "if (short_id_is_set && long_id_is_set && end_of_options_it == arguments.end() && !detail")], r'''
int main() {
    auto run = [](V a) { return outcome([&] { auto p = mk(a); std::string v; V w; p.add_option(v, sharg::config{.short_id='o', .long_id="opt"}); p.add_positional_option(w, sharg::config{}); p.parse(); }); };
    CHECK(run({"-o", "5", "x"}) == "ok"); CHECK(run({"-o", "5", "--opt", "6", "x"}) == "multiple"); CHECK(run({"-o", "5", "--opt", "6", "--", "x"}) == "multiple");
    return bad; }''', 'both identifiers of an option and the end-of-options marker', 'the second value silently wins')
make('b06-positional-behind-marker-first', 'C12', [(FP, """        ++positional_option_count;
        auto it = std::find_if(arguments.begin(),
                               arguments.end(),
                               [](std::string const & s)
                               {
                                   return (s != "");
                               });
""", """        ++positional_option_count;
        auto const is_unused = [](std::string const & s)
        {
            return (s != "");
        };
        auto it = std::find_if(end_of_options_it, arguments.end(), is_unused);

        if (it == arguments.end())
            it = std::find_if(arguments.begin(), arguments.end(), is_unused);
""")], r'''
int main() {
    auto run = [](V a) { auto p = mk(a); std::string v, w; p.add_positional_option(v, sharg::config{}); p.add_positional_option(w, sharg::config{}); p.parse(); return v + "," + w; };
    CHECK(run({"a", "b"}) == "a,b"); CHECK(run({"--", "a", "b"}) == "a,b"); CHECK(run({"a", "--", "b"}) == "a,b");
    return bad; }''', 'positional arguments on both sides of the marker', 'arguments behind -- are assigned before those in front of it')
make('b07-parse-again-after-error', 'C01', [(PA, """        parse_was_called = true;

        // User input sanitization must happen before version check!
        verify_app_and_subcommand_names();
""", """        // User input sanitization must happen before version check!
        verify_app_and_subcommand_names();
"""), (PA, """        // Parse the command line arguments.
        parse_format();
""", """        // Parse the command line arguments.
        parse_was_called = true;
        parse_format();
""")], r'''
int main() {
    auto p = mk({"--export-help", "nonsense"}); std::string v;
    CHECK(outcome([&] { p.parse(); }) == "validation");
    CHECK(outcome([&] { p.parse(); }) == "design");
    CHECK(outcome([&] { p.add_option(v, sharg::config{.short_id='o'}); }) == "design");
    auto q = mk({"x"}); q.add_positional_option(v, sharg::config{});
    CHECK(outcome([&] { q.parse(); }) == "ok"); CHECK(outcome([&] { q.parse(); }) == "design");
    return bad; }''', 'a parse() that throws while looking for built-in requests, then a second call', 'the parser can be parsed and extended again after a failed parse()')
make('b08-flag-ids-not-recorded', 'C02', [(PA, """    {
        verify_identifiers(config.short_id, config.long_id);

        if (!config.default_message.empty())
            throw design_error{"A flag may""", """    {
        verify_identifiers(config.short_id, config.long_id);

        if (config.hidden)
            used_ids.erase(config.long_id);

        if (!config.default_message.empty())
            throw design_error{"A flag may""")], r'''
int main() {
    auto run = [](bool h) { return outcome([&] { auto p = mk({"x"}); bool f{}; std::string v; p.add_flag(f, sharg::config{.long_id="opt", .hidden=h}); p.add_option(v, sharg::config{.long_id="opt"}); }); };
    CHECK(run(false) == "design"); CHECK(run(true) == "design");
    return bad; }''', 'a hidden flag and a later option with the same long identifier', 'the same identifier can be used twice')
make('b09-subcommand-names-last-unchecked', 'C03', [(PA, """        for (auto & sub : this->subcommands)
        {
            if (!std::regex_match""", """        for (auto & sub : this->subcommands)
        {
            if (sub != this->subcommands.front() && sub == this->subcommands.back())
                break;

            if (!std::regex_match""")], r'''
int main() {
    CHECK(outcome([&] { auto p = mk({"-x"}, {"bad name"}); p.parse(); }) == "design");
    CHECK(outcome([&] { auto p = mk({"-x"}, {"a", "bad name"}); p.parse(); }) == "design");
    CHECK(outcome([&] { auto p = mk({"-x"}, {"a", "b", "z z"}); p.parse(); }) == "design");
    CHECK(outcome([&] { auto p = mk({"-x"}, {"a", "b"}); p.parse(); }) == "unknown");
    return bad; }''', 'several subcommands, the alphabetically last one with an illegal name', 'an illegal subcommand name is accepted')
make('b10-help-behind-list-value', 'C05', [(PA, """                if (read_next_arg())
                {
                    // "--" is""", """                if (arg.size() == 2 ? read_next_arg() : (read_next_arg() && arg != "--help"))
                {
                    // "--" is""")], r'''
int main() {
    auto run = [](V a) { return ends([&] { auto p = mk(a); std::string v; std::string w; p.add_option(v, sharg::config{.short_id='o', .long_id="opt"}); p.add_option(w, sharg::config{.short_id='p', .long_id="par"}); p.parse(); if (v != "--help") throw sharg::design_error{"x"}; }).first; };
    CHECK(run({"-o", "--help"}) == 77); CHECK(run({"--opt", "--help"}) == 77); CHECK(run({"--opt", "--help", "-p", "x"}) == 77);
    return bad; }''', 'a long option whose value is --help', 'the value of an option is lost')
make('b11-validator-foreign-exception', 'C13', [(FP, """            catch (std::exception & ex)
            {
                throw validation_error(std::string("Validation failed for option ")""", """            catch (sharg::parser_error & ex)
            {
                throw validation_error(std::string("Validation failed for option ")""")], r'''
#include <stdexcept>
int main() {
    struct v1 { using option_value_type = int; void operator()(int i) const { if (i == 0) throw std::runtime_error{"zero"}; } std::string get_help_page_message() const { return ""; } };
    auto run = [](V a) { return outcome([&] { auto p = mk(a); int v{3}; p.add_option(v, sharg::config{.short_id='o', .long_id="opt", .validator = v1{}}); p.parse(); }); };
    CHECK(run({"-o", "5"}) == "ok"); CHECK(run({"-o", "0"}) == "validation");
    return bad; }''', 'a user defined validator that throws a standard exception', 'the foreign exception leaves parse()')
make('b12-list-replaced-only-if-short', 'C09', [(FP, "        if (seen_at_least_once && !keep_values)\n            value.clear();\n", "        if (seen_at_least_once && !keep_values && value.size() < arguments.size())\n            value.clear();\n")], r'''
int main() {
    auto run = [](V a) { auto p = mk(a); V v{"1", "2", "3", "4", "5"}; p.add_option(v, sharg::config{.short_id='o', .long_id="opt"}); p.parse(); return v; };
    CHECK(run({"-o", "a"}) == V{"a"}); CHECK(run({"-o", "a", "-o", "b"}) == V{"a", "b"});
    return bad; }''', 'a default list that is longer than the command line', 'the default content of the list is kept')
make('b13-flag-behind-marker', 'C08', [(FP, """        auto it = std::find(arguments.begin(), end_of_options_it, prepend_dash(long_id));

        if (it != end_of_options_it)
            *it = ""; // remove seen flag

        return (it != end_of_options_it);""", """        auto it = std::find(arguments.begin(), arguments.end(), prepend_dash(long_id));

        if (it != arguments.end())
            *it = ""; // remove seen flag

        return (it < end_of_options_it);""")], r'''
int main() {
    auto run = [](V a) { auto p = mk(a); bool f{}; V w; p.add_flag(f, sharg::config{.short_id='f', .long_id="flag"}); p.add_positional_option(w, sharg::config{}); p.parse(); return std::make_pair(f, w); };
    CHECK(run({"--flag", "x"}) == std::pair{true, V{"x"}}); CHECK(run({"--", "--flag", "x"}) == std::pair{false, V{"--flag", "x"}});
    return bad; }''', 'a long flag identifier behind the marker', 'the argument behind -- disappears')
