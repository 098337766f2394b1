"""The properties (source of properties.jsonl and MANIFEST.json, see gen.py)."""
PSAI = 'path-sensitive abstract interpretation of the type-checked AST (sharg callees inlined, std:: modelled)'
NOTE = ('Decides every path of the named entry contexts in the current headers, release and debug; trusts the std:: model '
        'and the clang AST. Constructs outside the model leave an obligation undecided (listed in the evidence), never silent.')


def prop(id, title, statement, over, quant, why, files, mech, technique=PSAI, note=NOTE, na=None, observe=None):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant},
            'why_tests_cant': why, 'technique': technique, 'note': note, 'na': na,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                        **({'observe_at': observe} if observe else {})}}


I = 'include/sharg/'
PROPS = [
    prop('C04', 'Built-in requests are recognised everywhere and end the program',
         'An argument -h, --help, -hh, --advanced-help, --version, --copyright or --export-help {html,man} that is neither '
         'the value of a known option nor behind "--" makes parsing show exactly that page and end the program with exit '
         'code 0, whatever ordinary arguments surround it, without touching any variable; -h equals --help and -hh equals --advanced-help. '
         'A missing value of --export-help/--version-check is too_few_arguments, a value outside their lists is '
         'validation_error, and a call without arguments shows the short help. No other argument, nothing behind "--" and '
         'no option value ever triggers any of this.',
         ['inputs'], 'all argument vectors',
         'Tests try a handful of command lines; position, neighbours and the value/terminator contexts multiply.',
         [I + 'parser.hpp'], [('argument loop', I + 'parser.hpp determine_format_and_subcommand')]),
    prop('C01', 'A parser is set up, parsed once, then queried, in this order',
         'Once parse() was called on a parser object, whether it returned or threw, every further parse() and every call that adds '
         'options, flags, positional options, documentation or subcommands is a design_error; all of them are accepted before it. '
         'Asking whether an option was set, and getting the sub parser, is a design_error before parse(), as is asking for an identifier '
         'that was never added and getting a sub parser when none was selected. '
         'With a selected subcommand the sub parser is available after parse().',
         ['histories', 'inputs'], 'all orders of construction, parse and one further call, all command lines of up to two arguments',
         'Tests call single operations after one successful parse; the object state after every way parse() can end is not covered.',
         [I + 'parser.hpp'], [('parse_was_called checks', I + 'parser.hpp'), ('get_sub_parser', I + 'parser.hpp')]),
    prop('C02', 'Identifiers are accepted exactly when legal, unreserved and unused',
         'Adding an option or flag succeeds exactly when at least one identifier is given, the short one is one of the allowed characters, '
         'the long one has at least two allowed characters and does not start with a dash, neither is reserved for a built-in request and '
         'neither was used before in this parser; otherwise it is a design_error.',
         ['inputs', 'histories'], 'all characters, all strings, all ordered pairs of registrations',
         'Tests try some bad characters and some duplicates; the acceptance set is infinite.',
         [I + 'parser.hpp'], [('identifier checks', I + 'parser.hpp verify_option_config, verify_identifiers')]),
    prop('C03', 'Contradictory configurations and illegal names are refused',
         'A default message on a required option, positional option or flag, a positional option with identifiers or marked advanced or hidden, a '
         'flag whose variable is true, an argument following a positional list, positional options added to a parser with subcommands are '
         'design_errors, and configurations without such a contradiction are accepted. Parsing fails with design_error, before anything else '
         'happens, when the application name or a subcommand name contains a character that is not alphanumeric, _ or - (or is empty), and '
         'never because of another name.',
         ['configurations', 'inputs'], 'all values of all configuration fields, all names',
         'Tests sample single contradictions and a few names.',
         [I + 'parser.hpp', I + 'config.hpp'], [('configuration checks', I + 'parser.hpp verify_*_config'), ('name check', I + 'parser.hpp verify_app_and_subcommand_names')]),
    prop('C05', 'A value reaches its variable verbatim however it is written',
         'For every identifier and every value text, -o VALUE, -o=VALUE, -oVALUE, --opt VALUE and --opt=VALUE at any place of the command line '
         'give the variable exactly VALUE. An option without a value (at the end, before "--", or with an empty = form) is too_few_arguments, '
         'and identifiers match whole and case sensitively: longer, abbreviated or differently cased ones are unknown_option.',
         ['inputs'], 'all identifiers and all value texts',
         'Tests use a few literal values; values with =, dashes, spaces, or equal to identifiers matter.',
         [I + 'detail/format_parse.hpp'], [('option reading', I + 'detail/format_parse.hpp parse_option_values, identify_and_retrieve_option_value')]),
    prop('C06', 'A value is accepted exactly when all of its text is one of its type',
         'For every supported type (integers, floating point, bool, strings, paths, named enumerations, streamable types, and lists of them), as option, '
         'positional option or list element, a text is accepted exactly when the whole text is a representable value of the type '
         '(bool: 0, 1, true, false; enumerations: exactly one of the names), and the variable then holds that value. '
         'Every other text ends in a user_input_error.',
         ['inputs'], 'all value texts, per instantiated value type',
         'Tests try some invalid texts per type; partial matches, overflow and white space are infinite families.',
         [I + 'detail/format_parse.hpp', I + 'detail/type_name_as_string.hpp', I + 'enumeration_names.hpp', I + 'concept.hpp'],
         [('conversion', I + 'detail/format_parse.hpp parse_option_value overloads')]),
    prop('C07', 'Success means every argument was understood, and readable lines succeed',
         'Parsing succeeds only if the command line can be split into given options with their values, flags, the end-of-options marker and '
         'positional values with nothing left over, and the variables then hold exactly these values. '
         'Nothing is dropped or used twice; a command line with such a reading is accepted and any other is a user_input_error.',
         ['inputs'], 'all command lines of up to three arbitrary arguments (thorough: four)',
         'Tests check known lines; leftovers arise from interactions of arguments.',
         [I + 'detail/format_parse.hpp'], [('command line parser', I + 'detail/format_parse.hpp parse')]),
    prop('C08', 'Everything behind the end-of-options marker is positional',
         'Arguments behind the first "--" that is not an option value are given to the positional options verbatim and in order, whatever they '
         'look like (option identifiers, built-in requests, unknown options, a second "--"). The marker itself is never a '
         'value, and no option, flag, built-in request or unknown-option error depends on what is behind it.',
         ['inputs'], 'all strings behind the marker',
         'Tests put one or two words behind --.',
         [I + 'detail/format_parse.hpp', I + 'parser.hpp'], [('marker handling', I + 'detail/format_parse.hpp parse'), ('built-in scan', I + 'parser.hpp')]),
    prop('C09', 'Variables change only when given: defaults, flags and lists',
         'The variable of an option that is not on the command line keeps exactly its previous content. A flag is true after parsing exactly when it was given, alone '
         'or in a bundle of short flags, and a bundle with an unknown or repeated letter is rejected. A list that is given holds exactly the given values in order, '
         'the default content being replaced.',
         ['inputs'], 'all previous contents and all values',
         'Tests use fixed defaults and orders.',
         [I + 'detail/format_parse.hpp'], [('flags', I + 'detail/format_parse.hpp get_flag'), ('lists', I + 'detail/format_parse.hpp get_option_by_id')]),
    prop('C10', 'Required options must be given, single options at most once',
         'A required option or positional option without a value on the command line in front of "--" (positional: anywhere) is an error, never success. '
         'A single-valued option given twice, with the same or with both identifiers and in any spelling, is option_declared_multiple_times, while list options may be repeated.',
         ['inputs'], 'all values and all combinations of two spellings; the converse for any number of arguments',
         'Tests cover one combination each.',
         [I + 'detail/format_parse.hpp'], [('required and repeated options', I + 'detail/format_parse.hpp get_option')]),
    prop('C11', 'Success implies that every given value passed its validator',
         'When parsing succeeds, the validator of every option that was given and of every positional option ran once the variable had its final value, on exactly that value. '
         'A validator that throws makes parsing fail with validation_error at once. '
         'Options that were not given are not validated.',
         ['inputs', 'programs'], 'any number of arguments, any identifiers, any validator',
         'Tests check that some validators reject; ordering and completeness over all paths is not observable by samples.',
         [I + 'detail/format_parse.hpp', I + 'parser.hpp'], [('validation', I + 'detail/format_parse.hpp parse')]),
    prop('C12', 'Positional values are assigned in order and never shifted',
         'Positional values go to the positional options in the order of the command line, wherever options, flags and the marker stand in between, and only a list in the last place takes more than one. '
         'Too few values are too_few_arguments and surplus values are too_many_arguments.',
         ['inputs'], 'all value texts, all interleavings of an option and a flag with three positional values',
         'Interleavings and equal values multiply.',
         [I + 'detail/format_parse.hpp'], [('positional options', I + 'detail/format_parse.hpp get_positional_option')]),
    prop('C13', 'Bad user input is only ever reported as a documented user error',
         'For every command line a parser that was set up correctly either succeeds, ends the program for a built-in request, or throws one of the documented '
         'user_input_error classes. No other exception of the library or of the standard library leaves parse().',
         ['inputs'], 'any number of arguments, identifiers and values, all instantiated value types',
         'An escaping foreign exception needs an input nobody thought of.',
         [I + 'exceptions.hpp', I + 'parser.hpp', I + 'detail/format_parse.hpp'], [('error classes', I + 'exceptions.hpp')]),
    prop('C14', 'The update server is contacted only with consent',
         'No request is made when the developer disabled update notifications, SHARG_NO_VERSION_CHECK is set, no writable cookie directory exists, the user '
         'passed --version-check false, the cookie is younger than a day, or the cookie says NEVER; it is made when nothing forbids it and the user passed '
         '--version-check true, the cookie says ALWAYS or the prompt is answered with y or a. '
         'The prompt appears only on a terminal, its answer is recorded exactly as given (a: ALWAYS, n: NEVER, else ASK), and no cookie is written when the developer, '
         'the environment or the command line decided. parse() takes this decision once, only for the top-level parser, after the names were checked.',
         ['inputs', 'histories'], 'all combinations of developer setting, environment, command line, cookie content, terminal and answer',
         'The unit tests set up a few cookies; the terminal branches are excluded from coverage altogether.',
         [I + 'detail/version_check.hpp', I + 'parser.hpp'], [('decide_if_check_is_performed', I + 'detail/version_check.hpp'), ('parse', I + 'parser.hpp')]),
    prop('C15', 'Update notices appear exactly when an update exists',
         'The version check prints, on the error stream, exactly the notices whose condition holds for the stored answer: a release build tells the user about a newer application '
         'version (with the address, if one was configured); a debug build tells the developer that the app is unregistered, that a newer Sharg exists, or that the registered '
         'version is older. A missing, partial or malformed answer file is ignored silently. The result of the check is delivered exactly once on every path, and a request is made exactly if a '
         'download program was found, with that program.',
         ['inputs', 'environments'], 'all application versions, all two-line answers, all combinations of available programs, release and debug builds',
         'The tests compare a few version numbers in one build mode on a machine with one set of programs.',
         [I + 'detail/version_check.hpp'], [('version_checker::operator()', I + 'detail/version_check.hpp')]),
    prop('C16', 'No outside text is ever interpreted by the shell',
         'Every command the library gives to the shell consists of constant text and of text the shell takes literally: whatever characters the directory of the answer file has, '
         'whatever the version string is, and for every application name parse() lets pass. '
         'The answer is stored in exactly the file that is read by the next check, the address names the application and its version over https, '
         'and the command prints nothing. A version check is never started for a name with other characters than letters, digits, "_" and "-".',
         ['inputs', 'environments'], 'output directories with up to three arbitrary characters in any position, all names of up to three characters, all version strings',
         'A shell metacharacter in a home directory or name is not in any test; testing it means executing it.',
         [I + 'detail/version_check.hpp', I + 'parser.hpp'], [('command assembly', I + 'detail/version_check.hpp version_checker::operator()'), ('app_name_regex', I + 'parser.hpp')]),
    prop('C17', 'A background request never touches the parser and never blocks the program',
         'The thread that asks for updates owns copies of everything it uses and is detached, so it stays valid when the parser and the calling function are gone, and does nothing but run the request and deliver the result. '
         'Neither parse() nor the check waits for it; the future the parser keeps belongs to the promise it hands over, and the destructor waits only if a request was made, for at most three seconds.',
         ['schedules'], 'all interleavings of the request with the rest of the program, all paths of the check',
         'A dangling reference or an unbounded wait needs a slow server and an unlucky schedule.',
         [I + 'detail/version_check.hpp', I + 'parser.hpp'], [('thread start', I + 'detail/version_check.hpp version_checker::operator()'), ('destructor', I + 'parser.hpp ~parser')]),
    prop('C18', 'Checking a path never damages or leaves anything in the file system',
         'Input validators change nothing. Output validators, and the search for the cookie directory, only ever create, truncate or remove entries that did not exist before '
         '(except the one regular file the program allowed to be overwritten), touch no other entry than the given path or a probe inside the given directory, '
         'remove every probe again on every path (also when a check fails or a system call throws), and do not touch an output file they reject. No other place in the library changes files.',
         ['inputs', 'environments', 'faults'], 'every answer of every file system query, every failing call, all open modes, release and debug builds',
         'The loss needs an unusual directory content or a failing system call at one place; a test sees a few of them and cannot show that nothing else is touched.',
         [I + 'validators.hpp', I + 'detail/version_check.hpp', I + 'detail/safe_filesystem_entry.hpp'], [('file validators', I + 'validators.hpp'), ('get_path', I + 'detail/version_check.hpp')]),
    prop('C19', 'File and directory validators accept exactly the documented paths',
         'An input file is accepted exactly if it exists, is a regular file, can be opened for reading and has one of the extensions; an output file if it is no directory, does not exist '
         '(unless overwriting is allowed), can be written and has one of the extensions; an input directory if it exists and can be listed; an output directory if it exists or can be created and '
         'can be written to. An extension is compared without regard to case, as a whole, with the end of the file name behind a leading dot; without extensions every name is accepted. '
         'A list is accepted exactly if every element is. Anything else ends in validation_error, also when a system call fails.',
         ['inputs', 'environments', 'faults'], 'every answer of every query and every failing call; all file names of up to five (thorough: six) characters against several lists of extensions; lists of up to three paths',
         'The tests check a few files as an ordinary user; unreadable entries, special files, failing calls and unusual names are combinations they do not reach.',
         [I + 'validators.hpp'], [('file validators', I + 'validators.hpp'), ('validate_filename', I + 'validators.hpp')]),
    prop('C20', 'Value validators accept exactly the documented values',
         'arithmetic_range_validator accepts exactly the numbers from the minimum to the maximum (both included, "not a number" never), value_list_validator exactly the listed values, '
         'regex_validator exactly the texts that match the pattern as a whole; neither a conversion nor a different number type changes the verdict. A list is accepted exactly if every element is, '
         'and a chain made with operator| exactly what all its members accept, each of which sees the value itself. Everything else is reported as validation_error (or the error of the custom member of a chain).',
         ['inputs'], 'all orders of value and settings for int, unsigned, 8/16/64 bit and floating point values and settings; lists of up to two (thorough: three) elements, all chains of up to three unknown validators',
         'Boundaries, mixed number types, not-a-number and positions in lists multiply; a test tries a handful.',
         [I + 'validators.hpp'], [('value validators', I + 'validators.hpp')]),
    prop('C21', 'Hidden and advanced entries appear exactly where they should',
         'On every page (short and advanced help, exported html and man page) an option, flag, positional option, section, subsection, line or list item appears exactly if it is not hidden '
         'and, if it is advanced, the page is not the short help. Nothing else depends on these settings, and a required option is never left out unless it is hidden.',
         ['inputs'], 'all combinations of the visibility settings of one element of every kind, every kind of page',
         'The settings of several elements and the kinds of pages multiply; the tests compare a few whole pages.',
         [I + 'detail/format_base.hpp', I + 'detail/format_help.hpp', I + 'detail/format_html.hpp', I + 'detail/format_man.hpp', I + 'parser.hpp'],
         [('visibility', I + 'detail/format_base.hpp format_help_base')]),
    prop('C22', 'Every help page is complete, in order and free of duplicates',
         'A page lists every visible option, flag, positional option and documentation element exactly once, in the order they were added, with its identifiers, the name of its type, its description, '
         'its default value (or the configured default message, and none for required options) and the message of its validator; positional options come first as ARGUMENT-n. Synopsis, description, subcommands, the built-in options, examples, '
         'version, date, address and legal information appear exactly if they were given. The version, copyright and short pages show what they are for.',
         ['inputs'], 'all combinations of given and missing texts and of settings of options, flags and positional options of the instantiated types; sequences of elements; parsers with and without subcommands',
         'A missing or duplicated entry shows only for a combination of settings that no test page has.',
         [I + 'detail/format_base.hpp', I + 'detail/format_help.hpp', I + 'detail/format_html.hpp', I + 'detail/format_man.hpp', I + 'detail/format_tdl.hpp', I + 'parser.hpp'],
         [('format_help_base::parse', I + 'detail/format_base.hpp'), ('print_header, print_footer', I + 'detail/format_help.hpp')]),
    prop('C23', 'The exported HTML page shows every text as written and is well formed',
         'Whatever the texts, names and messages contain, every tag of the exported page is closed in the right order and at a place where it may stand, no character of a text is taken for markup, '
         'and a reader sees exactly the text with its formatting codes (\\fB, \\fI, \\fP, \\-) applied. No text is read past its end.',
         ['inputs'], 'texts of up to two (thorough: three) arbitrary characters and texts with several formatting codes at every place where a text can go; all sequences of up to three (thorough: five) elements',
         'The broken page needs a markup character or an unfinished code at one particular place, or an unusual order of elements.',
         [I + 'detail/format_html.hpp', I + 'detail/format_base.hpp'], [('to_html', I + 'detail/format_html.hpp'), ('escape_special_xml_chars', I + 'detail/format_base.hpp')]),
    prop('C24', 'The help page on the terminal shows every text as written',
         'The words on the help page are the words of the texts with their formatting codes applied, none is lost, joined or repeated, whatever characters they contain and however the lines are broken; '
         'a line is not wider than the screen unless it is a single word. Escape sequences are written only to a terminal. '
         'Every element starts on a line of its own, also after an element without a text. No text is read past its end.',
         ['inputs', 'environments'], 'texts of up to two (thorough: three) arbitrary characters and longer texts with formatting codes at every place where a text can go, with and without terminal, screens of many widths; all sequences of up to two (thorough: four) elements',
         'The tests compare pages with ordinary texts, never on a terminal and always with one width.',
         [I + 'detail/format_help.hpp'], [('to_text, print_text', I + 'detail/format_help.hpp')]),
    prop('C25', 'The exported man page shows every text as written',
         'Whatever the texts and messages contain, no character of them is taken for a roff request, an escape sequence or the end of an argument, nothing of them is lost, and the requests on the exported page '
         '(and with them its sections, paragraphs and list entries) do not depend on the texts; a reader sees exactly the text with its formatting codes (\\fB, \\fI, \\fP, \\-) applied. No text is read past its end.',
         ['inputs'], 'texts of up to two (thorough: three) arbitrary characters and texts with several formatting codes at every place where a text can go; all sequences of up to three (thorough: five) elements',
         'The broken page needs a backslash, a quote or a leading period at one particular place.',
         [I + 'detail/format_man.hpp', I + 'detail/format_base.hpp'], [('print_line, print_list_item, to_roff', I + 'detail/format_man.hpp')]),
]
NOT_APPLICABLE = []
