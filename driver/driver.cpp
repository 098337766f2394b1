// Translation unit the analyses look at: it instantiates the public interface for a representative set of types.
// It is only ever parsed, never compiled to code or run.
#include <cstdint>
#include <filesystem>
#include <list>
#include <string>
#include <unordered_map>
#include <vector>

#include <sharg/all.hpp>

namespace drv
{

enum class plain
{
    one,
    two
};

auto enumeration_names(plain)
{
    return std::unordered_map<std::string_view, plain>{{"one", plain::one}, {"two", plain::two}};
}

struct streamed
{
    int v{};
    bool operator==(streamed const &) const = default;
    friend std::istream & operator>>(std::istream & s, streamed & x)
    {
        return s >> x.v;
    }
    friend std::ostream & operator<<(std::ostream & s, streamed const & x)
    {
        return s << x.v;
    }
};

// a validator nothing is known about: it may accept, or throw anything derived from std::exception
struct opaque_validator
{
    using option_value_type = std::string;
    void operator()(int32_t const &) const;
    void operator()(std::string const &) const;
    void operator()(std::vector<int32_t> const &) const;
    void operator()(std::vector<std::string> const &) const;
    std::string get_help_page_message() const;
};

template <typename T>
void options(sharg::parser & p, T & value)
{
    p.add_option(value, sharg::config{});
    p.add_positional_option(value, sharg::config{});
}

template <typename T, typename V>
void with_validator(sharg::parser & p, T & value, V const & v)
{
    p.add_option(value, sharg::config<V>{.validator = v});
    p.add_positional_option(value, sharg::config<V>{.validator = v});
}

void drive(sharg::parser & p)
{
    // values
    {
        int8_t a{};
        uint8_t b{};
        int16_t c{};
        uint16_t d{};
        int32_t e{};
        uint32_t f{};
        int64_t g{};
        uint64_t h{};
        float i{};
        double j{};
        bool k{};
        char l{};
        std::string m{};
        std::filesystem::path n{};
        plain o{};
        streamed q{};
        options(p, a), options(p, b), options(p, c), options(p, d), options(p, e), options(p, f), options(p, g);
        options(p, h), options(p, i), options(p, j), options(p, k), options(p, l), options(p, m), options(p, n);
        options(p, o), options(p, q);
        p.add_flag(k, sharg::config{});
    }
    // lists
    {
        std::vector<int32_t> a{};
        std::vector<uint8_t> b{};
        std::vector<double> c{};
        std::vector<bool> d{};
        std::vector<std::string> e{};
        std::vector<std::filesystem::path> f{};
        std::vector<plain> g{};
        std::vector<streamed> h{};
        std::list<int32_t> i{};
        options(p, a), options(p, b), options(p, c), options(p, d), options(p, e), options(p, f), options(p, g);
        options(p, h), options(p, i);
    }
    // validators
    {
        int32_t a{};
        double b{};
        std::string c{};
        std::filesystem::path d{};
        std::vector<int32_t> la{};
        std::vector<double> lb{};
        std::vector<std::string> lc{};
        std::vector<std::filesystem::path> ld{};
        sharg::arithmetic_range_validator va{1, 10};
        sharg::arithmetic_range_validator vb{1.0, 10.0};
        with_validator(p, a, va), with_validator(p, la, va), with_validator(p, b, vb), with_validator(p, lb, vb);
        sharg::value_list_validator wa{std::vector<int32_t>{1, 2}};
        sharg::value_list_validator wc{std::vector<std::string>{"a", "b"}};
        sharg::value_list_validator wd{1, 2, 3};
        sharg::value_list_validator we{"a", "b"};
        with_validator(p, a, wa), with_validator(p, la, wa), with_validator(p, c, wc), with_validator(p, lc, wc);
        with_validator(p, a, wd), with_validator(p, c, we);
        sharg::input_file_validator i1{{"fa"}};
        sharg::output_file_validator i2{sharg::output_file_open_options::create_new, {"fa"}};
        sharg::output_file_validator i2b{sharg::output_file_open_options::open_or_create, "fa", "fb"};
        sharg::output_file_validator i2c{"fa", "fb"};
        sharg::output_file_validator i2d{std::vector<std::string>{"fa"}};
        sharg::input_directory_validator i3{};
        sharg::output_directory_validator i4{};
        with_validator(p, c, i1), with_validator(p, d, i1), with_validator(p, ld, i1), with_validator(p, lc, i1);
        with_validator(p, c, i2), with_validator(p, d, i2), with_validator(p, ld, i2), with_validator(p, lc, i2);
        with_validator(p, d, i3), with_validator(p, ld, i3);
        with_validator(p, d, i4), with_validator(p, ld, i4);
        opaque_validator ov{};
        with_validator(p, a, ov), with_validator(p, la, ov), with_validator(p, c, ov), with_validator(p, lc, ov);
        sharg::regex_validator r{"a.*"};
        with_validator(p, c, r), with_validator(p, lc, r);
        auto ch = r | wc;
        with_validator(p, c, ch), with_validator(p, lc, ch);
        auto ch2 = i1 | r;
        with_validator(p, c, ch2);
        auto ch3 = va | wa | va;
        with_validator(p, a, ch3);
    }
    // the rest of the interface
    p.add_section("");
    p.add_subsection("");
    p.add_line("");
    p.add_list_item("", "");
    p.add_subcommands({});
    p.parse();
    (void)p.get_sub_parser();
    (void)p.is_option_set('a');
    (void)p.is_option_set("ab");
    (void)p.is_option_set(std::string{"ab"});
    sharg::parser q{"app", {"app"}, sharg::update_notifications::on, {}};
    char const * argv[]{"app"};
    sharg::parser r{"app", 1, argv, sharg::update_notifications::on, {}};
    sharg::parser s{std::move(r)};
    s = std::move(q);
}

// ------------------------------------------------------------------------------------------------------------------
// Scenarios: the entry points of the path analyses. Every parameter is unconstrained.
// ------------------------------------------------------------------------------------------------------------------
using strings = std::vector<std::string>;
using fmt = sharg::detail::format_parse;
using meta = sharg::parser_meta_data;

template <typename T, typename V>
void sc_option(strings const & args, T & value, sharg::config<V> const & cfg, meta const & m)
{
    fmt f{args};
    f.add_option(value, cfg);
    f.parse(m);
}

template <typename T, typename V>
void sc_positional(strings const & args, T & value, sharg::config<V> const & cfg, meta const & m)
{
    fmt f{args};
    f.add_positional_option(value, cfg);
    f.parse(m);
}

template <typename T, typename V>
void sc_positional2(strings const & args, std::string & first, T & value, sharg::config<V> const & cfg, meta const & m)
{
    fmt f{args};
    f.add_positional_option(first, sharg::config<V>{});
    f.add_positional_option(value, cfg);
    f.parse(m);
}

template <typename V>
void sc_flag(strings const & args, bool & value, sharg::config<V> const & cfg, meta const & m)
{
    fmt f{args};
    f.add_flag(value, cfg);
    f.parse(m);
}

template <typename T, typename V>
void sc_all(strings const & args, T & value, bool & flag, std::string & pos, sharg::config<V> const & c1, sharg::config<V> const & c2, sharg::config<V> const & c3, meta const & m)
{
    fmt f{args};
    f.add_positional_option(pos, c3);
    f.add_flag(flag, c2);
    f.add_option(value, c1);
    f.parse(m);
}

void sc_none(strings const & args, meta const & m)
{
    fmt f{args};
    f.parse(m);
}

// the version check once it was decided: asks the server and reports what an earlier answer said
inline void sc_version(std::string const & name, std::string const & version, std::string const & url, std::promise<bool> & answer)
{
    sharg::detail::version_checker v{name, version, url};
    v(std::move(answer));
}

// the parser outlives the call, its destructor is not part of it
inline void sc_parse_only(std::string const & name, strings const & args)
{
    auto * p = new sharg::parser{name, args, sharg::update_notifications::on};
    p->parse();
}

inline void sc_parse(std::string const & name, strings const & args, sharg::update_notifications const un, strings const & subs)
{
    sharg::parser p{name, args, un, subs};
    p.parse();
}

template <typename V>
void sc_parse_opts(std::string const & name, strings const & args, sharg::update_notifications const un, int32_t & value, bool & flag, sharg::config<V> const & c1, sharg::config<V> const & c2)
{
    sharg::parser p{name, args, un};
    p.add_option(value, c1);
    p.add_flag(flag, c2);
    p.parse();
}

// a help page: documentation and arguments of every kind, in this order
template <typename T, typename P, typename V>
void sc_page(strings const & args, sharg::update_notifications const un, meta const & info, T & value, bool & flag, P & pos,
             sharg::config<V> const & c1, sharg::config<V> const & c2, sharg::config<V> const & c3,
             std::string const & t1, std::string const & t2, std::string const & t3, std::string const & t4, std::string const & t5,
             bool const a1, bool const a2, bool const a3, bool const a4, bool const para)
{
    auto & p = *new sharg::parser{"app", args, un};
    p.info = info;
    p.add_option(value, c1);
    p.add_section(t1, a1);
    p.add_flag(flag, c2);
    p.add_subsection(t2, a2);
    p.add_line(t3, para, a3);
    p.add_positional_option(pos, c3);
    p.add_list_item(t4, t5, a4);
    p.parse();
}

// ... with any sequence of documentation elements
inline void sc_elements(strings const & args, std::vector<int> const & kinds, meta const & info, std::string const & text)
{
    auto & p = *new sharg::parser{"app", args, sharg::update_notifications::off};
    p.info = info;
    for (int const k : kinds)
    {
        if (k == 0)
            p.add_section(text);
        else if (k == 1)
            p.add_subsection(text);
        else if (k == 2)
            p.add_line(text, true);
        else if (k == 3)
            p.add_line(text, false);
        else
            p.add_list_item(text, text);
    }
    p.parse();
}

// ... with subcommands and nothing else
inline void sc_page_subcommands(strings const & args, strings const & subs, meta const & info)
{
    auto & p = *new sharg::parser{"app", args, sharg::update_notifications::off, subs};
    p.info = info;
    p.parse();
}

// ... with two positional options and two options
template <typename T, typename V>
void sc_page_two(strings const & args, meta const & info, std::string & pos1, T & pos2, std::string & value1, T & value2,
                 sharg::config<V> const & c1, sharg::config<V> const & c2, sharg::config<V> const & c3, sharg::config<V> const & c4)
{
    auto & p = *new sharg::parser{"app", args, sharg::update_notifications::off};
    p.info = info;
    p.add_option(value1, c3);
    p.add_positional_option(pos1, c1);
    p.add_option(value2, c4);
    p.add_positional_option(pos2, c2);
    p.parse();
}

// the public interface: one option / one positional option / everything
template <typename T, typename V>
void sc_user_option(strings const & args, T & value, sharg::config<V> const & c)
{
    sharg::parser p{"app", args, sharg::update_notifications::off};
    p.add_option(value, c);
    p.parse();
}

template <typename T, typename V>
void sc_user_positional(strings const & args, T & value, sharg::config<V> const & c)
{
    sharg::parser p{"app", args, sharg::update_notifications::off};
    p.add_positional_option(value, c);
    p.parse();
}

template <typename T, typename V>
void sc_user_two_positionals(strings const & args, std::string & first, T & value, sharg::config<V> const & c)
{
    sharg::parser p{"app", args, sharg::update_notifications::off};
    p.add_positional_option(first, c);
    p.add_positional_option(value, c);
    p.parse();
}

template <typename V>
void sc_user_three_positionals(strings const & args, std::string & first, std::string & second, std::string & third, sharg::config<V> const & c)
{
    sharg::parser p{"app", args, sharg::update_notifications::off};
    p.add_positional_option(first, c);
    p.add_positional_option(second, c);
    p.add_positional_option(third, c);
    p.parse();
}

template <typename T, typename U, typename V>
void sc_user_two_options(strings const & args, T & value, U & value2, sharg::config<V> const & c, sharg::config<V> const & c2)
{
    sharg::parser p{"app", args, sharg::update_notifications::off};
    p.add_option(value, c);
    p.add_option(value2, c2);
    p.parse();
}

template <typename V>
void sc_user_flags(strings const & args, bool & f1, bool & f2, std::string & pos, sharg::config<V> const & c1, sharg::config<V> const & c2, sharg::config<V> const & c)
{
    sharg::parser p{"app", args, sharg::update_notifications::off};
    p.add_flag(f1, c1);
    p.add_flag(f2, c2);
    p.add_positional_option(pos, c);
    p.parse();
}

template <typename T, typename P, typename V>
void sc_user_all(strings const & args, T & value, bool & flag, P & pos, sharg::config<V> const & c1, sharg::config<V> const & c2, sharg::config<V> const & c3)
{
    sharg::parser p{"app", args, sharg::update_notifications::off};
    p.add_positional_option(pos, c3);
    p.add_flag(flag, c2);
    p.add_option(value, c1);
    p.parse();
}

// lifecycle: parse() in the middle, returning or failing, then something that is only allowed before (or after) it
void mark(int);

struct lifecycle
{
    using list = std::vector<std::string>;
    template <typename F>
    static void after(list const & args, list const & subs, F f)
    {
        sharg::parser p{"app", args, sharg::update_notifications::off, subs};
        try
        {
            p.parse();
        }
        catch (std::exception const &)
        {}
        mark(1);
        f(p);
        mark(2);
    }
    template <typename F>
    static void after_ok(list const & args, list const & subs, F f)
    {
        sharg::parser p{"app", args, sharg::update_notifications::off, subs};
        p.parse();
        mark(1);
        f(p);
        mark(2);
    }
    template <typename F>
    static void before(list const & args, list const & subs, F f)
    {
        sharg::parser p{"app", args, sharg::update_notifications::off, subs};
        mark(1);
        f(p);
        mark(2);
    }
    static void parse_again(list const & args, list const & subs) { after(args, subs, [](auto & p) { p.parse(); }); }
    static void option_after(list const & args, list const & subs, std::string & v, sharg::config<> const & c) { after(args, subs, [&](auto & p) { p.add_option(v, c); }); }
    static void flag_after(list const & args, list const & subs, bool & v, sharg::config<> const & c) { after(args, subs, [&](auto & p) { p.add_flag(v, c); }); }
    static void positional_after(list const & args, list const & subs, std::string & v, sharg::config<> const & c) { after(args, subs, [&](auto & p) { p.add_positional_option(v, c); }); }
    static void section_after(list const & args, list const & subs, std::string const & t, bool const b) { after(args, subs, [&](auto & p) { p.add_section(t, b); }); }
    static void subsection_after(list const & args, list const & subs, std::string const & t, bool const b) { after(args, subs, [&](auto & p) { p.add_subsection(t, b); }); }
    static void line_after(list const & args, list const & subs, std::string const & t, bool const a, bool const b) { after(args, subs, [&](auto & p) { p.add_line(t, a, b); }); }
    static void item_after(list const & args, list const & subs, std::string const & t, std::string const & u, bool const b) { after(args, subs, [&](auto & p) { p.add_list_item(t, u, b); }); }
    static void subcommands_after(list const & args, list const & subs, list const & more) { after(args, subs, [&](auto & p) { p.add_subcommands(more); }); }
    static void is_set_before_char(list const & args, list const & subs, char const c) { before(args, subs, [&](auto & p) { (void)p.is_option_set(c); }); }
    static void is_set_before_string(list const & args, list const & subs, std::string const & c) { before(args, subs, [&](auto & p) { (void)p.is_option_set(c); }); }
    static void sub_parser_before(list const & args, list const & subs) { before(args, subs, [&](auto & p) { (void)p.get_sub_parser(); }); }
    static void sub_parser_after(list const & args, list const & subs) { after_ok(args, subs, [&](auto & p) { (void)p.get_sub_parser(); }); }
    static void is_set_unknown_char(list const & args, list const & subs, char const c) { after_ok(args, subs, [&](auto & p) { (void)p.is_option_set(c); }); }
    static void is_set_unknown_string(list const & args, list const & subs, std::string const & c) { after_ok(args, subs, [&](auto & p) { (void)p.is_option_set(c); }); }
    static void everything_before(list const & args, list const & subs, std::string const & t, std::string const & u, bool const a, bool const b)
    {
        before(args, subs, [&](auto & p) { p.add_section(t, b); p.add_subsection(t, b); p.add_line(t, a, b); p.add_list_item(t, u, b); p.add_subcommands(args); });
    }
};

// moved parsers
inline void mv_construct(strings const & args, std::string & value, bool & flag, sharg::config<> const & c, sharg::config<> const & c2)
{
    sharg::parser q{"app", args, sharg::update_notifications::off};
    q.add_option(value, c);
    q.add_flag(flag, c2);
    sharg::parser p{std::move(q)};
    p.parse();
}

inline void mv_assign(strings const & args, strings const & other, std::string & value, bool & flag, sharg::config<> const & c, sharg::config<> const & c2)
{
    sharg::parser p{"other", other, sharg::update_notifications::off};
    sharg::parser q{"app", args, sharg::update_notifications::off};
    q.add_option(value, c);
    q.add_flag(flag, c2);
    p = std::move(q);
    p.parse();
}

// identifiers and configurations
struct registry
{
    static void option(std::string & a, sharg::config<> const & c) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off}; p.add_option(a, c); }
    static void flag(bool & a, sharg::config<> const & c) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off}; p.add_flag(a, c); }
    static void positional(std::string & a, sharg::config<> const & c) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off}; p.add_positional_option(a, c); }
    static void option_option(std::string & a, std::string & b, sharg::config<> const & c, sharg::config<> const & d) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off}; p.add_option(a, c); mark(1); p.add_option(b, d); }
    static void option_flag(std::string & a, bool & b, sharg::config<> const & c, sharg::config<> const & d) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off}; p.add_option(a, c); mark(1); p.add_flag(b, d); }
    static void flag_option(bool & a, std::string & b, sharg::config<> const & c, sharg::config<> const & d) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off}; p.add_flag(a, c); mark(1); p.add_option(b, d); }
    static void flag_flag(bool & a, bool & b, sharg::config<> const & c, sharg::config<> const & d) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off}; p.add_flag(a, c); mark(1); p.add_flag(b, d); }
    static void list_then_positional(std::vector<std::string> & a, std::string & b, sharg::config<> const & c, sharg::config<> const & d) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off}; p.add_positional_option(a, c); mark(1); p.add_positional_option(b, d); }
    static void list_option_then_positional(std::vector<std::string> & a, std::string & b, sharg::config<> const & c, sharg::config<> const & d) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off}; p.add_option(a, c); mark(1); p.add_positional_option(b, d); }
    static void list_then_list(std::vector<std::string> & a, std::vector<int32_t> & b, sharg::config<> const & c, sharg::config<> const & d) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off}; p.add_positional_option(a, c); mark(1); p.add_positional_option(b, d); }
    static void positional_then_list(std::string & a, std::vector<std::string> & b, sharg::config<> const & c, sharg::config<> const & d) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off}; p.add_positional_option(a, c); mark(1); p.add_positional_option(b, d); }
    static void string_then_positional(std::string & a, std::string & b, sharg::config<> const & c, sharg::config<> const & d) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off}; p.add_positional_option(a, c); mark(1); p.add_positional_option(b, d); }
    static void positional_with_subcommands(std::string & a, strings const & subs, sharg::config<> const & c) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off, subs}; mark(1); p.add_positional_option(a, c); }
    static void positional_with_added_subcommands(std::string & a, strings const & subs, sharg::config<> const & c) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off}; p.add_subcommands(subs); mark(1); p.add_positional_option(a, c); }
    static void option_with_subcommands(std::string & a, bool & b, strings const & subs, sharg::config<> const & c, sharg::config<> const & d) { sharg::parser p{"app", strings{"app"}, sharg::update_notifications::off, subs}; mark(1); p.add_option(a, c); p.add_flag(b, d); }
};

template <typename T, typename V>
void user(strings const & args, T & value)
{
    sharg::config<V> c{};
    std::string s{};
    sc_user_option(args, value, c);
    sc_user_positional(args, value, c);
    sc_user_two_positionals(args, s, value, c);
}

template <typename T>
void scenario(strings const & args, T & value, meta const & m)
{
    user<T, sharg::detail::default_validator>(args, value);
    sc_option(args, value, sharg::config<>{}, m);
    sc_positional(args, value, sharg::config<>{}, m);
    std::string first{};
    sc_positional2(args, first, value, sharg::config<>{}, m);
}

template <typename T>
void scenario_v(strings const & args, T & value, meta const & m)
{
    user<T, opaque_validator>(args, value);
    sc_option(args, value, sharg::config<opaque_validator>{}, m);
    sc_positional(args, value, sharg::config<opaque_validator>{}, m);
}

void scenarios(strings const & args, meta const & m)
{
    {
        int8_t a{};
        uint8_t b{};
        int16_t c{};
        uint16_t d{};
        int32_t e{};
        uint32_t f{};
        int64_t g{};
        uint64_t h{};
        float i{};
        double j{};
        bool k{};
        char l{};
        std::string n{};
        std::filesystem::path o{};
        plain q{};
        streamed r{};
        scenario(args, a, m), scenario(args, b, m), scenario(args, c, m), scenario(args, d, m), scenario(args, e, m);
        scenario(args, f, m), scenario(args, g, m), scenario(args, h, m), scenario(args, i, m), scenario(args, j, m);
        scenario(args, k, m), scenario(args, l, m), scenario(args, n, m), scenario(args, o, m), scenario(args, q, m);
        scenario(args, r, m);
        scenario_v(args, e, m), scenario_v(args, n, m);
        sc_flag(args, k, sharg::config<>{}, m);
        sc_all(args, e, k, n, sharg::config<>{}, sharg::config<>{}, sharg::config<>{}, m);
        sc_none(args, m);
        std::promise<bool> pr{};
        sc_version(n, n, n, pr);
        sc_parse(n, args, sharg::update_notifications::on, args);
        sc_parse_only(n, args);
        strings li{};
        sc_page<int32_t, std::string>(args, sharg::update_notifications::on, m, e, k, n, sharg::config<opaque_validator>{}, sharg::config<opaque_validator>{}, sharg::config<opaque_validator>{}, n, n, n, n, n, k, k, k, k, k);
        sc_page<std::string, std::string>(args, sharg::update_notifications::on, m, n, k, n, sharg::config<opaque_validator>{}, sharg::config<opaque_validator>{}, sharg::config<opaque_validator>{}, n, n, n, n, n, k, k, k, k, k);
        sc_page<std::vector<std::string>, std::vector<std::string>>(args, sharg::update_notifications::on, m, li, k, li, sharg::config<opaque_validator>{}, sharg::config<opaque_validator>{}, sharg::config<opaque_validator>{}, n, n, n, n, n, k, k, k, k, k);
        sc_page_subcommands(args, args, m);
        sc_page_two(args, m, n, e, n, e, sharg::config<>{}, sharg::config<>{}, sharg::config<>{}, sharg::config<>{});
        sc_parse_opts(n, args, sharg::update_notifications::on, e, k, sharg::config<>{}, sharg::config<>{});
    }
    {
        std::vector<int32_t> a{};
        std::vector<uint8_t> b{};
        std::vector<double> c{};
        std::vector<bool> d{};
        std::vector<std::string> e{};
        std::vector<std::filesystem::path> f{};
        std::vector<plain> g{};
        std::vector<streamed> h{};
        std::list<int32_t> i{};
        scenario(args, a, m), scenario(args, b, m), scenario(args, c, m), scenario(args, d, m), scenario(args, e, m);
        scenario(args, f, m), scenario(args, g, m), scenario(args, h, m), scenario(args, i, m);
        scenario_v(args, a, m), scenario_v(args, e, m);
        std::string s{};
        bool x{};
        sharg::config<> k{};
        sc_user_two_options(args, s, s, k, k), sc_user_two_options(args, e, s, k, k), sc_user_two_options(args, e, e, k, k);
        sc_user_flags(args, x, x, s, k, k, k);
        sc_user_all(args, s, x, s, k, k, k), sc_user_all(args, e, x, s, k, k, k), sc_user_all(args, s, x, e, k, k, k), sc_user_all(args, e, x, e, k, k, k);
        sc_user_three_positionals(args, s, s, s, k);
    }
}

// ---------------------------------------------------------------- validators on their own
using sharg::operator|;

struct opaque_a
{
    using option_value_type = std::string;
    void operator()(std::string const &) const;
    void operator()(std::vector<std::string> const &) const;
    std::string get_help_page_message() const;
};
struct opaque_b
{
    using option_value_type = std::string;
    void operator()(std::string const &) const;
    void operator()(std::vector<std::string> const &) const;
    std::string get_help_page_message() const;
};
struct opaque_c
{
    using option_value_type = std::string;
    void operator()(std::string const &) const;
    void operator()(std::vector<std::string> const &) const;
    std::string get_help_page_message() const;
};

template <typename B, typename V>
void v_range(B lo, B hi, V const & v)
{
    sharg::arithmetic_range_validator r{lo, hi};
    r(v);
}

template <typename B, typename V>
void v_values(B const & values, V const & v)
{
    sharg::value_list_validator r{values};
    r(v);
}

template <typename B, typename V>
void v_pack(B const & a, B const & b, B const & c, V const & v)
{
    sharg::value_list_validator r{a, b, c};
    r(v);
}

template <typename V>
void v_regex(std::string const & pattern, V const & v)
{
    sharg::regex_validator r{pattern};
    r(v);
}

template <typename V>
void v_chain2(V const & v)
{
    auto r = opaque_a{} | opaque_b{};
    r(v);
}

template <typename V>
void v_chain3(V const & v)
{
    opaque_a a{};
    opaque_b b{};
    opaque_c c{};
    auto r = a | b | c;
    r(v);
}

template <typename V>
void v_chain3_right(V const & v)
{
    opaque_a a{};
    auto b = opaque_b{} | opaque_c{};
    auto r = a | b;
    auto copy = r;
    copy(v);
}

template <typename V>
void v_none(V const & v)
{
    sharg::detail::default_validator r{};
    r(v);
}

inline std::string m_range(int lo, int hi)
{
    return sharg::arithmetic_range_validator{lo, hi}.get_help_page_message();
}
inline std::string m_values(std::vector<std::string> const & values)
{
    return sharg::value_list_validator{values}.get_help_page_message();
}
inline std::string m_regex(std::string const & pattern)
{
    return sharg::regex_validator{pattern}.get_help_page_message();
}
inline std::string m_chain()
{
    return (opaque_a{} | opaque_b{} | opaque_c{}).get_help_page_message();
}
inline std::string m_input(std::vector<std::string> const & extensions)
{
    return sharg::input_file_validator{extensions}.get_help_page_message();
}
inline std::string m_output(std::vector<std::string> const & extensions)
{
    return sharg::output_file_validator{sharg::output_file_open_options::create_new, extensions}.get_help_page_message();
}
inline std::string m_overwrite(std::vector<std::string> const & extensions)
{
    return sharg::output_file_validator{sharg::output_file_open_options::open_or_create, extensions}.get_help_page_message();
}

inline void validators_alone()
{
    v_range(1, 2, 3), v_range(1, 2, 3.0), v_range(1, 2, int64_t{3}), v_range(1, 2, uint64_t{3}), v_range(1, 2, uint8_t{3}), v_range(1, 2, int16_t{3}), v_range(1, 2, uint32_t{3});
    v_range(1.0, 2.0, 3.0), v_range(1.0, 2.0, 3), v_range(1u, 2u, 3), v_range(int64_t{1}, int64_t{2}, 3);
    v_range(1, 2, std::vector<int>{}), v_range(1, 2, std::vector<uint8_t>{}), v_range(1, 2, std::list<int>{}), v_range(1, 2, std::vector<double>{}), v_range(1.0, 2.0, std::vector<double>{});
    v_values(std::vector<int>{}, 1), v_values(std::vector<int>{}, 1.0), v_values(std::vector<int>{}, int64_t{1}), v_values(std::list<int>{}, 1), v_values(std::vector<int>{}, std::vector<int>{});
    std::string s{};
    v_values(std::vector<std::string>{}, s), v_values(std::list<std::string>{}, s), v_values(std::vector<std::string>{}, std::vector<std::string>{});
    v_pack(1, 2, 3, 4), v_pack(s, s, s, s), v_pack(s, s, s, std::vector<std::string>{});
    v_regex(s, s), v_regex(s, std::vector<std::string>{});
    v_chain2(s), v_chain2(std::vector<std::string>{}), v_chain3(s), v_chain3_right(s), v_chain3(std::vector<std::string>{});
    v_none(s), v_none(1), v_none(std::vector<std::string>{});
    m_range(1, 2), m_values({}), m_regex(s), m_chain(), m_input({}), m_output({}), m_overwrite({});
}

} // namespace drv
