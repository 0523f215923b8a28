// C06: arguments are converted all-or-nothing and every failure is reported in order.
#include "interp.h"

// user types: one that needs two sub-values, one that reports its own message
struct Vec2
{
    int x = 0, y = 0;
};
enum class Color { Red, Green };

namespace coil
{
    template<>
    struct TypeSerializer<Vec2>
    {
        static Expected<Vec2, String> fromString(Value const& input)
        {
            if (input.subvalues.size() != 2)
                return errors::createMismatchedSubvaluesError<Vec2>(input, 2);
            auto x = TypeSerializer<int>::fromString(input.subvalues[0]);
            if (!x)
                return makeUnexpected(move(x).error());
            auto y = TypeSerializer<int>::fromString(input.subvalues[1]);
            if (!y)
                return makeUnexpected(move(y).error());
            return Vec2{*x, *y};
        }
        static String toString(Vec2 const& v) { return sprintf("%d:%d", v.x, v.y); }
    };
    template<>
    struct TypeSerializer<Color>
    {
        static Expected<Color, String> fromString(Value const& input)
        {
            if (input.subvalues.size() == 1 && input.subvalues[0] == "red")
                return Color::Red;
            if (input.subvalues.size() == 1 && input.subvalues[0] == "green")
                return Color::Green;
            return errors::createGenericError<Color>(input, "no such color");
        }
        static String toString(Color const& v) { return v == Color::Red ? "red" : "green"; }
    };
}
COIL_CREATE_TYPE_NAME(Vec2, "Vec2");
COIL_CREATE_TYPE_NAME(Color, "Color");

namespace ref
{
    template<>
    struct Type<Vec2>
    {
        static std::string name() { return "Vec2"; }
        static std::string canon(Vec2 const& v) { return std::to_string(v.x) + ":" + std::to_string(v.y); }
        static Conv conv(Subvalues const& s)
        {
            if (s.size() != 2)
                return {false, "", countError(s, name(), 2)};
            Conv x = Type<int>::conv({s[0]}), y = Type<int>::conv({s[1]});
            if (!x.ok)
                return x;
            if (!y.ok)
                return y;
            return {true, x.canon + ":" + y.canon, ""};
        }
    };
    template<>
    struct Type<Color>
    {
        static std::string name() { return "Color"; }
        static std::string canon(Color v) { return v == Color::Red ? "R" : "G"; }
        static Conv conv(Subvalues const& s)
        {
            if (s.size() == 1 && s[0] == "red")
                return {true, "R", ""};
            if (s.size() == 1 && s[0] == "green")
                return {true, "G", ""};
            return {false, "", convError(s, name(), "no such color")};
        }
    };
}

namespace
{
    using S = std::string;
    using Maker = void (*)(coil::Vector<coil::AnyFunctor>&, std::vector<ip::Func>&, std::string);

    Maker const singles[] = {
        &ip::overload<S, false, int>, &ip::overload<S, true, unsigned char>, &ip::overload<S, false, char>, &ip::overload<S, true, signed char>, &ip::overload<S, false, short>,
        &ip::overload<S, true, unsigned short>, &ip::overload<S, false, unsigned>, &ip::overload<S, true, long>, &ip::overload<S, false, unsigned long>, &ip::overload<S, true, long long>,
        &ip::overload<S, false, unsigned long long>, &ip::overload<S, true, float>, &ip::overload<S, false, double>, &ip::overload<S, true, long double>, &ip::overload<S, false, bool>,
        &ip::overload<S, true, coil::String>, &ip::overload<S, false, coil::StringView>, &ip::overload<S, true, std::string>, &ip::overload<S, false, std::string_view>,
        &ip::overload<S, true, coil::Value>, &ip::overload<S, false, std::vector<int>>, &ip::overload<S, true, std::vector<std::string>>, &ip::overload<S, false, std::vector<bool>>,
        &ip::overload<S, true, std::optional<int>>, &ip::overload<S, false, std::optional<std::string>>, &ip::overload<S, true, std::vector<std::optional<unsigned char>>>,
        &ip::overload<S, false, std::optional<std::vector<int>>>, &ip::overload<S, true, Vec2>, &ip::overload<S, false, Color>, &ip::overload<S, true, std::optional<Vec2>>};
    Maker const pairs[] = {
        &ip::overload<S, true, int, int>, &ip::overload<S, false, int, S>, &ip::overload<S, true, int, bool>, &ip::overload<S, false, int, Vec2>,
        &ip::overload<S, true, S, int>, &ip::overload<S, false, S, S>, &ip::overload<S, true, S, bool>, &ip::overload<S, false, S, Vec2>,
        &ip::overload<S, true, bool, int>, &ip::overload<S, false, bool, S>, &ip::overload<S, true, bool, bool>, &ip::overload<S, false, bool, Vec2>,
        &ip::overload<S, true, Vec2, int>, &ip::overload<S, false, Vec2, S>, &ip::overload<S, true, Vec2, bool>, &ip::overload<void, false, Color, std::vector<int>>};
    Maker const triples[] = {&ip::overload<S, true, int, int, int>, &ip::overload<int, false, bool, int, S>, &ip::overload<void, true, std::vector<int>, coil::Value, unsigned char>, &ip::overload<S, false, Color, Vec2, std::optional<int>>,
                             &ip::overload<S, true, coil::StringView, double, int>};

    static ref::Subvalues const values[] = {{"1"}, {"x"}, {"1", "2"}, {}, {"true"}, {""}, {"300"}, {"2", "x"}, {"red"}, {"-1"}, {"99999999999999999999"}, {"1.5"}, {" 7"}, {"1", "2", "3"}, {"FALSE"}, {"0x1"}};

    std::string spell(ref::Subvalues const& v, int style)
    {
        if (v.size() == 1)
            return style ? "('" + v[0] + "')" : "\"" + v[0] + "\"";
        std::string r = "(";
        for (size_t i = 0; i < v.size(); i++)
            r += (i ? style ? ", " : " " : "") + ("'" + v[i] + "'");
        return r + ")";
    }

    // tables are built once: earlier executions must not matter
    ip::Table& tableOf(Maker const* makers, size_t count, int which)
    {
        static ip::Table* tables[4] = {};
        ip::Table*& t = tables[which];
        if (!t)
        {
            t = new ip::Table;
            for (size_t i = 0; i < count; i++)
            {
                std::string name = "f" + std::to_string(i);
                coil::Vector<coil::AnyFunctor> fs;
                makers[i](fs, t->model[name], name);
                t->bindings[cu::view(name)] = std::move(fs);
            }
        }
        return *t;
    }

    void describe(ip::Table& t, std::string const& name)
    {
        auto* c = t.bindings.get(cu::view(name));
        auto& m = t.model[name];
        for (size_t i = 0; i < m.size(); i++)
            for (size_t j = 0; j < m[i].params.size(); j++)
                MC_CHECK(cu::str(c->functors[i].parameterTypes()[j]) == m[i].params[j].name, "%s: parameter %zu is described as %s instead of %s", name.c_str(), j, cu::str(c->functors[i].parameterTypes()[j]).c_str(), m[i].params[j].name.c_str());
    }
}

static void single()
{
    auto& t = tableOf(singles, std::size(singles), 0);
    std::string name = "f" + std::to_string(mc::choose(int(std::size(singles))));
    describe(t, name);
    ref::Subvalues v;
    int n = mc::choose(4);
    static char const* const texts[] = {"1", "x", "", "true", "300", "-1", "70000", "3000000000", "1e400", "1.5", "red", "99999999999999999999", "-129", "255", "0", " 3"};
    for (int i = 0; i < n; i++)
        v.push_back(texts[mc::choose(n < 3 ? 16 : 6)]);
    ip::execute(t, name + " " + spell(v, mc::choose(2)));
}

static void two()
{
    auto& t = tableOf(pairs, std::size(pairs), 1);
    std::string l = "f" + std::to_string(mc::choose(int(std::size(pairs))));
    int style = mc::choose(2);
    for (int i = 0; i < 2; i++)
    {
        l += " " + spell(values[mc::choose(16)], style);
        if (i == 0 && mc::flip())
            l += " named=bad";
    }
    ip::execute(t, l);
}

static void three()
{
    auto& t = tableOf(triples, std::size(triples), 2);
    std::string l = "f" + std::to_string(mc::choose(int(std::size(triples))));
    for (int i = 0; i < 3; i++)
        l += " " + spell(values[mc::choose(mc::asan() && !mc::thorough() ? 10 : 16)], i % 2);
    ip::execute(t, l);
}

// which of many arguments fail: every subset
static void subsets()
{
    static Maker const wide[] = {&ip::overload<S, true, int, int, int, int, int, int, int, int, int, int>, &ip::overload<S, false, int, bool, S, Vec2, Color, std::vector<int>, unsigned char, double, coil::Value, std::optional<int>>,
                                 &ip::overload<S, true, int, int, int, int, int, int, int, int, int, int, int, int>};
    auto& t = tableOf(wide, 3, 3);
    int which = mc::choose(mc::thorough() ? 3 : 2);
    static char const* const good[] = {"1", "true", "x", "(1 2)", "red", "(1,2,3)", "255", "1.5", "(a b)", "''"};
    static char const* const bad[] = {"z", "2", "(x y)", "(1 2 3)", "blue", "(1,q)", "256", "1.5.", "v", "w"};
    std::string l = "f" + std::to_string(which);
    int n = which == 2 ? 12 : 10;
    for (int i = 0; i < n; i++)
    {
        bool ok = mc::flip();
        if (which == 1)
            l += std::string(" ") + (ok ? good[i] : bad[i]);
        else
            l += ok ? " " + std::to_string(i) : " bad" + std::to_string(i);
    }
    ip::execute(t, l);
}

// sequences of calls: a failed conversion leaves nothing behind
static void sequences()
{
    auto& t = tableOf(pairs, std::size(pairs), 1);
    static char const* const lines[] = {"f0 1 2", "f0 x 2", "f0 x y", "f5 a b", "f3 1 (1 2)", "f3 1 (1 2 3)", "f3 x (1 y)", "f0 1", "f0 (1 2) 1", "f15 red (1,2)", "f15 red (1,x)", "f7 'a b' (5 6)"};
    for (int i = 0; i < (mc::thorough() ? 4 : 3); i++)
        ip::execute(t, lines[mc::choose(12)]);
}

static void sizes()
{
    auto& one = tableOf(singles, std::size(singles), 0);
    auto& two = tableOf(pairs, std::size(pairs), 1);
    int kind = mc::choose(8);
    size_t n = chooseLength(mc::thorough() ? 1000 : 270, mc::asan() && !mc::thorough() ? 4200 : 70000);
    switch (kind)
    {
    case 0: ip::execute(two, "f0 " + text(n) + "! 2"); break;
    case 1: ip::execute(two, "f0 '" + spaced(n) + "' (" + text(n) + ")"); break;
    case 2: ip::execute(two, "f0 (" + spaced(n) + ") " + rep("7", n + 1)); break;
    case 3: ip::execute(one, "f20 (" + rep("1 ", n) + ")"); break;
    case 4: ip::execute(one, "f20 (" + rep("1 ", n) + "x)"); break;
    case 5: ip::execute(one, "f21 (" + rep("ab,", n) + ")"); break;
    case 6: ip::execute(one, "f15 '" + spaced(n) + "'"); break;
    default: ip::execute(two, "f15 '" + spaced(n) + "' (" + rep("1,", n) + text(n) + ")"); break;
    }
}

// odd texts at every parameter type
static void oddTexts()
{
    auto& t = tableOf(singles, std::size(singles), 0);
    std::string name = "f" + std::to_string(mc::choose(int(std::size(singles))));
    ref::Subvalues v = {oddWord()};
    if (!quotable(v[0]))
        return;
    if (mc::flip())
        v.push_back(mc::asan() && !mc::thorough() ? v[0] + "1" : oddWord());
    if (v.size() == 2 && !quotable(v[1]))
        return;
    ip::execute(t, name + " " + spell(v, 1));
    if (v.size() == 2)
    {
        auto& p = tableOf(pairs, std::size(pairs), 1);
        for (char const* f : {"f0", "f6", "f5", "f10"})
            ip::execute(p, std::string(f) + " '" + v[0] + "' '" + v[1] + "'");
    }
}

MC_MAIN({"one_parameter", single}, {"odd_texts", oddTexts}, {"two_parameters", two}, {"three_parameters", three}, {"subsets", subsets}, {"sequences", sequences}, {"sizes", sizes})
