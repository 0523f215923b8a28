// C03: every spelling of the same command delivers the same values to the command.
// The generator writes spellings from the intended structure; it shares nothing with the parser.
#include "lexcheck.h"

#include <algorithm>

namespace
{
    using Subs = ref::Subvalues;

    struct Received
    {
        std::string which;
        std::vector<Subs> args;
        std::vector<std::pair<std::string, Subs>> named;
        int calls = 0;
    };
    Received got;

    void takeNamed(coil::Context& c)
    {
        for (auto& nv : c.namedArgs())
            got.named.push_back({cu::str(nv.key), cu::subs(nv.value)});
    }

    template<typename... Ts>
    void receive(char const* which, coil::Context c, Ts... subs)
    {
        got.calls++;
        got.which = which;
        (got.args.push_back(subs), ...);
        takeNamed(c);
    }

    Subs conv(std::vector<std::string> const& v) { return v; }
    Subs conv(std::vector<coil::StringView> const& v)
    {
        Subs r;
        for (auto s : v)
            r.push_back(cu::str(s));
        return r;
    }

    coil::Bindings makeBindings()
    {
        coil::Bindings b;
        using C = coil::Context;
        using V = coil::Value const&;
        b["val"] = coil::overloaded([](C c) { receive("val", c); }, [](C c, V a) { receive("val", c, cu::subs(a)); }, [](C c, V a, V d) { receive("val", c, cu::subs(a), cu::subs(d)); },
                                    [](C c, V a, V d, V e) { receive("val", c, cu::subs(a), cu::subs(d), cu::subs(e)); },
                                    [](C c, V a, V d, V e, V f) { receive("val", c, cu::subs(a), cu::subs(d), cu::subs(e), cu::subs(f)); },
                                    [](C c, V a, V d, V e, V f, V g) { receive("val", c, cu::subs(a), cu::subs(d), cu::subs(e), cu::subs(f), cu::subs(g)); });
        using S = std::vector<std::string>;
        using SV = std::vector<coil::StringView>;
        b["vec"] = coil::overloaded([](C c) { receive("vec", c); }, [](C c, S a) { receive("vec", c, conv(a)); }, [](C c, SV const& a, S d) { receive("vec", c, conv(a), conv(d)); },
                                    [](C c, S a, SV d, S const& e) { receive("vec", c, conv(a), conv(d), conv(e)); });
        b["one"] = coil::overloaded([](C c) { receive("one", c); }, [](C c, coil::String a) { receive("one", c, Subs{cu::str(a)}); },
                                    [](C c, coil::StringView a, std::string const& d) { receive("one", c, Subs{cu::str(a)}, Subs{d}); },
                                    [](C c, std::string_view a, coil::String const& d, coil::StringView e) { receive("one", c, Subs{std::string(a)}, Subs{cu::str(d)}, Subs{cu::str(e)}); });
        return b;
    }

    struct Builder
    {
        std::string line;
        std::vector<Subs> args;
        std::vector<std::pair<std::string, Subs>> named;
        bool single = true; // every value has one sub-value
    };

    bool plain(std::string const& s, bool inGroup)
    {
        if (s.empty())
            return false;
        for (char c : s)
            if (strchr(" \t\n\r()'\",;|", c) || (c == '=' && !inGroup))
                return false;
        return true;
    }
    bool quotable(std::string const& s, bool inGroup)
    {
        for (char c : s)
            if (c == '\'' || c == '"' || (inGroup && (c == '(' || c == ')')))
                return false;
        return true;
    }

    // spelling of one text; every alternative that can denote it
    std::string spellText(std::string const& s, bool inGroup)
    {
        std::vector<std::string> alts;
        if (plain(s, inGroup))
            alts.push_back(s);
        if (quotable(s, inGroup))
        {
            alts.push_back("\"" + s + "\"");
            alts.push_back("'" + s + "'");
        }
        if (alts.empty())
            mc::fail("internal: no spelling for %s", s.c_str());
        return alts[size_t(mc::choose(int(alts.size())))];
    }

    // spelling of a value; seps is the menu of separators inside groups
    std::string spellValue(Subs const& v, std::vector<std::string> const& seps)
    {
        bool word = !v.empty();
        for (auto& s : v)
            word = word && plain(s, false);
        bool group = true;
        for (auto& s : v)
            group = group && (plain(s, true) || quotable(s, true));
        int forms[3], n = 0;
        if (v.size() == 1)
            forms[n++] = 0;
        if (group)
            forms[n++] = 1;
        if (word)
            forms[n++] = 2;
        auto sep = [&] { return seps[size_t(mc::choose(int(seps.size())))]; };
        switch (forms[mc::choose(n)])
        {
        case 0: return spellText(v[0], false);
        case 1:
        {
            std::string r = "(";
            if (mc::flip())
                r += sep();
            for (size_t i = 0; i < v.size(); i++)
            {
                if (i)
                    r += sep();
                r += spellText(v[i], true);
            }
            if (mc::flip())
                r += sep();
            return r + ")";
        }
        default:
        {
            static char const* const inWord[] = {",", ";", "|", ",,"};
            std::string r;
            for (size_t i = 0; i < v.size(); i++)
            {
                if (i)
                    r += inWord[mc::choose(4)];
                r += v[i];
            }
            if (v.size() == 1)
                r += inWord[mc::choose(4)]; // a separator makes a list, of one element too
            else if (mc::flip())
                r += ",";
            return r;
        }
        }
    }

    bool wordEnd(std::string const& s) { return !s.empty() && !strchr(" \t\n\r()'\"=", s.back()); }
    bool wordBegin(std::string const& s) { return !s.empty() && !strchr("()'\"", s.front()); }

    void glue(Builder& b, std::string const& next, std::vector<std::string> const& spaces)
    {
        // some space is needed only between two bare words
        bool need = wordEnd(b.line) && wordBegin(next);
        std::vector<std::string> alts;
        for (auto& s : spaces)
            if (!need || !s.empty())
                alts.push_back(s);
        b.line += alts[size_t(mc::choose(int(alts.size())))];
        b.line += next;
    }

    void positional(Builder& b, Subs const& v, std::vector<std::string> const& seps, std::vector<std::string> const& spaces)
    {
        glue(b, spellValue(v, seps), spaces);
        b.args.push_back(v);
        b.single = b.single && v.size() == 1;
    }

    void namedArg(Builder& b, std::string const& key, Subs const& v, std::vector<std::string> const& seps, std::vector<std::string> const& spaces)
    {
        glue(b, spellText(key, false), spaces);
        b.line += spaces[size_t(mc::choose(int(spaces.size())))];
        b.line += "=";
        b.line += spaces[size_t(mc::choose(int(spaces.size())))];
        b.line += spellValue(v, seps);
        b.named.push_back({key, v});
    }

    std::string showAll(std::vector<Subs> const& a, std::vector<std::pair<std::string, Subs>> const& n)
    {
        ref::Input in;
        in.name = "";
        in.args = a;
        in.named = n;
        return cu::show(in);
    }

    void run(Builder& b, std::string const& command)
    {
        static coil::Bindings bindings = makeBindings();
        got = Received{};
        MC_OP("execute %s", mc::show(b.line.substr(0, 500)).c_str());
        mc::transition(b.args.size() + b.named.size());
        {
            cu::Line line{b.line};
            coil::ExecutionResult r = bindings.execute(coil::StringView(line));
            if (!r.errors.empty())
                mc::fail("executing %s reported %s", mc::show(b.line.substr(0, 1000)).c_str(), cu::show(cu::errors(r)).c_str());
        }
        MC_CHECK(got.calls == 1 && got.which == command, "executing %s made %d calls, last to %s", mc::show(b.line.substr(0, 1000)).c_str(), got.calls, got.which.c_str());
        if (got.args != b.args || got.named != b.named)
            mc::fail("executing %s delivered %s\n  intended %s", mc::show(b.line.substr(0, 1000)).c_str(), showAll(got.args, got.named).substr(0, 2000).c_str(), showAll(b.args, b.named).substr(0, 2000).c_str());
        ref::Input in;
        in.args = b.args;
        in.named = b.named;
        uint64_t h = cu::hash(in);
        mc::outcome(h);
        mc::state(mc::mix(h, mc::hashStr(b.line)));
        got = Received{};
    }

    std::string const texts[] = {"a", "bc", "", "d e", "-1.5", "x=y", "(z)", "\xC3\xA9", ",", " ", "\t\n", "1;2|3", "\\n", "=", "()"};
    std::vector<std::string> const fewSpaces = {" ", ""};
    std::vector<std::string> const spaces = {" ", "", "  ", "\t", "\n\r "};
    std::vector<std::string> const fewSeps = {" ", ","};
    std::vector<std::string> const midSeps = {" ", ",", " , ", ";;"};
    std::vector<std::string> const seps = {" ", ",", ", ", " , ", ";", "|", "\t", ",,", " ;| "};

    void prefix(Builder& b, char const* cmd, bool varied)
    {
        b.line = varied ? spaces[size_t(mc::choose(5))] : "";
        std::string name = cmd;
        switch (varied ? mc::choose(3) : 0)
        {
        case 1: name = "'" + name + "'"; break;
        case 2: name = "\"" + name + "\""; break;
        }
        b.line += name;
    }
    void suffix(Builder& b)
    {
        b.line += spaces[size_t(mc::choose(5))];
    }
    char const* const commands[] = {"val", "vec", "one"};

    char const* chooseCommand(Builder const& b, int arity)
    {
        (void)b;
        return commands[mc::choose(arity <= 3 ? 2 : 1)];
    }
}

// one value of one sub-value: every form, text, separator and spacing
static void oneValue()
{
    Builder b;
    int asNamed = mc::choose(2);
    char const* cmd = chooseCommand(b, 1);
    prefix(b, cmd, mc::thorough());
    Subs v;
    if (mc::flip())
        v.push_back(texts[mc::choose(15)]);
    if (asNamed)
        namedArg(b, "k", v, seps, fewSpaces);
    else
        positional(b, v, seps, fewSpaces);
    suffix(b);
    run(b, cmd);
}

// lists: every form, quoting of each element and separators
static void lists()
{
    Builder b;
    bool big = mc::thorough();
    int asNamed = mc::choose(2);
    char const* cmd = chooseCommand(b, 1);
    prefix(b, cmd, false);
    int n = 2 + mc::choose(big || !mc::asan() ? 2 : 1);
    bool two = n == 2;
    Subs v;
    for (int i = 0; i < n; i++)
    {
        static int const menu[] = {0, 2, 3, 8, 5, 7, 4, 1, 9, 10, 11, 13, 12};
        v.push_back(texts[menu[mc::choose(two ? (big ? 13 : mc::asan() ? 5 : 9) : (big ? 5 : 4))]]);
    }
    auto const& menu = two ? (mc::asan() && !big ? midSeps : seps) : (big ? midSeps : fewSeps);
    if (asNamed)
    {
        std::vector<std::string> around{mc::flip() ? "" : " "};
        b.line += " k" + around[0] + "=" + around[0] + spellValue(v, menu);
        b.named.push_back({"k", v});
    }
    else
        positional(b, v, menu, {" "});
    run(b, cmd);
}

// strings received as every string-like parameter type
static void oneString()
{
    Builder b;
    prefix(b, "one", false);
    int n = mc::choose(mc::thorough() ? 4 : 3);
    for (int i = 0; i < n; i++)
        positional(b, {texts[mc::choose(15)]}, fewSeps, i ? fewSpaces : spaces);
    run(b, "one");
}

struct Spelled
{
    Subs value;
    char const* forms[2];
};

// several positional and named arguments in every arrangement, two spellings of each value and key
static void interleavings()
{
    static Spelled const menuOf[] = {{{"a"}, {"a", "\"a\""}}, {{"d", "e"}, {"d,e", "(d 'e')"}}, {{"b c"}, {"'b c'", "(\"b c\")"}}, {{}, {"()", "( ,)"}}, {{""}, {"''", "(\"\")"}}, {{"f g", "h"}, {"('f g',h)", "(\"f g\";'h' )"}}};
    static Spelled const keys[] = {{{"k"}, {"k", "'k'"}}, {{"key two"}, {"'key two'", "\"key two\""}}, {{"a"}, {"a", "\"a\""}}};
    Builder b;
    bool asan = mc::asan();
    int items = mc::choose((mc::thorough() ? 4 : asan ? 2 : 3) + 1);
    int menu = items <= 2 ? 6 : items == 3 ? (mc::thorough() ? (asan ? 2 : 3) : 2) : asan ? 1 : 2;
    char const* cmd = chooseCommand(b, 0);
    prefix(b, cmd, items < 2);
    for (int i = 0; i < items; i++)
    {
        int kind = mc::choose(items <= 2 ? 4 : 3);
        Spelled const& v = menuOf[mc::choose(menu)];
        std::string value = v.forms[mc::choose(2)];
        if (kind == 0)
        {
            glue(b, value, fewSpaces);
            b.args.push_back(v.value);
        }
        else
        {
            Spelled const& k = keys[kind - 1];
            glue(b, k.forms[mc::choose(2)], fewSpaces);
            b.line += fewSpaces[size_t(mc::choose(2))] + "=" + fewSpaces[size_t(mc::choose(2))] + value;
            b.named.push_back({k.value[0], v.value});
        }
    }
    if (items < 2)
        suffix(b);
    run(b, cmd);
}

// every amount and kind of spacing in every gap
static void spacing()
{
    struct Shape
    {
        std::vector<std::string> parts;
        std::vector<Subs> args;
        std::vector<std::pair<std::string, Subs>> named;
    };
    static Shape const shapes[] = {
        {{"val", "a", "k", "=", "v"}, {{"a"}}, {{"k", {"v"}}}},
        {{"val", "k", "=", "'v w'", "a"}, {{"a"}}, {{"k", {"v w"}}}},
        {{"'val'", "(a b)", "\"c d\"", "e,f"}, {{"a", "b"}, {"c d"}, {"e", "f"}}, {}},
        {{"val", "'k'", "=", "(v)", "k", "=", "w"}, {}, {{"k", {"v"}}, {"k", {"w"}}}},
        {{"val", "(", "a", ",", "b", ")", "()"}, {{"a", "b"}, {}}, {}},
    };
    Builder b;
    Shape const& s = shapes[mc::choose(5)];
    std::vector<std::string> const& menu = s.parts.size() > 5 && mc::asan() && !mc::thorough() ? fewSpaces : spaces;
    for (auto& p : s.parts)
    {
        if (b.line.empty())
            b.line += spaces[size_t(mc::choose(5))] + p;
        else
            glue(b, p, menu);
    }
    suffix(b);
    b.args = s.args;
    b.named = s.named;
    run(b, "val");
}

// order: n positional and m named arguments merged in every way keep their own order
static void merges()
{
    Builder b;
    prefix(b, "val", false);
    int n = mc::choose(6), m = mc::choose(mc::thorough() ? 7 : 5);
    int i = 0, j = 0;
    while (i < n || j < m)
    {
        bool pos = i < n && (j >= m || mc::flip());
        if (pos)
        {
            std::string t = "p" + std::to_string(i++);
            b.line += " " + t;
            b.args.push_back({t});
        }
        else
        {
            std::string t = "n" + std::to_string(j), k = j % 2 ? "odd" : "even";
            j++;
            b.line += " " + k + "=" + t;
            b.named.push_back({k, {t}});
        }
    }
    run(b, "val");
}

// long texts, many sub-values, many named arguments
static void sizes()
{
    Builder b;
    int kind = mc::choose(7);
    size_t n = chooseLength(mc::thorough() ? 600 : 270, mc::asan() && !mc::thorough() ? 1100 : 20000);
    char const* cmd = kind < 5 ? commands[mc::choose(2)] : "val";
    prefix(b, cmd, false);
    switch (kind)
    {
    case 0: positional(b, {text(n) + "z"}, {" "}, {" "}); break;
    case 1: positional(b, {spaced(n)}, {" "}, {" "}); break;
    case 2:
    case 3:
    {
        Subs v;
        std::string s;
        for (size_t i = 0; i < n; i++)
        {
            std::string e = kind == 2 ? "e" + std::to_string(i) : "e " + std::to_string(i);
            v.push_back(e);
            s += (i ? (kind == 2 ? "," : " ") : "") + (kind == 2 ? e : "'" + e + "'");
        }
        b.line += " (" + s + ")";
        b.args.push_back(v);
        break;
    }
    case 4:
    {
        Subs v;
        std::string s;
        for (size_t i = 0; i <= n; i++)
        {
            v.push_back(std::to_string(i));
            s += v.back() + ",";
        }
        b.line += " " + s;
        b.args.push_back(v);
        break;
    }
    case 5:
        for (size_t i = 0; i < n; i++)
        {
            std::string k = "k" + std::to_string(i % 7), t = "v" + std::to_string(i);
            b.line += " " + k + "=" + t;
            b.named.push_back({k, {t}});
        }
        break;
    case 6:
        b.line += " " + text(n) + "k = ('" + spaced(n) + "' " + text(n / 2 + 1) + ") (" + text(n) + "x,\"" + spaced(n) + "y\")";
        b.named.push_back({text(n) + "k", {spaced(n), text(n / 2 + 1)}});
        b.args.push_back({text(n) + "x", spaced(n) + "y"});
        break;
    }
    run(b, cmd);
}

// texts with a quoted part in the middle: in a group each is one sub-value, as it is written
static void mixedQuotes()
{
    static char const* const parts[] = {"a", "'b c'", "\"d,e\"", "=", "''", "\"f;| g\"", "h"};
    Builder b;
    char const* cmd = chooseCommand(b, 1);
    prefix(b, cmd, false);
    int asNamed = mc::choose(2);
    int n = 1 + mc::choose(2);
    Subs v;
    std::string line = "(";
    for (int i = 0; i < n; i++)
    {
        if (i)
            line += midSeps[size_t(mc::choose(4))];
        // a plain text first: a text that begins with a quote is quoted as a whole
        std::string s = mc::flip() ? "a" : "k=";
        int more = 1 + mc::choose(n == 1 ? (mc::thorough() ? 4 : 3) : 2);
        for (int j = 0; j < more; j++)
            s += parts[mc::choose(7)];
        if (std::count_if(s.begin(), s.end(), [](char c) { return c == '\'' || c == '"'; }) % 2)
            s += "'"; // what was opened is closed
        v.push_back(s);
        line += s;
    }
    line += mc::flip() ? " )" : ")";
    if (asNamed)
    {
        b.line += " k=" + line;
        b.named.push_back({"k", v});
    }
    else
    {
        b.line += " " + line;
        b.args.push_back(v);
    }
    run(b, cmd);
}

MC_MAIN({"one_value", oneValue}, {"mixed_quotes", mixedQuotes}, {"lists", lists}, {"one_string", oneString}, {"interleavings", interleavings}, {"spacing", spacing}, {"merges", merges}, {"sizes", sizes})
