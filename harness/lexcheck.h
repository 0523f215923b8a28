#pragma once

#include "cu.h"

#include <cstring>
#include <map>

// One character string chosen symbol by symbol (0 = stop)
inline std::string chooseString(std::string const& alphabet, int maxLen)
{
    std::string s;
    while (static_cast<int>(s.size()) < maxLen)
    {
        int c = mc::choose(static_cast<int>(alphabet.size()) + 1);
        if (c == 0)
            break;
        s += alphabet[static_cast<size_t>(c - 1)];
    }
    return s;
}

struct Setup
{
    ref::Syntax syntax;
    coil::DefaultLexer lexer;
};

inline Setup const& defaultSetup()
{
    static Setup s;
    return s;
}

inline void checkWith(coil::DefaultLexer const& lexer, ref::Syntax const& syntax, std::string const& text)
{
    cu::Line line{text};
    MC_OP("parse %s", mc::show(text.substr(0, 400)).c_str());
    mc::transition(text.size());
    ref::Input want = ref::parse(syntax, text);
    auto got = lexer.parse(line);
    ref::Input have;
    if (got.hasValue())
    {
        have = cu::fromCoil(got.value());
        coil::ExecutionInput const& in = got.value();
        auto inside = [&](coil::StringView v) { return v.empty() || (v.data() >= line.data.get() && v.data() + v.length() <= line.data.get() + line.size); };
        bool ok = inside(in.name);
        for (auto& a : in.arguments)
            for (auto& s : a.subvalues)
                ok = ok && inside(s);
        for (auto& a : in.namedArguments)
        {
            ok = ok && inside(a.key);
            for (auto& s : a.value.subvalues)
                ok = ok && inside(s);
        }
        MC_CHECK(ok, "parsing %s returned text from outside the line", mc::show(text.substr(0, 400)).c_str());
    }
    else
        have.error = cu::message(got.error());
    MC_LOG("  -> %s", cu::show(have).substr(0, 400).c_str());
    uint64_t h = cu::hash(want);
    mc::outcome(h);
    mc::state(mc::mix(mc::mix(h, mc::hashStr(text)), mc::hashStr(syntax.groups + "\n" + syntax.quotes + "\n" + syntax.separators + "\n" + syntax.spaces)));
    if (!cu::same(want, have))
        mc::fail("parsing %s (length %zu)\n  gives    %s\n  expected %s", mc::show(text.substr(0, 400)).c_str(), text.size(), cu::show(have).substr(0, 2000).c_str(), cu::show(want).substr(0, 2000).c_str());
}

inline void checkLine(Setup const& s, std::string const& text)
{
    checkWith(s.lexer, s.syntax, text);
}

// every length up to dense, then around powers of two
inline size_t chooseLength(size_t dense, size_t top = 70000)
{
    static std::map<std::pair<size_t, size_t>, std::vector<size_t>> menus;
    auto& lengths = menus[{dense, top}];
    if (lengths.empty())
    {
        for (size_t i = 0; i <= dense; i++)
            lengths.push_back(i);
        for (size_t p = 2; p <= top; p *= 2)
            for (int d = -2; d <= 2; d++)
                if (p + size_t(d) > dense && p + size_t(d) <= top)
                    lengths.push_back(p + size_t(d));
    }
    return lengths[static_cast<size_t>(mc::choose(static_cast<int>(lengths.size())))];
}

inline std::string rep(std::string const& s, size_t n)
{
    std::string r;
    r.reserve(s.size() * n);
    for (size_t i = 0; i < n; i++)
        r += s;
    return r;
}

inline std::string text(size_t n)
{
    std::string r(n, 'x');
    for (size_t i = 0; i < n; i++)
        r[i] = static_cast<char>('a' + i * 7 % 26);
    return r;
}

inline std::string spaced(size_t n)
{
    std::string r = text(n);
    for (size_t i = 3; i < n; i += 5)
        r[i] = ' ';
    return r;
}

// words that some program might take for something special
inline std::vector<std::string> const& oddWords()
{
    static std::vector<std::string> const words = {
        "", " ", "null", "NULL", "nullptr", "nil", "none", "None", "nullopt", "undefined", "default", "empty", "void", "N/A", "?", "-", "--", "---", "+", "*", "~", "!", "@", "#", "$", "$x", "${x}",
        "%", "%%", "%s", "%n", "%s%s%s%n", "%d", "%x", "%.*s", "%1$s", "100%", "%%%", "&", "&&", "|", "||", "^", "\\", "\\n", "\\0", "\\\\", "/", "//", "/*", "*/", ":", "::", ";", ",", ".", "..", "...", "<", ">", "<>", "{}", "{0}", "[]", "[1, 2]", "_", "`",
        "true", "false", "TRUE", "False", "tRuE", "yes", "no", "on", "off", "y", "n", "t", "f", "T", "F", "enabled", "truE ", " true", "true1", "tru", "truee", "1true", "falsey", "fals",
        "0", "1", "00", "01", "000001", "10", "-0", "+0", "+1", "-1", "--1", "+-1", "1-", "1+", "0x10", "0X1F", "0b1", "0o7", "010", "1e3", "1E3", "1e", "e1", "1.", ".5", ".", "1.0", "1,5", "1 000", "1_000", "1'000", "1u", "1L", "1f", "0x", "0x.8", "0X1.", "0X.8P1", "0x1p", "0x1p-3", "0X1P+3",
        "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616",
        "inf", "-inf", "INF", "Infinity", "infinit", "nan", "-nan", "NaN", "nan()", "nan(1)", "nan(", "1e308", "1e309", "1e-400", "4.9e-324", "3.5e38", "1e-46", "1e4931", "1e4933", "0.1", "1e-6", "9.99999e-7",
        "\t", "\n", "\r\n", "\v", "\f1", "1\n", "a\tb", "a\nb", "\x01", "\x1b[0m", "\x7f", "\xc3\xa9", "\xff", "\x80", "\xef\xbb\xbf" "1", "\xe2\x80\x8b", std::string("\0", 1), std::string("a\0b", 3), std::string("1\0", 2),
        "help", "exit", "set", "get", "clear", "self", "this", "coil", "name", "args", "f", "F", "f.g", "f()", "a=b", "=", "==", "k=", "=v", "(a b)", "(", ")", "a b", "a  b", " a", "a ", "a,b", "a;b"};
    return words;
}
inline std::string const& oddWord() { return oddWords()[size_t(mc::choose(int(oddWords().size())))]; }
inline bool quotable(std::string const& s) { return s.find_first_of("\"'") == std::string::npos; }

inline std::string sizedLine(int kind, size_t n)
{
    switch (kind)
    {
    case 0: return text(n);
    case 1: return "f " + text(n) + " z";
    case 2: return "f \"" + spaced(n) + "\" z";
    case 3: return "f (" + spaced(n) + ") z";
    case 4: return "f" + rep(" ", n) + "x" + rep("\t", n) + "=" + rep(" ", n) + "v";
    case 5: return "f " + text(n) + "=" + text(n);
    case 6: return "f" + rep(" a", n);
    case 7: return "f a" + rep(",b", n);
    case 8: return "f (" + rep("ab ", n) + ")";
    case 9: return "f" + rep(" k=v", n);
    case 10: return "f" + rep(" (a b) 'c d' e=f", n);
    case 11: return "f \"" + spaced(n); // never closed
    case 12: return "f (" + spaced(n);
    case 13: return "f (" + rep("'a b' ", n) + ")";
    case 14: return "f a" + rep(",", n) + "b (" + rep(";", n) + ")";
    case 15: return "(" + text(n) + ") f"; // the message carries the text
    case 16: return rep(" ", n);
    default: return "f k=\"" + text(n) + "\" '" + spaced(n) + "'=(" + text(n) + " " + text(n / 2) + ")";
    }
}
