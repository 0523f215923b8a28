// Reference model of the command syntax, written from the syntax's description with plain std types.
#pragma once

#include <optional>
#include <string>
#include <utility>
#include <vector>

namespace ref
{
    struct Syntax
    {
        std::string groups = "()";
        std::string quotes = "'\"";
        std::string separators = ",;|";
        std::string spaces = " \t\n\r";
    };

    using Subvalues = std::vector<std::string>;

    struct Input
    {
        std::string name;
        std::vector<Subvalues> args;
        std::vector<std::pair<std::string, Subvalues>> named;
        std::optional<std::string> error;
    };

    enum class Cls { Word, Space, Group, Quote, Assign };

    inline bool has(std::string const& set, char c) { return set.find(c) != std::string::npos; }

    inline Cls classify(Syntax const& x, char c)
    {
        if (c == '=') return Cls::Assign;
        if (has(x.spaces, c)) return Cls::Space;
        if (has(x.groups, c)) return Cls::Group;
        if (has(x.quotes, c)) return Cls::Quote;
        return Cls::Word;
    }

    inline bool splits(Syntax const& x, char c) { return has(x.spaces, c) || has(x.separators, c); }

    // elements of a group: separated by runs of separators and spaces, except between quotes
    inline Subvalues elements(Syntax const& x, std::string const& text)
    {
        Subvalues out;
        std::string cur;
        bool open = false, quoted = false;
        auto flush = [&] {
            if (!open)
                return;
            if (cur.size() >= 2 && has(x.quotes, cur.front()) && has(x.quotes, cur.back()))
                cur = cur.substr(1, cur.size() - 2);
            out.push_back(cur);
            cur.clear();
            open = quoted = false;
        };
        for (char c : text)
        {
            if (!quoted && splits(x, c))
            {
                flush();
                continue;
            }
            open = true;
            if (has(x.quotes, c))
                quoted = !quoted;
            cur += c;
        }
        flush();
        return out;
    }

    struct Tok
    {
        enum Kind { Text, List, Assign } kind;
        std::string text;
    };

    // messages are built by printf-style formatting: they stop at an embedded null
    inline std::string cut(std::string const& s) { return s.substr(0, s.find('\0')); }

    inline std::optional<std::string> tokenize(Syntax const& x, std::string const& line, std::vector<Tok>& toks)
    {
        size_t i = 0, n = line.size();
        while (i < n)
        {
            char c = line[i];
            switch (classify(x, c))
            {
            case Cls::Space:
                i++;
                break;
            case Cls::Assign:
                toks.push_back({Tok::Assign, "="});
                i++;
                break;
            case Cls::Quote:
            case Cls::Group:
            {
                Cls k = classify(x, c);
                size_t j = i + 1;
                while (j < n && classify(x, line[j]) != k)
                    j++;
                if (j == n)
                {
                    std::string shown(1, c);
                    std::string msg = "Token '" + shown + "' doesn't have a corresponding opening/closing " + (k == Cls::Quote ? "quote" : "token");
                    return msg;
                }
                toks.push_back({k == Cls::Quote ? Tok::Text : Tok::List, line.substr(i + 1, j - i - 1)});
                i = j + 1;
                break;
            }
            case Cls::Word:
            {
                size_t j = i + 1;
                bool list = false;
                while (j < n && classify(x, line[j]) == Cls::Word)
                    list = splits(x, line[j++]) || list;
                toks.push_back({list ? Tok::List : Tok::Text, line.substr(i, j - i)});
                i = j;
                break;
            }
            }
        }
        return std::nullopt;
    }

    inline Input parse(Syntax const& x, std::string const& line)
    {
        Input in;
        std::vector<Tok> t;
        if (auto e = tokenize(x, line, t))
        {
            in.error = e;
            return in;
        }
        if (t.empty())
            return in;
        if (t[0].kind != Tok::Text)
        {
            in.error = "Unexpected token '" + cut(t[0].text) + "' at the beginning of the expression";
            return in;
        }
        in.name = t[0].text;
        auto value = [&](Tok const& k) { return k.kind == Tok::List ? elements(x, k.text) : Subvalues{k.text}; };
        size_t i = 1;
        // value ( '=' value )? ...
        while (i < t.size())
        {
            if (t[i].kind == Tok::Assign)
            {
                in = Input{};
                in.error = "Unexpected token '=': no name for the named argument is provided";
                return in;
            }
            if (i + 1 < t.size() && t[i + 1].kind == Tok::Assign)
            {
                if (i + 2 == t.size())
                {
                    in = Input{};
                    in.error = "Expected an argument value, found end of string";
                    return in;
                }
                if (t[i + 2].kind == Tok::Assign)
                {
                    in = Input{};
                    in.error = "Expected an argument value, found '='";
                    return in;
                }
                in.named.push_back({t[i].text, value(t[i + 2])});
                i += 3;
            }
            else
            {
                in.args.push_back(value(t[i]));
                i++;
            }
        }
        return in;
    }
}
