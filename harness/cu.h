// Glue between coil types and the plain reference models.
#pragma once

#include "mc.h"
#include "reflex.h"

#include "coil/Coil.h"
#include "coil/StdLibCompat.h"
#include "coil/detail/DefaultLexer.h"
#include "coil/detail/ExecutionInput.h"
#include "coil/detail/ExecutionResult.h"
#include "coil/detail/Lexer.h"
#include "coil/detail/StringConv.h"
#include "coil/detail/UniquePtr.h"
#include "coil/detail/Utils.h"

#include <algorithm>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace cu
{
    inline std::string str(coil::StringView v) { return v.length() ? std::string(v.data(), v.length()) : std::string(); }
    inline std::string str(coil::String const& s)
    {
        std::string r(s.length() ? std::string(s.cStr(), s.length()) : std::string());
        return r;
    }
    inline coil::StringView view(std::string const& s) { return coil::StringView{s.data(), s.size()}; }
    inline coil::String string(std::string const& s) { return coil::String{s.data(), s.size()}; }

    inline ref::Subvalues subs(coil::Value const& v)
    {
        ref::Subvalues r;
        for (size_t i = 0; i < v.subvalues.size(); i++)
            r.push_back(str(v.subvalues[i]));
        return r;
    }

    inline std::string show(ref::Subvalues const& v)
    {
        std::string r = "{";
        for (size_t i = 0; i < v.size(); i++)
            r += (i ? ", " : "") + mc::show(v[i]);
        return r + "}";
    }

    inline std::string show(ref::Input const& in)
    {
        if (in.error)
            return "error " + mc::show(*in.error);
        std::string r = "name " + mc::show(in.name) + " args [";
        for (size_t i = 0; i < in.args.size(); i++)
            r += (i ? ", " : "") + show(in.args[i]);
        r += "] named [";
        for (size_t i = 0; i < in.named.size(); i++)
            r += (i ? ", " : "") + mc::show(in.named[i].first) + "=" + show(in.named[i].second);
        return r + "]";
    }

    inline ref::Input fromCoil(coil::ExecutionInput const& in)
    {
        ref::Input r;
        r.name = str(in.name);
        for (size_t i = 0; i < in.arguments.size(); i++)
            r.args.push_back(subs(in.arguments[i]));
        for (size_t i = 0; i < in.namedArguments.size(); i++)
            r.named.push_back({str(in.namedArguments[i].key), subs(in.namedArguments[i].value)});
        return r;
    }

    inline bool same(ref::Input const& a, ref::Input const& b)
    {
        return a.error == b.error && a.name == b.name && a.args == b.args && a.named == b.named;
    }

    inline uint64_t hash(ref::Input const& in)
    {
        uint64_t h = 7;
        if (in.error)
            return mc::hashStr(*in.error, 99);
        h = mc::mix(h, mc::hashStr(in.name));
        for (auto& a : in.args)
        {
            h = mc::mix(h, a.size() + 1000);
            for (auto& s : a)
                h = mc::mix(h, mc::hashStr(s));
        }
        for (auto& a : in.named)
        {
            h = mc::mix(h, mc::hashStr(a.first) + 77);
            h = mc::mix(h, a.second.size() + 2000);
            for (auto& s : a.second)
                h = mc::mix(h, mc::hashStr(s));
        }
        return h;
    }

    inline bool inside(coil::StringView v, std::string const& line)
    {
        if (v.empty())
            return true;
        return v.data() >= line.data() && v.data() + v.length() <= line.data() + line.size();
    }

    // every view in the parsed input denotes characters of the line
    inline bool viewsInside(coil::ExecutionInput const& in, std::string const& line)
    {
        if (!inside(in.name, line))
            return false;
        for (auto& a : in.arguments)
            for (auto& s : a.subvalues)
                if (!inside(s, line))
                    return false;
        for (auto& a : in.namedArguments)
        {
            if (!inside(a.key, line))
                return false;
            for (auto& s : a.value.subvalues)
                if (!inside(s, line))
                    return false;
        }
        return true;
    }

    // A field of a message is shown up to its first null character or in full: both name the text.
    // The reference messages are written the first way; one that shows more is brought to it.
    inline std::string message(coil::String const& text)
    {
        std::string s = str(text);
        static char const* const after[] = {"' to type '", "' is registered", "': expected ", "' at the beginning of the expression"};
        for (size_t nul = s.find('\0'); nul != std::string::npos; nul = s.find('\0'))
        {
            size_t end = std::string::npos;
            for (char const* a : after)
                end = std::min(end, s.find(a, nul));
            if (end == std::string::npos && s.compare(0, 24, "Missing named argument '") == 0 && s.back() == '\'')
                end = s.size() - 1;
            if (end == std::string::npos && s.compare(0, 19, "Unable to convert '") == 0 && s.rfind("': ", nul) != std::string::npos)
                end = s.size(); // the explanation at its end
            if (end == std::string::npos)
                break;
            s.erase(nul, end - nul);
        }
        return s;
    }

    inline std::vector<std::string> errors(coil::ExecutionResult const& r)
    {
        std::vector<std::string> v;
        for (size_t i = 0; i < r.errors.size(); i++)
            v.push_back(message(r.errors[i]));
        return v;
    }

    inline std::optional<std::string> ret(coil::ExecutionResult const& r)
    {
        if (!r.returnValue.hasValue())
            return std::nullopt;
        return str(*r.returnValue);
    }

    inline std::string show(std::optional<std::string> const& v) { return v ? mc::show(*v) : std::string("none"); }

    // Copy of the line in a heap block of exactly its size: reading past the end is caught by ASan
    struct Line
    {
        explicit Line(std::string const& s) : size(s.size()), data(new char[s.size() ? s.size() : 1]) { memcpy(data.get(), s.data(), s.size()); }
        operator coil::StringView() const { return coil::StringView{data.get(), size}; }
        size_t size;
        std::unique_ptr<char[]> data;
    };
}
