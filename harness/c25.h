// C25: what commands do is written down and compared with what every other build of the library does.
// Nothing in these files may depend on the build: the only oracle is another build.
#pragma once
#include "c25_extern.h"
#include "cu.h"
#include "interp.h"
#include "lexcheck.h"
#include "refconv.h"

namespace c25
{
    // integer type names follow the naming configuration; everything else must not
    inline std::string plain(std::string const& s)
    {
        static std::pair<char const*, char const*> const aliases[] = {{"int8", "signed char"}, {"uint8", "unsigned char"}, {"int16", "short"}, {"uint16", "unsigned short"},
                                                                       {"int32", "int"},       {"uint32", "unsigned int"}, {"int64", "long"},  {"uint64", "unsigned long"}};
        std::string r;
        auto word = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; };
        for (size_t i = 0; i < s.size();)
        {
            size_t e = i;
            while (e < s.size() && word(s[e]))
                e++;
            if (e == i)
            {
                r += s[i++];
                continue;
            }
            std::string w = s.substr(i, e - i);
            for (auto& a : aliases)
                if (w == a.first)
                {
                    w = a.second;
                    break;
                }
            r += w;
            i = e;
        }
        return r;
    }

    inline std::string describe(coil::ExecutionResult const& r)
    {
        std::string s = "errors [";
        for (auto& e : cu::errors(r))
            s += mc::show(plain(e)) + " ";
        s += "] return " + cu::show(cu::ret(r)) + " output " + mc::show(cu::str(r.output)) + " input " + cu::show(cu::fromCoil(r.input));
        for (auto& c : ip::calls())
            s += " call " + c;
        ip::calls().clear();
        return s;
    }

    inline std::string run(coil::Bindings& b, std::string const& line)
    {
        MC_OP("execute %s", mc::show(line.substr(0, 300)).c_str());
        cu::Line l{line};
        ip::calls().clear();
        auto r = b.execute(coil::StringView(l));
        return describe(r);
    }

    inline std::string describe(coil::Bindings const& b, std::string const& name)
    {
        auto* d = b.get(cu::view(name));
        if (!d)
            return name + " absent";
        std::string s = cu::str(d->name) + ":";
        for (size_t i = 0; i < d->functors.size(); i++)
        {
            auto& f = d->functors[i];
            s += " " + plain(cu::str(f.returnType())) + " " + std::to_string(f.arity()) + "(";
            for (size_t k = 0; k < f.parameterTypes().size(); k++)
                s += plain(cu::str(f.parameterTypes()[k])) + ",";
            s += ")";
        }
        return s;
    }

    inline void observed(std::string const& s)
    {
        uint64_t h = mc::hashStr(s);
        mc::state(h);
        mc::outcome(h);
        mc::validated();
        mc::digest(s);
    }
}
