// A command table built at the same time for the library and for a reference interpreter.
#pragma once

#include "lexcheck.h"
#include "refconv.h"

#include <map>
#include <string>
#include <vector>

namespace ip
{
    struct Param
    {
        std::string name;
        ref::Conv (*conv)(ref::Subvalues const&);
    };

    enum class Ret { Void, Arity, Text };

    struct Func
    {
        std::string id;
        std::vector<Param> params;
        Ret ret;
        bool context;
    };

    struct Table
    {
        coil::Bindings bindings;
        std::map<std::string, std::vector<Func>> model;
    };

    inline std::vector<std::string>& calls()
    {
        static std::vector<std::string> v;
        return v;
    }

    template<typename R, typename... Ts>
    R act(std::string const& id, Ts const&... args)
    {
        std::string all;
        ((all += ref::Type<Ts>::canon(args) + ","), ...);
        calls().push_back(id + "(" + all + ")");
        if constexpr (std::is_same_v<R, int>)
            return static_cast<int>(sizeof...(Ts));
        else if constexpr (std::is_same_v<R, std::string>)
            return id + "(" + all + ")";
    }

    template<typename R, bool WithContext, typename... Ts>
    void overload(coil::Vector<coil::AnyFunctor>& functors, std::vector<Func>& model, std::string id)
    {
        Func f;
        f.id = id;
        f.params = {Param{ref::Type<Ts>::name(), &ref::Type<Ts>::conv}...};
        f.ret = std::is_void_v<R> ? Ret::Void : std::is_same_v<R, int> ? Ret::Arity : Ret::Text;
        f.context = WithContext;
        model.push_back(f);
        if constexpr (WithContext)
        {
            auto fn = [id](coil::Context c, Ts... args) -> R {
                c.log(coil::String(id.c_str()));
                return act<R>(id, args...);
            };
            functors.pushBack(coil::detail::createAnyFunctor(std::move(fn)));
        }
        else
        {
            auto fn = [id](Ts... args) -> R { return act<R>(id, args...); };
            functors.pushBack(coil::detail::createAnyFunctor(std::move(fn)));
        }
    }

    struct Outcome
    {
        std::vector<std::string> errors;
        std::optional<std::string> ret;
        std::string output;
        std::vector<std::string> calls;
        ref::Input input;
    };

    inline std::string show(Outcome const& o)
    {
        std::string r = "errors [";
        for (auto& e : o.errors)
            r += mc::show(e) + " ";
        r += "] return " + cu::show(o.ret) + " output " + mc::show(o.output) + " calls [";
        for (auto& c : o.calls)
            r += c + " ";
        return r + "] input " + cu::show(o.input);
    }

    inline uint64_t hash(Outcome const& o)
    {
        uint64_t h = mc::hashStr(o.output, 5);
        for (auto& e : o.errors)
            h = mc::mix(h, mc::hashStr(e));
        h = mc::mix(h, o.ret ? mc::hashStr(*o.ret) : 3);
        for (auto& e : o.calls)
            h = mc::mix(h, mc::hashStr(e) + 9);
        return mc::mix(h, cu::hash(o.input));
    }

    inline std::string arityError(std::string const& name, std::vector<size_t> const& counts, size_t got)
    {
        std::string e;
        for (size_t i = 0; i < counts.size(); i++)
            e += (i == 0 ? "" : i + 1 == counts.size() ? " or " : ", ") + std::to_string(counts[i]);
        return "Wrong number of arguments to '" + ref::cut(name) + "': expected " + e + ", got " + std::to_string(got);
    }

    inline Outcome expected(std::map<std::string, std::vector<Func>> const& model, ref::Input const& in)
    {
        Outcome o;
        if (in.error)
        {
            o.errors.push_back("Syntax error: " + *in.error);
            return o;
        }
        o.input = in;
        if (in.name.empty())
        {
            o.errors.push_back("No function name is specified");
            return o;
        }
        auto it = model.find(in.name);
        if (it == model.end())
        {
            o.errors.push_back("No function '" + ref::cut(in.name) + "' is registered");
            return o;
        }
        for (Func const& f : it->second)
        {
            if (f.params.size() != in.args.size())
                continue;
            std::string all;
            for (size_t i = 0; i < in.args.size(); i++)
            {
                ref::Conv c = f.params[i].conv(in.args[i]);
                if (!c.ok)
                    o.errors.push_back(c.error);
                all += c.canon + ",";
            }
            if (!o.errors.empty())
                return o;
            std::string call = f.id + "(" + all + ")";
            o.calls.push_back(call);
            if (f.context)
                o.output = f.id;
            if (f.ret == Ret::Arity)
                o.ret = std::to_string(in.args.size());
            else if (f.ret == Ret::Text)
                o.ret = call;
            return o;
        }
        std::vector<size_t> counts;
        for (Func const& f : it->second)
            counts.push_back(f.params.size());
        o.errors.push_back(arityError(in.name, counts, in.args.size()));
        return o;
    }

    inline Outcome observe(coil::ExecutionResult const& r)
    {
        Outcome o;
        o.errors = cu::errors(r);
        o.ret = cu::ret(r);
        o.output = cu::str(r.output);
        o.input = cu::fromCoil(r.input);
        o.calls = std::move(calls());
        calls().clear();
        return o;
    }

    inline bool same(Outcome const& a, Outcome const& b)
    {
        return a.errors == b.errors && a.ret == b.ret && a.output == b.output && a.calls == b.calls && cu::same(a.input, b.input);
    }

    inline void compare(Outcome const& want, Outcome const& have, std::string const& line)
    {
        MC_LOG("  -> %s", show(have).substr(0, 1500).c_str());
        uint64_t h = hash(want);
        mc::outcome(h);
        mc::state(mc::mix(h, mc::hashStr(line)));
        if (!same(want, have))
            mc::fail("executing %s (length %zu)\n  gives    %s\n  expected %s", mc::show(line.substr(0, 600)).c_str(), line.size(), show(have).substr(0, 2500).c_str(), show(want).substr(0, 2500).c_str());
    }

    inline void execute(Table& t, std::string const& line, ref::Syntax const& syntax = {})
    {
        MC_OP("execute %s", mc::show(line.substr(0, 600)).c_str());
        mc::transition(line.size());
        Outcome want = expected(t.model, ref::parse(syntax, line));
        calls().clear();
        Outcome have;
        {
            cu::Line l{line};
            coil::ExecutionResult r = t.bindings.execute(coil::StringView(l));
            have = observe(r);
        }
        compare(want, have, line);
    }
}
