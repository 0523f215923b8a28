// C05: a call runs exactly the overload whose arity matches, or explains why none does.
#include "interp.h"

namespace
{
    using F = coil::Vector<coil::AnyFunctor>;
    using M = std::vector<ip::Func>;
    using S = std::string;

    // one overload of the given arity; flavours differ in parameter types and context
    void make(F& fs, M& m, int arity, int flavour, std::string const& id)
    {
        switch (arity * 2 + flavour)
        {
        case 0: return ip::overload<S, false>(fs, m, id);
        case 1: return ip::overload<S, true>(fs, m, id);
        case 2: return ip::overload<S, false, int>(fs, m, id);
        case 3: return ip::overload<S, true, S>(fs, m, id);
        case 4: return ip::overload<S, false, S, S>(fs, m, id);
        case 5: return ip::overload<S, true, int, S>(fs, m, id);
        case 6: return ip::overload<S, false, S, coil::Value, S>(fs, m, id);
        case 7: return ip::overload<S, true, S, S, int>(fs, m, id);
        case 8: return ip::overload<void, false, S, S, S, S>(fs, m, id);
        case 9: return ip::overload<void, true, S, S, S, S>(fs, m, id);
        case 10: return ip::overload<int, false, S, S, S, S, S>(fs, m, id);
        default: return ip::overload<int, true, S, S, S, S, S>(fs, m, id);
        }
    }

    void attach(ip::Table& t, std::string const& name, F fs, M const& m, int way)
    {
        switch (way)
        {
        case 0: t.bindings[cu::view(name)] = std::move(fs); break;
        default: t.bindings.add(cu::view(name), std::move(fs)); break;
        }
        t.model[name] = m;
    }

    std::string line(std::string const& name, int args, int named, int style)
    {
        static char const* const texts[] = {"1", "x", "()", "22", "(a b)", "''", "7"};
        std::string l = name;
        for (int i = 0; i < args || i < named; i++)
        {
            if (i < named)
                l += " n" + std::to_string(i) + "=" + std::to_string(i);
            if (i < args)
                l += std::string(" ") + (style == 0 ? "1" : style == 1 ? texts[i % 7] : "x");
        }
        return l;
    }
}

// every list of overloads, called with every number of arguments
static void lists()
{
    ip::Table t;
    F fs;
    M m;
    int maxArity = mc::thorough() ? 6 : 5;
    int count = mc::choose((mc::thorough() ? 6 : mc::asan() ? 4 : 5) + 1);
    for (int i = 0; i < count; i++)
    {
        int arity = mc::choose(maxArity);
        make(fs, m, arity, count <= 3 ? mc::choose(2) : (i + arity) % 2, "o" + std::to_string(i));
    }
    std::string desc;
    for (auto& f : m)
        desc += f.id + "/" + std::to_string(f.params.size()) + (f.context ? "c " : " ");
    MC_LOG("overloads of f: %s", desc.c_str());
    attach(t, "f", std::move(fs), m, count % 2);
    auto* cmd = t.bindings.get("f");
    MC_CHECK(cmd && cmd->functors.size() == size_t(count), "the command has %zu functions, %d were added", cmd ? cmd->functors.size() : size_t(0), count);
    for (int args = 0; args <= maxArity + 1; args++)
        for (int style = 0; style < 3; style++)
        {
            ip::execute(t, line("f", args, (args + style) % 3, style));
            mc::validated();
        }
}

// exact names: several commands with related names
static void names()
{
    static std::string const names[] = {"f", "F", "ff", "f ", "f.g", std::string("f\0g", 3), "\xC3\xBC", "ab", "bA", "f\t"};
    ip::Table t;
    bool present[10];
    for (int i = 0; i < 10; i++)
    {
        present[i] = mc::flip();
        if (!present[i])
            continue;
        F fs;
        M m;
        make(fs, m, i % 3, i % 2, "c" + std::to_string(i));
        attach(t, names[i], std::move(fs), m, i % 2);
    }
    static std::string const asked[] = {"f", "F", "ff", "'f '", "f.g", "'f\\0g'", "\xC3\xBC", "ab", "bA", "'f\t'", "g", "''", "fff", "\"\"", "Ff", "\xC3", "f.", "'F '"};
    for (auto const& a : asked)
        for (int args = 0; args < 3; args++)
        {
            std::string l = a == "'f\\0g'" ? std::string("'f\0g'", 5) : a;
            for (int i = 0; i < args; i++)
                l += " 1";
            ip::execute(t, l);
            mc::validated();
        }
}

// one name, replaced by other lists again and again
static void replaced()
{
    ip::Table t;
    int steps = mc::thorough() ? 5 : 4;
    for (int i = 0; i < steps; i++)
    {
        F fs;
        M m;
        int what = mc::choose(7);
        std::string id = "v" + std::to_string(i);
        switch (what)
        {
        case 0: make(fs, m, 0, 0, id); break;
        case 1: make(fs, m, 2, 1, id); break;
        case 2: make(fs, m, 1, 0, id); make(fs, m, 0, 1, id + "b"); break;
        case 3: make(fs, m, 2, 0, id); make(fs, m, 2, 1, id + "b"); make(fs, m, 1, 1, id + "c"); break;
        case 4: break; // no function at all
        case 5:
            t.bindings["f"] = nullptr;
            t.model.erase("f");
            break;
        case 6:
            t.bindings.clear();
            t.model.clear();
            break;
        }
        if (what < 5)
            attach(t, "f", std::move(fs), m, mc::choose(2));
        for (int args = 0; args < 4; args++)
            ip::execute(t, line("f", args, 0, 0));
    }
}

// many overloads, large arities, many arguments, long names
static void sizes()
{
    ip::Table t;
    int kind = mc::choose(4);
    size_t n = chooseLength(mc::thorough() ? 400 : 130, kind >= 2 ? 70000 : mc::asan() ? 1100 : 5000);
    F fs;
    M m;
    std::string name = kind == 3 ? text(n) : "f";
    if (kind == 0)
        for (size_t i = 0; i < n; i++) // the last one is the only one that takes an argument
            make(fs, m, i + 1 == n ? 1 : int(2 + i % 4), int(i % 2), "o" + std::to_string(i));
    else if (kind == 1)
        for (size_t i = 0; i < n; i++)
            make(fs, m, int(i % 6), int(i % 2), "o" + std::to_string(i));
    else
    {
        ip::overload<S, true, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int>(fs, m, "sixteen");
        make(fs, m, 1, 0, "one");
    }
    attach(t, name, std::move(fs), m, int(n % 2));
    if (kind == 2)
        ip::execute(t, line(name, int(n), 0, 0));
    else
        for (int args = 0; args < 7; args++)
            ip::execute(t, line(name, args, args % 2, 0));
}

// functions given one by one, by overloaded() and mixed with ready-made functors
static void registration()
{
    ip::Table t;
    auto& calls = ip::calls();
    int way = mc::choose(6);
    auto zero = [&calls] { calls.push_back("z()"); };
    auto one = [&calls](int v) { calls.push_back("o(" + std::to_string(v) + ",)"); };
    auto two = [&calls](int v, std::string s) { calls.push_back("t(" + std::to_string(v) + "," + mc::show(s) + ",)"); };
    ip::Func z{"z", {}, ip::Ret::Void, false}, o{"o", {{"", &ref::Type<int>::conv}}, ip::Ret::Void, false}, w{"t", {{"", &ref::Type<int>::conv}, {"", &ref::Type<std::string>::conv}}, ip::Ret::Void, false};
    switch (way)
    {
    case 0: t.bindings["f"] = zero; t.model["f"] = {z}; break;
    case 1: t.bindings.add("f", one); t.model["f"] = {o}; break;
    case 2: t.bindings["f"] = coil::overloaded(two, zero); t.model["f"] = {w, z}; break;
    case 3: t.bindings.add("f", coil::overloaded(one, two, zero)); t.model["f"] = {o, w, z}; break;
    case 4: t.bindings["f"] = coil::overloaded(coil::detail::createAnyFunctor(two), one); t.model["f"] = {w, o}; break;
    case 5: t.bindings["f"] = coil::detail::createAnyFunctor(one); t.model["f"] = {o}; break;
    }
    for (int i = 0; i < 2; i++)
    {
        int args = mc::choose(4);
        ip::execute(t, line("f", args, mc::choose(2), mc::choose(3)));
    }
}

// odd names and odd arguments
static void oddNames()
{
    std::string const& name = oddWord();
    std::string const& arg = oddWord();
    if (!quotable(name) || !quotable(arg))
        return;
    ip::Table t;
    F fs;
    M m;
    ip::overload<S, true, S>(fs, m, "one");
    ip::overload<S, false>(fs, m, "none");
    ip::overload<int, true, S, S, S>(fs, m, "three");
    attach(t, name, std::move(fs), m, mc::choose(2));
    ip::execute(t, "'" + name + "' '" + arg + "'");
    ip::execute(t, "'" + name + "' '" + arg + "' x");
    ip::execute(t, "'" + name + "'");
    ip::execute(t, "'" + arg + "'");
    ip::execute(t, "'" + name + "x' '" + arg + "'");
}

MC_MAIN({"overload_lists", lists}, {"odd_names", oddNames}, {"names", names}, {"replaced", replaced}, {"sizes", sizes}, {"registration", registration})
