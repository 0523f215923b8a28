// C08: the command table behaves as a map from names to functions at every moment.
#include "interp.h"

#include <utility>

namespace
{
    using F = coil::Vector<coil::AnyFunctor>;
    using M = std::vector<ip::Func>;
    using S = std::string;

    struct Registry
    {
        std::unique_ptr<coil::Bindings> bindings{new coil::Bindings};
        std::map<std::string, M> model;
    };

    // variant decides the signature, version makes every registration distinguishable
    void make(F& fs, M& m, int variant, std::string const& id)
    {
        switch (variant)
        {
        case 0: ip::overload<S, false>(fs, m, id); break;
        case 1: ip::overload<int, true, int>(fs, m, id); break;
        case 2: ip::overload<void, true, S, bool>(fs, m, id); ip::overload<S, false>(fs, m, id + "b"); break;
        default: ip::overload<S, true, coil::Value>(fs, m, id); ip::overload<S, false, int, double, std::vector<int>>(fs, m, id + "b"); ip::overload<S, true>(fs, m, id + "c"); break;
        }
    }

    std::string retName(ip::Func const& f) { return f.ret == ip::Ret::Void ? "void" : f.ret == ip::Ret::Arity ? ref::intName<int>() : "string"; }

    void checkCommand(coil::Bindings::Command const& c, std::string const& name, M const& m)
    {
        MC_CHECK(cu::str(c.name) == name, "the command registered as %s says its name is %s", mc::show(name).c_str(), mc::show(cu::str(c.name)).c_str());
        MC_CHECK(c.functors.size() == m.size(), "command %s has %zu functions instead of %zu", mc::show(name).c_str(), c.functors.size(), m.size());
        for (size_t i = 0; i < m.size(); i++)
        {
            MC_CHECK(c.functors[i].arity() == m[i].params.size(), "command %s function %zu: arity %zu instead of %zu", mc::show(name).c_str(), i, c.functors[i].arity(), m[i].params.size());
            MC_CHECK(cu::str(c.functors[i].returnType()) == retName(m[i]), "command %s function %zu: return type %s instead of %s", mc::show(name).c_str(), i, cu::str(c.functors[i].returnType()).c_str(), retName(m[i]).c_str());
            auto const& types = c.functors[i].parameterTypes();
            MC_CHECK(types.size() == m[i].params.size(), "command %s function %zu: %zu parameter types", mc::show(name).c_str(), i, types.size());
            for (size_t j = 0; j < types.size(); j++)
                MC_CHECK(cu::str(types[j]) == m[i].params[j].name, "command %s function %zu parameter %zu: type %s instead of %s", mc::show(name).c_str(), i, j, cu::str(types[j]).c_str(), m[i].params[j].name.c_str());
        }
    }

    // the name is handed over in a buffer that dies right after the call
    void add(Registry& r, std::string const& name, int variant, int way, std::string const& id)
    {
        F fs;
        M m;
        make(fs, m, variant, id);
        MC_OP("add %s variant %d way %d (%s)", mc::show(name).c_str(), variant, way, id.c_str());
        {
            cu::Line n{name};
            switch (way)
            {
            case 0: (*r.bindings)[n] = std::move(fs); break;
            case 1: checkCommand(r.bindings->add(n, std::move(fs)), name, m); break;
            default:
            {
                M mm;
                F one;
                ip::overload<S, false, S>(one, mm, id);
                m = mm;
                auto f = [id](S a) -> S { return ip::act<S>(id, a); };
                if (way == 2)
                    (*r.bindings)[n] = f;
                else
                    checkCommand(r.bindings->add(n, f), name, m);
            }
            }
        }
        r.model[name] = m;
    }

    void remove(Registry& r, std::string const& name, int way)
    {
        MC_OP("remove %s way %d", mc::show(name).c_str(), way);
        {
            cu::Line n{name};
            if (way)
                (*r.bindings)[n] = nullptr;
            else
                r.bindings->remove(n);
        }
        r.model.erase(name);
    }

    void lookups(Registry const& r, std::string const* names, int count)
    {
        for (int i = 0; i < count; i++)
        {
            cu::Line n{names[i]};
            coil::Bindings::Command const* c = r.bindings->get(n);
            auto it = r.model.find(names[i]);
            if (it == r.model.end())
                MC_CHECK(!c, "%s is found although it is not registered", mc::show(names[i]).c_str());
            else
            {
                MC_CHECK(c, "%s is not found although it is registered", mc::show(names[i]).c_str());
                checkCommand(*c, names[i], it->second);
            }
        }
    }

    void executions(Registry& r, std::string const* names, int count)
    {
        static char const* const args[] = {"", " 1", " x true", " 1 2 (3 4)"};
        for (int i = 0; i < count; i++)
            for (auto a : args)
            {
                std::string line = "'" + names[i] + "'" + a;
                ip::Outcome want = ip::expected(r.model, ref::parse(ref::Syntax{}, line)), have;
                ip::calls().clear();
                {
                    cu::Line l{line};
                    coil::ExecutionResult res = r.bindings->execute(coil::StringView(l));
                    have = ip::observe(res);
                }
                if (!ip::same(want, have))
                    mc::fail("executing %s\n  gives    %s\n  expected %s", mc::show(line).c_str(), ip::show(have).c_str(), ip::show(want).c_str());
                mc::validated();
            }
    }

    uint64_t stateHash(Registry const& r)
    {
        uint64_t h = 1;
        for (auto& [k, v] : r.model)
        {
            h = mc::mix(h, mc::hashStr(k));
            for (auto& f : v)
                h = mc::mix(h, mc::hashStr(f.id));
        }
        return h;
    }

    // "ab" and "bA" have the same hash, "a" is a prefix, "" is a name too
    std::string const names[] = {"ab", "bA", "a", "", "AB", "a b", "\xE9", "abab"};
}

// every history of operations
static void histories()
{
    Registry r;
    bool big = mc::thorough();
    int depth = big ? (mc::asan() ? 5 : 6) : (mc::asan() ? 4 : 5);
    int nameCount = 3;
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(nameCount * 3 + 3);
        std::string id = "v" + std::to_string(i);
        if (op == 0)
            break;
        op--;
        if (op < nameCount * 2)
            add(r, names[op % nameCount], (op + i) % 4, (op / nameCount) * 2 + i % 2, id);
        else if (op < nameCount * 3)
            remove(r, names[op % nameCount], i % 2);
        else if (op == nameCount * 3)
        {
            MC_OP("clear");
            r.bindings->clear();
            r.model.clear();
        }
        else
        {
            MC_OP("move into new bindings, destroy the old");
            auto fresh = std::make_unique<coil::Bindings>(std::move(*r.bindings));
            r.bindings = std::move(fresh);
        }
        lookups(r, names, nameCount + 1);
        mc::state(stateHash(r));
    }
    executions(r, names, nameCount);
    mc::outcome(stateHash(r));
}

// names come and go: each step toggles one of several names, from tables of any initial size
static void toggles()
{
    Registry r;
    int nameCount = mc::thorough() ? 7 : 6;
    int preload = mc::choose(mc::thorough() ? 12 : 5);
    static int const sizes[] = {0, 1, 2, 5, 9, 3, 4, 7, 8, 15, 16, 17};
    std::vector<std::string> all(names, names + nameCount);
    for (int i = 0; i < sizes[preload]; i++)
    {
        std::string n = "extra" + std::to_string(i);
        add(r, n, i % 3, i % 2, "e" + std::to_string(i));
        all.push_back(n);
    }
    int depth = (mc::asan() ? 4 : preload == 0 ? 6 : 5) + (mc::thorough() ? 1 : 0);
    int n = nameCount + (preload ? 1 : 0);
    for (int i = 0; i < depth; i++)
    {
        int k = mc::choose(n + 1);
        if (k == n)
            break;
        std::string name = k < nameCount ? names[k] : "extra0";
        if (r.model.count(name))
            remove(r, name, i % 2);
        else
            add(r, name, (k + i) % 4, i % 4, "v" + std::to_string(i));
        lookups(r, all.data(), int(all.size()));
        mc::state(stateHash(r));
    }
    executions(r, all.data(), int(all.size()));
    mc::outcome(stateHash(r));
}

// every order of removing a set of names, with the table refilled in between
static void removalOrders()
{
    Registry r;
    int n = mc::thorough() ? 7 : mc::asan() ? 5 : 6;
    std::vector<std::string> left(names, names + n);
    bool colliding = mc::flip();
    if (colliding) // all of these share one djb2 hash: pairs of "ab" / "bA"
    {
        left.clear();
        for (int i = 0; i < n; i++)
            left.push_back(std::string(i & 1 ? "bA" : "ab") + (i & 2 ? "bA" : "ab") + (i & 4 ? "bA" : "ab"));
    }
    std::vector<std::string> all = left;
    for (int i = 0; i < n; i++)
        add(r, all[size_t(i)], i % 4, i % 4, "v" + std::to_string(i));
    int readd = mc::choose(n + 1);
    for (int i = 0; !left.empty(); i++)
    {
        size_t k = size_t(mc::choose(int(left.size())));
        remove(r, left[k], i % 2);
        left.erase(left.begin() + long(k));
        if (i == readd)
            add(r, "again", 1, 0, "again");
        lookups(r, all.data(), n);
    }
    executions(r, all.data(), n);
    mc::outcome(stateHash(r));
    mc::state(stateHash(r));
}

// bindings moved around between two owners
static void moves()
{
    Registry a, b;
    int depth = mc::thorough() ? 5 : 4;
    for (int i = 0; i < depth; i++)
    {
        std::string id = "v" + std::to_string(i);
        switch (mc::choose(8))
        {
        case 0: add(a, "ab", i % 4, i % 4, id); break;
        case 1: add(a, "bA", i % 4, i % 4, id); break;
        case 2: add(b, "ab", i % 4, i % 4, id); break;
        case 3: remove(a, "ab", i % 2); break;
        case 4:
            MC_OP("b = move(a), a is new");
            *b.bindings = std::move(*a.bindings);
            a.bindings.reset(new coil::Bindings);
            b.model = a.model;
            a.model.clear();
            break;
        case 5:
            MC_OP("a = move(new bindings with one command)");
            {
                Registry fresh;
                add(fresh, "a", 1, 1, id);
                *a.bindings = std::move(*fresh.bindings);
                a.model = fresh.model;
            }
            break;
        case 6:
            MC_OP("swap a and b through a temporary");
            {
                coil::Bindings t{std::move(*a.bindings)};
                *a.bindings = std::move(*b.bindings);
                *b.bindings = std::move(t);
                std::swap(a.model, b.model);
            }
            break;
        case 7:
            MC_OP("clear b");
            b.bindings->clear();
            b.model.clear();
            break;
        }
        lookups(a, names, 4);
        lookups(b, names, 4);
        mc::state(mc::mix(stateHash(a), stateHash(b)));
    }
    executions(a, names, 4);
    executions(b, names, 4);
    mc::outcome(mc::mix(stateHash(a), stateHash(b)));
}

// tables of every size, then pieces removed in several orders
static void sizes()
{
    Registry r;
    size_t n = chooseLength(mc::thorough() ? 300 : mc::asan() ? 70 : 140, mc::asan() ? 300 : 2100);
    int order = mc::choose(8);
    std::vector<std::string> all;
    for (size_t i = 0; i < n; i++)
    {
        all.push_back((i % 3 ? "name" : "n") + std::to_string(i * 7919 % 10007) + (i % 5 ? "" : std::string(i % 64, '_')));
        add(r, all.back(), int(i % 4), int(i % 4), "v" + std::to_string(i));
    }
    lookups(r, all.data(), int(n));
    if (order >= 6) // emptied at once, then some come back
    {
        if (order == 6)
        {
            MC_OP("clear");
            r.bindings->clear();
        }
        else
        {
            MC_OP("replaced by new bindings");
            *r.bindings = coil::Bindings{};
        }
        r.model.clear();
        lookups(r, all.data(), int(n));
        for (size_t i = 0; i < n; i += 3)
            add(r, all[n - 1 - i], int(i % 4), 1, "back" + std::to_string(i));
        lookups(r, all.data(), int(n));
    }
    for (size_t step = 0; step < n; step++)
    {
        size_t i = order == 0 ? step : order == 1 ? n - 1 - step : order == 2 ? (step % 2 ? step / 2 : n - 1 - step / 2) : step * 3 % n;
        if (order == 4 && i % 2)
            continue;
        if (order == 5)
            add(r, all[i], int(step % 4), 1, "w" + std::to_string(step)); // replaced instead of removed
        else
            remove(r, all[i], int(step % 2));
        if (n <= 140 ? step % 8 == 0 || n < 20 : step % (n / 4) == 0)
            lookups(r, all.data(), int(n));
    }
    lookups(r, all.data(), int(n));
    if (n)
        executions(r, all.data(), int(n < 40 ? n : 40));
    add(r, "final", 1, 1, "final");
    std::string f = "final";
    lookups(r, &f, 1);
    mc::outcome(stateHash(r));
    mc::state(stateHash(r));
}

// names of every length that differ in one place or by one character in length
static void longNames()
{
    Registry r;
    size_t n = 1 + chooseLength(mc::asan() ? 10 : 70, mc::asan() ? 1100 : 70000);
    size_t const places[] = {0, n - 1, n / 2, 1, 7, 15, 16, 31, 63, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536};
    size_t at = places[mc::choose(22)];
    if (at >= n)
        return;
    int what = mc::choose(3); // another character, one that differs in its top bit only, or another length
    std::string a = text(n), b = a;
    for (char& c : a)
        c = c == '\'' || c == '"' ? 'q' : c;
    b = a;
    if (what == 0)
        b[at] = b[at] == 'x' ? 'y' : 'x';
    else if (what == 1)
        b[at] = char(b[at] ^ 0x80);
    else
        b.erase(at, 1);
    MC_OP("two names of %zu characters, difference %d at %zu", n, what, at);
    std::string const both[] = {a, b};
    add(r, a, 0, 1, "first");
    lookups(r, both, 2);
    if (a == b)
        return;
    add(r, b, 1, 1, "second");
    lookups(r, both, 2);
    executions(r, both, 2);
    remove(r, a, int(at % 2));
    lookups(r, both, 2);
    executions(r, both, 2);
    add(r, b, 3, 0, "third");
    lookups(r, both, 2);
    mc::state(stateHash(r));
    mc::outcome(stateHash(r));
}

// names that are read from the table itself are as good as any others
static void borrowed()
{
    Registry r;
    static std::string const all[] = {"ab", "bA", std::string("a\0b", 3), "a"};
    bool colliding = mc::flip();
    std::string const few[] = {all[0], all[colliding ? 1 : 2], all[3]};
    int const count = 3;
    int depth = (mc::asan() ? 4 : 5) + (mc::thorough() ? 1 : 0);
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(count * 5 + 1);
        if (op == count * 5)
            break;
        std::string const& name = few[op % count];
        std::string id = "v" + std::to_string(i);
        coil::Bindings::Command const* c = r.bindings->get(cu::Line{name});
        MC_CHECK(bool(c) == (r.model.count(name) == 1), "%s is %sfound", mc::show(name).c_str(), c ? "" : "not ");
        if (!c || op < count)
        {
            add(r, name, (op + i) % 4, i % 4, id);
            continue;
        }
        F fs;
        M m;
        make(fs, m, (op + i) % 4, id);
        switch (op / count)
        {
        case 1: MC_OP("remove(get(%s)->name)", mc::show(name).c_str()); r.bindings->remove(c->name); r.model.erase(name); break;
        case 2: MC_OP("[get(%s)->name] = nullptr", mc::show(name).c_str()); (*r.bindings)[c->name] = nullptr; r.model.erase(name); break;
        case 3: MC_OP("add(get(%s)->name)", mc::show(name).c_str()); checkCommand(r.bindings->add(c->name, std::move(fs)), name, m); r.model[name] = m; break;
        case 4:
        {
            MC_OP("[get(%s)->name] = other functions", mc::show(name).c_str());
            (*r.bindings)[c->name] = std::move(fs);
            r.model[name] = m;
            coil::Bindings::Command const* found = r.bindings->get(r.bindings->get(cu::Line{name})->name);
            MC_CHECK(found, "%s is not found by its own name", mc::show(name).c_str());
            checkCommand(*found, name, m);
            break;
        }
        }
        lookups(r, few, count);
        mc::state(stateHash(r));
    }
    lookups(r, few, count);
    for (auto& n : few)
        if (coil::Bindings::Command const* c = r.bindings->get(cu::Line{n}))
        {
            ip::calls().clear();
            coil::ExecutionInput in;
            in.name = c->name;
            coil::ExecutionResult res = r.bindings->execute(std::move(in));
            ref::Input want;
            want.name = n;
            ip::Outcome w = ip::expected(r.model, want), h = ip::observe(res);
            if (!ip::same(w, h))
                mc::fail("executing %s by its own name\n  gives    %s\n  expected %s", mc::show(n).c_str(), ip::show(h).c_str(), ip::show(w).c_str());
            mc::validated();
        }
    executions(r, few, 2);
    mc::outcome(stateHash(r));
}

static void executeAsData(Registry& r, std::string const& name, char const* arg)
{
    ref::Input input;
    input.name = name;
    coil::ExecutionInput in;
    cu::Line n{name};
    in.name = n;
    coil::StringView argument{arg};
    if (*arg)
    {
        input.args.push_back({arg});
        in.arguments.pushBack(coil::Value{argument});
    }
    ip::calls().clear();
    ip::Outcome want = ip::expected(r.model, input);
    coil::ExecutionResult res = r.bindings->execute(std::move(in));
    ip::Outcome have = ip::observe(res);
    for (auto* e : {&want, &have})
        for (auto& text : e->errors)
            if (size_t zero = text.find('\0'); zero != std::string::npos || name.find('\0') != std::string::npos)
                text = "error";
    if (!ip::same(want, have))
        mc::fail("executing %s %s as data\n  gives    %s\n  expected %s", mc::show(name).c_str(), arg, ip::show(have).c_str(), ip::show(want).c_str());
    mc::validated();
}

// no name means anything but itself: all pairs of strange names, in tables of several sizes
static void oddNames()
{
    auto const& words = oddWords();
    int n = int(words.size());
    int a = mc::choose(n);
    int extra = mc::choose(mc::thorough() ? 6 : 4);
    static int const sizes[] = {0, 6, 13, 29, 60, 130};
    Registry r;
    std::string const& first = words[size_t(a)];
    for (int i = 0; i < sizes[extra]; i++)
        add(r, "extra " + std::to_string(i), 0, 0, "e" + std::to_string(i));
    add(r, first, 1, 1, "first");
    for (int b = 0; b < n; b++)
    {
        std::string const& second = words[size_t(b)];
        std::string const both[] = {first, second};
        lookups(r, both, 2);
        executeAsData(r, second, "");
        executeAsData(r, second, "12");
        if (a == b)
            continue;
        add(r, second, 0, b % 2, "second");
        lookups(r, both, 2);
        executeAsData(r, second, "");
        executeAsData(r, first, "7");
        remove(r, second, b % 2);
        lookups(r, both, 2);
    }
    remove(r, first, a % 2);
    lookups(r, &first, 1);
    mc::outcome(mc::mix(uint64_t(a), uint64_t(extra)));
    mc::state(mc::mix(uint64_t(a), uint64_t(extra)));
}

// all of them at once
static void oddTable()
{
    auto const& words = oddWords();
    Registry r;
    int order = mc::choose(4);
    int n = int(words.size());
    auto at = [&](int i) -> std::string const& { return words[size_t(order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? i * 7 % n : (i * 5 + 3) % n)]; };
    for (int i = 0; i < n; i++)
        add(r, at(i), i % 4, i % 4, "w" + std::to_string(i));
    for (int i = 0; i < n; i++)
    {
        executeAsData(r, at(i), "");
        executeAsData(r, at(i), "12");
    }
    for (int i = 0; i < n; i++)
    {
        if (i % 8 == 0)
            lookups(r, words.data(), n);
        remove(r, at(n - 1 - i), i % 2);
    }
    lookups(r, words.data(), n);
    mc::outcome(uint64_t(order));
    mc::state(stateHash(r) + uint64_t(order));
}

MC_MAIN({"histories", histories}, {"long_names", longNames}, {"toggles", toggles}, {"removal_orders", removalOrders}, {"moves", moves}, {"sizes", sizes}, {"borrowed", borrowed}, {"odd_names", oddNames}, {"odd_table", oddTable})
