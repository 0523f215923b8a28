// C24: every kind of callable can be bound and is described and called faithfully.
#include "c24.h"

namespace c24
{
    std::vector<std::string> calls;
    int result = 0;
    std::vector<Case>& cases()
    {
        static std::vector<Case>* v = new std::vector<Case>;
        return *v;
    }
}
using namespace c24;

namespace
{
    void prepare()
    {
        if (!cases().empty())
            return;
        addReturns();
        addLists();
        addMemberReturns();
        addMemberLists();
        // creates the samples and names that live as long as the program
        for (auto& c : cases())
        {
            coil::Bindings b;
            c.hand(0, &b, "x", nullptr);
            for (result = 0; result < 4; result++)
                for (size_t n = 0; n <= 4; n++)
                    b.execute(cu::view("x" + rep(" 1", n)));
        }
        result = 0;
        calls.clear();
    }

    void describe(coil::Bindings& b, std::string const& name, std::vector<Case const*> const& all)
    {
        auto* d = b.get(cu::view(name));
        MC_CHECK(d, "%s is not registered", name.c_str());
        MC_CHECK(cu::str(d->name) == name, "the description of %s has the name %s", name.c_str(), cu::str(d->name).c_str());
        MC_CHECK(d->functors.size() == all.size(), "%s has %zu overloads instead of %zu", name.c_str(), size_t(d->functors.size()), all.size());
        for (size_t k = 0; k < all.size(); k++)
        {
            auto& f = d->functors[k];
            auto& c = *all[k];
            MC_CHECK(f.arity() == c.params.size(), "%s has arity %zu instead of %zu", c.what.c_str(), size_t(f.arity()), c.params.size());
            MC_CHECK(f.parameterTypes().size() == c.params.size(), "%s has %zu parameter types", c.what.c_str(), size_t(f.parameterTypes().size()));
            for (size_t i = 0; i < c.params.size(); i++)
                MC_CHECK(cu::str(f.parameterTypes()[i]) == c.params[i].name, "parameter %zu of %s is described as %s instead of %s", i, c.what.c_str(), cu::str(f.parameterTypes()[i]).c_str(), c.params[i].name.c_str());
            MC_CHECK(cu::str(f.returnType()) == c.returnName, "the return type of %s is described as %s instead of %s", c.what.c_str(), cu::str(f.returnType()).c_str(), c.returnName.c_str());
        }
    }

    void execute(coil::Bindings& b, std::string const& name, std::vector<Case const*> const& all, std::string const& line)
    {
        ref::Input in = ref::parse({}, line);
        ip::Outcome want;
        want.input = in;
        Case const* c = nullptr;
        for (auto* k : all)
            if (!c && k->params.size() == in.args.size())
                c = k;
        if (!c)
        {
            std::vector<size_t> counts;
            for (auto* k : all)
                counts.push_back(k->params.size());
            want.errors.push_back(ip::arityError(name, counts, in.args.size()));
        }
        else
        {
            std::string args;
            for (size_t i = 0; i < in.args.size(); i++)
            {
                auto r = c->params[i].conv(in.args[i]);
                if (!r.ok)
                    want.errors.push_back(r.error);
                args += r.canon + ",";
            }
            if (want.errors.empty())
            {
                want.calls.push_back(c->self + "(" + args + ")");
                want.ret = c->results[size_t(result)];
                if (c->context)
                    want.output = "context " + std::to_string(in.named.size()) + ";";
            }
        }
        MC_OP("  execute %s", mc::show(line).c_str());
        calls.clear();
        ip::Outcome have;
        {
            cu::Line l{line};
            auto r = b.execute(coil::StringView(l));
            have.errors = cu::errors(r);
            have.ret = cu::ret(r);
            have.output = cu::str(r.output);
            have.input = cu::fromCoil(r.input);
            have.calls = std::move(calls);
            calls.clear();
        }
        uint64_t h = ip::hash(want);
        mc::outcome(h);
        mc::state(mc::mix(h, mc::hashStr(c ? c->what : line)));
        mc::validated();
        if (!ip::same(want, have))
            mc::fail("executing %s with %s\n  gives    %s\n  expected %s", mc::show(line).c_str(), c ? c->what.c_str() : "no such overload", ip::show(have).c_str(), ip::show(want).c_str());
    }

    void bindTo(coil::Bindings& b, std::string const& name, Case const& c, int way)
    {
        cu::Line l{name};
        coil::StringView n = l;
        switch (way)
        {
        case 0:
        case 1: c.hand(way, &b, n, nullptr); break;
        case 2:
        {
            coil::Vector<coil::AnyFunctor> v;
            c.hand(2, nullptr, n, &v);
            b[n] = coil::overloaded(std::move(v[0]));
            break;
        }
        default:
        {
            coil::Vector<coil::AnyFunctor> v, w;
            c.hand(2, nullptr, n, &w);
            coil::AnyFunctor g{std::move(w[0])};
            v.pushBack(std::move(g));
            b.add(n, std::move(v));
            break;
        }
        }
    }
    char const* const texts[] = {"1", "text", "(1 0)", "''", "'a text that is longer than small buffers'", "-1", "()"};
}

// every callable, bound in every way, with every argument text and every value to return
static void callables()
{
    prepare();
    Case const& c = cases()[size_t(mc::choose(int(cases().size())))];
    int way = mc::choose(4);
    result = mc::choose(4);
    MC_OP("%s, bound in way %d", c.what.c_str(), way);
    {
        coil::Bindings b;
        bindTo(b, "name", c, way);
        describe(b, "name", {&c});
        size_t n = c.params.size();
        std::string line = "name";
        if (result == 0)
            for (size_t i = 0; i < n; i++)
                line += std::string(" ") + texts[mc::choose(n > 2 ? 3 : 7)];
        else
            line += rep(" 1", n);
        if (mc::choose(2))
            line += " key=value 'other'=()";
        execute(b, "name", {&c}, line);
        execute(b, "name", {&c}, "name" + rep(" 1", n));
        execute(b, "name", {&c}, "name" + rep(" 1", n + 1));
        if (n)
            execute(b, "name", {&c}, "name" + rep(" 1", n - 1));
        describe(b, "name", {&c});
    }
    result = 0;
}

// pairs of callables as overloads, and bound over each other
static void pairs()
{
    prepare();
    static std::vector<Case const*> few = [] {
        std::vector<Case const*> v;
        // a representative of every kind, and one of every list
        std::map<std::string, int> seen;
        for (auto& c : cases())
        {
            std::string self = c.self + (c.context ? "c" : "") + std::to_string(c.params.size() > 1 ? 2 : c.params.size());
            std::string types;
            for (auto& p : c.params)
                types += p.name + ",";
            if (!seen[self]++ + !seen[types]++ + !seen["return " + c.returnName]++)
                v.push_back(&c);
        }
        return v;
    }();
    Case const* a = few[size_t(mc::choose(int(few.size())))];
    Case const* c = few[size_t(mc::choose(int(few.size())))];
    MC_OP("%s and %s", a->what.c_str(), c->what.c_str());
    {
        coil::Bindings b;
        bindTo(b, "first", *a, 0);
        bindTo(b, "second", *c, 1);
        coil::Vector<coil::AnyFunctor> v;
        a->hand(2, nullptr, "", &v);
        c->hand(2, nullptr, "", &v);
        b["both"] = coil::overloaded(std::move(v[0]), std::move(v[1]));
        describe(b, "first", {a});
        describe(b, "second", {c});
        describe(b, "both", {a, c});
        for (size_t n = 0; n <= 5; n++)
            execute(b, "both", {a, c}, "both" + rep(" 1", n));
        bindTo(b, "first", *c, 1);
        describe(b, "first", {c});
        execute(b, "first", {c}, "first" + rep(" 0", c->params.size()));
        execute(b, "second", {c}, "second" + rep(" 0", c->params.size()));
        b.remove("second");
        b.remove("both");
        describe(b, "first", {c});
        execute(b, "first", {c}, "first" + rep(" text", c->params.size()));
    }
}

// many callables in one table and as overloads of one name
static void many()
{
    prepare();
    size_t n = chooseLength(mc::asan() ? 30 : 90, 1100);
    if (n > cases().size())
        n = cases().size();
    bool overloads = mc::flip();
    size_t from = size_t(mc::choose(5)) * cases().size() / 5;
    MC_OP("%zu callables %s", n, overloads ? "as overloads" : "as commands");
    {
        coil::Bindings b;
        std::vector<Case const*> all;
        coil::Vector<coil::AnyFunctor> v;
        for (size_t i = 0; i < n; i++)
        {
            Case const& c = cases()[(from + i * 7) % cases().size()];
            all.push_back(&c);
            if (overloads)
                c.hand(2, nullptr, "", &v);
            else
                bindTo(b, "name" + std::to_string(i), c, int(i % 4));
        }
        if (overloads)
        {
            if (n == 0)
                return;
            b["name"] = std::move(v);
            describe(b, "name", all);
            for (size_t k = 0; k < 6; k++)
                execute(b, "name", all, "name" + rep(" 1", k));
        }
        else
            for (size_t i = 0; i < n; i++)
            {
                std::string name = "name" + std::to_string(i);
                describe(b, name, {all[i]});
                execute(b, name, {all[i]}, name + rep(" 1", all[i]->params.size()));
            }
    }
}

MC_MAIN({"callables", callables}, {"pairs", pairs}, {"many", many})
