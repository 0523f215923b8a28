// C22: running out of memory at any point neither leaks nor corrupts.
// Every allocation made by the library (and by the standard library on its behalf) is a choice point.
#include "cu.h"
#include "interp.h"
#include "lexcheck.h"
#include "tracked.h"

#include <deque>
#include <map>
#include <new>

namespace
{
    int depthOf(int asanQuick, int relQuick, int asanThorough, int relThorough) { return mc::thorough() ? (mc::asan() ? asanThorough : relThorough) : (mc::asan() ? asanQuick : relQuick); }

    // runs fn while any one allocation may fail; true when it threw the out-of-memory exception
    bool warming = false; // nothing fails
    template<typename F>
    bool outOfMemory(F&& fn, int failures = 1)
    {
        bool threw = false;
        mc::failAnywhere(warming ? 0 : failures);
        try
        {
            fn();
        }
        catch (std::bad_alloc const&)
        {
            threw = true;
        }
        bool fired = mc::allocationFailed();
        mc::failAllocation(-1);
        if (threw)
        {
            MC_CHECK(fired, "the out-of-memory exception was thrown although no allocation failed");
            MC_LOG("    an allocation failed, std::bad_alloc");
        }
        else if (fired)
            MC_LOG("    an allocation failed, no exception");
        return threw;
    }

    std::string const caught = "Exception caught during execution: std::bad_alloc";
    constexpr bool catching = COIL_CONFIG_CATCH_EXCEPTIONS;

    // what the functions of the table did; written without counting as allocations of the library
    std::vector<std::string> calls;
    bool probing = false;

    struct Function
    {
        int version;
        Tracked owned;
        std::unique_ptr<std::string> text;

        explicit Function(int v) : version(v), owned(v), text(std::make_unique<std::string>("text owned by version " + std::to_string(v))) {}
        Function(Function&&) = default;
        Function(Function const&) = delete;

        template<typename... Ts>
        void called(Ts const&... args)
        {
            mc::NoFault nf;
            MC_CHECK(owned.get() == version && *text == "text owned by version " + std::to_string(version), "the captured state of version %d is damaged", version);
            std::string c = "v" + std::to_string(version) + "(";
            ((c += ref::Type<Ts>::canon(args) + ","), ...);
            calls.push_back(c + ")");
        }
    };

    struct Object
    {
        int value = 1;
        int add(int n) { return value += n; }
        int get() const { return value; }
        void set(int const& v) { value = v; }
    };

    struct World
    {
        std::string storage = "stored text that is not short";
        Object object;
        coil::Bindings bindings;
    };

    // the functions a name can be bound to
    enum Kind { None, Plain, Overloads, Lists, Talker, Var, Prop, Method, kindCount };
    struct Bound
    {
        Kind kind = None;
        int version = 0;
        bool operator==(Bound const& r) const { return kind == r.kind && version == r.version; }
    };
    struct Model
    {
        std::map<std::string, Bound> names;
        bool customLexer = false;
        bool operator==(Model const& r) const { return names == r.names && customLexer == r.customLexer; }
    };

    template<typename R, typename... Ts>
    auto plain(int v)
    {
        mc::NoFault nf;
        return [f = Function(v)](Ts... args) mutable -> R {
            f.called(args...);
            if constexpr (std::is_same_v<R, int>)
                return f.version;
            else if constexpr (std::is_same_v<R, coil::String>)
                return coil::String{"a string returned by the function"};
            else
            {
                mc::NoFault nf;
                R r;
                r.emplace_back(1);
                r.emplace_back(22);
                return r;
            }
        };
    }

    auto talker(int v)
    {
        mc::NoFault nf;
        return [f = Function(v)](coil::Context c, coil::StringView s) mutable -> std::string {
            f.called(s);
            if (probing)
                return {};
            c.log("first ");
            c.loglinef("%s %d", "formatted", 123456);
            auto named = c.namedArgs();
            auto k = named.getOrReport<coil::String>("key", coil::NamedArgs::ArgType::Required);
            if (k)
                c.logline(*k);
            auto n = named.getOrReport<int>("num", coil::NamedArgs::ArgType::Optional, 5);
            if (n)
                c.logf("%d;", *n);
            c.log(coil::String{s});
            if (s == "bad")
                c.reportErrors("one reported error", "another reported error");
            mc::NoFault nf;
            return "the text that is returned";
        };
    }

    std::vector<int> arities(Kind k)
    {
        switch (k)
        {
        case Plain: return {0};
        case Overloads: return {0, 1, 2};
        case Lists: return {2};
        case Talker: return {1};
        case Var:
        case Prop: return {0, 1};
        case Method: return {1};
        default: return {};
        }
    }

    void bind(World& w, coil::StringView name, Bound b, int way)
    {
        auto& t = w.bindings;
        int v = b.version;
        switch (b.kind)
        {
        case Plain:
            if (way == 0)
                t.add(name, plain<int>(v));
            else if (way == 1)
                t[name] = plain<int>(v);
            else
                t.add(name, coil::overloaded(plain<int>(v)));
            break;
        case Overloads:
            if (way == 0)
                t.add(name, coil::overloaded(plain<int>(v), plain<coil::String, coil::String>(v), plain<int, int, bool>(v)));
            else
                t[name] = coil::overloaded(plain<int>(v), plain<coil::String, coil::String>(v), plain<int, int, bool>(v));
            break;
        case Lists:
            if (way == 0)
                t.add(name, plain<std::vector<int>, std::vector<int>, std::optional<double>>(v));
            else
                t[name] = plain<std::vector<int>, std::vector<int>, std::optional<double>>(v);
            break;
        case Talker:
            if (way == 0)
                t.add(name, talker(v));
            else
                t[name] = talker(v);
            break;
        case Var: t[name] = coil::variable(&w.storage); break;
        case Prop:
        {
            Object* o = &w.object;
            t[name] = coil::bindProperty(&Object::get, &Object::set, o);
            break;
        }
        case Method: t[name] = coil::bind(&Object::add, &w.object); break;
        default: t[name] = nullptr; break;
        }
    }

    // the table is exactly the model: descriptions, and which function each arity calls
    bool matches(World& w, Model const& m, std::vector<std::string> const& names, std::string* why = nullptr)
    {
        auto differs = [&](std::string const& s) {
            if (why)
                *why = s;
            return false;
        };
        bool all = true;
        probing = true;
        for (auto& name : names)
        {
            auto it = m.names.find(name);
            Bound b = it == m.names.end() ? Bound{} : it->second;
            auto* c = w.bindings.get(cu::view(name));
            if ((c != nullptr) != (b.kind != None))
            {
                all = differs(name + (c ? " is registered" : " is not registered"));
                break;
            }
            if (!c)
                continue;
            std::vector<int> ar = arities(b.kind), have;
            for (auto& f : c->functors)
                have.push_back(int(f.arity()));
            if (cu::str(c->name) != name || have != ar)
            {
                all = differs("the description of " + name + " is different");
                break;
            }
            for (int n : ar)
            {
                if (b.kind >= Var && n)
                    continue;
                coil::ExecutionInput in;
                in.name = cu::view(name);
                for (int i = 0; i < n; i++)
                    in.arguments.pushBack(coil::Value{"1"});
                calls.clear();
                auto r = w.bindings.execute(std::move(in));
                std::string start = "v" + std::to_string(b.version) + "(";
                bool right;
                if (b.kind == Var)
                    right = cu::ret(r) == w.storage;
                else if (b.kind == Prop)
                    right = cu::ret(r) == std::to_string(w.object.value);
                else
                    right = b.kind == Method || (calls.size() == 1 && calls[0].compare(0, start.size(), start) == 0);
                if (!right)
                {
                    all = differs(name + " calls " + (calls.size() ? calls[0] : "nothing") + " returning " + cu::show(cu::ret(r)) + " instead of version " + std::to_string(b.version));
                    break;
                }
                MC_CHECK(r.errors.size() == 0, "%s with %d arguments cannot be used: %s", name.c_str(), n, cu::str(r.errors[0]).c_str());
            }
            if (!all)
                break;
        }
        if (all)
        {
            auto r = w.bindings.execute(coil::StringView("missing_1"));
            std::string e = r.errors.size() == 1 ? cu::str(r.errors[0]) : "";
            if (e != (m.customLexer ? "No function 'missing' is registered" : "No function 'missing_1' is registered"))
                all = differs("the lexer is different");
        }
        calls.clear();
        probing = false;
        return all;
    }

    uint64_t hashOf(Model const& m, char const* what, bool threw)
    {
        uint64_t h = mc::mix(mc::hashStr(what), threw * 2 + m.customLexer);
        for (auto& [n, b] : m.names)
            h = mc::mix(h, mc::hashStr(n) + uint64_t(b.kind) * 1000 + uint64_t(b.version));
        return h;
    }

    // after an operation that may have failed the table is as before or as after
    void settle(World& w, Model& before, Model const& after, bool threw, std::vector<std::string> const& names, char const* what)
    {
        std::string whyAfter, whyBefore;
        if (matches(w, after, names, &whyAfter))
        {
            before = after;
            mc::state(hashOf(before, what, threw));
            return;
        }
        MC_CHECK(threw, "%s succeeded, but %s", what, whyAfter.c_str());
        MC_CHECK(matches(w, before, names, &whyBefore), "%s failed for lack of memory and left neither the table before (%s) nor after (%s)", what, whyBefore.c_str(), whyAfter.c_str());
        MC_LOG("    the table is unchanged");
        mc::state(hashOf(before, what, threw));
    }

    ip::Outcome observe(coil::ExecutionResult const& r)
    {
        ip::Outcome o;
        o.errors = cu::errors(r);
        o.ret = cu::ret(r);
        o.output = cu::str(r.output);
        o.input = cu::fromCoil(r.input);
        o.calls = calls;
        calls.clear();
        return o;
    }

    // executes with failing allocations; full: the result without failures, from a table with the same functions
    void executeFailing(World& w, World& clean, std::string const& line, int failures, bool preparsed)
    {
        MC_OP("  execute %s%s", mc::show(line.substr(0, 300)).c_str(), preparsed ? " (parsed before)" : "");
        ip::Outcome full;
        std::string storage = w.storage;
        int value = w.object.value;
        {
            clean.storage = w.storage;
            clean.object.value = w.object.value;
            calls.clear();
            cu::Line l{line};
            full = observe(clean.bindings.execute(coil::StringView(l)));
        }
        calls.clear();
        cu::Line l{line};
        std::optional<coil::ExecutionInput> in;
        if (preparsed)
        {
            auto p = coil::DefaultLexer{}.parse(coil::StringView(l));
            if (!p)
                return;
            in.emplace(std::move(*p));
        }
        std::optional<coil::ExecutionResult> r;
        bool threw = outOfMemory([&] {
            if (in)
                r.emplace(w.bindings.execute(std::move(*in)));
            else
                r.emplace(w.bindings.execute(coil::StringView(l)));
        }, failures);
        // stored values are those from before or after
        MC_CHECK(w.storage == storage || w.storage == clean.storage, "the variable holds %s, neither the value before nor after", mc::show(w.storage).c_str());
        MC_CHECK(w.object.value == value || w.object.value == clean.object.value, "the object holds %d, neither the value before nor after", w.object.value);
        MC_CHECK(calls.empty() || calls == full.calls, "calls %s instead of %s", calls[0].c_str(), full.calls.empty() ? "nothing" : full.calls[0].c_str());
        if (threw)
        {
            MC_CHECK(!catching || failures > 1 || calls.empty(), "an out-of-memory exception left a running command although exceptions are caught");
            mc::outcome(mc::mix(mc::hashStr(line), 77 + !calls.empty()));
            calls.clear();
            return;
        }
        ip::Outcome have = observe(*r);
        MC_LOG("    -> %s", ip::show(have).substr(0, 700).c_str());
        mc::outcome(mc::mix(ip::hash(have), mc::hashStr(line)));
        if (ip::same(have, full))
        {
            MC_CHECK(w.storage == clean.storage && w.object.value == clean.object.value, "the result is that of a completed command, but nothing was stored");
            return;
        }
        MC_CHECK(catching, "%s gives %s although no exception is caught; expected %s", line.c_str(), ip::show(have).c_str(), ip::show(full).c_str());
        MC_CHECK(!have.errors.empty() && have.errors.back() == caught, "%s gives %s: the failure is not reported", line.c_str(), ip::show(have).c_str());
        have.errors.pop_back();
        MC_CHECK(have.errors.size() <= full.errors.size() && std::equal(have.errors.begin(), have.errors.end(), full.errors.begin()), "%s: other errors than without the failure: %s", line.c_str(), ip::show(have).c_str());
        MC_CHECK(!have.ret, "%s: a value is returned although the command failed", line.c_str());
        MC_CHECK(full.output.compare(0, have.output.size(), have.output) == 0, "%s: the output is %s, not the beginning of %s", line.c_str(), mc::show(have.output).c_str(), mc::show(full.output).c_str());
        MC_CHECK(cu::same(have.input, full.input), "%s: the input is not reported", line.c_str());
    }

    std::vector<std::string> const names = {"a", "bb", "a name that is long enough to be stored outside of any small buffer", "nobody"};

    struct Line
    {
        char const* text;
        Kind kind; // the kind that the called name has
    };
    Line const lines[] = {
        {"a", Plain}, {"a 1", Plain},
        {"a", Overloads}, {"a text", Overloads}, {"a '' ", Overloads}, {"a 12 true", Overloads}, {"a x y", Overloads}, {"a 1 2 3", Overloads},
        {"a (1 2 3 4 5) 2.5", Lists}, {"a 1,2 ''", Lists}, {"a (1 x) y", Lists}, {"a () ()", Lists}, {"a 7 (1 2)", Lists},
        {"a text key=value num=42", Talker}, {"a bad key='a longer value' num=(1 2)", Talker}, {"a text num=zz", Talker}, {"a (x y)", Talker}, {"a bad", Talker},
        {"a", Var}, {"a other", Var}, {"a 'another text that is long'", Var}, {"a (x y)", Var},
        {"a", Prop}, {"a 512", Prop}, {"a x", Prop}, {"a 5", Method}, {"a x", Method},
        {"", None}, {"unknown 1 2", None}, {"(oops", None}, {"a = =", None}, {"a 'b", None}, {"f x=1 (2 3) =", None}};

    void warm()
    {
        static bool done = false;
        if (done)
            return;
        done = true;
        World w;
        for (int k = Plain; k < kindCount; k++)
        {
            bind(w, "a", {Kind(k), 1}, 0);
            for (auto& l : lines)
                if (l.kind == k || l.kind == None)
                    w.bindings.execute(coil::StringView(l.text));
        }
        calls.clear();
    }
}

// every single operation on tables of every small size, with every allocation failing
static void operations()
{
    warm();
    {
        World w;
        Model m;
        std::vector<std::string> all = names;
        int size = mc::choose(mc::asan() ? 6 : 10);
        for (int i = 0; i < size; i++)
        {
            std::string n = "other" + std::to_string(i);
            all.push_back(n);
            m.names[n] = {i % 2 ? Overloads : Plain, 100 + i};
            bind(w, cu::view(n), m.names[n], i % 3);
        }
        Kind old = Kind(mc::choose(kindCount));
        if (old != None)
        {
            m.names["a"] = {old, 1};
            bind(w, "a", {old, 1}, 0);
        }
        Model after = m;
        int op = mc::choose(kindCount + 3);
        int failures = mc::asan() && !mc::thorough() ? 1 : 2;
        std::string what;
        bool threw;
        if (op < kindCount)
        {
            after.names["a"] = {Kind(op), 2};
            if (op == None)
                after.names.erase("a");
            int way = op >= Plain && op <= Talker ? mc::choose(op == Plain ? 3 : 2) : 0;
            what = "binding kind " + std::to_string(op) + " in way " + std::to_string(way) + " over kind " + std::to_string(old) + " in a table of " + std::to_string(size);
            MC_OP("%s", what.c_str());
            threw = outOfMemory([&] { bind(w, "a", {Kind(op), 2}, way); }, failures);
        }
        else if (op == kindCount)
        {
            what = "removal";
            MC_OP("remove");
            after.names.erase("a");
            threw = outOfMemory([&] { w.bindings.remove("a"); }, failures);
        }
        else if (op == kindCount + 1)
        {
            what = "clear";
            MC_OP("clear");
            after.names.clear();
            threw = outOfMemory([&] { w.bindings.clear(); }, failures);
        }
        else
        {
            what = "setLexer";
            MC_OP("setLexer");
            after.customLexer = true;
            threw = outOfMemory([&] { w.bindings.setLexer(coil::makeUnique<coil::DefaultLexer>(coil::DefaultLexer{"()", "'", ",", "_"})); }, failures);
        }
        settle(w, m, after, threw, all, what.c_str());
        // still usable: everything can be added and removed again
        m.customLexer = false;
        w.bindings.setLexer(coil::makeUnique<coil::DefaultLexer>());
        for (auto& n : all)
        {
            m.names[n] = {Plain, 300};
            bind(w, cu::view(n), m.names[n], 1);
        }
        std::string why;
        MC_CHECK(matches(w, m, all, &why), "after the failure the table cannot be used: %s", why.c_str());
        for (auto& n : all)
            w.bindings.remove(cu::view(n));
        m.names.clear();
        MC_CHECK(matches(w, m, all, &why), "after the failure the table cannot be emptied: %s", why.c_str());
    }
    MC_CHECK(Tracked::alive == 0, "%ld functions were not destroyed", Tracked::alive);
    MC_CHECK(Tracked::copies == 0, "a function was copied");
    mc::outcome(mc::mix(mc::allocationCount(), 3));
}

// every command line and result, with every allocation failing
static void executions()
{
    warm();
    {
        World w, clean;
        Line const& l = lines[mc::choose(int(sizeof lines / sizeof *lines))];
        Model m;
        if (l.kind != None)
        {
            m.names["a"] = {l.kind, 1};
            bind(w, "a", {l.kind, 1}, 0);
            bind(clean, "a", {l.kind, 1}, 0);
        }
        bool preparsed = mc::flip();
        int failures = 1 + mc::choose(mc::asan() && !mc::thorough() ? 1 : 2);
        executeFailing(w, clean, l.text, failures, preparsed);
        Model same = m;
        settle(w, m, same, false, names, "execution");
        // and again without failures
        calls.clear();
        clean.storage = w.storage;
        clean.object.value = w.object.value;
        ip::Outcome a = observe(w.bindings.execute(coil::StringView(l.text))), b = observe(clean.bindings.execute(coil::StringView(l.text)));
        MC_CHECK(ip::same(a, b), "after the failure %s gives %s instead of %s", l.text, ip::show(a).c_str(), ip::show(b).c_str());
    }
    MC_CHECK(Tracked::alive == 0, "%ld functions were not destroyed", Tracked::alive);
}

// histories of operations in which any one allocation (two in the thorough tier) fails
static void histories()
{
    warm();
    {
        World w, clean;
        Model m;
        bind(w, "a", {Plain, 1}, 0);
        bind(clean, "a", {Plain, 1}, 0);
        m.names["a"] = {Plain, 1};
        int depth = depthOf(2, 2, 3, 4), version = 10;
        // some more commands, so that the operations also meet full tables
        int start = mc::choose(3);
        for (int i = 0; i < start; i++)
        {
            static char const* const more[] = {"bb", "nobody"};
            m.names[more[i]] = {Plain, 2 + i};
            bind(w, more[i], {Plain, 2 + i}, 0);
            bind(clean, more[i], {Plain, 2 + i}, 0);
        }
        for (int i = 0; i < depth; i++)
        {
            int op = mc::choose(14);
            if (op == 13)
                break;
            Model after = m;
            bool threw = false;
            version++;
            auto rebind = [&](std::string const& name, Kind kind) {
                MC_OP("  bind %s to kind %d", name.c_str(), kind);
                after.names[name] = {kind, version};
                cu::Line l{name};
                threw = outOfMemory([&] { bind(w, coil::StringView(l), {kind, version}, 1); });
                bind(clean, coil::StringView(l), {kind, version}, 1);
            };
            switch (op)
            {
            case 0: rebind("a", Overloads); break;
            case 1: rebind("bb", Talker); break;
            case 2: rebind(names[2], Lists); break;
            case 3: rebind("nobody", Plain); break;
            case 4: rebind("a", Var); break;
            case 5:
                MC_OP("  remove a");
                after.names.erase("a");
                threw = outOfMemory([&] { w.bindings.remove("a"); });
                clean.bindings.remove("a");
                break;
            case 6:
                MC_OP("  nobody = null");
                after.names.erase("nobody");
                threw = outOfMemory([&] { w.bindings["nobody"] = nullptr; });
                clean.bindings.remove("nobody");
                break;
            case 7:
                MC_OP("  clear");
                after.names.clear();
                threw = outOfMemory([&] { w.bindings.clear(); });
                clean.bindings.clear();
                break;
            case 8:
                MC_OP("  setLexer");
                after.customLexer = !after.customLexer;
                threw = outOfMemory([&] { w.bindings.setLexer(after.customLexer ? coil::makeUnique<coil::DefaultLexer>(coil::DefaultLexer{"<>", "'", ",", " _"}) : coil::makeUnique<coil::DefaultLexer>()); });
                clean.bindings.setLexer(after.customLexer ? coil::makeUnique<coil::DefaultLexer>(coil::DefaultLexer{"<>", "'", ",", " _"}) : coil::makeUnique<coil::DefaultLexer>());
                break;
            case 9:
                MC_OP("  move the table out and back");
                threw = outOfMemory([&] {
                    coil::Bindings other{std::move(w.bindings)};
                    w.bindings = std::move(other);
                });
                break;
            case 10: executeFailing(w, clean, "a text", 1, false); break;
            case 11: executeFailing(w, clean, "bb bad key=k num=1", 1, false); break;
            case 12: executeFailing(w, clean, "'a name that is long enough to be stored outside of any small buffer' (1 2 3) 4.5", 1, false); break;
            }
            bool failed = threw;
            Model previous = m;
            settle(w, m, after, threw, names, "the operation");
            if (failed && m == previous && !(m == after))
            {
                // bring the clean table back
                clean.bindings.clear();
                for (auto& [n, b] : m.names)
                    bind(clean, cu::view(n), b, 1);
                clean.bindings.setLexer(m.customLexer ? coil::makeUnique<coil::DefaultLexer>(coil::DefaultLexer{"<>", "'", ",", " _"}) : coil::makeUnique<coil::DefaultLexer>());
            }
            mc::outcome(mc::mix(m.names.size() * 2 + m.customLexer, uint64_t(op) * 2 + failed));
        }
    }
    MC_CHECK(Tracked::alive == 0, "%ld functions were not destroyed", Tracked::alive);
    MC_CHECK(Tracked::copies == 0, "a function was copied");
}

// the lexer alone, on every short line
static void parsing()
{
    std::string line = chooseString("a'(,= ", depthOf(4, 5, 5, 7));
    cu::Line l{line};
    coil::DefaultLexer lexer;
    ref::Input want = ref::parse({}, line);
    std::optional<coil::Expected<coil::ExecutionInput, coil::String>> r;
    MC_OP("parse %s", mc::show(line).c_str());
    bool threw = outOfMemory([&] { r.emplace(lexer.parse(coil::StringView(l))); }, 2);
    if (!threw)
    {
        ref::Input have;
        if (*r)
            have = cu::fromCoil(**r);
        else
            have.error = cu::message(r->error());
        MC_CHECK(cu::same(have, want), "parsing %s gives %s", mc::show(line).c_str(), cu::show(have).c_str());
    }
    mc::state(mc::mix(cu::hash(want), threw));
    mc::outcome(mc::mix(cu::hash(want), threw));
}

// conversions and renderings alone
namespace
{
    template<typename T>
    void convert(ref::Subvalues const& s)
    {
        coil::Vector<coil::StringView> parts;
        for (auto& p : s)
            parts.pushBack(cu::view(p));
        coil::Value value{std::move(parts)};
        ref::Conv want = ref::Type<T>::conv(s);
        std::string got, text;
        std::string wantText;
        MC_OP("convert %s to %s", cu::show(s).c_str(), ref::Type<T>::name().c_str());
        bool threw = outOfMemory([&] {
            auto r = coil::TypeSerializer<T>::fromString(value);
            {
                mc::NoFault nf;
                got = r ? "ok " + ref::Type<T>::canon(*r) : "error " + cu::message(r.error());
            }
            if (r)
            {
                coil::String t = coil::TypeSerializer<T>::toString(*r);
                mc::NoFault nf;
                text = cu::str(t);
                wantText = ref::Type<T>::text(*r);
            }
        }, 2);
        std::string expected = want.ok ? "ok " + want.canon : "error " + want.error;
        MC_CHECK(threw || (got == expected && text == wantText), "conversion of %s to %s gives %s, text %s; expected %s, text %s", cu::show(s).c_str(), ref::Type<T>::name().c_str(), got.c_str(), text.c_str(), expected.c_str(), wantText.c_str());
        MC_CHECK(cu::subs(value) == s, "the converted value was changed");
        mc::state(mc::mix(mc::hashStr(expected), mc::hashStr(ref::Type<T>::name()) + threw));
    }
    void convertType(int type, ref::Subvalues const& s)
    {
        switch (type)
        {
        case 0: return convert<int>(s);
        case 1: return convert<unsigned char>(s);
        case 2: return convert<double>(s);
        case 3: return convert<bool>(s);
        case 4: return convert<coil::String>(s);
        case 5: return convert<std::string>(s);
        case 6: return convert<std::vector<int>>(s);
        case 7: return convert<std::vector<std::string>>(s);
        case 8: return convert<std::vector<coil::String>>(s);
        case 9: return convert<std::optional<coil::String>>(s);
        case 10: return convert<std::optional<std::vector<double>>>(s);
        case 11: return convert<std::vector<std::optional<int>>>(s);
        }
    }
}
static void conversions()
{
    static bool warmed = false;
    if (!warmed)
    {
        warmed = warming = true;
        for (int t = 0; t < 12; t++)
        {
            convertType(t, {"x", "y"});
            convertType(t, {"1"});
        }
        warming = false;
    }
    static char const* const texts[] = {"", "7", "true", "-1.5", "some text longer than small buffers hold"};
    int type = mc::choose(12);
    int n = mc::choose(depthOf(4, 4, 5, 5));
    ref::Subvalues s;
    for (int i = 0; i < n; i++)
        s.push_back(texts[mc::choose(5)]);
    convertType(type, s);
}

// the containers
namespace
{
    // an element that can only be copied, and whose copies allocate
    struct CopyOnly
    {
        Tracked life;
        int* value;
        explicit CopyOnly(int v) : life(v), value(new int(v)) {}
        CopyOnly(CopyOnly const& r) : life(r.life), value(new int(*r.value)) {}
        CopyOnly& operator=(CopyOnly const& r)
        {
            int* n = new int(*r.value);
            delete value;
            value = n;
            life = r.life;
            return *this;
        }
        ~CopyOnly() { delete value; }
        bool operator==(CopyOnly const& r) const { return *value == *r.value; }
        bool operator!=(CopyOnly const& r) const { return *value != *r.value; }
    };

    std::string textOf(int i) { return "element number " + std::to_string(i); }

    template<typename T>
    T element(int i)
    {
        mc::NoFault nf;
        if constexpr (std::is_same_v<T, coil::String>)
            return cu::string(textOf(i));
        else
            return T(i);
    }
    template<typename T>
    std::string shown(T const& t)
    {
        if constexpr (std::is_same_v<T, coil::String>)
            return cu::str(t);
        else
        {
            MC_CHECK(t.life.get() == *t.value, "an element is damaged");
            return textOf(*t.value);
        }
    }

    using Sequence = std::vector<std::string>;

    template<typename T>
    Sequence contents(coil::Vector<T> const& v)
    {
        Sequence r;
        for (auto& e : v)
            r.push_back(shown(e));
        MC_CHECK(v.capacity() >= v.size(), "the capacity is less than the size");
        return r;
    }

    template<typename C>
    void settleContents(C const& have, C& model, C const& after, bool threw, char const* what)
    {
        if (have == after)
            model = after;
        else
            MC_CHECK(threw && have == model, "%s%s left something that is neither the contents before nor after", what, threw ? " failed for lack of memory and" : "");
    }
}

template<typename T>
static void vectors()
{
    {
        coil::Vector<T> v, other;
        Sequence m, mo;
        int depth = depthOf(4, 5, 5, 6);
        for (int i = 0; i < depth; i++)
        {
            int op = mc::choose(9);
            if (op == 8)
                break;
            Sequence after = m, afterOther = mo;
            bool threw = false;
            char const* what = "";
            switch (op)
            {
            case 0:
            {
                what = "pushBack";
                after.push_back(textOf(i));
                T e = element<T>(i);
                threw = outOfMemory([&] { v.pushBack(e); });
                break;
            }
            case 1:
                if (m.empty())
                    break;
                what = "pushBack of its own element";
                after.push_back(m.front());
                threw = outOfMemory([&] { v.pushBack(v.front()); });
                break;
            case 2:
                if (m.empty())
                    break;
                what = "popBack";
                after.pop_back();
                threw = outOfMemory([&] { v.popBack(); });
                break;
            case 3:
                what = "reserve";
                threw = outOfMemory([&] { v.reserve(v.size() + 2); });
                break;
            case 4:
                what = "copy assignment";
                afterOther = m;
                threw = outOfMemory([&] { other = v; });
                break;
            case 5:
                what = "copy assignment back";
                after = mo;
                threw = outOfMemory([&] { v = other; });
                break;
            case 6:
                what = "copy construction and move";
                threw = outOfMemory([&] {
                    coil::Vector<T> copy{v};
                    {
                        mc::NoFault nf;
                        MC_CHECK(contents(copy) == m, "the copy is different");
                    }
                    v = std::move(copy);
                });
                break;
            case 7:
                what = "clear";
                after.clear();
                threw = outOfMemory([&] { v.clear(); });
                break;
            }
            MC_OP("  %s%s", what, threw ? " (failed)" : "");
            settleContents(contents(v), m, after, threw, what);
            settleContents(contents(other), mo, afterOther, threw, what);
            mc::state(mc::mix(mc::mix(m.size(), mo.size()), uint64_t(op) + 100));
        }
        mc::outcome(mc::mix(m.size(), mo.size() + 1000));
    }
    MC_CHECK(Tracked::alive == 0, "%ld elements were not destroyed", Tracked::alive);
}

static void maps()
{
    using Map = coil::UnorderedMap<coil::String, coil::String>;
    using Plain = std::map<std::string, std::string>;
    auto contentsOf = [](Map const& m) {
        Plain p;
        for (auto it = m.begin(); it != m.end(); ++it)
            MC_CHECK(p.emplace(cu::str(it->key()), cu::str(it->value())).second, "a key is visited twice");
        MC_CHECK(p.size() == m.size(), "the size is wrong");
        return p;
    };
    Map m, other;
    Plain p, po;
    char const* const keys[] = {"k0", "k1", "k2", "a key of some length", "k4", "k5"};
    int start = mc::choose(6);
    for (int i = 0; i < start; i++)
    {
        p[keys[5 - i]] = "initial";
        m.insertOrAssign(coil::String{keys[5 - i]}, coil::String{"initial"});
    }
    int depth = depthOf(2, 3, 4, 5);
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(12);
        if (op == 11)
            break;
        Plain after = p, afterOther = po;
        bool threw = false;
        if (op < 4)
        {
            std::string k = keys[op], v = "value " + std::to_string(i);
            coil::String ck = cu::string(k), cv = cu::string(v);
            after[k] = v;
            threw = outOfMemory([&] { m.insertOrAssign(ck, cv); });
        }
        else if (op < 7)
        {
            std::string k = keys[op - 4];
            after.erase(k);
            threw = outOfMemory([&] { m.erase(cu::view(k)); });
        }
        else if (op == 7)
        {
            afterOther = p;
            threw = outOfMemory([&] { other = m; });
        }
        else if (op == 8)
        {
            after = po;
            threw = outOfMemory([&] { m = other; });
        }
        else if (op == 9)
            threw = outOfMemory([&] {
                Map copy{m};
                {
                    mc::NoFault nf;
                    MC_CHECK(contentsOf(copy) == p, "the copy is different");
                }
                m = std::move(copy);
            });
        else
        {
            after.clear();
            threw = outOfMemory([&] { m.clear(); });
        }
        MC_OP("  operation %d%s", op, threw ? " (failed)" : "");
        settleContents(contentsOf(m), p, after, threw, "the operation");
        settleContents(contentsOf(other), po, afterOther, threw, "the operation");
        for (Map* x : {&m, &other})
            for (auto k : keys)
            {
                Plain& q = x == &m ? p : po;
                auto it = x->find(coil::StringView(k));
                MC_CHECK((it != x->end()) == (q.count(k) == 1), "%s is %sfound", k, q.count(k) ? "not " : "");
                if (it != x->end())
                    MC_CHECK(cu::str(it->value()) == q[k], "%s has the wrong value", k);
            }
        uint64_t h = p.size() * 100 + po.size();
        for (auto& [k, v] : p)
            h = mc::mix(h, mc::hashStr(k + v));
        mc::state(mc::mix(h, 1));
    }
    mc::outcome(mc::mix(p.size(), po.size() + 500));
}

static void strings()
{
    coil::String s, other;
    std::string m, mo;
    int depth = depthOf(3, 4, 4, 5);
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(11);
        if (op == 10)
            break;
        std::string after = m, afterOther = mo;
        bool threw = false;
        switch (op)
        {
        case 0: after += "x"; threw = outOfMemory([&] { s += 'x'; }); break;
        case 1: after += "some text"; threw = outOfMemory([&] { s += "some text"; }); break;
        case 2: after += m; threw = outOfMemory([&] { s += s; }); break;
        case 3: after += mo; threw = outOfMemory([&] { s += other; }); break;
        case 4: threw = outOfMemory([&] { s.reserve(s.length() + 3); }); break;
        case 5: after.resize(m.size() / 2); threw = outOfMemory([&] { s.resize(s.length() / 2); }); break;
        case 6: afterOther = m; threw = outOfMemory([&] { other = s; }); break;
        case 7: after = mo; threw = outOfMemory([&] { s = other; }); break;
        case 8: after = mo + m + "!"; threw = outOfMemory([&] { s = other + s + "!"; }); break;
        case 9: after = "number 42 " + mo; threw = outOfMemory([&] { s = coil::sprintf("number %d %s", 42, other.cStr() ? other.cStr() : ""); }); break;
        }
        MC_OP("  operation %d%s", op, threw ? " (failed)" : "");
        settleContents(cu::str(s), m, after, threw, "the operation");
        settleContents(cu::str(other), mo, afterOther, threw, "the operation");
        if (m.size())
            MC_CHECK(strlen(s.cStr()) == m.size(), "the string is not terminated");
        mc::state(mc::mix(mc::hashStr(m), mc::hashStr(mo)));
    }
    mc::outcome(mc::mix(mc::hashStr(m), mc::hashStr(mo)));
}

template<typename T>
static void optionals()
{
    {
        coil::Optional<T> o, other;
        Sequence m, mo; // empty or one element
        auto contentsOf = [](coil::Optional<T> const& x) { return x.hasValue() ? Sequence{shown(*x)} : Sequence{}; };
        int depth = depthOf(4, 5, 6, 7);
        for (int i = 0; i < depth; i++)
        {
            int op = mc::choose(7);
            if (op == 6)
                break;
            Sequence after = m, afterOther = mo;
            bool threw = false;
            T e = element<T>(i);
            switch (op)
            {
            case 0: after = {textOf(i)}; threw = outOfMemory([&] { o = e; }); break;
            case 1: after.clear(); threw = outOfMemory([&] { o = coil::Optional<T>{}; }); break;
            case 2: after = mo; threw = outOfMemory([&] { o = other; }); break;
            case 3: afterOther = m; threw = outOfMemory([&] { other = o; }); break;
            case 4: after = {textOf(i)}; threw = outOfMemory([&] { o = coil::Optional<T>{e}; }); break;
            case 5:
                threw = outOfMemory([&] {
                    coil::Optional<T> copy{o};
                    mc::NoFault nf;
                    MC_CHECK(contentsOf(copy) == m, "the copy is different");
                });
                break;
            }
            MC_OP("  operation %d%s", op, threw ? " (failed)" : "");
            settleContents(contentsOf(o), m, after, threw, "the operation");
            settleContents(contentsOf(other), mo, afterOther, threw, "the operation");
            mc::state(mc::mix(m.size() * 2 + mo.size(), uint64_t(op) + 50));
        }
        mc::outcome(mc::mix(m.size(), mo.size()));
    }
    MC_CHECK(Tracked::alive == 0, "%ld objects were not destroyed", Tracked::alive);
}

static void expecteds()
{
    using E = coil::Expected<coil::String, coil::String>;
    auto show = [](E const& e) { return e.hasValue() ? "value " + cu::str(e.value()) : "error " + cu::message(e.error()); };
    E a{coil::String{"first"}}, b{coil::makeUnexpected(coil::String{"second"})};
    std::string m = "value first", mo = "error second";
    int depth = depthOf(4, 5, 6, 7);
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(7);
        if (op == 6)
            break;
        std::string after = m, afterOther = mo;
        bool threw = false;
        coil::String t = cu::string(textOf(i));
        int failures = m[0] == mo[0]; // copy assignment between a value and an error: expected_copy_assign
        switch (op)
        {
        case 0: after = mo; threw = outOfMemory([&] { a = b; }, failures); break;
        case 1: afterOther = m; threw = outOfMemory([&] { b = a; }, failures); break;
        case 2: after = "value " + textOf(i); threw = outOfMemory([&] { a = E{t}; }); break;
        case 3: after = "error " + textOf(i); threw = outOfMemory([&] { a = E{coil::makeUnexpected(coil::String{t})}; }); break;
        case 4: afterOther = "value " + textOf(i); threw = outOfMemory([&] { b = t; }); break;
        case 5:
            threw = outOfMemory([&] {
                E copy{a};
                mc::NoFault nf;
                MC_CHECK(show(copy) == m, "the copy is different");
            });
            break;
        }
        MC_OP("  operation %d%s", op, threw ? " (failed)" : "");
        settleContents(show(a), m, after, threw, "the operation");
        settleContents(show(b), mo, afterOther, threw, "the operation");
        mc::state(mc::mix(mc::hashStr(m), mc::hashStr(mo)));
    }
    mc::outcome(mc::mix(mc::hashStr(m), mc::hashStr(mo)));
}

// allocations made only once per process (type names): each execution in a process of its own
static void firstUse()
{
    static int kind, line, fail;
    mc::leakCheck = false;
    kind = 1 + mc::choose(kindCount - 1);
    line = mc::choose(3);
    fail = mc::choose(40);
    MC_OP("first use of kind %d, allocation %d fails, line %d", kind, fail, line);
    std::string how;
    bool ok = mc::probe([] {
        {
            World w;
            Model before, after;
            after.names["a"] = {Kind(kind), 1};
            static char const* const wrong[] = {"a (x y)", "a x (z z)", "a"};
            bool threw = false;
            mc::failAllocation(fail);
            try
            {
                bind(w, "a", {Kind(kind), 1}, 0);
            }
            catch (std::bad_alloc const&)
            {
                threw = true;
            }
            long used = mc::allocationCount();
            bool fired = mc::allocationFailed();
            mc::failAllocation(fired ? -1 : fail - used);
            if (!threw)
            {
                try
                {
                    w.bindings.execute(coil::StringView(wrong[line]));
                }
                catch (std::bad_alloc const&)
                {
                }
                mc::failAllocation(-1);
            }
            mc::failAllocation(-1);
            calls.clear();
            settle(w, before, after, threw, names, "first binding");
            // everything works from now on
            bind(w, "a", {Kind(kind), 2}, 0);
            World clean;
            bind(clean, "a", {Kind(kind), 2}, 0);
            clean.storage = w.storage;
            clean.object.value = w.object.value;
            for (auto text : wrong)
            {
                calls.clear();
                ip::Outcome a = observe(w.bindings.execute(coil::StringView(text))), b = observe(clean.bindings.execute(coil::StringView(text)));
                MC_CHECK(ip::same(a, b), "after the failure %s gives %s", text, ip::show(a).c_str());
            }
            auto* c = w.bindings.get("a");
            for (auto& f : c->functors)
                for (auto t : f.parameterTypes())
                    MC_CHECK(t.length() > 0, "a parameter type has no name");
            if (kind == Lists)
                MC_CHECK(cu::str(c->functors[0].parameterTypes()[0]) == "vector<" + ref::intName<int>() + ">" && cu::str(c->functors[0].parameterTypes()[1]) == "optional<double>" && cu::str(c->functors[0].returnType()) == "vector<" + ref::intName<int>() + ">", "a type name is damaged");
        }
        MC_CHECK(Tracked::alive == 0, "%ld functions were not destroyed", Tracked::alive);
    }, &how);
    MC_CHECK(ok, "first use of kind %d with allocation %d failing: %s", kind, fail, how.c_str());
    mc::state(mc::mix(uint64_t(kind * 100 + fail), uint64_t(line)));
    mc::outcome(mc::mix(uint64_t(kind), uint64_t(line) + 30));
}

// copy assignment between a value and an error, which is known to be broken when the copy fails
static void expectedCopyAssign()
{
    static int way;
    way = mc::choose(2);
    mc::leakCheck = false;
    auto body = [] {
        {
            using E = coil::Expected<CopyOnly, coil::String>;
            E value{CopyOnly(1)}, error{coil::makeUnexpected(coil::String{"an error"})};
            mc::failAllocation(0);
            try
            {
                if (way)
                    value = error;
                else
                    error = value;
            }
            catch (std::bad_alloc const&)
            {
            }
            mc::failAllocation(-1);
            MC_CHECK(value.hasValue() ? shown(value.value()) == textOf(1) : cu::message(value.error()) == "an error", "the value is damaged");
            MC_CHECK(error.hasValue() ? shown(error.value()) == textOf(1) : cu::message(error.error()) == "an error", "the error is damaged");
        }
        MC_CHECK(Tracked::alive == 0, "%ld objects were not destroyed", Tracked::alive);
    };
    std::string how;
    if (!mc::probe(body, &how))
    {
        MC_LOG("%s", how.c_str());
        mc::knownFinding("expected_copy_assign");
    }
    mc::state(mc::mix(way, 4711));
}

// tables and results of every size
static void sizes()
{
    warm();
    size_t n = chooseLength(mc::asan() ? 20 : 40, mc::asan() ? 70 : 300);
    {
        World w;
        Model m;
        std::vector<std::string> all = names;
        for (size_t i = 0; i < n; i++)
        {
            std::string name = "n" + std::to_string(i);
            all.push_back(name);
            m.names[name] = {Plain, int(1000 + i)};
            bind(w, cu::view(name), m.names[name], 1);
        }
        Model after = m;
        bool threw;
        switch (mc::choose(3))
        {
        case 0:
            MC_OP("add to %zu commands", n);
            after.names["a"] = {Overloads, 5};
            threw = outOfMemory([&] { bind(w, "a", {Overloads, 5}, 1); });
            break;
        case 1:
        {
            MC_OP("%zu overloads", n);
            coil::Vector<coil::AnyFunctor> f;
            after.names["a"] = {Plain, 6};
            threw = outOfMemory([&] {
                coil::Vector<coil::AnyFunctor> functors;
                functors.pushBack(coil::detail::createAnyFunctor(plain<int>(6)));
                w.bindings["a"] = std::move(functors);
            });
            break;
        }
        default:
        {
            MC_OP("a list of %zu numbers", n);
            bind(w, "a", {Lists, 7}, 0);
            after.names["a"] = m.names["a"] = {Lists, 7};
            World clean;
            bind(clean, "a", {Lists, 7}, 0);
            std::string line = "a (";
            for (size_t i = 0; i < n; i++)
                line += std::to_string(i) + " ";
            executeFailing(w, clean, line + ") 1", 1, false);
            threw = false;
            break;
        }
        }
        settle(w, m, after, threw, all, "the operation");
        mc::state(mc::mix(n, threw));
    }
    MC_CHECK(Tracked::alive == 0, "%ld functions were not destroyed", Tracked::alive);
}

MC_MAIN({"operations", operations}, {"executions", executions}, {"histories", histories}, {"parsing", parsing}, {"conversions", conversions},
    {"strings", strings}, {"vectors", vectors<coil::String>}, {"vectors_copied", vectors<CopyOnly>}, {"maps", maps}, {"optionals", optionals<coil::String>},
    {"optionals_copied", optionals<CopyOnly>}, {"expecteds", expecteds}, {"sizes", sizes}, {"first_use", firstUse}, {"expected_copy_assign", expectedCopyAssign})
