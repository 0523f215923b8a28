// C23: bound callables and their arguments are owned, moved and destroyed exactly once.
#include "cu.h"
#include "interp.h"
#include "lexcheck.h"
#include "tracked.h"

#include <functional>
#include <map>
#include <memory>
#include <set>

namespace
{
    int depthOf(int asanQuick, int relQuick, int asanThorough, int relThorough) { return mc::thorough() ? (mc::asan() ? asanThorough : relThorough) : (mc::asan() ? asanQuick : relQuick); }

    // ---- callables
    std::map<int, int> live; // identity of a callable -> how many objects own it (objects that were moved from own nothing)
    long callableCopies = 0;
    bool handedOver = false; // copies are counted only once the callable is handed over
    long base = 0;           // objects of the harness itself
    bool throwing = false;   // construction from another callable may throw

    struct Failure
    {
    };

    struct Token
    {
        int id;
        Tracked life;
        std::unique_ptr<std::string> owned;
        explicit Token(int i) : id(i), life(i), owned(std::make_unique<std::string>("owned by " + std::to_string(i))) { live[id]++; }
        Token(Token&& r) : id((mayThrow(), r.id)), life(std::move(r.life)), owned(std::move(r.owned)) { r.id = 0; }
        Token(Token const& r) : id(r.id), life(r.id), owned(std::make_unique<std::string>("owned by " + std::to_string(r.id)))
        {
            callableCopies++;
            if (id)
                live[id]++;
        }
        Token& operator=(Token const&) = delete;
        ~Token()
        {
            if (id && --live[id] == 0)
                live.erase(id);
        }
        void mayThrow()
        {
            if (throwing && mc::flip())
            {
                throwing = false;
                MC_LOG("      moving the callable throws");
                throw Failure{};
            }
        }
        void check() const
        {
            life.check();
            MC_CHECK(id && live.count(id), "a callable is called that is not alive");
            MC_CHECK(*owned == "owned by " + std::to_string(id), "the captured state of a callable is damaged");
        }
    };

    struct MoveOnly : Token
    {
        using Token::Token;
        MoveOnly(MoveOnly&&) = default;
        MoveOnly(MoveOnly const&) = delete;
    };

    int lastArgs = 0;
    std::string called(int id, int count, int args)
    {
        lastArgs = args;
        return std::to_string(id) + ":" + std::to_string(count) + ":" + std::to_string(args);
    }

    template<typename... Ts>
    auto lambda(int id)
    {
        return [t = MoveOnly(id), count = 0](Ts...) mutable {
            t.check();
            return called(t.id, ++count, sizeof...(Ts));
        };
    }
    template<typename... Ts>
    struct Functor
    {
        Token t;
        int count = 0;
        explicit Functor(int id) : t(id) {}
        std::string operator()(Ts...)
        {
            t.check();
            return called(t.id, ++count, sizeof...(Ts));
        }
    };
    struct Empty
    {
        static inline int count = 0;
        static inline int alive = 0;
        Empty() { alive++; }
        Empty(Empty const&)
        {
            alive++;
            callableCopies++;
        }
        Empty(Empty&&) { alive++; }
        ~Empty() { alive--; }
        std::string operator()(int) const { return called(0, ++count, 1); }
    };
    struct alignas(64) Aligned
    {
        MoveOnly t;
        char padding[100];
        int count = 0;
        explicit Aligned(int id) : t(id) { memset(padding, 'p', sizeof padding); }
        std::string operator()(coil::StringView)
        {
            MC_CHECK(reinterpret_cast<uintptr_t>(this) % 64 == 0, "the callable is not aligned");
            t.check();
            for (char c : padding)
                MC_CHECK(c == 'p', "the state of the callable is damaged");
            return called(t.id, ++count, 1);
        }
    };
    struct Object
    {
        int count = 0;
        std::string method(int) { return called(-1, ++count, 1); }
    };

    struct One
    {
        int id;
        int args;
        int count = 0;
        bool token = true;
    };
    using Table = std::map<std::string, std::vector<One>>;

    struct Sim
    {
        Object object;
        int property = 5;
        std::unique_ptr<coil::Bindings> bindings = std::make_unique<coil::Bindings>();
        Table model;
        int next = 1;
    };
    Sim* sim;

    // everything that should be alive is, once; nothing else
    void checkAlive(Table const& model, char const* when)
    {
        std::map<int, int> want;
        long n = 0;
        for (auto& [name, v] : model)
            for (auto& o : v)
                if (o.token)
                {
                    want[o.id] = 1;
                    n++;
                }
        for (auto& [id, k] : live)
        {
            MC_CHECK(want.count(id), "callable %d is still alive %s", id, when);
            MC_CHECK(k == 1, "callable %d exists %d times %s", id, k, when);
        }
        for (auto& [id, k] : want)
            MC_CHECK(live.count(id), "callable %d was destroyed %s", id, when);
        MC_CHECK(Tracked::alive - base == n, "%ld callables exist instead of %ld %s", Tracked::alive - base, n, when);
        MC_CHECK(callableCopies == 0, "a callable was copied %s", when);
    }
    uint64_t hashOf(Table const& model)
    {
        uint64_t h = 5;
        for (auto& [name, v] : model)
        {
            h = mc::mix(h, mc::hashStr(name));
            for (auto& o : v)
                h = mc::mix(h, uint64_t(o.id * 100 + o.args * 10 + o.count));
        }
        return h;
    }

    // hands callables over in every possible way
    template<typename F>
    void hand(coil::StringView name, F f, int way)
    {
        auto& b = *sim->bindings;
        handedOver = true;
        switch (way)
        {
        case 0: b.add(name, std::move(f)); break;
        case 1: b[name] = std::move(f); break;
        case 2: b.add(name, coil::detail::createAnyFunctor(std::move(f))); break;
        case 3: b[name] = coil::overloaded(std::move(f)); break;
        case 4: b.add(name, coil::overloaded(coil::detail::createAnyFunctor(std::move(f)))); break;
        case 5:
        {
            coil::AnyFunctor a = coil::detail::createAnyFunctor(std::move(f));
            coil::AnyFunctor c{std::move(a)};
            coil::Vector<coil::AnyFunctor> v;
            v.pushBack(std::move(c));
            coil::Vector<coil::AnyFunctor> w{std::move(v)};
            b[name] = std::move(w);
            break;
        }
        }
    }
    constexpr int kindCount = 9;
    constexpr int waysOf(int kind) { return kind < 2 ? 6 : kind == 3 ? 3 : 1; }

    std::vector<One> bindKind(std::string const& name, int kind, int way)
    {
        cu::Line l{name};
        coil::StringView n = l;
        auto& b = *sim->bindings;
        int id = sim->next;
        sim->next += 3;
        switch (kind)
        {
        case 0: hand(n, lambda<>(id), way); return {{id, 0}};
        case 1: hand(n, Functor<int>(id), way); return {{id, 1}};
        case 2: b[n] = coil::overloaded(lambda<>(id), Functor<int>(id + 1), lambda<int, coil::String>(id + 2)); return {{id, 0}, {id + 1, 1}, {id + 2, 2}};
        case 3: hand(n, Aligned(id), way); return {{id, 1}};
        case 4: b[n] = Empty{}; return {{0, 1, 0, false}};
        case 5: b[n] = coil::overloaded(lambda<int, int>(id), coil::bind(&Object::method, &sim->object)); return {{id, 2}, {-1, 1, 0, false}};
        case 6: b.add(n, std::function<std::string()>([t = std::make_shared<MoveOnly>(id), count = 0]() mutable { t->check(); return called(t->id, ++count, 0); })); return {{id, 0}};
        case 7: b[n] = coil::property([] { return sim->property; }, [t = MoveOnly(id)](int v) { t.check(); sim->property = v; }); return {{id, -1}};
        default: b[n] = coil::overloaded(lambda<int>(id), lambda<int>(id + 1)); return {{id, 1}, {id + 1, -2}};
        }
    }

    // calls every callable of the table
    void callAll(Table& model)
    {
        for (auto& [name, v] : model)
            for (auto& o : v)
            {
                if (o.args < 0)
                    continue;
                std::string line = name;
                for (int i = 0; i < o.args; i++)
                    line += " 7";
                auto r = sim->bindings->execute(cu::view(line));
                std::string want;
                if (o.id == 0)
                    want = called(0, Empty::count, 1);
                else if (o.id == -1)
                    want = called(-1, sim->object.count, 1);
                else
                    want = called(o.id, ++o.count, o.args);
                MC_CHECK(r.errors.size() == 0 && cu::ret(r) == want, "%s gives %s instead of %s", line.c_str(), cu::show(cu::ret(r)).c_str(), want.c_str());
            }
    }

    void reset()
    {
        base = Tracked::alive;
        live.clear();
        callableCopies = 0;
        Empty::count = 0;
        throwing = false;
        Tracked::moves = Tracked::copies = 0;
    }
    void finish()
    {
        MC_CHECK(live.empty(), "callable %d was not destroyed with its bindings", live.begin()->first);
        MC_CHECK(Tracked::alive == base && Empty::alive == 0, "%ld objects were not destroyed", Tracked::alive - base + Empty::alive);
        MC_CHECK(callableCopies == 0, "a callable was copied");
    }
}

// every history of binding, replacing, removing, clearing, moving and calling
static void histories()
{
    reset();
    {
        Sim s;
        sim = &s;
        std::unique_ptr<coil::Bindings> other; // bindings that were moved from
        static char const* const names[] = {"a", "bb"};
        int depth = depthOf(3, 4, 4, 5);
        for (int i = 0; i < depth; i++)
        {
            int op = mc::choose(2 * kindCount + 8);
            if (op == 0)
                break;
            op--;
            char const* what = "";
            if (op < 2 * kindCount)
            {
                std::string name = names[op % 2];
                int kind = op / 2;
                int way = name == "a" ? mc::choose(waysOf(kind)) : 1;
                MC_OP("bind %s to kind %d in way %d", name.c_str(), kind, way);
                auto v = bindKind(name, kind, way % waysOf(kind));
                s.model[name] = v;
                what = "after binding";
            }
            else
                switch (op - 2 * kindCount)
                {
                case 0:
                case 1:
                {
                    std::string name = names[op % 2];
                    MC_OP("remove %s", name.c_str());
                    s.bindings->remove(cu::view(name));
                    s.model.erase(name);
                    what = "after removal";
                    break;
                }
                case 2:
                    MC_OP("a = nullptr");
                    (*s.bindings)["a"] = nullptr;
                    s.model.erase("a");
                    what = "after assigning nullptr";
                    break;
                case 3:
                    MC_OP("clear");
                    s.bindings->clear();
                    s.model.clear();
                    what = "after clear";
                    break;
                case 4:
                    MC_OP("the bindings are moved");
                    other.reset();
                    other = std::make_unique<coil::Bindings>(std::move(*s.bindings));
                    std::swap(other, s.bindings);
                    if (mc::flip())
                        other.reset();
                    what = "after moving the bindings";
                    break;
                case 5:
                {
                    MC_OP("the bindings are replaced by others");
                    auto fresh = std::make_unique<coil::Bindings>();
                    int id = s.next++;
                    fresh->add("a", lambda<>(id));
                    *s.bindings = std::move(*fresh);
                    fresh.reset();
                    s.model.clear();
                    s.model["a"] = {{id, 0}};
                    what = "after move-assigning the bindings";
                    break;
                }
                default:
                    MC_OP("calls");
                    callAll(s.model);
                    for (char const* line : {"a 1 2 3 4", "bb (1 2)", "a (1 2)", "(oops", "", "bb ()"})
                        s.bindings->execute(coil::StringView(line));
                    what = "after calls";
                    break;
                }
            checkAlive(s.model, what);
            mc::state(hashOf(s.model));
        }
        callAll(s.model);
        callAll(s.model);
        checkAlive(s.model, "after the last calls");
        mc::outcome(hashOf(s.model));
    }
    finish();
}

// registrations that fail because the callable cannot be moved
static void throwingMoves()
{
    reset();
    {
        Sim s;
        sim = &s;
        static char const* const names[] = {"a", "bb", "new"};
        s.model["a"] = bindKind("a", 2, 0);
        s.model["bb"] = bindKind("bb", 0, 1);
        if (mc::flip())
            bindKind("many", 1, 0), s.bindings->remove("many");
        int rounds = depthOf(1, 2, 2, 2);
        for (int i = 0; i < rounds; i++)
        {
            std::string name = names[mc::choose(3)];
            int kind = mc::choose(kindCount), way = mc::choose(waysOf(kind));
            MC_OP("bind %s to kind %d in way %d", name.c_str(), kind, way);
            throwing = true;
            try
            {
                auto v = bindKind(name, kind, way);
                s.model[name] = v;
            }
            catch (Failure const&)
            {
                MC_LOG("      thrown");
            }
            throwing = false;
            checkAlive(s.model, "after a registration that threw");
            callAll(s.model);
            mc::state(hashOf(s.model));
        }
        mc::outcome(hashOf(s.model));
    }
    finish();
}

// callables of every size and alignment
namespace
{
    template<size_t N, size_t A>
    struct alignas(A) Sized
    {
        MoveOnly t;
        unsigned char data[N];
        Sized(int id) : t(id)
        {
            for (size_t i = 0; i < N; i++)
                data[i] = static_cast<unsigned char>(i * 7 + N);
        }
        int operator()(int v)
        {
            t.check();
            MC_CHECK(reinterpret_cast<uintptr_t>(this) % A == 0, "a callable of alignment %zu is not aligned", A);
            for (size_t i = 0; i < N; i++)
                MC_CHECK(data[i] == static_cast<unsigned char>(i * 7 + N + calls), "the state of a callable of %zu bytes is damaged", N);
            calls++;
            for (size_t i = 0; i < N; i++)
                data[i]++;
            return v + static_cast<int>(N);
        }
        unsigned char calls = 0;
    };
    template<size_t N, size_t A>
    void oneSize()
    {
        Sim s;
        sim = &s;
        s.bindings->add("a", Sized<N, A>(1));
        (*s.bindings)["b"] = coil::overloaded(Sized<N, A>(2));
        for (int i = 0; i < 3; i++)
            for (char const* line : {"a 1000", "b 1000"})
            {
                auto r = s.bindings->execute(coil::StringView(line));
                MC_CHECK(cu::ret(r) == std::to_string(1000 + N), "a callable of %zu bytes returns %s", N, cu::show(cu::ret(r)).c_str());
            }
        MC_CHECK(live.size() == 2 && Tracked::alive == base + 2, "callables of %zu bytes are not owned once", N);
        s.bindings->remove("a");
        MC_CHECK(live.size() == 1 && Tracked::alive == base + 1, "a callable of %zu bytes was not destroyed", N);
    }
    template<size_t... Ns>
    constexpr auto sizesTable(std::index_sequence<Ns...>)
    {
        return std::array<void (*)(), sizeof...(Ns)>{&oneSize<Ns + 1, 1>...};
    }
}
static void callableSizes()
{
    reset();
    static constexpr auto small = sizesTable(std::make_index_sequence<40>{});
    static void (*const big[])() = {&oneSize<127, 1>, &oneSize<128, 1>, &oneSize<129, 1>, &oneSize<255, 1>, &oneSize<256, 1>, &oneSize<257, 1>, &oneSize<1000, 1>, &oneSize<4095, 1>, &oneSize<4096, 1>, &oneSize<4097, 1>, &oneSize<65537, 1>,
        &oneSize<1, 16>, &oneSize<1, 32>, &oneSize<1, 64>, &oneSize<100, 128>, &oneSize<100, 256>, &oneSize<5000, 4096>};
    int n = mc::choose(int(small.size() + sizeof big / sizeof *big));
    if (n < int(small.size()))
        small[size_t(n)]();
    else
        big[n - int(small.size())]();
    mc::state(mc::mix(uint64_t(n), 8));
    finish();
}

// ---- arguments
namespace
{
    // a parameter type that can be copied (but must not be) and one that cannot
    struct A
    {
        Tracked life;
        std::string text;
        explicit A(std::string t) : life(1), text(std::move(t)) {}
        std::string const& get() const
        {
            life.check();
            MC_CHECK(life.get() == 1, "an argument was moved from before it was handed over");
            return text;
        }
    };
    struct M
    {
        Tracked life;
        std::unique_ptr<std::string> text;
        explicit M(std::string t) : life(1), text(std::make_unique<std::string>(std::move(t))) {}
        M(M&&) noexcept = default;
        M& operator=(M&&) noexcept = default;
        std::string const& get() const
        {
            life.check();
            MC_CHECK(life.get() == 1 && text, "an argument was moved from before it was handed over");
            return *text;
        }
    };
    template<typename T>
    coil::Expected<T, coil::String> convert(coil::Value const& input, char const* type)
    {
        if (input.subvalues.size() != 1)
            return coil::errors::createMismatchedSubvaluesError(type, input, 1);
        if (input.subvalues[0] == "bad")
            return coil::errors::createGenericError(type, input);
        return T(cu::str(input.subvalues[0]));
    }
}
namespace coil
{
    template<>
    struct TypeSerializer<A>
    {
        static Expected<A, String> fromString(Value const& input) { return convert<A>(input, "A"); }
        static String toString(A const& a) { return cu::string("A " + a.get()); }
    };
    template<>
    struct TypeSerializer<M>
    {
        static Expected<M, String> fromString(Value const& input) { return convert<M>(input, "M"); }
        static String toString(M const& m) { return cu::string("M " + m.get()); }
    };
}
COIL_CREATE_TYPE_NAME(A, "A");
COIL_CREATE_TYPE_NAME(M, "M");

namespace
{
    std::string read(A const& a) { return a.get(); }
    std::string read(M const& m) { return m.get(); }
    template<typename T>
    std::string read(std::vector<T> const& v)
    {
        std::string r = "[";
        for (auto& e : v)
            r += read(e) + ";";
        return r + "]";
    }
    template<typename T>
    std::string read(std::optional<T> const& v) { return v ? read(*v) : "none"; }

    coil::Bindings* running;
    std::string innerLine;
    bool entered;
    std::string seen;
    template<typename... Ts>
    void body(Ts const&... args)
    {
        entered = true;
        std::string all;
        ((all += read(args) + "|"), ...);
        if (!innerLine.empty())
        {
            std::string l;
            l.swap(innerLine);
            running->execute(cu::view(l));
            innerLine = l;
        }
        std::string again;
        ((again += read(args) + "|"), ...);
        MC_CHECK(all == again, "the arguments changed during a nested execution");
        seen = all;
    }
    A globalA{"global"};
    M globalM{"global"};

    std::string value(ref::Subvalues const& s, char shape)
    {
        // 's': single, 'v': vector, 'o': optional; "!" if the conversion fails
        if (shape == 'v')
        {
            std::string r = "[";
            for (auto& e : s)
            {
                if (e == "bad")
                    return "!";
                r += e + ";";
            }
            return r + "]";
        }
        if (shape == 'o' && (s.empty() || (s.size() == 1 && s[0].empty())))
            return "none";
        return s.size() != 1 || s[0] == "bad" ? "!" : s[0];
    }

    struct Command
    {
        char const* name;
        std::vector<char> shapes;
        char const* ret; // nullptr: void; "*": rendered from the arguments
    };
    std::vector<Command> commands;
    void bindArguments(coil::Bindings& b)
    {
        commands = {{"a1", {'s'}, nullptr}, {"m1", {'s'}, nullptr}, {"ac", {'s'}, "A global"}, {"mc", {'s'}, "M global"}, {"aa", {'s', 's'}, "A result"}, {"am", {'s', 's'}, "M result"}, {"mm", {'s', 's'}, "M global"},
            {"va", {'v'}, "[M x, M y]"}, {"vm", {'v'}, "M z"}, {"oa", {'o'}, nullptr}, {"om", {'o'}, "M global"}, {"vo", {'v', 'o'}, "M kept"}, {"cm", {'v', 'o', 's'}, nullptr}, {"mix", {'s', 's', 'v'}, "A mixed"}, {"rr", {'s'}, nullptr}, {"all", {'s', 's', 's', 's', 's', 's'}, nullptr}};
        b["a1"] = [](A a) { body(a); };
        b["m1"] = [](M m) { body(m); M taken(std::move(m)); MC_CHECK(taken.text, "nothing was taken"); };
        b["ac"] = [](A const& a) -> A const& { body(a); return globalA; };
        b["mc"] = [](M const& m) -> M& { body(m); return globalM; };
        b["aa"] = [](A a, A const& c) { body(a, c); return A("result"); };
        b["am"] = [](coil::Context c, A const& a, M m) { body(a, m); c.log("x"); return M("result"); };
        b["mm"] = [](M m, M const& c) -> M const* { body(m, c); return &globalM; };
        b["va"] = [](std::vector<A> v) { body(v); std::vector<M> r; r.emplace_back("x"); r.emplace_back("y"); return r; };
        b["vm"] = [](std::vector<M> v) { body(v); return std::optional<M>(M("z")); };
        b["oa"] = [](std::optional<A> o) { body(o); };
        b["om"] = [](std::optional<M> o) -> M* { body(o); return &globalM; };
        b["vo"] = [kept = std::make_unique<M>("kept")](std::vector<M> const& v, std::optional<A> const& o) mutable -> M const& { body(v, o); return *kept; };
        b["cm"] = [](coil::Context c, std::vector<A> const& v, std::optional<M> o, M m) { body(v, o, m); c.log("x"); };
        b["mix"] = coil::overloaded([](A a) { body(a); }, [](A a, M m, std::vector<M> v) { body(a, m, v); return A("mixed"); });
        b["rr"] = [](M&& m) { body(m); M taken(std::move(m)); };
        b["all"] = [](A a, M m, A const& b, M const& n, A c, M o) { body(a, m, b, n, c, o); };
    }
    void runLine(coil::Bindings& b, Command const& c, std::string const& line)
    {
        long alive = Tracked::alive, copies = Tracked::copies;
        entered = false;
        seen.clear();
        MC_OP("execute %s", mc::show(line.substr(0, 300)).c_str());
        auto in = ref::parse({}, line);
        MC_CHECK(in.args.size() == c.shapes.size(), "the harness made a wrong line");
        std::string want;
        bool fails = false;
        for (size_t i = 0; i < in.args.size(); i++)
        {
            std::string v = value(in.args[i], c.shapes[i]);
            fails = fails || v == "!";
            want += v + "|";
        }
        cu::Line l{line};
        auto r = b.execute(coil::StringView(l));
        MC_CHECK(entered != fails, "%s: %s", line.c_str(), fails ? "called although a conversion fails" : "not called");
        MC_CHECK(fails == (r.errors.size() > 0), "%s: %zu errors", line.c_str(), size_t(r.errors.size()));
        if (!fails)
        {
            MC_CHECK(seen == want, "%s: the arguments are %s instead of %s", line.c_str(), seen.c_str(), want.c_str());
            MC_CHECK(cu::ret(r) == (c.ret ? std::optional<std::string>(c.ret) : std::nullopt), "%s returns %s", line.c_str(), cu::show(cu::ret(r)).c_str());
        }
        MC_CHECK(Tracked::copies == copies, "%s: %ld arguments were copied", line.c_str(), Tracked::copies - copies);
        MC_CHECK(Tracked::alive == alive, "%s: %ld arguments or results were not destroyed", line.c_str(), Tracked::alive - alive);
        mc::outcome(mc::hashStr(line, mc::hashStr(seen)));
    }
    coil::Bindings& argumentBindings()
    {
        static coil::Bindings* b = [] {
            auto* n = new coil::Bindings;
            bindArguments(*n);
            // creates the type names
            for (auto& c : commands)
            {
                std::string line = c.name;
                for (size_t i = 0; i < c.shapes.size(); i++)
                    line += " bad";
                n->execute(cu::view(line));
            }
            return n;
        }();
        return *b;
    }
}
static void arguments()
{
    reset();
    auto& b = argumentBindings();
    running = &b;
    Command const& c = commands[size_t(mc::choose(int(commands.size())))];
    static char const* const texts[] = {"one", "'a text that is longer than small buffers'", "bad", "(x y)", "''", "(x bad)", "()"};
    std::string line = c.name;
    int n = c.shapes.size() > 3 ? 4 : 7;
    for (size_t i = 0; i < c.shapes.size(); i++)
        line += std::string(" ") + texts[mc::choose(n)];
    static char const* const inner[] = {"", "am q r", "cm (q r) s t", "aa bad x"};
    innerLine = inner[mc::choose(4)];
    if (!innerLine.empty())
        MC_OP("executes %s inside", innerLine.c_str());
    runLine(b, c, line);
    innerLine.clear();
    runLine(b, c, line);
    mc::state(mc::hashStr(line));
}

// any number of arguments, overloads, subvalues and commands
namespace
{
    template<size_t>
    using Always = M;
    template<size_t>
    using AlwaysRef = A const&;

    template<size_t... Is>
    void arity(std::index_sequence<Is...>)
    {
        coil::Bindings b;
        auto f = [](Always<Is>... args) { body(args...); };
        auto g = [](coil::Context, AlwaysRef<Is>... args) { body(args...); };
        b["f"] = std::move(f);
        b["g"] = std::move(g);
        std::string args;
        ((args += " value" + std::to_string(Is)), ...);
        Command c{"f", std::vector<char>(sizeof...(Is), 's'), nullptr};
        for (char const* n : {"f", "g"})
        {
            runLine(b, c, n + args);
            // every single conversion fails once
            for (size_t i = 0; i < sizeof...(Is); i++)
            {
                std::string line = n;
                for (size_t j = 0; j < sizeof...(Is); j++)
                    line += i == j ? " bad" : " value" + std::to_string(j);
                runLine(b, c, line);
            }
        }
    }
    template<size_t... Ns>
    constexpr auto arityTable(std::index_sequence<Ns...>)
    {
        return std::array<void (*)(), sizeof...(Ns)>{[] { arity(std::make_index_sequence<Ns>{}); }...};
    }
}
static void arities()
{
    reset();
    static constexpr auto table = arityTable(std::make_index_sequence<17>{});
    int n = mc::choose(int(table.size()));
    MC_OP("%d arguments", n);
    table[size_t(n)]();
    mc::state(mc::mix(uint64_t(n), 77));
    MC_CHECK(Tracked::alive == base, "%ld arguments were not destroyed", Tracked::alive - base);
}

static void subvalues()
{
    reset();
    auto& b = argumentBindings();
    static char const* const names[] = {"va", "vm"};
    int which = mc::choose(2);
    size_t n = chooseLength(mc::asan() ? 100 : 300, mc::asan() ? 1100 : 5000);
    int bad = mc::choose(4); // none, the first, the middle or the last one
    std::string line = std::string(names[which]) + " (";
    for (size_t i = 0; i < n; i++)
        line += (bad == 1 && i == 0) || (bad == 2 && i == n / 2) || (bad == 3 && i == n - 1) ? "bad " : "v" + std::to_string(i) + " ";
    for (auto& c : commands)
        if (std::string(c.name) == names[which])
            runLine(b, c, line + ")");
    mc::state(n * 8 + uint64_t(which * 4 + bad));
}

// tables of every size: every callable is destroyed when its name is removed or bound again
static void tables()
{
    reset();
    {
        Sim s;
        sim = &s;
        size_t n = chooseLength(mc::asan() ? 60 : 200, mc::asan() ? 260 : 1100);
        int manner = mc::choose(6);
        MC_OP("%zu commands, manner %d", n, manner);
        for (size_t i = 0; i < n; i++)
        {
            std::string name = "n" + std::to_string(i);
            s.model[name] = bindKind(name, int(i % 4), 0);
        }
        checkAlive(s.model, "after binding all");
        callAll(s.model);
        if (manner == 0)
            for (size_t i = 0; i < n; i++)
            {
                std::string name = "n" + std::to_string(i);
                s.bindings->remove(cu::view(name));
                s.model.erase(name);
                if (i % 7 == 0 || n < 30)
                    checkAlive(s.model, "while all are removed");
            }
        else if (manner == 1)
            for (size_t i = n; i-- > 0;)
            {
                std::string name = "n" + std::to_string(i);
                (*s.bindings)[cu::view(name)] = nullptr;
                s.model.erase(name);
                if (i % 7 == 0 || n < 30)
                    checkAlive(s.model, "while all are removed in reverse");
            }
        else if (manner == 2)
            for (size_t i = 0; i < n; i++)
            {
                std::string name = "n" + std::to_string(i * 7919 % n);
                s.model[name] = bindKind(name, int((i + 1) % 5), 0);
                if (i % 7 == 0 || n < 30)
                    checkAlive(s.model, "while all are bound again");
            }
        else if (manner == 3)
        {
            s.bindings->clear();
            s.model.clear();
        }
        else if (manner == 4)
        {
            // several overloads of one name
            coil::Vector<coil::AnyFunctor> v;
            std::vector<One> m;
            for (size_t i = 0; i < n; i++)
            {
                int id = s.next++;
                if (i % 2)
                    v.pushBack(coil::detail::createAnyFunctor(lambda<>(id)));
                else
                    v.pushBack(coil::detail::createAnyFunctor(Functor<>(id)));
                m.push_back({id, i ? -1 : 0});
            }
            s.bindings->add("n0", std::move(v));
            s.model["n0"] = m;
        }
        checkAlive(s.model, "at the end");
        callAll(s.model);
        mc::outcome(hashOf(s.model));
        mc::state(mc::mix(n, uint64_t(manner)));
    }
    finish();
}

// the same state over very many calls
static void manyCalls()
{
    reset();
    {
        Sim s;
        sim = &s;
        s.model["a"] = bindKind("a", mc::choose(3), 0);
        s.model["bb"] = bindKind("bb", 6, 0);
        int n = mc::thorough() ? 70000 : mc::asan() ? 3000 : 30000;
        long before = mc::liveAllocations();
        for (int i = 0; i < n; i++)
            callAll(s.model);
        MC_CHECK(mc::liveAllocations() - before < 10, "memory is lost in calls: %ld allocations", mc::liveAllocations() - before);
        checkAlive(s.model, "after many calls");
    }
    finish();
}

MC_MAIN({"histories", histories}, {"throwing_moves", throwingMoves}, {"callable_sizes", callableSizes}, {"arguments", arguments}, {"arities", arities}, {"subvalues", subvalues}, {"tables", tables}, {"many_calls", manyCalls})
