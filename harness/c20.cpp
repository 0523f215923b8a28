// C20: independent instances never influence each other, even across threads.
// Each operation works on the instances of one World and writes down what it observes. What a World
// observes alone must be what it observes with any other World at work in between or at the same time.
#include "cu.h"
#include "lexcheck.h"
#ifdef MC_THREADS
#include "threads.h"
#endif

#include <map>
#include <stdexcept>

namespace
{
    struct Object
    {
        int value = 3;
        int const& get() const { return value; }
        void set(int v) { value = v; }
        std::string text(std::string const& s) const { return s + "!"; }
    };

    struct Containers
    {
        coil::String text{"a text that is longer than any small buffer"};
        coil::Vector<coil::String> list;
        coil::UnorderedMap<coil::String, coil::String> map;
        coil::Optional<coil::String> optional;
        coil::Expected<coil::String, coil::String> expected{coil::String{"expected content that is long enough"}};
        coil::Value value;
        coil::ExecutionInput input;

        Containers()
        {
            for (int i = 0; i < 3; i++)
            {
                list.pushBack(coil::sprintf("element %d that is long enough", i));
                map.insertOrAssign(coil::sprintf("key %d that is long enough", i), coil::sprintf("value %d", i));
                value.subvalues.pushBack(coil::StringView("sub"));
            }
            optional = coil::String{"optional content that is long enough"};
            input.name = "f";
            input.arguments.pushBack(coil::Value{coil::StringView("41")});
        }
    };

    struct World
    {
        explicit World(Containers const& c, int tag, char* line) : own(c), tag(tag), lineBuffer(line) { build(); }

        Containers own;
        int tag;
        char* lineBuffer; // every line is executed from this memory
        coil::Bindings bindings;
        coil::DefaultLexer lexer;
        Object object;
        int number = 1;
        double real = 0.5;
        std::string words = "w";
        std::vector<int> numbers{1, 2};
        std::optional<short> maybe;
        int calls = 0;
        std::string seen;

        void build()
        {
            World* w = this;
            bindings["f"] = coil::overloaded([w] { w->calls++; return w->tag; }, [w](int x) { w->calls++; return x + w->tag; }, [w](coil::Context c, coil::StringView s, std::vector<int> v) { w->calls++; c.log(cu::string("log " + cu::str(s))); return v; });
            bindings["n"] = [w](coil::Context c) {
                auto r = c.namedArgs().getOrReport<int>("k", coil::NamedArgs::ArgType::Required);
                auto o = c.namedArgs().getOrReport<std::optional<int>>("o", coil::NamedArgs::ArgType::Optional, std::optional<int>(w->tag));
                c.logf("%d of %zu named", r ? *r : -1, size_t(c.namedArgs().size()));
                return o ? *o : std::optional<int>();
            };
            bindings["t"] = [w](coil::Context c, int kind) -> int {
                c.logf("before %d", w->tag);
                if (kind == 1)
                    throw std::runtime_error("thrown by world " + std::to_string(w->tag));
                if (kind == 2)
                    throw w->tag;
                c.reportError(coil::sprintf("reported by %d", w->tag));
                return kind;
            };
            bindings["nest"] = [w](coil::Context c, std::string line) {
                auto r = w->bindings.execute(cu::view(line));
                c.log(cu::string(describe(r)));
            };
            bindings["d"] = [](double d, float f, long double l) { return d * f / l; };
            bindings["u"] = [](unsigned char u, long long l, bool b) { return b ? l : u; };
            bindings["o"] = [](std::optional<std::vector<std::string>> o) { return o ? o->size() : 77; };
            bindings["number"] = coil::variable(&number);
            bindings["real"] = coil::variable(&real);
            bindings["words"] = coil::variable(&words);
            bindings["numbers"] = coil::variable(&numbers);
            bindings["maybe"] = coil::variable(&maybe);
            bindings["property"] = coil::bindProperty(&Object::get, &Object::set, &object);
            bindings["member"] = coil::bind(&Object::text, &object);
        }

        static std::string describe(coil::ExecutionResult const& r)
        {
            std::string s = "errors [";
            for (auto& e : cu::errors(r))
                s += e + "|";
            return s + "] return " + cu::show(cu::ret(r)) + " output " + cu::str(r.output) + " input " + cu::show(cu::fromCoil(r.input));
        }

        void run(char const* line)
        {
            size_t n = strlen(line);
            memcpy(lineBuffer, line, n);
            auto r = bindings.execute(coil::StringView{lineBuffer, n});
            seen += describe(r) + ";";
        }

        void table(char const* name)
        {
            auto* d = bindings.get(name);
            if (!d)
            {
                seen += "absent;";
                return;
            }
            seen += cu::str(d->name);
            for (auto& f : d->functors)
            {
                seen += " " + cu::str(f.returnType()) + "(";
                for (auto const& p : f.parameterTypes())
                    seen += cu::str(p) + ",";
                seen += ")";
            }
        }

        template<typename T>
        void convert(char const* text)
        {
            auto r = coil::TypeSerializer<T>::fromString(coil::Value{coil::StringView(text)});
            seen += r ? cu::str(coil::TypeSerializer<T>::toString(*r)) : cu::str(r.error());
            seen += "/";
        }
    };

    using Op = void (*)(World&);
    Op const operations[] = {
        [](World& w) { w.run("f"), w.run("f 41"), w.run("f text (1,2,3)"); },
        [](World& w) { w.run("f 4x"), w.run("f ab (1,x)"), w.run("u 300 1 maybe"), w.run("d 1e999 x ''"); },
        [](World& w) { w.run(w.tag == 1 ? "f 'ab" : "f (cd"), w.run(w.tag == 1 ? "gone 1" : "lost 2"), w.run("f 1 2 3"), w.run(""); },
        [](World& w) { w.run("n k=1"), w.run("n k=x o=(1,2)"), w.run(w.tag == 1 ? "n a=1" : "n b=2 k=7 o=''"); },
        [](World& w) { w.run("t 0"), w.run("t 1"), w.run("t 2"); },
        [](World& w) { w.run("nest 'f 5'"), w.run("nest \"t 1\""), w.run("nest 'nest f'"); },
        [](World& w) { w.run(w.tag == 1 ? "d 1.5 2 3" : "d 7 0.1 9"), w.run("u 255 -9223372036854775808 true"), w.run("o (a,b)"), w.run("o ''"); },
        [](World& w) { w.run(w.tag == 1 ? "number 10" : "number 20"), w.run("number"), w.run("real 2.25"), w.run("words 'some words'"), w.run("numbers (4,5,6)"), w.run("maybe 7"), w.run("maybe"); },
        [](World& w) { w.run("property"), w.run(w.tag == 1 ? "property 11" : "property 22"), w.run("property"), w.run("member x"); },
        [](World& w) {
            if (w.tag == 1)
                w.bindings.setLexer(coil::makeUnique<coil::DefaultLexer>("[]", "`", "/", " "));
            else
                w.bindings.setLexer(coil::makeUnique<coil::DefaultLexer>("<>", "'", ";", "_ "));
            w.run("f a <1;2>"), w.run("f a [1/2]"), w.run("f_1"), w.run("f `x");
        },
        [](World& w) {
            for (char const* l : {"a 'b c' (d,e) k=v", "x,y z", "q='", "(('"})
            {
                auto r = w.lexer.parse(l);
                w.seen += r ? cu::show(cu::fromCoil(*r)) : cu::str(r.error());
            }
        },
        [](World& w) {
            w.bindings.remove("u");
            w.bindings[w.tag == 1 ? "u" : "v"] = [t = w.tag](short s) { return s * t; };
            w.bindings["d"] = nullptr;
            for (int i = 0; i < 12; i++)
                w.bindings[cu::view("many " + std::to_string(i))] = [i, t = w.tag] { return i + t; };
            w.run("u 3"), w.run("v 3"), w.run("d 1 2 3"), w.run("'many 7'");
            w.table("u"), w.table("f"), w.table("o"), w.table("many 3");
        },
        [](World& w) {
            coil::Bindings other = std::move(w.bindings);
            w.bindings = coil::Bindings{};
            w.run("f");
            w.bindings = std::move(other);
            w.run("f 1");
        },
        [](World& w) {
            auto& s = w.own.text;
            s += w.tag == 1 ? " one" : " two";
            s += s;
            s.append(s.cStr() + 2, 5);
            s.resize(30);
            coil::String t = s;
            t += 'x';
            const_cast<char*>(t.cStr())[0] = 'T';
            w.seen += cu::str(s) + cu::str(t) + cu::str(coil::sprintf("%s-%d-%5.2f-%d", t.cStr(), w.tag, 1.5, int(coil::Hash<coil::String>{}(s) % 1000)));
            w.own.text = std::move(t);
        },
        [](World& w) {
            auto& l = w.own.list;
            l[1] += w.tag == 1 ? " one" : " two";
            auto copy = l;
            l.pushBack("another element that is long enough");
            l[0] = coil::String{"replaced"};
            copy.resize(2);
            copy.popBack();
            for (auto& e : l)
                w.seen += cu::str(e) + ",";
            w.seen += std::to_string(copy.size()) + (l == copy ? "=" : "#");
        },
        [](World& w) {
            auto& m = w.own.map;
            coil::String k{"key 1 that is long enough"};
            m.insertOrAssign(k, coil::sprintf("changed by %d", w.tag));
            auto copy = m;
            copy.erase(k);
            for (int i = 0; i < 8; i++)
                m.insertOrAssign(coil::sprintf("more %d", i), coil::sprintf("%d", i * w.tag));
            std::map<std::string, std::string> sorted;
            for (auto& kv : m)
                sorted[cu::str(kv.key())] = cu::str(kv.value());
            for (auto& kv : sorted)
                w.seen += kv.first + "=" + kv.second + ",";
            w.seen += std::to_string(copy.size());
        },
        [](World& w) {
            auto& o = w.own.optional;
            *o += w.tag == 1 ? "1" : "2";
            auto c = o;
            o = {};
            o = coil::sprintf("optional of %d", w.tag);
            auto& e = w.own.expected;
            *e += "e";
            auto d = e;
            e = coil::makeUnexpected(coil::sprintf("error of %d", w.tag));
            w.seen += cu::str(*o) + cu::str(*c) + cu::str(e.error()) + cu::str(*d);
            e = std::move(d);
            auto p = coil::makeUnique<coil::String>("owned");
            *p += "!";
            w.seen += cu::str(*p);
        },
        [](World& w) {
            auto copy = w.own.input;
            copy.arguments.pushBack(coil::Value{coil::StringView("x")});
            w.own.value.subvalues.pushBack(w.tag == 1 ? "one" : "two");
            copy.arguments.pushBack(w.own.value);
            w.seen += cu::show(cu::fromCoil(copy)) + cu::show(cu::fromCoil(w.own.input));
            w.seen += World::describe(w.bindings.execute(w.own.input));
        },
        [](World& w) {
            w.convert<float>("1.5"), w.convert<double>(w.tag == 1 ? "1e-7" : "12345678"), w.convert<long double>("x"), w.convert<unsigned char>("256"), w.convert<long>("-5"), w.convert<bool>("TRUE");
            w.convert<std::vector<std::string>>("a"), w.convert<std::optional<unsigned>>("-1"), w.convert<std::vector<std::optional<int>>>("z");
            w.seen += cu::str(coil::TypeName<std::optional<std::vector<int>>>::name());
        },
        [](World& w) {
            std::string t = text(400);
            w.run(("f " + t).c_str()), w.run(("'" + t + "'").c_str()), w.run(("f " + t + " (1,2)").c_str());
        },
    };
    constexpr int operationCount = sizeof operations / sizeof operations[0];

    struct Program
    {
        World* world = nullptr;
        std::vector<int> ops;
        Containers const* origin = nullptr; // to build the world in the thread itself
        int tag = 0;
        std::string seen;
        char line[2000];

        void execute()
        {
            if (world)
                return executeOn(*world);
            World w{*origin, tag, line};
            executeOn(w);
        }
        void executeOn(World& w)
        {
            for (int o : ops)
            {
                operations[o](w);
#ifdef MC_THREADS
                th::step();
#endif
            }
            for (int& c : {std::ref(w.calls)})
                w.seen += " calls " + std::to_string(c);
            w.seen += " number " + std::to_string(w.number) + " object " + std::to_string(w.object.value) + " words " + w.words + " text " + cu::str(w.own.text);
            seen = w.seen;
        }
    };

    std::string alone(std::vector<int> const& ops, int tag)
    {
        Containers c;
        Program p;
        World w{c, tag, p.line};
        p.world = &w;
        p.ops = ops;
        p.execute();
        return p.seen;
    }

    void compare(std::string const& have, std::string const& want, int tag)
    {
        uint64_t h = mc::hashStr(want);
        mc::outcome(h);
        mc::state(mc::mix(h, mc::hashStr(have)));
        mc::validated();
        if (have == want)
            return;
        size_t i = 0;
        while (i < have.size() && i < want.size() && have[i] == want[i])
            i++;
        i = i > 60 ? i - 60 : 0;
        mc::fail("instances %d observe\n  %s\n  and alone\n  %s", tag, mc::show(have.substr(i, 300)).c_str(), mc::show(want.substr(i, 300)).c_str());
    }

    std::string listed(std::vector<int> const& v)
    {
        std::string s;
        for (int i : v)
            s += std::to_string(i) + " ";
        return s;
    }

#ifdef MC_THREADS
    void body(void* p) { static_cast<Program*>(p)->execute(); }

    void threads(std::vector<int> const& a, std::vector<int> const& b, int preemptions)
    {
        mc::leakCheck = false;
        Program p[2];
        p[0].ops = a, p[1].ops = b;
        p[0].tag = 1, p[1].tag = 2;
        int way = mc::choose(2);
        MC_OP("thread 1: operations %s; thread 2: operations %s; instances made by %s", listed(a).c_str(), listed(b).c_str(), way ? "the main thread" : "each thread");
        {
            Containers origin;
            std::unique_ptr<World> w[2];
            if (way)
                for (int i = 0; i < 2; i++)
                {
                    w[i] = std::make_unique<World>(origin, i + 1, p[i].line);
                    p[i].world = w[i].get();
                }
            std::unique_ptr<Containers> copies[2];
            for (int i = 0; i < 2; i++)
            {
                copies[i] = std::make_unique<Containers>(origin);
                p[i].origin = copies[i].get();
            }
            th::run(body, &p[0], body, &p[1], preemptions);
        }
        for (int i = 0; i < 2; i++)
            compare(p[i].seen, alone(p[i].ops, i + 1), i + 1);
    }

    // every pair of operations in a fresh process
    void pairs()
    {
        std::vector<int> a{mc::choose(operationCount)}, b{mc::choose(operationCount)};
        threads(a, b, mc::thorough() ? 2 : 1);
    }

    // the same after another operation of the first thread
    void sequences()
    {
        int x = mc::choose(operationCount), y = mc::choose(operationCount), z = mc::choose(operationCount);
        threads({x, y}, {z}, mc::thorough() ? 1 : 0);
    }

    // everything at once
    void all()
    {
        std::vector<int> a, b;
        bool reversed = mc::flip();
        for (int i = 0; i < operationCount; i++)
        {
            a.push_back(i);
            b.push_back(reversed ? operationCount - 1 - i : i);
        }
        threads(a, b, mc::thorough() ? 2 : 1);
    }
#else
    // every interleaving of the operations of two sets of instances in one thread
    void interleaved(int n)
    {
        static char line[2000]; // the lines of both are executed from the same memory
        std::vector<int> ops[2];
        for (int t = 0; t < 2; t++)
            for (int i = 0; i < n; i++)
                ops[t].push_back(mc::choose(operationCount));
        Containers origin;
        std::string seen[2], order;
        {
            World w[2] = {World{origin, 1, line}, World{origin, 2, line}};
            size_t next[2] = {0, 0};
            while (next[0] < ops[0].size() || next[1] < ops[1].size())
            {
                int t = next[0] == ops[0].size() ? 1 : next[1] == ops[1].size() ? 0 : mc::choose(2);
                order += char('1' + t);
                MC_OP("instances %d: operation %d", t + 1, ops[t][next[t]]);
                operations[ops[t][next[t]++]](w[t]);
            }
            for (int t = 0; t < 2; t++)
            {
                Program p;
                p.world = &w[t];
                p.execute();
                seen[t] = p.seen;
            }
        }
        for (int t = 0; t < 2; t++)
            compare(seen[t], alone(ops[t], t + 1), t + 1);
    }
    void one() { interleaved(1); }
    void two() { interleaved(2); }

    // instances made and destroyed while others live
    void lifetimes()
    {
        static char line[2000];
        std::unique_ptr<World> w[3];
        std::vector<int> ops[3];
        Containers origin;
        int steps = mc::thorough() ? 6 : 5;
        for (int i = 0; i < steps; i++)
        {
            int k = mc::choose(3);
            if (!w[k])
            {
                MC_OP("make %d", k);
                w[k] = std::make_unique<World>(origin, k + 1, line);
                ops[k].clear();
            }
            else if (mc::flip())
            {
                int o = !mc::thorough() ? (mc::choose(4) * 5 + i + k * 3) % operationCount : mc::choose(operationCount);
                MC_OP("operation %d on %d", o, k);
                operations[o](*w[k]);
                ops[k].push_back(o);
            }
            else
            {
                MC_OP("destroy %d", k);
                w[k].reset();
            }
        }
        for (int k = 0; k < 3; k++)
            if (w[k])
            {
                Program p;
                p.world = w[k].get();
                p.execute();
                compare(p.seen, alone(ops[k], k + 1), k + 1);
            }
    }
#endif
}

#ifdef MC_THREADS
MC_MAIN({"pairs", pairs, 3, 3, true}, {"sequences", sequences, 3, 3, true}, {"all", all, 3, 3, true})
#else
MC_MAIN({"one_operation", one}, {"two_operations", two, 3, 2}, {"lifetimes", lifetimes})
#endif
