#include "c25.h"

#include <map>
using namespace c25;
using S = coil::String;
using SV = coil::StringView;

namespace
{
    ip::Table& table()
    {
        static ip::Table* t = [] {
            auto* t = new ip::Table;
            auto def = [t](char const* name, auto fill) {
                coil::Vector<coil::AnyFunctor> fs;
                std::vector<ip::Func> model;
                fill(fs, model);
                t->bindings[name] = std::move(fs);
            };
            def("f", [](auto& fs, auto& m) {
                ip::overload<int, true>(fs, m, "f0");
                ip::overload<std::string, false, int>(fs, m, "f1");
                ip::overload<void, true, S, bool>(fs, m, "f2");
                ip::overload<std::string, true, std::vector<int>, std::optional<int>, coil::Value>(fs, m, "f3");
            });
            def("g", [](auto& fs, auto& m) {
                ip::overload<std::string, false, std::string_view>(fs, m, "g1");
                ip::overload<std::string, false, unsigned char, double>(fs, m, "g2");
                ip::overload<void, false, std::optional<std::string>, std::vector<SV>, float, long long>(fs, m, "g4");
            });
            def("a b", [](auto& fs, auto& m) { ip::overload<int, false>(fs, m, "ab0"); });
            def("1", [](auto& fs, auto& m) { ip::overload<std::string, true, std::vector<std::string>>(fs, m, "one"); });
            def("", [](auto& fs, auto& m) { ip::overload<int, true>(fs, m, "empty"); });
            def("e", [](auto&, auto&) {});
            return t;
        }();
        return *t;
    }

    int depth(int quick, int thorough) { return mc::thorough() ? thorough : quick; }

    void strings() { observed(run(table().bindings, chooseString("f1 =,('-\"", depth(5, 6)))); }

    void tokens()
    {
        static char const* const toks[] = {"f", "g", "1", "-7", "true", "(1 2)", "'a b'", "x", "=", "e", "()", "''", "300", "1.5", "1,x", "(", "'", "nan", "99999999999999999999"};
        std::string line;
        int len = mc::choose(depth(4, 5) + 1);
        for (int i = 0; i < len; i++)
            line += (i ? " " : "") + std::string(i == 0 ? toks[mc::choose(10)] : toks[mc::choose(19)]);
        observed(run(table().bindings, line));
    }

    void bytes()
    {
        static char const* const templates[] = {"?", "f ?", "f 1?", "f ?1", "?f", "f? 1", "f (?) ? ?", "f x ?", "g ?", "g '?'", "g 1 ?", "g k=? 1", "g ?=k 1", "1 (?,?)", "g 2 ?1", "f ?#", "1 '?'#"};
        int t = mc::choose(17);
        char b1 = static_cast<char>(mc::choose(256)), b2 = ' ';
        std::string tpl = templates[t];
        if (tpl.find('#') != std::string::npos)
            b2 = static_cast<char>(mc::choose(256));
        std::string line;
        for (char c : tpl)
            line += c == '?' ? b1 : c == '#' ? b2 : c;
        observed(run(table().bindings, line));
    }

    void oddTexts()
    {
        static char const* const templates[] = {"'?'", "f '?'", "g '?' ?", "1 (? ?)", "f x '?' '?'", "g '?' '?' 1 2", "f k=? '?'"};
        std::string tpl = templates[mc::choose(7)], line;
        std::string const& w = oddWord();
        for (char c : tpl)
            line += c == '?' ? w : std::string(1, c);
        observed(run(table().bindings, line));
    }

    void sizes()
    {
        static char const* const heads[] = {"", "f ", "g 1 2 ", "1 "};
        int head = mc::choose(4);
        int kind = mc::choose(18);
        size_t n = chooseLength(mc::thorough() ? 400 : 80, 9000);
        observed(run(table().bindings, heads[head] + sizedLine(kind, n)));
    }

    // lexers of all kinds
    void lexers()
    {
        static char const* const groups[] = {"", "()", "'(", "\xE9", "a="};
        static char const* const quotes[] = {"", "'", "(", "\xE9'", "="};
        static char const* const seps[] = {"", ",", " ", "'", "\xE9" "a"};
        static char const* const spaces[] = {"", " ", "=", "(", ",\xE9"};
        std::string g = groups[mc::choose(5)], q = quotes[mc::choose(5)], s = seps[mc::choose(5)], sp = spaces[mc::choose(5)];
        std::string line = chooseString("a= ()',\xE9x", depth(2, 3));
        line = mc::flip() ? "a x" + line + "a(x,'" : line;
        coil::DefaultLexer lexer{cu::view(g), cu::view(q), cu::view(s), cu::view(sp)};
        cu::Line l{line};
        auto r = lexer.parse(coil::StringView(l));
        observed(r ? cu::show(cu::fromCoil(*r)) : "error " + mc::show(cu::str(r.error())));
    }

    // the table: histories of changes with lookups and executions after each step
    void tables()
    {
        static char const* const names[] = {"a", "bb", "bB", "a name longer than any small buffer could be"};
        coil::Bindings owner[2];
        int cur = 0, version = 0;
        std::string all;
        int steps = depth(3, 4);
        for (int i = 0; i < steps; i++)
        {
            int op = mc::choose(10);
            if (op == 9)
                break;
            std::string n = op < 7 ? names[mc::choose(4)] : "";
            cu::Line l{n};
            coil::StringView name = l;
            coil::Bindings& b = owner[cur];
            int v = ++version;
            MC_OP("operation %d on %s", op, n.c_str());
            switch (op)
            {
            case 0: b[name] = [v](int x) { return v * 1000 + x; }; break;
            case 1: b[name] = coil::overloaded([v] { return v; }, [v](unsigned char x, coil::String const&) { return v * 1000 + x; }); break;
            case 2: b.add(name, [v](coil::Context c) { c.log("ran"); return v; }); break;
            case 3: b.remove(name); break;
            case 4: b[name] = nullptr; break;
            case 5: { coil::Vector<coil::AnyFunctor> fs; fs.pushBack(coil::detail::createAnyFunctor([v](short x, unsigned long y) { return x + y + v; })); b.add(name, std::move(fs)); break; }
            case 6: b[name]; break;
            case 7: b.clear(); break;
            case 8: owner[1 - cur] = std::move(b); cur = 1 - cur; break;
            }
            for (char const* k : names)
            {
                all += describe(owner[cur], k) + ";";
                for (char const* a : {"", " 7", " 7 8"})
                    all += run(owner[cur], "'" + std::string(k) + "'" + a);
            }
        }
        observed(all);
    }

    // named arguments, looked up at several types
    void named()
    {
        static char const* const keys[] = {"a", "b", "ab", "", "A"};
        static char const* const values[] = {"1", "x", "''", "(1 2)", "300", "'1'", "1.5", "()"};
        std::string line = "f";
        int n = mc::choose(4);
        for (int i = 0; i < n; i++)
        {
            std::string k = keys[mc::choose(n == 3 ? 3 : 5)];
            line += " " + (k.empty() ? "''" : k) + "=" + values[mc::choose(n == 3 ? 4 : 8)];
        }
        coil::Bindings b;
        std::string seen;
        b["f"] = [&seen](coil::Context c) {
            auto args = c.namedArgs();
            seen += std::to_string(args.size()) + ";";
            for (auto const& a : args)
                seen += mc::show(cu::str(a.key)) + "=" + cu::show(cu::subs(a.value)) + ";";
            for (char const* k : {"a", "b", "ab", "", "c"})
            {
                auto i = args.get<int>(k);
                seen += i ? std::to_string(*i) : plain(cu::str(i.error().message)) + std::to_string(int(i.error().type));
                auto s = args.get<std::vector<unsigned char>>(k);
                seen += s ? std::to_string(s->size()) : plain(cu::str(s.error().message)) + std::to_string(int(s.error().type));
                auto o = args.getOrReport<unsigned short>(k, coil::NamedArgs::ArgType::Optional, 5);
                seen += o ? std::to_string(*o) : "none";
                auto r = args.getOrReport<coil::String>(k, coil::NamedArgs::ArgType::Required);
                seen += r ? cu::str(*r) : "none";
                auto v = args.getOrReport(k, coil::NamedArgs::ArgType::Optional);
                seen += v ? cu::show(cu::subs(*v)) : "none";
            }
            return args.size();
        };
        std::string r = run(b, line);
        observed(r + seen);
    }

    // variables and properties
    struct Object
    {
        int value = 3;
        int const& get() const { return value; }
        void set(int v) { value = v > 100 ? 100 : v; }
    };
    void storage()
    {
        static char const* const names[] = {"i", "u8", "d", "s", "v", "o", "ci", "p", "rp", "b"};
        static char const* const args[] = {"", " 7", " -1", " 300", " x", " 1.5", " ''", " (1 2)", " 1 2", " true"};
        struct World
        {
            int i = 1;
            unsigned char u8 = 2;
            double d = 0.5;
            std::string s = "text";
            std::vector<int> v = {4, 5};
            std::optional<short> o;
            bool b = false;
            Object obj;
        } w;
        coil::Bindings b;
        b["i"] = coil::variable(&w.i);
        b["u8"] = coil::variable(&w.u8);
        b["d"] = coil::variable(&w.d);
        b["s"] = coil::variable(&w.s);
        b["v"] = coil::variable(&w.v);
        b["o"] = coil::variable(&w.o);
        b["b"] = coil::variable(&w.b);
        b["ci"] = coil::variable(static_cast<int const*>(&w.i));
        b["p"] = coil::bindProperty(&Object::get, &Object::set, &w.obj);
        b["rp"] = coil::property([&w]() -> int const& { return w.obj.get(); });
        std::string all;
        int steps = depth(2, 3);
        for (int i = 0; i < steps; i++)
        {
            int k = mc::choose(10);
            all += run(b, std::string(names[k]) + args[mc::choose(10)]);
            all += run(b, names[k]);
        }
        for (char const* n : names)
            all += run(b, n), all += describe(b, n);
        observed(all);
    }

    // what a command reports and logs
    void reports()
    {
        static char const* const texts[] = {"", "t", "100% %s %d", "a text that is longer than any small buffer"};
        coil::Bindings b;
        std::string seen;
        int steps = depth(3, 4);
        std::vector<std::pair<int, int>> script;
        int kind = mc::choose(3);
        for (int i = 0; i < steps; i++)
        {
            int op = mc::choose(8);
            if (op == 7)
                break;
            script.push_back({op, op == 6 ? 0 : mc::choose(4)});
        }
        auto body = [&](coil::Context c) {
            for (auto& o : script)
            {
                coil::String t = texts[o.second];
                switch (o.first)
                {
                case 0: c.log(t); break;
                case 1: c.logf("%s-%d-%5.2f", texts[o.second], 42, 1.5); break;
                case 2: c.logf("\n%.*s", int(t.length()), t.cStr()); break;
                case 3: c.reportError(coil::String(t)); break;
                case 4: c.reportError(coil::sprintf("%s|%08x", texts[o.second], 77)); break;
                case 5: c.log(std::move(t)); break;
                case 6: seen += c.hasErrors() ? "errors;" : "fine;"; break;
                }
            }
        };
        b["f"] = [&](coil::Context c) { body(c); };
        b["g"] = [&](coil::Context c) { body(c); return coil::String("value"); };
        b["h"] = [&](coil::Context c, double d) { body(c); return d / 3; };
        std::string r = run(b, kind == 0 ? "f" : kind == 1 ? "g" : "h 1");
        r += run(b, kind == 0 ? "f 1" : kind == 1 ? "g x=1" : "h y");
        observed(r + seen);
    }

    // an exception is reported or escapes, as configured; everything else is the same
    struct Odd
    {
    };
    std::string mayThrow(coil::Bindings& b, std::string const& line)
    {
        MC_OP("execute %s", line.c_str());
        ip::calls().clear();
        std::string head = "Exception caught during execution";
#if COIL_CONFIG_CATCH_EXCEPTIONS
        auto r = b.execute(cu::view(line));
        auto es = cu::errors(r);
        if (!es.empty() && es.back().compare(0, head.size(), head) == 0 && !r.returnValue.hasValue())
        {
            ip::calls().clear();
            return "threw" + es.back().substr(head.size());
        }
        return describe(r);
#else
        try
        {
            auto r = b.execute(cu::view(line));
            return describe(r);
        }
        catch (std::exception const& e)
        {
            ip::calls().clear();
            return std::string("threw: ") + e.what();
        }
        catch (...)
        {
            ip::calls().clear();
            return "threw";
        }
#endif
    }
    void throwing()
    {
        coil::Bindings b;
        int counter = 0;
        b["t"] = [&counter](coil::Context c, int kind) {
            counter++;
            c.log("before");
            switch (kind)
            {
            case 1: throw std::runtime_error("message one");
            case 2: throw 7;
            case 3: throw Odd{};
            case 4: throw std::logic_error("a message that is longer than any small buffer could be");
            case 5: c.reportError(coil::String("reported")); break;
            }
            return kind;
        };
        b["nest"] = [&b](coil::Context c, int kind) {
            std::string line = "t " + std::to_string(kind);
            std::string r = mayThrow(b, line);
            c.log(cu::string(r));
            return 1;
        };
        b["gone"] = [&b](int kind) {
            b.remove("other");
            if (kind)
                throw std::runtime_error("after a removal");
        };
        b["other"] = [] { return 9; };
        static char const* const lines[] = {"t 0", "t 1", "t 2", "t 3", "t 4", "t 5", "t x", "nest 0", "nest 1", "nest 2", "nest 5", "gone 1", "gone 0", "other", "t", "missing"};
        std::string all;
        int steps = depth(3, 4);
        for (int i = 0; i < steps; i++)
            all += mayThrow(b, lines[mc::choose(16)]) + "|";
        all += std::to_string(counter);
        observed(all);
    }

    // commands that use and change the table they run from
    void reentrant()
    {
        coil::Bindings b;
        int budget = 4;
        std::string all;
        auto act = [&](coil::Context& c, int op) {
            switch (op)
            {
            case 0: b["new"] = [] { return 5; }; break;
            case 1: b.remove("b"); break;
            case 2: b["b"] = nullptr; break;
            case 3: { auto r = b.execute("b 1"); c.log(cu::string(describe(r))); break; }
            case 4: { auto r = b.execute("new"); c.log(cu::string(describe(r))); break; }
            case 5: for (int i = 0; i < 40; i++) b[cu::view("many" + std::to_string(i))] = [i] { return i; }; break;
            case 6: b.clear(); break;
            case 7: b.setLexer(coil::makeUnique<coil::DefaultLexer>("[]", "`", ";", " ")); break;
            }
        };
        b["a"] = [&](coil::Context c, coil::String s) { int op = budget-- > 0 ? mc::choose(8) : 4; act(c, op); c.log(s); return op; };
        b["b"] = [&](coil::Context c, int x) { if (budget-- > 0) act(c, mc::choose(8)); c.logf("%d", x); return 1; };
        static char const* const lines[] = {"a t", "b 2", "a [p;q]", "b (1,2)"};
        for (int i = 0; i < 2; i++)
            all += run(b, lines[mc::choose(4)]);
        for (char const* n : {"a", "b", "new", "many3", "many39"})
            all += describe(b, n) + ";";
        observed(all);
    }
}

namespace c25
{
    void conversions();
    void rendering();
    void rounding();
    void containers();
    void stringOps();
    void holders();
}

MC_MAIN({"strings", strings}, {"tokens", tokens}, {"bytes", bytes}, {"odd_texts", oddTexts}, {"sizes", sizes}, {"lexers", lexers}, {"tables", tables}, {"named", named}, {"storage", storage}, {"reports", reports}, {"throwing", throwing}, {"reentrant", reentrant}, {"conversions", c25::conversions}, {"rendering", c25::rendering}, {"rounding", c25::rounding}, {"containers", c25::containers}, {"string_operations", c25::stringOps}, {"holders", c25::holders})
