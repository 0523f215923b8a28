// C17: named arguments are found by exact name and reported precisely.
#include "cu.h"
#include "lexcheck.h"
#include "refconv.h"

namespace
{
    using Named = std::vector<std::pair<std::string, ref::Subvalues>>;
    using Errors = std::vector<std::string>;

    ref::Subvalues const* lookup(Named const& named, std::string const& key)
    {
        for (auto& n : named)
            if (n.first == key)
                return &n.second;
        return nullptr;
    }
    std::string missing(std::string const& key) { return "Missing named argument '" + ref::cut(key) + "'"; }

    // what every lookup of a key at a type must give
    template<typename T>
    void typedGet(coil::NamedArgs args, Named const& named, std::string const& key)
    {
        cu::Line l{key};
        auto got = args.get<T>(coil::StringView(l));
        auto* subs = lookup(named, key);
        if (!subs)
        {
            MC_CHECK(!got && got.error().type == coil::NamedArgs::Error::Type::MissingKey && cu::message(got.error().message) == missing(key), "get of the missing argument %s is wrong", mc::show(key).c_str());
            return;
        }
        ref::Conv want = ref::Type<T>::conv(*subs);
        if (want.ok)
            MC_CHECK(got && ref::Type<T>::canon(*got) == want.canon, "get<%s>(%s) gives %s instead of %s", ref::Type<T>::name().c_str(), mc::show(key).c_str(), got ? ref::Type<T>::canon(*got).c_str() : got.error().message.cStr(), want.canon.c_str());
        else
            MC_CHECK(!got && got.error().type == coil::NamedArgs::Error::Type::TypeMismatch && cu::message(got.error().message) == want.error, "get<%s>(%s) must fail with %s", ref::Type<T>::name().c_str(), mc::show(key).c_str(), want.error.c_str());
        mc::validated();
    }

    template<typename T>
    void typedReport(coil::NamedArgs args, Named const& named, std::string const& key, bool required, T const* def, Errors& errors)
    {
        cu::Line l{key};
        coil::Optional<T> got;
        auto type = required ? coil::NamedArgs::ArgType::Required : coil::NamedArgs::ArgType::Optional;
        if (def)
            got = args.getOrReport<T>(coil::StringView(l), type, *def);
        else if (required)
            got = args.getOrReport<T>(coil::StringView(l), type);
        else
            got = args.getOrReport<T>(coil::StringView(l));
        auto* subs = lookup(named, key);
        std::string want = "nothing";
        if (!subs)
        {
            if (required)
                errors.push_back(missing(key));
            else if (def)
                want = ref::Type<T>::canon(*def);
        }
        else
        {
            ref::Conv c = ref::Type<T>::conv(*subs);
            if (c.ok)
                want = c.canon;
            else
                errors.push_back(c.error);
        }
        std::string have = got ? ref::Type<T>::canon(*got) : "nothing";
        MC_CHECK(have == want, "getOrReport<%s>(%s, %s, %s default) gives %s instead of %s", ref::Type<T>::name().c_str(), mc::show(key).c_str(), required ? "required" : "optional", def ? "with" : "no", have.c_str(), want.c_str());
        mc::validated();
    }

    void untyped(coil::NamedArgs args, Named const& named, std::string const& key, bool required, Errors& errors)
    {
        cu::Line l{key};
        coil::Value const* got = required ? args.getOrReport(coil::StringView(l), coil::NamedArgs::ArgType::Required) : args.getOrReport(coil::StringView(l));
        auto* subs = lookup(named, key);
        if (!subs && required)
            errors.push_back(missing(key));
        MC_CHECK((got != nullptr) == (subs != nullptr) && (!got || cu::subs(*got) == *subs), "getOrReport(%s) gives %s", mc::show(key).c_str(), got ? cu::show(cu::subs(*got)).c_str() : "nothing");
        mc::validated();
    }

    void lookAt(coil::NamedArgs args, Named const& named, std::vector<std::string> const& keys)
    {
        MC_CHECK(args.size() == named.size(), "%zu named arguments are seen instead of %zu", args.size(), named.size());
        size_t i = 0;
        for (auto const& n : args)
        {
            MC_CHECK(i < named.size() && cu::str(n.key) == named[i].first && cu::subs(n.value) == named[i].second, "the named argument %zu is wrong", i);
            i++;
        }
        MC_CHECK(i == named.size() && args.end() - args.begin() == long(i), "iteration visits %zu named arguments", i);
        for (auto& key : keys)
        {
            size_t first = 0;
            while (first < named.size() && named[first].first != key)
                first++;
            cu::Line l{key};
            auto it = args.find(coil::StringView(l));
            MC_CHECK(it == args.begin() + first, "find(%s) is wrong", mc::show(key).c_str());
            auto plain = args.get(coil::StringView(l));
            MC_CHECK(plain.hasValue() == (first < named.size()), "get(%s) is wrong", mc::show(key).c_str());
            if (plain)
                MC_CHECK(&static_cast<coil::Value const&>(*plain) == &it->value, "get(%s) gives another value", mc::show(key).c_str());
            else
                MC_CHECK(plain.error().type == coil::NamedArgs::Error::Type::MissingKey && cu::message(plain.error().message) == missing(key), "get(%s) gives another error", mc::show(key).c_str());
            typedGet<int>(args, named, key);
            typedGet<bool>(args, named, key);
            typedGet<double>(args, named, key);
            typedGet<coil::String>(args, named, key);
            typedGet<coil::StringView>(args, named, key);
            typedGet<std::string>(args, named, key);
            typedGet<std::vector<int>>(args, named, key);
            typedGet<std::optional<int>>(args, named, key);
            typedGet<std::vector<std::string>>(args, named, key);
        }
    }

    template<typename T>
    void reports(coil::NamedArgs args, Named const& named, std::string const& key, T const& def, Errors& errors)
    {
        for (bool required : {false, true})
        {
            typedReport<T>(args, named, key, required, nullptr, errors);
            typedReport<T>(args, named, key, required, &def, errors);
        }
    }

    uint64_t hash(Named const& named)
    {
        uint64_t h = named.size();
        for (auto& n : named)
        {
            h = mc::mix(h, mc::hashStr(n.first));
            for (auto& s : n.second)
                h = mc::mix(h, mc::hashStr(s) + 1);
            h = mc::mix(h, n.second.size());
        }
        return h;
    }

    // executes a command with these named arguments
    template<typename F>
    void run(Named const& named, int args, F body, Errors const& (*expectedErrors)())
    {
        std::vector<std::unique_ptr<cu::Line>> lines;
        coil::ExecutionInput in;
        in.name = "f";
        for (auto& n : named)
        {
            coil::NamedValue v;
            lines.push_back(std::make_unique<cu::Line>(n.first));
            v.key = coil::StringView(*lines.back());
            for (auto& s : n.second)
            {
                lines.push_back(std::make_unique<cu::Line>(s));
                v.value.subvalues.pushBack(coil::StringView(*lines.back()));
            }
            in.namedArguments.pushBack(std::move(v));
        }
        for (int i = 0; i < args; i++)
            in.arguments.pushBack(coil::Value{"12"});
        coil::Bindings b;
        int called = 0;
        if (args)
            b["f"] = [&](coil::Context c, int) { called++; body(c); return 5; };
        else
            b["f"] = [&](coil::Context c) { called++; body(c); return 5; };
        auto r = b.execute(std::move(in));
        MC_CHECK(called == 1, "the command was called %d times", called);
        Errors const& want = expectedErrors();
        Errors have = cu::errors(r);
        std::string w, h;
        for (auto& e : want) w += e + "\n";
        for (auto& e : have) h += e + "\n";
        MC_CHECK(have == want, "the errors are\n%s  instead of\n%s", h.substr(0, 2000).c_str(), w.substr(0, 2000).c_str());
        MC_CHECK(r.returnValue.hasValue() == want.empty(), "the return value is %s", r.returnValue ? "present" : "absent");
        mc::outcome(mc::hashStr(h));
    }
    Errors theErrors;
    Errors const& expectedErrors() { return theErrors; }

    std::vector<std::string> const theKeys = {"a", "b", "ab", "A", "", "aa"};

    void everything(Named const& named, std::vector<std::string> const& keys, int args = 0)
    {
        theErrors.clear();
        run(named, args, [&](coil::Context& c) {
            lookAt(c.namedArgs(), named, keys);
            MC_CHECK(!c.hasErrors(), "looking reports an error");
            for (auto& key : keys)
            {
                untyped(c.namedArgs(), named, key, false, theErrors);
                untyped(c.namedArgs(), named, key, true, theErrors);
                reports<int>(c.namedArgs(), named, key, 77, theErrors);
                reports<bool>(c.namedArgs(), named, key, true, theErrors);
                reports<coil::String>(c.namedArgs(), named, key, coil::String("the default text, on the heap"), theErrors);
                reports<std::string>(c.namedArgs(), named, key, "std default", theErrors);
                reports<std::vector<int>>(c.namedArgs(), named, key, {1, 2}, theErrors);
                reports<float>(c.namedArgs(), named, key, 0.5f, theErrors);
                MC_CHECK(c.hasErrors() == !theErrors.empty(), "hasErrors is wrong");
            }
        }, &expectedErrors);
        mc::state(hash(named));
    }

    std::string describe(Named const& named)
    {
        std::string r;
        for (auto& n : named)
            r += mc::show(n.first) + "=" + cu::show(n.second) + " ";
        return r.substr(0, 400);
    }
}

// every list of named arguments over some keys and values
static void lists()
{
    static ref::Subvalues const values[] = {{"1"}, {"x"}, {"true"}, {"1", "2"}, {"-3", "y"}, {""}, {}};
    Named named;
    int n = mc::choose(mc::thorough() && !mc::asan() ? 5 : 4);
    for (int i = 0; i < n; i++)
        named.push_back({theKeys[size_t(mc::choose(5))], values[mc::choose(n > 2 ? 4 : 7)]});
    int args = mc::choose(2);
    MC_OP("%d positional, %s", args, describe(named).c_str());
    everything(named, theKeys, args);
}

// scripts of requests, in every order: errors accumulate, values and defaults are not mixed up
static void scripts()
{
    static Named const inputs[] = {
        {},
        {{"a", {"1"}}},
        {{"a", {"x"}}, {"a", {"2"}}},
        {{"b", {"7", "8"}}, {"a", {"5"}}},
        {{"a", {}}, {"b", {"true"}}},
    };
    Named const& named = inputs[mc::choose(5)];
    theErrors.clear();
    int depth = mc::thorough() ? (mc::asan() ? 3 : 5) : (mc::asan() ? 3 : 4);
    run(named, 0, [&](coil::Context& c) {
        for (int i = 0; i < depth; i++)
        {
            int op = mc::choose(15);
            if (op == 14)
                break;
            std::string key = op & 1 ? "b" : "a";
            int d1 = 40 + i;
            bool d2 = i % 2;
            std::string d3 = "default " + std::to_string(i);
            MC_OP("request %d for %s", op / 2, key.c_str());
            switch (op / 2)
            {
            case 0: typedReport<int>(c.namedArgs(), named, key, false, &d1, theErrors); break;
            case 1: typedReport<int>(c.namedArgs(), named, key, true, &d1, theErrors); break;
            case 2: typedReport<bool>(c.namedArgs(), named, key, false, nullptr, theErrors); break;
            case 3: typedReport<std::string>(c.namedArgs(), named, key, true, nullptr, theErrors); break;
            case 4: untyped(c.namedArgs(), named, key, true, theErrors); break;
            case 5: typedReport<std::string>(c.namedArgs(), named, key, false, &d3, theErrors); break;
            case 6: c.reportError("own error"); theErrors.push_back("own error"); typedReport<bool>(c.namedArgs(), named, key, false, &d2, theErrors); break;
            }
            uint64_t h = hash(named);
            for (auto& e : theErrors)
                h = mc::mix(h, mc::hashStr(e));
            mc::state(h);
        }
    }, &expectedErrors);
}

// the command line: the same arguments through the lexer
static void lines()
{
    static char const* const keys[] = {"a", "b", "'a b'", "ab"};
    static char const* const keyTexts[] = {"a", "b", "a b", "ab"};
    static char const* const values[] = {"1", "'x y'", "(1 2)", "3,4", "true", "''"};
    static ref::Subvalues const valueTexts[] = {{"1"}, {"x y"}, {"1", "2"}, {"3", "4"}, {"true"}, {""}};
    int n = mc::choose(mc::asan() ? 3 : 4);
    std::string line = "f";
    Named named;
    ref::Subvalues positional;
    for (int i = 0; i < n; i++)
    {
        int k = mc::choose(4), v = mc::choose(6);
        if (mc::flip())
        {
            line += " p" + std::to_string(i);
            positional.push_back("p" + std::to_string(i));
        }
        line += std::string(" ") + keys[k] + (mc::flip() ? " = " : "=") + values[v];
        named.push_back({keyTexts[k], valueTexts[v]});
    }
    MC_OP("%s", line.c_str());
    theErrors.clear();
    coil::Bindings b;
    int called = 0;
    auto body = [&](coil::Context& c) {
        called++;
        lookAt(c.namedArgs(), named, {"a", "b", "a b", "ab", "p0", "f"});
        for (char const* key : {"a", "b", "a b", "ab", "p0"})
            reports<int>(c.namedArgs(), named, key, 9, theErrors);
    };
    b["f"] = coil::overloaded([&](coil::Context c) { body(c); }, [&](coil::Context c, coil::String a) { body(c); MC_CHECK(cu::str(a) == positional[0], "wrong positional argument"); },
        [&](coil::Context c, coil::String, coil::String a) { body(c); MC_CHECK(cu::str(a) == positional[1], "wrong positional argument"); }, [&](coil::Context c, coil::String, coil::String, coil::String) { body(c); });
    cu::Line l{line};
    auto r = b.execute(coil::StringView(l));
    MC_CHECK(called == 1 && cu::errors(r) == theErrors, "%s: called %d times, %zu errors instead of %zu", line.c_str(), called, size_t(r.errors.size()), theErrors.size());
    mc::state(hash(named));
    mc::outcome(mc::hashStr(line));
}

// keys that differ in one byte, in length, in case
static void keys()
{
    std::string a = chooseString(std::string("aA") + '\0' + '\xe1' + " ", mc::asan() ? 2 : 3), b = chooseString(std::string("aA") + '\0' + '\xe1' + " ", mc::asan() ? 2 : 3);
    Named named = {{a, {"1"}}, {b, {"2"}}};
    MC_OP("%s", describe(named).c_str());
    everything(named, {a, b, a + "a", b.substr(0, b.size() / 2), "a"});
}

static void everyByte()
{
    std::string a = "k" + std::string(1, char(mc::choose(256)));
    int way = mc::choose(3);
    Named named = {{"k", {"0"}}, {a, {way == 0 ? "5" : way == 1 ? "text" : ""}}, {a + "x", {"7"}}};
    MC_OP("%s", describe(named).c_str());
    everything(named, {a, "k", a + "x", "K", a.substr(1), std::string(1, char(a[1] ^ 32)), "k" + std::string(1, char(a[1] ^ 32))});
}

// numbers of named arguments, lengths of keys and values
static void sizes()
{
    size_t n = chooseLength(mc::thorough() ? 300 : 140, mc::asan() ? 1050 : 5000);
    int kind = mc::choose(7);
    Named named;
    std::vector<std::string> keys = {"k", "zz"};
    switch (kind)
    {
    case 0:
        for (size_t i = 0; i < n; i++)
            named.push_back({"k" + std::to_string(i), {std::to_string(i)}});
        keys = {"k0", "k", "k" + std::to_string(n / 2), "k" + std::to_string(n - 1), "k" + std::to_string(n)};
        break;
    case 1:
        for (size_t i = 0; i < n; i++)
            named.push_back({"k", {std::to_string(i)}});
        break;
    case 2: named = {{text(n), {"1"}}, {text(n + 1), {"2"}}}; keys = {text(n), text(n + 1), text(n + 2), text(n / 2)}; break;
    case 3: named = {{"k", {text(n)}}, {"zz", {std::string(n, '1')}}}; break;
    case 4: named = {{"k", ref::Subvalues(n, "4")}}; break;
    case 5: named = {{"k", {"1"}}}; keys = {text(n), "k" + text(n)}; break; // long names in messages
    case 6: named = {{"k", ref::Subvalues(n, text(7))}, {text(n), {}}}; keys.push_back(text(n)); break;
    }
    MC_OP("kind %d, %zu", kind, n);
    everything(named, keys);
}

// odd keys and values
static void oddTexts()
{
    std::string const& a = oddWord();
    std::string const& b = mc::asan() && !mc::thorough() ? oddWords()[mc::hashStr(a) % oddWords().size()] : oddWord();
    Named named = {{a, {b}}, {b, {a, b}}};
    MC_OP("%s", describe(named).c_str());
    everything(named, {a, b, "k", a + b});
}

MC_MAIN({"lists", lists}, {"odd_texts", oddTexts}, {"scripts", scripts}, {"lines", lines}, {"keys", keys}, {"every_byte", everyByte}, {"sizes", sizes})
