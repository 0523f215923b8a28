// C18: variables and properties read and write exactly the bound storage.
#include "cu.h"
#include "interp.h"
#include "lexcheck.h"
#include "refconv.h"

namespace
{
    // what a setter of a property does to its value
    int adapt(int v) { return v > 100 ? 100 : v; }
    bool adapt(bool v) { return v; }
    double adapt(double v) { return v < 0 ? 0 : v; }
    std::string adapt(std::string const& v) { return v.substr(0, 3); }
    coil::String adapt(coil::String const& v) { return coil::String{v.cStr(), v.length() > 3 ? 3 : v.length()}; }
    std::vector<int> adapt(std::vector<int> v) { if (v.size() > 2) v.resize(2); return v; }
    std::optional<int> adapt(std::optional<int> v) { return v ? std::optional<int>(adapt(*v)) : v; }

    template<typename T>
    struct Store
    {
        T value{};
        long sets = 0;
        mutable long gets = 0;

        T const& get() const { gets++; return value; }
        T getValue() { gets++; return value; }
        T const* getPointer() const { gets++; return &value; }
        void set(T const& v) { sets++; value = adapt(v); }
        int setValue(T v) { sets++; value = std::move(v); return 12345; }
    };

    enum Kind { Variable, ReadOnlyVariable, Property, AdaptingProperty, ReadOnlyProperty, Bound, BoundByValue, BoundFunctor, ReadOnlyBound, ReadOnlyBoundConst, kinds };
    char const* const names[] = {"var", "cvar", "prop", "aprop", "rprop", "bound", "boundv", "boundf", "rbound", "rboundc"};

    template<typename T>
    struct World
    {
        coil::Bindings bindings;
        Store<T> stores[kinds];
        T model[kinds];
        long sets[kinds] = {};

        World()
        {
            auto& s = stores;
            bindings["var"] = coil::variable(&s[Variable].value);
            bindings["cvar"] = coil::variable(&static_cast<Store<T> const&>(s[ReadOnlyVariable]).value);
            bindings["prop"] = coil::property([p = &s[Property]]() -> T const& { return p->get(); }, [p = &s[Property]](T const& v) { p->setValue(v); });
            bindings["aprop"] = coil::property([p = &s[AdaptingProperty]] { return p->getValue(); }, [p = &s[AdaptingProperty]](T v) { p->set(v); });
            bindings["rprop"] = coil::property([p = &s[ReadOnlyProperty]]() -> T const& { return p->get(); });
            bindings["bound"] = coil::bindProperty(&Store<T>::get, &Store<T>::set, &s[Bound]);
            bindings["boundv"] = coil::bindProperty(&Store<T>::getValue, &Store<T>::setValue, &s[BoundByValue]);
            bindings["boundf"] = coil::bindProperty([](Store<T>* p) -> T const& { return p->get(); }, [](Store<T>* p, T const& v) { p->set(v); }, &s[BoundFunctor]);
            bindings["rbound"] = coil::bindProperty(&Store<T>::get, &s[ReadOnlyBound]);
            bindings["rboundc"] = coil::bindProperty(&Store<T>::get, &static_cast<Store<T> const&>(s[ReadOnlyBoundConst]));
            for (auto& m : model)
                m = T{};
        }

        void check()
        {
            for (int k = 0; k < kinds; k++)
            {
                MC_CHECK(ref::Type<T>::canon(stores[k].value) == ref::Type<T>::canon(model[k]), "%s holds %s instead of %s", names[k], ref::Type<T>::canon(stores[k].value).c_str(), ref::Type<T>::canon(model[k]).c_str());
                MC_CHECK(stores[k].sets == sets[k], "the setter of %s was called %ld times instead of %ld", names[k], stores[k].sets, sets[k]);
            }
        }

        uint64_t hash() const
        {
            uint64_t h = 1;
            for (auto& m : model)
                h = mc::mix(h, mc::hashStr(ref::Type<T>::canon(m)));
            return h;
        }

        void execute(int k, std::string const& argText)
        {
            std::string line = names[k] + argText;
            MC_OP("%s", mc::show(line.substr(0, 300)).c_str());
            ref::Input in = ref::parse({}, line);
            std::vector<std::string> errors;
            std::optional<std::string> ret;
            if (in.args.empty())
                ret = ref::Type<T>::text(model[k]);
            else if (in.args.size() > 1)
                errors.push_back(ip::arityError(names[k], {0, 1}, in.args.size()));
            else
            {
                ref::Conv c = k == ReadOnlyProperty ? ref::Type<coil::Value>::conv(in.args[0]) : ref::Type<T>::conv(in.args[0]);
                if (!c.ok)
                    errors.push_back(c.error);
                else if (k == ReadOnlyVariable)
                    errors.push_back("This variable is read-only");
                else if (k == ReadOnlyProperty || k == ReadOnlyBound || k == ReadOnlyBoundConst)
                    errors.push_back("This property is read-only");
                else
                {
                    std::vector<std::unique_ptr<cu::Line>> lines;
                    coil::Value v;
                    for (auto& s : in.args[0])
                    {
                        lines.push_back(std::make_unique<cu::Line>(s));
                        v.subvalues.pushBack(coil::StringView(*lines.back()));
                    }
                    T value = *coil::TypeSerializer<T>::fromString(v); // C13-C16 check the conversion itself
                    MC_CHECK(ref::Type<T>::canon(value) == c.canon, "the conversion is wrong");
                    if (k == AdaptingProperty || k == Bound || k == BoundFunctor)
                        value = adapt(value);
                    model[k] = value;
                    if (k != Variable)
                        sets[k]++;
                    ret = ref::Type<T>::text(model[k]);
                }
            }
            cu::Line l{line};
            auto r = bindings.execute(coil::StringView(l));
            auto haveErrors = cu::errors(r);
            auto haveRet = cu::ret(r);
            MC_CHECK(haveErrors == errors && haveRet == ret && r.output.empty(), "%s gives %s, first error %s; expected %s, first error %s", mc::show(line.substr(0, 300)).c_str(), cu::show(haveRet).substr(0, 500).c_str(), haveErrors.empty() ? "none" : haveErrors[0].c_str(), cu::show(ret).substr(0, 500).c_str(), errors.empty() ? "none" : errors[0].c_str());
            check();
            uint64_t h = mc::hashStr(line);
            for (auto& e : errors)
                h = mc::mix(h, mc::hashStr(e));
            mc::outcome(mc::mix(h, ret ? mc::hashStr(*ret) : 1));
            mc::state(hash());
        }

        // the program changes the storage itself
        void write(int k, T const& v)
        {
            MC_OP("%s is set by the program", names[k]);
            stores[k].value = v;
            model[k] = v;
        }
    };

    char const* const argTexts[] = {"", " 5", " x", " '500'", " (1 2 3)", " ''", " 7 8", " true", " -1.5", " 3 k=1", " k=1", " ()"};

    template<typename T>
    void history(int depth)
    {
        World<T> w;
        for (int i = 0; i < depth; i++)
        {
            int k = mc::choose(int(kinds) + 1);
            if (k == kinds)
                break;
            int a = mc::choose(12);
            w.execute(k, argTexts[a]);
        }
    }

    int depthOf(int asanQuick, int relQuick, int asanThorough, int relThorough) { return mc::thorough() ? (mc::asan() ? asanThorough : relThorough) : (mc::asan() ? asanQuick : relQuick); }

    // one property: longer histories, with writes by the program
    template<typename T>
    void single(int depth, T const& a, T const& b)
    {
        int k = mc::choose(kinds);
        World<T> w;
        for (int i = 0; i < depth; i++)
        {
            int op = mc::choose(8);
            if (op == 0)
                break;
            if (op == 6 || op == 7)
                w.write(k, op == 6 ? a : b);
            else
                w.execute(k, argTexts[op - 1]);
        }
        w.execute(k, "");
    }
}

static void intHistory() { history<int>(depthOf(2, 3, 3, 4)); }
static void boolHistory() { history<bool>(2); }
static void doubleHistory() { history<double>(2); }
static void textHistory() { history<std::string>(depthOf(2, 3, 3, 3)); }
static void coilTextHistory() { history<coil::String>(2); }
static void vectorHistory() { history<std::vector<int>>(depthOf(2, 3, 3, 3)); }
static void optionalHistory() { history<std::optional<int>>(2); }
static void intSingle() { single<int>(depthOf(4, 5, 5, 6), 42, -7); }
static void textSingle() { single<std::string>(depthOf(4, 5, 5, 6), "written", ""); }
static void vectorSingle() { single<std::vector<int>>(depthOf(3, 4, 4, 5), {9, 8, 7}, {}); }

// every value text
static void valueTexts()
{
    std::string s = chooseString("015-x .", mc::asan() ? 3 : 5);
    int k = mc::choose(kinds);
    {
        World<int> w;
        w.write(k, 17);
        w.execute(k, " '" + s + "'");
        w.execute(k, "");
    }
    {
        World<double> w;
        w.write(k, 17);
        w.execute(k, " '" + s + "'");
    }
    {
        World<coil::String> w;
        w.write(k, "before");
        w.execute(k, " '" + s + "'");
        w.execute(k, "");
    }
}

// sizes of values
static void sizes()
{
    size_t n = chooseLength(200, mc::asan() ? 2100 : 20000);
    int k = mc::choose(kinds);
    switch (mc::choose(3))
    {
    case 0:
    {
        World<std::string> w;
        w.write(k, text(n / 2));
        w.execute(k, " '" + text(n) + "'");
        w.execute(k, "");
        break;
    }
    case 1:
    {
        World<coil::String> w;
        w.execute(k, " '" + text(n) + "'");
        w.execute(k, " '" + text(n / 2) + "'");
        w.execute(k, "");
        break;
    }
    case 2:
    {
        World<std::vector<int>> w;
        w.execute(k, " (" + rep("3 ", n % 3000) + ")");
        w.execute(k, "");
        w.execute(k, " (" + rep("3 ", n % 3000) + "x)");
        w.execute(k, rep(" 1", n % 600));
        break;
    }
    }
}

// two names for the same storage, bindings replaced and removed, independent objects
static void shared()
{
    int value = 1;
    Store<int> store;
    coil::Bindings b;
    b["a"] = coil::variable(&value);
    b["b"] = coil::variable(&value);
    b["c"] = coil::variable(static_cast<int const*>(&value));
    b["p"] = coil::bindProperty(&Store<int>::get, &Store<int>::set, &store);
    b["q"] = coil::bindProperty(&Store<int>::get, &store);
    b["r"] = coil::property([&] { return store.value; });
    int model = 1, storeModel = 0;
    long sets = 0;
    int depth = mc::asan() ? 4 : 5;
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(10);
        char const* name = "";
        char const* arg = "";
        std::optional<std::string> want;
        std::string error;
        switch (op)
        {
        case 0: name = "a"; want = std::to_string(model); break;
        case 1: name = "a"; arg = " 10"; model = 10; want = "10"; break;
        case 2: name = "b"; arg = " 20"; model = 20; want = "20"; break;
        case 3: name = "c"; want = std::to_string(model); break;
        case 4: name = "c"; arg = " 30"; error = "This variable is read-only"; break;
        case 5: name = "p"; arg = " 99"; storeModel = 99; sets++; want = "99"; break;
        case 6: name = "q"; want = std::to_string(storeModel); break;
        case 7: name = "r"; arg = " (a b)"; error = "This property is read-only"; break;
        case 8: b["b"] = coil::variable(&value); b.remove("z"); name = "b"; want = std::to_string(model); break;
        case 9: name = "p"; arg = " zz"; error = "Unable to convert 'zz' to type 'int'"; break;
        }
        std::string line = std::string(name) + arg;
        MC_OP("%s", line.c_str());
        if (error.empty() == false && op == 9)
            error = ref::convError({"zz"}, ref::intName<int>());
        auto r = b.execute(cu::view(line));
        auto e = cu::errors(r);
        MC_CHECK(cu::ret(r) == want && (error.empty() ? e.empty() : e == std::vector<std::string>{error}), "%s gives %s, first error %s", line.c_str(), cu::show(cu::ret(r)).c_str(), e.empty() ? "none" : e[0].c_str());
        MC_CHECK(value == model && store.value == storeModel && store.sets == sets, "the storage is %d and %d instead of %d and %d", value, store.value, model, storeModel);
        mc::state(mc::mix(uint64_t(model), uint64_t(storeModel)));
    }
    mc::outcome(mc::mix(uint64_t(model), uint64_t(storeModel)));
}

// odd texts as values
static void oddTexts()
{
    int k = mc::choose(kinds);
    std::string const& s = oddWord();
    if (!quotable(s) || s.find_first_of("()") != std::string::npos)
        return;
    auto with = [&](auto w, auto before) {
        w.write(k, before);
        w.execute(k, " '" + s + "'");
        w.execute(k, "");
        w.execute(k, " ('" + s + "' '" + s + "')");
        w.execute(k, "");
    };
    with(World<int>{}, 17);
    with(World<bool>{}, true);
    with(World<double>{}, 17.0);
    with(World<std::string>{}, std::string("before"));
    with(World<coil::String>{}, coil::String("before"));
    with(World<std::vector<int>>{}, std::vector<int>{1, 2});
    with(World<std::optional<int>>{}, std::optional<int>{3});
}

MC_MAIN({"int", intHistory}, {"odd_texts", oddTexts}, {"bool", boolHistory}, {"double", doubleHistory}, {"text", textHistory}, {"coil_text", coilTextHistory}, {"vector", vectorHistory}, {"optional", optionalHistory},
        {"one_int", intSingle}, {"one_text", textSingle}, {"one_vector", vectorSingle}, {"value_texts", valueTexts}, {"sizes", sizes}, {"shared", shared})
