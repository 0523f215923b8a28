// C21: an exception in a command is contained and reported once, at any point.
// Every conversion, copy, move, step of a body, assignment and rendering is a point at which the explorer may throw.
#include "cu.h"
#include "interp.h"
#include "lexcheck.h"
#include "tracked.h"

#include <algorithm>
#include <exception>
#include <map>
#include <stdexcept>
#include <system_error>
#include <typeinfo>

namespace
{
    constexpr bool catching = COIL_CONFIG_CATCH_EXCEPTIONS;
    int depthOf(int asanQuick, int relQuick, int asanThorough, int relThorough) { return mc::thorough() ? (mc::asan() ? asanThorough : relThorough) : (mc::asan() ? asanQuick : relQuick); }

    // ---- the exceptions
    long exceptionsAlive = 0;
    struct Counted
    {
        Counted() { exceptionsAlive++; }
        Counted(Counted const&) { exceptionsAlive++; }
        ~Counted() { exceptionsAlive--; }
    };
    std::string message = "the message of the exception";

    struct Derived : std::logic_error, Counted
    {
        Tracked life;
        std::unique_ptr<std::string> owned;
        Derived() : std::logic_error("not this message"), life(5), owned(std::make_unique<std::string>(message)) {}
        Derived(Derived&&) = default;
        char const* what() const noexcept override { return life.get() == 5 ? owned->c_str() : "a damaged exception"; }
    };
    struct Before
    {
        virtual ~Before() = default;
        long padding[3] = {1, 2, 3};
    };
    struct SecondBase : Before, virtual std::exception, Counted
    {
        std::string text = message;
        char const* what() const noexcept override { return text.c_str(); }
    };
    struct PrivateBase : private std::runtime_error, Counted
    {
        PrivateBase() : std::runtime_error(message) {}
    };
    struct Left : std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };
    struct Ambiguous : Left, std::logic_error, Counted
    {
        Ambiguous() : Left(message), std::logic_error(message) {}
    };
    struct Unrelated : Counted
    {
        Tracked life{7};
        std::unique_ptr<std::string> owned = std::make_unique<std::string>(message);
        Unrelated() = default;
        Unrelated(Unrelated&&) = default;
        char const* what() const { return owned->c_str(); }
    };
    enum class Code { Bad = 5 };
    std::runtime_error staticError{"a static exception"};

    struct Kind
    {
        char const* name;
        bool isStd;
        void (*raise)();
        bool (*same)(); // called while the exception is handled
        bool longest;   // its message is chosen by the scenario
    };
    template<typename T, typename F>
    bool holds(F f)
    {
        try
        {
            throw;
        }
        catch (T const& e)
        {
            return f(e);
        }
        catch (...)
        {
            return false;
        }
    }
    template<typename T>
    bool exactly(std::exception const& e)
    {
        return typeid(e) == typeid(T);
    }
    Kind const kinds[] = {
        {"std::runtime_error", true, [] { throw std::runtime_error(message); }, [] { return holds<std::runtime_error>([](auto& e) { return exactly<std::runtime_error>(e) && e.what() == message; }); }, true},
        {"a class derived from std::logic_error", true, [] { throw Derived(); }, [] { return holds<Derived>([](auto& e) { return e.what() == message; }); }, true},
        {"int", false, [] { throw 42; }, [] { return holds<int>([](int e) { return e == 42; }); }, false},
        {"an unrelated class", false, [] { throw Unrelated(); }, [] { return holds<Unrelated>([](auto& e) { return *e.owned == message && e.life.get() == 7; }); }, true},
        {"a class with std::exception as a virtual second base", true, [] { throw SecondBase(); }, [] { return holds<SecondBase>([](auto& e) { return e.what() == message; }); }, true},
        {"a class privately derived from std::runtime_error", false, [] { throw PrivateBase(); }, [] { return holds<PrivateBase>([](auto&) { return true; }); }, true},
        {"a class with two std::exception bases", false, [] { throw Ambiguous(); }, [] { return holds<Ambiguous>([](auto& e) { return static_cast<Left const&>(e).what() == message; }); }, true},
        {"std::exception", true, [] { throw std::exception(); }, [] { return holds<std::exception>([](auto& e) { return exactly<std::exception>(e); }); }, false},
        {"std::bad_alloc", true, [] { throw std::bad_alloc(); }, [] { return holds<std::bad_alloc>([](auto& e) { return exactly<std::bad_alloc>(e); }); }, false},
        {"std::system_error", true, [] { throw std::system_error(std::make_error_code(std::errc::invalid_argument), message); }, [] { return holds<std::system_error>([](auto& e) { return e.code().value() == EINVAL; }); }, true},
        {"char const*", false, [] { throw static_cast<char const*>("text"); }, [] { return holds<char const*>([](char const* e) { return std::string(e) == "text"; }); }, false},
        {"std::string", false, [] { throw message; }, [] { return holds<std::string>([](auto& e) { return e == message; }); }, true},
        {"coil::String", false, [] { throw cu::string(message); }, [] { return holds<coil::String>([](auto& e) { return cu::str(e) == message; }); }, true},
        {"a pointer to an exception", false, [] { throw &staticError; }, [] { return holds<std::runtime_error*>([](auto* e) { return e == &staticError; }); }, false},
        {"an enumerator", false, [] { throw Code::Bad; }, [] { return holds<Code>([](Code e) { return e == Code::Bad; }); }, false},
        {"nullptr", false, [] { throw nullptr; }, [] { return holds<std::nullptr_t>([](auto) { return true; }); }, false},
        {"a nested exception", true, [] {
             try
             {
                 throw Unrelated();
             }
             catch (...)
             {
                 std::throw_with_nested(std::runtime_error(message));
             }
         }, [] { return holds<std::runtime_error>([](auto& e) { return e.what() == message; }); }, true},
    };
    constexpr int kindCount = sizeof kinds / sizeof *kinds;

    std::string messageOf(Kind const& k)
    {
        std::string r;
        try
        {
            k.raise();
        }
        catch (std::exception const& e)
        {
            r = e.what();
        }
        catch (...)
        {
        }
        return r;
    }

    // ---- what one execution must give
    struct Frame
    {
        std::string output;
        std::vector<std::string> errors;
        std::vector<std::string> convErrors;
        std::optional<std::string> ret;
        std::string called; // expected call, "" if none
        bool entered = false;
        Kind const* thrown = nullptr;
    };
    std::vector<Frame*> frames;
    int throwsLeft = 0;
    Kind const* nextKinds[2];
    int thrownCount = 0;
    int pointsPassed = 0;
    long rethrowAfter = -1; // -1: the explorer chooses

    // the explorer may throw here
    void at(char const* where)
    {
        if (frames.empty())
            return;
        pointsPassed++;
        if (throwsLeft <= 0 || !mc::flip())
            return;
        throwsLeft--;
        Kind const* k = nextKinds[thrownCount++ ? 1 : 0];
        MC_LOG("      throws %s %s", k->name, where);
        frames.back()->thrown = k;
        mc::state(mc::mix(mc::hashStr(where), uint64_t(k - kinds) * 131 + uint64_t(pointsPassed)));
        k->raise();
        abort();
    }

    // ---- a parameter and result type that may throw whenever it does anything
    struct P
    {
        int first;
        Tracked life;
        std::string text;
        P() : first(0) {}
        explicit P(std::string t) : first((at("when an argument is created"), 1)), life(1), text(std::move(t)) {}
        P(P const& r) : first((at("when an argument is copied"), 1)), life(r.life), text(r.text) {}
        P(P&& r) : first((at("when an argument is moved"), 1)), life(std::move(r.life)), text(std::move(r.text)) {}
        P& operator=(P const& r)
        {
            at("when an argument is copy-assigned");
            life = r.life;
            text = r.text;
            return *this;
        }
        P& operator=(P&& r)
        {
            at("when an argument is move-assigned");
            life = std::move(r.life);
            text = std::move(r.text);
            return *this;
        }
    };
    ref::Conv convP(ref::Subvalues const& s)
    {
        if (s.size() != 1)
            return {false, "", ref::countError(s, "P")};
        if (s[0] == "bad")
            return {false, "", ref::convError(s, "P", "it is bad")};
        return {true, s[0], ""};
    }
    ref::Conv convVector(ref::Subvalues const& s)
    {
        std::string c;
        for (auto& e : s)
        {
            auto r = convP({e});
            if (!r.ok)
                return {false, "", ref::convError(s, "vector<P>", r.error)};
            c += r.canon + ";";
        }
        return {true, c, ""};
    }
    ref::Conv convOptional(ref::Subvalues const& s)
    {
        if (s.empty() || (s.size() == 1 && s[0].empty()))
            return {true, "none", ""};
        auto r = convP(s);
        if (!r.ok)
            return {false, "", ref::convError(s, "optional<P>", r.error)};
        return r;
    }
    std::string canon(P const& p)
    {
        p.life.check();
        return p.text;
    }
    std::string canon(std::vector<P> const& v)
    {
        std::string c;
        for (auto& e : v)
            c += canon(e) + ";";
        return c;
    }
    std::string canon(std::optional<P> const& v) { return v ? canon(*v) : "none"; }
    std::string canon(coil::StringView v) { return cu::str(v); }
}

namespace coil
{
    template<>
    struct TypeSerializer<P>
    {
        static Expected<P, String> fromString(Value const& input)
        {
            at("at the start of a conversion");
            if (input.subvalues.size() != 1)
                return errors::createMismatchedSubvaluesError<P>(input, 1);
            String copy{input.subvalues[0]};
            if (copy == "bad")
            {
                auto e = errors::createGenericError<P>(input, "it is bad");
                at("at the end of a conversion that fails");
                return e;
            }
            return P(cu::str(copy));
        }
        static String toString(P const& p)
        {
            at("at the start of rendering");
            String r = cu::string(canon(p));
            at("at the end of rendering");
            return r;
        }
    };
}
COIL_CREATE_TYPE_NAME(P, "P");

namespace
{
    std::string wrapped(std::string const& s) { return "<" + s + ">"; }

    // ---- the commands
    struct Sim;
    Sim* sim;
    void (*hook)(coil::Context*) = nullptr; // what else a running command does

    struct Body
    {
        std::string id;
        int count = 0; // how often it was called
        Tracked life{9};
        std::unique_ptr<std::string> owned;
        explicit Body(std::string i) : id(std::move(i)), owned(std::make_unique<std::string>("owned by " + id)) {}
        Body(Body&&) = default;

        // returns the description of the call
        std::string run(coil::Context* c, std::vector<std::string> const& args);
    };
    struct Object
    {
        Body body{"meth"};
        P stored{"stored"};
        P method(coil::Context c, P p) { return P(body.run(&c, {canon(p)})); }
        P const& get() const
        {
            at("in a getter");
            return stored;
        }
        void set(P const& p)
        {
            at("at the start of a setter");
            stored = p;
            at("at the end of a setter");
        }
    };

    struct Entry
    {
        std::string id;
        std::vector<ref::Conv (*)(ref::Subvalues const&)> params;
        enum { Void, Call, Twice, Null, Var, VarConst, Prop, PropConst } ret = Call;
    };

    struct Sim
    {
        P variable{"variable"};
        P const constant{"constant"};
        Object object;
        P free{"property"};
        coil::Bindings bindings;
        std::map<std::string, std::vector<Entry>> model;
        std::map<std::string, int> counts;
        std::vector<P> keep; // results that are returned by reference
        Body shared{"free"};
    };

    std::string Body::run(coil::Context* c, std::vector<std::string> const& args)
    {
        MC_CHECK(!frames.empty() && !frames.back()->entered, "%s is called although nothing should be", id.c_str());
        Frame& f = *frames.back();
        f.entered = true;
        life.check();
        MC_CHECK(*owned == "owned by " + id, "the captured state of %s is damaged", id.c_str());
        count++;
        int n = ++sim->counts[id];
        MC_CHECK(count == n, "%s counted %d calls instead of %d", id.c_str(), count, n);
        std::string call = id + "(" + ref::join(args, ",") + ")";
        MC_CHECK(call == f.called, "%s is called instead of %s", call.c_str(), f.called.c_str());
        at("at the start of the command");
        if (c)
        {
            c->log("first;");
            f.output += "first;";
            at("after the first output");
        }
        if (hook)
            hook(c);
        if (c)
        {
            c->logf("%s;", "last");
            f.output += "last;";
        }
        at("at the end of the command");
        return call;
    }

    P freeFunction(coil::Context c, P a, P const& b) { return P(sim->shared.run(&c, {canon(a), canon(b)})); }

    template<typename F>
    void bindOne(std::string const& name, F f, std::vector<Entry> e)
    {
        sim->bindings[cu::view(name)] = std::move(f);
        sim->model[name] = std::move(e);
    }
    std::vector<std::string> const allNames = {"v", "c", "two", "vec", "opt", "ovl", "var", "varc", "prop", "propc", "bprop", "bpropc", "meth", "free", "named", "null", "simple"};
    void bindName(std::string const& n, std::string const& id)
    {
        if (n == "v")
            bindOne(n, [b = Body(id)](P p) mutable { b.run(nullptr, {canon(p)}); }, {{id, {convP}, Entry::Void}});
        else if (n == "c")
            bindOne(n, [b = Body(id)](coil::Context c, P p) mutable { return P(b.run(&c, {canon(p)})); }, {{id, {convP}}});
        else if (n == "two")
            bindOne(n, [b = Body(id)](P const& p, P q) mutable -> P const& {
                std::string s = b.run(nullptr, {canon(p), canon(q)});
                sim->keep.clear();
                sim->keep.emplace_back(s);
                return sim->keep.back(); }, {{id, {convP, convP}}});
        else if (n == "vec")
            bindOne(n, [b = Body(id)](coil::Context c, std::vector<P> v) mutable {
                std::string s = b.run(&c, {canon(v)});
                std::vector<P> r;
                r.emplace_back(s);
                r.emplace_back(s);
                return r; }, {{id, {convVector}, Entry::Twice}});
        else if (n == "opt")
            bindOne(n, [b = Body(id)](std::optional<P> v, std::vector<P> w) mutable -> P* {
                std::string s = b.run(nullptr, {canon(v), canon(w)});
                sim->keep.clear();
                sim->keep.emplace_back(s);
                return &sim->keep.back(); }, {{id, {convOptional, convVector}}});
        else if (n == "ovl")
            bindOne(n, coil::overloaded([b = Body(id + "0")]() mutable { return P(b.run(nullptr, {})); },
                           [b = Body(id + "1")](coil::Context c, P p) mutable { return std::optional<P>(P(b.run(&c, {canon(p)}))); },
                           [b = Body(id + "2")](coil::Context c, P p, P const& q) mutable { b.run(&c, {canon(p), canon(q)}); }),
                {{id + "0", {}}, {id + "1", {convP}}, {id + "2", {convP, convP}, Entry::Void}});
        else if (n == "var")
            bindOne(n, coil::variable(&sim->variable), {{id, {}, Entry::Var}, {id, {convP}, Entry::Var}});
        else if (n == "varc")
            bindOne(n, coil::variable(&sim->constant), {{id, {}, Entry::VarConst}, {id, {convP}, Entry::VarConst}});
        else if (n == "prop")
            bindOne(n, coil::property([] { at("in a getter"); return sim->free; }, [](P p) { at("in a setter"); sim->free = std::move(p); }), {{id, {}, Entry::Prop}, {id, {convP}, Entry::Prop}});
        else if (n == "propc")
            bindOne(n, coil::property([]() -> P const& { at("in a getter"); return sim->constant; }), {{id, {}, Entry::VarConst}, {id, {[](ref::Subvalues const&) { return ref::Conv{true, "", ""}; }}, Entry::PropConst}});
        else if (n == "bprop")
            bindOne(n, coil::bindProperty(&Object::get, &Object::set, &sim->object), {{id, {}, Entry::Prop}, {id, {convP}, Entry::Prop}});
        else if (n == "bpropc")
            bindOne(n, coil::bindProperty(&Object::get, &sim->object), {{id, {}, Entry::Prop}, {id, {convP}, Entry::PropConst}});
        else if (n == "meth")
            bindOne(n, coil::bind(&Object::method, &sim->object), {{"meth", {convP}}});
        else if (n == "free")
            bindOne(n, &freeFunction, {{"free", {convP, convP}}});
        else if (n == "named")
            bindOne(n, [b = Body(id)](coil::Context c) mutable {
                std::string s = b.run(&c, {});
                Frame& f = *frames.back();
                auto p = c.namedArgs().getOrReport<P>("key", coil::NamedArgs::ArgType::Optional, P("default"));
                std::string got = p ? canon(*p) : "error";
                c.log(cu::string(got));
                f.output += got;
                if (!p)
                    f.errors.push_back("Unable to convert 'bad' to type 'P': it is bad");
                at("after a named argument was read"); }, {{id, {}, Entry::Void}});
        else if (n == "null")
            bindOne(n, [b = Body(id)](coil::Context c) mutable -> P* {
                b.run(&c, {});
                return nullptr; }, {{id, {}, Entry::Null}});
        else if (n == "simple")
            bindOne(n, [b = Body(id)](coil::Context c, coil::StringView s, std::string t) mutable {
                b.run(&c, {canon(s), t});
                return 42; }, {{id, {[](ref::Subvalues const& s) { return s.size() == 1 ? ref::Conv{true, s[0], ""} : ref::Conv{false, "", ref::countError(s, "string")}; }, [](ref::Subvalues const& s) { return s.size() == 1 ? ref::Conv{true, s[0], ""} : ref::Conv{false, "", ref::countError(s, "string")}; }}, Entry::Void}});
    }
    void bindAll()
    {
        for (auto& n : allNames)
            bindName(n, n);
    }

    bool subsequence(std::vector<std::string> const& a, std::vector<std::string> const& of)
    {
        size_t i = 0;
        for (auto& e : of)
            if (i < a.size() && a[i] == e)
                i++;
        return i == a.size();
    }

    bool outcomeOf(std::string const& line, ref::Input const& in, Frame const& f, coil::ExecutionResult const& r)
    {
        std::vector<std::string> have = cu::errors(r);
        MC_LOG("    -> errors %s output %s return %s", cu::show(have).c_str(), mc::show(cu::str(r.output)).c_str(), cu::show(cu::ret(r)).c_str());
        uint64_t h = mc::hashStr(line, mc::hashStr(f.output));
        for (auto& e : have)
            h = mc::mix(h, mc::hashStr(e));
        mc::outcome(mc::mix(h, f.ret ? mc::hashStr(*f.ret) : 0));
        std::vector<std::string> want = f.errors;
        if (f.thrown)
        {
            std::string last = "Exception caught during execution";
            std::string m = messageOf(*f.thrown);
            if (f.thrown->isStd)
                last += ": " + m;
            bool right = !have.empty() && (have.back() == last || (m.empty() && have.back() == "Exception caught during execution"));
            MC_CHECK(right, "%s: %s was thrown; the errors are %s instead of %s", line.c_str(), f.thrown->name, cu::show(have).c_str(), mc::show(last).c_str());
            have.pop_back();
            if (!f.convErrors.empty())
            {
                // the conversion errors of other arguments may or may not be known already
                MC_CHECK(subsequence(have, f.convErrors), "%s: unexpected errors %s besides the exception", line.c_str(), cu::show(have).c_str());
                have = want;
            }
            MC_CHECK(!r.returnValue.hasValue(), "%s: a value (%s) is returned although %s was thrown", line.c_str(), mc::show(cu::str(*r.returnValue)).c_str(), f.thrown->name);
        }
        std::optional<std::string> ret = f.thrown || !want.empty() ? std::nullopt : f.ret;
        MC_CHECK(have == want, "%s: the errors are %s instead of %s", line.c_str(), cu::show(have).c_str(), cu::show(want).c_str());
        MC_CHECK(cu::str(r.output) == f.output, "%s: the output is %s instead of %s", line.c_str(), mc::show(cu::str(r.output)).c_str(), mc::show(f.output).c_str());
        MC_CHECK(cu::ret(r) == ret, "%s returns %s instead of %s", line.c_str(), cu::show(cu::ret(r)).c_str(), cu::show(ret).c_str());
        MC_CHECK(in.error || cu::same(cu::fromCoil(r.input), in), "%s: the input is reported as %s", line.c_str(), cu::show(cu::fromCoil(r.input)).c_str());
        return true;
    }

    // executes a line; true if it completed without an exception
    bool execute(std::string const& line)
    {
        ref::Input in = ref::parse({}, line);
        Frame f;
        Entry const* e = nullptr;
        if (in.error)
            f.errors.push_back("Syntax error: " + *in.error);
        else if (in.name.empty())
            f.errors.push_back("No function name is specified");
        else if (!sim->model.count(in.name))
            f.errors.push_back("No function '" + in.name + "' is registered");
        else
        {
            std::vector<size_t> counts;
            for (auto& c : sim->model[in.name])
            {
                counts.push_back(c.params.size());
                if (c.params.size() == in.args.size())
                    e = &c;
            }
            if (!e)
                f.errors.push_back(ip::arityError(in.name, counts, in.args.size()));
        }
        std::string arg, previous = sim->variable.text, previousFree = sim->free.text, previousStored = sim->object.stored.text;
        auto ret = Entry::Void;
        std::string name = in.error ? "" : in.name;
        bool stores = false;
        if (e)
        {
            ret = e->ret;
            std::vector<std::string> args;
            for (size_t i = 0; i < in.args.size(); i++)
            {
                auto c = e->params[i](in.args[i]);
                if (!c.ok)
                    f.convErrors.push_back(c.error);
                args.push_back(c.canon);
            }
            f.called = e->id + "(" + ref::join(args, ",") + ")";
            stores = ret >= Entry::Var;
            if (stores)
                f.entered = false;
            switch (ret)
            {
            case Entry::Call: f.ret = f.called; break;
            case Entry::Twice: f.ret = "[" + f.called + ", " + f.called + "]"; break;
            case Entry::Null: f.ret = "null"; break;
            case Entry::VarConst: f.ret = "constant"; break;
            default: break;
            }
            if (name == "simple")
                f.ret = "42";
            if (!args.empty())
                arg = args[0];
            if (!f.convErrors.empty())
                f.entered = true; // it must not be called
        }
        else
            f.entered = true;
        bool mayCall = !f.entered;
        frames.push_back(&f);
        size_t depth = frames.size();
        int uncaught = std::uncaught_exceptions();
        auto current = std::current_exception();
        bool completed = true;
        MC_OP("%*sexecute %s", int(depth * 2), "", mc::show(line).c_str());
        {
            cu::Line l{line};
            std::optional<coil::ExecutionResult> r;
            bool escaped = false;
            try
            {
                r.emplace(sim->bindings.execute(coil::StringView(l)));
            }
            catch (...)
            {
                escaped = true;
                MC_CHECK(!catching, "%s: an exception left execute", line.c_str());
                MC_CHECK(f.thrown, "%s: an exception left execute although none was thrown", line.c_str());
                MC_CHECK(f.thrown->same(), "%s: the exception that leaves execute is not the %s that was thrown", line.c_str(), f.thrown->name);
            }
            MC_CHECK(frames.size() == depth, "executions are not nested");
            frames.pop_back();
            MC_CHECK(std::uncaught_exceptions() == uncaught, "%s: the number of active exceptions changed", line.c_str());
            MC_CHECK(std::current_exception() == current, "%s: another exception is being handled than before", line.c_str());
            if (f.thrown)
            {
                if (mayCall == false && f.convErrors.empty())
                    mc::fail("%s: something was called", line.c_str());
                MC_CHECK(escaped != catching, "%s: %s was thrown, but execute returned", line.c_str(), f.thrown->name);
                completed = false;
            }
            // what is stored
            std::string storedNow, storedBefore;
            if (e && stores)
            {
                P const* p = name == "var" ? &sim->variable : name == "prop" ? &sim->free : name == "bprop" || name == "bpropc" ? &sim->object.stored : nullptr;
                bool wrong = !f.convErrors.empty();
                bool set = in.args.size() == 1 && (ret == Entry::Var || ret == Entry::Prop) && !wrong && name != "bpropc";
                storedBefore = name == "var" ? previous : name == "prop" ? previousFree : previousStored;
                if (p)
                {
                    storedNow = canon(*p);
                    if (f.thrown)
                        MC_CHECK(storedNow == storedBefore || (set && storedNow == arg), "%s: %s is stored after the exception", line.c_str(), storedNow.c_str());
                    else
                        MC_CHECK(storedNow == (set ? arg : storedBefore), "%s: %s is stored", line.c_str(), storedNow.c_str());
                    f.ret = storedNow;
                }
                if (in.args.size() == 1 && !wrong && (ret == Entry::PropConst || ret == Entry::VarConst))
                {
                    std::string readOnly = name == "varc" ? "This variable is read-only" : "This property is read-only";
                    bool reported = true;
                    if (f.thrown && r) // known only if it came that far
                        reported = r->errors.size() == 2;
                    if (reported)
                        f.errors.push_back(readOnly);
                }
                f.entered = f.entered || !f.errors.empty();
            }
            if (!f.thrown && !f.convErrors.empty())
                f.errors = f.convErrors;
            if (!f.thrown && !stores)
                MC_CHECK(f.entered, "%s: nothing was called", line.c_str());
            if (r)
                outcomeOf(line, in, f, *r);
            else
                mc::outcome(mc::mix(mc::hashStr(line, mc::hashStr(f.output)), uint64_t(f.thrown - kinds)));
        }
        return completed;
    }

    void checkTable(std::string const& when)
    {
        for (auto& n : allNames)
        {
            auto it = sim->model.find(n);
            auto* c = sim->bindings.get(cu::view(n));
            MC_CHECK((c != nullptr) == (it != sim->model.end()), "%s is %s %s", n.c_str(), c ? "registered" : "not registered", when.c_str());
            if (!c)
                continue;
            MC_CHECK(cu::str(c->name) == n && c->functors.size() == it->second.size(), "the description of %s is wrong %s", n.c_str(), when.c_str());
            for (size_t i = 0; i < it->second.size(); i++)
            {
                auto& p = it->second[i].params;
                auto& have = c->functors[i];
                MC_CHECK(have.arity() == p.size() && have.parameterTypes().size() == p.size(), "overload %zu of %s has another arity %s", i, n.c_str(), when.c_str());
                for (size_t j = 0; j < p.size(); j++)
                {
                    std::string want = p[j] == convP ? "P" : p[j] == convVector ? "vector<P>" : p[j] == convOptional ? "optional<P>" : "";
                    MC_CHECK(want.empty() || cu::str(have.parameterTypes()[j]) == want, "overload %zu of %s has a parameter of type %s %s", i, n.c_str(), cu::str(have.parameterTypes()[j]).c_str(), when.c_str());
                }
            }
        }
    }

    struct Line
    {
        char const* text;
        bool quick;
    };
    std::vector<std::string> const lines = {"v a", "v bad", "c 'some text that is longer'", "c bad k=v", "two a b", "two bad b", "two a bad", "two bad bad", "vec (a b c)", "vec (a bad c)", "vec x", "vec ()",
        "opt a (b c)", "opt '' ()", "opt bad b", "opt (a b) bad", "ovl", "ovl a", "ovl a b", "ovl bad b", "ovl 1 2 3", "var", "var new", "var bad", "varc", "varc x", "prop", "prop other", "prop bad", "propc", "propc x",
        "bprop", "bprop other", "bpropc", "bpropc x", "bpropc bad", "meth a", "free a b", "free a bad", "named", "named key=value", "named key=bad", "null", "simple a b", "simple (a b) c", "unknown", "", "(oops", "c = ="};

    void finish()
    {
        MC_CHECK(Tracked::alive == 0, "%ld objects were not destroyed", Tracked::alive);
        MC_CHECK(exceptionsAlive == 0, "%ld exceptions were not destroyed", exceptionsAlive);
        MC_CHECK(frames.empty(), "the executions are not finished");
    }
    void reset(int throws, int kind0, int kind1 = 0)
    {
        throwsLeft = throws;
        thrownCount = 0;
        pointsPassed = 0;
        nextKinds[0] = &kinds[kind0];
        nextKinds[1] = &kinds[kind1];
        hook = nullptr;
    }

    // every line once more, without exceptions
    void useAll(std::string const& when)
    {
        throwsLeft = 0;
        hook = nullptr;
        checkTable(when);
        for (auto& l : lines)
            execute(l);
    }

    // warms up type names that are created on first use
    void warm()
    {
        static bool done = false;
        if (done)
            return;
        done = true;
        Sim s;
        sim = &s;
        reset(0, 0);
        bindAll();
        useAll("");
    }

    // the circumstances under which a command is executed
    struct Unwinding
    {
        std::string const& line;
        ~Unwinding()
        {
            execute(line);
        }
    };
    void executeIn(int circumstances, std::string const& line)
    {
        switch (circumstances)
        {
        case 0: execute(line); break;
        case 1:
            try
            {
                throw std::runtime_error("being handled");
            }
            catch (std::runtime_error const& e)
            {
                execute(line);
                MC_CHECK(e.what() == std::string("being handled"), "the exception being handled was changed");
            }
            break;
        case 2:
        {
            bool right = false;
            try
            {
                Unwinding u{line};
                throw std::runtime_error("unwinding");
            }
            catch (std::runtime_error const& e)
            {
                right = e.what() == std::string("unwinding");
            }
            MC_CHECK(right, "the exception that was being unwound was changed");
            break;
        }
        }
    }
}

// every line, thrown at every point, with every kind of exception, in every circumstance
static void points()
{
    warm();
    {
        Sim s;
        sim = &s;
        bindAll();
        std::string const& line = lines[size_t(mc::choose(int(lines.size())))];
        reset(1, mc::choose(kindCount));
        executeIn(mc::asan() && !mc::thorough() && line.size() % 2 ? 0 : mc::choose(3), line);
        mc::state(mc::mix(mc::hashStr(line), uint64_t(thrownCount)));
        useAll("after " + line);
    }
    finish();
}

// histories of lines on the same bindings, with up to two exceptions anywhere
static void histories()
{
    warm();
    {
        Sim s;
        sim = &s;
        for (auto& n : {"c", "ovl", "var", "vec"})
            bindName(n, n);
        reset(depthOf(2, 2, 2, 3), mc::choose(2), 2);
        int depth = depthOf(2, 3, 3, 4);
        static char const* const few[] = {"c a", "ovl a", "ovl a bad", "var new", "vec (a b)", "c bad", "(oops", "ovl 1 2 3"};
        for (int i = 0; i < depth; i++)
        {
            int l = mc::choose(9);
            if (l == 8)
                break;
            execute(few[l]);
            checkTable("in a history");
        }
        throwsLeft = 0;
        for (auto& l : few)
            execute(l);
    }
    finish();
}

// commands that execute others; exceptions in any of them
namespace
{
    int nesting = 0;
    void nested(coil::Context* c)
    {
        static char const* const inner[] = {"c inner", "ovl bad b", "vec (a b)", "var inner", "free a b", "(oops"};
        if (int(frames.size()) > nesting)
            return;
        int n = mc::choose(7);
        if (n == 6)
            return;
        size_t depth = frames.size();
        Frame& f = *frames.back();
        std::string line = inner[n];
        if (catching)
        {
            execute(line);
        }
        else
        {
            // here the exception comes through the outer command, which stops it or not
            bool done = execute(line);
            MC_CHECK(frames.size() == depth, "executions are not nested");
            if (!done && mc::flip())
            {
                MC_LOG("      the outer command throws the exception again");
                f.thrown = nextKinds[thrownCount > 1 ? 1 : 0];
                f.thrown->raise();
            }
        }
        if (c)
        {
            MC_CHECK(c->hasErrors() == !f.errors.empty(), "errors of a nested command are seen by the outer one");
            if (f.errors.empty() && n == 1)
            {
                c->reportError("after a nested command");
                f.errors.push_back("after a nested command");
            }
        }
        at("after a nested execution");
    }
}
static void nestedExecutions()
{
    warm();
    {
        Sim s;
        sim = &s;
        for (auto& n : {"c", "ovl", "var", "vec", "free"})
            bindName(n, n);
        reset(2, mc::choose(3), mc::choose(2) * 2);
        nesting = depthOf(1, 2, 2, 2);
        hook = nested;
        static char const* const outer[] = {"c outer", "ovl", "ovl a b", "vec (a b)", "free x y"};
        execute(outer[mc::choose(5)]);
        hook = nullptr;
        throwsLeft = 0;
        checkTable("after nested executions");
        for (auto& l : {"c a", "ovl", "ovl 1", "ovl 1 2", "vec (1 2)", "free a b", "var"})
            execute(l);
    }
    finish();
}

// commands that change the table (also their own entry) and then throw
namespace
{
    int version = 0;
    int changesLeft = 0;
    void change(coil::Context*)
    {
        while (changesLeft > 0)
        {
            int n = mc::choose(9);
            if (n == 8)
                return;
            changesLeft--;
            static char const* const names[] = {"c", "ovl", "v"};
            if (n < 3)
            {
                std::string id = std::string(names[n]) + "_" + std::to_string(++version);
                MC_OP("      rebind %s", names[n]);
                auto kept = std::move(hook);
                bindName(names[n], id);
                hook = kept;
            }
            else if (n < 6)
            {
                MC_OP("      remove %s", names[n - 3]);
                sim->bindings.remove(names[n - 3]);
                sim->model.erase(names[n - 3]);
            }
            else if (n == 6)
            {
                MC_OP("      clear");
                sim->bindings.clear();
                sim->model.clear();
            }
            else
            {
                MC_OP("      set the lexer");
                sim->bindings.setLexer(coil::makeUnique<coil::DefaultLexer>());
            }
            at("after a change of the table");
        }
    }
}
static void changes()
{
    warm();
    {
        Sim s;
        sim = &s;
        version = 0;
        // these commands may be destroyed while they run, so their state lives elsewhere
        static char const* const selfs[] = {"c", "ovl", "v"};
        auto self = [](std::string const& n) {
            sim->bindings[cu::view(n)] = [](coil::Context c, P p) -> std::string {
                Frame& f = *frames.back();
                f.entered = true;
                c.log("self;");
                f.output += "self;";
                std::string r = frames.back()->called;
                change(&c);
                MC_CHECK(canon(p) == "arg", "the argument changed");
                c.log("end;");
                f.output += "end;";
                at("at the end of the command");
                return r;
            };
            sim->model[n] = {{n, {convP}}};
        };
        for (auto* n : selfs)
            self(n);
        reset(1, mc::choose(3));
        changesLeft = depthOf(2, 3, 3, 4);
        execute(std::string(selfs[mc::choose(2)]) + " arg");
        changesLeft = 0;
        throwsLeft = 0;
        checkTable("after a command changed it");
        for (auto* n : selfs)
            execute(std::string(n) + " arg");
        bindAll();
        s.counts.clear();
        for (auto* n : {"c", "ovl", "v"})
            bindName(n, n);
        useAll("after everything was bound again");
    }
    finish();
}

// messages of every length and content
static void messages()
{
    warm();
    std::string saved = message;
    {
        Sim s;
        sim = &s;
        for (auto& n : {"c", "simple", "v"})
            bindName(n, n);
        int what = mc::choose(5);
        if (what == 4)
        {
            message = oddWord();
            message = message.c_str();
            what = 0;
        }
        else if (what == 0)
        {
            static char const* const odd[] = {"", "%", "%s", "%n%n", "100%%", "a\nb", "\xff\xfe", "'\"()", "%.*s", "Exception caught during execution: x", " "};
            message = odd[mc::choose(sizeof odd / sizeof *odd)];
        }
        else
        {
            size_t n = chooseLength(mc::asan() ? 150 : 600, mc::asan() ? 5000 : 70000);
            message = what == 1 ? text(n) : what == 2 ? rep("%s%d%", n) : rep("ab\n", n);
        }
        reset(0, what ? 0 : mc::choose(kindCount));
        int where = mc::choose(3);
        static int when;
        when = where;
        hook = [](coil::Context*) {
            if (frames.size() == 1 && when == 0)
            {
                frames.back()->thrown = nextKinds[0];
                frames.back()->thrown->raise();
            }
        };
        if (where)
            throwsLeft = 1;
        execute(where == 1 ? "v x" : "c x");
        throwsLeft = 0;
        hook = nullptr;
        execute("c x");
        execute("simple a b");
    }
    message = saved;
    finish();
}

// any amount of output and errors before the exception, of arguments, and of exceptions one after another
namespace
{
    size_t amount;
    int manner;
}
static void sizes()
{
    warm();
    {
        Sim s;
        sim = &s;
        for (auto& n : {"c", "vec", "ovl"})
            bindName(n, n);
        manner = mc::choose(5);
        amount = chooseLength(mc::asan() ? 70 : 300, mc::asan() ? 1100 : (manner == 0 ? 70000 : 2100));
        reset(0, mc::choose(3));
        MC_OP("amount %zu manner %d", amount, manner);
        hook = [](coil::Context* c) {
            Frame& f = *frames.back();
            if (frames.size() > 1)
            {
                if (frames.size() <= amount)
                {
                    execute("ovl a");
                    if (!catching)
                        return;
                }
            }
            else if (manner == 0)
            {
                std::string t = text(amount);
                c->log(cu::string(t));
                f.output += t;
            }
            else if (manner == 1)
            {
                for (size_t i = 0; i < amount; i++)
                {
                    c->reportError("own error");
                    f.errors.push_back("own error");
                }
            }
            else if (manner == 4 && amount < 260)
                execute("ovl a");
            f.thrown = nextKinds[0];
            f.thrown->raise();
        };
        if (manner == 2)
            execute("vec (" + rep("a ", amount) + ")");
        else if (manner == 3)
        {
            for (size_t i = 0; i < amount % 1000 + 1; i++)
                execute("c a");
        }
        else
            execute("c a");
        hook = nullptr;
        for (auto& l : {"c a", "ovl", "ovl 1", "ovl 1 2", "vec (1 2)"})
            execute(l);
        checkTable("after large amounts");
    }
    finish();
}

// a lexer that throws
namespace
{
    struct Throwing : coil::Lexer
    {
        Tracked life{3};
        coil::Expected<coil::ExecutionInput, coil::String> parse(coil::StringView s) const override
        {
            life.check();
            at("at the start of parsing");
            auto r = coil::DefaultLexer{}.parse(s);
            at("at the end of parsing");
            return r;
        }
    };
}
static void lexers()
{
    warm();
    {
        Sim s;
        sim = &s;
        bindAll();
        s.bindings.setLexer(coil::makeUnique<Throwing>());
        reset(1, mc::choose(kindCount));
        std::string line = lines[size_t(mc::choose(int(lines.size())))];
        Frame f;
        frames.push_back(&f);
        {
            // such an exception is not a command's; it may leave execute or be reported
            cu::Line l{line};
            hook = [](coil::Context*) {};
            auto in = ref::parse({}, line);
            try
            {
                Throwing t;
                auto p = t.parse(coil::StringView(l));
                if (p)
                    MC_CHECK(cu::same(cu::fromCoil(*p), in), "the input is %s", cu::show(cu::fromCoil(*p)).c_str());
            }
            catch (...)
            {
                MC_CHECK(f.thrown && f.thrown->same(), "another exception was thrown");
            }
            throwsLeft = f.thrown ? 0 : 1;
            frames.pop_back();
            hook = nullptr;
        }
        if (!f.thrown)
        {
            Frame g;
            frames.push_back(&g);
            g.entered = true;
            struct Only : coil::Lexer
            {
                coil::Expected<coil::ExecutionInput, coil::String> parse(coil::StringView) const override
                {
                    frames.back()->thrown = nextKinds[0];
                    nextKinds[0]->raise();
                    abort();
                }
            };
            s.bindings.setLexer(coil::makeUnique<Only>());
            try
            {
                auto r = s.bindings.execute(coil::StringView("c x"));
                MC_CHECK(r.errors.size() == 1, "the exception of a lexer got lost");
            }
            catch (...)
            {
                MC_CHECK(g.thrown->same(), "another exception was thrown");
            }
            frames.pop_back();
        }
        s.bindings.setLexer(coil::makeUnique<coil::DefaultLexer>());
        useAll("after a lexer threw");
    }
    finish();
}

MC_MAIN({"points", points}, {"histories", histories}, {"nested", nestedExecutions}, {"changes", changes}, {"messages", messages}, {"sizes", sizes}, {"lexers", lexers})
