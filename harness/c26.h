// C26: types taught to the library by its user, what they mean, and what commands do with them.
#pragma once

#include "cu.h"
#include "lexcheck.h"
#include "refconv.h"

#include <array>
#include <set>
#include <utility>

namespace c26
{
    using Subs = ref::Subvalues;

    // ---- what the user's converters were asked, and what the reference says they are asked
    inline std::vector<std::pair<std::string, Subs>> asked, askedRef;
    inline int rendered = 0, renderedRef = 0;

    inline void forget()
    {
        decltype(asked)().swap(asked);
        decltype(askedRef)().swap(askedRef);
        rendered = renderedRef = 0;
    }
    struct Forget
    {
        ~Forget() { forget(); }
    };
    inline void ask(char const* type, coil::Value const& v) { asked.push_back({type, cu::subs(v)}); }

    // ---- the user's types
    enum class Color : unsigned char
    {
        red,
        green = 7,
        blue = 255,
    };
    enum Level : long long
    {
        low = -5,
        high = 1LL << 40,
    };
    enum class Flags : unsigned
    {
        none = 0,
        a = 1,
        b = 2,
        c = 0x80000000u,
    };
    struct Point
    {
        int x = 0, y = 0;
    };
    struct Handle // cannot be copied
    {
        std::unique_ptr<std::string> text;
    };
    struct Fixed // can neither be assigned nor default constructed
    {
        std::string const text;
        explicit Fixed(std::string t) : text(std::move(t)) {}
    };
    struct alignas(64) Huge
    {
        char data[3000];
        explicit Huge(std::string const& t)
        {
            memset(data, 'h', sizeof data);
            snprintf(data, sizeof data, "%s", t.c_str());
            data[2999] = 'e';
        }
        std::string text() const
        {
            MC_CHECK(reinterpret_cast<uintptr_t>(this) % 64 == 0 && data[2999] == 'e', "an over-aligned or large value is misplaced or damaged");
            return data;
        }
    };
    struct Sly // looks false, compares equal to nothing
    {
        std::string text;
        operator bool() const { return false; }
        bool operator!() const { return true; }
        bool operator==(Sly const&) const { return false; }
        bool operator!=(Sly const&) const { return true; }
    };
    template<typename T, int N>
    struct Unit
    {
        T value;
    };
    struct Base
    {
        std::string text;
        explicit Base(std::string t) : text(std::move(t)) {}
        virtual ~Base() = default;
        virtual std::string show() const { return "base " + text; }
    };
    struct Derived final : Base
    {
        using Base::Base;
        std::string show() const override { return "derived " + text; }
    };

    template<typename E>
    struct Names;
    template<>
    struct Names<Color>
    {
        static constexpr char const* type = "colour";
        static std::vector<std::pair<std::string, Color>> all() { return {{"red", Color::red}, {"green", Color::green}, {"blue", Color::blue}}; }
    };
    template<>
    struct Names<Level>
    {
        static constexpr char const* type = "100%s level%d";
        static std::vector<std::pair<std::string, Level>> all() { return {{"low", low}, {"high", high}, {"1", Level(1)}}; }
    };
    template<>
    struct Names<Flags>
    {
        static constexpr char const* type = "";
        static std::vector<std::pair<std::string, Flags>> all() { return {{"a", Flags::a}, {"b", Flags::b}, {"c", Flags::c}}; }
    };
    template<typename E>
    constexpr bool plainEnum = std::is_enum_v<E> && !std::is_same_v<E, Flags>;
    inline std::string const longName = std::string(3000, 'n') + "'";
}

// ---- how the user teaches them
namespace coil
{
    template<typename E>
    struct TypeName<E, std::enable_if_t<std::is_enum_v<E>>>
    {
        // a part of a longer text
        static StringView name()
        {
            static std::string const n = std::string(c26::Names<E>::type) + " and more";
            return StringView{n.data(), strlen(c26::Names<E>::type)};
        }
    };
    template<typename E>
    struct TypeSerializer<E, std::enable_if_t<c26::plainEnum<E>>>
    {
        static Expected<E, String> fromString(Value const& input)
        {
            c26::ask(c26::Names<E>::type, input);
            if (input.subvalues.size() != 1)
                return errors::createMismatchedSubvaluesError<E>(input, 1);
            for (auto& n : c26::Names<E>::all())
                if (cu::str(input.subvalues[0]) == n.first)
                    return n.second;
            return errors::createGenericError<E>(input, "unknown name");
        }
        static String toString(E const& value)
        {
            c26::rendered++;
            for (auto& n : c26::Names<E>::all())
                if (value == n.second)
                    return cu::string(n.first);
            return "?";
        }
    };
    template<>
    struct TypeSerializer<c26::Flags>
    {
        static Expected<c26::Flags, String> fromString(Value const& input)
        {
            c26::ask("flags", input);
            unsigned bits = 0;
            for (auto& s : input.subvalues)
            {
                unsigned found = 0;
                for (auto& n : c26::Names<c26::Flags>::all())
                    if (cu::str(s) == n.first)
                        found = unsigned(n.second);
                if (!found)
                    return errors::createGenericError<c26::Flags>(input);
                bits |= found;
            }
            return c26::Flags(bits);
        }
        static String toString(c26::Flags const& value)
        {
            c26::rendered++;
            String r;
            for (auto& n : c26::Names<c26::Flags>::all())
                if (unsigned(value) & unsigned(n.second))
                {
                    if (r.length())
                        r += '|';
                    r += cu::string(n.first);
                }
            return r;
        }
    };

    template<>
    struct TypeName<c26::Point>
    {
        static StringView name() { return "Point"; }
    };
    template<>
    struct TypeSerializer<c26::Point>
    {
        static Expected<c26::Point, String> fromString(Value const& input)
        {
            c26::ask("Point", input);
            if (input.subvalues.size() != 2)
                return errors::createMismatchedSubvaluesError<c26::Point>(input, 2);
            auto x = TypeSerializer<int>::fromString(input.subvalues[0]);
            auto y = TypeSerializer<int>::fromString(input.subvalues[1]);
            if (!x)
                return errors::createGenericError<c26::Point>(input, coil::move(x).error());
            if (!y)
                return errors::createGenericError<c26::Point>(input, coil::move(y).error());
            return c26::Point{*x, *y};
        }
        static String toString(c26::Point const& p)
        {
            c26::rendered++;
            return cu::string(std::to_string(p.x) + "/" + std::to_string(p.y));
        }
    };

    template<>
    struct TypeName<c26::Handle>
    {
        static StringView name() { return StringView{c26::longName.data(), c26::longName.size() - 5}; }
    };
    template<>
    struct TypeSerializer<c26::Handle>
    {
        // what is rejected says itself why
        static Expected<c26::Handle, String> fromString(Value const& input)
        {
            c26::ask("Handle", input);
            if (input.subvalues.size() == 0)
                return makeUnexpected(String{});
            std::string s = cu::str(input.subvalues[0]);
            if (!s.empty() && s[0] == '!')
                return makeUnexpected(cu::string(s.substr(1)));
            return c26::Handle{std::make_unique<std::string>(s)};
        }
        static String toString(c26::Handle const& h)
        {
            c26::rendered++;
            return cu::string(*h.text);
        }
    };

#define TEXT_TYPE(T, NAME, MAKE, TEXT)                                                                \
    template<>                                                                                        \
    struct TypeName<T>                                                                                \
    {                                                                                                 \
        static StringView name() { return NAME; }                                                     \
    };                                                                                                \
    template<>                                                                                        \
    struct TypeSerializer<T>                                                                          \
    {                                                                                                 \
        static Expected<T, String> fromString(Value const& input)                                     \
        {                                                                                             \
            c26::ask(NAME, input);                                                                         \
            if (input.subvalues.size() != 1)                                                          \
                return errors::createMismatchedSubvaluesError<T>(input, 1);                           \
            std::string s = cu::str(input.subvalues[0]);                                              \
            if (s.empty() || s[0] == '-')                                                             \
                return errors::createGenericError(NAME, input, "it is empty or negative");            \
            return MAKE;                                                                              \
        }                                                                                             \
        static String toString(T const& value)                                                        \
        {                                                                                             \
            c26::rendered++;                                                                               \
            return cu::string(TEXT);                                                                  \
        }                                                                                             \
    }
    TEXT_TYPE(c26::Fixed, "fixed", c26::Fixed{s}, value.text);
    TEXT_TYPE(c26::Huge, "huge", c26::Huge{s.substr(0, 200)}, value.text());
    TEXT_TYPE(c26::Sly, "sly", c26::Sly{s}, value.text);
    TEXT_TYPE(c26::Derived, "derived", c26::Derived{s}, value.show());

    template<typename T, int N>
    struct TypeName<c26::Unit<T, N>>
    {
        static StringView name()
        {
            static std::string const n = cu::str(TypeName<T>::name()) + " * " + std::to_string(N);
            return cu::view(n);
        }
    };
    template<typename T, int N>
    struct TypeSerializer<c26::Unit<T, N>>
    {
        static Expected<c26::Unit<T, N>, String> fromString(Value const& input)
        {
            c26::ask("Unit", input);
            auto v = input.get<T>();
            if (!v)
                return makeUnexpected(coil::move(v).error());
            return c26::Unit<T, N>{*coil::move(v)};
        }
        static String toString(c26::Unit<T, N> const& u)
        {
            c26::rendered++;
            return TypeSerializer<T>::toString(u.value) + " units";
        }
    };

    template<typename A, typename B>
    struct TypeName<std::pair<A, B>>
    {
        static StringView name() { return "pair"; }
    };
    template<typename A, typename B>
    struct TypeSerializer<std::pair<A, B>>
    {
        static Expected<std::pair<A, B>, String> fromString(Value const& input)
        {
            c26::ask("pair", input);
            if (input.subvalues.size() != 2)
                return errors::createMismatchedSubvaluesError<std::pair<A, B>>(input, 2);
            auto a = Value{input.subvalues[0]}.template get<A>();
            if (!a)
                return makeUnexpected(coil::move(a).error());
            auto b = Value{input.subvalues[1]}.template get<B>();
            if (!b)
                return makeUnexpected(coil::move(b).error());
            return std::pair<A, B>{*coil::move(a), *coil::move(b)};
        }
        static String toString(std::pair<A, B> const& p)
        {
            c26::rendered++;
            return TypeSerializer<A>::toString(p.first) + " & " + TypeSerializer<B>::toString(p.second);
        }
    };
}

// ---- what they mean, in plain terms
namespace ref
{
    template<typename E>
    struct Type<E, std::enable_if_t<c26::plainEnum<E>>>
    {
        static std::string name() { return c26::Names<E>::type; }
        static std::string canon(E e)
        {
            for (auto& n : c26::Names<E>::all())
                if (n.second == e)
                    return n.first;
            return "damaged " + std::to_string((long long)(e));
        }
        static std::string text(E e)
        {
            c26::renderedRef++;
            return canon(e);
        }
        static Conv conv(Subvalues const& s)
        {
            c26::askedRef.push_back({name(), s});
            if (s.size() != 1)
                return {false, "", countError(s, name())};
            for (auto& n : c26::Names<E>::all())
                if (n.first == s[0])
                    return {true, n.first, ""};
            return {false, "", convError(s, name(), "unknown name")};
        }
    };
    template<>
    struct Type<c26::Flags>
    {
        static std::string name() { return ""; }
        static std::string canon(c26::Flags f) { return std::to_string(unsigned(f)); }
        static std::string text(c26::Flags f)
        {
            c26::renderedRef++;
            std::string r;
            auto add = [&](unsigned bit, char const* n) {
                if (unsigned(f) & bit)
                    r += (r.empty() ? "" : "|") + std::string(n);
            };
            add(1, "a");
            add(2, "b");
            add(0x80000000u, "c");
            return r;
        }
        static Conv conv(Subvalues const& s)
        {
            c26::askedRef.push_back({"flags", s});
            unsigned v = 0;
            for (auto& t : s)
            {
                if (t != "a" && t != "b" && t != "c")
                    return {false, "", convError(s, "")};
                v |= t == "a" ? 1 : t == "b" ? 2 : 0x80000000u;
            }
            return {true, std::to_string(v), ""};
        }
    };
    template<>
    struct Type<c26::Point>
    {
        static std::string name() { return "Point"; }
        static std::string canon(c26::Point p) { return std::to_string(p.x) + "," + std::to_string(p.y); }
        static std::string text(c26::Point p)
        {
            c26::renderedRef++;
            return std::to_string(p.x) + "/" + std::to_string(p.y);
        }
        static Conv conv(Subvalues const& s)
        {
            c26::askedRef.push_back({name(), s});
            if (s.size() != 2)
                return {false, "", countError(s, name(), 2)};
            Conv c[2] = {Type<int>::conv({s[0]}), Type<int>::conv({s[1]})};
            for (auto& e : c)
                if (!e.ok)
                    return {false, "", convError(s, name(), e.error)};
            return {true, c[0].canon + "," + c[1].canon, ""};
        }
    };
    template<>
    struct Type<c26::Handle>
    {
        static std::string name() { return c26::longName.substr(0, c26::longName.size() - 5); }
        static std::string canon(c26::Handle const& h) { return h.text ? mc::show(*h.text) : "gone"; }
        static std::string text(c26::Handle const& h)
        {
            c26::renderedRef++;
            return h.text ? *h.text : "gone";
        }
        static Conv conv(Subvalues const& s)
        {
            c26::askedRef.push_back({"Handle", s});
            if (s.empty())
                return {false, "", ""};
            if (!s[0].empty() && s[0][0] == '!')
                return {false, "", s[0].substr(1)};
            return {true, mc::show(s[0]), ""};
        }
    };
    inline std::string textOf(c26::Fixed const& v) { return v.text; }
    inline std::string textOf(c26::Huge const& v) { return v.text(); }
    inline std::string textOf(c26::Sly const& v) { return v.text; }
    inline std::string textOf(c26::Derived const& v) { return v.show(); }
    template<typename T>
    constexpr bool isText = std::is_same_v<T, c26::Fixed> || std::is_same_v<T, c26::Huge> || std::is_same_v<T, c26::Sly> || std::is_same_v<T, c26::Derived>;
    template<typename T>
    struct Type<T, std::enable_if_t<isText<T>>>
    {
        static std::string name() { return std::is_same_v<T, c26::Fixed> ? "fixed" : std::is_same_v<T, c26::Huge> ? "huge" : std::is_same_v<T, c26::Sly> ? "sly" : "derived"; }
        static std::string canon(T const& v) { return mc::show(textOf(v)); }
        static std::string text(T const& v)
        {
            c26::renderedRef++;
            return textOf(v);
        }
        static Conv conv(Subvalues const& s)
        {
            c26::askedRef.push_back({name(), s});
            if (s.size() != 1)
                return {false, "", countError(s, name())};
            if (s[0].empty() || s[0][0] == '-')
                return {false, "", convError(s, name(), "it is empty or negative")};
            if (std::is_same_v<T, c26::Huge>)
                return {true, mc::show(cut(s[0].substr(0, 200))), ""};
            return {true, mc::show((std::is_same_v<T, c26::Derived> ? "derived " : "") + s[0]), ""};
        }
    };
    template<typename T, int N>
    struct Type<c26::Unit<T, N>>
    {
        static std::string name() { return Type<T>::name() + " * " + std::to_string(N); }
        static std::string canon(c26::Unit<T, N> const& u) { return "unit " + Type<T>::canon(u.value); }
        static std::string text(c26::Unit<T, N> const& u)
        {
            c26::renderedRef++;
            return Type<T>::text(u.value) + " units";
        }
        static Conv conv(Subvalues const& s)
        {
            c26::askedRef.push_back({"Unit", s});
            Conv c = Type<T>::conv(s);
            if (c.ok)
                c.canon = "unit " + c.canon;
            return c;
        }
    };
    template<typename A, typename B>
    struct Type<std::pair<A, B>>
    {
        static std::string name() { return "pair"; }
        static std::string canon(std::pair<A, B> const& p) { return Type<A>::canon(p.first) + " and " + Type<B>::canon(p.second); }
        static std::string text(std::pair<A, B> const& p)
        {
            c26::renderedRef++;
            std::string a = Type<A>::text(p.first);
            return a + " & " + Type<B>::text(p.second);
        }
        static Conv conv(Subvalues const& s)
        {
            c26::askedRef.push_back({"pair", s});
            if (s.size() != 2)
                return {false, "", countError(s, "pair", 2)};
            Conv a = Type<A>::conv({s[0]});
            if (!a.ok)
                return a;
            Conv b = Type<B>::conv({s[1]});
            if (!b.ok)
                return b;
            return {true, a.canon + " and " + b.canon, ""};
        }
    };
}

namespace c26
{
    template<typename T>
    using Vec = std::vector<T>;
    template<typename T>
    using Opt = std::optional<T>;

    template<typename T>
    struct IsComposite : std::false_type
    {
    };
    template<typename T>
    struct IsComposite<Vec<T>> : std::true_type
    {
    };
    template<typename T>
    struct IsComposite<Opt<T>> : std::true_type
    {
    };

    // a call built by the program itself, of texts that end at inaccessible or foreign memory
    struct Input
    {
        std::vector<std::unique_ptr<cu::Line>> lines;
        coil::ExecutionInput in;
        coil::Value value(Subs const& s)
        {
            coil::Value v;
            for (auto& t : s)
            {
                lines.push_back(std::make_unique<cu::Line>(t));
                v.subvalues.pushBack(coil::StringView(*lines.back()));
            }
            return v;
        }
    };

    inline bool spellable(Subs const& s)
    {
        for (auto& t : s)
            for (char c : t)
                if (strchr("'\"()", c))
                    return false;
        return true;
    }
    inline std::string group(Subs const& s)
    {
        std::string r = "(";
        for (auto& t : s)
            r += "'" + t + "' ";
        return r + ")";
    }

    // runs "f args... k=named..." as text or as data
    inline coil::ExecutionResult run(coil::Bindings& b, int way, std::vector<Subs> const& args, std::vector<std::pair<std::string, Subs>> const& named, std::string& shown)
    {
        shown = "f";
        for (auto& a : args)
            shown += " " + group(a);
        for (auto& n : named)
            shown += " " + n.first + "=" + group(n.second);
        if (way)
        {
            MC_OP("text: %s", mc::show(shown).c_str());
            cu::Line line{shown};
            return b.execute(coil::StringView(line));
        }
        MC_OP("data: %s", mc::show(shown).c_str());
        Input i;
        i.in.name = "f";
        for (auto& a : args)
            i.in.arguments.pushBack(i.value(a));
        for (auto& n : named)
            i.in.namedArguments.pushBack(coil::NamedValue{cu::view(n.first), i.value(n.second)});
        return b.execute(coil::move(i.in));
    }

    inline std::string journal(std::vector<std::pair<std::string, Subs>> const& j)
    {
        std::string r;
        for (auto& e : j)
            r += e.first.substr(0, 40) + cu::show(e.second) + " ";
        return r;
    }
    inline void checkAsked(bool exact, std::string const& shown)
    {
        if (exact)
            MC_CHECK(asked == askedRef, "%s: the user's converters were asked for %s instead of %s", mc::show(shown).c_str(), journal(asked).c_str(), journal(askedRef).c_str());
    }
    inline void checkErrors(coil::ExecutionResult const& r, std::vector<std::pair<std::string, bool>> const& want, std::string const& shown)
    {
        MC_CHECK(r.errors.size() == want.size(), "%s reports %zu errors instead of %zu: %s", mc::show(shown).c_str(), size_t(r.errors.size()), want.size(), cu::show(cu::errors(r)).c_str());
        for (size_t i = 0; i < want.size(); i++)
        {
            std::string have = want[i].second ? cu::str(r.errors[i]) : cu::message(r.errors[i]);
            MC_CHECK(have == want[i].first, "%s reports %s instead of %s", mc::show(shown).c_str(), mc::show(have).c_str(), mc::show(want[i].first).c_str());
        }
        MC_CHECK(r.output.length() == 0, "%s prints something", mc::show(shown).c_str());
    }
    template<typename T>
    constexpr bool verbatim = std::is_same_v<T, Handle>; // the error is the user's own text

    // one parameter of type P, spelled A in the command's signature
    template<typename P, typename A>
    void one(Subs const& subs, int way)
    {
        forget();
        int calls = 0;
        std::string got, wantText;
        coil::Bindings b;
        b["f"] = [&](A a) {
            calls++;
            got = ref::Type<P>::canon(a);
            wantText = ref::Type<P>::text(a);
            if constexpr (std::is_reference_v<A> && std::is_const_v<std::remove_reference_t<A>>)
                return &a;
            else
                return P(std::move(a));
        };
        std::string shown;
        auto r = run(b, way, {subs}, {}, shown);
        ref::Conv want = ref::Type<P>::conv(subs);
        if (want.ok)
        {
            checkErrors(r, {}, shown);
            MC_CHECK(calls == 1 && got == want.canon, "%s delivers %s to a %s, expected %s", mc::show(shown).c_str(), got.c_str(), ref::Type<P>::name().c_str(), want.canon.c_str());
            MC_CHECK(r.returnValue.hasValue() && cu::str(*r.returnValue) == wantText, "%s is rendered as %s instead of %s", mc::show(shown).c_str(), r.returnValue ? mc::show(cu::str(*r.returnValue)).c_str() : "nothing", mc::show(wantText).c_str());
            MC_CHECK(rendered == renderedRef, "%s: %d values were rendered instead of %d", mc::show(shown).c_str(), rendered, renderedRef);
        }
        else
        {
            MC_CHECK(calls == 0 && !r.returnValue.hasValue(), "%s calls the command although its argument is not converted", mc::show(shown).c_str());
            checkErrors(r, {{want.error, verbatim<P>}}, shown);
        }
        checkAsked(want.ok || !IsComposite<P>::value, shown);
        mc::transition(1);
        mc::validated();
        mc::outcome(mc::mix(mc::hashStr(ref::Type<P>::name()), want.ok ? mc::hashStr(want.canon) : mc::hashStr(want.error)));
        // described as it is named
        coil::AnyFunctor const& f = b.get("f")->functors[0];
        MC_CHECK(f.parameterTypes().size() == 1 && cu::str(f.parameterTypes()[0]) == ref::Type<P>::name() && cu::str(f.returnType()) == ref::Type<P>::name(), "a command of %s is described as %s -> %s", ref::Type<P>::name().c_str(), cu::str(f.parameterTypes()[0]).c_str(), cu::str(f.returnType()).c_str());
    }

    template<typename T>
    void asParameter(int position, Subs const& subs, int way)
    {
        switch (position)
        {
        case 0: return one<T, T>(subs, way);
        case 1: return one<T, T const&>(subs, way);
        case 2: return one<T, T&&>(subs, way);
        case 3: return one<Vec<T>, Vec<T>>(subs, way);
        case 4: return one<Opt<T>, Opt<T>>(subs, way);
        case 5: return one<Vec<Opt<T>>, Vec<Opt<T>>>(subs, way);
        case 6: return one<Opt<Vec<T>>, Opt<Vec<T>> const&>(subs, way);
        case 7: return one<Vec<Vec<T>>, Vec<Vec<T>> const&>(subs, way);
        case 8: return one<Unit<T, 3>, Unit<T, 3>>(subs, way);
        case 9: return one<std::pair<T, int>, std::pair<T, int>>(subs, way);
        case 10: return one<Vec<Unit<T, 4>>, Vec<Unit<T, 4>> const&>(subs, way);
        }
    }
    int const positions = 11;

    using Named = std::vector<std::pair<std::string, Subs>>;

    // a named argument of type T, taken in every way
    template<typename T>
    void asNamed(int form, bool present, Subs const& subs, int way)
    {
        forget();
        std::string got = "not called", wantError;
        coil::Bindings b;
        int calls = 0;
        b["f"] = [&](coil::Context context) {
            calls++;
            coil::NamedArgs named = context.namedArgs();
            if (form == 0)
            {
                auto e = named.get<T>("k");
                got = e ? "value " + ref::Type<T>::canon(*e) : "error";
                if (!e)
                {
                    bool missing = e.error().type == coil::NamedArgs::Error::Type::MissingKey;
                    MC_CHECK(missing == !present, "a named argument that is %s is reported as %s", present ? "present" : "missing", missing ? "missing" : "mismatched");
                    wantError = verbatim<T> ? cu::str(e.error().message) : cu::message(e.error().message);
                }
                return;
            }
            if constexpr (std::is_copy_constructible_v<T>)
            {
                auto type = form == 1 ? coil::NamedArgs::ArgType::Optional : coil::NamedArgs::ArgType::Required;
                auto v = named.getOrReport<T>("k", type);
                got = v ? "value " + ref::Type<T>::canon(*v) : "nothing";
            }
        };
        std::string shown;
        Named args{{"j", {"x"}}};
        if (present)
            args.push_back({"k", subs});
        args.push_back({"kk", {"y", "z"}});
        auto r = run(b, way, {}, args, shown);
        MC_CHECK(calls == 1, "%s makes %d calls", mc::show(shown).c_str(), calls);
        if (form && !std::is_copy_constructible_v<T>)
            return;
        ref::Conv want;
        if (present)
            want = ref::Type<T>::conv(subs);
        else
            want.error = "Missing named argument 'k'";
        std::vector<std::pair<std::string, bool>> errors;
        if (form == 2 || (form == 1 && present))
            if (!want.ok)
                errors.push_back({want.error, verbatim<T>});
        checkErrors(r, errors, shown);
        std::string wantGot = want.ok ? "value " + want.canon : form == 0 ? "error" : "nothing";
        MC_CHECK(got == wantGot, "%s gives %s instead of %s", mc::show(shown).c_str(), got.c_str(), wantGot.c_str());
        if (form == 0 && !want.ok)
            MC_CHECK(wantError == want.error, "%s gives the message %s instead of %s", mc::show(shown).c_str(), mc::show(wantError).c_str(), mc::show(want.error).c_str());
        checkAsked(true, shown);
        mc::transition(1);
        mc::validated();
        mc::outcome(mc::mix(mc::hashStr(got + "named"), mc::hashStr(want.error)));
    }

    // two parameters: all or nothing, in order
    template<typename T, typename U>
    void two(Subs const& first, Subs const& second)
    {
        forget();
        int calls = 0;
        std::string got;
        coil::Bindings b;
        b["f"] = [&](coil::Context, T t, U const& u) {
            calls++;
            got = ref::Type<T>::canon(t) + " + " + ref::Type<U>::canon(u);
            return std::string("done");
        };
        std::string shown;
        auto r = run(b, 0, {first, second}, {}, shown);
        ref::Conv x = ref::Type<T>::conv(first), y = ref::Type<U>::conv(second);
        std::vector<std::pair<std::string, bool>> errors;
        if (!x.ok)
            errors.push_back({x.error, verbatim<T>});
        if (!y.ok)
            errors.push_back({y.error, verbatim<U>});
        checkErrors(r, errors, shown);
        if (errors.empty())
            MC_CHECK(calls == 1 && got == x.canon + " + " + y.canon, "%s delivers %s instead of %s + %s", mc::show(shown).c_str(), got.c_str(), x.canon.c_str(), y.canon.c_str());
        else
            MC_CHECK(calls == 0 && !r.returnValue.hasValue(), "%s calls the command although an argument is not converted", mc::show(shown).c_str());
        // the order in which arguments are converted is not specified
        auto sorted = [](auto v) {
            std::sort(v.begin(), v.end());
            return v;
        };
        asked = sorted(asked);
        askedRef = sorted(askedRef);
        checkAsked(true, shown);
        mc::transition(2);
        mc::validated();
        mc::outcome(mc::mix(mc::hashStr(got + ref::Type<T>::name() + ref::Type<U>::name()), mc::mix(mc::hashStr(x.error), mc::hashStr(y.error))));
    }

    // variables and properties of type T keep the last value that was converted
    template<typename T>
    void stored(int kind, T initial, std::vector<std::vector<Subs>> const& calls)
    {
        if constexpr (std::is_move_assignable_v<T> && std::is_copy_constructible_v<T>)
        {
            T var(std::move(initial));
            std::string canon = ref::Type<T>::canon(var);
            int getters = 0, setters = 0;
            coil::Bindings b;
            struct Owner
            {
                T& var;
                int& setters;
                T const& get() const { return var; }
                T copy() const { return var; }
                void set(T const& v)
                {
                    setters++;
                    var = v;
                }
            } owner{var, setters};
            switch (kind)
            {
            case 0: b["f"] = coil::variable(&var); break;
            case 1:
                b["f"] = coil::property([&]() -> T const& { getters++; return var; }, [&](T const& v) { setters++; var = v; });
                break;
            case 2:
                b["f"] = coil::property([&] { getters++; return var; }, [&](T v) { setters++; var = std::move(v); });
                break;
            case 3: b["f"] = coil::bindProperty(&Owner::get, &Owner::set, &owner); break;
            case 4: b["f"] = coil::bindProperty(&Owner::copy, &Owner::set, &owner); break;
            case 5: b["f"] = coil::variable(static_cast<T const*>(&var)); break;
            }
            for (auto& args : calls)
            {
                forget();
                setters = 0;
                std::string shown;
                auto r = run(b, 0, args, {}, shown);
                ref::Conv want;
                if (args.size() == 1)
                    want = ref::Type<T>::conv(args[0]);
                bool set = args.size() == 1 && want.ok && kind != 5;
                if (set)
                    canon = want.canon;
                MC_CHECK(ref::Type<T>::canon(var) == canon, "%s leaves the variable as %s instead of %s", mc::show(shown).c_str(), ref::Type<T>::canon(var).c_str(), canon.c_str());
                if (kind)
                    MC_CHECK(kind == 5 || setters == int(set), "%s calls the setter %d times", mc::show(shown).c_str(), setters);
                std::vector<std::pair<std::string, bool>> errors;
                if (args.size() == 1 && !want.ok)
                    errors.push_back({want.error, verbatim<T>});
                else if (args.size() == 1 && kind == 5)
                    errors.push_back({"This variable is read-only", true});
                checkErrors(r, errors, shown);
                if (errors.empty())
                {
                    std::string text = ref::Type<T>::text(var);
                    MC_CHECK(r.returnValue.hasValue() && cu::str(*r.returnValue) == text, "%s shows %s instead of %s", mc::show(shown).c_str(), r.returnValue ? mc::show(cu::str(*r.returnValue)).c_str() : "nothing", text.c_str());
                    MC_CHECK(rendered == renderedRef, "%s: %d values were rendered instead of %d", mc::show(shown).c_str(), rendered, renderedRef);
                }
                else
                    MC_CHECK(!r.returnValue.hasValue(), "%s fails and returns a value", mc::show(shown).c_str());
                checkAsked(true, shown);
                mc::transition(1);
            }
            mc::validated();
            mc::state(mc::hashStr(canon + ref::Type<T>::name()));
        }
    }

    // ---- the menu of types
    template<typename... Ts>
    struct List
    {
        static int const size = sizeof...(Ts);
    };
    using First = List<Color, Level, Flags, Point, Handle, Fixed, Huge>;
    using Second = List<Sly, Derived, Unit<int, 1>, Unit<Color, 2>, std::pair<Color, Point>, std::pair<Handle, Sly>, Unit<Vec<Color>, 5>>;
    using All = List<Color, Level, Flags, Point, Handle, Fixed, Huge, Sly, Derived, Unit<int, 1>, Unit<Color, 2>, std::pair<Color, Point>, std::pair<Handle, Sly>, Unit<Vec<Color>, 5>>;

    template<typename F, typename... Ts>
    void with(int index, List<Ts...>, F f)
    {
        int i = 0;
        ((i++ == index ? f(static_cast<Ts*>(nullptr)) : void()), ...);
    }

    // texts that matter to at least one type
    inline std::string const texts[] = {"red", "green", "low", "a", "c", "1", "-3", "", "!no", "x y", "blue"};
    inline Subs chooseSubs(int max, int menu)
    {
        int n = mc::choose(max + 1);
        Subs s;
        for (int i = 0; i < n; i++)
            s.push_back(texts[mc::choose(menu)]);
        return s;
    }
    // for each type some values and some that are refused
    template<typename T>
    std::vector<Subs> menuOf();
    template<> inline std::vector<Subs> menuOf<Color>() { return {{"red"}, {"blue"}, {"Red"}, {"red", "red"}}; }
    template<> inline std::vector<Subs> menuOf<Level>() { return {{"low"}, {"1"}, {"-5"}, {}}; }
    template<> inline std::vector<Subs> menuOf<Flags>() { return {{"a", "c"}, {}, {"a", "d"}, {"b", "b"}}; }
    template<> inline std::vector<Subs> menuOf<Point>() { return {{"1", "-2"}, {"0", "7"}, {"1"}, {"1", "x"}}; }
    template<> inline std::vector<Subs> menuOf<Handle>() { return {{"h"}, {""}, {"!%s%n"}, {"!"}}; }
    template<> inline std::vector<Subs> menuOf<Fixed>() { return {{"f"}, {"long enough to be allocated somewhere else"}, {""}, {"-"}}; }
    template<> inline std::vector<Subs> menuOf<Huge>() { return {{"h"}, {"another one"}, {""}, {"a", "b"}}; }
    template<> inline std::vector<Subs> menuOf<Sly>() { return {{"s"}, {"0"}, {"-"}, {}}; }
    template<> inline std::vector<Subs> menuOf<Derived>() { return {{"d"}, {"e e"}, {"-"}, {"a", "b"}}; }
    template<> inline std::vector<Subs> menuOf<Unit<int, 1>>() { return {{"1"}, {"-20"}, {"x"}, {"1", "2"}}; }
    template<> inline std::vector<Subs> menuOf<Unit<Color, 2>>() { return {{"green"}, {"red"}, {"1"}, {}}; }
    template<> inline std::vector<Subs> menuOf<std::pair<Color, Point>>() { return {{"red", "1"}, {"red"}, {"x", "1"}, {"red", "green"}}; }
    template<> inline std::vector<Subs> menuOf<std::pair<Handle, Sly>>() { return {{"p", "q"}, {"", "0"}, {"!why", "q"}, {"p", "-"}}; }
    template<> inline std::vector<Subs> menuOf<Unit<Vec<Color>, 5>>() { return {{"red", "blue"}, {}, {"red", "x", "blue"}, {"green"}}; }

    // each compiled on its own
    void firstParameter(int type, int position, Subs const& subs, int way);
    void secondParameter(int type, int position, Subs const& subs, int way);
    void firstPair(int type, int other, int x, int y);
    void secondPair(int type, int other, int x, int y);
    void storedValues(int type, int kind);

    template<typename T>
    void pairOf(int other, int x, int y)
    {
        Subs first = menuOf<T>()[size_t(x)];
        with(other, All{}, [&](auto* q) {
            using U = std::remove_pointer_t<decltype(q)>;
            two<T, U>(first, menuOf<U>()[size_t(y)]);
        });
    }
}
