// C24: one case is a callable of one kind with one list of parameters and one return type.
#pragma once

#include "cu.h"
#include "interp.h"
#include "lexcheck.h"

#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

// a type of the user with its own name
struct User
{
    int v = 0;
};
namespace coil
{
    template<>
    struct TypeSerializer<User>
    {
        static Expected<User, String> fromString(Value const& input)
        {
            auto e = TypeSerializer<int>::fromString(input);
            if (!e)
                return errors::createGenericError<User>(input, "not a user");
            return User{*e};
        }
        static String toString(User const& u) { return cu::string("user " + std::to_string(u.v)); }
    };
    template<>
    struct TypeSerializer<std::unique_ptr<int>>
    {
        static Expected<std::unique_ptr<int>, String> fromString(Value const& input)
        {
            auto e = TypeSerializer<int>::fromString(input);
            if (!e)
                return errors::createGenericError<std::unique_ptr<int>>(input);
            return std::make_unique<int>(*e);
        }
        static String toString(std::unique_ptr<int> const& u) { return u ? cu::string("owned " + std::to_string(*u)) : String("nothing"); }
    };
}
COIL_CREATE_TYPE_NAME(User, "User");
COIL_CREATE_TYPE_NAME(std::unique_ptr<int>, "owned int");

namespace ref
{
    template<>
    struct Type<User>
    {
        static std::string name() { return "User"; }
        static std::string canon(User const& u) { return "user" + std::to_string(u.v); }
        static Conv conv(Subvalues const& s)
        {
            Conv c = Type<int>::conv(s);
            if (!c.ok)
                return {false, "", convError(s, name(), "not a user")};
            return {true, "user" + c.canon, ""};
        }
        static std::string text(User const& u) { return "user " + std::to_string(u.v); }
    };
    template<>
    struct Type<std::unique_ptr<int>>
    {
        static std::string name() { return "owned int"; }
        static std::string canon(std::unique_ptr<int> const& u) { return u ? "owned" + std::to_string(*u) : "moved"; }
        static Conv conv(Subvalues const& s)
        {
            Conv c = Type<int>::conv(s);
            if (!c.ok)
                return {false, "", convError(s, name())};
            return {true, "owned" + c.canon, ""};
        }
        static std::string text(std::unique_ptr<int> const& u) { return u ? "owned " + std::to_string(*u) : "nothing"; }
    };
    template<>
    struct Type<void>
    {
        static std::string name() { return "void"; }
    };
    template<>
    struct Type<char const*>
    {
        static std::string text(char const* s) { return s ? s : "null"; }
    };
}

namespace c24
{
    struct Param
    {
        std::string name;
        ref::Conv (*conv)(ref::Subvalues const&);
    };
    struct Case
    {
        std::string what;
        std::vector<Param> params;
        std::string returnName;
        bool context = false;
        std::vector<std::optional<std::string>> results; // the text of each value the callable may return
        // hands a new callable over: to Bindings::add, to Bindings::operator[] or to a vector
        void (*hand)(int way, coil::Bindings* b, coil::StringView name, coil::Vector<coil::AnyFunctor>* v);
        std::string self; // who is called
    };
    std::vector<Case>& cases();

    extern std::vector<std::string> calls;
    extern int result; // which value is returned

    // ---- the values that are returned
    template<typename T, typename = void>
    struct Samples;
    template<typename T>
    struct Samples<T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool>>>
    {
        static T& get(int i)
        {
            static T v[] = {T(0), std::is_signed_v<T> ? T(-1) : T(1), std::numeric_limits<T>::max(), T(65)};
            static T w[] = {T(0), T(-1), T(1) / T(4), T(65)};
            return std::is_floating_point_v<T> ? w[i] : v[i];
        }
    };
    template<>
    struct Samples<bool>
    {
        static bool& get(int i)
        {
            static bool v[] = {false, true, false, true};
            return v[i];
        }
    };
    template<typename T>
    struct Samples<T, std::enable_if_t<ref::isStringV<T> || std::is_same_v<T, char const*>>>
    {
        static T& get(int i)
        {
            static T v[] = {T(""), T("text"), T("a text that is longer than small buffers \xff %s"), T("null")};
            return v[i];
        }
    };
    template<>
    struct Samples<User>
    {
        static User& get(int i)
        {
            static User v[] = {{0}, {1}, {-7}, {100000}};
            return v[i];
        }
    };
    template<typename T>
    struct Samples<std::vector<T>>
    {
        static std::vector<T>& get(int i)
        {
            static std::vector<T> v[4];
            v[i].clear();
            for (int k = 0; k < i; k++)
                v[i].push_back(Samples<T>::get(k));
            return v[i];
        }
    };
    template<typename T>
    struct Samples<std::optional<T>>
    {
        static std::optional<T>& get(int i)
        {
            static std::optional<T> v[4];
            if (i)
                v[i] = Samples<T>::get(i);
            return v[i];
        }
    };

    // R: the return type of the callable; V: the value that is rendered
    template<typename R>
    struct Ret
    {
        using V = std::remove_cv_t<std::remove_reference_t<R>>;
        static std::string name() { return ref::Type<V>::name(); }
        static R give() { return Samples<V>::get(result); }
        static std::optional<std::string> text(int i) { return ref::Type<V>::text(Samples<V>::get(i)); }
    };
    template<>
    struct Ret<void>
    {
        static std::string name() { return "void"; }
        static void give() {}
        static std::optional<std::string> text(int) { return std::nullopt; }
    };
    template<>
    struct Ret<std::unique_ptr<int>>
    {
        static std::string name() { return "owned int"; }
        static std::unique_ptr<int> give() { return result ? std::make_unique<int>(result) : nullptr; }
        static std::optional<std::string> text(int i) { return i ? "owned " + std::to_string(i) : "nothing"; }
    };
    // a pointer to a value; the first one is null
    template<typename P, typename V>
    struct RetPointer
    {
        using Value = std::remove_cv_t<V>;
        static std::string name() { return ref::Type<Value>::name(); }
        static P give()
        {
            static std::remove_reference_t<P> p;
            p = result ? &Samples<Value>::get(result) : nullptr;
            return p;
        }
        static std::optional<std::string> text(int i) { return i ? ref::Type<Value>::text(Samples<Value>::get(i)) : "null"; }
    };
    template<typename V>
    struct Ret<V*> : RetPointer<V*, V>
    {
    };
    template<typename V>
    struct Ret<V*&> : RetPointer<V*&, V>
    {
    };
    template<typename V>
    struct Ret<V* const&>
    {
        using Value = std::remove_cv_t<V>;
        static std::string name() { return ref::Type<Value>::name(); }
        static V* const& give()
        {
            static V* p;
            p = result ? &Samples<Value>::get(result) : nullptr;
            return p;
        }
        static std::optional<std::string> text(int i) { return RetPointer<V*, V>::text(i); }
    };
    template<>
    struct Ret<char const*>
    {
        static std::string name() { return ref::Type<char>::name(); }
        static char const* give() { return result == 3 ? nullptr : Samples<char const*>::get(result); }
        static std::optional<std::string> text(int i) { return i == 3 ? "null" : Samples<char const*>::get(i); }
    };

    // ---- what a callable does
    inline std::string argument(coil::Context& c)
    {
        c.logf("context %zu;", c.namedArgs().size());
        return "";
    }
    template<typename T>
    std::string argument(T const& v)
    {
        return ref::Type<T>::canon(v) + ",";
    }
    template<typename R, typename... Ts>
    R act(void const* self, char const* who, Ts&... args)
    {
        std::string all;
        ((all += argument(const_cast<std::remove_const_t<Ts>&>(args))), ...);
        calls.push_back(std::string(who) + "@" + std::to_string(*static_cast<int const*>(self)) + "(" + all + ")");
        return Ret<R>::give();
    }

    inline int freeSelf = 1000;
    template<typename R, typename... Ts>
    R freeFunction(Ts... args)
    {
        return act<R>(&freeSelf, "free function", args...);
    }
    template<typename R, typename... Ts>
    R freeNoexcept(Ts... args) noexcept
    {
        return act<R>(&freeSelf, "noexcept free function", args...);
    }
    template<typename R, typename... Ts>
    struct Base
    {
        virtual ~Base() = default;
        virtual R virtualMember(Ts...) = 0;
        virtual R virtualConst(Ts...) const = 0;
    };
    struct Padding
    {
        virtual ~Padding() = default;
        int padding = 99;
    };
    template<typename R, typename... Ts>
    struct Members
    {
        int id;
        static R staticMember(Ts... args) { return act<R>(&freeSelf, "static member", args...); }
#define C24_MEMBERS(M)                                                                                                       \
    M(plain, ) M(constant, const) M(vol, volatile) M(constVol, const volatile) M(lref, &) M(constLref, const&)                \
        M(volLref, volatile&) M(constVolLref, const volatile&) M(plainN, noexcept) M(constantN, const noexcept)                 \
            M(volN, volatile noexcept) M(constVolN, const volatile noexcept) M(lrefN, &noexcept) M(constLrefN, const& noexcept) \
                M(volLrefN, volatile& noexcept) M(constVolLrefN, const volatile& noexcept)
#define C24_MEMBER(NAME, QUALIFIERS) \
    R NAME(Ts... args) QUALIFIERS { return act<R>(const_cast<int const*>(&id), #NAME, args...); }
        C24_MEMBERS(C24_MEMBER)
#undef C24_MEMBER
    };
    template<typename R, typename... Ts>
    struct Derived : Padding, Members<R, Ts...>, Base<R, Ts...>
    {
        R virtualMember(Ts... args) override { return act<R>(&this->id, "virtual", args...); }
        R virtualConst(Ts... args) const override { return act<R>(&this->id, "virtual const", args...); }
    };
#define C24_FUNCTOR(NAME, QUALIFIERS)                                                                              \
    template<typename R, typename... Ts>                                                                           \
    struct NAME                                                                                                    \
    {                                                                                                              \
        int id;                                                                                                    \
        R operator()(Ts... args) QUALIFIERS { return act<R>(const_cast<int const*>(&id), #NAME, args...); } \
    };
    C24_FUNCTOR(FunctorPlain, )
    C24_FUNCTOR(FunctorConst, const)
    C24_FUNCTOR(FunctorVolatile, volatile)
    C24_FUNCTOR(FunctorRef, &)
    C24_FUNCTOR(FunctorConstRef, const& noexcept)

    template<typename T>
    constexpr bool isContext = std::is_same_v<std::decay_t<T>, coil::Context>;

    // skips a leading context
    template<typename... Ts>
    struct Params
    {
        static std::vector<Param> get() { return {Param{ref::Type<std::decay_t<Ts>>::name(), &ref::Type<std::decay_t<Ts>>::conv}...}; }
    };
    template<typename T, typename... Ts>
    struct Params<T, Ts...>
    {
        static std::vector<Param> get()
        {
            if constexpr (isContext<T>)
                return Params<Ts...>::get();
            else
                return {Param{ref::Type<std::decay_t<T>>::name(), &ref::Type<std::decay_t<T>>::conv}, Param{ref::Type<std::decay_t<Ts>>::name(), &ref::Type<std::decay_t<Ts>>::conv}...};
        }
    };
    template<typename... Ts>
    constexpr bool startsWithContext()
    {
        return false;
    }
    template<typename T, typename... Ts>
    constexpr bool startsWithContext(int)
    {
        return isContext<T>;
    }

    template<typename R, typename... Ts>
    struct Register
    {
        static Case common(std::string what, std::string self, bool context)
        {
            Case c;
            c.what = what;
            c.params = Params<Ts...>::get();
            c.returnName = Ret<R>::name();
            c.context = context;
            for (int i = 0; i < 4; i++)
                c.results.push_back(Ret<R>::text(i));
            c.self = self;
            return c;
        }
        static bool context()
        {
            if constexpr (sizeof...(Ts) > 0)
                return startsWithContext<Ts...>(0);
            else
                return false;
        }
        template<typename F>
        static void handOver(int way, coil::Bindings* b, coil::StringView name, coil::Vector<coil::AnyFunctor>* v)
        {
            static char stateless = 0; // captures nothing
            F* f = reinterpret_cast<F*>(&stateless);
            if (way == 0)
                b->add(name, (*f)());
            else if (way == 1)
                (*b)[name] = (*f)();
            else
                v->pushBack(coil::detail::createAnyFunctor((*f)()));
        }
        // f creates the callable
        template<typename F>
        static void callable(std::string const& label, char const* who, int id, F)
        {
            static_assert(std::is_empty_v<F>);
            Case c = common(std::string(who) + " " + label, std::string(who) + "@" + std::to_string(id), context());
            c.hand = &handOver<F>;
            cases().push_back(std::move(c));
        }
        template<typename F>
        static void bound(std::string const& label, char const* who, char const* name, int id, F)
        {
            static_assert(std::is_empty_v<F>);
            Case c = common(std::string(who) + " " + label, std::string(name) + "@" + std::to_string(id), context());
            c.hand = &handOver<F>;
            cases().push_back(std::move(c));
        }
        static void functions(std::string const& label)
        {
            callable(label, "free function", 1000, [] { return &freeFunction<R, Ts...>; });
            callable(label, "noexcept free function", 1000, [] { return &freeNoexcept<R, Ts...>; });
            callable(label, "static member", 1000, [] { return &Members<R, Ts...>::staticMember; });
            callable(label, "lambda", 1000, [] { return [](Ts... args) -> R { return act<R>(&freeSelf, "lambda", args...); }; });
            callable(label, "function made from a lambda", 1000, [] { return +[](Ts... args) -> R { return act<R>(&freeSelf, "function made from a lambda", args...); }; });
            callable(label, "capturing lambda", 5, [] { return [id = 5](Ts... args) -> R { return act<R>(&id, "capturing lambda", args...); }; });
            callable(label, "mutable lambda", 6, [] { return [id = 5](Ts... args) mutable -> R { id = 6; return act<R>(&id, "mutable lambda", args...); }; });
            callable(label, "noexcept lambda", 7, [] { return [id = 7](Ts... args) noexcept -> R { return act<R>(&id, "noexcept lambda", args...); }; });
            callable(label, "mutable noexcept lambda", 8, [] { return [id = std::make_unique<int>(8)](Ts... args) mutable noexcept -> R { return act<R>(id.get(), "mutable noexcept lambda", args...); }; });
            callable(label, "FunctorPlain", 9, [] { return FunctorPlain<R, Ts...>{9}; });
            callable(label, "FunctorConst", 10, [] { return FunctorConst<R, Ts...>{10}; });
            callable(label, "FunctorVolatile", 11, [] { return FunctorVolatile<R, Ts...>{11}; });
            callable(label, "FunctorRef", 12, [] { return FunctorRef<R, Ts...>{12}; });
            callable(label, "FunctorConstRef", 13, [] { return FunctorConstRef<R, Ts...>{13}; });
            callable(label, "std::function", 14, [] { return std::function<R(Ts...)>([id = 14](Ts... args) -> R { return act<R>(&id, "std::function", args...); }); });
        }
        static void members(std::string const& label)
        {
            using O = Derived<R, Ts...>;
            static O one, two;
            one.id = 1;
            two.id = 2;
            using Ms = Members<R, Ts...>;
#define C24_BIND(NAME, QUALIFIERS) bound(label, "member function " #QUALIFIERS, #NAME, 1, [] { return coil::bind(&Ms::NAME, static_cast<Ms*>(&one)); });
            C24_MEMBERS(C24_BIND)
#undef C24_BIND
#define C24_BIND_CONST(NAME) bound(label, "const object and member " #NAME, #NAME, 2, [] { return coil::bind(&Ms::NAME, const_cast<O const*>(&two)); });
            C24_BIND_CONST(constant)
            C24_BIND_CONST(constVol)
            C24_BIND_CONST(constLref)
            C24_BIND_CONST(constVolLref)
            C24_BIND_CONST(constantN)
            C24_BIND_CONST(constVolN)
            C24_BIND_CONST(constLrefN)
            C24_BIND_CONST(constVolLrefN)
#undef C24_BIND_CONST
            bound(label, "inherited member", "plain", 2, [] { return coil::bind(&Ms::plain, &two); });
            bound(label, "inherited member &", "lref", 1, [] { return coil::bind(&Ms::lref, &one); });
            bound(label, "virtual member", "virtual", 1, [] { return coil::bind(&Base<R, Ts...>::virtualMember, static_cast<Base<R, Ts...>*>(&one)); });
            bound(label, "virtual member of a derived object", "virtual", 2, [] { return coil::bind(&Base<R, Ts...>::virtualMember, &two); });
            bound(label, "virtual const member of a const object", "virtual const", 2, [] { return coil::bind(&Base<R, Ts...>::virtualConst, const_cast<O const*>(&two)); });
        }
    };
    void addMemberReturns();
    void addReturns();
    void addLists();
    void addMemberLists();
}
