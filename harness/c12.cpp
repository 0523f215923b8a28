// C12: optional, expected and owning pointers hold exactly what was last put in them.
#include "cu.h"
#include "lexcheck.h"
#include "tracked.h"

#include <limits>

namespace
{
    using Opt = coil::Optional<Tracked>;
    using Exp = coil::Expected<Tracked, Tracked>;

    // -3: empty, otherwise the value
    constexpr int none = -3;
    constexpr int unknown = -4; // moved from

    void check(Opt& o, int want, char const* which)
    {
        if (want == unknown)
            return;
        Opt const& c = o;
        MC_CHECK(o.hasValue() == (want != none) && bool(o) == (want != none), "%s %s", which, o.hasValue() ? "has a value" : "is empty");
        if (want != none)
        {
            MC_CHECK((*o).get() == want && (*c).get() == want && o->get() == want && c->get() == want, "%s holds %d instead of %d", which, (*o).get(), want);
            MC_CHECK(o == want && !(o == Tracked{want + 1}), "%s compares wrongly with values", which);
        }
        else
            MC_CHECK(!(o == Tracked{1}) && o != Tracked{1}, "an empty optional equals a value");
    }

    int depthOf(int asanQuick, int relQuick, int asanThorough, int relThorough) { return mc::thorough() ? (mc::asan() ? asanThorough : relThorough) : (mc::asan() ? asanQuick : relQuick); }
}

static void optionals()
{
    {
        Opt o[2];
        int want[2] = {none, none};
        int depth = depthOf(5, 6, 6, 7);
        for (int i = 0; i < depth; i++)
        {
            int op = mc::choose(19);
            if (op == 18)
                break;
            int k = op & 1;
            Opt &a = o[k], &b = o[1 - k];
            int &wa = want[k], &wb = want[1 - k];
            switch (op / 2)
            {
            case 0: MC_OP("o%d = %d (copied value)", k, i + 1); { Tracked t{i + 1}; a = t; MC_CHECK(t == i + 1, "the source was changed"); } wa = i + 1; break;
            case 1: MC_OP("o%d = %d (moved value)", k, i + 1); a = Tracked{i + 1}; wa = i + 1; break;
            case 2: MC_OP("o%d = {}", k); a = Opt{}; wa = none; break;
            case 3: if (wb != unknown) { MC_OP("o%d = o%d", k, 1 - k); a = b; wa = wb; } break;
            case 4: if (wb != unknown) { MC_OP("o%d = move(o%d)", k, 1 - k); a = std::move(b); wa = wb; wb = wb == none ? none : unknown; } break;
            case 5: { MC_OP("o%d = o%d", k, k); Opt& alias = a; a = alias; break; }
            case 6:
            {
                if (wa == unknown)
                    break;
                MC_OP("copy of o%d", k);
                Opt c{a};
                check(c, wa, "the copy");
                MC_CHECK(c == a && !(c != a), "a copy is not equal to the original");
                c = Tracked{1000};
                check(a, wa, "the original of a changed copy");
                MC_CHECK(!(c == a) && c != a, "different optionals are equal");
                break;
            }
            case 7:
            {
                if (wa == unknown)
                    break;
                MC_OP("o%d moved out and in", k);
                Opt c{std::move(a)};
                check(c, wa, "the moved optional");
                a = std::move(c);
                break;
            }
            case 8:
                if (wa != none && wa != unknown)
                {
                    MC_OP("*o%d = %d", k, 50 + i);
                    *a = Tracked{50 + i};
                    wa = 50 + i;
                }
                break;
            }
            check(o[0], want[0], "o0");
            check(o[1], want[1], "o1");
            if (want[0] != unknown && want[1] != unknown)
                MC_CHECK((o[0] == o[1]) == (want[0] == want[1]) && (o[0] != o[1]) == (want[0] != want[1]), "comparison of o0 and o1 is wrong");
            long alive = 0;
            for (auto& x : o)
                alive += x.hasValue();
            MC_CHECK(Tracked::alive == alive, "%ld objects are alive, the optionals hold %ld", Tracked::alive, alive);
            mc::state(mc::mix(uint64_t(want[0] + 10), uint64_t(want[1] + 10)));
        }
        mc::outcome(mc::mix(uint64_t(want[0] + 10), uint64_t(want[1] + 10)));
    }
    MC_CHECK(Tracked::alive == 0, "%ld objects are alive at the end", Tracked::alive);
}

namespace
{
    struct Want
    {
        bool value = true;
        int v = 0;
        bool known = true;
    };

    void check(Exp& e, Want const& w, char const* which)
    {
        if (!w.known)
            return;
        Exp const& c = e;
        MC_CHECK(e.hasValue() == w.value && bool(e) == w.value, "%s %s", which, e.hasValue() ? "holds a value" : "holds an error");
        if (w.value)
        {
            MC_CHECK(e.value().get() == w.v && c.value().get() == w.v && (*e).get() == w.v && (*c).get() == w.v && e->get() == w.v && c->get() == w.v, "%s holds %d instead of %d", which, e.value().get(), w.v);
            MC_CHECK(e == w.v && !(e == w.v + 1), "%s compares wrongly with values", which);
            MC_CHECK(!(e == coil::makeUnexpected(w.v)), "%s equals an error", which);
        }
        else
        {
            MC_CHECK(e.error().get() == w.v && c.error().get() == w.v, "%s holds error %d instead of %d", which, e.error().get(), w.v);
            MC_CHECK(e == coil::makeUnexpected(w.v) && !(e == coil::makeUnexpected(w.v + 1)), "%s compares wrongly with errors", which);
            MC_CHECK(!(e == w.v), "%s equals a value", which);
        }
    }
    uint64_t h(Want const& w) { return uint64_t(w.v * 4 + w.value * 2 + w.known); }
}

static void expecteds()
{
    {
        Exp e[2] = {Exp{Tracked{100}}, Exp{coil::makeUnexpected(Tracked{200})}};
        Want want[2] = {{true, 100}, {false, 200}};
        int depth = depthOf(5, 6, 6, 7);
        for (int i = 0; i < depth; i++)
        {
            int op = mc::choose(19);
            if (op == 18)
                break;
            int k = op & 1;
            Exp &a = e[k], &b = e[1 - k];
            Want &wa = want[k], &wb = want[1 - k];
            switch (op / 2)
            {
            case 0: MC_OP("e%d = value %d", k, i + 1); a = Exp{Tracked{i + 1}}; wa = {true, i + 1}; break;
            case 1: MC_OP("e%d = error %d", k, i + 1); a = coil::makeUnexpected(Tracked{i + 1}); wa = {false, i + 1}; break;
            case 2: if (wb.known) { MC_OP("e%d = e%d", k, 1 - k); a = b; wa = wb; } break;
            case 3: if (wb.known) { MC_OP("e%d = move(e%d)", k, 1 - k); a = std::move(b); wa = wb; wb.known = false; } break;
            case 4: { MC_OP("e%d = e%d", k, k); Exp& alias = a; a = alias; break; }
            case 5:
            {
                if (!wa.known)
                    break;
                MC_OP("copy of e%d", k);
                Exp c{a};
                check(c, wa, "the copy");
                MC_CHECK(c == a, "a copy is not equal to the original");
                if (c)
                    *c = Tracked{77};
                else
                    c.error() = Tracked{77};
                check(a, wa, "the original of a changed copy");
                break;
            }
            case 6:
            {
                if (!wa.known)
                    break;
                MC_OP("e%d moved out and in", k);
                Exp c{std::move(a)};
                check(c, wa, "the moved expected");
                a = std::move(c);
                break;
            }
            case 7:
            {
                if (!wa.known)
                    break;
                MC_OP("content of e%d taken", k);
                Tracked t = a ? (i % 2 ? std::move(a).value() : *std::move(a)) : std::move(a).error();
                MC_CHECK(t.get() == wa.v, "taken content is %d instead of %d", t.get(), wa.v);
                wa.known = false;
                break;
            }
            case 8:
            {
                if (!wa.known)
                    break;
                MC_OP("converted error assigned to e%d", k);
                coil::Unexpected<int> u{300 + i};
                a = i % 2 ? Exp{coil::Unexpected<Tracked>(u)} : Exp{std::move(u)};
                wa = {false, 300 + i};
                break;
            }
            }
            check(e[0], want[0], "e0");
            check(e[1], want[1], "e1");
            if (want[0].known && want[1].known)
                MC_CHECK((e[0] == e[1]) == (want[0].value == want[1].value && want[0].v == want[1].v), "comparison of e0 and e1 is wrong");
            MC_CHECK(Tracked::alive == 2, "%ld objects are alive in two expecteds", Tracked::alive);
            mc::state(mc::mix(h(want[0]), h(want[1])));
        }
        mc::outcome(mc::mix(h(want[0]), h(want[1])));
    }
    MC_CHECK(Tracked::alive == 0, "%ld objects are alive at the end", Tracked::alive);
}

// value and error of different types and sizes, owning memory
static void expectedStrings()
{
    using E = coil::Expected<coil::Vector<int>, coil::String>;
    auto value = [](int n) { coil::Vector<int> v; for (int i = 0; i < n; i++) v.pushBack(n); return v; };
    E e[2] = {E{value(2)}, E{coil::makeUnexpected(coil::String("first error, long enough for the heap"))}};
    int want[2] = {2, -100};
    int depth = depthOf(5, 6, 6, 7);
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(12);
        int k = op & 1;
        switch (op / 2)
        {
        case 0: MC_OP("e%d = value", k); e[k] = E{value(i + 3)}; want[k] = i + 3; break;
        case 1: MC_OP("e%d = error", k); e[k] = coil::makeUnexpected(coil::sprintf("error %d", -i - 1)); want[k] = -i - 1; break;
        case 2: MC_OP("e%d = e%d", k, 1 - k); e[k] = e[1 - k]; want[k] = want[1 - k]; break;
        case 3: MC_OP("e%d = move(e%d), e%d = value 1", k, 1 - k, 1 - k); e[k] = std::move(e[1 - k]); e[1 - k] = E{value(1)}; want[k] = want[1 - k]; want[1 - k] = 1; break;
        case 4: { MC_OP("e%d = e%d", k, k); E& alias = e[k]; e[k] = alias; break; }
        case 5: { MC_OP("e%d = error from a literal", k); e[k] = coil::makeUnexpected("error -50"); want[k] = -50; break; }
        }
        for (int j = 0; j < 2; j++)
        {
            MC_CHECK(e[j].hasValue() == (want[j] > 0), "e%d %s", j, e[j].hasValue() ? "holds a value" : "holds an error");
            if (want[j] > 0)
                MC_CHECK(e[j]->size() == size_t(want[j]) && (*e[j])[0] == want[j], "e%d holds another value", j);
            else
                MC_CHECK(want[j] == -100 ? e[j].error() == "first error, long enough for the heap" : e[j].error() == coil::sprintf("error %d", want[j]), "e%d holds error %s", j, e[j].error().cStr());
        }
        MC_CHECK((e[0] == e[1]) == (want[0] == want[1]), "comparison is wrong");
        mc::state(mc::mix(uint64_t(want[0] + 200), uint64_t(want[1] + 200)));
    }
    mc::outcome(mc::mix(uint64_t(want[0] + 200), uint64_t(want[1] + 200)));
}

static void optionalStrings()
{
    using O = coil::Optional<coil::String>;
    O o[2];
    std::optional<std::string> want[2];
    int depth = depthOf(5, 6, 6, 7);
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(12);
        int k = op & 1;
        std::string t = i % 2 ? "" : "a text that is long enough for the heap " + std::to_string(i);
        switch (op / 2)
        {
        case 0: MC_OP("o%d = text", k); o[k] = cu::string(t); want[k] = t; break;
        case 1: MC_OP("o%d = {}", k); o[k] = {}; want[k].reset(); break;
        case 2: MC_OP("o%d = o%d", k, 1 - k); o[k] = o[1 - k]; want[k] = want[1 - k]; break;
        case 3: MC_OP("o%d = move(o%d), o%d = {}", k, 1 - k, 1 - k); o[k] = std::move(o[1 - k]); o[1 - k] = {}; want[k] = want[1 - k]; want[1 - k].reset(); break;
        case 4: if (want[k]) { MC_OP("*o%d += x", k); *o[k] += "x"; *want[k] += "x"; } break;
        case 5: { MC_OP("o%d = o%d", k, k); O& alias = o[k]; o[k] = alias; break; }
        }
        for (int j = 0; j < 2; j++)
        {
            MC_CHECK(o[j].hasValue() == want[j].has_value(), "o%d %s", j, o[j].hasValue() ? "has a value" : "is empty");
            if (want[j])
                MC_CHECK(cu::str(*o[j]) == *want[j] && o[j] == coil::StringView(*o[j]) && o[j]->length() == want[j]->size(), "o%d holds %s", j, cu::str(*o[j]).c_str());
        }
        MC_CHECK((o[0] == o[1]) == (want[0] == want[1]) && (o[0] != o[1]) == (want[0] != want[1]), "comparison is wrong");
        mc::state(mc::mix(want[0] ? mc::hashStr(*want[0]) : 1, want[1] ? mc::hashStr(*want[1]) : 1));
    }
    mc::outcome(mc::mix(want[0] ? mc::hashStr(*want[0]) : 1, want[1] ? mc::hashStr(*want[1]) : 1));
}

namespace
{
    struct Base
    {
        Tracked t;
        explicit Base(int v) : t(v) {}
        virtual ~Base() = default;
        virtual int kind() const { return 0; }
    };
    struct Derived : Base
    {
        Tracked more;
        Derived(int v, Tracked m) : Base(v), more(std::move(m)) {}
        int kind() const override { return more.get(); }
    };
}

static void pointers()
{
    {
        using P = coil::UniquePtr<Base>;
        P p[2];
        struct W { int v = none; int kind = 0; bool known = true; } want[2];
        int depth = depthOf(6, 7, 7, 8);
        for (int i = 0; i < depth; i++)
        {
            int op = mc::choose(13);
            if (op == 12)
                break;
            int k = op & 1;
            P &a = p[k], &b = p[1 - k];
            switch (op / 2)
            {
            case 0: MC_OP("p%d = makeUnique(%d)", k, i); a = coil::makeUnique<Base>(i); want[k] = {i, 0}; break;
            case 1: MC_OP("p%d = makeUnique<Derived>(%d)", k, i); a = coil::makeUnique<Derived>(i, Tracked{7}); want[k] = {i, 7}; break;
            case 2: MC_OP("p%d = null", k); a = P{}; want[k] = {}; break;
            case 3: MC_OP("p%d = move(p%d)", k, 1 - k); a = std::move(b); want[k] = want[1 - k]; want[1 - k].known = false; break;
            case 4:
            {
                MC_OP("p%d moved out and in", k);
                P c{std::move(a)};
                MC_CHECK(!a && a.get() == nullptr, "a pointer still owns after it was moved from");
                a = std::move(c);
                break;
            }
            case 5: { MC_OP("p%d = move(p%d)", k, k); P& alias = a; a = std::move(alias); break; }
            }
            for (int j = 0; j < 2; j++)
            {
                if (!want[j].known)
                    continue;
                P const& c = p[j];
                MC_CHECK(bool(p[j]) == (want[j].v != none) && (p[j].get() != nullptr) == (want[j].v != none) && c.get() == p[j].get(), "p%d %s", j, p[j] ? "owns an object" : "is null");
                if (want[j].v != none)
                    MC_CHECK(p[j]->t.get() == want[j].v && (*p[j]).kind() == want[j].kind && c->kind() == want[j].kind && (*c).t.get() == want[j].v, "p%d owns another object", j);
            }
            MC_CHECK(!p[0].get() || p[0].get() != p[1].get(), "two pointers own one object");
            long alive = 0;
            for (auto& x : p)
                if (x)
                    alive += x->kind() ? 2 : 1;
            MC_CHECK(Tracked::alive == alive, "%ld objects are alive, the pointers own %ld", Tracked::alive, alive);
            mc::state(uint64_t((want[0].v + 10) * 10000 + (want[1].v + 10) * 100 + want[0].kind * 4 + want[1].kind + want[0].known * 2 + want[1].known));
        }
        mc::outcome(uint64_t((want[0].v + 10) * 10000 + (want[1].v + 10) * 100 + want[0].kind * 4 + want[1].kind));
    }
    MC_CHECK(Tracked::alive == 0, "%ld objects are alive at the end", Tracked::alive);
}

// copies of the content: a value is constructed once and moved on, not duplicated
static void forwarding()
{
    int v = mc::choose(5);
    int way = mc::choose(8);
    {
        Tracked::copies = 0;
        switch (way)
        {
        case 0: { Opt o{Tracked{v}}; check(o, v, "o"); } break;
        case 1: { Opt o; o = Tracked{v}; check(o, v, "o"); } break;
        case 2: { Exp e{Tracked{v}}; check(e, {true, v}, "e"); Exp f{std::move(e)}; check(f, {true, v}, "f"); } break;
        case 3: { Exp e{coil::makeUnexpected(Tracked{v})}; check(e, {false, v}, "e"); } break;
        case 4: { Opt o{Tracked{v}}; Opt p{std::move(o)}; check(p, v, "p"); } break;
        case 5: { auto p = coil::makeUnique<Derived>(v, Tracked{3}); coil::UniquePtr<Base> b = std::move(p); MC_CHECK(b && b->kind() == 3 && b->t == v && !p, "the converted pointer owns another object"); } break;
        case 6: { coil::Unexpected<Tracked> u{Tracked{v}}; MC_CHECK(u.value() == v, "unexpected holds another error"); coil::Unexpected<Tracked> w{std::move(u).value()}; MC_CHECK(w.value() == v, "moved unexpected holds another error"); } break;
        case 7: { coil::Unexpected<int> u{v}; coil::Unexpected<Tracked> a = u, b = static_cast<coil::Unexpected<int> const&>(u), c = std::move(u); MC_CHECK(a.value() == v && b.value() == v && c.value() == v, "a converted error is different"); } break;
        }
        MC_OP("way %d value %d", way, v);
    }
    MC_CHECK(Tracked::alive == 0, "%ld objects are alive at the end", Tracked::alive);
    mc::state(uint64_t(way * 10 + v));
    mc::outcome(uint64_t(way * 10 + v));
}

// equality is what the content's own equality says
namespace
{
    struct Loose // some fields do not matter
    {
        char kind;
        int note;
        bool operator==(Loose const& r) const { return kind == r.kind; }
        bool operator!=(Loose const& r) const { return kind != r.kind; }
    };

    template<typename T>
    std::vector<T> contents()
    {
        if constexpr (std::is_floating_point_v<T>)
            return {T(0.0), T(-0.0), T(1.5), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity()};
        else if constexpr (std::is_same_v<T, Loose>)
            return {{'a', 1}, {'a', 2}, {'b', 1}, {'\0', 0}};
        else if constexpr (std::is_same_v<T, coil::StringView>)
        {
            static char const one[] = "same", two[] = "same", three[] = "a\0b", four[] = "a\0c";
            return {coil::StringView{one, 4}, coil::StringView{two, 4}, coil::StringView{one, 3}, coil::StringView{three, 3}, coil::StringView{four, 3}, coil::StringView{}};
        }
        else if constexpr (std::is_same_v<T, coil::String>)
            return {coil::String{"a"}, coil::String{coil::StringView{"a\0b", 3}}, coil::String{coil::StringView{"a\0c", 3}}, coil::String{}};
        else if constexpr (std::is_same_v<T, char const*>)
        {
            static char const one[] = "same", two[] = "same";
            return {one, two, nullptr};
        }
        else if constexpr (std::is_same_v<T, bool>)
            return {false, true};
        else
            return {T(0), T(1), T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min()};
    }
    template<typename T>
    bool alike(T const& a, T const& b)
    {
        if constexpr (std::is_same_v<T, coil::StringView> || std::is_same_v<T, coil::String>)
            return cu::str(a) == cu::str(b);
        else
            return a == b;
    }

    template<typename T>
    void equality()
    {
        auto const menu = contents<T>();
        int n = int(menu.size());
        int x = mc::choose(n + 1);
        int y = mc::choose(n + 1);
        auto optional = [&](int i) { return i < n ? coil::Optional<T>{menu[size_t(i)]} : coil::Optional<T>{}; };
        coil::Optional<T> const a = optional(x), b = optional(y);
        bool want = (x == n || y == n) ? x == y : alike(menu[size_t(x)], menu[size_t(y)]);
        MC_OP("optionals of %d and %d of %d", x, y, n);
        MC_CHECK((a == b) == want && (a != b) == !want, "optionals %d and %d compare as %d, %d", x, y, int(a == b), int(a != b));
        if (y < n)
        {
            bool same = x < n && alike(menu[size_t(x)], menu[size_t(y)]);
            MC_CHECK((a == menu[size_t(y)]) == same && (a != menu[size_t(y)]) == !same, "optional %d and value %d compare as %d, %d", x, y, int(a == menu[size_t(y)]), int(a != menu[size_t(y)]));
        }
        coil::Optional<T> const copy{a};
        bool reflexive = x == n || alike(menu[size_t(x)], menu[size_t(x)]);
        MC_CHECK((a == copy) == reflexive, "an optional %s its copy", reflexive ? "differs from" : "equals");

        using Expect = coil::Expected<T, T>;
        if (x == n || y == n)
            return;
        bool fx = mc::flip();
        bool fy = mc::flip();
        auto expect = [&](int i, bool failed) { return failed ? Expect{coil::makeUnexpected(menu[size_t(i)])} : Expect{menu[size_t(i)]}; };
        Expect const e = expect(x, fx), f = expect(y, fy);
        bool content = alike(menu[size_t(x)], menu[size_t(y)]);
        MC_OP("expected %s %d and %s %d", fx ? "error" : "value", x, fy ? "error" : "value", y);
        MC_CHECK((e == f) == (fx == fy && content), "expecteds compare as %d", int(e == f));
        MC_CHECK((e == menu[size_t(y)]) == (!fx && content), "an expected and a value compare as %d", int(e == menu[size_t(y)]));
        MC_CHECK((e == coil::makeUnexpected(menu[size_t(y)])) == (fx && content), "an expected and an error compare as %d", int(e == coil::makeUnexpected(menu[size_t(y)])));
        mc::outcome(uint64_t(content) * 4 + uint64_t(fx) * 2 + uint64_t(fy));
        mc::state(uint64_t(x * 100 + y * 4) + uint64_t(fx) * 2 + uint64_t(fy));
    }
}
static void equalityCases()
{
    switch (mc::choose(10))
    {
    case 0: equality<float>(); break;
    case 1: equality<double>(); break;
    case 2: equality<long double>(); break;
    case 3: equality<Loose>(); break;
    case 4: equality<coil::StringView>(); break;
    case 5: equality<coil::String>(); break;
    case 6: equality<char const*>(); break;
    case 7: equality<bool>(); break;
    case 8: equality<int>(); break;
    default: equality<long long>(); break;
    }
}

// contents that come from the object's own contents
static void ownParts()
{
    {
        Opt o;
        Exp e{Tracked{0}};
        int wo = none;
        bool value = true;
        int we = 0;
        int depth = depthOf(4, 5, 5, 6);
        for (int i = 0; i < depth; i++)
        {
            int op = mc::choose(13);
            if (op == 12)
                break;
            if (wo == none && op < 4)
                op = 4;
            switch (op)
            {
            case 0: MC_OP("o = *o"); o = *o; break;
            case 1: MC_OP("o = move(*o)"); o = std::move(*o); break;
            case 2: MC_OP("o = Optional{*o}"); o = Opt{*o}; break;
            case 3: MC_OP("o = {}"); o = {}; wo = none; break;
            case 4: MC_OP("o = %d", i + 1); o = Tracked{i + 1}; wo = i + 1; break;
            case 5: MC_OP("e = its content"); if (value) e = *e; else e = coil::makeUnexpected(e.error()); break;
            case 6: MC_OP("e = its content, moved"); if (value) e = std::move(e).value(); else e = coil::makeUnexpected(std::move(e).error()); break;
            case 7: MC_OP("e becomes the other kind of its content"); if (value) e = coil::makeUnexpected(*e); else e = e.error(); value = !value; break;
            case 8: MC_OP("e becomes the other kind of its content, moved"); if (value) e = coil::makeUnexpected(std::move(e).value()); else e = std::move(e).error(); value = !value; break;
            case 9: MC_OP("e = *o"); if (wo != none) { e = *o; value = true; we = wo; } break;
            case 10: MC_OP("e = error of *o"); if (wo != none) { e = coil::makeUnexpected(*o); value = false; we = wo; } break;
            case 11: MC_OP("o = content of e"); o = value ? *e : e.error(); wo = we; break;
            }
            check(o, wo, "o");
            check(e, {value, we}, "e");
            MC_CHECK(Tracked::alive == 1 + (wo != none), "%ld objects are alive instead of %d", Tracked::alive, 1 + (wo != none));
            mc::state(uint64_t((wo + 10) * 1000 + (we + 10) * 2 + value));
        }
        mc::outcome(uint64_t((wo + 10) * 1000 + (we + 10) * 2 + value));
    }
    MC_CHECK(Tracked::alive == 0, "%ld objects are alive at the end", Tracked::alive);
}

// a chain of objects, each of which owns the next
namespace
{
    struct Link
    {
        Tracked t;
        coil::UniquePtr<Link> next;
        Link(int v) : t(v) {}
    };
}
static void chains()
{
    {
        using P = coil::UniquePtr<Link>;
        P head;
        std::vector<int> want;
        int depth = depthOf(6, 7, 7, 8);
        for (int i = 0; i < depth; i++)
        {
            int op = mc::choose(8);
            if (op == 7)
                break;
            switch (op)
            {
            case 0:
            {
                MC_OP("put %d in front", i + 1);
                P n = coil::makeUnique<Link>(i + 1);
                n->next = std::move(head);
                head = std::move(n);
                want.insert(want.begin(), i + 1);
                break;
            }
            case 1:
                if (want.empty())
                    break;
                MC_OP("take the rest, then head = move(rest)");
                {
                    P rest{std::move(head->next)};
                    head = std::move(rest);
                }
                want.erase(want.begin());
                break;
            case 2:
                if (want.size() < 2)
                    break;
                MC_OP("take the rest, then head->next = move(rest)");
                {
                    P rest{std::move(head->next->next)};
                    head->next = std::move(rest);
                }
                want.erase(want.begin() + 1);
                break;
            case 3:
                if (want.size() < 2)
                    break;
                MC_OP("take the rest of the rest, then head = move(rest)");
                {
                    P rest;
                    rest = std::move(head->next->next);
                    head = std::move(rest);
                }
                want.erase(want.begin(), want.begin() + 2);
                break;
            case 4:
                if (want.empty())
                    break;
                MC_OP("the rest is taken out and dropped");
                {
                    P rest{std::move(head->next)};
                    MC_CHECK(!head->next, "a pointer still owns after it was moved from");
                }
                want.resize(1);
                break;
            case 5:
            {
                MC_OP("replaced by one new object");
                head = coil::makeUnique<Link>(60 + i);
                want = {60 + i};
                break;
            }
            case 6:
                MC_OP("head = null");
                head = P{};
                want.clear();
                break;
            }
            size_t n = 0;
            for (Link* l = head.get(); l; l = l->next.get(), n++)
                MC_CHECK(n < want.size() && l->t.get() == want[n], "object %zu is %d", n, l->t.get());
            MC_CHECK(n == want.size(), "the chain has %zu objects instead of %zu", n, want.size());
            MC_CHECK(Tracked::alive == long(want.size()), "%ld objects are alive, the chain has %zu", Tracked::alive, want.size());
            uint64_t h = 1;
            for (int v : want)
                h = mc::mix(h, uint64_t(v));
            mc::state(h);
        }
        mc::outcome(want.size());
    }
    MC_CHECK(Tracked::alive == 0, "%ld objects are alive at the end", Tracked::alive);
}

// a pointer assigned from one that its own object owns, which is known to lose that object
static void ownLink()
{
    static int length, skip;
    length = 1 + mc::choose(3);
    skip = 1 + mc::choose(length);
    auto body = [] {
        {
            coil::UniquePtr<Link> head = coil::makeUnique<Link>(1), *last = &head;
            for (int i = 2; i <= length; i++)
            {
                last = &(*last)->next;
                *last = coil::makeUnique<Link>(i);
            }
            head = std::move(skip == 1 ? head->next : skip == 2 ? head->next->next : head->next->next->next);
            int want = length == skip ? 0 : skip + 1;
            MC_CHECK((head ? head->t.get() : 0) == want, "the pointer owns another object");
        }
        MC_CHECK(Tracked::alive == 0, "%ld objects are not destroyed", Tracked::alive);
    };
    std::string how;
    if (!mc::probe(body, &how))
    {
        MC_LOG("%s", how.c_str());
        if (how.find("not destroyed") == std::string::npos)
            mc::fail("a pointer assigned from one that its own object owns: %s", how.c_str());
        mc::knownFinding("pointer_from_own_object");
    }
    mc::state(uint64_t(length * 10 + skip));
}

MC_MAIN({"optionals", optionals}, {"expecteds", expecteds}, {"expected_strings", expectedStrings}, {"optional_strings", optionalStrings}, {"pointers", pointers}, {"forwarding", forwarding}, {"equality", equalityCases}, {"own_parts", ownParts}, {"chains", chains}, {"pointer_from_own_object", ownLink})
