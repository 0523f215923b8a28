// C10: the vector agrees with a plain sequence and owns each element exactly once.
#include "cu.h"
#include "lexcheck.h"
#include "tracked.h"

#include <limits>

namespace
{
    struct Owner // move-only element with its own allocation
    {
        std::unique_ptr<int> p;
        Owner(int v = 0) : p(new int(v)) {}
        int get() const { return p ? *p : -1; }
        bool operator!=(Owner const& r) const { return get() != r.get(); }
    };

    template<typename T> T make(int v);
    template<> Tracked make<Tracked>(int v) { return Tracked{v}; }
    template<> int make<int>(int v) { return v; }
    template<> coil::String make<coil::String>(int v) { return coil::sprintf("text number %d, long enough to be on the heap", v); }
    template<> char make<char>(int v) { return static_cast<char>(v); }
    struct Nested
    {
        coil::Vector<int> v;
        bool operator==(Nested const& r) const { return v == r.v; }
        bool operator!=(Nested const& r) const { return !(v == r.v); }
    };
    template<> Nested make<Nested>(int v)
    {
        Nested r;
        for (int i = 0; i <= v % 5; i++)
            r.v.pushBack(v);
        return r;
    }
    int id(Tracked const& t) { return t.get(); }
    int id(int v) { return v; }
    int id(char v) { return v; }
    int id(coil::String const& s)
    {
        int v = 0;
        if (!s.empty())
            sscanf(s.cStr(), "text number %d", &v);
        return v;
    }
    int id(Nested const& n) { auto& v = n.v; return v.empty() ? 0 : v.size() == size_t(v[0] % 5 + 1) ? v[0] : -7; }

    // reference: what was done to the vector
    struct Seq
    {
        std::vector<int> items;
        size_t reserved = 0;
    };

    uint64_t hash(Seq const& s)
    {
        uint64_t h = s.reserved;
        for (int v : s.items)
            h = mc::mix(h, uint64_t(v + 10));
        return h;
    }

    template<typename T>
    void check(coil::Vector<T>& v, Seq const& s, char const* which)
    {
        coil::Vector<T> const& c = v;
        size_t n = s.items.size();
        MC_CHECK(v.size() == n, "%s has size %zu instead of %zu", which, v.size(), n);
        MC_CHECK(v.empty() == (n == 0), "%s: empty() is wrong", which);
        MC_CHECK(v.capacity() >= n && v.capacity() >= s.reserved, "%s: capacity %zu, size %zu, reserved %zu", which, v.capacity(), n, s.reserved);
        for (size_t i = 0; i < n; i++)
            MC_CHECK(id(v[i]) == s.items[i] && id(c[i]) == s.items[i], "%s[%zu] is %d instead of %d", which, i, id(v[i]), s.items[i]);
        size_t i = 0;
        for (T& e : v)
        {
            MC_CHECK(i < n && id(e) == s.items[i], "%s: iteration gives another element at %zu", which, i);
            i++;
        }
        MC_CHECK(i == n && size_t(c.end() - c.begin()) == n, "%s: iteration visits %zu elements", which, i);
        if (n)
        {
            MC_CHECK(id(v.front()) == s.items[0] && id(c.front()) == s.items[0], "%s: front is wrong", which);
            MC_CHECK(id(v.back()) == s.items[n - 1] && id(c.back()) == s.items[n - 1], "%s: back is wrong", which);
            MC_CHECK(v.data() == &v[0] && c.data() == &c[0] && v.begin() == v.data(), "%s: data does not point to the first element", which);
        }
    }

    template<typename T>
    void aliveCheck(size_t expected)
    {
        if constexpr (std::is_same_v<T, Tracked>)
            MC_CHECK(Tracked::alive == long(expected), "%ld elements are alive, the vectors hold %zu", Tracked::alive, expected);
        else
            (void)expected;
    }

    // every history on one vector
    template<typename T>
    void single(int depth)
    {
        {
            coil::Vector<T> v;
            Seq s;
            for (int i = 0; i < depth; i++)
            {
                int op = mc::choose(16);
                if (op == 0)
                    break;
                switch (op)
                {
                case 1:
                    MC_OP("pushBack(%d)", i);
                    v.pushBack(make<T>(i + 1));
                    s.items.push_back(i + 1);
                    break;
                case 2:
                    if (s.items.empty())
                        break;
                    MC_OP("pushBack(front())");
                    v.pushBack(v.front());
                    s.items.push_back(s.items.front());
                    break;
                case 3:
                    if (s.items.empty())
                        break;
                    MC_OP("popBack()");
                    v.popBack();
                    s.items.pop_back();
                    break;
                case 4:
                case 5:
                case 6:
                {
                    static size_t const sizes[] = {0, 1, 4};
                    size_t n = sizes[op - 4];
                    MC_OP("resize(%zu)", n);
                    v.resize(n);
                    size_t old = s.items.size();
                    s.items.resize(n);
                    for (size_t k = old; k < n; k++)
                    {
                        MC_CHECK(id(v[k]) == 0, "a new element has the value %d", id(v[k]));
                        v[k] = make<T>(50 + i);
                        s.items[k] = 50 + i;
                    }
                    break;
                }
                case 7:
                case 8:
                case 9:
                {
                    static size_t const sizes[] = {0, 2, 5};
                    size_t n = sizes[op - 7];
                    MC_OP("reserve(%zu)", n);
                    v.reserve(n);
                    s.reserved = std::max(s.reserved, n);
                    break;
                }
                case 10:
                    MC_OP("clear()");
                    v.clear();
                    s.items.clear();
                    break;
                case 11:
                    if (s.items.empty())
                        break;
                    MC_OP("last element = %d", 70 + i);
                    v[v.size() - 1] = make<T>(70 + i);
                    s.items.back() = 70 + i;
                    break;
                case 12:
                {
                    MC_OP("copy constructed and assigned back");
                    coil::Vector<T> c{v};
                    check(c, Seq{s.items, 0}, "the copy");
                    MC_CHECK(c == v, "a copy is not equal to the original");
                    c.pushBack(make<T>(9));
                    MC_CHECK(!(c == v), "vectors of different size are equal");
                    c.popBack();
                    if (c.size())
                    {
                        c[0] = make<T>(99);
                        MC_CHECK(!(c == v), "vectors with different first elements are equal");
                        c[0] = make<T>(s.items[0]);
                    }
                    v = c;
                    s.reserved = 0;
                    break;
                }
                case 13:
                {
                    MC_OP("move constructed and move assigned back");
                    coil::Vector<T> m{std::move(v)};
                    check(m, s, "the moved vector");
                    v = std::move(m);
                    break;
                }
                case 14:
                {
                    MC_OP("assigned to itself");
                    coil::Vector<T>& alias = v;
                    v = alias;
                    s.reserved = 0;
                    break;
                }
                case 15:
                {
                    MC_OP("moved from, then used again");
                    coil::Vector<T> m{std::move(v)};
                    v.clear();
                    MC_CHECK(v.size() == 0, "a cleared vector is not empty");
                    v.pushBack(make<T>(33));
                    s.items = {33};
                    s.reserved = 0;
                    break;
                }
                }
                check(v, s, "the vector");
                aliveCheck<T>(s.items.size());
                mc::state(hash(s));
            }
            mc::outcome(hash(s));
        }
        aliveCheck<T>(0);
    }

    // every history on two vectors
    template<typename T>
    void pairs(int depth)
    {
        {
            coil::Vector<T> v[2];
            Seq s[2];
            for (int i = 0; i < depth; i++)
            {
                int op = mc::choose(18);
                if (op == 17)
                    break;
                int k = op & 1;
                auto &a = v[k], &b = v[1 - k];
                auto &sa = s[k], &sb = s[1 - k];
                switch (op / 2)
                {
                case 0:
                    MC_OP("v%d.pushBack(%d)", k, i + 1);
                    a.pushBack(make<T>(i + 1));
                    sa.items.push_back(i + 1);
                    break;
                case 1:
                    MC_OP("v%d.resize(3)", k);
                    {
                        size_t old = sa.items.size();
                        a.resize(3);
                        sa.items.resize(3);
                        for (size_t j = old; j < 3; j++)
                        {
                            MC_CHECK(id(a[j]) == 0, "a new element has the value %d", id(a[j]));
                            a[j] = make<T>(60), sa.items[j] = 60;
                        }
                    }
                    break;
                case 2:
                    MC_OP("v%d.clear()", k);
                    a.clear();
                    sa.items.clear();
                    break;
                case 3:
                    MC_OP("v%d = v%d", k, 1 - k);
                    a = b;
                    sa = Seq{sb.items, 0};
                    break;
                case 4:
                    MC_OP("v%d = move(v%d); v%d.clear()", k, 1 - k, 1 - k);
                    a = std::move(b);
                    b.clear();
                    sa = sb;
                    sb = Seq{};
                    break;
                case 5:
                    if (!sa.items.empty())
                    {
                        MC_OP("v%d[0] = %d", k, 80 + i);
                        a[0] = make<T>(80 + i);
                        sa.items[0] = 80 + i;
                    }
                    break;
                case 6:
                    if (!sa.items.empty())
                    {
                        MC_OP("v%d.popBack()", k);
                        a.popBack();
                        sa.items.pop_back();
                    }
                    break;
                case 7:
                    MC_OP("v%d = Vector(v%d.begin(), v%d.end()); v%d.reserve(6)", k, 1 - k, 1 - k, k);
                    a = coil::Vector<T>(static_cast<coil::Vector<T> const&>(b).begin(), static_cast<coil::Vector<T> const&>(b).end());
                    a.reserve(6);
                    sa = Seq{sb.items, 6};
                    break;
                }
                check(v[0], s[0], "v0");
                check(v[1], s[1], "v1");
                MC_CHECK((v[0] == v[1]) == (s[0].items == s[1].items), "equality is wrong");
                aliveCheck<T>(s[0].items.size() + s[1].items.size());
                mc::state(mc::mix(hash(s[0]), hash(s[1])));
            }
            mc::outcome(mc::mix(hash(s[0]), hash(s[1])));
        }
        aliveCheck<T>(0);
    }

    int depthOf(int asanQuick, int relQuick, int asanThorough, int relThorough) { return mc::thorough() ? (mc::asan() ? asanThorough : relThorough) : (mc::asan() ? asanQuick : relQuick); }
}

static void singleTracked() { single<Tracked>(depthOf(5, 6, 6, 7)); }
static void singleString() { single<coil::String>(depthOf(4, 5, 5, 6)); }
static void singleInt() { single<int>(depthOf(5, 6, 6, 7)); }
static void singleNested() { single<Nested>(depthOf(4, 5, 5, 6)); }
static void pairsTracked() { pairs<Tracked>(depthOf(5, 6, 6, 7)); }
static void pairsString() { pairs<coil::String>(depthOf(4, 5, 5, 6)); }

// move-only elements
static void moveOnly()
{
    coil::Vector<Owner> v;
    Seq s;
    int depth = mc::thorough() ? 7 : 6;
    for (int i = 0; i < depth; i++)
    {
        switch (mc::choose(7))
        {
        case 0: v.pushBack(Owner{i + 1}); s.items.push_back(i + 1); MC_OP("pushBack"); break;
        case 1: if (s.items.size()) { v.popBack(); s.items.pop_back(); } MC_OP("popBack"); break;
        case 2: v.resize(3); s.items.resize(3); MC_OP("resize(3)"); break;
        case 3: v.reserve(v.capacity() + 1); s.reserved = v.capacity(); MC_OP("reserve"); break;
        case 4: v.clear(); s.items.clear(); MC_OP("clear"); break;
        case 5: { coil::Vector<Owner> m{std::move(v)}; v = std::move(m); MC_OP("move there and back"); break; }
        case 6: if (s.items.size()) { v[0] = Owner{40 + i}; s.items[0] = 40 + i; } MC_OP("write"); break;
        }
        MC_CHECK(v.size() == s.items.size() && v.capacity() >= s.reserved, "size %zu instead of %zu", v.size(), s.items.size());
        for (size_t k = 0; k < s.items.size(); k++)
            MC_CHECK(v[k].get() == s.items[k], "element %zu is %d instead of %d", k, v[k].get(), s.items[k]);
        mc::state(hash(s));
    }
    mc::outcome(hash(s));
}

// every size
template<typename T>
static void grow()
{
    size_t n = chooseLength(mc::thorough() ? 600 : 270, mc::asan() ? 2100 : 70000);
    int way = mc::choose(7);
    coil::Vector<T> v{size_t(way == 1 ? 3 : way == 2 ? n : 0)};
    Seq s;
    MC_OP("%zu elements, way %d", n, way);
    if (way == 3)
    {
        v.reserve(n);
        s.reserved = n;
    }
    if (way == 4)
    {
        v.resize(n);
        for (size_t i = 0; i < n; i++)
        {
            MC_CHECK(id(v[i]) == 0, "a new element has the value %d", id(v[i]));
            v[i] = make<T>(int(i % 97)), s.items.push_back(int(i % 97));
        }
        v.resize(n + 1);
        v[n] = make<T>(1);
        s.items.push_back(1);
    }
    else
        for (size_t i = 0; i < n; i++)
        {
            v.pushBack(make<T>(int(i % 97)));
            s.items.push_back(int(i % 97));
            if (way == 5 && i % 3 == 2)
                v.popBack(), s.items.pop_back();
        }
    if (way == 2 || way == 3) // one more than there was room for
    {
        v.pushBack(make<T>(96));
        s.items.push_back(96);
    }
    check(v, s, "the vector");
    coil::Vector<T> c{v};
    check(c, Seq{s.items, 0}, "the copy");
    MC_CHECK(c == v, "a copy is not equal to the original");
    for (size_t k : {size_t(0), n / 2, n - 1})
        if (k < s.items.size())
        {
            c[k] = make<T>(98);
            MC_CHECK(!(c == v), "vectors that differ at %zu are equal", k);
            c[k] = make<T>(s.items[k]);
            MC_CHECK(c == v, "equal vectors are different");
        }
    if (way == 6)
    {
        v.resize(n / 2);
        s.items.resize(n / 2);
        check(v, s, "the vector");
        MC_CHECK(n < 2 || !(c == v), "vectors of different size are equal");
        v = c;
        s.items.clear();
        for (size_t i = 0; i < c.size(); i++)
            s.items.push_back(id(c[i]));
    }
    else
        while (s.items.size() > n / 3)
            v.popBack(), s.items.pop_back();
    s.reserved = 0;
    check(v, s, "the vector");
    coil::Vector<T> d;
    d.pushBack(make<T>(5));
    d = v;
    check(d, s, "the assigned vector");
    aliveCheck<T>(c.size() + v.size() + d.size());
    mc::outcome(hash(s));
    mc::state(mc::mix(hash(s), uint64_t(way)));
}
static void growTracked() { grow<Tracked>(); }
static void growString() { grow<coil::String>(); }
static void growChar() { grow<char>(); }

// two vectors are equal exactly when their elements are, whatever the element type means by that
namespace
{
    struct Padded // equality looks at one field only
    {
        char kind;
        int note;
        bool operator==(Padded const& r) const { return kind == r.kind; }
        bool operator!=(Padded const& r) const { return kind != r.kind; }
    };
    struct Folded // any two letters of one case fold are the same
    {
        char c;
        bool operator==(Folded const& r) const { return (c | 32) == (r.c | 32); }
        bool operator!=(Folded const& r) const { return (c | 32) != (r.c | 32); }
    };
    struct Doubles
    {
        coil::Vector<double> v;
        bool operator==(Doubles const& r) const { return v == r.v; }
        bool operator!=(Doubles const& r) const { return !(v == r.v); }
    };
    enum class Mode : unsigned char { A, B };

    template<typename T>
    std::vector<T> elements()
    {
        if constexpr (std::is_floating_point_v<T>)
            return {T(0.0), T(-0.0), T(1.5), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::denorm_min()};
        else if constexpr (std::is_same_v<T, Padded>)
            return {{'a', 1}, {'a', 2}, {'b', 1}, {'\0', 0}};
        else if constexpr (std::is_same_v<T, Folded>)
            return {{'a'}, {'A'}, {'b'}, {'\0'}};
        else if constexpr (std::is_same_v<T, coil::StringView>)
        {
            static char const one[] = "same", two[] = "same\0", three[] = "a\0b", four[] = "a\0c";
            return {coil::StringView{one, 4}, coil::StringView{two, 4}, coil::StringView{one, 3}, coil::StringView{three, 3}, coil::StringView{four, 3}, coil::StringView{}, coil::StringView{one, size_t(0)}};
        }
        else if constexpr (std::is_same_v<T, coil::String>)
            return {coil::String{"a"}, coil::String{coil::StringView{"a\0b", 3}}, coil::String{coil::StringView{"a\0c", 3}}, coil::String{}, coil::String{"b"}};
        else if constexpr (std::is_same_v<T, char const*>)
        {
            static char const one[] = "same", two[] = "same";
            return {one, two, nullptr, one + 1};
        }
        else if constexpr (std::is_same_v<T, Doubles>)
        {
            std::vector<T> r(5);
            r[1].v.pushBack(0.0);
            r[2].v.pushBack(-0.0);
            r[3].v.pushBack(1.0);
            r[4].v.pushBack(0.0);
            r[4].v.pushBack(1.0);
            return r;
        }
        else if constexpr (std::is_same_v<T, bool>)
            return {false, true};
        else if constexpr (std::is_same_v<T, Mode>)
            return {Mode::A, Mode::B, Mode(255)};
        else
            return {T(0), T(1), T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min()};
    }

    template<typename T>
    bool alike(T const& a, T const& b)
    {
        if constexpr (std::is_same_v<T, Doubles>)
        {
            if (a.v.size() != b.v.size())
                return false;
            for (size_t i = 0; i < a.v.size(); i++)
                if (!(a.v[i] == b.v[i]))
                    return false;
            return true;
        }
        else if constexpr (std::is_same_v<T, coil::StringView> || std::is_same_v<T, coil::String>)
            return cu::str(a) == cu::str(b);
        else
            return a == b;
    }

    template<typename T>
    void equality()
    {
        auto const menu = elements<T>();
        int most = mc::thorough() ? 4 : 3;
        std::vector<size_t> picks[2];
        coil::Vector<T> v[2];
        for (int k = 0; k < 2; k++)
        {
            int n = mc::choose(most + 1);
            for (int i = 0; i < n; i++)
            {
                picks[k].push_back(size_t(mc::choose(int(menu.size()))));
                v[k].pushBack(menu[picks[k].back()]);
            }
            if (n < 3)
                v[k].reserve(size_t(8 * k)); // spare room must not matter
        }
        bool want = picks[0].size() == picks[1].size();
        for (size_t i = 0; want && i < picks[0].size(); i++)
            want = alike(menu[picks[0][i]], menu[picks[1][i]]);
        coil::Vector<T> const &a = v[0], &b = v[1];
        MC_CHECK((a == b) == want, "two vectors of %zu and %zu elements are %s", a.size(), b.size(), want ? "said to differ, although their elements are equal" : "said to be equal, although they differ");
        MC_CHECK((b == a) == want, "equality depends on the order");
        mc::outcome(want);
        mc::state(mc::mix(picks[0].size(), picks[1].size()) * 2 + want);
    }
}
static void equalityCases()
{
    switch (mc::choose(15))
    {
    case 0: equality<float>(); break;
    case 1: equality<double>(); break;
    case 2: equality<long double>(); break;
    case 3: equality<Padded>(); break;
    case 4: equality<Folded>(); break;
    case 5: equality<coil::StringView>(); break;
    case 6: equality<coil::String>(); break;
    case 7: equality<char const*>(); break;
    case 8: equality<Doubles>(); break;
    case 9: equality<bool>(); break;
    case 10: equality<Mode>(); break;
    case 11: equality<int>(); break;
    case 12: equality<unsigned char>(); break;
    case 13: equality<short>(); break;
    default: equality<unsigned long long>(); break;
    }
}

MC_MAIN({"one_tracked", singleTracked}, {"one_string", singleString}, {"one_int", singleInt}, {"one_nested", singleNested}, {"two_tracked", pairsTracked}, {"two_string", pairsString},
        {"move_only", moveOnly}, {"sizes_tracked", growTracked}, {"sizes_string", growString}, {"sizes_char", growChar}, {"equality", equalityCases})
