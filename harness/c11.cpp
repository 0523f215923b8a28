// C11: strings and string views behave as byte strings.
#include "cu.h"
#include "lexcheck.h"

namespace
{
    std::string const bytes = std::string("ab") + '\0' + '\xff';

    void check(coil::String& s, std::string const& want, char const* which)
    {
        coil::String const& c = s;
        MC_CHECK(s.length() == want.size() && s.slength() == int(want.size()) && s.empty() == want.empty(), "%s has length %zu instead of %zu", which, s.length(), want.size());
        MC_CHECK(c.cStr() && c.cStr()[want.size()] == '\0', "%s is not null-terminated", which);
        MC_CHECK(memcmp(c.cStr(), want.data(), want.size()) == 0, "%s is %s instead of %s", which, mc::show(cu::str(s)).c_str(), mc::show(want).c_str());
        MC_CHECK(s.data() == c.cStr() && c.data() == c.cStr() && c.begin() == c.cStr() && c.end() == c.cStr() + want.size(), "%s: data, begin or end is wrong", which);
        if (!want.empty())
            MC_CHECK(s.back() == want.back() && c.back() == want.back() && &s.back() == s.data() + want.size() - 1, "%s: back is wrong", which);
        coil::StringView v = s;
        MC_CHECK(v.data() == c.cStr() && v.length() == want.size(), "the view of %s is wrong", which);
    }

    void checkView(coil::StringView v, std::string const& want, char const* which)
    {
        MC_CHECK(v.length() == want.size() && v.slength() == int(want.size()) && v.empty() == want.empty(), "%s has length %zu instead of %zu", which, v.length(), want.size());
        MC_CHECK(v.data() && v.begin() == v.data() && v.end() == v.data() + want.size(), "%s: data, begin or end is wrong", which);
        for (size_t i = 0; i < want.size(); i++)
            MC_CHECK(v[i] == want[i] && &v[i] == v.data() + i, "%s: character %zu is wrong", which, i);
    }

    bool plain(std::string const& s) { return s.find('\0') == std::string::npos; }

    size_t hashOf(coil::String const& s) { return coil::Hash<coil::String>{}(s); }
    size_t hashOf(coil::StringView s) { return coil::Hash<coil::StringView>{}(s); }

    // C string in a block of exactly its size
    struct CStr
    {
        explicit CStr(std::string const& s) : p(new char[s.size() + 1]) { memcpy(p.get(), s.c_str(), s.size() + 1); }
        operator char const*() const { return p.get(); }
        std::unique_ptr<char[]> p;
    };

    void compareAll(std::string const& a, std::string const& b)
    {
        cu::Line la{a}, lb{b};
        coil::StringView va = la, vb = lb;
        coil::String sa{va}, sb{lb.data.get(), b.size()};
        bool eq = a == b;
        MC_CHECK((sa == sb) == eq && (sa == vb) == eq && (va == vb) == eq && (va != vb) == !eq, "equality of %s and %s is wrong", mc::show(a).c_str(), mc::show(b).c_str());
        if (plain(b))
        {
            CStr c{b};
            char const* p = c;
            MC_CHECK((sa == p) == eq && (va == p) == eq && (va != p) == !eq, "equality of %s and the C string %s is wrong", mc::show(a).c_str(), mc::show(b).c_str());
            coil::String s{p};
            check(s, b, "the string made from a C string");
            checkView(coil::StringView{p}, b, "the view made from a C string");
        }
        if (eq)
            MC_CHECK(hashOf(sa) == hashOf(sb) && hashOf(va) == hashOf(vb) && hashOf(sa) == hashOf(va), "the hashes of %s are different", mc::show(a).c_str());
        check(sa, a, "the string made from a view");
        check(sb, b, "the string made from a range");
        checkView(va, a, "the view");
        mc::validated();
    }

    void appendAll(std::string const& a, std::string const& b, size_t reserve)
    {
        std::string want = a + b;
        cu::Line la{a}, lb{b};
        coil::StringView va = la, vb = lb;
        coil::String const sb{vb};
        for (int way = 0; way < 10; way++)
        {
            coil::String s{va};
            if (reserve)
                s.reserve(reserve);
            switch (way)
            {
            case 0: s += vb; break;
            case 1: s += sb; break;
            case 2: s.append(lb.data.get(), b.size()); break;
            case 3:
                for (char c : b)
                    s += c;
                break;
            case 4:
                if (!plain(b))
                    continue;
                {
                    CStr c{b};
                    s += static_cast<char const*>(c);
                }
                break;
            case 5: s = s + vb; break;
            case 6: s = s + sb; break;
            case 7:
                if (!plain(b))
                    continue;
                {
                    CStr c{b};
                    s = s + static_cast<char const*>(c);
                }
                break;
            case 8:
                s.resize(want.size());
                memcpy(s.data() + a.size(), b.data(), b.size());
                break;
            case 9:
                if (b.size() != 1)
                    continue;
                s = s + b[0];
                break;
            }
            check(s, want, "the string with a text appended");
            checkView(va, a, "the source of the string");
            if (way == 1 || way == 6)
                MC_CHECK(cu::str(sb) == b, "the appended string was changed");
            mc::validated();
        }
    }
}

// every pair of contents
static void pairs()
{
    int n = mc::thorough() ? (mc::asan() ? 4 : 5) : (mc::asan() ? 3 : 4);
    std::string a = chooseString(bytes, n), b = chooseString(bytes, n);
    MC_OP("%s and %s", mc::show(a).c_str(), mc::show(b).c_str());
    compareAll(a, b);
    appendAll(a, b, 0);
    appendAll(a, b, 3);
    mc::state(mc::hashStr(a, mc::hashStr(b)));
    mc::outcome(mc::hashStr(a, mc::hashStr(b)));
}

// every byte value next to every other
static void everyByte()
{
    int i = mc::choose(256), j = mc::choose(256);
    std::string a(1, char(i)), b(1, char(j));
    std::string p = "key ", q = " end";
    MC_OP("bytes %d and %d", i, j);
    compareAll(a, b);
    compareAll(p + a + q, p + b + q);
    compareAll(a + b, b + a);
    appendAll(a, b, 0);
    mc::state(uint64_t(i * 256 + j));
    mc::outcome(uint64_t(i * 256 + j));
}

// every range of every string; views of views
static void ranges()
{
    std::string a = chooseString(bytes, mc::asan() ? 5 : 7);
    cu::Line l{a};
    coil::StringView v = l;
    for (size_t o = 0; o <= a.size(); o++)
        for (size_t n = 0; o + n <= a.size(); n++)
        {
            coil::StringView s = v.substr(o, n);
            std::string want = a.substr(o, n);
            checkView(s, want, "the range");
            MC_CHECK(s.data() == v.data() + o, "a range is not part of the view");
            MC_CHECK((s == v) == (want == a) && hashOf(s) == hashOf(coil::String{s}), "equality or hash of a range is wrong");
            for (size_t k = 0; k <= n; k++)
                checkView(s.substr(k, n - k), want.substr(k), "a range of a range");
            mc::validated();
        }
    MC_OP("ranges of %s", mc::show(a).c_str());
    mc::state(mc::hashStr(a));
    mc::outcome(mc::hashStr(a));
}

namespace
{
    struct One
    {
        coil::String s;
        std::string want;
    };

    // one operation on a string; false: not applicable
    void operate(One& x, One& y, int op, int i)
    {
        static std::string const texts[] = {"", "xy", std::string("p\0q", 3), "a text of more than sixteen characters"};
        switch (op)
        {
        case 0: case 1: case 2: case 3:
        {
            cu::Line l{texts[op]};
            x.s += coil::StringView(l);
            x.want += texts[op];
            MC_OP("+= %s", mc::show(texts[op]).c_str());
            break;
        }
        case 4: x.s += char('0' + i); x.want += char('0' + i); MC_OP("+= '%d'", i); break;
        case 5: x.s += ""; x.s += "cd"; x.want += "cd"; MC_OP("+= \"cd\""); break;
        case 6: { coil::String const& alias = x.s; x.s += alias; x.want += std::string(x.want); MC_OP("+= itself"); break; }
        case 7:
        {
            size_t n = x.want.size(), o = n / 3, k = n / 2;
            x.s += coil::StringView(x.s).substr(o, k);
            x.want += std::string(x.want.substr(o, k));
            MC_OP("+= part of itself");
            break;
        }
        case 8: x.s.reserve(x.want.size() + 1); MC_OP("reserve one more"); break;
        case 9: x.s.reserve(x.want.size() / 2); MC_OP("reserve less"); break;
        case 10: x.s.resize(x.want.size() / 2); x.want.resize(x.want.size() / 2); MC_OP("resize to half"); break;
        case 11:
        {
            size_t n = x.want.size();
            x.s.resize(n + 3);
            for (size_t k = n; k < n + 3; k++)
                x.s.data()[k] = 'r';
            x.want.resize(n + 3, 'r');
            MC_OP("resize to 3 more");
            break;
        }
        case 12: x.s = y.s; x.want = y.want; MC_OP("= other"); break;
        case 13: { coil::String m{std::move(x.s)}; MC_CHECK(cu::str(m) == x.want, "the moved string is different"); x.s = std::move(m); MC_OP("moved out and in"); break; }
        case 14: { coil::String& alias = x.s; x.s = alias; MC_OP("= itself"); break; }
        case 15: if (!x.want.empty()) { x.s.back() = 'Z'; x.want.back() = 'Z'; x.s.data()[0] = 'A'; x.want[0] = 'A'; } MC_OP("first = A, last = Z"); break;
        case 16: { coil::String c{x.s}; c += "q"; if (!x.want.empty()) c.data()[0] = '#'; MC_OP("a copy is changed"); break; }
        case 17: x.s = y.s + x.s + 'k'; x.want = y.want + x.want + "k"; MC_OP("= other + itself + k"); break;
        case 18: { coil::String m{std::move(x.s)}; x.s = coil::String{"new"}; x.want = "new"; MC_OP("moved out, then = new"); break; }
        }
    }
    constexpr int ops = 19;

    void checkBoth(One (&x)[2], char const* const (&names)[2])
    {
        check(x[0].s, x[0].want, names[0]);
        check(x[1].s, x[1].want, names[1]);
        bool eq = x[0].want == x[1].want;
        MC_CHECK((x[0].s == x[1].s) == eq && (!eq || hashOf(x[0].s) == hashOf(x[1].s)), "comparison is wrong");
        mc::state(mc::hashStr(x[0].want, mc::hashStr(x[1].want)));
    }
    int depthOf(int asanQuick, int relQuick, int asanThorough, int relThorough) { return mc::thorough() ? (mc::asan() ? asanThorough : relThorough) : (mc::asan() ? asanQuick : relQuick); }
}

static void single()
{
    One x[2];
    x[1].s = coil::String{"other"};
    x[1].want = "other";
    int depth = depthOf(5, 6, 6, 7);
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(ops + 1);
        if (op == ops)
            break;
        operate(x[0], x[1], op, i);
        checkBoth(x, {"the string", "the other string"});
    }
    mc::outcome(mc::hashStr(x[0].want));
}

static void both()
{
    One x[2];
    int depth = depthOf(4, 5, 5, 6);
    static int const menu[] = {1, 2, 4, 6, 7, 10, 11, 12, 14, 15, 17, 18, 13};
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(26);
        int k = op & 1;
        MC_LOG("on string %d:", k);
        operate(x[k], x[1 - k], menu[op / 2], i);
        checkBoth(x, {"s0", "s1"});
    }
    // move between the two
    if (mc::flip())
    {
        x[0].s = std::move(x[1].s);
        x[1].s = coil::String{};
        x[0].want = x[1].want;
        x[1].want.clear();
        MC_OP("s0 = move(s1), s1 = empty");
        checkBoth(x, {"s0", "s1"});
    }
    mc::outcome(mc::hashStr(x[0].want, mc::hashStr(x[1].want)));
}

// every pair of lengths: append, reserve and compare
static void sizes()
{
    size_t n = chooseLength(mc::thorough() ? 150 : 80, mc::asan() ? 1050 : 5000), m = chooseLength(mc::thorough() ? 150 : 80, mc::asan() ? 1050 : 5000);
    std::string a = text(n), b = spaced(m);
    MC_OP("lengths %zu and %zu", n, m);
    appendAll(a, b, 0);
    if (n < 300)
        appendAll(a, b, m);
    // equality at every position of a difference
    if (n == m && n)
        for (size_t k = 0; k < n; k += n > 300 ? 61 : 1)
        {
            std::string c = a;
            c[k] = char(c[k] + 1);
            compareAll(a, c);
        }
    compareAll(a, b);
    compareAll(a, a);
    // resize from any length to any other
    coil::String s{cu::view(a)};
    s.resize(m);
    std::string want = a;
    want.resize(m, 'w');
    for (size_t k = n; k < m; k++)
        s.data()[k] = 'w';
    check(s, want, "the resized string");
    coil::String t{cu::view(a)};
    t.reserve(m);
    check(t, a, "the string with space reserved");
    t = coil::String{cu::view(b)};
    check(t, b, "the assigned string");
    t = s;
    check(t, want, "the assigned string");
    mc::state(n * 100000 + m);
    mc::outcome(n * 100000 + m);
}

// every part of a string appended to itself, with and without spare space
static void selfAppend()
{
    static size_t const large[] = {127, 128, 129, 255, 256, 257, 300, 513, 1000, 4099, 70001};
    int dense = mc::thorough() ? 60 : 36;
    size_t n = size_t(mc::choose(dense + 11)), o, k;
    if (n < size_t(dense))
    {
        o = size_t(mc::choose(int(n) + 1));
        k = size_t(mc::choose(int(n - o) + 1));
    }
    else // every pair of interesting bounds
    {
        n = large[n - size_t(dense)];
        size_t const bounds[] = {0, 1, 126, n / 2, n - 1, n, 127, 128, 254, 255, 256, 257, 299, 511, 512, 65535, 65536};
        size_t x = bounds[mc::choose(17)];
        size_t y = bounds[mc::choose(17)];
        if (x > y || y > n)
            return;
        o = x;
        k = y - x;
    }
    int extra = mc::choose(4);
    std::string want = text(n);
    coil::String s{cu::view(want)};
    if (extra)
        s.reserve(n + (extra == 1 ? k : extra == 2 ? k - (k > 0) : 2 * n + 5));
    MC_OP("%zu characters at %zu of %zu appended, extra %d", k, o, n, extra);
    if (mc::flip())
        s += coil::StringView(s).substr(o, k);
    else
        s.append(s.data() + o, k);
    want += std::string(want.substr(o, k));
    check(s, want, "the string");
    if (o == 0 && k == n)
    {
        s += s;
        want += std::string(want);
        check(s, want, "the doubled string");
        s += s.cStr();
        want += std::string(want);
        check(s, want, "the string with its own C string appended");
    }
    mc::state(mc::hashStr(want));
    mc::outcome(mc::hashStr(want));
}

// one string that only grows, character by character
static void growing()
{
    int step = 1 + mc::choose(9);
    size_t top = mc::asan() ? 2000 : 9000;
    coil::String s;
    std::string want;
    for (size_t i = 0; want.size() < top; i++)
    {
        std::string part = text(size_t(step) + i % 3);
        if (step == 1)
            s += part[0], part.resize(1);
        else
            s.append(part.data(), part.size());
        want += part;
        MC_CHECK(s.length() == want.size() && s.cStr()[want.size()] == 0 && s.back() == want.back(), "length or end is wrong at length %zu", want.size());
        mc::transition();
        if (i % 64 == 0)
        {
            check(s, want, "the string");
            mc::validated();
        }
    }
    check(s, want, "the string");
    while (!want.empty())
    {
        want.resize(want.size() / 2);
        s.resize(want.size());
        check(s, want, "the shrunk string");
    }
    mc::state(uint64_t(step));
    mc::outcome(uint64_t(step));
}

// long texts that differ in one place
static void longTexts()
{
    size_t n = 1 + chooseLength(mc::asan() ? 20 : 70);
    size_t const places[] = {0, n - 1, n / 2, 1, 7, 15, 16, 31, 63, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536};
    size_t at = places[mc::choose(22)];
    if (at >= n)
        return;
    int what = mc::choose(4);
    std::string a = text(n), b = a;
    if (what == 0)
        b[at] = b[at] == 'x' ? 'y' : 'x';
    else if (what == 1)
        b[at] = char(b[at] ^ 0x80);
    else if (what == 2)
        b[at] = '\0';
    else
        b.erase(at, 1);
    MC_OP("texts of %zu characters, difference %d at %zu", n, what, at);
    compareAll(a, b);
    compareAll(b, a);
    coil::String s{cu::view(a)};
    coil::StringView v = s;
    checkView(v.substr(at, n - at), a.substr(at), "the rest of the text");
    checkView(v.substr(0, at), a.substr(0, at), "the start of the text");
    coil::String t{cu::view(b)}, copy{t};
    s = copy;
    check(s, b, "the assigned string");
    check(copy, b, "the copied string");
    coil::String moved{std::move(t)};
    check(moved, b, "the moved string");
    mc::state(mc::mix(n * 32 + at, uint64_t(what)));
    mc::outcome(mc::mix(n * 32 + at, uint64_t(what)));
}

MC_MAIN({"pairs", pairs}, {"long_texts", longTexts}, {"every_byte", everyByte}, {"ranges", ranges}, {"one_string", single}, {"two_strings", both}, {"sizes", sizes}, {"self_append", selfAppend}, {"growing", growing})
