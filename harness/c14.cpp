// C14: floating-point text converts to the correctly rounded value and back as printed.
#include "cu.h"
#include "lexcheck.h"
#include "refconv.h"

#include <cerrno>
#include <cfloat>

namespace
{
    template<typename T>
    bool identical(T a, T b)
    {
        if (a != a)
            return b != b && std::signbit(a) == std::signbit(b);
        return a == b && std::signbit(a) == std::signbit(b);
    }

    template<typename T>
    void checkSubvalues(ref::Subvalues const& subs)
    {
        std::vector<std::unique_ptr<cu::Line>> lines;
        coil::Value v;
        for (auto& s : subs)
        {
            lines.push_back(std::make_unique<cu::Line>(s));
            v.subvalues.pushBack(coil::StringView(*lines.back()));
        }
        ref::Conv want = ref::Type<T>::conv(subs);
        auto got = coil::TypeSerializer<T>::fromString(v);
        if (want.ok)
            MC_CHECK(got.hasValue() && ref::Type<T>::canon(*got) == want.canon, "%s converts to %s %s, expected %s", cu::show(subs).c_str(), ref::Type<T>::name().c_str(), got ? ref::Type<T>::canon(*got).c_str() : got.error().cStr(), want.canon.c_str());
        else
            MC_CHECK(!got.hasValue() && cu::message(got.error()) == want.error, "%s converts to %s %s, expected the error %s", cu::show(subs).c_str(), ref::Type<T>::name().c_str(), got ? ref::Type<T>::canon(*got).c_str() : got.error().cStr(), want.error.c_str());
        auto again = v.get<T>();
        MC_CHECK(again.hasValue() == got.hasValue() && (!got || identical(*again, *got)), "get gives another result than fromString for %s", cu::show(subs).c_str());
        if (subs.size() == 1)
        {
            T value{};
            bool ok = coil::fromString(coil::StringView(*lines[0]), value);
            MC_CHECK(ok == want.ok && (!ok || ref::Type<T>::canon(value) == want.canon), "coil::fromString(%s) is wrong for %s", mc::show(subs[0]).c_str(), ref::Type<T>::name().c_str());
        }
        mc::validated();
        mc::outcome(mc::mix(mc::hashStr(ref::Type<T>::name()), want.ok ? mc::hashStr(want.canon) : mc::hashStr(want.error)));
    }

    void allTypes(ref::Subvalues const& subs)
    {
        checkSubvalues<float>(subs);
        checkSubvalues<double>(subs);
        checkSubvalues<long double>(subs);
    }

    template<typename T>
    void checkText(T v)
    {
        if (sizeof(T) > sizeof(double) && std::fabs(v) >= 1e-6 && std::fabs(v) < 1e-6L)
            return; // between one millionth as a double and as a long double: either rendering is right
        std::string want = ref::Type<T>::text(v);
        coil::String text = coil::TypeSerializer<T>::toString(v);
        MC_CHECK(cu::str(text) == want && cu::str(coil::toString(v)) == want, "%s %s is rendered as %s instead of %s", ref::Type<T>::name().c_str(), ref::Type<T>::canon(v).c_str(), text.cStr(), want.c_str());
        mc::validated();
    }

    // the exact text of a value converts to that value
    template<typename T>
    void checkExact(T v)
    {
        if (v != v || std::isinf(v))
            return;
        char b[80];
        snprintf(b, sizeof b, "%La", static_cast<long double>(v));
        auto got = coil::TypeSerializer<T>::fromString(coil::Value{coil::StringView(b)});
        MC_CHECK(got.hasValue() && identical(*got, v), "%s does not convert exactly to %s", b, ref::Type<T>::name().c_str());
        if (v != 0 && std::fabs(v) < std::numeric_limits<T>::min())
            return; // decimal texts of denormals may underflow
        snprintf(b, sizeof b, "%.*Lg", std::numeric_limits<T>::max_digits10, static_cast<long double>(v));
        got = coil::TypeSerializer<T>::fromString(coil::Value{coil::StringView(b)});
        MC_CHECK(got.hasValue() && identical(*got, v), "%s does not convert back to the %s it was printed from", b, ref::Type<T>::name().c_str());
        mc::validated();
    }

    float bits(uint32_t u)
    {
        float f;
        memcpy(&f, &u, 4);
        return f;
    }
    double bits64(uint64_t u)
    {
        double f;
        memcpy(&f, &u, 8);
        return f;
    }
}

static void texts()
{
    std::string alphabet = std::string("05.-+ exinf") + '\0';
    std::string s = chooseString(alphabet, mc::thorough() ? (mc::asan() ? 5 : 6) : (mc::asan() ? 4 : 5));
    MC_OP("%s", mc::show(s).c_str());
    allTypes({s});
    mc::state(mc::hashStr(s));
}

// sequences of larger pieces of number syntax
static void pieces()
{
    static std::string const items[] = {"0", "1", "3.5", ".", "e", "E+", "e-", "38", "39", "308", "309", "-", "+", " ", "0x", "p", "a.8", "inf", "infinity", "nan", "NAN", "(12)", "4932", "4933", "f", "\t", ",", "_", "1e", "p-", "149", "1074"};
    int n = mc::thorough() ? (mc::asan() ? 4 : 5) : (mc::asan() ? 3 : 4);
    std::string s;
    for (int i = 0; i < n; i++)
    {
        int c = mc::choose(33);
        if (c == 32)
            break;
        s += items[c];
    }
    MC_OP("%s", mc::show(s).c_str());
    allTypes({s});
    mc::state(mc::hashStr(s));
}

static void oddBytes()
{
    static std::string const bases[] = {"7", "1.5", "-5e3", " 3", "0x1p4", "inf", "nan", "+.25"};
    std::string s = bases[mc::choose(8)];
    size_t at = size_t(mc::choose(int(s.size()) + 1));
    char c = char(mc::choose(256));
    if (mc::flip())
        s.insert(at, 1, c);
    else if (at < s.size())
        s[at] = c;
    MC_OP("%s", mc::show(s).c_str());
    allTypes({s});
    mc::state(mc::hashStr(s));
}

// decimal exponents across the whole range and beyond, around the limits of each type
static void exponents()
{
    static std::string const mantissas[] = {"1", "9.999999", "4.9", "2.2250738585072014", "1.7976931348623157", "1.7976931348623159", "3.4028234664", "3.4028235678", "1.17549435", "0", "12345678901234567890", "0.000001"};
    int e = mc::choose(2 * 5100 + 1) - 5100;
    if (e < -420 && e > -4890 && e % 10)
        e = -420;
    if (e > 420 && e < 4890 && e % 10)
        e = 420;
    std::string s = mantissas[mc::choose(12)] + "e" + std::to_string(e);
    if (mc::flip())
        s = "-" + s;
    errno = mc::flip() ? ERANGE : 0;
    MC_OP("%s", s.c_str());
    allTypes({s});
    mc::state(mc::hashStr(s));
}

static void counts()
{
    static std::string const parts[] = {"1", "", "-", "1e999", "x y", "0.25"};
    int n = mc::choose(5);
    ref::Subvalues subs;
    for (int i = 0; i < n; i++)
        subs.push_back(parts[mc::choose(6)]);
    MC_OP("%s", cu::show(subs).c_str());
    allTypes(subs);
    uint64_t h = 3;
    for (auto& s : subs)
        h = mc::mix(h, mc::hashStr(s));
    mc::state(h);
}

static void lengths()
{
    size_t n = chooseLength(mc::thorough() ? 600 : 270, mc::asan() ? 5000 : 20000);
    int kind = mc::choose(9);
    std::string s;
    switch (kind)
    {
    case 0: s = rep("9", n); break;
    case 1: s = "0." + rep("0", n) + "5"; break;
    case 2: s = rep("0", n) + "4.25"; break;
    case 3: s = rep(" ", n) + "-7.5"; break;
    case 4: s = "0." + rep("3", n); break;
    case 5: s = "1" + text(n); break;
    case 6: s = rep("1", n) + "e-" + std::to_string(n); break;
    case 7: s = "5" + rep(" ", n); break;
    case 8: s = "1e" + rep("0", n) + "5"; break;
    }
    MC_OP("kind %d, %zu", kind, n);
    allTypes({s});
    mc::state(mc::hashStr(s));
}

// floats: every sign and exponent with every pattern of the upper and of the lower mantissa bits
static void floatValues()
{
    uint32_t top = uint32_t(mc::choose(512)) << 23;
    int window = mc::choose(mc::thorough() ? 8 : 3);
    MC_OP("floats with sign and exponent %x, window %d", top >> 23, window);
    for (uint32_t i = 0; i < 256; i++)
    {
        uint32_t m = window == 0 ? i : window == 1 ? i << 15 : window == 2 ? 0x7fffff - i : (i * 0x9e37u + uint32_t(window) * 0x1234567u) & 0x7fffff;
        float f = bits(top | m);
        checkText(f);
        checkExact(f);
    }
    mc::state(top | uint32_t(window));
    mc::outcome(top | uint32_t(window));
}

// doubles and long doubles: every exponent with some mantissas
static void doubleValues()
{
    uint64_t top = (uint64_t(mc::choose(64)) << 6 | uint64_t(mc::choose(64))) << 52;
    MC_OP("doubles with sign and exponent %llx", (unsigned long long)(top >> 52));
    for (uint64_t i = 0; i < 16; i++)
        for (uint64_t m : {uint64_t(i), uint64_t(i << 48), uint64_t((uint64_t(1) << 52) - 1 - i), uint64_t((i * 0x9e3779b97f4a7ull) & ((uint64_t(1) << 52) - 1))})
        {
            double d = bits64(top | m);
            checkText(d);
            checkExact(d);
            checkText(static_cast<long double>(d));
            checkExact(static_cast<long double>(d));
            if (std::isfinite(d))
            {
                long double w = std::ldexp(static_cast<long double>(d), int(i * 700) - 5600);
                checkText(w);
                checkText(std::nextafter(w, 0.0L));
                if (std::isfinite(w) && std::fabs(w) > LDBL_MIN)
                    checkExact(std::nextafter(w, 0.0L));
            }
        }
    mc::state(mc::mix(1, top));
    mc::outcome(mc::mix(1, top));
}

// neighbours of the limit below which values render as 0, and of the changes of %g's format
static void edges()
{
    static long double const around[] = {1e-6L, 1e-5L, 9.999995e-5L, 1e-4L, 0.1L, 1.0L, 999999.5L, 1000000.0L, 999999.0L, 123456.5L, 0.5L, 1e21L, 1e-7L, 0.0L};
    long double v = around[mc::choose(14)];
    if (mc::flip())
        v = -v;
    int steps = mc::choose(401) - 200;
    float f = float(v);
    double d = double(v);
    long double l = v;
    for (int i = 0; i < (steps < 0 ? -steps : steps); i++)
    {
        f = std::nextafter(f, steps < 0 ? -1e30f : 1e30f);
        d = std::nextafter(d, steps < 0 ? -1e30 : 1e30);
        l = std::nextafter(l, steps < 0 ? -1e30L : 1e30L);
    }
    MC_OP("%Lg + %d steps", v, steps);
    checkText(f), checkText(d), checkText(l);
    checkExact(f), checkExact(d), checkExact(l);
    mc::state(mc::mix(mc::hashStr(std::to_string(v)), uint64_t(steps + 1000)));
    mc::outcome(mc::hashStr(ref::Type<long double>::text(l)));
}

// every float
static void allFloats()
{
    uint32_t chunk = uint32_t(mc::choose(256) * 256 + mc::choose(256));
    for (uint32_t low = 0; low < 65536; low++)
    {
        float f = bits(chunk << 16 | low);
        char b[40];
        int n = f > -1e-6 && f < 1e-6 ? snprintf(b, sizeof b, "0") : snprintf(b, sizeof b, "%g", double(f));
        coil::String text = coil::toString(f);
        MC_CHECK(text.length() == size_t(n) && !memcmp(text.cStr(), b, size_t(n)), "%a is rendered as %s instead of %s", double(f), text.cStr(), b);
        if (f == f && !std::isinf(f))
        {
            snprintf(b, sizeof b, "%a", double(f));
            float back = 0;
            MC_CHECK(coil::fromString(coil::StringView(b), back) && identical(back, f), "%s does not convert exactly", b);
        }
    }
    MC_OP("floats with high half %x", chunk);
    mc::validated(65536);
    mc::state(chunk);
    mc::outcome(chunk);
}

// odd words, alone, together and run together
static void oddTexts()
{
    std::string const& a = oddWord();
    int way = mc::choose(3);
    ref::Subvalues v = {a};
    if (way == 1)
        v.push_back(oddWord());
    else if (way == 2)
        v[0] += oddWord();
    MC_OP("%s", cu::show(v).c_str());
    allTypes(v);
    mc::state(mc::hashStr(v[0], v.size() + (v.size() > 1 ? mc::hashStr(v[1]) : 0)));
}

MC_MAIN({"odd_texts", oddTexts}, {"texts", texts}, {"pieces", pieces}, {"odd_bytes", oddBytes}, {"exponents", exponents}, {"counts", counts}, {"lengths", lengths}, {"float_values", floatValues}, {"double_values", doubleValues}, {"edges", edges}, {"all_floats", allFloats, 2, 2})
