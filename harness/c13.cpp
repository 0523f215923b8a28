// C13: integer text converts to exactly its value or is rejected, for every type.
#include "cu.h"
#include "lexcheck.h"
#include "refconv.h"

#include <cerrno>

namespace
{
    template<typename T>
    void checkSubvalues(ref::Subvalues const& subs)
    {
        std::vector<std::unique_ptr<cu::Line>> lines;
        coil::Value v;
        for (auto& s : subs)
        {
            lines.push_back(std::make_unique<cu::Line>(s));
            v.subvalues.pushBack(coil::StringView(*lines.back()));
        }
        ref::Conv want = ref::Type<T>::conv(subs);
        auto got = coil::TypeSerializer<T>::fromString(v);
        if (want.ok)
            MC_CHECK(got.hasValue() && ref::decimal(*got) == want.canon, "%s converts to %s %s, expected %s", cu::show(subs).c_str(), ref::Type<T>::name().c_str(), got ? ref::decimal(*got).c_str() : got.error().cStr(), want.canon.c_str());
        else
            MC_CHECK(!got.hasValue() && cu::message(got.error()) == want.error, "%s converts to %s %s, expected the error %s", cu::show(subs).c_str(), ref::Type<T>::name().c_str(), got ? ref::decimal(*got).c_str() : got.error().cStr(), want.error.c_str());
        auto again = v.get<T>();
        MC_CHECK(again.hasValue() == got.hasValue() && (!got || *again == *got), "get gives another result than fromString for %s", cu::show(subs).c_str());
        if (subs.size() == 1)
        {
            T value{};
            bool ok = coil::fromString(coil::StringView(*lines[0]), value);
            MC_CHECK(ok == want.ok && (!ok || ref::decimal(value) == want.canon), "coil::fromString(%s) is wrong for %s", mc::show(subs[0]).c_str(), ref::Type<T>::name().c_str());
        }
        mc::validated();
        mc::outcome(mc::mix(mc::hashStr(ref::Type<T>::name()), want.ok ? mc::hashStr(want.canon) : mc::hashStr(want.error)));
    }

    template<typename T>
    void checkValue(T v)
    {
        std::string want = ref::decimal(v);
        coil::String text = coil::TypeSerializer<T>::toString(v);
        MC_CHECK(cu::str(text) == want, "%s %s is rendered as %s", ref::Type<T>::name().c_str(), want.c_str(), text.cStr());
        if constexpr (sizeof(T) >= sizeof(int))
            MC_CHECK(cu::str(coil::toString(v)) == want, "coil::toString(%s) is wrong", want.c_str());
        auto back = coil::TypeSerializer<T>::fromString(coil::Value{coil::StringView(text)});
        MC_CHECK(back.hasValue() && *back == v, "%s %s does not convert back", ref::Type<T>::name().c_str(), want.c_str());
        mc::validated();
    }

    // the wide values that every type is tested near
    std::vector<__int128> const& interesting()
    {
        static std::vector<__int128> const values = [] {
            std::vector<__int128> v;
            for (int bit = 0; bit <= 66; bit++)
                for (int d = -3; d <= 3; d++)
                {
                    v.push_back((static_cast<__int128>(1) << bit) + d);
                    v.push_back(-(static_cast<__int128>(1) << bit) + d);
                }
            __int128 p = 1;
            for (int e = 0; e <= 21; e++, p *= 10)
                for (int d = -2; d <= 2; d++)
                    for (int m : {1, 2, 5, 9})
                    {
                        v.push_back(p * m + d);
                        v.push_back(-p * m + d);
                    }
            return v;
        }();
        return values;
    }

    template<typename F>
    void allTypes(F f)
    {
        f(char{}), f((signed char)0), f((unsigned char)0), f(short{}), f((unsigned short)0), f(int{}), f(0u), f(0l), f(0ul), f(0ll), f(0ull);
    }
}

// every text over the characters that matter
static void texts()
{
    std::string alphabet = std::string("019-+ x") + '\0';
    std::string s = chooseString(alphabet, mc::thorough() ? (mc::asan() ? 6 : 7) : (mc::asan() ? 4 : 6));
    MC_OP("%s", mc::show(s).c_str());
    allTypes([&](auto t) { checkSubvalues<decltype(t)>({s}); });
    mc::state(mc::hashStr(s));
}

// every byte value in every position of some numbers
static void oddBytes()
{
    static std::string const bases[] = {"7", "12", "-5", " 3", "127", "65535", "+20", "2147483647", "0"};
    std::string s = bases[mc::choose(9)];
    size_t at = size_t(mc::choose(int(s.size()) + 1));
    char c = char(mc::choose(256));
    int way = mc::choose(3);
    if (way == 0)
        s.insert(at, 1, c);
    else if (at < s.size())
        s[at] = c;
    if (way == 2)
        s += "1";
    MC_OP("%s", mc::show(s).c_str());
    allTypes([&](auto t) { checkSubvalues<decltype(t)>({s}); });
    mc::state(mc::hashStr(s));
}

// values near every power of two and of ten, in every spelling, at every type
static void boundaries()
{
    __int128 v = interesting()[size_t(mc::choose(int(interesting().size())))];
    int spelling = mc::choose(14);
    std::string d = ref::decimal(v < 0 ? -v : v), sign = v < 0 ? "-" : "", s;
    switch (spelling)
    {
    case 0: s = sign + d; break;
    case 1: s = v < 0 ? "-0" + d : "+" + d; break;
    case 2: s = " " + sign + d; break;
    case 3: s = "\t\n\v\f\r " + sign + d; break;
    case 4: s = sign + rep("0", 40) + d; break;
    case 5: s = sign + d + " "; break;
    case 6: s = sign + d + ".0"; break;
    case 7: s = sign + "0x" + d; break;
    case 8: s = sign + " " + d; break;
    case 9: s = sign + d + "e0"; break;
    case 10: s = sign + d + "u"; break;
    case 11: s = sign + "-" + d; break;
    case 12: s = " +" + d; break;
    case 13: s = sign + d + '\0'; break;
    }
    errno = mc::flip() ? ERANGE : 0; // what an earlier call left there
    MC_OP("%s", mc::show(s).c_str());
    allTypes([&](auto t) { checkSubvalues<decltype(t)>({s}); });
    mc::state(mc::hashStr(s));
}

// numbers of sub-values
static void counts()
{
    static std::string const parts[] = {"1", "", "-", "300", "x y", "99999999999999999999"};
    int n = mc::choose(5);
    ref::Subvalues subs;
    for (int i = 0; i < n; i++)
        subs.push_back(parts[mc::choose(6)]);
    MC_OP("%s", cu::show(subs).c_str());
    allTypes([&](auto t) { checkSubvalues<decltype(t)>(subs); });
    uint64_t h = 3;
    for (auto& s : subs)
        h = mc::mix(h, mc::hashStr(s));
    mc::state(h);
}

static void manyCounts()
{
    size_t n = chooseLength(140, 5000);
    int kind = mc::choose(2);
    ref::Subvalues subs(n, kind ? text(5) : "1");
    MC_OP("%zu subvalues", n);
    checkSubvalues<int>(subs);
    checkSubvalues<unsigned char>(subs);
    checkSubvalues<long long>(subs);
    mc::state(n);
}

// lengths: digits, zeros, spaces, garbage
static void lengths()
{
    size_t n = chooseLength(mc::thorough() ? 600 : 270, mc::asan() ? 5000 : 70000);
    int kind = mc::choose(8);
    std::string s;
    switch (kind)
    {
    case 0: s = rep("9", n); break;
    case 1: s = rep("0", n); break;
    case 2: s = rep("0", n) + "42"; break;
    case 3: s = rep(" ", n) + "-7"; break;
    case 4: s = rep(" ", n); break;
    case 5: s = "1" + text(n); break;
    case 6: s = "-" + rep("1", n); break;
    case 7: s = "5" + rep(" ", n); break;
    }
    MC_OP("kind %d, %zu", kind, n);
    allTypes([&](auto t) { checkSubvalues<decltype(t)>({s}); });
    mc::state(mc::hashStr(s));
}

// every value of the small types; every value of a window of the wide ones
static void smallValues()
{
    int high = mc::choose(256);
    MC_OP("values with high byte %d", high);
    for (int low = 0; low < 256; low++)
    {
        int v = high * 256 + low;
        checkValue<short>(short(v));
        checkValue<unsigned short>((unsigned short)v);
        if (high == 0)
        {
            checkValue<char>(char(v));
            checkValue<signed char>((signed char)v);
            checkValue<unsigned char>((unsigned char)v);
        }
        // the decimal text of every value around the 8 and 16 bit ranges, at every type
        for (int w : {v, -v, v - 300, 65536 - v / 2})
            if ((high < 3 || high > 253 || high == 127 || high == 128))
                allTypes([&](auto t) { checkSubvalues<decltype(t)>({std::to_string(w)}); });
    }
    mc::state(uint64_t(high));
    mc::outcome(uint64_t(high));
}

static void wideValues()
{
    __int128 v = interesting()[size_t(mc::choose(int(interesting().size())))];
    MC_OP("%s", ref::decimal(v).c_str());
    checkValue<int>(int(v));
    checkValue<unsigned>(unsigned(v));
    checkValue<long>(long(v));
    checkValue<unsigned long>((unsigned long)v);
    checkValue<long long>((long long)v);
    checkValue<unsigned long long>((unsigned long long)v);
    mc::state(mc::hashStr(ref::decimal(v)));
    mc::outcome(mc::hashStr(ref::decimal(v)));
}

// all 2^32 values of int and unsigned
static void all32()
{
    uint32_t chunk = uint32_t(mc::choose(256) * 256 + mc::choose(256));
    for (uint32_t low = 0; low < 65536; low++)
    {
        uint32_t v = chunk << 16 | low;
        std::string want = std::to_string(v);
        coil::String text = coil::toString(v);
        unsigned back = 0;
        MC_CHECK(text.length() == want.size() && memcmp(text.cStr(), want.data(), want.size()) == 0 && coil::fromString(text, back) && back == v, "unsigned %s is wrong", want.c_str());
        int iv = int(v), iback = 0;
        std::string iwant = std::to_string(iv);
        coil::String itext = coil::toString(iv);
        MC_CHECK(itext.length() == iwant.size() && memcmp(itext.cStr(), iwant.data(), iwant.size()) == 0 && coil::fromString(itext, iback) && iback == iv, "int %s is wrong", iwant.c_str());
    }
    MC_OP("values with high half %u", chunk);
    mc::validated(65536);
    mc::state(chunk);
    mc::outcome(chunk);
}

// odd words, alone, together and run together
static void oddTexts()
{
    std::string const& a = oddWord();
    int way = mc::choose(3);
    ref::Subvalues v = {a};
    if (way == 1)
        v.push_back(oddWord());
    else if (way == 2)
        v[0] += oddWord();
    MC_OP("%s", cu::show(v).c_str());
    allTypes([&](auto t) { checkSubvalues<decltype(t)>(v); });
    mc::state(mc::hashStr(v[0], v.size() + (v.size() > 1 ? mc::hashStr(v[1]) : 0)));
}

MC_MAIN({"odd_texts", oddTexts}, {"texts", texts}, {"odd_bytes", oddBytes}, {"boundaries", boundaries}, {"counts", counts}, {"many_counts", manyCounts}, {"lengths", lengths}, {"small_values", smallValues}, {"wide_values", wideValues}, {"all_32_bit_values", all32, 2, 2})
