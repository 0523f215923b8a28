// C15: booleans, strings and pointers convert exactly as documented.
#include "cu.h"
#include "lexcheck.h"
#include "refconv.h"

namespace
{
    struct Built
    {
        std::vector<std::unique_ptr<cu::Line>> lines;
        coil::Value v;
        explicit Built(ref::Subvalues const& subs)
        {
            for (auto& s : subs)
            {
                lines.push_back(std::make_unique<cu::Line>(s));
                v.subvalues.pushBack(coil::StringView(*lines.back()));
            }
        }
    };

    template<typename T>
    void checkSubvalues(ref::Subvalues const& subs)
    {
        Built b{subs};
        ref::Conv want = ref::Type<T>::conv(subs);
        auto got = coil::TypeSerializer<T>::fromString(b.v);
        if (want.ok)
            MC_CHECK(got.hasValue() && ref::Type<T>::canon(*got) == want.canon, "%s converts to %s %s, expected %s", cu::show(subs).c_str(), ref::Type<T>::name().c_str(), got ? ref::Type<T>::canon(*got).c_str() : got.error().cStr(), want.canon.c_str());
        else
            MC_CHECK(!got.hasValue() && cu::message(got.error()) == want.error, "%s converts to %s %s, expected the error %s", cu::show(subs).c_str(), ref::Type<T>::name().c_str(), got ? ref::Type<T>::canon(*got).c_str() : got.error().cStr(), want.error.c_str());
        if constexpr (std::is_same_v<T, coil::StringView> || std::is_same_v<T, std::string_view>)
            if (got && got->length())
                MC_CHECK(got->data() == b.lines[0]->data.get(), "a view argument does not denote the text of the argument");
        auto again = b.v.get<T>();
        MC_CHECK(again.hasValue() == got.hasValue() && (!got || ref::Type<T>::canon(*again) == ref::Type<T>::canon(*got)), "get gives another result than fromString");
        // and rendered again
        if (got && !std::is_same_v<T, bool>)
            MC_CHECK(cu::str(coil::TypeSerializer<T>::toString(*got)) == subs[0], "a string is rendered as another text");
        mc::validated();
        mc::outcome(mc::mix(mc::hashStr(ref::Type<T>::name()), want.ok ? mc::hashStr(want.canon) : mc::hashStr(want.error)));
    }

    void all(ref::Subvalues const& subs)
    {
        checkSubvalues<bool>(subs);
        checkSubvalues<coil::String>(subs);
        checkSubvalues<coil::StringView>(subs);
        checkSubvalues<std::string>(subs);
        checkSubvalues<std::string_view>(subs);
        uint64_t h = subs.size();
        for (auto& s : subs)
            h = mc::mix(h, mc::hashStr(s));
        mc::state(h);
    }
}

static void texts()
{
    std::string s = chooseString(std::string("10 tTrRuUeE") + '\0', mc::asan() ? 4 : mc::thorough() ? 6 : 5);
    MC_OP("%s", mc::show(s).c_str());
    all({s});
}

static void moreTexts()
{
    std::string s = chooseString("fFaAlLsSeE", mc::asan() ? 4 : mc::thorough() ? 6 : 5);
    MC_OP("%s", mc::show(s).c_str());
    all({s});
}

// true and false in every letter case, with every byte at every position
static void words()
{
    std::string s = mc::flip() ? "true" : "false";
    for (char& c : s)
        if (mc::flip())
            c = char(c - 32);
    int way = mc::choose(4);
    size_t at = size_t(mc::choose(int(s.size()) + (way == 1)));
    char c = char(way == 0 || way == 3 ? 0 : mc::choose(256));
    if (way == 1)
        s.insert(at, 1, c);
    else if (way == 2)
        s[at] = c;
    else if (way == 3)
        s.erase(at, 1);
    MC_OP("%s", mc::show(s).c_str());
    all({s});
}

static void everyByte()
{
    std::string s(1, char(mc::choose(256)));
    if (mc::flip())
        s += char(mc::choose(256));
    MC_OP("%s", mc::show(s).c_str());
    all({s});
}

static void counts()
{
    static std::string const parts[] = {"1", "", "true", "x y", std::string("\0", 1), "False"};
    int n = mc::choose(mc::asan() ? 5 : 6);
    ref::Subvalues subs;
    for (int i = 0; i < n; i++)
        subs.push_back(parts[mc::choose(6)]);
    MC_OP("%s", cu::show(subs).c_str());
    all(subs);
}

static void sizes()
{
    size_t n = chooseLength(mc::thorough() ? 600 : 300, mc::asan() ? 5000 : 70000);
    int kind = mc::choose(7);
    ref::Subvalues subs;
    switch (kind)
    {
    case 0: subs = {text(n)}; break;
    case 1: subs = {rep(std::string(1, '\0'), n)}; break;
    case 2: subs = {"true" + rep(" ", n)}; break;
    case 3: subs = {rep("1", n)}; break;
    case 4: subs = ref::Subvalues(n, "1"); break;
    case 5: subs = {text(n), text(n / 2)}; break;
    case 6: subs = {rep("\xff\x80", n)}; break;
    }
    MC_OP("kind %d, %zu", kind, n);
    all(subs);
}

// rendering, and execution of commands that take and return these types
namespace
{
    template<typename T>
    void executed(T const& v, std::string const& want)
    {
        coil::Bindings b;
        b["f"] = [&v]() -> T { return v; };
        b["g"] = [&v]() -> T const& { return v; };
        for (char const* name : {"f", "g"})
        {
            auto r = b.execute(name);
            MC_CHECK(r.errors.size() == 0 && r.returnValue && cu::str(*r.returnValue) == want, "command %s returns %s instead of %s", name, cu::show(cu::ret(r)).c_str(), mc::show(want).c_str());
        }
    }

    template<typename T>
    void rendered(T const& v, std::string const& want)
    {
        coil::String got = coil::TypeSerializer<T>::toString(v);
        MC_CHECK(cu::str(got) == want, "rendered as %s instead of %s", mc::show(cu::str(got)).c_str(), mc::show(want).c_str());
        if constexpr (!std::is_pointer_v<std::remove_pointer_t<T>>) // there is no type name for pointers to pointers
            executed(v, want);
        mc::validated(3);
    }
}

static void rendering()
{
    std::string s = chooseString(std::string("a,") + '\0' + '\xff', mc::asan() ? 3 : 5);
    std::string c = s.substr(0, s.find('\0'));
    int number = int(s.size()) * 37 - 40;
    MC_OP("%s", mc::show(s).c_str());
    rendered<bool>(s.size() % 2, s.size() % 2 ? "true" : "false");
    coil::String text = cu::string(s);
    coil::StringView view = text;
    std::string stdText = s;
    std::string_view stdView = s;
    rendered(text, s);
    rendered(view, s);
    rendered(stdText, s);
    rendered(stdView, s);
    rendered<std::string_view>({}, "");
    rendered<char const*>(c.c_str(), c);
    rendered<char const*>(nullptr, "null");
    bool flag = number > 0;
    double real = number / 8.0;
    rendered<int*>(&number, std::to_string(number));
    rendered<int const*>(&number, std::to_string(number));
    rendered<bool*>(&flag, flag ? "true" : "false");
    rendered<double const*>(&real, ref::Type<double>::text(real));
    rendered<coil::String*>(&text, s);
    rendered<coil::String const*>(&text, s);
    rendered<std::string*>(&stdText, s);
    rendered<coil::StringView*>(&view, s);
    rendered<int*>(nullptr, "null");
    rendered<int const*>(nullptr, "null");
    rendered<bool*>(nullptr, "null");
    rendered<coil::String*>(nullptr, "null");
    rendered<std::string const*>(nullptr, "null");
    int* p = &number;
    rendered<int**>(&p, std::to_string(number));
    p = nullptr;
    rendered<int**>(&p, "null");
    std::vector<int> numbers(s.size(), 3);
    rendered<std::vector<int>*>(&numbers, ref::Type<std::vector<int>>::text(numbers));
    mc::state(mc::hashStr(s));
    mc::outcome(mc::hashStr(s));
}

static void renderingSizes()
{
    size_t n = chooseLength(300, mc::asan() ? 5000 : 70000);
    std::string s = mc::flip() ? text(n) : rep(std::string("\0%s", 3), n / 3);
    coil::String t = cu::string(s);
    MC_OP("%zu", s.size());
    rendered(t, s);
    rendered<coil::String const*>(&t, s);
    rendered<coil::StringView>(t, s);
    rendered<std::string>(s, s);
    rendered<std::string_view>(s, s);
    rendered<char const*>(t.cStr(), s.c_str());
    mc::state(mc::hashStr(s));
    mc::outcome(mc::hashStr(s));
}

// odd words, alone, together and run together
static void oddTexts()
{
    std::string const& a = oddWord();
    int way = mc::choose(3);
    ref::Subvalues v = {a};
    if (way == 1)
        v.push_back(oddWord());
    else if (way == 2)
        v[0] += oddWord();
    MC_OP("%s", cu::show(v).c_str());
    all(v);
    mc::state(mc::hashStr(v[0], v.size() + (v.size() > 1 ? mc::hashStr(v[1]) : 0)));
}

MC_MAIN({"odd_texts", oddTexts}, {"texts", texts}, {"more_texts", moreTexts}, {"words", words}, {"every_byte", everyByte}, {"counts", counts}, {"sizes", sizes}, {"rendering", rendering}, {"rendering_sizes", renderingSizes})
