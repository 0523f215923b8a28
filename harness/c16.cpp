// C16: compound values convert element by element without losing or inventing elements.
#include "cu.h"
#include "lexcheck.h"
#include "refconv.h"

#include <sstream>

namespace
{
    struct Built
    {
        std::vector<std::unique_ptr<cu::Line>> lines;
        coil::Value v;
        explicit Built(ref::Subvalues const& subs)
        {
            for (auto& s : subs)
            {
                lines.push_back(std::make_unique<cu::Line>(s));
                v.subvalues.pushBack(coil::StringView(*lines.back()));
            }
        }
    };

    template<typename T>
    void checkSubvalues(ref::Subvalues const& subs)
    {
        Built b{subs};
        ref::Conv want = ref::Type<T>::conv(subs);
        for (int way = 0; way < 2; way++)
        {
            auto got = way ? b.v.get<T>() : coil::TypeSerializer<T>::fromString(b.v);
            if (want.ok)
                MC_CHECK(got.hasValue() && ref::Type<T>::canon(*got) == want.canon, "%s converts to %s %s, expected %s", cu::show(subs).c_str(), ref::Type<T>::name().c_str(), got ? ref::Type<T>::canon(*got).substr(0, 1000).c_str() : got.error().cStr(), want.canon.substr(0, 1000).c_str());
            else
                MC_CHECK(!got.hasValue() && cu::message(got.error()) == want.error, "%s converts to %s %s, expected the error %s", cu::show(subs).c_str(), ref::Type<T>::name().c_str(), got ? ref::Type<T>::canon(*got).substr(0, 1000).c_str() : got.error().cStr(), want.error.substr(0, 1000).c_str());
            if (got)
            {
                std::string have = cu::str(coil::TypeSerializer<T>::toString(*got)), text = ref::Type<T>::text(*got);
                MC_CHECK(have == text, "%s is rendered as %s instead of %s", ref::Type<T>::name().c_str(), mc::show(have.substr(0, 1000)).c_str(), mc::show(text.substr(0, 1000)).c_str());
            }
        }
        mc::validated();
        mc::outcome(mc::mix(mc::hashStr(ref::Type<T>::name()), want.ok ? mc::hashStr(want.canon) : mc::hashStr(want.error)));
    }

    template<typename T>
    using Vec = std::vector<T>;
    template<typename T>
    using Opt = std::optional<T>;

    void all(ref::Subvalues const& subs)
    {
        checkSubvalues<Vec<int>>(subs);
        checkSubvalues<Vec<unsigned char>>(subs);
        checkSubvalues<Vec<bool>>(subs);
        checkSubvalues<Vec<double>>(subs);
        checkSubvalues<Vec<coil::String>>(subs);
        checkSubvalues<Vec<coil::StringView>>(subs);
        checkSubvalues<Vec<std::string>>(subs);
        checkSubvalues<Vec<Vec<int>>>(subs);
        checkSubvalues<Vec<Opt<int>>>(subs);
        checkSubvalues<Vec<Opt<std::string>>>(subs);
        checkSubvalues<Vec<Vec<std::string>>>(subs);
        checkSubvalues<Opt<int>>(subs);
        checkSubvalues<Opt<bool>>(subs);
        checkSubvalues<Opt<float>>(subs);
        checkSubvalues<Opt<std::string>>(subs);
        checkSubvalues<Opt<coil::StringView>>(subs);
        checkSubvalues<Opt<Vec<int>>>(subs);
        checkSubvalues<Opt<Vec<std::string>>>(subs);
        checkSubvalues<Opt<Opt<int>>>(subs);
        checkSubvalues<Opt<Vec<Opt<int>>>>(subs);

        // dynamic values
        Built b{subs};
        auto ref = coil::TypeSerializer<coil::Value>::fromString(b.v);
        MC_CHECK(ref.hasValue(), "a value does not convert to coil::Value");
        coil::Value const& same = *ref;
        MC_CHECK(cu::subs(same) == subs, "coil::Value lost or invented sub-values of %s", cu::show(subs).c_str());
        std::string joined = ref::join(subs);
        MC_CHECK(cu::str(b.v.str()) == joined && cu::str(coil::TypeSerializer<coil::Value>::toString(b.v)) == joined, "coil::Value is rendered as %s instead of %s", b.v.str().cStr(), joined.c_str());
        coil::Value copy{b.v};
        MC_CHECK(copy == b.v && !(copy != b.v), "a copy of a value is not equal to it");
        copy.subvalues.pushBack("");
        MC_CHECK(!(copy == b.v) && copy != b.v, "values with different numbers of sub-values are equal");
        for (size_t i = 0; i < subs.size(); i++)
        {
            ref::Subvalues other = subs;
            other[i] += "q";
            Built o{other};
            MC_CHECK(!(o.v == b.v) && o.v != b.v, "values with a different sub-value %zu are equal", i);
            if (subs.size() > 8)
                i += subs.size() / 3;
        }
        uint64_t h = subs.size();
        for (auto& s : subs)
            h = mc::mix(h, mc::hashStr(s));
        mc::state(h);
    }

    // the same, delivered to a command
    template<typename T>
    void executed(coil::Bindings& b, char const* name, ref::Subvalues const& subs)
    {
        std::string got;
        b[name] = [&got](T v) {
            got = ref::Type<T>::canon(v);
            return v;
        };
        std::string line = std::string(name) + " (";
        for (auto& s : subs)
            line += "'" + s + "' ";
        line += ")";
        auto r = b.execute(cu::view(line));
        ref::Conv want = ref::Type<T>::conv(subs);
        if (want.ok)
            MC_CHECK(r.errors.size() == 0 && got == want.canon && r.returnValue.hasValue(), "%s delivers %s instead of %s", mc::show(line).c_str(), got.c_str(), want.canon.c_str());
        else
            MC_CHECK(r.errors.size() == 1 && cu::str(r.errors[0]) == want.error && got.empty() && !r.returnValue.hasValue(), "%s: wrong error", mc::show(line).c_str());
        mc::validated();
    }
}

static void lists()
{
    static std::string const parts[] = {"1", "", "-5", "true", "2.5", "x y", "300", std::string("a\0", 2), "'", ")"};
    int n = mc::choose(mc::thorough() ? (mc::asan() ? 6 : 7) : (mc::asan() ? 5 : 6));
    ref::Subvalues subs;
    for (int i = 0; i < n; i++)
        subs.push_back(parts[mc::choose(10)]);
    MC_OP("%s", cu::show(subs).c_str());
    all(subs);
}

static void commands()
{
    static std::string const parts[] = {"1", "", "-5", "true", "x y", "300", ",= ;"};
    int n = mc::choose(mc::asan() ? 5 : 6);
    ref::Subvalues subs;
    for (int i = 0; i < n; i++)
        subs.push_back(parts[mc::choose(7)]);
    MC_OP("%s", cu::show(subs).c_str());
    coil::Bindings b;
    executed<Vec<int>>(b, "vi", subs);
    executed<Vec<std::string>>(b, "vs", subs);
    executed<Vec<coil::StringView>>(b, "vv", subs);
    executed<Opt<int>>(b, "oi", subs);
    executed<Opt<std::string>>(b, "os", subs);
    executed<Opt<Vec<std::string>>>(b, "ovs", subs);
    executed<Opt<Vec<int>>>(b, "ovi", subs);
    executed<coil::Value>(b, "v", subs);
    executed<Vec<coil::Value>>(b, "vval", subs);
    executed<Opt<coil::Value>>(b, "oval", subs);
    executed<Vec<Vec<coil::Value>>>(b, "vvval", subs);
    uint64_t h = subs.size() + 100;
    for (auto& s : subs)
        h = mc::mix(h, mc::hashStr(s));
    mc::state(h);
    mc::outcome(h);
}

// list and element sizes
static void sizes()
{
    size_t n = chooseLength(mc::thorough() ? 300 : 140, mc::asan() ? 1050 : 5000);
    int kind = mc::choose(8);
    ref::Subvalues subs;
    switch (kind)
    {
    case 0: subs = ref::Subvalues(n, "1"); break;
    case 1: subs = ref::Subvalues(n, ""); break;
    case 2: subs = ref::Subvalues(n, "7"); subs.push_back("oops"); break;
    case 3: subs = {text(n)}; break;
    case 4: subs = {text(n), text(n + 1), "3"}; break;
    case 5: subs = ref::Subvalues(n, "a b c d e f g h i j k l m n o p q r s t u v w x y z"); break;
    case 6: for (size_t i = 0; i < n; i++) subs.push_back(std::to_string(i * 7919)); break;
    case 7: subs = ref::Subvalues(n + 1, "1"); subs[n / 2] = "bad"; break;
    }
    MC_OP("kind %d, %zu", kind, n);
    if (n > 1100)
    {
        checkSubvalues<Vec<int>>(subs);
        checkSubvalues<Vec<std::string>>(subs);
        checkSubvalues<Opt<Vec<int>>>(subs);
        Built b{subs};
        MC_CHECK(cu::subs(*coil::TypeSerializer<coil::Value>::fromString(b.v)) == subs && cu::str(b.v.str()) == ref::join(subs), "coil::Value lost or invented sub-values");
    }
    else
        all(subs);
    mc::state(n * 10 + uint64_t(kind));
}
// constructors of values; named values
static void values()
{
    std::string a = chooseString(std::string("ab") + '\0', 3), b = chooseString(std::string("ab") + '\0', 3);
    cu::Line la{a}, lb{b};
    coil::StringView va = la, vb = lb;
    coil::Value one{va};
    MC_CHECK(cu::subs(one) == ref::Subvalues{a}, "a value made from a view is different");
    coil::Value none;
    MC_CHECK(none.subvalues.size() == 0 && none.str().empty(), "an empty value is not empty");
    coil::Vector<coil::StringView> parts;
    parts.pushBack(va);
    parts.pushBack(vb);
    coil::Value two{parts};
    MC_CHECK(cu::subs(two) == (ref::Subvalues{a, b}) && two != one && two != none, "a value made from two views is different");
    coil::Value other{vb};
    MC_CHECK((one == other) == (a == b) && (one != other) == (a != b), "comparison of values is wrong");
    coil::NamedValue x{va, one}, y{vb, one}, z{va, other};
    MC_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x == z) == (a == b) && (x != z) == (a != b) && x == x && !(x != x), "comparison of named values is wrong");
    if (a.find('\0') == std::string::npos)
    {
        coil::Value c{a.c_str()};
        MC_CHECK(c == one && cu::subs(c) == ref::Subvalues{a}, "a value made from a C string is different");
    }
    coil::Value assigned{vb};
    assigned = two;
    MC_CHECK(assigned == two, "an assigned value is different");
    coil::Value moved{std::move(assigned)};
    MC_CHECK(moved == two, "a moved value is different");
    MC_OP("%s %s", mc::show(a).c_str(), mc::show(b).c_str());
    mc::state(mc::hashStr(a, mc::hashStr(b)));
    mc::outcome(mc::hashStr(a, mc::hashStr(b)));
}

// strings and views of both libraries
static void strings()
{
    int way = mc::choose(3);
    std::string s = way == 0 ? chooseString(std::string("ab") + '\0' + '\xff' + '\n', mc::asan() ? 4 : 6) : way == 1 ? std::string(1, char(mc::choose(256))) + char(mc::choose(256)) : text(chooseLength(300, 70000));
    cu::Line l{s};
    coil::StringView v = l;
    coil::String t{v};
    std::string_view sv{l.data.get(), l.size};
    MC_CHECK(coil::toStdString(v) == s && coil::toStdString(t) == s, "toStdString changes %s", mc::show(s.substr(0, 300)).c_str());
    MC_CHECK(coil::toStdStringView(v) == s && coil::toStdStringView(t) == s, "toStdStringView changes %s", mc::show(s.substr(0, 300)).c_str());
    MC_CHECK(coil::toStdStringView(v).data() == v.data() || s.empty(), "toStdStringView denotes other characters");
    MC_CHECK(cu::str(coil::fromStdString(s)) == s && cu::str(coil::fromStdString(sv)) == s, "fromStdString changes %s", mc::show(s.substr(0, 300)).c_str());
    MC_CHECK(cu::str(coil::fromStdStringView(sv)) == s && (coil::fromStdStringView(sv).data() == sv.data() || s.empty()), "fromStdStringView changes %s", mc::show(s.substr(0, 300)).c_str());
    std::ostringstream a, b;
    a << v;
    b << t;
    MC_CHECK(a.str() == s && b.str() == s, "the stream operators change %s", mc::show(s.substr(0, 300)).c_str());
    MC_CHECK(cu::str(coil::TypeSerializer<std::string>::toString(s)) == s && cu::str(coil::TypeSerializer<std::string_view>::toString(sv)) == s, "a std string is rendered as another text");
    MC_CHECK(coil::fromStdStringView({}).length() == 0 && coil::fromStdString(std::string_view{}).length() == 0, "an empty view is not empty");
    MC_OP("%s", mc::show(s.substr(0, 300)).c_str());
    mc::state(mc::hashStr(s));
    mc::outcome(mc::hashStr(s));
}

// odd words, alone, together and run together
static void oddTexts()
{
    std::string const& a = oddWord();
    int way = mc::choose(3);
    ref::Subvalues v = {a};
    if (way == 1)
        v.push_back(mc::asan() && !mc::thorough() ? oddWords()[mc::hashStr(a) % oddWords().size()] : oddWord());
    else if (way == 2)
        v[0] += oddWord();
    MC_OP("%s", cu::show(v).c_str());
    all(v);
    mc::state(mc::hashStr(v[0], v.size() + (v.size() > 1 ? mc::hashStr(v[1]) : 0)));
}

MC_MAIN({"odd_texts", oddTexts}, {"lists", lists}, {"commands", commands}, {"sizes", sizes}, {"values", values}, {"strings", strings})
