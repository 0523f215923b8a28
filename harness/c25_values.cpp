#include "c25.h"
#include "tracked.h"

#include <limits>
#include <map>
#include <cmath>
using namespace c25;
using S = coil::String;
using SV = coil::StringView;

namespace
{
    int depth(int quick, int thorough) { return mc::thorough() ? thorough : quick; }

    struct Entry
    {
        char const* name;
        std::string (*convert)(ref::Subvalues const&);
    };

    // the text at the type and back
    template<typename T>
    std::string convert(ref::Subvalues const& subs)
    {
        std::vector<std::unique_ptr<cu::Line>> lines;
        coil::Value v;
        for (auto& s : subs)
        {
            lines.push_back(std::make_unique<cu::Line>(s));
            v.subvalues.pushBack(coil::StringView(*lines.back()));
        }
        auto r = coil::TypeSerializer<T>::fromString(v);
        if (!r)
            return "error " + mc::show(plain(cu::str(r.error())));
        std::string s = ref::Type<T>::canon(*r);
        auto back = coil::TypeSerializer<T>::toString(*r);
        return s + " = " + mc::show(cu::str(back)) + " " + plain(cu::str(coil::TypeName<T>::name()));
    }
    Entry const entries[] = {
        {"bool", convert<bool>}, {"signed char", convert<signed char>}, {"unsigned char", convert<unsigned char>}, {"short", convert<short>},
        {"unsigned short", convert<unsigned short>}, {"int", convert<int>}, {"unsigned", convert<unsigned>}, {"long", convert<long>}, {"unsigned long", convert<unsigned long>},
        {"long long", convert<long long>}, {"unsigned long long", convert<unsigned long long>}, {"float", convert<float>}, {"double", convert<double>},
        {"long double", convert<long double>}, {"String", convert<S>}, {"StringView", convert<SV>}, {"std::string", convert<std::string>}, {"string_view", convert<std::string_view>},
        {"vector<int>", convert<std::vector<int>>}, {"optional<unsigned char>", convert<std::optional<unsigned char>>}, {"vector<optional<double>>", convert<std::vector<std::optional<double>>>},
        {"optional<vector<bool>>", convert<std::optional<std::vector<std::string>>>}, {"char", convert<char>},
    };
    constexpr int entryCount = sizeof entries / sizeof entries[0];

    char const* const special[] = {"127", "128", "-128", "-129", "255", "256", "-1", "-0", "+0", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649",
                                   "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
                                   "true", "False", "TRUE", "tRue", "yes", "1e308", "1e309", "-1e309", "1e-308", "4.9e-324", "2e-324", "3.4028235e38", "3.4028236e38", "1e39", "1.1754944e-38", "1e-45", "1e-46",
                                   "1e4932", "1e4933", "1e-4932", "0x10", "0x1p-3", "inf", "-INF", "infinity", "nan", "-nan", "nan(12)", "1e", "1.", ".5", ".", "1,5", "1_000", "0.1", "0.30000000000000004", "16777217",
                                   "9007199254740993", "1e-7", "9.99999e-7", "1e-6", "123456.5", "1234567", "0.0001", "0.00001", " 1", "1 ", "\t1", "\v1", "1\n", "- 1", "--1", "010", "0b1", "1u", "1L", "'1'"};
    constexpr int specialCount = sizeof special / sizeof special[0];
}

namespace c25
{
    void conversions()
    {
        Entry const& e = entries[mc::choose(entryCount)];
        MC_LOG("type %s", e.name);
        ref::Subvalues subs;
        switch (mc::choose(4))
        {
        case 0: subs = {chooseString("19-.e x\xff", depth(4, 5))}; break;
        case 1: subs = {special[mc::choose(specialCount)]}; break;
        case 2:
        {
            static char const* const items[] = {"1", "", "x", "300", "-1", "true", "1.5", "a text that is longer than any small buffer"};
            int n = mc::choose(4);
            for (int i = 0; i < n; i++)
                subs.push_back(items[mc::choose(8)]);
            break;
        }
        case 3: subs = {text(chooseLength(300, 5000))}; break;
        }
        mc::transition();
        observed(e.convert(subs));
    }

    // values of every magnitude, rendered
    void rendering()
    {
        std::string s;
        switch (mc::choose(4))
        {
        case 0:
        {
            uint32_t bits = uint32_t(mc::choose(2)) << 31;
            bits |= uint32_t(mc::choose(256)) << 23;
            int m = mc::choose(48);
            bits |= m < 23 ? 1u << m : m < 46 ? (1u << 23) - (1u << (m - 23)) : m == 46 ? 0 : 0x2aaaaa;
            float f;
            memcpy(&f, &bits, 4);
            if (f != f)
                break; // the sign of not-a-number is not a value
            s = cu::str(coil::TypeSerializer<float>::toString(f));
            break;
        }
        case 1:
        {
            uint64_t bits = uint64_t(mc::choose(2)) << 63;
            bits |= uint64_t(mc::choose(2048)) << 52;
            int m = mc::choose(8);
            bits |= m == 0 ? 0 : m == 1 ? 1 : m == 2 ? (1ull << 52) - 1 : m == 3 ? 1ull << 51 : m == 4 ? 0xaaaaaaaaaaaaaull : m == 5 ? 0x5555555555555ull : m == 6 ? 1ull << 26 : (1ull << 51) - 1;
            double d;
            memcpy(&d, &bits, 8);
            if (d != d)
                break;
            s = cu::str(coil::TypeSerializer<double>::toString(d));
            s += " " + cu::str(coil::TypeSerializer<long double>::toString(static_cast<long double>(d)));
            break;
        }
        case 2:
        {
            int b = mc::choose(64), d = mc::choose(5) - 2;
            uint64_t v = (uint64_t(1) << b) + uint64_t(int64_t(d));
            s = cu::str(coil::TypeSerializer<unsigned long long>::toString(v)) + " " + cu::str(coil::TypeSerializer<long long>::toString(static_cast<long long>(v))) + " " +
                cu::str(coil::TypeSerializer<unsigned long>::toString(v)) + " " + cu::str(coil::TypeSerializer<long>::toString(static_cast<long>(v))) + " " +
                cu::str(coil::TypeSerializer<int>::toString(static_cast<int>(v))) + " " + cu::str(coil::TypeSerializer<unsigned>::toString(static_cast<unsigned>(v)));
            break;
        }
        case 3:
        {
            int v = mc::choose(65536);
            s = cu::str(coil::TypeSerializer<short>::toString(static_cast<short>(v))) + " " + cu::str(coil::TypeSerializer<unsigned short>::toString(static_cast<unsigned short>(v)));
            s += " " + cu::str(coil::TypeSerializer<signed char>::toString(static_cast<signed char>(v))) + " " + cu::str(coil::TypeSerializer<unsigned char>::toString(static_cast<unsigned char>(v)));
            s += " " + cu::str(coil::TypeSerializer<char>::toString(static_cast<char>(v)));
            break;
        }
        }
        mc::transition();
        observed(s);
    }

    // numbers with many digits at the edges of rounding
    void rounding()
    {
        static char const* const mantissas[] = {"1", "9.99999", "9.999995", "4.5", "1.7976931348623157", "1.7976931348623159", "2.2250738585072014", "3.40282346", "3.40282357", "1.17549435", "5.0000000000000001", "1.00000005960464477539062500000000001"};
        std::string t = mc::flip() ? "-" : "";
        t += mantissas[mc::choose(12)];
        int e = mc::choose(700) - 350;
        t += "e" + std::to_string(e);
        mc::transition();
        observed(convert<float>({t}) + " " + convert<double>({t}) + " " + convert<long double>({t}));
    }

    // maps and vectors with elements that count their copies
    void containers()
    {
        std::string s;
        int steps = depth(5, 6);
        {
            coil::UnorderedMap<S, Tracked> map;
            coil::Vector<Tracked> vec, other;
            auto text = [](int i) { return coil::sprintf("key %d with a text long enough to own memory", i); };
            for (int i = 0; i < steps; i++)
            {
                int op = mc::choose(12);
                if (op == 11)
                    break;
                MC_OP("operation %d", op);
                switch (op)
                {
                case 0: case 1: map.insertOrAssign(text(op), Tracked{i}); break;
                case 2: for (int k = 0; k < 9; k++) map.insertOrAssign(text(10 + k), Tracked{k}); break;
                case 3: { S k = text(0); auto it = map.find(k); if (it != map.end()) map.erase(k); break; }
                case 4: { S k = text(12); auto it = map.find(k); if (it != map.end()) map.erase(k); break; }
                case 5: vec.pushBack(Tracked{i}); break;
                case 6: vec.resize(vec.size() * 2 + 1); break;
                case 7: if (!vec.empty()) vec.popBack(); break;
                case 8: other = vec; break;
                case 9: { auto t = std::move(other); other = std::move(vec); vec = std::move(t); break; }
                case 10: vec.reserve(20); break;
                }
                s += std::to_string(map.size()) + "," + std::to_string(vec.size()) + "," + std::to_string(other.size()) + "," + (vec == other ? "=" : "#");
                std::map<std::string, int> sorted;
                for (auto& kv : map)
                    sorted[cu::str(kv.key())] = kv.value().get();
                for (auto& kv : sorted)
                    s += kv.first + std::to_string(kv.second);
                for (auto& e : vec)
                    s += " " + std::to_string(e.get());
                s += "/";
                for (auto& e : other)
                    s += " " + std::to_string(e.get());
                s += " " + std::to_string(vec.capacity()) + ";";
            }
        }
        s += std::to_string(Tracked::alive);
        observed(s);
    }

    void stringOps()
    {
        S a, b{"xyz"};
        std::string s;
        int steps = depth(5, 6);
        for (int i = 0; i < steps; i++)
        {
            int op = mc::choose(13);
            if (op == 12)
                break;
            MC_OP("operation %d", op);
            switch (op)
            {
            case 0: a += 'c'; break;
            case 1: a += "text"; break;
            case 2: a += b; break;
            case 3: a += a; break;
            case 4: a.append(a.cStr() + a.length() / 2, a.length() - a.length() / 2); break;
            case 5: a.resize(a.length() / 2); break;
            case 6: a.resize(a.length() + 3); for (size_t k = a.length() - 3; k < a.length(); k++) const_cast<char*>(a.cStr())[k] = 'r'; break;
            case 7: a.reserve(50); break;
            case 8: { S t = std::move(a); a = std::move(b); b = std::move(t); break; }
            case 9: b = a; break;
            case 10: a = S{"", 1}; break;
            case 11: a = coil::sprintf("%s|%d|%g", b.cStr(), i, 0.1); break;
            }
            s += mc::show(cu::str(a)) + mc::show(cu::str(b)) + (a == b ? "=" : "#") + std::to_string(coil::Hash<S>{}(a) == coil::Hash<SV>{}(SV(a))) + std::to_string(int(a.cStr()[a.length()])) + ";";
        }
        observed(s);
    }

    void holders()
    {
        std::string s;
        int steps = depth(5, 6);
        {
            coil::Optional<Tracked> o[2];
            coil::Expected<Tracked, S> e[2] = {Tracked{0}, Tracked{0}};
            for (int i = 0; i < steps; i++)
            {
                int op = mc::choose(11);
                if (op == 10)
                    break;
                MC_OP("operation %d", op);
                switch (op)
                {
                case 0: o[0] = Tracked{i + 1}; break;
                case 1: o[1] = o[0]; break;
                case 2: { auto t = std::move(o[0]); o[0] = std::move(o[1]); o[1] = std::move(t); break; }
                case 3: o[0] = {}; break;
                case 4: { auto& same = o[0]; o[0] = same; break; }
                case 5: e[0] = Tracked{i + 1}; break;
                case 6: e[0] = coil::makeUnexpected(coil::sprintf("an error text long enough %d", i)); break;
                case 7: e[1] = e[0]; break;
                case 8: { auto t = std::move(e[0]); e[0] = std::move(e[1]); e[1] = std::move(t); break; }
                case 9: { auto& same = e[0]; e[0] = same; break; }
                }
                for (auto& x : o)
                    s += x ? std::to_string(x->get()) + " " : "none ";
                for (auto& x : e)
                    s += x ? std::to_string(x->get()) + " " : cu::str(x.error()) + " ";
                s += (o[0] == o[1] ? "=;" : "#;");
            }
        }
        s += std::to_string(Tracked::alive);
        observed(s);
    }
}
