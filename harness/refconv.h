// Reference conversions: text of an argument to a canonical description of the value, or the error.
// Plain std code, written from the documented rules; shares nothing with the library.
#pragma once

#include "cu.h"

#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <type_traits>

namespace ref
{
    struct Conv
    {
        bool ok = false;
        std::string canon; // description of the value
        std::string error;
    };

    inline std::string join(Subvalues const& s, char const* sep = " ")
    {
        std::string r;
        for (size_t i = 0; i < s.size(); i++)
            r += (i ? sep : "") + s[i];
        return r;
    }

    inline std::string convError(Subvalues const& s, std::string const& type, std::string const& details = "")
    {
        std::string r = "Unable to convert '" + cut(join(s)) + "' to type '" + type + "'";
        if (!details.empty())
            r += ": " + cut(details);
        return r;
    }
    inline std::string countError(Subvalues const& s, std::string const& type, size_t expected = 1)
    {
        return convError(s, type, "Expected " + std::to_string(expected) + " subvalues, got " + std::to_string(s.size()));
    }

    template<typename T>
    std::string intName()
    {
        if (COIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS)
        {
            if (std::is_same_v<T, int8_t>) return "int8";
            if (std::is_same_v<T, uint8_t>) return "uint8";
            if (std::is_same_v<T, int16_t>) return "int16";
            if (std::is_same_v<T, uint16_t>) return "uint16";
            if (std::is_same_v<T, int32_t>) return "int32";
            if (std::is_same_v<T, uint32_t>) return "uint32";
            if (std::is_same_v<T, int64_t>) return "int64";
            if (std::is_same_v<T, uint64_t>) return "uint64";
        }
        if (std::is_same_v<T, char>) return "char";
        if (std::is_same_v<T, signed char>) return "signed char";
        if (std::is_same_v<T, unsigned char>) return "unsigned char";
        if (std::is_same_v<T, short>) return "short";
        if (std::is_same_v<T, unsigned short>) return "unsigned short";
        if (std::is_same_v<T, int>) return "int";
        if (std::is_same_v<T, unsigned>) return "unsigned int";
        if (std::is_same_v<T, long>) return "long";
        if (std::is_same_v<T, unsigned long>) return "unsigned long";
        if (std::is_same_v<T, long long>) return "long long";
        return "unsigned long long";
    }

    // decimal digits of any 128-bit number
    inline std::string decimal(__int128 v)
    {
        if (v == 0)
            return "0";
        bool neg = v < 0;
        unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
        std::string r;
        while (u)
        {
            r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
            u /= 10;
        }
        return neg ? "-" + r : r;
    }

    // white space* sign? digits+ within [lo, hi]; no minus sign when lo is 0
    inline std::optional<__int128> parseInteger(std::string const& s, __int128 lo, __int128 hi)
    {
        size_t i = 0;
        while (i < s.size() && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r')))
            i++;
        bool neg = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-'))
            neg = s[i++] == '-';
        if (neg && lo == 0)
            return std::nullopt;
        if (i == s.size())
            return std::nullopt;
        __int128 v = 0;
        __int128 const limit = static_cast<__int128>(1) << 66;
        for (; i < s.size(); i++)
        {
            if (s[i] < '0' || s[i] > '9')
                return std::nullopt;
            v = v * 10 + (s[i] - '0');
            if (v > limit)
                v = limit;
        }
        if (neg)
            v = -v;
        if (v < lo || v > hi)
            return std::nullopt;
        return v;
    }

    template<typename T, typename = void>
    struct Type;

    template<typename T>
    struct Type<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
    {
        static std::string name() { return intName<T>(); }
        static std::string canon(T v) { return decimal(v); }
        static Conv conv(Subvalues const& s)
        {
            if (s.size() != 1)
                return {false, "", countError(s, name())};
            auto v = parseInteger(s[0], std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
            if (!v)
                return {false, "", convError(s, name())};
            return {true, decimal(*v), ""};
        }
        static std::string text(T v) { return decimal(v); }
    };

    inline float strto(char const* s, char** e, float) { return std::strtof(s, e); }
    inline double strto(char const* s, char** e, double) { return std::strtod(s, e); }
    inline long double strto(char const* s, char** e, long double) { return std::strtold(s, e); }

    template<typename T>
    struct Type<T, std::enable_if_t<std::is_floating_point_v<T>>>
    {
        static std::string name() { return std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : "long double"; }
        static std::string canon(T v)
        {
            char b[80];
            if (v != v)
                return std::signbit(v) ? "-nan" : "nan";
            snprintf(b, sizeof b, "%La", static_cast<long double>(v));
            return b;
        }
        static Conv conv(Subvalues const& s)
        {
            if (s.size() != 1)
                return {false, "", countError(s, name())};
            std::string const& t = s[0];
            char* end = nullptr;
            errno = 0;
            T v = strto(t.c_str(), &end, T{});
            if (errno || t.empty() || end != t.c_str() + t.size())
                return {false, "", convError(s, name())};
            return {true, canon(v), ""};
        }
        static std::string text(T v)
        {
            if (v > -1e-6 && v < 1e-6)
                return "0";
            char b[80];
            if (std::is_same_v<T, long double>)
                snprintf(b, sizeof b, "%Lg", static_cast<long double>(v));
            else
                snprintf(b, sizeof b, "%g", static_cast<double>(v));
            return b;
        }
    };

    template<>
    struct Type<bool>
    {
        static std::string name() { return "bool"; }
        static std::string canon(bool v) { return v ? "yes" : "no"; }
        static Conv conv(Subvalues const& s)
        {
            if (s.size() != 1)
                return {false, "", countError(s, name())};
            std::string l;
            for (char c : s[0])
                l += c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c;
            if (l == "1" || l == "true")
                return {true, "yes", ""};
            if (l == "0" || l == "false")
                return {true, "no", ""};
            return {false, "", convError(s, name())};
        }
        static std::string text(bool v) { return v ? "true" : "false"; }
    };

    inline std::string plainStr(coil::String const& s) { return cu::str(s); }
    inline std::string plainStr(coil::StringView s) { return cu::str(s); }
    inline std::string plainStr(std::string const& s) { return s; }
    inline std::string plainStr(std::string_view s) { return std::string(s); }

    template<typename T>
    constexpr bool isStringV = std::is_same_v<T, coil::String> || std::is_same_v<T, coil::StringView> || std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>;

    template<typename T>
    struct Type<T, std::enable_if_t<isStringV<T>>>
    {
        static std::string name() { return "string"; }
        static std::string canon(T const& v) { return mc::show(plainStr(v)); }
        static Conv conv(Subvalues const& s)
        {
            if (s.size() != 1)
                return {false, "", countError(s, name())};
            return {true, mc::show(s[0]), ""};
        }
        static std::string text(T const& v) { return plainStr(v); }
    };

    template<>
    struct Type<coil::Value>
    {
        static std::string name() { return "coil::Value"; }
        static std::string canon(coil::Value const& v) { return cu::show(cu::subs(v)); }
        static Conv conv(Subvalues const& s) { return {true, cu::show(s), ""}; }
        static std::string text(coil::Value const& v) { return join(cu::subs(v)); }
    };

    template<typename T>
    struct Type<std::vector<T>>
    {
        static std::string name() { return "vector<" + Type<T>::name() + ">"; }
        static std::string canon(std::vector<T> const& v)
        {
            std::string r = "<";
            for (auto const& e : v)
                r += Type<T>::canon(e) + ";";
            return r + ">";
        }
        static Conv conv(Subvalues const& s)
        {
            std::string r = "<";
            for (auto& e : s)
            {
                Conv c = Type<T>::conv({e});
                if (!c.ok)
                    return {false, "", convError(s, name(), c.error)};
                r += c.canon + ";";
            }
            return {true, r + ">", ""};
        }
        static std::string text(std::vector<T> const& v)
        {
            std::string r = "[";
            for (size_t i = 0; i < v.size(); i++)
                r += (i ? ", " : "") + Type<T>::text(v[i]);
            return r + "]";
        }
    };

    template<typename T>
    struct Type<std::optional<T>>
    {
        static std::string name() { return "optional<" + Type<T>::name() + ">"; }
        static std::string canon(std::optional<T> const& v) { return v ? "some " + Type<T>::canon(*v) : "none"; }
        static Conv conv(Subvalues const& s)
        {
            if (s.empty() || (s.size() == 1 && s[0].empty()))
                return {true, "none", ""};
            Conv c = Type<T>::conv(s);
            if (!c.ok)
                return {false, "", convError(s, name(), c.error)};
            return {true, "some " + c.canon, ""};
        }
        static std::string text(std::optional<T> const& v) { return v ? Type<T>::text(*v) : ""; }
    };
}
