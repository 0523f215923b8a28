#include "c24.h"

// every kind of callable with many lists of parameters
namespace c24
{
    void addLists()
    {
        using coil::Context;
        using coil::String;
        using coil::StringView;
#define LIST(R, ...) Register<R, __VA_ARGS__>::functions("(" #__VA_ARGS__ ")")
        Register<int>::functions("()");
        LIST(void, Context);
        LIST(int, Context const&);
        LIST(void, int);
        LIST(int, Context, bool const&);
        LIST(int, String);
        LIST(int, Context, String const&);
        LIST(int, String&&);
        LIST(int, std::unique_ptr<int>);
        LIST(int, Context, std::unique_ptr<int>&&);
        LIST(int, User const&);
        LIST(int, std::string_view, User);
        LIST(int, Context, StringView, std::string const&);
        LIST(void, std::vector<int>, std::optional<bool> const&);
        LIST(int, Context const&, std::vector<String> const&, std::optional<User>);
        LIST(int, char, signed char, unsigned char);
        LIST(int, short, unsigned short, unsigned);
        LIST(void, Context, long, unsigned long, long long);
        LIST(int, unsigned long long, float, double, long double);
        LIST(int, Context, bool, int const&, String&&, std::string);
    }
}
