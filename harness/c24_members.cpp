#include "c24.h"

// every kind of member function with many lists of parameters
namespace c24
{
    void addMemberReturns()
    {
#define ONE(...) Register<__VA_ARGS__, coil::Context, coil::StringView>::members("returning " #__VA_ARGS__)
        ONE(void);
        ONE(int&);
        ONE(int const*);
        ONE(std::string);
        ONE(User const&);
        ONE(coil::String*);
    }
    void addMemberLists()
    {
        using coil::Context;
        using coil::String;
        using coil::StringView;
#define LIST(R, ...) Register<R, __VA_ARGS__>::members("(" #__VA_ARGS__ ")")
        Register<int>::members("()");
        LIST(void, Context);
        LIST(int, int const&);
        LIST(int, Context, std::unique_ptr<int>);
        LIST(int, User const&, std::string_view);
        LIST(int, Context, std::vector<String> const&, std::optional<User>);
        LIST(int, unsigned char, long long, float, bool const&);
    }
}
