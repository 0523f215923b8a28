#include "c24.h"

// every kind of callable with every return type
namespace c24
{
    template<typename R>
    static void one(char const* name)
    {
        std::string label = std::string("returning ") + name;
        Register<R, int>::functions(label);
    }
    void addReturns()
    {
#define ONE(...) one<__VA_ARGS__>(#__VA_ARGS__)
        ONE(void);
        ONE(int);
        ONE(int const);
        ONE(int&);
        ONE(int const&);
        ONE(int*);
        ONE(int const*);
        ONE(int* const&);
        ONE(int const*&);
        ONE(bool);
        ONE(double);
        ONE(unsigned long long const&);
        ONE(coil::String);
        ONE(coil::String const&);
        ONE(coil::StringView);
        ONE(std::string);
        ONE(std::string*);
        ONE(char const*);
        ONE(User&);
        ONE(User const*);
        ONE(std::unique_ptr<int>);
        ONE(std::vector<int> const&);
        ONE(std::optional<std::string>);
    }
}
