// C25: with C25_EXTERN the program compiles the library's templates once for all its sources (Extern.h)
#pragma once
#include "cu.h"

#define C25_EACH_TYPE(M)                                                                                                         \
    M(bool); M(char); M(signed char); M(unsigned char); M(short); M(unsigned short); M(int); M(unsigned); M(long); M(unsigned long); \
    M(long long); M(unsigned long long); M(float); M(double); M(long double); M(coil::String); M(std::string); M(std::string_view);   \
    M(std::vector<int>); M(std::optional<int>)
#define C25_EACH_SIGNATURE(M)                                                                                                                       \
    M(); M(coil::Context); M(int); M(short); M(double); M(long long); M(unsigned char); M(bool); M(coil::String); M(std::string); M(std::vector<int>); \
    M(coil::Context, int); M(coil::Context, double); M(coil::Context, coil::String); M(coil::Context, bool); M(int, int); M(short, unsigned long);     \
    M(short, short, short); M(std::optional<int>); M(std::string const&); M(coil::Context, std::string); M(coil::Context, std::vector<int>)

#ifdef C25_EXTERN
C25_EACH_TYPE(COIL_ARGUMENT_EXTERN_TEMPLATE);
C25_EACH_TYPE(COIL_NAMED_ARGS_EXTERN_TEMPLATE);
C25_EACH_TYPE(COIL_VARIABLE_EXTERN_TEMPLATE);
C25_EACH_SIGNATURE(COIL_FUNCTION_ARGS_EXTERN_TEMPLATE);
#endif
