#include "c26.h"

// the second half of the types beside every other type
namespace c26
{
    void secondPair(int type, int other, int x, int y)
    {
        with(type, Second{}, [&](auto* p) { pairOf<std::remove_pointer_t<decltype(p)>>(other, x, y); });
    }
}
