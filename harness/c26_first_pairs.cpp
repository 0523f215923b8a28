#include "c26.h"

// the first half of the types beside every other type
namespace c26
{
    void firstPair(int type, int other, int x, int y)
    {
        with(type, First{}, [&](auto* p) { pairOf<std::remove_pointer_t<decltype(p)>>(other, x, y); });
    }
}
