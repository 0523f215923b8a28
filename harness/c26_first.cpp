#include "c26.h"

// the first half of the types, in every position and beside every other type
namespace c26
{
    void firstParameter(int type, int position, Subs const& subs, int way)
    {
        with(type, First{}, [&](auto* p) { asParameter<std::remove_pointer_t<decltype(p)>>(position, subs, way); });
    }
}
