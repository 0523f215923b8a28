// Compiled on its own when the harness of C24 does not build: if this builds, the harness and the library
// agree on everything but the bindings themselves, so a callable of the property is rejected.
#include "c24.h"

void accepted(coil::Bindings& b)
{
    b["f"] = [](int a, coil::StringView s) { return a + int(s.length()); };
    int i = 0;
    b.execute("f 1 2");
    (void)i;
}
