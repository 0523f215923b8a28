// Compiled on its own when the harness of C23 does not build: if this builds, the harness and the library
// agree on everything but the bindings themselves, so a callable or a parameter of the property is rejected.
#include "cu.h"
#include "interp.h"
#include "lexcheck.h"
#include "tracked.h"

void accepted(coil::Bindings& b)
{
    int captured = 3;
    b["f"] = [captured](int a, coil::StringView s, std::string t, std::vector<int> v) { return captured + a + int(s.length() + t.size() + v.size()); };
    b["g"] = coil::overloaded([] {}, [](coil::Context c, coil::Value const& v) { c.reportError(coil::errors::createGenericError("int", v).value()); });
    coil::AnyFunctor functor = coil::detail::createAnyFunctor([](int) {});
    (void)functor.arity();
    b.execute("f 1 2 3 4");
}
