#include "c26.h"

// variables and properties of every type
namespace c26
{
    void storedValues(int type, int kind)
    {
        int n = mc::thorough() ? 5 : mc::asan() ? 3 : 4;
        std::vector<std::vector<Subs>> calls;
        with(type, All{}, [&](auto* p) {
            using T = std::remove_pointer_t<decltype(p)>;
            auto menu = menuOf<T>();
            for (int i = 0; i < n; i++)
            {
                int c = mc::choose(5);
                if (c == 4)
                    calls.push_back({});
                else
                    calls.push_back({menu[size_t(c)]});
            }
            // the first value comes from the type's own converter
            Subs first;
            for (auto& m : menu)
                if (first.empty() && ref::Type<T>::conv(m).ok)
                    first = m;
            Input in;
            coil::Value v = in.value(first);
            auto initial = v.get<T>();
            if (!initial)
                return;
            stored<T>(kind, *coil::move(initial), calls);
        });
    }
}
