// C26: types taught to the library by its user work wherever a built-in type does.
#include "c26.h"

using namespace c26;

static void parameter(int type, int position, Subs const& subs, int way)
{
    if (type < First::size)
        firstParameter(type, position, subs, way);
    else
        secondParameter(type - First::size, position, subs, way);
}

// every type in every position, given every list of texts
static void parameters()
{
    Forget atTheEnd;
    int type = mc::choose(All::size);
    int position = mc::choose(positions);
    int way = mc::choose(2);
    bool big = mc::thorough() || !mc::asan();
    Subs subs = chooseSubs(big ? 3 : 2, mc::thorough() ? 11 : 10);
    if (way && !spellable(subs))
        way = 0;
    parameter(type, position, subs, way);
}

static void namedArguments()
{
    Forget atTheEnd;
    int type = mc::choose(All::size);
    int form = mc::choose(3);
    int way = mc::choose(2);
    bool present = mc::flip();
    Subs subs;
    if (present)
        subs = chooseSubs(mc::thorough() ? 3 : 2, 11);
    with(type, All{}, [&](auto* p) { asNamed<std::remove_pointer_t<decltype(p)>>(form, present, subs, way); });
}

static void pairs()
{
    Forget atTheEnd;
    int type = mc::choose(All::size);
    int other = mc::choose(All::size);
    int x = mc::choose(4);
    int y = mc::choose(4);
    if (type < First::size)
        firstPair(type, other, x, y);
    else
        secondPair(type - First::size, other, x, y);
}

static void variables()
{
    Forget atTheEnd;
    int type = mc::choose(All::size);
    storedValues(type, mc::choose(6));
}

// what a converter says of its argument reaches the result as it is, whatever it says
static void messages()
{
    Forget atTheEnd;
    size_t n = oddWords().size();
    std::string word = "!" + oddWords()[size_t(mc::choose(int(n)))];
    int position = mc::choose(positions + 3);
    Subs subs{word};
    if (position >= positions)
        asNamed<Handle>(0, true, subs, 0);
    else
    {
        int shape = mc::choose(3);
        if (shape == 1)
            subs.insert(subs.begin(), "fine");
        if (shape == 2)
            subs.push_back(oddWords()[size_t(mc::choose(int(n)))]);
        parameter(4, position, subs, 0);
    }
}

static void values()
{
    Forget atTheEnd;
    size_t n = oddWords().size();
    std::string word = oddWords()[size_t(mc::choose(int(n)))];
    int type = mc::choose(All::size);
    int position = mc::choose(positions);
    parameter(type, position, {word}, 0);
}

static void sizes()
{
    Forget atTheEnd;
    int type = mc::choose(7);
    int position = 3 + mc::choose(8);
    size_t n = chooseLength(mc::thorough() ? 260 : 70, mc::asan() && !mc::thorough() ? 600 : 5000);
    static char const* const good[][2] = {{"red", "blue"}, {"low", "high"}, {"a", "c"}, {"h", "i"}, {"f", "g"}, {"l", "m"}, {"s", "t"}};
    Subs s;
    int bad = mc::choose(3); // none, the first, the last
    for (size_t i = 0; i < n; i++)
        s.push_back((bad == 1 && i == 0) || (bad == 2 && i + 1 == n) ? "-bad" : good[type][i % 3 == 1]);
    static int const some[] = {0, 1, 2, 4, 5, 6, 7};
    parameter(some[type], position, s, 0);
}

MC_MAIN({"parameters", parameters}, {"named_arguments", namedArguments}, {"pairs", pairs}, {"variables", variables}, {"messages", messages}, {"values", values}, {"sizes", sizes})
