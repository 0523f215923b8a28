// C09: the hash map agrees with a plain map after any sequence of operations.
#include "cu.h"
#include "lexcheck.h"

#include <map>

namespace
{
    int hashPattern = 0;
    size_t hashOf(int k)
    {
        size_t n = static_cast<size_t>(k);
        switch (hashPattern)
        {
        case 0: return n;
        case 1: return 0;
        case 2: return n % 2;
        case 3: return n % 3 == 0 ? 1 : n;
        case 4: return ~size_t(0) - n;
        case 5: return n * 8;
        case 6: return n < 3 ? 7 : 8;
        default: return n * 0x9e3779b97f4a7c15ull;
        }
    }

    struct Key
    {
        int id;
        coil::String text; // owned, so that a wrong copy or move shows
        bool operator==(Key const& r) const { return id == r.id; }
    };
    Key key(int id) { return Key{id, coil::sprintf("key %d with a text long enough", id)}; }

    struct Lookup // find and erase by another type
    {
        int id;
    };
    bool operator==(Key const& k, Lookup const& l) { return k.id == l.id; }
}

namespace coil
{
    template<>
    struct Hash<Key>
    {
        size_t operator()(Key const& k) { return hashOf(k.id); }
    };
    template<>
    struct Hash<Lookup>
    {
        size_t operator()(Lookup const& k) { return hashOf(k.id); }
    };
}

namespace
{
    using Map = coil::UnorderedMap<Key, std::string>;
    using Model = std::map<int, std::string>;

    void checkMap(Map& m, Model const& model, int keys, char const* which)
    {
        MC_CHECK(m.size() == model.size(), "%s has size %zu instead of %zu", which, m.size(), model.size());
        std::map<int, int> visits;
        size_t steps = 0;
        for (auto it = m.begin(); it != m.end(); ++it)
        {
            MC_CHECK(++steps <= model.size(), "%s: iteration visits more than %zu entries", which, model.size());
            auto want = model.find(it->key().id);
            MC_CHECK(want != model.end() && (*it).value() == want->second, "%s: iteration visits %d=%s", which, it->key().id, it->value().c_str());
            MC_CHECK(it->key().text == key(it->key().id).text, "%s: key %d has text %s", which, it->key().id, it->key().text.cStr());
            MC_CHECK(++visits[it->key().id] == 1, "%s: iteration visits %d twice", which, it->key().id);
        }
        Map const& c = m;
        size_t csteps = 0;
        for (auto const& kv : c)
        {
            csteps++;
            auto want = model.find(kv.key().id);
            MC_CHECK(want != model.end() && kv.value() == want->second, "%s: const iteration visits %d=%s", which, kv.key().id, kv.value().c_str());
        }
        MC_CHECK(csteps == model.size() && visits.size() == model.size(), "%s: iteration visits %zu of %zu entries", which, csteps, model.size());
        for (int k = 0; k < keys; k++)
        {
            auto want = model.find(k);
            auto it = m.find(Lookup{k});
            auto cit = c.find(key(k));
            MC_CHECK((it != m.end()) == (want != model.end()), "%s: key %d is %sfound", which, k, it != m.end() ? "" : "not ");
            MC_CHECK((cit != c.end()) == (want != model.end()), "%s: key %d is %sfound (const)", which, k, cit != c.end() ? "" : "not ");
            if (want != model.end())
                MC_CHECK(it->value() == want->second && cit->value() == want->second && it->key().id == k && cit->key().id == k, "%s: key %d has value %s instead of %s", which, k, it->value().c_str(), want->second.c_str());
        }
    }

    void insert(Map& m, Model& model, int k, std::string const& v)
    {
        MC_OP("insertOrAssign(%d, %s)", k, v.c_str());
        auto it = m.insertOrAssign(key(k), v);
        model[k] = v;
        MC_CHECK(it != m.end() && it->key().id == k && it->value() == v, "insertOrAssign returned an iterator to another entry");
    }
    void erase(Map& m, Model& model, int k)
    {
        MC_OP("erase(%d)", k);
        if (k % 2)
            m.erase(Lookup{k});
        else
            m.erase(key(k));
        model.erase(k);
    }

    uint64_t hashModel(Model const& m)
    {
        uint64_t h = 3;
        for (auto& [k, v] : m)
            h = mc::mix(mc::mix(h, uint64_t(k)), mc::hashStr(v));
        return h;
    }

    size_t const bucketMenu[] = {1, 0, 2, 3, 7, 16};
    float const loadMenu[] = {1.0f, 0.5f, 2.0f, 0.1f, 8.0f, 0.0f};

    Map makeMap(int buckets, int load)
    {
        MC_LOG("map with %zu buckets, load factor %g, hash pattern %d", bucketMenu[buckets], double(loadMenu[load]), hashPattern);
        if (buckets == 0 && load == 0)
            return Map{};
        return Map{bucketMenu[buckets], loadMenu[load]};
    }
}

// every history of inserting, assigning, erasing and clearing over few keys, for every hash pattern
static void histories()
{
    hashPattern = mc::choose(8);
    bool big = mc::thorough();
    int shape = mc::choose(big ? 36 : 8);
    static int const quickShapes[8][2] = {{0, 0}, {1, 0}, {2, 1}, {3, 2}, {4, 0}, {0, 4}, {5, 3}, {1, 5}};
    Map m = big ? makeMap(shape / 6, shape % 6) : makeMap(quickShapes[shape][0], quickShapes[shape][1]);
    Model model;
    int keys = 4;
    int depth = big ? (mc::asan() ? 5 : 6) : (mc::asan() ? 4 : 5);
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(keys * 2 + 2);
        if (op == 0)
            break;
        op--;
        if (op < keys)
            insert(m, model, op, "v" + std::to_string(i));
        else if (op < keys * 2)
            erase(m, model, op - keys);
        else
        {
            MC_OP("clear");
            m.clear();
            model.clear();
        }
        checkMap(m, model, keys + 1, "the map");
        mc::state(mc::mix(hashModel(model), uint64_t(shape * 8 + hashPattern)));
    }
    mc::outcome(hashModel(model));
}

// longer: each step inserts the key if it is absent and erases it if it is present
static void toggles()
{
    hashPattern = mc::choose(8);
    int keys = 5;
    int shape = mc::choose(mc::thorough() ? 12 : 4);
    static int const shapes[12][2] = {{0, 0}, {2, 0}, {3, 2}, {1, 1}, {4, 0}, {0, 3}, {0, 4}, {5, 0}, {1, 5}, {2, 4}, {3, 1}, {4, 5}};
    Map m = makeMap(shapes[shape][0], shapes[shape][1]);
    Model model;
    int depth = mc::thorough() ? (mc::asan() ? 7 : 9) : (mc::asan() ? 5 : 7);
    for (int i = 0; i < depth; i++)
    {
        int k = mc::choose(keys);
        if (model.count(k))
            erase(m, model, k);
        else
            insert(m, model, k, "v" + std::to_string(i));
        mc::state(mc::mix(hashModel(model), uint64_t(shape * 8 + hashPattern) * 100 + uint64_t(i)));
    }
    checkMap(m, model, keys + 1, "the map");
    mc::outcome(hashModel(model));
}

// every erase order of n entries, for every hash pattern
static void eraseOrders()
{
    hashPattern = mc::choose(8);
    int shape = mc::choose(4);
    static int const shapes[4][2] = {{0, 0}, {3, 4}, {4, 2}, {1, 3}};
    Map m = makeMap(shapes[shape][0], shapes[shape][1]);
    Model model;
    int n = mc::thorough() ? 8 : mc::asan() ? 5 : 7;
    std::vector<int> left;
    for (int i = 0; i < n; i++)
    {
        insert(m, model, i, "v" + std::to_string(i));
        left.push_back(i);
    }
    while (!left.empty())
    {
        size_t k = size_t(mc::choose(int(left.size())));
        erase(m, model, left[k]);
        left.erase(left.begin() + long(k));
        checkMap(m, model, n, "the map");
    }
    mc::outcome(hashModel(model));
    mc::state(hashModel(model));
}

// copies, assignments and moves are independent
static void copies()
{
    hashPattern = mc::choose(mc::thorough() ? 4 : 2);
    int shape = mc::choose(mc::thorough() ? 3 : 2);
    static int const shapes[3][2] = {{0, 0}, {3, 2}, {1, 1}};
    Map a = makeMap(shapes[shape][0], shapes[shape][1]);
    Map b;
    Model ma, mb;
    int keys = 3;
    int depth = mc::thorough() ? (mc::asan() ? 5 : 6) : (mc::asan() ? 4 : 5);
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(12);
        std::string v = "v" + std::to_string(i);
        if (op < 3)
            insert(a, ma, op, v);
        else if (op < 5)
            erase(a, ma, op - 3);
        else if (op < 7)
            insert(b, mb, op - 4, v);
        else if (op == 7)
            erase(b, mb, 1);
        else if (op == 8)
        {
            MC_OP("b = a");
            b = a;
            mb = ma;
        }
        else if (op == 9)
        {
            MC_OP("a = copy of b");
            Map c{b};
            a = std::move(c);
            ma = mb;
        }
        else if (op == 10)
        {
            MC_OP("b = move(a); a = new map");
            b = std::move(a);
            a = Map{};
            mb = ma;
            ma.clear();
        }
        else
        {
            MC_OP("change a copy of a and drop it");
            Map c{a};
            Model mcopy = ma;
            insert(c, mcopy, 0, "changed");
            insert(c, mcopy, 7, "added");
            erase(c, mcopy, 2);
            checkMap(c, mcopy, 8, "the copy");
        }
        checkMap(a, ma, keys + 1, "a");
        checkMap(b, mb, keys + 1, "b");
        mc::state(mc::mix(hashModel(ma), hashModel(mb) + uint64_t(shape * 8 + hashPattern)));
    }
    mc::outcome(mc::mix(hashModel(ma), hashModel(mb)));
}

// values that only move, changed through iterators
static void moveOnly()
{
    hashPattern = mc::choose(4);
    using P = std::unique_ptr<std::string>;
    coil::UnorderedMap<Key, P> m{size_t(mc::choose(3)), 1.0f};
    Model model;
    int depth = mc::thorough() ? 6 : 5;
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(7);
        std::string v = "v" + std::to_string(i);
        if (op < 3)
        {
            MC_OP("insertOrAssign(%d)", op);
            m.insertOrAssign(key(op), P(new std::string(v)));
            model[op] = v;
        }
        else if (op < 6)
        {
            MC_OP("erase(%d)", op - 3);
            m.erase(Lookup{op - 3});
            model.erase(op - 3);
        }
        else
        {
            MC_OP("change all values");
            for (auto& kv : m)
            {
                *kv.value() += "+";
                model[kv.key().id] += "+";
            }
        }
        MC_CHECK(m.size() == model.size(), "size %zu instead of %zu", m.size(), model.size());
        for (int k = 0; k < 4; k++)
        {
            auto it = m.find(Lookup{k});
            MC_CHECK((it != m.end()) == (model.count(k) == 1), "key %d is %sfound", k, it != m.end() ? "" : "not ");
            if (model.count(k))
                MC_CHECK(it->value() && *it->value() == model[k], "key %d has another value", k);
        }
        mc::state(mc::mix(hashModel(model), uint64_t(hashPattern)));
    }
    mc::outcome(hashModel(model));
}

// string keys as the command table uses them, looked up by view
static void stringKeys()
{
    static char const* const names[] = {"ab", "bA", "a", "", "abab"};
    coil::UnorderedMap<coil::String, coil::String> m;
    std::map<std::string, std::string> model;
    int depth = mc::thorough() ? 7 : 5;
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(11);
        if (op < 5)
        {
            MC_OP("insertOrAssign(%s)", names[op]);
            m.insertOrAssign(coil::String(names[op]), coil::sprintf("v%d", i));
            model[names[op]] = "v" + std::to_string(i);
        }
        else if (op < 10)
        {
            MC_OP("erase(%s)", names[op - 5]);
            m.erase(coil::StringView(names[op - 5]));
            model.erase(names[op - 5]);
        }
        else
        {
            MC_OP("clear");
            m.clear();
            model.clear();
        }
        uint64_t h = 1;
        for (auto n : names)
        {
            auto it = m.find(coil::StringView(n));
            MC_CHECK((it != m.end()) == (model.count(n) == 1), "key \"%s\" is %sfound", n, it != m.end() ? "" : "not ");
            if (model.count(n))
                MC_CHECK(cu::str(it->value()) == model[n] && cu::str(it->key()) == n, "key \"%s\" has value %s", n, it->value().cStr());
            h = mc::mix(h, model.count(n) ? mc::hashStr(model[n]) : 0);
        }
        MC_CHECK(m.size() == model.size(), "size %zu instead of %zu", m.size(), model.size());
        mc::state(h);
        mc::outcome(h);
    }
}

// every size, filled and emptied in several orders, for every shape
static void sizes()
{
    hashPattern = mc::choose(8);
    int load = mc::choose(6), buckets = mc::choose(mc::thorough() ? 6 : 3);
    bool heavy = hashPattern == 1 || hashPattern == 6 || hashPattern == 2;
    int order = mc::choose(5);
    size_t n = chooseLength(mc::thorough() ? 130 : mc::asan() ? 20 : 40, heavy ? 70 : mc::thorough() ? 1030 : 140);
    Map m = makeMap(buckets, load);
    Model model;
    int keys = int(n);
    for (int i = 0; i < keys; i++)
    {
        insert(m, model, i, std::to_string(i));
        if (keys < 18)
            checkMap(m, model, keys + 1, "the map");
    }
    checkMap(m, model, keys + 1, "the map");
    if (order == 4) // cleared when full, then filled again with other keys first
    {
        MC_OP("clear");
        m.clear();
        model.clear();
        checkMap(m, model, keys + 1, "the cleared map");
        for (int i = keys - 1; i >= 0; i -= 2)
            insert(m, model, i, "after clear");
        checkMap(m, model, keys + 1, "the map");
    }
    for (int i = 0; i < keys; i++)
        if (i % 3 == 0)
            insert(m, model, i, "again");
    for (int s = 0; s < keys; s++)
    {
        int i = order == 0 ? s : order == 1 ? keys - 1 - s : order == 2 || order == 4 ? (s % 2 ? s / 2 : keys - 1 - s / 2) : s * 2;
        if (i >= keys)
            break;
        erase(m, model, i);
        if (keys < 18 || s % 16 == 0)
            checkMap(m, model, keys + 1, "the map");
    }
    checkMap(m, model, keys + 1, "the map");
    for (int i = 0; i < keys; i += 2)
        insert(m, model, i, "refilled");
    checkMap(m, model, keys + 1, "the map");
    m.clear();
    model.clear();
    checkMap(m, model, keys + 1, "the cleared map");
    insert(m, model, keys, "last");
    checkMap(m, model, keys + 1, "the map");
    mc::outcome(mc::mix(uint64_t(n), uint64_t(order)));
    mc::state(mc::mix(uint64_t(n * 8) + uint64_t(order), uint64_t(hashPattern * 100 + load * 10 + buckets)));
}

// so many entries that narrow indices would not do
static void large()
{
    static int const patterns[] = {0, 5, 4, 7};
    static size_t const counts[] = {4095, 4097, 32769, 65535, 65536, 65537, 66000};
    hashPattern = patterns[mc::choose(mc::thorough() ? 4 : 2)];
    size_t n = counts[mc::choose(mc::asan() ? 2 : 7)];
    int order = mc::choose(2);
    Map m;
    Model model;
    MC_OP("%zu entries, hash pattern %d, order %d", n, hashPattern, order);
    for (size_t i = 0; i < n; i++)
    {
        auto it = m.insertOrAssign(key(int(i)), std::string{char('a' + i % 7)});
        MC_CHECK(it != m.end() && it->key().id == int(i), "insertOrAssign returned an iterator to another entry");
        model[int(i)] = std::string{char('a' + i % 7)};
    }
    checkMap(m, model, int(n) + 1, "the map");
    for (size_t s = 0; s < n; s += order ? 1 : 3)
    {
        int i = int(order ? n - 1 - s : s);
        if (order && i % 5 == 0)
            continue;
        m.erase(Lookup{i});
        model.erase(i);
    }
    checkMap(m, model, int(n) + 1, "the map after erasing");
    for (size_t i = 0; i < n; i += 2)
        insert(m, model, int(i), "z");
    checkMap(m, model, int(n) + 1, "the refilled map");
    Map copy{m};
    m.clear();
    checkMap(copy, model, int(n) + 1, "the copy");
    checkMap(m, Model{}, int(n) + 1, "the cleared map");
    mc::outcome(mc::mix(uint64_t(n), uint64_t(order)));
    mc::state(mc::mix(uint64_t(n * 2) + uint64_t(order), uint64_t(hashPattern)));
}

// keys and values that are read from the map itself, while it changes
static void borrowed()
{
    hashPattern = mc::choose(8);
    int shape = mc::choose(mc::thorough() ? 8 : 4);
    static int const shapes[8][2] = {{0, 0}, {0, 3}, {3, 2}, {1, 1}, {2, 1}, {4, 0}, {5, 3}, {1, 5}};
    Map m = makeMap(shapes[shape][0], shapes[shape][1]);
    Model model;
    int keys = 3;
    int depth = mc::thorough() ? 6 : mc::asan() ? 4 : 5;
    for (int i = 0; i < depth; i++)
    {
        int op = mc::choose(keys * 2 + 4);
        if (op < keys)
            insert(m, model, op, "v" + std::to_string(i));
        else if (op < keys * 2)
        {
            int k = op - keys;
            auto it = m.find(key(k));
            if (it == m.end())
                continue;
            MC_OP("erase(find(%d)->key())", k);
            m.erase(it->key());
            model.erase(k);
        }
        else if (model.empty())
            continue;
        else
        {
            int first = m.begin()->key().id;
            auto last = m.begin();
            for (auto it = m.begin(); it != m.end(); ++it)
                last = it;
            int lastKey = last->key().id;
            switch (op - keys * 2)
            {
            case 0:
                MC_OP("erase(begin()->key())");
                m.erase(m.begin()->key());
                model.erase(first);
                break;
            case 1:
                MC_OP("insertOrAssign(begin()->key(), last value)");
                m.insertOrAssign(m.begin()->key(), last->value());
                model[first] = model[lastKey];
                break;
            case 2:
                MC_OP("insertOrAssign(new key, begin()->value())");
                m.insertOrAssign(key(keys), m.begin()->value());
                model[keys] = model[first];
                break;
            default:
                MC_OP("find(begin()->key()) and erase what a copy has");
                {
                    auto it = m.find(m.begin()->key());
                    MC_CHECK(it == m.begin(), "the first key is found elsewhere");
                    Map c{m};
                    m.erase(c.find(Lookup{lastKey})->key());
                    model.erase(lastKey);
                    checkMap(c, [&] { Model all = model; all[lastKey] = c.find(Lookup{lastKey})->value(); return all; }(), keys + 2, "the copy");
                }
            }
        }
        checkMap(m, model, keys + 2, "the map");
        mc::state(mc::mix(hashModel(model), uint64_t(shape * 8 + hashPattern)));
    }
    mc::outcome(hashModel(model));
}

MC_MAIN({"histories", histories}, {"large", large}, {"toggles", toggles}, {"erase_orders", eraseOrders}, {"copies", copies}, {"move_only_values", moveOnly}, {"string_keys", stringKeys}, {"sizes", sizes}, {"borrowed", borrowed})
