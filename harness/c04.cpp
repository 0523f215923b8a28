// C04: no input string can crash the interpreter or half-execute a command.
#include "interp.h"

using S = coil::String;
using SV = coil::StringView;

static ip::Table& table()
{
    static ip::Table* t = [] {
        auto* t = new ip::Table;
        auto def = [t](char const* name, auto fill) {
            coil::Vector<coil::AnyFunctor> fs;
            std::vector<ip::Func> model;
            fill(fs, model);
            t->bindings[name] = std::move(fs);
            t->model[name] = model;
        };
        def("f", [](auto& fs, auto& m) {
            ip::overload<int, true>(fs, m, "f0");
            ip::overload<std::string, false, int>(fs, m, "f1");
            ip::overload<void, true, S, bool>(fs, m, "f2");
            ip::overload<std::string, true, std::vector<int>, std::optional<int>, coil::Value>(fs, m, "f3");
        });
        def("g", [](auto& fs, auto& m) {
            ip::overload<std::string, false, std::string_view>(fs, m, "g1");
            ip::overload<std::string, false, unsigned char, double>(fs, m, "g2");
            ip::overload<void, false, std::optional<std::string>, std::vector<SV>, float, long long>(fs, m, "g4");
        });
        def("a b", [](auto& fs, auto& m) { ip::overload<int, false>(fs, m, "ab0"); });
        def("1", [](auto& fs, auto& m) { ip::overload<std::string, true, std::vector<std::string>>(fs, m, "one"); });
        def("", [](auto& fs, auto& m) { ip::overload<int, true>(fs, m, "empty"); });
        def("e", [](auto&, auto&) {}); // a name without functions
        return t;
    }();
    return *t;
}

// well-formed calls afterwards still work
static void probe(int i)
{
    static char const* const probes[] = {"f", "f 1", "g 1 2", "f x (true)"};
    ip::execute(table(), probes[i % 4]);
}

static void run(std::string const& line)
{
    ip::execute(table(), line);
    probe(static_cast<int>(line.size()));
}

static void strings()
{
    run(chooseString("f1 =,('-\"", mc::thorough() ? (mc::asan() ? 6 : 8) : (mc::asan() ? 5 : 7)));
}

static void afterName()
{
    static char const* const heads[] = {"f ", "f 1 ", "g ", "1 ", "'a b'"};
    std::string h = heads[mc::choose(5)];
    run(h + chooseString("12 =,('.\"", mc::thorough() ? (mc::asan() ? 6 : 7) : (mc::asan() ? 4 : 6)));
}

static void tokens()
{
    static char const* const toks[] = {"f", "g", "1", "-7", "true", "(1 2)", "'a b'", "x", "=", "e", "()", "''", "300", "1.5", "1,x", "(", "'", "nan", "99999999999999999999"};
    std::string line;
    int len = mc::choose((mc::thorough() ? (mc::asan() ? 5 : 6) : (mc::asan() ? 4 : 5)) + 1);
    for (int i = 0; i < len; i++)
    {
        if (i)
            line += " ";
        line += i == 0 ? toks[mc::choose(10)] : toks[mc::choose(len > 4 && !mc::thorough() ? 13 : 19)];
    }
    run(line);
}

static void bytes()
{
    static char const* const templates[] = {"?", "f ?", "f 1?", "f ?1", "?f", "f? 1", "f (?) ? ?", "f x ?", "g ?", "g '?'", "g 1 ?", "g k=? 1", "g ?=k 1", "1 (?,?)", "f ?#", "f 1?# #1", "?#", "g ?#", "g 2# ?1", "1 '?'#"};
    int t = mc::choose(20);
    int b1 = mc::choose(256);
    std::string tpl = templates[t];
    bool two = tpl.find('#') != std::string::npos && (!mc::asan() || mc::thorough() || b1 % 16 == 0 || b1 > 0x70);
    int b2 = two ? mc::choose(256) : ' ';
    std::string line;
    for (char c : tpl)
        line += c == '?' ? static_cast<char>(b1) : c == '#' ? static_cast<char>(b2) : c;
    run(line);
}

static void sizes()
{
    static char const* const heads[] = {"", "f ", "g 1 2 ", "1 "};
    int head = mc::choose(4);
    int kind = mc::choose(18);
    size_t n = chooseLength(mc::thorough() ? 600 : 140, mc::asan() && !mc::thorough() ? 1030 : 9000);
    run(heads[head] + sizedLine(kind, n));
}

// long pieces in every place that ends up in a message
static void longMessages()
{
    int kind = mc::choose(10);
    size_t n = chooseLength(mc::thorough() ? 1200 : 300, mc::asan() && !mc::thorough() ? 4100 : 70000);
    std::string t = text(n);
    std::string line;
    switch (kind)
    {
    case 0: line = t; break;
    case 1: line = "f " + t; break;
    case 2: line = "f (" + spaced(n) + ")"; break;
    case 3: line = "f " + rep("1", n); break;
    case 4: line = "f (1," + t + ") 1 " + t; break;
    case 5: line = "f '' '" + t + "' 1"; break;
    case 6: line = "g " + t + " " + rep("9", n); break;
    case 7: line = "g '' " + t + " 1e" + rep("0", n) + " " + rep("0", n) + "7"; break;
    case 8: line = "g (" + rep("x ", n) + ")"; break;
    default: line = "f" + rep(" 1", n); break;
    }
    run(line);
}

// a pre-parsed input of any shape
static void parsedInputs()
{
    static char const* const names[] = {"f", "g", "", "e", "zz", "1"};
    static char const* const texts[] = {"1", "", "true", "x y"};
    ref::Input in;
    in.name = names[mc::choose(6)];
    int n = mc::choose(4);
    for (int i = 0; i < n; i++)
    {
        ref::Subvalues v;
        int k = mc::choose(3);
        for (int j = 0; j < k; j++)
            v.push_back(texts[mc::choose(n == 3 ? 3 : 4)]);
        in.args.push_back(v);
    }
    int named = mc::choose(2);
    for (int i = 0; i < named; i++)
        in.named.push_back({"k", {"v"}});
    std::string shown = cu::show(in);
    MC_OP("execute input %s", shown.c_str());
    ip::Outcome want = ip::expected(table().model, in), have;
    {
        coil::ExecutionInput ci;
        ci.name = cu::view(in.name);
        for (auto& a : in.args)
        {
            coil::Value v;
            for (auto& s : a)
                v.subvalues.pushBack(cu::view(s));
            ci.arguments.pushBack(v);
        }
        for (auto& a : in.named)
            ci.namedArguments.pushBack(coil::NamedValue{cu::view(a.first), coil::Value(cu::view(a.second[0]))});
        coil::ExecutionResult r = mc::choose(2) ? table().bindings.execute(ci) : table().bindings.execute(std::move(ci));
        have = ip::observe(r);
    }
    ip::compare(want, have, shown);
    probe(n);
}

// bindings that are fresh, emptied or without any command
static void states()
{
    static char const* const lines[] = {"", " ", "f", "f 1", "=", "(", "'", "''", "a=b", "f =", "()"};
    ip::Table t;
    int s = mc::choose(4);
    auto add = [&] {
        coil::Vector<coil::AnyFunctor> fs;
        std::vector<ip::Func> m;
        ip::overload<int, true>(fs, m, "f0");
        ip::overload<int, true, int>(fs, m, "f1");
        t.bindings["f"] = std::move(fs);
        t.model["f"] = m;
    };
    if (s)
        add();
    if (s == 2)
        t.bindings.clear(), t.model.clear();
    if (s == 3)
        t.bindings["f"] = nullptr, t.model.clear();
    for (int i = 0; i < (mc::thorough() ? 4 : 3); i++)
        ip::execute(t, lines[mc::choose(11)]);
    add();
    ip::execute(t, "f 1");
}

// odd words everywhere
static void oddTexts()
{
    static char const* const templates[] = {"?", "'?'", "? 1", "f ?", "f '?'", "g '?' ?", "1 (? ?)", "f 1 2 3 4 5 ?", "f k=? ?", "f '?'=1 x", "g '?'", "f '?' '?' '?'", "1 ('?' '?')", "g ? '?' ? ?"};
    std::string tpl = templates[mc::choose(14)], line;
    std::string const& a = oddWord();
    std::string const& b = mc::asan() && !mc::thorough() ? a : oddWord();
    bool first = true;
    for (char c : tpl)
        if (c == '?')
            line += first ? a : b, first = false;
        else
            line += c;
    run(line);
}

MC_MAIN({"strings", strings}, {"odd_texts", oddTexts}, {"after_name", afterName}, {"tokens", tokens}, {"bytes", bytes}, {"sizes", sizes}, {"long_messages", longMessages}, {"parsed_inputs", parsedInputs}, {"table_states", states})
