// C02: a lexer configured with other syntax characters obeys exactly that syntax.
#include "lexcheck.h"

static std::string const alphabet = std::string("a= ()',\xE9x");

static coil::DefaultLexer makeLexer(ref::Syntax const& x)
{
    // the characters are handed over in buffers that are overwritten and freed right after
    cu::Line groups{x.groups}, quotes{x.quotes}, separators{x.separators}, spaces{x.spaces};
    coil::DefaultLexer lexer{groups, quotes, separators, spaces};
    for (cu::Line* l : {&groups, &quotes, &separators, &spaces})
        memset(l->data.get(), 'a', l->size);
    return lexer;
}

static void logSyntax(ref::Syntax const& x)
{
    MC_LOG("lexer groups %s quotes %s separators %s spaces %s", mc::show(x.groups).c_str(), mc::show(x.quotes).c_str(), mc::show(x.separators).c_str(), mc::show(x.spaces).c_str());
}

// every combination of a menu of sets per category (overlaps and empty sets included)
static void allConfigurations()
{
    static char const* const groups[] = {"", "()", "'(", "\xE9", "a=", ",x"};
    static char const* const quotes[] = {"", "'", "(", "\xE9'", "x ", "="};
    static char const* const seps[] = {"", ",", " ", "'", "\xE9" "a", "=,"};
    static char const* const spaces[] = {"", " ", "=", "(", ",\xE9", "x a"};
    ref::Syntax x;
    x.groups = groups[mc::choose(6)];
    x.quotes = quotes[mc::choose(6)];
    x.separators = seps[mc::choose(6)];
    x.spaces = spaces[mc::choose(6)];
    std::string line = chooseString(alphabet, mc::thorough() ? (mc::asan() ? 4 : 5) : (mc::asan() ? 3 : 4));
    logSyntax(x);
    coil::DefaultLexer lexer = makeLexer(x);
    checkWith(lexer, x, line);
}

// selected configurations, longer lines over the characters each of them cares about
struct Selected
{
    ref::Syntax syntax;
    std::string alphabet;
};
static std::vector<Selected> const& selected()
{
    auto S = [](std::string g, std::string q, std::string s, std::string sp, std::string alpha) { return Selected{{g, q, s, sp}, alpha}; };
    static std::vector<Selected> v = {
        S("[]", "`", "/", "_", "a[]`/_= "),
        S("<>{}", "\"", ":", " ", "a<}\":= ("),
        S("\xAB\xBB", "\x84\x93", "\xB7", "\xA0", "a\xAB\xBB\x84\xB7\xA0="),
        S(std::string("\0", 1), "'", ",", " ", std::string("a\0',= ", 6)),
        S("()", std::string("'\0", 2), std::string(",\0", 2), " ", std::string("a\0',=( ", 7)),
        S("()", "'", std::string("\0", 1), std::string(" \0", 2), std::string("a\0'= ()", 7)),
        S("", "", "", "", "a'\"(), ="),
        S("()", "'\"", "", " ", "a,()'= "),
        S("()", "'\"", ",", "", "a,()'= "),
        S("0", "1", "2", "3", "a0123="),
        S("|", "|", "|", " ", "a|= ,"),
        S("abc", "def", "ghi", "jkl", "zadgj="),
        S("()", "'\"", ",;|", " \t\n\r\v\f", "a\v\f,('= "),
        S("\xff", "\xfe", "\xfd", "\xfc", "a\xff\xfe\xfd\xfc="),
        S("\x7f", "\x80", "\x81", "\x01", "a\x7f\x80\x81\x01="),
    };
    return v;
}

static void selectedConfigurations()
{
    Selected const& s = selected()[size_t(mc::choose(int(selected().size())))];
    std::string line = chooseString(s.alphabet, mc::thorough() ? (mc::asan() ? 6 : 8) : (mc::asan() ? 4 : 6));
    logSyntax(s.syntax);
    coil::DefaultLexer lexer = makeLexer(s.syntax);
    checkWith(lexer, s.syntax, line);
}

// every byte value as the only character of each category
static void everyByteConfigured()
{
    int category = mc::choose(4);
    char b = static_cast<char>(mc::choose(256));
    ref::Syntax x;
    std::string one(1, b);
    (category == 0 ? x.groups : category == 1 ? x.quotes : category == 2 ? x.separators : x.spaces) = one;
    static char const* const lines[] = {"f a?b c", "?f?", "f ?a b? c", "f (a?b) c", "f 'a?b' c", "f k?=?v", "f ?a?=?b?", "f a?", "f ?a", "a?b?c?d", "f ?a 'b' (c,d)?"};
    std::string line;
    for (char const* p = lines[mc::choose(11)]; *p; p++)
        line += *p == '?' ? b : *p;
    logSyntax(x);
    coil::DefaultLexer lexer = makeLexer(x);
    checkWith(lexer, x, line);
}

// sets of many characters: the k-th character of a set of n characters is recognised, others are not
static void largeSets()
{
    int category = mc::choose(4);
    size_t n = chooseLength(70, 200);
    ref::Syntax x;
    std::string set;
    for (size_t i = 0; i < n; i++)
        set += static_cast<char>(i < 127 - 'b' ? 'b' + i : 0x80 + (i - (127 - 'b')));
    (category == 0 ? x.groups : category == 1 ? x.quotes : category == 2 ? x.separators : x.spaces) = set;
    logSyntax(x);
    coil::DefaultLexer lexer = makeLexer(x);
    for (size_t k = 0; k <= n; k++)
    {
        char c = static_cast<char>(k < 127 - 'b' ? 'b' + k : 0x80 + (k - (127 - 'b')));
        std::string line = std::string("a a") + c + "a " + c + "a a" + c;
        checkWith(lexer, x, line);
        mc::validated();
    }
}

static void lengthsConfigured()
{
    ref::Syntax x{"[]", "`", "/", "_"};
    int kind = mc::choose(18);
    size_t n = chooseLength(mc::thorough() ? 400 : 130, mc::thorough() ? 70000 : 2100);
    std::string line = sizedLine(kind, n);
    for (char& c : line)
        c = c == '(' ? '[' : c == ')' ? ']' : c == '"' || c == '\'' ? '`' : c == ',' || c == ';' ? '/' : c == ' ' || c == '\t' ? '_' : c;
    coil::DefaultLexer lexer = makeLexer(x);
    checkWith(lexer, x, line);
}

// --- through bindings: setLexer at any moment ---
static int customAlive = 0;

struct CustomLexer : coil::Lexer
{
    int mode;
    explicit CustomLexer(int m) : mode(m) { customAlive++; }
    ~CustomLexer() override { customAlive--; }
    coil::Expected<coil::ExecutionInput, coil::String> parse(coil::StringView str) const override
    {
        if (mode == 0)
            return coil::makeUnexpected(coil::String("custom error"));
        // the whole line is the name of the command, or (mode 2) a single argument of f
        coil::ExecutionInput in;
        if (mode == 1)
            in.name = str;
        else
        {
            in.name = "f";
            in.arguments.pushBack(coil::Value{str});
        }
        return in;
    }
};

static void throughBindings()
{
    static char const* const lines[] = {"f a", "f_a", "f 'b c'", "f_`b c`", "f (a b) [c_d]", "f [a/b]", "", "f=", "g"};
    std::vector<std::string> calls;
    {
        auto owner = std::make_unique<coil::Bindings>();
        auto record = [&calls](std::vector<coil::Value> const& vs) {
            std::string s;
            for (auto& v : vs)
                s += cu::show(cu::subs(v));
            calls.push_back(s);
        };
        (*owner)["f"] = coil::overloaded([record]() { record({}); }, [record](coil::Value a) { record({a}); }, [record](coil::Value a, coil::Value b) { record({a, b}); });
        ref::Syntax syntax;
        int custom = -1;
        int steps = mc::thorough() ? 4 : 3;
        for (int i = 0; i < steps; i++)
        {
            int l = mc::choose(9);
            coil::Bindings& bindings = *owner;
            switch (l)
            {
            case 0: break; // keep the current lexer
            case 1:
                MC_OP("setLexer([] ` / _)");
                bindings.setLexer(coil::makeUnique<coil::DefaultLexer>("[]", "`", "/", "_"));
                syntax = {"[]", "`", "/", "_"};
                custom = -1;
                break;
            case 2:
                MC_OP("setLexer(default)");
                bindings.setLexer(coil::makeUnique<coil::DefaultLexer>());
                syntax = {};
                custom = -1;
                break;
            case 3:
            case 4:
            case 5:
                MC_OP("setLexer(custom %d)", l - 3);
                custom = l - 3;
                bindings.setLexer(coil::makeUnique<CustomLexer>(custom));
                break;
            case 6:
                MC_OP("setLexer(comma words)");
                bindings.setLexer(coil::makeUnique<coil::DefaultLexer>("", "", "", ","));
                syntax = {"", "", "", ","};
                custom = -1;
                break;
            case 7:
            {
                MC_OP("moved into new bindings");
                auto fresh = std::make_unique<coil::Bindings>(std::move(bindings));
                owner = std::move(fresh);
                break;
            }
            case 8:
            {
                MC_OP("moved into bindings with a lexer of their own");
                auto fresh = std::make_unique<coil::Bindings>();
                fresh->setLexer(coil::makeUnique<CustomLexer>(0));
                *fresh = std::move(bindings);
                owner = std::move(fresh);
                break;
            }
            }
            if (custom < 0 ? customAlive != 0 : customAlive != 1)
                mc::fail("%d custom lexers alive after installing %s", customAlive, custom < 0 ? "a default one" : "one");
            std::string text = lines[mc::choose(9)];
            MC_OP("execute %s", mc::show(text).c_str());
            ref::Input in;
            if (custom < 0)
                in = ref::parse(syntax, text);
            else if (custom == 0)
                in.error = "custom error";
            else if (custom == 1)
                in.name = text;
            else
            {
                in.name = "f";
                in.args = {{text}};
            }
            std::vector<std::string> errors, want;
            if (in.error)
                errors = {"Syntax error: " + *in.error};
            else if (in.name.empty())
                errors = {"No function name is specified"};
            else if (in.name != "f")
                errors = {"No function '" + in.name + "' is registered"};
            else if (in.args.size() > 2)
                errors = {"Wrong number of arguments to 'f': expected 0, 1 or 2, got " + std::to_string(in.args.size())};
            else
            {
                std::string s;
                for (auto& a : in.args)
                    s += cu::show(a);
                want.push_back(s);
            }
            calls.clear();
            cu::Line line{text};
            coil::ExecutionResult r = owner->execute(coil::StringView(line));
            if (cu::errors(r) != errors || calls != want)
                mc::fail("executing %s: errors %s (expected %s), calls %s (expected %s)", mc::show(text).c_str(), cu::show(cu::errors(r)).c_str(), cu::show(errors).c_str(), cu::show(calls).c_str(), cu::show(want).c_str());
            uint64_t h = uint64_t(custom + 5);
            h = mc::mix(h, mc::hashStr(syntax.spaces + "/" + text));
            mc::state(h);
            mc::outcome(mc::mix(cu::hash(in), h));
        }
    }
    MC_CHECK(customAlive == 0, "%d custom lexers outlive their bindings", customAlive);
}

MC_MAIN({"all_configurations", allConfigurations}, {"selected_configurations", selectedConfigurations}, {"every_byte_configured", everyByteConfigured}, {"large_sets", largeSets},
        {"lengths", lengthsConfigured}, {"through_bindings", throughBindings})
