// C01: every command line is split exactly as the command syntax defines (default lexer).
#include "lexcheck.h"

static std::string const core = "a (\"=,)'";          // one of each class, both brackets and both quotes
static std::string const wide = std::string("ab \t\n\r=()'\",;|-0\\", 17) + std::string("\0\x80\xff", 3);

static void coreStrings() { checkLine(defaultSetup(), chooseString(core, mc::thorough() ? (mc::asan() ? 7 : 9) : (mc::asan() ? 5 : 7))); }
static void wideStrings() { checkLine(defaultSetup(), chooseString(wide, mc::thorough() ? (mc::asan() ? 5 : 6) : (mc::asan() ? 4 : 5))); }

// everything after a name: reaches argument syntax one character deeper
static void afterName() { checkLine(defaultSetup(), "f " + chooseString(core, mc::thorough() ? (mc::asan() ? 7 : 9) : (mc::asan() ? 5 : 7))); }

// all contents of a group
static void groupContents()
{
    std::string inner = chooseString("a \"',b;\t=", mc::thorough() ? (mc::asan() ? 6 : 8) : (mc::asan() ? 4 : 6));
    static char const* const pre[] = {"f (", "f x=("};
    static char const* const post[] = {")", ") b", ")b=c"};
    std::string a = pre[mc::choose(2)];
    checkLine(defaultSetup(), a + inner + post[mc::choose(3)]);
}

// sequences of whole tokens
static void tokenSequences()
{
    static char const* const toks[] = {"w", "=", "(g h)", "\"q r\"", "a,b", "''", "()", "-1.5", ",", "x;", "|y", "(", "'", "('s t',\"u\")"};
    static char const* const glue[] = {"", " ", "\t \n"};
    std::string line;
    int len = mc::choose((mc::thorough() ? (mc::asan() ? 5 : 6) : (mc::asan() ? 3 : 4)) + 1);
    for (int i = 0; i < len; i++)
    {
        line += toks[mc::choose(14)];
        line += glue[mc::choose(i < 2 || mc::thorough() ? 3 : 2)];
    }
    checkLine(defaultSetup(), line);
}

// every byte value in every syntactic position, in pairs
static void allBytes()
{
    static char const* const templates[] = {"?", "?a", "a?b", "f ?", "f a?", "f ?a", "f (?)", "f (a?b)", "f '?'", "f \"a?b\"", "f k=?", "f ?=v", "f k?=v", "f a,?", "f a,?,b", "f ('?')", "? f", "f ? ?",
                                            "?#", "f ?#", "f a?#b", "f (?#)", "f (a?b#c)", "f '?#'", "f ?=#", "f a,?#", "?f# x"};
    int t = mc::choose(27);
    int b1 = mc::choose(256);
    std::string line;
    bool two = std::string(templates[t]).find('#') != std::string::npos;
    if (two && mc::asan() && !mc::thorough() && b1 % 4)
        two = false;
    int b2 = two ? mc::choose(256) : 'z';
    for (char const* p = templates[t]; *p; p++)
        line += *p == '?' ? char(b1) : *p == '#' ? char(b2) : *p;
    checkLine(defaultSetup(), line);
}

static void lengths()
{
    int kind = mc::choose(18);
    size_t n = chooseLength(mc::thorough() ? 1200 : 320, mc::asan() && !mc::thorough() ? 5000 : 70000);
    checkLine(defaultSetup(), sizedLine(kind, n));
}

// two parses with one lexer: nothing carries over
static void twice()
{
    static char const* const lines[] = {"", "f", "f a", "f \"x", "f (a b", "f k=v", "f =", "f k=", "f a,b (c 'd e')", "g 'long quoted text' (x,y,z) k1=v1 k2=(v2 v3)", "(f)", "f k==v"};
    coil::DefaultLexer lexer;
    ref::Syntax x;
    int n = mc::thorough() ? 4 : 3;
    for (int i = 0; i < n; i++)
        checkWith(lexer, x, lines[mc::choose(12)]);
}

MC_MAIN({"core_strings", coreStrings}, {"wide_strings", wideStrings}, {"after_name", afterName}, {"group_contents", groupContents},
        {"token_sequences", tokenSequences}, {"all_bytes", allBytes}, {"lengths", lengths}, {"repeated_parses", twice})
