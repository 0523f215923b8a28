// C07: the result reports exactly what the command did.
#include "cu.h"
#include "lexcheck.h"

#include <cinttypes>
#include <cstdarg>
#include <cwchar>

namespace
{
    struct Step
    {
        int op = 0;
        std::string text;
        int number = 0;
    };
    std::vector<Step> script;   // what the command will do
    std::vector<std::string> observedInside;

    struct Model
    {
        std::string output;
        std::vector<std::string> errors;
        std::vector<std::string> inside;
    };

    std::string vformat(char const* f, va_list a)
    {
        va_list b;
        va_copy(b, a);
        std::string r(static_cast<size_t>(vsnprintf(nullptr, 0, f, b)), 'x');
        va_end(b);
        r.resize(r.size() + 1);
        vsnprintf(r.data(), r.size(), f, a);
        r.pop_back();
        return r;
    }
    __attribute__((format(printf, 1, 2))) std::string format(char const* f, ...)
    {
        va_list a;
        va_start(a, f);
        std::string r = vformat(f, a);
        va_end(a);
        return r;
    }

    void perform(coil::Context c)
    {
        for (Step const& s : script)
            switch (s.op)
            {
            case 0: c.log(cu::string(s.text)); break;
            case 1: c.logline(cu::string(s.text)); break;
            case 2: c.logf("%d <%s> %%", s.number, s.text.c_str()); break;
            case 3: c.loglinef("%5.2f|%x|%-4s|%c", s.number / 8.0, unsigned(s.number), s.text.c_str(), 'q'); break;
            case 4: c.reportError(cu::string(s.text)); break;
            case 5: c.reportErrors(cu::string(s.text), coil::String("second"), coil::String("")); break;
            case 6: observedInside.push_back(c.hasErrors() ? "errors" : "none"); break;
            case 7: { coil::Context copy = c; copy.log("via copy;"); break; }
            case 8: c.logf("%s%s", s.text.c_str(), s.text.c_str()); break;
            case 9: c.reportError(coil::sprintf("[%s]%d", s.text.c_str(), s.number)); break;
            }
    }

    Model predict()
    {
        Model m;
        for (Step const& s : script)
            switch (s.op)
            {
            case 0: m.output += s.text; break;
            case 1: m.output += s.text + "\n"; break;
            case 2: m.output += format("%d <%s> %%", s.number, s.text.c_str()); break;
            case 3: m.output += format("%5.2f|%x|%-4s|%c\n", s.number / 8.0, unsigned(s.number), s.text.c_str(), 'q'); break;
            case 4: m.errors.push_back(s.text); break;
            case 5: m.errors.insert(m.errors.end(), {s.text, "second", ""}); break;
            case 6: m.inside.push_back(m.errors.empty() ? "none" : "errors"); break;
            case 7: m.output += "via copy;"; break;
            case 8: m.output += s.text + s.text; break;
            case 9: m.errors.push_back("[" + s.text + "]" + std::to_string(s.number)); break;
            }
        return m;
    }

    coil::Bindings& bindings()
    {
        static coil::Bindings* b = [] {
            auto* b = new coil::Bindings;
            (*b)["v"] = [](coil::Context c) { perform(c); };
            (*b)["i"] = [](coil::Context c) { perform(c); return 42; };
            (*b)["s"] = [](coil::Context c, std::string a) { perform(c); return a; };
            (*b)["p"] = [](coil::Context c) -> int const* { perform(c); return nullptr; };
            (*b)["u"] = [](coil::Context c, bool) -> coil::StringView { perform(c); return ""; };
            return b;
        }();
        return *b;
    }

    struct Line
    {
        char const* text;
        std::optional<std::string> ret;
    };
    Line const lines[] = {{"v", std::nullopt}, {"i", "42"}, {"s \"some text\" named=1", "some text"}, {"p", "null"}, {"u true k=(1 2)", ""}};

    struct Kept
    {
        coil::ExecutionResult result;
        std::string output;
        std::vector<std::string> errors;
        std::optional<std::string> ret;
        ref::Input input;
    };

    void compare(Kept const& k, char const* when)
    {
        MC_CHECK(cu::str(k.result.output) == k.output, "output %s%s instead of %s", mc::show(cu::str(k.result.output).substr(0, 1000)).c_str(), when, mc::show(k.output.substr(0, 1000)).c_str());
        MC_CHECK(cu::errors(k.result) == k.errors, "errors %s%s instead of %s", cu::show(cu::errors(k.result)).substr(0, 1000).c_str(), when, cu::show(k.errors).substr(0, 1000).c_str());
        MC_CHECK(cu::ret(k.result) == k.ret, "return value %s%s instead of %s", cu::show(cu::ret(k.result)).substr(0, 1000).c_str(), when, cu::show(k.ret).substr(0, 1000).c_str());
        MC_CHECK(cu::same(cu::fromCoil(k.result.input), k.input), "input %s%s instead of %s", cu::show(cu::fromCoil(k.result.input)).c_str(), when, cu::show(k.input).c_str());
        MC_CHECK(cu::str(k.result.output).size() == strlen(k.result.output.cStr()) || k.output.find('\0') != std::string::npos, "output is not null-terminated");
    }

    // the line must outlive the result: views in the echoed input point into it
    Kept execute(Line const& l)
    {
        observedInside.clear();
        MC_OP("execute %s with %zu steps", mc::show(l.text).c_str(), script.size());
        for (Step const& s : script)
            MC_LOG("   op %d text %s number %d", s.op, mc::show(s.text.substr(0, 100)).c_str(), s.number);
        mc::transition(script.size());
        Model m = predict();
        Kept k{bindings().execute(l.text), m.output, m.errors, m.errors.empty() ? l.ret : std::nullopt, ref::parse(ref::Syntax{}, l.text)};
        compare(k, "");
        MC_CHECK(observedInside == m.inside, "hasErrors() answered %s instead of %s", cu::show(observedInside).c_str(), cu::show(m.inside).c_str());
        observedInside.clear();
        uint64_t h = mc::hashStr(k.output);
        for (auto& e : k.errors)
            h = mc::mix(h, mc::hashStr(e));
        h = mc::mix(h, k.ret ? mc::hashStr(*k.ret) : 1);
        mc::outcome(h);
        mc::state(mc::mix(h, mc::hashStr(l.text)));
        return k;
    }
}

// every script of operations
static void scripts()
{
    static char const* const texts[] = {"", "a", "two words", "%s%d%n", "line\nbreak"};
    script.clear();
    int n = mc::choose((mc::thorough() ? (mc::asan() ? 4 : 5) : (mc::asan() ? 3 : 4)) + 1);
    for (int i = 0; i < n; i++)
    {
        Step s;
        s.op = mc::choose(10);
        s.text = s.op == 6 || s.op == 7 ? "" : texts[mc::choose(n > 3 ? 3 : 5)];
        s.number = i * 37 - 5;
        script.push_back(s);
    }
    execute(lines[mc::choose(n > 3 ? 3 : 5)]);
}

// sequences of executions: nothing carries over, earlier results stay as they were
static void sequences()
{
    std::vector<Kept> kept;
    int n = mc::thorough() ? 4 : 3;
    for (int i = 0; i < n; i++)
    {
        script.clear();
        int what = mc::choose(mc::asan() && !mc::thorough() ? 6 : 7);
        static int const ops[7][3] = {{-1, -1, -1}, {0, -1, -1}, {4, -1, -1}, {1, 4, 0}, {5, 3, 6}, {9, 9, 2}, {6, 8, -1}};
        for (int op : ops[what])
            if (op >= 0)
                script.push_back(Step{op, "t" + std::to_string(i), i});
        kept.push_back(execute(lines[mc::choose(mc::asan() && !mc::thorough() ? 3 : 5)]));
        if (mc::flip())
        {
            bindings().execute("missing");
            bindings().execute("u nobool");
        }
        for (auto& k : kept)
            compare(k, " after a later execution");
    }
    if (mc::flip())
    {
        coil::ExecutionResult copy = kept[0].result;
        Kept k{std::move(copy), kept[0].output, kept[0].errors, kept[0].ret, kept[0].input};
        compare(k, " in a copy");
        compare(kept[0], " after a copy was made");
    }
    script.clear();
}

// one operation with a text of every length
static void lengths()
{
    static int const ops[] = {0, 1, 2, 3, 4, 5, 8, 9};
    script.clear();
    int op = ops[mc::choose(8)];
    size_t n = chooseLength(mc::thorough() ? 2000 : 600, 70000);
    Step s{op, spaced(n), int(n)};
    script = {s};
    execute(lines[mc::choose(2)]);
    script.clear();
}

// growing the output: pieces of one length after pieces of another
static void growth()
{
    script.clear();
    size_t a = chooseLength(mc::thorough() ? 70 : 34, mc::thorough() ? 4100 : 300), b = chooseLength(mc::thorough() ? 70 : 34, mc::thorough() ? 4100 : 300);
    int ops = mc::choose(6);
    static int const menu[6][3] = {{0, 0, 0}, {1, 0, 1}, {0, 1, 8}, {8, 2, 0}, {1, 1, 1}, {3, 0, 1}};
    script = {Step{menu[ops][0], text(a), 1}, Step{menu[ops][1], spaced(b), 2}, Step{menu[ops][2], text(a / 2 + 1), 3}};
    execute(lines[1]);
    script.clear();
}

// many operations
static void many()
{
    script.clear();
    int op = mc::choose(10);
    size_t n = chooseLength(mc::thorough() ? 300 : 140, mc::asan() ? 1100 : 5000);
    size_t unit = size_t(mc::choose(3)) * 5;
    for (size_t i = 0; i < n; i++)
        script.push_back(Step{op, text(unit), int(i)});
    execute(lines[mc::choose(2)]);
    script.clear();
}

// formatted text has the exact printf result
static void formats()
{
    int kind = mc::choose(20);
    int width = mc::choose(mc::thorough() ? 400 : 140);
    std::string want, have;
    std::string arg = text(size_t(width));
    coil::Bindings b;
    auto with = [&](auto f) {
        b["f"] = [&](coil::Context c) { f(c); };
        MC_OP("format kind %d width %d", kind, width);
        have = cu::str(b.execute("f").output);
    };
#define BOTH(...)                                                  \
    want = format(__VA_ARGS__), with([&](coil::Context c) {         \
        c.logf(__VA_ARGS__);                                        \
        MC_CHECK(cu::str(coil::sprintf(__VA_ARGS__)) == want, "sprintf gives %s instead of %s", mc::show(cu::str(coil::sprintf(__VA_ARGS__))).c_str(), mc::show(want).c_str()); \
    })
    switch (kind)
    {
    case 0: BOTH("%*d", width, -width); break;
    case 1: BOTH("%-*d|", width, width); break;
    case 2: BOTH("%0*d", width, 7); break;
    case 3: BOTH("%.*f", width, 1.0 / 3); break;
    case 4: BOTH("%*.*f", width, width / 2, 1e10 / 3); break;
    case 5: BOTH("%s", arg.c_str()); break;
    case 6: BOTH("%.*s", width / 2, arg.c_str()); break;
    case 7: BOTH("%*s", width, "ab"); break;
    case 8: BOTH("%e %g %a", width * 1e100, width / 7.0, double(width)); break;
    case 9: BOTH("%c%c%c", 'a', width, 'b'); break;
    case 10: BOTH("%hhd %hd %ld %lld %zu", width, width * 300, long(width) << 40, (long long)width << 50, size_t(width)); break;
    case 11: BOTH("%%%d%%", width); break;
    case 12: BOTH("%x %X %o %#x", unsigned(width), unsigned(width), unsigned(width), unsigned(width)); break;
    case 13: BOTH("%Lf %Lg", (long double)width, (long double)width / 3); break;
    case 14: BOTH("%s %s %s %s %s %s %s %s", arg.c_str(), "", "a", arg.c_str(), "b", "c", arg.c_str(), "d"); break;
    case 15: BOTH("%d %f %d %f %d %f %d %f %d %f %d %f %d %f %d %f %d %f", 1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5, 5.5, 6, 6.5, 7, 7.5, 8, 8.5, width, width / 2.0); break;
    case 16: BOTH("%s", ""); break;
    case 17: BOTH("%" PRIu64 " %jd %td", uint64_t(width) << 60, intmax_t(width), ptrdiff_t(-width)); break;
    case 18: BOTH("%+d % d %+.3e", width, width, double(width)); break;
    default: BOTH("plain text without any directive"); break;
    }
#undef BOTH
    MC_CHECK(have == want, "logf gives %s instead of %s", mc::show(have.substr(0, 1000)).c_str(), mc::show(want.substr(0, 1000)).c_str());
    mc::outcome(mc::hashStr(want));
    mc::state(mc::hashStr(want, uint64_t(kind)));
}

// what cannot be printed takes nothing else along
static void unprintable()
{
    static wchar_t const wide[] = L"caf\x20ac", lone[] = {wchar_t(0xd800), 0};
    static char const* const tooWide = "%2147483648d|%d"; // not a literal: no conversion is that wide
    int before = mc::choose(3);
    int kind = mc::choose(6);
    int way = mc::choose(4);
    int after = mc::choose(3);
    bool report = mc::flip();
    coil::Bindings b;
    static char const* const texts[] = {"", "some text that was there before, long enough for the heap", "x"};
    MC_OP("log %d, kind %d in way %d, log %d, error %d", before, kind, way, after, int(report));
    b["f"] = [&](coil::Context c) {
        c.log(texts[before]);
        auto with = [&](auto... args) {
            if (way == 0)
                c.logf(args...);
            else if (way == 1)
                c.loglinef(args...);
            else if (way == 2)
                (void)coil::sprintf(args...);
            else if (report)
                c.reportError(coil::sprintf(args...));
        };
        switch (kind)
        {
        case 0: with("%ls", wide); break;
        case 1: with("%lc", wint_t(0x20ac)); break;
        case 2: with("%ls", lone); break;
        case 3: with("%d %s %ls %d", 1, "text", wide, 2); break;
        case 4: with(tooWide, 1, 2); break;
        case 5: with("%ls", L"plain"); break;
        }
        c.log(texts[after]);
        return 42;
    };
    coil::ExecutionResult r = b.execute("f 1 k=v");
    MC_CHECK(cu::errors(r).size() == 1 && cu::str(r.output).empty(), "a call with another arity is accepted");
    r = b.execute("f");
    std::string out = cu::str(r.output), first = texts[before], last = texts[after];
    MC_CHECK(out.size() >= first.size() + last.size() && out.compare(0, first.size(), first) == 0 && out.compare(out.size() - last.size(), last.size(), last) == 0, "the output is %s", mc::show(out).c_str());
    if (kind == 5)
        MC_CHECK(out == first + (way == 0 ? "plain" : way == 1 ? "plain\n" : "") + last, "the output is %s", mc::show(out).c_str());
    size_t const errors = way == 3 && report;
    MC_CHECK(cu::errors(r).size() == errors && r.returnValue.hasValue() == !errors, "%zu errors instead of %zu", cu::errors(r).size(), errors);
    MC_CHECK(cu::str(b.execute("f").output) == out, "the second time gives another output");
    mc::outcome(mc::hashStr(out));
    mc::state(mc::hashStr(out, uint64_t(kind * 8 + way * 2 + report)));
}

// odd texts in every operation
static void oddTexts()
{
    script.clear();
    int n = mc::thorough() && !mc::asan() ? 2 : 1;
    for (int i = 0; i < n; i++)
    {
        Step s;
        s.op = mc::choose(10);
        s.text = oddWord();
        if (s.text.find('\0') != std::string::npos && (s.op == 2 || s.op == 3 || s.op == 8 || s.op == 9))
            s.text = "";
        s.number = i;
        script.push_back(s);
        s.op = (s.op + 4) % 10;
        if (s.text.find('\0') == std::string::npos)
            script.push_back(s);
    }
    execute(lines[script[0].text.size() % 5]);
    // and as what the command returns
    std::string const w = script[0].text;
    script.clear();
    coil::Bindings b;
    b["f"] = [&w](int way) { return way ? cu::string(w) : cu::string(w + w); };
    for (int way = 0; way < 2; way++)
    {
        auto r = b.execute(way ? "f 1" : "f 0");
        MC_CHECK(r.errors.size() == 0 && r.returnValue.hasValue() && cu::str(*r.returnValue) == (way ? w : w + w), "the returned text %s is reported as %s", mc::show(w).c_str(), cu::show(cu::ret(r)).c_str());
    }
}

MC_MAIN({"scripts", scripts}, {"odd_texts", oddTexts}, {"sequences", sequences}, {"lengths", lengths}, {"growth", growth}, {"many_operations", many}, {"formats", formats}, {"unprintable", unprintable})
