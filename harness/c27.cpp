// C27: a command runs the same whether it is given as text, as data or by a lexer of the program's own.
#include "interp.h"

#include <deque>
#include <map>
#include <set>

namespace
{
    using Subs = ref::Subvalues;
    using ip::Outcome;

    // ---- the commands: what they receive, and what named arguments they see
    std::vector<std::pair<std::string, Subs>> seenNamed;

    template<typename... Ts>
    void named(coil::Vector<coil::AnyFunctor>& functors, std::vector<ip::Func>& model, std::string id)
    {
        ip::Func f;
        f.id = id;
        f.params = {ip::Param{ref::Type<Ts>::name(), &ref::Type<Ts>::conv}...};
        f.ret = ip::Ret::Text;
        f.context = true;
        model.push_back(f);
        functors.pushBack(coil::detail::createAnyFunctor([id](coil::Context c, Ts... args) {
            c.log(coil::String(id.c_str()));
            for (auto& n : c.namedArgs())
                seenNamed.push_back({cu::str(n.key), cu::subs(n.value)});
            return ip::act<std::string>(id, args...);
        }));
    }

    void fill(ip::Table& t, std::string const& id = "")
    {
        auto add = [&](std::string const& name, auto fill) {
            coil::Vector<coil::AnyFunctor> functors;
            std::vector<ip::Func> model;
            fill(functors, model);
            t.bindings.add(cu::view(name), std::move(functors));
            t.model[name] = model;
        };
        add("f", [&](auto& functors, auto& model) {
            named<>(functors, model, id + "f0");
            named<coil::Value>(functors, model, id + "f1");
            named<coil::Value, coil::Value>(functors, model, id + "f2");
            named<coil::Value, coil::Value, coil::Value>(functors, model, id + "f3");
        });
        add("two words", [&](auto& functors, auto& model) {
            ip::overload<std::string, false, std::string, int>(functors, model, id + "w2");
            ip::overload<int, true, std::optional<int>>(functors, model, id + "w1");
            ip::overload<void, false, std::vector<std::string>, std::string, std::vector<int>>(functors, model, id + "w3");
        });
        add(std::string("\0x", 2), [&](auto& functors, auto& model) {
            ip::overload<std::string, true>(functors, model, id + "z0");
            ip::overload<std::string, true, std::string>(functors, model, id + "z1");
        });
    }

    // ---- data: built on exactly sized buffers
    struct Data
    {
        std::deque<cu::Line> lines;
        coil::ExecutionInput in;
        coil::StringView view(std::string const& s)
        {
            lines.emplace_back(s);
            return coil::StringView(lines.back());
        }
        coil::Value value(Subs const& s)
        {
            coil::Value v;
            for (auto& t : s)
                v.subvalues.pushBack(view(t));
            return v;
        }
        explicit Data(ref::Input const& i)
        {
            in.name = view(i.name);
            for (auto& a : i.args)
                in.arguments.pushBack(value(a));
            for (auto& n : i.named)
            {
                coil::NamedValue nv;
                nv.key = view(n.first);
                nv.value = value(n.second);
                in.namedArguments.pushBack(std::move(nv));
            }
        }
    };

    // ---- lexers of the program's own
    struct Asked
    {
        int alive = 0;
        int times = 0;
        std::string text;
        char const* at = nullptr;
    };

    struct Scripted : coil::Lexer // answers what it was told to
    {
        Asked& asked;
        std::unique_ptr<Data> data;
        std::unique_ptr<std::string> error;
        explicit Scripted(Asked& a) : asked(a) { asked.alive++; }
        ~Scripted() override { asked.alive--; }
        coil::Expected<coil::ExecutionInput, coil::String> parse(coil::StringView str) const override
        {
            asked.times++;
            asked.text = cu::str(str);
            asked.at = str.data();
            if (error)
                return coil::makeUnexpected(cu::string(*error));
            return coil::ExecutionInput(data->in);
        }
    };

    std::string quoted(std::string const& s) { return s.find('\'') == std::string::npos ? "'" + s + "'" : "\"" + s + "\""; }
    bool spellable(std::string const& s, bool group)
    {
        if (s.find('\'') != std::string::npos || s.find('"') != std::string::npos)
            return false;
        return !group || s.find_first_of("()") == std::string::npos;
    }
    // the line that spells the command for the default lexer
    std::optional<std::string> spell(ref::Input const& in)
    {
        if (!spellable(in.name, false))
            return std::nullopt;
        std::string line = quoted(in.name);
        auto value = [&](Subs const& v) {
            if (v.size() == 1)
            {
                line += quoted(v[0]);
                return spellable(v[0], false);
            }
            line += "(";
            for (auto& s : v)
            {
                line += quoted(s) + " ";
                if (!spellable(s, true))
                    return false;
            }
            line += ")";
            return true;
        };
        for (auto& a : in.args)
        {
            line += " ";
            if (!value(a))
                return std::nullopt;
        }
        for (auto& n : in.named)
        {
            line += " " + quoted(n.first) + "=";
            if (!spellable(n.first, false) || !value(n.second))
                return std::nullopt;
        }
        return line;
    }

    Outcome observe(coil::ExecutionResult const& r)
    {
        Outcome o = ip::observe(r);
        // messages name a text up to its first null character or in full
        for (size_t i = 0; i < o.errors.size(); i++)
            o.errors[i] = cu::message(r.errors[i]);
        return o;
    }

    void same(Outcome const& want, Outcome const& have, ref::Input const& in, char const* how)
    {
        if (!ip::same(want, have))
            mc::fail("%s given %s\n  gives    %s\n  expected %s", cu::show(in).substr(0, 800).c_str(), how, ip::show(have).substr(0, 2500).c_str(), ip::show(want).substr(0, 2500).c_str());
        bool callsF = !want.calls.empty() && in.name == "f";
        if (seenNamed != (callsF ? in.named : std::vector<std::pair<std::string, Subs>>()))
        {
            ref::Input seen;
            seen.named = seenNamed;
            mc::fail("%s given %s: the command sees the named arguments %s", cu::show(in).substr(0, 800).c_str(), how, cu::show(seen).substr(0, 2000).c_str());
        }
        seenNamed = {};
        mc::transition(1);
    }

    // every way of giving the command to bindings
    void everyWay(ip::Table& t, ref::Input const& in)
    {
        MC_OP("%s", cu::show(in).substr(0, 1000).c_str());
        ip::calls().clear();
        seenNamed = {};
        Outcome want = ip::expected(t.model, in);
        Asked asked;
        // text first: the default lexer
        if (auto line = spell(in))
        {
            cu::Line l{*line};
            coil::ExecutionResult r = t.bindings.execute(coil::StringView(l));
            same(want, observe(r), in, "as text");
            mc::validated();
        }
        auto own = coil::makeUnique<Scripted>(asked);
        Scripted* script = own.get();
        t.bindings.setLexer(std::move(own));
        MC_CHECK(asked.alive == 1 && asked.times == 0, "%d lexers are alive after setting one", asked.alive);
        {
            Data d{in};
            coil::ExecutionResult r = t.bindings.execute(coil::ExecutionInput(d.in));
            same(want, observe(r), in, "as data");
            // what was run can be run again
            coil::ExecutionResult again = t.bindings.execute(std::move(r.input));
            same(want, observe(again), in, "as the input of its own result");
            MC_CHECK(asked.times == 0, "executing data asks the lexer");
        }
        {
            script->data = std::make_unique<Data>(in);
            cu::Line l{"anything, at all ("};
            coil::StringView v(l);
            coil::ExecutionResult r = t.bindings.execute(v);
            same(want, observe(r), in, "by a lexer");
            MC_CHECK(asked.times == 1 && asked.text == "anything, at all (" && asked.at == v.data(), "the lexer is asked %d times, for %s", asked.times, mc::show(asked.text).c_str());
        }
        t.bindings.setLexer(coil::makeUnique<coil::DefaultLexer>());
        MC_CHECK(asked.alive == 0, "%d lexers are alive after another was set", asked.alive);
        uint64_t h = ip::hash(want);
        mc::outcome(h);
        mc::state(h);
        seenNamed = {};
    }

    ip::Table& table()
    {
        static ip::Table* t = [] {
            auto* n = new ip::Table;
            fill(*n);
            return n;
        }();
        return *t;
    }

    std::string const names[] = {"f", "two words", std::string("\0x", 2), "", "F", "f ", std::string("f\0", 2), "="};
    std::string const texts[] = {"1", "", "-7", "a b", "(x", std::string("n\0l", 3), "k=v", "'", "true"};
    std::string const keys[] = {"k", "", "two words", "f", "="};

    Subs chooseValue(int max, int menu)
    {
        int n = mc::choose(max + 1);
        Subs s;
        for (int i = 0; i < n; i++)
            s.push_back(texts[mc::choose(menu)]);
        return s;
    }
}

// positional arguments: every name, count and list of sub-values
static void positional()
{
    ref::Input in;
    bool big = mc::thorough() || !mc::asan();
    int n = mc::choose(big ? 5 : 4);
    in.name = names[mc::choose(n == 4 ? 3 : n == 3 ? (mc::thorough() ? 4 : 2) : 8)];
    for (int i = 0; i < n; i++)
        in.args.push_back(chooseValue(n < 2 ? 3 : n == 2 ? 2 : 1, n < 3 ? 9 : n == 3 ? (big ? 5 : 3) : 2));
    everyWay(table(), in);
}

// named arguments, beside positional ones: every key, repeated keys, every list of sub-values
static void namedArguments()
{
    ref::Input in;
    int n = mc::choose(mc::thorough() ? 6 : 5);
    in.name = names[mc::choose(n > 1 ? 2 : 8)];
    int args = mc::choose(3);
    for (int i = 0; i < args; i++)
        in.args.push_back(i ? Subs{} : Subs{"5"});
    for (int i = 0; i < n; i++)
    {
        std::string key = keys[mc::choose(n < 3 ? 5 : 3)];
        if (n < 3)
            in.named.push_back({key, chooseValue(n < 2 ? 3 : mc::asan() ? 1 : 2, n < 2 ? 9 : 5)});
        else
            in.named.push_back({key, n == 3 ? chooseValue(1, mc::thorough() ? 4 : 2) : Subs{"v" + std::to_string(i)}});
    }
    everyWay(table(), in);
}

// unusual words as names, keys and values
static void oddTexts()
{
    std::string const& word = oddWord();
    ref::Input in;
    in.name = "f";
    int where = mc::choose(7);
    switch (where)
    {
    case 0: in.name = word; break;
    case 1: in.args = {{word}}; break;
    case 2: in.args = {{"a", word}, {word, "", word}}; break;
    case 3: in.named = {{word, {"v"}}}; break;
    case 4: in.named = {{"k", {word}}, {word, {word, word}}}; break;
    case 5:
        in.name = "two words";
        in.args = {{word}, {word}};
        break;
    case 6:
    {
        // the table knows it
        ip::Table t;
        fill(t);
        coil::Vector<coil::AnyFunctor> functors;
        std::vector<ip::Func> model;
        ip::overload<std::string, true, std::string>(functors, model, "odd");
        t.bindings.add(cu::view(word), std::move(functors));
        t.model[word] = model;
        in.name = word;
        in.args = {{"x"}};
        everyWay(t, in);
        return;
    }
    }
    everyWay(table(), in);
}

// the only error of a refused line is what the lexer says of it
static void refused()
{
    int what = mc::choose(4);
    std::string message;
    if (what == 0)
        message = oddWord();
    else
    {
        size_t n = chooseLength(mc::thorough() ? 2100 : 520);
        message = what == 1 ? text(n) : what == 2 ? rep("%s%n'\0", n) : spaced(n);
    }
    ip::Table t;
    fill(t);
    Asked asked;
    auto own = coil::makeUnique<Scripted>(asked);
    Scripted* script = own.get();
    script->error = std::make_unique<std::string>(message);
    t.bindings.setLexer(std::move(own));
    for (int i = 0; i < 2; i++)
    {
        cu::Line l{"f 'a'"};
        coil::ExecutionResult r = t.bindings.execute(coil::StringView(l));
        MC_CHECK(r.errors.size() == 1 && cu::str(r.errors[0]) == "Syntax error: " + message, "a lexer that says %s gives %s", mc::show(message.substr(0, 500)).c_str(), cu::show(cu::errors(r)).substr(0, 2000).c_str());
        MC_CHECK(!r.returnValue.hasValue() && r.output.length() == 0 && r.input.name.length() == 0 && r.input.arguments.size() == 0 && r.input.namedArguments.size() == 0, "a line refused by the lexer has an effect");
        MC_CHECK(ip::calls().empty() && asked.times == i + 1 && asked.text == "f 'a'", "a line refused by the lexer calls something, or the lexer is asked %d times", asked.times);
    }
    mc::transition(2);
    mc::validated();
    mc::outcome(mc::hashStr(message));
}

// a lexer sees the line itself, whatever it is
static void asked()
{
    static std::string const ends[] = {"", " ", "\n", "\r\n", std::string(1, '\0'), "#", ";", "\\"};
    int what = mc::choose(3);
    std::string line;
    if (what == 0)
    {
        line = ends[mc::choose(8)] + oddWord();
        line += ends[mc::choose(8)];
    }
    else if (what == 1)
        line = chooseString(std::string("f \n\0#'=", 7), 4);
    else
    {
        size_t n = chooseLength(300);
        line = mc::flip() ? std::string(n, ' ') : spaced(n);
    }
    Asked asked;
    {
        ip::Table t;
        fill(t);
        auto own = coil::makeUnique<Scripted>(asked);
        ref::Input in;
        in.name = "f";
        in.args = {{line}};
        own->data = std::make_unique<Data>(in);
        Outcome want = ip::expected(t.model, in);
        t.bindings.setLexer(std::move(own));
        MC_OP("the lexer is given %s", mc::show(line.substr(0, 200)).c_str());
        ip::calls().clear();
        seenNamed = {};
        cu::Line l{line};
        coil::StringView v(l);
        coil::ExecutionResult r = t.bindings.execute(v);
        same(want, observe(r), in, "by a lexer");
        MC_CHECK(asked.times == 1 && asked.text == line && (line.empty() || asked.at == v.data()), "the lexer is asked %d times, for %s instead of %s", asked.times, mc::show(asked.text.substr(0, 500)).c_str(), mc::show(line.substr(0, 500)).c_str());
        if (line.empty())
        {
            coil::ExecutionResult none = t.bindings.execute(coil::StringView{});
            same(want, observe(none), in, "by a lexer");
            MC_CHECK(asked.times == 2 && asked.text.empty(), "the lexer is not asked for no text at all");
        }
        mc::validated();
        mc::state(mc::hashStr(line));
    }
    MC_CHECK(asked.alive == 0, "the lexer outlives its bindings");
}

// any history of installing lexers, moving the bindings about, and executing text and data
namespace
{
    struct Prefix : coil::Lexer // "<prefix>name rest" with everything after the name one argument
    {
        Asked& asked;
        std::string prefix;
        Prefix(Asked& a, std::string p) : asked(a), prefix(std::move(p)) { asked.alive++; }
        ~Prefix() override { asked.alive--; }
        static ref::Input expected(std::string const& prefix, std::string const& line)
        {
            ref::Input in;
            if (line.compare(0, prefix.size(), prefix) != 0)
            {
                in.error = "no " + prefix;
                return in;
            }
            std::string rest = line.substr(prefix.size());
            size_t space = rest.find(' ');
            in.name = rest.substr(0, space);
            if (space != std::string::npos)
                in.args.push_back({rest.substr(space + 1)});
            return in;
        }
        coil::Expected<coil::ExecutionInput, coil::String> parse(coil::StringView str) const override
        {
            asked.times++;
            std::string s = cu::str(str);
            ref::Input e = expected(prefix, s);
            if (e.error)
                return coil::makeUnexpected(cu::string(*e.error));
            coil::ExecutionInput in;
            in.name = str.substr(prefix.size(), e.name.size());
            if (!e.args.empty())
                in.arguments.pushBack(coil::Value{str.substr(s.size() - e.args[0][0].size(), e.args[0][0].size())});
            return in;
        }
    };
}

static void histories()
{
    static char const* const lines[] = {"f a b", "#f a b", "!f", ""};
    struct Slot
    {
        std::unique_ptr<ip::Table> table;
        int lexer = -1; // index of the lexer it owns; -1: the default one
    };
    std::deque<Asked> asked;
    std::vector<std::string> prefix;
    Slot slots[2];
    {
        for (int i = 0; i < 2; i++)
        {
            slots[i].table = std::make_unique<ip::Table>();
            fill(*slots[i].table, i ? "B" : "A");
        }
        auto owners = [&](int l) { return (slots[0].table && slots[0].lexer == l) + (slots[1].table && slots[1].lexer == l); };
        auto check = [&](char const* after) {
            for (size_t l = 0; l < asked.size(); l++)
                MC_CHECK(asked[l].alive == owners(int(l)), "lexer %zu has %d owners and is %s after %s", l, owners(int(l)), asked[l].alive ? "alive" : "destroyed", after);
        };
        int steps = mc::thorough() ? (mc::asan() ? 4 : 5) : (mc::asan() ? 3 : 4);
        for (int step = 0; step < steps; step++)
        {
            int s = mc::choose(2);
            int op = mc::choose(11);
            Slot& slot = slots[s];
            Slot& other = slots[1 - s];
            switch (op)
            {
            case 0:
            case 1:
            {
                MC_OP("slot %d: a lexer for %s", s, op ? "#" : "!");
                asked.emplace_back();
                prefix.push_back(op ? "#" : "!");
                slot.table->bindings.setLexer(coil::makeUnique<Prefix>(asked.back(), prefix.back()));
                slot.lexer = int(asked.size()) - 1;
                check("replacing the lexer");
                break;
            }
            case 2:
                MC_OP("slot %d: the default lexer", s);
                slot.table->bindings.setLexer(coil::makeUnique<coil::DefaultLexer>());
                slot.lexer = -1;
                check("replacing the lexer");
                break;
            case 3:
            {
                MC_OP("slot %d: moved", s);
                coil::Bindings moved{std::move(slot.table->bindings)};
                check("moving");
                auto fresh = std::make_unique<ip::Table>();
                fresh->bindings = std::move(moved);
                fresh->model = slot.table->model;
                slot.table = std::move(fresh);
                check("moving twice");
                break;
            }
            case 4:
            {
                MC_OP("slot %d: assigned to slot %d, then made again", s, 1 - s);
                other.table->bindings = std::move(slot.table->bindings);
                other.table->model = slot.table->model;
                other.lexer = slot.lexer;
                slot.lexer = -2;
                slot.table = std::make_unique<ip::Table>();
                fill(*slot.table, "C");
                slot.lexer = -1;
                check("assigning");
                break;
            }
            case 5:
                MC_OP("slot %d: cleared and filled", s);
                slot.table->bindings.clear();
                slot.table->model.clear();
                fill(*slot.table, "D");
                check("clearing");
                break;
            case 6:
            {
                MC_OP("slot %d: data", s);
                ref::Input in;
                in.name = "f";
                in.args = {{"x y", "#f"}};
                Data d{in};
                std::vector<int> before;
                for (auto& a : asked)
                    before.push_back(a.times);
                coil::ExecutionResult r = slot.table->bindings.execute(std::move(d.in));
                Outcome want = ip::expected(slot.table->model, in);
                same(want, observe(r), in, "as data");
                // and what was run here runs there
                seenNamed = {};
                coil::ExecutionResult there = other.table->bindings.execute(std::move(r.input));
                same(ip::expected(other.table->model, in), observe(there), in, "as the input of another result");
                for (size_t l = 0; l < asked.size(); l++)
                    MC_CHECK(asked[l].times == before[l], "executing data asks a lexer");
                break;
            }
            default:
            {
                std::string line = lines[op - 7];
                MC_OP("slot %d: execute %s", s, mc::show(line).c_str());
                ref::Input in = slot.lexer < 0 ? ref::parse({}, line) : Prefix::expected(prefix[size_t(slot.lexer)], line);
                std::vector<int> before;
                for (auto& a : asked)
                    before.push_back(a.times);
                cu::Line l{line};
                coil::ExecutionResult r = slot.table->bindings.execute(coil::StringView(l));
                same(ip::expected(slot.table->model, in), observe(r), in, "as text");
                for (size_t k = 0; k < asked.size(); k++)
                    MC_CHECK(asked[k].times == before[k] + (int(k) == slot.lexer), "executing a line asks lexer %zu %d times", k, asked[k].times - before[k]);
                mc::outcome(mc::mix(mc::hashStr(line), uint64_t(slot.lexer < 0 ? 0 : prefix[size_t(slot.lexer)][0])));
                break;
            }
            }
            uint64_t h = mc::mix(uint64_t(slots[0].lexer < 0 ? 0 : prefix[size_t(slots[0].lexer)][0]), uint64_t(slots[1].lexer < 0 ? 0 : prefix[size_t(slots[1].lexer)][0]));
            for (auto& sl : slots)
                h = mc::mix(h, mc::hashStr(sl.table->model["f"][0].id));
            mc::state(h);
        }
        mc::validated();
    }
    for (auto& s : slots)
        s.table.reset();
    for (size_t l = 0; l < asked.size(); l++)
        MC_CHECK(asked[l].alive == 0, "lexer %zu outlives its bindings", l);
    seenNamed = {};
}

// a lexer that runs commands while it reads a line: "$x" is replaced by what the line bound to x returns
namespace
{
    struct Substituting : coil::Lexer
    {
        coil::Bindings& bindings;
        std::map<std::string, std::string> const& lines;
        mutable std::deque<std::string> kept; // what the views of its answers denote
        int mutable depth = 0;
        Substituting(coil::Bindings& b, std::map<std::string, std::string> const& l) : bindings(b), lines(l) {}

        coil::Expected<coil::ExecutionInput, coil::String> parse(coil::StringView str) const override
        {
            static coil::DefaultLexer const plain;
            std::string s = cu::str(str), out;
            depth++;
            for (size_t i = 0; i < s.size(); i++)
                if (s[i] == '$' && i + 1 < s.size())
                {
                    std::string const& line = lines.at(s.substr(++i, 1));
                    coil::ExecutionResult r = bindings.execute(cu::view(line));
                    if (r.errors.size())
                    {
                        depth--;
                        return coil::makeUnexpected("in $" + cu::string(s.substr(i, 1)) + ": " + r.errors[0]);
                    }
                    out += r.returnValue ? cu::str(*r.returnValue) : "";
                }
                else
                    out += s[i];
            depth--;
            kept.push_back(out);
            return plain.parse(cu::view(kept.back()));
        }
    };

    // the same in plain terms
    struct Evaluated
    {
        std::optional<std::string> error;
        std::string ret;
    };
    Evaluated evaluate(std::map<std::string, std::vector<ip::Func>> const& model, std::map<std::string, std::string> const& lines, std::string const& s, std::vector<std::string>& calls, std::string& output)
    {
        std::string out;
        for (size_t i = 0; i < s.size(); i++)
            if (s[i] == '$' && i + 1 < s.size())
            {
                std::string ignored;
                Evaluated e = evaluate(model, lines, lines.at(s.substr(++i, 1)), calls, ignored);
                if (e.error)
                    return {"Syntax error: in $" + s.substr(i, 1) + ": " + *e.error, ""};
                out += e.ret;
            }
            else
                out += s[i];
        Outcome o = ip::expected(model, ref::parse({}, out));
        calls.insert(calls.end(), o.calls.begin(), o.calls.end());
        output = o.output;
        if (!o.errors.empty())
            return {o.errors[0], ""};
        return {std::nullopt, o.ret ? *o.ret : ""};
    }
}

static void substitution()
{
    static char const* const menu[] = {"cat a b", "cat $x c", "len $y", "cat '$z'", "quiet", "fail 1", "cat $x $x", "missing", "cat $z$y", "len ($x $y)"};
    // x may use y and z, y may use z; the line may use all of them
    std::map<std::string, std::string> lines;
    auto uses = [](std::string const& l, char c) { return l.find(std::string("$") + c) != std::string::npos; };
    std::string z = menu[mc::choose(10)];
    if (uses(z, 'x') || uses(z, 'y') || uses(z, 'z'))
        return;
    std::string y = menu[mc::choose(10)];
    if (uses(y, 'x') || uses(y, 'y'))
        return;
    std::string x = menu[mc::choose(10)];
    if (uses(x, 'x'))
        return;
    std::string line = menu[mc::choose(10)];
    lines = {{"x", x}, {"y", y}, {"z", z}};
    MC_OP("x: %s, y: %s, z: %s; %s", x.c_str(), y.c_str(), z.c_str(), line.c_str());
    ip::calls().clear();
    {
        ip::Table t;
        auto add = [&](char const* name, auto fill) {
            coil::Vector<coil::AnyFunctor> functors;
            std::vector<ip::Func> model;
            fill(functors, model);
            t.bindings.add(name, std::move(functors));
            t.model[name] = model;
        };
        add("cat", [](auto& f, auto& m) {
            ip::overload<std::string, true, std::string>(f, m, "cat1");
            ip::overload<std::string, true, std::string, std::string>(f, m, "cat2");
            ip::overload<std::string, true, coil::Value, coil::Value, coil::Value>(f, m, "cat3");
        });
        add("len", [](auto& f, auto& m) { ip::overload<int, false, coil::Value>(f, m, "len"); });
        add("quiet", [](auto& f, auto& m) { ip::overload<void, true>(f, m, "quiet"); });
        add("fail", [](auto& f, auto& m) { ip::overload<std::string, true, bool, int>(f, m, "fail"); });
        t.bindings.setLexer(coil::makeUnique<Substituting>(t.bindings, lines));
        std::vector<std::string> calls;
        std::string output;
        Evaluated want = evaluate(t.model, lines, line, calls, output);
        coil::ExecutionResult r = t.bindings.execute(cu::view(line));
        if (want.error)
            MC_CHECK(r.errors.size() >= 1 && cu::message(r.errors[0]) == *want.error && !r.returnValue.hasValue(), "%s gives %s instead of the error %s", line.c_str(), cu::show(cu::errors(r)).c_str(), want.error->c_str());
        else
            MC_CHECK(r.errors.size() == 0 && (r.returnValue ? cu::str(*r.returnValue) : "") == want.ret, "%s gives %s %s instead of %s", line.c_str(), r.returnValue ? cu::str(*r.returnValue).c_str() : "nothing", cu::show(cu::errors(r)).c_str(), want.ret.c_str());
        MC_CHECK(ip::calls() == calls, "%s calls %s instead of %s", line.c_str(), cu::show(ip::calls()).c_str(), cu::show(calls).c_str());
        if (!want.error)
            MC_CHECK(cu::str(r.output) == output, "%s prints %s instead of %s", line.c_str(), cu::str(r.output).c_str(), output.c_str());
        mc::transition(calls.size());
        mc::validated();
        mc::state(mc::hashStr(x + "/" + y + "/" + z));
        mc::outcome(mc::mix(mc::hashStr(want.ret), want.error ? mc::hashStr(*want.error) : 1));
    }
    std::vector<std::string>().swap(ip::calls());
}

static void sizes()
{
    int kind = mc::choose(7);
    size_t n = chooseLength(mc::thorough() ? 600 : 140, mc::asan() && !mc::thorough() ? 1100 : 20000);
    ref::Input in;
    in.name = "f";
    switch (kind)
    {
    case 0: in.name = text(n); break;
    case 1: in.args = {{spaced(n)}}; break;
    case 2:
    {
        Subs s;
        for (size_t i = 0; i < n; i++)
            s.push_back(std::to_string(i));
        in.args = {s, {"1"}};
        break;
    }
    case 3:
        for (size_t i = 0; i < n; i++)
            in.args.push_back({"a" + std::to_string(i)});
        break;
    case 4:
        for (size_t i = 0; i < n; i++)
            in.named.push_back({"k" + std::to_string(i % 11 / 2), {std::to_string(i)}});
        break;
    case 5:
    {
        Subs s;
        for (size_t i = 0; i < n; i++)
            s.push_back(i % 5 ? "v" : "");
        in.named = {{text(n), s}, {spaced(n), {spaced(n)}}};
        break;
    }
    case 6:
        in.name = "two words";
        in.args = {Subs(n, "x"), {spaced(n)}, Subs(n, "7")};
        break;
    }
    everyWay(table(), in);
}

MC_MAIN({"positional", positional}, {"named_arguments", namedArguments}, {"odd_texts", oddTexts}, {"refused", refused}, {"asked", asked}, {"histories", histories}, {"substitution", substitution}, {"sizes", sizes})
