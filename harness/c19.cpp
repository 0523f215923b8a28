// C19: commands may use and change the bindings they run from.
#include "cu.h"
#include "interp.h"
#include "lexcheck.h"

#include <map>

namespace
{
    struct Act;
    // what one execution must give; filled in by the command's own body while it runs
    struct Frame
    {
        std::string output;
        std::vector<std::string> errors;
        std::optional<std::string> ret;
        bool called = false;
    };

    struct Sim
    {
        coil::Bindings bindings;
        std::map<std::string, std::map<size_t, int>> model; // name -> arity -> version of the function
        ref::Syntax syntax;
        std::vector<Frame*> frames;
        int nextVersion = 1;
        int budget = 0;    // how many more actions bodies may take
        int maxDepth = 3;
        bool probing = false;
        std::vector<int> probed;
        void (*actions)(coil::Context&, int) = nullptr;
    };
    Sim* sim;

    // the functions register themselves with a version number; bodies read their captures only before acting
    template<typename... Ts>
    auto makeFunction(int version)
    {
        return [version, owned = std::make_unique<std::string>("captured by version " + std::to_string(version))](coil::Context c, Ts... args) {
            int v = version;
            std::string captured = *owned;
            ref::Subvalues before = {cu::str(args)...};
            if (sim->probing)
            {
                sim->probed.push_back(v);
                return v;
            }
            MC_CHECK(!sim->frames.empty() && !sim->frames.back()->called, "a function was called although none should be");
            Frame& f = *sim->frames.back();
            f.called = true;
            std::string id = "v" + std::to_string(v) + ";";
            c.log(cu::string(id));
            f.output += id;
            coil::NamedArgs named = c.namedArgs();
            size_t namedCount = named.size();
            MC_CHECK(captured == "captured by version " + std::to_string(v), "the captured state is damaged");
            sim->actions(c, v);
            // nothing of the outer call changed
            ref::Subvalues after = {cu::str(args)...};
            MC_CHECK(before == after, "the arguments of a running command changed");
            MC_CHECK(c.namedArgs().size() == namedCount, "the named arguments of a running command changed");
            if (namedCount)
                MC_CHECK(cu::str(c.namedArgs().begin()->key) == "k" && cu::str(c.namedArgs().begin()->value.str()) == "val", "the named arguments of a running command changed");
            MC_CHECK(c.hasErrors() == !f.errors.empty(), "hasErrors is wrong");
            c.log("end;");
            f.output += "end;";
            if (f.errors.empty())
                f.ret = std::to_string(v);
            return v;
        };
    }

    void add(std::string const& name, int style)
    {
        int v = sim->nextVersion++;
        cu::Line l{name};
        coil::StringView n = l;
        switch (style)
        {
        case 0:
            sim->bindings[n] = makeFunction<>(v);
            sim->model[name] = {{0, v}};
            break;
        case 1:
        {
            int w = sim->nextVersion++;
            sim->bindings[n] = coil::overloaded(makeFunction<>(v), makeFunction<coil::String>(w));
            sim->model[name] = {{0, v}, {1, w}};
            break;
        }
        case 2:
            sim->bindings.add(n, makeFunction<coil::StringView>(v));
            sim->model[name] = {{1, v}};
            break;
        }
    }

    void remove(std::string const& name, bool byNull)
    {
        cu::Line l{name};
        if (byNull)
            sim->bindings[coil::StringView(l)] = nullptr;
        else
            sim->bindings.remove(coil::StringView(l));
        sim->model.erase(name);
    }

    // executes a line and compares everything with what the model and the body say
    void execute(std::string const& line)
    {
        ref::Input in = ref::parse(sim->syntax, line);
        Frame f;
        bool mustCall = false;
        if (in.error)
            f.errors.push_back("Syntax error: " + *in.error);
        else if (in.name.empty())
            f.errors.push_back("No function name is specified");
        else if (!sim->model.count(in.name))
            f.errors.push_back("No function '" + in.name + "' is registered");
        else
        {
            auto& arities = sim->model[in.name];
            if (arities.count(in.args.size()))
                mustCall = true;
            else
            {
                std::vector<size_t> counts;
                for (auto& a : arities)
                    counts.push_back(a.first);
                f.errors.push_back(ip::arityError(in.name, counts, in.args.size()));
            }
        }
        int version = mustCall ? sim->model[in.name][in.args.size()] : 0;
        if (!mustCall)
            f.called = true; // nothing may be called
        sim->frames.push_back(&f);
        size_t depth = sim->frames.size();
        MC_OP("%*sexecute %s", int(depth * 2), "", mc::show(line).c_str());
        {
            cu::Line l{line};
            auto r = sim->bindings.execute(coil::StringView(l));
            MC_CHECK(sim->frames.size() == depth, "executions are not nested");
            sim->frames.pop_back();
            MC_CHECK(f.called, "%s: nothing was called", line.c_str());
            if (mustCall)
                MC_CHECK(f.output.compare(0, 2 + std::to_string(version).size(), "v" + std::to_string(version) + ";") == 0, "%s called %s instead of version %d", line.c_str(), f.output.c_str(), version);
            MC_CHECK(cu::errors(r) == f.errors && cu::str(r.output) == f.output && cu::ret(r) == f.ret && (in.error || cu::same(cu::fromCoil(r.input), in)), "%s gives output %s, return %s, %zu errors; expected %s, %s, %zu", line.c_str(), cu::str(r.output).c_str(), cu::show(cu::ret(r)).c_str(), size_t(r.errors.size()), f.output.c_str(), cu::show(f.ret).c_str(), f.errors.size());
        }
        uint64_t h = mc::hashStr(line, mc::hashStr(f.output));
        for (auto& e : f.errors)
            h = mc::mix(h, mc::hashStr(e));
        mc::outcome(mc::mix(h, f.ret ? mc::hashStr(*f.ret) : 0));
    }

    // the table holds exactly what the model says
    void checkTable(std::vector<std::string> const& names)
    {
        sim->probing = true;
        uint64_t h = 11;
        for (auto& name : names)
        {
            auto it = sim->model.find(name);
            auto* cmd = sim->bindings.get(cu::view(name));
            MC_CHECK((cmd != nullptr) == (it != sim->model.end()), "%s is %s after the command returned", name.c_str(), cmd ? "registered" : "not registered");
            if (!cmd)
                continue;
            MC_CHECK(cu::str(cmd->name) == name && cmd->functors.size() == it->second.size(), "the description of %s is wrong", name.c_str());
            for (auto& [arity, version] : it->second)
            {
                coil::ExecutionInput in;
                in.name = cu::view(name);
                for (size_t i = 0; i < arity; i++)
                    in.arguments.pushBack(coil::Value{"x"});
                sim->probed.clear();
                auto r = sim->bindings.execute(std::move(in));
                MC_CHECK(r.errors.size() == 0 && sim->probed == std::vector<int>{version}, "%s with %zu arguments calls another version than %d", name.c_str(), arity, version);
                h = mc::mix(h, mc::hashStr(name) + arity * 1000 + uint64_t(version));
            }
        }
        mc::state(h);
        sim->probing = false;
    }

    std::vector<std::string> const names = {"a", "b", "c"};

    // one action of a running command
    void oneAction(coil::Context& c, int op)
    {
        Frame& f = *sim->frames.back();
        switch (op)
        {
        case 1: execute("a"); break;
        case 2: execute("b q"); break;
        case 3: execute("b"); break;
        case 4: execute("c 'x y' k=val"); break;
        case 5: execute("a 1 2"); break;       // no such arity
        case 6: execute("(oops"); break;       // syntax error
        case 7: MC_OP("  add a"); add("a", 0); break;
        case 8: MC_OP("  add b (2 overloads)"); add("b", 1); break;
        case 9: MC_OP("  add c"); add("c", 2); break;
        case 10: MC_OP("  remove a"); remove("a", false); break;
        case 11: MC_OP("  b = null"); remove("b", true); break;
        case 12: MC_OP("  clear"); sim->bindings.clear(); sim->model.clear(); break;
        case 13: MC_OP("  report an error"); c.reportError("own error"); f.errors.push_back("own error"); break;
        case 14: MC_OP("  log"); c.logf("log %d;", 7); f.output += "log 7;"; break;
        case 15:
            MC_OP("  change the lexer");
            if (sim->syntax.spaces == ref::Syntax{}.spaces)
            {
                sim->syntax.spaces = "_";
                sim->syntax.groups = "<>";
                coil::DefaultLexer lexer;
                sim->bindings.setLexer(coil::makeUnique<coil::DefaultLexer>(coil::DefaultLexer{"<>", cu::view(sim->syntax.quotes), cu::view(sim->syntax.separators), "_"}));
            }
            else
            {
                sim->syntax = {};
                sim->bindings.setLexer(coil::makeUnique<coil::DefaultLexer>());
            }
            break;
        case 16: execute("a_k=val"); break;
        case 17: execute("c_q"); break;
        }
    }
    constexpr int actionCount = 18;

    void chooseActions(coil::Context& c, int)
    {
        // at the deepest level only actions that execute nothing
        bool canNest = int(sim->frames.size()) < sim->maxDepth;
        while (sim->budget > 0)
        {
            int op = mc::choose(canNest ? actionCount : 10);
            if (op == 0)
                return;
            if (!canNest)
                op += 6;
            sim->budget--;
            oneAction(c, op);
        }
    }

    int depthOf(int asanQuick, int relQuick, int asanThorough, int relThorough) { return mc::thorough() ? (mc::asan() ? asanThorough : relThorough) : (mc::asan() ? asanQuick : relQuick); }
}

// every script of actions, from every command
static void scripts()
{
    Sim s;
    sim = &s;
    s.actions = chooseActions;
    add("a", 0);
    add("b", 1);
    if (mc::flip())
        add("c", 2);
    static char const* const firsts[] = {"a", "b", "b 'some text' k=val", "c z k=val"};
    bool later = mc::flip(); // one of the actions is taken by a second command instead
    s.budget = depthOf(3, 4, 4, 5) - later;
    execute(firsts[mc::choose(4)]);
    checkTable(names);
    // and at top level afterwards
    s.budget = later;
    execute(s.syntax.spaces == "_" ? "a_k=val" : "a k=val");
    s.budget = 0;
    execute("b");
    checkTable(names);
}

// a command that executes itself, deeper and deeper, then does something at the bottom
namespace
{
    int recursion;
    int bottom;
    void recurse(coil::Context& c, int)
    {
        if (recursion > 0)
        {
            recursion--;
            bool more = recursion > 0;
            execute(more && recursion % 2 ? "b q" : "a");
            if (recursion == 0 && bottom == 20)
                oneAction(c, 13);
            return;
        }
        if (bottom < actionCount && !((bottom >= 1 && bottom <= 6) || bottom >= 16))
            oneAction(c, bottom);
    }
}
static void deep()
{
    Sim s;
    sim = &s;
    s.actions = recurse;
    add("a", 0);
    add("b", 1);
    size_t n = chooseLength(mc::asan() ? 60 : 140, mc::asan() ? 60 : 520);
    bottom = mc::choose(actionCount + 3);
    recursion = int(n);
    MC_OP("%zu nested executions, then action %d", n, bottom);
    execute("a");
    checkTable(names);
    recursion = 0;
    bottom = 0;
    execute("b");
    checkTable(names);
}

// a running command adds and removes many commands
namespace
{
    size_t many;
    int manner;
    void grow(coil::Context& c, int)
    {
        if (!many)
            return;
        size_t n = many;
        many = 0;
        for (size_t i = 0; i < n; i++)
            add("n" + std::to_string(i), int(i % 3));
        if (manner == 1)
            for (size_t i = 0; i < n; i += 2)
                remove("n" + std::to_string(i), i % 4 == 0);
        if (manner == 2)
        {
            sim->bindings.clear();
            sim->model.clear();
            add("n0", 0);
        }
        if (manner == 3)
            remove("a", false);
        if (manner == 4)
            add("a", 1);
        execute("n0");
        execute("n1 q");
        execute("a");
        c.log("grown;");
        sim->frames.back()->output += "grown;";
    }
}
static void growing()
{
    Sim s;
    sim = &s;
    s.actions = grow;
    add("a", 0);
    add("b", 1);
    many = chooseLength(mc::asan() ? 40 : 140, mc::asan() ? 140 : 1100);
    manner = mc::choose(5);
    size_t n = many;
    MC_OP("%zu commands added, manner %d", n, manner);
    execute(mc::flip() ? "a k=val" : "b 'argument text that stays the same' k=val");
    std::vector<std::string> all = {"a", "b", "c"};
    for (size_t i = 0; i <= n; i++)
        all.push_back("n" + std::to_string(i));
    checkTable(all);
    mc::state(n * 10 + uint64_t(manner));
}

// long outputs and errors of outer and nested executions do not mix
namespace
{
    size_t outer, inner;
    void logs(coil::Context& c, int)
    {
        Frame& f = *sim->frames.back();
        bool top = sim->frames.size() == 1;
        std::string t = text(top ? outer : inner);
        c.log(cu::string(t));
        f.output += t;
        if (top)
        {
            execute("b q");
            c.log(cu::string(t));
            f.output += t;
            c.reportError(cu::string(t));
            f.errors.push_back(t);
            execute("a");
            c.log(cu::string(t));
            f.output += t;
        }
        else if (inner % 2)
        {
            c.reportError(cu::string(t + "!"));
            f.errors.push_back(t + "!");
        }
    }
}
static void longOutputs()
{
    Sim s;
    sim = &s;
    s.actions = logs;
    add("a", 0);
    add("b", 1);
    outer = chooseLength(70, 300);
    inner = chooseLength(70, 300);
    MC_OP("outer %zu inner %zu", outer, inner);
    execute("a");
    checkTable(names);
    mc::state(outer * 1000 + inner);
}

MC_MAIN({"scripts", scripts}, {"deep", deep}, {"growing", growing}, {"long_outputs", longOutputs})
