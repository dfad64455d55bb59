// C15: source-level expressions, against a reference evaluator over the machine's state.
#include "dbg.h"
#include "srcgen.h"
#include "debugger/Source/Parser.h"
#include "debugger/Source/Source.h"

using namespace dbg;

static std::string mem_diff(Native& n, const State& st, const std::string& out) {
    Ref r;
    r.st = st;
    return compare(n, r, out);
}

static void prop(pbt::Ctx& c) {
    // ---- the debuggee: something stopped with arbitrary registers and memory
    gen::Prog p;
    p.m.nr = 6;
    p.m.nf = 1;
    p.m.nm = 40;
    p.text = {{Op::NOP}, {Op::HALT}};
    State st = p.init();
    src::Info info;
    bool wide = c.chance(1, 30);
    bool twins = !wide && c.chance(1, 6);  // structs of the same name which are not the same
    gen_types(c, info, (size_t)c.range(twins ? 4 : 0, 7), wide ? 24 : 8, twins);
    std::vector<size_t> namesakes;
    for (auto& t : info.types)
        for (auto& o : info.types)
            if (twins && t.k == src::Type::Struct && o.k == src::Type::Struct && t.id != o.id && t.name == o.name) namesakes.push_back(t.id);
    auto simple = [&](size_t id) {
        auto k = info.type(id)->k;
        return k != src::Type::Arr && k != src::Type::Struct;
    };
    int64_t next = c.range(0, 3);
    st.bp = c.range(10, 30);
    for (auto& r : st.r) r = c.range(0, 39);
    std::vector<src::Var> vs;
    size_t nv = (size_t)c.range(2, 7);
    for (size_t k = 0; k < nv; ++k) {
        src::Var v;
        v.name = std::string(1, (char)('p' + k));
        if (c.chance(1, 6)) v.name += "_1";
        v.type = !namesakes.empty() && c.boolean() ? c.pick(namesakes) : c.pick(info.types).id;
        int64_t a;
        using L = src::Loc;
        if ((simple(v.type) && c.chance(1, 4)) || (info.type(v.type)->k == src::Type::Arr && c.chance(1, 12))) {
            int r = (int)c.index(5);
            v.loc = {{L::PushReg, "R" + std::to_string(r), 0}};
            State tmp = st;
            src::fill(c, info, tmp, 0, v.type);
            st.r[(size_t)r] = tmp.mem[0];
        } else {
            a = c.chance(1, 20) ? c.range(30, 45) : next;
            next += (int64_t)info.size_of(v.type);
            switch (c.weighted({3, 3, 2})) {
            case 0: v.loc = {{L::PushNum, "", a}}; break;
            case 1: v.loc = {{L::BpOff, "", a - st.bp}}; break;
            default: v.loc = {{L::PushReg, "BP", 0}, {L::PushNum, "", a - st.bp}, {L::Add}};
            }
            src::fill(c, info, st, a, v.type);
        }
        vs.push_back(v);
    }
    if (c.chance(1, 3)) {
        src::Var v;
        v.name = "nowhere";
        v.type = info.types[0].id;
        v.has_loc = c.boolean();
        v.has_type = c.boolean();
        vs.push_back(v);
    }
    src::Scope sc{0, 2, vs, {}};
    info.fns.push_back({"main", 0, 2, {sc}});
    std::string text = ".debug_info\n" + src::Render(c).info(info);
    c.note(text + "\n--- memory:");
    for (auto m : st.mem) c.note(" " + std::to_string(m));
    c.note("\n--- registers:");
    for (auto m : st.r) c.note(" " + std::to_string(m));
    c.note(" BP " + std::to_string(st.bp) + "\n--- expressions ---\n");

    configure({});
    vm::reset();
    vm::IoCapture io("");
    Session s(p);
    Native& n = *s.native;
    if (!(map(n.WaitForDebugEvent()) == Event{Ev::Begin})) c.fail("first event");
    for (size_t i = 0; i < st.r.size(); ++i) n.SetRegister("R" + std::to_string(i), st.r[i]);
    n.SetRegister("BP", st.bp);
    n.SetMemory(0, st.mem);

    Source source;
    {
        std::istringstream is(text);
        ::dbg::Parser parser(is);
        auto di = parser.Parse();
        if (!di.top_die) c.fail("no debugging information parsed");
        source.RegisterDebuggingInformation(std::move(*di.top_die));
    }
    std::map<std::string, const src::Var*> vars;
    for (auto& v : vs) vars[v.name] = &v;
    std::vector<xr::Value> history;
    size_t ops = (size_t)c.range(1, c.chance(1, 20) ? 60 : 16);
    size_t good = 0, binary = 0;
    for (size_t k = 0; k < ops; ++k) {
        src::ExprGen g(c, info, vars, history);
        auto e = c.chance(1, 3) ? g.assignment() : g.expr((int)c.range(0, 3));
        xr::Toks t;
        size_t extra = c.chance(1, 4) ? 5 : 1000000;
        xr::tokens(e.n, 0, t, [&] { return extra < 100 && c.chance(1, extra); });
        {
            xr::Toks q = t;
            if (xr::dump(xr::Syntax(q).parse()) != xr::dump(e.n)) throw std::logic_error("reference grammar");
        }
        bool mutated = c.chance(1, 10);
        if (mutated) {
            for (size_t m = 0; m < 1 + c.index(2) && !t.empty(); ++m) {
                static const std::vector<std::string> junk = {"+", "-", "*", "(", ")", "[", "]", ".", "->", "$", "=", "==", "<", "&&", "!", "1", "0.5", "p", "q", ",", ":", "`", "{", "99999999999", "/", "%", ";"};
                size_t at = c.index(t.size());
                switch (c.index(3)) {
                case 0: t.erase(t.begin() + (long)at); break;
                case 1: t.insert(t.begin() + (long)at, c.pick(junk)); break;
                default: t[at] = c.pick(junk);
                }
            }
        }
        std::string line;
        size_t style = c.index(3);
        for (size_t i = 0; i < t.size(); ++i) {
            if (i && (xr::glued(t[i - 1], t[i]) || style == 1 || (style == 2 && c.chance(1, 3)))) line += c.chance(1, 10) ? "  " : " ";
            line += t[i];
        }
        if (line.find('#') != line.npos) continue;
        // the reference
        enum { Good, Bad, Skip } want = Good;
        xr::Value v;
        State after = st;
        std::string shown, shown_type;
        bool show_ok = true;
        std::string why;
        try {
            xr::N n = xr::Syntax(t).parse();
            xr::Eval ev(info, after, vars, history);
            v = ev.eval(n);
            if (ev.assignments) c.label("assignment");
            if (v.k == xr::Value::Float && std::isnan(v.d)) throw xr::Unspecified{};
            shown_type = ev.type_name(v);
            try {
                shown = ev.show(v);
            } catch (const xr::Error&) {
                show_ok = false;
            }
        } catch (const xr::SyntaxError&) {
            want = Bad;
            why = "syntax";
        } catch (const xr::Error& x) {
            want = Bad;
            why = x.why;
        } catch (const xr::Unspecified&) {
            want = Skip;
        }
        if (want == Skip) continue;
        c.note(line + "   -> " + (want == Bad ? "error (" + why + ")" : shown_type + " " + (show_ok ? shown : "(cannot be shown)")) + "\n");
        bool cache = c.chance(5, 6);
        TypedValue got;
        bool ok = true;
        std::string err;
        size_t idx = 0;
        try {
            std::tie(got, idx) = source.EvaluateExpression(n, line, cache);
        } catch (const DebuggerError& x) {
            ok = false;
            err = x.what();
        }
        st = after;
        if (ok != (want == Good)) c.fail("'" + line + "' " + (ok ? "was accepted" : "was refused: " + err));
        if (ok) {
            ++good;
            if (e.n->k == xr::Node::Bin) ++binary;
            if (cache) {
                if (idx != history.size()) c.fail("'" + line + "' is stored as $" + std::to_string(idx) + ", expected $" + std::to_string(history.size()));
                history.push_back(v);
            }
            std::string ty = source.TypedValueTypeToString(got);
            if (ty != shown_type) c.fail("'" + line + "' has type " + ty + ", reference " + shown_type);
            std::string r;
            bool sok = true;
            try {
                r = source.TypedValueToString(n, got);
            } catch (const DebuggerError&) {
                sok = false;
            }
            if (sok != show_ok) c.fail("'" + line + "' " + (sok ? "was shown as " + r + " though its text leaves memory" : "cannot be shown"));
            if (sok && r != shown) c.fail("'" + line + "' is " + r + ", reference " + shown);
        }
        if (k % 4 == 3 || ok) {
            std::string d = mem_diff(n, st, io.out.str());
            if (!d.empty()) c.fail("after '" + line + "': " + d);
        }
        if (mutated) c.label(want == Good ? "mutated-accepted" : "mutated-refused");
        else c.label(want == Good ? "accepted" : "refused:" + why);
    }
    s.terminate();
    if (good >= 2 && binary >= 1) c.nontrivial();
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C15";
    cfg.rule =
        "A case is generated debugging information (types, variables with location expressions), arbitrary registers and memory, and up to 16 "
        "expressions and assignments evaluated in one session, each compared with the reference evaluator. Non-trivial: at least two expressions "
        "evaluated without an error, one of them with a binary operator.";
    cfg.assumptions = {"shift counts within 0..63, pointer differences of one-cell types, no NaN results, types are well-founded"};
    cfg.quick_cases = 40000;
    cfg.thorough_cases = 3000000;
    cfg.quick_secs = 40;
    cfg.thorough_secs = 900;
    cfg.case_timeout = 10;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
