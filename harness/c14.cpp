// C14: where the execution is and what is visible there: functions, scopes, variables, locations.
#include "dbg.h"
#include "srcgen.h"
#include "debugger/Source/Parser.h"
#include "debugger/Source/Source.h"

using namespace dbg;

namespace {
struct Gen {
    pbt::Ctx& c;
    src::Info& info;
    size_t nvars = 0, nscopes = 0;
    std::string var_name() { return c.pick<std::string>({"a", "b", "x", "i", "tmp", "p_1", "R0", "ATTR"}); }
    src::LocX loc() {
        using L = src::Loc;
        auto reg = [&]() { return c.chance(1, 15) ? c.pick<std::string>({"R9", "XX"}) : c.pick<std::string>({"R0", "R1", "R2", "BP", "SP", "IP"}); };
        auto num = [&]() { return c.weighted({4, 2, 1}) == 0 ? c.range(0, 20) : c.boolean() ? c.range(-20, 20) : c.range(-INT32_MAX, INT32_MAX); };
        switch (c.weighted({3, 3, 3, 3})) {
        case 0: return {{L::BpOff, "", num()}};
        case 1: return {{L::PushReg, reg(), 0}};
        case 2: return {{L::PushReg, reg(), 0}, {L::PushNum, "", num()}, {L::Add}};
        default: {
            src::LocX x;
            size_t n = c.index(7);
            int depth = 0;
            for (size_t k = 0; k < n; ++k) {
                bool any = c.chance(1, 12);
                size_t w = c.weighted({3, 3, 3, 2, 3});
                if (!any && ((w == 2 && depth < 2) || (w == 4 && depth < 1))) w = c.index(2);
                switch (w) {
                case 0: x.push_back({L::PushReg, reg(), 0}); ++depth; break;
                case 1: x.push_back({L::PushNum, "", num()}); ++depth; break;
                case 2: x.push_back({L::Add}); --depth; break;
                case 3: x.push_back({L::BpOff, "", num()}); ++depth; break;
                default: x.push_back({L::Deref});
                }
            }
            return x;
        }
        }
    }
    std::vector<src::Var> vars(size_t max) {
        std::vector<src::Var> v;
        size_t n = c.index(max + 1);
        std::set<std::string> used;
        for (size_t k = 0; k < n; ++k) {
            src::Var x;
            x.name = var_name();
            if (!used.insert(x.name).second) continue;
            x.type = c.chance(1, 12) ? 9999 : c.pick(info.types).id;
            x.loc = loc();
            x.has_loc = !c.chance(1, 12);
            x.has_type = !c.chance(1, 12);
            v.push_back(x);
            ++nvars;
        }
        return v;
    }
    // disjoint scopes within [b, e)
    std::vector<src::Scope> scopes(uint64_t b, uint64_t e, int depth, bool body) {
        std::vector<src::Scope> r;
        uint64_t at = b;
        size_t n = body ? 1 : c.index(3);
        for (size_t k = 0; k < n && at < e; ++k) {
            src::Scope s;
            s.b = body && c.chance(3, 4) ? b : at + (c.boolean() ? c.index(e - at) : 0);
            s.e = body && c.chance(3, 4) ? e : s.b + (c.boolean() ? e - s.b : c.index(e - s.b + 1));
            s.vars = vars(3);
            if (depth > 0) s.subs = scopes(s.b, s.e, depth - 1, false);
            at = s.e;
            ++nscopes;
            r.push_back(s);
        }
        return r;
    }
};

void active(const std::vector<src::Scope>& v, uint64_t a, std::map<std::string, const src::Var*>& out, size_t& depth) {
    for (auto& s : v)
        if (s.b <= a && a < s.e) {
            ++depth;
            for (auto& x : s.vars) out[x.name] = &x;
            active(s.subs, a, out, depth);
        }
}
}  // namespace

static void prop(pbt::Ctx& c) {
    gen::Prog p;
    p.m.nr = 4;
    p.m.nf = 1;
    p.m.nm = 24;
    size_t T = (size_t)c.range(4, 16);
    bool large = c.chance(1, 60);
    if (large) {
        T = (size_t)c.range(100, 300);
        c.label("large program");
    }
    p.text.assign(T, {Op::NOP});
    p.text.back() = {Op::HALT};
    State st = p.init();
    for (auto& r : st.r) r = c.chance(1, 5) ? c.int64() : c.range(0, 30);
    for (auto& m : st.mem) m = c.chance(1, 5) ? c.int64() : c.range(0, 30);
    st.bp = c.range(0, 25);
    st.sp = c.range(0, 24);
    src::Info info;
    gen_types(c, info, (size_t)c.range(0, 4));
    Gen g{c, info};
    info.globals = g.vars(2);
    uint64_t at = 0;
    size_t nf = large ? 4 + c.index(30) : c.index(4);
    std::set<std::string> names;
    for (size_t k = 0; k < nf && at < T; ++k) {
        src::Fn f;
        f.name = c.pick<std::string>({"main", "f", "swap(int*, int*)", "g_2", "fib"});
        if (!names.insert(f.name).second) f.name += std::to_string(k);
        size_t room = large ? std::min<size_t>(T - at, 20) : T - at;
        f.b = at + (c.boolean() ? c.index(room) : 0);
        f.e = f.b + 1 + c.index((large ? std::min<size_t>(T - f.b, 20) : T - f.b) + (c.chance(1, 6) ? 3 : 0));
        f.scopes = g.scopes(f.b, f.e, large && c.boolean() ? 6 : 3, true);
        at = f.e;
        info.fns.push_back(f);
    }
    std::string text = ".debug_info\n" + src::Render(c).info(info);
    c.note(text + "\n--- registers:");
    for (auto m : st.r) c.note(" " + std::to_string(m));
    c.note(" BP " + std::to_string(st.bp) + " SP " + std::to_string(st.sp) + ", memory:");
    for (auto m : st.mem) c.note(" " + std::to_string(m));
    c.note("\n");

    configure({});
    vm::reset();
    vm::IoCapture io("");
    Session s(p);
    Native& n = *s.native;
    if (!(map(n.WaitForDebugEvent()) == Event{Ev::Begin})) c.fail("first event");
    for (size_t i = 0; i < st.r.size(); ++i) n.SetRegister("R" + std::to_string(i), st.r[i]);
    n.SetRegister("BP", st.bp);
    n.SetRegister("SP", st.sp);
    n.SetMemory(0, st.mem);
    Source source;
    {
        std::istringstream is(text);
        ::dbg::Parser parser(is);
        auto di = parser.Parse();
        if (!di.top_die) c.fail("no debugging information parsed");
        source.RegisterDebuggingInformation(std::move(*di.top_die));
    }
    std::set<std::string> all = {"a", "b", "x", "i", "tmp", "p_1", "R0", "ATTR", "nope", ""};
    size_t shadow = 0, deep = 0, computed = 0;
    auto look = [&](uint64_t a, bool go = true) {
        if (go) n.SetRegister("IP", (int64_t)a);
        st.ip = a;
        std::string A = " at " + std::to_string(a);
        std::map<std::string, const src::Var*> want;
        size_t seen = info.globals.size();
        for (auto& v : info.globals) want[v.name] = &v;
        std::optional<std::string> fn;
        for (auto& f : info.fns)
            if (f.b <= a && a < f.e) {
                fn = f.name;
                size_t depth = 0;
                active(f.scopes, a, want, depth);
                if (depth > 1) ++deep;
            }
        (void)seen;
        if (source.GetFunctionNameByAddress(a) != fn) c.fail("the function" + A + " is shown as " + source.GetFunctionNameByAddress(a).value_or("none"));
        std::set<std::string> vn;
        for (auto& [name, v] : want) vn.insert(name);
        if (source.GetScopedVariables(a) != vn) {
            std::string l;
            for (auto& x : source.GetScopedVariables(a)) l += " " + x;
            c.fail("the variables" + A + " are" + l);
        }
        std::vector<xr::Value> none;
        std::map<std::string, const src::Var*> vars;
        xr::Eval ev(info, st, want, none);
        for (auto& name : all) {
            const src::Var* v = want.count(name) ? want[name] : nullptr;
            std::string N = "'" + name + "'" + A;
            auto ty = source.GetVariableTypeInformation(n, name);
            bool has = v && v->has_type && info.type(v->type);
            if (ty.has_value() != has) c.fail("the type of " + N + (has ? " is not known" : " is known"));
            if (ty && source.TypeToString(*ty) != ev.type_str(v->type)) c.fail("the type of " + N + " is " + source.TypeToString(*ty));
            std::optional<expr::Location> loc;
            bool err = false, werr = false;
            try {
                loc = source.GetVariableLocation(n, name);
            } catch (const DebuggerError&) {
                err = true;
            }
            std::optional<xr::Eval::Place> wl;
            if (v && v->has_loc && !v->loc.empty()) {
                try {
                    wl = ev.location(v->loc);
                    if (v->loc.size() > 1) ++computed;
                } catch (const xr::Error&) {
                    werr = true;
                }
            }
            if (err != werr) c.fail("the location of " + N + (err ? " is refused" : " is found though its expression is invalid"));
            if (loc.has_value() != wl.has_value()) c.fail("the location of " + N + (loc ? " is known" : " is not known"));
            if (wl) {
                std::string ws = wl->reg.empty() ? "[" + std::to_string(wl->a) + "]" : wl->reg;
                if (expr::LocationToStr(*loc) != ws) c.fail("the location of " + N + " is " + expr::LocationToStr(*loc) + ", reference " + ws);
            }
            if (v) {
                size_t k = 0;
                for (auto& x : info.globals) k += x.name == name;
                for (auto& f : info.fns)
                    if (f.b <= a && a < f.e) {
                        std::function<void(const std::vector<src::Scope>&)> go = [&](const std::vector<src::Scope>& ss) {
                            for (auto& q : ss)
                                if (q.b <= a && a < q.e) {
                                    for (auto& x : q.vars) k += x.name == name;
                                    go(q.subs);
                                }
                        };
                        go(f.scopes);
                    }
                if (k > 1) ++shadow;
            }
        }
    };
    if (large)
        for (size_t k = 0; k < 12; ++k) look(c.index(T));
    else
        for (uint64_t a = 0; a < T; ++a) look(a);
    for (size_t k = c.index(4); k > 0; --k) {  // the state changes between two lookups, by the debugger or by running
        switch (c.index(4)) {
        case 0: {
            size_t r = c.index(st.r.size());
            st.r[r] = c.range(0, 30);
            n.SetRegister("R" + std::to_string(r), st.r[r]);
            c.note("R" + std::to_string(r) + " := " + std::to_string(st.r[r]) + "\n");
            break;
        }
        case 1:
            st.bp = c.range(0, 25);
            n.SetRegister("BP", st.bp);
            c.note("BP := " + std::to_string(st.bp) + "\n");
            break;
        case 2: {
            size_t a = c.index(st.mem.size());
            st.mem[a] = c.range(0, 30);
            n.SetMemory(a, {st.mem[a]});
            c.note("[" + std::to_string(a) + "] := " + std::to_string(st.mem[a]) + "\n");
            break;
        }
        default:
            if (st.ip + 2 < T) {
                c.note("step\n");
                if (!(map(n.PerformSingleStep()) == Event{Ev::Step})) c.fail("a single step");
                ++st.ip;
                look(st.ip, false);
                continue;
            }
        }
        look(c.boolean() ? st.ip : c.index(T));
    }
    std::set<std::string> fnames = {"main", "f", "swap(int*, int*)", "g_2", "fib", "nope", ""};
    for (auto& f : info.fns) fnames.insert(f.name);
    for (auto& name : fnames) {
        std::optional<std::pair<uint64_t, uint64_t>> want;
        for (auto& f : info.fns)
            if (f.name == name) want = {f.b, f.e};
        if (source.GetFunctionAddrByName(name) != want) c.fail("the addresses of function '" + name + "' are wrong");
    }
    std::string d = compare(n, [&] { Ref r; r.st = st; return r; }(), io.out.str());
    if (!d.empty()) c.fail("looking changed the debuggee: " + d);
    s.terminate();
    if (shadow) c.label("shadowed");
    if (deep) c.label("nested-scopes");
    if (computed) c.label("computed-location");
    if (g.nvars >= 2 && g.nscopes >= 1 && computed) c.nontrivial();
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C14";
    cfg.rule =
        "A case is generated debugging information (functions, nested scopes, variables that shadow each other, location programs), rendered as text; at "
        "every instruction address all lookups are compared with the reference. Non-trivial: two or more variables, a scope, and a location computed by "
        "two or more instructions.";
    cfg.assumptions = {"functions and sibling scopes do not overlap, a scope declares a name once"};
    cfg.quick_cases = 30000;
    cfg.thorough_cases = 2000000;
    cfg.quick_secs = 35;
    cfg.thorough_secs = 900;
    cfg.case_timeout = 10;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
