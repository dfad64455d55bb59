// Model-based sessions against the native debugger: random command histories, every visible
// result compared with the reference debugger (dbg.h).
#pragma once
#include "dbg.h"
#include "funcgen.h"
#include "srcinfo.h"
#include "debugger/Source/Parser.h"
#include "debugger/Source/Source.h"

namespace dbg {

struct Mix {
    unsigned bp = 4, bp_all = 1, wp = 2, wp_all = 1, cont = 5, step = 4, over = 0, out = 0;
    unsigned read = 1, write_reg = 0, write_freg = 0, write_mem = 0, write_text = 0, write_ip = 0;
    unsigned src_step = 0, src_next = 0, src_query = 0;  // source level: needs `lines`
    bool lines = false;          // give the session a line mapping
    bool functions = false;      // programs made of functions (needed by step over / step out)
    bool faults = true;
    size_t max_ops = 30;

    // Half of the histories mix in, rarely, the commands that are not this property's own subject.
    void widen(pbt::Ctx& c, bool writes = true) {
        if (c.boolean()) return;
        if (c.chance(1, 3)) functions = true;
        for (unsigned* w : {&bp, &bp_all, &wp, &wp_all, &cont, &step, &over, &out, &read})
            if (!*w && c.boolean()) *w = 1;
        if (writes && c.chance(1, 3))
            for (unsigned* w : {&write_reg, &write_freg, &write_mem, &write_text, &write_ip})
                if (!*w && c.boolean()) *w = 1;
    }
};

struct Stats {
    size_t breaks = 0, watches = 0, steps = 0, overs = 0, outs = 0, conts = 0, writes = 0, writes_then_run = 0, errors = 0, ends = 0;
    size_t bp_ops = 0, overcalls = 0, recursion = 0;
    size_t src_steps = 0, src_long = 0, src_stops = 0;
};

class Fuzz {
public:
    Fuzz(pbt::Ctx& c, Mix m) : c(c), mix(m) {}
    Stats stats;
    Ref ref;

    void run() {
        gen::Prog p = make_program();
        CpuSizes sz;
        if (c.boolean()) {
            sz.alu = c.range(1, 4);
            sz.gates = c.range(1, 4);
        }
        configure(sz);
        c.note("# alus " + std::to_string(sz.alu) + ", ram gates " + std::to_string(sz.gates) + "\n" + gen::render(p) + "--- commands ---\n");
        vm::reset();
        vm::IoCapture io(p.input);
        io_ = &io;
        Session s(p);
        n = s.native.get();
        ref.st = p.init();
        ref.text = p.text;
        ref.frames = mix.functions;
        foresee();
        for (auto& i : p.text) shown.push_back(canonical(ins_text(i)));
        if (mix.lines) make_source();
        Event e = map(n->WaitForDebugEvent());
        if (!(e == Event{Ev::Begin})) c.fail("first event is " + e.str());
        verify();
        size_t ops = (size_t)c.range(1, (int64_t)mix.max_ops);
        for (size_t i = 0; i < ops && !ref.over(); ++i) op();
        if (!ref.over() && c.chance(3, 4)) {  // let it finish, breakpoints and all
            for (int k = 0; k < 30 && !ref.over(); ++k)
                if (!resume_cont()) break;
        }
        check_text();
        check_lists();
        if (ref.over() && c.chance(1, 3) && !ref.enabled(ref.st.ip) && !ref.enabled(ref.st.ip + 1)) {
            n->ContinueExecution();  // the debuggee ends
            s.join();
            if (s.ok != (ref.st.err == Err::None)) c.fail("the run's result is wrong");
        } else
            s.terminate();
        if (io.out.str() != ref.st.out) c.fail("output after the end: \"" + io.out.str() + "\"");
        if (ref.st.halted) ++stats.ends;
        if (ref.st.err != Err::None) ++stats.errors;
    }

    gen::Prog make_program() {
        gen::Prog p = make_small_program();
        if (c.chance(1, 200)) gen::moved_up(c, p);
        return p;
    }
    gen::Prog make_small_program() {
        if (mix.functions) {
            FuncGen g(c);
            if (c.chance(1, 60)) {
                g.deep = true;
                c.label("deep recursion");
            }
            return g.make();
        }
        gen::Machine0 m;
        m.nr = c.range(1, 6);
        m.nf = c.range(0, 3);
        if (c.chance(1, 30)) {
            m.nr = c.pick<size_t>({11, 13, 24});
            m.nf = c.pick<size_t>({6, 11});
        }
        m.nm = c.pick<size_t>({24, 8, 40});
        if (c.chance(1, 800)) {
            m.nm = c.pick<size_t>({70000, 66000});
            c.label("large memory");
        }
        gen::Opts o;
        if (m.nm > 2000) o.stack_weight = 8;
        o.max_text = c.pick<size_t>({8, 16, 30});
        o.max_steps = 200;
        o.faults = mix.faults && c.chance(1, 5);
        if (c.chance(1, 2)) o.mem_weight = 14;
        gen::ProgGen g(c, m, o);
        return g.run();
    }

    // what the program will do if left alone: where commands are interesting
    void foresee() {
        State st = ref.st;
        std::set<uint64_t> w, x;
        for (int k = 0; k < 300 && !st.halted && st.err == Err::None && st.ip < ref.text.size(); ++k) {
            if (unspecified(st, ref.text[st.ip])) break;
            x.insert(st.ip);
            Machine m(std::move(st), &ref.text);
            m.step();
            st = std::move(m.st);
            if (st.err == Err::None) w.insert(st.last_writes.begin(), st.last_writes.end());
        }
        future_writes.assign(w.begin(), w.end());
        future_ips.assign(x.begin(), x.end());
    }
    void verify(bool mem = true) {
        std::string d = compare(*n, ref, io_->out.str(), mem);
        if (!d.empty()) c.fail(d);
    }
    void check_text() {
        auto t = n->ReadText(0, ref.text.size());
        if (t != shown) {
            for (size_t i = 0; i < std::min(t.size(), shown.size()); ++i)
                if (t[i] != shown[i]) {
                    if (t[i].empty() && carried.count(i)) {
                        c.known("carried-disabled-breakpoint-text", "text at " + std::to_string(i) + " is shown as nothing");
                        t[i] = shown[i];
                        continue;
                    }
                    c.fail("text at " + std::to_string(i) + " shown as '" + t[i] + "', is '" + shown[i] + "'");
                }
            if (t != shown) c.fail("text read has " + std::to_string(t.size()) + " instructions");
        }
    }
    void check_lists() {
        auto& b = n->GetBreakpoints();
        if (b.size() != ref.bps.size()) c.fail("breakpoint list has " + std::to_string(b.size()) + " entries");
        for (auto& [a, bp] : b)
            if (!ref.bps.count(a) || ref.bps[a] != bp.enabled) c.fail("breakpoint list wrong at " + std::to_string(a));
        auto& w = n->GetWatchpoints();
        if (w.size() != ref.wps.size()) c.fail("watchpoint list has " + std::to_string(w.size()) + " entries");
        for (auto& [a, wp] : w)
            if (!ref.wps.count(a)) c.fail("watchpoint list wrong at " + std::to_string(a));
    }

    // Runs a management command; `ok` says whether it must succeed.
    template <class F> void manage(const std::string& what, bool ok, F f) {
        c.note(what + (ok ? "" : " (must be refused)") + "\n");
        try {
            f();
        } catch (const DebuggerError& e) {
            if (ok) c.fail(what + " was refused: " + e.what());
            return;
        }
        if (!ok) c.fail(what + " was accepted");
    }

    void stopped(Event want, Event got, const std::string& what) {
        if (want.kind == Ev::Break) ++stats.breaks;
        if (want.kind == Ev::Watch) ++stats.watches;
        if (!(want == got)) {
            // arriving on an enabled breakpoint by stepping may be reported either way
            bool same = (what == "step over" || what == "step out") && want.kind == Ev::Step && got.kind == Ev::Break &&
                        ref.enabled(ref.st.ip) && got.addr == ref.st.ip;
            if (!same) c.fail(what + " reported '" + got.str() + "', reference '" + want.str() + "' (IP " + std::to_string(ref.st.ip) + ")");
        }
        verify();
    }
    bool resume_cont() {
        Event want;
        if (!attempt(ref, want, [](Ref& r) { return r.cont(); })) return false;
        c.note("continue -> " + want.str() + "\n");
        n->ContinueExecution();
        stopped(want, map(n->WaitForDebugEvent()), "continue");
        ++stats.conts;
        return true;
    }

    uint64_t text_addr() {
        if (!future_ips.empty() && !c.chance(1, 4)) return c.pick(future_ips);
        return (uint64_t)c.range(0, (int64_t)ref.text.size() - 1);
    }
    uint64_t mem_addr() {
        if (!future_writes.empty() && !c.chance(1, 3)) return c.pick(future_writes);
        switch (c.weighted({3, 2, 2})) {
        case 0: return (uint64_t)c.range(0, std::min<int64_t>(3, (int64_t)ref.st.mem.size() - 1));
        case 1: {
            int64_t a = ref.st.sp - 1 - (int64_t)c.index(3);
            if (a >= 0 && a < (int64_t)ref.st.mem.size()) return (uint64_t)a;
            return 0;
        }
        default: return (uint64_t)c.range(0, (int64_t)ref.st.mem.size() - 1);
        }
    }

    void op() {
        switch (last_op = c.weighted({mix.cont, mix.step, mix.bp, mix.bp_all, mix.wp, mix.wp_all, mix.over, mix.out, mix.read, mix.write_reg,
                            mix.write_freg, mix.write_mem, mix.write_text, mix.write_ip, mix.src_step, mix.src_next, mix.src_query})) {
        case 0: resume_cont(); break;
        case 1: {
            Event want;
            if (!attempt(ref, want, [](Ref& r) { return r.step(); })) return;
            c.note("step -> " + want.str() + "\n");
            stopped(want, map(n->PerformSingleStep()), "single step");
            ++stats.steps;
            break;
        }
        case 2: bp_op(); break;
        case 3: {
            std::map<uint64_t, SoftwareBreakpoint> m;
            std::map<uint64_t, bool> w;
            size_t k = c.index(4);
            std::string t;
            for (size_t i = 0; i < k; ++i) {
                uint64_t a = text_addr();
                bool en = !c.chance(1, 3);
                m[a] = SoftwareBreakpoint{"", en};
                w[a] = en;
            }
            for (auto& [a, en] : w) t += " " + std::to_string(a) + (en ? "" : "(disabled)");
            manage("replace all breakpoints by" + t, true, [&] { n->SetAllBreakpoints(m); });
            ref.bps = w;
            carried.clear();
            for (auto& [a, en] : w)
                if (!en) carried.insert(a);
            ++stats.bp_ops;
            check_lists();
            check_text();
            break;
        }
        case 4: wp_op(); break;
        case 5: {
            std::map<uint64_t, Watchpoint> m;
            std::set<uint64_t> w;
            size_t k = c.index(5);
            std::string t;
            for (size_t i = 0; i < k; ++i) {
                uint64_t a = mem_addr();
                m[a] = Watchpoint{Watchpoint::Type::Write, 0};
                w.insert(a);
            }
            for (auto a : w) t += " " + std::to_string(a);
            manage("replace all watchpoints by" + t, true, [&] { n->SetAllWatchpoints(m); });
            ref.wps = w;
            check_lists();
            break;
        }
        case 6: {
            if (carried_call()) return;
            Event want;
            bool call = ref.st.ip < ref.text.size() && ref.text[ref.st.ip].op == Op::CALL;
            if (!attempt(ref, want, [](Ref& r) { return r.step_over(); })) return;
            c.note("step over -> " + want.str() + "\n");
            stopped(want, map(n->PerformStepOver()), "step over");
            ++stats.overs;
            if (call) ++stats.overcalls;
            check_lists();
            break;
        }
        case 7: {
            if (carried_call()) return;
            Event want;
            if (!attempt(ref, want, [](Ref& r) { return r.step_out(); })) return;
            c.note("step out -> " + want.str() + "\n");
            stopped(want, map(n->PerformStepOut()), "step out");
            ++stats.outs;
            check_lists();
            break;
        }
        case 8: read_op(); break;
        case 9: {
            int k = (int)c.index(ref.st.r.size() + 2);
            int r = k == 0 ? SP : k == 1 ? BP : k - 2;
            int64_t v = r < 0 ? c.range(0, (int64_t)ref.st.mem.size()) : c.int64();
            manage("set " + reg_name(r) + " = " + std::to_string(v), true, [&] { n->SetRegister(reg_name(r), v); });
            if (r < 0) ref.frames = false;
            (r == SP ? ref.st.sp : r == BP ? ref.st.bp : ref.st.r[r]) = v;
            if (n->GetRegister(reg_name(r)) != v) c.fail("register does not read back");
            wrote();
            break;
        }
        case 10: {
            if (ref.st.f.empty()) return;
            size_t i = c.index(ref.st.f.size());
            double v = c.boolean() ? (double)c.range(-1000000, 1000000) / 1000.0 : as_double(c.int64());
            if (std::isnan(v)) v = 0.1;
            std::string name = "F" + std::to_string(i);
            manage("set " + name + " = " + float_text(v), true, [&] { n->SetFloatRegister(name, v); });
            ref.st.f[i] = as_bits(v);
            if (as_bits(n->GetFloatRegister(name)) != as_bits(v)) c.fail("float register does not read back");
            wrote();
            break;
        }
        case 11: {
            uint64_t a = mem_addr();
            std::vector<int64_t> v;
            size_t k = 1 + c.index(4);
            std::string t;
            for (size_t i = 0; i < k; ++i) {
                v.push_back(c.int64());
                t += " " + std::to_string(v.back());
            }
            if (c.chance(1, 12)) a = c.boolean() ? ref.st.mem.size() + c.index(3) : UINT64_MAX - c.index(3);
            bool ok = a < ref.st.mem.size() && k <= ref.st.mem.size() - a;
            ref.frames = false;
            manage("write memory " + std::to_string(a) + ":" + t, ok, [&] { n->SetMemory(a, v); });
            if (ok)
                for (size_t i = 0; i < k; ++i) ref.st.mem[a + i] = v[i];
            wrote();
            break;
        }
        case 12: text_op(); break;
        case 14: case 15: return op_source(last_op == 15);
        case 16: return source_query();
        default: {
            uint64_t a = text_addr();
            manage("set IP = " + std::to_string(a), true, [&] { n->SetRegister("IP", (int64_t)a); });
            ref.st.ip = a;
            ref.frames = false;
            wrote();
        }
        }
    }
    // ---- source level
    void make_source() {
        src::Info in;
        in.has_lines = true;
        in.has_info = c.boolean();
        in.has_source = c.boolean();
        size_t nl = c.index(14), T = ref.text.size();
        for (size_t k = 0; k < nl; ++k) {
            size_t line = c.index(20);
            in.lines[line] = c.chance(1, 25) ? T + c.index(3) : c.chance(2, 3) && !future_ips.empty() ? c.pick(future_ips) : c.index(T);
        }
        lines_ = in.lines;
        if (in.has_info) {
            size_t nf = c.index(3);
            for (size_t k = 0; k < nf; ++k) {
                uint64_t b = c.index(T);
                in.fns.push_back({k == 0 ? "main" : "f" + std::to_string(k), b, b + 1 + c.index(T - b), {}});
            }
        }
        fns_ = in.fns;
        if (in.has_source) {
            size_t k = c.index(25);
            for (size_t i = 0; i < k; ++i) {
                std::string l = c.pick<std::string>({"", "x", "int a;", "  .text", "  \t indented # not a comment", "\"quote", "}"});
                source_lines.push_back(l);
                in.source += l + "\n";
            }
            if (k && c.chance(1, 3) && !source_lines.back().empty()) in.source.pop_back();
        }
        std::string t = src::Render(c).sections(in);
        c.note("--- debugging information ---\n" + t + "---\n");
        std::istringstream is(t);
        ::dbg::Parser parser(is);
        auto di = parser.Parse();
        has_source = in.has_source;
        if (!di.line_mapping || di.top_die.has_value() != in.has_info || di.source_code.has_value() != in.has_source)
            c.fail("sections of the debugging information were lost");
        source.RegisterLineMapping(*di.line_mapping);
        if (di.top_die) source.RegisterDebuggingInformation(std::move(*di.top_die));
        if (di.source_code) source.RegisterSourceFile(*di.source_code);
    }
    std::optional<size_t> line_at(uint64_t a) const {
        std::optional<size_t> r;
        for (auto& [l, x] : lines_)
            if (x == a && (!r || l > *r)) r = l;
        return r;
    }
    void op_source(bool over) {
        if (over && carried_call()) return;
        Event want;
        size_t inner = 0;
        auto f = [&](Ref& r) {
            Event e = over ? r.step_over() : r.step();
            while (e.kind == Ev::Step && !line_at(r.st.ip)) {
                ++inner;
                if (r.enabled(r.st.ip)) return Event{Ev::Break, r.st.ip};
                e = over ? r.step_over() : r.step();
            }
            return e;
        };
        if (!attempt(ref, want, f)) return;
        std::string what = over ? "source next" : "source step";
        c.note(what + " -> " + want.str() + "\n");
        Event got = map(over ? source.StepOver(*n) : source.StepIn(*n));
        if (want.kind == Ev::Break) ++stats.breaks;
        if (want.kind == Ev::Watch) ++stats.watches;
        bool either = want.kind == Ev::Step && got.kind == Ev::Break && ref.enabled(ref.st.ip) && got.addr == ref.st.ip;
        if (!(want == got) && !either)
            c.fail(what + " reported '" + got.str() + "', reference '" + want.str() + "' (IP " + std::to_string(ref.st.ip) + ")");
        verify();
        check_lists();
        ++stats.src_steps;
        if (inner) ++stats.src_long;
        if (inner && want.kind != Ev::Step) ++stats.src_stops;
    }
    void source_query() {
        for (uint64_t a = 0; a < ref.text.size() + 3; ++a) {
            auto got = source.AddrToLine(a), want = line_at(a);
            if (got != want) c.fail("line of address " + std::to_string(a) + " is " + (got ? std::to_string(*got) : "unknown"));
            std::optional<std::string> fn;
            for (auto& f : fns_)
                if (!fn && f.b <= a && a < f.e) fn = f.name;
            auto gf = source.GetFunctionNameByAddress(a);
            size_t covering = 0;
            for (auto& f : fns_) covering += f.b <= a && a < f.e;
            if (covering < 2 && gf != fn) c.fail("function of address " + std::to_string(a) + " is " + gf.value_or("unknown"));
        }
        for (size_t l = 0; l < 22; ++l) {
            auto got = source.LineToAddr(l);
            auto it = lines_.find(l);
            if (got.has_value() != (it != lines_.end()) || (got && *got != it->second))
                c.fail("address of line " + std::to_string(l) + " is " + (got ? std::to_string(*got) : "unknown"));
        }
        // what the commands accept as a place
        bool one = c.boolean();
        std::string t;
        std::optional<uint64_t> want;
        switch (c.index(3)) {
        case 0: {
            size_t l = c.index(22);
            t = std::to_string(l);
            if (one ? l >= 1 : true) {
                auto it = lines_.find(l - one);
                if (it != lines_.end()) want = it->second;
            }
            break;
        }
        case 1:
            t = fns_.empty() || c.boolean() ? "f9" : c.pick(fns_).name;
            for (auto& f : fns_)
                if (f.name == t) want = f.b;
            break;
        default: t = c.pick<std::string>({"", "-1", "3x", "99999999999999999999", " 1", "+1", "0x1", "1.0"});
        }
        uint64_t got = 0;
        manage("place '" + t + "'" + (one ? " (lines from one)" : ""), want.has_value(), [&] { got = source.GetAddressFromString(t, one); });
        if (want && got != *want) c.fail("place '" + t + "' is address " + std::to_string(got));
        // the source text
        size_t i = c.index(27), k = c.index(6);
        auto r = source.GetLinesRange(i, k);
        std::vector<std::string> w;
        for (size_t j = i; j < i + k && j < source_lines.size(); ++j) w.push_back(source_lines[j]);
        if (std::vector<std::string>(r.begin(), r.end()) != w) c.fail("source lines " + std::to_string(i) + "+" + std::to_string(k) + " are wrong");
        auto gl = source.GetLine(i);
        if (gl.has_value() != (i < source_lines.size()) || (gl && *gl != source_lines[i])) c.fail("source line " + std::to_string(i) + " is wrong");
        if (has_source) {
            if (source.GetLines() != source_lines) c.fail("the source text is wrong");
        } else
            manage("all source lines", false, [&] { source.GetLines(); });
    }

    // a disabled breakpoint put back by `replace all` hides a call or return from the debugger (open finding)
    bool carried_call() const {
        for (auto a : carried)
            if (a < ref.text.size() && (ref.text[a].op == Op::CALL || ref.text[a].op == Op::RET)) return true;
        return false;
    }
    void wrote() {
        ++stats.writes;
        verify();
    }
    void text_op() {
        uint64_t a = text_addr();
        gen::Machine0 m{ref.st.r.size(), ref.st.f.size(), ref.st.mem.size()};
        gen::Opts o;
        gen::ProgGen g(c, m, o);
        g.T = ref.text.size();
        size_t k = 1 + c.index(3);
        std::vector<std::string> t;
        std::vector<Ins> ins;
        std::string r;
        bool bad = c.chance(1, 10);
        for (size_t i = 0; i < k; ++i) {
            State s = ref.st;
            s.ip = a + i;
            Ins in = c.boolean() ? g.candidate(s) : g.wild();
            ins.push_back(in);
            t.push_back(ins_text(in));
        }
        if (bad && k == 1) t[0] = c.pick<std::string>({"MOV R0", "FOO R0, 1", "MOV 1, R0", "ADD F0, R0", "", "NOP NOP", "MOV R0, R1 + 1", "99999999999999999999", "\"MOV", "@", "'", "MOV R0, 99999999999", "MOV R0, \x80", "ADD R0, 1 ]", "."});
        else bad = false;
        if (c.chance(1, 12)) a = c.boolean() ? ref.text.size() : UINT64_MAX - c.index(3);
        for (auto& x : t) r += " " + x + ";";
        bool ok = !bad && a < ref.text.size() && k <= ref.text.size() - a;
        manage("write text at " + std::to_string(a) + ":" + r, ok, [&] { n->WriteText(a, t); });
        ref.frames = false;
        if (ok)
            for (size_t i = 0; i < k; ++i) {
                ref.text[a + i] = ins[i];
                shown[a + i] = canonical(t[i]);
                carried.erase(a + i);
            }
        check_text();
        wrote();
    }
    void read_op() {
        switch (c.index(3)) {
        case 0: {
            uint64_t a = c.chance(1, 8) ? UINT64_MAX - c.index(3) : (uint64_t)c.range(0, (int64_t)ref.text.size());
            size_t k = 1 + c.index(4);
            bool ok = a < ref.text.size() && k <= ref.text.size() - a;
            std::vector<std::string> t;
            manage("read text " + std::to_string(a) + " " + std::to_string(k), ok, [&] { t = n->ReadText(a, k); });
            if (ok)
                for (size_t i = 0; i < k; ++i)
                    if (t.size() != k || (t[i] != shown[a + i] && !(t[i].empty() && carried.count(a + i)))) c.fail("text read at " + std::to_string(a + i) + " is wrong");
            break;
        }
        case 1: {
            uint64_t a = c.chance(1, 8) ? UINT64_MAX - c.index(3) : (uint64_t)c.range(0, (int64_t)ref.st.mem.size());
            size_t k = 1 + c.index(4);
            bool ok = a < ref.st.mem.size() && k <= ref.st.mem.size() - a;
            std::vector<int64_t> t;
            manage("read memory " + std::to_string(a) + " " + std::to_string(k), ok, [&] { t = n->ReadMemory(a, k); });
            if (ok)
                for (size_t i = 0; i < k; ++i)
                    if (t.size() != k || t[i] != ref.st.mem[a + i]) c.fail("memory read at " + std::to_string(a + i) + " is wrong");
            break;
        }
        default: {
            std::string name = c.pick<std::string>({"R99", "F0", "XX", "", "R0x", "FLAGX"});
            manage("read register '" + name + "'", false, [&] { n->GetRegister(name); });
            manage("write register '" + name + "'", false, [&] { n->SetRegister(name, 1); });
            if (n->TextSize() != ref.text.size()) c.fail("text size");
        }
        }
        verify();
    }
    // breakpoints by line: the same operations at the address the line maps to
    void line_bp_op() {
        size_t line = lines_.empty() || c.chance(1, 8) ? c.index(22) : std::next(lines_.begin(), c.index(lines_.size()))->first;
        auto it = lines_.find(line);
        bool known = it != lines_.end();
        uint64_t a = known ? it->second : 0;
        bool inside = known && a < ref.text.size(), has = inside && ref.bps.count(a);
        uint64_t got = a;
        std::string L = "line " + std::to_string(line);
        size_t k = has ? 1 + c.index(3) : c.weighted({8, 1, 1, 1});
        ++stats.bp_ops;
        switch (k) {
        case 0:
            manage("break at " + L, inside && !has, [&] { got = source.SetSourceSoftwareBreakpoint(*n, line); });
            if (inside && !has) ref.bps[a] = true;
            break;
        case 1:
            manage("remove breakpoint at " + L, has, [&] { got = source.UnsetSourceSoftwareBreakpoint(*n, line); });
            if (has) ref.bps.erase(a), carried.erase(a);
            break;
        case 2:
            manage("disable breakpoint at " + L, has, [&] { got = source.DisableSourceSoftwareBreakpoint(*n, line); });
            if (has) ref.bps[a] = false;
            break;
        default:
            manage("enable breakpoint at " + L, has, [&] { got = source.EnableSourceSoftwareBreakpoint(*n, line); });
            if (has) ref.bps[a] = true, carried.erase(a);
        }
        if (got != a) c.fail("the breakpoint at " + L + " is at " + std::to_string(got));
        check_lists();
        if (c.chance(1, 3)) check_text();
    }
    void bp_op() {
        if (mix.lines && c.boolean()) return line_bp_op();
        uint64_t a = text_addr();
        ++stats.bp_ops;
        bool has = ref.bps.count(a);
        // mostly operate on existing breakpoints when not setting
        size_t k = c.weighted({6, 2, 2, 2});
        if (k && !has && !ref.bps.empty() && !c.chance(1, 8)) {
            auto it = ref.bps.begin();
            std::advance(it, c.index(ref.bps.size()));
            a = it->first;
            has = true;
        }
        std::string A = std::to_string(a);
        switch (k) {
        case 0:
            if (c.chance(1, 15)) {
                a = c.boolean() ? ref.text.size() + c.index(3) : UINT64_MAX;
                manage("break " + std::to_string(a), false, [&] { n->SetBreakpoint(a); });
                break;
            }
            manage("break " + A, !has, [&] { n->SetBreakpoint(a); });
            if (!has) ref.bps[a] = true;
            break;
        case 1:
            manage("remove breakpoint " + A, has, [&] { n->UnsetBreakpoint(a); });
            ref.bps.erase(a);
            carried.erase(a);
            break;
        case 2:
            manage("disable breakpoint " + A, has, [&] { n->DisableSoftwareBreakpoint(a); });
            if (has) ref.bps[a] = false;
            break;
        default:
            manage("enable breakpoint " + A, has, [&] { n->EnableSoftwareBreakpoint(a); });
            if (has) ref.bps[a] = true;
            carried.erase(a);
        }
        check_lists();
        if (c.chance(1, 3)) check_text();
    }
    void wp_op() {
        uint64_t a = mem_addr();
        std::string A = std::to_string(a);
        bool has = ref.wps.count(a);
        if (!ref.wps.empty() && c.chance(1, 3)) {
            auto it = ref.wps.begin();
            std::advance(it, c.index(ref.wps.size()));
            a = *it;
            A = std::to_string(a);
            manage("remove watchpoint " + A, true, [&] { n->RemoveWatchpoint(a); });
            ref.wps.erase(a);
        } else if (c.chance(1, 12) && !has) {
            manage("remove watchpoint " + A, false, [&] { n->RemoveWatchpoint(a); });
        } else {
            bool ok = !has && ref.wps.size() < 4;
            manage("watch " + A, ok, [&] { n->SetWatchpointWrite(a); });
            if (ok) ref.wps.insert(a);
        }
        check_lists();
    }

    pbt::Ctx& c;
    Mix mix;
    size_t last_op = 0;
    ::Source source;
    std::map<size_t, uint64_t> lines_;
    std::vector<src::Fn> fns_;
    std::vector<std::string> source_lines;
    bool has_source = false;
    Native* n = nullptr;
    vm::IoCapture* io_ = nullptr;
    std::vector<uint64_t> future_writes, future_ips;
    std::vector<std::string> shown;
    std::set<uint64_t> carried;  // disabled breakpoints put back by `replace all`, never enabled since
};

}  // namespace dbg
