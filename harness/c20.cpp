// C20: the VM's debugging interface as a client speaking the text protocol sees it.
#include "dbg.h"

using namespace dbg;

namespace {
enum class Why { Start, Sw, Hw, Step, Halt, Error };
const char* reason_name(Why w) {
    static const char* n[] = {"START", "SW_BKPT", "HW_BKPT", "SINGLESTEP", "HALT", "CPU_ERROR"};
    return n[(int)w];
}

// The machine with its debug registers, one request or resume at a time.
struct Vm {
    State st;
    std::vector<Ins> text;
    uint64_t d[5] = {};
    Why why = Why::Start;
    size_t steps = 0;
    bool over() const { return st.halted || st.err != Err::None; }

    void resume(bool trap) {
        for (size_t budget = 500; budget; --budget) {
            if (st.ip >= text.size()) throw Unspecified{};
            ++steps;
            if (text[st.ip].op == Op::BKPT) {
                ++st.ip;
                why = Why::Sw;
                return;
            }
            if (unspecified(st, text[st.ip])) throw Unspecified{};
            Machine m(std::move(st), &text);
            m.step();
            st = std::move(m.st);
            if (st.nan) throw Unspecified{};
            if (st.err != Err::None) {
                why = Why::Error;
                return;
            }
            if (st.halted) {
                why = Why::Halt;
                return;
            }
            bool hit = false;
            if (st.last_writes.size() > 1) throw Unspecified{};
            for (auto a : st.last_writes) {
                int n = 0;
                for (int i = 0; i < 4; ++i)
                    if ((d[4] >> i & 1) && d[i] == a) {
                        d[4] = (d[4] & ~0xff00ull) | (256ull << i);
                        hit = true;
                        ++n;
                    }
                if (n > 1) throw Unspecified{};  // two registers on one cell: which is named is open
            }
            if (hit || trap) {
                why = hit ? Why::Hw : Why::Step;
                return;
            }
        }
        throw Unspecified{};
    }
};

using Check = std::function<std::string(const std::string&)>;  // "" if the reply is right
Check exactly(std::string w) {
    return [w](const std::string& r) { return r == w ? "" : "expected \"" + w + "\""; };
}
Check refused() {
    return [](const std::string& r) { return r.rfind("ERROR", 0) == 0 || r == "UNKNOWN COMMAND" ? "" : "expected a refusal"; };
}
// lines NAME:VALUE
std::optional<std::vector<std::pair<std::string, std::string>>> listing(const std::string& r) {
    std::vector<std::pair<std::string, std::string>> v;
    size_t p = 0;
    while (p < r.size()) {
        size_t e = r.find('\n', p), k = r.find(':', p);
        if (e == std::string::npos || k == std::string::npos || k > e) return std::nullopt;
        v.push_back({r.substr(p, k - p), r.substr(k + 1, e - k - 1)});
        p = e + 1;
    }
    return v;
}

class Client {
public:
    explicit Client(pbt::Ctx& c) : c(c) {}
    void run() {
        gen::Machine0 m;
        m.nr = c.range(1, 5);
        m.nf = c.range(0, 3);
        m.nm = c.pick<size_t>({24, 8, 40});
        if (c.chance(1, 40)) {
            m.nr = c.pick<size_t>({11, 13, 24});
            m.nf = c.pick<size_t>({6, 11});
            m.nm = c.pick<size_t>({100, 1030});
        }
        gen::Opts o;
        o.max_text = c.pick<size_t>({8, 16, 30});
        o.max_steps = 150;
        o.faults = c.chance(1, 5);
        o.mem_weight = 14;
        gen::ProgGen g(c, m, o);
        gen::Prog p = g.run();
        if (c.chance(1, 200)) gen::moved_up(c, p);
        CpuSizes sz;
        if (c.boolean()) {
            sz.alu = c.range(1, 4);
            sz.gates = c.range(1, 4);
        }
        configure(sz);
        c.note("# alus " + std::to_string(sz.alu) + ", ram gates " + std::to_string(sz.gates) + "\n" + gen::render(p) + "--- requests ---\n");
        vm::reset();
        vm::IoCapture io(p.input);
        io_ = &io;
        ref.st = p.init();
        ref.text = p.text;
        foresee();
        ThreadQueue<std::string> q1, q2;
        to = &q1;
        from = &q2;
        tiny::t86::OS os(m.nr, m.nf, m.nm);
        os.SetDebuggerComms(std::make_unique<ThreadMessenger>(q2, q1));
        ThreadMessenger me(q1, q2);
        me_ = &me;
        bool ok = false;
        std::thread t([&] { ok = os.Run(vm::load(p)); });
        stopped();
        size_t n = (size_t)c.range(1, 30);
        bool ended = false;
        for (size_t i = 0; i < n && !ended; ++i) ended = op();
        settle();
        if (!ended) {
            see_all();
            // the end: TERMINATE at any stop, or CONTINUE at the last one
            if (ref.over() && c.boolean()) ask("CONTINUE", exactly("OK"));
            else ask("TERMINATE", exactly("OK"));
            settle();
        }
        t.join();
        if (!q2.q.empty()) c.fail("an unexpected message: \"" + q2.q.front() + "\"");
        if (ok != (ref.st.err == Err::None)) c.fail("the run's result is wrong");
        if (io.out.str() != ref.st.out) c.fail("output \"" + io.out.str() + "\", reference \"" + ref.st.out + "\"");
        if (resumes >= 1 && pokes >= 1) c.nontrivial();
        if (refusals) c.label("refused request");
        if (pokes) c.label("poke");
    }

private:
    // ---- conversation
    void ask(const std::string& s, Check chk) {
        c.note(s + "\n");
        me_->Send(s);
        waiting.push_back({s, std::move(chk)});
        if (pipelined && waiting.size() < pipelined) return;
        settle();
    }
    void settle() {
        auto w = std::move(waiting);
        waiting.clear();
        for (auto& [s, chk] : w) {
            std::string r = me_->Receive().value_or("<closed>");
            std::string d = chk(r);
            if (!d.empty()) c.fail("reply to \"" + s + "\" is \"" + r + "\": " + d);
        }
    }
    void stopped() {
        auto r = me_->Receive();
        if (!r || *r != "STOPPED") c.fail("expected STOPPED, got " + r.value_or("<closed>"));
    }

    // ---- what a client can see
    Check regs() {
        State s = ref.st;
        return [s](const std::string& r) -> std::string {
            auto l = listing(r);
            if (!l) return "not a list";
            std::map<std::string, int64_t> want = {{"SP", s.sp}, {"BP", s.bp}};
            for (size_t i = 0; i < s.r.size(); ++i) want["R" + std::to_string(i)] = s.r[i];
            if (l->size() != want.size() + 1) return "number of registers";
            std::set<std::string> seen;
            for (auto& [k, v] : *l) {
                if (!seen.insert(k).second) return k + " twice";
                if (k == "IP") {
                    if (v != std::to_string((int64_t)s.ip) && !(s.err != Err::None && v == std::to_string((int64_t)s.ip + 1))) return "IP should be " + std::to_string((int64_t)s.ip);
                } else if (!want.count(k)) {
                    return "unknown register " + k;
                } else if (v != std::to_string(want[k])) {
                    return k + " should be " + std::to_string(want[k]);
                }
            }
            return seen.count("IP") ? "" : "no IP";
        };
    }
    Check fregs() {
        auto f = ref.st.f;
        return [f](const std::string& r) -> std::string {
            auto l = listing(r);
            if (!l || l->size() != f.size()) return "not a list of the float registers";
            std::set<std::string> seen;
            for (auto& [k, v] : *l) {
                if (k.size() < 2 || k[0] != 'F' || !seen.insert(k).second) return "register " + k;
                size_t i = std::stoul(k.substr(1));
                if (i >= f.size()) return "register " + k;
                char* e;
                double x = strtod(v.c_str(), &e);
                if (*e || v.empty()) return k + " is no number";
                double w = as_double(f[i]);
                if (std::isnan(w) ? !std::isnan(x) : as_bits(x) != f[i]) return k + " should be " + float_text(w);
            }
            return "";
        };
    }
    Check dregs() {
        std::vector<uint64_t> d(ref.d, ref.d + 5);
        return [d](const std::string& r) -> std::string {
            auto l = listing(r);
            if (!l || l->size() != 5) return "not a list of the debug registers";
            std::map<std::string, std::string> m(l->begin(), l->end());
            for (size_t i = 0; i < 5; ++i)
                if (m["D" + std::to_string(i)] != std::to_string(d[i])) return "D" + std::to_string(i) + " should be " + std::to_string(d[i]);
            return "";
        };
    }
    Check data(uint64_t a, uint64_t n) {
        std::string w;
        for (uint64_t i = a; i < a + n; ++i) w += std::to_string(ref.st.mem[i]) + "\n";
        return exactly(w);
    }
    Check code(uint64_t a, uint64_t n) {
        std::string w;
        for (uint64_t i = a; i < a + n; ++i) w += canonical(ins_text(ref.text[i])) + "\n";
        return exactly(w);
    }
    void see_all() {
        ask("REASON", exactly(reason_name(ref.why)));
        ask("PEEKREGS", regs());
        ask("PEEKFLOATREGS", fregs());
        ask("PEEKDEBUGREGS", dregs());
        ask("PEEKDATA 0 " + std::to_string(ref.st.mem.size()), data(0, ref.st.mem.size()));
        ask("PEEKTEXT 0 " + std::to_string(ref.text.size()), code(0, ref.text.size()));
        ask("TEXTSIZE", exactly("TEXTSIZE:" + std::to_string(ref.text.size())));
        settle();
        if (io_->out.str() != ref.st.out) c.fail("output \"" + io_->out.str() + "\", reference \"" + ref.st.out + "\"");
    }

    // ---- requests
    void foresee() {  // where commands are interesting
        Vm v = ref;
        std::set<uint64_t> w, x;
        try {
            for (int k = 0; k < 200 && !v.over(); ++k) {
                if (v.st.ip < v.text.size()) x.insert(v.st.ip);
                v.resume(true);
                w.insert(v.st.last_writes.begin(), v.st.last_writes.end());
            }
        } catch (const Unspecified&) {
        }
        written.assign(w.begin(), w.end());
        visited.assign(x.begin(), x.end());
    }
    uint64_t text_addr() { return !visited.empty() && c.chance(2, 3) ? c.pick(visited) : c.index(ref.text.size()); }
    uint64_t cell() { return !written.empty() && c.chance(2, 3) ? c.pick(written) : c.index(ref.st.mem.size()); }
    std::string num(int64_t v) { return std::to_string(v); }

    bool resume(bool trap) {
        Vm copy = ref;
        try {
            copy.resume(trap);
        } catch (const Unspecified&) {
            return false;
        }
        ask(trap ? "SINGLESTEP" : "CONTINUE", exactly("OK"));
        settle();
        ref = std::move(copy);
        stopped();
        c.note(std::string("-> ") + reason_name(ref.why) + "\n");
        c.label(std::string("stop ") + reason_name(ref.why));
        ++resumes;
        foresee();
        see_all();
        return true;
    }

    // true: the session is over
    bool op() {
        pipelined = c.chance(1, 4) ? (size_t)c.range(2, 6) : 0;
        settle();
        switch (c.weighted({6, 5, 5, 5, 3, 7, 3, 2, 5, 5, 1})) {
        case 0:
            if (!ref.over()) resume(false);
            break;
        case 1:
            if (!ref.over()) resume(true);
            break;
        case 2: {  // an instruction, often a breakpoint
            uint64_t a = text_addr();
            Ins in;
            if (c.boolean()) {
                in.op = Op::BKPT;
            } else {
                gen::Machine0 m{ref.st.r.size(), ref.st.f.size(), ref.st.mem.size()};
                gen::Opts o;
                gen::ProgGen g(c, m, o);
                g.T = ref.text.size();
                State s = ref.st;
                s.ip = a;
                in = c.boolean() ? g.candidate(s) : g.wild();
            }
            ask("POKETEXT " + num((int64_t)a) + " " + ins_text(in), exactly("OK"));
            ref.text[a] = in;
            ++pokes;
            break;
        }
        case 3: {
            uint64_t a = cell();
            int64_t v = c.boolean() ? c.range(-5, 50) : c.int64();
            ask("POKEDATA " + num((int64_t)a) + " " + num(v), exactly("OK"));
            ref.st.mem[a] = v;
            ++pokes;
            break;
        }
        case 4: {
            if (ref.st.err != Err::None) break;  // IP at an error is shown in one of two ways
            int64_t v = c.boolean() ? c.range(-2, 40) : c.int64();
            switch (c.weighted({5, 1, 1, 2, 1})) {
            case 0: {
                size_t i = c.index(ref.st.r.size());
                ask("POKEREGS R" + num((int64_t)i) + " " + num(v), exactly("OK"));
                ref.st.r[i] = v;
                break;
            }
            case 1:
                ask("POKEREGS SP " + num(v), exactly("OK"));
                ref.st.sp = v;
                break;
            case 2:
                ask("POKEREGS BP " + num(v), exactly("OK"));
                ref.st.bp = v;
                break;
            case 3: {
                uint64_t a = c.index(ref.text.size());
                ask("POKEREGS IP " + num((int64_t)a), exactly("OK"));
                ref.st.ip = a;
                break;
            }
            default: {
                int64_t f = c.range(0, 15);
                ask("POKEREGS FLAGS " + num(f), exactly("OK"));
                ref.st.fl.s = f & 1;
                ref.st.fl.z = f & 2;
                ref.st.fl.c = f & 4;
                ref.st.fl.o = f & 8;
            }
            }
            ++pokes;
            foresee();
            break;
        }
        case 5: {  // a watchpoint register or the control register
            if (c.boolean()) {
                size_t i = c.index(4);
                uint64_t a = c.chance(1, 10) ? c.pick<uint64_t>({UINT64_MAX, 1ull << 40, 1000000}) : cell();
                ask("POKEDEBUGREGS D" + num((int64_t)i) + " " + std::to_string(a), exactly("OK"));
                ref.d[i] = a;
            } else {
                uint64_t v = c.boolean() ? 15 : (uint64_t)c.range(0, 15);
                if (c.chance(1, 4)) v |= (uint64_t)c.range(0, 15) << 8;
                ask("POKEDEBUGREGS D4 " + std::to_string(v), exactly("OK"));
                ref.d[4] = v;
            }
            ++pokes;
            break;
        }
        case 6: {
            if (ref.st.f.empty()) break;
            size_t i = c.index(ref.st.f.size());
            double v = c.boolean() ? (double)c.range(-1000, 1000) / 8 : as_double(c.int64());
            if (std::isnan(v) || std::isinf(v)) break;
            ask("POKEFLOATREGS F" + num((int64_t)i) + " " + fmt::format("{}", v), exactly("OK"));
            ref.st.f[i] = as_bits(v);
            ++pokes;
            break;
        }
        case 7: see_all(); break;
        case 8: peek(); break;
        case 9: bad(); break;
        default:
            if (!c.chance(1, 4)) break;
            ask("TERMINATE", exactly("OK"));
            settle();
            if (ref.st.err != Err::None || ref.st.halted) return true;
            return true;
        }
        if (c.chance(1, 4)) see_all();
        return false;
    }
    void peek() {
        switch (c.index(7)) {
        case 0: ask("REASON", exactly(reason_name(ref.why))); break;
        case 1: ask("PEEKREGS", regs()); break;
        case 2: ask("PEEKFLOATREGS", fregs()); break;
        case 3: ask("PEEKDEBUGREGS", dregs()); break;
        case 4: {
            uint64_t a = c.index(ref.st.mem.size()), n = c.index(ref.st.mem.size() - a + 1);
            ask("PEEKDATA " + num((int64_t)a) + " " + num((int64_t)n), data(a, n));
            break;
        }
        case 5: {
            uint64_t a = c.index(ref.text.size()), n = c.index(ref.text.size() - a + 1);
            ask("PEEKTEXT " + num((int64_t)a) + " " + num((int64_t)n), code(a, n));
            break;
        }
        default: ask("TEXTSIZE", exactly("TEXTSIZE:" + num((int64_t)ref.text.size())));
        }
    }
    std::string nonsense() { return c.pick<std::string>({"x", "R0", "1x", "--1", "0x10", "1.5.1", "99999999999999999999999", "-", "+1", "NaN?"}); }
    // requests that mean nothing: refused, without any effect
    void bad() {
        size_t nm = ref.st.mem.size();
        std::string big = num(c.pick<int64_t>({(int64_t)nm, (int64_t)nm + 1, 1 << 20, INT64_MAX, INT64_MAX - 1}));
        std::string s;
        switch (c.index(16)) {
        case 0: s = c.pick<std::string>({"HELLO", "continue", "STOP", "PEEK", "POKE 0 1", "reason", "TEXT", "OK", "STOPPED"}); break;
        case 1: s = c.pick<std::string>({"PEEKDATA", "PEEKTEXT", "POKEDATA", "POKETEXT", "POKEREGS", "POKEFLOATREGS", "POKEDEBUGREGS"}); break;
        case 2: s = c.pick<std::string>({"PEEKDATA 0", "PEEKTEXT 0", "POKEDATA 0", "POKETEXT 0", "POKEREGS R0", "POKEFLOATREGS F0", "POKEDEBUGREGS D0"}); break;
        case 3: s = "PEEKDATA " + nonsense() + " 1"; break;
        case 4: s = "PEEKDATA 0 " + nonsense(); break;
        case 5: s = "PEEKDATA " + big + " " + num(c.range(1, 3)); break;
        case 6: {
            uint64_t a = c.index(nm);
            s = "PEEKDATA " + num((int64_t)a) + " " + num((int64_t)(nm - a) + c.range(1, 1000000));
            break;
        }
        case 7: s = "POKEDATA " + big + " 7"; break;
        case 8: s = "POKEDATA " + num((int64_t)c.index(nm)) + " " + c.pick<std::string>({"x", "1x", "", "9223372036854775808", "R0"}); break;
        case 9: s = "POKETEXT " + num((int64_t)ref.text.size() + c.range(0, 5)) + " NOP"; break;
        case 10: s = "POKETEXT " + num((int64_t)c.index(ref.text.size())) + " " + c.pick<std::string>({"FOO", "MOV R0", "MOV 1, R0", "ADD F0, R0", "MOV R0,", ", ,", "1"}); break;
        case 11: s = "POKEREGS " + c.pick<std::string>({"R", "Rx", "R" + num((int64_t)ref.st.r.size()), "R99", "R18446744073709551616", "R-1", "IPX", "", "B"}) + " 1"; break;
        case 12: s = "POKEREGS R0 " + c.pick<std::string>({"x", "1x", "9223372036854775808", "", "1.5", "--2"}); break;
        case 13: s = "POKEFLOATREGS " + c.pick<std::string>({"F", "Fx", "F" + num((int64_t)ref.st.f.size()), "F77", ""}) + " 1.5"; break;
        case 14: s = "POKEDEBUGREGS " + c.pick<std::string>({"D5", "D", "Dx", "D100", ""}) + " 1"; break;
        default: s = c.pick<std::string>({"", " ", "\n", "POKEDEBUGREGS D0 -1", "POKEDEBUGREGS D0 x", "POKEFLOATREGS F0 x", "PEEKTEXT -1 1", "PEEKTEXT x y", "POKETEXT x NOP", "POKETEXT -1 NOP", "PEEKDATA -1 1", "PEEKDATA 0 -1"});
        }
        ask(s, refused());
        ++refusals;
    }

    pbt::Ctx& c;
    Vm ref;
    vm::IoCapture* io_ = nullptr;
    ThreadQueue<std::string>*to = nullptr, *from = nullptr;
    ThreadMessenger* me_ = nullptr;
    std::vector<std::pair<std::string, Check>> waiting;
    size_t pipelined = 0, resumes = 0, pokes = 0, refusals = 0;
    std::vector<uint64_t> written, visited;
};

void prop(pbt::Ctx& c) { Client(c).run(); }
}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C20";
    cfg.rule =
        "A case is a generated program and up to 30 requests of the debugging protocol - looking, poking, resuming, malformed and out-of-range "
        "ones, answered one by one or sent several at a time - every reply compared with a reference machine. Non-trivial: at least one resume and "
        "one poke.";
    cfg.assumptions = {"as C01", "REGCOUNT and DATASIZE (which report configured defaults) and surplus arguments are left open",
                       "two debug registers on one address: which is named is left open"};
    cfg.quick_cases = 80000;
    cfg.thorough_cases = 3000000;
    cfg.quick_secs = 40;
    cfg.thorough_secs = 900;
    cfg.case_timeout = 10;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
