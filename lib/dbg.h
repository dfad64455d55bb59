// A debugging session over the in-process transport (as the CLI's `run` does), and a
// reference debugger built on the sequential ISA model.
#pragma once
#include <functional>
#include <thread>
#include "vm.h"
#include "common/config.h"
#include "common/threads_messenger.h"
#include "debugger/Native.h"
#include "debugger/T86Process.h"

namespace dbg {
using namespace model;

struct CpuSizes {
    size_t alu = 1, rs = 2, gates = 4;
};

// The documented process-wide options (docs/t86.md, Configuration).
inline void configure(const CpuSizes& s) {
    static std::vector<std::string> a;
    a = {"x", "-registerCnt=10", "-floatRegisterCnt=5", "-aluCnt=" + std::to_string(s.alu),
         "-reservationStationEntriesCnt=" + std::to_string(s.rs), "-ram=1024", "-ramGates=" + std::to_string(s.gates)};
    std::vector<char*> p;
    for (auto& x : a) p.push_back(x.data());
    tiny::config = tiny::Config{};
    tiny::config.parse((int)p.size(), p.data());
}

class Session {
public:
    std::unique_ptr<Native> native;
    bool ok = false;       // result of OS::Run
    // What carries the session: (debugger's end, machine's end); default: queues in memory.
    using Ends = std::pair<std::unique_ptr<Messenger>, std::unique_ptr<Messenger>>;
    static std::function<Ends()>& transport() {
        static std::function<Ends()> t;
        return t;
    }
    explicit Session(const gen::Prog& p) : Session(vm::load(p), p.m) {}
    Session(tiny::t86::Program program, gen::Machine0 m) {
        Ends e;
        if (transport()) {
            e = transport()();
        } else {
            auto owner = std::make_unique<ThreadMessengerOwner>();
            e.second = std::make_unique<ThreadMessenger>(owner->GetOutQueue(), owner->GetInQueue());
            e.first = std::move(owner);
        }
        os_ = std::make_unique<tiny::t86::OS>(m.nr, m.nf, m.nm);
        os_->SetDebuggerComms(std::move(e.second));
        native = std::make_unique<Native>(std::make_unique<T86Process>(std::move(e.first), m.nr, m.nf, m.nm));
        auto* prog = new tiny::t86::Program(std::move(program));
        thread_ = std::thread([this, prog] {
            ok = os_->Run(std::move(*prog));
            delete prog;
        });
    }
    void terminate() {
        native->Terminate();
        thread_.join();
    }
    void join() { thread_.join(); }
    ~Session() {
        if (thread_.joinable()) thread_.detach();  // only when the case failed: the process ends
    }

private:
    std::unique_ptr<tiny::t86::OS> os_;
    std::thread thread_;
};

enum class Ev { Begin, Break, Watch, Step, End, Error };

struct Event {
    Ev kind;
    uint64_t addr = 0;
    bool operator==(const Event& o) const {
        return kind == o.kind && ((kind != Ev::Break && kind != Ev::Watch) || addr == o.addr);
    }
    std::string str() const {
        static const char* n[] = {"begin", "breakpoint", "watchpoint", "single step", "end", "error"};
        std::string s = n[(int)kind];
        if (kind == Ev::Break || kind == Ev::Watch) s += " at " + std::to_string(addr);
        return s;
    }
};

inline Event map(const DebugEvent& e) {
    if (auto* b = std::get_if<BreakpointHit>(&e)) return {Ev::Break, b->address};
    if (auto* w = std::get_if<WatchpointTrigger>(&e)) return {Ev::Watch, w->address};
    if (std::holds_alternative<Singlestep>(e)) return {Ev::Step};
    if (std::holds_alternative<ExecutionBegin>(e)) return {Ev::Begin};
    if (std::holds_alternative<ExecutionEnd>(e)) return {Ev::End};
    return {Ev::Error};
}

// What the current state leaves unspecified; such instructions are never executed under test.
inline bool unspecified(const State& s, const Ins& in) {
    Machine t(s, nullptr);
    if (in.op == Op::LSH || in.op == Op::RSH) {
        try {
            int64_t y = t.value(in.b);
            if (y < 1 || y > 63) return true;
        } catch (const Fault&) {
        }
    }
    if (in.op == Op::NRW && (size_t)in.b.r < s.f.size()) {
        double d = as_double(s.f[in.b.r]);
        if (!(d > -9.2e18 && d < 9.2e18)) return true;
    }
    if (in.op == Op::GETCHAR && s.inpos >= s.in.size()) return true;
    if (in.op == Op::POP && in.a.r == SP) return true;
    if (in.op == Op::BKPT) return true;
    return false;
}

struct Unspecified {};  // the reference cannot predict (or does not want to follow) this resume

// Reference debugger.
struct Ref {
    State st;
    std::vector<Ins> text;
    std::map<uint64_t, bool> bps;  // address -> enabled
    std::set<uint64_t> wps;
    size_t budget = 600;
    bool frames = true;  // the program's functions keep frames as the documentation asks; else calls are not stepped over

    bool enabled(uint64_t a) const {
        auto it = bps.find(a);
        return it != bps.end() && it->second;
    }
    bool over() const { return st.halted || st.err != Err::None; }

    // executes the instruction at ip, whatever breakpoint is there; returns the event that ends a single step
    Event step() {
        if (st.ip >= text.size() || budget-- == 0) throw Unspecified{};
        if (unspecified(st, text[st.ip])) throw Unspecified{};
        Machine m(std::move(st), &text);
        m.step();
        st = std::move(m.st);
        if (st.nan) throw Unspecified{};
        if (st.err != Err::None) return {Ev::Error};
        if (st.halted) return {Ev::End};
        for (auto w : st.last_writes)
            if (wps.count(w)) return {Ev::Watch, w};
        return {Ev::Step};
    }
    Event cont() {
        while (true) {
            Event e = step();
            if (e.kind != Ev::Step) return e;
            if (enabled(st.ip)) return {Ev::Break, st.ip};
        }
    }
    // Executes the instruction at ip and, if it is a call, everything until it returned.
    Event step_over() {
        if (st.ip >= text.size()) throw Unspecified{};
        Op op = text[st.ip].op;
        uint64_t ret = st.ip + 1;
        Event e = step();
        if (op != Op::CALL || e.kind != Ev::Step) return e;
        if (!frames) throw Unspecified{};
        int depth = 1;
        while (true) {
            if (enabled(st.ip)) {
                if (st.ip == ret) throw Unspecified{};  // a user's breakpoint on the return address, hit deeper
                return {Ev::Break, st.ip};
            }
            if (st.ip >= text.size()) throw Unspecified{};
            op = text[st.ip].op;
            e = step();
            if (e.kind != Ev::Step) return e;
            if (op == Op::CALL) ++depth;
            if (op == Op::RET && --depth == 0) {
                if (st.ip != ret) throw Unspecified{};
                return {Ev::Step};
            }
        }
    }
    // Until the RET of the current function was executed.
    Event step_out() {
        bool first = true;
        while (true) {
            if (!first && enabled(st.ip)) return {Ev::Break, st.ip};
            first = false;
            if (st.ip >= text.size()) throw Unspecified{};
            Op op = text[st.ip].op;
            Event e = step_over();
            if (e.kind != Ev::Step || op == Op::RET) return e;
        }
    }
};

// Runs `f` on a copy; on Unspecified leaves the reference alone and returns false.
template <class F> bool attempt(Ref& r, Event& out, F f) {
    Ref copy = r;
    copy.budget = r.st.mem.size() == 1500 ? 6000 : 600;
    try {
        out = f(copy);
    } catch (const Unspecified&) {
        return false;
    }
    r = std::move(copy);
    return true;
}

inline std::string canonical(const std::string& instruction) {
    std::istringstream is(instruction);
    Parser p(is);
    return p.Instruction()->toString();
}

// Compares everything the debugger shows with the reference.
inline std::string compare(Native& n, const Ref& r, const std::string& out, bool memory = true) {
    const State& s = r.st;
    auto regs = n.GetRegisters();
    auto d = [](const std::string& w, const std::string& g, const std::string& e) {
        return w + ": debugger shows " + g + ", reference " + e;
    };
    if (regs.size() != s.r.size() + 3) return "number of registers shown";
    auto chk = [&](const std::string& name, int64_t want) -> std::string {
        auto it = regs.find(name);
        if (it == regs.end()) return name + " not shown";
        if (it->second != want) return d(name, std::to_string(it->second), std::to_string(want));
        return "";
    };
    std::string e;
    if (s.err == Err::None) {
        if (!(e = chk("IP", (int64_t)s.ip)).empty()) return e;
    } else if (regs["IP"] != (int64_t)s.ip && regs["IP"] != (int64_t)s.ip + 1) {
        return d("IP at the error", std::to_string(regs["IP"]), std::to_string(s.ip));
    }
    if (!(e = chk("SP", s.sp)).empty()) return e;
    if (!(e = chk("BP", s.bp)).empty()) return e;
    for (size_t i = 0; i < s.r.size(); ++i)
        if (!(e = chk("R" + std::to_string(i), s.r[i])).empty()) return e;
    auto fregs = n.GetFloatRegisters();
    if (fregs.size() != s.f.size()) return "number of float registers shown";
    for (size_t i = 0; i < s.f.size(); ++i) {
        std::string name = "F" + std::to_string(i);
        if (!fregs.count(name)) return name + " not shown";
        if (std::isnan(as_double(s.f[i])) ? !std::isnan(fregs[name]) : as_bits(fregs[name]) != s.f[i])
            return d(name, float_text(fregs[name]), float_text(as_double(s.f[i])));
    }
    if (memory) {
        // a large memory is read at both ends (data and stack)
        std::vector<std::pair<size_t, size_t>> parts = {{0, s.mem.size()}};
        if (s.mem.size() > 2000) parts = {{0, 64}, {s.mem.size() - 64, 64}};
        for (auto [from, count] : parts) {
            auto mem = n.ReadMemory(from, count);
            if (mem.size() != count) return "size of memory read";
            for (size_t i = 0; i < count; ++i)
                if (mem[i] != s.mem[from + i])
                    return d("[" + std::to_string(from + i) + "]", std::to_string(mem[i]), std::to_string(s.mem[from + i]));
        }
    }
    if (out != s.out) return d("output", "\"" + out + "\"", "\"" + s.out + "\"");
    return "";
}

}  // namespace dbg
