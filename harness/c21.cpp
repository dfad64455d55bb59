// C21: programs built, configured and measured through the library.
#include <algorithm>
#include <array>
#include <cassert>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <unordered_map>
#include <variant>
#include <vector>
#include "common/config.h"
#define private public  // the configuration singleton is made anew for every case
#include "t86/cpu.h"
#undef private
#include "t86/program/helpers.h"
#include "t86/program/programbuilder.h"
#include "vm.h"
using namespace gen;
namespace t86 = tiny::t86;

// ---------------------------------------------------------------------------
// Operands and instructions, written the way docs/t86.md shows: Reg(0), Mem(Reg(0) + 27), MOV{...}

// How the same thing is spelled; drawn from one number of the case, so that a child process repeats it.
struct Spell {
    uint64_t s;
    size_t index(size_t n) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return (size_t)((s >> 33) % n);
    }
    bool boolean() { return index(2); }
    [[noreturn]] void fail(const std::string& m) { throw pbt::Failure{m}; }
};

using Any = std::variant<std::monostate, t86::Register, int64_t, t86::FloatRegister, double, t86::RegisterOffset,
                         t86::Memory::Immediate, t86::Memory::Register, t86::Memory::RegisterOffset,
                         t86::Memory::RegisterScaled, t86::Memory::RegisterRegister, t86::Memory::RegisterRegisterScaled,
                         t86::Memory::RegisterOffsetRegister, t86::Memory::RegisterOffsetRegisterScaled>;

static bool checked_registers = false;  // Reg() looks at the configuration, which only the configured cases have

static t86::Register R(int r) {
    if (r == SP) return t86::Sp();
    if (r == BP) return t86::Bp();
    return checked_registers ? t86::Reg((size_t)r) : t86::Register((size_t)r);
}

static Any operand(Spell& c, const Opd& o) {
    using t86::Mem;
    bool flip = c.boolean(), minus = c.boolean();
    auto off = [&](t86::Register r) { return minus && o.i != INT64_MIN ? r - (-o.i) : r + o.i; };
    switch (o.k) {
    case K::None: return {};
    case K::R: return R(o.r);
    case K::I: return o.i;
    case K::F: return t86::FReg((size_t)o.r);
    case K::FI: return o.f;
    case K::RI: return off(R(o.r));
    case K::MI: return Mem((uint64_t)o.i);
    case K::MR: return Mem(R(o.r));
    case K::MRI: return Mem(off(R(o.r)));
    case K::MRxI: return Mem(R(o.r) * o.s);
    case K::MRR: return Mem(R(o.r) + R(o.r2));
    case K::MRRxI:
        if (o.s == -1 && minus) return Mem(R(o.r) - R(o.r2));
        if (minus && o.s != INT64_MIN) return Mem(R(o.r) - R(o.r2) * -o.s);
        return flip ? Mem(R(o.r2) * o.s + R(o.r)) : Mem(R(o.r) + R(o.r2) * o.s);
    case K::MRIR:
        if (flip) return Mem(R(o.r2) + off(R(o.r)));
        return c.boolean() ? Mem(R(o.r) + R(o.r2) + o.i) : Mem(off(R(o.r)) + R(o.r2));
    case K::MRIRxI:
        if (o.s == -1 && minus) return Mem(off(R(o.r)) - R(o.r2));
        switch (c.index(5)) {
        case 0: return Mem(R(o.r2) * o.s + off(R(o.r)));
        case 1: return Mem(R(o.r2) * o.s + o.i + R(o.r));
        case 2: return minus ? Mem(R(o.r) + R(o.r2) * o.s - -o.i) : Mem(R(o.r) + R(o.r2) * o.s + o.i);
        case 3: return Mem(R(o.r2) * o.s - -o.i + R(o.r));
        default: return minus ? Mem(off(R(o.r)) - R(o.r2) * -o.s) : Mem(off(R(o.r)) + R(o.r2) * o.s);
        }
    }
    return {};
}

struct Built {
    std::optional<t86::Label> label;
};

// The instruction is constructed if the class has a constructor for these very operands.
template <class I>
static bool make(t86::ProgramBuilder& pb, const Any& d, const Any& a, const Any& b, Built& out) {
    bool ok = false;
    std::visit(
        [&](const auto& x, const auto& y) {
            using X = std::decay_t<decltype(x)>;
            using Y = std::decay_t<decltype(y)>;
            constexpr bool nox = std::is_same_v<X, std::monostate>, noy = std::is_same_v<Y, std::monostate>;
            if constexpr (nox && noy) {
                if constexpr (std::is_default_constructible_v<I>) out.label = pb.add(I{}), ok = true;
            } else if constexpr (noy) {
                if constexpr (std::is_constructible_v<I, X>) out.label = pb.add(I{x}), ok = true;
            } else if constexpr (!nox) {
                if (auto dest = std::get_if<t86::Register>(&d)) {
                    if constexpr (std::is_same_v<X, t86::Register> && (std::is_same_v<Y, int64_t> || std::is_same_v<Y, t86::Register>) &&
                                  std::is_constructible_v<I, t86::Register, X, Y>)
                        out.label = pb.add(I{*dest, x, y}), ok = true;
                } else if constexpr (std::is_constructible_v<I, X, Y>)
                    out.label = pb.add(I{x, y}), ok = true;
            }
        },
        a, b);
    return ok;
}

struct Io {
    std::ostringstream out;
    std::istringstream in;
    bool own = false;  // the instructions are given their streams
};

static bool build_one(Spell& c, t86::ProgramBuilder& pb, const Ins& in, Io& io, Built& out) {
    Any d = operand(c, in.d), a = operand(c, in.a), b = operand(c, in.b);
    if (io.own && in.op == Op::PUTCHAR) { out.label = pb.add(t86::PUTCHAR{R(in.a.r), io.out}); return true; }
    if (io.own && in.op == Op::PUTNUM) { out.label = pb.add(t86::PUTNUM{R(in.a.r), io.out}); return true; }
    if (io.own && in.op == Op::GETCHAR) { out.label = pb.add(t86::GETCHAR{R(in.a.r), io.in}); return true; }
    switch (in.op) {
#define CASE(N) case Op::N: return make<t86::N>(pb, d, a, b, out);
        CASE(MOV) CASE(LEA) CASE(ADD) CASE(SUB) CASE(MUL) CASE(DIV) CASE(IMUL) CASE(IDIV) CASE(AND) CASE(OR) CASE(XOR)
        CASE(LSH) CASE(RSH) CASE(INC) CASE(DEC) CASE(NEG) CASE(NOT) CASE(CMP) CASE(FCMP) CASE(JMP) CASE(LOOP) CASE(JZ)
        CASE(JNZ) CASE(JE) CASE(JNE) CASE(JG) CASE(JGE) CASE(JL) CASE(JLE) CASE(JA) CASE(JAE) CASE(JB) CASE(JBE)
        CASE(JO) CASE(JNO) CASE(JS) CASE(JNS) CASE(CALL) CASE(RET) CASE(PUSH) CASE(FPUSH) CASE(POP) CASE(FPOP)
        CASE(PUTCHAR) CASE(PUTNUM) CASE(GETCHAR) CASE(FADD) CASE(FSUB) CASE(FMUL) CASE(FDIV) CASE(EXT) CASE(NRW)
        CASE(BREAK) CASE(NOP) CASE(HALT) CASE(BKPT)
#undef CASE
    default: return false;
    }
}

static bool labelled(const Ins& in) {
    return (in.op >= Op::JMP && in.op <= Op::CALL) && (in.op == Op::LOOP ? in.b.k : in.a.k) == K::I;
}
static int64_t target(const Ins& in) { return in.op == Op::LOOP ? in.b.i : in.a.i; }

static t86::Label add_jump(t86::ProgramBuilder& pb, const Ins& in, t86::Label l) {
    switch (in.op) {
#define CASE(N) case Op::N: return pb.add(t86::N{l});
        CASE(JMP) CASE(JZ) CASE(JNZ) CASE(JE) CASE(JNE) CASE(JG) CASE(JGE) CASE(JL) CASE(JLE) CASE(JA) CASE(JAE)
        CASE(JB) CASE(JBE) CASE(JO) CASE(JNO) CASE(JS) CASE(JNS) CASE(CALL)
#undef CASE
    default: return pb.add(t86::LOOP{R(in.a.r), l});
    }
}

// ---------------------------------------------------------------------------

struct Piece {  // one addData
    int kind = 0;
    int64_t v = 0;
    size_t n = 1;
    std::string s;
};

struct Case {
    Prog p;
    bool release = false;
    std::vector<Piece> pieces;
    std::vector<char> probe;   // instruction i (a NOP or BREAK in the model) is watched
    std::vector<size_t> extra;  // positions before which a DBG is added that a release build drops
    std::map<size_t, std::pair<int, int64_t>> sets;  // what the handler of an instruction sets: register (SP, BP, 1000 + float), value
    uint64_t spell = 0;
    size_t head = 0;            // leading instructions taken from an assembled program
};

struct Seen {
    size_t at;       // instruction
    std::string diff;
};

struct Watch {
    std::vector<State> expect;  // reference states, in order of execution of watched instructions
    std::vector<size_t> who;
    size_t next = 0;
    std::string diff;
    Io* io = nullptr;
    std::ostringstream* cap = nullptr;
    const Case* k = nullptr;
    void see(t86::Cpu& cpu, std::optional<size_t> at) {
        if (!diff.empty()) return;
        if (next >= who.size()) { diff = "a handler ran " + std::to_string(next + 1) + " times, reference " + std::to_string(who.size()); return; }
        if (at && *at != who[next]) {
            diff = "the handler of instruction " + std::to_string(*at) + " ran, reference: that of " + std::to_string(who[next]);
            return;
        }
        const std::string out = io->own ? io->out.str() : cap->str();
        std::string d = vm::compare(cpu, expect[next], out, false);
        if (!d.empty()) diff = "at handler call " + std::to_string(next) + " (instruction " + std::to_string(who[next]) + "): " + d;
        if (auto it = k->sets.find(who[next]); it != k->sets.end()) {
            auto [r, v] = it->second;
            if (r >= 1000) cpu.setFloatRegister(t86::FReg((size_t)r - 1000), std::bit_cast<double>(v));
            else cpu.setRegister(R(r), v);
        }
        ++next;
    }
};

static t86::Program construct(Spell& c, const Case& k, Io& io, Watch& w) {
    const Prog& p = k.p;
    std::optional<t86::ProgramBuilder> pb;
    if (k.head) {
        std::vector<Ins> first(p.text.begin(), p.text.begin() + (long)k.head);
        pb.emplace(vm::assemble(model::program_text(first)), k.release);
    } else
        pb.emplace(k.release);
    // data
    uint64_t at = 0;
    for (auto& d : k.pieces) {
        t86::DataLabel l = d.kind == 0 ? pb->addData(d.v) : d.kind == 1 ? pb->addData(d.v, d.n) : pb->addData(d.s);
        if ((int64_t)l != (int64_t)at)
            c.fail("addData returned " + std::to_string((int64_t)l) + ", the data begin at " + std::to_string(at));
        at += d.kind == 0 ? 1 : d.kind == 1 ? d.n : d.s.size() + 1;
    }
    // text
    std::vector<std::pair<t86::Label, uint64_t>> later;
    std::vector<t86::Label> labels;
    for (size_t i = 0; i < k.head; ++i) labels.push_back(t86::Label(i));
    size_t x = 0;
    while (x < k.extra.size() && k.extra[x] < k.head) ++x;
    for (size_t i = k.head; i < p.text.size(); ++i) {
        const Ins& in = p.text[i];
        for (; x < k.extra.size() && k.extra[x] == i; ++x) {
            t86::Label l = pb->add(t86::DBG{[&w](t86::Cpu&) { w.diff = "a DBG ran in a release build"; }});
            if ((uint64_t)l != i) c.fail("a dropped DBG has label " + std::to_string((uint64_t)l) + ", the next instruction is " + std::to_string(i));
        }
        if ((uint64_t)pb->currentLabel() != i)
            c.fail("currentLabel is " + std::to_string((uint64_t)pb->currentLabel()) + " before instruction " + std::to_string(i));
        Built b;
        if (k.probe[i] && in.op == Op::NOP) {
            b.label = pb->add(t86::DBG{[&w, i](t86::Cpu& cpu) { w.see(cpu, i); }});
        } else if (labelled(in) && target(in) >= 0 && c.boolean()) {
            uint64_t t = (uint64_t)target(in);
            if (t < labels.size() && c.boolean())
                b.label = add_jump(*pb, in, labels[t]);
            else {
                b.label = add_jump(*pb, in, t86::Label::empty());
                later.push_back({*b.label, t});
            }
        } else if (!build_one(c, *pb, in, io, b)) {
            auto one = vm::assemble(".text\n" + ins_text(in) + "\n").moveInstructions();
            b.label = pb->add(std::move(one.at(0)));
        }
        if ((uint64_t)*b.label != i) c.fail("add returned label " + std::to_string((uint64_t)*b.label) + " for instruction " + std::to_string(i));
        labels.push_back(*b.label);
    }
    while (!later.empty()) {
        size_t i = c.index(later.size());
        uint64_t t = later[i].second;
        pb->patch(later[i].first, t < labels.size() ? labels[t] : t86::Label(t));
        later.erase(later.begin() + (long)i);
    }
    return pb->program();
}

// The figures of the reports
static std::optional<uint64_t> figure(const std::string& s, const std::string& name) {
    size_t i = s.find(name);
    if (i == std::string::npos) return std::nullopt;
    return std::stoull(s.substr(i + name.size()));
}

// "" or what is wrong
static std::string check_stats(const std::map<std::string, uint64_t>& ops, uint64_t ticks, uint64_t steps) {
    std::ostringstream b, d;
    t86::StatsLogger::instance().processBasicStats(b);
    t86::StatsLogger::instance().processDetailedStats(d);
    auto t = figure(b.str(), "Total ticks: "), n = figure(b.str(), "Total instructions executed: "), g = figure(b.str(), "Times executed: ");
    if (!t || *t != ticks) return "statistics: " + std::to_string(t.value_or(0)) + " ticks, the CPU was ticked " + std::to_string(ticks) + " times";
    if (!n || *n != steps || !g || *g != steps)
        return "statistics: " + std::to_string(n.value_or(0)) + " instructions executed, reference " + std::to_string(steps);
    if (t86::StatsLogger::instance().tickCount() != ticks) return "statistics: tickCount is " + std::to_string(t86::StatsLogger::instance().tickCount());
    std::map<std::string, uint64_t> got;
    std::istringstream is(d.str());
    std::string line, op;
    while (std::getline(is, line)) {
        if (line.rfind("Averages for ", 0) == 0) op = line.substr(13, line.find_first_of(" :", 13) - 13);
        if (auto v = figure(line, "Times executed: ")) got[op] += *v;
    }
    for (auto& [o, v] : ops)
        if (got[o] != v) return "detailed statistics: " + o + " executed " + std::to_string(got[o]) + " times, reference " + std::to_string(v);
    if (got.size() != ops.size()) return "detailed statistics list instructions that were not executed";
    return "";
}

struct Sizes {
    size_t alu = 1, rs = 2, gates = 4;
};

// Runs the built program; "" or what is wrong. ticks: out.
static std::string run(const Case& k, t86::Cpu& cpu, bool own, bool stats, const std::map<std::string, uint64_t>& ops,
                       const Watch& want, uint64_t& ticks, bool connect) {
    const Prog& p = k.p;
    Io io;
    io.own = own;
    if (own) io.in.str(p.input);
    Watch w = want;
    w.io = &io;
    w.k = &k;
    vm::IoCapture cap(own ? "" : p.input);
    w.cap = &cap.out;
    if (stats) t86::StatsLogger::instance().reset();
    Spell sp{k.spell};
    t86::Program prog = construct(sp, k, io, w);
    if (connect) cpu.connectBreakHandler([&w](t86::Cpu& q) { w.see(q, std::nullopt); });
    cpu.start(std::move(prog));
    uint64_t limit = 4000 + p.steps * 400;
    ticks = 0;
    while (!cpu.halted()) {
        if (++ticks > limit) return "the machine did not halt after " + std::to_string(limit) + " ticks";
        cpu.tick();
    }
    if (!w.diff.empty()) return w.diff;
    if (w.next != w.who.size()) return "handlers ran " + std::to_string(w.next) + " times, reference " + std::to_string(w.who.size());
    std::string d = vm::compare(cpu, p.fin, own ? io.out.str() : cap.out.str());
    if (!d.empty()) return "final state differs: " + d;
    if (own && !cap.out.str().empty()) return "output went to std::cout although the instructions have their own stream";
    if (stats) return check_stats(ops, ticks, p.steps);
    return "";
}

// A configuration given on the command line, the documented default otherwise.
struct Conf {
    std::vector<std::string> args;
    Machine0 m;
    Sizes s;
    size_t ctor = 0;  // how many sizes the constructor is given
};

static std::string registers_text(const State& s) {
    std::string t = "Pc: " + std::to_string(s.ip) + "\nSp: " + std::to_string(s.sp) + "\nBp: " + std::to_string(s.bp) +
                    "\nFlags: " + std::to_string(s.fl.pack()) + "\n";
    for (size_t i = 0; i < s.r.size(); ++i) t += "Reg(" + std::to_string(i) + "): " + std::to_string(s.r[i]) + "\n";
    return t;
}

// What a program started with these arguments has: nothing is left of an earlier configuration.
static void configure(std::vector<std::string> args) {
    checked_registers = false;
    tiny::config = tiny::Config();
    std::vector<char*> argv;
    std::string prog = "program";
    argv.push_back(prog.data());
    for (auto& a : args) argv.push_back(a.data());
    tiny::config.parse((int)argv.size(), argv.data());
    auto& g = t86::Cpu::Config::instance();
    g.~Config();
    new (&g) t86::Cpu::Config();
}

static std::string configured(const Case& k, const Conf& f, bool own, const std::map<std::string, uint64_t>& ops, const Watch& w) {
    configure(f.args);
    auto& g = t86::Cpu::Config::instance();
    auto eq = [](const char* n, size_t got, size_t want) {
        return got == want ? "" : std::string(n) + " is " + std::to_string(got) + ", configured " + std::to_string(want);
    };
    std::string e;
    // the constructor's arguments override the configured sizes, which the Config keeps
    auto opt = [&](const char* name, size_t dflt) {
        for (auto& a : f.args)
            if (a.rfind(std::string(name) + "=", 0) == 0) return (size_t)std::stoul(a.substr(strlen(name) + 1));
        return dflt;
    };
    if (!(e = eq("registerCnt", g.registerCnt(), opt("-registerCnt", 10))).empty()) return e;
    if (!(e = eq("floatRegisterCnt", g.floatRegisterCnt(), opt("-floatRegisterCnt", 5))).empty()) return e;
    if (!(e = eq("aluCnt", g.aluCnt(), opt("-aluCnt", 1))).empty()) return e;
    if (!(e = eq("reservationStationEntriesCnt", g.reservationStationEntriesCnt(), opt("-reservationStationEntriesCnt", 2))).empty()) return e;
    if (!(e = eq("ramSize", g.ramSize(), opt("-ram", 1024))).empty()) return e;
    if (!(e = eq("ramGatesCount", g.ramGatesCount(), opt("-ramGates", 4))).empty()) return e;
    size_t cnt = g.registerCnt();
    checked_registers = cnt >= f.m.nr;
    try {
        t86::Reg(cnt);
        return "Reg(" + std::to_string(cnt) + ") is accepted although there are " + std::to_string(cnt) + " registers";
    } catch (const t86::InvalidRegister&) {
    }
    std::optional<t86::Cpu> cpu;
    switch (f.ctor) {
    case 0: cpu.emplace(); break;
    case 1: cpu.emplace(f.m.nr); break;
    case 2: cpu.emplace(f.m.nr, f.m.nf); break;
    default: cpu.emplace(f.m.nr, f.m.nf, f.m.nm); break;
    }
    if (!(e = eq("the number of registers", cpu->registersCount(), f.m.nr)).empty()) return e;
    if (!(e = eq("the number of float registers", cpu->floatRegistersCount(), f.m.nf)).empty()) return e;
    if (!(e = eq("the memory size (initial SP)", (size_t)cpu->getRegister(t86::Sp()), f.m.nm)).empty()) return e;
    uint64_t t1 = 0, t2 = 0;
    if (!(e = run(k, *cpu, own, true, ops, w, t1, true)).empty()) return e;
    if (checked_registers) {
        std::ostringstream os;
        t86::printAllRegisters(*cpu, os);
        if (os.str() != registers_text(k.p.fin)) return "printAllRegisters shows\n" + os.str() + "reference\n" + registers_text(k.p.fin);
    }
    t86::Cpu same(f.m.nr, f.m.nf, f.s.alu, f.s.rs, f.m.nm, f.s.gates);
    if (!(e = run(k, same, own, false, ops, w, t2, true)).empty()) return "with explicit sizes: " + e;
    if (t1 != t2)
        return "the configured machine took " + std::to_string(t1) + " ticks, one explicitly made with " + std::to_string(f.s.alu) + " ALUs, " +
               std::to_string(f.s.rs) + " reservation station entries and " + std::to_string(f.s.gates) + " RAM gates " + std::to_string(t2);
    return "";
}

// The reference run with its handlers; false if something not specified is executed.
static bool reference(ProgGen& g, Case& k, Watch& w, std::map<std::string, uint64_t>& ops) {
    Prog& p = k.p;
    w.expect.clear();
    w.who.clear();
    ops.clear();
    uint64_t steps = 0, taken = 0;
    Machine mach(p.init(), &p.text);
    while (!mach.st.halted) {
        if (!k.sets.empty() && (++steps > 300 || mach.st.ip >= p.text.size())) return false;
        uint64_t ip = mach.st.ip;
        if (!g.specified(mach.st, p.text[ip])) return false;
        bool dbg = k.probe[ip] && p.text[ip].op == Op::NOP;
        ops[dbg ? "DBG" : op_name(p.text[ip].op)]++;
        if (k.probe[ip]) {
            w.expect.push_back(mach.st);
            w.who.push_back(ip);
            if (auto it = k.sets.find(ip); it != k.sets.end()) {
                auto [r, v] = it->second;
                (r >= 1000 ? mach.st.f[(size_t)r - 1000] : mach.reg(r)) = v;
            }
        }
        mach.step();
        if (mach.st.err != Err::None || mach.st.nan) return false;
        taken += mach.st.ip != ip + 1;
    }
    if (!k.sets.empty()) p.steps = steps, p.taken = taken, p.fin = mach.st;
    return true;
}

static void prop(pbt::Ctx& c) {
    bool conf = c.chance(1, 4);
    Case k;
    Conf f;
    if (conf) {
        f.ctor = c.weighted({5, 1, 1, 2});
        f.m.nr = 10, f.m.nf = 5, f.m.nm = 1024;
        auto given = [&](const char* name, size_t& v, size_t lo, size_t hi, bool effective) {
            if (!c.chance(2, 3)) return;
            size_t x = (size_t)c.range((int64_t)lo, (int64_t)hi);
            f.args.push_back(std::string(name) + "=" + std::to_string(x));
            if (effective) v = x;
        };
        given("-registerCnt", f.m.nr, 1, 14, true);
        given("-floatRegisterCnt", f.m.nf, 0, 7, true);
        given("-ram", f.m.nm, 8, 200, true);
        given("-aluCnt", f.s.alu, 1, 4, true);
        given("-reservationStationEntriesCnt", f.s.rs, 1, 9, true);
        given("-ramGates", f.s.gates, 1, 6, true);
        for (size_t i = f.args.size(); i > 1; --i) std::swap(f.args[i - 1], f.args[c.index(i)]);
        if (f.ctor >= 1) f.m.nr = c.range(1, 10);
        if (f.ctor >= 2) f.m.nf = c.range(0, 6);
        if (f.ctor >= 3) f.m.nm = c.range(8, 100);
        k.p.m = f.m;
        c.label("configured");
        c.label("constructor given " + std::to_string(f.ctor) + " sizes");
    } else {
        k.p.m.nr = c.range(1, 8);
        k.p.m.nf = c.range(0, 4);
        k.p.m.nm = c.pick<size_t>({24, 8, 64, 33});
        f.s.alu = c.range(1, 4), f.s.rs = c.range(1, 8), f.s.gates = c.range(1, 4);
    }
    Opts o;
    o.max_text = c.pick<size_t>({12, 30, 60});
    o.three = true;
    o.nop_weight = c.pick<unsigned>({2, 6});
    // data
    std::vector<int64_t> data;
    for (size_t n = c.index(4); n > 0; --n) {
        Piece d;
        d.kind = (int)c.index(3);
        d.v = c.int64();
        if (d.kind == 1) d.n = c.range(0, 4);
        if (d.kind == 2)
            for (size_t i = c.index(5); i > 0; --i) d.s += (char)c.range(1, 126);
        std::vector<int64_t> v;
        if (d.kind == 2) {
            for (char ch : d.s) v.push_back(ch);
            v.push_back(0);
        } else
            v.assign(d.n, d.v);
        if (data.size() + v.size() > k.p.m.nm) continue;
        data.insert(data.end(), v.begin(), v.end());
        k.pieces.push_back(d);
    }
    o.data = data;
    ProgGen g(c, k.p.m, o);
    k.p = g.run();
    Prog& p = k.p;
    k.spell = (uint64_t)c.range(0, 1 << 20);
    k.release = c.boolean();
    k.probe.assign(p.text.size(), 0);
    bool connect = conf || c.chance(3, 4);
    if (c.chance(1, 4)) {
        k.head = (size_t)c.range(1, (int64_t)p.text.size());
        while (k.head && std::any_of(p.text.begin(), p.text.begin() + (long)k.head, [](const Ins& i) { return i.d.k != K::None; })) --k.head;
    }
    for (size_t i = 0; i < p.text.size(); ++i) {
        if (p.text[i].op == Op::BREAK) k.probe[i] = connect;
        if (p.text[i].op == Op::NOP && !k.release && i >= k.head) k.probe[i] = c.chance(3, 4);
        if (k.release && c.chance(1, 6)) k.extra.push_back(i);
    }
    // the reference: states at the watched instructions, and what is executed
    Watch w;
    std::map<std::string, uint64_t> ops;
    if (p.m.nr && c.chance(1, 3)) {
        for (size_t i = 0; i < p.text.size(); ++i)
            if (k.probe[i] && c.boolean())
                k.sets[i] = p.m.nf && c.chance(1, 4) ? std::pair<int, int64_t>(1000 + (int)c.index(p.m.nf), vm::fbits((double)c.range(-9, 9)))
                                                     : std::pair<int, int64_t>(g.reg_any(), c.chance(1, 3) ? c.int64() : c.range(0, 12));
        if (!reference(g, k, w, ops)) k.sets.clear();
    }
    if (k.sets.empty()) reference(g, k, w, ops);
    bool own = c.chance(1, 3) && !k.head, stats = c.boolean();
    std::string text = "# release " + std::to_string(k.release) + ", own streams " + std::to_string(own) + ", first instructions assembled " +
                       std::to_string(k.head) + ", watched instructions:";
    for (size_t i = 0; i < k.probe.size(); ++i)
        if (k.probe[i]) text += " " + std::to_string(i);
    for (auto& [i, x] : k.sets)
        text += "\n# the handler of " + std::to_string(i) + " sets " +
                (x.first >= 1000 ? "F" + std::to_string(x.first - 1000) + " (bits)" : reg_name(x.first)) + " to " + std::to_string(x.second);
    text += "\n# alus " + std::to_string(f.s.alu) + ", reservation entries " + std::to_string(f.s.rs) + ", ram gates " + std::to_string(f.s.gates);
    if (conf) {
        text += "\n# arguments:";
        for (auto& a : f.args) text += " " + a;
        text += "\n# constructor given " + std::to_string(f.ctor) + " sizes";
    }
    c.note(text + "\n" + render(p));
    std::string e;
    if (conf) {
        e = configured(k, f, own, ops, w);
    } else {
        configure({});
        t86::Cpu cpu(p.m.nr, p.m.nf, f.s.alu, f.s.rs, p.m.nm, f.s.gates);
        uint64_t ticks = 0;
        vm::reset();
        e = run(k, cpu, own, stats, ops, w, ticks, connect);
    }
    if (!e.empty()) c.fail(e);
    if (!w.who.empty()) c.label("handlers run");
    if (!k.sets.empty()) c.label("handlers change registers");
    if (k.head) c.label("continues an assembled program");
    if (stats || conf) c.label("statistics");
    if (!k.pieces.empty()) c.label("data");
    if (std::any_of(p.text.begin(), p.text.end(), labelled)) c.label("labels");
    if (p.taken && (!w.who.empty() || conf) && (stats || conf)) c.nontrivial();
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C21";
    cfg.rule =
        "A case is a generated program built through ProgramBuilder - constructors with operator-built operands, labels and patched "
        "jumps, addData, DBG and BREAK handlers, release or not, possibly continuing an assembled program - and run on a machine made "
        "with explicit sizes or from command-line style configuration. Non-trivial: a branch is taken, a handler "
        "runs or the machine is configured, and the statistics are compared.";
    cfg.assumptions = {"as C01; handlers observe and set registers, not memory"};
    cfg.quick_cases = 500000;
    cfg.thorough_cases = 6000000;
    cfg.quick_secs = 40;
    cfg.thorough_secs = 1500;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
