// Thin driver around the real VM.
#pragma once
#include <sstream>
#include "t86/cpu.h"
#include "t86/os.h"
#include "t86/program.h"
#include "t86/utils/stats_logger.h"
#include "t86-parser/parser.h"
#include "genprog.h"

namespace vm {
namespace t86 = tiny::t86;

struct IoCapture {
    std::ostringstream out;
    std::istringstream in;
    std::streambuf *oc, *ic;
    explicit IoCapture(const std::string& input = "") : in(input) {
        oc = std::cout.rdbuf(out.rdbuf());
        ic = std::cin.rdbuf(in.rdbuf());
        std::cin.clear();
    }
    ~IoCapture() {
        std::cout.rdbuf(oc);
        std::cin.rdbuf(ic);
        std::cin.clear();
    }
};

inline t86::Program assemble(const std::string& text) {
    std::istringstream is(text);
    Parser p(is);
    return p.Parse();
}

inline t86::Program load(const gen::Prog& p) {
    t86::Program a = assemble(model::program_text(p.text));
    return t86::Program(a.moveInstructions(), p.data);
}

inline void reset() { t86::StatsLogger::instance().reset(); }

inline int64_t fbits(double d) { return std::bit_cast<int64_t>(d); }

inline std::string hex(int64_t v) { return std::to_string(v); }

// Compares a finished CPU with a model state; returns "" or the first difference.
inline std::string compare(const t86::Cpu& cpu, const model::State& s, const std::string& out, bool ip = true) {
    using t86::Register;
    using t86::FloatRegister;
    auto diff = [&](const std::string& w, int64_t got, int64_t want) {
        return w + ": machine " + std::to_string(got) + ", reference " + std::to_string(want);
    };
    if (out != s.out) return "output: machine \"" + out + "\", reference \"" + s.out + "\"";
    for (size_t i = 0; i < s.r.size(); ++i)
        if (int64_t g = cpu.getRegister(Register{i}); g != s.r[i]) return diff("R" + std::to_string(i), g, s.r[i]);
    for (size_t i = 0; i < s.f.size(); ++i)
        if (int64_t g = fbits(cpu.getFloatRegister(FloatRegister{i})); g != s.f[i])
            return diff("F" + std::to_string(i) + " (bits)", g, s.f[i]);
    if (int64_t g = cpu.getRegister(Register::StackPointer()); g != s.sp) return diff("SP", g, s.sp);
    if (int64_t g = cpu.getRegister(Register::StackBasePointer()); g != s.bp) return diff("BP", g, s.bp);
    if (ip)
        if (int64_t g = cpu.getRegister(Register::ProgramCounter()); g != (int64_t)s.ip) return diff("IP", g, s.ip);
    if (int64_t g = cpu.getRegister(Register::Flags()) & 15; g != s.fl.pack()) return diff("FLAGS", g, s.fl.pack());
    for (size_t i = 0; i < s.mem.size(); ++i)
        if (int64_t g = cpu.getMemory(i); g != s.mem[i]) return diff("[" + std::to_string(i) + "]", g, s.mem[i]);
    return "";
}
}  // namespace vm
