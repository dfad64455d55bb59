// Independent, sequential reference model of the T86 instruction set
// (docs/t86-isa.md), plus assembly rendering.  Shares no code with /repo.
#pragma once
#include <bit>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace model {

enum class Op {
    MOV, LEA,
    ADD, SUB, MUL, DIV, IMUL, IDIV, AND, OR, XOR, LSH, RSH,
    INC, DEC, NEG, NOT,
    CMP, FCMP,
    JMP, LOOP,
    JZ, JNZ, JE, JNE, JG, JGE, JL, JLE, JA, JAE, JB, JBE, JO, JNO, JS, JNS,
    CALL, RET,
    PUSH, FPUSH, POP, FPOP,
    PUTCHAR, PUTNUM, GETCHAR,
    FADD, FSUB, FMUL, FDIV,
    EXT, NRW,
    BREAK, NOP, HALT, BKPT,
    COUNT
};

inline const char* op_name(Op o) {
    static const char* n[] = {"MOV", "LEA", "ADD", "SUB", "MUL", "DIV", "IMUL", "IDIV", "AND", "OR", "XOR", "LSH",
                              "RSH", "INC", "DEC", "NEG", "NOT", "CMP", "FCMP", "JMP", "LOOP", "JZ", "JNZ", "JE",
                              "JNE", "JG", "JGE", "JL", "JLE", "JA", "JAE", "JB", "JBE", "JO", "JNO", "JS",
                              "JNS", "CALL", "RET", "PUSH", "FPUSH", "POP", "FPOP", "PUTCHAR", "PUTNUM", "GETCHAR",
                              "FADD", "FSUB", "FMUL", "FDIV", "EXT", "NRW", "BREAK", "NOP", "HALT", "BKPT"};
    return n[(int)o];
}

constexpr int SP = -1;
constexpr int BP = -2;

enum class K {
    None, R, I, F, FI, RI,              // R, i, F, f, R + i
    MI, MR, MRI, MRxI,                  // [i] [R] [R + i] [R * i]
    MRR, MRRxI, MRIR, MRIRxI            // [R + R] [R + R * i] [R + i + R] [R + i + R * i]
};
inline bool is_mem(K k) { return k >= K::MI; }

struct Opd {
    K k = K::None;
    int r = 0;       // first register (or float register)
    int r2 = 0;      // second register
    int64_t i = 0;   // immediate / offset
    int64_t s = 1;   // scale
    double f = 0;
    static Opd R(int r) { Opd o; o.k = K::R; o.r = r; return o; }
    static Opd I(int64_t i) { Opd o; o.k = K::I; o.i = i; return o; }
    static Opd F(int r) { Opd o; o.k = K::F; o.r = r; return o; }
    static Opd FI(double f) { Opd o; o.k = K::FI; o.f = f; return o; }
    static Opd RI(int r, int64_t i) { Opd o; o.k = K::RI; o.r = r; o.i = i; return o; }
    static Opd MI(int64_t i) { Opd o; o.k = K::MI; o.i = i; return o; }
    static Opd MR(int r) { Opd o; o.k = K::MR; o.r = r; return o; }
    static Opd MRI(int r, int64_t i) { Opd o; o.k = K::MRI; o.r = r; o.i = i; return o; }
    static Opd MRxI(int r, int64_t s) { Opd o; o.k = K::MRxI; o.r = r; o.s = s; return o; }
    static Opd MRR(int r, int r2) { Opd o; o.k = K::MRR; o.r = r; o.r2 = r2; return o; }
    static Opd MRRxI(int r, int r2, int64_t s) { Opd o; o.k = K::MRRxI; o.r = r; o.r2 = r2; o.s = s; return o; }
    static Opd MRIR(int r, int64_t i, int r2) { Opd o; o.k = K::MRIR; o.r = r; o.i = i; o.r2 = r2; return o; }
    static Opd MRIRxI(int r, int64_t i, int r2, int64_t s) { Opd o; o.k = K::MRIRxI; o.r = r; o.i = i; o.r2 = r2; o.s = s; return o; }
};

struct Ins {
    Op op = Op::NOP;
    Opd a, b;
    Opd d{};  // separate destination of an arithmetic instruction (programs built through the library only)
};

inline std::string reg_name(int r) {
    if (r == SP) return "SP";
    if (r == BP) return "BP";
    return "R" + std::to_string(r);
}

// Exact decimal rendering of a finite double without an exponent.
inline std::string float_text(double f) {
    char buf[1600];
    snprintf(buf, sizeof buf, "%.1100f", f);
    std::string s = buf;
    size_t dot = s.find('.');
    while (s.size() > dot + 2 && s.back() == '0') s.pop_back();
    return s;
}

inline std::string plus_imm(int64_t i) {
    return i < 0 ? " - " + std::to_string(-(i + 1)).replace(0, 0, "") : " + " + std::to_string(i);
}

inline std::string off(int64_t i) {
    if (i < 0) return " - " + std::to_string((uint64_t)0 - (uint64_t)i);
    return " + " + std::to_string(i);
}

inline std::string opd_text(const Opd& o) {
    switch (o.k) {
    case K::None: return "";
    case K::R: return reg_name(o.r);
    case K::I: return std::to_string(o.i);
    case K::F: return "F" + std::to_string(o.r);
    case K::FI: return float_text(o.f);
    case K::RI: return reg_name(o.r) + off(o.i);
    case K::MI: return "[" + std::to_string(o.i) + "]";
    case K::MR: return "[" + reg_name(o.r) + "]";
    case K::MRI: return "[" + reg_name(o.r) + off(o.i) + "]";
    case K::MRxI: return "[" + reg_name(o.r) + " * " + std::to_string(o.s) + "]";
    case K::MRR: return "[" + reg_name(o.r) + " + " + reg_name(o.r2) + "]";
    case K::MRRxI: return "[" + reg_name(o.r) + " + " + reg_name(o.r2) + " * " + std::to_string(o.s) + "]";
    case K::MRIR: return "[" + reg_name(o.r) + off(o.i) + " + " + reg_name(o.r2) + "]";
    case K::MRIRxI:
        return "[" + reg_name(o.r) + off(o.i) + " + " + reg_name(o.r2) + " * " + std::to_string(o.s) + "]";
    }
    return "?";
}

inline std::string ins_text(const Ins& i) {
    std::string s = op_name(i.op);
    if (i.d.k != K::None) s += " " + opd_text(i.d) + ",";
    if (i.a.k != K::None) s += " " + opd_text(i.a);
    if (i.b.k != K::None) s += ", " + opd_text(i.b);
    return s;
}

inline std::string program_text(const std::vector<Ins>& p, bool addresses = false) {
    std::string s = ".text\n";
    for (size_t i = 0; i < p.size(); ++i) s += (addresses ? std::to_string(i) + "  " : "  ") + ins_text(p[i]) + "\n";
    return s;
}

struct Flags {
    bool s = false, z = false, c = false, o = false;
    int64_t pack() const { return (int64_t)s | ((int64_t)z << 1) | ((int64_t)c << 2) | ((int64_t)o << 3); }
};

enum class Err { None, Memory, Register, Div };

struct State {
    std::vector<int64_t> r;
    std::vector<int64_t> f;  // bit patterns
    std::vector<int64_t> mem;
    int64_t sp = 0, bp = 0;
    uint64_t ip = 0;
    Flags fl;
    bool halted = false;
    Err err = Err::None;
    std::string out;
    std::string in;
    size_t inpos = 0;
    // effects of the last executed instruction
    std::vector<uint64_t> last_writes;
    bool nan = false;   // an arithmetic instruction produced a NaN (payload not specified)
    State() = default;
    State(size_t nr, size_t nf, size_t nm) : r(nr, 0), f(nf, 0), mem(nm, 0), sp((int64_t)nm), bp((int64_t)nm) {}
};

inline double as_double(int64_t b) { return std::bit_cast<double>(b); }
inline int64_t as_bits(double d) { return std::bit_cast<int64_t>(d); }

struct Fault { Err e; };

class Machine {
public:
    State st;
    const std::vector<Ins>* prog;
    Machine(State s, const std::vector<Ins>* p) : st(std::move(s)), prog(p) {}

    int64_t& reg(int r) {
        if (r == SP) return st.sp;
        if (r == BP) return st.bp;
        if (r < 0 || (size_t)r >= st.r.size()) throw Fault{Err::Register};
        return st.r[r];
    }
    int64_t& freg(int r) {
        if (r < 0 || (size_t)r >= st.f.size()) throw Fault{Err::Register};
        return st.f[r];
    }
    static uint64_t u(int64_t v) { return (uint64_t)v; }
    uint64_t addr(const Opd& o) {
        switch (o.k) {
        case K::MI: return u(o.i);
        case K::MR: return u(reg(o.r));
        case K::MRI: return u(reg(o.r)) + u(o.i);
        case K::MRxI: return u(reg(o.r)) * u(o.s);
        case K::MRR: return u(reg(o.r)) + u(reg(o.r2));
        case K::MRRxI: return u(reg(o.r)) + u(reg(o.r2)) * u(o.s);
        case K::MRIR: return u(reg(o.r)) + u(o.i) + u(reg(o.r2));
        case K::MRIRxI: return u(reg(o.r)) + u(o.i) + u(reg(o.r2)) * u(o.s);
        default: return 0;
        }
    }
    int64_t load(uint64_t a) {
        if (a >= st.mem.size()) throw Fault{Err::Memory};
        return st.mem[a];
    }
    void store(uint64_t a, int64_t v) {
        if (a >= st.mem.size()) throw Fault{Err::Memory};
        st.mem[a] = v;
        st.last_writes.push_back(a);
    }
    int64_t value(const Opd& o) {
        switch (o.k) {
        case K::R: return reg(o.r);
        case K::I: return o.i;
        case K::F: return freg(o.r);
        case K::FI: return as_bits(o.f);
        case K::RI: return (int64_t)(u(reg(o.r)) + u(o.i));
        case K::None: return 0;
        default: return load(addr(o));
        }
    }

    static Flags sz(int64_t v) {
        Flags f;
        f.s = v < 0;
        f.z = v == 0;
        return f;
    }
    static int64_t alu_add(int64_t x, int64_t y, Flags& f) {
        int64_t r;
        bool o = __builtin_add_overflow(x, y, &r);
        uint64_t ur;
        bool c = __builtin_add_overflow((uint64_t)x, (uint64_t)y, &ur);
        f = sz(r);
        f.o = o;
        f.c = c;
        return r;
    }
    static int64_t alu_sub(int64_t x, int64_t y, Flags& f) {
        int64_t r;
        bool o = __builtin_sub_overflow(x, y, &r);
        f = sz(r);
        f.o = o;
        f.c = (uint64_t)x < (uint64_t)y;
        return r;
    }
    static int64_t alu(Op op, int64_t x, int64_t y, Flags& f) {
        int64_t r = 0;
        switch (op) {
        case Op::ADD: return alu_add(x, y, f);
        case Op::SUB: return alu_sub(x, y, f);
        case Op::MUL: {
            uint64_t ur;
            bool c = __builtin_mul_overflow((uint64_t)x, (uint64_t)y, &ur);
            f = sz((int64_t)ur);
            f.c = c;
            return (int64_t)ur;
        }
        case Op::IMUL: {
            bool o = __builtin_mul_overflow(x, y, &r);
            f = sz(r);
            f.o = o;
            return r;
        }
        case Op::DIV:
            if (y == 0) throw Fault{Err::Div};
            r = (int64_t)((uint64_t)x / (uint64_t)y);
            break;
        case Op::IDIV:
            if (y == 0 || (x == INT64_MIN && y == -1)) throw Fault{Err::Div};
            r = x / y;
            break;
        case Op::AND: r = x & y; break;
        case Op::OR: r = x | y; break;
        case Op::XOR: r = x ^ y; break;
        case Op::LSH: {  // callers keep 1 <= y <= 63
            r = (int64_t)((uint64_t)x << (y & 63));
            f = sz(r);
            f.c = ((uint64_t)x >> ((64 - y) & 63)) & 1;
            return r;
        }
        case Op::RSH: {
            r = x >> (y & 63);
            f = sz(r);
            f.c = (x >> ((y - 1) & 63)) & 1;
            return r;
        }
        default: break;
        }
        f = sz(r);
        return r;
    }
    double falu(Op op, double x, double y, Flags& f) {
        double r = 0;
        switch (op) {
        case Op::FADD: r = x + y; break;
        case Op::FSUB: case Op::FCMP: r = x - y; break;
        case Op::FMUL: r = x * y; break;
        case Op::FDIV: r = x / y; break;
        default: break;
        }
        f = Flags{};
        f.s = r < 0;
        f.z = r == 0;
        f.o = std::isinf(r);
        if (std::isnan(r)) st.nan = true;
        return r;
    }
    static bool cond(Op op, const Flags& f) {
        switch (op) {
        case Op::JZ: case Op::JE: return f.z;
        case Op::JNZ: case Op::JNE: return !f.z;
        case Op::JG: return !f.z && f.s == f.o;
        case Op::JGE: return f.s == f.o;
        case Op::JL: return f.s != f.o;
        case Op::JLE: return f.z || f.s != f.o;
        case Op::JA: return !f.c && !f.z;
        case Op::JAE: return !f.c;
        case Op::JB: return f.c;
        case Op::JBE: return f.c || f.z;
        case Op::JO: return f.o;
        case Op::JNO: return !f.o;
        case Op::JS: return f.s;
        case Op::JNS: return !f.s;
        default: return true;
        }
    }

    const Ins& fetch() const {
        static const Ins nop;
        return st.ip < prog->size() ? (*prog)[st.ip] : nop;
    }

    // Executes exactly one instruction. On a fault nothing of that instruction is visible.
    void step() {
        State saved = st;
        st.last_writes.clear();
        try {
            exec(fetch());
        } catch (const Fault& f) {
            auto e = f.e;
            st = std::move(saved);
            st.last_writes.clear();
            st.err = e;
        }
    }

    // Cheaper version used when faults need not be rolled back precisely.
    void exec(const Ins& in) {
        uint64_t next = st.ip + 1;
        Flags f = st.fl;
        switch (in.op) {
        case Op::MOV: {
            int64_t v = value(in.b);
            if (in.a.k == K::R) reg(in.a.r) = v;
            else if (in.a.k == K::F) freg(in.a.r) = v;
            else store(addr(in.a), v);
            break;
        }
        case Op::LEA: { int64_t a = (int64_t)addr(in.b); reg(in.a.r) = a; break; }
        case Op::ADD: case Op::SUB: case Op::MUL: case Op::DIV: case Op::IMUL: case Op::IDIV:
        case Op::AND: case Op::OR: case Op::XOR: case Op::LSH: case Op::RSH: {
            int64_t x = reg(in.a.r), y = value(in.b);
            int64_t& d = reg(in.d.k == K::R ? in.d.r : in.a.r);
            d = alu(in.op, x, y, f);
            break;
        }
        case Op::INC: reg(in.a.r) = alu_add(reg(in.a.r), 1, f); break;
        case Op::DEC: reg(in.a.r) = alu_sub(reg(in.a.r), 1, f); break;
        case Op::NEG: { int64_t v = (int64_t)(0 - u(reg(in.a.r))); f = sz(v); reg(in.a.r) = v; break; }
        case Op::NOT: { int64_t v = ~reg(in.a.r); f = sz(v); reg(in.a.r) = v; break; }
        case Op::CMP: { int64_t x = reg(in.a.r), y = value(in.b); alu_sub(x, y, f); break; }
        case Op::FCMP: { double x = as_double(freg(in.a.r)), y = as_double(value(in.b)); falu(in.op, x, y, f); break; }
        case Op::JMP: next = u(value(in.a)); break;
        case Op::LOOP: {
            int64_t x = reg(in.a.r), t = value(in.b);
            int64_t v = alu_sub(x, 1, f);
            reg(in.a.r) = v;
            if (v != 0) next = u(t);
            break;
        }
        case Op::CALL: {
            int64_t t = value(in.a);
            store(u(st.sp) - 1, (int64_t)next);
            st.sp -= 1;
            next = u(t);
            break;
        }
        case Op::RET: { int64_t t = load(u(st.sp)); st.sp += 1; next = u(t); break; }
        case Op::PUSH: case Op::FPUSH: {
            int64_t v = value(in.a);
            store(u(st.sp) - 1, v);
            st.sp = (int64_t)(u(st.sp) - 1);
            break;
        }
        case Op::POP: { int64_t v = load(u(st.sp)); st.sp += 1; reg(in.a.r) = v; break; }
        case Op::FPOP: { int64_t v = load(u(st.sp)); st.sp += 1; freg(in.a.r) = v; break; }
        case Op::PUTCHAR: st.out += (char)reg(in.a.r); break;
        case Op::PUTNUM: st.out += std::to_string(reg(in.a.r)) + "\n"; break;
        case Op::GETCHAR: {
            reg(in.a.r);
            reg(in.a.r) = st.inpos < st.in.size() ? (int64_t)st.in[st.inpos] : 0;
            st.inpos++;
            break;
        }
        case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: {
            double x = as_double(freg(in.a.r)), y = as_double(value(in.b));
            freg(in.a.r) = as_bits(falu(in.op, x, y, f));
            break;
        }
        case Op::EXT: { int64_t v = reg(in.b.r); freg(in.a.r) = as_bits((double)v); break; }
        case Op::NRW: { double v = as_double(freg(in.b.r)); reg(in.a.r) = (int64_t)v; break; }
        case Op::BREAK: case Op::NOP: case Op::BKPT: break;
        case Op::HALT: st.halted = true; break;
        default:  // conditional jumps
        {
            int64_t t = value(in.a);
            if (cond(in.op, st.fl)) next = u(t);
            break;
        }
        }
        st.fl = f;
        st.ip = next;
    }
};

}  // namespace model
