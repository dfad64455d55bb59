// Execution-guided generation of T86 programs: an instruction is generated the
// first time the reference model reaches its address, with the model's current
// state at hand, so that executed code is meaningful (addresses in range,
// divisors non-zero, jumps that terminate), while the code that is never
// reached - but may be fetched speculatively - is arbitrary.
#pragma once
#include "pbt.h"
#include "t86model.h"

namespace gen {
using namespace model;

struct Opts {
    size_t min_text = 3, max_text = 40;
    size_t max_steps = 300;
    bool io = true;
    bool input = true;           // GETCHAR with something to read
    bool floats = true;
    bool calls = true;
    bool wild_fill = true;       // arbitrary instructions in unreached slots
    bool wild_registers = false; // unreached slots may name registers that do not exist
    bool faults = false;         // reached code may fault
    bool large_ints = true;
    bool break_ins = true;
    bool loops = true;           // counted loops
    bool three = false;          // arithmetic with a separate destination (library only)
    unsigned nop_weight = 1;
    std::optional<std::vector<int64_t>> data;  // the initial memory
    unsigned mem_weight = 6;
    unsigned jump_weight = 4;
    unsigned call_weight = 2;
    unsigned alu_weight = 7;
    unsigned mov_weight = 4;
    unsigned stack_weight = 2;
    unsigned float_weight = 3;
    unsigned io_weight = 1;
};

struct Machine0 {
    size_t nr = 4, nf = 2, nm = 32;
};

struct Prog {
    std::vector<Ins> text;
    std::vector<int64_t> data;
    std::string input;
    Machine0 m;
    State init() const {
        State s(m.nr, m.nf, m.nm);
        for (size_t i = 0; i < data.size() && i < m.nm; ++i) s.mem[i] = data[i];
        s.in = input;
        return s;
    }
    size_t steps = 0;       // instructions executed by the reference run (including the last)
    State fin;              // final state of the reference run
    std::vector<char> executed;
    size_t branches = 0, stores = 0, loads = 0, taken = 0, calls = 0, reexecuted = 0;
};

class ProgGen {
public:
    ProgGen(pbt::Ctx& c, Machine0 m, Opts o) : c(c), m(m), o(o) {}

    int reg_any() {
        if (m.nr == 0) return c.boolean() ? SP : BP;
        if (c.chance(1, 12)) return c.boolean() ? SP : BP;
        return (int)c.index(m.nr);
    }
    int reg_gp() {
        if (!m.nr) return BP;
        int r = (int)c.index(m.nr);
        if (r == loop_reg) r = (r + 1) % (int)m.nr;  // the counter of an open counted loop is left alone
        return r;
    }
    int freg() { return (int)c.index(m.nf); }
    int64_t imm32() {
        switch (c.weighted({6, 3, 2, 1})) {
        case 0: return c.range(0, 12);
        case 1: return c.range(-20, 100);
        case 2: return c.pick<int64_t>({INT32_MAX, -INT32_MAX, 1 << 16, -(1 << 16), 255, 256, 1 << 30});
        default: return c.range(-INT32_MAX, INT32_MAX);
        }
    }
    double fimm() {
        switch (c.weighted({5, 3, 2, 1})) {
        case 0: return (double)c.range(0, 10);
        case 1: return (double)c.range(0, 4000) / 16.0;
        case 2: return (double)c.range(0, 1000000) / 1000.0;
        default: return std::ldexp((double)c.range(1, 1 << 20), (int)c.range(-40, 40));
        }
    }
    static bool fits(int64_t v) { return v >= -(int64_t)INT32_MAX && v <= (int64_t)INT32_MAX; }

    // A memory address worth hitting: few hot cells so that accesses collide.
    uint64_t hot_addr(const State& s) {
        switch (c.weighted({5, 3, 3})) {
        case 0: return c.range(0, std::min<int64_t>(3, (int64_t)m.nm - 1));
        case 1: return c.range(0, (int64_t)m.nm - 1);
        default: {
            int64_t a = s.sp + c.range(-2, 2);
            if (a < 0) a = 0;
            if (a >= (int64_t)m.nm) a = (int64_t)m.nm - 1;
            return (uint64_t)a;
        }
        }
    }
    int64_t rv(const State& s, int r) { return r == SP ? s.sp : r == BP ? s.bp : s.r[r]; }

    Opd mem(const State& s, bool full, uint64_t want) {
        size_t kind = full ? c.weighted({3, 4, 5, 2, 4, 3, 3, 3}) : c.weighted({3, 4, 5});
        int r = reg_any(), r2 = reg_any();
        uint64_t a = (uint64_t)rv(s, r), b = (uint64_t)rv(s, r2);
        switch (kind) {
        case 0: return Opd::MI((int64_t)want);
        case 1: {
            // some register that already holds a valid address
            for (int t = 0; t < 3; ++t) {
                if ((uint64_t)rv(s, r) < m.nm) return Opd::MR(r);
                r = reg_any();
            }
            return Opd::MI((int64_t)want);
        }
        case 2: {
            int64_t i = (int64_t)(want - a);
            if (fits(i)) return Opd::MRI(r, i);
            return Opd::MI((int64_t)want);
        }
        case 3: {
            int64_t sc = c.range(0, 4);
            if (a * (uint64_t)sc < m.nm) return Opd::MRxI(r, sc);
            return Opd::MRxI(r, 0);
        }
        case 4:
            for (int t = 0; t < 4; ++t) {
                if ((uint64_t)rv(s, r) + (uint64_t)rv(s, r2) < m.nm) return Opd::MRR(r, r2);
                r = reg_any();
                r2 = reg_any();
            }
            return Opd::MI((int64_t)want);
        case 5: {
            for (int t = 0; t < 4; ++t) {
                int64_t sc = c.range(0, 3) - (c.chance(1, 4) ? 3 : 0);
                if ((uint64_t)rv(s, r) + (uint64_t)rv(s, r2) * (uint64_t)sc < m.nm) return Opd::MRRxI(r, r2, sc);
                r = reg_any();
                r2 = reg_any();
            }
            return Opd::MI((int64_t)want);
        }
        case 6: {
            int64_t i = (int64_t)(want - a - b);
            if (fits(i)) return Opd::MRIR(r, i, r2);
            return Opd::MI((int64_t)want);
        }
        default: {
            int64_t sc = c.range(0, 5) - (c.chance(1, 4) ? 3 : 0);
            int64_t i = (int64_t)(want - a - b * (uint64_t)sc);
            if (fits(i)) return Opd::MRIRxI(r, i, r2, sc);
            return Opd::MI((int64_t)want);
        }
        }
    }

    Opd alu_src(const State& s) {
        switch (c.weighted({4, 5, 2, 4})) {
        case 0: return Opd::I(imm32());
        case 1: return Opd::R(reg_any());
        case 2: return Opd::RI(reg_any(), imm32());
        default: return mem(s, false, hot_addr(s));
        }
    }

    uint64_t jump_target(uint64_t ip) {
        // mostly forward, sometimes anywhere
        if (c.chance(1, 10)) return c.range(0, (int64_t)T - 1);
        uint64_t lo = ip + 1 < T ? ip + 1 : T - 1;
        uint64_t hi = std::min<uint64_t>(T - 1, lo + 5);
        return (uint64_t)c.range((int64_t)lo, (int64_t)hi);
    }

    // Destination operand for jumps; R / [..] forms only when the state provides a valid target.
    Opd jump_opd(const State& s, bool allow_mem) {
        size_t k = c.weighted({6, 2, 2});
        if (k == 1) {
            for (int t = 0; t < 3; ++t) {
                int r = reg_any();
                if ((uint64_t)rv(s, r) < T) return Opd::R(r);
            }
        } else if (k == 2 && allow_mem) {
            for (int t = 0; t < 3; ++t) {
                uint64_t a = hot_addr(s);
                if ((uint64_t)s.mem[a] < T) {
                    Opd m0 = mem(s, false, a);
                    return m0;
                }
            }
        }
        return Opd::I((int64_t)jump_target(s.ip));
    }

    static Op alu_op(pbt::Ctx& c) {
        static const Op ops[] = {Op::ADD, Op::SUB, Op::MUL, Op::IMUL, Op::DIV, Op::IDIV,
                                 Op::AND, Op::OR, Op::XOR, Op::LSH, Op::RSH};
        return ops[c.index(11)];
    }
    static Op cond_op(pbt::Ctx& c) { return (Op)((int)Op::JZ + (int)c.index((int)Op::JNS - (int)Op::JZ + 1)); }

public:
    Ins candidate(const State& s) {
        Ins in;
        size_t cat = c.weighted({o.mov_weight, o.alu_weight, o.mem_weight, o.jump_weight, o.stack_weight,
                                 m.nf && o.floats ? o.float_weight : 0u, o.io ? o.io_weight : 0u,
                                 o.calls ? o.call_weight : 0u, o.nop_weight});
        switch (cat) {
        case 0:  // register moves
            switch (c.weighted({5, 3, 2, 2})) {
            case 0: return {Op::MOV, Opd::R(reg_gp()), Opd::I(imm32())};
            case 1: return {Op::MOV, Opd::R(reg_gp()), Opd::R(reg_any())};
            case 2: {  // a register holding a plausible code address
                return {Op::MOV, Opd::R(reg_gp()), Opd::I((int64_t)jump_target(s.ip))};
            }
            default: {
                Opd b = mem(s, true, hot_addr(s));
                if (b.k == K::MI || b.k == K::MR) b = Opd::MRI(reg_any(), imm32());
                else if (c.boolean()) {  // LEA never touches memory: any register values do
                    b.i = imm32();
                    b.s = c.range(-4, 9);
                }
                return {Op::LEA, Opd::R(reg_gp()), b};
            }
            }
        case 1:
            if (c.chance(1, o.faults ? 8 : 25)) {  // the one signed division that overflows, and what leads to it
                for (size_t r = 0; r < m.nr; ++r) {
                    if (rv(s, (int)r) == INT64_MIN && c.boolean()) return {Op::IDIV, Opd::R((int)r), Opd::I(-1)};
                }
                for (size_t r = 0; r < m.nr; ++r) {
                    if ((rv(s, (int)r) & 1) && c.boolean()) return {Op::LSH, Opd::R((int)r), Opd::I(63)};
                }
            }
            switch (c.weighted({8, 3, 3})) {
            case 0: {
                Op op = alu_op(c);
                Opd src = alu_src(s);
                if ((op == Op::LSH || op == Op::RSH) && !c.chance(1, 3)) src = Opd::I(c.range(1, 63));
                int d = c.chance(1, 30) ? reg_any() : reg_gp();
                if (o.three && (src.k == K::I || src.k == K::R) && c.chance(1, 3)) return {op, Opd::R(reg_any()), src, Opd::R(d)};
                return {op, Opd::R(d), src};
            }
            case 1: return {c.pick<Op>({Op::INC, Op::DEC, Op::NEG, Op::NOT}), Opd::R(reg_gp()), {}};
            default: {
                Opd src;
                switch (c.weighted({3, 3, 3})) {
                case 0: src = Opd::I(imm32()); break;
                case 1: src = Opd::R(reg_any()); break;
                default: src = mem(s, false, hot_addr(s)); break;
                }
                return {Op::CMP, Opd::R(reg_any()), src};
            }
            }
        case 2:  // memory moves
            if (c.boolean()) {  // store
                Opd src = m.nf && o.floats && c.chance(1, 5) ? Opd::F(freg())
                          : c.boolean()                      ? Opd::I(imm32())
                                                             : Opd::R(reg_any());
                return {Op::MOV, mem(s, true, hot_addr(s)), src};
            }
            return {Op::MOV, Opd::R(reg_gp()), mem(s, true, hot_addr(s))};
        case 3: {
            size_t k = c.weighted({8, 2, 3});
            if (k == 0) return {cond_op(c), jump_opd(s, true), {}};
            if (k == 1) return {Op::JMP, jump_opd(s, false), {}};
            int lr = reg_gp();
            for (int t = 0; t < 4 && !(rv(s, lr) >= 1 && rv(s, lr) <= 8); ++t) lr = reg_gp();
            if (rv(s, lr) >= 1 && rv(s, lr) <= 8) {
                int64_t back = c.chance(1, 6) ? c.range(0, (int64_t)s.ip) : (int64_t)s.ip - c.range(0, std::min<int64_t>(6, (int64_t)s.ip));
                return {Op::LOOP, Opd::R(lr), Opd::I(back)};
            }
            return {Op::LOOP, Opd::R(lr), Opd::I((int64_t)std::min<uint64_t>(T - 1, s.ip + 1 + c.index(4)))};
        }
        case 4: {
            switch (c.weighted({3, 3, 2, 1, 1})) {
            case 0: return {Op::PUSH, c.boolean() ? Opd::I(imm32()) : Opd::R(reg_any()), {}};
            case 1: return {Op::POP, Opd::R(c.chance(1, 10) ? BP : reg_gp()), {}};
            case 2:
                if (m.nf) return {Op::FPUSH, c.boolean() ? Opd::F(freg()) : Opd::FI(fimm()), {}};
                return {Op::PUSH, Opd::R(reg_gp()), {}};
            case 3:
                if (m.nf) return {Op::FPOP, Opd::F(freg()), {}};
                return {Op::POP, Opd::R(reg_gp()), {}};
            default:  // stack frame handling
                switch (c.index(4)) {
                case 0: return {Op::MOV, Opd::R(BP), Opd::R(SP)};
                case 1: return {Op::MOV, Opd::R(SP), Opd::R(BP)};
                case 2: return {Op::SUB, Opd::R(SP), Opd::I(c.range(1, 3))};
                default: return {Op::ADD, Opd::R(SP), Opd::I(c.range(1, 3))};
                }
            }
        }
        case 5:
            switch (c.weighted({3, 4, 2, 2, 2, 2})) {
            case 0: return {Op::MOV, Opd::F(freg()), Opd::FI(fimm())};
            case 1:
                return {c.pick<Op>({Op::FADD, Op::FSUB, Op::FMUL, Op::FDIV}), Opd::F(freg()),
                        c.boolean() ? Opd::F(freg()) : Opd::FI(fimm())};
            case 2: return {Op::FCMP, Opd::F(freg()), c.boolean() ? Opd::F(freg()) : Opd::FI(fimm())};
            case 3: return {Op::EXT, Opd::F(freg()), Opd::R(reg_any())};
            case 4: return {Op::NRW, Opd::R(reg_gp()), Opd::F(freg())};
            default:
                switch (c.index(4)) {
                case 0: return {Op::MOV, Opd::F(freg()), Opd::F(freg())};
                case 1: return {Op::MOV, Opd::F(freg()), Opd::R(reg_any())};
                case 2: return {Op::MOV, Opd::R(reg_gp()), Opd::F(freg())};
                default: return {Op::MOV, Opd::F(freg()), c.boolean() ? Opd::MI((int64_t)hot_addr(s)) : mr_valid(s)};
                }
            }
        case 6:
            switch (c.weighted({4, 2, 2})) {
            case 0: return {Op::PUTNUM, Opd::R(reg_any()), {}};
            case 1: return {Op::PUTCHAR, Opd::R(reg_gp()), {}};
            default: return {Op::GETCHAR, Opd::R(reg_gp()), {}};
            }
        case 7:
            if (c.boolean()) return {Op::CALL, c.chance(1, 4) ? jump_opd(s, false) : Opd::I((int64_t)jump_target(s.ip)), {}};
            return {Op::RET, {}, {}};
        default:
            return {o.break_ins && c.chance(1, 3) ? Op::BREAK : Op::NOP, {}, {}};
        }
    }
    Opd mr_valid(const State& s) {
        for (int t = 0; t < 4; ++t) {
            int r = reg_any();
            if ((uint64_t)rv(s, r) < m.nm) return Opd::MR(r);
        }
        return Opd::MI((int64_t)hot_addr(s));
    }

    // Arbitrary instruction; never executed by the reference run.
    Ins wild() {
        int maxr = (int)m.nr - 1;
        auto wr = [&]() -> int {
            if (o.wild_registers && c.chance(1, 6)) return maxr + 1 + (int)c.index(5);
            return reg_any();
        };
        auto wf = [&]() -> int {
            if (o.wild_registers && c.chance(1, 6)) return (int)m.nf + (int)c.index(5);
            return m.nf ? freg() : 0;
        };
        auto wi = [&]() -> int64_t {
            switch (c.weighted({3, 2, 2})) {
            case 0: return c.range(0, 8);
            case 1: return imm32();
            default: return c.range(-3, 100000);
            }
        };
        auto wjump = [&]() -> Opd {
            switch (c.weighted({5, 2, 1})) {
            case 0: return Opd::I(c.range(0, (int64_t)T - 1));
            case 1: return Opd::R(wr());
            default: return Opd::I(c.range(0, 1000000));
            }
        };
        auto wmem = [&](bool full) -> Opd {
            switch (c.index(full ? 8 : 3)) {
            case 0: return Opd::MI(c.chance(1, 3) ? c.range(0, 100000) : c.range(0, (int64_t)m.nm - 1));
            case 1: return Opd::MR(wr());
            case 2: return Opd::MRI(wr(), wi());
            case 3: return Opd::MRxI(wr(), wi());
            case 4: return Opd::MRR(wr(), wr());
            case 5: return Opd::MRRxI(wr(), wr(), wi());
            case 6: return Opd::MRIR(wr(), wi(), wr());
            default: return Opd::MRIRxI(wr(), wi(), wr(), wi());
            }
        };
        bool fl = o.floats && (m.nf || o.wild_registers);
        switch (c.weighted({1, 3, 4, 3, 3, 2, fl ? 2u : 0u, 1, 1})) {
        case 0: return {Op::NOP, {}, {}};
        case 1: return {Op::MOV, Opd::R(wr()), c.boolean() ? Opd::I(wi()) : wmem(true)};
        case 2: {
            Opd src = fl && c.chance(1, 5) ? Opd::F(wf()) : c.boolean() ? Opd::I(wi()) : Opd::R(wr());
            return {Op::MOV, wmem(true), src};
        }
        case 3: {
            Opd src = c.boolean() ? Opd::R(wr()) : c.boolean() ? Opd::I(wi()) : wmem(false);
            return {alu_op(c), Opd::R(wr()), src};
        }
        case 4:
            switch (c.index(3)) {
            case 0: return {cond_op(c), c.chance(1, 4) ? wmem(false) : wjump(), {}};
            case 1: return {Op::JMP, wjump(), {}};
            default: return {Op::LOOP, Opd::R(wr()), wjump()};
            }
        case 5:
            switch (c.index(6)) {
            case 0: return {Op::PUSH, c.boolean() ? Opd::R(wr()) : Opd::I(wi()), {}};
            case 1: { int r = wr(); if (r == SP) r = BP; return {Op::POP, Opd::R(r), {}}; }
            case 2: return {Op::CALL, wjump(), {}};
            case 3: return {Op::RET, {}, {}};
            case 4: return {Op::INC, Opd::R(wr()), {}};
            default: return {Op::CMP, Opd::R(wr()), Opd::R(wr())};
            }
        case 6:
            switch (c.index(5)) {
            case 0: return {Op::FADD, Opd::F(wf()), Opd::F(wf())};
            case 1: return {Op::FPOP, Opd::F(wf()), {}};
            case 2: return {Op::NRW, Opd::R(wr()), Opd::F(wf())};
            case 3: return {Op::EXT, Opd::F(wf()), Opd::R(wr())};
            default: return {Op::FPUSH, Opd::F(wf()), {}};
            }
        case 7: return {Op::HALT, {}, {}};
        default:
            if (o.io) return {c.pick<Op>({Op::PUTNUM, Op::PUTCHAR, Op::GETCHAR}), Opd::R(reg_gp()), {}};
            return {Op::NOP, {}, {}};
        }
    }

    // Is the operation's effect fully specified in this state?
    bool specified(const State& s, const Ins& in) {
        if (in.op == Op::LSH || in.op == Op::RSH) {
            Machine t(s, nullptr);
            try {
                int64_t y = t.value(in.b);
                if (y < 1 || y > 63) return false;
            } catch (const Fault&) {
                return o.faults;
            }
        }
        if (in.op == Op::NRW) {
            if ((size_t)in.b.r < s.f.size()) {
                double d = as_double(s.f[in.b.r]);
                if (!(d > -9.2e18 && d < 9.2e18)) return false;
            }
        }
        if (in.op == Op::GETCHAR && s.inpos >= s.in.size()) return false;
        if (in.op == Op::POP && in.a.r == SP) return false;
        return true;
    }

    Prog run() {
        Prog p;
        p.m = m;
        T = (size_t)c.range((int64_t)o.min_text, (int64_t)o.max_text);
        if (o.data) p.data = *o.data;
        size_t nd = o.data ? 0 : c.boolean() ? (size_t)c.range(0, std::min<int64_t>(8, (int64_t)m.nm)) : 0;
        for (size_t i = 0; i < nd; ++i) p.data.push_back(o.large_ints ? c.int64() : c.range(0, 20));
        if (o.io && o.input && c.chance(1, 3)) {
            size_t n = c.range(1, 6);
            for (size_t i = 0; i < n; ++i) p.input += (char)c.range('!', '~');
        }
        std::vector<std::optional<Ins>> text(T);
        State st = p.init();
        std::vector<Ins> flat(T);  // view for the machine
        Machine mach(st, &flat);
        p.executed.assign(T, 0);
        while (!mach.st.halted && mach.st.err == Err::None) {
            if (p.steps >= o.max_steps) {
                // not terminating within the bound: give up on this program
                throw pbt::Discard{};
            }
            uint64_t ip = mach.st.ip;
            if (ip >= T) throw pbt::Discard{};
            if (!text[ip]) {
                Ins in;
                if (ip == T - 1) {
                    in = {Op::HALT, {}, {}};
                } else {
                    in = pick_ins(mach.st);
                }
                text[ip] = in;
                flat[ip] = in;
            }
            const Ins& in = flat[ip];
            if (p.executed[ip]) ++p.reexecuted;
            p.executed[ip] = 1;
            if (!specified(mach.st, in)) throw pbt::Discard{};
            mach.step();
            ++p.steps;
            if (mach.st.err != Err::None && !o.faults) throw pbt::Discard{};
            if (mach.st.nan) throw pbt::Discard{};
            if (in.op >= Op::JMP && in.op <= Op::RET) {
                ++p.branches;
                if (mach.st.ip != ip + 1) ++p.taken;
            }
            if (in.op == Op::CALL) ++p.calls;
            p.stores += mach.st.last_writes.size();
            if ((in.b.k >= K::MI && in.op != Op::LEA) || in.op == Op::POP || in.op == Op::RET) ++p.loads;
        }
        for (size_t i = 0; i < T; ++i)
            if (!text[i]) flat[i] = o.wild_fill ? wild() : Ins{Op::NOP, {}, {}};
        p.text = flat;
        p.fin = mach.st;
        return p;
    }

    Ins pick_ins(const State& s) {
        if (m.nr >= 2 && o.loops) {
            if (pending_jnz) {
                pending_jnz = false;
                loop_reg = -1;
                if (loop_start < s.ip) return {c.boolean() ? Op::JNZ : Op::JG, Opd::I((int64_t)loop_start), {}};
            }
            if (loop_reg < 0) {
                if (c.chance(1, 8)) {
                    loop_reg = (int)c.index(m.nr);
                    loop_start = s.ip + 1;
                    return {Op::MOV, Opd::R(loop_reg), Opd::I(c.range(1, 5))};
                }
            } else if (s.ip > loop_start && c.chance(1, 5)) {
                Ins in{Op::LOOP, Opd::R(loop_reg), Opd::I((int64_t)loop_start)};
                if (c.chance(1, 3)) in = {Op::DEC, Opd::R(loop_reg), {}};  // followed by JNZ below
                if (in.op == Op::DEC) pending_jnz = true;
                else loop_reg = -1;
                return in;
            }
        }
        for (int t = 0; t < 4; ++t) {
            Ins in;
            bool want_fault = o.faults && c.chance(1, 14);
            if (want_fault) in = wild();
            else in = candidate(s);
            if (!specified(s, in)) continue;
            if ((in.op == Op::RET || in.op == Op::CALL || (in.op >= Op::JMP && in.op <= Op::JNS))) {
                // a taken branch must stay inside the text
                std::vector<Ins> one(s.ip + 1);
                one[s.ip] = in;
                Machine t2(s, &one);
                t2.step();
                if (t2.st.err != Err::None && !want_fault) continue;
                if (t2.st.err == Err::None && t2.st.ip >= T) continue;
                return in;
            }
            std::vector<Ins> one(s.ip + 1);
            one[s.ip] = in;
            Machine t2(s, &one);
            t2.step();
            if (t2.st.err != Err::None && !want_fault) continue;
            if (t2.st.nan) continue;
            if (t2.st.sp < 0 || t2.st.sp > (int64_t)m.nm) {
                if (!want_fault) continue;
            }
            if (in.op == Op::HALT && s.ip + 1 < T && c.chance(3, 4)) continue;
            return in;
        }
        return {Op::NOP, {}, {}};
    }

    pbt::Ctx& c;
    Machine0 m;
    Opts o;
    size_t T = 0;
    int loop_reg = -1;
    uint64_t loop_start = 0;
    bool pending_jnz = false;
};

inline std::string render(const Prog& p) {
    std::string s = "# registers " + std::to_string(p.m.nr) + ", float registers " + std::to_string(p.m.nf) +
                    ", memory " + std::to_string(p.m.nm) + "\n";
    if (!p.data.empty()) {
        s += "# initial memory:";
        for (auto d : p.data) s += " " + std::to_string(d);
        s += "\n";
    }
    if (!p.input.empty()) s += "# input: " + p.input + "\n";
    return s + program_text(p.text, true);
}

// The same program at high addresses (jumps through registers are left as they are); returns the distance.
inline int64_t moved_up(pbt::Ctx& c, Prog& p) {
    int64_t d = c.pick<int64_t>({300, 120, 60});
    std::vector<Ins> t = {{Op::JMP, Opd::I(d), {}}};
    while ((int64_t)t.size() < d) t.push_back({c.pick<Op>({Op::NOP, Op::HALT, Op::RET, Op::NOP}), {}, {}});
    for (auto i : p.text) {
        if (i.op >= Op::JMP && i.op <= Op::CALL && i.a.k == K::I && i.op != Op::LOOP) i.a.i += d;
        else if (i.op == Op::LOOP && i.b.k == K::I) i.b.i += d;
        t.push_back(i);
    }
    p.text = std::move(t);
    c.label("program at high addresses");
    return d;
}

}  // namespace gen
