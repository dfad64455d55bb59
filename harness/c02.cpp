// C02: every instruction's result, flags and every conditional jump's decision, over
// boundary operands, in every operand form, whatever the flags and values before it.
#include "vm.h"
using namespace gen;

static double fval(pbt::Ctx& c) {
    switch (c.weighted({4, 4, 3, 2, 2})) {
    case 0: return (double)c.range(-8, 8);
    case 1: {
        static const double k[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e308, -1e308, 1.7976931348623157e308, 5e-324, -5e-324,
                                   2.2250738585072014e-308, 1e-300, INFINITY, -INFINITY, 4503599627370496.5, 9007199254740993.0, 0.1,
                                   9.2233720368547748e18, -9.2233720368547758e18, 2147483648.5, -2147483649.5, 1.9999, -1.9999};
        return k[c.index(sizeof k / sizeof *k)];
    }
    case 2: return std::ldexp((double)c.range(-(1 << 20), 1 << 20), (int)c.range(-1060, 1000));
    case 3: return (double)c.range(-1000000, 1000000) / 1000.0;
    default: {
        double d = as_double((int64_t)c.draw(UINT64_MAX));
        return std::isnan(d) ? 1.5 : d;
    }
    }
}

static int64_t imm(pbt::Ctx& c) {
    switch (c.weighted({3, 3, 2})) {
    case 0: return c.range(-16, 16);
    case 1: return c.pick<int64_t>({0, 1, -1, INT32_MAX, -INT32_MAX, 1 << 30, 255, 65536, 2, -2});
    default: return c.range(-INT32_MAX, INT32_MAX);
    }
}

static void prop(pbt::Ctx& c) {
    Machine0 m{6, 3, 64};
    std::vector<Ins> t;
    std::vector<int64_t> data(8);
    // cells: 0,1 integer operands; 2,3 comparison that sets the flags before; 4 spare; 5,6 float operands
    for (int i = 0; i < 5; ++i) data[i] = c.int64();
    if (c.chance(1, 4)) data[1] = (int64_t)((uint64_t)data[0] + (uint64_t)c.range(-1, 1));   // equal / adjacent operands
    if (c.chance(1, 6)) data[1] = (int64_t)(0 - (uint64_t)data[0]);
    data[5] = as_bits(fval(c));
    data[6] = c.chance(1, 5) ? data[5] : as_bits(fval(c));
    auto I = [&](Op o, Opd a = {}, Opd b = {}) { t.push_back({o, a, b}); };
    I(Op::MOV, Opd::R(0), Opd::MI(0));
    I(Op::MOV, Opd::R(1), Opd::MI(1));
    I(Op::MOV, Opd::F(0), Opd::MI(5));
    I(Op::MOV, Opd::F(1), Opd::MI(6));
    I(Op::MOV, Opd::R(5), Opd::I(1));
    I(Op::MOV, Opd::R(2), Opd::MI(2));
    I(Op::CMP, Opd::R(2), Opd::MI(3));
    State s(m.nr, m.nf, m.nm);
    for (int i = 0; i < 8; ++i) s.mem[i] = data[i];
    // the instruction under test
    Op op;
    int d = c.chance(1, 10) ? SP : c.chance(1, 10) ? BP : c.chance(1, 8) ? 1 : 0;
    auto src = [&](bool reg_imm) -> Opd {
        switch (c.weighted({4, 3, reg_imm ? 2u : 0u, 2, 2, 2})) {
        case 0: return Opd::R(1);
        case 1: return Opd::I(imm(c));
        case 2: return Opd::RI(1, imm(c));
        case 3: return Opd::MI(1);
        case 4: return Opd::MR(5);
        default: { int64_t k = c.range(0, 3); return k == 0 ? Opd::MRI(5, 0) : k == 1 ? Opd::MRI(5, 3) : Opd::MRI(5, -1); }
        }
    };
    bool flt = false;
    switch (c.weighted({10, 4, 4, 3, 4, 3, 3, 2})) {
    case 0: {
        op = ProgGen::alu_op(c);
        Opd b = src(true);
        if (op == Op::LSH || op == Op::RSH) {
            int64_t k = c.range(1, 63);
            switch (c.index(4)) {
            case 0: b = Opd::I(k); break;
            case 1: data[1] = k; b = Opd::R(1); break;
            case 2: data[1] = k; b = Opd::MI(1); break;
            default: data[1] = k - 5; b = Opd::RI(1, 5); break;
            }
            if (d == 1) d = 0;
        }
        I(op, Opd::R(d), b);
        break;
    }
    case 1: op = c.pick<Op>({Op::INC, Op::DEC, Op::NEG, Op::NOT}); I(op, Opd::R(d)); break;
    case 2: op = Op::CMP; I(op, Opd::R(d), src(false)); break;
    case 3: {
        op = Op::LEA;
        int64_t i = imm(c), sc = imm(c);
        Opd b;
        switch (c.index(6)) {
        case 0: b = Opd::MRI(1, i); break;
        case 1: b = Opd::MRxI(1, sc); break;
        case 2: b = Opd::MRR(0, 1); break;
        case 3: b = Opd::MRRxI(0, 1, sc); break;
        case 4: b = Opd::MRIR(0, i, 1); break;
        default: b = Opd::MRIRxI(0, i, 1, sc); break;
        }
        I(op, Opd::R(3), b);
        break;
    }
    case 4: op = c.pick<Op>({Op::FADD, Op::FSUB, Op::FMUL, Op::FDIV}); flt = true;
        I(op, Opd::F(0), c.chance(1, 3) ? Opd::FI((double)c.range(0, 4000) / 16) : Opd::F(1));
        break;
    case 5: op = Op::FCMP; flt = true; I(op, Opd::F(0), c.chance(1, 3) ? Opd::FI((double)c.range(0, 4000) / 16) : Opd::F(1)); break;
    case 6:
        switch (c.index(4)) {
        case 0: op = Op::EXT; I(op, Opd::F(2), Opd::R(1)); break;
        case 1: op = Op::NRW; I(op, Opd::R(3), Opd::F(0)); break;
        case 2: op = Op::MOV; I(op, Opd::R(3), Opd::F(0)); break;
        default: op = Op::MOV; I(op, Opd::F(2), Opd::R(1)); break;
        }
        break;
    default:
        op = c.pick<Op>({Op::PUSH, Op::FPUSH, Op::PUTNUM, Op::LOOP});
        if (op == Op::PUSH) I(op, c.boolean() ? Opd::R(1) : Opd::I(imm(c)));
        else if (op == Op::FPUSH) I(op, Opd::F(0));
        else if (op == Op::PUTNUM) I(op, Opd::R(1));
        else I(op, Opd::R(1), Opd::I((int64_t)t.size() + 1 + (int64_t)c.index(3)));
    }
    if (op == Op::LOOP) { I(Op::INC, Opd::R(3)); I(Op::DEC, Opd::R(4)); }
    // the state right after it: store the results, then ask every conditional jump
    Op first = (Op)((int)Op::JZ + (int)c.index(16));
    for (int k = 0; k < 16; ++k) {
        Op j = (Op)((int)Op::JZ + ((int)first - (int)Op::JZ + k) % 16);
        I(j, Opd::I((int64_t)t.size() + 2));
        I(Op::MOV, Opd::MI(16 + (int)j - (int)Op::JZ), Opd::I(1));
    }
    I(Op::HALT);
    for (int i = 0; i < 8; ++i) s.mem[i] = data[i];
    gen::Prog p;
    p.text = t;
    p.data = data;
    p.m = m;
    Machine mach(s, &p.text);
    size_t n = 0;
    while (!mach.st.halted && mach.st.err == Err::None) {
        const Ins& in = mach.fetch();
        if (in.op == Op::NRW) {
            double v = as_double(mach.st.f[0]);
            if (!(v >= -9.2e18 && v <= 9.2e18)) c.discard();
        }
        mach.step();
        if (++n > 200) c.fail("reference does not halt");
    }
    if (mach.st.err != Err::None) c.discard();  // faults are C03's
    p.fin = mach.st;
    c.note(render(p));
    vm::reset();
    vm::IoCapture io("");
    vm::t86::Cpu cpu(m.nr, m.nf, 1 + c.index(3), 1 + c.index(6), m.nm, 1 + c.index(3));
    cpu.start(vm::load(p));
    uint64_t tck = 0;
    while (!cpu.halted()) {
        if (++tck > 100000) c.fail("the machine did not halt");
        cpu.tick();
    }
    if (mach.st.nan) {
        // NaN payloads and the flags' derivation from NaN are the host's; only NaN-ness is specified
        if (op != Op::FCMP && !std::isnan(cpu.getFloatRegister(vm::t86::FloatRegister{0}))) c.fail("result must be NaN");
        c.label("nan");
        return;
    }
    std::string df = vm::compare(cpu, mach.st, io.out.str());
    if (!df.empty()) c.fail(std::string(op_name(op)) + ": " + df + " (cells 16.. hold 1 where the jump JZ JNZ JE JNE JG JGE JL JLE JA JAE JB JBE JO JNO JS JNS was not taken)");
    c.nontrivial();
    c.label(op_name(op));
    if (mach.st.fl.o) c.label("overflow");
    if (mach.st.fl.c) c.label("carry");
    (void)flt;
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C02";
    cfg.rule =
        "A case is one instruction (all arithmetic, logic, shift, compare, address, float, conversion and stack instructions, every source "
        "operand form) on boundary-biased 64-bit / double operands loaded from data memory, preceded by a CMP that sets arbitrary flags and followed by "
        "all 16 conditional jumps, run on a CPU of random ALU/reservation/gate counts. Non-trivial: the instruction completed without NaN.";
    cfg.assumptions = {"shift counts 1..63, NRW operands in range, division faults are C03's, NaN results only compared for NaN-ness"};
    cfg.quick_cases = 150000;
    cfg.thorough_cases = 8000000;
    cfg.quick_secs = 40;
    cfg.thorough_secs = 900;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
