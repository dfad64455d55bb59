// C01: the pipelined, speculating CPU computes what sequential execution computes.
#include "vm.h"
using namespace gen;

// The program run many times over: registers are put back at the start of every round, memory is not.
static Prog repeated(pbt::Ctx& c, Prog p) {
    Prog q = p;
    q.m.nm = p.m.nm + 1;  // the last cell counts the rounds
    int64_t counter = (int64_t)p.m.nm;
    q.text.clear();
    std::vector<Ins> head;
    head.push_back({Op::MOV, Opd::MI(counter), Opd::I(c.range(20, 1500))});
    size_t again = head.size();
    for (size_t i = 0; i < p.m.nr; ++i) head.push_back({Op::MOV, Opd::R((int)i), Opd::I(0)});
    head.push_back({Op::MOV, Opd::R(SP), Opd::I(counter)});
    head.push_back({Op::MOV, Opd::R(BP), Opd::I(counter)});
    int64_t d = (int64_t)head.size(), end = d + (int64_t)p.text.size();
    q.text = head;
    for (auto i : p.text) {
        if (i.op == Op::HALT) i = {Op::JMP, Opd::I(end), {}};
        else if (i.op >= Op::JMP && i.op <= Op::CALL && i.a.k == K::I && i.op != Op::LOOP) i.a.i += d;
        else if (i.op == Op::LOOP && i.b.k == K::I) i.b.i += d;
        q.text.push_back(i);
    }
    q.text.push_back({Op::MOV, Opd::R(0), Opd::MI(counter)});
    q.text.push_back({Op::SUB, Opd::R(0), Opd::I(1)});
    q.text.push_back({Op::MOV, Opd::MI(counter), Opd::R(0)});
    q.text.push_back({Op::JNZ, Opd::I((int64_t)again), {}});
    q.text.push_back({Op::HALT, {}, {}});
    q.data.resize(std::min(q.data.size(), p.m.nm));
    ProgGen g(c, q.m, Opts());
    State st = q.init();
    Machine mach(st, &q.text);
    q.steps = q.stores = q.loads = q.taken = q.calls = q.reexecuted = 0;
    while (!mach.st.halted) {
        if (++q.steps > 250000 || mach.st.ip >= q.text.size()) throw pbt::Discard{};
        const Ins& in = q.text[mach.st.ip];
        if (in.op == Op::BKPT || !g.specified(mach.st, in)) throw pbt::Discard{};
        uint64_t ip = mach.st.ip;
        mach.step();
        if (mach.st.err != Err::None || mach.st.nan) throw pbt::Discard{};
        q.stores += mach.st.last_writes.size();
        q.taken += in.op >= Op::JMP && in.op <= Op::RET && mach.st.ip != ip + 1;
        q.calls += in.op == Op::CALL;
    }
    q.loads = p.loads;
    q.reexecuted = q.steps;
    q.fin = mach.st;
    c.label(q.steps > 65536 ? "more than 65536 instructions" : "repeated");
    return q;
}

static void prop(pbt::Ctx& c) {
    Machine0 m;
    m.nr = c.range(1, 8);
    m.nf = c.range(0, 4);
    m.nm = c.pick<size_t>({24, 8, 64, 33, 128});
    size_t alu = c.range(1, 4), rs = c.range(1, 8), gates = c.range(1, 4);
    Opts o;
    o.max_text = c.pick<size_t>({12, 30, 60});
    size_t scale = c.weighted({6000, 3, 2});
    if (scale == 1) {  // a big machine and a long text
        m.nr = c.range(1, 70);
        m.nf = c.range(0, 40);
        m.nm = c.pick<size_t>({300, 1000, 5000, 300, 1000, 70000});
        alu = c.range(1, 12);
        rs = c.range(1, 40);
        gates = c.range(1, 12);
        o.max_text = 400;
        o.max_steps = 4000;
        c.label("big machine");
    }
    if (scale == 2) o.io = false;
    switch (c.weighted({3, 2, 2, 1})) {  // emphasis
    case 0: break;
    case 1: o.mem_weight = 20; o.stack_weight = 6; break;
    case 2: o.jump_weight = 12; o.call_weight = 5; break;
    default: o.float_weight = 15; break;
    }
    ProgGen g(c, m, o);
    Prog p = g.run();
    if (scale == 2) p = repeated(c, p);
    c.note("# alus " + std::to_string(alu) + ", reservation entries " + std::to_string(rs) + ", ram gates " +
           std::to_string(gates) + "\n" + render(p));
    vm::reset();
    vm::IoCapture io(p.input);
    vm::t86::Cpu cpu(p.m.nr, p.m.nf, alu, rs, p.m.nm, gates);
    cpu.start(vm::load(p));
    uint64_t limit = 4000 + p.steps * 400, t = 0;
    while (!cpu.halted()) {
        if (++t > limit) c.fail("the machine did not halt after " + std::to_string(limit) + " ticks; reference halts after " +
                                std::to_string(p.steps) + " instructions");
        cpu.tick();
    }
    std::string d = vm::compare(cpu, p.fin, io.out.str());
    if (!d.empty()) c.fail("final state differs: " + d);
    if (p.stores && p.loads && p.taken) c.nontrivial();
    if (p.calls) c.label("call");
    if (p.taken) c.label("taken-branch");
    if (p.stores && p.loads) c.label("store+load");
    if (p.reexecuted) c.label("loops");
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C01";
    cfg.rule =
        "A case is a generated program (3-60 instructions, all parseable instructions and operand forms) with register, "
        "float register, memory, ALU, reservation-station and RAM-gate counts (rarely up to 70 registers, 70000 cells, 400 instructions); "
        "unreached code is arbitrary; some programs are repeated up to 1500 times (250000 instructions). Non-trivial: "
        "the reference run stores, loads and takes at least one branch.";
    cfg.assumptions = {"executed shifts are by 1..63, NRW stays in range, no NaN results, GETCHAR has input left, POP SP and IP operands excluded"};
    cfg.quick_cases = 400000;
    cfg.thorough_cases = 3000000;
    cfg.quick_secs = 40;
    cfg.thorough_secs = 1500;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
