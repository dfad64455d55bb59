// C03: execution errors are raised exactly for architecturally executed instructions, precisely.
#include "vm.h"
#include "t86/os.h"
using namespace gen;

static void prop(pbt::Ctx& c) {
    Machine0 m;
    m.nr = c.range(1, 8);
    m.nf = c.range(0, 4);
    m.nm = c.pick<size_t>({24, 8, 64, 33, 128});
    bool os_run = c.chance(1, 4);
    size_t alu = c.range(1, 4), rs = c.range(1, 8), gates = c.range(1, 4);
    Opts o;
    o.max_text = c.pick<size_t>({12, 30, 60});
    o.faults = c.chance(7, 8);
    o.wild_registers = true;
    switch (c.weighted({3, 2, 3})) {
    case 0: break;
    case 1: o.mem_weight = 15; break;
    default: o.jump_weight = 12; o.call_weight = 5; break;
    }
    ProgGen g(c, m, o);
    Prog p = g.run();
    bool err = p.fin.err != Err::None;
    c.note("# alus " + std::to_string(alu) + ", reservation entries " + std::to_string(rs) + ", ram gates " +
           std::to_string(gates) + (err ? "; reference: error at " + std::to_string(p.fin.ip) : "; reference: halts") + "\n" + render(p));
    vm::reset();
    vm::IoCapture io(p.input);
    bool wild_unreached = false;
    for (size_t i = 0; i < p.text.size(); ++i) wild_unreached |= !p.executed[i];
    if (os_run) {
        tiny::t86::OS os(m.nr, m.nf, m.nm);
        bool ok = os.Run(vm::load(p));
        if (ok == err) c.fail(std::string("the run ") + (ok ? "succeeded" : "failed") + ", the reference " + (err ? "fails" : "halts"));
        if (io.out.str() != p.fin.out) c.fail("output: machine \"" + io.out.str() + "\", reference \"" + p.fin.out + "\"");
    } else {
        vm::t86::Cpu cpu(m.nr, m.nf, alu, rs, m.nm, gates);
        cpu.start(vm::load(p));
        uint64_t limit = 4000 + p.steps * 400, t = 0;
        bool threw = false;
        std::string what;
        while (!cpu.halted()) {
            if (++t > limit) c.fail("neither halted nor failed after " + std::to_string(limit) + " ticks");
            try {
                cpu.tick();
            } catch (const std::exception& e) {
                threw = true;
                what = e.what();
                break;
            }
        }
        if (threw != err)
            c.fail(threw ? "error raised although the program executes no faulting instruction: " + what
                         : "no error although the program executes a faulting instruction");
        std::string d = vm::compare(cpu, p.fin, io.out.str(), false);
        if (!d.empty()) c.fail((threw ? "state at the error differs: " : "final state differs: ") + d);
        if (threw) {
            uint64_t ip = cpu.getRegister(vm::t86::Register::ProgramCounter());
            if (ip != p.fin.ip && ip != p.fin.ip + 1)
                c.fail("error attributed to IP " + std::to_string(ip) + ", faulting instruction at " + std::to_string(p.fin.ip));
        }
    }
    if (err || (wild_unreached && p.branches)) c.nontrivial();
    if (err) c.label(p.fin.err == Err::Memory ? "memory" : p.fin.err == Err::Register ? "register" : "division");
    else c.label("no-error");
    if (os_run) c.label("os-run");
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C03";
    cfg.rule =
        "A case is a generated program in which both reached and unreached (only speculatively fetched) code may access memory out of range, "
        "name registers that do not exist or divide by zero / overflow, on a random CPU configuration or through the OS run loop. "
        "Non-trivial: the reference run faults, or it branches around code it never executes.";
    cfg.assumptions = {"as C01"};
    cfg.quick_cases = 150000;
    cfg.thorough_cases = 5000000;
    cfg.quick_secs = 40;
    cfg.thorough_secs = 900;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
