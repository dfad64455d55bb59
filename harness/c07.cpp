// C07: see DESIGN.md; a model-based session fuzzer (lib/dbgfuzz.h) with this property's command mix.
#include "dbgfuzz.h"

static void prop(pbt::Ctx& c) {
    dbg::Mix mix;
    mix.bp = 5; mix.wp = 3; mix.cont = 5; mix.step = 4; mix.read = 2; mix.over = 0; mix.out = 0;
    mix.widen(c, false);
    dbg::Fuzz f(c, mix);
    f.run();
    auto& s = f.stats;
    if (s.conts + s.steps >= 2 && s.bp_ops) c.nontrivial();
    if (s.breaks) c.label("breakpoint-hit");
    if (s.watches) c.label("watchpoint-hit");
    if (s.errors) c.label("cpu-error");
    if (s.ends) c.label("ran-to-end");
    if (s.steps) c.label("single-step");
    if (s.overcalls) c.label("call-stepped-over");
    if (s.outs) c.label("stepped-out");
    if (s.writes) c.label("writes");
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C07";
    cfg.rule =
        "A case is a generated program and a history of up to 60 debugger commands over the in-process transport; after every command "
        "everything the debugger shows is compared with the reference debugger. Non-trivial: at least two resumes and one breakpoint command.";
    cfg.assumptions = {"as C01; the program contains no BKPT of its own"};
    cfg.quick_cases = 110000;
    cfg.thorough_cases = 3000000;
    cfg.quick_secs = 40;
    cfg.thorough_secs = 900;
    cfg.case_timeout = 10;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
