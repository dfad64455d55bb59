// C11: see DESIGN.md; a model-based session fuzzer (lib/dbgfuzz.h) with this property's command mix.
#include "dbgfuzz.h"

static void prop(pbt::Ctx& c) {
    dbg::Mix mix;
    mix.bp = 3; mix.bp_all = 0; mix.wp = 1; mix.wp_all = 0; mix.cont = 2; mix.step = 4; mix.over = 8; mix.out = 3; mix.read = 0; mix.functions = true;
    mix.widen(c);
    dbg::Fuzz f(c, mix);
    f.run();
    auto& s = f.stats;
    if (s.overcalls + s.outs >= 1) c.nontrivial();
    if (s.breaks) c.label("breakpoint-hit");
    if (s.watches) c.label("watchpoint-hit");
    if (s.errors) c.label("cpu-error");
    if (s.ends) c.label("ran-to-end");
    if (s.steps) c.label("single-step");
    if (s.overcalls) c.label("call-stepped-over");
    if (s.outs) c.label("stepped-out");
    if (s.writes) c.label("writes");
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C11";
    cfg.rule =
        "A case is a generated program and a history of up to 60 debugger commands over the in-process transport; after every command "
        "everything the debugger shows is compared with the reference debugger. Non-trivial: a call was stepped over or a function stepped out of.";
    cfg.assumptions = {"as C01; the program contains no BKPT of its own"};
    cfg.quick_cases = 60000;
    cfg.thorough_cases = 3000000;
    cfg.quick_secs = 40;
    cfg.thorough_secs = 900;
    cfg.case_timeout = 10;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
