// C13: see DESIGN.md; a model-based session fuzzer (lib/dbgfuzz.h) with this property's command mix.
#include "dbgfuzz.h"

static void prop(pbt::Ctx& c) {
    dbg::Mix mix;
    mix.bp = 3; mix.bp_all = 0; mix.wp = 1; mix.wp_all = 0; mix.cont = 1; mix.step = 1; mix.over = 1; mix.out = 1; mix.read = 0;
    mix.lines = true; mix.src_step = 6; mix.src_next = 6; mix.src_query = 2;
    mix.functions = c.chance(2, 3);
    if (!mix.functions) mix.over = mix.out = 0;
    mix.widen(c);
    dbg::Fuzz f(c, mix);
    f.run();
    auto& s = f.stats;
    if (s.src_steps >= 2 && s.src_long >= 1) c.nontrivial();
    if (s.src_long) c.label("step-across-unmapped-code");
    if (s.src_stops) c.label("step-cut-short");
    if (s.breaks) c.label("breakpoint-hit");
    if (s.watches) c.label("watchpoint-hit");
    if (s.errors) c.label("cpu-error");
    if (s.ends) c.label("ran-to-end");
    if (s.steps) c.label("single-step");
    if (s.overcalls) c.label("call-stepped-over");
    if (s.outs) c.label("stepped-out");
    if (s.writes) c.label("writes");
    if (s.bp_ops) c.label("breakpoint commands");
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C13";
    cfg.rule =
        "A case is a generated program, a random line mapping (with or without functions and source text) in the documented text form, and a "
        "history of up to 30 debugger commands, mostly source-level steps; after each everything shown is compared with the reference. "
        "Non-trivial: two or more source steps, one of which crossed instructions no line maps to.";
    cfg.assumptions = {"as C01; the program contains no BKPT of its own"};
    cfg.quick_cases = 60000;
    cfg.thorough_cases = 3000000;
    cfg.quick_secs = 40;
    cfg.thorough_secs = 900;
    cfg.case_timeout = 10;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
