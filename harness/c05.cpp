// C05: what the debugger shows as program text assembles back to the same program.
#include "asmgen.h"
#include "dbg.h"

using namespace asmgen;

static void prop(pbt::Ctx& c) {
    dbg::configure({});
    refasm::lenient() = true;
    gen::Prog p;
    bool runnable = c.chance(1, 3);
    if (runnable) {
        gen::Machine0 m;
        m.nr = c.range(1, 6);
        m.nf = c.range(0, 3);
        m.nm = 24;
        gen::Opts o;
        o.max_text = c.pick<size_t>({8, 16, 30});
        o.max_steps = 200;
        gen::ProgGen g(c, m, o);
        p = g.run();
    } else {
        bool large = c.chance(1, 300);
        if (large) c.label("large");
        size_t n = (size_t)c.range(1, large ? 600 : 12);
        for (size_t i = 0; i < n; ++i) {
            Ins in = instruction(c);
            // IP and registers the machine does not have are fine: nothing is executed
            p.text.push_back(in);
        }
        p.m = {8, 4, 16};
    }
    c.note(gen::render(p));
    if (p.text.size() >= 3) c.nontrivial();
    vm::reset();
    vm::IoCapture io(p.input);
    dbg::Session s(p);
    Native& n = *s.native;
    n.WaitForDebugEvent();
    if (n.TextSize() != p.text.size()) c.fail("text size");
    auto shown = n.ReadText(0, p.text.size());
    if (shown.size() != p.text.size()) c.fail("number of instructions shown");
    std::string again = ".text\n";
    for (size_t i = 0; i < shown.size(); ++i) {
        Ins in;
        try {
            in = refasm::Reader(shown[i]).one();
        } catch (const refasm::Reject& e) {
            c.fail("'" + ins_text(p.text[i]) + "' is shown as '" + shown[i] + "', which is not an instruction: " + e.why);
        } catch (const refasm::Unjudged&) {
            c.fail("'" + ins_text(p.text[i]) + "' is shown as '" + shown[i] + "'");
        }
        if (!refasm::same(in, p.text[i])) c.fail("'" + ins_text(p.text[i]) + "' is shown as '" + shown[i] + "'");
        again += shown[i] + "\n";
    }
    for (int k = 0; k < 3; ++k) {  // any part of it reads the same
        size_t a = c.index(shown.size()), m = c.index(shown.size() - a + 1);
        auto part = n.ReadText(a, m);
        if (part != std::vector<std::string>(shown.begin() + (long)a, shown.begin() + (long)(a + m)))
            c.fail("reading " + std::to_string(m) + " instructions from " + std::to_string(a) + " shows other instructions than the whole listing");
    }
    // reassemble the whole listing
    tiny::t86::Program q = vm::assemble(again);
    if (q.instructions().size() != p.text.size()) c.fail("reassembled text has another size");
    for (size_t i = 0; i < shown.size(); ++i)
        if (q.instructions()[i]->toString() != shown[i]) c.fail("'" + shown[i] + "' reassembles to '" + q.instructions()[i]->toString() + "'");
    // write it back over itself, in one go or piecewise
    if (c.boolean()) n.WriteText(0, shown);
    else
        for (size_t i = 0; i < shown.size(); ++i) n.WriteText(i, {shown[i]});
    if (n.ReadText(0, shown.size()) != shown) c.fail("writing the shown text back changes it");
    if (runnable) {
        model::State st = p.init();
        size_t k = 0;
        while (!st.halted && st.err == Err::None && k++ < 2000) {
            Machine m(std::move(st), &p.text);
            m.step();
            st = std::move(m.st);
        }
        if (st.halted) {
            c.label("executed");
            n.ContinueExecution();
            auto e = dbg::map(n.WaitForDebugEvent());
            if (e.kind != dbg::Ev::End) c.fail("the rewritten program ends with '" + e.str() + "'");
            dbg::Ref r;
            r.st = st;
            std::string d = dbg::compare(n, r, io.out.str());
            if (!d.empty()) c.fail("after running the rewritten program: " + d);
        }
    }
    s.terminate();
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C05";
    cfg.rule =
        "A case is a program (any instructions in every documented operand form, or an executable program) whose text is read through the debugger, "
        "reassembled, written back and run. Non-trivial: at least three instructions.";
    cfg.assumptions = {"as C01 for the executed programs"};
    cfg.quick_cases = 150000;
    cfg.thorough_cases = 10000000;
    cfg.quick_secs = 25;
    cfg.thorough_secs = 600;
    cfg.case_timeout = 10;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
