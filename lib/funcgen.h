// Programs made of functions: calls, nested calls, recursion with proper frames (as the
// documentation asks for), loops, memory traffic.
#pragma once
#include "pbt.h"
#include "t86model.h"
#include "genprog.h"

class FuncGen {
public:
    explicit FuncGen(pbt::Ctx& c) : c(c) {}
    struct Fn {
        bool frame = true, recursive = false;
        size_t start = 0, end = 0;
    };
    std::vector<Fn> fns;
    bool deep = false;  // recursion down to a hundred activations

    gen::Prog make() {
        using namespace model;
        gen::Prog p;
        p.m.nr = 6;
        p.m.nf = 1;
        p.m.nm = deep ? 1500 : c.pick<size_t>({64, 40, 24});
        size_t nf = 1 + c.index(3);
        fns.assign(nf + 1, {});  // 0 is main
        for (size_t i = 1; i <= nf; ++i) {
            fns[i].recursive = c.chance(1, 2);
            fns[i].frame = fns[i].recursive || c.chance(2, 3);
        }
        struct Patch { size_t at, fn; };
        std::vector<Patch> patches;
        std::vector<Ins>& t = p.text;
        auto I = [&](Op o, Opd a = {}, Opd b = {}) { t.push_back({o, a, b}); };
        // R5: recursion budget; R4: loop counter of main
        for (size_t f = 0; f <= nf; ++f) {
            fns[f].start = t.size();
            bool fr = f && fns[f].frame;
            size_t locals = 0;
            if (f == 0) I(Op::MOV, Opd::R(5), Opd::I(deep ? c.range(30, 120) : c.range(1, 4)));
            if (fr) {
                I(Op::PUSH, Opd::R(BP));
                I(Op::MOV, Opd::R(BP), Opd::R(SP));
                locals = c.index(3);
                if (locals) I(Op::SUB, Opd::R(SP), Opd::I((int64_t)locals));
            }
            size_t n = 1 + c.index(4);
            bool did_call = false;
            for (size_t k = 0; k < n; ++k) {
                size_t what = c.weighted({4, 3, 3, 2, 2});
                if (f == 0 && k == 0) what = 3;
                switch (what) {
                case 0: I(c.pick<Op>({Op::ADD, Op::SUB, Op::XOR}), Opd::R((int)c.index(4)), Opd::I(c.range(0, 9))); break;
                case 1: I(Op::MOV, Opd::MI(c.range(0, 3)), Opd::R((int)c.index(4))); break;
                case 2:
                    if (locals) I(Op::MOV, Opd::MRI(BP, -(int64_t)(1 + c.index(locals))), Opd::R((int)c.index(4)));
                    else I(Op::MOV, Opd::R((int)c.index(4)), Opd::MI(c.range(0, 3)));
                    break;
                case 3: {  // call a later function
                    if (f >= nf) { I(Op::NOP); break; }
                    size_t g = f + 1 + c.index(nf - f);
                    patches.push_back({t.size(), g});
                    I(Op::CALL, Opd::I(0));
                    did_call = true;
                    break;
                }
                default:
                    if (f && fns[f].recursive) {
                        // DEC R5; JLE over; CALL self; over:
                        I(Op::DEC, Opd::R(5));
                        I(Op::JLE, Opd::I((int64_t)t.size() + 2));
                        patches.push_back({t.size(), f});
                        I(Op::CALL, Opd::I(0));
                        did_call = true;
                    } else {
                        I(Op::PUSH, Opd::R((int)c.index(4)));
                        I(Op::POP, Opd::R((int)c.index(4)));
                    }
                }
            }
            (void)did_call;
            if (f == 0) {
                I(Op::PUTNUM, Opd::R((int)c.index(4)));
                I(Op::HALT);
            } else {
                if (fr) {
                    if (locals) I(Op::MOV, Opd::R(SP), Opd::R(BP));
                    I(Op::POP, Opd::R(BP));
                }
                if (c.chance(1, 6)) I(Op::INC, Opd::R((int)c.index(4)));
                I(Op::RET);
            }
            fns[f].end = t.size();
        }
        for (auto& x : patches) t[x.at].a = Opd::I((int64_t)fns[x.fn].start);
        if (c.chance(1, 5)) {  // a function that never returns, called last
            size_t at = t.size() - 1;
            (void)at;
        }
        return p;
    }

private:
    pbt::Ctx& c;
};
