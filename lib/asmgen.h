// Generation of executables as token lists, their rendering in random layouts, and mutations.
#pragma once
#include "pbt.h"
#include "refasm.h"

namespace asmgen {
using namespace model;
using Toks = std::vector<std::string>;

inline int64_t imm(pbt::Ctx& c) {
    switch (c.weighted({5, 3, 2, 2})) {
    case 0: return c.range(0, 12);
    case 1: return -c.range(0, 12);
    case 2: return c.pick<int64_t>({INT32_MAX, -INT32_MAX, 65536, -65536, 1000000007, INT32_MAX - 1});
    default: return c.range(-INT32_MAX, INT32_MAX);
    }
}
inline double fimm(pbt::Ctx& c) {
    switch (c.weighted({4, 2, 2, 2, 1})) {
    case 0: return (double)c.range(-40, 40) / 4.0;
    case 1: return (double)c.range(-1000000, 1000000) / 1000.0;
    case 2: return c.pick<double>({0.0, -0.0, 1.0, 0.1, 1e15, 1e16, 123456789.125, 1e-7, 3.0e20, 1.7976931348623157e308, 2.3e-300, 1e22, 1e23});
    case 3: {
        double d = std::ldexp((double)c.range(1, 1ll << 53) / (double)(1ll << 53), (int)c.range(-200, 200));
        return c.boolean() ? -d : d;
    }
    default: {
        double d = std::bit_cast<double>(c.draw(UINT64_MAX));
        if (!std::isfinite(d) || std::fabs(d) < 2.3e-308) return 2.5;
        return d;
    }
    }
}
inline int reg(pbt::Ctx& c) {
    switch (c.weighted({8, 1, 1, 1})) {
    case 0: return (int)c.range(0, 9);
    case 1: return SP;
    case 2: return BP;
    default: return (int)c.range(10, 130);
    }
}
inline Opd operand(pbt::Ctx& c, K k) {
    Opd o;
    o.k = k;
    o.r = k == K::F ? (int)c.range(0, 6) : reg(c);
    o.r2 = reg(c);
    o.i = imm(c);
    o.s = imm(c);
    if (k == K::FI) o.f = fimm(c);
    return o;
}
// Every documented operand form of every instruction.
struct Form {
    Op op;
    K a, b;
};
inline const std::vector<Form>& forms() {
    static const std::vector<Form> all = [] {
        std::vector<Form> v;
        for (int op = 0; op < (int)Op::COUNT; ++op)
            for (int a = 0; a <= (int)K::MRIRxI; ++a)
                for (int b = 0; b <= (int)K::MRIRxI; ++b) {
                    Ins in{(Op)op, {}, {}};
                    in.a.k = (K)a;
                    in.b.k = (K)b;
                    if (a == 0 && b != 0) continue;
                    try {
                        refasm::Reader(ins_text(in)).one();
                    } catch (const refasm::Reject&) {
                        continue;
                    } catch (const refasm::Unjudged&) {
                        continue;
                    }
                    v.push_back({(Op)op, (K)a, (K)b});
                }
        return v;
    }();
    return all;
}
inline Ins instruction(pbt::Ctx& c) {
    const Form& f = forms()[c.index(forms().size())];
    Ins in{f.op, {}, {}};
    if (f.a != K::None) in.a = operand(c, f.a);
    if (f.b != K::None) in.b = operand(c, f.b);
    return in;
}

inline void num(Toks& t, int64_t i) {
    if (i < 0) t.push_back("-");
    t.push_back(std::to_string(i < 0 ? -i : i));
}
inline void fnum(Toks& t, double f) {
    std::string s = float_text(f);
    if (s[0] == '-') {
        t.push_back("-");
        s.erase(0, 1);
    }
    t.push_back(s);
}
inline std::string rname(int r) { return r == refasm::IP ? "IP" : reg_name(r); }
inline void offset(pbt::Ctx& c, Toks& t, int64_t i) {
    if (i < 0 && c.boolean()) {
        t.push_back("-");
        t.push_back(std::to_string(-i));
    } else {
        t.push_back("+");
        num(t, i);
    }
}
inline void opd(pbt::Ctx& c, Toks& t, const Opd& o) {
    if (is_mem(o.k)) t.push_back("[");
    switch (o.k) {
    case K::None: break;
    case K::R: case K::MR: t.push_back(rname(o.r)); break;
    case K::I: case K::MI: num(t, o.i); break;
    case K::F: t.push_back("F" + std::to_string(o.r)); break;
    case K::FI: fnum(t, o.f); break;
    case K::RI: case K::MRI: t.push_back(rname(o.r)); offset(c, t, o.i); break;
    case K::MRxI: t.push_back(rname(o.r)); t.push_back("*"); num(t, o.s); break;
    case K::MRR: t.push_back(rname(o.r)); t.push_back("+"); t.push_back(rname(o.r2)); break;
    case K::MRRxI: t.push_back(rname(o.r)); t.push_back("+"); t.push_back(rname(o.r2)); t.push_back("*"); num(t, o.s); break;
    case K::MRIR: t.push_back(rname(o.r)); offset(c, t, o.i); t.push_back("+"); t.push_back(rname(o.r2)); break;
    case K::MRIRxI: t.push_back(rname(o.r)); offset(c, t, o.i); t.push_back("+"); t.push_back(rname(o.r2)); t.push_back("*"); num(t, o.s); break;
    }
    if (is_mem(o.k)) t.push_back("]");
}
inline void ins(pbt::Ctx& c, Toks& t, const Ins& in) {
    t.push_back(op_name(in.op));
    opd(c, t, in.a);
    if (in.b.k != K::None) {
        t.push_back(",");
        opd(c, t, in.b);
    }
}
inline std::string quote(const std::string& s) {
    std::string r = "\"";
    for (char ch : s) {
        if (ch == '\n') r += "\\n";
        else if (ch == '\t') r += "\\t";
        else if (ch == '\\') r += "\\\\";
        else if (ch == '"') r += "\\\"";
        else r += ch;
    }
    return r + "\"";
}

// Space between two tokens; `need` when they would otherwise melt together.
inline std::string gap(pbt::Ctx& c, bool need, bool wild) {
    if (!wild) return need || c.boolean() ? " " : "";
    switch (c.weighted({6, 3, 2, 2, 2})) {
    case 0: return need ? " " : "";
    case 1: return std::string(1 + c.index(3), ' ');
    case 2: return c.pick<std::string>({"\t", "\n", "\r\n", " \n ", "\v", "\f"});
    case 3: {
        std::string s = " #";
        size_t n = c.index(8);
        for (size_t i = 0; i < n; ++i) s += c.pick<std::string>({"x", "#", "\"", ".text", " ", "MOV", ",", "5", "é", "\\", "["});
        return s + "\n";
    }
    default: return c.chance(1, 300) ? std::string(200000, c.boolean() ? ' ' : '\n') : " ";
    }
}
inline bool word(char ch) { return isalnum((unsigned char)ch) || ch == '_' || ch == '.'; }
inline std::string join(pbt::Ctx& c, const Toks& t, bool wild) {
    std::string s = wild ? gap(c, false, true) : "";
    for (size_t i = 0; i < t.size(); ++i) {
        bool need = i && !t[i].empty() && !t[i - 1].empty() && word(t[i - 1].back()) && word(t[i][0]);
        if (i && t[i - 1] == "." ) need = false;
        if (i) s += gap(c, need, wild);
        s += t[i];
    }
    return s + (wild ? gap(c, false, true) : "\n");
}

}  // namespace asmgen
