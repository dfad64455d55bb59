// Independent reader of the textual executable format (docs/t86.md, docs/t86-isa.md): decides
// whether a text is a valid executable and which instructions and data it means.
#pragma once
#include "t86model.h"

namespace refasm {
using namespace model;
constexpr int IP = -3;

struct Reject {
    std::string why;
};
struct Unjudged {  // the documents leave open whether this is accepted
    std::string why;
};

enum class T { Id, Num, Float, Str, Punct, Bad, End };
struct Tok {
    T t;
    std::string s;
    int64_t n = 0;
    double f = 0;
};

inline std::vector<Tok> lex(const std::string& x) {
    std::vector<Tok> r;
    size_t i = 0;
    auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    auto dig = [](char c) { return c >= '0' && c <= '9'; };
    auto alpha = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; };
    while (i < x.size()) {
        char c = x[i];
        if (sp(c)) {
            ++i;
        } else if (c == '#') {
            while (i < x.size() && x[i] != '\n') ++i;
        } else if (dig(c)) {
            size_t j = i, dots = 0;
            while (j < x.size() && (dig(x[j]) || x[j] == '.')) dots += x[j++] == '.';
            Tok t{dots ? T::Float : T::Num, x.substr(i, j - i)};
            if (dots > 1) t.t = T::Bad;
            if (dots == 0) {
                size_t z = t.s.find_first_not_of('0');
                std::string d = z == std::string::npos ? "0" : t.s.substr(z);
                if (d.size() > 10 || strtoll(d.c_str(), nullptr, 10) > INT32_MAX) t.t = T::Bad;
                else t.n = strtoll(d.c_str(), nullptr, 10);
            } else if (dots == 1) {
                t.f = strtod(t.s.c_str(), nullptr);
                if (std::isinf(t.f)) t.t = T::Bad;
                else if (t.f != 0 && std::fabs(t.f) < 2.3e-308) throw Unjudged{"subnormal float"};
                else if (t.f == 0 && t.s.find_first_of("123456789") != std::string::npos) throw Unjudged{"underflowing float"};
            }
            r.push_back(t);
            i = j;
        } else if (alpha(c)) {
            size_t j = i;
            while (j < x.size() && (alpha(x[j]) || dig(x[j]))) ++j;
            r.push_back({T::Id, x.substr(i, j - i)});
            i = j;
        } else if (c == '"') {
            Tok t{T::Str, ""};
            size_t j = i + 1;
            bool closed = false;
            while (j < x.size()) {
                if (x[j] == '"') {
                    closed = true;
                    ++j;
                    break;
                }
                if (x[j] == '\\') {
                    ++j;
                    char e = j < x.size() ? x[j] : 0;
                    if (e == 'n') t.s += '\n';
                    else if (e == 't') t.s += '\t';
                    else if (e == '\\') t.s += '\\';
                    else if (e == '"') t.s += '"';
                    else {
                        t.t = T::Bad;
                        break;
                    }
                    ++j;
                } else
                    t.s += x[j++];
            }
            if (!closed) t.t = T::Bad;
            if (t.t == T::Bad) {
                r.push_back(t);
                r.push_back({T::End, ""});
                return r;
            }
            r.push_back(t);
            i = j;
        } else if ((unsigned char)c >= 0x80) {
            throw Unjudged{"non-ASCII byte"};
        } else {
            static const char* two[] = {"!=", "==", "->", ">=", ">>", "<=", "<<", "&&", "||"};
            bool ok = false;
            for (auto p : two)
                if (x.compare(i, 2, p) == 0) {
                    r.push_back({T::Punct, p});
                    i += 2;
                    ok = true;
                    break;
                }
            if (ok) continue;
            r.push_back({strchr(";,[]{}()!=%+-<>:/*`$.&|^", c) && c ? T::Punct : T::Bad, std::string(1, c)});
            ++i;
        }
    }
    r.push_back({T::End, ""});
    return r;
}

// Accept what the documents leave open (for texts the VM itself printed).
inline bool& lenient() {
    static bool b = false;
    return b;
}

class Reader {
public:
    explicit Reader(const std::string& s) : toks(lex(s)) {}
    std::vector<Ins> text;
    std::vector<int64_t> data;
    bool has_text = false;

    void file() {
        if (!is(".")) bad("no section");
        while (is(".")) {
            next();
            if (cur().t != T::Id) bad("section name");
            std::string n = cur().s;
            if (n == "debug_source") return;
            if (n == "text" || n == "data") next();
            else ++p;
            if (n == "text") {
                has_text = true;
                while (cur().t == T::Num || cur().t == T::Id || is("-")) text.push_back(instruction());
            } else if (n == "data") {
                while (cur().t == T::Str || cur().t == T::Num || is("-")) {
                    if (cur().t == T::Str) {
                        for (char c : cur().s) data.push_back(c);
                        data.push_back(0);
                        next();
                    } else
                        data.push_back(imm());
                }
            } else {
                while (!is(".") && cur().t != T::End) {
                    if (cur().t == T::Bad) throw Unjudged{"lexical garbage in an ignored section"};
                    ++p;
                }
            }
        }
        if (cur().t != T::End) bad("trailing " + cur().s);
        if (!has_text) throw Unjudged{"no text section"};
    }

    Ins one() {
        Ins i = instruction();
        if (cur().t != T::End) bad("trailing");
        return i;
    }

private:
    std::vector<Tok> toks;
    size_t p = 0;
    const Tok& cur() {
        return toks[p];
    }
    bool is(const char* s) { return cur().t == T::Punct && cur().s == s; }
    [[noreturn]] void bad(const std::string& w) { throw Reject{w}; }
    // A lexically malformed token is an error as soon as it is the current one.
    void next() {
        if (cur().t != T::End) ++p;
        if (cur().t == T::Bad) bad("malformed token " + cur().s);
    }
    static int index(const std::string& s) {
        // The documents only speak of R<number>; what other names beginning with R or F do is open.
        if (s.size() < 2 || s.size() > 5 || s.find_first_not_of("0123456789", 1) != std::string::npos) throw Unjudged{"register name " + s};
        return atoi(s.c_str() + 1);
    }
    int reg() {
        if (cur().t != T::Id) bad("expected R");
        std::string s = cur().s;
        int r;
        if (s == "BP") r = BP;
        else if (s == "SP") r = SP;
        else if (s == "IP") r = IP;
        else if (s[0] != 'R') bad("expected R");
        else r = index(s);
        next();
        return r;
    }
    int freg() {
        if (cur().t != T::Id || cur().s[0] != 'F') bad("expected F");
        int r = index(cur().s);
        next();
        return r;
    }
    int64_t imm() {
        bool neg = is("-");
        if (neg) next();
        if (cur().t != T::Num) bad("expected i");
        int64_t v = cur().n;
        next();
        return neg ? -v : v;
    }
    Opd mem() {
        next();  // [
        Opd o;
        if (cur().t == T::Num || is("-")) {
            o = Opd::MI(imm());
        } else {
            int r = reg();
            if (is("*")) {
                next();
                o = Opd::MRxI(r, imm());
            } else if (is("+") || is("-")) {
                bool minus = is("-");
                next();
                if (cur().t == T::Num || is("-")) {
                    int64_t i = imm();
                    if (minus) i = -i;
                    if (is("+")) {
                        next();
                        int r2 = reg();
                        if (is("*")) {
                            next();
                            o = Opd::MRIRxI(r, i, r2, imm());
                        } else
                            o = Opd::MRIR(r, i, r2);
                    } else
                        o = Opd::MRI(r, i);
                } else if (!minus) {
                    int r2 = reg();
                    if (is("*")) {
                        next();
                        o = Opd::MRRxI(r, r2, imm());
                    } else
                        o = Opd::MRR(r, r2);
                } else
                    bad("R - something");
            } else
                o = Opd::MR(r);
        }
        if (!is("]")) bad("expected ]");
        next();
        return o;
    }
    Opd operand() {
        if (is("[")) return mem();
        if (cur().t == T::Id) {
            if (cur().s[0] == 'F') return Opd::F(freg());
            int r = reg();
            if (is("+") || is("-")) {
                bool minus = is("-");
                next();
                int64_t i = imm();
                return Opd::RI(r, minus ? -i : i);
            }
            return Opd::R(r);
        }
        bool neg = is("-");
        if (neg) next();
        if (cur().t == T::Num) {
            int64_t v = cur().n;
            next();
            return Opd::I(neg ? -v : v);
        }
        if (cur().t == T::Float) {
            double v = cur().f;
            next();
            return Opd::FI(neg ? -v : v);
        }
        bad("expected an operand");
    }
    static bool in(K k, std::initializer_list<K> l) {
        for (auto x : l)
            if (x == k) return true;
        return false;
    }
    static bool fits(Op op, const Opd& a, const Opd& b) {
        K x = a.k, y = b.k;
        switch (op) {
        case Op::MOV:
            if (x == K::R)
                return in(y, {K::R, K::I, K::F, K::MI, K::MR, K::MRI, K::MRxI, K::MRR, K::MRRxI, K::MRIR, K::MRIRxI});
            if (x == K::F) return in(y, {K::FI, K::F, K::R, K::MI, K::MR});
            return is_mem(x) && in(y, {K::R, K::F, K::I});
        case Op::LEA:
            if (x == K::R && y == K::MRxI && !lenient()) throw Unjudged{"LEA with [R * i]"};
            if (x == K::R && y == K::MRxI) return true;
            return x == K::R && in(y, {K::MRI, K::MRR, K::MRRxI, K::MRIR, K::MRIRxI});
        case Op::ADD: case Op::SUB: case Op::MUL: case Op::DIV: case Op::IMUL: case Op::IDIV: case Op::AND: case Op::OR: case Op::XOR:
        case Op::LSH: case Op::RSH: return x == K::R && in(y, {K::R, K::I, K::RI, K::MI, K::MR, K::MRI});
        case Op::CMP: return x == K::R && in(y, {K::R, K::I, K::MI, K::MR, K::MRI});
        case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FCMP: return x == K::F && in(y, {K::F, K::FI});
        case Op::LOOP: return x == K::R && in(y, {K::R, K::I});
        case Op::EXT: return x == K::F && y == K::R;
        case Op::NRW: return x == K::R && y == K::F;
        case Op::INC: case Op::DEC: case Op::NEG: case Op::NOT: case Op::POP: case Op::PUTCHAR: case Op::PUTNUM: case Op::GETCHAR:
            return x == K::R && y == K::None;
        case Op::JMP: case Op::CALL: case Op::PUSH: return in(x, {K::R, K::I}) && y == K::None;
        case Op::FPUSH: return in(x, {K::F, K::FI}) && y == K::None;
        case Op::FPOP: return x == K::F && y == K::None;
        case Op::RET: case Op::NOP: case Op::HALT: case Op::BREAK: case Op::BKPT: return x == K::None && y == K::None;
        default:  // conditional jumps
            return in(x, {K::R, K::I, K::MI, K::MR, K::MRI}) && y == K::None;
        }
    }
    Ins instruction() {
        if (cur().t == T::Num) next();
        if (cur().t != T::Id) bad("expected an instruction");
        static const std::map<std::string, Op> names = [] {
            std::map<std::string, Op> m;
            for (int i = 0; i < (int)Op::COUNT; ++i) m[op_name((Op)i)] = (Op)i;
            return m;
        }();
        auto it = names.find(cur().s);
        if (it == names.end()) bad("unknown instruction " + cur().s);
        Ins in;
        in.op = it->second;
        next();
        static const std::set<Op> nullary = {Op::RET, Op::NOP, Op::HALT, Op::BREAK, Op::BKPT};
        if (!nullary.count(in.op)) {
            in.a = operand();
            if (is(",")) {
                next();
                in.b = operand();
            }
        }
        if (!fits(in.op, in.a, in.b)) bad("operands of " + std::string(op_name(in.op)));
        return in;
    }
};

inline bool same(const Opd& a, const Opd& b) {
    if (a.k != b.k) return false;
    auto fb = [](double d) { return std::bit_cast<int64_t>(d); };
    switch (a.k) {
    case K::None: return true;
    case K::R: case K::F: case K::MR: return a.r == b.r;
    case K::I: case K::MI: return a.i == b.i;
    case K::FI: return fb(a.f) == fb(b.f);
    case K::RI: case K::MRI: return a.r == b.r && a.i == b.i;
    case K::MRxI: return a.r == b.r && a.s == b.s;
    case K::MRR: return a.r == b.r && a.r2 == b.r2;
    case K::MRRxI: return a.r == b.r && a.r2 == b.r2 && a.s == b.s;
    case K::MRIR: return a.r == b.r && a.r2 == b.r2 && a.i == b.i;
    case K::MRIRxI: return a.r == b.r && a.r2 == b.r2 && a.i == b.i && a.s == b.s;
    }
    return false;
}
inline bool same(const Ins& a, const Ins& b) { return a.op == b.op && same(a.a, b.a) && same(a.b, b.b); }

}  // namespace refasm
