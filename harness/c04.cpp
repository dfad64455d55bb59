// C04: the assembler accepts exactly the documented language and gives it the documented meaning.
#include "asmgen.h"
#include "vm.h"

using namespace asmgen;

static Toks generate(pbt::Ctx& c) {
    Toks t;
    auto sect = [&](const std::string& n) {
        t.push_back(".");
        t.push_back(n);
    };
    bool data = c.chance(1, 3);
    auto emit_data = [&] {
        sect("data");
        size_t n = c.index(5);
        for (size_t i = 0; i < n; ++i) {
            if (c.boolean()) num(t, imm(c));
            else {
                std::string s;
                size_t k = c.index(5);
                for (size_t j = 0; j < k; ++j) s += (char)c.pick<int>({'a', 'Z', '0', ' ', '\n', '\t', '"', '\\', '#', '.', '~', '[', 1});
                t.push_back(quote(s));
            }
        }
    };
    if (data && c.boolean()) {
        emit_data();
        data = false;
    }
    sect("text");
    size_t n = (size_t)c.range(1, 6);
    for (size_t i = 0; i < n; ++i) {
        if (c.boolean()) t.push_back(std::to_string(c.chance(1, 4) ? c.index(100) : i));
        ins(c, t, instruction(c));
    }
    if (data) emit_data();
    if (c.chance(1, 8)) {
        sect(c.pick<std::string>({"debug_line", "foo", "debug_info"}));
        for (size_t i = c.index(4); i-- > 0;) t.push_back(c.pick<std::string>({"0", ":", "1", "DIE_function", "{", "}", ",", "x"}));
    }
    if (c.chance(1, 8)) {
        sect("debug_source");
        t.push_back("\n");
        t.push_back(c.pick<std::string>({"int main() {", "\"unterminated", "@@@ $ 'x'", "99999999999999", ""}));
    }
    return t;
}

static void mutate(pbt::Ctx& c, Toks& t) {
    static const std::vector<std::string> pool = {
        ",", "[", "]", "+", "-", "*", ".", "R0", "R7", "BP", "SP", "F0", "F2", "0", "1", "5", "1.5", "MOV", "ADD", "NOP", "JMP", "CALL", "HALT",
        "FADD", "LEA", "LOOP", "PUSH", "FPUSH", "DBG", "mov", "text", "data", ";", "->", "99999999999", "2147483648", "2147483647", "1.2.3", "\"s\"",
        "(", ")", "{", "}", "=", "&", "|", "$", "@", "'", "?", "\\", "\"", "X", "JXX", "IP", "R", "Rx", "F", "FLAGS", ".5", "5.", "CMP", "MUL", "#",
        "-1", "R1 + 2", "[R1 + R2 * 3]", "[0]", "1e5", "0x10", "_"};
    if (t.empty()) return;
    size_t k = (size_t)c.range(1, 3);
    for (size_t j = 0; j < k && !t.empty(); ++j) {
        size_t i = c.index(t.size());
        switch (c.weighted({4, 4, 4, 2, 2})) {
        case 0: t[i] = c.pick(pool); break;
        case 1: t.erase(t.begin() + i); break;
        case 2: t.insert(t.begin() + i, c.pick(pool)); break;
        case 3: std::swap(t[i], t[c.index(t.size())]); break;
        default: t.insert(t.begin() + i, t[c.index(t.size())]); break;
        }
    }
}

static void prop(pbt::Ctx& c) {
    Toks t = generate(c);
    bool mutated = c.chance(2, 3);
    if (mutated) mutate(c, t);
    std::string src = join(c, t, c.chance(1, 4));
    bool bytes = c.chance(1, 10);
    if (bytes) {
        size_t k = (size_t)c.range(1, 4);
        for (size_t j = 0; j < k && !src.empty(); ++j) {
            size_t i = c.index(src.size());
            switch (c.index(3)) {
            case 0: src[i] = (char)c.draw(255); break;
            case 1: src.erase(i, 1 + c.index(3)); break;
            default: src.insert(i, 1, (char)c.draw(255));
            }
        }
    }
    c.note(src.size() > 3000 ? src.substr(0, 3000) + "..." : src);
    // reference
    enum { Accept, Reject, Open } want = Accept;
    std::string why;
    std::vector<Ins> text;
    std::vector<int64_t> data;
    try {
        refasm::Reader r(src);
        r.file();
        text = r.text;
        data = r.data;
    } catch (const refasm::Reject& e) {
        want = Reject;
        why = e.why;
    } catch (const refasm::Unjudged& e) {
        want = Open;
    }
    // code under test
    std::unique_ptr<tiny::t86::Program> p;
    std::string msg;
    try {
        std::istringstream is(src);
        Parser parser(is);
        p = std::make_unique<tiny::t86::Program>(parser.Parse());
    } catch (const ParserError& e) {
        msg = e.what();
    }
    if (want == Open) {
        c.label("unjudged");
        return;
    }
    c.label(want == Accept ? "valid" : "invalid");
    if (mutated || bytes || text.size() >= 2) c.nontrivial();
    if (want == Reject) {
        if (p) c.fail("accepted, although it is not a valid executable: " + why);
        if (msg.empty()) c.fail("rejected without a message");
        return;
    }
    if (!p) c.fail("a valid executable was rejected: " + msg);
    auto& got = p->instructions();
    if (got.size() != text.size()) c.fail("read " + std::to_string(got.size()) + " instructions of " + std::to_string(text.size()));
    for (size_t i = 0; i < text.size(); ++i) {
        std::string s = got[i]->toString();
        bool ok = false;
        try {
            ok = refasm::same(refasm::Reader(s).one(), text[i]);
        } catch (const refasm::Reject&) {
        } catch (const refasm::Unjudged&) {
        }
        if (!ok) c.fail("instruction " + std::to_string(i) + " '" + ins_text(text[i]) + "' was read as '" + s + "'");
    }
    if (p->data() != data) c.fail("the data section was read differently");
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C04";
    cfg.rule =
        "A case is the text of an executable: every documented operand form with boundary numbers, in random layout, two thirds with up to three token "
        "mutations and a tenth with byte mutations; acceptance, instructions and data are compared with an independent reader. Non-trivial: mutated or at "
        "least two instructions.";
    cfg.assumptions = {"names like R<non-digits>, LEA [R * i], subnormal floats, non-ASCII bytes outside comments and files without .text are not judged (must not crash)"};
    cfg.quick_cases = 1000000;
    cfg.thorough_cases = 100000000;
    cfg.quick_secs = 25;
    cfg.thorough_secs = 900;
    cfg.case_timeout = 10;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
