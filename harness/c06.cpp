// C06: layout, comments, addresses, section order and unrelated sections do not change the program.
#include "asmgen.h"
#include "vm.h"

using namespace asmgen;

static const std::vector<std::string> kIgnored = {
    ".debug_line\n0: 0\n1: 3\n 5 : 12\n",
    ".debug_info\nDIE_compilation_unit: {\nDIE_function: {\nATTR_name: main,\nATTR_begin_addr: 0,\nATTR_end_addr: 8,\n}}\n",
    ".debug_info\nDIE_variable: {\nATTR_name: d,\nATTR_type: 1,\nATTR_location: `BASE_REG_OFFSET -2`,\n}\n",
    ".debug_info\nDIE_variable: { ATTR_location: [PUSH BP; PUSH -2; ADD], }\n",
    ".comment\nMOV R0, 1 HALT \"a string\" 5 -3\n",
    ".foo\n",
    ".x @ ~ ? \\ ' é\n",
};

static void prop(pbt::Ctx& c) {
    std::vector<Ins> text;
    bool large = c.chance(1, 400);
    if (large) c.label("large");
    size_t n = (size_t)c.range(1, large ? 400 : 10);
    for (size_t i = 0; i < n; ++i) text.push_back(instruction(c));
    struct D {
        bool str;
        int64_t n;
        std::string s;
    };
    std::vector<D> data;
    size_t dn = c.index(large ? 300 : 6);
    std::vector<int64_t> want;
    for (size_t i = 0; i < dn; ++i) {
        D d{c.boolean(), 0, ""};
        if (d.str) {
            size_t k = c.index(c.chance(1, 60) ? 400 : 6);
            for (size_t j = 0; j < k; ++j) d.s += (char)c.pick<int>({'a', 'Z', '0', ' ', '\n', '\t', '"', '\\', '#', '.', '~', '[', ';'});
            for (char ch : d.s) want.push_back(ch);
            want.push_back(0);
        } else {
            d.n = imm(c);
            want.push_back(d.n);
        }
        data.push_back(d);
    }
    // plain layout
    std::string plain = ".text\n";
    for (auto& i : text) plain += ins_text(i) + "\n";
    plain += ".data\n";
    for (auto& d : data) plain += (d.str ? quote(d.s) : std::to_string(d.n)) + "\n";
    // another layout
    bool wild = c.boolean();
    std::string other;
    size_t ti = 0, di = 0;
    bool any_text = false, any_data = false;
    int guard = 0;
    while ((ti < text.size() || di < data.size() || !any_text) && guard++ < (large ? 3000 : 60)) {
        switch (c.weighted({4, 4, 2})) {
        case 0: {
            Toks t = {".", "text"};
            any_text = true;
            size_t k = c.boolean() ? text.size() - ti : std::min(text.size() - ti, c.index(4));
            bool addr = c.boolean();
            for (size_t i = 0; i < k; ++i, ++ti) {
                if (addr || c.chance(1, 6)) t.push_back(std::to_string(c.chance(1, 5) ? c.index(5000) : ti));
                ins(c, t, text[ti]);
            }
            other += join(c, t, wild) + "\n";
            break;
        }
        case 1: {
            if (di == data.size() && any_data) break;
            Toks t = {".", "data"};
            any_data = true;
            size_t k = c.boolean() ? data.size() - di : std::min(data.size() - di, c.index(4));
            for (size_t i = 0; i < k; ++i, ++di) {
                if (data[di].str) t.push_back(quote(data[di].s));
                else num(t, data[di].n);
            }
            other += join(c, t, wild) + "\n";
            break;
        }
        default: other += c.pick(kIgnored); c.label("unrelated-section");
        }
    }
    if (ti < text.size() || di < data.size()) c.discard();
    if (c.chance(1, 5)) {
        other += ".debug_source\n" + c.pick<std::string>({"int main() {\n  return 0; // .text\n}\n", "\"", "@@ 99999999999 .data 5", ".text NOP"});
        c.label("source-section");
    }
    if (c.chance(1, 5)) {  // the file ends in a comment, or right behind the last token
        while (!other.empty() && isspace((unsigned char)other.back())) other.pop_back();
        if (c.boolean()) other += c.pick<std::string>({" # the end", " #", "\n# .data 5"});
    }
    c.note(plain + "--- other layout ---\n" + (other.size() > 3000 ? other.substr(0, 3000) + "..." : other));
    if (wild && text.size() + data.size() >= 3) c.nontrivial();
    auto read = [&](const std::string& s, const char* what) {
        try {
            return vm::assemble(s);
        } catch (const ParserError& e) {
            c.fail(std::string(what) + " rejected: " + e.what());
        }
    };
    auto p = read(plain, "the plain layout"), q = read(other, "the other layout");
    if (p.instructions().size() != text.size() || q.instructions().size() != text.size()) c.fail("number of instructions");
    for (size_t i = 0; i < text.size(); ++i) {
        auto a = p.instructions()[i]->toString(), b = q.instructions()[i]->toString();
        if (a != b) c.fail("instruction " + std::to_string(i) + " is '" + a + "' in one layout and '" + b + "' in the other");
    }
    if (p.data() != want) c.fail("data of the plain layout");
    if (q.data() != want) c.fail("data of the other layout");
    // the data starts at address 0 of the machine's memory, the rest is zero
    vm::reset();
    tiny::t86::Cpu cpu(4, 2, want.size() + 3);
    cpu.start(std::move(q));
    for (size_t i = 0; i < want.size() + 3; ++i)
        if (cpu.getMemory(i) != (i < want.size() ? want[i] : 0)) c.fail("initial memory at " + std::to_string(i));
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C06";
    cfg.rule =
        "A case is one program and data rendered twice: plainly, and with random whitespace, comments, optional addresses, split and reordered sections and "
        "unrelated sections. Non-trivial: the second layout is wild and there are at least three items.";
    cfg.assumptions = {"unrelated sections are lexically well-formed"};
    cfg.quick_cases = 400000;
    cfg.thorough_cases = 30000000;
    cfg.quick_secs = 25;
    cfg.thorough_secs = 600;
    cfg.case_timeout = 20;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
