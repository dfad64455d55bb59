// C16: the debugging-information sections as text.
#include "vm.h"
#include "srcgen.h"
#include "debugger/Source/Parser.h"
#include "debugger/Source/Source.h"

namespace {
using Toks = std::vector<std::string>;
struct Bad {
    std::string why;
};

// own lexer for generated text (the raw source section never reaches it)
Toks lex(const std::string& s) {
    Toks t;
    for (size_t i = 0; i < s.size();) {
        char ch = s[i];
        if (isspace((unsigned char)ch)) {
            ++i;
        } else if (ch == '#') {
            while (i < s.size() && s[i] != '\n') ++i;
        } else if (ch == '"') {
            size_t j = s.find('"', i + 1);
            t.push_back(s.substr(i, j - i + 1));
            i = j + 1;
        } else if (isalnum((unsigned char)ch) || ch == '_') {
            size_t j = i;
            while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_')) ++j;
            t.push_back(s.substr(i, j - i));
            i = j;
        } else {
            t.push_back(std::string(1, ch));
            ++i;
        }
    }
    return t;
}


// what a description at the top level says about a type
struct Entry {
    std::string tag;
    std::map<std::string, std::string> at;  // name, size, id, type
    bool members = false, twice = false;
    std::vector<std::tuple<std::string, size_t, int64_t>> mem;
    uint64_t n(const std::string& k) const { return std::stoull(at.at(k)); }
    bool has(std::initializer_list<const char*> ks) const {
        for (auto k : ks)
            if (!at.count(k)) return false;
        return true;
    }
    bool complete() const {
        if (!has({"id", "size"})) return false;
        if (tag == "DIE_primitive_type") return has({"name"}) && (at.at("name") == "int" || at.at("name") == "float" || at.at("name") == "char");
        if (tag == "DIE_structured_type") return has({"name"}) && members;
        return has({"type"});
    }
};
struct Result {
    bool lines = false, info = false;
    std::map<size_t, uint64_t> map;
    std::string tree;
    std::vector<Entry> entries;
};

// The types which the entries describe, as the debugger has to know them.
struct Types {
    std::map<uint64_t, const Entry*> all;
    std::set<uint64_t> ids, unclear;  // described at all; more than once or by a word the documentation does not have
    explicit Types(const Result& r) {
        for (auto& e : r.entries) {
            if (!e.has({"id"})) continue;
            uint64_t id = e.n("id");
            if (e.twice || !ids.insert(id).second || (e.has({"name"}) && e.at.at("name") == "unsigned")) unclear.insert(id);
            if (e.tag.find("_type") == std::string::npos) continue;
            if (e.complete()) all[id] = &e;
        }
        // what is a part of itself, or points only to pointers, is not a type
        std::vector<uint64_t> endless;
        for (auto& [id, e] : all)
            if (reaches(id, id, false) || reaches(id, id, true)) endless.push_back(id);
        for (auto id : endless) all.erase(id);
        cyclic = !endless.empty();
    }
    bool cyclic = false;
    bool reaches(uint64_t from, uint64_t to, bool pointers) const {
        std::set<uint64_t> seen;
        std::vector<uint64_t> todo = {from};
        while (!todo.empty()) {
            auto* e = get(todo.back());
            todo.pop_back();
            if (!e) continue;
            std::vector<uint64_t> next;
            if (e->tag == "DIE_array_type" || (pointers && e->tag == "DIE_pointer_type")) next.push_back(e->n("type"));
            if (e->tag == "DIE_structured_type" && !pointers)
                for (auto& m : e->mem) next.push_back(std::get<1>(m));
            for (auto n : next) {
                if (n == to) return true;
                if (seen.insert(n).second) todo.push_back(n);
            }
        }
        return false;
    }
    const Entry* get(uint64_t id) const {
        auto it = all.find(id);
        return it == all.end() ? nullptr : it->second;
    }
    // the size or the name depends on something unclear
    bool vague(uint64_t id) const {
        if (unclear.count(id)) return true;
        auto* e = get(id);
        return e && (e->tag == "DIE_pointer_type" || e->tag == "DIE_array_type") && vague(e->n("type"));
    }
    std::optional<uint64_t> size(uint64_t id) const {
        auto* e = get(id);
        if (!e) return {};
        if (e->tag != "DIE_array_type") return e->n("size");
        auto s = size(e->n("type"));
        if (s) *s *= e->n("size");
        return s;
    }
    std::string show(uint64_t id) const {
        auto* e = get(id);
        if (!e) return "<unknown>";
        if (e->tag == "DIE_pointer_type") return show(e->n("type")) + "*";
        if (e->tag == "DIE_array_type") return show(e->n("type")) + "[]";
        return e->at.at("name");
    }
};
// The same of the type `id` of the debugger: what it is, its size, how it is shown.
std::string describe(const Source& s, uint64_t id) {
    auto* t = s.GetType(id);
    std::string size;
    try {
        size = std::to_string(s.GetTypeSize(id));
    } catch (const DebuggerError&) {
        size = "refused";
    }
    if (!t) return "none, size " + size;
    std::string r = std::visit(utils::overloaded{
        [](const PrimitiveType& x) { return "primitive " + FromPrimitiveType(x.type); },
        [](const PointerType& x) { return "pointer to " + std::to_string(x.type_id); },
        [](const ArrayType& x) { return "array of " + std::to_string(x.cnt) + " x " + std::to_string(x.type_id); },
        [](const StructuredType& x) {
            std::string r = "struct " + x.name + " {";
            for (auto& m : x.members) r += m.name + ":" + std::to_string(m.type_id) + "@" + std::to_string(m.offset) + ",";
            return r + "}";
        }}, *t);
    return r + ", size " + size + ", shown " + s.TypeToString(*t);
}
std::string describe(const Types& ts, uint64_t id) {
    auto sz = ts.size(id);
    std::string size = sz ? std::to_string(*sz) : "refused";
    auto* e = ts.get(id);
    if (!e) return "none, size " + size;
    std::string r;
    if (e->tag == "DIE_primitive_type") r = "primitive " + e->at.at("name");
    else if (e->tag == "DIE_pointer_type") r = "pointer to " + e->at.at("type");
    else if (e->tag == "DIE_array_type") r = "array of " + e->at.at("size") + " x " + e->at.at("type");
    else {
        r = "struct " + e->at.at("name") + " {";
        for (auto& [n, t, o] : e->mem) r += n + ":" + std::to_string(t) + "@" + std::to_string(o) + ",";
        r += "}";
    }
    return r + ", size " + size + ", shown " + ts.show(id);
}

// The documented grammar, over tokens.
class Reference {
public:
    explicit Reference(const Toks& t) : t(t) {}
    Result parse() {
        Result r;
        while (p < t.size()) {
            eat(".");
            std::string name = id();
            if (name == "debug_line") {
                r.lines = true;
                r.map.clear();
                while (p < t.size() && t[p] != ".") {
                    uint64_t l = num();
                    eat(":");
                    r.map[l] = num();
                }
            } else if (name == "debug_info") {
                r.info = true;
                r.tree = "";
                r.entries.clear();
                if (p < t.size() && t[p] != ".") {
                    std::string tag = id();
                    entries.clear();
                    r.tree = die(tag, 0);
                    r.entries = entries;
                }
            } else
                while (p < t.size() && t[p] != ".") ++p;
        }
        return r;
    }

private:
    std::string cur() const { return p < t.size() ? t[p] : ""; }
    void eat(const std::string& s) {
        if (cur() != s) throw Bad{"expected " + s + " got " + cur()};
        ++p;
    }
    static bool is_id(const std::string& s) { return !s.empty() && (isalpha((unsigned char)s[0]) || s[0] == '_'); }
    static bool is_num(const std::string& s) {
        if (s.empty() || s.size() > 10) return false;
        for (char ch : s)
            if (!isdigit((unsigned char)ch)) return false;
        return std::stoll(s) <= INT32_MAX;
    }
    std::string id() {
        if (!is_id(cur())) throw Bad{"name"};
        return t[p++];
    }
    uint64_t num() {
        if (!is_num(cur())) throw Bad{"number"};
        return std::stoull(t[p++]);
    }
    int64_t snum() {
        bool neg = cur() == "-";
        if (neg) ++p;
        int64_t v = (int64_t)num();
        return neg ? -v : v;
    }
    std::string die(const std::string& tag, int depth) {
        static const std::set<std::string> tags = {"DIE_function", "DIE_primitive_type", "DIE_structured_type", "DIE_pointer_type",
                                                   "DIE_array_type", "DIE_variable", "DIE_scope", "DIE_compilation_unit"};
        if (!tags.count(tag)) throw Bad{"tag"};
        eat(":");
        eat("{");
        std::string attrs, kids;
        Entry en;
        en.tag = tag;
        while (cur() != "}") {
            std::string n = id();
            if (n.rfind("ATTR", 0) == 0) {
                std::string a = attr(n);
                attrs += a + ";";
                size_t eq = a.find('=');
                if (n == "ATTR_members") {
                    en.twice = en.twice || en.members;
                    en.members = true;
                    en.mem = members;
                } else if (!en.at.emplace(a.substr(0, eq), a.substr(eq + 1)).second)
                    en.twice = true;
            } else if (n.rfind("DIE", 0) == 0) kids += die(n, depth + 1);
            else throw Bad{"word"};
            if (cur() == ",") ++p;
            else if (cur() != "}") throw Bad{"separator"};
        }
        eat("}");
        if (depth == 1) entries.push_back(en);
        return tag + "(" + attrs + kids + ")";
    }
    std::string attr(const std::string& n) {
        eat(":");
        if (n == "ATTR_name") {
            std::string s = cur();
            if (is_id(s)) ++p;
            else if (!s.empty() && s[0] == '"') s = t[p++].substr(1, s.size() - 2);
            else throw Bad{"name value"};
            return "name=" + s;
        }
        for (std::string k : {"type", "id", "begin_addr", "end_addr", "size"})
            if (n == "ATTR_" + k) return k + "=" + std::to_string(num());
        if (n == "ATTR_members") {
            eat("{");
            std::string r = "members=";
            members.clear();
            while (cur() != "}") {
                uint64_t off = num();
                eat(":");
                eat("{");
                uint64_t ty = num();
                eat(":");
                std::string name = id();
                eat("}");
                r += std::to_string(off) + ":" + std::to_string(ty) + ":" + name + ",";
                members.emplace_back(name, ty, (int64_t)off);
                if (cur() == ",") ++p;
                else if (cur() != "}") throw Bad{"separator"};
            }
            eat("}");
            return r;
        }
        if (n == "ATTR_location") {
            std::string r = "location=";
            if (cur() == "`") {
                ++p;
                if (cur() != "`") r += loc();
                eat("`");
            } else {
                eat("[");
                while (cur() != "]") {
                    r += loc();
                    if (cur() == ";") ++p;
                    else if (cur() != "]") throw Bad{"separator"};
                }
                eat("]");
            }
            return r;
        }
        throw Bad{"attribute"};
    }
    std::string loc() {
        std::string n = id();
        if (n == "ADD") return "add,";
        if (n == "DEREFERENCE") return "deref,";
        if (n == "BASE_REG_OFFSET") return "bp" + std::to_string(snum()) + ",";
        if (n == "PUSH") {
            if (is_id(cur())) return "push " + t[p++] + ",";
            return "push " + std::to_string(snum()) + ",";
        }
        throw Bad{"location instruction"};
    }
    const Toks& t;
    size_t p = 0;
    std::vector<Entry> entries;
    std::vector<std::tuple<std::string, size_t, int64_t>> members;
};

std::string dump(const DIE& d) {
    static const std::map<DIE::TAG, std::string> tags = {
        {DIE::TAG::function, "DIE_function"}, {DIE::TAG::primitive_type, "DIE_primitive_type"}, {DIE::TAG::structured_type, "DIE_structured_type"},
        {DIE::TAG::pointer_type, "DIE_pointer_type"}, {DIE::TAG::array_type, "DIE_array_type"}, {DIE::TAG::variable, "DIE_variable"},
        {DIE::TAG::scope, "DIE_scope"}, {DIE::TAG::compilation_unit, "DIE_compilation_unit"}};
    auto it = tags.find(d.get_tag());
    if (it == tags.end()) return "";
    std::string s = it->second + "(";
    auto place = [](const expr::Location& l) {
        if (auto* r = std::get_if<expr::Register>(&l)) return r->name;
        return std::to_string(std::get<expr::Offset>(l).value);
    };
    for (auto a = d.begin_attr(); a != d.end_attr(); ++a) {
        s += std::visit(utils::overloaded{
            [](const ATTR_name& x) { return "name=" + x.n; },
            [](const ATTR_begin_addr& x) { return "begin_addr=" + std::to_string(x.addr); },
            [](const ATTR_end_addr& x) { return "end_addr=" + std::to_string(x.addr); },
            [](const ATTR_type& x) { return "type=" + std::to_string(x.type_id); },
            [](const ATTR_size& x) { return "size=" + std::to_string(x.size); },
            [](const ATTR_id& x) { return "id=" + std::to_string(x.id); },
            [](const ATTR_members& x) {
                std::string r = "members=";
                for (auto& m : x.m) r += std::to_string(m.offset) + ":" + std::to_string(m.type_id) + ":" + m.name + ",";
                return r;
            },
            [&](const ATTR_location_expr& x) {
                std::string r = "location=";
                for (auto& l : x.locs)
                    r += std::visit(utils::overloaded{
                        [&](const expr::Push& p) { return "push " + place(p.value) + ","; },
                        [](const expr::Add&) { return std::string("add,"); },
                        [](const expr::FrameBaseRegisterOffset& o) { return "bp" + std::to_string(o.offset) + ","; },
                        [](const expr::Dereference&) { return std::string("deref,"); }}, l);
                return r;
            }}, *a) + ";";
    }
    for (auto& k : d) s += dump(k);
    return s + ")";
}

struct Got {
    bool ok = false;
    std::string err, types;
    bool cyclic = false;
    Result r;
    std::optional<std::vector<std::string>> source;
};
Got parse(const std::string& text, const Result* want = nullptr) {
    Got g;
    std::istringstream is(text);
    try {
        ::dbg::Parser p(is);
        auto di = p.Parse();
        g.ok = true;
        if (di.line_mapping) {
            g.r.lines = true;
            g.r.map = *di.line_mapping;
        }
        if (di.top_die) {
            g.r.info = true;
            g.r.tree = dump(*di.top_die);
            Source s;  // whatever was accepted can be taken in and looked at
            s.RegisterDebuggingInformation(*di.top_die);
            for (uint64_t a = 0; a < 4; ++a) {
                s.GetScopedVariables(a);
                s.GetFunctionNameByAddress(a);
            }
            if (want) {
                Types ts(*want);
                g.cyclic = ts.cyclic;
                std::set<uint64_t> ids = ts.ids;
                if (ts.cyclic && !ts.unclear.empty()) ids.clear();  // which of them is meant?
                for (auto& e : want->entries)
                    if (e.has({"type"}) && ts.unclear.empty()) ids.insert(e.n("type"));
                if (!(ts.cyclic && !ts.unclear.empty())) ids.insert({0, 1, 77, UINT32_MAX});
                for (auto id : ids) {
                    if (ts.vague(id)) continue;
                    std::string a = describe(s, id), b = describe(ts, id);
                    if (a != b) g.types = "type " + std::to_string(id) + " is " + a + "\ndescribed as " + b;
                }
            }
        }
        if (di.source_code) g.source = di.source_code->GetLines();
    } catch (const ParserError& e) {
        g.err = e.what();
    }
    return g;
}
std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> v;
    std::string cur;
    for (char ch : s)
        if (ch == '\n') {
            v.push_back(cur);
            cur.clear();
        } else
            cur += ch;
    if (!cur.empty()) v.push_back(cur);
    return v;
}
}  // namespace

static void prop(pbt::Ctx& c) {
    src::Info in;
    in.has_info = c.chance(5, 6);
    in.has_lines = c.chance(2, 3);
    gen_types(c, in, (size_t)c.range(0, 5), c.chance(1, 20) ? 40 : 8);
    if (c.chance(1, 6))  // anything may refer to anything
        for (auto& t : in.types) {
            if (c.boolean()) t.to = c.pick(in.types).id;
            for (auto& m : t.mem)
                if (c.chance(1, 4)) m.type = c.pick(in.types).id;
        }
    auto nm = [&]() { return c.pick<std::string>({"a", "b", "main", "x_1", "DIE_x", "ATTR_y", "PUSH", "struct s", "swap(int*, int*)", "text", "_"}); };
    auto loc = [&]() {
        src::LocX x;
        size_t n = c.index(4);
        for (size_t k = 0; k < n; ++k) {
            src::Loc l;
            l.k = (src::Loc::K)c.index(5);
            l.reg = c.pick<std::string>({"R0", "BP", "SP", "IP", "R12", "F0", "whatever"});
            l.n = c.chance(1, 6) ? c.range(-INT32_MAX, INT32_MAX) : c.range(-20, 20);
            x.push_back(l);
        }
        return x;
    };
    auto addr = [&]() { return (uint64_t)(c.chance(1, 8) ? c.range(0, INT32_MAX) : c.range(0, 30)); };
    size_t f = 1;  // rarely a large one
    if (c.chance(1, 100)) {
        f = 8;
        c.label("large");
    }
    auto var = [&]() { return src::Var{nm(), c.pick(in.types).id, loc(), c.chance(5, 6), c.chance(5, 6)}; };
    std::function<src::Scope(int)> scope = [&](int d) {
        src::Scope s;
        s.b = addr();
        s.e = addr();
        for (size_t k = c.index(3 * f); k > 0; --k) s.vars.push_back(var());
        if (d > 0)
            for (size_t k = c.index(3); k > 0; --k) s.subs.push_back(scope(d - 1));
        return s;
    };
    for (size_t k = c.index(3 * f); k > 0; --k) {
        src::Fn fn{nm(), addr(), addr(), {}};
        for (size_t j = c.index(3); j > 0; --j) fn.scopes.push_back(scope(f > 1 ? 4 : 2));
        in.fns.push_back(fn);
    }
    for (size_t k = c.index(3 * f); k > 0; --k) in.globals.push_back(var());
    for (size_t k = c.index(8 * f * f); k > 0; --k) in.lines[addr()] = addr();
    if (!in.has_lines) in.lines.clear();

    src::Render r(c);
    if (c.chance(1, 3)) r.drop = c.pick<uint64_t>({30, 10, 4});
    std::string text = r.sections(in);
    std::string prog = ".text\n0 MOV R0, 1\n1 MOV [0], R0\n2 HALT\n";
    size_t where = c.index(3);
    if (where == 1) text = prog + text;
    if (where == 2) text = text + prog;
    Toks t = lex(text);
    Result want;
    bool ok = true;
    std::string why;
    size_t kind = c.weighted({3, 4, 2});
    if (kind == 2) {  // arbitrary damage to the bytes: accepted or a parse error, nothing else
        size_t n = 1 + c.index(4);
        for (size_t k = 0; k < n && !text.empty(); ++k) {
            size_t at = c.index(text.size());
            switch (c.index(4)) {
            case 0: text.erase(at, 1 + c.index(5)); break;
            case 1: text.insert(at, 1, (char)c.range(0, 255)); break;
            case 2: text[at] = c.pick<char>({'{', '}', ':', ',', '.', '"', '`', '[', ']', '#', '-', '\0', '9', '\xff', '\\', '@', '\n'}); break;
            default: text = text.substr(0, at);
            }
        }
        c.note(text + "\n");
        auto g = parse(text);
        c.label(g.ok ? "damaged-bytes-accepted" : "damaged-bytes-refused");
        return;
    }
    if (kind == 1) {
        size_t n = 1 + c.index(2);
        for (size_t k = 0; k < n && !t.empty(); ++k) {
            static const Toks junk = {",", ":", "{", "}", "[", "]", ".", "`", "-", ";", "1", "99999999999", "DIE_scope", "DIE_variable", "DIE_x", "ATTR_id", "ATTR_name", "ATTR_location",
                                      "ATTR_members", "ATTR_foo", "foo", "\"s\"", "PUSH", "ADD", "BASE_REG_OFFSET", "MUL", "+", "debug_line", "debug_info", "4294967296", "="};
            size_t at = c.index(t.size());
            switch (c.index(4)) {
            case 0: t.erase(t.begin() + (long)at); break;
            case 1: t.insert(t.begin() + (long)at, c.pick(junk)); break;
            case 2: t[at] = c.pick(junk); break;
            default: std::swap(t[at], t[c.index(t.size())]);
            }
        }
        text.clear();
        for (size_t i = 0; i < t.size(); ++i) {
            // a number directly before a dot would read as a float, and the number must not grow
            text += t[i] + c.pick<std::string>({" ", "\n", "\t"});
        }
        bool src_word = false;
        for (auto& x : t) src_word = src_word || x == "debug_source";
        if (src_word) c.discard();
    }
    try {
        want = Reference(t).parse();
    } catch (const Bad& b) {
        ok = false;
        why = b.why;
    }
    // numbers which cannot be read are refused even in sections that are skipped
    for (auto& x : t)
        if (isdigit((unsigned char)x[0]) && (x.size() > 10 || std::stoll(x) > INT32_MAX)) {
            ok = false;
            why = "number";
        }
    std::vector<std::string> src_want;
    bool with_source = c.chance(1, 2) && ok;
    if (with_source) {
        std::string s;
        for (size_t k = c.index(6); k > 0; --k)
            s += c.pick<std::string>({"", "int main() {", ".text", ".debug_info", "  a.b = \"x", "}", "\t# not a comment", "\xc3\xa9\xff @", "1.2.3 99999999999"}) + "\n";
        if (c.boolean()) s += "last line without an end";
        src_want = split(s);
        if (!text.empty() && !isspace((unsigned char)text.back())) text += "\n";
        text += ".debug_source\n" + s;
    }
    c.note(text + "\n--- " + (ok ? "accepted" : "refused: " + why) + "\n");
    auto g = parse(text, ok ? &want : nullptr);
    if (g.ok != ok) c.fail(g.ok ? "accepted, the documented grammar does not (" + why + ")" : "refused: " + g.err);
    if (ok) {
        if (g.r.lines != want.lines || g.r.map != want.map) c.fail("the line mapping is not what the text says");
        if (g.r.info != want.info || g.r.tree != want.tree) c.fail("the debugging information is\n" + g.r.tree + "\nwritten\n" + want.tree);
        if (!g.types.empty()) c.fail(g.types);
        if (g.source.has_value() != with_source) c.fail("the source text was lost");
        if (with_source && *g.source != src_want) c.fail("the source text differs");
        if (kind == 0) {
            if (in.has_lines && g.r.map != in.lines) throw std::logic_error("reference: lines");
            if (where) {  // the machine takes the program from the same file
                try {
                    auto a = vm::assemble(text);
                    auto b = vm::assemble(prog);
                    auto x = a.moveInstructions(), y = b.moveInstructions();
                    if (x.size() != y.size()) c.fail("the program in the file has " + std::to_string(x.size()) + " instructions");
                    for (size_t i = 0; i < x.size(); ++i)
                        if (x[i]->toString() != y[i]->toString()) c.fail("the program in the file is different");
                } catch (const ParserError& e) {
                    c.fail(std::string("the machine refuses the executable: ") + e.what());
                }
            }
        }
    }
    if (g.cyclic) c.label("type-inside-itself");
    c.label(std::string(kind == 1 ? "mutated-" : "") + (ok ? "accepted" : "refused"));
    if (ok && in.has_info && t.size() > 60) c.nontrivial();
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C16";
    cfg.rule =
        "A case is an executable's debugging sections: generated information rendered in a random layout, or a token-level mutation of it judged by a "
        "reference grammar, or damaged bytes. Non-trivial: an accepted text of more than 60 tokens with a .debug_info section, its tree, line mapping and "
        "source compared with the reference.";
    cfg.assumptions = {"nesting stays shallow"};
    cfg.quick_cases = 300000;
    cfg.thorough_cases = 20000000;
    cfg.quick_secs = 30;
    cfg.thorough_secs = 900;
    cfg.case_timeout = 10;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
