// Source-level debugging information as data: types, functions, scopes, variables, line
// mapping, source text; its rendering in the documented text format, in random layouts.
#pragma once
#include "pbt.h"

namespace src {

struct Loc {  // one instruction of a location expression
    enum K { PushReg, PushNum, Add, BpOff, Deref } k = PushNum;
    std::string reg;
    int64_t n = 0;
};
using LocX = std::vector<Loc>;

struct Type {
    enum K { Int, Float, Char, Ptr, Arr, Struct } k = Int;
    size_t id = 0;
    size_t to = 0;       // pointee / element
    uint64_t cnt = 0;    // array
    std::string name;    // struct
    uint64_t size = 1;
    struct Mem {
        std::string name;
        size_t type;
        int64_t off;
    };
    std::vector<Mem> mem;
};

struct Var {
    std::string name;
    size_t type = 0;
    LocX loc;
    bool has_loc = true, has_type = true;
};
struct Scope {
    uint64_t b = 0, e = 0;
    std::vector<Var> vars;
    std::vector<Scope> subs;
};
struct Fn {
    std::string name;
    uint64_t b = 0, e = 0;
    std::vector<Scope> scopes;
};
struct Info {
    std::vector<Type> types;
    std::vector<Fn> fns;
    std::vector<Var> globals;
    std::map<size_t, uint64_t> lines;
    bool has_lines = false, has_info = true, has_source = false;
    std::string source;
    const Type* type(size_t id) const {
        for (auto& t : types)
            if (t.id == id) return &t;
        return nullptr;
    }
    uint64_t size_of(size_t id) const {
        auto* t = type(id);
        if (!t) return 0;
        if (t->k == Type::Arr) return t->cnt * size_of(t->to);
        return t->size;
    }
};

// ---- rendering -------------------------------------------------------------
class Render {
public:
    explicit Render(pbt::Ctx& c) : c(c) { style = c.index(3); }
    uint64_t drop = 0;  // one attribute in so many is left out
    std::string info(const Info& i) {
        std::vector<std::string> kids;
        for (auto& t : i.types) kids.push_back(type(t));
        for (auto& f : i.fns) kids.push_back(fn(f));
        for (auto& v : i.globals) kids.push_back(var(v));
        shuffle(kids);
        return node("DIE_compilation_unit", {}, kids);
    }
    std::string lines(const Info& i) {
        std::vector<std::string> l;
        for (auto& [line, addr] : i.lines) l.push_back(std::to_string(line) + ws() + ":" + ws() + std::to_string(addr) + "\n");
        if (style) shuffle(l);
        std::string s;
        for (auto& x : l) s += x;
        return s;
    }
    // sections of an executable other than .text and .data
    std::string sections(const Info& i) {
        std::string s;
        std::vector<std::string> parts;
        if (i.has_lines) parts.push_back(".debug_line\n" + lines(i));
        if (i.has_info) parts.push_back(".debug_info\n" + info(i) + "\n");
        if (style == 2) shuffle(parts);
        for (auto& p : parts) s += p;
        if (i.has_source) s += ".debug_source\n" + i.source;
        return s;
    }

private:
    template <class T> void shuffle(std::vector<T>& v) {
        for (size_t k = v.size(); k > 1; --k)
            if (size_t j = c.index(k); j + 1 != k) std::swap(v[j], v[k - 1]);
    }
    std::string ws() { return style == 0 ? "" : style == 1 ? " " : c.pick<std::string>({"", " ", "\n", "\t", "  ", " # note\n", "# } , : DIE\n"}); }
    std::string sp() { return style == 2 ? c.pick<std::string>({" ", "\n", "  ", "\t"}) : " "; }
    std::string node(const std::string& tag, std::vector<std::string> attrs, std::vector<std::string> kids) {
        if (drop)
            for (size_t i = attrs.size(); i-- > 0;)
                if (c.chance(1, drop)) attrs.erase(attrs.begin() + (long)i);
        std::vector<std::string> all = attrs;
        if (style == 2) {
            shuffle(all);
            for (auto& k : kids) all.insert(all.begin() + (long)c.index(all.size() + 1), k);
            // keep the relative order of the children: only attributes move between them
            std::vector<size_t> pos;
            for (size_t i = 0, k = 0; i < all.size() && k < kids.size(); ++i)
                if (all[i].rfind("DIE_", 0) == 0) all[i] = kids[k++];
        } else
            all.insert(all.end(), kids.begin(), kids.end());
        std::string s = tag + ws() + ":" + ws() + "{" + (style ? "\n" : "");
        for (size_t i = 0; i < all.size(); ++i) {
            s += all[i];
            if (i + 1 < all.size() || (style && c.boolean())) s += ws() + ",";
            s += style ? "\n" : " ";
        }
        return s + "}";
    }
    std::string attr(const std::string& n, const std::string& v) { return "ATTR_" + n + ws() + ":" + (style ? ws() : " ") + v; }
    std::string num(uint64_t n) { return std::to_string(n); }
    std::string name(const std::string& s) {
        bool plain = !s.empty() && (isalpha((unsigned char)s[0]) || s[0] == '_');
        for (char ch : s) plain = plain && (isalnum((unsigned char)ch) || ch == '_');
        return plain && (style != 2 || c.boolean()) ? s : "\"" + s + "\"";
    }
    std::string type(const Type& t) {
        switch (t.k) {
        case Type::Int: case Type::Float: case Type::Char:
            return node("DIE_primitive_type",
                        {attr("name", t.k == Type::Int ? "int" : t.k == Type::Float ? "float" : "char"), attr("id", num(t.id)), attr("size", num(t.size))}, {});
        case Type::Ptr: return node("DIE_pointer_type", {attr("type", num(t.to)), attr("size", num(t.size)), attr("id", num(t.id))}, {});
        case Type::Arr: return node("DIE_array_type", {attr("type", num(t.to)), attr("size", num(t.cnt)), attr("id", num(t.id))}, {});
        default: {
            std::string m = "{" + ws();
            for (size_t i = 0; i < t.mem.size(); ++i) {
                m += num((uint64_t)t.mem[i].off) + ws() + ":" + ws() + "{" + ws() + num(t.mem[i].type) + ws() + ":" + ws() + t.mem[i].name + ws() + "}";
                if (i + 1 < t.mem.size() || (style && c.boolean())) m += "," + sp();
            }
            m += ws() + "}";
            return node("DIE_structured_type", {attr("size", num(t.size)), attr("id", num(t.id)), attr("name", name(t.name)), attr("members", m)}, {});
        }
        }
    }
    std::string loc1(const Loc& l) {
        switch (l.k) {
        case Loc::PushReg: return "PUSH" + sp() + l.reg;
        case Loc::PushNum: return "PUSH" + sp() + std::to_string(l.n);
        case Loc::Add: return "ADD";
        case Loc::BpOff: return "BASE_REG_OFFSET" + sp() + std::to_string(l.n);
        default: return "DEREFERENCE";
        }
    }
    std::string loc(const LocX& x) {
        if (x.size() <= 1 && c.boolean()) return "`" + (x.empty() ? "" : loc1(x[0])) + "`";
        std::string s = "[" + ws();
        for (size_t i = 0; i < x.size(); ++i) {
            s += loc1(x[i]) + ws();
            if (i + 1 < x.size() || (style && c.boolean())) s += ";" + sp();
        }
        return s + "]";
    }
    std::string var(const Var& v) {
        std::vector<std::string> a = {attr("name", name(v.name))};
        if (v.has_type) a.push_back(attr("type", num(v.type)));
        if (v.has_loc) a.push_back(attr("location", loc(v.loc)));
        return node("DIE_variable", a, {});
    }
    std::string scope(const Scope& s) {
        std::vector<std::string> kids;
        for (auto& v : s.vars) kids.push_back(var(v));
        for (auto& x : s.subs) kids.push_back(scope(x));
        if (style) shuffle(kids);
        return node("DIE_scope", {attr("begin_addr", num(s.b)), attr("end_addr", num(s.e))}, kids);
    }
    std::string fn(const Fn& f) {
        std::vector<std::string> kids;
        for (auto& x : f.scopes) kids.push_back(scope(x));
        return node("DIE_function", {attr("name", name(f.name)), attr("begin_addr", num(f.b)), attr("end_addr", num(f.e))}, kids);
    }
    pbt::Ctx& c;
    size_t style;
};

}  // namespace src
