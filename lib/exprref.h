// Reference for the debugger's expression language: grammar over tokens, values, evaluation.
#pragma once
#include <cmath>
#include "srcinfo.h"
#include "t86model.h"

namespace xr {
using namespace src;
using Toks = std::vector<std::string>;

// ---- syntax ----------------------------------------------------------------
struct Node;
using N = std::shared_ptr<Node>;
struct Node {
    enum K { Int, Flt, Id, Dollar, Un, Bin, Index, Dot, Arrow } k;
    int64_t i = 0;
    double d = 0;
    std::string s;  // operator, identifier, member, literal text
    N a, b;
};
inline N mk(Node::K k, std::string s, N a = nullptr, N b = nullptr) {
    auto n = std::make_shared<Node>();
    n->k = k;
    n->s = std::move(s);
    n->a = std::move(a);
    n->b = std::move(b);
    return n;
}
inline N integer(int64_t v) {
    N n = mk(Node::Int, std::to_string(v));
    n->i = v;
    return n;
}
inline N floating(const std::string& t) {
    N n = mk(Node::Flt, t);
    n->d = strtod(t.c_str(), nullptr);
    return n;
}
inline N dollar(int64_t v) {
    N n = mk(Node::Dollar, std::to_string(v));
    n->i = v;
    return n;
}
inline int level(const std::string& op) {
    static const std::map<std::string, int> m = {{"=", 0}, {"==", 1}, {"!=", 1}, {"&&", 2}, {"||", 2}, {"<", 3}, {">", 3}, {"<=", 3}, {">=", 3},
                                                 {"<<", 4}, {">>", 4}, {"&", 5}, {"|", 5}, {"^", 5}, {"+", 6}, {"-", 6}, {"*", 7}, {"/", 7}, {"%", 7}};
    auto it = m.find(op);
    return it == m.end() ? -1 : it->second;
}
inline const std::vector<std::string>& binops() {
    static const std::vector<std::string> v = {"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "&", "|", "^", "<<", ">>"};
    return v;
}

struct SyntaxError {};
class Syntax {
public:
    explicit Syntax(const Toks& t) : t(t) {}
    N parse() {
        N n = level_(0);
        if (p != t.size()) throw SyntaxError{};
        return n;
    }

private:
    std::string cur() const { return p < t.size() ? t[p] : ""; }
    N level_(int l) {
        if (l == 8) return unary();
        N n = level_(l + 1);
        while (level(cur()) == l) {
            std::string op = t[p++];
            N r = level_(l + 1);
            n = mk(Node::Bin, op, n, r);
        }
        return n;
    }
    N unary() {
        if (cur() == "-" || cur() == "!" || cur() == "*") {
            std::string op = t[p++];
            return mk(Node::Un, op, unary());
        }
        return postfix();
    }
    static bool ident(const std::string& s) { return !s.empty() && (isalpha((unsigned char)s[0]) || s[0] == '_'); }
    static bool number(const std::string& s) { return !s.empty() && isdigit((unsigned char)s[0]); }
    static bool flt(const std::string& s) { return s.find('.') != s.npos; }
    N lit(const std::string& s) {
        if (flt(s)) return floating(s);
        if (s.size() > 10 || std::stoll(s) > INT32_MAX) throw SyntaxError{};
        return integer(std::stoll(s));
    }
    N postfix() {
        N n = primary();
        while (true) {
            if (cur() == "[") {
                ++p;
                N i = level_(0);
                if (cur() != "]") throw SyntaxError{};
                ++p;
                n = mk(Node::Index, "", n, i);
            } else if (cur() == "." || cur() == "->") {
                bool dot = t[p++] == ".";
                if (!ident(cur())) throw SyntaxError{};
                n = mk(dot ? Node::Dot : Node::Arrow, t[p++], n);
            } else
                return n;
        }
    }
    N primary() {
        std::string s = cur();
        if (number(s)) {
            ++p;
            return lit(s);
        }
        if (ident(s)) {
            ++p;
            return mk(Node::Id, s);
        }
        if (s == "(") {
            ++p;
            N n = level_(0);
            if (cur() != ")") throw SyntaxError{};
            ++p;
            return n;
        }
        if (s == "$") {
            ++p;
            if (!number(cur()) || flt(cur())) throw SyntaxError{};
            N n = lit(t[p++]);
            return dollar(n->i);
        }
        throw SyntaxError{};
    }
    const Toks& t;
    size_t p = 0;
};

inline std::string dump(const N& n) {
    if (!n) return "";
    return std::to_string(n->k) + "'" + n->s + "(" + dump(n->a) + "," + dump(n->b) + ")";
}

// minimal parentheses, plus redundant ones where `extra` says so
inline void tokens(const N& n, int need, Toks& out, const std::function<bool()>& extra) {
    int mine = n->k == Node::Bin ? level(n->s) : n->k == Node::Un ? 8 : n->k == Node::Index || n->k == Node::Dot || n->k == Node::Arrow ? 9 : 10;
    // a number or $n directly before `.` would read as a float
    bool par = mine < need || extra();
    if (par) out.push_back("(");
    switch (n->k) {
    case Node::Int: case Node::Flt: case Node::Id: out.push_back(n->s); break;
    case Node::Dollar: out.push_back("$"); out.push_back(n->s); break;
    case Node::Un:
        out.push_back(n->s);
        tokens(n->a, 8, out, extra);
        break;
    case Node::Bin:
        tokens(n->a, mine, out, extra);
        out.push_back(n->s);
        tokens(n->b, mine + 1, out, extra);
        break;
    case Node::Index:
        tokens(n->a, 9, out, extra);
        out.push_back("[");
        tokens(n->b, 0, out, extra);
        out.push_back("]");
        break;
    default: {
        bool num = n->a->k == Node::Int || n->a->k == Node::Flt || n->a->k == Node::Dollar;
        tokens(n->a, num ? 11 : 9, out, extra);
        out.push_back(n->k == Node::Dot ? "." : "->");
        out.push_back(n->s);
    }
    }
    if (par) out.push_back(")");
}
inline bool glued(const std::string& a, const std::string& b) {
    auto word = [](char ch) { return isalnum((unsigned char)ch) || ch == '_'; };
    if (word(a.back()) && word(b[0])) return true;
    if (isdigit((unsigned char)a[0]) && b[0] == '.') return true;
    if (a.back() == '.' && isdigit((unsigned char)b[0])) return true;
    static const std::set<std::string> two = {"->", "<<", ">>", "==", "!=", "<=", ">=", "&&", "||"};
    return two.count(std::string(1, a.back()) + b[0]) > 0;
}

// ---- values ----------------------------------------------------------------
struct Value {
    enum K { Int, Float, Char, Ptr, Struct, Arr } k = Int;
    int64_t i = 0;      // int, char, pointer, array begin
    double d = 0;
    size_t type = 0;    // pointee / element / struct id
    std::string name;   // struct
    uint64_t cnt = 0;
    std::map<std::string, Value> mem;
    std::vector<Value> el;
    bool lvalue = false, history = false;
    int reg = -1;       // lvalue location
    int64_t addr = 0;
};
struct Error {
    std::string why;
};
struct Unspecified {};

class Eval {
public:
    Eval(const Info& info, model::State& st, const std::map<std::string, const Var*>& vars, const std::vector<Value>& history)
        : info(info), st(st), vars(vars), history(history) {}

    int64_t load(int64_t a) {
        if (a < 0 || (size_t)a >= st.mem.size()) throw Error{"address"};
        return st.mem[(size_t)a];
    }
    static int regno(const std::string& s) { return s == "SP" ? model::SP : s == "BP" ? model::BP : atoi(s.c_str() + 1); }
    int64_t& regref(int r) { return r == model::SP ? st.sp : r == model::BP ? st.bp : st.r.at((size_t)r); }
    int64_t regval(const std::string& name) {
        if (name == "IP") return (int64_t)st.ip;
        int r = regno(name);
        if (name != "SP" && name != "BP" && (name.size() != 2 || name[0] != 'R' || r < 0 || (size_t)r >= st.r.size())) throw Error{"register"};
        return regref(r);
    }
    struct Place {
        std::string reg;  // empty: an address
        int64_t a = 0;
    };
    Place location(const LocX& x) {
        std::vector<Place> s;
        auto num = [&](const Place& p) { return p.reg.empty() ? p.a : regval(p.reg); };
        auto need = [&](size_t k) {
            if (s.size() < k) throw Error{"stack"};
        };
        for (auto& l : x) switch (l.k) {
            case Loc::PushReg: s.push_back({l.reg, 0}); break;
            case Loc::PushNum: s.push_back({"", l.n}); break;
            case Loc::BpOff: s.push_back({"", (int64_t)((uint64_t)st.bp + (uint64_t)l.n)}); break;
            case Loc::Add: {
                need(2);
                Place p = s.back();
                s.pop_back();
                Place q = s.back();
                s.pop_back();
                s.push_back({"", (int64_t)((uint64_t)num(p) + (uint64_t)num(q))});
                break;
            }
            default: {
                need(1);
                Place p = s.back();
                s.pop_back();
                s.push_back({"", load(num(p))});
            }
            }
        if (s.empty()) throw Error{"empty"};
        return s.back();
    }
    Value at(const Place& p, size_t tid) {
        auto* t = info.type(tid);
        if (!t) throw Error{"type"};
        Value v;
        v.lvalue = true;
        v.reg = -1;
        v.addr = p.a;
        if (!p.reg.empty()) {
            if (p.reg == "IP") throw Unspecified{};
            v.reg = 1000 + regno(p.reg);
        }
        auto raw = [&]() { return p.reg.empty() ? load(p.a) : regval(p.reg); };
        switch (t->k) {
        case Type::Int: v.k = Value::Int; v.i = raw(); break;
        case Type::Float: v.k = Value::Float; v.d = model::as_double(raw()); break;
        case Type::Char: v.k = Value::Char; v.i = (signed char)(raw() & 0xff); break;
        case Type::Ptr: v.k = Value::Ptr; v.i = raw(); v.type = t->to; break;
        case Type::Arr:
            if (!p.reg.empty()) throw Error{"array in a register"};
            if (!info.type(t->to)) throw Error{"type"};
            v.k = Value::Arr;
            v.i = p.a;
            v.type = t->to;
            v.cnt = t->cnt;
            for (uint64_t i = 0; i < t->cnt; ++i)
                v.el.push_back(at({"", (int64_t)((uint64_t)p.a + i * info.size_of(t->to))}, t->to));
            break;
        default:
            if (!p.reg.empty()) throw Unspecified{};
            v.k = Value::Struct;
            v.type = tid;
            v.name = t->name;
            for (auto& m : t->mem) v.mem[m.name] = at({"", (int64_t)((uint64_t)p.a + (uint64_t)m.off)}, m.type);
        }
        return v;
    }

    Value eval(const N& n) {
        switch (n->k) {
        case Node::Int: return ival(n->i);
        case Node::Flt: return fval(n->d);
        case Node::Dollar: {
            if ((size_t)n->i >= history.size()) throw Error{"no such value"};
            Value v = history[(size_t)n->i];
            past(v);
            return v;
        }
        case Node::Id: {
            auto it = vars.find(n->s);
            if (it == vars.end() || !it->second->has_type || !it->second->has_loc || it->second->loc.empty() || !info.type(it->second->type))
                throw Error{"variable"};
            return at(location(it->second->loc), it->second->type);
        }
        case Node::Un: {
            Value v = eval(n->a);
            if (n->s == "*") return deref(v);
            if (v.k == Value::Int) return ival(n->s == "-" ? (int64_t)(0 - (uint64_t)v.i) : v.i == 0);
            if (v.k == Value::Char) {
                Value r;
                r.k = Value::Char;
                r.i = (signed char)(n->s == "-" ? -v.i : v.i == 0);
                return r;
            }
            throw Error{"unary"};
        }
        case Node::Index: {
            Value i = eval(n->b);
            Value a = eval(n->a);
            if (a.k == Value::Ptr) return deref(add(a, i));
            if (a.k != Value::Arr) throw Error{"not an array"};
            if (i.k != Value::Int) throw Error{"index"};
            if (i.i < 0 || (uint64_t)i.i >= a.el.size()) throw Error{"bounds"};
            return a.el[(size_t)i.i];
        }
        case Node::Dot: return member(eval(n->a), n->s);
        case Node::Arrow: return member(deref(eval(n->a)), n->s);
        case Node::Bin: {
            Value l = eval(n->a);
            Value r;
            try {
                r = eval(n->b);
            } catch (const Error&) {
                // whether && and || look at the right side then is not specified
                if ((n->s == "&&" && truth(l) == 0) || (n->s == "||" && truth(l) == 1)) throw Unspecified{};
                throw;
            }
            return binary(n->s, l, r);
        }
        }
        throw Error{"?"};
    }

    std::string show(const Value& v) {
        switch (v.k) {
        case Value::Int: return std::to_string(v.i);
        case Value::Float: {
            if (std::isnan(v.d)) throw Unspecified{};
            char b[400];
            snprintf(b, sizeof b, "%f", v.d);
            return b;
        }
        case Value::Char: return std::string("'") + (char)v.i + "'";
        case Value::Ptr: {
            auto* t = info.type(v.type);
            std::string s = std::to_string((uint64_t)v.i);
            if (t && t->k == Type::Char) return s + " \"" + text(v.i) + "\"";
            return s;
        }
        case Value::Arr: {
            if (!v.el.empty() && v.el[0].k == Value::Char) return std::to_string((uint64_t)v.i) + " \"" + text(v.i) + "\"";
            std::string s;
            for (auto& e : v.el) s += (s.empty() ? "" : ", ") + show(e);
            return "[" + s + "]";
        }
        default: {
            std::string s;
            for (auto& [n, e] : v.mem) s += (s.empty() ? "" : ", ") + n + " = " + show(e);
            return "{ " + s + " }";
        }
        }
    }
    std::string type_name(const Value& v) {
        switch (v.k) {
        case Value::Int: return "int";
        case Value::Float: return "float";
        case Value::Char: return "char";
        case Value::Struct: return v.name;
        case Value::Ptr: return type_str(v.type) + "*";
        default: return type_str(v.type) + "[]";
        }
    }
    std::string type_str(size_t id) {
        auto* t = info.type(id);
        if (!t) return "<unknown>";
        switch (t->k) {
        case Type::Int: return "int";
        case Type::Float: return "float";
        case Type::Char: return "char";
        case Type::Struct: return t->name;
        case Type::Ptr: return type_str(t->to) + "*";
        default: return type_str(t->to) + "[]";
        }
    }
    size_t assignments = 0;

private:
    static Value ival(int64_t i) {
        Value v;
        v.i = i;
        return v;
    }
    static Value fval(double d) {
        Value v;
        v.k = Value::Float;
        v.d = d;
        return v;
    }
    static void past(Value& v) {
        v.history = true;
        for (auto& [n, m] : v.mem) past(m);
        for (auto& e : v.el) past(e);
    }
    static int truth(const Value& v) {
        switch (v.k) {
        case Value::Float: return v.d != 0;
        case Value::Struct: case Value::Arr: return -1;
        default: return v.i != 0;
        }
    }
    std::string text(int64_t a) {
        std::string s;
        while (true) {
            char ch = (char)load(a++);
            if (!ch) return s;
            if (ch == '\n') s += "\\n";
            else if (ch == '\t') s += "\\t";
            else s += ch;
        }
    }
    Value deref(const Value& v) {
        if (v.k != Value::Ptr) throw Error{"dereference"};
        return at({"", v.i}, v.type);
    }
    Value member(const Value& v, const std::string& m) {
        if (v.k != Value::Struct) throw Error{"member of no struct"};
        auto it = v.mem.find(m);
        if (it == v.mem.end()) throw Error{"no such member"};
        return it->second;
    }
    bool sized(size_t id) const {
        auto* t = info.type(id);
        return t && (t->k != Type::Arr || sized(t->to));
    }
    Value add(const Value& l, const Value& r) {
        auto scaled = [&](const Value& p, const Value& i) {
            if (!sized(p.type)) throw Error{"type"};
            Value v = p;
            v.lvalue = v.history = false;
            v.i = (int64_t)((uint64_t)p.i + (uint64_t)i.i * info.size_of(p.type));
            return v;
        };
        if (l.k == Value::Ptr && r.k == Value::Int) return scaled(l, r);
        if (l.k == Value::Int && r.k == Value::Ptr) return scaled(r, l);
        if (l.k != r.k) throw Error{"types"};
        switch (l.k) {
        case Value::Int: return ival((int64_t)((uint64_t)l.i + (uint64_t)r.i));
        case Value::Float: return fval(l.d + r.d);
        case Value::Char: return ival(l.i + r.i);
        default: throw Error{"types"};
        }
    }
    template <class T> static int64_t cmp(const std::string& op, T a, T b) {
        if (op == "==") return a == b;
        if (op == "!=") return a != b;
        if (op == "<") return a < b;
        if (op == ">") return a > b;
        if (op == "<=") return a <= b;
        if (op == ">=") return a >= b;
        if (op == "&&") return a && b;
        return a || b;
    }
    Value binary(const std::string& op, const Value& l, const Value& r) {
        if (op == "=") return assign(l, r);
        if (op == "+") return add(l, r);
        if (op == "-") {
            if (l.k == Value::Ptr && r.k == Value::Int) {
                if (!sized(l.type)) throw Error{"type"};
                Value v = l;
                v.lvalue = v.history = false;
                v.i = (int64_t)((uint64_t)l.i - (uint64_t)r.i * info.size_of(l.type));
                return v;
            }
            if (l.k == Value::Ptr && r.k == Value::Ptr) {
                if (l.type != r.type) throw Error{"types"};
                if (info.size_of(l.type) != 1) throw Unspecified{};  // cells or elements: not documented
                return ival((int64_t)((uint64_t)l.i - (uint64_t)r.i));
            }
            if (l.k != r.k) throw Error{"types"};
            if (l.k == Value::Int) return ival((int64_t)((uint64_t)l.i - (uint64_t)r.i));
            if (l.k == Value::Float) return fval(l.d - r.d);
            if (l.k == Value::Char) throw Unspecified{};
            throw Error{"types"};
        }
        if ((op == "/" || op == "%") && truth(r) == 0 && r.k != Value::Ptr) throw Error{"zero"};
        if (level(op) <= 3) {  // comparisons and logic
            if (l.k != r.k || l.k == Value::Struct || l.k == Value::Arr) throw Error{"types"};
            if (l.k == Value::Float) return ival(cmp(op, l.d, r.d));
            if (l.k == Value::Ptr) return ival(cmp(op, (uint64_t)l.i, (uint64_t)r.i));
            return ival(cmp(op, l.i, r.i));
        }
        if (l.k != r.k) throw Error{"types"};
        if (l.k == Value::Float) {
            if (op == "*") return fval(l.d * r.d);
            if (op == "/") return fval(l.d / r.d);
            throw Error{"types"};
        }
        if (l.k != Value::Int && l.k != Value::Char) throw Error{"types"};
        uint64_t a = (uint64_t)l.i, b = (uint64_t)r.i;
        if (op == "*") return ival((int64_t)(a * b));
        if (op == "/" || op == "%") {
            if (r.i == -1 && l.i == INT64_MIN) throw Error{"overflow"};
            return ival(op == "/" ? l.i / r.i : l.i % r.i);
        }
        if (op == "&") return ival(l.i & r.i);
        if (op == "|") return ival(l.i | r.i);
        if (op == "^") return ival(l.i ^ r.i);
        int64_t width = l.k == Value::Char ? 31 : 63;
        if (r.i < 0 || r.i > width) throw Unspecified{};
        if (op == "<<") {
            if (l.k == Value::Char && (l.i < 0 || r.i > 20)) throw Unspecified{};
            return ival((int64_t)(a << b));
        }
        return ival(l.i >> r.i);
    }
    void store(const Value& l, int64_t raw) {
        if (l.reg >= 0) {
            regref(l.reg - 1000) = raw;
            return;
        }
        load(l.addr);
        st.mem[(size_t)l.addr] = raw;
    }
    Value assign(const Value& l, const Value& r) {
        if (l.history) throw Unspecified{};
        if (!l.lvalue) throw Error{"no lvalue"};
        if (l.k != r.k) throw Error{"types"};
        ++assignments;
        Value v = l;
        switch (l.k) {
        case Value::Int: case Value::Char:
            store(l, r.i);
            v.i = r.i;
            break;
        case Value::Float:
            store(l, model::as_bits(r.d));
            v.d = r.d;
            break;
        case Value::Ptr:
            if (l.type != r.type) throw Error{"types"};
            store(l, r.i);
            v.i = r.i;
            break;
        case Value::Arr:
            if (l.type != r.type || l.el.size() != r.el.size()) throw Error{"types"};
            for (size_t i = 0; i < l.el.size(); ++i) v.el[i] = assign(l.el[i], r.el[i]);
            break;
        default:
            if (!fits(l, r)) throw Error{"types"};
            for (auto& [n, m] : l.mem) v.mem[n] = assign(m, r.mem.at(n));
        }
        return v;
    }
    // nothing of a struct is assigned unless all of it can be
    static bool fits(const Value& l, const Value& r) {
        if (l.k != r.k) return false;
        if (l.k == Value::Ptr) return l.type == r.type;
        if (l.k == Value::Arr) return l.type == r.type && l.el.size() == r.el.size();
        if (l.k != Value::Struct) return true;
        if (l.name != r.name) return false;
        for (auto& [n, m] : l.mem)
            if (!r.mem.count(n) || !fits(m, r.mem.at(n))) return false;
        return true;
    }
    const Info& info;
    model::State& st;
    const std::map<std::string, const Var*>& vars;
    const std::vector<Value>& history;
};

}  // namespace xr
