// Generators for types, values in memory, variables and expressions.
#pragma once
#include "exprref.h"

namespace src {

// Well-founded types: values of every type have a finite size of at most `max` cells.
inline void gen_types(pbt::Ctx& c, Info& in, size_t composites, uint64_t max = 8, bool twins = false) {
    size_t base = c.boolean() ? 0 : (size_t)c.range(1, 40);
    auto id = [&](size_t k) { return base + k * (base % 3 + 1); };
    for (int k = 0; k < 3; ++k) {
        Type t;
        t.k = (Type::K)k;
        t.id = id((size_t)k);
        in.types.push_back(t);
    }
    size_t n = 3 + composites;
    for (size_t k = 3; k < n; ++k) {
        Type t;
        t.id = id(k);
        switch (c.weighted({4, 3, 4})) {
        case 0:
            t.k = Type::Ptr;
            t.to = c.chance(1, 25) ? id(n + 5) : id(c.index(n));  // any type, even one defined later
            break;
        case 1: {
            t.k = Type::Arr;
            t.to = c.chance(1, 40) ? id(n + 5) : id(c.index(k));
            uint64_t sz = std::max<uint64_t>(1, in.size_of(t.to));
            t.cnt = (uint64_t)c.range(0, (int64_t)std::min<uint64_t>(max > 8 ? 30 : 4, max / sz));
            break;
        }
        default: {
            t.k = Type::Struct;
            t.name = c.chance(1, 5) ? "same" : c.boolean() ? "S" + std::to_string(k) : "struct s" + std::to_string(k);
            size_t m = c.index(max > 8 ? 9 : 4);
            int64_t off = 0;
            static const char* names[] = {"a", "b", "next", "v", "aa", "x_1", "n", "value", "A"};
            for (size_t i = 0; i < m; ++i) {
                size_t ty = c.chance(1, 60) ? id(n + 6) : id(c.index(k));
                if ((uint64_t)off + in.size_of(ty) > max) continue;
                t.mem.push_back({names[i], ty, off});
                off += (int64_t)in.size_of(ty) + (c.chance(1, 5) ? 1 : 0);
            }
            t.size = (uint64_t)off;
            if (twins)  // of the same name as an earlier one, and nearly the same
                for (auto& o : in.types)
                    if (o.k == Type::Struct && !o.mem.empty() && c.chance(1, 2)) {
                        size_t own = t.id;
                        t = o;
                        t.id = own;
                        auto& m = t.mem[c.index(t.mem.size())];
                        switch (c.index(4)) {
                        case 0: m.name = "other" + std::to_string(k); break;
                        case 1: m.type = id(c.index(3)); break;
                        case 2: t.mem.pop_back(); break;
                        default:
                            if (t.size + 1 <= max) {
                                t.mem.push_back({"zz" + std::to_string(k), id(c.index(3)), (int64_t)t.size});
                                ++t.size;
                            }
                        }
                        break;
                    }
            break;
        }
        }
        in.types.push_back(t);
        if (t.k == Type::Struct && k + 1 < n && c.boolean()) {  // struct with a pointer to itself: pointer first
            Type p;
            p.k = Type::Ptr;
            p.id = id(k + 1);
            p.to = t.id;
            auto& s = in.types.back();
            bool linked = std::any_of(s.mem.begin(), s.mem.end(), [](auto& m) { return m.name == "link"; });
            if (s.size + 1 <= max && !linked) {
                s.mem.push_back({"link", p.id, (int64_t)s.size});
                s.size += 1;
            }
            in.types.push_back(p);
            ++k;
        }
    }
    // a pointer must lead to something other than pointers to itself
    for (auto& t : in.types)
        if (t.k == Type::Ptr) {
            std::set<size_t> seen;
            const Type* x = &t;
            while (x && (x->k == Type::Ptr || x->k == Type::Arr)) {
                if (!seen.insert(x->id).second) {
                    t.to = in.types[0].id;
                    break;
                }
                x = in.type(x->to);
            }
        }
}

// plausible contents for an object of type `tid` at `a`
inline void fill(pbt::Ctx& c, const Info& in, model::State& st, int64_t a, size_t tid) {
    auto* t = in.type(tid);
    if (!t) return;
    auto put = [&](int64_t at, int64_t v) {
        if (at >= 0 && (size_t)at < st.mem.size()) st.mem[(size_t)at] = v;
    };
    switch (t->k) {
    case Type::Int: put(a, c.int64()); break;
    case Type::Float: put(a, model::as_bits(c.chance(1, 6) ? (double)c.int64() : (double)c.range(-80, 80) / 8.0)); break;
    case Type::Char: put(a, c.weighted({5, 1, 1}) == 0 ? c.range('a', 'z') : c.boolean() ? c.pick<int64_t>({0, 10, 9, 32, 126}) : c.range(-128, 127)); break;
    case Type::Ptr: put(a, c.chance(1, 8) ? c.int64() : c.range(0, (int64_t)st.mem.size() - 1)); break;
    case Type::Arr:
        for (uint64_t i = 0; i < t->cnt; ++i) fill(c, in, st, a + (int64_t)(i * in.size_of(t->to)), t->to);
        break;
    default:
        for (auto& m : t->mem) fill(c, in, st, a + m.off, m.type);
    }
}

class ExprGen {
public:
    ExprGen(pbt::Ctx& c, const Info& in, const std::map<std::string, const Var*>& vars, const std::vector<xr::Value>& history)
        : c(c), in(in), history(history) {
        for (auto& [n, v] : vars) this->vars.push_back(v);
    }
    struct Sort {  // static type
        xr::Value::K k = xr::Value::Int;
        size_t type = 0;
        bool operator==(const Sort& o) const {
            return k == o.k && (k == xr::Value::Int || k == xr::Value::Float || k == xr::Value::Char || type == o.type);
        }
    };
    struct E {
        xr::N n;
        Sort s;
        bool lvalue = false;
    };
    Sort sort_of(size_t tid) {
        auto* t = in.type(tid);
        if (!t) return {};
        switch (t->k) {
        case Type::Int: return {xr::Value::Int, 0};
        case Type::Float: return {xr::Value::Float, 0};
        case Type::Char: return {xr::Value::Char, 0};
        case Type::Ptr: return {xr::Value::Ptr, t->to};
        case Type::Arr: return {xr::Value::Arr, t->to};
        default: return {xr::Value::Struct, tid};
        }
    }
    // a walk from a variable or an earlier result
    E path(bool lv) {
        using namespace xr;
        E e;
        if (!lv && !history.empty() && c.chance(1, 4)) {
            size_t i = c.index(history.size());
            e.n = dollar((int64_t)i);
            e.s = {history[i].k, history[i].type};
        } else if (vars.empty()) {
            e.n = integer(1);
            return e;
        } else {
            auto* v = c.pick(vars);
            e.n = mk(Node::Id, v->name);
            e.s = sort_of(v->type);
            e.lvalue = true;
            if (e.s.k == Value::Arr) cnt = in.type(v->type)->cnt;
        }
        for (int hops = 0; hops < 4; ++hops) {
            if (e.s.k == Value::Int || e.s.k == Value::Float || e.s.k == Value::Char) break;
            if (c.chance(1, 4)) break;
            if (e.s.k == Value::Struct) {
                auto* t = in.type(e.s.type);
                if (!t || t->mem.empty()) break;
                auto& m = c.pick(t->mem);
                e.n = mk(Node::Dot, m.name, e.n);
                step(e, m.type);
            } else if (e.s.k == Value::Arr) {
                if (!cnt) break;
                e.n = mk(Node::Index, "", e.n, index((int64_t)cnt));
                step(e, e.s.type);
            } else {
                auto* t = in.type(e.s.type);
                if (!t) break;
                e.lvalue = true;
                if (t->k == Type::Struct && !t->mem.empty() && c.boolean()) {
                    auto& m = c.pick(t->mem);
                    e.n = mk(Node::Arrow, m.name, e.n);
                    step(e, m.type);
                } else if (c.boolean()) {
                    e.n = mk(Node::Un, "*", e.n);
                    step(e, e.s.type);
                } else {
                    e.n = mk(Node::Index, "", e.n, index(3));
                    step(e, e.s.type);
                }
            }
        }
        return e;
    }
    E path_of(Sort want, bool lv) {
        for (int k = 0; k < 8; ++k) {
            E e = path(lv);
            if (e.s == want) return e;
        }
        E e;
        if (want.k == xr::Value::Float) {
            e.n = literal_f();
            e.s.k = xr::Value::Float;
        } else {
            e.n = literal_i();
        }
        return e;
    }
    // the same kind of value, perhaps of another type
    E path_like(Sort want) {
        for (int k = 0; k < 8; ++k) {
            E e = path(false);
            if (e.s.k == want.k && !(e.s == want)) return e;
        }
        return path_of(want, false);
    }
    static bool typed(const Sort& s) { return s.k == xr::Value::Ptr || s.k == xr::Value::Arr || s.k == xr::Value::Struct; }
    E expr(int depth) {
        using namespace xr;
        switch (depth <= 0 ? c.weighted({3, 1, 6}) : c.weighted({2, 1, 4, 8, 2})) {
        case 0: return {literal_i(), {}, false};
        case 1: return {literal_f(), {Value::Float, 0}, false};
        case 2: return path(false);
        case 3: {
            E l = expr(depth - 1);
            std::string op = c.pick(binops());
            if (l.s.k == Value::Float) op = c.pick<std::string>({"+", "-", "*", "/", "<", ">=", "==", "!=", "&&", "%"});
            if (l.s.k == Value::Ptr) op = c.pick<std::string>({"+", "-", "==", "<", "!=", "<=", "*"});
            E r;
            if (l.s.k == Value::Ptr && (op == "+" || op == "-") && c.chance(3, 4)) r = {integer(c.range(0, 4)), {}, false};
            else if ((op == "<<" || op == ">>") && l.s.k == Value::Int) r = {integer(c.range(0, c.boolean() ? 8 : 63)), {}, false};
            else if (c.chance(1, 10)) r = expr(depth - 1);
            else if (typed(l.s) && c.chance(1, 5)) r = path_like(l.s);
            else {
                for (int k = 0; k < 3; ++k) {
                    r = expr(depth - 1);
                    if (r.s == l.s) break;
                }
                if (!(r.s == l.s)) r = path_of(l.s, false);
            }
            if ((op == "/" || op == "%") && l.s.k == Value::Int && c.chance(1, 10)) {  // the extremes
                l.n = mk(Node::Bin, "<<", integer(1), integer(63));
                if (c.boolean()) l.n = mk(Node::Bin, c.pick<std::string>({"+", "-"}), l.n, integer(c.range(0, 1)));
                r.n = c.chance(2, 3) ? mk(Node::Un, "-", integer(c.range(1, 2))) : integer(c.range(0, 2));
                r.s = {};
            }
            if (op == "+" && r.s.k == Value::Int && l.s.k == Value::Ptr && c.boolean()) std::swap(l, r);
            E e;
            e.n = mk(Node::Bin, op, l.n, r.n);
            bool ptr = l.s.k == Value::Ptr || r.s.k == Value::Ptr;
            if (level(op) <= 3) e.s = {};
            else if (ptr && !(l.s == r.s)) e.s = l.s.k == Value::Ptr ? l.s : r.s;
            else if (l.s.k == Value::Float) e.s = l.s;
            else e.s = {};
            return e;
        }
        default: {
            E e = expr(depth - 1);
            std::string op = c.pick<std::string>({"-", "!"});
            if (e.s.k == Value::Ptr && c.chance(4, 5)) {
                op = "*";
                Sort s = sort_of(e.s.type);
                return {mk(Node::Un, op, e.n), s, true};
            }
            return {mk(Node::Un, op, e.n), e.s, false};
        }
        }
    }
    E assignment() {
        using namespace xr;
        E l = path(true);
        E r = c.chance(1, 12) ? expr(1) : c.boolean() ? path_of(l.s, false) : expr(2);
        if (typed(l.s) && c.chance(1, l.s.k == xr::Value::Struct ? 3 : 8)) r = path_like(l.s);
        else if (!(r.s == l.s) && !c.chance(1, 8)) r = path_of(l.s, false);
        E e{mk(Node::Bin, "=", l.n, r.n), l.s, true};
        if (c.chance(1, 8)) {  // chains: to the left, and parenthesised to the right
            E x = path_of(l.s, true);
            if (c.boolean()) e.n = mk(Node::Bin, "=", x.n, e.n);
            else e.n = mk(Node::Bin, "=", e.n, x.n);
        }
        if (c.chance(1, 8) && l.s.k == Value::Int) e.n = mk(Node::Bin, "+", e.n, integer(c.range(0, 9)));
        return e;
    }

private:
    uint64_t cnt = 0;
    void step(E& e, size_t tid) {
        e.s = sort_of(tid);
        auto* t = in.type(tid);
        cnt = t && t->k == Type::Arr ? t->cnt : 0;
    }
    xr::N index(int64_t n) {
        if (c.chance(1, 12)) return c.boolean() ? xr::mk(xr::Node::Un, "-", xr::integer(1)) : xr::integer(n);
        if (c.chance(1, 6)) return path_of({}, false).n;
        return xr::integer(c.range(0, std::max<int64_t>(0, n - 1)));
    }
    xr::N literal_i() {
        switch (c.weighted({5, 2, 1})) {
        case 0: return xr::integer(c.range(0, 9));
        case 1: return xr::integer(c.range(0, INT32_MAX));
        default: return xr::integer(c.pick<int64_t>({INT32_MAX, 63, 64, 255, 256, 128}));
        }
    }
    xr::N literal_f() {
        return xr::floating(c.pick<std::string>({"0.5", "1.25", "2.0", "0.0", "3.75", "10.125", "1000000.0", "0.1", "123456.789", "00.50"}));
    }
    pbt::Ctx& c;
    const Info& in;
    std::vector<const Var*> vars;
    const std::vector<xr::Value>& history;
};

}  // namespace src
