// C18: the command-line debugger; whole scripts against a reference that predicts the transcript.
#include "dbg.h"
#include "funcgen.h"
#include <poll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include "common/messenger.h"
#include "t86/os.h"
#include "vm.h"
#include "proc.h"
#include "srcgen.h"

using namespace dbg;

static const char* kDelim = "istep\nExecute one instruction and then stop.\n";
static const std::vector<std::string> kCommands = {"run", "attach", "help", "breakpoint", "istep", "inext", "disassemble", "assemble", "continue", "register",
                                                   "memory", "watchpoint", "next", "step", "finish", "frame", "source", "expression", "print"};

// Colours and the explanatory text of CPU errors are not part of the comparison.
static std::string plain(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size();) {
        if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') {
            size_t j = i + 2;
            while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == ';')) ++j;
            if (j < s.size() && s[j] == 'm') {
                i = j + 1;
                continue;
            }
        }
        r += s[i++];
    }
    for (size_t a = 0; (a = r.find("reason: Inner CPU error occured.\n", a)) != r.npos;) {
        a = r.find('\n', a) + 1;
        size_t b = r.find("The error probably happened on address", a);
        if (b != r.npos) r.erase(a, b - a);
    }
    return r;
}

// What a user sees of the session, and how the reference arrives there.
// A VM (or something that is gone after its first answer) a debugger can attach to.
class Remote : public Messenger {
public:
    int port = 0;
    Remote() {
        ls = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t n = sizeof a;
        if (ls < 0 || bind(ls, (sockaddr*)&a, sizeof a) || listen(ls, 1) || getsockname(ls, (sockaddr*)&a, &n)) throw pbt::Discard{};
        port = ntohs(a.sin_port);
    }
    ~Remote() override {
        if (ls >= 0) close(ls);
        if (cs >= 0) close(cs);
    }
    bool connected() {  // waits for the debugger
        pollfd p{ls, POLLIN, 0};
        if (poll(&p, 1, 15000) != 1) return false;
        cs = accept4(ls, nullptr, nullptr, SOCK_CLOEXEC);
        return cs >= 0;
    }
    void Send(const std::string& s) override {
        uint64_t n = s.size();
        std::string m((char*)&n, 8);
        m += s;
        for (size_t i = 0; i < m.size();) {
            ssize_t k = send(cs, m.data() + i, m.size() - i, MSG_NOSIGNAL);
            if (k <= 0) throw std::runtime_error("the debugger is gone");
            i += (size_t)k;
        }
    }
    std::optional<std::string> Receive() override {
        uint64_t n = 0;
        if (!get((char*)&n, 8) || n > 100000) return std::nullopt;
        std::string s(n, 0);
        if (!get(s.data(), n)) return std::nullopt;
        return s;
    }

private:
    int ls = -1, cs = -1;
    bool get(char* p, size_t n) {
        while (n) {
            int on = 1;
            setsockopt(cs, IPPROTO_TCP, TCP_QUICKACK, &on, sizeof on);  // the debugger sends in two parts
            ssize_t k = read(cs, p, n);
            if (k <= 0) return false;
            p += k;
            n -= (size_t)k;
        }
        return true;
    }
};

class Model {
public:
    Model(pbt::Ctx& c) : c(c) {}
    struct Expect {
        std::string cmd;
        enum { Exact, Refused, Some, NoProcess } kind = Exact;
        std::set<std::string> alts;
        std::string help;  // the command this must explain
    };
    std::vector<Expect> script;
    std::string file, input;  // input: what the debugger reads
    gen::Prog prog;
    src::Info info;
    bool functions = false, has_file = true;
    std::string bad_file;  // not empty: the file does not parse

    // session
    bool active = false, ended = false;
    Ref ref;
    std::vector<std::string> shown;
    std::set<uint64_t> carried;
    std::vector<xr::Value> history;
    std::vector<std::string> source_lines;
    std::vector<uint64_t> future_ips, future_writes;
    bool remote = false, gone = false;  // attached to another VM; to one that has vanished
    std::optional<std::string> remote_out;  // what the other VM had printed when it was left
    size_t stops = 0, bp_hits = 0, wp_hits = 0, evals = 0, runs = 0, refusals = 0, source_stops = 0;

    // ---- rendering, under the two readings a rendering may have
    int ip_shift = 0;          // IP at an execution error: the instruction or the one after it
    bool carried_empty = false;  // text under disabled breakpoints kept over a run is shown as nothing (known finding of C09)
    uint64_t ip() const { return ref.st.ip + (ref.st.err != Err::None ? ip_shift : 0); }
    std::optional<size_t> line_at(uint64_t a) const {
        std::optional<size_t> r;
        if (!info.has_lines) return r;
        for (auto& [l, x] : info.lines)
            if (x == a && (!r || l > *r)) r = l;
        return r;
    }
    const src::Fn* fn_at(uint64_t a) const {
        if (info.has_info)
            for (auto& f : info.fns)
                if (f.b <= a && a < f.e) return &f;
        return nullptr;
    }
    static void visible(const std::vector<src::Scope>& ss, uint64_t a, std::map<std::string, const src::Var*>& r) {
        for (auto& s : ss)
            if (s.b <= a && a < s.e) {
                for (auto& v : s.vars) r[v.name] = &v;
                visible(s.subs, a, r);
            }
    }
    std::map<std::string, const src::Var*> vars_at(uint64_t a) const {
        std::map<std::string, const src::Var*> r;
        if (!info.has_info) return r;
        for (auto& v : info.globals) r[v.name] = &v;
        for (auto& f : info.fns)
            if (f.b <= a && a < f.e) visible(f.scopes, a, r);
        return r;
    }
    std::string function_info(uint64_t a, bool detailed = false) {
        auto* f = fn_at(a);
        if (!f) return "";
        std::string s = "function " + f->name + " at " + std::to_string(f->b) + "-" + std::to_string(f->e);
        auto vars = vars_at(a);
        if (!detailed) {
            bool first = true;
            for (auto& [n, v] : vars) {
                s += (first ? "; active variables: " : ", ") + n;
                first = false;
            }
        }
        s += "\n";
        if (detailed)
            for (auto& [n, v] : vars) {
                try {
                    State tmp = ref.st;
                    xr::Eval ev(info, tmp, vars, history);
                    xr::Value x = ev.eval(xr::mk(xr::Node::Id, n));
                    std::string val = ev.show(x);
                    if (!info.type(v->type)) continue;
                    s += "(" + ev.type_str(v->type) + ") " + n + " = " + val + "\n";
                } catch (const xr::Error&) {
                }
            }
        return s;
    }
    std::string flag(uint64_t a) const { return ref.bps.count(a) ? "@" : " "; }
    static std::string num4(uint64_t n) {
        std::string s = std::to_string(n);
        return s.size() < 4 ? std::string(4 - s.size(), ' ') + s : s;
    }
    std::string text(uint64_t from, uint64_t to) {
        std::string s;
        for (uint64_t a = from; a < to; ++a)
            s += flag(a) + (a == ip() ? "->" : "  ") + num4(a) + ":  " + (carried_empty && carried.count(a) ? "" : shown.at(a)) + "\n";
        return s;
    }
    std::string text_around() {
        uint64_t a = ip(), T = shown.size();
        if (a >= T) return "";
        return function_info(a) + text(a < 2 ? 0 : a - 2, std::min<uint64_t>(T, a + 3));
    }
    std::string code(uint64_t from, uint64_t to) {
        std::string s;
        auto cur = line_at(ip());
        for (uint64_t l = from; l < to && l < source_lines.size(); ++l) {
            auto it = info.lines.find(l);
            std::string f = " ";
            if (info.has_lines && it != info.lines.end() && line_at(it->second) == l) f = flag(it->second);
            s += f + (cur == l ? "->" : "  ") + num4(l + 1) + ":" + source_lines[l] + "\n";
        }
        return s;
    }
    std::string code_around(size_t line) { return function_info(ip()) + code(line < 2 ? 0 : line - 2, line + 3); }
    std::string here() {
        auto l = line_at(ip());
        return l ? code_around(*l) : text_around();
    }
    std::string report(const Event& e) {
        std::string r;
        switch (e.kind) {
        case Ev::Break: {
            auto l = line_at(e.addr);
            r = "Software breakpoint hit at " + (l ? "line " + std::to_string(*l + 1) : "address " + std::to_string(e.addr));
            break;
        }
        case Ev::Watch: r = "Watchpoint triggered at memory address " + std::to_string(e.addr); break;
        case Ev::End: r = "The program finished execution"; break;
        case Ev::Error: r = "Inner CPU error occured."; break;
        default: r = "Singlestep done";
        }
        std::string s = "Process stopped, reason: " + r + "\n";
        if (e.kind == Ev::Error) s += "The error probably happened on address '" + std::to_string(ip()) + "'\n";
        return s;
    }
    template <class F> std::set<std::string> readings(F f) {
        std::set<std::string> r;
        for (int sh = 0; sh < 2; ++sh)
            for (int ce = 0; ce < 2; ++ce) {
                ip_shift = sh;
                carried_empty = ce;
                r.insert(f());
            }
        return r;
    }

    // ---- the script
    // A command word or any prefix of it that still means this command.
    std::string word(const std::string& w, const std::vector<std::string>& all) {
        if (c.chance(1, 2)) return w;
        for (int t = 0; t < 4; ++t) {
            std::string p = w.substr(0, 1 + c.index(w.size()));
            for (auto& x : all)
                if (x.rfind(p, 0) == 0) {
                    if (x == w) return p;
                    break;
                }
        }
        return w;
    }
    std::string cmd(const std::string& w) { return word(w, kCommands); }
    void add(const std::string& line, decltype(Expect::kind) kind, std::set<std::string> alts = {}, const std::string& more = "") {
        std::string l = line;
        if (c.chance(1, 12)) l = "  " + l;
        if (c.chance(1, 12)) l += "  ";
        if (c.chance(1, 12))
            if (size_t p = l.find(' ', l.find_first_not_of(' ')); p != l.npos) l.insert(p, c.pick<std::string>({" ", "  "}));
        input += l + "\n" + more;
        input += c.boolean() ? "help istep\n" : c.boolean() ? "he ist\n\n" : "\nhelp   i\n";
        std::set<std::string> a;
        for (auto& x : alts) a.insert(plain(x));
        script.push_back({line + (more.empty() ? "" : " | " + more), kind, a});
        std::string note = line;
        if (!more.empty()) note += "\n" + more.substr(0, more.size() - 1);
        static const char* names[] = {"", "   # refused", "   # anything", "   # no process"};
        c.note(note + names[kind] + "\n");
        if (kind == Expect::Refused) ++refusals;
    }
    template <class F> void say(const std::string& line, F f) {
        if (!active) return add(line, Expect::NoProcess);
        add(line, Expect::Exact, readings(f));
    }
    void refuse(const std::string& line, const std::string& more = "") { add(line, active ? Expect::Refused : Expect::NoProcess, {}, active ? more : ""); }
    // succeeds or is refused
    template <class F> void either(bool ok, const std::string& line, F f) {
        if (ok) say(line, f);
        else refuse(line);
    }

    void foresee() {
        State st = ref.st;
        std::set<uint64_t> w, x;
        for (int k = 0; k < 300 && !st.halted && st.err == Err::None && st.ip < ref.text.size(); ++k) {
            if (unspecified(st, ref.text[st.ip])) break;
            x.insert(st.ip);
            Machine m(std::move(st), &ref.text);
            m.step();
            st = std::move(m.st);
            if (st.err == Err::None) w.insert(st.last_writes.begin(), st.last_writes.end());
        }
        future_writes.assign(w.begin(), w.end());
        future_ips.assign(x.begin(), x.end());
    }

    void leave() {
        if (remote) remote_out = ref.st.out;
        remote = gone = false;
    }
    void attach(int port) {
        add(cmd("attach") + " " + std::to_string(port), Expect::Exact, {""});
        ref = Ref{};
        ref.st = State(8, 4, 1024);
        for (size_t i = 0; i < prog.data.size(); ++i) ref.st.mem[i] = prog.data[i];
        ref.text = prog.text;
        ref.frames = functions;
        carried.clear();
        shown.clear();
        for (auto& i : prog.text) shown.push_back(canonical(ins_text(i)));
        history.clear();
        active = remote = true;
        ended = false;
        foresee();
    }
    // attaches to something that vanishes at once
    void attach_gone(int port) {
        add(cmd("attach") + " " + std::to_string(port), Expect::Exact, {""});
        for (size_t n = c.index(4); n-- > 0;)
            add(c.pick<std::string>({"istep", "continue", "register", "memory get 0 2", "register set R0 1", "breakpoint iset 0", "disassemble", "next", "finish", "memory set 0 5", "register get IP"}),
                Expect::Refused);
    }

    void run(bool first, bool sure = false) {
        gen::Machine0 m = prog.m;
        std::string line = cmd("run");
        bool fits = first || c.chance(3, 4);
        auto opt = [&](const char* n, size_t& v, size_t dflt, size_t other) {
            if (!fits) v = other;
            if (!fits && c.chance(1, 3)) v = dflt;
            if (v != dflt || c.boolean()) line += std::string(" --") + n + "=" + std::to_string(v);
        };
        std::string before = line;
        switch (c.index(3)) {
        case 0:
            opt("reg-count", m.nr, 8, (size_t)c.range(1, 9));
            opt("float-reg-count", m.nf, 4, (size_t)c.range(0, 5));
            opt("data-size", m.nm, 1024, (size_t)c.range(4, 70));
            break;
        case 1:
            opt("data-size", m.nm, 1024, (size_t)c.range(4, 70));
            opt("reg-count", m.nr, 8, (size_t)c.range(1, 9));
            opt("float-reg-count", m.nf, 4, (size_t)c.range(0, 5));
            break;
        default:
            opt("float-reg-count", m.nf, 4, (size_t)c.range(0, 5));
            opt("data-size", m.nm, 1024, (size_t)c.range(4, 70));
            opt("reg-count", m.nr, 8, (size_t)c.range(1, 9));
        }
        if (!first && c.chance(1, 8)) {  // refused: the present process, if any, stays
            std::string l = before + c.pick<std::string>({" --reg-count=x", " --data-size=", " --float-reg-count=-1", " --data-size=1.5", " --data-size=18446744073709551615", " --data-size=1152921504606846976"});
            refuse_run(l);
            return;
        }
        if (!prog.data.empty() && !sure && c.chance(1, 15)) return refuse_run(before + " --data-size=" + std::to_string(prog.data.size() - 1));
        if (!has_file) return add(line, Expect::Exact, {""});
        if (!bad_file.empty()) return add(line, Expect::Refused);
        if (prog.data.size() > m.nm) return refuse_run(line);
        leave();
        auto wps = ref.wps;
        auto bps = ref.bps;
        ref = Ref{};
        ref.st = State(m.nr, m.nf, m.nm);
        for (size_t i = 0; i < prog.data.size(); ++i) ref.st.mem[i] = prog.data[i];
        ref.text = prog.text;
        ref.frames = functions && m.nm >= prog.m.nm && m.nr >= prog.m.nr;
        ref.bps = bps;
        ref.wps = wps;
        carried.clear();
        for (auto& [a, en] : bps)
            if (!en) carried.insert(a);
        shown.clear();
        for (auto& i : prog.text) shown.push_back(canonical(ins_text(i)));
        history.clear();
        active = true;
        ended = false;
        foresee();
        ++runs;
        add(line, Expect::Exact, {"Started process '" + file + "'\n"});
    }
    // `run` is refused whether or not a process is active
    void refuse_run(const std::string& l) { add(l, has_file ? Expect::Refused : Expect::Exact, {""}); }

    uint64_t text_addr() {
        if (!future_ips.empty() && !c.chance(1, 4)) return c.pick(future_ips);
        return (uint64_t)c.range(0, (int64_t)prog.text.size() - 1);
    }
    uint64_t mem_addr() {
        if (!future_writes.empty() && !c.chance(1, 3)) return c.pick(future_writes);
        if (!active) return (uint64_t)c.range(0, 9);
        return (uint64_t)c.range(0, std::min<int64_t>(c.boolean() ? 6 : 1 << 20, (int64_t)ref.st.mem.size() - 1));
    }
    std::string bad_number() { return c.pick<std::string>({"x", "-1", "1x", "1.5", "99999999999999999999", "0x1", "+", "--", "R0"}); }

    // ---- resumes
    void resume(int k) {
        static const char* names[] = {"continue", "istep", "inext", "step", "next", "finish"};
        std::string line = cmd(names[k]);
        if (!active || ended) return refuse(line);
        if (c.chance(1, 25)) {
            if (k != 0) refuse(line + " " + c.pick<std::string>({"1", "main", "x y"}));
            return;
        }
        // known finding carried-disabled-breakpoint-text: a call or return there is not recognised as one
        if (k == 2 || k == 4 || k == 5)
            for (auto a : carried)
                if (ref.text[a].op == Op::CALL || ref.text[a].op == Op::RET) return;
        Event want;
        std::string before = ref.st.out;
        auto f = [&](Ref& r) -> Event {
            switch (k) {
            case 0: return r.cont();
            case 1: return r.step();
            case 2: return r.step_over();
            case 5: return r.step_out();
            default: {
                bool over = k == 4;
                Event e = over ? r.step_over() : r.step();
                while (e.kind == Ev::Step && !line_at(r.st.ip)) {
                    if (r.enabled(r.st.ip)) return Event{Ev::Break, r.st.ip};
                    e = over ? r.step_over() : r.step();
                }
                return e;
            }
            }
        };
        if (!attempt(ref, want, f)) return;
        std::string out = remote ? "" : ref.st.out.substr(before.size());
        if (want.kind == Ev::End || want.kind == Ev::Error) ended = true;
        ++stops;
        if (want.kind == Ev::Break) ++bp_hits;
        if (want.kind == Ev::Watch) ++wp_hits;
        auto shape = [&](Event e) {
            return readings([&] {
                std::string s = out;
                if (k == 0 || e.kind != Ev::Step) s += report(e);
                if (e.kind == Ev::End) return s;
                if (k == 1 || k == 2) return s + text_around();
                if (k == 3 || k == 4) {
                    auto l = line_at(ip());
                    return l ? s + code_around(*l) : s;
                }
                return s + here();
            });
        };
        std::set<std::string> alts = shape(want);
        // arriving on an enabled breakpoint while stepping may be reported either way
        if (k >= 2 && ref.enabled(ref.st.ip) && (want.kind == Ev::Step || want.kind == Ev::Break)) {
            auto more = shape(want.kind == Ev::Step ? Event{Ev::Break, ref.st.ip} : Event{Ev::Step});
            if (want.kind == Ev::Step) alts.insert(more.begin(), more.end());
        }
        if (line_at(ref.st.ip) && !source_lines.empty()) ++source_stops;
        add(line, Expect::Exact, alts);
    }

    // ---- breakpoints
    std::optional<uint64_t> place(std::string& t) {
        std::optional<uint64_t> want;
        switch (c.weighted({5, 3, 1})) {
        case 0: {
            size_t l = info.lines.empty() || c.chance(1, 5) ? c.index(24) : [&] {
                auto it = info.lines.begin();
                std::advance(it, c.index(info.lines.size()));
                return it->first + 1;
            }();
            t = std::to_string(l);
            if (info.has_lines && l >= 1) {
                auto it = info.lines.find(l - 1);
                if (it != info.lines.end()) want = it->second;
            }
            break;
        }
        case 1:
            t = info.fns.empty() || c.chance(1, 6) ? "nofn" : c.pick(info.fns).name;
            if (info.has_info)
                for (auto& f : info.fns)
                    if (f.name == t) want = f.b;
            break;
        default: t = c.pick<std::string>({"-1", "3x", "99999999999999999999", "0"});
        }
        return want;
    }
    std::string reported(const std::string& action, uint64_t a) {
        auto l = line_at(a);
        if (!l) return "Breakpoint " + action + " addr " + std::to_string(a) + "\n";
        std::string s = "Breakpoint " + action + " line " + std::to_string(*l + 1) + " (addr " + std::to_string(a) + ")";
        if (*l < source_lines.size()) s += ": " + source_lines[*l];
        return s + "\n";
    }
    void bp_op() {
        static const std::vector<std::string> subs = {"iset", "set", "remove", "enable", "disable", "idisable", "ienable", "iremove", "list"};
        std::string br = cmd("breakpoint") + " ";
        size_t T = prog.text.size();
        switch (c.weighted({6, 3, 2, 3})) {
        case 0: {
            uint64_t a = text_addr();
            if (c.chance(1, 15)) {
                std::string n = c.boolean() ? bad_number() : std::to_string(T + c.index(3));
                return refuse(br + word("iset", subs) + " " + n);
            }
            bool ok = active && !ref.bps.count(a);
            std::string l = br + word("iset", subs) + " " + std::to_string(a);
            if (!ok) return refuse(l);
            ref.bps[a] = true;
            return say(l, [&] { return "Breakpoint set on address " + std::to_string(a) + ": '" + shown[a] + "'\n"; });
        }
        case 1: {
            uint64_t a = 0;
            bool has;
            if (ref.bps.empty() || c.chance(1, 8)) a = text_addr();
            else {
                auto it = ref.bps.begin();
                std::advance(it, c.index(ref.bps.size()));
                a = it->first;
            }
            has = active && ref.bps.count(a);
            std::string A = std::to_string(a);
            switch (c.index(3)) {
            case 0:
                if (has) {
                    ref.bps.erase(a);
                    carried.erase(a);
                }
                return either(has, br + word("iremove", subs) + " " + A, [&] { return "Breakpoint removed from address " + A + "\n"; });
            case 1:
                if (has) ref.bps[a] = false;
                return either(has, br + word("idisable", subs) + " " + A, [&] { return "Breakpoint disabled at address " + A + "\n"; });
            default:
                if (has) {
                    ref.bps[a] = true;
                    carried.erase(a);
                }
                return either(has, br + word("ienable", subs) + " " + A, [&] { return "Breakpoint enabled at address " + A + "\n"; });
            }
        }
        case 2:
            return say(br + word("list", subs), [&] {
                std::string s;
                for (auto& [a, en] : ref.bps) {
                    auto l = line_at(a);
                    s += "addr: " + std::to_string(a) + (l ? ", line: " + std::to_string(*l + 1) : "") + "; " + (en ? "enabled" : "disabled");
                    if (auto* f = fn_at(a)) s += "; function: " + f->name;
                    s += "\n";
                }
                return s;
            });
        default: {
            std::string t;
            auto a = place(t);
            size_t k = c.weighted({4, 2, 2, 2});
            bool has = a && ref.bps.count(*a);
            static const char* names[] = {"set", "remove", "enable", "disable"};
            static const char* said[] = {"set on", "removed from", "enabled on", "disabled on"};
            std::string l = br + word(names[k], subs) + " " + t;
            bool ok = active && a && (k == 0 ? !has && *a < T : has);
            if (!ok) return refuse(l);
            if (k == 0) ref.bps[*a] = true;
            else if (k == 1) ref.bps.erase(*a);
            else ref.bps[*a] = k == 2;
            if (k == 1 || k == 2) carried.erase(*a);
            return say(l, [&] { return reported(said[k], *a); });
        }
        }
    }
    void wp_op() {
        static const std::vector<std::string> subs = {"iset", "irem", "list"};
        std::string w = cmd("watchpoint") + " ";
        uint64_t a = mem_addr();
        switch (c.weighted({4, 2, 2})) {
        case 0: {
            if (c.chance(1, 15)) return refuse(w + "iset " + bad_number());
            bool ok = active && !ref.wps.count(a) && ref.wps.size() < 4;
            if (ok) ref.wps.insert(a);
            return either(ok, w + word("iset", subs) + " " + std::to_string(a), [] { return ""; });
        }
        case 1: {
            if (!ref.wps.empty() && !c.chance(1, 5)) {
                auto it = ref.wps.begin();
                std::advance(it, c.index(ref.wps.size()));
                a = *it;
            }
            bool ok = active && ref.wps.count(a);
            if (ok) ref.wps.erase(a);
            return either(ok, w + word("irem", subs) + " " + std::to_string(a), [] { return ""; });
        }
        default:
            return say(w + word("list", subs), [&]() -> std::string {
                if (ref.wps.empty()) return "No active watchpoints\n";
                std::string s = "Active watchpoints:\n";
                for (auto a : ref.wps) s += " - address " + std::to_string(a) + "\n";
                return s;
            });
        }
    }
    void disas_op() {
        static const std::vector<std::string> subs = {"range", "from", "function"};
        std::string d = cmd("disassemble");
        uint64_t T = prog.text.size(), a = text_addr();
        switch (c.index(4)) {
        case 0: return say(d, [&] { return text_around(); });
        case 1: {
            uint64_t e = c.chance(1, 5) ? T + c.index(2) : a + c.index((size_t)(T - a));
            if (c.chance(1, 8)) {
                if (a == 0) return;
                e = a - 1 - c.index((size_t)a);
            }
            bool ok = active && e >= a && e < T;
            return either(ok, d + " " + word("range", subs) + " " + std::to_string(a) + " " + std::to_string(e), [&] { return text(a, e + 1); });
        }
        case 2: {
            if (c.chance(1, 10)) return refuse(d + " from " + (c.boolean() ? bad_number() : std::to_string(T + c.index(2))));
            if (c.boolean()) return say(d + " " + word("from", subs) + " " + std::to_string(a), [&] { return text(a, T); });
            uint64_t n = c.chance(1, 6) ? T - a + 1 : (uint64_t)c.range(1, (int64_t)(T - a));
            return either(n <= T - a, d + " " + word("from", subs) + " " + std::to_string(a) + " " + std::to_string(n), [&] { return text(a, a + n); });
        }
        default: {
            if (info.fns.empty() || c.chance(1, 8)) return refuse(d + " function " + c.pick<std::string>({"nofn", "0", "main2"}));
            auto& f = c.pick(info.fns);
            bool ok = info.has_info && f.e <= T;
            return either(ok, d + " " + word("function", subs) + " " + f.name, [&] { return text(f.b, f.e); });
        }
        }
    }
    static std::string shortest(double d) { return fmt::format("{}", d); }
    void reg_op() {
        static const std::vector<std::string> subs = {"set", "get", "fget", "fset"};
        std::string r = cmd("register");
        switch (c.weighted({4, 3, 3, 2, 2, 1})) {
        case 0:
            return say(r, [&] {
                std::map<std::string, int64_t> m;
                for (size_t i = 0; i < ref.st.r.size(); ++i) m["R" + std::to_string(i)] = ref.st.r[i];
                m["SP"] = ref.st.sp;
                m["BP"] = ref.st.bp;
                m["IP"] = (int64_t)ip();
                std::string s;
                for (auto& [n, v] : m) s += n + ":" + std::to_string(v) + "\n";
                return s;
            });
        case 1: {
            int k = (int)c.index((active ? ref.st.r.size() : 4) + 3);
            std::string n = k == 0 ? "SP" : k == 1 ? "BP" : k == 2 ? "IP" : "R" + std::to_string(k - 3);
            return say(r + " " + word("get", subs) + " " + n, [&] {
                int64_t v = k == 0 ? ref.st.sp : k == 1 ? ref.st.bp : k == 2 ? (int64_t)ip() : ref.st.r[(size_t)k - 3];
                return std::to_string(v) + "\n";
            });
        }
        case 2: {
            if (!active) return refuse(r + " set R0 1");
            int k = (int)c.index(ref.st.r.size() + 2);
            std::string n = k == 0 ? "SP" : k == 1 ? "BP" : "R" + std::to_string(k - 2);
            if (c.chance(1, 10)) return refuse(r + " set " + n + " " + c.pick<std::string>({"x", "1x", "1.5", "99999999999999999999", "--1", "0x5"}));
            int64_t v = k < 2 ? c.range(0, (int64_t)ref.st.mem.size()) : c.int64();
            if (c.chance(1, 8) && ref.st.err == Err::None && !ended) {
                n = "IP";
                v = (int64_t)text_addr();
                ref.st.ip = (uint64_t)v;
                ref.frames = false;
            } else {
                if (k < 2) ref.frames = false;  // what a call returns to is the user's doing from here on
                (k == 0 ? ref.st.sp : k == 1 ? ref.st.bp : ref.st.r[(size_t)k - 2]) = v;
            }
            return say(r + " " + word("set", subs) + " " + n + " " + std::to_string(v), [] { return ""; });
        }
        case 3: {
            if (!active || ref.st.f.empty()) return refuse(r + " fget F0");
            size_t k = c.index(ref.st.f.size());
            if (std::isnan(as_double(ref.st.f[k]))) return;
            return say(r + " " + word("fget", subs) + " F" + std::to_string(k), [&] { return shortest(as_double(ref.st.f[k])) + "\n"; });
        }
        case 4: {
            if (!active || ref.st.f.empty()) return refuse(r + " fset F0 1.5");
            size_t k = c.index(ref.st.f.size());
            double v = c.boolean() ? (double)c.range(-100000, 100000) / 1000.0 : (double)c.int64() * 0.001;
            ref.st.f[k] = as_bits(v);
            return say(r + " " + word("fset", subs) + " F" + std::to_string(k) + " " + shortest(v), [] { return ""; });
        }
        default:
            return refuse(r + " " + c.pick<std::string>({"get R99", "get", "set R0", "set R99 1", "get X", "fget R0", "fget F99", "fset F0", "fset F99 1.0", "fset F0 x", "foo", "set R0x 1"}));
        }
    }
    void mem_op() {
        static const std::vector<std::string> subs = {"set", "setstr", "get", "getstr"};
        std::string m = cmd("memory") + " ";
        if (!active) return refuse(m + "get 0 1");
        uint64_t M = ref.st.mem.size(), a = mem_addr();
        if (a >= M) a = 0;
        switch (c.weighted({4, 4, 2, 2, 1})) {
        case 0: {
            uint64_t n = c.chance(1, 10) ? M - a + 1 : (uint64_t)c.range(1, (int64_t)std::min<uint64_t>(M - a, c.chance(1, 15) ? M : 40));
            return either(n <= M - a, m + word("get", subs) + " " + std::to_string(a) + " " + std::to_string(n), [&] {
                std::string s;
                for (uint64_t i = a; i < a + n; ++i) s += std::to_string(i) + ":" + std::to_string(ref.st.mem[i]) + "\n";
                return s;
            });
        }
        case 1: {
            size_t n = 1 + c.index(c.chance(1, 20) ? 60 : 3);
            if (c.chance(1, 10)) a = M - c.index(2);
            std::string l = m + word("set", subs) + " " + std::to_string(a);
            std::vector<int64_t> v;
            bool ok = a < M && n <= M - a;
            for (size_t i = 0; i < n; ++i) {
                v.push_back(c.int64());
                l += " " + std::to_string(v.back());
            }
            if (c.chance(1, 12)) {
                l += " " + c.pick<std::string>({"x", "1x", "99999999999999999999"});
                ok = false;
            }
            if (ok) {
                ref.frames = false;
                for (size_t i = 0; i < n; ++i) ref.st.mem[a + i] = v[i];
            }
            return either(ok, l, [] { return ""; });
        }
        case 2: {
            std::string s, q;
            size_t n = c.index(c.chance(1, 20) ? 400 : 6);
            for (size_t i = 0; i < n; ++i) {
                int ch = c.pick<int>({'a', 'z', 'H', ' ', '!', '%', '"', '\n', '\t', '#', '\0', '{', (int)c.range(32, 126)});
                if (ch == '\\') ch = '/';  // there is no way to write it
                if (ch == ' ' && (i == 0 || s.back() == ' ')) ch = 'b';  // runs of blanks are squashed when the line is read
                s += (char)ch;
                q += ch == '\n' ? "\\n" : ch == '\t' ? "\\t" : ch == 0 ? "\\0" : std::string(1, (char)ch);
            }
            bool ok = s.size() + 1 <= M - a;
            std::string l = m + word("setstr", subs) + " " + std::to_string(a) + " \"" + q + "\"";
            if (c.chance(1, 6)) {
                ok = false;
                l = m + "setstr " + std::to_string(a) + " " + c.pick<std::string>({"abc", "\"abc", "abc\"", "\"", "\"a\\q\"", "\"a\\\""});
            }
            if (ok) {
                ref.frames = false;
                for (size_t i = 0; i < s.size(); ++i) ref.st.mem[a + i] = s[i];
                ref.st.mem[a + s.size()] = 0;
            }
            return either(ok, l, [] { return ""; });
        }
        case 3: {
            uint64_t n = 0, longest = c.chance(1, 5) ? 300 : 10;
            while (a + n < M && n < longest && ((ref.st.mem[a + n] >= 32 && ref.st.mem[a + n] < 127) || ref.st.mem[a + n] == '\n')) ++n;
            if (!n) return;
            return say(m + word("getstr", subs) + " " + std::to_string(a) + " " + std::to_string(n), [&] {
                std::string s;
                for (uint64_t i = a; i < a + n; ++i) s += (char)ref.st.mem[i];
                return s.back() == '\n' ? s : s + "\\%\n";
            });
        }
        default:
            return refuse(m + c.pick<std::string>({"get x 1", "get 0 x", "get", "get 0", "set 0", "set x 1", "foo", "get -1 1", "setstr x \"a\"", "set 99999999999 1", "get 0 99999999999",
                                                  "set 18446744073709551615 1 2", "get 18446744073709551615 2"}));
        }
    }
    void asm_op() {
        std::string s = cmd("assemble");
        if (!active || c.chance(1, 8)) return refuse(s + c.pick<std::string>({"", " foo", " interactive", " interactive x", " interactive -1"}), "");
        uint64_t a = text_addr();
        gen::Opts o;
        o.input = false;
        gen::Machine0 m{ref.st.r.size(), ref.st.f.size(), ref.st.mem.size()};
        gen::ProgGen g(c, m, o);
        g.T = ref.text.size();
        size_t k = 1 + c.index(3);
        std::vector<Ins> ins;
        std::string more;
        bool bad = c.chance(1, 8);
        for (size_t i = 0; i < k; ++i) {
            State st = ref.st;
            st.ip = a + i;
            ins.push_back(c.boolean() && m.nr ? g.candidate(st) : g.wild());
            if (bad && k == 1) more += c.pick<std::string>({"MOV R0", "FOO R0, 1", "MOV 1, R0", "ADD F0, R0", " ", "NOP NOP"}) + "\n";
            else more += ins_text(ins.back()) + "\n";
        }
        if (k != 1) bad = false;
        if (c.chance(1, 10)) a = ref.text.size() + c.index(2);
        more += "\n";
        std::string l = s + " interactive " + std::to_string(a);
        bool ok = !bad && a < ref.text.size() && k <= ref.text.size() - a;
        if (!ok) return add(l, Expect::Refused, {}, more);
        ref.frames = false;
        for (size_t i = 0; i < k; ++i) {
            ref.text[a + i] = ins[i];
            shown[a + i] = canonical(ins_text(ins[i]));
            carried.erase(a + i);
        }
        add(l, Expect::Exact, {""}, more);
    }
    void source_op() {
        std::string s = cmd("source");
        if (c.boolean()) {
            if (!active || !info.has_lines) return refuse(s);
            if (ref.st.err != Err::None) return;  // whether there is a line may depend on the IP shown
            return either(line_at(ip()).has_value(), s, [&] { size_t l = *line_at(ip()); return code(l < 2 ? 0 : l - 2, l + 3); });
        }
        uint64_t l = (uint64_t)c.range(0, (int64_t)source_lines.size() + 2);
        if (!active || l == 0 || c.chance(1, 12)) return refuse(s + " from " + (c.boolean() || l ? bad_number() : "0"));
        if (c.boolean()) {
            bool ok = info.has_source;
            return either(ok, s + " from " + std::to_string(l), [&] { return code(l - 1, source_lines.size()); });
        }
        uint64_t n = c.pick<uint64_t>({0, 1, 2, 5, 30, 9999999999999ull});
        if (!info.has_source) n %= 10;
        std::set<std::string> alts = readings([&] { return code(l - 1, l - 1 + n); });
        add(s + " from " + std::to_string(l) + " " + std::to_string(n), Expect::Exact, alts);
    }
    void frame_op() {
        std::string s = cmd("frame");
        if (!active || ended) return refuse(s);
        try {
            say(s, [&] { return function_info(ip(), true); });
        } catch (const xr::Unspecified&) {
        }
    }
    void expr_op() {
        std::string w = cmd(c.boolean() ? "expression" : "print");
        if (!active) return refuse(w + " 1 + 1");
        if (ref.st.err != Err::None) return;
        if (c.chance(1, 15)) return add(w, Expect::Some);
        auto vars = vars_at(ip());
        src::ExprGen g(c, info, vars, history);
        auto e = c.chance(1, 4) ? g.assignment() : g.expr((int)c.range(0, 2));
        xr::Toks t;
        xr::tokens(e.n, 0, t, [] { return false; });
        if (c.chance(1, 10) && !t.empty()) {
            static const std::vector<std::string> junk = {"+", "*", "(", ")", "[", "]", ".", "->", "=", "==", "&&", "1", "zz", ",", "99999999999"};
            size_t at = c.index(t.size());
            if (c.boolean()) t.erase(t.begin() + (long)at);
            else t[at] = c.pick(junk);
        }
        if (t.empty()) return;
        std::string line;
        bool wide = c.boolean();
        for (size_t i = 0; i < t.size(); ++i) {
            if (i && (xr::glued(t[i - 1], t[i]) || wide)) line += " ";
            line += t[i];
        }
        if (line.find('#') != line.npos) return;
        State after = ref.st;
        xr::Value v;
        bool ok = true;
        std::string shown, type;
        try {
            xr::N n = xr::Syntax(t).parse();
            xr::Eval ev(info, after, vars, history);
            v = ev.eval(n);
            if (v.k == xr::Value::Float && std::isnan(v.d)) throw xr::Unspecified{};
            type = ev.type_name(v);
            try {
                shown = ev.show(v);
            } catch (const xr::Error&) {
                return;  // evaluated (and remembered) but cannot be shown: C15
            }
        } catch (const xr::SyntaxError&) {
            ok = false;
        } catch (const xr::Error&) {
            ok = false;
        } catch (const xr::Unspecified&) {
            return;
        }
        if (shown.find('\x1b') != shown.npos) return;
        if (!(after.mem == ref.st.mem && after.sp == ref.st.sp && after.bp == ref.st.bp)) ref.frames = false;
        ref.st = after;
        size_t idx = history.size();
        if (ok) {
            history.push_back(v);
            ++evals;
        }
        either(ok, w + " " + line, [&] { return "(" + type + ") $" + std::to_string(idx) + " = " + shown + "\n"; });
    }
    void misc_op() {
        switch (c.index(4)) {
        case 0: {
            std::string h = cmd("help");
            if (c.boolean()) {
                const std::string& of = c.pick(kCommands);
                add(h + " " + of, Expect::Some);
                script.back().help = of;
                return;
            }
            return add(c.chance(1, 3) ? h + " " + c.pick<std::string>({"foo", "x", "1", "istepp"}) : h, Expect::Some);
        }
        case 1: return add(c.pick<std::string>({"foo", "x 1 2", "breakpointx iset 1", "1", "-", "R0", "run2", "\"", "b-s 1", "isteps", "$", "é"}), Expect::Some);
        case 2:
            if (active) return refuse(c.pick<std::string>({"breakpoint", "breakpoint foo 1", "watchpoint", "watchpoint foo", "disassemble foo", "disassemble range 1", "source foo", "source from",
                                                           "breakpoint iset", "breakpoint set", "watchpoint iset", "breakpoint iset x", "disassemble range x 1", "memory", "assemble"}));
            return;
        default:
            return add(cmd("attach") + c.pick<std::string>({"", " x", " 1", " 99999999999", " 1x"}), Expect::Refused);
        }
    }

    void op() {
        if (active && ended && has_file && c.chance(1, 4)) return run(false);
        size_t k = c.weighted({6, 5, 4, 4, 4, 3, 8, 4, 4, 4, 5, 2, 3, 3, 6, 2, 1});
        // running without anything to stop at is the end of the session's interesting part
        if (active && !ended && (k == 0 || k == 5) && ref.wps.empty() && c.chance(3, 4)) {
            bool any = false;
            for (auto& [a, en] : ref.bps) any |= en && a != ref.st.ip;
            if (!any) k = c.boolean() ? 6 : 7;
        }
        switch (k) {
        case 0: return resume(0);
        case 1: return resume(1);
        case 2: return resume(2);
        case 3: return resume(3);
        case 4: return resume(4);
        case 5: return resume(5);
        case 6: return bp_op();
        case 7: return wp_op();
        case 8: return disas_op();
        case 9: return reg_op();
        case 10: return mem_op();
        case 11: return asm_op();
        case 12: return source_op();
        case 13: return frame_op();
        case 14: return expr_op();
        case 15: return misc_op();
        default: return run(false);
        }
    }

    // ---- the debuggee
    std::vector<src::Var> some_vars(size_t max) {
        std::vector<src::Var> r;
        size_t n = c.index(max + 1);
        std::set<std::string> used;
        for (size_t k = 0; k < n; ++k) {
            src::Var v;
            v.name = c.pick<std::string>({"a", "b", "cnt", "db", "x_1", "p"});
            if (!used.insert(v.name).second) continue;
            v.type = c.pick(info.types).id;
            using L = src::Loc;
            switch (c.weighted({3, 3, 2})) {
            case 0: v.loc = {{L::PushNum, "", (int64_t)c.range(0, 8)}}; break;
            case 1: v.loc = {{L::BpOff, "", (int64_t)c.range(-4, 0)}}; break;
            default:
                if (auto k = info.type(v.type)->k; k != src::Type::Arr && k != src::Type::Struct) v.loc = {{L::PushReg, "R" + std::to_string(c.index(4)), 0}};
                else v.loc = {{L::PushReg, "BP", 0}, {L::PushNum, "", (int64_t)c.range(-6, 0)}, {L::Add}};
            }
            r.push_back(v);
        }
        return r;
    }
    void debuggee() {
        functions = c.chance(2, 3);
        std::vector<FuncGen::Fn> fns;
        if (functions) {
            FuncGen fg(c);
            prog = fg.make();
            fns = fg.fns;
        } else {
            gen::Machine0 m;
            m.nr = (size_t)c.range(1, 6);
            m.nf = (size_t)c.range(0, 3);
            if (c.chance(1, 30)) m.nr = 12, m.nf = 11;
            m.nm = c.pick<size_t>({24, 8, 40});
            gen::Opts o;
            o.max_text = c.pick<size_t>({8, 16, 30});
            o.max_steps = 200;
            o.faults = c.chance(1, 5);
            o.input = false;
            o.large_ints = false;
            if (c.boolean()) o.mem_weight = 14;
            prog = gen::ProgGen(c, m, o).run();
            size_t at = 0;
            for (size_t k = 0; k < 2 && at + 1 < prog.text.size(); ++k) {
                FuncGen::Fn f;
                f.start = at + c.index(2);
                f.end = f.start + 1 + c.index(prog.text.size() - f.start);
                at = f.end;
                fns.push_back(f);
            }
        }
        if (c.chance(1, 40)) {
            size_t d = (size_t)gen::moved_up(c, prog);
            for (auto& f : fns) f.start += d, f.end += d;
        }
        size_t T = prog.text.size();
        info.has_info = c.chance(3, 4);
        info.has_lines = c.chance(3, 4);
        info.has_source = c.chance(3, 4);
        gen_types(c, info, c.index(4), 5);
        if (info.has_info) {
            for (size_t k = 0; k < fns.size(); ++k) {
                if (c.chance(1, 6)) continue;
                src::Fn f;
                f.name = k == 0 ? "main" : "f" + std::to_string(k);
                f.b = fns[k].start;
                f.e = fns[k].end;
                if (c.chance(2, 3)) {
                    src::Scope s{f.b, f.e, some_vars(3), {}};
                    if (f.e - f.b >= 2 && c.boolean()) {
                        uint64_t b = f.b + c.index((size_t)(f.e - f.b - 1));
                        s.subs.push_back({b, b + 1 + c.index((size_t)(f.e - b)), some_vars(2), {}});
                    }
                    f.scopes.push_back(s);
                }
                info.fns.push_back(f);
            }
            if (c.boolean()) info.globals = some_vars(2);
        }
        if (info.has_lines) {
            size_t l = c.index(2);
            for (uint64_t a = 0; a < T; ++a)
                if (c.chance(1, 2)) {
                    info.lines[l] = a;
                    if (c.chance(1, 8)) info.lines[l + 1] = a, ++l;
                    l += 1 + (c.chance(1, 5) ? 1 : 0);
                }
            if (c.chance(1, 5)) info.lines[c.index(20)] = c.index(T);
        }
        if (info.has_source) {
            size_t k = info.lines.empty() ? c.index(6) : info.lines.rbegin()->first + c.index(4);
            for (size_t i = 0; i < k; ++i) {
                source_lines.push_back(c.pick<std::string>({"", "int a = 5;", "x", "  .text", "\t indented # not a comment", "\"quote", "}", "{ {} }"}));
                info.source += source_lines.back() + "\n";
            }
        }
    }
    std::string executable() {
        std::string t = model::program_text(prog.text, c.boolean());
        if (t.find(".text") == t.npos) t = ".text\n" + t;
        if (!prog.data.empty()) {
            std::string d = ".data\n";
            for (auto x : prog.data) d += std::to_string(x) + "\n";
            t = d + t;
        }
        return t + (t.back() == '\n' ? "" : "\n") + src::Render(c).sections(info);
    }

private:
    pbt::Ctx& c;
};

static std::string cli() {
    const char* e = getenv("VERIF_DBG_CLI");
    if (!e) { fprintf(stderr, "VERIF_DBG_CLI is not set\n"); _exit(3); }
    return e;
}

static bool refused(const std::string& s) {
    // an internal error, not an explanation
    for (auto x : {"_M_", "basic_string", "bad_alloc", "bad_optional", "bad_variant"})
        if (s.find(x) != s.npos) return false;
    if (s.rfind("Error: ", 0) == 0) return true;
    std::string w = s.substr(0, s.find_first_of(" \n"));
    return w == "<command>" || std::find(kCommands.begin(), kCommands.end(), w) != kCommands.end();
}

// A help text explains the command and names only subcommands there are.
static void bad_help(pbt::Ctx& c, const std::string& of, const std::string& got) {
    static const std::map<std::string, std::vector<std::string>> subs = {
        {"breakpoint", {"iset", "set", "remove", "enable", "disable", "idisable", "ienable", "iremove", "list"}},
        {"register", {"get", "set", "fget", "fset"}},
        {"memory", {"get", "set", "getstr", "setstr"}},
        {"watchpoint", {"iset", "iremove", "list"}},
        {"disassemble", {"range", "from", "function"}},
        {"assemble", {"interactive"}},
        {"source", {"from", "without"}}};
    // either the text of exactly that command or the overview of all
    std::string first = got.substr(0, got.find_first_of(" \n"));
    if (first != of && std::find(kCommands.begin(), kCommands.end(), first) != kCommands.end())
        c.fail("'help " + of + "' explains '" + first + "'");
    auto it = subs.find(of);
    if (it == subs.end() || first != of) return;
    std::istringstream is(got);
    for (std::string l; std::getline(is, l);) {
        if (l.rfind("- ", 0) != 0) continue;
        std::string w = l.substr(2, l.find(' ', 2) - 2);
        bool known = false;
        for (auto& s : it->second) known |= s.rfind(w, 0) == 0;
        if (!known) c.fail("'help " + of + "' offers the subcommand '" + w + "', which there is not");
    }
}

static void prop(pbt::Ctx& c) {
    Model m(c);
    m.debuggee();
    m.file = proc::scratch() + "/prog.t86";
    std::string exe = m.executable();
    size_t odd = c.weighted({30, 1, 1, 1});
    if (odd == 1) m.has_file = false;
    if (odd == 2) {
        m.bad_file = "x";
        exe = c.pick<std::string>({".text\nMOV R0\n", "garbage", ".text\nFOO R1, R2\nHALT\n", ".data\nx\n.text\nHALT\n"});
    }
    if (odd == 3) m.bad_file = "missing";
    if (m.bad_file != "missing") proc::write_file(m.file, exe);
    else unlink(m.file.c_str());
    c.note(exe + "--- commands ---\n");
    bool late = c.chance(1, 8);
    if (late)
        for (size_t i = 0; i < 2; ++i) m.op();
    std::unique_ptr<Remote> remote;
    bool attach = odd == 0 && c.chance(1, 20), gone = attach && c.chance(1, 4);
    int port = 0;
    if (attach) {
        remote = std::make_unique<Remote>();
        port = remote->port;
        c.note("# attached to a VM running the same program" + std::string(gone ? " that vanishes\n" : "\n"));
        gone ? m.attach_gone(port) : m.attach(port);
        if (gone) m.run(true, true);
    } else
        m.run(true);
    size_t n = (size_t)c.range(1, odd == 0 || odd == 3 ? 40 : 6);
    for (size_t i = 0; i < n; ++i) m.op();
    std::string in = m.input;
    if (c.chance(1, 8) && in.size() > 1) in.pop_back();  // no newline at the end
    std::vector<std::string> argv = {cli()};
    if (m.has_file) argv.push_back(m.file);
    std::string remote_out, trouble;
    std::thread vm;
    if (attach) {
        vm = std::thread([&, gone, rm = std::move(remote)]() mutable {
            if (!rm->connected()) {
                trouble = "the debugger did not connect";
                return;
            }
            try {
                if (gone) {
                    rm->Send("STOPPED");
                    rm->Receive();
                    rm->Send("START");
                    return;
                }
                vm::reset();
                vm::IoCapture io("");
                tiny::t86::OS os(8, 4, 1024);
                os.SetDebuggerComms(std::move(rm));
                os.Run(vm::load(m.prog));
                remote_out = io.out.str();
            } catch (const std::exception& e) {
                trouble = e.what();
            }
        });
    }
    auto r = proc::run(argv, in, 20, {"NODBGPROMPT=1"});
    if (vm.joinable()) vm.join();
    if (!trouble.empty()) c.fail("the process attached to: " + trouble);
    if (!r.exited() || r.crashed() || r.code() != 0) {
        std::string o = plain(r.out);
        c.fail("the debugger ended with " + r.how() + "; " + r.err.substr(0, 1500) + "\nlast output: " + o.substr(o.size() > 500 ? o.size() - 500 : 0));
    }
    std::string out = plain(r.out);
    size_t pos = 0;
    for (auto& e : m.script) {
        size_t at = out.find(kDelim, pos);
        // `help istep` and `istep x` print the same text
        if (at == out.npos) c.fail("'" + e.cmd + "': no further output; rest: \"" + out.substr(pos, 600) + "\"");
        std::string got = out.substr(pos, at - pos);
        size_t d = strlen(kDelim);
        if (got.empty() && (e.kind == Model::Expect::Refused || e.kind == Model::Expect::Some) && out.compare(at + d, d, kDelim) == 0) {
            got = kDelim;
            at += d;
        }
        pos = at + d;
        switch (e.kind) {
        case Model::Expect::Exact:
            if (!e.alts.count(got)) c.fail("'" + e.cmd + "' printed \"" + got.substr(0, 1200) + "\", reference \"" + e.alts.begin()->substr(0, 1200) + "\"" +
                                           (e.alts.size() > 1 ? " (or another of " + std::to_string(e.alts.size()) + ")" : ""));
            break;
        case Model::Expect::Refused:
            if (!refused(got)) c.fail("'" + e.cmd + "' must be refused, but printed \"" + got.substr(0, 600) + "\"");
            break;
        case Model::Expect::NoProcess:
            if (got.find("command to run a process first") == got.npos) c.fail("'" + e.cmd + "' without a process printed \"" + got.substr(0, 600) + "\"");
            break;
        default:
            if (!e.help.empty()) bad_help(c, e.help, got);
            if (got.empty()) c.fail("'" + e.cmd + "' printed nothing");
            if (got.rfind("Process stopped", 0) == 0) c.fail("'" + e.cmd + "' resumed the process");
        }
    }
    if (pos != out.size()) c.fail("unexpected output at the end: \"" + out.substr(pos, 600) + "\"");
    m.leave();
    if (attach && !gone && remote_out != m.remote_out) c.fail("the process attached to printed \"" + remote_out.substr(0, 600) + "\", reference \"" + m.remote_out.value_or("").substr(0, 600) + "\"");
    if (attach) c.label(gone ? "attached, vanished" : "attached");
    if (m.stops >= 1 && m.script.size() >= 4) c.nontrivial();
    if (m.bp_hits) c.label("breakpoint hit");
    if (m.wp_hits) c.label("watchpoint hit");
    if (m.evals) c.label("expression evaluated");
    if (m.runs > 1) c.label("run again");
    if (m.refusals) c.label("refused command");
    if (m.source_stops) c.label("stop shown in source");
    if (m.ref.st.halted) c.label("ran to end");
    if (m.ref.st.err != Err::None) c.label("execution error");
    if (odd) c.label(odd == 1 ? "no file" : odd == 2 ? "bad file" : "missing file");
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C18";
    cfg.rule =
        "A case is one run of the real dbg-cli program on a generated executable (with and without line mapping, functions, variables, source) and a "
        "generated script of up to 40 commands in full or abbreviated, valid and refused; its whole transcript is compared with the one predicted by "
        "the reference debugger on the sequential ISA model. Non-trivial: at least one stop of the process and four commands.";
    cfg.assumptions = {"as C07-C15", "wording of help texts and error messages is not compared, only that a command is refused",
                       "the program does not read input"};
    cfg.quick_cases = 200000;
    cfg.thorough_cases = 3000000;
    cfg.quick_secs = 45;
    cfg.thorough_secs = 1200;
    cfg.case_timeout = 60;
    proc::ScratchRoot root;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
