// C19: the t86-cli program runs executables as sequential execution does and refuses bad invocations and files.
#include <sys/file.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "debugger/Native.h"
#include "proc.h"
#include "refasm.h"
#include "vm.h"

using namespace gen;

static std::string cli() {
    const char* e = getenv("VERIF_T86_CLI");
    if (!e) { fprintf(stderr, "VERIF_T86_CLI is not set\n"); _exit(3); }
    return e;
}

// The program with every HALT replaced by a jump to code that prints the registers and part of the memory.
static Prog with_epilogue(pbt::Ctx& c, Prog p) {
    int64_t end = (int64_t)p.text.size();
    for (auto& i : p.text)
        if (i.op == Op::HALT) i = {Op::JMP, Opd::I(end), {}};
    auto put = [&](int r) { p.text.push_back({Op::PUTNUM, Opd::R(r), {}}); };
    for (size_t i = 0; i < p.m.nr; ++i) put((int)i);
    put(SP);
    put(BP);
    std::vector<int64_t> cells;
    if (p.m.nm <= 16)
        for (size_t i = 0; i < p.m.nm; ++i) cells.push_back((int64_t)i);
    else {
        for (int i = 0; i < 8; ++i) cells.push_back(i);
        for (int i = 6; i-- > 0;) cells.push_back((int64_t)p.m.nm - 1 - i);
        cells.push_back((int64_t)c.index(p.m.nm));
    }
    for (auto a : cells) {
        p.text.push_back({Op::MOV, Opd::R(0), Opd::MI(a)});
        put(0);
    }
    for (size_t i = 0; i < p.m.nf; ++i) {
        p.text.push_back({Op::MOV, Opd::MI(0), Opd::F((int)i)});
        p.text.push_back({Op::MOV, Opd::R(0), Opd::MI(0)});
        put(0);
    }
    p.text.push_back({Op::HALT, {}, {}});
    return p;
}

static std::string file_text(pbt::Ctx& c, const Prog& p) {
    std::string data;
    if (!p.data.empty()) {
        data = ".data\n";
        for (auto d : p.data) data += std::to_string(d) + "\n";
    }
    std::string text = ".text\n" + [&] {
        std::string t = model::program_text(p.text, c.boolean());
        size_t at = t.find(".text\n");
        return at == std::string::npos ? t : t.substr(at + 6);
    }();
    return c.boolean() ? data + text : text + data;
}

static std::vector<std::string> options(pbt::Ctx& c, Machine0& m, const std::string& file, bool debug) {
    std::vector<std::vector<std::string>> parts = {{file}};
    auto opt = [&](const char* n, size_t v) {
        if (c.boolean()) parts.push_back({std::string(n) + "=" + std::to_string(v)});
        else parts.push_back({n, std::to_string(v)});
    };
    if (c.chance(2, 3)) { m.nr = c.chance(1, 6) ? c.pick<size_t>({16, 33}) : c.range(1, 10); opt("--register-cnt", m.nr); }
    else m.nr = 8;
    if (c.chance(1, 2)) { m.nf = c.range(0, 7); opt("--float-register-cnt", m.nf); }
    else m.nf = 4;
    if (c.chance(2, 3)) { m.nm = c.chance(1, 4) ? c.pick<size_t>({100, 1025, 3000}) : c.range(8, 40); opt("--memory-size", m.nm); }
    else m.nm = 1024;
    if (debug) parts.push_back({"--debug"});
    for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[c.index(i)]);
    std::vector<std::string> r;
    for (auto& p : parts) r.insert(r.end(), p.begin(), p.end());
    return r;
}

static std::string shell(const std::vector<std::string>& a) {
    std::string s = "t86-cli";
    for (auto& x : a) s += " '" + (x.rfind("/tmp/verif-", 0) == 0 ? x.substr(x.rfind('/') + 1) : x) + "'";
    return s + "\n";
}

static proc::Result go(const std::vector<std::string>& args, const std::string& input, double secs = 15) {
    std::vector<std::string> v = {cli()};
    v.insert(v.end(), args.begin(), args.end());
    return proc::run(v, input, secs);
}

// A refused invocation: nothing is executed, a message and a non-zero exit status are given.
static void refused(pbt::Ctx& c, const proc::Result& r, const std::string& what) {
    if (!r.exited() || r.crashed()) c.fail(what + ": " + r.how() + "; " + r.err.substr(0, 400));
    if (r.code() == 0) c.fail(what + ": exit status 0");
    if (!r.out.empty()) c.fail(what + ": printed \"" + r.out.substr(0, 300) + "\"");
    if (r.err.empty()) c.fail(what + ": no message");
}

static bool port_free() {
    int s = socket(AF_INET, SOCK_STREAM, 0);
    int on = 1;
    setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(9110);
    a.sin_addr.s_addr = INADDR_ANY;
    bool ok = bind(s, (sockaddr*)&a, sizeof a) == 0;
    close(s);
    return ok;
}

static sockaddr_in debug_port(uint32_t host) {
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(9110);
    a.sin_addr.s_addr = htonl(host);
    return a;
}

// The debugger connects, perhaps says something, and closes the connection: t86-cli has to end in an orderly way.
static void vanish(pbt::Ctx& c, const std::vector<std::string>& v, const std::string& input) {
    std::vector<std::string> say;
    for (size_t i = c.range(0, 3); i-- > 0;)
        say.push_back(c.pick<std::string>({"REASON", "PEEKREGS", "SINGLESTEP", "CONTINUE", "TEXTSIZE", "POKEDATA 0 1", "nonsense"}));
    bool partial = c.chance(1, 3), read_first = c.boolean();
    for (auto& m : say) c.note("debugger: " + m + "\n");
    c.note(partial ? "debugger: half of a message\ndebugger: gone\n" : "debugger: gone\n");
    proc::Child ch(v, input);
    int s = -1;
    for (int t = 0; t < 2000; ++t) {
        s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        auto a = debug_port(INADDR_LOOPBACK);
        if (connect(s, (sockaddr*)&a, sizeof a) == 0) break;
        close(s);
        s = -1;
        if (!ch.running()) break;
        usleep(5000);
    }
    if (s < 0) {
        proc::Result r = ch.wait(0.2);
        c.fail("--debug: no debugger can connect to port 9110 (" + r.how() + ") " + r.err.substr(0, 300));
    }
    auto message = [&](const std::string& m, size_t cut) {
        uint64_t n = m.size();
        std::string raw((char*)&n, 8);
        raw += m;
        raw.resize(raw.size() - cut);
        if (send(s, raw.data(), raw.size(), MSG_NOSIGNAL) < 0) {}
    };
    char buf[256];
    if (read_first && recv(s, buf, sizeof buf, 0) < 0) {}
    for (auto& m : say) message(m, 0);
    if (partial) message("CONTINUE", c.range(1, 15));
    close(s);
    proc::Result r = ch.wait(10);
    if (!r.exited() || r.crashed()) c.fail("--debug, after the debugger is gone: " + r.how() + "; " + r.err.substr(0, 300));
    c.label("debugger gone");
}

static void debugged(pbt::Ctx& c, const std::vector<std::string>& args, const Prog& p, const State& fin, bool err) {
    int lock = open((std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/lock").c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0600);
    struct Unlock { int f; ~Unlock() { close(f); } } un{lock};
    // one at a time; while a failure is being reproduced or shrunk, wait for the port
    if (flock(lock, c.replay ? LOCK_EX : LOCK_EX | LOCK_NB) != 0) c.discard();
    if (!port_free()) c.discard();
    std::vector<std::string> v = {cli()};
    v.insert(v.end(), args.begin(), args.end());
    switch (c.weighted({4, 2, 1})) {
    case 1: return vanish(c, v, p.input);
    case 2: {  // somebody else listens on the port
        int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), on = 1;
        struct Close { int f; ~Close() { close(f); } } cl{s};
        setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
        auto a = debug_port(INADDR_ANY);
        if (bind(s, (sockaddr*)&a, sizeof a) != 0 || listen(s, 1) != 0) c.discard();
        refused(c, proc::run(v, p.input, 10), "the debugging port is taken");
        c.label("port taken");
        return;
    }
    default: break;
    }
    std::string bad;
    {
        proc::Child ch(v, p.input);
        std::unique_ptr<Process> pr;
        for (int t = 0; t < 2000 && !pr; ++t) {
            try {
                pr = Native::Initialize(9110);
            } catch (const std::exception& e) {
                if (!ch.running()) break;
                usleep(5000);
            }
        }
        if (!pr) {
            proc::Result r = ch.wait(0.2);
            c.fail("--debug: no debugger can connect to port 9110 (" + r.how() + ") " + r.err.substr(0, 300));
        }
        try {
            Native n(std::move(pr));
            auto e = n.WaitForDebugEvent();
            if (!std::holds_alternative<ExecutionBegin>(e)) bad = "the first event is not the begin of execution";
            if (bad.empty()) {
                n.ContinueExecution();
                e = n.WaitForDebugEvent();
                if (err ? !std::holds_alternative<CpuError>(e) : !std::holds_alternative<ExecutionEnd>(e))
                    bad = std::string("the event after the run is not ") + (err ? "a CPU error" : "the end of execution");
            }
            if (bad.empty()) {
                auto regs = n.GetRegisters();
                for (size_t i = 0; i < p.m.nr; ++i) {
                    auto it = regs.find("R" + std::to_string(i));
                    if (it == regs.end()) bad = "no register R" + std::to_string(i);
                    else if (it->second != fin.r[i]) bad = "R" + std::to_string(i) + " is " + std::to_string(it->second) + ", reference " + std::to_string(fin.r[i]);
                }
                if (regs.count("R" + std::to_string(p.m.nr))) bad = "there are more registers than requested";
                size_t k = std::min<size_t>(p.m.nm, 1024);
                auto mem = n.ReadMemory(0, k);
                for (size_t i = 0; i < k && bad.empty(); ++i)
                    if (mem.at(i) != fin.mem[i]) bad = "[" + std::to_string(i) + "] is " + std::to_string(mem[i]) + ", reference " + std::to_string(fin.mem[i]);
            }
            n.Terminate();
        } catch (const std::exception& e) {
            if (bad.empty()) bad = std::string("the debugging connection failed: ") + e.what();
        }
        proc::Result r = ch.wait(10);
        if (bad.empty() && (!r.exited() || r.crashed())) bad = "after the debugger terminated it: " + r.how() + " " + r.err.substr(0, 300);
        if (bad.empty() && r.out != fin.out) bad = "printed \"" + r.out.substr(0, 400) + "\", reference \"" + fin.out.substr(0, 400) + "\"";
    }
    if (!bad.empty()) c.fail("--debug: " + bad);
    c.label("debugged");
}

// The read end of a pipe that holds a text, inherited by the programs started meanwhile.
struct Pipe {
    int fd = -1;
    bool fill(const std::string& t) {
        int p[2];
        if (access("/dev/fd/0", F_OK) != 0 || pipe(p) != 0) return false;
        bool ok = write(p[1], t.data(), t.size()) == (ssize_t)t.size();
        close(p[1]);
        fd = p[0];
        return ok;
    }
    std::string name() const { return "/dev/fd/" + std::to_string(fd); }
    ~Pipe() { if (fd >= 0) close(fd); }
};

static void prop(pbt::Ctx& c) {
    std::string dir = proc::scratch(), file = dir + "/" + c.pick<std::string>({"prog.t86", "a", "x y.t86", "-"});
    if (file.back() == '-') file = dir + "/f";
    size_t kind = c.weighted({100, 30, 40, 10, 10, 8});
    Machine0 m;
    std::vector<std::string> args = options(c, m, file, kind == 5);
    Opts o;
    o.large_ints = false;
    o.io_weight = 4;
    o.max_text = c.pick<size_t>({10, 25, 40});
    o.faults = c.chance(1, 3);
    ProgGen g(c, m, o);
    Prog p = with_epilogue(c, g.run());
    State st = p.init();
    model::Machine mach(st, &p.text);
    for (int i = 0; i < 5000 && !mach.st.halted && mach.st.err == Err::None; ++i) mach.step();
    if (mach.st.nan) c.discard();
    bool err = mach.st.err != Err::None;
    if (!err && !mach.st.halted) c.discard();
    std::string text = file_text(c, p);
    switch (kind) {
    case 0: {  // a valid invocation
        proc::write_file(file, text);
        Pipe pipe;
        if (text.size() < 60000 && c.chance(1, 8) && pipe.fill(text)) {  // as by process substitution
            std::replace(args.begin(), args.end(), file, pipe.name());
            c.label("executable from a pipe");
        }
        c.note(shell(args) + (p.input.empty() ? "" : "input " + p.input + "\n") + text);
        proc::Result r = go(args, p.input);
        if (!r.exited() || r.crashed()) c.fail(r.how() + "; " + r.err.substr(0, 600));
        if (r.out != mach.st.out) c.fail("printed \"" + r.out.substr(0, 800) + "\", reference \"" + mach.st.out.substr(0, 800) + "\"");
        if (!err && r.code() != 0) c.fail("exit status " + std::to_string(r.code()) + " after a run to HALT");
        if (args.size() > 1 || err) c.nontrivial();
        c.label(err ? "execution error" : "run to HALT");
        if (!p.data.empty()) c.label("with data");
        if (!p.input.empty()) c.label("with input");
        break;
    }
    case 1: {  // a bad invocation
        proc::write_file(file, text);
        static const std::vector<std::string> names = {"--register-cnt", "--float-register-cnt", "--memory-size"};
        std::string what;
        switch (c.index(5)) {
        case 0: {
            what = "unknown option";
            args.insert(args.begin() + (c.boolean() ? 0 : args.size()), c.pick<std::string>({"--foo", "--registers=4", "-x", "--memory", "--Debug"}));
            break;
        }
        case 1:
            what = "second file";
            if (c.boolean()) args.push_back(file);
            else args.insert(args.begin(), file + "2");
            break;
        case 2:
            what = "no file";
            args.erase(std::find(args.begin(), args.end(), file));
            break;
        case 3:
        default: {
            what = "option value that is not a number";
            std::string n = c.pick(names), v = c.pick<std::string>({"x", "5x", "1.5", "0x10", "99999999999999999999999", "four", "+", "1 2", "-1", "-"});
            if (c.chance(1, 4)) {
                what = "memory that cannot exist";
                n = "--memory-size";
                v = c.pick<std::string>({"18446744073709551615", "1152921504606846976", "9223372036854775807"});
            }
            // leave out a valid use of the same option
            for (size_t i = 0; i < args.size();) {
                if (args[i] == n) args.erase(args.begin() + i, args.begin() + i + 2);
                else if (args[i].rfind(n + "=", 0) == 0) args.erase(args.begin() + i);
                else ++i;
            }
            if (c.boolean()) args.push_back(n + "=" + v);
            else {
                args.push_back(n);
                args.push_back(v);
            }
            break;
        }
        }
        c.note(shell(args));
        refused(c, go(args, p.input), what);
        c.nontrivial();
        c.label("bad invocation: " + what);
        break;
    }
    case 2: {  // a file that is not an executable
        std::string bad = text;
        size_t k = (size_t)c.range(1, 3);
        for (size_t i = 0; i < k; ++i) {
            size_t at = c.index(bad.size());
            switch (c.index(4)) {
            case 0: bad.erase(at, (size_t)c.range(1, 6)); break;
            case 1: bad.insert(at, c.pick<std::string>({",", "]", "[", "R1", " FOO ", "\"", "99999999999", ".5", "1.5", "+", " HALT 1 ", ";", "@", "\n.data\nx\n"})); break;
            case 2: bad[at] = (char)c.range(33, 126); break;
            default: bad = bad.substr(0, at); break;
            }
            if (bad.empty()) break;
        }
        try {
            refasm::Reader r(bad);
            r.file();
            throw pbt::Discard{};  // still valid
        } catch (const refasm::Unjudged&) {
            throw pbt::Discard{};
        } catch (const refasm::Reject& e) {
            c.note(shell(args) + bad + "\n# not an executable: " + e.why + "\n");
        }
        proc::write_file(file, bad);
        refused(c, go(args, p.input), "a file that is not an executable");
        c.nontrivial();
        c.label("bad file");
        break;
    }
    case 3: {  // no such file, or a directory
        size_t at = std::find(args.begin(), args.end(), file) - args.begin();
        args[at] = c.boolean() ? dir : dir + "/missing/" + std::string((size_t)c.range(1, 400), 'x');
        c.note(shell(args));
        refused(c, go(args, p.input), "unreadable file");
        c.nontrivial();
        c.label("unreadable file");
        break;
    }
    case 4: {  // data that do not fit
        p.data.resize(m.nm);
        size_t extra = c.chance(1, 3) ? 0 : (size_t)c.range(1, 5);
        for (auto& d : p.data) d = (int64_t)c.range(-5, 5);
        for (size_t i = 0; i < extra; ++i) p.data.push_back((int64_t)i + 1);
        if (m.nm > 40) c.discard();
        p.text = {{Op::HALT, {}, {}}};
        p = with_epilogue(c, p);
        model::Machine m2(extra ? State(1, 0, 8) : p.init(), &p.text);
        while (!extra && !m2.st.halted) m2.step();
        text = file_text(c, p);
        proc::write_file(file, text);
        c.note(shell(args) + text);
        proc::Result r = go(args, p.input);
        if (extra) refused(c, r, "data larger than the memory");
        else if (!r.exited() || r.crashed() || r.code()) c.fail("data filling the memory: " + r.how() + "; " + r.err.substr(0, 600));
        else if (r.out != m2.st.out) c.fail("data filling the memory: printed \"" + r.out.substr(0, 800) + "\", reference \"" + m2.st.out.substr(0, 800) + "\"");
        c.nontrivial();
        c.label(extra ? "data too large" : "data fill the memory");
        break;
    }
    default: {
        proc::write_file(file, text);
        c.note(shell(args) + (p.input.empty() ? "" : "input " + p.input + "\n") + text);
        debugged(c, args, p, mach.st, err);
        c.nontrivial();
        break;
    }
    }
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C19";
    cfg.rule =
        "A case is one run of the real t86-cli program: a generated executable with generated options (order, both spellings), whose complete output - "
        "including a dump of registers and memory at the end - is compared with the sequential ISA model; or a bad option, surplus or missing argument, "
        "unreadable file, corrupted executable, too large data, which must be refused with a message, a non-zero status and no output; or a --debug run "
        "driven to its end over port 9110, left by its debugger, or started while the port is taken. Non-trivial: options given, an execution error, a refusal, or a debugged run.";
    cfg.assumptions = {"as C01", "options without their value (which fall back to the default) are not generated"};
    cfg.quick_cases = 200000;
    cfg.thorough_cases = 3000000;
    cfg.quick_secs = 30;
    cfg.thorough_secs = 900;
    cfg.case_timeout = 40;
    proc::ScratchRoot root;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
